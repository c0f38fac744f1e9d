"""re facade: concrete strings go to the real engine, symbolic strings to a
backtracking matcher over the parsed pattern."""
import re as real
import types
from re import _parser as sre, _constants as sc
from .engine import E, PathLimit
from .sym import (Sym, SymStr, SymEnum, Ch, in_ranges, _pred_ranges, zbool)
import z3


class SPattern(object):
    def __init__(self, p):
        self._p = p
        self._tree = None

    def __getattr__(self, name):
        return getattr(self._p, name)

    def _parsed(self):
        if self._tree is None:
            self._tree = sre.parse(self._p.pattern, self._p.flags & ~real.UNICODE if isinstance(self._p.pattern, str) else self._p.flags)
        return self._tree

    def _run(self, s, mode, pos=0, endpos=None):
        if isinstance(s, SymEnum):
            s = s._sxval()
        if not isinstance(s, Sym):
            f = getattr(self._p, mode)
            return f(s, pos) if endpos is None else f(s, pos, endpos)
        if not isinstance(s, SymStr):
            raise TypeError("expected string or bytes-like object, got '%s'" % s._sxtype.__name__)
        if endpos is not None:
            s = SymStr.of(s[:endpos])
        cs = s._chars()
        m = Matcher(cs, self._p.flags)
        items = list(self._parsed())
        starts = [pos] if mode in ('match', 'fullmatch') else range(pos, len(cs) + 1)
        for st in starts:
            for end, groups in m.seq(items, 0, st, {}):
                if mode == 'fullmatch' and end != len(cs):
                    continue
                return SMatch(self, s, cs, st, end, groups)
        return None

    def match(self, s, pos=0, endpos=None):
        return self._run(s, 'match', pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        return self._run(s, 'fullmatch', pos, endpos)

    def search(self, s, pos=0, endpos=None):
        return self._run(s, 'search', pos, endpos)

    def finditer(self, s, *a):
        if isinstance(s, SymEnum):
            s = s._sxval()
        if not isinstance(s, Sym):
            for m in self._p.finditer(s, *a):
                yield m
            return
        pos, n = 0, len(s)
        while pos <= n:
            m = self._run(s, 'search', pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, *a):
        out = []
        for m in self.finditer(s, *a):
            g = m.groups('')
            out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, SymEnum):
            s = s._sxval()
        if not isinstance(s, Sym) and not isinstance(repl, Sym):
            if callable(repl):
                from . import rt
                return self._gsub(lambda m: repl(m), SymStr.of(s), count)
            return self._p.sub(repl, s, count)
        return self._gsub(repl, SymStr.of(s), count)

    def _gsub(self, repl, s, count):
        cs = s._chars()
        out, pos, n = [], 0, 0
        text = SymStr.make(cs)
        for m in self.finditer(text if isinstance(text, Sym) else text):
            if count and n >= count:
                break
            out.extend(SymStr.of(SymStr.make(cs[pos:m.start()]))._sx)
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, str) and '\\' in repl:
                r = m.expand(repl)
            else:
                r = repl
            out.extend(SymStr.of(r)._sx)
            pos = m.end()
            n += 1
        out.extend(SymStr.of(SymStr.make(cs[pos:]))._sx)
        return SymStr.make(out)

    def split(self, s, maxsplit=0):
        if isinstance(s, SymEnum):
            s = s._sxval()
        if not isinstance(s, Sym):
            return self._p.split(s, maxsplit)
        cs = s._chars()
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(SymStr.make(cs[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(SymStr.make(cs[pos:]))
        return out


class SMatch(object):
    def __init__(self, pat, string, cs, start, end, groups):
        self.re = pat
        self.string = string
        self._cs = cs
        self._spans = dict(groups)
        self._spans[0] = (start, end)

    @property
    def lastindex(self):
        return max([g for g in self._spans if g] or [None]) if len(self._spans) > 1 else None

    def _gid(self, g):
        if isinstance(g, str):
            return self.re._p.groupindex[g]
        if g > self.re._p.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        sp = self._spans.get(self._gid(g))
        if sp is None:
            return default
        return SymStr.make(self._cs[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re._p.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._get(n, default)) for n in self.re._p.groupindex)

    def span(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        out = []
        for piece in real.split(r'(\\g<\w+>|\\\d+)', template):
            m = real.match(r'\\g<(\w+)>|\\(\d+)$', piece)
            if m:
                g = m.group(1) or m.group(2)
                out.extend(SymStr.of(self._get(int(g) if g.isdigit() else g, ''))._sx)
            elif piece:
                out.append(piece)
        return SymStr.make(out)

    def __bool__(self):
        return True


def _category(cat):
    c = str(cat)
    neg = '_NOT_' in c
    kind = c.split('_')[-1]
    if kind == 'DIGIT':
        f = str.isdecimal
    elif kind == 'SPACE':
        f = str.isspace
    else:
        f = lambda x: x.isalnum() or x == '_'
    return (lambda x: not f(x)) if neg else f


def _ascii_category(cat):
    c = str(cat)
    neg = '_NOT_' in c
    kind = c.split('_')[-1]
    if kind == 'DIGIT':
        f = lambda x: '0' <= x <= '9'
    elif kind == 'SPACE':
        f = lambda x: x in ' \t\n\r\x0b\x0c'
    else:
        f = lambda x: x.isascii() and (x.isalnum() or x == '_')
    return (lambda x: not f(x)) if neg else f


def _set_pred(items, flags):
    neg = False
    tests = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda x, av=av: ord(x) == av)
        elif op is sc.RANGE:
            tests.append(lambda x, av=av: av[0] <= ord(x) <= av[1])
        elif op is sc.CATEGORY:
            tests.append(_ascii_category(av) if flags & real.ASCII else _category(av))
        else:
            raise PathLimit('regex set %s' % op)

    def base(x):
        return any(t(x) for t in tests)
    if flags & real.IGNORECASE:
        # the engine's own folding decides
        parts = []
        for op, av in items:
            if op is sc.LITERAL:
                parts.append(real.escape(chr(av)))
            elif op is sc.RANGE:
                parts.append('%s-%s' % (real.escape(chr(av[0])), real.escape(chr(av[1]))))
            elif op is sc.CATEGORY:
                k = str(av).split('_')[-1][0].lower()
                parts.append('\\' + (k.upper() if '_NOT_' in str(av) else k))
        rx = real.compile('[' + ''.join(parts) + ']', flags & (real.IGNORECASE | real.ASCII))
        def base(x): return rx.match(x) is not None
    return (lambda x: not base(x)) if neg else base


class Matcher(object):
    def __init__(self, cs, flags):
        self.cs = cs
        self.flags = flags

    def test(self, i, key, fn):
        """Does character i satisfy fn? (forks)"""
        c = self.cs[i]
        if isinstance(c, str):
            return fn(c)
        return E.branch(z3.simplify(in_ranges(c.e, _pred_ranges(key, fn, c.dom))))

    def seq(self, items, k, pos, groups):
        if k == len(items):
            yield pos, groups
            return
        op, av = items[k]
        for p, g in self.one(op, av, pos, groups, items, k):
            for r in self.seq(items, k + 1, p, g):
                yield r

    def one(self, op, av, pos, groups, items, k):
        cs = self.cs
        n = len(cs)
        fl = self.flags
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            if pos >= n:
                return
            if fl & real.IGNORECASE:
                fn = _set_pred([(sc.LITERAL, av)], fl)
            else:
                fn = lambda x: ord(x) == av
            t = self.test(pos, ('lit', av, bool(fl & real.IGNORECASE)), fn)
            if t == (op is sc.LITERAL):
                yield pos + 1, groups
        elif op is sc.ANY:
            if pos < n and (fl & real.DOTALL or not self.test(pos, 'nl', lambda x: x == '\n')):
                yield pos + 1, groups
        elif op is sc.IN:
            if pos < n and self.test(pos, ('in', repr(av), fl), _set_pred(av, fl)):
                yield pos + 1, groups
        elif op is sc.BRANCH:
            for alt in av[1]:
                for r in self.seq(list(alt), 0, pos, groups):
                    yield r
        elif op is sc.SUBPATTERN:
            gid, add, sub, p = av
            for e, g in self.seq(list(p), 0, pos, groups):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, e)
                yield e, g
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            hi = n - pos + lo + 1 if hi is sc.MAXREPEAT else hi
            gen = self.repeat(list(p), lo, hi, pos, groups, op is not sc.MIN_REPEAT, 0)
            if op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                for r in gen:
                    yield r
                    return
            else:
                for r in gen:
                    yield r
        elif op is sc.AT:
            if self.at(av, pos):
                yield pos, groups
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                ok, g2 = False, groups
                for w in range(lo, hi + 1):
                    if pos - w < 0:
                        continue
                    for e, g in self.seq(list(p), 0, pos - w, groups):
                        if e == pos:
                            ok, g2 = True, g
                            break
                    if ok:
                        break
            else:
                ok, g2 = False, groups
                for e, g in self.seq(list(p), 0, pos, groups):
                    ok, g2 = True, g
                    break
            if ok == (op is sc.ASSERT):
                yield pos, (g2 if op is sc.ASSERT else groups)
        elif op is sc.GROUPREF:
            sp = groups.get(av)
            if sp is None:
                return
            w = sp[1] - sp[0]
            if pos + w > n:
                return
            for i in range(w):
                if not bool(zbool(SymStr._cheq(cs[sp[0] + i], cs[pos + i]))):
                    return
            yield pos + w, groups
        elif op is getattr(sc, 'ATOMIC_GROUP', None):
            for r in self.seq(list(av), 0, pos, groups):
                yield r
                return
        else:
            raise PathLimit('regex operator %s' % op)

    def repeat(self, p, lo, hi, pos, groups, greedy, done):
        if not greedy and done >= lo:
            yield pos, groups
        if done < hi:
            for e, g in self.seq(p, 0, pos, groups):
                if e == pos and done >= lo:
                    continue
                for r in self.repeat(p, lo, hi, e, g, greedy, done + 1):
                    yield r
        if greedy and done >= lo:
            yield pos, groups

    def at(self, av, pos):
        n = len(self.cs)
        multi = self.flags & real.MULTILINE

        def nl(i):
            return self.test(i, 'nl', lambda x: x == '\n')
        if av is sc.AT_BEGINNING:
            return pos == 0 or bool(multi and nl(pos - 1))
        if av is sc.AT_BEGINNING_STRING:
            return pos == 0
        if av is sc.AT_END:
            if pos == n or (pos == n - 1 and nl(pos)):
                return True
            return bool(multi and nl(pos))
        if av is sc.AT_END_STRING:
            return pos == n
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = lambda x: x.isalnum() or x == '_'
            a = pos > 0 and self.test(pos - 1, 'word', w)
            b = pos < n and self.test(pos, 'word', w)
            return (a != b) == (av is sc.AT_BOUNDARY)
        raise PathLimit('regex anchor %s' % av)


def compile(pattern, flags=0):
    if isinstance(pattern, SPattern):
        return pattern
    if isinstance(pattern, Sym):
        pattern = str(pattern)
    return SPattern(real.compile(pattern, flags))


def _fn(name):
    def f(pattern, *a, **k):
        flags = k.pop('flags', 0)
        return getattr(compile(pattern, flags), name)(*a, **k)
    return f


def escape(s):
    if isinstance(s, SymStr):
        out = []
        for c in s._chars():
            if isinstance(c, str):
                out.append(real.escape(c))
            else:
                if E.branch(in_ranges(c.e, _pred_ranges('reescape', lambda x: real.escape(x) != x, c.dom))):
                    out.append('\\')
                out.append(c)
        return SymStr.make(out)
    return real.escape(s)


def make_module():
    m = types.ModuleType('re')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.compile = compile
    m.escape = escape
    for n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split'):
        setattr(m, n, _fn(n))

    def sub(pattern, repl, string, count=0, flags=0):
        return compile(pattern, flags).sub(repl, string, count)
    m.sub = sub
    return m
