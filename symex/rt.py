"""Runtime called by rewritten code."""
import builtins
import functools
import itertools
import operator
import types
import collections
import sys
import z3
from . import fmt
from .engine import E, Control
from .sym import (Sym, merged_int, SymStr, SymInt, SymFloat, SymBool, SymEnum, Num, Ch,
                  zbool, bexpr, not_, and_all, or_any, is_sym, _trunc, mkint,
                  tofloat, token_str, untoken, in_ranges, _pred_ranges, rexpr,
                  iexpr, DIGITS, TOK_A, _str_call)

FUNCS = set()          # functions of the code under test that were executed


def enter(name):
    FUNCS.add(name)


# ------------------------------------------------------------- containers
def _merged_lookup(items, key):
    """A free key in a table of integers is one term, not one path per key."""
    items = list(items)
    if len(items) < 5 or not all(type(v) is int for k, v in items):
        return None
    return merged_int([(eq(k, key), v) for k, v in items])


class SDict(dict):
    """dict that accepts symbolic keys.

    While all keys are concrete it is an ordinary dict; a symbolic key in a
    store switches it to an association list (kept in insertion order)."""
    __slots__ = ('_sxl',)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sxl = None
        self.update(*a, **k)

    def _find(self, key):
        """index into the association list or None (forks)."""
        for i, (k, v) in enumerate(self._sxl):
            if truth(eq(k, key)):
                return i
        return None

    def _symkey(self, key):
        return _has_sym(key)

    def _toalist(self):
        if self._sxl is None:
            self._sxl = list(dict.items(self))
            dict.clear(self)

    def _lookup(self, key):
        """(found, value)"""
        if self._sxl is None:
            if not self._symkey(key):
                try:
                    return True, dict.__getitem__(self, key)
                except KeyError:
                    return False, None
            merged = _merged_lookup(dict.items(self), key)
            if merged is not None:
                return merged
            for k in list(dict.keys(self)):
                if truth(eq(k, key)):
                    return True, dict.__getitem__(self, k)
            return False, None
        i = self._find(key)
        if i is None:
            return False, None
        return True, self._sxl[i][1]

    def __getitem__(self, key):
        f, v = self._lookup(key)
        if not f:
            m = getattr(type(self), '__missing__', None)
            if m:
                return m(self, key)
            raise KeyError(key)
        return v

    def __setitem__(self, key, value):
        if self._sxl is None:
            if not self._symkey(key):
                dict.__setitem__(self, key, value)
                return
            for k in list(dict.keys(self)):
                if truth(eq(k, key)):
                    dict.__setitem__(self, k, value)
                    return
            self._toalist()
            self._sxl.append((key, value))
            return
        i = self._find(key)
        if i is None:
            self._sxl.append((key, value))
        else:
            self._sxl[i] = (self._sxl[i][0], value)

    def __delitem__(self, key):
        self.pop(key)

    def __contains__(self, key):
        return self._lookup(key)[0]

    def __len__(self):
        return dict.__len__(self) if self._sxl is None else len(self._sxl)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return dict.__iter__(self) if self._sxl is None else iter([k for k, v in self._sxl])

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        return dict.keys(self) if self._sxl is None else [k for k, v in self._sxl]

    def values(self):
        return dict.values(self) if self._sxl is None else [v for k, v in self._sxl]

    def items(self):
        return dict.items(self) if self._sxl is None else list(self._sxl)

    def get(self, key, default=None):
        f, v = self._lookup(key)
        return v if f else default

    def pop(self, key, *default):
        if self._sxl is None and not self._symkey(key):
            return dict.pop(self, key, *default)
        if self._sxl is None:
            for k in list(dict.keys(self)):
                if truth(eq(k, key)):
                    return dict.pop(self, k)
        else:
            i = self._find(key)
            if i is not None:
                return self._sxl.pop(i)[1]
        if default:
            return default[0]
        raise KeyError(key)

    def popitem(self):
        if self._sxl is None:
            return dict.popitem(self)
        if not self._sxl:
            raise KeyError('popitem(): dictionary is empty')
        return self._sxl.pop()

    def setdefault(self, key, default=None):
        f, v = self._lookup(key)
        if f:
            return v
        self[key] = default
        return default

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, SDict) or isinstance(o, dict) or hasattr(o, 'keys'):
                for key in o.keys():
                    self[key] = o[key]
            else:
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        dict.clear(self)
        self._sxl = None

    def copy(self):
        return SDict(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = SDict()
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        conds = []
        for k, v in self.items():
            f, w = (o._lookup(k) if isinstance(o, SDict) else (k in o, o.get(k)))
            if not f:
                return False
            conds.append(eq(v, w))
        return and_all(conds)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = None

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self.items())

    def __reduce__(self):
        return (dict, (dict(self.items()),))

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r


class _SSetMixin(object):
    """Set over an association list; concrete members use a real set."""

    def __init__(self, it=()):
        self._c = {}
        self._s = []
        for x in it:
            self._add(x)

    def _add(self, x):
        if _has_sym(x):
            for y in list(self._c) + self._s:
                if truth(eq(x, y)):
                    return
            self._s.append(x)
        else:
            for y in self._s:
                if truth(eq(x, y)):
                    return
            self._c[x] = None

    def _has(self, x):
        """SymBool or bool."""
        if not _has_sym(x):
            if x in self._c:
                return True
            if not self._s:
                return False
            return or_any([eq(x, y) for y in self._s])
        return or_any([eq(x, y) for y in list(self._c) + self._s])

    def __contains__(self, x):
        return bool(self._has(x))

    def __len__(self):
        return len(self._c) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(list(self._c) + self._s)

    def __eq__(self, o):
        if not isinstance(o, (_SSetMixin, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and truth(and_all([contains(x, o) for x in self]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        return type(self)(list(self) + list(o))
    __ror__ = __or__

    def union(self, *os):
        return type(self)(list(self) + [x for o in os for x in o])

    def __and__(self, o):
        return type(self)([x for x in self if truth(contains(x, o))])
    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & SSet(o)
        return r

    def __sub__(self, o):
        return type(self)([x for x in self if not truth(contains(x, o))])

    def __rsub__(self, o):
        return type(self)([x for x in o if not truth(contains(x, self))])

    def difference(self, *os):
        r = self
        for o in os:
            r = r - SSet(o)
        return r

    def __xor__(self, o):
        return (self - o) | (SSet(o) - self)

    def __le__(self, o):
        return truth(and_all([contains(x, o) for x in self]))
    def issubset(self, o):
        return self <= SSet(o)

    def __ge__(self, o):
        return truth(and_all([contains(x, self) for x in o]))
    def issuperset(self, o):
        return self >= SSet(o)

    def __lt__(self, o):
        return self <= o and len(self) < len(o)

    def __gt__(self, o):
        return self >= o and len(self) > len(o)

    def isdisjoint(self, o):
        return not truth(or_any([contains(x, self) for x in o]))

    def copy(self):
        return type(self)(self)

    def __deepcopy__(self, memo):
        return type(self)(self)

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self)


class SFrozenSet(_SSetMixin):
    _sxtype = frozenset

    def __hash__(self):
        return hash(frozenset(self._c))


class SSet(_SSetMixin):
    _sxtype = set
    __hash__ = None

    def add(self, x):
        self._add(x)

    def discard(self, x):
        if not _has_sym(x) and x in self._c:
            del self._c[x]
            return
        for i, y in enumerate(self._s):
            if truth(eq(x, y)):
                del self._s[i]
                return
        if _has_sym(x):
            for y in list(self._c):
                if truth(eq(x, y)):
                    del self._c[y]
                    return

    def remove(self, x):
        n = len(self)
        self.discard(x)
        if len(self) == n:
            raise KeyError(x)

    def pop(self):
        if self._c:
            return self._c.popitem()[0]
        return self._s.pop()

    def clear(self):
        self._c.clear()
        del self._s[:]

    def update(self, *os):
        for o in os:
            for x in o:
                self._add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self


def _has_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) is tuple:
        return any(_has_sym(i) for i in x)
    return False


# -------------------------------------------------------------- operators
def truth(x):
    return bool(x)


_PRIM = (int, str, float, bool, type(None), bytes)


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a == b
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        return and_all([True if x is y else eq(x, y) for x, y in zip(a, b)])
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in _PRIM and tb in _PRIM:
        return a != b
    if ta is tb and ta in (list, tuple):
        return not_(eq(a, b))
    return a != b


def is_(a, b):
    if isinstance(a, (SymBool, SymInt)) or isinstance(b, (SymBool, SymInt)):
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
                return a == b
            return False
    return a is b


def is_not(a, b):
    return not_(is_(a, b))


def contains(x, c):
    """x in c"""
    t = type(c)
    if isinstance(c, _SSetMixin):
        return c._has(x)
    if isinstance(c, SDict):
        if c._sxl is None and not _has_sym(x):
            return dict.__contains__(c, x)
        return or_any([eq(k, x) for k in c.keys()])
    if t in (list, tuple):
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in c):
            return or_any([True if x is y else eq(x, y) for y in c])
        return x in c
    if t is str:
        if isinstance(x, Sym):
            if not isinstance(x, (SymStr, SymEnum)):
                raise TypeError("'in <string>' requires string as left operand")
            if isinstance(x, SymEnum):
                return or_any([x == s for s in set(x._sxopts) if s in c])
            return _in_str(x, c)
        return x in c
    if isinstance(c, SymStr):
        return c._contains(x) if isinstance(x, (str, SymStr, SymEnum)) else x in c
    if isinstance(c, (dict, set, frozenset)) or t.__name__ in ('dict_keys', 'mappingproxy', 'odict_keys'):
        if _has_sym(x):
            return or_any([eq(k, x) for k in c])
        return x in c
    if t is range and isinstance(x, SymInt):
        if len(c) == 0:
            return False
        lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
        e = z3.And(x._sx >= lo, x._sx <= hi)
        if abs(c.step) != 1:
            e = z3.And(e, (x._sx - c[0]) % abs(c.step) == 0)
        return zbool(z3.simplify(e))
    if isinstance(c, SRange):
        return c.has(x)
    return x in c


def _in_str(x, c):
    """symbolic needle in a concrete haystack"""
    n = len(x)
    if n == 1:
        return or_any([x == ch for ch in sorted(set(c))])
    return or_any([x == c[i:i + n] for i in range(len(c) - n + 1)])


def not_contains(x, c):
    return not_(contains(x, c))


def mod(a, b):
    if type(a) is str:
        if type(b) in _PRIM:
            return a % b
        return fmt.percent(a, b)
    return a % b


def fstring(*parts):
    return SymStr.make([x for p in parts for x in SymStr.of(p)._sx])


def fvalue(x, conv, spec):
    if conv == 's':
        x = fmt.to_str(x)
    elif conv == 'r':
        x = fmt.to_repr(x)
    elif conv == 'a':
        x = ascii(x)
    return fmt.format_value(x, spec)


def mkdict(*pairs):
    d = SDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


class _Star(object):
    pass


_STAR = _Star
STAR = _STAR


def mkset(*items):
    return SSet(items)


# ---------------------------------------------------------------- subscripts
def sym_index(i, n, exc='list index out of range'):
    """Concrete index for a sequence of length n (forks; IndexError path)."""
    if isinstance(i, SymBool):
        i = int(bool(i))
        return i
    if not bool(and_all([i >= -n, i < n])):
        raise IndexError(exc)
    return int(i)


def clamp(i, n):
    """SymInt slice bound -> concrete, out-of-range values are one class."""
    if not isinstance(i, SymInt):
        return i
    if i >= n:
        return n
    if i <= -n:
        return -n
    return int(i)


def sym_slice(s, n):
    if isinstance(s.start, Sym) or isinstance(s.stop, Sym) or isinstance(s.step, Sym):
        step = s.step
        if isinstance(step, Sym):
            step = int(step)
        if step is not None and step < 0:
            return slice(int(s.start) if isinstance(s.start, Sym) else s.start,
                         int(s.stop) if isinstance(s.stop, Sym) else s.stop, step)
        start = clamp(s.start, n)
        stop = clamp(s.stop, n)
        # -n as a stop means 0
        if isinstance(s.stop, Sym) and stop == -n:
            stop = 0
        return slice(start, stop, step)
    return s


def getitem(o, i):
    t = type(o)
    ti = type(i)
    if ti is SymInt or ti is SymBool:
        if t is list or t is tuple or t is range:
            return o[sym_index(i, len(o), '%s index out of range' % t.__name__)]
        if t is str or t is bytes:
            return o[sym_index(i, len(o), 'string index out of range')]
        if isinstance(o, collections.deque):
            return o[sym_index(i, len(o), 'deque index out of range')]
    elif ti is slice:
        if t in (list, tuple, str, bytes, range, SymStr):
            return o[sym_slice(i, len(o))]
        return o[i]
    if isinstance(i, Sym) or ti is tuple and _has_sym(i):
        if isinstance(o, dict) and not isinstance(o, SDict):
            merged = _merged_lookup(o.items(), i)
            if merged is not None and merged[0]:
                return merged[1]
            for k in list(o) if merged is None else ():
                if truth(eq(k, i)):
                    return o[k]
            raise KeyError(i)
        if t is types.MappingProxyType:
            for k in list(o):
                if truth(eq(k, i)):
                    return o[k]
            raise KeyError(i)
        if t in (list, tuple, str) and isinstance(i, (SymStr, SymEnum, SymFloat)):
            raise TypeError('%s indices must be integers or slices, not %s' % (t.__name__, i._sxtype.__name__))
    return o[i]


def setitem(o, i, v):
    t = type(o)
    if t is list:
        if isinstance(i, (SymInt, SymBool)):
            o[sym_index(i, len(o), 'list assignment index out of range')] = v
            return
        if type(i) is slice:
            o[sym_slice(i, len(o))] = v
            return
    o[i] = v


def delitem(o, i):
    t = type(o)
    if t is list:
        if isinstance(i, (SymInt, SymBool)):
            del o[sym_index(i, len(o), 'list assignment index out of range')]
            return
        if type(i) is slice:
            del o[sym_slice(i, len(o))]
            return
    del o[i]


# --------------------------------------------------------------------- calls
def proxytype(x):
    return getattr(type(x), '_sxtype', type(x))


def m_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (Sym, _SSetMixin)):
            return x._sxtype
        if type(x) is SDict:
            return dict
        return type(x)
    return type(*a)


def m_isinstance(x, cls):
    if isinstance(x, (Sym, _SSetMixin)):
        t = x._sxtype
        if isinstance(cls, types.UnionType):
            cls = cls.__args__
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        try:
            return issubclass(t, cls)
        except TypeError:
            return isinstance(x, cls)
    return isinstance(x, cls)


def m_len(x):
    t = type(x)
    if t is SymStr and any(isinstance(a, Num) and isinstance(a.v, SymInt) for a in x._sx):
        return len(x)
    return len(x)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in (str, int, float, bool):
            return str(x)
        return fmt.to_str(x)
    if a and type(a[0]) is bytes:
        return untoken(str(*a, **k))
    return str(*a, **k)


def m_repr(x):
    return fmt.to_repr(x)


_WS = ' \t\n\r\x0b\x0c'


def parse_int(s, base=10):
    """int(SymStr)"""
    if base != 10:
        return int(s._concrete(), base)
    at = s._sx
    if len(at) == 1 and isinstance(at[0], Num):
        v = at[0].v
        if isinstance(v, SymInt):
            return v
        raise ValueError("invalid literal for int() with base 10")
    if len(at) == 2 and at[0] in ('0', '00', '000', '+') and isinstance(at[1], Num) and isinstance(at[1].v, SymInt):
        if at[1].v >= 0:
            return at[1].v
        raise ValueError("invalid literal for int() with base 10")
    cs = SymStr.of(s.strip())._chars()
    bad = ValueError("invalid literal for int() with base 10")
    neg = False
    if cs:
        if truth(zbool(SymStr._cheq(cs[0], '-'))):
            neg, cs = True, cs[1:]
        elif truth(zbool(SymStr._cheq(cs[0], '+'))):
            cs = cs[1:]
    if not cs:
        raise bad
    acc = z3.IntVal(0)
    prev_us = True
    for c in cs:
        if truth(zbool(SymStr._cheq(c, '_'))):
            if prev_us:
                raise bad
            prev_us = True
            continue
        prev_us = False
        d = _digit(c)
        if d is None:
            raise bad
        acc = acc * 10 + d
    if prev_us:
        raise bad
    return mkint(z3.simplify(-acc if neg else acc))


def _digit(c):
    """Int expression of a decimal digit character, or None (forks)."""
    import unicodedata
    if isinstance(c, str):
        v = unicodedata.decimal(c, None)
        return None if v is None else z3.IntVal(v)
    ascii_ = [(max(lo, 48), min(hi, 57)) for lo, hi in c.dom if max(lo, 48) <= min(hi, 57)]
    if ascii_ and E.branch(in_ranges(c.e, ascii_)):
        return z3.simplify(c.e - 48)
    other = _pred_ranges('uni_decimal', lambda x: not '0' <= x <= '9' and unicodedata.decimal(x, None) is not None, c.dom)
    if other and E.branch(in_ranges(c.e, other)):
        for lo, hi in other:
            # blocks of ten digits
            for cp in range(lo, hi + 1):
                if unicodedata.decimal(chr(cp)) == 0 or cp == lo:
                    end = cp
                    while end + 1 <= hi and unicodedata.decimal(chr(end + 1)) != 0:
                        end += 1
                    if E.branch(in_ranges(c.e, [(cp, end)])):
                        return z3.simplify(c.e - cp + unicodedata.decimal(chr(cp)))
        raise AssertionError('digit block')
    return None


def parse_float(s):
    at = s._sx
    if len(at) == 1 and isinstance(at[0], Num):
        v = at[0].v
        return v if isinstance(v, SymFloat) else tofloat(v)
    cs = SymStr.of(s.strip())._chars()
    bad = ValueError('could not convert string to float')
    neg = False
    if cs:
        if truth(zbool(SymStr._cheq(cs[0], '-'))):
            neg, cs = True, cs[1:]
        elif truth(zbool(SymStr._cheq(cs[0], '+'))):
            cs = cs[1:]
    acc = z3.IntVal(0)
    scale = 0
    seen = False
    dot = False
    for i, c in enumerate(cs):
        if not dot and truth(zbool(SymStr._cheq(c, '.'))):
            dot = True
            continue
        d = _digit(c)
        if d is None:
            # exponents, inf, nan: leave to the concrete parser
            if truth(or_any([zbool(SymStr._cheq(c, x)) for x in 'eEiInN_'])):
                return float(s._concrete())
            raise bad
        seen = True
        acc = acc * 10 + d
        if dot:
            scale += 1
    if not seen:
        raise bad
    acc = z3.simplify(-acc if neg else acc)
    if z3.is_int_value(acc):
        return acc.as_long() / (10.0 ** scale)
    r = z3.ToReal(acc)
    if scale:
        r = r / z3.RealVal(10 ** scale)
    return SymFloat(z3.simplify(r))


def m_int(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymEnum):
            x = x._sxval()
            return int(x, *a[1:], **k)
        if isinstance(x, SymStr):
            base = a[1] if len(a) > 1 else k.get('base', 10)
            return parse_int(x, base)
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymFloat):
            return mkint(z3.simplify(_trunc(x._sx)))
        return x
    return int(*a, **k)


def m_float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SymEnum):
            return float(x._sxval())
        if isinstance(x, SymStr):
            return parse_float(x)
        return tofloat(x)
    return float(*a)


def m_bool(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, (SymStr, SymEnum)):
            return bool(x)
        return zbool(z3.simplify(bexpr(x)))
    return bool(*a)


def m_ord(c):
    if isinstance(c, SymEnum):
        return ord(c._sxval())
    if isinstance(c, SymStr):
        cs = c._chars()
        if len(cs) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(cs))
        if isinstance(cs[0], str):
            return ord(cs[0])
        return SymInt(cs[0].e)
    return ord(c)


def m_chr(i):
    if isinstance(i, SymInt):
        if not bool(and_all([i >= 0, i <= 0x10FFFF])):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr([Ch(i._sx)])
    return chr(i)


def m_abs(x):
    return abs(x)


def _minmax(name, args, kw):
    py = getattr(builtins, name)
    if kw.get('key') is not None:
        seq = list(args[0] if len(args) == 1 else args)
        if not seq:
            return py(*args, **kw)
        best, bk = seq[0], kw['key'](seq[0])
        for x in seq[1:]:
            kx = kw['key'](x)
            if (kx < bk) if name == 'min' else (kx > bk):
                best, bk = x, kx
        return best
    seq = list(args[0]) if len(args) == 1 else list(args)
    if not any(isinstance(x, Sym) for x in seq):
        if len(args) == 1:
            return py(seq, **kw)
        return py(*seq)
    if all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in seq):
        e = iexpr(seq[0])
        for x in seq[1:]:
            y = iexpr(x)
            e = z3.If(y < e if name == 'min' else y > e, y, e)
        return mkint(z3.simplify(e))
    return py(seq)


def m_min(*a, **k):
    return _minmax('min', a, k)


def m_max(*a, **k):
    return _minmax('max', a, k)


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


class SRange(object):
    """range() with symbolic bounds."""
    _sxtype = range

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(self.step, Sym):
            self.step = int(self.step)
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def has(self, x):
        if self.step > 0:
            c = and_all([x >= self.start, x < self.stop])
        else:
            c = and_all([x <= self.start, x > self.stop])
        if abs(self.step) != 1:
            c = and_all([c, (x - self.start) % abs(self.step) == 0])
        return c

    def _conc(self):
        return range(int(self.start), int(self.stop), self.step)

    def __len__(self):
        return len(self._conc())

    def __getitem__(self, i):
        return self._conc()[i]

    def __reversed__(self):
        return reversed(self._conc())

    def __contains__(self, x):
        return bool(self.has(x))


def m_range(*a):
    if any(isinstance(x, Sym) for x in a):
        for x in a:
            if isinstance(x, (SymStr, SymEnum, SymFloat)):
                raise TypeError("'%s' object cannot be interpreted as an integer" % x._sxtype.__name__)
        if len(a) == 1:
            return SRange(0, a[0], 1)
        if len(a) == 2:
            return SRange(a[0], a[1], 1)
        return SRange(*a)
    return range(*a)


def m_map(f, *its):
    if len(its) == 1:
        return (call(f, x) for x in its[0])
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_dict(*a, **k):
    return SDict(*a, **k)


def m_set(*a):
    return SSet(*a)


def m_frozenset(*a):
    return SFrozenSet(*a)


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_sorted(it, key=None, reverse=False):
    seq = list(it)
    if key is not None:
        return sorted(seq, key=lambda x: call(key, x), reverse=bool(reverse))
    return sorted(seq, reverse=bool(reverse))


def m_round(x, n=None):
    if isinstance(x, (SymInt, SymFloat)):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def m_divmod(a, b):
    return (a // b, a % b)


def m_enumerate(it, start=0):
    i = start
    for x in it:
        yield (i, x)
        i = i + 1


def m_format(x, spec=''):
    return fmt.format_value(x, spec)


def m_hash(x):
    return hash(x)


def _attrname(o, name):
    """the attribute of o that the symbolic name equals, or the name itself"""
    s = name._sxval() if isinstance(name, SymEnum) else name
    if not isinstance(s, SymStr):
        return s
    for n in sorted(dir(o)):
        if truth(eq(s, n)):
            return n
    return s


def m_getattr(o, name, *d):
    if isinstance(name, (SymStr, SymEnum)):
        name = _attrname(o, name)
        if isinstance(name, SymStr):
            fallback = getattr(type(o), '__getattr__', None)
            if fallback is not None:
                try:
                    return fallback(o, name)
                except AttributeError:
                    if not d:
                        raise
            if d:
                return d[0]
            raise AttributeError(name)
    return getattr(o, name, *d)


def m_hasattr(o, name):
    if isinstance(name, (SymStr, SymEnum)):
        try:
            m_getattr(o._sxtype if isinstance(o, Sym) else o, name)
        except AttributeError:
            return False
        return True
    if isinstance(o, Sym):
        return hasattr(o._sxtype, name)
    return hasattr(o, name)


def m_setattr(o, name, v):
    if isinstance(name, (SymStr, SymEnum)):
        name = str(name)
    return setattr(o, name, v)


def m_index(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, (SymStr, SymEnum, SymFloat)):
        raise TypeError("'%s' object cannot be interpreted as an integer" % x._sxtype.__name__)
    return operator.index(x)


def m_iter(*a):
    if len(a) == 1 and isinstance(a[0], (SymInt, SymFloat, SymBool)):
        raise TypeError("'%s' object is not iterable" % a[0]._sxtype.__name__)
    return iter(*a)


def m_callable(x):
    return False if isinstance(x, Sym) else callable(x)


def m_issubclass(a, b):
    return issubclass(a, b)


def m_islice(it, *a):
    return itertools.islice(it, *[int(x) if isinstance(x, SymInt) else x for x in a])


def m_repeat(x, *n):
    if n and isinstance(n[0], SymInt):
        return (x for _ in m_range(n[0]))
    return itertools.repeat(x, *n)


def m_modf(x):
    import math
    if isinstance(x, (SymFloat, SymInt)):
        x = tofloat(x)
        w = SymFloat(z3.ToReal(_trunc(x._sx)))
        return (x - w, w)
    return math.modf(x)


def m_floor(x):
    import math
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


def m_ceil(x):
    import math
    return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)


def m_trunc(x):
    import math
    return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)


def m_copysign(a, b):
    import math
    if isinstance(a, Sym) or isinstance(b, Sym):
        a = abs(tofloat(a) if isinstance(a, Sym) else a)
        return a if b >= 0 else -a
    return math.copysign(a, b)


def m_isfinite(x):
    import math
    return True if isinstance(x, Sym) else math.isfinite(x)


def m_isnan(x):
    import math
    return False if isinstance(x, Sym) else math.isnan(x)


def m_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


import math as _math
MODELS = {
    type: m_type, isinstance: m_isinstance, len: m_len, str: m_str, repr: m_repr,
    int: m_int, float: m_float, bool: m_bool, ord: m_ord, chr: m_chr,
    min: m_min, max: m_max, sum: m_sum, range: m_range, map: m_map,
    filter: m_filter, dict: m_dict, set: m_set, frozenset: m_frozenset,
    any: m_any, all: m_all, sorted: m_sorted, round: m_round, divmod: m_divmod,
    enumerate: m_enumerate, format: m_format, getattr: m_getattr,
    hasattr: m_hasattr, setattr: m_setattr, operator.index: m_index,
    callable: m_callable, iter: m_iter,
    itertools.islice: m_islice, itertools.repeat: m_repeat,
    _math.modf: m_modf, _math.floor: m_floor, _math.ceil: m_ceil,
    _math.trunc: m_trunc, _math.copysign: m_copysign,
    _math.isfinite: m_isfinite, _math.isnan: m_isnan,
    functools.reduce: m_reduce,
    operator.eq: eq, operator.ne: ne, operator.mod: mod, operator.getitem: getitem,
    operator.contains: lambda c, x: contains(x, c), operator.not_: not_,
    dict.fromkeys: SDict.fromkeys,
    collections.OrderedDict: SDict,
}

_FT = types.FunctionType
_MT = types.MethodType
_BM = types.BuiltinMethodType
_MD = types.MethodDescriptorType


def _anysym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
    for x in k.values():
        if isinstance(x, Sym):
            return True
    return False


def call(f, *a, **k):
    t = type(f)
    if t is _FT or t is _MT:
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is _BM:
        s = f.__self__
        ts = type(s)
        if ts is str:
            n = f.__name__
            if n == 'join':
                return SymStr.of(s).join(a[0])
            if n == 'format':
                return fmt.str_format(s, a, k)
            if n == 'format_map':
                return fmt.str_format(s, (), a[0])
            if n == 'encode':
                return f(*a, **k)
            if _anysym(a, k) or any(type(x) is tuple and _has_sym(x) for x in a):
                return getattr(SymStr.of(s), n)(*a, **k)
            return f(*a, **k)
        if ts is bytes and f.__name__ == 'decode':
            return untoken(f(*a, **k))
        if isinstance(s, dict) and not isinstance(s, SDict) and a and _has_sym(a[0]):
            return _plain_dict_call(s, f.__name__, a)
        if ts in (set, frozenset) and (a and _has_sym(a[0])):
            if ts is frozenset or f.__name__ in ('union', 'intersection', 'difference'):
                return getattr(SSet(s), f.__name__)(*a, **k)
        if ts is list and a and isinstance(a[0], SymInt):
            if f.__name__ == 'insert':
                return s.insert(clamp(a[0], len(s)), a[1])
            if f.__name__ == 'pop':
                if not s:
                    raise IndexError('pop from empty list')
                return s.pop(sym_index(a[0], len(s), 'pop index out of range'))
        if ts is list and f.__name__ == 'sort' and k.get('key') is not None:
            s[:] = m_sorted(s, **k)
            return None
        return f(*a, **k)
    if t is _MD and a and isinstance(a[0], (SymStr, SymEnum)) and getattr(f, '__objclass__', None) is str:
        return getattr(SymStr.of(a[0]), f.__name__)(*a[1:], **k)
    return f(*a, **k)


def _plain_dict_call(d, name, a):
    if name in ('get', 'pop', '__getitem__', 'setdefault', '__contains__'):
        merged = _merged_lookup(d.items(), a[0]) if name in ('get', '__getitem__') else None
        if merged is not None and merged[0]:
            return merged[1]
        for k in list(d) if merged is None else ():
            if truth(eq(k, a[0])):
                return getattr(d, name)(k, *a[1:])
        if name == 'get':
            return a[1] if len(a) > 1 else None
        if name == '__contains__':
            return False
        if name == 'pop' and len(a) > 1:
            return a[1]
        if name in ('pop', '__getitem__'):
            raise KeyError(a[0])
    return getattr(d, name)(*a)


def reraise():
    """First statement of a broad except handler."""
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


def not__(x):
    return not_(x)
