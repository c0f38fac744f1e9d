"""Symbolic string formatting: '%' and str.format / f-strings."""
import re
import z3
from .engine import E
from .sym import (Sym, SymStr, SymInt, SymFloat, SymBool, SymEnum, Num, Ch,
                  digits_of, mkint, _trunc)

_SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d*)'
                   r'(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)', re.S)


def to_str(x):
    """str(x) keeping symbolic text."""
    if isinstance(x, (SymStr, SymEnum)):
        return x
    if isinstance(x, SymBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, (SymInt, SymFloat)):
        return SymStr([Num(x)])
    if type(x) in (tuple, list) and any(isinstance(i, Sym) for i in x):
        from . import rt
        parts = []
        for i, it in enumerate(x):
            if i:
                parts.append(', ')
            parts.extend(SymStr.of(to_repr(it))._sx)
        if type(x) is tuple:
            return SymStr.make(['('] + parts + [',)' if len(x) == 1 else ')'])
        return SymStr.make(['['] + parts + [']'])
    if isinstance(x, BaseException) and len(x.args) == 1 and isinstance(x.args[0], Sym):
        return to_str(x.args[0])
    t = type(x)
    m = t.__str__
    # python level __str__ may return a symbolic string
    f = getattr(m, '__code__', None)
    if f is not None:
        return m(x)
    return str(x)


def to_repr(x):
    if isinstance(x, SymStr):
        # quoting depends on the content; only used in messages
        return SymStr.make(["'"] + list(x._sx) + ["'"])
    if isinstance(x, SymEnum):
        return repr(x._sxval())
    if isinstance(x, Sym):
        return to_str(x)
    if type(x) in (tuple, list) and any(isinstance(i, Sym) for i in x):
        return to_str(x)
    f = getattr(type(x).__repr__, '__code__', None)
    if f is not None:
        return type(x).__repr__(x)
    return repr(x)


def int_text(v, width, zero, left, plus=False):
    if not width:
        return SymStr([Num(v)])
    cs = digits_of(v, width if zero and not left else 0)
    if len(cs) < width:
        pad = ' ' * (width - len(cs))
        cs = cs + [pad] if left else [pad] + cs
    return SymStr.make(cs)


def pad_text(s, width, left):
    if not width:
        return s
    n = len(SymStr.of(s)._chars())
    if n >= width:
        return s
    pad = ' ' * (width - n)
    return SymStr.make(list(SymStr.of(s)._sx) + [pad] if left else [pad] + list(SymStr.of(s)._sx))


def percent(fmt, args):
    if isinstance(fmt, SymEnum):
        fmt = fmt._sxval()
    if isinstance(fmt, SymStr):
        fmt = _opaque(fmt)
    else:
        fmt = (fmt, {})
    text, holes = fmt
    mapping = args if isinstance(args, dict) else None
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    pos = 0
    ai = 0

    def nextarg():
        nonlocal ai
        if ai >= len(args):
            raise TypeError('not enough arguments for format string')
        ai += 1
        return args[ai - 1]

    used_map = False
    for m in _SPEC.finditer(text):
        out.append(text[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            from . import rt
            arg = rt.getitem(mapping, m.group('key'))
            used_map = True
        else:
            w = m.group('width')
            width = nextarg() if w == '*' else (int(w) if w else 0)
            p = m.group('prec')
            prec = nextarg() if p == '*' else (int(p) if p else None)
            arg = nextarg()
        if m.group('key') is not None:
            width = int(m.group('width') or 0)
            prec = int(m.group('prec')) if m.group('prec') else None
        flags = m.group('flags')
        left = '-' in flags
        zero = '0' in flags
        if conv == 's' or conv == 'r' or conv == 'a':
            s = to_str(arg) if conv == 's' else to_repr(arg)
            if prec is not None:
                s = s[:prec]
            s = pad_text(s, width, left)
            out.extend(SymStr.of(s)._sx)
        elif isinstance(arg, Sym) and conv in 'diu' and prec is None and '+' not in flags and ' ' not in flags:
            if isinstance(arg, (SymStr, SymEnum)):
                raise TypeError('%%%s format: a real number is required, not str' % conv)
            if isinstance(arg, SymFloat):
                arg = mkint(z3.simplify(_trunc(arg._sx)))
            if isinstance(arg, SymBool):
                arg = int(bool(arg))
            if isinstance(arg, SymInt):
                out.extend(SymStr.of(int_text(arg, width, zero, left))._sx)
            else:
                out.append(('%' + flags + (str(width) if width else '') + conv) % arg)
        else:
            if isinstance(arg, Sym):
                if isinstance(arg, (SymStr, SymEnum)) and conv in 'diufFeEgGxXo':
                    raise TypeError('%%%s format: a real number is required, not str' % conv)
                arg = _conc(arg)
            spec = '%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + conv
            out.append(spec % arg)
    out.append(text[pos:])
    if ai < len(args) and mapping is None and not used_map:
        raise TypeError('not all arguments converted during string formatting')
    if holes:
        final = []
        for a in out:
            if isinstance(a, str):
                final.extend(_fill(a, holes))
            else:
                final.append(a)
        out = final
    return SymStr.make(out)


def _opaque(fmt):
    """Format string with symbolic parts: they must not contain '%'."""
    parts, holes = [], {}
    for a in fmt._chars():
        if isinstance(a, str):
            parts.append(a)
        else:
            if E.branch(a.e == ord('%')):
                parts.append('%')
            else:
                key = '\ue002%d\ue003' % len(holes)
                holes[key] = a
                parts.append(key)
    return ''.join(parts), holes


def _fill(text, holes):
    out = []
    for piece in re.split('(\ue002\\d+\ue003)', text):
        if piece in holes:
            out.append(holes[piece])
        elif piece:
            out.append(piece)
    return out


def _conc(x):
    if isinstance(x, SymInt):
        return int(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymFloat):
        return float(x)
    if isinstance(x, SymEnum):
        return x._sxval()
    if isinstance(x, SymStr):
        return str(x)
    return x


_FSPEC = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[+\- ])?(?P<alt>#)?(?P<zero>0)?'
                    r'(?P<width>\d+)?(?P<grp>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$', re.S)


def format_value(x, spec=''):
    if isinstance(spec, Sym):
        spec = str(spec)
    if not isinstance(x, Sym):
        if spec == '':
            return to_str(x) if type(x).__format__ is object.__format__ else format(x, spec)
        return format(x, spec)
    if spec == '':
        return to_str(x)
    m = _FSPEC.match(spec)
    if m and isinstance(x, SymInt) and m.group('type') in (None, 'd') and not m.group('grp') \
            and not m.group('sign') and m.group('prec') is None and m.group('align') in (None, '>', '<'):
        if not m.group('fill') or m.group('fill') == ' ' or (m.group('fill') == '0' and m.group('align') == '>'):
            zero = bool(m.group('zero')) or m.group('fill') == '0'
            return int_text(x, int(m.group('width') or 0), zero, m.group('align') == '<')
    if m and isinstance(x, (SymStr, SymEnum)) and m.group('type') in (None, 's') and \
            m.group('align') in (None, '<', '>') and m.group('fill') in (None, ' '):
        s = x
        if m.group('prec'):
            s = s[:int(m.group('prec'))]
        return pad_text(s, int(m.group('width') or 0), m.group('align') != '>')
    return format(_conc(x), spec)


def str_format(fmt, args, kwargs):
    import string
    if isinstance(fmt, Sym):
        fmt = _conc(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        head = re.match(r'[^.\[]*', field).group(0)
        rest = field[len(head):]
        if head == '':
            obj = args[auto]
            auto += 1
        elif head.isdigit():
            obj = args[int(head)]
        else:
            obj = kwargs[head]
        for acc in re.findall(r'\.[^.\[]+|\[[^\]]+\]', rest):
            if acc[0] == '.':
                obj = getattr(obj, acc[1:])
            else:
                k = acc[1:-1]
                from . import rt
                obj = rt.getitem(obj, int(k) if k.isdigit() else k)
        if conv == 's':
            obj = to_str(obj)
        elif conv == 'r':
            obj = to_repr(obj)
        if spec and '{' in spec:
            spec = str_format(spec, args[auto:], kwargs)
        out.extend(SymStr.of(format_value(obj, spec or ''))._sx)
    return SymStr.make(out)
