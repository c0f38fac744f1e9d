"""time facade for the symbolically executed datetime module: strftime works on
symbolic fields (the numeric directives, as glibc does), the rest is concrete."""
import time as real
import types
from .sym import Sym
from . import fmt, rt


def _pad(x, n):
    return fmt.percent('%%0%dd' % n, x) if isinstance(x, Sym) else '%0*d' % (n, x)


def strftime(format, t=None):
    if t is None:
        return real.strftime(format)
    if not any(isinstance(x, Sym) for x in t) and not isinstance(format, Sym):
        return real.strftime(format, t)
    y, m, d, H, M, S, wd, yd = list(t)[:8]
    out = ''
    i = 0
    while i < len(format):
        c = format[i]
        if c == '%':
            i += 1
            k = format[i]
            if k == 'Y':        # glibc does not pad
                s = fmt.percent('%d', y) if isinstance(y, Sym) else str(y)
            elif k == 'F':
                s = strftime('%Y-%m-%d', t)
            elif k == 'T':
                s = strftime('%H:%M:%S', t)
            elif k in 'mdHMS':
                s = _pad({'m': m, 'd': d, 'H': H, 'M': M, 'S': S}[k], 2)
            elif k == 'j':
                s = _pad(yd, 3)
            elif k == '%':
                s = '%'
            else:
                raise NotImplementedError('strftime %%%s of a symbolic value' % k)
            out = out + s
        else:
            out = out + c
        i += 1
    return out


def make_module():
    m = types.ModuleType('time')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.strftime = strftime

    def struct_time(seq, *a):
        seq = tuple(seq)
        if any(isinstance(x, Sym) for x in seq):
            return seq
        return real.struct_time(seq, *a)
    m.struct_time = struct_time
    return m
