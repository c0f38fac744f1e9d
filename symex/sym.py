"""Symbolic values: SymBool, SymInt, SymFloat (exact reals), SymStr, SymEnum."""
import z3
from fractions import Fraction
from .engine import E, mval, PathLimit

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Sym(object):
    """Marker base class; attribute names start with _sx to stay invisible."""
    __slots__ = ()


# --------------------------------------------------------------------- bools
def zbool(x):
    """z3 Bool (or python bool) -> python bool or SymBool."""
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SymBool(x)


def bexpr(x):
    """python truth value / Sym -> z3 Bool without forking."""
    if isinstance(x, SymBool):
        return x._sx
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, SymInt):
        return x._sx != 0
    if isinstance(x, SymFloat):
        return x._sx != 0
    return TRUE if x else FALSE


class SymBool(Sym):
    __slots__ = ('_sx',)
    _sxtype = bool

    def __init__(self, e):
        self._sx = e

    def __bool__(self):
        return E.branch(self._sx)

    def _int(self):
        return SymInt(z3.If(self._sx, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return zbool(z3.simplify(self._sx == bexpr(o)))
        if isinstance(o, (int, SymInt, float, SymFloat)):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return zbool(z3.simplify(z3.And(self._sx, bexpr(o))))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return zbool(z3.simplify(z3.Or(self._sx, bexpr(o))))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return zbool(z3.simplify(z3.Xor(self._sx, bexpr(o))))
        return self._int() ^ o
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def not_(x):
    if isinstance(x, SymBool):
        return zbool(z3.simplify(z3.Not(x._sx)))
    return not x


def and_all(xs):
    xs = list(xs)
    out = []
    for x in xs:
        e = bexpr(x)
        if z3.is_false(e):
            return False
        if not z3.is_true(e):
            out.append(e)
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def merged_int(pairs):
    """The int that belongs to the first true condition as one term: (found, value)."""
    if not or_any([c for c, v in pairs]):
        return False, None
    e = None
    for c, v in reversed(pairs):
        c = bexpr(c)
        e = z3.IntVal(v) if e is None else z3.If(c, z3.IntVal(v), e)
    return True, SymInt(z3.simplify(e))


def or_any(xs):
    out = []
    for x in xs:
        e = bexpr(x)
        if z3.is_true(e):
            return True
        if not z3.is_false(e):
            out.append(e)
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


# ---------------------------------------------------------------------- ints
def iexpr(x):
    if isinstance(x, SymInt):
        return x._sx
    if isinstance(x, SymBool):
        return z3.If(x._sx, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _isint(x):
    return isinstance(x, (int, SymInt, SymBool))


def _isnum(x):
    return isinstance(x, (int, float, SymInt, SymBool, SymFloat))


class SymInt(Sym):
    __slots__ = ('_sx',)
    _sxtype = int

    def __init__(self, e):
        self._sx = e

    def _sxval(self):
        return E.concretize(self._sx)

    def __bool__(self):
        return E.branch(self._sx != 0)

    def __index__(self):
        return E.concretize(self._sx)
    __int__ = __index__

    def __float__(self):
        return float(E.concretize(self._sx))

    def __hash__(self):
        return hash(E.concretize(self._sx))

    def __str__(self):
        return str(E.concretize(self._sx))
    __repr__ = __str__

    def __format__(self, spec):
        return format(E.concretize(self._sx), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # comparisons
    def _cmp(self, o, op):
        if _isint(o):
            return zbool(op(self._sx, iexpr(o)))
        if isinstance(o, (float, SymFloat)):
            return zbool(op(z3.ToReal(self._sx), rexpr(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # arithmetic
    def _ar(self, o, op, rev=False):
        if _isint(o):
            a, b = self._sx, iexpr(o)
            if rev:
                a, b = b, a
            return mkint(z3.simplify(op(a, b)))
        if isinstance(o, (float, SymFloat)):
            a, b = z3.ToReal(self._sx), rexpr(o)
            if rev:
                a, b = b, a
            return mkfloat(z3.simplify(op(a, b)))
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymStr)):
            if isinstance(o, str):
                return SymStr.of(o) * self
            return o * E.concretize(self._sx)
        if isinstance(o, (SymInt,)):
            # keep the arithmetic linear
            o = E.concretize(o._sx)
        elif isinstance(o, SymFloat):
            return o * E.concretize(self._sx)
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(z3.simplify(-self._sx))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self._sx >= 0, self._sx, -self._sx))

    def __invert__(self):
        return -self - 1

    def _divisor(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = int(o)
        return o

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) // o
        if not _isint(o):
            return NotImplemented
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            return mkint(z3.simplify(self._sx / z3.IntVal(o)))
        return mkint(z3.simplify((-self._sx) / z3.IntVal(-o)))

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            return tofloat(self) % o
        if not _isint(o):
            return NotImplemented
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o > 0:
            return mkint(z3.simplify(self._sx % z3.IntVal(o)))
        return -((-self) % (-o))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return o // E.concretize(self._sx)

    def __rmod__(self, o):
        return o % E.concretize(self._sx)

    def __rdivmod__(self, o):
        return divmod(o, E.concretize(self._sx))

    def __truediv__(self, o):
        return tofloat(self) / o

    def __rtruediv__(self, o):
        return o / E.concretize(self._sx)

    def __pow__(self, o, m=None):
        return pow(E.concretize(self._sx), int(o) if _isint(o) else o, m)

    def __rpow__(self, o):
        return o ** E.concretize(self._sx)

    def _bits(self, o, op):
        return op(E.concretize(self._sx), int(o))

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rlshift__(self, o):
        return o << E.concretize(self._sx)

    def __rrshift__(self, o):
        return o >> E.concretize(self._sx)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __trunc__
    __ceil__ = __trunc__

    def is_integer(self):
        return True

    def bit_length(self):
        return E.concretize(self._sx).bit_length()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


# -------------------------------------------------------------------- floats
def rexpr(x):
    if isinstance(x, SymFloat):
        return x._sx
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(iexpr(x))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        raise PathLimit('non-finite float in symbolic arithmetic')
    f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def mkfloat(e):
    return SymFloat(e)


def tofloat(x):
    if isinstance(x, SymFloat):
        return x
    return SymFloat(rexpr(x))


def as_int(e):
    """An Int expression equal to the Real e, None if e need not be integral."""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB):
        args = [as_int(a) for a in e.children()]
        if any(a is None for a in args):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(args)
        if k == z3.Z3_OP_MUL:
            return z3.Product(args)
        return -args[0] if k == z3.Z3_OP_UMINUS else args[0] - z3.Sum(args[1:])
    if k == z3.Z3_OP_ITE:
        a, b = as_int(e.arg(1)), as_int(e.arg(2))
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def rfloor(e):
    """floor of a Real; a name for it unless e is plainly an integer."""
    e = z3.simplify(e)
    i = as_int(e)
    if i is not None:
        return z3.simplify(i)
    key = ('floor', e.get_id())
    if key not in E.known:
        q = z3.Int(E.fresh('floor'))
        E.known[key] = q, e
        E.add(z3.And(z3.ToReal(q) <= e, e < z3.ToReal(q) + 1))
    return E.known[key][0]


def _trunc(e):
    e = z3.simplify(e)
    if as_int(e) is not None:
        return z3.simplify(as_int(e))
    return rfloor(e) if E.branch(e >= 0) else -rfloor(-e)


class SymFloat(Sym):
    """A float, modelled as an exact real (bounds: no rounding, no inf/nan)."""
    __slots__ = ('_sx',)
    _sxtype = float

    def __init__(self, e):
        self._sx = e

    def __bool__(self):
        return E.branch(self._sx != 0)

    def _concrete(self):
        m = E.get_model()
        f = mval(m, self._sx)
        f = Fraction(f)
        c = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        if E._check(self._sx != c) != z3.unsat:
            E.note_incomplete('float value chosen from the model')
        E.add(self._sx == c)
        return float(f)

    def __float__(self):
        return self._concrete()

    def __hash__(self):
        return hash(self._concrete())

    def __str__(self):
        return str(self._concrete())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __int__(self):
        return E.concretize(_trunc(self._sx))

    def __trunc__(self):
        return mkint(z3.simplify(_trunc(self._sx)))

    def __floor__(self):
        return mkint(rfloor(self._sx))

    def __ceil__(self):
        return mkint(z3.simplify(-rfloor(-self._sx)))

    def __round__(self, n=None):
        if n is not None:
            return round(self._concrete(), n)
        fl = as_int(z3.simplify(self._sx))
        if fl is not None:
            return mkint(z3.simplify(fl))
        fl = rfloor(self._sx)
        frac = self._sx - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        e = z3.If(frac < half, fl, z3.If(frac > half, fl + 1,
                  z3.If(fl % 2 == 0, fl, fl + 1)))
        return mkint(z3.simplify(e))

    def is_integer(self):
        return zbool(z3.IsInt(self._sx))

    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
            import operator
            name = op.__name__
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[name]
        if _isnum(o):
            return zbool(op(self._sx, rexpr(o)))
        return NotImplemented

    def __eq__(self, o):
        def eq(a, b): return a == b
        return self._cmp(o, eq)

    def __ne__(self, o):
        def ne(a, b): return a != b
        return self._cmp(o, ne)

    def __lt__(self, o):
        def lt(a, b): return a < b
        return self._cmp(o, lt)

    def __le__(self, o):
        def le(a, b): return a <= b
        return self._cmp(o, le)

    def __gt__(self, o):
        def gt(a, b): return a > b
        return self._cmp(o, gt)

    def __ge__(self, o):
        def ge(a, b): return a >= b
        return self._cmp(o, ge)

    def _ar(self, o, op, rev=False):
        if not _isnum(o):
            return NotImplemented
        a, b = self._sx, rexpr(o)
        if rev:
            a, b = b, a
        return mkfloat(z3.simplify(op(a, b)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, SymFloat):
            o = o._concrete()
        elif isinstance(o, SymInt):
            o = int(o)
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, SymFloat):
            o = o._concrete()
        elif isinstance(o, (SymInt, SymBool)):
            o = int(o)
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        return self._ar(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return o / self._concrete()

    def __floordiv__(self, o):
        return SymFloat(z3.ToReal(rfloor((self / o)._sx)))

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        q = self / o
        if isinstance(q, SymFloat):
            return self - SymFloat(z3.ToReal(rfloor(q._sx))) * (o if not isinstance(o, Sym) else float(o))
        return q

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return mkfloat(z3.simplify(-self._sx))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self._sx >= 0, self._sx, -self._sx))

    def __pow__(self, o, m=None):
        return self._concrete() ** o

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def as_integer_ratio(self):
        return self._concrete().as_integer_ratio()


# ------------------------------------------------------------------- strings
# Domains are tuples of inclusive (lo, hi) code point ranges.
def dom_of(chars):
    cps = sorted(set(ord(c) for c in chars))
    out = []
    for c in cps:
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return tuple(out)


def dom_union(*doms):
    rs = sorted(r for d in doms for r in d)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def dom_minus(dom, chars):
    out = list(dom)
    for c in sorted(set(ord(c) for c in chars)):
        new = []
        for lo, hi in out:
            if lo <= c <= hi:
                if lo <= c - 1:
                    new.append((lo, c - 1))
                if c + 1 <= hi:
                    new.append((c + 1, hi))
            else:
                new.append((lo, hi))
        out = new
    return tuple(out)


def dom_size(dom):
    return sum(hi - lo + 1 for lo, hi in dom)


def dom_has(dom, cp):
    return any(lo <= cp <= hi for lo, hi in dom)


def in_ranges(e, ranges):
    if not ranges:
        return FALSE
    parts = []
    for lo, hi in ranges:
        if lo == hi:
            parts.append(e == lo)
        else:
            parts.append(z3.And(e >= lo, e <= hi))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


FULL = ((0, 0x10FFFF),)
_PRED_CACHE = {}


def _pred_ranges(name, fn, dom):
    """Sub-ranges of dom on which fn(chr) is true."""
    key = (name, dom)
    if key not in _PRED_CACHE:
        out = []
        for lo, hi in dom:
            start = None
            for cp in range(lo, hi + 1):
                t = bool(fn(chr(cp)))
                if t and start is None:
                    start = cp
                elif not t and start is not None:
                    out.append((start, cp - 1))
                    start = None
            if start is not None:
                out.append((start, hi))
        _PRED_CACHE[key] = tuple(out)
    return _PRED_CACHE[key]


_MAP_CACHE = {}


def _map_groups(name, fn, dom):
    """Partition dom by the effect of fn: list of (ranges, delta or string)."""
    key = (name, dom)
    if key not in _MAP_CACHE:
        groups = {}
        for lo, hi in dom:
            for cp in range(lo, hi + 1):
                r = fn(chr(cp))
                k = (ord(r) - cp) if len(r) == 1 else r
                groups.setdefault(k, []).append(cp)
        out = []
        for k, cps in groups.items():
            out.append((dom_of([chr(c) for c in cps]), k))
        out.sort(key=lambda g: (isinstance(g[1], str), -dom_size(g[0])))
        _MAP_CACHE[key] = out
    return _MAP_CACHE[key]


class Ch(object):
    """One symbolic character: Int code point expression plus its domain."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom=FULL):
        self.e = e
        self.dom = dom


class Num(object):
    """The decimal text of a symbolic int or float (length not fixed yet)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


DIGITS = ((48, 57),)


def digits_of(v, width=0):
    """Characters of str(v) for SymInt v; forks on sign and digit count."""
    out = []
    e = v._sx
    if E.branch(e < 0):
        out.append('-')
        e = z3.simplify(-e)
    n = 1
    while True:
        if E.branch(e < 10 ** n):
            break
        n += 1
        if n > 40:
            raise PathLimit('integer with more than 40 digits')
    pad = width - n - len(out)
    out.extend('0' * max(0, pad))
    if n > 2:
        # name the digits: e = sum d_k * 10**k has exactly one solution, and
        # reading the number back from its digits stays linear
        key = ('digits', e.get_id(), n)
        if key not in E.known:
            ds = [z3.Int(E.fresh('digit')) for _ in range(n)]
            E.known[key] = ds, e
            E.add(z3.And([z3.And(d >= 0, d <= 9) for d in ds] + [e == z3.Sum([d * 10 ** k for k, d in enumerate(reversed(ds))])]))
        out.extend(Ch(z3.simplify(d + 48), DIGITS) for d in E.known[key][0])
        return out
    for k in range(n - 1, -1, -1):
        if n == 1:
            d = e
        elif k == n - 1:
            d = e / z3.IntVal(10 ** k)
        else:
            d = (e / z3.IntVal(10 ** k)) % 10
        out.append(Ch(z3.simplify(d + 48), DIGITS))
    return out


class SymStr(Sym):
    """A string of atoms: python str chunk | Ch | Num."""
    __slots__ = ('_sx',)
    _sxtype = str

    def __init__(self, atoms):
        self._sx = atoms

    # -- construction ----------------------------------------------------
    @staticmethod
    def make(atoms):
        """Normalise; returns a plain str when everything is concrete."""
        out = []
        for a in atoms:
            if isinstance(a, str):
                if a == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += a
                else:
                    out.append(a)
            elif isinstance(a, Ch):
                if z3.is_int_value(a.e):
                    c = chr(a.e.as_long())
                    if out and isinstance(out[-1], str):
                        out[-1] += c
                    else:
                        out.append(c)
                else:
                    out.append(a)
            else:
                out.append(a)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SymStr(out)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, SymEnum):
            return SymStr.of(x._sxval())
        return SymStr([x] if x else [])

    def _chars(self):
        """List of 1-char str / Ch; expands numbers."""
        out = []
        expanded = False
        for a in self._sx:
            if isinstance(a, str):
                out.extend(a)
            elif isinstance(a, Ch):
                out.append(a)
            else:
                expanded = True
                if isinstance(a.v, SymInt):
                    out.extend(digits_of(a.v))
                else:
                    out.extend(str(a.v._concrete()))
        if expanded:
            self._sx = list(out)
        return out

    def _concrete(self):
        """Choose one value from the model (recorded as incomplete)."""
        cs = self._chars()
        m = E.get_model()
        out = []
        for c in cs:
            if isinstance(c, str):
                out.append(c)
            else:
                out.append(chr(mval(m, c.e)))
        conds = [c.e == ord(o) for c, o in zip(cs, out) if not isinstance(c, str)]
        if conds:
            all_ = conds[0] if len(conds) == 1 else z3.And(*conds)
            if E._check(z3.Not(all_)) != z3.unsat:
                E.note_incomplete('string value chosen from the model')
            E.add(all_)
        s = ''.join(out)
        self._sx = [s] if s else []
        return s

    def _eval(self, model):
        out = []
        for a in self._sx:
            if isinstance(a, str):
                out.append(a)
            elif isinstance(a, Ch):
                out.append(chr(mval(model, a.e)))
            else:
                v = mval(model, a.v._sx)
                out.append(str(v) if isinstance(a.v, SymInt) else str(float(v)))
        return ''.join(out)

    # -- basics ------------------------------------------------------------
    def __str__(self):
        return self._concrete()

    def __repr__(self):
        return repr(self._concrete())

    def __format__(self, spec):
        return format(self._concrete(), spec)

    def __hash__(self):
        return hash(self._concrete())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        for a in self._sx:
            if isinstance(a, (Ch, Num)) or a:
                return True
        return False

    def __len__(self):
        return len(self._chars())

    def __iter__(self):
        for c in list(self._chars()):
            yield c if isinstance(c, str) else SymStr([c])

    def __reversed__(self):
        for c in reversed(list(self._chars())):
            yield c if isinstance(c, str) else SymStr([c])

    def __getitem__(self, i):
        cs = self._chars()
        if isinstance(i, slice):
            return SymStr.make(cs[i])
        if isinstance(i, SymInt):
            if not (i < len(cs)) or not (i >= -len(cs)):
                raise IndexError('string index out of range')
        return SymStr.make([cs[i]])

    # -- comparison ---------------------------------------------------------
    def _eq(self, o):
        """z3 Bool / bool."""
        o = SymStr.of(o)
        a, b = self._sx, o._sx
        if len(a) == len(b) and all(
                (type(x) is type(y)) and
                ((isinstance(x, str) and x == y) or
                 (isinstance(x, Num) and type(x.v) is type(y.v)) or
                 (isinstance(x, Ch))) for x, y in zip(a, b)):
            conds = []
            # with several Num atoms the split could be ambiguous unless separated
            nums = sum(isinstance(x, Num) for x in a)
            if nums <= 1:
                for x, y in zip(a, b):
                    if isinstance(x, Num):
                        conds.append(x.v._sx == y.v._sx)
                    elif isinstance(x, Ch):
                        conds.append(x.e == y.e)
                return z3.simplify(z3.And(*conds)) if conds else True
        if len(a) == 1 and isinstance(a[0], Num) and len(b) <= 1 and \
                (not b or isinstance(b[0], str)):
            return self._num_eq(a[0].v, b[0] if b else '')
        if len(b) == 1 and isinstance(b[0], Num) and len(a) <= 1 and \
                (not a or isinstance(a[0], str)):
            return self._num_eq(b[0].v, a[0] if a else '')
        if any(isinstance(x, Num) and isinstance(x.v, SymFloat) for x in a + b):
            # compare text around a float: a letter can never match
            pass
        ca, cb = self._chars(), o._chars()
        if len(ca) != len(cb):
            return False
        conds = []
        for x, y in zip(ca, cb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, str):
                if not dom_has(y.dom, ord(x)):
                    return False
                conds.append(y.e == ord(x))
            elif isinstance(y, str):
                if not dom_has(x.dom, ord(y)):
                    return False
                conds.append(x.e == ord(y))
            else:
                conds.append(x.e == y.e)
        if not conds:
            return True
        return z3.simplify(conds[0] if len(conds) == 1 else z3.And(*conds))

    @staticmethod
    def _num_eq(v, text):
        if isinstance(v, SymInt):
            try:
                n = int(text)
            except ValueError:
                return False
            if str(n) != text:
                return False
            return z3.simplify(v._sx == n)
        try:
            f = float(text)
        except ValueError:
            return False
        if repr(f) != text or f != f or f in (float('inf'), float('-inf')):
            return False
        return z3.simplify(v._sx == rexpr(f))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr, SymEnum)):
            return NotImplemented
        if isinstance(o, SymEnum):
            return o == self
        return zbool(self._eq(o))

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr, SymEnum)):
            return NotImplemented
        return not_(self.__eq__(o))

    def _lt(self, o, strict):
        if not isinstance(o, (str, SymStr, SymEnum)):
            return NotImplemented
        a, b = self._chars(), SymStr.of(o)._chars()
        i = 0
        e = (len(a) < len(b)) if strict else (len(a) <= len(b))
        n = min(len(a), len(b))
        res = TRUE if e else FALSE
        for x, y in reversed(list(zip(a[:n], b[:n]))):
            xe = z3.IntVal(ord(x)) if isinstance(x, str) else x.e
            ye = z3.IntVal(ord(y)) if isinstance(y, str) else y.e
            res = z3.Or(xe < ye, z3.And(xe == ye, res))
        return zbool(z3.simplify(res))

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not_(r)

    # -- concatenation --------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, (str, SymStr, SymEnum)):
            return NotImplemented
        return SymStr.make(list(self._sx) + list(SymStr.of(o)._sx))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr, SymEnum)):
            return NotImplemented
        return SymStr.make(list(SymStr.of(o)._sx) + list(self._sx))

    def __mul__(self, n):
        if isinstance(n, SymInt):
            # negative counts are all alike: one path for them
            if n <= 0:
                return ''
        n = n.__index__()
        if n > 4096 and not self._sx:
            return ''
        return SymStr.make(list(self._sx) * max(0, n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not isinstance(x, (str, SymStr, SymEnum)):
                raise TypeError('sequence item: expected str instance, %s found' % _tname(x))
            if not first:
                out.extend(self._sx)
            first = False
            out.extend(SymStr.of(x)._sx)
        return SymStr.make(out)

    # -- searching ------------------------------------------------------------
    @staticmethod
    def _cheq(x, y):
        """python bool or z3 Bool: equality of two characters."""
        if isinstance(x, str):
            if isinstance(y, str):
                return x == y
            x, y = y, x
        if isinstance(y, str):
            if not dom_has(x.dom, ord(y)):
                return False
            return x.e == ord(y)
        return x.e == y.e

    def _match_at(self, cs, i, sub):
        conds = []
        for k, y in enumerate(sub):
            c = self._cheq(cs[i + k], y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        if not conds:
            return True
        return z3.simplify(z3.And(*conds))

    def _needle(self, x):
        if not isinstance(x, (str, SymStr, SymEnum)):
            raise TypeError('must be str, not %s' % _tname(x))
        return SymStr.of(x)._chars()

    def __contains__(self, x):
        if not isinstance(x, (str, SymStr, SymEnum)):
            raise TypeError("'in <string>' requires string as left operand, not %s" % _tname(x))
        return bool(self._contains(x))

    def _contains(self, x):
        sub = self._needle(x)
        if not sub:
            return True
        cs = self._chars()
        return or_any([zbool(self._match_at(cs, i, sub))
                       for i in range(len(cs) - len(sub) + 1)])

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return _str_call(self[slice(start, end)], 'startswith', p)
        if isinstance(p, tuple):
            return or_any([self.startswith(q) for q in p])
        sub = self._needle_prefix(p)
        if sub is None:
            return False
        cs, sub = sub
        return zbool(self._match_at(cs, 0, sub))

    def _needle_prefix(self, p):
        sub = self._needle(p)
        # a leading concrete chunk decides without expanding numbers
        if self._sx and isinstance(self._sx[0], str) and all(isinstance(c, str) for c in sub):
            s = ''.join(sub)
            head = self._sx[0]
            if len(head) >= len(s):
                return (list(head), sub) if head.startswith(s) else None
            if not s.startswith(head):
                return None
        cs = self._chars()
        if len(sub) > len(cs):
            return None
        return cs, sub

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return _str_call(self[slice(start, end)], 'endswith', p)
        if isinstance(p, tuple):
            return or_any([self.endswith(q) for q in p])
        sub = self._needle(p)
        cs = self._chars()
        if len(sub) > len(cs):
            return False
        return zbool(self._match_at(cs, len(cs) - len(sub), sub))

    def find(self, x, start=0, end=None):
        sub = self._needle(x)
        cs = self._chars()
        start, end, _ = slice(start, end).indices(len(cs))
        if end - len(sub) - start >= 4 and all(type(c) is str for c in cs) and not all(type(c) is str for c in sub):
            # a free needle in a fixed text: one term instead of one path per position
            places = range(start, end - len(sub) + 1)
            found, value = merged_int([(zbool(self._match_at(cs, i, sub)), i) for i in places])
            return value if found else -1
        for i in range(start, end - len(sub) + 1):
            if zbool(self._match_at(cs, i, sub)):
                return i
        return -1

    def rfind(self, x, start=0, end=None):
        sub = self._needle(x)
        cs = self._chars()
        start, end, _ = slice(start, end).indices(len(cs))
        for i in range(end - len(sub), start - 1, -1):
            if zbool(self._match_at(cs, i, sub)):
                return i
        return -1

    def index(self, x, *a):
        r = self.find(x, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, x, *a):
        r = self.rfind(x, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, x, *a):
        sub = self._needle(x)
        s = self[slice(*a)] if a else self
        if isinstance(s, str):
            return s.count(SymStr.make(sub)) if all(isinstance(c, str) for c in sub) else _str_call(SymStr.of(s), 'count', x)
        cs = s._chars()
        if len(sub) == 1:
            terms, base = [], 0
            for c in cs:
                r = self._cheq(c, sub[0])
                if r is True:
                    base += 1
                elif r is not False:
                    terms.append(z3.If(r, z3.IntVal(1), z3.IntVal(0)))
            if not terms:
                return base
            return SymInt(z3.Sum(*terms) + base)
        n = i = 0
        while i <= len(cs) - len(sub):
            if zbool(self._match_at(cs, i, sub)):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        sub = self._needle(old)
        new = SymStr.of(new)._sx
        cs = self._chars()
        if not sub:
            return _str_call(self._concrete(), 'replace', old, SymStr.make(new), count)
        out, i, n = [], 0, 0
        while i < len(cs):
            if (count < 0 or n < count) and i + len(sub) <= len(cs) and \
                    zbool(self._match_at(cs, i, sub)):
                out.extend(new)
                i += len(sub)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return SymStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        cs = self._chars()
        out, cur = [], []
        if sep is None:
            incur = False
            i = 0
            while i < len(cs):
                c = cs[i]
                if _chpred(c, 'isspace'):
                    if incur:
                        out.append(cur)
                        cur, incur = [], False
                    i += 1
                else:
                    if not incur and 0 <= maxsplit <= len(out):
                        # the rest, right-stripped
                        rest = SymStr.make(cs[i:])
                        out.append(SymStr.of(_str_call(rest, 'rstrip'))._chars())
                        return [SymStr.make(x) for x in out]
                    cur.append(c)
                    incur = True
                    i += 1
            if incur:
                out.append(cur)
            return [SymStr.make(x) for x in out]
        sub = self._needle(sep)
        if not sub:
            raise ValueError('empty separator')
        i = 0
        while i < len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sub) <= len(cs) and \
                    zbool(self._match_at(cs, i, sub)):
                out.append(cur)
                cur = []
                i += len(sub)
            else:
                cur.append(cs[i])
                i += 1
        out.append(cur)
        return [SymStr.make(x) for x in out]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return _str_call(self._concrete(), 'rsplit', sep, maxsplit)
        cs = self._chars()
        sub = self._needle(sep)
        out, end = [], len(cs)
        i = len(cs) - len(sub)
        while i >= 0 and len(out) < maxsplit:
            if zbool(self._match_at(cs, i, sub)):
                out.append(cs[i + len(sub):end])
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(cs[:end])
        return [SymStr.make(x) for x in reversed(out)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        n = len(SymStr.of(sep)._chars())
        return (self[:i], sep, self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        n = len(SymStr.of(sep)._chars())
        return (self[:i], sep, self[i + n:])

    def splitlines(self, keepends=False):
        cs = self._chars()
        out, cur = [], []
        i = 0
        while i < len(cs):
            if _chpred_fn(cs[i], 'islinebreak', lambda c: len((c + 'x').splitlines()) == 2):
                end = [cs[i]]
                if i + 1 < len(cs) and zbool(self._cheq(cs[i], '\r')) and zbool(self._cheq(cs[i + 1], '\n')):
                    end.append(cs[i + 1])
                    i += 1
                out.append(cur + (end if keepends else []))
                cur = []
            else:
                cur.append(cs[i])
            i += 1
        if cur:
            out.append(cur)
        return [SymStr.make(x) for x in out]

    # -- stripping -------------------------------------------------------------
    def _strippable(self, c, chars):
        if chars is None:
            return _chpred(c, 'isspace')
        return bool(or_any([zbool(self._cheq(c, y)) for y in SymStr.of(chars)._chars()]))

    def lstrip(self, chars=None):
        cs = self._chars()
        i = 0
        while i < len(cs) and self._strippable(cs[i], chars):
            i += 1
        return SymStr.make(cs[i:])

    def rstrip(self, chars=None):
        cs = self._chars()
        i = len(cs)
        while i > 0 and self._strippable(cs[i - 1], chars):
            i -= 1
        return SymStr.make(cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return _str_call(r, 'rstrip', chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(SymStr.of(p)._chars()):]
        return self

    def removesuffix(self, p):
        n = len(SymStr.of(p)._chars())
        if n and self.endswith(p):
            return self[:-n]
        return self

    # -- character classes, case -------------------------------------------------
    def _case(self, name, fn):
        out = []
        for c in self._chars():
            if isinstance(c, str):
                out.append(fn(c))
            else:
                out.extend(_chmap(c, name, fn))
        return SymStr.make(out)

    def upper(self):
        return self._case('upper', str.upper)

    def lower(self):
        return self._case('lower', str.lower)

    def casefold(self):
        return self._case('casefold', str.casefold)

    def swapcase(self):
        return self._case('swapcase', str.swapcase)

    def capitalize(self):
        cs = self._chars()
        if not cs:
            return ''
        h = SymStr.make(cs[:1])
        t = SymStr.make(cs[1:])
        h = h._case('title', str.title) if isinstance(h, SymStr) else h.title()
        return SymStr.of(h) + _str_call(t, 'lower') if t else h

    def _all(self, name):
        cs = self._chars()
        if not cs:
            return False
        conds = []
        fn = getattr(str, name)
        for c in cs:
            if isinstance(c, str):
                if not fn(c):
                    return False
            else:
                conds.append(in_ranges(c.e, _pred_ranges(name, fn, c.dom)))
        return zbool(z3.simplify(z3.And(*conds))) if conds else True

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        return True if not self._chars() else self._all('isprintable')

    def isascii(self):
        cs = self._chars()
        return and_all([ord(c) < 128 if isinstance(c, str) else zbool(z3.simplify(c.e < 128)) for c in cs])

    def isupper(self):
        return self._cased('isupper', 'islower')

    def islower(self):
        return self._cased('islower', 'isupper')

    def _cased(self, good, bad):
        cs = self._chars()
        g = or_any([_chcond(c, good) for c in cs])
        b = or_any([_chcond(c, bad) for c in cs] +
                   [_chcond_fn(c, 'titlecase', lambda x: x.istitle() and not x.isupper()) for c in cs])
        return g & not_(b) if isinstance(g, SymBool) else (not_(b) if g else False)

    # -- formatting ----------------------------------------------------------------
    def zfill(self, width):
        cs = self._chars()
        pad = width - len(cs)
        if pad <= 0:
            return self
        if cs and bool(or_any([zbool(self._cheq(cs[0], '-')), zbool(self._cheq(cs[0], '+'))])):
            return SymStr.make([cs[0]] + ['0' * pad] + cs[1:])
        return SymStr.make(['0' * pad] + cs)

    def ljust(self, width, fill=' '):
        cs = self._chars()
        return SymStr.make(cs + [fill * max(0, width - len(cs))])

    def rjust(self, width, fill=' '):
        cs = self._chars()
        return SymStr.make([fill * max(0, width - len(cs))] + cs)

    def format(self, *a, **k):
        from . import fmt
        return fmt.str_format(self, a, k)

    def encode(self, encoding='utf-8', errors='strict'):
        return token_str(self).encode(encoding, errors)

    def translate(self, table):
        out = []
        for c in self._chars():
            if isinstance(c, str):
                out.append(c.translate(table))
                continue
            done = False
            for k, v in table.items():
                if zbool(self._cheq(c, chr(k))):
                    out.append('' if v is None else (chr(v) if isinstance(v, int) else v))
                    done = True
                    break
            if not done:
                out.append(c)
        return SymStr.make(out)

    def expandtabs(self, n=8):
        return self._concrete().expandtabs(n)

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self._concrete(), name)


def _tname(x):
    return getattr(x, '_sxtype', type(x)).__name__


def _str_call(s, name, *a):
    """Call a str method on a str or SymStr with possibly symbolic args."""
    if isinstance(s, SymStr):
        return getattr(s, name)(*a)
    if any(isinstance(x, Sym) for x in a):
        return getattr(SymStr.of(s), name)(*a)
    return getattr(s, name)(*a)


def _chcond(c, name):
    fn = getattr(str, name)
    return _chcond_fn(c, name, fn)


def _chcond_fn(c, name, fn):
    if isinstance(c, str):
        return bool(fn(c))
    return zbool(z3.simplify(in_ranges(c.e, _pred_ranges(name, fn, c.dom))))


def _chpred(c, name):
    return bool(_chcond(c, name))


def _chpred_fn(c, name, fn):
    return bool(_chcond_fn(c, name, fn))


def _chmap(c, name, fn):
    """Image of one symbolic char under fn: list of atoms (may fork)."""
    groups = _map_groups(name, fn, c.dom)
    singles = [g for g in groups if not isinstance(g[1], str)]
    multis = [g for g in groups if isinstance(g[1], str)]
    for ranges, repl in multis:
        if E.branch(in_ranges(c.e, ranges)):
            return [repl]
    if not singles:
        return []
    e = c.e + singles[0][1] if singles[0][1] else c.e
    dom = dom_union(tuple((lo + singles[0][1], hi + singles[0][1]) for lo, hi in singles[0][0]))
    if len(singles) > 6:
        # many different shifts: fork on the rare ones
        for ranges, d in singles[4:]:
            if E.branch(in_ranges(c.e, ranges)):
                return [Ch(z3.simplify(c.e + d), tuple((lo + d, hi + d) for lo, hi in ranges))]
        singles = singles[:4]
    for ranges, d in singles[1:]:
        e = z3.If(in_ranges(c.e, ranges), c.e + d, e)
        dom = dom_union(dom, tuple((lo + d, hi + d) for lo, hi in ranges))
    return [Ch(z3.simplify(e), dom)]


# -------------------------------------------------------------------- enums
class SymEnum(Sym):
    """One string out of a finite list."""
    __slots__ = ('_sx', '_sxopts')
    _sxtype = str

    def __init__(self, e, opts):
        self._sx = e
        self._sxopts = tuple(opts)

    def _sxval(self):
        return self._sxopts[E.concretize(self._sx)]

    def _eval(self, model):
        return self._sxopts[mval(model, self._sx)]

    def __eq__(self, o):
        if isinstance(o, str):
            ix = [i for i, s in enumerate(self._sxopts) if s == o]
            if not ix:
                return False
            return zbool(z3.simplify(in_ranges(self._sx, [(i, i) for i in ix])))
        if isinstance(o, SymEnum):
            if self._sxopts == o._sxopts and len(set(self._sxopts)) == len(self._sxopts):
                return zbool(z3.simplify(self._sx == o._sx))
            return or_any([(self == s) & (o == s) for s in set(self._sxopts) & set(o._sxopts)])
        if isinstance(o, SymStr):
            return SymStr.of(self._sxval()) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(self._sxval())

    def __str__(self):
        return self._sxval()

    def __repr__(self):
        return repr(self._sxval())

    def __format__(self, spec):
        return format(self._sxval(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return bool(self != '')

    def __len__(self):
        return len(self._sxval())

    def __iter__(self):
        return iter(self._sxval())

    def __getitem__(self, i):
        return self._sxval()[i]

    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(x, self._sxval()))

    def __add__(self, o):
        return self._sxval() + o

    def __radd__(self, o):
        return o + self._sxval()

    def __mul__(self, o):
        return self._sxval() * o
    __rmul__ = __mul__

    def __mod__(self, o):
        from . import fmt
        return fmt.percent(self._sxval(), o)

    def __lt__(self, o):
        return self._sxval() < o

    def __le__(self, o):
        return self._sxval() <= o

    def __gt__(self, o):
        return self._sxval() > o

    def __ge__(self, o):
        return self._sxval() >= o

    def startswith(self, p, *a):
        if a or not isinstance(p, (str, tuple)):
            return _str_call(self._sxval(), 'startswith', p, *a)
        return or_any([self == s for s in self._sxopts if s.startswith(p)])

    def endswith(self, p, *a):
        if a or not isinstance(p, (str, tuple)):
            return _str_call(self._sxval(), 'endswith', p, *a)
        return or_any([self == s for s in self._sxopts if s.endswith(p)])

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self._sxval(), name)


# ------------------------------------------------------------------- tokens
# Symbolic text stored in lxml trees, bytes or zip members is represented by
# a token that is decoded again when read.
TOK_A, TOK_B = '\ue000', '\ue001'
TAGNS = 'urn:symex'


def token_str(s):
    """str that stands for s (identity on plain str)."""
    if isinstance(s, str):
        return s
    if isinstance(s, SymEnum):
        key = ('enum', s._sx.get_id(), s._sxopts)
        return TOK_A + str(_tok(key, s)) + TOK_B
    out, run = [], []

    def flush():
        if run:
            key = tuple(('c', a.e.get_id()) if isinstance(a, Ch) else ('n', a.v._sx.get_id(), type(a.v)) for a in run)
            out.append(TOK_A + str(_tok(key, SymStr(list(run)))) + TOK_B)
            del run[:]
    for a in s._sx:
        if isinstance(a, str):
            flush()
            out.append(a)
        else:
            run.append(a)
    flush()
    return ''.join(out)


def _tok(key, value):
    n = E.token_of.get(key)
    if n is None:
        n = len(E.tokens) + 1
        E.tokens[n] = value
        E.token_of[key] = n
    return n


def untoken(s):
    """Inverse of token_str."""
    if s is None or TOK_A not in s:
        return s
    atoms = []
    parts = s.split(TOK_A)
    if parts[0]:
        atoms.append(parts[0])
    for p in parts[1:]:
        num, rest = p.split(TOK_B, 1)
        v = E.tokens[int(num)]
        if isinstance(v, SymEnum):
            if len(parts) == 2 and not parts[0] and not rest:
                return v
            v = SymStr.of(v)
        atoms.extend(v._sx)
        if rest:
            atoms.append(rest)
    return SymStr.make(atoms)


def tag_token(tag):
    if isinstance(tag, SymEnum):
        E.sym_tags = True
        return '{%s}t%d' % (TAGNS, _tok(('enum', tag._sx.get_id(), tag._sxopts), tag))
    return tag


def tag_untoken(tag):
    if type(tag) is str and tag.startswith('{' + TAGNS + '}t'):
        return E.tokens[int(tag[len(TAGNS) + 3:])]
    return tag


def is_sym(x):
    return isinstance(x, Sym)


def evaluate(v, model):
    """Concrete python value of (nested) v under a model."""
    if isinstance(v, (SymStr, SymEnum)):
        return v._eval(model)
    if isinstance(v, SymFloat):
        return float(mval(model, v._sx))
    if isinstance(v, (SymInt, SymBool)):
        return mval(model, v._sx)
    if isinstance(v, str):
        u = untoken(v)
        return v if u is v else evaluate(u, model)
    if isinstance(v, bytes):
        t = v.decode('utf-8', 'surrogateescape')
        u = untoken(t)
        return v if u is t else evaluate(u, model).encode('utf-8', 'surrogateescape')
    if isinstance(v, list):
        return [evaluate(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(evaluate(x, model) for x in v)
    if isinstance(v, dict):
        return dict((evaluate(k, model), evaluate(x, model)) for k, x in v.items())
    return v
