"""Symbolic context: the inputs of a case become z3 variables."""
import z3
from . import rt
from .engine import E, Abandon, mval
from .sym import (SymInt, SymBool, SymFloat, SymStr, SymEnum, Ch, Sym, in_ranges,
                  bexpr, not_, and_all, or_any, mkint, evaluate, iexpr)

# every character XML can carry, except the private code points of the engine
XMLCHARS = ((9, 10), (13, 13), (0x20, 0xD7FF), (0xE010, 0xFFFD), (0x10000, 0x10FFFF))


class Violation(object):
    def __init__(self, label, assignment):
        self.label, self.assignment = label, assignment


class SymCtx(object):
    symbolic = True

    def __init__(self, tier):
        self.tier = tier
        self.obs = []
        self.reached = []
        self.violations = []
        self.checks = 0
        self._cleanup = []

    def q(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    # -- inputs ------------------------------------------------------------
    def int(self, name, lo, hi):
        v = z3.Int(name)
        E.add_input(name, lambda m: mval(m, v))
        E.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v) if lo != hi else lo

    def bool(self, name):
        v = z3.Bool(name)
        E.add_input(name, lambda m: bool(mval(m, v)))
        return SymBool(v)

    def choice(self, name, opts):
        v = z3.Int(name)
        E.add_input(name, lambda m: mval(m, v))
        E.assume(z3.And(v >= 0, v < len(opts)))
        return opts[E.concretize(v)]

    def enum(self, name, opts):
        v = z3.Int(name)
        opts = tuple(opts)
        E.add_input(name, lambda m: opts[mval(m, v)])
        E.assume(z3.And(v >= 0, v < len(opts)))
        return SymEnum(v, opts)

    def text(self, name, maxlen, dom=None, minlen=0):
        dom = XMLCHARS if dom is None else dom
        n = z3.Int(name + '.len')
        box = []
        E.add_input(name, lambda m: ''.join(chr(mval(m, c)) for c in box))
        E.assume(z3.And(n >= minlen, n <= maxlen))
        k = E.concretize(n, 'length')
        conds = []
        for i in range(k):
            c = z3.Int('%s.%d' % (name, i))
            box.append(c)
            conds.append(in_ranges(c, dom))
        if conds:
            E.assume(conds[0] if len(conds) == 1 else z3.And(*conds))
        return SymStr.make([Ch(c, dom) for c in box])

    def float(self, name, lo=-1000000, hi=1000000):
        v = z3.Int(name + '.8')
        E.add_input(name, lambda m: mval(m, v) / 8.0)
        E.assume(z3.And(v >= 8 * lo, v <= 8 * hi))
        return SymFloat(z3.ToReal(v) / 8)

    # -- logic ---------------------------------------------------------------
    def assume(self, cond):
        E.assume(bexpr(cond))

    def check(self, cond, label, *info):
        self.checks += 1
        if not isinstance(cond, Sym):
            E.stats.assertions += 1
            if cond:
                return True
            self._violated(label, E.get_model())
        m = E.prove(bexpr(cond))
        if m is not None:
            self._violated(label, m)
        return True

    def _violated(self, label, model):
        self.violations.append(Violation(label, E.assignment(model)))
        raise Abandon()

    def eq(self, a, b):
        return rt.eq(a, b)

    def all(self, xs):
        return and_all(xs)

    def any(self, xs):
        return or_any(xs)

    def not_(self, x):
        return not_(x)

    def implies(self, a, b):
        return or_any([not_(a), b])

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
                return mkint(z3.simplify(z3.If(c._sx, iexpr(a), iexpr(b))))
            c = bool(c)
        return a if c else b

    def observe(self, *vals):
        self.obs.append(vals)

    def reach(self, label):
        self.reached.append(label)

    def fork(self, x):
        if isinstance(x, SymInt):
            return int(x)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymEnum):
            return x._sxval()
        return x

    def sxstr(self, x):
        from . import fmt
        return fmt.to_str(x)

    def cleanup(self, fn):
        self._cleanup.append(fn)

    def finish(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:
                pass

    def witness_obs(self, model):
        from . import api
        return [[canon_sym(v, model) for v in vals] for vals in self.obs]


def canon_sym(v, model):
    from . import api
    if isinstance(v, (list, tuple)):
        return [canon_sym(x, model) for x in v]
    if isinstance(v, dict):
        return {'d': sorted(([canon_sym(k, model), canon_sym(x, model)] for k, x in v.items()), key=repr)}
    if isinstance(v, (set, frozenset)) or type(v).__name__ in ('SSet', 'SFrozenSet'):
        return {'s': sorted((canon_sym(x, model) for x in v), key=repr)}
    return api.canon(evaluate(v, model))
