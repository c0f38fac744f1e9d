"""Path-exploring symbolic execution engine (z3).

A harness is re-executed once per path.  Every decision on a symbolic value is
recorded; both feasible outcomes of a decision are explored.  Assertions are
discharged by the solver for all values that follow the path.
"""
import time
import z3

Z3_TIMEOUT_MS = 20000


class Control(BaseException):
    """Engine control flow; never a result of the code under test."""


class Infeasible(Control):
    """The assumptions on this path are unsatisfiable."""


class PathLimit(Control):
    """A per-path limit was hit (recorded, never silently ignored)."""


class Abandon(Control):
    """Stop this path, a violation was recorded."""


class Stats(object):
    FIELDS = ('paths', 'decisions', 'queries', 'sat', 'unsat', 'unknown',
              'solver_s', 'assertions', 'assertions_solver', 'infeasible')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)


class Engine(object):
    """State of the exploration in this process; `E` below is the instance."""

    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.max_decisions = 20000
        self.concretize_cap = 256
        self._reset()

    def _reset(self):
        self.trace = []
        self.pos = 0
        self.prefix = ()
        self.pending = []
        self.model = None
        self.inputs = []
        self.incomplete = []
        self.tokens = {}
        self.token_of = {}
        self.uid = 0
        self.sym_tags = False
        self.solver = None
        self.known = {}         # ast id -> (value, expression): decided on this path

    # -- path life cycle ----------------------------------------------------
    def start_path(self, prefix):
        self._reset()
        self.prefix = tuple(prefix)
        self.solver = z3.Solver()
        self.solver.set('timeout', Z3_TIMEOUT_MS)
        self.active = True

    def end_path(self):
        self.active = False

    # -- solver --------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            self.note_incomplete('solver returned unknown: %s' % self.solver.reason_unknown())
        return r

    def note_incomplete(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise PathLimit('solver unknown')
            self.model = self.solver.model()
        return self.model

    def add(self, cond):
        """Constrain the path; drops the cached model unless it fits."""
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self.add(cond)
        self.known[cond.get_id()] = True, cond
        if self.model is None:
            self.get_model()

    # -- decisions -----------------------------------------------------------
    def branch(self, cond):
        """Decide a z3 Bool; explores both outcomes if both are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.known.get(cond.get_id())
        if known is not None:
            return known[0]
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
            self.trace.append(choice)
            self.solver.add(cond if choice else z3.Not(cond))
            self.model = None
            self.known[cond.get_id()] = choice, cond
            return choice
        if i >= self.max_decisions:
            raise PathLimit('more than %d decisions' % self.max_decisions)
        self.stats.decisions += 1
        m = self.get_model()
        choice = z3.is_true(m.eval(cond, model_completion=True))
        ncond = z3.Not(cond)
        other = ncond if choice else cond
        r = self._check(other)
        if r != z3.unsat:
            self.pending.append(tuple(self.trace) + (not choice,))
        self.trace.append(choice)
        self.solver.add(cond if choice else ncond)
        self.known[cond.get_id()] = choice, cond
        return choice

    def concretize(self, expr, what='int'):
        """Fork over every feasible value of an Int expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        known = self.known.get(expr.get_id())
        if known is not None:
            return known[0]
        tried = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                kind, v = self.prefix[i]
                self.trace.append((kind, v))
                self.model = None
                if kind == 'ne':
                    self.solver.add(expr != v)
                    tried += 1
                    continue
                self.solver.add(expr == v)
                self.known[expr.get_id()] = v, expr
                return v
            self.stats.decisions += 1
            m = self.get_model()
            v = m.eval(expr, model_completion=True).as_long()
            if tried >= self.concretize_cap:
                self.note_incomplete('more than %d values of %s' % (self.concretize_cap, what))
            else:
                if self._check(expr != v) != z3.unsat:
                    self.pending.append(tuple(self.trace) + (('ne', v),))
            self.trace.append(('eq', v))
            self.solver.add(expr == v)
            self.known[expr.get_id()] = v, expr
            return v

    # -- assertions ----------------------------------------------------------
    def prove(self, cond):
        """None if cond holds for every value on this path, else a model."""
        self.stats.assertions += 1
        self.stats.assertions_solver += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return None
        known = self.known.get(cond.get_id())
        if known is not None and known[0] is True:
            return None
        if self.model is not None and z3.is_false(self.model.eval(cond, model_completion=True)):
            return self.model
        r = self._check(z3.Not(cond))
        if r == z3.sat:
            return self.solver.model()
        if r != z3.unsat:
            self.note_incomplete('assertion undecided')
        else:
            self.known[cond.get_id()] = True, cond
        return None

    # -- names, tokens -------------------------------------------------------
    def fresh(self, stem):
        self.uid += 1
        return '%s!%d' % (stem, self.uid)

    def add_input(self, name, decode):
        for n, _ in self.inputs:
            if n == name:
                raise AssertionError('duplicate input name %r' % name)
        self.inputs.append((name, decode))

    def assignment(self, model):
        return dict((n, d(model)) for n, d in self.inputs)


E = Engine()


def mval(model, expr):
    """Python value of a z3 expression in a model."""
    v = model.eval(expr, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise AssertionError('no value for %s' % expr)


def explore(body, prefix=(), max_paths=None, deadline=None, on_path=None):
    """Explore all paths of body() below prefix. Returns remaining prefixes."""
    stack = [tuple(prefix)]
    n = 0
    while stack:
        if (max_paths is not None and n >= max_paths) or \
           (deadline is not None and time.time() > deadline):
            return stack
        p = stack.pop()
        E.start_path(p)
        try:
            outcome = body()
        except Infeasible:
            E.stats.infeasible += 1
            outcome = None
        stack.extend(E.pending)
        if outcome is not None:
            E.stats.paths += 1
            n += 1
        E.end_path()
        if on_path is not None and on_path(outcome) is False:
            return stack
    return stack
