"""Concrete context: replays an assignment on the real code."""
from . import api


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, assignment, tier):
        self.a = assignment
        self.tier = tier
        self.failed = []
        self.obs = []
        self.reached = []
        self._cleanup = []

    def q(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def _get(self, name):
        if name not in self.a:
            raise api.Skip('no value for input %s' % name)
        return self.a[name]

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def choice(self, name, opts):
        return opts[self._get(name)]

    def enum(self, name, opts):
        return self._get(name)

    def text(self, name, maxlen, dom=None, minlen=0):
        return self._get(name)

    def float(self, name, lo=-1000000, hi=1000000):
        return float(self._get(name))

    def assume(self, cond):
        if not cond:
            raise api.Skip('assumption')

    def check(self, cond, label, *info):
        if not cond:
            self.failed.append([label, [api.canon(i) for i in info]])
        return bool(cond)

    def eq(self, a, b):
        return a == b

    def all(self, xs):
        return all(list(xs))

    def any(self, xs):
        return any(list(xs))

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, *vals):
        self.obs.append([api.canon(v) for v in vals])

    def reach(self, label):
        self.reached.append(label)

    def fork(self, x):
        return x

    def sxstr(self, x):
        return str(x)

    def cleanup(self, fn):
        self._cleanup.append(fn)

    def finish(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:
                pass
