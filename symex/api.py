"""What harnesses use; shared by the symbolic and the concrete side."""

CASES = {}      # property -> list of Case


class Case(object):
    def __init__(self, prop, name, fn, quick, thorough, covers):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough, self.covers = quick, thorough, covers

    def configs(self, tier):
        c = self.thorough if (tier == 'thorough' and self.thorough is not None) else self.quick
        return c() if callable(c) else c


def case(prop, quick=({},), thorough=None, covers=(), name=None):
    def deco(fn):
        CASES.setdefault(prop, []).append(
            Case(prop, name or fn.__name__, fn, list(quick) if not callable(quick) else quick,
                 thorough if thorough is None or callable(thorough) else list(thorough), tuple(covers)))
        return fn
    return deco


def find(prop, name):
    for c in CASES.get(prop, ()):
        if c.name == name:
            return c
    raise KeyError((prop, name))


class Skip(Exception):
    """Concrete run left the assumptions of the case."""


class CheckFailed(Exception):
    pass


def canon(v):
    """JSON-able canonical form of an observed value (concrete)."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).decode('latin-1')}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {'d': sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)}
    if isinstance(v, (set, frozenset)) or type(v).__name__ in ('SSet', 'SFrozenSet'):
        return {'s': sorted((canon(x) for x in v), key=repr)}
    if isinstance(v, type):
        return v.__name__
    return {'o': type(v).__name__}
