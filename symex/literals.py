"""Constants of the code under test, as found in its current sources.

A bound that lies inside the ranges a harness explores anyway is met by them;
constants outside (a limit of 64, a prefix 'CopyOf') add inputs around them, so
that code which treats such values specially is executed on both sides of the
constant.  The verdict depends on behaviour only."""
import ast
import os

REPO = os.environ.get('EZODF_REPO', '/repo')


def _constants(modules):
    for m in modules:
        p = os.path.join(REPO, 'ezodf', m + '.py')
        if not os.path.exists(p):
            continue
        with open(p, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(id(n.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                yield n.value


def ints(modules, lo, hi, around=1, limit=12):
    """values around the integer constants k with lo < k <= hi"""
    found = sorted({v for v in _constants(modules) if type(v) in (int, float) and lo < v <= hi and v == int(v)})
    out = []
    for v in found[:limit]:
        for d in range(-around, around + 1):
            if lo < v + d and int(v) + d not in out:
                out.append(int(v) + d)
    return out


def strs(modules, minlen=2, maxlen=12, limit=12, ok=None):
    """text constants that could be data (no qualified names, no formats, no messages)"""
    def data(v):
        return (isinstance(v, str) and minlen <= len(v) <= maxlen and not any(c in v for c in '{}%:<>*')
                and '  ' not in v and v.isprintable() and (ok is None or ok(v)))
    return sorted({v for v in _constants(modules) if data(v)})[:limit]
