"""Loads the package under test and the harnesses through the rewriter
(symbolic side only, runs under python3-vt)."""
import importlib
import os
import pkgutil
import sys
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EZODF_REPO', '/repo')


def _symbolic_datetime():
    """CPython's own pure-Python datetime and strptime, executed symbolically."""
    import _strptime as real_strptime
    import _pydatetime as real_pd
    from . import rewrite, sxtime
    rewrite.OVERRIDES['time'] = sxtime.make_module()
    m = types.ModuleType('datetime')
    rewrite.OVERRIDES['datetime'] = m
    m.__name__ = 'datetime'
    rewrite.Loader(real_pd.__file__, False).exec_module(m)
    m.__name__ = 'datetime'
    st = types.ModuleType('_strptime')
    rewrite.OVERRIDES['_strptime'] = st
    rewrite.Loader(real_strptime.__file__, False).exec_module(st)
    return m


def setup(prop):
    """Import everything; returns (harness module, Snapshot)."""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    from . import rewrite, sxetree, sxre, state, fsops
    if prop in fsops.PROPS:
        fsops.install()
        rewrite.BUILTINS['open'] = fsops._open
    top, et = sxetree.make_module()
    rewrite.OVERRIDES['lxml'] = top
    rewrite.OVERRIDES['re'] = sxre.make_module()
    if prop in ('C19',):
        _symbolic_datetime()
    rewrite.install({'ezodf': (REPO, True), 'harness': (HERE, False)})
    import ezodf
    for m in pkgutil.iter_modules(ezodf.__path__):
        try:
            importlib.import_module('ezodf.' + m.name)
        except Exception:
            if not m.name.startswith('_'):
                raise
    h = importlib.import_module('harness.' + prop.lower())
    return h, state.Snapshot('ezodf')
