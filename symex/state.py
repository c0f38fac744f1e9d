"""Snapshot and restore of the mutable module-level state of the package."""
import sys
import types
import weakref


def _mods(top):
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == top or n.startswith(top + '.'))]


_ATOM = (str, bytes, int, float, complex, bool, type(None), types.BuiltinFunctionType,
         types.ModuleType, types.CodeType, types.MappingProxyType)


class Snapshot(object):
    def __init__(self, top):
        self.top = top
        self.seen = {}
        self.recs = []
        self.caches = []
        for m in _mods(top):
            self.recs.append(('ns', m.__dict__, dict(m.__dict__)))
            self._walk_values(list(m.__dict__.items()))

    def _walk_values(self, items):
        for k, v in items:
            if isinstance(k, str) and k.startswith('__') and k.endswith('__'):
                continue
            self._walk(v)

    def _own(self, cls):
        mod = getattr(cls, '__module__', '') or ''
        return mod == self.top or mod.startswith(self.top + '.')

    def _walk(self, o):
        if isinstance(o, _ATOM) or id(o) in self.seen:
            return
        self.seen[id(o)] = o
        if isinstance(o, dict):
            self.recs.append(('dict', o, list(o.items())))
            for k, v in list(o.items()):
                self._walk(k)
                self._walk(v)
        elif isinstance(o, (list, set, bytearray)):
            self.recs.append(('seq', o, list(o)))
            for v in list(o):
                self._walk(v)
        elif type(o).__name__ in ('SSet', 'SFrozenSet'):
            self.recs.append(('sset', o, (dict(o._c), list(o._s))))
        elif isinstance(o, (tuple, frozenset)):
            for v in o:
                self._walk(v)
        elif isinstance(o, (weakref.WeakSet, weakref.WeakValueDictionary, weakref.WeakKeyDictionary)):
            if isinstance(o, weakref.WeakSet):
                self.recs.append(('wset', o, list(o)))
            else:
                self.recs.append(('wmap', o, list(o.items())))
        elif isinstance(o, type):
            if self._own(o):
                saved = dict((k, v) for k, v in o.__dict__.items()
                             if k not in ('__dict__', '__weakref__', '__doc__', '__module__'))
                self.recs.append(('class', o, saved))
                self._walk_values(list(saved.items()))
        elif isinstance(o, types.FunctionType):
            if hasattr(o, '__wrapped__'):
                self._walk(o.__wrapped__)
            mod = getattr(o, '__module__', '') or ''
            if mod == self.top or mod.startswith(self.top + '.'):
                for d in o.__defaults__ or ():
                    self._walk(d)
                for d in (o.__kwdefaults__ or {}).values():
                    self._walk(d)
                for c in o.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.recs.append(('cell', c, v))
                    self._walk(v)
                if o.__dict__:
                    self._walk(o.__dict__)
        elif isinstance(o, types.MethodType):
            self._walk(o.__self__)
            self._walk(o.__func__)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    self._walk(f)
        elif isinstance(o, (staticmethod, classmethod)):
            self._walk(o.__func__)
        elif hasattr(o, 'cache_clear') and callable(o.cache_clear):
            self.caches.append(o)
        elif self._own(type(o)):
            d = getattr(o, '__dict__', None)
            if d is not None:
                self.recs.append(('ns', d, dict(d)))
                self._walk_values(list(d.items()))

    def restore(self):
        for kind, o, saved in self.recs:
            if kind == 'ns':
                for k in list(o):
                    if k not in saved:
                        del o[k]
                for k, v in saved.items():
                    if k not in o or o[k] is not v:
                        o[k] = v
            elif kind == 'dict':
                if len(o) != len(saved) or any(a is not c or b is not d for (a, b), (c, d) in zip(o.items(), saved)):
                    o.clear()
                    for k, v in saved:
                        o[k] = v
            elif kind == 'seq':
                if isinstance(o, (list, bytearray)):
                    o[:] = saved
                else:
                    o.clear()
                    o.update(saved)
            elif kind == 'sset':
                o._c = dict(saved[0])
                o._s = list(saved[1])
            elif kind == 'wset':
                o.clear()
                for v in saved:
                    o.add(v)
            elif kind == 'wmap':
                o.clear()
                for k, v in saved:
                    o[k] = v
            elif kind == 'class':
                cur = o.__dict__
                for k in list(cur):
                    if k not in saved and k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                        delattr(o, k)
                for k, v in saved.items():
                    if k not in cur or cur[k] is not v:
                        try:
                            setattr(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'cell':
                try:
                    if o.cell_contents is not saved:
                        o.cell_contents = saved
                except ValueError:
                    o.cell_contents = saved
        for c in self.caches:
            c.cache_clear()

