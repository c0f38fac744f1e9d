"""File operations that can be observed: installed before the package under
test is imported, so that names it binds at import time are covered as well."""
import _io
import builtins
import io
import os

NAMES = ('rename', 'replace', 'remove', 'unlink', 'link', 'symlink', 'truncate', 'ftruncate', 'mkdir', 'rmdir',
         'sendfile', 'copy_file_range', 'open', 'write')
real = {}
real_open = io.open
current = [None]        # the active harness.docworld.Observer


def _dispatch(name, f):
    def op(*a, **k):
        cur = current[0]
        return f(*a, **k) if cur is None else cur.op(name, f, a, k)
    op.__name__ = name
    return op


def _open(file, mode='r', *a, **k):
    cur = current[0]
    return real_open(file, mode, *a, **k) if cur is None else cur.open(file, mode, a, k)


def install():
    if real:
        return
    import shutil, tempfile, zipfile    # noqa  (their own checks of os want the real functions)
    for n in NAMES:
        if hasattr(os, n):
            real[n] = getattr(os, n)
            setattr(os, n, _dispatch(n, real[n]))
    for m in (builtins, io, _io):
        m.open = _open


PROPS = ('C14', 'C15', 'C16', 'C17', 'C26', 'C28')
