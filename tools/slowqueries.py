"""Debug helper: total solver time per call site, for one property/case."""
import sys, time, traceback, collections
sys.path.insert(0, '/verif')
from symex import engine
old = engine.Engine._check
tot = collections.Counter(); cnt = collections.Counter()


def check(self, *extra):
    t = time.perf_counter()
    r = old(self, *extra)
    dt = time.perf_counter() - t
    st = traceback.extract_stack()
    k = tuple('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in st[-9:-1])
    if k not in tot and dt > 0.2:
        print('%.1fs' % dt, r, extra, file=sys.stderr)
    tot[k] += dt; cnt[k] += 1
    return r


engine.Engine._check = check
from symex import runner
import atexit
def rep():
    if tot:
        for k, v in tot.most_common(12):
            print('%.1fs n=%d' % (v, cnt[k]), ' '.join(k), file=sys.stderr)
rep_pid = None
import os
_old = runner.__dict__
atexit.register(rep)
orig_exit = os._exit
def ex(c):
    rep(); sys.stderr.flush(); orig_exit(c)
os._exit = ex
sys.exit(runner.main(sys.argv[1:]))
