"""Runs cases concretely on the unmodified package.  stdin: one JSON request
per line; stdout: one JSON answer per line.  `--once FILE` replays a file."""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EZODF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load(prop):
    import warnings
    warnings.simplefilter('ignore')
    from symex import fsops
    if prop in fsops.PROPS:
        fsops.install()
    import ezodf                                      # noqa
    import ezodf.document, ezodf.tableutils           # noqa
    import importlib
    import pkgutil
    for m in pkgutil.iter_modules(ezodf.__path__):
        try:
            importlib.import_module('ezodf.' + m.name)
        except Exception:
            pass
    importlib.import_module('harness.' + prop.lower())


def run(req, snap):
    from symex import api, concrete
    c = api.find(req['prop'], req['case'])
    ctx = concrete.ConcreteCtx(req['assignment'], req['tier'])
    out = {'exc': None, 'skip': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, req.get('timeout', 20))
    try:
        c.fn(ctx, **req['config'])
    except api.Skip as e:
        out['skip'] = str(e)
    except Timeout:
        out['exc'] = ['Timeout', 'no result after %ss' % req.get('timeout', 20), '']
    except (Exception, RecursionError) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        out['exc'] = [type(e).__name__, str(e)[:300], ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.finish()
    snap.restore()
    out.update(failed=ctx.failed, obs=ctx.obs, reached=ctx.reached)
    return out


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    if sys.argv[1] == '--once':
        req = json.load(open(sys.argv[2]))
        load(req['prop'])
        from symex import state
        out = run(req, state.Snapshot('ezodf'))
        bad = out['failed'] or out['exc']
        print(json.dumps(out, indent=1))
        print('REPRODUCED' if bad else 'not reproduced')
        sys.exit(1 if bad else 0)
    real_out = os.dup(1)
    os.dup2(2, 1)      # prints of the code under test go to stderr
    w = os.fdopen(real_out, 'w', encoding='utf-8')
    prop = sys.argv[1]
    load(prop)
    from symex import state
    snap = state.Snapshot('ezodf')
    w.write('ready\n')
    w.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            out = run(req, snap)
        except Exception as e:
            out = {'exc': ['server:' + type(e).__name__, str(e), ''], 'failed': [], 'obs': [], 'reached': [], 'skip': None}
        w.write(json.dumps(out) + '\n')
        w.flush()


if __name__ == '__main__':
    main()
