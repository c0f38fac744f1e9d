"""check PROP [--tier quick|thorough] : decide a property, write evidence."""
import argparse
import hashlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EZODF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SLICE = 0.8


# ----------------------------------------------------------------- replay
class Server(object):
    """The unmodified package in its own interpreter."""

    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', EZODF_REPO=REPO)
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'symex', 'replay_server.py'), self.prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=HERE)
        line = self.p.stdout.readline()
        if line.strip() != b'ready':
            raise RuntimeError('replay server did not start')

    def ask(self, req):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write((json.dumps(req) + '\n').encode())
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.stop()
        return {'exc': ['Crash', 'the interpreter died', ''], 'failed': [], 'obs': [], 'reached': [], 'skip': None}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None


# ----------------------------------------------------------------- worker
class Work(object):
    def __init__(self, prop, tier, cases, snap, timeout):
        self.prop, self.tier, self.cases, self.snap = prop, tier, cases, snap
        self.timeout = timeout
        self.server = Server(prop)

    def slice(self, ci, gi, prefixes, seconds):
        from . import api, rt
        from .engine import E, Stats, explore
        case = self.cases[ci]
        config = case.configs(self.tier)[gi]
        E.stats = Stats()
        res = {'violations': [], 'spurious': [], 'unsupported': [], 'incomplete': {}, 'mismatch': [],
               'validated': 0, 'reached': {}, 'samples': [], 'skipped': 0, 'checks': 0}
        deadline = time.time() + seconds
        left = list(prefixes)
        while left and time.time() < deadline and not res['violations']:
            p = left.pop()
            left.extend(explore(lambda: self.one(case, config, res), p, max_paths=None,
                                deadline=deadline, on_path=lambda o: not res['violations']))
        res['stats'] = E.stats.as_dict()
        res['funcs'] = sorted(rt.FUNCS)
        return left, res

    def one(self, case, config, res):
        """One path; returns True if it completed."""
        from . import api
        from .engine import E, Infeasible, PathLimit, Abandon, Control
        from .symctx import SymCtx

        class PathTimeout(Control):
            pass

        def alarm(*a):
            raise PathTimeout()
        ctx = SymCtx(self.tier)
        random.seed(20231)
        exc = limit = None
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            try:
                case.fn(ctx, **config)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Infeasible:
            ctx.finish()
            self.snap.restore()
            raise
        except Abandon:
            pass
        except PathLimit as e:
            limit = 'limit: %s' % e
        except PathTimeout:
            limit = 'timeout'
        except api.Skip:
            pass
        except MemoryError:
            limit = 'memory'
        except (Exception, RecursionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            exc = '%s: %s @ %s' % (type(e).__name__, _safe(e), ' <- '.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:])))
        E.active = False
        res['checks'] += ctx.checks
        for r in ctx.reached:
            res['reached'][r] = res['reached'].get(r, 0) + 1
        try:
            if ctx.violations:
                for v in ctx.violations:
                    self.confirm(case, config, v.assignment, v.label, res)
                return True
            model = E.get_model()
            a = E.assignment(model)
            obs = None
            if not exc and not limit:
                obs = ctx.witness_obs(model)
        except Infeasible:
            raise
        except Control as e:
            res['unsupported'].append(_entry(case, config, None, 'no witness: %s' % type(e).__name__))
            return True
        finally:
            ctx.finish()
            self.snap.restore()
        for why in E.incomplete:
            res['incomplete'][why] = res['incomplete'].get(why, 0) + 1
        out = self.replay(case, config, a)
        if out['failed'] or out['exc']:
            label = out['failed'][0][0] if out['failed'] else 'exception %s' % out['exc'][0]
            self.confirm(case, config, a, label, res)
            return True
        if limit or exc:
            res['unsupported'].append(_entry(case, config, a, limit or exc))
            return True
        if out['skip']:
            res['skipped'] += 1
            res['mismatch'].append(_entry(case, config, a, 'assumption differs: %s' % out['skip']))
            return True
        if out['obs'] != json.loads(json.dumps(obs)) or out['reached'] != ctx.reached:
            res['mismatch'].append(_entry(case, config, a, 'observed %s, real code %s' % (
                json.dumps(obs)[:400], json.dumps(out['obs'])[:400])))
            return True
        res['validated'] += 1
        if len(res['samples']) < 1:
            res['samples'].append(dict(_entry(case, config, a, 'path'), observed=out['obs'][:6]))
        return True

    def replay(self, case, config, a):
        return self.server.ask({'prop': self.prop, 'case': case.name, 'config': config, 'tier': self.tier,
                                'assignment': a, 'timeout': self.timeout})

    def confirm(self, case, config, a, label, res):
        """Replay a counterexample in a fresh interpreter."""
        fresh = Server(self.prop)
        try:
            out = fresh.ask({'prop': self.prop, 'case': case.name, 'config': config, 'tier': self.tier,
                             'assignment': a, 'timeout': self.timeout})
        finally:
            fresh.stop()
        e = _entry(case, config, a, label)
        if out['failed'] or out['exc']:
            e['label'] = out['failed'][0][0] if out['failed'] else 'exception %s' % out['exc'][0]
            e['replayed'] = {'failed': out['failed'], 'exc': out['exc']}
            k = known_for(self.prop, e)
            if k is None:
                res['violations'].append(e)
            else:
                e['known'] = k
                res.setdefault('known', []).append(e)
        else:
            res['spurious'].append(e)


def _safe(e):
    try:
        return ''.join(str(x) if isinstance(x, (str, int)) else type(x).__name__ for x in e.args)[:200]
    except BaseException:
        return '?'


def _entry(case, config, a, what):
    return {'case': case.name, 'config': config, 'assignment': a, 'label': what}


def worker_main(conn, work):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, 'w')
    sys.setrecursionlimit(3000)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        try:
            conn.send(('ok', job, work.slice(*job)))
        except BaseException:
            conn.send(('err', job, traceback.format_exc()))
    work.server.stop()
    conn.close()
    os._exit(0)


# ----------------------------------------------------------------- findings
def findings():
    """Entries of KNOWN_FINDINGS.txt that suppress (not the fixed ones)."""
    out = []
    try:
        f = open(os.path.join(HERE, 'KNOWN_FINDINGS.txt'))
    except IOError:
        return out
    for line in f:
        line = line.strip()
        if line.startswith('finding: '):
            out.append(json.loads(line[len('finding: '):]))
    return out


_FINDINGS = None


def known_for(prop, e):
    global _FINDINGS
    if _FINDINGS is None:
        _FINDINGS = findings()
    for f in _FINDINGS:
        if f['property'] != prop or f['case'] != e['case'] or f['label'] != e['label']:
            continue
        if 'config' in f and f['config'] != e['config']:
            continue
        if all((e['assignment'] or {}).get(k) == v for k, v in f.get('assignment', {}).items()):
            return f['what']
    return None


# ----------------------------------------------------------------- main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    args = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop, tier = args.prop, args.tier
    budget = args.budget or (700 if tier == 'quick' else 5400)
    evdir = os.environ.get('EZODF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + '.json')
    if os.path.exists(evfile) and not args.case:
        os.unlink(evfile)
    try:
        return run(args, prop, tier, seed, budget, evdir, evfile, t0)
    except Exception:
        traceback.print_exc()
        return 2


def load_or_violation(prop, evdir, evfile, tier, seed, t0):
    from . import load
    return load.setup(prop)


def run(args, prop, tier, seed, budget, evdir, evfile, t0):
    from . import api, load
    h, snap = load.setup(prop)
    load_s = time.time() - t0
    cases = [c for c in api.CASES[prop] if not args.case or c.name == args.case]
    jobs = []
    for ci, c in enumerate(cases):
        for gi in range(len(c.configs(tier))):
            jobs.append((ci, gi, [()]))
    njobs = len(jobs)
    per = {}
    tot = {'violations': [], 'known': [], 'spurious': [], 'unsupported': [], 'incomplete': {}, 'mismatch': [],
           'validated': 0, 'reached': {}, 'samples': [], 'checks': 0}
    stats = {}
    funcs = set()
    import gc
    gc.collect()
    gc.freeze()
    workers = []
    work = Work(prop, tier, cases, snap, 20 if tier == 'quick' else 60)
    for i in range(args.jobs):
        a, b = multiprocessing.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            for w in workers:
                w[0].close()
            try:
                worker_main(b, work)
            finally:
                os._exit(1)
        b.close()
        workers.append([a, pid, None])
    deadline = t0 + budget
    errors = []
    stop = False
    jobs.reverse()
    used = {}
    while True:
        for w in workers:
            if w[2] is None and w[0] is not None and jobs and not stop and time.time() < deadline:
                # the configuration that got the least time so far: none starves
                i = min(range(len(jobs)), key=lambda i: (used.get(jobs[i][:2], 0), -i))
                job = jobs.pop(i)
                used[job[:2]] = used.get(job[:2], 0) + 1
                w[2] = job
                w[0].send(job + (SLICE,))
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        for conn in wait([w[0] for w in busy], timeout=5):
            w = [x for x in workers if x[0] is conn][0]
            try:
                kind, job, payload = conn.recv()
            except (EOFError, OSError):
                errors.append('worker died on %s' % (w[2][:2],))
                w[2] = None
                w[0] = None
                continue
            w[2] = None
            if kind == 'err':
                errors.append(payload)
                continue
            left, res = payload
            ci, gi = job[0], job[1]
            key = '%s%s' % (cases[ci].name, json.dumps(cases[ci].configs(tier)[gi], sort_keys=True) if cases[ci].configs(tier)[gi] else '')
            p = per.setdefault(key, {'paths': 0, 'assertions': 0, 'solver_s': 0.0})
            for k in p:
                p[k] += res['stats'][k]
            for k, v in res['stats'].items():
                stats[k] = stats.get(k, 0) + v
            for k in ('violations', 'spurious', 'unsupported', 'mismatch', 'known'):
                tot[k].extend(res.get(k, ()))
            for k in ('incomplete', 'reached'):
                for x, n in res[k].items():
                    tot[k][x] = tot[k].get(x, 0) + n
            tot['validated'] += res['validated']
            tot['checks'] += res['checks']
            if len(tot['samples']) < 12 and not any(s['case'] == cases[ci].name and s['config'] == cases[ci].configs(tier)[gi] for s in tot['samples']):
                tot['samples'].extend(res['samples'][:1])
            funcs.update(res['funcs'])
            if left:
                idle = sum(1 for x in workers if x[2] is None)
                if len(jobs) < 2 * len(workers) and len(left) > 1:
                    n = min(len(left), max(1, 2 * idle))
                    for i in range(n):
                        part = left[i::n]
                        if part:
                            jobs.append((ci, gi, part))
                else:
                    jobs.append((ci, gi, left))
            if tot['violations'] and not args.all:
                stop = True
    unexplored = sum(len(j[2]) for j in jobs)
    for w in workers:
        if w[0] is not None:
            try:
                w[0].send(None)
                w[0].close()
            except OSError:
                pass
    for w in workers:
        try:
            os.waitpid(w[1], 0)
        except OSError:
            pass
    covers = [(c.name, l) for c in cases for l in c.covers]
    unreached = ['%s:%s' % x for x in covers if not tot['reached'].get(x[1])] if not (stop or unexplored) else []
    prob = []
    if errors:
        prob.append('worker errors: %d' % len(errors))
    if unexplored and not stop:
        prob.append('unexplored prefixes: %d (time budget)' % unexplored)
    for k in ('spurious', 'unsupported', 'mismatch'):
        if tot[k]:
            prob.append('%s: %d' % (k, len(tot[k])))
    if tot['incomplete']:
        prob.append('approximated: %s' % tot['incomplete'])
    if unreached:
        prob.append('never reached: %s' % unreached)
    wall = time.time() - t0
    rc = 0
    replay = None
    if tot['violations']:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        v = tot['violations'][0]
        body = json.dumps({'prop': prop, 'case': v['case'], 'config': v['config'], 'tier': tier,
                           'assignment': v['assignment'], 'timeout': 60, 'label': v['label'],
                           'observed': v['replayed'],
                           'how': '%s %s/symex/replay_server.py --once THIS_FILE' % (PY, HERE)}, indent=1)
        replay = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(replay, 'w') as f:
            f.write(body)
        rc = 1
    elif stats.get('paths', 0) == 0 or tot['checks'] == 0:
        prob.append('no assertion was decided')
        rc = 2
    if not args.case:
        write_evidence(evfile, prop, tier, seed, wall, load_s, stats, tot, per, funcs, prob, h, cases, unexplored,
                       bool(stop), errors)
    for k in sorted(set(e['known'] for e in tot['known'])):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if args.v or errors:
        for e in errors[:3]:
            print(e)
    if args.v:
        for k in ('violations', 'spurious', 'unsupported', 'mismatch'):
            for e in tot[k][:8]:
                print(k, json.dumps(e)[:1200])
        for k, p in per.items():
            print('   ', k, p)
    print('%s %s: %d paths, %d decisions, %d assertions, %d queries, %.1fs solver, %d witnesses replayed, %.1fs wall%s'
          % (prop, tier, stats.get('paths', 0), stats.get('decisions', 0), stats.get('assertions', 0), stats.get('queries', 0),
             stats.get('solver_s', 0), tot['validated'], wall, '' if not prob else '; INCOMPLETE: ' + '; '.join(prob)))
    if rc == 1:
        v = tot['violations'][0]
        print('counterexample: case=%s config=%s input=%s -> %s %s' % (
            v['case'], v['config'], json.dumps(v['assignment'])[:600], v['label'], json.dumps(v['replayed'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    return rc


def write_evidence(evfile, prop, tier, seed, wall, load_s, stats, tot, per, funcs, prob, h, cases, unexplored, stopped, errors):
    bounds = getattr(h, 'BOUNDS', '')
    assume = list(getattr(h, 'ASSUMPTIONS', ()))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': stats.get('paths', 0),
            'transitions': stats.get('decisions', 0),
            'traces_validated_against_impl': tot['validated'],
            'samples': tot['samples'][:12] or [{'note': 'no completed path'}],
            'exhaustive': not prob and not stopped,
            'rule': 'states = feasible execution paths of the real code with symbolic inputs, transitions = '
                    'solver-decided branch points, every path\'s witness is replayed on the unmodified package',
            'functions_encoded': sorted(funcs),
            'bounds': bounds,
            'queries': stats.get('queries', 0), 'queries_sat': stats.get('sat', 0),
            'queries_unsat': stats.get('unsat', 0), 'queries_unknown': stats.get('unknown', 0),
            'solver_s': round(stats.get('solver_s', 0), 3),
            'assertions': stats.get('assertions', 0),
            'assertions_decided_by_solver': stats.get('assertions_solver', 0),
            'infeasible_paths': stats.get('infeasible', 0),
            'per_case': dict((k, dict((a, round(b, 3)) for a, b in v.items())) for k, v in sorted(per.items())),
            'reached': tot['reached'],
            'not_decided': {'problems': prob, 'unexplored_prefixes': unexplored,
                            'spurious': tot['spurious'][:5], 'unsupported': tot['unsupported'][:5],
                            'mismatch': tot['mismatch'][:5], 'approximated': tot['incomplete'],
                            'worker_errors': errors[:3]},
            'load_s': round(load_s, 2),
        },
        'assumptions': assume,
        'wall_s': round(wall, 2),
        'violations': len(tot['violations']),
    }
    if tot['known']:
        ev['coverage']['known_findings_seen'] = tot['known'][:5]
    if tot['violations']:
        ev['coverage']['counterexamples'] = tot['violations'][:5]
    tmp = evfile + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, evfile)


if __name__ == '__main__':
    sys.exit(main())
