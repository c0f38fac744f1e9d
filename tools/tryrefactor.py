#!/usr/bin/env python3
"""Behaviour-preserving edits must leave the checks quiet: tryrefactor.py SPEC.py [ids] (development tool).
A spec calls ref(id, props, [(file, old, new), ...])."""
import json, os, shutil, subprocess, sys, tempfile, time
only = set(sys.argv[2:])


def ref(id, props, edits):
    if only and id not in only:
        return
    wt = tempfile.mkdtemp(prefix='ref-', dir='/tmp')
    try:
        r = os.path.join(wt, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        for fn, old, new in edits:
            p = os.path.join(r, 'ezodf', fn)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                print(id, fn, 'occurrences:', s.count(old)); return
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        o = subprocess.run('/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests', shell=True, cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if o.returncode:
            print(id, 'TESTS FAIL', o.stdout[-800:]); return
        for p in props.split():
            t = time.time()
            o = subprocess.run(['/verif/check', p], cwd='/verif', env=dict(os.environ, EZODF_REPO=r, EZODF_EVIDENCE=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad = [x for x in o.stdout.splitlines() if x.startswith(('VIOLATION', 'counterexample', 'INCOMPLETE'))]
            print('%-22s %s %s rc=%d %.0fs %s' % (id, p, 'quiet' if o.returncode == 0 and not bad else 'ALARM', o.returncode, time.time() - t, (bad or [''])[0][:300] + (o.stdout[-400:] if o.returncode else '')), flush=True)
    finally:
        shutil.rmtree(wt)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
