#!/usr/bin/env python3
"""Run checks against planted bugs: trybugs.py [ids...]  (development tool)"""
import json, os, shutil, subprocess, sys, tempfile, time
S = os.environ.get('SEEDED', '/verif/seeded')
args = sys.argv[1:]
allprops = '--all' in args
args = [a for a in args if a != '--all']
for id in sorted(args or os.listdir(S)):
    meta = json.load(open('%s/%s/meta.json' % (S, id)))
    wt = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        r = os.path.join(wt, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        subprocess.run(['git', 'apply', '--directory=' + r.lstrip('/'), '--unsafe-paths', '%s/%s/patch.diff' % (S, id)], cwd='/', check=True)
        props = [meta['property']]
        if allprops:
            props = ['C%02d' % i for i in range(1, 30)]
        for p in props:
            t = time.time()
            o = subprocess.run([os.environ.get('VERIFDIR','/verif')+'/check', p], cwd=os.environ.get('VERIFDIR','/verif'), env=dict(os.environ, EZODF_REPO=r, EZODF_EVIDENCE=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [x for x in o.stdout.splitlines() if x.startswith(('VIOLATION', 'counterexample', 'INCOMPLETE'))]
            if o.returncode or not allprops:
                print('%-22s %s %s rc=%d %.0fs %s' % (id, p, 'CAUGHT' if o.returncode == 1 and any(x.startswith('VIOLATION') for x in v) else 'MISSED', o.returncode, time.time() - t, v[0][:160] if v else o.stdout[-200:]), flush=True)
    finally:
        shutil.rmtree(wt)
