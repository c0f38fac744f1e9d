#!/usr/bin/env python3
"""Plant a bug: python3 plant.py SPEC.py ...   (development tool, used by no check)

A spec file calls bug(id, property, edits=[(file, old, new)], demo, needs, breaks).
The bug is kept as /verif/seeded/<id> if, in a scratch copy of /repo, it compiles, the
tests pass with it, and the demo passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = 'd023987'
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    env.pop('PYTHONPATH', None)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, **k)


def bug(id, prop, edits, demo, needs, breaks):
    wt = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        _bug(id, prop, edits, demo, needs, breaks, os.path.join(wt, 'repo'))
    finally:
        shutil.rmtree(wt)


def _bug(id, prop, edits, demo, needs, breaks, wt):
    shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('__pycache__'))
    dst = os.environ.get('SEEDED', '/verif/seeded') + '/' + id
    tmp = wt + '-demo'
    os.makedirs(tmp)
    with open(tmp + '/demo.py', 'w') as f:
        f.write(HEAD + demo.strip('\n') + '\n')
    with open(tmp + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# cwd: /repo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    d = sh(['bash', tmp + '/demo.sh'], wt)
    if d.returncode != 0:
        print(id, 'DEMO FAILS ON THE UNCHANGED TREE\n', d.stdout[-1500:])
        return
    for fn, old, new in edits:
        p = os.path.join(wt, 'ezodf', fn)
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            print(id, fn, 'occurrences of old text:', s.count(old))
            return
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    diff = sh(['git', 'diff'], wt).stdout
    removed = changed_lines(wt, diff)
    if removed:
        print(id, 'LINES OF A FIX:', removed)
        return
    t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], wt)
    if t.returncode != 0:
        print(id, 'TESTS FAIL', '\n'.join(x for x in t.stdout.splitlines() if x.startswith('FAILED'))[:800], t.stdout[-300:])
        return
    d2 = sh(['bash', tmp + '/demo.sh'], wt)
    if d2.returncode == 0:
        print(id, 'DEMO PASSES WITH THE BUG', d2.stdout[-800:])
        return
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for n in ('demo.sh', 'demo.py'):
        shutil.copy(os.path.join(tmp, n), dst)
    with open(dst + '/patch.diff', 'w') as f:
        f.write(diff)
    with open(dst + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    print(id, 'ok:', d2.stdout.strip().splitlines()[-1][:150] if d2.stdout.strip() else '')


def changed_lines(wt, diff):
    """what is wrong with the lines the patch changes"""
    fn, out, n = None, [], 0
    blame = {}
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            fn = line[6:]
            blame[fn] = [b.split()[0].lstrip('^') for b in sh(['git', 'blame', '--abbrev=7', 'HEAD', '--', fn], wt).stdout.splitlines()]
        elif line.startswith('@@'):
            at = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            n += 1
            if not blame[fn][at - 1].startswith(BASE):
                out.append('%s:%d %s' % (fn, at, line))
            at += 1
        elif line.startswith(' '):
            at += 1
    if n == 0:
        out.append('no line removed')
    return out


if __name__ == '__main__':
    for spec in sys.argv[1:]:
        exec(compile(open(spec).read(), spec, 'exec'), {'bug': bug})
