#!/usr/bin/env python3
"""Mutation sweep (development tool, used by no check).

mutate.py gen OUT.json            mutants of /repo/ezodf that survive the 733 tests
mutate.py run OUT.json RES.jsonl  run the checks that encode the mutated function
"""
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
SKIP = {'compatibility.py', 'const.py', 'weakrefset.py', '__init__.py'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div}


def functions(tree):
    out = []

    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + c.name
                if isinstance(c, ast.FunctionDef):
                    out.append((c.lineno, c.end_lineno, q))
                    walk(c, q + '.<locals>.')
                else:
                    walk(c, q + '.')
            else:
                walk(c, prefix)
    walk(tree, '')
    return out


def edits(src, tree):
    """yield (lineno, start, end, new text, description)"""
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    for n in ast.walk(tree):
        if not hasattr(n, 'lineno'):
            continue
        s, e = span(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in {type(n.ops[0]): [CMP.get(type(n.ops[0]))]}.get(type(n.ops[0])):
                if alt:
                    m = ast.Compare(n.left, [alt()], n.comparators)
                    yield n.lineno, s, e, '(' + ast.unparse(m) + ')', 'cmp'
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                alt = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}[type(n.ops[0])]
                yield n.lineno, s, e, '(' + ast.unparse(ast.Compare(n.left, [alt()], n.comparators)) + ')', 'cmpneg'
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            yield n.lineno, s, e, '(' + ast.unparse(ast.BinOp(n.left, BIN[type(n.op)](), n.right)) + ')', 'bin'
            yield n.lineno, s, e, '(' + ast.unparse(n.left) + ')', 'left'
            yield n.lineno, s, e, '(' + ast.unparse(n.right) + ')', 'right'
        elif isinstance(n, ast.BoolOp):
            alt = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield n.lineno, s, e, '(' + ast.unparse(ast.BoolOp(alt, n.values)) + ')', 'bool'
            for v in n.values:
                yield n.lineno, s, e, '(' + ast.unparse(v) + ')', 'boolpart'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield n.lineno, s, e, '(' + ast.unparse(n.operand) + ')', 'unary'
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield n.lineno, s, e, str(not n.value), 'const'
            elif isinstance(n.value, int):
                yield n.lineno, s, e, '(%d)' % (n.value + 1), 'const'
                yield n.lineno, s, e, '(%d)' % (n.value - 1), 'const'
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and not text(n).startswith(('"""', "'''", '"""')) and 0 < len(n.value) < 60:
                yield n.lineno, s, e, repr(n.value + 'X'), 'str'
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield n.lineno, s, e, 'pass', 'drop'
        elif isinstance(n, ast.Return) and n.value is not None:
            yield n.lineno, s, e, 'return None', 'retnone'
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            ts, te = span(n.test)
            if not isinstance(n, ast.While):
                yield n.lineno, ts, te, 'True', 'iftrue'
            yield n.lineno, ts, te, 'False', 'iffalse'
            yield n.lineno, ts, te, 'not (%s)' % text(n.test), 'ifnot'
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = list(n.args)
                a[0], a[1] = a[1], a[0]
                yield n.lineno, s, e, ast.unparse(ast.Call(n.func, a, n.keywords)), 'swap'
            if n.keywords:
                for k in n.keywords:
                    yield n.lineno, s, e, ast.unparse(ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])), 'dropkw'
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'tostr', 'int', 'float', 'sorted', 'reversed', 'max', 'min', 'tuple', 'frozenset', 'bool'):
                yield n.lineno, s, e, '(' + ast.unparse(n.args[0]) + ')', 'unwrap'
            if isinstance(n.func, ast.Name) and n.func.id in ('max', 'min', 'any', 'all'):
                alt = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any'}[n.func.id]
                yield n.lineno, s, e, ast.unparse(ast.Call(ast.Name(alt), n.args, n.keywords)), 'minmax'
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'deepcopy':
                yield n.lineno, s, e, '(' + ast.unparse(n.args[0]) + ')', 'nocopy'
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n.slice, part) is not None:
                    sl = ast.Slice(n.slice.lower, n.slice.upper, n.slice.step)
                    setattr(sl, part, None)
                    yield n.lineno, s, e, ast.unparse(ast.Subscript(n.value, sl)), 'slice'


def mutants():
    d = os.path.join(REPO, 'ezodf')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py') or fn in SKIP:
            continue
        src = open(os.path.join(d, fn), encoding='utf-8').read()
        tree = ast.parse(src)
        fs = functions(tree)
        b = src.encode()
        seen = set()
        for line, s, e, new, kind in edits(src, tree):
            inside = [f for f in fs if f[0] <= line <= f[1]]
            if not inside:
                continue
            q = inside[-1][2]
            m = b[:s] + new.encode() + b[e:]
            h = hashlib.sha1(m).hexdigest()
            if h in seen or m == b:
                continue
            seen.add(h)
            try:
                compile(m, fn, 'exec')
            except SyntaxError:
                continue
            yield {'file': fn, 'func': q, 'line': line, 'kind': kind, 'old': b[s:e].decode(), 'new': new, 's': s, 'e': e,
                   'id': '%s:%d:%s:%s' % (fn, line, kind, h[:6])}


def apply(m, root):
    p = os.path.join(root, 'ezodf', m['file'])
    b = open(os.path.join(REPO, 'ezodf', m['file']), 'rb').read()
    open(p, 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])
    return p


def restore(m, root):
    shutil.copyfile(os.path.join(REPO, 'ezodf', m['file']), os.path.join(root, 'ezodf', m['file']))


def survives(root, m):
    apply(m, root)
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
        env.pop('PYTHONPATH', None)
        try:
            o = subprocess.run('ulimit -v 6000000; exec /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests', shell=True, cwd=root, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            return o.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        restore(m, root)


def gen(out):
    todo = list(mutants())
    print(len(todo), 'mutants')
    import queue
    import threading
    q = queue.Queue()
    for m in todo:
        q.put(m)
    alive = []
    lock = threading.Lock()

    def worker(i):
        root = '/tmp/mut/w%d' % i
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            if survives(root, m):
                with lock:
                    alive.append(m)
        shutil.rmtree(root)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(7)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    alive.sort(key=lambda m: (m['file'], m['line']))
    json.dump(alive, open(out, 'w'), indent=0)
    print(len(alive), 'survive')


def encoded():
    enc = {}
    cost = {}
    for i in range(1, 27):
        p = 'C%02d' % i
        d = json.load(open('/verif/evidence/%s.json' % p))
        cost[p] = d['wall_s']
        for f in d['coverage']['functions_encoded']:
            enc.setdefault(f, []).append(p)
    for f in enc:
        enc[f].sort(key=cost.get)
    return enc, cost


PREFER = {'whitespaces.py': ['C02', 'C01'], 'text.py': ['C01', 'C20', 'C11'], 'cells.py': ['C03', 'C08', 'C26'], 'tableutils.py': ['C04', 'C25', 'C07', 'C08'],
          'tablenormalizer.py': ['C07', 'C25'], 'tablerowcontroller.py': ['C06', 'C05', 'C25'], 'tablecolumncontroller.py': ['C06', 'C05', 'C25', 'C07'],
          'table.py': ['C06', 'C05', 'C25', 'C23', 'C20', 'C08'], 'cellspancontroller.py': ['C08', 'C06'], 'pagecontainer.py': ['C09', 'C23'], 'sheets.py': ['C09', 'C23'],
          'pages.py': ['C09'], 'nodeorganizer.py': ['C10'], 'nodestructurechecker.py': ['C10'], 'nodestructuretags.py': ['C10'], 'base.py': ['C11', 'C01', 'C20', 'C10'], 'meta.py': ['C12', 'C26', 'C17'],
          'manifest.py': ['C13', 'C14'], 'filemanager.py': ['C14', 'C15', 'C16', 'C17', 'C26'], 'bytestreammanager.py': ['C14', 'C17', 'C15', 'C16'],
          'document.py': ['C17', 'C26', 'C15', 'C16', 'C14'], 'variables.py': ['C18', 'C26'], 'timeparser.py': ['C19'], 'propertymixins.py': ['C20'], 'styles.py': ['C21', 'C26', 'C20'],
          'observer.py': ['C22'], 'wrapcache.py': ['C23'], 'xmlns.py': ['C24', 'C21', 'C26'], 'ezlist.py': ['C20'], 'body.py': ['C10', 'C17', 'C26'], 'content.py': ['C17', 'C26'], 'conf.py': ['C07'], 'protection.py': ['C20'],
          'drawingpage.py': ['C09', 'C20'], 'presentationpage.py': ['C09'], 'whitespaces.py': ['C02', 'C01']}


def run(inp, out, shard=0, shards=1, jobs=8, nprops=4):
    alive = json.load(open(inp))[shard::shards]
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    enc, cost = encoded()
    root = '/tmp/mut/run%d' % shard
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(REPO, root, ignore=shutil.ignore_patterns('__pycache__', '.git'))
    f = open(out, 'a')
    for m in alive:
        if m['id'] in done:
            continue
        key = 'ezodf.%s:%s' % (m['file'][:-3], m['func'])
        props = enc.get(key)
        if props is None:
            # nested functions and closures belong to their outermost function
            base = key.split('.<locals>')[0]
            props = enc.get(base, [])
        pref = PREFER.get(m['file'], [])
        props = [p for p in pref if p in props] + [p for p in props if p not in pref]
        apply(m, root)
        res = []
        t0 = time.time()
        for p in props[:nprops]:
            try:
                o = subprocess.run(['/verif/check', p, '--jobs', str(jobs)], cwd='/verif', env=dict(os.environ, EZODF_REPO=root, EZODF_EVIDENCE='/tmp/mut/ev%d' % shard),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                inc = 'INCOMPLETE' in o.stdout
                rc = o.returncode
            except subprocess.TimeoutExpired:
                rc, inc = 99, True
            res.append([p, rc, inc])
            if rc == 1:
                break
        restore(m, root)
        caught = any(r[1] == 1 for r in res)
        m.update(caught=caught, res=res, props=props, secs=round(time.time() - t0))
        f.write(json.dumps(m) + '\n')
        f.flush()
    shutil.rmtree(root)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    else:
        run(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
