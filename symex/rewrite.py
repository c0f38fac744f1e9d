"""AST rewriting of the code under test and import machinery.

The encoding is regenerated from the current sources on every run."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys

LEAVE = frozenset(['super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__'])


def S(name):
    return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())


def scall(name, *args):
    return ast.Call(S(name), list(args), [])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname = modname
        self.track = track
        self.scope = []
        self.tmp = 0

    # -- functions ---------------------------------------------------------
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append(node.name)
        node.body = [y for x in node.body for y in self._stmt(x)]
        if self.track:
            doc = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                        isinstance(node.body[0].value, ast.Constant) and
                        isinstance(node.body[0].value.value, str)) else 0
            node.body.insert(doc, ast.Expr(scall('enter', ast.Constant(self.modname + ':' + '.'.join(self.scope)))))
        self.scope.pop()
        return node

    def _stmt(self, s):
        r = self.visit(s)
        return r if isinstance(r, list) else [r]

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    # annotations are not executed symbolically
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    # -- expressions ----------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in LEAVE:
            return node
        return ast.Call(S('call'), [node.func] + node.args, node.keywords)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name('slice', ast.Load()),
                            [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return ast.Tuple([self._slice(x) for x in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return scall('getitem', node.value, self._slice(node.slice))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'contains',
                 ast.NotIn: 'not_contains', ast.Is: 'is_', ast.IsNot: 'is_not'}
        if len(node.ops) == 1:
            op = type(node.ops[0])
            right = node.comparators[0]
            if op in (ast.Is, ast.IsNot) and isinstance(right, ast.Constant) and right.value is None:
                return node
            if op in names:
                return scall(names[op], node.left, right)
            return node
        if all(type(o) not in names for o in node.ops):
            return node
        # chain: evaluate each operand once
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            last = i == len(node.ops) - 1
            if not last:
                self.tmp += 1
                name = '__sxt%d' % self.tmp
                rexp = ast.NamedExpr(ast.Name(name, ast.Store()), right)
                nxt = ast.Name(name, ast.Load())
            else:
                rexp, nxt = right, None
            if type(op) in names:
                parts.append(scall(names[type(op)], left, rexp))
            else:
                parts.append(ast.Compare(left, [op], [rexp]))
            left = nxt
        return ast.BoolOp(ast.And(), parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return scall('mod', node.left, node.right)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return scall('not__', node.operand)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(scall('fvalue', val, ast.Constant(conv), spec))
        return scall('fstring', *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                k = S('STAR')
            pairs.append(ast.Tuple([k, v], ast.Load()))
        return scall('mkdict', *pairs)

    def visit_Set(self, node):
        self.generic_visit(node)
        return scall('mkset', *node.elts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return scall('m_dict', gen)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return scall('m_set', ast.GeneratorExp(node.elt, node.generators))

    # -- statements -------------------------------------------------------------
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        targets = node.targets
        if len(targets) == 1 and isinstance(targets[0], ast.Subscript):
            t = targets[0]
            return ast.Expr(scall('setitem', self.visit(t.value),
                                  self._slice(self.visit(t.slice)), node.value))
        node.targets = [self.visit(t) for t in targets]
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript):
            self.tmp += 2
            o, i = '__sxt%d' % (self.tmp - 1), '__sxt%d' % self.tmp
            load = scall('getitem', ast.Name(o, ast.Load()), ast.Name(i, ast.Load()))
            if isinstance(node.op, ast.Mod):
                val = scall('mod', load, self.visit(node.value))
                st = [ast.Expr(scall('setitem', ast.Name(o, ast.Load()), ast.Name(i, ast.Load()), val))]
            else:
                self.tmp += 1
                v = '__sxt%d' % self.tmp
                st = [ast.Assign([ast.Name(v, ast.Store())], load),
                      ast.AugAssign(ast.Name(v, ast.Store()), node.op, self.visit(node.value)),
                      ast.Expr(scall('setitem', ast.Name(o, ast.Load()), ast.Name(i, ast.Load()),
                                     ast.Name(v, ast.Load())))]
            return [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                    ast.Assign([ast.Name(i, ast.Store())], self._slice(self.visit(t.slice)))] + st
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.Assign([t], scall('mod', ast.Name(t.id, ast.Load()), self.visit(node.value)))
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(scall('delitem', self.visit(t.value), self._slice(self.visit(t.slice)))))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_ExceptHandler(self, node):
        broad = node.type is None
        names = []
        if isinstance(node.type, ast.Name):
            names = [node.type.id]
        elif isinstance(node.type, ast.Tuple):
            names = [e.id for e in node.type.elts if isinstance(e, ast.Name)]
        broad = broad or 'BaseException' in names
        self.generic_visit(node)
        if broad:
            node.body.insert(0, ast.Expr(scall('reraise')))
        return node


def rewrite_source(src, modname, filename, track=True):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


def _annotation_names():
    pass


OVERRIDES = {}      # module name -> replacement module, for rewritten code


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in OVERRIDES:
        m = OVERRIDES[name]
        return m
    if level == 0 and '.' in name and name.split('.')[0] in OVERRIDES:
        top = OVERRIDES[name.split('.')[0]]
        if fromlist:
            m = top
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        return top
    return builtins.__import__(name, globals, locals, fromlist, level)


def module_builtins():
    b = dict(vars(builtins))
    b['__import__'] = _import
    return b


BUILTINS = module_builtins()


class Loader(importlib.abc.Loader):
    def __init__(self, path, track):
        self.path = path
        self.track = track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = rewrite_source(src, module.__name__, self.path, self.track)
        d = module.__dict__
        d['__builtins__'] = BUILTINS
        d['__sx__'] = rt
        d['__file__'] = self.path
        exec(code, d)


class Finder(importlib.abc.MetaPathFinder):
    """Loads `package` (and listed extra modules) through the rewriter."""

    def __init__(self, roots, extra=None):
        self.roots = roots          # top-level name -> (directory, track)
        self.extra = extra or {}    # module name -> (file, track)

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.extra:
            f, track = self.extra[fullname]
            return importlib.util.spec_from_loader(fullname, Loader(f, track), origin=f)
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base, track = self.roots[top]
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            spec = importlib.util.spec_from_loader(fullname, Loader(f, track), origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + '.py'):
            f = p + '.py'
            return importlib.util.spec_from_loader(fullname, Loader(f, track), origin=f)
        return None


def install(roots, extra=None):
    f = Finder(roots, extra)
    sys.meta_path.insert(0, f)
    return f
