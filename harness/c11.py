"""C11 Wrapper objects edit their XML children and attributes like lists and maps."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text
from harness.tabmodel import snapshot
from ezodf.base import GenericWrapper
from ezodf import Paragraph, Span, Heading, Table, Cell
from ezodf.text import Section, List, ListItem
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('parents of 5 classes with 0..3 children of 5 classes (one of them of an unregistered tag, one with a tail text), '
          'sequences of 2 operations (thorough: 3) with indices -(n+2)..n+2; attribute keys free out of 4, values of up to 2 '
          'free characters, integers, booleans'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['replacing a child is done with an object that is not an ancestor of the parent', 'children are elements (no comments)']

KINDS = {'text:p': Paragraph, 'text:span': Span, 'text:h': Heading, 'x:unknown': GenericWrapper, 'text:section': Section}
TAGS = [CN('text:p'), CN('text:span'), CN('text:h'), '{urn:x}unknown', CN('text:section')]
CLASSES = [Paragraph, Span, Heading, GenericWrapper, Section]
PARENTS = (('generic', '{urn:x}parent'), ('section', CN('text:section')), ('body', CN('office:drawing')), ('item', CN('text:list-item')),
           ('row', CN('table:table-row')))


def node(i, n):
    e = etree.Element(TAGS[i])
    e.set('num', str(n))
    return e


def make(ctx, parent, hi):
    tag = dict(PARENTS)[parent]
    root = etree.Element(tag)
    root.set('keep', 'yes')
    w = wrap(root)
    fixed = len(root)            # declarations a body creates
    nodes = [e for e in root]
    n = ctx.fork(ctx.int('n', 0, hi))
    for i in range(n):
        e = node((i * 2 + n) % 5, i)
        if i == 1:
            e.tail = 'tail'
        elif i == 0:
            del e.attrib['num']
        else:
            e.text = 'text'
            etree.SubElement(e, '{urn:x}inner').tail = 'more'
        root.append(e)
        nodes.append(e)
    return w, nodes


def check(ctx, w, nodes):
    n = len(nodes)
    ctx.check(len(w) == n, 'length')
    got = list(w)
    ctx.check(len(got) == n and all(g.xmlnode is e for g, e in zip(got, nodes)), 'iteration')
    for g in got:
        if g.xmlnode.tag in TAGS:
            ctx.check(type(g) is CLASSES[TAGS.index(g.xmlnode.tag)], 'class of a child')
    for i in range(n):
        ctx.check(w.get_child(i).xmlnode is nodes[i] and w[i].xmlnode is nodes[i], 'child by index')
        ctx.check(w[i - n].xmlnode is nodes[i], 'child by negative index')
        ctx.check(w.index(got[i]) == i, 'index of a child')
    for t in TAGS:
        want = [e for e in nodes if e.tag == t]
        found = w.find(t)
        ctx.check((found is None) if not want else (found is not None and found.xmlnode is want[0]), 'find')
        many = list(w.findall(t))
        ctx.check(len(many) == len(want) and all(g.xmlnode is e for g, e in zip(many, want)), 'findall')
        if found is not None:
            ctx.check(type(found) is CLASSES[TAGS.index(t)], 'class of a found child')
    ctx.check(w.xmlnode.get('keep') == 'yes', 'attributes')


OPS = ('append', 'iadd', 'insert', 'insert_before', 'set', 'setitem', 'del', 'delitem', 'remove', 'replace', 'get', 'foreign', 'grandchild', 'clear')


def step(ctx, w, nodes, op, sfx):
    n = len(nodes)
    i = ctx.int('i' + sfx, -n - 2, n + 2) if op in ('insert', 'set', 'setitem', 'del', 'delitem', 'get') else None
    child = wrap(node(ctx.fork(ctx.int('c' + sfx, 0, 4)), 10)) if op in ('append', 'insert', 'set') else wrap(node(1, 10))
    before = snapshot(w.xmlnode)
    if op in ('append', 'iadd'):
        if op == 'append':
            ctx.check(w.append(child) is child, 'append passes the child through')
        else:
            x = w
            x += child
            ctx.check(x is w, 'in-place append')
        nodes.append(child.xmlnode)
    elif op == 'insert':
        ctx.check(w.insert(i, child) is child, 'insert passes the child through')
        nodes.insert(ctx.fork(i), child.xmlnode)
    elif op in ('set', 'setitem', 'del', 'delitem', 'get'):
        fn = {'set': w.set_child, 'setitem': w.__setitem__, 'del': w.del_child, 'delitem': w.__delitem__, 'get': w.get_child}[op]
        res, exc = attempt(fn, i, child) if op[:3] == 'set' else attempt(fn, i)
        if ctx.any([i < -n, i >= n]):
            ctx.check(isinstance(exc, IndexError), 'index outside the list')
            ctx.check(ctx.eq(snapshot(w.xmlnode), before), 'a rejected operation changed something')
            return
        ctx.check(exc is None, 'valid index')
        if op == 'get':
            ctx.check(res.xmlnode is nodes[ctx.fork(i)], 'child')
        elif op[:3] == 'set':
            nodes[ctx.fork(i)] = child.xmlnode
        else:
            del nodes[ctx.fork(i)]
    elif op in ('insert_before', 'remove', 'replace'):
        if not n:
            return
        k = ctx.fork(ctx.int('k' + sfx, 0, n - 1))
        target = wrap(nodes[k])
        if op == 'insert_before':
            ctx.check(w.insert_before(target, child) is child, 'insert_before passes the child through')
            nodes.insert(k, child.xmlnode)
        elif op == 'remove':
            w.remove(target)
            del nodes[k]
        else:
            w.replace(target, child)
            nodes[k] = child.xmlnode
    elif op in ('foreign', 'grandchild'):
        other = etree.Element('{urn:x}other')
        e = etree.SubElement(other, TAGS[0])
        if op == 'grandchild':
            if not n:
                return
            nodes[0].append(other)
        bad = wrap(e)
        what = ctx.choice('what' + sfx, ['index', 'remove', 'replace', 'insert_before'])
        before = snapshot(w.xmlnode)
        res, exc = (attempt(w.index, bad) if what == 'index' else attempt(w.remove, bad) if what == 'remove' else
                    attempt(w.replace, bad, child) if what == 'replace' else attempt(w.insert_before, bad, child))
        ctx.check(isinstance(exc, ValueError), 'an object that is no child')
        ctx.check(ctx.eq(snapshot(w.xmlnode), before), 'a rejected operation changed something')
        if op == 'grandchild':
            nodes[0].remove(other)
    else:
        w.clear()
        del nodes[:]
        w.xmlnode.set('keep', 'yes')


@case('C11', quick=[{'parent': p, 'first': f} for i, (p, _) in enumerate(PARENTS) for j, f in enumerate(OPS) if p == 'section' or j % 4 == i],
      thorough=[{'parent': p, 'first': f} for p, _ in PARENTS for f in OPS])
def one(ctx, parent, first):
    w, nodes = make(ctx, parent, 3)
    check(ctx, w, nodes)
    step(ctx, w, nodes, first, '0')
    check(ctx, w, nodes)
    check(ctx, wrap(w.xmlnode) if parent != 'body' else w, nodes)


@case('C11', quick=[{'parent': 'section', 'first': f} for f in OPS[:11]],
      thorough=[{'parent': p, 'first': f, 'hi': 3} for p, _ in PARENTS for f in OPS])
def two(ctx, parent, first, hi=2):
    w, nodes = make(ctx, parent, hi)
    step(ctx, w, nodes, first, '0')
    step(ctx, w, nodes, ctx.choice('op', ['insert', 'setitem', 'delitem', 'remove', 'replace', 'insert_before']), '1')
    check(ctx, w, nodes)


@case('C11', quick=[{'op': o} for o in ('append', 'insert', 'insert_before', 'replace', 'set')])
def own_child(ctx, op):
    """moving a child inside its parent keeps every child once"""
    w, nodes = make(ctx, 'section', 3)
    n = len(nodes)
    if n == 0:
        return
    k = ctx.fork(ctx.int('k', 0, n - 1))
    j = ctx.fork(ctx.int('j', 0, n - 1))
    child = w[k]
    x, target = nodes[k], nodes[j]
    rest = [e for e in nodes if e is not x]
    if op == 'append':
        w.append(child)
        nodes = rest + [x]
    elif j == k:
        return
    elif op == 'insert':
        w.insert(j, child)
        rest.insert(rest.index(target), x)
        nodes = rest
    elif op == 'insert_before':
        w.insert_before(wrap(target), child)
        rest.insert(rest.index(target), x)
        nodes = rest
    else:
        if op == 'replace':
            w.replace(wrap(target), child)
        else:
            w.set_child(j, child)
        rest[rest.index(target)] = x
        nodes = rest
    check(ctx, w, nodes)


@case('C11')
def subtree(ctx):
    """a child is inserted with all its content, and it stays the same object"""
    w, nodes = make(ctx, 'section', 1)
    p = Paragraph('text')
    s = p.append_text(ctx.text('t', 2))
    inner = Span(ctx.text('u', 2))
    p.append(inner)
    before = snapshot(p.xmlnode)
    i = ctx.int('i', -2, 3)
    w.insert(i, p)
    ctx.check(ctx.eq(snapshot(p.xmlnode), before), 'content of the inserted child')
    inner.xmlnode.set('mark', 'x')
    k = w.index(p)
    ctx.check(w[k].get_child(len(w[k]) - 1).get_attr('mark') == 'x', 'child shares its XML node')
    ctx.check(p.get_xmlroot() is w.xmlnode and inner.get_xmlroot() is w.xmlnode, 'root')


KEYS = ('a', 'b', '{urn:x}c', CN('text:name'))


@case('C11', quick=[{'n': 2}], thorough=[{'n': 3}])
def attributes(ctx, n):
    e = etree.Element('{urn:x}node')
    e.set('a', '1')
    e.set('other', 'o')
    w = wrap(e)
    model = [['a', '1'], ['other', 'o']]
    for i in range(n):
        key = ctx.enum('key%d' % i, KEYS)
        at = -1
        for j in range(len(model)):
            if model[j][0] == key:
                at = j
        op = ctx.choice('op%d' % i, ['set', 'setint', 'setbool', 'setfalse', 'get', 'bool', 'default'])
        if op in ('set', 'setint'):
            v = ctx.text('v%d' % i, 2) if op == 'set' else ctx.int('v%d' % i, -100, 100)
            before = snapshot(e)
            res, exc = attempt(w.set_attr, key, v)
            empty = (v == '') if op == 'set' else (v == 0)
            if empty:
                ctx.check(isinstance(exc, ValueError), 'empty value')
                ctx.check(ctx.eq(snapshot(e), before), 'rejected value changed something')
                continue
            ctx.check(exc is None, 'value')
            v = v if op == 'set' else ctx.sxstr(v)
        elif op in ('setbool', 'setfalse'):
            b = ctx.bool('b%d' % i) if op == 'setbool' else ctx.choice('f%d' % i, ['', 0, None, [], 'false', 1, 'x'])
            w.set_bool_attr(key, b)
            v = 'true' if b else 'false'
            ctx.check(w.get_bool_attr(key) == (True if b else False), 'boolean attribute')
        else:
            if op == 'get':
                got = w.get_attr(key)
                ctx.check(ctx.eq(got, model[at][1]) if at >= 0 else got is None, 'attribute')
            elif op == 'default':
                d = ctx.choice('d%d' % i, ['dflt', None, 0, ''])
                got = w.get_attr(key, d)
                ctx.check(ctx.eq(got, model[at][1]) if at >= 0 else got == d, 'attribute or default')
            else:
                ctx.check(w.get_bool_attr(key) == (at >= 0 and model[at][1] == 'true'), 'boolean attribute')
            continue
        if at < 0:
            model.append([key, v])
        else:
            model[at][1] = v
    ctx.check(len(e.attrib) == len(model), 'number of attributes')
    for k, v in model:
        ctx.check(ctx.eq(w.get_attr(k), v), 'attributes afterwards')


@case('C11')
def foreign_values(ctx):
    """boolean attributes of other applications: only 'true' is true"""
    e = etree.Element('x')
    t = ctx.text('t', 4)
    e.set('k', t)
    ctx.check(wrap(e).get_bool_attr('k') == (t == 'true'), 'boolean attribute')
    ctx.check(wrap(e).get_attr('k', 'd') == t, 'attribute')
    ctx.check(wrap(e).get_bool_attr('l') is False, 'absent boolean attribute')


@case('C11', quick=[{'parent': p} for p in ('section', 'generic')])
def larger(ctx, parent):
    """more children; numbers around the integer constants of the code"""
    n = ctx.choice('n', tuple(sorted(set([8] + literals.ints(('base', 'xmlns', 'propertymixins', 'wrapcache'), 4, 70)))))
    root = etree.Element(dict(PARENTS)[parent])
    root.set('keep', 'yes')
    nodes = [node((i * 2 + n) % 5, i) for i in range(n)]
    for e in nodes:
        root.append(e)
    w = wrap(root)
    step(ctx, w, nodes, ctx.choice('op', OPS[:11]), '0')
    check(ctx, w, nodes)


@case('C11')
def in_a_table(ctx):
    """a table and its rows are wrappers, too: integers address XML children"""
    t = etree.Element(CN('table:table'))
    for i in range(3):
        etree.SubElement(t, CN(('table:table-source', 'office:forms', 'table:shapes')[i])).set('num', str(i))
    row = etree.SubElement(etree.SubElement(t, CN('table:table-row-group')), CN('table:table-row'))
    etree.SubElement(row, CN('table:table-cell'))
    w = wrap(t)
    n = len(t)
    kids = [e for e in t]
    i = ctx.int('i', -n - 1, n)
    op = ctx.choice('op', ('get', 'set', 'del', 'getchild'))
    before = snapshot(t)
    child = wrap(node(0, 10))
    res, exc = (attempt(w.__getitem__, i) if op == 'get' else attempt(w.__setitem__, i, child) if op == 'set' else
                attempt(w.__delitem__, i) if op == 'del' else attempt(w.get_child, i))
    if ctx.any([i < -n, i >= n]):
        ctx.check(isinstance(exc, IndexError) and snapshot(t) == before, 'index outside the list')
        return
    ctx.check(exc is None, 'valid index')
    k = ctx.fork(i)
    if op in ('get', 'getchild'):
        ctx.check(res.xmlnode is kids[k] and snapshot(t) == before, 'child')
    elif op == 'set':
        kids[k] = child.xmlnode
    else:
        del kids[k]
    ctx.check(len(t) == len(kids) and all([a is b for a, b in zip(t, kids)]), 'children')


@case('C11')
def attribute_constants(ctx):
    """values the code mentions itself and numbers around its integer constants"""
    w = wrap(etree.Element('{urn:x}node'))
    if ctx.bool('text'):
        v = special_text(ctx, 'v', ('base', 'propertymixins', 'xmlns', 'compatibility'), ('true', 'false', '0', 'None', ' ', 'x' * 300))
        w.set_attr('a', v)
        ctx.check(ctx.eq(w.get_attr('a'), v), 'attribute')
        ctx.check(w.get_bool_attr('a') == (v == 'true'), 'boolean attribute')
        ctx.check(ctx.eq(w.get_attr('a', 'default'), v) and ctx.eq(w.get_attr('b', v), v), 'default')
    else:
        n = ctx.choice('k', tuple(sorted(set([2 ** 31, 10 ** 15] + literals.ints(('base', 'propertymixins', 'compatibility'), 100, 10 ** 6))))) + ctx.int('d', -1, 1)
        w.set_attr('a', n)
        ctx.check(ctx.eq(w.get_attr('a'), ctx.sxstr(n)), 'number')
        b = ctx.bool('b')
        w.set_bool_attr('a', b)
        ctx.check(w.get_bool_attr('a') == b and ctx.eq(w.get_attr('a'), 'true' if ctx.fork(b) else 'false'), 'boolean')
