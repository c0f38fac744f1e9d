"""C21 A style container returns the style last stored under a name."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from harness.tabmodel import snapshot
from ezodf.base import GenericWrapper
from ezodf.styles import OfficeDocumentStyles, Style, FontFace, PageLayout
from ezodf.xmlns import wrap, CN, etree, fake_element

BOUNDS = ('the four containers of a new or loaded styles.xml with 0..3 entries (styles, font faces, page layouts, elements of unknown '
          'classes, elements without a name) with free names of 1 character, sequences of 3 (thorough: 4) operations out of lookup, '
          'store, store of a style of another container, store of the style itself, access by a second wrapper; entries of 6 shapes '
          '(without children, with several, texts, families, other elements with the same name attribute inside)'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a style is stored under its own name', 'loaded containers have unique names']

NAME = CN('style:name')
KINDS = {'fonts': 'style:font-face', 'styles': 'style:style', 'automatic_styles': 'style:page-layout', 'master_styles': 'style:master-page'}
CLASSES = {'style:font-face': FontFace, 'style:style': Style, 'style:page-layout': PageLayout, 'style:master-page': GenericWrapper,
           'text:list-style': GenericWrapper}


def entry(tag, name, mark):
    e = etree.Element(CN(tag))
    if name is not None:
        e.set(NAME, name)
    e.set('mark', mark)
    etree.SubElement(e, CN('style:properties'))
    return e


class World(object):
    def __init__(self, ctx, kind, n, loaded):
        self.ctx, self.kind = ctx, kind
        root = etree.Element(CN('office:document-styles'))
        self.model = []                 # [name or None, element]
        self.kids = {}                  # numbers of children of elements made by `shaped`
        box = etree.SubElement(root, CN({'fonts': 'office:font-face-decls', 'styles': 'office:styles',
                                         'automatic_styles': 'office:automatic-styles', 'master_styles': 'office:master-styles'}[kind]))
        for i in range(n):
            name = self.fresh('n%d' % i)
            self.model.append([name, entry(KINDS[kind] if i != 1 else 'text:list-style', name, 'm%d' % i)])
            if i == 0:
                self.model.append([None, entry('style:default-style', None, 'd')])
        for name, e in self.model:
            box.append(e)
        self.styles = OfficeDocumentStyles(root)
        self.box = getattr(self.styles, kind)
        self.count = 0

    def fresh(self, var):
        """a name that is not in the container yet"""
        name = self.ctx.text(var, 1)
        for n, e in self.model:
            if n is not None:
                self.ctx.assume(self.ctx.not_(self.ctx.eq(n, name)))
        return name

    def at(self, key):
        for i in range(len(self.model)):
            if self.model[i][0] is not None and self.model[i][0] == key:
                return i
        return -1

    def lookup(self, key, box=None):
        ctx = self.ctx
        i = self.at(key)
        got, exc = attempt((box or self.box).__getitem__, key)
        if i < 0:
            ctx.check(isinstance(exc, KeyError), 'unknown names raise KeyError')
        else:
            if exc is not None:
                raise exc
            ctx.check(got.xmlnode is self.model[i][1], 'object for the style last stored')
            ctx.check(type(got) is CLASSES.get(tag_of(got.xmlnode)), 'class of the style')

    def store(self, name, value, box=None):
        (box or self.box)[name] = value
        i = self.at(name)
        if i < 0:
            self.model.append([name, value.xmlnode])
        else:
            self.model[i] = [self.model[i][0], value.xmlnode]

    def verify(self):
        ctx = self.ctx
        kids = list(self.box.xmlnode)
        ctx.check(len(kids) == len(self.model), 'number of styles')
        for (name, e), k in zip(self.model, kids):
            ctx.check(k is e, 'styles and their order')
            ctx.check(ctx.eq(k.get(NAME), name) if name is not None else k.get(NAME) is None, 'name of a style')
            ctx.check(len(k) == self.kids.get(id(k), 1), 'content of a style')


def tag_of(node):
    for t in CLASSES:
        if CN(t) == node.tag:
            return t


def step(w, other, op, sfx):
    ctx = w.ctx
    tag = KINDS[w.kind]
    if op in ('lookup', 'lookup2'):
        w.lookup(ctx.text('key' + sfx, 1), wrap(w.box.xmlnode) if op == 'lookup2' else None)
    elif op in ('store', 'store2', 'raw'):
        name = ctx.text('name' + sfx, 1)
        e = entry(tag, name, 's' + sfx)
        value = GenericWrapper(xmlnode=e) if op == 'raw' else wrap(e)
        w.store(name, value, wrap(w.box.xmlnode) if op == 'store2' else None)
    elif op == 'itself':
        named = [n for n, e in w.model if n is not None]
        if not named:
            return
        name = named[ctx.choice('self' + sfx, (0, len(named) - 1))]
        w.store(name, w.box[name])
    elif op == 'toother':
        # the style moves to the other container
        named = [i for i in range(len(w.model)) if w.model[i][0] is not None]
        if not named:
            return
        i = named[ctx.choice('give' + sfx, (0, len(named) - 1))]
        name = w.model[i][0]
        value = w.box[name]
        del w.model[i]
        other.store(name, value)
    elif op == 'fromother':
        if not other.model:
            return
        name = other.model[0][0]
        if name is None:
            return
        value = other.box[name]
        del other.model[0]
        w.store(name, value)


OPS = ('lookup', 'lookup2', 'store', 'store2', 'raw', 'itself', 'toother', 'fromother')


@case('C21', quick=[{'kind': k, 'n': n, 'steps': 2} for k, n in (('fonts', 1), ('styles', 2), ('automatic_styles', 1), ('master_styles', 0))],
      thorough=[{'kind': k, 'n': n, 'steps': 3} for k, n in (('fonts', 1), ('styles', 2), ('automatic_styles', 1), ('master_styles', 0))])
def sequence(ctx, kind, n, steps):
    w = World(ctx, kind, n, True)
    other = World(ctx, kind, 0, True)
    other.model.append(['o', entry(KINDS[kind], 'o', 'o')])
    other.box.xmlnode.append(other.model[0][1])
    last = None
    for i in range(steps):
        op = ctx.choice('op%d' % i, OPS if i < steps - 1 or i < 2 else ('lookup', 'store', 'toother'))
        step(w, other, op, str(i))
    w.verify()
    other.verify()
    for name, e in w.model:
        if name is not None:
            w.lookup(name)
    w.lookup(ctx.text('key', 1))
    other.lookup('o')
    w.verify()
    ctx.observe([k.get('mark') for k in w.box.xmlnode])


@case('C21')
def stores_and_lookups(ctx):
    """store, look up, store again, look up: under free names that may agree"""
    w = World(ctx, 'styles', 1, True)
    names = [ctx.text('a', 1), ctx.text('b', 1), ctx.text('c', 1)]
    for i, name in enumerate(names):
        if ctx.bool('before%d' % i):
            w.lookup(name)
        w.store(name, wrap(entry('style:style', name, 's%d' % i)))
        if ctx.bool('after%d' % i):
            w.lookup(name)
            if i:
                w.lookup(names[i - 1])
    w.verify()
    for name in names:
        w.lookup(name)


@case('C21')
def separate(ctx):
    """the containers of one document do not know each other's styles"""
    s = OfficeDocumentStyles()
    key = ctx.text('key', 2, None, 1)
    kinds = sorted(KINDS)
    k = ctx.choice('kind', kinds)
    getattr(s, k)[key] = wrap(entry(KINDS[k], key, 'x'))
    for other in kinds:
        box = getattr(s, other)
        got, exc = attempt(box.__getitem__, key)
        if other == k:
            ctx.check(exc is None and got.xmlnode.get('mark') == 'x', 'stored style')
        else:
            ctx.check(isinstance(exc, KeyError) and len(box.xmlnode) == 0, 'style of another container')
    again = OfficeDocumentStyles(etree.XML(s.tobytes()))
    got = getattr(again, k)[key]
    ctx.check(got.xmlnode.get('mark') == 'x' and ctx.eq(got.xmlnode.get(NAME), key), 'style of a reloaded container')


@case('C21')
def attributes(ctx):
    """a style found by name shows its attributes"""
    s = OfficeDocumentStyles()
    vals = [ctx.text('v%d' % i, 1) for i in range(2)]
    e = entry('style:style', 'n', 'x')
    e.set(CN('style:family'), vals[0])
    e.set(CN('style:parent-style-name'), vals[1])
    s.styles['n'] = wrap(e)
    got = s.styles['n']
    ctx.check(ctx.eq(got['family'], vals[0]) and ctx.eq(got['parent-style-name'], vals[1]) and got['name'] == 'n', 'attributes')
    ctx.check(got['class'] is None and got['data-style-name'] is None, 'missing attributes')
    p = entry('style:page-layout', 'p', 'y')
    p.set(CN('style:page-usage'), vals[1])
    s.automatic_styles['p'] = PageLayout(p)
    before = snapshot(p)
    got = s.automatic_styles['p']
    ctx.check(type(got) is PageLayout and ctx.eq(got['page-usage'], vals[1]) and got['name'] == 'p', 'page layout')
    ctx.check(ctx.eq(snapshot(p), before), 'a lookup changes nothing')
    ctx.check(isinstance(attempt(got.__getitem__, 'family')[1], KeyError), 'unknown attribute')


MODULES = ('styles', 'base', 'propertymixins', 'document')


@case('C21', quick=[{'kind': k} for k in sorted(KINDS)])
def constants(ctx, kind):
    """names the code mentions itself, in containers of several entries"""
    from symex import literals
    w = World(ctx, kind, 0, True)
    names = ctx.bool('names')
    t = 'Default' if not names else special_text(ctx, 'name', MODULES, ('Standard', 'Default', 'true', "it's", 'a"b', 'n1', '*', 'style:name', 'x' * 100))
    n = 4 if names else ctx.choice('n', tuple(sorted(set([6] + literals.ints(MODULES, 3, 70)))))
    for i in range(n):
        e = entry(KINDS[kind], 'n%d' % i, 'm%d' % i)
        w.model.append(['n%d' % i, e])
        w.box.xmlnode.append(e)
    if ctx.bool('before'):
        w.lookup(t)
    w.store(t, wrap(entry(KINDS[kind], t, 's')))
    w.verify()
    w.lookup(t)
    near = ctx.choice('near', (t + 'x', t, 'n%d' % (n - 1)) if not names else (t + 'x', t[:-1]))
    w.lookup(near)
    w.store(near, wrap(entry(KINDS[kind], near, 'z')))
    w.verify()
    for name in (t, near, 'n0', 'n%d' % (n - 1)):
        w.lookup(name)
    again = wrap(etree.XML(etree.tostring(w.box.xmlnode)))
    ctx.check([k.get('mark') for k in again.xmlnode] == [e.get('mark') for _, e in w.model], 'styles and their order')


SHAPES = ('bare', 'one', 'two', 'text', 'family', 'inner', 'master')


def shaped(w, name, mark, shape):
    e = entry('style:style' if shape in ('family', 'inner') else KINDS[w.kind], name, mark)
    if shape == 'bare':
        del e[0]
    elif shape == 'two':
        etree.SubElement(e, CN('style:map'))
    elif shape == 'text':
        e.text = e.tail = '\n '
    elif shape == 'family':
        e.set(CN('style:family'), mark)
    elif shape == 'inner':
        # the name of a part is not the name of the style
        e[0].set(NAME, 'inside')
    elif shape == 'master':
        e.set(CN('style:display-name'), 'shown')
        e.set(CN('draw:name'), 'drawn')
        e.set('name', 'plain')
    w.kids[id(e)] = len(e)
    return e


@case('C21', quick=[{'kind': k} for k in sorted(KINDS)])
def shapes(ctx, kind):
    """what a style contains does not matter"""
    w = World(ctx, kind, 0, True)
    names = [ctx.text('a', 1), ctx.text('b', 1)]
    ctx.assume(ctx.not_(ctx.eq(names[0], names[1])))
    for i, n in enumerate(names):
        e = shaped(w, n, 'm%d' % i, ctx.choice('shape%d' % i, SHAPES if i == 0 else ('one', 'bare')))
        w.model.append([n, e])
        w.box.xmlnode.append(e)
    for i in range(2):
        w.lookup(names[i])
    key = ctx.text('c', 1)
    w.store(key, GenericWrapper(xmlnode=shaped(w, key, 's', ctx.choice('shape2', SHAPES))))
    w.verify()
    for n in names + [key, 'inside', 'shown', 'drawn', 'plain']:
        w.lookup(n)
    w.verify()
