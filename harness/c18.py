"""C18 A variable or user field reads back the value assigned, in every occurrence."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from harness.tabmodel import snapshot
from ezodf.variables import SimpleVariable, UserField
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('text documents with 2 variables and 2 user fields with free names of 1..2 characters (variables and fields may share a name), 0..3 occurrences '
          'of every kind in paragraphs, headings, list items and table cells, and 2 (thorough: 3) assignments of texts of 0..2 free '
          'characters, integers in -10**9..10**9, floats in eighths and booleans, by item access or by attribute'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a simple variable has at least one occurrence (its declaration has no value in the file format)',
               'loaded declarations of the same kind have different names']

NAME, TYPE = CN('text:name'), CN('office:value-type')
VAR = ('text:variable-set', 'text:variable-get', 'text:variable-input')
FIELD = ('text:user-field-get', 'text:user-field-input')


class World(object):
    def __init__(self, ctx, spec, chars, names=None):
        """spec: per occurrence (tag, index of its name or 'other', place)"""
        self.ctx = ctx
        dom = None
        self.names = names or [ctx.text('a', chars, dom, 1), ctx.text('b', 1, dom, 1)]
        ctx.assume(ctx.not_(ctx.eq(self.names[0], self.names[1])))
        self.names.append('other')
        for n in self.names[:2]:
            ctx.assume(ctx.not_(ctx.eq(n, 'other')))
        self.root = etree.Element(CN('office:document-content'))
        body = etree.SubElement(etree.SubElement(self.root, CN('office:body')), CN('office:text'))
        vs = etree.SubElement(body, CN('text:variable-decls'))
        fs = etree.SubElement(body, CN('text:user-field-decls'))
        for i in (0, 1):
            v = etree.SubElement(vs, CN('text:variable-decl'))
            v.set(NAME, self.names[i])
            v.set(TYPE, 'string')
            f = etree.SubElement(fs, CN('text:user-field-decl'))
            f.set(NAME, self.names[i])
            f.set(TYPE, 'string')
            f.set(CN('office:string-value'), 'old')
        p = etree.SubElement(body, CN('text:p'))
        p.text = 'some'
        h = etree.SubElement(body, CN('text:h'))
        cell = body
        for t in ('table:table', 'table:table-row', 'table:table-cell', 'text:p'):
            cell = etree.SubElement(cell, CN(t))
        mark = etree.SubElement(p, CN('text:bookmark'))
        mark.set(NAME, self.names[0])
        mark.tail = 'text'
        self.occ = []
        for n, (tag, name, place) in enumerate(spec):
            e = etree.SubElement({'p': p, 'h': h, 'c': cell}[place], CN(tag))
            e.set(NAME, self.names[name])
            e.set(TYPE, 'string')
            e.text = 'old'
            e.tail = 'tail%d' % n
            self.occ.append((tag, name, e))
        self.body = wrap(body)
        self.decls = {'var': list(vs), 'field': list(fs)}

    def container(self, kind, body=None):
        body = body or self.body
        return body.variables if kind == 'var' else body.userfields

    def occurrences(self, kind, i):
        return [e for tag, name, e in self.occ if name == i and tag in (VAR if kind == 'var' else FIELD)]


def value(ctx, sfx):
    """(value, type)"""
    how = ctx.choice('kind' + sfx, ('text', 'int', 'float', 'bool'))
    if how == 'text':
        return ctx.text('v' + sfx, 2), 'string'
    if how == 'int':
        return ctx.int('v' + sfx, -10 ** 9, 10 ** 9), 'float'
    if how == 'float':
        return ctx.float('v' + sfx, -1000, 1000), 'float'
    return ctx.bool('v' + sfx), 'boolean'


def reports(ctx, got, v, t, label):
    if t == 'float':
        ctx.check(isinstance(got, float) and ctx.eq(got, v), label)
    elif t == 'boolean':
        ctx.check(isinstance(got, bool) and ctx.eq(got, v), label)
    else:
        ctx.check(isinstance(got, str) and ctx.eq(got, v), label)


def verify(ctx, w, kind, i, v, t, body=None, occ=None):
    name = w.names[i]
    decl = w.container(kind, body)[name]
    occ = w.occurrences(kind, i) if occ is None else occ
    reports(ctx, decl.value, v, t, 'value of the declaration')
    ctx.check(decl.type == t, 'type of the declaration')
    ctx.check(ctx.eq(decl.name, name), 'name of the declaration')
    got = list(decl.instances)
    ctx.check(len(got) == len(occ), 'number of instances')
    for e in occ:
        ctx.check(len([1 for g in got if g.xmlnode is e]) == 1, 'instance of every occurrence')
    for g in got:
        reports(ctx, g.value, v, t, 'value of an occurrence')
        ctx.check(g.type == t, 'type of an occurrence')
        ctx.check(ctx.eq(g.name, name), 'name of an occurrence')


def others(w, done):
    """everything that no assignment in done addressed"""
    out = []
    for kind in ('var', 'field'):
        for k, d in enumerate(w.decls[kind]):
            if (kind, k) not in done:
                out.append(snapshot(d))
        for i in (0, 1, 2):
            if (kind, i) not in done:
                out.extend([snapshot(e) for e in w.occurrences(kind, i)])
    addressed = [e for kind, i in done for e in w.occurrences(kind, i)]
    for e in w.root.iter():
        if not any(e is a for a in addressed):
            out.append((e.tag, e.text, e.tail, len(e)))
        else:
            out.append((e.tag, e.tail, len(e), e.get(NAME)))
    return out


SPECS = {
    'one each': [('text:variable-set', 0, 'p'), ('text:variable-get', 1, 'h'), ('text:user-field-get', 0, 'p'), ('text:user-field-input', 1, 'c')],
    'many': [('text:variable-set', 0, 'p'), ('text:variable-get', 0, 'h'), ('text:variable-input', 0, 'c'), ('text:variable-set', 1, 'c'),
             ('text:user-field-get', 0, 'c'), ('text:user-field-get', 0, 'p'), ('text:user-field-input', 0, 'h'), ('text:variable-get', 2, 'p')],
    'no fields': [('text:variable-input', 0, 'p'), ('text:variable-get', 0, 'p'), ('text:variable-set', 1, 'p'), ('text:user-field-get', 2, 'p')],
}


@case('C18', quick=[{'spec': s, 'n': 2 if s == 'many' else 1} for s in sorted(SPECS)],
      thorough=[{'spec': s, 'n': 3} for s in sorted(SPECS)])
def assign(ctx, spec, n):
    w = World(ctx, SPECS[spec], 2)
    state = {}
    for k in range(n):
        sfx = str(k)
        kind = ctx.choice('what' + sfx, ('var', 'field'))
        i = ctx.choice('which' + sfx, (0, 1))
        v, t = value(ctx, sfx)
        before = others(w, [(kind, i)])
        if ctx.bool('by item' + sfx):
            w.container(kind)[w.names[i]] = v
        else:
            w.container(kind)[w.names[i]].value = v
        ctx.check(ctx.eq(others(w, [(kind, i)]), before), 'other variables, fields and text')
        state[kind, i] = v, t
    for (kind, i), (v, t) in sorted(state.items(), key=lambda x: x[0]):
        verify(ctx, w, kind, i, v, t)
    for kind in ('var', 'field'):
        for i in (0, 1):
            if (kind, i) not in state and (kind == 'field' or w.occurrences(kind, i)):
                verify(ctx, w, kind, i, 'old', 'string')
    # a second program opens the document
    root = etree.XML(etree.tostring(w.root))
    body = wrap(root[0][0])
    for (kind, i), (v, t) in sorted(state.items(), key=lambda x: x[0]):
        tags = VAR if kind == 'var' else FIELD
        occ = [e for e in root.iter() if e.tag in [CN(x) for x in tags] and e.get(NAME) == w.names[i]]
        verify(ctx, w, kind, i, v, t, body, occ)


@case('C18', quick=[{'kind': k} for k in ('var', 'field')])
def twice(ctx, kind):
    """the second value replaces the first whatever their types"""
    w = World(ctx, [('text:variable-set', 0, 'p'), ('text:variable-get', 0, 'c'), ('text:user-field-get', 0, 'h')], 1)
    decl = w.container(kind)[w.names[0]]
    v, t = value(ctx, '0')
    decl.value = v
    v, t = value(ctx, '1')
    w.container(kind)[w.names[0]] = v
    verify(ctx, w, kind, 0, v, t)


@case('C18')
def occurrence(ctx):
    """assigning to one occurrence"""
    w = World(ctx, SPECS['many'], 1)
    k = ctx.choice('k', tuple(range(len(SPECS['many']))))
    tag, i, e = w.occ[k]
    v, t = value(ctx, '')
    before = [snapshot(o) for _, _, o in w.occ if o is not e]
    inst = wrap(e)
    inst.value = v
    reports(ctx, wrap(e).value, v, t, 'value of the occurrence')
    ctx.check(inst.type == t and ctx.eq(inst.name, w.names[i]) and e.tail == 'tail%d' % k, 'type, name and position')
    ctx.check(ctx.eq([snapshot(o) for _, _, o in w.occ if o is not e], before), 'other occurrences')


@case('C18')
def names(ctx):
    """containers are addressed by the exact name"""
    w = World(ctx, SPECS['one each'], 2)
    key = ctx.text('key', 2, None, 1)
    for kind in ('var', 'field'):
        box = w.container(kind)
        ctx.check([v.kind for v in box] == ['SimpleVariable' if kind == 'var' else 'UserField'] * 2, 'declarations')
        hit = [i for i in (0, 1) if key == w.names[i]]
        ctx.check((key in box) == (len(hit) == 1), 'membership')
        for i in hit:
            ctx.check(box[key].xmlnode is w.decls[kind][i], 'declaration of the name')
        for i in (0, 1):
            ctx.check(box[w.names[i]].xmlnode is w.decls[kind][i], 'declaration by name')
            ctx.check(w.names[i] in box, 'membership')


MODULES = ('variables', 'base', 'propertymixins', 'compatibility', 'body')
WORDS = ('true', 'false', 'None', '0', '1', '-1', '1.5', '1e3', 'nan', 'old', 'string', 'float', 'boolean', '  ', 'office:value')


@case('C18', quick=[{'kind': k, 'what': w} for k in ('var', 'field') for w in ('value', 'name', 'number', 'many')])
def constants(ctx, kind, what):
    """texts the code mentions itself, numbers around its integer constants, many occurrences"""
    t, names = 'string', ['a', 'b', 'other']
    spec = SPECS['one each'] + [('text:variable-set', 1, 'c'), ('text:variable-get', 0, 'p'), ('text:user-field-get', 1, 'h')]
    if what == 'value':
        v = special_text(ctx, 'v', MODULES, WORDS) if ctx.bool('short') else ctx.text('x', 1) + long_text(300) + ctx.text('y', 1)
    elif what == 'name':
        v = ctx.text('v', 1)
        names[0] = special_text(ctx, 'name', MODULES, WORDS + ("it's", 'a"b', 'other', ' a', '*', '[1]', 'x' * 80))
        near = ctx.choice('near', ('longer', 'shorter'))
        names[1] = {'longer': names[0] + 'x', 'shorter': names[0][:-1] or 'y', 'b': 'b'}[near]
        names[2] = 'yet another'
        ctx.assume(names[0] != names[1])
    elif what == 'number':
        t = 'float'
        v = ctx.choice('k', tuple(sorted(set([0, 1, 10, 2 ** 31, 10 ** 15, 2 ** 53 - 2] + literals.ints(MODULES, 1, 10 ** 9))))) + ctx.int('d', -1, 1)
        if ctx.bool('negative'):
            v = -v
        if ctx.bool('eighth'):
            ctx.assume(v < 10 ** 9)
            v = v / 8.0
    else:
        v = ctx.text('v', 1)
        n = ctx.choice('n', tuple(sorted(set([12] + literals.ints(MODULES, 4, 70)))))
        tags = VAR if kind == 'var' else FIELD
        spec = [(tags[i % len(tags)], (0, 0, 1)[i % 3], 'phc'[i % 3]) for i in range(n)]
    w = World(ctx, spec, 1, names)
    i = ctx.choice('which', (0, 1))
    before = others(w, [(kind, i)])
    if i if what == 'name' else ctx.bool('by item'):
        w.container(kind)[w.names[i]] = v
    else:
        w.container(kind)[w.names[i]].value = v
    ctx.check(ctx.eq(others(w, [(kind, i)]), before), 'other variables, fields and text')
    verify(ctx, w, kind, i, v, t)
    for j in (0, 1):
        ctx.check(w.names[j] in w.container(kind), 'membership')
    ctx.check('never' not in w.container(kind), 'membership')
    if kind == 'field' or w.occurrences(kind, 1 - i):
        verify(ctx, w, kind, 1 - i, 'old', 'string')


STATES = (('string', 'old'), ('float', '1.5'), ('boolean', 'true'), ('boolean', 'false'), (None, 'old'), (None, None), ('string', None),
          ('date', '01.02.10'), ('percentage', '7'))


@case('C18', quick=[{'kind': k, 'new': n, 'footer': f} for k in ('var', 'field') for n in ('text', 'float', 'bool') for f in (False, True)])
def loaded(ctx, kind, new, footer):
    """declaration and occurrences of any type, occurrences in page footers"""
    tags = VAR if kind == 'var' else FIELD
    w = World(ctx, [(tags[0], 0, 'p'), (tags[1], 0, 'c'), (tags[0], 1, 'h'), (('text:user-field-get' if kind == 'var' else 'text:variable-get'), 0, 'h')],
              1, ['a', 'b'])
    styles = etree.Element(CN('office:master-styles'))
    w.root.insert(0, styles)
    if footer:
        e = styles
        for tag in ('style:master-page', 'style:footer', 'text:p', tags[-1]):
            e = etree.SubElement(e, CN(tag))
        e.set(NAME, 'a')
        e.text, e.tail = 'old', 'tail'
        w.occ.append((tags[-1], 0, e))
    decl = w.decls[kind][0]
    ours = [decl] + w.occurrences(kind, 0)
    for n, node in enumerate(ours):
        t, text = ctx.choice('state%d' % n, STATES) if n < 2 else STATES[n - 2]
        if t is None:
            node.attrib.pop(TYPE, None)
        else:
            node.set(TYPE, t)
        node.attrib.pop(CN('office:string-value'), None)
        if node is not decl:
            node.text = text
            if text is not None and n == 1 and ctx.bool('value%d' % n):
                node.set(CN('office:boolean-value' if t == 'boolean' else 'office:string-value' if t in (None, 'string') else 'office:value'), text)
        elif kind == 'field' and text is not None:
            node.set(CN('office:boolean-value' if t == 'boolean' else 'office:string-value' if t in (None, 'string') else 'office:value'), text)
    if new == 'text':
        v, t = ctx.text('v', 1), 'string'
    elif new == 'float':
        v, t = ctx.int('v', -1000, 1000) / 8.0, 'float'
    else:
        v, t = ctx.bool('v'), 'boolean'
    # reading changes nothing
    tree = snapshot(w.root)
    box = w.container(kind)
    for read in (lambda: 'a' in box, lambda: box['a'].value, lambda: box['a'].type, lambda: box['a'].name, lambda: len(list(box)),
                 lambda: [(i.value, i.type, i.name) for i in box['a'].instances]):
        attempt(read)
    ctx.check(ctx.eq(snapshot(w.root), tree), 'reading leaves the document as it was')
    before = others(w, [(kind, 0)])
    if footer:
        w.container(kind)['a'] = v
    else:
        w.container(kind)['a'].value = v
    ctx.check(ctx.eq(others(w, [(kind, 0)]), before), 'other variables, fields and text')
    verify(ctx, w, kind, 0, v, t)
