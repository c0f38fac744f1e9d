"""C27 The text shown in a cell is edited without touching its value."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from harness.tabmodel import snapshot
from ezodf import Cell, Paragraph, Heading, Table
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('cells of every value type (and none), new, loaded, covered, or in a table, with every arrangement of 0..2 (thorough: 3) children '
          '(paragraph, heading, annotation, frame, paragraph with spans), every pair (thorough: also triple) of the operations set display form, append text '
          '(plain, styled), with free texts of up to 2 and 1 characters (any XML character) and styles'
          '; plus texts equal to or next to the text constants the code itself mentions and texts of up to 400 characters')
ASSUMPTIONS = ['texts contain XML characters only']
MODULES = ('ezodf.cells', 'ezodf.text', 'ezodf.base')

TYPES = {'float': ('value', '7.25'), 'percentage': ('value', '0.5'), 'currency': ('value', '3'), 'date': ('date-value', '2011-01-01'),
         'time': ('time-value', 'PT01H00M00S'), 'boolean': ('boolean-value', 'true'), 'string': (None, None), None: (None, None)}
VALUES = {'float': 7.25, 'percentage': 0.5, 'currency': 3.0, 'date': '2011-01-01', 'time': 'PT01H00M00S', 'boolean': True, None: None}
CHILDREN = ('p', 'h', 'note', 'spans')
TEXTS = {'p': 'par', 'h': 'head', 'spans': 'onetwo  three'}


def child(parent, kind, n):
    """appends a child; returns the text line it stands for, or None"""
    if kind == 'p':
        e = etree.SubElement(parent, CN('text:p'))
        e.set(CN('text:style-name'), 'P%d' % n)
        e.text = 'par%d' % n
        return e.text
    if kind == 'h':
        e = etree.SubElement(parent, CN('text:h'))
        e.set(CN('text:outline-level'), '2')
        e.text = 'head%d' % n
        return e.text
    if kind == 'spans':
        e = etree.SubElement(parent, CN('text:p'))
        e.text = 'one'
        s = etree.SubElement(e, CN('text:span'))
        s.text = 'two '
        s = etree.SubElement(e, CN('text:s'))
        s.tail = 'three'
        return 'onetwo  three'
    e = etree.SubElement(parent, CN('office:annotation' if kind == 'note' else 'draw:frame'))
    x = etree.SubElement(e, CN('text:p'))
    x.text = 'inside'
    return None


def make(ctx, vtype, kinds, where='plain'):
    """(cell, [(node, line)]) with unrelated attributes"""
    e = etree.Element(CN('table:covered-table-cell' if where == 'covered' else 'table:table-cell'))
    if vtype is not None:
        e.set(CN('office:value-type'), vtype)
        attr, value = TYPES[vtype]
        if attr is not None:
            e.set(CN('office:' + attr), value)
        if vtype == 'currency':
            e.set(CN('office:currency'), 'CHF')
    e.set(CN('table:style-name'), 'ce1')
    e.set(CN('table:formula'), 'of:=1')
    if where != 'covered':
        e.set(CN('table:number-columns-spanned'), '2')
    lines = [child(e, k, i) for i, k in enumerate(kinds)]
    if where == 'table':
        t = Table('T', size=(2, 2))
        t[0, 1] = wrap(e)
        cell = t[0, 1]
        e = cell.xmlnode
    else:
        cell = wrap(e)
    return cell, [(n, line) for n, line in zip(e, lines)]


class Model(object):
    """children as ['text', node, text, style] or ['other', node]"""

    def __init__(self, ctx, cell, vtype, children):
        self.ctx, self.cell, self.vtype = ctx, cell, vtype
        self.items = [[n, line, n.get(CN('text:style-name')) if line is not None else None] for n, line in children]
        self.attrs = sorted(cell.xmlnode.attrib.items())
        self.kept = dict((id(n), snapshot(n)) for n, _ in children)
        self.tag = cell.xmlnode.tag
        self.value = VALUES.get(vtype)
        self.currency = 'CHF' if vtype == 'currency' else None

    def lines(self):
        return [line for n, line, s in self.items if line is not None]

    def text(self):
        out = ''
        for i, line in enumerate(self.lines()):
            out = out + '\n' + line if i else line
        return out

    def verify(self, when):
        ctx, cell = self.ctx, self.cell
        text = self.text()
        ctx.check(ctx.eq(cell.plaintext(), text), 'plaintext ' + when)
        ctx.check(ctx.eq(cell.display_form, text), 'display form ' + when)
        ctx.check(cell.value_type == self.vtype, 'value type ' + when)
        ctx.check(ctx.eq(cell.value, text if self.vtype == 'string' else self.value), 'value ' + when)
        ctx.check(ctx.eq(cell.currency, self.currency), 'currency ' + when)
        ctx.check(cell.xmlnode.tag == self.tag, 'kind of cell ' + when)
        ctx.check(ctx.eq(sorted(cell.xmlnode.attrib.items()), self.attrs), 'attributes ' + when)
        nodes = list(cell.xmlnode)
        ctx.check(len(nodes) == len(self.items), 'number of children ' + when)
        for node, item in zip(nodes, self.items):
            if item[0] is None:
                item[0] = node
                ctx.check(node.tag == CN('text:p'), 'a new text is a paragraph ' + when)
                ctx.check(ctx.eq(wrap(node).plaintext(), item[1]), 'text of a new paragraph ' + when)
            ctx.check(node is item[0], 'children stay the same objects ' + when)
            if item[1] is not None:
                ctx.check(ctx.eq(node.get(CN('text:style-name')), item[2]), 'style of a text ' + when)
            if id(node) in self.kept:
                ctx.check(ctx.eq(snapshot(node), self.kept[id(node)]), 'untouched child ' + when)

    def display(self, text):
        for item in self.items:
            if item[0] is not None and item[0].tag == CN('text:p'):
                item[:] = [None, text, None]
                return
        self.items.append([None, text, None])

    def append(self, text, style):
        if self.items and self.items[-1][1] is not None:
            last = self.items[-1]
            last[1] = last[1] + text
            self.kept.pop(id(last[0]), None)
        else:
            self.items.append([None, text, style])


OPS = ('display', 'append', 'styled')


def step(ctx, m, op, sfx, text=None):
    cell = m.cell
    if text is None:
        text = ctx.text('t' + sfx, 1)
    if op == 'display':
        v, exc = attempt(setattr, cell, 'display_form', text)
        if m.vtype is None or m.vtype == 'string':
            ctx.check(isinstance(exc, TypeError), 'no display form for empty and text cells')
        else:
            if exc is not None:
                raise exc
            m.display(text)
    elif op in ('append', 'styled'):
        style = ctx.text('style' + sfx, 1, None, 1) if op == 'styled' else None
        spans = len(cell.xmlnode[-1]) if len(cell.xmlnode) else 0
        v, exc = attempt(cell.append_text, text, style) if op == 'styled' else attempt(cell.append_text, text)
        if m.vtype != 'string':
            ctx.check(isinstance(exc, TypeError), 'text is only appended to text cells')
        else:
            if exc is not None:
                raise exc
            extends = bool(m.items) and m.items[-1][1] is not None
            m.append(text, style)
            if extends and style is not None:
                last = cell.xmlnode[-1]
                ctx.check(len(last) > spans and ctx.eq(last[-1].get(CN('text:style-name')), style), 'style of the appended text')
                ctx.check(len(last) > spans and ctx.eq(wrap(last[-1]).plaintext(), text), 'the appended text carries the style')
    m.verify('after %s' % op)


def arrangements(n):
    out = [()]
    for k in range(n):
        out += [a + (c,) for a in out if len(a) == k for c in CHILDREN]
    return out


ALL = ('float', 'percentage', 'currency', 'date', 'time', 'boolean', 'string', None)


@case('C27', quick=[{'vtype': t, 'n': 1, 'lens': (2, 1)} for t in ALL] + [{'vtype': t, 'n': 2, 'lens': (1, 1)} for t in ('currency', 'date', 'string', None)],
      thorough=[{'vtype': t, 'n': 2, 'lens': (2, 1)} for t in ALL] + [{'vtype': t, 'n': 1, 'lens': (1, 1, 1)} for t in ('float', 'string')]
      + [{'vtype': t, 'n': 3, 'lens': (1,)} for t in ('time', 'string')])
def edits(ctx, vtype, n, lens):
    kinds = ctx.choice('children', tuple(arrangements(n)))
    cell, children = make(ctx, vtype, kinds)
    m = Model(ctx, cell, vtype, children)
    m.verify('of a loaded cell')
    for i, k in enumerate(lens):
        step(ctx, m, ctx.choice('op%d' % i, OPS), str(i), ctx.text('t%d' % i, k))


@case('C27', quick=[{'where': w} for w in ('covered', 'table')])
def places(ctx, where):
    vtype = ctx.choice('type', ('currency', 'date', 'string', None))
    cell, children = make(ctx, vtype, ctx.choice('children', ((), ('p', 'note'), ('note', 'p'), ('h', 'p', 'p'))), where)
    m = Model(ctx, cell, vtype, children)
    for i in range(2):
        step(ctx, m, ctx.choice('op%d' % i, OPS), str(i))


@case('C27')
def new_cells(ctx):
    """cells made by the constructor; a later value replaces every text"""
    vtype = ctx.choice('type', ('float', 'percentage', 'currency', 'date', 'time', 'boolean', 'string'))
    if vtype == 'string':
        value = ctx.text('value', 2)
        cell = Cell(value)
        shown = [value]
    elif vtype in ('date', 'time'):
        value = ctx.text('value', 2, None, 1)
        cell = Cell(value, vtype)
    elif vtype == 'boolean':
        value = ctx.bool('value')
        cell = Cell(value)
    else:
        value = ctx.int('value', -2 ** 53, 2 ** 53)
        cell = Cell(value, vtype, 'EUR' if vtype == 'currency' else None)
    m = Model(ctx, cell, vtype, [])
    m.value = value
    m.currency = 'EUR' if vtype == 'currency' else None
    if vtype == 'string':
        m.items = [[None, value, None]]
    m.verify('of a new cell')
    for i in range(2):
        step(ctx, m, ctx.choice('op%d' % i, OPS), str(i))
    cell.set_value(5)
    ctx.check(cell.value == 5.0 and cell.value_type == 'float', 'a later value')
    ctx.check(cell.plaintext() == '' and len(cell.xmlnode) == 0, 'a later value replaces every text')
    cell.set_value('new')
    ctx.check(cell.value == 'new' and cell.value_type == 'string' and len(cell.xmlnode) == 1, 'a later text replaces the value')


@case('C27')
def typed_empty(ctx):
    """a cell that only has a type"""
    vtype = ctx.choice('type', ('float', 'currency', 'date', 'string'))
    cell = Cell(value_type=vtype)
    m = Model(ctx, cell, vtype, [])
    m.value, m.currency = None, None
    m.verify('of a cell without value')
    for i in range(2):
        step(ctx, m, ctx.choice('op%d' % i, OPS), str(i))


@case('C27')
def special(ctx):
    """texts the code itself mentions, and long ones"""
    vtype = ctx.choice('type', ('float', 'string'))
    cell, children = make(ctx, vtype, ctx.choice('children', ((), ('p',), ('p', 'note'))))
    m = Model(ctx, cell, vtype, children)
    if ctx.bool('long'):
        t = long_text(ctx.choice('length', (40, 64, 255, 256, 400)))
    else:
        t = special_text(ctx, 't', MODULES, ('', ' ', '  ', '\t', '\n', '\nLine 2', 'a \n b'), 24)
    step(ctx, m, ctx.choice('op', ('display', 'append', 'styled')), '', t)


@case('C27')
def chains(ctx):
    """many appended texts make up one value"""
    cell = Cell(ctx.text('first', 1))
    text = cell.value
    for i in range(ctx.choice('n', (3, 5, 17, 40))):
        t = ctx.text('t%d' % i, 1) if i < 2 else (' ', 'x', '\n', 'ab  c')[i % 4]
        cell.append_text(t)
        text = text + t
        ctx.check(ctx.eq(cell.value, text), 'everything appended')
    ctx.check(len(cell.xmlnode) == 1, 'one paragraph')
