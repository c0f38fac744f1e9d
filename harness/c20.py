"""C20 Typed attributes and lists keep what is assigned within their limits."""
from symex.api import case
from harness.util import attempt
from harness.tabmodel import snapshot, table_node
from ezodf import (ezlist, List, ListItem, ListHeader, Heading, NumberedParagraph, Paragraph, Span, Hyperlink, Section, Table, Cell, Spaces)
from ezodf.table import TableColumn, TableRow
from ezodf.base import GenericWrapper
from ezodf.propertymixins import StringProperty, BooleanProperty, FloatProperty, IntegerProperty, IntegerWithLowerLimitProperty
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('integers in -10**7..10**7 (as int, bool, float in eighths and decimal string), free texts of 0..3 characters, visibility names of up '
          'to 8 characters, sequences of 2 assignments, new and reloaded objects; lists with up to 3 (thorough: 4) items and 2 header changes')
ASSUMPTIONS = ['texts contain XML characters only']


def again(obj):
    """the object as another program reads it"""
    return wrap(etree.XML(etree.tostring(obj.xmlnode)))


def number(ctx, sfx, small=False):
    """(value to assign, integer it denotes)"""
    big = 1000 if small else 10000000
    how = ctx.choice('how' + sfx, ('int', 'bool', 'float', 'str'))
    if how == 'int':
        n = ctx.int('n' + sfx, -big, big)
        return n, n
    if how == 'bool':
        b = ctx.bool('b' + sfx)
        return b, ctx.ite(b, 1, 0)
    if how == 'str':
        n = ctx.int('n' + sfx, -100, 100)
        return ctx.sxstr(n), n
    f = ctx.float('f' + sfx, -100, 100)
    return f, int(f)


LIMITED = {
    'Heading.outline_level': (lambda: Heading('x'), 'outline_level', 1, 'text:outline-level'),
    'NumberedParagraph.level': (lambda: NumberedParagraph(), 'level', 1, 'text:level'),
    'Heading.start_value': (lambda: Heading('x'), 'start_value', 1, 'text:start-value'),
    'NumberedParagraph.start_value': (lambda: NumberedParagraph(Paragraph('p')), 'start_value', 1, 'text:start-value'),
    'ListItem.start_value': (lambda: ListItem('i'), 'start_value', 1, 'text:start-value'),
    'Spaces.count': (lambda: Spaces(), 'count', 1, 'text:c'),
}


@case('C20', quick=[{'what': w} for w in sorted(LIMITED)])
def limited(ctx, what):
    make, name, low, attr = LIMITED[what]
    obj = make()
    before = [(k, v) for k, v in obj.xmlnode.attrib.items() if k != CN(attr)]
    expected = getattr(obj, name)
    ctx.check(expected == (None if name == 'start_value' else 1), 'value of a new object')
    for i in range(2):
        value, n = number(ctx, str(i))
        setattr(obj, name, value)
        expected = ctx.ite(n < low, low, n)
        ctx.check(ctx.eq(getattr(obj, name), expected), 'value last assigned, clamped')
    r = again(obj)
    ctx.check(type(r) is type(obj), 'class of the reloaded object')
    ctx.check(ctx.eq(getattr(r, name), expected), 'value of the reloaded object')
    ctx.check(ctx.eq([(k, v) for k, v in r.xmlnode.attrib.items() if k != CN(attr)], before), 'other attributes')
    if what == 'Spaces.count':
        ctx.check(ctx.eq(r.textlen, expected), 'length')
    # what is no number is rejected and changes nothing
    bad = ctx.text('bad', 1, ((0x3a, 0x7e),))
    v, exc = attempt(setattr, obj, name, bad)
    ctx.check(isinstance(exc, ValueError), 'a value that is no number is rejected')
    ctx.check(ctx.eq(getattr(obj, name), expected), 'a rejected value changes nothing')


@case('C20')
def constructed(ctx):
    """the constructors clamp like the attributes"""
    value, n = number(ctx, '')
    low = ctx.ite(n < 1, 1, n)
    ctx.check(ctx.eq(Heading('t', value).outline_level, low), 'outline level of a new heading')
    ctx.check(ctx.eq(Heading('t', outline_level=value).outline_level, low), 'outline level of a new heading')
    ctx.check(ctx.eq(Spaces(value).count, low), 'count of new spaces')


@case('C20')
def loaded_limits(ctx):
    """loaded values below the limit"""
    n = ctx.int('n', -100, 100)
    for cls, name, attr in ((Heading, 'outline_level', 'text:outline-level'), (NumberedParagraph, 'level', 'text:level')):
        e = etree.Element(cls.TAG)
        ctx.check(getattr(wrap(e), name) == 1, 'default')
        e.set(CN(attr), ctx.sxstr(n))
        ctx.check(ctx.eq(getattr(wrap(e), name), ctx.ite(n < 1, 1, n)), 'loaded value, clamped')
        delattr(wrap(e), name)
        ctx.check(getattr(wrap(e), name) == 1 and len(e.attrib) == 0, 'default after removal')


FLAGS = {
    'Heading.restart_numbering': (lambda: Heading('x'), 'restart_numbering', 'text:restart-numbering'),
    'Heading.suppress_numbering': (lambda: Heading('x'), 'suppress_numbering', 'text:is-list-header'),
    'List.continue_numbering': (lambda: ezlist(['a']), 'continue_numbering', 'text:continue-numbering'),
    'Table.print_': (lambda: Table('t', size=(1, 1)), 'print_', 'table:print'),
    'Cell.protected': (lambda: Cell('x'), 'protected', 'table:protect'),
    'Section.protected': (lambda: Section('x', 'y'), 'protected', 'text:protected'),
    'Table.protected': (lambda: Table('t', size=(1, 1)), 'protected', 'table:protected'),
}

KEYS = {'Section.protected': 'text:protection-key', 'Table.protected': 'table:protection-key'}


@case('C20', quick=[{'what': w} for w in sorted(FLAGS)])
def flags(ctx, what):
    make, name, attr = FLAGS[what]
    obj = make()
    keyname = CN(KEYS.get(what, 'text:none'))
    before = [(k, v) for k, v in obj.xmlnode.attrib.items() if k != CN(attr)]
    ctx.check(getattr(obj, name) is False, 'value of a new object')
    for i in range(2):
        how = ctx.choice('how%d' % i, ('bool', 'int', 'text', 'none'))
        value = ctx.bool('b%d' % i) if how == 'bool' else ctx.int('n%d' % i, -2, 2) if how == 'int' else \
            ctx.text('t%d' % i, 1) if how == 'text' else None
        truth = bool(value)
        setattr(obj, name, value)
        ctx.check(getattr(obj, name) is truth, 'flag last assigned')
        ctx.check(obj.xmlnode.get(CN(attr)) == ('true' if truth else 'false'), 'notation of the flag')
        if truth and keyname != CN('text:none'):
            key = obj.get_attr(keyname)
            ctx.check(key is not None and len(key) > 0 and all([c.isalnum() for c in key]), 'protecting sets a key')
    r = again(obj)
    ctx.check(getattr(r, name) is truth, 'flag of the reloaded object')
    ctx.check(ctx.eq([(k, v) for k, v in r.xmlnode.attrib.items() if k != CN(attr) and k != keyname], before), 'other attributes')


@case('C20', quick=[{'what': w} for w in sorted(FLAGS)])
def loaded_flags(ctx, what):
    text = ctx.text('t', 5)
    make, name, attr = FLAGS[what]
    keyname = KEYS.get(what)
    obj = make()
    obj.xmlnode.set(CN(attr), text)
    if keyname and ctx.bool('key'):
        obj.xmlnode.set(CN(keyname), 'old')
    got = getattr(obj, name)
    ctx.check(ctx.eq(got, ctx.eq(text, 'true')), 'loaded flag')
    # assigning to a loaded object
    value = ctx.bool('assigned')
    setattr(obj, name, value)
    ctx.check(getattr(obj, name) is value, 'flag assigned to a loaded object')
    ctx.check(obj.xmlnode.get(CN(attr)) == ('true' if value else 'false'), 'notation of the flag')
    if value and keyname:
        ctx.check(len(obj.get_attr(CN(keyname)) or '') > 0, 'protecting sets a key')


STRINGS = {
    'Span.style_name': (lambda: Span('x'), 'style_name', 'text:style-name'),
    'Paragraph.style_name': (lambda: Paragraph('x', 'old'), 'style_name', 'text:style-name'),
    'Paragraph.cond_style_name': (lambda: Paragraph('x'), 'cond_style_name', 'text:cond-style-name'),
    'Paragraph.ID': (lambda: Paragraph('x'), 'ID', 'text:id'),
    'Heading.style_name': (lambda: Heading('x'), 'style_name', 'text:style-name'),
    'Hyperlink.style_name': (lambda: Hyperlink('h', 'x'), 'style_name', 'text:style-name'),
    'Hyperlink.name': (lambda: Hyperlink('h', 'x'), 'name', 'office:name'),
    'Hyperlink.href': (lambda: Hyperlink('h', 'x'), 'href', 'xlink:href'),
    'List.style_name': (lambda: ezlist(['a']), 'style_name', 'text:style-name'),
    'Section.style_name': (lambda: Section('n'), 'style_name', 'text:style-name'),
    'Section.name': (lambda: Section('n', 's'), 'name', 'text:name'),
    'Table.style_name': (lambda: Table('t', size=(1, 1)), 'style_name', 'table:style-name'),
    'TableColumn.style_name': (lambda: TableColumn(), 'style_name', 'table:style-name'),
    'TableColumn.default_cell_style_name': (lambda: TableColumn(), 'default_cell_style_name', 'table:default-cell-style-name'),
    'TableRow.style_name': (lambda: TableRow(2), 'style_name', 'table:style-name'),
    'TableRow.default_cell_style_name': (lambda: TableRow(2), 'default_cell_style_name', 'table:default-cell-style-name'),
    'Cell.style_name': (lambda: Cell(1), 'style_name', 'table:style-name'),
    'Cell.formula': (lambda: Cell(1), 'formula', 'table:formula'),
    'Cell.content_validation_name': (lambda: Cell(1), 'content_validation_name', 'table:content-validation-name'),
}


@case('C20', quick=[{'what': w} for w in sorted(STRINGS)])
def strings(ctx, what):
    make, name, attr = STRINGS[what]
    obj = make()
    before = [(k, v) for k, v in obj.xmlnode.attrib.items() if k != CN(attr)]
    kids = [snapshot(e) for e in obj.xmlnode]
    for i in range(2):
        value = ctx.text('v%d' % i, 3)
        setattr(obj, name, value)
        ctx.check(ctx.eq(getattr(obj, name), value), 'text last assigned')
    r = again(obj)
    ctx.check(ctx.eq(r.xmlnode.get(CN(attr)), value), 'attribute')
    ctx.check(ctx.eq(getattr(r, name), value), 'text of the reloaded object')
    ctx.check(ctx.eq([(k, v) for k, v in r.xmlnode.attrib.items() if k != CN(attr)], before), 'other attributes')
    ctx.check(ctx.eq([snapshot(e) for e in obj.xmlnode], kids), 'content')
    delattr(obj, name)
    ctx.check(getattr(obj, name) is None, 'removed')


@case('C20')
def constructor_strings(ctx):
    """style names, names and links given to constructors"""
    a, b = ctx.text('a', 2), ctx.text('b', 2)

    def same(got, want):
        ctx.check(got is None or ctx.eq(got, '') if len(want) == 0 else ctx.eq(got, want), 'attribute of a new object')
    same(Span('x', a).style_name, a)
    same(Paragraph('x', style_name=a).style_name, a)
    same(Heading('x', 2, a).style_name, a)
    same(List(a).style_name, a)
    s = Section(b, a)
    same(s.style_name, a)
    same(s.name, b)
    h = Hyperlink(b, 'x', a)
    same(h.style_name, a)
    same(h.href, b)
    same(Cell(1, style_name=a).style_name, a)
    same(ezlist(['i'], style_name=a).style_name, a)
    same(ezlist([], '', a).style_name, a)


@case('C20')
def links(ctx):
    h = Hyperlink(ctx.text('href', 2), 'text')
    ctx.check(h.target_frame == '_blank', 'target of a new link')
    for i in range(2):
        frame = ctx.text('f%d' % i, 7, ((0x5f, 0x7a),), 1) if i == 0 else ctx.choice('f1', ('_self', '_blank', '_parent', '_top', 'main'))
        h.target_frame = frame
        ctx.check(ctx.eq(h.target_frame, frame), 'target frame')
        ctx.check(h.get_attr(CN('xlink:show')) == ('new' if frame == '_blank' else 'replace'), 'show')
    href = ctx.text('href2', 2)
    h.href = href
    ctx.check(ctx.eq(again(h).href, href) and h.target_frame == frame and h.plaintext() == 'text', 'link target')


LETTERS = ((0x41, 0x7a),)


@case('C20', quick=[{'how': h} for h in ('column', 'row', 'row of a table', 'column of a table')])
def visibility(ctx, how):
    table = None
    if how == 'column':
        obj = TableColumn()
    elif how == 'row':
        obj = TableRow(1)
    else:
        table = Table(xmlnode=table_node(2, 2))
        i = ctx.choice('i', (0, 1))
        obj = table.row_info(i) if how == 'row of a table' else table.column_info(i)
    ctx.check(obj.visibility == 'visible', 'default')
    first = ctx.choice('first', ('none', 'visible', 'collapse', 'filter'))
    if first != 'none':
        obj.visibility = first
    old = 'visible' if first == 'none' else first
    value = ctx.text('value', 8, LETTERS)
    v, exc = attempt(setattr, obj, 'visibility', value)
    if value == 'visible' or value == 'collapse' or value == 'filter':
        if exc is not None:
            raise exc
        old = value
        ctx.reach('valid')
    else:
        ctx.check(isinstance(exc, ValueError), 'values outside the documented set are rejected')
        ctx.reach('invalid')
    ctx.check(ctx.eq(obj.visibility, old), 'visibility last assigned')
    ctx.check(ctx.eq(again(obj).visibility, old), 'visibility of the reloaded object')
    if table is not None:
        for k in (0, 1):
            ctx.check(ctx.eq((table.row_info(k) if how[0] == 'r' else table.column_info(k)).visibility, old if k == i else 'visible'),
                      'visibility in the table')


@case('C20')
def other_visibility(ctx):
    """neither None nor numbers nor upper case"""
    obj = TableColumn()
    value = ctx.choice('value', (None, 0, 1, True, 'Visible', 'visible ', '', 'collapsed', 'filtered', b'visible'))
    v, exc = attempt(setattr, obj, 'visibility', value)
    ctx.check(isinstance(exc, ValueError) and len(obj.xmlnode.attrib) == 0, 'values outside the documented set are rejected')


@case('C20')
def numbers(ctx):
    """formatted numbers"""
    make = {'Heading': lambda: Heading('h'), 'ListItem': lambda: ListItem('i'), 'NumberedParagraph': lambda: NumberedParagraph(Paragraph('p'))}
    obj = make[ctx.choice('class', sorted(make))]()
    ctx.check(obj.formatted_number is None, 'default')
    text = ctx.text('t0', 2)
    obj.formatted_number = text
    text = ctx.text('t1', 2, None, 1)
    obj.formatted_number = text
    ctx.check(ctx.eq(obj.formatted_number, text) and ctx.eq(again(obj).formatted_number, text), 'formatted number')
    ctx.check(len(obj.xmlnode.findall(CN('text:number'))) == 1, 'one number')
    n = ctx.int('n', -3, 12)
    obj.formatted_number = n
    ctx.check(ctx.eq(obj.formatted_number, ctx.sxstr(n)), 'formatted number')


def check_loaded(ctx, lst, header):
    ctx.check(lst.header.xmlnode is header.xmlnode, 'header of a loaded list')


def check_list(ctx, lst, header, items, texts):
    """header: (object, text) or None; items: nodes; texts: plain texts"""
    nodes = list(lst.xmlnode)
    heads = [n for n in nodes if n.tag == CN('text:list-header')]
    ctx.check(len(heads) == (0 if header is None else 1), 'single header')
    got = lst.header
    if header is None:
        ctx.check(got is None, 'no header')
    else:
        ctx.check(nodes[0] is header.xmlnode and got.xmlnode is header.xmlnode and got.kind == 'ListHeader', 'header is first')
    found = [i for i in lst.iteritems()]
    ctx.check(len(found) == len(items), 'number of items')
    for f, i, t in zip(found, items, texts):
        ctx.check(f.xmlnode is i, 'items in order')
        ctx.check(f.kind == 'ListItem' and ctx.eq(f.plaintext(), t), 'text of an item')
    ctx.check(len(nodes) == len(items) + len(heads), 'nothing else in the list')


@case('C20', quick=[{'n': 0}, {'n': 2}], thorough=[{'n': 0}, {'n': 2}, {'n': 3}])
def headers(ctx, n):
    lst = List('s') if ctx.bool('styled') else List()
    items, texts = [], []
    for i in range(n):
        t = ctx.text('i%d' % i, 1) if i == 0 else 'second'
        item = ListItem(t)
        if i == 1:
            # a list in a list item has its own items and header
            inner = ezlist(['inner'], 'inner header')
            item.append(inner)
            item.append(Paragraph('after'))
            t = item.plaintext()
        if ctx.bool('insert%d' % i):
            lst.insert(0, item)
            items.insert(0, item.xmlnode)
            texts.insert(0, t)
        else:
            lst.append(item)
            items.append(item.xmlnode)
            texts.append(t)
    header = None
    if ctx.bool('late header'):
        # a loaded list whose header is not at its place
        header = ListHeader('late')
        lst.append(header)
        check_loaded(ctx, lst, header)
        t = ctx.text('h', 1)
        header = ListHeader(t)
        lst.header = header
    other = ezlist(['o'], 'other')
    for k in range(2):
        what = ctx.choice('header%d' % k, ('new', 'same', 'foreign', 'wrong', 'item', 'more'))
        if what == 'new':
            t = ctx.text('h%d' % k, 1)
            header = ListHeader(t)
            lst.header = header
            ctx.check(ctx.eq(lst.header.plaintext(), t), 'text of the header')
        elif what == 'same' and header is not None:
            lst.header = lst.header
        elif what == 'foreign' and other.header is not None:
            header = other.header
            lst.header = header
            ctx.check(lst.header.plaintext() == 'other', 'text of the header')
            ctx.check(other.header is None, 'header taken from another list')
        elif what == 'wrong':
            v, exc = attempt(setattr, lst, 'header', Paragraph('x'))
            ctx.check(isinstance(exc, TypeError), 'only list headers are headers')
        elif what == 'item':
            v, exc = attempt(setattr, lst, 'header', ListItem('x'))
            ctx.check(isinstance(exc, TypeError), 'an item is no header')
        elif what == 'more':
            item = ListItem('more')
            lst.append(item)
            items.append(item.xmlnode)
            texts.append('more')
        check_list(ctx, lst, header, items, texts)


@case('C20', quick=[{'n': n} for n in (0, 1, 2, 3)], thorough=[{'n': n} for n in (0, 1, 2, 3, 4)])
def ezlists(ctx, n):
    texts = [ctx.text('i%d' % i, 2 if n < 2 else 1) for i in range(n)]
    head = ctx.text('head', 2 if n < 2 else 1)
    how = ctx.choice('how', ('list', 'generator', 'tuple'))
    src = texts if how == 'list' else tuple(texts) if how == 'tuple' else (t for t in texts)
    lst = ezlist(src, head, 'style') if ctx.bool('style') else ezlist(src, header=head)
    header = lst.header
    ctx.check((header is None) == (len(head) == 0), 'header if given')
    if header is not None:
        ctx.check(ctx.eq(header.plaintext(), head), 'text of the header')
    nodes = lst.xmlnode.findall(CN('text:list-item'))
    check_list(ctx, lst, header, nodes, texts)
    r = again(lst)
    ctx.check(ctx.eq([i.plaintext() for i in r.iteritems()], texts), 'items of the reloaded list')
    ctx.check(r.header is None if header is None else ctx.eq(r.header.plaintext(), head), 'header of the reloaded list')


@case('C20')
def content(ctx):
    """the paragraph or heading of a numbered paragraph"""
    t = ctx.text('t', 2)
    how = ctx.choice('how', ('none', 'p', 'h', 'no'))
    if how == 'no':
        ctx.check(isinstance(attempt(NumberedParagraph, 'text')[1], TypeError), 'only elements')
        return
    p = NumberedParagraph(None if how == 'none' else Paragraph(t) if how == 'p' else Heading(t, 2))
    c = p.content
    ctx.check(c.kind == ('Heading' if how == 'h' else 'Paragraph'), 'kind of the content')
    ctx.check(c.plaintext() == '' if how == 'none' else ctx.eq(c.plaintext(), t), 'content')
    ctx.check(len(p.xmlnode) == 1 and p.content.xmlnode is c.xmlnode, 'one content')


class Typed(GenericWrapper):
    """one property of every kind, as an application declares them for its own elements"""
    TAG = '{urn:x-verif}typed'
    text = StringProperty('{urn:x-verif}text', 'a text')
    flag = BooleanProperty('{urn:x-verif}flag')
    real = FloatProperty('{urn:x-verif}real')
    whole = IntegerProperty('{urn:x-verif}whole')
    zero = IntegerWithLowerLimitProperty('{urn:x-verif}zero')
    low = IntegerWithLowerLimitProperty('{urn:x-verif}low', 7)
    below = IntegerWithLowerLimitProperty('{urn:x-verif}below', -3)


KINDS = ('text', 'flag', 'real', 'real of whole', 'whole', 'zero', 'low', 'below')
DEFAULTS = {'text': None, 'flag': False, 'real': None, 'whole': None, 'zero': 0, 'low': 7, 'below': -3}


def assigned(ctx, kind, sfx):
    """(name, value to assign, value to read)"""
    if kind == 'text':
        t = ctx.text('t' + sfx, 2)
        return kind, t, t
    if kind == 'flag':
        b = ctx.bool('b' + sfx)
        return kind, b, b
    if kind == 'real':
        f = ctx.float('f' + sfx)
        return kind, f, f
    n = ctx.int('n' + sfx, -10 ** 7, 10 ** 7)
    if kind == 'real of whole':
        return 'real', n, n
    if kind == 'whole':
        return kind, n, n
    return kind, n, ctx.ite(n < DEFAULTS[kind], DEFAULTS[kind], n)


@case('C20', quick=[{'kind': k} for k in KINDS])
def factories(ctx, kind):
    """the kinds of properties an application can declare"""
    obj = Typed()
    for k, d in DEFAULTS.items():
        ctx.check(getattr(obj, k) == d and type(getattr(obj, k)) is type(d), 'value without attribute')
    other = ctx.choice('other', KINDS)
    oname, value, ovalue = assigned(ctx, other, 'o')
    setattr(obj, oname, value)
    for i in range(2):
        name, value, want = assigned(ctx, kind, str(i))
        setattr(obj, name, value)
        ctx.check(ctx.eq(getattr(obj, name), want), 'value last assigned')
    for o in (obj, Typed(xmlnode=etree.XML(etree.tostring(obj.xmlnode)))):
        got = getattr(o, name)
        ctx.check(ctx.eq(got, want), 'value last assigned')
        if name == 'real':
            ctx.check(isinstance(got, float), 'type of the value')
        if oname != name:
            ctx.check(ctx.eq(getattr(o, oname), ovalue), 'the other property')
        ctx.check(len(o.xmlnode.attrib) == (1 if oname == name else 2), 'attributes')
        delattr(o, name)
        d = DEFAULTS[name]
        ctx.check(getattr(o, name) == d and type(getattr(o, name)) is type(d), 'value after removal')
        ctx.check(len(o.xmlnode.attrib) == (0 if oname == name else 1), 'attribute removed')
        if oname != name:
            ctx.check(ctx.eq(getattr(o, oname), ovalue), 'the other property')
        ctx.check(isinstance(attempt(delattr, o, name)[1], KeyError), 'nothing left to remove')
    for k in DEFAULTS:
        if k != oname:
            ctx.check(getattr(obj, k) == DEFAULTS[k], 'property never set')


@case('C20')
def loaded_factories(ctx):
    """attributes read from a file"""
    n = ctx.int('n', -10 ** 6, 10 ** 6)
    e = etree.Element(Typed.TAG)
    for a in ('real', 'whole', 'zero', 'low', 'below'):
        e.set('{urn:x-verif}' + a, ctx.sxstr(n))
    obj = Typed(xmlnode=e)
    ctx.check(ctx.all([ctx.eq(obj.real, n), ctx.eq(obj.whole, n)]), 'loaded number')
    for a in ('zero', 'low', 'below'):
        ctx.check(ctx.eq(getattr(obj, a), ctx.ite(n < DEFAULTS[a], DEFAULTS[a], n)), 'loaded number, clamped')
    t = ctx.text('t', 5)
    e.set('{urn:x-verif}flag', t)
    ctx.check(ctx.eq(obj.flag, ctx.eq(t, 'true')), 'loaded flag')


@case('C20', quick=[{'what': w} for w in sorted(FLAGS) if w not in KEYS])
def removed_flags(ctx, what):
    """a flag that is removed again"""
    make, name, attr = FLAGS[what]
    obj = make()
    before = sorted(obj.xmlnode.attrib.items())
    setattr(obj, name, ctx.bool('b'))
    delattr(obj, name)
    ctx.check(getattr(obj, name) is False and sorted(obj.xmlnode.attrib.items()) == before, 'flag removed')
