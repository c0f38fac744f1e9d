"""C03 A cell returns the value, type and currency last set, and nothing else."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from ezodf import Cell, Paragraph, Heading, Span, Table
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('texts of up to 2 characters (any XML character; for rejections any character), integers within +-2^53, '
          'floats n/8 with |n/8| <= 10^6 (as exact reals), booleans, every value type; every kind of previous content '
          '(12 kinds, new or loaded) and every ordered pair of assignments'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['numeric types are given numbers, the boolean type a boolean, date and time types a text',
               'floats are modelled as exact reals, so rounding, inf and nan are outside']

ANY = ((0, 0xD7FF), (0xE010, 0x10FFFF))
BAD = ((0, 8), (11, 12), (14, 31))
VALUE_ATTRS = [CN('office:string-value'), CN('office:value'), CN('office:date-value'), CN('office:time-value'),
               CN('office:boolean-value'), CN('office:currency'), CN('office:value-type')]
ATTR = {'float': CN('office:value'), 'percentage': CN('office:value'), 'currency': CN('office:value'),
        'date': CN('office:date-value'), 'time': CN('office:time-value'), 'boolean': CN('office:boolean-value')}
KEEP = {CN('table:formula'): 'of:=1+1', CN('table:style-name'): 'ce1', CN('table:protect'): 'true',
        CN('table:number-columns-spanned'): '2', CN('table:number-rows-spanned'): '3',
        CN('table:content-validation-name'): 'v', '{urn:x-other}id': 'id7'}


def loaded(attrs, paragraphs=(), tag='table:table-cell'):
    e = etree.Element(CN(tag))
    for k, v in attrs.items():
        e.set(CN(k), v)
    for p in paragraphs:
        x = etree.SubElement(e, CN('text:p'))
        x.text = p
    return wrap(e)


PREVIOUS = ('empty', 'string', 'stringattr', 'float', 'display', 'percentage', 'currency', 'loadedcurrency', 'date',
            'time', 'boolean', 'typeonly', 'covered', 'lines', 'objects')


def previous(ctx, kind):
    if kind == 'empty':
        return Cell()
    if kind == 'string':
        return Cell('old text')
    if kind == 'stringattr':
        return loaded({'office:value-type': 'string', 'office:string-value': 'old'}, ['shown', 'more'])
    if kind == 'float':
        return Cell(1.5)
    if kind == 'display':
        return loaded({'office:value-type': 'float', 'office:value': '7'}, ['7.00'])
    if kind == 'percentage':
        return Cell(0.5, 'percentage')
    if kind == 'currency':
        return Cell(99, currency='USD')
    if kind == 'loadedcurrency':
        return loaded({'office:value-type': 'currency', 'office:value': '3', 'office:currency': 'CHF'}, ['3 Fr'])
    if kind == 'date':
        return Cell('2011-01-01', 'date')
    if kind == 'time':
        return Cell('PT01H00M00S', 'time')
    if kind == 'boolean':
        return Cell(True)
    if kind == 'lines':
        t, attr, v = ctx.choice('lines type', (('float', 'value', '7'), ('date', 'date-value', '2010-10-10'), ('boolean', 'boolean-value', 'true')))
        return loaded({'office:value-type': t, 'office:' + attr: v}, ['7.0', 'second', 'third'])
    if kind == 'objects':
        c = loaded({'office:value-type': 'percentage', 'office:value': '7'}, ['700%'])
        for tag in ('office:annotation', 'text:h', 'draw:frame', 'table:table'):
            etree.SubElement(c.xmlnode, CN(tag)).text = 'inside'
        return c
    if kind == 'typeonly':
        return Cell(None, 'float')
    return loaded({'office:value-type': 'float', 'office:value': '7'}, ['7'], 'table:covered-table-cell')


NEW = ('text', 'textstr', 'int', 'float', 'bool', 'intfloat', 'floatpct', 'intpct', 'cur', 'floatcur', 'curnocode',
       'date', 'time', 'booltyped', 'para', 'head', 'curoverride', 'paratyped')


def new_value(ctx, kind, sfx):
    """(args, kwargs, expected value, type, currency)"""
    if kind == 'text':
        t = ctx.text('text' + sfx, 2)
        return (t,), {}, t, 'string', None
    if kind == 'textstr':
        t = ctx.text('text' + sfx, 1)
        return (t, 'string'), {}, t, 'string', None
    if kind in ('para', 'head'):
        t = ctx.text('text' + sfx, 1)
        return ((Paragraph if kind == 'para' else Heading)(t),), {}, t, 'string', None
    if kind == 'paratyped':
        # a text object is a text, whatever type is asked for
        t = ctx.text('text' + sfx, 1)
        return (Paragraph(t), ctx.choice('as' + sfx, ('string', 'date', 'time', 'boolean', 'float'))), {}, t, 'string', None
    if kind in ('int', 'intfloat', 'intpct', 'cur', 'curnocode', 'curoverride'):
        n = ctx.int('n' + sfx, -2 ** 53, 2 ** 53)
        if kind == 'int':
            return (n,), {}, n, 'float', None
        if kind == 'intfloat':
            return (n, 'float'), {}, n, 'float', None
        if kind == 'intpct':
            return (n, 'percentage'), {}, n, 'percentage', None
        if kind == 'curnocode':
            return (n, 'currency'), {}, n, 'currency', None
        c = ctx.text('c' + sfx, 3, None, 1)
        if kind == 'curoverride':
            return (n, 'float', c), {}, n, 'currency', c
        return (n,), {'currency': c}, n, 'currency', c
    if kind in ('float', 'floatpct', 'floatcur'):
        f = ctx.float('f' + sfx)
        if kind == 'float':
            return (f,), {}, f, 'float', None
        if kind == 'floatpct':
            return (f, 'percentage'), {}, f, 'percentage', None
        return (f,), {'currency': 'EUR'}, f, 'currency', 'EUR'
    if kind in ('bool', 'booltyped'):
        b = ctx.bool('b' + sfx)
        return ((b,) if kind == 'bool' else (b, 'boolean')), {}, b, 'boolean', None
    t = ctx.text('text' + sfx, 2, None, 1)
    return (t, kind), {}, t, kind, None


def snapshot(cell):
    node = cell.xmlnode
    return [sorted(node.attrib.items()), [(c.tag, c.text, c.tail, len(c), sorted(c.attrib.items())) for c in node],
            node.text, node.tag]


def verify(ctx, cell, value, vtype, currency, extra):
    for c in (cell, wrap(cell.xmlnode)):
        got = c.value
        if vtype in ('float', 'percentage', 'currency'):
            ctx.check(isinstance(got, float), 'numbers come back as float')
            ctx.check(got == value, 'value after set_value')
        elif vtype == 'boolean':
            ctx.check(isinstance(got, bool), 'booleans come back as bool')
            ctx.check(got == value, 'value after set_value')
        else:
            ctx.check(isinstance(got, str), 'text comes back as text')
            ctx.check(got == value, 'value after set_value')
        ctx.check(c.value_type == vtype, 'value type after set_value')
        ctx.check(ctx.eq(c.currency, currency) if currency is not None else c.currency is None, 'currency after set_value')
    allowed = set([CN('office:value-type')])
    if vtype in ATTR:
        allowed.add(ATTR[vtype])
    else:
        allowed.add(CN('office:string-value'))
    if currency is not None:
        allowed.add(CN('office:currency'))
    for k in VALUE_ATTRS:
        if k in cell.xmlnode.attrib:
            ctx.check(k in allowed, 'attribute of a previous value survives')
    if vtype == 'string':
        ctx.check(cell.plaintext() == value, 'text content')
    else:
        ctx.check(len(cell.xmlnode) == 0, 'content of a previous value survives')
    for k, v in extra.items():
        ctx.check(cell.xmlnode.get(k) == v, 'unrelated attribute changed')
    for k in cell.xmlnode.attrib.keys():
        ctx.check(k in allowed or k in extra, 'unexpected attribute')


@case('C03', quick=[{'prev': p} for p in PREVIOUS])
def assign(ctx, prev):
    cell = previous(ctx, prev)
    extra = {}
    if ctx.choice('decorated', [False, True]):
        for k, v in KEEP.items():
            if prev == 'covered' and 'spanned' in k:
                continue
            cell.xmlnode.set(k, v)
            extra[k] = v
    kind = ctx.choice('new', NEW)
    args, kw, value, vtype, currency = new_value(ctx, kind, '')
    tag = cell.xmlnode.tag
    cell.set_value(*args, **kw)
    verify(ctx, cell, value, vtype, currency, extra)
    ctx.check(cell.xmlnode.tag == tag, 'cell kind changed')
    if extra:
        ctx.check(cell.formula == 'of:=1+1', 'formula')
        ctx.check(cell.style_name == 'ce1', 'style')
        ctx.check(cell.protected, 'protection')
        if prev != 'covered':
            ctx.check(cell.span == (3, 2), 'span')
    ctx.observe(cell.value, cell.value_type, cell.currency, cell.plaintext())


@case('C03', quick=[{'a': a, 'b': b} for a in NEW for b in ('text', 'int', 'float', 'bool', 'cur', 'date', 'time', 'curnocode', 'para', 'floatpct')],
      thorough=[{'a': a, 'b': b} for a in NEW for b in NEW])
def twice(ctx, a, b):
    cell = Cell()
    args, kw, value, vtype, currency = new_value(ctx, a, '1')
    cell.set_value(*args, **kw)
    verify(ctx, cell, value, vtype, currency, {})
    args, kw, value, vtype, currency = new_value(ctx, b, '2')
    cell.set_value(*args, **kw)
    verify(ctx, cell, value, vtype, currency, {})
    ctx.observe(cell.value, cell.value_type, cell.currency, cell.plaintext())


@case('C03', quick=[{'kind': k} for k in NEW])
def constructor(ctx, kind):
    args, kw, value, vtype, currency = new_value(ctx, kind, '')
    if ctx.choice('style', [False, True]):
        kw['style_name'] = 'ce9'
        cell = Cell(*args, **kw)
        ctx.check(cell.style_name == 'ce9', 'style of a new cell')
        verify(ctx, cell, value, vtype, currency, {CN('table:style-name'): 'ce9'})
    else:
        verify(ctx, Cell(*args, **kw), value, vtype, currency, {})


@case('C03', quick=[{'prev': p} for p in PREVIOUS])
def rejected(ctx, prev):
    """a set_value call that raises leaves the cell as it was"""
    cell = previous(ctx, prev)
    before = snapshot(cell)
    kind = ctx.choice('bad', ['none', 'nonetyped', 'span', 'table', 'badtype', 'badtype2', 'empty', 'emptycur', 'illegal', 'illegalcur', 'any'])
    must = True
    if kind == 'none':
        args, kw = (None,), {}
    elif kind == 'nonetyped':
        args, kw = (None, 'string'), {}
    elif kind == 'span':
        args, kw = (Span('x'),), {}
    elif kind == 'table':
        args, kw = (Cell(3),), {}
    elif kind == 'badtype':
        t = ctx.enum('t', ('number', 'float ', 'Float', 'text', '', 'boolean-value', 'int', 'datetime'))
        args, kw = ('x', t), {}
    elif kind == 'badtype2':
        t = ctx.text('t', 3, ((97, 122),))
        args, kw = (5, t), {}
    elif kind == 'empty':
        args, kw = ('', ctx.choice('t', ['date', 'time', 'float', 'percentage', 'currency'])), {}
        must = False
    elif kind == 'emptycur':
        args, kw = ('',), {'currency': 'EUR'}
        must = False
    elif kind == 'illegal':
        t = ctx.text('s', 2, BAD, 1)
        args, kw = ('a' + t, ctx.choice('t', [None, 'string', 'date', 'time', 'currency'])), {}
    elif kind == 'illegalcur':
        args, kw = (5,), {'currency': ctx.text('s', 2, BAD, 1)}
    else:
        args, kw = (ctx.text('s', 2, ANY), ctx.choice('t', [None, 'string', 'date', 'time'])), {}
        must = False
    res, exc = attempt(cell.set_value, *args, **kw)
    if must:
        ctx.check(exc is not None, 'unsupported value accepted')
    if exc is not None:
        ctx.reach('rejected')
        ctx.check(ctx.eq(snapshot(cell), before), 'rejected set_value changed the cell')
    else:
        ctx.check(ctx.eq(cell.value, args[0]) if cell.value_type in ('string', 'date', 'time') else True, 'accepted value')


@case('C03')
def empty_cell(ctx):
    t = ctx.enum('t', ('float', 'percentage', 'currency', 'boolean', 'string', 'date', 'time'))
    c = Cell()
    ctx.check(c.value is None and c.value_type is None and c.currency is None, 'new cell is empty')
    table = Table('t', size=(1, 1))
    table['A1'].set_value('x')
    ctx.check(table['A1'].value == 'x' and table['A1'].value_type == 'string', 'cell in a table')


MODULES = ('cells', 'whitespaces', 'text', 'base', 'compatibility', 'propertymixins')


@case('C03', quick=[{'what': w} for w in ('text', 'typed', 'currency', 'append', 'long')])
def constants(ctx, what):
    """texts the code mentions itself, and long ones"""
    cell = previous(ctx, ctx.choice('prev', ('stringattr', 'loadedcurrency') if what in ('text', 'typed') else ('loadedcurrency',)))
    if what == 'long':
        n = ctx.choice('n', tuple(sorted(set([40, 300, 1100] + literals.ints(MODULES, 5, 5000)))))
        t = ctx.text('a', 1) + long_text(n) + ctx.text('b', 1)
        vtype = ctx.choice('vtype', ('string', 'date', 'time'))
        cell.set_value(t, vtype)
        return verify(ctx, cell, t, vtype, None, {})
    more = ('true', 'false', '1', '1.5', 'None', 'string', '2011-01-01', 'PT1H', 'EUR', '=A1', 'of:=1', '  ')
    t = special_text(ctx, 't', MODULES, more, 24)
    if what == 'text':
        cell.set_value(t)
        verify(ctx, cell, t, 'string', None, {})
    elif what == 'typed':
        vtype = ctx.choice('vtype', ('string', 'date', 'time'))
        cell.set_value(t, vtype)
        verify(ctx, cell, t, vtype, None, {})
    elif what == 'currency':
        n = ctx.int('n', -99, 99)
        cell.set_value(n, currency=t)
        verify(ctx, cell, n, 'currency', t, {})
    else:
        cell = Cell('x')
        old = cell.plaintext()
        cell.append_text(t)
        ctx.check(cell.plaintext() == old + t, 'appended text')


@case('C03')
def numbers(ctx):
    """numbers around the constants of the code and the limits of machine numbers"""
    cell = previous(ctx, ctx.choice('prev', ('display', 'date')))
    ks = sorted(set([0, 1, 256, 2 ** 15, 2 ** 31, 2 ** 32, 10 ** 15, 2 ** 53] + literals.ints(MODULES, 1, 2 ** 53)))
    n = ctx.choice('k', tuple(ks)) + ctx.int('d', -2, 2)
    ctx.assume(n <= 2 ** 53)
    if ctx.bool('negative'):
        n = -n
    vtype = ctx.choice('vtype', ('float', 'percentage', 'currency'))
    cell.set_value(n, vtype)
    verify(ctx, cell, n, vtype, None, {})
