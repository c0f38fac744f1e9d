"""C08 Cell spans cover exactly their area and never overlap."""
import copy
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import table_node, snapshot, label, long_sides
from ezodf import Table, Cell, Paragraph
from ezodf.xmlns import wrap, CN

BOUNDS = ('tables up to 4x3, sequences of 2 (thorough: 3) span requests and removals with free position (also negative or '
          'outside), free size 0..n+1, by tuple or reference, loaded or new tables'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['cells that are spanned or covered when a table is loaded belong to consistent spans',
               'no rows or columns are inserted into or deleted from a span between the requests']


VALUES = ((True,), (2.5,), ('2011-01-01', 'date'), (3, 'currency', 'EUR'), ('PT1H', 'time'), (0.5, 'percentage'))


class Spans(object):
    """covered positions and spans; everything else is a plain cell"""

    def __init__(self, nr, nc):
        self.nr, self.nc = nr, nc
        self.spans = {}
        self.covered = {}

    def area(self, pos, size):
        return [(r, c) for r in range(pos[0], pos[0] + size[0]) for c in range(pos[1], pos[1] + size[1])]


def check_all(ctx, table, m, content):
    for r in range(m.nr):
        for c in range(m.nc):
            cell = table[r, c]
            ctx.check(ctx.eq(cell.span, m.spans.get((r, c), (1, 1))), 'span of a cell')
            ctx.check(cell.covered == ((r, c) in m.covered), 'covered state of a cell')
            ctx.check(cell.kind == 'Cell', 'kind')
            ctx.check(content_of(cell) == content[r][c], 'content of a cell')
            if (r, c) not in m.spans:
                for a in ('table:number-rows-spanned', 'table:number-columns-spanned'):
                    ctx.check(CN(a) not in cell.xmlnode.attrib, 'span attributes of a cell without span')


def content_of(cell):
    attrs = [(k, cell.xmlnode.get(k)) for k in sorted(cell.xmlnode.attrib.keys()) if not k.endswith('-spanned')]
    return (label(cell.xmlnode), cell.value, cell.value_type, cell.currency, cell.plaintext(), attrs, [snapshot(e) for e in cell.xmlnode])


def start(ctx, size, kind):
    if kind == 'new':
        table = Table('T', size=size)
        for r in range(size[0]):
            for c in range(size[1]):
                if (r + c) % 2 == 0:
                    table[r, c].set_value('v%d %d' % (r, c))
                else:
                    table[r, c].set_value(*VALUES[(r * size[1] + c) // 2 % len(VALUES)])
    else:
        table = wrap(table_node(size[0], size[1], kind))
    for r in range(size[0]):
        for c in range(size[1]):
            decorate(table[r, c], r * size[1] + c)
    return table


def decorate(cell, n):
    """whatever else a cell carries has to survive, too"""
    cell.content_validation_name = 'val%d' % n
    cell.formula = 'of:=%d' % n
    cell.protected = n % 2 == 0
    cell.xmlnode.set('{urn:foreign}note', 'n%d' % n)
    cell.xmlnode.set('{http://www.w3.org/XML/1998/namespace}id', 'id%d' % n)
    if cell.style_name is None:
        cell.style_name = 'ce%d' % n
    note = Paragraph('note %d' % n)
    note.xmlnode.tag = CN('office:annotation')
    cell.append(note)


def request(ctx, table, m, sfx, byref):
    """one free request; returns nothing, keeps m in step"""
    op = ctx.choice('op' + sfx, ['set', 'remove'])
    if op == 'remove':
        r = ctx.int('row' + sfx, 0, m.nr - 1)
        c = ctx.int('col' + sfx, 0, m.nc - 1)
        pos = (r, c)
        table.remove_cell_span(pos)
        p = (ctx.fork(r), ctx.fork(c))
        if p in m.spans:
            for q in m.area(p, m.spans[p]):
                if q != p:
                    del m.covered[q]
            del m.spans[p]
            ctx.reach('removed')
        return
    r = ctx.int('row' + sfx, -1, m.nr)
    c = ctx.int('col' + sfx, -1, m.nc)
    h = ctx.int('h' + sfx, 0, m.nr + 1)
    w = ctx.int('w' + sfx, 0, m.nc + 1)
    inside = ctx.all([r >= 0, c >= 0, h >= 1, w >= 1, r + h <= m.nr, c + w <= m.nc])
    taken = list(m.spans) + list(m.covered)
    free = ctx.all([ctx.any([r > tr, r + h <= tr, c > tc, c + w <= tc]) for tr, tc in taken])
    before = snapshot(table.xmlnode)
    res, exc = attempt(table.set_cell_span, (r, c), (h, w))
    if exc is None:
        ctx.check(inside, 'a span outside the table was accepted')
        ctx.check(free, 'an overlapping span was accepted')
        p, s = (ctx.fork(r), ctx.fork(c)), (ctx.fork(h), ctx.fork(w))
        if s != (1, 1):
            m.spans[p] = s
        for q in m.area(p, s):
            if q != p:
                m.covered[q] = True
        ctx.reach('accepted')
    else:
        ctx.check(isinstance(exc, (IndexError, ValueError)), 'kind of rejection')
        ctx.check(ctx.not_(ctx.all([inside, free])), 'a valid span was rejected')
        ctx.check(ctx.eq(snapshot(table.xmlnode), before), 'a rejected request changed the table')


def sequence(ctx, size, kind, n, first=None):
    table = start(ctx, size, kind)
    content = [[content_of(c) for c in row] for row in table.rows()]
    m = Spans(size[0], size[1])
    if first:
        table.set_cell_span(*first)
        m.spans[first[0]] = first[1]
        for q in m.area(*first)[1:]:
            m.covered[q] = True
        check_all(ctx, table, m, content)
    for i in range(n):
        request(ctx, table, m, str(i), False)
        check_all(ctx, table, m, content)
    check_all(ctx, wrap(copy.deepcopy(table.xmlnode)), m, content)
    for p in list(m.spans):
        table.remove_cell_span(p)
    m.spans, m.covered = {}, {}
    check_all(ctx, table, m, content)


@case('C08', quick=[{'size': (1, 1), 'kind': 'new'}, {'size': (3, 4), 'kind': 'new'}, {'size': (3, 3), 'kind': 'mixed'}, {'size': (4, 1), 'kind': 'header'}, {'size': (2, 3), 'kind': 'nested'}],
      thorough=[{'size': s, 'kind': k} for s in ((1, 1), (4, 4), (5, 3), (3, 3), (1, 5)) for k in ('new', 'mixed', 'group')])
def one(ctx, size, kind):
    sequence(ctx, size, kind, 1)


@case('C08', quick=[{'size': (2, 3), 'kind': 'new'}, {'size': (3, 2), 'kind': 'group'}],
      thorough=[{'size': s, 'kind': k} for s in ((3, 3), (3, 4), (2, 5)) for k in ('new', 'mixed')], covers=('accepted', 'removed'))
def two(ctx, size, kind):
    sequence(ctx, size, kind, 2)


@case('C08', quick=[{'first': f} for f in (((1, 1), (2, 2)), ((0, 1), (3, 1)), ((2, 0), (1, 3)))],
      thorough=[{'first': ((r, c), (h, w)), 'n': 2} for r in range(3) for c in range(3) for h in range(1, 4 - r)
                for w in range(1, 4 - c) if (h, w) != (1, 1)])
def after(ctx, first, n=1):
    first = (tuple(first[0]), tuple(first[1]))
    sequence(ctx, (3, 3), 'new', n, first)


@case('C08')
def by_reference(ctx):
    """references address the same cells"""
    table = start(ctx, (3, 3), 'plain')
    ref = ctx.choice('ref', ['A1', 'b2', 'C1', 'B3', 'a2'])
    col, row = 'ABC'.index(ref[0].upper()), int(ref[1]) - 1
    h = ctx.int('h', 1, 3)
    w = ctx.int('w', 1, 3)
    ctx.assume(ctx.all([row + h <= 3, col + w <= 3]))
    table.set_cell_span(ref, (h, w))
    ctx.check(ctx.eq(table[row, col].span, (h, w)), 'span of the start cell')
    n = 0
    for pos, cell in table.itercells():
        if cell.covered:
            n += 1
            ctx.check(ctx.all([pos[0] >= row, pos[0] < row + h, pos[1] >= col, pos[1] < col + w]), 'covered outside the area')
    ctx.check(n == h * w - 1, 'number of covered cells')
    table.remove_cell_span(ref)
    for pos, cell in table.itercells():
        ctx.check(ctx.all([ctx.not_(cell.covered), ctx.eq(cell.span, (1, 1))]), 'span removed')


def area_ok(ctx, table, spans, values):
    """spans: position -> size; every cell is looked at once"""
    covered = set()
    for p, s in spans.items():
        covered.update([(r, c) for r in range(p[0], p[0] + s[0]) for c in range(p[1], p[1] + s[1]) if (r, c) != p])
    got = [(pos, cell.span, cell.covered, cell.value) for pos, cell in table.itercells()]
    ctx.check(ctx.eq(got, [(pos, spans.get(pos, (1, 1)), pos in covered, values[pos]) for pos, _, _, _ in got]), 'spans of all cells')


@case('C08', quick=[{'size': s} for s in ((7, 6), 'rows', 'columns')])
def larger(ctx, size):
    """bigger tables, spans around the integer constants of the code"""
    if size == 'rows':
        n = ctx.choice('n', tuple(long_sides(260) or [9]))
        size, wish = (n, 2), (ctx.choice('h', (1, n - 1, n)), ctx.choice('w', (1, 2)))
    elif size == 'columns':
        n = ctx.choice('n', tuple(long_sides(260) or [9]))
        size, wish = (2, n), (ctx.choice('h', (1, 2)), ctx.choice('w', (1, n - 1, n)))
    else:
        wish = (ctx.int('h', 1, 7), ctx.int('w', 1, 6))
    table = Table('T', size=size)
    values = {}
    for pos, cell in table.itercells():
        values[pos] = 'v%d %d' % pos
        cell.set_value(values[pos], ('string', 'date', 'time')[(pos[0] + pos[1]) % 3])
    p = (ctx.choice('row', (0, 1, size[0] - 2)), ctx.choice('col', (0, 1)))
    ctx.assume(ctx.all([p[0] + wish[0] <= size[0], p[1] + wish[1] <= size[1]]))
    table.set_cell_span(p, wish)
    s = (ctx.fork(wish[0]), ctx.fork(wish[1]))
    spans = {p: s} if s != (1, 1) else {}
    area_ok(ctx, table, spans, values)
    # the last cell of the area is taken
    last = (p[0] + s[0] - 1, p[1] + s[1] - 1)
    before = snapshot(table.xmlnode)
    if last != p:
        ctx.check(attempt(table.set_cell_span, last, (1, 1))[1] is not None, 'the last cell of the area is covered')
        ctx.check(snapshot(table.xmlnode) == before, 'a rejected request changed the table')
    # the cells next to the area are free
    if p[1] + s[1] < size[1]:
        q = (p[0], p[1] + s[1])
        table.set_cell_span(q, (s[0], 1))
        if s[0] > 1:
            spans[q] = (s[0], 1)
        area_ok(ctx, table, spans, values)
    table.remove_cell_span(p)
    spans.pop(p, None)
    area_ok(ctx, table, spans, values)


def span_attr(ctx, node, name, n, how):
    """a span attribute as programs write it; the default may be left out"""
    if n != 1 or how == 'explicit':
        node.set(CN(name), str(n))


@case('C08', quick=[{'size': s, 'repeated': r} for s, r in (((1, 3), False), ((3, 1), False), ((2, 3), True), ((1, 1), False), ((3, 2), False), ((1, 4), True))])
def loaded_spans(ctx, size, repeated):
    """a table of 4x5 cells with a span, as other programs write it"""
    from ezodf.xmlns import etree
    size = h, w = tuple(size)
    nr, nc = 4, 5
    p = (ctx.choice('row', (0, 1)), ctx.choice('col', (0, 1)))
    how = ctx.choice('attributes', ('needed', 'explicit'))
    filled = ctx.bool('covered cells have a content')
    t = etree.Element(CN('table:table'))
    t.set(CN('table:name'), 'T')
    values = {}
    for r in range(nr):
        row = etree.SubElement(t, CN('table:table-row'))
        for c in range(nc):
            inside = p[0] <= r < p[0] + h and p[1] <= c < p[1] + w
            cover = inside and (r, c) != p
            values[(r, c)] = None
            if cover and repeated and not filled and c > p[1] + (r == p[0]):
                row[-1].set(CN('table:number-columns-repeated'), str(int(row[-1].get(CN('table:number-columns-repeated'), '1')) + 1))
                continue
            cell = etree.SubElement(row, CN('table:covered-table-cell' if cover else 'table:table-cell'))
            if not cover or filled:
                values[(r, c)] = 'v%d %d' % (r, c)
                cell.set(CN('office:value-type'), 'string')
                etree.SubElement(cell, CN('text:p')).text = values[(r, c)]
            if (r, c) == p:
                span_attr(ctx, cell, 'table:number-rows-spanned', h, how)
                span_attr(ctx, cell, 'table:number-columns-spanned', w, how)
    table = wrap(t)
    spans = {p: size} if size != (1, 1) else {}
    area_ok(ctx, table, spans, values)
    # a further span
    q = (ctx.choice('row2', (0, 2)), ctx.choice('col2', (1, 4)))
    s = (ctx.int('h2', 1, 2), ctx.int('w2', 1, 3))
    before = snapshot(table.xmlnode)
    free = ctx.any([q[0] >= p[0] + h, q[0] + s[0] <= p[0], q[1] >= p[1] + w, q[1] + s[1] <= p[1], size == (1, 1)])
    fits = ctx.all([q[0] + s[0] <= nr, q[1] + s[1] <= nc])
    res, exc = attempt(table.set_cell_span, q, s)
    ctx.check(ctx.eq(exc is None, ctx.all([free, fits])), 'a span is accepted where it fits')
    if exc is None:
        s = (ctx.fork(s[0]), ctx.fork(s[1]))
        if s != (1, 1):
            spans[q] = s
    else:
        ctx.check(snapshot(table.xmlnode) == before, 'a rejected request changed the table')
    area_ok(ctx, table, spans, values)
    for pos in (p, q):
        table.remove_cell_span(pos)
        spans.pop(pos, None)
        area_ok(ctx, table, spans, values)
    for e in table.xmlnode.iter():
        ctx.check(not [a for a in e.keys() if a.endswith('-spanned') and e.get(a) != '1'], 'no span is left')
