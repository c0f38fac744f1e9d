"""C05 Row and column edits behave like edits of a rectangular grid."""
import copy
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import table_node, inner_table, own, snapshot, Model, same_as, cell_node, cell_ok, label, long_sides
from ezodf import Table, Cell
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('tables of 1..3 x 1..3 cells (new, or loaded with header rows/columns, row groups, soft page breaks, fewer '
          'or more column infos than columns), sequences of 2 operations (thorough: 3, up to 4x4), indices -(n+1)..n+1, counts 1..3'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a table has at least one row and one column, and no comments between cells']

OPS = ('insert_rows', 'append_rows', 'delete_rows', 'insert_columns', 'append_columns', 'delete_columns', 'set', 'reset')
SIZES = ((1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (2, 3))


def operation(ctx, table, model, op, sfx, maxcount=3, sources=('new', 'own', 'other')):
    """apply op with free arguments to table and model; the model decides acceptance"""
    nr, nc = model.nrows(), model.ncols()
    if op in ('insert_rows', 'delete_rows', 'insert_columns', 'delete_columns'):
        n = nr if 'rows' in op else nc
        index = ctx.int('index' + sfx, -n - 1, n + 1)
        count = ctx.int('count' + sfx, 1, maxcount)
        if op.startswith('insert'):
            ok = ctx.all([index >= -n, index < n])
        else:
            ok = ctx.all([index >= -n, index < n, count < n, ctx.any([ctx.all([index >= 0, index + count <= n]),
                                                                     ctx.all([index < 0, index + count <= 0])])])
        ctx.assume(ok)
        getattr(table, op)(index, count)
        i = ctx.fork(index)
        getattr(model, op)(i + n if i < 0 else i, ctx.fork(count))
    elif op in ('append_rows', 'append_columns'):
        count = ctx.int('count' + sfx, 1, maxcount)
        getattr(table, op)(count)
        getattr(model, op.replace('append', 'insert'))(nr if 'rows' in op else nc, ctx.fork(count))
    elif op == 'set':
        r = ctx.int('row' + sfx, -nr, nr - 1)
        c = ctx.int('col' + sfx, -nc, nc - 1)
        src = ctx.choice('src' + sfx, sources)
        if src == 'new':
            cell = wrap(cell_node('n' + sfx))
            lab = 'n' + sfx
        elif src == 'own':
            cell = table[nr - 1, 0]
            lab = model.cells[nr - 1][0]
        else:
            other = Table('other', size=(2, 2))
            cell = other['B1']
            cell.style_name = 'o' + sfx
            lab = 'o' + sfx
        table[r, c] = cell
        i, j = ctx.fork(r), ctx.fork(c)
        model.cells[i][j] = lab
        if src == 'other':
            ctx.check(other.ncols() == 2 and len(other.row(0)) == 2 and len(other.row(1)) == 2, 'source table keeps its shape')
    else:
        r = ctx.int('row' + sfx, 1, 3)
        c = ctx.int('col' + sfx, 1, 3)
        name = table.name
        table.reset((r, c))
        fresh = Model(ctx.fork(r), ctx.fork(c), labelled=False)
        model.cells, model.rows, model.cols = fresh.cells, fresh.rows, fresh.cols
        ctx.check(table.name == name, 'reset keeps the name')


def build(ctx, size, layout):
    nr, nc = size
    if layout == 'new':
        return Table('T', size=size), Model(nr, nc, labelled=False)
    if layout == 'fewcols':
        n = ctx.choice('infos', list(range(0, nc)) + [nc + 1, nc + 2])
        return wrap(table_node(nr, nc, 'plain', n)), Model(nr, nc, n)
    if layout == 'morecols':
        return wrap(table_node(nr, nc, 'plain', nc + 1)), Model(nr, nc, nc + 1)
    return wrap(table_node(nr, nc, layout)), Model(nr, nc)


ONE = [{'layout': l, 'size': s} for l in ('plain', 'header', 'group', 'mixed', 'fewcols', 'new') for s in SIZES]
TWO = [{'layout': l, 'size': s, 'first': op} for l, s in (('plain', (2, 2)), ('mixed', (2, 3)), ('morecols', (1, 2))) for op in OPS]
DEEP = ([{'layout': 'plain', 'size': s, 'first': op} for s in ((1, 3), (3, 1), (3, 3)) for op in OPS] +
        [{'layout': l, 'size': s, 'first': op} for l, s in (('header', (3, 2)), ('group', (3, 2)), ('mixed', (2, 3)),
                                                            ('new', (2, 2)), ('new', (1, 1))) for op in OPS])


def possible(op, model):
    return not (op.startswith('delete') and (model.nrows() if 'rows' in op else model.ncols()) == 1)


def finish(ctx, table, model):
    same_as(ctx, table, model)
    reread = wrap(copy.deepcopy(table.xmlnode))
    same_as(ctx, reread, model)
    ctx.observe([[label(c.xmlnode) for c in row] for row in reread.rows()])


@case('C05', quick=ONE)
def one_edit(ctx, layout, size):
    table, model = build(ctx, size, layout)
    same_as(ctx, table, model)
    op = ctx.choice('op', OPS)
    if not possible(op, model):
        return
    operation(ctx, table, model, op, '')
    finish(ctx, table, model)


@case('C05', quick=TWO)
def two_edits(ctx, layout, size, first):
    table, model = build(ctx, size, layout)
    if not possible(first, model):
        return
    operation(ctx, table, model, first, '1', 2, ('own', 'new'))
    op = ctx.choice('op', OPS)
    if not possible(op, model):
        return
    operation(ctx, table, model, op, '2', 2, ('new',))
    finish(ctx, table, model)


@case('C05', quick=[], thorough=DEEP)
def two_edits_deep(ctx, layout, size, first):
    table, model = build(ctx, size, layout)
    if not possible(first, model):
        return
    operation(ctx, table, model, first, '1')
    same_as(ctx, table, model, False)
    op = ctx.choice('op', OPS)
    if not possible(op, model):
        return
    operation(ctx, table, model, op, '2')
    finish(ctx, table, model)


@case('C05', quick=[], thorough=[{'layout': l, 'size': s, 'first': a, 'second': b} for l, s in
                                 (('plain', (3, 3)), ('header', (4, 2)), ('mixed', (3, 4)), ('fewcols', (2, 3)), ('morecols', (2, 2)))
                                 for a in OPS for b in OPS])
def three_edits(ctx, layout, size, first, second):
    table, model = build(ctx, size, layout)
    operation(ctx, table, model, first, '1', 2, ('new', 'own'))
    if not possible(second, model):
        return
    operation(ctx, table, model, second, '2', 2, ('new', 'own'))
    op = ctx.choice('op', OPS)
    if not possible(op, model):
        return
    operation(ctx, table, model, op, '3', 2, ('new',))
    finish(ctx, table, model)


def quick_same(ctx, table, model):
    """the whole grid, each cell looked at once"""
    ctx.check(table.nrows() == model.nrows() and table.ncols() == model.ncols(), 'size')
    rows = [list(r) for r in table.rows()]
    ctx.check([[label(c.xmlnode) for c in r] for r in rows] == model.cells, 'cells')
    ctx.check(all([cell_ok(c.xmlnode, m) for r, ms in zip(rows, model.cells) for c, m in zip(r, ms)]), 'content of a cell')
    ctx.check([label(e) for e in table.xmlnode.iter(CN('table:table-row'))] == model.rows, 'rows in the XML')
    ctx.check([[label(e) for e in r] for r in table.xmlnode.iter(CN('table:table-row'))] == model.cells, 'cells in the XML')
    ctx.check([label(e) for e in table.xmlnode.iter(CN('table:table-column'))] == model.cols, 'columns in the XML')
    ctx.check([label(table.row_info(r).xmlnode) for r in range(model.nrows())] == model.rows, 'row infos')
    ctx.check([label(table.column_info(c).xmlnode) for c in range(model.ncols())] == model.cols[:model.ncols()], 'column infos')


@case('C05', quick=[{'op': op} for op in OPS])
def spanned(ctx, op):
    """spans and covered cells are cells of the grid like all others"""
    n, m = ctx.choice('size', ((3, 3), (2, 4)))
    table, model = build(ctx, (n, m), 'mixed' if op != 'reset' else 'plain')
    if ctx.bool('repeated attributes'):
        for row in table.xmlnode.iter(CN('table:table-row')):
            row.set(CN('table:default-cell-style-name'), 'd')
    r, c = ctx.choice('span row', (0, n - 2)), ctx.choice('span col', (0, m - 2))
    size = ctx.choice('span', ((1, 2), (2, 1), (2, 2)))
    table.set_cell_span((r, c), size)
    tags = {}
    for row in table.rows():
        for cell in row:
            tags[label(cell.xmlnode)] = (cell.xmlnode.tag, cell.span, cell.value)
    operation(ctx, table, model, op, '', 2, ('new',))
    want = [[tags.get(x, (CN('table:table-cell'), (1, 1), None)) for x in row] for row in model.cells]
    for t in (table, wrap(copy.deepcopy(table.xmlnode))):
        ctx.check((t.nrows(), t.ncols()) == (model.nrows(), model.ncols()), 'size')
        ctx.check([[label(cell.xmlnode) for cell in row] for row in t.rows()] == model.cells, 'cells')
        ctx.check([[(cell.xmlnode.tag, cell.span, cell.value) for cell in row] for row in t.rows()] == want, 'kind and content of a cell')
        ctx.check([label(e) for e in t.xmlnode.iter(CN('table:table-row'))] == model.rows, 'rows in the XML')
        ctx.check([label(e) for e in t.xmlnode.iter(CN('table:table-column'))] == model.cols, 'columns in the XML')


@case('C05', quick=[{'op': op} for op in OPS])
def nested(ctx, op):
    """tables in cells are content of these cells"""
    n, m = ctx.choice('size', ((2, 2), (3, 2), (1, 3)))
    layout = ctx.choice('layout', ('plain', 'mixed', 'header'))
    if not possible(op, Model(n, m)):
        return
    node = table_node(n, m, layout)
    cells = [e for row in own(node, CN('table:table-row')) for e in row]
    for i in range(2):
        e = cells[(0, len(cells) - 1, 1)[ctx.choice('cell%d' % i, (0, 1, 2))]]
        e.append(inner_table(i == 1))
    content = {}
    for e in cells:
        content[label(e)] = snapshot(e)
    table, model = wrap(node), Model(n, m)
    operation(ctx, table, model, op, '', 2, ('new',))
    for t in (table, wrap(copy.deepcopy(table.xmlnode))):
        ctx.check((t.nrows(), t.ncols()) == (model.nrows(), model.ncols()), 'size')
        ctx.check([[label(cell.xmlnode) for cell in row] for row in t.rows()] == model.cells, 'cells')
        ctx.check(all([snapshot(cell.xmlnode) == content[label(cell.xmlnode)] for row in t.rows() for cell in row
                       if label(cell.xmlnode) in content]), 'content of a cell')
        ctx.check([label(e) for e in own(t.xmlnode, CN('table:table-row'))] == model.rows, 'rows in the XML')
        ctx.check([label(e) for e in own(t.xmlnode, CN('table:table-column'))] == model.cols, 'columns in the XML')
        ctx.check([label(t.column_info(c).xmlnode) for c in range(model.ncols())] == model.cols[:model.ncols()], 'column infos')


LARGE = ((6, 5), (5, 7), (13, 2), (2, 13))


@case('C05', quick=[{'size': s, 'op': op} for s in LARGE[:2] for op in OPS] + [{'size': s, 'op': op} for s in LARGE[2:] for op in OPS[:6]] +
      [{'size': 'long', 'op': op} for op in OPS[:6]],
      thorough=[{'size': s, 'op': op, 'layout': l} for s in LARGE for op in OPS for l in ('header', 'mixed', 'fewcols', 'new')])
def larger(ctx, size, op, layout='plain'):
    """tables and counts beyond the small ones, and around the integer constants of the code"""
    maxcount = 7
    fixed = size == 'long'
    if fixed:
        n = ctx.choice('n', tuple(long_sides() or [9]))
        size = (n, 1) if 'rows' in op else (1, n)
    table, model = build(ctx, size, layout)
    if op in ('set', 'reset') or max(size) < 9 or layout != 'plain':
        operation(ctx, table, model, op, '', maxcount, ('new', 'own'))
    else:
        # near both ends and the middle, with every kind of count
        n = max(size)
        counts = [k for k in sorted(set([1, n - 1, n] + ([] if fixed else long_sides()))) if k >= 1]
        if op.startswith('append'):
            count = ctx.choice('count', tuple(counts))
            getattr(table, op)(count)
            getattr(model, op.replace('append', 'insert'))(size['columns' in op], count)
        else:
            side = size['columns' in op]
            if op.startswith('delete'):
                counts = [k for k in counts if k < side]
                if not counts:
                    return
            count = ctx.choice('count', tuple(counts))
            index = ctx.choice('at', tuple(sorted(set([0, side // 2, side - 1, -1, -side]))))
            ctx.assume(-side <= index < side)
            if op.startswith('delete'):
                ctx.assume(index + count <= (side if index >= 0 else 0))
            getattr(table, op)(index, count)
            getattr(model, op)(index + side if index < 0 else index, count)
    quick_same(ctx, table, model)
    if not fixed and op != 'set' and ctx.bool('again'):
        again = ctx.choice('second', ('insert_rows', 'insert_columns'))
        getattr(table, again)(1, 1) if max(model.nrows(), 1) > 1 and max(model.ncols(), 1) > 1 else getattr(table, again)(0, 1)
        getattr(model, again)(1 if model.nrows() > 1 and model.ncols() > 1 else 0, 1)
        quick_same(ctx, table, model)


@case('C05')
def defaults(ctx):
    """the count is 1 unless another one is given, by position or by name"""
    table, model = build(ctx, (3, 3), ctx.choice('layout', ('plain', 'mixed')))
    for i in range(2):
        op = ctx.choice('op%d' % i, OPS[:6])
        n = model.nrows() if 'rows' in op else model.ncols()
        how = ctx.choice('how%d' % i, ('default', 'keyword', 'keywords'))
        at = n - 1 if not op.startswith('append') else n
        k = 1 if how == 'default' else ctx.fork(ctx.int('count%d' % i, 1, 2))
        if op.startswith('delete'):
            at = at - k + 1
            if k >= n:
                return
        if op.startswith('append'):
            getattr(table, op)(*((k,) if how == 'keyword' else ()), **({'count': k} if how == 'keywords' else {}))
            op = op.replace('append', 'insert')
        elif how == 'keywords':
            getattr(table, op)(index=at, count=k)
        elif how == 'keyword':
            getattr(table, op)(at, count=k)
        else:
            getattr(table, op)(at)
        getattr(model, op)(at, k)
    finish(ctx, table, model)
    size = table.nrows(), table.ncols()
    table.clear()
    fresh = Model(size[0], size[1], labelled=False)
    same_as(ctx, table, fresh)
    table.reset()
    ctx.check(table.nrows() == 10 and table.ncols() == 10, 'size after reset without arguments')
    ctx.check(Table('T').nrows() == 10 and Table('T').ncols() == 10, 'size of a new table')
