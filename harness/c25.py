"""C25 All views of a table show the same cells."""
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import table_node, snapshot, label, long_sides
from ezodf import Table, Cell
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('tables of 1..3 x 1..4 cells (new, loaded with repeated, grouped or header rows and columns, covered cells, '
          'fewer column infos), directly and after one edit; positions up to 10^9 beyond the table, references with free column letter(s) and row'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['tables as for C05']

EDITS = ('none', 'insert_rows', 'insert_columns', 'delete_rows', 'delete_columns', 'append', 'reset', 'span', 'set')


def make(kind, size):
    if kind == 'new':
        return Table('T', size=size)
    if kind == 'repeated':
        t = etree.Element(CN('table:table'))
        col = etree.SubElement(t, CN('table:table-column'))
        col.set(CN('table:number-columns-repeated'), str(size[1]))
        for i in range(2):
            row = etree.SubElement(t, CN('table:table-row'))
            if i:
                row.set(CN('table:number-rows-repeated'), str(size[0] - 1))
            cell = etree.SubElement(row, CN('table:table-cell'))
            cell.set(CN('table:number-columns-repeated'), str(size[1] - 1))
            etree.SubElement(row, CN('table:covered-table-cell'))
        return wrap(t)
    return wrap(table_node(size[0], size[1], 'plain' if kind[-4:] == 'cols' else kind,
                           1 if kind == 'fewcols' else size[1] + 2 if kind == 'morecols' else None))


def apply_edit(table, edit, at):
    if edit == 'append':
        table.append_rows(1)
        table.append_columns(2)
    elif edit == 'reset':
        table.reset((2, 3))
    elif edit == 'span':
        table.set_cell_span((0, 0), (table.nrows(), table.ncols()))
    elif edit == 'set':
        table[0, 0] = Cell('x')
    elif edit == 'clear':
        table.clear()
    elif edit != 'none':
        getattr(table, edit)(at, 1)


def name_of(ctx, r, c):
    """reference of a cell, upper or lower case"""
    col = ('ABCDEFG', 'abcdefg')[(r + c) % 2][c]
    return '%s%d' % (col, r + 1)


CONFIGS = [{'kind': k, 'size': s} for k, s in (('new', (1, 1)), ('new', (2, 3)), ('repeated', (3, 3)), ('mixed', (3, 2)),
                                              ('header', (2, 2)), ('fewcols', (2, 3)), ('group', (3, 2)), ('nested', (2, 2)), ('morecols', (2, 2)))]


@case('C25', quick=CONFIGS, thorough=[{'kind': k, 'size': s} for k in ('new', 'repeated', 'mixed', 'header', 'fewcols', 'group', 'nested', 'morecols')
                                      for s in ((2, 2), (3, 4), (4, 3), (4, 4))])
def inside(ctx, kind, size, via=None):
    table = make(kind, size)
    edit = ctx.choice('edit', EDITS)
    if edit in ('delete_rows', 'delete_columns') and min(size) == 1 or edit == 'span' and kind == 'repeated':
        return
    apply_edit(table, edit, ctx.choice('at', [0, -1]) if edit[:6] in ('insert', 'delete') else 0)
    nr, nc = table.nrows(), table.ncols()
    ctx.check(nr >= 1 and nc >= 1, 'size')
    i = ctx.int('row', -nr, nr - 1)
    j = ctx.int('col', -nc, nc - 1)
    node = table[i, j].xmlnode
    r, c = ctx.fork(i), ctx.fork(j)
    r, c = (r + nr if r < 0 else r), (c + nc if c < 0 else c)
    views = [('tuple', table[r, c]), ('negative', table[r - nr, c - nc]), ('mixed', table[r, c - nc]),
             ('get_cell', table.get_cell((r, c))), ('row', table.row(r)[c]), ('row from the end', table.row(r - nr)[c - nc]),
             ('column', table.column(c)[r]), ('column from the end', table.column(c - nc)[r - nr]),
             ('rows', [row for row in table.rows()][r][c]), ('columns', [col for col in table.columns()][c][r]),
             ('itercells', [cell for pos, cell in table.itercells() if pos == (r, c)][0]),
             ('row_info', [e for e in table.row_info(r)][c]), ('row_info from the end', [e for e in table.row_info(r - nr)][c])]
    ref = name_of(ctx, r, c)
    views += [('reference', table[ref]), ('row of a reference', table.row(ref)[c]), ('column of a reference', table.column(ref)[r]),
              ('row_info of a reference', [e for e in table.row_info(ref)][c])]
    for lab, cell in views:
        ctx.check(cell.xmlnode is node, 'cell by ' + lab)
        ctx.check(cell.kind == 'Cell', 'kind of a cell')
    cells = list(table.itercells())
    ctx.check([p for p, _ in cells] == [(a, b) for a in range(nr) for b in range(nc)], 'positions of itercells')
    ctx.check(len(set(id(x.xmlnode) for _, x in cells)) == nr * nc, 'no cell appears twice')
    ctx.check(len(table.row(r)) == nc and len(table.column(c)) == nr, 'length of rows and columns')
    info = table.column_info(c)
    ctx.check(info.xmlnode is table.column_info(ref).xmlnode, 'column info by reference')
    ctx.check(info.xmlnode is table.column_info(c - nc).xmlnode, 'column info from the end')
    ctx.check(info.kind == 'TableColumn' and table.row_info(r).kind == 'TableRow', 'infos exist')
    # written through one view, read through all
    lab, cell = views[(3 * r + 5 * c + EDITS.index(edit)) % len(views)] if via is None else views[via]
    value = ctx.int('value', -1000, 1000)
    cell.set_value(value)
    for lab, other in [('tuple', table[r, c]), ('row', table.row(r)[c]), ('column', table.column(c)[r]), ('reference', table[ref]),
                       ('itercells', [x for p, x in table.itercells() if p == (r, c)][0])]:
        ctx.check(other.value == value, 'value written through another view, read by ' + lab)
    # replaced through one view
    new = Cell('replaced')
    if (r + c) % 2:
        table[ref] = new
    else:
        table[r - nr, c] = new
    for lab, other in [('tuple', table[r, c]), ('row', table.row(r)[c]), ('column', table.column(c)[r]), ('reference', table[ref])]:
        ctx.check(other.xmlnode is new.xmlnode, 'replaced cell, read by ' + lab)
    ctx.check(table.nrows() == nr and table.ncols() == nc, 'size is kept')


@case('C25', quick=[{'via': v} for v in range(17)])
def written(ctx, via):
    inside(ctx, 'mixed', (2, 2), via)


@case('C25', quick=CONFIGS)
def outside(ctx, kind, size):
    table = make(kind, size)
    edit = ctx.choice('edit', EDITS)
    if edit in ('delete_rows', 'delete_columns') and min(size) == 1 or edit == 'span' and kind == 'repeated':
        return
    apply_edit(table, edit, 0)
    nr, nc = table.nrows(), table.ncols()
    what = ctx.choice('what', ['get', 'set', 'row', 'column', 'row_info', 'column_info', 'ref', 'setref', 'rowref', 'colref'])
    before = snapshot(table.xmlnode)
    far = 10 ** 9 if what[-3:] != 'ref' else 3
    i = ctx.int('row', -nr - far, nr + far)
    j = ctx.int('col', -nc - far, nc + far)
    rout = ctx.any([i < -nr, i >= nr])
    cout = ctx.any([j < -nc, j >= nc])
    new = Cell('x')
    if what in ('get', 'set'):
        ctx.assume(ctx.any([rout, cout]))
        res, exc = attempt(table.__getitem__, (i, j)) if what == 'get' else attempt(table.__setitem__, (i, j), new)
    elif what in ('row', 'row_info'):
        ctx.assume(rout)
        res, exc = attempt(getattr(table, what), i)
    elif what in ('column', 'column_info'):
        ctx.assume(cout)
        res, exc = attempt(getattr(table, what), j)
    else:
        ctx.assume(ctx.all([i >= 0, j >= 0]))
        ctx.assume(i >= nr if what == 'rowref' else j >= nc if what == 'colref' else ctx.any([i >= nr, j >= nc]))
        shift = ctx.choice('far', (0, 997, 10 ** 6))
        ref = '%s%s' % ('ABCDEFGHIJ'[ctx.fork(j)], ctx.sxstr(i + (shift if what == 'rowref' else 0) + 1))
        if what == 'ref':
            res, exc = attempt(table.__getitem__, ref)
        elif what == 'setref':
            res, exc = attempt(table.__setitem__, ref, new)
        elif what == 'rowref':
            res, exc = attempt(table.row, ref)
        else:
            res, exc = attempt(table.column, ref)
    ctx.check(isinstance(exc, IndexError), 'position outside the table')
    ctx.check(snapshot(table.xmlnode) == before, 'table unchanged')


@case('C25', quick=[{'size': s} for s in ((6, 5), (4, 28), 'rows')])
def larger(ctx, size):
    """bigger tables; columns with one and two letters, rows around the integer constants of the code"""
    if size == 'rows':
        size = (ctx.choice('n', tuple(long_sides(120) or [9])), 2)
    table = make('new', size) if ctx.bool('new') else make('mixed', size)
    nr, nc = size
    r = ctx.choice('row', tuple(sorted(set([0, 1, nr // 2, nr - 2, nr - 1]))))
    c = ctx.choice('col', tuple(sorted(set([0, 1, nc // 2, max(nc - 3, 0), nc - 2, nc - 1]))))
    col = chr(65 + c) if c < 26 else 'A' + chr(65 + c - 26)
    ref = col + str(r + 1)
    if ctx.bool('lower'):
        ref = ref.lower()
    node = [e for e in list(table.xmlnode.iter(CN('table:table-row')))[r]][c]
    for lab, cell in [('tuple', table[r, c]), ('negative', table[r - nr, c - nc]), ('row', table.row(r)[c]), ('column', table.column(c)[r]),
                      ('rows', list(table.rows())[r][c]), ('columns', list(table.columns())[c][r]), ('reference', table[ref]),
                      ('row of a reference', table.row(ref)[c]), ('column of a reference', table.column(ref)[r]),
                      ('itercells', [x for p, x in table.itercells() if p == (r, c)][0]), ('row_info', table.row_info(ref)[c])]:
        ctx.check(cell.xmlnode is node, 'cell by ' + lab)
    ctx.check(table.column_info(ref).xmlnode is list(table.xmlnode.iter(CN('table:table-column')))[c], 'column info')
    cells = list(table.itercells())
    ctx.check([p for p, _ in cells] == [(a, b) for a in range(nr) for b in range(nc)], 'positions of itercells')
    for bad in ((nr, c), (r, nc), (-nr - 1, c), (r, -nc - 1)):
        ctx.check(isinstance(attempt(table.__getitem__, bad)[1], IndexError), 'position outside the table')
    new = Cell('n')
    table[ref] = new
    for lab, cell in [('tuple', table[r, c]), ('row', table.row(r)[c]), ('column', table.column(c)[r])]:
        ctx.check(cell.xmlnode is new.xmlnode, 'replaced cell by ' + lab)
    ctx.check(len([1 for _, x in table.itercells() if x.xmlnode is new.xmlnode]) == 1, 'replaced once')
