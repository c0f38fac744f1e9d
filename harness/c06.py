"""C06 A rejected table operation leaves the table exactly as it was."""
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import table_node, snapshot, long_sides
from ezodf import Table, Cell, Paragraph
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('tables of 1..3 x 1..3 cells (loaded; header rows, groups, fewer column infos; a span in one of them), every '
          'operation with indices and positions within +-(n+4), counts -2..n+3, sizes -1..4, wrong objects, references '
          'of up to 3 arbitrary characters, before or after one accepted edit'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['tables as for C05']

OPS = ('insert_rows', 'append_rows', 'delete_rows', 'insert_columns', 'append_columns', 'delete_columns')
ALL = OPS + ('set', 'get', 'reset', 'span', 'unspan', 'ref', 'wrongtype', 'info')
ANY = ((0, 0xD7FF), (0xE010, 0x10FFFF))


def make(size, layout):
    table = wrap(table_node(size[0], size[1], 'plain' if layout in ('span', 'fewcols', 'morecols') else layout,
                            1 if layout == 'fewcols' else size[1] + 1 if layout == 'morecols' else None))
    if layout == 'span':
        table.set_cell_span((0, 0), (min(2, size[0]), min(2, size[1])))
    if layout == 'nested':
        # reading the cells opens the inner tables, which expands them
        view(table)
    return table


def view(table):
    nr, nc = table.nrows(), table.ncols()
    return [nr, nc, snapshot(table.xmlnode),
            [[snapshot(c.xmlnode) for c in table.row(r)] for r in range(nr)],
            [[(c.span, c.covered, c.value) for c in table.row(r)] for r in range(nr)],
            [snapshot(table.row_info(r).xmlnode) for r in range(nr)],
            [snapshot(table.column_info(c).xmlnode) for c in range(nc)]]


def invalid(ctx, table, op):
    """a call of op that has to be rejected; None if there is none"""
    nr, nc = table.nrows(), table.ncols()
    if op in OPS:
        n = nr if 'rows' in op else nc
        index = ctx.int('index', -n - 4, n + 4)
        count = ctx.int('count', -2, n + 3)
        if op.startswith('append'):
            ctx.assume(count < 1)
            return getattr(table, op), (count,)
        if op.startswith('insert'):
            ctx.assume(ctx.any([count < 1, index < -n, index >= n]))
        else:
            ctx.assume(ctx.any([count < 1, index < -n, index >= n, count >= n, ctx.all([index >= 0, index + count > n]),
                                ctx.all([index < 0, index + count > 0])]))
        return getattr(table, op), (index, count)
    if op in ('set', 'get'):
        r = ctx.int('row', -nr - 4, nr + 4)
        c = ctx.int('col', -nc - 4, nc + 4)
        ctx.assume(ctx.any([r < -nr, r >= nr, c < -nc, c >= nc]))
        if op == 'get':
            return table.get_cell, ((r, c),)
        return table.set_cell, ((r, c), Cell('new'))
    if op == 'reset':
        kind = ctx.choice('kind', ['ints', 'str', 'float', 'none', 'one', 'strings'])
        if kind == 'ints':
            r = ctx.int('row', -1, 4)
            c = ctx.int('col', -1, 4)
            ctx.assume(ctx.any([r < 1, c < 1]))
            return table.reset, ((r, c),)
        return table.reset, ({'str': 'ab', 'float': (2.5, 1), 'none': None, 'one': (2,), 'strings': (2, 'b')}[kind],)
    if op == 'span':
        r = ctx.int('row', -2, nr + 1)
        c = ctx.int('col', -2, nc + 1)
        h = ctx.int('h', -1, nr + 1)
        w = ctx.int('w', -1, nc + 1)
        ctx.assume(ctx.any([r < 0, c < 0, h < 1, w < 1, r + h > nr, c + w > nc]))
        return table.set_cell_span, ((r, c), (h, w))
    if op == 'unspan':
        r = ctx.int('row', -nr - 3, nr + 3)
        c = ctx.int('col', -nc - 3, nc + 3)
        ctx.assume(ctx.any([r < -nr, r >= nr, c < -nc, c >= nc]))
        return table.remove_cell_span, ((r, c),)
    if op == 'info':
        what = ctx.choice('what', ['row', 'column', 'row_info', 'column_info'])
        n = nr if what.startswith('row') else nc
        i = ctx.int('index', -n - 4, n + 4)
        ctx.assume(ctx.any([i < -n, i >= n]))
        return getattr(table, what), (i,)
    if op == 'ref':
        ref = ctx.choice('ref', ['', '1', 'A', 'A0', '$A$1', 'A1:B2', '1A', ' A1', 'A 1', 'A1\n', 'a-1', 'Z1', 'A99', 'ZZ99'])
        what = ctx.choice('what', ['set', 'get', 'span', 'unspan', 'row', 'column_info'])
        if what == 'row' and ref == 'Z1' or what == 'column_info' and ref == 'A99':
            return None
        if what == 'set':
            return table.__setitem__, (ref, Cell('new'))
        if what == 'get':
            return table.__getitem__, (ref,)
        if what == 'span':
            return table.set_cell_span, (ref, (1, 2))
        if what == 'unspan':
            return table.remove_cell_span, (ref,)
        return getattr(table, what), (ref,)
    what = ctx.choice('what', ['set', 'setstr', 'setrow', 'rows', 'cols', 'count', 'poslist', 'posthree', 'spansize', 'none'])
    if what == 'set':
        return table.set_cell, ((0, 0), Paragraph('x'))
    if what == 'setstr':
        return table.set_cell, ((0, 0), 'text')
    if what == 'setrow':
        return table.__setitem__, ('A1', Table('t', size=(1, 1)))
    if what == 'rows':
        return table.insert_rows, ('1', 1)
    if what == 'cols':
        return table.insert_columns, ('1', 1)
    if what == 'count':
        return getattr(table, ctx.choice('op', OPS[1::3])), ('2',)
    if what == 'poslist':
        return table.__setitem__, ([0, 0], Cell('new'))
    if what == 'posthree':
        return table.set_cell, ((0, 0, 0), Cell('new'))
    if what == 'spansize':
        return table.set_cell_span, ((0, 0), (2,))
    return table.set_cell, (None, Cell('new'))


def run(ctx, table, op):
    call = invalid(ctx, table, op)
    if call is None:
        return
    before = view(table)
    res, exc = attempt(call[0], *call[1])
    ctx.check(exc is not None, 'an invalid call was accepted')
    ctx.reach('rejected')
    ctx.check(ctx.eq(view(table), before), 'a rejected operation changed the table')
    ctx.observe(type(exc).__name__)


SIZES = ((1, 1), (2, 2), (1, 3), (3, 2))


@case('C06', quick=[{'op': op, 'layout': l, 'size': s} for op in ALL for l, s in
                    (('plain', (1, 1)), ('header', (2, 2)), ('span', (2, 3)), ('fewcols', (3, 2)))],
      thorough=[{'op': op, 'layout': l, 'size': s} for op in ALL for l in ('plain', 'header', 'group', 'mixed', 'span', 'fewcols')
                for s in SIZES + ((3, 3), (2, 3))], covers=('rejected',))
def rejected(ctx, op, layout, size):
    run(ctx, make(size, layout), op)


@case('C06', quick=[{'op': op} for op in ('insert_rows', 'delete_rows', 'insert_columns', 'delete_columns', 'set', 'info')],
      thorough=[{'op': op, 'edit': e} for op in ALL for e in OPS + ('set',)])
def after_an_edit(ctx, op, edit=None):
    table = make((2, 2), 'mixed')
    edit = ctx.choice('edit', OPS + ('set',)) if edit is None else edit
    if edit == 'set':
        table[1, 1] = table[0, 0]
    elif edit.startswith('append'):
        getattr(table, edit)(1)
    else:
        getattr(table, edit)(ctx.choice('at', [0, 1]), 1)
    run(ctx, table, op)


@case('C06')
def overlap(ctx):
    """requests that touch a spanning or covered cell are rejected as a whole"""
    table = make((3, 3), 'plain')
    table.set_cell_span((1, 1), (2, 2))
    r = ctx.int('row', 0, 2)
    c = ctx.int('col', 0, 2)
    h = ctx.int('h', 1, 3)
    w = ctx.int('w', 1, 3)
    ctx.assume(ctx.all([r + h <= 3, c + w <= 3, r + h > 1, c + w > 1]))
    before = view(table)
    res, exc = attempt(table.set_cell_span, (r, c), (h, w))
    ctx.check(exc is not None, 'overlapping span accepted')
    ctx.check(ctx.eq(view(table), before), 'a rejected span changed the table')


@case('C06', quick=[{'op': op} for op in OPS + ('set', 'get', 'span', 'info')])
def larger(ctx, op):
    """bigger tables, numbers around the integer constants of the code"""
    size = (5, 6)
    table = make(size, ctx.choice('layout', ('mixed', 'span', 'nested', 'morecols')))
    run(ctx, table, op)


@case('C06', quick=[{'op': op} for op in OPS])
def constants(ctx, op):
    """one argument far outside or at an integer constant of the code"""
    side = ctx.choice('side', tuple(long_sides(30) or [9]))
    rows = 'rows' in op
    table = wrap(table_node(side if rows else 1, 1 if rows else side, 'plain'))
    far = sorted(set([side - 1, side, side + 1, 2 * side, 1000, 10 ** 6] + long_sides(2000)))
    before = snapshot(table.xmlnode)
    if op.startswith('append'):
        args = (-ctx.choice('count', tuple(far)),)
    elif op.startswith('insert'):
        if ctx.bool('wrong count'):
            args = (0, -ctx.choice('count', tuple(far)))
        else:
            i = ctx.choice('index', tuple([k for k in far if k >= side]))
            args = (-i - 1 if ctx.bool('negative') else i, 1)
    else:
        # everything from a start on, and more
        start = ctx.choice('start', (0, 1, side // 2, side - 1))
        count = ctx.choice('count', tuple([k for k in far if start + k > side or k == side]))
        args = (start, count)
    res, exc = attempt(getattr(table, op), *args)
    ctx.check(exc is not None, 'an invalid call was accepted')
    ctx.check(snapshot(table.xmlnode) == before and table.nrows() == (side if rows else 1) and table.ncols() == (1 if rows else side),
              'a rejected operation changed the table')
