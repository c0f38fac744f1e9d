"""C07 Repeated rows and cells are expanded to the grid they denote."""
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import snapshot, inner_table, own, TABLE_MODULES
from ezodf.conf import config
from ezodf import Table
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('tables of 1..3 rows of 0..3 cells and 0..3 columns, also inside header and group elements, repetition counts '
          '1..4 (thorough: 1..6) or absent on every cell, row and column, all three strategies, maxcount 1..5 for rows '
          'and columns, cells with text, values, a table or covered'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['repetition counts are positive integers, as the ODF schema demands']

STRATEGIES = ('all', 'all_but_last', 'all_less_maxcount')
RC, RR = CN('table:number-columns-repeated'), CN('table:number-rows-repeated')


def strategy(ctx, name):
    if name == 'all_less_maxcount':
        maxcount = (ctx.int('maxrows', 1, 5), ctx.int('maxcols', 1, 5))
        config.set_table_expand_strategy(name, maxcount)
    else:
        maxcount = None
        config.set_table_expand_strategy(name)
    ctx.cleanup(config.reset_table_expand_strategy)
    return maxcount


def repeat(ctx, name, node, attr, hi):
    """a free repetition count on node"""
    n = ctx.int(name, 1, hi)
    if ctx.choice(name + '?', [True, False]):
        node.set(attr, ctx.sxstr(n))
        return n
    return 1


def copies(ctx, n, name, last, limit):
    """how many copies the strategy keeps of something repeated n times"""
    n = ctx.fork(n)
    if name == 'all':
        return n
    if name == 'all_but_last':
        return 1 if last else n
    return n if n < ctx.fork(limit) else 1


def make_cell(lab, kind):
    e = etree.Element(CN('table:covered-table-cell' if kind == 'covered' else 'table:table-cell'))
    if kind != 'empty':
        e.set(CN('table:style-name'), lab)
    if kind == 'text':
        e.set(CN('office:value-type'), 'string')
        p = etree.SubElement(e, CN('text:p'))
        p.text = 'text'
        s = etree.SubElement(p, CN('text:span'))
        s.text = lab
        s.tail = 'tail'
    return e


KINDS = ('text', 'empty', 'covered')


def clean(snap):
    """a snapshot without repetition attributes"""
    return [snap[0], snap[1], snap[2], [kv for kv in snap[3] if kv[0] not in (RC, RR)], [clean(c) for c in snap[4]]]


EMPTY = [CN('table:table-cell'), None, None, [], []]


def expected_rows(ctx, spec, name, maxcount):
    rows = []
    for i, (cells, n) in enumerate(spec):
        row = []
        for j, (snap, k) in enumerate(cells):
            for _ in range(copies(ctx, k, name, j == len(cells) - 1, maxcount and maxcount[1])):
                row.append(snap)
        for _ in range(copies(ctx, n, name, i == len(spec) - 1, maxcount and maxcount[0])):
            rows.append(list(row))
    width = max([len(r) for r in rows]) if rows else 0
    for row in rows:
        while len(row) < width:
            row.append(EMPTY)
    return rows


def check_grid(ctx, table, rows):
    width = len(rows[0]) if rows else 0
    ctx.check(table.nrows() == len(rows), 'nrows')
    ctx.check(table.ncols() == width, 'ncols')
    seen = []
    for r in range(len(rows)):
        got = table.row(r)
        ctx.check(len(got) == width, 'all rows have equal length')
        for c in range(width):
            node = got[c].xmlnode
            ctx.check(clean(snapshot(node)) == rows[r][c], 'cell of the expanded grid')
            ctx.check(not any(node is s for s in seen), 'cells are independent')
            seen.append(node)
    for e in table.xmlnode.iter():
        for a in (RC, RR):
            v = e.get(a)
            ctx.check(v is None or v == '1', 'no repetition is left')


def build(ctx, shape, hi, where):
    """table with rows of the given numbers of cells; returns (node, spec)"""
    t = etree.Element(CN('table:table'))
    t.set(CN('table:name'), 'T')
    spec = []
    target = t
    for i, ncells in enumerate(shape):
        if where == 'header' and i == 0:
            target = etree.SubElement(t, CN('table:table-header-rows'))
        elif where == 'group' and i == 0:
            target = etree.SubElement(etree.SubElement(t, CN('table:table-row-group')), CN('table:table-rows'))
        elif where != 'plain' and i == 1:
            target = t
        row = etree.SubElement(target, CN('table:table-row'))
        n = repeat(ctx, 'row%d' % i, row, RR, hi)
        cells = []
        for j in range(ncells):
            cell = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            snap = clean(snapshot(cell))
            cells.append((snap, repeat(ctx, 'cell%d_%d' % (i, j), cell, RC, hi)))
            row.append(cell)
        spec.append((cells, n))
    return t, spec


@case('C07', quick=[{'name': s, 'shape': sh, 'where': w} for s in STRATEGIES for sh, w in
                    (((1,), 'plain'), ((2,), 'plain'), ((1, 1), 'header'), ((0, 1), 'plain'))],
      thorough=[{'name': s, 'shape': sh, 'where': w, 'hi': 4} for s in STRATEGIES for sh, w in
                (((3,), 'plain'), ((1, 1), 'group'), ((2, 1), 'header'), ((1, 2), 'plain'), ((1, 1, 1), 'header'), ((0, 2), 'plain'))])
def grid(ctx, name, shape, where, hi=3):
    maxcount = strategy(ctx, name)
    node, spec = build(ctx, shape, hi, where)
    table = wrap(node)
    rows = expected_rows(ctx, spec, name, maxcount)
    check_grid(ctx, table, rows)
    if rows and rows[0]:
        # writing one copy leaves the others alone
        table[0, 0].set_value('changed')
        for r in range(len(rows)):
            for c in range(len(rows[0])):
                if (r, c) != (0, 0):
                    ctx.check(clean(snapshot(table[r, c].xmlnode)) == rows[r][c], 'copies are independent')
    ctx.observe(table.nrows(), table.ncols())


@case('C07', quick=[{'name': s} for s in STRATEGIES])
def wide(ctx, name):
    """one free count up to 8 in the first, a middle or the last place"""
    maxcount = strategy(ctx, name)
    at = ctx.choice('at', ['row0', 'row1', 'row2', 'cell0', 'cell1', 'cell2'])
    t = etree.Element(CN('table:table'))
    n = ctx.int('n', 1, 8)
    spec = []
    for i in range(3):
        row = etree.SubElement(t, CN('table:table-row'))
        if at == 'row%d' % i:
            row.set(RR, ctx.sxstr(n))
        cells = []
        for j in range(3):
            cell = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            k = 1
            if i == 1 and at == 'cell%d' % j:
                cell.set(RC, ctx.sxstr(n))
                k = n
            row.append(cell)
            c2 = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            cells.append((snapshot(c2), k))
        spec.append((cells, n if at == 'row%d' % i else 1))
    table = wrap(t)
    check_grid(ctx, table, expected_rows(ctx, spec, name, maxcount))


@case('C07', quick=[{'name': s, 'ncols': n} for s in STRATEGIES for n in (0, 1, 2)],
      thorough=[{'name': s, 'ncols': n, 'hi': 6} for s in STRATEGIES for n in (0, 1, 2, 3)])
def columns(ctx, name, ncols, hi=4):
    """column infos are expanded by the same rules"""
    maxcount = strategy(ctx, name)
    t = etree.Element(CN('table:table'))
    target = t
    if ncols and ctx.choice('header', [False, True]):
        target = etree.SubElement(t, CN('table:table-header-columns'))
    spec = []
    for j in range(ncols):
        col = etree.SubElement(target, CN('table:table-column'))
        col.set(CN('table:style-name'), 'k%d' % j)
        spec.append(('k%d' % j, repeat(ctx, 'col%d' % j, col, RC, hi)))
        target = t
    row = etree.SubElement(t, CN('table:table-row'))
    for j in range(2):
        row.append(make_cell('c%d' % j, 'text'))
    table = wrap(t)
    want = []
    for j, (lab, n) in enumerate(spec):
        for _ in range(copies(ctx, n, name, j == len(spec) - 1, maxcount and maxcount[1])):
            want.append(lab)
    while len(want) < 2:
        want.append(None)
    ctx.check([e.get(CN('table:style-name')) for e in t.iter(CN('table:table-column'))] == want, 'column infos')
    for i in range(2):
        ctx.check(table.column_info(i).style_name == want[i], 'column info')
    for e in t.iter():
        ctx.check(e.get(RC) in (None, '1'), 'no repetition is left')


@case('C07')
def ragged(ctx):
    """rows of different length are padded on the right; nothing else changes"""
    name = ctx.choice('name', STRATEGIES)
    strategy(ctx, name)
    t = etree.Element(CN('table:table'))
    lens = [ctx.int('len%d' % i, 0, 3) for i in range(3)]
    rows = []
    for i in range(3):
        row = etree.SubElement(t, CN('table:table-row'))
        snaps = []
        for j in range(ctx.fork(lens[i])):
            cell = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            row.append(cell)
            snaps.append(snapshot(cell))
        rows.append(snaps)
    width = max(len(r) for r in rows)
    for r in rows:
        while len(r) < width:
            r.append(EMPTY)
    check_grid(ctx, wrap(t), rows)


def plain(snap):
    """without the repetition attributes of the element itself"""
    return snap[:3] + [[kv for kv in snap[3] if kv[0] not in (RC, RR)], snap[4]]


@case('C07', quick=[{'name': s} for s in STRATEGIES])
def nested(ctx, name):
    """a table in a cell belongs to the content of this cell"""
    maxcount = None
    if name == 'all_less_maxcount':
        maxcount = ctx.choice('maxcount', ((2, 2), (3, 2), (9, 9)))
    config.set_table_expand_strategy(name, *((maxcount,) if maxcount else ()))
    ctx.cleanup(config.reset_table_expand_strategy)
    deep = ctx.bool('deep')
    at = (ctx.choice('at row', (0, 1)), ctx.choice('at col', (0, 1)))
    t = etree.Element(CN('table:table'))
    col = etree.SubElement(t, CN('table:table-column'))
    ncols = ctx.choice('infos', (1, 3))
    col.set(RC, str(ncols))
    col.set(CN('table:style-name'), 'k')
    spec = []
    for i in range(2):
        row = etree.SubElement(t, CN('table:table-row'))
        n = repeat(ctx, 'row', row, RR, 2) if i == 0 else 1
        cells = []
        for j in range(2 - i):
            cell = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            if (i, j) == at:
                cell.append(inner_table(deep))
            snap = snapshot(cell)
            cells.append((snap, repeat(ctx, 'cell', cell, RC, 3) if (i, j) == at else 1))
            row.append(cell)
        spec.append((cells, n))
    inner = [e for e in t.iter(CN('table:table')) if e is not t]
    kept = snapshot(inner[0]) if inner else None
    table = wrap(t)
    rows = expected_rows(ctx, spec, name, maxcount)
    ctx.check((table.nrows(), table.ncols()) == (len(rows), len(rows[0])), 'size')
    ctx.check([[plain(snapshot(c.xmlnode)) for c in r] for r in table.rows()] == rows, 'cells of the expanded grid')
    left = [e.get(a) for r in own(t, CN('table:table-row')) for e in [r] + list(r) for a in (RC, RR)]
    ctx.check(all([x in (None, '1') for x in left]), 'no repetition is left')
    ncols = max(copies(ctx, ncols, name, True, maxcount and maxcount[1]), len(rows[0]))
    left = [e.get(RC) for e in own(t, CN('table:table-column'))]
    ctx.check(len(left) == ncols and all([x in (None, '1') for x in left]), 'column infos')
    inner = [e for e in t.iter(CN('table:table')) if e is not t]
    ctx.check(all([snapshot(e) == kept for e in inner]), 'the inner tables are unchanged')
    if inner:
        before = [plain(snapshot(c.xmlnode)) for c in table.row(len(rows) - 1)] if at[0] == 0 else []
        sub = wrap(inner[0])
        r, c = (3, 3) if name == 'all' or name == 'all_less_maxcount' and maxcount[0] > 2 and maxcount[1] > 2 else (sub.nrows(), sub.ncols())
        ctx.check((sub.nrows(), sub.ncols()) == (r, c) and 2 <= r <= 3 and 2 <= c <= 3, 'size of the inner table')
        sub.append_rows(1)
        sub.append_columns(2)
        ctx.check((table.nrows(), table.ncols()) == (len(rows), len(rows[0])), 'editing the inner table')
        again = wrap(t)
        ctx.check((again.nrows(), again.ncols()) == (len(rows), len(rows[0])), 'editing the inner table')
        ctx.check([plain(snapshot(c.xmlnode)) for c in table.row(len(rows) - 1)] == before or at[0] != 0, 'other copies')


@case('C07')
def unknown_strategy(ctx):
    s = ctx.text('s', 3, ((97, 122), (95, 95)))
    ctx.assume(s != 'all')
    config.set_table_expand_strategy(s)
    ctx.cleanup(config.reset_table_expand_strategy)
    t = etree.Element(CN('table:table'))
    row = etree.SubElement(t, CN('table:table-row'))
    row.set(RR, '3')
    row.append(make_cell('c', 'text'))
    before = snapshot(t)
    res, exc = attempt(wrap, t)
    ctx.check(isinstance(exc, TypeError), 'unknown strategy accepted')
    ctx.check(snapshot(t) == before, 'rejected table unchanged')
    config.reset_table_expand_strategy()
    ctx.check(config.table_expand_strategy.get_strategy() == 'all_less_maxcount', 'default strategy')
    ctx.check(config.table_expand_strategy.get_maxcount() == (32, 32), 'default maxcount')
    ctx.check(wrap(t).nrows() == 3, 'default strategy expands')


@case('C07', quick=[{'name': s} for s in STRATEGIES + ('default',)])
def constants(ctx, name):
    """counts around the default limit and the integer constants of the code"""
    if name == 'default':
        config.reset_table_expand_strategy()
        name, maxcount = 'all_less_maxcount', (32, 32)
    else:
        maxcount = None
        if name == 'all_less_maxcount':
            maxcount = (ctx.choice('maxrows', (2, 40)), ctx.choice('maxcols', (2, 40)))
        config.set_table_expand_strategy(name, *((maxcount,) if maxcount else ()))
        ctx.cleanup(config.reset_table_expand_strategy)
    n = ctx.choice('n', tuple(sorted(set([16, 31, 32, 33, 39, 40, 41, 70] + literals.ints(TABLE_MODULES, 8, 300)))))
    t = etree.Element(CN('table:table'))
    where = ctx.choice('where', ('row', 'last row', 'cell', 'last cell', 'both'))
    spec = []
    for i in range(2):
        row = etree.SubElement(t, CN('table:table-row'))
        k = 1
        if (where, i) in (('row', 0), ('last row', 1), ('both', 0)):
            row.set(RR, str(n))
            k = n
        cells = []
        for j in range(2):
            cell = make_cell('c%d_%d' % (i, j), KINDS[(i + j) % 3])
            snap = snapshot(cell)
            c = 1
            if i == 0 and (where, j) in (('cell', 0), ('last cell', 1)) or i == 1 and where == 'both' and j == 0:
                c = n
                cell.set(RC, str(n))
            row.append(cell)
            cells.append((snap, c))
        spec.append((cells, k))
    table = wrap(t)
    rows = expected_rows(ctx, spec, name, maxcount)
    ctx.check(table.nrows() == len(rows) and table.ncols() == len(rows[0]), 'size')
    got = [[c.xmlnode for c in r] for r in table.rows()]
    ctx.check([[clean(snapshot(c)) for c in r] for r in got] == rows, 'cells of the expanded grid')
    ctx.check(len(set([id(c) for r in got for c in r])) == len(rows) * len(rows[0]), 'cells are independent')
