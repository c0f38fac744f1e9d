"""C04 Spreadsheet references map one-to-one to (row, column) positions."""
from symex.api import case
from harness.util import attempt
from harness.tabmodel import snapshot
from ezodf.tableutils import address_to_index, get_cell_index
from ezodf import Table, Cell

BOUNDS = ('column names: every string of 1..4 (thorough 6) letters in either case; row numbers: every decimal '
          'string of 1..7 (thorough 10) digits without leading zero; other strings: every XML string of up to 4 '
          '(thorough 6) characters (all of Unicode except the code points U+E000..U+E00F used by the engine); '
          'table methods: every position of a 2x2 table')
ASSUMPTIONS = ['row numbers with leading zeros may be accepted or rejected']

UPPER = ((65, 90),)
LETTER = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
ANY = ((0, 0xD7FF), (0xE010, 0x10FFFF))


def colval(ctx, name):
    """bijective base 26, letters in either case"""
    v = 0
    for ch in name:
        o = ord(ch)
        v = v * 26 + ctx.ite(o >= 97, o - 96, o - 64)
    return v - 1


def rowval(digits):
    v = 0
    for ch in digits:
        v = v * 10 + (ord(ch) - 48)
    return v - 1


@case('C04', quick=[{'n': i} for i in (1, 2, 3, 4)], thorough=[{'n': i} for i in range(1, 7)])
def valid_reference(ctx, n):
    col = ctx.text('col', n, LETTER, n)
    row = ctx.text('row', ctx.q(7, 10), DIGIT, 1)
    ctx.assume(row[0] != '0')
    ref = col + row
    r, c = address_to_index(ref)
    ctx.observe(r, c)
    ctx.check(r == rowval(row), 'row number')
    ctx.check(c == colval(ctx, col), 'column of a reference')
    pos = get_cell_index(ref)
    ctx.check(ctx.all([pos[0] == r, pos[1] == c]), 'reference and tuple agree')


@case('C04', quick=[{'n': 1, 'm': 1}, {'n': 1, 'm': 2}, {'n': 2, 'm': 2}, {'n': 2, 'm': 3}],
      thorough=[{'n': a, 'm': b} for a in range(1, 6) for b in range(a, 6)])
def injective(ctx, n, m):
    a = ctx.text('a', n, UPPER, n)
    b = ctx.text('b', m, UPPER, m)
    ra = ctx.text('ra', 3, DIGIT, 1)
    rb = ctx.text('rb', 3, DIGIT, 1)
    ctx.assume(ctx.all([ra[0] != '0', rb[0] != '0']))
    pa, pb = address_to_index(a + ra), address_to_index(b + rb)
    same = ctx.eq(a + ra, b + rb)
    ctx.check(ctx.implies(ctx.all([pa[0] == pb[0], pa[1] == pb[1]]), same), 'different references, same position')
    ctx.check(ctx.implies(same, ctx.all([pa[0] == pb[0], pa[1] == pb[1]])), 'same reference, different position')


@case('C04')
def any_string(ctx):
    s = ctx.text('s', ctx.q(4, 6), ANY)
    # the grammar: letters, then digits denoting a number >= 1
    i = 0
    while i < len(s) and ctx.fork(ctx.any([ctx.all([s[i] >= 'A', s[i] <= 'Z']), ctx.all([s[i] >= 'a', s[i] <= 'z'])])):
        i += 1
    k = i
    while k < len(s) and ctx.fork(ctx.all([s[k] >= '0', s[k] <= '9'])):
        k += 1
    wellformed = i > 0 and k > i and k == len(s)
    if wellformed:
        positive = ctx.fork(ctx.any([x != '0' for x in s[i:]]))
    res, exc = attempt(address_to_index, s)
    res2, exc2 = attempt(get_cell_index, s)
    ctx.observe(res, type(exc).__name__)
    if wellformed and positive:
        if ctx.fork(s[i] == '0') and exc is not None:
            ctx.check(isinstance(exc, ValueError), 'leading zero: value or ValueError')
            return
        ctx.check(exc is None, 'valid reference rejected')
        ctx.check(ctx.all([res[0] == rowval(s[i:]), res[1] == colval(ctx, s[:i])]), 'position of a reference')
        ctx.reach('accepted')
    else:
        ctx.check(exc is not None and isinstance(exc, ValueError), 'malformed reference not rejected with ValueError')
        ctx.check(exc2 is not None and isinstance(exc2, ValueError), 'malformed reference not rejected by get_cell_index')
        ctx.reach('rejected')


@case('C04')
def get_cell_index_tuple(ctx):
    r = ctx.int('r', -10 ** 9, 10 ** 9)
    c = ctx.int('c', -10 ** 9, 10 ** 9)
    p = get_cell_index((r, c))
    ctx.check(ctx.all([p[0] == r, p[1] == c]), 'tuple passes through')


METHODS = {
    'get': lambda t, pos, idx: t[pos],
    'set': lambda t, pos, idx: t.__setitem__(pos, Cell('new')),
    'span': lambda t, pos, idx: t.set_cell_span(pos, (2, 2)),
    'unspan': lambda t, pos, idx: t.remove_cell_span(pos),
    'row': lambda t, pos, idx: t.row(pos if idx is None else idx[0]),
    'column': lambda t, pos, idx: t.column(pos if idx is None else idx[1]),
    'rowinfo': lambda t, pos, idx: t.row_info(pos if idx is None else idx[0]),
    'colinfo': lambda t, pos, idx: t.column_info(pos if idx is None else idx[1]),
}


def outcome(value):
    if isinstance(value, list):
        return [outcome(v) for v in value]
    return None if value is None else value.xmlnode.get('mark')


@case('C04', quick=[{'op': o} for o in sorted(METHODS)])
def anywhere(ctx, op):
    """a reference does what the tuple does, inside and outside of the table"""
    n, m = ctx.choice('size', ((2, 3), (3, 2), (1, 1)))
    two = []
    spanned = min(n, m) > 1 and ctx.bool('spanned')
    for i in range(2):
        t = Table('T', size=(n, m))
        for r in range(n):
            t.row_info(r).xmlnode.set('mark', 'r%d' % r)
            for c in range(m):
                t.get_cell((r, c)).xmlnode.set('mark', '%d.%d' % (r, c))
        for c in range(m):
            t.column_info(c).xmlnode.set('mark', 'c%d' % c)
        if spanned:
            t.set_cell_span((0, 0), (2, 2))
        two.append(t)
    r = ctx.int('r', 0, 10)
    col = ctx.text('col', 2, LETTER, 1)
    c = colval(ctx, col)
    ref = col + ctx.sxstr(r + 1)
    a, exc = attempt(METHODS[op], two[0], ref, None)
    b, exc2 = attempt(METHODS[op], two[1], (r, c), (r, c))
    ctx.check(type(exc) is type(exc2), 'a reference is accepted where the tuple is')
    ctx.check(outcome(a) == outcome(b), 'the same cells')
    ctx.check(ctx.eq(snapshot(two[0].xmlnode), snapshot(two[1].xmlnode)), 'the same effect')
    ctx.reach('inside' if exc is None else 'outside')


@case('C04', quick=[{'op': o} for o in ('get', 'set', 'span', 'unspan', 'row', 'column', 'rowinfo', 'colinfo')])
def table_methods(ctx, op):
    """a reference and the tuple reach the same cell"""
    n, m = 3, 28
    rows = ctx.int('r', 0, n - 1)
    cols = ctx.int('c', 0, m - 1)
    lower = ctx.bool('lower')
    t = Table('T', size=(n, m))
    for i in range(n):
        for j in range(m):
            t.get_cell((i, j)).xmlnode.set('mark', '%d.%d' % (i, j))
    r = ctx.fork(rows)
    c = ctx.fork(cols)
    # independent construction of the name
    name = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[c] if c < 26 else 'A' + 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[c - 26]
    if ctx.fork(lower):
        name = name.lower()
    ref = name + str(r + 1)
    want = '%d.%d' % (r, c)
    if op == 'get':
        ctx.check(t[ref].get_attr('mark') == want, 'table[ref]')
        ctx.check(t[(r, c)].get_attr('mark') == want, 'table[tuple]')
    elif op == 'set':
        cell = Cell('new')
        t[ref] = cell
        ctx.check(t.get_cell((r, c)).value == 'new', 'table[ref] = cell')
        cell = Cell('other')
        t[(r, c)] = cell
        ctx.check(t[ref].value == 'other', 'table[tuple] = cell')
    elif op == 'span':
        if r == n - 1 or c == m - 1:
            return
        t.set_cell_span(ref, (2, 2))
        ctx.check(t.get_cell((r, c)).span == (2, 2), 'set_cell_span(ref)')
    elif op == 'unspan':
        if r == n - 1 or c == m - 1:
            return
        t.set_cell_span((r, c), (2, 2))
        t.remove_cell_span(ref)
        ctx.check(t.get_cell((r, c)).span == (1, 1), 'remove_cell_span(ref)')
    elif op == 'row':
        ctx.check([x.get_attr('mark') for x in t.row(ref)] == ['%d.%d' % (r, j) for j in range(m)], 'row(ref)')
    elif op == 'column':
        ctx.check([x.get_attr('mark') for x in t.column(ref)] == ['%d.%d' % (i, c) for i in range(n)], 'column(ref)')
    elif op == 'rowinfo':
        ctx.check(t.row_info(ref).xmlnode is t.row_info(r).xmlnode, 'row_info(ref)')
    else:
        ctx.check(t.column_info(ref).xmlnode is t.column_info(c).xmlnode, 'column_info(ref)')
