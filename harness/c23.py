"""C23 A sheet has one handle, and copies are independent of the original."""
import gc
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from harness.tabmodel import table_node, snapshot, cell_node
from ezodf import Table, Cell, Sheet
from ezodf.sheets import Sheets
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('documents with 3 sheets with free names of 1 character, sequences of accesses by every way (index, name, iteration, body child, findall, '
          'second container) interleaved with 1 (thorough: 2) edits (insert and delete rows, columns, rename, remove, append, '
          'insert, replace, move); copies of tables of 2x2 with 4 row layouts, spans, '
          'with free names of up to 3 characters; every edit at every position, free texts of 2 characters'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a sheet that is copied has a name', 'nobody calls wrapcache.clear/remove or the Table constructor for a loaded element']


def handles(body, sheets, how, i, ctx, names):
    """the sheet i by another way"""
    if how == 'index':
        return sheets[i]
    if how == 'negative':
        return sheets[i - len(sheets)]
    if how == 'name':
        # the first one with that name
        for k in range(i):
            if names[k] == names[i]:
                return None
        return sheets[names[i]]
    if how == 'iter':
        return list(sheets)[i]
    if how == 'child':
        return [c for c in body if c.xmlnode.tag == CN('table:table')][i]
    if how == 'findall':
        return list(body.findall(CN('table:table')))[i]
    if how == 'get_child':
        at = [k for k in range(len(body)) if body.xmlnode[k].tag == CN('table:table')]
        return body.get_child(at[i])
    if how == 'other':
        return Sheets(body.xmlnode)[i]
    if how == 'find':
        return body.find(CN('table:table')) if i == 0 else None
    if how == 'wrap':
        return wrap(sheets.xmlnode.findall(CN('table:table'))[i])


WAYS = ('index', 'negative', 'name', 'iter', 'child', 'findall', 'get_child', 'other', 'find', 'wrap')
FIRST = ('index', 'name', 'iter', 'child', 'findall', 'wrap')
EDITS = ('insert_rows', 'delete_rows', 'append_columns', 'rename', 'remove', 'append', 'insert', 'replace', 'move', 'reset')


def tag_of(node):
    """a mark on the element that identifies the sheet"""
    return node.get(CN('table:style-name'))


def document(ctx):
    body = etree.Element(CN('office:spreadsheet'))
    names = []
    for i in range(3):
        t = table_node(2, 2)
        t.set(CN('table:style-name'), 'm%d' % i)
        names.append(ctx.text('name%d' % i, 1, ((0x41, 0x7A),), 1) if i < 2 else 'x')
        t.set(CN('table:name'), names[i])
        body.append(t)
        if i == 0:
            etree.SubElement(body, CN('text:soft-page-break'))
    w = wrap(body)
    return w, w.sheets, names


def verify(ctx, body, sheets, hs, names, sizes, way):
    """hs: list of handles (or None: not accessed yet) in order"""
    ctx.check(len(sheets) == len(hs), 'number of sheets')
    for i in range(len(hs)):
        for how in (way, 'index'):
            got = handles(body, sheets, how, i, ctx, names)
            if got is None:
                continue
            ctx.check(tag_of(got.xmlnode) == sizes[i][2], 'handle of another sheet')
            if hs[i] is None:
                hs[i] = got
            ctx.check(got is hs[i], 'one handle of a sheet')
            ctx.check(got.nrows() == sizes[i][0], 'rows of the sheet')
            ctx.check(got.ncols() == sizes[i][1], 'columns of the sheet')
            ctx.check(ctx.eq(got.name, names[i]), 'name of the sheet')


@case('C23', quick=[{'edit': e, 'n': 1} for e in EDITS], thorough=[{'edit': e, 'n': 2} for e in EDITS])
def one_handle(ctx, edit, n):
    body, sheets, names = document(ctx)
    hs = [None, None, None]
    sizes = [[2, 2, 'm%d' % i] for i in range(3)]
    # first access
    k = 0
    way = ctx.choice('way', FIRST if n == 1 else ('index', 'name', 'child'))
    hs[k] = handles(body, sheets, way, k, ctx, names)
    fresh = 3
    removed = []
    for step in range(n):
        sfx = str(step)
        op = edit if step == 0 else ctx.choice('op' + sfx, EDITS)
        if not hs:
            break
        i = ctx.choice('i' + sfx, tuple(range(len(hs))))
        by = ('index', 'child')[(i + step) % 2]
        target = handles(body, sheets, by, i, ctx, names)
        if hs[i] is None:
            hs[i] = target
        if op == 'insert_rows':
            target.insert_rows(ctx.int('r' + sfx, 0, sizes[i][0] - 1) if sizes[i][0] else 0)
            sizes[i][0] += 1
        elif op == 'delete_rows':
            ctx.assume(sizes[i][0] > 1)
            target.delete_rows(ctx.int('r' + sfx, 0, sizes[i][0] - 1))
            sizes[i][0] -= 1
        elif op == 'append_columns':
            target.append_columns(2)
            sizes[i][1] += 2
        elif op == 'reset':
            target.reset((3, 1))
            sizes[i][:2] = [3, 1]
            # the content is gone, style and all: mark it again
            target.xmlnode.set(CN('table:style-name'), sizes[i][2])
        elif op == 'rename':
            names[i] = ctx.text('new' + sfx, 1, ((0x41, 0x7A),), 1)
            target.name = names[i]
        elif op == 'remove':
            if ctx.bool('byname' + sfx):
                for k2 in range(i):
                    ctx.assume(ctx.not_(ctx.eq(names[k2], names[i])))
                del sheets[names[i]]
            else:
                del sheets[i]
            removed.append(target)
            del hs[i], names[i], sizes[i]
        else:
            if op == 'move':
                j = ctx.choice('j' + sfx, tuple(range(len(hs))))
                ctx.assume(i != j)
                new = target
                sheets.insert(j, new)
                entry = hs.pop(i), names.pop(i), sizes.pop(i)
                if i < j:
                    j -= 1
                hs.insert(j, entry[0])
                names.insert(j, entry[1])
                sizes.insert(j, entry[2])
            else:
                if removed and ctx.bool('again' + sfx):
                    new = removed.pop()
                    size = [new.nrows(), new.ncols(), tag_of(new.xmlnode)]
                    name = new.name
                else:
                    name = ctx.text('nn' + sfx, 1, ((0x41, 0x7A),), 1)
                    new = Sheet(name, size=(1, 3))
                    size = [1, 3, 'm%d' % fresh]
                    new.xmlnode.set(CN('table:style-name'), size[2])
                    fresh += 1
                if op == 'append':
                    sheets.append(new)
                    i = len(hs)
                elif op == 'insert':
                    sheets.insert(i, new)
                else:
                    sheets[i] = new
                    removed.append(target)
                    del hs[i], names[i], sizes[i]
                hs.insert(i, new)
                names.insert(i, name)
                sizes.insert(i, size)
            new = None
        target = None
    verify(ctx, body, sheets, hs, names, sizes, way)
    # an edit through any handle is seen through all
    text = ctx.text('t', 1)
    for i in range(len(hs)):
        for k3 in (0, 3, 6):
            h = handles(body, sheets, WAYS[(k3 + i) % len(WAYS)], i, ctx, names)
            if h is None:
                continue
            h.append_rows(1)
            sizes[i][0] += 1
            rows, cols = sizes[i][:2]
            h[rows - 1, cols - 1].set_value(text)
            h[0, 0].set_value(k3)
            for how in WAYS:
                got = handles(body, sheets, how, i, ctx, names)
                if got is None:
                    continue
                ctx.check(got is hs[i], 'one handle of a sheet')
                ctx.check(got.nrows() == rows and got.ncols() == cols, 'size seen through another access')
                if rows > 1 or cols > 1:
                    ctx.check(ctx.eq(got[rows - 1, cols - 1].value, text), 'value seen through another access')
                ctx.check(got[0, 0].value == k3, 'value in the first row')


def normal(name):
    """documented normalisation of sheet names, plain python on characters"""
    out = ''
    for c in name:
        if c == '\t' or c == '\r' or c == "'" or c == '"':
            out += ' '
        else:
            out += c
    return out.strip()


def nameless(snap):
    tag, text, tail, attrib, kids = snap
    return [tag, text, tail, [(k, v) for k, v in attrib if k != CN('table:name')], kids]


def source(ctx, layout):
    t = table_node(2, 2, layout)
    name = ctx.text('name', 2 if layout == 'plain' else 1, None, 1)
    t.set(CN('table:name'), name)
    t.set(CN('table:protected'), 'true')
    cell = [e for e in t.iter(CN('table:table-cell'))][3]
    cell.set(CN('table:number-columns-repeated'), '1')
    cell.set(CN('table:formula'), '=A1')
    t.tail = None
    return t, name


TABLE_EDITS = ('value', 'text', 'append_text', 'currency', 'formula', 'style', 'insert_rows', 'delete_rows', 'append_rows', 'insert_columns',
               'delete_columns', 'append_columns', 'span', 'set_cell', 'rename', 'protect', 'unprotect', 'reset', 'clear', 'row_info',
               'column_info', 'tablestyle', 'grandchild')


def edit(ctx, t, what, sfx=''):
    r, c = ctx.int('r' + sfx, 0, 1), ctx.int('c' + sfx, 0, 1)
    if what == 'value':
        t[r, c].set_value(ctx.int('v' + sfx, -9, 99))
    elif what == 'text':
        t[r, c].set_value(ctx.text('t' + sfx, 1))
    elif what == 'append_text':
        t[r, c].append_text(ctx.text('t' + sfx, 1))
    elif what == 'currency':
        t[r, c].set_value(5, 'EUR')
    elif what == 'formula':
        t[r, c].formula = 'of:=1'
    elif what == 'style':
        t[r, c].style_name = 's'
    elif what == 'insert_rows':
        t.insert_rows(r)
    elif what == 'delete_rows':
        t.delete_rows(r)
    elif what == 'append_rows':
        t.append_rows(1)
    elif what == 'insert_columns':
        t.insert_columns(c)
    elif what == 'delete_columns':
        t.delete_columns(c)
    elif what == 'append_columns':
        t.append_columns(1)
    elif what == 'span':
        t.set_cell_span((0, 0), (2, 2))
    elif what == 'set_cell':
        t[r, c] = Cell(1)
    elif what == 'rename':
        t.name = 'renamed'
    elif what == 'protect':
        t.protected = True
    elif what == 'unprotect':
        t.protected = False
    elif what == 'reset':
        t.reset((3, 1))
    elif what == 'clear':
        t.clear()
    elif what == 'row_info':
        t.row_info(r).visibility = 'collapse'
    elif what == 'column_info':
        t.column_info(c).style_name = 'wide'
    elif what == 'tablestyle':
        t.style_name = 'z'
    elif what == 'grandchild':
        for e in t.xmlnode.iter(CN('text:p')):
            e.text = 'x'
            e.set('id', '1')


@case('C23', quick=[{'layout': l} for l in ('plain', 'header', 'group', 'mixed')])
def copy_equal(ctx, layout):
    """name and content of a copy"""
    node, name = source(ctx, layout)
    box = None
    if ctx.bool('in document'):
        box = etree.Element(CN('office:spreadsheet'))
        box.append(node)
    t = Table(xmlnode=node)
    before = snapshot(node)
    how = ctx.choice('how', ('default', 'named', 'none'))
    if how == 'named':
        new = ctx.text('new', 3)
        expected = normal(new)
        c, exc = attempt(t.copy, new)
        if expected == '':
            ctx.check(isinstance(exc, ValueError), 'empty names are rejected')
            ctx.check(ctx.eq(snapshot(node), before), 'a rejected copy changes nothing')
            ctx.reach('rejected')
            return
        if exc is not None:
            raise exc
    else:
        expected = normal('CopyOf' + name)
        c = t.copy() if how == 'default' else t.copy(None)
    ctx.check(ctx.eq(c.name, expected), 'name of the copy')
    ctx.check(ctx.eq(t.name, name), 'name of the original')
    ctx.check(ctx.eq(snapshot(node), before), 'copying changes the original')
    ctx.check(ctx.eq(nameless(snapshot(c.xmlnode)), nameless(before)), 'content of the copy')
    ctx.check(c.xmlnode.getparent() is None, 'the copy belongs to no document')
    ctx.check(c is not t and c.xmlnode is not node, 'a copy is another object')
    ctx.check(c.nrows() == 2 and c.ncols() == 2, 'size of the copy')
    if box is not None:
        sheets = wrap(box).sheets
        sheets.append(c)
        ctx.check(len(sheets) == 2 and sheets[1] is c and sheets[0] is t, 'handles of copy and original')
        ctx.check(sheets[0].name is not None and ctx.eq([s.name for s in sheets], [name, expected]), 'names in the document')


@case('C23', quick=[{'what': w} for w in TABLE_EDITS], thorough=[{'what': w, 'second': v} for w in TABLE_EDITS for v in TABLE_EDITS])
def copy_independent(ctx, what, second=None):
    """edits to either never show in the other"""
    node, name = source(ctx, ctx.choice('layout', ('plain', 'header', 'group', 'mixed')) if second is None else 'plain')
    t = Table(xmlnode=node)
    if second is None and what != 'span' and ctx.bool('spanned'):
        t.set_cell_span((0, 0), (1, 2))
    c = t.copy('copy')
    a, b = (t, c) if ctx.bool('edit original') else (c, t)
    b00 = b[0, 0]
    before, values = snapshot(b.xmlnode), [[x.value for x in row] for row in b.rows()]
    mine = snapshot(a.xmlnode)
    cells = [x.xmlnode for row in b.rows() for x in row]
    v, exc = attempt(edit, ctx, a, what)
    if second is not None:
        if ctx.bool('swap'):
            # copies of copies
            a = a.copy('third') if ctx.bool('third') else a
        v, exc2 = attempt(edit, ctx, a, second, '2')
    ctx.check(ctx.eq(snapshot(b.xmlnode), before), 'an edit shows in the other sheet')
    ctx.check(ctx.eq([[x.value for x in row] for row in b.rows()], values), 'values of the other sheet')
    ctx.check(all(x is y for x, y in zip(cells, [x.xmlnode for row in b.rows() for x in row])), 'cells of the other sheet')
    ctx.check(b[0, 0].xmlnode is b00.xmlnode, 'cell of the other sheet')
    if exc is None and second is None and what not in ('clear', 'reset'):
        ctx.observe(a.nrows(), a.ncols())


@case('C23')
def dead_handles(ctx):
    """elements that are gone leave no handles behind that show up for other sheets"""
    seen = []
    for i in range(3):
        body = etree.Element(CN('office:spreadsheet'))
        t = table_node(1, 1 + i % 2)
        t.set(CN('table:name'), 'd%d' % i)
        body.append(t)
        s = wrap(body).sheets
        h = s[0] if ctx.bool('way%d' % i) else s['d%d' % i]
        ctx.check(h.name == 'd%d' % i and h.ncols() == 1 + i % 2, 'handle of a dead sheet')
        ctx.check(not any(h is x for x in seen), 'handle reused')
        if ctx.bool('keep%d' % i):
            seen.append(h)
        if ctx.bool('remove%d' % i):
            del s[0]
        del body, t, s, h
        gc.collect()


MODULES = ('table', 'sheets', 'pagecontainer', 'wrapcache', 'tableutils', 'base')


@case('C23')
def copy_names(ctx):
    """names the code mentions itself"""
    name = special_text(ctx, 'name', MODULES, ('Sheet', 'Copy', 'copyof', 'None', 'true', ' x', 'x ', "it's", 'CopyOfCopyOf', 'x' * 40))
    ctx.assume(normal(name) == name)
    t = Table('t', size=(1, 1))
    t.xmlnode.set(CN('table:name'), name)
    t['A1'].set_value('v')
    before = snapshot(t.xmlnode)
    ctx.check(ctx.eq(t.copy().name, 'CopyOf' + name), 'name of the copy')
    ctx.check(ctx.eq(t.copy(name).name, name), 'given name of the copy')
    c = t.copy(ctx.choice('new', ('Sheet', 'CopyOf', '0', 'x' * 80)))
    ctx.check(ctx.eq(snapshot(t.xmlnode), before) and ctx.eq(t.name, name), 'copying changes the original')
    d = c.copy()
    ctx.check(d.name == 'CopyOf' + c.name and d['A1'].value == 'v', 'copy of a copy')
    d['A1'].set_value('w')
    ctx.check(c['A1'].value == 'v' and t['A1'].value == 'v', 'copies are independent')


@case('C23')
def larger(ctx):
    """many sheets, large copies; numbers around the integer constants of the code"""
    from harness.tabmodel import long_sides
    body = etree.Element(CN('office:spreadsheet'))
    n = ctx.choice('n', tuple(sorted(set([7] + literals.ints(MODULES + ('body',), 4, 40)))))
    for i in range(n):
        t = table_node(2, 1)
        t.set(CN('table:name'), 's%d' % i)
        body.append(t)
    sheets = wrap(body).sheets
    first = list(sheets)
    k = ctx.choice('k', (0, 1, n // 2, n - 1))
    size = ctx.choice('size', ((6, 5),) + tuple([(m, 1) for m in long_sides(40)]) + tuple([(1, m) for m in long_sides(40)]))
    first[k].reset(size)
    first[k][size[0] - 1, size[1] - 1].set_value('last')
    for how in ('index', 'name', 'iter', 'wrap', 'other', 'child'):
        h = handles(wrap(body), sheets, how, k, ctx, ['s%d' % i for i in range(n)])
        ctx.check(h is first[k] and h.nrows() == size[0] and h.ncols() == size[1], 'one handle of a sheet')
    c = first[k].copy()
    ctx.check(c.nrows() == size[0] and c.ncols() == size[1] and c[size[0] - 1, size[1] - 1].value == 'last', 'content of the copy')
    ctx.check(ctx.eq(nameless(snapshot(c.xmlnode)), nameless(snapshot(first[k].xmlnode))), 'content of the copy')
    sheets.append(c)
    c[0, 0].set_value('mine')
    c[size[0] - 1, size[1] - 1].set_value('changed')
    first[k].append_rows(1)
    ctx.check(first[k][size[0] - 1, size[1] - 1].value == 'last' and first[k][0, 0].value is None and c.nrows() == size[0], 'copies are independent')
    del sheets[k]
    ctx.check(len(sheets) == n and sheets[n - 1] is c and all([a is b for a, b in zip(sheets, first[:k] + first[k + 1:] + [c])]), 'handles')
    sheets.append(first[k])
    ctx.check(sheets[n] is first[k] and first[k].nrows() == size[0] + 1, 'a removed sheet comes back')
