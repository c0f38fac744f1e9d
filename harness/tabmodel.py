"""Tables for the table harnesses, and the plain model they are compared with."""
from ezodf.xmlns import wrap, CN, etree

HEADS = ('plain', 'header', 'group', 'mixed')


def column_node(label):
    e = etree.Element(CN('table:table-column'))
    e.set(CN('table:style-name'), label)
    return e


def cell_node(label, kind=0):
    e = etree.Element(CN('table:table-cell'))
    e.set(CN('table:style-name'), label)
    if kind == 1:
        e.set(CN('office:value-type'), 'string')
        p = etree.SubElement(e, CN('text:p'))
        p.text = 'text ' + label
    elif kind == 2:
        e.set(CN('office:value-type'), 'float')
        e.set(CN('office:value'), '7')
    return e


def inner_table(deep=False):
    """a table that lies in a cell of another one"""
    t = etree.Element(CN('table:table'))
    t.set(CN('table:name'), 'inner')
    col = etree.SubElement(etree.SubElement(t, CN('table:table-header-columns')), CN('table:table-column'))
    col.set(CN('table:number-columns-repeated'), '3')
    for r in range(2):
        row = etree.SubElement(t, CN('table:table-row'))
        if r:
            row.set(CN('table:number-rows-repeated'), '2')
        for c in range(2):
            cell = etree.SubElement(row, CN('table:table-cell'))
            cell.set(CN('table:style-name'), 'inner%d_%d' % (r, c))
            if c:
                cell.set(CN('table:number-columns-repeated'), '2')
    if deep:
        # as the content of a text box
        p = etree.Element(CN('text:p'))
        box = etree.SubElement(etree.SubElement(p, CN('draw:frame')), CN('draw:text-box'))
        box.append(t)
        return p
    return t


def own(node, tag):
    """rows or columns of a table without those of tables in its cells"""
    out = []
    for e in node:
        if e.tag == tag:
            out.append(e)
        elif e.tag != CN('table:table-row'):
            out.extend(own(e, tag))
    return out


def table_node(nrows, ncols, layout='plain', ncolinfos=None, prelude=True):
    """a loaded table; cells, rows and column infos carry a label each"""
    t = etree.Element(CN('table:table'))
    t.set(CN('table:name'), 'T')
    if prelude:
        etree.SubElement(t, CN('table:table-source'))
        etree.SubElement(t, CN('office:forms'))
    n = ncols if ncolinfos is None else ncolinfos
    target = t
    for c in range(n):
        if layout == 'header' and c == 0 and n > 1:
            target = etree.SubElement(t, CN('table:table-header-columns'))
        elif layout in ('group', 'mixed') and c == 0:
            target = etree.SubElement(t, CN('table:table-column-group'))
        elif c == 1:
            target = t
        target.append(column_node('k%d' % c))
    target = t
    for r in range(nrows):
        if layout == 'header':
            if r == 0:
                target = etree.SubElement(t, CN('table:table-header-rows'))
            elif r == 1:
                target = t
        elif layout == 'group':
            if r == 0:
                target = etree.SubElement(t, CN('table:table-row-group'))
            elif r == 1:
                target = etree.SubElement(target, CN('table:table-row-group'))
            elif r == 2:
                target = t
        elif layout == 'mixed':
            if r == 0:
                target = etree.SubElement(etree.SubElement(t, CN('table:table-header-rows')), CN('table:table-rows'))
                etree.SubElement(t, CN('text:soft-page-break'))
            elif r == 1:
                target = etree.SubElement(t, CN('table:table-row-group'))
        row = etree.SubElement(target, CN('table:table-row'))
        row.set(CN('table:style-name'), 'r%d' % r)
        for c in range(ncols):
            row.append(cell_node('c%d_%d' % (r, c), (r + c) % 3))
            if layout == 'nested' and (r + c) % 2 == 0:
                row[-1].append(inner_table(r > 0))
    return t


class Model(object):
    """labels of cells, rows and columns; '' stands for a new, empty one"""

    def __init__(self, nrows, ncols, ncolinfos=None, labelled=True):
        n = ncols if ncolinfos is None else ncolinfos
        self.cells = [['c%d_%d' % (r, c) if labelled else '' for c in range(ncols)] for r in range(nrows)]
        self.rows = ['r%d' % r if labelled else '' for r in range(nrows)]
        self.cols = ['k%d' % c if labelled and c < n else '' for c in range(max(n, ncols))]

    def nrows(self):
        return len(self.rows)

    def ncols(self):
        return len(self.cells[0])

    def insert_rows(self, index, count):
        for _ in range(count):
            self.rows.insert(index, '')
            self.cells.insert(index, ['' for _ in self.cells[0]])

    def delete_rows(self, index, count):
        del self.rows[index:index + count]
        del self.cells[index:index + count]

    def insert_columns(self, index, count):
        for _ in range(count):
            self.cols.insert(index, '')
            for row in self.cells:
                row.insert(index, '')

    def delete_columns(self, index, count):
        del self.cols[index:index + count]
        for row in self.cells:
            del row[index:index + count]


KINDS = {'0': 0, '1': 1, '2': 2}


def label(e):
    return e.get(CN('table:style-name')) or ''


def cell_ok(e, lab):
    """the cell is the labelled one with its content, or an empty one"""
    if label(e) != lab or e.tag != CN('table:table-cell'):
        return False
    if lab == '':
        return len(e.attrib) == 0 and len(e) == 0 and not e.text
    if not lab.startswith('c'):
        return True
    r, c = lab[1:].split('_')
    kind = (int(r) + int(c)) % 3
    if kind == 1:
        return len(e) == 1 and e[0].text == 'text ' + lab and e.get(CN('office:value-type')) == 'string' and len(e.attrib) == 2
    if kind == 2:
        return len(e) == 0 and e.get(CN('office:value')) == '7' and len(e.attrib) == 3
    return len(e) == 0 and len(e.attrib) == 1


def same_as(ctx, table, model, deep=True):
    """the table shows exactly the grid of the model"""
    ctx.check(table.nrows() == model.nrows(), 'nrows')
    ctx.check(table.ncols() == model.ncols(), 'ncols')
    rows = [list(r) for r in table.rows()]
    ctx.check(len(rows) == model.nrows(), 'number of rows')
    for r, row in enumerate(rows):
        ctx.check(len(row) == model.ncols(), 'rectangular')
        for c, cell in enumerate(row):
            ctx.check(cell_ok(cell.xmlnode, model.cells[r][c]), 'content of a cell')
            ctx.check(table[r, c].xmlnode is cell.xmlnode, 'cell access agrees with rows')
        ctx.check(label(table.row_info(r).xmlnode) == model.rows[r], 'row info')
    for c in range(model.ncols()):
        ctx.check(label(table.column_info(c).xmlnode) == model.cols[c], 'column info')
    if deep:
        xrows = [e for e in table.xmlnode.iter(CN('table:table-row'))]
        ctx.check(len(xrows) == model.nrows(), 'rows in the XML')
        for r, xrow in enumerate(xrows):
            ctx.check(label(xrow) == model.rows[r], 'row order in the XML')
            ctx.check([label(e) for e in xrow] == model.cells[r], 'cells in the XML')
        ctx.check([label(e) for e in table.xmlnode.iter(CN('table:table-column'))] == model.cols, 'columns in the XML')


def snapshot(node):
    """everything of an XML tree that can be seen"""
    return [node.tag, node.text, node.tail, sorted(node.attrib.items()), [snapshot(c) for c in node]]


TABLE_MODULES = ('table', 'tablerowcontroller', 'tablecolumncontroller', 'tableutils', 'tablenormalizer', 'cellspancontroller', 'cells', 'conf')


def long_sides(hi=70):
    """numbers of rows or columns around the constants of the table code"""
    from symex import literals
    return literals.ints(TABLE_MODULES, 6, hi)
