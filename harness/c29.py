"""C29 Reading a document never changes it."""
from symex.api import case
from harness.util import attempt
from harness.tabmodel import snapshot, table_node
from ezodf import newdoc
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('new documents of the types text, spreadsheet, drawing and presentation, filled with every kind of text, list, section, variable, field and '
          'table element ezodf has classes for, with free texts of up to 2 characters; on every wrapper every property and parameterless read, and one '
          '(thorough: two) reads with free arguments: positions from outside the table to outside the table, references of up to 3 and names of up to 1 free characters '
          'or existing ones, tags; metadata, manifest, styles; serialisation to bytes in between')
ASSUMPTIONS = ['tables have been opened (which expands repetitions) before the first look', 'a numbered paragraph has a content (its property creates a missing one)']

READS = ('plaintext', 'get_xmlroot', 'iteritems', 'nrows', 'ncols', 'rows', 'columns', 'itercells', 'names', '__len__', '__iter__')


def sub(parent, tag, text=None, tail=None, **attrs):
    e = etree.SubElement(parent, CN(tag))
    e.text, e.tail = text, tail
    for k, v in attrs.items():
        e.set(CN(k.replace('__', ':').replace('_', '-')), v)
    return e


def inline(p, t, n):
    p.text = t
    sub(p, 'text:s', None, 'x', text__c=str(n))
    sub(p, 'text:tab', None, t)
    sub(p, 'text:line-break', None, None)
    sub(p, 'text:soft-page-break', None, 'y')
    s = sub(p, 'text:span', t, 'z', text__style_name='T1')
    sub(s, 'text:s')
    sub(p, 'text:a', 'link', None, xlink__href='http://x')
    sub(p, 'text:bookmark', None, 'end', text__name='var')


def fill_text(doc, t):
    body = doc.body.xmlnode
    v = body.find(CN('text:variable-decls'))
    f = body.find(CN('text:user-field-decls'))
    sub(v, 'text:variable-decl', text__name='var', office__value_type='float')
    sub(v, 'text:variable-decl', text__name='unused')
    sub(f, 'text:user-field-decl', text__name='var', office__value_type='string', office__string_value=t or 'x')
    sub(f, 'text:user-field-decl', text__name='num', office__value_type='float', office__value='1.5')
    inline(sub(body, 'text:p'), t, 3)
    h = sub(body, 'text:h', text__outline_level='2', text__is_list_header='true')
    inline(h, t, 1)
    sub(h, 'text:number', '1.')
    p = sub(body, 'text:p', 'vars')
    sub(p, 'text:variable-set', '2.5', t, text__name='var', office__value_type='float')
    sub(p, 'text:variable-get', t, None, text__name='var')
    sub(p, 'text:variable-input', 'true', None, text__name='other', office__value_type='boolean')
    sub(p, 'text:variable-set', '4', t, text__name='var', office__value_type='float', office__value='4')
    sub(p, 'text:user-field-get', t, None, text__name='var', office__value_type='string')
    sub(p, 'text:user-field-input', '1.5', None, text__name='num', office__value_type='float')
    lst = sub(body, 'text:list', text__style_name='L1')
    item = sub(lst, 'text:list-item', text__start_value='3')
    sub(item, 'text:p', t)
    inner = sub(item, 'text:list')
    sub(sub(inner, 'text:list-header'), 'text:p', 'inner')
    sub(sub(inner, 'text:list-item'), 'text:h', t)
    sub(sub(lst, 'text:list-header'), 'text:p', 'a header that is not first')
    sub(lst, 'text:list-item')
    s = sub(body, 'text:section', text__name='S', text__protected='true')
    sub(s, 'text:p')
    sub(sub(body, 'text:numbered-paragraph', text__level='0'), 'text:p', t)
    body.append(table_node(2, 2, 'header'))
    sub(body, 'text:unknown', t)


CELLS = ((None, {}), ('string', {}), ('float', {'office:value': '1.5'}), ('boolean', {'office:boolean-value': 'true'}),
         ('currency', {'office:value': '3', 'office:currency': 'EUR'}), ('date', {'office:date-value': '2011-01-29'}), ('float', {}))


def fill_table(table, t):
    for n, node in enumerate(table.iter(CN('table:table-cell'))):
        vt, attrs = CELLS[n % len(CELLS)]
        if vt is not None:
            node.set(CN('office:value-type'), vt)
        for k, v in attrs.items():
            node.set(CN(k), v)
        if n % 3 == 1:
            node.set(CN('table:number-%s-spanned' % ('columns' if n % 2 else 'rows')), '2')
        if n % 2:
            sub(node, 'text:p', t)
            sub(node, 'office:annotation', 'note')
            sub(node, 'text:h', 'second')


class World(object):
    def __init__(self, ctx, doctype):
        self.ctx = ctx
        self.doc = doc = newdoc(doctype)
        t = ctx.text('t', 2)
        self.body = doc.body
        if doctype == 'odt':
            fill_text(doc, t)
            self.body = wrap(doc.body.xmlnode)
        elif doctype == 'ods':
            for n, layout in enumerate(('group', 'plain')):
                table = table_node(3, 2, layout)
                table.set(CN('table:name'), 'sheet' if n else 'first')
                fill_table(table, t)
                doc.body.xmlnode.append(table)
                if n == 0:
                    sub(doc.body.xmlnode, 'table:other', t)
            sub(doc.body.xmlnode, 'table:named-expressions')
            first = doc.sheets[0]
            first.set_cell_span('A1', (2, 1))
        else:
            for n in ('one', 'sheet'):
                sub(sub(doc.body.xmlnode, 'draw:page', draw__name=n), 'draw:frame', t)
            sub(doc.body.xmlnode, 'draw:page')
        doc.meta.keywords.add('kw')
        doc.meta.usertags.set('tag', t, 'float')
        doc.meta.count['page'] = 3
        doc.meta['title'] = 'title'
        doc.styles.styles['st'] = wrap(etree.Element(CN('style:style'), {CN('style:name'): 'st', CN('style:family'): 'text'}))
        for node in doc.body.xmlnode.iter(CN('table:table')):
            wrap(node)
        doc.tobytes() # fills the manifest
        self.before = self.now()

    def now(self):
        fm = self.doc.filemanager
        return [snapshot(x.xmlnode) for x in (self.doc.content, self.doc.styles, self.doc.meta, fm.manifest)] + [sorted(fm.directory)]

    def unchanged(self, label):
        self.ctx.check(self.ctx.eq(self.now(), self.before), 'document unchanged by ' + label)


def place(node):
    """where an element is in its document; proxies come and go, positions stay"""
    path = []
    while node.getparent() is not None:
        parent = node.getparent()
        path.append(parent.index(node))
        node = parent
    return [node.tag] + path[::-1]


def known(v):
    """what a read returned, comparable with a second read"""
    node = getattr(v, 'xmlnode', None)
    if node is not None:
        return [type(v).__name__, place(node)]
    if isinstance(v, (list, tuple)):
        return [known(x) for x in v]
    if hasattr(v, '__next__'):
        return [known(x) for n, x in zip(range(60), v)]
    if hasattr(v, 'tag'):
        return place(v)
    return v


def result(read):
    v, exc = attempt(lambda: known(read()))
    return [v, type(exc).__name__ if exc is not None else None]


def readers(obj):
    cls = type(obj)
    for name in sorted(dir(cls)):
        if isinstance(getattr(cls, name), property):
            yield name, (lambda name=name: getattr(obj, name))
        elif name in READS and callable(getattr(cls, name)):
            if name in ('__iter__', '__len__') and name not in dir(cls):
                continue
            yield name, getattr(obj, name)


TYPES = ('odt', 'ods', 'odg', 'odp')


@case('C29', quick=[{'doctype': d} for d in TYPES])
def every_element(ctx, doctype):
    """all parameterless reads of every element of the document"""
    w = World(ctx, doctype)
    nodes = [n for n in w.doc.body.xmlnode.iter()]
    which = ctx.choice('element', tuple(range(len(nodes))) + ('all',))
    for n in (nodes if which == 'all' else [nodes[which]]):
        obj = wrap(n)
        for name, read in readers(obj):
            first = result(read)
            w.unchanged(name)
            ctx.check(ctx.eq(result(read), first), 'second answer of ' + name)
    if which == 'all':
        w.doc.tobytes()
        w.unchanged('serialisation')


BY_KEY = {'meta': 'title', 'keywords': 'kw', 'usertags': 'tag', 'type of a user tag': 'tag', 'counters': 'page', 'manifest': 'styles.xml', 'styles': 'st', 'fonts': 'x',
          'automatic styles': 'x', 'master styles': 'x', 'attribute': 'x', 'variables': 'var', 'variable': 'var', 'field': 'num', 'page by name': 'sheet'}


@case('C29', quick=[{'doctype': d} for d in ('odt', 'ods', 'odp')], thorough=[{'doctype': d} for d in TYPES])
def parts(ctx, doctype):
    """metadata, manifest, styles, pages and the objects of the document itself"""
    w = World(ctx, doctype)
    doc, key, i = w.doc, None, 0
    box = getattr(doc, 'sheets', getattr(doc, 'pages', None))
    reads = {
        'meta': lambda: doc.meta[key],
        'keywords': lambda: [key in doc.meta.keywords, list(doc.meta.keywords)],
        'usertags': lambda: [key in doc.meta.usertags, list(doc.meta.usertags), doc.meta.usertags[key]],
        'type of a user tag': lambda: doc.meta.usertags.typeof(key),
        'counters': lambda: [list(doc.meta.count), doc.meta.count[key]],
        'manifest': lambda: doc.filemanager.manifest.find(key),
        'styles': lambda: doc.styles.styles[key],
        'fonts': lambda: doc.styles.fonts[key],
        'automatic styles': lambda: doc.content.automatic_styles[key],
        'master styles': lambda: doc.styles.master_styles[key],
        'attribute': lambda: [doc.body.get_attr(key), doc.body.get_attr(key, 'd'), doc.body.get_bool_attr(key)],
        'find': lambda: doc.body.find(CN('text:p')),
        'find nothing': lambda: doc.body.find(CN('text:never')),
        'findall': lambda: doc.body.findall(CN('text:list')),
        'bytes': lambda: [doc.tobytes() and None, doc.content.tobytes(), doc.meta.tobytes()],
        'variables': lambda: [key in doc.body.variables, key in doc.body.userfields, list(doc.body.variables), list(doc.body.userfields)],
        'variable': lambda: doc.body.variables[key],
        'field': lambda: doc.body.userfields[key],
    }
    if box is not None:
        reads.update({
            'page by name': lambda: box[key],
            'page by index': lambda: box[i],
            'names': lambda: [list(box.names()), len(box), list(box)],
            'index': lambda: [box.index(x) for x in box],
            'index of another': lambda: box.index(doc.body),
            'child': lambda: doc.body.get_child(i),
        })
    what = ctx.choice('what', tuple(sorted(reads)))
    if what in BY_KEY:
        key = ctx.choice('key', ('existing', 'free'))
        key = ctx.text('key?', 1 if what != 'attribute' else 0) if key == 'free' else BY_KEY[what]
    elif what in ('page by index', 'child'):
        i = ctx.int('i', -4, 3)
    first = result(reads[what])
    w.unchanged(what)
    w.doc.tobytes()
    for name, read in readers(w.doc.body):
        result(read)
    ctx.check(ctx.eq(result(reads[what]), first), 'second answer: ' + what)
    w.unchanged(what)


@case('C29', quick=[{'n': 1}], thorough=[{'n': 2}])
def table(ctx, n):
    """reads with positions, references and indices"""
    w = World(ctx, 'ods')
    t = w.doc.sheets[ctx.choice('sheet', (0, 1))]
    for k in range(n):
        what = ctx.choice('what%d' % k, ('cell', 'get_cell', 'reference', 'row', 'column', 'row_info', 'column_info', 'child', 'views', 'copy'))
        i, j = 0, 0
        if what in ('cell', 'get_cell', 'row', 'column', 'row_info', 'column_info', 'child'):
            i = ctx.int('i%d' % k, -4, 4)
            if what in ('cell', 'get_cell'):
                j = ctx.int('j%d' % k, -3, 3)
        ref = ctx.text('ref%d' % k, 3) if what == 'reference' else None
        reads = {
            'cell': lambda: t[i, j], 'get_cell': lambda: t.get_cell((i, j)), 'reference': lambda: t[ref],
            'row': lambda: t.row(i), 'column': lambda: t.column(i), 'row_info': lambda: t.row_info(i), 'column_info': lambda: t.column_info(i),
            'child': lambda: t[i], 'copy': lambda: t.copy('c').nrows(),
            'views': lambda: [list(t.rows()), list(t.columns()), list(t.itercells()), t.nrows(), t.ncols()],
        }
        first = result(reads[what])
        w.unchanged(what)
        ctx.check(ctx.eq(result(reads[what]), first), 'second answer: ' + what)
