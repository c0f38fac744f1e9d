"""C26 Saved content comes back on reopening."""
from io import BytesIO
from symex.api import case
from harness.docworld import Scratch, OTHERS, PREFIX, NS, package, flat, members, xmlparts
from harness.doccheck import tree
from ezodf.xmlns import etree, CN, wrap
from ezodf.document import FlatXMLDocument
from ezodf import Paragraph, Heading, Span, List, ListItem, ListHeader, Hyperlink, NumberedParagraph, Sheet, Cell
from ezodf.text import Section
from ezodf.drawingpage import DrawingPage
from ezodf.presentationpage import PresentationPage
from ezodf.variables import UserField
import ezodf

BOUNDS = ('documents made new, from a package (file, stream), from flat XML (file, bytes) or as new flat XML; saved to the same or another file, a stream or bytes, '
          'reopened as file, stream or bytes, saved once more and reopened; with one free text of up to 2 (thorough 3) characters (any XML character) or one of '
          '12 special texts in each place, free integers (+-10^6), floats n/8, booleans; text documents with paragraphs, headings, spans, links, lists, numbered '
          'paragraphs, sections, user fields; spreadsheets with up to 3 sheets inserted at free positions, cells with every value type, currency, formula, styles, spans; drawings and presentations '
          'with pages at free positions; metadata, keywords, user tags, counters; injected styles; untouched documents with repeated rows and cells')
ASSUMPTIONS = ['lxml writes and reads back every XML character (a free character is a placeholder in the written file; the special texts and the replayed witnesses are written as they are)',
               'date, generator and editing cycles are maintained by the library']

SPECIAL = ('', ' ', 'a  b', ' \t\n', '<a b="c">&amp;</a>', ']]>&\'"', '\r\n', '\xa0', '\xe4\u20ac\u4e2d', '\U0001f600', 'x' * 300, '0')
HOWS = ('new', 'file', 'stream', 'flat file', 'flat bytes', 'flat new')
TARGETS = ('same', 'other', 'stream', 'bytes')
KIND = {'odt': 'text', 'ods': 'spreadsheet', 'odp': 'presentation', 'odg': 'graphics'}


def make(ctx, s, how, doctype):
    mime = PREFIX + KIND[doctype]
    if how == 'new':
        return ezodf.newdoc(doctype, s.name('doc.' + doctype))
    if how == 'flat new':
        return FlatXMLDocument(doctype, s.name('doc.f' + doctype))
    if how.startswith('flat'):
        data = flat(mime)
        if how == 'flat bytes':
            return ezodf.opendoc(data)
        s.write('doc.f' + doctype, data)
        return ezodf.opendoc(s.name('doc.f' + doctype))
    data = package(mime, others=OTHERS)
    if how == 'stream':
        return ezodf.opendoc(BytesIO(data))
    s.write('doc.' + doctype, data)
    return ezodf.opendoc(s.name('doc.' + doctype))


def write(ctx, s, doc, target, base):
    if target == 'bytes':
        return doc.tobytes()
    if target == 'stream':
        out = BytesIO()
        doc.saveas(out)
        return out.getvalue()
    if target == 'same' and doc.docname is not None:
        doc.save()
        with open(doc.docname, 'rb') as f:
            return f.read()
    doc.saveas(s.name(base))
    return s.read(base)


def reopen(ctx, s, data, source, n):
    if source == 'bytes':
        return ezodf.opendoc(data)
    if source == 'stream':
        return ezodf.opendoc(BytesIO(data))
    s.write('again%d.dat' % n, data)
    return ezodf.opendoc(s.name('again%d.dat' % n))


def round_trip(ctx, s, doc, to, back, verify):
    """saves and reopens twice; every version must read as expected"""
    data = write(ctx, s, doc, to, 'saved.dat')
    verify(doc, 'after saving')
    doc2 = reopen(ctx, s, data, back, 1)
    verify(doc2, 'reopened')
    data2 = write(ctx, s, doc2, 'bytes' if back == 'stream' else 'stream' if back == 'bytes' else 'same', 'saved2.dat')
    doc3 = reopen(ctx, s, data2, 'bytes', 2)
    verify(doc3, 'reopened again')
    return data, data2


def ways():
    quick, n = [], 0
    for how in HOWS:
        for to in TARGETS:
            quick.append({'how': how, 'to': to, 'back': ('file', 'stream', 'bytes')[n % 3]})
            n += 1
    return quick


def all_ways():
    return [{'how': h, 'to': t, 'back': b} for h in HOWS for t in TARGETS for b in ('file', 'stream', 'bytes')]


def free(ctx, name, n=None, special=SPECIAL, least=0):
    """a free text or one of the special ones"""
    i = ctx.fork(ctx.int(name + ' special', 0, len(special)))
    if i < len(special):
        return special[i]
    return ctx.text(name, ctx.q(2, 3) if n is None else n, None, least)


# ---------------------------------------------------------------------- text
PLACES = ('p', 'h', 'span', 'link', 'list', 'numbered', 'section', 'tail', 'style', 'field', 'append')


@case('C26', quick=[dict(w, place=p) for i, p in enumerate(PLACES) for j, w in enumerate(ways()) if (i + j) % 5 == 0],
      thorough=[dict(w, place=p) for p in PLACES for w in all_ways()])
def text(ctx, how, to, back, place):
    s = Scratch(ctx)
    doc = make(ctx, s, how, 'odt')
    t = free(ctx, 't')
    b = doc.body
    old = ['first', 'second'] if 'new' not in how else []
    if place == 'p':
        b.append(Paragraph(t))
    elif place == 'append':
        b.append(Paragraph('begin')).append_text(t)
    elif place == 'h':
        level = ctx.int('level', 1, 12)
        b.append(Heading(t, outline_level=level))
    elif place == 'span':
        p = Paragraph('before')
        p.append(Span(t))
        b.append(p)
    elif place == 'tail':
        p = Paragraph('before')
        sp = p.append(Span('span'))
        ctx.assume(ctx.all([ctx.not_(ctx.eq(c, x)) for c in t for x in ' \t\n']) if len(t) < 100 and t not in (' ', ' \t\n') else True)
        sp.xmlnode.tail = t
        b.append(p)
    elif place == 'link':
        p = Paragraph('before')
        p.append(Hyperlink(href=t, text='text'))
        b.append(p)
    elif place == 'list':
        lst = List(style_name='L1')
        lst.header = ListHeader('header')
        lst.append(ListItem(t))
        inner = List()
        inner.append(ListItem('inner'))
        lst.append(ListItem()).append(inner)
        lst.append(ListItem(t))
        b.append(lst)
    elif place == 'numbered':
        np = NumberedParagraph(Paragraph(t))
        np.level = 3
        b.append(np)
    elif place == 'section':
        sec = Section(name=t)
        sec.append(Paragraph(t))
        b.append(sec)
    elif place == 'style':
        p = b.append(Paragraph('text', style_name=t))
    elif place == 'field':
        uf = UserField(etree.Element(CN('text:user-field-decl')))
        uf.xmlnode.set(CN('text:name'), 'field')
        uf.name = 'field'
        b.userfields.append(uf)
        uf.value = t
    b.append(Paragraph('the end'))

    def verify(d, label):
        kids = [k for k in d.body if k.xmlnode.tag not in (CN('text:variable-decls'), CN('text:user-field-decls'))]
        ctx.check([k.plaintext() for k in kids[:len(old)]] == old and kids[-1].plaintext() == 'the end', label + ': old and last paragraphs')
        mine = kids[len(old):-1]
        if place == 'field':
            ctx.check(mine == [] and (d is doc or 'field' in d.body.userfields), label + ': user field')
            f = wrap(d.body.userfields.xmlnode[0])
            ctx.check(len(d.body.userfields) == 1 and f.name == 'field' and ctx.eq(f.value, t), label + ': value of the user field')
            return
        ctx.check(len(mine) == 1, label + ': one object')
        k = mine[0]
        if place == 'p':
            ctx.check(isinstance(k, Paragraph) and ctx.eq(k.plaintext(), t), label + ': paragraph')
        elif place == 'append':
            ctx.check(isinstance(k, Paragraph) and ctx.eq(k.plaintext(), 'begin' + t), label + ': appended text')
        elif place == 'h':
            ctx.check(isinstance(k, Heading) and ctx.eq(k.plaintext(), t), label + ': heading')
            ctx.check(ctx.eq(k.outline_level, level), label + ': outline level')
        elif place == 'span':
            ctx.check(len(k) == 1 and isinstance(k[0], Span) and ctx.eq(k[0].plaintext(), t), label + ': span')
            ctx.check(ctx.eq(k.plaintext(), 'before' + t), label + ': text around the span')
        elif place == 'tail':
            ctx.check(len(k) == 1 and k[0].plaintext() == 'span' and ctx.eq(k.plaintext(), 'beforespan' + t), label + ': text after the span')
        elif place == 'link':
            a = k[0]
            ctx.check(isinstance(a, Hyperlink) and a.plaintext() == 'text' and ctx.eq(a.href or '', t) and a.target_frame == '_blank', label + ': link')
        elif place == 'list':
            ctx.check(isinstance(k, List) and k.style_name == 'L1' and k.header.plaintext() == 'header', label + ': list')
            items = list(k.iteritems())
            ctx.check(len(items) == 3 and len(k) == 4, label + ': items')
            ctx.check(ctx.eq(items[0].plaintext(), t) and ctx.eq(items[2].plaintext(), t), label + ': text of items')
            ctx.check(isinstance(items[1][0], List) and items[1][0][0].plaintext() == 'inner', label + ': inner list')
        elif place == 'numbered':
            ctx.check(isinstance(k, NumberedParagraph) and k.level == 3 and ctx.eq(k.content.plaintext(), t), label + ': numbered paragraph')
        elif place == 'section':
            ctx.check(isinstance(k, Section) and ctx.eq(k.name or '', t) and len(k) == 1 and ctx.eq(k[0].plaintext(), t), label + ': section')
        elif place == 'style':
            ctx.check(k.plaintext() == 'text' and ctx.eq(k.style_name or '', t), label + ': style name')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


# -------------------------------------------------------------------- sheets
VALUES = ('text', 'int', 'float', 'percentage', 'currency', 'boolean', 'date', 'time', 'display', 'formula', 'styles', 'paragraphs')
# no white space, no quotes: sheet names are normalized
KEY = ((0x21, 0x21), (0x23, 0x26), (0x28, 0x7e), (0xa1, 0x167f), (0x1681, 0x1fff), (0x200b, 0x2027), (0x202a, 0x202e), (0x2030, 0x205e),
       (0x2060, 0x2fff), (0x3001, 0xd7ff), (0xe010, 0xfffd), (0x10000, 0x10ffff))


def fill(ctx, cell, kind, t):
    """puts a value into the cell; returns what must be read back"""
    want = {'value': None, 'value_type': None, 'currency': None, 'formula': None, 'style_name': None, 'plain': ''}
    if kind == 'text':
        cell.set_value(t)
        want.update(value=t, value_type='string', plain=t)
    elif kind == 'paragraphs':
        cell.set_value(t)
        cell.append(Paragraph('more'))
        want.update(value=t + '\nmore', value_type='string', plain=t + '\nmore')
    elif kind == 'int':
        n = ctx.int('n', -1000000, 1000000)
        cell.set_value(n)
        want.update(value=n, value_type='float')
    elif kind == 'float':
        f = ctx.float('f')
        cell.set_value(f)
        want.update(value=f, value_type='float')
    elif kind == 'percentage':
        f = ctx.float('f')
        cell.set_value(f, 'percentage')
        want.update(value=f, value_type='percentage')
    elif kind == 'currency':
        f = ctx.float('f')
        cell.set_value(f, currency=t)
        want.update(value=f, value_type='currency', currency=t or None)
    elif kind == 'boolean':
        b = ctx.bool('b')
        cell.set_value(b)
        want.update(value=b, value_type='boolean')
    elif kind in ('date', 'time'):
        cell.set_value(t, kind)
        want.update(value=t, value_type=kind)
    elif kind == 'display':
        cell.set_value(7.5)
        cell.display_form = t
        want.update(value=7.5, value_type='float', plain=t)
    elif kind == 'formula':
        cell.formula = t
        cell.set_value(3)
        want.update(formula=t, value=3, value_type='float')
    elif kind == 'styles':
        cell.style_name = t
        cell.set_value('x')
        want.update(style_name=t, value='x', value_type='string', plain='x')
    return want


def check_cell(ctx, cell, want, label):
    for k in ('value_type', 'value', 'currency', 'formula', 'style_name'):
        got, exp = getattr(cell, k), want[k]
        if exp is None:
            ctx.check(got is None, label + ': no ' + k)
        else:
            ctx.check(got is not None and ctx.eq(got, exp), label + ': ' + k)
    ctx.check(ctx.eq(cell.plaintext(), want['plain']), label + ': shown text')


@case('C26', quick=[dict(w, kind=k) for i, k in enumerate(VALUES) for j, w in enumerate(ways()) if (i + j) % 6 == 0],
      thorough=[dict(w, kind=k) for k in VALUES for w in all_ways()])
def cells(ctx, how, to, back, kind):
    s = Scratch(ctx)
    doc = make(ctx, s, how, 'ods')
    old = ['A'] if 'new' not in how else []
    t = None
    if kind in ('text', 'currency', 'display', 'paragraphs'):
        t = free(ctx, 't')
    elif kind in ('date', 'time', 'formula', 'styles'):     # attributes are not empty
        t = free(ctx, 't', None, SPECIAL[1:], 1)
    sheet = doc.sheets.append(Sheet('my sheet', size=(3, 3)))
    r, c = ctx.fork(ctx.int('row', 0, 2)), ctx.fork(ctx.int('col', 0, 2)) if t is None else 1
    want = fill(ctx, sheet[r, c], kind, t)
    rs, cs = 1, 1
    if ctx.fork(ctx.bool('span')):
        rs, cs = 3 - r, 3 - c
        sheet.set_cell_span((r, c), (rs, cs))
    sheet.row_info(1).style_name = 'ro1'
    sheet.column_info(2).style_name = 'co1'
    none = fill(ctx, Cell(), None, None)

    def verify(d, label):
        ctx.check(list(d.sheets.names()) == old + ['my sheet'], label + ': sheets')
        sh = d.sheets['my sheet']
        ctx.check((sh.nrows(), sh.ncols()) == (3, 3), label + ': size')
        ctx.check([sh.row_info(i).style_name for i in range(3)] == [None, 'ro1', None], label + ': rows')
        ctx.check([sh.column_info(i).style_name for i in range(3)] == [None, None, 'co1'], label + ': columns')
        for i in range(3):
            for j in range(3):
                cell = sh[i, j]
                check_cell(ctx, cell, want if (i, j) == (r, c) else none, '%s: cell' % label)
                inside = r <= i < r + rs and c <= j < c + cs
                head = (i, j) == (r, c)
                ctx.check(cell.covered == (inside and not head), label + ': covered')
                ctx.check(cell.span == ((rs, cs) if head else (1, 1)), label + ': span')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


@case('C26', quick=[w for j, w in enumerate(ways()) if j % 2 == 0], thorough=all_ways())
def sheets(ctx, how, to, back):
    s = Scratch(ctx)
    doc = make(ctx, s, how, 'ods')
    names = ['A'] if 'new' not in how else []
    for n in range(ctx.q(2, 3)):
        name = ctx.text('name', 1, KEY, 1) if n == 0 else 'sheet %d' % n
        at = ctx.fork(ctx.int('at %d' % n, 0, len(names)))
        sh = Sheet(name, size=(1, 1))
        sh[0, 0].set_value('in ' + name)
        sh.protected = n == 1
        doc.sheets.insert(at, sh)
        names.insert(at, name)
    gone = ctx.fork(ctx.int('delete', 0, len(names)))
    if gone < len(names):
        del doc.sheets[gone]
        del names[gone]

    def verify(d, label):
        got = list(d.sheets.names())
        ctx.check(len(got) == len(names) and len(d.sheets) == len(names) and ctx.all([ctx.eq(a, b) for a, b in zip(got, names)]), label + ': names in order')
        for i, sh in enumerate(d.sheets):
            ctx.check(sh.name == got[i] and d.sheets[i].xmlnode is sh.xmlnode, label + ': sheet')
            if names[i] != 'A' or len(names[i]) > 1:
                if sh[0, 0].value is None:
                    ctx.check(ctx.eq(names[i], 'A'), label + ': the old sheet')
                else:
                    ctx.check(ctx.eq(sh[0, 0].value, 'in ' + names[i]), label + ': content of the sheet')
            ctx.check(sh.protected == (names[i] == 'sheet 1'), label + ': protection')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


@case('C26', quick=[dict(w, kind=k) for i, k in enumerate(('odp', 'odg')) for j, w in enumerate(ways()) if (i + j) % 2 == 0],
      thorough=[dict(w, kind=k) for k in ('odp', 'odg') for w in all_ways()])
def pages(ctx, how, to, back, kind):
    s = Scratch(ctx)
    doc = make(ctx, s, how, kind)
    names = ['one'] if 'new' not in how else []
    for n in range(2):
        name = free(ctx, 'name', 1, SPECIAL[3:6], 1) if n == 0 else 'page %d' % n
        at = ctx.fork(ctx.int('at %d' % n, 0, len(names)))
        p = (PresentationPage if kind == 'odp' else DrawingPage)(name)
        p.append(Paragraph('on ' + name))
        doc.pages.insert(at, p)
        names.insert(at, name)

    def verify(d, label):
        got = list(d.pages.names())
        ctx.check(len(got) == len(names) and ctx.all([ctx.eq(a, b) for a, b in zip(got, names)]), label + ': pages in order')
        for i, p in enumerate(d.pages):
            texts = [k.plaintext() for k in p if isinstance(k, Paragraph)]
            if len(texts) == 0:
                ctx.check(ctx.eq(names[i], 'one') and 'new' not in how, label + ': the old page')
            else:
                ctx.check(len(texts) == 1 and ctx.eq(texts[0], 'on ' + names[i]), label + ': content of the page')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


# ---------------------------------------------------------------------- meta
FIELDS = ('title', 'description', 'subject', 'initial-creator', 'creator', 'language', 'creation-date')


@case('C26', quick=[dict(w, doctype=('odt', 'ods', 'odp', 'odg')[j % 4]) for j, w in enumerate(ways())],
      thorough=[dict(w, doctype=d) for d in KIND for w in all_ways()])
def meta(ctx, how, to, back, doctype):
    s = Scratch(ctx)
    doc = make(ctx, s, how, doctype)
    m = doc.meta
    t = free(ctx, 't')
    which = ctx.choice('what', ['field', 'keyword', 'tag', 'typed', 'count'])
    field = FIELDS[len(how + to) % len(FIELDS)]
    keywords = ['kw'] if how in ('file', 'stream') else []
    tags = {'tag': ('value', 'string')} if how in ('file', 'stream') else {}
    count = 0
    if which == 'field':
        m[field] = t
    elif which == 'keyword':
        m.keywords.add('one')
        m.keywords.add(t)
        keywords = keywords + ['one'] + [t]
        ctx.assume(ctx.all([ctx.not_(ctx.eq(t, k)) for k in ('one', 'kw')]))
    elif which == 'tag':
        m.usertags['my tag'] = t
        m.usertags.set('n', 7, 'float')
        tags['my tag'] = (t, 'string')
        tags['n'] = ('7', 'float')
    elif which == 'typed':
        ctx.assume(ctx.not_(ctx.eq(t, 'tag')))
        m.usertags.set(t, 'true', 'boolean')
        tags[t] = ('true', 'boolean')
    else:
        count = ctx.int('count', 0, 10 ** 6)
        m.count['word'] = count
        m.count['page'] = 3
    cycles = [m['editing-cycles'] if 'editing-cycles' in [e.tag.split('}')[1] for e in m.meta] else '0']

    def verify(d, label):
        x = d.meta
        if which == 'field':
            ctx.check(ctx.eq(x[field], t), label + ': field')
        if how in ('file', 'stream') and field != 'title':
            ctx.check(x['title'] == 'a title', label + ': old title')
        got = list(x.keywords)
        ctx.check(len(got) == len(keywords) and ctx.all([ctx.eq(a, b) for a, b in zip(got, keywords)]), label + ': keywords')
        ctx.check(len(list(x.usertags)) == len(tags), label + ': user tags')
        for k, (v, ty) in tags.items():
            ctx.check(k in x.usertags and ctx.eq(x.usertags[k], v) and x.usertags.typeof(k) == ty, label + ': user tag')
        ctx.check(ctx.eq(x.count['word'], count) and x.count['page'] == (3 if which == 'count' else 0), label + ': counters')
        ctx.check(x.count['row'] == 0, label + ': no other counters')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


# -------------------------------------------------------------------- styles
@case('C26', quick=[dict(w, doctype=('odt', 'ods', 'odp', 'odg')[(j + 1) % 4]) for j, w in enumerate(ways())],
      thorough=[dict(w, doctype=d) for d in KIND for w in all_ways()])
def styles(ctx, how, to, back, doctype):
    s = Scratch(ctx)
    doc = make(ctx, s, how, doctype)
    name = ctx.text('name', 2, ((0x23, 0x25), (0x28, 0x3b), (0x3f, 0xd7ff)), 1)
    ctx.assume(ctx.not_(ctx.eq(name, 'S')))
    doc.inject_style('<style:style style:name="' + name + '" style:family="text" style:display-name="my &lt;style&gt;">'
                     '<style:text-properties fo:font-size="12pt" fo:color="#ff0000"/></style:style>')
    doc.inject_style('<style:style style:name="Second one" style:family="paragraph"/>')

    def verify(d, label):
        st = d.styles if hasattr(d.styles, 'xmlnode') and d.styles.xmlnode.tag == CN('office:styles') else d.styles.styles
        new = st[name]
        ctx.check(new['name'] == name and new['family'] == 'text' and new['display-name'] == 'my <style>', label + ': injected style')
        props = new.xmlnode[0]
        ctx.check(len(new.xmlnode) == 1 and props.tag == CN('style:text-properties') and
                  dict(props.attrib) == {CN('fo:font-size'): '12pt', CN('fo:color'): '#ff0000'}, label + ': properties')
        ctx.check(st['Second one']['family'] == 'paragraph', label + ': second style')
        old = 1 if how in ('file', 'stream') else 0
        ctx.check(len(st.xmlnode) == 2 + old, label + ': number of styles')
        if old:
            ctx.check(st['S']['family'] == 'paragraph', label + ': old style')

    verify(doc, 'before saving')
    round_trip(ctx, s, doc, to, back, verify)


# ----------------------------------------------------------------- untouched
RICH = {
    'odt': '<office:text><text:sequence-decls><text:sequence-decl text:name="Table"/></text:sequence-decls>'
           '<text:p text:style-name="P1">one<text:s text:c="3"/>two<text:tab/><text:span>in </text:span> tail</text:p><!-- comment -->'
           '<text:section text:name="s"><text:list><text:list-item><text:p>item</text:p></text:list-item></text:list></text:section>'
           '<draw:frame draw:name="f"><draw:image/></draw:frame><unknown xmlns="urn:x" y="z"> text </unknown><text:p/></office:text>',
    'odp': '<office:presentation><draw:page draw:name="one"><draw:frame>  </draw:frame></draw:page><draw:page draw:name="two"/></office:presentation>',
    'odg': '<office:drawing><draw:page draw:name="one"><draw:frame>  </draw:frame></draw:page><draw:page draw:name="two"/></office:drawing>',
}


def strip(nodes):
    return [x for x in nodes if isinstance(x.tag, str)]


@case('C26', quick=[dict(doctype=d, to=t, is_flat=f) for d in RICH for t in TARGETS for f in (False, True)])
def untouched(ctx, doctype, to, is_flat):
    s = Scratch(ctx)
    mime = PREFIX + KIND[doctype]
    body = RICH[doctype]
    if is_flat:
        data = ('<?xml version="1.0" encoding="UTF-8"?><office:document %s office:mimetype="%s"><office:meta/><office:styles/>'
                '<office:body>%s</office:body></office:document>' % (NS, mime, body)).encode('utf-8')
    else:
        parts = xmlparts(mime)
        parts['content.xml'] = ('<office:document-content %s><office:automatic-styles/><office:body>%s</office:body></office:document-content>' % (NS, body)).encode()
        data = package(mime, parts, OTHERS)
    s.write('in.dat', data)
    doc = ezodf.opendoc(s.name('in.dat'))
    out = write(ctx, s, doc, to, 'out.dat')

    def inner(data):
        root = etree.XML(data if is_flat else dict((m[0], m[1]) for m in members(data))['content.xml'])
        b = root.find(CN('office:body'))
        ctx.check(len(b) == 1, 'one body')
        return [etree.tostring(e) for e in b[0] if e.tag not in (CN('text:variable-decls'), CN('text:user-field-decls'))]

    ctx.check(inner(out) == inner(data), 'content is unchanged')
    if not is_flat:
        a, b = [dict((m[0], m[1]) for m in members(d)) for d in (data, out)]
        ctx.check(sorted(a) == sorted(b), 'members are the same')
        ctx.check(all(a[n] == b[n] for n, d, m, c in OTHERS), 'other members are unchanged')
        ctx.check(tree(etree.XML(a['styles.xml']).find(CN('office:styles'))) == tree(etree.XML(b['styles.xml']).find(CN('office:styles'))), 'styles are unchanged')


@case('C26', quick=[dict(to=t, is_flat=f) for t in TARGETS for f in (False, True)])
def grid(ctx, to, is_flat):
    """a spreadsheet with repeated rows and cells keeps its grid"""
    s = Scratch(ctx)
    a, b, c = [ctx.fork(ctx.int(n, 1, 3)) for n in 'abc']
    table = ('<table:table table:name="A"><table:table-column table:number-columns-repeated="%d"/>'
             '<table:table-row table:number-rows-repeated="%d"><table:table-cell office:value-type="float" office:value="1" table:number-columns-repeated="%d"/>'
             '<table:table-cell office:value-type="string"><text:p>x</text:p></table:table-cell></table:table-row>'
             '<table:table-row table:style-name="ro"><table:table-cell table:number-columns-repeated="%d" table:style-name="ce"/></table:table-row></table:table>'
             % (b + 1, a, b, b + 1))
    named = '<table:named-expressions><table:named-range table:name="n" table:cell-range-address="A.A1"/></table:named-expressions>'
    body = '<office:spreadsheet>%s<table:table table:name="B">%s</table:table>%s</office:spreadsheet>' % (
        table, '<table:table-column/><table:table-row><table:table-cell table:number-columns-repeated="%d"/></table:table-row>' % c, named)
    mime = PREFIX + 'spreadsheet'
    if is_flat:
        data = ('<?xml version="1.0" encoding="UTF-8"?><office:document %s office:mimetype="%s"><office:body>%s</office:body></office:document>' % (NS, mime, body)).encode('utf-8')
    else:
        parts = xmlparts(mime)
        parts['content.xml'] = ('<office:document-content %s><office:body>%s</office:body></office:document-content>' % (NS, body)).encode()
        data = package(mime, parts, OTHERS)
    s.write('in.dat', data)
    doc = ezodf.opendoc(s.name('in.dat'))
    if ctx.fork(ctx.bool('looked at')):
        ctx.check(doc.sheets['A'].nrows() == a + 1, 'rows')

    def verify(d, label):
        ctx.check(list(d.sheets.names()) == ['A', 'B'], label + ': sheets')
        sh = d.sheets['A']
        ctx.check((sh.nrows(), sh.ncols()) == (a + 1, b + 1), label + ': size')
        for i in range(a):
            ctx.check([sh[i, j].value for j in range(b + 1)] == [1.0] * b + ['x'], label + ': repeated row')
        ctx.check(all(sh[a, j].value is None and sh[a, j].style_name == 'ce' for j in range(b + 1)), label + ': last row')
        ctx.check(sh.row_info(a).style_name == 'ro' and sh.row_info(0).style_name is None, label + ': rows')
        ctx.check((d.sheets['B'].nrows(), d.sheets['B'].ncols()) == (1, c), label + ': second sheet')
        ctx.check([e.tag for e in d.body.xmlnode][-1] == CN('table:named-expressions'), label + ': named expressions')

    round_trip(ctx, s, doc, to, 'bytes', verify)
