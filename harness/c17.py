"""C17 Documents are created and opened with the type their content declares."""
from io import BytesIO
from symex.api import case
from harness.docworld import Scratch, OTHERS, PREFIX, package, flat, members, xmlparts, kind_of, NS, BODY
from harness.doccheck import MANIFEST, tree, content
from harness.util import attempt
from ezodf.xmlns import etree, CN
import ezodf

BOUNDS = ('all 16 documented types (created, opened; formula documents are a known finding), each from a file (any extension), stream or bytes, packaged or flat XML, '
          'declared by the mimetype member, only by the root entry of the manifest or only by the file extension, with and without styles.xml, meta.xml, content.xml and '
          'other members; the declared type is also a free text of 0..4 (thorough 0..6) characters after the common prefix, or of 0..6 alone, '
          'in each place that declares it; saved to the same or another file, a stream or bytes, reopened from each kind of source, saved and reopened again; '
          '8 kinds of junk instead of a document')
ASSUMPTIONS = ['the mimetype member and the root entry of the manifest, if both exist, agree in the opened package',
               'body elements are those of the ODF specification', 'zipfile and lxml do what they document']

# the documented types and the body element the specification demands
TYPES = {'odt': ('text', 'office:text'), 'odg': ('graphics', 'office:drawing'), 'odp': ('presentation', 'office:presentation'),
         'ods': ('spreadsheet', 'office:spreadsheet'), 'odc': ('chart', 'office:chart'), 'odi': ('image', 'office:image'),
         'odm': ('text-master', 'office:text'), 'oth': ('text-web', 'office:text')}
TEMPLATES = {'ott': 'odt', 'otg': 'odg', 'otp': 'odp', 'ots': 'ods', 'otc': 'odc', 'oti': 'odi'}
FORMULA = ('odf', 'otf')
ALL = {}
for _t, (_k, _b) in TYPES.items():
    ALL[_t] = (PREFIX + _k, _b)
for _t, _u in TEMPLATES.items():
    ALL[_t] = (PREFIX + TYPES[_u][0] + '-template', TYPES[_u][1])
EXT = tuple(sorted(ALL))
BY_MIME = dict((m, (t, b)) for t, (m, b) in ALL.items())
WORD = ((0x2d, 0x2e), (0x41, 0x5a), (0x61, 0x7a))


def agrees(ctx, doc, mimetype, doctype, body, label):
    ctx.check(ctx.eq(doc.mimetype, mimetype), label + ': mimetype')
    ctx.check(ctx.eq(doc.doctype, doctype), label + ': doctype')
    ctx.check(doc.body.xmlnode.tag == CN(body), label + ': body element')
    parent = doc.body.xmlnode.getparent()
    ctx.check(parent.tag == CN('office:body') and len(parent) == 1, label + ': the only body')
    ctx.check(hasattr(doc, 'sheets') == (body == 'office:spreadsheet'), label + ': sheets')
    ctx.check(hasattr(doc, 'pages') == (body in ('office:drawing', 'office:presentation')), label + ': pages')


def saved(ctx, data, mimetype, body, label):
    """what a package declares"""
    mem = members(data)
    ctx.check(mem is not None, label + ': a package')
    found = dict((m[0], m[1]) for m in mem)
    ctx.check(len(found) == len(mem) and mem[0][0] == 'mimetype', label + ': one mimetype member, the first')
    ctx.check(found['mimetype'] == mimetype.encode(), label + ': mimetype member')
    roots = [e.get(CN('manifest:media-type')) for e in etree.XML(found[MANIFEST]) if e.get(CN('manifest:full-path')) == '/']
    ctx.check(len(roots) == 1, label + ': one root entry')
    ctx.check(ctx.eq(roots[0], mimetype), label + ': root entry of the manifest')
    bodies = [b.tag for e in etree.XML(found['content.xml']) if e.tag == CN('office:body') for b in e]
    ctx.check(bodies == [CN(body)], label + ': body element')
    return found


def write(ctx, s, doc, target, base):
    if target == 'bytes':
        return doc.tobytes()
    if target == 'stream':
        out = BytesIO()
        doc.saveas(out)
        return out.getvalue()
    if target == 'same':
        doc.save()
    else:
        doc.saveas(s.name(base))
    return s.read(base)


def reopen(ctx, s, data, source, ext):
    if source == 'bytes':
        return ezodf.opendoc(data)
    if source == 'stream':
        return ezodf.opendoc(BytesIO(data))
    s.write('again.' + ext, data)
    return ezodf.opendoc(s.name('again.' + ext))


def round_trip(ctx, s, doc, mimetype, doctype, body, label, targets, base, is_flat=False):
    target = ctx.choice('target', targets)
    data = write(ctx, s, doc, target, base)
    ctx.check(data is not None, label + ': saved')
    source = ctx.choice('source', ['file', 'stream', 'bytes'])
    for n in (1, 2):
        lab = '%s, saved %d' % (label, n)
        if is_flat:
            ctx.check(etree.XML(data).get(CN('office:mimetype')) == mimetype, lab + ': office:mimetype')
        else:
            saved(ctx, data, mimetype, body, lab)
        # the extension says nothing about the content
        again = reopen(ctx, s, data, source, 'dat')
        agrees(ctx, again, mimetype, doctype, body, lab + ', reopened')
        data = write(ctx, s, again, 'bytes' if is_flat or n == 2 else 'stream', None)
    return data


@case('C17', quick=[{'doctype': t} for t in EXT], thorough=[{'doctype': t} for t in EXT])
def new(ctx, doctype):
    s = Scratch(ctx)
    mimetype, body = ALL[doctype]
    name = ctx.choice('name', ['file', 'stream', 'none'])
    out = BytesIO()
    if name == 'none':
        doc = ezodf.newdoc(doctype)
    else:
        doc = ezodf.newdoc(doctype, s.name('new.xyz') if name == 'file' else out)
    agrees(ctx, doc, mimetype, doctype, body, 'new')
    ctx.check(content(doc.body.xmlnode) == [], 'nothing in a new document')
    if name == 'stream':
        doc.save()
        saved(ctx, out.getvalue(), mimetype, body, 'its stream')
    targets = ['other', 'stream', 'bytes'] + (['same'] if name == 'file' else [])
    round_trip(ctx, s, doc, mimetype, doctype, body, 'new', targets, 'new.xyz')


@case('C17', quick=[{'doctype': t} for t in FORMULA])
def formula(ctx, doctype):
    doc, exc = attempt(ezodf.newdoc, doctype)
    ctx.check(exc is None, 'formula documents can be created')


@case('C17', quick=[{}])
def new_unknown(ctx):
    t = ctx.text('doctype', 3, WORD)
    known = EXT + FORMULA
    ctx.assume(ctx.all([ctx.not_(ctx.eq(t, k)) for k in known]))
    ctx.check(attempt(ezodf.newdoc, t)[1] is not None, 'unknown type refused')
    ctx.check(attempt(ezodf.newdoc, 'odt' + t)[1] is not None or ctx.eq(t, ''), 'unknown type refused')


@case('C17', quick=[{'doctype': t, 'source': k} for t in EXT for k in ('file', 'stream', 'bytes')])
def template(ctx, doctype, source):
    s = Scratch(ctx)
    mimetype, body = ALL[doctype]
    result = TEMPLATES.get(doctype, doctype)
    declared = ctx.choice('declared', ['member', 'manifest'])
    data = package(mimetype, others=OTHERS, mimemember=declared == 'member')
    s.write('tpl.zip', data)
    tpl = s.name('tpl.zip') if source == 'file' else BytesIO(data) if source == 'stream' else data
    # the parameter doctype is ignored
    doc = ezodf.newdoc(ctx.choice('asked', ['odt', 'ods', doctype]), s.name('new.xyz'), tpl)
    agrees(ctx, doc, ALL[result][0], result, body, 'from a template')
    ctx.check(doc.docname == s.name('new.xyz'), 'name of the new document')
    want = content(etree.XML('<x %s>%s</x>' % (NS, BODY[kind_of(mimetype)]))[0])
    ctx.check(ctx.eq(content(doc.body.xmlnode), want), 'content of the template')
    ctx.check(doc.meta['title'] == 'a title' and list(doc.meta.keywords) == ['kw'] and doc.meta.usertags['tag'] == 'value', 'metadata of the template')
    ctx.check(doc.styles.styles['S'].xmlnode.get(CN('style:family')) == 'paragraph', 'styles of the template')
    data2 = round_trip(ctx, s, doc, ALL[result][0], result, body, 'from a template', ['same', 'stream', 'bytes'], 'new.xyz')
    found = dict((m[0], m[1]) for m in members(data2))
    for n, d, m, c in OTHERS:
        ctx.check(found.get(n) == d, 'member of the template ' + n)
    again = ezodf.opendoc(data2)
    ctx.check(ctx.eq(content(again.body.xmlnode), want), 'content of the template, saved')
    ctx.check(s.read('tpl.zip') == data, 'the template is not changed')


@case('C17', quick=[{'doctype': t} for t in EXT])
def opened(ctx, doctype):
    s = Scratch(ctx)
    mimetype, body = ALL[doctype]
    form = ctx.choice('form', ['member', 'manifest', 'both', 'no manifest', 'extension', 'flat'])
    drop = ()
    if form != 'flat':
        drop = ctx.choice('drop', [(), ('styles.xml', 'meta.xml'), ('content.xml',)])
    if form == 'flat':
        data = flat(mimetype)
    else:
        data = package(mimetype, others=OTHERS, drop=drop, mimemember=form in ('member', 'both', 'no manifest'),
                       root=form in ('manifest', 'both'), manifest=form != 'no manifest')
    source = 'file'
    if form != 'extension':
        source = ctx.choice('from', ['file', 'stream', 'bytes'])
    base = 'in.' + (doctype if form == 'extension' else ctx.choice('ext', ['odt', 'ods', 'zip']) if source == 'file' else 'odt')
    s.write(base, data)
    doc = ezodf.opendoc(s.name(base) if source == 'file' else BytesIO(data) if source == 'stream' else data)
    agrees(ctx, doc, mimetype, doctype, body, 'opened')
    if source == 'file':
        ctx.check(doc.docname == s.name(base), 'name of the document')
    if 'content.xml' not in drop:
        want = content(etree.XML('<x %s>%s</x>' % (NS, BODY[kind_of(mimetype)]))[0])
        ctx.check(ctx.eq(content(doc.body.xmlnode), want), 'content')
    targets = ['bytes', 'other'] + (['same'] if source == 'file' else []) + (['stream'] if form != 'flat' else [])
    round_trip(ctx, s, doc, mimetype, doctype, body, 'opened', targets, base if doc.docname else 'out.dat', form == 'flat')


def declare(where, mimetype):
    if where == 'flat':
        return ('<?xml version="1.0" encoding="UTF-8"?><office:document %s office:mimetype="%s"><office:body/></office:document>' % (NS, mimetype)).encode('utf-8')
    parts = {'content.xml': ('<office:document-content %s><office:body/></office:document-content>' % NS).encode()}
    if where == 'manifest':
        man = ('<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"><manifest:file-entry '
               'manifest:full-path="/" manifest:media-type="%s"/></manifest:manifest>' % mimetype).encode('utf-8')
        parts['META-INF/manifest.xml'] = man
        return package(PREFIX + 'text', parts, (), mimemember=False, manifest=False)
    others = [('mimetype', mimetype.encode('utf-8'), '', 0)]
    return package(PREFIX + 'text', parts, others, mimemember=False, manifest=False, order='others first')


@case('C17', quick=[{'where': w, 'how': h, 'as_template': False} for w in ('member', 'manifest', 'flat') for h in ('prefix', 'alone', 'suffix')] +
      [{'where': w, 'how': h, 'as_template': True} for w in ('member', 'manifest') for h in ('prefix', 'alone', 'suffix')])
def declared(ctx, where, how, as_template):
    """the declared type decides: any other than the documented ones is refused"""
    t = ctx.text('type', ctx.q(4, 6), WORD)
    if how == 'prefix':
        t = PREFIX + t
    elif how == 'suffix':
        t = PREFIX + 'text' + t
    data = declare(where, t)
    doc, exc = attempt(ezodf.newdoc, 'odt', '', data) if as_template else attempt(ezodf.opendoc, data)
    for m, (doctype, body) in BY_MIME.items():
        if ctx.fork(ctx.eq(t, m)):
            ctx.check(exc is None, 'documented type accepted')
            r = TEMPLATES.get(doctype, doctype) if as_template else doctype
            agrees(ctx, doc, ALL[r][0], r, body, 'declared')
            return
    ctx.check(exc is not None, 'any other type is refused')


@case('C17', quick=[{}])
def junk(ctx):
    """what is no document is refused"""
    s = Scratch(ctx)
    good = package(PREFIX + 'text', others=())
    html = b'<html><body/></html>'
    wrong = package(PREFIX + 'text', {'content.xml': html, 'styles.xml': b'<a/>', 'meta.xml': b'<b/>'}, ())
    data = ctx.choice('junk', [b'', b'junk', html, good[:200], good[:-200], b'<office:document/>', b'\x00' * 40, wrong,
                               b'<office:document-content %s/>' % NS.encode()])
    s.write('junk.odt', data)
    for label, src in (('file', s.name('junk.odt')), ('stream', BytesIO(data)), ('bytes', data)):
        ctx.check(attempt(ezodf.opendoc, src)[1] is not None, 'junk refused: ' + label)
        ctx.check(attempt(ezodf.newdoc, 'odt', '', src)[1] is not None, 'junk template refused: ' + label)
    ctx.check(attempt(ezodf.opendoc, s.name('missing.odt'))[1] is not None, 'missing file refused')
    ctx.check(attempt(ezodf.newdoc, 'odt', '', s.name('missing.ott'))[1] is not None, 'missing template refused')
    ctx.check(s.list() == ['junk.odt'] and s.read('junk.odt') == data, 'nothing is written')
