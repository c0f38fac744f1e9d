"""C28 The package check accepts exactly the complete packages of the asked type."""
import struct
import zipfile
import zlib
from io import BytesIO
from symex.api import case
from harness.util import attempt
from harness.docworld import Scratch, OTHERS, PREFIX, NS, package, xmlparts, kind_of
from harness.c17 import ALL, EXT, TEMPLATES, WORD
from ezodf.filemanager import check_zipfile_for_oasis_validity as valid
import ezodf

BOUNDS = ('packages with the media type member first, later, compressed, with an extra field, followed or cut by further characters, or absent; every subset '
          'of the required members; every required manifest entry named by any text of up to 12 characters; the root entry with any media type of up to 4 (thorough 6) '
          'free characters, alone, after the common prefix or after a documented type; asked for each documented type; files that are no package; and the packages '
          'saved by the library for every document type, made new, from a template or opened (complete or without parts)')
ASSUMPTIONS = ['manifest entries are not repeated and the manifest is well-formed', 'the asked type is a byte string of ASCII characters']

NAMES = ('content.xml', 'meta.xml', 'styles.xml', 'META-INF/manifest.xml')
PATHS = ('content.xml', 'meta.xml', 'styles.xml', '/')


def manifest(entries):
    man = '<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0">'
    for n, m in entries:
        man = man + '<manifest:file-entry manifest:full-path="%s" manifest:media-type="%s"/>' % (n, m)
    return (man + '</manifest:manifest>').encode('utf-8')


def build(mimetype, entries, names=NAMES, first='first', extra=()):
    """a package; entries: (path, media type) of the manifest"""
    out = BytesIO()
    z = zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED)
    data = xmlparts(PREFIX + 'text')
    data['META-INF/manifest.xml'] = manifest(entries)
    mime = zipfile.ZipInfo('mimetype', (2010, 1, 2, 3, 4, 6))
    if first == 'compressed':
        mime.compress_type = zipfile.ZIP_DEFLATED
    elif first == 'extra':
        mime.extra = struct.pack('<HHI', 0xcafe, 4, 7)
    if first not in ('later', 'absent', 'second'):
        z.writestr(mime, mimetype)
    for i, n in enumerate(tuple(names) + tuple(extra)):
        if first == 'second' and i == 1 or first == 'later' and i == len(names) - 1:
            z.writestr(mime, mimetype)
        z.writestr(zipfile.ZipInfo(n, (2010, 1, 2, 3, 4, 6)), data.get(n, b'<x/>'))
    z.close()
    return out.getvalue()


def entries(root, paths=PATHS):
    return [(p, root if p == '/' else 'text/xml') for p in paths]


def ask(ctx, s, data, mimetype, expected, label):
    s.write('p.odt', data)
    got = valid(s.name('p.odt'), mimetype.encode('ascii'))
    ctx.check(ctx.eq(got is True, expected) if got is True or got is False else False, label)
    ctx.check(s.read('p.odt') == data and s.list() == ['p.odt'], 'the file is only read')


@case('C28', quick=[{'doctype': t} for t in EXT])
def complete(ctx, doctype):
    """the type of a complete package, and no other"""
    s = Scratch(ctx)
    mimetype = ALL[doctype][0]
    member = ctx.choice('member', ('same', 'longer', 'shorter', 'template', 'line'))
    inside = {'same': mimetype, 'longer': mimetype + '2', 'shorter': mimetype[:-1], 'line': mimetype + '\n',
              'template': mimetype[:-9] if mimetype.endswith('-template') else mimetype + '-template'}[member]
    root = ctx.choice('root', ('asked', 'inside'))
    data = build(inside, entries(mimetype if root == 'asked' else inside))
    ask(ctx, s, data, mimetype, inside == mimetype, 'the media type member')
    other = ctx.choice('asked', tuple(EXT))
    ask(ctx, s, data, ALL[other][0], inside == ALL[other][0] and (root == 'inside' or inside == mimetype), 'asked for another type')


@case('C28')
def place(ctx):
    """the media type member is the first, and stored as it is"""
    s = Scratch(ctx)
    mimetype = ALL[ctx.choice('type', ('odt', 'ods', 'otg'))][0]
    first = ctx.choice('member is', ('first', 'later', 'second', 'compressed', 'extra', 'absent'))
    data = build(mimetype, entries(mimetype), first=first, extra=ctx.choice('more', ((), ('settings.xml', 'Pictures/a.png'))))
    ask(ctx, s, data, mimetype, first == 'first', 'place of the media type')


@case('C28')
def disguised(ctx):
    """a member whose name looks like the media type member"""
    s = Scratch(ctx)
    mimetype = PREFIX + 'text'
    out = BytesIO()
    z = zipfile.ZipFile(out, 'w', zipfile.ZIP_DEFLATED)
    z.writestr(zipfile.ZipInfo('mimetype' + mimetype, (2010, 1, 2, 3, 4, 6)), b'')
    data = xmlparts(mimetype)
    data['META-INF/manifest.xml'] = manifest(entries(mimetype))
    for n in NAMES:
        z.writestr(zipfile.ZipInfo(n, (2010, 1, 2, 3, 4, 6)), data[n])
    if ctx.bool('and the member'):
        z.writestr(zipfile.ZipInfo('mimetype', (2010, 1, 2, 3, 4, 6)), ctx.choice('content', (mimetype, 'text/plain')))
    z.close()
    ask(ctx, s, out.getvalue(), mimetype, False, 'another member first')


@case('C28')
def members(ctx):
    """every required member"""
    s = Scratch(ctx)
    mimetype = ALL[ctx.choice('type', ('odt', 'otp'))][0]
    have = [ctx.bool('has ' + n) for n in NAMES]
    names = [n for n, h in zip(NAMES, have) if h]
    extra = ctx.choice('more', ((), ('settings.xml', 'Object 1/content.xml', 'Object 1/meta.xml'), ('Content.xml', 'styles.xml.bak', 'meta')))
    data = build(mimetype, entries(mimetype), names, extra=extra)
    ask(ctx, s, data, mimetype, ctx.all(have), 'required members')


@case('C28', quick=[{'which': p} for p in PATHS])
def listed(ctx, which):
    """every required manifest entry, under its exact path"""
    s = Scratch(ctx)
    mimetype = PREFIX + 'spreadsheet'
    name = ctx.text('path', 12, ((0x2d, 0x39), (0x61, 0x7a)))
    paths = [p for p in PATHS if p != which]
    for p in paths:
        ctx.assume(ctx.not_(ctx.eq(name, p)))
    ents = entries(mimetype, paths)
    at = ctx.choice('at', (0, 2, 3))
    ents.insert(at, (name, mimetype if ctx.choice('media', ('the type', 'xml')) == 'the type' else 'text/xml'))
    good = ents[at][1] == mimetype or which != '/'
    s.write('p.odt', build(mimetype, ents))
    got = valid(s.name('p.odt'), mimetype.encode('ascii'))
    ctx.check(ctx.eq(got, ctx.all([ctx.eq(name, which), good])), 'listed under its path')


@case('C28')
def unlisted(ctx):
    s = Scratch(ctx)
    mimetype = PREFIX + 'text'
    have = [ctx.bool('lists ' + p) for p in PATHS]
    ents = entries(mimetype, [p for p, h in zip(PATHS, have) if h])
    for p in ctx.choice('more', ((), ('settings.xml', 'Object 1/content.xml', 'Object 1/'), ('Content.xml', './meta.xml', ''))):
        ents.append((p, mimetype))
    data = build(mimetype, ents)
    ask(ctx, s, data, mimetype, ctx.all(have), 'required manifest entries')


@case('C28', quick=[{'how': h} for h in ('alone', 'prefix', 'suffix')])
def root_type(ctx, how):
    """the root entry has the asked type"""
    s = Scratch(ctx)
    mimetype = ALL[ctx.choice('type', ('odt', 'ots', 'odi'))][0]
    t = ctx.text('media', ctx.q(4, 6), WORD)
    if how == 'prefix':
        t = PREFIX + t
    elif how == 'suffix':
        t = mimetype + t
    s.write('p.odt', build(mimetype, entries(t)))
    got = valid(s.name('p.odt'), mimetype.encode('ascii'))
    ctx.check(ctx.eq(got, ctx.eq(t, mimetype)), 'media type of the root entry')


@case('C28')
def no_root_type(ctx):
    s = Scratch(ctx)
    mimetype = PREFIX + 'text'
    data = build(mimetype, entries(mimetype))
    good = zipfile.ZipFile(BytesIO(data)).read('META-INF/manifest.xml')
    cut = good.replace(b' manifest:media-type="%s"' % mimetype.encode(), b'')
    out = BytesIO()
    with zipfile.ZipFile(BytesIO(data)) as a, zipfile.ZipFile(out, 'w') as b:
        for i in a.infolist():
            b.writestr(i, cut if i.filename == 'META-INF/manifest.xml' else a.read(i))
    ask(ctx, s, out.getvalue(), mimetype, False, 'a root entry without type')


@case('C28')
def junk(ctx):
    """what is no package"""
    s = Scratch(ctx)
    mimetype = PREFIX + 'text'
    good = build(mimetype, entries(mimetype))
    data = ctx.choice('junk', (b'', b'junk', b'PK\x03\x04', b' ' * 30 + b'mimetype' + mimetype.encode(), good[:200], good[:-200], good[:30] + b'mimetype' + mimetype.encode(), b'\x00' + good))
    ask(ctx, s, data, mimetype, False, 'junk')
    ctx.check(valid(s.name('missing.odt'), mimetype.encode()) is False, 'a missing file')
    ctx.check(s.list() == ['p.odt'], 'nothing is written')


HOWS = ('new', 'template', 'file', 'stream', 'without parts', 'by manifest', 'no manifest')


@case('C28', quick=[{'doctype': t} for t in EXT])
def saved(ctx, doctype):
    """every package the library writes passes under its type only"""
    s = Scratch(ctx)
    mimetype = ALL[doctype][0]
    how = ctx.choice('how', HOWS)
    base = 'doc.' + doctype
    if how == 'new':
        doc = ezodf.newdoc(doctype, s.name(base))
    elif how == 'template':
        doc = ezodf.newdoc(filename=s.name(base), template=BytesIO(package(mimetype, others=OTHERS)))
        mimetype = ALL[TEMPLATES.get(doctype, doctype)][0]
    else:
        data = package(mimetype, others=OTHERS, drop=('styles.xml', 'meta.xml') if how == 'without parts' else (), mimemember=how != 'by manifest',
                       manifest=how != 'no manifest', order=ctx.choice('order', ('mimetype first', 'others first')))
        if how == 'stream':
            doc = ezodf.opendoc(BytesIO(data))
        else:
            s.write(base, data)
            doc = ezodf.opendoc(s.name(base))
    doc.meta['title'] = ctx.text('title', 1)
    target = ctx.choice('target', ('save', 'saveas', 'stream', 'bytes'))
    if target == 'save' and doc.docname is not None:
        doc.save()
    elif target == 'stream':
        out = BytesIO()
        doc.saveas(out)
        s.write(base, out.getvalue())
    elif target == 'bytes':
        s.write(base, doc.tobytes())
    else:
        doc.saveas(s.name(base))
    ctx.check(valid(s.name(base), mimetype.encode()) is True, 'a saved document is valid')
    for other in EXT:
        ctx.check(valid(s.name(base), ALL[other][0].encode()) is (ALL[other][0] == mimetype), 'it is valid under its type only')


@case('C28')
def pieces(ctx):
    """characters before an archive that look like its beginning"""
    s = Scratch(ctx)
    mimetype = PREFIX + 'text'
    look = b'PK\x03\x04' + b' ' * 26 + b'mimetype' + mimetype.encode()
    kind = ctx.choice('archive', ('empty', 'complete', 'without'))
    if kind == 'empty':
        out = BytesIO()
        zipfile.ZipFile(out, 'w').close()
        data = out.getvalue()
    else:
        data = build(mimetype, entries(mimetype), first='first' if kind == 'complete' else 'absent')
    ask(ctx, s, look + data, mimetype, False, 'other characters first')


@case('C28')
def directory_order(ctx):
    """the order of the directory at the end of the package does not count"""
    s = Scratch(ctx)
    mimetype = PREFIX + ctx.choice('type', ('text', 'image'))
    out = BytesIO()
    first = ctx.choice('member', ('mimetype', 'content.xml'))
    data = dict(xmlparts(PREFIX + 'text'), mimetype=mimetype.encode())
    data['META-INF/manifest.xml'] = manifest(entries(mimetype))
    z = zipfile.ZipFile(out, 'w')
    for n in sorted(data, key=lambda n: (n != first, n)):
        z.writestr(zipfile.ZipInfo(n, (2010, 1, 2, 3, 4, 6)), data[n])
    z.filelist.reverse() if ctx.bool('reversed') else None
    z.close()
    ask(ctx, s, out.getvalue(), mimetype, first == 'mimetype', 'the first member of the data')
