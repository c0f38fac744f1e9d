"""C14 A saved package holds the current parts first-class and all other members intact."""
import zipfile
from symex.api import case
from symex import literals
from harness.docworld import Scratch, OTHERS
from harness.doccheck import Doc, check_package

BOUNDS = ('text documents opened from a file, stream or bytes, new or from a template (file or stream), with up to 5 other members '
          '(stored, deflated, a directory entry, non-ASCII and nested names) and missing styles.xml, meta.xml or content.xml; a paragraph with free '
          'text of 1 (thorough 1..2) visible characters is added, a part (bytes or free text of 3 characters) is registered under a new or an existing '
          'name; saved twice, with an edit in between (and the original file removed, if the document lives elsewhere), to the same file, other (existing or not, absolute or relative) files, a stream or bytes; '
          'quick: 6 pairs of targets for every kind of document, thorough: all 25'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['member names in the opened package are unique, members are not encrypted',
               'zipfile and lxml do what they document (the real zipfile runs on content in which free text is a placeholder)']

VISIBLE = ((0x21, 0xd7ff),)
TARGETS = ('same', 'other', 'third', 'stream', 'bytes')
HOWS = ('file', 'stream', 'bytes', 'new', 'template', 'template stream')


def _quick():
    pairs = [('same', 'same'), ('other', 'third'), ('stream', 'same'), ('bytes', 'other'), ('other', 'same'), ('same', 'bytes')]
    return [{'how': h, 'to': t, 'again': a} for h in HOWS for t, a in pairs]


def _thorough():
    return [{'how': h, 'to': t, 'again': a} for h in HOWS for t in TARGETS for a in TARGETS]


@case('C14', quick=_quick(), thorough=_thorough())
def save(ctx, how, to, again):
    s = Scratch(ctx, ctx.bool('relative'))
    others, drop = [], ()
    if how != 'new':
        others, drop = ctx.choice('members', [(OTHERS, ()), (OTHERS[1:], ('styles.xml',)), (OTHERS[2:], ('meta.xml', 'content.xml')), ([], ())])
    doc = Doc(ctx, s, how, others, drop)
    if 'other' in (to, again) and ctx.bool('existing'):
        s.write('other.odt', b'some other file')
    doc.edit(ctx.text('t1', ctx.q(1, 2), VISIBLE, 1))
    reg = ctx.choice('register', ['no', 'new', 'new text', 'replace', 'empty'])
    if reg != 'no':
        name = 'Pictures/p1.png' if reg == 'replace' else 'Pictures/new one.png'
        doc.register(name, ctx.text('blob', 3, None, 3) if reg == 'new text' else b'' if reg == 'empty' else b'\x00\xff' * 40, ctx.choice('mime', ('image/png', 'image/gif', '')))
        if ctx.bool('register twice'):
            doc.register(name, b'other', 'application/x')
    for n, target in enumerate((to, again)):
        data = doc.save(target, n)
        check_package(ctx, doc, data, 'save %d' % n)
        doc.edit('more %d' % n)
        if n == 0 and (to == 'other' or 'stream' in how or how == 'bytes') and ctx.bool('source removed'):
            s.unlink('tpl.ott' if how.startswith('template') else doc.base)
    ctx.observe(sorted(doc.scratch.list()))


MODULES = ('filemanager', 'manifest', 'document', 'bytestreammanager', 'filenames')


def noise(n, x=1):
    """bytes that can hardly be compressed"""
    out = bytearray()
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 0xff)
    return bytes(out)


BIG = noise(70000)


@case('C14', quick=[{'what': w} for w in ('large', 'many', 'names')])
def unusual(ctx, what):
    """large members, many members, names the code mentions itself"""
    s = Scratch(ctx)
    if what == 'large':
        kind = ctx.choice('kind', ('noise', 'zeros', 'text'))
        size = ctx.choice('size', (65535, 65536, 65537, 200000))
        data = (BIG * 3)[:size] if kind == 'noise' else b'\0' * size if kind == 'zeros' else b'<a>text</a>' * (size // 11 + 1)
        others = OTHERS + [('Pictures/big.bin', data, 'application/octet-stream', ctx.choice('method', (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED)))]
    elif what == 'many':
        n = ctx.choice('n', tuple(sorted(set([40] + literals.ints(MODULES, 3, 300)))))
        others = OTHERS + [('Pictures/%d.png' % i, b'data %d' % i, 'image/png', (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED)[i % 2]) for i in range(n)]
    else:
        more = ('Object 1/content.xml', 'Object 1/styles.xml', 'Object 1/meta.xml', 'Object 1/mimetype', 'x.tmp', 'x.bak', 'Pictures/', 'content.xml.bak',
                'META-INF/documentsignatures.xml', 'META-INF/other/manifest.xml', 'manifest.xml', 'Mimetype', 'CONTENT.XML', './content.xml', ' ', '.', 'a//b',
                'content.xml/x', 'Thumbnails/thumbnail.png', 'layout-cache')
        taken = [o[0] for o in OTHERS] + ['mimetype', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml']
        names = [n for n in list(more) + [n for n in literals.strs(MODULES, limit=30) if n not in more] if n not in taken]
        others = OTHERS[:2] + [(ctx.choice('name', tuple(names)), b'member', 'x/y', zipfile.ZIP_DEFLATED)]
    doc = Doc(ctx, s, ctx.choice('how', ('file', 'stream', 'template')), others, ())
    doc.edit(ctx.text('t', 1, VISIBLE, 1))
    for n, target in enumerate(ctx.choice('targets', (('same', 'other'), ('bytes', 'same')))):
        data = doc.save(target, n)
        check_package(ctx, doc, data, 'save %d' % n)
        doc.edit('more %d' % n)
