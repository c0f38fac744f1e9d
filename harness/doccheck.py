"""Documents under test and the package oracle."""
from io import BytesIO
import os
import zipfile
from harness.docworld import package, members, flat, PREFIX
from harness.tabmodel import snapshot
from ezodf.xmlns import etree, CN, wrap
from ezodf.text import Paragraph
import ezodf

MIME = PREFIX + 'text'
MANIFEST = 'META-INF/manifest.xml'


def norm(snap):
    """'' and None are the same text in a file"""
    tag, text, tail, attrs, kids = snap
    return [tag, text or '', tail or '', attrs, [norm(k) for k in kids]]


def tree(node):
    s = norm(snapshot(node))
    s[2] = ''
    return s


DECLS = (CN('text:variable-decls'), CN('text:user-field-decls'))


def content(body):
    """the elements of the body, without empty declarations"""
    return [tree(e) for e in body if not (e.tag in DECLS and len(e) == 0)]


class Doc(object):
    """A text document opened (or created) in one of the documented ways."""

    def __init__(self, ctx, scratch, how, others=(), drop=(), base='doc.odt', mime=MIME):
        self.ctx, self.scratch, self.how, self.base = ctx, scratch, how, base
        template = how.startswith('template')
        self.others = dict((n, d) for n, d, m, c in others)
        self.entries = dict((n, m) for n, d, m, c in others)
        self.source = None
        self.mime = mime
        if how != 'new':
            self.source = package(mime + ('-template' if template else ''), others=others, drop=drop)
            scratch.write(base if not template else 'tpl.ott', self.source)
        name = scratch.name(base)
        if how == 'new':
            self.doc = ezodf.newdoc('odt', name)
        elif how == 'file':
            self.doc = ezodf.opendoc(name)
        elif how == 'stream':
            self.doc = ezodf.opendoc(BytesIO(self.source))
        elif how == 'bytes':
            self.doc = ezodf.opendoc(self.source)
        elif how == 'template':
            self.doc = ezodf.newdoc(filename=name, template=scratch.name('tpl.ott'))
        elif how == 'template stream':
            self.doc = ezodf.newdoc(filename=name, template=BytesIO(self.source))
        self.managed = {'mimetype': '', 'content.xml': 'text/xml', 'styles.xml': 'text/xml', 'meta.xml': 'text/xml'}
        self.blobs = {}
        self.texts = [] if how == 'new' or 'content.xml' in drop else ['first', 'second']

    def edit(self, text):
        self.doc.body.append(Paragraph(text))
        self.texts = self.texts + [text]

    def register(self, name, data, mime):
        self.doc.filemanager.register(name, data, mime)
        self.managed[name] = mime
        self.blobs[name] = data
        self.others.pop(name, None)

    def save(self, target, n=0):
        """saves and returns the bytes saved"""
        s = self.scratch
        if target == 'bytes':
            return self.doc.tobytes()
        if target == 'stream':
            out = BytesIO()
            self.doc.saveas(out)
            return out.getvalue()
        base = {'same': self.base, 'other': 'other.odt', 'third': 'third.odt', 'sub': 'sub/deep.odt'}[target]
        if target == 'same' and self.how in ('file', 'new', 'template') and n == 0:
            self.doc.save()
        else:
            self.doc.saveas(s.name(base))
        data = s.read(base)
        self.ctx.check(data is not None, 'the file exists after saving')
        return data


class FlatDoc(object):
    """the interface of Doc for a flat XML document"""

    def __init__(self, ctx, scratch, name):
        self.base, self.how, self.scratch = name, 'flat', scratch
        self.source = flat(MIME)
        scratch.write(name, self.source)
        self.doc = ezodf.opendoc(scratch.name(name))
        self.others = {}
        self.texts = ['first', 'second']

    def edit(self, text):
        self.doc.body.append(Paragraph(text))
        self.texts = self.texts + [text]


class Bomb(Exception):
    pass


def check_flat(ctx, d, data, label):
    root = etree.XML(data)
    ctx.check(data.startswith(b'<?xml'), label + ': XML declaration')
    ctx.check(ctx.eq(tree(root), tree(d.doc.xmlnode)), label + ': the whole document')
    saved = [p.plaintext() for p in opened_paragraphs(data)]
    ctx.check(len(saved) == len(d.texts) and ctx.all([ctx.eq(a, b) for a, b in zip(saved, d.texts)]), label + ': the paragraphs')


def opened_paragraphs(xml):
    return [wrap(p) for p in etree.XML(xml).iter(CN('text:p'))]


def check_package(ctx, d, data, label, parts=True):
    """the package holds every managed part with its content and all other members"""
    doc = d.doc
    mem = members(data)
    ctx.check(mem is not None, label + ': a complete zip file')
    names = [m[0] for m in mem]
    ctx.check(sorted(names) == sorted(list(d.managed) + [MANIFEST] + list(d.others)), label + ': each member exactly once', names)
    ctx.check(names[0] == 'mimetype' and mem[0][2] == zipfile.ZIP_STORED, label + ': uncompressed mimetype first')
    ctx.check(data[30:38] == b'mimetype' and data[38:38 + len(d.mime)] == d.mime.encode(), label + ': mimetype at byte 30')
    content = dict((m[0], m[1]) for m in mem)
    ctx.check(content['mimetype'] == d.mime.encode(), label + ': mimetype')
    for n in d.others:
        ctx.check(content[n] == d.others[n], label + ': member ' + n)
    for n in d.blobs:
        want = d.blobs[n]
        ctx.check(content[n] == want if isinstance(want, bytes) else ctx.eq(str(content[n], 'utf-8'), want), label + ': registered part ' + n)
    for n, part in (('content.xml', doc.content), ('styles.xml', doc.styles), ('meta.xml', doc.meta), (MANIFEST, doc.filemanager.manifest)):
        ctx.check(content[n].startswith(b'<?xml'), label + ': XML declaration of ' + n)
        ctx.check(ctx.eq(tree(etree.XML(content[n])), tree(part.xmlnode)), label + ': content of ' + n)
    saved = [p.plaintext() for p in opened_paragraphs(content['content.xml'])]
    ctx.check(len(saved) == len(d.texts) and ctx.all([ctx.eq(a, b) for a, b in zip(saved, d.texts)]), label + ': the paragraphs')
    listed = {}
    for e in etree.XML(content[MANIFEST]):
        path = e.get(CN('manifest:full-path'))
        ctx.check(path not in listed, label + ': listed once', path)
        listed[path] = e.get(CN('manifest:media-type'))
    ctx.check(listed.get('/') == d.mime, label + ': root entry of the manifest')
    for n, m in d.managed.items():
        ctx.check(listed.get(n) == m, label + ': manifest entry of ' + n)
    for n, m in d.entries.items():
        if n in d.others:
            ctx.check(listed.get(n) == m, label + ': kept manifest entry ' + n)
    return content
