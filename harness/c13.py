"""C13 The manifest lists every path once with its latest media type."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text
from harness.tabmodel import snapshot
from ezodf.manifest import Manifest
from ezodf.filemanager import FileManager
from ezodf.xmlns import CN, etree

BOUNDS = ('new and loaded manifests (3 entries, encryption data, foreign children), sequences of 2..3 operations (thorough: 3) '
          'with free paths (0..1 characters, or the known paths), media types and versions (0..1 characters)'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a loaded manifest lists each path at most once']

LOADED = (b'<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0" manifest:version="1.2">'
          b'<manifest:file-entry manifest:full-path="/" manifest:version="1.2" manifest:media-type="application/x"/>'
          b'<manifest:file-entry manifest:full-path="a" manifest:media-type="" manifest:size="17"><manifest:encryption-data'
          b' manifest:checksum="c"/></manifest:file-entry>'
          b'<manifest:file-entry manifest:media-type="image/png" manifest:full-path="Pictures/1.png"/>'
          b'</manifest:manifest>')
PATH, TYPE, VERSION = CN('manifest:full-path'), CN('manifest:media-type'), CN('manifest:version')


def start(kind):
    """manifest and model: list of [path, media type, version, other attributes, children]"""
    if kind == 'new':
        return Manifest(), []
    m = Manifest(LOADED)
    return m, [['/', 'application/x', '1.2', 0, 0], ['a', '', None, 1, 1], ['Pictures/1.png', 'image/png', None, 0, 0]]


def at(model, path):
    for i in range(len(model)):
        if model[i][0] == path:
            return i
    return -1


def check(ctx, manifest, model):
    nodes = [e for e in manifest.xmlnode]
    ctx.check(len(nodes) == len(model), 'number of entries')
    for e, (path, mt, version, other, kids) in zip(nodes, model):
        ctx.check(e.tag == CN('manifest:file-entry'), 'tag of an entry')
        ctx.check(e.get(PATH) == path, 'path and order of entries')
        ctx.check(e.get(TYPE) == mt, 'media type')
        ctx.check(ctx.eq(e.get(VERSION), version) if version is not None else e.get(VERSION) is None, 'version')
        ctx.check(len(e.attrib) == 2 + other + (version is not None), 'other attributes of an entry')
        ctx.check(len(e) == kids, 'children of an entry')
        ctx.check(manifest.find(path) is e, 'find returns the entry')
    ctx.check(manifest.find('META-INF/manifest.xml') is None, 'manifest is not listed')


def op(ctx, manifest, model, sfx, known, what=None):
    path = ctx.choice('path' + sfx, ('free', '/', 'a', 'META-INF/manifest.xml', 'Pictures/1.png') if known else ('free', 'META-INF/manifest.xml'))
    if path == 'free':
        path = ctx.text('p' + sfx, 1)
    i = at(model, path)
    what = what or ctx.choice('op' + sfx, ['add', 'addversion', 'addplain', 'remove', 'find'])
    if what == 'remove':
        manifest.remove(path)
        if i >= 0:
            del model[i]
    elif what == 'find':
        got = manifest.find(path)
        if i < 0:
            ctx.check(got is None, 'unknown path found')
        else:
            ctx.check(got is [e for e in manifest.xmlnode][i], 'entry of the path')
    else:
        mt, version = '', None
        if what == 'addplain':
            manifest.add(path)
        else:
            mt = ctx.text('mt' + sfx, 1)
            if what == 'addversion':
                version = ctx.text('v' + sfx, 1)
                manifest.add(path, mt, version)
            else:
                manifest.add(path, mt)
        if path == 'META-INF/manifest.xml':
            return
        if i < 0:
            model.append([path, mt, version, 0, 0])
        else:
            model[i][1] = mt
            if version is not None:
                model[i][2] = version


@case('C13', quick=[{'kind': 'new', 'n': 2}, {'kind': 'loaded', 'n': 2}], thorough=[{'kind': 'new', 'n': 3}, {'kind': 'loaded', 'n': 3}])
def sequence(ctx, kind, n):
    manifest, model = start(kind)
    check(ctx, manifest, model)
    for i in range(n):
        op(ctx, manifest, model, str(i), kind == 'loaded' or i < 2)
    check(ctx, manifest, model)
    again = Manifest(manifest.tobytes())
    check(ctx, again, model)
    ctx.observe([e.get(PATH) for e in again.xmlnode])


@case('C13', quick=[{'ops': o} for o in (('add', 'add', 'remove'), ('addversion', 'remove', 'add'), ('add', 'addversion', 'add'),
                                         ('remove', 'addversion', 'addversion'))])
def three(ctx, ops):
    manifest, model = start('loaded')
    for i, o in enumerate(ops):
        op(ctx, manifest, model, str(i), False, o)
    check(ctx, manifest, model)


@case('C13')
def registered(ctx):
    """parts registered with a file manager are listed, the manifest itself is not"""
    fm = FileManager()
    names = [ctx.text('a', 2, None, 1), ctx.text('b', 2, None, 1)]
    mts = [ctx.text('ma', 1), ctx.text('mb', 1)]
    for n, t in zip(names, mts):
        fm.register(n, 'content', t)
    fm.register('META-INF/manifest.xml', fm.manifest, 'text/xml')
    model = [[names[0], mts[0], None, 0, 0]]
    if names[0] == names[1]:
        model[0][1] = mts[1]
    else:
        model.append([names[1], mts[1], None, 0, 0])
    check(ctx, fm.manifest, model)


MODULES = ('manifest', 'filemanager', 'document', 'filenames', 'base')
WORDS = ('mimetype', 'META-INF/', 'META-INF/manifest.xml', 'META-INF/documentsignatures.xml', 'Pictures/', './a', '/a', 'a/', 'a b', '%20', 'A')


@case('C13', quick=[{'kind': k, 'what': w} for k in ('new', 'loaded') for w in ('path', 'type', 'version')])
def constants(ctx, kind, what):
    """paths, media types and versions the code mentions itself"""
    manifest, model = start(kind)
    t = special_text(ctx, 't', MODULES, WORDS, 30)
    path, mt, version = ('p', t, None) if what == 'type' else ('p', 'm', t) if what == 'version' else (t, 'm', None)
    for i in range(2):
        if version is None:
            manifest.add(path, mt)
        else:
            manifest.add(path, mt, version)
        k = at(model, path)
        if path == 'META-INF/manifest.xml':
            continue
        if k < 0:
            model.append([path, mt, version, 0, 0])
        else:
            model[k][1:3] = [mt, version if version is not None else model[k][2]]
    check(ctx, manifest, model)
    if what == 'path' and ctx.bool('remove'):
        other = ctx.choice('other', ('same', 'longer', 'shorter'))
        gone = path if other == 'same' else path + '/' if other == 'longer' else path[:len(path) - 1]
        manifest.remove(gone)
        k = at(model, gone)
        if k >= 0:
            del model[k]
    check(ctx, manifest, model)
    check(ctx, Manifest(manifest.tobytes()), model)


@case('C13')
def many(ctx):
    """many entries"""
    manifest, model = start('loaded')
    n = ctx.choice('n', tuple(sorted(set([12] + literals.ints(('manifest', 'filemanager'), 4, 70)))))
    for i in range(n):
        manifest.add('d/%d' % i, 'm')
        model.append(['d/%d' % i, 'm', None, 0, 0])
    path = 'd/%d' % ctx.choice('k', (0, 1, n // 2, n - 1, n))
    k = at(model, path)
    if ctx.bool('remove'):
        manifest.remove(path)
        if k >= 0:
            del model[k]
    else:
        mt = ctx.text('mt', 1)
        manifest.add(path, mt)
        if k >= 0:
            model[k][1] = mt
        else:
            model.append([path, mt, None, 0, 0])
    check(ctx, manifest, model)
