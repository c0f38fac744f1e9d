"""C16 A document stays fully usable after a failed save."""
from io import BytesIO
from symex.api import case
from harness.docworld import Scratch, Observer, FaultyStream, OTHERS
from harness.doccheck import Doc, FlatDoc, Bomb, check_package, check_flat, tree
from harness.util import attempt
from ezodf.xmlns import CN

BOUNDS = ('text documents (packages with 5 other members and a registered part, opened from a file, stream or bytes, new, from a template; flat XML) '
          'with free text added; the failing save goes to the same file, an existing other file, a fresh name in a missing folder or a stream, '
          'with and without backups; the number of the failing file or stream operation is a free integer in 0..400 that covers all of them; or any part '
          '(content, styles, meta, manifest, mimetype, registered) can not be serialised once, or there is no file name; then the document is changed '
          '(or not) and saved again to the same target, another file, a stream or bytes (quick: two of them)')
ASSUMPTIONS = ['one operation fails (the operations that clean up afterwards do not), a failing write has written half of its data',
               'reads of a file that was opened successfully do not fail', 'document date, editing cycles and generator may change']

VISIBLE = ((0x21, 0xd7ff),)
HOWS = ('file', 'stream', 'bytes', 'new', 'template', 'flat')
MAY_CHANGE = ('date', 'editing-cycles', 'generator')


def state(d):
    doc = d.doc
    if d.how == 'flat':
        return [tree(e) for e in doc.xmlnode if e.tag != CN('office:meta')] + [meta(doc.meta)]
    return [tree(doc.content.xmlnode), tree(doc.styles.xmlnode), tree(doc.filemanager.manifest.xmlnode), meta(doc.meta)]


def meta(m):
    return [tree(e) for e in m.meta if not e.tag.endswith('}date') and not e.tag.endswith('}editing-cycles') and not e.tag.endswith('}generator')]


def setup(ctx, how, backup):
    s = Scratch(ctx)
    if how == 'flat':
        d = FlatDoc(ctx, s, 'doc.fodt')
    else:
        d = Doc(ctx, s, how, OTHERS if how != 'new' else [])
        d.register('Pictures/new one.png', b'\x00\xff' * 20, 'image/png')
    d.doc.backup = backup
    d.edit(ctx.text('t', ctx.q(1, 2), VISIBLE, 1))
    return s, d


def again(ctx, s, d, targets, to):
    """the next save"""
    doc = d.doc
    target = ctx.choice('again', targets)
    if ctx.bool('changed'):
        d.edit('more')
    label = 'next save'
    if target == 'bytes':
        data = doc.tobytes()
    elif target == 'stream':
        out = BytesIO()
        doc.saveas(out)
        data = out.getvalue()
    else:
        base = d.base if target == 'same' else 'next.odt'
        prev = s.read(base)
        before = s.list()
        if target == 'same' and isinstance(doc.docname, str) and to == 'same':
            doc.save()
        else:
            doc.saveas(s.name(base))
        data = s.read(base)
        if prev is not None and doc.backup and d.how not in ('stream', 'bytes'):
            ctx.check(s.read(base + '.bak') == prev, label + ': backup of the previous version')
        extra = [n for n in s.list() if n not in before and n not in (base, base + '.bak')]
        ctx.check(not extra, label + ': no other files', len(extra))
    if d.how == 'flat':
        check_flat(ctx, d, data, label)
    else:
        check_package(ctx, d, data, label)


def _cfg():
    out = []
    for h in HOWS:
        for t in ('same', 'existing', 'folder', 'stream'):
            if h == 'flat' and t == 'stream':
                continue
            out.append({'how': h, 'to': t, 'backup': h in ('file', 'flat', 'template')})
            if t != 'stream' and h in ('file', 'flat', 'new'):
                out.append({'how': h, 'to': t, 'backup': h == 'new'})
    return out


@case('C16', quick=_cfg())
def faults(ctx, how, to, backup):
    s, d = setup(ctx, how, backup)
    doc = d.doc
    before = state(d)
    at = ctx.int('fault', 0, 400)
    obs = Observer(ctx, s, at)
    if to == 'existing':
        s.write('other.odt', b'a previous document')
    with obs:
        if to == 'same' and isinstance(doc.docname, str):
            got, err = attempt(doc.save)
        else:
            name = {'same': s.name(d.base), 'existing': s.name('other.odt'), 'folder': s.name('missing/doc.odt')}.get(to)
            got, err = attempt(doc.saveas, FaultyStream(obs) if to == 'stream' else name)
    if to == 'folder':
        ctx.check(err is not None, 'a missing folder is an error')
    else:
        ctx.check(err is None or obs.hit is not None, 'a save without a fault works', repr(err))
    ctx.check(obs.n <= 400, 'bound on the file operations')
    ctx.check(ctx.eq(state(d), before), 'the document has all its parts and their content')
    again(ctx, s, d, ctx.q(['same', 'bytes'] if to == 'same' else ['same', 'next'], ['same', 'next', 'bytes'] + (['stream'] if how != 'flat' else [])), to)
    ctx.observe(obs.hit, err is None)


PARTS = ('content', 'styles', 'meta', 'manifest', 'mimetype', 'registered', 'wrong type', 'no name')


@case('C16', quick=[{'how': h, 'to': t} for h in HOWS for t in ('same', 'bytes', 'stream') if h != 'flat' or t == 'same'])
def serialising(ctx, how, to):
    """a part can not be serialised the first time"""
    s, d = setup(ctx, how, ctx.bool('backup'))
    doc = d.doc
    before = state(d)

    def bomb(*a, **k):
        raise Bomb('can not be serialised')

    class Part(object):
        tobytes = bomb

    if how == 'flat':
        which = 'flat'
        doc.tobytes = bomb
    else:
        which = ctx.choice('part', PARTS)
        fm = doc.filemanager
        if which in ('mimetype', 'registered', 'wrong type'):
            obj = fm.directory['mimetype' if which == 'mimetype' else 'Pictures/new one.png']
            good = obj.element
            obj.element = 42 if which == 'wrong type' else Part()
        elif which == 'no name':
            name = doc.docname
            doc.docname = None
        else:
            part = fm.manifest if which == 'manifest' else getattr(doc, which)
            part.tobytes = bomb
    if to == 'bytes' and which != 'no name':
        got, err = attempt(doc.tobytes)
    elif to == 'stream' and which != 'no name':
        got, err = attempt(doc.saveas, BytesIO())
    elif which == 'no name':
        got, err = attempt(doc.save)
    else:
        got, err = attempt(doc.saveas, s.name(d.base))
    ctx.check(err is not None, 'the save fails')
    # the cause is removed
    if which == 'flat':
        del doc.tobytes
    elif which in ('mimetype', 'registered', 'wrong type'):
        obj.element = good
    elif which == 'no name':
        doc.docname = name
    else:
        del part.tobytes
    ctx.check(ctx.eq(state(d), before), 'the document has all its parts and their content')
    again(ctx, s, d, ['same', 'next', 'bytes'] + (['stream'] if how != 'flat' else []), 'other')
    ctx.observe(type(err).__name__)
