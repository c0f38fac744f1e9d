"""C15 An interrupted or failing save never loses the previous document."""
import random
from symex.api import case
from harness.docworld import Scratch, Observer, OTHERS, members
from harness.doccheck import Doc, FlatDoc, Bomb, tree
from harness.util import attempt
from ezodf.xmlns import etree

BOUNDS = ('text documents (packages with 5 other members, opened from a file or stream, new, from a template; flat XML) with a paragraph of free text '
          'added, saved with and without backups over the opened file, over another file and to a fresh name (absolute or relative, with or without an '
          'older backup); the number of the failing file operation (open, create, write, close, rename, replace, remove, link, truncate, mkdir, sendfile) '
          'is a free integer in 0..400 that covers all of them (none takes more), file buffers are written at once or as late as possible, and the state '
          'of the directory is judged between any two operations; or a part that can not be serialised')
ASSUMPTIONS = ['one operation fails per save (the operations that clean up afterwards do not), a failing write has written half of its data',
               'a stopping process keeps what was handed to the operating system (no power failure), another process does not interfere',
               'reads of a file that was opened successfully do not fail',
               'documents opened from a stream make no backups (documented), a fresh name holds nothing or the complete new document']

JUNK = b'an older backup'
HOWS = ('file', 'stream', 'new', 'template', 'flat')
VISIBLE = ((0x21, 0xd7ff),)


def complete(ctx, d, data):
    """a complete new document: all members, and the content of the document"""
    if d.how == 'flat':
        try:
            root = etree.XML(data)
        except etree.XMLSyntaxError:
            return False
        return ctx.fork(ctx.eq(tree(root), tree(d.doc.xmlnode)))
    mem = members(data)
    if mem is None:
        return False
    names = [m[0] for m in mem]
    if sorted(names) != sorted(list(d.managed) + ['META-INF/manifest.xml'] + list(d.others)):
        return False
    content = dict((m[0], m[1]) for m in mem)
    if any(content[n] != c for n, c in d.others.items()):
        return False
    for n, part in (('content.xml', d.doc.content), ('styles.xml', d.doc.styles), ('meta.xml', d.doc.meta)):
        if not ctx.fork(ctx.eq(tree(etree.XML(content[n])), tree(part.xmlnode))):
            return False
    return True


class Target(object):
    """What is found under the target name (and its backup name)."""

    def __init__(self, ctx, scratch, d, base, backup):
        self.ctx, self.scratch, self.d, self.base, self.backup = ctx, scratch, d, base, backup
        self.prev = scratch.read(base)
        self.before = scratch.list()
        self.seen = {}
        self.last = None

    def good(self):
        """the previous or the new document is there, complete"""
        now = self.scratch.read(self.base)
        bak = self.scratch.read(self.base + '.bak') if self.backup else None
        if (now, bak) == self.last:
            return True
        self.last = (now, bak)
        if self.prev is not None and (now == self.prev or bak == self.prev):
            return True
        if now is None:
            return self.prev is None
        if now not in self.seen:
            self.seen[now] = complete(self.ctx, self.d, now)
        return self.seen[now]

    def at_any_point(self):
        self.ctx.check(self.good(), 'a complete document is found at any point of saving')


def _cfg(hows, targets, backups):
    out = []
    for h in hows:
        for t in targets:
            for b in backups:
                out.append({'how': h, 'to': t, 'backup': b})
    return out


def setup(ctx, how, to, backup):
    relative, older = ctx.choice('variant', ctx.q([(False, True), (True, False)], [(False, True), (True, False), (True, True), (False, False)]))
    s = Scratch(ctx, relative)
    if how == 'flat':
        d = FlatDoc(ctx, s, 'doc.fodt')
    else:
        d = Doc(ctx, s, how, OTHERS if how != 'new' else [])
    d.doc.backup = backup
    if how in ('new', 'template') and to == 'same':
        s.write(d.base, b'an unrelated file with the same name')
    base = d.base if to == 'same' else 'other.odt'
    if to == 'existing':
        s.write(base, b'a previous document')
    if older:
        s.write(base + '.bak', JUNK)
    d.edit(ctx.text('t', 1, VISIBLE, 1))
    return s, d, base


def run(d, s, to, base):
    if to == 'same' and d.how != 'stream':
        return attempt(d.doc.save)
    return attempt(d.doc.saveas, s.name(base))


@case('C15', quick=_cfg(HOWS, ('same', 'existing', 'fresh'), (True, False)))
def faults(ctx, how, to, backup):
    """one file operation of the save fails, the process may stop at any other"""
    s, d, base = setup(ctx, how, to, backup)
    older = s.read(base + '.bak')
    target = Target(ctx, s, d, base, backup)
    at = ctx.int('fault', 0, 400)
    obs = Observer(ctx, s, at, ctx.bool('lazy'), target.at_any_point)
    with obs:
        got, err = run(d, s, to, base)
    target.at_any_point()
    names = s.list()
    if err is not None:
        ctx.check(obs.hit is not None, 'a save without a fault works', repr(err))
        left = [n for n in names if n not in target.before and n != base and not (backup and n == base + '.bak')]
        ctx.check(not left, 'no temporary files after a failed save', len(left))
        if target.prev is not None:
            ctx.check(s.read(base) == target.prev or backup and s.read(base + '.bak') == target.prev, 'the previous document is readable')
    else:
        now = s.read(base)
        ctx.check(now is not None and complete(ctx, d, now), 'the new document is complete')
        left = [n for n in names if n not in target.before and n not in (base, base + '.bak')]
        ctx.check(not left, 'no temporary files after a save', len(left))
        bak = s.read(base + '.bak')
        if backup and target.prev is not None and how != 'stream':
            ctx.check(bak == target.prev, 'the backup is the previous version')
        else:
            ctx.check(bak == older, 'no backup is made')
    ctx.check(obs.n <= 400, 'bound on the file operations')
    ctx.observe(obs.hit, err is None)


@case('C15', quick=_cfg(HOWS, ('same', 'existing'), (True, False)))
def serialising(ctx, how, to, backup):
    """a part of the document can not be serialised"""
    s, d, base = setup(ctx, how, to, backup)
    older = s.read(base + '.bak')
    target = Target(ctx, s, d, base, backup)

    def bomb(*a, **k):
        raise Bomb('can not be serialised')

    if how == 'flat':
        d.doc.tobytes = bomb
    else:
        which = ctx.choice('part', ['content', 'styles', 'meta', 'manifest', 'other', 'wrong type'])
        if which == 'manifest':
            d.doc.filemanager.manifest.tobytes = bomb
        elif which == 'other':
            class Part(object):
                tobytes = bomb
            d.doc.filemanager.register('Pictures/bomb.png', Part(), 'image/png')
        elif which == 'wrong type':
            d.doc.filemanager.register('Pictures/bomb.png', 42, 'image/png')
        else:
            getattr(d.doc, which).tobytes = bomb
    obs = Observer(ctx, s, None, ctx.bool('lazy'), target.at_any_point)
    with obs:
        got, err = run(d, s, to, base)
    ctx.check(err is not None, 'the save fails')
    ctx.check(s.read(base) == target.prev, 'the target is untouched')
    ctx.check(s.read(base + '.bak') == older, 'the backup is untouched')
    ctx.check(s.list() == target.before, 'no temporary files')
    ctx.observe(type(err).__name__)


@case('C15', quick=[{'how': h, 'to': t} for h in HOWS for t in ('same', 'existing')])
def taken_names(ctx, how, to):
    """other files in the folder survive, also those a save would pick as its temporary files"""
    s, d, base = setup(ctx, how, to, True)
    picked = []

    def watch():
        picked.extend([n for n in s.list() if n not in picked])

    # the names a save creates on the way
    state = random.getstate()
    ctx.cleanup(lambda: random.setstate(state))
    prev = s.read(base)
    before = s.list()
    random.seed(7)
    with Observer(ctx, s, None, False, watch):
        got, err = run(d, s, to, base)
    if err is not None:
        raise err
    temp = [n for n in picked if n not in before and n not in s.list()]
    # the same save again, while others own files of these names
    for n in s.list():
        if n not in before:
            s.unlink(n)
    if prev is None:
        s.unlink(base)
    else:
        s.write(base, prev)
    own = {}
    for n in temp:
        own[n] = b'precious ' + n.encode()
        s.write(n, own[n])
    random.seed(7)
    fails = ctx.bool('fails')
    target = Target(ctx, s, d, base, True)
    with Observer(ctx, s, ctx.int('fault', 1, 60) if fails else None, False, target.at_any_point):
        got, err = run(d, s, to, base)
    for n in own:
        ctx.check(s.read(n) == own[n], 'a file of somebody else is overwritten or removed')
    left = [n for n in s.list() if n not in own and n not in before and n not in (base, base + '.bak')]
    ctx.check(not left, 'no temporary files after a save', len(left))
