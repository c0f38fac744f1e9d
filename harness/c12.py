"""C12 Document metadata behaves as a map, a keyword set, a user map and counters."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text
from harness.docworld import Scratch, package, flat, PREFIX
from harness.tabmodel import snapshot
import ezodf
from ezodf.meta import OfficeDocumentMeta
from ezodf.xmlns import CN, etree

BOUNDS = ('new and loaded metadata with unrelated elements, sequences of 3 operations (thorough: 4) on one kind of metadata '
          'with keys/names/keywords of 0..1 and texts of 0..2 free XML characters, counters -10^6..10^6, loaded editing cycles of '
          'up to 2 free characters'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['loaded metadata hold each keyword, user tag name and simple tag at most once', 'texts are valid XML characters']

SIMPLE = ('generator', 'title', 'description', 'subject', 'initial-creator', 'creator', 'creation-date', 'date', 'editing-cycles', 'language')
COUNTS = ('page', 'table', 'draw', 'image', 'object', 'ole-object', 'paragraph', 'word', 'character', 'row', 'frame', 'sentence',
          'syllable', 'non-whitespace-character', 'cell')
TYPES = (None, 'float', 'date', 'time', 'boolean', 'string')


class Model(object):
    def __init__(self):
        self.simple = []        # [tag, text]
        self.keywords = []
        self.user = []          # [name, text, type]
        self.counts = {}
        self.other = 0


def find(pairs, key):
    for i in range(len(pairs)):
        if pairs[i][0] == key:
            return i
    return -1


def loaded():
    """metadata as another application writes them"""
    root = etree.Element(CN('office:document-meta'))
    meta = etree.SubElement(root, CN('office:meta'))
    m = Model()
    etree.SubElement(meta, CN('meta:printed-by')).text = 'somebody'
    etree.SubElement(meta, CN('dc:title')).text = 'Title'
    m.simple.append(['title', 'Title'])
    etree.SubElement(meta, CN('meta:keyword')).text = 'k'
    etree.SubElement(meta, CN('meta:keyword'))
    m.keywords += ['k', '']
    for n, v, t in (('u', '1', 'float'), ('', '', None), ('v', 'text', None)):
        e = etree.SubElement(meta, CN('meta:user-defined'))
        e.set(CN('meta:name'), n)
        if v:
            e.text = v
        if t:
            e.set(CN('meta:value-type'), t)
        m.user.append([n, v, t or 'string'])
    s = etree.SubElement(meta, CN('meta:document-statistic'))
    s.set(CN('meta:page-count'), '3')
    s.set(CN('meta:non-whitespace-character-count'), '17')
    m.counts = {'page': 3, 'non-whitespace-character': 17}
    etree.SubElement(meta, CN('meta:editing-duration')).text = 'PT5M'
    etree.SubElement(meta, CN('meta:editing-cycles')).text = '4'
    m.simple.append(['editing-cycles', '4'])
    m.other = 2
    return OfficeDocumentMeta(root), m


def new(ctx):
    meta = OfficeDocumentMeta()
    m = Model()
    for t in ('creation-date', 'date', 'generator'):
        m.simple.append([t, meta[t]])
    return meta, m


def check(ctx, meta, m):
    for tag in SIMPLE:
        i = find(m.simple, tag)
        if i < 0:
            ctx.check(isinstance(attempt(meta.__getitem__, tag)[1], KeyError), 'absent simple tag')
        else:
            ctx.check(meta[tag] == m.simple[i][1], 'simple tag')
    ctx.check(ctx.eq(list(meta.keywords), list(m.keywords)), 'keywords')
    ctx.check(ctx.eq(list(meta.usertags), [(u[0], u[1]) for u in m.user]), 'user tags')
    for n, v, t in m.user:
        ctx.check(n in meta.usertags, 'user tag is contained')
        ctx.check(meta.usertags[n] == v, 'value of a user tag')
        ctx.check(meta.usertags.typeof(n) == t, 'type of a user tag')
    for c in COUNTS:
        ctx.check(meta.count[c] == m.counts.get(c, 0), 'statistics')
    got = sorted([(k, v) for k, v in meta.count], key=lambda kv: kv[0])
    want = sorted(m.counts.items(), key=lambda kv: kv[0])
    ctx.check(ctx.eq(got, [(k, v) for k, v in want]), 'iterating the statistics')
    known = [CN('meta:keyword'), CN('meta:user-defined'), CN('meta:document-statistic')]
    known += [CN(('dc:' if t in ('title', 'description', 'subject', 'creator', 'date', 'language') else 'meta:') + t) for t in SIMPLE]
    ctx.check(len([e for e in meta.meta if e.tag not in known]) == m.other, 'unrelated metadata are kept')
    ctx.check(len([e for e in meta.meta if e.tag == CN('meta:document-statistic')]) == 1, 'one statistics element')
    ctx.check(len(meta.meta) == m.other + len(m.simple) + len(m.keywords) + len(m.user) + 1, 'number of meta elements')


def keyword_op(ctx, meta, m, sfx):
    op = ctx.choice('op' + sfx, ['add', 'remove', 'contains', 'clear'])
    if op == 'clear':
        meta.keywords.clear()
        m.keywords = []
        return
    k = ctx.text('k' + sfx, 1)
    at = find([[x] for x in m.keywords], k)
    if op == 'add':
        meta.keywords.add(k)
        if at < 0:
            m.keywords.append(k)
    elif op == 'remove':
        meta.keywords.remove(k)
        if at >= 0:
            del m.keywords[at]
    else:
        ctx.check((k in meta.keywords) == (at >= 0), 'keyword is contained')


def user_op(ctx, meta, m, sfx):
    op = ctx.choice('op' + sfx, ['set', 'item', 'del', 'get', 'update', 'clear'])
    if op == 'clear':
        meta.usertags.clear()
        m.user = []
        return
    n = ctx.text('n' + sfx, 1)
    at = find(m.user, n)
    if op in ('set', 'item', 'update'):
        v = ctx.text('v' + sfx, 1)
        t = 'string'
        if op == 'set':
            t = ctx.choice('t' + sfx, [None, 'float', 'string'])
            if t is None:
                meta.usertags.set(n, v)
                t = 'string'
            else:
                meta.usertags.set(n, v, t)
        elif op == 'item':
            meta.usertags[n] = v
        else:
            meta.usertags.update({n: v})
        if at < 0:
            m.user.append([n, v, t])
        else:
            m.user[at] = [n, v, t]
    elif op == 'del':
        res, exc = attempt(meta.usertags.__delitem__, n)
        if at < 0:
            ctx.check(isinstance(exc, KeyError), 'deleting an unknown user tag')
        else:
            ctx.check(exc is None, 'deleting a user tag')
            del m.user[at]
    else:
        res, exc = attempt(meta.usertags.__getitem__, n)
        ctx.check((n in meta.usertags) == (at >= 0), 'user tag is contained')
        if at < 0:
            ctx.check(isinstance(exc, KeyError), 'unknown user tag')
            ctx.check(isinstance(attempt(meta.usertags.typeof, n)[1], KeyError), 'type of an unknown user tag')
        else:
            ctx.check(res == m.user[at][1], 'value of a user tag')


def simple_op(ctx, meta, m, sfx):
    op = ctx.choice('op' + sfx, ['set', 'touch', 'cycle', 'clear'] if sfx == '0' else ['set', 'cycle'])
    if op == 'set':
        tag = ctx.choice('tag' + sfx, SIMPLE)
        v = ctx.text('v' + sfx, 1)
        meta[tag] = v
        at = find(m.simple, tag)
        if at < 0:
            m.simple.append([tag, v])
        else:
            m.simple[at] = [tag, v]
    elif op == 'touch':
        meta.touch()
        for t in ('date', 'generator'):
            if find(m.simple, t) < 0:
                m.simple.append([t, None])
            m.simple[find(m.simple, t)][1] = meta[t]
        ctx.check(meta['generator'] == OfficeDocumentMeta.generator, 'generator')
    elif op == 'cycle':
        at = find(m.simple, 'editing-cycles')
        old = m.simple[at][1] if at >= 0 else ''
        meta.inc_editing_cycles()
        if at < 0:
            m.simple.append(['editing-cycles', ''])
        if old == '4':
            want = '5'
        elif old == '5':
            want = '6'
        else:
            n, exc = attempt(int, old)
            want = ctx.sxstr(n + 1) if exc is None else '1'
        m.simple[find(m.simple, 'editing-cycles')][1] = want
    else:
        meta.clear()
        m.simple, m.keywords, m.user, m.counts, m.other = [], [], [], {}, 0


def count_op(ctx, meta, m, sfx):
    op = ctx.choice('op' + sfx, ['set', 'update', 'clear'] if sfx == '0' else ['set', 'update'])
    if op == 'clear':
        meta.count.clear()
        m.counts = {}
        return
    key = ctx.choice('key' + sfx, COUNTS if sfx == '0' else ('page', 'cell'))
    n = ctx.int('n' + sfx, -10 ** 6, 10 ** 6)
    if op == 'set':
        meta.count[key] = n
    else:
        meta.count.update({key: n})
    m.counts[key] = n


KINDS = {'keyword': keyword_op, 'user': user_op, 'simple': simple_op, 'count': count_op}


def start(ctx, source):
    return loaded() if source == 'loaded' else new(ctx)


@case('C12', quick=[{'kind': k, 'source': s, 'n': 3 if k == 'keyword' else 2} for k in KINDS for s in ('new', 'loaded')],
      thorough=[{'kind': k, 'source': s, 'n': 4 if k == 'keyword' else 3} for k in KINDS for s in ('new', 'loaded')])
def sequence(ctx, kind, source, n):
    meta, m = start(ctx, source)
    check(ctx, meta, m)
    for i in range(n):
        KINDS[kind](ctx, meta, m, str(i))
    check(ctx, meta, m)
    check(ctx, OfficeDocumentMeta(meta.xmlnode), m)
    ctx.observe(list(meta.keywords), [u for u in meta.usertags])


@case('C12', quick=[{'source': s} for s in ('new', 'loaded')])
def mixed(ctx, source):
    """one operation of each kind, then clearing one kind"""
    meta, m = start(ctx, source)
    meta['title'] = ctx.text('title', 1)
    at = find(m.simple, 'title')
    if at < 0:
        m.simple.append(['title', meta['title']])
    else:
        m.simple[at][1] = meta['title']
    keyword_op(ctx, meta, m, '0')
    meta.usertags.set('w', 5, 'float')
    m.user.append(['w', '5', 'float'])
    meta.count['word'] = 9
    m.counts['word'] = 9
    check(ctx, meta, m)
    what = ctx.choice('clear', ['keywords', 'usertags', 'count', 'all', 'del'])
    if what == 'keywords':
        meta.keywords.clear()
        m.keywords = []
    elif what == 'usertags':
        meta.usertags.clear()
        m.user = []
    elif what == 'count':
        meta.count.clear()
        m.counts = {}
    elif what == 'del':
        del meta.usertags['w']
        m.user.pop()
    else:
        meta.clear()
        m.simple, m.keywords, m.user, m.counts, m.other = [], [], [], {}, 0
        meta.keywords.add('again')
        m.keywords.append('again')
        meta.count['page'] = 1
        m.counts['page'] = 1
    check(ctx, meta, m)
    check(ctx, OfficeDocumentMeta(meta.xmlnode), m)


@case('C12', quick=[{'source': s} for s in ('new', 'loaded')])
def unknown(ctx, source):
    """unknown names are rejected and change nothing"""
    meta, m = start(ctx, source)
    before = snapshot(meta.xmlnode)
    key = ctx.choice('key', ['', 'Title', 'keyword', 'dc:title', 'pages', 'page-count', 'editing-duration', 'free', 'free2'])
    if key == 'free':
        key = ctx.text('name', 2)
    elif key == 'free2':
        key = ctx.text('name', 5, ((97, 122),), 4)
        for k in SIMPLE + COUNTS:
            if len(k) == 4 or len(k) == 5:
                ctx.assume(key != k)
    ctx.check(isinstance(attempt(meta.__getitem__, key)[1], KeyError), 'unknown simple tag read')
    ctx.check(isinstance(attempt(meta.__setitem__, key, 'x')[1], KeyError), 'unknown simple tag set')
    ctx.check(isinstance(attempt(meta.count.__getitem__, key)[1], KeyError), 'unknown statistic read')
    ctx.check(isinstance(attempt(meta.count.__setitem__, key, 1)[1], KeyError), 'unknown statistic set')
    ctx.check(isinstance(attempt(meta.count.update, {key: 1})[1], KeyError), 'unknown statistic update')
    ctx.check(ctx.eq(snapshot(meta.xmlnode), before), 'rejected operations change nothing')


@case('C12')
def cycles(ctx):
    """loaded editing cycles of any text"""
    meta, m = loaded()
    kind = ctx.choice('kind', ['number', 'text', 'absent'])
    if kind == 'absent':
        meta.meta.remove(meta.meta.find(CN('meta:editing-cycles')))
        want = 1
    elif kind == 'number':
        n = ctx.int('n', 0, 10 ** 6)
        meta['editing-cycles'] = ctx.sxstr(n)
        want = n + 1
    else:
        t = ctx.text('t', 2, ((32, 47), (58, 126)))
        meta['editing-cycles'] = t
        want = 1
    meta.inc_editing_cycles()
    ctx.check(meta['editing-cycles'] == ctx.sxstr(want), 'editing cycles')
    meta.inc_editing_cycles()
    ctx.check(meta['editing-cycles'] == ctx.sxstr(want + 1), 'editing cycles')


@case('C12')
def counters_of_other_applications(ctx):
    """statistics that are no numbers count as 0"""
    meta, m = loaded()
    t = ctx.text('t', 2, ((32, 126),))
    meta.count.stats.set(CN('meta:word-count'), t)
    n, exc = attempt(int, t)
    ctx.check(meta.count['word'] == (n if exc is None else 0), 'counter')


MODULES = ('meta', 'base', 'document', 'compatibility')
WORDS = ('true', 'None', '0', '4', 'k', 'string', 'free', 'dc:title', ' ', 'x' * 300)


@case('C12', quick=[{'source': s, 'what': w} for s in ('new', 'loaded') for w in ('keyword', 'user', 'type', 'simple', 'count')])
def constants(ctx, source, what):
    """texts the code mentions itself, and numbers around its integer constants"""
    meta, m = start(ctx, source)
    if what == 'count':
        key = ctx.choice('key', COUNTS)
        n = ctx.choice('k', tuple(sorted(set([0, 255, 2 ** 31, 10 ** 12] + literals.ints(MODULES, 3, 10 ** 6))))) + ctx.int('d', -1, 1)
        meta.count[key] = n
        m.counts[key] = n
    elif what == 'simple':
        tag = ctx.choice('tag', SIMPLE)
        t = special_text(ctx, 't', MODULES, WORDS, 8)
        meta[tag] = t
        at = find(m.simple, tag)
        if at < 0:
            m.simple.append([tag, t])
        else:
            m.simple[at][1] = t
    else:
        t = special_text(ctx, 't', MODULES, WORDS, 40)
        if what == 'keyword':
            for k in (t, 'a', t):
                meta.keywords.add(k)
                if find([[x] for x in m.keywords], k) < 0:
                    m.keywords.append(k)
            if ctx.bool('remove'):
                meta.keywords.remove(t)
                del m.keywords[find([[x] for x in m.keywords], t)]
        elif what == 'user':
            meta.usertags.set('p', t)
            m.user.append(['p', t, 'string'])
            meta.usertags[t] = 'q'
            at = find(m.user, t)
            if at < 0:
                m.user.append([t, 'q', 'string'])
            else:
                m.user[at] = [t, 'q', 'string']
        else:
            ctx.assume(t != ' ')
            name = ctx.choice('name', ('p', 'as type', 'as value'))
            name, v = (t, '1') if name == 'as type' else ('p', t if name == 'as value' else '1')
            meta.usertags.set(name, v, t)
            at = find(m.user, name)
            if at < 0:
                m.user.append([name, v, t])
            else:
                m.user[at] = [name, v, t]
            name = at
            if name < 0 and ctx.bool('again'):
                vt = ctx.choice('vt', TYPES[1:])
                meta.usertags.set(m.user[-1][0], '2', vt)
                m.user[-1] = [m.user[-1][0], '2', vt]
    check(ctx, meta, m)
    check(ctx, OfficeDocumentMeta(meta.xmlnode), m)


@case('C12')
def many(ctx):
    """many keywords and user tags"""
    meta, m = start(ctx, 'loaded')
    n = ctx.choice('n', tuple(sorted(set([12] + literals.ints(('meta',), 4, 70)))))
    for i in range(n):
        meta.keywords.add('w%d' % i)
        m.keywords.append('w%d' % i)
        meta.usertags.set('t%d' % i, i, 'float')
        m.user.append(['t%d' % i, str(i), 'float'])
    k = ctx.choice('k', (0, 1, n // 2, n - 2, n - 1))
    what = ctx.choice('what', ('remove', 'add', 'del', 'set', 'clear', 'cleartags'))
    if what == 'remove':
        meta.keywords.remove('w%d' % k)
        m.keywords.remove('w%d' % k)
    elif what == 'add':
        meta.keywords.add('w%d' % k)
    elif what == 'del':
        del meta.usertags['t%d' % k]
        del m.user[find(m.user, 't%d' % k)]
    elif what == 'set':
        v = ctx.text('v', 1)
        meta.usertags['t%d' % k] = v
        m.user[find(m.user, 't%d' % k)] = ['t%d' % k, v, 'string']
    elif what == 'clear':
        meta.keywords.clear()
        m.keywords = []
    else:
        meta.usertags.clear()
        m.user = []
    check(ctx, meta, m)


@case('C12', quick=[{'how': h} for h in ('new', 'file', 'flat')])
def saved(ctx, how):
    """each save adds one editing cycle, and records generator and date"""
    s = Scratch(ctx)
    if how == 'new':
        doc = ezodf.newdoc('odt', s.name('a.odt'))
    elif how == 'flat':
        s.write('a.fodt', flat(PREFIX + 'text'))
        doc = ezodf.opendoc(s.name('a.fodt'))
    else:
        s.write('a.odt', package(PREFIX + 'text'))
        doc = ezodf.opendoc(s.name('a.odt'))
    meta = doc.meta
    n = 0
    if ctx.bool('cycles'):
        n = ctx.int('n', 0, 99)
        meta['editing-cycles'] = ctx.sxstr(n)
    elif how != 'new':
        n, exc = attempt(lambda: int(meta['editing-cycles']))
        n = 0 if exc is not None else n
    elif 'editing-cycles' in [e.tag.split('}')[1] for e in meta.meta]:
        n = int(meta['editing-cycles'])
    title = ctx.text('t', 1)
    meta['title'] = title
    meta['date'] = 'long ago'
    meta['generator'] = 'somebody else'
    meta.keywords.add('word')
    saves = 0
    for i in range(2):
        to = ctx.choice('to%d' % i, ('save', 'saveas', 'bytes', 'none'))
        if to == 'save':
            doc.save()
        elif to == 'saveas':
            doc.saveas(s.name('b'))
        elif to == 'bytes':
            doc.tobytes()
        if to in ('save', 'saveas'):
            saves += 1
            ctx.check(meta['date'] != 'long ago', 'date of saving')
            ctx.check(meta['generator'] == OfficeDocumentMeta.generator, 'generator')
            ctx.check(meta['editing-cycles'] == ctx.sxstr(n + saves), 'each save is one editing cycle')
            meta['date'] = 'long ago'
            meta['generator'] = 'somebody else'
    ctx.check('word' in meta.keywords and ctx.eq(meta['title'], title), 'other metadata')
