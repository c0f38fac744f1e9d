"""C10 Structural elements keep their place around document content."""
from symex.api import case
from symex import literals
from harness.util import attempt
from harness.tabmodel import snapshot
from ezodf import Paragraph
from ezodf.nodeorganizer import PreludeEpilogueOrganizer, PreludeTagBlock, EpilogueTagBlock
from ezodf.nodestructurechecker import NodeStructureChecker, StreamTextBodyChecker
from ezodf.nodestructuretags import TEXT_PRELUDE, TEXT_EPILOGUE
from ezodf.body import TextBody
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('parents of 0..4 children (blocks; thorough: 5), 0..4 (reordering, checking; thorough 6) with any tag each (a '
          'symbolic tag out of 2..3 prelude, 2 middle, 2..3 epilogue and one unknown tag), every tag asked for, prelude or '
          'epilogue lists that are empty, text bodies with up to 4 children and 2 appends'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['prelude, middle and epilogue tag lists are disjoint and free of duplicates', 'children are elements (no comments)']

PRE, MID, EPI = ('a', 'b', 'c'), ('g', 'h'), ('x', 'y', 'z')
TAGS = PRE[:2] + MID[:1] + EPI[:2]
FULL = PRE + MID + EPI + ('q',)


def children(ctx, hi, tags, parent='root'):
    """a parent with 0..hi children of free tags; returns (node, tags as enum values)"""
    root = etree.Element(parent)
    n = ctx.fork(ctx.int('n', 0, hi))
    out = []
    for i in range(n):
        t = ctx.enum('tag%d' % i, tags)
        e = etree.Element(t)
        e.set('num', str(i))
        # elements of every size
        e.text = ('', 'text', None)[i % 3]
        for j in range((0, 2, 1, 3)[i % 4]):
            etree.SubElement(e, ('a', 'x', 'g')[j])
        if i == 1:
            e.tail = 'tail'
        root.append(e)
        out.append(t)
    return root, out


def rank_pre(tag, pre):
    for i in range(len(pre)):
        if tag == pre[i]:
            return i
    return -1


@case('C10', quick=[{'pre': p, 'epi': e} for p, e in ((('a', 'b'), ('x', 'y')), (('b', 'a'), ('x',)), ((), ('y', 'x')), (('a', 'b'), ()))],
      thorough=[{'pre': p, 'epi': e, 'hi': 5} for p, e in ((('a', 'b'), ('x', 'y')), (('b', 'a'), ('x',)), ((), ('y', 'x')), (('a', 'b'), ()))])
def reorder(ctx, pre, epi, hi=4):
    root, tags = children(ctx, hi, ('a', 'b', 'g', 'x', 'y'))
    nodes = [e for e in root]
    PreludeEpilogueOrganizer(list(pre), list(epi)).reorder(root)
    got = [e for e in root]
    ctx.check(len(got) == len(nodes), 'number of children')
    keys = []
    for e in got:
        r = rank_pre(e.tag, pre)
        if r < 0:
            q = rank_pre(e.tag, epi)
            r = 100 if q < 0 else 200 + q
        keys.append((r, int(e.get('num'))))
    ctx.check(all(keys[i] < keys[i + 1] for i in range(len(keys) - 1)), 'groups in schema order, document order inside')
    ctx.check(sorted(k[1] for k in keys) == list(range(len(nodes))), 'nothing lost')
    ctx.check(all(any(e is n for n in nodes) for e in got), 'children are moved, not copied')
    ctx.observe([e.tag for e in got])


def runs(ctx, tags, block):
    """length of the longest prefix of tags that is in block order"""
    at, n = 0, 0
    for t in tags:
        r = rank_pre(t, block)
        if r < at:
            break
        at = r
        n += 1
    return n


@case('C10', quick=[{'hi': 4, 'epi': False}, {'hi': 4, 'epi': True}, {'hi': 3, 'epi': False, 'block': 'abcdef'}, {'hi': 3, 'epi': True, 'block': 'abcdef'},
                    {'hi': 2, 'epi': False, 'block': 'a'}, {'hi': 3, 'epi': True, 'block': 'ba'}],
      thorough=[{'hi': 6, 'epi': e} for e in (False, True)] + [{'hi': 4, 'epi': e, 'block': b} for e in (False, True) for b in ('abcdef', 'fbdac', 'a', 'ba')])
def blocks(ctx, hi, epi, block='abc'):
    block = tuple(block)
    root, tags = children(ctx, hi, block + ('q',))
    b = (EpilogueTagBlock if epi else PreludeTagBlock)(root, block)
    if epi:
        n = runs(ctx, list(reversed(tags)), tuple(reversed(block)))
    else:
        n = runs(ctx, tags, block)
    ctx.check(len(b) == n, 'length of the block')
    off = len(tags) - n if epi else 0
    inside = tags[off:off + n]
    ask = ctx.enum('ask', block)
    first, count, last = -1, 0, -1
    for i in range(n):
        if inside[i] == ask:
            if count == 0:
                first = off + i
            count += 1
    ctx.check(ctx.eq(b.tag_info(ask), (first, count)), 'tag info')
    for pos, what in ((b.insert_position_before(ask), 'before'), (b.insert_position_after(ask), 'after')):
        ctx.check(off <= pos <= off + n, 'insert position is in the block')
        r = rank_pre(ask, block)
        ok = [rank_pre(t, block) < r if what == 'before' and i + off < pos else rank_pre(t, block) <= r if i + off < pos else
              rank_pre(t, block) >= r if what == 'before' else rank_pre(t, block) > r for i, t in enumerate(inside)]
        ctx.check(all(ok), 'insert position ' + what + ' keeps the schema order')
        if count:
            ctx.check(pos == (first if what == 'before' else first + count), 'insert position next to the elements of the tag')
    if epi:
        ctx.check(b.insert_position_before() == len(tags) - n, 'position before the epilogue')
    else:
        ctx.check(b.insert_position_after() == n, 'position after the prelude')
    ctx.check(len(root) == len(tags), 'queries change nothing')


@case('C10', quick=[{'epi': False}, {'epi': True}])
def insert_keeps_order(ctx, epi):
    """inserting an element at the computed position lengthens the block by one"""
    root, tags = children(ctx, 3, ('a', 'b', 'c', 'q'))
    b = (EpilogueTagBlock if epi else PreludeTagBlock)(root, ('a', 'b', 'c'))
    n = len(b)
    ask = ctx.enum('ask', ('a', 'b', 'c'))
    pos = b.insert_position_before(ask) if ctx.choice('where', ['before', 'after']) == 'before' else b.insert_position_after(ask)
    root.insert(pos, etree.Element(ask))
    ctx.check(len(b) >= n + 1, 'inserted element belongs to the block')


@case('C10')
def block_arguments(ctx):
    cls = ctx.choice('cls', [PreludeTagBlock, EpilogueTagBlock])
    root, tags = children(ctx, 1, ('a', 'b'))
    t1, t2, t3 = ctx.enum('t1', ('a', 'b')), ctx.enum('t2', ('b', 'c')), ctx.enum('t3', ('a', 'c', 'd'))
    res, exc = attempt(cls, root, [t1, t2, t3])
    if ctx.any([t1 == t2, t2 == t3, t1 == t3]):
        ctx.check(isinstance(exc, ValueError), 'duplicate tags')
        return
    ctx.check(exc is None, 'distinct tags')
    ctx.check(isinstance(attempt(cls, root, [])[1], ValueError), 'no tags')
    ctx.check(isinstance(attempt(cls, None, ['a'])[1], ValueError), 'no node')
    for m in ('insert_position_before', 'insert_position_after', 'tag_info'):
        ctx.check(isinstance(attempt(getattr(res, m), 'q')[1], ValueError), 'unknown tag')


@case('C10', quick=[{'hi': 4}], thorough=[{'hi': 6}])
def structure_checker(ctx, hi):
    pre, mid, epi = ('a', 'b'), ('g', 'h'), ('x', 'y')
    root, tags = children(ctx, hi, ('a', 'b', 'g', 'h', 'x', 'y', 'q'))
    # a well ordered body: prelude in order, then middle elements, then epilogue in order
    order = pre + mid + epi
    state, ok = 0, True
    for t in tags:
        r = rank_pre(t, order)
        if r < 0:
            ok = False
            break
        r = 2 if r in (2, 3) else r
        if r < state:
            ok = False
            break
        state = r
    before = snapshot(root)
    got = NodeStructureChecker(list(pre), list(mid), list(epi)).is_valid(root)
    ctx.check(got == ok, 'structure checker')
    ctx.check(ctx.eq(snapshot(root), before), 'checker changes nothing')
    ctx.observe(got)


BODY = ('office:forms', 'text:variable-decls', 'text:user-field-decls', 'text:p', 'table:table', 'table:named-expressions',
        'table:database-ranges', 'table:dde-links')


@case('C10', quick=[{'hi': 3}], thorough=[{'hi': 5}])
def text_body(ctx, hi):
    """content appended to a text body lands after all content and before the epilogue"""
    root = etree.Element(CN('office:text'))
    n = ctx.fork(ctx.int('n', 0, hi))
    tags, last = [], 0
    for i in range(n):
        k = ctx.fork(ctx.int('k%d' % i, 0, len(BODY) - 1))
        # a well ordered text body; the middle part in any order
        r = 3 if k in (3, 4) else k
        ctx.assume(r >= last)
        last = r
        if k in (1, 2):
            ctx.assume(not any(t == k for t in tags))
        tags.append(k)
        e = etree.SubElement(root, CN(BODY[k]))
        e.set('num', str(i))
    nodes = [e for e in root]
    body = wrap(root)
    ctx.check(isinstance(body, TextBody), 'text body')
    added = []
    for i in range(2):
        p = Paragraph('new%d' % i)
        ctx.check(body.append(p) is p, 'append passes the child through')
        added.append(p.xmlnode)
    got = [e for e in root]
    content = [e for e, k in zip(nodes, tags) if k in (3, 4)] + added
    tail = [e for e, k in zip(nodes, tags) if k > 4]
    m = len(content) + len(tail)
    ctx.check(all(a is b for a, b in zip(got[len(got) - m:], content + tail)), 'appended content')
    for e in nodes:
        ctx.check(any(e is g for g in got), 'nothing lost')
    ctx.check([e for e in nodes] == [g for g in got if any(g is e for e in nodes)], 'order of the other elements')
    ctx.check(StreamTextBodyChecker.is_valid(root), 'body is well ordered')
    ctx.check(len([e for e in got if e.tag == CN('text:variable-decls')]) == 1, 'declarations exist once')


@case('C10')
def longer(ctx):
    """runs of many elements; numbers around the integer constants of the code"""
    n = ctx.choice('n', tuple(sorted(set([9, 17] + literals.ints(('nodeorganizer', 'nodestructurechecker', 'nodestructuretags', 'body'), 4, 100)))))
    root = etree.Element('root')
    order = []
    swap = ctx.fork(ctx.int('swap', 0, 2))
    tags = ['a'] * n + ['b'] * (n - 1) + ['g'] * n + ['h'] + ['x'] * n + ['y'] * (n + 1)
    if swap:
        # one element out of place
        i = ctx.choice('i', (0, n, 2 * n, 3 * n + 1))
        j = ctx.choice('j', (1, n + 2, 2 * n + 1, len(tags) - 1))
        tags.insert(j, tags.pop(i))
    for i, t in enumerate(tags):
        e = etree.SubElement(root, t)
        e.set('num', str(i))
    key = {'a': 0, 'b': 1, 'g': 2, 'h': 2, 'x': 3, 'y': 4}
    ok = all([key[tags[i]] <= key[tags[i + 1]] for i in range(len(tags) - 1)])
    ctx.check(NodeStructureChecker(['a', 'b'], ['g', 'h'], ['x', 'y']).is_valid(root) == ok, 'structure checker')
    k = 0
    while k < len(tags) and tags[k] in 'ab' and (k == 0 or tags[k - 1] <= tags[k]):
        k += 1
    pre = PreludeTagBlock(root, ('a', 'b'))
    ctx.check(len(pre) == k, 'length of the prelude')
    first = [t for t in tags[:k] if t == 'a']
    ctx.check(ctx.eq(pre.tag_info('a'), (0 if first else -1, len(first))), 'tag info')
    ctx.check(pre.insert_position_after('a') == len(first), 'insert position')
    k = 0
    rev = list(reversed(tags))
    while k < len(rev) and rev[k] in 'xy' and (k == 0 or rev[k - 1] >= rev[k]):
        k += 1
    epi = EpilogueTagBlock(root, ('x', 'y'))
    ctx.check(len(epi) == k, 'length of the epilogue')
    ctx.check(epi.insert_position_before() == len(tags) - k, 'position before the epilogue')
    want = [e for _, e in sorted([((key[t], i), i) for i, t in enumerate(tags)])]
    PreludeEpilogueOrganizer(['a', 'b'], ['x', 'y']).reorder(root)
    ctx.check([int(e.get('num')) for e in root] == want, 'groups in schema order, document order inside')
