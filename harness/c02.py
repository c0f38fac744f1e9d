"""C02 Encoded text contains no white space an ODF consumer would collapse."""
from symex.api import case
from symex import literals
from harness.util import special_text, long_text
from ezodf import Paragraph, Span
from ezodf.whitespaces import encode_whitespaces, decode_whitespaces
from ezodf.xmlns import CN

BOUNDS = ('every string of up to 6 (thorough 8) characters, each any XML character; prefix of up to 1 character + run '
          'of 0..40 (thorough 0..200) equal white space characters + suffix of up to 1; two consecutive encodings'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['the encoder is asked about one string; white space that only meets across separately appended '
               'strings is not part of the property']


def expected(ctx, s):
    """the only allowed encoding, as a list of characters and markers"""
    out = []
    run = 0
    for ch in s:
        if ctx.fork(ch == ' '):
            run += 1
            if run == 1:
                out.append(' ')
            elif run == 2:
                out.append(('s', 1))
            else:
                out[-1] = ('s', out[-1][1] + 1)
            continue
        run = 0
        if ctx.fork(ch == '\t'):
            out.append(('tab', 0))
        elif ctx.fork(ch == '\n'):
            out.append(('br', 0))
        else:
            out.append(ch)
    return out


def tag_item(el):
    tag = el.xmlnode.tag
    if tag == CN('text:tab'):
        return ('tab', 0)
    if tag == CN('text:line-break'):
        return ('br', 0)
    if tag == CN('text:s'):
        c = el.xmlnode.get(CN('text:c'))
        return ('s', 1 if c is None else int(c))
    return ('other', tag)


def flat(taglist):
    out = []
    for t in taglist:
        if isinstance(t, str):
            out.extend(list(t))
        else:
            out.append(tag_item(t))
    return out


def same(ctx, got, want):
    if len(got) != len(want):
        return False
    conds = []
    for g, w in zip(got, want):
        if isinstance(g, tuple) or isinstance(w, tuple):
            if not (isinstance(g, tuple) and isinstance(w, tuple)):
                return False
            conds.append(ctx.all([g[0] == w[0], g[1] == w[1]]))
        else:
            conds.append(ctx.eq(g, w))
    return ctx.all(conds)


def flat_xml(node, out):
    if node.text:
        out.extend(list(node.text))
    for c in node:
        if c.tag == CN('text:span'):
            flat_xml(c, out)
        elif c.tag == CN('text:s'):
            n = c.get(CN('text:c'))
            out.append(('s', 1 if n is None else int(n)))
        elif c.tag == CN('text:tab'):
            out.append(('tab', 0))
        elif c.tag == CN('text:line-break'):
            out.append(('br', 0))
        else:
            out.append(('other', c.tag))
        if c.tail:
            out.extend(list(c.tail))
    return out


def verify(ctx, s):
    tags = encode_whitespaces(s)
    want = expected(ctx, s)
    ctx.check(same(ctx, flat(tags), want), 'encoded form')
    for t in tags:
        if isinstance(t, str):
            ctx.check(len(t) > 0, 'empty character data')
    ctx.check(decode_whitespaces(tags) == s, 'decoded text')
    return tags, want


@case('C02')
def encode(ctx):
    s = ctx.text('s', ctx.q(6, 8))
    tags, want = verify(ctx, s)
    ctx.observe([x if isinstance(x, str) else list(tag_item(x)) for x in tags])


@case('C02')
def stored(ctx):
    """what a paragraph actually stores in the XML tree"""
    s = ctx.text('s', ctx.q(4, 6))
    p = Paragraph(s)
    ctx.check(same(ctx, flat_xml(p.xmlnode, []), expected(ctx, s)), 'stored form')


@case('C02')
def long_runs(ctx):
    a = ctx.text('a', 1)
    b = ctx.text('b', 1)
    c = ctx.choice('c', [' ', '\t', '\n'])
    n = ctx.fork(ctx.int('n', 0, ctx.q(40, 200)))
    tags, want = verify(ctx, a + c * n + b)


@case('C02')
def two_calls(ctx):
    """an encoding does not depend on, or change, an earlier one"""
    s = ctx.text('s', ctx.q(3, 4))
    t = ctx.text('t', ctx.q(2, 3))
    first, want = verify(ctx, s)
    n = len(first)
    verify(ctx, t)
    ctx.check(len(first) == n, 'earlier result changed')
    ctx.check(same(ctx, flat(first), want), 'earlier result changed')


MODULES = ('whitespaces', 'text', 'compatibility')


@case('C02')
def constants(ctx):
    """texts the code mentions itself, next to free characters"""
    verify(ctx, special_text(ctx, 's', MODULES, ('true', 'text:s', ' \t ', '\u00a0\u00a0', '\r\n', '\x85 ', '\u2003\u2003')) + ' ' + ctx.text('t', 2))


@case('C02')
def long_texts(ctx):
    n = ctx.choice('n', tuple(sorted(set([30, 99, 260, 1100] + literals.ints(MODULES, 5, 5000)))))
    a, b = ctx.text('a', 2), ctx.text('b', 1)
    how = ctx.choice('how', ('words', 'run', 'runs'))
    mid = long_text(n) if how == 'words' else ' ' * n if how == 'run' else 'x  y\t\t ' * min(n // 7 + 1, 60)
    s = a + mid + b
    verify(ctx, s)
    p = Paragraph(s)
    ctx.check(same(ctx, flat_xml(p.xmlnode, []), expected(ctx, s)), 'stored form')
