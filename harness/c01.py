"""C01 Text put into text objects is read back unchanged."""
from symex.api import case
from symex import literals
from harness.util import special_text, long_text
from ezodf import (Paragraph, Heading, Span, Hyperlink, ListItem, ListHeader, Section, NumberedParagraph,
                   LineBreak, Tabulator, Spaces, SoftPageBreak, List)
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('creation: every string of up to 5 (thorough 7) characters, and prefix + run of 0..40 spaces/tabs/newlines + '
          'suffix; histories: every sequence of 2 (thorough up to 4) append operations, each with any text of up to 2 '
          'characters or any inline child (nested spans, tab, line break, space run of 1..4, soft page break); loaded '
          'trees: nesting depth 3, every text and tail of up to 2 characters, space counts 0..5 and symbolic up to 10^9'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['characters are those XML 1.0 can carry (others are rejected by lxml)']

KINDS = {'p': Paragraph, 'h': Heading, 'span': Span, 'a': Hyperlink, 'li': ListItem, 'lh': ListHeader}


def make(kind, text):
    if kind == 'a':
        return Hyperlink(href='', text=text)
    return KINDS[kind](text)


@case('C01', quick=[{'kind': k} for k in KINDS])
def create(ctx, kind):
    s = ctx.text('s', ctx.q(5, 7))
    obj = make(kind, s)
    ctx.check(obj.plaintext() == s, 'plain text of a new object')
    ctx.check(obj.textlen == len(s), 'text length of a new object')
    again = wrap(obj.xmlnode)
    ctx.check(again.plaintext() == s, 'plain text read through a new wrapper')
    ctx.observe(obj.plaintext(), obj.textlen, len(obj.xmlnode))


@case('C01', quick=[{'kind': k} for k in ('p', 'li')], thorough=[{'kind': k} for k in KINDS])
def runs(ctx, kind):
    a = ctx.text('a', 1)
    b = ctx.text('b', 1)
    c = ctx.choice('c', [' ', '\t', '\n'])
    n = ctx.fork(ctx.int('n', 0, 40))
    s = a + c * n + b
    obj = make(kind, s)
    ctx.check(obj.plaintext() == s, 'plain text with a long run')
    ctx.check(obj.textlen == len(s), 'text length with a long run')
    ctx.observe(obj.plaintext(), len(obj.xmlnode))


def child(ctx, i):
    """(inline element, its text)"""
    k = ctx.choice('kind%d' % i, ['span', 'nested', 'tab', 'br', 's', 'soft', 'a'])
    if k == 'tab':
        return Tabulator(), '\t'
    if k == 'br':
        return LineBreak(), '\n'
    if k == 'soft':
        return SoftPageBreak(), ''
    if k == 's':
        n = ctx.fork(ctx.int('n%d' % i, 1, 4))
        return Spaces(n), ' ' * n
    t = ctx.text('t%d' % i, 1)
    if k == 'span':
        return Span(t), t
    if k == 'a':
        return Hyperlink(href='x', text=t), t
    inner = Span(t)
    inner.append(Spaces(2))
    outer = Span('x')
    outer.append(inner)
    outer.append_text(t)
    return outer, 'x' + t + '  ' + t


@case('C01', quick=[{'kind': k, 'ops': [a, b]} for k in ('p', 'a') for a in 'tc' for b in 'tc'] +
      [{'kind': 'h', 'ops': ['t', 'c', 't']}],
      thorough=[{'kind': k, 'ops': [a, b, c]} for k in ('p', 'a', 'span') for a in 'tc' for b in 'tc' for c in 'tc'] + [{'kind': k, 'ops': [a, b, c, 't']} for k in 'h' for a in 'tc' for b in 'tc' for c in 'tc'])
def history(ctx, kind, ops):
    s = ctx.text('s', 1) if len(ops) < 3 else ''
    obj = make(kind, s)
    want = s
    for i, op in enumerate(ops):
        if op == 't':
            t = ctx.text('t%d' % i, 2 if i == 0 else 1)
            obj.append_text(t)
            want = want + t
        else:
            el, t = child(ctx, i)
            ret = obj.append(el)
            want = want + t
        ctx.check(obj.plaintext() == want, 'plain text after append')
        ctx.check(obj.textlen == len(want), 'text length after append')
    ctx.observe(obj.plaintext(), obj.textlen)


@case('C01')
def spaces_count(ctx):
    n = ctx.int('n', 1, 10 ** 9)
    x = etree.Element(CN('text:s'))
    x.set(CN('text:c'), ctx.sxstr(n))
    el = wrap(x)
    ctx.check(ctx.all([el.count == n, el.textlen == n]), 'length of a space run')
    sp = Spaces(n)
    ctx.check(ctx.all([sp.count == n, sp.textlen == n]), 'length of a new space run')
    p = Paragraph('ab')
    p.append(sp)
    ctx.check(p.textlen == n + 2, 'length with a space run')


@case('C01', quick=[{'shape': s} for s in range(5)])
def loaded(ctx, shape):
    """trees as found in documents, built from raw XML nodes"""
    def node(tag, text=None, tail=None):
        e = etree.Element(CN(tag))
        if text is not None:
            e.text = text
        if tail is not None:
            e.tail = tail
        return e
    t = [ctx.text('t%d' % i, 2) for i in range(3)]
    if shape == 0:
        p = node('text:p', t[0])
        s = node('text:span', t[1], t[2])
        p.append(s)
        want = t[0] + t[1] + t[2]
    elif shape == 1:
        p = node('text:h', t[0])
        s = node('text:span', t[1])
        i = node('text:tab', None, t[2])
        s.append(i)
        p.append(s)
        want = t[0] + t[1] + '\t' + t[2]
    elif shape == 2:
        p = node('text:p')
        k = ctx.fork(ctx.int('k', 0, 5))
        a = node('text:s', None, t[0])
        if k:
            a.set(CN('text:c'), str(k))
        b = node('text:line-break', None, t[1])
        p.append(a)
        p.append(b)
        p.append(node('text:soft-page-break', None, t[2]))
        want = ' ' * max(k, 1) + t[0] + '\n' + t[1] + t[2]
    elif shape == 3:
        p = node('text:p')
        a = node('text:a', t[0])
        b = node('text:span', None, t[1])
        c = node('text:span', t[2], 'z')
        b.append(c)
        a.append(b)
        p.append(a)
        want = t[0] + t[2] + 'z' + t[1]
    else:
        p = node('text:list-item')
        a = node('text:p', t[0])
        b = node('text:h', t[1])
        b.append(node('text:s', None, t[2]))
        p.append(a)
        p.append(b)
        want = t[0] + '\n' + t[1] + ' ' + t[2]
    obj = wrap(p)
    ctx.check(obj.plaintext() == want, 'plain text of a loaded tree')
    ctx.check(obj.textlen == len(want), 'text length of a loaded tree')
    ctx.observe(obj.plaintext(), obj.textlen)


MODULES = ('text', 'whitespaces', 'base', 'compatibility', 'protection', 'xmlns')


@case('C01', quick=[{'kind': k} for k in ('p', 'span', 'a')], thorough=[{'kind': k} for k in ('p', 'h', 'span', 'a')])
def constants(ctx, kind):
    """texts the code mentions itself"""
    s = special_text(ctx, 's', MODULES, ('true', 'None', 'text:s', '&amp;', '<a>', '  ', '\\n', '\u00a0\u00a0', '\u2028'))
    obj = make(kind, s)
    ctx.check(obj.plaintext() == s, 'plain text of a new object')
    ctx.check(obj.textlen == len(s), 'text length of a new object')
    obj.append_text(s)
    ctx.check(obj.plaintext() == s + s, 'plain text after append')
    obj.append(Span(s))
    ctx.check(obj.plaintext() == s + s + s, 'plain text after append')
    ctx.check(obj.textlen == 3 * len(s), 'text length after append')


@case('C01', quick=[{'kind': k} for k in ('p', 'a')], thorough=[{'kind': k} for k in ('p', 'h', 'span', 'a')])
def long_texts(ctx, kind):
    """lengths around the integer constants of the code, and some others"""
    n = ctx.choice('n', tuple(sorted(set([30, 99, 260, 1100] + literals.ints(MODULES, 5, 5000)))))
    a, b, c = ctx.text('a', 1), ctx.text('b', 1), ctx.text('c', 1)
    how = ctx.choice('how', ('text', 'spans', 'deep', 'runs'))
    if how == 'text':
        s = a + long_text(n) + b
        obj = make(kind, s)
    elif how == 'runs':
        s = a + ' ' * n + b + '\t' * 3
        obj = make(kind, s)
    elif how == 'spans':
        # as many children
        n = min(n, 70)
        obj = make(kind, a)
        s = a
        for i in range(n):
            obj.append(Span('s') if i % 2 else Tabulator())
            s += 's' if i % 2 else '\t'
        obj.append_text(b)
        s += b
    else:
        n = min(n, 40)
        inner = Span(b)
        for i in range(n):
            outer = Span('o')
            outer.append(inner)
            outer.append_text('t')
            inner = outer
        obj = make(kind, a)
        obj.append(inner)
        s = a + 'o' * n + b + 't' * n
    ctx.check(obj.plaintext() == s, 'plain text')
    ctx.check(obj.textlen == len(s), 'text length')
    obj.append_text(c)
    ctx.check(obj.plaintext() == s + c, 'plain text after append')
    ctx.check(obj.textlen == len(s) + len(c), 'text length after append')
