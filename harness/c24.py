"""C24 Qualified names convert to the namespace they name, stably."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text, long_text
from ezodf import xmlns
from ezodf.base import GenericWrapper
from ezodf.const import ALL_NSMAP
from ezodf.xmlns import CN, XML, _XMLNamespaces, wrap, register_class, etree, fake_element

BOUNDS = ('namespace maps with 0..2 (thorough: 3) free prefixes (0..1 characters) and uris (1 character), names of up to 4 (thorough: 6) free '
          'characters, histories of 3 conversions and 2 registrations, the global map with its own prefixes and free names; '
          'class registrations for 2 tags out of 8, 3 classes, in sequences of 3'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['a name that starts with "{" is in Clark notation']


def model_convert(ctx, table, name):
    """expected outcome for a name: ('ok', text) | exception class; table: list of (prefix, uri), last wins"""
    if len(name) > 0 and name[0] == '{':
        return name
    at = [i for i in range(len(name)) if name[i] == ':']
    if len(at) != 1:
        return ValueError
    prefix, local = name[:at[0]], name[at[0] + 1:]
    for p, u in reversed(table):
        if p == prefix:
            return '{' + u + '}' + local
    return KeyError


def same(ctx, convert, table, name, label):
    want = model_convert(ctx, table, name)
    got, exc = attempt(convert, name)
    if want is ValueError or want is KeyError:
        ctx.check(isinstance(exc, want), label + ': rejected')
        ctx.reach(want.__name__)
    else:
        if exc is not None:
            raise exc
        ctx.check(ctx.eq(got, want), label + ': converted')


LETTERS = ((0x20, 0x7e),)


@case('C24', quick=[{'start': 0}, {'start': 1}, {'start': 2}], thorough=[{'start': 1, 'n': 5}, {'start': 2, 'n': 5}, {'start': 3}])
def histories(ctx, start, n=3):
    table, nsmap = [], {}
    for i in range(start):
        p, u = ctx.text('p%d' % i, 1), ctx.text('u%d' % i, 1, None, 1) if start == 1 else 'u%d' % i
        for q, w in table:
            ctx.assume(ctx.not_(ctx.eq(p, q)))
        table.append((p, u))
        nsmap[p] = u
    ns = _XMLNamespaces(nsmap)
    convert = ns._prefix2clark_cached
    name = ctx.text('name', n)
    same(ctx, convert, table, name, 'first')
    same(ctx, convert, table, name, 'repeated')
    # register another or changed prefix
    p, u = ctx.text('px', 1), ctx.text('ux', 1, None, 1) if start == 1 else 'ux'
    if ctx.bool('by update'):
        ns.update({p: u})
    else:
        ns.register_namespace(p, u)
    table.append((p, u))
    same(ctx, convert, table, name, 'after registering')
    other = ctx.choice('other', ('colon', 'free') if start != 1 else ('colon',))
    other = p + ':' + ctx.choice('local', ('', 'l', '{l}')) if other == 'colon' else ctx.text('name2', 2 if start == 0 else 1)
    same(ctx, convert, table, other, 'another name')
    same(ctx, convert, table, name, 'first name again')
    ns.register_namespace(p, 'z')
    table.append((p, 'z'))
    same(ctx, convert, table, other, 'changed prefix')
    same(ctx, convert, table, name, 'first name, changed prefix')


@case('C24', quick=[{'n': 4}], thorough=[{'n': 6}])
def names(ctx, n):
    """any name against a fixed map"""
    table = [('a', 'A'), ('bc', 'B:C'), ('', 'E'), ('d', '')]
    ns = _XMLNamespaces(dict(table))
    name = ctx.text('name', n)
    same(ctx, ns._prefix2clark_cached, table, name, 'name')
    same(ctx, ns._prefix2clark_cached, table, name, 'name again')
    clark = '{' + ctx.text('uri', 2) + '}' + ctx.text('local', 1)
    got, exc = attempt(ns._prefix2clark_cached, clark)
    ctx.check(exc is None and ctx.eq(got, clark), 'Clark notation is returned unchanged')


@case('C24')
def predefined(ctx):
    """the global map knows every ODF prefix"""
    table = list(ALL_NSMAP.items())
    prefix = ctx.enum('prefix', [p for p, u in table])
    local = ctx.text('local', 1)
    name = prefix + ':' + local
    same(ctx, CN, table, name, 'global')
    same(ctx, CN, table, name, 'global, again')
    how = ctx.choice('how', ('none', 'new', 'change'))
    if how == 'new':
        p = ctx.text('new', 2)
        XML.register_namespace(p, 'urn:new')
        table.append((p, 'urn:new'))
    elif how == 'change':
        p = prefix
        XML.update({prefix: 'urn:changed'})
        table.append((p, 'urn:changed'))
    same(ctx, CN, table, name, 'after registering')
    same(ctx, CN, table, 'text:p', 'known name')
    if how != 'none':
        same(ctx, CN, table, p + ':x', 'new prefix')


@case('C24')
def unknown(ctx):
    prefix = ctx.text('prefix', 5, LETTERS)
    got, exc = attempt(CN, prefix + ':p')
    known = any([prefix == p for p in ALL_NSMAP])
    if ':' in prefix:
        ctx.check(isinstance(exc, ValueError) if prefix[0:1] != '{' else exc is None, 'more than one colon')
    elif prefix[0:1] == '{':
        ctx.check(ctx.eq(got, prefix + ':p'), 'Clark notation')
    elif known:
        ctx.check(exc is None, 'known prefix')
    else:
        ctx.check(isinstance(exc, KeyError), 'unknown prefix')


def make_classes(related):
    out = []
    for i in range(3):
        class C(out[0] if related and i else GenericWrapper):
            no = i
        out.append(C)
    if related == 'reversed':
        out.reverse()
    return out


UNKNOWN = ['x', CN('text:pp'), '{urn:x}p', CN('table:p'), 'p', CN('office:boody')]
TAGS = ('text', 'p', CN('text:p'), CN('text:list'), CN('text:new'), '{urn:x}p', CN('table:table'))


@case('C24', quick=[{'n': 2}], thorough=[{'n': 3}])
def classes(ctx, n):
    """the class registered last for a tag wraps it"""
    tags = [ctx.enum('t%d' % i, TAGS) for i in range(2)]
    kinds = make_classes(ctx.choice('related', (False, True, 'reversed')))
    current = {}
    probes = tags + [CN('text:list'), 'unknown']
    builtin = {}
    for t in TAGS:
        builtin[t] = type(wrap(etree.Element(t))) if ':' not in t or t[0] == '{' else GenericWrapper
    registered = []
    for step in range(n):
        i = ctx.choice('tag%d' % step, (0, 1, 2))
        k = ctx.choice('class%d' % step, (0, 1, 2))
        cls = kinds[k]
        cls.TAG = probes[i]
        ctx.check(register_class(cls) is cls, 'registration passes the class through')
        registered.append((probes[i], cls))
        for t in probes:
            w = wrap(etree.Element(t))
            want = None
            for tag, c in reversed(registered):
                if tag == t:
                    want = c
                    break
            if want is None:
                for tag in sorted(builtin):
                    if tag == t:
                        want = builtin[tag]
            if want is None:
                want = GenericWrapper
            ctx.check(type(w) is want, 'class of the wrapper')
            ctx.check(ctx.eq(w.xmlnode.tag, t), 'wrapped element')
    e = etree.Element(probes[0])
    ctx.check(wrap(e).xmlnode is e, 'the wrapper shows the element')


@case('C24')
def every_class(ctx):
    """every class of the package is found by its tag and its own tag only"""
    from ezodf.xmlns import _class_registry
    known = sorted(_class_registry._classmap)
    tag = ctx.enum('tag', known + UNKNOWN)
    w = wrap(etree.Element(tag))
    for t in known:
        if tag == t:
            ctx.check(type(w) is _class_registry._classmap[t] and type(w).TAG == t, 'class of a tag')
            return
    ctx.check(type(w) is GenericWrapper, 'unknown tags use the generic wrapper')


MODULES = ('xmlns', 'const', 'base')


@case('C24')
def constants(ctx):
    """prefixes and names the code mentions itself; many prefixes"""
    ns = _XMLNamespaces({'a': 'A'})
    table = [('a', 'A')]
    many = ctx.choice('many', tuple(sorted(set([2, 40] + literals.ints(MODULES, 4, 300)))))
    for i in range(many):
        if i % 2:
            ns.update({'n%d' % i: 'u%d' % i})
        else:
            ns.register_namespace('n%d' % i, 'u%d' % i)
        table.append(('n%d' % i, 'u%d' % i))
        if i % 3 == 0:
            ns._prefix2clark_cached('n%d:x' % i)
    t = special_text(ctx, 't', MODULES, ('xml', 'xmlns', 'None', 'text', 'a', 'n1', 'x' * 80), 8)
    convert = ns._prefix2clark_cached
    if ctx.bool('prefix'):
        ns.register_namespace(t, 'urn:t')
        table.append((t, 'urn:t'))
        name = t + ':local'
    else:
        name = ctx.choice('p', ('a', 'n1', 'zz')) + ':' + t
    same(ctx, convert, table, name, 'first')
    same(ctx, convert, table, name, 'repeated')
    for i in (0, 1, many - 1):
        same(ctx, convert, table, 'n%d:x' % i, 'another')
    ns.register_namespace('a', 'changed')
    table.append(('a', 'changed'))
    same(ctx, convert, table, name, 'after registering')
    same(ctx, convert, table, 'a:x', 'changed prefix')
