"""lxml.etree facade: the real lxml tree, with symbolic text, attribute values
and tags stored as tokens (see sym.token_str)."""
import re
import sys
import types
import z3

sys.path.append('/opt/venv/lib/python3.12/site-packages')
from lxml import etree as real   # noqa: E402
from .engine import E
from .sym import (Sym, SymStr, SymEnum, SymInt, SymBool, Ch, Num, token_str, untoken,
                  tag_token, tag_untoken, in_ranges, _pred_ranges, TOK_A, TOK_B,
                  TAGNS, and_all, _tname)
from . import rt

_text = real._Element.text
_tail = real._Element.tail
_tag = real._Element.tag
_attrib = real._Element.attrib


def _xml_illegal(c):
    o = ord(c)
    return not (o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000)


def enc(v):
    """Value handed to lxml as text."""
    if isinstance(v, SymEnum):
        return token_str(v)
    if isinstance(v, SymStr):
        for a in v._sx:
            if isinstance(a, Ch):
                bad = _pred_ranges('xmlillegal', _xml_illegal, a.dom)
                if bad and E.branch(in_ranges(a.e, bad)):
                    raise ValueError('All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')
        return token_str(v)
    if isinstance(v, Sym):
        raise TypeError("Argument must be bytes or unicode, got '%s'" % _tname(v))
    return v


def dec(v):
    return untoken(v) if type(v) is str else v


class SAttrib(object):
    def __init__(self, el):
        self._el = el
        self._a = _attrib.__get__(el)

    def __getitem__(self, k):
        return dec(self._a[ename(k)])

    def __setitem__(self, k, v):
        self._a[ename(k)] = enc(v)

    def __delitem__(self, k):
        del self._a[ename(k)]

    def __contains__(self, k):
        return ename(k) in self._a

    def has_key(self, k):
        return k in self

    def get(self, k, default=None):
        v = self._a.get(ename(k))
        return default if v is None else dec(v)

    def pop(self, k, *d):
        return dec(self._a.pop(ename(k), *d))

    def items(self):
        return [(dname(k), dec(v)) for k, v in self._a.items()]

    def keys(self):
        return [dname(k) for k in self._a.keys()]

    def values(self):
        return [dec(v) for v in self._a.values()]

    def __iter__(self):
        return iter(self.keys())
    iterkeys = __iter__

    def iteritems(self):
        return iter(self.items())

    def itervalues(self):
        return iter(self.values())

    def __len__(self):
        return len(self._a)

    def __bool__(self):
        return len(self._a) > 0

    def clear(self):
        self._a.clear()

    def update(self, o):
        items = o.items() if hasattr(o, 'items') else o
        for k, v in items:
            self[k] = v

    def __copy__(self):
        return dict(self.items())

    def __deepcopy__(self, memo):
        return dict(self.items())

    def __eq__(self, o):
        o = dict(o.items()) if not isinstance(o, dict) else o
        a = rt.SDict(self.items())
        return a == o

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return repr(dict(self.items()))


def ename(k):
    """attribute / element name"""
    if isinstance(k, SymEnum):
        return k._sxval()
    if isinstance(k, SymStr):
        return k._concrete()
    return k


def dname(k):
    return k


_PRED = re.compile(r"^(?P<pre>\.//)?(?P<tag>\{[^}]*\}[^\[\]/]+|\*|[^\[\]/{}]+)(?P<preds>(\[@[^\]=]+='[^']*'\])*)$")
_ONEPRED = re.compile(r"\[@([^\]=]+)='([^']*)'\]")


class SElement(real.ElementBase):
    @property
    def text(self):
        return dec(_text.__get__(self))

    @text.setter
    def text(self, v):
        _text.__set__(self, enc(v))

    @property
    def tail(self):
        return dec(_tail.__get__(self))

    @tail.setter
    def tail(self, v):
        _tail.__set__(self, enc(v))

    @property
    def tag(self):
        return tag_untoken(_tag.__get__(self))

    @tag.setter
    def tag(self, v):
        if isinstance(v, SymStr):
            v = v._concrete()
        _tag.__set__(self, tag_token(v))

    @property
    def attrib(self):
        return SAttrib(self)

    def get(self, k, default=None):
        v = real._Element.get(self, ename(k))
        return default if v is None else dec(v)

    def set(self, k, v):
        k, v = ename(k), enc(v)
        if v is None:
            raise TypeError("Argument must be bytes or unicode, got 'NoneType'")
        real._Element.set(self, k, v)

    def items(self):
        return [(k, dec(v)) for k, v in real._Element.items(self)]

    def values(self):
        return [dec(v) for v in real._Element.values(self)]

    # -- positions -------------------------------------------------------
    def __getitem__(self, i):
        if isinstance(i, (SymInt, SymBool)):
            i = rt.sym_index(i, len(self))
        elif isinstance(i, slice):
            i = rt.sym_slice(i, len(self))
        return real._Element.__getitem__(self, i)

    def __setitem__(self, i, v):
        if isinstance(i, (SymInt, SymBool)):
            i = rt.sym_index(i, len(self))
        elif isinstance(i, slice):
            i = rt.sym_slice(i, len(self))
        return real._Element.__setitem__(self, i, v)

    def __delitem__(self, i):
        if isinstance(i, (SymInt, SymBool)):
            i = rt.sym_index(i, len(self))
        elif isinstance(i, slice):
            i = rt.sym_slice(i, len(self))
        return real._Element.__delitem__(self, i)

    def insert(self, i, el):
        if isinstance(i, SymInt):
            i = rt.clamp(i, len(self))
        return real._Element.insert(self, i, el)

    # -- searching ----------------------------------------------------------
    def _kids(self, tag=None, reverse=False):
        for c in real._Element.iterchildren(self, reversed=reverse):
            if tag is None or tag == '*' or rt.truth(rt.eq(c.tag, tag)):
                yield c

    def iterchildren(self, tag=None, *tags, reversed=False):
        if not E.sym_tags and not isinstance(tag, Sym):
            if tag is None:
                return real._Element.iterchildren(self, reversed=bool(reversed))
            return real._Element.iterchildren(self, tag, *tags, reversed=bool(reversed))
        if tag is None or not tags:
            return self._kids(tag, bool(reversed))
        alltags = (tag,) + tags
        return (c for c in real._Element.iterchildren(self, reversed=bool(reversed))
                if any(rt.truth(rt.eq(c.tag, t)) for t in alltags))

    def _desc(self, tag):
        for c in real._Element.iterdescendants(self):
            if isinstance(c, SElement) and (tag == '*' or rt.truth(rt.eq(c.tag, tag))):
                yield c

    def iter(self, tag=None, *tags):
        if not E.sym_tags and not isinstance(tag, Sym):
            return real._Element.iter(self, *([tag] if tag is not None else []), *tags)
        alltags = ((tag,) if tag is not None else ()) + tags
        return (c for c in real._Element.iter(self)
                if not alltags or any(rt.truth(rt.eq(c.tag, t)) for t in alltags))

    def iterdescendants(self, tag=None, *tags):
        if not E.sym_tags and not isinstance(tag, Sym):
            return real._Element.iterdescendants(self, *([tag] if tag is not None else []), *tags)
        return (c for c in self.iter(tag, *tags) if c is not self)

    def itersiblings(self, tag=None, *tags, preceding=False):
        if not E.sym_tags and not isinstance(tag, Sym):
            return real._Element.itersiblings(self, *([tag] if tag is not None else []), *tags, preceding=bool(preceding))
        alltags = ((tag,) if tag is not None else ()) + tags
        return (c for c in real._Element.itersiblings(self, preceding=bool(preceding))
                if not alltags or any(rt.truth(rt.eq(c.tag, t)) for t in alltags))

    def iterfind(self, path, namespaces=None):
        if isinstance(path, SymEnum):
            path = path._sxval()
        if isinstance(path, SymStr):
            r = self._symbolic_path(path)
            if r is not None:
                return iter(r)
            path = path._concrete()
        if not E.sym_tags and "[" not in path:
            return real._Element.iterfind(self, path, namespaces)
        m = _PRED.match(path)
        if m is None or not isinstance(path, str):
            if E.sym_tags:
                E.note_incomplete('path expression %r over symbolic tags' % (path,))
            return real._Element.iterfind(self, path, namespaces)
        preds = _ONEPRED.findall(m.group('preds'))
        return self._match_iter(m.group('pre'), m.group('tag'), preds)

    def _match_iter(self, pre, tag, preds):
        for c in (self._desc(tag) if pre else self._kids(tag)):
            ok = True
            for k, v in preds:
                have = c.get(k)
                if have is None or not rt.truth(rt.eq(have, v)):
                    ok = False
                    break
            if ok:
                yield c

    def _symbolic_path(self, path):
        """.//tag[@attr='<symbolic>'] ; None if the text cannot be split."""
        parts = path._chars()
        text = ''.join(c if isinstance(c, str) else '\ue005' for c in parts)
        m = re.match(r"^(\.//)?(\{[^}]*\}[^\[\]/\ue005]+)\[@([^\]=\ue005]+)=(['\"])", text)
        if not m or not text.endswith(m.group(4) + ']'):
            return None
        val = SymStr.make(parts[m.end():-2])
        q = m.group(4)
        if rt.truth(rt.contains(q, val)):
            # a quote inside the literal changes the expression
            return None
        return list(self._match_iter(m.group(1), m.group(2), [(m.group(3), val)]))

    def findall(self, path, namespaces=None):
        if not isinstance(path, Sym) and not E.sym_tags and '[' not in path:
            return real._Element.findall(self, path, namespaces)
        return list(self.iterfind(path, namespaces))

    def find(self, path, namespaces=None):
        if not isinstance(path, Sym) and not E.sym_tags and '[' not in path:
            return real._Element.find(self, path, namespaces)
        for x in self.iterfind(path, namespaces):
            return x
        return None

    def findtext(self, path, default=None, namespaces=None):
        el = self.find(path, namespaces)
        if el is None:
            return default
        return el.text or ''

    def xpath(self, path, **k):
        if isinstance(path, Sym):
            path = str(path)
        if E.tokens:
            E.note_incomplete('xpath over symbolic content')
        r = real._Element.xpath(self, path, **k)
        if isinstance(r, list):
            return [dec(str(x)) if isinstance(x, str) else x for x in r]
        return dec(str(r)) if isinstance(r, str) else r

    def itertext(self, *tags, **k):
        return (dec(str(t)) for t in real._Element.itertext(self, *tags, **k))

    def makeelement(self, tag, attrib=None, nsmap=None, **extra):
        return Element(tag, attrib, nsmap, **extra)


class SComment(real.CommentBase):
    @property
    def text(self):
        return dec(_ctext(self))


def _ctext(c):
    return real.CommentBase.text.__get__(c)


_lookup = real.ElementDefaultClassLookup(element=SElement)
_parser = real.XMLParser()
_parser.set_element_class_lookup(_lookup)


def _attrs(attrib, extra):
    a = {}
    if attrib:
        for k, v in attrib.items():
            a[ename(k)] = v
    for k, v in extra.items():
        a[k] = v
    return a


def Element(_tag, attrib=None, nsmap=None, **extra):
    if isinstance(_tag, SymStr):
        _tag = _tag._concrete()
    if nsmap is not None:
        nsmap = dict(nsmap.items())
    el = _parser.makeelement(tag_token(_tag), nsmap=nsmap)
    for k, v in _attrs(attrib, extra).items():
        el.set(k, v)
    return el


def SubElement(_parent, _tag, attrib=None, nsmap=None, **extra):
    if isinstance(_tag, SymStr):
        _tag = _tag._concrete()
    if nsmap is not None:
        nsmap = dict(nsmap.items())
    el = real.SubElement(_parent, tag_token(_tag), nsmap=nsmap)
    for k, v in _attrs(attrib, extra).items():
        el.set(k, v)
    return el


def _src(text):
    if isinstance(text, Sym):
        # inside a document the content of a token is plain text; markup in a
        # symbolic string is not modelled, so it must not contain any
        if isinstance(text, SymStr):
            for c in text._chars():
                if not isinstance(c, str) and not isinstance(c.e, str):
                    for x in '<>&\'"':
                        if E.branch(c.e == ord(x)):
                            break
        return token_str(text)
    return text


def XML(text, parser=None, **k):
    return real.XML(_src(text), parser if _is_parser(parser) else _parser)


def fromstring(text, parser=None, **k):
    return real.fromstring(_src(text), parser if _is_parser(parser) else _parser)


def _is_parser(p):
    if isinstance(p, (real.XMLParser, real.HTMLParser)):
        p.set_element_class_lookup(_lookup)
        return True
    return False


def parse(source, parser=None, **k):
    return real.parse(source, parser if _is_parser(parser) else _parser, **k)


def XMLParser(*a, **k):
    p = real.XMLParser(*a, **k)
    p.set_element_class_lookup(_lookup)
    return p


def tostring(el, *a, **k):
    r = real.tostring(el, *a, **k)
    if type(r) is str:
        return untoken(r)
    return r


def iselement(x):
    return real.iselement(x)


def Comment(text=None):
    return real.Comment(enc(text))


def make_module():
    m = types.ModuleType('lxml.etree')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    for n in ('Element', 'SubElement', 'XML', 'fromstring', 'parse', 'XMLParser',
              'tostring', 'iselement', 'Comment'):
        setattr(m, n, globals()[n])
    top = types.ModuleType('lxml')
    top.etree = m
    top.__path__ = []
    return top, m
