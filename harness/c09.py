"""C09 Sheets and pages form an ordered list that is also addressable by name."""
from symex.api import case
from symex import literals
from harness.util import attempt, special_text
from harness.tabmodel import snapshot
from ezodf import Table, Paragraph
from ezodf.drawingpage import DrawingPage
from ezodf.sheets import Sheets
from ezodf.pages import Pages
from ezodf.xmlns import wrap, CN, etree

BOUNDS = ('bodies with 0..3 sheets or pages and other elements before, between and after them (6 arrangements), loaded or '
          'built with the API, sequences of 2 operations (thorough: 3) with indices -(n+2)..n+2 and names of up to 2 free '
          'characters, new, own and foreign sheets'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['inserting a sheet that already is in the list moves it in front of the sheet that has the index at the time '
               'of the call (as the documentation demands)']

# p: prelude element, s: sheet, e: epilogue element, o: any other element, T: table inside another element
ARRANGEMENTS = ('s', 'psse', 'ppspsose', 'pe', '', 'pTssee')


class World(object):
    def __init__(self, ctx, kind, arrangement, names=None):
        self.kind = kind
        self.ctx = ctx
        self.body = etree.Element(CN('office:spreadsheet' if kind == 'sheets' else 'office:drawing'))
        self.childtag = CN('table:table' if kind == 'sheets' else 'draw:page')
        self.nametag = CN('table:name' if kind == 'sheets' else 'draw:name')
        self.nodes, self.names = [], []
        self.count = 0
        for i, a in enumerate(arrangement):
            if a == 's':
                n = len(self.nodes)
                self.add(self.raw(names[n] if names else 'N%d' % n), names[n] if names else 'N%d' % n)
                self.body.append(self.nodes[-1])
            elif a == 'p':
                etree.SubElement(self.body, CN(('table:calculation-settings', 'table:content-validations', 'table:label-ranges')[i % 3]))
            elif a == 'e':
                etree.SubElement(self.body, CN(('table:named-expressions', 'table:database-ranges')[i % 2]))
            elif a == 'o':
                etree.SubElement(self.body, CN('text:soft-page-break'))
            else:
                box = etree.SubElement(self.body, CN('table:tracked-changes'))
                box.append(self.raw('inner'))
        self.others = [e for e in self.body if e.tag != self.childtag]
        self.list = (Sheets if kind == 'sheets' else Pages)(self.body)

    def raw(self, name):
        e = etree.Element(self.childtag)
        e.set(self.nametag, name)
        e.set('id', 'x%d' % len(self.nodes))
        if self.kind == 'sheets':
            row = etree.SubElement(e, CN('table:table-row'))
            etree.SubElement(row, CN('table:table-cell'))
        return e

    def new(self, name):
        if self.kind == 'sheets':
            return Table(name, size=(1, 1))
        return DrawingPage(name)

    def add(self, node, name):
        self.nodes.append(node)
        self.names.append(name)

    def check(self):
        ctx, n = self.ctx, len(self.nodes)
        ctx.check(len(self.list) == n, 'number of sheets')
        got = [s for s in self.list]
        ctx.check(len(got) == n and all(g.xmlnode is e for g, e in zip(got, self.nodes)), 'order of sheets')
        ctx.check(ctx.eq(list(self.list.names()), list(self.names)), 'names')
        for i in range(n):
            ctx.check(self.list[i].xmlnode is self.nodes[i], 'sheet by index')
            ctx.check(self.list[i - n].xmlnode is self.nodes[i], 'sheet by negative index')
            ctx.check(self.list.index(got[i]) == i, 'index of a sheet')
        others = [e for e in self.body if e.tag != self.childtag]
        ctx.check(len(others) == len(self.others) and all(a is b for a, b in zip(others, self.others)),
                  'other body elements are kept in place')
        ctx.check(len(self.body) == n + len(self.others), 'nothing else in the body')
        # sheets stay in front of the trailing elements
        seen = False
        for e in self.body:
            if e.tag in (CN('table:named-expressions'), CN('table:database-ranges')):
                seen = True
            elif e.tag == self.childtag:
                ctx.check(not seen, 'sheets precede the epilogue')


OPS = ('append', 'iadd', 'insert', 'move', 'moveend', 'replace', 'replaceown', 'replacename', 'delete', 'deletename', 'foreign')


def step(ctx, w, op, sfx, epilogue):
    n = len(w.nodes)
    name = 'new' + sfx
    if op in ('append', 'iadd'):
        s = w.new(name)
        if op == 'append':
            ctx.check(w.list.append(s) is s, 'append passes the sheet through')
        else:
            lst = w.list
            lst += s
            ctx.check(lst is w.list, 'in-place append')
        w.add(s.xmlnode, name)
    elif op in ('insert', 'foreign'):
        i = ctx.int('i' + sfx, -n - 2, n + 2)
        if op == 'foreign':
            other = World(ctx, w.kind, 'pss')
            s = other.list[0]
            name = s.name
        else:
            s = w.new(name)
        ctx.check(w.list.insert(i, s) is s, 'insert passes the sheet through')
        w.nodes.insert(ctx.fork(i), s.xmlnode)
        w.names.insert(ctx.fork(i), name)
        if op == 'foreign':
            ctx.check(len(other.list) == 1 and len(other.body) == 2, 'sheet has left its old container')
    elif op in ('move', 'moveend'):
        if not n:
            return
        k = ctx.fork(ctx.int('k' + sfx, 0, n - 1))
        s = w.list[k]
        node, name = w.nodes[k], w.names[k]
        if op == 'move':
            i = ctx.int('i' + sfx, 0, n - 1)
            w.list.insert(i, s)
            i = ctx.fork(i)
        else:
            w.list.append(s)
            i = n
        if i != k:
            target = i - 1 if k < i else i
            del w.nodes[k], w.names[k]
            w.nodes.insert(target, node)
            w.names.insert(target, name)
    elif op in ('replace', 'replaceown', 'replacename'):
        if not n:
            return
        s = w.new(name)
        if op == 'replacename':
            k = ctx.fork(ctx.int('k' + sfx, 0, n - 1))
            k = w.names.index(w.names[k])
            w.list[w.names[k]] = s
        else:
            i = ctx.int('i' + sfx, -n, n - 1)
            if op == 'replaceown':
                s = w.list[n - 1]
                name = w.names[n - 1]
                w.list[i] = s
                k = ctx.fork(i)
                k = k + n if k < 0 else k
                if k != n - 1:
                    del w.nodes[n - 1], w.names[n - 1]
            else:
                w.list[i] = s
                k = ctx.fork(i)
        w.nodes[k] = s.xmlnode
        w.names[k] = name
    else:
        if not n:
            return
        if op == 'delete':
            i = ctx.int('i' + sfx, -n, n - 1)
            del w.list[i]
            k = ctx.fork(i)
        else:
            k = ctx.fork(ctx.int('k' + sfx, 0, n - 1))
            k = w.names.index(w.names[k])
            del w.list[w.names[k]]
        del w.nodes[k], w.names[k]


@case('C09', quick=[{'kind': k, 'arr': a} for k in ('sheets', 'pages') for a in ARRANGEMENTS])
def one(ctx, kind, arr):
    w = World(ctx, kind, arr)
    w.check()
    step(ctx, w, ctx.choice('op', OPS), '1', arr)
    w.check()


@case('C09', quick=[{'arr': a, 'first': f} for a in ('psse',) for f in OPS] +
      [{'arr': a, 'first': f} for a in ('pe', 's') for f in ('append', 'insert', 'delete', 'foreign')],
      thorough=[{'arr': a, 'first': f, 'kind': k} for k in ('sheets', 'pages') for a in ARRANGEMENTS for f in OPS])
def two(ctx, arr, first, kind='sheets'):
    w = World(ctx, kind, arr)
    step(ctx, w, first, '1', arr)
    w.check()
    step(ctx, w, ctx.choice('op', OPS), '2', arr)
    w.check()


@case('C09', quick=[], thorough=[{'arr': a, 'first': f, 'second': s} for a in ('psse', 'ppspsose') for f in OPS for s in OPS])
def three(ctx, arr, first, second):
    w = World(ctx, 'sheets', arr)
    step(ctx, w, first, '1', arr)
    step(ctx, w, second, '2', arr)
    step(ctx, w, ctx.choice('op', OPS), '3', arr)
    w.check()


@case('C09', quick=[{'kind': k, 'arr': a} for k in ('sheets', 'pages') for a in ('psse', 'ppspsose')])
def by_name(ctx, kind, arr):
    """free names: the first sheet of that name, KeyError for an unknown one"""
    n = arr.count('s')
    names = [ctx.text('name%d' % i, 1 if n > 2 else 2) for i in range(n)]
    w = World(ctx, kind, arr, names)
    key = ctx.text('key', 1 if n > 2 else 2)
    first = None
    for i in range(n):
        if names[i] == key:
            first = i
            break
    op = ctx.choice('op', ['get', 'set', 'del'])
    s = w.new('new')
    before = snapshot(w.body)
    if op == 'get':
        res, exc = attempt(w.list.__getitem__, key)
    elif op == 'set':
        res, exc = attempt(w.list.__setitem__, key, s)
    else:
        res, exc = attempt(w.list.__delitem__, key)
    if first is None:
        ctx.check(isinstance(exc, KeyError), 'unknown name')
        ctx.check(ctx.eq(snapshot(w.body), before), 'failed lookup changed something')
        ctx.reach('unknown')
        return
    ctx.check(exc is None, 'known name')
    ctx.reach('known')
    if op == 'get':
        ctx.check(res.xmlnode is w.nodes[first], 'first sheet of that name')
    elif op == 'set':
        w.nodes[first] = s.xmlnode
        w.names[first] = 'new'
    else:
        del w.nodes[first], w.names[first]
    w.check()


@case('C09', quick=[{'kind': k, 'arr': a} for k in ('sheets', 'pages') for a in ARRANGEMENTS])
def rejected(ctx, kind, arr):
    w = World(ctx, kind, arr)
    n = len(w.nodes)
    before = snapshot(w.body)
    what = ctx.choice('what', ['get', 'set', 'del', 'setwrong', 'setwrongname', 'append', 'iadd', 'insert', 'badkey', 'badset', 'baddel', 'index',
                               'insertwhere'])
    i = ctx.int('i', -n - 3, n + 3)
    out = ctx.any([i < -n, i >= n])
    wrong = ctx.choice('wrong', ['para', 'none', 'str', 'page', 'node']) if what in ('setwrong', 'setwrongname', 'append', 'iadd', 'insert') else None
    if wrong:
        bad = {'para': Paragraph('x'), 'none': None, 'str': 'Sheet', 'node': etree.Element(w.childtag),
               'page': DrawingPage('p') if kind == 'sheets' else Table('t', size=(1, 1))}[wrong]
    if what in ('get', 'set', 'del'):
        ctx.assume(out)
        res, exc = (attempt(w.list.__getitem__, i) if what == 'get' else attempt(w.list.__setitem__, i, w.new('new')) if what == 'set'
                    else attempt(w.list.__delitem__, i))
        ctx.check(isinstance(exc, IndexError), 'index outside the list')
    elif what == 'setwrong':
        res, exc = attempt(w.list.__setitem__, i, bad)
        ctx.check(isinstance(exc, TypeError), 'wrong type')
    elif what == 'setwrongname':
        res, exc = attempt(w.list.__setitem__, 'N0', bad)
        ctx.check(isinstance(exc, TypeError), 'wrong type')
    elif what == 'append':
        res, exc = attempt(w.list.append, bad)
        ctx.check(isinstance(exc, TypeError), 'wrong type')
    elif what == 'iadd':
        res, exc = attempt(w.list.__iadd__, bad)
        ctx.check(isinstance(exc, TypeError), 'wrong type')
    elif what == 'insert':
        res, exc = attempt(w.list.insert, i, bad)
        ctx.check(exc is not None, 'wrong type')
    elif what == 'insertwhere':
        res, exc = attempt(w.list.insert, 'first', w.new('new'))
        ctx.check(exc is not None, 'wrong index')
    elif what == 'index':
        res, exc = attempt(w.list.index, w.new('new'))
        ctx.check(isinstance(exc, ValueError), 'index of a foreign sheet')
    else:
        key = (1.5, None, (0,), [0])[ctx.fork(ctx.int('key', 0, 3))]
        res, exc = (attempt(w.list.__getitem__, key) if what == 'badkey' else attempt(w.list.__setitem__, key, w.new('new'))
                    if what == 'badset' else attempt(w.list.__delitem__, key))
        ctx.check(isinstance(exc, TypeError), 'wrong key')
    ctx.check(ctx.eq(snapshot(w.body), before), 'a rejected call changed something')


@case('C09', quick=[{'kind': k, 'op': o} for k in ('sheets', 'pages') for o in OPS])
def larger(ctx, kind, op):
    """more sheets; numbers around the integer constants of the code"""
    from symex import literals
    sizes = tuple(sorted(set([7] + literals.ints(('pagecontainer', 'sheets', 'pages', 'body'), 4, 70))))
    n = ctx.choice('n', sizes)
    arr = 'pp' + 's' * (n // 2) + 'o' + 's' * (n - n // 2) + 'ee'
    w = World(ctx, kind, arr)
    step(ctx, w, op, '1', arr)
    w.check()


@case('C09', quick=[{'kind': k} for k in ('sheets', 'pages')])
def name_constants(ctx, kind):
    """names the code mentions itself, and names that contain one another"""
    more = ('Sheet', 'Sheet1', 'true', 'None', '0', '-1', "it's", 'a/b', 'A1', 'Table')
    name = special_text(ctx, 'name', ('sheets', 'pages', 'pagecontainer', 'table', 'drawingpage', 'body', 'base'), more)
    pos = ctx.choice('pos', (0, 1, 2))
    near = ctx.choice('near', ('same', 'longer', 'shorter', 'case'))
    other = {'same': name, 'longer': name + 'x', 'shorter': name[:len(name) - 1] + '', 'case': 'x' + name}[near]
    names = [other, 'y', 'z']
    names.insert(pos, name)
    w = World(ctx, kind, 'pssosse', names)
    w.check()
    first = 0
    while not ctx.fork(ctx.eq(names[first], name)):
        first += 1
    ctx.check(w.list[name].xmlnode is w.nodes[first], 'first sheet of that name')
    ctx.check(list(w.list.names()).index(name) == first, 'names')
    if ctx.bool('delete'):
        del w.list[name]
        del w.nodes[first], w.names[first]
    else:
        s = w.new('new')
        w.list[name] = s
        w.nodes[first], w.names[first] = s.xmlnode, 'new'
    w.check()
