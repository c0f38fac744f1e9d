"""C22 Events reach exactly the live subscribers of the addressed document."""
import gc
from symex.api import case
from harness.util import attempt
from harness.docworld import Scratch, package, PREFIX
from symex import literals
import ezodf
from ezodf import observer
from ezodf.observer import Observer
from ezodf.base import GenericWrapper
from ezodf.xmlns import CN, etree

BOUNDS = ('3 listeners (2 XML roots, one of them childless; one listener without a root), 2..3 events with free names of 0..1 '
          'characters, sequences of 3 subscriptions, 2 (thorough: 3) further operations out of subscribe, '
          'unsubscribe, destroy, broadcast, broadcast to a root; messages are free integers or None'
          '; plus texts equal to or next to the text constants, and sizes around the integer constants, that the code itself mentions')
ASSUMPTIONS = ['handlers raise no exceptions', 'only listeners that are subscribed get unsubscribed']


class Any(object):
    """a listener with a handler for every event"""
    root = None

    def __init__(self, no, log):
        self.no, self.log = no, log

    def __hash__(self):
        return self.no

    def __getattr__(self, name):
        if name[:3] == 'on_' and name[-8:] == '_handler':
            log, no = self.log, self.no

            def handler(msg='?'):
                log.append((no, name, msg))
            return handler
        raise AttributeError(name)


class Rooted(Any):
    def __init__(self, no, log, root):
        self.no, self.log, self.root = no, log, root

    def get_xmlroot(self):
        return self.root


def make(log):
    bare = etree.Element(CN('office:text'))
    full = etree.Element(CN('office:text'))
    etree.SubElement(full, CN('text:p'))
    return (bare, full), {1: Rooted(1, log, bare), 2: Rooted(2, log, full), 3: Any(3, log)}


def members(subs, event):
    """numbers of the subscribers of an event (list of [event, number])"""
    return sorted([n for e, n in subs if e == event])


def send(ctx, obs, log, subs, objs, event, to, roots, sfx, nomsg=False):
    del log[:]
    msg = None if nomsg and ctx.bool('nomsg' + sfx) else ctx.int('msg' + sfx, -5, 5)
    expected = members(subs, event)
    if to == 'all':
        if msg is None and ctx.bool('plain' + sfx):
            obs.broadcast(event)
        else:
            obs.broadcast(event, msg)
    else:
        root = roots[to]
        expected = [n for n in expected if objs[n].root is root]
        obs.broadcast(event, msg=msg, root=root)
    got = sorted([n for n, name, m in log])
    ctx.check(got == expected, 'exactly the subscribers get the event, once')
    for n, name, m in log:
        ctx.check(ctx.eq(name, 'on_' + event + '_handler'), 'handler of the event')
        ctx.check(m is None if msg is None else ctx.eq(m, msg), 'message')


OPS = ('sub', 'unsub', 'destroy', 'all', 0, 1)


@case('C22', quick=[{'first': o, 'n': 2} for o in OPS], thorough=[{'first': o, 'n': 3} for o in OPS])
def sequence(ctx, first, n):
    obs, log = Observer(), []
    roots, objs = make(log)
    events = [ctx.text('a', 1, None, 1), ctx.text('b', 1)]
    subs = []
    # two subscriptions to begin with
    for i, (ev, no) in enumerate(((0, 1), (0, 2), (1, 3))):
        obs.subscribe(events[ev], objs[no])
        subs.append((events[ev], no))
    for k in range(n):
        sfx = str(k)
        op = first if k == 0 else ctx.choice('op' + sfx, OPS)
        ev = events[ctx.choice('ev' + sfx, (0, 1))] if op != 'destroy' else None
        if op in ('sub', 'unsub', 'destroy'):
            no = ctx.choice('no' + sfx, sorted(objs))
            if op == 'sub':
                obs.subscribe(ev, objs[no])
                if no not in members(subs, ev):
                    subs.append((ev, no))
            elif op == 'unsub':
                ctx.assume(no in members(subs, ev))
                obs.unsubscribe(ev, objs[no])
                subs = [(e, m) for e, m in subs if not (m == no and e == ev)]
            else:
                del objs[no]
                gc.collect()
                subs = [(e, m) for e, m in subs if m != no]
                if not objs:
                    break
        else:
            send(ctx, obs, log, subs, objs, ev, op, roots, sfx)
    for ev in events:
        ctx.check(obs._count_listeners(ev) == len(members(subs, ev)), 'number of listeners')
        ctx.check(obs._has_listener(ev) == (len(members(subs, ev)) > 0), 'has listeners')
    send(ctx, obs, log, subs, objs, events[0], ctx.choice('to', ('all', 0, 1)), roots, 'z')
    ctx.observe(sorted([n for n, name, m in log]))


class OneEvent(Rooted):
    def __getattr__(self, name):
        raise AttributeError(name)

    def on_save_handler(self, msg):
        self.log.append((self.no, 'on_save_handler', msg))


@case('C22')
def without_handler(ctx):
    """a listener without a handler for the event is rejected and never called"""
    obs, log = Observer(), []
    roots, objs = make(log)
    one = OneEvent(4, log, roots[0])
    obs.subscribe('save', one)
    event = ctx.text('event', 4, ((0x21, 0x7e), (0xdf, 0xff), (0x17f, 0x17f)))
    v, exc = attempt(obs.subscribe, event, one)
    if event == 'save':
        ctx.check(exc is None, 'subscribing twice')
        ctx.reach('save')
    else:
        ctx.check(isinstance(exc, AttributeError), 'a listener without a handler is rejected')
        ctx.check(obs._count_listeners(event) == 0, 'a rejected listener is not subscribed')
        ctx.reach('other')
    objs[4] = one
    subs = [('save', 4)]
    send(ctx, obs, log, subs, objs, event, ctx.choice('to', ('all', 0, 1)), roots, 'a', True)
    send(ctx, obs, log, subs, objs, 'save', ctx.choice('to2', ('all', 0, 1)), roots, 'b', True)


class Editing(Rooted):
    """its handler subscribes or unsubscribes while the broadcast runs"""

    def on_save_handler(self, msg):
        self.log.append((self.no, 'on_save_handler', msg))
        self.action(self)


@case('C22')
def while_broadcasting(ctx):
    obs, log = Observer(), []
    roots, objs = make(log)
    k = ctx.choice('position', (1, 2, 3))
    what = ctx.choice('what', ('unsubself', 'resub', 'subother', 'subevent'))
    other = Rooted(9, log, roots[0])

    def action(me):
        if what == 'unsubself':
            obs.unsubscribe('save', me)
        elif what == 'resub':
            obs.subscribe('save', me)
        elif what == 'subother':
            obs.subscribe('load', other)
        else:
            obs.subscribe('load', me)
    nodes = []
    for i in (1, 2, 3):
        if i == k:
            o = Editing(i, log, roots[0])
            o.action = action
        else:
            o = Rooted(i, log, roots[i % 2])
        obs.subscribe('save', o)
        nodes.append(o)
    root = ctx.choice('root', (None, 0, 1))
    obs.broadcast('save', root=None if root is None else roots[root])
    ctx.check(sorted([n for n, name, m in log]) == [o.no for o in nodes if root is None or o.root is roots[root]],
              'every subscriber is called once')
    done = root is None or root == 0
    del log[:]
    obs.broadcast('save')
    ctx.check(sorted([n for n, name, m in log]) == [i for i in (1, 2, 3) if not (done and what == 'unsubself' and i == k)],
              'subscribers after the broadcast')
    ctx.check(obs._count_listeners('load') == (0 if what in ('unsubself', 'resub') else 1), 'subscription by a handler')


class Node(GenericWrapper):
    TAG = 'observed'
    no = 0

    def __hash__(self):
        return self.no

    def on_save_handler(self, msg):
        self.log.append((self.no, 'on_save_handler', msg))


@case('C22')
def moving_nodes(ctx):
    """wrappers belong to the document their element is part of at the time of the broadcast"""
    log = []
    roots = [etree.Element('a'), etree.Element('b')]
    where = []
    nodes = []
    for i in range(2):
        n = Node()
        n.no, n.log = i + 1, log
        at = ctx.choice('at%d' % i, (0, 1, 'alone'))
        if at != 'alone':
            parent = roots[at]
            if ctx.bool('deep%d' % i):
                parent = etree.SubElement(parent, 'x')
            parent.append(n.xmlnode)
        where.append(at)
        nodes.append(n)
        observer.subscribe('save', n)
    if ctx.bool('move'):
        roots[1].append(nodes[0].xmlnode)
        where[0] = 1
    to = ctx.choice('to', (0, 1, 'alone', 'all'))
    root = None if to == 'all' else nodes[1].xmlnode if to == 'alone' else roots[to]
    observer.broadcast('save', 'm', root)
    expected = []
    for n, at in zip(nodes, where):
        if to == 'all' or (to == 'alone' and at == 'alone' and n is nodes[1]) or (to in (0, 1) and at == to):
            expected.append((n.no, 'on_save_handler', 'm'))
    ctx.check(sorted(log) == expected, 'wrappers of the document')
    for n in nodes:
        observer.unsubscripe('save', n)
    observer.broadcast('save')
    ctx.check(len(log) == len(expected), 'nobody is left')


class Alike(object):
    """listeners that differ in nothing but their identity"""
    log = None

    def on_save_handler(self, msg):
        self.log.append((self, msg))

    def get_xmlroot(self):
        return None


@case('C22')
def alike(ctx):
    log = []
    obs = Observer()
    objs = []
    for i in range(4):
        objs.append(Alike())
        objs[-1].log = log
        obs.subscribe('save', objs[-1])
    live = list(objs)
    for i in range(2):
        k = ctx.choice('k%d' % i, (0, 1, 2, 3))
        what = ctx.choice('what%d' % i, ('sub', 'unsub', 'nothing'))
        if what == 'sub':
            obs.subscribe('save', objs[k])
            if not any(x is objs[k] for x in live):
                live.append(objs[k])
        elif what == 'unsub':
            ctx.assume(any(x is objs[k] for x in live))
            obs.unsubscribe('save', objs[k])
            live = [x for x in live if x is not objs[k]]
    obs.broadcast('save', 'm')
    ctx.check(len(log) == len(live) and all([any(x is y for y, m in log) for x in live]), 'exactly the subscribers get the event')
    ctx.check(all([m == 'm' for x, m in log]), 'message')


@case('C22')
def other_names(ctx):
    """an event nobody subscribed to reaches nobody"""
    obs, log = Observer(), []
    roots, objs = make(log)
    known = ctx.text('known', 2)
    other = ctx.text('other', 2)
    for no in (1, 3):
        obs.subscribe(known, objs[no])
    to = ctx.choice('to', ('all', 0))
    send(ctx, obs, log, [(known, 1), (known, 3)], objs, other, to, roots, 'a', True)
    send(ctx, obs, log, [(known, 1), (known, 3)], objs, known, to, roots, 'b', True)


@case('C22')
def many(ctx):
    """many listeners and events"""
    obs, log = Observer(), []
    roots, objs = make(log)
    n = ctx.choice('n', tuple(sorted(set([9] + literals.ints(('observer', 'base', 'wrapcache'), 4, 70)))))
    keep = [Rooted(i, log, roots[i % 2]) if i % 3 else Any(i, log) for i in range(10, 10 + n)]
    subs = []
    for i, o in enumerate(keep):
        for ev in ('save', 'e%d' % (i % 4)):
            obs.subscribe(ev, o)
            subs.append((ev, o.no))
    for o in keep:
        objs[o.no] = o
    o = None
    k = ctx.choice('k', (0, 1, n // 2, n - 1))
    what = ctx.choice('what', ('unsub', 'destroy', 'again', 'nothing'))
    if what == 'unsub':
        obs.unsubscribe('save', keep[k])
        subs.remove(('save', keep[k].no))
    elif what == 'destroy':
        no = keep[k].no
        del objs[no]
        del keep[k]
        gc.collect()
        subs = [s for s in subs if s[1] != no]
    elif what == 'again':
        obs.subscribe('save', keep[k])
    for ev in ('save', 'e0', 'e3', 'nothing'):
        send(ctx, obs, log, subs, objs, ev, ctx.choice('to' + ev, ('all', 0, 1)), roots, ev)
        ctx.check(obs._count_listeners(ev) == len(members(subs, ev)), 'number of listeners')


@case('C22')
def saving(ctx):
    """saving a document tells the listeners of this document, and no other"""
    s = Scratch(ctx)
    log = []
    docs = []
    for i in range(2):
        kind = ctx.choice('kind%d' % i, ('new', 'file'))
        if kind == 'new':
            docs.append(ezodf.newdoc('odt', s.name('d%d.odt' % i)))
        else:
            s.write('d%d.odt' % i, package(PREFIX + 'text'))
            docs.append(ezodf.opendoc(s.name('d%d.odt' % i)))

    class Watcher(GenericWrapper):
        no = 0

        def on_prepare_saving_handler(self, msg):
            log.append((self.no, 'prepare'))

        def on_post_saving_handler(self, msg):
            log.append((self.no, 'post'))
    watchers = []
    for i, d in enumerate(docs):
        for deep in (False, True):
            e = etree.SubElement(d.body.xmlnode, CN('text:p'))
            if deep:
                e = etree.SubElement(e, CN('text:span'))
            w = Watcher(xmlnode=e)
            w.no = 2 * i + deep
            for event in ('prepare_saving', 'post_saving'):
                observer.subscribe(event, w)
            watchers.append(w)
    loose = Watcher(xmlnode=etree.Element(CN('text:p')))
    loose.no = 9
    observer.subscribe('post_saving', loose)
    observer.subscribe('prepare_saving', loose)
    k = ctx.choice('which', (0, 1))
    gone = ctx.bool('removed')
    if gone:
        # the element of one listener leaves the document
        docs[k].body.xmlnode.remove(watchers[2 * k].xmlnode)
    if ctx.bool('saveas'):
        docs[k].saveas(s.name('x.odt'))
    else:
        docs[k].save()
    mine = [2 * k + 1] if gone else [2 * k, 2 * k + 1]
    ctx.check(sorted([x for x in log if x[1] == 'prepare']) == [(i, 'prepare') for i in mine], 'listeners are told before saving')
    ctx.check(sorted([x for x in log if x[1] == 'post']) == [(i, 'post') for i in mine], 'listeners are told after saving')
    ctx.check([x[1] for x in log] == sorted([x[1] for x in log], key=lambda e: e == 'post'), 'order of the events')
    for w in watchers + [loose]:
        observer.unsubscripe('prepare_saving', w)
        observer.unsubscripe('post_saving', w)
