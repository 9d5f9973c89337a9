"""The work queues: what they hand out, in which order, and how often."""
import ast

from ..engine import Monitor, prog_types, strip_at
from ..terms import T, cval, walk, show, is_const, attr
from .. import roles as R
from .results import self_of
from .search import mentions

PUT_ONE = {'put', 'put_nowait', 'append', 'appendleft', 'insert', 'add'}
PUT_ALL = {'extend', 'extendleft', 'update'}
SHRINK = {'remove', 'pop', 'popleft', 'popitem', 'discard', 'clear', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'get', 'get_nowait', '__delitem__'}
KEEP = ('builtins.list', 'builtins.tuple', 'builtins.iter')
UNIQUE = ('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys', 'builtins.dict.keys')
SETS = ('builtins.set', 'builtins.frozenset')


def ext(t, names=None):
    t = strip_at(t)
    if t.op == 'call' and t.a[0].op == 'ext' and (names is None or t.a[0].a[0] in names):
        return t.a[0].a[0]
    return None


class Chain:
    """How an iterable is made from the objects given: the innermost iterable,
    the conditions its elements satisfy, and whether it is free of repetitions
    and keeps the order."""

    def __init__(self, t, content):
        self.names = set()
        self.conds, self.unique, self.order, self.known, self.cut = [], False, True, True, False
        for _ in range(30):
            t = strip_at(t)
            n = ext(t)
            args = t.a[1] if n else ()
            if n in KEEP and len(args) == 1:
                t = args[0]
            elif n in UNIQUE and len(args) >= 1:
                self.unique = True
                t = args[0]
            elif n in SETS and len(args) == 1:
                self.unique, self.order = True, False
                t = args[0]
            elif n in ('builtins.sorted', 'builtins.reversed') and args:
                self.order = False
                t = args[0]
            elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('keys', 'copy') and not t.a[1]:
                t = t.a[0].a[0]
            elif t.op == 'comp' and len(t.a[2]) == 1 and self.identity(t):
                e, it, conds = t.a[2][0]
                self.conds += [(e, c) for c in conds]
                if t.a[0] in ('set', 'dict'):
                    self.unique = True
                    self.order = self.order and t.a[0] == 'dict'
                t = it
            elif t.op == 'sub' and t.a[1].op == 'slice':
                p = [cval(x) if isinstance(x, T) and x.op == 'const' else x for x in t.a[1].a]
                if p == [None, None, -1]:
                    self.order = False
                elif p != [None, None, None]:
                    self.cut = True
                t = t.a[0]
            else:
                c = content(t)
                if c is None:
                    break
                t = c[0]
                self.names |= set(c[1])
        self.base = t

    @staticmethod
    def identity(t):
        e = t.a[2][0][0]
        v = t.a[1]
        if t.a[0] == 'dict' and v.op == 'tuple':
            v = v.a[0][0]
        return strip_at(v) is strip_at(e)


class Queue(Monitor):
    """Changes of the containers of a queue object on a path."""

    def __init__(self, me):
        self.me = me

    def init(self):
        return ()

    def name(self, t, m):
        t = strip_at(t)
        while t.op == 'attr' and t.a[1] in ('queue', '#queue'):
            t = strip_at(t.a[0])
        if t.op == 'attr' and t.a[0] is self.me:
            return t.a[1]
        for x in m:
            if x[0] == 'alias' and x[2] is t:
                return x[1]
        return None

    def on(self, ev, m, st, eng):
        k = ev.kind
        where = (ev.node, eng.func)
        if k == 'storeattr' and ev.base is self.me:
            v = strip_at(ev.value)
            m = tuple(x for x in m if not (x[0] in ('alias', 'set') and x[1] == ev.name))
            return m + (('alias', ev.name, v), ('set', ev.name, ev.value) + where)
        if k == 'mutate':
            n = self.name(ev.base, m)
            loop = ev.loops[-1] if ev.loops else None
            arg = ev.args[-1] if ev.args else None
            if n is None:
                b = strip_at(ev.base)
                if b.op == 'obj' and ev.method not in ('sort',):
                    a = self.asked(m, arg) if arg is not None else None
                    x = ('local', b, ev.method, arg, loop, a if a != 'present' else ())
                    return m if x in m or len(m) > 40 else m + (x,)
                return m
            if ev.method in SHRINK:
                x = ('shrink', n, ev.method, tuple(ev.args), ev.result) + where
            elif ev.method in PUT_ONE and arg is not None:
                x = ('put', n, ev.method, arg, loop) + where
                lid = loop[0] if loop else None
                m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == lid and y[2] == n)) + (('turn', lid, n),)
                if self.asked(m, arg, n) == 'present':
                    x = ('again', n, ev.method, arg, loop) + where
                elif self.asked(m, arg) is None:
                    x = ('put', n, ev.method, arg, loop) + where
                else:
                    x = ('new', n, ev.method, arg, loop, self.asked(m, arg)) + where
            elif ev.method in PUT_ALL and arg is not None:
                x = ('putall', n, ev.method, arg) + where
            elif ev.method in ('__setitem__', 'setdefault') and ev.args:
                x = ('put', n, ev.method, ev.args[0], loop) + where
            else:
                x = ('other', n, ev.method) + where
            return m if x in m or len(m) > 40 else m + (x,)
        if k == 'storesub':
            n = self.name(ev.base, m)
            if n is not None:
                loop = ev.loops[-1] if ev.loops else None
                lid = loop[0] if loop else None
                m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == lid and y[2] == n)) + (('turn', lid, n),)
                x = ('put', n, 'item', ev.idx, loop) + where
                return m if x in m else m + (x,)
        if k == 'compare' and ev.term.op == 'cmp' and ev.term.a[0] in ('in', 'not in'):
            n = self.name(ev.term.a[2], m)
            x = ('asked', strip_at(ev.term.a[1]), n or ev.term.a[2], None)
            return m if x in m else m + (x,)
        if k == 'assume' and isinstance(ev.key, tuple) and ev.key[0] == 'in':
            n = self.name(ev.key[2], m) or ev.key[2]
            a = strip_at(ev.key[1])
            m = tuple(x for x in m if not (x[0] == 'asked' and x[1] is a and x[2] == n))
            return m + (('asked', a, n, ev.val),)
        if k == 'iter' and not ev.while_:
            e = strip_at(ev.elem)
            return tuple(x for x in m if not (x[0] == 'asked' and (x[1] is e or mentions(x[1], e)) or x[0] == 'turn' and x[1] == ev.loop))
        if k == 'iterend' and not ev.while_:
            names = tuple(sorted({x[2] for x in m if x[0] == 'turn' and x[1] == ev.loop}))
            m = tuple(x for x in m if not (x[0] == 'turn' and x[1] == ev.loop))
            x = ('turned', ev.loop, names)
            return m if not names or x in m else m + (x,)
        return m

    @staticmethod
    def asked(m, e, n=None):
        """'present' / names of the containers known not to hold e / None."""
        res = []
        for x in m:
            if x[0] == 'asked' and x[1] is strip_at(e) and isinstance(x[2], str):
                if x[3] is True and (n is None or True):
                    return 'present'
                res.append(x[2])
        return tuple(sorted(set(res))) or None


def analyse(ctx, cls, f, label):
    me = self_of(cls)
    mon = Queue(me)
    mon.eng = None
    eng, rets, raises = ctx.analyse(f, monitor=mon, self_term=me, label=label)
    return mon, eng, rets, raises


class Names:
    """The attributes of a queue class that hold the waiting objects, those in
    progress, and all objects so far."""

    def __init__(self, ctx, cls, key):
        self.ctx, self.cls, self.key = ctx, cls, key
        self.me = self_of(cls)
        p = ctx.prog
        self.pop = p.find_method(cls, 'pop_queued')
        self.add = p.find_method(cls, 'add_objects')
        self.done = p.find_method(cls, 'set_finished')
        self.init = p.find_method(cls, '__init__')
        ctx.require(self.pop and self.add and self.init, '%s has no constructor, pop_queued or add_objects' % cls.cid)
        self.W, self.R = None, None
        self.pops = analyse(ctx, cls, self.pop, '%s.pop_queued' % key)
        ws = {x[1] for st, v in self.pops[2] for x in st.mon if x[0] == 'shrink' and (x[4] is not None and strip_at(x[4]) is strip_at(v) or x[2] in ('get', 'get_nowait', 'popleft'))}
        self.W = next(iter(ws)) if len(ws) == 1 else None
        if self.done is not None:
            self.dones = analyse(ctx, cls, self.done, '%s.set_finished' % key)
            rs = {x[1] for st, v in self.dones[2] for x in st.mon if x[0] == 'shrink'} - ws
            self.R = next(iter(rs)) if len(rs) == 1 else None


def c17(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('once', 'add_objects and the constructor queue an object only if a container that records every object queued so far, and never loses one, does not hold it; objects repeated within one call are queued once.')
    ctx.rule('record', 'Every object queued is recorded in that container, in the same normal form, on the same path; no method removes or replaces its contents.')
    ctx.rule('order', 'Objects are put into a first-in first-out container in the order given, and taken out at the other end; nothing else removes waiting objects.')
    ctx.rule('form', 'Simplices are queued as a tuple of their vertices sorted as a whole, without altering coordinates.')
    ctx.rule('progress', 'pop_queued puts the object it returns in progress; set_finished removes exactly the object given from the objects in progress; nothing else does.')
    ctx.rule('finished', 'finished is true exactly if no object waits and none is in progress; has_queued exactly if one waits (evaluated for the four cases).')
    for key in 'SP':
        cls = roles.cls(key)
        n = Names(ctx, cls, key)
        if n.W is None:
            ctx.undecided('order', '%s: waiting objects' % cls.name, 'container not found')
            continue
        adds(ctx, n)
        order(ctx, n)
        form(ctx, n)
        if key == 'S':
            progress(ctx, n)
            finished(ctx, n)


def family(prog, cls):
    seen = {}
    for c in prog.mro(cls):
        for name, fs in c.methods.items():
            for f in fs if isinstance(fs, (list, tuple)) else [fs]:
                seen.setdefault((name, f.fid), f)
    return [f for (name, _), f in seen.items()]


def content_of(st, eng):
    def content(t):
        return None
    return content


def lists_in(m, W):
    """Events that put something into W: (chain source, element or None, event)."""
    return [x for x in m if x[0] in ('put', 'new', 'again', 'putall') and x[1] == W]


def adds(ctx, n):
    cls = n.cls
    guards = set()
    shrunk = losses(ctx, n)
    for f, label in ((n.add, 'add_objects'), (n.init, '__init__')):
        mon, eng, rets, raises = analyse(ctx, cls, f, '%s.%s' % (cls.name, label))
        what = '%s.%s' % (cls.name, label)
        for st, v in rets:
            m = st.mon
            puts = lists_in(m, n.W)
            built = [x for x in m if x[0] == 'set' and x[1] == n.W and label == '__init__' and has_items(st, x[2])]
            for x in puts + [('putall', n.W, 'set', initial(st, y[2]), y[3], y[4]) for y in built]:
                node, func = x[-2:]
                loc, q = ctx.loc(func, node), func.qual
                if st.taint:
                    ctx.undecided('once', what, 'imprecise path: %s' % sorted(st.taint))
                    continue
                if x[0] == 'again':
                    ctx.bad('once', loc, q, 'an object that is known already is queued again')
                    continue
                if x[0] == 'putall':
                    ch = Chain(x[3], lambda t: seq_src(st, t))
                    elem, loop = None, None
                else:
                    elem, loop = strip_at(x[3]), x[4]
                    if loop is None:
                        ctx.undecided('once', what, 'single object queued: %s' % show(elem))
                        continue
                    if strip_at(loop[2]) is not elem:
                        ctx.undecided('once', what, 'object queued is made within the loop: %s' % show(elem))
                        continue
                    ch = Chain(loop[1], lambda t: seq_src(st, t))
                if ch.cut:
                    ctx.bad('once', loc, q, 'some of the objects given are not queued: %s' % show(loop[1] if loop else x[3]))
                    continue
                if not ch.order:
                    ctx.bad('order', loc, q, 'the order in which objects are given is lost: %s' % show(loop[1] if loop else x[3]))
                else:
                    ctx.ok('order', '%s %s' % (what, loc))
                names = (set(x[5]) if x[0] == 'new' else set()) | ch.names
                for e, c in ch.conds:
                    names |= excluded(mon, m, e, c)
                use = x[3] if loop is None else loop[1]
                direct = bool(names)
                other = {y.a[1] for y in walk(use) if y.op == 'attr' and y.a[0] is n.me} - names
                if not names and other:
                    ctx.undecided('once', what, 'exclusion of known objects not followed: %s' % show(use))
                    continue
                fresh = label == '__init__'
                lasting = names - {n.W, n.R} - set(shrunk)
                if not fresh:
                    if not names:
                        unknown = [y for y in m if y[0] == 'asked' and not isinstance(y[2], str)]
                        if unknown:
                            ctx.undecided('once', what, 'membership test not followed')
                        else:
                            ctx.bad('once', loc, q, 'objects are queued without checking whether they were queued before')
                        continue
                    if not lasting:
                        a = sorted(names)[0]
                        ctx.bad('once', loc, q, 'whether an object was queued before is looked up in %s, which loses objects%s' % (a, ' (%s)' % shrunk[a] if a in shrunk else ''))
                        continue
                    guards |= lasting
                ctx.ok('once', '%s %s' % (what, loc))
                # repetitions within a call
                grown = recorded(st, m, n, x, ch, elem, loop, lasting or guards or None)
                if not ch.unique and not (lasting and loop is not None and any(z == 'turn' for z in grown.values())):
                    if fresh and not (lasting or guards):
                        ctx.undecided('once', what, 'repetitions')
                    else:
                        ctx.bad('once', loc, q, 'an object given twice in one call is queued twice')
                else:
                    ctx.ok('once', '%s repetitions %s' % (what, loc))
                targets = lasting or guards
                if not targets:
                    ctx.undecided('record', what, 'container of all objects not found')
                    continue
                for a in sorted(targets):
                    r = grown.get(a, 'no')
                    if r in ('turn', 'all'):
                        ctx.ok('record', '%s %s in %s' % (what, loc, a))
                    elif r == 'raw':
                        ctx.bad('record', loc, q, 'objects are recorded in %s in another form than they are queued' % a)
                    elif r == 'no':
                        ctx.bad('record', loc, q, 'objects queued are not recorded in %s' % a)
                    elif r == 'some':
                        ctx.bad('record', loc, q, 'not all objects queued are recorded in %s' % a)
                    else:
                        ctx.undecided('record', what, 'what is recorded in %s is not followed' % a)
        if not any(lists_in(st.mon, n.W) or any(x[0] == 'set' and x[1] == n.W for x in st.mon) for st, v in rets):
            ctx.undecided('once', what, 'nothing is queued')
    for a in sorted(guards):
        if a in shrunk:
            ctx.bad('record', shrunk[a], cls.name, 'objects are removed from %s' % a)
        else:
            ctx.ok('record', '%s never loses objects' % a)


def seq_src(st, t):
    """List filled in one loop: what the loop runs over, and what is known not
    to hold its elements."""
    if t.op != 'obj':
        return None
    ev = [x for x in st.mon if x[0] == 'local' and x[1] is t]
    if not ev or any(x[2] not in ('append', 'add') or x[4] is None or strip_at(x[4][2]) is not strip_at(x[3]) for x in ev) or len({x[4][0] for x in ev}) != 1:
        return None
    names = set(ev[0][5] or ())
    for x in ev[1:]:
        names &= set(x[5] or ())
    return ev[0][4][1], names


def has_items(st, v):
    v = strip_at(v)
    n = ext(v)
    if n is not None:
        args = v.a[1]
        return bool(args)
    c = st.heap.get((v, '#'))
    if c is not None and c.op == 'seq' and not c.a[0]:
        return False
    return v.op not in ('const',) and not (v.op == 'seqv' and not v.a[1])


def initial(st, v):
    v = strip_at(v)
    if ext(v, ('collections.deque', 'builtins.list')) and v.a[1]:
        return v.a[1][0]
    return v


def excluded(mon, m, e, c):
    """Names of the containers which, by condition c, do not hold e."""
    c = strip_at(c)
    if c.op == 'un' and c.a[0] == 'not':
        d = strip_at(c.a[1])
        if d.op == 'cmp' and d.a[0] == 'in' and strip_at(d.a[1]) is strip_at(e):
            x = mon.name(d.a[2], m)
            return {x} if x else set()
        if d.op == 'or':
            return set().union(*[excluded(mon, m, e, T('un', 'not', y)) for y in d.a[0]])
    if c.op == 'cmp' and c.a[0] == 'not in' and strip_at(c.a[1]) is strip_at(e):
        x = mon.name(c.a[2], m)
        return {x} if x else set()
    if c.op == 'and':
        return set().union(*[excluded(mon, m, e, y) for y in c.a[0]])
    return set()


def recorded(st, m, n, put, ch, elem, loop, names):
    """For each container: how the objects queued get into it."""
    res = {}

    def better(a, r):
        rank = ['no', 'some', 'raw', 'unknown', 'all', 'turn']
        if rank.index(r) > rank.index(res.get(a, 'no')):
            res[a] = r
    for x in m:
        if x[0] in ('put', 'new', 'again') and x[1] != n.W:
            e, lp = strip_at(x[3]), x[4]
            if loop is not None and lp is not None and lp[0] == loop[0]:
                turns = [y for y in m if y[0] == 'turned' and y[1] == loop[0]]
                if e is elem:
                    bad = any(n.W in y[2] and x[1] not in y[2] for y in turns)
                    better(x[1], 'some' if bad else 'turn')
                else:
                    better(x[1], 'raw' if raw(e, elem) else 'unknown')
            elif lp is not None and strip_at(lp[2]) is e:
                better(x[1], covers(Chain(lp[1], lambda t: seq_src(st, t)), ch, n))
        if x[0] == 'putall' and x[1] != n.W:
            better(x[1], covers(Chain(x[3], lambda t: seq_src(st, t)), ch, n))
        if x[0] == 'set' and x[1] != n.W and has_items(st, x[2]):
            v = strip_at(x[2])
            if v.op == 'bin' and v.a[0] in ('|', '+'):
                for y in v.a[1:]:
                    better(x[1], covers(Chain(y, lambda t: seq_src(st, t)), ch, n))
            else:
                better(x[1], covers(Chain(v, lambda t: seq_src(st, t)), ch, n))
    return res


def raw(e, elem):
    return mentions(elem, e)


def covers(a, b, n):
    if a.cut:
        return 'some'
    if a.base is b.base:
        if all(any(c is d for _, d in b.conds) for _, c in a.conds) and a.names <= b.names:
            return 'all'
        return 'unknown'
    if mentions(b.base, a.base):
        return 'raw'
    if any(x.op in ('in', 'comp') for x in walk(a.base)):
        return 'unknown'
    return 'no'


def losses(ctx, n):
    """Containers that lose objects: name -> place."""
    res = {}
    for f in family(ctx.prog, n.cls):
        if f.name == '__init__' or ctx.prog.method_kind(f) in ('classmethod', 'staticmethod'):
            continue
        mon, eng, rets, raises = analyse(ctx, n.cls, f, '%s.%s' % (n.cls.name, f.name))
        for st, _ in list(rets) + list(raises):
            for x in st.mon:
                if x[0] == 'shrink':
                    res.setdefault(x[1], ctx.loc(x[-1], x[-2]))
                if x[0] == 'set' and f.name != '__init__':
                    v = x[2]
                    if not keeps(v, attr(n.me, x[1])) and x[1] not in ('needs_saving',) and not (is_const(v)):
                        res.setdefault(x[1], ctx.loc(x[-1], x[-2]))
    return res


def keeps(v, old):
    """May v contain all that old contains?"""
    v = strip_at(v)
    if v is old:
        return True
    if v.op == 'call' and v.a[0].op == 'attr':
        return keeps(v.a[0].a[0], old) or any(keeps(x, old) for x in v.a[1])
    if v.op == 'call':
        return any(keeps(x.a[0] if x.op == 'star' else x, old) for x in v.a[1])
    if v.op == 'bin':
        return v.a[0] in '|+' and any(keeps(x, old) for x in v.a[1:]) or v.a[0] not in ('|', '+', '-', '&')
    if v.op == 'comp':
        return any(keeps(g[1], old) and not g[2] for g in v.a[2])
    if v.op in ('obj', 'phi', 'sub', 'elem'):
        return True
    if v.op == 'seqv':
        return any(keeps(x.a[0] if x.op == 'star' else x, old) for x in v.a[1])
    return False


FIFO = {('queue.Queue', 'put', 'get'), ('queue.Queue', 'put_nowait', 'get_nowait'), ('queue.Queue', 'put', 'get_nowait'), ('queue.Queue', 'put_nowait', 'get'), ('queue.SimpleQueue', 'put', 'get'), ('queue.SimpleQueue', 'put_nowait', 'get_nowait'), ('queue.SimpleQueue', 'put', 'get_nowait'), ('queue.SimpleQueue', 'put_nowait', 'get'),
        ('collections.deque', 'append', 'popleft'), ('collections.deque', 'extend', 'popleft'), ('collections.deque', 'appendleft', 'pop'), ('collections.deque', 'extendleft', 'pop'), ('collections.deque', 'set', 'popleft'),
        ('list', 'append', 'pop0'), ('list', 'extend', 'pop0'), ('list', 'insert0', 'pop'), ('list', 'set', 'pop0')}
LIFO = {'queue.LifoQueue', 'queue.PriorityQueue'}


def kind_of_container(ctx, n):
    kinds = set()
    for v in prog_types(ctx.prog).init_of(n.cls).get(n.W, ()):
        v = strip_at(v)
        e = ext(v)
        if e in KEEP[:1] or v.op == 'comp' and v.a[0] == 'list' or v.op == 'obj' and 'list' in str(v.a[0]):
            kinds.add('list')
        elif v.op == 'obj' and 'set' in str(v.a[0]) or e in SETS:
            kinds.add('set')
        elif e:
            kinds.add(e)
            if e.startswith('queue.') and (v.a[1] and not is_const(v.a[1][0], 0) or v.a[2]) or e == 'collections.deque' and (len(v.a[1]) > 1 or dict(v.a[2]).get('maxlen') is not None):
                kinds.add('bounded')
        else:
            kinds.add('?')
    return kinds


def order(ctx, n):
    what = '%s.%s' % (n.cls.name, n.W)
    kinds = kind_of_container(ctx, n)
    loc, q = ctx.loc(n.pop), n.pop.qual
    if kinds & LIFO:
        ctx.bad('order', ctx.loc(n.init), n.init.qual, 'waiting objects are kept in a %s' % ', '.join(sorted(kinds & LIFO)))
        return
    if 'bounded' in kinds:
        ctx.bad('order', ctx.loc(n.init), n.init.qual, 'the number of waiting objects is limited')
        return
    if kinds == {'set'}:
        ctx.bad('order', ctx.loc(n.init), n.init.qual, 'waiting objects are kept in a set')
        return
    if len(kinds) != 1 or '?' in kinds:
        ctx.undecided('order', what, 'kind of container: %s' % sorted(kinds))
        return
    kind = next(iter(kinds))
    ins, outs = set(), set()
    for f in (n.add, n.init):
        mon, eng, rets, raises = analyse(ctx, n.cls, f, '%s.%s' % (n.cls.name, f.name))
        for st, v in rets:
            for x in lists_in(st.mon, n.W):
                ins.add(x[2])
    for st, v in n.pops[2]:
        sh = [x for x in st.mon if x[0] == 'shrink' and x[1] == n.W]
        if len(sh) != 1:
            if st.taint:
                ctx.undecided('order', what, 'imprecise path')
            elif len(sh) > 1 :
                ctx.bad('order', loc, q, 'several waiting objects are removed at once')
            else:
                ctx.undecided('order', what, 'no object is removed on some path')
            continue
        x = sh[0]
        name = x[2]
        if name == 'pop' and x[3]:
            name = 'pop0' if is_const(x[3][0], 0) or is_const(x[3][0]) and cval(x[3][0]) == 0 else 'pop' if is_const(x[3][0]) and cval(x[3][0]) == -1 else 'pop?'
        outs.add(name)
        if x[4] is not None and strip_at(v) is not strip_at(x[4]):
            ctx.undecided('order', what, 'object returned: %s' % show(v))
        elif x[4] is None and not (v.op == 'call' and mentions(v, attr(n.me, n.W)) or strip_at(v).op == 'call'):
            ctx.undecided('order', what, 'object returned: %s' % show(v))
        else:
            ctx.ok('order', '%s returns the object taken out' % n.pop.qual)
    for i in sorted(ins):
        for o in sorted(outs):
            if (kind, i, o) in FIFO:
                ctx.ok('order', '%s: %s.%s / %s' % (what, kind, i, o))
            elif kind in ('list', 'collections.deque') and o in ('pop', 'popleft', 'pop0') and (i in ('append', 'extend', 'set') and o == 'pop' or i in ('appendleft', 'extendleft') and o in ('popleft', 'pop0')):
                ctx.bad('order', loc, q, 'the object added last is handed out first (%s, %s)' % (i, o))
            else:
                ctx.undecided('order', what, '%s: %s / %s' % (kind, i, o))
    # nothing else takes waiting objects away, or puts them back
    for f in family(ctx.prog, n.cls):
        if f.name in ('__init__', 'add_objects', 'pop_queued') or ctx.prog.method_kind(f) in ('classmethod', 'staticmethod') or f.name.startswith('_'):
            continue
        mon, eng, rets, raises = analyse(ctx, n.cls, f, '%s.%s' % (n.cls.name, f.name))
        hit = [x for st, _ in list(rets) + list(raises) if not st.taint for x in st.mon if x[0] in ('shrink', 'put', 'putall', 'set') and x[1] == n.W]
        if hit:
            x = hit[0]
            ctx.bad('order', ctx.loc(x[-1], x[-2]), f.qual, '%s changes the waiting objects' % f.name)
        else:
            ctx.ok('order', '%s leaves the waiting objects' % f.qual)


def form(ctx, n):
    """Normal form of the objects queued."""
    cls = n.cls
    for f, label in ((n.add, 'add_objects'), (n.init, '__init__')):
        mon, eng, rets, raises = analyse(ctx, cls, f, '%s.%s' % (cls.name, label))
        what = '%s.%s' % (cls.name, label)
        for st, v in rets:
            puts = lists_in(st.mon, n.W)
            puts += [('putall', n.W, 'set', initial(st, y[2]), y[3], y[4]) for y in st.mon if y[0] == 'set' and y[1] == n.W and has_items(st, y[2])]
            for x in puts:
                node, func = x[-2:]
                loc, q = ctx.loc(func, node), func.qual
                if st.taint:
                    ctx.undecided('form', what, 'imprecise path')
                    continue
                src = x[3] if x[0] == 'putall' or x[4] is None else x[4][1]
                ch = Chain(src, lambda t: seq_src(st, t))
                el = element(ch.base, eng)
                if el is None:
                    if ch.base.op == 'in' and n.key == 'S':
                        ctx.bad('form', loc, q, 'objects are queued as given, whatever the order of their vertices')
                    elif ch.base.op == 'in':
                        ctx.ok('form', '%s %s' % (what, loc))
                    else:
                        ctx.undecided('form', what, show(ch.base))
                    continue
                r = judge_form(el, n.key == 'S')
                if r is None:
                    ctx.ok('form', '%s %s' % (what, loc))
                elif r[0]:
                    ctx.bad('form', loc, q, r[1])
                else:
                    ctx.undecided('form', what, r[1])


def element(base, eng):
    base = strip_at(base)
    if base.op == 'comp' and len(base.a[2]) == 1:
        return base.a[1]
    if ext(base, ('builtins.map',)) and len(base.a[1]) == 2:
        return None
    return None


LOSSY = ('numpy.round', 'numpy.around', 'numpy.rint', 'builtins.round', 'numpy.floor', 'numpy.trunc', 'builtins.int', 'numpy.float32', 'numpy.abs', 'builtins.abs')


def judge_form(el, simplex):
    for t in walk(el):
        if not isinstance(t, T):
            continue
        if ext(t, LOSSY):
            return True, 'coordinates are altered before objects are compared: %s' % show(t)
        if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('round',):
            return True, 'coordinates are altered before objects are compared: %s' % show(t)
        if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/', '//', '%') or t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'astype':
            return False, 'coordinates are changed: %s' % show(t)
    if not simplex:
        return None
    el = strip_at(el)
    if el.op == 'comp' and el.a[0] in ('set', 'frozenset') and len(el.a[2]) == 1 and depth(el.a[2][0][1]) == 1:
        return None
    sorts = [t for t in walk(el) if isinstance(t, T) and (ext(t, ('builtins.sorted', 'builtins.frozenset', 'builtins.set', 'numpy.sort', 'numpy.unique', 'numpy.lexsort')) or t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'sort')]
    if not sorts:
        return (True, 'simplices that differ only in the order of their vertices are different objects: %s' % show(el)) if len(known_parts(el)) == 0 else (False, show(el))
    for t in sorts:
        n = ext(t)
        if n == 'builtins.sorted':
            arg = strip_at(t.a[1][0])
            inner = [x for x in walk(arg) if isinstance(x, T) and x.op == 'elem']
            if 'key' in dict(t.a[2]):
                return True, 'the order of the vertices is not determined by the whole vertex: %s' % show(t)
            if depth(arg) == 2:
                return True, 'the coordinates of each vertex are sorted: %s' % show(t)
            if depth(arg) == 1:
                return None
        if n == 'builtins.frozenset':
            return None if depth(strip_at(t.a[1][0])) == 1 else (False, show(t))
        if n == 'numpy.sort':
            return True, 'each coordinate is sorted on its own: %s' % show(t)
    return False, show(el)


def known_parts(el):
    """Calls that might order the vertices."""
    return [t for t in walk(el) if isinstance(t, T) and t.op == 'call' and not ext(t, ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray', 'builtins.map', 'builtins.float')) and not (t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('tolist', 'copy'))]


def depth(t):
    """1: the vertices of one simplex; 2: the coordinates of one vertex."""
    t = strip_at(t)
    if t.op == 'comp' and len(t.a[2]) == 1:
        return depth(t.a[2][0][1])
    if ext(t, ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray', 'builtins.iter')) and len(t.a[1]) == 1:
        return depth(t.a[1][0])
    if ext(t, ('builtins.map',)) and len(t.a[1]) == 2:
        return depth(t.a[1][1])
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'tolist':
        return depth(t.a[0].a[0])
    if t.op == 'elem':
        return 1 + depth(t.a[0])
    return 0


def progress(ctx, n):
    cls = n.cls
    if n.done is None or n.R is None:
        ctx.undecided('progress', cls.name, 'set_finished or the objects in progress not found')
        return
    loc, q = ctx.loc(n.pop), n.pop.qual
    for st, v in n.pops[2]:
        if st.taint:
            ctx.undecided('progress', n.pop.qual, 'imprecise path')
            continue
        ins = [x for x in st.mon if x[0] in ('put', 'new', 'again') and x[1] == n.R]
        if not ins:
            more = [x for x in st.mon if x[0] in ('putall', 'other', 'set') and x[1] == n.R]
            if more:
                ctx.undecided('progress', n.pop.qual, 'what is put in progress is not followed')
            else:
                ctx.bad('progress', loc, q, 'an object is handed out without being put in progress')
        elif all(strip_at(x[3]) is strip_at(v) for x in ins):
            ctx.ok('progress', '%s puts the object in progress' % n.pop.qual)
        else:
            ctx.bad('progress', loc, q, 'another object than the one handed out is put in progress: %s' % show(ins[0][3]))
    a = n.done.node.args
    params = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
    loc, q = ctx.loc(n.done), n.done.qual
    for st, v in n.dones[2]:
        if st.taint:
            ctx.undecided('progress', q, 'imprecise path')
            continue
        outs = [x for x in st.mon if x[0] == 'shrink' and x[1] == n.R]
        if not outs:
            f = [k for k, val in st.facts.items() if k[0] == 'in' and val is False]
            if f or any(x[0] in ('set', 'other') and x[1] == n.R for x in st.mon):
                ctx.undecided('progress', q, 'no object is removed on some path')
            else:
                ctx.bad('progress', loc, q, 'an object may stay in progress after it is finished')
            continue
        for x in outs:
            if x[2] in ('remove', 'discard') and len(x[3]) == 1:
                y = strip_at(x[3][0])
                if y.op == 'in' and y.a[0] in params:
                    ctx.ok('progress', '%s removes the object given' % q)
                elif any(isinstance(z, T) and z.op == 'in' and z.a[0] in params for z in walk(y)):
                    ctx.undecided('progress', q, 'object removed: %s' % show(y))
                else:
                    ctx.bad('progress', loc, q, 'another object than the one given is removed: %s' % show(y))
            elif x[2] in ('clear', 'pop', 'popleft') and not x[3]:
                ctx.bad('progress', loc, q, 'objects other than the one given are no longer in progress (%s)' % x[2])
            else:
                ctx.undecided('progress', q, 'removal by %s' % x[2])
    for f in family(ctx.prog, cls):
        if f.name in ('__init__', 'pop_queued', 'set_finished') or ctx.prog.method_kind(f) in ('classmethod', 'staticmethod') or f.name.startswith('_'):
            continue
        mon, eng, rets, raises = analyse(ctx, cls, f, '%s.%s' % (cls.name, f.name))
        hit = [x for st, _ in list(rets) + list(raises) if not st.taint for x in st.mon if x[0] in ('shrink', 'set') and x[1] == n.R]
        if hit:
            ctx.bad('progress', ctx.loc(hit[0][-1], hit[0][-2]), f.qual, '%s changes the objects in progress' % f.name)
        else:
            ctx.ok('progress', '%s leaves the objects in progress' % f.qual)


class Unknown(Exception):
    pass


class Cases:
    """Value of a term if w objects wait and r are in progress (0 or 1)."""

    def __init__(self, n, w, r, st, mon):
        self.n, self.w, self.r, self.st, self.mon = n, w, r, st, mon

    def size(self, t):
        t = strip_at(t)
        name = self.mon.name(t, self.st.mon)
        if name == self.n.W:
            return self.w
        if name is not None and name == self.n.R:
            return self.r
        x = ext(t)
        if x in KEEP + SETS + UNIQUE + ('builtins.sorted',) and len(t.a[1]) == 1:
            return self.size(t.a[1][0])
        if x in KEEP + SETS and not t.a[1]:
            return 0
        if t.op == 'bin' and t.a[0] in ('+', '|'):
            return self.size(t.a[1]) + self.size(t.a[2])
        if t.op in ('seqv',):
            return sum(self.part(y) for y in t.a[1])
        c = self.st.heap.get((t, '#'))
        if c is not None and c.op == 'seq':
            return sum(self.part(y) for y in c.a[0])
        if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2]:
            return self.size(t.a[2][0][1])
        raise Unknown(show(t))

    def part(self, y):
        return self.size(y.a[0]) if y.op == 'star' else 1

    def value(self, t):
        t = strip_at(t)
        if is_const(t):
            return cval(t)
        if t.op == 'un' and t.a[0] == 'not':
            return not self.value(t.a[1])
        if t.op in ('and', 'or'):
            vs = [bool(self.value(x)) for x in t.a[0]]
            return all(vs) if t.op == 'and' else any(vs)
        if ext(t, ('builtins.bool',)) and len(t.a[1]) == 1:
            return bool(self.value(t.a[1][0]))
        if ext(t, ('builtins.len',)) and len(t.a[1]) == 1:
            return self.size(t.a[1][0])
        if ext(t, ('builtins.any', 'builtins.all')) and len(t.a[1]) == 1:
            items = strip_at(t.a[1][0])
            xs = items.a[0] if items.op == 'tuple' else items.a[1] if items.op == 'seqv' else None
            c = self.st.heap.get((items, '#'))
            if xs is None and c is not None and c.op == 'seq':
                xs = c.a[0]
            if xs is not None:
                vs = [bool(self.value(x)) for x in xs]
                return any(vs) if ext(t) == 'builtins.any' else all(vs)
        if t.op == 'call' and t.a[0].op == 'attr' and not t.a[1]:
            if t.a[0].a[1] == 'empty':
                return self.size(t.a[0].a[0]) == 0
            if t.a[0].a[1] in ('qsize', '__len__'):
                return self.size(t.a[0].a[0])
        if t.op == 'cmp' and t.a[0] in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.value(t.a[1]), self.value(t.a[2])
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[t.a[0]]
        if t.op == 'bin' and t.a[0] == '+':
            try:
                return self.value(t.a[1]) + self.value(t.a[2])
            except (Unknown, TypeError):
                pass
        if t.op == 'ifexp' and len(t.a) == 3:
            return self.value(t.a[1] if self.value(t.a[0]) else t.a[2])
        return self.size(t)

    def possible(self):
        for k, val in self.st.facts.items():
            try:
                if k[0] == 'truth' and bool(self.value(k[1])) != val:
                    return False
            except (Unknown, TypeError):
                continue
        return True


def finished(ctx, n):
    want = {'finished': lambda w, r: not w and not r, 'has_queued': lambda w, r: bool(w), 'num_running': lambda w, r: r}
    for name, fn in want.items():
        f = ctx.prog.find_method(n.cls, name)
        if f is None:
            if name == 'finished':
                ctx.undecided('finished', name, 'not found')
            continue
        if name == 'num_running' and n.R is None:
            continue
        mon, eng, rets, raises = analyse(ctx, n.cls, f, '%s.%s' % (n.cls.name, name))
        for st, v in rets:
            if st.taint:
                ctx.undecided('finished', name, 'imprecise path')
                continue
            for w in (0, 1):
                for r in (0, 1):
                    c = Cases(n, w, r, st, mon)
                    case = '%s waiting, %s in progress' % ('one' if w else 'none', 'one' if r else 'none')
                    try:
                        if not c.possible():
                            continue
                        x = c.value(v)
                        x = bool(x) if name != 'num_running' else int(x)
                    except (Unknown, TypeError) as e:
                        ctx.undecided('finished', '%s (%s)' % (name, case), str(e)[:200])
                        continue
                    if x == fn(w, r):
                        ctx.ok('finished', '%s (%s)' % (name, case))
                    else:
                        ctx.bad('finished', ctx.loc(f), f.qual, '%s is %s with %s' % (name, x, case))
