"""C25: the dimension of a cluster is decided by a two-thirds majority.

The paths of `calculate_dimension` are enumerated with the estimate of one
position (`_get_dimension`) left opaque; each path's conditions and returned
value are then evaluated on all vote counts up to a bound.  The bounds of the
estimate are decided the same way from the paths of `_get_dimension`."""

import itertools
from collections import Counter

from ..engine import Monitor
from ..terms import T, walk, show, is_const, cval, const
from ..finite import value, holds, Unknown, counters, bind, strip
from .graphs import function, method_of
from .identify import inputs, is_call, args_of
from .queues import ext

NLABELS = 3
TOTAL = 8
TOTAL2 = 1000

SAME = ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.iter', 'builtins.reversed')


def source(it):
    """What a loop runs over: (kind, term) with kind 'once' when each element
    comes once, 'some' when it may leave some out."""
    kind = 'all'
    while True:
        it = strip(it)
        n = ext(it)
        b, m = method_of(it)
        if n in SAME and it.a[1]:
            it = it.a[1][0]
        elif n == 'builtins.enumerate' and it.a[1]:
            it = it.a[1][0]
        elif n == 'builtins.zip' and it.a[1]:
            return None, it
        elif n == 'random.sample' and it.a[1]:
            k = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('k')
            if k is None:
                return None, it
            k = strip(k)
            if not (ext(k) == 'builtins.len' and same_items(k.a[1][0], it.a[1][0])):
                kind = 'some'
            it = it.a[1][0]
        elif n in ('random.choices', 'numpy.random.choice', 'itertools.cycle', 'itertools.repeat'):
            return 'repeated', it
        elif n == 'itertools.islice' and it.a[1]:
            kind = 'some'
            it = it.a[1][0]
        elif it.op == 'sub' and it.a[1].op == 'slice':
            kind = 'some'
            it = it.a[0]
        elif it.op == 'bin' and it.a[0] in ('*', '+'):
            return 'repeated', it
        elif m in ('nodes', 'keys', 'copy', '__iter__') and not it.a[1]:
            it = b
        elif it.op == 'comp' and it.a[0] in ('list', 'set', 'gen') and len(it.a[2]) == 1 and it.a[1] == it.a[2][0][0]:
            if it.a[2][0][2]:
                kind = 'some'
            it = it.a[2][0][1]
        else:
            return kind, it


def same_items(a, b):
    ka, xa = source(a)
    kb, xb = source(b)
    return ka == kb == 'all' and xa == xb


def is_nodes(t, graph):
    t = strip(t)
    return t == graph or t.op == 'attr' and strip(t.a[0]) == graph and t.a[1] in ('nodes', '_node', '_adj', 'adj')


class Votes(Monitor):
    """Where a path is relative to the loop over the positions, the votes cast
    in the current turn, and whether a warning was given."""

    def __init__(self, vote):
        self.vote = vote
        self.box = {}           # container -> node
        self.loops = {}         # loop -> (it, elem)
        self.ballots = {}       # (term, loops) -> node
        self.bare_turns = False
        self.odd = []
        self.inner = set()      # elements of loops over the votes

    def init(self):
        return ('before', 0, False, ())

    def on(self, ev, m, st, eng):
        pos, n, warned, snap = m
        k = ev.kind
        if k == 'mutate' and isinstance(ev.base, T):
            base = strip(ev.base)
            vs = self.cast(ev, st, eng)
            if vs:
                self.box.setdefault(base, (ev.node, eng.func))
                for v in vs:
                    self.ballots[(v, tuple(l[0] for l in ev.loops))] = (ev.node, eng.func, tuple(ev.loops))
                return (pos, min(n + len(vs), 3), warned, snap)
            if base in self.box and ev.method not in ('most_common',):
                self.odd.append((ev.node, eng.func, 'the votes are changed by %s' % ev.method))
        elif k in ('storesub', 'augassign') and any(is_call(y, self.vote) for z in (getattr(ev, 'idx', None), getattr(ev, 'value', None)) if isinstance(z, T) for y in walk(z)):
            if k == 'storesub':
                base = strip(ev.base)
                self.box.setdefault(base, (ev.node, eng.func))
                self.ballots[(strip(ev.idx), tuple(l[0] for l in ev.loops))] = (ev.node, eng.func, tuple(ev.loops))
                if not one_more(ev, base):
                    self.odd.append((ev.node, eng.func, 'votes are counted as %s' % show(ev.value, 8)[:120]))
                return (pos, min(n + 1, 3), warned, snap)
            self.odd.append((ev.node, eng.func, 'votes counted in a way not understood'))
        elif k == 'iter' and not ev.loops and not ev.while_ and eng.func is self.top:
            self.loops[ev.loop] = (ev.it, ev.elem, ev.node)
            return ('in', 0, warned, ())
        elif k == 'iter' and not ev.while_ and boxed(ev.it, set(self.box)):
            self.inner |= {strip(ev.elem)} | ({strip(y) for y in ev.elem.a[0]} if ev.elem.op == 'tuple' else set())
        elif k == 'iter' and ev.while_ and eng.func is self.top:
            self.odd.append((ev.node, eng.func, 'a while loop'))
        elif k == 'iterend' and pos == 'in' and ev.loop in self.loops:
            if n == 0:
                self.bare_turns = True
            if n > 1:
                self.odd.append((ev.node, eng.func, 'more than one vote in a turn'))
        elif k == 'loopdone' and ev.loop in self.loops and pos != 'broke':
            return ('after', 0, warned, ())
        elif k == 'break' and pos == 'in' and len(ev.loops) == 1 and ev.loops[0][0] in self.loops:
            return ('broke', n, warned, tuple((f, v) for f, v in st.facts.items()))
        elif k == 'call' and ev.name in ('warnings.warn', 'warnings.warn_explicit'):
            return (pos, n, True, snap)
        return m

    def cast(self, ev, st, eng):
        """Votes cast by a mutation."""
        if ev.method in ('append', 'add') and ev.args and is_call(strip(ev.args[0]), self.vote):
            return [strip(ev.args[0])]
        if ev.method in ('update', 'extend') and ev.args:
            items = eng.seq_items(st, ev.args[0])
            if items is None:
                a = strip(ev.args[0])
                if a.op == 'comp' and is_call(a.a[1], self.vote):
                    self.odd.append((ev.node, eng.func, 'votes cast in a comprehension'))
                return []
            vs = [strip(x) for x in items]
            if vs and all(is_call(x, self.vote) for x in vs):
                return vs
        return []


def one_more(ev, base):
    """Is the value stored the old count plus one?"""
    v = ev.value
    if getattr(ev, 'aug', None):
        return is_const(v) and cval(v) == 1 or v.op == 'bin' and v.a[0] == '+' and any(is_const(y) and cval(y) == 1 for y in v.a[1:])
    if v.op == 'bin' and v.a[0] == '+':
        one = [y for y in v.a[1:] if is_const(y) and cval(y) == 1]
        old = [y for y in v.a[1:] if not is_const(y)]
        return len(one) == 1 and len(old) == 1 and any(strip(z) == base for z in walk(old[0]))
    return False


def c25(ctx):
    ctx.rule('majority', 'On every path that returns a dimension, the conditions on the path hold only for vote counts in which the returned value has at least two thirds of the votes cast so far.')
    ctx.rule('conclusive', 'The vote is declared undetermined only where no value has two thirds of the votes.')
    ctx.rule('minimum', 'A dimension is returned from within the loop over the positions only when the minimum number of positions has been evaluated.')
    ctx.rule('warning', 'On every path that returns None, a warning was given.')
    ctx.rule('positions', 'Each turn casts one vote, for a position of the cluster that no other turn votes for.')
    ctx.rule('bound', 'The estimate of one position is at most the maximum dimension, and at most the largest dimension it was found to have.')
    ctx.rule('coordinates', 'A position is never found to have more dimensions than coordinates.')
    f = function(ctx, 'calculate_dimension')
    if f is None:
        ctx.undecided('majority', 'calculate_dimension', 'not found')
        return
    est = estimator(ctx, f)
    if est is None:
        for r in ('majority', 'positions', 'bound', 'coordinates'):
            ctx.undecided(r, 'calculate_dimension', 'the function estimating the dimension of one position was not found')
        return
    voting(ctx, f, est)
    bound(ctx, est)
    ctx.assumptions.append('vote counts: up to %d votes on %d values in all orders, and selected counts near two thirds of up to %d votes on two values; larger counts follow the same formula' % (TOTAL, NLABELS, TOTAL2))


def estimator(ctx, f):
    """Function that estimates the dimension at one position."""
    e = function(ctx, '_get_dimension', 'identify')
    if e is not None:
        return e
    cands = []
    for g in ctx.prog.functions.values():
        if g.module is f.module and g is not f and g.cls is None and g.parent is None:
            a = g.node.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if 'max_dim' in ps:
                cands.append(g)
    return cands[0] if len(cands) == 1 else None


def boxed(t, boxes):
    return any(strip(y) in boxes for y in walk(t))


def stale(t, st, boxes):
    """Does a term use votes as they were before the last ones?"""
    out = False
    inner = set()
    for y in walk(t):
        if y.op == 'at' and strip(y) in boxes:
            inner.add(strip(y))
            if st.vers.get(strip(y)) != y.a[1]:
                out = True
    return out


def free(t):
    """Elements of loops and of comprehensions, and indices, in a term."""
    bound_ = set()
    for y in walk(t):
        if y.op == 'comp':
            for e, _, _ in y.a[2]:
                bound_.add(e)
    return [y for y in walk(t) if y.op in ('elem', 'idx') and y not in bound_]


class Path:
    def __init__(self, ctx, f, st, v, mon):
        self.f, self.mon = f, mon
        self.pos, self.n, self.warned, snap = st.mon
        self.v = v
        self.st = st
        facts = dict(snap)
        facts.update(st.facts)
        self.facts = []
        self.boxes = set(mon.box)
        self.unknown = []
        lists = [strip(it) for it, e, n in mon.loops.values()]
        self.idx = {}
        for k, val in facts.items():
            ts = [y for y in k[1:] if isinstance(y, T)]
            if self.pos == 'after' and any(y.op == 'idx' and y.a[1] in mon.loops for t in ts for y in walk(t)):
                continue        # about some earlier turn
            self.facts.append((k, val, ts))
        self.min = T('in', 'min_pos_evaluations')
        self.inputs = {y for k, val, ts in self.relevant() for t in ts for y in walk(t) if y.op == 'in'}

    def envs(self, total, mn, votes):
        """Values of the terms for given votes; (env, all evaluated)."""
        mon = self.mon
        base = {self.min: mn}
        labels = [l for l, c in votes.items() for _ in range(c)]
        for b in self.boxes:
            kind = b.a[0] if b.op == 'obj' else None
            if kind == 'list' or b.op == 'seqv' and b.a[0] == 'list':
                base[b] = list(labels)
            else:
                base[b] = dict(votes)
        extra = [T('in', n) for n in ('max_dim', 'min_neighbour_evaluations') if T('in', n) in self.inputs]
        for xs in itertools.product((1, 3, 12), repeat=len(extra)):
            yield from self.turn({**base, **dict(zip(extra, xs))}, total)

    def turn(self, base, total):
        mon = self.mon
        if self.pos in ('in', 'broke'):
            k0 = total - self.n
            ks = range(k0, k0 + 3) if mon.bare_turns else [k0]
            for k in ks:
                e = dict(base)
                for l, (it, elem, node) in mon.loops.items():
                    e[('idx', l)] = k
                yield e
        else:
            yield base

    def assign(self, env, terms):
        """Environments with values for indices and for elements of loops over
        the votes."""
        todo = []
        for t in terms:
            for y in free(t):
                if y.op == 'idx' and len(y.a) > 1 and ('idx', y.a[1]) in env:
                    start = value(y.a[2], env) if len(y.a) > 2 and isinstance(y.a[2], T) else 0
                    env[y] = env[('idx', y.a[1])] + start
                elif y.op == 'elem' and y not in todo and y not in env and boxed(y, self.boxes):
                    todo.append(y)
        out = [env]
        for y in sorted(set(todo), key=lambda y: y.id):
            nxt = []
            for e in out:
                xs = value(y.a[0], e)
                for x in list(xs):
                    e2 = dict(e)
                    e2[y] = x
                    nxt.append(e2)
            out = nxt
        return out

    def relevant(self):
        """Facts about the votes, the minimum and the number of the turn."""
        rel = []
        for k, val, ts in self.facts:
            if any(boxed(t, self.boxes) or self.min in set(walk(t)) or any(y.op == 'idx' and y.a[1] in self.mon.loops for y in walk(t)) for t in ts):
                rel.append((k, val, ts))
        return rel

    def feasible(self, env, rel):
        for k, val, ts in rel:
            if not holds(k, val, env):
                return False
        return True


def cases():
    for total in range(1, TOTAL + 1):
        for votes in counters(list(range(NLABELS)), total):
            for mn in [None] + list(range(1, total + 3)):
                yield total, votes, mn
    for total in list(range(TOTAL + 1, 67)) + [100, 101, 150, 151, 302, 500, 602, TOTAL2]:
        near = 2 * total // 3
        for c in sorted({1, total // 2, near - 1, near, near + 1, near + 2, total}):
            if 0 < c <= total:
                for mn in (None, 1, total - 1, total, total + 1):
                    if total > c:
                        yield total, {0: total - c, 1: c}, mn
                    yield total, {1: c, **({0: total - c} if total > c else {})}, mn


def voting(ctx, f, est):
    mon = Votes(est)
    mon.top = f
    try:
        eng, rets, raises = ctx.analyse(f, kwargs=inputs(f), monitor=mon, opaque={est.fid}, atomic=True, label='calculate_dimension')
    except RecursionError:
        ctx.undecided('majority', f.qual, 'not analysed')
        return
    where = ctx.loc(f, f.node)
    if not mon.box or not mon.loops:
        for r in ('majority', 'positions'):
            ctx.undecided(r, f.qual, 'the votes were not found')
        return
    for node, fn, why in mon.odd[:3]:
        ctx.undecided('majority', f.qual, why)
    tainted = bool(mon.odd)
    seen = set()
    for st, v in rets:
        p = Path(ctx, f, st, v, mon)
        taint = tainted or bool(st.taint)
        key = (v, p.pos, p.n, p.warned, taint, frozenset((k, val) for k, val, ts in p.relevant()))
        if key in seen:
            continue
        seen.add(key)
        one_return(ctx, f, p, taint, where, eng)
    positions(ctx, f, est, mon, eng)


def one_return(ctx, f, p, tainted, where, eng):
    v = p.v
    none = is_const(v) and cval(v) is None
    what = 'undetermined result' if none else 'result'
    place = {'before': 'before the positions are evaluated', 'in': 'while positions are evaluated', 'after': 'after all positions', 'broke': 'after leaving the loop'}[p.pos]
    label = '%s returned %s' % (what, place)
    if none and not p.warned:
        rule = 'warning'
        if tainted:
            ctx.undecided(rule, label, 'path not followed exactly')
        else:
            ctx.bad(rule, where, f.qual, '%s without a warning' % label)
    elif none:
        ctx.ok('warning', label)
    if is_const(v) and not none:
        if p.pos == 'before' or not isinstance(cval(v), int):
            ctx.undecided('majority', label, 'a constant is returned')
            return
    rel = p.relevant()
    if stale(v, p.st, p.boxes):
        if not any(boxed(t, p.boxes) for k, val, ts in rel for t in ts) and not tainted:
            ctx.bad('majority', where, f.qual, 'the %s uses the votes as they were before the last one was cast' % label)
        else:
            ctx.undecided('majority', label, 'the value is taken from earlier votes')
        return
    low = few = lost = None
    unknown = None
    n = 0
    terms = [t for k, val, ts in rel for t in ts] + [v]
    stop = False
    for total, votes, mn in cases():
        if stop:
            break
        for env0 in p.envs(total, mn, votes):
            try:
                for env in p.assign(env0, terms):
                    if not p.feasible(env, rel):
                        continue
                    got = None if none else value(v, env)
                    n += 1
                    c = votes.get(got, 0)
                    if got is None:
                        top = max(votes.values())
                        if top * 3 >= 2 * total and lost is None:
                            lost = (dict(votes), mn)
                        if p.pos in ('in', 'broke') and few is None and (mn is None or total < mn):
                            few = (dict(votes), mn)
                        continue
                    if c * 3 < 2 * total and low is None:
                        low = (dict(votes), got, mn)
                    if p.pos in ('in', 'broke') and (mn is None or total < mn) and few is None:
                        few = (dict(votes), mn)
            except Unknown as e:
                unknown = str(e)
                stop = True
                break
    if unknown is not None:
        for r in ('majority', 'minimum'):
            ctx.undecided(r, label, 'conditions not understood (%s)' % unknown[:80])
        return
    if not n:
        return
    terms_in = {y for t in terms for y in walk(t)}
    for rule, found, msg in (
            ('majority', low, lambda x: 'with votes %s, %s is returned as the dimension %s, although fewer than two thirds agree' % (votes_text(x[0]), x[1], place)),
            ('conclusive', lost, lambda x: 'with votes %s the dimension is reported as undetermined, although two thirds agree' % votes_text(x[0])),
            ('minimum', few, lambda x: 'the vote can end after %d positions, with a minimum of %s and other positions left' % (sum(x[0].values()), 'all positions' if x[1] is None else x[1]))):
        if found is None:
            if rule != 'conclusive' or none:
                if rule != 'majority' or not none:
                    ctx.ok(rule, '%s (%d cases)' % (label, n))
        elif tainted or p.mon.inner and not any(e in terms_in for e in p.mon.inner):
            ctx.undecided(rule, label, 'path not followed exactly')
        else:
            ctx.bad(rule, where, f.qual, msg(found))


def votes_text(v):
    return '{%s}' % ', '.join('%s: %d' % kv for kv in v.items())


def positions(ctx, f, est, mon, eng):
    graph = T('in', 'graph')
    for (vote, lids), (node, fn, loops) in mon.ballots.items():
        loc = ctx.loc(fn, node)
        what = 'vote at %s' % loc
        a = args_of(est, vote) if is_call(vote, est) else {}
        pos = a.get(first_param(est))
        if pos is None or len(loops) != 1:
            ctx.undecided('positions', what, 'not one vote per turn of one loop')
            continue
        pos = strip(pos)
        lid, it, elem = loops[0]
        kind, src = source(it)
        es = [strip(elem)] + ([strip(y) for y in elem.a[0]] if elem.op == 'tuple' else [])
        if kind == 'repeated':
            ctx.bad('positions', loc, f.qual, 'the positions evaluated come from %s, which can give the same position several times' % show(src, 6)[:120])
        elif pos not in es:
            n = ext(pos)
            if n in ('random.choice', 'numpy.random.choice') or pos.op == 'sub' and (ext(strip(pos.a[0])) in ('random.choices', 'random.sample') or ext(strip(pos.a[1])) in ('random.randrange', 'random.randint')):
                ctx.bad('positions', loc, f.qual, 'each turn draws its position anew (%s): the same position can be evaluated several times' % show(pos, 6)[:120])
            elif not any(y in es or y.op == 'idx' and y.a[1] == lid for y in walk(pos)) and pos.op in ('sub', 'in', 'const'):
                ctx.bad('positions', loc, f.qual, 'every turn evaluates the same position %s' % show(pos, 6)[:120])
            elif pos.op == 'sub' and pos.a[1].op == 'idx' and pos.a[1].a[1] == lid and is_nodes(source(pos.a[0])[1], graph) and source(pos.a[0])[0] == 'all' and source(pos.a[1].a[0])[1] == source(pos.a[0])[1]:
                ctx.ok('positions', what)
            else:
                ctx.undecided('positions', what, 'position %s' % show(pos, 8)[:120])
        elif not is_nodes(src, graph):
            ctx.undecided('positions', what, 'the positions come from %s' % show(src, 8)[:120])
        elif kind == 'some':
            ctx.undecided('positions', what, 'some positions may be left out')
        elif mon.bare_turns:
            ctx.undecided('positions', what, 'a turn can end without a vote')
        else:
            ctx.ok('positions', what)
        g = a.get('graph')
        if g is not None and strip(g) != graph:
            ctx.undecided('positions', what, 'another graph is handed on')
        m = a.get('max_dim')
        if m is not None and strip(m) != T('in', 'max_dim'):
            bad = None
            try:
                for x in range(1, 6):
                    got = value(m, {T('in', 'max_dim'): x})
                    if not isinstance(got, (int, float)):
                        raise Unknown('max_dim')
                    if got > x:
                        bad = (x, got)
            except Unknown:
                ctx.undecided('bound', what, 'maximum dimension %s' % show(m, 6)[:80])
            else:
                if bad:
                    ctx.bad('bound', loc, f.qual, 'with a maximum dimension of %s, positions are evaluated up to dimension %s' % bad)


def first_param(g):
    a = g.node.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return 'pos' if 'pos' in ps else ps[0]


def has_function(ctx, est):
    h = function(ctx, '_has_dimension', 'identify')
    if h is not None:
        return h
    cands = []
    for g in ctx.prog.functions.values():
        if g.module is est.module and g is not est and g.cls is None and g.parent is None:
            a = g.node.args
            ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if 'dim' in ps and 'pos' in ps:
                cands.append(g)
    return cands[0] if len(cands) == 1 else None


class Turns(Monitor):
    """Conditions under which a turn of a loop ends without leaving it."""

    def __init__(self, top):
        self.top = top
        self.ends = {}
        self.its = {}
        self.whiles = False
        self.calls = {}

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k == 'iter':
            if ev.while_:
                self.whiles = True
            else:
                self.its[ev.loop] = (ev.it, ev.elem)
                return tuple(x for x in m if x[0] != ev.loop) + ((ev.loop, 'in', ()),)
        elif k == 'iterend' and not ev.while_:
            self.ends.setdefault(ev.loop, set()).add(frozenset(st.facts.items()))
        elif k == 'loopdone' and ev.loop in self.its:
            if not any(x[0] == ev.loop and x[1] == 'broke' for x in m):
                return tuple(x for x in m if x[0] != ev.loop) + ((ev.loop, 'after', ()),)
        elif k == 'break' and ev.loops:
            l = ev.loops[-1][0]
            return tuple(x for x in m if x[0] != l) + ((l, 'broke', tuple(st.facts.items())),)
        return m


def bound(ctx, est):
    has = has_function(ctx, est)
    where = ctx.loc(est, est.node)
    if has is None:
        ctx.undecided('bound', est.qual, 'the function testing for one dimension was not found')
        ctx.undecided('coordinates', est.qual, 'the function testing for one dimension was not found')
        return
    mon = Turns(est)
    eng, rets, raises = ctx.analyse(est, kwargs=inputs(est), monitor=mon, opaque={has.fid}, atomic=True, label=est.qual)
    if mon.whiles or not rets:
        ctx.undecided('bound', est.qual, 'a while loop')
    else:
        for i, (st, v) in enumerate(rets):
            one_bound(ctx, est, has, st, v, mon, where)
    coordinates(ctx, has)


def haves(limit):
    """Answers to 'has it dimension d' for d = 0..5; True at most up to a limit."""
    for bits in itertools.product((False, True), repeat=limit):
        yield dict(zip(range(1, limit + 1), bits))


def one_bound(ctx, est, has, st, v, mon, where):
    mx = T('in', 'max_dim')
    label = 'estimate %s' % show(v, 8)[:60]
    bad = None
    unknown = None
    n = 0
    calls = {}

    def scan(ts):
        for t in ts:
            for y in walk(t):
                if is_call(y, has):
                    d = args_of(has, y).get('dim')
                    if d is None:
                        raise Unknown('dim')
                    calls[y] = d

    def answers(env, table):
        for y, d in list(calls.items()):
            try:
                x = value(d, env)
            except Unknown:
                continue
            env[y] = table.get(x, False) if x > 0 else True
        return env

    def true(facts, env):
        for k, val in facts:
            ts = [t for t in k[1:] if isinstance(t, T)]
            if any(is_call(y, has) or y.op == 'elem' and y.a[1] in loops or y == mx for t in ts for y in walk(t)):
                if not holds(k, val, env):
                    return False
        return True

    state = {x[0]: (x[1], x[2]) for x in st.mon}
    loops = set(mon.its)
    if len(loops) > 1:
        ctx.undecided('bound', label, 'several loops')
        return
    try:
        facts = list(st.facts.items())
        scan([t for k, _ in facts for t in k[1:] if isinstance(t, T)] + [v])
        for es in mon.ends.values():
            for e in es:
                scan([t for k, _ in e for t in k[1:] if isinstance(t, T)])
        for nc in range(1, 5):
            for m in range(1, 5):
                for table in haves(nc):
                    base = {mx: m}
                    if not loops or not state:
                        scopes = [(base, [])]
                    else:
                        l = next(iter(loops))
                        it, elem = mon.its[l]
                        items = list(value(it, base))
                        pos, snap = state[l]
                        if pos == 'after':
                            scopes = [(base, items)]
                        else:
                            scopes = []
                            for j, x in enumerate(items):
                                e = dict(base)
                                bind(elem, x, e)
                                scopes.append((e, items[:j]))
                            facts2 = list(snap) + facts
                    for e, before in scopes:
                        ok = True
                        for x in before:
                            e3 = dict(base)
                            bind(elem, x, e3)
                            answers(e3, table)
                            if not any(true(fs, e3) for fs in mon.ends.get(l, ())):
                                ok = False
                                break
                        if not ok:
                            continue
                        answers(e, table)
                        fx = facts if not (loops and state and state[l][0] == 'broke') else facts2
                        if not true(fx, e):
                            continue
                        got = value(v, e)
                        if not isinstance(got, int):
                            raise Unknown('estimate %r' % (got,))
                        n += 1
                        if got > min(m, nc) and bad is None:
                            bad = (got, m, nc)
    except Unknown as e:
        unknown = str(e)
    if unknown is not None:
        ctx.undecided('bound', label, 'not understood (%s)' % unknown[:80])
    elif bad:
        if st.taint:
            ctx.undecided('bound', label, 'path not followed exactly')
        else:
            ctx.bad('bound', where, est.qual, 'the dimension %s can be found for a maximum dimension of %s and positions with %s coordinates' % bad)
    elif n:
        ctx.ok('bound', '%s (%d cases)' % (label, n))


def coordinates(ctx, has):
    """Is a dimension above the number of coordinates always denied?"""
    where = ctx.loc(has, has.node)
    pos, dim = T('in', first_param(has)), T('in', 'dim')
    vol = function(ctx, '_get_volume', 'identify')
    eng, rets, raises = ctx.analyse(has, kwargs=inputs(has), monitor=Monitor(), opaque={vol.fid} if vol else set(), atomic=True, label=has.qual)
    length = T('call', T('ext', 'builtins.len'), (pos,), ())
    open_paths = 0
    unknown = None
    tainted = False
    for st, v in rets:
        if is_const(v) and not cval(v):
            continue
        possible = False
        try:
            for nc in range(1, 4):
                for d in range(nc + 1, 5):
                    env = {dim: d, pos: tuple([0.0] * nc)}
                    ok = True
                    for k, val in st.facts.items():
                        ts = [t for t in k[1:] if isinstance(t, T)]
                        if not any(pos in set(walk(t)) for t in ts):
                            continue
                        try:
                            if not holds(k, val, env):
                                ok = False
                                break
                        except Unknown:
                            continue
                    if ok:
                        possible = True
        except Unknown as e:
            unknown = str(e)
        if possible:
            open_paths += 1
            tainted = tainted or bool(st.taint)
    if not open_paths:
        ctx.ok('coordinates', '%s: denied by the number of coordinates' % has.qual)
        return
    ok = guard_in_volume(ctx, vol)
    if ok:
        ctx.ok('coordinates', '%s: volumes in too many dimensions are zero' % has.qual)
    elif ok is None or unknown or tainted:
        ctx.undecided('coordinates', has.qual, 'neither the test nor the volume looks at the number of coordinates in a way that is understood')
    else:
        ctx.bad('coordinates', where, has.qual, 'a position with fewer coordinates than the dimension can be found to have it: neither the number of coordinates nor the number of singular values is looked at')


def guard_in_volume(ctx, vol):
    """Is the volume zero where there are fewer singular values than vectors?"""
    if vol is None:
        return None
    eng, rets, raises = ctx.analyse(vol, kwargs=inputs(vol), monitor=Monitor(), atomic=True, label=vol.qual)
    tup = T('in', 'neighbour_tuple')
    for st, v in rets:
        if is_const(v) and cval(v) == 0:
            # any condition on lengths
            for k, val in st.facts.items():
                if k[0] == 'ord' and all(ext(strip(t)) == 'builtins.len' or strip(t).op == 'sub' for t in k[1:]):
                    return True
            return None
    # no constant zero: the product of the singular values, or a determinant
    for st, v in rets:
        for y in walk(v):
            n = ext(y) or ''
            if n.endswith('.det'):
                return None
    return False
