"""Rules about the scheduler of the search (C05 - C09, C12, C13)."""

from ..engine import Engine, Monitor, DEAD, strip_at, strip_iter
from ..loader import AnalysisError, Function
from ..terms import T, NONE, TRUE, FALSE, UNDEF, const, is_const, cval, ext, attr, call, walk, show
from .. import roles as R

COPY = ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy', 'numpy.ascontiguousarray')


def plain(t):
    """Strip versions and value-preserving conversions."""
    while True:
        if t.op == 'at':
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in COPY and len(t.a[1]) >= 1:
            t = t.a[1][0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('copy', 'tolist') and not t.a[1]:
            t = t.a[0].a[0]
        else:
            return t


def mentions(t, x):
    return any(y is x for y in walk(t))


def opt_attrs(prog, cls, option):
    """Attributes that the constructor fills with the given option."""
    from ..engine import prog_types
    vals = prog_types(prog).init_of(cls)
    x = T('in', option)
    return sorted(n for n, vs in vals.items() if vs and all(v is x for v in vs))


def prop_values(eng, st, base, name, node):
    """Value(s) of a property evaluated quietly in a state."""
    mon, eng.mon = eng.mon, Monitor()
    eng.sinks.append([])
    try:
        return eng.getattr(st.copy(), base, name, node)
    finally:
        eng.sinks.pop()
        eng.mon = mon


def prop_holds(eng, st, base, name, node):
    vs = {eng.holds(s, v) for s, v in prop_values(eng, st, base, name, node)}
    return vs.pop() if len(vs) == 1 else None


def loose(a, b):
    """Whether two terms are the same value up to copies."""
    return plain(a) is plain(b)


class Rec(tuple):
    """Immutable monitor state with named fields."""
    __slots__ = ()

    def get(self, k, d=None):
        for x, v in self:
            if x == k:
                return v
        return d

    def set(self, **kw):
        d = dict(self)
        d.update(kw)
        return Rec(sorted((k, v) for k, v in d.items() if v is not None and v is not False))


EMPTY = Rec()


def inc(n):
    return min(3, (n or 0) + 1)


def task_entries(ctx, roles):
    """[(Function, args, kwargs, index of the simplex parameter, spawn node)]."""
    spawn, _ = roles.tasks()
    ctx.require(spawn, 'the search starts no task')
    res = []
    for key, (node, ft, args, kwargs) in spawn.items():
        if ft is None:
            ctx.undecided('anchor', show(key) if isinstance(key, T) else key, 'task is not a package coroutine')
            continue
        f = ctx.prog.functions[ft.a[0]]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals, params = [], []
        for n, v in zip(names, args):
            if v.op == 'inst':
                vals.append(v)
            else:
                vals.append(T('in', n))
                params.append(n)
        kws = []
        for n, v in kwargs:
            if v.op == 'inst':
                kws.append((n, v))
            else:
                kws.append((n, T('in', n)))
                params.append(n)
        res.append((f, vals, kws, params, node))
    return res


class TaskMonitor(Monitor):
    """One minimisation task: minimise, record, decide on refinement, retire."""

    def __init__(self, ctx, roles, task, params):
        self.ctx, self.roles, self.task, self.params = ctx, roles, task, params
        self.opaque = roles.async_functions - {task.fid}
        self.seen = set()

    def init(self):
        return EMPTY

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and ev.awaited and isinstance(ev.fn, Function) and ev.fn.fid in self.opaque:
            self.seen.add('min')
            return m.set(min=ev.result, live=True)
        if ev.kind == 'resumed' and ev.opaque:
            return m.set(live=None, done=m.get('min'))
        r = self.roles.role(ev, st, eng)
        if r is None:
            return m
        if r[0] == 'addres':
            self.seen.add('addres')
            self.seen.add('res:' + str(ev.value))
            if m.get('done') is None:
                eng.report('record', ev.node, 'a result is recorded before the minimisation has returned', st)
            if m.get('fin'):
                eng.report('order', ev.node, 'the result is recorded after the simplex was marked finished', st)
            return m.set(addres=inc(m.get('addres')), val=ev.value)
        if r[0] == 'add' and r[1] == 'P':
            self.seen.add('addP')
            if m.get('fin'):
                eng.report('order', ev.node, 'a refinement position is queued after the simplex was marked finished', st)
            return m.set(addP=inc(m.get('addP')))
        if r[0] == 'fin' and r[1] == 'S':
            self.seen.add('fin')
            if not m.get('addres'):
                eng.report('order', ev.node, 'the simplex is marked finished on a path on which its result has not been recorded', st)
            if m.get('fin'):
                eng.report('order', ev.node, 'the simplex is marked finished twice', st)
            return m.set(fin=inc(m.get('fin')))
        return m


def c05(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('task-order', 'in a minimisation task a simplex is marked finished only after its result and its refinement position were recorded')
    ctx.rule('position', 'between taking a position from the queue and recording its stencil and itself there is no suspension point')
    ctx.rule('persist', 'the saved objects of the simplex queue contain queued and running simplices')
    n_fin = 0
    for f, args, kws, params, node in task_entries(ctx, roles):
        mon = TaskMonitor(ctx, roles, f, params)
        before = len(ctx.violations)
        eng, rets, raises = ctx.analyse(f, args, kws, monitor=mon, label='task %s' % f.qual)
        if 'fin' not in mon.seen and 'addres' not in mon.seen:
            ctx.undecided('task-order', f.qual, 'results are not recorded by the task itself')
            continue
        ctx.require('min' in mon.seen, 'task %s awaits no minimisation' % f.qual)
        n_fin += 1
        if len(ctx.violations) == before:
            ctx.ok('task-order', '%s: %d path classes' % (f.qual, len(rets) + len(raises)))

    class Main(Monitor):
        seen = set()

        def init(self):
            return EMPTY

        def on(self, ev, m, st, eng):
            if ev.kind == 'spawn':
                return m.set(spawned=True) if m.get('simplex') is not None else m
            if ev.kind == 'exitexc' and m.get('pos') is not None:
                return m.set(pos=None, addS=None, refined=None, stale=None)
            if ev.kind in ('await', 'yieldpoint'):
                if m.get('pos') is not None:
                    self.settle(ev, m, st, eng)
                    if not (m.get('addS') or m.get('refined')):
                        return m.set(stale=True, simplex=None, spawned=None)
                    m = m.set(pos=None, addS=None, refined=None, stale=None)
                return m.set(simplex=None, spawned=None)
            r = self_roles.role(ev, st, eng)
            if r is None:
                return m
            if r[0] == 'pop' and r[1] == 'P':
                self.seen.add('popP')
                if m.get('pos') is not None:
                    self.settle(ev, m, st, eng)
                return m.set(pos=r[2], addS=None, refined=None, stale=None)
            if r[0] == 'pop' and r[1] == 'S':
                return m.set(simplex=r[2], spawned=None)
            if r[0] == 'add' and r[1] == 'S' and m.get('pos') is not None:
                self.seen.add('addS')
                if m.get('stale'):
                    eng.report('position', ev.node, 'the position was taken from the queue before a suspension point, and its refinement is recorded after it', st)
                return self.both(m.set(addS=True))
            if r[0] == 'refined' and m.get('pos') is not None:
                self.seen.add('refined')
                if m.get('stale'):
                    eng.report('position', ev.node, 'the position was taken from the queue before a suspension point, and is recorded as refined after it', st)
                return self.both(m.set(refined=True))
            if r[0] == 'fin' and r[1] == 'S':
                self.seen.add('fin')
                if m.get('spawned') and m.get('simplex') is not None and loose(r[2], m.get('simplex')):
                    eng.report('retire', ev.node, 'a simplex is marked finished while its minimisation has just been started', st)
                return m
            return m

        def both(self, m):
            if m.get('addS') and m.get('refined'):
                return m.set(pos=None, addS=None, refined=None, stale=None)
            return m

        def settle(self, ev, m, st, eng):
            if bool(m.get('addS')) != bool(m.get('refined')):
                eng.report('position', ev.node, 'a position taken from the queue is %s at the next suspension point' % (
                    'recorded as refined, but its simplices are not queued' if m.get('refined') else 'refined, but not recorded as such'), st)

    self_roles = roles
    mon = Main()
    mon.seen = set()
    before = len(ctx.violations)
    eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods, label='scheduler %s' % roles.main.qual)
    ctx.require('popP' in mon.seen, 'the scheduler takes no position from the queue')
    for s, _ in rets:
        if s.mon.get('pos') is not None and bool(s.mon.get('addS')) != bool(s.mon.get('refined')) and not s.taint:
            ctx.bad('position', ctx.loc(roles.main), roles.main.qual, 'the search returns with a position taken from the queue but its refinement only partly recorded')
    if len(ctx.violations) == before:
        ctx.ok('position', '%s: %d events, %d path classes' % (roles.main.qual, eng.stats['events'], len(rets) + len(raises)))
    persisted(ctx, roles)
    kept_until_finished(ctx, roles)


class Under:
    """Findings of another property's rule that this one depends on."""

    def __init__(self, ctx, rule, about):
        self._ctx, self._rule, self._about = ctx, rule, about

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def bad(self, rule, loc, func, msg, *a, **k):
        if any(x in msg for x in self._about):
            self._ctx.bad(self._rule, loc, func, msg, *a, **k)

    def undecided(self, rule, what, why, *a, **k):
        pass

    def ok(self, rule, what, *a, **k):
        self._ctx.ok(self._rule, what)


def kept_until_finished(ctx, roles):
    """What was handed out is recorded as being in progress on every path,
    and only marking it finished takes it out."""
    from . import queues
    n = queues.Names(ctx, roles.S, 'S')
    if n.W is None:
        ctx.undecided('persist', roles.S.name, 'waiting objects not found')
        return
    sub = Under(ctx, 'persist', ('handed out without being put in progress', 'another object than', 'objects other than the one given', 'changes the objects in progress', 'changes the waiting objects'))
    queues.progress(sub, n)
    queues.order(sub, n)


def written(ctx, S, inst, held):
    """What the queue writes is built from the objects in progress, too."""
    from .schema import FlowMonitor, HANDLE
    w = ctx.prog.find_method(S, 'to_hdf5')
    if w is None or not isinstance(w, Function):
        return
    mon = FlowMonitor()
    eng, rets, _ = ctx.analyse(w, [HANDLE], [], self_term=inst, monitor=mon, label='%s of %s' % (w.qual, S.name))
    for st, _ in rets:
        todo, seen, parts = [v for _, v, _, _, s in mon.writes], set(), set()
        whole = not todo
        while todo:
            x = todo.pop()
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            for y in walk(x):
                if y.op == 'attr' and y.a[0] is inst:
                    parts.add(y.a[1])
                if y is inst and x is inst:
                    whole = True
                todo += list(eng.alternatives(y)) if y.op == 'phi' else []
                todo += [v for (b, k), v in st.heap.items() if b is y] if y.op == 'obj' else []
                todo += list(mon.flows.get(strip_at(y), ()))
        if held <= parts:
            ctx.ok('persist', '%s writes %s' % (w.qual, ', '.join(sorted(parts))))
        elif whole or st.taint or any(y.op in ('opaque', 'havoc') for x in seen for y in walk(x)):
            ctx.undecided('persist', w.qual, 'what is written was not followed')
        else:
            ctx.bad('persist', ctx.loc(w), w.qual, 'what the queue writes does not include the objects in progress (%s)' % ', '.join(sorted(held - parts)))


def persisted(ctx, roles):
    """Objects handed out stay in what is saved until they are marked finished."""
    S = roles.S
    inst = T('inst', S.cid, 'self', False)
    got = {}

    class M(Monitor):
        def on(self, ev, m, st, eng):
            if ev.kind == 'mutate':
                got.setdefault(self.phase, []).append((ev.base, ev.method, list(ev.args), ev.node))
            if ev.kind == 'call' and ev.name and ev.name.startswith('.'):
                got.setdefault(self.phase, []).append((ev.recv, ev.name[1:], list(ev.args), ev.node))
            if ev.kind == 'storeattr':
                got.setdefault(self.phase, []).append((T('attr', ev.base, ev.name, None), '=', [ev.value], ev.node))
            return m
    mon = M()
    pop, fin = ctx.prog.method(S, 'pop_queued'), ctx.prog.method(S, 'set_finished')
    mon.phase = 'pop'
    eng, rets, _ = ctx.analyse(pop, monitor=mon, self_term=inst)
    ctx.require(rets, '%s never returns' % pop.qual)
    vals = {plain(v) for _, v in rets}
    stored = {plain(b) for b, meth, args, _ in got.get('pop', []) if meth in ('add', 'append', 'put', 'put_nowait', '=', 'update', 'setdefault', '[]=')
              and any(mentions(a, v) for a in args for v in vals) and plain(b).op == 'attr'}
    subs = {plain(b) for b, meth, args, _ in got.get('pop', [])}
    obj = ctx.prog.method(S, 'objects')
    mon.phase = 'objects'
    eng2, orets, _ = ctx.analyse(obj, monitor=mon, self_term=inst)

    def content_of(t, s):
        """Attributes of the queue a returned collection is built from."""
        out, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in walk(x):
                if y.op == 'attr' and y.a[0] is inst:
                    out.add(y.a[1])
                if y.op == 'phi':
                    todo += list(eng2.alternatives(y))
                if y.op == 'obj':
                    for (b, k), v in s.heap.items():
                        if b is y:
                            todo.append(v)
        for b, meth, args, _ in got.get('objects', []):
            if b is not None and b.op == 'obj' and b in seen or b is not None and any(b is z for z in walk(t)):
                for a in args:
                    if a not in seen:
                        for y in walk(a):
                            if y.op == 'attr' and y.a[0] is inst:
                                out.add(y.a[1])
        return out
    held = {b.a[1] for b in stored if b.a[0] is inst}
    if not held:
        # the object is not tracked anywhere after it was handed out
        popped_from = {y.a[1] for v in vals for y in walk(v) if y.op == 'attr' and y.a[0] is inst}
        removed = any(meth in ('get_nowait', 'get', 'pop', 'popleft', 'remove', 'discard') for _, meth, _, _ in got.get('pop', []))
        if removed or popped_from:
            ctx.bad('persist', ctx.loc(pop), pop.qual, 'an object handed out for minimisation is not stored anywhere as running')
        else:
            ctx.undecided('persist', pop.qual, 'how objects in progress are tracked was not understood')
        return
    for s, v in orets:
        parts = content_of(v, s)
        miss = held - parts
        if miss:
            ctx.bad('persist', ctx.loc(obj), obj.qual, 'the objects that are saved do not include those in progress (%s)' % ', '.join(sorted(miss)))
        else:
            ctx.ok('persist', '%s is built from %s' % (obj.qual, ', '.join(sorted(parts))))
        waiting = {y.a[1] for vv in vals for y in walk(vv) if y.op == 'attr' and y.a[0] is inst} - held
        if waiting and not waiting & parts:
            ctx.bad('persist', ctx.loc(obj), obj.qual, 'the objects that are saved do not include the waiting ones (%s)' % ', '.join(sorted(waiting)))
    written(ctx, S, inst, held)
    mon.phase = 'fin'
    eng3, frets, _ = ctx.analyse(fin, monitor=mon, self_term=inst)
    dropped = {plain(b).a[1] for b, meth, args, _ in got.get('fin', []) if b is not None and plain(b).op == 'attr' and meth in ('clear', 'pop', 'popitem')}
    for n in dropped & held:
        ctx.bad('persist', ctx.loc(fin), fin.qual, 'marking one object finished drops other objects in progress (%s)' % n)
    ctx.ok('persist', fin.qual)


def limit_terms(ctx, roles, option):
    return [attr(roles.self_term, n) for n in opt_attrs(ctx.prog, roles.controller, option)]


def above(t, limits):
    """A value that can exceed the limit."""
    t = strip_at(t)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.max', 'numpy.maximum') and len(t.a[1]) > 1:
        rest = [a for a in t.a[1] if a not in limits]
        return len(rest) < len(t.a[1]) and any(not (a.op == 'const' and isinstance(cval(a), (int, float)) and cval(a) <= 1) for a in rest)
    if t.op == 'bin' and t.a[0] in ('+', '*'):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if a in limits and b.op == 'const' and isinstance(cval(b), (int, float)) and cval(b) > (0 if t.a[0] == '+' else 1):
                return True
    return False


def c06(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('capacity', 'every simplex is taken from the queue under "number in progress < num_minimize_parallel", checked again for each one')
    ctx.rule('launch', 'every task is started for a simplex just taken from the queue, and for each such simplex at most once')
    ctx.rule('retire', 'the simplex stays in progress until its minimisation was awaited and recorded')
    limits = limit_terms(ctx, roles, 'num_minimize_parallel')
    ctx.require(limits, 'the limit num_minimize_parallel is not stored by the controller')
    qS = roles.qterm('S')
    seen = {'pop': 0, 'spawn': 0}

    def capacity(eng, st, node):
        """True / False (not implied) / None (compared in another way)."""
        vals = prop_values(eng, st, qS, 'num_running', node)
        verdict = True
        for s, v in vals:
            ok = False
            for lim in limits:
                if eng.holds(s, T('cmp', '<', v, lim)) is True:
                    ok = True
            if ok:
                continue
            # any other fact that involves the limit?
            other = False
            for k in s.facts:
                ts = list(k[1:])
                if any(mentions(t, lim) for t in ts if isinstance(t, T) for lim in limits):
                    pair = {plain(t) for t in ts}
                    if plain(v) in pair and any(above(t, limits) for t in ts):
                        continue
                    if not (plain(v) in pair and any(lim in pair for lim in limits)) and not understood(ts, v, limits):
                        other = True
            for _, fid, _ in eng.fstack:
                for x in s.frames.get(fid, {}).values():
                    if isinstance(x, T) and x not in limits and any(mentions(x, lim) for lim in limits) and x.op not in ('inst',):
                        if x.op in ('bin', 'call', 'phi') and not above(x, limits):
                            other = True
            verdict = None if other and verdict is not False else False
        return verdict

    def understood(ts, v, limits):
        # a comparison of the limit with something that does not involve the number in progress
        return not any(y.op == 'at' or y.op == 'attr' and y.a[0] is qS or y.op == 'call' and not y.a[0].op == 'ext' for t in ts for y in walk(t) if t not in limits) and False

    class M(Monitor):
        keep_locals = True
        def init(self):
            return EMPTY

        def on(self, ev, m, st, eng):
            if ev.kind == 'await':
                c = capacity(eng, st, ev.node)
                return m.set(cap=True if c is True else None, cur=None, fired=None)
            if ev.kind == 'enter' and isinstance(ev.fn, Function) and ev.fn.name == 'pop_queued':
                me = next(iter(ev.args.values()), None)
                ps = [x.arg for x in ev.fn.node.args.args]
                me = ev.args.get(ps[0]) if ps else None
                if me is not None and roles.queue_of(eng, me, st) == 'S' and not any(
                        isinstance(g, Function) and g.name == 'pop_queued' and g is not ev.fn for g, _, _ in eng.fstack[:-1]):
                    seen['pop'] += 1
                    c = True if m.get('cap') else capacity(eng, st, ev.node)
                    if c is False:
                        eng.report('capacity', caller_node(eng), 'a simplex is taken from the queue on a path on which the number in progress is not known to be below the limit', st, key='cap')
                    elif c is None:
                        ctx.undecided('capacity', eng.funcname(), 'the capacity is computed in a way that is not understood')
                    return m.set(cap=None)
            r = roles.role(ev, st, eng)
            if r and r[0] == 'pop' and r[1] == 'S':
                return m.set(cur=r[2], fired=None)
            if ev.kind == 'spawn':
                seen['spawn'] += 1
                args = list(ev.coro.a[1]) + [v for _, v in ev.coro.a[2]] if ev.coro.op == 'coro' else []
                if ev.coro.op == 'coro' and ev.coro.a[0].op == 'bound':
                    pass
                cur = m.get('cur')
                if any(cur is not None and mentions(plain(a), cur) for a in args):
                    if m.get('fired'):
                        eng.report('launch', ev.node, 'two minimisations are started for one simplex', st)
                    return m.set(fired=True)
                inner = [a for a in args if a.op not in ('inst', 'const', 'func', 'cls')]
                if any(y.op in ('elem', 'sub', 'phi', 'obj', 'dict') for a in inner for y in walk(a)):
                    ctx.undecided('launch', eng.loc(ev.node), 'the simplex of the task was not followed')
                    return m
                eng.report('launch', ev.node, 'a minimisation is started that is not for a simplex just taken from the queue', st)
            return m
    mon = M()
    before = len(ctx.violations)
    eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods, label='scheduler %s' % roles.main.qual)
    ctx.require(seen['pop'] and seen['spawn'], 'the scheduler takes no simplex from the queue, or starts no task')
    if len(ctx.violations) == before:
        ctx.ok('capacity', '%d abstract pops, %d starts' % (seen['pop'], seen['spawn']))
    # tasks
    for f, args, kws, params, node in task_entries(ctx, roles):
        class TM(TaskMonitor):
            def on(self, ev, m, st, eng):
                if ev.kind == 'call' and ev.awaited and isinstance(ev.fn, Function) and ev.fn.fid in self.opaque:
                    if m.get('fin'):
                        eng.report('retire', ev.node, 'a minimisation runs after its simplex was marked finished', st)
                if ev.kind == 'spawn' or ev.kind == 'call' and ev.name in ('asyncio.gather', 'asyncio.wait', 'asyncio.as_completed'):
                    eng.report('retire', ev.node, 'a task starts further concurrent work', st)
                return super().on(ev, m, st, eng)
        mon = TM(ctx, roles, f, params)
        b2 = len(ctx.violations)
        ctx.analyse(f, args, kws, monitor=mon, label='task %s' % f.qual)
        ctx.require('min' in mon.seen, 'task %s awaits no minimisation' % f.qual)
        if len(ctx.violations) == b2:
            ctx.ok('retire', f.qual)


def caller_node(eng):
    return eng.fstack[-1][2]


def c07(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('done', 'the search returns only after a check that no simplex is waiting or in progress and no position waits, with nothing added since')
    ctx.rule('awaited', 'every started task is awaited before the search returns')
    ctx.rule('yield', 'every round of a loop of the scheduler awaits, or takes an object from a queue')
    ctx.rule('takeup', 'when the scheduler suspends, the capacity is used up, or neither simplices nor positions are waiting')
    ctx.rule('launch', 'every simplex taken from the queue is minimised or marked finished; its task marks it finished')
    qS, qP = roles.qterm('S'), roles.qterm('P')
    limits = limit_terms(ctx, roles, 'num_minimize_parallel')
    seen = dict(ret=0, await_=0, pop=0, loops=0)

    def all_done(eng, st, node):
        return prop_holds(eng, st, qS, 'finished', node) is True and prop_holds(eng, st, qP, 'has_queued', node) is False

    def idle(eng, st, node):
        """True if nothing can be taken up now."""
        s_no = prop_holds(eng, st, qS, 'has_queued', node) is False
        p_no = prop_holds(eng, st, qP, 'has_queued', node) is False
        if s_no and p_no:
            return True
        for s, v in prop_values(eng, st, qS, 'num_running', node):
            if not any(eng.holds(s, T('cmp', '<', v, lim)) is False for lim in limits):
                return False
        return True

    def opaque_limit(eng, st):
        """The limit enters a value that is not just compared."""
        for _, fid, _ in eng.fstack:
            for x in st.frames.get(fid, {}).values():
                if isinstance(x, T) and x.op in ('bin', 'call', 'phi'):
                    for y in (eng.alternatives(x) if x.op == 'phi' else [x]):
                        if any(mentions(y, lim) for lim in limits) and y not in limits:
                            return True
        return any(isinstance(t, T) and t.op in ('bin', 'call', 'phi') and any(mentions(t, lim) for lim in limits) for k in st.facts for t in k[1:])

    class Main(Monitor):
        keep_locals = True
        def init(self):
            return EMPTY

        def back_edge(self, m, loop):
            return m

        def on(self, ev, m, st, eng):
            k = ev.kind
            if k == 'iter' and ev.while_:
                seen['loops'] += 1
                return m.set(**{'w' + ev.loop: 'n'})
            if k == 'iterend' and ev.while_:
                if m.get('w' + ev.loop) == 'n':
                    eng.report('yield', ev.node, 'a round of this loop neither suspends nor takes anything from a queue: other tasks cannot proceed', st, key=('yield', ev.node.lineno))
                return m.set(**{'w' + ev.loop: None})
            if k == 'loopdone' and ev.while_:
                m = m.set(**{'w' + ev.loop: None})
                return m.set(drained=True) if all_done(eng, st, ev.node) else m
            if k in ('break', 'return') and not m.get('drained') and all_done(eng, st, ev.node):
                return m.set(drained=True)
            if k == 'await':
                seen['await_'] += 1
                m = self.progress(m)
                if all_done(eng, st, ev.node):
                    m = m.set(drained=True)
                elif m.get('loop') and not m.get('drained') and not m.get('exc') and self.in_while(eng):
                    if not idle(eng, st, ev.node):
                        if opaque_limit(eng, st):
                            ctx.undecided('takeup', eng.funcname(), 'the capacity is computed in a way that is not understood')
                        else:
                            eng.report('takeup', ev.node, 'the scheduler suspends although simplices or positions may be waiting and capacity may be left', st, key='takeup')
                v = ev.value
                if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in ('asyncio.gather', 'asyncio.wait') and m.get('tasks'):
                    if any(mentions(a, c) for a in v.a[1] for c in self.containers(m)):
                        return m.set(gathered=True)
                return m
            if k == 'caught' and ev.by != 'finally':
                return m
            if k == 'exitexc' or k == 'raise':
                return m.set(exc=True)
            if k == 'spawn':
                m2 = m.set(cur=None, gathered=None, drained=None, loop=True, spawned=True)
                return m2.set(task=ev.result)
            if k == 'mutate' and m.get('task') is not None and any(mentions(a, m.get('task')) for a in ev.args):
                b = strip_at(ev.base)
                return m.set(task=None, tasks=tuple(sorted(set(m.get('tasks', ())) | {b})))
            if k == 'storesub' and m.get('task') is not None and (mentions(ev.value, m.get('task')) or mentions(ev.idx, m.get('task'))):
                b = strip_at(ev.base)
                return m.set(task=None, tasks=tuple(sorted(set(m.get('tasks', ())) | {b})))
            r = roles.role(ev, st, eng)
            if r is None:
                return m
            if r[0] == 'pop':
                m = self.progress(m)
                if r[1] == 'S':
                    seen['pop'] += 1
                    if m.get('cur') is not None:
                        self.lost(ev, st, eng)
                    return m.set(cur=r[2], loop=True)
                return m.set(loop=True)
            if r[0] in ('add',):
                return m.set(drained=None)
            if r[0] == 'fin' and r[1] == 'S':
                if m.get('cur') is not None and loose(r[2], m.get('cur')):
                    return m.set(cur=None)
            return m

        @staticmethod
        def containers(m):
            return m.get('tasks', ())

        @staticmethod
        def in_while(eng):
            return True

        @staticmethod
        def progress(m):
            d = {k: 'y' for k, v in m if k.startswith('w') and v == 'n'}
            return m.set(**d) if d else m

        @staticmethod
        def lost(ev, st, eng):
            eng.report('launch', ev.node, 'a simplex taken from the queue is neither minimised nor marked finished', st, key='lost')

    mon = Main()
    before = len(ctx.violations)
    eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods, label='scheduler %s' % roles.main.qual)
    ctx.require(seen['pop'], 'the scheduler takes no simplex from the queue')
    ctx.require(rets, 'the scheduler never returns')
    for s, _ in rets:
        m = s.mon
        if s.taint:
            ctx.undecided('done', roles.main.qual, str(sorted(s.taint)))
            continue
        if not m.get('drained'):
            ctx.bad('done', ctx.loc(roles.main), roles.main.qual, 'the search can return although simplices or positions are still pending or in progress')
        if m.get('cur') is not None:
            ctx.bad('launch', ctx.loc(roles.main), roles.main.qual, 'the search can return with a simplex taken from the queue that is not minimised')
    fm, eng, rets, raises = focus_run(ctx, roles, False, None)
    for s, _ in rets:
        m = s.mon
        if s.taint:
            continue
        if m.get('unknown'):
            ctx.undecided('awaited', roles.main.qual, m.get('unknown'))
        elif m.get('run'):
            ctx.bad('awaited', ctx.loc(roles.main), roles.main.qual, 'the search can return without awaiting the tasks it started')
    if len(ctx.violations) == before:
        ctx.ok('scheduler', '%s: %d loop rounds, %d suspensions, %d pops' % (roles.main.qual, seen['loops'], seen['await_'], seen['pop']))
    for f, args, kws, params, node in task_entries(ctx, roles):
        mon = TaskMonitor(ctx, roles, f, params)
        eng, rets, raises = Engine(ctx.prog, mon, opaque=mon.opaque), None, None
        rets, raises = eng.run(f, args, kws)
        if 'fin' not in mon.seen and 'addres' not in mon.seen:
            ctx.undecided('launch', f.qual, 'results are not recorded by the task itself')
            continue
        for s, _ in rets:
            if not s.mon.get('min'):
                ctx.bad('launch', ctx.loc(f), f.qual, 'the task can end without minimising its simplex')
            elif not s.mon.get('fin') and not s.taint:
                ctx.bad('launch', ctx.loc(f), f.qual, 'the task can end without marking its simplex finished: the search would never end')
            else:
                ctx.ok('launch', f.qual)


def has_call(t, method):
    """Sub-terms that are calls of a method with the given name(s)."""
    ms = (method,) if isinstance(method, str) else method
    return [y for y in walk(t) if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] in ms]


def comp_conds(t):
    """All filter conditions of nested comprehensions in a term."""
    res = []
    for y in walk(t):
        if y.op == 'comp':
            for g in y.a[2]:
                res += [(y, c) for c in g[2]]
    return res


class FocusMonitor(Monitor):
    """Follows one (or two) chosen tasks exactly through the scheduler: the
    containers that hold them are tracked element by element.

    fail: the tasks end with an exception; done_at: at the n-th suspension
    after they were started (None: they do not end by themselves)."""

    def __init__(self, ctx, roles, fail, done_at, two=False):
        self.ctx, self.roles, self.fail, self.done_at, self.two = ctx, roles, fail, done_at, bool(two)
        #: with two tasks: the one that fails (None: both)
        self.mixed = two - 10 if two is not True and two >= 10 else None
        self.seen = dict(spawn=0, exam=0, susp=0)
        self.spawned_by = None

    def init(self):
        return EMPTY

    # -- the chosen tasks
    def fails(self, f):
        return self.fail and (self.mixed is None or f.a[0] == self.mixed)

    def spawn_term(self, st, t):
        m = st.mon
        n = 1 if self.two and T('focus', 0) in m.get('run', ()) + m.get('fin', ()) else 0
        return T('focus', n)

    def q(self, f, name):
        return call(T('attr', f, name, None), [])

    def set_done(self, eng, st, f, val):
        d = self.q(f, 'done')
        eng.purge(st, lambda t: t is d)
        self.force(eng, st, d, val)

    @staticmethod
    def force(eng, st, term, val):
        k = eng.canon(term)
        if not isinstance(k, bool):
            key, want = k
            if isinstance(want, bool):
                st.facts[key] = want if val else not want

    def start(self, eng, st, f):
        self.set_done(eng, st, f, False)
        self.force(eng, st, self.q(f, 'cancelled'), False)
        exc = self.q(f, 'exception')
        if self.mixed is not None and not self.fails(f):
            self.force(eng, st, exc, False)
            self.force(eng, st, T('cmp', 'is', exc, NONE), True)
        elif self.fail:
            self.force(eng, st, exc, True)
            self.force(eng, st, T('cmp', 'is', exc, NONE), False)

    def on(self, ev, m, st, eng):
        m2 = self.step(ev, m, st, eng)
        return m2

    def known(self, eng, st, args):
        items = eng.seq_items(st, T('tuple', tuple(args)))
        return items

    def step(self, ev, m, st, eng):
        k = ev.kind
        if k == 'spawn':
            f = ev.result
            if f.op != 'focus':
                return m
            self.seen['spawn'] += 1
            if ev.recv_group:
                return m.set(unknown='the task is started in a task group')
            if f in m.get('run', ()) or f in m.get('fin', ()):
                return m
            self.start(eng, st, f)
            return m.set(run=m.get('run', ()) + (f,), n=0)
        run = m.get('run', ())
        if not run and not m.get('fin'):
            return m
        if k == 'mutate' and ev.args:
            if any(y.op == 'focus' for a in ev.args for y in (a, strip_at(a))) and self.is_focus_arg(ev):
                c = st.heap.get((ev.base, '#'))
                if not (ev.base.op == 'obj' and c is not None and c.op == 'seq'):
                    return m.set(unknown='the task is kept in a container that is not followed (%s)' % eng.loc(ev.node))
            return m
        if k == 'storesub' and (strip_at(ev.value).op == 'focus' or strip_at(ev.idx).op == 'focus'):
            return m.set(unknown='the task is kept in a container that is not followed (%s)' % eng.loc(ev.node))
        if k in ('call', 'pcall') and ev.name == '.add_done_callback':
            return m.set(unknown='a callback is attached to the task')
        if k == 'call' and ev.name in ('asyncio.gather', 'asyncio.wait'):
            args = ev.args if ev.name == 'asyncio.gather' else [T('star', strip_iter(a)) for a in ev.args[:1]]
            items = self.known(eng, st, args)
            if items is None:
                if any(mentions(a, f) for a in ev.args for f in run) or True:
                    return m.set(unknown='what is awaited at %s is not known exactly' % eng.loc(ev.node))
            mode = 'all'
            if ev.name == 'asyncio.gather':
                mode = 'all' if ev.kwargs.get('return_exceptions') is TRUE else 'first'
                if ev.kwargs.get('return_exceptions') not in (None, TRUE, FALSE):
                    mode = '?'
            elif ev.kwargs.get('timeout') not in (None, NONE):
                mode = 'some'
            elif ev.kwargs.get('return_when') is not None:
                rw = str(ev.kwargs.get('return_when'))
                mode = 'all' if 'ALL_COMPLETED' in rw else 'some'
            return m.set(aw=(ev.result, tuple(f for f in run if f in items), mode))
        if k == 'call' and ev.name in ('asyncio.as_completed', 'asyncio.wait_for', 'asyncio.shield'):
            return m.set(unknown='%s is used' % ev.name)
        if k == 'call' and ev.name == '.cancel' and ev.recv is not None and strip_at(ev.recv).op == 'focus':
            return m.set(canc=True)
        if k in ('call', 'pcall') and ev.name in ('.exception', '.result') and ev.recv is not None and strip_at(ev.recv).op == 'focus':
            self.seen['exam'] += 1
            return m
        if k == 'callret' and ev.name == '.result' and ev.recv is not None and strip_at(ev.recv).op == 'focus' and self.fails(strip_at(ev.recv)):
            return DEAD
        if k == 'await':
            self.seen['susp'] += 1
            v = ev.value
            aw = m.get('aw')
            if v.op == 'focus':
                m = m.set(now=((v,), 'direct'))
            elif aw is not None and v is aw[0]:
                m = m.set(now=aw[1:])
                if aw[2] == 'all':
                    m = self.finish(m, aw[1])
            else:
                m = m.set(now=None)
            n = m.get('n', 0)
            if any(self.fails(f) for f in run + m.get('fin', ())) and self.done_at is not None and n > self.done_at + 3 and not m.get('unknown') and not m.get('exc') and not (m.get('now') and m.get('now')[0]):
                eng.report('examine', ev.node, 'the scheduler goes on suspending after a minimisation failed, without raising its exception', st, key='examine')
            return m
        if k == 'resumed':
            now = m.get('now')
            m = m.set(n=min(m.get('n', 0) + 1, (self.done_at or 0) + 5), now=None)
            if now is not None and now[0]:
                fs, mode = now
                if mode in ('first', 'direct'):
                    if any(self.fails(f) for f in fs):
                        return DEAD
                    m = self.finish(m, fs)
                    for f in fs:
                        self.set_done(eng, st, f, True)
                elif mode == 'all':
                    for f in fs:
                        self.set_done(eng, st, f, True)
            for f in run:
                if self.done_at is not None:
                    self.set_done(eng, st, f, m.get('n') >= self.done_at)
            return m
        if k == 'caught' and ev.by != 'finally':
            return m
        if k in ('raise', 'exitexc'):
            return m
        return m

    @staticmethod
    def is_focus_arg(ev):
        return ev.method in ('add', 'append', 'insert', 'appendleft', 'put', 'put_nowait', 'setdefault', 'push')

    @staticmethod
    def finish(m, fs):
        return m.set(run=tuple(f for f in m.get('run', ()) if f not in fs), fin=tuple(sorted(set(m.get('fin', ())) | set(fs))))


def focus_run(ctx, roles, fail, done_at, two=False, label=''):
    mon = FocusMonitor(ctx, roles, fail, done_at, two)

    def setup(st):
        typer = ctx.prog.typer if hasattr(ctx.prog, 'typer') else None
        st.mon = mon.init()
    eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods, focus=True,
                                    label='scheduler %s, following a task%s' % (roles.main.qual, label))
    ctx.require(mon.seen['spawn'], 'the scheduler starts no task')
    return mon, eng, rets, raises


def c09(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('running', 'however the scheduler ends, every task it started has ended')
    ctx.rule('thread', 'the thread of a search is joined on every path')
    ctx.rule('loop', "every event loop that is created is closed on every path, and no other loop is closed")
    before = len(ctx.violations)
    mon, eng, rets, raises = focus_run(ctx, roles, False, None)
    n = 0
    for s, v in list(rets) + list(raises):
        m = s.mon
        if not m.get('run') and not m.get('fin') or s.taint:
            continue
        n += 1
        exc = v.op == 'exc'
        if m.get('unknown'):
            ctx.undecided('running', roles.main.qual, m.get('unknown'))
        elif m.get('run'):
            if exc and v.a[0] == 'B' and m.get('canc') and str(v.a[1]) == 'cancel':
                continue
            ctx.bad('running', ctx.loc(roles.main), roles.main.qual, 'the search can %s while a minimisation it started is still running' % ('fail' if exc else 'return'))
    ctx.require(n, 'no exit of the scheduler after a task was started')
    if len(ctx.violations) == before:
        ctx.ok('running', '%s: %d exits after a task was started' % (roles.main.qual, n))
    sync_paths(ctx, roles, 'C09')


def ways(two):
    return '' if two is False else ', twice' if two is True else ', next to one that succeeds (%d)' % (two - 10)


def c08(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('examine', 'in every round of the scheduler that suspends, the exceptions of finished tasks are looked at and raised before the tasks are dropped')
    ctx.rule('swallow', 'no path catches an error of a minimisation and then continues to a normal end')
    ctx.rule('thread', 'the search thread hands over exactly one outcome on every path, including for exceptions that are not Exception, and the caller raises it')
    before = len(ctx.violations)
    exam = 0
    for done_at, two in ((1, False), (2, False), (3, False), (1, True), (1, 10), (1, 11)) if ctx.tier == 'quick' else ((1, False), (2, False), (3, False), (4, False), (1, True), (2, True), (1, 10), (1, 11), (2, 10), (2, 11)):
        mon, eng, rets, raises = focus_run(ctx, roles, True, done_at, two, ' that fails at suspension %d%s' % (done_at, ways(two)))
        exam += mon.seen['exam']
        for s, _ in rets:
            if not any(mon.fails(f) for f in s.mon.get('run', ()) + s.mon.get('fin', ())) or s.taint:
                continue
            if s.mon.get('unknown'):
                ctx.undecided('examine', roles.main.qual, s.mon.get('unknown'))
            else:
                ctx.bad('swallow', ctx.loc(roles.main), roles.main.qual, 'the search can return normally although a minimisation failed')
        if any((s.mon.get('run') or s.mon.get('fin')) and e.a[0] == 'V' for s, e in raises):
            ctx.ok('examine', '%s: failing at suspension %d%s' % (roles.main.qual, done_at, ways(two)))
    if len(ctx.violations) == before:
        ctx.ok('examine', '%s: %d looks at the finished task' % (roles.main.qual, exam))

    # the task and everything it calls
    class Swallow(Monitor):
        def init(self):
            return EMPTY

        users = 0

        def on(self, ev, m, st, eng):
            if ev.kind == 'usercall' or ev.kind == 'call' and ev.unknown and ev.fn.op in ('in', 'attr'):
                Swallow.users += 1
            if ev.kind == 'caught' and ev.exc.a[0] in ('E', 'B') and str(ev.exc.a[1]) == 'user':
                return m.set(swallow=eng.loc(ev.node))
            return m
    for f, args, kws, params, node in task_entries(ctx, roles):
        Swallow.users = 0
        sm = Swallow()
        keep = {x for x in roles.data_methods}
        eng, rets, raises = ctx.analyse(f, args, kws, monitor=sm, opaque=keep, label='task %s' % f.qual)
        ctx.require(Swallow.users, 'the task %s never calls the gap function' % f.qual)
        ctx.require(any(e.a[0] in ('E', 'B') and str(e.a[1]) == 'user' for _, e in raises) or any(s.mon.get('swallow') for s, _ in rets), 'no exception of the gap function leaves %s' % f.qual)
        bad = False
        for s, _ in rets:
            if s.mon.get('swallow') and not s.taint:
                bad = True
                ctx.bad('swallow', s.mon.get('swallow'), f.qual, 'an exception of the gap function is caught here and the minimisation continues')
        if not any(e.a[0] == 'B' and str(e.a[1]) == 'user' for _, e in raises) and not bad:
            ctx.bad('swallow', ctx.loc(f), f.qual, 'exit and cancellation signals raised by the gap function do not leave the minimisation')
        if not bad:
            ctx.ok('swallow', '%s: %d calls of the gap function (abstract)' % (f.qual, Swallow.users))
    # run_async
    sm = Swallow()

    class Pass(Monitor):
        def init(self):
            return EMPTY

        def on(self, ev, m, st, eng):
            if ev.kind == 'caught' and ev.exc.a[0] in ('E', 'B') and str(ev.exc.a[1]).startswith('await:'):
                return m.set(swallow=eng.loc(ev.node))
            return m
    inits = {f.fid for f in ctx.prog.functions.values() if f.name == '__init__'}
    eng, rets, raises = ctx.analyse(roles.run_async, monitor=Pass(), opaque=inits | {roles.main.fid}, label='run_async')
    for s, _ in rets:
        if s.mon.get('swallow') and not s.taint:
            ctx.bad('swallow', s.mon.get('swallow'), roles.run_async.qual, 'an error of the search is caught here and a result is returned')
    ctx.require(any(str(e.a[1]).startswith('await:') for _, e in raises) or any(s.mon.get('swallow') for s, _ in rets), 'run_async does not pass on errors of the search')
    ctx.ok('swallow', 'run_async')
    sync_paths(ctx, roles, 'C08')


PUT = ('.put', '.put_nowait', '.append', '.set_exception', '.set_result', '.appendleft', '.add')


def sync_paths(ctx, roles, pid):
    """The synchronous wrapper: own loop, caller's loop, thread."""
    f = roles.run_sync
    threads = {}

    class M(Monitor):
        def init(self):
            return EMPTY

        def on(self, ev, m, st, eng):
            k = ev.kind
            if k == 'call' and ev.name == 'threading.Thread':
                tgt = ev.kwargs.get('target') or (ev.args[1] if len(ev.args) > 1 else None)
                tk = ev.kwargs.get('kwargs')
                di = eng.dict_items(st, tk) if tk is not None else None
                if di is not None:
                    tk = [(cval(x) if x is not None and x.op == 'const' else '**', y) for x, y in di]
                elif tk is not None:
                    tk = [('**', tk)]
                threads[ev.result] = (tgt, ev.kwargs.get('args'), tk, ev.node, ev.kwargs.get('daemon'))
                return m.set(th=ev.result)
            if k in ('call',) and ev.name == '.start' and m.get('th') is not None and strip_at(ev.recv) is m.get('th'):
                return m.set(started=True)
            if k == 'callret' and ev.name == '.join' and m.get('th') is not None and strip_at(ev.recv) is m.get('th'):
                if ev.args or ev.kwargs and 'timeout' in ev.kwargs:
                    return m.set(joined='timeout')
                return m.set(joined='yes')
            if k == 'callret' and ev.name in ('asyncio.new_event_loop', 'asyncio.events.new_event_loop'):
                return m.set(loops=tuple(sorted(set(m.get('loops', ())) | {ev.result})))
            if k == 'call' and ev.name == '.close' and ev.recv is not None:
                t = strip_at(ev.recv)
                if t in m.get('loops', ()):
                    return m.set(loops=tuple(x for x in m.get('loops') if x is not t) or None)
                alts = eng.alternatives(t)
                if any(a.op == 'call' and a.a[0].op == 'ext' and a.a[0].a[0] in ('asyncio.get_event_loop', 'asyncio.get_running_loop') for a in alts):
                    if pid == 'C09':
                        eng.report('loop', ev.node, "the caller's event loop is closed", st)
                return m
            if k == 'call' and ev.name == '.get' and m.get('started'):
                return m.set(got=tuple(sorted(set(m.get('got', ())) | {strip_at(ev.recv)})))
            if k == 'cm_exit' and ev.cm.op == 'call' and ev.cm.a[0] == ext('contextlib.closing') and ev.cm.a[1]:
                return m.set(loops=tuple(x for x in m.get('loops', ()) if x is not strip_at(ev.cm.a[1][0])) or None)
            if k == 'call' and ev.name == '.submit':
                return m.set(fut=ev.result)
            if k == 'call' and ev.name in ('.result', '.exception') and m.get('fut') is not None and strip_at(ev.recv) is m.get('fut'):
                return m.set(fut=None)
            if k == 'caught' and ev.exc.a[0] in ('E', 'B') and str(ev.exc.a[1]).startswith('await:'):
                return m.set(swallow=eng.loc(ev.node))
            if k == 'storeattr' or k == 'storeglobal':
                return m
            return m
    eng, rets, raises = ctx.analyse(f, monitor=M(), opaque={roles.run_async.fid}, label='run')
    for s, v in rets:
        m = s.mon
        if s.taint:
            continue
        if pid == 'C08':
            if m.get('swallow'):
                ctx.bad('swallow', m.get('swallow'), f.qual, 'an error of the search is caught here and the call returns normally')
            if m.get('fut') is not None:
                ctx.bad('thread', ctx.loc(f), f.qual, 'the outcome of the thread is not retrieved')
    if pid == 'C09':
        for s, v in list(rets) + list(raises):
            m = s.mon
            if s.taint:
                continue
            if m.get('loops'):
                ctx.bad('loop', ctx.loc(f), f.qual, 'an event loop created here is not closed on every path')
            if m.get('started') and m.get('joined') != 'yes':
                if m.get('started') and v.op == 'exc' and str(v.a[1]) in ('call:.start', 'call:.join'):
                    continue
                ctx.bad('thread', ctx.loc(f), f.qual, 'the call can end without waiting for the thread it started')
        ctx.ok('loop', 'run: %d path classes' % (len(rets) + len(raises)))
    ctx.require(rets, 'run never returns')
    if not threads:
        ctx.undecided('thread', f.qual, 'no thread is started')
    for th, (tgt, targs, tkw, node, daemon) in sorted(threads.items()):
        fv, pre, kws = tgt, [], []
        while fv is not None and fv.op in ('partial', 'bound'):
            if fv.op == 'partial':
                fv, pre, kws = fv.a[0], list(fv.a[1]) + pre, list(fv.a[2]) + kws
            else:
                fv, pre = fv.a[0], [fv.a[1]] + pre
        if fv is None or fv.op != 'func':
            ctx.undecided('thread', f.qual, 'the function run by the thread was not found')
            continue
        g = ctx.prog.functions[fv.a[0]]
        if targs is not None:
            pre = pre + (list(targs.a[0]) if targs.op == 'tuple' else [T('star', targs)])
        if tkw is not None:
            kws = kws + tkw

        class TM(Monitor):
            def init(self):
                return EMPTY

            def on(self, ev, m, st, eng):
                k = ev.kind
                if k == 'mutate' and '.' + ev.method in PUT or k == 'call' and ev.name in PUT:
                    recv = strip_at(ev.base if k == 'mutate' else ev.recv)
                    if m.get('lastput') == getattr(ev.node, 'lineno', 0):
                        return m
                    isexc = any(y.op == 'exc' for a in ev.args for y in walk(a))
                    return m.set(puts=inc(m.get('puts')), lastput=ev.node.lineno, exc=isexc or m.get('exc'), excq=recv if isexc else m.get('excq'), resq=m.get('resq') if isexc else recv)
                if k == 'storesub' or k == 'storenonlocal' or k == 'storeattr':
                    return m.set(puts=inc(m.get('puts')), stored=True, exc=(ev.value.op == 'exc') or m.get('exc'))
                if k == 'callret' and ev.name and ev.name.endswith('new_event_loop'):
                    return m.set(loops=tuple(sorted(set(m.get('loops', ())) | {ev.result})))
                if k == 'call' and ev.name == '.close' and ev.recv is not None:
                    t = strip_at(ev.recv)
                    return m.set(loops=tuple(x for x in m.get('loops', ()) if x is not t) or None)
                if k == 'cm_exit' and ev.cm.op == 'call' and ev.cm.a[0] == ext('contextlib.closing') and ev.cm.a[1]:
                    return m.set(loops=tuple(x for x in m.get('loops', ()) if x is not strip_at(ev.cm.a[1][0])) or None)
                if k == 'call' and ev.awaited:
                    return m.set(ran=True)
                return m
        tm = TM()
        eng2, trets, traises = ctx.analyse(g, pre, kws, monitor=tm, opaque={roles.run_async.fid}, label='thread %s' % g.qual)
        if pid == 'C09':
            for s, v in list(trets) + list(traises):
                if s.mon.get('loops') and not s.taint:
                    ctx.bad('loop', ctx.loc(g), g.qual, 'an event loop created in the thread is not closed on every path')
            ctx.ok('loop', 'thread: %d path classes' % (len(trets) + len(traises)))
            continue
        excqs, resqs = set(), set()
        any_exc = False
        for s, v in list(trets) + list(traises):
            m = s.mon
            if m.get('puts', 0) == 0:
                kind = 'exits by an exception that is not an Exception' if v.op == 'exc' and v.a[0] == 'B' else 'fails' if v.op == 'exc' else 'succeeds'
                if v.op == 'exc' and str(v.a[1]).startswith('call:.put'):
                    continue
                ctx.bad('thread', ctx.loc(g), g.qual, 'nothing is handed to the caller when the search %s: the call blocks forever' % kind)
            elif v.op == 'exc' and not m.get('exc') and str(v.a[1]).startswith('await'):
                ctx.bad('thread', ctx.loc(g), g.qual, 'the exception is not handed to the caller when the search fails')
            if m.get('excq') is not None:
                excqs.add(m.get('excq'))
            if m.get('resq') is not None:
                resqs.add(m.get('resq'))
            any_exc = any_exc or bool(m.get('exc'))
        if not any_exc:
            ctx.bad('thread', ctx.loc(g), g.qual, 'exceptions of the search are not handed to the caller')
        ctx.ok('thread', '%s: %d path classes' % (g.qual, len(trets) + len(traises)))
        # the caller raises what it was handed: follow it with the
        # outcome of a failed thread in place
        stored = any(s2.mon.get('stored') for s2, _ in list(trets) + list(traises))
        if stored or not excqs or not excqs.isdisjoint(resqs) or not all(q.op in ('call', 'obj') for q in excqs | resqs):
            ctx.undecided('thread', f.qual, 'how result and exception are handed over was not understood')
            continue
        EXC = T('handed')

        class Hand(Monitor):
            def init(self):
                return EMPTY

            def on(self, ev, m, st, eng):
                k = ev.kind
                recv = strip_at(ev.recv) if ev.recv is not None else strip_at(ev.base) if k == 'mutate' else None
                if k == 'callret' and ev.name == '.start' and recv is not None and recv.op == 'call' and recv.a[0] == ext('threading.Thread'):
                    for q in excqs | resqs:
                        if (q, '#') in st.heap:
                            st.heap[(q, '#')] = T('seq', (EXC,) if q in excqs else ())
                        FocusMonitor.force(eng, st, call(T('attr', q, 'empty', None), []), q in resqs)
                        FocusMonitor.force(eng, st, T('cmp', '>', call(T('attr', q, 'qsize', None), []), const(0)), q in excqs)
                    return m.set(started=True)
                if not m.get('started') or recv is None:
                    return m
                if k == 'call' and ev.name == '.get' and recv in resqs and not ev.args and not ev.kwargs:
                    eng.report('thread', ev.node, 'after a failed search the caller waits for a result that never comes', st, key='blocks')
                    return DEAD
                if k in ('mutate', 'callret') and (ev.method or ev.name[1:]) in ('get_nowait', 'get') and recv in resqs:
                    return DEAD
                if k == 'mutate' and ev.method == 'get_nowait' and recv in excqs:
                    return m.set(got=True)
                return m

            def caught(self, ev):
                return ev.exc.a[0] == 'X' and str(ev.exc.a[1]) in ['call:.get_nowait:%d' % q.id for q in excqs]
        base = Hand.on

        def on(self, ev, m, st, eng):
            if ev.kind == 'caught' and m.get('started') and self.caught(ev):
                return DEAD
            return base(self, ev, m, st, eng)
        Hand.on = on
        e3, hrets, hraises = ctx.analyse(f, monitor=Hand(), opaque={roles.run_async.fid}, label='run, after the thread failed')
        for s2, v in hrets:
            if s2.mon.get('started') and not s2.taint:
                ctx.bad('thread', ctx.loc(f), f.qual, 'the call can return normally although the search in the thread failed')
        ctx.ok('thread', 'caller: %d path classes after the thread failed' % (len(hrets) + len(hraises)))
