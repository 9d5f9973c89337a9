"""Rules about how a search is set up: options, resumed state, initial mesh."""
import ast

from ..engine import Monitor, prog_types, strip_at
from ..loader import Function
from ..terms import T, const, cval, walk, show, NONE, TRUE, FALSE, attr
from .. import roles as R
from .search import plain, mentions, opt_attrs

#: conversions that keep what an option means
KEEP = {'builtins.bool', 'builtins.int', 'builtins.float', 'builtins.tuple', 'builtins.list', 'builtins.dict', 'numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'copy.deepcopy',
        'builtins.str', 'os.fspath', 'pathlib.Path', 'types.MappingProxyType', 'operator.index', 'numpy.asanyarray', 'builtins.sorted_'}
CHANGE = {'builtins.max', 'builtins.min', 'builtins.abs', 'builtins.round', 'builtins.len', 'builtins.sum', 'math.ceil', 'math.floor', 'numpy.abs', 'builtins.reversed', 'builtins.sorted', 'builtins.set',
          'builtins.frozenset', 'numpy.unique', 'numpy.clip', 'numpy.maximum', 'numpy.minimum'}


def alts(eng, t):
    return eng.alternatives(t) if t.op == 'phi' else {t}


def keep(t):
    """Strip conversions that keep the value."""
    while True:
        t = plain(t)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in KEEP and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'un' and t.a[0] == 'not' and t.a[1].op == 'un' and t.a[1].a[0] == 'not':
            t = t.a[1].a[1]
        elif t.op == 'comp' and item_copies(t) is not None:
            t = item_copies(t)
        else:
            return t


def item_copies(t):
    """The collection of which a comprehension has a copy of every element."""
    from .search import comp_conds
    v = t.a[1]
    if comp_conds(t) or not isinstance(v, T) or len(t.a[2]) != 1 or t.a[0] not in ('list', 'gen'):
        return None
    v = strip_at(v)
    while v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in ('copy.copy', 'copy.deepcopy') and v.a[1]:
        v = strip_at(v.a[1][0])
    return v.a[0] if v.op == 'elem' else None


def deps(eng, st, t, n=None):
    """Names of the parameters of the entry a value depends on."""
    res, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'in':
            res.add(x.a[0])
        elif x.op == 'phi':
            todo += eng.phis.get(x, ())
        for y in walk(x):
            if y is not x:
                todo.append(y)
        if x.op in ('obj', 'inst'):
            for (b, _), v in st.heap.items():
                if b is x and isinstance(v, T):
                    todo.append(v)
        if n is not None and x.op == 'inst':
            todo += list((n.args(x) or {}).values())
    return res


def about(st, x):
    """Whether the path decided something about x."""
    return any(any(isinstance(y, T) and mentions(y, x) for y in k[1:]) for k in st.facts)


def judge(eng, st, t, x):
    """Is the value the option x as given?  'same', ('changed', how) or None."""
    bad = None
    for a in alts(eng, t):
        k = keep(a)
        if k is x:
            continue
        if k.op in ('const', 'bin', 'un', 'cmp', 'list', 'tuple') or k.op == 'call' and k.a[0].op == 'ext' and k.a[0].a[0] in CHANGE or k.op == 'in' or k.op == 'default':
            if k.op == 'const' and (about(st, x) or t.op == 'phi'):
                return None
            bad = ('changed', show(a))
        elif k.op in ('or', 'and', 'ite'):
            return None
        elif x.a[0] not in deps(eng, st, k) and k.op in ('attr', 'glob', 'sub'):
            bad = ('changed', show(a))
        else:
            return None
    return bad or 'same'


def ctor_args(prog, ev):
    """Arguments of an instantiation by parameter name."""
    f = prog.find_method(ev.cls, '__init__')
    d = dict(ev.kwargs)
    if f is not None:
        a = f.node.args
        for n, v in zip([x.arg for x in a.posonlyargs + a.args][1:], ev.args):
            d.setdefault(n, v)
    return d


LOAD = ('fsc.hdf5_io.load', 'fsc.hdf5_io.from_hdf5_file', 'h5py.File', 'builtins.open')


def handler_types(ev):
    """Names of the classes a handler catches."""
    h = ev.handler
    if h is None:
        t = getattr(ev.node, 'type', None)
        if isinstance(t, ast.AST):
            return tuple(ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t]))
        return ('BaseException',)
    if isinstance(h, T):
        res = [y.a[0] for y in walk(h) if y.op == 'ext']
        return tuple(res) or (show(h),)
    return tuple(str(x) for x in (h if isinstance(h, (list, tuple, set, frozenset)) else [h]))


class Start(Monitor):
    """Follows run_async up to the start of the scheduler; its state lists the
    objects created on the path and what was added to the queues."""

    def __init__(self, prog, roles):
        self.prog, self.roles = prog, roles
        self.runs = []
        self.badcalls = []

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k == 'new':
            d = ctor_args(self.prog, ev)
            m = tuple(x for x in m if x[1] is not ev.inst)
            return m + (('new', ev.inst, ev.cls, tuple(sorted(d.items(), key=lambda kv: kv[0])), ev.node, eng.func),)
        if k == 'newdone':
            self.filled(ev, m, st, eng)
            return m
        if k in ('callret', 'callexc') and ev.name in LOAD:
            m = tuple(x for x in m if x[1] != 'load')
            return m + ((('loaded' if k == 'callret' else 'failed'), 'load', ev.result if k == 'callret' else ev.exc),)
        if k == 'caught' and ev.exc.op == 'exc' and isinstance(ev.exc.a[1], str) and ev.exc.a[1].split(':')[-1] in LOAD:
            return m + (('caught', 'handler', handler_types(ev), ev.exc, ev.node, eng.func),)
        if k == 'call' and ev.fn is self.roles.main:
            self.runs.append((st.copy(), ev.args[0], m, ev.node, eng.func))
            return m
        if k == 'enter' and isinstance(ev.fn, Function) and ev.fn.cls is not None and ev.fn.name == 'add_objects':
            vals = list(ev.args.values())
            if vals[1:] and vals[0].op == 'inst' and not any(x[0] == 'add' and x[1] is vals[0] and x[2] is vals[1] for x in m):
                return m + (('add', vals[0], vals[1], None, ev.node, eng.func),)
        return m


    def filled(self, ev, m, st, eng):
        """What a constructor that is not entered keeps of its arguments."""
        f = self.prog.find_method(ev.cls, '__init__')
        x = next((x for x in m if x[0] == 'new' and x[1] is ev.inst), None)
        if f is None or x is None or f.fid not in eng.opaque:
            return
        d = dict(x[3])
        for name, vs in prog_types(self.prog).init_of(ev.cls).items():
            vs = set(vs)
            v = vs.pop() if len(vs) == 1 else None
            if v is not None and v.op == 'in' and v.a[0] in d and (ev.inst, name) not in st.heap:
                st.heap[(ev.inst, name)] = d[v.a[0]]


def starts(ctx, roles):
    """All ways to reach the scheduler."""
    mon = Start(ctx.prog, roles)
    f = roles.run_async
    keepers = {g.fid for c in ctx.prog.classes.values() for g in [ctx.prog.find_method(c, 'add_objects')] if g is not None}
    eng, rets, raises = ctx.analyse(f, monitor=mon, opaque=(set(roles.data_methods) - keepers) | {roles.main.fid}, max_states=600, label='run_async up to the scheduler')
    ctx.require(mon.runs, 'run_async does not reach the scheduler')
    seen, runs = set(), []
    for r in mon.runs:
        k = (r[0].key(), r[2])
        if k not in seen:
            seen.add(k)
            runs.append(r)
    return eng, runs, raises


def fact(st, key):
    return st.facts.get(key)


def truth(eng, st, t):
    return eng.holds(st, t)


class News:
    """The objects created on one path."""

    def __init__(self, run):
        self.st, self.ctl, self.m, self.node, self.func = run

    def args(self, inst):
        for x in self.m:
            if x[0] == 'new' and x[1] is inst:
                return dict(x[3])
        return None

    def of(self, cls):
        return [x for x in self.m if x[0] == 'new' and x[2] is cls]

    def adds(self, inst):
        return [x for x in self.m if x[0] == 'add' and x[1] is inst]

    def where(self, ctx, inst):
        for x in self.m:
            if x[0] == 'new' and x[1] is inst:
                return ctx.loc(x[5], x[4]), x[5].qual
        return ctx.loc(self.func, self.node), self.func.qual


def reach(st, root):
    """Objects reachable through attributes of an instance."""
    res, todo = [], [root]
    while todo:
        x = todo.pop()
        if x in res:
            continue
        res.append(x)
        for (b, n), v in st.heap.items():
            if b is x and isinstance(v, T) and v.op == 'inst':
                todo.append(v)
    return res


def clean(ctx, st, rule, construct, why='imprecise path'):
    if st.taint:
        ctx.undecided(rule, construct, '%s: %s' % (why, sorted(st.taint)))
        return False
    return True


KEPT = ('save_file', 'save_delay', 'num_minimize_parallel', 'recheck_pos_dist', 'recheck_count_cutoff', 'simplex_check_cutoff')


def c10(ctx):
    prog = ctx.prog
    roles = R.get(prog)
    ctx.rule('forward', 'run hands all of its arguments on to run_async, in the calling thread and in a thread of its own')
    ctx.rule('kept', 'the options %s are stored as given, and what is stored is used' % ', '.join(KEPT))
    ctx.rule('component', 'limits and periodicity reach the coordinate system, the gap threshold the result container, the distance cutoff depends on the feature size only, the initial mesh and the saved state on their options')
    ctx.rule('stencil', "a stencil given is used, times the distance cutoff, 'auto' stands for the automatic stencil, None for none")
    ctx.rule('fake', 'a fake potential built from the results of the same search is given to the minimiser exactly if it was asked for')
    ctx.rule('precedence', 'among the settings of the minimiser those of the caller come before all defaults, which depend on the gap threshold (ftol) and the feature size (xtol) only')
    ctx.rule('minimiser', 'the settings of the minimiser reach every minimisation as they are, except for the tolerance of the stage with the fake potential')
    ctx.rule('used', 'no option of run_async is ignored')
    forward(ctx, roles)
    eng, runs, raises = starts(ctx, roles)
    news = [News(r) for r in runs]
    params = [x.arg for x in roles.run_async.node.args.kwonlyargs + roles.run_async.node.args.args]
    for n in news:
        a = n.args(n.ctl) or {}
        for p in params:
            v = keep(a[p]) if p in a else None
            if v is not None and v.op == 'in' and v.a[0] != p and not n.st.taint:
                ctx.bad('forward', *n.where(ctx, n.ctl), 'option %s is given to the scheduler as %s' % (v.a[0], p))
            elif v is not None:
                ctx.ok('forward', 'option %s' % p)
    kept(ctx, roles, eng, news)
    component(ctx, roles, eng, news)
    stencil(ctx, roles, eng, news)
    calls = minimiser_calls(ctx, roles)
    settings(ctx, roles, eng, news, calls)
    minimiser(ctx, roles)
    used(ctx, roles, eng, news, raises)


# ---------------------------------------------------------------------------
class Forward(Monitor):
    def __init__(self, target):
        self.target = target
        self.calls = []
        self.threads = []

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and ev.fn is self.target:
            self.calls.append((list(ev.args), dict(ev.kwargs), ev.node, eng.func, st.copy()))
        if ev.kind == 'call' and ev.name in ('threading.Thread', '.submit', 'threading.Timer', '.run_in_executor', '.apply_async', '.map'):
            for t in list(ev.args) + list(ev.kwargs.values()):
                for y in walk(t):
                    if y.op in ('partial', 'func', 'closure', 'lambda', 'bound'):
                        self.threads.append((t, ev.kwargs.get('args'), ev.kwargs.get('kwargs'), ev.node, eng.func, st.copy()))
                        break
        return m


def forward(ctx, roles):
    f = roles.run_sync
    args = [T('in', 'first'), T('in', 'second')]
    kwargs = [('limits', T('in', 'limits')), ('save_file', T('in', 'save_file')), ('option', T('in', 'option'))]
    mon = Forward(roles.run_async)
    eng, _, _ = ctx.analyse(f, args, kwargs, monitor=mon, opaque={roles.run_async.fid}, label='run')
    todo, done = list(mon.threads), set()
    n = 0
    while todo:
        fv, a, k, node, func, st = todo.pop()
        pre, kws = [], []
        while fv.op in ('partial', 'bound'):
            if fv.op == 'partial':
                pre = list(fv.a[1]) + pre
                kws = list(fv.a[2]) + kws
                fv = fv.a[0]
            else:
                pre, fv = [fv.a[1]] + pre, fv.a[0]
        if fv.op != 'func' or fv in done:
            continue
        done.add(fv)
        g = ctx.prog.functions.get(fv.a[0])
        if g is None:
            continue
        if a is not None:
            c = eng.seq_items(st, a) if hasattr(eng, 'seq_items') else None
            items = content(eng, st, a)
            if items is None:
                ctx.undecided('forward', g.qual, 'arguments of the thread unknown')
                continue
            pre += items
            del c
        if k is not None:
            d = eng.dict_items(st, k)
            if d is None or any(x is None for x, _ in d):
                ctx.undecided('forward', g.qual, 'arguments of the thread unknown')
                continue
            kws += [(cval(x), v) for x, v in d]
        sub = Forward(roles.run_async)

        def setup(s, st=st):
            s.heap.update(st.heap)
            s.frames.update(st.frames)
        closure = fv.a[1] if len(fv.a) > 1 else None
        ctx.analyse(g, pre, kws, monitor=sub, opaque={roles.run_async.fid}, label=g.qual, setup=setup, closure=closure)
        if not sub.calls:
            ctx.undecided('forward', g.qual, 'the thread calls run_async in a way that is not followed')
        mon.calls += sub.calls
        todo += sub.threads
    if not mon.calls:
        ctx.undecided('forward', 'run', 'no call of run_async found')
    for a, k, node, func, st in mon.calls:
        n += 1
        want = dict(kwargs)
        construct = '%s at %s' % (func.qual, ctx.loc(func, node))
        f0 = roles.run_async.node.args
        names = [x.arg for x in f0.posonlyargs + f0.args]
        have = dict(k)
        star = have.pop('**', None)
        pos = list(a)
        if pos and pos[0].op == 'star' or star is not None:
            ctx.undecided('forward', construct, 'arguments not followed')
            continue
        for i, nme in enumerate(names):
            if nme in have and len(pos) == i:
                pos.append(have.pop(nme))
        lost = [x for x in want if x not in have]
        changed = [x for x in have if want.get(x) is not have[x] and (x in want and keep(have[x]) is not want[x])]
        extra = [x for x in have if x not in want]
        problem = None
        if len(pos) < 2 or keep(pos[0]) is not args[0] or keep(pos[1]) is not args[1]:
            problem = 'the positional arguments given to run are not those given to run_async'
        elif lost:
            problem = 'keyword arguments given to run do not reach run_async'
        elif changed:
            problem = 'keyword arguments given to run reach run_async changed (%s)' % ', '.join(sorted(changed))
        elif extra:
            problem = 'run adds its own value for %s' % ', '.join(sorted(extra))
        if problem and st.taint:
            ctx.undecided('forward', construct, 'imprecise path')
        elif problem:
            ctx.bad('forward', ctx.loc(func, node), func.qual, problem)
        else:
            ctx.ok('forward', construct)


def content(eng, st, t):
    """Elements of a tuple or list of known content."""
    t = strip_at(t)
    if t.op in ('tuple', 'list'):
        t2 = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
        return None if any(not isinstance(x, T) or x.op == 'star' for x in t2) else list(t2)
    c = st.heap.get((t, '#'))
    if c is not None and c.op == 'seq' and not any(x.op == 'star' for x in c.a[0]):
        return list(c.a[0])
    return None


def attr_reads(prog):
    res = set()
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                res.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                res.add(x.value)
    return res


def kept(ctx, roles, eng, news):
    reads = attr_reads(ctx.prog)
    params = [x.arg for x in roles.run_async.node.args.kwonlyargs + roles.run_async.node.args.args]
    for p in KEPT:
        if p not in params:
            ctx.undecided('kept', p, 'run_async has no such option')
            continue
        x = T('in', p)
        worst, note = 'same', None
        for n in news:
            st = n.st
            found, changed = [], []
            for o in reach(st, n.ctl):
                for (b, name), v in st.heap.items():
                    if b is o and isinstance(name, str) and name != '#' and p in deps_flat(eng, v):
                        (found if judge(eng, st, v, x) == 'same' else changed).append((name, v))
            if found:
                if not any(nm in reads for nm, _ in found):
                    worst, note = 'bad', 'option %s is stored but never used' % p
                    break
                continue
            if st.taint:
                worst, note = 'und', 'imprecise path'
                continue
            how = [judge(eng, st, v, x) for _, v in changed]
            if changed and any(isinstance(h, tuple) for h in how):
                worst, note = 'bad', 'option %s is not kept as given but as %s' % (p, [h[1] for h in how if isinstance(h, tuple)][0])
                break
            if changed or about(st, x):
                worst, note = 'und', 'stored as %s' % ([show(v) for _, v in changed] or 'a branch condition')
            else:
                worst, note = 'bad', 'option %s does not reach the scheduler' % p
                break
        f = roles.run_async
        if worst == 'bad':
            ctx.bad('kept', ctx.loc(f), f.qual, note)
        elif worst == 'und':
            ctx.undecided('kept', p, note)
        else:
            ctx.ok('kept', p)
    # the delay of the periodic saving
    x = T('in', 'save_delay')
    _, periodic = roles.tasks()
    me = roles.self_term
    for fid, (node, fv, pre, kw, func) in periodic.items():
        d = kw.get('delay')
        if d is None and isinstance(node, ast.Call) and len(node.args) > 1:
            ctx.undecided('kept', 'delay of %s' % fid, 'given by position')
            continue
        if d is None:
            ctx.bad('kept', ctx.loc(func, node), func.qual, 'the periodic task is started without the delay asked for')
            continue
        d = keep(d)
        if d.op == 'attr' and d.a[0] is me:
            vals = [judge(eng, n.st, n.st.heap.get((n.ctl, d.a[1]), d), x) for n in news]
            v = next((v for v in vals if isinstance(v, tuple)), None)
            if v:
                ctx.bad('kept', ctx.loc(func, node), func.qual, 'the delay between savings is %s, not the one asked for' % v[1])
            elif all(v == 'same' for v in vals):
                ctx.ok('kept', 'delay of %s' % fid)
            else:
                ctx.undecided('kept', 'delay of %s' % fid, 'value not followed')
        elif d.op in ('const', 'bin', 'glob'):
            ctx.bad('kept', ctx.loc(func, node), func.qual, 'the delay between savings is %s, not the one asked for' % show(d))
        else:
            ctx.undecided('kept', 'delay of %s' % fid, show(d))


def deps_flat(eng, v):
    """Entry parameters in a value, not looking into objects."""
    if not isinstance(v, T):
        return set()
    return {y.a[0] for a in alts(eng, v) for y in walk(a) if y.op == 'in'}


def result_of(roles, n):
    """The result container the scheduler works with."""
    for o in reach(n.st, n.ctl):
        c = n.args(o)
        if c is not None and next(x for x in n.m if x[0] == 'new' and x[1] is o)[2] is roles.result:
            return o
    return None


def component(ctx, roles, eng, news):
    prog = ctx.prog

    def check(n, inst, args, p, x, what):
        loc, func = n.where(ctx, inst)
        construct = '%s of %s' % (p, what)
        if p not in args:
            if '**' in args or n.st.taint:
                ctx.undecided('component', construct, 'not followed')
            else:
                ctx.bad('component', loc, func, 'the %s is created without the %s asked for' % (what, p))
            return
        v = judge(eng, n.st, args[p], x)
        if isinstance(v, tuple) and not n.st.taint:
            ctx.bad('component', loc, func, 'the %s gets %s as %s' % (what, v[1], p))
        elif v == 'same':
            ctx.ok('component', construct)
        else:
            ctx.undecided('component', construct, show(args[p]))

    for n in news:
        cs = n.of(roles.coord)
        if not cs:
            ctx.undecided('component', 'coordinate system', 'none is created')
        for x in cs:
            a = dict(x[3])
            check(n, x[1], a, 'limits', T('in', 'limits'), 'coordinate system')
            check(n, x[1], a, 'periodic', T('in', 'periodic'), 'coordinate system')
        r = result_of(roles, n)
        if r is None:
            ctx.undecided('component', 'result container', 'none is created')
            continue
        a = n.args(r)
        check(n, r, a, 'gap_threshold', T('in', 'gap_threshold'), 'result container')
        loc, func = n.where(ctx, r)
        c = a.get('coordinate_system')
        if c is not None:
            if all(y.op == 'inst' for y in alts(eng, c)):
                ctx.ok('component', 'coordinate system of the results')
            elif deps(eng, n.st, c) & {'initial_state'} or 'load' in show(c):
                ctx.bad('component', loc, func, 'the results use the coordinate system of the given state instead of the limits and periodicity asked for')
            else:
                ctx.undecided('component', 'coordinate system of the results', show(c))
        d = a.get('dist_cutoff')
        if d is None:
            ctx.bad('component', loc, func, 'the result container is created without a distance cutoff')
        else:
            one_option(ctx, eng, n, d, 'feature_size', 'distance cutoff of the results', loc, func, 'component')
        # the scheduler's own cutoffs
        for (b, name), v in n.st.heap.items():
            if b is n.ctl and isinstance(v, T) and v.op == 'bin' and 'feature_size' in deps_flat(eng, v) and all(y.op in ('bin', 'in', 'const', 'glob') for y in walk(v)) and 'refinement_stencil' not in deps_flat(eng, v):
                one_option(ctx, eng, n, v, 'feature_size', 'cutoff "%s"' % name, loc, func, 'component')
                if d is not None and name_like_cutoff(d, v):
                    ctx.ok('component', 'the scheduler and the results use the same cutoff')
    mesh(ctx, roles, eng, news)


def name_like_cutoff(a, b):
    return keep(a) is keep(b)


def one_option(ctx, eng, n, v, p, what, loc, func, rule):
    ds = deps(eng, n.st, v)
    if n.st.taint and ds != {p}:
        ctx.undecided(rule, what, 'imprecise path')
    elif ds == {p}:
        ctx.ok(rule, '%s depends on %s only' % (what, p))
    elif p not in ds and not any(y.op in ('phi',) and not eng.phis.get(y) for y in walk(v)):
        ctx.bad(rule, loc, func, '%s does not depend on %s but on %s' % (what, p, show(v)))
    elif ds - {p} <= {'gap_threshold', 'feature_size', 'limits', 'initial_mesh_size', 'save_delay', 'periodic', 'num_minimize_parallel'} and v.op != 'phi':
        ctx.bad(rule, loc, func, '%s depends on %s as well' % (what, ', '.join(sorted(ds - {p}))))
    else:
        ctx.undecided(rule, what, show(v))


def simplex_queue_of(roles, n, key='S'):
    cls = roles.cls(key)
    for o in reach(n.st, n.ctl):
        x = next((x for x in n.m if x[0] == 'new' and x[1] is o), None)
        if x is not None and x[2] is cls:
            return o
    return None


def queue_input(n, q):
    a = n.args(q) or {}
    given = a.get('objects')
    return given, [x[2] for x in n.adds(q)]


def mesh(ctx, roles, eng, news):
    for n in news:
        q = simplex_queue_of(roles, n)
        if q is None:
            ctx.undecided('component', 'initial mesh', 'no queue of simplices')
            continue
        given, added = queue_input(n, q)
        for v in ([given] if given is not None else []) + added:
            ds = deps(eng, n.st, v, n)
            if 'initial_mesh_size' not in ds:
                continue
            loc, func = n.where(ctx, q)
            for p in ('limits', 'periodic'):
                if p in ds or p == 'periodic' and about(n.st, T('in', p)):
                    ctx.ok('component', 'initial mesh from %s' % p)
                else:
                    ctx.undecided('component', 'initial mesh from %s' % p, 'not followed')


def stencil(ctx, roles, eng, news):
    x = T('in', 'refinement_stencil')
    f = roles.run_async
    seen = set()
    for n in news:
        st = n.st
        cand = [(name, v) for (b, name), v in st.heap.items() if b is n.ctl and isinstance(name, str) and 'stencil' in name]
        vals = [v for _, v in cand]
        if len(vals) != 1:
            ctx.undecided('stencil', 'stored stencil', '%d candidates' % len(vals))
            continue
        v = vals[0]
        auto = [k for k, val in st.facts.items() if k[0] == 'ord' and val == frozenset('=') and x in k[1:] and any(y.op == 'const' and cval(y) == 'auto' for y in k[1:])]
        notauto = any(k[0] == 'ord' and '=' not in val and x in k[1:] and any(y.op == 'const' and cval(y) == 'auto' for y in k[1:]) for k, val in st.facts.items()) or any(
            k[0] == 'truth' and val is False and k[1].op == 'call' and 'isinstance' in show(k[1].a[0]) and mentions(k[1], x) for k, val in st.facts.items())
        none = any(k[0] == 'ord' and {NONE, x} <= set(k[1:]) and val == frozenset('=') or k[0] == 'is' and {NONE, x} <= set(k[1:]) and val is True for k, val in st.facts.items())
        for a in alts(eng, v):
            key = (a, bool(auto), notauto, none)
            if key in seen:
                continue
            seen.add(key)
            if st.taint:
                ctx.undecided('stencil', show(a), 'imprecise path')
            elif a is NONE:
                if auto:
                    ctx.bad('stencil', ctx.loc(f), f.qual, "nothing is refined although the automatic stencil was asked for")
                else:
                    ctx.ok('stencil', 'no stencil')
            elif auto:
                if x.a[0] in deps_flat(eng, a) and not any(y.op == 'call' for y in walk(a)):
                    ctx.bad('stencil', ctx.loc(f), f.qual, "'auto' is used as a stencil")
                elif 'feature_size' not in deps(eng, st, a):
                    ctx.bad('stencil', ctx.loc(f), f.qual, 'the stencil is not scaled with the feature size')
                else:
                    ctx.ok('stencil', 'automatic')
            elif notauto or not any(y.op == 'const' and cval(y) == 'auto' for k in st.facts for z in k[1:] if isinstance(z, T) for y in walk(z)):
                ds = deps(eng, st, a)
                if x.a[0] not in ds:
                    ctx.bad('stencil', ctx.loc(f), f.qual, 'the stencil given is replaced by %s' % show(a))
                elif 'feature_size' not in ds:
                    ctx.bad('stencil', ctx.loc(f), f.qual, 'the stencil is not scaled with the feature size')
                elif ds - {x.a[0], 'feature_size'}:
                    ctx.undecided('stencil', show(a), 'depends on %s' % sorted(ds))
                elif a.op == 'bin' and a.a[0] == '*' and any(keep(y) is x for y in a.a[1:]):
                    ctx.ok('stencil', 'given')
                elif a.op == 'bin' and a.a[0] in ('+', '-', '**', '//', '%'):
                    ctx.bad('stencil', ctx.loc(f), f.qual, 'the stencil given is not scaled but used as %s' % show(a))
                else:
                    ctx.undecided('stencil', show(a), 'not followed')
            else:
                ctx.undecided('stencil', show(a), 'path not characterised')


# ---------------------------------------------------------------------------
class Calls(Monitor):
    def __init__(self, targets):
        self.targets = targets
        self.calls = []

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and isinstance(ev.fn, Function) and ev.fn.fid in self.targets:
            self.calls.append((ev.fn, list(ev.args), dict(ev.kwargs), ev.node, eng.func, st.copy()))
        return m


def bound(fn, args, kwargs):
    a = fn.node.args
    d = dict(kwargs)
    for n, v in zip([x.arg for x in a.posonlyargs + a.args], args):
        d.setdefault(n, v)
    return d


def minimiser_calls(ctx, roles):
    """Calls of the minimiser in the tasks of the scheduler."""
    from .search import task_entries
    targets = roles.async_functions
    res = []
    for f, vals, kws, params, node in task_entries(ctx, roles):
        mon = Calls(targets)
        if vals and vals[0] is roles.self_term:
            ctx.analyse(f, vals[1:], kws, self_term=vals[0], monitor=mon, opaque=set(roles.data_methods) | targets, label=f.qual)
        else:
            ctx.analyse(f, vals, kws, monitor=mon, opaque=set(roles.data_methods) | targets, label=f.qual)
        res += mon.calls
    return res


def layers(eng, st, t, depth=0):
    """Layers of a mapping, the one that wins first: ('key', key, value) or
    ('all', term); None if unknown."""
    if depth > 8:
        return None
    t = strip_at(t)
    if t.op == 'call' and t.a[0].op == 'ext':
        name = t.a[0].a[0]
        kws = [kv for kv in t.a[2:] for kv in (kv if isinstance(kv, tuple) else ())]
        if name in ('collections.ChainMap', 'builtins.dict', 'types.MappingProxyType', 'copy.copy', 'copy.deepcopy', 'collections.OrderedDict'):
            if name == 'collections.ChainMap':
                parts = list(t.a[1])
            else:
                parts = list(t.a[1])[:1]
            res = []
            for k, v in reversed([kv for kv in kws if isinstance(kv, tuple) and len(kv) == 2]):
                if k == '**':
                    sub = layers(eng, st, v, depth + 1)
                    if sub is None:
                        return None
                    res += sub
                else:
                    res.append(('key', k, v))
            for p in parts:
                if p.op == 'star':
                    return None
                sub = layers(eng, st, p, depth + 1)
                if sub is None:
                    return None
                res += sub
            return res
    if t.op == 'bin' and t.a[0] == '|':
        a, b = layers(eng, st, t.a[1], depth + 1), layers(eng, st, t.a[2], depth + 1)
        return None if a is None or b is None else b + a
    if t.op == 'in':
        return [('all', t)]
    c = st.heap.get((t, '#'))
    if c is not None and c.op == 'ditems':
        res = []
        for kv in reversed(c.a[0]):
            if kv.a[0].op == 'starstar':
                sub = layers(eng, st, kv.a[1], depth + 1)
                if sub is None:
                    return None
                res += sub
            elif kv.a[0].op == 'const':
                res.append(('key', cval(kv.a[0]), kv.a[1]))
            else:
                return None
        return res
    return None


def settings(ctx, roles, eng, news, calls):
    me = roles.self_term
    user = T('in', 'nelder_mead_kwargs')
    if not calls:
        ctx.undecided('precedence', 'minimiser', 'no call found')
        return
    for fn, args, kwargs, node, func, st in calls:
        b = bound(fn, args, kwargs)
        loc = ctx.loc(func, node)
        t = b.get('nelder_mead_kwargs', b.get('**'))
        if t is None:
            ctx.bad('precedence', loc, func.qual, 'the settings of the minimiser are not handed over')
        elif not (keep(t).op == 'attr' and keep(t).a[0] is me):
            ctx.undecided('precedence', 'settings at %s' % loc, show(t))
        else:
            for n in news:
                v = n.st.heap.get((n.ctl, keep(t).a[1]))
                if v is None:
                    ctx.undecided('precedence', 'settings', 'not stored on construction')
                    continue
                for a in alts(eng, v):
                    precedence(ctx, roles, eng, n, a, user)
        g = b.get('func')
        if g is None or not (g.op == 'attr' and g.a[0] is me):
            ctx.undecided('component', 'gap function', 'not followed')
        else:
            for n in news:
                v = n.st.heap.get((n.ctl, g.a[1]))
                if v is not None and deps(eng, n.st, v) == {'gap_fct'}:
                    ctx.ok('component', 'gap function')
                else:
                    ctx.undecided('component', 'gap function', show(v) if v is not None else 'not stored')
        fp = b.get('fake_potential')
        fake(ctx, roles, eng, news, fp, loc, func)


def precedence(ctx, roles, eng, n, v, user):
    f = n.func
    ls = layers(eng, n.st, v)
    loc = ctx.loc(roles.run_async)
    qual = roles.run_async.qual
    if n.st.taint:
        ctx.undecided('precedence', show(v), 'imprecise path')
        return
    if ls is None:
        if 'nelder_mead_kwargs' not in deps(eng, n.st, v) and all(y.op != 'obj' or (y, '#') in n.st.heap for y in walk(v)):
            ctx.bad('precedence', loc, qual, 'the settings given for the minimiser are not used')
        else:
            ctx.undecided('precedence', show(v), 'layers not known')
        return
    at = [i for i, l in enumerate(ls) if l[0] == 'all' and keep(l[1]) is user]
    if not at:
        ctx.bad('precedence', loc, qual, 'the settings given for the minimiser are not used')
        return
    for i, l in enumerate(ls):
        if l[0] != 'key' or about_user(l[2], user):
            continue
        if i < at[0]:
            ctx.bad('precedence', loc, qual, 'the default for %s takes precedence over the setting given' % l[1])
        else:
            ctx.ok('precedence', 'default for %s' % l[1])
        p = {'ftol': 'gap_threshold', 'xtol': 'feature_size'}.get(l[1])
        if p:
            one_option(ctx, eng, n, l[2], p, 'the default of %s' % l[1], loc, qual, 'precedence')
    for k in ('ftol', 'xtol'):
        if not any(l[0] == 'key' and l[1] == k for l in ls):
            ctx.bad('precedence', loc, qual, 'there is no default for %s' % k)
    del f


def about_user(v, user):
    return mentions(v, user)


def fake(ctx, roles, eng, news, fp, loc, func):
    me = roles.self_term
    flag = T('in', 'use_fake_potential')
    if fp is None:
        if any(flag.a[0] in deps_flat(eng, v) or about(n.st, flag) for n in news for v in n.st.heap.values()):
            ctx.bad('fake', loc, func.qual, 'the fake potential is never handed to the minimiser')
        else:
            ctx.undecided('fake', 'fake potential', 'not followed')
        return
    if not (fp.op == 'attr' and fp.a[0] is me):
        ctx.undecided('fake', 'fake potential', show(fp))
        return
    qual, loc = roles.run_async.qual, ctx.loc(roles.run_async)
    for n in news:
        v = n.st.heap.get((n.ctl, fp.a[1]))
        on = eng.holds(n.st, flag)
        if v is None or n.st.taint:
            ctx.undecided('fake', 'fake potential', 'not followed')
            continue
        for a in alts(eng, v):
            if a is NONE:
                if on is True:
                    ctx.bad('fake', loc, qual, 'no fake potential is used although it was asked for')
                elif on is False:
                    ctx.ok('fake', 'none unless asked for')
                else:
                    ctx.undecided('fake', 'none', 'path not characterised')
            elif a.op == 'inst':
                if on is False:
                    ctx.bad('fake', loc, qual, 'a fake potential is used although it was not asked for')
                    continue
                if on is None and all(mentions(y, NONE) or not mentions(y, flag) or y is flag for k in n.st.facts for y in k[1:] if isinstance(y, T)) and all(NONE in k[1:] for k in n.st.facts if flag in k[1:]):
                    ctx.bad('fake', loc, qual, 'a fake potential is used whether or not it was asked for')
                    continue
                if on is None:
                    ctx.undecided('fake', 'created', 'path not characterised')
                    continue
                args = n.args(a) or {}
                r = result_of(roles, n)
                iloc, ifunc = n.where(ctx, a)
                if r is not None and not any(keep(y) is r for y in args.values()):
                    if all(y.op in ('inst', 'in', 'bin', 'const') for y in args.values()):
                        ctx.bad('fake', iloc, ifunc, 'the fake potential is not built from the results of this search')
                    else:
                        ctx.undecided('fake', 'results', 'not followed')
                else:
                    ctx.ok('fake', 'built from the results of the search')
                w = args.get('width')
                if w is not None:
                    one_option(ctx, eng, n, w, 'feature_size', 'the width of the fake potential', iloc, ifunc, 'fake')
            else:
                ctx.undecided('fake', show(a), 'not followed')


def minimiser(ctx, roles):
    """run_minimization hands the settings on."""
    targets = roles.async_functions
    user, fk = T('in', 'nelder_mead_kwargs'), T('in', 'fake_potential')
    n = 0
    for f in ctx.prog.functions.values():
        if f.fid not in targets:
            continue
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if 'nelder_mead_kwargs' not in names or 'fake_potential' not in names:
            continue
        mon = Calls(targets)
        eng, rets, raises = ctx.analyse(f, monitor=mon, opaque=targets, label=f.qual)
        for fn, args, kwargs, node, func, st in mon.calls:
            n += 1
            loc = ctx.loc(func, node)
            construct = 'minimisation at %s' % loc
            b = bound(fn, args, kwargs)
            ls = None
            own = {k: v for k, v in b.items() if k not in ('func', 'initial_simplex', '**')}
            rest = b.get('**')
            sub = layers(eng, st, rest) if rest is not None else []
            if sub is not None:
                ls = [('key', k, v) for k, v in own.items()] + sub
            fn_t = b.get('func')
            staged = fn_t is not None and (mentions(fn_t, fk) or captured(eng, st, fn_t, fk))
            if st.taint or ls is None:
                ctx.undecided('minimiser', construct, 'settings not followed')
                continue
            if not any(l[0] == 'all' and keep(l[1]) is user for l in ls):
                # handed over key by key?
                if any(l[0] == 'key' and about_user(l[2], user) for l in ls):
                    ctx.undecided('minimiser', construct, 'settings handed over one by one')
                else:
                    ctx.bad('minimiser', loc, func.qual, 'the settings are not handed to the minimisation')
                continue
            first = [i for i, l in enumerate(ls) if l[0] == 'all' and keep(l[1]) is user][0]
            over = [l[1] for l in ls[:first] if l[0] == 'key']
            wrong = [k for k in over if not (staged and k == 'ftol')]
            if wrong:
                ctx.bad('minimiser', loc, func.qual, 'the setting of %s is replaced%s' % (', '.join(map(str, wrong)), ' in the first stage' if staged else ''))
            else:
                ctx.ok('minimiser', construct)
    if not n:
        ctx.undecided('minimiser', 'run_minimization', 'no minimisation found')


def captured(eng, st, t, x):
    """Whether a closure captures x."""
    if t.op == 'func' and len(t.a) > 1 and t.a[1] is not None:
        fr = st.frames.get(t.a[1])
        if fr is not None:
            return any(isinstance(v, T) and mentions(v, x) for v in fr.values())
        return any(isinstance(v, T) and mentions(v, x) for f2 in st.frames.values() for v in f2.values() if f2)
    return False


def used(ctx, roles, eng, news, raises):
    f = roles.run_async
    a = f.node.args
    for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
        x = T('in', p)
        hit = False
        for n in news:
            if hit:
                break
            hit = about(n.st, x) or any(p in deps_flat(eng, v) for v in n.st.heap.values() if isinstance(v, T)) or any(
                isinstance(v, T) and p in deps_flat(eng, v) for e in n.m for v in ([v for _, v in e[3]] if e[0] == 'new' else [e[2]]))
        hit = hit or any(about(st, x) for st, _ in raises)
        if hit:
            ctx.ok('used', p)
        else:
            ctx.bad('used', ctx.loc(f), f.qual, 'option %s is ignored' % p)


# ---------------------------------------------------------------------------
def c04(ctx):
    prog = ctx.prog
    roles = R.get(prog)
    ctx.rule('results', 'a search resumed from a state starts from all results of that state (accepted and rejected) and all refined positions')
    ctx.rule('queues', 'it starts with all simplices (waiting and in progress) and all positions of the queues of that state')
    ctx.rule('force', 'asking for the initial mesh adds it to these; without a state the search starts from the initial mesh')
    ctx.rule('both', 'a search is never started with a state given and loading asked for')
    ctx.rule('hidden', 'the search goes on after an error of loading only for input/output errors and with quiet loading')
    ctx.rule('rebuilt', 'result container and queues rebuilt from these values keep every one of them')
    ctx.rule('persist', 'what a queue reports as its objects contains the objects in progress as well as the waiting ones')
    eng, runs, raises = starts(ctx, roles)
    news = [News(r) for r in runs]
    given = T('in', 'initial_state')
    load, quiet = T('in', 'load'), T('in', 'load_quiet')
    resumed = 0
    for n in news:
        st = n.st
        loc, qual = ctx.loc(roles.run_async), roles.run_async.qual
        loaded = [x[2] for x in n.m if x[0] == 'loaded']
        failed = [x for x in n.m if x[0] == 'failed']
        want_load = eng.holds(st, load)
        has = is_none(st, given)
        if want_load is True:
            if has is True:
                ctx.ok('both', 'loading without a state')
            elif st.taint:
                ctx.undecided('both', 'start', 'imprecise path')
            else:
                ctx.bad('both', loc, qual, 'a search starts with a state given and loading asked for')
        if want_load is True and not loaded and not failed:
            if st.taint:
                ctx.undecided('results', 'load', 'imprecise path')
            else:
                ctx.bad('results', loc, qual, 'loading is asked for but nothing is loaded')
            continue
        if failed:
            hidden(ctx, eng, n, quiet, loc, qual)
        if want_load is not True and loaded:
            ctx.undecided('results', 'load', 'loaded on a path that is not characterised') if st.taint or want_load is None else ctx.bad('results', loc, qual, 'a state is loaded although this was not asked for')
            continue
        if loaded and is_none(st, loaded[-1]) is True:
            continue              # loading never gives None
        if loaded:
            src = loaded[-1]
        elif has is False:
            src = given
        elif has is True:
            src = None
        else:
            ctx.undecided('results', 'start', 'not known whether a state is given')
            continue
        if src is None:
            fresh(ctx, roles, eng, n)
        else:
            resumed += 1
            results_kept(ctx, roles, eng, n, src)
            queues_kept(ctx, roles, eng, n, src)
    if not resumed:
        ctx.bad('results', ctx.loc(roles.run_async), roles.run_async.qual, 'no search ever starts from a state')
    rebuilt(ctx, roles)
    from .search import persisted
    persisted(ctx, roles)


def is_none(st, x):
    for k, v in st.facts.items():
        if NONE in k[1:] and x in k[1:]:
            if k[0] == 'ord':
                if v == frozenset('='):
                    return True
                if '=' not in v:
                    return False
            elif v is True or v is False:
                return v
    t = st.facts.get(('truth', x))
    if t is True:
        return False
    return None


OSERR = {'IOError', 'OSError', 'EnvironmentError', 'FileNotFoundError', 'PermissionError', 'IsADirectoryError', 'NotADirectoryError', 'BlockingIOError', 'InterruptedError', 'FileExistsError'}


def hidden(ctx, eng, n, quiet, loc, qual):
    st = n.st
    q = eng.holds(st, quiet)
    if q is not True:
        if st.taint or q is None and any(mentions(y, quiet) for k in st.facts for y in k[1:] if isinstance(y, T)):
            ctx.undecided('hidden', 'load error', 'imprecise path')
        else:
            ctx.bad('hidden', loc, qual, 'the search goes on after an error of loading without quiet loading having been asked for')
        return
    hs = [x for x in n.m if x[0] == 'caught']
    if not hs:
        ctx.undecided('hidden', 'load error', 'how the error is caught was not followed')
        return
    for x in hs:
        names = {t.split('.')[-1] for t in x[2]}
        wide = names - OSERR
        tested = any(k[0] == 'truth' and v is True and k[1].op == 'call' and 'isinstance' in show(k[1].a[0]) for k, v in st.facts.items())
        if not wide:
            ctx.ok('hidden', 'errors of loading: %s' % ', '.join(sorted(names)))
        elif tested or st.taint or not wide <= {'Exception', 'BaseException', 'ValueError', 'KeyError', 'TypeError', 'RuntimeError', 'AttributeError', 'LookupError', 'ImportError', 'KeyboardInterrupt', 'SystemExit', 'IndexError', 'UnicodeDecodeError', 'ArithmeticError', 'ModuleNotFoundError'}:
            ctx.undecided('hidden', 'errors of loading', ', '.join(sorted(names)))
        else:
            ctx.bad('hidden', ctx.loc(x[5], x[4]), x[5].qual, 'errors of loading that are not input/output errors are hidden (%s)' % ', '.join(sorted(wide)))


def carried(ctx, eng, st, v, want, construct, loc, qual, rule, what):
    """Is v all of want?"""
    for a in alts(eng, v):
        k = keep(a)
        ok = same_path(k, want)
        if ok:
            ctx.ok(rule, construct)
            continue
        if st.taint:
            ctx.undecided(rule, construct, 'imprecise path')
            continue
        if k.op == 'bin' and k.a[0] in ('+', '|') and any(same_path(keep(y), want) for y in k.a[1:]):
            ctx.ok(rule, construct)
            continue
        if k.op == 'comp' and any(mentions(y, want) for y in walk(k)) or k.op == 'call' and any(same_path(keep(y), want) for z in k.a[1:] if isinstance(z, tuple) for y in z if isinstance(y, T)):
            from .search import comp_conds
            if k.op == 'comp' and comp_conds(k):
                ctx.bad(rule, loc, qual, 'only part of %s is carried over: %s' % (what, show(k)))
            elif k.op == 'call' and k.a[0].op == 'ext' and k.a[0].a[0] in ('builtins.filter', 'itertools.islice', 'itertools.takewhile', 'itertools.filterfalse'):
                ctx.bad(rule, loc, qual, 'only part of %s is carried over: %s' % (what, show(k)))
            else:
                ctx.undecided(rule, construct, show(a))
            continue
        c = st.heap.get((strip_at(k), '#'))
        if k.op == 'obj' and c is not None and any(mentions(y, want) for y in walk(c)):
            ctx.undecided(rule, construct, show(a))
            continue
        if k.op in ('sub', 'attr', 'const', 'tuple', 'list', 'default', 'obj', 'in') or c is not None or k.op == 'comp' and not reached(eng, st, k, root(want)):
            ctx.bad(rule, loc, qual, 'instead of %s, the search starts with %s' % (what, show(a)))
        else:
            ctx.undecided(rule, construct, show(a))


def root(t):
    while t.op == 'attr':
        t = strip_at(t.a[0])
    return t


def same_path(a, b):
    a, b = strip_at(a), strip_at(b)
    if a is b:
        return True
    return a.op == 'attr' and b.op == 'attr' and a.a[1] == b.a[1] and same_path(a.a[0], b.a[0])


def dotted(x, *names):
    for n in names:
        x = attr(x, n)
    return x


def results_kept(ctx, roles, eng, n, src):
    r = result_of(roles, n)
    st = n.st
    loc, qual = ctx.loc(roles.run_async), roles.run_async.qual
    if r is None:
        whole = [v for o in reach(st, n.ctl) for (b, _), v in st.heap.items() if b is o and isinstance(v, T) and (same_path(v, src) or same_path(v, attr(src, 'result')))]
        if whole:
            ctx.ok('results', 'the container of the state itself')
        else:
            ctx.undecided('results', 'result container', 'not found')
        return
    a = n.args(r)
    loc, qual = n.where(ctx, r)
    for p, what in (('minimization_results', 'the results of the state'), ('refined_results', 'the refined positions of the state')):
        v = a.get(p)
        if v is None:
            if added_later(n, r) or '**' in a or st.taint:
                ctx.undecided('results', p, 'added in a way that is not followed')
            else:
                ctx.bad('results', loc, qual, '%s are not carried over' % what)
            continue
        if p == 'minimization_results' and both_parts(v, src):
            ctx.ok('results', p)
            continue
        carried(ctx, eng, st, v, dotted(src, 'result', p), p, loc, qual, 'results', what)


def both_parts(v, src):
    return any(same_path(y, dotted(src, 'result', 'nodes')) for y in walk(v)) and any(same_path(y, dotted(src, 'result', 'rejected_results')) for y in walk(v))


def added_later(n, r):
    return any(x[0] == 'other' and x[1] is r for x in n.m)


def queues_kept(ctx, roles, eng, n, src):
    st = n.st
    for key, name in (('S', 'simplex_queue'), ('P', 'position_queue')):
        q = simplex_queue_of(roles, n, key)
        what = 'the objects of the %s of the state' % name.replace('_', ' ')
        if q is None:
            ctx.undecided('queues', name, 'not found')
            continue
        loc, qual = n.where(ctx, q)
        given, added = queue_input(n, q)
        want = dotted(src, name, 'objects')
        if any(same_path(keep(v), want) for v in added):
            ctx.ok('queues', name)
        elif given is None:
            if st.taint or added and any(mentions(v, src) for v in added):
                ctx.undecided('queues', name, 'not followed')
            else:
                ctx.bad('queues', loc, qual, '%s are not carried over' % what)
        else:
            carried(ctx, eng, st, given, want, name, loc, qual, 'queues', what)
        if key == 'S':
            force = eng.holds(st, T('in', 'force_initial_mesh'))
            parts = ([given] if given is not None else []) + added
            has = any('initial_mesh_size' in deps(eng, st, v) for v in parts)
            if st.taint or force is None:
                if not has:
                    ctx.undecided('force', 'initial mesh', 'not known whether it is asked for')
            elif force and not has:
                ctx.bad('force', loc, qual, 'the initial mesh is asked for but not added')
            elif not force and has:
                ctx.bad('force', loc, qual, 'the initial mesh is added to a state although this was not asked for')
            else:
                ctx.ok('force', 'initial mesh')


def fresh(ctx, roles, eng, n):
    q = simplex_queue_of(roles, n)
    if q is None:
        ctx.undecided('force', 'fresh start', 'no queue found')
        return
    given, added = queue_input(n, q)
    loc, qual = n.where(ctx, q)
    if any('initial_mesh_size' in deps(eng, n.st, v) for v in ([given] if given is not None else []) + added):
        ctx.ok('force', 'fresh start')
    elif n.st.taint:
        ctx.undecided('force', 'fresh start', 'imprecise path')
    else:
        ctx.bad('force', loc, qual, 'a search without a state does not start from the initial mesh')


class Adds(Monitor):
    """Which of a few given values are handed to methods of the object."""

    def __init__(self, me, vals, names):
        self.me, self.vals, self.names = me, vals, names

    def init(self):
        return frozenset()

    def on(self, ev, m, st, eng):
        if ev.kind in ('enter', 'call') and isinstance(ev.fn, Function) and ev.fn.name in self.names:
            args = list(ev.args.values()) if isinstance(ev.args, dict) else list(ev.args) + list(ev.kwargs.values())
            if args and strip_at(args[0]) is self.me:
                return m | {(ev.fn.name, v) for v in self.vals for a in args[1:] if strip_at(a) is v or mentions(a, v)}
        if ev.kind == 'mutate' or ev.kind == 'call' and ev.name and ev.name[0] == '.' and ev.recv is not None:
            b = strip_at(ev.base if ev.kind == 'mutate' else ev.recv)
            if mentions(b, self.me) or b.op in ('inst', 'obj'):
                return m | {('put', v) for v in self.vals for a in ev.args if strip_at(a) is v}
        return m


def rebuilt(ctx, roles):
    prog = ctx.prog
    for cls, specs in ((roles.result, (('minimization_results', ('add_result',)), ('refined_results', ('set_refined',)))),):
        f = prog.find_method(cls, '__init__')
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        for p, names in specs:
            if p not in ps:
                ctx.undecided('rebuilt', '%s of %s' % (p, cls.name), 'no such parameter')
                continue
            me = T('inst', cls.cid, 'self', False)
            vals = [T('in', 'first'), T('in', 'second')]
            seq = T('obj', 'list', 'given')
            mon = Adds(me, vals, names)

            def setup(st):
                st.heap[(seq, '#')] = T('seq', tuple(vals))
            args = {x: T('in', x) for x in ps}
            args[p] = seq
            pos = [args[x.arg] for x in a.posonlyargs + a.args if x.arg in args]
            kws = [(x.arg, args[x.arg]) for x in a.kwonlyargs]
            opq = {g.fid for g in prog.functions.values() if g.name in ('add_result', 'set_refined')} | {g.fid for c in prog.classes.values() if c is not cls and c not in prog.mro(cls) for fs in c.methods.values() for g in fs}
            eng, rets, raises = ctx.analyse(f, pos, kws, self_term=me, monitor=mon, opaque=opq, setup=setup, label='%s with two %s' % (f.qual, p), max_states=200)
            for st, _ in rets:
                got = {v for _, v in st.mon}
                stored = [x for (b, nm), x in st.heap.items() if isinstance(x, T) and b is me and (strip_at(x) is seq or keep(x) is seq)]
                for v in vals:
                    if v in got or stored:
                        ctx.ok('rebuilt', '%s keeps %s' % (cls.name, p))
                    elif st.taint:
                        ctx.undecided('rebuilt', '%s of %s' % (p, cls.name), 'imprecise path')
                    elif any(isinstance(x, T) and mentions(x, v) for (b, nm), x in st.heap.items() if b is not seq and b is not v):
                        ctx.undecided('rebuilt', '%s of %s' % (p, cls.name), 'kept in a way that is not followed')
                    else:
                        ctx.bad('rebuilt', ctx.loc(f), f.qual, 'one of %s given to %s is not kept' % (p, cls.name))
    for key in ('S', 'P'):
        cls = roles.cls(key)
        f = prog.find_method(cls, '__init__')
        me = T('inst', cls.cid, 'self', False)
        vals = [T('in', 'first'), T('in', 'second')]
        seq = T('obj', 'list', 'given')

        def setup(st):
            st.heap[(seq, '#')] = T('seq', tuple(vals))
        put = Puts()
        eng, rets, raises = ctx.analyse(f, [seq], [], self_term=me, monitor=put, setup=setup, label='%s of two objects' % f.qual)
        for st, _ in rets:
            g = prog.find_method(cls, 'objects', 'get') or prog.find_method(cls, 'objects')
            outs = []
            if g is not None:
                def setup2(s, st=st):
                    s.heap.update(st.heap)
                    s.facts.update(st.facts)
                e2, outs, _ = ctx.analyse(g, [], [], self_term=me, monitor=Monitor(), setup=setup2, label='%s of two objects' % g.qual)
                eng.phis.update(e2.phis)
            if not outs:
                ctx.undecided('rebuilt', cls.name, 'objects not followed')
            for s, v in outs:
                if any(reached(eng, s, v, x, put.into) for x in (seq,) + tuple(vals)):
                    ctx.ok('rebuilt', '%s keeps its objects' % cls.name)
                else:
                    ctx.undecided('rebuilt', cls.name, 'objects are %s' % show(v))


class Puts(Monitor):
    """What is put into which container."""

    def __init__(self):
        self.into = {}

    def on(self, ev, m, st, eng):
        if ev.kind == 'mutate':
            self.into.setdefault(strip_at(ev.base), []).extend(ev.args)
        elif ev.kind == 'call' and ev.name and ev.name[0] == '.' and ev.recv is not None:
            self.into.setdefault(strip_at(ev.recv), []).extend(ev.args)
        return m


def reached(eng, st, t, x, into=()):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y in seen or not isinstance(y, T):
            continue
        seen.add(y)
        if y is x:
            return True
        todo += list(eng.phis.get(y, ())) if y.op == 'phi' else []
        todo += [z for z in walk(y) if z is not y]
        todo += into.get(strip_at(y), ()) if into else ()
        if y.op in ('obj', 'inst', 'call'):
            todo += [v for (b, _), v in st.heap.items() if b is y]
    return False
