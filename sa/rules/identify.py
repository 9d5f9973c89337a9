"""Identification: the entries of the result, the options, and what is made of
each cluster."""
from ..engine import strip_at, Monitor
from ..num import Top, Wrong
from ..terms import T, cval, walk, show, is_const, attr, const
from .. import roles as R
from .graphs import Links, function, param, method_of, same, LISTS, UNIQ
from .queues import ext
from .results import self_of
from .search import mentions
from .cells import bound_args

NONE = const(None)
DIMS = (None, 0, 1, 2, 3)


class Entries(Monitor):
    """Entries as they are made and where they go, turns without one, and how
    often the dimension of a cluster is estimated."""

    def __init__(self, s):
        self.s = s

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        lids = tuple(l[0] for l in ev.loops)
        x = None
        if k == 'newdone' and ev.inst.a[0] == self.s.ires.cid:
            x = ('entry', ev.inst, tuple(sorted(((n, v) for (b, n), v in st.heap.items() if b is ev.inst and isinstance(n, str) and isinstance(v, T)), key=lambda p: p[0])))
            m = tuple(y for y in m if not (y[0] == 'entry' and y[1] is ev.inst))
        elif k == 'call' and getattr(ev.fn, 'fid', None) == self.s.dimension.fid:
            x = ('dim', ev.node, lids)
        elif k == 'iter' and not ev.while_:
            m = tuple(y for y in m if not (y[0] == 'dim' and ev.loop in y[2] or y[0] == 'turn' and y[1] == ev.loop))
            x = ('turn', ev.loop, False)
        elif k == 'iterend' and not ev.while_:
            if len([y for y in m if y[0] == 'dim' and y[2][-1:] == (ev.loop,)]) > 1 and ('twice',) not in m:
                m += (('twice',),)
            t = [y for y in m if y[0] == 'turn' and y[1] == ev.loop]
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop))
            if t and not t[0][2] and self.clusters(ev.it):
                x = ('none', ev.it, ev.elem, self.about(st, ev.elem))
        elif k == 'compitem':
            if len([y for y in m if y[0] == 'dim']) > 1 and ('twice',) not in m:
                m += (('twice',),)
            m = tuple(y for y in m if y[0] != 'dim')
        elif k == 'break' and ev.loops and self.clusters(ev.loops[-1][1]):
            x = ('break', ev.loops[-1][1], ev.loops[-1][2], self.about(st, ev.loops[-1][2]))
            m = tuple(('turn', y[1], True) if y[0] == 'turn' else y for y in m)
        elif k == 'mutate':
            if any(self.clusters(l[1]) for l in ev.loops) and ev.method in ('append', 'extend', 'insert', 'add', 'appendleft', '__setitem__'):
                m = tuple(('turn', y[1], True) if y[0] == 'turn' and y[1] in lids else y for y in m)
            x = ('mutate', strip_at(ev.base), ev.method, tuple(ev.args), tuple(ev.loops))
        elif k == 'yield':
            m = tuple(('turn', y[1], True) if y[0] == 'turn' and y[1] in lids else y for y in m)
        if x is None or x in m or len(m) > 60:
            return m
        return m + (x,)

    def clusters(self, it):
        try:
            return is_call(opened(it), self.s.create)
        except (Top, Wrong):
            return any(is_call(y, self.s.create) for y in walk(it) if isinstance(y, T))

    def about(self, st, e):
        return tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and mentions(y, e) for y in f[1:]))


def inputs(f, **over):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return [(p, over.get(p, T('in', p))) for p in ps]


def opened(t, what='entries'):
    """The iterable behind conversions that keep all elements."""
    t = strip_at(t)
    for _ in range(10):
        n = ext(t)
        b, m = method_of(t)
        if n in LISTS | UNIQ | {'builtins.enumerate'} and t.a[1]:
            t = strip_at(t.a[1][0])
        elif m in ('copy', 'tolist', 'values', 'keys', 'nodes', '__iter__') and not t.a[1]:
            if m == 'nodes':
                return attr(b, 'nodes')
            t = strip_at(b)
        elif n in ('itertools.islice', 'builtins.filter'):
            raise Wrong('some %s are left out: %s' % (what, show(t)))
        elif t.op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice':
            if all(x is None or isinstance(x, T) and is_const(x) and cval(x) is None for x in t.a[1].a):
                t = strip_at(t.a[0])
            elif all(x is None or isinstance(x, T) and is_const(x) for x in t.a[1].a):
                raise Wrong('some %s are left out: %s' % (what, show(t)))
            else:
                raise Top(show(t))
        else:
            break
    return t


def entry_positions(t, graph, st):
    t = opened(t, 'positions')
    if t.op == 'obj':
        ms = [x for x in st.mon if x[0] == 'mutate' and x[1] is t]
        if len(ms) == 1 and ms[0][2] == 'append' and ms[0][4]:
            _, it, e = ms[0][4][-1]
            same(ms[0][3][0], e)
            all_nodes(it, graph)
        raise Top('positions collected by a loop')
    all_nodes(t, graph)


def all_nodes(t, graph):
    """Is t all the positions of the graph?"""
    for _ in range(6):
        t = opened(t, 'positions')
        if t is graph:
            return
        if t.op == 'attr' and t.a[0] is graph and t.a[1] == 'nodes':
            return
        if t.op == 'comp' and len(t.a[2]) == 1 and t.a[0] != 'dict':
            e, it, conds = t.a[2][0]
            if conds:
                raise Wrong('some positions are left out: %s' % show(conds[0]))
            o = opened(it, 'positions')
            if o.op == 'attr' and o.a[0] is graph and o.a[1] == 'edges':
                raise Wrong('positions are taken from the links: those without a link are missing')
            same(t.a[1], e)
            t = it
        elif ext(t) == 'builtins.map' and len(t.a[1]) == 2 and t.a[1][0].op == 'ext' and t.a[1][0].a[0] in ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray'):
            t = t.a[1][1]
        else:
            break
    if not any(y is graph for y in walk(t)):
        raise Wrong('not the positions of the cluster: %s' % show(t, 12)[:160])
    b, m = method_of(t)
    if m in ('neighbors', 'adjacency', 'edges') or t.op == 'attr' and t.a[1] in ('edges', 'adj'):
        raise Wrong('not the positions of the cluster: %s' % show(t, 12)[:160])
    raise Top('positions %s' % show(t, 12)[:160])


def of_nodes(t, result):
    """Is t the positions of all nodes of the search result?"""
    for _ in range(6):
        t = opened(t, 'positions')
        if t.op == 'comp' and len(t.a[2]) == 1 and t.a[0] != 'dict':
            e, it, conds = t.a[2][0]
            if conds:
                raise Wrong('some positions are left out: %s' % show(conds[0]))
            v = strip_at(t.a[1])
            it = opened(it, 'nodes')
            if v.op == 'attr' and v.a[0] is e and v.a[1] == 'pos' or any(y.op == 'attr' and y.a[0] is e and y.a[1] == 'pos' for y in walk(v)):
                if not (v.op == 'attr' and v.a[0] is e):
                    same(v, attr(e, 'pos'))
                if it is attr(result, 'nodes'):
                    return
                if it.op == 'attr' and it.a[0] is result:
                    raise Wrong('positions are taken from %s instead of the nodes' % it.a[1])
                raise Top('positions of %s' % show(it))
            same(v, e)
            t = it
        elif ext(t) == 'builtins.map' and len(t.a[1]) == 2:
            g, it = t.a[1]
            if ext(g) == 'operator.attrgetter' and g.a[1] and is_const(g.a[1][0]) and cval(g.a[1][0]) == 'pos' and opened(it, 'nodes') is attr(result, 'nodes'):
                return
            if not (g.op == 'ext' and g.a[0] in ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray')):
                break
            t = it
        else:
            break
    raise Top('positions %s' % show(t, 12)[:160])


def calls_in(t, f):
    return [y for y in walk(t) if isinstance(y, T) and is_call(y, f)]


def is_call(t, f):
    return isinstance(t, T) and t.op == 'call' and t.a[0].op == 'func' and t.a[0].a[0] == f.fid


def args_of(f, t):
    return bound_args(f, t.a[1], t.a[2])


class Step:
    def __init__(self, ctx):
        self.ctx = ctx
        self.roles = R.get(ctx.prog)
        self.create = function(ctx, 'create_clusters')
        self.dimension = function(ctx, 'calculate_dimension')
        self.evaluate = function(ctx, 'evaluate_cluster')
        self.line = function(ctx, '_evaluate_line') or function(ctx, 'evaluate_line')
        self.ires = self.roles.cls('ires')
        self.icont = self.roles.cls('icont')


def c22(ctx):
    ctx.rule('entries', 'The result has one entry for each cluster, in which all positions of that cluster, its estimated dimension and its shape are kept.')
    ctx.rule('options', 'Coordinate system, feature size and evaluation method reach clustering, dimension estimate and shape evaluation, and the result.')
    ctx.rule('default', 'Without a feature size, the one of the search is used: distance cutoff times the factor by which the search divides; one that is given is used as it is.')
    ctx.rule('source', 'The positions are those of all nodes of the search result, or of the result kept in a search state.')
    ctx.rule('shape', 'The shape is a point from all positions for dimension 0, the evaluated line for dimension 1 (none only if that failed), none otherwise.')
    ctx.assumptions += ['evaluating the dimension of a cluster may give any of none, 0, 1, 2, 3']
    s = Step(ctx)
    if None in (s.create, s.dimension, s.evaluate, s.ires, s.icont):
        ctx.undecided('entries', 'identify', 'a step was not found')
        return
    for name in ('run', 'run_from_positions'):
        f = function(ctx, name, 'identify')
        if f is None:
            ctx.undecided('entries', name, 'not found')
            continue
        entry(s, f)
    shapes(s)


def entry(s, f):
    ctx = s.ctx
    opaque = {s.create.fid, s.dimension.fid, s.evaluate.fid}
    size = param(f, 'feature_size')
    cases = [(None, 'a feature size that is given')]
    if param(f, 'result') is not None:
        cases.append((NONE, 'no feature size'))
    cases = [(g, w, T('in', 'result')) for g, w in cases]
    if param(f, 'result') is not None:
        cases += [(g, w + ', search state', self_of(s.roles.cls('state'))) for g, w, _ in cases]
    for given, what, result in cases:
        def setup(st):
            if size is not None and given is None:
                st.facts[('is',) + tuple(sorted((size, NONE)))] = False
        over = {} if given is None else {'feature_size': given}
        if param(f, 'result') is not None:
            over['result'] = result
        eng, rets, raises = ctx.analyse(f, args=(), kwargs=inputs(f, **over), monitor=Entries(s), opaque=opaque, label='%s, %s' % (f.qual, what), setup=setup, atomic=True)
        if not rets:
            ctx.undecided('entries', f.qual, 'no result')
        filled = False
        for st, v in rets:
            if st.taint:
                ctx.undecided('entries', f.qual, 'imprecise path')
                continue
            filled |= bool(one_path(s, f, st, strip_at(v), given, result))
        if not filled:
            ctx.undecided('entries', f.qual, 'no path on which an entry is made')


def say(ctx, rule, f, what, fn, *args):
    try:
        r = fn(*args)
    except Wrong as e:
        ctx.bad(rule, ctx.loc(f), f.qual, '%s: %s' % (what, e))
        return None
    except Top as e:
        ctx.undecided(rule, f.qual, '%s: %s' % (what, str(e)[:200]))
        return None
    ctx.ok(rule, '%s: %s' % (f.qual, what))
    return True if r is None else r


def want(value, *wanted):
    """The value must be one of the terms."""
    value = strip_at(value) if isinstance(value, T) else value
    if any(value is w for w in wanted):
        return
    if value is None:
        raise Wrong('not passed on')
    if is_const(value) or not any(any(y is w for y in walk(value)) for w in wanted if w is not None):
        raise Wrong('is %s' % show(value, 10)[:160])
    for w in wanted:
        try:
            k = factor(value, w)
        except Top:
            continue
        if k != 1:
            raise Wrong('is %s times what is wanted' % k)
        return
    raise Top('is %s' % show(value, 10)[:160])


def one_path(s, f, st, v, given, result):
    ctx = s.ctx
    inst = v.op == 'inst' and v.a[0] == s.icont.cid
    if not inst:
        if is_const(v):
            ctx.bad('entries', ctx.loc(f), f.qual, 'no identification result is returned: %s' % show(v))
        else:
            ctx.undecided('entries', f.qual, 'result %s' % show(v)[:120])
        return False
    # what the caller gave
    res = param(f, 'result')
    pos = param(f, 'positions')
    size_in = param(f, 'feature_size')
    coord = param(f, 'coordinate_system')
    method = param(f, 'evaluate_line_method')
    size = size_in
    base = None
    if res is not None:
        base = attr(result, 'result') if result is not res else res
        if result is res and any(val is True for k, val in st.facts.items() if k[0] == 'truth' and ext(k[1]) == 'builtins.isinstance' and mentions(k[1], res)):
            base = attr(res, 'result')
        coord = attr(base, 'coordinate_system')
        if result is not res:
            used = {y for x in (st.heap.get((v, 'coordinate_system')), st.heap.get((v, 'feature_size'))) if isinstance(x, T) for y in walk(x)}
            if base not in used and result in used:
                ctx.bad('source', ctx.loc(f), f.qual, 'a search state is not accepted: its %s is read' % ', '.join(sorted({y.a[1] for y in used if y.op == 'attr' and y.a[0] is result})))
                return False
    got = st.heap.get((v, 'coordinate_system'))
    say(ctx, 'options', f, 'coordinate system of the result', want, got, coord)
    got_size = st.heap.get((v, 'feature_size'))
    if size_in is not None and res is not None:
        size = default_size(s, f, st, base, size_in, got_size, given is NONE)
    else:
        say(ctx, 'options', f, 'feature size of the result', want, got_size, size_in)
    # the list of results
    lst = st.heap.get((v, 'results'))
    if lst is None:
        ctx.bad('entries', ctx.loc(f), f.qual, 'the results are not kept in the container')
        return False
    made = []
    try:
        lst = opened(lst, 'entries')
        if lst.op == 'comp' and len(lst.a[2]) == 1 and lst.a[0] != 'dict':
            e, it, conds = lst.a[2][0]
            it = opened(it, 'clusters')
            if not is_call(it, s.create):
                raise Top('entries of %s' % show(it)[:120])
            e = cluster(e, s)
            for c in conds:
                always(c, e, s)
            made.append((strip_at(lst.a[1]), e, it))
        elif lst.op == 'obj':
            for x in st.mon:
                if x[0] == 'mutate' and x[1] is lst and x[2] in ('append', 'extend'):
                    value = strip_at(x[3][0])
                    own = [(l, it, e) for l, it, e in x[4] if is_call(opened(it, 'clusters'), s.create)]
                    if len(own) != 1 or len(x[4]) != 1:
                        raise Top('entry added elsewhere')
                    made.append((value, cluster(own[0][2], s), opened(own[0][1], 'clusters')))
                elif x[0] == 'mutate' and x[1] is lst and x[2] in ('pop', 'clear', 'remove', '__delitem__'):
                    raise Wrong('an entry is removed again')
            for x in st.mon:
                if x[0] in ('none', 'break'):
                    opened(x[1], 'clusters')
                    skipped(s, x[3], cluster(x[2], s))
        else:
            raise Top('results %s' % show(lst)[:120])
    except Wrong as e:
        ctx.bad('entries', ctx.loc(f), f.qual, str(e))
        return False
    except Top as e:
        ctx.undecided('entries', f.qual, str(e)[:200])
        return False
    if ('twice',) in st.mon:
        ctx.bad('entries', ctx.loc(f), f.qual, 'the dimension of a cluster is estimated twice, at random: the two need not agree')
    for value, e, it in made:
        # clustering
        a = args_of(s.create, it)
        if res is not None:
            say(ctx, 'source', f, 'positions that are clustered', of_nodes, a.get('positions'), base)
        else:
            say(ctx, 'source', f, 'positions that are clustered', positions_of, a.get('positions'), pos)
        say(ctx, 'options', f, 'feature size of the clustering', want, a.get('feature_size'), size)
        say(ctx, 'options', f, 'coordinate system of the clustering', want, a.get('coordinate_system'), coord)
        if not (value.op == 'inst' and value.a[0] == s.ires.cid):
            ctx.undecided('entries', f.qual, 'entry %s' % show(value)[:120])
            continue
        fields = {}
        for x in st.mon:
            if x[0] == 'entry' and x[1] is value:
                fields = dict(x[2])
        p = fields.get('positions')
        if p is None:
            ctx.undecided('entries', f.qual, 'fields of an entry')
            continue
        say(ctx, 'entries', f, 'positions of an entry', entry_positions, p, e, st)
        d = fields.get('dimension')
        d = strip_at(d) if d is not None else NONE
        if is_call(d, s.dimension):
            b = args_of(s.dimension, d)
            say(ctx, 'entries', f, 'cluster whose dimension is kept', want, b.get('graph'), e)
            say(ctx, 'options', f, 'feature size of the dimension estimate', want, b.get('feature_size'), size)
            say(ctx, 'options', f, 'coordinate system of the dimension estimate', want, b.get('coordinate_system'), coord)
        elif is_const(d):
            ctx.bad('entries', ctx.loc(f), f.qual, 'the dimension that is kept is not estimated: %s' % show(d))
        else:
            ctx.undecided('entries', f.qual, 'dimension %s' % show(d)[:120])
        sh = fields.get('shape')
        sh = strip_at(sh) if sh is not None else NONE
        if is_call(sh, s.evaluate):
            b = args_of(s.evaluate, sh)
            say(ctx, 'entries', f, 'cluster whose shape is kept', want, b.get('graph'), e)
            say(ctx, 'entries', f, 'dimension for which the shape is evaluated', want, b.get('dim'), d)
            say(ctx, 'options', f, 'feature size of the shape', want, b.get('feature_size'), size)
            say(ctx, 'options', f, 'coordinate system of the shape', want, b.get('coordinate_system'), coord)
            if method is not None:
                say(ctx, 'options', f, 'method of the shape', want, b.get('evaluate_line_method'), method)
        elif is_const(sh):
            facts = [k for k, val in st.facts.items() if any(isinstance(y, T) and mentions(y, d) for y in k[1:])]
            if facts:
                ctx.undecided('entries', f.qual, 'shape depends on the dimension')
            else:
                ctx.bad('entries', ctx.loc(f), f.qual, 'the shape that is kept is not evaluated: %s' % show(sh))
        else:
            ctx.undecided('entries', f.qual, 'shape %s' % show(sh)[:120])
    return bool(made)


def positions_of(t, pos):
    for _ in range(6):
        if t is None:
            raise Wrong('not passed on')
        t = opened(t, 'positions')
        if t is pos:
            return
        if t.op == 'comp' and len(t.a[2]) == 1 and t.a[0] != 'dict':
            e, it, conds = t.a[2][0]
            if conds:
                raise Wrong('some positions are left out: %s' % show(conds[0]))
            same(t.a[1], e)
            t = it
        else:
            break
    raise Top('positions %s' % show(t)[:120])


def cluster_size(t, e):
    """Is t the number of nodes of the cluster, or its nodes?"""
    t = strip_at(t)
    b, m = method_of(t)
    if t is e or t.op == 'attr' and t.a[0] is e and t.a[1] == 'nodes':
        return 'nodes'
    if ext(t) == 'builtins.len' and t.a[1] and cluster_size(opened(t.a[1][0]), e) == 'nodes' or b is e and m in ('number_of_nodes', 'order', '__len__') and not t.a[1]:
        return 'size'
    return None


def skipped(s, facts, e):
    """A turn without an entry, under the facts: can it happen?"""
    why = None
    for k, val in facts:
        if k[0] == 'truth':
            t = strip_at(k[1])
            if cluster_size(t, e):
                if val is False:
                    return                      # a cluster has a node
                continue
            if is_call(t, s.dimension) or is_call(t, s.evaluate):
                why = 'if %s is %s' % (show(t)[:60], val)
                continue
        if k[0] == 'ord' and len(k) == 3:
            for i, j in ((1, 2), (2, 1)):
                if cluster_size(k[i], e) == 'size' and is_const(k[j]) and isinstance(cval(k[j]), (int, float)):
                    c = cval(k[j])
                    ok = [n for n in (1, 2, 3, 10, 1000) if ('<' if (n < c) == (i == 1) and n != c else '=' if n == c else '>') in val]
                    if not ok:
                        return
                    why = 'if it has %s positions' % ' or '.join(map(str, ok))
                    break
            else:
                if any(is_call(strip_at(k[i]), s.dimension) for i in (1, 2)):
                    why = 'depending on its dimension'
                else:
                    raise Top('clusters are left out: %s' % show(k[1])[:80])
            continue
        if k[0] in ('is', 'in') and any(isinstance(y, T) and (is_call(strip_at(y), s.dimension) or is_call(strip_at(y), s.evaluate)) for y in k[1:]):
            why = 'depending on its dimension or shape'
            continue
        if k[0] == 'is' and any(y is NONE for y in k[1:]) and any(y is e for y in k[1:]):
            if val is True:
                return
            continue
        raise Top('clusters are left out: %s' % str(k[0]))
    raise Wrong('a cluster is left out%s' % (' ' + why if why else ''))


def cluster(e, s):
    """The cluster in the element of a loop that may be numbered."""
    if isinstance(e, T) and e.op != 'elem':
        for y in walk(e):
            if y.op == 'elem' and is_call(opened(y.a[0], 'clusters'), s.create):
                return y
    return e


def always(c, e, s):
    if cluster_size(c, e):
        return
    if c.op == 'cmp' or c.op == 'compare':
        raise Top('some clusters may be left out: %s' % show(c))
    if any(is_call(y, s.dimension) for y in walk(c) if isinstance(y, T)):
        raise Wrong('some clusters are left out: %s' % show(c))
    raise Top('some clusters may be left out: %s' % show(c))


def default_size(s, f, st, base, size_in, got, none):
    """The feature size in use on this path."""
    ctx = s.ctx
    if got is None:
        ctx.bad('options', ctx.loc(f), f.qual, 'the feature size is not kept')
        return size_in
    got = strip_at(got)
    if not none:
        if got is size_in:
            ctx.ok('default', '%s: the feature size that is given' % f.qual)
        elif st.facts.get(('truth', size_in)) is False:
            ctx.bad('default', ctx.loc(f), f.qual, 'a feature size of 0 is replaced')
        elif mentions(got, size_in):
            ctx.undecided('default', f.qual, 'feature size %s' % show(got)[:120])
        else:
            ctx.bad('default', ctx.loc(f), f.qual, 'a feature size that is given is not used: %s' % show(got)[:120])
        return got
    try:
        k = factor(got, attr(base, 'dist_cutoff'))
        own = search_factor(s)
        if own is None:
            raise Top('factor of the search')
        if k != own:
            raise Wrong('default feature size is %s times the distance cutoff; in the search the cutoff is the feature size divided by %s' % (k, own))
    except Wrong as e:
        ctx.bad('default', ctx.loc(f), f.qual, str(e))
    except Top as e:
        if not any(y is attr(base, 'dist_cutoff') for y in walk(got)):
            ctx.bad('default', ctx.loc(f), f.qual, 'default feature size is %s' % show(got)[:120])
        else:
            ctx.undecided('default', f.qual, 'default feature size: %s' % str(e)[:120])
    else:
        ctx.ok('default', '%s: dist_cutoff * %s' % (f.qual, k))
    return got


def factor(t, base):
    """k with t == k * base."""
    from fractions import Fraction as F
    t = strip_at(t)
    if t is base:
        return F(1)
    if t.op == 'bin' and t.a[0] in '*/':
        l, r = strip_at(t.a[1]), strip_at(t.a[2])
        num = lambda x: is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool)
        if num(r) and cval(r):
            k = F(cval(r))
            return factor(l, base) * (k if t.a[0] == '*' else 1 / k)
        if num(l) and t.a[0] == '*':
            return factor(r, base) * F(cval(l))
    raise Top(show(t)[:100])


def search_factor(s):
    """By what the search divides its feature size to get the distance cutoff
    it hands to its result."""
    from .results import prog_types
    vals = prog_types(s.ctx.prog).init_of(s.roles.controller)
    vs = vals.get('dist_cutoff') or []
    ks = set()
    for v in vs:
        try:
            ks.add(1 / factor(v, T('in', 'feature_size')))
        except (Top, ZeroDivisionError):
            return None
    return ks.pop() if len(ks) == 1 else None


def shapes(s):
    ctx, f = s.ctx, s.evaluate
    graph, coord, size, method, dim = (param(f, n) for n in ('graph', 'coordinate_system', 'feature_size', 'evaluate_line_method', 'dim'))
    if None in (graph, coord, dim) or s.line is None:
        ctx.undecided('shape', f.qual, 'parameters or _evaluate_line not found')
        return
    cls = s.roles.cls('coord')
    avg = ctx.prog.find_method(cls, 'average')
    me = self_of(cls)
    for d in DIMS:
        eng, rets, raises = ctx.analyse(f, args=(), kwargs=inputs(f, dim=const(d), coordinate_system=me), monitor=Caught(s.line), opaque={s.line.fid} | ({avg.fid} if avg else set()), label='%s, dimension %s' % (f.qual, d), atomic=True)
        if not rets:
            if raises and not any(st.taint for st, _ in raises):
                ctx.bad('shape', ctx.loc(f), f.qual, 'a cluster of dimension %s ends the identification' % d)
            else:
                ctx.undecided('shape', f.qual, 'no result for dimension %s' % d)
        for st, v in rets:
            v = strip_at(v)
            if st.taint:
                ctx.undecided('shape', f.qual, 'imprecise path')
                continue
            say(ctx, 'shape', f, 'shape for dimension %s' % d, shape_of, s, f, d, st, v, graph, me, avg, size, method)
        for st, exc in raises:
            if d != 1 and not st.taint and exc.op == 'exc' and exc.a[0] in 'BX' and 'assert' not in str(exc.a[1]) and d not in (0,):
                ctx.bad('shape', ctx.loc(f), f.qual, 'a cluster of dimension %s ends the identification: %s' % (d, show(exc)[:80]))
    # every result of the line evaluation is a line
    line = s.roles.cls('line')
    f = s.line
    eng, rets, raises = ctx.analyse(f, label=f.qual, opaque={x.fid for x in ctx.prog.functions.values() if x.module.name.startswith(f.module.name.rsplit('.', 1)[0]) and x is not f and x.cls is None and x.parent is None}, atomic=True)
    for st, v in rets:
        v = strip_at(v)
        if v.op == 'inst' and v.a[0] == line.cid:
            ctx.ok('shape', '%s: a line' % f.qual)
        elif is_const(v) and not st.taint:
            ctx.bad('shape', ctx.loc(f), f.qual, 'the evaluation of a line gives %s' % show(v))
        else:
            ctx.undecided('shape', f.qual, 'result %s' % show(v)[:100])


class Caught(Monitor):
    """Whether the line evaluation was tried and failed."""

    def __init__(self, line):
        self.line = line

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and getattr(ev.fn, 'fid', None) == self.line.fid:
            return m + (('line',),) if ('line',) not in m else m
        if ev.kind in ('callexc',) and getattr(ev.fn, 'fid', None) == self.line.fid or ev.kind == 'caught':
            return m + (('failed',),) if ('failed',) not in m else m
        return m


def shape_of(s, f, d, st, v, graph, coord, avg, size, method):
    point, line = s.roles.cls('point'), s.roles.cls('line')
    is_point = v.op == 'inst' and v.a[0] == point.cid
    is_line = is_call(v, s.line) or v.op == 'inst' and v.a[0] == line.cid
    if d == 0:
        if is_point:
            p = st.heap.get((v, 'position'))
            if p is None:
                raise Top('position of the point')
            p = strip_at(p)
            for _ in range(3):
                if ext(p) in ('builtins.tuple', 'numpy.array', 'builtins.list') and p.a[1]:
                    p = strip_at(p.a[1][0])
            if avg is not None and is_call(p, avg) or p.op == 'call' and p.a[0].op in ('bound', 'attr') and 'average' in str(p.a[0].a[-1]):
                xs = [x for x in list(p.a[1]) + [x for _, x in p.a[2]] if not (x.op == 'inst' or x is coord)]
                if len(xs) == 1:
                    return all_nodes(xs[0], graph)
            if not mentions(p, graph):
                raise Wrong('the point is not at the positions of the cluster: %s' % show(p)[:100])
            raise Top('position of the point: %s' % show(p, 12)[:160])
        if is_line or is_const(v):
            raise Wrong('the shape is %s' % show(v)[:80])
        raise Top(show(v)[:100])
    if d == 1:
        if is_call(v, s.line):
            a = args_of(s.line, v)
            want(a.get('graph'), graph)
            want(a.get('coordinate_system'), coord)
            if size is not None and param(s.line, 'feature_size') is not None:
                want(a.get('feature_size'), size)
            if method is not None and param(s.line, 'method') is not None:
                want(a.get('method'), method)
            return
        if is_const(v) and cval(v) is None:
            if ('failed',) in st.mon:
                return
            raise Wrong('no line is identified')
        if is_point:
            raise Wrong('the shape is a point')
        raise Top(show(v)[:100])
    if is_point or is_line:
        raise Wrong('the shape is %s' % show(v)[:80])
    if is_const(v):
        if cval(v) is None:
            return
        raise Wrong('the shape is %s' % show(v))
    raise Top(show(v)[:100])
