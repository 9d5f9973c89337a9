"""C29: plots show everything they are asked to show.

The plotting functions are interpreted on results of a small fixed shape whose
numbers are unknown; the coordinates that reach the drawing methods of the
axis are evaluated to tell which number ends up where, and are compared with
what is to be drawn."""

import itertools

from ..engine import Monitor, strip_at
from ..nested import FAIL, Small, Seq, Unknown, shape, flat, arr
from ..terms import T, walk, show, is_const, cval, const
from .graphs import method_of, nx
from .identify import inputs
from .queues import ext

NODES = 3
DEBUG = False
STEPS = 2
SCATTER = ('scatter', 'scatter3D')
LINES = ('plot', 'plot3D')
LIMIT = {'set_xlim': 0, 'set_ylim': 1, 'set_zlim': 2, 'set_xlim3d': 0, 'set_ylim3d': 1, 'set_zlim3d': 2, 'set_xbound': 0, 'set_ybound': 1, 'set_zbound': 2}
SURFACE = ('plot_surface', 'plot_wireframe', 'plot_trisurf')
HARMLESS = {'set_xlabel', 'set_ylabel', 'set_zlabel', 'set_title', 'legend', 'grid', 'set_aspect', 'view_init', 'get_figure', 'set_box_aspect', 'tick_params', 'set_facecolor', 'get_next_color'}


def tup(*xs):
    return T('tuple', tuple(xs))


def array(t):
    return T('call', T('ext', 'numpy.array'), (t,), ())


def num(name):
    return T('in', name)


class Draw(Monitor):
    """Remembers the calls of methods of the axis, and of pyplot."""

    def __init__(self, small, opaque=()):
        self.small, self.opaque = small, set(opaque)

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and getattr(ev, 'fn', None) is not None and hasattr(ev.fn, 'fid') and ev.fn.fid in self.opaque:
            return m + (('fn', ev.fn.fid, tuple(ev.args), tuple(sorted((ev.kwargs.items() if isinstance(ev.kwargs, dict) else ev.kwargs), key=lambda kv: kv[0])), ev.node, eng.func, bool(ev.loops)),)
        if ev.kind == 'call' and getattr(ev, 'unknown', False) or ev.kind in ('mutate', 'storesub') and strip_at(ev.base).op in ('elem', 'sub', 'phi', 'tuple', 'seqv', 'seq'):
            return m + (('?', None, '?', None, (), ev.node, eng.func, True, ()),)
        if ev.kind == 'call' and isinstance(ev.name, str):
            if ev.name.startswith('.') and isinstance(getattr(ev, 'recv', None), T):
                kind, recv, name = 'axis', strip_at(ev.recv), ev.name[1:]
            elif ev.name.startswith('matplotlib.') or ev.name.startswith('mpl_toolkits.'):
                kind, recv, name = 'plt', None, ev.name
            else:
                return m
            if name in ('debug', 'info'):
                return m
            try:
                args = self.small.spread(ev.args, lambda y: self.val(y, st, eng))
            except FAIL:
                args = None
            kw = {}
            for k, y in dict(ev.kwargs).items():
                kw[k] = self.val(y, st, eng) if isinstance(y, T) else y
            return m + ((kind, recv, name, freeze(args), freeze(sorted(kw.items(), key=lambda x: x[0])), ev.node, eng.func, bool(ev.loops), tuple(dict(ev.kwargs))),)
        return m

    def val(self, t, st, eng):
        try:
            return self.small.value(t, st, eng)
        except FAIL as exc:
            if DEBUG:
                print('not evaluated:', show(t, 30), exc)
            return Opaque(t)


class Opaque:
    """A value that was not evaluated."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.t is o.t

    def __hash__(self):
        return hash(('opaque', self.t))

    def __repr__(self):
        return show(self.t)


class Frozen(tuple):
    """A list that was evaluated."""


def freeze(v):
    if isinstance(v, list):
        return Frozen(freeze(x) for x in v)
    if type(v) is tuple and len(v) == 2 and isinstance(v[0], str):
        return (v[0], freeze(v[1]))
    return v


def thaw(v):
    return [thaw(x) for x in v] if isinstance(v, Frozen) else v


class Call:
    def __init__(self, x):
        self.kind, self.recv, self.name, args, kw, self.node, self.func, self.inloop, _ = x
        self.args = None if args is None else [thaw(a) for a in args]
        self.kw = {k: thaw(v) for k, v in kw}


class World:
    """Objects of a small fixed shape."""

    def __init__(self, ctx, dim):
        self.prog, self.dim = ctx.prog, dim
        self.cls = {}
        for c in ctx.prog.classes.values():
            self.cls.setdefault(c.name, c)
        self.sets = []
        self.expected = []

    def inst(self, cname, name, **attrs):
        c = self.cls[cname]
        i = T('inst', c.cid, name, False)
        for k, v in attrs.items():
            self.sets.append(((i, k), v))
        return i

    def setup(self, st):
        for k, v in self.sets:
            st.heap[k] = v

    def list(self, name, items):
        o = T('obj', 'list', ('world', name))
        self.sets.append(((o, '#'), T('seq', tuple(items))))
        return o

    def point(self, name):
        return [num('%s%s' % (name, 'xyz'[k])) for k in range(self.dim)]

    def coords(self, name):
        return array(tup(*self.point(name)))

    def limits(self):
        return [(num('lo%d' % k), num('hi%d' % k)) for k in range(self.dim)]

    def system(self):
        return self.inst('CoordinateSystem', 'cs', limits=array(tup(*[tup(*x) for x in self.limits()])), dim=const(self.dim))

    def simplex(self, name):
        return [self.point('%s.%d.' % (name, j)) for j in range(self.dim + 1)]

    def history(self, name, steps=STEPS):
        return [self.simplex('%s.%d' % (name, i)) for i in range(steps)]

    def node(self, i, steps=STEPS):
        h = self.history('s%d' % i, steps)
        return self.inst('MinimizationResult', 'node%d' % i, pos=self.coords('p%d' % i), value=num('value%d' % i), success=const(True),
                         simplex_history=array(tup(*[tup(*[tup(*p) for p in s]) for s in h])))

    def result(self, size=NODES, steps=STEPS):
        nodes = [self.node(i, steps) for i in range(size)]
        cells = self.inst('CellList', 'cells', _values_flat=self.list('values', nodes))
        return self.inst('SearchResultContainer', 'result', coordinate_system=self.system(), nodes=cells, gap_threshold=num('gap_threshold'), dist_cutoff=num('dist_cutoff')), nodes


class Case:
    """One analysis: the drawing of each path."""

    def __init__(self, ctx, f, world, axis, size=None, opaque=(), small=None, **given):
        self.ctx, self.f, self.world = ctx, f, world
        small = small or Small()
        self.log = Draw(small, opaque)
        self.axis = num('axis') if axis else const(None)
        kwargs = inputs(f, **dict(given, axis=self.axis))
        try:
            self.eng, self.rets, self.raises = ctx.analyse(f, args=(), kwargs=kwargs, monitor=self.log, setup=world.setup, opaque=opaque, small=small,
                                                           label='%s in %d dimensions, %s' % (f.qual, world.dim, 'axis given' if axis else 'no axis given') + ('' if size is None else ', %d shown' % size))
        except RecursionError:
            self.eng, self.rets, self.raises = None, [], []
        self.given = axis
        self.empty = size == 0

    def paths(self):
        for st, v in self.rets:
            if st.taint:
                continue
            yield st, v, [x for x in st.mon]


def is_axis(case, t, made):
    return t is case.axis or t in made


AXES = {'add_subplot', 'gca', 'add_axes'}
MAKE = {'matplotlib.pyplot.axes', 'matplotlib.pyplot.subplot', 'matplotlib.pyplot.gca', 'matplotlib.figure.Figure.add_subplot', 'mpl_toolkits.mplot3d.Axes3D', 'mpl_toolkits.mplot3d.axes3d.Axes3D'}


def new_axis(t):
    """Is a term a newly made axis?"""
    t = strip_at(t)
    n = ext(t)
    b, m = method_of(t)
    if n in MAKE:
        return True
    if m in AXES and b is not None:
        return True
    if t.op == 'sub' and ext(strip_at(t.a[0])) == 'matplotlib.pyplot.subplots':
        return is_const(t.a[1]) and cval(t.a[1]) in (1, -1)
    if m == 'subplots' and b is not None:
        return True
    return False


def projection(t):
    """The projection of a new axis: '3d', None, or Unknown."""
    t = strip_at(t)
    n = ext(t)
    if n and 'Axes3D' in n:
        return '3d'
    if t.op == 'sub':
        t = strip_at(t.a[0])
    kw = dict(t.a[2])
    p = kw.get('projection')
    for name in ('subplot_kw', 'kwargs', '**'):
        if p is None and name in kw:
            raise Unknown('projection')
    if p is None:
        return None
    if not is_const(p):
        raise Unknown('projection')
    return cval(p)


def figures(t):
    t = strip_at(t)
    b, m = method_of(t)
    if m in AXES:
        return strip_at(b)
    if t.op == 'sub':
        return T('sub', t.a[0], const(0))
    return None


class Judge:
    def __init__(self, ctx, case, rule):
        self.ctx, self.case, self.rule = ctx, case, rule
        self.f = case.f
        self.where = '%s (%d dimensions, %s)' % (case.f.qual, case.world.dim, 'axis given' if case.given else 'no axis')

    def bad(self, rule, call, msg):
        f, node = (call.func, call.node) if call is not None else (self.f, self.f.node)
        self.ctx.bad(rule, self.ctx.loc(f, node), f.qual, '%s: %s' % (self.where, msg))

    def ok(self, rule, what=''):
        self.ctx.ok(rule, self.where + (' ' + what if what else ''))

    def open(self, rule, why):
        self.ctx.undecided(rule, self.where, why)


def look(ctx, case, expect_points=None, expect_segments=None, values=None, limits=None, returns=True, calls=None, complete=True):
    """Check everything about one case."""
    j = Judge(ctx, case, None)
    n = 0
    for st, v, trace in case.paths():
        n += 1
        fns = [x for x in trace if x[0] == 'fn']
        cs = [Call(x) for x in trace if x[0] != 'fn']
        draws = [c for c in cs if c.kind == 'axis' and c.name in SCATTER + LINES]
        foreign = [c for c in cs if c.kind == 'plt' and c.name.split('.')[-1] in ('scatter', 'plot', 'xlim', 'ylim')]
        other = [c for c in cs if c.kind == 'axis' and (c.name.startswith('add_') and c.name not in AXES or c.name in ('update', 'set', 'quiver', 'fill', 'text', 'plot_trisurf', 'hlines', 'vlines', 'errorbar', 'step'))]
        other += [c for c in cs if c.kind == 'plt' and 'Collection' in c.name or c.kind == '?']
        axes(j, case, draws, foreign, cs, st, v, returns)
        if limits is not None:
            check_limits(j, case, cs, limits, other)
        points, segments, whole = drawn(draws)
        if foreign or other:
            whole = False
        if expect_points is not None:
            check_points(j, points, expect_points, values, whole, draws)
        if expect_segments is not None:
            check_segments(j, segments, expect_segments, whole, draws)
        if calls is not None:
            calls(j, st, fns, points, segments, whole, draws)
    if not n and case.raises and not case.rets and all(not st.taint and exc.a[0] == 'X' for st, exc in case.raises):
        if case.empty:
            j.open('drawn', 'an exception is raised if there is nothing to be drawn')
        else:
            j.bad('drawn', None, 'nothing is drawn, an exception is raised')
    elif not n:
        j.open('drawn', 'no path of this case is followed to its end')
    return n


def drawn(draws):
    """(points with colour, segments, all evaluated?)"""
    points, segments, whole = [], [], True
    for c in draws:
        if c.args is None or c.inloop:
            whole = False
            continue
        args = list(c.args)
        for k, name in enumerate(('xs', 'ys', 'zs')):
            if name in c.kw and len(args) == k:
                args.append(c.kw[name])
        for k, name in enumerate(('x', 'y')):
            if name in c.kw and len(args) == k:
                args.append(c.kw[name])
        coords = []
        for a in args:
            if isinstance(a, str):
                break
            coords.append(a)
        if any(isinstance(y, Opaque) for y in flat(coords)):
            whole = False
            continue
        if c.name in SCATTER:
            rows = [x if isinstance(x, list) else [x] for x in coords]
            rows = [flat(x) for x in rows]
            if not rows:
                whole = False
                continue
            if len({len(r) for r in rows}) != 1:
                if not {len(r) for r in rows} <= {1, max(len(r) for r in rows)}:
                    whole = False
                    continue
                k = max(len(r) for r in rows)
                rows = [r * k if len(r) == 1 else r for r in rows]
            colour = c.kw.get('c', c.kw.get('color'))
            for i, p in enumerate(zip(*rows)):
                if isinstance(colour, list):
                    fl = flat(colour)
                    col = fl[i] if len(fl) == len(rows[0]) else None
                else:
                    col = colour
                points.append((tuple(p), col, c))
        else:
            if not all(isinstance(x, list) for x in coords):
                whole = False
                continue
            sh = [shape(arr(x)) for x in coords]
            if len(set(sh)) != 1:
                whole = False
                continue
            if len(sh[0]) == 2:        # one line per column
                for k in range(sh[0][1]):
                    ps = [tuple(x[i][k] for x in coords) for i in range(sh[0][0])]
                    segments += [(a, b, c) for a, b in zip(ps, ps[1:])]
                continue
            ps = list(zip(*coords))
            segments += [(a, b, c) for a, b in zip(ps, ps[1:])]
    return points, segments, whole


def atoms(p):
    return all(isinstance(x, T) for x in p)


def name(x):
    if isinstance(x, T):
        return show(x)
    if type(x) is tuple and len(x) == 2 and isinstance(x[0], str):
        return '%s of %s' % (x[0], ', '.join(sorted(name(y) for y in x[1])[:4]))
    return str(x)[:80]


def names(p):
    return '(%s)' % ', '.join(name(x) for x in p)


def check_points(j, points, expected, values, whole, draws):
    have = {}
    for p, col, c in points:
        have.setdefault(p, []).append((col, c))
    for i, p in enumerate(expected):
        p = tuple(p)
        if p not in have:
            if whole:
                sample = ', '.join(names(q) for q in list(have)[:3]) or 'none'
                j.bad('drawn', draws[0] if draws else None, 'the point %s is not drawn at its position (drawn: %s)' % (names(p), sample))
                return
            j.open('drawn', 'whether the point %s is drawn' % names(p))
            continue
        j.ok('drawn', names(p))
        if values is not None:
            cols = [col for col, c in have[p]]
            if values[i] in cols:
                j.ok('colour', names(p))
            elif all(isinstance(col, T) or col is None for col in cols):
                j.bad('colour', have[p][0][1], 'the point %s is not coloured by its value, but by %s' % (names(p), cols[0] if cols[0] is None else show(cols[0])))
                return
            else:
                j.open('colour', 'colour of %s' % names(p))


def check_segments(j, segments, expected, whole, draws):
    have = {frozenset((a, b)) for a, b, c in segments}
    for a, b in expected:
        if frozenset((tuple(a), tuple(b))) in have:
            j.ok('drawn', 'edge %s-%s' % (names(a), names(b)))
        elif whole:
            j.bad('drawn', draws[0] if draws else None, 'the edge from %s to %s is not drawn' % (names(a), names(b)))
            return
        else:
            j.open('drawn', 'whether the edge from %s to %s is drawn' % (names(a), names(b)))
            return


def axes(j, case, draws, foreign, cs, st, v, returns):
    """All drawing is done on the axis given, or one that was made; it is
    returned."""
    eng = case.eng
    used = []
    for c in draws + [c for c in cs if c.kind == 'axis' and c.name in tuple(LIMIT) + SURFACE]:
        if c.recv not in [u for u, _ in used]:
            used.append((c.recv, c))
    if case.given:
        for t, c in used:
            if t is case.axis:
                j.ok('axis', 'the axis given is used')
            elif new_axis(t):
                j.bad('axis', c, 'although an axis is given, %s is called on another one' % c.name)
            else:
                j.open('axis', 'drawing on %s' % show(t))
        for c in foreign:
            j.bad('axis', c, 'although an axis is given, %s draws on the current one' % c.name)
    else:
        for t, c in used:
            if new_axis(t):
                try:
                    p = projection(t)
                    want = case.world.dim == 3
                    if (p == '3d') == want:
                        j.ok('axis', 'the new axis has the right number of dimensions')
                    else:
                        j.bad('axis', c, 'the new axis is made with projection %r for %d dimensions' % (p, case.world.dim))
                except Unknown:
                    j.open('axis', 'projection of %s' % show(t))
            elif t is case.axis:
                j.bad('axis', c, '%s is called on None' % c.name)
            else:
                j.open('axis', 'drawing on %s' % show(t))
        if len([t for t, c in used if new_axis(t)]) > 1:
            j.open('axis', 'several new axes')
    if not returns:
        return
    v = strip_at(v) if isinstance(v, T) else v
    items = eng.seq_items(st, v) if isinstance(v, T) else None
    if items is None or len(items) != 2:
        if items is not None or is_const(v) or v is case.axis or new_axis(v):
            j.bad('returned', None, 'the figure and the axis are not returned: %s' % show(v))
        else:
            j.open('returned', show(v))
        return
    fig, ax = [strip_at(x) for x in items]
    targets = [t for t, c in used]
    if case.given:
        good = ax is case.axis
    else:
        good = ax in targets or not targets and new_axis(ax)
    if good:
        j.ok('returned', 'axis')
    elif is_const(ax) or ax is case.axis or new_axis(ax) or ax.op == 'call' and method_of(ax)[1] is None and (ext(ax) or '').endswith('.figure'):
        j.bad('returned', None, 'the second value returned is not the axis used, but %s' % show(ax))
    else:
        j.open('returned', show(ax))
    if case.given:
        if is_const(fig) and cval(fig) is None or fig.op == 'attr' and fig.a[1] == 'figure' or method_of(fig)[1] == 'get_figure':
            j.ok('returned', 'figure')
        elif (ext(fig) or '').endswith('.figure'):
            j.bad('returned', None, 'although an axis is given, a new figure is returned')
        else:
            j.open('returned', show(fig))
    else:
        if any(figures(t) is fig for t in targets) or fig.op == 'attr' and fig.a[1] == 'figure' or method_of(fig)[1] == 'get_figure':
            j.ok('returned', 'figure')
        elif is_const(fig) or (ext(fig) or '').endswith('.figure') and any(figures(t) is not None and figures(t).op == 'call' for t in targets):
            j.bad('returned', None, 'the first value returned is not the figure made, but %s' % show(fig))
        else:
            j.open('returned', show(fig))


def known(a):
    return isinstance(a, T) or isinstance(a, (int, float)) or type(a) is tuple and a[0] in ('min', 'max') and all(isinstance(x, T) for x in a[1])


def check_limits(j, case, cs, limits, other):
    got = {}
    for c in cs:
        if c.kind == 'axis' and c.name in LIMIT:
            k = LIMIT[c.name]
            args = c.args
            if args is None:
                got.setdefault(k, []).append((None, c))
                continue
            args = args[0] if len(args) == 1 and isinstance(args[0], list) else list(args)
            for a, b in (('left', 'right'), ('bottom', 'top'), ('xmin', 'xmax'), ('ymin', 'ymax'), ('zmin', 'zmax'), ('lower', 'upper')):
                if a in c.kw and not args:
                    args = [c.kw[a]]
                if b in c.kw and len(args) == 1:
                    args = [args[0], c.kw[b]]
            got.setdefault(k, []).append((args, c))
        elif c.kind == 'axis' and c.name == 'set':
            for k, name in enumerate(('xlim', 'ylim', 'zlim')):
                if name in c.kw:
                    got.setdefault(k, []).append((c.kw[name] if isinstance(c.kw[name], list) else None, c))
        elif c.kind == 'axis' and c.name in ('axis', 'autoscale', 'autoscale_view', 'margins', 'update', 'properties'):
            got.setdefault('?', []).append((None, c))
    for k in range(case.world.dim):
        xs = got.get(k)
        want = list(limits[k])
        if not xs:
            if '?' in got or other:
                j.open('limits', 'limits of dimension %d' % k)
            else:
                j.bad('limits', None, 'the axis is not limited to the limits of coordinate %s' % 'xyz'[k])
            continue
        args, c = xs[-1]
        if args is not None and list(args) == want:
            j.ok('limits', 'xyz'[k])
        elif args is None or any(isinstance(a, Opaque) or not known(a) for a in args):
            j.open('limits', '%s' % (args,))
        else:
            j.bad('limits', c, 'the axis is limited to %s in %s, instead of %s' % (names(args), 'xyz'[k], names(want)))


def find(ctx, name, part):
    fs = [f for f in ctx.prog.functions.values() if f.qual == name and f.parent is None and ('.%s.' % part) in f.module.name + '.' and 'plot' in f.module.name]
    return fs[0] if len(fs) == 1 else None


def c29(ctx):
    ctx.rule('drawn', 'everything to be shown is drawn where it is')
    ctx.rule('colour', 'nodes are coloured by their values')
    ctx.rule('axis', 'all drawing goes to the axis given, or a new one with the right number of dimensions')
    ctx.rule('limits', 'the axis is limited to the coordinate limits')
    ctx.rule('returned', 'the figure and axis used are returned')
    ctx.rule('paths', 'every edge of a line is in one of the paths drawn, or crosses the boundary')
    for dim in (2, 3):
        for axis in (True, False):
            points(ctx, dim, axis)
            simplices(ctx, dim, axis)
            stencil(ctx, dim, axis)
            identified(ctx, dim, axis)
        # nothing or one thing to be shown, one step
        for size in (0, 1):
            points(ctx, dim, True, size)
            simplices(ctx, dim, True, size, 1)
        stencil(ctx, dim, True, 1)
        identified(ctx, dim, True, 1)
    for dim in (2, 3):
        nodal_point(ctx, dim)
        nodal_line(ctx, dim)
    graph_paths(ctx)
    ctx.assumptions += [
        'results have %d nodes with %d steps each; more of them are treated by the same code, the number itself is looked at only for slices and comparisons with constants below it' % (NODES, STEPS),
        'methods of matplotlib axes draw what their documentation says',
    ]
    ctx.explanation = 'plotting functions interpreted on results of small fixed shape with unknown numbers, in two and three dimensions, with and without a given axis; the arguments of every drawing call are evaluated and compared with what is to be drawn'


def points(ctx, dim, axis, size=NODES):
    f = find(ctx, 'points', 'search')
    if f is None:
        ctx.undecided('drawn', 'search.plot.points', 'not found')
        return
    w = World(ctx, dim)
    res, nodes = w.result(size)
    case = Case(ctx, f, w, axis, size, result=res)
    look(ctx, case, expect_points=[w.point('p%d' % i) for i in range(size)], values=[num('value%d' % i) for i in range(size)], limits=w.limits())


def edges(simplex):
    return list(itertools.combinations([tuple(p) for p in simplex], 2))


def simplices(ctx, dim, axis, size=2, steps=STEPS):
    f = find(ctx, 'simplices', 'search')
    if f is None:
        ctx.undecided('drawn', 'search.plot.simplices', 'not found')
        return
    w = World(ctx, dim)
    res, nodes = w.result(steps=steps)
    case = Case(ctx, f, w, axis, size, result=res, nodes=w.list('nodes', nodes[:size]))
    look(ctx, case, expect_segments=[e for i in range(size) for s in w.history('s%d' % i, steps) for e in edges(s)], limits=w.limits())


def stencil(ctx, dim, axis, size=3):
    f = find(ctx, 'stencil', 'search')
    if f is None:
        ctx.undecided('drawn', 'search.plot.stencil', 'not found')
        return
    w = World(ctx, dim)
    shapes = [w.simplex('t%d' % i) for i in range(size)]
    case = Case(ctx, f, w, axis, size, stcl=array(tup(*[tup(*[tup(*p) for p in s]) for s in shapes])))
    vs = [p for s in shapes for p in s]
    lim = [(('min', frozenset(p[k] for p in vs)), ('max', frozenset(p[k] for p in vs))) for k in range(dim)]
    look(ctx, case, expect_segments=[e for s in shapes for e in edges(s)], limits=lim)


def identified(ctx, dim, axis, size=2):
    f = find(ctx, 'result', 'identify')
    point, line = find(ctx, 'nodal_point', 'identify'), find(ctx, 'nodal_line', 'identify')
    if f is None or point is None or line is None:
        ctx.undecided('drawn', 'identify.plot', 'functions not found')
        return
    w = World(ctx, dim)
    loose = [w.point('q%d' % i) for i in range(size)]
    shape_p = w.inst('NodalPoint', 'point', position=w.coords('pt'))
    shape_l = w.inst('NodalLine', 'line', graph=num('graph'), degree_count=num('degree_count'))
    pos = w.list('positions', [tup(*p) for p in loose])
    rest = w.list('rest', [tup(*w.point('r%d' % i)) for i in range(2)])
    entries = [w.inst('IdentificationResult', 'r0', positions=pos, dimension=const(None), shape=const(None)),
               w.inst('IdentificationResult', 'r1', positions=rest, dimension=const(0), shape=shape_p),
               w.inst('IdentificationResult', 'r2', positions=rest, dimension=const(1), shape=shape_l)]
    extra = [w.point('u%d' % i) for i in range(size)]
    pos2 = w.list('positions2', [tup(*p) for p in extra])
    entries.append(w.inst('IdentificationResult', 'r3', positions=pos2, dimension=const(2), shape=const(None)))
    res = w.inst('IdentificationResultContainer', 'res', coordinate_system=w.system(), feature_size=num('feature_size'), results=w.list('results', entries))
    case = Case(ctx, f, w, axis, size, opaque=(point.fid, line.fid), res=res)

    def calls(j, st, fns, pts, segs, whole, draws):
        for g, shp, what in ((point, shape_p, 'point'), (line, shape_l, 'line')):
            hits = []
            for x in fns:
                if x[1] != g.fid:
                    continue
                T('call', T('func', g.fid, None), x[2], x[3])
                d = bind(g, x[2], dict(x[3]))
                hits.append((d, x))
            mine = [(d, x) for d, x in hits if strip_at(d.get('shape', const(None))) is shp]
            if not mine:
                if whole and not any(p == tuple(w.point('pt')) for p, _, _ in pts) and not any(x[6] for _, x in hits):
                    j.bad('drawn', None, 'the nodal %s of a result is not drawn' % what)
                else:
                    j.open('drawn', 'nodal %s' % what)
                continue
            j.ok('drawn', 'nodal %s' % what)
            d, x = mine[0]
            ax = strip_at(d.get('axis', const(None)))
            if case.given and ax is case.axis or not case.given and new_axis(ax):
                j.ok('axis', 'nodal %s' % what)
            elif is_const(ax) or new_axis(ax):
                ctx.bad('axis', ctx.loc(x[5], x[4]), x[5].qual, 'the nodal %s is drawn on %s' % (what, show(ax)))
            else:
                j.open('axis', 'nodal %s on %s' % (what, show(ax)))
            if what == 'line':
                fs = d.get('feature_size')
                if fs is not None and strip_at(fs) is num('feature_size'):
                    j.ok('drawn', 'feature size of the line')
                elif fs is None or is_const(fs):
                    ctx.bad('drawn', ctx.loc(x[5], x[4]), x[5].qual, 'the line is not cut at the boundary: its feature size is not passed on')
                else:
                    j.open('drawn', 'feature size of the line')
    look(ctx, case, expect_points=loose + extra, limits=w.limits(), calls=calls)


def bind(f, args, kwargs):
    a = f.node.args
    d = dict(zip([x.arg for x in a.posonlyargs + a.args], args))
    d.update(kwargs)
    return d


def nodal_point(ctx, dim):
    f = find(ctx, 'nodal_point', 'identify')
    if f is None:
        return
    w = World(ctx, dim)
    case = Case(ctx, f, w, True, shape=w.inst('NodalPoint', 'point', position=w.coords('pt')))
    look(ctx, case, expect_points=[w.point('pt')], returns=False)


def nodal_line(ctx, dim):
    f = find(ctx, 'nodal_line', 'identify')
    if f is None:
        return
    w = World(ctx, dim)
    shape_l = w.inst('NodalLine', 'line', graph=num('graph'), degree_count=num('degree_count'))
    helper = find(ctx, '_get_graph_paths', 'identify')
    nodes = [w.point('n%d' % i) for i in range(5)]
    if helper is None:
        ctx.undecided('drawn', 'nodal_line', 'the helper that gives the paths is not found')
        return
    for size in (num('feature_size'), const(None)):
        for paths in ([nodes[:3], nodes[3:]], []):
            small = Small()
            small.funcs = {helper.fid: Seq(Seq(Seq(p) for p in path) for path in paths)}
            small.graphs = {num('graph'): Seq(Seq(p) for p in nodes)}
            case = Case(ctx, f, w, True, opaque=(helper.fid,), small=small, shape=shape_l, feature_size=size)

            def calls(j, st, fns, pts, segs, whole, draws):
                for x in fns:
                    d = bind(helper, x[2], dict(x[3]))
                    t = strip_at(d.get('feature_size', const(None)))
                    if size.op == 'const':
                        right = ext(t) is None and (t.op == 'ext' and t.a[0] in ('numpy.inf', 'math.inf') or is_const(t) and cval(t) == float('inf')) or show(t) in ("builtins.float('inf')",)
                        wrong = is_const(t) and not right
                    else:
                        right, wrong = t is size, is_const(t) or t.op == 'ext'
                    if right:
                        j.ok('paths', 'feature size')
                    elif wrong:
                        j.bad('paths', None, 'the line is cut as if the feature size was %s' % show(t))
                    else:
                        j.open('paths', 'feature size %s' % show(t))
            if paths:
                look(ctx, case, expect_segments=[(tuple(a), tuple(b)) for p in paths for a, b in zip(p, p[1:])], returns=False, calls=calls)
            else:
                look(ctx, case, expect_points=nodes, returns=False, calls=calls)


AGAIN = ('again', )


class Trail(Monitor):
    """How the links of the working graph are used up: per iteration of the
    loop that removes them, the links removed, the points added to lists, the
    lists stored in other lists, and the variables at its start and end."""
    keep_locals = True

    def __init__(self, names=frozenset()):
        self.names = names       # variables holding the path that is extended
        self.put = set()
        self.loop = set()        # loops that remove links
        self.steps = {}          # ends of their iterations
        self.left = {}           # where a path was not stored
        self.early = False       # paths are stored when they are started

    def init(self):
        return ((), (), (), ())  # start of the iteration, what it does, lists stored, path not stored

    def locals(self, st, eng):
        return tuple(sorted(((v, strip_at(x), st.heap.get((strip_at(x), '#'))) for v, x in st.frames[eng.frame].items()
                             if isinstance(x, T) and isinstance(v, str) and not v.startswith('#')), key=lambda e: e[0]))

    def on(self, ev, m, st, eng):
        head, rec, stored, open_ = m
        k = ev.kind
        if k == 'iter' and getattr(ev, 'while_', False) and head != AGAIN and stored:
            if any(v in self.names and x in stored for v, x, _ in self.locals(st, eng)):
                self.early = True
        if len(rec) > 20:
            rec = rec[:20] + (('put', T('?'), T('?')),) * (len(rec) == 20)
        if k == 'iter' and getattr(ev, 'while_', False):
            return (self.locals(st, eng), (), (), open_)
        if k == 'mutate':
            args = [strip_at(a) for a in ev.args if isinstance(a, T)]
            base = strip_at(ev.base)
            if ev.method in ('remove_edge', 'remove_node', 'remove_edges_from', 'remove_nodes_from', 'clear', 'clear_edges'):
                if ev.loops:
                    self.loop.add((ev.loops[-1][0], eng.func.fid, len(ev.loops)))
                    rec = rec + (('gone', ev.method, tuple(args), ev.node, eng.func),)
                return (head, rec, stored, open_)
            if ev.method in ('append', 'extend', 'insert', 'appendleft') and args:
                x = args[-1]
                if self.a_list(x, eng) and ev.method != 'extend':
                    return (head, rec, tuple(y for y in stored if y is not x) + (x,), () if open_ and open_[0] is x else open_)
                items = [x] if ev.method != 'extend' else eng.seq_items(st, ev.args[-1])
                names = {v for v, y, _ in self.locals(st, eng) if y is base}
                self.put |= names
                c = st.heap.get((base, '#'))
                kind = 'start' if c is not None and c.op == 'seq' and not c.a[0] else 'put'
                rec = rec + tuple((kind, base, strip_at(i)) for i in (items if items is not None else [T('?')]))
                return (head, rec, stored, open_)
        if k == 'caught':
            return (head, rec + (('stop',),), stored, open_)
        if k == 'assume' and head and ev.loops and ev.loops[-1][0] in {l for l, fid, n in self.loop}:
            key = ev.key
            if key[0] == 'ord':
                return (head, rec + (('test', strip_at(key[1]), strip_at(key[2]), frozenset(ev.val)),), stored, open_)
            return (head, rec + (('test', strip_at(ev.term), None, None),), stored, open_)
        if k == 'storesub' and self.loop:
            rec = rec + (('put', strip_at(ev.base), T('?')),)
            return (head, rec, stored, open_)
        mine = {l for l, fid, n in self.loop}
        if k == 'iterend' and getattr(ev, 'while_', False) and ev.loop in mine:
            self.steps[(head, rec, stored, self.locals(st, eng))] = (st, ev.node, eng.func)
        if k == 'break' and ev.loops and ev.loops[-1][0] in mine or k == 'loopdone' and getattr(ev, 'while_', False) and ev.loop in mine:
            now = [x for v, x, c in self.locals(st, eng) if v in self.names and not short(c)]
            if len(now) == 1 and now[0] not in stored and not any(x[0] == 'test' and any(now[0] in set(walk(y)) for y in x[1:3] if y is not None) for x in rec):
                open_ = (now[0], ev.node, eng.func)
        if k == 'return' and not ev.loops and eng.func.name == '_get_graph_paths' or k == 'iterend' and getattr(ev, 'while_', False) and ev.loop not in mine:
            if open_ and not st.taint:
                self.left[open_[1:]] = st
                open_ = ()
        if k == 'iterend' and getattr(ev, 'while_', False):
            return (AGAIN if ev.loop in mine else (), (), (), open_)
        return (head, rec, stored, open_)

    def a_list(self, x, eng):
        if x.op == 'obj':
            return x.a[0] == 'list'
        if x.op == 'phi':
            return any(strip_at(y).op == 'obj' and strip_at(y).a[0] == 'list' for y in eng.alternatives(x))
        return False


def holds(st, x, c, b):
    for z in (x, c):
        if z is None:
            continue
        for y in walk(z):
            if y is b:
                return True
            if y.op == 'obj' and y is not x and st.heap.get((y, '#')) is not None and b in set(walk(st.heap[(y, '#')])):
                return True
    return False


def short(c):
    """A list with at most one point?"""
    return c is not None and c.op == 'seq' and len(c.a[0]) <= 1 and not any(x.op == 'star' for x in c.a[0])


def distance(t):
    """Is a term the distance of two points?"""
    t = strip_at(t)
    n = ext(t)
    if n in ('math.dist', 'scipy.spatial.distance.euclidean'):
        return True
    if n in ('scipy.linalg.norm', 'numpy.linalg.norm') and len(t.a[1]) == 1 and not t.a[2]:
        d = strip_at(t.a[1][0])
        return d.op == 'bin' and d.a[0] == '-' or ext(d) == 'numpy.subtract'
    return False


def crossing(rec, a, b):
    """Is the link between two points known to be longer than the bound?
    True, False, None (not asked), or Unknown."""
    res = None
    for x in rec:
        if x[0] != 'test':
            continue
        _, x, y, val = x
        if y is None:
            if a in set(walk(x)) and b in set(walk(x)):
                raise Unknown('another test')
            continue
        for x, y, more in ((x, y, '>'), (y, x, '<')):
            inside = set(walk(x))
            if a in inside and b in inside:
                if not distance(x) or any(distance(z) for z in walk(y)):
                    raise Unknown('not the distance')
                if val <= {more}:
                    res = True
                elif more not in val:
                    res = False
                else:
                    raise Unknown('several cases')
    return res


def graph_paths(ctx):
    f = find(ctx, '_get_graph_paths', 'identify')
    if f is None:
        ctx.undecided('paths', '_get_graph_paths', 'not found')
        return
    logs = []
    try:
        for names in (frozenset(), None):
            log = Trail(names if names is not None else frozenset(logs[0].put))
            log.loop |= logs[0].loop if logs else set()
            eng, rets, raises = ctx.analyse(f, args=(), kwargs=inputs(f), monitor=log, label='paths of a line')
            logs.append(log)
    except RecursionError:
        ctx.undecided('paths', f.qual, 'not analysed')
        return
    log = logs[1]
    if not log.steps:
        ctx.undecided('paths', f.qual, 'no loop that uses up links is recognised')
        return

    def bad(func, node, msg):
        ctx.bad('paths', ctx.loc(func, node), func.qual, msg)
    for (head, rec, stored, end), (st, node, func) in log.steps.items():
        gone = [x for x in rec if x[0] == 'gone']
        puts = [x for x in rec if x[0] in ('put', 'start')]
        if st.taint or len(gone) != 1 or gone[0][1] not in ('remove_edge', 'remove_node'):
            if gone or puts:
                ctx.undecided('paths', f.qual, 'iteration not followed')
            continue
        _, how, args, gnode, gfunc = gone[0]
        if how == 'remove_node':
            if puts and not any(x[0] == 'stop' for x in rec):
                bad(gfunc, gnode, 'a point is removed while it may have more links: these are not drawn')
            continue
        if len(args) != 2:
            ctx.undecided('paths', f.qual, 'removal of %s' % (args,))
            continue
        before = {v: x for v, x, _ in head}
        after = {v: x for v, x, _ in end}
        content = {v: c for v, x, c in end}
        a, b = args
        if b in before.values() and a not in before.values():
            a, b = b, a
        try:
            far = crossing(rec, a, b)
        except Unknown:
            far = 'unknown'
        into = [x for x in puts if x[2] in (a, b) and (x[0] == 'put' or far is not True)]
        if into:
            if far is True:
                bad(gfunc, gnode, 'a link longer than the bound is drawn as a line across the plot, instead of being cut')
            elif far == 'unknown':
                ctx.undecided('paths', f.qual, 'condition for drawing a link')
            else:
                ctx.ok('paths', '%s: a link is added to the path' % f.qual)
            first = [(x, c) for v, x, c in head if v in log.names]
            if len(first) == 1 and first[0][1] is not None and first[0][1].op == 'seq' and into[0][2] is b and not any(x[2] is a for x in into):
                items = [strip_at(i) for i in first[0][1].a[0]]
                if not items:
                    bad(gfunc, gnode, 'the path to which a link is added is empty: the start of the link is missing')
        elif any(x[2].op == '?' for x in puts):
            ctx.undecided('paths', f.qual, 'points added are not known')
            continue
        else:
            other = [v for v, x, c in end if before.get(v) is not x and x is not b and not short(c) and holds(st, x, c, b)]
            if other and far is not True:
                ctx.undecided('paths', f.qual, 'a path is extended in another way')
                continue
            lists = [c for v, c in content.items() if c is not None and c.op == 'seq'] + [c for c in (st.heap.get((x, '#')) for x in stored) if c is not None and c.op == 'seq']
            new = [c for c in lists if c.a[0] and strip_at(c.a[0][-1]) in (a, b)]
            if far == 'unknown' or not log.names and far is True:
                ctx.undecided('paths', f.qual, 'whether a link that is not drawn crosses the boundary')
                continue
            if far is None:
                bad(gfunc, gnode, 'a link is used up without being drawn')
            elif far is False:
                bad(gfunc, gnode, 'a link shorter than the bound is not drawn')
            elif not new and [c for v, c in content.items() if v in log.names and c is not None and c.op == 'seq']:
                bad(gfunc, gnode, 'the path that starts after a cut does not contain the point where it starts')
            else:
                ctx.ok('paths', '%s: only links longer than the bound are cut' % f.qual)
            for v in log.names:
                if v in before and after.get(v) is not before[v]:
                    if before[v] in stored or log.early and after.get(v) in stored or short({v: c for v, x, c in head}.get(v)):
                        ctx.ok('paths', '%s: the path before a cut is kept' % f.qual)
                    elif any(y is before[v] for x in rec if x[0] == 'test' for z in x[1:3] if z is not None for y in walk(z)):
                        ctx.undecided('paths', f.qual, 'path dropped under a condition')
                    else:
                        bad(gfunc, gnode, 'the path before a cut is dropped')
        for v, x in before.items():
            if x is a and after.get(v) is a and not any(y is b for y in after.values() if y is not b) and far is not True:
                if sum(1 for z in before.values() if z is a) == 1:
                    bad(gfunc, gnode, 'the search goes on from %s, not from the point reached' % v)
    for (node, func), st in log.left.items():
        if not log.early:
            bad(func, node, 'the last path is not kept when its end is reached')
    if not log.left:
        ctx.ok('paths', '%s: paths are kept when they end' % f.qual)
    # all links are used up
    for st, v in rets:
        if st.taint:
            continue
        done = [val for key, val in st.facts.items() if asks_links(key)]
        if done:
            ctx.ok('paths', '%s: returns when no links are left' % f.qual)
        elif max(n for l, fid, n in log.loop) == 1:
            bad(f, f.node, 'returns when one point has no more links, although others may have')
        else:
            ctx.undecided('paths', f.qual, 'whether links are left when it returns')


def asks_links(key):
    for x in key[1:]:
        if isinstance(x, T):
            for y in walk(x):
                if y.op == 'attr' and y.a[1] in ('edges', 'number_of_edges', 'size', 'degree') or method_of(y)[1] in ('number_of_edges', 'size', 'edges', 'degree', 'is_empty') or nx(y):
                    return True
    return False
