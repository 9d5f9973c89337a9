"""Rules about positions, distances and the initial mesh: formulas read at one
arbitrary component and brought to a canonical form."""
import ast
from fractions import Fraction as F

from ..engine import Monitor, prog_types, strip_at
from ..loader import Function
from ..num import Box, Rat, Eval, V, Q, Poly, Top, Wrong, Unbounded, NeedCase, pl_add, pl_scale, pl_lin, pl_split, pl_simplify, pl_range
from ..terms import T, const, cval, walk, show, NONE, attr
from .. import roles as R
from .results import self_of
from .search import mentions, plain


class Stores(Monitor):
    """Arrays changed in place on a path."""
    seen = False

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'storesub' or ev.kind == 'mutate' and strip_at(ev.base).op not in ('obj',):
            Stores.seen = True
        if ev.kind == 'storesub':
            return m + ((strip_at(ev.base), ev.idx, ev.value, ev.aug),) if len(m) < 8 else m
        if ev.kind == 'mutate' and strip_at(ev.base).op not in ('obj',):
            return m + ((strip_at(ev.base), None, None, True),) if len(m) < 8 else m
        return m


class Geometry:
    """One method of the coordinate system, read component by component."""

    def __init__(self, ctx, cls, f):
        self.ctx, self.cls, self.f = ctx, cls, f
        self.me = self_of(cls)
        self.dom = Box()
        self.inits = prog_types(ctx.prog).init_of(cls)
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        self.syms = {}
        self.busy = set()

    def row(self):
        return ('row', (V(1, {'l': 1}), V(1, {'l': 1}, c=1)))

    def leaf(self, t):
        if t.op == 'in':
            if t.a[0] == 'limits' and t.a[0] not in self.params:
                return ('row', (V(1, {'first limit': 1}), V(1, {'second limit': 1})))
            if t.a[0] in self.syms:
                return self.syms[t.a[0]]
            return None
        if t.op == 'attr' and t.a[0] is self.me:
            if t.a[1] == 'limits':
                return self.row()
            vs = self.inits.get(t.a[1])
            if vs and len(vs) == 1 and t.a[1] not in self.busy:
                v = next(iter(vs))
                self.busy.add(t.a[1])
                try:
                    return Eval(self.dom, self.ctor_leaf)(v)
                finally:
                    self.busy.discard(t.a[1])
            return None
        if t.op == 'elem':
            base = strip_at(t.a[0])
            if base.op == 'in' and base.a[0] in self.syms:
                return self.syms[base.a[0]] if base.a[0] != 'positions' else V(1, {t: 1})
            if base.op == 'in' and base.a[0] not in ('limits',):
                return V(1, {t: 1})
            return self.ev.value(t.a[0])
        return None

    def ctor_leaf(self, t):
        """Within the constructor `limits` is the parameter as given."""
        if t.op == 'attr' and t.a[0] is self.me:
            return self.leaf(t)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.sorted', 'numpy.sort') and len(t.a[1]) == 1 and mentions(t, T('in', 'limits')):
            return self.row()
        if t.op == 'in' and t.a[0] == 'limits':
            return ('row', (V(1, {'first limit': 1}), V(1, {'second limit': 1})))
        if t.op == 'elem':
            return Eval(self.dom, self.ctor_leaf).value(t.a[0])
        return None

    def evaluator(self, st):
        self.ev = Eval(self.dom, self.leaf, st)
        return self.ev


def paths(ctx, cls, f, label=None):
    """Returning paths of a method: (state, value, periodic, other facts)."""
    me = self_of(cls)
    Stores.seen = False
    eng, rets, raises = ctx.analyse(f, monitor=Stores(), self_term=me, label=label or f.qual)
    per = attr(me, 'periodic')
    for st, v in rets:
        p = eng.holds(st, per)
        free = p is None and not any(mentions(y, per) for k in st.facts for y in k[1:] if isinstance(y, T)) and not mentions(v, per)
        other = [k for k in st.facts if not any(isinstance(y, T) and (y is per or mentions(y, per)) for y in k[1:])]
        asserted = asserts(f)
        other = [k for k in other if not (k[0] == 'truth' and any(mentions(k[1], x) or True for x in asserted) and asserted and k[1].op == 'call')]
        # another dimension may make it true (or false)
        other = [k for k in other if not over_dimensions(k, st.facts[k])]
        for p in (True, False) if free else (p,):
            yield eng, st, v, p, other


def dimensions(t):
    """(all?, comparison of arrays) of a condition over all dimensions."""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.all', 'numpy.any', 'builtins.all', 'builtins.any') and len(t.a[1]) == 1 and not t.a[2]:
        c = plain(t.a[1][0])
        return (t.a[0].a[0].endswith('all'), c) if c.op == 'cmp' else None
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('all', 'any') and not t.a[1] and not t.a[2] and plain(t.a[0].a[0]).op == 'cmp':
        return t.a[0].a[1] == 'all', plain(t.a[0].a[0])
    return None


def over_dimensions(k, val):
    r = dimensions(k[1]) if k[0] == 'truth' else None
    return r is not None and r[0] != val


class Given:
    """The conditions of a path that hold in every dimension."""

    def __init__(self, g, ev, st, other):
        self.g, self.ev = g, ev
        self.conds = []
        self.known = True
        for k in other:
            r = dimensions(k[1]) if k[0] == 'truth' else None
            if r is None:
                self.known = False
            else:
                self.conds.append((r[1], st.facts[k]))

    def __call__(self, x, right):
        """x where the conditions hold, and what is right elsewhere."""
        for c, val in self.conds:
            r = self.ev.value(c)
            if not (isinstance(r, tuple) and r[0] == 'where'):
                raise Top('condition')
            x = self.g.dom.select([(lo, hi, b == val) for lo, hi, b in r[2]], r[1], x, right)
        return x


def asserts(f):
    return [x for x in ast.walk(f.node) if isinstance(x, ast.Assert)]


def final(ctx, st, v):
    """The returned value after in-place changes, or raises Top."""
    for base, idx, val, aug in st.mon:
        if mentions(v, base):
            raise Top('changed in place')
    if Stores.seen and any(y.op == 'comp' for y in walk(v)):
        raise Top('changed in place')
    if st.taint:
        raise Top('imprecise path')
    return v


class Verdicts:
    def __init__(self, ctx, f, *geoms):
        self.ctx, self.f, self.geoms = ctx, f, geoms

    def all_cases(self, fn):
        """fn for every sign of the numbers of whole sizes that matter."""
        todo, n, top = [{}], 0, None
        while todo:
            cases = todo.pop()
            n += 1
            if n > 40:
                raise Top('too many cases')
            for g in self.geoms:
                g.dom.cases = cases
                g.dom.reset()
                if getattr(g, 'ev', None) is not None:
                    g.ev.memo.clear()
            try:
                if not fn():
                    return False
            except NeedCase as e:
                if not self.geoms:
                    raise Top('cases')
                todo += [{**cases, e.v: sg} for sg in ((-1, 1) if isinstance(e.v, tuple) else (-2, -1, 0, 1, 2))]
            except Wrong:
                raise
            except Unbounded:
                return False
            except Top as e:
                top = top or e
        if top is not None:
            raise top
        return True

    def __call__(self, rule, construct, fn, msg, definite=True):
        """fn() -> True / False; Top -> undecided."""
        ctx, f = self.ctx, self.f
        try:
            r = self.all_cases(fn)
        except Wrong as e:
            r = False
        except Top as e:
            ctx.undecided(rule, '%s %s' % (f.qual, construct), 'no canonical form: %s' % e)
            return None
        if r:
            ctx.ok(rule, '%s %s' % (f.qual, construct))
            return True
        if definite:
            ctx.bad(rule, ctx.loc(f), f.qual, msg)
        else:
            ctx.undecided(rule, '%s %s' % (f.qual, construct), 'holds only under conditions that are not followed')
        return False


def method(ctx, cls, name):
    f = ctx.prog.find_method(cls, name)
    ctx.require(f is not None, 'the coordinate system has no method %s' % name)
    return f


def c14(ctx):
    roles = R.get(ctx.prog)
    cls = roles.coord
    ctx.rule('limits', 'the limits of each dimension are put in order, and the size is the upper minus the lower limit')
    ctx.rule('inside', 'with periodic boundaries the normalised position lies between the limits and differs from the position by whole sizes')
    ctx.rule('unchanged', 'without periodic boundaries the position is returned unchanged')
    ctx.rule('fraction', 'fractional coordinates are (position - lower limit) / size, and between 0 and 1 with periodic boundaries; the way back is its inverse')
    ctx.rule('average', 'the average is the plain mean, with periodic boundaries of the positions brought close to one of them by connecting vectors, and normalised')
    ctx.rule('stored', 'every result stored has its position normalised before')
    limits(ctx, cls)
    f = method(ctx, cls, 'normalize_position')
    for eng, st, v, per, other in paths(ctx, cls, f):
        g = Geometry(ctx, cls, f)
        p = g.params[0]
        g.syms[p] = g.dom.sym('p')
        ev = g.evaluator(st)
        say = Verdicts(ctx, f, g)
        if per is None:
            ctx.undecided('inside', f.qual, 'not known whether periodic')
        elif per:
            given = Given(g, ev, st, other)

            def inside():
                d = g.dom
                l = V(1, {'l': 1})
                return given(ev(final(ctx, st, v)), d.add(d.mod(d.sub(d.sym('p'), l), V(1, c=1)), l))
            say('inside', 'between the limits', lambda: g.dom.within(inside(), 0, 1), 'the normalised position may lie outside of the limits: %s' % show(v), given.known)
            say('inside', 'same point', lambda: g.dom.congruent(inside(), V(1, {'p': 1})), 'the normalised position is not the same point up to whole sizes: %s' % show(v), given.known)
        else:
            say('unchanged', 'position', lambda: exact(g, ev(final(ctx, st, v)), V(1, {'p': 1})), 'without periodic boundaries the position is changed to %s' % show(v), not other)
    f = method(ctx, cls, 'get_frac')
    for eng, st, v, per, other in paths(ctx, cls, f):
        g = Geometry(ctx, cls, f)
        g.syms[g.params[0]] = g.dom.sym('p')
        ev = g.evaluator(st)
        say = Verdicts(ctx, f, g)

        given = Given(g, ev, st, other)

        def frac():
            d = g.dom
            x = g.dom.norm(ev(final(ctx, st, v)))
            if per and given.conds:
                x = d.norm(given(x, d.at(d.mod(d.sub(d.sym('p'), V(1, {'l': 1})), V(1, c=1)), 0)))
            if x.unit != 0:
                return False
            if per:
                return g.dom.within(x, 0, 1) and g.dom.congruent(g.dom.add(g.dom.at(x, 1), V(1, {'l': 1})), V(1, {'p': 1}))
            return exact(g, g.dom.add(g.dom.at(x, 1), V(1, {'l': 1})), V(1, {'p': 1}))
        if per is None:
            ctx.undecided('fraction', f.qual, 'not known whether periodic')
        else:
            say('fraction', 'periodic' if per else 'not periodic', frac, 'the fractional coordinates %s are %s' % (show(v), 'not those of the same point, or not between 0 and 1' if per else 'not (position - lower limit) / size'), given.known)
    f = method(ctx, cls, 'get_pos')
    for eng, st, v, per, other in paths(ctx, cls, f):
        g = Geometry(ctx, cls, f)
        g.syms[g.params[0]] = V(0, {'f': 1})
        ev = g.evaluator(st)
        want = V(1, {'f': 1, 'l': 1})

        def test():
            x = final(ctx, st, v)
            try:
                if rational(g, x, lambda d, f_, l_, s_: d.add(d.mul(f_, s_), l_)):
                    return True
                if not per:
                    return False
            except Top:
                pass
            y = ev(x)
            return g.dom.congruent(y, want) if per else exact(g, y, want)
        Verdicts(ctx, f, g)('fraction', 'way back', test, 'the position %s is not fraction * size + lower limit' % show(v), not other)
    average(ctx, cls)
    stored(ctx, roles)


def rational(g, v, want):
    """v == want as rational functions of the position, the lower limit l and
    the size s; Top if v is not one."""
    dom = Rat()
    l, s_ = dom.sym('l'), dom.sym('s')
    g2 = Geometry(g.ctx, g.cls, g.f)

    def leaf(t):
        if t.op == 'in' and t.a[0] in g.syms:
            return dom.sym('x')
        if t.op == 'attr' and t.a[0] is g.me:
            if t.a[1] == 'limits':
                return ('row', (l, dom.add(l, s_)))
            x = g2.leaf(t)
            if isinstance(x, V) and x.unit == 1 and not x.ks and not x.pls and set(x.syms) <= {'l'}:
                return dom.add(dom.mul(dom.const(x.syms.get('l', 0)), l), dom.mul(dom.const(x.c), s_))
        return None
    return Eval(dom, leaf)(v) == want(dom, dom.sym('x'), l, s_)


def exact(g, x, y):
    d = g.dom.sub(x, y)
    return not d.syms and not d.ks and not d.pls and d.c == 0


def limits(ctx, cls):
    inits = prog_types(ctx.prog).init_of(cls)
    f = ctx.prog.find_method(cls, '__init__')
    g = Geometry(ctx, cls, f)
    g.params = []
    say = Verdicts(ctx, f, g)
    for v in inits.get('limits', ()):
        def ordered(v=v):
            r = Eval(g.dom, g.ctor_leaf).value(v)
            if not (isinstance(r, tuple) and r[0] == 'row'):
                raise Top(show(v))
            return [g.dom.norm(x).key() for x in r[1]] == [x.key() for x in g.row()[1]]
        say('limits', 'order', ordered, 'the limits of a dimension are not put in order: %s' % show(v))
    if 'size' in inits:
        g = Geometry(ctx, cls, f)

        def size():
            x = g.leaf(attr(g.me, 'size'))
            if x is None or isinstance(x, tuple):
                raise Top('size')
            x = g.dom.norm(x)
            return x.key() == V(1, c=1).key()
        say('limits', 'size', size, 'the size is not the upper minus the lower limit')
    for v in inits.get('periodic', ()):
        if plain(v) is T('in', 'periodic') or v.op == 'call' and mentions(v, T('in', 'periodic')):
            ctx.ok('limits', 'periodic')
        else:
            ctx.bad('limits', ctx.loc(f), f.qual, 'whether the box is periodic is not kept: %s' % show(v)) if v.op in ('const', 'un') else ctx.undecided('limits', 'periodic', show(v))


MEAN = ('numpy.average', 'numpy.mean')


def mean_of(t, ev=None):
    """What a term is the mean of (over the first axis), or None; False if it
    is some other mean."""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in MEAN and t.a[1]:
        kws = dict(t.a[2])
        axis = kws.pop('axis', t.a[1][1] if len(t.a[1]) > 1 else None)
        if axis is None or axis.op != 'const' or cval(axis) != 0 or any(k in ('weights', 'where') for k in kws):
            return False
        return t.a[1][0]
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'mean':
        kws = dict(t.a[2])
        axis = kws.pop('axis', t.a[1][0] if t.a[1] else None)
        if axis is None or axis.op != 'const' or cval(axis) != 0:
            return False
        return t.a[0].a[0]
    if t.op == 'bin' and t.a[0] == '/':
        s, n = t.a[1], t.a[2]
        if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0] in ('numpy.sum', 'builtins.sum') and s.a[1] and n.op == 'call' and n.a[0].op == 'ext' and n.a[0].a[0] == 'builtins.len':
            if s.a[0].a[0] == 'numpy.sum':
                axis = dict(s.a[2]).get('axis', s.a[1][1] if len(s.a[1]) > 1 else None)
                if axis is None or axis.op != 'const' or cval(axis) != 0:
                    return False
            x = s.a[1][0]
            return x
    return None


def unlist(t):
    while True:
        t = plain(t)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'numpy.stack', 'numpy.vstack') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2] and t.a[1] is t.a[2][0][0]:
            t = t.a[2][0][1]
        else:
            return t


def average(ctx, cls):
    f = method(ctx, cls, 'average')
    for eng, st, v, per, other in paths(ctx, cls, f):
        g = Geometry(ctx, cls, f)
        pname = g.params[0]
        positions = T('in', pname)
        say = Verdicts(ctx, f, g)
        if per is None:
            ctx.undecided('average', f.qual, 'not known whether periodic')
            continue
        means = [y for y in walk(v) if mean_of(y) is not None]
        if not per:
            def plain_mean():
                x = final(ctx, st, v)
                m = mean_of(x)
                if m is None:
                    raise Top(show(x))
                if m is False:
                    return False
                if unlist(m) is positions:
                    return True
                if not mentions(m, positions) or m.op in ('sub', 'comp'):
                    return False
                raise Top(show(x))
            say('average', 'not periodic', plain_mean, 'without periodic boundaries the average is not the mean of the positions: %s' % show(v), not other)
            continue
        # symbols: means, single positions
        inner = g.leaf

        def leaf(t):
            if t in means:
                return V(1, {t: 1})
            if t.op == 'sub' and unlist(t.a[0]) is positions and t.a[1].op == 'const':
                return V(1, {t: 1})
            return inner(t)
        g.leaf = leaf
        ev = g.evaluator(st)
        say('average', 'between the limits', lambda: g.dom.within(ev(final(ctx, st, v)), 0, 1), 'an average may lie outside of the limits: %s' % show(v), not other)
        if not means:
            ctx.undecided('average', f.qual, 'no mean found in %s' % show(v))
            continue
        # the mean of the vectors from the origin to every position
        for m in means:
            what = mean_of(m)
            if what is False:
                ctx.bad('average', ctx.loc(f), f.qual, 'the average is not a plain mean over the positions: %s' % show(m))
                continue
            w = plain(what)
            while w.op == 'call' and w.a[0].op == 'ext' and w.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'builtins.list') and len(w.a[1]) == 1:
                w = plain(w.a[1][0])
            if unlist(what) is positions:
                ctx.bad('average', ctx.loc(f), f.qual, 'with periodic boundaries the positions themselves are averaged, not their nearest images')
                continue
            if w.op == 'comp':
                e, it, conds = w.a[2][0][:3]
                if conds or len(w.a[2]) != 1:
                    ctx.bad('average', ctx.loc(f), f.qual, 'only some of the positions are averaged')
                    continue
                if unlist(it) is not positions:
                    if it.op == 'sub' and mentions(it, positions):
                        ctx.bad('average', ctx.loc(f), f.qual, 'only some of the positions are averaged: %s' % show(it))
                    else:
                        ctx.undecided('average', f.qual, 'mean over %s' % show(it))
                    continue
                g2 = Geometry(ctx, cls, f)
                inner2 = g2.leaf

                def leaf2(t, e=e):
                    if t is e:
                        return V(1, {'q': 1})
                    if t.op == 'sub' and unlist(t.a[0]) is positions and t.a[1].op == 'const':
                        return V(1, {t: 1})
                    return inner2(t)
                g2.leaf = leaf2
                ev2 = g2.evaluator(st)
                say = Verdicts(ctx, f, g, g2)
                origins = [y for y in walk(w.a[1]) if y.op == 'sub' and unlist(y.a[0]) is positions and y.a[1].op == 'const']

                def nearest():
                    if Stores.seen:
                        raise Top('changed in place')
                    x = ev2(w.a[1])
                    o = V(1, {origins[0]: 1}) if origins else None
                    if o is None:
                        raise Top(show(w.a[1]))
                    d = g2.dom.sub(V(1, {'q': 1}), o)
                    if g2.dom.congruent(x, d):
                        return shortest(g2.dom, x)
                    # images themselves are averaged: origin + vector
                    if g2.dom.congruent(g2.dom.sub(x, o), d):
                        return shortest(g2.dom, g2.dom.sub(x, o))
                    return False
                r = say('average', 'nearest images', nearest, 'what is averaged is not the nearest image of each position: %s' % show(w.a[1]), not other)
                if r:
                    def back():
                        x = ev(final(ctx, st, v))
                        o = V(1, {origins[0]: 1})
                        images = g2.dom.congruent(ev2(w.a[1]), g2.dom.sub(V(1, {'q': 1}), o))
                        want = g.dom.add(V(1, {m: 1}), o) if images else V(1, {m: 1})
                        return g.dom.congruent(x, want)
                    say('average', 'moved back', back, 'the mean of the vectors is not added to the position they start from: %s' % show(v), not other)
            else:
                ctx.undecided('average', f.qual, 'mean of %s' % show(what))


def shortest(dom, x):
    """|x| is the smallest of all x + whole sizes (x a function of one fraction
    d, congruent to it)."""
    v, p = dom.function(x)
    n, _ = absolute(p), None
    if v is None:
        raise Top('constant')
    return n == half()


def half():
    return ((F(0), F(1, 2), F(1), F(0)), (F(1, 2), F(1), F(-1), F(1)))


def absolute(p):
    return pl_simplify([(lo, hi) + (x if sg >= 0 else (-x[0], -x[1])) for lo, hi, x, _, sg in pl_split(p, pl_lin(0, 0))])


class Positions(Monitor):
    """Whether a result was normalised before it is stored."""

    def __init__(self, me, arg, names):
        self.me, self.arg, self.names = me, arg, names

    def init(self):
        return ('raw', None)

    def on(self, ev, m, st, eng):
        if ev.kind == 'storeattr' and ev.base is self.arg and ev.name == 'pos':
            return ('set', ev.value)
        return m


def stored(ctx, roles):
    """add_result stores a result only with its normalised position."""
    cls = roles.result
    f = ctx.prog.find_method(cls, 'add_result')
    a = f.node.args
    me, arg = self_of(cls), T('in', [x.arg for x in a.posonlyargs + a.args][1])
    norm = method(ctx, roles.coord, 'normalize_position')
    opq = {g.fid for c in ctx.prog.classes.values() if c is not cls and c not in ctx.prog.mro(cls) for fs in c.methods.values() for g in fs}
    eng, rets, raises = ctx.analyse(f, [arg], [], self_term=me, monitor=Positions(me, arg, ()), opaque=opq, label=f.qual)
    coord = attr(me, 'coordinate_system')
    for st, v in rets:
        how, val = st.mon
        if how == 'raw':
            if st.taint:
                ctx.undecided('stored', f.qual, 'imprecise path')
            else:
                ctx.bad('stored', ctx.loc(f), f.qual, 'a result is stored without its position being normalised')
            continue
        v2 = plain(val)
        if v2.op == 'call' and v2.a[0].op in ('func', 'bound', 'attr') and norm.name in show(v2.a[0]):
            args = [x for x in v2.a[1]] + [x for _, x in v2.a[2]]
            if any(same(x, attr(arg, 'pos')) for x in args):
                ctx.ok('stored', f.qual)
            else:
                ctx.undecided('stored', f.qual, show(v2))
        elif v2.op in ('attr', 'const', 'in', 'bin', 'un') and not any(y.op == 'call' for y in walk(v2)):
            ctx.bad('stored', ctx.loc(f), f.qual, 'the position of a result is set to %s' % show(v2))
        else:
            ctx.undecided('stored', f.qual, show(v2))
    del coord


def same(a, b):
    a, b = plain(strip_at(a)), plain(strip_at(b))
    if a is b:
        return True
    return a.op == b.op == 'attr' and a.a[1] == b.a[1] and same(a.a[0], b.a[0])


# ---------------------------------------------------------------------------
def length_of(t, pname='x'):
    """(vector, problem): the vector whose Euclidean length along the last axis
    a term is."""
    t = plain(t)
    if t.op == 'call' and t.a[0].op == 'ext':
        n, args, kws = t.a[0].a[0], list(t.a[1]), dict(t.a[2])
        if n in ('numpy.linalg.norm', 'scipy.linalg.norm') and args:
            o = kws.get('ord', args[1] if len(args) > 1 else None)
            ax = kws.get('axis', args[2] if len(args) > 2 else None)
            if o is not None and not (o.op == 'const' and cval(o) in (None, 2)):
                if o.op == 'const' or o.op == 'attr' and o.a[1] == 'inf' or o.op == 'ext':
                    return args[0], 'it is not the Euclidean length (order %s)' % show(o)
                return None, None
            if ax is None or ax.op == 'const' and cval(ax) is None:
                return args[0], 'the lengths of several vectors are mixed (no axis)'
            if ax.op == 'const' and cval(ax) == -1:
                return args[0], None
            if ax.op == 'const' and cval(ax) in (0, 1):
                return args[0], 'the length is not taken along the last axis (axis %s)' % cval(ax)
            if ax.op == 'un' and ax.a[0] == '-' and ax.a[1].op == 'const' and cval(ax.a[1]) == 1:
                return args[0], None
            return None, None
        if n in ('numpy.sqrt', 'math.sqrt') and args:
            s = plain(args[0])
            return square_sum(s)
    if t.op == 'bin' and t.a[0] == '**' and t.a[2].op == 'const' and cval(t.a[2]) == 0.5:
        return square_sum(plain(t.a[1]))
    return None, None


def square_sum(s):
    if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0] == 'numpy.sum' and s.a[1] or s.op == 'call' and s.a[0].op == 'attr' and s.a[0].a[1] == 'sum':
        kws = dict(s.a[2])
        x = s.a[1][0] if s.a[0].op == 'ext' else s.a[0].a[0]
        rest = list(s.a[1][1:]) if s.a[0].op == 'ext' else list(s.a[1])
        ax = kws.get('axis', rest[0] if rest else None)
        x = plain(x)
        v = None
        if x.op == 'bin' and x.a[0] == '**' and x.a[2].op == 'const' and cval(x.a[2]) == 2:
            v = x.a[1]
        elif x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'numpy.square':
            v = x.a[1][0]
        elif x.op == 'bin' and x.a[0] == '*' and x.a[1] is x.a[2]:
            v = x.a[1]
        if v is None:
            return None, None
        if ax is None:
            return v, 'the lengths of several vectors are mixed (no axis)'
        if ax.op == 'const' and cval(ax) == -1 or ax.op == 'un' and ax.a[0] == '-' and cval(ax.a[1]) == 1:
            return v, None
        if ax.op == 'const' and cval(ax) in (0, 1):
            return v, 'the length is not taken along the last axis'
    return None, None


def c15(ctx):
    roles = R.get(ctx.prog)
    cls = roles.coord
    ctx.rule('distance', 'with periodic boundaries every component of the vector whose length is taken is, in magnitude, the shortest distance between images, min(d, size - d) with d the difference modulo the size')
    ctx.rule('vector', 'the connecting vector leads from the first position to an image of the second one, and every component has that smallest magnitude')
    ctx.rule('plain', 'without periodic boundaries both use the plain difference')
    ctx.rule('length', 'the distance is the Euclidean length, one for each position')
    ctx.rule('used', 'the distances the result container gives out are these, between the position given and every value found near it')
    from . import cells
    cells.measure(ctx, 'used')
    for name in ('distance', 'connecting_vector'):
        f = method(ctx, cls, name)
        got = 0
        for eng, st, v, per, other in paths(ctx, cls, f):
            got += 1
            g = Geometry(ctx, cls, f)
            if len(g.params) < 2:
                ctx.undecided('distance', f.qual, 'unexpected parameters')
                continue
            g.syms[g.params[0]], g.syms[g.params[1]] = V(1, {'p': 1}), V(1, {'q': 1})
            ev = g.evaluator(st)
            say = Verdicts(ctx, f, g)
            try:
                x = final(ctx, st, v)
            except Top as e:
                ctx.undecided('distance', f.qual, str(e))
                continue
            if name == 'distance':
                x, problem = length_of(x)
                if x is None:
                    ctx.undecided('length', f.qual, show(v))
                    continue
                if problem:
                    ctx.bad('length', ctx.loc(f), f.qual, problem)
                    continue
                ctx.ok('length', f.qual)
            if per is None:
                ctx.undecided('distance', f.qual, 'not known whether periodic')
                continue
            diff = g.dom.sub(V(1, {'q': 1}), V(1, {'p': 1}))
            if not per:
                def plain_():
                    y = ev(x)
                    return exact(g, y, diff) or name == 'distance' and exact(g, y, g.dom.neg(diff))
                say('plain', '', plain_, 'without periodic boundaries %s is used instead of the difference of the positions' % show(x), not other)
                continue

            def near():
                y = ev(x)
                same = g.dom.congruent(y, diff)
                if not same and name == 'distance':
                    same = componentwise(g.dom, y, diff)
                return same and shortest(g.dom, y)

            def leads():
                return g.dom.congruent(ev(x), diff)
            if name == 'distance':
                say('distance', '', near, 'the length is not that of the shortest vector between images: %s' % show(x), not other)
            else:
                say('vector', 'target', leads, 'the vector does not lead from the first position to an image of the second one: %s' % show(x), not other)
                say('vector', 'shortest', lambda: shortest(g.dom, ev(x)), 'the vector is not the shortest one: %s' % show(x), not other)
        ctx.require(got, '%s never returns' % f.qual)


def componentwise(dom, y, diff):
    """y is congruent to plus or minus diff, piece by piece."""
    base = dom.mod(diff, V(1, c=1))
    v, p = dom.function(base)
    w, q = dom.function(y)
    if w not in (v, None):
        raise Top('another fraction')
    for sg in (1, -1):
        pass
    for lo, hi, a, b in q:
        ok = False
        for s in (1, -1):
            if a == s and b.denominator == 1:
                ok = True
        if not ok:
            return False
    return True
