"""The fake potential: where it is infinite, and where it is used."""
from ..engine import strip_at, Monitor
from ..terms import T, NONE, attr, cval, walk, show
from .. import roles as R
from .minimiser import callers, Stage, captured_by
from .results import DecisionMonitor, collections, self_of
from .search import mentions, opt_attrs, EMPTY


def potential_class(ctx, roles):
    """Classes with __call__ whose instances get the results of the search."""
    res = []
    for c in ctx.prog.classes.values():
        f, g = ctx.prog.find_method(c, '__call__'), ctx.prog.find_method(c, '__init__')
        if f is None or g is None or ctx.prog.mro(c)[0] is not c:
            continue
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if 'result' in names and 'width' in names:
            res.append((c, f))
    return res


def number(t):
    """The number a term is, or None."""
    t = strip_at(t)
    if t.op == 'const' and isinstance(cval(t), (int, float)):
        return float(cval(t))
    if t.op == 'ext' and t.a[0] in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty', 'numpy.PINF'):
        return float('inf')
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.float', 'numpy.float64', 'numpy.float_') and t.a[1]:
        x = strip_at(t.a[1][0])
        if x.op == 'const':
            try:
                return float(cval(x))
            except (TypeError, ValueError):
                return None
        return number(x)
    if t.op == 'un' and t.a[0] == '-':
        x = number(t.a[1])
        return None if x is None else -x
    return None


class Near(DecisionMonitor):
    def __init__(self, ctx, roles, cols, pos, cutoffs):
        DecisionMonitor.__init__(self, ctx, roles, cols, 'none', 0, cutoffs, kind='node')
        self.pos = pos

    def init(self):
        return EMPTY.set(subj=self.pos)

    def main(self, ev, m, st, eng, r):
        return m


def decision(ctx, roles):
    cols = collections(ctx, roles)
    found = potential_class(ctx, roles)
    if not found or not cols['node']:
        ctx.undecided('value', 'fake potential', 'class not found')
        return
    for cls, f in found:
        me = self_of(cls)
        pos = T('in', 'pos')
        width = set(opt_attrs(ctx.prog, cls, 'width'))
        mon = Near(ctx, roles, cols, pos, {attr(me, n) for n in width})
        mon.cut_names = width | set(opt_attrs(ctx.prog, roles.result, 'dist_cutoff'))
        eng, rets, raises = ctx.analyse(f, [pos], [], self_term=me, monitor=mon, opaque=roles.data_methods - {h.fid for k in ctx.prog.mro(cls) for ms in k.methods.values() for h in ms}, count=mon.counts, label=f.qual)
        loc = ctx.loc(f)
        for st, v in rets:
            m = st.mon
            x = number(v)
            if st.taint or mon.unknown(m) or x is None:
                ctx.undecided('value', f.qual, mon.unknown(m) or 'value %s' % show(v)[:100])
            elif x == float('inf'):
                if m.get('near'):
                    ctx.ok('value', '%s: infinite with a node within reach' % f.qual)
                elif not m.get('checked'):
                    ctx.bad('value', loc, f.qual, 'the potential is infinite without looking for nodes')
                else:
                    ctx.bad('value', loc, f.qual, 'the potential is infinite although no node was found within its width')
            elif m.get('near'):
                ctx.bad('value', loc, f.qual, 'the potential is %s although there is a node within its width' % show(v))
            elif x != 0:
                ctx.bad('value', loc, f.qual, 'the potential is %s where no node is within its width' % show(v))
            elif m.get('cut') or not m.get('checked'):
                ctx.bad('value', loc, f.qual, 'the potential is zero although not all nodes near were looked at%s' % (' (%s)' % m.get('cut') if m.get('cut') else ''))
            else:
                ctx.ok('value', '%s: zero with no node within reach' % f.qual)
        if not rets:
            ctx.bad('value', loc, f.qual, 'the potential has no value')
        if not raises and rets:
            ctx.ok('source', '%s: distances to nodes, compared with the width' % f.qual)


class Sum(Monitor):
    """What is asked for the value of the function minimised at a position."""

    def __init__(self, f, fk):
        self.f, self.fk = f, fk

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and strip_at(ev.fn) in (self.f, self.fk) if isinstance(ev.fn, T) else False:
            which = 'f' if strip_at(ev.fn) is self.f else 'p'
            if len(m) < 6:
                return m + ((which, tuple(ev.args) + tuple(v for _, v in sorted(dict(ev.kwargs).items())), ev.result),)
        return m


def base(t):
    """Strip awaiting and rewrapping."""
    t = strip_at(t)
    while t.op in ('await', 'awaited') or t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.float', 'numpy.float64', 'numpy.asarray', 'numpy.array') and t.a[1]:
        t = strip_at(t.a[0] if t.op in ('await', 'awaited') else t.a[1][0])
    return t


def c36(ctx):
    from .start import bound
    roles = R.get(ctx.prog)
    ctx.rule('value', 'the potential is infinite on exactly those paths on which a node was found within its width, and zero on the others, on which all nodes near were looked at')
    ctx.rule('source', 'what is compared with the width are the distances from the position given to nodes')
    ctx.rule('sum', 'where there is a fake potential, the function minimised first gives the value of the function plus that of the potential, both at the position asked for')
    ctx.rule('stages', 'the fake potential is in the first of two minimisations only; without it there is one')
    ctx.rule('start', 'the second minimisation starts from the last simplex of the first, enlarged about its best vertex')
    decision(ctx, roles)
    fs = [f for f in ctx.prog.functions.values() if f.name == 'root_nelder_mead']
    gs = callers(ctx.prog, fs[0]) if fs else []
    if not gs:
        ctx.undecided('stages', 'minimiser', 'not found')
        return
    f = fs[0]
    fk, plain, init = T('in', 'fake_potential'), T('in', 'func'), T('in', 'initial_simplex')
    for g in gs:
        eng, rets, raises = ctx.analyse(g, monitor=Stage(f), opaque={f.fid}, label=g.qual)
        for st, v in rets:
            if st.taint:
                ctx.undecided('stages', g.qual, 'imprecise path')
                continue
            none = is_none(st, fk)
            calls = [(bound(fn, args, dict(kw)), node, func) for fn, args, kw, node, func in st.mon]
            loc = ctx.loc(g)
            if none is None:
                ctx.undecided('stages', g.qual, 'whether there is a fake potential is not looked at on a path')
                continue
            want = 1 if none else 2
            if len(calls) != want:
                if len(calls) < want and not calls:
                    ctx.undecided('stages', g.qual, 'no minimisation found')
                elif none:
                    ctx.undecided('stages', g.qual, '%d minimisations without a fake potential' % len(calls))
                else:
                    ctx.bad('stages', loc, g.qual, 'there is a fake potential, but %d minimisation%s' % (len(calls), '' if len(calls) == 1 else 's'))
                continue
            for i, (b, node, func) in enumerate(calls):
                t = b.get('func')
                at = ctx.loc(func, node)
                if t is None:
                    ctx.undecided('stages', at, 'function not found')
                    continue
                t = strip_at(t)
                first = want == 2 and i == 0
                held = t is not plain and (mentions(t, fk) or captured_by(ctx, eng, st, t, fk))
                if not first:
                    if t is plain:
                        ctx.ok('stages', '%s: the function itself' % at)
                    elif held:
                        ctx.bad('stages', at, g.qual, 'the function of minimisation %d contains the fake potential' % (i + 1))
                    else:
                        ctx.undecided('stages', at, 'function %s' % show(t)[:80])
                elif t is plain:
                    ctx.bad('stages', at, g.qual, 'the first minimisation does not use the fake potential')
                elif held or t.op in ('func', 'inst', 'bound', 'partial'):
                    added(ctx, eng, st, g, t, plain, fk, at)
                else:
                    ctx.undecided('sum', at, 'function %s' % show(t)[:80])
                s = b.get('initial_simplex')
                if s is None:
                    ctx.undecided('start', at, 'simplex not found')
                elif i == 0:
                    if any(strip_at(y) is init for y in (s,)):
                        ctx.ok('start', '%s: from the simplex given' % at)
                    elif not mentions(s, init):
                        ctx.bad('start', at, g.qual, 'the minimisation does not start from the simplex given')
                    else:
                        ctx.undecided('start', at, 'simplex %s' % show(s)[:80])
                else:
                    enlarged(ctx, s, calls, f, at, g, init, st, eng)


def is_none(st, t):
    for k, v in st.facts.items():
        if k[0] == 'is' and t in k[1:] and NONE in k[1:]:
            return v
        if k[0] == 'truth' and k[1] is t and v is True:
            return False
    return None


def added(ctx, eng, st, g, t, plain, fk, at):
    """The function minimised with the fake potential."""
    x = T('in', '#x')
    mon = Sum(plain, fk)
    eng2 = eng
    old = eng2.mon
    try:
        eng2.mon = mon
        s = st.copy()
        s.mon = mon.init()
        outs = run_value(eng2, s, t, x, g)
    finally:
        eng2.mon = old
    if outs is None:
        ctx.undecided('sum', at, 'function %s' % show(t)[:80])
        return
    for s, v in outs:
        if s.taint:
            ctx.undecided('sum', at, 'imprecise path')
            continue
        asked = {'f': [], 'p': []}
        for w, args, res in s.mon:
            asked[w].append((args, res))
        if not asked['f'] or not asked['p']:
            if not asked['p'] and asked['f'] and all(not mentions(v, fk) for _ in (0,)):
                ctx.bad('sum', at, g.qual, 'the value of the function minimised first does not contain the fake potential on a path')
            elif not asked['f'] and asked['p']:
                y = number(v)
                if y == float('inf'):
                    ctx.undecided('sum', at, 'the function is not evaluated where the potential is infinite')
                else:
                    ctx.bad('sum', at, g.qual, 'the value of the function minimised first does not contain the function itself on a path')
            else:
                ctx.undecided('sum', at, 'value %s' % show(v)[:80])
            continue
        wrong = [(w, a) for w in asked for a, _ in asked[w] if len(a) != 1 or not same_pos(a[0], x)]
        if wrong:
            w, a = wrong[0]
            if a and all(not mentions(y, x) for y in a):
                ctx.bad('sum', at, g.qual, 'the %s is not evaluated at the position asked for: %s' % ('function' if w == 'f' else 'fake potential', ', '.join(show(y)[:60] for y in a)))
            elif a and len(a) == 1 and shifted(a[0], x):
                ctx.bad('sum', at, g.qual, 'the %s is evaluated at %s instead of the position asked for' % ('function' if w == 'f' else 'fake potential', show(a[0])[:60]))
            else:
                ctx.undecided('sum', at, 'evaluated at %s' % ', '.join(show(y)[:60] for y in a))
            continue
        y = base(v)
        if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('builtins.sum', 'numpy.add', 'numpy.sum', 'math.fsum'):
            args = list(y.a[1])
            if len(args) == 1 and strip_at(args[0]).op in ('tuple', 'list'):
                args = list(strip_at(args[0]).a[0]) if strip_at(args[0]).a and isinstance(strip_at(args[0]).a[0], tuple) else list(strip_at(args[0]).a)
            parts, sign = [base(z) for z in args if isinstance(z, T)], '+'
        elif y.op == 'bin':
            parts, sign = [base(y.a[1]), base(y.a[2])], y.a[0]
        else:
            parts, sign = [], None
        rf = [base(r) for _, r in asked['f'] if isinstance(r, T)]
        rp = [base(r) for _, r in asked['p'] if isinstance(r, T)]
        is_f = lambda z: any(z is r for r in rf) or z.op == 'call' and strip_at(z.a[0]) is plain
        is_p = lambda z: any(z is r for r in rp) or z.op == 'call' and strip_at(z.a[0]) is fk
        if len(parts) == 2 and (is_f(parts[0]) and is_p(parts[1]) or is_f(parts[1]) and is_p(parts[0])):
            if sign == '+':
                ctx.ok('sum', '%s: function plus potential at the position asked for' % at)
            else:
                ctx.bad('sum', at, g.qual, 'function and potential are not added: %s' % show(y)[:100])
        elif is_f(y) or is_p(y):
            ctx.bad('sum', at, g.qual, 'the value of the function minimised first is %s alone' % ('the function' if is_f(y) else 'the fake potential'))
        else:
            ctx.undecided('sum', at, 'value %s' % show(v)[:100])


def same_pos(t, x):
    t = strip_at(t)
    while t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'copy.copy', 'numpy.asanyarray', 'builtins.tuple', 'builtins.list') and t.a[1]:
        t = strip_at(t.a[1][0])
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'copy':
        t = strip_at(t.a[0].a[0])
    return t is x


def shifted(t, x):
    t = strip_at(t)
    return t.op in ('bin', 'un', 'sub') and all(y.op in ('bin', 'un', 'sub', 'const', 'in', 'slice') for y in walk(t))


def run_value(eng, st, t, x, g):
    """[(state, value)] of awaiting t(x)."""
    res = []
    eng.sinks.append([])
    eng.fstack.append((g, 'top', None))
    try:
        node = g.node
        for s, v in eng.apply(t, [x], [], st, node):
            v0 = strip_at(v)
            if v0.op in ('coro',):
                for s2, w in eng.await_(v0, s, node):
                    res.append((s2, w))
            else:
                res.append((s, v))
    finally:
        eng.fstack.pop()
        eng.sinks.pop()
    return res


def enlarged(ctx, s, calls, f, at, g, init, st, eng):
    """best + factor (simplex - best) with a factor above one, about the last
    simplex of the minimisation before."""
    from ..num import Top
    t = strip_at(s)
    hist = set()
    for y in walk(t):
        if y.op == 'attr' and y.a[1] in ('simplex_history',):
            hist.add(y)
    if not hist:
        if strip_at(t) is init:
            ctx.bad('start', at, g.qual, 'the second minimisation starts from the first simplex again')
        else:
            ctx.undecided('start', at, 'simplex %s' % show(t)[:100])
        return
    try:
        p = linear(t)
    except Top as e:
        ctx.undecided('start', at, 'simplex: %s' % e)
        return
    lasts = {}
    for (rows, h, which), c in p.items():
        if c:
            lasts.setdefault((h, which), {})[rows] = c
    if len(lasts) != 1:
        ctx.undecided('start', at, 'simplex from several parts')
        return
    (h, which), d = next(iter(lasts.items()))
    if which != -1:
        ctx.bad('start', at, g.qual, 'the second minimisation does not start from the last simplex of the first (number %s of the history)' % which)
        return
    whole = d.pop('all', 0)
    vert = {k: v for k, v in d.items() if v}
    if set(vert) - {0}:
        ctx.bad('start', at, g.qual, 'the simplex is not enlarged about its best vertex, but about number %s' % ', '.join(str(k) for k in sorted(vert, key=str) if k != 0))
    elif abs(whole + sum(vert.values()) - 1) > 1e-12:
        ctx.bad('start', at, g.qual, 'the best vertex of the first minimisation is not a vertex of the simplex of the second')
    elif whole <= 1:
        if whole == 1 and not vert:
            ctx.bad('start', at, g.qual, 'the simplex of the second minimisation is not enlarged')
        else:
            ctx.bad('start', at, g.qual, 'the simplex of the second minimisation is scaled by %s, not enlarged' % whole)
    else:
        ctx.ok('start', '%s: last simplex enlarged by %s about its best vertex' % (at, whole))


def linear(t):
    """{(rows, history, index): coefficient}"""
    from ..num import Top
    t = strip_at(t)
    k = scalar(t)
    if t.op == 'bin' and t.a[0] in ('+', '-'):
        a, b = linear(t.a[1]), linear(t.a[2])
        r = dict(a)
        for x, c in b.items():
            r[x] = r.get(x, 0) + (c if t.a[0] == '+' else -c)
        return r
    if t.op == 'bin' and t.a[0] in ('*', '/'):
        x, y = scalar(t.a[1]), scalar(t.a[2])
        if x is not None and t.a[0] == '*':
            return {z: c * x for z, c in linear(t.a[2]).items()}
        if y is not None:
            return {z: c * y if t.a[0] == '*' else c / y for z, c in linear(t.a[1]).items()}
    if t.op == 'un' and t.a[0] == '-':
        return {z: -c for z, c in linear(t.a[1]).items()}
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy') and t.a[1]:
        return linear(t.a[1][0])
    if t.op == 'sub':
        i = scalar(t.a[1]) if isinstance(t.a[1], T) else None
        b = strip_at(t.a[0])
        if isinstance(t.a[1], T) and t.a[1].op == 'tuple':
            raise Top('index %s' % show(t.a[1]))
        if i is not None and int(i) == i:
            if b.op == 'attr' and b.a[1] == 'simplex_history':
                return {('all', b, int(i)): 1.0}
            inner = linear(b)
            if all(z[0] == 'all' for z in inner):
                return {(int(i), z[1], z[2]): c for z, c in inner.items()}
            if all(z[0] == 'all' or isinstance(z[0], int) for z in inner):
                return merge((((int(i) if z[0] == 'all' else z[0]), z[1], z[2]), c) for z, c in inner.items())
    if k is not None:
        raise Top('constant')
    raise Top(show(t)[:80])


def merge(items):
    r = {}
    for z, c in items:
        r[z] = r.get(z, 0) + c
    return r


def scalar(t):
    t = strip_at(t)
    if t.op == 'const' and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return float(cval(t))
    if t.op == 'un' and t.a[0] == '-':
        x = scalar(t.a[1])
        return None if x is None else -x
    if t.op == 'bin':
        a, b = scalar(t.a[1]), scalar(t.a[2])
        if a is not None and b is not None:
            try:
                return {'+': a + b, '-': a - b, '*': a * b}.get(t.a[0], a / b if t.a[0] == '/' and b else None)
            except OverflowError:
                return None
    return None
