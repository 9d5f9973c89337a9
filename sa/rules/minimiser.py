"""C18 the reported value, C19 counting and limits, C20 the best point is kept."""
import ast
from fractions import Fraction

from .. import arrays
from .. import roles as _roles
from ..arrays import T, Interp, Unsupported, difference, get, lin_parts, same_index, size_of
from ..engine import Monitor, strip_at
from ..loader import Function
from ..terms import walk
from .. import terms
from .search import mentions

USER = T('in', 'func')
ZERO, ONE, LAST = arrays.const(0), arrays.const(1), arrays.const(-1)


class Minimiser:
    """All ways through the minimiser."""

    def __init__(self, ctx, roles):
        self.ctx, self.roles = ctx, roles
        prog = ctx.prog
        fs = [f for f in prog.functions.values() if f.name == 'root_nelder_mead']
        if not fs:
            need = {'initial_simplex', 'xtol', 'ftol', 'func'}
            fs = [f for f in prog.functions.values() if isinstance(f.node, ast.AsyncFunctionDef) and need <= {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}]
        ctx.require(fs, 'the Nelder-Mead minimiser')
        self.f = fs[0]
        a = self.f.node.args
        self.I = Interp(prog, USER, [c for c in prog.classes.values() if c is roles.minres])
        self.error = None
        self.rets = []
        try:
            self.outs = self.I.run(self.f, {x.arg: T('in', x.arg) for x in a.args + a.kwonlyargs})
        except Unsupported as e:
            self.error = str(e)
            self.outs = []
        prog_f = self.I.functions
        ctx.functions |= set(prog_f)
        ctx.stats['paths'] += len(self.outs)
        ctx.stats['loops'] += self.I.loops
        ctx.stats['events'] += self.I.steps
        ctx.stats['entry_points'] += 1
        ctx.entries.append('%s: %d path classes' % (self.f.qual, len(self.outs)))
        self.results = [r for r in self.I.rec if r[0] == 'result']
        self.loops = [r for r in self.I.rec if r[0] == 'loop']
        self.evals = [r for r in self.I.rec if r[0] == 'eval']
        self.stores = [r for r in self.I.rec if r[0] == 'store']

    def loc(self, node=None):
        return self.ctx.loc(self.f, node)

    def main(self, c):
        """The loop at whose head an array holds the content c, and its place."""
        for r in self.loops:
            for l in r[4]:
                if self.I.content_at(r[1], l) is c:
                    return r, l
        return None, None


def run(ctx, roles, names):
    m = Minimiser(ctx, roles)
    if m.error or not m.results:
        why = m.error or 'no result is made'
        for r in names:
            ctx.undecided(r, m.f.qual, 'outside the array language: %s' % why)
        return None
    return m


def contains(t, x):
    return any(y is x for y in walk(t))


def ops(t):
    """Names of the functions applied in a term."""
    return {y.a[0] for y in walk(t) if y.op == 'ap'}


# ---------------------------------------------------------------------------
# order of values
class Order:
    """What the conditions of a path say about the order of values."""

    def __init__(self, I, st, contents=()):
        self.e = {}
        self.vague = False
        terms_ = set()
        for k, v in st.facts.items():
            if k.op != 'lt':
                continue
            a, b = k.a
            if not any(y.op == 'app' for y in walk(k)):
                continue
            if a.op == 'app' and b.op == 'app':
                if v:
                    self.edge(a, b, True)
                else:
                    self.edge(b, a, False)
                terms_ |= {a, b}
            elif not any(x.op == 'in' and x.a[0] not in ('func', 'initial_simplex') for x in (a, b)) and not (contains(k, T('in', 'fprime_cutoff')) or contains(k, T('in', 'ftol')) or contains(k, T('in', 'xtol'))):
                self.vague = True
        for c in contents:
            if not I.is_sorted(st, c):
                continue
            rows = [get(c, ZERO), get(c, arrays.const(-2)), get(c, LAST)]
            vals = [T('app', USER, r) for r in rows]
            for x, y in zip(vals, vals[1:]):
                self.edge(x, y, False)
            for t in terms_:
                if t.op == 'app' and t.a[1].op == 'row' and t.a[1].a[0] is c and t not in vals:
                    self.edge(vals[0], t, False)
                    self.edge(t, vals[2], False)

    def edge(self, a, b, strict):
        self.e.setdefault(a, set()).add((b, strict))

    def less(self, a, b):
        """'lt', 'le' or None"""
        best, todo = {a: False}, [(a, False)]
        while todo:
            x, s = todo.pop()
            for y, s2 in self.e.get(x, ()):
                n = s or s2
                if y not in best or n and not best[y]:
                    best[y] = n
                    todo.append((y, n))
        if b not in best or a is b and not best[b]:
            return 'le' if a is b else None
        return 'lt' if best[b] else 'le'


def value_of(r):
    return T('app', USER, r)


# ---------------------------------------------------------------------------
def c18(ctx):
    ctx.rule('paired', 'The value of every result the minimiser makes is what the function returned for the position of the same result.')
    ctx.rule('best', 'The position is row 0 of a simplex whose rows are sorted by value (argsort of the values of exactly these rows).')
    ctx.rule('history', 'The last entry of the recorded simplices is the simplex the result is taken from, and the recorded values are the values of the recorded simplices, in step.')
    ctx.rule('exact', 'Arrays into which rows and values are stored hold floating-point numbers.')
    ctx.rule('stages', 'The reported position and value are those of a minimisation whose function does not contain the fake potential; where there are two stages, the potential is in the first only.')
    ctx.rule('joined', 'Position, value, success and status of a two-stage result are those of its second stage, and the histories end with it.')
    ctx.rule('wrapper', 'The function minimised is the gap function: what wraps it returns its value unchanged.')
    ctx.rule('stored', 'Nothing replaces the value of a result after it was made.')
    ctx.assumptions.append('exact real arithmetic; the gap function returns comparable numbers (no NaN)')
    roles = _roles.get(ctx.prog)
    m = run(ctx, roles, ('paired', 'best', 'history', 'exact'))
    if m:
        for r in m.results:
            result_pairs(ctx, m, r)
        exact(ctx, m)
    stages(ctx, roles)
    joined(ctx, roles, ('pos', 'value', 'success', 'status'), 'joined')
    wrapper(ctx, roles)
    stored(ctx, roles)


def kwargs_of(m, r):
    d = dict(r[3])
    return d


CHANGES = {'abs', 'absolute', 'fabs', 'round', 'around', 'round_', 'rint', 'maximum', 'minimum', 'max', 'min', 'sqrt', 'square', 'clip', 'Mult', 'Div', 'Pow', 'negative', 'floor', 'ceil', 'int', 'nan_to_num'}


def result_pairs(ctx, m, r):
    I, st = m.I, r[1]
    d = kwargs_of(m, r)
    where = 'result at %s' % m.loc(r[4])
    loc, q = m.loc(r[4]), m.f.qual
    if 'pos' not in d or 'value' not in d:
        ctx.undecided('paired', where, 'no position or value given by name')
        return
    pos, val = I.snap(st, d['pos']), I.snap(st, d['value'])
    if val is value_of(pos):
        ctx.ok('paired', where)
    elif val.op == 'app' and val.a[0] is USER and not st.taint and (lin_parts(val.a[1]) != lin_parts(pos)) and settled(pos) and settled(val):
        ctx.bad('paired', loc, q, 'the value reported is that of %s, the position is %s' % (arrays.show(val.a[1], 5), arrays.show(pos, 5)))
    elif mixed(val, pos) and not st.taint and settled(val) and settled(pos):
        ctx.bad('paired', loc, q, 'the value reported, %s, is not the value at the position, %s' % (arrays.show(val, 5), arrays.show(pos, 5)))
    elif val.op == 'ap' and not st.taint and settled(pos) and val.a[0].split('.')[-1] in CHANGES and any(y is value_of(pos) for y in val.a[1]):
        ctx.bad('paired', loc, q, 'the value reported, %s, is not the value at the position, %s' % (arrays.show(val, 5), arrays.show(pos, 5)))
    else:
        why = torn(m, val.a[0], pos.a[0]) if val.op == pos.op == 'row' and not st.taint else None
        if why:
            ctx.bad('paired', loc, q, why)
        else:
            ctx.undecided('paired', where, '%s, %s' % (arrays.show(val, 5), arrays.show(pos, 5)))
    # the position is the best vertex
    c = None
    if pos.op == 'row':
        c = pos.a[0]
    else:
        for y in walk(val):
            if y.op == 'row':
                c = y.a[0]
    best(ctx, m, st, pos, c, where, loc, q)
    history(ctx, m, st, d, pos, c, where, loc, q)


def settled(t):
    return not any(y.op in ('opaque', 'deep', 'alt', 'phi') and not (y.op == 'phi' and isinstance(y.a[-1], str)) for y in walk(t))


def mixed(val, pos):
    """A combination of values, or a row of an array of values that is not the
    map of the positions."""
    return val.op == 'lin' and any(x.op == 'app' for x, _ in val.a[1])


def unsorted(m, c):
    """Why the rows of a content are not in the order of their values (a way
    to have it so), None if that is not known."""
    r, l = m.main(c)
    I = m.I
    if r is None:
        if c.op in ('set', 'sets', 'arr'):
            return 'the simplex is not sorted'
        return None
    head, backs, entry = r[1], r[2], r[6]
    for s in [entry] + backs:
        b = I.content_at(s, l)
        if b is None or s.taint:
            continue
        if I.is_sorted(s, b):
            continue
        if b.op in ('set', 'sets'):
            return 'the simplex is not sorted again after a row was replaced'
        if b.op == 'arr':
            return 'the simplex given is not sorted'
        if b.op == 'perm' and b.a[1].op == 'argsort' and b.a[1].a[0].op == 'map':
            return 'the rows are not sorted by their own values'
        if own_order(b) is False:
            return 'the rows are sorted in the wrong direction'
    return None


def own_order(b):
    """False if the rows are in the reversed order of their values."""
    if b.op != 'perm':
        return None
    i = b.a[1]
    if i.op == 'argsort' and i.a[0].op == 'lin':
        c, d = lin_parts(i.a[0])
        if len(d) == 1:
            (x, k), = d.items()
            if x.op == 'map' and x.a[1] is b.a[0]:
                return k > 0 or False
    if i.op == 'ap' and i.a[0] == 'order' and i.a[1][0].op == 'argsort' and i.a[1][0].a[0].op == 'map' and i.a[1][0].a[0].a[1] is b.a[0]:
        return False
    return None


def unpaired(f, v):
    """Are values f certainly not those of the rows v?"""
    if f.op == 'map':
        return different(f.a[1], v)
    if f.op == v.op == 'perm':
        return f.a[1] is v.a[1] and unpaired(f.a[0], v.a[0])
    if f.op == 'set':
        if v.op == 'set' and f.a[1] is v.a[1]:
            x, y = f.a[2], v.a[2]
            return unpaired(f.a[0], v.a[0]) or foreign(x, y)
        return f.a[0].op == 'map' and different(v, f.a[0].a[1]) is False and foreign(f.a[2], get(v, f.a[1]))
    if f.op == 'sets':
        if v.op == 'sets' and f.a[1:3] == v.a[1:3]:
            x, y = f.a[3], v.a[3]
            return unpaired(f.a[0], v.a[0]) or foreign(x, y)
    return False


def foreign(x, y):
    """Is x certainly not the value at y?"""
    if x.op == 'app':
        return distinct(x.a[1], y)
    if x.op == 'ap' and settled(x) and x.a[0].split('.')[-1] in CHANGES and x.a[0].split('.')[-1] != 'int':
        return not all(z is value_of(y) for z in x.a[1])
    if x.op == 'lin' and settled(x):
        return any(z.op == 'app' for z, _ in x.a[1])
    return x.op == 'const'


def distinct(x, y):
    """Two rows made in different ways."""
    return x is not y and settled(x) and settled(y)


def different(w, v):
    """Contents of different rows."""
    if w is v:
        return False
    if w.op == v.op == 'perm':
        return different(w.a[0], v.a[0]) if w.a[1] is v.a[1] else different(w.a[0], v.a[0]) and None
    if w.op == v.op == 'set':
        return bool(different(w.a[0], v.a[0])) or w.a[1] is v.a[1] and distinct(w.a[2], v.a[2])
    if w.op == v.op == 'sets':
        return bool(different(w.a[0], v.a[0])) or w.a[1:3] == v.a[1:3] and distinct(w.a[3], v.a[3])
    for a, b in ((w, v), (v, w)):
        if a.op in ('set', 'sets') and a.a[0] is b:
            return distinct(a.a[-1], get(b, a.a[1] if a.op == 'set' else T('J', a.a[1], a.a[2])))
        if a.op == 'perm' and b.op in ('phi', 'arr', 'set', 'sets'):
            return True
    return False


def torn(m, f, v):
    """A turn of the loop after which values and positions do not belong
    together: what it does, None if not known."""
    for L, r, head, s in m.I.drops:
        if r[0] != 'map' or s.taint:
            continue
        lr = next((x for x in m.loops if x[7].a[0] == L and any(m.I.content_at(x[1], l) is f for l in x[4]) and any(m.I.content_at(x[1], l) is v for l in x[4])), None)
        if lr is None:
            continue
        names = [l for l in lr[4] if m.I.content_at(lr[1], l) is f], [l for l in lr[4] if m.I.content_at(lr[1], l) is v]
        if r[1] not in names[0] or r[2] not in names[1]:
            continue
        a, b = m.I.content_at(s, r[1]), m.I.content_at(s, r[2])
        if a is not None and b is not None and unpaired(a, b):
            return 'after a turn of the loop the values are %s, the positions %s' % (arrays.show(strip_perm(a), 5), arrays.show(strip_perm(b), 5))
    return None


def strip_perm(c):
    if c.op == 'map' and c.a[1].op == 'perm':
        return T('map', c.a[0], c.a[1].a[0])
    return c.a[0] if c.op == 'perm' else c


def best(ctx, m, st, pos, c, where, loc, q):
    I = m.I
    if pos.op == 'row' and c is not None and same_index(c, pos.a[1], ZERO) is True:
        if I.is_sorted(st, c):
            ctx.ok('best', where)
            return
        why = unsorted(m, c)
        if why and not st.taint:
            ctx.bad('best', loc, q, why)
        else:
            ctx.undecided('best', where, 'order of the rows not known')
        return
    if pos.op == 'row' and pos.a[1].op == 'ap' and 'argmin' in pos.a[1].a[0]:
        x = pos.a[1].a[1][0]
        if x.op == 'map' and x.a[1] is c:
            ctx.ok('best', where)
            return
    if pos.op == 'row' and arrays.isnum(pos.a[1]) and c is not None and I.is_sorted(st, c) and not st.taint:
        ctx.bad('best', loc, q, 'the position is vertex %s of the sorted simplex, not the best' % arrays.show(pos.a[1]))
        return
    if not st.taint and pos.op == 'lin' and settled(pos):
        ctx.bad('best', loc, q, 'the position, %s, is not a vertex of the simplex' % arrays.show(pos, 5))
        return
    ctx.undecided('best', where, 'position %s' % arrays.show(pos, 5))


def raw_list(I, st, v):
    """The list behind an (array of a) list."""
    x = st.store.get(v) if v.op == 'ref' else v
    while x is not None and x.op == 'ap' and x.a[0] in ('numpy.array', 'numpy.asarray', 'numpy.stack', 'builtins.list', 'list') and x.a[1]:
        x = x.a[1][0]
        x = st.store.get(x, x) if x.op == 'ref' else x
    return x


def history(ctx, m, st, d, pos, c, where, loc, q):
    I = m.I
    hs = d.get('simplex_history')
    fs = d.get('fun_simplex_history')
    if hs is None:
        ctx.undecided('history', where, 'no history')
        return
    h = raw_list(I, st, hs)
    f = raw_list(I, st, fs) if fs is not None else None
    if h is None or h.op not in ('Lst', 'LApp', 'Lphi', 'list') or c is None:
        ctx.undecided('history', where, 'history %s' % arrays.show(h if h is not None else hs, 4))
        return
    if I.last_is(st, h, c) or h.op == 'list' and h.a[0] and h.a[0][-1] is c:
        ctx.ok('history', where + ', last simplex')
    else:
        why = not_last(m, st, h, c)
        if why and not st.taint:
            ctx.bad('history', loc, q, why)
        else:
            ctx.undecided('history', where, 'last recorded simplex not known')
    if f is None:
        return
    if I.list_zipped(st, h, f) or I.list_zipped(st, f, h):
        ctx.ok('history', where + ', values')
        return
    why = not_zipped(m, st, h, f)
    if why and not st.taint:
        ctx.bad('history', loc, q, why)
    else:
        ctx.undecided('history', where, 'recorded values not followed')


def place(m, x):
    """The loop and place whose list at the head is x."""
    for r in m.loops:
        for l in r[4]:
            if m.I.list_at(r[1], l) is x:
                return r, l
    return None, None


def entries(I, s, x, base):
    """What was appended to base."""
    res = []
    while x is not base:
        if x is None or x.op != 'LApp':
            return None
        res.append(x.a[1])
        x = x.a[0]
    return list(reversed(res))


def arr_of(I, s, x):
    return I.array(s, x) if x.op == 'ref' else x


def not_last(m, st, h, c):
    I = m.I
    if h.op == 'LApp' or h.op in ('Lst', 'list') and h.a[0]:
        x = h.a[1] if h.op == 'LApp' else h.a[0][-1]
        y = arr_of(I, st, x)
        if y is not None and y is not c and settled(y):
            return 'the last simplex recorded is not the final one'
        return None
    r, l = place(m, h)
    if r is None:
        return None
    r2, lc = m.main(c)
    if r2 is not r:
        return None
    for s in r[2]:
        if s.taint:
            continue
        base, cur = I.list_at(r[1], l), I.content_at(s, lc)
        now = I.list_at(s, l)
        if cur is None or now is None or cur is c:
            continue
        if now is base:
            return 'a turn of the loop changes the simplex and records none'
        if now.op == 'LApp':
            y = arr_of(I, s, now.a[1])
            if y is not None and y is not cur and settled(y):
                return 'a turn of the loop records a simplex other than the new one'
    return None


def not_zipped(m, st, h, f):
    I = m.I
    r, l = place(m, h)
    r2, l2 = place(m, f)
    if r is None or r is not r2:
        return None
    later = [next((x for x in m.I.rec if x[0] == 'alias' and x[2] is y and not x[1].taint), None) for y in (h, f)]
    if (later[0] is None) != (later[1] is None):
        x = later[0] or later[1]
        return 'the %s recorded are changed later, at %s' % ('simplices' if later[0] else 'values', m.loc(x[4]))
    e1, e2 = I.list_at(r[6], l), I.list_at(r[6], l2)
    if e1 is not None and e2 is not None and e1.op == e2.op == 'Lst':
        why = unlike(I, r[6], list(e1.a[0]), list(e2.a[0]))
        if why:
            return why
    for s in r[2]:
        if s.taint:
            continue
        a = entries(I, s, I.list_at(s, l), I.list_at(r[1], l))
        b = entries(I, s, I.list_at(s, l2), I.list_at(r[1], l2))
        if a is None or b is None:
            continue
        why = unlike(I, s, a, b)
        if why:
            return why
    return None


def unlike(I, s, a, b):
    if len(a) != len(b):
        return 'a turn records %d simplices and %d sets of values' % (len(a), len(b))
    for x, y in zip(a, b):
        cx, cy = arr_of(I, s, x), arr_of(I, s, y)
        if cx is not None and cy is not None and not arrays.paired(cy, cx) and cy.op == 'map' and settled(cx) and settled(cy):
            return 'the values recorded are not those of the simplex recorded'
    return None


def exact(ctx, m):
    seen = set()
    for _, st, ref, idx, val, node in m.stores:
        x = st.store.get(ref)
        if x is None or x.op != 'A':
            continue
        key = (node.lineno, node.col_offset)
        if x.a[1] is arrays.TRUE:
            if key not in seen:
                seen.add(key)
                ctx.ok('exact', 'row stored at %s' % m.loc(node))
            continue
        origin = x.a[0]
        r, l = m.main(origin)
        if r is not None:
            e = m.I.at(r[6], l)
            y = e if l[0] == 'cell' else r[6].store.get(e)
            ent = y.a[1] if y is not None and y.op == 'A' else None
        else:
            ent = x.a[1]
        if ent is arrays.FALSE and not st.taint:
            ctx.bad('exact', m.loc(node), m.f.qual, 'rows are stored into an array that has the type of what was given, which truncates them for whole numbers')
        else:
            ctx.undecided('exact', 'row stored at %s' % m.loc(node), 'type of the array not known')


# ---------------------------------------------------------------------------
class Stage(Monitor):
    """Calls of the minimiser on a path, in order."""

    def __init__(self, target):
        self.target = target

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and isinstance(ev.fn, Function) and ev.fn.fid == self.target.fid:
            return m + ((ev.fn, tuple(ev.args), tuple(sorted(dict(ev.kwargs).items())), ev.node, eng.func),)
        return m


def callers(prog, f):
    """Functions with a fake potential that call the minimiser."""
    res = []
    for g in prog.functions.values():
        a = g.node.args if not isinstance(g.node, ast.Lambda) else None
        if a is None or g is f:
            continue
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if 'fake_potential' in names and 'func' in names and 'initial_simplex' in names:
            res.append(g)
    return res


def origin(eng, st, v, roles):
    """What a returned result reports: [term of the call]"""
    v = strip_at(v)
    if v.op == 'phi':
        return [y for x in eng.phis.get(v, ()) for y in origin(eng, st, x, roles)]
    if v.op == 'inst' and roles.joined is not None and v.a[0] == roles.joined.cid:
        x = next((y for (b, n), y in st.heap.items() if b is v and n == 'child'), None)
        if x is None:
            x = dict((n, y) for (b, n), y in st.heap.items() if b is v).get('_child')
        return origin(eng, st, x, roles) if x is not None else [None]
    return [v]


def stages(ctx, roles):
    from .start import bound, captured
    fs = [f for f in ctx.prog.functions.values() if f.name == 'root_nelder_mead']
    if not fs:
        ctx.undecided('stages', 'minimiser', 'not found')
        return
    f = fs[0]
    gs = callers(ctx.prog, f)
    if not gs:
        ctx.undecided('stages', 'function running the stages', 'not found')
    fk, plain = T('in', 'fake_potential'), T('in', 'func')
    for g in gs:
        eng, rets, raises = ctx.analyse(g, monitor=Stage(f), opaque={f.fid}, label=g.qual)
        for st, v in rets:
            calls = st.mon
            loc = ctx.loc(g)
            where = 'return of %s after %d minimisations' % (g.qual, len(calls))
            if st.taint:
                ctx.undecided('stages', where, 'imprecise path')
                continue
            funcs = []
            for fn, args, kw, node, func in calls:
                t = bound(fn, args, dict(kw)).get('func')
                funcs.append(t)
            def faked(t):
                return t is not None and (mentions(t, fk) or captured_by(ctx, eng, st, t, fk))
            late = [i for i, t in enumerate(funcs) if i > 0 and faked(t)]
            if late:
                ctx.bad('stages', ctx.loc(calls[late[0]][4], calls[late[0]][3]), g.qual, 'the fake potential is part of the function minimised in a later stage')
                continue
            srcs = origin(eng, st, v, roles)
            good = True
            for x in srcs:
                if x is None or x.op != 'call' or not (x.a[0].op == 'func' and x.a[0].a[0] == f.fid or f.name in terms.show(x.a[0])):
                    ctx.undecided('stages', where, 'result %s' % (terms.show(x) if x is not None else '?'))
                    good = False
                    continue
                kw = dict(x.a[2]) if len(x.a) > 2 else {}
                t = kw.get('func') or (x.a[1][0] if x.a[1] else None)
                if t is None:
                    ctx.undecided('stages', where, 'function not found')
                    good = False
                elif strip_at(t) is plain:
                    pass
                elif faked(t):
                    ctx.bad('stages', loc, g.qual, 'the result reported is that of the function with the fake potential')
                    good = False
                else:
                    ctx.undecided('stages', where, 'function %s' % terms.show(t))
                    good = False
            if good and srcs:
                ctx.ok('stages', where)


def captured_by(ctx, eng, st, t, x):
    """A closure (or an instance) that holds x."""
    t = strip_at(t)
    if t.op == 'func':
        fr = st.frames.get(t.a[1]) if len(t.a) > 1 and t.a[1] is not None else None
        if fr is None:
            return None
        fn = ctx.prog.functions.get(t.a[0])
        names = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)} if fn is not None else set()
        return any(isinstance(v, T) and k in names and (mentions(v, x) or v is not t and captured_by(ctx, eng, st, v, x)) for k, v in fr.items())
    if t.op == 'inst':
        return any(isinstance(v, T) and (mentions(v, x) or v.op in ('func', 'inst') and v is not t and captured_by(ctx, eng, st, v, x)) for (b, _), v in st.heap.items() if b is t)
    if t.op == 'call':
        return any(captured_by(ctx, eng, st, y, x) for y in t.a[1] if isinstance(y, T) and y.op in ('func', 'inst'))
    return False


def read_attr(ctx, cls, key):
    """[(state, value)] of an attribute of a joined result, and what reads it."""
    me = T('inst', cls.cid, 'self', False)
    g = ctx.prog.find_method(cls, key, 'get')
    if g is not None:
        eng, rets, raises = ctx.analyse(g, [], [], self_term=me, label='%s.%s' % (cls.name, key))
        return g, eng, rets
    g = ctx.prog.find_method(cls, '__getattr__') or ctx.prog.find_method(cls, '__getattribute__')
    if g is None:
        return None, None, []
    eng, rets, raises = ctx.analyse(g, [terms.const(key)], [], self_term=me, label='%s.%s' % (cls.name, key))
    return g, eng, rets


def stage_attr(v, me):
    """'child' / 'ancestor' and name if v is an attribute of a stage."""
    v = strip_at(v)
    if v.op == 'attr' and strip_at(v.a[0]).op == 'attr' and strip_at(strip_at(v.a[0]).a[0]) is me:
        return strip_at(v.a[0]).a[1], v.a[1]
    return None


def joined(ctx, roles, keys, rule):
    cls = roles.joined
    if cls is None:
        ctx.undecided(rule, 'two-stage results', 'class not found')
        return
    me = T('inst', cls.cid, 'self', False)
    for key in keys:
        g, eng, rets = read_attr(ctx, cls, key)
        where = '%s of %s' % (key, cls.name)
        if g is None:
            ctx.undecided(rule, where, 'not found')
            continue
        for st, v in rets:
            s = stage_attr(v, me)
            if s == ('child', key):
                ctx.ok(rule, where)
            elif st.taint:
                ctx.undecided(rule, where, 'imprecise path')
            elif s is not None:
                ctx.bad(rule, ctx.loc(g), g.qual, 'the %s reported for two stages is %s of the %s' % (key, s[1], 'first stage' if s[0] == 'ancestor' else s[0]))
            elif any(stage_attr(y, me) == ('ancestor', key) for y in walk(v)):
                ctx.bad(rule, ctx.loc(g), g.qual, 'the %s reported for two stages is made of both: %s' % (key, terms.show(v)))
            else:
                ctx.undecided(rule, where, terms.show(v))
    if rule != 'joined':
        return
    for key in ('simplex_history', 'fun_simplex_history'):
        g, eng, rets = read_attr(ctx, cls, key)
        where = '%s of %s' % (key, cls.name)
        for st, v in rets:
            seen = [stage_attr(y, me) for y in in_order(v)]
            seen = [s for s in seen if s is not None and s[1] == key]
            if seen and seen[-1][0] == 'child':
                ctx.ok(rule, where)
            elif st.taint or not seen:
                ctx.undecided(rule, where, terms.show(v))
            else:
                ctx.bad(rule, ctx.loc(g), g.qual, 'the %s of two stages ends with that of the first' % key)


def in_order(t):
    """Subterms from left to right."""
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
            for y in x.a:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(t)
    return out


# ---------------------------------------------------------------------------
class UserCalls(Monitor):
    def __init__(self, target):
        self.target = target

    def init(self):
        return frozenset()

    def on(self, ev, m, st, eng):
        return m


def wrapper(ctx, roles):
    """The gap function the tasks minimise is the one given, wrapped by
    something that hands on its value."""
    from .start import bound, minimiser_calls
    from ..engine import prog_types
    f = roles.run_async
    n = 0
    for fn, args, kwargs, node, func, st in minimiser_calls(ctx, roles):
        t = bound(fn, args, dict(kwargs)).get('func')
        if t is None:
            continue
        n += 1
        where = 'function minimised at %s' % ctx.loc(func, node)
        vals = [(st, t)]
        t0 = strip_at(t)
        if t0.op == 'attr' and strip_at(t0.a[0]) is roles.self_term:
            vals = made(ctx, roles, t0.a[1]) or vals
        for st1, v in vals:
            verdict, why = hands_on(ctx, st1, v, T('in', 'gap_fct'))
            if verdict is True:
                ctx.ok('wrapper', where)
            elif verdict is False:
                ctx.bad('wrapper', ctx.loc(func, node), func.qual, why)
            else:
                ctx.undecided('wrapper', where, why)
    if not n:
        ctx.undecided('wrapper', 'function minimised', 'not found')


def made(ctx, roles, name):
    """[(state, value)] of an attribute the constructor of the controller sets."""
    f = ctx.prog.find_method(roles.controller, '__init__')
    if f is None:
        return []
    eng, rets, raises = ctx.analyse(f, self_term=roles.self_term, opaque=set(roles.data_methods), label=f.qual)
    res = []
    for st, _ in rets:
        v = st.heap.get((roles.self_term, name))
        if v is not None:
            res.append((st, v))
    return res


def hands_on(ctx, st, v, user, depth=0):
    """Does calling v return what the user's function returns for the same
    argument?  (True / False / None, why)"""
    v = strip_at(v)
    if v is user:
        return True, ''
    if v.op == 'wrapped':
        return hands_on(ctx, st, v.a[0], user, depth)
    if v.op != 'func' or depth > 3:
        return None, 'minimises %s' % terms.show(v)
    g = ctx.prog.functions.get(v.a[0])
    if g is None:
        return None, 'minimises %s' % terms.show(v)

    def setup(s):
        s.heap.update(st.heap)
        s.frames.update(st.frames)
        s.facts.update(st.facts)
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if len(names) != 1:
        return None, 'minimises a function of %d arguments' % len(names)
    x = T('in', 'position of the function minimised')
    eng, rets, raises = ctx.analyse(g, [x], [], setup=setup, closure=v.a[1] if len(v.a) > 1 else None, label='%s, which is minimised' % g.qual)
    verdict = True
    for s, r in rets:
        r = strip_at(r)
        calls = [y for y in walk(r) if y.op == 'call' and (strip_at(y.a[0]) is user or strip_at(y.a[0]).op == 'wrapped' and hands_on(ctx, s, y.a[0], user)[0])]
        if r in calls:
            args = r.a[1]
            if len(args) == 1 and strip_at(args[0]) is x:
                continue
            if not s.taint and args and mentions(args[0], x):
                return False, 'the gap function is called at %s instead of the position itself' % terms.show(args[0])
            verdict = None
        elif calls and not s.taint and r.op in ('bin', 'un', 'cmp', 'call', 'tuple', 'ifexp'):
            return False, 'the value of the gap function is changed to %s before it is minimised' % terms.show(r)
        else:
            verdict = None
    return (True, '') if verdict and rets else (None, 'function %s not followed' % g.qual)


def stored(ctx, roles):
    """No value of a result is replaced."""
    n = 0
    for f in ctx.prog.functions.values():
        if '.search' not in f.module.name:
            continue
        for node in own_nodes(f):
            tg = []
            if isinstance(node, ast.Assign):
                tg = node.targets
            elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
                tg = [node.target]
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'setattr' and len(node.args) == 3:
                if isinstance(node.args[1], ast.Constant) and node.args[1].value in ('value', 'fun') and not (isinstance(node.args[0], ast.Name) and node.args[0].id in ('self', 'cls')):
                    ctx.bad('stored', ctx.loc(f, node), f.qual, 'the value of a result is replaced')
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ('value', 'pos'):
                        n += 1
                        if x.attr == 'value' and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                            ctx.bad('stored', ctx.loc(f, node), f.qual, 'the value of a result is replaced')
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == 'value':
                        ctx.bad('stored', ctx.loc(f, node), f.qual, 'the value of a result is replaced')
    ctx.ok('stored', 'assignments to attributes in nodefinder.search (%d to position or value)' % n)


def own_nodes(f):
    todo = list(ast.iter_child_nodes(f.node))
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield x
        todo += list(ast.iter_child_nodes(x))


# ---------------------------------------------------------------------------
def c19(ctx):
    ctx.rule('counted', 'The number of evaluations in every result equals the number of calls of the function on every path to it.')
    ctx.rule('limits', 'Every call of the function within the iteration happens only if, when the iteration began, the number of calls was below the evaluation limit and the number of iterations below the iteration limit.')
    ctx.rule('slope', 'Every call of the function within the iteration happens only if there is no slope cutoff or the estimate for the current simplex does not exceed it.')
    ctx.rule('honest', 'A result is a success only on paths on which neither limit nor the slope cutoff was reached and both tolerances are met by the final simplex.')
    ctx.rule('reason', 'The iteration ends only because a limit or the slope cutoff is reached, or both tolerances are met.')
    ctx.rule('both', 'The number of evaluations of a two-stage result is the sum over both stages.')
    ctx.assumptions.append('exact real arithmetic; the gap function returns comparable numbers (no NaN)')
    roles = _roles.get(ctx.prog)
    m = run(ctx, roles, ('counted', 'limits', 'slope', 'honest', 'reason'))
    if m:
        for r in m.results:
            counted(ctx, m, r)
            honest(ctx, m, r)
        for e in m.evals:
            if e[1].marks:
                limits(ctx, m, e)
                slope(ctx, m, e)
    both(ctx, roles)


def per_turn(m, v):
    """[(state, change of v in a turn, change of the calls in the turn)]"""
    res = []
    for r in m.loops:
        head, t = r[1], r[7]
        places = {}
        for l in r[4]:
            x = m.I.at(head, l)
            if x is not None and l[0] != 'cell' and x.op == 'phi':
                places[x] = l
        c, d = lin_parts(v)
        if not any(x in places or x is t for x in d) or not all(x in places or x is t or x is arrays.WIDTH for x in d):
            continue
        for s in r[2]:
            tot = arrays.const(0)
            good = True
            for x, k in d.items():
                if x is t:
                    dx = ONE
                elif x is arrays.WIDTH:
                    continue
                else:
                    y = m.I.at(s, places[x])
                    if y is None or y.op in ('ref', 'view'):
                        good = False
                        break
                    dx = arrays.add(y, x, -1)
                tot = arrays.add(tot, arrays.scale(dx, k))
            if good:
                res.append((s, tot, arrays.add(s.g, head.g, -1)))
    return res


def fixed(t):
    """A number or a number of dimensions."""
    return all(x is arrays.WIDTH for x in lin_parts(t)[1])


def counted(ctx, m, r):
    st = r[1]
    where = 'result at %s' % m.loc(r[4])
    v = dict(r[3]).get('num_fev')
    if v is None:
        ctx.undecided('counted', where, 'no number of evaluations given by name')
        return
    v = m.I.snap(st, v)
    d = difference(v, st.g)
    if d == 0:
        ctx.ok('counted', where)
        return
    if st.taint:
        ctx.undecided('counted', where, 'imprecise path')
        return
    if fixed(arrays.add(v, st.g, -1)):
        ctx.bad('counted', m.loc(r[4]), m.f.qual, 'the number of evaluations reported is %s, there were %s' % (arrays.show(v), arrays.show(st.g)))
        return
    for s, dv, dg in per_turn(m, v):
        if not s.taint and fixed(dv) and fixed(dg) and dv is not dg:
            ctx.bad('counted', m.loc(r[4]), m.f.qual, 'the number of evaluations reported changes by %s in an iteration that makes %s' % (arrays.show(dv), arrays.show(dg)))
            return
    ctx.undecided('counted', where, '%s reported, %s made' % (arrays.show(v), arrays.show(st.g)))


def bound_fact(st, quantity, limit, offset=(0,)):
    """Is quantity < limit known at the state?  'yes', 'reached', a number by
    which the comparison is off, 'vague' or None"""
    found = None
    for k, v in st.facts.items():
        if k.op != 'lt' or not contains(k, limit):
            continue
        c, d = lin_parts(arrays.add(k.a[0], k.a[1], -1))
        if limit not in d:
            found = found or 'vague'
            continue
        kk = -d[limit]
        rest = arrays.mk_lin(c / kk, {x: y / kk for x, y in d.items() if x is not limit})
        # kk * (rest - limit) < 0
        if kk < 0:
            # limit - .. < 0: limit < rest
            off = difference(rest, quantity)
            if off is None:
                found = found or 'vague'
                continue
            # v: limit < quantity + off; not v: quantity + off <= limit
            if v:
                res = 'reached' if off - 1 in offset else ('off', off - 1)
            else:
                res = 'yes' if off - 1 in offset else ('off', off - 1)
        else:
            off = difference(rest, quantity)
            if off is None:
                found = found or 'vague'
                continue
            # v: quantity + off < limit
            if v:
                res = 'yes' if off in offset else ('off', off)
            else:
                res = 'reached' if off in offset else ('off', off)
        if found in (None, 'vague') or isinstance(found, tuple):
            found = res
    for k, v in st.facts.items():
        if k.op in ('truth', 'eq') and contains(k, limit) and k.a[0] is not limit and found is None:
            found = 'vague'
    return found


def absent(st, x):
    return st.facts.get(T('isnone', x)) is True


def limits(ctx, m, e):
    st, node = e[1], e[3]
    mark = st.marks[0]
    where = 'call at %s' % m.loc(node)
    for name, quantity, offs, what in (('maxfev', mark[1], (0,), 'evaluation limit'), ('maxiter', mark[2], (0, 1), 'iteration limit')):
        lim = T('in', name)
        if absent(st, lim):
            ctx.ok('limits', '%s, no %s' % (where, what))
            continue
        b = bound_fact(st, quantity, lim, offs)
        loc = m.loc(node)
        if b == 'yes':
            ctx.ok('limits', '%s, %s' % (where, what))
        elif st.taint or b == 'vague':
            ctx.undecided('limits', where, '%s compared in a way that is not followed' % what)
        elif isinstance(b, tuple):
            ctx.bad('limits', loc, m.f.qual, 'the %s is compared with a number that is off by %s' % (what, abs(b[1])))
        else:
            ctx.bad('limits', loc, m.f.qual, 'the function is called although the %s may have been reached when the iteration began' % what)


def slope_fact(m, st, contents):
    """'below' / 'above' / 'stale' / 'vague' / None: how the slope estimate
    compares with the cutoff on the path"""
    cut = T('in', 'fprime_cutoff')
    found = None
    for k, v in st.facts.items():
        if not contains(k, cut) or k.op == 'isnone' or k.op == 'truth' and k.a[0] is cut:
            continue
        if k.op != 'lt':
            found = found or 'vague'
            continue
        a, b = k.a
        if contains(a, cut) == contains(b, cut):
            found = found or 'vague'
            continue
        side = contains(b, cut)          # estimate on the left
        est = a if side else b
        rows = [y for y in walk(k) if y.op == 'app']
        inside = [y for y in walk(k) if y.op in ('phi', 'perm', 'arr', 'set', 'sets')]
        if not any(c in inside for c in contents):
            found = found or ('stale' if inside else 'vague')
            continue
        # estimate < cutoff (v) or cutoff < estimate (not v)
        found = 'below' if side == v else 'above'
        c = next(c for c in contents if c in inside)
        if rows and not any(y.a[1].op == 'row' and y.a[1].a[0] is c and same_index(c, y.a[1].a[1], ZERO) is True for y in rows):
            found = 'other'
        names = ops(k)
        if any('min' in x.split('.')[-1] for x in names) and not any('max' in x.split('.')[-1] for x in names):
            found = 'shortest'
    return found


def slope(ctx, m, e):
    st, node = e[1], e[3]
    cut = T('in', 'fprime_cutoff')
    where = 'call at %s' % m.loc(node)
    if absent(st, cut):
        ctx.ok('slope', where + ', no cutoff')
        return
    contents = {c for _, c in st.marks[0][3]}
    s = slope_fact(m, st, contents)
    loc, q = m.loc(node), m.f.qual
    if s == 'below':
        ctx.ok('slope', where)
    elif st.taint or s == 'vague':
        ctx.undecided('slope', where, 'cutoff compared in a way that is not followed')
    elif s is None and st.facts.get(T('truth', cut)) is False:
        ctx.undecided('slope', where, 'cutoff compared with zero')
    elif s == 'stale':
        ctx.bad('slope', loc, q, 'the slope cutoff is compared with an estimate for an earlier simplex')
    elif s == 'above':
        ctx.bad('slope', loc, q, 'the iteration goes on although the slope estimate is above the cutoff')
    elif s == 'other':
        ctx.bad('slope', loc, q, 'the slope estimate is not made from the best value')
    elif s == 'shortest':
        ctx.bad('slope', loc, q, 'the slope estimate is not made with the longest edge')
    else:
        ctx.bad('slope', loc, q, 'the function is called without comparing the slope estimate with the cutoff')


def cut(sl):
    """Does a slice leave out rows other than row 0?"""
    lo, hi, step = sl.a
    n = lambda x: x.a[0] if arrays.isnum(x) else None
    if n(hi) is not None:
        return True
    if n(lo) is not None and (n(lo) > 1 or n(lo) < 0):
        return True
    return n(step) not in (None, 1, -1)


def tolerance(m, st, name, contents):
    """Is the tolerance met on the path?  'met', 'open', ('bad', why), 'vague' or None"""
    tol = T('in', name)
    found = None
    for k, v in st.facts.items():
        if not contains(k, tol) or k.op == 'isnone':
            continue
        if k.op == 'truth':
            a = k.a[0]
            inside = [y for y in walk(a) if y.op in ('phi', 'perm', 'arr', 'set', 'sets')]
            if a.op == 'ap' and a.a[0] in ('numpy.all', 'builtins.all', '.all', 'numpy.alltrue') and v and any(c in inside for c in contents) and a.a[1]:
                found = 'met'
            elif a.op == 'ap' and a.a[0] in ('numpy.any', 'builtins.any') and v:
                found = found or ('bad', 'it is enough that one vertex is within %s' % name)
            else:
                found = found or 'vague'
            continue
        if k.op != 'lt':
            found = found or 'vague'
            continue
        a, b = k.a
        if contains(a, tol) == contains(b, tol):
            found = found or 'vague'
            continue
        side = contains(b, tol)
        est = a if side else b
        if (side, v) not in ((True, True), (False, False)):
            found = found or 'open'
            continue
        if (b if side else a) is not tol:
            found = found or 'vague'
            continue
        inside = [y for y in walk(est) if y.op in ('phi', 'perm', 'arr', 'set', 'sets')]
        if not any(c in inside for c in contents):
            found = found or (('bad', '%s is compared with an earlier simplex' % name) if inside else 'vague')
            continue
        names = {x.split('.')[-1] for x in ops(est)}
        c = next(c for c in contents if c in inside)
        if not names & {'max', 'amax', 'nanmax', 'norm', 'ptp'}:
            if names & {'min', 'amin', 'mean', 'median', 'average'}:
                found = found or ('bad', '%s is compared with the %s of the differences' % (name, sorted(names & {'min', 'amin', 'mean', 'median', 'average'})[0]))
            else:
                found = found or 'vague'
            continue
        rows = [y for y in walk(est) if y.op == 'rowsof']
        part = [y for y in rows if arrays.isnum(y.a[1]) and (y.a[1].a[0] > 1 or arrays.isnum(y.a[2]) or difference(y.a[2], size_of(c)) not in (0, None))]
        part += [y for y in walk(est) if y.op == 'ap' and y.a[0] == 'item' and (y.a[1][0] is c or y.a[1][0].op == 'map' and y.a[1][0].a[1] is c) and y.a[1][1].op == 'slice' and cut(y.a[1][1])]
        if part:
            found = found or ('bad', '%s is compared with some of the vertices only' % name)
            continue
        if not names & {'abs', 'absolute', 'fabs', 'norm', 'square', 'ptp', 'sqrt', 'power', 'min', 'amin'}:
            inner = [y for y in walk(est) if y.op == 'lin' and any(x.op == 'rowsof' or x is c for x, _ in y.a[1])]
            neg = any(kk < 0 for y in inner for x, kk in y.a[1] if x.op == 'rowsof' and x.a[0].op == 'map' or x.op == 'map')
            isf = any(x.op == 'map' for y in inner for x in walk(y))
            if inner and (not isf or neg):
                found = found or ('bad', '%s is compared with signed differences' % name)
                continue
            if not inner:
                found = found or 'vague'
                continue
        if name == 'ftol' and not any(y.op == 'map' or y.op == 'app' for y in walk(est)):
            found = found or ('bad', 'ftol is compared with positions')
            continue
        if name == 'xtol' and any(y.op in ('map', 'app') for y in walk(est)):
            found = found or ('bad', 'xtol is compared with values')
            continue
        found = 'met'
    return found


def honest(ctx, m, r):
    I, st = m.I, r[1]
    d = dict(r[3])
    where = 'result at %s' % m.loc(r[4])
    loc, q = m.loc(r[4]), m.f.qual
    if 'success' not in d:
        ctx.undecided('honest', where, 'no success given by name')
        return
    s = d['success']
    v = known(I, st, s)
    if v is None:
        ctx.undecided('honest', where, 'success is %s' % arrays.show(s))
        return
    pos = I.snap(st, d['pos']) if 'pos' in d else None
    c = pos.a[0] if pos is not None and pos.op == 'row' else None
    contents = {c} if c is not None else set()
    turns = None
    if c is not None:
        lr, _ = m.main(c)
        turns = lr[7] if lr is not None else None
    if turns is None and m.loops:
        turns = [x for x in m.loops if not x[1].marks[:-1]][0][7]
    fev = bound_fact(st, st.g, T('in', 'maxfev'))
    it = bound_fact(st, turns, T('in', 'maxiter'), (0, 1)) if turns is not None else 'vague'
    sl = slope_fact(m, st, contents)
    tx, tf = tolerance(m, st, 'xtol', contents), tolerance(m, st, 'ftol', contents)
    if st.taint:
        ctx.undecided('honest', where, 'imprecise path')
        return
    if v:
        for what, x, name in (('evaluation limit', fev, 'maxfev'), ('iteration limit', it, 'maxiter')):
            if absent(st, T('in', name)):
                continue
            if x == 'reached':
                ctx.bad('honest', loc, q, 'success is reported although the %s was reached' % what)
            elif isinstance(x, tuple):
                ctx.bad('honest', loc, q, 'success is reported although the %s may have been reached (off by %s)' % (what, abs(x[1])))
            elif x == 'yes':
                ctx.ok('honest', where + ', ' + what)
            elif x == 'vague':
                ctx.undecided('honest', where, '%s compared in a way that is not followed' % what)
            else:
                ctx.bad('honest', loc, q, 'success is reported although the %s may have been reached' % what)
        if not absent(st, T('in', 'fprime_cutoff')):
            if sl == 'below':
                ctx.ok('honest', where + ', slope')
            elif sl in ('vague',) or st.facts.get(T('truth', T('in', 'fprime_cutoff'))) is False:
                ctx.undecided('honest', where, 'slope compared in a way that is not followed')
            else:
                ctx.bad('honest', loc, q, 'success is reported although the slope cutoff may have been exceeded')
        for name, x in (('xtol', tx), ('ftol', tf)):
            if x == 'met':
                ctx.ok('honest', where + ', ' + name)
            elif x == 'vague':
                ctx.undecided('honest', where, '%s compared in a way that is not followed' % name)
            elif isinstance(x, tuple):
                ctx.bad('honest', loc, q, 'success is reported although %s may not be met: %s' % (name, x[1]))
            else:
                ctx.bad('honest', loc, q, 'success is reported although %s may not be met' % name)
        return
    # not a success: something has to have ended it
    default = any(k.op == 'lt' and not contains(k, T('in', 'maxfev')) and not contains(k, T('in', 'maxiter')) and any(x is arrays.WIDTH for x in walk(k)) for k in st.facts)
    if fev == 'reached' or it == 'reached' or sl == 'above':
        ctx.ok('reason', where)
    elif default and (absent(st, T('in', 'maxfev')) or absent(st, T('in', 'maxiter'))):
        ctx.ok('reason', where + ', default limit')
    elif 'vague' in (fev, it, sl) or c is None:
        ctx.undecided('reason', where, 'not followed')
    elif tx == 'met' and tf == 'met':
        ctx.bad('reason', loc, q, 'no success is reported although both tolerances are met and nothing else ended the minimisation')
    elif isinstance(fev, tuple) or isinstance(it, tuple):
        ctx.bad('reason', loc, q, 'the minimisation ends although no limit was reached (off by one)')
    else:
        ctx.bad('reason', loc, q, 'the minimisation ends although neither a limit nor the cutoff was reached and the tolerances are not met')


def known(I, st, s):
    if s.op == 'view' or s.op == 'ref':
        s = I.snap(st, s)
    if s.op == 'not':
        v = known(I, st, s.a[0])
        return None if v is None else not v
    if s.op in ('and', 'or'):
        vs = [known(I, st, x) for x in s.a[0]]
        if s.op == 'and':
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if s.op == 'ap' and s.a[0] in ('bool', 'builtins.bool', 'numpy.bool_') and s.a[1]:
        return known(I, st, s.a[1][0])
    return I.known(st, s if s.op in ('lt', 'eq', 'isnone', 'const') else T('truth', s))


def both(ctx, roles):
    cls = roles.joined
    if cls is None:
        ctx.undecided('both', 'two-stage results', 'class not found')
        return
    me = T('inst', cls.cid, 'self', False)
    g, eng, rets = read_attr(ctx, cls, 'num_fev')
    if g is None:
        ctx.undecided('both', 'num_fev', 'not found')
        return
    for st, v in rets:
        v = strip_at(v)
        parts = [stage_attr(y, me) for y in in_order(v)]
        parts = sorted(p for p in parts if p is not None)
        if parts == [('ancestor', 'num_fev'), ('child', 'num_fev')] and (v.op in ('bin', 'add', 'call', 'binop') or True) and not minus(v):
            ctx.ok('both', 'num_fev of %s' % cls.name)
        elif st.taint:
            ctx.undecided('both', 'num_fev', 'imprecise path')
        elif set(parts) in ({('child', 'num_fev')}, {('ancestor', 'num_fev')}):
            ctx.bad('both', ctx.loc(g), g.qual, 'the evaluations of the %s stage are left out' % ('first' if parts[0][0] == 'child' else 'second'))
        else:
            ctx.undecided('both', 'num_fev', terms.show(v))


def minus(v):
    return any(y.op in ('bin', 'binop') and any(isinstance(x, str) and x not in ('Add', '+') for x in y.a) for y in walk(v))


# ---------------------------------------------------------------------------
def c20(ctx):
    ctx.rule('start', 'The first simplex is sorted by value, so row 0 is the best of the vertices given.')
    ctx.rule('kept', 'On every way through an iteration the simplex is the old one with row -1 replaced by a point whose value is known, from the comparisons made, to be lower, or with rows 1.. moved towards row 0; row 0 is not replaced; afterwards the rows are sorted by their own values.')
    ctx.rule('result', 'The position reported is row 0 of the sorted simplex.')
    ctx.assumptions.append('exact real arithmetic; the gap function returns comparable numbers (no NaN)')
    roles = _roles.get(ctx.prog)
    m = run(ctx, roles, ('start', 'kept', 'result'))
    if not m:
        return
    done = set()
    for r in m.results:
        d = dict(r[3])
        if 'pos' not in d:
            ctx.undecided('result', 'result at %s' % m.loc(r[4]), 'no position')
            continue
        pos = m.I.snap(r[1], d['pos'])
        c = pos.a[0] if pos.op == 'row' else None
        sub = Sub(ctx)
        best(sub, m, r[1], pos, c, 'result at %s' % m.loc(r[4]), m.loc(r[4]), m.f.qual)
        if c is None:
            ctx.undecided('kept', 'result at %s' % m.loc(r[4]), 'no simplex')
            continue
        lr, l = m.main(c)
        if lr is None:
            ctx.undecided('kept', 'result at %s' % m.loc(r[4]), 'the simplex is not that of a loop')
            continue
        if (id(lr), l) in done:
            continue
        done.add((id(lr), l))
        start(ctx, m, lr, l)
        kept(ctx, m, lr, l, c)


class Sub:
    """Results of a rule under another name."""

    def __init__(self, ctx):
        self.ctx = ctx

    def ok(self, rule, x):
        self.ctx.ok('result', x)

    def bad(self, rule, *a):
        self.ctx.bad('result', *a)

    def undecided(self, rule, *a):
        self.ctx.undecided('result', *a)


def start(ctx, m, lr, l):
    I, e = m.I, lr[6]
    c = I.content_at(e, l)
    loc, q = m.loc(lr[3]), m.f.qual
    if c is None:
        ctx.undecided('start', 'first simplex', 'not an array')
        return
    arrs = [y for y in walk(c) if y.op == 'arr']
    if I.is_sorted(e, c) and c.op == 'perm' and c.a[0].op == 'arr' and contains(c.a[0], T('in', 'initial_simplex')):
        ctx.ok('start', 'first simplex')
    elif e.taint or not arrs:
        ctx.undecided('start', 'first simplex', arrays.show(c, 4))
    elif c.op == 'arr' or c.op == 'perm' and c.a[1].op == 'argsort' and c.a[1].a[0].op == 'map' and c.a[1].a[0].a[1] is not c.a[0]:
        ctx.bad('start', loc, q, 'the simplex given is not sorted by its values')
    elif any(y.op in ('set', 'sets') for y in walk(c)):
        ctx.bad('start', loc, q, 'vertices of the simplex given are replaced')
    else:
        ctx.undecided('start', 'first simplex', arrays.show(c, 4))


def towards(x, best_, row):
    """s if x = (1 - s) best + s row"""
    c, d = lin_parts(x)
    if c != 0 or set(d) - {best_, row} or row not in d:
        return None
    s = d[row]
    if d.get(best_, Fraction(0)) != 1 - s:
        return None
    return s


def kept(ctx, m, lr, l, c):
    I = m.I
    q = m.f.qual
    for s in lr[2]:
        v = I.content_at(s, l)
        loc = m.loc(lr[3])
        if v is None:
            ctx.undecided('kept', 'turn of the loop', 'the simplex is not an array')
            continue
        if v is c:
            ctx.ok('kept', 'a turn that leaves the simplex alone')
            continue
        if not I.is_sorted(s, v):
            if s.taint or not (v.op in ('set', 'sets') or v.op == 'perm' and v.a[1].op == 'argsort' and v.a[1].a[0].op == 'map'):
                ctx.undecided('kept', 'turn of the loop', 'order of the rows not known')
            else:
                ctx.bad('kept', loc, q, 'after an iteration the rows are not sorted by their own values')
            continue
        body = v.a[0] if v.op == 'perm' else v
        chain = []
        x = body
        while x.op in ('set', 'sets'):
            chain.append(x)
            x = x.a[0]
        if x is not c:
            ctx.undecided('kept', 'turn of the loop', 'simplex %s' % arrays.show(body, 4))
            continue
        order = Order(I, s, [c])
        for y in reversed(chain):
            if y.op == 'set':
                one_row(ctx, m, s, c, y, order, chain, loc, q)
            else:
                rows(ctx, m, s, c, y, loc, q)


def point(ctx, m, x):
    n = next((e[3] for e in m.evals if e[2] is x or e[4] is x), None)
    return m.loc(n) if n is not None else None


def one_row(ctx, m, s, c, y, order, chain, loc, q):
    i, x = y.a[1], y.a[2]
    where = 'row %s replaced by %s' % (arrays.show(i), arrays.show(x, 4))
    loc = store_loc(m, x) or loc
    if same_index(c, i, LAST) is not True:
        if s.taint or not arrays.isnum(i):
            ctx.undecided('kept', where, 'row not known')
        elif same_index(c, i, ZERO) is True:
            ctx.bad('kept', loc, q, 'the best vertex is replaced')
        else:
            ctx.bad('kept', loc, q, 'vertex %s is replaced, which is not the worst' % arrays.show(i))
        return
    worst = value_of(get(c, LAST))
    if order.less(value_of(x), worst) == 'lt':
        ctx.ok('kept', where)
    elif any(z.op == 'sets' for z in chain):
        ctx.ok('kept', where + ' (contracted afterwards)') if len(chain) > 1 and chain[0].op == 'sets' else ctx.undecided('kept', where, 'several changes')
    elif s.taint or order.vague:
        ctx.undecided('kept', where, 'comparisons not followed')
    elif x.op == 'row' and x.a[0] is c:
        ctx.undecided('kept', where, 'a row copied')
    else:
        ctx.bad('kept', loc, q, 'the worst vertex is replaced by a point that may not be better: %s' % arrays.show(x, 5))


def rows(ctx, m, s, c, y, loc, q):
    lo, hi, x = y.a[1], y.a[2], y.a[3]
    where = 'rows %s to %s replaced by %s' % (arrays.show(lo), arrays.show(hi), arrays.show(x, 4))
    loc = store_loc(m, x) or loc
    if s.taint or not arrays.isnum(lo):
        ctx.undecided('kept', where, 'not followed')
        return
    if lo.a[0] < 1:
        # row 0 moved towards itself stays where it is
        J = T('J', lo, hi)
        sc = towards(x, get(y.a[0], ZERO), get(y.a[0], J))
        if sc is not None and 0 < sc < 1:
            ctx.ok('kept', where)
            return
        ctx.bad('kept', loc, q, 'the best vertex is replaced')
        return
    J = T('J', lo, hi)
    sc = towards(x, get(y.a[0], ZERO), get(y.a[0], J))
    if sc is not None and 0 < sc < 1:
        ctx.ok('kept', where)
    elif sc is not None:
        ctx.bad('kept', loc, q, 'the vertices are not moved towards the best one, but by a factor %s' % float(sc))
    elif lin_parts(x)[1] and all(z.op == 'row' and z.a[0] is y.a[0] for z in lin_parts(x)[1]):
        ctx.bad('kept', loc, q, 'the vertices are not moved towards the best one: %s' % arrays.show(x, 5))
    else:
        ctx.undecided('kept', where, 'factor not known')


def store_loc(m, x):
    for _, st, ref, idx, val, node in m.stores:
        if val is x:
            return m.loc(node)
    return None
