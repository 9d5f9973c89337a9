"""Clusters: the graph whose nodes are the positions and whose edges join the
pairs of positions that are at most the feature size apart."""
from fractions import Fraction as F

from ..engine import Monitor, strip_at, Ev
from ..num import Top, Wrong
from ..terms import T, cval, walk, show, is_const, attr
from .. import roles as R
from .queues import ext
from .search import mentions

LISTS = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'numpy.array', 'numpy.asarray', 'builtins.sorted', 'builtins.reversed', 'numpy.copy', 'copy.copy'}
UNIQ = {'builtins.set', 'builtins.frozenset', 'builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys', 'numpy.unique'}
GRAPHS = ('networkx.Graph',)
OTHER_COMPONENTS = ('networkx.biconnected_components', 'networkx.strongly_connected_components', 'networkx.find_cliques', 'networkx.k_edge_components', 'networkx.node_connected_component')


def nx(t):
    """Name of a networkx function that is called, without its module."""
    n = ext(t)
    if n is None or not n.startswith('networkx.'):
        return n
    return 'networkx.' + n.rsplit('.', 1)[1]


def method_of(t):
    """(base, name) of a method call term."""
    if t.op == 'call' and t.a[0].op == 'attr':
        return t.a[0].a[0], t.a[0].a[1]
    return None, None


class Lin:
    """Affine expression over loop variables and n."""
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = {v: x for v, x in (c or {}).items() if x}
        self.k = k

    def __add__(self, o):
        d = dict(self.c)
        for v, x in o.c.items():
            d[v] = d.get(v, 0) + x
        return Lin(d, self.k + o.k)

    def __neg__(self):
        return Lin({v: -x for v, x in self.c.items()}, -self.k)

    def __sub__(self, o):
        return self + (-o)

    def put(self, d):
        r = Lin({}, self.k)
        for v, x in self.c.items():
            y = d.get(v, Lin({v: 1}))
            r = r + Lin({w: z * x for w, z in y.c.items()}, y.k * x)
        return r

    def key(self):
        return (tuple(sorted(self.c.items(), key=str)), self.k)

    def __repr__(self):
        return ' + '.join(['%s%s' % ('' if x == 1 else '%s*' % x, v) for v, x in sorted(self.c.items(), key=str)] + ([str(self.k)] if self.k or not self.c else []))


N_ = Lin({'n': 1})
ZERO, UNIT = Lin(), Lin({}, 1)


class Seq:
    """positions[lo:hi]; wrapped: 'pos' or 'enum' (pairs of index and position)"""

    def __init__(self, lo=ZERO, hi=N_, kind='pos', dist=None):
        self.lo, self.hi, self.kind, self.dist = lo, hi, kind, dist


class Item:
    def __init__(self, i):
        self.i = i


class Dist:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def pair(self):
        return frozenset((self.a.key(), self.b.key()))


class Tup:
    def __init__(self, xs):
        self.xs = xs


class Sub:
    """Indices k of the sequence s for which the distance satisfies a condition."""

    def __init__(self, seq, op):
        self.seq, self.op = seq, op


class Pairs:
    """Reads index expressions over the list of positions."""

    def __init__(self, positions, dist, size):
        self.positions, self.dist, self.size = positions, dist, size
        self.base = None
        self.apart, self.ordered = [], False
        self.cons = []          # Lin >= 0
        self.conds = []         # (Dist, allowed relations to the feature size)
        self.vars = {}
        self.memo = {}

    def var(self, lid, n, lo=ZERO, hi=None):
        v = (lid, n)
        if v not in self.vars:
            self.vars[v] = True
            self.cons.append(Lin({v: 1}) - lo)
            self.cons.append(hi - Lin({v: 1}) - UNIT)
        return Lin({v: 1})

    def iterate(self, it, lid):
        """Value of the element of an iteration."""
        n = ext(it)
        if n == 'builtins.enumerate' and it.a[1]:
            x = self.iterate(strip_at(it.a[1][0]), lid)
            start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start')
            s = self.lin(start) if start is not None else ZERO
            return Tup([Lin({(lid, 0): 1}) + s, x])
        if n == 'builtins.zip' and it.a[1]:
            return Tup([self.iterate(strip_at(x), lid) for x in it.a[1]])
        if n == 'builtins.range' and 1 <= len(it.a[1]) <= 2:
            a = [self.lin(x) for x in it.a[1]]
            lo, hi = (ZERO, a[0]) if len(a) == 1 else a
            v = self.var(lid, 'r', lo, hi)
            return v
        if n in ('itertools.combinations', 'itertools.permutations', 'itertools.product'):
            s = self(it.a[1][0])
            r = dict(it.a[2]).get('repeat' if n.endswith('product') else 'r', it.a[1][1] if len(it.a[1]) > 1 and not n.endswith('product') else None)
            if n.endswith('product') and len(it.a[1]) == 2 and r is None:
                s2 = self(it.a[1][1])
                if isinstance(s2, Seq):
                    r = T('const', 'int', 2)
            else:
                s2 = s
            if not isinstance(s, Seq) or not isinstance(s2, Seq) or r is None or not is_const(r, 2):
                raise Top(show(it))
            a = self.var(lid, 'a', s.lo, s.hi)
            b = self.var(lid, 'b', s2.lo, s2.hi)
            if n.endswith('combinations'):
                self.add(b - a - UNIT)
            one = lambda i, s: Tup([i - s.lo, Item(i)]) if s.kind == 'enum' else Item(i)
            return Tup([one(a, s), one(b, s2)])
        s = self(it)
        if isinstance(s, Sub):
            v = self.var(lid, 0, ZERO, s.seq.hi - s.seq.lo)
            self.cond(Dist(s.seq.dist, s.seq.lo + v), s.op)
            return v
        if isinstance(s, Seq):
            v = self.var(lid, 0, ZERO, s.hi - s.lo)
            self.add(s.hi - s.lo - UNIT - v)
            if s.dist is not None:
                return Dist(s.dist, s.lo + v)
            return Tup([v, Item(s.lo + v)]) if s.kind == 'enum' else Item(s.lo + v)
        raise Top(show(it))

    def add(self, c):
        if c.key() not in {x.key() for x in self.cons}:
            self.cons.append(c)

    def cond(self, d, op):
        if not any(x.pair() == d.pair() and o == op for x, o in self.conds):
            self.conds.append((d, op))

    def lin(self, t):
        v = self(t)
        if isinstance(v, Lin):
            return v
        raise Top('index %s' % show(t))

    def __call__(self, t):
        t = strip_at(t)
        if t not in self.memo:
            self.memo[t] = self.read(t)
        return self.memo[t]

    def read(self, t):
        n = ext(t)
        if t is self.base:
            return Seq()
        if n not in LISTS - {'builtins.sorted', 'builtins.reversed'} and is_positions(t, self.positions):
            if self.base is None:
                self.base = t
                return Seq()
            raise Top('positions in a different order')
        if n in LISTS - {'builtins.sorted', 'builtins.reversed'} and len(t.a[1]) >= 1:
            return self(t.a[1][0])
        if n == 'builtins.enumerate' and len(t.a[1]) == 1:
            s = self(t.a[1][0])
            if isinstance(s, Seq) and s.dist is None and s.kind == 'pos':
                return Seq(s.lo, s.hi, 'enum')
            raise Top(show(t))
        if n == 'builtins.range':
            a = [self.lin(x) for x in t.a[1]]
            if len(a) <= 2:
                r = Seq(a[0] if len(a) == 2 else ZERO, a[-1], 'range')
                return r
        if t.op == 'const' and isinstance(cval(t), int):
            return Lin({}, cval(t))
        if n == 'builtins.len' and len(t.a[1]) == 1:
            s = self(t.a[1][0])
            if isinstance(s, Seq):
                return s.hi - s.lo
        if t.op == 'attr' and t.a[1] == 'size':
            raise Top(show(t))
        if n in ('builtins.int',) and len(t.a[1]) == 1:
            return self(t.a[1][0])
        if t.op == 'elem':
            lid = t.a[1] if len(t.a) > 1 else None
            return self.iterate(strip_at(t.a[0]), lid)
        if t.op == 'idx':
            s = t.a[0]
            self.iterate(strip_at(s), t.a[1])
            return Lin({(t.a[1], 0): 1}) + self.lin(t.a[2])
        if t.op == 'tuple':
            return Tup([self(x) for x in t.a[0]])
        if t.op == 'bin' and t.a[0] in '+-':
            a, b = self(t.a[1]), self(t.a[2])
            if isinstance(a, Lin) and isinstance(b, Lin):
                return a + b if t.a[0] == '+' else a - b
            raise Top(show(t))
        if t.op == 'un' and t.a[0] == '-':
            return -self.lin(t.a[1])
        if t.op == 'sub':
            s = self.hits(t)
            if s is not None:
                return s
            b = self(t.a[0])
            i = strip_at(t.a[1])
            if isinstance(b, Tup):
                if is_const(i) and isinstance(cval(i), int):
                    return b.xs[cval(i)]
                raise Top(show(t))
            if not isinstance(b, Seq):
                raise Top(show(t))
            if i.op == 'slice':
                lo, hi, step = i.a
                if step is not None and not (isinstance(step, T) and is_const(step) and cval(step) in (None, 1)):
                    raise Wrong('only some of the positions are compared: %s' % show(t))

                def at(x, d):
                    if x is None or isinstance(x, T) and is_const(x) and cval(x) is None:
                        return d
                    x = strip_at(x)
                    v = self.lin(x)
                    if not v.c and v.k < 0:
                        return b.hi + v
                    return b.lo + v
                return Seq(at(lo, b.lo), at(hi, b.hi), b.kind, b.dist)
            v = self.lin(i)
            if not v.c and v.k < 0:
                v = b.hi - b.lo + v
            v = b.lo + v
            if b.dist is not None:
                return Dist(b.dist, v)
            if b.kind == 'range':
                return v
            return Tup([v - b.lo, Item(v)]) if b.kind == 'enum' else Item(v)
        if t.op == 'call':
            s = self.hits(t)
            if s is not None:
                return s
            d = self.distance(t)
            if d is not None:
                return d
            if n in ('builtins.float', 'numpy.float64') and len(t.a[1]) == 1:
                return self(t.a[1][0])
        raise Top(show(t))

    def distance(self, t):
        if not (t.op == 'call' and t.a[0].op == 'func' and t.a[0].a[0] == self.dist.fid):
            return None
        a = list(t.a[1]) + [v for _, v in t.a[2]]
        if len(a) != 3:
            raise Top(show(t))
        x, y = self(a[1]), self(a[2])
        if isinstance(x, Item) and isinstance(y, Item):
            return Dist(x.i, y.i)
        if isinstance(y, Item):
            x, y = y, x
        if isinstance(x, Item) and isinstance(y, Seq) and y.kind == 'pos' and y.dist is None:
            return Seq(y.lo, y.hi, 'pos', x.i)
        raise Top(show(t))

    def hits(self, t):
        """Indices at which a condition on distances is true."""
        n = ext(t)
        if n == 'numpy.flatnonzero' and len(t.a[1]) == 1:
            return self.mask(t.a[1][0])
        if t.op == 'sub' and is_const(t.a[1], 0):
            y = strip_at(t.a[0])
            if ext(y) in ('numpy.where', 'numpy.nonzero') and len(y.a[1]) == 1:
                return self.mask(y.a[1][0])
            base, m = method_of(y)
            if m == 'nonzero' and not y.a[1]:
                return self.mask(base)
        return None

    def relation(self, op, x, y):
        """(distance, relations) of a comparison with the feature size."""
        x, y = strip_at(x), strip_at(y)
        try:
            v = self(x)
        except Top:
            v = None
        if not isinstance(v, (Dist, Seq)):
            x, y = y, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            v = self(x)
        if not isinstance(v, (Dist, Seq)) or isinstance(v, Seq) and v.dist is None:
            raise Top('comparison')
        self.limit(y)
        return v, {'<': '<', '<=': '<=', '>': '>', '>=': '=>', '==': '=', '!=': '<>'}[op]

    def limit(self, y):
        y = strip_at(y)
        if y is self.size:
            return
        if y.op == 'bin' and y.a[0] in '*/+-' and any(strip_at(z) is self.size for z in y.a[1:]) and any(is_const(z) for z in y.a[1:]):
            c = next(cval(z) for z in y.a[1:] if is_const(z))
            if y.a[0] in '*/' and c == 1 or y.a[0] in '+-' and c == 0:
                return
            raise Wrong('distances are compared to %s instead of the feature size' % show(y))
        if is_const(y):
            raise Wrong('distances are compared to %s instead of the feature size' % show(y))
        raise Top('limit %s' % show(y))

    def mask(self, t):
        t = strip_at(t)
        if t.op == 'cmp':
            v, op = self.relation(*t.a)
            if isinstance(v, Seq):
                return Sub(v, op)
        n = ext(t)
        if n in ('numpy.less', 'numpy.less_equal') and len(t.a[1]) == 2:
            v, op = self.relation('<' if n.endswith('less') else '<=', *t.a[1])
            if isinstance(v, Seq):
                return Sub(v, op)
        no = t.a[1] if t.op == 'un' and t.a[0] in ('~', 'not') else t.a[1][0] if n in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not') and len(t.a[1]) == 1 else None
        if no is not None:
            c = strip_at(no)
            neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}
            if c.op == 'cmp' and c.a[0] in neg:
                return self.mask(T('cmp', neg[c.a[0]], c.a[1], c.a[2]))
        both = t.a[1:] if t.op == 'bin' and t.a[0] in ('&', '*') else t.a[1] if n in ('numpy.logical_and', 'numpy.bitwise_and', 'numpy.multiply') else ()
        if len(both) == 2:
            both = [y for y in (strip_at(y) for y in both) if not self.always(y)]
            found = [self.mask(y) for y in both]
            if len(found) == 1 or len(found) == 2 and found[0].__dict__ == found[1].__dict__:
                return found[0]
        raise Top(show(t))

    def always(self, t):
        """A comparison that holds for every distance."""
        if t.op != 'cmp':
            return False
        op, x, y = t.a[0], strip_at(t.a[1]), strip_at(t.a[2])
        if is_const(x):
            x, y, op = y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not is_const(y) or not isinstance(cval(y), (int, float)):
            return False
        try:
            v = self(x)
        except (Top, Wrong):
            return False
        if not (isinstance(v, Seq) and v.dist is not None):
            return False
        c = cval(y)
        return op == '>=' and c <= 0 or op in ('>', '!=') and c < 0 or op in ('<', '<=') and c == float('inf')

    def assume(self, k, val):
        """Take a fact of the path into account; False if it is not about
        positions."""
        if k[0] == 'ord':
            try:
                a, b = self(k[1]), self(k[2])
            except Wrong:
                raise
            except Top:
                a = b = None
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = b - a
                rel = set(val) - {'u'}
                if rel == {'<'}:
                    self.add(d - UNIT)
                elif rel == {'>'}:
                    self.add(-d - UNIT)
                elif rel == {'<', '='}:
                    self.add(d)
                elif rel == {'>', '='}:
                    self.add(-d)
                elif rel == {'='}:
                    self.add(d)
                    self.add(-d)
                elif rel == {'<', '>'}:
                    self.apart.append(d)
                return
            if isinstance(a, Item) and isinstance(b, Item):
                rel = set(val) - {'u'}
                if rel == {'<', '>'}:
                    self.apart.append(b.i - a.i)
                    return
                if rel in ({'<'}, {'>'}):
                    self.ordered = True
                    return
                raise Top('positions compared')
            x, y = k[1], k[2]
            v = None
            for p, q, flip in ((x, y, False), (y, x, True)):
                try:
                    v = self(p)
                except Wrong:
                    raise
                except Top:
                    continue
                if isinstance(v, Dist):
                    if is_const(strip_at(q), 0):
                        rel = set(val) - {'u'}
                        if '=' not in rel:
                            raise Wrong('different positions at distance zero (images of each other) are not linked')
                        if rel == {'='}:
                            raise Top('only positions at distance zero')
                        return
                    self.limit(q)
                    rel = set(val) - {'u'}
                    if flip:
                        rel = {{'<': '>', '>': '<'}.get(r, r) for r in rel}
                    self.cond(v, ''.join(sorted(rel)))
                    return
            raise Top('condition %s' % show(x))
        raise Top('condition')


def holds_for_pairs(form, names):
    """Is form >= 0 for all 0 <= p < q < n?  p = a, q = a + 1 + b,
    n = a + b + 2 + c with a, b, c >= 0."""
    d = {'p': Lin({'a': 1}), 'q': Lin({'a': 1, 'b': 1}, 1), 'n': Lin({'a': 1, 'b': 1, 'c': 1}, 2)}
    f = form.put(d)
    extra = [v for v in f.c if v not in ('a', 'b', 'c')]
    if extra:
        raise Top('free variable')
    return f.k >= 0 and all(x >= 0 for x in f.c.values())


def covers(cons, apart, e1, e2):
    """Do the index pairs (e1, e2) include all p < q?"""
    # solve e1 = p, e2 = q for two variables
    vs = sorted({v for x in list(cons) + [e1, e2] for v in x.c if v != 'n'}, key=str)
    sol = {}
    eqs = [(e1, Lin({'p': 1})), (e2, Lin({'q': 1}))]
    for _ in range(3):
        for l, r in eqs:
            l = l.put(sol)
            free = [v for v in l.c if v not in ('n', 'p', 'q')]
            if len(free) == 1 and abs(l.c[free[0]]) == 1:
                v = free[0]
                x = l.c[v]
                rest = r - Lin({w: y for w, y in l.c.items() if w != v}, l.k)
                sol[v] = Lin({w: y * x for w, y in rest.c.items()}, rest.k * x)
    for l, r in eqs:
        d = l.put(sol) - r
        if (d.c or d.k) and not [v for v in d.c if v not in ('n', 'p', 'q')]:
            return [d, -d]
        if d.c or d.k:
            raise Top('pairs (%s, %s)' % (e1, e2))
    if [v for v in vs if v not in sol]:
        raise Top('pairs')
    bad = []
    for c in cons:
        f = c.put(sol)
        if not holds_for_pairs(f, None):
            bad.append(f)
    for d in apart:
        f = d.put(sol)
        if not (holds_for_pairs(f - UNIT, None) or holds_for_pairs(-f - UNIT, None)):
            bad.append(f)
    return bad


def is_positions(t, positions):
    """Is t a collection made from the positions given?"""
    for _ in range(12):
        t = strip_at(t)
        n = ext(t)
        if t is positions:
            return True
        if n in LISTS | UNIQ and t.a[1]:
            t = t.a[1][0]
        elif method_of(t)[1] in ('keys', 'copy', 'tolist') and not t.a[1]:
            t = method_of(t)[0]
        elif t.op == 'comp' and len(t.a[2]) == 1:
            t = t.a[2][0][1]
        elif n == 'builtins.map' and len(t.a[1]) == 2:
            t = t.a[1][1]
        elif t.op == 'sub' and t.a[1].op == 'slice':
            return False
        else:
            return False
    return False


def members(t, positions):
    """Are the elements of t all the distinct positions? Reasons as Wrong."""
    while True:
        t = strip_at(t)
        n = ext(t)
        if t is positions:
            return
        if n in LISTS | UNIQ and t.a[1]:
            if n == 'numpy.unique' and not any(k == 'axis' for k, _ in t.a[2]):
                raise Top(show(t))
            t = t.a[1][0]
        elif n in ('numpy.round', 'numpy.around', 'numpy.rint'):
            raise Wrong('positions are rounded: %s' % show(t))
        elif method_of(t)[1] in ('keys', 'copy', 'tolist', 'nodes') and not t.a[1]:
            t = method_of(t)[0]
        elif method_of(t)[1] in ('round',):
            raise Wrong('positions are rounded: %s' % show(t))
        elif t.op == 'comp' and len(t.a[2]) == 1:
            e, it, conds = t.a[2][0]
            if conds:
                raise Wrong('some positions are left out: %s' % show(conds[0]))
            v = t.a[1]
            if t.a[0] == 'dict':
                v = v.a[0][0]
            same(v, e)
            t = it
        elif n == 'builtins.map' and len(t.a[1]) == 2:
            if t.a[1][0].op == 'ext' and t.a[1][0].a[0] in ('builtins.tuple', 'builtins.list'):
                t = t.a[1][1]
            else:
                raise Top(show(t))
        elif t.op == 'sub' and t.a[1].op == 'slice':
            if all(x is None or isinstance(x, T) and is_const(x) and cval(x) is None for x in t.a[1].a):
                t = t.a[0]
            else:
                raise Wrong('some positions are left out: %s' % show(t))
        elif n == 'itertools.islice':
            raise Wrong('some positions are left out: %s' % show(t))
        else:
            raise Top('positions: %s' % show(t))


def same(v, e):
    """Is v the position e, as a tuple?"""
    v, e = strip_at(v), strip_at(e)
    for _ in range(8):
        if v is e:
            return
        n = ext(v)
        if n in ('builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.asarray') and v.a[1]:
            v = strip_at(v.a[1][0])
        elif n == 'builtins.map' and len(v.a[1]) == 2 and v.a[1][0].op == 'ext' and v.a[1][0].a[0] in ('builtins.float', 'numpy.float64'):
            v = strip_at(v.a[1][1])
        elif method_of(v)[1] in ('tolist', 'copy') and not v.a[1]:
            v = strip_at(method_of(v)[0])
        elif v.op == 'comp' and len(v.a[2]) == 1 and not v.a[2][0][2]:
            x = strip_at(v.a[1])
            y = strip_at(v.a[2][0][0])
            for _ in range(3):
                if ext(x) in ('builtins.float', 'numpy.float64') and len(x.a[1]) == 1:
                    x = strip_at(x.a[1][0])
            if ext(x) in ('builtins.round', 'numpy.round', 'builtins.int', 'numpy.around'):
                raise Wrong('positions are rounded: %s' % show(x))
            if x is not y:
                raise Top('position %s' % show(v))
            v = strip_at(v.a[2][0][1])
        elif n in ('numpy.round', 'numpy.around', 'numpy.rint') or method_of(v)[1] == 'round':
            raise Wrong('positions are rounded: %s' % show(v))
        else:
            break
    raise Top('position %s' % show(v))


class Links(Monitor):
    """Changes of graphs, with the loops and facts at each, and turns of loops
    over components that give no cluster."""

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        x = None
        where = (ev.node, eng.func)
        lids = tuple(l[0] for l in ev.loops)
        if k == 'mutate':
            facts = tuple((f, v) for f, v in st.facts.items())
            x = ('mutate', strip_at(ev.base), ev.method, tuple(ev.args), tuple(dict(ev.kwargs or {}).items()), tuple(ev.loops), facts, bool(st.taint)) + where
        if k == 'break' and ev.loops:
            e = ev.loops[-1][2]
            es = [e] + parts(e) if isinstance(e, T) else []
            about = tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and any(mentions(y, z) for z in es) for y in f[1:]))
            x = ('break', tuple(ev.loops), about, bool(st.taint)) + where
        if k in ('compitem', 'yield') or k == 'mutate' and ev.method in ('append', 'add', 'extend', 'appendleft'):
            v = ev.args[0] if k == 'mutate' and ev.args else ev.value
            m = tuple(('turn', y[1], True, y[3]) if y[0] == 'turn' and y[1] in lids else y for y in m)
            if k != 'mutate':
                x = ('value', v, tuple(ev.loops)) + where
        elif k == 'iter' and not ev.while_:
            return tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop)) + (('turn', ev.loop, False, ev.elem),)
        elif k == 'iterend' and not ev.while_:
            t = [y for y in m if y[0] == 'turn' and y[1] == ev.loop]
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop))
            if t and not t[0][2]:
                about = tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and mentions(y, ev.elem) for y in f[1:]))
                x = ('none', ev.it, ev.elem, about) + where
        if x is None or x in m or len(m) > 80:
            return m
        return m + (x,)


def param(f, *names):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for n in names:
        if n in ps:
            return T('in', n)
    return None


def function(ctx, name, module=None):
    fs = [f for f in ctx.prog.functions.values() if f.name == name and f.cls is None and f.parent is None and (module is None or module in f.module.name)]
    return fs[0] if len(fs) == 1 else None


def c21(ctx):
    ctx.rule('nodes', 'Every distinct position given becomes a node of the graph, unchanged; no node is removed.')
    ctx.rule('pairs', 'The pairs of positions that are compared include every unordered pair (affine index sets compared for all numbers of positions).')
    ctx.rule('links', 'A pair is linked exactly if the distance of these two positions in the coordinate system is at most the feature size.')
    ctx.rule('distance', 'The link carries the distance of the two positions it joins.')
    ctx.rule('clusters', 'The clusters are the subgraphs of all connected components of that graph.')
    ctx.assumptions += ['networkx implements Graph, subgraph and connected_components as documented']
    roles = R.get(ctx.prog)
    f = function(ctx, 'create_clusters')
    coord = roles.cls('coord')
    dist = ctx.prog.find_method(coord, 'distance')
    if f is None or dist is None:
        ctx.undecided('clusters', 'create_clusters', 'not found')
        return
    pos, size = param(f, 'positions'), param(f, 'feature_size')
    if pos is None or size is None:
        ctx.undecided('clusters', f.qual, 'parameters')
        return
    eng, rets, raises = ctx.analyse(f, monitor=Links(), opaque={dist.fid}, label=f.qual, atomic=True)
    ends = drained(eng, f, rets)
    if not ends:
        ctx.undecided('clusters', f.qual, 'no result')
    seen_pairs = {}
    added = []
    for st, v in ends:
        if st.taint:
            ctx.undecided('clusters', f.qual, 'imprecise path')
            continue
        g = clusters(ctx, f, st, v)
        if g is None:
            continue
        added.append(nodes(ctx, f, st, g, pos))
        for x in st.mon:
            if x[0] == 'mutate' and x[1] is g and x[2] in ('add_edge', 'add_edges_from', 'add_weighted_edges_from'):
                key = (x[-2], x[2:5], frozenset((k, v) for k, v in x[6] if k[0] == 'ord'))
                if key not in seen_pairs:
                    seen_pairs[key] = judge_edges(ctx, f, x, pos, size, dist)
    if added and not any(x is True for x in added):
        ctx.bad('nodes', ctx.loc(f), f.qual, 'positions without a neighbour are in no cluster: they are not added to the graph')
    if not seen_pairs:
        ctx.undecided('pairs', f.qual, 'no link is made')
    inner = {l[0] for st, _ in ends for x in st.mon if x[0] == 'mutate' and x[2] in ('add_edge', 'add_node') for l in x[5]}
    for st, _ in ends:
        for x in st.mon:
            if x[0] == 'break' and x[1][-1][0] in inner:
                judge_break(ctx, x, pos, size, dist)
    covered(ctx, f, list(seen_pairs.values()))


def drained(eng, f, rets):
    ends = []
    for st, v in rets:
        if strip_at(v).op in ('gen', 'genx'):
            eng.sinks.append([])
            eng.fstack.append((f, 'top', None))
            try:
                c, _ = eng.iterate(st, v, f.node, lambda s, e: (eng.emit(Ev('yield', f.node, value=e), s), []))
            finally:
                eng.fstack.pop()
                eng.sinks.pop()
            ends += [(s, v) for s in c]
        else:
            ends.append((st, v))
    return ends


def component_loop(it):
    """The graph whose components an iteration runs over, or None; raises
    Wrong if some are left out."""
    it = strip_at(it)
    for _ in range(6):
        n = ext(it)
        if n in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.reversed') and it.a[1]:
            it = strip_at(it.a[1][0])
        elif n in ('builtins.enumerate',):
            it = strip_at(it.a[1][0])
        elif n == 'itertools.islice' and any(isinstance(y, T) and nx(y) == 'networkx.connected_components' for y in walk(it)) or it.op == 'sub' and it.a[1].op == 'slice' and any(isinstance(y, T) and nx(y) == 'networkx.connected_components' for y in walk(it)):
            raise Wrong('some components are left out: %s' % show(it))
        else:
            break
    n = nx(it)
    if n == 'networkx.connected_components' and it.a[1]:
        return strip_at(it.a[1][0])
    if n in OTHER_COMPONENTS:
        raise Wrong('clusters are not the connected components: %s' % n)
    return None


def clusters(ctx, f, st, v):
    """The graph that is divided into connected components."""
    g = None
    loc, q = ctx.loc(f), f.qual
    v = strip_at(v)
    cands = []
    while ext(v) in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted') and v.a[1]:
        v = strip_at(v.a[1][0])
    try:
        if v.op == 'comp' and len(v.a[2]) == 1:
            e, it, conds = v.a[2][0]
            h = component_loop(it)
            if h is not None:
                if conds:
                    raise Wrong('some clusters are left out: %s' % show(conds[0]))
                cands.append((v.a[1], e, h))
        elif ext(v) == 'builtins.map' and len(v.a[1]) == 2:
            raise Top('map')
        else:
            for x in st.mon:
                if x[0] == 'value':
                    value, loops = x[1], x[2]
                elif x[0] == 'mutate' and x[2] in ('append', 'add') and x[1] is v:
                    value, loops = x[3][0], x[5]
                else:
                    continue
                for lid, it, e in loops:
                    h = component_loop(it)
                    if h is not None:
                        cands.append((value, e, h))
            for x in st.mon:
                if x[0] == 'none':
                    h = component_loop(x[1])
                    if h is not None:
                        if x[3]:
                            raise Wrong('some clusters are left out: %s' % '; '.join('%s is %s' % (' '.join(show(y) for y in k[1:] if isinstance(y, T)), w) for k, w in x[3]))
                        raise Top('clusters left out')
            if not cands and any(x[0] == 'mutate' and x[2] == 'add_edge' for x in st.mon):
                pass
        if not cands:
            hs = {component_loop(y) for y in walk(v) if isinstance(y, T)} - {None}
            if any(nx(y) == 'networkx.connected_components' for y in walk(v) if isinstance(y, T)) or True:
                # a path on which there is no component
                if v.op == 'obj' or v.op in ('gen', 'genx'):
                    return None
                raise Top('result %s' % show(v))
        for value, e, h in cands:
            subgraph_of(value, e, h)
            g = h
    except Wrong as err:
        ctx.bad('clusters', loc, q, str(err))
        return g
    except Top as err:
        ctx.undecided('clusters', q, str(err)[:200])
        return g
    ctx.ok('clusters', '%s: %s' % (q, show(v)[:80]))
    return g


def subgraph_of(value, e, g):
    value = strip_at(value)
    for _ in range(8):
        b, m = method_of(value)
        n = nx(value)
        if m == 'copy' and not value.a[1]:
            value = strip_at(b)
        elif n in ('networkx.freeze', 'networkx.Graph', 'copy.copy', 'copy.deepcopy') and len(value.a[1]) == 1:
            value = strip_at(value.a[1][0])
        else:
            break
    b, m = method_of(value)
    if m == 'subgraph' and len(value.a[1]) == 1:
        base, ns = strip_at(b), strip_at(value.a[1][0])
    elif nx(value) in ('networkx.subgraph', 'networkx.induced_subgraph') and len(value.a[1]) == 2:
        base, ns = strip_at(value.a[1][0]), strip_at(value.a[1][1])
    else:
        raise Top('cluster %s' % show(value))
    b2, m2 = method_of(base)
    if m2 == 'copy':
        base = strip_at(b2)
    if base is not g:
        raise Top('cluster of another graph: %s' % show(value))
    for _ in range(4):
        if ext(ns) in ('builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted', 'builtins.frozenset') and ns.a[1]:
            ns = strip_at(ns.a[1][0])
    if ns is not strip_at(e):
        if ns.op == 'sub' and ns.a[1].op == 'slice' or ns.op == 'comp' and ns.a[2][0][2]:
            raise Wrong('some positions of a cluster are left out: %s' % show(ns))
        raise Top('cluster of %s' % show(ns))


def nodes(ctx, f, st, g, pos):
    loc, q = ctx.loc(f), f.qual
    added, removed = [], []
    for x in st.mon:
        if x[0] != 'mutate' or x[1] is not g:
            continue
        if x[2] in ('add_nodes_from', 'add_node', 'update', 'add_edges_from'):
            added.append(x)
        elif x[2].startswith('remove') or x[2] == 'clear':
            removed.append(x)
    for x in removed:
        loc2 = ctx.loc(x[-1], x[-2])
        if x[2] in ('remove_node', 'remove_nodes_from', 'clear'):
            ctx.bad('nodes', loc2, x[-1].qual, 'positions are removed from the graph: %s' % ', '.join(show(y) for y in x[3]))
        else:
            selfloops = any(isinstance(y, T) and nx(y) == 'networkx.selfloop_edges' for z in x[3] for y in walk(z))
            if selfloops:
                ctx.ok('nodes', '%s: only links of a position to itself are removed' % loc2)
            else:
                ctx.undecided('links', loc2, 'links are removed')
    ok = False
    why = None
    looped = [x for x in added if x[2] == 'add_node']
    for x in added:
        loc2 = ctx.loc(x[-1], x[-2])
        try:
            if x[2] == 'add_nodes_from':
                members(x[3][0], pos)
                ok = True
            elif x[2] == 'add_node' and x[5]:
                lid, it, e = x[5][-1]
                members(it, pos)
                same(x[3][0], e)
                ok = True
        except Wrong as err:
            ctx.bad('nodes', loc2, x[-1].qual, str(err))
            return True
        except Top as err:
            why = str(err)
    c = g.a[1] if g.op == 'call' else ()
    linked = any(x[0] == 'mutate' and x[1] is g and x[2] == 'add_edge' for x in st.mon)
    if ok:
        ctx.ok('nodes', '%s: all positions are nodes' % q)
        return True
    if why or c or added:
        ctx.undecided('nodes', q, (why or 'nodes of %s' % show(g))[:200])
        return True
    return 'linked' if linked else False


class Edge:
    def __init__(self, loc, q):
        self.loc, self.q = loc, q
        self.missing = None


def judge_edges(ctx, f, x, pos, size, dist):
    """Which pairs an edge joins, and under which condition."""
    _, g, m, args, kwargs, loops, facts, taint, node, func = x
    loc, q = ctx.loc(func, node), func.qual
    r = Edge(loc, q)
    if taint:
        ctx.undecided('links', loc, 'imprecise path')
        return None
    p = Pairs(pos, dist, size)
    try:
        if m == 'add_edge':
            if len(args) < 2:
                raise Top('arguments')
            u, v = args[:2]
            attrs = list(kwargs)
        else:
            it = strip_at(args[0])
            if it.op != 'comp':
                raise Top('links %s' % show(it)[:120])
            elt = strip_at(it.a[1])
            if elt.op != 'tuple' or len(elt.a[0]) < 2:
                raise Top('links %s' % show(elt)[:120])
            u, v = elt.a[0][:2]
            attrs = list(kwargs)
            if len(elt.a[0]) == 3:
                d = strip_at(elt.a[0][2])
                if m == 'add_weighted_edges_from':
                    attrs = [('weight', d)]
                elif d.op in ('dict', 'dictv'):
                    attrs += [(k, w) for k, w in d.a[-1]]
                else:
                    attrs += [(None, d)]
            for e, i, conds in it.a[2]:
                for c in conds:
                    take(p, c, True)
        a, b = p(u), p(v)
        if not isinstance(a, Item) or not isinstance(b, Item):
            raise Top('link between %s and %s' % (show(u)[:60], show(v)[:60]))
        about = [(k, val) for k, val in facts if any(isinstance(y, T) and any(mentions(y, strip_at(l[2])) or any(mentions(y, z) for z in parts(l[2])) for l in loops) for y in k[1:])]
        for k, val in about:
            if k[0] == 'truth':
                t = k[1]
                take(p, t, val)
            else:
                p.assume(k, val)
        if not p.conds:
            plain_distance(facts, loops)
            raise Wrong('positions are linked whatever their distance')
        want = Dist(a.i, b.i)
        for d, op in p.conds:
            if d.pair() != want.pair():
                raise Wrong('the distance of another pair of positions is compared to the feature size')
        ops = set.intersection(*[set(op) for _, op in p.conds])
        if ops == {'<', '='}:
            ctx.ok('links', '%s: linked exactly if the distance is at most the feature size' % loc)
        else:
            raise Wrong('positions are linked if their distance is %s the feature size' % {'<': 'less than', '>': 'greater than', '=': 'equal to'}.get(''.join(sorted(ops)), 'otherwise related to'))
        r.a, r.b, r.p = a, b, p
        for c in [c for c in p.cons]:
            pass
    except Wrong as e:
        ctx.bad('links', loc, q, str(e))
        return None
    except Top as e:
        why = norm_of(facts, loops)
        if why:
            ctx.bad('links', loc, q, why)
        else:
            ctx.undecided('links', loc, str(e)[:200])
        return None
    # the distance stored
    vals = []
    try:
        for k, w in attrs:
            vals.append(p(w))
    except Top as e:
        ctx.undecided('distance', loc, str(e)[:200])
        vals = None
    if vals is not None:
        if not vals:
            ctx.bad('distance', loc, q, 'the link does not carry its distance')
        elif all(isinstance(w, Dist) and w.pair() == want.pair() for w in vals):
            ctx.ok('distance', '%s: the distance of the two positions' % loc)
        elif any(isinstance(w, Dist) and w.pair() != want.pair() for w in vals):
            ctx.bad('distance', loc, q, 'the link carries the distance of another pair of positions')
        else:
            ctx.undecided('distance', loc, 'attributes')
    return r


def judge_break(ctx, x, pos, size, dist):
    """The remaining pairs of a loop that is left are not compared."""
    _, loops, about, taint, node, func = x
    loc, q = ctx.loc(func, node), func.qual
    p = Pairs(pos, dist, size)
    try:
        e = loops[-1][2]
        for y in parts(e) or [e]:
            p(y)
        if p.base is not None and any(isinstance(y, T) and ext(y) == 'builtins.sorted' for y in walk(p.base)):
            raise Top('sorted')
        for k, val in about:
            if k[0] == 'truth':
                take(p, k[1], val)
            else:
                p.assume(k, val)
        if taint or not p.conds:
            raise Top('left by break')
    except Top as err:
        ctx.undecided('pairs', loc, 'the loop is left: %s' % str(err)[:150])
        return
    ctx.bad('pairs', loc, q, 'the remaining pairs of positions are not compared')


def parts(e):
    e = strip_at(e)
    return [strip_at(y) for y in e.a[0]] if e.op == 'tuple' else []


def take(p, c, val):
    """Take a condition term into account."""
    c = strip_at(c)
    if c.op == 'un' and c.a[0] == 'not':
        return take(p, c.a[1], not val)
    if c.op == 'and' and val or c.op == 'or' and not val:
        for y in c.a[0]:
            take(p, y, val)
        return
    if c.op == 'cmp':
        rel = {'<': '<', '<=': '<=', '>': '>', '>=': '>=', '==': '=', '!=': '<>'}.get(c.a[0])
        if rel is None:
            raise Top('condition %s' % show(c))
        rel = set(rel)
        if not val:
            rel = set('<=>') - rel
        return p.assume(('ord', c.a[1], c.a[2]), frozenset(rel))
    if val is True:
        try:
            v = p(c)
        except Top:
            v = None
        if isinstance(v, Seq):
            # not empty
            return
    raise Top('condition %s' % show(c)[:120])


def plain_distance(facts, loops):
    w = norm_of(facts, loops)
    if w:
        raise Wrong(w)


def norm_of(facts, loops):
    """A comparison of a plain norm instead of the coordinate system's
    distance."""
    terms = [y for k, _ in facts for y in k[1:] if isinstance(y, T)] + [l[1] for l in loops if isinstance(l[1], T)]
    for t in terms:
        for y in walk(t):
            if isinstance(y, T) and ext(y) in ('scipy.linalg.norm', 'numpy.linalg.norm', 'math.dist', 'scipy.spatial.distance.cdist', 'scipy.spatial.distance.pdist', 'scipy.spatial.distance.euclidean'):
                return 'positions are compared by %s, not by the distance of the coordinate system' % ext(y)
    return None


def covered(ctx, f, edges):
    es = [e for e in edges if e is not None]
    whys = []
    for e in es:
        p = e.p
        try:
            m1 = covers(p.cons, p.apart, e.a.i, e.b.i)
            m2 = covers(p.cons, p.apart, e.b.i, e.a.i) if m1 or p.ordered else None
            if not m1 and (not p.ordered or not m2) or m1 and not m2 and not p.ordered:
                ctx.ok('pairs', '%s: every pair of positions is compared' % e.loc)
            else:
                whys.append((e, m1 or m2))
        except Top as err:
            ctx.undecided('pairs', e.loc, str(err)[:200])
    for e, m in whys:
        if len({x.loc for x in es}) == 1:
            ctx.bad('pairs', e.loc, e.q, 'some pairs of positions are never compared: positions p < q of n only if %s' % ' and '.join('%s >= 0' % c for c in m))
        else:
            ctx.undecided('pairs', e.loc, 'several places make links')
