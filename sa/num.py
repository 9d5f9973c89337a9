"""
Canonical forms of element-wise array arithmetic.

A vector expression is read at one arbitrary component: every component obeys
the same formula, so one index stands for all dimensions.

* `Box`: values built from positions, the lower limit `l` and the size `s` of
  one dimension of the box:

      sum(c_x * x) + s * (c + sum(a_v * k_v) + sum(f_v(d_v)))

  where a real number x taken modulo the size is written s * (k + d), k an
  integer and 0 <= d < 1, and f_v is piecewise linear.  Whether a value lies in
  an interval, equals a position up to whole sizes, or is the shortest such
  vector can be read off exactly.
* `Rat`: quotients of polynomials, compared by cross multiplication.

Everything outside these forms is TOP: nothing is claimed about it.
"""
from fractions import Fraction as F

from .terms import T, cval, walk, show
from .engine import strip_at


class Top(Exception):
    """The value has no canonical form."""


class Wrong(Top):
    """The expression mixes lengths and pure numbers, so it cannot scale with
    the size of the box."""


class Unbounded(Top):
    """The value depends on how many sizes away the position is."""


class NeedCase(Exception):
    """The sign of a number of whole sizes has to be known."""

    def __init__(self, v):
        super().__init__(v)
        self.v = v


# ---------------------------------------------------------------------------
# piecewise linear functions on [0, 1): tuples of (lo, hi, a, b)
def pl_lin(a, b):
    return ((F(0), F(1), F(a), F(b)),)


def pl_simplify(p):
    res = []
    for s in p:
        if s[0] >= s[1]:
            continue
        if res and res[-1][2:] == s[2:]:
            res[-1] = (res[-1][0], s[1]) + s[2:]
        else:
            res.append(s)
    return tuple(res)


def pl_zip(p, q):
    cuts = sorted({s[0] for s in p} | {s[0] for s in q} | {F(1)})
    for lo, hi in zip(cuts, cuts[1:]):
        x = next(s for s in p if s[0] <= lo < s[1])
        y = next(s for s in q if s[0] <= lo < s[1])
        yield lo, hi, x[2:], y[2:]


def pl_add(p, q):
    return pl_simplify([(lo, hi, x[0] + y[0], x[1] + y[1]) for lo, hi, x, y in pl_zip(p, q)])


def pl_scale(p, c):
    return pl_simplify([(lo, hi, a * c, b * c) for lo, hi, a, b in p])


def pl_split(p, q):
    """Refinement of [0,1) on which p - q has constant sign: (lo, hi, p, q, sign)."""
    for lo, hi, x, y in pl_zip(p, q):
        a, b = x[0] - y[0], x[1] - y[1]
        cuts = [lo, hi]
        if a != 0:
            z = -b / a
            if lo < z < hi:
                cuts = [lo, z, hi]
        for c, d in zip(cuts, cuts[1:]):
            mid = a * (c + d) / 2 + b
            yield c, d, x, y, (mid > 0) - (mid < 0)


def pl_frac(p):
    """Fractional part and integer part."""
    fr, it = [], []
    for lo, hi, a, b in p:
        cuts = {lo, hi}
        if a != 0:
            v0, v1 = a * lo + b, a * hi + b
            n = min(v0, v1).__floor__()
            while n <= max(v0, v1):
                z = (n - b) / a
                if lo < z < hi:
                    cuts.add(z)
                n += 1
        cuts = sorted(cuts)
        for c, d in zip(cuts, cuts[1:]):
            n = (a * (c + d) / 2 + b).__floor__()
            fr.append((c, d, a, b - n))
            it.append((c, d, F(0), F(n)))
    return pl_simplify(fr), pl_simplify(it)


def pl_const(p):
    return p[0][3] if len(p) == 1 and p[0][2] == 0 else None


def pl_range(p):
    vals = [v for lo, hi, a, b in p for v in (a * lo + b, a * hi + b)]
    return min(vals), max(vals)


class V:
    """sum(syms) + s*(ks + pls); unit 0: the same divided by s."""
    __slots__ = ('unit', 'syms', 'ks', 'pls', 'c')

    def __init__(self, unit, syms=(), ks=(), pls=(), c=0):
        self.unit = unit
        self.syms = {x: F(v) for x, v in dict(syms).items() if v}
        self.ks = {x: F(v) for x, v in dict(ks).items() if v}
        self.c = F(c)
        self.pls = {}
        for x, p in dict(pls).items():
            k = pl_const(p)
            if k is not None:
                self.c += k
            else:
                self.pls[x] = p

    def key(self):
        return (self.unit, tuple(sorted(self.syms.items(), key=str)), tuple(sorted(self.ks.items(), key=str)), tuple(sorted(self.pls.items(), key=str)), self.c)

    def plain(self):
        """Value as a function of at most one fraction, without symbols."""
        if self.ks and not self.syms:
            raise Unbounded('depends on the number of sizes: %s' % self)
        if self.syms or self.ks or len(self.pls) > 1:
            raise Top('not a function of one fraction: %s' % self)
        if self.pls:
            (v, p), = self.pls.items()
            return v, pl_add(p, pl_lin(0, self.c))
        return None, pl_lin(0, self.c)

    def __repr__(self):
        s = ['%s*%s' % (v, k) for k, v in self.syms.items()] + ['%s*s*k%s' % (v, k) for k, v in self.ks.items()]
        s += ['s*%s' % (list(map(lambda t: tuple(map(str, t)), p)),) for p in self.pls.values()]
        if self.c or not s:
            s.append('%s*s' % self.c)
        return ' + '.join(s) + ('' if self.unit else ' [/s]')


class Box:
    """Arithmetic on V."""

    def __init__(self):
        self.cases = {}
        self.reset()

    def reset(self):
        self.subst = {}
        self.n = 0

    def norm(self, v):
        v = self.norm_(v)
        known = {k: self.cases[k] for k in v.ks if self.cases.get(k) in (-1, 0, 1)}
        if known:
            v = V(v.unit, v.syms, {k: w for k, w in v.ks.items() if k not in known}, v.pls, v.c + sum(v.ks[k] * n for k, n in known.items()))
        return v

    def norm_(self, v):
        for _ in range(20):
            hit = [x for x in v.syms if x in self.subst]
            if not hit:
                return v
            x = hit[0]
            c = v.syms[x]
            rest = dict(v.syms)
            del rest[x]
            v = self.lin(1, V(v.unit, rest, v.ks, v.pls, v.c), c, self.at(self.subst[x], v.unit))
        raise Top('substitution')

    @staticmethod
    def at(v, unit):
        return V(unit, v.syms, v.ks, v.pls, v.c)

    def sym(self, x):
        return V(1, {x: 1})

    def const(self, c):
        return V(0, c=F(c).limit_denominator(10**12) if isinstance(c, float) else c)

    def lin(self, a, x, b, y):
        syms, ks, pls = dict(), dict(), dict()
        for c, v in ((F(a), x), (F(b), y)):
            for k, w in v.syms.items():
                syms[k] = syms.get(k, 0) + c * w
            for k, w in v.ks.items():
                ks[k] = ks.get(k, 0) + c * w
            for k, p in v.pls.items():
                q = pl_scale(p, c)
                pls[k] = pl_add(pls[k], q) if k in pls else q
        return V(x.unit, syms, ks, pls, F(a) * x.c + F(b) * y.c)

    def same_unit(self, x, y):
        x, y = self.norm(x), self.norm(y)
        if x.unit != y.unit:
            if x.key()[1:] == V(0).key()[1:]:
                x = self.at(x, y.unit)
            elif y.key()[1:] == V(0).key()[1:]:
                y = self.at(y, x.unit)
            else:
                raise Wrong('lengths and numbers are mixed: %s and %s' % (x, y))
        return x, y

    def add(self, x, y):
        x, y = self.same_unit(x, y)
        return self.lin(1, x, 1, y)

    def sub(self, x, y):
        x, y = self.same_unit(x, y)
        return self.lin(1, x, -1, y)

    def neg(self, x):
        x = self.norm(x)
        return self.lin(-1, x, 0, x)

    @staticmethod
    def number(x):
        return x.c if x.unit == 0 and not (x.syms or x.ks or x.pls) else None

    @staticmethod
    def size(x):
        """Multiple of the size, or None."""
        return x.c if x.unit == 1 and not (x.syms or x.ks or x.pls) else None

    def mul(self, x, y):
        x, y = self.norm(x), self.norm(y)
        for a, b in ((x, y), (y, x)):
            n = self.number(a)
            if n is not None:
                return self.lin(n, b, 0, b)
        for a, b in ((x, y), (y, x)):
            n = self.size(a)
            if n is not None and b.unit == 0:
                return self.at(self.lin(n, b, 0, b), 1)
        raise Top('product')

    def div(self, x, y):
        x, y = self.norm(x), self.norm(y)
        n = self.number(y)
        if n:
            return self.lin(1 / n, x, 0, x)
        n = self.size(y)
        if n and x.unit == 1:
            return self.at(self.lin(1 / n, x, 0, x), 0)
        raise Top('quotient')

    def grounded(self, x):
        """x without symbols, writing them as s*(k + d)."""
        x = self.norm(x)
        if x.syms:
            y = sorted(x.syms, key=lambda z: (z == 'l', str(z)))[0]
            if y == 'l' and len(x.syms) == 1:
                # the lower limit alone, modulo the size
                pass
            c = x.syms[y]
            v = self.n = self.n + 1
            # sum(syms) = s * (k + d)
            rest = {z: -w / c for z, w in x.syms.items() if z != y}
            self.subst[y] = V(1, rest, {v: 1 / c}, {v: pl_scale(pl_lin(1, 0), 1 / c)})
            x = self.norm(x)
        return x

    def modulus(self, x, y):
        """Integer coefficient check; returns (x/y as function of one fraction, ks)."""
        y = self.norm(y)
        x = self.norm(x)
        n = self.size(y) if x.unit == 1 else self.number(y)
        if not n:
            if x.unit != y.unit and (self.number(y) or self.size(y)):
                raise Wrong('modulus of %s by %s' % (x, y))
            raise Top('modulus')
        x = self.grounded(x)
        if n != 1:
            x = self.lin(1 / n, x, 0, x)
        if any(w.denominator != 1 for w in x.ks.values()):
            raise Top('modulus of a fraction of a size')
        if len(x.pls) > 1:
            raise Top('several fractions')
        v = next(iter(x.pls), None)
        p = pl_add(x.pls.get(v, pl_lin(0, 0)), pl_lin(0, x.c))
        return n, x.ks, v, p, x.unit

    def build(self, unit, v, p, ks=(), scale=1):
        r = V(unit, {}, ks, {v: p} if v is not None else {}, pl_const(p) if v is None else 0)
        return self.lin(scale, r, 0, r)

    def mod(self, x, y):
        n, ks, v, p, unit = self.modulus(x, y)
        fr, it = pl_frac(p)
        return self.build(unit, v, fr, scale=n)

    def floordiv(self, x, y):
        n, ks, v, p, unit = self.modulus(x, y)
        fr, it = pl_frac(p)
        return self.build(0, v, it, ks)

    def floor(self, x):
        if self.norm(x).unit == 0:
            return self.floordiv(x, self.const(1))
        raise Top('floor')

    def round(self, x):
        if self.norm(x).unit == 0:
            return self.floordiv(self.add(x, self.const(F(1, 2))), self.const(1))
        raise Top('round')

    def ceil(self, x):
        return self.neg(self.floor(self.neg(x)))

    def pair(self, x, y):
        """Both as functions of one common fraction (their difference has no
        other part)."""
        x, y = self.same_unit(x, y)
        d = self.sub(x, y)
        if d.syms:
            d = self.grounded(d)
            x, y = self.norm(x), self.norm(y)
            d = self.norm(d)
        if len(d.ks) == 1 and not d.syms and len(d.pls) <= 1:
            (k, a), = d.ks.items()
            if k not in self.cases:
                raise NeedCase(k)
            # k is at least two in magnitude
            sign = (1 if self.cases[k] > 0 else -1) * (1 if a > 0 else -1)
            r = [pl_range(p) for p in d.pls.values()] or [(0, 0)]
            lo, hi = r[0][0] + d.c, r[0][1] + d.c
            if sign > 0 and 2 * abs(a) + lo >= 0 or sign < 0 and -2 * abs(a) + hi <= 0:
                return x, y, None, pl_lin(0, sign)
            raise Top('sign of %s' % d)
        v, p = d.plain()
        return x, y, v, p

    def choose(self, x, y, want):
        """x where sign(x - y) == want else y, piecewise."""
        x, y, v, p = self.pair(x, y)
        return self.select([(lo, hi, sg == want) for lo, hi, _, _, sg in pl_split(p, pl_lin(0, 0))], v, x, y)

    def select(self, regions, v, x, y):
        if all(b for _, _, b in regions):
            return x
        if not any(b for _, _, b in regions):
            return y
        x, y = self.same_unit(x, y)
        d = self.sub(x, y)
        dv, p = d.plain()
        if v is None or dv not in (v, None):
            raise Top('selection on another fraction')
        # y + (x - y) on the chosen regions
        out = []
        for lo, hi, b in regions:
            for s in p:
                c, e = max(lo, s[0]), min(hi, s[1])
                if c < e:
                    out.append((c, e) + (s[2:] if b else (F(0), F(0))))
        out = pl_simplify(sorted(out))
        return self.lin(1, y, 1, V(y.unit, {}, {}, {v: out}))

    def minimum(self, x, y):
        return self.choose(x, y, -1)

    def maximum(self, x, y):
        return self.choose(x, y, 1)

    def abs(self, x):
        return self.maximum(x, self.neg(x))

    def compare(self, op, x, y):
        """Regions on which the comparison holds (up to single points)."""
        x, y, v, p = self.pair(x, y)
        good = {'<': (-1,), '<=': (-1, 0), '>': (1,), '>=': (1, 0), '==': (0,), '!=': (-1, 1)}[op]
        return v, [(lo, hi, sg in good) for lo, hi, _, _, sg in pl_split(p, pl_lin(0, 0))]

    # -- what can be read off ------------------------------------------------
    def congruent(self, x, y):
        """x - y is a whole number of sizes on every piece: True or (False, why)."""
        d = self.sub(x, y)
        if d.syms:
            return False
        if any(w.denominator != 1 for w in d.ks.values()):
            return False
        if len(d.pls) > 1:
            raise Top('several fractions')
        for p in list(d.pls.values()) or [pl_lin(0, 0)]:
            for lo, hi, a, b in p:
                if a != 0 or (b + d.c).denominator != 1:
                    return False
        return True

    def within(self, x, lo, hi):
        """lo <= x - l <= hi in units of the size."""
        d = self.norm(x)
        d = self.sub(d, V(1, {'l': 1})) if d.unit == 1 else d
        if d.syms or d.ks:
            return False
        v, p = d.plain()
        a, b = pl_range(p)
        return lo <= a and b <= hi

    def function(self, x):
        """x as a function of one fraction."""
        return self.norm(x).plain()


# ---------------------------------------------------------------------------
class Poly:
    """Polynomial: {monomial: coefficient}, monomials sorted tuples of symbols."""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = {k: F(v) for k, v in m.items() if v}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __mul__(self, o):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b, key=str))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return ' + '.join('%s*%s' % (v, '*'.join(map(str, k)) or '1') for k, v in self.m.items()) or '0'


class Q:
    """Quotient of two polynomials."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d or Poly({(): 1})

    def __eq__(self, o):
        return self.n * o.d == o.n * self.d

    def __hash__(self):
        return 0

    def __repr__(self):
        return '(%r)/(%r)' % (self.n, self.d)


class Rat:
    """Arithmetic on Q."""

    def sym(self, x):
        return Q(Poly({(x,): 1}))

    def const(self, c):
        return Q(Poly({(): F(c).limit_denominator(10**12) if isinstance(c, float) else F(c)}))

    def add(self, x, y):
        return Q(x.n * y.d + y.n * x.d, x.d * y.d)

    def neg(self, x):
        return Q(-x.n, x.d)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def mul(self, x, y):
        return Q(x.n * y.n, x.d * y.d)

    def div(self, x, y):
        if not y.n.m:
            raise Top('division by zero')
        return Q(x.n * y.d, x.d * y.n)

    def number(self, x):
        if not x.n.m:
            return F(0)
        if set(x.n.m) == {()} and set(x.d.m) == {()}:
            return x.n.m[()] / x.d.m[()]
        return None

    def equal(self, x, y):
        return x == y

    def __getattr__(self, name):
        def no(*_):
            raise Top(name)
        return no


BINARY = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '//': 'floordiv'}
CALLS = {
    'numpy.minimum': 'minimum', 'numpy.fmin': 'minimum', 'numpy.maximum': 'maximum', 'numpy.fmax': 'maximum', 'numpy.mod': 'mod', 'numpy.remainder': 'mod',
    'numpy.add': 'add', 'numpy.subtract': 'sub', 'numpy.multiply': 'mul', 'numpy.divide': 'div', 'numpy.true_divide': 'div', 'numpy.floor_divide': 'floordiv',
    'numpy.floor': 'floor', 'numpy.round': 'round', 'numpy.rint': 'round', 'numpy.around': 'round', 'numpy.round_': 'round', 'numpy.ceil': 'ceil',
    'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'numpy.fabs': 'abs', 'builtins.abs': 'abs', 'numpy.negative': 'neg', 'operator.sub': 'sub', 'operator.add': 'add',
    'operator.mod': 'mod', 'operator.mul': 'mul', 'operator.truediv': 'div', 'math.floor': 'floor', 'math.ceil': 'ceil', 'builtins.round': 'round', 'math.fabs': 'abs',
}
SAME = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'builtins.list', 'builtins.tuple', 'builtins.float', 'numpy.float64', 'copy.copy', 'copy.deepcopy', 'numpy.ascontiguousarray', 'numpy.atleast_1d'}


class Eval:
    """Reads a vector term at one arbitrary component."""

    def __init__(self, dom, leaf, st=None, eng=None):
        self.dom = dom
        self.leaf = leaf          # term -> value | ('row', values) | None
        self.st, self.eng = st, eng
        self.depth = 0
        self.memo = {}

    def content(self, t):
        if self.st is not None:
            c = self.st.heap.get((strip_at(t), '#'))
            if c is not None and c.op == 'seq' and not any(x.op == 'star' for x in c.a[0]):
                return list(c.a[0])
        if t.op == 'tuple':
            return list(t.a[0])
        return None

    def __call__(self, t):
        r = self.value(t)
        if isinstance(r, tuple):
            raise Top('not a vector: %s' % show(t))
        return r

    def value(self, t):
        if t in self.memo:
            return self.memo[t]
        self.depth += 1
        if self.depth > 200:
            raise Top('depth')
        try:
            r = self.memo[t] = self.value_(t)
            return r
        finally:
            self.depth -= 1

    def value_(self, t):
        d = self.dom
        v = self.leaf(t)
        if v is not None:
            return v
        if t.op == 'at':
            raise Top('changed in place: %s' % show(t))
        if t.op == 'const' and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            if cval(t) != cval(t) or cval(t) in (float('inf'), float('-inf')):
                raise Top('not finite')
            return d.const(cval(t))
        if t.op == 'un':
            if t.a[0] == '-':
                return d.neg(self(t.a[1]))
            if t.a[0] == '+':
                return self(t.a[1])
        if t.op == 'bin':
            if t.a[0] == '**' and cval_or(t.a[2]) == 2:
                x = self(t.a[1])
                return d.mul(x, x)
            if t.a[0] in BINARY:
                return getattr(d, BINARY[t.a[0]])(self(t.a[1]), self(t.a[2]))
        if t.op == 'cmp' and t.a[0] in ('<', '<=', '>', '>=', '==', '!='):
            return ('where',) + tuple(d.compare(t.a[0], self(t.a[1]), self(t.a[2])))
        if t.op == 'sub':
            return self.index(t)
        if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2]:
            return self.value(t.a[1])
        if t.op == 'call':
            return self.call(t)
        if t.op == 'attr' and t.a[1] == 'T':
            v = self.value(t.a[0])
            if isinstance(v, tuple) and v[0] == 'row':
                return ('cols', v[1])
        raise Top(show(t))

    def index(self, t):
        base, idx = t.a
        v = self.value(base)
        parts = [idx] if idx.op != 'tuple' else list(idx.a[0])
        full = [p for p in parts if p.op in ('slice',) and all(x is None or (isinstance(x, T) and x.op == 'const' and cval(x) is None) for x in p.a) or p.op == 'const' and cval(p) is Ellipsis]
        rest = [p for p in parts if p not in full]
        if isinstance(v, tuple) and v[0] in ('row', 'cols'):
            if len(rest) == 1 and rest[0].op == 'const' and isinstance(cval(rest[0]), int):
                at_end = parts[-1] is rest[0]
                elem = t.a[0].op == 'elem' or len(parts) == 1 and v[0] == 'row' and self.row_is_element(base)
                if v[0] == 'row' and (len(parts) == 2 and at_end or elem) or v[0] == 'cols' and parts[0] is rest[0]:
                    return v[1][cval(rest[0])]
            raise Top(show(t))
        if not rest:
            return v
        # indexing with a mask: the component itself
        if len(parts) == 1 and isinstance(self.try_value(parts[0]), tuple) and self.try_value(parts[0])[0] == 'where':
            return v
        raise Top(show(t))

    def try_value(self, t):
        try:
            return self.value(t)
        except Top:
            return None

    @staticmethod
    def row_is_element(base):
        while base.op == 'call' and base.a[0].op == 'ext' and base.a[0].a[0] in ('builtins.sorted', 'builtins.tuple', 'builtins.list', 'numpy.array', 'numpy.sort') and len(base.a[1]) == 1:
            base = base.a[1][0]
        return base.op == 'elem'

    def call(self, t):
        d = self.dom
        f, args, kws = t.a[0], list(t.a[1]), dict(t.a[2])
        if f.op == 'ext':
            n = f.a[0]
            if n in SAME and len(args) >= 1:
                return self.value(args[0])
            if n in CALLS and not (set(kws) - {'dtype'}):
                if CALLS[n] == 'round' and len(args) > 1:
                    raise Top(show(t))
                return getattr(d, CALLS[n])(*[self(x) for x in args])
            if n == 'numpy.where' and len(args) == 3 and not kws:
                c0, every = args[0], None
                if c0.op == 'call' and c0.a[0].op == 'ext' and c0.a[0].a[0] in ('numpy.all', 'numpy.any') and len(c0.a[1]) == 1 and not c0.a[2]:
                    # the other dimensions may have it either way
                    every, c0 = c0.a[0].a[0] == 'numpy.all', c0.a[1][0]
                c = self.value(c0)
                if isinstance(c, tuple) and c[0] == 'where':
                    if every is not None and hasattr(d, 'cases'):
                        key = ('dims', c0)
                        if key not in d.cases:
                            raise NeedCase(key)
                        if d.cases[key] > 0:
                            return self(args[2] if every else args[1])
                    elif every is not None:
                        raise Top(show(t))
                    return d.select(c[2], c[1], self(args[1]), self(args[2]))
                raise Top(show(t))
            if n == 'numpy.clip' and len(args) == 3 and not kws:
                return d.minimum(d.maximum(self(args[0]), self(args[1])), self(args[2]))
            if n in ('numpy.zeros_like', 'numpy.zeros'):
                return d.const(0)
            if n in ('numpy.ones_like', 'numpy.ones'):
                return d.const(1)
            if n in ('numpy.square',):
                x = self(args[0])
                return d.mul(x, x)
            if n in ('builtins.sorted', 'numpy.sort') and len(args) == 1 and not (set(kws) - {'axis'}):
                v = self.value(args[0])
                if isinstance(v, tuple) and v[0] == 'row' and len(v) > 2:
                    return v[:2]
                if isinstance(v, tuple) and v[0] == 'row':
                    return v
            if n in ('builtins.min', 'builtins.max', 'numpy.min', 'numpy.max') and len(args) == 1:
                v = self.value(args[0])
                if isinstance(v, tuple) and v[0] == 'row' and (not kws or cval_or(kws.get('axis')) in (1, -1)):
                    return v[1][0 if 'min' in n else 1]
            if n in ('numpy.diff', 'numpy.ptp') and len(args) == 1:
                v = self.value(args[0])
                if isinstance(v, tuple) and v[0] == 'row':
                    return d.sub(v[1][1], v[1][0])
            if n == 'numpy.transpose' and len(args) == 1:
                v = self.value(args[0])
                if isinstance(v, tuple) and v[0] == 'row':
                    return ('cols', v[1])
        if f.op == 'attr' and f.a[1] in ('copy', 'astype', 'tolist') and (not args or f.a[1] == 'astype'):
            return self.value(f.a[0])
        if f.op == 'attr' and f.a[1] in ('clip', 'round') or True:
            raise Top(show(t))


def cval_or(t):
    return cval(t) if isinstance(t, T) and t.op == 'const' else None
