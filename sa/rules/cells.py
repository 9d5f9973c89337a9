"""The cell list: cell numbers as step functions of the fractional coordinate
of one arbitrary dimension, with n cells inside the limits."""
from fractions import Fraction as F

from ..engine import Monitor, strip_at
from ..num import Top, Wrong
from ..terms import T, cval, walk, show, is_const, attr
from .. import roles as R
from .queues import Chain, ext
from .results import self_of
from .search import mentions

SAME = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'builtins.tuple', 'builtins.list', 'builtins.iter', 'copy.copy', 'numpy.atleast_1d', 'numpy.ascontiguousarray'}
INTS = ('builtins.int', 'numpy.int', 'numpy.int64', 'numpy.int32', 'numpy.intp', 'numpy.int_')


class L:
    """a n + b"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = F(a), F(b)

    def __eq__(self, o):
        return isinstance(o, L) and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __add__(self, o):
        return L(self.a + o.a, self.b + o.b)

    def __sub__(self, o):
        return L(self.a - o.a, self.b - o.b)

    def sign(self):
        """Sign of the values for all n >= 2: -1, 0, 1, or None."""
        if self.a == 0:
            return (self.b > 0) - (self.b < 0)
        low = 2 * self.a + self.b
        if self.a > 0 and low > 0:
            return 1
        if self.a < 0 and low < 0:
            return -1
        return None

    def le(self, o):
        s = (o - self).sign()
        if s is not None:
            return s >= 0
        d = o - self
        if d.a > 0 and 2 * d.a + d.b == 0:
            return True
        if d.a < 0 and 2 * d.a + d.b == 0:
            return False
        raise Top('%s <= %s' % (self, o))

    def __repr__(self):
        if self.a == 0:
            return str(self.b)
        return '%sn%s' % ('' if self.a == 1 else '%s ' % self.a, '' if self.b == 0 else ' %s %s' % ('+' if self.b > 0 else '-', abs(self.b)))


ONE = L(0, 1)


class X:
    """Real number x * s + c, x the fractional coordinate."""

    def __init__(self, s, c=F(0)):
        self.s, self.c = s, c


class I:
    """Integer part of x * s + c0, plus c, between lo and hi, modulo m."""

    def __init__(self, s, kind, c=F(0), lo=None, hi=None, m=None):
        self.s, self.kind, self.c, self.lo, self.hi, self.m = s, kind, c, lo, hi, m

    def key(self):
        return (self.s, self.kind, self.c, self.lo, self.hi, self.m)

    def but(self, **kw):
        d = dict(s=self.s, kind=self.kind, c=self.c, lo=self.lo, hi=self.hi, m=self.m)
        d.update(kw)
        return I(**d)

    def __repr__(self):
        r = '%s(x (%s))' % (self.kind, self.s)
        if self.c:
            r += ' %s %s' % ('+' if self.c > 0 else '-', abs(self.c))
        if self.lo is not None or self.hi is not None:
            r += ' in [%s, %s]' % (self.lo, self.hi)
        return r + (' mod %s' % self.m if self.m is not None else '')


class Off:
    """Offsets in each dimension, all combinations."""

    def __init__(self, values):
        self.values = frozenset(values)


class N:
    """Cell number i plus any of the offsets, modulo m; the whole product."""

    def __init__(self, i, offs, m=None):
        self.i, self.offs, self.m = i, offs, m


class Boxes:
    """Reads terms of one cell list in one mode, for n = 1 or n >= 2."""

    def __init__(self, cls, attrs, periodic, single, st=None):
        self.me = self_of(cls)
        self.attrs, self.periodic, self.single, self.st = attrs, periodic, single, st
        self.memo = {}
        self.busy = set()

    def lin(self, a, b):
        return L(0, F(a) + F(b)) if self.single else L(a, b)

    def items(self, t):
        t = strip_at(t)
        if t.op == 'tuple':
            return list(t.a[0])
        if t.op == 'seqv':
            return list(t.a[1])
        if ext(t) in SAME and len(t.a[1]) == 1:
            return self.items(t.a[1][0])
        if ext(t) == 'builtins.range' and all(is_const(x) for x in t.a[1]):
            return [T('const', 'int', i) for i in range(*[cval(x) for x in t.a[1]])]
        c = self.st.heap.get((t, '#')) if self.st is not None else None
        if c is not None and c.op == 'seq' and not any(x.op == 'star' for x in c.a[0]):
            return list(c.a[0])
        return None

    def __call__(self, t):
        t = strip_at(t)
        if t not in self.memo:
            self.memo[t] = self.read(t)
        return self.memo[t]

    def dims(self, t):
        """The number of dimensions?"""
        t = strip_at(t)
        if ext(t) == 'builtins.len' and len(t.a[1]) == 1:
            return self.vector(t.a[1][0])
        if t.op == 'attr' and t.a[1] == 'size':
            return self.vector(t.a[0])
        if t.op == 'attr' and t.a[1] == 'ndim' or t.op == 'attr' and t.a[1] == 'dim':
            return True
        if t.op == 'sub' and is_const(t.a[1], 0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
            return self.vector(t.a[0].a[0])
        if t.op == 'attr' and t.a[0] is self.me and t.a[1] in self.attrs:
            return self.dims(self.attrs[t.a[1]])
        return False

    def vector(self, t):
        try:
            return isinstance(self(t), (L, X, I, N))
        except Top:
            return False

    def every(self, it):
        """Does an iteration run over all dimensions?"""
        it = strip_at(it)
        if ext(it) in ('builtins.zip', 'builtins.enumerate') and it.a[1]:
            return all(self.every(x) for x in it.a[1])
        if ext(it) == 'builtins.range' and len(it.a[1]) == 1:
            return self.dims(it.a[1][0])
        return self.vector(it)

    def read(self, t):
        if t.op == 'const' and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            return L(0, F(cval(t)))
        if t.op == 'in' and t.a[0] == 'num_cells':
            return self.lin(1, 0)
        if t.op == 'in' and t.a[0] in ('frac', '#frac'):
            return X(ONE)
        if t.op == 'attr' and t.a[0] is self.me and t.a[1] in self.attrs:
            if t in self.busy:
                raise Top('recursive')
            self.busy.add(t)
            try:
                return self(self.attrs[t.a[1]])
            finally:
                self.busy.discard(t)
        if t.op == 'elem':
            return self(t.a[0])
        if t.op == 'sub':
            if t.a[1].op in ('idx',) and self.every(T('call', T('ext', 'builtins.range'), (T('call', T('ext', 'builtins.len'), (t.a[1].a[0],), ()),), ())):
                return self(t.a[0])
            if t.a[1].op == 'slice' and all(x is None or isinstance(x, T) and x.op == 'const' and cval(x) is None for x in t.a[1].a):
                return self(t.a[0])
            raise Top(show(t))
        if t.op == 'un' and t.a[0] == '-':
            return self.sub(L(0, 0), self(t.a[1]))
        if t.op == 'bin':
            return self.binary(t.a[0], self(t.a[1]), self(t.a[2]), t)
        if t.op == 'cmp' and t.a[0] in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(t.a[0], self(t.a[1]), self(t.a[2]))
        if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2]:
            e, it, _ = t.a[2][0]
            if not self.every(it):
                v = None
                try:
                    v = self(it)
                except Top:
                    pass
                if not isinstance(v, (N, Off)):
                    raise Top('all dimensions? %s' % show(it))
            xs = self.items(t.a[1])
            if xs is not None:
                return self.group([self(x) for x in xs])
            return self(t.a[1])
        if t.op in ('tuple', 'seqv') or t.op == 'obj':
            xs = self.items(t)
            if xs:
                return self.group([self(x) for x in xs])
        if t.op == 'call':
            return self.call(t)
        raise Top(show(t))

    def group(self, vs):
        """Alternatives of one dimension."""
        if all(isinstance(v, L) and v.a == 0 and v.b.denominator == 1 for v in vs):
            return Off(int(v.b) for v in vs)
        if all(isinstance(v, (I, N)) for v in vs):
            base = [v.i if isinstance(v, N) else v for v in vs]
            offs, mods = set(), set()
            root = base[0]
            for b, v in zip(base, vs):
                if isinstance(v, N):
                    offs |= set(v.offs)
                    mods.add(v.m)
                    if v.i.key() != (root.i if isinstance(root, N) else root).key():
                        raise Top('different cells')
                else:
                    mods.add(None)
                    if v.but(c=F(0), lo=None, hi=None).key() != root.but(c=F(0), lo=None, hi=None).key():
                        raise Top('different cells')
                    d = v.c - root.c
                    for x, y in ((v.lo, root.lo), (v.hi, root.hi)):
                        if (x is None) != (y is None) or x is not None and x - y != L(0, d):
                            raise Top('different limits')
                    offs.add(int(d))
            if len(mods) != 1:
                raise Top('different moduli')
            return N(root, frozenset(offs), next(iter(mods)))
        raise Top('group')

    @staticmethod
    def sub(x, y):
        if isinstance(x, L) and isinstance(y, L):
            return x - y
        raise Top('-')

    def binary(self, op, x, y, t):
        if isinstance(x, L) and isinstance(y, L):
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*' and (x.a == 0 or y.a == 0):
                c, z = (x.b, y) if x.a == 0 else (y.b, x)
                return L(z.a * c, z.b * c)
            if op in '/' and y.a == 0 and y.b:
                return L(x.a / y.b, x.b / y.b)
            if op == '%' and self.single and x.a == 0 and y.a == 0 and y.b > 0:
                return L(0, x.b % y.b)
            if op == '//' and x.a == 0 and y.a == 0 and y.b:
                return L(0, x.b // y.b)
            raise Top(show(t))
        if op in '+*' and isinstance(x, L) and not isinstance(y, L):
            x, y = y, x
        if isinstance(x, X) and isinstance(y, L):
            if op == '*' and x.s == ONE and x.c == 0:
                return X(y)
            if op == '*' and y.a == 0:
                return X(L(x.s.a * y.b, x.s.b * y.b), x.c * y.b)
            if op == '*' and x.c == 0 and x.s.a == 0:
                return X(L(y.a * x.s.b, y.b * x.s.b))
            if op in '+-' and y.a == 0:
                return X(x.s, x.c + (y.b if op == '+' else -y.b))
            if op == '//' and y == ONE:
                return I(x.s, 'floor', c=self.whole(x))
            if op == '%' and y == ONE and x.s == ONE and x.c == 0 and self.periodic:
                return x
            raise Top(show(t))
        if isinstance(x, I) and isinstance(y, Off) and op == '+' or isinstance(y, I) and isinstance(x, Off) and op == '+':
            i, o = (x, y) if isinstance(x, I) else (y, x)
            return N(i, o.values)
        if isinstance(x, I) and isinstance(y, Off) and op == '-':
            return N(x, frozenset(-o for o in y.values))
        if isinstance(x, I) and isinstance(y, L):
            if op in '+-' and y.a == 0:
                d = L(0, y.b if op == '+' else -y.b)
                if x.m is not None:
                    if d.b == 0:
                        return x
                    return N(x, frozenset([int(d.b)]))
                return x.but(c=x.c + d.b, lo=None if x.lo is None else x.lo + d, hi=None if x.hi is None else x.hi + d)
            if op == '%':
                if x.m is not None:
                    if x.m == y:
                        return x
                    raise Top(show(t))
                if x.lo is not None and x.hi is not None and L(0, 0).le(x.lo) and (x.hi + ONE).le(y):
                    return x
                if x.lo is not None or x.hi is not None:
                    raise Top(show(t))
                return x.but(m=y)
            raise Top(show(t))
        if isinstance(x, N) and isinstance(y, L):
            if op in '+-' and y.a == 0 and x.m is None:
                d = int(y.b if op == '+' else -y.b)
                return N(x.i, frozenset(o + d for o in x.offs))
            if op == '%' and x.m in (None, y):
                return N(x.i, x.offs, y)
        if isinstance(x, Off) and isinstance(y, L) and op in '+-' and y.a == 0:
            return Off(o + int(y.b if op == '+' else -y.b) for o in x.values)
        raise Top(show(t))

    def compare(self, op, x, y):
        if isinstance(x, L) and isinstance(y, L):
            d = x - y
            if d.a == 0:
                s = (d.b > 0) - (d.b < 0)
                return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]
            low = 2 * d.a + d.b
            if d.a > 0 and low > 0:
                return op in ('>', '>=', '!=')
            if d.a < 0 and low < 0:
                return op in ('<', '<=', '!=')
            if d.a > 0 and low == 0 and op in ('>=', '<'):
                return op == '>='
        raise Top('comparison')

    def whole(self, x):
        if x.c.denominator != 1:
            raise Top('shifted cells')
        return x.c

    def toint(self, x, kind):
        if isinstance(x, (I, N, Off)):
            return x
        if isinstance(x, L):
            if x.a.denominator == 1 and x.b.denominator == 1:
                return x
            raise Top('integer part of a number')
        if isinstance(x, X):
            if kind == 'round':
                raise Top('rounded')
            return I(x.s, kind, c=self.whole(x))
        raise Top('integer part')

    def clamp(self, x, y, high):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, I) and isinstance(b, L):
                if a.m is not None:
                    raise Top('limited after modulo')
                if high:
                    return a.but(hi=b if a.hi is None else a.hi if a.hi.le(b) else b)
                return a.but(lo=b if a.lo is None else a.lo if b.le(a.lo) else b)
            if isinstance(a, X) and isinstance(b, L):
                raise Top('coordinate limited')
        if isinstance(x, L) and isinstance(y, L):
            if high:
                return x if x.le(y) else y
            return y if x.le(y) else x
        raise Top('limited')

    def call(self, t):
        f, args, kws = t.a[0], list(t.a[1]), dict(t.a[2])
        n = ext(t)
        if f.op == 'attr':
            base, name = f.a[0], f.a[1]
            if name == 'astype' and args:
                return self.typed(self(base), args[0])
            if name in ('copy', 'tolist') and not args:
                return self(base)
            if name == 'clip' and len(args) == 2:
                return self.clamp(self.clamp(self(base), self(args[0]), False), self(args[1]), True)
            raise Top(show(t))
        if n in ('builtins.dict.fromkeys', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'builtins.reversed', 'numpy.unique') and args:
            v = self(args[0])
            if isinstance(v, (I, X)):
                if n == 'builtins.reversed':
                    raise Top('order of dimensions')
                raise Wrong('the same for different cells: %s' % show(t))
            return v
        if n in ('builtins.sum', 'builtins.max', 'builtins.min', 'numpy.sum', 'numpy.max', 'numpy.min', 'numpy.prod', 'builtins.hash', 'numpy.sort') and len(args) == 1 and isinstance(self(args[0]), (I, X)):
            raise Wrong('the same for different cells: %s' % show(t))
        if n in SAME and len(args) >= 1:
            xs = self.items(args[0]) if strip_at(args[0]).op in ('seqv', 'tuple', 'obj') else None
            v = self.group([self(x) for x in xs]) if xs else self(args[0])
            d = kws.get('dtype', args[1] if len(args) > 1 else None)
            return self.typed(v, d) if d is not None else v
        if n in INTS and len(args) == 1:
            return self.toint(self(args[0]), 'trunc')
        if n in ('numpy.trunc', 'numpy.fix', 'math.trunc') and len(args) == 1:
            return self.toint(self(args[0]), 'trunc')
        if n in ('numpy.floor', 'math.floor') and len(args) == 1:
            return self.toint(self(args[0]), 'floor')
        if n in ('numpy.ceil', 'math.ceil') and len(args) == 1:
            return self.toint(self(args[0]), 'ceil')
        if n in ('numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round') and args:
            return self.toint(self(args[0]), 'round')
        if n in ('numpy.minimum', 'numpy.maximum', 'builtins.min', 'builtins.max') and len(args) == 2 and not kws:
            return self.clamp(self(args[0]), self(args[1]), 'min' in n)
        if n == 'numpy.clip' and len(args) == 3:
            x = self(args[0])
            if not is_const(args[1]) or cval(args[1]) is not None:
                x = self.clamp(x, self(args[1]), False)
            if not is_const(args[2]) or cval(args[2]) is not None:
                x = self.clamp(x, self(args[2]), True)
            return x
        if n == 'numpy.where' and len(args) == 3:
            c = self(args[0])
            if c in (True, False):
                return self(args[1] if c else args[2])
        if n in ('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.mod', 'numpy.remainder', 'numpy.floor_divide', 'numpy.true_divide', 'numpy.divide') and len(args) == 2 and not kws:
            op = {'add': '+', 'subtract': '-', 'multiply': '*', 'mod': '%', 'remainder': '%', 'floor_divide': '//', 'true_divide': '/', 'divide': '/'}[n[6:]]
            return self.binary(op, self(args[0]), self(args[1]), t)
        if n == 'itertools.product':
            rep = kws.get('repeat')
            if len(args) == 1 and args[0].op != 'star' and rep is not None:
                if not self.dims(rep):
                    raise Top('number of dimensions? %s' % show(rep))
                xs = self.items(args[0])
                if xs is None:
                    raise Top(show(t))
                return self.group([self(x) for x in xs])
            if len(args) == 1 and args[0].op == 'star' and rep is None:
                return self(args[0].a[0])
        raise Top(show(t))

    def typed(self, v, d):
        if d.op == 'ext' and d.a[0] in INTS:
            return self.toint(v, 'trunc')
        if is_const(d) and cval(d) in ('int', 'int64', 'i8', 'int32'):
            return self.toint(v, 'trunc')
        if d.op == 'ext' and d.a[0] in ('builtins.float', 'numpy.float64', 'numpy.object', 'builtins.object'):
            if isinstance(v, I):
                raise Top('type')
            return v
        raise Top('type %s' % show(d))


class Cells(Monitor):
    """Stores, yields and incomplete turns of a method of the cell list."""

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        where = (ev.node, eng.func)
        x = None
        if k == 'mutate':
            x = ('mutate', strip_at(ev.base), ev.method, tuple(ev.args)) + where
        elif k == 'storesub':
            x = ('store', strip_at(ev.base), ev.idx, ev.value) + where
        elif k == 'yield':
            lids = tuple(l[0] for l in ev.loops)
            m = tuple(('turn', y[1], True, y[3]) if y[0] == 'turn' and y[1] in lids else y for y in m)
            x = ('yield', ev.value, tuple(ev.loops)) + where
        elif k == 'iter' and not ev.while_:
            return tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop)) + (('turn', ev.loop, False, ev.elem),)
        elif k == 'loopdone' and not ev.while_:
            # an inner loop over nothing does not skip anything
            m = tuple(('turn', y[1], 'empty', y[3]) if y[0] == 'turn' and not y[2] and y[1] != ev.loop and any(l[0] == y[1] for l in ev.loops) else y for y in m)
            return m
        elif k == 'iterend' and not ev.while_:
            t = [y for y in m if y[0] == 'turn' and y[1] == ev.loop]
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop))
            if t and t[0][2] is False:
                x = ('skipped', ev.loop, t[0][3], tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and mentions(y, t[0][3]) for y in f[1:])))
            else:
                return m
        elif k == 'new':
            a = dict(ev.kwargs)
            x = ('new', ev.inst, ev.cls, tuple(ev.args), tuple(sorted(a.items(), key=lambda kv: kv[0]))) + where
        if x is None or x in m or len(m) > 60:
            return m
        return m + (x,)


def mode(st, me):
    """Is the system periodic on this path?"""
    for k, v in st.facts.items():
        if k[0] == 'truth' and isinstance(k[1], T):
            t = strip_at(k[1])
            if t is attr(me, 'periodic') or t.op == 'in' and t.a[0] == 'periodic':
                return v
    return None


class List:
    """The class of the cell lists and what its constructor sets up."""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls
        self.me = self_of(cls)
        p = ctx.prog
        self.add = p.find_method(cls, 'add_point')
        self.get = p.find_method(cls, 'get_neighbour_values')
        self.init = p.find_method(cls, '__init__')
        self.attrs = {}
        eng, rets, raises = ctx.analyse(self.init, monitor=Cells(), self_term=self.me, label='%s.__init__' % cls.name)
        for st, v in rets:
            if st.taint:
                continue
            per = mode(st, self.me)
            for p_ in ((per,) if per is not None else (True, False)):
                d = self.attrs.setdefault(p_, {})
                for (b, n), v in st.heap.items():
                    if b is self.me:
                        d.setdefault(n, set()).add((v, st))

    def boxes(self, periodic, single, st):
        d, base = {}, None
        for n, vs in self.attrs.get(periodic, {}).items():
            if len({v for v, _ in vs}) == 1:
                d[n], base = next(iter(vs))
        b = Boxes(self.cls, d, periodic, single, st)
        if base is not None:
            old = b.items
            init_st = base

            def items(t):
                r = old(t)
                if r is None:
                    b.st = init_st
                    try:
                        r = old(t)
                    finally:
                        b.st = st
                return r
            b.items = items
        return b


def single_param(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def c16(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('number', 'The number of cells in a dimension is the integer part of size / cutoff (or less, or one), so that no cell is smaller than the cutoff; at least one.')
    ctx.rule('cell', 'The number of the cell of x is a step function of n x with one step per unit (integer part), taken modulo the number of cells if periodic and limited to the existing cells otherwise, the same for storing and looking up; with one cell in a dimension, all cells used are neighbours.')
    ctx.rule('neighbours', 'A lookup visits all cells that differ by -1, 0 or 1 in each dimension, in every combination: modulo the number of cells and each once if periodic, exactly those that exist otherwise.')
    ctx.rule('values', 'Every value of every cell visited is considered; storing a value puts it into its cell exactly once.')
    ctx.rule('cache', 'Neighbouring cells that are remembered are found again under the number of the cell they belong to.')
    ctx.rule('query', 'The container stores and looks up positions by their own fractional coordinates, and leaves out only candidates whose position equals the one given.')
    ctx.assumptions += ['exact real arithmetic', 'fractional coordinates of periodic systems lie in [0, 1] (C14)']
    result = roles.cls('result')
    cls = cell_class(ctx, result)
    if cls is None:
        ctx.undecided('cell', 'cell list', 'class not found')
        return
    lst = List(ctx, cls)
    if lst.add is None or lst.get is None:
        ctx.undecided('cell', cls.name, 'add_point or get_neighbour_values not found')
        return
    number(ctx, roles, result, cls)
    stored = store(ctx, lst)
    lookup(ctx, lst, stored)
    query(ctx, roles, result, lst)
    measure(ctx, 'query')


def cell_class(ctx, result):
    found = set()
    for name, vs in __import__('sa.engine', fromlist=['prog_types']).prog_types(ctx.prog).init_of(result).items():
        for v in vs:
            if v.op == 'inst':
                c = ctx.prog.classes.get(v.a[0])
                if c is not None and ctx.prog.find_method(c, 'get_neighbour_values') is not None:
                    found.add(c)
    return found.pop() if len(found) == 1 else None


# -- number of cells ---------------------------------------------------------

class Ratio:
    """k size / cutoff, or its integer part, possibly limited from below (at
    least low) and above."""

    def __init__(self, k, whole=False, low=None, shift=F(0), capped=False):
        self.k, self.whole, self.low, self.shift, self.capped = k, whole, low, shift, capped

    def but(self, **kw):
        d = dict(k=self.k, whole=self.whole, low=self.low, shift=self.shift, capped=self.capped)
        d.update(kw)
        return Ratio(**d)


def ratio(t, me, coord):
    t = strip_at(t)
    if is_const(t) and isinstance(cval(t), (int, float)):
        return F(cval(t))
    if t.op == 'attr' and t.a[1] == 'size' and coord(t.a[0]):
        return 'size'
    if t.op == 'in' and t.a[0] == 'dist_cutoff' or t is attr(me, 'dist_cutoff'):
        return 'cutoff'
    rec = lambda x: ratio(x, me, coord)
    if t.op == 'bin':
        x, y = rec(t.a[1]), rec(t.a[2])
        op = t.a[0]
        if op in ('/', '//') and x == 'size' and y == 'cutoff':
            return Ratio(F(1), whole=op == '//')
        if op in ('/', '//') and x == 'size' and isinstance(y, tuple) and y[0] == 'cutoff':
            return Ratio(1 / y[1], whole=op == '//')
        if op in ('/', '//') and isinstance(x, tuple) and x[0] == 'size' and y == 'cutoff':
            return Ratio(x[1], whole=op == '//')
        if op == '*':
            if isinstance(x, F):
                x, y = y, x
            if isinstance(y, F) and y > 0:
                if x in ('size', 'cutoff'):
                    return (x, y)
                if isinstance(x, Ratio) and not x.whole and x.low is None and not x.capped:
                    return x.but(k=x.k * y)
        if op == '/' and isinstance(y, F) and y > 0:
            if x in ('size', 'cutoff'):
                return (x, 1 / y)
            if isinstance(x, Ratio) and not x.whole and x.low is None and not x.capped:
                return x.but(k=x.k / y)
        if op in '+-' and isinstance(x, Ratio) and isinstance(y, F):
            d = y if op == '+' else -y
            return x.but(shift=x.shift + d, low=None if x.low is None else x.low + d)
        if op == '+' and isinstance(y, Ratio) and isinstance(x, F):
            return y.but(shift=y.shift + x, low=None if y.low is None else y.low + x)
        raise Top(show(t))
    if t.op == 'call':
        n, args, kws = ext(t), list(t.a[1]), dict(t.a[2])
        if t.a[0].op == 'attr' and t.a[0].a[1] == 'astype' and args and args[0].op == 'ext' and args[0].a[0] in INTS:
            return floor_of(rec(t.a[0].a[0]))
        if t.a[0].op == 'attr' and t.a[0].a[1] == 'clip' and len(args) == 2:
            return bound(bound(rec(t.a[0].a[0]), rec(args[0]), False), rec(args[1]), True)
        if n in SAME and args:
            v = rec(args[0])
            d = kws.get('dtype', args[1] if len(args) > 1 else None)
            if d is not None and d.op == 'ext' and d.a[0] in INTS:
                return floor_of(v)
            if d is None or d.op == 'ext' and d.a[0] in ('builtins.float',):
                return v
        if n in ('numpy.floor', 'numpy.trunc', 'numpy.fix') + INTS and len(args) == 1:
            return floor_of(rec(args[0]))
        if n in ('numpy.ceil', 'numpy.round', 'numpy.rint', 'numpy.around', 'builtins.round') and len(args) == 1:
            v = rec(args[0])
            if isinstance(v, Ratio) and not v.whole:
                raise Wrong('the number of cells is rounded up: %s' % show(t))
            return v
        if n in ('numpy.divide', 'numpy.true_divide', 'numpy.floor_divide') and len(args) == 2 and not kws:
            return rec(T('bin', '//' if 'floor' in n else '/', *args))
        if n in ('numpy.minimum', 'numpy.maximum', 'builtins.min', 'builtins.max') and len(args) == 2:
            return bound(rec(args[0]), rec(args[1]), 'min' in n)
        if n == 'numpy.clip' and len(args) == 3:
            v = rec(args[0])
            if not (is_const(args[1]) and cval(args[1]) is None):
                v = bound(v, rec(args[1]), False)
            if not (is_const(args[2]) and cval(args[2]) is None):
                v = bound(v, rec(args[2]), True)
            return v
        if n in ('numpy.full_like', 'numpy.full') and len(args) >= 2:
            return rec(args[1])
        if n in ('numpy.ones', 'numpy.ones_like'):
            return F(1)
    if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2]:
        return rec(t.a[1])
    if t.op == 'elem':
        return rec(t.a[0])
    raise Top(show(t))


def floor_of(v):
    if isinstance(v, Ratio):
        return v.but(whole=True)
    if isinstance(v, F):
        return F(int(v))
    raise Top('integer part')


def bound(x, y, high):
    if isinstance(x, F) and isinstance(y, F):
        return min(x, y) if high else max(x, y)
    if isinstance(x, F):
        x, y = y, x
    if isinstance(x, Ratio) and isinstance(y, F):
        if high:
            return x.but(capped=True, low=None if x.low is None else min(x.low, y))
        return x.but(low=y if x.low is None else max(x.low, y))
    raise Top('limited')


def number(ctx, roles, result, cls):
    f = ctx.prog.find_method(result, '__init__')
    me = self_of(result)
    # what positions are mapped to has nothing to do with the number of cells
    maps = [ctx.prog.find_method(roles.cls('coord'), x) for x in ('get_frac', 'normalize_position', 'distance')]
    eng, rets, raises = ctx.analyse(f, monitor=Cells(), self_term=me, opaque={x.fid for x in maps if x is not None}, label='%s.__init__' % result.name)
    coord = lambda t: strip_at(t) is attr(me, 'coordinate_system') or strip_at(t).op == 'in' and strip_at(t).a[0] == 'coordinate_system'
    n = 0
    for st, v in rets:
        for x in st.mon:
            if x[0] != 'new' or x[2] is not cls:
                continue
            n += 1
            init = ctx.prog.find_method(cls, '__init__')
            names = single_param(init)
            a = dict(zip(names, x[3]))
            a.update(dict(x[4]))
            loc, q = ctx.loc(x[6], x[5]), x[6].qual
            what = '%s in %s' % (cls.name, loc)
            if st.taint:
                ctx.undecided('number', what, 'imprecise path')
                continue
            p = a.get('periodic')
            if p is not None:
                p_ = strip_at(p)
                if p_.op == 'attr' and p_.a[1] == 'periodic' and coord(p_.a[0]):
                    ctx.ok('number', '%s: periodic' % what)
                elif p_.op == 'un' and p_.a[0] == 'not' or is_const(p_):
                    ctx.bad('number', loc, q, 'the cell list is not periodic exactly if the system is: %s' % show(p_))
                else:
                    ctx.undecided('number', what, 'periodic: %s' % show(p_))
            zero = any(k[0] == 'ord' and {'='} == set(val) and any(is_const(y) and cval(y) == 0 for y in k[1:]) and any(mentions(y, T('in', 'dist_cutoff')) for y in k[1:]) for k, val in st.facts.items()) or \
                any(k[0] == 'truth' and val is False and strip_at(k[1]).op == 'in' and strip_at(k[1]).a[0] == 'dist_cutoff' for k, val in st.facts.items())
            try:
                r = ratio(a['num_cells'], me, coord)
            except KeyError:
                ctx.undecided('number', what, 'argument')
                continue
            except Wrong as e:
                ctx.bad('number', loc, q, str(e))
                continue
            except Top as e:
                ctx.undecided('number', what, str(e)[:200])
                continue
            if isinstance(r, F):
                if r >= 1 and (zero or r == 1):
                    ctx.ok('number', what)
                else:
                    ctx.bad('number', loc, q, 'the number of cells does not depend on the cutoff')
                continue
            if not isinstance(r, Ratio):
                ctx.bad('number', loc, q, 'the number of cells is not the ratio of size and cutoff: %s' % show(a['num_cells']))
            elif r.k > 1 or r.shift > 0:
                ctx.bad('number', loc, q, 'cells are smaller than the cutoff: %s' % show(a['num_cells']))
            elif r.low is not None and r.low > 1:
                ctx.bad('number', loc, q, 'cells are smaller than the cutoff for a box with less than %s times its size' % r.low)
            elif r.low is None or r.low < 1:
                ctx.bad('number', loc, q, 'there is no cell if the box is smaller than the cutoff')
            else:
                ctx.ok('number', what)
    if not n:
        ctx.undecided('number', result.name, 'no cell list is made')


# -- storing -----------------------------------------------------------------

def rename(t, name, new):
    from ..terms import subst
    return subst(t, {T('in', name): T('in', new)})


def frac_param(f):
    ps = single_param(f)
    return 'frac' if 'frac' in ps else ps[0] if ps else None


def check_cell(v, total, periodic, single):
    """None if the cell number v is right, or the reason."""
    if single and isinstance(v, L) and v.a == 0:
        if L(0, 0).le(v) and v.le(total - ONE):
            return None
        return 'cell %r does not exist' % v
    if not isinstance(v, I):
        raise Top('cell number')
    if single:
        return None
    n = L(1, 0)
    if not v.s.le(n):
        return 'cells are smaller than the cutoff: %r' % v
    if periodic:
        if v.m is not None:
            if not v.s == v.m:
                return 'the cells at both ends are not neighbours: %r' % v
            if not v.m == total:
                return 'cell numbers are taken modulo %r instead of %r' % (v.m, total)
            return None
        if v.s == total and v.hi is not None and (v.lo is None or v.lo == L(0, 0)) and v.c == 0 and v.kind != 'ceil':
            return None if v.hi == total - ONE else 'cell number out of range: %r' % v
        if v.s == total and v.c == 0 and v.kind != 'ceil':
            return 'the cell number is out of range for a fractional coordinate of one: %r' % v
        raise Top('cell number %r' % v)
    if v.m is not None:
        return 'points outside the limits wrap around: %r' % v
    if v.lo is None or not L(0, 0).le(v.lo):
        return 'no cell exists for points below the limits: %r' % v
    if v.hi is None or not v.hi.le(total - ONE):
        return 'no cell exists for points above the limits: %r' % v
    return None


def store(ctx, lst):
    """Cell numbers used for storing: {periodic: (value for n >= 2, for n = 1)}."""
    f = lst.add
    me = lst.me
    res = {}
    eng, rets, raises = ctx.analyse(f, monitor=Cells(), self_term=me, label=f.qual)
    ps = single_param(f)
    fr = frac_param(f)
    val = [p for p in ps if p != fr]
    for st, v in rets:
        loc, q = ctx.loc(f), f.qual
        what = f.qual
        if st.taint:
            ctx.undecided('values', what, 'imprecise path')
            continue
        puts = [x for x in st.mon if x[0] == 'mutate' and cell_of(x[1], me) is not None]
        flat = [x for x in st.mon if x[0] == 'mutate' and x[1].op == 'attr' and x[1].a[0] is me and x[2] == 'append']
        if not puts:
            if any(x[0] in ('mutate', 'store') for x in st.mon if x not in flat):
                ctx.undecided('values', what, 'storing not followed')
            else:
                ctx.bad('values', loc, q, 'a value is not stored in any cell')
            continue
        if len(puts) > 1:
            ctx.undecided('values', what, 'several stores')
            continue
        x = puts[0]
        if x[2] == 'append' and len(x[3]) == 1:
            y = strip_at(x[3][0])
            if y.op == 'in' and y.a[0] in val:
                ctx.ok('values', '%s stores the value once' % what)
            elif y.op == 'in' and y.a[0] == fr:
                ctx.bad('values', ctx.loc(x[-1], x[-2]), q, 'the coordinate is stored instead of the value')
            else:
                ctx.undecided('values', what, 'value stored: %s' % show(y))
        else:
            ctx.undecided('values', what, 'stored by %s' % x[2])
        cell = rename(cell_of(x[1], me), fr, 'frac')
        per = mode(st, me)
        for p in ((per,) if per is not None else (True, False)):
            for single in (False, True):
                b = lst.boxes(p, single, st)
                name = '%s (%s, %s)' % (what, 'periodic' if p else 'not periodic', 'one cell' if single else 'several cells')
                try:
                    total = total_of(lst, b, x[1])
                    i = b(cell)
                    r = check_cell(i, total, p, single)
                except Wrong as e:
                    r = str(e)
                except Top as e:
                    ctx.undecided('cell', name, str(e)[:200])
                    continue
                if r is None:
                    ctx.ok('cell', name)
                    res.setdefault(p, {})[single] = (i, total)
                else:
                    ctx.bad('cell', ctx.loc(x[-1], x[-2]), x[-1].qual, r)
    return res


def cell_of(t, me):
    t = strip_at(t)
    if t.op == 'sub' and strip_at(t.a[0]).op == 'attr' and strip_at(t.a[0]).a[0] is me:
        return t.a[1]
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'setdefault' and t.a[1] and strip_at(t.a[0].a[0]).op == 'attr' and strip_at(t.a[0].a[0]).a[0] is me:
        return t.a[1][0]
    return None


def total_of(lst, b, t):
    """Number of cells that exist."""
    t = strip_at(t)
    t = strip_at(t.a[0]) if t.op == 'sub' else strip_at(t.a[0].a[0])
    v = b.attrs.get(t.a[1])
    if v is None:
        raise Top('cells')
    v = strip_at(v)
    n = ext(v)
    if n in ('numpy.empty', 'numpy.full', 'numpy.zeros', 'numpy.ndarray'):
        shape = dict(v.a[2]).get('shape', v.a[1][0] if v.a[1] else None)
        r = b(shape)
        if isinstance(r, L):
            return r
    raise Top('cells: %s' % show(v))


# -- looking up --------------------------------------------------------------

def limits_of(b, c, e, neg=False):
    """[(lower or upper, limit)] that condition c puts on the cell number."""
    c = strip_at(c)
    if c.op == 'un' and c.a[0] == 'not':
        return limits_of(b, c.a[1], e, not neg)
    if c.op == 'and' and not neg or c.op == 'or' and neg:
        return [y for x in c.a[0] for y in limits_of(b, x, e, neg)]
    if c.op == 'bin' and (c.a[0] == '&' and not neg or c.a[0] == '|' and neg):
        return [y for x in c.a[1:] for y in limits_of(b, x, e, neg)]
    n = ext(c)
    arg = c.a[1][0] if n is not None and len(c.a[1]) == 1 else None
    if c.op == 'call' and c.a[0].op == 'attr' and c.a[0].a[1] in ('all', 'any') and not c.a[1]:
        n, arg = 'numpy.' + c.a[0].a[1], c.a[0].a[0]
    if n in ('numpy.all', 'builtins.all', 'numpy.any', 'builtins.any') and arg is not None:
        every = n.endswith('all') != neg
        y = strip_at(arg)
        if y.op == 'comp' and len(y.a[2]) == 1 and not y.a[2][0][2]:
            if not b.every(y.a[2][0][1]):
                raise Top('condition %s' % show(c))
            y = y.a[1]
        r = limits_of(b, y, e, neg)
        if not every:
            raise Wrong('cells that do not exist are visited: %s' % show(c))
        return r
    if n == 'numpy.logical_and' and not neg and len(c.a[1]) == 2:
        return [y for x in c.a[1] for y in limits_of(b, x, e, neg)]
    if c.op == 'cmp' and c.a[0] in ('<', '<=', '>', '>='):
        op = c.a[0]
        if neg:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        x, y = b(c.a[1]), b(c.a[2])
        if isinstance(y, (N, I)) and isinstance(x, L):
            x, y = y, x
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        if isinstance(x, I):
            x = N(x, frozenset([0]))
        if isinstance(x, N) and isinstance(y, L):
            if x.m is not None:
                raise Top('condition after modulo')
            return [{'<': ('hi', y - ONE), '<=': ('hi', y), '>': ('lo', y + ONE), '>=': ('lo', y)}[op]]
    raise Top('condition %s' % show(c))


def lookup(ctx, lst, stored):
    f = lst.get
    me = lst.me
    eng, rets, raises = ctx.analyse(f, monitor=Cells(), self_term=me, label=f.qual)
    fr = frac_param(f)
    what = f.qual
    over = {l[0] for st, v in rets for x in st.mon if x[0] == 'yield' for l in x[2]}
    for st, v in rets:
        skips = {x[1:]: x for x in st.mon if x[0] == 'skipped' and x[1] in over}
        if over and not any(x[0] == 'yield' for x in st.mon) and not skips:
            # nothing visited
            continue
        if st.taint:
            ctx.undecided('values', what, 'imprecise path')
            continue
        ys = [x for x in st.mon if x[0] == 'yield']
        if skips:
            left_out(ctx, st, skips, me, what, f)
            if not ys:
                continue
        if not ys:
            found = values_of_return(v, me)
            if found is None:
                ctx.undecided('values', what, 'values returned: %s' % show(v))
                continue
            value, loops, conds = found
            loc, q = ctx.loc(f), f.qual
            if conds:
                ctx.bad('values', loc, q, 'some values are left out: %s' % show(conds[0]))
                continue
        else:
            if len(ys) > 1:
                ctx.undecided('values', what, 'several yields')
                continue
            x = ys[0]
            value, loops = x[1], [(l[1], l[2]) for l in x[2]]
            loc, q = ctx.loc(x[-1], x[-2]), x[-1].qual
        if not loops:
            ctx.undecided('values', what, 'values not followed')
            continue
        ok_value = strip_at(value) is strip_at(loops[-1][1])
        cells_it = strip_at(loops[-1][0])
        for _ in range(4):
            if ext(cells_it) in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.reversed') and len(cells_it.a[1]) == 1:
                cells_it = strip_at(cells_it.a[1][0])
        if cells_it.op == 'sub' and cells_it.a[1].op == 'slice':
            ctx.bad('values', loc, q, 'some values of a cell are left out: %s' % show(cells_it))
            continue
        cidx = cell_of(cells_it, me)
        if cidx is None and cells_it.op == 'call' and cells_it.a[0].op == 'attr' and cells_it.a[0].a[1] == 'get' and cells_it.a[1]:
            cidx = cells_it.a[1][0]
        if not ok_value or cidx is None or len(loops) != 2:
            ctx.undecided('values', what, 'values not followed: %s' % show(value))
            continue
        ctx.ok('values', '%s gives every value of the cells visited' % what)
        it = loops[0][0]
        per = mode(st, me)
        cached = strip_at(it)
        if cached.op == 'sub' and strip_at(cached.a[0]).op == 'attr' and strip_at(cached.a[0]).a[0] is me and strip_at(cidx) is strip_at(loops[0][1]):
            ctx.ok('cache', '%s: remembered cells' % what)
            if cells_key(ctx, lst, st, cached, fr, per, stored, loc, q, what) is not None:
                continue
            continue
        for s in [x for x in st.mon if x[0] == 'store' and x[1].op == 'attr' and x[1].a[0] is me]:
            cache_store(ctx, lst, st, s, fr, per, stored, it)
        judge_cells(ctx, lst, st, it, loops[0][1], cidx, fr, per, stored, cells_it, loc, q, what)


def left_out(ctx, st, skips, me, what, f):
    """Turns of the loops over cells and values that give nothing."""
    for _, _, e, about in skips.values():
        if about and all(k[0] == 'truth' and v is False and cell_of(k[1], me) is not None for k, v in about):
            ctx.ok('values', '%s: only empty cells are left out' % what)
        elif len(about) == 1 and about[0][0][0] == 'ord' and any(strip_at(a) is strip_at(e) and not mentions(b, e) for a, b in (about[0][0][1:], about[0][0][:0:-1])):
            ctx.bad('values', ctx.loc(f), f.qual, 'the values of one cell are left out: %s' % ' '.join(show(x) for x in about[0][0][1:]))
        elif about and all(k[0] in ('ord', 'truth') and not any(x.op == 'in' or x.op == 'call' and x.a[0].op == 'attr' for y in k[1:] if isinstance(y, T) for x in walk(y) if isinstance(x, T) and x is not e and not mentions(e, x)) for k, v in about):
            ctx.bad('values', ctx.loc(f), f.qual, 'some values are left out: %s' % '; '.join('%s is %s' % (' '.join(show(x) for x in k[1:]), v) for k, v in about))
        else:
            ctx.undecided('values', what, 'some cells or values are left out')


def values_of_return(v, me):
    v = strip_at(v)
    for _ in range(4):
        if ext(v) in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(v.a[1]) == 1:
            v = strip_at(v.a[1][0])
    if v.op == 'comp' and v.a[0] in ('list', 'gen', 'generator'):
        return v.a[1], [(g[1], g[0]) for g in v.a[2]], [c for g in v.a[2] for c in g[2]]
    if ext(v) == 'itertools.chain.from_iterable' and len(v.a[1]) == 1:
        y = strip_at(v.a[1][0])
        if y.op == 'comp' and len(y.a[2]) == 1:
            g = y.a[2][0]
            e = T('elem', y.a[1])
            return e, [(g[1], g[0]), (y.a[1], e)], list(g[2])
    return None


def cells_key(ctx, lst, st, cached, fr, per, stored, loc, q, what):
    """Remembered cells are looked up under the number of the cell."""
    key = rename(cached.a[1], fr, 'frac')
    for p in ((per,) if per is not None else (True, False)):
        b = lst.boxes(p, False, st)
        name = '%s (%s): key' % (what, 'periodic' if p else 'not periodic')
        try:
            i = b(key)
            if not isinstance(i, I):
                raise Top('key %s' % show(key))
        except Wrong as e:
            ctx.bad('cache', loc, q, 'neighbouring cells are remembered under a key that is %s' % e)
            continue
        except Top as e:
            if key.op == 'sub' and key.a[1].op == 'const':
                ctx.bad('cache', loc, q, 'neighbouring cells are remembered for one dimension of the cell number only')
            else:
                ctx.undecided('cache', name, str(e)[:200])
            continue
        want = stored.get(p, {}).get(False)
        if want is None:
            continue
        if i.key() == want[0].key():
            ctx.ok('cache', name)
        else:
            ctx.bad('cell', loc, q, 'looking up uses the cell %r, storing the cell %r' % (i, want[0]))
    return None


def cache_store(ctx, lst, st, s, fr, per, stored, it):
    """What is remembered are the cells computed for that key."""
    _, base, key, value, node, func = s
    loc, q = ctx.loc(func, node), func.qual
    b = lst.boxes(per if per is not None else True, False, st)
    try:
        i = b(rename(key, fr, 'frac'))
        if not isinstance(i, I):
            raise Top('key')
    except Wrong as e:
        ctx.bad('cache', loc, q, 'neighbouring cells are remembered under a key that is %s' % e)
        return
    except Top as e:
        if key.op == 'sub' and key.a[1].op == 'const':
            ctx.bad('cache', loc, q, 'neighbouring cells are remembered for one dimension of the cell number only')
        else:
            ctx.undecided('cache', '%s: key' % q, str(e)[:200])
        return
    ctx.ok('cache', '%s: key %s' % (q, loc))
    if strip_at(value) is strip_at(it):
        ctx.ok('cache', '%s: cells remembered %s' % (q, loc))
    else:
        v, w = Chain(value, lambda t: None), Chain(it, lambda t: None)
        if v.base is w.base and not v.cut:
            ctx.ok('cache', '%s: cells remembered %s' % (q, loc))
        elif v.cut:
            ctx.bad('cache', loc, q, 'not all neighbouring cells are remembered')
        else:
            ctx.undecided('cache', '%s: cells remembered' % q, show(value)[:200])


def judge_cells(ctx, lst, st, it, el, cidx, fr, per, stored, cells_it, loc, q, what):
    ch = Chain(it, lambda t: None)
    for p in ((per,) if per is not None else (True, False)):
        b = lst.boxes(p, False, st)
        name = '%s (%s)' % (what, 'periodic' if p else 'not periodic')
        try:
            if ch.cut:
                raise Wrong('some neighbouring cells are not visited: %s' % show(it))
            total = total_of(lst, b, cells_it)
            conds = [(e, c) for e, c in ch.conds]
            base = ch.base
            # comprehensions around the candidates
            for _ in range(5):
                base = strip_at(base)
                if base.op == 'comp' and len(base.a[2]) == 1:
                    e, i2, cs = base.a[2][0]
                    conds += [(e, c) for c in cs]
                    c2 = Chain(i2, lambda t: None)
                    ch.unique = ch.unique or base.a[0] == 'set'
                    conds += c2.conds
                    if c2.cut:
                        raise Wrong('some neighbouring cells are not visited: %s' % show(i2))
                    if not isinstance(self_or_none(b, c2.base), (N, Off)):
                        base = c2.base
                        continue
                break
            nv = b(drop_conds(rename(cidx, fr, 'frac')))
            if isinstance(nv, I):
                nv = N(nv, frozenset([0]))
            if not isinstance(nv, N):
                raise Top('cells visited')
            lim = []
            for e, c in conds:
                lim += limits_of(b, drop_conds(rename(c, fr, 'frac')), e)
            r = check_neighbours(nv, lim, total, p, ch.unique, stored.get(p, {}).get(False))
        except Wrong as e:
            r = str(e)
        except Top as e:
            ctx.undecided('neighbours', name, str(e)[:250])
            continue
        if r is None:
            ctx.ok('neighbours', name)
        else:
            ctx.bad('neighbours', loc, q, r)
        if not p:
            one_cell(ctx, lst, st, nv if r is None else None, stored, name, loc, q)


def self_or_none(b, t):
    try:
        return b(t)
    except Top:
        return None


def drop_conds(t):
    """Comprehensions without their conditions (these are judged apart)."""
    from ..terms import subst
    m = {}
    for x in walk(t):
        if isinstance(x, T) and x.op == 'comp' and any(g[2] for g in x.a[2]):
            m[x] = T('comp', x.a[0], x.a[1], tuple((g[0], g[1], ()) for g in x.a[2]))
    return subst(t, m) if m else t


def check_neighbours(nv, lim, total, periodic, unique, stored):
    missing = [o for o in (-1, 0, 1) if o not in nv.offs]
    if missing:
        return 'neighbouring cells at offset %s are not visited' % ', '.join(map(str, missing))
    if stored is not None and nv.i.key() != stored[0].key():
        return 'looking up uses the cell %r, storing the cell %r' % (nv.i, stored[0])
    zero = L(0, 0)
    if periodic:
        if lim:
            los, his = [x for k, x in lim if k == 'lo'], [x for k, x in lim if k == 'hi']
            if nv.m is None:
                return 'the cells on the other side of the periodic boundary are not visited'
            raise Top('conditions on cells')
        if nv.m is None:
            return 'the cells on the other side of the periodic boundary are not visited'
        if nv.m != total:
            return 'neighbouring cells are taken modulo %r instead of %r' % (nv.m, total)
        if not unique:
            return 'with less than three cells, a cell is visited several times'
        return None
    if nv.m is not None:
        if unique:
            return None if nv.m == total else 'neighbouring cells are taken modulo %r instead of %r' % (nv.m, total)
        if max(nv.offs) - min(nv.offs) <= 2:
            raise Top('modulo')
        raise Top('modulo')
    los, his = [x for k, x in lim if k == 'lo'], [x for k, x in lim if k == 'hi']
    i = nv.i
    for x in los:
        if not x.le(i.lo if i.lo is not None else zero):
            return 'cell %s is never visited' % (i.lo if i.lo is not None else zero)
    for x in his:
        if not (i.hi if i.hi is not None else total - ONE).le(x):
            return 'cell %s is never visited' % (i.hi if i.hi is not None else total - ONE)
    if not any(x.le(total - ONE) for x in his) and not (i.hi is not None and (i.hi + L(0, max(nv.offs))).le(total - ONE)):
        return 'cells that do not exist are visited: no upper limit %s' % (total - ONE)
    if not any(zero.le(x) for x in los) and not (i.lo is not None and zero.le(i.lo + L(0, min(nv.offs)))):
        raise Top('negative cell numbers')
    return None


def one_cell(ctx, lst, st, nv, stored, name, loc, q):
    """One cell in a dimension can be smaller than the cutoff: all cells used
    have to be neighbours."""
    s = stored.get(False, {}).get(True)
    if nv is None or s is None:
        return
    i, total = s
    if isinstance(i, L):
        ctx.ok('neighbours', '%s: one cell' % name)
        return
    if not isinstance(i, I):
        return
    if i.lo is None or i.hi is None:
        return
    width = (i.hi - i.lo)
    reach = min(max(nv.offs), -min(nv.offs))
    if width.le(L(0, reach)):
        ctx.ok('neighbours', '%s: one cell' % name)
    else:
        ctx.bad('neighbours', loc, q, 'points outside on either side of a box smaller than the cutoff are not found: cells %s to %s' % (i.lo, i.hi))


# -- the container -----------------------------------------------------------

class Turns(Monitor):
    """Turns of loops over the values of neighbouring cells, and whether a turn
    gave a value; calls that store or look up."""

    def __init__(self, lst):
        self.lst = lst

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        x = None
        where = (ev.node, eng.func)
        if k == 'call' and ev.fn in (self.lst.add, self.lst.get):
            a = bound_args(ev.fn, ev.args, ev.kwargs)
            x = ('store' if ev.fn is self.lst.add else 'look', tuple(sorted(a.items(), key=lambda kv: kv[0])), ev.result) + where
        elif k == 'iter' and not ev.while_:
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop)) + (('turn', ev.loop, False),)
            x = ('over', ev.it, ev.elem) + where
        elif k in ('compitem', 'yield') or k == 'mutate' and ev.method in ('append', 'add', 'extend', 'appendleft'):
            v = ev.args[0] if k == 'mutate' and ev.args else ev.value
            lids = tuple(l[0] for l in ev.loops)
            m = tuple(('turn', y[1], True) if y[0] == 'turn' and y[1] in lids else y for y in m)
            x = ('value', v, tuple(l[2] for l in ev.loops)) + where
        elif k == 'iterend' and not ev.while_:
            t = [y for y in m if y[0] == 'turn' and y[1] == ev.loop]
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop))
            if t and not t[0][2]:
                about = tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and mentions(y, ev.elem) for y in f[1:]))
                x = ('none', ev.it, ev.elem, about) + where
        if x is None or x in m or len(m) > 60:
            return m
        return m + (x,)


def bound_args(f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names, args))
    d.update(dict(kwargs))
    return d


def query(ctx, roles, result, lst):
    from ..engine import Ev
    coord = roles.cls('coord')
    me = self_of(result)
    frac = ctx.prog.find_method(coord, 'get_frac')
    dist = ctx.prog.find_method(coord, 'distance')
    norm = ctx.prog.find_method(coord, 'normalize_position')
    if frac is None or dist is None:
        ctx.undecided('query', coord.name, 'get_frac or distance not found')
        return
    opaque = {m.fid for ms in lst.cls.methods.values() for m in ms} | {x.fid for x in (frac, dist, norm) if x is not None}
    is_call = lambda t, f: t.op == 'call' and t.a[0].op == 'func' and f is not None and t.a[0].a[0] == f.fid
    is_look = lambda t: t.op == 'gen' and t.a[0].a[0] == lst.get.fid or is_call(t, lst.get)

    def position(t):
        """The position a term stands for."""
        t = strip_at(t)
        for _ in range(8):
            if ext(t) in SAME and t.a[1] or ext(t) in ('builtins.float',):
                t = strip_at(t.a[1][0])
            elif is_call(t, norm):
                t = strip_at(list(bound_args(norm, t.a[1], t.a[2]).values())[1])
            else:
                break
        return t
    seen = set()
    stores, looks = 0, 0
    for name, ms in sorted(result.methods.items()):
        for f in ms:
            if name == '__init__' or ctx.prog.method_kind(f) == 'staticmethod':
                continue
            kind = ctx.prog.method_kind(f)
            if kind == 'classmethod':
                continue
            eng, rets, raises = ctx.analyse(f, self_term=me, monitor=Turns(lst), opaque=opaque, label=f.qual)
            ends = []
            for st, v in rets:
                v0 = strip_at(v)
                if v0.op in ('gen', 'genx') and not is_look(v0) or is_look(v0):
                    eng.sinks.append([])
                    eng.fstack.append((f, 'top', None))
                    try:
                        def use(s, e):
                            return eng.emit(Ev('yield', f.node, value=e), s), []
                        c, _ = eng.iterate(st, v, f.node, use)
                    finally:
                        eng.fstack.pop()
                        eng.sinks.pop()
                    ends += [(s, v) for s in c]
                else:
                    ends.append((st, v))
            for st, v in ends:
                for x in st.mon:
                    if x[0] == 'store':
                        if (f, x[3]) not in seen:
                            stores += 1
                            seen.add((f, x[3]))
                        judge_store(ctx, lst, st, x, position, is_call, frac)
                    elif x[0] == 'over':
                        it = strip_at(x[1])
                        for y in {y for y in walk(it) if isinstance(y, T) and is_look(y)}:
                            looks += 1
                            if (f, y) in seen:
                                continue
                            seen.add((f, y))
                            args = bound_args(lst.get, y.a[1], y.a[2])
                            judge_look(ctx, lst, st, ('look', tuple(args.items()), y) + x[-2:], position, is_call, frac, f)
                        if not is_look(it) and any(isinstance(y, T) and is_look(y) for y in walk(it)):
                            part_of(ctx, it, is_look, x, f)
                    elif x[0] == 'none' and any(isinstance(y, T) and is_look(y) for y in walk(x[1])):
                        look = next(y for y in walk(x[1]) if isinstance(y, T) and is_look(y))
                        judge_none(ctx, lst, st, x, look, position, is_call, frac, dist, f)
                    elif x[0] == 'value':
                        judge_value(ctx, x, is_look, position, is_call, dist, f)
    if not looks:
        ctx.undecided('query', result.name, 'no lookup found')
    if not stores:
        ctx.undecided('query', result.name, 'no storing found')


def the_frac(lst, f, a):
    return a.get(frac_param(f))


def judge_store(ctx, lst, st, x, position, is_call, frac):
    a = dict(x[1])
    loc, q = ctx.loc(x[-1], x[-2]), x[-1].qual
    fr = the_frac(lst, lst.add, a)
    val = [v for n, v in a.items() if n in single_param(lst.add) and n != frac_param(lst.add)]
    if fr is None or len(val) != 1:
        ctx.undecided('query', loc, 'arguments')
        return
    v = strip_at(val[0])
    fr = strip_at(fr)
    if not is_call(fr, frac):
        if position(fr) in (v, attr(v, 'pos')):
            ctx.bad('query', loc, q, 'stored by position instead of fractional coordinate')
        else:
            ctx.undecided('query', loc, 'fractional coordinate: %s' % show(fr)[:150])
        return
    p = position(list(fr.a[1])[1] if len(fr.a[1]) > 1 else dict(fr.a[2]).get('pos'))
    if p is v or p is attr(v, 'pos'):
        ctx.ok('query', '%s stores by its own position' % loc)
    elif not mentions(p, v) or p.op == 'attr' and p.a[0] is v:
        ctx.bad('query', loc, q, 'stored under another position: %s' % show(p))
    else:
        ctx.undecided('query', loc, 'position: %s' % show(p)[:150])


def judge_look(ctx, lst, st, x, position, is_call, frac, f):
    a = dict(x[1])
    loc, q = ctx.loc(x[-1], x[-2]), x[-1].qual
    fr = the_frac(lst, lst.get, a)
    if fr is None:
        ctx.undecided('query', loc, 'arguments')
        return
    fr = strip_at(fr)
    given = [T('in', n) for n in single_param(f)]
    if not is_call(fr, frac):
        if position(fr) in given:
            ctx.bad('query', loc, q, 'looked up by position instead of fractional coordinate')
        else:
            ctx.undecided('query', loc, 'fractional coordinate: %s' % show(fr)[:150])
        return
    p = position(list(fr.a[1])[1] if len(fr.a[1]) > 1 else dict(fr.a[2]).get('pos'))
    if p in given:
        ctx.ok('query', '%s (%s) looks up the position given' % (f.qual, loc))
    elif p.op == 'attr' and p.a[0] in given:
        ctx.ok('query', '%s (%s) looks up the position of what is given' % (f.qual, loc))
    elif p.op == 'elem' or not given:
        ctx.ok('query', '%s (%s) looks up %s' % (f.qual, loc, show(p)[:60]))
    else:
        ctx.undecided('query', loc, 'position: %s' % show(p)[:150])


def part_of(ctx, it, is_look, x, f):
    loc, q = ctx.loc(x[-1], x[-2]), x[-1].qual
    y = it
    for _ in range(6):
        if is_look(y):
            ctx.ok('query', '%s: all values' % loc)
            return
        n = ext(y)
        if n in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.reversed', 'builtins.enumerate') and y.a[1]:
            y = strip_at(y.a[1][0])
        elif n == 'itertools.islice' or y.op == 'sub' and y.a[1].op == 'slice':
            ctx.bad('query', loc, q, 'only some of the values in neighbouring cells are considered: %s' % show(it))
            return
        else:
            break
    if y.op == 'genx' or y.op == 'comp':
        return
    ctx.undecided('query', loc, 'values: %s' % show(it)[:150])


def judge_none(ctx, lst, st, x, look, position, is_call, frac, dist, f):
    """A value in a neighbouring cell that is not taken into account."""
    _, it, e, about, node, func = x
    loc, q = ctx.loc(func, node), func.qual
    here = {e, attr(e, 'pos')}
    given = {T('in', n) for n in single_param(f)}
    given |= {attr(t, 'pos') for t in given}

    def pair(a, b):
        a, b = position(a), position(b)
        return a in here and b in given or b in here and a in given
    verdicts = []
    for (k, v) in about:
        r = None
        t = k[1]
        n = ext(t) if k[0] == 'truth' else None
        arg = strip_at(t.a[1][0]) if n is not None and len(t.a[1]) == 1 else None
        if k[0] == 'truth' and t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('any', 'all') and not t.a[1]:
            n, arg = 'numpy.' + t.a[0].a[1], strip_at(t.a[0].a[0])
        if arg is not None and arg.op == 'cmp' and arg.a[0] in ('==', '!=') and pair(arg.a[1], arg.a[2]):
            some = n.endswith('any')
            if arg.a[0] == '!=':
                r = v is False and some or (False if v is False else None)
            else:
                r = v is True and not some or (False if v is True else None)
            if r is None:
                r = False
        elif n in ('numpy.array_equal', 'numpy.array_equiv') and len(t.a[1]) == 2 and pair(*t.a[1]):
            r = v is True
        elif n in ('numpy.allclose',) and len(t.a[1]) >= 2 and pair(*t.a[1][:2]):
            r = False
        elif k[0] == 'ord':
            a, b = strip_at(k[1]), strip_at(k[2])
            if is_call(a, dist) or is_call(b, dist):
                other, flip = (b, False) if is_call(a, dist) else (a, True)
                if is_const(other) and cval(other) == 0:
                    r = True if set(v) == {'='} else None
                elif other.op == 'attr' and other.a[1] == 'dist_cutoff':
                    r = True if set(v) <= {'<' if flip else '>', 'u'} else False if ('>' if flip else '<') in v else None
        elif k[0] == 'is' and v is True:
            r = True
        verdicts.append((r, k, v))
    text = '; '.join('%s is %s' % (' '.join(show(y) for y in k[1:] if isinstance(y, T)), v) for _, k, v in verdicts)
    if any(r is True for r, _, _ in verdicts):
        ctx.ok('query', '%s leaves out the position itself' % loc)
    elif not st.taint and any(r is False for r, _, _ in verdicts) and len(verdicts) == 1:
        ctx.bad('query', loc, q, 'values whose position is not the one given are left out: %s' % text)
    else:
        ctx.undecided('query', loc, 'some values are left out: %s' % text[:200])


def judge_value(ctx, x, is_look, position, is_call, dist, f):
    _, v, elems, node, func = x
    v = strip_at(v)
    es = [e for e in elems if isinstance(e, T) and any(isinstance(y, T) and is_look(y) for y in walk(e))]
    if not es or not is_call(v, dist):
        return
    loc, q = ctx.loc(func, node), func.qual
    here = {y for e in es for y in (e, attr(e, 'pos'))}
    given = {T('in', n) for n in single_param(f)}
    given |= {attr(t, 'pos') for t in given}
    a = [position(y) for y in list(bound_args(dist, v.a[1], v.a[2]).values())[1:]]
    if len(a) == 2 and (a[0] in here and a[1] in given or a[1] in here and a[0] in given):
        ctx.ok('query', '%s: distance to the position given' % loc)
    elif len(a) == 2 and (a[0] is a[1] or not any(y in here for y in a) and not any(mentions(y, e) for y in a for e in es)):
        ctx.bad('query', loc, q, 'not the distance between the value and the position given: %s' % show(v))
    else:
        ctx.undecided('query', loc, 'distance: %s' % show(v)[:150])


# -- distances to what was found ---------------------------------------------

def measure(ctx, rule, which=None):
    """The distances a container gives out are those of the coordinate system
    between the position given and every value found near it."""
    from ..engine import Ev
    roles = R.get(ctx.prog)
    result, coord = roles.cls('result'), roles.cls('coord')
    cls = cell_class(ctx, result)
    dist = ctx.prog.find_method(coord, 'distance')
    frac = ctx.prog.find_method(coord, 'get_frac')
    if cls is None or dist is None or frac is None:
        ctx.undecided(rule, result.name, 'cell list, distance or get_frac not found')
        return
    lst = List(ctx, cls)
    if lst.get is None:
        ctx.undecided(rule, cls.name, 'lookup not found')
        return
    me = self_of(result)
    opaque = {m.fid for ms in lst.cls.methods.values() for m in ms} | {m.fid for ms in coord.methods.values() for m in ms}
    is_call = lambda t, f: t.op == 'call' and t.a[0].op == 'func' and t.a[0].a[0] == f.fid
    is_look = lambda t: t.op == 'gen' and t.a[0].a[0] == lst.get.fid or is_call(t, lst.get)
    for name, ms in sorted(result.methods.items()):
        for f in ms:
            if 'distance' not in name or ctx.prog.method_kind(f) in ('staticmethod', 'classmethod', 'property') or not single_param(f):
                continue
            if which is not None and not which(f):
                continue
            given = {T('in', n) for n in single_param(f)}
            given |= {attr(t, 'pos') for t in given}
            eng, rets, raises = ctx.analyse(f, self_term=me, monitor=Turns(lst), opaque=opaque, label=f.qual)
            for st, v in rets:
                if st.taint:
                    ctx.undecided(rule, f.qual, 'imprecise path')
                    continue
                v = strip_at(v)
                if v.op in ('gen', 'genx'):
                    vals = []

                    def use(s, e):
                        vals.append(e)
                        return [s], []
                    eng.sinks.append([])
                    eng.fstack.append((f, 'top', None))
                    try:
                        eng.iterate(st, v, f.node, use)
                    finally:
                        eng.fstack.pop()
                        eng.sinks.pop()
                    for x in vals:
                        measured(ctx, rule, f, strip_at(x), given, is_call, is_look, dist)
                    continue
                collected(ctx, rule, f, st, v, given, is_call, is_look, dist)


def outside(t, stop):
    """Subterms that are not inside a term for which stop holds."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                todo += x
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        if not stop(x):
            todo += x.a


NUMERIC = ('bin', 'un', 'const', 'in', 'elem', 'attr', 'inst', 'ext', 'sub', 'slice', 'at')


def measured(ctx, rule, f, v, given, is_call, is_look, dist):
    """One distance."""
    if not any(is_look(y) for y in walk(v)):
        ctx.undecided(rule, f.qual, 'distance: %s' % show(v)[:120])
        return
    if is_call(v, dist):
        a = [plain_array(y) for y in list(bound_args(dist, v.a[1], v.a[2]).values())[1:]]
        here = [y for y in a if any(is_look(z) for z in walk(y))]
        there = [y for y in a if y in given]
        if len(a) == 2 and len(here) == 1 and len(there) == 1:
            h = strip_at(here[0].a[0]) if here[0].op == 'attr' else here[0]
            if h.op == 'elem' and (here[0] is h or here[0].a[1] == 'pos'):
                ctx.ok(rule, '%s: the distance of each value to the position given' % f.qual)
                return
        ctx.undecided(rule, f.qual, 'distance: %s' % show(v)[:120])
        return
    parts = list(outside(v, is_look))
    if v.op in ('call', 'bin', 'un') and all(y.op in NUMERIC or is_look(y) or y.op == 'call' and y.a[0].op == 'ext' for y in parts):
        ctx.bad(rule, ctx.loc(f), f.qual, 'the distance is not measured by the coordinate system: %s' % show(v)[:120])
        return
    ctx.undecided(rule, f.qual, 'distance: %s' % show(v)[:120])


def plain_array(t):
    t = strip_at(t)
    while ext(t) in SAME | {'builtins.list', 'builtins.tuple', 'builtins.iter'} and t.a[1]:
        t = strip_at(t.a[1][0])
    return t


def cut_of(t):
    """A constant slice that leaves something out."""
    if t.op != 'sub' or not isinstance(t.a[1], T) or t.a[1].op != 'slice':
        return False
    p = [x if not isinstance(x, T) else cval(x) if x.op == 'const' else x for x in t.a[1].a]
    if any(isinstance(x, T) for x in p) or any(ext(y) in ('builtins.sorted', 'numpy.sort') for y in walk(t)):
        return False
    return not (p[0] in (None, 0) and p[1] is None and p[2] in (None, 1, -1))


def collected(ctx, rule, f, st, v, given, is_call, is_look, dist):
    """Distances given as one array or list."""
    q = f.qual
    v = plain_array(v)
    if cut_of(v) and any(is_look(y) for y in walk(v)):
        ctx.bad(rule, ctx.loc(f), q, 'only some of the distances are given: %s' % show(v)[:120])
        return
    if v.op == 'obj':
        c = st.heap.get((v, '#'))
        if c is None or c.op != 'seq' or c.a[0]:
            return
        # nothing is near
        ok = None
        for k, val in st.facts.items():
            if not any(isinstance(y, T) and any(is_look(z) for z in walk(y)) for y in k[1:]):
                continue
            if k[0] == 'truth' and val is False:
                ok = True
            elif k[0] == 'ord':
                a, b = k[1], k[2]
                s = set(val)
                if a.op == 'const':
                    a, b = b, a
                    s = {{'<': '>', '>': '<'}.get(x, x) for x in s}
                size = a.op == 'attr' and a.a[1] == 'size' or ext(a) in ('builtins.len', 'numpy.size') or a.op == 'sub' and a.a[0].op == 'attr' and a.a[0].a[1] == 'shape'
                if size and b.op == 'const' and isinstance(cval(b), (int, float)):
                    n = cval(b)
                    top = n if '>' not in s and '=' in s else n - 1 if '>' not in s else None
                    if top is not None and top < 1:
                        ok = True
                    elif ok is None and top is not None and (a.op != 'attr' or n > 3):
                        ok = False
        if ok:
            ctx.ok(rule, '%s: no distances if nothing is near' % q)
        elif ok is False:
            ctx.bad(rule, ctx.loc(f), q, 'no distances are given although something may be near')
        else:
            ctx.undecided(rule, q, 'no distances')
        return
    if v.op == 'comp' and len(v.a[2]) == 1:
        if not v.a[2][0][2]:
            measured(ctx, rule, f, strip_at(v.a[1]), given, is_call, is_look, dist)
        return
    if is_call(v, dist):
        a = [plain_array(y) for y in list(bound_args(dist, v.a[1], v.a[2]).values())[1:]]
        here = [y for y in a if any(is_look(z) for z in walk(y))]
        if len(a) == 2 and len(here) == 1 and any(y in given for y in a):
            x = here[0]
            if any(cut_of(y) for y in outside(x, is_look)):
                ctx.bad(rule, ctx.loc(f), q, 'only some of the positions near are compared: %s' % show(x)[:120])
            elif x.op == 'comp' and len(x.a[2]) == 1 and not x.a[2][0][2] and strip_at(x.a[1]).op in ('attr', 'elem'):
                ctx.ok(rule, '%s: the distances of all values to the position given' % q)
            else:
                ctx.undecided(rule, q, 'positions: %s' % show(x)[:120])
            return
    if v.op in ('call', 'bin') and any(is_look(y) for y in walk(v)):
        parts = list(outside(v, is_look))
        if not any(y.op == 'func' or y.op == 'phi' for y in parts if not is_look(y)) and any(ext(y) in ('numpy.linalg.norm', 'scipy.linalg.norm', 'numpy.sqrt', 'numpy.hypot', 'math.dist') for y in parts) and all(y.op in NUMERIC + ('comp', 'genx', 'name', 'tuple', 'list', 'seq') or is_look(y) or y.op == 'call' and y.a[0].op == 'ext' for y in parts):
            ctx.bad(rule, ctx.loc(f), q, 'the distance is not measured by the coordinate system: %s' % show(v)[:120])
            return
    ctx.undecided(rule, q, 'distances: %s' % show(v)[:120])
