"""Values of terms over nested lists and arrays of known shape, whose entries
are unknown numbers: which entry ends up where, whatever the entries are."""

import itertools

from .terms import T, is_const, cval, const, show


class Unknown(Exception):
    pass


FAIL = (Unknown, RecursionError, TypeError, IndexError, ValueError, KeyError)


class Seq(list):
    """A list or tuple."""


class Arr(list):
    """A numpy array: operators act on its entries."""


class Lazy(Seq):
    """An iterator."""


def strip(t):
    while isinstance(t, T) and t.op == 'at':
        t = t.a[0]
    return t


def shape(v):
    if not isinstance(v, list):
        return ()
    if not v:
        return (0, )
    s = {shape(x) for x in v}
    if len(s) != 1:
        raise Unknown('ragged')
    return (len(v), ) + s.pop()


def arr(v):
    if isinstance(v, list):
        return Arr(arr(x) for x in v)
    return v


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def reshape(v, dims):
    items = flat(v)
    dims = list(dims)
    n = len(items)
    if -1 in dims:
        known = 1
        for d in dims:
            if d != -1:
                known *= d
        if not known or n % known:
            raise Unknown('reshape')
        dims[dims.index(-1)] = n // known
    total = 1
    for d in dims:
        total *= d
    if total != n:
        raise Unknown('reshape')

    def build(ds, xs):
        if not ds:
            return xs[0]
        step = len(xs) // ds[0] if ds[0] else 0
        return Arr(build(ds[1:], xs[i * step:(i + 1) * step]) for i in range(ds[0]))
    return build(dims, items)


def transpose(v, axes=None):
    s = shape(v)
    if len(s) < 2:
        return v
    axes = list(axes) if axes is not None else list(reversed(range(len(s))))
    axes = [a % len(s) for a in axes]

    def get(idx):
        x = v
        for i in idx:
            x = x[i]
        return x

    def build(k, chosen):
        if k == len(axes):
            idx = [0] * len(axes)
            for a, i in zip(axes, chosen):
                idx[a] = i
            return get(idx)
        return Arr(build(k + 1, chosen + [i]) for i in range(s[axes[k]]))
    return build(0, [])


COMMUTES = ('+', '*')


def op2(op, a, b):
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, Arr) or isinstance(b, Arr):
            sa, sb = shape(a), shape(b)
            if len(sa) > len(sb):
                return Arr(op2(op, x, arr(b)) if len(sa) > len(sb) else None for x in a)
            if len(sb) > len(sa):
                return Arr(op2(op, arr(a), y) for y in b)
            if sa[0] == sb[0]:
                return Arr(op2(op, x, y) for x, y in zip(arr(a), arr(b)))
            if sa[0] == 1:
                return Arr(op2(op, a[0], y) for y in b)
            if sb[0] == 1:
                return Arr(op2(op, x, b[0]) for x in a)
            raise Unknown('shapes')
        if op == '+' and isinstance(a, Seq) and isinstance(b, Seq):
            return Seq(list(a) + list(b))
        if op == '*' and isinstance(a, Seq) and isinstance(b, int):
            return Seq(list(a) * b)
        if op == '*' and isinstance(b, Seq) and isinstance(a, int):
            return Seq(list(b) * a)
        raise Unknown('operands')
    if not isinstance(a, (T, tuple)) and not isinstance(b, (T, tuple)):
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b}[op]()
        except (KeyError, TypeError, ZeroDivisionError):
            raise Unknown('operator')
    if op == '+' and b in (0, 0.0) and not isinstance(b, (T, tuple)) or op in ('*', '/') and b in (1, 1.0) and not isinstance(b, (T, tuple)) or op == '-' and b in (0, 0.0) and not isinstance(b, (T, tuple)):
        return a
    if op == '+' and a in (0, 0.0) and not isinstance(a, (T, tuple)) or op == '*' and a in (1, 1.0) and not isinstance(a, (T, tuple)):
        return b
    if op in COMMUTES and repr(b) < repr(a):
        a, b = b, a
    return ('op', op, a, b)


def along(v, axis, f):
    s = shape(v)
    if axis is None:
        return f(flat(v))
    if isinstance(axis, list):
        axes = sorted(a % len(s) for a in axis)
        if axes != list(range(len(axes))):
            raise Unknown('axes')
        rows = [v]
        for _ in axes[1:]:
            rows = [y for x in rows for y in x]
        return along(Arr(y for x in rows for y in x), 0, f) if len(axes) < len(s) else f(flat(v))
    if not isinstance(axis, int) or not s:
        raise Unknown('axis')
    axis %= len(s)
    if axis:
        return Arr(along(x, axis - 1, f) for x in v)
    if len(s) == 1:
        return f(list(v))
    return Arr(along(Arr(x[i] for x in v), 0, f) for i in range(s[1]))


def extreme(name):
    def f(xs):
        xs = [y for x in xs for y in (x[1] if type(x) is tuple and len(x) == 2 and x[0] == name else [x])]
        if all(not isinstance(x, (T, tuple)) for x in xs):
            return min(xs) if name == 'min' else max(xs)
        return (name, frozenset(xs)) if len(set(xs)) > 1 else xs[0]
    return f


MAXITEMS = 60
KEEP = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.vstack', 'numpy.stack', 'numpy.atleast_1d', 'numpy.row_stack'}


class Small:
    """Evaluates the terms of one analysis; env gives values of terms."""

    def __init__(self, env=()):
        self.env = dict(env)
        self.funcs = {}         # function id -> what it returns
        self.graphs = {}        # graph -> its nodes

    # -- hooks of the engine ----------------------------------------------
    def items(self, eng, st, it):
        try:
            v = self.opened(self.value(it, st, eng), st, eng)
        except FAIL:
            return None
        if not isinstance(v, list) or len(v) > MAXITEMS:
            return None
        try:
            return [self.term(x) for x in v]
        except Unknown:
            return [T('sub', it, const(i)) for i in range(len(v))]

    def opened(self, v, st, eng):
        """The elements of an object of a class that can be iterated over."""
        if not (isinstance(v, T) and v.op == 'inst'):
            return v
        c = eng.class_of(v)
        f = eng.prog.find_method(c, '__iter__') if c is not None else None
        if f is None:
            return v
        rs = eng.inline(f, T('func', f.fid, None), [v], [], st.copy(), f.node)
        if len(rs) != 1 or not isinstance(rs[0][1], T):
            raise Unknown('iterator')
        s, r = rs[0]
        if r.op == 'gen':
            out = []

            def h(s2, e):
                out.append(e)
                return [s2], []
            eng.iterate(s, r, f.node, h)
            if any(e.op == 'elem' for e in out):
                raise Unknown('generator')
            return Seq(self.value(e, s, eng) for e in out)
        return self.value(r, s, eng)

    def truth(self, eng, st, t):
        if t.op not in ('cmp', 'call', 'un', 'in', 'attr', 'sub', 'bin', 'obj', 'tuple', 'seqv'):
            return None
        try:
            v = self.value(t, st, eng)
        except FAIL:
            return None
        if isinstance(v, Arr):
            return None
        if isinstance(v, (bool, int, float, str, list)) or v is None:
            return bool(v)
        return None

    def term(self, v):
        if isinstance(v, Arr):
            return T('call', T('ext', 'numpy.array'), (T('tuple', tuple(self.term(x) for x in v)),), ())
        if isinstance(v, list):
            return T('tuple', tuple(self.term(x) for x in v))
        if isinstance(v, T):
            return v
        if isinstance(v, tuple):
            if v[0] == 'op':
                return T('bin', v[1], self.term(v[2]), self.term(v[3]))
            raise Unknown('term')
        return const(v)

    # -- values -------------------------------------------------------------
    def value(self, t, st, eng, depth=0):
        t = strip(t)
        if not isinstance(t, T) or depth > 60:
            raise Unknown('not a term')
        if t in self.env:
            return self.env[t]
        if self.funcs and t.op == 'call' and isinstance(t.a[0], T) and t.a[0].op == 'func' and t.a[0].a[0] in self.funcs:
            return self.funcs[t.a[0].a[0]]
        if self.graphs:
            g = self.graph_nodes(t)
            if g is not None:
                return g
        if is_const(t):
            return cval(t)
        rec = lambda y: self.value(y, st, eng, depth + 1)
        op = t.op
        if op in ('tuple', 'seqv'):
            if op == 'seqv' and t.a[0] not in ('list', 'tuple'):
                raise Unknown('set')
            return Seq(self.spread(t.a[0] if op == 'tuple' else t.a[1], rec))
        if op in ('obj', 'default'):
            c = st.heap.get((t, '#')) if st is not None else None
            if c is not None and c.op == 'seq' and (op == 'default' or t.a[0] in ('list', 'tuple', 'deque', 'set')):
                return Seq(self.spread(c.a[0], rec))
            raise Unknown('content %r' % (c and show(c, 9),))
        if op in ('in', 'inst'):
            return t
        if op == 'attr':
            if strip(t.a[0]).op in ('in', 'inst') and t.a[1] not in ('T', 'shape', 'ndim', 'size', 'flat'):
                if t not in self.env:
                    raise Unknown('attribute')
            b = rec(t.a[0])
            n = t.a[1]
            if isinstance(b, Arr):
                if n == 'T':
                    return transpose(b)
                if n == 'shape':
                    return Seq(shape(b))
                if n == 'ndim':
                    return len(shape(b))
                if n == 'size':
                    return len(flat(b))
                if n == 'flat':
                    return Seq(flat(b))
            raise Unknown('attribute')
        if op == 'sub':
            return self.index(rec(t.a[0]), t.a[1], rec)
        if op == 'bin':
            return op2(t.a[0], rec(t.a[1]), rec(t.a[2]))
        if op == 'un' and t.a[0] in ('-', 'USub'):
            return op2('-', 0, rec(t.a[1]))
        if op == 'un' and t.a[0] == 'not':
            v = rec(t.a[1])
            if isinstance(v, (T, tuple, Arr)):
                raise Unknown('truth')
            return not v
        if op == 'ifexp':
            v = rec(t.a[0])
            if isinstance(v, (T, tuple, Arr)):
                raise Unknown('truth')
            return rec(t.a[1]) if v else rec(t.a[2])
        if op == 'cmp':
            a, b = rec(t.a[1]), rec(t.a[2])
            if t.a[0] in ('is', 'is not', '==', '!=') and (a is None or b is None) and (isinstance(a, (T, tuple, list)) or isinstance(b, (T, tuple, list))):
                return t.a[0] in ('is not', '!=')      # unknown numbers and objects are never None
            if isinstance(a, (T, tuple)) or isinstance(b, (T, tuple)) or isinstance(a, list) or isinstance(b, list):
                raise Unknown('comparison')
            try:
                return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                        'is': lambda: a is b, 'is not': lambda: a is not b}[t.a[0]]()
            except (KeyError, TypeError):
                raise Unknown('comparison')
        if op == 'comp' and t.a[0] in ('list', 'gen') and len(t.a[2]) == 1 and not t.a[2][0][2]:
            return self.comp(t, st, eng, depth)
        if op == 'call':
            return self.call(t, st, eng, depth)
        raise Unknown(op)

    def graph_nodes(self, t):
        if t in self.graphs:
            return self.graphs[t]
        if t.op == 'attr' and t.a[1] in ('nodes', '_node'):
            return self.graphs.get(strip(t.a[0]))
        if t.op == 'call' and strip(t.a[0]).op == 'attr' and t.a[0].a[1] in ('nodes',) and not t.a[1]:
            return self.graphs.get(strip(t.a[0].a[0]))
        return None

    def comp(self, t, st, eng, depth):
        from .terms import subst
        var, it = t.a[2][0][0], t.a[2][0][1]
        vs = self.opened(self.value(it, st, eng, depth + 1), st, eng)
        if not isinstance(vs, list) or len(vs) > MAXITEMS:
            raise Unknown('iterable')
        out = []
        for v in vs:
            e = subst(t.a[1], {var: self.term(v)})
            out.append(self.value(e, st, eng, depth + 1))
        return Seq(out)

    def spread(self, items, rec):
        out = []
        for x in items:
            if isinstance(x, T) and x.op == 'star':
                v = rec(x.a[0])
                if not isinstance(v, list):
                    raise Unknown('star')
                out += v
            else:
                out.append(rec(x))
        return out

    def index(self, b, i, rec):
        if not isinstance(b, list):
            raise Unknown('subscript')
        i = strip(i)
        if i.op == 'slice':
            parts = [rec(y) if isinstance(y, T) else y for y in i.a]
            if any(isinstance(p, (T, tuple, list)) for p in parts):
                raise Unknown('slice')
            return type(b)(b[slice(*parts)])
        if i.op == 'tuple' and isinstance(b, Arr):
            first, rest = i.a[0][0], i.a[0][1:]
            if strip(first).op == 'const' and cval(strip(first)) is Ellipsis:
                full = len(shape(b)) - len(rest)
                rest = (T('slice', const(None), const(None), const(None)),) * full + tuple(rest)
                return self.index(b, T('tuple', tuple(rest)), rec)
            x = self.index(b, first, rec)
            if not rest:
                return x
            nxt = T('tuple', tuple(rest)) if len(rest) > 1 else rest[0]
            if strip(first).op == 'slice':
                return Arr(self.index(y, nxt, rec) for y in x)
            return self.index(x, nxt, rec)
        k = rec(i)
        if isinstance(k, bool) or not isinstance(k, int):
            raise Unknown('index')
        try:
            return b[k]
        except IndexError:
            raise Unknown('index')

    def call(self, t, st, eng, depth):
        from .rules.queues import ext as ename
        from .rules.graphs import method_of
        rec = lambda y: self.value(y, st, eng, depth + 1)
        n = ename(t)
        kw = dict(t.a[2]) if len(t.a) > 2 else {}
        if n is not None:
            args = self.spread(t.a[1], rec) if n != 'builtins.map' else None
            if n in KEEP or n.startswith(('builtins.', 'itertools.')):
                args = [self.opened(a, st, eng) for a in args or ()]
            return self.external(n, args, {k: v for k, v in kw.items()}, rec)
        b, m = method_of(t)
        if b is not None:
            v = rec(b)
            args = self.spread(t.a[1], rec)
            if isinstance(v, Arr):
                if m == 'reshape':
                    return reshape(v, args[0] if args and isinstance(args[0], list) else args)
                if m in ('copy', 'astype', 'view', '__array__'):
                    return v
                if m == 'tolist':
                    return self.plain(v)
                if m == 'transpose':
                    return transpose(v, (args[0] if isinstance(args[0], list) else args) if args else None)
                if m in ('flatten', 'ravel'):
                    return Arr(flat(v))
                if m in ('min', 'max'):
                    return along(v, rec(kw['axis']) if 'axis' in kw else (args[0] if args else None), extreme(m))
            elif isinstance(v, list) and m in ('copy', '__iter__'):
                return Seq(v)
            elif isinstance(v, str) and m in ('format', 'lower', 'upper', 'strip'):
                raise Unknown('text')
        raise Unknown('call')

    def plain(self, v):
        return Seq(self.plain(x) for x in v) if isinstance(v, list) else v

    def external(self, n, args, kw, rec):
        lists = lambda xs: all(isinstance(x, list) for x in xs)
        if n in KEEP and args:
            if 'ndmin' in kw:
                raise Unknown('ndmin')
            if n == 'numpy.stack' and ('axis' in kw or len(args) > 1):
                ax = rec(kw['axis']) if 'axis' in kw else args[1]
                v = arr(args[0])
                if ax == 0:
                    return v
                s = shape(v)
                if len(s) == 2 and ax in (1, -1):
                    return transpose(v)
                raise Unknown('stack')
            if n in ('numpy.atleast_1d',) and not isinstance(args[0], list):
                return Arr(args[:1])
            v = arr(args[0])
            shape(v)
            if n in ('numpy.vstack', 'numpy.row_stack'):
                s = shape(v)
                if len(s) == 3:
                    return Arr(y for x in v for y in x)
            return v
        if n in ('numpy.column_stack', ) and lists(args):
            return transpose(arr(args[0]))
        if n in ('numpy.concatenate',) and args and isinstance(args[0], list):
            ax = rec(kw['axis']) if 'axis' in kw else (args[1] if len(args) > 1 else 0)
            if ax == 0 and lists(args[0]):
                return Arr(y for x in arr(args[0]) for y in x)
            raise Unknown('concatenate')
        if n == 'numpy.transpose' and args:
            return transpose(arr(args[0]), args[1] if len(args) > 1 else None)
        if n == 'numpy.reshape' and len(args) > 1:
            return reshape(arr(args[0]), args[1] if isinstance(args[1], list) else [args[1]])
        if n in ('numpy.ravel',) and args:
            return Arr(flat(args[0]))
        if n in ('numpy.shape',) and args:
            return Seq(shape(args[0]))
        if n in ('numpy.zeros', 'numpy.ones') and args:
            d = args[0] if isinstance(args[0], list) else [args[0]]
            if any(not isinstance(x, int) for x in d):
                raise Unknown('shape')
            x = 0. if n.endswith('zeros') else 1.
            total = 1
            for k in d:
                total *= k
            if total > 1000:
                raise Unknown('size')
            return reshape(Seq([x] * total), d)
        if n in ('numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax') and args:
            ax = rec(kw['axis']) if 'axis' in kw else (args[1] if len(args) > 1 else None)
            return along(arr(args[0]), ax, extreme(n[-3:]))
        if n in ('numpy.mean', 'numpy.median', 'numpy.average', 'numpy.std', 'numpy.sum', 'numpy.ptp', 'numpy.prod') and len(args) <= 2 and set(kw) <= {'axis'} and args:
            ax = rec(kw['axis']) if 'axis' in kw else (args[1] if len(args) > 1 else None)
            return along(arr(args[0]), ax, lambda xs: (n, tuple(xs)))
        if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(args) <= 1:
            if not args:
                return Seq()
            if isinstance(args[0], list):
                return Seq(args[0])
            raise Unknown('list')
        if n == 'builtins.len' and len(args) == 1 and isinstance(args[0], list):
            return len(args[0])
        if n == 'builtins.zip' and lists(args):
            return Seq(Seq(x) for x in zip(*args))
        if n == 'itertools.zip_longest' and lists(args) and len({len(a) for a in args}) == 1:
            return Seq(Seq(x) for x in zip(*args))
        if n == 'builtins.enumerate' and args and isinstance(args[0], list):
            start = rec(kw['start']) if 'start' in kw else (args[1] if len(args) > 1 else 0)
            return Seq(Seq(x) for x in enumerate(args[0], start))
        if n == 'builtins.reversed' and lists(args):
            return Seq(reversed(args[0]))
        if n == 'builtins.range' and all(isinstance(x, int) for x in args):
            return Seq(range(*args))
        if n == 'itertools.chain' and lists(args):
            return Seq(y for x in args for y in x)
        if n == 'itertools.chain.from_iterable' and lists(args) and lists(args[0]):
            return Seq(y for x in args[0] for y in x)
        if n in ('itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement') and args and isinstance(args[0], list):
            r = args[1] if len(args) > 1 else rec(kw['r']) if 'r' in kw else None
            if not isinstance(r, int) and not (r is None and n.endswith('permutations')) or len(args[0]) > 8:
                raise Unknown('r')
            return Seq(Seq(x) for x in getattr(itertools, n.split('.')[1])(args[0], r))
        if n == 'itertools.product' and lists(args):
            rep = rec(kw['repeat']) if 'repeat' in kw else 1
            if rep > 3:
                raise Unknown('repeat')
            return Seq(Seq(x) for x in itertools.product(*args, repeat=rep))
        if n == 'itertools.islice' and args and isinstance(args[0], list) and all(x is None or isinstance(x, int) for x in args[1:]):
            return Seq(itertools.islice(args[0], *args[1:]))
        if n == 'itertools.pairwise' and lists(args):
            return Seq(Seq(x) for x in zip(args[0], args[0][1:]))
        if n in ('builtins.float', 'numpy.float64') and len(args) == 1:
            return args[0]
        if n in ('numpy.triu_indices',) and args and isinstance(args[0], int):
            k = rec(kw['k']) if 'k' in kw else (args[1] if len(args) > 1 else 0)
            prs = [(i, j) for i in range(args[0]) for j in range(args[0]) if j >= i + k]
            return Seq([Arr(i for i, j in prs), Arr(j for i, j in prs)])
        if n == 'builtins.isinstance' and len(args) == 2:
            raise Unknown('isinstance')
        raise Unknown(n)
