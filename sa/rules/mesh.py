"""The initial mesh: axes, products and starting simplices read as formulas in
the lower and upper limit and the number of points of one arbitrary dimension."""
import ast

from ..engine import strip_at
from ..num import Rat, Eval, Top, Wrong
from ..terms import T, cval, walk, show, is_const
from .. import roles as R
from . import start as ST
from .search import mentions
from .start import Start, News, LOAD, deps, queue_input, simplex_queue_of, clean


def stores_items(node):
    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' for x in ast.walk(node))


class Build(Start):
    """Additionally: arrays written item by item and lists that grow."""

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k in ('storesub', 'augassign', 'mutate') and eng.func.cls is None or k in ('storesub',):
            if k == 'storesub':
                x = ('store', root_of(ev.base), ev.base, ev.idx, ev.value, ev.aug, ev.loops, ev.node, eng.func)
            elif k == 'mutate' and ev.method == 'append' and ev.args:
                x = ('append', strip_at(ev.base), ev.args[0], ev.loops, ev.node, eng.func)
            elif k == 'mutate':
                x = ('other', root_of(ev.base), ev.method)
            else:
                x = None
            if x is not None:
                t = tuple(('turn', y[1], True) if y[0] == 'turn' else y for y in m)
                if x not in t and sum(1 for y in t if y[0] in ('store', 'append', 'other')) < 12:
                    t += (x,)
                return t
        if k in ('iter', 'iterend') and not ev.while_ and isinstance(ev.node, ast.For) and stores_items(ev.node):
            done = any(y[0] == 'turn' and y[1] == ev.loop and y[2] for y in m)
            m = tuple(y for y in m if not (y[0] == 'turn' and y[1] == ev.loop))
            if k == 'iter':
                return m + (('turn', ev.loop, False),)
            if not done and ('skipped', ev.loop) not in m:
                m += (('skipped', ev.loop),)
            return m
        return super().on(ev, m, st, eng)


def root_of(t):
    t = strip_at(t)
    while t.op == 'sub':
        t = strip_at(t.a[0])
    return t


def ext_call(t, *names):
    t = strip_at(t)
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in names


LISTS = ('builtins.list', 'builtins.tuple', 'builtins.iter', 'numpy.array', 'numpy.asarray')


def unwrap(t):
    t = strip_at(t)
    while ext_call(t, *LISTS) and len(t.a[1]) == 1:
        t = strip_at(t.a[1][0])
    return t


class Reader:
    """Formulas of one dimension; i: the terms that stand for its number."""

    def __init__(self, coord, n, eng):
        self.d = Rat()
        self.n, self.eng = n, eng
        self.l, self.u, self.m = (self.d.sym(x) for x in ('l', 'u', 'm'))
        self.coord = coord
        self.index = set()
        self.ev = Eval(self.d, self.leaf)

    def is_limits(self, t):
        t = strip_at(t)
        return t.op == 'attr' and t.a[0] is self.coord and t.a[1] == 'limits' or ext_call(t, 'numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1 and self.is_limits(t.a[1][0])

    def leaf(self, t):
        t = strip_at(t)
        d = self.d
        if self.is_limits(t):
            return ('row', (self.l, self.u))
        if t.op == 'attr' and t.a[0] is self.coord and t.a[1] == 'size':
            return d.sub(self.u, self.l)
        if t.op == 'in' and t.a[0] == 'initial_mesh_size':
            return self.m
        b = self.mixes(t)
        if b is not None:
            c = self.constant(b)
            return d.sym(t) if c is None else c
        if t.op == 'elem':
            b = strip_at(t.a[0])
            if self.reorders(b):
                c = self.constant(b.a[0] if b.op == 'sub' else b.a[1][0])
                return d.sym(t) if c is None else c
            return self.ev.value(b)
        if t.op == 'sub' and t.a[1] in self.index:
            return self.ev.value(t.a[0])
        if ext_call(t, 'builtins.int', 'numpy.int64', 'builtins.float') and len(t.a[1]) == 1:
            return self.ev.value(t.a[1][0])
        if t.op == 'comp' and t.a[0] != 'dict' and len(t.a[2]) == 1:
            e, it, conds = t.a[2][0]
            if conds:
                raise Top('conditions')
            new = {x for x in [e] if x.op in ('idx', 'elem')} - self.index
            new = {x for x in new if self.is_number(x)}
            self.index |= new
            self.all_of(it)
            try:
                return self.ev.value(t.a[1])
            finally:
                self.index -= new
        return None

    # a value of all dimensions, or of a fixed one
    def mixes(self, t):
        b = None
        if t.op == 'sub' and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            b = t.a[0]
        elif ext_call(t, *('builtins.%s' % x for x in ('max', 'min')), *('numpy.%s' % x for x in ('max', 'min', 'amax', 'amin', 'mean', 'average', 'median'))) and len(t.a[1]) == 1 and not t.a[2]:
            b = t.a[1][0]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('max', 'min', 'mean') and not t.a[1] and not t.a[2]:
            b = t.a[0].a[0]
        return b if b is not None and self.vector(b) else None

    def constant(self, b):
        """The number, if it is the same for all dimensions."""
        b = unwrap(b)
        if b.op == 'comp' and len(b.a[2]) == 1 and not any(x is b.a[2][0][0] for x in walk(b.a[1])) and not any(isinstance(x, T) and x.op in ('elem', 'idx') for x in walk(b.a[1])):
            return self.ev(b.a[1])
        return None

    def reorders(self, t):
        if ext_call(t, 'builtins.sorted', 'builtins.reversed', 'numpy.sort', 'numpy.flip', 'numpy.roll') and t.a[1]:
            return self.vector(t.a[1][0])
        if t.op == 'sub' and t.a[1].op == 'slice':
            p = [cval(x) if isinstance(x, T) and x.op == 'const' else x for x in t.a[1].a]
            return p == [None, None, -1] and self.vector(t.a[0])
        return False

    def vector(self, t):
        """One number for each dimension?"""
        t = unwrap(t)
        if t.op == 'in' and t.a[0] == 'initial_mesh_size' or t.op == 'attr' and t.a[0] is self.coord and t.a[1] == 'size':
            return True
        try:
            self.all_of(t)
            return not isinstance(self.ev.value(t), tuple)
        except Top:
            return False

    def is_number(self, x):
        return x.op == 'idx' or x.op == 'elem' and ext_call(x.a[0], 'builtins.range', 'numpy.arange')

    # every dimension?
    def all_of(self, it):
        it = strip_at(it)
        if self.reorders(it):
            return
        if it.op == 'call' and it.a[0].op == 'ext':
            n, args = it.a[0].a[0], list(it.a[1])
            if n in ('builtins.zip', 'builtins.enumerate', 'builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.asarray', 'builtins.iter') and args:
                if n == 'builtins.enumerate':
                    args = args[:1]
                for x in args:
                    self.all_of(x)
                return
            if n in ('builtins.range', 'numpy.arange'):
                if len(args) == 1:
                    return self.dim(args[0])
                if len(args) == 2 and is_const(args[0]):
                    if cval(args[0]) == 0:
                        return self.dim(args[1])
                    if isinstance(cval(args[0]), int) and cval(args[0]) > 0:
                        raise Wrong('not every dimension: %s' % show(it))
        if it.op == 'sub' and it.a[1].op == 'slice':
            p = [cval(x) if isinstance(x, T) and x.op == 'const' else x for x in it.a[1].a]
            if all(x is None for x in p) or p[0] in (0, None) and p[1] is None and p[2] in (1, None):
                return self.all_of(it.a[0])
            if isinstance(p[0], int) and p[0] > 0 and p[1] is None or isinstance(p[1], int) and p[1] < 0 and p[0] in (None, 0):
                raise Wrong('not every dimension: %s' % show(it))
            raise Top(show(it))
        if it.op == 'comp' and it.a[0] in ('list', 'gen') and len(it.a[2]) == 1 and not it.a[2][0][2]:
            return self.all_of(it.a[2][0][1])
        if self.is_limits(it) or it.op == 'in' and it.a[0] in ('limits', 'initial_mesh_size') or it.op == 'attr' and it.a[0] is self.coord and it.a[1] == 'size':
            return
        if it.op == 'bin' and it.a[0] in ('/', '*', '+', '-'):
            sides = [x for x in it.a[1:] if not is_const(x)]
            tops = []
            for x in sides:
                try:
                    self.all_of(x)
                except Wrong:
                    raise
                except Top as e:
                    tops.append(e)
            if len(tops) == len(sides):
                raise tops[0] if tops else Top('numbers')
            return
        raise Top('all dimensions? %s' % show(it))

    def dim(self, x):
        x = strip_at(x)
        if ext_call(x, 'builtins.len') and len(x.a[1]) == 1:
            return self.all_of(x.a[1][0])
        if x.op == 'attr' and x.a[1] == 'dim':
            return
        if x.op == 'bin' and x.a[0] == '-' and is_const(x.a[2]) and isinstance(cval(x.a[2]), int) and cval(x.a[2]) > 0:
            self.dim(x.a[1])
            raise Wrong('not every dimension: %s' % show(x))
        raise Top('number of dimensions? %s' % show(x))

    # points of one axis: (first, step, number)
    def axis(self, t):
        d = self.d
        t = strip_at(t)
        if t.op == 'call' and t.a[0].op == 'ext':
            n, args, kws = t.a[0].a[0], list(t.a[1]), dict(t.a[2])
            if n in LISTS and len(args) == 1:
                return self.axis(args[0])
            if n == 'numpy.linspace':
                names = ['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype', 'axis']
                kws.update(zip(names, args))
                if set(kws) - {'start', 'stop', 'num', 'endpoint'}:
                    raise Top(show(t))
                a, b = self.ev(kws['start']), self.ev(kws['stop'])
                num = self.ev(kws['num']) if 'num' in kws else d.const(50)
                ends = self.flag(kws['endpoint']) if 'endpoint' in kws else (True, True)
                one = d.const(1)
                return tuple((a, d.div(d.sub(b, a), d.sub(num, one) if e else num), num) for e in ends)
            if n in ('numpy.arange', 'builtins.range') and len(args) == 1 and not kws:
                return ((d.const(0), d.const(1), self.ev(args[0])),) * 2
            if n in ('numpy.add', 'numpy.multiply', 'numpy.subtract', 'numpy.divide') and len(args) == 2 and not kws:
                return self.axis(T('bin', {'add': '+', 'multiply': '*', 'subtract': '-', 'divide': '/'}[n[6:]], *args))
        if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/'):
            x, y = self.try_axis(t.a[1]), self.try_axis(t.a[2])
            if (x is None) == (y is None):
                raise Top(show(t))
            if x is not None:
                c = self.ev(t.a[2])
                f = {'+': lambda a, s, n: (d.add(a, c), s, n), '-': lambda a, s, n: (d.sub(a, c), s, n), '*': lambda a, s, n: (d.mul(a, c), d.mul(s, c), n), '/': lambda a, s, n: (d.div(a, c), d.div(s, c), n)}[t.a[0]]
                return tuple(f(*z) for z in x)
            c = self.ev(t.a[1])
            if t.a[0] in '+*':
                f = {'+': lambda a, s, n: (d.add(a, c), s, n), '*': lambda a, s, n: (d.mul(a, c), d.mul(s, c), n)}[t.a[0]]
                return tuple(f(*z) for z in y)
            raise Top(show(t))
        if t.op == 'sub' and t.a[1].op == 'slice':
            x = self.axis(t.a[0])
            p = [cval(y) if isinstance(y, T) and y.op == 'const' else y for y in t.a[1].a]
            if p[2] not in (None, 1) or not all(y is None or isinstance(y, int) for y in p):
                raise Top(show(t))
            for _ in range(p[0] or 0):
                x = tuple((d.add(a, s), s, d.sub(n, d.const(1))) for a, s, n in x)
            if p[1] is not None:
                if p[1] >= 0:
                    raise Top(show(t))
                x = tuple((a, s, d.add(n, d.const(p[1]))) for a, s, n in x)
            return x
        if t.op == 'comp' and t.a[0] in ('list', 'gen') and len(t.a[2]) == 1 and not t.a[2][0][2]:
            e, it, _ = t.a[2][0]
            x = self.axis(it)
            d_, k = self.d, d.sym('k')
            old = self.ev
            me = self
            self.ev = Eval(d, lambda y: k if strip_at(y) is strip_at(e) else me.leaf(y))
            try:
                v = self.ev(t.a[1])
            finally:
                self.ev = old
            raise Top('axis %s' % show(t)) if v is None else Top('axis as a list')
        raise Top('axis %s' % show(t))

    def try_axis(self, t):
        try:
            return self.axis(t)
        except Wrong:
            raise
        except Top:
            return None

    def periodic(self, t):
        t = strip_at(t)
        if t.op == 'attr' and t.a[1] == 'periodic' and t.a[0] is self.coord:
            return True
        if t.op == 'in' and t.a[0] == 'periodic':
            return True
        return ext_call(t, 'builtins.bool') and len(t.a[1]) == 1 and self.periodic(t.a[1][0])

    def is_periodic(self):
        """What the path knows about the periodicity."""
        for (key, val) in self.n.st.facts.items():
            if key[0] == 'truth' and isinstance(key[1], T) and self.periodic(key[1]):
                return val
        return None

    def flag(self, t):
        """Value of a condition: (if periodic, if not)."""
        t = strip_at(t)
        if is_const(t):
            return (bool(cval(t)),) * 2
        if t.op == 'un' and t.a[0] == 'not':
            x = self.flag(t.a[1])
            return tuple(not y for y in x)
        if self.periodic(t):
            return (True, False)
        raise Top('condition %s' % show(t))

    # the displacements: (position of the rows, value)
    def matrix(self, t, m):
        d = self.d
        base = strip_at(t)
        if ext_call(base, 'numpy.array', 'numpy.asarray') and len(base.a[1]) == 1:
            return self.matrix(base.a[1][0], m)
        if ext_call(base, 'numpy.vstack', 'numpy.concatenate', 'numpy.row_stack') and base.a[1]:
            xs = self.items(base.a[1][0])
            if xs is not None and len(xs) == 2:
                for k, (z, x) in ((1, xs), (0, xs[::-1])):
                    if self.zero(z):
                        kk, v = self.matrix(x, m)
                        if kk is not None:
                            raise Top(show(base))
                        return k, v
            raise Top('stencil %s' % show(base))
        if ext_call(base, 'numpy.diag', 'numpy.diagflat') and len(base.a[1]) == 1 and not base.a[2]:
            self.all_of(base.a[1][0])
            return None, self.ev(base.a[1][0])
        if ext_call(base, 'numpy.eye', 'numpy.identity') and base.a[1]:
            args, kws = list(base.a[1]), dict(base.a[2])
            kws.update(zip(['N', 'M', 'k'], args))
            if set(kws) - {'N', 'M', 'k'}:
                raise Top(show(base))
            if 'M' not in kws:
                self.dim(kws['N'])
                return None, d.const(1)
            self.dim_plus(kws['N'])
            self.dim(kws['M'])
            k = kws.get('k')
            if k is None:
                return 0, d.const(1)
            if is_const(k) and cval(k) in (0, -1):
                return -cval(k), d.const(1)
            raise Top(show(base))
        if base.op == 'bin' and base.a[0] in ('*', '/'):
            for x, y in ((base.a[1], base.a[2]), (base.a[2], base.a[1]))[:2 if base.a[0] == '*' else 1]:
                try:
                    k, v = self.matrix(x, m)
                except Wrong:
                    raise
                except Top:
                    continue
                w = self.ev(y)
                return k, (d.mul if base.a[0] == '*' else d.div)(v, w)
            raise Top('stencil %s' % show(base))
        if ext_call(base, 'numpy.zeros'):
            args, kws = list(base.a[1]), dict(base.a[2])
            shape = self.items(kws.get('shape', args[0] if args else None))
            if shape is None or len(shape) != 2:
                raise Top('shape %s' % show(base))
            self.dim(shape[1])
            self.dim_plus(shape[0])
            st = [x for x in m if x[0] in ('store', 'other') and x[1] is base]
            if any(x[0] == 'other' for x in st):
                raise Top('changed in place: %s' % show(base))
            if not st:
                return 'none', d.const(0)
            if len(st) > 1:
                raise Top('several stores')
            return self.store(st[0], m)
        raise Top('stencil %s' % show(base))

    def items(self, t):
        if t is None:
            return None
        t = strip_at(t)
        if t.op == 'tuple':
            return list(t.a[0])
        if t.op == 'seqv':
            return list(t.a[1])
        c = self.n.st.heap.get((t, '#'))
        if c is not None and c.op == 'seq' and not any(x.op == 'star' for x in c.a[0]):
            return list(c.a[0])
        return None

    def zero(self, t):
        t = strip_at(t)
        if ext_call(t, 'numpy.zeros', 'numpy.zeros_like'):
            return True
        xs = self.items(t)
        return xs is not None and len(xs) == 1 and self.zero(xs[0])

    def dim_plus(self, x):
        x = strip_at(x)
        if x.op == 'bin' and x.a[0] == '+' and is_const(x.a[2]):
            if cval(x.a[2]) == 1:
                return self.dim(x.a[1])
        if x.op == 'bin' and x.a[0] == '+' and is_const(x.a[1]) and cval(x.a[1]) == 1:
            return self.dim(x.a[2])
        raise Top('number of rows %s' % show(x))

    def store(self, ev, m):
        _, _, base, idx, value, aug, loops, node, func = ev
        if aug:
            raise Top('in place')
        base = strip_at(base)
        if base.op == 'sub':
            r, c = base.a[1], idx
            if strip_at(base.a[0]).op == 'sub':
                raise Top('index')
        elif idx.op == 'tuple' and len(idx.a[0]) == 2:
            r, c = idx.a[0]
        elif idx.op == 'slice':
            p = [cval(x) if isinstance(x, T) and x.op == 'const' else x for x in idx.a]
            k, v = self.matrix(value, m)
            if k is None and p in ([1, None, None], ):
                return 1, v
            if k is None and p == [None, -1, None]:
                return 0, v
            raise Top('rows %s' % show(idx))
        else:
            raise Top('index %s' % show(idx))
        # r = c + k
        if r.op == 'slice' and c.op == 'slice':
            return self.store((0, 0, root_of(base), r, value, aug, loops, node, func), m)
        off = lambda t: (t.a[1], cval(t.a[2])) if t.op == 'bin' and t.a[0] in '+-' and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) else (t.a[2], cval(t.a[1])) if t.op == 'bin' and t.a[0] == '+' and is_const(t.a[1]) and isinstance(cval(t.a[1]), int) else (t, 0)
        (ri, rk), (ci, ck) = off(r), off(c)
        if r.op == 'bin' and r.a[0] == '-':
            rk = -rk
        if c.op == 'bin' and c.a[0] == '-':
            ck = -ck
        if ri is not ci or len(loops) != 1:
            # vectorised: S[arange(1, dim + 1), arange(dim)]
            raise Top('index %s, %s' % (show(r), show(c)))
        lid, it, el = loops[0]
        start = 0
        i = ci
        if i.op == 'idx' and len(i.a) > 2 and is_const(i.a[2]) and isinstance(cval(i.a[2]), int):
            start = cval(i.a[2])
        elif i.op == 'elem' and ext_call(i.a[0], 'builtins.range', 'numpy.arange'):
            args = strip_at(i.a[0]).a[1]
            if len(args) == 2 and is_const(args[0]) and isinstance(cval(args[0]), int):
                start = cval(args[0])
                hi = strip_at(args[1])
                if start == 1 and hi.op == 'bin' and hi.a[0] == '+' and is_const(hi.a[2]) and cval(hi.a[2]) == 1:
                    self.dim(hi.a[1])
                    it = None
        else:
            raise Top('index %s' % show(i))
        if it is not None:
            self.all_of(it)
        if ck + start != 0:
            if ck + start in (1, -1):
                raise Wrong('the vertex of each dimension is displaced along another one')
            raise Top('columns')
        k = rk - ck
        self.index = {i} if start == 0 else {T('bin', '-', i, T('const', 'int', 1))}
        try:
            v = self.ev(value)
        finally:
            self.index = set()
        if ('skipped', lid) in m:
            return 'skip', v
        return k, v


def coordinate(n, roles, v):
    cls = roles.cls('coord')
    for t in list(walk(v)) + ST.reach(n.st, n.ctl):
        if isinstance(t, T) and t.op == 'inst' and t.a[0] == cls.cid:
            return t
    return None


def c30(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('axis', 'In each dimension the grid consists of m points from the lower to the upper limit: spacing (u - l) / m without the upper end if periodic, (u - l) / (m - 1) with both ends otherwise (rational functions of l, u, m).')
    ctx.rule('grid', 'The grid is the full Cartesian product of one axis per dimension, in the order of the dimensions, and no point is filtered out.')
    ctx.rule('simplex', 'Each grid point gives exactly one simplex: the point plus a matrix with one zero row and, for each dimension, one row whose only non-zero entry is (u - l) / (2 m) in that dimension.')
    ctx.assumptions += ['exact real arithmetic', 'periodic is a boolean, initial_mesh_size an integer or a sequence of integers']
    mon = Build(ctx.prog, roles)
    keepers = {g.fid for c in ctx.prog.classes.values() for g in [ctx.prog.find_method(c, 'add_objects')] if g is not None}
    eng, rets, raises = ctx.analyse(roles.run_async, monitor=mon, opaque=(set(roles.data_methods) - keepers) | {roles.main.fid}, max_states=600, label='run_async up to the scheduler')
    ctx.require(mon.runs, 'run_async does not reach the scheduler')
    found, bare, seen = False, [], set()
    for r in mon.runs:
        n = News(r)
        q = simplex_queue_of(roles, n)
        if q is None:
            continue
        given, added = queue_input(n, q)
        for v in ([given] if given is not None else []) + added:
            if 'initial_mesh_size' not in deps(eng, n.st, v, n):
                continue
            found = True
            key = (v, tuple(sorted(map(repr, (x for x in n.m if x[0] in ('skipped', 'store', 'append', 'other'))))), tuple((k, x) for k, x in n.st.facts.items() if k[0] == 'truth' and 'periodic' in show(k[1])))
            if key in seen:
                continue
            seen.add(key)
            one(ctx, roles, eng, n, v, bare)
    if not found:
        ctx.undecided('grid', 'initial mesh', 'no mesh is followed into the queue')
    if bare and not any(x[-1] for x in bare):
        _, msg, loc, q, _ = bare[0]
        ctx.bad('simplex', loc, q, msg)


def one(ctx, roles, eng, n, v, bare):
    node, func = n.node, n.func
    src = [x for x in n.m if x[0] == 'add' and x[2] is v]
    loc, q = (ctx.loc(src[0][5], src[0][4]), src[0][5].qual) if src else (ctx.loc(func, node), func.qual)
    st = [x for x in n.m if x[0] in ('store', 'append') and mentions(v, x[1])]
    if st:
        loc, q = ctx.loc(st[0][-1], st[0][-2]), st[0][-1].qual
    coord = coordinate(n, roles, v)
    what = 'initial mesh'
    if coord is None:
        ctx.undecided('grid', what, 'limits of the grid not followed')
        return
    rd = Reader(coord, n, eng)
    m = n.m
    if not clean(ctx, n.st, 'grid', what):
        return

    def run(rule, fn, text):
        try:
            r = fn()
        except Wrong as e:
            ctx.bad(rule, loc, q, '%s: %s' % (text, e))
            return
        except Top as e:
            ctx.undecided(rule, what, str(e)[:300])
            return
        if r is True:
            ctx.ok(rule, '%s (%s)' % (what, text))
        elif r is not None:
            ctx.bad(rule, loc, q, r)
    # the list of simplices
    v = unwrap(v)
    cut = sliced(v)
    if cut is not None:
        ctx.bad('grid', loc, q, 'some points of the mesh are left out: %s' % show(cut))
        return
    elt, src_, why = listed(rd, v, m)
    if why is not None:
        (ctx.bad('grid', loc, q, why[1]) if why[0] else ctx.undecided('grid', what, why[1]))
        return
    box = {}

    def points():
        t = src_
        for _ in range(6):
            t = unwrap(t)
            if sliced(t) is not None:
                raise Wrong(show(t))
            if ext_call(t, 'itertools.product'):
                break
            e, s, w = listed(rd, t, m)
            if w is not None:
                if w[0]:
                    raise Wrong(w[1])
                raise Top(w[1])
            if unwrap(e) is not unwrap(T('elem', s)) and strip_at(e) is not T('elem', s):
                ee = unwrap(e)
                if not (ee.op == 'elem' and unwrap(ee.a[0]) is unwrap(s)):
                    raise Top('point %s' % show(e))
            t = s
        else:
            raise Top('grid %s' % show(src_))
        args, kws = t.a[1], dict(t.a[2])
        if len(args) == 1 and args[0].op == 'star' and not kws:
            ax, s, w = listed(rd, unwrap(args[0].a[0]), m)
            if w is not None:
                raise (Wrong if w[0] else Top)(w[1])
            rd.all_of(s)
            box['axis'] = ax
            box['over'] = s
            return True
        raise Top('grid %s' % show(t))
    run('grid', points, 'the mesh is not the full product of all axes')

    def axis():
        d = rd.d
        e = strip_at(box['over'])
        rd.index = {x for x in walk(box['axis']) if isinstance(x, T) and x.op in ('idx', 'elem') and rd.is_number(x)}
        try:
            per, non = rd.axis(box['axis'])
        finally:
            rd.index = set()
        known = rd.is_periodic()
        size, one_ = d.sub(rd.u, rd.l), d.const(1)
        cases = [(True, 'periodic', per, (rd.l, d.div(size, rd.m), rd.m)), (False, 'not periodic', non, (rd.l, d.div(size, d.sub(rd.m, one_)), rd.m))]
        for p, name, got, want in cases:
            if known is not None and known is not p:
                continue
            for g, w, part in zip(got, want, ('first point', 'spacing', 'number of points')):
                if not g == w:
                    return 'a mesh axis has the wrong %s if the system is %s: %s' % (part, name, show(box['axis'], 8))
        return True
    if 'axis' in box:
        run('axis', axis, 'axis')

    def simplex():
        d = rd.d
        t = strip_at(elt)
        if ext_call(t, 'numpy.add') and len(t.a[1]) == 2:
            t = T('bin', '+', *t.a[1])
        for _ in range(3):
            if ext_call(t, 'numpy.array', 'numpy.asarray') and len(t.a[1]) == 1:
                t = strip_at(t.a[1][0])
        if t.op != 'bin' or t.a[0] not in '+-':
            raise Top('simplex %s' % show(t))

        def is_point(x):
            x = unwrap(x)
            return x.op == 'elem' and unwrap(x.a[0]) is unwrap(src_)
        sides = [x for x in t.a[1:] if is_point(x)]
        rest = [x for x in t.a[1:] if not is_point(x)]
        if len(sides) != 1:
            raise Top('simplex %s' % show(t))
        bare.append((what, '', loc, q, True))
        k, val = rd.matrix(rest[0], m)
        bare.pop()
        if t.a[0] == '-':
            if is_point(t.a[1]):
                val = d.neg(val)
            else:
                return 'the point is subtracted: %s' % show(t)
        bare.append((what, 'the vertices of the starting simplices are not displaced', loc, q, k != 'none'))
        if k == 'none':
            return None
        if k == 'skip':
            return 'a vertex of the starting simplices is not displaced in some dimension'
        if k not in (0, 1):
            return 'the rows of the starting simplices do not belong to the dimensions (offset %s)' % (k,)
        want = d.div(d.sub(rd.u, rd.l), d.mul(d.const(2), rd.m))
        if val == want:
            return True
        if val == d.neg(want):
            raise Top('negative displacement')
        return 'the displacement is not half the box size divided by the number of points'
    run('simplex', simplex, 'simplex')


def sliced(t):
    t = unwrap(t)
    if t.op == 'sub' and t.a[1].op == 'slice':
        p = [cval(x) if isinstance(x, T) and x.op == 'const' else x for x in t.a[1].a]
        if any(isinstance(x, int) and x not in (0,) for x in p[:2]) or isinstance(p[2], int) and abs(p[2]) != 1:
            return t
    return None


def listed(rd, v, m):
    """(element, iterable) of a list with one element per item; or a reason:
    (definite, text)."""
    v = unwrap(v)
    if v.op == 'comp' and v.a[0] in ('list', 'gen'):
        if len(v.a[2]) != 1:
            return None, None, (False, 'nested loops')
        e, it, conds = v.a[2][0]
        if conds:
            about = any(x is strip_at(e) or x is e for c in conds for x in walk(c))
            return None, None, (about, 'some points are left out: %s' % ', '.join(show(c) for c in conds))
        return v.a[1], it, None
    if ext_call(v, 'builtins.map') and len(v.a[1]) == 2:
        return None, None, (False, 'map')
    if v.op == 'obj':
        apps = [x for x in m if x[0] == 'append' and x[1] is v]
        if len(apps) == 1 and len(apps[0][3]) == 1 and not any(x[0] in ('other', 'store') and x[1] is v for x in m):
            lid, it, el = apps[0][3][0]
            if ('skipped', lid) in m:
                return None, None, (True, 'some points are left out')
            return apps[0][2], it, None
    return None, None, (False, 'not a list with one element for each item: %s' % show(v))
