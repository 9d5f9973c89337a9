"""
Abstract interpretation of array algorithms (the minimiser).

The state of an array is a *content* term that says which rows it holds in
terms of earlier contents:

  arr(src)            rows of the array given
  map(f, c)           the result of f for every row of c
  perm(c, i)          rows of c in the order i
  set(c, i, x)        c with row i replaced by x
  sets(c, lo, hi, x)  c with the rows lo .. hi - 1 replaced by x, a function of
                      the row number J
  phi(loop, place)    what a place holds at the head of a loop

Loops run to a fixpoint; relations between places (one array is the map of
another, an array is sorted, a counter counts the calls, two lists were
extended in step) are assumed at the head, and dropped until the remaining
ones hold on every way back to it.  There is one interpretation for all sizes.
"""
import ast
from fractions import Fraction

from .loader import Function, Class, Module
from .terms import T, walk

WIDTH = T('width')
NONE = T('const', None)
ONE_ = T('const', 1)
TRUE = T('const', True)
FALSE = T('const', False)


class Unsupported(Exception):
    pass


def show(t, depth=7):
    if not isinstance(t, T):
        return '(%s)' % ', '.join(show(x, depth) for x in t) if isinstance(t, tuple) else str(t)
    if depth <= 0:
        return '..'
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == 'const':
        return str(float(a[0])) if isinstance(a[0], Fraction) else repr(a[0])
    if o in ('in', 'ext'):
        return str(a[0])
    if o == 'lin':
        parts = ['%s%s' % ('' if k == 1 else '-' if k == -1 else '%s*' % (float(k) if k.denominator > 1 else k), s(x)) for x, k in a[1]]
        return '(' + ' + '.join(parts + ([str(float(a[0]) if a[0].denominator > 1 else a[0])] if a[0] else [])) + ')'
    if o == 'app':
        return '%s(%s)' % (s(a[0]), s(a[1]))
    if o == 'row':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'J':
        return 'j'
    if o == 'width':
        return 'dim'
    if o == 'phi':
        return str(a[-1]).split('.')[-1] + '~'
    if o in ('lt', 'eq'):
        return '%s %s %s' % (s(a[0]), '<' if o == 'lt' else '==', s(a[1]))
    if o == 'ap':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def const(v):
    if isinstance(v, float) and v == v and abs(v) != float('inf'):
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return T('const', v)


def isnum(t):
    return t.op == 'const' and isinstance(t.a[0], (int, float, Fraction)) and not isinstance(t.a[0], bool)


def lin_parts(t):
    """(constant, {term: coefficient})"""
    if isnum(t) and t.a[0] == t.a[0] and abs(t.a[0]) != float('inf'):
        return Fraction(t.a[0]), {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return T('lin', Fraction(c), tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, k=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, x in db.items():
        d[t] = d.get(t, 0) + k * x
    return mk_lin(ca + k * cb, d)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: x * k for t, x in d.items()})


def difference(a, b):
    """a - b if it is a known number."""
    c, d = lin_parts(add(a, b, -1))
    return c if not d else None


def sub(t, old, new):
    """t with a term replaced."""
    memo = {}

    def go(x):
        if x is old:
            return new
        if x in memo:
            return memo[x]
        if not any(y is old for y in walk(x)):
            memo[x] = x
            return x
        if x.op == 'lin':
            r = const(x.a[0])
            for y, k in x.a[1]:
                r = add(r, scale(go(y), k))
        elif x.op == 'row':
            r = get(go(x.a[0]), go(x.a[1]))
        else:
            r = T(x.op, *rec(x.a))
        memo[x] = r
        return r

    def rec(a):
        return tuple(go(y) if isinstance(y, T) else rec(y) if isinstance(y, tuple) else y for y in a)
    return go(t)


# ----------------------------------------------------------------------
# contents

def size_of(c):
    """Number of rows: a simplex has one more than there are dimensions."""
    return add(WIDTH, const(1))


def same_index(c, i, j):
    """True / False / None: do two row numbers name the same row?"""
    if i is j:
        return True
    if isnum(i) and isnum(j):
        x, y = i.a[0], j.a[0]
        if (x >= 0) == (y >= 0):
            return x == y
        # number of rows is at least 2
        n, p = (x, y) if x < 0 else (y, x)
        if p == 0 and n == -1:
            return False
        return None
    if j.op == 'J':
        i, j = j, i
    if i.op == 'J':
        lo, hi = i.a
        if isnum(j) and j.a[0] >= 0 and isnum(lo) and j.a[0] < lo.a[0]:
            return False
        return None
    return None


def get(c, i):
    """Row i of a content."""
    if c.op == 'map':
        return T('app', c.a[0], get(c.a[1], i))
    if c.op == 'set':
        s = same_index(c, c.a[1], i)
        if s is True:
            return c.a[2]
        if s is False:
            return get(c.a[0], i)
    if c.op == 'sets':
        _, lo, hi, x = c.a
        if i.op == 'J' and i.a[0] is lo and i.a[1] is hi:
            return x
        if isnum(i) and i.a[0] >= 0 and isnum(lo):
            if i.a[0] < lo.a[0]:
                return get(c.a[0], i)
    return T('row', c, i)


def mk_set(c, i, x):
    if c.op == 'map' and x.op == 'app' and x.a[0] is c.a[0]:
        return T('map', c.a[0], mk_set(c.a[1], i, x.a[1]))
    return T('set', c, i, x)


def mk_sets(c, lo, hi, x):
    if c.op == 'map' and x.op == 'app' and x.a[0] is c.a[0]:
        return T('map', c.a[0], mk_sets(c.a[1], lo, hi, x.a[1]))
    return T('sets', c, lo, hi, x)


def mk_perm(c, i):
    if c.op == 'map':
        return T('map', c.a[0], mk_perm(c.a[1], i))
    return T('perm', c, i)


def paired(f, v):
    """f holds the values of exactly the rows of v."""
    return f.op == 'map' and f.a[1] is v


def mapped(elt, src):
    """Content of an array made of elt for every row of src."""
    c, lo, hi = src
    J = T('J', lo, hi)
    if elt.op == 'app' and elt.a[1] is get(c, J) and lo is const(0) and hi is size_of(c):
        return T('map', elt.a[0], c)
    return None


# ----------------------------------------------------------------------

def direct(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from direct(x)


class St:
    __slots__ = ('frames', 'store', 'facts', 'g', 'marks', 'taint', 'sorted', 'zipped', 'note', 'shared')

    def __init__(self):
        self.frames, self.store, self.facts = {}, {}, {}
        self.g = const(0)
        self.marks = ()          # (loop, head) of the loops we are in
        self.taint = frozenset()
        self.sorted = frozenset()
        self.zipped = frozenset()
        self.shared = frozenset()  # (list at a head, array that may be in it)
        self.note = ()

    def copy(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.store, s.facts = dict(self.store), dict(self.facts)
        s.g, s.marks, s.taint, s.sorted, s.zipped, s.note, s.shared = self.g, self.marks, self.taint, self.sorted, self.zipped, self.note, self.shared
        return s

    def key(self):
        return (tuple(sorted((k, tuple(sorted(v.items()))) for k, v in self.frames.items())), frozenset(self.store.items()), frozenset(self.facts.items()), self.g, self.taint, self.sorted, self.zipped, self.shared)

    def tainted(self, why):
        self.taint |= {why}


PURE = ('numpy.', 'math.', 'itertools.', 'functools.', 'operator.', 'scipy.', 'builtins.')
IMPURE = {'builtins.print', 'builtins.setattr', 'builtins.exec', 'builtins.eval', 'builtins.next', 'builtins.iter', 'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal',
          'numpy.random.shuffle', 'builtins.open', 'builtins.delattr', 'builtins.input', 'numpy.put_along_axis'}
ARRAY = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.ascontiguousarray', 'numpy.stack', 'numpy.vstack', 'copy.copy', 'copy.deepcopy'}
ALIAS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray'}
FLOATS = {'builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.double', 'numpy.longdouble', 'numpy.complex128', 'builtins.complex'}
ARG1 = {'numpy.ravel', 'numpy.amax', 'numpy.amin'}


class Interp:
    def __init__(self, prog, user, result_classes=()):
        self.prog, self.user = prog, user
        self.results = {c.cid for c in result_classes}
        self.rec = []            # (kind, state, data)
        self.n = 0
        self.sites = {}
        self.depth = 0
        self.loops = 0
        self.functions = set()
        self.fns = {}            # fn id -> (Function, frame id)
        self.steps = 0
        self.reads = None
        self.loopstack = []
        self.drops = []          # relations a turn of an outermost loop breaks

    # -- places ----------------------------------------------------------
    def site(self, node, tag=''):
        return '%s:%s:%s%s' % (self.here.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)

    def new(self, st, node, content, tag=''):
        base = self.site(node, tag) + '/' + str(self.depth)
        i = 0
        while T('ref', base, i) in st.store:
            i += 1
        r = T('ref', base, i)
        st.store[r] = content
        return r

    def kind(self, st, v):
        return st.store[v].op if v.op == 'ref' and v in st.store else None

    def array(self, st, v):
        """Content of an array, None for anything else."""
        if v.op == 'ref':
            x = st.store.get(v)
            if x is not None and x.op == 'A':
                return x.a[0]
        return None

    def snap(self, st, v):
        """The value now, with everything mutable replaced by its content."""
        memo = {}

        def go(x, d=0):
            if x in memo:
                return memo[x]
            r = x
            if d > 12:
                return T('deep')
            if x.op == 'ref':
                y = st.store.get(x)
                if y is None:
                    r = x
                elif y.op == 'A':
                    r = y.a[0]
                elif y.op == 'Lst':
                    r = T('list', tuple(go(z, d + 1) for z in y.a[0]))
                elif y.op == 'LApp':
                    r = T('LApp', go(y.a[0], d + 1) if y.a[0].op != 'Lphi' else y.a[0], go(y.a[1], d + 1))
                elif y.op == 'Comp':
                    r = T('comp', go(y.a[0], d + 1), y.a[1])
                elif y.op == 'Dct':
                    r = T('dict', tuple((k, go(z, d + 1)) for k, z in y.a[0]))
                elif y.op == 'Obj':
                    r = T('object', y.a[0], tuple((k, go(z, d + 1)) for k, z in y.a[1]))
                else:
                    r = y
            elif x.op == 'view':
                c = self.array(st, x.a[0])
                r = get(c, x.a[1]) if c is not None else T('opaque', x)
            elif x.op in ('fn', 'ext', 'cls', 'mod', 'const', 'coro'):
                r = x
            elif any(y.op in ('ref', 'view') for y in walk(x) if y is not x):
                if x.op == 'lin':
                    r = const(x.a[0])
                    for y, k in x.a[1]:
                        r = add(r, scale(go(y, d + 1), k))
                else:
                    r = T(x.op, *rec(x.a, d + 1))
            memo[x] = r
            return r

        def rec(a, d):
            return tuple(go(y, d) if isinstance(y, T) else rec(y, d) if isinstance(y, tuple) else y for y in a)
        return go(v)

    # -- conditions --------------------------------------------------------
    def known(self, st, atom):
        """True / False / None"""
        if atom.op == 'const':
            return bool(atom.a[0])
        if atom.op == 'lt':
            d = difference(atom.a[0], atom.a[1])
            if d is not None:
                return d < 0
        if atom.op == 'eq':
            if atom.a[0] is atom.a[1]:
                return True
            d = difference(atom.a[0], atom.a[1])
            if d is not None:
                return d == 0
            if all(x.op == 'const' for x in atom.a):
                return atom.a[0].a[0] == atom.a[1].a[0]
        if atom.op == 'isnone':
            x = atom.a[0]
            if x is NONE:
                return True
            if x.op in ('const', 'ref', 'lin', 'app', 'row', 'ap', 'tuple', 'fn', 'list', 'comp', 'map', 'perm', 'set', 'sets', 'arr', 'rows', 'view', 'object', 'coro'):
                return False
        if atom in st.facts:
            return st.facts[atom]
        if atom.op == 'lt' and T('lt', atom.a[1], atom.a[0]) in st.facts and st.facts[T('lt', atom.a[1], atom.a[0])]:
            return False
        if atom.op == 'truth' and T('isnone', atom.a[0]) in st.facts and st.facts[T('isnone', atom.a[0])]:
            return False
        return None

    def split(self, st, cond):
        """[(state, bool)] for a condition value."""
        if cond.op == 'not':
            return [(s, not b) for s, b in self.split(st, cond.a[0])]
        if cond.op in ('and', 'or'):
            out, live = [], [st]
            for i, x in enumerate(cond.a[0]):
                nxt = []
                for s in live:
                    for s2, b in self.split(s, x):
                        if b == (cond.op == 'or'):
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                live = nxt
            return out + [(s, cond.op == 'and') for s in live]
        if cond.op == 'view':
            cond = self.snap(st, cond)
        if cond.op == 'const':
            return [(st, bool(cond.a[0]))]
        if cond.op == 'ref':
            x = st.store.get(cond)
            if x is not None and x.op in ('Lst', 'Dct'):
                return [(st, bool(x.a[0]))]
            if x is not None and x.op in ('Obj', 'LApp'):
                return [(st, True)]
        if cond.op in ('fn', 'cls', 'ext'):
            return [(st, True)]
        if cond.op == 'tuple':
            return [(st, bool(cond.a[0]))]
        atom = cond if cond.op in ('lt', 'eq', 'isnone') else T('truth', self.snap(st, cond))
        k = self.known(st, atom)
        if k is not None:
            return [(st, k)]
        a, b = st.copy(), st.copy()
        a.facts[atom], b.facts[atom] = True, False
        return [(a, True), (b, False)]

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.snap_cond(st, a), self.snap_cond(st, b)
            if b is NONE:
                r = T('isnone', a)
            elif a is NONE:
                r = T('isnone', b)
            elif a.op == 'const' and b.op == 'const':
                r = const(a.a[0] is b.a[0])
            elif b.op == 'const' and isinstance(b.a[0], bool):
                r = T('truth', a) if b.a[0] else T('not', T('truth', a))
            else:
                r = T('truth', T('is', a, b))
            return T('not', r) if isinstance(op, ast.IsNot) else r
        a, b = self.snap(st, a), self.snap(st, b)
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.GtE):
            return T('not', self.lt(a, b))
        if isinstance(op, ast.LtE):
            return T('not', self.lt(b, a))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            x, y = (a, b) if a.id <= b.id else (b, a)
            r = T('eq', x, y)
            return T('not', r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = T('truth', T('in', a, b))
            return T('not', r) if isinstance(op, ast.NotIn) else r
        raise Unsupported('comparison')

    def snap_cond(self, st, v):
        return v if v.op == 'ref' else self.snap(st, v)

    def lt(self, a, b):
        """a < b with all terms that do not belong to the smaller side moved."""
        return T('lt', a, b)

    # -- expressions -------------------------------------------------------
    def name(self, st, fr, n, node):
        f, fid = self.here, fr
        while True:
            env = st.frames.get(fid, {})
            if n in env:
                return env[n]
            up = self.parents.get(fid)
            if up is None:
                break
            fid = up
        r = self.prog.resolve_name(f.module, n)
        return self.resolved(st, r, n)

    def resolved(self, st, r, n=None):
        if isinstance(r, Function):
            return self.closure(r, None)
        if isinstance(r, Class):
            return T('cls', r.cid)
        if isinstance(r, Module):
            return T('mod', r.name)
        if isinstance(r, str):
            return T('ext', r)
        if isinstance(r, tuple) and r[0] == 'expr':
            try:
                v = self.prog.const_expr(r[1], ast.Name(id=r[2], ctx=ast.Load()))
            except Exception:
                v = None
            if isinstance(v, (int, float, str)) and not isinstance(v, T):
                return const(v)
            return T('glob', r[1].name, r[2])
        raise Unsupported('name %s' % n)

    def closure(self, f, fid):
        k = (f.fid, fid)
        self.fns[k] = (f, fid)
        return T('fn', f.fid, fid)

    def ev(self, st, fr, node):
        """[(state, value)]"""
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('too long')
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(st, fr, node)

    def evs(self, st, fr, nodes):
        """[(state, [values])]"""
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, fr, n):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_Constant(self, st, fr, node):
        return [(st, const(node.value) if not isinstance(node.value, (bytes, type(...))) else T('const', repr(node.value)))]

    def e_Name(self, st, fr, node):
        return [(st, self.name(st, fr, node.id, node))]

    def e_NamedExpr(self, st, fr, node):
        out = []
        for s, v in self.ev(st, fr, node.value):
            self.bind(s, fr, node.target, v, node)
            out.append((s, v))
        return out

    def e_Tuple(self, st, fr, node):
        return [(s, T('tuple', tuple(vs))) for s, vs in self.items(st, fr, node.elts)]

    def items(self, st, fr, elts):
        out = []
        for s, vs in self.evs(st, fr, [e.value if isinstance(e, ast.Starred) else e for e in elts]):
            flat = []
            for e, v in zip(elts, vs):
                if isinstance(e, ast.Starred):
                    xs = self.sequence(s, v)
                    if xs is None:
                        raise Unsupported('starred element')
                    flat += xs
                else:
                    flat.append(v)
            out.append((s, flat))
        return out

    def sequence(self, st, v):
        """Elements of a tuple or list of known length."""
        if v.op == 'tuple':
            return list(v.a[0])
        if v.op == 'ref':
            x = st.store.get(v)
            if x is not None and x.op == 'Lst':
                return list(x.a[0])
        return None

    def e_List(self, st, fr, node):
        return [(s, self.new(s, node, T('Lst', tuple(vs)))) for s, vs in self.items(st, fr, node.elts)]

    def e_Dict(self, st, fr, node):
        out = []
        for s, vs in self.evs(st, fr, [k for k in node.keys if k is not None] + node.values):
            ks, vals = vs[:len([k for k in node.keys if k is not None])], vs[len([k for k in node.keys if k is not None]):]
            ks = iter(ks)
            d = {}
            for k, v in zip(node.keys, vals):
                if k is None:
                    x = s.store.get(v) if v.op == 'ref' else None
                    if x is None or x.op != 'Dct':
                        raise Unsupported('** of an unknown mapping')
                    d.update(x.a[0])
                else:
                    d[next(ks)] = v
            out.append((s, self.new(s, node, T('Dct', tuple(d.items())))))
        return out

    def e_JoinedStr(self, st, fr, node):
        return [(st, T('text'))]

    def e_Lambda(self, st, fr, node):
        f = self.here.module.nested.get(node)
        return [(st, self.closure(f, fr))]

    def e_IfExp(self, st, fr, node):
        out = []
        for s, c in self.ev(st, fr, node.test):
            for s2, b in self.split(s, c):
                out += self.ev(s2, fr, node.body if b else node.orelse)
        return out

    def e_BoolOp(self, st, fr, node):
        stop = isinstance(node.op, ast.Or)
        out, live = [], [(st, None)]
        for i, n in enumerate(node.values):
            nxt = []
            for s, _ in live:
                for s2, v in self.ev(s, fr, n):
                    if i == len(node.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.split(s2, v):
                        if b == stop:
                            out.append((s3, v if v.op not in ('lt', 'eq', 'isnone', 'not', 'and', 'or', 'truth') else const(b)))
                        else:
                            nxt.append((s3, None))
            live = nxt
        return out

    def e_Compare(self, st, fr, node):
        out = []
        for s, vs in self.evs(st, fr, [node.left] + node.comparators):
            parts = [self.compare(s, op, a, b) for op, a, b in zip(node.ops, vs, vs[1:])]
            out.append((s, parts[0] if len(parts) == 1 else T('and', tuple(parts))))
        return out

    def e_UnaryOp(self, st, fr, node):
        out = []
        for s, v in self.ev(st, fr, node.operand):
            if isinstance(node.op, ast.Not):
                if v.op == 'not':
                    out.append((s, v.a[0]))
                elif v.op == 'const':
                    out.append((s, const(not v.a[0])))
                else:
                    out.append((s, T('not', v)))
            elif isinstance(node.op, ast.USub):
                v = self.snap(s, v)
                out.append((s, const(-v.a[0]) if isnum(v) else scale(v, Fraction(-1))))
            elif isinstance(node.op, ast.UAdd):
                out.append((s, self.snap(s, v)))
            else:
                out.append((s, T('ap', '~', (self.snap(s, v),), ())))
        return out

    def e_BinOp(self, st, fr, node):
        return [(s, self.binop(s, node.op, a, b, node)) for s, (a, b) in self.evs(st, fr, [node.left, node.right])]

    def binop(self, st, op, a, b, node):
        ka, kb = self.kind(st, a), self.kind(st, b)
        if isinstance(op, ast.Add) and ka in ('Lst', 'LApp', 'Lphi') and kb == 'Lst':
            x = st.store[a]
            for y in st.store[b].a[0]:
                x = T('Lst', x.a[0] + (y,)) if x.op == 'Lst' else T('LApp', x, y)
            return self.new(st, node, x)
        if isinstance(op, ast.Mult) and ka == 'Lst' and isnum(b) and isinstance(b.a[0], int) and b.a[0] < 20:
            return self.new(st, node, T('Lst', st.store[a].a[0] * b.a[0]))
        if isinstance(op, ast.Add) and a.op == 'tuple' and b.op == 'tuple':
            return T('tuple', a.a[0] + b.a[0])
        a, b = self.snap(st, a), self.snap(st, b)
        for x in (a, b):
            if x.op in ('fn', 'cls', 'text', 'dict', 'object'):
                return T('ap', type(op).__name__, (a, b), ())
        if any(x.op == 'const' and not isnum(x) for x in (a, b)):
            return T('ap', type(op).__name__, (a, b), ())
        if any(isnum(x) and (x.a[0] != x.a[0] or abs(x.a[0]) == float('inf')) for x in (a, b)):
            return T('ap', type(op).__name__, (a, b), ())
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return add(a, b, -1)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isnum(x):
                    return scale(y, Fraction(x.a[0]))
        if isinstance(op, ast.Div) and isnum(b) and b.a[0] != 0:
            return scale(a, 1 / Fraction(b.a[0]))
        if isinstance(op, ast.Pow) and isnum(a) and isnum(b):
            try:
                return const(a.a[0] ** b.a[0])
            except Exception:
                pass
        return T('ap', type(op).__name__, (a, b), ())

    def e_Starred(self, st, fr, node):
        raise Unsupported('starred')

    def e_Attribute(self, st, fr, node):
        out = []
        for s, b in self.ev(st, fr, node.value):
            out.append((s, self.getattr(s, b, node.attr, node)))
        return out

    def getattr(self, st, b, name, node):
        if b.op == 'ext':
            return T('ext', b.a[0] + '.' + name)
        if b.op == 'mod':
            return self.resolved(st, self.prog.member(self.prog.modules[b.a[0]], name), name)
        if b.op == 'ref':
            x = st.store.get(b)
            if x is not None and x.op == 'Obj':
                d = dict(x.a[1])
                if name in d:
                    return d[name]
                cls = self.prog.classes[x.a[0]]
                m = self.prog.find_method(cls, name)
                if m is not None:
                    k = self.prog.method_kind(m)
                    return T('bound', self.closure(m, None), b if k != 'staticmethod' else None) if k in ('method', 'staticmethod') else T('prop', self.closure(m, None), b)
                raise Unsupported('attribute %s' % name)
            if x is not None and x.op == 'A':
                c = x.a[0]
                if name == 'shape':
                    return T('shape', c)
                if name == 'size' and c.op == 'map':
                    return size_of(c)
                if name == 'T':
                    return T('ap', 'T', (c,), ())
        if b.op == 'cls':
            m = self.prog.find_method(self.prog.classes[b.a[0]], name)
            if m is not None:
                return self.closure(m, None)
            a = self.prog.find_class_attr(self.prog.classes[b.a[0]], name)
            return T('clsattr', b.a[0], name)
        return T('bound', T('meth', name), b)

    def e_Subscript(self, st, fr, node):
        out = []
        for s, (b, i) in self.evs(st, fr, [node.value, node.slice]):
            out.append((s, self.getitem(s, b, i, node)))
        return out

    def e_Slice(self, st, fr, node):
        parts = [node.lower, node.upper, node.step]
        out = []
        for s, vs in self.evs(st, fr, [p for p in parts if p is not None]):
            it = iter(vs)
            lo, hi, step = [self.snap(s, next(it)) if p is not None else NONE for p in parts]
            out.append((s, T('slice', lo, hi, step)))
        return out

    def row_index(self, c, i):
        if isnum(i):
            return i
        if i.op == 'J':
            return i
        # N + 1 - k written as a number of rows
        d = difference(i, size_of(c))
        if d is not None and d < 0:
            return const(d)
        n = WIDTH
        d = difference(i, n)
        if d is not None and d - 1 < 0:
            return const(d - 1)
        return None

    def getitem(self, st, b, i, node):
        if b.op == 'view':
            return T('ap', 'item', (self.snap(st, b), self.snap(st, i)), ())
        if b.op == 'argsort' and i is T('slice', NONE, NONE, const(-1)):
            return T('ap', 'order', (b,), ())
        if b.op == 'range' and i.op == 'slice' and i.a[2] in (NONE, ONE_) and all(x is NONE or isnum(x) for x in i.a[:2]) and b.a[1] is not T('inf'):
            lo, hi = b.a[0], b.a[1]
            if i.a[0] is not NONE:
                lo = add(b.a[0] if i.a[0].a[0] >= 0 else b.a[1], i.a[0])
            if i.a[1] is not NONE:
                hi = add(b.a[0] if i.a[1].a[0] >= 0 else b.a[1], i.a[1])
            return T('range', lo, hi)
        if b.op == 'shape' and isnum(i):
            c = b.a[0]
            return size_of(c) if i.a[0] == 0 else WIDTH
        seq = self.sequence(st, b)
        if seq is not None:
            if isnum(i) and -len(seq) <= i.a[0] < len(seq):
                return seq[int(i.a[0])]
            if i.op == 'slice' and all(x is NONE or isnum(x) for x in i.a):
                part = seq[slice(*[None if x is NONE else int(x.a[0]) for x in i.a])]
                return T('tuple', tuple(part)) if b.op == 'tuple' else self.new(st, node, T('Lst', tuple(part)))
            return T('ap', 'item', (self.snap(st, b), self.snap(st, i)), ())
        if b.op == 'ref':
            x = st.store.get(b)
            if x is not None and x.op == 'A':
                c = x.a[0]
                if i.op == 'tuple' and len(i.a[0]) == 2 and i.a[0][1] in (T('slice', NONE, NONE, NONE), T('const', 'Ellipsis')):
                    i = i.a[0][0]
                i = self.snap(st, i)
                if i.op == 'argsort' or i.op == 'ap' and i.a[0] == 'order':
                    return self.new(st, node, T('A', mk_perm(c, i), x.a[1]))
                j = self.row_index(c, i) if i.op not in ('slice', 'tuple') else None
                if j is None and i.op == 'argmin':
                    j = i
                if j is not None:
                    self.read(b, j)
                    if self.scalars(c):
                        return get(c, j)
                    return T('view', b, j)
                if i.op == 'slice':
                    self.read(b, i)
                    lo = const(0) if i.a[0] is NONE else self.row_index(c, i.a[0]) or i.a[0]
                    if i.a[1] is NONE and i.a[2] is NONE and isnum(lo) and lo.a[0] >= 0:
                        return T('rowsof', b, lo, size_of(c))
                    return T('ap', 'item', (c, i), ())
                self.read(b, T('any'))
                return T('ap', 'item', (c, i), ())
            if x is not None and x.op == 'LApp' and isnum(i) and i.a[0] == -1:
                return x.a[1]
            if x is not None and x.op == 'Dct':
                for k, v in x.a[0]:
                    if k is i:
                        return v
                raise Unsupported('item of a mapping')
        return T('ap', 'item', (self.snap(st, b), self.snap(st, i)), ())

    def scalars(self, c):
        """Is it an array of values rather than of positions?"""
        while c.op in ('perm', 'set', 'sets'):
            c = c.a[0]
        return c.op == 'map' or c.op == 'phi' and c.a[1] == 'F'

    def read(self, ref, i):
        if self.reads is not None:
            self.reads.append((ref, i))

    def e_Await(self, st, fr, node):
        out = []
        for s, v in self.ev(st, fr, node.value):
            out += self.awaited(s, v, node)
        return out

    def awaited(self, st, v, node):
        if v.op == 'coro':
            if v.a[0] is self.user:
                x = self.snap(st, v.a[1][0]) if len(v.a[1]) == 1 and not v.a[2] else T('callargs', v.a[1], v.a[2])
                self.rec.append(('eval', st.copy(), x, node, v.a[1][0] if v.a[1] else None))
                s = st
                s.g = add(s.g, const(1))
                return [(s, T('app', self.user, x))]
            return self.call_fn(st, v.a[0], list(v.a[1]), list(v.a[2]), node, run=True)
        if v.op == 'gather':
            return self.run_all(st, v.a[0], node)
        if v.op == 'coros':
            raise Unsupported('await of a list')
        st.tainted('await of %s' % show(v))
        return [(st, T('ap', 'await', (self.snap(st, v),), ()))]

    def run_all(self, st, lst, node):
        """All coroutines of a list, results in the order of the list."""
        if lst.op == 'ref':
            x = st.store.get(lst)
            if x is not None and x.op == 'Lst':
                out = [(st, [])]
                for c in x.a[0]:
                    out = [(s2, vs + [v]) for s, vs in out for s2, v in self.awaited(s, c, node)]
                return [(s, self.new(s, node, T('Lst', tuple(vs)))) for s, vs in out]
            if x is not None and x.op == 'Comp':
                lst = T('comp', x.a[0], x.a[1])
        if lst.op == 'comp':
            elt, src = lst.a
            return self.each(st, src, lambda s, J: self.awaited(s, elt, node), node)
        if lst.op == 'tuple':
            out = [(st, [])]
            for c in lst.a[0]:
                out = [(s2, vs + [v]) for s, vs in out for s2, v in self.awaited(s, c, node)]
            return [(s, T('tuple', tuple(vs))) for s, vs in out]
        raise Unsupported('gather of %s' % show(lst))

    # -- comprehensions ----------------------------------------------------
    def source(self, st, v):
        """What is iterated over: (content, lo, hi) rows, ('range', lo, hi), or
        a pure term."""
        if v.op == 'ref':
            x = st.store.get(v)
            if x is not None and x.op == 'A':
                return T('src', x.a[0], const(0), size_of(x.a[0]))
            if x is not None and x.op == 'Comp':
                return T('comp', x.a[0], x.a[1])
        if v.op == 'rowsof':
            c = self.array(st, v.a[0])
            if c is not None:
                return T('src', c, v.a[1], v.a[2])
        if v.op == 'range':
            return v
        if v.op in ('zip', 'enumerate'):
            return T(v.op, tuple(self.source(st, x) for x in v.a[0]))
        return self.snap(st, v)

    def generic(self, st, src):
        """(row number, element) of a source."""
        if src.op == 'src':
            J = T('J', src.a[1], src.a[2])
            return J, get(src.a[0], J)
        if src.op == 'range':
            J = T('J', src.a[0], src.a[1])
            return J, J
        if src.op == 'comp':
            return self.generic(st, src.a[1])[0], src.a[0]
        if src.op == 'zip':
            parts = [self.generic(st, x) for x in src.a[0]]
            return parts[0][0], T('tuple', tuple(x[1] for x in parts))
        if src.op == 'enumerate':
            J, e = self.generic(st, src.a[0][0])
            return J, T('tuple', (J, e))
        return None, T('elem', src)

    def each(self, st, src, body, node, unroll=True):
        """Run body for every element, result the list of values."""
        locs, cand = set(), set()
        for _ in range(8):
            head = st.copy()
            self.enter(head, st, locs, node, cand)
            n0, r0 = len(self.rec), self.reads
            self.reads = []
            J, elem = self.generic(head, src)
            self.loopstack.append('each')
            try:
                outs = body(head.copy(), (J, elem))
            finally:
                self.loopstack.pop()
                reads, self.reads = self.reads, r0
            ch = set()
            for s, v in outs:
                ch |= self.changed(head, s)
            if not ch <= locs:
                locs |= ch
                cand = {r for r in self.relations(st, locs) if r[0] in ('g', 'const', 'own')}
                del self.rec[n0:]
                continue
            good = {r for r in cand if self.unused(r, cand) or all(r in self.relations(s, locs) for s, _ in outs)}
            if good != cand:
                cand = good
                del self.rec[n0:]
                continue
            vals = {self.snap(s, v) if v.op not in ('fn', 'coro') else v for s, v in outs}
            for l in locs:
                if l[0] == 'cell' and st.store.get(l[1]) is not None and st.store[l[1]].op == 'A':
                    raise Unsupported('array changed in a comprehension')
            after = self.leave(st, head, [s for s, _ in outs], locs, node, src)
            if len(vals) != 1:
                v = T('alt', tuple(sorted(vals, key=lambda x: x.id)))
            else:
                v, = vals
            return [(after, self.new(after, node, T('Comp', v, src), 'c'))]
        raise Unsupported('comprehension does not stabilise')

    def e_ListComp(self, st, fr, node):
        if len(node.generators) != 1 or node.generators[0].ifs:
            if len(node.generators) == 1 or True:
                return self.opaque_comp(st, fr, node)
        g = node.generators[0]
        out = []
        for s, it in self.ev(st, fr, g.iter):
            seq = self.sequence(s, it)
            if seq is not None and len(seq) <= 8:
                cur = [(s, [])]
                for x in seq:
                    nxt = []
                    for s2, vs in cur:
                        saved = dict(s2.frames[fr])
                        self.bind(s2, fr, g.target, x, node)
                        for s3, v in self.ev(s2, fr, node.elt):
                            nxt.append((s3, vs + [v]))
                    cur = nxt
                for s2, vs in cur:
                    self.unbind(s2, fr, g.target, s)
                    out.append((s2, self.new(s2, node, T('Lst', tuple(vs)))))
                continue
            src = self.source(s, it)

            def body(s2, je, g=g):
                self.bind(s2, fr, g.target, je[1], node)
                res = self.ev(s2, fr, node.elt)
                for s3, _ in res:
                    self.unbind(s3, fr, g.target, s)
                return res
            out += self.each(s, src, body, node)
        return out

    e_GeneratorExp = e_ListComp

    def opaque_comp(self, st, fr, node):
        if any(isinstance(x, (ast.Await, ast.NamedExpr)) for x in ast.walk(node)):
            raise Unsupported('comprehension')
        return [(st, T('ap', 'comprehension', tuple(sorted({self.snap(st, v) for n in ast.walk(node) if isinstance(n, ast.Name) for v in [st.frames[fr].get(n.id)] if v is not None}, key=lambda x: x.id)), (('at', self.site(node)),)))]

    def unbind(self, st, fr, target, before):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                if n.id in before.frames[fr]:
                    st.frames[fr][n.id] = before.frames[fr][n.id]
                else:
                    st.frames[fr].pop(n.id, None)

    # -- calls ---------------------------------------------------------------
    def e_Call(self, st, fr, node):
        out = []
        plain = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
        for s, vs in self.evs(st, fr, [node.func] + plain + [k.value for k in node.keywords]):
            f, args, kws = vs[0], vs[1:1 + len(plain)], vs[1 + len(plain):]
            flat = []
            for a, v in zip(node.args, args):
                if isinstance(a, ast.Starred):
                    xs = self.sequence(s, v)
                    flat += xs if xs is not None else [T('star', v)]
                else:
                    flat.append(v)
            kwl = []
            for k, v in zip(node.keywords, kws):
                if k.arg is None:
                    x = s.store.get(v) if v.op == 'ref' else None
                    if x is not None and x.op == 'Dct' and all(kk.op == 'const' for kk, _ in x.a[0]):
                        kwl += [(kk.a[0], vv) for kk, vv in x.a[0]]
                    else:
                        kwl.append(('**', v))
                else:
                    kwl.append((k.arg, v))
            out += self.call(s, f, flat, kwl, node)
        return out

    def call(self, st, f, args, kws, node):
        if f is self.user:
            return [(st, T('coro', f, tuple(args), tuple(kws)))]
        if f.op == 'fn':
            return self.call_fn(st, f, args, kws, node)
        if f.op == 'bound':
            if f.a[0].op == 'meth':
                return self.method(st, f.a[1], f.a[0].a[0], args, kws, node)
            return self.call_fn(st, f.a[0], ([f.a[1]] if f.a[1] is not None else []) + args, kws, node)
        if f.op == 'cls':
            return self.construct(st, self.prog.classes[f.a[0]], args, kws, node)
        if f.op == 'ext':
            return self.external(st, f.a[0], args, kws, node)
        if f.op == 'prop':
            raise Unsupported('property')
        return self.unknown(st, f, args, kws, node)

    def unknown(self, st, f, args, kws, node):
        for v in list(args) + [v for _, v in kws]:
            if self.callables(v) or any(x.op in ('ref', 'view') for x in walk(v)):
                st.tainted('call of %s' % show(f))
        return [(st, T('ap', show(f), tuple(self.snap(st, a) for a in args), tuple((k, self.snap(st, v)) for k, v in kws)))]

    def call_fn(self, st, f, args, kws, node, run=False):
        fn, up = self.fns[f.a]
        if fn.is_async and not run:
            return [(st, T('coro', f, tuple(args), tuple(kws)))]
        if fn.is_generator:
            raise Unsupported('generator function')
        if any(not isinstance(d, ast.Name) or d.id not in ('staticmethod', 'export') for d in fn.decorators()):
            raise Unsupported('decorated function %s' % fn.name)
        if self.depth > 8:
            raise Unsupported('recursion')
        self.functions.add(fn.fid)
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        env = {}
        rest = list(args)
        if any(x.op == 'star' for x in rest):
            raise Unsupported('starred argument')
        for p in pos:
            if rest:
                env[p] = rest.pop(0)
        if a.vararg:
            env[a.vararg.arg] = T('tuple', tuple(rest))
        elif rest:
            raise Unsupported('arguments')
        extra = []
        for k, v in kws:
            if k in pos + kwo and k not in env:
                env[k] = v
            elif a.kwarg and k != '**':
                extra.append((const(k), v))
            else:
                raise Unsupported('arguments')
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwo, a.kw_defaults) if d is not None})
        self.n += 1
        fid = 'f%d' % self.count(st, fn.fid)
        fid = '%s#%s' % (fn.fid, fid)
        self.parents[fid] = up
        s = st
        here, self.here = self.here, fn
        self.depth += 1
        try:
            s.frames[fid] = env
            if a.kwarg:
                env[a.kwarg.arg] = self.new(s, fn.node, T('Dct', tuple(extra)))
            for p in pos + kwo:
                if p not in env:
                    if p not in defaults:
                        raise Unsupported('missing argument')
                    got = self.ev(s, fid, defaults[p])
                    (s, v), = got
                    s.frames[fid][p] = v
            if isinstance(fn.node, ast.Lambda):
                res = [('return', s2, v) for s2, v in self.ev(s, fid, fn.node.body)]
            else:
                res = self.block(s, fid, fn.node.body)
        finally:
            self.here = here
            self.depth -= 1
        out = []
        for k, s2, v in res:
            if k == 'raise':
                continue
            v = v if k == 'return' and v is not None else NONE
            if not self.escapes(s2, v, fid):
                s2.frames.pop(fid, None)
            out.append((s2, v))
        return out

    def count(self, st, fid):
        i = 0
        while '%s#f%d' % (fid, i) in st.frames:
            i += 1
        return i

    def escapes(self, st, v, fid):
        """Is there a closure over the frame?"""
        vals = [v] + [x for k, e in st.frames.items() if k != fid for x in e.values()] + list(st.store.values())
        return any(y.op == 'fn' and y.a[1] == fid for x in vals for y in walk(x))

    def construct(self, st, cls, args, kws, node):
        if cls.cid in self.results:
            self.rec.append(('result', st.copy(), args, kws, node))
            v = T('made', cls.cid, tuple(self.snap(st, a) for a in args), tuple((k, self.snap(st, x)) for k, x in kws))
            return [(st, v)]
        if self.prog.ext_bases(cls) and any(str(b) not in ('builtins.object',) for b in self.prog.ext_bases(cls)):
            raise Unsupported('class %s' % cls.name)
        r = self.new(st, node, T('Obj', cls.cid, ()))
        init = self.prog.find_method(cls, '__init__')
        if init is None:
            return [(st, r)]
        return [(s, r) for s, _ in self.call_fn(st, self.closure(init, None), [r] + args, kws, node)]

    def external(self, st, name, args, kws, node):
        kw = dict(kws)
        if name in ('asyncio.gather',):
            if kws and not (set(kw) <= {'return_exceptions', 'loop'}):
                raise Unsupported('gather')
            if len(args) == 1 and args[0].op == 'star':
                return [(st, T('gather', args[0].a[0]))]
            return [(st, T('gather', T('tuple', tuple(args))))]
        if any(x.op == 'star' for x in args) or '**' in kw:
            return self.unknown(st, T('ext', name), [x.a[0] if x.op == 'star' else x for x in args], kws, node)
        if name == 'builtins.len' and len(args) == 1:
            return [(st, self.length(st, args[0]))]
        if name == 'builtins.range' and args and not kws:
            a = [self.snap(st, x) for x in args]
            if len(a) == 1:
                return [(st, T('range', const(0), a[0]))]
            if len(a) == 2:
                return [(st, T('range', a[0], a[1]))]
        if name in ('builtins.zip', 'builtins.enumerate') and args and not kws and (name != 'builtins.enumerate' or len(args) == 1):
            return [(st, T(name.split('.')[1], tuple(args)))]
        if name in ('builtins.list', 'builtins.tuple') and len(args) == 1:
            x = args[0]
            if x.op == 'range' or self.kind(st, x) == 'Comp':
                return [(st, x)]
            seq = self.sequence(st, x)
            if seq is not None:
                return [(st, self.new(st, node, T('Lst', tuple(seq))) if name.endswith('list') else T('tuple', tuple(seq)))]
        if name == 'builtins.list' and not args:
            return [(st, self.new(st, node, T('Lst', ())))]
        if name == 'builtins.dict':
            d = {}
            if len(args) == 1 and self.kind(st, args[0]) == 'Dct':
                d.update(st.store[args[0]].a[0])
            elif args:
                raise Unsupported('dict')
            d.update({const(k): v for k, v in kws})
            return [(st, self.new(st, node, T('Dct', tuple(d.items()))))]
        if name in ARRAY and args:
            got = self.to_array(st, name, args, kw, node)
            if got is not None:
                return got
        if name in ('numpy.argsort',) and args:
            c = self.value_array(st, args[0])
            if c is not None and set(kw) <= {'kind', 'axis', 'stable'} and len(args) == 1 and kw.get('axis', const(-1)) in (const(-1), const(0)):
                return [(st, T('argsort', c))]
            x = self.snap(st, args[0])
            if x.op == 'lin' and len(args) == 1 and not kws and any(y.op == 'map' for y, _ in x.a[1]):
                return [(st, T('argsort', x))]
        if name == 'numpy.argmin' and len(args) == 1 and not kws:
            c = self.value_array(st, args[0])
            if c is not None:
                return [(st, T('argmin', c))]
        if name == 'numpy.take' and len(args) >= 2:
            c = self.array(st, args[0])
            ax = args[2] if len(args) > 2 else kw.get('axis')
            i = self.snap(st, args[1])
            if c is not None and (i.op == 'argsort' or i.op == 'ap' and i.a[0] == 'order') and (ax is const(0) or self.scalars(c) and ax in (None, const(-1), NONE)):
                return [(st, self.new(st, node, T('A', mk_perm(c, i), st.store[args[0]].a[1])))]
        if name == 'builtins.float' and len(args) == 1 and not isnum(args[0]):
            v = self.snap(st, args[0])
            if v.op == 'app':
                return [(st, v)]
        if name == 'builtins.float' and len(args) == 1 and args[0].op == 'const' and isinstance(args[0].a[0], str):
            return [(st, const(float(args[0].a[0])))]
        if name in ('builtins.float', 'builtins.int') and len(args) == 1 and isnum(args[0]):
            return [(st, const({'builtins.float': float, 'builtins.int': int}[name](args[0].a[0])))]
        if name == 'builtins.bool' and len(args) == 1 and args[0].op in ('lt', 'eq', 'isnone', 'not', 'and', 'or', 'truth', 'const'):
            return [(st, args[0] if args[0].op != 'const' else const(bool(args[0].a[0])))]
        if name == 'itertools.count':
            return [(st, T('range', self.snap(st, args[0]) if args else const(0), T('inf')))]
        if name in ('numpy.any', 'numpy.all') and len(args) == 1 and args[0].op in ('lt', 'eq', 'not'):
            pass
        if name in IMPURE or not name.startswith(PURE):
            if name.split('.')[0] in ('warnings', 'logging', 'time', 'asyncio'):
                if name == 'asyncio.sleep' or name.startswith(('warnings.', 'logging.', 'time.')):
                    return [(st, T('ap', name, (), ()))]
            return self.unknown(st, T('ext', name), args, kws, node)
        for k in kws:
            if k[0] == 'out':
                return self.unknown(st, T('ext', name), args, kws, node)
        for x in list(args) + [v for _, v in kws]:
            if self.callables(x):
                return self.unknown(st, T('ext', name), args, kws, node)
        vals = tuple(self.snap(st, a) for a in args)
        return [(st, self.pure(name, vals, tuple(sorted((k, self.snap(st, v)) for k, v in kws))))]

    def callables(self, t):
        if t.op in ('fn', 'coro', 'bound') or t is self.user:
            return True
        if t.op in ('app', 'map', 'argsort', 'perm', 'row'):
            return False
        return any(self.callables(y) for y in direct(t.a))

    def pure(self, name, vals, kws):
        if name in ('numpy.amax', 'numpy.nanmax'):
            name = 'numpy.max'
        if name in ('numpy.amin', 'numpy.nanmin'):
            name = 'numpy.min'
        if name in ('numpy.absolute', 'builtins.abs', 'numpy.fabs'):
            name = 'numpy.abs'
        if name == 'numpy.abs' and len(vals) == 1:
            # |a - b| is |b - a|
            c, d = lin_parts(vals[0])
            if d and min(d.items(), key=lambda x: x[0].id)[1] < 0:
                vals = (scale(vals[0], Fraction(-1)),)
        return T('ap', name, vals, kws)

    def length(self, st, v):
        c = self.array(st, v)
        if c is not None:
            return size_of(c)
        if v.op == 'view':
            c = self.array(st, v.a[0])
            return WIDTH if c is not None else T('ap', 'len', (self.snap(st, v),), ())
        if v.op == 'rowsof':
            return add(v.a[2], v.a[1], -1)
        s = self.sequence(st, v)
        if s is not None:
            return const(len(s))
        v = self.snap(st, v)
        if v.op == 'ap' and v.a[0] == 'item' and v.a[1][0].op == 'in' and isnum(v.a[1][1]):
            return WIDTH
        if v.op == 'in':
            return add(WIDTH, const(1))
        return T('ap', 'len', (v,), ())

    def value_array(self, st, v):
        c = self.array(st, v)
        return c if c is not None and self.scalars(c) else None

    def to_array(self, st, name, args, kw, node):
        x = args[0]
        dt = kw.get('dtype', args[1] if len(args) > 1 and name in ('numpy.array', 'numpy.asarray') else None)
        if dt is not None and dt.op == 'cls':
            dt = None
        isfloat = dt is not None and (dt.op == 'ext' and dt.a[0] in FLOATS or dt.op == 'const' and dt.a[0] in ('float', 'float64', 'd', 'f8', '<f8'))
        if dt is not None and not isfloat:
            return None
        if set(kw) - {'dtype', 'copy', 'order', 'axis', 'subok'}:
            return None
        if x.op == 'rowsof':
            x0 = st.store.get(x.a[0])
            if x.a[1] is const(0):
                x = x.a[0]
            else:
                return None
        k = self.kind(st, x)
        if k == 'A':
            if name in ALIAS:
                return [(st, x)]
            y = st.store[x]
            return [(st, self.new(st, node, T('A', y.a[0], TRUE if isfloat else y.a[1])))]
        if k in ('LApp', 'Lphi', 'Lst') and name in ('numpy.array', 'numpy.asarray', 'numpy.stack'):
            y = st.store[x]
            if y.op == 'Lst' and not all(self.array(st, z) is not None or z.op in ('view', 'row', 'lin') for z in y.a[0]):
                return None
            return [(st, self.snap(st, x))]
        if k == 'Comp' or x.op == 'comp':
            y = st.store[x] if k == 'Comp' else x
            elt, src = y.a
            if src.op == 'src':
                c = src.a[0]
                J = T('J', src.a[1], src.a[2])
                if elt.op == 'app' and elt.a[1] is get(c, J) and src.a[1] is const(0) and src.a[2] is size_of(c):
                    return [(st, self.new(st, node, T('A', T('map', elt.a[0], c), TRUE if isfloat else FALSE)))]
            return None
        if x.op == 'in':
            return [(st, self.new(st, node, T('A', T('arr', x), TRUE if isfloat else FALSE)))]
        if x.op in ('map', 'perm', 'set', 'sets', 'arr', 'phi'):
            return [(st, self.new(st, node, T('A', x, TRUE if isfloat else FALSE)))]
        if x.op == 'view':
            return [(st, self.snap(st, x))]
        if x.op in ('row', 'lin', 'app'):
            return [(st, x)]
        return None

    def method(self, st, b, name, args, kws, node):
        kw = dict(kws)
        if b.op == 'ref':
            x = st.store.get(b)
            k = x.op if x is not None else None
            if k == 'A':
                if name == 'copy' and not args:
                    return [(st, self.new(st, node, x))]
                if name == 'astype' and len(args) == 1:
                    return self.external(st, 'numpy.array', [b, args[0]], [], node)
                if name == 'argsort':
                    return self.external(st, 'numpy.argsort', [b] + args, kws, node)
                if name == 'argmin':
                    return self.external(st, 'numpy.argmin', [b] + args, kws, node)
                if name == 'take':
                    return self.external(st, 'numpy.take', [b] + args, kws, node)
                if name in ('max', 'min', 'sum', 'mean', 'ravel', 'flatten', 'dot', 'any', 'all', 'tolist', 'ptp', 'reshape', 'std', 'var', 'prod'):
                    return self.external(st, 'numpy.' + name, [b] + args, kws, node)
                raise Unsupported('method %s of an array' % name)
            if k in ('Lst', 'LApp', 'Lphi'):
                if name == 'append' and len(args) == 1:
                    v = args[0]
                    if v.op in ('view', 'rowsof'):
                        v = self.snap(st, v)
                    st.store[b] = T('Lst', x.a[0] + (v,)) if k == 'Lst' and len(x.a[0]) < 3 and not self.loopstack else T('LApp', x, v)
                    return [(st, NONE)]
                if name == 'copy' and not args:
                    return [(st, self.new(st, node, x))]
                raise Unsupported('method %s of a list' % name)
            if k == 'Dct':
                if name == 'get' and args:
                    for kk, v in x.a[0]:
                        if kk is args[0]:
                            return [(st, v)]
                if name == 'update':
                    d = dict(x.a[0])
                    if args and self.kind(st, args[0]) == 'Dct':
                        d.update(st.store[args[0]].a[0])
                    elif args:
                        raise Unsupported('update')
                    d.update({const(kk): v for kk, v in kws})
                    st.store[b] = T('Dct', tuple(d.items()))
                    return [(st, NONE)]
                raise Unsupported('method %s of a dict' % name)
        if b.op == 'glob':
            return [(st, T('ap', '.' + name, (b,) + tuple(self.snap(st, a) for a in args), ()))]
        v = self.snap(st, b)
        if name == 'copy' and not args and v.op in ('row', 'lin', 'app', 'map', 'perm', 'set', 'sets'):
            return [(st, v)]
        if name in ('max', 'min', 'sum', 'mean', 'ravel', 'flatten', 'any', 'all', 'ptp') and v.op in ('ap', 'row', 'lin', 'rowsof', 'comp'):
            return self.external(st, 'numpy.' + name, [v] + args, kws, node)
        if v.op in ('const', 'text', 'ap'):
            return [(st, T('ap', '.' + name, (v,) + tuple(self.snap(st, a) for a in args), ()))]
        return self.unknown(st, T('meth', name), [b] + args, kws, node)

    # -- statements ------------------------------------------------------------
    def block(self, st, fr, stmts):
        """[(kind, state, value)]"""
        live, out = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for k, s2, v in self.stmt(x, fr, s):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            live = self.dedupe(nxt)
            if len(live) + len(out) > 600:
                raise Unsupported('too many paths')
        return out + [('next', s, None) for s in live]

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        seen, res = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        return res

    def stmt(self, st, fr, node):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(node).__name__)
        return m(st, fr, node)

    def s_Expr(self, st, fr, node):
        if isinstance(node.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s, None) for s, _ in self.ev(st, fr, node.value)]

    def s_Pass(self, st, fr, node):
        return [('next', st, None)]

    s_Nonlocal = s_Global = s_Import = s_ImportFrom = s_Pass

    def s_Break(self, st, fr, node):
        return [('break', st, None)]

    def s_Continue(self, st, fr, node):
        return [('continue', st, None)]

    def s_Return(self, st, fr, node):
        if node.value is None:
            return [('return', st, NONE)]
        return [('return', s, v) for s, v in self.ev(st, fr, node.value)]

    def s_Raise(self, st, fr, node):
        return [('raise', st, None)]

    def s_Assert(self, st, fr, node):
        out = []
        for s, c in self.ev(st, fr, node.test):
            out += [('next', s2, None) for s2, b in self.split(s, c) if b]
        return out

    def s_FunctionDef(self, st, fr, node):
        st.frames[fr][node.name] = self.closure(self.here.module.nested[node], fr)
        if node.decorator_list:
            raise Unsupported('decorated function')
        return [('next', st, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_If(self, st, fr, node):
        out = []
        for s, c in self.ev(st, fr, node.test):
            for s2, b in self.split(s, c):
                out += self.block(s2, fr, node.body if b else node.orelse)
        return out

    def s_With(self, st, fr, node):
        cur = [st]
        for it in node.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(s, fr, it.context_expr):
                    if not (v.op == 'ap' and str(v.a[0]).startswith(('warnings.', 'numpy.errstate', 'contextlib.'))):
                        s2.tainted('with %s' % show(v))
                    if it.optional_vars is not None:
                        self.bind(s2, fr, it.optional_vars, T('ap', 'entered', (v,), ()), node)
                    nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out += self.block(s, fr, node.body)
        return out

    def s_Try(self, st, fr, node):
        out = []
        for k, s, v in self.block(st, fr, node.body):
            if k == 'next' and node.orelse:
                res = self.block(s, fr, node.orelse)
            else:
                res = [(k, s, v)]
            for k2, s2, v2 in res:
                if node.finalbody:
                    for k3, s3, v3 in self.block(s2, fr, node.finalbody):
                        out.append((k2, s3, v2) if k3 == 'next' else (k3, s3, v3))
                else:
                    out.append((k2, s2, v2))
        if node.handlers:
            for i, (k, s, v) in enumerate(out):
                s.tainted('exception handler')
        return out

    def s_Assign(self, st, fr, node):
        out = []
        for s, v in self.ev(st, fr, node.value):
            cur = [s]
            for t in node.targets:
                cur = [s3 for s2 in cur for s3 in self.bind(s2, fr, t, v, node)]
            out += [('next', s2, None) for s2 in cur]
        return out

    def s_AnnAssign(self, st, fr, node):
        if node.value is None:
            return [('next', st, None)]
        out = []
        for s, v in self.ev(st, fr, node.value):
            out += [('next', s2, None) for s2 in self.bind(s, fr, node.target, v, node)]
        return out

    def s_AugAssign(self, st, fr, node):
        t = node.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()), ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()), ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        out = []
        for s, (a, b) in self.evs(st, fr, [load, node.value]):
            if a.op in ('view', 'rowsof'):
                v = self.binop(s, node.op, a, b, node)
                if a.op == 'rowsof':
                    raise Unsupported('in-place change of several rows')
                if isinstance(t, ast.Name):
                    self.store_row(s, a.a[0], a.a[1], v, node)
                    out.append(('next', s, None))
                    continue
            elif self.kind(s, a) == 'A':
                raise Unsupported('in-place change of a whole array')
            elif isinstance(node.op, ast.Add) and self.kind(s, a) in ('Lst', 'LApp', 'Lphi'):
                xs = self.sequence(s, b)
                if xs is None:
                    raise Unsupported('list +=')
                for x in xs:
                    self.method(s, a, 'append', [x], [], node)
                out.append(('next', s, None))
                continue
            else:
                v = self.binop(s, node.op, a, b, node)
            out += [('next', s2, None) for s2 in self.bind(s, fr, t, v, node)]
        return out

    def s_Delete(self, st, fr, node):
        for t in node.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            st.frames[fr].pop(t.id, None)
        return [('next', st, None)]

    def computed(self, st, v, node):
        """Arithmetic on whole arrays makes an array."""
        known = {x.a[0]: x.a[1] for x in st.store.values() if x.op == 'A'}
        cs = [y for y, _ in v.a[1] if y in known]
        if not cs or len({self.scalars(c) for c in cs}) > 1:
            return v
        J = T('J', const(0), size_of(cs[0]))
        e = const(v.a[0])
        for y, k in v.a[1]:
            e = add(e, scale(get(y, J) if y in known else y, k))
        return self.new(st, node, T('A', mk_sets(cs[0], J.a[0], J.a[1], e), TRUE if any(known[c] is TRUE for c in cs) else FALSE))

    def bind(self, st, fr, t, v, node):
        if isinstance(t, ast.Name):
            if v.op == 'lin':
                v = self.computed(st, v, node)
            fid = fr
            if t.id in self.here.nonlocals:
                fid = self.parents.get(fr)
                while fid is not None and t.id not in st.frames.get(fid, {}):
                    fid = self.parents.get(fid)
                if fid is None:
                    raise Unsupported('nonlocal')
            elif t.id in self.here.globals_decl:
                raise Unsupported('global')
            st.frames[fid][t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            xs = self.sequence(st, v)
            if xs is None or len(xs) != len(t.elts) or any(isinstance(e, ast.Starred) for e in t.elts):
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Unsupported('unpacking')
                w = self.snap(st, v) if v.op != 'shape' else v
                xs = [self.getitem(st, w, const(i), node) for i in range(len(t.elts))]
            cur = [st]
            for e, x in zip(t.elts, xs):
                cur = [s2 for s in cur for s2 in self.bind(s, fr, e, x, node)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(st, fr, t.value):
                x = s.store.get(b) if b.op == 'ref' else None
                if x is None or x.op != 'Obj':
                    raise Unsupported('attribute store')
                d = dict(x.a[1])
                d[t.attr] = v
                s.store[b] = T('Obj', x.a[0], tuple(sorted(d.items())))
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, i) in self.evs(st, fr, [t.value, t.slice]):
                self.setitem(s, b, i, v, node)
                out.append(s)
            return out
        raise Unsupported('target')

    def store_row(self, st, b, i, v, node):
        x = st.store[b]
        c = x.a[0]
        v = self.snap(st, v)
        self.rec.append(('store', st.copy(), b, i, v, node))
        self.touch(st, b, node)
        st.store[b] = T('A', mk_set(c, i, v), x.a[1])

    def touch(self, st, b, node):
        """Lists that may hold the array itself change with it."""
        for n, r in st.shared:
            if r is b:
                self.rec.append(('alias', st.copy(), n, b, node))
                st.zipped = frozenset(z for z in st.zipped if n not in z)

    def setitem(self, st, b, i, v, node):
        x = st.store.get(b) if b.op == 'ref' else None
        if x is not None and x.op == 'Lst' and isnum(i) and -len(x.a[0]) <= i.a[0] < len(x.a[0]):
            items = list(x.a[0])
            items[int(i.a[0])] = v if v.op not in ('view', 'rowsof') else self.snap(st, v)
            st.store[b] = T('Lst', tuple(items))
            return
        if x is not None and x.op == 'Dct':
            d = dict(x.a[0])
            d[self.snap(st, i)] = v
            st.store[b] = T('Dct', tuple(d.items()))
            return
        if x is not None and x.op == 'LApp' and i is const(-1):
            st.store[b] = T('LApp', x.a[0], v)
            return
        if x is not None and x.op == 'A':
            c = x.a[0]
            if i.op == 'tuple' and len(i.a[0]) == 2 and i.a[0][1] is T('slice', NONE, NONE, NONE):
                i = i.a[0][0]
            i = self.snap(st, i)
            if i.op == 'slice':
                lo = const(0) if i.a[0] is NONE else i.a[0]
                if i.a[2] is NONE and isnum(lo) and lo.a[0] >= 0:
                    hi = size_of(c) if i.a[1] is NONE else i.a[1]
                    y = self.elementwise(st, v, c, lo, hi)
                    if y is not None:
                        self.rec.append(('store', st.copy(), b, T('slice', lo, hi), y, node))
                        self.touch(st, b, node)
                        if lo is const(0) and hi is size_of(c):
                            st.store[b] = T('A', self.whole(c, y), x.a[1])
                        else:
                            st.store[b] = T('A', mk_sets(c, lo, hi, y), x.a[1])
                        return
                raise Unsupported('slice assignment')
            j = self.row_index(c, i)
            if j is None:
                raise Unsupported('row %s' % show(i))
            self.store_row(st, b, j, v, node)
            return
        raise Unsupported('item assignment')

    def whole(self, c, y):
        if y.op == 'content':
            return y.a[0]
        return mk_sets(c, const(0), size_of(c), y)

    def elementwise(self, st, v, c, lo, hi):
        """Value for row J of something assigned to the rows lo .. hi - 1."""
        J = T('J', lo, hi)
        if v.op == 'ref':
            x = st.store.get(v)
            if x is not None and x.op == 'A':
                return T('content', x.a[0]) if lo is const(0) else None
            if x is not None and x.op == 'Comp':
                v = T('comp', x.a[0], x.a[1])
        if v.op == 'comp':
            src = v.a[1]
            if src.op == 'src' and src.a[1] is lo and src.a[2] is hi and size_of(src.a[0]) is size_of(c):
                return v.a[0]
            return None
        # arithmetic on slices: every slice is rows lo .. hi - 1
        ok = [True]

        def go(t):
            if t.op == 'rowsof':
                cc = self.array(st, t.a[0]) if t.a[0].op == 'ref' else t.a[0]
                if cc is not None and t.a[1] is lo and t.a[2] is hi:
                    return get(cc, J)
                ok[0] = False
                return t
            if t.op == 'lin':
                r = const(t.a[0])
                for y, k in t.a[1]:
                    r = add(r, scale(go(y), k))
                return r
            if t.op == 'row':
                return t
            if t.op == 'view':
                return self.snap(st, t)
            ok[0] = False
            return t
        r = go(v)
        return r if ok[0] else None

    # -- loops -----------------------------------------------------------------
    def changed(self, a, b):
        """Places that differ."""
        res = set()
        for fid in a.frames.keys() & b.frames.keys():
            fa, fb = a.frames[fid], b.frames[fid]
            for n in fa.keys() | fb.keys():
                if fa.get(n) is not fb.get(n):
                    res.add(('var', fid, n))
        for r in a.store.keys() & b.store.keys():
            x, y = a.store[r], b.store[r]
            if x is y:
                continue
            if x.op == 'Obj' and y.op == 'Obj':
                dx, dy = dict(x.a[1]), dict(y.a[1])
                res |= {('attr', r, n) for n in dx.keys() | dy.keys() if dx.get(n) is not dy.get(n)}
            elif x.op == 'Lst' and y.op == 'Lst' and len(x.a[0]) == len(y.a[0]):
                res |= {('item', r, i) for i in range(len(x.a[0])) if x.a[0][i] is not y.a[0][i]}
            else:
                res.add(('cell', r))
        if a.g is not b.g:
            res.add(('g',))
        return res

    def at(self, st, l):
        if l[0] == 'var':
            return st.frames.get(l[1], {}).get(l[2])
        if l[0] == 'attr':
            x = st.store.get(l[1])
            return dict(x.a[1]).get(l[2]) if x is not None and x.op == 'Obj' else None
        if l[0] == 'item':
            x = st.store.get(l[1])
            return x.a[0][l[2]] if x is not None and x.op == 'Lst' and l[2] < len(x.a[0]) else None
        if l[0] == 'cell':
            return st.store.get(l[1])
        return st.g

    def put(self, st, l, v):
        if l[0] == 'var':
            if v is None:
                st.frames[l[1]].pop(l[2], None)
            else:
                st.frames[l[1]][l[2]] = v
        elif l[0] == 'attr':
            x = st.store[l[1]]
            d = dict(x.a[1])
            if v is None:
                d.pop(l[2], None)
            else:
                d[l[2]] = v
            st.store[l[1]] = T('Obj', x.a[0], tuple(sorted(d.items())))
        elif l[0] == 'item':
            x = st.store[l[1]]
            items = list(x.a[0])
            items[l[2]] = v
            st.store[l[1]] = T('Lst', tuple(items))
        elif l[0] == 'cell':
            st.store[l[1]] = v
        else:
            st.g = v

    def content_at(self, st, l):
        """Array content held at a place."""
        v = self.at(st, l)
        if v is None:
            return None
        if l[0] == 'cell':
            return v.a[0] if v.op == 'A' else None
        return self.array(st, v)

    def list_at(self, st, l):
        v = self.at(st, l)
        if v is None:
            return None
        if l[0] != 'cell' and v.op == 'ref':
            v = st.store.get(v)
        return v if v is not None and v.op in ('Lst', 'LApp', 'Lphi') else None

    def list_zipped(self, st, a, b):
        """Two lists were extended in step with arrays and their values."""
        if (a, b) in st.zipped:
            return True
        if a.op == 'Lst' and b.op == 'Lst':
            return len(a.a[0]) == len(b.a[0]) and all(self.item_paired(st, x, y) for x, y in zip(a.a[0], b.a[0]))
        if a.op == 'LApp' and b.op == 'LApp':
            return self.item_paired(st, a.a[1], b.a[1]) and self.list_zipped(st, a.a[0], b.a[0])
        return False

    def item_paired(self, st, x, y):
        cx, cy = (self.array(st, z) if z.op == 'ref' else z for z in (x, y))
        return cx is not None and cy is not None and paired(cy, cx)

    def in_list(self, st, x, ref):
        """May an array itself, not a copy, be in a list?"""
        while x.op == 'LApp':
            if x.a[1] is ref:
                return True
            x = x.a[0]
        if x.op == 'Lst':
            return ref in x.a[0]
        return (x, ref) in st.shared

    def last_is(self, st, lst, c):
        if lst.op == 'Lst':
            x = lst.a[0][-1] if lst.a[0] else None
        elif lst.op == 'LApp':
            x = lst.a[1]
        else:
            return (lst, c) in st.zipped
        if x is None:
            return False
        return (self.array(st, x) if x.op == 'ref' else x) is c

    def is_sorted(self, st, c):
        """Content of positions in the order of their values."""
        if c in st.sorted:
            return True
        return c.op == 'perm' and c.a[1].op == 'argsort' and c.a[1].a[0].op == 'map' and c.a[1].a[0].a[1] is c.a[0]

    def loop_id(self, node):
        return self.site(node, 'loop') + '/' + str(self.depth)

    def relations(self, st, locs, t=None):
        """Relations between the places that hold in a state."""
        rels = set()
        arrs = [(l, self.content_at(st, l)) for l in locs]
        arrs = [(l, c) for l, c in arrs if c is not None]
        for l, c in arrs:
            for l2, c2 in arrs:
                if l is not l2 and paired(c, c2):
                    rels.add(('map', l, l2))
                if c is c2 and str(l2) < str(l):
                    rels.add(('same', l, l2))
            if self.is_sorted(st, c):
                rels.add(('sorted', l))
            x = self.at(st, l)
            x = x if l[0] == 'cell' else st.store.get(x)
            if x.a[1] is TRUE:
                rels.add(('float', l))
        lists = [(l, self.list_at(st, l)) for l in locs]
        lists = [(l, x) for l, x in lists if x is not None]
        for l, x in lists:
            for l2, y in lists:
                if l is not l2 and self.list_zipped(st, x, y):
                    rels.add(('zip', l, l2))
            for l2, c in arrs:
                if self.last_is(st, x, c):
                    rels.add(('last', l, l2))
                if not self.in_list(st, x, l2[1] if l2[0] == 'cell' else self.at(st, l2)):
                    rels.add(('own', l, l2))
        for l in locs:
            if l == ('g',):
                continue
            v = self.at(st, l)
            if v is None or l[0] == 'cell' or v.op in ('ref', 'view'):
                continue
            if ('g',) in locs:
                d = add(v, st.g, -1)
                if all(x is WIDTH for x in lin_parts(d)[1]):
                    rels.add(('g', l, d))
            if t is not None:
                d = difference(v, t)
                if d is not None:
                    rels.add(('t', l, d))
            if v.op == 'const':
                rels.add(('const', l, v))
        return rels

    def unused(self, r, rels):
        """Not what was assumed of the place: another relation came first."""
        if r[0] == 'map':
            rank = lambda x: (x[1][0] != x[2][0], str(x[2]))
            return any(x[0] == 'map' and x[1] == r[1] and rank(x) < rank(r) for x in rels)
        if r[0] == 'same':
            return any(x[1] == r[1] and (x[0] == 'map' or x[0] == 'same' and str(x[2]) < str(r[2])) for x in rels)
        first = {'const': (), 'g': ('const',), 't': ('const', 'g')}.get(r[0], ())
        return any(x[0] in first and x[1] == r[1] for x in rels)

    def enter(self, head, entry, locs, node, rels, t=None):
        """Forget what the loop changes, except for the relations."""
        L = self.loop_id(node)
        done = {}
        maps = {r[1]: r[2] for r in rels if r[0] == 'map' and not self.unused(r, rels)}
        sames = {r[1]: r[2] for r in rels if r[0] == 'same' and not self.unused(r, rels)}
        if ('g',) in locs:
            head.g = T('phi', L, 'calls')
        order = sorted((l for l in locs if l != ('g',)), key=lambda l: (l in maps, l in sames, str(l)))
        for l in order:
            old = self.at(entry, l)
            nm = '.'.join(str(x) if not isinstance(x, T) else '%s/%s' % (x.a[0], x.a[1]) for x in l)
            c = self.content_at(entry, l)
            if c is not None:
                fl = TRUE if ('float', l) in rels else FALSE
                if l in maps and maps[l] in done:
                    n = T('map', self.user, done[maps[l]])
                elif l in sames and sames[l] in done:
                    n = done[sames[l]]
                else:
                    n = T('phi', L, nm) if not self.scalars(c) else T('phi', L, 'F', nm)
                done[l] = n
                if l[0] == 'cell':
                    self.put(head, l, T('A', n, fl))
                else:
                    r = T('ref', 'phi ' + L + nm, 0)
                    head.store[r] = T('A', n, fl)
                    self.put(head, l, r)
                if ('sorted', l) in rels:
                    head.sorted |= {n}
                continue
            x = self.list_at(entry, l)
            if x is not None:
                n = T('Lphi', L, nm)
                done[l] = n
                if l[0] == 'cell':
                    self.put(head, l, n)
                else:
                    r = T('ref', 'phi ' + L + nm, 0)
                    head.store[r] = n
                    self.put(head, l, r)
                continue
            if l[0] == 'cell':
                raise Unsupported('%s changed in a loop' % show(old))
            k = [r for r in rels if r[0] == 'const' and r[1] == l]
            g = [r for r in rels if r[0] == 'g' and r[1] == l]
            tt = [r for r in rels if r[0] == 't' and r[1] == l]
            if k:
                self.put(head, l, k[0][2])
            elif g:
                self.put(head, l, add(head.g, g[0][2]))
            elif tt:
                self.put(head, l, add(t, const(tt[0][2])))
            elif old is None:
                self.put(head, l, None)
            else:
                self.put(head, l, T('phi', L, nm))
        for l, n in done.items():
            if n.op == 'Lphi':
                for l2, n2 in done.items():
                    if n2.op != 'Lphi' and ('own', l, l2) not in rels:
                        head.shared |= {(n, l2[1] if l2[0] == 'cell' else self.at(head, l2))}
        for r in rels:
            if r[0] == 'zip':
                head.zipped |= {(done[r[1]], done[r[2]])}
            if r[0] == 'last':
                head.zipped |= {(done[r[1]], done[r[2]])}
        return rels

    def turns(self, src):
        if src.op == 'src':
            return add(src.a[2], src.a[1], -1)
        if src.op == 'range' and src.a[1] is not T('inf'):
            return add(src.a[1], src.a[0], -1)
        if src.op == 'comp':
            return self.turns(src.a[1])
        if src.op in ('zip', 'enumerate'):
            return self.turns(src.a[0][0])
        return None

    def leave(self, st, head, outs, locs, node, src=None):
        """State after a loop over elements: counters keep what they have in
        common with the number of calls."""
        after = st.copy()
        rels = None
        for s in outs:
            r = {x for x in self.relations(s, locs) if x[0] in ('g', 'const', 'float', 'own')}
            rels = r if rels is None else rels & r
        entry = {x for x in self.relations(st, locs) if x[0] in ('g', 'const', 'float', 'own')}
        rels = (rels or set()) & entry
        self.enter(after, st, {l for l in locs}, node, rels)
        if ('g',) in locs:
            g = T('phi', self.loop_id(node), 'calls after')
            old = after.g
            for l in locs:
                if l == ('g',):
                    continue
                v = self.at(after, l)
                if v is not None and any(y is old for y in walk(v)):
                    self.put(after, l, sub(v, old, g))
            after.g = g
        # counters that go up by the same in every turn
        n = self.turns(src) if src is not None and outs else None
        if n is not None and all(x.op != 'range' for x in walk(n)):
            for l in locs:
                old, h = self.at(st, l), self.at(head, l)
                if l[0] == 'cell' or old is None or h is None or h.op in ('ref', 'view') or old.op in ('ref', 'view'):
                    continue
                ds = {difference(v, h) if v is not None and v.op not in ('ref', 'view') else None for v in (self.at(s, l) for s in outs)}
                if len(ds) == 1 and None not in ds:
                    self.put(after, l, add(old, scale(n, ds.pop())))
        for s in outs:
            after.taint |= s.taint
        return after

    def run_loop(self, st, fr, node, step):
        """step(head, t) -> [(kind, state, value)] for one turn; kinds 'next' and
        'continue' go back, 'leave' and 'break' end the loop."""
        self.loops += 1
        L = self.loop_id(node)
        t = T('phi', L, 'turns')
        locs, rels = set(), None
        entry = st
        for _ in range(30):
            e = self.relations(entry, locs, const(0))
            cand = e if rels is None else e & rels
            head = entry.copy()
            for n in list(head.frames):
                pass
            self.enter(head, entry, locs, node, cand, t)
            head.marks += ((L, head.g, t, frozenset((l, self.content_at(head, l)) for l in locs if self.content_at(head, l) is not None)),)
            n0 = len(self.rec)
            self.loopstack.append(L)
            try:
                outs = step(head.copy(), t)
            finally:
                self.loopstack.pop()
            backs = [s for k, s, _ in outs if k in ('next', 'continue')]
            ch = set()
            for s in backs:
                ch |= self.changed(head, s)
            # places that do not exist at the head are local to a turn
            ch = {l for l in ch if self.at(entry, l) is not None or l == ('g',)}
            if not ch <= locs:
                locs |= ch
                rels = None
                del self.rec[n0:]
                continue
            good = set()
            for r in cand:
                ok = True
                if self.unused(r, cand):
                    good.add(r)
                    continue
                for s in backs:
                    if r[0] == 't':
                        v = self.at(s, r[1])
                        holds = v is not None and v.op not in ('ref', 'view') and difference(v, t) == r[2] + 1
                    else:
                        holds = r in self.relations(s, locs)
                    if not holds and rels is None and len(head.marks) == 1:
                        self.drops.append((L, r, head, s))
                    ok = ok and holds
                if ok:
                    good.add(r)
            if good != cand:
                rels = good
                del self.rec[n0:]
                continue
            self.rec.append(('loop', head, backs, node, locs, cand, entry, t))
            res = []
            for k, s, v in outs:
                if k in ('next', 'continue'):
                    continue
                s.marks = s.marks[:len(entry.marks)]
                res.append(('next' if k in ('leave', 'break') else k, s, v))
            return res
        raise Unsupported('loop does not stabilise')

    def s_While(self, st, fr, node):
        def step(head, t):
            out = []
            for s, c in self.ev(head, fr, node.test):
                for s2, b in self.split(s, c):
                    if b:
                        out += self.block(s2, fr, node.body)
                    elif node.orelse:
                        out += [(k if k != 'next' else 'leave', s3, v) for k, s3, v in self.block(s2, fr, node.orelse)]
                    else:
                        out.append(('leave', s2, None))
            return out
        return self.run_loop(st, fr, node, step)

    def s_For(self, st, fr, node):
        out = []
        for s, it in self.ev(st, fr, node.iter):
            seq = self.sequence(s, it)
            if seq is not None and len(seq) <= 6:
                out += self.unrolled(s, fr, node, seq)
                continue
            src = self.source(s, it)
            if not any(isinstance(x, (ast.Break, ast.Return)) for y in node.body for x in ast.walk(y)):
                try:
                    got = self.for_each(s.copy(), fr, node, src)
                except Unsupported:
                    if src.op != 'range':
                        raise
                    got = None
                if got is not None:
                    out += got
                    continue
            if src.op != 'range':
                raise Unsupported('loop over %s' % show(src))

            def step(head, t, src=src):
                i = add(src.a[0], t)
                res = []
                conds = [(head, True)] if src.a[1] is T('inf') else self.split(head, self.lt(i, src.a[1]))
                for s2, b in conds:
                    if b:
                        for s3 in self.bind(s2, fr, node.target, i, node):
                            res += self.block(s3, fr, node.body)
                    elif node.orelse:
                        res += [(k if k != 'next' else 'leave', s3, v) for k, s3, v in self.block(s2, fr, node.orelse)]
                    else:
                        res.append(('leave', s2, None))
                return res
            # the loop variable is set in every turn
            out += self.run_loop(s, fr, node, step)
        return out

    def unrolled(self, st, fr, node, seq):
        live, out = [st], []
        for x in seq:
            nxt = []
            for s in live:
                for s2 in self.bind(s, fr, node.target, x, node):
                    for k, s3, v in self.block(s2, fr, node.body):
                        if k in ('next', 'continue'):
                            nxt.append(s3)
                        elif k == 'break':
                            out.append(('next', s3, None))
                        else:
                            out.append((k, s3, v))
            live = self.dedupe(nxt)
        for s in live:
            out += self.block(s, fr, node.orelse) if node.orelse else [('next', s, None)]
        return out

    def for_each(self, st, fr, node, src):
        """Loop in which turn J changes nothing but row J of arrays, appends to
        fresh lists and counts."""
        locs = set()
        tnames = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        for _ in range(6):
            head = st.copy()
            keep = {l for l in locs if not self.rowwise(st, l)}
            grow = {l for l in keep if self.list_at(st, l) is not None}
            self.enter(head, st, keep, node, {r for r in self.relations(st, keep) if r[0] in ('g', 'const', 'own')} if not locs else self.cand)
            n0, r0 = len(self.rec), self.reads
            self.reads = []
            J, elem = self.generic(head, src)
            head.note += ((J, 'for'),)
            self.loopstack.append('each')
            try:
                outs = []
                for s in self.bind(head.copy(), fr, node.target, elem, node):
                    outs += self.block(s, fr, node.body)
            finally:
                self.loopstack.pop()
            reads, self.reads = self.reads, r0
            if any(k not in ('next', 'continue') for k, _, _ in outs):
                raise Unsupported('way out of a loop over elements')
            ends = [s for _, s, _ in outs]
            ch = set()
            for s in ends:
                ch |= self.changed(head, s)
            ch = {l for l in ch if not (l[0] == 'var' and l[1] == fr and l[2] in tnames) and (self.at(st, l) is not None or l == ('g',))}
            if not ch <= locs:
                locs |= ch
                self.cand = {r for r in self.relations(st, {l for l in locs if not self.rowwise(st, l)}) if r[0] in ('g', 'const', 'own')}
                del self.rec[n0:]
                continue
            keep = {l for l in locs if not self.rowwise(st, l)}
            good = {r for r in self.cand if self.unused(r, self.cand) or all(r in self.relations(s, keep) for s in ends)} if locs else set()
            if locs and good != self.cand:
                self.cand = good
                del self.rec[n0:]
                continue
            after = self.leave(st, head, ends, keep, node, src)
            for l in locs - keep:
                self.rows_after(st, after, ends, l, J, src, reads)
            for l in grow:
                self.list_after(st, after, ends, l, src, node)
            if r0 is not None:
                r0 += reads
            for n in tnames:
                after.frames[fr][n] = T('phi', self.loop_id(node), 'last ' + n)
            out = [after]
            if node.orelse:
                return self.block(after, fr, node.orelse)
            return [('next', after, None)]
        raise Unsupported('loop does not stabilise')

    def rowwise(self, st, l):
        return l[0] == 'cell' and st.store.get(l[1]) is not None and st.store[l[1]].op == 'A'

    def rows_after(self, st, after, ends, l, J, src, reads):
        base = st.store[l[1]]
        if src.op not in ('range', 'src', 'zip', 'enumerate', 'comp'):
            raise Unsupported('rows changed in a loop over %s' % show(src))
        vals = set()
        for s in ends:
            c = s.store[l[1]].a[0]
            b = base.a[0]
            f = None
            if c.op == 'map' and b.op == 'map' and c.a[0] is b.a[0]:
                f = c.a[0]
                c, b = c.a[1], b.a[1]
            if c.op != 'set' or c.a[0] is not b or c.a[1] is not J:
                raise Unsupported('rows changed in a loop')
            vals.add(c.a[2] if f is None else T('app', f, c.a[2]))
        if len(vals) != 1:
            raise Unsupported('rows changed in different ways')
        for ref, i in reads:
            if ref is l[1] and i is not J and same_index(base.a[0], i, J) is not False:
                raise Unsupported('row %s read while others change' % show(i))
        x, = vals
        lo, hi = J.a
        after.store[l[1]] = T('A', mk_sets(base.a[0], lo, hi, x), base.a[1])

    def list_after(self, st, after, ends, l, src, node):
        old = self.list_at(st, l)
        if old is None or old.op != 'Lst' or old.a[0]:
            return
        vals = set()
        for s in ends:
            x = self.list_at(s, l)
            if x is None or x.op != 'LApp' or x.a[0].op != 'Lphi':
                return
            vals.add(self.snap(s, x.a[1]))
        if len(vals) == 1:
            v, = vals
            n = T('Comp', v, src)
            if l[0] == 'cell':
                after.store[l[1]] = n

    # -- entry -------------------------------------------------------------------
    def run(self, f, env):
        self.here = f
        self.parents = {}
        st = St()
        fid = f.fid + '#0'
        self.parents[fid] = None
        st.frames[fid] = env
        self.functions.add(f.fid)
        return [(k, s, v) for k, s, v in self.block(st, fid, f.node.body)]
