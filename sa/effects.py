"""What functions modify: for every function of the package, which of the
objects it can reach from its parameters, from module-level names, classes and
default arguments it may change in place, computed one function at a time with
the summaries of the functions it calls."""

import ast

from .engine import Monitor, strip_at, prog_types
from .loader import Function, Class
from .terms import T, walk, show, is_const, cval, const
from .rules.graphs import method_of
from .rules.queues import ext

#: calls that give a view of (or the very same object as) their first argument
VIEWS = {
    'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d',
    'numpy.reshape', 'numpy.ravel', 'numpy.squeeze', 'numpy.transpose', 'numpy.moveaxis', 'numpy.swapaxes', 'numpy.broadcast_to',
    'numpy.expand_dims', 'numpy.split', 'numpy.array_split', 'numpy.rollaxis', 'numpy.diagonal', 'numpy.flip', 'numpy.real', 'numpy.imag', 'numpy.nditer', 'numpy.require',
    'networkx.subgraph', 'networkx.subgraph_view', 'networkx.restricted_view', 'networkx.freeze', 'networkx.edge_subgraph', 'networkx.induced_subgraph', 'builtins.memoryview',
    'types.MappingProxyType',
}
#: calls that give a new container with the same elements
SHALLOW = {
    'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'builtins.reversed', 'builtins.iter', 'builtins.enumerate',
    'builtins.zip', 'builtins.filter', 'builtins.dict', 'collections.OrderedDict', 'collections.deque', 'collections.ChainMap', 'itertools.chain', 'itertools.islice',
    'itertools.combinations', 'itertools.permutations', 'itertools.product', 'itertools.cycle', 'itertools.repeat', 'itertools.tee', 'itertools.zip_longest', 'itertools.chain.from_iterable',
    'random.sample', 'random.choices', 'copy.copy', 'types.SimpleNamespace',
}
ELEMENT = {'builtins.next', 'builtins.max', 'builtins.min', 'random.choice', 'builtins.getattr', 'operator.getitem', 'collections.ChainMap', 'builtins.vars'}
VIEW_METHODS = {'reshape', 'view', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'subgraph', 'edge_subgraph', 'diagonal', 'values', 'items', 'keys', 'adjacency',
                '__iter__', 'edges', 'nodes', '__enter__'}
ELEMENT_METHODS = {'get', 'setdefault', 'pop', 'popitem', 'popleft', '__getitem__', 'get_nowait', 'get_edge_data'}
#: methods that change the state of whatever they are called on
SETTERS = {
    'numpy.random.seed', 'random.seed', 'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.set_string_function', 'numpy.random.set_state', 'random.setstate',
    'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings', 'os.chdir', 'os.putenv', 'os.umask', 'os.unsetenv', 'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile',
    'signal.signal', 'asyncio.set_event_loop', 'asyncio.set_event_loop_policy', 'locale.setlocale', 'logging.basicConfig', 'logging.disable', 'logging.captureWarnings',
    'matplotlib.use', 'matplotlib.rc', 'matplotlib.pyplot.rc', 'matplotlib.style.use', 'matplotlib.pyplot.style.use', 'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff',
    'decimal.setcontext', 'gc.disable', 'gc.freeze', 'faulthandler.enable', 'threading.setprofile', 'threading.stack_size', 'sys.setswitchinterval', 'atexit.register', 'socket.setdefaulttimeout', 'tempfile.tempdir',
}
#: methods that change the settings of a logger, or the like
CONFIGURE = {'.setLevel', '.addHandler', '.removeHandler', '.addFilter', '.removeFilter', '.setFormatter'}
ARRAYS = {'pos', 'refinement_stencil', 'stencil', 'stcl', 'initial_simplex', 'origin', 'vertices', 'size', 'limits', 'positions', 'simplex_history', 'fun_simplex_history', 'value'}
MUTABLE_CALLS = {'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.bytearray', 'collections.Counter', 'collections.deque', 'collections.defaultdict', 'collections.OrderedDict',
                 'numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.asarray', 'numpy.full', 'networkx.Graph', 'queue.Queue', 'collections.ChainMap', 'types.SimpleNamespace', 'itertools.count', 'builtins.iter'}


class Root:
    """An object that exists before the call: kind 'in' (parameter), 'self',
    'glob' (module level), 'cls', 'func', 'ext'."""
    __slots__ = ('kind', 'name', 'path', 'sure', 'elem')

    def __init__(self, kind, name, path=(), sure=True, elem=False):
        self.kind, self.name, self.path, self.sure, self.elem = kind, name, path, sure, elem

    def key(self):
        return (self.kind, self.name, self.path, self.sure, self.elem)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def down(self, name=None, sure=True):
        p = self.path if self.elem else self.path + ((name,) if name else ())
        return Root(self.kind, self.name, p[:4], self.sure and sure, self.elem or name is None)

    def __repr__(self):
        return '%s:%s%s%s' % (self.kind, self.name, ''.join('.' + x for x in self.path), '' if self.sure else '?')


class Change:
    """One modification: of what, where, by what."""

    def __init__(self, root, node, func, text, sure=True, via=(), soft=False):
        self.root, self.node, self.func, self.text, self.sure, self.via = root, node, func, text, sure, via
        self.soft = soft        # does no harm where it is always the same


class Summary:
    def __init__(self):
        self.changes = {}       # (root key, text, line) -> Change
        self.returns = set()    # roots that the value returned is (part of)
        self.inside = set()     # roots that elements of the value returned are
        self.settings = {}      # process-wide settings changed: name -> (node, func)
        self.captured = {}      # attribute of self -> roots stored
        self.parts = {}         # path from self, or the value returned -> roots found there
        self.tainted = False

    def add(self, ch):
        k = (ch.root.key(), ch.text, getattr(ch.node, 'lineno', 0), ch.func.fid)
        self.changes.setdefault(k, ch)


class Log(Monitor):
    def __init__(self, effects, f, summary):
        self.e, self.f, self.s = effects, f, summary

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k == 'mutate':
            self.change(ev, st, eng, ev.base, '%s()' % ev.method if '.' in (ev.method or '') else '.%s()' % ev.method)
        elif k == 'storesub':
            self.change(ev, st, eng, ev.base, 'an item is set')
        elif k == 'storeattr':
            base = strip_at(ev.base)
            if base == self.e.me(self.f) and isinstance(ev.value, T):
                self.s.captured.setdefault(ev.name, set()).update(self.e.alias(ev.value, st, eng))
                for path, rs in self.e.parts(ev.value, st, eng).items():
                    self.s.parts.setdefault((ev.name,) + path, set()).update(rs)
            self.change(ev, st, eng, ev.base, 'attribute %s is set' % ev.name, attr=ev.name)
        elif k == 'delattr':
            self.change(ev, st, eng, ev.base, 'attribute %s is deleted' % ev.name, attr=ev.name)
        elif k == 'storeglobal':
            soft = isinstance(ev.value, T) and strip_at(ev.value).op in ('mod', 'func', 'cls', 'ext', 'const')
            self.s.add(Change(Root('glob', '%s.%s' % (ev.module, ev.name)), ev.node, eng.func, 'the module-level name %s is set' % ev.name, soft=soft))
        elif k == 'augassign':
            old = strip_at(ev.old) if isinstance(ev.old, T) else None
            if old is not None:
                for r in self.e.alias(old, st, eng):
                    if r.kind in ('in', 'self', 'glob'):
                        kind = self.e.arraylike(r, old, self.f)
                        if kind is not None:
                            self.s.add(Change(r, ev.node, eng.func, 'in-place %s=' % ev.op, sure=r.sure and kind and not st.taint))
        elif k in ('call', 'pcall'):
            self.call(ev, st, eng)
        elif k == 'new':
            pass
        return m

    def change(self, ev, st, eng, base, text, attr=None):
        for r in self.e.alias(base, st, eng):
            if attr is not None and r.kind == 'self' and not r.path and not r.elem:
                r = Root('self', r.name, (), r.sure)
                self.s.add(Change(r, ev.node, eng.func, text, sure=r.sure and not st.taint))
                continue
            self.s.add(Change(r, ev.node, eng.func, text, sure=r.sure and not st.taint))

    def call(self, ev, st, eng):
        if isinstance(ev.fn, Function):
            self.e.called(self, ev.fn, ev.args, ev.kwargs, st, eng, ev.node)
            return
        for y in list(ev.args or ()):
            y = strip_at(y) if isinstance(y, T) else y
            if isinstance(y, T) and y.op in ('coro', 'gen') and isinstance(y.a[0], T) and y.a[0].op == 'func':
                g = self.e.prog.functions.get(y.a[0].a[0])
                if g is not None:
                    self.e.called(self, g, list(y.a[1]), dict(y.a[2]), st, eng, ev.node)
        name = ev.name or ''
        kw = ev.kwargs or {}
        kw = dict(kw)
        n = canonical(name)
        if n in SETTERS and not within(eng, ev.node, 'warnings.catch_warnings', 'numpy.errstate'):
            self.s.settings.setdefault(n, (ev.node, eng.func))
        if n == 'builtins.next' and ev.args:
            for r in self.e.alias(ev.args[0], st, eng):
                if r.kind == 'glob':
                    self.s.add(Change(r, ev.node, eng.func, 'next()', sure=r.sure and not st.taint))
        if name in CONFIGURE and isinstance(ev.recv, T):
            for r in self.e.alias(ev.recv, st, eng):
                if r.kind in ('glob', 'ext'):
                    self.s.add(Change(r, ev.node, eng.func, '%s()' % name, sure=r.sure and not st.taint))
        out = kw.get('out')
        outs = [out] if isinstance(out, T) and not is_const(out) else []
        if isinstance(out, T) and out.op == 'tuple':
            outs = list(out.a[0])
        for o in outs:
            for r in self.e.alias(o, st, eng):
                self.s.add(Change(r, ev.node, eng.func, 'output of %s' % name, sure=r.sure and not st.taint))
        if n == 'networkx.relabel_nodes' and ev.args and is_const(kw.get('copy', const(True))) and not cval(kw.get('copy', const(True))):
            for r in self.e.alias(ev.args[0], st, eng):
                self.s.add(Change(r, ev.node, eng.func, n, sure=r.sure and not st.taint))
        if n in ('numpy.nan_to_num',) and 'copy' in kw and is_const(kw['copy']) and not cval(kw['copy']) and ev.args:
            for r in self.e.alias(ev.args[0], st, eng):
                self.s.add(Change(r, ev.node, eng.func, n, sure=r.sure and not st.taint))
        if n.startswith('numpy.') and n.endswith('.at') and ev.args:
            for r in self.e.alias(ev.args[0], st, eng):
                self.s.add(Change(r, ev.node, eng.func, n, sure=r.sure and not st.taint))
        if n in ('builtins.setattr', 'builtins.delattr') and ev.args:
            for r in self.e.alias(ev.args[0], st, eng):
                self.s.add(Change(r, ev.node, eng.func, n, sure=r.sure and not st.taint))
        if name.startswith('.') and isinstance(ev.recv, T):
            self.e.by_name(self, name[1:], ev, st, eng)


def canonical(n):
    return n.replace('numpy.random.mtrand.', 'numpy.random.') if isinstance(n, str) else ''


def within(eng, node, *names):
    """Is a node inside a with statement for one of the context managers?"""
    f = eng.func
    body = getattr(f, 'node', None)
    if body is None:
        return False
    for w in ast.walk(body):
        if isinstance(w, (ast.With, ast.AsyncWith)) and any(x is node for x in ast.walk(w)):
            for i in w.items:
                s = ast.unparse(i.context_expr)
                if any(n.split('.')[-1] in s for n in names):
                    return True
    return False


class Effects:
    def __init__(self, ctx, skip=()):
        self.ctx = ctx
        self.prog = ctx.prog
        self.memo = {}
        self.active = set()
        self.methods = {}
        for c in self.prog.classes.values():
            for name, ms in c.methods.items():
                self.methods.setdefault(name, []).extend((c, m) for m in ms)
        self.class_of = {m.fid: c for c in self.prog.classes.values() for ms in c.methods.values() for m in ms}
        self.all = {g.fid for g in self.prog.functions.values() if g.parent is None or g.fid in self.class_of}
        self.inlined = self.initial()

    def initial(self):
        """Functions that run as part of creating an object: followed."""
        res = set()
        for c in self.prog.classes.values():
            for m in c.methods.get('__init__', ()):
                res.add(m.fid)
        return res

    def me(self, f):
        c = self.class_of.get(f.fid)
        if c is None:
            return None
        if self.prog.method_kind(f) in ('staticmethod',):
            return None
        if self.prog.method_kind(f) == 'classmethod':
            return None
        return T('inst', c.cid, 'self', False)

    def summary(self, f):
        s = self.memo.get(f.fid)
        if s is not None:
            return s
        s = Summary()
        self.memo[f.fid] = s
        log = Log(self, f, s)
        me = self.me(f)
        try:
            eng, rets, raises = self.ctx.analyse(f, monitor=log, opaque=self.all - self.inlined - {f.fid}, atomic=True, self_term=me)
        except RecursionError:
            s.tainted = True
            return s
        for st, v in rets:
            if isinstance(v, T):
                s.returns |= self.alias(v, st, eng)
                s.inside |= self.inner(v, st, eng)
                for path, rs in self.parts(v, st, eng).items():
                    s.parts.setdefault(path, set()).update(rs)
        return s

    def parts(self, v, st, eng, depth=0):
        """Roots found in the attributes of objects made by the function."""
        out = {}
        if not isinstance(v, T) or depth > 4:
            return out
        v = strip_at(v)
        for r in self.alias(v, st, eng):
            out.setdefault((), set()).add(r)
        if v.op == 'inst' and v.a[1] != 'self':
            for (b, name), y in list(st.heap.items()):
                if b is v and isinstance(name, str) and name != '#':
                    for path, rs in self.parts(y, st, eng, depth + 1).items():
                        out.setdefault((name,) + path, set()).update(rs)
        elif v.op == 'phi':
            for y in eng.alternatives(v):
                for path, rs in self.parts(y, st, eng, depth + 1).items():
                    out.setdefault(path, set()).update(rs)
        elif v.op == 'call' and isinstance(v.a[0], T) and v.a[0].op == 'func':
            s, d = self.result(v)
            if s is not None:
                for path, rs in s.parts.items():
                    if path:
                        for r in rs:
                            out.setdefault(path, set()).update(self.translate(r, d, st, eng))
        return out

    # -- aliases ---------------------------------------------------------
    def alias(self, t, st, eng, depth=0):
        """Roots that the object a term denotes is, or is part of."""
        t = strip_at(t) if isinstance(t, T) else t
        if not isinstance(t, T) or depth > 25:
            return set()
        op = t.op
        rec = lambda y: self.alias(y, st, eng, depth + 1)
        if op == 'in':
            return {Root('in', t.a[0])}
        if op == 'inst' and t.a[1] == 'self':
            return {Root('self', 'self')}
        if op == 'glob':
            return {Root('glob', '%s.%s' % (t.a[0], t.a[1]))}
        if op == 'cls':
            return {Root('cls', t.a[0])}
        if op == 'mod':
            return {Root('glob', t.a[0])}
        if op == 'func':
            return {Root('func', t.a[0])}
        if op == 'ext':
            return {Root('ext', t.a[0])}
        if op == 'attr':
            b = strip_at(t.a[0])
            name = t.a[1]
            roots = rec(b)
            if b.op == 'ext':
                return {Root('ext', b.a[0] + '.' + name)}
            out = set()
            for r in roots:
                out |= self.attribute(r, name)
            return out
        if op == 'sub':
            i = t.a[1]
            sure = not (isinstance(i, T) and (i.op == 'slice' or i.op == 'tuple' and any(y.op == 'slice' for y in i.a[0] if isinstance(y, T)) or i.op in ('call', 'cmp', 'phi', 'bin', 'comp', 'obj')))
            return {r.down(sure=sure) for r in self.inner(t.a[0], st, eng, depth + 1)}
        if op == 'elem':
            return {r.down() for r in self.inner(t.a[0], st, eng, depth + 1)}
        if op == 'phi':
            out = set()
            for y in eng.alternatives(t):
                out |= rec(y)
            return out
        if op in ('and', 'or'):
            out = set()
            for y in t.a[0] if isinstance(t.a[0], tuple) else t.a:
                out |= rec(y)
            return out
        if op in ('ifexp', 'cond'):
            return rec(t.a[1]) | rec(t.a[2])
        if op == 'entered':
            return rec(t.a[0])
        if op == 'call':
            return self.call_alias(t, st, eng, depth)
        return set()

    def attribute(self, r, name, inside=False):
        """Roots of an attribute of a root, or of its elements."""
        if name in ('shape', 'dtype', 'ndim', '__class__', '__name__', '__doc__'):
            return set()
        getters = [m for c, m in self.methods.get(name, ()) if self.prog.method_kind(m) == 'property']
        if getters and r.kind in ('in', 'self', 'glob') and not (r.kind == 'self' and not r.path and not any(self.class_of[m.fid] for m in getters)):
            if self.is_plain(name):
                return {r.down(name)}
            out = set()
            for m in getters:
                if m.fid in self.active:
                    continue
                self.active.add(m.fid)
                try:
                    s = self.summary(m)
                finally:
                    self.active.discard(m.fid)
                for x in s.inside if inside else s.returns:
                    if x.kind == 'self':
                        y = r
                        for p in x.path:
                            y = y.down(p)
                        if x.elem:
                            y = y.down()
                        out.add(y)
            return out
        return {r.down(name)}

    def lists(self):
        """Attributes that hold a list from the start."""
        if not hasattr(self, '_lists'):
            self._lists = set()
            for c in self.prog.classes.values():
                for name, vs in prog_types(self.prog).init_of(c).items():
                    if vs and all(isinstance(v, T) and v.op == 'obj' and v.a[0] == 'list' for v in vs):
                        self._lists.add(name)
        return self._lists

    def is_plain(self, name):
        """Is a name an attribute set on objects of some class?"""
        if not hasattr(self, '_plain'):
            self._plain = set()
            for c in self.prog.classes.values():
                for ms in c.methods.values():
                    for m in ms:
                        for n in ast.walk(m.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                                self._plain.add(n.attr)
        return name in self._plain

    def inner(self, t, st, eng, depth=0):
        """Roots of which the elements of an object are elements, or which
        they are: the object itself where it is one."""
        t = strip_at(t) if isinstance(t, T) else t
        if not isinstance(t, T) or depth > 25:
            return set()
        rec = lambda y: self.inner(y, st, eng, depth + 1)
        out = set(self.alias(t, st, eng, depth + 1))
        op = t.op
        c = st.heap.get((t, '#')) if st is not None else None
        if c is not None and c.op == 'seq':
            for y in c.a[0]:
                if isinstance(y, T):
                    out |= rec(y.a[0]) if y.op == 'star' else self.alias(y, st, eng, depth + 1)
        elif c is not None and c.op == 'ditems':
            for y in c.a[0]:
                out |= self.alias(y.a[1], st, eng, depth + 1)
        elif c is not None and c.op == 'phi':
            for y in eng.alternatives(c):
                if y.op == 'seq':
                    for z in y.a[0]:
                        if isinstance(z, T):
                            out |= rec(z.a[0]) if z.op == 'star' else self.alias(z, st, eng, depth + 1)
        if op == 'tuple':
            for y in t.a[0]:
                out |= self.alias(y, st, eng, depth + 1)
        elif op == 'seqv':
            for y in t.a[1]:
                out |= self.alias(y, st, eng, depth + 1)
        elif op == 'comp':
            v = t.a[1]
            if isinstance(v, T):
                out |= self.alias(v.a[1] if v.op == 'kv' else v, st, eng, depth + 1)
        elif op == 'phi':
            for y in eng.alternatives(t):
                out |= rec(y)
        elif op == 'bin' and t.a[0] in ('+', '*'):
            ys = [y for y in t.a[1:] if isinstance(y, T)]
            known = any(strip_at(y).op in ('obj', 'seqv', 'comp', 'tuple') or any(r.path and r.path[-1] in self.lists() for r in self.alias(y, st, eng, depth + 1)) for y in ys)
            if known:
                for y in ys:
                    out |= {r.down() for r in rec(y)}
        elif op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice':
            out |= rec(t.a[0])
        elif op == 'attr':
            for r in self.alias(t.a[0], st, eng, depth + 1):
                out |= self.attribute(r, t.a[1], inside=True)
        elif op == 'call':
            n = ext(t)
            b, m = method_of(t)
            if n in SHALLOW:
                for y in t.a[1]:
                    out |= rec(y)
            elif m == 'copy' and b is not None:
                if not self.graph_like(b):
                    out |= {Root(r.kind, r.name, r.path, False, r.elem) for r in rec(b)}
            elif isinstance(t.a[0], T) and t.a[0].op == 'func':
                s, d = self.result(t)
                if s is not None:
                    for r in s.inside:
                        out |= self.translate(r, d, st, eng, depth)
        return out

    def graph_like(self, t):
        """Is a term a graph, going by the way it is named or used?"""
        t = strip_at(t)
        for y in walk(t):
            if y.op in ('in', 'attr') and 'graph' in str(y.a[0] if y.op == 'in' else y.a[1]):
                return True
            if (ext(y) or '').startswith('networkx.'):
                return True
            b, m = method_of(y)
            if m in ('subgraph', 'edge_subgraph'):
                return True
        return False

    def result(self, t):
        """(summary, arguments) of a call of a package function."""
        f = self.prog.functions.get(t.a[0].a[0])
        if f is None or f.fid in self.active:
            return None, None
        self.active.add(f.fid)
        try:
            s = self.summary(f)
        finally:
            self.active.discard(f.fid)
        return s, bind(f, t.a[1], t.a[2])

    def translate(self, r, d, st, eng, depth=0):
        """A root of a callee in terms of the caller."""
        if r.kind in ('in', 'self'):
            v = d.get(r.name)
            if v is None:
                return set()
            v = self.follow(v, r.path, st)
            if v is None:
                return set()
            v, rest = v
            base = self.alias(v, st, eng, depth + 1)
            out = set()
            for x in base:
                for p in rest:
                    x = x.down(p)
                if r.elem:
                    x = x.down()
                out.add(Root(x.kind, x.name, x.path, x.sure and r.sure, x.elem))
            if r.elem and not rest:
                for x in self.inner(v, st, eng, depth + 1):
                    x = x.down()
                    out.add(Root(x.kind, x.name, x.path, x.sure and r.sure, x.elem))
            return out
        return {r}

    def follow(self, v, path, st):
        """Walk along attributes through objects made by the caller."""
        v = strip_at(v)
        path = list(path)
        while path and v.op == 'inst' and v.a[1] != 'self':
            y = st.heap.get((v, path[0]))
            if y is None:
                return None
            v = strip_at(y)
            path.pop(0)
        return v, path

    def call_alias(self, t, st, eng, depth):
        rec = lambda y: self.alias(y, st, eng, depth + 1)
        n = ext(t)
        b, m = method_of(t)
        kw = {k: v for k, v in t.a[2]} if len(t.a) > 2 else {}
        if n is not None:
            if n in VIEWS and t.a[1]:
                d = kw.get('dtype') or (t.a[1][1] if n in ('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray') and len(t.a[1]) > 1 else None)
                # an array of floats is what callers give: this makes no copy of it
                if d is not None and show(d) not in ('float', 'builtins.float', 'numpy.float64', "'float'", "'float64'", 'None', 'double', 'numpy.double'):
                    return {Root(r.kind, r.name, r.path, False, r.elem) for r in rec(t.a[1][0])}
                return rec(t.a[1][0])
            if n == 'numpy.array' and t.a[1] and 'copy' in kw and is_const(kw['copy']) and not cval(kw['copy']):
                return rec(t.a[1][0])
            if n == 'copy.copy' and t.a[1] and self.graph_like(t.a[1][0]):
                return {r.down() for r in rec(t.a[1][0])}
            if n in ELEMENT:
                out = set()
                for y in t.a[1]:
                    out |= {r.down() for r in self.inner(y, st, eng, depth + 1)}
                return out
            return set()
        if isinstance(t.a[0], T) and t.a[0].op == 'func':
            s, d = self.result(t)
            if s is None:
                return set()
            out = set()
            for r in s.returns:
                out |= self.translate(r, d, st, eng, depth)
            return out
        if m is not None and b is not None:
            if m in VIEW_METHODS:
                return rec(b)
            if m in ELEMENT_METHODS:
                return {r.down() for r in self.inner(b, st, eng, depth + 1)} | (rec(t.a[1][1]) if m in ('get', 'setdefault') and len(t.a[1]) > 1 else set())
            if m == 'copy' and is_const(kw.get('as_view', const(False))) and cval(kw.get('as_view', const(False))):
                return rec(b)
            if m == 'astype' and 'copy' in kw and is_const(kw['copy']) and not cval(kw['copy']):
                return {Root(r.kind, r.name, r.path, False, r.elem) for r in rec(b)}
        return set()

    # -- calls -----------------------------------------------------------
    def called(self, log, f, args, kwargs, st, eng, node, sure=True):
        if f.fid in self.active:
            return
        self.active.add(f.fid)
        try:
            s = self.summary(f)
        finally:
            self.active.discard(f.fid)
        d = bind(f, args, list(dict(kwargs or {}).items()))
        for ch in list(s.changes.values()):
            if ch.root.kind not in ('in', 'self'):
                continue
            if ch.root.kind == 'self' and not ch.root.path and not ch.root.elem and f.name == '__init__':
                continue
            for r in self.translate(ch.root, d, st, eng):
                log.s.add(Change(r, ch.node, ch.func, ch.text, sure=sure and ch.sure and r.sure and not st.taint, via=((node, eng.func),) + tuple(ch.via)[:3]))

    def by_name(self, log, name, ev, st, eng):
        """A method of an object whose class is not known."""
        ms = [(c, m) for c, m in self.methods.get(name, ())]
        if not ms or name.startswith('__'):
            return
        roots = [r for r in self.alias(ev.recv, st, eng) if r.kind in ('in', 'self')]
        if not roots:
            return
        found = []
        for c, m in ms:
            if m.fid in self.active:
                found.append((m, []))
                continue
            self.active.add(m.fid)
            try:
                s = self.summary(m)
            finally:
                self.active.discard(m.fid)
            found.append((m, [ch for ch in list(s.changes.values()) if ch.root.kind == 'self']))
        every = all(any(ch.sure for ch in chs) for m, chs in found)
        for m, chs in found:
            for ch in chs:
                for r in roots:
                    log.s.add(Change(r, ch.node, ch.func, ch.text, sure=ch.sure and every and r.sure and not st.taint, via=((ev.node, eng.func),) + tuple(ch.via)[:3]))

    # -- kinds -----------------------------------------------------------
    def arraylike(self, r, t, f):
        """Does an in-place operator change the object?  True, False (not
        known), or None (it cannot)."""
        n = ext(t)
        if n in VIEWS:
            return True
        b, m = method_of(t)
        c = strip_at(t.a[0]) if t.op == 'elem' else None
        if c is not None and c.op == 'comp' and isinstance(c.a[1], T) and strip_at(c.a[1]).op == 'attr' and strip_at(c.a[1]).a[1] in ARRAYS - {'value'}:
            return True
        if m in VIEW_METHODS:
            return True
        if t.op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice':
            return False
        if r.path and r.path[-1] in ARRAYS:
            return True if r.path[-1] != 'value' else False
        if r.elem:
            return False
        if r.kind == 'in' and not r.path:
            for x in ast.walk(f.node):
                if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Name) and x.iter.id == r.name:
                    return True
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == r.name:
                    return True
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == r.name and x.attr in ('shape', 'T', 'ndim', 'reshape'):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == r.name:
                    return True
            if r.name in ARRAYS | {'pos', 'pos1', 'pos2', 'vec', 'vector', 'frac', 'simplex'}:
                return True
        return False


def bind(f, args, kwargs):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names, args))
    d.update({k: v for k, v in kwargs})
    if names and names[0] in d and names[0] not in ('self',):
        d.setdefault('self', d[names[0]])
    return d


def defaults(f):
    """Parameter -> default expression."""
    a = f.node.args
    ps = a.posonlyargs + a.args
    out = {}
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        out[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = d
    return out


def mutable_default(prog, f, d):
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        r = prog.resolve_expr(f.module, d.func)
        if isinstance(r, str):
            return r in MUTABLE_CALLS
        if isinstance(r, Class):
            return True
    if isinstance(d, ast.Name):
        b = f.module.bindings.get(d.id)
        if b and len(b) == 1 and b[0][0] == 'expr':
            return mutable_default(prog, f, b[0][1]) if not isinstance(b[0][1], ast.Name) else False
    return False
