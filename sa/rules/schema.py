"""Rules about what is written to and read from files, and about copying
(C03, C26, C35)."""

import ast
import os

from ..engine import Engine, Monitor, DEAD, strip_at, strip_iter, prog_types
from ..loader import AnalysisError, Function, Class
from ..terms import T, NONE, TRUE, FALSE, UNDEF, const, is_const, cval, ext, attr, call, walk, show
from .. import roles as R
from .search import plain, mentions, loose, opt_attrs, Rec, EMPTY, comp_conds
from .results import self_of
from .persist import literal_names, versions, read_closure, self_names

HANDLE = T('in', 'hdf5_handle')
LOAD = ('fsc.hdf5_io.from_hdf5',)
SAVE = ('fsc.hdf5_io.to_hdf5',)


def tagged(prog):
    """[(class, main tag, extra tags, decorator)]."""
    res = []
    for c in prog.classes.values():
        for main, extras, node in prog.tags(c):
            res.append((c, main, extras, node))
    return res


def is_mapping(prog, cls):
    """The class uses the generic to_hdf5 / from_hdf5 of SimpleHDF5Mapping."""
    return any(str(b).endswith('SimpleHDF5Mapping') for b in prog.ext_bases(cls))


def parameters(prog, cls):
    """(required, optional, takes any keyword) of the constructor."""
    f = prog.find_method(cls, '__init__')
    if f is None:
        return [], [], True
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    opt = pos[len(pos) - nd:] if nd else []
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        (req if d is None else opt).append(x.arg)
    return req, opt, a.kwarg is not None


class FlowMonitor(Monitor):
    """Collects what flows into containers, and what is written and read."""

    def __init__(self):
        self.flows = {}          # term -> set of terms put into it
        self.how = {}            # term put -> names of the methods used
        self.writes = []         # (path, value, node, facts)
        self.reads = []          # (path, node, guarded)
        self.news = []           # (class, {param: value}, node)
        self.caught = set()

    def init(self):
        return EMPTY

    def put(self, base, vals, how):
        b = strip_at(base)
        self.flows.setdefault(b, set()).update(v for v in vals if v is not None)
        for v in vals:
            if v is not None:
                self.how.setdefault(v, set()).add(how)

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k == 'mutate':
            self.put(ev.base, list(ev.args) + list((ev.kwargs or {}).values()), ev.method)
        elif k == 'storesub':
            p = path_of(ev.base)
            if p is not None and (ev.idx.op == 'const' or self.dynamic(ev.idx)):
                key = p + ((str(cval(ev.idx)),) if ev.idx.op == 'const' else ('*',))
                self.writes.append((key, ev.value, ev.node, dict(st.facts), st))
                return m.set(w=tuple(sorted(set(m.get('w', ())) | {key})))
            if p is not None:
                self.writes.append((p + ('?',), ev.value, ev.node, dict(st.facts), st))
                return m.set(w=tuple(sorted(set(m.get('w', ())) | {p + ('?',)})))
            self.put(ev.base, [ev.value], '[]=')
        elif k in ('call', 'pcall') and ev.name:
            if ev.name in SAVE and len(ev.args) >= 2:
                p = path_of(ev.args[1])
                if p is not None and k == 'call':
                    self.writes.append((p, ev.args[0], ev.node, dict(st.facts), st))
                    return m.set(w=tuple(sorted(set(m.get('w', ())) | {p})))
            elif ev.name == '.create_dataset' and k == 'call' and ev.recv is not None:
                p = path_of(ev.recv)
                name = ev.args[0] if ev.args else ev.kwargs.get('name')
                if p is not None and name is not None and name.op == 'const':
                    v = ev.kwargs.get('data', ev.args[3] if len(ev.args) > 3 else None)
                    self.writes.append((p + (cval(name),), v, ev.node, dict(st.facts), st))
                    return m.set(w=tuple(sorted(set(m.get('w', ())) | {p + (cval(name),)})))
            elif ev.name[0] == '.' and ev.recv is not None and ev.args and path_of(ev.recv) is None:
                self.put(ev.recv, list(ev.args), ev.name[1:])
        elif k == 'getitem':
            p = path_of(ev.base)
            if p is not None and ev.idx.op == 'const' and isinstance(cval(ev.idx), str):
                key = p + (cval(ev.idx),)
                guarded = any(f[0] == 'in' and v is True and f[1] is ev.idx and strip_at(f[2]) is strip_at(ev.base) for f, v in st.facts.items()) or self.guarded_by_keys(st, ev)
                self.reads.append((key, ev.node, guarded))
        elif k == 'new':
            f = eng.prog.find_method(ev.cls, '__init__')
            d = dict(ev.kwargs)
            if f is not None:
                a = f.node.args
                for n, v in zip([x.arg for x in a.posonlyargs + a.args][1:], ev.args):
                    d.setdefault(n, v)
            self.news.append((ev.cls, d, ev.node, st))
        elif k == 'caught':
            self.caught.add((eng.func.qual, ev.handler))
        return m

    @staticmethod
    def guarded_by_keys(st, ev):
        for f, v in st.facts.items():
            if f[0] == 'in' and v is True and f[1] is ev.idx:
                t = strip_at(f[2])
                if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] == 'keys' and strip_at(t.a[0].a[0]) is strip_at(ev.base):
                    return True
        return False

    @staticmethod
    def dynamic(idx):
        return idx.op == 'elem'

    def content(self, v, heap=None):
        """All terms that may be inside a value."""
        res, todo = set(), [v]
        while todo:
            t = todo.pop()
            if t in res:
                continue
            res.add(t)
            for y in walk(t):
                if y is not t and y not in res:
                    todo.append(y)
                for z in self.flows.get(y, ()):
                    if z not in res:
                        todo.append(z)
                if heap is not None and y.op == 'obj':
                    c = heap.get((y, '#'))
                    if c is not None and c not in res:
                        todo.append(c)
        return res


def path_of(t):
    """Key path of a term inside the file handle, or None."""
    t = strip_at(t)
    if t is HANDLE:
        return ()
    if t.op == 'sub' and t.a[1].op == 'const' and isinstance(cval(t.a[1]), str):
        p = path_of(t.a[0])
        return None if p is None else p + (cval(t.a[1]),)
    if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('create_group', 'require_group', 'get') and t.a[1] and t.a[1][0].op == 'const':
        p = path_of(t.a[0].a[0])
        return None if p is None else p + (str(cval(t.a[1][0])),)
    return None


def paths_in(terms):
    """Key paths read anywhere in a set of terms (only the longest ones)."""
    ps = set()
    for t in terms:
        p = path_of(t)
        if p:
            ps.add(p)
    return {p for p in ps if not any(q != p and q[:len(p)] == p for q in ps)}


def partial(t):
    """A reason why a term is only a part of the data it is made from."""
    for y in walk(t):
        if y.op == 'comp':
            for g in y.a[2]:
                for c in g[2]:
                    return 'filtered by %s' % show(c)
            if len(y.a[2]) == 1:
                whole, items = uses(y.a[1], y.a[2][0][0])
                if not whole and len(items) == 1:
                    return 'only item %s of each' % items.pop()
        if y.op == 'sub' and y.a[1].op == 'slice' and any(isinstance(x, T) and x is not NONE for x in y.a[1].a):
            return 'sliced %s' % show(y)
    return None


def uses(t, e):
    """(e is used as a whole, constant items of e used) in a term."""
    if t is e:
        return True, set()
    if t.op == 'sub' and t.a[0] is e and t.a[1].op == 'const':
        return False, {cval(t.a[1])}
    whole, items = False, set()
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += x
        elif isinstance(x, T):
            w, i = uses(x, e)
            whole = whole or w
            items |= i
    return whole, items


def init_values(prog, cls, name):
    return prog_types(prog).init_of(cls).get(name)


def class_loc(ctx, cls):
    return ctx.loc(cls.module, cls.node)


CONV = ('builtins.tuple', 'builtins.list', 'builtins.sorted', 'numpy.array', 'numpy.asarray', 'builtins.float', 'builtins.int', 'builtins.bool', 'builtins.set',
        'builtins.frozenset', 'builtins.dict', 'numpy.sort', 'numpy.atleast_1d', 'numpy.atleast_2d', 'copy.copy', 'copy.deepcopy', 'builtins.str',
        'networkx.Graph', 'collections.Counter', 'numpy.copy', 'builtins.min', 'builtins.max', 'builtins.abs', 'numpy.abs', 'numpy.absolute')


def changes(v, x):
    """Whether applying ``v`` (a term over x) twice differs from applying it once:
    True for arithmetic on x, False for conversions, None if not understood."""
    v = strip_at(v)
    if v is x or not mentions(v, x):
        return False
    if v.op == 'bin':
        if v.a[0] in ('+', '-', '*', '/', '**', '//', '@') and any(is_const(z) or not mentions(z, x) for z in v.a[1:3] if isinstance(z, T)):
            inner = [z for z in v.a[1:3] if isinstance(z, T) and mentions(z, x)]
            other = [z for z in v.a[1:3] if isinstance(z, T) and not mentions(z, x)]
            if other and other[0].op == 'const':
                neutral = {'+': 0, '-': 0, '*': 1, '/': 1, '**': 1, '//': None, '@': None}[v.a[0]]
                if cval(other[0]) == neutral and v.a[0] in '+-*/**':
                    return changes(inner[0], x)
            return True
        return None
    if v.op == 'un' and v.a[0] == '-':
        return True
    if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in CONV:
        rs = {changes(a, x) for a in v.a[1] if mentions(a, x)}
        return True if True in rs else None if None in rs else False
    if v.op == 'comp':
        rs = set()
        for g in v.a[2]:
            if g[2]:
                return None
        e = v.a[1]
        for y in walk(e):
            if y.op == 'bin' and mentions(y, x):
                return None
        return False
    return None


# ---------------------------------------------------------------------------
# C03

def c03(ctx):
    prog = ctx.prog
    ctx.rule('fields', 'for a class saved through its list of attributes: the list, the constructor parameters and the attributes agree; no parameter is left out')
    ctx.rule('value', 'the constructor stores every listed parameter under its own name without changing the value')
    ctx.rule('keys', 'for a class with its own to_hdf5 / from_hdf5: every key read is written on every path on which it is read, every key written is read back into the field it came from, complete')
    ctx.rule('tag', "every class that can be saved has a type tag below 'nodefinder.', and importing nodefinder imports its module")
    ctx.rule('text', 'strings, which the file format hands out as bytes, are decoded when loading attributes of unknown type')
    tags = tagged(prog)
    ctx.require(tags, 'no class with a type tag')
    n = 0
    for c, main, extras, node in tags:
        if has_own(prog, c):
            custom(ctx, c)
        elif is_mapping(prog, c):
            mapping(ctx, c)
        else:
            ctx.undecided('fields', c.name, 'how the class is saved was not understood')
        n += 1
    tag_rules(ctx, tags)


def has_own(prog, cls):
    return bool(versions(prog, cls, 'to_hdf5') or versions(prog, cls, 'from_hdf5'))


def mapping(ctx, cls):
    prog = ctx.prog
    loc = class_loc(ctx, cls)
    A, O = literal_names(prog, cls, 'HDF5_ATTRIBUTES'), literal_names(prog, cls, 'HDF5_OPTIONAL')
    if A is None or O is None:
        A, O = computed_names(prog, cls)
        if A is None:
            ctx.undecided('fields', cls.name, 'the list of attributes is not a constant')
            return
    req, opt, anykw = parameters(prog, cls)
    for x in set(A) & set(O):
        ctx.bad('fields', loc, cls.name, '%s is listed both as required and as optional, which is an error when saving' % x)
    if not anykw:
        for x in [x for x in list(A) + list(O) if x not in req + opt]:
            ctx.bad('fields', loc, cls.name, 'the saved attribute %s is no parameter of the constructor, so loading fails' % x)
    for x in req:
        if x not in A:
            ctx.bad('fields', loc, cls.name, 'the constructor needs %s, which is %s' % (x, 'only saved if it exists' if x in O else 'not saved'))
    for x in opt:
        if x not in A and x not in O and stored(prog, cls, x):
            ctx.bad('fields', loc, cls.name, '%s is given to the constructor and kept, but not saved' % x)
    if prog.find_method(cls, '__init__') is None and not anykw:
        ctx.undecided('fields', cls.name, 'no constructor')
    for x in list(A) + list(O):
        if x not in req + opt:
            continue
        p = T('in', x)
        vals = init_values(prog, cls, x)
        g = prog.find_method(cls, x) or prog.find_method(cls, x, 'get')
        if g is not None:
            prop_source(ctx, cls, x, g)
        elif not vals:
            if not versions(prog, cls, '__getattr__') and x not in getattr(cls, 'attrs', {}):
                ctx.bad('value', loc, cls.name, 'the attribute %s, which is saved, is never set' % x)
            else:
                ctx.undecided('value', '%s.%s' % (cls.name, x), 'dynamic attribute')
        else:
            bad = False
            for v in vals:
                if v.op == 'inst' or v.op == 'obj':
                    bad = None if bad is False else bad
                    continue
                if not mentions(v, p):
                    others = [y.a[0] for y in walk(v) if y.op == 'in' and y.a[0] in req + opt and y.a[0] != x]
                    if others:
                        bad = True
                        ctx.bad('value', loc, cls.name, 'the attribute %s, which is saved and loaded as %s, holds %s instead' % (x, x, show(v)))
                    elif v.op == 'const' and len(vals) == 1:
                        bad = True
                        ctx.bad('value', loc, cls.name, 'the attribute %s, which is saved, does not hold the given value but %s' % (x, show(v)))
                    elif v.op != 'const':
                        bad = None
                    continue
                ch = changes(v, p)
                why = partial(v)
                if ch is True:
                    bad = True
                    ctx.bad('value', loc, cls.name, 'the attribute %s holds %s: a loaded object differs from the saved one' % (x, show(v)))
                elif why and 'filtered' in why:
                    bad = True
                    ctx.bad('value', loc, cls.name, 'the attribute %s holds only a part of what is given (%s)' % (x, why))
                elif ch is None and bad is False:
                    bad = None
            if bad is False:
                ctx.ok('value', '%s.%s' % (cls.name, x))
            elif bad is None:
                holds_given(ctx, cls, x)
    if not any(v.func == cls.name for v in ctx.violations.values()):
        ctx.ok('fields', '%s: %s' % (cls.name, ', '.join(list(A) + list(O))))


def computed_names(prog, cls):
    """Attribute lists that are sums of constants."""
    def lst(what):
        for c in prog.mro(cls):
            if what in c.attrs:
                v = c.attrs[what]
                return fold(prog, c.module, v)
        return []

    def fold(p, m, n):
        v = p.const_expr(m, n)
        if v is not None:
            return list(v) if isinstance(v, (list, tuple, set, frozenset)) else None
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = fold(p, m, n.left), fold(p, m, n.right)
            return None if a is None or b is None else a + b
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'sorted') and len(n.args) == 1:
            return fold(p, m, n.args[0])
        if isinstance(n, (ast.List, ast.Tuple)):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = fold(p, m, e.value)
                    if v is None:
                        return None
                    out += v
                else:
                    v = p.const_expr(m, e)
                    if v is None:
                        return None
                    out.append(v)
            return out
        if isinstance(n, ast.Name):
            r = m.bindings.get(n.id)
            if r and len(r) == 1 and r[0][0] == 'expr':
                return fold(p, m, r[0][1])
        return None
    A, O = lst('HDF5_ATTRIBUTES'), lst('HDF5_OPTIONAL')
    return (A, O) if A is not None and O is not None else (None, None)


def stored(prog, cls, x):
    """Whether the constructor keeps the parameter in the object."""
    p = T('in', x)
    f = prog.find_method(cls, '__init__')
    vals = prog_types(prog).init_of(cls)
    for n, vs in vals.items():
        if any(mentions(v, p) for v in vs):
            return True
    # items of it are handed to methods of the object
    for n in ast.walk(f.node) if f is not None else ():
        if isinstance(n, ast.For) and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(n.iter)):
            return True
    return False


def holds_given(ctx, cls, x):
    """A container attribute that the constructor fills with the items given."""
    prog = ctx.prog
    me, p = self_of(cls), T('in', x)
    f = prog.find_method(cls, '__init__')
    mon = FlowMonitor()
    eng, rets, raises = ctx.analyse(f, self_term=me, monitor=mon, label='%s(%s)' % (cls.name, x))
    vals = init_values(prog, cls, x) or ()
    for s, _ in rets:
        v = s.heap.get((me, x))
        if v is None:
            continue
        if any(mentions(c, p) for c in mon.content(v, s.heap)) or attr_content(mon, s, v, p):
            ctx.ok('value', '%s.%s is filled from the parameter' % (cls.name, x))
            return
    ctx.undecided('value', '%s.%s' % (cls.name, x), 'how the value enters the object')


def attr_content(mon, s, v, p):
    """Content of the attributes of a helper object."""
    for (b, k), w in s.heap.items():
        if b is v and isinstance(k, str):
            if any(mentions(c, p) for c in mon.content(w, s.heap)):
                return True
    for b, xs in mon.flows.items():
        if mentions(b, v) and any(mentions(x, p) for x in xs):
            return True
    return False


def prop_source(ctx, cls, x, g):
    """A listed attribute that is computed: the parameter has to enter what it is
    computed from."""
    prog = ctx.prog
    me, p = self_of(cls), T('in', x)
    f = prog.find_method(cls, '__init__')
    mon = FlowMonitor()
    eng, rets, raises = ctx.analyse(f, self_term=me, monitor=mon, label='%s(%s)' % (cls.name, x))
    attrs, fs = read_closure(prog, cls, [x])
    got = set()
    for s, _ in rets:
        for n in attrs:
            v = s.heap.get((me, n))
            if v is None:
                continue
            if any(mentions(c, p) for c in mon.content(v, s.heap)) or attr_content(mon, s, v, p):
                got.add(n)
    if cls is R.get(prog).result:
        from .results import collections
        cols = collections(ctx, R.get(prog))
        for kind in ('node', 'rejected'):
            for n in cols[kind]:
                if n not in attrs and x == 'minimization_results':
                    ctx.bad('value', ctx.loc(g), g.qual, '%s, which is saved, leaves out the results in %s' % (x, n))
    if got:
        ctx.ok('value', '%s.%s is computed from %s, which holds the parameter' % (cls.name, x, ', '.join(sorted(got))))
    else:
        ctx.undecided('value', '%s.%s' % (cls.name, x), 'how the value enters the object')


def run_pair(ctx, cls):
    prog = ctx.prog
    w, r = prog.find_method(cls, 'to_hdf5'), prog.find_method(cls, 'from_hdf5')
    if w is None or r is None:
        return None
    me = self_of(cls)
    wm, rm = FlowMonitor(), FlowMonitor()
    we, wr, wx = ctx.analyse(w, [HANDLE], [], self_term=me, monitor=wm, label='%s.to_hdf5' % cls.name)
    re_, rr, rx = ctx.analyse(r, [T('cls', cls.cid), HANDLE], [], monitor=rm, label='%s.from_hdf5' % cls.name)
    return w, r, me, wm, rm, (we, wr, wx), (re_, rr, rx)


def sources(prog, cls, x):
    """Attributes that make up the field belonging to a parameter."""
    attrs, fs = read_closure(prog, cls, [x])
    vals = prog_types(prog).init_of(cls)
    for n, vs in vals.items():
        if any(mentions(v, T('in', x)) for v in vs):
            attrs.add(n)
    return attrs


def fields_of(term_set, me):
    return {y.a[1] for t in term_set for y in walk(t) if y.op == 'attr' and y.a[0] is me}


def custom(ctx, cls):
    prog = ctx.prog
    got = run_pair(ctx, cls)
    if got is None:
        ctx.bad('keys', class_loc(ctx, cls), cls.name, 'the class has no method to %s' % ('save' if prog.find_method(cls, 'to_hdf5') is None else 'load'))
        return
    w, r, me, wm, rm, (we, wr, wx), (re_, rr, rx) = got
    if any(p[0][-1:] == ('*',) for p in wm.writes) or any('**' in d for c, d, _, _ in rm.news if c is cls):
        dynamic(ctx, cls, w, r, me, wm, rm, we, wr)
        return
    before = len(ctx.violations)
    news = [(d, node, st) for c, d, node, st in rm.news if c is cls]
    if not news or not wm.writes or any(p[-1:] == ('?',) for p, *_ in wm.writes):
        ctx.undecided('keys', cls.name, 'the keys were not understood')
        return
    req, opt, anykw = parameters(prog, cls)
    written = {}
    for p, v, node, facts, st in wm.writes:
        written.setdefault(p, []).append((v, node, facts, st))
    used = set()
    for x in req + opt:
        vals = [(d.get(x), st) for d, node, st in news]
        if all(v is None for v, _ in vals):
            if x in req or stored(prog, cls, x):
                ctx.bad('keys', ctx.loc(r), r.qual, '%s is not restored when loading' % x)
            continue
        keys = set()
        for v, st in vals:
            if v is not None:
                content = rm.content(v, st.heap)
                keys |= paths_in(content)
                for t in content:
                    why = partial(t)
                    if why and any(path_of(y) for y in walk(t)):
                        ctx.bad('keys', ctx.loc(r), r.qual, 'only a part of %s is restored (%s)' % (x, why))
        used |= keys
        src = sources(prog, cls, x)
        if not keys:
            vs = [v for v, _ in vals if v is not None]
            if vs and all(v.op == 'const' for v in vs):
                ctx.bad('keys', ctx.loc(r), r.qual, '%s is not restored when loading' % x)
            else:
                ctx.undecided('keys', '%s.%s' % (cls.name, x), 'which key it is read from')
            continue
        fine = True
        for k in sorted(keys):
            ws = matching(written, k)
            if not ws:
                fine = False
                ctx.bad('keys', ctx.loc(r), r.qual, '%s is read from %s, which is never written' % (x, '/'.join(k)))
                continue
            for v, node, facts, st in ws:
                content = wm.content(v, st.heap) if v is not None else set()
                fs = fields_of(content, me)
                if fs and src and not fs & src:
                    fine = False
                    ctx.bad('keys', ctx.loc(w, node), w.qual, '%s is restored from %s, where %s was written' % (x, '/'.join(k), ', '.join(sorted(fs))))
                elif not fs:
                    if v is not None and v.op == 'const':
                        # constant marker on a path on which the field has that value?
                        ctx.undecided('keys', '%s.%s' % (cls.name, x), 'a constant is written to %s' % '/'.join(k))
                    else:
                        ctx.undecided('keys', '%s.%s' % (cls.name, x), 'what is written to %s' % '/'.join(k))
                    fine = False
                for t in content:
                    why = partial(t)
                    if why:
                        fine = False
                        ctx.bad('keys', ctx.loc(w, node), w.qual, 'only a part of %s is written (%s)' % (x, why))
                parts(ctx, cls, w, r, x, k, content, me, rm, node)
        if fine:
            ctx.ok('keys', '%s.%s <-> %s' % (cls.name, x, ', '.join('/'.join(k) for k in sorted(keys))))
    for k in written:
        if not any(q[:len(k)] == k or k[:len(q)] == q for q in used):
            ctx.bad('keys', ctx.loc(w, written[k][0][1]), w.qual, '%s is written but never restored' % '/'.join(k))
    # what is read without a check is written on every path
    guards = {}
    for k, node, guarded in rm.reads:
        guards.setdefault(k, []).append((guarded, node))
    for s, _ in wr:
        have = set(s.mon.get('w', ()))
        if s.taint:
            continue
        for k, gs in guards.items():
            if any(h[:len(k)] == k or k[:len(h)] == h for h in have):
                continue
            if k not in written and not any(h[:len(k)] == k for h in written):
                continue
            if not all(g for g, _ in gs):
                if in_handler(prog, r, gs):
                    ctx.undecided('keys', cls.name, 'reading %s is guarded by exceptions' % '/'.join(k))
                    continue
                ctx.bad('keys', ctx.loc(w), w.qual, '%s is not written on every path, but always read when loading' % '/'.join(k))
    # keys left out on some path: only when there is nothing to write
    for k, ws in written.items():
        src = set()
        for v, node, facts, st in ws:
            src |= fields_of(wm.content(v, st.heap), me) if v is not None else set()
        for s, _ in wr:
            if s.taint or k in s.mon.get('w', ()):
                continue
            if not empty_fact(s, me, src, we):
                why = [show_fact(f, v) for f, v in s.facts.items()]
                ctx.bad('keys', ctx.loc(w, ws[0][1]), w.qual, '%s is not written on a path on which %s' % ('/'.join(k), ' and '.join(why) or 'it may be needed'))
    # the line shape keeps nodes and edges of its graph
    if len(ctx.violations) == before:
        ctx.ok('keys', '%s: writes %s' % (cls.name, ', '.join('/'.join(k) for k in sorted(written))))


def show_fact(f, v):
    return '%s is %s' % (' '.join(show(x) if isinstance(x, T) else str(x) for x in f), v if not isinstance(v, frozenset) else ''.join(sorted(v)))


def matching(written, k):
    ws = written.get(k)
    if ws:
        return ws
    res = []
    for q, x in written.items():
        if q[:len(k)] == k or k[:len(q)] == q:
            res += x
    return res


def in_handler(prog, f, gs):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                names = ast.unparse(h.type) if h.type is not None else 'BaseException'
                if any(x in names for x in ('KeyError', 'Exception', 'LookupError')):
                    body = {id(y) for b in n.body for y in ast.walk(b)}
                    if any(id(node) in body for _, node in gs):
                        return True
        if isinstance(n, ast.With) and 'suppress' in ast.unparse(n.items[0].context_expr):
            return True
    return False


def empty_fact(s, me, src, eng):
    """A condition of the path says that a field is empty, absent or None."""
    for f, v in s.facts.items():
        ts = [x for x in f[1:] if isinstance(x, T)]
        if not any(fields_of({t}, me) & src for t in ts):
            continue
        if f[0] == 'truth' and v is False:
            return True
        if f[0] in ('none', 'is', 'isnone', 'empty'):
            return True
        if f[0] == 'ord' and isinstance(v, frozenset):
            if any(t.op == 'const' for t in ts):
                if '=' in v and len(v) <= 2:
                    return any(cval(t) in (0, None) for t in ts if t.op == 'const')
    return False


def parts(ctx, cls, w, r, x, k, content, me, rm, node):
    """nodes and edges of a graph are not mixed up."""
    sub = {z.a[1] for t in content for z in walk(t) if z.op == 'attr' and z.a[0].op in ('attr', 'at') and strip_at(z.a[0]).op == 'attr' and strip_at(z.a[0]).a[0] is me}
    kinds = {n for n in sub if n in ('nodes', 'edges')}
    if len(kinds) != 1:
        return
    kind = kinds.pop()
    hows = set()
    for v, hs in rm.how.items():
        if any(path_of(y) == k for y in walk(v)):
            hows |= hs
    good = {'nodes': {'add_nodes_from', 'add_node'}, 'edges': {'add_edges_from', 'add_edge', 'add_weighted_edges_from'}}
    other = good['edges' if kind == 'nodes' else 'nodes']
    made = {'networkx.add_path', 'networkx.add_cycle', 'networkx.add_star'} & {h for h in hows}
    if kind == 'edges' and made and not hows & good[kind]:
        ctx.bad('keys', ctx.loc(r), r.qual, 'the edges written to %s are restored by %s, which makes edges of its own' % ('/'.join(k), ', '.join(sorted(made))))
    if hows & other and not hows & good[kind]:
        ctx.bad('keys', ctx.loc(r), r.qual, 'the %s written to %s are restored by %s' % (kind, '/'.join(k), ', '.join(sorted(hows))))


def dynamic(ctx, cls, w, r, me, wm, rm, we, wr):
    """All attributes are written under their names and read back."""
    prog = ctx.prog
    src = T('attr', me, '__dict__', None)

    class Loop(Monitor):
        def init(self):
            return EMPTY

        def source(self, ev):
            t = strip_at(ev.it)
            while t.op == 'call' and (t.a[0].op == 'attr' and t.a[0].a[1] in ('items', 'keys') or t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.vars', 'builtins.list', 'builtins.sorted', 'builtins.tuple')):
                t = strip_at(t.a[0].a[0] if t.a[0].op == 'attr' else t.a[1][0])
            return t

        def on(self, ev, m, st, eng):
            k = ev.kind
            if k == 'iter' and (self.source(ev) is self.over or is_dict_of(self.source(ev), self.over)):
                self.seen += 1
                return m.set(it=ev.loop, done=None)
            if k == 'storesub' and m.get('it') is not None:
                ok = ev.idx.op == 'elem' and not (self.base is not None and path_of(ev.base) is None)
                if ok and any(mentions(ev.value, self.over) or mentions(ev.value, y) for y in (ev.idx,)):
                    return m.set(done=True)
                return m
            if k == 'compitem' and m.get('it') is not None:
                return m.set(done=True)
            if k == 'iterend' and m.get('it') == ev.loop:
                if not m.get('done'):
                    tagonly = any(f[0] == 'ord' and v == frozenset('=') and any(isinstance(t, T) and t.op == 'const' and cval(t) == 'type_tag' for t in f[1:]) for f, v in st.facts.items())
                    if not tagonly:
                        eng.report('keys', ev.node, 'an attribute can be left out when %s' % self.verb, st, key=('dyn', self.verb))
                return m.set(it=None, done=None)
            return m

    def is_dict_of(t, over):
        return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.vars' and len(t.a[1]) == 1 and attr(strip_at(t.a[1][0]), '__dict__') is over

    a = Loop()
    a.over, a.base, a.verb, a.seen = src, HANDLE, 'saving', 0
    ctx.analyse(w, [HANDLE], [], self_term=me, monitor=a, label='%s.to_hdf5 over all attributes' % cls.name)
    b = Loop()
    b.over, b.base, b.verb, b.seen = HANDLE, None, 'loading', 0
    ctx.analyse(r, [T('cls', cls.cid), HANDLE], [], monitor=b, label='%s.from_hdf5 over all keys' % cls.name)
    for mon, f in ((a, w), (b, r)):
        if f is r and not decodes(prog, r):
            ctx.bad('text', ctx.loc(r), r.qual, 'strings are loaded as bytes: nothing decodes them')
        if mon.seen:
            ctx.ok('keys', '%s: every item is handled, %d rounds' % (f.qual, mon.seen))
        else:
            explicit_names(ctx, cls, f, wm if f is w else rm, f is w)
    for m in (wm, rm):
        f = w if m is wm else r
        ts = [v for _, v, *_ in m.writes] if m is wm else [v for c, d, _, _ in m.news for v in d.values()]
        for t in ts:
            for y, c in comp_conds(t) if t is not None else ():
                if not tag_cond(c):
                    ctx.bad('keys', ctx.loc(f), f.qual, 'attributes are left out depending on %s' % show(c))


def decodes(prog, f, seen=None):
    seen = set() if seen is None else seen
    if f.fid in seen:
        return False
    seen.add(f.fid)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('decode', 'asstr', 'from_hdf5', 'load'):
            return True
        if isinstance(n, ast.Name) and n.id in ('decode_if_needed', 'str', 'from_hdf5'):
            return True
        if isinstance(n, ast.Call):
            g = None
            if isinstance(n.func, ast.Name):
                g = prog.resolve_expr(f.module, n.func)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.cls is not None:
                g = prog.find_method(f.cls, n.func.attr)
            if isinstance(g, Function) and decodes(prog, g, seen):
                return True
    return False


def tag_cond(c):
    return any(y.op == 'const' and cval(y) == 'type_tag' for y in walk(c))


def explicit_names(ctx, cls, f, mon, writing):
    ctx.undecided('keys', f.qual, 'not a loop over all items')


def tag_rules(ctx, tags):
    prog = ctx.prog
    imported = imports(prog, 'nodefinder')
    entry = entry_points(prog)
    for c, main, extras, node in tags:
        loc = class_loc(ctx, c)
        if main is None:
            ctx.undecided('tag', c.name, 'the tag is not a constant')
            continue
        if entry is not None and not any(main == e or main.startswith(e + '.') for e in entry):
            ctx.bad('tag', loc, c.name, "the tag %r is not below a registered entry point, so loading needs an import of the module first" % main)
        elif entry is None and not main.startswith('nodefinder.'):
            ctx.bad('tag', loc, c.name, "the tag %r is not below 'nodefinder.'" % main)
        elif c.module.name not in imported:
            ctx.bad('tag', loc, c.name, 'importing nodefinder does not import %s' % c.module.name)
        else:
            ctx.ok('tag', '%s -> %s' % (main, c.name))
    # classes that know how to save themselves but have no tag
    tagged_classes = {c.cid for c, *_ in tags}
    for c in prog.classes.values():
        if c.cid in tagged_classes:
            continue
        own = [f for f in c.methods.get('to_hdf5', [])]
        lists = 'HDF5_ATTRIBUTES' in c.attrs
        subs = [k for k in prog.classes.values() if k is not c and c in prog.mro(k)]
        if (own or lists) and not subs and not c.name.startswith('_'):
            ctx.bad('tag', class_loc(ctx, c), c.name, 'the class can be saved but has no type tag, so it cannot be loaded')


def entry_points(prog):
    """Names registered in setup.py for loading, or None if not understood."""
    root = os.environ.get('NODEFINDER_SRC', '/repo')
    p = os.path.join(root, 'setup.py')
    if not os.path.exists(p):
        return None
    try:
        tree = ast.parse(open(p).read())
    except SyntaxError:
        return None
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'entry_points':
            try:
                d = ast.literal_eval(n.value)
            except ValueError:
                return None
            return [x.split('=')[0].strip() for x in d.get('fsc.hdf5_io.load', [])]
    return []


def imports(prog, root):
    """Modules imported (at module level) by importing ``root``."""
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n in seen or n not in prog.modules:
            continue
        seen.add(n)
        m = prog.modules[n]
        parts = n.split('.')
        for i in range(1, len(parts)):
            todo.append('.'.join(parts[:i]))
        for x in top_level(m.tree):
            if isinstance(x, ast.Import):
                for al in x.names:
                    ps = al.name.split('.')
                    todo += ['.'.join(ps[:i + 1]) for i in range(len(ps))]
            elif isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    pk = parts if m.is_pkg else parts[:-1]
                    pk = pk[:len(pk) - (x.level - 1)]
                    base = '.'.join(pk + ([x.module] if x.module else []))
                ps = base.split('.')
                todo += ['.'.join(ps[:i + 1]) for i in range(len(ps))]
                for al in x.names:
                    todo.append(base + '.' + al.name)
    return seen


def top_level(tree):
    """Statements executed on import."""
    todo = list(tree.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for f in ('body', 'orelse', 'finalbody'):
                todo += getattr(n, f, [])
            for h in getattr(n, 'handlers', []):
                todo += h.body
        elif isinstance(n, ast.ClassDef):
            todo += n.body


# ---------------------------------------------------------------------------
# C26

# what released versions wrote: type tag -> (public class the tag stands for, keys)
RELEASED = {
    'nodefinder.coordinate_system': ('coordinate_system', {'limits', 'periodic'}),
    'nodefinder.search_result_container': ('search_result_container', {'coordinate_system', 'minimization_results', 'dist_cutoff', 'gap_threshold'}),
    'nodefinder.result_container': ('search_result_container', {'coordinate_system', 'minimization_results', 'dist_cutoff', 'gap_threshold'}),
    'nodefinder.controller_state': ('controller_state', {'result', 'simplex_queue', 'position_queue'}),
    'nodefinder.simplex_queue': ('simplex_queue', {'objects'}),
    'nodefinder.position_queue': ('position_queue', {'objects'}),
    'nodefinder.joined_minimization_result': ('joined_minimization_result', {'ancestor', 'child'}),
    'nodefinder.joined_result': ('joined_minimization_result', {'ancestor', 'child'}),
    'nodefinder.minimization_result': ('minimization_result', {'fun_simplex_history', 'message', 'num_fev', 'num_iter', 'pos', 'simplex_history', 'status', 'success', 'value'}),
    'nodefinder.identification_result_container': ('identification_result_container', {'coordinate_system', 'results', 'feature_size'}),
    'nodefinder.identification_result': ('identification_result', {'positions', 'shape', 'dimension'}),
    'nodefinder.nodal_point': ('nodal_point', {'position'}),
    'nodefinder.nodal_line': ('nodal_line', {'graph', 'graph/nodes', 'degree_count'}),
}
# keys that released versions wrote in two forms (a plain value, or an object of its own)
TWO_FORMS = {'nodefinder.identification_result': ('positions', 'dimension')}


def c26(ctx):
    prog = ctx.prog
    ctx.rule('tags', 'every type tag a released version has written belongs to exactly one class, the one that replaces it')
    ctx.rule('written', 'the tag written for a class is one that released versions know')
    ctx.rule('needed', 'loading needs no key that released versions did not write')
    ctx.rule('forms', 'where released versions wrote plain values and newer ones objects (or the reverse), both can be loaded')
    tags = tagged(prog)
    ctx.require(tags, 'no class with a type tag')
    if any(m is None or e is None for _, m, e, _ in tags):
        ctx.undecided('tags', 'package', 'a tag is not a constant')
    owner = {}
    for c, main, extras, node in tags:
        for t in [main] + list(extras or ()):
            if t is not None:
                owner.setdefault(t, []).append(c)
    unknown = any(m is None or e is None for _, m, e, _ in tags)
    for t, cs in owner.items():
        if len(cs) > 1:
            ctx.bad('tags', class_loc(ctx, cs[1]), cs[1].name, 'the tag %r is claimed by %s' % (t, ' and '.join(c.name for c in cs)))
    for c, main, extras, node in tags:
        if extras and main in extras:
            ctx.bad('tags', class_loc(ctx, c), c.name, 'the tag %r is claimed twice' % main)
        if extras and len(set(extras)) != len(extras):
            ctx.bad('tags', class_loc(ctx, c), c.name, 'a tag is claimed twice')
    names = {'nodefinder.' + v[0]: k for k, v in RELEASED.items()}
    for t, (now, keys) in RELEASED.items():
        cs = owner.get(t)
        if not cs:
            if not unknown:
                ctx.bad('tags', 'nodefinder', 'package', 'files with the tag %r can not be loaded any more: no class claims it' % t)
            continue
        c = cs[0]
        cur = owner.get('nodefinder.' + now)
        if cur and c is not cur[0]:
            ctx.bad('tags', class_loc(ctx, c), c.name, 'the tag %r belongs to %s instead of %s' % (t, c.name, cur[0].name))
            continue
        fam = family(prog, c)
        want = FAMILY[now]
        if fam is not None and want is not None and not want <= fam:
            ctx.bad('tags', class_loc(ctx, c), c.name, 'the tag %r belongs to %s, which does not have the data %s' % (t, c.name, ', '.join(sorted(want - fam))))
            continue
        ctx.ok('tags', '%s -> %s' % (t, c.name))
        needed(ctx, c, t, keys)
    for c, main, extras, node in tags:
        if main is None:
            continue
        released = [t for t, (now, _) in RELEASED.items() if owner.get(t, [None])[0] is c]
        if released and main not in RELEASED:
            ctx.bad('written', class_loc(ctx, c), c.name, 'objects are written with the tag %r, which released versions do not know' % main)
        elif released:
            ctx.ok('written', '%s: %s' % (c.name, main))
    for t, ks in TWO_FORMS.items():
        for c in owner.get(t, ()):
            for k in ks:
                forms(ctx, c, k)


FAMILY = {
    'coordinate_system': {'limits', 'periodic'}, 'search_result_container': {'coordinate_system', 'gap_threshold', 'dist_cutoff'},
    'controller_state': {'result'}, 'simplex_queue': {'objects'}, 'position_queue': {'objects'},
    'joined_minimization_result': {'child', 'ancestor'}, 'minimization_result': None,
    'identification_result_container': {'results'}, 'identification_result': {'positions', 'dimension', 'shape'},
    'nodal_point': {'position'}, 'nodal_line': {'graph', 'degree_count'},
}


def family(prog, c):
    req, opt, anykw = parameters(prog, c)
    if anykw:
        return None
    return set(req) | set(opt)


def needed(ctx, c, tag, keys):
    prog = ctx.prog
    if has_own(prog, c):
        r = prog.find_method(c, 'from_hdf5')
        if r is None:
            return
        mon = FlowMonitor()
        eng, rets, raises = ctx.analyse(r, [T('cls', c.cid), HANDLE], [], monitor=mon, label='%s.from_hdf5' % c.name)
        for k, node, guarded in mon.reads:
            name = '/'.join(k)
            if guarded or name in keys or in_handler(prog, r, [(False, node)]):
                continue
            ctx.bad('needed', ctx.loc(r, node), r.qual, 'loading needs %s, which files with the tag %r do not have' % (name, tag))
        for cls, d, node, st in mon.news:
            if cls is c:
                req, opt, anykw = parameters(prog, c)
                for x in req:
                    if x not in d and '**' not in d:
                        ctx.bad('needed', ctx.loc(r, node), r.qual, 'loading does not give %s to the constructor' % x)
        if any('**' in d for cls, d, _, _ in mon.news):
            req, opt, anykw = parameters(prog, c)
            for x in req:
                if x not in keys:
                    ctx.bad('needed', class_loc(ctx, c), c.name, 'the constructor needs %s, which files with the tag %r do not have' % (x, tag))
        ctx.ok('needed', '%s reads %s' % (c.name, ', '.join(sorted({'/'.join(k) for k, _, _ in mon.reads})) or 'all keys'))
        return
    A, O = computed_names(prog, c)
    if A is None:
        ctx.undecided('needed', c.name, 'the list of attributes is not a constant')
        return
    req, opt, anykw = parameters(prog, c)
    bad = False
    for x in A:
        if x not in keys:
            bad = True
            ctx.bad('needed', class_loc(ctx, c), c.name, 'loading needs %s, which files with the tag %r do not have' % (x, tag))
    for x in req:
        if x not in keys:
            bad = True
            ctx.bad('needed', class_loc(ctx, c), c.name, 'the constructor needs %s, which files with the tag %r do not have' % (x, tag))
    # keys that are in old files but not read any more
    for x in keys:
        if x not in A and x not in O and (x in req or x in opt):
            bad = True
            ctx.bad('needed', class_loc(ctx, c), c.name, '%s of files with the tag %r is not loaded any more' % (x, tag))
    if not bad:
        ctx.ok('needed', '%s needs %s' % (tag, ', '.join(A)))


def forms(ctx, c, key):
    prog = ctx.prog
    r = prog.find_method(c, 'from_hdf5')
    if not has_own(prog, c) or r is None:
        return
    mon = FlowMonitor()
    eng, rets, raises = ctx.analyse(r, [T('cls', c.cid), HANDLE], [], monitor=mon, label='%s.from_hdf5' % c.name)
    raw = obj = False
    for cls, d, node, st in mon.news:
        if cls is not c:
            continue
        for v in d.values():
            for t in mon.content(v, st.heap):
                if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in LOAD and t.a[1] and path_of(t.a[1][0]) == (key,):
                    obj = True
                if t.op == 'sub' and path_of(t.a[0]) == (key,) and not (t.a[1].op == 'const' and isinstance(cval(t.a[1]), str)):
                    raw = True
                if t.op in ('elem', 'call') and any(isinstance(x, T) and path_of(x) == (key,) for a in t.a for x in (a if isinstance(a, tuple) else (a,))) and not (t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in LOAD):
                    raw = True
    if not raw and not obj:
        ctx.undecided('forms', '%s.%s' % (c.name, key), 'how the key is read was not understood')
    elif not (raw and obj):
        ctx.bad('forms', ctx.loc(r), r.qual, '%s can only be loaded as %s, but released versions also wrote the other form' % (key, 'a plain value' if raw else 'an object'))
    else:
        # the switch between the two is made by an error of the plain form
        nodes = {id(n) for k, n, _ in mon.reads if k == (key,)}
        narrow = [n for n in ast.walk(r.node) if isinstance(n, ast.Try) and n.handlers and any(id(y) in nodes for b in n.body for y in ast.walk(b)) and any(id(y) in nodes for h in n.handlers for b in h.body for y in ast.walk(b)) and not any(wide(h.type) for h in n.handlers)]
        if narrow:
            ctx.bad('forms', ctx.loc(r, narrow[0]), r.qual, 'reading the plain form of %s fails with a TypeError for an object, which is not handled' % key)
        else:
            ctx.ok('forms', '%s.%s as plain value and as object' % (c.name, key))


def wide(h):
    """Handler type that includes a TypeError (or is not understood)."""
    if h is None:
        return True
    names = [ast.unparse(x).split('.')[-1] for x in (h.elts if isinstance(h, ast.Tuple) else [h])]
    known = {'KeyError', 'IndexError', 'ValueError', 'AttributeError', 'OSError', 'IOError', 'LookupError', 'NotImplementedError', 'RuntimeError'}
    return any(n not in known for n in names)
