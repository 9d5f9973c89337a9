"""Rules about recording results and the decisions based on them (C11 - C13)."""

import ast

from ..engine import Engine, Monitor, DEAD, strip_at, strip_iter, prog_types
from ..loader import AnalysisError, Function
from ..terms import T, NONE, TRUE, FALSE, UNDEF, const, is_const, cval, ext, attr, call, walk, show
from .. import roles as R
from .search import plain, mentions, loose, opt_attrs, Rec, EMPTY, inc, task_entries, prop_values

SINK = ('append', 'add', 'insert', 'appendleft', 'extend', 'update')


def self_of(cls):
    return T('inst', cls.cid, 'self', False)


def attr_name(t, me):
    """Name of the attribute of ``me`` that a term denotes, else None."""
    t = strip_at(t)
    while t.op == 'sub':
        t = strip_at(t.a[0])
    if t.op == 'attr' and t.a[0] is me:
        return t.a[1]
    return None


def mutates_self(prog, f, seen=None):
    """Whether a method (or one it calls on self) may change its object."""
    seen = set() if seen is None else seen
    if f.fid in seen:
        return False
    seen.add(f.fid)
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if not ps:
        return False

    def root(x):
        while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
            x = x.func if isinstance(x, ast.Call) else x.value
        return x.id if isinstance(x, ast.Name) else None
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) is not None:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if n.attr in SINK + ('setdefault', 'put', 'add_point') and root(n.value) is not None:
                return True
            if isinstance(n.value, ast.Name) and n.value.id == ps[0]:
                g = prog.find_method(f.cls, n.attr)
                if g is not None and mutates_self(prog, g, seen):
                    return True
    return False


class StoreMonitor(Monitor):
    """Which collections of the object an argument is put into."""

    def __init__(self, me, arg, keep):
        self.me, self.arg, self.opaque = me, arg, keep
        self.seen = {}

    def init(self):
        return EMPTY

    def name_of(self, eng, st, t):
        n = attr_name(t, self.me)
        if n is not None:
            return n
        t = strip_at(t)
        for (b, k), v in st.heap.items():
            if b is self.me and isinstance(k, str) and v is t:
                return k
        # an object held by an attribute since construction
        for n, vs in eng.typer.init_of(eng.prog.classes[self.me.a[0]]).items():
            if t in vs:
                return n
        return None

    def on(self, ev, m, st, eng):
        k = ev.kind
        tgt, vals, method = None, (), None
        if k == 'mutate':
            tgt, vals, method = ev.base, list(ev.args), ev.method
        elif k == 'storesub':
            tgt, vals, method = ev.base, [ev.value], '[]='
        elif k == 'call' and ev.opaque and isinstance(ev.fn, Function) and ev.fn.cls is not None and ev.args and mutates_self(eng.prog, ev.fn):
            tgt, vals, method = ev.args[0], list(ev.args[1:]) + list(ev.kwargs.values()), ev.fn.name
        elif k == 'storeattr' and ev.base is self.me:
            if any(mentions(ev.value, self.arg) for _ in (0,)) and plain(ev.value) is not self.arg:
                return m.set(stores=m.get('stores', ()) + ((ev.name, '=', 'rebuilt'),))
            return m
        if tgt is None:
            return m
        n = self.name_of(eng, st, tgt)
        if n is None:
            return m
        hit = [v for v in vals if mentions(v, self.arg)]
        if method in ('clear', 'pop', 'popitem', 'remove', 'discard', '__delitem__'):
            return m.set(lost=(n, method, eng.loc(ev.node)))
        if not hit:
            return m
        how = 'itself' if any(plain(v) is self.arg for v in hit) else 'nested' if any(v.op in ('tuple', 'obj', 'call') for v in hit) else 'part'
        self.seen[n] = ev.node
        return m.set(stores=m.get('stores', ()) + ((n, method, how),))


def cell_methods(prog, roles):
    """Methods of the helper containers (cell list)."""
    keep = {c.cid for c in prog.mro(roles.result)}
    keep |= {c.cid for c in prog.mro(roles.cls('state'))}
    return {f.fid for f in prog.functions.values() if f.cls is not None and f.cls.cid not in keep}


def add_result_paths(ctx, roles):
    cls = roles.result
    f = ctx.prog.find_method(cls, 'add_result')
    ctx.require(f is not None, 'no method add_result')
    me, arg = self_of(cls), T('in', 'res')
    mon = StoreMonitor(me, arg, cell_methods(ctx.prog, roles))
    eng, rets, raises = ctx.analyse(f, [arg], [], self_term=me, monitor=mon, opaque=mon.opaque, label='add_result')
    return f, me, arg, mon, eng, rets, raises


def collections(ctx, roles):
    """{'node': names, 'rejected': names, 'refined': names}."""
    f, me, arg, mon, eng, rets, raises = add_result_paths(ctx, roles)
    res = {'node': set(), 'rejected': set(), 'refined': set()}
    for s, v in rets:
        h = eng.holds(s, v)
        if h is not None:
            for n, _, _ in s.mon.get('stores', ()):
                res['node' if h else 'rejected'].add(n)
    both = res['node'] & res['rejected']
    res['node'] -= both
    res['rejected'] -= both
    g = ctx.prog.find_method(roles.result, 'set_refined')
    if g is not None:
        pos = T('in', 'pos')
        m2 = StoreMonitor(me, pos, mon.opaque)
        e2, r2, x2 = ctx.analyse(g, [pos], [], self_term=me, monitor=m2, opaque=m2.opaque, label='set_refined')
        for s, v in r2:
            res['refined'] |= {n for n, _, _ in s.mon.get('stores', ())}
    return res


def reads(prog, cls, f, seen=None):
    """Names of attributes of self read by a method, through other methods."""
    seen = set() if seen is None else seen
    if f.fid in seen:
        return set()
    seen.add(f.fid)
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if not ps:
        return set()
    res = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0]:
            res.add(n.attr)
            for how in (None, 'get'):
                g = prog.find_method(cls, n.attr, how) if how else prog.find_method(cls, n.attr)
                if g is not None and g is not f:
                    res |= reads(prog, cls, g, seen)
    return res


def c11(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('accept', 'a result is stored as a node only on paths on which success is true and value <= threshold holds (NaN excluded), and as rejected only on paths on which one of them fails')
    ctx.rule('once', 'every path stores the result itself in exactly one collection')
    ctx.rule('all', 'minimization_results returns nodes and rejected results, both complete')
    ctx.rule('nothing removed', 'nothing is removed from the collections anywhere in the package')
    ctx.rule('refine', 'a position is queued for refinement only if its result was accepted as a node')
    f, me, arg, mon, eng, rets, raises = add_result_paths(ctx, roles)
    thr = [attr(me, n) for n in opt_attrs(ctx.prog, roles.result, 'gap_threshold')]
    ctx.require(thr, 'the threshold is not kept by the result container')
    succ, val = T('attr', arg, 'success', None), T('attr', arg, 'value', None)
    cols = collections(ctx, roles)
    ctx.require(cols['node'] or cols['rejected'], 'add_result stores nothing')
    for s, v in rets:
        stores = s.mon.get('stores', ())
        where = ctx.loc(f)
        desc = 'add_result -> %s' % show(v)
        if s.taint:
            ctx.undecided('accept', f.qual, str(sorted(s.taint)))
            continue
        if s.mon.get('lost'):
            ctx.bad('nothing removed', s.mon.get('lost')[2], f.qual, 'recording a result removes something from %s' % s.mon.get('lost')[0])
        if len(stores) != 1:
            if any(h == 'rebuilt' for _, _, h in stores):
                ctx.undecided('once', f.qual, 'collections are rebuilt')
            else:
                ctx.bad('once', where, f.qual, 'a path stores the result %s' % ('nowhere' if not stores else 'more than once'))
            continue
        n, method, how = stores[0]
        if how == 'part':
            ctx.bad('once', where, f.qual, 'only a part of the result is stored in %s' % n)
        sv = eng.holds(s, succ)
        h = eng.holds(s, v)
        if h is not None:
            v = const(h)
        le = known_ord(eng, s, val, thr)
        if not any(y is succ for y in facts_terms(s)) and not any(y is val for y in facts_terms(s)) and v not in (TRUE, FALSE):
            ctx.undecided('accept', f.qual, 'the decision is not visible')
            continue
        accepted = n in cols['node'] and v is TRUE or n in cols['node'] and v is not FALSE
        rejected = n in cols['rejected']
        if n in cols['node'] and v is FALSE or n in cols['rejected'] and v is TRUE:
            ctx.bad('accept', where, f.qual, 'the returned verdict does not agree with where the result is stored')
            continue
        if accepted:
            bad = []
            if sv is not True:
                bad.append('success is not required')
            if le is None:
                bad.append('value <= threshold is not required')
            elif not le <= frozenset('<='):
                bad.append('the value may be %s' % ('not comparable (NaN)' if le <= frozenset('<=u') else 'above the threshold'))
            if bad:
                ctx.bad('accept', where, f.qual, 'a result is accepted as a node although %s' % ' and '.join(bad))
            else:
                ctx.ok('accept', desc)
        elif rejected:
            if sv is False or le is not None and not (le & frozenset('<=')):
                ctx.ok('accept', desc)
            elif sv is None and le is None:
                ctx.undecided('accept', f.qual, 'the reason for rejecting is not visible')
            else:
                ctx.bad('accept', where, f.qual, 'a successful result at or below the threshold can be rejected')
        else:
            ctx.undecided('accept', f.qual, 'collection %s' % n)
    # minimization_results
    p = ctx.prog.find_method(roles.result, 'minimization_results', 'get') or ctx.prog.find_method(roles.result, 'minimization_results')
    ctx.require(p is not None, 'no property minimization_results')
    got = reads(ctx.prog, roles.result, p)
    e2, r2, _ = ctx.analyse(p, [], [], self_term=me, opaque=mon.opaque, label='minimization_results')
    for s, v in r2:
        miss = []
        for kind in ('node', 'rejected'):
            if cols[kind] and not any(in_value(e2, s, v, me, n) for n in cols[kind]):
                miss.append(kind)
        if miss and not s.taint:
            ctx.bad('all', ctx.loc(p), p.qual, 'the %s results are missing from minimization_results' % ' and '.join(miss))
        elif any(y.op == 'comp' and any(g[2] for g in y.a[2]) for y in walk(expand(e2, s, v))) or any(y.op == 'sub' for y in walk(v)):
            ctx.undecided('all', p.qual, 'results are filtered')
        else:
            ctx.ok('all', p.qual)
    # nothing removed
    names = cols['node'] | cols['rejected'] | cols['refined']
    n = 0
    for g in ctx.prog.functions.values():
        for node in ast.walk(g.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('clear', 'pop', 'remove', 'popitem', 'discard') and isinstance(node.func.value, ast.Attribute) and node.func.value.attr in names:
                ctx.bad('nothing removed', ctx.loc(g, node), g.qual, 'results are removed from %s' % node.func.value.attr)
            if isinstance(node, ast.Delete):
                for t in node.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in names:
                        ctx.bad('nothing removed', ctx.loc(g, node), g.qual, 'results are removed from %s' % t.value.attr)
            n += isinstance(node, ast.Call)
    ctx.ok('nothing removed', '%d calls looked at; collections %s' % (n, sorted(names)))
    # refinement only from nodes
    for f, args, kws, params, node in task_entries(ctx, roles):
        dm = DecisionMonitor(ctx, roles, cols, 'task')
        e3, r3, x3 = ctx.analyse(f, args, kws, monitor=dm, opaque=(roles.async_functions - {f.fid}) | roles.data_methods, label='task %s' % f.qual)
        for s, _ in r3:
            m = s.mon
            if s.taint or not m.get('res'):
                continue
            verdict = e3.holds(s, m.get('verdict')) if m.get('verdict') is not None else None
            if m.get('addP') and verdict is not True:
                ctx.bad('refine', ctx.loc(f), f.qual, 'a position is queued for refinement although its result was %s' % ('rejected' if verdict is False else 'not known to be a node'))
            else:
                ctx.ok('refine', f.qual)


def facts_terms(st):
    return {y for k in st.facts for t in k[1:] if isinstance(t, T) for y in walk(t)}


def expand(eng, st, v):
    return v


def in_value(eng, st, v, me, name):
    """Whether the collection enters a returned value completely (as far as visible)."""
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for y in walk(t):
            if y.op == 'attr' and y.a[0] is me and y.a[1] == name:
                return True
            if y.op == 'obj':
                c = st.heap.get((y, '#'))
                if c is not None and c not in seen:
                    todo.append(c)
                if c is None:
                    return True
            if y.op == 'inst' and y in eng.typer.init_of(eng.prog.classes[me.a[0]]).get(name, ()):
                return True
    return False


def known_ord(eng, st, val, thrs):
    """Possible outcomes of comparing value with the threshold in this state:
    a subset of '<=>u', or None if nothing is known."""
    best = None
    for key, v in st.facts.items():
        if key[0] == 'ord' and isinstance(v, frozenset):
            a, b = plain(key[1]), plain(key[2])
            if a is val and b in thrs:
                o = v
            elif b is val and a in thrs:
                o = frozenset({'<': '>', '>': '<'}.get(x, x) for x in v)
            else:
                continue
            best = o if best is None else best & o
    return best


# ---------------------------------------------------------------------------
# decisions by counting

class DecisionMonitor(Monitor):
    """Counts, along every path, how many positions were found within the
    cutoff distance, and compares the count with what the code decides."""

    def __init__(self, ctx, roles, cols, where, K=0, cutoffs=(), recheck=True, stencil=True, kind='refined', sterm=None):
        self.ctx, self.roles, self.cols, self.where, self.K = ctx, roles, cols, where, K
        self.cutoffs, self.recheck, self.stencil, self.kind, self.sterm = cutoffs, recheck, stencil, kind, sterm
        self.seen = dict(pop=0, near=0, refine=0, discard=0, launch=0, skip=0, query=0)
        self._kinds = {}
        self.loop_func = {}

    def init(self):
        return EMPTY

    def counts(self, t):
        """Only collections of distances are followed element by element."""
        return self.kind_of(t) is not None

    # -- distances
    def kind_of(self, t):
        """'node' / 'refined' / 'both' / None: which positions a distance is about."""
        res = set()
        for y in walk(t):
            if y.op == 'func':
                f = self.ctx.prog.functions.get(y.a[0])
                if f is not None and f.cls is not None and f.name not in ('add_result', 'set_refined') and f.cls in self.ctx.prog.mro(self.roles.result):
                    if f.fid not in self._kinds:
                        r = reads(self.ctx.prog, self.roles.result, f)
                        self._kinds[f.fid] = {k for k in ('node', 'refined') if r & self.cols[k]}
                    res |= self._kinds[f.fid]
            elif y.op == 'attr':
                for k in ('node', 'refined'):
                    if y.a[1] in self.cols[k]:
                        res.add(k)
        return 'both' if len(res) > 1 else next(iter(res)) if res else None

    def is_cutoff(self, t):
        t = strip_at(t)
        return t in self.cutoffs or t.op == 'attr' and t.a[1] in self.cut_names

    cut_names = ()

    def pos_of(self, t, subject):
        """The element of the subject a distance was measured from."""
        els = [y for y in walk(t) if y.op in ('elem', 'sub') and mentions(y, subject) and self.kind_of(y) is None]
        return els[0] if els else subject

    def distance(self, ev, m, st, eng):
        """A fresh assumption about a distance; updates the count."""
        key = ev.key
        terms = [t for t in key[1:] if isinstance(t, T)]
        ks = [self.kind_of(t) for t in terms]
        if not any(ks):
            if any(y.op == 'phi' and any(self.kind_of(z) for z in eng.alternatives(y)) for t in terms for y in walk(t)):
                return m.set(unk='distances are used in a way that is not followed (%s)' % eng.loc(ev.node))
            return m
        subj = m.get('subj')
        if key[0] == 'ord' and len(terms) == 2 and (ks[0] is None) != (ks[1] is None) and isinstance(ev.val, frozenset):
            d, other = (terms[0], terms[1]) if ks[0] else (terms[1], terms[0])
            val = ev.val if ks[0] else frozenset({'<': '>', '>': '<'}.get(x, x) for x in ev.val)
            first = self.first_of(d)
            if first:
                m = m.set(cut='only the first of the distances is looked at')
            if (first or is_distance_elem(d)) and self.is_cutoff(other):
                if subj is None or not mentions(d, subj):
                    return m.set(unk='a distance from something else')
                k = self.kind_of(d)
                if k != self.kind:
                    if k is not None and k != 'both':
                        eng.report('source', ev.node, 'the distance is measured to %s' % ('nodes, not to refined positions' if k == 'node' else 'refined positions, not to nodes'), st, key='kind')
                    return m.set(unk='both collections are used')
                if val - {'u'} <= frozenset('<='):
                    self.seen['near'] += 1
                    if self.kind == 'node':
                        if m.get('near'):
                            return m
                        m = m.set(near=True)
                    return m.set(g=min(5, m.get('g', 0) + 1))
                return m
            if is_distance_elem(d) and other.op == 'const':
                eng.report('source', ev.node, 'the distance is compared with %s, not with the distance cutoff' % show(other), st, key='scaled')
                return m.set(unk='const')
            if is_distance_elem(d) and other.op == 'bin' and other.a[0] in ('*', '/', '+', '-') and any(self.is_cutoff(y) for y in walk(other)) and all(y.op in ('const', 'bin', 'attr', 'in', 'at', 'inst') for y in walk(other)):
                eng.report('source', ev.node, 'the distance is not compared with the distance cutoff itself', st, key='scaled')
                return m.set(unk='scaled')
        return m.set(unk='distances are used in a way that is not followed (%s)' % eng.loc(ev.node))

    # -- is everything looked at?
    def whole(self, t, top=True):
        """'full': all elements of the collection are met, 'part': only some
        of them, 'odd': not known."""
        t = strip_at(t)
        if t.op == 'call' and t.a[0].op == 'ext':
            n, args = t.a[0].a[0], t.a[1]
            if n in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.reversed', 'builtins.enumerate', 'numpy.array', 'numpy.asarray') and args:
                return self.whole(args[0])
            if n in ('builtins.sorted', 'numpy.sort') and args:
                return 'full' if self.whole(args[0]) == 'full' else 'odd'
            if n == 'itertools.islice' and args and not self.ordered(args[0]):
                return 'part' if self.whole(args[0]) in ('full', 'part') else 'odd'
            if n == 'builtins.range' and args:
                ln = [a for a in args if a.op == 'call' and a.a[0].op == 'ext' and a.a[0].a[0] == 'builtins.len']
                if len(args) == 1 and ln:
                    return self.whole(ln[0].a[1][0])
                if len(args) == 2 and ln and is_const(args[0]) and isinstance(cval(args[0]), int) and cval(args[0]) > 0:
                    return 'part'
            return 'full'
        if t.op == 'sub' and t.a[1].op == 'slice':
            p = [x if not isinstance(x, T) else cval(x) if x.op == 'const' else x for x in t.a[1].a]
            if p[0] in (None, 0) and p[1] is None and p[2] in (None, 1, -1):
                return self.whole(t.a[0])
            if self.ordered(t.a[0]) or not all(x is None or isinstance(x, int) for x in p) or strip_at(t.a[0]).op in ('obj', 'comp', 'phi'):
                return 'odd'
            return 'part'
        return 'full'

    @staticmethod
    def ordered(t):
        return any(y.op == 'ext' and y.a[0] in ('builtins.sorted', 'numpy.sort', 'numpy.argsort', 'numpy.partition') or y.op == 'attr' and y.a[1] == 'sort' or y.op in ('obj', 'comp', 'phi') for y in walk(t))

    def first_of(self, d):
        """One fixed element of the collection of distances?"""
        d = strip_at(d)
        if d.op == 'sub' and is_const(d.a[1]) and isinstance(cval(d.a[1]), int):
            b = d.a[0]
        elif d.op == 'call' and d.a[0].op == 'ext' and d.a[0].a[0] == 'builtins.next' and d.a[1]:
            b = d.a[1][0]
        else:
            return False
        b = strip_at(b)
        while b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] in ('builtins.iter', 'builtins.list', 'builtins.tuple') and b.a[1]:
            b = strip_at(b.a[1][0])
        return b.op == 'call' and b.a[0].op in ('func', 'bound') and self.kind_of(b) is not None

    def about(self, it, m):
        """'dist' / 'vertex' / None: what a loop goes through."""
        if it is None or m.get('subj') is None:
            return None
        if self.kind_of(it) is not None:
            return 'dist' if mentions(it, m.get('subj')) else None
        return 'vertex' if self.kind == 'node' and mentions(it, m.get('subj')) else None

    def looks(self, ev, m, st, eng):
        k = ev.kind
        if k == 'iter' and not ev.while_:
            a = self.about(ev.it, m)
            if a is not None:
                self.loop_func[ev.loop] = eng.func
                w = self.whole(ev.it)
                if w == 'part':
                    m = m.set(cut='not all %s are looked at' % ('distances' if a == 'dist' else 'vertices'))
                elif w == 'odd':
                    m = m.set(unk='%s of which only some are used' % ('distances' if a == 'dist' else 'vertices'))
        elif k == 'loopdone' and not ev.while_ and self.about(ev.it, m) is not None:
            m = m.set(checked=True)
        elif k in ('break', 'return') and ev.loops:
            ls = [l for l in ev.loops if self.loop_func.get(l[0]) is eng.func]
            if k == 'break':
                ls = [l for l in ls if l is ev.loops[-1]]
            for l in ls:
                a = self.about(l[1], m)
                if a == 'vertex' or a == 'dist' and not (self.kind == 'node' and m.get('near')):
                    m = m.set(cut='the remaining %s are not looked at' % ('distances' if a == 'dist' else 'vertices'))
        return m

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k == 'assume' and m.get('subj') is not None:
            return self.distance(ev, m, st, eng)
        if m.get('subj') is not None:
            m = self.looks(ev, m, st, eng)
        if k == 'call' and ev.opaque and isinstance(ev.fn, Function) and ev.fn.cls is not None and m.get('subj') is not None:
            if ev.fn.name not in ('add_result', 'set_refined') and self.kind_of(T('call', T('func', ev.fn.fid, None), (), (), None)):
                self.seen['query'] += 1
                if not any(mentions(a, m.get('subj')) for a in list(ev.args) + list(ev.kwargs.values())):
                    return m
                return m.set(near=None, pend=ev.result, checked=True)
        if k in ('iter', 'loopdone', 'iterend') and not ev.while_ and m.get('pend') is not None:
            if ev.it is not None and mentions(ev.it, m.get('pend')) or ev.elem is not None and mentions(ev.elem, m.get('pend')):
                m = m.set(pend=None)
        if k == 'iter' and not ev.while_ and ev.elem is not None and m.get('subj') is not None and mentions(ev.elem, m.get('subj')) and self.kind_of(ev.elem) is None:
            m = m.set(near=None)
        r = self.roles.role(ev, st, eng)
        return self.task(ev, m, st, eng, r) if self.where == 'task' else self.main(ev, m, st, eng, r)

    # -- the scheduler
    def main(self, ev, m, st, eng, r):
        k = ev.kind
        mine = 'P' if self.kind == 'refined' else 'S'
        if k == 'spawn' and self.kind == 'node' and m.get('subj') is not None:
            self.seen['launch'] += 1
            if not any(mentions(a, m.get('subj')) for a in spawn_args(ev.result, ev.coro)):
                eng.report('start', ev.node, 'the minimisation is not started from the simplex taken from the queue', st, key='start')
                return EMPTY
            if not any(loose(a, m.get('subj')) for a in spawn_args(ev.result, ev.coro)):
                self.ctx.undecided('start', eng.funcname(), 'how the simplex is passed to the minimisation was not understood')
            if self.unknown(m):
                self.ctx.undecided('skip', eng.funcname(), self.unknown(m))
            elif m.get('g', 0) > self.K:
                eng.report('skip', ev.node, 'a simplex is minimised although %d of its vertices are within the cutoff distance of a node (allowed: %d)' % (m.get('g', 0), self.K), st, key='launch')
            elif m.get('cut'):
                eng.report('skip', ev.node, 'a simplex is minimised although not every vertex was compared with all nodes near it (%s)' % m.get('cut'), st, key='cut')
            elif not m.get('checked'):
                eng.report('skip', ev.node, 'a simplex is minimised without looking for nodes near its vertices', st, key='unchecked')
            return EMPTY
        if k == 'await' and m.get('subj') is not None and self.kind == 'refined':
            return self.end(ev, m, st, eng)
        if r is None:
            return m
        if r[0] == 'pop':
            m = self.end(ev, m, st, eng) if m.get('subj') is not None and self.kind == 'refined' else m
            if r[1] == mine:
                self.seen['pop'] += 1
                return EMPTY.set(subj=r[2])
            return m
        if self.kind == 'refined':
            if r[0] == 'add' and r[1] == 'S' and m.get('subj') is not None:
                return self.refine(ev, m, st, eng, r[2])
            if r[0] == 'refined' and m.get('subj') is not None:
                if mentions(r[1], m.get('subj')):
                    moved = changed(r[1], m.get('subj'))
                    if moved is not None:
                        eng.report('recorded', ev.node, 'another position than the one refined is recorded as refined: %s' % show(moved)[:100], st, key='moved')
                    return m.set(rec=True)
            return m
        if r[0] == 'fin' and r[1] == 'S' and m.get('subj') is not None:
            self.seen['skip'] += 1
            if self.unknown(m):
                self.ctx.undecided('skip', eng.funcname(), self.unknown(m))
            elif m.get('g', 0) <= self.K:
                eng.report('skip', ev.node, 'a simplex is skipped although only %d vertices are within the cutoff distance of a node, which is allowed (%d)' % (m.get('g', 0), self.K), st, key='skip')
            return EMPTY
        return m

    def unknown(self, m):
        return m.get('unk') or ('distances are used in a way that is not followed' if m.get('pend') is not None else None)

    def refine(self, ev, m, st, eng, objs):
        self.seen['refine'] += 1
        if m.get('refd'):
            eng.report('once', ev.node, 'the simplices of one refinement are added twice', st, key='twice')
        if not self.stencil:
            eng.report('stencil', ev.node, 'a position is refined although there is no stencil', st, key='none')
        elif self.recheck:
            if self.unknown(m):
                self.ctx.undecided('count', eng.funcname(), self.unknown(m))
            elif m.get('g', 0) > self.K:
                eng.report('count', ev.node, 'a position is refined although %d refined positions are within the cutoff distance (allowed: %d)' % (m.get('g', 0), self.K), st, key='count')
            elif m.get('cut'):
                eng.report('count', ev.node, 'a position is refined although not all refined positions near it were looked at (%s)' % m.get('cut'), st, key='cut')
            elif not m.get('checked'):
                eng.report('count', ev.node, 'a position is refined without looking for refined positions near it', st, key='unchecked')
        if self.sterm is not None:
            ok = centred(objs, m.get('subj'), self.sterm)
            if ok is False:
                eng.report('stencil', ev.node, 'the simplices added are not the stencil moved to the position', st, key='centre')
            elif ok is None:
                self.ctx.undecided('stencil', eng.funcname(), 'added simplices: %s' % show(objs)[:120])
        return m.set(refd=True)

    def end(self, ev, m, st, eng):
        """The decision about the current position is over."""
        if m.get('refd'):
            if not m.get('rec'):
                eng.report('recorded', ev.node, 'a refined position is not recorded as refined', st, key='rec')
            return EMPTY
        self.seen['discard'] += 1
        if m.get('rec'):
            eng.report('recorded', ev.node, 'a position that is not refined is recorded as refined', st, key='rec2')
        elif self.stencil:
            if not self.recheck:
                eng.report('count', ev.node, 'a position is discarded although the check is switched off', st, key='off')
            elif self.unknown(m):
                self.ctx.undecided('count', eng.funcname(), self.unknown(m))
            elif m.get('g', 0) <= self.K:
                eng.report('count', ev.node, 'a position is discarded although only %d refined positions are within the cutoff distance (allowed: %d)' % (m.get('g', 0), self.K), st, key='discard')
        return EMPTY

    # -- the task
    def task(self, ev, m, st, eng, r):
        if r is None:
            return m
        if r[0] == 'addres':
            res = r[1]
            return m.set(res=res, verdict=r[2], subj=res, g=None, unk=None, cut=None, checked=None)
        if r[0] == 'add' and r[1] == 'P' and m.get('res') is not None:
            self.seen['refine'] += 1
            items = eng.seq_items(st, r[2])
            pos = T('attr', m.get('res'), 'pos', None)
            if items is not None and not any(is_attr(x, m.get('res'), 'pos') for x in items):
                if not any(mentions(x, m.get('res')) for x in items):
                    eng.report('queued', ev.node, 'the position queued for refinement is not that of the result', st, key='pos')
                else:
                    self.ctx.undecided('queued', eng.funcname(), 'queued: %s' % ', '.join(show(x) for x in items))
            return m.set(addP=inc(m.get('addP')))
        return m


def is_attr(t, base, name):
    t = plain(t)
    return t.op == 'attr' and t.a[1] == name and loose(t.a[0], base)


def spawn_args(fut, coro):
    ft, args = coro.a[0], list(coro.a[1]) + [v for _, v in coro.a[2]]
    while ft.op == 'bound':
        ft, args = ft.a[0], [ft.a[1]] + args
    return args


def is_distance_elem(t):
    """A single distance (not a collection or an aggregate of distances)."""
    t = strip_at(t)
    if t.op == 'elem':
        return True
    if t.op == 'phi':
        return False
    if t.op == 'call':
        # distance(pos, other): no aggregate over a collection
        return any(y.op == 'elem' for a in list(t.a[1]) for y in walk(a)) and not (t.a[0].op == 'ext' and t.a[0].a[0].split('.')[-1] in ('min', 'max', 'sum', 'any', 'all', 'amin', 'amax', 'count_nonzero', 'sorted', 'len', 'array'))
    return False


def centred(objs, pos, stencil):
    """True/False/None: objs == pos + stencil."""
    t = plain(objs)
    if t.op == 'call' and t.a[0] == ext('numpy.add') and len(t.a[1]) == 2:
        t = T('bin', '+', t.a[1][0], t.a[1][1])
    if t.op == 'comp' and len(t.a[2]) == 1 and not t.a[2][0][2]:
        e, it, _ = t.a[2][0]
        if loose(strip_iter(it), stencil):
            x = plain(t.a[1])
            if x.op == 'bin' and x.a[0] == '+' and (loose(x.a[1], pos) and loose(x.a[2], e) or loose(x.a[2], pos) and loose(x.a[1], e)):
                return True
    if t.op == 'bin':
        a, b = plain(t.a[1]), plain(t.a[2])
        if t.a[0] == '+' and ({a, b} == {plain(pos), plain(stencil)}):
            return True
        if all(y.op in ('bin', 'const', 'at', 'un') or mentions(pos, y) or mentions(stencil, y) or plain(y) in (plain(pos), plain(stencil)) for y in walk(t)):
            return False
    if not mentions(t, plain(pos)) and t.op != 'phi' or not mentions(t, plain(stencil)) and t.op != 'phi':
        if not any(y.op in ('obj', 'phi', 'call') for y in walk(t) if y is not pos and not mentions(pos, y)):
            return False
    return None


def cutoff_attrs(ctx, roles):
    """Attributes of the controller that hold the distance cutoff."""
    vals = prog_types(ctx.prog).init_of(roles.controller)
    fs = T('in', 'feature_size')
    res = []
    for n, vs in vals.items():
        if vs and all(mentions(v, fs) and v.op == 'bin' and v.a[0] == '/' and v.a[1] is fs for v in vs):
            res.append(n)
    return sorted(res), vals


def scheduler_setup(ctx, roles, K=0, recheck=True, stencil=True, check=0):
    me = roles.self_term
    prog = ctx.prog
    st_attr = stencil_attrs(ctx, roles)
    ctx.require(st_attr, 'the refinement stencil is not kept')
    sterm = T('in', '#stencil')

    def setup(st):
        for n in opt_attrs(prog, roles.controller, 'recheck_count_cutoff'):
            st.heap[(me, n)] = const(K)
        for n in opt_attrs(prog, roles.controller, 'recheck_pos_dist'):
            st.heap[(me, n)] = const(recheck)
        for n in opt_attrs(prog, roles.controller, 'simplex_check_cutoff'):
            st.heap[(me, n)] = const(check)
        for n in st_attr:
            st.heap[(me, n)] = sterm if stencil else NONE
        if stencil:
            st.facts[('is',) + tuple(sorted((sterm, NONE)))] = False
    return setup, sterm


def stencil_attrs(ctx, roles):
    vals = prog_types(ctx.prog).init_of(roles.controller)
    x = T('in', 'refinement_stencil')
    return sorted(n for n, vs in vals.items() if any(mentions(v, x) for v in vs) and all(v is NONE or v.op == 'bin' or mentions(v, x) for v in vs))


def c12(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('count', 'with K allowed positions (K = 0, 1, 2): refined only if at most K distances were found below the cutoff, discarded only if more were')
    ctx.rule('source', 'the distances counted are those from the position to refined positions, compared with the distance cutoff')
    ctx.rule('recorded', 'every refined position is recorded as refined, no discarded one is')
    ctx.rule('stencil', 'the simplices added are the stencil moved to the position; the stencil is the configured one times the distance cutoff; no stencil, no refinement')
    ctx.rule('queued', 'a position is queued exactly if its result is a node, there is a stencil, and no refined position is within the cutoff')
    cols = collections(ctx, roles)
    ctx.require(cols['refined'], 'set_refined stores nothing')
    cuts, vals = cutoff_attrs(ctx, roles)
    cutoffs = {attr(roles.self_term, n) for n in cuts}
    names = set(opt_attrs(ctx.prog, roles.result, 'dist_cutoff'))
    before = len(ctx.violations)
    combos = [(0, True, True), (1, True, True), (2, True, True), (0, False, True), (0, True, False)]
    if ctx.tier == 'thorough':
        combos += [(3, True, True), (0, False, False), (1, False, True)]
    for K, recheck, stencil in combos:
        setup, sterm = scheduler_setup(ctx, roles, K, recheck, stencil)
        dm = DecisionMonitor(ctx, roles, cols, 'main', K, cutoffs, recheck, stencil, 'refined', sterm)
        dm.cut_names = names
        eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=dm, opaque=roles.data_methods, setup=setup, count=dm.counts,
                                        label='scheduler, %d allowed, recheck %s, stencil %s' % (K, recheck, stencil))
        ctx.require(dm.seen['pop'], 'the scheduler takes no position from the queue')
        if stencil:
            ctx.require(dm.seen['refine'], 'the scheduler never refines a position')
        ctx.ok('count', 'K=%d recheck=%s stencil=%s: %s' % (K, recheck, stencil, {k: v for k, v in dm.seen.items() if v}))
    from . import cells
    cells.measure(ctx, 'source', lambda f: reads(ctx.prog, roles.result, f) & cols['refined'])
    # the stencil
    for n in stencil_attrs(ctx, roles):
        for v in vals[n]:
            ok = scaled(v, vals, cuts)
            ctx.decide('stencil', 'self.%s = %s' % (n, show(v)[:80]), ok, ctx.loc(ctx.prog.find_method(roles.controller, '__init__')), roles.controller.name + '.__init__', 'the stencil used is %s, not the configured stencil times the distance cutoff' % show(v)[:120])
    # the task
    for f, args, kws, params, node in task_entries(ctx, roles):
        # what is allowed later does not matter yet
        for stencil, K in ((True, 0), (True, 2), (False, 0)):
            setup, sterm = scheduler_setup(ctx, roles, K, True, stencil, K)
            dm = DecisionMonitor(ctx, roles, cols, 'task', 0, cutoffs, True, stencil, 'refined', sterm)
            dm.cut_names = names
            eng, rets, raises = ctx.analyse(f, args, kws, monitor=dm, opaque=(roles.async_functions - {f.fid}) | roles.data_methods, setup=setup, count=dm.counts, label='task %s, stencil %s' % (f.qual, stencil))
            for s, _ in rets:
                m = s.mon
                if m.get('res') is None or s.taint:
                    ctx.undecided('queued', f.qual, 'no result is recorded')
                    continue
                node_ = eng.holds(s, m.get('verdict')) if m.get('verdict') is not None else None
                if dm.unknown(m):
                    ctx.undecided('queued', f.qual, dm.unknown(m))
                    continue
                if m.get('addP'):
                    if not stencil:
                        ctx.undecided('queued', f.qual, 'positions are queued without a stencil (and discarded later)')
                    elif m.get('g', 0) > 0:
                        ctx.bad('queued', ctx.loc(f), f.qual, 'a position is queued although a refined position is within the cutoff distance')
                    elif m.get('cut') or not m.get('checked'):
                        ctx.bad('queued', ctx.loc(f), f.qual, 'a position is queued although not all refined positions near it were looked at%s' % (' (%s)' % m.get('cut') if m.get('cut') else ''))
                    elif m.get('addP') > 1:
                        ctx.bad('queued', ctx.loc(f), f.qual, 'the position is queued more than once')
                    else:
                        ctx.ok('queued', '%s: queued' % f.qual)
                elif stencil and node_ is True and m.get('g', 0) == 0:
                    ctx.bad('queued', ctx.loc(f), f.qual, 'a node is not queued for refinement although no refined position is within the cutoff distance')
                elif stencil and node_ is None and m.get('g', 0) == 0:
                    ctx.bad('queued', ctx.loc(f), f.qual, 'whether the result is a node does not decide about its refinement')
                else:
                    ctx.ok('queued', '%s: not queued' % f.qual)
    if len(ctx.violations) == before:
        ctx.ok('source', 'all distance tests')


ROUNDED = {'numpy.' + n for n in ('round', 'around', 'round_', 'rint', 'floor', 'ceil', 'trunc', 'fix', 'abs', 'absolute', 'negative', 'clip', 'sort', 'flip')} | {'builtins.round', 'builtins.sorted', 'builtins.abs'}


def changed(t, subject):
    """A part of t that is certainly not the position itself any more, but
    computed from it."""
    t = strip_at(t)
    if not isinstance(t, T) or not mentions(t, subject) or t is subject:
        return None
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ROUNDED:
        return t
    if t.op == 'un' and t.a[0] == '-':
        return t
    if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/', '//', '**', '%'):
        x, y = (strip_at(z) for z in t.a[1:])
        if x.op == 'const' and not mentions(y, subject) or y.op == 'const' and not mentions(x, subject):
            return None
        c = y if y.op == 'const' else x if x.op == 'const' else None
        if c is not None and isinstance(cval(c), (int, float)) and cval(c) != 0 and not (t.a[0] in '*/' and cval(c) == 1):
            return t
        return None
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'builtins.tuple', 'builtins.list') and t.a[1]:
        return changed(t.a[1][0], subject)
    if t.op == 'comp' and isinstance(t.a[1], T):
        return changed(t.a[1], subject)
    return None


def scaled(v, vals, cuts):
    """Whether a value is None or the configured stencil times the cutoff."""
    if v is NONE:
        return True
    if v.op == 'phi':
        return None
    def is_cut(t):
        return any(t in vals[n] for n in cuts) or t.op == 'bin' and t.a[0] == '/' and t.a[1] is T('in', 'feature_size')
    if v.op == 'bin' and v.a[0] == '*':
        a, b = plain(v.a[1]), plain(v.a[2])
        if is_cut(b) or is_cut(a):
            other = a if is_cut(b) else b
            if other is T('in', 'refinement_stencil') or any(y.op == 'const' and cval(y) == 'auto' or y.op == 'func' for y in walk(other)) or other.op in ('call', 'comp', 'phi', 'obj', 'sub', 'get', 'glob'):
                return True
            return False if all(y.op in ('bin', 'const', 'in') for y in walk(other)) else None
        return False if all(y.op in ('bin', 'const', 'in', 'glob') for y in walk(v)) else None
    if v is T('in', 'refinement_stencil'):
        return False
    return None


def c13(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('skip', 'with K allowed vertices (K = 0, 1, 2): a simplex is marked finished without being minimised exactly if more than K of its vertices were found below the cutoff distance from a node, each counted once')
    ctx.rule('source', 'the distances counted are those from the vertices to nodes, compared with the distance cutoff')
    ctx.rule('start', 'the minimisation is started from exactly the simplex taken from the queue, and hands it to the minimiser')
    cols = collections(ctx, roles)
    ctx.require(cols['node'], 'add_result stores no nodes')
    cuts, vals = cutoff_attrs(ctx, roles)
    cutoffs = {attr(roles.self_term, n) for n in cuts}
    names = set(opt_attrs(ctx.prog, roles.result, 'dist_cutoff'))
    before = len(ctx.violations)
    from . import cells
    cells.measure(ctx, 'source', lambda f: reads(ctx.prog, roles.result, f) & cols['node'])
    for K in (0, 1, 2) if ctx.tier == 'quick' else (0, 1, 2, 3):
        setup, sterm = scheduler_setup(ctx, roles, 0, True, True, check=K)
        dm = DecisionMonitor(ctx, roles, cols, 'main', K, cutoffs, kind='node')
        dm.cut_names = names
        eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=dm, opaque=roles.data_methods, setup=setup, count=dm.counts, label='scheduler, %d vertices allowed' % K)
        ctx.require(dm.seen['pop'], 'the scheduler takes no simplex from the queue')
        ctx.require(dm.seen['launch'], 'the scheduler launches no simplex')
        ctx.ok('skip', 'K=%d: %s' % (K, {k: v for k, v in dm.seen.items() if v}))
    for f, args, kws, params, node in task_entries(ctx, roles):
        class M(Monitor):
            def init(self):
                return EMPTY

            def on(self, ev, m, st, eng):
                if ev.kind == 'call' and ev.awaited and isinstance(ev.fn, Function):
                    vals = list(ev.args) + list(ev.kwargs.values())
                    ps = [T('in', p) for p in params]
                    if any(loose(v, p) for v in vals for p in ps):
                        return m.set(min='yes')
                    return m.set(min=m.get('min') or ('part' if any(mentions(v, p) for v in vals for p in ps) else 'no'))
                return m
        eng, rets, raises = ctx.analyse(f, args, kws, monitor=M(), opaque=(roles.async_functions - {f.fid}) | roles.data_methods, label='task %s' % f.qual)
        for s, _ in rets:
            k = s.mon.get('min')
            if k == 'no':
                ctx.bad('start', ctx.loc(f), f.qual, 'the minimisation does not start from the simplex of the task')
            elif k == 'yes':
                ctx.ok('start', f.qual)
            else:
                ctx.undecided('start', f.qual, 'the simplex is changed on its way to the minimiser' if k else 'no minimisation found')
    if len(ctx.violations) == before:
        ctx.ok('source', 'all distance tests')
