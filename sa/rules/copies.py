"""Rules about copying and pickling of result objects."""
import ast

from ..engine import Monitor, prog_types
from ..terms import T, const, cval, is_const, walk, show, NONE, attr
from ..engine import strip_at
from .results import self_of
from .schema import tagged, class_loc, parameters
from .search import mentions

#: not results: their queues hold locks
STATE = {'nodefinder.controller_state', 'nodefinder.simplex_queue', 'nodefinder.position_queue'}
#: looked up on instances by copy and pickle
HOOKS = ('__deepcopy__', '__getnewargs_ex__', '__getnewargs__', '__setstate__', '__getstate__', '__reduce_cython__')
UNPICKLABLE = ('threading.Lock', 'threading.RLock', 'threading.Condition', 'threading.Event', 'threading.Thread', 'threading.local', 'queue.Queue', 'queue.LifoQueue',
               'queue.SimpleQueue', 'builtins.open', 'builtins.iter', 'weakref.ref', 'weakref.proxy', 'asyncio.Lock', 'asyncio.get_event_loop', 'asyncio.new_event_loop',
               'asyncio.ensure_future', 'logging.StreamHandler', 'h5py.File', 'tempfile.NamedTemporaryFile', 'types.MappingProxyType',
               'functools.lru_cache', 'functools.cache', 'functools.singledispatch', 'threading.Semaphore', 'threading.BoundedSemaphore', 'threading.Barrier', 'threading.Timer',
               'concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.ProcessPoolExecutor', 'multiprocessing.Pool', 'multiprocessing.Lock', 'builtins.memoryview',
               'weakref.WeakValueDictionary', 'weakref.WeakKeyDictionary', 'weakref.WeakSet', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile')


def result_classes(prog):
    res = []
    for c, main, extras, _ in tagged(prog):
        if {main} | set(extras or ()) & STATE and ({main} | set(extras or ())) & STATE:
            continue
        if c not in res:
            res.append(c)
    # parts of results
    todo = list(res)
    types = prog_types(prog)
    while todo:
        c = todo.pop()
        for vs in types.init_of(c).values():
            for v in vs:
                for y in walk(v) if isinstance(v, T) else ():
                    if y.op == 'inst':
                        k = prog.classes.get(y.a[0])
                        if k is not None and k not in res:
                            res.append(k)
                            todo.append(k)
    return res


def c35(ctx):
    prog = ctx.prog
    FUNCTIONS.clear()
    FUNCTIONS.update(prog.functions)
    ctx.rule('lookup', 'a __getattr__ of a result class never reads an attribute of the object that may be missing without excluding that name first, and fails with an AttributeError for unknown names')
    ctx.rule('rebuild', 'no result class relies on a default way of copying that calls its constructor without the arguments it needs, and ways of its own keep all data')
    ctx.rule('stored', 'no result object stores what cannot be copied or pickled (locks, files, generators, local functions)')
    ctx.rule('class', 'result classes are found again under their module and name')
    cs = result_classes(prog)
    ctx.require(cs, 'no result class')
    for c in cs:
        lookup(ctx, c)
        rebuild(ctx, c)
        stored(ctx, c)
        f = [n for n in c.module.tree.body if n is c.node]
        outer = [n for n in ast.walk(c.module.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(y is c.node for y in ast.walk(n))]
        if outer:
            ctx.bad('class', class_loc(ctx, c), c.name, 'the class is local to %s, so its objects cannot be pickled' % outer[0].name)
        else:
            ctx.ok('class', c.name)
            del f
    created(ctx, cs)


class Loads(Monitor):
    loads = True

    def __init__(self, me, missing=None):
        self.me = me
        self.missing = missing
        self.seen = {}

    def on(self, ev, m, st, eng):
        if ev.kind == 'loadattr' and ev.base is self.me:
            here = {cval(f[1]) for f, v in st.facts.items() if f[0] == 'in' and v is True and f[1].op == 'const' and mentions(f[2], attr(self.me, '__dict__'))}
            if ev.name in here or self.missing in here:
                return m
            self.seen.setdefault(ev.name, (ev.node, eng.func))
        return m


def own_attrs(prog, c):
    """Attributes that are set on instances (missing on partially built objects)."""
    res = set(prog_types(prog).init_of(c))
    return {x for x in res if x not in c.attrs and prog.find_method(c, x) is None}


def lookup(ctx, c):
    prog = ctx.prog
    for hook in ('__getattr__', '__getattribute__'):
        f = prog.find_method(c, hook)
        if f is None:
            continue
        if hook == '__getattribute__':
            ctx.undecided('lookup', f.qual, '__getattribute__ is not analysed')
            continue
        me = self_of(c)
        mon = Loads(me)
        key = T('in', 'key')
        eng, rets, raises = ctx.analyse(f, [key], [], self_term=me, monitor=mon, label=f.qual)
        mine = own_attrs(prog, c)
        special = {'__dict__', '__class__', '__doc__', '__module__'}
        reads = {x for x in mon.seen if x not in special and (x in mine or (x not in c.attrs and prog.find_method(c, x) is None and not any(x in k.attrs for k in prog.mro(c))))}
        bad = False
        for x in sorted(reads):
            m2 = Loads(me, x)
            ctx.analyse(f, [const(x)], [], self_term=me, monitor=m2, label='%s(%r)' % (f.qual, x))
            again = [y for y in m2.seen if y in reads]
            if again:
                bad = True
                node, fn = m2.seen[again[0]]
                ctx.bad('lookup', ctx.loc(fn, node), f.qual, 'looking up %r on an object that does not have it yet (while copying or unpickling) reads self.%s, which calls %s again without end' % (x, again[0], hook))
        for s, v in rets:
            if s.taint:
                continue
            if silent(v, key, s):
                bad = True
                ctx.bad('lookup', ctx.loc(f), f.qual, 'looking up an unknown attribute gives a default (%s) instead of an AttributeError' % show(v)[:60])
                continue
            ok = any(y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] == 'builtins.getattr' and mentions(y, key) or y.op in ('sub', 'opaque', 'phi', 'top') or y.op == 'call' and mentions(y, key) for y in walk(v))
            if not ok and not mentions(v, key):
                # a path only for certain names is fine
                named = any(fk[0] in ('ord', 'in') and any(t is key for t in fk[1:]) and val not in (False,) and not (isinstance(val, frozenset) and '=' not in val) for fk, val in s.facts.items())
                if not named:
                    bad = True
                    ctx.bad('lookup', ctx.loc(f), f.qual, 'looking up an unknown attribute gives %s instead of an AttributeError' % show(v)[:60])
        for s, e in raises:
            if s.taint or e.op != 'exc' or e.a[0] != 'X':
                continue
            name = str(e.a[2]).split('.')[-1]
            if name in ('KeyError', 'TypeError', 'ValueError', 'RuntimeError', 'NotImplementedError', 'LookupError', 'NameError', 'AssertionError') and not str(e.a[1]).startswith('assert'):
                bad = True
                ctx.bad('lookup', ctx.loc(f), f.qual, 'looking up an unknown attribute fails with a %s instead of an AttributeError' % name)
        # hooks of the objects the lookup is passed on to
        targets = [k for k in result_classes(prog) if k is not c]
        for h in HOOKS:
            have = [k for k in targets if prog.find_method(k, h) is not None]
            if not have or prog.find_method(c, h) is not None:
                continue
            eng, rets, raises = ctx.analyse(f, [const(h)], [], self_term=me, label='%s(%r)' % (f.qual, h))
            if any(not s.taint for s, v in rets):
                bad = True
                ctx.bad('lookup', ctx.loc(f), f.qual, '%s of %s is used for copying a %s, because %s passes it on' % (h, have[0].name, c.name, hook))
        if not bad:
            ctx.ok('lookup', '%s: %s' % (f.qual, ', '.join(sorted(reads)) or 'no own attribute read'))


def silent(v, key, st):
    """A lookup of a name that gives a default if it is missing."""
    v = strip_at(v)
    if v.op != 'call' or any(strip_at(t) is v for fk in st.facts for t in fk[1:] if isinstance(t, T)):
        return False
    if v.a[0].op == 'ext' and v.a[0].a[0] == 'builtins.getattr' and len(v.a[1]) == 3 and strip_at(v.a[1][1]) is key:
        return is_const(v.a[1][2]) or v.a[1][2].op in ('obj', 'ext')
    if v.a[0].op == 'attr' and v.a[0].a[1] == 'get' and v.a[1] and strip_at(v.a[1][0]) is key:
        if len(v.a[1]) == 2 and not is_const(v.a[1][1]):
            return False
        return not any(fk[0] == 'in' and fk[1] is key and val is True for fk, val in st.facts.items())
    return False


def namespace(prog, c):
    return any(str(b).endswith('types.SimpleNamespace') for b in prog.ext_bases(c))


def rebuild(ctx, c):
    prog = ctx.prog
    req, opt, anykw = parameters(prog, c)
    red = prog.find_method(c, '__reduce_ex__') or prog.find_method(c, '__reduce__')
    new = prog.find_method(c, '__new__')
    bad = False
    if new is not None:
        a = new.node.args
        need = [x.arg for x in (a.posonlyargs + a.args)[1:]][:len(a.posonlyargs + a.args) - 1 - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if need and red is None and not any(prog.find_method(c, h) for h in ('__getnewargs__', '__getnewargs_ex__')):
            bad = True
            ctx.bad('rebuild', ctx.loc(new), c.name, 'copying calls __new__ without %s' % ', '.join(need))
    if namespace(prog, c) and red is None and req and not (prog.find_method(c, '__copy__') and prog.find_method(c, '__deepcopy__') and False):
        bad = True
        ctx.bad('rebuild', class_loc(ctx, c), c.name, 'copying or unpickling calls the constructor without arguments (SimpleNamespace.__reduce__), but it needs %s' % ', '.join(req))
    if red is not None:
        bad = reduce_of(ctx, c, red, req, opt) or bad
    for h in ('__copy__', '__deepcopy__'):
        f = prog.find_method(c, h)
        if f is not None:
            bad = copier(ctx, c, f, req + opt) or bad
    get, put = prog.find_method(c, '__getstate__'), prog.find_method(c, '__setstate__')
    if get is not None:
        bad = state_of(ctx, c, get, put) or bad
    if not bad:
        ctx.ok('rebuild', c.name)


def params_to_attrs(prog, c):
    """attribute -> constructor parameter it is made from."""
    res = {}
    for x, vs in prog_types(prog).init_of(c).items():
        for v in vs:
            for y in walk(v) if isinstance(v, T) else ():
                if y.op == 'in':
                    res.setdefault(x, set()).add(y.a[0])
    return res


def reduce_of(ctx, c, f, req, opt):
    prog = ctx.prog
    me = self_of(c)
    eng, rets, raises = ctx.analyse(f, [T('in', 'protocol')] if f.name == '__reduce_ex__' else [], [], self_term=me, label='%s.%s' % (c.name, f.name))
    bad = False
    for s, v in rets:
        if s.taint:
            continue
        v = strip_at(v)
        if v.op == 'call' and v.a[0].op == 'attr' and v.a[0].a[0].op == 'super' and v.a[0].a[1] in ('__reduce__', '__reduce_ex__'):
            if namespace(prog, c) and req:
                bad = True
                ctx.bad('rebuild', ctx.loc(f), c.name, 'copying or unpickling calls the constructor without arguments (SimpleNamespace.__reduce__), but it needs %s' % ', '.join(req))
            continue
        if v.op != 'tuple':
            ctx.undecided('rebuild', f.qual, 'returns %s' % show(v)[:60])
            continue
        items = list(v.a[0]) if len(v.a) == 1 and isinstance(v.a[0], tuple) else list(v.a)
        if len(items) < 2:
            ctx.undecided('rebuild', f.qual, 'returns %s' % show(v)[:60])
            continue
        fn, args = items[0], strip_at(items[1])
        n = (args.a[0] if len(args.a) == 1 and isinstance(args.a[0], tuple) else args.a) if args.op == 'tuple' else None
        plain = fn.op == 'ext' and fn.a[0] in ('copyreg.__newobj__', 'builtins.object.__new__', 'copyreg.__reduce_ex__', 'types.SimpleNamespace.__new__')
        state = items[2] if len(items) > 2 and items[2] is not NONE else None
        if plain:
            if state is None:
                bad = True
                ctx.bad('rebuild', ctx.loc(f), c.name, 'copying and pickling leave out all data (no state)')
                continue
        elif fn.op == 'cls' or (fn.op == 'call' and fn.a[0].op == 'ext' and fn.a[0].a[0] == 'builtins.type') or (fn.op == 'attr' and fn.a[1] == '__class__'):
            pf = prog.find_method(c, '__init__')
            pos = [x.arg for x in pf.node.args.posonlyargs + pf.node.args.args][1:] if pf else []
            given = len(n) if n is not None else None
            if given is None:
                ctx.undecided('rebuild', f.qual, 'the arguments are not a tuple')
                continue
            miss = [x for x in req if x not in pos[:given]]
            if miss:
                bad = True
                ctx.bad('rebuild', ctx.loc(f), c.name, 'copying or unpickling calls the constructor without %s' % ', '.join(miss))
                continue
            for p, a in zip(pos, n):
                src = {x for x, ps in params_to_attrs(prog, c).items() if p in ps} | {p}
                if not any(mentions(a, attr(me, x)) for x in src):
                    bad = True
                    ctx.bad('rebuild', ctx.loc(f), c.name, 'copying gives %s for %s' % (show(a)[:50], p))
            if state is None:
                lost = [x for x, ps in params_to_attrs(prog, c).items() if not any(p in pos[:given] for p in ps)]
                if lost:
                    bad = True
                    ctx.bad('rebuild', ctx.loc(f), c.name, 'copying leaves out %s' % ', '.join(sorted(lost)))
        else:
            ctx.undecided('rebuild', f.qual, 'rebuilt by %s' % show(fn)[:60])
    return bad


class News(Monitor):
    def __init__(self, c):
        self.c = c
        self.found = []

    def on(self, ev, m, st, eng):
        if ev.kind == 'new' and ev.cls is self.c:
            f = eng.prog.find_method(ev.cls, '__init__')
            d = dict(ev.kwargs)
            if f is not None:
                a = f.node.args
                for n, v in zip([x.arg for x in a.posonlyargs + a.args][1:], ev.args):
                    d.setdefault(n, v)
            self.found.append((d, ev.node, bool(st.taint)))
        return m


def copier(ctx, c, f, params):
    me = self_of(c)
    mon = News(c)
    eng, rets, raises = ctx.analyse(f, [T('in', 'memo')] if f.name == '__deepcopy__' else [], [], self_term=me, monitor=mon, label='%s.%s' % (c.name, f.name))
    bad = False
    for s, v in rets:
        if not s.taint and v is me:
            bad = True
            ctx.bad('rebuild', ctx.loc(f), c.name, '%s returns the object itself' % f.name)
    src = params_to_attrs(ctx.prog, c)
    for d, node, taint in mon.found:
        if taint or '**' in d:
            continue
        for p in params:
            names = {x for x, ps in src.items() if p in ps} | {p}
            if p not in d or not any(mentions(d[p], attr(me, x)) for x in names):
                bad = True
                ctx.bad('rebuild', ctx.loc(f, node), c.name, '%s does not copy %s' % (f.name, p))
    if not mon.found:
        ctx.undecided('rebuild', f.qual, 'how the copy is made was not understood')
    return bad


def state_of(ctx, c, f, put):
    me = self_of(c)
    bad = False

    class Drops(Monitor):
        def __init__(self):
            self.found = []

        def on(self, ev, m, st, eng):
            if ev.kind == 'mutate' and ev.method in ('pop', 'clear', 'popitem', '__delitem__') and mentions(ev.base, attr(me, '__dict__')):
                self.found.append(ev)
            return m
    mon = Drops()
    eng, rets, raises = ctx.analyse(f, [], [], self_term=me, monitor=mon, label='%s.__getstate__' % c.name)
    if put is not None:
        ctx.undecided('rebuild', f.qual, 'state with its own __setstate__')
        return False
    for ev in mon.found:
        bad = True
        ctx.bad('rebuild', ctx.loc(f, ev.node), c.name, 'data is removed from the copied state')
    mine = own_attrs(ctx.prog, c)
    for s, v in rets:
        if s.taint:
            continue
        d = s.heap.get((v, '#')) if v.op == 'obj' else v
        if isinstance(d, T) and d.op == 'ditems':
            ks = [y.a[0] for y in d.a[0] if y.op == 'kv']
            if len(ks) == len(d.a[0]) and all(k.op == 'const' for k in ks):
                lost = mine - {cval(k) for k in ks}
                if lost:
                    bad = True
                    ctx.bad('rebuild', ctx.loc(f), c.name, 'the copied state leaves out %s' % ', '.join(sorted(lost)))
    return bad


FUNCTIONS = {}


def unpicklable(v, st, depth=3):
    """A reason why a value cannot be copied or pickled."""
    for y in walk(v):
        if y.op == 'genx':
            return 'a generator'
        if y.op == 'func':
            fn = FUNCTIONS.get(y.a[0])
            if fn is not None and (fn.parent is not None or isinstance(fn.node, ast.Lambda)):
                return 'a local function'
        if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in UNPICKLABLE:
            return 'the result of %s' % y.a[0].a[0]
        if y.op == 'call' and y.a[0].op == 'attr' and y.a[0].a[1] in ('keys', 'values', 'items') and not y.a[1] and strip_at(y.a[0].a[0]).op == 'obj' and strip_at(y.a[0].a[0]).a[0] == 'dict' and y is strip_at(v):
            return 'a view of a dictionary'
        if y.op == 'obj' and depth:
            c = st.heap.get((y, '#'))
            if isinstance(c, T):
                r = unpicklable(c, st, depth - 1)
                if r:
                    return r
    return None


class Stores(Monitor):
    def __init__(self, me):
        self.me = me
        self.found = {}

    def on(self, ev, m, st, eng):
        if ev.kind == 'storeattr' and ev.base is self.me and not st.taint:
            r = unpicklable(ev.value, st)
            if r:
                self.found.setdefault((ev.name, r), (ev.node, eng.func))
        elif ev.kind in ('mutate', 'storesub') and not st.taint:
            b = strip_at(ev.base)
            x = None
            if b.op == 'attr' and b.a[0] is self.me:
                x = b.a[1]
            else:
                x = next((k[1] for k, val in st.heap.items() if k[0] is self.me and strip_at(val) is b and isinstance(k[1], str)), None)
            if x is not None:
                for v in ([ev.value] if ev.kind == 'storesub' else list(ev.args)):
                    r = unpicklable(v, st) if isinstance(v, T) else None
                    if r and ev.kind == 'mutate' and ev.method not in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                        r = None
                    if r:
                        self.found.setdefault((x, 'holding ' + r), (ev.node, eng.func))
        return m


def stored(ctx, c):
    prog = ctx.prog
    me = self_of(c)
    names = set()
    bad = False
    for k in prog.mro(c):
        for name, fs in k.methods.items():
            for f in fs:
                if name in names or prog.method_kind(f) in ('static', 'class'):
                    continue
                if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) and name != '__init__':
                    continue
                mon = Stores(me)
                args = f.node.args
                ps = [x.arg for x in args.posonlyargs + args.args][1:]
                try:
                    ctx.analyse(f, [T('in', p) for p in ps], [(x.arg, T('in', x.arg)) for x in args.kwonlyargs], self_term=me, monitor=mon, label='%s.%s' % (c.name, name))
                except TypeError:
                    continue
                for (a, r), (node, fn) in mon.found.items():
                    bad = True
                    ctx.bad('stored', ctx.loc(fn, node), fn.qual, '%s.%s is %s, which cannot be copied or pickled' % (c.name, a, r))
    if not bad:
        ctx.ok('stored', c.name)


class Created(Monitor):
    def __init__(self, cs):
        self.cs = cs
        self.bad = {}
        self.n = set()

    def on(self, ev, m, st, eng):
        if ev.kind == 'new' and ev.cls in self.cs:
            self.n.add((ev.cls.name, getattr(ev.node, 'lineno', 0)))
            if not st.taint:
                kept = {p for ps in params_to_attrs(eng.prog, ev.cls).values() for p in ps}
                plain = verbatim(eng.prog, ev.cls)
                f = eng.prog.find_method(ev.cls, '__init__')
                d = dict(ev.kwargs)
                if f is not None:
                    a = f.node.args
                    for n, v in zip([x.arg for x in a.posonlyargs + a.args][1:], ev.args):
                        d.setdefault(n, v)
                for p, v in d.items():
                    if f is not None and p not in plain:
                        continue
                    r = unpicklable(v, st)
                    if r:
                        self.bad[(ev.cls.name, p, r)] = (ev.node, eng.func)
                del kept
        return m


def verbatim(prog, c):
    """Constructor parameters stored as they are."""
    res = set()
    for vs in prog_types(prog).init_of(c).values():
        for v in vs:
            if isinstance(v, T) and v.op == 'in':
                res.add(v.a[0])
    return res


def created(ctx, cs):
    """What is given to the constructors of result objects."""
    prog = ctx.prog
    names = {c.name for c in cs}
    n = 0
    for f in prog.functions.values():
        if not any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in names or isinstance(x.func, ast.Attribute) and x.func.attr in names) for x in ast.walk(f.node)):
            continue
        if f.cls is not None and prog.method_kind(f) in ('class', 'static'):
            continue
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        me = None
        if f.cls is not None:
            me, ps = self_of(f.cls), ps[1:]
        mon = Created(cs)
        ctx.analyse(f, [T("in", p) for p in ps], [(x.arg, T("in", x.arg)) for x in a.kwonlyargs], self_term=me, monitor=mon, label=f.qual, opaque=[g.fid for g in prog.functions.values() if g is not f and g.parent is not f])
        for (cn, p, r), (node, fn) in mon.bad.items():
            ctx.bad('stored', ctx.loc(fn, node), fn.qual, '%s of a %s is %s, which cannot be copied or pickled' % (p, cn, r))
        n += len(mon.n)
        if mon.n and not mon.bad:
            ctx.ok('stored', '%s creates %s' % (f.qual, ', '.join(sorted({x for x, _ in mon.n}))))
