"""What the analysis assumes about functions outside the package."""

import builtins

from .terms import T, NONE, TRUE, FALSE, TOP, UNDEF, const, is_const, cval, ext, attr, call, tup, walk

ALIASES = {
    'os.replace': 'os.rename',
    'posix.rename': 'os.rename',
    'os.unlink': 'os.remove',
    'asyncio.create_task': 'asyncio.ensure_future',
    'asyncio.tasks.ensure_future': 'asyncio.ensure_future',
    'numpy.minimum': 'numpy.minimum',
    'numpy.fmin': 'numpy.fmin',
    'numpy.round_': 'numpy.round',
    'numpy.around': 'numpy.round',
    'numpy.mean': 'numpy.average',
    'numpy.absolute': 'numpy.abs',
    'numpy.fabs': 'numpy.abs',
    'numpy.remainder': 'numpy.mod',
    'numpy.asfarray': 'numpy.asarray',
    'numpy.product': 'numpy.prod',
    'numpy.linalg.norm': 'scipy.linalg.norm',
    'fsc.hdf5_io._save_load.save': 'fsc.hdf5_io.save',
    'fsc.hdf5_io._save_load.load': 'fsc.hdf5_io.load',
    'networkx.algorithms.shortest_path': 'networkx.shortest_path',
    'networkx.algorithms.shortest_path_length': 'networkx.shortest_path_length',
    'networkx.algorithms.connected_components': 'networkx.connected_components',
    'networkx.algorithms.components.connected_components': 'networkx.connected_components',
    'networkx.algorithms.dominating_set': 'networkx.dominating_set',
    'networkx.algorithms.is_dominating_set': 'networkx.is_dominating_set',
    'networkx.classes.graph.Graph': 'networkx.Graph',
    'builtins.IOError': 'builtins.OSError',
    'builtins.EnvironmentError': 'builtins.OSError',
    'asyncio.exceptions.CancelledError': 'asyncio.CancelledError',
    'concurrent.futures.CancelledError': 'asyncio.CancelledError',
}

#: in-place operations of built-in and library containers
MUTATORS = {
    'append', 'add', 'update', 'pop', 'remove', 'clear', 'extend', 'insert', 'discard', 'popitem', 'popleft',
    'appendleft', 'sort', 'reverse', 'setdefault', 'difference_update', 'intersection_update',
    'symmetric_difference_update', 'put', 'put_nowait', 'get_nowait', 'subtract',
    'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'add_weighted_edges_from', 'remove_node',
    'remove_nodes_from', 'remove_edge', 'remove_edges_from', 'clear_edges', 'fill', 'resize', 'partition', 'itemset',
    '__setitem__', '__delitem__', '__iadd__', 'rotate', 'setflags', 'extendleft',
    'move_to_end', 'put_', 'task_done',
}
MAY_RAISE_MUT = {'pop', 'remove', 'popitem', 'popleft', 'get_nowait', 'remove_edge', 'remove_node', 'index'}

PURE_PREFIX = (
    'numpy.', 'scipy.', 'math.', 'operator.', 'itertools.', 'os.path.', 'networkx.', 'builtins.', 'types.MappingProxyType',
    'copy.', 'string.', 're.', 'collections.namedtuple', 'statistics.', 'cmath.', 'fractions.', 'numbers.', 'pathlib.PurePath',
    'inspect.', 'enum.', 'dataclasses.', 'time.monotonic', 'time.time', 'typing.', 'abc.', 'functools.cmp_to_key', 'weakref.ref',
)
IMPURE = {
    'builtins.open', 'builtins.print', 'builtins.input', 'builtins.exec', 'builtins.eval', 'builtins.setattr', 'builtins.delattr',
    'numpy.random', 'numpy.save', 'numpy.savetxt', 'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.fill_diagonal',
    'numpy.savez', 'numpy.random.shuffle', 'networkx.freeze', 'networkx.set_edge_attributes', 'networkx.set_node_attributes',
    'networkx.relabel_nodes', 'builtins.__import__', 'networkx.add_path', 'networkx.add_cycle', 'networkx.write_gpickle',
}
#: functions that modify (some of) their arguments: name -> argument positions
MUTATING_FUNCS = {
    'random.shuffle': (0,), 'numpy.random.shuffle': (0,), 'numpy.copyto': (0,), 'numpy.put': (0,), 'numpy.place': (0,),
    'numpy.fill_diagonal': (0,), 'networkx.set_edge_attributes': (0,), 'networkx.set_node_attributes': (0,),
    'heapq.heappush': (0,), 'heapq.heappop': (0,), 'heapq.heapify': (0,), 'bisect.insort': (0,),
    'networkx.add_path': (0,), 'networkx.add_cycle': (0,), 'networkx.freeze': (0,),
    'operator.setitem': (0,), 'operator.delitem': (0,), 'operator.iadd': (0,), 'numpy.putmask': (0,),
}
NO_RAISE = {
    'builtins.print', 'warnings.warn', 'logging.getLogger', 'builtins.isinstance', 'builtins.len', 'random.random', 'asyncio.sleep',
    'queue.Queue', 'threading.Thread', 'warnings.simplefilter', 'warnings.catch_warnings', 'collections.Counter',
    'collections.ChainMap', 'collections.deque', 'collections.OrderedDict', 'collections.defaultdict', 'networkx.Graph',
    'asyncio.ensure_future', 'asyncio.gather', 'functools.partial', 'contextlib.suppress', 'contextlib.closing',
    'fsc.async_tools.PeriodicTask', 'random.shuffle', 'asyncio.new_event_loop', 'threading.Lock', 'asyncio.Lock', 'asyncio.Event',
    'asyncio.wait', 'asyncio.shield', 'asyncio.wait_for', 'asyncio.set_event_loop', 'random.sample', 'random.choice', 'types.SimpleNamespace',
    'contextlib.ExitStack', 'contextlib.nullcontext', 'builtins.object', 'time.sleep', 'logging.info', 'logging.debug', 'networkx.freeze',
}
PURE_METHODS = {
    'copy', 'keys', 'items', 'values', 'format', 'join', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'count',
    'union', 'difference', 'intersection', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint',
    'astype', 'reshape', 'ravel', 'flatten', 'transpose', 'tolist', 'sum', 'min', 'max', 'mean', 'any', 'all', 'dot', 'argsort', 'argmin', 'argmax', 'take', 'nonzero', 'item', 'round', 'clip', 'cumsum', 'prod', 'std', 'var', 'squeeze', 'swapaxes', 'view',
    'get', 'index', 'most_common', 'elements', 'neighbors', 'subgraph', 'edge_subgraph', 'has_edge', 'has_node', 'number_of_nodes', 'number_of_edges', 'adjacency', 'predecessors', 'successors', 'to_undirected', 'get_edge_data', 'degree',
    'empty', 'qsize', 'full', 'done', 'cancelled', 'is_running', 'is_closed', 'exception', 'is_alive', 'is_set', 'encode', 'decode', 'replace', 'title', '__len__', '__contains__', '__getitem__', '__iter__', 'is_file', 'exists', 'new_child', 'total', 'nbunch_iter', 'order', 'size', 'edges', 'nodes', 'isatty', 'rsplit', 'rstrip', 'lstrip', 'capitalize', 'zfill', 'partition_',
}
LOG_METHODS = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'}


def is_pure(name):
    if name in IMPURE or name in MUTATING_FUNCS or name.startswith('numpy.random'):
        return False
    return name.startswith(PURE_PREFIX)


def never_none(name):
    return name.startswith(('numpy.', 'scipy.', 'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.tuple', 'builtins.len', 'builtins.sorted', 'builtins.float', 'builtins.int', 'builtins.str', 'builtins.bool', 'collections.', 'networkx.Graph', 'asyncio.', 'threading.', 'queue.', 'builtins.abs', 'builtins.sum', 'builtins.range', 'builtins.zip', 'builtins.enumerate', 'types.', 'fsc.async_tools'))


def exc_class(name):
    if not isinstance(name, str):
        return None
    if name.startswith('builtins.'):
        c = getattr(builtins, name[9:], None)
        return c if isinstance(c, type) and issubclass(c, BaseException) else None
    known = {
        'asyncio.CancelledError': BaseException, 'asyncio.TimeoutError': Exception, 'queue.Empty': Exception, 'queue.Full': Exception,
        'networkx.NetworkXNoPath': Exception, 'networkx.NetworkXError': Exception, 'networkx.NodeNotFound': Exception,
        'asyncio.InvalidStateError': Exception, 'asyncio.QueueEmpty': Exception,
    }
    if name in known:
        base = known[name]
        cls = _SYNTH.get(name)
        if cls is None:
            cls = _SYNTH[name] = type(name.split('.')[-1], (base,), {})
        return cls
    return None


_SYNTH = {}


def enter_value(cm):
    """What ``with cm as x`` binds."""
    if cm.op == 'call' and cm.a[0].op == 'ext':
        n = cm.a[0].a[0]
        if n == 'contextlib.closing' and cm.a[1]:
            return cm.a[1][0]
        if n == 'contextlib.nullcontext':
            return cm.a[1][0] if cm.a[1] else NONE
        if n in ('tempfile.NamedTemporaryFile', 'h5py.File', 'builtins.open', 'fsc.async_tools.PeriodicTask', 'contextlib.ExitStack', 'concurrent.futures.ThreadPoolExecutor'):
            return cm
    return T('entered', cm)


def suppressed(cm):
    if cm.op == 'call' and cm.a[0].op == 'ext' and cm.a[0].a[0] == 'contextlib.suppress':
        return tup(*cm.a[1])
    return None


def await_never_raises(v):
    """Awaitables that raise nothing but cancellation."""
    if v.op == 'call' and v.a[0].op == 'ext':
        n = v.a[0].a[0]
        if n == 'asyncio.sleep':
            return True
        if n == 'asyncio.gather':
            return any(k == 'return_exceptions' and is_const(x, True) for k, x in v.a[2])
        if n == 'asyncio.wait':
            return True
    return False


# ----------------------------------------------------------------------------

def materialise(eng, st, x, node, kind='list'):
    """Turn a generator value into a comprehension term."""
    if x.op == 'genx':
        gnode, owner = eng._genx[x.a[0]]
        eng.fstack.append((owner, x.a[1], node))
        try:
            return eng.comp(kind, gnode, st, pre=[(st, x.a[2])])
        finally:
            eng.fstack.pop()
    if x.op == 'gen' and eng.count_mode and kind == 'list' and (eng.count_pred is None or eng.count_pred(x)):
        return eng.collect_items(st, x, node)
    if x.op == 'gen':
        vals, stc = [], []

        def h(s, e):
            if e not in vals:
                vals.append(e)
            return [s], []
        ex, _ = eng.iterate(st, x, node, h)
        if len(vals) == 1:
            elt = vals[0]
        elif vals:
            elt = eng.phi(eng.site(node, 'gm'), ('elt',), *vals)
        else:
            elt = TOP
        t = T('comp', kind, elt, ((elt, x, ()),))
        return [(s, t) for s in ex]
    return [(st, x)]


def materialise_all(eng, st, args, node):
    res = [(st, [])]
    for x in args:
        nxt = []
        for s, vs in res:
            if x.op == 'star':
                for s1, v in materialise(eng, s, x.a[0], node):
                    nxt.append((s1, vs + [T('star', v)]))
            else:
                for s1, v in materialise(eng, s, x, node):
                    nxt.append((s1, vs + [v]))
        res = nxt
    return res


def content(eng, st, x):
    """Argument term with the current version of its content."""
    if x.op == 'star':
        return T('star', content(eng, st, x.a[0]))
    items = eng.seq_items(st, x) if x.op == 'obj' else None
    if items is not None:
        k = x.a[0]
        if k in ('list', 'set'):
            return T('seqv', k, tuple(content(eng, st, y) for y in items))
    if x.op == 'obj' and x.a[0] in ('list', 'set'):
        c = st.heap.get((x, '#'))
        if c is not None and c.op == 'seq':
            return T('seqv', x.a[0], tuple(content(eng, st, y) for y in c.a[0]))
    if x.op == 'tuple':
        return T('tuple', tuple(content(eng, st, y) for y in x.a[0]))
    return eng.snap(st, x)


def pure_call(eng, st, name, args, kwargs, node, fterm=None):
    a = [content(eng, st, x) for x in args]
    k = [(n, content(eng, st, v)) for n, v in kwargs]
    return call(fterm or ext(name), a, k, eng.site(node, 'c') if name in eng.idents else None)


def with_event(eng, st, name, args, kwargs, node, result, fterm=None, recv=None, raises=True, base_raises=False):
    from .engine import Ev
    res = []
    for s in eng.emit(Ev('call', node, fn=fterm or ext(name), name=name, recv=recv, args=list(args), kwargs=dict(kwargs), result=result), st):
        if raises:
            s2 = s.copy()
            exc = T('exc', 'E', 'call:' + name, None)
            for s3 in eng.emit(Ev('callexc', node, name=name, recv=recv, args=list(args), kwargs=dict(kwargs), result=result, exc=exc), s2):
                eng.throw(s3, exc)
        if base_raises:
            eng.throw(s.copy(), T('exc', 'B', 'call:' + name, None))
        for s4 in eng.emit(Ev('callret', node, name=name, recv=recv, args=list(args), kwargs=dict(kwargs), result=result), s):
            res.append((s4, result))
    return res


def call_ext(eng, name, args, kwargs, st, node):
    """Call of an external function by dotted name."""
    from .engine import Ev
    h = HANDLERS.get(name)
    if h is not None:
        r = h(eng, name, args, kwargs, st, node)
        if r is not None:
            return r
    if name in MUTATING_FUNCS:
        res = []
        ss = [st]
        tag = eng.site(node, 'c')
        t = call(ext(name), args, kwargs, tag)
        for p in MUTATING_FUNCS[name]:
            if p < len(args):
                ss = [y for s in ss for y in eng.mutate(s, args[p], name, list(args), list(kwargs), node, result=t)]
        for s in ss:
            res += with_event(eng, s, name, args, kwargs, node, args[0] if name == 'networkx.freeze' and args else t, raises=False)
        return res
    res = []
    for s, a in materialise_all(eng, st, args, node):
        kws = [(s, [])]
        for k, v in kwargs:
            kws = [(s2, ks + [(k, v2)]) for s1, ks in kws for s2, v2 in materialise(eng, s1, v, node)]
        for s2, ks in kws:
            out = dict(ks).get('out')
            if out is not None and name.startswith('numpy.'):
                for s3 in eng.mutate(s2, out, name, a, ks, node):
                    res.append((s3, out))
                continue
            if is_pure(name):
                # no event is needed for the monitor to see the value, but some rules look for calls
                t = pure_call(eng, s2, name, a, ks, node)
                for s3 in eng.emit(Ev('pcall', node, name=name, args=a, kwargs=dict(ks), result=t), s2):
                    if eng.eager_exc or name.startswith(('networkx.shortest', 'scipy.')) and eng.in_try():
                        eng.throw(s3.copy(), T('exc', 'E', 'call:' + name, None))
                    res.append((s3, t))
            else:
                t = call(ext(name), a, ks, eng.site(node, 'c'))
                res += with_event(eng, s2, name, a, ks, node, t, raises=name not in NO_RAISE and not name.endswith('Error'))
    return res


def call_method(eng, recv, name, args, kwargs, st, node):
    """Method call on an object that is not an instance of a package class."""
    from .engine import Ev
    r0 = recv
    while r0.op == 'at':
        r0 = r0.a[0]
    etype = eng.typer.ext_type(eng, r0) or ''
    fterm = T('attr', recv, name, None)
    if name in LOG_METHODS and (r0.op == 'glob' or 'ogg' in etype):
        return [(st, NONE)]
    if r0.op == 'exc' or (r0.op == 'const' and isinstance(cval(r0), str)) or r0.op == 'fstr':
        return [(st, pure_call(eng, st, name, args, kwargs, node, fterm))]
    if r0.op == 'super':
        t = call(fterm, args, kwargs, eng.site(node, 'c'))
        return [(s, t) for s in eng.emit(Ev('supercall', node, name=name, args=list(args), kwargs=dict(kwargs), recv=recv), st)]
    if name == 'run_until_complete' and args:
        res = []
        t = call(fterm, args, kwargs, eng.site(node, 'c'))
        for s in eng.emit(Ev('call', node, fn=fterm, name='.run_until_complete', recv=recv, args=list(args), kwargs={}, result=t), st):
            for s2, v in run_awaitable(eng, args[0], s, node):
                for s3 in eng.emit(Ev('callret', node, name='.run_until_complete', recv=recv, args=list(args), kwargs={}, result=v), s2):
                    res.append((s3, v))
        return res
    if name == 'create_task' and args:
        return spawn(eng, 'create_task', args, kwargs, st, node, recv=recv)
    if name == 'get' and not etype.startswith('queue') and args:
        items = eng.dict_items(st, recv)
        if items is not None and all(k is not None for k, _ in items):
            for k, v in items:
                if k is args[0]:
                    return [(st, v)]
            if args[0].op == 'const' and all(k.op == 'const' for k, _ in items):
                return [(st, args[1] if len(args) > 1 else NONE)]
            d = args[1] if len(args) > 1 else NONE
            if items and len(items) <= 6:
                out = []
                rest = [st]
                for k, v in items:
                    nxt = []
                    for s in rest:
                        c = T('cmp', '==', args[0], k)
                        out += [(x, v) for x in eng.assume(s.copy(), c, True)]
                        nxt += eng.assume(s, c, False)
                    rest = nxt
                return out + [(x, d) for x in rest]
    if name in MUTATORS and not (name in ('put', 'pop', 'add', 'update', 'remove', 'clear', 'insert', 'partition', 'resize', 'fill', 'sort') and etype.startswith('matplotlib')):
        res = []
        tag = eng.site(node, 'c')
        t = call(fterm, args, kwargs, tag)
        for s, a in materialise_all(eng, st, args, node):
            if eng.raising() and name in MAY_RAISE_MUT and not (name == 'pop' and len(a) > 1):
                if name == 'get_nowait':
                    eng.throw(s.copy(), T('exc', 'X', 'call:.get_nowait:%d' % strip_at_(recv).id, 'queue.Empty'))
                else:
                    eng.throw(s.copy(), T('exc', 'E', 'call:.' + name, None))
            # pop(k, default) of a dict etc. returns a value
            rv = t if name in ('pop', 'popitem', 'popleft', 'get_nowait', 'setdefault') else NONE
            for s2 in eng.mutate(s, recv if recv.op != 'at' else r0, name, a, list(kwargs), node, result=t):
                res.append((s2, rv))
        return res
    if name in PURE_METHODS and not (name == 'get' and etype.startswith('queue')) and not (name == 'join' and (etype.startswith(('threading', 'queue', 'multiprocessing')) or not args)) and not (name == 'exception' and r0.op == 'glob'):
        res = []
        for s, a in materialise_all(eng, st, args, node):
            base = eng.snap(s, r0) if recv is r0 else recv
            c = s.heap.get((r0, '#'))
            if r0.op == 'obj' and name == 'copy' and c is not None:
                ob = eng.new_obj(r0.a[0], node, s, c)
                res.append((s, ob))
                continue
            t = pure_call(eng, s, name, a, kwargs, node, T('attr', base, name, None))
            for s1 in eng.emit(Ev('pcall', node, name='.' + name, recv=r0, args=a, kwargs=dict(kwargs), result=t), s):
                if name in ('index', 'exception', 'decode') and eng.raising():
                    eng.throw(s1.copy(), T('exc', 'E', 'call:.' + name, None))
                res.append((s1, t))
        return res
    # unresolved receiver: a method defined by exactly one class of the package
    cands = {f for c in eng.prog.classes.values() for f in c.methods.get(name, ()) if eng.prog.method_kind(f) == 'method'}
    if len(cands) == 1 and not etype and r0.op in ('in', 'attr', 'elem', 'sub', 'phi', 'awaited', 'kwget') and not name.startswith('_'):
        f = cands.pop()
        return eng.inline(f, T('func', f.fid, None), [recv] + list(args), kwargs, st, node)
    if r0.op == 'attr' and eng.class_of(r0.a[0]) is not None and False:
        pass
    res = []
    for s, a in materialise_all(eng, st, args, node):
        t = call(fterm, a, kwargs, eng.site(node, 'c'))
        norais = name in NO_RAISE_METHODS or etype.startswith(('threading.', 'matplotlib'))
        if is_user_attr(eng, r0, name):
            res += user_sync(eng, fterm, a, kwargs, s, node)
            continue
        res += with_event(eng, s, '.' + name, a, kwargs, node, t, fterm=fterm, recv=r0, raises=not norais)
    return res


NO_RAISE_METHODS = {'cancel', 'start', 'join', 'close', 'stop', 'add_done_callback', 'set', 'release', 'scatter', 'plot', 'set_xlim', 'set_ylim', 'set_zlim', 'add_subplot', 'plot_surface', 'get_next_color', 'shutdown', 'call_soon', 'call_soon_threadsafe', 'create_group', 'set_exception', 'set_result', 'add_axes', 'unlink_'}


def is_user_attr(eng, recv, name):
    """Whether recv.name holds a function given by the user (wrap_to_coroutine)."""
    cls = eng.class_of(recv)
    if cls is None:
        return False
    vals = eng.typer.init_of(cls).get(name)
    return bool(vals) and all(v.op in ('wrapped', 'in') for v in vals)


def user_sync(eng, fterm, args, kwargs, st, node):
    recv, name = fterm.a[0], fterm.a[1]
    cls = eng.class_of(recv)
    vals = eng.typer.init_of(cls).get(name)
    if all(v.op == 'wrapped' for v in vals):
        return [(st, T('coro', T('attr', recv, name, None), tuple(args), tuple(kwargs)))]
    t = call(fterm, args, kwargs, eng.site(node, 'c'))
    return with_event(eng, st, '.' + name, args, kwargs, node, t, fterm=fterm, recv=recv, base_raises=True)


def run_awaitable(eng, v, st, node):
    return eng.await_(v, st, node)


def spawn(eng, name, args, kwargs, st, node, recv=None):
    from .engine import Ev
    t = call(ext('asyncio.ensure_future'), args, kwargs, eng.site(node, 'c'))
    if eng.focus_mode:
        t = eng.mon.spawn_term(st, t)
    res = []
    for s in eng.emit(Ev('spawn', node, coro=args[0], result=t, name=name, recv_group=recv is not None and 'TaskGroup' in str(recv) or None), st):
        res.append((s, t))
    return res


# -- handlers -----------------------------------------------------------------

HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


@handler('asyncio.ensure_future')
def _ensure(eng, name, args, kwargs, st, node):
    if not args:
        return None
    return spawn(eng, name, args, kwargs, st, node)


@handler('asyncio.run')
def _arun(eng, name, args, kwargs, st, node):
    from .engine import Ev
    if not args:
        return None
    res = []
    t = call(ext(name), args, kwargs, eng.site(node, 'c'))
    for s in eng.emit(Ev('call', node, fn=ext(name), name=name, args=list(args), kwargs=dict(kwargs), result=t), st):
        for s2, v in eng.await_(args[0], s, node):
            for s3 in eng.emit(Ev('callret', node, name=name, args=list(args), kwargs={}, result=v), s2):
                res.append((s3, v))
    return res


@handler('asyncio.gather')
def _gather(eng, name, args, kwargs, st, node):
    # children given as coroutines run when the gather is awaited
    res = []
    for s, a in materialise_all(eng, st, args, node):
        t = call(ext(name), [content(eng, s, x) for x in a], kwargs, eng.site(node, 'c'))
        has_coro = any(_coro_elt(eng, s, x) is not None for x in a)
        if not has_coro:
            res += with_event(eng, s, name, a, kwargs, node, t, raises=False)
            continue
        # evaluate the children now (their order is irrelevant to the rules)
        outs = [(s, [])]
        for x in a:
            nxt = []
            for s1, vs in outs:
                c = _coro_elt(eng, s1, x)
                if c is None:
                    nxt.append((s1, vs + [x]))
                elif x.op == 'coro':
                    for s2, v in eng.await_(x, s1, node):
                        nxt.append((s2, vs + [v]))
                else:
                    comp = x.a[0]
                    results = []

                    def h(s2, e):
                        out = []
                        for s3, v in eng.await_(e, s2, node):
                            if v not in results:
                                results.append(v)
                            out.append(s3)
                        return out, []
                    ex, _ = eng.iterate(s1, comp, node, h)
                    if len(results) == 1:
                        elt = results[0]
                    else:
                        elt = eng.phi(eng.site(node, 'ga'), ('elt',), *results) if results else TOP
                    inner = comp
                    while inner.op == 'at':
                        inner = inner.a[0]
                    gens = inner.a[2] if inner.op == 'comp' else ((elt, comp, ()),)
                    t2 = T('comp', 'list', elt, gens)
                    for s2 in ex:
                        nxt.append((s2, vs + [T('star', t2)]))
            outs = nxt
        for s1, vs in outs:
            if len(vs) == 1 and vs[0].op == 'star':
                v = vs[0].a[0]
            else:
                v = T('tuple', tuple(vs))
            res.append((s1, T('gathered', v)))
    return res


def _coro_elt(eng, st, x):
    if x.op == 'coro':
        return x
    if x.op == 'star':
        y = x.a[0]
        while y.op == 'at':
            y = y.a[0]
        if y.op == 'comp' and y.a[1].op == 'coro':
            return y.a[1]
        items = eng.seq_items(st, y)
        if items and items[0].op == 'coro':
            return items[0]
    return None


@handler('fsc.async_tools.wrap_to_coroutine')
def _wrap(eng, name, args, kwargs, st, node):
    return [(st, T('wrapped', args[0]))] if args else None


@handler('functools.partial')
def _partial(eng, name, args, kwargs, st, node):
    if not args:
        return None
    # only known mappings can be expanded later: copy the content now
    ks = []
    for k, v in kwargs:
        if k == '**':
            items = eng.dict_items(st, v)
            if items is not None and all(kk is None or (kk.op == 'const' and isinstance(cval(kk), str)) for kk, _ in items):
                ks += [('**' if kk is None else cval(kk), vv) for kk, vv in items]
                continue
        ks.append((k, v))
    return [(st, T('partial', args[0], tuple(args[1:]), tuple(ks)))]


@handler('functools.wraps')
def _wraps(eng, name, args, kwargs, st, node):
    return [(st, ext('#identity'))]


@handler('#identity')
def _identity(eng, name, args, kwargs, st, node):
    return [(st, args[0])]


@handler('builtins.len', 'builtins.bool')
def _len(eng, name, args, kwargs, st, node):
    if len(args) != 1:
        return None
    x = args[0]
    items = eng.seq_items(st, x)
    if items is None:
        d = eng.dict_items(st, x)
        if d is not None and all(k is not None for k, _ in d):
            items = d
    if items is not None:
        return [(st, const(len(items)) if name.endswith('len') else const(bool(items)))]
    if name.endswith('bool'):
        out = []
        if x.op in ('const',):
            return [(st, const(bool(cval(x))))]
        return [(st, call(ext(name), [eng.content_term(st, x)]))]
    cls = eng.class_of(x, st)
    if cls is not None:
        f = eng.prog.find_method(cls, '__len__')
        if f is not None:
            return eng.inline(f, T('func', f.fid, None), [x], [], st, node)
    return [(st, call(ext(name), [eng.snap(st, x)]))]


@handler('builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.frozenset')
def _list(eng, name, args, kwargs, st, node):
    kind = name[9:]
    k2 = 'set' if kind == 'frozenset' else kind
    if not args:
        if kind in ('tuple', 'frozenset'):
            return [(st, tup())] if kind == 'tuple' else [(st, call(ext(name), []))]
        return [(st, eng.new_obj(kind, node, st, T('seq', ())))]
    x = args[0]
    res = []
    if eng.focus_mode and strip_iter_(x).op == 'call' and eng.focused(st, x):
        pre = eng.collect_items(st, x, node, 'set' if k2 == 'set' else 'list')
    else:
        pre = materialise(eng, st, x, node, kind=k2 if kind != 'tuple' else 'list')
    for s, v in pre:
        items = eng.seq_items(s, v)
        if items is not None:
            if kind == 'tuple':
                res.append((s, tup(*items)))
            elif kind == 'frozenset':
                res.append((s, call(ext(name), [tup(*items)])))
            else:
                res.append((s, eng.new_obj(kind, node, s, T('seq', tuple(items)))))
            continue
        if v.op == 'comp' and x.op in ('genx', 'gen'):
            res.append((s, v if kind != 'tuple' else v))
            continue
        cls = eng.class_of(v, s)
        if cls is not None:
            f = eng.prog.find_method(cls, '__iter__')
            if f is not None:
                for s2, it in eng.inline(f, T('func', f.fid, None), [v], [], s, node):
                    res.append((s2, call(ext(name), [eng.snap(s2, it)])))
                continue
        res.append((s, call(ext(name), [eng.snap(s, v)])))
    return res


def strip_at_(x):
    from .engine import strip_at
    return strip_at(x)


def strip_iter_(x):
    from .engine import strip_iter
    return strip_iter(x)


@handler('builtins.dict')
def _dict(eng, name, args, kwargs, st, node):
    kvs = []
    res = []
    for s, a in materialise_all(eng, st, args, node):
        kvs = []
        if a:
            x = a[0]
            d = eng.dict_items(s, x)
            if d is not None:
                kvs += [T('kv', k if k is not None else T('starstar'), v) for k, v in d]
            else:
                kvs.append(T('kv', T('starstar'), eng.snap(s, x)))
        for k, v in kwargs:
            if k == '**':
                d = eng.dict_items(s, v)
                if d is not None:
                    kvs += [T('kv', kk if kk is not None else T('starstar'), vv) for kk, vv in d]
                else:
                    kvs.append(T('kv', T('starstar'), v))
            else:
                kvs = [y for y in kvs if y.a[0] is not const(k)] + [T('kv', const(k), v)]
        res.append((s, eng.new_obj('dict', node, s, T('ditems', tuple(kvs)))))
    return res


@handler('builtins.any', 'builtins.all')
def _any(eng, name, args, kwargs, st, node):
    if len(args) != 1:
        return None
    x = args[0]
    inner = x
    while inner.op == 'at':
        inner = inner.a[0]
    if inner.op not in ('genx', 'gen', 'comp') and eng.finite_items(st, x) is None and not (inner.op == 'call' and inner.a[0].op == 'ext' and inner.a[0].a[0] in ('builtins.map', 'builtins.filter')):
        return [(st, call(ext(name), [eng.snap(st, x)]))]
    want = name.endswith('any')

    def h(s, e):
        t, f = eng.split(s, e)
        return (f, t) if want else (t, f)
    ex, br = eng.iterate(st, x, node, h)
    return [(s, const(not want)) for s in ex] + [(s, const(want)) for s in br]


@handler('builtins.sum')
def _sum(eng, name, args, kwargs, st, node):
    x = args[0]
    if eng.atomic and x.op == 'genx':
        return [(s, call(ext(name), [content(eng, s, y) for y in a], kwargs)) for s, a in materialise_all(eng, st, args, node)]
    if x.op not in ('genx', 'gen', 'comp') or eng.atomic:
        return [(st, call(ext(name), [eng.snap(st, x)] + list(args[1:]), kwargs))]
    var = '#sum%d:%d' % (node.lineno, node.col_offset)
    fid = eng.frame
    start = args[1] if len(args) > 1 else dict(kwargs).get('start', const(0))
    st.put(fid, var, start)

    def h(s, e):
        if e.op in ('cmp',) or (e.op == 'un' and e.a[0] == 'not'):
            # booleans count as 0 / 1
            t, f = eng.split(s, e)
            out = []
            for y in t:
                y.put(fid, var, eng.binop('+', y.get(fid, var), const(1)))
                out.append(y)
            return out + f, []
        s.put(fid, var, eng.binop('+', s.get(fid, var), const(1) if e is TRUE else const(0) if e is FALSE else e))
        return [s], []
    ex, _ = eng.iterate(st, x, node, h)
    res = []
    for s in ex:
        res.append((s, s.get(fid, var)))
    return res


@handler('builtins.sorted', 'builtins.min', 'builtins.max', 'builtins.reversed', 'builtins.enumerate', 'builtins.zip', 'builtins.map', 'builtins.filter', 'builtins.iter')
def _lazy(eng, name, args, kwargs, st, node):
    from .engine import Ev
    if name in ('builtins.sorted', 'builtins.min', 'builtins.max', 'builtins.reversed'):
        res = []
        for s, a in materialise_all(eng, st, args, node):
            if name == 'builtins.sorted' and a:
                items = eng.seq_items(s, a[0])
                if items is not None and len(items) <= 1:
                    res.append((s, eng.new_obj('list', node, s, T('seq', tuple(items)))))
                    continue
            res.append((s, call(ext(name), [content(eng, s, x) for x in a], kwargs)))
        return res
    # lazy iterators keep generator arguments
    if name == 'builtins.iter' and len(args) == 1:
        cls = eng.class_of(args[0], st)
        if cls is not None:
            f = eng.prog.find_method(cls, '__iter__')
            if f is not None:
                return eng.inline(f, T('func', f.fid, None), [args[0]], [], st, node)
    if name in ('builtins.enumerate', 'builtins.zip'):
        res = []
        for s, a in materialise_all(eng, st, args, node) if any(x.op in ('gen',) for x in args) else [(st, list(args))]:
            res.append((s, call(ext(name), [x if x.op in ('genx', 'gen', 'obj') else eng.snap(s, x) for x in a], kwargs)))
        return res
    return [(st, call(ext(name), args, kwargs))]


@handler('builtins.next')
def _next(eng, name, args, kwargs, st, node):
    x = args[0]
    inner = x
    while inner.op == 'at':
        inner = inner.a[0]
    if inner.op in ('genx', 'gen') or (inner.op == 'call' and inner.a[0].op == 'ext' and inner.a[0].a[0] == 'builtins.iter') or inner.op == 'comp':
        vals = []

        def h(s, e):
            s.put(eng.frame, '#next', e)
            return [], [s]
        fid = eng.frame
        it = inner
        ex, br = eng.iterate(st, it, node, h)
        res = []
        for s in br:
            v = s.get(fid, '#next') or TOP
            res.append((s, v))
        for s in ex:
            if len(args) > 1:
                res.append((s, args[1]))
            else:
                eng.throw(s, T('exc', 'X', 'next', 'builtins.StopIteration'))
        return res
    if inner.op == 'glob':
        eng.emit_mutate(st, node, inner)
    if eng.raising() and len(args) < 2:
        eng.throw(st.copy(), T('exc', 'X', 'next', 'builtins.StopIteration'))
    t = T('elem', eng.snap(st, x), eng.site(node, 'nx'))
    res = [(st, t)]
    if len(args) > 1:
        res.append((st.copy(), args[1]))
    return res


@handler('builtins.isinstance')
def _isinstance(eng, name, args, kwargs, st, node):
    x, c = args[0], args[1]
    items = eng.seq_items(st, c)
    if items is not None:
        parts = tuple(_isinst(eng, st, x, y) for y in items)
        if TRUE in parts:
            return [(st, TRUE)]
        parts = tuple(p for p in parts if p is not FALSE)
        if not parts:
            return [(st, FALSE)]
        return [(st, T('or', parts) if len(parts) > 1 else parts[0])]
    return [(st, _isinst(eng, st, x, c))]


def _isinst(eng, st, x, c):
    cls = eng.class_of(x, st)
    if c.op == 'cls' and cls is not None:
        target = eng.prog.classes[c.a[0]]
        if x.op == 'inst':
            return const(target in eng.prog.mro(cls))
        if target in eng.prog.mro(cls):
            return TRUE
    if c.op == 'cls' and x.op in ('const', 'tuple', 'obj', 'comp', 'func', 'ext'):
        return FALSE
    if c.op == 'ext' and c.a[0] in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.list', 'builtins.tuple', 'builtins.dict'):
        if x.op == 'const':
            return const(isinstance(cval(x), getattr(builtins, c.a[0][9:])))
        if x.op == 'obj':
            return const(c.a[0] == 'builtins.' + x.a[0])
        if x.op == 'tuple':
            return const(c.a[0] == 'builtins.tuple')
    return call(ext('builtins.isinstance'), [x, c])


@handler('builtins.getattr')
def _getattr(eng, name, args, kwargs, st, node):
    if len(args) >= 2 and args[1].op == 'const' and isinstance(cval(args[1]), str):
        return eng.getattr(st, args[0], cval(args[1]), node)
    from .engine import Ev
    t = call(ext(name), args)
    if len(args) == 2:
        eng.throw(st.copy(), T('exc', 'X', 'getattr', 'builtins.AttributeError'))
    return [(s, t) for s in eng.emit(Ev('getattr', node, base=args[0], name=args[1], result=t), st)]


@handler('builtins.type')
def _type(eng, name, args, kwargs, st, node):
    if len(args) == 1 and args[0].op == 'inst' and args[0].a[0] in eng.prog.classes:
        return [(st, T('cls', args[0].a[0]))]
    return [(st, call(ext(name), args))]


@handler('builtins.vars')
def _vars(eng, name, args, kwargs, st, node):
    if len(args) == 1:
        return eng.getattr(st, args[0], '__dict__', node)
    return [(st, call(ext(name), args))]


@handler('builtins.setattr')
def _setattr(eng, name, args, kwargs, st, node):
    if len(args) == 3 and args[1].op == 'const':
        return [(s, NONE) for s in eng.setattr(st, args[0], cval(args[1]), args[2], node)]
    eng.taint(st, 'setattr with a computed name at %s' % eng.loc(node))
    return [(st, NONE)]


@handler('builtins.super')
def _super(eng, name, args, kwargs, st, node):
    if len(args) == 2 and args[0].op == 'cls':
        return [(st, T('super', args[0].a[0], args[1]))]
    return None


@handler('collections.ChainMap', 'collections.Counter', 'collections.deque', 'collections.OrderedDict', 'collections.defaultdict', 'networkx.Graph', 'types.SimpleNamespace', 'queue.Queue', 'queue.LifoQueue', 'queue.SimpleQueue')
def _fresh(eng, name, args, kwargs, st, node):
    res = []
    for s, a in materialise_all(eng, st, args, node):
        t = call(ext(name), [content(eng, s, x) if x.op not in ('obj',) else x for x in a], kwargs, eng.site(node, 'c'))
        s.vers.pop(t, None)
        for k in [k for k in s.heap if k[0] is t]:
            del s.heap[k]
        eng.purge(s, lambda y: any(z is t for z in walk(y)))
        res += with_event(eng, s, name, a, kwargs, node, t, raises=False)
    return res


@handler('builtins.dict.fromkeys')
def _fromkeys(eng, name, args, kwargs, st, node):
    res = []
    for s, a in materialise_all(eng, st, args, node):
        res.append((s, call(ext(name), [content(eng, s, x) for x in a], kwargs)))
    return res


#: calls whose value changes as it is used
ITERATORS = {'builtins.iter', 'builtins.enumerate', 'builtins.zip', 'builtins.map', 'builtins.filter', 'builtins.reversed', 'itertools.count', 'itertools.cycle', 'itertools.repeat', 'itertools.chain', 'itertools.product'}
