"""Lines: every point and link of an identified line is one of the cluster."""
import ast

from ..engine import Monitor, strip_at
from ..loader import Function
from ..num import Top, Wrong
from ..terms import T, cval, walk, show, is_const, attr, const
from .. import roles as R
from .graphs import function, param, method_of, nx
from .identify import inputs, is_call, args_of
from .queues import ext
from .search import mentions

NONE = const(None)
SAME_GRAPH = {'networkx.Graph', 'networkx.freeze', 'copy.copy', 'copy.deepcopy', 'networkx.to_undirected', 'networkx.subgraph', 'networkx.edge_subgraph', 'networkx.induced_subgraph', 'networkx.restricted_view', 'networkx.subgraph_view', 'networkx.minimum_spanning_tree', 'networkx.ego_graph', 'networkx.k_core'}
SAME_METHODS = {'copy', 'subgraph', 'edge_subgraph', 'to_undirected', '__deepcopy__'}
CONV = {'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'builtins.reversed', 'builtins.iter', 'collections.deque', 'copy.copy', 'collections.Counter', 'builtins.dict', 'builtins.dict.fromkeys', 'random.sample', 'itertools.islice', 'itertools.takewhile', 'itertools.dropwhile'}
PATHS = {'networkx.shortest_path', 'networkx.dijkstra_path', 'networkx.bidirectional_shortest_path', 'networkx.astar_path', 'networkx.bellman_ford_path'}
NODESETS = {'networkx.dominating_set', 'networkx.node_connected_component', 'networkx.center', 'networkx.periphery', 'networkx.maximal_independent_set', 'networkx.all_neighbors', 'networkx.isolates', 'networkx.neighbors', 'networkx.non_neighbors', 'networkx.connected_dominating_set', 'networkx.articulation_points'}
SETOPS = {'union': 'both', 'intersection': 'left', 'difference': 'left', 'symmetric_difference': 'both', 'copy': 'left', 'keys': 'left', '__iter__': 'left', 'elements': 'left'}
IDENT = {'networkx.Graph', 'copy', 'subgraph', 'edge_subgraph', 'to_undirected', 'copy.copy', 'copy.deepcopy'}
NEED_PATH = ('networkx.shortest_path', 'networkx.shortest_path_length', 'networkx.dijkstra_path', 'networkx.dijkstra_path_length', 'networkx.bidirectional_shortest_path', 'networkx.astar_path', 'networkx.astar_path_length')
NOPATH = {'NetworkXNoPath', 'NetworkXUnfeasible', 'NetworkXAlgorithmError', 'NetworkXException', 'Exception', 'BaseException'}
ADD = {'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'add_weighted_edges_from', 'update', 'networkx.add_path', 'networkx.add_cycle', 'networkx.add_star', 'add_path', 'add_cycle'}
CUT = {'remove_node', 'remove_nodes_from', 'remove_edge', 'remove_edges_from', 'clear', 'clear_edges'}


class Graphs(Monitor):
    """Changes of graphs and what containers hold.  The state knows which
    graphs were cut."""

    def __init__(self):
        self.muts = {}
        self.contents = {}
        self.need = []
        self.bad = []
        self.phi = None

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k in ('mutate', 'iter', 'storeattr'):
            for (b, n), c in st.heap.items():
                if n == '#' and isinstance(c, T):
                    self.put(b, c, eng)
        if k == 'mutate':
            base = strip_at(ev.base)
            args = tuple(ev.args)
            loops = tuple(ev.loops)
            if base.op == 'obj':
                for a in args:
                    self.contents.setdefault(base, set()).add(a if ev.method in ('append', 'add', 'appendleft') else T('star', a) if ev.method in ('extend', 'update') else a)
            if ev.method in ADD or ev.method in CUT:
                facts = tuple((f, v) for f, v in st.facts.items() if any(isinstance(y, T) and any(mentions(y, a) for a in args) for y in f[1:]))
                key = (ev.node, base, ev.method, args)
                snap = self.snapshot(args, st, eng)
                rec = (tuple((n, v) for n, v in dict(ev.kwargs or {}).items()), loops, facts, snap, eng.func, bool(st.taint))
                if rec not in self.muts.setdefault(key, []):
                    self.muts[key].append(rec)
                if ev.method in CUT and ('cut', base) not in m:
                    m += (('cut', base),)
            return m
        if k == 'pcall':
            name = ev.name
            if name.startswith('networkx.'):
                name = 'networkx.' + name.rsplit('.', 1)[1]
            if name in NEED_PATH:
                stack = tuple((x[0], x[2]) for x in eng.fstack)
                self.need.append((name, tuple(ev.args), tuple(sorted(dict(ev.kwargs or {}).items())), m, ev.node, eng.func, stack, path_known(st)))
            if ev.name.lstrip('.') in IDENT:
                m = tuple(x for x in m if not (x[0] == 'cut' and x[1] is ev.result))
        if k == 'badcall':
            self.bad.append((ev.node, eng.func, str(getattr(ev, 'why', ''))))
        return m

    def snapshot(self, args, st, eng):
        """What the containers in the arguments hold at this point."""
        res, todo, seen = [], list(args), set()
        while todo:
            for y in walk(todo.pop()):
                if not isinstance(y, T) or y in seen:
                    continue
                seen.add(y)
                if y.op == 'phi':
                    todo += [z for z in eng.phis.get(y, ()) if z not in seen]
                if y.op == 'obj':
                    c = st.heap.get((y, '#'))
                    cs = [c] if c is not None else []
                    if c is not None and c.op == 'phi':
                        cs = list(eng.alternatives(c))
                    items = []
                    for c in cs:
                        items += list(c.a[0]) if c.op == 'seq' else [NONE]
                    res.append((y, tuple(items) if cs else (NONE,)))
                    todo += [x for x in items if x not in seen]
        return tuple(res)

    def put(self, b, c, eng):
        if c.op == 'phi':
            for y in eng.alternatives(c):
                if y.op == 'seq':
                    self.put(b, y, eng)
            return
        if c.op == 'seq':
            s = self.contents.setdefault(b, set())
            for y in c.a[0]:
                s.add(y)


def component_of(t, i):
    """A component of a tuple or a named tuple."""
    if t.op == 'tuple':
        return t.a[0][i] if isinstance(i, int) and -len(t.a[0]) <= i < len(t.a[0]) else None
    if t.op == 'call':
        fn = strip_at(t.a[0])
        if ext(fn) in ('collections.namedtuple',) and len(fn.a[1]) >= 2:
            names = strip_at(fn.a[1][1])
            if names.op == 'seqv':
                names = [cval(y) if isinstance(y, T) and is_const(y) else y for y in names.a[1]]
            elif names.op == 'tuple':
                names = [cval(y) if is_const(y) else None for y in names.a[0]]
            elif is_const(names) and isinstance(cval(names), str):
                names = cval(names).replace(',', ' ').split()
            else:
                names = None
            if names is None:
                return None
            k = names[i] if isinstance(i, int) and -len(names) <= i < len(names) else i
            if k in dict(t.a[2]):
                return dict(t.a[2])[k]
            if k in names and names.index(k) < len(t.a[1]):
                return t.a[1][names.index(k)]
    return None


def unconv(t):
    t = strip_at(t)
    for _ in range(10):
        n = ext(t)
        if n in CONV and t.a[1]:
            t = strip_at(t.a[1][0])
        elif t.op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice':
            t = strip_at(t.a[0])
        else:
            break
    return t


def neighbours_of(t):
    """The node of which the collection holds (some) neighbours, or None."""
    t = unconv(t)
    b, m = method_of(t)
    if m == 'neighbors' and len(t.a[1]) == 1:
        return strip_at(t.a[1][0])
    if nx(t) in ('networkx.neighbors', 'networkx.all_neighbors') and len(t.a[1]) == 2:
        return strip_at(t.a[1][1])
    if t.op == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'adj':
        return strip_at(t.a[1])
    if t.op == 'bin' and t.a[0] in ('-', '&'):
        return neighbours_of(t.a[1])
    if t.op == 'comp' and len(t.a[2]) == 1 and t.a[0] != 'dict':
        e, it, conds = t.a[2][0]
        if strip_at(t.a[1]) is strip_at(e):
            return neighbours_of(it)
        return neighbour_of(t.a[1])
    if m in ('difference', 'intersection', 'copy', 'keys') and b is not None:
        return neighbours_of(b)
    return None


def neighbour_of(t):
    """The node of which t is a neighbour, or None."""
    t = unpacked(strip_at(t))
    if t.op == 'elem':
        return neighbours_of(t.a[0])
    if t.op == 'sub' and not (isinstance(t.a[1], T) and t.a[1].op == 'slice'):
        return neighbours_of(t.a[0])
    n = ext(t)
    if n in ('builtins.next', 'builtins.min', 'builtins.max', 'random.choice') and t.a[1]:
        return neighbours_of(t.a[1][0])
    b, m = method_of(t)
    if m in ('pop', 'popleft') and b is not None:
        return neighbours_of(b)
    return None


def element_source(t):
    """The collection of which t is an element, if it is one."""
    t = strip_at(t)
    if t.op == 'elem':
        return t.a[0]
    if t.op == 'sub' and not (isinstance(t.a[1], T) and t.a[1].op == 'slice'):
        return t.a[0]
    n = ext(t)
    if n in ('builtins.next', 'builtins.min', 'builtins.max', 'random.choice') and t.a[1]:
        return t.a[1][0]
    b, m = method_of(t)
    if m in ('pop', 'popleft', '__next__') and b is not None:
        return b
    return None


def unpacked(t):
    """An item of a tuple that was made in a comprehension: what was put
    there."""
    for _ in range(6):
        t = strip_at(t)
        if t.op != 'sub' or not (isinstance(t.a[1], T) and is_const(t.a[1]) and isinstance(cval(t.a[1]), int)):
            return t
        k, c = cval(t.a[1]), element_source(t.a[0])
        if c is None:
            return t
        c = strip_at(unconv(c))
        if c.op == 'comp' and c.a[0] != 'dict' and strip_at(c.a[1]).op == 'tuple' and -len(strip_at(c.a[1]).a[0]) <= k < len(strip_at(c.a[1]).a[0]):
            t = strip_at(c.a[1]).a[0][k]
        elif ext(c) == 'builtins.zip' and 0 <= k < len(c.a[1]):
            return T('elem', c.a[1][k], t)
        else:
            return t
    return t


COMPUTED = ('numpy.', 'scipy.', 'builtins.round', 'builtins.sum', 'builtins.abs', 'statistics.')


class Provenance:
    def __init__(self, graph, log, eng):
        self.g, self.log, self.eng = graph, log, eng
        self.busy = set()
        self.done = {}
        self.judged = {}

    def once(self, key, fn, *args):
        """Coinductive: what is being shown may be assumed."""
        if key in self.done:
            r = self.done[key]
            if r is not None:
                raise r
            return
        if key in self.busy:
            return
        self.busy.add(key)
        try:
            fn(*args)
        except (Top, Wrong) as e:
            self.done[key] = e
            raise
        finally:
            self.busy.discard(key)
        if not self.busy:
            self.done[key] = None

    def all_of(self, what, ts):
        """All must hold; a definite failure is more than an open question."""
        top = None
        for t in ts:
            try:
                what(t)
            except Wrong:
                raise
            except Top as e:
                top = top or e
        if top:
            raise top

    # graphs ---------------------------------------------------------------
    def base(self, x):
        """The graphs of which x has a part of the nodes and links, and
        whether something may have been added."""
        x = strip_at(x)
        n = nx(x)
        b, m = method_of(x)
        if x is self.g:
            return []
        if x.op == 'phi':
            return [y for y in self.eng.alternatives(x) if y is not NONE]
        if n == 'networkx.Graph' and not x.a[1] and not [k for k, _ in x.a[2] if k == 'incoming_graph_data']:
            return []
        if n in SAME_GRAPH and x.a[1]:
            return [x.a[1][0]]
        if m in SAME_METHODS and b is not None:
            return [b]
        if n is not None and n.startswith('networkx.'):
            raise Top('graph %s' % show(x)[:120])
        raise Top('graph %s' % show(x)[:120])

    def nodes_of(self, x):
        x = strip_at(x)
        self.once(('nodes', x), self._nodes_of, x)

    def _nodes_of(self, x):
        self.all_of(self.nodes_of, self.base(x))
        if x is not self.g:
            self.all_of(lambda k: self.added(k, False), [k for k in self.log.muts if k[1] is x and k[2] in ADD])

    def links_of(self, x):
        x = strip_at(x)
        self.once(('links', x), self._links_of, x)

    def _links_of(self, x):
        self.all_of(self.links_of, self.base(x))
        if x is not self.g:
            self.all_of(lambda k: self.added(k, True), [k for k in self.log.muts if k[1] is x and k[2] in ADD])

    def added(self, k, links):
        """What one place adds to a graph: nodes of the cluster, and, if asked
        for, links of the cluster."""
        node, base, how, args = k
        for kwargs, loops, facts, mon, func, taint in self.log.muts[k]:
            try:
                self.place = node
                self.one(how, args, links, facts, mon)
            except (Top, Wrong) as e:
                if taint and isinstance(e, Wrong):
                    e = Top(str(e))
                e.where = getattr(e, 'where', None) or (func, node)
                raise e

    def one(self, how, args, links, facts, mon):
        args = [strip_at(a) for a in args]
        if how.startswith('networkx.'):
            args = args[1:] if how == 'networkx.add_path' or how.startswith('networkx.add') else args
        if how == 'add_node':
            self.node(args[0])
        elif how == 'add_nodes_from':
            self.nodes(args[0])
        elif how == 'add_edge':
            if len(args) == 1 and args[0].op == 'star':
                return self.edge(args[0].a[0], links, facts, mon)
            if len(args) != 2:
                raise Top('link %s' % show(args[0])[:100])
            self.all_of(self.node, args)
            if links:
                self.link(args[0], args[1], facts, mon)
        elif how in ('add_edges_from', 'add_weighted_edges_from', 'update'):
            if not args:
                raise Top('links')
            self.edges(args[0], links, facts, mon)
        elif how in ('networkx.add_path', 'add_path'):
            self.nodes(args[0])
            if links and not self.is_path(args[0]):
                raise Top('path %s' % show(args[0])[:100])
            if links:
                self.links_of(self.is_path(args[0]))
        elif how in ('networkx.add_cycle', 'add_cycle'):
            self.nodes(args[0])
            if links:
                if self.is_path(args[0]):
                    raise Wrong('the ends of a path are linked: %s' % show(args[0])[:100])
                raise Top('cycle %s' % show(args[0])[:100])
        else:
            raise Top('%s of a graph' % how)

    # collections of nodes -----------------------------------------------------
    def nodes(self, t):
        t = strip_at(t)
        self.once(('coll', t), self._nodes, t)

    def _nodes(self, t):
        n = ext(t)
        b, m = method_of(t)
        if t.op == 'phi':
            return self.all_of(self.nodes, [y for y in self.eng.alternatives(t) if y is not NONE])
        if t.op == 'star':
            return self.nodes(t.a[0])
        if t.op == 'attr' and t.a[1] in ('nodes', 'adj', '_adj', '_node') or m in ('nodes', 'adjacency') or m in ('neighbors', 'nbunch_iter', 'predecessors', 'successors', '__iter__') and not self.is_container(b):
            return self.nodes_of(t.a[0] if t.op == 'attr' else b)
        if t.op == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'adj':
            return self.nodes_of(t.a[0].a[0])
        nm = nx(t)
        if nm in PATHS or nm in NODESETS:
            if nm in PATHS and len(t.a[1]) == 1 and not dict(t.a[2]).get('target'):
                raise Top('paths')
            return self.nodes_of(t.a[1][0] if t.a[1] else dict(t.a[2]).get('G'))
        if n in CONV and t.a[1]:
            a = strip_at(t.a[1][0])
            if n in ('builtins.dict', 'collections.Counter') and self.is_degree(a):
                return self.nodes_of(self.is_degree(a))
            return self.nodes(a)
        if n in ('builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.dict', 'builtins.frozenset') and not t.a[1]:
            return
        if n == 'builtins.filter' and len(t.a[1]) == 2:
            return self.nodes(t.a[1][1])
        if n == 'itertools.chain':
            return self.all_of(self.nodes, t.a[1])
        if n in ('numpy.array', 'numpy.asarray', 'numpy.round', 'numpy.mean', 'numpy.average', 'numpy.unique', 'numpy.around'):
            raise Wrong('positions are computed: %s' % show(t)[:120])
        if t.op == 'bin' and t.a[0] in '|^+':
            return self.all_of(self.nodes, [t.a[1], t.a[2]])
        if t.op == 'bin' and t.a[0] == '-':
            return self.nodes(t.a[1])
        if t.op == 'bin' and t.a[0] == '&':
            try:
                return self.nodes(t.a[1])
            except (Top, Wrong):
                return self.nodes(t.a[2])
        if m in SETOPS and b is not None:
            self.nodes(b)
            if SETOPS[m] == 'both':
                self.all_of(self.nodes, t.a[1])
            return
        if t.op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice':
            return self.nodes(t.a[0])
        if t.op == 'comp' and t.a[0] != 'dict':
            return self.node(t.a[1])
        if t.op == 'comp':
            return self.node(t.a[1].a[0][0])
        if t.op in ('tuple', 'seqv', 'list', 'set', 'seq'):
            items = t.a[-1] if isinstance(t.a[-1], tuple) else t.a[0]
            return self.all_of(lambda y: self.nodes(y) if y.op == 'star' else self.node(y), items)
        if t.op == 'obj':
            return self.all_of(lambda y: self.nodes(y.a[0]) if y.op == 'star' else self.node(y), sorted(self.log.contents.get(t, ())))
        if t.op == 'attr' and t.a[1] in ('graph',) or t is self.g:
            return self.nodes_of(t)
        try:
            self.base(t)
        except Top:
            raise Top('positions %s' % show(t)[:120])
        return self.nodes_of(t)

    def is_container(self, b):
        return b is not None and (strip_at(b).op == 'obj' or ext(strip_at(b)) in CONV)

    def is_degree(self, t):
        """The graph whose degrees t lists."""
        t = strip_at(t)
        b, m = method_of(t)
        if t.op == 'attr' and t.a[1] == 'degree':
            return strip_at(t.a[0])
        if m == 'degree' and b is not None:
            return strip_at(b)
        if nx(t) == 'networkx.degree' and t.a[1]:
            return strip_at(t.a[1][0])
        return None

    def is_edges(self, t):
        """The graph whose links t lists."""
        t = unconv(t)
        b, m = method_of(t)
        if t.op == 'attr' and t.a[1] == 'edges':
            return strip_at(t.a[0])
        if m == 'edges' and b is not None:
            return strip_at(b)
        if nx(t) in ('networkx.edges', 'networkx.minimum_spanning_edges') and t.a[1]:
            return strip_at(t.a[1][0])
        if t.op == 'bin' and t.a[0] in '-&':
            return self.is_edges(t.a[1])
        if t.op == 'comp' and len(t.a[2]) == 1 and t.a[0] != 'dict' and strip_at(t.a[1]) is strip_at(t.a[2][0][0]):
            return self.is_edges(t.a[2][0][1])
        return None

    def is_path(self, t):
        """The graph in which t is a path."""
        t = strip_at(t)
        while ext(t) in ('builtins.list', 'builtins.tuple', 'builtins.reversed') and t.a[1] or t.op == 'sub' and isinstance(t.a[1], T) and t.a[1].op == 'slice' and self.plain(t.a[1]):
            t = strip_at(t.a[1][0] if t.op == 'call' else t.a[0])
        if nx(t) in PATHS:
            return strip_at(t.a[1][0] if t.a[1] else dict(t.a[2])['G'])
        return None

    def plain(self, s):
        return s.a[2] is None or is_const(s.a[2]) and cval(s.a[2]) in (None, 1)

    # nodes --------------------------------------------------------------------
    def node(self, t):
        t = strip_at(t)
        self.once(('node', t), self._node, t)

    def _node(self, t):
        if t.op == 'phi':
            return self.all_of(self.node, [y for y in self.eng.alternatives(t) if y is not NONE and y.op != 'undef'])
        n = ext(t)
        if n in ('builtins.tuple', 'builtins.list') and len(t.a[1]) == 1:
            return self.node(t.a[1][0])
        if n is not None and n.startswith(COMPUTED):
            raise Wrong('a point is computed: %s' % show(t)[:120])
        if t.op == 'comp':
            inner = strip_at(t.a[1])
            if ext(inner) in ('builtins.round', 'numpy.round') or inner.op == 'bin':
                raise Wrong('a point is computed: %s' % show(t)[:120])
            raise Top('point %s' % show(t)[:100])
        if t.op == 'bin' or t.op == 'call' and isinstance(t.a[0], T) and t.a[0].op == 'func' and t.a[0].a[0] in self.log.coord:
            raise Wrong('a point is computed: %s' % show(t)[:120])
        if t.op == 'unbound':
            return
        c = element_source(t)
        if c is None:
            raise Top('point %s' % show(t)[:120])
        c = strip_at(c)
        r = self.resolve(t)
        if r:
            return self.all_of(self.node, r)
        # [0] and [1] of an element
        if t.op == 'sub' and is_const(t.a[1]) and isinstance(cval(t.a[1]), int):
            i = cval(t.a[1])
            inner = element_source(c)
            if c.op == 'phi':
                for y in self.eng.alternatives(c):
                    self.component(y, i)
                return
            if inner is not None:
                try:
                    return self.component(c, i)
                except Top:
                    pass
            if c.op == 'tuple' and -len(c.a[0]) <= i < len(c.a[0]):
                return self.node(c.a[0][i])
        self.nodes(c)

    def resolve(self, t):
        """What a component of an element of a list of this function is, or
        None."""
        t = strip_at(t)
        if t.op == 'elem':
            c = strip_at(unconv(t.a[0]))
            if c.op != 'obj':
                return None
            vals = [strip_at(y) for y in sorted(self.log.contents.get(c, ()))]
            return vals if vals and all(y.op != 'star' for y in vals) else None
        if t.op == 'sub' and is_const(t.a[1]) and isinstance(cval(t.a[1]), int) or t.op == 'attr':
            rs = self.resolve(t.a[0])
            if rs is None:
                return None
            res = []
            for y in rs:
                x = component_of(y, t.a[1] if t.op == 'attr' else cval(t.a[1]))
                if x is None:
                    return None
                res.append(strip_at(x))
            return res
        return None

    def component(self, e, i):
        """Component i of an element of a collection of tuples."""
        src = element_source(e)
        if src is None:
            raise Top('point %s' % show(e)[:100])
        c = unconv(src)
        d = self.is_degree(c)
        if d is not None:
            if i != 0:
                raise Wrong('not a point: %s' % show(e)[:80])
            return self.nodes_of(d)
        x = self.is_edges(c)
        if x is not None and i in (0, 1):
            return self.nodes_of(x)
        n = ext(c)
        b, m = method_of(c)
        if n in ('itertools.combinations', 'itertools.permutations', 'itertools.pairwise', 'itertools.combinations_with_replacement', 'itertools.product', 'networkx.utils.pairwise') and c.a[1]:
            return self.nodes(c.a[1][min(i, len(c.a[1]) - 1)] if n == 'itertools.product' else c.a[1][0])
        if n == 'builtins.zip' and i < len(c.a[1]):
            return self.nodes(c.a[1][i])
        if n == 'builtins.enumerate' and i == 1:
            return self.nodes(c.a[1][0])
        if m == 'items' and i == 0:
            return self.nodes(b)
        if c.op == 'comp' and strip_at(c.a[1]).op == 'tuple':
            return self.node(strip_at(c.a[1]).a[0][i])
        if c.op == 'obj':
            vals = [strip_at(y) for y in sorted(self.log.contents.get(c, ()))]
            if vals and all(y.op == 'tuple' for y in vals):
                return self.all_of(self.node, [y.a[0][i] for y in vals])
        raise Top('point %s' % show(e)[:100])

    # links -----------------------------------------------------------------
    def edge(self, e, links, facts, mon):
        """A pair (u, v)."""
        e = strip_at(e)
        if e.op == 'tuple' and len(e.a[0]) >= 2:
            self.all_of(self.node, e.a[0][:2])
            if links:
                self.link(e.a[0][0], e.a[0][1], facts, mon)
            return
        src = element_source(e)
        if src is not None:
            return self.edges(src, links, facts, mon)
        if e.op == 'sub' and isinstance(e.a[1], T) and e.a[1].op == 'slice':
            return self.edge(e.a[0], links, facts, mon)
        raise Top('link %s' % show(e)[:120])

    def edges(self, t, links, facts, mon):
        """A collection of pairs."""
        t = strip_at(t)
        x = self.is_edges(t)
        if x is not None:
            self.nodes_of(x)
            if links:
                self.links_of(x)
            return
        t = unconv(t)
        n = ext(t)
        if t.op == 'phi':
            return self.all_of(lambda y: self.edges(y, links, facts, mon), [y for y in self.eng.alternatives(t) if y is not NONE])
        if n == 'builtins.zip' and len(t.a[1]) == 2:
            p, q = (strip_at(y) for y in t.a[1])
            self.all_of(self.nodes, [p, q])
            if links:
                x = self.shifted(p, q)
                self.links_of(x)
            return
        if n in ('itertools.pairwise', 'networkx.utils.pairwise', 'networkx.pairwise') and t.a[1] or nx(t) == 'networkx.pairwise':
            self.nodes(t.a[1][0])
            if links:
                x = self.is_path(t.a[1][0])
                if x is None:
                    raise Top('path %s' % show(t)[:100])
                if dict(t.a[2]).get('cyclic') is not None:
                    raise Wrong('the ends of a path are linked: %s' % show(t)[:100])
                self.links_of(x)
            return
        if n in ('itertools.combinations', 'itertools.permutations', 'itertools.product') and t.a[1]:
            self.all_of(self.nodes, t.a[1][:1])
            if links:
                raise Wrong('points that need not be linked in the cluster are linked: %s' % show(t)[:100])
            return
        if t.op == 'comp' and t.a[0] != 'dict':
            v = strip_at(t.a[1])
            e = strip_at(t.a[2][-1][0]) if t.a[2] else None
            conds = [c for cl in t.a[2] for c in cl[2]]
            return self.edge(v, links, tuple((('truth', c), True) for c in conds) + tuple(facts), mon)
        if t.op == 'obj':
            vals = sorted(self.log.contents.get(t, ()))
            for x in mon:
                if x[0] is t and len(x) == 2 and NONE not in x[1] and x[1]:
                    vals = list(x[1])
            return self.all_of(lambda y: self.edges(y.a[0], links, facts, mon) if y.op == 'star' else self.edge(y, links, facts, mon), vals)
        if t.op in ('tuple', 'seqv', 'seq', 'list'):
            items = t.a[-1] if isinstance(t.a[-1], tuple) else t.a[0]
            return self.all_of(lambda y: self.edge(y, links, facts, mon), items)
        raise Top('links %s' % show(t)[:120])

    def cutoff(self, p):
        """(sequence, first index) of a sequence from which the start is cut."""
        lo = 0
        p = strip_at(p)
        for _ in range(6):
            if p.op == 'sub' and isinstance(p.a[1], T) and p.a[1].op == 'slice':
                s = p.a[1]
                if not self.plain(s):
                    raise Top('slice %s' % show(s))
                if s.a[0] is not None and not (is_const(s.a[0]) and cval(s.a[0]) is None):
                    if not is_const(s.a[0]) or not isinstance(cval(s.a[0]), int) or cval(s.a[0]) < 0:
                        raise Top('slice %s' % show(s))
                    lo += cval(s.a[0])
                p = strip_at(p.a[0])
            elif ext(p) in ('builtins.list', 'builtins.tuple', 'builtins.iter') and p.a[1]:
                p = strip_at(p.a[1][0])
            elif ext(p) == 'itertools.islice' and len(p.a[1]) >= 3 and is_const(p.a[1][1]) and isinstance(cval(p.a[1][1]), int):
                lo += cval(p.a[1][1])
                p = strip_at(p.a[1][0])
            elif ext(p) == 'itertools.islice' and len(p.a[1]) == 2:
                p = strip_at(p.a[1][0])
            else:
                break
        return p, lo

    def shifted(self, p, q):
        """The graph in which the pairs of zip(p, q) are consecutive."""
        (p0, i), (q0, j) = self.cutoff(p), self.cutoff(q)
        if p0 is not q0:
            raise Top('pairs of %s and %s' % (show(p0)[:60], show(q0)[:60]))
        x = self.is_path(p0)
        if x is None:
            raise Top('pairs of %s' % show(p0)[:80])
        if abs(i - j) != 1:
            raise Wrong('points of a path that do not follow each other are linked: %s, %s' % (show(p)[-40:], show(q)[-40:]))
        return x

    def link(self, u, v, facts, mon):
        try:
            return self._link(u, v, facts, mon)
        except Top as err:
            if isinstance(err, Wrong):
                pass
            else:
                u, v = strip_at(u), strip_at(v)
                if (u.op == 'phi') == (v.op == 'phi') or any(self.related(k, u, v) for k, _ in facts):
                    raise
                p, q = (u, v) if u.op == 'phi' else (v, u)
                # what a phi stands for may depend on what the other is: only
                # where that is the same in all turns
                if not self.values_of(q) or any(y.op == 'phi' for x in self.values_of(q) for y in walk(x) if isinstance(y, T)):
                    raise
                alts = [strip_at(y) for y in self.eng.alternatives(p)]
                alts = [y for y in alts if y.op not in ('unbound', 'undef')]
                why = None
                for y in alts:
                    try:
                        self._link(q, y, facts, mon)
                        raise err
                    except Wrong as e:
                        why = e
                if why is None:
                    raise err
                raise why
            e = err
            # the first value of a variable that changes from turn to turn
            for x in (strip_at(u), strip_at(v)):
                if self.initial(x):
                    raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
            raise

    def initial(self, x):
        for k in self.log.muts:
            if k[0] is self.place:
                for y in k[3]:
                    y = strip_at(y)
                    if y.op == 'phi' and x in {strip_at(z) for z in self.eng.phis.get(y, ())} and len(self.eng.phis[y]) > 1 and x.op == 'sub' and is_const(x.a[1]):
                        return True
        return False

    def _link(self, u, v, facts, mon):
        u, v = strip_at(u), strip_at(v)
        if u.op == 'unbound' or v.op == 'unbound':
            return
        if u is v:
            raise Top('a point is linked to itself')
        # known from a condition
        for k, val in facts:
            for y in k[1:]:
                if not isinstance(y, T):
                    continue
                for z in walk(y):
                    b, m = method_of(z)
                    if m == 'has_edge' and val is True and len(z.a[1]) == 2 and {strip_at(z.a[1][0]), strip_at(z.a[1][1])} == {u, v}:
                        return self.links_of(b)
        # components of what this function put in a list
        ru, rv = self.resolve(u), self.resolve(v)
        if ru and rv and len(ru) == len(rv) == 1:
            return self._link(ru[0], rv[0], facts, mon)
        # the two ends of a link
        if u.op == 'sub' and v.op == 'sub' and is_const(u.a[1]) and is_const(v.a[1]) and strip_at(u.a[0]) is strip_at(v.a[0]) and {cval(u.a[1]), cval(v.a[1])} == {0, 1}:
            e = strip_at(u.a[0])
            return self.edge(e, True, facts, mon)
        # consecutive points of a path
        if u.op == 'elem' and v.op == 'elem' and u.a[1] == v.a[1]:
            try:
                return self.links_of(self.shifted(u.a[0], v.a[0]))
            except Top as err:
                if 'pairs of' not in str(err):
                    raise
        if u.op == 'sub' and v.op == 'sub':
            p = strip_at(u.a[0])
            if p is strip_at(v.a[0]) and self.is_path(p) is not None:
                d = self.difference(u.a[1], v.a[1])
                cs = [cval(y.a[1]) for y in (u, v) if is_const(y.a[1])]
                if len(cs) == 2 and (cs[0] < 0) != (cs[1] < 0):
                    raise Wrong('points of a path that need not follow each other are linked: [%s], [%s]' % tuple(cs))
                if d in (1, -1):
                    return self.links_of(self.is_path(p))
                if d is not None:
                    raise Wrong('points of a path that do not follow each other are linked: [%s], [%s]' % (show(u.a[1]), show(v.a[1])))
                raise Top('points of a path')
        # a neighbour
        wrong = None
        for a, b in ((u, v), (v, u)):
            r = self.near(a, b, mon)
            if r is True:
                return
            if isinstance(r, T):
                wrong = (a, b, r)
        if wrong:
            a, b, r = wrong
            if not self.values_of(a):
                raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
            if self.later(a, r, b):
                raise Wrong('a link is made from the point before the one of which %s is a neighbour' % show(b, 6)[:80])
            if a.op != 'phi' and r.op != 'phi' or a.op == 'phi' and r.op != 'phi' or r.op == 'phi' and a.op != 'phi':
                if a.op == 'phi' or any(self.related(k, u, v) for k, _ in facts):
                    raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
                raise Wrong('%s and %s need not be linked: the latter is a neighbour of %s' % (show(a, 6)[:60], show(b, 6)[:60], show(r, 6)[:60]))
            raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
        if any(self.related(k, u, v) for k, _ in facts) or u.op == 'phi' or v.op == 'phi':
            raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
        if any(element_source(y) is None or any(z.op == 'comp' and strip_at(z.a[1]).op == 'tuple' for z in walk(y) if isinstance(z, T)) for y in (u, v)):
            raise Top('link of %s and %s' % (show(u, 6)[:60], show(v, 6)[:60]))
        # both are points of the cluster, and nothing relates them
        raise Wrong('%s and %s need not be linked in the cluster' % (show(u, 6)[:80], show(v, 6)[:80]))

    def related(self, k, u, v):
        """Is there a condition on the two points?"""
        from ..terms import subst
        def ment(y, w, other):
            return mentions(subst(y, {other: T('other')}), w)
        return all(any(isinstance(y, T) and ment(y, w, o) for y in k[1:]) for w, o in ((u, v), (v, u)))

    def near(self, u, v, mon):
        """True if v is a neighbour of u, the node of which it is one if that
        is another one, None if that is not known."""
        v = unpacked(strip_at(v))
        if v.op == 'phi':
            rs = [self.near(u, y, mon) for y in self.eng.alternatives(v) if y is not NONE]
            return True if rs and all(r is True for r in rs) else None
        r = neighbour_of(v)
        if r is None:
            c = element_source(v)
            if c is None:
                return None
            c = strip_at(unconv(c))
            if c.op == 'comp' and len(c.a[2]) == 1 and c.a[0] != 'dict':
                w = strip_at(c.a[1])
                if w is not strip_at(c.a[2][0][0]):
                    return self.near(u, w, mon)
                c = strip_at(unconv(c.a[2][0][1]))
            if c.op == 'phi':
                cs = self.eng.alternatives(c)
            else:
                cs = [c]
            found = set()
            for c in cs:
                if c.op != 'obj':
                    return None
                for x in mon:
                    if x[0] is c:
                        for y in x[1]:
                            for z in self.eng.alternatives(y):
                                found.add(neighbours_of(z.a[0]) if z.op == 'star' else neighbour_of(z))
            if not found:
                return None
            if found == {u}:
                return self.graph_near(v)
            # the list is a new one each time around: what it held before are
            # neighbours of earlier values of the point
            for c in cs:
                for y in self.log.contents.get(c, ()):
                    found.add(neighbours_of(y.a[0]) if y.op == 'star' else neighbour_of(y))
            values = self.values_of(u)
            if None not in found and found <= values and (u in found or u.op == 'phi' and any(y.op == 'phi' and y.a[1] == u.a[1] for y in found)):
                return self.graph_near(v)
            found.discard(None)
            rest = found - {u} - values or found - {u}
            return sorted(rest, key=lambda y: (y.op != 'phi', show(y)))[0] if rest else None
        if r is u:
            return self.graph_near(v)
        return r

    def values_of(self, u):
        """What is linked at this place in any turn, at the side of u."""
        side = set()
        for k in self.log.muts:
            if k[0] is self.place:
                xs = [strip_at(x) for x in k[3]]
                if u in xs:
                    i = xs.index(u)
                    side |= {strip_at(j[3][i]) for j in self.log.muts if j[0] is self.place and len(j[3]) > i}
        for y in list(side):
            side |= {strip_at(z) for z in self.eng.alternatives(y)} | {strip_at(z) for z in self.eng.phis.get(y, ())}
        return side

    def graph_near(self, v):
        """The graph whose neighbours are taken must have only links of the
        cluster."""
        for y in [v] + [c for c in self.log.contents.get(strip_at(unconv(element_source(v) or v)), ())]:
            for z in walk(y):
                b, m = method_of(z)
                if m == 'neighbors':
                    self.links_of(b)
        return True

    def later(self, a, r, b):
        """a is what r was one turn before, b what r becomes."""
        if a.op != 'phi' or r.op != 'phi' or a.a[0] != r.a[0]:
            return False
        xs, ys = self.eng.phis.get(a, ()), self.eng.phis.get(r, ())
        return r in xs and r not in ys

    def difference(self, i, j):
        i, j = strip_at(i), strip_at(j)
        def split(x):
            if is_const(x) and isinstance(cval(x), int):
                return None, cval(x)
            if x.op == 'bin' and x.a[0] in '+-':
                l, r = strip_at(x.a[1]), strip_at(x.a[2])
                if is_const(r) and isinstance(cval(r), int):
                    b, c = split(l)
                    return b, c + (cval(r) if x.a[0] == '+' else -cval(r))
                if is_const(l) and x.a[0] == '+':
                    b, c = split(r)
                    return b, c + cval(l)
            if x.op == 'idx':
                s = x.a[2] if len(x.a) > 2 else None
                if s is not None and is_const(s):
                    return T('idx', x.a[0], x.a[1]), cval(s)
            return x, 0
        (b, c), (d, e) = split(i), split(j)
        if b is d:
            return e - c
        return None


def path_known(st):
    """The calls that told that there is a path."""
    res = []
    for k, val in st.facts.items():
        if val is True:
            for y in k[1:]:
                if isinstance(y, T) and nx(strip_at(y)) in ('networkx.has_path', 'networkx.is_connected'):
                    res.append(strip_at(y))
    return tuple(res)


def asked(known, args, kwargs):
    d = dict(kwargs)
    want = [strip_at(a) for a in args] + [strip_at(d[k]) for k in ('G', 'source', 'target') if k in d]
    for y in known:
        have = [strip_at(a) for a in y.a[1]] + [strip_at(v) for _, v in y.a[2]]
        if want and have and want[0] is have[0] and (set(have) <= set(want[:3]) or len(have) == 1):
            return True
    return False


def origin(p, e):
    """The graph of which a pair of points is a link, or None."""
    e = strip_at(e)
    for _ in range(10):
        if e.op == 'sub' and isinstance(e.a[1], T) and e.a[1].op == 'slice':
            e = strip_at(e.a[0])
            continue
        if e.op == 'tuple' and len(e.a[0]) >= 2:
            s, t = strip_at(e.a[0][0]), strip_at(e.a[0][1])
            if not (s.op == t.op == 'sub' and is_const(s.a[1]) and is_const(t.a[1]) and {cval(s.a[1]), cval(t.a[1])} == {0, 1} and strip_at(s.a[0]) is strip_at(t.a[0])):
                return None
            e = strip_at(s.a[0])
            continue
        src = element_source(e)
        if src is None:
            return None
        x = p.is_edges(src)
        if x is not None:
            return x
        c = strip_at(unconv(src))
        if c.op != 'comp' or len(c.a[2]) != 1 or c.a[0] == 'dict':
            return None
        e = strip_at(c.a[1])
    return None


def guarded(stack, node):
    """Is a missing path handled where, or from where, it is asked for?"""
    inner = node
    for f, callnode in reversed(stack):
        if isinstance(f, Function):
            if caught_in(f.node, inner):
                return True
        inner = callnode
        if inner is None:
            break
    return False


def caught_in(root, node):
    for t in ast.walk(root):
        if isinstance(t, ast.Try) and any(node is x for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                if h.type is None:
                    return True
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for y in types:
                    name = y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None
                    if name in NOPATH or name is None:
                        return True
                    if isinstance(y, ast.Name) and name not in dir(__import__('builtins')):
                        return True
        if isinstance(t, (ast.With, ast.AsyncWith)) and any(node is x for s in t.body for x in ast.walk(s)):
            if any(isinstance(i.context_expr, ast.Call) and 'suppress' in ast.unparse(i.context_expr.func) for i in t.items):
                return True
    return False


def connected(p, name, args, kwargs, mon):
    """Is there a path between the ends, or is that not known?"""
    d = dict(kwargs)
    g = strip_at(args[0] if args else d['G'])
    rest = list(args[1:])
    if rest and rest[0].op == 'star':
        if origin(p, rest[0].a[0]) is g:
            return True
        s = t = None
    else:
        s = rest[0] if rest else d.get('source')
        t = rest[1] if len(rest) > 1 else d.get('target')
    if s is not None and t is not None:
        if origin(p, T('tuple', (s, t))) is g:
            return True
    x = g
    for _ in range(8):
        if x is p.g:
            return True
        if ('cut', x) in mon:
            return False
        n = nx(x)
        b, m = method_of(x)
        if n in ('networkx.Graph', 'networkx.freeze', 'copy.copy', 'copy.deepcopy') and x.a[1]:
            x = strip_at(x.a[1][0])
        elif m in ('copy', 'to_undirected') and b is not None:
            x = strip_at(b)
        elif m in ('subgraph', 'edge_subgraph') or n in ('networkx.subgraph', 'networkx.Graph'):
            return False
        else:
            return None
    return None


OFFERED = ('ballistic', 'shortest_path', 'dominating_set')


class Chosen(Monitor):
    def __init__(self, fns):
        self.fns = fns

    def init(self):
        return ()

    def on(self, ev, m, st, eng):
        if ev.kind == 'call' and getattr(ev.fn, 'fid', None) in self.fns:
            return m + ((ev.fn.fid, ev.result),)
        if ev.kind == 'badcall':
            return m + (('badcall', str(getattr(ev, 'why', ''))),)
        if ev.kind == 'mutate' and strip_at(ev.base).op == 'call':
            return m + (('mutate', strip_at(ev.base), ev.method, tuple(ev.args)),)
        return m


def c24(ctx):
    ctx.rule('points', 'Every point added to the graph of a line is taken from the cluster, unchanged (provenance of every value that reaches an addition).')
    ctx.rule('links', 'Every link added to the graph of a line is a link of the cluster: of its link list, between a point and its neighbour, or between consecutive points of a path in it.')
    ctx.rule('methods', 'Every offered method name runs its own method with the cluster and its feature size; another name gives no line.')
    ctx.rule('runs', 'A path is only looked for where there is one, or its absence is handled.')
    ctx.rule('degrees', 'The degree counts are those of the graph of the line, complete except for degree 2.')
    ctx.rule('name', 'The shape is named a closed loop only for no degree other than 2, an open line only for exactly two points of degree 1 (all degree counts with degrees 0, 1, 3, 4 up to 4 times).')
    ctx.assumptions += ['the graph of a cluster is connected, without links of a point to itself', 'networkx functions return what they document']
    roles = R.get(ctx.prog)
    f = function(ctx, '_evaluate_line')
    if f is None:
        ctx.undecided('methods', '_evaluate_line', 'not found')
        return
    dispatch(ctx, roles, f)
    shape_name(ctx, roles)


def methods_of(ctx, f):
    """Functions that evaluate a line, by what they are for."""
    pkg = f.module.name.rsplit('.', 1)[0]
    res = {}
    for m in OFFERED:
        fs = [x for x in ctx.prog.functions.values() if x.cls is None and x.parent is None and x.module.name.startswith(pkg) and x.name.lstrip('_') == 'evaluate_line_' + m]
        if len(fs) == 1:
            res[m] = fs[0]
    return res


def dispatch(ctx, roles, f):
    fns = methods_of(ctx, f)
    fids = {x.fid: n for n, x in fns.items()}
    p = param(f, 'method')
    line = roles.cls('line')
    graph = param(f, 'graph')
    if p is None or graph is None or not fns:
        ctx.undecided('methods', f.qual, 'no method parameter or no methods')
        return
    for name in OFFERED + ('#other',):
        eng, rets, raises = ctx.analyse(f, args=(), kwargs=inputs(f, method=const(name)), monitor=Chosen(fids), opaque=set(fids), label='%s, method %s' % (f.qual, name), atomic=True, idents=IDENT)
        if name == '#other':
            for st, v in rets:
                v = strip_at(v)
                if st.taint:
                    ctx.undecided('methods', f.qual, 'imprecise path')
                elif any(x[0] in fids for x in st.mon) or v.op == 'inst':
                    ctx.bad('methods', ctx.loc(f), f.qual, 'an unknown method is mapped to %s' % ', '.join(fids[x[0]] for x in st.mon if x[0] in fids))
                elif is_const(v):
                    ctx.ok('methods', 'an unknown method gives %s' % show(v))
                else:
                    ctx.undecided('methods', f.qual, 'unknown method')
            if not rets and raises:
                ctx.ok('methods', 'an unknown method is an error')
            continue
        if name not in fns:
            ctx.undecided('methods', f.qual, 'no function for %s' % name)
            continue
        if not rets:
            if raises and not any(st.taint for st, _ in raises):
                ctx.bad('methods', ctx.loc(f), f.qual, 'method %s does not run' % name)
            else:
                ctx.undecided('methods', f.qual, 'method %s' % name)
        for st, v in rets:
            v = strip_at(v)
            if st.taint:
                ctx.undecided('methods', f.qual, 'imprecise path')
                continue
            ran = [x for x in st.mon if x[0] in fids]
            if not ran:
                if is_const(v):
                    ctx.bad('methods', ctx.loc(f), f.qual, 'method %s gives %s' % (name, show(v)))
                else:
                    ctx.undecided('methods', f.qual, 'method %s' % name)
                continue
            others = {fids[x[0]] for x in ran} - {name}
            if others:
                ctx.bad('methods', ctx.loc(f), f.qual, 'method %s runs %s' % (name, ', '.join(sorted(others))))
                continue
            why = misfit(fns[name], ran[-1][1])
            if why:
                ctx.bad('methods', ctx.loc(f), f.qual, 'method %s does not run: %s' % (name, why))
                continue
            a = args_of(fns[name], ran[-1][1])
            if strip_at(a.get('graph', NONE)) is not graph:
                if a.get('graph') is not None and mentions(a['graph'], graph):
                    ctx.undecided('methods', f.qual, 'graph of method %s: %s' % (name, show(a['graph'])[:80]))
                else:
                    ctx.bad('methods', ctx.loc(f), f.qual, 'method %s does not get the cluster' % name)
                continue
            ctx.ok('methods', '%s: %s runs %s' % (f.qual, name, fns[name].qual))
            if not (v.op == 'inst' and v.a[0] == line.cid):
                if is_const(v):
                    ctx.bad('methods', ctx.loc(f), f.qual, 'method %s gives %s' % (name, show(v)))
                else:
                    ctx.undecided('methods', f.qual, 'result %s' % show(v)[:80])
                continue
            g = st.heap.get((v, 'graph'))
            d = st.heap.get((v, 'degree_count'))
            r = ran[-1][1]
            if g is None or d is None:
                ctx.undecided('degrees', f.qual, 'fields of the line')
                continue
            if strip_at(g) is not r:
                if strip_at(g) is graph:
                    ctx.bad('degrees', ctx.loc(f), f.qual, 'the graph of the line is the cluster itself')
                else:
                    ctx.undecided('degrees', f.qual, 'graph %s' % show(g)[:80])
                    continue
            try:
                degrees(strip_at(d), strip_at(g), st)
            except Wrong as e:
                ctx.bad('degrees', ctx.loc(f), f.qual, str(e))
            except Top as e:
                ctx.undecided('degrees', f.qual, str(e)[:160])
            else:
                ctx.ok('degrees', '%s: %s' % (f.qual, name))
    for name, m in sorted(fns.items()):
        one_method(ctx, name, m)


def misfit(f, c):
    """Why a call does not fit the parameters, if it does not."""
    if any(a.op == 'star' for a in c.a[1]) or any(k == '**' for k, _ in c.a[2]):
        return None
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    given = pos[:len(c.a[1])]
    if len(c.a[1]) > len(pos) and not a.vararg:
        return 'too many arguments'
    for k, _ in c.a[2]:
        if k in given:
            return 'two values of %s' % k
        if k not in pos + kwonly and not a.kwarg:
            return 'no parameter %s' % k
        given.append(k)
    need = pos[:len(pos) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for k in need:
        if k not in given:
            return 'no value of %s' % k
    return None


def degrees(t, g, st):
    """Is t the count of all degrees of g except 2?"""
    removed = any(k[0] == 'in' and is_const(k[1]) and cval(k[1]) == 2 and strip_at(k[2]) is t and v is False for k, v in st.facts.items())
    c = t
    for x in st.mon:
        if x[0] == 'mutate' and x[1] is t:
            if x[2] == 'pop' and x[3] and is_const(x[3][0]) or x[2] == '__delitem__' and x[3] and is_const(x[3][0]):
                if cval(x[3][0]) != 2:
                    raise Wrong('points of degree %s are left out' % show(x[3][0]))
                removed = True
            else:
                raise Top('degree counts are changed by %s' % x[2])
    for _ in range(8):
        n = ext(c)
        b, m = method_of(c)
        if n in ('builtins.dict', 'collections.Counter', 'collections.OrderedDict') and c.a[1] and strip_at(c.a[1][0]).op == 'comp' and strip_at(c.a[1][0]).a[0] == 'dict':
            c = strip_at(c.a[1][0])
        elif c.op == 'comp' and len(c.a[2]) == 1 and (c.a[0] == 'dict' or strip_at(c.a[1]).op == 'tuple'):
            e, it, conds = c.a[2][0]
            it = strip_at(it)
            b, m = method_of(it)
            if m != 'items' and ext(strip_at(it)) != 'collections.Counter':
                raise Top('degree counts %s' % show(c)[:100])
            for k in conds:
                removed = only_two(k, e) or removed
            c = strip_at(b) if m == 'items' else it
        else:
            break
    if ext(c) != 'collections.Counter' or not c.a[1]:
        raise Top('degree counts %s' % show(c)[:100])
    a = strip_at(c.a[1][0])
    for _ in range(4):
        if ext(a) in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted') and a.a[1]:
            a = strip_at(a.a[1][0])
    if ext(a) in ('builtins.set', 'builtins.frozenset'):
        raise Wrong('points with the same degree are counted once')
    def degree_list(it):
        it = strip_at(it)
        for _ in range(4):
            if ext(it) in ('builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted') and it.a[1]:
                it = strip_at(it.a[1][0])
        b, m = method_of(it)
        if it.op == 'attr' and it.a[1] == 'degree':
            return strip_at(it.a[0])
        if m == 'degree':
            if it.a[1] or it.a[2]:
                if any(k == 'weight' for k, _ in it.a[2]):
                    raise Wrong('weighted degrees are counted: %s' % show(it)[:80])
                raise Top('degrees %s' % show(it)[:80])
            return strip_at(b)
        if nx(it) == 'networkx.degree' and len(it.a[1]) == 1:
            return strip_at(it.a[1][0])
        return None
    own = None
    if a.op == 'comp' and a.a[0] == 'set':
        raise Wrong('points with the same degree are counted once')
    if a.op == 'comp' and len(a.a[2]) == 1 and a.a[0] != 'dict':
        e, it, conds = a.a[2][0]
        own = degree_list(it)
        v = strip_at(a.a[1])
        if own is None and strip_at(it).op in ('attr', 'call'):
            # [g.degree(n) for n in g]
            b, m = method_of(v)
            if m == 'degree' and len(v.a[1]) == 1 and strip_at(v.a[1][0]) is strip_at(e):
                own = strip_at(b)
            elif v.op == 'sub' and v.a[0].op == 'attr' and v.a[0].a[1] == 'degree' and strip_at(v.a[1]) is strip_at(e):
                own = strip_at(v.a[0].a[0])
            if own is None or not (strip_at(it) is own or strip_at(it) is attr(own, 'nodes')):
                raise Top('degrees %s' % show(a)[:100])
            for k in conds:
                raise Top('degrees %s' % show(a)[:100])
        else:
            if own is None:
                raise Top('degrees %s' % show(a)[:100])
            if not (v.op == 'sub' and strip_at(v.a[0]) is strip_at(e) and is_const(v.a[1]) or v.op == 'elem'):
                if not (e.op == 'tuple' and v in [strip_at(y) for y in e.a[0]]):
                    x = T('sub', e, const(1))
                    try:
                        if mentions(v, x) and any(concrete(v, x, n) != n for n in range(6)):
                            raise Wrong('other numbers than the degrees are counted: %s' % show(v)[:80])
                    except Unknown:
                        pass
                    raise Top('degrees %s' % show(a)[:100])
            if v.op == 'sub' and cval(v.a[1]) == 0:
                raise Wrong('points are counted instead of their degrees')
            for k in conds:
                removed = only_two(k, e, v) or removed
    elif ext(a) == 'builtins.map' and len(a.a[1]) == 2:
        fn = a.a[1][0]
        if ext(fn) == 'operator.itemgetter' and is_const(fn.a[1][0]) and cval(fn.a[1][0]) == 1:
            own = degree_list(a.a[1][1])
    else:
        b, m = method_of(a)
        if m == 'values' and ext(strip_at(b)) == 'builtins.dict' and strip_at(b).a[1]:
            own = degree_list(strip_at(b).a[1][0])
    if own is None:
        raise Top('degrees %s' % show(a)[:100])
    if own is not g:
        raise Wrong('the degrees are not those of the graph of the line, but of %s' % show(own)[:80])
    if not removed:
        raise Wrong('points of degree 2 are counted as well')


def only_two(c, e, v=None):
    """Condition that leaves out degree 2 only."""
    c = strip_at(c)
    if c.op == 'cmp' and c.a[0] == '!=':
        l, r = strip_at(c.a[1]), strip_at(c.a[2])
        for x, y in ((l, r), (r, l)):
            if is_const(y) and cval(y) == 2 and (x is v or x.op == 'sub' and is_const(x.a[1])):
                return True
            if is_const(y) and isinstance(cval(y), int):
                raise Wrong('degrees are left out: %s' % show(c))
    if c.op == 'not' or c.op == 'un':
        raise Top('degrees are left out: %s' % show(c))
    if c.op == 'cmp' and any(is_const(y) and isinstance(cval(y), int) for y in c.a[1:] if isinstance(y, T)):
        raise Wrong('degrees are left out: %s' % show(c))
    raise Top('degrees are left out: %s' % show(c))


def one_method(ctx, name, f):
    graph = param(f, 'graph')
    if graph is None:
        ctx.undecided('points', f.qual, 'parameters')
        return
    log = Graphs()
    cls = R.get(ctx.prog).cls('coord')
    opaque = log.coord = {m.fid for ms in cls.methods.values() for m in ms}
    eng, rets, raises = ctx.analyse(f, monitor=log, label=f.qual, atomic=True, idents=IDENT, opaque=opaque)
    p = Provenance(graph, log, eng)
    if not rets:
        ctx.undecided('points', f.qual, 'no result')
    results = []
    for st, v in rets:
        v = strip_at(v)
        if v not in results:
            results.append(v)
    for v in results:
        for rule, fn in (('points', p.nodes_of), ('links', p.links_of)):
            try:
                fn(v)
            except Wrong as e:
                w = getattr(e, 'where', None)
                if rule == 'links' and is_points(p, v):
                    continue
                ctx.bad(rule, ctx.loc(*w) if w else ctx.loc(f), f.qual, str(e))
            except Top as e:
                ctx.undecided(rule, f.qual, str(e)[:200])
            else:
                n = len([k for k in log.muts if k[2] in ADD])
                ctx.ok(rule, '%s: %s (%d additions)' % (f.qual, show(v)[:80], n))
    for node, fn, why in log.bad:
        ctx.bad('runs', ctx.loc(fn, node), f.qual, 'a call does not fit the parameters: %s' % why)
    seen = set()
    for nm, args, kwargs, mon, node, fn, stack, known in log.need:
        ok = guarded(stack, node) or asked(known, args, kwargs)
        c = True if ok else connected(p, nm, args, kwargs, mon)
        key = (node, ok, c)
        if key in seen:
            continue
        seen.add(key)
        if ok or c is True:
            ctx.ok('runs', '%s: %s at %s' % (f.qual, nm, ctx.loc(fn, node)))
        elif c is False:
            if handled_above(ctx):
                ctx.ok('runs', '%s: %s at %s' % (f.qual, nm, ctx.loc(fn, node)))
            else:
                ctx.bad('runs', ctx.loc(fn, node), fn.qual, 'there may be no path in %s, which is not handled' % show(strip_at(args[0] if args else dict(kwargs)['G']))[:80])
        else:
            ctx.undecided('runs', f.qual, '%s in %s' % (nm, show(args[0] if args else dict(kwargs)['G'])[:80]))


def is_points(p, v):
    """Is the reason that a point is not one of the cluster?"""
    try:
        p.nodes_of(v)
    except Wrong:
        return True
    except Top:
        pass
    return False


def handled_above(ctx):
    """Does the caller of the line evaluation handle a missing path?"""
    f, g = function(ctx, 'evaluate_cluster'), function(ctx, '_evaluate_line')
    if f is None or g is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == g.name:
            if caught_in(f.node, n):
                return True
    return False


# -- shape name ------------------------------------------------------------
class Unknown(Exception):
    pass


def concrete(t, x, d):
    """Value of a term, where x is the degree count d."""
    t = strip_at(t)
    if t is x:
        return d
    if is_const(t):
        return cval(t)
    rec = lambda y: concrete(y, x, d)
    if t.op in ('tuple',):
        return tuple(rec(y) for y in t.a[0])
    if t.op == 'seqv':
        vs = [rec(y) for y in t.a[1]]
        return {'list': list, 'tuple': tuple, 'set': set}.get(t.a[0], list)(vs)
    if t.op == 'ditems':
        return {rec(k): rec(v) for k, v in (kv.a[0] for kv in t.a[0])}
    if t.op == 'cmp':
        l, r = rec(t.a[1]), rec(t.a[2])
        try:
            return {'==': lambda: l == r, '!=': lambda: l != r, '<': lambda: l < r, '<=': lambda: l <= r, '>': lambda: l > r, '>=': lambda: l >= r, 'in': lambda: l in r, 'not in': lambda: l not in r, 'is': lambda: l is r, 'is not': lambda: l is not r}[t.a[0]]()
        except (KeyError, TypeError):
            raise Unknown
    if t.op == 'not':
        return not rec(t.a[0])
    if t.op in ('and', 'or') and isinstance(t.a[0], tuple):
        for y in t.a[0]:
            v = rec(y)
            if bool(v) == (t.op == 'or'):
                return v
        return v
    if t.op == 'bin':
        l, r = rec(t.a[1]), rec(t.a[2])
        try:
            return {'+': lambda: l + r, '-': lambda: l - r, '*': lambda: l * r, '&': lambda: l & r, '|': lambda: l | r}[t.a[0]]()
        except (KeyError, TypeError):
            raise Unknown
    if t.op == 'sub':
        b, i = rec(t.a[0]), rec(t.a[1])
        try:
            return b[i]
        except (KeyError, IndexError, TypeError):
            raise Unknown
    n = ext(t)
    b, m = method_of(t)
    if n is not None and n.startswith('builtins.'):
        fn = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'sorted': sorted, 'dict': dict, 'len': len, 'sum': sum, 'bool': bool, 'max': max, 'min': min, 'any': any, 'all': all}.get(n[9:])
        if fn is None or t.a[2]:
            raise Unknown
        try:
            return fn(*[rec(y) for y in t.a[1]])
        except (TypeError, ValueError):
            raise Unknown
    if n == 'collections.Counter' and len(t.a[1]) <= 1:
        return dict(rec(t.a[1][0])) if t.a[1] else {}
    if m in ('items', 'keys', 'values', 'get', 'copy') and b is not None:
        o = rec(b)
        if not isinstance(o, dict):
            raise Unknown
        r = getattr(o, m)(*[rec(y) for y in t.a[1]])
        return r if m in ('get', 'copy') else list(r)
    raise Unknown


def shape_name(ctx, roles):
    cls = roles.cls('line')
    f = ctx.prog.find_method(cls, 'shape_name') if cls else None
    if f is None:
        ctx.undecided('name', 'shape_name', 'not found')
        return
    from .results import self_of
    me = self_of(cls)
    x = attr(me, 'degree_count')
    names = {}
    import itertools
    eng, rets, raises = ctx.analyse(f, self_term=me, label=f.qual, atomic=True)
    bad = {}
    n = 0
    for counts in itertools.product(range(5), repeat=4):
        d = {k: c for k, c in zip((0, 1, 3, 4), counts) if c}
        got = set()
        for st, v in rets:
            if st.taint:
                got.add(None)
                continue
            try:
                if not all(fact_holds(k, val, x, d) for k, val in st.facts.items()):
                    continue
                got.add(concrete(with_heap(v, st), x, d))
            except Unknown:
                got.add(None)
        if None in got or len(got) != 1:
            ctx.undecided('name', f.qual, 'name for degree counts %s' % d)
            return
        n += 1
        r = got.pop()
        if (r == 'CLOSED LOOP') != (d == {}) or (r == 'OPEN LINE') != (d == {1: 2}):
            bad.setdefault(r, d)
    for r, d in sorted(bad.items(), key=str):
        ctx.bad('name', ctx.loc(f), f.qual, 'a line whose other degree counts are %s is named %s' % (d, r))
    if not bad:
        ctx.ok('name', '%s: %d degree counts' % (f.qual, n))


def with_heap(t, st):
    """Replaces objects by what they hold."""
    from ..terms import subst
    for _ in range(3):
        for y in list(walk(t)):
            if isinstance(y, T) and y.op == 'obj':
                c = st.heap.get((y, '#'))
                if c is not None and c.op in ('seq', 'ditems'):
                    t = subst(t, {y: c if c.op == 'ditems' else T('seqv', y.a[0], tuple(c.a[0]))})
    return t


def fact_holds(k, val, x, d):
    if k[0] == 'truth':
        return bool(concrete(k[1], x, d)) == val
    if k[0] == 'ord':
        l, r = concrete(k[1], x, d), concrete(k[2], x, d)
        try:
            return ('<' if l < r else '=' if l == r else '>') in val
        except TypeError:
            return ('=' if l == r else 'u') in val
    if k[0] == 'in':
        return (concrete(k[1], x, d) in concrete(k[2], x, d)) == val
    if k[0] == 'is':
        return (concrete(k[1], x, d) is concrete(k[2], x, d)) == val
    raise Unknown
