IC = 'identify/result/_containers.py'
SH = 'identify/result/_shapes.py'
CS = 'coordinate_system.py'
ST = 'search/result/_controller_state.py'
RC = 'search/result/_search_result_container.py'
MI = 'search/result/_minimization.py'
QU = 'search/_queue.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C03']
broken('rt-drop-refined', B, (RC, "    HDF5_OPTIONAL = ['refined_results']\n", ""))
broken('rt-only-nodes', B, (RC, "return self.nodes.values() + self.rejected_results", "return self.nodes.values()"))
broken('rt-drop-rejected-written', B, (RC, "        'minimization_results',\n", ""), (RC, "    HDF5_OPTIONAL = ['refined_results']", "    HDF5_OPTIONAL = ['refined_results', 'nodes']"))
broken('rt-swap-id', B, (IC, "return cls(positions=positions, dimension=dimension, shape=shape)", "return cls(positions, shape, dimension)"))
broken('rt-swap-write', B, (IC, "to_hdf5(self.shape, hdf5_handle.create_group('shape'))", "to_hdf5(self.dimension, hdf5_handle.create_group('shape'))"))
broken('rt-shape-unread', B, (IC, "return cls(positions=positions, dimension=dimension, shape=shape)", "return cls(positions=positions, dimension=dimension)"))
broken('rt-edges-write', B, (SH, "        if self.graph.edges:\n            graph_group['edges'] = np.array(list(self.graph.edges))\n", ""))
broken('rt-edges-read', B, (SH, "        if 'edges' in graph_group:\n            graph.add_edges_from([(tuple(p1), tuple(p2))\n                                  for p1, p2 in graph_group['edges']])\n", ""))
broken('rt-edges-always', B, (SH, "        if 'edges' in graph_group:\n            graph.add_edges_from([(tuple(p1), tuple(p2))\n                                  for p1, p2 in graph_group['edges']])\n", "        graph.add_edges_from([(tuple(p1), tuple(p2))\n                                  for p1, p2 in graph_group['edges']])\n"))
broken('rt-edges-cond', B, (SH, "        if self.graph.edges:\n", "        if len(self.graph.edges) > 1:\n"))
broken('rt-nodes-only-edges', B, (SH, "        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])\n", ""))
broken('rt-degree', B, (SH, "        return cls(graph=graph, degree_count=degree_count)", "        return cls(graph=graph, degree_count={})"))
broken('rt-slice', B, (IC, "hdf5_handle['positions'] = np.array(self.positions)", "hdf5_handle['positions'] = np.array(self.positions[:100])"))
broken('rt-filter', B, (IC, "positions = [tuple(x) for x in hdf5_handle['positions'][()]]", "positions = [tuple(x) for x in hdf5_handle['positions'][()] if any(x)]"))
broken('rt-scale', B, (RC, "        self.dist_cutoff = dist_cutoff\n", "        self.dist_cutoff = 2 * dist_cutoff\n"))
broken('rt-swapq', B, (ST, "        self.simplex_queue = simplex_queue\n        self.position_queue = position_queue\n", "        self.simplex_queue = position_queue\n        self.position_queue = simplex_queue\n"))
broken('rt-coord', B, (CS, "HDF5_ATTRIBUTES = ['limits', 'periodic']", "HDF5_ATTRIBUTES = ['limits']"))
broken('rt-fs', B, (IC, "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']", "HDF5_ATTRIBUTES = ['coordinate_system', 'results']"), (IC, "feature_size, results=()", "feature_size=None, results=()"))
broken('rt-tag', B, (SH, "'nodefinder.nodal_point'", "'nodal_point'"))
broken('rt-mr-cond', B, (MI, "            hdf5_handle[key] = val\n", "            if val:\n                hdf5_handle[key] = val\n"))
broken('rt-mr-skip', B, (MI, "            assert key != 'type_tag'\n", "            if key.startswith('simplex'):\n                continue\n"))
broken('rt-nodecode', B, (MI, "            if isinstance(val, bytes):\n                kwargs[key] = val.decode()\n", "            pass\n"))
broken("rt-queue-running", ["C04"], (QU, "        objects = np.array(self.objects)\n        hdf5", "        objects = np.array(list(self._queued_objects.queue))\n        hdf5"))
broken('rt-mr-key', B, (MI, "if key != 'type_tag'\n        }", "if key not in ('type_tag', 'message')\n        }"))
fine('rt-coord-expl', B, (CS, "HDF5_ATTRIBUTES = ['limits', 'periodic']", "HDF5_ATTRIBUTES = ('limits', ) + ('periodic', )"))
fine('rt-list-sum', B, (RC, "    HDF5_ATTRIBUTES = [\n        'coordinate_system',", "    HDF5_ATTRIBUTES = ['coordinate_system'] + ["))
fine('rt-loop', B, (SH, "        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])\n", "        for node in graph_group['nodes']:\n            graph.add_node(tuple(node))\n"))
fine('rt-loop2', B, (SH, "            graph.add_edges_from([(tuple(p1), tuple(p2))\n                                  for p1, p2 in graph_group['edges']])\n", "            for start, end in graph_group['edges']:\n                graph.add_edge(tuple(start), tuple(end))\n"))
fine('rt-helper', B, (SH, "        graph_group = hdf5_handle['graph']\n        graph = nx.Graph()\n\n        graph.add_nodes_from([tuple(n) for n in graph_group['nodes']])\n        if 'edges' in graph_group:\n            graph.add_edges_from([(tuple(p1), tuple(p2))\n                                  for p1, p2 in graph_group['edges']])\n", "        graph = cls._load_graph(hdf5_handle['graph'])\n"), (SH, "    @property\n    def shape_name", "    @staticmethod\n    def _load_graph(handle):\n        res = nx.Graph()\n        res.add_nodes_from(map(tuple, handle['nodes']))\n        if 'edges' in handle:\n            edges = handle['edges']\n            res.add_edges_from([(tuple(a), tuple(b)) for a, b in edges])\n        return res\n\n    @property\n    def shape_name"))
fine('rt-edges-len', B, (SH, "        if self.graph.edges:\n            graph_group['edges'] = np.array(list(self.graph.edges))\n", "        edges = list(self.graph.edges)\n        if len(edges) > 0:\n            graph_group['edges'] = np.array(edges)\n"))
fine('rt-kw', B, (IC, "return cls(positions=positions, dimension=dimension, shape=shape)", "return cls(positions, dimension, shape)"))
fine('rt-order', B, (IC, "        to_hdf5(self.dimension, hdf5_handle.create_group('dimension'))\n        hdf5_handle['positions'] = np.array(self.positions)\n", "        hdf5_handle['positions'] = np.array(self.positions)\n        dimension_group = hdf5_handle.create_group('dimension')\n        to_hdf5(self.dimension, dimension_group)\n"))
fine('rt-mr-items', B, (MI, "        for key, val in self.__dict__.items():\n", "        for key, val in vars(self).items():\n"))
fine('rt-mr-loop', B, (MI, """        kwargs = {
            key: val[()]
            for key, val in hdf5_handle.items() if key != 'type_tag'
        }
        for key, val in kwargs.items():
            # strings are loaded as bytes since h5py version 3
            if isinstance(val, bytes):
                kwargs[key] = val.decode()
""", """        kwargs = {}
        for key, dataset in hdf5_handle.items():
            if key == 'type_tag':
                continue
            val = dataset[()]
            if isinstance(val, bytes):
                val = val.decode()
            kwargs[key] = val
"""))
fine('rt-queue', B, (QU, "        objects = np.array(self.objects)\n        hdf5_handle['objects'] = objects", "        hdf5_handle['objects'] = np.array(self.objects)"))

B = ['C26']
broken('lg-extra', B, (RC, "    'nodefinder.search_result_container',\n    extra_tags=['nodefinder.result_container']\n", "    'nodefinder.search_result_container'\n"))
broken('lg-extra2', B, (MI, "    'nodefinder.joined_minimization_result',\n    extra_tags=['nodefinder.joined_result']\n", "    'nodefinder.joined_minimization_result'\n"))
broken('lg-refined', B, (RC, "        'gap_threshold',\n    ]\n    HDF5_OPTIONAL = ['refined_results']", "        'gap_threshold',\n        'refined_results',\n    ]"))
broken('lg-req', B, (IC, "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']", "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size', 'version']"), (IC, "feature_size, results=()):\n", "feature_size, version, results=()):\n        self.version = version\n"))
broken('lg-req-opt', B, (IC, "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']", "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']\n    HDF5_OPTIONAL = ['version']"), (IC, "feature_size, results=()):\n", "feature_size, version, results=()):\n        self.version = version\n"))
broken('lg-rename', B, (SH, "'nodefinder.nodal_line'", "'nodefinder.nodal_curve'"))
broken('lg-raw', B, (IC, """        try:
            positions = [tuple(x) for x in hdf5_handle['positions'][()]]
        except (AttributeError, TypeError):
            positions = from_hdf5(hdf5_handle['positions'])
""", """        positions = [tuple(x) for x in hdf5_handle['positions'][()]]
"""))
broken('lg-obj', B, (IC, """        try:
            dimension = hdf5_handle['dimension'][()]
        except (AttributeError, TypeError):
            dimension = from_hdf5(hdf5_handle['dimension'])
""", """        dimension = from_hdf5(hdf5_handle['dimension'])
"""))
broken('lg-exc', B, (IC, """            dimension = hdf5_handle['dimension'][()]
        except (AttributeError, TypeError):
""", """            dimension = hdf5_handle['dimension'][()]
        except KeyError:
"""))
broken('lg-swap', B, (RC, "extra_tags=['nodefinder.result_container']", "extra_tags=['nodefinder.joined_result']"), (MI, "extra_tags=['nodefinder.joined_result']", "extra_tags=['nodefinder.result_container']"))
broken('lg-edges', B, (SH, "        if 'edges' in graph_group:\n            graph", "        if graph_group['edges']:\n            graph"))
fine('lg-more', B, (SH, "@subscribe_hdf5('nodefinder.nodal_line')", "@subscribe_hdf5('nodefinder.nodal_line', extra_tags=['nodefinder.line'])"))
fine('lg-opt', B, (IC, "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']", "HDF5_ATTRIBUTES = ['coordinate_system', 'results', 'feature_size']\n    HDF5_OPTIONAL = ['version']"), (IC, "feature_size, results=()):\n", "feature_size, results=(), version=None):\n        self.version = version\n"))
broken('lg-newtag', B, (SH, "@subscribe_hdf5('nodefinder.nodal_line')", "@subscribe_hdf5('nodefinder.nodal_curve', extra_tags=['nodefinder.nodal_line'])"))
fine('lg-helper', B, (IC, """        try:
            dimension = hdf5_handle['dimension'][()]
        except (AttributeError, TypeError):
            dimension = from_hdf5(hdf5_handle['dimension'])
        try:
            positions = [tuple(x) for x in hdf5_handle['positions'][()]]
        except (AttributeError, TypeError):
            positions = from_hdf5(hdf5_handle['positions'])
        return""", """        dimension = cls._load(hdf5_handle['dimension'])
        positions = [tuple(x) for x in cls._load(hdf5_handle['positions'])]
        return"""), (IC, "    @classmethod\n    def from", "    @staticmethod\n    def _load(handle):\n        try:\n            return handle[()]\n        except (AttributeError, TypeError):\n            return from_hdf5(handle)\n\n    @classmethod\n    def from"))

NS = 'identify/result/_namespace.py'
CL = 'search/result/_cell_list.py'
GUARD = "        if key in self.HDF5_ATTRIBUTES:\n            # not set (yet), for example while copying or unpickling\n            raise AttributeError(key)\n"
B = ['C35']
broken('cp-noguard', B, (MI, GUARD, ""))
broken('cp-guard1', B, (MI, "        if key in self.HDF5_ATTRIBUTES:\n", "        if key == 'child':\n"))
broken('cp-default', B, (MI, "            return getattr(self.child, key)", "            return getattr(self.child, key, None)") if False else (MI, "        else:\n            return getattr(self.child, key)", "        elif key in self.child.__dict__:\n            return getattr(self.child, key)\n        return None"))
broken('cp-keyerror', B, (MI, "            return getattr(self.child, key)", "            try:\n                return getattr(self.child, key)\n            except AttributeError:\n                raise KeyError(key)"))
broken('cp-reduce-default', B, (NS, "        return copyreg.__newobj__, (type(self), ), self.__dict__", "        return super().__reduce__()"))
broken('cp-nostate', B, (NS, "        return copyreg.__newobj__, (type(self), ), self.__dict__", "        return copyreg.__newobj__, (type(self), )"))
broken('cp-ns', B, (SH, "from ._namespace import ResultNamespace", "from types import SimpleNamespace"), (SH, "class NodalPoint(ResultNamespace, ", "class NodalPoint(SimpleNamespace, "), (SH, "class NodalLine(ResultNamespace)", "class NodalLine(SimpleNamespace)"))
broken('cp-req', B, (MI, "    def to_hdf5(self, hdf5_handle):\n", "    def __init__(self, pos, value, **kwargs):\n        super().__init__(pos=pos, value=value, **kwargs)\n\n    def to_hdf5(self, hdf5_handle):\n"))
broken('cp-lambda', B, (RC, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._accept = lambda res: res.success and res.value <= gap_threshold\n"))
broken('cp-lock', B, (RC, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._lock = threading.Lock()\n"), (RC, "import numpy as np\n", "import threading\n\nimport numpy as np\n"))
broken('cp-gen', B, ('identify/_run.py', "results=results", "results=(r for r in results)"))
broken('cp-copy', B, (RC, "    def add_result(self, res):\n", "    def __copy__(self):\n        return type(self)(coordinate_system=self.coordinate_system, minimization_results=self.minimization_results, gap_threshold=self.gap_threshold, dist_cutoff=self.dist_cutoff)\n\n    def add_result(self, res):\n"))
broken('cp-getstate', B, (RC, "    def add_result(self, res):\n", "    def __getstate__(self):\n        state = self.__dict__.copy()\n        state.pop('needs_saving')\n        return state\n\n    def add_result(self, res):\n"))
broken('cp-hook', B, (MI, "class MinimizationResult(SimpleNamespace, HDF5Enabled):\n", "class MinimizationResult(SimpleNamespace, HDF5Enabled):\n    def __deepcopy__(self, memo):\n        return MinimizationResult(**vars(self))\n\n") if False else (MI, "    def to_hdf5(self, hdf5_handle):\n", "    def __deepcopy__(self, memo):\n        return type(self)(**self.__dict__)\n\n    def to_hdf5(self, hdf5_handle):\n"))
broken('cp-defaultdict', B, (CL, "        self._cells = ", "        self._empty = (lambda: [])\n        self._cells = ") if False else (RC, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._cache = collections.defaultdict(lambda: [])\n"), (RC, "import numpy as np\n", "import collections\n\nimport numpy as np\n"))
fine('cp-startswith', B, (MI, GUARD, "        if key in ('child', 'ancestor') or key.startswith('__'):\n            raise AttributeError(key)\n"))
fine('cp-dict', B, (MI, GUARD, "        if 'child' not in self.__dict__ or 'ancestor' not in self.__dict__:\n            raise AttributeError(key)\n"))
fine('cp-vars', B, (MI, """        if key in self.JOIN_KEYS:
            return self._join(
                getattr(self.ancestor, key), getattr(self.child, key)
            )
        else:
            return getattr(self.child, key)
""", """        child = getattr(self.child, key)
        if key not in self.JOIN_KEYS:
            return child
        return self._join(getattr(self.ancestor, key), child)
"""))
fine('cp-reduce-each', B, (SH, "    HDF5_ATTRIBUTES = ['position']\n", "    HDF5_ATTRIBUTES = ['position']\n\n    def __reduce__(self):\n        return NodalPoint, (self.position, )\n"))
fine('cp-gen-list', B, ('identify/_run.py', "results=results", "results=list(r for r in results)"))
fine('cp-reduce-object', B, (NS, "        return copyreg.__newobj__, (type(self), ), self.__dict__", "        state = dict(self.__dict__)\n        return copyreg.__newobj__, (self.__class__, ), state"))
LRU = "        self._neighbour_indices = dict()\n"
broken('cp-get3', B, (MI, "            return getattr(self.child, key)", "            return getattr(self.child, key, None)"))
broken('cp-dictget', B, (MI, "            return getattr(self.child, key)", "            return vars(self.child).get(key)"))
broken('cp-lru', B, (CL, LRU, LRU + "        self._offsets = functools.lru_cache(maxsize=None)(self._calculate_neighbour_indices)\n"), (CL, "import itertools\n", "import functools\nimport itertools\n"))
broken('cp-heldlambda', B, (RC, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._hooks = []\n        self._hooks.append(lambda res: res.value)\n"))
fine('cp-sentinel', B, (MI, "            return getattr(self.child, key)", "            missing = object()\n            value = getattr(self.child, key, missing)\n            if value is missing:\n                raise AttributeError(key)\n            return value"))
fine('cp-dictin', B, (MI, "            return getattr(self.child, key)", "            attributes = vars(self.child)\n            if key in attributes:\n                return attributes.get(key)\n            return getattr(self.child, key)"))
fine('cp-itemslist', B, (RC, "        self.rejected_results = []\n", "        self.rejected_results = []\n        self._names = list(vars(self).keys())\n"))
