"""Variants for C23 and C27 (what is modified)."""

VARIANTS = []
CO, MI, CS, ST, QU = 'search/_controller.py', 'search/_minimization/_run.py', 'coordinate_system.py', 'search/refinement_stencil.py', 'search/_queue.py'
NM, FP, ME, CL, SR = 'search/_minimization/_nelder_mead.py', 'search/_fake_potential.py', 'search/_mesh_helper.py', 'search/result/_cell_list.py', 'search/result/_search_result_container.py'
IR, IC, ID, IE, PL, SP, SH, IT = ('identify/_run.py', 'identify/_cluster.py', 'identify/_dimension.py', 'identify/_evaluate/_run.py', 'identify/plot.py', 'search/plot.py',
                              'identify/result/_shapes.py', 'identify/result/_containers.py')
LS, LD, LB, LR, EP, CP = ('identify/_evaluate/_line/_shortest_path.py', 'identify/_evaluate/_line/_dominating_set.py', 'identify/_evaluate/_line/_ballistic.py', 'identify/_evaluate/_line/_run.py',
                      'identify/_evaluate/_point.py', '_common_plot.py')


def broken(name, props, *edits):
    VARIANTS.append(dict(name='eff-' + name, props=[props], edits=edits, broken=True))


def fine(name, *edits, props=('C23', 'C27')):
    VARIANTS.append(dict(name='eff-' + name, props=list(props), edits=edits, broken=False))


A = 'C23'
broken('sp-nocopy', A, (LS, "    work_graph = graph.copy()\n", "    work_graph = graph\n"))
broken('ds-nocopy', A, (LD, "    graph_copy = graph.copy()\n", "    graph_copy = graph\n"))
broken('sp-copycopy', A, (LS, "import networkx as nx\n\nfrom", "import copy\n\nimport networkx as nx\n\nfrom"), (LS, "    work_graph = graph.copy()\n", "    work_graph = copy.copy(graph)\n"))
broken('sp-view', A, (LS, "    work_graph = graph.copy()\n", "    work_graph = graph.subgraph(graph.nodes)\n"))
broken('sp-asview', A, (LS, "    work_graph = graph.copy()\n", "    work_graph = graph.copy(as_view=True)\n"))
broken('plot-nocopy', A, (PL, "    working_graph = graph.copy()\n", "    working_graph = graph\n"))
broken('plot-wrap', A, (PL, "    working_graph = graph.copy()\n", "    working_graph = graph if not nx.is_frozen(graph) else graph.copy()\n"), (PL, "from .result import NodalPoint, NodalLine\n", "import networkx as nx\n\nfrom .result import NodalPoint, NodalLine\n"))
broken('pos-sort', A, (IR, "    clusters = create_clusters(\n", "    positions.sort(key=tuple)\n    clusters = create_clusters(\n"))
broken('nodes-sort', A, (IR, "    positions = [node.pos for node in result.nodes]\n", "    nodes = result.nodes.values()\n    nodes.sort(key=lambda node: node.value)\n    positions = [node.pos for node in nodes]\n"), (CL, "    def values(self):\n", "    def values(self):\n"))
broken('pos-norm', A, (IR, "    positions = [node.pos for node in result.nodes]\n    coordinate_system = result.coordinate_system\n", "    coordinate_system = result.coordinate_system\n    positions = []\n    for node in result.nodes:\n        node.pos = coordinate_system.normalize_position(node.pos)\n        positions.append(node.pos)\n"))
broken('pos-inplace', A, (IR, "    positions = [node.pos for node in result.nodes]\n", "    positions = [node.pos for node in result.nodes]\n    for pos in positions:\n        pos += 0.\n"))
broken('fs-store', A, (IR, "        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR\n", "        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR\n    result.feature_size = feature_size\n"))
broken('plot-limits', A, (CP, "    axis.set_xlim(*limits[0])\n", "    limits[0] = sorted(limits[0])\n    axis.set_xlim(*limits[0])\n"))
broken('plot-stencil', A, (SP, "    dim = stcl.shape[-1]\n", "    dim = stcl.shape[-1]\n    stcl -= np.mean(stcl, axis=0)\n"))
broken('plot-stencil2', A, (SP, "    vertices = stcl.reshape(-1, dim)\n", "    vertices = stcl.reshape(-1, dim)\n    vertices -= vertices[0]\n"))
broken('plot-settings', A, (SP, "    fig, axis, _ = _setup_plot(result.coordinate_system.limits, axis=axis)\n    for node in nodes:\n", "    fig, axis, _ = _setup_plot(result.coordinate_system.limits, axis=axis)\n    line_settings.setdefault('color', 'C0')\n    for node in nodes:\n"),)
broken('plot-hist', A, (SP, "        for simplex in node.simplex_history:\n", "        node.simplex_history = node.simplex_history[::-1]\n        for simplex in node.simplex_history:\n"))
broken('plot-hist2', A, (SP, "        for simplex in node.simplex_history:\n", "        node.simplex_history.sort(axis=1)\n        for simplex in node.simplex_history:\n"))
broken('plot-pop', A, (SP, "    for node in nodes:\n        for simplex in node.simplex_history:\n", "    while nodes:\n        node = nodes.pop(0)\n        for simplex in node.simplex_history:\n"))
broken('plot-posview', A, (PL, "    coordinates = list(np.array(list(positions)).T)\n", "    coordinates = np.asarray(positions)\n    coordinates -= coordinates.mean(axis=0)\n    coordinates = list(coordinates.T)\n"))
broken('plot-shift', A, (PL, "    coordinates = [[val] for val in shape.position]\n", "    shape.position %= 1\n    coordinates = [[val] for val in shape.position]\n"))
broken('dim-edges', A, (ID, "    positions_to_evaluate = list(graph.nodes)\n", "    graph.remove_nodes_from([n for n in graph.nodes if not graph.degree(n)])\n    positions_to_evaluate = list(graph.nodes)\n"))
broken('eval-frozen', A, (IE, "    try:\n        return _evaluate_line(", "    graph.graph['feature_size'] = feature_size\n    try:\n        return _evaluate_line(") if False else (ID, "    positions_to_evaluate = list(graph.nodes)\n", "    graph.graph['max_dim'] = max_dim\n    positions_to_evaluate = list(graph.nodes)\n"))
broken('save-pop', A, (SH, "    def to_hdf5(self, hdf5_handle):\n", "    def to_hdf5(self, hdf5_handle):\n        self.degree_count.pop(0, None)\n"))
broken('save-sort', A, (IT, "    def __iter__(self):\n", "    def __iter__(self):\n        self.results.sort(key=lambda res: len(res.positions))\n"))
broken('cluster-graph', A, (IC, "    graph = nx.Graph()\n\n    pos_unique", "    while () in positions:\n        positions.remove(())\n    graph = nx.Graph()\n\n    pos_unique"))
broken('name-pop', A, (SH, "        if ", "        self.degree_count.pop(1, None)\n        if ") if False else (SH, "    def __repr__(self):\n", "    def __repr__(self):\n        self.graph.remove_nodes_from([n for n, d in self.graph.degree if d == 0])\n"))

B = 'C27'
broken('limits-sort', B, (CS, "        self.limits = np.array([sorted(x) for x in limits])\n", "        for x in limits:\n            x.sort()\n        self.limits = np.array(limits)\n"))
broken('limits-loop', B, (CO, "        self.dist_cutoff = feature_size", "        for i, lim in enumerate(limits):\n            limits[i] = tuple(lim)\n        self.dist_cutoff = feature_size"))
broken('stencil-inplace', B, (CO, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n", "            refinement_stencil *= self.dist_cutoff\n            self.refinement_stencil = refinement_stencil\n"))
broken('stencil-later', B, (CO, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n", "            self.refinement_stencil = refinement_stencil\n            self.refinement_stencil *= self.dist_cutoff\n"))
broken('stencil-mul', B, (CO, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n", "            self.refinement_stencil = np.multiply(refinement_stencil, self.dist_cutoff, out=refinement_stencil)\n"))
broken('nm-kwargs', B, (MI, "        modified_kwargs = dict(nelder_mead_kwargs)\n", "        modified_kwargs = nelder_mead_kwargs\n"))
broken('nm-default', B, (CO, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )\n",
                        "        nelder_mead_kwargs.setdefault('ftol', 0.05 * gap_threshold)\n        nelder_mead_kwargs.setdefault('xtol', 0.03 * self.dist_cutoff)\n        self.nelder_mead_kwargs = nelder_mead_kwargs\n"))
broken('nm-simplex', B, (NM, "    sim = np.array(initial_simplex, dtype=float)", "    sim = np.asarray(initial_simplex)") if False else (MI, "    if fake_potential is not None:\n        # TODO", "    initial_simplex -= initial_simplex[0] * 0\n    if fake_potential is not None:\n        # TODO"))
broken('state-queue', B, (CO, "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            position_queue = initial_state.position_queue\n"))
broken('state-squeue', B, (CO, "            simplex_queue = SimplexQueue(\n                objects=initial_state.simplex_queue.objects\n            )\n", "            simplex_queue = initial_state.simplex_queue\n"))
broken('state-flag', B, (CO, "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n            initial_state.needs_saving = False\n"))
broken('state-pop', B, (CO, "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            position_queue = PositionQueue()\n            while initial_state.position_queue.has_queued:\n                position_queue.add_objects([initial_state.position_queue.pop_queued()])\n"))
broken('queue-alias', B, (QU, "", "") if False else (CO, "            simplex_queue = SimplexQueue(\n                objects=initial_state.simplex_queue.objects\n            )\n", "            simplex_queue = SimplexQueue()\n            simplex_queue._all_objects = initial_state.simplex_queue._all_objects\n            simplex_queue.add_objects(initial_state.simplex_queue.objects)\n"))
broken('default-list', B, (QU, "    def __init__(self, objects=frozenset()):\n        all_objects", "    def __init__(self, objects=[]):\n        objects.append(0)\n        objects.pop()\n        all_objects"))
broken('default-cache', B, (ME, "def _generate_mesh_simplices(\n    *, limits, mesh_size, periodic=False, skip_origin=False\n):\n", "def _generate_mesh_simplices(\n    *, limits, mesh_size, periodic=False, skip_origin=False, _seen={}\n):\n    _seen[tuple(mesh_size)] = periodic\n"))
broken('module-cache', B, (ST, "def get_circle_stencil(*, num_points):\n", "_STENCILS = {}\n\n\ndef get_circle_stencil(*, num_points):\n"), (ST, "    return res\n\n\ndef get_sphere_stencil", "    return _STENCILS.setdefault(num_points, res)\n\n\ndef get_sphere_stencil"))
broken('module-cache2', B, (CL, "    def _get_neighbour_indices(self, idx):\n", "    def _get_neighbour_indices(self, idx):\n        _SEEN[idx] = self.periodic\n"), (CL, "@export\nclass CellList", "_SEEN = {}\n\n\n@export\nclass CellList"))
broken('class-cache', B, (CL, "        self._neighbour_indices = dict()\n", ""), (CL, "    def __init__(self, num_cells", "    _neighbour_indices = {}\n\n    def __init__(self, num_cells"))
broken('class-list', B, (CO, "        self.task_futures = set()\n", ""), (CO, "    def __init__(\n        self,\n        *,\n        gap_fct,\n", "    task_futures = set()\n\n    def __init__(\n        self,\n        *,\n        gap_fct,\n"))
broken('class-attr', B, (CS, "        self.dim = len(self.limits)\n", "        self.dim = len(self.limits)\n        type(self).default_dim = self.dim\n"))
broken('class-attr2', B, (CS, "        self.dim = len(self.limits)\n", "        self.dim = len(self.limits)\n        CoordinateSystem.default_dim = self.dim\n"))
broken('class-attr3', B, (CS, "        self.dim = len(self.limits)\n", "        self.dim = len(self.limits)\n        self.__class__.default_dim = self.dim\n"))
broken('func-attr', B, (IR, "    results = []\n    for graph in clusters:\n", "    results = []\n    run_from_positions.last = clusters\n    for graph in clusters:\n"))
broken('global-name', B, (IR, "    results = []\n    for graph in clusters:\n", "    results = []\n    global _DIST_CUTOFF_FACTOR\n    _DIST_CUTOFF_FACTOR = feature_size\n    for graph in clusters:\n"))
broken('lookup-pop', B, (LR, "        method_func = _METHOD_FUNC_LOOKUP[method]\n", "        method_func = _METHOD_FUNC_LOOKUP.pop(method)\n"))
broken('seterr', B, (NM, "    sim = np.array(initial_simplex, dtype=float)\n", "    np.seterr(all='ignore')\n    sim = np.array(initial_simplex, dtype=float)\n") if False else (MI, "    if fake_potential is not None:\n        # TODO", "    np.seterr(all='ignore')\n    if fake_potential is not None:\n        # TODO"), (MI, "from fsc.export import export\n", "import numpy as np\nfrom fsc.export import export\n"))
broken('seed', B, (ID, "    positions_to_evaluate = list(graph.nodes)\n", "    random.seed(0)\n    positions_to_evaluate = list(graph.nodes)\n"))
broken('environ', B, (CO, "        self.save_file = save_file\n", "        self.save_file = save_file\n        os.environ['NODEFINDER_SAVE'] = str(save_file)\n"))
broken('rcparams', B, (CP, "    dim = len(limits)\n", "    dim = len(limits)\n    plt.rcParams['axes.grid'] = True\n"))
broken('warn', B, (IE, "        try:\n", "        warnings.simplefilter('ignore')\n        try:\n"))
broken('logger', B, (IR, "    IDENTIFY_LOGGER.debug('Calculating clusters.')\n", "    IDENTIFY_LOGGER.setLevel('DEBUG')\n    IDENTIFY_LOGGER.debug('Calculating clusters.')\n"))
broken('counter', B, (CO, "class Controller:\n", "_NUMBERS = iter(range(10**6))\n\n\nclass Controller:\n") if False else (CO, "        self.task_futures = set()\n", "        self.task_futures = set()\n        self.number = next(_NUMBERS)\n"), (CO, "@export\nclass Controller:\n", "_NUMBERS = iter(range(10**6))\n\n\n@export\nclass Controller:\n"))
broken('lru', B, (ST, "@export\ndef get_auto_stencil", "@functools.lru_cache()\n@export\ndef get_auto_stencil"), (ST, "import numpy as np\n", "import functools\n\nimport numpy as np\n"))
broken('fp-result', B, (FP, "        self.width = width\n", "        self.width = width\n        self.result.dist_cutoff = width\n"))
broken('norm-inplace', B, (CS, "            return ((pos - self._lower_limits) %\n                    self.size) + self._lower_limits\n", "            pos -= self._lower_limits\n            pos %= self.size\n            pos += self._lower_limits\n            return pos\n"))
broken('frac-inplace', B, (CS, "        frac = (pos - self._lower_limits) / self.size\n", "        frac = np.asarray(pos)\n        frac -= self._lower_limits\n        frac = frac / self.size\n"))
broken('kept-limits', B, (CS, "        self.limits = np.array([sorted(x) for x in limits])\n", "        self.limits = np.asarray(limits)\n        self.limits.sort(axis=1)\n"))
broken('run-kwargs', B, (CO, "        self.num_minimize_parallel = num_minimize_parallel\n", "        self.num_minimize_parallel = num_minimize_parallel\n        nelder_mead_kwargs.update(keep_history=True)\n") if False else (CO, "        self.num_minimize_parallel = num_minimize_parallel\n", "        self.num_minimize_parallel = num_minimize_parallel\n        initial_state.result.gap_threshold = gap_threshold\n"))

fine('ok-graph2', (LS, "    work_graph = graph.copy()\n", "    work_graph = nx.Graph(graph)\n"), props=('C27',))
fine('ok-deepcopy', (LS, "import networkx as nx\n\nfrom", "import copy\n\nimport networkx as nx\n\nfrom"), (LS, "    work_graph = graph.copy()\n", "    work_graph = copy.deepcopy(graph)\n"))
fine('ok-sorted', (IR, "    positions = [node.pos for node in result.nodes]\n", "    nodes = sorted(result.nodes, key=lambda node: node.value)\n    positions = [node.pos for node in nodes]\n"))
fine('ok-list-sort', (IR, "    positions = [node.pos for node in result.nodes]\n", "    positions = list(node.pos for node in result.nodes)\n    positions.sort(key=tuple)\n"))
fine('ok-list-sort2', (IR, "    positions = [node.pos for node in result.nodes]\n", "    nodes = list(result.nodes)\n    nodes.sort(key=lambda node: node.value)\n    positions = [node.pos for node in nodes]\n"))
fine('ok-pos-copy', (IR, "    positions = [node.pos for node in result.nodes]\n", "    positions = np.array([node.pos for node in result.nodes])\n    positions += 0.\n"), (IR, "from fsc.export import export\n", "import numpy as np\nfrom fsc.export import export\n"))
fine('ok-append', (IR, "    positions = [node.pos for node in result.nodes]\n", "    positions = []\n    for node in result.nodes:\n        positions.append(node.pos)\n"))
fine('ok-extend', (IR, "    positions = [node.pos for node in result.nodes]\n", "    positions = []\n    positions.extend(node.pos for node in result.nodes)\n"))
fine('ok-helper', (PL, "    working_graph = graph.copy()\n", "    return _split(graph.copy(), feature_size)\n\n\ndef _split(working_graph, feature_size):\n"))
fine('ok-pathhelper', (PL, "            working_graph.remove_edge(curr_node, next_node)\n", "            _remove(working_graph, curr_node, next_node)\n"), (PL, "def _get_next_starting_point(graph):\n", "def _remove(graph, start, end):\n    graph.remove_edge(start, end)\n\n\ndef _get_next_starting_point(graph):\n"))
fine('ok-linecopy', (LR, "        graph=graph,\n        coordinate_system", "        graph=graph.copy(),\n        coordinate_system"), (LS, "    work_graph = graph.copy()\n", "    work_graph = graph\n"), (LD, "    graph_copy = graph.copy()\n", "    graph_copy = graph\n"))
fine('ok-limits', (CS, "        self.limits = np.array([sorted(x) for x in limits])\n", "        self.limits = np.array(limits)\n        self.limits.sort(axis=1)\n"))
fine('ok-limits2', (CS, "        self.limits = np.array([sorted(x) for x in limits])\n", "        limits = [list(x) for x in limits]\n        for x in limits:\n            x.sort()\n        self.limits = np.array(limits)\n"))
fine('ok-limits3', (CS, "        self.limits = np.array([sorted(x) for x in limits])\n", "        ordered = []\n        for low, high in limits:\n            if low > high:\n                low, high = high, low\n            ordered.append((low, high))\n        self.limits = np.array(ordered)\n"))
fine('ok-stencil', (CO, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n", "            stencil = np.array(refinement_stencil)\n            stencil *= self.dist_cutoff\n            self.refinement_stencil = stencil\n"))
fine('ok-stencil2', (CO, "            self.refinement_stencil = refinement_stencil * self.dist_cutoff\n", "            refinement_stencil = refinement_stencil.copy()\n            refinement_stencil *= self.dist_cutoff\n            self.refinement_stencil = refinement_stencil\n"))
fine('ok-nm', (CO, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )\n",
               "        nelder_mead_kwargs = dict(nelder_mead_kwargs)\n        nelder_mead_kwargs.setdefault('ftol', 0.05 * gap_threshold)\n        nelder_mead_kwargs.setdefault('xtol', 0.03 * self.dist_cutoff)\n        self.nelder_mead_kwargs = nelder_mead_kwargs\n"))
fine('ok-nm2', (CO, "        self.nelder_mead_kwargs = ChainMap(\n            nelder_mead_kwargs, {\n                'ftol': 0.05 * gap_threshold,\n                'xtol': 0.03 * self.dist_cutoff\n            }\n        )\n",
                "        kwargs = {'ftol': 0.05 * gap_threshold, 'xtol': 0.03 * self.dist_cutoff}\n        kwargs.update(nelder_mead_kwargs)\n        self.nelder_mead_kwargs = kwargs\n"))
fine('ok-chain', (MI, "        modified_kwargs = dict(nelder_mead_kwargs)\n        modified_kwargs['ftol'] = float('inf')\n", "        modified_kwargs = {**nelder_mead_kwargs, 'ftol': float('inf')}\n"))
fine('ok-norm', (CS, "            return ((pos - self._lower_limits) %\n                    self.size) + self._lower_limits\n", "            res = pos - self._lower_limits\n            res %= self.size\n            res += self._lower_limits\n            return res\n"))
fine('ok-frac', (CS, "        frac = (pos - self._lower_limits) / self.size\n        if self.periodic:\n            frac %= 1\n        return frac\n", "        frac = (np.asarray(pos) - self._lower_limits) / self.size\n        return frac % 1 if self.periodic else frac\n"))
fine('ok-errstate', (MI, "    if fake_potential is not None:\n        # TODO", "    with np.errstate(all='ignore'):\n        np.sqrt(2.)\n    if fake_potential is not None:\n        # TODO"), (MI, "from fsc.export import export\n", "import numpy as np\nfrom fsc.export import export\n"))
fine('ok-rng', (ID, "    positions_to_evaluate = list(graph.nodes)\n", "    rng = random.Random()\n    positions = list(graph.nodes)\n    rng.shuffle(positions)\n"))
fine('ok-class-const', (CO, "    def __init__(\n        self,\n        *,\n        gap_fct,\n", "    _LEVELS = [0.05, 0.03]\n\n    def __init__(\n        self,\n        *,\n        gap_fct,\n"), (CO, "0.05 * gap_threshold", "self._LEVELS[0] * gap_threshold"))
fine('ok-class-default', (CO, "    def __init__(\n        self,\n        *,\n        gap_fct,\n", "    task_futures = set()\n\n    def __init__(\n        self,\n        *,\n        gap_fct,\n"))
fine('ok-settings', (SP, "    fig, axis, _ = _setup_plot(result.coordinate_system.limits, axis=axis)\n    for node in nodes:\n", "    fig, axis, _ = _setup_plot(result.coordinate_system.limits, axis=axis)\n    line_settings = dict(line_settings)\n    line_settings.setdefault('color', 'C0')\n    for node in nodes:\n"))
fine('ok-label', (SP, "    axis.scatter(*coords, c=vals)\n", "    axis.scatter(*coords, c=vals)\n    axis.set_xlabel('x')\n"))
fine('ok-vertices', (SP, "    vertices = stcl.reshape(-1, dim)\n", "    vertices = stcl.reshape(-1, dim).copy()\n    vertices -= 0\n"))
fine('ok-state', (CO, "            position_queue = PositionQueue(\n                objects=initial_state.position_queue.objects\n            )\n", "            queued = list(initial_state.position_queue.objects)\n            queued.reverse()\n            queued.reverse()\n            position_queue = PositionQueue(objects=queued)\n"))
fine('ok-deepstate', (CO, "                    copy.copy(res)\n", "                    copy.deepcopy(res)\n"))
fine('ok-lookup', (LR, "    try:\n        method_func = _METHOD_FUNC_LOOKUP[method]\n    except KeyError:\n", "    method_func = _METHOD_FUNC_LOOKUP.get(method)\n    if method_func is None:\n"))
fine('ok-default', (ME, "def _generate_mesh_simplices(\n    *, limits, mesh_size, periodic=False, skip_origin=False\n):\n", "def _generate_mesh_simplices(\n    *, limits, mesh_size, periodic=False, skip_origin=False, _extra=[]\n):\n    assert not _extra\n"))
fine('ok-default2', (QU, "    def __init__(self, objects=frozenset()):\n        all_objects", "    def __init__(self, objects=[]):\n        all_objects"))
fine('ok-frames', (PL, "    for identification_result in res:\n", "    entries = list(res)\n    while entries:\n        identification_result = entries.pop(0)\n"))
fine('ok-noop', (PL, "    graph = shape.graph\n", "    graph = shape.graph\n    _ = len(graph)\n"), (IR, "    results = []\n    for graph in clusters:\n", "    results = []\n    _ = None\n    for graph in clusters:\n"))
