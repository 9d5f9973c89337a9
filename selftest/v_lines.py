D = 'identify/_evaluate/_line/'
BA = D + '_ballistic.py'
SP = D + '_shortest_path.py'
DS = D + '_dominating_set.py'
RU = D + '_run.py'
SH = 'identify/result/_shapes.py'
VARIANTS = []


def broken(name, *edits):
    VARIANTS.append(dict(name=name, props=['C24'], edits=edits, broken=True))


def fine(name, *edits):
    VARIANTS.append(dict(name=name, props=['C24'], edits=edits, broken=False))


ADD = "            self.result_graph.add_edge(node, new_node)\n"
# ballistic: links that are not links of the cluster
broken('ln-start', (BA, ADD, "            self.result_graph.add_edge(starting_node, new_node)\n"))
broken('ln-skip', (BA, ADD, ADD + "            if previous_node is not None:\n                self.result_graph.add_edge(previous_node, new_node)\n            previous_node = node\n"), (BA, "        on_graph = False\n        while True:", "        on_graph = False\n        previous_node = None\n        while True:"))
broken('ln-stale', (BA, "            self.result_graph.add_edge(node, new_node)\n            node = new_node\n", "            self.result_graph.add_edge(node, new_node)\n            if not on_graph:\n                node = new_node\n"), (BA, "                node=node,\n                previous_direction=previous_direction,", "                node=last,\n                previous_direction=previous_direction,"), (BA, "        node = starting_node\n", "        node = starting_node\n        last = starting_node\n"), (BA, "            previous_direction = new_direction\n", "            previous_direction = new_direction\n            last = new_node\n"))
broken('ln-close', (BA, "                if on_graph:\n", "                if on_graph:\n                    self.result_graph.add_edge(starting_node, node)\n"))
broken('ln-round', (BA, ADD, "            self.result_graph.add_edge(node, tuple(np.round(new_node, 8)))\n"))
broken('ln-mean', (BA, ADD, "            new_node = tuple((np.array(node) + np.array(new_node)) / 2)\n" + ADD))
broken('ln-frame', (BA, "        self.result_graph.add_node(node)\n", "        self.result_graph.add_node(tuple(self.coordinate_system.get_frac(np.array(node))))\n"))
broken('ln-anycand', (BA, "        idx = positive_angle_idx[np.argmax(weights)]\n        chosen_candidate = neighbors[idx]\n", "        idx = positive_angle_idx[np.argmax(weights)]\n        chosen_candidate = list(self.graph.nodes)[idx]\n"))
broken('ln-nbr2', (BA, "        neighbors_all = list(self.graph.neighbors(node))\n", "        neighbors_all = [n2 for n1 in self.graph.neighbors(node) for n2 in self.graph.neighbors(n1)]\n"))
# shortest path
Z = "                edges = list(zip(path, path[1:]))\n"
broken('ln-skip2', (SP, Z, "                edges = list(zip(path, path[2:]))\n"), (SP, "                    work_graph.edges[edge][_WEIGHT_KEY] = 0\n                    tmp_graph.edges[edge][_WEIGHT_KEY] = 0\n", "                    pass\n"))
broken('ln-cycle', (SP, "                result_graph.add_edges_from(edges)\n", "                result_graph.add_edges_from(edges)\n                result_graph.add_edge(path[0], path[-1])\n"))
broken('ln-sp-close', (SP, "                result_graph.add_edges_from(edges)\n", "                nx.add_cycle(result_graph, path)\n"))
broken('ln-first', (SP, "    return result_graph\n\n\ndef _update_high", "    if len(result_graph) > 2:\n        result_graph.add_edge(first_pos, end_pos)\n    return result_graph\n\n\ndef _update_high"))
broken('ln-sp-nocatch', (SP, "                try:\n                    path = nx.algorithms.shortest_path(\n                        tmp_graph,\n                        source=start_pos,\n                        target=end_pos,\n                        weight=_WEIGHT_KEY,\n                    )\n                except nx.NetworkXNoPath:\n                    break\n", "                path = nx.algorithms.shortest_path(\n                    tmp_graph,\n                    source=start_pos,\n                    target=end_pos,\n                    weight=_WEIGHT_KEY,\n                )\n"))
broken('ln-sp-arg', (SP, "            _update_neighbour_weights(node, graph=graph, multiplier=0.5)\n", "            _update_neighbour_weights(node, graph, factor=0.5)\n"))
# dominating set
broken('ln-direct', (DS, "            _patch_subgraph_hole(\n                subgraph=subgraph, graph=graph, start=start, end=end\n            )\n", "            subgraph.add_edge(start, end)\n"))
broken('ln-ds-skip', (DS, "zip(shortest_path[:-1], shortest_path[1:])", "zip(shortest_path[:-2], shortest_path[2:])"), (DS, "add_edge(*edge, **graph.edges[edge])", "add_edge(*edge)"))
broken('ln-ds-inf', (DS, "    except nx.NetworkXNoPath:\n        return float('inf')\n", "    except nx.NodeNotFound:\n        return float('inf')\n"))
# dispatch
broken('ln-default', (RU, "    try:\n        method_func = _METHOD_FUNC_LOOKUP[method]\n    except KeyError:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n", "    method_func = _METHOD_FUNC_LOOKUP.get(method, _evaluate_line_ballistic)\n"))
broken('ln-catchdef', (RU, "        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n", "        method_func = _evaluate_line_ballistic\n"))
broken('ln-swap', (RU, "    shortest_path=_evaluate_line_shortest_path,\n    dominating_set=_evaluate_line_dominating_set,\n", "    shortest_path=_evaluate_line_dominating_set,\n    dominating_set=_evaluate_line_shortest_path,\n"))
broken('ln-key', (RU, "    dominating_set=_evaluate_line", "    dominating_sets=_evaluate_line"))
broken('ln-kwarg', (SP, "    coordinate_system,  # pylint: disable=unused-argument\n", ""))
# degree counts
broken('ln-deg-graph', (RU, "degree_count=_create_degree_count(result_graph)", "degree_count=_create_degree_count(graph)"))
broken('ln-deg1', (RU, "degree_counter.pop(2, None)", "degree_counter.pop(1, None)"))
broken('ln-degno', (RU, "    degree_counter.pop(2, None)\n", ""))
broken('ln-degset', (RU, "Counter([val for pos, val in graph.degree])", "Counter({val for pos, val in graph.degree})"))
broken('ln-degw', (RU, "Counter([val for pos, val in graph.degree])", "Counter([val for pos, val in graph.degree(weight='_weight')])"))
broken('ln-deg0', (RU, "    degree_counter.pop(2, None)\n", "    degree_counter.pop(2, None)\n    degree_counter.pop(0, None)\n"))
broken('ln-deg3', (RU, "Counter([val for pos, val in graph.degree])", "Counter([min(val, 3) for pos, val in graph.degree])"))
# names
broken('ln-nm-3', (SH, "            ((1, 2), ): 'OPEN LINE',\n", "            ((1, 2), ): 'OPEN LINE',\n            ((3, 2), ): 'OPEN LINE',\n"))
broken('ln-nm-4', (SH, "            ((1, 2), ): 'OPEN LINE',\n", "            ((1, 2), ): 'OPEN LINE',\n            ((4, 1), ): 'CLOSED LOOP',\n"))
broken('ln-nm-dflt', (SH, "tuple(sorted(self.degree_count.items())), 'UNKNOWN'", "tuple(sorted(self.degree_count.items())), 'OPEN LINE'"))
broken('ln-nm-keys', (SH, "            ((1, 2), ): 'OPEN LINE',\n        }\n        return shape_lookup.get(\n            tuple(sorted(self.degree_count.items())), 'UNKNOWN'\n        )\n", "            (1, ): 'OPEN LINE',\n        }\n        return shape_lookup.get(\n            tuple(sorted(self.degree_count)), 'UNKNOWN'\n        )\n"))
broken('ln-nm-one', (SH, "        return shape_lookup.get(\n", "        if self.degree_count.get(1, 0) == 2:\n            return 'OPEN LINE'\n        return shape_lookup.get(\n"))

# the same behaviour, written differently
fine('lf-noop', (BA, ADD, ADD + "            _ = None\n"), (SP, Z, Z + "                pass\n"), (DS, "    patch_cutoff = 1.001\n", "    patch_cutoff = 1.001\n    assert True\n"))
fine('lf-addpath', (SP, Z, Z + "                pass\n"), (SP, "                result_graph.add_edges_from(edges)\n", "                nx.add_path(result_graph, path)\n"))
fine('lf-pairwise', (SP, Z, "                edges = [(path[i], path[i + 1]) for i in range(len(path) - 1)]\n"))
fine('lf-edgeloop', (SP, "                result_graph.add_edges_from(edges)\n                for edge in edges:\n", "                for edge in edges:\n                    result_graph.add_edge(*edge)\n"))
fine('lf-edgeloop2', (SP, "                result_graph.add_edges_from(edges)\n                for edge in edges:\n", "                for start, end in edges:\n                    result_graph.add_edge(start, end)\n                for edge in edges:\n"))
fine('lf-short-helper', (SP, "                edges = list(zip(path, path[1:]))\n                result_graph.add_edges_from(edges)\n", "                edges = _add_to_result(result_graph, path)\n"), (SP, "def _update_high_degree_nodes(", "def _add_to_result(result_graph, path):\n    edges = list(zip(path[:-1], path[1:]))\n    result_graph.add_edges_from(edges)\n    return edges\n\n\ndef _update_high_degree_nodes(", ))
fine('lf-shortpath-helper', (SP, "                    path = nx.algorithms.shortest_path(\n                        tmp_graph,\n                        source=start_pos,\n                        target=end_pos,\n                        weight=_WEIGHT_KEY,\n                    )\n", "                    path = _get_path(tmp_graph, start_pos, end_pos)\n"), (SP, "def _update_high_degree_nodes(", "def _get_path(graph, start, end):\n    return nx.shortest_path(graph, start, end, weight=_WEIGHT_KEY)\n\n\ndef _update_high_degree_nodes("))
fine('lf-hasedge', (BA, ADD, "            if self.graph.has_edge(node, new_node):\n                self.result_graph.add_edge(node, new_node)\n"))
fine('lf-addedges', (BA, ADD, "            self.result_graph.add_edges_from([(node, new_node)])\n"))
fine('lf-flip', (BA, ADD, "            self.result_graph.add_edge(new_node, node)\n"))
fine('lf-local', (BA, ADD, "            graph = self.result_graph\n            graph.add_edge(node, new_node)\n"))
fine('lf-method', (BA, ADD, "            self._link(node, new_node)\n"), (BA, "    def get_next_pos(", "    def _link(self, start, end):\n        self.result_graph.add_edge(start, end)\n\n    def get_next_pos("))
fine('lf-direct-nbrs', (BA, "        chosen_candidate = neighbors[idx]\n", "        chosen_candidate = candidate_nodes[np.argmax(weights)]\n"))
fine('lf-comp', (BA, "            if delta_norm > 0:\n                neighbors.append(nbr)\n                unit_vecs.append(delta / delta_norm)\n", "            if delta_norm > 0:\n                unit_vecs.append(delta / delta_norm)\n"), (BA, "        neighbors = []\n", "        neighbors = [\n            nbr for nbr, norm in zip(neighbors_all, delta_norms_all) if norm > 0\n        ]\n"))
fine('lf-invert', (BA, "            if delta_norm > 0:\n                neighbors.append(nbr)\n                unit_vecs.append(delta / delta_norm)\n", "            if not delta_norm > 0:\n                continue\n            neighbors.append(nbr)\n            unit_vecs.append(delta / delta_norm)\n"))
fine('lf-return', (BA, "    runner.run()\n    return runner.result_graph\n", "    runner.run()\n    result = runner.result_graph\n    return result\n"))
fine('lf-ongraph', (BA, "            if new_node in self.result_graph:\n                if on_graph:\n                    IDENTIFY_LOGGER.debug(\n                        \"Loop search finished -- reached existing result nodes.\"\n                    )\n                    break\n                on_graph = True\n            else:\n                on_graph = False\n", "            was_on_graph = on_graph\n            on_graph = new_node in self.result_graph\n            if on_graph and was_on_graph:\n                break\n"))
fine('lf-func', (BA, "        self.result_graph.add_node(node)\n", "        if node not in self.result_graph:\n            self.result_graph.add_node(node)\n"))
fine('lf-names', (BA, "                node = new_end_nodes.pop()\n                nbr = next(self.result_graph.neighbors(node))\n", "                node = next(iter(new_end_nodes))\n                nbr = next(iter(self.result_graph[node]))\n"))
fine('lf-ds-path', (DS, "    for node in shortest_path[1:-1]:\n        subgraph.add_node(node)\n    for edge in zip(shortest_path[:-1], shortest_path[1:]):\n        subgraph.add_edge(*edge, **graph.edges[edge])\n", "    for first, second in zip(shortest_path, shortest_path[1:]):\n        subgraph.add_edge(first, second, **graph.edges[(first, second)])\n"))
fine('lf-ds-loop', (DS, "    for edge in zip(shortest_path[:-1], shortest_path[1:]):\n        subgraph.add_edge(*edge, **graph.edges[edge])\n", "    for i in range(1, len(shortest_path)):\n        edge = (shortest_path[i - 1], shortest_path[i])\n        subgraph.add_edge(*edge, **graph.edges[edge])\n"))
fine('lf-ds-prev', (DS, "    for edge in zip(shortest_path[:-1], shortest_path[1:]):\n        subgraph.add_edge(*edge, **graph.edges[edge])\n", "    previous = shortest_path[0]\n    for current in shortest_path[1:]:\n        subgraph.add_edge(previous, current, **graph.edges[(previous, current)])\n        previous = current\n"))
fine('lf-ds-has', (DS, "    try:\n        return nx.algorithms.shortest_path_length(\n            graph, start, end, weight=weight\n        )\n    except nx.NetworkXNoPath:\n        return float('inf')\n", "    if not nx.has_path(graph, start, end):\n        return float('inf')\n    return nx.algorithms.shortest_path_length(\n        graph, start, end, weight=weight\n    )\n"))
fine('lf-ds-ret', (DS, "    except nx.NetworkXNoPath:\n        return float('inf')\n", "    except nx.NetworkXException:\n        return np.inf\n"))
fine('lf-ds-inline', (DS, "            start, end = edge\n            _patch_subgraph_hole(\n                subgraph=subgraph, graph=graph, start=start, end=end\n            )\n", "            _patch_subgraph_hole(\n                subgraph=subgraph, graph=graph, start=edge[0], end=edge[1]\n            )\n"))
fine('lf-ds-edges', (DS, "    for edge in graph_copy.edges:\n        edge_attrs = graph_copy.edges[edge]\n", "    for start, end, edge_attrs in graph_copy.edges(data=True):\n        edge = (start, end)\n"))
fine('lf-ds-dup', (DS, "    for *edge, _ in sorted(\n        subgraph.edges(data=_WEIGHT_KEY), key=lambda e: -e[2]\n    ):\n        shortest_path = nx.algorithms.shortest_path(\n            subgraph, *edge, weight=_WEIGHT_KEY\n        )\n", "    edges = sorted(\n        subgraph.edges(data=_WEIGHT_KEY), key=lambda e: e[2], reverse=True\n    )\n    for edge in [(e[0], e[1]) for e in edges]:\n        shortest_path = nx.shortest_path(\n            subgraph, *edge, weight=_WEIGHT_KEY\n        )\n"))
fine('lf-if', (RU, "    try:\n        method_func = _METHOD_FUNC_LOOKUP[method]\n    except KeyError:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n", "    if method not in _METHOD_FUNC_LOOKUP:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n    method_func = _METHOD_FUNC_LOOKUP[method]\n"))
fine('lf-get', (RU, "    try:\n        method_func = _METHOD_FUNC_LOOKUP[method]\n    except KeyError:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n", "    method_func = _METHOD_FUNC_LOOKUP.get(method)\n    if method_func is None:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n"))
fine('lf-chain', (RU, "    try:\n        method_func = _METHOD_FUNC_LOOKUP[method]\n    except KeyError:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n", "    if method == 'shortest_path':\n        method_func = _evaluate_line_shortest_path\n    elif method == 'dominating_set':\n        method_func = _evaluate_line_dominating_set\n    elif method == 'ballistic':\n        method_func = _evaluate_line_ballistic\n    else:\n        raise ValueError(\"Invalid value for 'method': {}\".format(method))\n"))
fine('lf-dict', (RU, "dict(\n    shortest_path=_evaluate_line_shortest_path,\n    dominating_set=_evaluate_line_dominating_set,\n    ballistic=_evaluate_line_ballistic\n)", "{\n    'shortest_path': _evaluate_line_shortest_path,\n    'dominating_set': _evaluate_line_dominating_set,\n    'ballistic': _evaluate_line_ballistic,\n}"))
fine('lf-deg-comp', (RU, "    degree_counter = Counter([val for pos, val in graph.degree])\n    degree_counter.pop(2, None)\n    return degree_counter\n", "    return Counter(deg for _, deg in graph.degree if deg != 2)\n"))
fine('lf-deg-del', (RU, "    degree_counter.pop(2, None)\n", "    if 2 in degree_counter:\n        del degree_counter[2]\n"))
fine('lf-deg-dict', (RU, "Counter([val for pos, val in graph.degree])", "Counter(dict(graph.degree).values())"))
fine('lf-deg-call', (RU, "Counter([val for pos, val in graph.degree])", "Counter(graph.degree(node) for node in graph.nodes)"))
fine('lf-deg-loop', (RU, "    degree_counter = Counter([val for pos, val in graph.degree])\n    degree_counter.pop(2, None)\n", "    degree_counter = Counter()\n    for _, degree in graph.degree():\n        if degree != 2:\n            degree_counter[degree] += 1\n"))
fine('lf-nm-if', (SH, "        shape_lookup = {\n            tuple(): 'CLOSED LOOP',\n            ((1, 2), ): 'OPEN LINE',\n        }\n        return shape_lookup.get(\n            tuple(sorted(self.degree_count.items())), 'UNKNOWN'\n        )\n", "        if not self.degree_count:\n            return 'CLOSED LOOP'\n        if dict(self.degree_count) == {1: 2}:\n            return 'OPEN LINE'\n        return 'UNKNOWN'\n"))
fine('lf-nm-len', (SH, "        shape_lookup = {\n            tuple(): 'CLOSED LOOP',\n            ((1, 2), ): 'OPEN LINE',\n        }\n        return shape_lookup.get(\n            tuple(sorted(self.degree_count.items())), 'UNKNOWN'\n        )\n", "        if len(self.degree_count) == 0:\n            return 'CLOSED LOOP'\n        if len(self.degree_count) == 1 and self.degree_count.get(1) == 2:\n            return 'OPEN LINE'\n        return 'UNKNOWN'\n"))
fine('lf-nm-key', (SH, "        return shape_lookup.get(\n            tuple(sorted(self.degree_count.items())), 'UNKNOWN'\n        )\n", "        key = tuple(sorted(self.degree_count.items()))\n        if key in shape_lookup:\n            return shape_lookup[key]\n        return 'UNKNOWN'\n"))
fine('lf-ds-elem', (DS, "    for edge, dist_original in to_patch:\n", "    for pair in to_patch:\n        edge = pair.edge\n        dist_original = pair.dist_original\n"))
fine('lf-ds-tuple', (DS, "    pair_to_patch = namedtuple('pair_to_patch', ['edge', 'dist_original'])\n", ""), (DS, "                        pair_to_patch(\n                            edge=(pos1, pos2), dist_original=dist_original\n                        )\n", "                        ((pos1, pos2), dist_original)\n"), (DS, "operator.attrgetter('dist_original')", "operator.itemgetter(1)"))
fine('lf-ds-edgeok', (DS, "            start, end = edge\n", "            start, end = edge\n            if graph.has_edge(start, end):\n                subgraph.add_edge(start, end, **graph.edges[(start, end)])\n                continue\n"))
fine('lf-sp-cand', (SP, "        end_pos = candidate_positions.pop()\n", "        end_pos = next(iter(candidate_positions))\n        candidate_positions.remove(end_pos)\n"))
fine('lf-cls-fn', (BA, "        self.result_graph = nx.Graph()\n", "        self.result_graph = nx.Graph()\n        self.result_graph.add_nodes_from([])\n"))
fine('lf-for', (BA, "        while True:\n            new_node", "        for _ in itertools.count():\n            new_node"), (BA, "import numpy as np\n", "import itertools\n\nimport numpy as np\n"))
fine('lf-whilecond', (BA, "            if new_node is None:\n", "            if not (new_node is not None):\n"))
fine('lf-addnodes', (SP, "    result_graph.add_node(first_pos)\n", "    result_graph.add_nodes_from([first_pos])\n"))
