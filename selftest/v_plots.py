"""Variants for C29 (plots)."""

VARIANTS = []
PL, SP, CP = 'identify/plot.py', 'search/plot.py', '_common_plot.py'


def broken(name, *edits):
    VARIANTS.append(dict(name='plot-' + name, props=['C29'], edits=edits, broken=True))


def fine(name, *edits):
    VARIANTS.append(dict(name='plot-' + name, props=['C29'], edits=edits, broken=False))


# points
LOOP = "    for node in result.nodes:\n        pos = node.pos\n"
broken('skip-first', (SP, LOOP, "    for node in list(result.nodes)[1:]:\n        pos = node.pos\n"))
broken('skip-last', (SP, LOOP, "    for node in list(result.nodes)[:-1]:\n        pos = node.pos\n"))
broken('every-second', (SP, LOOP, "    for node in list(result.nodes)[::2]:\n        pos = node.pos\n"))
broken('swap-xy', (SP, "        x, y, *z = pos\n", "        y, x, *z = pos\n"))
broken('swap-yz', (SP, "        coords = [x_coords, y_coords, z_coords]\n", "        coords = [x_coords, z_coords, y_coords]\n"))
broken('z-is-y', (SP, "            z_coords.append(z[0])\n", "            z_coords.append(y)\n"))
broken('no-colour', (SP, "    axis.scatter(*coords, c=vals)\n", "    axis.scatter(*coords)\n"))
broken('colour-rev', (SP, "    axis.scatter(*coords, c=vals)\n", "    axis.scatter(*coords, c=vals[::-1])\n"))
broken('colour-sorted', (SP, "    axis.scatter(*coords, c=vals)\n", "    axis.scatter(*coords, c=sorted(vals))\n")) if False else None
broken('colour-size', (SP, "    axis.scatter(*coords, c=vals)\n", "    axis.scatter(*coords, s=vals)\n"))
broken('ret-order', (SP, "    axis.scatter(*coords, c=vals)\n    return fig, axis\n", "    axis.scatter(*coords, c=vals)\n    return axis, fig\n"))
broken('ret-fig', (SP, "    axis.scatter(*coords, c=vals)\n    return fig, axis\n", "    axis.scatter(*coords, c=vals)\n    return fig\n"))
broken('ret-none', (SP, "    axis.scatter(*coords, c=vals)\n    return fig, axis\n", "    axis.scatter(*coords, c=vals)\n"))
broken('axis-ignored', (SP, "    fig, axis, is_3d = _setup_plot(result.coordinate_system.limits, axis=axis)\n", "    fig, axis, is_3d = _setup_plot(result.coordinate_system.limits)\n"))
broken('on-plt', (SP, "    axis.scatter(*coords, c=vals)\n", "    import matplotlib.pyplot as plt\n    plt.scatter(*coords, c=vals)\n"))
broken('one-short', (SP, "        vals.append(node.value)\n\n", "        vals.append(node.value)\n    x_coords, y_coords, vals = x_coords[:-1], y_coords[:-1], vals[:-1]\n    if is_3d:\n        z_coords = z_coords[:-1]\n\n"))
# simplices
PAIR = "    for start, end in itertools.combinations(simplex, 2):\n"
broken('chain', (SP, PAIR, "    for start, end in zip(simplex[:-1], simplex[1:]):\n"))
broken('cycle', (SP, PAIR, "    for start, end in zip(simplex, np.roll(simplex, 1, axis=0)):\n"))
broken('spokes', (SP, PAIR, "    for start, end in [(simplex[0], point) for point in simplex[1:]]:\n"))
broken('pairs-3', (SP, PAIR, "    for start, end in itertools.combinations(simplex[:3], 2):\n"))
broken('simplex-noT', (SP, "        values = list(np.array([start, end]).T)\n", "        values = list(np.array([start, end]))\n"))
broken('simplex-scatter', (SP, "        axis.plot(*values, **kwargs)\n", "        axis.scatter(*values, **kwargs)\n"))
broken('hist-last', (SP, "        for simplex in node.simplex_history:\n            _plot_simplex", "        for simplex in node.simplex_history[-1:]:\n            _plot_simplex"))
broken('hist-skip', (SP, "        for simplex in node.simplex_history:\n            _plot_simplex", "        for simplex in node.simplex_history[1:]:\n            _plot_simplex"))
broken('nodes-first', (SP, "    for node in nodes:\n", "    for node in nodes[:1]:\n"))
broken('ret-early', (SP, "            _plot_simplex(axis=axis, simplex=simplex, **line_settings)\n    return fig, axis\n\n\n@export\ndef stencil", "            _plot_simplex(axis=axis, simplex=simplex, **line_settings)\n        return fig, axis\n    return fig, axis\n\n\n@export\ndef stencil"))
broken('nodes-all', (SP, "    for node in nodes:\n", "    for node in nodes or result.nodes:\n")) if False else None
# stencil
broken('stencil-skip', (SP, "    for simplex in stcl:\n", "    for simplex in stcl[1:]:\n"))
broken('stencil-lim', (SP, "    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = list(zip(np.min(stcl[0], axis=0), np.max(stcl[0], axis=0)))\n"))
broken('stencil-lim2', (SP, "    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = list(zip(np.max(vertices, axis=0), np.min(vertices, axis=0)))\n"))
broken('stencil-lim3', (SP, "    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = [(np.min(vertices), np.max(vertices))] * dim\n"))
# common
broken('no-zlim', (CP, "        axis.set_zlim(*limits[2])\n", "        pass\n"))
broken('lim-twice', (CP, "    axis.set_ylim(*limits[1])\n", "    axis.set_ylim(*limits[0])\n"))
broken('lim-order', (CP, "    axis.set_xlim(*limits[0])\n", "    axis.set_xlim(limits[0][1], limits[0][0])\n"))
broken('lim-missing', (CP, "    axis.set_ylim(*limits[1])\n", ""))
broken('proj', (CP, "projection='3d' if is_3d else None", "projection=None if is_3d else '3d'"))
broken('proj-none', (CP, "axis = fig.add_subplot(111, projection='3d' if is_3d else None)", "axis = fig.add_subplot(111)"))
broken('axis-truth', (CP, "    if axis is None:\n", "    if axis is not None:\n"))
broken('axis-always', (CP, "    if axis is None:\n        fig = plt.figure()\n", "    if True:\n        fig = plt.figure()\n"))
# identified results
broken('shape-none', (PL, "        if shape is None:\n", "        if shape is not None:\n            continue\n        if shape is None:\n"))
broken('no-loose', (PL, "        if shape is None:\n            _plot_positions(\n                identification_result.positions, axis=axis, color=color\n            )\n        else:\n", "        if shape is not None:\n"))
broken('res-first', (PL, "    for identification_result in res:\n", "    for identification_result in res.results[:1]:\n"))
broken('res-known', (PL, "    for identification_result in res:\n", "    for identification_result in res:\n        if identification_result.dimension is None:\n            continue\n"))
broken('res-dim2', (PL, "    for identification_result in res:\n", "    for identification_result in res:\n        if identification_result.dimension == 2:\n            continue\n"))
broken('no-fs', (PL, "                shape, axis=axis, color=color, feature_size=feature_size\n", "                shape, axis=axis, color=color, feature_size=None\n"))
broken('loose-slice', (PL, "    coordinates = list(np.array(list(positions)).T)\n    axis.scatter(*coordinates, color=color)\n\n\n@single", "    coordinates = list(np.array(list(positions)[1:]).T)\n    axis.scatter(*coordinates, color=color)\n\n\n@single"))
broken('loose-noT', (PL, "    coordinates = list(np.array(list(positions)).T)\n", "    coordinates = list(np.array(list(positions)))\n"))
broken('loose-mean', (PL, "    coordinates = list(np.array(list(positions)).T)\n", "    coordinates = list(np.mean(list(positions), axis=0))\n"))
broken('loose-xy', (PL, "    coordinates = list(np.array(list(positions)).T)\n", "    coordinates = list(np.array(list(positions)).T)[:2]\n"))
broken('point-rev', (PL, "    coordinates = [[val] for val in shape.position]\n", "    coordinates = [[val] for val in shape.position[::-1]]\n"))
broken('point-2d', (PL, "    coordinates = [[val] for val in shape.position]\n", "    coordinates = [[val] for val in shape.position[:2]]\n"))
broken('unregister', (PL, "@export\n@_plot_result.register(NodalLine)\n", "@export\n"))
broken('unregister-p', (PL, "@_plot_result.register(NodalPoint)\ndef", "def"))
# lines
broken('line-first', (PL, "        for path in paths:\n", "        for path in paths[:1]:\n"))
broken('line-scatter', (PL, "            axis.plot(*np.array(path).T, color=color)", "            axis.scatter(*np.array(path).T, color=color)"))
broken('line-short', (PL, "            axis.plot(*np.array(path).T, color=color)", "            axis.plot(*np.array(path[:-1]).T, color=color)"))
broken('line-ends', (PL, "            axis.plot(*np.array(path).T, color=color)", "            axis.plot(*np.array([path[0], path[-1]]).T, color=color)"))
broken('line-noT', (PL, "            axis.plot(*np.array(path).T, color=color)", "            axis.plot(*np.array(path), color=color)"))
broken('nodes-lost', (PL, "    else:\n        axis.scatter(*np.array(list(graph.nodes)).T, color=color)  # pylint: disable=not-an-iterable\n", ""))
broken('fs-zero', (PL, "        feature_size = np.inf\n", "        feature_size = 0.\n"))
broken('fs-fixed', (PL, "_get_graph_paths(graph, feature_size=feature_size)", "_get_graph_paths(graph, feature_size=np.inf)"))
CUT = "            ) > 2 * feature_size:\n"
broken('cut-inverted', (PL, CUT, "            ) < 2 * feature_size:\n"))
broken('cut-lost', (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n", "                curr_path = [next_node]\n"))
broken('cut-empty', (PL, "                curr_path = [next_node]\n", "                curr_path = []\n"))
broken('cut-none', (PL, "            else:\n                curr_path.append(next_node)\n", "                curr_path.append(next_node)\n")) if False else None
broken('end-lost', (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"))
broken('start-empty', (PL, "        curr_path = [curr_node]\n", "        curr_path = []\n"))
broken('one-component', (PL, "    while working_graph.edges:\n", "    if working_graph.edges:\n"))
broken('rm-node', (PL, "            working_graph.remove_edge(curr_node, next_node)\n", "            working_graph.remove_node(curr_node)\n"))
broken('stuck', (PL, "            curr_node = next_node\n", ""))
broken('not-drawn', (PL, "            else:\n                curr_path.append(next_node)\n", ""))

# fine
fine('noop', (SP, "    vals = []\n", "    vals = []\n    _ = None\n"), (PL, "    paths = []\n", "    paths = []\n    _ = len(paths)\n"), (CP, "    dim = len(limits)\n", "    dim = len(limits)\n    assert dim > 0\n"))
fine('comp', (SP, "    x_coords = []\n    y_coords = []\n    if is_3d:\n        z_coords = []\n    vals = []\n    for node in result.nodes:\n        pos = node.pos\n        x, y, *z = pos\n        x_coords.append(x)\n        y_coords.append(y)\n        if is_3d:\n            z_coords.append(z[0])\n        vals.append(node.value)\n\n    if is_3d:\n        coords = [x_coords, y_coords, z_coords]\n    else:\n        coords = [x_coords, y_coords]\n",
      "    nodes = list(result.nodes)\n    coords = list(zip(*[node.pos for node in nodes]))\n    vals = [node.value for node in nodes]\n"))
fine('array', (SP, "    x_coords = []\n    y_coords = []\n    if is_3d:\n        z_coords = []\n    vals = []\n    for node in result.nodes:\n        pos = node.pos\n        x, y, *z = pos\n        x_coords.append(x)\n        y_coords.append(y)\n        if is_3d:\n            z_coords.append(z[0])\n        vals.append(node.value)\n\n    if is_3d:\n        coords = [x_coords, y_coords, z_coords]\n    else:\n        coords = [x_coords, y_coords]\n",
      "    vals = [node.value for node in result.nodes]\n    coords = np.array([node.pos for node in result.nodes]).T\n"))
fine('array2', (SP, "    x_coords = []\n    y_coords = []\n    if is_3d:\n        z_coords = []\n    vals = []\n    for node in result.nodes:\n        pos = node.pos\n        x, y, *z = pos\n        x_coords.append(x)\n        y_coords.append(y)\n        if is_3d:\n            z_coords.append(z[0])\n        vals.append(node.value)\n\n    if is_3d:\n        coords = [x_coords, y_coords, z_coords]\n    else:\n        coords = [x_coords, y_coords]\n",
      "    vals = np.array([node.value for node in result.nodes])\n    positions = np.array([node.pos for node in result.nodes])\n    coords = [positions[:, i] for i in range(positions.shape[1])]\n"))
fine('dims', (SP, "    x_coords = []\n    y_coords = []\n    if is_3d:\n        z_coords = []\n    vals = []\n    for node in result.nodes:\n        pos = node.pos\n        x, y, *z = pos\n        x_coords.append(x)\n        y_coords.append(y)\n        if is_3d:\n            z_coords.append(z[0])\n        vals.append(node.value)\n\n    if is_3d:\n        coords = [x_coords, y_coords, z_coords]\n    else:\n        coords = [x_coords, y_coords]\n",
      "    coords = [[] for _ in range(3 if is_3d else 2)]\n    vals = []\n    for node in result.nodes:\n        for coord, val in zip(coords, node.pos):\n            coord.append(val)\n        vals.append(node.value)\n"))
fine('rename', (SP, "        x, y, *z = pos\n        x_coords.append(x)\n        y_coords.append(y)\n        if is_3d:\n            z_coords.append(z[0])\n", "        x_coords.append(pos[0])\n        y_coords.append(pos[1])\n        if is_3d:\n            z_coords.append(pos[2])\n"))
fine('helper', (SP, "    axis.scatter(*coords, c=vals)\n    return fig, axis\n", "    _scatter(axis, coords, vals)\n    return fig, axis\n\n\ndef _scatter(axis, coords, vals):\n    axis.scatter(*coords, c=vals)\n"))
fine('pair-loop', (SP, PAIR + "        values = list(np.array([start, end]).T)\n        axis.plot(*values, **kwargs)\n", "    num = len(simplex)\n    for i in range(num):\n        for j in range(i + 1, num):\n            values = np.array([simplex[i], simplex[j]]).T\n            axis.plot(*values, **kwargs)\n"))
fine('pair-zip', (SP, "        values = list(np.array([start, end]).T)\n        axis.plot(*values, **kwargs)\n", "        axis.plot(*zip(start, end), **kwargs)\n"))
fine('pair-comp', (SP, "        values = list(np.array([start, end]).T)\n", "        values = [[a, b] for a, b in zip(start, end)]\n"))
fine('pair-stack', (SP, "        values = list(np.array([start, end]).T)\n", "        values = np.stack([start, end], axis=1)\n"))
fine('hist-flat', (SP, "    for node in nodes:\n        for simplex in node.simplex_history:\n            _plot_simplex(axis=axis, simplex=simplex, **line_settings)\n", "    for simplex in itertools.chain.from_iterable(\n        node.simplex_history for node in nodes\n    ):\n        _plot_simplex(axis=axis, simplex=simplex, **line_settings)\n"))
fine('lim-loop', (CP, "    axis.set_xlim(*limits[0])\n    axis.set_ylim(*limits[1])\n", "    for setter, limit in zip((axis.set_xlim, axis.set_ylim), limits):\n        setter(*limit)\n"))
fine('lim-pair', (CP, "    axis.set_xlim(*limits[0])\n", "    axis.set_xlim(limits[0])\n"))
fine('lim-kw', (CP, "    axis.set_xlim(*limits[0])\n", "    axis.set_xlim(left=limits[0][0], right=limits[0][1])\n"))
fine('proj-if', (CP, "        axis = fig.add_subplot(111, projection='3d' if is_3d else None)\n", "        if is_3d:\n            axis = fig.add_subplot(111, projection='3d')\n        else:\n            axis = fig.add_subplot(111)\n"))
fine('proj-inv', (CP, "projection='3d' if is_3d else None", "projection=None if dim == 2 else '3d'"))
fine('axis-inv', (CP, "    if axis is None:\n        fig = plt.figure()\n        axis = fig.add_subplot(111, projection='3d' if is_3d else None)\n    else:\n        fig = None\n", "    if axis is not None:\n        fig = None\n    else:\n        fig = plt.figure()\n        axis = fig.add_subplot(111, projection='3d' if is_3d else None)\n"))
fine('stencil-lim', (SP, "    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = np.stack([vertices.min(axis=0), vertices.max(axis=0)], axis=-1)\n"))
fine('stencil-lim2', (SP, "    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = [(np.min(col), np.max(col)) for col in vertices.T]\n"))
fine('stencil-lim3', (SP, "    vertices = stcl.reshape(-1, dim)\n    limits = list(zip(np.min(vertices, axis=0), np.max(vertices, axis=0)))\n", "    limits = list(zip(np.min(stcl, axis=(0, 1)), np.max(stcl, axis=(0, 1))))\n"))
fine('res-guard', (PL, "        if shape is None:\n            _plot_positions(\n                identification_result.positions, axis=axis, color=color\n            )\n        else:\n            _plot_result(\n                shape, axis=axis, color=color, feature_size=feature_size\n            )\n", "        if shape is not None:\n            _plot_result(\n                shape, axis=axis, color=color, feature_size=feature_size\n            )\n            continue\n        _plot_positions(\n            identification_result.positions, axis=axis, color=color\n        )\n"))
fine('res-isinst', (PL, "            _plot_result(\n                shape, axis=axis, color=color, feature_size=feature_size\n            )\n", "            if isinstance(shape, NodalPoint):\n                nodal_point(shape, axis=axis, color=color)\n            elif isinstance(shape, NodalLine):\n                nodal_line(\n                    shape, axis=axis, color=color, feature_size=feature_size\n                )\n            else:\n                raise NotImplementedError\n"))
fine('res-results', (PL, "    for identification_result in res:\n", "    for identification_result in res.results:\n"))
fine('res-enum', (PL, "    for identification_result in res:\n        shape = identification_result.shape\n", "    for _, entry in enumerate(res):\n        identification_result = entry\n        shape = identification_result.shape\n"))
fine('loose-zip', (PL, "    coordinates = list(np.array(list(positions)).T)\n", "    coordinates = [list(col) for col in zip(*positions)]\n"))
fine('loose-arr', (PL, "    coordinates = list(np.array(list(positions)).T)\n    axis.scatter(*coordinates, color=color)\n", "    pos_array = np.array(list(positions))\n    axis.scatter(*[pos_array[:, i] for i in range(pos_array.shape[1])], color=color)\n"))
fine('point-star', (PL, "    coordinates = [[val] for val in shape.position]\n    axis.scatter(*coordinates, color=color)\n", "    axis.scatter(*shape.position, color=color)\n"))
fine('point-arr', (PL, "    coordinates = [[val] for val in shape.position]\n", "    coordinates = np.array([shape.position]).T\n"))
fine('line-zip', (PL, "            axis.plot(*np.array(path).T, color=color)", "            axis.plot(*zip(*path), color=color)"))
fine('line-inv', (PL, "    if paths:\n        for path in paths:\n            axis.plot(*np.array(path).T, color=color)  # pylint: disable=not-an-iterable\n    else:\n        axis.scatter(*np.array(list(graph.nodes)).T, color=color)  # pylint: disable=not-an-iterable\n", "    if not paths:\n        axis.scatter(*np.array(list(graph.nodes)).T, color=color)\n        return\n    for path in paths:\n        axis.plot(*np.array(path).T, color=color)\n"))
fine('line-len', (PL, "    if paths:\n        for path", "    if len(paths) > 0:\n        for path"))
fine('cut-flip', (PL, "            if la.norm(\n                np.array(next_node) - np.array(curr_node)\n            ) > 2 * feature_size:\n                paths.append(curr_path)\n                curr_path = [next_node]\n            else:\n                curr_path.append(next_node)\n", "            distance = la.norm(np.array(curr_node) - np.array(next_node))\n            if distance <= 2 * feature_size:\n                curr_path.append(next_node)\n            else:\n                paths.append(curr_path)\n                curr_path = [next_node]\n"))
fine('cut-npnorm', (PL, "            if la.norm(\n", "            if np.linalg.norm(\n"))
fine('cut-helper', (PL, "            if la.norm(\n                np.array(next_node) - np.array(curr_node)\n            ) > 2 * feature_size:\n", "            if _crosses(curr_node, next_node, feature_size):\n"), (PL, "def _get_next_starting_point(graph):\n", "def _crosses(node_a, node_b, feature_size):\n    return la.norm(np.array(node_b) - np.array(node_a)) > 2 * feature_size\n\n\ndef _get_next_starting_point(graph):\n"))
fine('end-after', (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"), (PL, "            curr_node = next_node\n    return paths\n", "            curr_node = next_node\n        paths.append(curr_path)\n    return paths\n"))
fine('end-len', (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                if len(curr_path) > 1:\n                    paths.append(curr_path)\n                break\n"))
fine('cut-len', (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n", "                if len(curr_path) > 1:\n                    paths.append(curr_path)\n                curr_path = [next_node]\n"))
fine('inner-cond', (PL, "        while True:\n            try:\n                next_node = next(working_graph.neighbors(curr_node))\n            except StopIteration:\n                paths.append(curr_path)\n                break\n", "        while working_graph.degree(curr_node) > 0:\n            next_node = next(working_graph.neighbors(curr_node))\n"), (PL, "            curr_node = next_node\n    return paths\n", "            curr_node = next_node\n        paths.append(curr_path)\n    return paths\n"))
fine('inner-list', (PL, "            try:\n                next_node = next(working_graph.neighbors(curr_node))\n            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            neighbors = list(working_graph.neighbors(curr_node))\n            if not neighbors:\n                paths.append(curr_path)\n                break\n            next_node = neighbors[0]\n"))
fine('inner-default', (PL, "            try:\n                next_node = next(working_graph.neighbors(curr_node))\n            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            next_node = next(working_graph.neighbors(curr_node), None)\n            if next_node is None:\n                paths.append(curr_path)\n                break\n"))
fine('stored-first', (PL, "        curr_path = [curr_node]\n", "        curr_path = [curr_node]\n        paths.append(curr_path)\n"), (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"), (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n", "                curr_path = [next_node]\n                paths.append(curr_path)\n"))
fine('last-of', (PL, "        curr_path = [curr_node]\n", "        paths.append([curr_node])\n"), (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"), (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n            else:\n                curr_path.append(next_node)\n", "                paths.append([next_node])\n            else:\n                paths[-1].append(next_node)\n"))
fine('outer-num', (PL, "    while working_graph.edges:\n", "    while working_graph.number_of_edges() > 0:\n"))
fine('order', (PL, "            working_graph.remove_edge(curr_node, next_node)\n            curr_node = next_node\n", "            previous, curr_node = curr_node, next_node\n            working_graph.remove_edge(previous, curr_node)\n"))
fine('remove-first', (PL, "            if la.norm(\n", "            working_graph.remove_edge(curr_node, next_node)\n            if la.norm(\n"), (PL, "            working_graph.remove_edge(curr_node, next_node)\n            curr_node = next_node\n", "            curr_node = next_node\n"))
fine('trail', (PL, "        key=lambda val: val[1] if val[1] != 2 else float('inf')\n    )[0]\n", "        key=lambda val: val[1] if val[1] != 2 else float('inf')\n    )[0]\n# the end\n"))
fine('rebind', (PL, "                curr_path.append(next_node)\n", "                curr_path = curr_path + [next_node]\n"))
fine('rebind2', (PL, "                curr_path.append(next_node)\n", "                curr_path += [next_node]\n"))
fine('early-len', (PL, "        curr_path = [curr_node]\n", "        curr_path = [curr_node]\n        paths.append(curr_path)\n"), (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"), (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n", "                curr_path = []\n                paths.append(curr_path)\n                curr_path.append(next_node)\n"))
broken('early-lost', (PL, "        curr_path = [curr_node]\n", "        curr_path = [curr_node]\n        paths.append(curr_path)\n"), (PL, "            except StopIteration:\n                paths.append(curr_path)\n                break\n", "            except StopIteration:\n                break\n"), (PL, "                paths.append(curr_path)\n                curr_path = [next_node]\n", "                curr_path = [next_node]\n"))
