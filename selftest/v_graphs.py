C = 'identify/_cluster.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C21']
UN = "    pos_unique = list(set(tuple(pos) for pos in positions))\n"
LOOP = """    for i, (pos, pos_arr) in enumerate(zip(pos_unique[:-1], pos_unique_array)):
        offset = i + 1
        candidates = pos_unique_array[offset:]
        distances = coordinate_system.distance(pos_arr, candidates)
        for idx in np.flatnonzero(distances <= feature_size):
            nbr = pos_unique[idx + offset]
            dist = distances[idx]
            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})
"""
RET = """    return [
        nx.freeze(graph.subgraph(nodes).copy())
        for nodes in nx.algorithms.connected_components(graph)
    ]
"""
broken('li-lt', B, (C, "distances <= feature_size", "distances < feature_size"))
broken('li-twice', B, (C, "distances <= feature_size", "distances <= 2 * feature_size"))
broken('li-half', B, (C, "distances <= feature_size", "2 * distances <= feature_size") if False else (C, "distances <= feature_size", "distances <= feature_size / 2"))
broken('li-gt', B, (C, "distances <= feature_size", "distances >= feature_size"))
broken('li-all', B, (C, "np.flatnonzero(distances <= feature_size)", "range(len(candidates))"))
broken('li-norm', B, (C, "coordinate_system.distance(pos_arr, candidates)", "np.linalg.norm(candidates - pos_arr, axis=-1)"))
broken('li-first', B, (C, "coordinate_system.distance(pos_arr, candidates)", "coordinate_system.distance(pos_unique_array[0], candidates)"))
broken('li-shift', B, (C, "pos_unique[idx + offset]", "pos_unique[idx + i]"))
broken('li-noshift', B, (C, "pos_unique[idx + offset]", "pos_unique[idx]"))
broken('pa-two', B, (C, "pos_unique[:-1]", "pos_unique[:-2]"))
broken('pa-start', B, (C, "enumerate(zip(pos_unique[:-1], pos_unique_array))", "enumerate(zip(pos_unique[1:], pos_unique_array[1:]), 1)"))
broken('pa-off', B, (C, "offset = i + 1", "offset = i + 2"))
broken('pa-window', B, (C, "pos_unique_array[offset:]", "pos_unique_array[offset:offset + 100]"))
broken('pa-cand', B, (C, "pos_unique_array[offset:]", "pos_unique_array[offset:-1]"))
broken('pa-comb', B, (C, LOOP, "    for p, q in zip(pos_unique, pos_unique[1:]):\n        dist = coordinate_system.distance(np.array(p), np.array(q))\n        if dist <= feature_size:\n            graph.add_edge(p, q, **{_DISTANCE_KEY: dist})\n"))
broken('pa-range', B, (C, LOOP, "    num = len(pos_unique)\n    for i in range(1, num):\n        for j in range(i + 1, num):\n            dist = coordinate_system.distance(pos_unique_array[i], pos_unique_array[j])\n            if dist <= feature_size:\n                graph.add_edge(pos_unique[i], pos_unique[j], **{_DISTANCE_KEY: dist})\n"))
broken('pa-break', B, (C, LOOP, "    num = len(pos_unique)\n    for i in range(num):\n        for j in range(i + 1, num):\n            dist = coordinate_system.distance(pos_unique_array[i], pos_unique_array[j])\n            if dist > feature_size:\n                break\n            graph.add_edge(pos_unique[i], pos_unique[j], **{_DISTANCE_KEY: dist})\n"))
broken('pa-break2', B, (C, "            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})\n", "            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})\n            break\n"))
broken('di-other', B, (C, "dist = distances[idx]", "dist = distances[0]"))
broken('di-none', B, (C, "graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})", "graph.add_edge(pos, nbr)"))
broken('di-off', B, (C, "dist = distances[idx]", "dist = distances[idx - 1]"))
broken('no-missing', B, (C, "    graph.add_nodes_from(pos_unique)\n", ""))
broken('no-round', B, (C, "set(tuple(pos) for pos in positions)", "set(tuple(np.round(pos, 6)) for pos in positions)"))
broken('no-round2', B, (C, "set(tuple(pos) for pos in positions)", "set(tuple(round(x, 8) for x in pos) for pos in positions)"))
broken('no-slice', B, (C, "for pos in positions)", "for pos in positions[1:])"))
broken('no-cond', B, (C, "for pos in positions)", "for pos in positions if np.all(np.isfinite(pos)))"))
broken('no-iso', B, (C, "    return graph\n", "    graph.remove_nodes_from(list(nx.isolates(graph)))\n    return graph\n"))
broken('cl-small', B, (C, "in nx.algorithms.connected_components(graph)\n", "in nx.algorithms.connected_components(graph) if len(nodes) > 1\n"))
broken('cl-bi', B, (C, "nx.algorithms.connected_components", "nx.algorithms.biconnected_components"))
broken('cl-loop', B, (C, RET, "    res = []\n    for nodes in nx.algorithms.connected_components(graph):\n        if len(nodes) < 2:\n            continue\n        res.append(graph.subgraph(nodes).copy())\n    return res\n"))
broken('cl-cut', B, (C, "in nx.algorithms.connected_components(graph)\n", "in list(nx.algorithms.connected_components(graph))[:50]\n"))

fine('comb', B, (C, LOOP, "    import itertools\n    for p, q in itertools.combinations(pos_unique, 2):\n        dist = coordinate_system.distance(np.array(p), np.array(q))\n        if dist <= feature_size:\n            graph.add_edge(p, q, **{_DISTANCE_KEY: dist})\n"))
fine('range', B, (C, LOOP, "    num = len(pos_unique)\n    for i in range(num):\n        for j in range(i + 1, num):\n            dist = coordinate_system.distance(pos_unique_array[i], pos_unique_array[j])\n            if dist > feature_size:\n                continue\n            graph.add_edge(pos_unique[i], pos_unique[j], **{_DISTANCE_KEY: dist})\n"))
fine('range-j', B, (C, LOOP, "    num = len(pos_unique)\n    for i in range(num):\n        for j in range(i):\n            dist = coordinate_system.distance(pos_unique_array[i], pos_unique_array[j])\n            if feature_size >= dist:\n                graph.add_edge(pos_unique[j], pos_unique[i], **{_DISTANCE_KEY: dist})\n"))
fine('full', B, (C, LOOP, "    for p in pos_unique:\n        for q in pos_unique:\n            if p == q:\n                continue\n            dist = coordinate_system.distance(np.array(p), np.array(q))\n            if dist <= feature_size:\n                graph.add_edge(p, q, **{_DISTANCE_KEY: dist})\n"))
fine('fullrow', B, (C, LOOP, "    for i, pos in enumerate(pos_unique):\n        distances = coordinate_system.distance(pos_unique_array[i], pos_unique_array)\n        for j in np.where(distances <= feature_size)[0]:\n            if j > i:\n                graph.add_edge(pos, pos_unique[j], **{_DISTANCE_KEY: distances[j]})\n"))
fine('zip', B, (C, LOOP, "    for i, pos in enumerate(pos_unique):\n        rest = pos_unique[i + 1:]\n        if not rest:\n            break\n        distances = coordinate_system.distance(np.array(pos), np.array(rest))\n        for nbr, dist in zip(rest, distances):\n            if dist <= feature_size:\n                graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})\n"))
fine('start', B, (C, LOOP, "    for offset, (pos, pos_arr) in enumerate(zip(pos_unique[:-1], pos_unique_array), 1):\n        distances = coordinate_system.distance(pos_arr, pos_unique_array[offset:])\n        for idx in np.flatnonzero(feature_size >= distances):\n            graph.add_edge(pos, pos_unique[offset + idx], **{_DISTANCE_KEY: distances[idx]})\n"))
fine('edges', B, (C, LOOP, "    import itertools\n    graph.add_edges_from(\n        (p, q, {_DISTANCE_KEY: coordinate_system.distance(np.array(p), np.array(q))})\n        for p, q in itertools.combinations(pos_unique, 2)\n        if coordinate_system.distance(np.array(p), np.array(q)) <= feature_size\n    )\n"))
fine('weighted', B, (C, LOOP, "    import itertools\n    for p, q in itertools.combinations(pos_unique, 2):\n        dist = coordinate_system.distance(np.array(p), np.array(q))\n        if not dist > feature_size:\n            graph.add_weighted_edges_from([(p, q, dist)], weight=_DISTANCE_KEY)\n"))
fine('helper', B, (C, "        distances = coordinate_system.distance(pos_arr, candidates)\n        for idx in np.flatnonzero(distances <= feature_size):\n            nbr = pos_unique[idx + offset]\n            dist = distances[idx]\n            graph.add_edge(pos, nbr, **{_DISTANCE_KEY: dist})\n    return graph\n", "        distances = coordinate_system.distance(pos_arr, candidates)\n        _link(graph, pos, pos_unique[offset:], distances, feature_size)\n    return graph\n\n\ndef _link(graph, pos, others, distances, limit):\n    for idx in np.flatnonzero(distances <= limit):\n        graph.add_edge(pos, others[idx], **{_DISTANCE_KEY: distances[idx]})\n"))
fine('fromkeys', B, (C, UN, "    pos_unique = list(dict.fromkeys(tuple(pos) for pos in positions))\n"))
fine('sorted', B, (C, UN, "    pos_unique = sorted({tuple(pos) for pos in positions})\n"))
fine('map', B, (C, UN, "    pos_unique = list(set(map(tuple, positions)))\n"))
fine('seen', B, (C, UN, "    pos_unique = []\n    seen = set()\n    for pos in positions:\n        key = tuple(pos)\n        if key not in seen:\n            seen.add(key)\n            pos_unique.append(key)\n"))
fine('nodes-loop', B, (C, "    graph.add_nodes_from(pos_unique)\n", "    for pos in pos_unique:\n        graph.add_node(pos)\n"))
fine('ret-loop', B, (C, RET, "    clusters = []\n    for nodes in nx.connected_components(graph):\n        cluster = graph.subgraph(nodes).copy()\n        nx.freeze(cluster)\n        clusters.append(cluster)\n    return clusters\n"))
fine('ret-gen', B, (C, RET, "    components = nx.connected_components(graph)\n    return [_cluster(graph, nodes) for nodes in components]\n\n\ndef _cluster(graph, nodes):\n    return nx.freeze(nx.Graph(graph.subgraph(nodes)))\n"))
fine('ret-sorted', B, (C, "nx.algorithms.connected_components(graph)\n", "sorted(nx.connected_components(graph), key=len, reverse=True)\n"))
fine('early', B, (C, "    graph = nx.Graph()\n\n", "    graph = nx.Graph()\n    if not len(positions):\n        return graph\n\n"))
fine('rename', B, (C, "pos_unique_array", "coords", 'all'), (C, "candidates", "others", 'all'))
fine('noop', B, (C, "        offset = i + 1\n", "        _ = None\n        offset = 1 + i\n"))
