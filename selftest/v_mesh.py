MH = 'search/_mesh_helper.py'
CO = 'search/_controller.py'
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


B = ['C30']
LIN = "np.linspace(lower, upper, m, endpoint=not periodic)"
ZIP = "for (lower, upper), m in zip(limits, mesh_size)"
DIST = "    simplex_distances = size / (2 * np.array(mesh_size))\n"
STEN = "    simplex_stencil = np.zeros(shape=(dim + 1, dim))\n    for i, dist in enumerate(simplex_distances):\n        simplex_stencil[i + 1][i] = dist\n"
RET = "    return [v + simplex_stencil for v in vertices]\n"
VERT = "    vertices = list(\n        itertools.product(\n            *[\n                np.linspace(lower, upper, m, endpoint=not periodic)\n                for (lower, upper), m in zip(limits, mesh_size)\n            ]\n        )\n    )\n"
SKIP = "    if skip_origin:\n        vertices = [v for v in vertices if not np.allclose(v, 0)]\n"
broken('ax-end', B, (MH, LIN, "np.linspace(lower, upper, m, endpoint=True)"))
broken('ax-noend', B, (MH, LIN, "np.linspace(lower, upper, m, endpoint=False)"))
broken('ax-inv', B, (MH, LIN, "np.linspace(lower, upper, m, endpoint=periodic)"))
broken('ax-num', B, (MH, LIN, "np.linspace(lower, upper, m + 1, endpoint=not periodic)"))
broken('ax-zero', B, (MH, LIN, "np.linspace(0, upper, m, endpoint=not periodic)"))
broken('ax-unit', B, (MH, LIN, "np.linspace(0, upper - lower, m, endpoint=not periodic)"))
broken('ax-cut', B, (MH, LIN, "np.linspace(lower, upper, m)[:m]", 'all'), (MH, "[:m]", "[:-1]"))
broken('ax-default', B, (MH, LIN, "np.linspace(lower, upper, m)"))
broken('ax-per', B, (CO, "periodic=self.coordinate_system.periodic", "periodic=not self.coordinate_system.periodic"))
broken('gr-first', B, (MH, "enumerate(simplex_distances):", "enumerate(simplex_distances[:-1]):"))
broken('gr-vert', B, (MH, RET, "    return [v + simplex_stencil for v in vertices[:-1]]\n"))
broken('gr-vert1', B, (MH, RET, "    return [v + simplex_stencil for v in vertices[1:]]\n"))
broken('gr-skip', B, (MH, "skip_origin=False", "skip_origin=True"))
broken('gr-zero', B, (MH, RET, "    return [v + simplex_stencil for v in vertices if np.any(v)]\n"))
broken('gr-cut', B, (CO, "            periodic=self.coordinate_system.periodic\n        )", "            periodic=self.coordinate_system.periodic\n        )[1:]"))
broken('gr-noneg', B, (MH, RET, "    res = []\n    for v in vertices:\n        if np.allclose(v, 0):\n            continue\n        res.append(v + simplex_stencil)\n    return res\n"))
broken('si-full', B, (MH, "(2 * np.array(mesh_size))", "np.array(mesh_size)"))
broken('si-one', B, (MH, "(2 * np.array(mesh_size))", "(2 * np.array(mesh_size) - 1)"))
broken('si-nosize', B, (MH, "size / (2", "1 / (2"))
broken('si-row', B, (MH, "simplex_stencil[i + 1][i] = dist", "simplex_stencil[i + 1][i - 1] = dist"))
broken('si-next', B, (MH, "enumerate(simplex_distances):\n        simplex_stencil[i + 1][i] = dist", "enumerate(simplex_distances, 1):\n        simplex_stencil[i][i - 2] = dist"))
broken('si-cond', B, (MH, "        simplex_stencil[i + 1][i] = dist", "        if dist < 1:\n            simplex_stencil[i + 1][i] = dist"))
broken('si-none', B, (MH, "        simplex_stencil[i + 1][i] = dist", "        pass"))
broken('si-minus', B, (MH, RET, "    return [simplex_stencil - v for v in vertices]\n"))
broken('si-limits', B, (MH, "upper - lower for lower, upper", "upper for lower, upper"))
broken('si-max', B, (MH, "(2 * np.array(mesh_size))", "(2 * max(mesh_size))"))
broken('si-size0', B, (MH, "size / (2", "size[0] / (2"))
broken('si-min', B, (MH, "size / (2", "np.min(size) / (2"))
broken('ax-m0', B, (MH, LIN, "np.linspace(lower, upper, mesh_size[0], endpoint=not periodic)"))
broken('ax-rev', B, (MH, ZIP, ZIP.replace("mesh_size)", "mesh_size[::-1])")))
broken('si-sort', B, (MH, "enumerate(simplex_distances)", "enumerate(sorted(simplex_distances))"))
fine('ax-cases', B, (MH, LIN, "(np.linspace(lower, upper, m + 1)[:-1] if periodic else np.linspace(lower, upper, m))"))
fine('ax-arange', B, (MH, LIN, "lower + np.arange(m) * (upper - lower) / (m if periodic else m - 1)"))
fine('ax-list', B, (MH, VERT, "    axes = []\n    for (lower, upper), m in zip(limits, mesh_size):\n        axes.append(np.linspace(lower, upper, num=m, endpoint=not periodic))\n    vertices = list(itertools.product(*axes))\n"))
fine('ax-index', B, (MH, ZIP, "for (lower, upper), m in [(limits[i], mesh_size[i]) for i in range(dim)]"))
fine('ax-index2', B, (MH, LIN + "\n                " + ZIP, "np.linspace(limits[i][0], limits[i][1], mesh_size[i], endpoint=not periodic)\n                for i in range(dim)"))
fine('gr-lazy', B, (MH, "    vertices = list(\n        itertools", "    vertices = (\n        itertools"))
fine('gr-loop', B, (MH, RET, "    res = []\n    for v in vertices:\n        res.append(np.array(v) + simplex_stencil)\n    return res\n"))
fine('gr-add', B, (MH, RET, "    return [np.add(simplex_stencil, vertex) for vertex in vertices]\n"))
fine('gr-helper', B, (MH, RET, "    return _attach(vertices, simplex_stencil)\n\n\ndef _attach(points, stencil):\n    return [stencil + p for p in points]\n"))
fine('gr-gen', B, (MH, RET, "    return list(_attach(vertices, simplex_stencil))\n\n\ndef _attach(points, stencil):\n    for p in points:\n        yield stencil + p\n"))
fine('gr-skipfirst', B, (MH, SKIP, "    if skip_origin:\n        kept = []\n        for v in vertices:\n            if np.allclose(v, 0):\n                continue\n            kept.append(v)\n        vertices = kept\n"))
fine('gr-map', B, (MH, RET, "    return list(map(lambda v: v + simplex_stencil, vertices))\n"))
fine('si-half', B, (MH, DIST, "    simplex_distances = 0.5 * size / np.array(mesh_size)\n"))
fine('si-np', B, (MH, DIST, "    simplex_distances = np.divide(size, 2 * np.asarray(mesh_size))\n"))
fine('si-comp', B, (MH, DIST, "    simplex_distances = [(upper - lower) / (2 * m) for (lower, upper), m in zip(limits, mesh_size)]\n"))
fine('si-tuple', B, (MH, "simplex_stencil[i + 1][i] = dist", "simplex_stencil[i + 1, i] = dist"))
fine('si-range', B, (MH, "    for i, dist in enumerate(simplex_distances):\n        simplex_stencil[i + 1][i] = dist\n", "    for i in range(dim):\n        simplex_stencil[i + 1, i] = simplex_distances[i]\n"))
fine('si-start', B, (MH, "    for i, dist in enumerate(simplex_distances):\n        simplex_stencil[i + 1][i] = dist\n", "    for i, dist in enumerate(simplex_distances, 1):\n        simplex_stencil[i, i - 1] = dist\n"))
fine('si-diag', B, (MH, STEN, "    simplex_stencil = np.vstack([np.zeros(dim), np.diag(simplex_distances)])\n"))
fine('si-eye', B, (MH, STEN, "    simplex_stencil = np.eye(dim + 1, dim, k=-1) * simplex_distances\n"))
fine('si-rows', B, (MH, STEN, "    simplex_stencil = np.zeros(shape=(dim + 1, dim))\n    simplex_stencil[1:] = np.diag(simplex_distances)\n"))
fine('si-last', B, (MH, "simplex_stencil[i + 1][i] = dist", "simplex_stencil[i][i] = dist"))
fine('si-size', B, (MH, "    size = np.array([upper - lower for lower, upper in limits])\n", "    bounds = np.array(limits)\n    size = bounds[:, 1] - bounds[:, 0]\n"))
