"""Variants for C25 (the vote on the dimension of a cluster)."""

VARIANTS = []
D = 'identify/_dimension.py'


def broken(name, *edits):
    VARIANTS.append(dict(name='dim-' + name, props=['C25'], edits=edits, broken=True))


def fine(name, *edits):
    VARIANTS.append(dict(name='dim-' + name, props=['C25'], edits=edits, broken=False))


GUARD = "        if min_pos_evaluations is not None and i >= min_pos_evaluations:\n"
LOOP = """    for i, pos in enumerate(positions_to_evaluate):
        if min_pos_evaluations is not None and i >= min_pos_evaluations:
            finished, dim = _check_count(dim_counter)
            if finished:
                return dim
        dim_counter.update([
            _get_dimension(
                pos,
                coordinate_system=coordinate_system,
                graph=graph,
                feature_size=feature_size,
                max_dim=max_dim,
                min_neighbour_evaluations=min_neighbour_evaluations
            )
        ])
"""
CHECK = """    dim, count = counter.most_common(1)[0]
    if count >= (2 / 3) * sum(counter.values()):
        return True, dim
    else:
        return False, dim
"""
END = """    finished, dim = _check_count(dim_counter)
    if not finished:
        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))
        return None
    return dim
"""
EST = """    for dim in range(1, max_dim + 1):
        if not _has_dimension(
            pos=pos,
            graph=graph,
            coordinate_system=coordinate_system,
            dim=dim,
            min_neighbour_evaluations=min_neighbour_evaluations,
            feature_size=feature_size
        ):
            return dim - 1
    return max_dim
"""
BOXG = "    if len(pos) < dim:\n        return 0\n"
VOLG = "    if len(svd) < len(neighbour_tuple):\n        return 0\n"
THR = "count >= (2 / 3) * sum(counter.values())"

broken('half', (D, THR, "count >= 0.5 * sum(counter.values())"))
broken('strict', (D, THR, "count > (2 / 3) * sum(counter.values())"))
broken('tenths', (D, THR, "count >= 0.66 * sum(counter.values())"))
broken('floor', (D, THR, "count >= (2 * sum(counter.values())) // 3"))
broken('round', (D, THR, "count >= round(2 / 3 * sum(counter.values()))"))
broken('others', (D, THR, "count >= 2 * max([v for k, v in counter.items() if k != dim] or [0])"))
broken('distinct', (D, THR, "count >= (2 / 3) * len(counter)"))
broken('least', (D, "counter.most_common(1)[0]", "counter.most_common()[-1]"))
broken('first-label', (D, "    dim, count = counter.most_common(1)[0]\n", "    dim, count = next(iter(counter.items()))\n"))
broken('max-label', (D, "    dim, count = counter.most_common(1)[0]\n", "    count = max(counter.values())\n    dim = max(counter)\n"))
broken('early', (D, GUARD, GUARD.replace("i >= min", "i + 1 >= min")))
broken('start1', (D, "enumerate(positions_to_evaluate)", "enumerate(positions_to_evaluate, 1)"))
broken('min-none', (D, GUARD, "        if min_pos_evaluations is None or i >= min_pos_evaluations:\n            if i == 0:\n                pass\n"))
broken('no-min', (D, GUARD, "        if i > 0:\n"))
broken('min-max', (D, GUARD, GUARD.replace('i >= min_pos_evaluations', 'i and i >= min(min_pos_evaluations, max_dim)')))
broken('no-zero', (D, 'sum(counter.values())', 'sum(n for d, n in counter.items() if d)'))
broken('no-warning', (D, "        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))\n", ""))
broken('warn-some', (D, "        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))\n", "        if min_pos_evaluations is None:\n            warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))\n"))
broken('ignore-inconclusive', (D, "        return None\n    return dim\n", "    return dim\n"))
broken('give-up', (D, """            if finished:
                return dim
""", """            if finished:
                return dim
            if i >= 4 * min_pos_evaluations:
                return dim
"""))
broken('give-up-none', (D, """            if finished:
                return dim
""", """            return dim if finished else 1
"""))
broken('choices', (D, "        random.shuffle(positions_to_evaluate)\n", "        positions_to_evaluate = random.choices(positions_to_evaluate, k=len(positions_to_evaluate))\n"))
broken('choice', (D, "                pos,\n                coordinate_system=coordinate_system,\n                graph=graph,", "                random.choice(positions_to_evaluate),\n                coordinate_system=coordinate_system,\n                graph=graph,"))
broken('first', (D, "                pos,\n                coordinate_system=coordinate_system,\n                graph=graph,", "                positions_to_evaluate[0],\n                coordinate_system=coordinate_system,\n                graph=graph,"))
broken('twice', (D, "list(graph.nodes)\n", "list(graph.nodes) * 2\n"))
fine('range2', (D, "range(1, max_dim + 1)", "range(1, max_dim + 2)"))
broken('dim', (D, "            return dim - 1\n    return max_dim", "            return dim\n    return max_dim"))
broken('max1', (D, "            return dim - 1\n    return max_dim", "            return dim - 1\n    return max_dim + 1"))
broken('max-wrong', (D, "range(1, max_dim + 1)", "range(1, max_dim)"))
broken('has-lower', (D, "            dim=dim,\n            min_neigh", "            dim=dim - 1,\n            min_neigh"))
broken('max-handed', (D, "                max_dim=max_dim,\n", "                max_dim=max_dim + 1,\n"))
broken('guards', (D, BOXG, ""), (D, VOLG, ""))
broken('stale', (D, LOOP, """    for i, pos in enumerate(positions_to_evaluate):
        finished = False
        if min_pos_evaluations is not None and i >= min_pos_evaluations:
            finished, dim = _check_count(dim_counter)
        dim_counter.update([
            _get_dimension(
                pos,
                coordinate_system=coordinate_system,
                graph=graph,
                feature_size=feature_size,
                max_dim=max_dim,
                min_neighbour_evaluations=min_neighbour_evaluations
            )
        ])
        if finished:
            return dim
"""))
broken('break-value', (D, LOOP, LOOP.replace("                return dim\n", "                break\n").replace("i >= min", "i >= 1 or min")))

fine('volume-guard-only', (D, BOXG, ""))
fine('box-guard-only', (D, VOLG, ""))
fine('thirds', (D, THR, "3 * count >= 2 * sum(counter.values())"))
fine('ratio', (D, THR, "count / sum(counter.values()) >= 2 / 3"))
fine('total', (D, CHECK, """    total = counter.total()
    dim, count = counter.most_common(1)[0]
    return 3 * count >= 2 * total, dim
"""))
fine('max-key', (D, CHECK, """    dim = max(counter, key=counter.get)
    return 3 * counter[dim] >= 2 * sum(counter.values()), dim
"""))
fine('max-value', (D, CHECK, """    count = max(counter.values())
    total = sum(counter.values())
    for dim, number in counter.items():
        if number == count:
            break
    return 3 * count >= 2 * total, dim
"""))
fine('any-majority', (D, CHECK, """    total = sum(counter.values())
    for dim, number in counter.items():
        if 3 * number >= 2 * total:
            return True, dim
    return False, None
"""))
fine('optional', (D, CHECK, """    dim, count = counter.most_common(1)[0]
    if count < (2 / 3) * sum(counter.values()):
        return None
    return dim
"""), (D, "            finished, dim = _check_count(dim_counter)\n            if finished:\n", "            dim = _check_count(dim_counter)\n            if dim is not None:\n"),
    (D, END, """    dim = _check_count(dim_counter)
    if dim is None:
        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))
    return dim
"""))
fine('inline', (D, "            finished, dim = _check_count(dim_counter)\n            if finished:\n                return dim\n", """            dim, count = dim_counter.most_common(1)[0]
            if count >= (2 / 3) * i:
                return dim
"""))
fine('list', (D, "    dim_counter = Counter()\n", "    dims = []\n"), (D, "_check_count(dim_counter)\n            if", "_check_count(Counter(dims))\n            if"),
     (D, "        dim_counter.update([\n            _get_dimension(", "        dims.append(\n            _get_dimension("), (D, "            )\n        ])\n", "            )\n        )\n"),
     (D, "    finished, dim = _check_count(dim_counter)\n    if not finished:\n        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))", "    finished, dim = _check_count(Counter(dims))\n    if not finished:\n        warnings.warn('Inconclusive dimension count: {}'.format(Counter(dims)))"))
fine('list-len', (D, "    dim_counter = Counter()\n", "    dims = []\n"), (D, GUARD, GUARD.replace("i >= min", "len(dims) >= min")), (D, "_check_count(dim_counter)\n            if", "_check_count(Counter(dims))\n            if"),
     (D, "        dim_counter.update([\n            _get_dimension(", "        dims.append(\n            _get_dimension("), (D, "            )\n        ])\n", "            )\n        )\n"),
     (D, "    finished, dim = _check_count(dim_counter)\n    if not finished:\n        warnings.warn('Inconclusive dimension count: {}'.format(dim_counter))", "    finished, dim = _check_count(Counter(dims))\n    if not finished:\n        warnings.warn('Inconclusive dimension count: {}'.format(Counter(dims)))"))
fine('add', (D, LOOP, LOOP.replace("        dim_counter.update([\n            _get_dimension(", "        dim_counter[\n            _get_dimension(").replace("        ])\n", "        ] += 1\n")))
fine('name', (D, LOOP, LOOP.replace("        dim_counter.update([\n            _get_dimension(", "        estimate = (\n            _get_dimension(").replace("        ])\n", "        )\n        dim_counter[estimate] += 1\n")))
fine('vote-first', (D, LOOP, """    for i, pos in enumerate(positions_to_evaluate, start=1):
        dim_counter.update([
            _get_dimension(
                pos,
                coordinate_system=coordinate_system,
                graph=graph,
                feature_size=feature_size,
                max_dim=max_dim,
                min_neighbour_evaluations=min_neighbour_evaluations
            )
        ])
        if min_pos_evaluations is None or i < min_pos_evaluations:
            continue
        finished, dim = _check_count(dim_counter)
        if finished:
            return dim
"""))
fine('break', (D, LOOP, LOOP.replace("                return dim\n", "                break\n")))
fine('sample', (D, "        random.shuffle(positions_to_evaluate)\n", "        positions_to_evaluate = random.sample(positions_to_evaluate, k=len(positions_to_evaluate))\n"))
fine('later', (D, GUARD, GUARD.replace("i >= min", "i > min")))
fine('nested-if', (D, """            if finished:
                return dim
""", """            if not finished:
                pass
            else:
                return dim
"""))
fine('helper-vote', (D, LOOP, """    def vote(position):
        return _get_dimension(
            position,
            coordinate_system=coordinate_system,
            graph=graph,
            feature_size=feature_size,
            max_dim=max_dim,
            min_neighbour_evaluations=min_neighbour_evaluations
        )

    for i, pos in enumerate(positions_to_evaluate):
        if min_pos_evaluations is not None and i >= min_pos_evaluations:
            finished, dim = _check_count(dim_counter)
            if finished:
                return dim
        dim_counter.update([vote(pos)])
"""))
fine('est-zero', (D, EST, EST.replace("range(1, max_dim + 1)", "range(max_dim)").replace("dim=dim,", "dim=dim + 1,").replace("return dim - 1", "return dim")))
fine('est-while', (D, EST, """    dim = 0
    while dim < max_dim and _has_dimension(
        pos=pos,
        graph=graph,
        coordinate_system=coordinate_system,
        dim=dim + 1,
        min_neighbour_evaluations=min_neighbour_evaluations,
        feature_size=feature_size
    ):
        dim += 1
    return dim
"""))
fine('est-break', (D, EST, """    best = 0
    for dim in range(1, max_dim + 1):
        if not _has_dimension(
            pos=pos,
            graph=graph,
            coordinate_system=coordinate_system,
            dim=dim,
            min_neighbour_evaluations=min_neighbour_evaluations,
            feature_size=feature_size
        ):
            break
        best = dim
    return best
"""))
fine('est-else', (D, EST, EST.replace("            return dim - 1\n    return max_dim\n", "            break\n    else:\n        return max_dim\n    return dim - 1\n")))
fine('est-continue', (D, EST, EST.replace("if not _has", "if _has").replace("            return dim - 1\n", "            continue\n        return dim - 1\n")))
fine('has-raise', (D, BOXG, "    if dim > len(pos):\n        return False\n"))
fine('svd-sub', (D, "    svd = la.svd(mat, compute_uv=False)\n    if len(svd) < len(neighbour_tuple):\n        return 0\n    return", "    if mat.shape[0] > mat.shape[1]:\n        return 0\n    svd = la.svd(mat, compute_uv=False)\n    return"), (D, BOXG, ""))
