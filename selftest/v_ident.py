"""C22: identification entries, options, shapes."""
VARIANTS = []


def broken(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=True))


def fine(name, props, *edits):
    VARIANTS.append(dict(name=name, props=props, edits=edits, broken=False))


R = 'identify/_run.py'
E = 'identify/_evaluate/_run.py'
P = 'identify/_evaluate/_point.py'
C = 'identify/result/_containers.py'
LOOP = '''    for graph in clusters:
        IDENTIFY_LOGGER.debug('Calculating cluster dimension.')
'''
RES = '''        res = IdentificationResult(
            positions=list(graph.nodes),
            dimension=dim,
            shape=evaluate_cluster(
                graph=graph,
                dim=dim,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            )
        )
        results.append(res)
'''
DIM = '''        dim = calculate_dimension(
            graph=graph,
            coordinate_system=coordinate_system,
            feature_size=feature_size
        )
'''
LOG = '''        IDENTIFY_LOGGER.debug(
            'Evaluating result with dimension {}.'.format(dim)
        )
'''
DEF = '''    if feature_size is None:
        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
'''
STATE = '''    if isinstance(result, ControllerState):
        result = result.result
'''
POS = "    positions = [node.pos for node in result.nodes]\n"
EV = '''    if dim == 0:
        return _evaluate_point(
            positions=list(graph.nodes), coordinate_system=coordinate_system
        )
    elif dim == 1:
        try:
            return _evaluate_line(
                graph=graph,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                method=evaluate_line_method,
            )
        except (IndexError, ValueError) as exc:
            warnings.warn('Could not identify line: {}'.format(exc))
    else:
        return None
'''
CL = ['C22']
broken('id-skip-none', CL, (R, LOG, LOG + "        if dim is None:\n            continue\n"))
broken('id-skip-small', CL, (R, LOOP, LOOP + "        if len(graph.nodes) < 3:\n            continue\n"))
broken('id-skip-single', CL, (R, LOOP, LOOP + "        if len(graph) == 1:\n            continue\n"))
broken('id-skip-first', CL, (R, '    for graph in clusters:', '    for graph in clusters[1:]:'))
broken('id-break', CL, (R, '        results.append(res)\n', '        results.append(res)\n        if dim is None:\n            break\n'))
broken('id-append-if', CL, (R, '        results.append(res)\n', '        if res.shape is not None:\n            results.append(res)\n'))
broken('id-posdims', CL, (R, '        results.append(res)\n', '        if dim:\n            results.append(res)\n'))
broken('id-pos-partial', CL, (R, 'positions=list(graph.nodes),', 'positions=list(graph.nodes)[:100],'))
broken('id-pos-edges', CL, (R, 'positions=list(graph.nodes),', 'positions=[e[0] for e in graph.edges],'))
broken('id-pos-all', CL, (R, 'positions=list(graph.nodes),', 'positions=positions,'))
broken('id-pos-ends', CL, (R, 'positions=list(graph.nodes),', 'positions=[p for p in graph.nodes if graph.degree(p) > 0],'))
broken('id-dim-twice', CL, (R, 'dim=dim,\n', '''dim=calculate_dimension(
                    graph=graph,
                    coordinate_system=coordinate_system,
                    feature_size=feature_size
                ),
'''))
broken('id-dim-fixed', CL, (R, 'dim=dim,\n', 'dim=1,\n'))
broken('id-dim-or', CL, (R, 'dimension=dim,', 'dimension=0,'))
broken('id-shape-none', CL, (R, '''            shape=evaluate_cluster(
                graph=graph,
                dim=dim,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            )
''', ''))
broken('id-method-dropped', CL, (R, '''                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            )''', '''                feature_size=feature_size
            )'''))
broken('id-method-run', CL, (R, '''        feature_size=feature_size,
        evaluate_line_method=evaluate_line_method,
    )''', '''        feature_size=feature_size,
    )'''))
broken('id-size-cluster', CL, (R, '''        positions,
        coordinate_system=coordinate_system,
        feature_size=feature_size
''', '''        positions,
        coordinate_system=coordinate_system,
        feature_size=2 * feature_size
'''))
broken('id-size-cont', CL, (R, '''    return IdentificationResultContainer(
        coordinate_system=coordinate_system,
        feature_size=feature_size,
''', '''    return IdentificationResultContainer(
        coordinate_system=coordinate_system,
        feature_size=None,
'''))
broken('id-default-cut', CL, (R, 'result.dist_cutoff * _DIST_CUTOFF_FACTOR', 'result.dist_cutoff'))
broken('id-default-2', CL, (R, 'result.dist_cutoff * _DIST_CUTOFF_FACTOR', 'result.dist_cutoff * 2'))
broken('id-default-always', CL, (R, DEF, '    feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR\n'))
broken('id-default-or', CL, (R, DEF, '    feature_size = feature_size or result.dist_cutoff * _DIST_CUTOFF_FACTOR\n'))
broken('id-default-max', CL, (R, DEF, DEF + '    else:\n        feature_size = result.dist_cutoff\n'))
broken('id-nodes-slice', CL, (R, 'for node in result.nodes]', 'for node in list(result.nodes)[1:]]'))
broken('id-nodes-filter', CL, (R, 'for node in result.nodes]', 'for node in result.nodes if node.success]'))
broken('id-nodes-value', CL, (R, 'for node in result.nodes]', 'for node in result.nodes if node.value < 1e-9]'))
broken('id-rejected', CL, (R, 'for node in result.nodes]', 'for node in result.minimization_results]'))
broken('id-rej2', CL, (R, 'for node in result.nodes]', 'for node in result.rejected_results]'))
broken('id-state-dropped', CL, (R, STATE, ''))
broken('id-ev-all', CL, (E, '    elif dim == 1:', '    elif dim:'))
broken('id-ev-le', CL, (E, '    elif dim == 1:', '    elif dim is not None and dim <= 2:'))
broken('id-ev-not', CL, (E, '    if dim == 0:', '    if not dim:'))
broken('id-ev-none-line', CL, (E, '    elif dim == 1:', '    elif dim == 1 and len(graph.nodes) > 2:'))
broken('id-ev-swap', CL, (E, '    if dim == 0:', '    if dim == 2:'))
broken('id-ev-method', CL, (E, '                method=evaluate_line_method,\n', "                method='ballistic',\n"))
broken('id-ev-raise', CL, (E, '''    else:
        return None
''', '''    else:
        raise NotImplementedError(dim)
'''))
broken('id-pt-first', CL, (P, 'average([np.array(pos) for pos in positions])', 'average([np.array(pos) for pos in positions][:2])'))
broken('id-pt-ends', CL, (E, 'positions=list(graph.nodes), coordinate_system', 'positions=list(graph.nodes)[1:], coordinate_system'))
broken('id-cont-results', CL, (C, '        self.results = results\n', '        self.results = results[:50]\n'))
broken('id-ires-positions', CL, (C, 'self.positions = [tuple(pos) for pos in positions]', 'self.positions = [tuple(pos) for pos in positions[1:]]'))
broken('id-ires-dim', CL, (C, '        self.dimension = dimension\n', '        self.dimension = dimension or None\n'))

fine('id-f-comp', CL, (R, '    results = []\n' + LOOP + DIM + LOG + RES, '''    def entry(graph):
        dim = calculate_dimension(
            graph=graph,
            coordinate_system=coordinate_system,
            feature_size=feature_size
        )
        shape = evaluate_cluster(
            graph,
            dim,
            coordinate_system,
            feature_size,
            evaluate_line_method,
        )
        return IdentificationResult(
            positions=list(graph), dimension=dim, shape=shape
        )

    results = [entry(cluster) for cluster in clusters]
'''))
fine('id-f-inline', CL, (R, RES, '''        shape = evaluate_cluster(
            graph=graph,
            dim=dim,
            coordinate_system=coordinate_system,
            feature_size=feature_size,
            evaluate_line_method=evaluate_line_method
        )
        positions_here = [pos for pos in graph.nodes]
        results += [IdentificationResult(positions_here, dim, shape)]
'''))
fine('id-f-helper', CL, (R, RES, '''        results.append(
            _entry(
                graph, dim,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                evaluate_line_method=evaluate_line_method
            )
        )
'''), (R, '@export\ndef run_from_positions(', '''def _entry(graph, dim, **kwargs):
    """One entry."""
    return IdentificationResult(
        positions=graph.nodes,
        dimension=dim,
        shape=evaluate_cluster(graph=graph, dim=dim, **kwargs)
    )


@export
def run_from_positions('''))
fine('id-f-default', CL, (R, DEF, '''    if feature_size is not None:
        size = feature_size
    else:
        size = _DIST_CUTOFF_FACTOR * result.dist_cutoff
'''), (R, '''        coordinate_system=coordinate_system,
        feature_size=feature_size,
        evaluate_line_method=evaluate_line_method,
    )''', '''        coordinate_system=result.coordinate_system,
        feature_size=size,
        evaluate_line_method=evaluate_line_method,
    )'''))
fine('id-f-ternary', CL, (R, STATE, '    result = result.result if isinstance(result, ControllerState) else result\n'))
fine('id-f-while', CL, (R, POS, '''    positions = []
    for node in result.nodes:
        positions.append(node.pos)
'''))
fine('id-f-tuplepos', CL, (R, POS, "    positions = [tuple(node.pos) for node in result.nodes]\n"))
fine('id-f-map', CL, (R, POS, "    positions = list(map(lambda node: node.pos, result.nodes))\n"))
fine('id-f-values', CL, (R, POS, "    positions = [n.pos for n in result.nodes.values()]\n"))
fine('id-f-table', CL, (E, EV, '''    def point():
        return _evaluate_point(
            positions=list(graph.nodes), coordinate_system=coordinate_system
        )

    def line():
        try:
            return _evaluate_line(
                graph=graph,
                coordinate_system=coordinate_system,
                feature_size=feature_size,
                method=evaluate_line_method,
            )
        except (IndexError, ValueError) as exc:
            warnings.warn('Could not identify line: {}'.format(exc))
            return None

    handlers = {0: point, 1: line}
    if dim not in handlers:
        return None
    return handlers[dim]()
'''))
fine('id-f-early', CL, (E, EV, '''    if dim not in (0, 1):
        return None
    if dim == 0:
        return _evaluate_point(graph.nodes, coordinate_system)
    shape = None
    try:
        shape = _evaluate_line(
            graph=graph,
            coordinate_system=coordinate_system,
            feature_size=feature_size,
            method=evaluate_line_method,
        )
    except (IndexError, ValueError) as exc:
        warnings.warn('Could not identify line: {}'.format(exc))
    return shape
'''))
fine('id-f-point', CL, (P, '''    return NodalPoint(
        position=coordinate_system.
        average([np.array(pos) for pos in positions])
    )''', '''    arrays = [np.array(pos) for pos in positions]
    center = coordinate_system.average(arrays)
    return NodalPoint(position=center)'''))
fine('id-f-log', CL, (R, '        results.append(res)\n', "        results.append(res)\n        IDENTIFY_LOGGER.debug('%s', res)\n        _ = None\n"))
fine('id-f-enum', CL, (R, '    for graph in clusters:', '    for _, graph in enumerate(clusters):'))
fine('id-f-skipempty', CL, (R, LOOP, LOOP + "        if not graph.nodes:\n            continue\n"))
fine('id-f-tuple', CL, (R, '        results=results\n', '        results=list(results)\n'))
fine('id-f-gen', CL, (R, '    clusters = create_clusters(', '    clusters = iter(create_clusters('), (R, '''        feature_size=feature_size
    )
    results = []''', '''        feature_size=feature_size
    ))
    results = []'''))
