#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
S = 'nodefinder/search/'
I = 'nodefinder/identify/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))


p('C01', 'The save file is only ever replaced as a whole',
  'At every instant of a search, the file at the configured save path is absent, its previous content, or one complete '
  'newly written search state: it is never opened for writing, truncated, copied over or deleted in place. When writing a new state fails, '
  'the previous file is untouched, no temporary file is left behind, the error is raised, and the state still counts as unsaved.',
  ['crash_points', 'fault_sequences'], 'every point at which the process dies, and every failing step of a save',
  'The tests save to a healthy disk and read the file after the run; no test kills the process or fails a write in the middle of a save.',
  [S + '_controller.py', 'nodefinder/io.py'],
  [('temporary file in the directory of the save file, serialise, rename, clear flag', S + '_controller.py: Controller.save'),
   ('periodic and final save', S + '_controller.py: Controller.create_tasks')],
  [('save_file', 'path of the persisted state', S + '_controller.py')], ['file system at save_file'])

p('C02', 'Changes to the search state are never left out of the next save',
  'Every change of what would be persisted (nodes, rejected results, refined positions, pending starting simplices or positions) marks the search state as needing a save, '
  'and the mark is removed only once a save containing that change is in place. A periodic or final save that finds the mark writes the state; so after a finished run the file equals the final state.',
  ['histories', 'schedules'], 'every sequence of state changes and saves, for every timing of the periodic save',
  'Tests only read the file after a run in which the last change happens to mark the state; a mutator that forgets the mark is invisible unless a save falls exactly before it.',
  [S + '_queue.py', S + 'result/_search_result_container.py', S + 'result/_controller_state.py', S + '_controller.py'],
  [('needs_saving set by each mutator', S + '_queue.py, ' + S + 'result/_search_result_container.py'),
   ('aggregation of the three flags', S + 'result/_controller_state.py: needs_saving'),
   ('flag cleared after rename', S + '_controller.py: Controller.save')],
  [('needs_saving', 'component changed since the last completed save', S)])

p('C03', 'Whatever is saved loads back into the same fields',
  'For every kind of object the library can save, each field that is written is read back into the field it came from, every field needed to rebuild the object is written, '
  'and none of the object\'s data is left out (a coordinate system keeps limits and periodicity, search results keep accepted, rejected and refined results, an identified line keeps nodes, edges and degree counts, a result without shape or dimension stays that way). '
  'Every saved object carries a type tag by which loading finds its class without the user importing anything.',
  ['inputs', 'programs'], 'every object of every serialisable class, including empty collections and absent optional values',
  'Tests round-trip one search state and load one stored file; identification results have no passing test at all.',
  [S + 'result/_search_result_container.py', S + 'result/_controller_state.py', S + 'result/_minimization.py', S + '_queue.py',
   'nodefinder/coordinate_system.py', I + 'result/_containers.py', I + 'result/_shapes.py', 'setup.py'],
  [('HDF5_ATTRIBUTES / HDF5_OPTIONAL tables against constructors', 'all subscribed classes'),
   ('hand-written to_hdf5 / from_hdf5 pairs', I + 'result/, ' + S + '_queue.py, ' + S + 'result/_minimization.py')])

p('C04', 'Resuming a search keeps all earlier work',
  'A search started from a saved or given state starts with all of its results (accepted and rejected), all positions already used for refinement, all pending starting simplices including those that were being minimised when it was saved, and all pending positions. '
  'Forcing the initial mesh only adds starting simplices to these. Asking for a given state and for loading at once is rejected, and a load error is hidden only if it is an I/O error and quiet loading was requested.',
  ['histories', 'configurations', 'crash_points'], 'every saved state, restart configuration and load failure',
  'The restart tests resume finished runs of point nodes with nothing pending, so dropping pending work or rejected results is not seen.',
  [S + '_controller.py', S + '_queue.py', S + 'result/_search_result_container.py'],
  [('state reconstruction', S + '_controller.py: create_state'), ('running objects re-queued', S + '_queue.py: RunningQueue.objects')])

p('C05', 'No unit of work is lost at a suspension, failure or crash',
  'At every point where a search can be suspended, interrupted or killed, each starting simplex handed out for minimisation and each position awaiting refinement is still part of the pending work that a save records, or its outcome and all follow-up work are already recorded. '
  'A simplex is retired only after its result and the refinement decision that follows from it have been recorded (or it was rejected by the distance check), so that a failing or cancelled evaluation leaves it pending.',
  ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of minimisations and saves, and every crash or failure point',
  'It needs a save or failure exactly between two steps of the scheduler; the tests never inspect a mid-run state.',
  [S + '_controller.py', S + '_queue.py'],
  [('pop / run / record / finish protocol', S + '_controller.py: create_tasks, run_simplex, process_result'),
   ('running set', S + '_queue.py: RunningQueue')],
  [('running objects', 'handed out, not yet finished; saved as pending', S + '_queue.py')])

p('C06', 'Never more than the allowed number of parallel minimisations',
  'At no time are more minimisations in progress than the configured maximum number of parallel minimisations, whatever the gap function, the refinement and the order in which minimisations finish. '
  'Every minimisation launched is one whose starting simplex is counted as in progress from its launch until its result has been recorded.',
  ['schedules', 'configurations', 'histories'], 'every limit and every completion order',
  'No test observes concurrency; all tests use the default limit of 50 with functions that do not suspend.',
  [S + '_controller.py', S + '_queue.py'],
  [('guard on the number of running simplices before each hand-out', S + '_controller.py: create_tasks'),
   ('running set maintained by hand-out and finish', S + '_queue.py: RunningQueue')])

p('C07', 'A search returns only when all work is done, and always lets work proceed',
  'A search returns normally only if no starting simplex is pending or in progress, no position awaits refinement and every launched minimisation has been awaited. '
  'While work is outstanding the scheduler yields to the event loop between rounds, takes up pending simplices and positions whenever capacity is available, and launches a minimisation for every simplex it takes up unless the distance check rejects it.',
  ['schedules', 'histories'], 'every completion order of the minimisations, including work created by the last one to finish',
  'Which minimisation finishes last, and whether it creates new work, depends on the schedule; the tests fix one.',
  [S + '_controller.py', S + '_queue.py'],
  [('outer loop condition and final gather', S + '_controller.py: create_tasks'), ('finished / has_queued', S + '_queue.py')])

p('C08', 'Errors of the gap function always reach the caller',
  'An exception raised by the gap function during any evaluation, synchronous or asynchronous, ends the search and is raised to the caller of the search, from a plain call, from a coroutine, and from a call made while an event loop is running (where it runs in another thread). '
  'It is never swallowed or replaced by a result, and the call never blocks forever because of it, even for exceptions that signal exit or cancellation.',
  ['fault_sequences', 'schedules'], 'every exception type at every evaluation, for every way of starting a search',
  'One test raises ValueError on the first evaluation in a plain call; nothing covers later failures, the thread path or BaseException.',
  [S + '_controller.py', S + '_run.py', S + '_minimization/_run.py', S + '_minimization/_nelder_mead.py'],
  [('exception collection in the scheduler loop', S + '_controller.py: create_tasks'), ('transfer from the thread', S + '_run.py: run, _run_in_thread')])

p('C09', 'A finished or failed search leaves nothing running',
  'When a search returns or raises, no minimisation it launched is still running or will call the gap function again, the thread it may have started has ended, and every event loop it created is closed. '
  'The caller\'s own event loop is never closed.',
  ['fault_sequences', 'schedules'], 'every exit, normal or exceptional, of every way to start a search',
  'The tests end their process or loop right after the search and never look at leftover tasks, threads or loops.',
  [S + '_controller.py', S + '_run.py'],
  [('cancellation and gather of launched tasks', S + '_controller.py: create_tasks'), ('loop creation and closing', S + '_run.py')])

p('C10', 'Every search option takes effect, unchanged',
  'Each option accepted by the search reaches exactly the component it is documented to configure, with the given value: limits and periodicity the coordinate system, gap threshold and feature size the node criterion and distance cutoffs, mesh size, stencil, save path and delay, parallelism, and the cutoffs of the distance checks. '
  'Settings given for the minimiser take precedence over the defaults derived from the threshold and feature size.',
  ['configurations'], 'every combination of options',
  'Tests vary only a few options and would not notice two of them swapped or one ignored.',
  [S + '_run.py', S + '_controller.py', S + '_minimization/_run.py'],
  [('keyword forwarding', S + '_run.py: run_async'), ('controller set-up', S + '_controller.py: Controller.__init__'),
   ('default minimiser settings', S + '_controller.py: nelder_mead_kwargs')])

p('C11', 'A result is a node exactly if it succeeded at or below the threshold',
  'A minimisation result counts as a node if and only if the minimisation reported success and its value is at most the gap threshold; every other result is kept as rejected. '
  'Each recorded result is kept exactly once, nothing is discarded, and refinement is only ever triggered by nodes.',
  ['inputs', 'histories'], 'every result: success or not, value below, at or above the threshold, or not a number',
  'Tests count nodes of benign functions; the boundary cases and the fate of rejected results are not examined.',
  [S + 'result/_search_result_container.py', S + '_controller.py'],
  [('classification', S + 'result/_search_result_container.py: add_result'), ('refinement trigger', S + '_controller.py: process_result')])

p('C12', 'Refinement is started exactly around sufficiently new nodes',
  'A position is refined only if, when its refinement starts, at most the allowed number of already refined positions lie within the distance cutoff (the recheck can be switched off), and it was queued only if none did; each refined position is recorded as refined, and discarded ones are not. '
  'The refinement uses the configured stencil, scaled with the distance cutoff and centred at that position; with no stencil, nothing is refined.',
  ['histories', 'configurations', 'inputs'], 'every order of found nodes and every recheck configuration',
  'The only test covering refinement uses a one-point stencil around isolated nodes with default rechecks.',
  [S + '_controller.py', S + 'result/_search_result_container.py'],
  [('recheck before adding the stencil', S + '_controller.py: create_tasks'), ('counting check', S + '_controller.py: _check_pos_refinement')])

p('C13', 'A starting simplex is skipped exactly if too many vertices are near nodes',
  'A pending starting simplex is skipped without minimisation if and only if more than the allowed number of its vertices lie closer than the distance cutoff to a node found so far; each vertex counts at most once. '
  'Every other pending simplex is minimised, starting from exactly its own vertices.',
  ['histories', 'configurations', 'inputs'], 'every simplex, node set and cutoff',
  'Skips depend on the order in which nodes are found; tests only look at the final cloud.',
  [S + '_controller.py', S + 'result/_search_result_container.py'],
  [('vertex count', S + '_controller.py: _check_simplex'), ('hand-out', S + '_controller.py: create_tasks')])

p('C14', 'Periodic positions are reported inside the box and stay the same point',
  'With periodic boundaries every position stored in a result, and every averaged position (such as that of an identified point), lies within the limits and equals the original position up to whole box lengths; without periodic boundaries positions are unchanged and averages are plain means. '
  'Conversion to fractional coordinates and back gives the same point, and periodic fractional coordinates lie between 0 and 1.',
  ['inputs', 'configurations'], 'all positions and all limits, including boxes that do not start at zero',
  'Tests use boxes starting at zero almost everywhere, where a wrong origin is invisible.',
  ['nodefinder/coordinate_system.py', S + 'result/_search_result_container.py', I + '_evaluate/_point.py'],
  [('normalize_position, get_frac, get_pos, average', 'nodefinder/coordinate_system.py'), ('normalisation on recording', S + 'result/_search_result_container.py: add_result')])

p('C15', 'Distances and connecting vectors use the nearest periodic image',
  'With periodic boundaries the distance between two points is the length of the shortest vector between any of their periodic images, and the connecting vector is such a shortest vector, pointing from the first to the second point; without periodic boundaries both use the plain difference. '
  'The distance is symmetric, does not change when a point is shifted by a box length, and equals the length of the connecting vector.',
  ['inputs', 'configurations'], 'all pairs of points and all box sizes',
  'No test calls these functions directly; a wrong image is only visible for pairs across the boundary.',
  ['nodefinder/coordinate_system.py'],
  [('distance, connecting_vector', 'nodefinder/coordinate_system.py')])

p('C16', 'Neighbour lookup finds every close point, exactly once',
  'Looking up the neighbours of a position considers every stored point within the distance cutoff of it, across periodic boundaries, and for positions outside the limits of a non-periodic box. '
  'Each stored point is considered at most once per lookup, and points other than the position itself are never left out of the nodes compared.',
  ['inputs', 'configurations', 'histories'], 'all positions, cutoffs, box sizes and dimensions',
  'Two tests check three cell indices; boxes with fewer than three cells and the neighbour enumeration are untested.',
  [S + 'result/_cell_list.py', S + 'result/_search_result_container.py'],
  [('cell index and neighbour cells', S + 'result/_cell_list.py'), ('number of cells', S + 'result/_search_result_container.py: __init__')])

p('C17', 'The work queues hand out each object at most once and track it until finished',
  'Over the lifetime of a queue each distinct object is handed out at most once, in the order in which it was added, no matter how often or in which grouping it is added; simplices that differ only in the order of their vertices are the same object. '
  'An object handed out for minimisation counts as in progress until it is marked finished; the queue is finished exactly when nothing is waiting or in progress.',
  ['histories', 'inputs'], 'every sequence of adds, hand-outs and completions, with duplicates within and across adds',
  'The queues have no unit tests, and searches rarely produce duplicates.',
  [S + '_queue.py'],
  [('normalisation and duplicate filter', S + '_queue.py: ObjectQueue'), ('running set', S + '_queue.py: RunningQueue')])

p('C18', 'The reported value is the gap function at the reported position',
  'The value reported for a minimisation is the value the gap function itself returned at the reported position (before mapping it into the box), and the position is the best vertex of the final simplex; vertices and values stay paired through every step and in the recorded history. '
  'The artificial repelling potential never contributes to a reported value, and is active only in the first of the two stages.',
  ['inputs', 'histories'], 'every gap function and every path through the minimisation',
  'Tests check only that results are near known nodes; a swapped or stale value within tolerance goes unnoticed.',
  [S + '_minimization/_nelder_mead.py', S + '_minimization/_run.py', S + '_fake_potential.py', S + 'result/_minimization.py'],
  [('paired updates of simplex and values', S + '_minimization/_nelder_mead.py'), ('two-stage run', S + '_minimization/_run.py')])

p('C19', 'Evaluations are fully counted and limits and status are honest',
  'The number of evaluations reported for a minimisation is the number of times it called the gap function, over both stages where there are two. '
  'The minimiser stops at the first iteration boundary where the iteration limit, the evaluation limit or the slope cutoff is reached, and it reports success only if none of these ended it, that is, only if both tolerances were met.',
  ['inputs', 'configurations'], 'every gap function and setting of the limits',
  'Tests use default limits and only well-behaved functions, so the limit and failure branches are hardly taken.',
  [S + '_minimization/_nelder_mead.py', S + 'result/_minimization.py', S + '_minimization/_run.py'],
  [('counting wrapper', S + '_minimization/_nelder_mead.py: wrap_function'), ('loop conditions and status', S + '_minimization/_nelder_mead.py: root_nelder_mead'),
   ('sum over both stages', S + 'result/_minimization.py: JoinedMinimizationResult')])

p('C20', 'A minimisation never loses its best point',
  'The best vertex of the simplex is never overwritten: each iteration replaces only the worst vertex, by a point with a lower value, or contracts the other vertices towards the best one. '
  'So the best value never increases from one iteration to the next, and the result is at least as good as every vertex of the starting simplex.',
  ['inputs', 'histories'], 'every gap function, including noisy and infinite ones',
  'Tests accept any result close to a node; a lost best point only costs accuracy on some functions.',
  [S + '_minimization/_nelder_mead.py'],
  [('replacement rules', S + '_minimization/_nelder_mead.py: root_nelder_mead')])

p('C21', 'Clusters are exactly the connected groups of positions',
  'Clustering assigns every distinct input position to exactly one cluster, and adds no others; two positions are in the same cluster if and only if a chain of positions links them in which neighbours are at most the feature size apart, measured with the coordinate system\'s distance. '
  'Links within a cluster carry exactly that distance.',
  ['inputs'], 'every set of positions, including duplicates, one position and none',
  'One test counts the clusters of one stored point cloud.',
  [I + '_cluster.py'], [('pairwise graph and connected components', I + '_cluster.py: create_clusters, _create_graph')])

p('C22', 'Identification reports every cluster with all its positions and fitting shape',
  'The identification result has exactly one entry per cluster, holding all positions of that cluster, its dimension, and a shape that is a point for dimension 0, a line for dimension 1 and absent otherwise. '
  'By default it uses the feature size of the search that produced the result, and it accepts a search result as well as a saved search state; all options reach the steps they configure.',
  ['inputs', 'configurations'], 'every search result, option and dimension outcome',
  'None of the identification tests can pass here; none tests options or states.',
  [I + '_run.py', I + '_evaluate/_run.py', I + '_evaluate/_point.py'],
  [('loop over clusters', I + '_run.py: run_from_positions'), ('dispatch on dimension', I + '_evaluate/_run.py: evaluate_cluster')])

p('C23', 'Identification and plotting never modify what they are given',
  'Identifying or plotting a result leaves the result, its nodes, its graphs and all other arguments exactly as they were (drawing onto a given axis is the only effect of plotting). '
  'So a result can be identified with several methods, plotted and saved in any order with the same outcome.',
  ['inputs', 'histories'], 'every result and every order of operations on it',
  'Tests run one operation per loaded result and never compare the input afterwards.',
  [I + '_cluster.py', I + '_evaluate/', I + 'plot.py', S + 'plot.py', I + '_run.py'],
  [('working copies of graphs', I + '_evaluate/_line/, ' + I + 'plot.py'), ('frozen clusters', I + '_cluster.py')])

p('C24', 'An identified line consists of the cluster\'s own points and links',
  'Every point of an identified line is a position of its cluster and every link of the line is a link of the cluster, whichever evaluation method is chosen; every offered method runs, and an unknown one is not silently mapped to another. '
  'The degree counts describe the points of that same line, leaving out only those with two links, and the name "closed loop" or "open line" is given only for no other point or exactly two end points.',
  ['inputs', 'configurations'], 'every cluster and every evaluation method',
  'No test of line evaluation can pass here, and none covers methods other than the default.',
  [I + '_evaluate/_line/', I + 'result/_shapes.py'],
  [('result graphs', I + '_evaluate/_line/_ballistic.py, _shortest_path.py, _dominating_set.py'), ('degree counts', I + '_evaluate/_line/_run.py'),
   ('shape name', I + 'result/_shapes.py: NodalLine.shape_name')])

p('C25', 'A dimension is reported only with a two-thirds majority',
  'A dimension is reported for a cluster only if at least two thirds of the positions evaluated so far agree on it, and only after the minimum number of positions (or all of them) has been evaluated; otherwise it is reported as undetermined, with a warning. '
  'The reported dimension is never larger than the number of coordinates or the maximum dimension, and the positions evaluated are distinct positions of the cluster.',
  ['inputs', 'configurations'], 'every cluster and every random choice',
  'Dimension estimates use random sampling; no test of them passes here and none reaches an undecided vote.',
  [I + '_dimension.py'],
  [('voting', I + '_dimension.py: calculate_dimension, _check_count'), ('dimension bound', I + '_dimension.py: _get_dimension, _has_dimension')])

p('C26', 'Files written by earlier versions stay loadable',
  'Every type tag that a released version has written is still recognised and mapped to the class that replaces it, no two classes claim the same tag, and loading such a file never requires a field that those versions did not write. '
  'The tag written for a class is one that released versions understand.',
  ['histories', 'configurations'], 'every file written by an earlier version',
  'Only two stored files are available to the tests, covering few classes and no legacy tag.',
  [S + 'result/', S + '_queue.py', I + 'result/', 'nodefinder/coordinate_system.py'],
  [('type tags and legacy tags', 'subscribe_hdf5 decorators'), ('optional fields', 'HDF5_OPTIONAL, tolerant readers')])

p('C27', 'Runs do not influence each other or modify the caller\'s arguments',
  'Nothing a search or identification does is remembered by the library for later calls: no module, class or default-argument state is modified, so repeated or concurrent runs in one process are independent. '
  'Settings, stencils, limits and queues handed in by the caller are not modified.',
  ['histories', 'schedules'], 'every sequence or overlap of calls in one process',
  'Each test makes at most two calls and does not look at its arguments afterwards.',
  ['nodefinder/'], [('immutable defaults, per-run containers', 'all modules')])

p('C28', 'Using the library without plotting never loads a plotting library',
  'Importing the package and its submodules, searching, identifying, saving and loading work without matplotlib being importable; only calling a plotting function loads it. '
  'Importing the package also runs no search, opens no file and creates no event loop.',
  ['configurations'], 'every environment, with or without a usable plotting library',
  'matplotlib is installed wherever the tests run.',
  ['nodefinder/_common_plot.py', S + 'plot.py', I + 'plot.py', 'nodefinder/__init__.py'],
  [('imports inside functions', 'nodefinder/_common_plot.py')])

p('C29', 'Plots show everything they are asked to show, where they are asked to',
  'Plotting search results draws every node at its position, coloured by its value; plotting simplices or a stencil draws every edge of every simplex; plotting identification results draws every identified object, with its shape if it has one and its positions otherwise. A nodal line is drawn link by link, cut only where a link is longer than twice the feature size; if it has no links its points are drawn. '
  'All drawing goes to the axis given (or a new one with the right number of dimensions), limited to the coordinate limits (for a stencil, to the extent of its vertices), and the axis used is returned, along with the figure if a new one was created.',
  ['inputs'], 'every result in two or three dimensions, with and without a given axis',
  'One plot test passes here and it does not look at the picture.',
  [S + 'plot.py', I + 'plot.py', 'nodefinder/_common_plot.py'],
  [('drawing loops', S + 'plot.py, ' + I + 'plot.py'), ('dispatch on shape class', I + 'plot.py: _plot_result'), ('splitting of lines into paths', I + 'plot.py: _get_graph_paths')])

p('C30', 'The initial mesh starts one simplex at every mesh point',
  'The initial mesh has exactly one starting simplex per point of the regular grid with the given number of points in each dimension, spanning the limits, leaving out the upper end (the periodic image of the lower one) exactly if the system is periodic. '
  'Each simplex has that point as a vertex and one further vertex per dimension, displaced along that dimension only, by half the box size divided by the number of points.',
  ['inputs', 'configurations'], 'every box, dimension and mesh size',
  'Tests count nodes for three mesh sizes in three dimensions with equal limits.',
  [S + '_mesh_helper.py', S + '_controller.py'],
  [('grid and simplex construction', S + '_mesh_helper.py: _generate_mesh_simplices'), ('mesh size per dimension', S + '_controller.py: check_dimensions')])

p('C35', 'Result objects can be copied and pickled',
  'Every result object of a search or identification, including results of two-stage minimisations, can be copied, deep-copied and pickled, and the copy has the same data. '
  'Looking up an attribute a result does not have raises an attribute error, on complete and on partially built objects alike.',
  ['inputs', 'histories'], 'every result object, at every stage of its construction',
  'No test copies or pickles a result; the failure only shows for two-stage results.',
  [S + 'result/', I + 'result/'], [('attribute delegation', S + 'result/_minimization.py: JoinedMinimizationResult.__getattr__')])

p('C36', 'The fake potential keeps the first minimisation away from known nodes',
  'With the fake potential on, every start simplex is minimised twice. In the first minimisation the value at each position is the gap function there plus the fake potential there, '
  'which is infinite exactly if a node known at that moment, other than one at that very position, is closer than the distance cutoff, and zero otherwise. '
  'The second minimisation, of the gap function alone, starts from the last simplex of the first one, enlarged about its best vertex. '
  'With the fake potential off there is a single minimisation of the gap function from the given simplex.',
  ['inputs', 'histories', 'configurations'], 'every position, every set of known nodes, both settings',
  'Tests only look at the final nodes; whether the potential acted, and where, is not visible in them.',
  [S + '_fake_potential.py', S + '_minimization/_run.py', S + 'result/_search_result_container.py'],
  [('potential', S + '_fake_potential.py: FakePotential.__call__'), ('two stages', S + '_minimization/_run.py: run_minimization'), ('sum', S + '_minimization/_run.py: add_fake_potential')])

# not decided by static analysis
p('C31', 'The search finds every node within the feature size',
  'For a gap function whose nodes are separated by more than the feature size, the search finds a position within the feature size of every node. '
  'On nodal lines and surfaces, the found positions leave no gap larger than the feature size.',
  ['inputs'], 'every admissible gap function', 'Tests sample a handful of functions.',
  [S + '_controller.py', S + '_minimization/_nelder_mead.py', S + 'refinement_stencil.py'],
  [('mesh, minimisation and refinement together', S)])
p('C32', 'The estimated dimension and line shape match the true geometry',
  'For a point cloud sampled densely from a point, line or surface the estimated dimension is that of the object, and an identified line follows the true line without holes or spurious branches. ',
  ['inputs'], 'every densely sampled object', 'Tests sample a handful of stored clouds.',
  [I + '_dimension.py', I + '_evaluate/_line/'], [('volume statistics and path heuristics', I)])
p('C33', 'The search terminates',
  'For every gap function with a bounded set of nodes, a search ends after finitely many minimisations.',
  ['inputs', 'histories'], 'every gap function', 'Tests run finitely many functions.',
  [S + '_controller.py'], [('distance checks bound the number of refinements', S + '_controller.py')])
p('C34', 'Refinement stencils surround the position',
  'The automatic refinement stencils place their simplices at roughly uniform distance just outside the distance cutoff, all around the origin.',
  ['inputs'], 'every dimension and number of points', 'No test looks at stencils.',
  [S + 'refinement_stencil.py'], [('circle and sphere construction', S + 'refinement_stencil.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
