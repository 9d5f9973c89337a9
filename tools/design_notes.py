NOTES = {
'C01': '''Oracle: the typestate "absent, open, written, closed, replaced, removed" of the temporary file. Crash points are covered because every
prefix of every path must leave the save path untouched until the rename. A failing close of the file descriptor is not counted as a leak. Durability
across power loss (fsync) is not claimed. save() catches Exception only: a KeyboardInterrupt in the middle leaves the temporary file (not the save file) behind.''',
'C02': '''Oracle: "changed since saved" as an automaton over all mutating methods, for each of the three parts separately; the write rule is evaluated for each part alone
needing saving. Caches inside helper objects that are never written are excluded (read closure of the writer).''',
'C03': '''Oracle: the three tables (written, read, constructor) extracted from the code must agree with each other; values flow through unchanged. Numerical exactness of HDF5 itself is trusted.''',
'C04': '''Evaluated for all combinations of state given / loading / forced mesh / quiet and for all error types of loading.''',
'C05': '''Every suspension point and every exit (normal, exceptional, cancelled) of the scheduler and its tasks is a crash point at which each unit is accounted for: waiting, in progress, or its result recorded.''',
'C06': '''The guard is required on every path for every launch separately; number of parallel tasks symbolic. Work in progress is what the queue counts as in progress, so the rule "retire" closes the argument.''',
'C07': '''The facts "queue empty / has work" are forgotten at each suspension and whenever anything is added. Termination itself is C33 (not applicable).''',
'C08': '''Exceptions are followed as terms: each await of a minimisation may raise; the rule follows the finished tasks through the collections of the scheduler. KeyboardInterrupt/SystemExit included in the thread hand-over.''',
'C09': '''Exact task following: every created task is in a known set until awaited.''',
'C10': '''8619 value-flow obligations: each combination of options given and defaulted. Oracle: the documentation of run_async.''',
'C11': '''NaN is a separate case of every comparison.''',
'C12': '''The counting automaton is exact up to K = 2 (saturated above); the relation between count and K is what is checked, so larger K follow the same code path.''',
'C13': '''Like C12; each vertex is counted at most once.''',
'C14': '''Linear forms in position, limits and size with integer multiples of the size as unknowns; all orders of the limits. Exact arithmetic: rounding at the box boundary is outside.''',
'C15': '''The difference modulo the size is split into [0, s/2) and [s/2, s). Exact arithmetic; note that the assertion 1e-8 inside connecting_vector would fail by rounding alone for boxes of 1e8 and larger.''',
'C16': '''Cell numbers are compared as step functions of one dimension for n = 1 and all n >= 2; shifts by one cell and missing outer cells that do not matter are accepted.''',
'C17': '''Each public method of each queue class, every path. That the scheduler pairs taking and finishing is C07 (launch).''',
'C18': '''NaN values are ignored in order reasoning except for the reported pair. A minimiser written outside the array language (rows, slices, argsort, fancy indexing) becomes undecided.''',
'C19': '''The number of calls is counted as a linear form along all paths of one iteration, and by induction over the loop. 698 obligations.''',
'C20': '''The order facts come from the comparisons made on the path; shrinking may replace all rows but the first.''',
'C21': '''Pair coverage by affine elimination for all numbers of positions. Duplicate pairs and self-links are undecided or harmless.''',
'C22': '''Analysed for feature size given/None, results or state, dimensions None, 0, 1, 2, 3. Estimating the dimension twice per cluster is reported (the estimate is random, so the two may disagree).''',
'C23': '''Modular effect summaries with roots and attribute paths; views and copies are told apart by tables. Judged at the fixed list of public entry points. catch_warnings and errstate scopes are exempt.''',
'C24': '''Provenance of every value that reaches an addition to the graph of the line; removal of links is never a violation. The naming of the shape is evaluated on 625 degree counts.''',
'C25': '''Conditions of each returning path are evaluated on all vote counts up to 8 votes with 3 labels, in all orders, and on counts near 2/3 for two labels up to 1000 votes.''',
'C26': '''Oracle: the table of type tags and keys of released versions (frozen in the rule, taken from the history and the sample files of the repository).''',
'C27': '''Same engine as C23, over all public functions and constructors; also lru_cache, class attributes, mutable defaults, module-level objects. Use of the global random generator is not counted.''',
'C28': '''All statements executed on import of all 40 modules, plus the reference graph of public functions. numpy, scipy, networkx, h5py, fsc and decorator are assumed not to load matplotlib (checked once); the source of other third-party modules is followed.''',
'C29': '''Evaluated for results with three nodes and two recorded steps in two and three dimensions, axis given or not, coordinates as unknown numbers. The paths of a line are judged per loop iteration for any graph: every removed link is drawn, or cut only if longer than the bound.''',
'C30': '''Axes as rational functions of limits and mesh size, so for all limits and sizes; dimensions by induction over the product. Negative displacements are undecided.''',
'C36': '''All paths of `__call__`, with comprehensions and `any` opened up as loops, carry whether a node was found below the width and whether everything was looked at (monitor of C12/C13). The composed function is applied to an unknown position and must be the sum of both values there. The second simplex is brought to the linear form a·simplex + b·best: a > 1, a + b = 1, last simplex. The list of distances itself is checked by C15/C16. Minima and vectorised aggregates of distances are undecided.''',
'C35': '''Lookup of every name on a half-built object (copy, pickle); ControllerState is excluded, its queues hold locks.''',
}
