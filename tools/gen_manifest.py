#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import rules

NOTE = ('Static analysis of the current source: an abstract interpreter enumerates every path class (loops to a fixpoint, calls in the '
        'package followed) and decides the rules listed in the evidence file on each of them. Only findings on precisely understood paths are '
        'reported; imprecise ones are listed as undecided in the evidence. Trusted: the models of Python, numpy, asyncio and fsc in sa/engine.py '
        'and sa/exts.py. ')
TECH = {
    'C01': 'static event automaton (typestate of the temporary file) over all paths of the save task, plus who-may-write effect scan',
    'C02': 'static effect analysis: every state mutation is followed by the dirty flag; truth table of the flag accessors',
    'C03': 'static agreement of writer, reader and constructor tables extracted from the syntax tree and data flow',
    'C04': 'static value flow from the loaded state to the fields of the created state',
    'C05': 'typestate of units of work over all paths of the scheduler and its tasks, checked at every suspension point',
    'C06': 'path-sensitive static analysis: guard dominating every launch, counting of running work',
    'C07': 'path-sensitive static analysis: exit condition of the scheduler, suspension in every round',
    'C08': 'static exception-flow analysis (all paths, exceptional edges included) and typestate of the hand-over between threads',
    'C09': 'static resource typestate (tasks, threads, event loops) over all normal and exceptional paths',
    'C10': 'static value flow from every option to its sink',
    'C11': 'path-sensitive static analysis: truth table of acceptance, single store per path',
    'C12': 'path-sensitive static analysis with ghost counter (bounded counts, saturated) for the refinement decision',
    'C13': 'path-sensitive static analysis with ghost counter (bounded counts, saturated) for the skipping decision',
    'C14': 'abstract interpretation over linear forms modulo the box size',
    'C15': 'abstract interpretation over linear forms modulo the box size',
    'C16': 'static value flow of the cell index and the neighbour loop',
    'C17': 'static typestate of the queue containers per operation',
    'C18': 'static value flow: pairing of positions and values through every write and permutation',
    'C19': 'static counting along all paths and truth table of the status fields',
    'C20': 'path-sensitive static analysis: which simplex rows each path may overwrite',
    'C21': 'static value flow of the graph construction and component enumeration',
    'C22': 'static value flow and exhaustiveness of the dispatch',
    'C23': 'static effect (mutation) and escape analysis',
    'C24': 'static value flow of node and edge sets of the line graph',
    'C25': 'path-sensitive static analysis of the vote',
    'C26': 'static agreement of the reader tables with the frozen file formats',
    'C27': 'static effect and escape analysis (shared mutable defaults, module state, caller arguments)',
    'C28': 'static import-graph and import-time effect analysis',
    'C29': 'static value flow from the plotted collections to the drawing calls',
    'C30': 'static value flow of the mesh construction',
    'C36': 'static path analysis of the potential (found-near typestate per path), of the composed function, and linear-form analysis of the second start simplex',
    'C35': 'static analysis of attribute fallback methods reachable before initialisation',
}
EXTRA = {}
NA = {
    'C31': 'Numerical: whether Nelder-Mead reaches every node depends on the gap function and on floating-point convergence; no static argument over the source bounds it.',
    'C32': 'Numerical: depends on the geometry of the sampled positions and on thresholds tuned empirically; there is no oracle in the source to compare the estimate with.',
    'C33': 'Termination depends on the gap function (the number of nodes found, convergence of each minimisation); no ranking function over the source exists.',
    'C34': 'The stencils come out of trigonometric formulae and QR decompositions; that the resulting simplices surround the origin is a geometric statement about their computed values, for which no static argument over the code is in reach (evaluating the formulae would be running them).',
}


def main():
    have = rules.ids()
    m = {
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q sa check.py || true',
        'checks': [],
        'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
        'notes': 'Pure static analysis: nodefinder is never imported or executed. See DESIGN.md.',
    }
    for p in have:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 check.py %s --tier quick' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': TECH[p],
            'level': 'other',
            'level_note': NOTE + EXTRA.get(p, ''),
        })
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        if p not in have and p not in NA:
            m['not_applicable'].append({'property': p, 'reason': 'Check not built yet.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
