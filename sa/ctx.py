"""Bookkeeping of one check: obligations, violations, evidence."""

import ast
import json
import os
import time

from .engine import Engine, Monitor, Finding, DEAD
from .loader import Program, AnalysisError, Function
from .terms import T, show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation:
    def __init__(self, rule, loc, func, msg, trail=()):
        self.rule = rule
        self.loc = loc
        self.func = func
        self.msg = msg
        self.trail = list(trail)

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.func, self.msg)


class Ctx:
    def __init__(self, pid, tier='quick', prog=None, seed=0):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.prog = prog or Program()
        self.obligations = []       # (rule, construct, status, note)
        self.violations = {}
        self.undecided_ = {}
        self.functions = set()
        self.stats = dict(events=0, calls_inlined=0, loops=0, branches=0, entry_points=0, paths=0)
        self.entries = []
        self.t0 = time.time()
        self.assumptions = []
        self.rules = {}
        self.explanation = None

    # -- results ---------------------------------------------------------
    def rule(self, name, text):
        """Describe a rule (shown in the evidence)."""
        self.rules[name] = text

    def ok(self, rule, construct):
        self.obligations.append((rule, construct, 'holds'))

    def bad(self, rule, loc, func, msg, trail=(), construct=None):
        v = Violation(rule, loc, func, msg, trail)
        self.violations.setdefault(v.key, v)
        self.obligations.append((rule, construct or '%s in %s' % (loc, func), 'violated'))

    def undecided(self, rule, construct, why):
        self.undecided_.setdefault((rule, construct), why)
        self.obligations.append((rule, construct, 'undecided'))

    def decide(self, rule, construct, verdict, loc, func, msg, trail=()):
        """verdict: True holds / False violated / None undecided."""
        if verdict is True:
            self.ok(rule, construct)
        elif verdict is False:
            self.bad(rule, loc, func, msg, trail, construct)
        else:
            self.undecided(rule, construct, msg)

    def require(self, cond, what):
        """An anchor of the analysis has to exist."""
        if not cond:
            raise AnalysisError(what)

    def loc(self, f, node=None):
        n = node if node is not None else f.node
        m = f.module if isinstance(f, Function) else f
        return '%s:%s' % (m.path, getattr(n, 'lineno', '?'))

    # -- engine ----------------------------------------------------------
    def analyse(self, f, args=None, kwargs=None, self_term=None, monitor=None, opaque=(), rule=None, setup=None, closure=None,
                label=None, seen=None, max_states=None, eager=False, focus=False, count=False, atomic=False, idents=(), small=None):
        """Run the engine over one entry point and collect its findings."""
        self.functions.add(f.fid)
        kw = {} if max_states is None else {'max_states': max_states}
        eng = Engine(self.prog, monitor or Monitor(), opaque=set(opaque) | set(getattr(monitor, 'opaque', ())), **kw)
        eng.eager_exc = eager
        eng.atomic, eng.small = atomic, small
        eng.idents = frozenset(idents)
        eng.focus_mode, eng.count_mode = focus, bool(count)
        eng.count_pred = count if callable(count) else None
        if focus and self_term is not None:
            cls = eng.class_of(self_term)
            if cls is not None:
                eng.typer.init_of(cls)
                empties, setup0 = eng.typer.empties.get(cls.cid, {}), setup

                def setup(st):
                    for name, v in empties.items():
                        st.heap[(self_term, name)] = v
                        st.heap[(v, '#')] = T('seq', ())
                    if setup0:
                        setup0(st)
        if args is None:
            args, kw2 = eng.symbolic_args(f, skip_self=self_term is not None)
            kwargs = kw2 if kwargs is None else kwargs
        rets, raises = eng.run(f, args, kwargs or [], self_term=self_term, setup=setup, closure=closure)
        for k in ('events', 'calls_inlined', 'loops', 'branches'):
            self.stats[k] += eng.stats.get(k, 0)
        self.stats['entry_points'] += 1
        self.stats['paths'] += len(rets) + len(raises)
        self.functions |= {x for x in eng.stats['functions']}
        self.entries.append('%s: %d returning and %d raising path classes' % (label or f.qual, len(rets), len(raises)))
        self.collect(eng)
        return eng, rets, raises

    def collect(self, eng):
        for fi in eng.findings.values():
            if fi.tainted:
                self.undecided(fi.rule, '%s in %s: %s' % (fi.loc, fi.func, fi.msg), 'imprecise path: %s' % sorted(fi.tainted))
            else:
                self.bad(fi.rule, fi.loc, fi.func, fi.msg, fi.trail)

    # -- output ----------------------------------------------------------
    def finish(self, level_note='', checker_cmd='', known=()):
        viol = []
        known_hit = []
        for v in self.violations.values():
            k = next((k for k in known if k['rule'] == v.rule and k['func'] == v.func and k['msg'] in v.msg), None)
            if k:
                known_hit.append((k, v))
            else:
                viol.append(v)
        n_ok = len([o for o in self.obligations if o[2] == 'holds'])
        n_und = len(self.undecided_)
        samples = []
        for o in self.obligations:
            if len(samples) < 40:
                samples.append('%s: %s -> %s' % o)
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'other',
            'coverage': {
                'explanation': self.explanation or 'Static analysis of the current source: every rule below was decided for all paths the abstract '
                               'interpreter enumerated from the entry points (loops to a fixpoint, calls within the package followed).',
                'rules': self.rules,
                'obligations': len(self.obligations),
                'discharged': n_ok,
                'undecided': n_und,
                'undecided_list': ['%s: %s (%s)' % (k[0], k[1], w) for k, w in list(self.undecided_.items())[:20]],
                'functions_analysed': sorted(x.split(':')[-1] if ':' in x else x for x in self.functions),
                'modules': len(self.prog.modules),
                'entry_points': self.entries,
                'abstract_events': self.stats['events'],
                'calls_followed': self.stats['calls_inlined'],
                'loops_to_fixpoint': self.stats['loops'],
                'path_classes': self.stats['paths'],
                'source_digest': self.prog.digest,
                'samples': samples,
                'known_findings_matched': [v.msg for _, v in known_hit],
            },
            'assumptions': self.assumptions,
            'violations': len(viol),
            'wall_s': round(time.time() - self.t0, 3),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        out = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(out + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(out + '.tmp', out)
        for k, v in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, v.msg))
        rep = os.path.join(HERE, 'reports', self.pid + '.txt')
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        if os.path.exists(rep):
            os.remove(rep)
        if viol:
            with open(rep, 'w') as fh:
                for v in viol:
                    fh.write('%s: rule %s violated in %s\n    %s\n' % (v.loc, v.rule, v.func, v.msg))
                    if self.rules.get(v.rule):
                        fh.write('    rule: %s\n' % self.rules[v.rule])
                    for t in v.trail[-25:]:
                        fh.write('        via %s\n' % t)
            for v in viol:
                print('%s: [%s] %s: %s' % (v.loc, v.rule, v.func, v.msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        print('%s: %d obligations, %d hold, %d undecided; %d functions, %d path classes, %.1f s' % (
            self.pid, len(self.obligations), n_ok, n_und, len(self.functions), self.stats['paths'], time.time() - self.t0))
        for k, w in list(self.undecided_.items())[:10]:
            print('  undecided: %s %s: %s' % (k[0], k[1], w))
        return 0
