"""
Abstract interpreter over the syntax tree.

The interpreter computes, for one entry function, the set of abstract states
reachable at every statement: sets of states partitioned by the state of a
property automaton (the *monitor*) and by constant flags, merged with phi terms
at loop heads and iterated to a fixpoint.  Calls to functions of the package are
followed (so a helper function is transparent); everything else is described by
the tables in ``exts``.  No constraint is ever handed to a solver: facts about
conditions are kept as sets of possible outcomes of canonical comparisons.
"""

import ast
import builtins

from .terms import (
    T, NONE, TRUE, FALSE, TOP, UNDEF, OPS, const, is_const, cval, ext, attr, call, tup, walk, subst, show
)
from .liveness import Liveness
from .loader import Program, Function, Class, Module, AnalysisError
from . import exts

ALL = frozenset('<=>u')
FLIP = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
CMPSET = {
    '<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '>=': frozenset('>='),
    '==': frozenset('='), '!=': frozenset('<>u'),
}

MAX_STATES = 40
MAX_DEPTH = 14
MAX_LOOP = 14
CAP = 5


_LIVE = {}


class LenSet(frozenset):
    """Outcomes of a comparison of integers (never unordered)."""
    __slots__ = ()

    def __rsub__(self, other):
        return LenSet(x for x in other if x not in self and x != 'u')

    def __and__(self, other):
        return LenSet(frozenset.__and__(self, other))

    def __or__(self, other):
        return LenSet(frozenset.__or__(self, other))


class Ev:
    """An event shown to the monitor."""

    def __init__(self, kind, node, **kw):
        self.kind = kind
        self.node = node
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return None

    def __repr__(self):
        return 'Ev(%s, %s)' % (self.kind, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'node')})


class State:
    __slots__ = ('frames', 'heap', 'facts', 'vers', 'epoch', 'mon', 'taint', 'trail')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.vers = {}
        self.epoch = None
        self.mon = None
        self.taint = frozenset()
        self.trail = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.vers = dict(self.vers)
        s.epoch = self.epoch
        s.mon = self.mon
        s.taint = self.taint
        s.trail = self.trail
        return s

    def get(self, fid, name):
        return self.frames.get(fid, {}).get(name)

    def put(self, fid, name, value):
        fr = dict(self.frames.get(fid, {}))
        fr[name] = value
        self.frames[fid] = fr

    def key(self):
        return (
            self.mon, self.epoch, frozenset((k, frozenset(v.items())) for k, v in self.frames.items()),
            frozenset(self.heap.items()), frozenset(self.facts.items()), frozenset(self.vers.items()), self.taint
        )


class Out:
    """Outcome of executing statements."""
    __slots__ = ('next', 'brk', 'cont', 'ret')

    def __init__(self, nxt=()):
        self.next = list(nxt)
        self.brk = []
        self.cont = []
        self.ret = []


class Monitor:
    """Base class of property automata."""
    #: qualified-name suffixes / Function objects that are not followed
    opaque = ()
    #: report attribute loads of instances
    loads = False
    #: locals stay known after their last use
    keep_locals = False

    def init(self):
        return None

    def on(self, ev, m, st, eng):
        """Return the new monitor state (or a list of them, or DEAD)."""
        return m

    def back_edge(self, m, loop):
        return m


DEAD = object()


class Finding:
    def __init__(self, rule, msg, loc, func, trail, tainted, key=None):
        self.rule = rule
        self.msg = msg
        self.loc = loc
        self.func = func
        self.trail = trail
        self.tainted = tainted
        self.key = key or (rule, func, msg)

    def __repr__(self):
        return '%s: [%s] in %s: %s%s' % (self.loc, self.rule, self.func, self.msg, ' (tainted: %s)' % sorted(self.tainted) if self.tainted else '')


class Engine:
    def __init__(self, prog, monitor=None, opaque=(), max_states=MAX_STATES, no_init_types=False):
        self.prog = prog
        self.mon = monitor or Monitor()
        self.opaque = set(opaque)
        self.max_states = max_states
        self.sinks = []
        self.idents = frozenset() # pure functions and methods whose results are told apart by call site
        self.fstack = []          # (Function, frame id, call node)
        self.yield_handlers = []
        self.findings = {}
        self.phis = {}
        self.popped = set()
        self.stats = dict(events=0, calls_inlined=0, loops=0, states=0, branches=0, functions=set())
        self._ids = {}
        self.loops = []           # dynamic stack of (loopid, iterterm, elem)
        self.typer = prog_types(prog)
        self.eval_guard = 0
        self.eager_exc = False
        #: counting mode: small counters and list lengths are tracked exactly up
        #: to CAP (saturating), so loops that count are decided for all lengths
        self.count_mode = False
        self.count_pred = None
        self.small = None
        self.unrolled = ()             # evaluates terms over small known structures
        self.focus_mode = False       # contents of containers of focus atoms are tracked exactly

    # ------------------------------------------------------------------
    # identifiers
    def site(self, node, extra=''):
        """Stable id of a program point in its calling context."""
        ctx = tuple(x[1] for x in self.fstack[-1:])
        key = (ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__, extra)
        r = self._ids.get(key)
        if r is None:
            r = self._ids[key] = 's%d' % len(self._ids)
        return r

    @property
    def frame(self):
        return self.fstack[-1][1]

    @property
    def func(self):
        return self.fstack[-1][0]

    def module(self):
        return self.func.module if isinstance(self.func, Function) else self.func

    def loc(self, node=None):
        f = self.func
        m = f.module if isinstance(f, Function) else f
        line = getattr(node, 'lineno', None)
        if line is None and isinstance(f, Function):
            line = f.node.lineno
        return '%s:%s' % (m.path, line)

    def funcname(self):
        f = self.func
        return f.qual if isinstance(f, Function) else f.name

    # ------------------------------------------------------------------
    # reporting
    def report(self, rule, node, msg, st, key=None):
        f = Finding(rule, msg, self.loc(node), self.funcname(), [t for t in flat_trail(st.trail)], st.taint, key)
        old = self.findings.get(f.key)
        if old is None or (old.tainted and not f.tainted):
            self.findings[f.key] = f

    def note(self, st, node, text):
        st.trail = (st.trail, '%s %s' % (self.loc(node), text))

    def taint(self, st, why):
        st.taint = st.taint | {why}

    # ------------------------------------------------------------------
    # events
    def emit(self, ev, st):
        """Feed an event to the monitor; returns the surviving states."""
        self.stats['events'] += 1
        ev.loops = tuple(self.loops)
        ev.func = self.fstack[-1][0] if self.fstack else None
        r = self.mon.on(ev, st.mon, st, self)
        if r is DEAD:
            return []
        if isinstance(r, list):
            res = []
            for m in r:
                s = st.copy()
                s.mon = m
                res.append(s)
            return res
        st.mon = r
        return [st]

    def throw(self, st, exc):
        self.sinks[-1].append((st, exc))

    # ------------------------------------------------------------------
    # facts
    def snap(self, st, x):
        """Term for the current *content* of x."""
        if x.op in ('const', 'tuple', 'ext', 'func', 'cls', 'comp', 'elem') and x not in st.vers:
            return x
        v = st.vers.get(x)
        if v is not None:
            return T('at', x, v)
        if st.epoch is not None and self.is_shared_mutable(x):
            return T('at', x, st.epoch)
        return x

    def is_shared_mutable(self, x):
        return x.op == 'attr' and x.a[1] in self.typer.mutated_attrs

    def purge(self, st, pred):
        for k in [k for k in st.facts if any(pred(y) for y in k_terms(k))]:
            del st.facts[k]

    def bump(self, st, base, node):
        """The content of base changes."""
        self.purge(st, lambda t: any(y is base or (y.op == 'at' and y.a[0] is base) for y in walk(t)))
        st.vers[base] = self.site(node, 'v')

    def havoc(self, st, node):
        """Other tasks may run: forget everything that they may change."""
        mut = self.typer.stored_attrs
        for k in [k for k in st.heap if isinstance(k[1], str) and k[1] in mut]:
            del st.heap[k]
        st.epoch = self.site(node, 'e')
        for x in [x for x in st.vers if self.is_shared_mutable(x)]:
            st.vers.pop(x)
        self.purge(st, lambda t: 'at' in t.marks or any(self.is_shared_mutable(y) for y in walk(t)))

    def canon(self, t):
        """Condition term -> (key, outcome set | bool); None if constant."""
        if t.op == 'un' and t.a[0] == 'not':
            k = self.canon(t.a[1])
            if isinstance(k, bool):
                return not k
            key, val = k
            if isinstance(val, bool):
                return key, not val
            return key, ALL - val
        if t.op == 'const':
            return bool(cval(t))
        if t.op == 'cmp':
            op, a, b = t.a
            if op in ('is', 'is not'):
                r = self.same(a, b)
                if r is not None:
                    return r if op == 'is' else not r
                if b < a:
                    a, b = b, a
                return ('is', a, b), op == 'is'
            if op in ('in', 'not in'):
                return ('in', a, b), op == 'in'
            n = self.emptiness_cmp(op, a, b)
            if n is not None:
                return n
            if a is b and op in ('==', '<=', '>='):
                if a.op in ('const',):
                    return True
            if a.op == 'const' and b.op == 'const':
                try:
                    return bool({'<': lambda: cval(a) < cval(b), '<=': lambda: cval(a) <= cval(b), '>': lambda: cval(a) > cval(b),
                                 '>=': lambda: cval(a) >= cval(b), '==': lambda: cval(a) == cval(b), '!=': lambda: cval(a) != cval(b)}[op]())
                except TypeError:
                    pass
            if op in ('==', '!='):
                r = self.same(a, b)
                if r is False and (a.op in ('const', 'ext', 'cls', 'func') and b.op in ('const', 'ext', 'cls', 'func')):
                    return op == '!='
                if is_const(b, True, False) and a.op in ('cmp', 'un'):
                    k = self.canon(a)
                    want = cval(b) == (op == '==')
                    return self._neg(k) if not want else k
            s = CMPSET[op]
            if is_len(a) or is_len(b):
                # an integer; the other side is taken not to be NaN
                if op == '!=':
                    s = frozenset('<>')
                if b < a:
                    return ('ord', b, a), LenSet(FLIP[x] for x in s)
                return ('ord', a, b), LenSet(s)
            if b < a:
                a, b = b, a
                s = frozenset(FLIP[x] for x in s)
            return ('ord', a, b), s
        return self.truth_atom(t)

    @staticmethod
    def _neg(k):
        if isinstance(k, bool):
            return not k
        key, val = k
        return (key, not val) if isinstance(val, bool) else (key, ALL - val)

    def same(self, a, b):
        """Identity of two terms: True / False / None."""
        if a is b:
            return True
        known = ('const', 'obj', 'inst', 'func', 'cls', 'bound', 'tuple', 'ext', 'comp', 'coro', 'exc', 'dict', 'seq', 'wrapped', 'partial', 'sentinel')
        if a.op in known and b.op in known:
            if a.op == 'inst' and b.op == 'inst':
                return None
            return False
        for x, y in ((a, b), (b, a)):
            if y is NONE and (x.op in ('bin', 'cmp') or (x.op == 'un')):
                return False
            if y is NONE and x.op == 'call' and x.a[0].op == 'ext' and exts.never_none(x.a[0].a[0]):
                return False
            if y is NONE and x.op == 'attr' and self.typer.not_none(x):
                return False
            if y is NONE and x.op == 'phi':
                alts = self.alternatives(x)
                if alts and all(self.same(z, NONE) is False for z in alts):
                    return False
        return None

    def emptiness_cmp(self, op, a, b):
        """len(x) compared with 0 / 1 -> truth of x."""
        if is_len(b) and a.op == 'const':
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if is_len(a) and b.op == 'const' and isinstance(cval(b), int):
            c = cval(b)
            x = a.a[1][0]
            if (op == '>' and c == 0) or (op == '>=' and c == 1) or (op == '!=' and c == 0):
                return self.truth_atom(x)
            if (op == '==' and c == 0) or (op == '<' and c == 1) or (op == '<=' and c == 0):
                return self._neg(self.truth_atom(x))
        # x == [] / x == ()
        for x, y in ((a, b), (b, a)):
            if op in ('==', '!=') and y.op == 'tuple' and not y.a[0]:
                k = self.truth_atom(x)
                return self._neg(k) if op == '==' else k
        return None

    def truth_atom(self, t):
        if t.op == 'const':
            return bool(cval(t))
        if t.op in ('func', 'cls', 'bound', 'ext', 'inst', 'coro', 'exc', 'mod'):
            if t.op == 'inst':
                return ('truth', t), True
            return True
        if t.op == 'tuple':
            return bool(t.a[0])
        if t.op in ('cmp',) or (t.op == 'un' and t.a[0] == 'not'):
            return self.canon(t)
        if t.op == 'call' and t.a[0].op == 'ext':
            nm = t.a[0].a[0]
            if nm in ('builtins.len', 'builtins.bool', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted',
                      'builtins.frozenset', 'builtins.reversed', 'numpy.bool_') and len(t.a[1]) == 1 and t.a[1][0].op != 'star':
                return self.truth_atom(t.a[1][0])
        if t.op == 'call' and t.a[0].op == 'attr':
            recv, m = t.a[0].a[0], t.a[0].a[1]
            if m == 'empty' and not t.a[1]:
                return self._neg(self.truth_atom(queue_content(recv)))
            if m in ('qsize', 'copy', '__len__', 'keys', 'values', 'items') and not t.a[1]:
                return self.truth_atom(queue_content(recv) if m == 'qsize' else recv)
        if t.op == 'attr' and t.a[1] == 'queue':
            return ('truth', queue_content(t.a[0])), True
        if t.op == 'at' and t.a[0].op == 'attr' and t.a[0].a[1] == 'queue':
            return ('truth', T('at', queue_content(t.a[0].a[0]), t.a[1])), True
        if t.op == 'un' and t.a[0] == '-':
            return self.truth_atom(t.a[1])
        return ('truth', t), True

    def known(self, st, key):
        """Possible outcomes recorded for an atom."""
        return st.facts.get(key)

    def assume(self, st, t, want):
        """States in which the condition term has the given truth value."""
        if self.small is not None:
            v = self.small.truth(self, st, t)
            if v is not None:
                return [st] if v == want else []
        # disjunctions hidden in terms
        if t.op == 'un' and t.a[0] == 'not':
            return self.assume(st, t.a[1], not want)
        if t.op == 'or':
            if want:
                res = []
                s = st
                for x in t.a[0]:
                    nxt = s.copy()
                    res += self.assume(s.copy(), x, True)
                    ss = self.assume(nxt, x, False)
                    if not ss:
                        break
                    s = ss[0]
                return res
            ss = [st]
            for x in t.a[0]:
                ss = [y for s in ss for y in self.assume(s, x, False)]
            return ss
        if t.op == 'and':
            if not want:
                return self.assume(st, T('or', tuple(T('un', 'not', x) for x in t.a[0])), True)
            ss = [st]
            for x in t.a[0]:
                ss = [y for s in ss for y in self.assume(s, x, True)]
            return ss
        b = strip_bool(t)
        if b is not t:
            return self.assume(st, b, want)
        if is_concat(t) and not self.has_array(t):
            return self.assume(st, T('or', (t.a[1], t.a[2])), want)
        k = self.canon(t)
        if isinstance(k, bool):
            return [st] if k == want else []
        key, val = k
        if not want:
            val = (not val) if isinstance(val, bool) else ALL - val
        old = st.facts.get(key)
        if key[0] == 'ord':
            if isinstance(val, LenSet) and 'u' in val:
                val = LenSet(val - {'u'})
            new = val if old is None else (old & val)
            if not new:
                return []
            for ch in self.check_ord(st, key, new):
                if not ch:
                    return []
        else:
            new = val
            if old is not None and old != new:
                return []
            if key[0] == 'is' and new and not self.may_alias(st, key):
                return []
            if key[0] == 'truth' and new is False and key[1] in self.popped:
                return []
            if key[0] == 'truth' and key[1].op == 'phi':
                alts = self.alternatives(key[1])
                if alts and all(a.op == 'const' and bool(cval(a)) != new for a in alts):
                    return []
        s = st
        s.facts[key] = new
        ev = Ev('assume', None, term=t, want=want, key=key, val=new, old=old)
        return self.emit(ev, s)

    def check_ord(self, st, key, new):
        """Contradictions between comparisons of one term with two constants."""
        _, a, b = key
        for x, c in ((a, b), (b, a)):
            if c.op == 'const' and isinstance(cval(c), (int, float)) and not isinstance(cval(c), bool):
                rel = new if x is a else frozenset(FLIP[y] for y in new)
                for k2, v2 in st.facts.items():
                    if k2[0] != 'ord' or k2 == key:
                        continue
                    if k2[1] is x and k2[2].op == 'const' and isinstance(cval(k2[2]), (int, float)):
                        c2, r2 = cval(k2[2]), v2
                    elif k2[2] is x and k2[1].op == 'const' and isinstance(cval(k2[1]), (int, float)):
                        c2, r2 = cval(k2[1]), frozenset(FLIP[y] for y in v2)
                    else:
                        continue
                    yield _compatible(rel, cval(c), r2, c2)

    def may_alias(self, st, key):
        a, b = key[1], key[2]
        for x, y in ((a, b), (b, a)):
            if y is NONE and x in self.popped:
                return False
            if y is NONE and x.op == 'phi':
                alts = self.alternatives(x)
                if alts and all(self.same(z, NONE) is False or z in self.popped for z in alts):
                    return False
        return True

    def holds(self, st, t):
        """True / False / None for a condition term in this state."""
        a = self.assume_quiet(st, t, True)
        b = self.assume_quiet(st, t, False)
        if a and not b:
            return True
        if b and not a:
            return False
        return None

    def assume_quiet(self, st, t, want):
        mon, self.mon = self.mon, Monitor()
        try:
            return bool(self.assume(st.copy(), t, want))
        finally:
            self.mon = mon

    # ------------------------------------------------------------------
    # phi / merging
    def alternatives(self, t, seen=None):
        """All non-phi alternatives of a term."""
        if t.op != 'phi':
            return {t}
        res, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                todo += self.phis.get(x, ())
            else:
                res.add(x)
        return res

    def phi(self, tag, slot, *alts):
        p = T('phi', tag, slot)
        s = self.phis.setdefault(p, set())
        for a in alts:
            if a is not p:
                s.add(a)
        return p

    def merge(self, a, b, tag, mon=None):
        """Least common description of two states."""
        r = State()
        r.mon = a.mon if mon is None else mon
        r.trail = a.trail
        r.taint = a.taint | b.taint
        r.epoch = a.epoch if a.epoch == b.epoch else 'L' + tag
        for fid in a.frames.keys() | b.frames.keys():
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                r.frames[fid] = fa or fb
                continue
            if fa is fb:
                r.frames[fid] = fa
                continue
            fr = {}
            for v in fa.keys() | fb.keys():
                x, y = fa.get(v), fb.get(v)
                if x is y:
                    fr[v] = x
                else:
                    fr[v] = self.phi(tag, (fid, v), *[z for z in (x, y) if z is not None] + ([UNDEF] if x is None or y is None else []))
            r.frames[fid] = fr
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                r.heap[k] = x
            elif x is None or y is None:
                z = x if y is None else y
                if z.op == 'attr' and z.a[1] == k[1] and z.a[0] is k[0]:
                    continue          # a cached read
                if k[0].op in ('obj', 'inst') and self.is_site(k[0]):
                    r.heap[k] = z     # object exists on one side only
                else:
                    r.heap[k] = self.phi(tag, ('heap',) + k, z, attr(k[0], k[1] if isinstance(k[1], str) else '?', 'any'))
            else:
                r.heap[k] = self.phi(tag, ('heap',) + k, x, y)
        for k in a.facts.keys() & b.facts.keys():
            x, y = a.facts[k], b.facts[k]
            if k[0] == 'ord':
                u = x | y
                if u != ALL:
                    r.facts[k] = u
            elif x == y:
                r.facts[k] = x
        for k in a.vers.keys() | b.vers.keys():
            x, y = a.vers.get(k), b.vers.get(k)
            r.vers[k] = x if x == y else 'L' + tag
        return r

    def is_site(self, t):
        return t.op == 'obj' or (t.op == 'inst' and t.a[2])

    def partition(self, st):
        """Merging key: monitor state and boolean/None flags of the active frames."""
        flags = []
        for _, fid, _ in self.fstack[-3:]:
            for v, x in st.frames.get(fid, {}).items():
                if x.op == 'const' and (cval(x) is None or isinstance(cval(x), bool)):
                    flags.append((fid, v, x.id))
        if self.focus_mode:
            held = {x for _, fid, _ in self.fstack for x in st.frames.get(fid, {}).values()}
            held |= {x for k, x in st.heap.items() if k[1] != '#'}
            for k, x in st.heap.items():
                if k[1] == '#' and x.op == 'seq' and (not x.a[0] and k[0] in held or x.a[0] and all(any(y.op == 'focus' for y in walk(e)) for e in x.a[0])):
                    flags.append((k[0].id, x.id))
        if self.count_mode:
            for _, fid, _ in self.fstack:
                for v, x in st.frames.get(fid, {}).items():
                    if x.op == 'const' and isinstance(cval(x), int) and abs(cval(x)) <= CAP + 1:
                        flags.append((fid, v, x.id))
                    elif x.op == 'obj':
                        c = st.heap.get((x, '#'))
                        if c is not None and c.op == 'seq':
                            flags.append((fid, v, len(c.a[0])))
        return (st.mon, frozenset(flags), bool(st.taint))

    def compact(self, states, node, force=False):
        """Drop duplicates; merge if there are too many."""
        if len(states) <= 1:
            return states
        seen, res = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        if len(res) > self.max_states or force:
            tag = self.site(node, 'm') if node is not None else 'm'
            groups = {}
            for s in res:
                k = self.partition(s)
                groups[k] = self.merge(groups[k], s, tag) if k in groups else s
            if len(groups) > self.max_states:
                g2 = {}
                for s in groups.values():
                    k = (s.mon, bool(s.taint))
                    g2[k] = self.merge(g2[k], s, tag) if k in g2 else s
                groups = g2
            res = list(groups.values())
        self.stats['states'] = max(self.stats['states'], len(res))
        return res

    def compact_vals(self, pairs, node):
        """compact() for (state, value) pairs."""
        if len(pairs) <= 1:
            return pairs
        seen, res = set(), []
        for s, v in pairs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        if len(res) > self.max_states:
            tag = self.site(node, 'r')
            groups = {}
            for s, v in res:
                k = (self.partition(s), v if v.op == 'const' else None)
                if k in groups:
                    s0, v0 = groups[k]
                    groups[k] = (self.merge(s0, s, tag), v0 if v0 is v else self.phi(tag, ('ret',), v0, v))
                else:
                    groups[k] = (s, v)
            res = list(groups.values())
        return res

    def compact_exc(self, excs, node):
        if len(excs) <= 1:
            return excs
        groups = {}
        tag = self.site(node, 'x') if node is not None else 'x'
        out = []
        seen = set()
        for s, e in excs:
            k = (s.key(), e)
            if k not in seen:
                seen.add(k)
                out.append((s, e))
        if len(out) <= 8:
            return out
        for s, e in out:
            k = (self.partition(s), e)
            groups[k] = (self.merge(groups[k][0], s, tag), e) if k in groups else (s, e)
        if len(groups) > self.max_states:
            g2 = {}
            for s, e in groups.values():
                k = (s.mon, e)
                g2[k] = (self.merge(g2[k][0], s, tag), e) if k in g2 else (s, e)
            groups = g2
        return list(groups.values())

    # ------------------------------------------------------------------
    # loops
    def fix(self, states, loopid, step, node):
        """Fixpoint of a loop.  step(head) -> (continue states, exit states)."""
        self.stats['loops'] += 1
        heads, results = {}, {}
        work = [(s, True) for s in states]
        rounds = 0
        while work:
            rounds += 1
            changed = {}
            for s, entry in work:
                if not entry:
                    s = self.refresh(s, loopid)
                    if s is None:
                        continue
                k = self.partition(s)
                if rounds > (4 * MAX_LOOP if self.count_mode else MAX_LOOP):
                    k = (s.mon, 'w')
                old = heads.get(k)
                if old is None:
                    heads[k] = s
                    changed[k] = True
                else:
                    new = self.merge(old, s, loopid)
                    if new.key() != old.key():
                        heads[k] = new
                        changed[k] = True
            work = []
            if rounds > (6 if self.count_mode else 3) * MAX_LOOP:
                for k in heads:
                    self.taint(heads[k], 'loop did not stabilise')
                for h in heads.values():
                    pass
                break
            for k in changed:
                cont, exit_ = step(heads[k].copy())
                results[k] = exit_
                work += [(s, False) for s in self.compact(cont, node)]
        out = []
        for k, r in results.items():
            out += r
        return self.compact(out, node)

    def refresh(self, st, loopid):
        """Pass a state over the back edge: values computed from this
        iteration's loop variables become opaque."""
        s = st.copy()
        m = self.mon.back_edge(s.mon, loopid)
        if m is DEAD:
            return None
        s.mon = m
        stale = lambda t: loopid in t.marks
        for fid, fr in list(s.frames.items()):
            new = None
            for v, x in fr.items():
                own = T('phi', loopid, (fid, v))
                if x is not own and stale(x):
                    if new is None:
                        new = dict(fr)
                    new[v] = self.phi(loopid, (fid, v), x)
            if new is not None:
                s.frames[fid] = new
        for k, x in list(s.heap.items()):
            own = T('phi', loopid, ('heap',) + k)
            if x.op == 'attr' and x.a[0] is k[0] and x.a[1] == k[1] and stale(k[0]):
                del s.heap[k]         # a cached read
            elif self.count_mode and x.op == 'seq' and stale(x):
                p = T('phi', loopid, ('seqelt',) + k)
                for y in x.a[0]:
                    if y is not p and stale(y):
                        self.phi(loopid, ('seqelt',) + k, y)
                s.heap[k] = T('seq', tuple(p if stale(y) else y for y in x.a[0]))
            elif x is not own and stale(x):
                s.heap[k] = self.phi(loopid, ('heap',) + k, x)
        for k in [k for k in s.facts if any(stale(t) for t in k_terms(k))]:
            del s.facts[k]
        return s

    # ------------------------------------------------------------------
    # entry points
    def run(self, f, args=(), kwargs=(), self_term=None, st=None, setup=None, closure=None):
        """Analyse function f from a fresh state. Returns (returns, raises)."""
        st = st or State()
        if st.mon is None:
            st.mon = self.mon.init()
        self.sinks.append([])
        self.fstack.append((f.module, 'top', None))
        if setup:
            setup(st)
        try:
            if isinstance(f, Function):
                fterm = T('func', f.fid, closure)
                if self_term is not None:
                    args = (self_term,) + tuple(args)
                rets = self.inline(f, fterm, list(args), list(kwargs), st, f.node, force=True, run_async=True)
        finally:
            self.fstack.pop()
            excs = self.sinks.pop()
        return rets, self.compact_exc(excs, f.node)

    def symbolic_args(self, f, types=None, skip_self=True):
        """Input terms for every parameter of f (for entry analysis)."""
        a = f.node.args
        pos = a.posonlyargs + a.args
        if skip_self and f.cls is not None and self.prog.method_kind(f) != 'staticmethod' and f.parent is None:
            pos = pos[1:]
        args = [T('in', x.arg) for x in pos]
        kwargs = [(x.arg, T('in', x.arg)) for x in a.kwonlyargs]
        return args, kwargs

    # ------------------------------------------------------------------
    # functions
    def bind(self, f, args, kwargs, st, node, fterm):
        """Bind call arguments to parameters; list of (state, frame dict)."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        fr = {}
        args = list(args)
        # expand starred
        flat, opaque_star = [], None
        for x in args:
            if x.op == 'star':
                items = self.seq_items(st, x.a[0])
                if items is None:
                    opaque_star = x.a[0]
                else:
                    flat += items
            else:
                flat.append(x)
        kw, opaque_kw = {}, []
        for k, v in kwargs:
            if k == '**':
                items = self.dict_items(st, v)
                if items is None:
                    opaque_kw.append(v)
                else:
                    for kk, vv in items:
                        if kk is None:
                            opaque_kw.append(vv)
                        elif kk.op == 'const' and isinstance(cval(kk), str):
                            kw[cval(kk)] = vv
                        else:
                            opaque_kw.append(T('dictitem', kk, vv))
            else:
                kw[k] = v
        for i, p in enumerate(pos):
            if i < len(flat):
                fr[p] = flat[i]
            elif p in kw:
                fr[p] = kw.pop(p)
        rest = flat[len(pos):]
        if a.vararg:
            fr[a.vararg.arg] = tup(*rest) if opaque_star is None else (opaque_star if not rest else T('tuple', tuple(rest) + (T('star', opaque_star),)))
        missing = [p for p in pos + kwo if p not in fr and p not in kw]
        for p in kwo:
            if p in kw:
                fr[p] = kw.pop(p)
        if a.kwarg:
            ob = T('obj', 'dict', self.site(node, 'kw'))
            items = [T('kv', const(k), v) for k, v in kw.items()] + [T('kv', T('starstar'), v) for v in opaque_kw]
            if opaque_kw and not kw and len(opaque_kw) == 1:
                fr[a.kwarg.arg] = opaque_kw[0]
            else:
                st.heap[(ob, '#')] = T('ditems', tuple(items))
                fr[a.kwarg.arg] = ob
        res = [(st, fr)]
        if missing:
            defaults = {}
            dp = a.defaults
            allpos = a.posonlyargs + a.args
            for x, d in zip(allpos[len(allpos) - len(dp):], dp):
                defaults[x.arg] = d
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[x.arg] = d
            for p in missing:
                if opaque_kw and (p in kwo or True):
                    src = opaque_kw[-1]
                    if p in defaults:
                        res2 = []
                        for s, frx in res:
                            for s2, dv in self.eval_default(f, fterm, defaults[p], s):
                                fr2 = dict(frx)
                                fr2[p] = T('kwget', src, p, dv)
                                res2.append((s2, fr2))
                        res = res2
                    else:
                        res = [(s, dict(frx, **{p: T('kwget', src, p)})) for s, frx in res]
                elif opaque_star is not None and p in pos:
                    res = [(s, dict(frx, **{p: T('sub', opaque_star, const(pos.index(p) - len(flat)))})) for s, frx in res]
                elif p in defaults:
                    res2 = []
                    for s, frx in res:
                        for s2, dv in self.eval_default(f, fterm, defaults[p], s):
                            res2.append((s2, dict(frx, **{p: dv})))
                    res = res2
                else:
                    # TypeError at run time
                    for s, frx in res:
                        self.emit(Ev('badcall', node, fn=f, param=p), s)
                        self.throw(s.copy(), T('exc', 'X', 'call', 'builtins.TypeError'))
                    return []
        return res

    def eval_default(self, f, fterm, dnode, st):
        self.fstack.append((f.parent or f.module, fterm.a[1] or 'mod:' + f.module.name, None))
        try:
            r = self.eval(dnode, st)
        finally:
            self.fstack.pop()
        out = []
        for s, v in r:
            if v.op == 'obj' or v.op == 'call':
                # evaluated once at definition: identity shared by all calls
                content = s.heap.get((v, '#')) if v.op == 'obj' else v
                g = T('default', f.fid, ast.dump(dnode)[:80], content if content is not None else NONE)
                if v.op == 'obj' and content is not None:
                    s.heap.setdefault((g, '#'), content)
                out.append((s, g))
            else:
                out.append((s, v))
        return out

    def frame_id(self, f, node):
        key = (self.fstack[-1][1], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), f.fid)
        r = self._ids.get(key)
        if r is None:
            r = self._ids[key] = 'f%d:%s' % (len(self._ids), f.name)
        return r

    def inline(self, f, fterm, args, kwargs, st, node, force=False, run_async=False):
        """Follow a call into a package function. Returns [(state, value)]."""
        if f.is_async and not run_async:
            return [(st, T('coro', fterm, tuple(args), tuple(kwargs)))]
        if f.is_generator and not run_async:
            return [(st, T('gen', fterm, tuple(args), tuple(kwargs)))]
        if not force:
            if f.fid in self.opaque or f.qual in self.opaque or f.name in self.opaque:
                return self.opaque_call(fterm, args, kwargs, st, node, f)
            if sum(1 for x in self.fstack if x[0] is f) >= 1 or len(self.fstack) > MAX_DEPTH:
                if sum(1 for x in self.fstack if x[0] is f) >= 1:
                    self.taint_soft(st, 'recursion into %s' % f.qual)
                else:
                    self.taint(st, 'call depth at %s' % f.qual)
                return self.opaque_call(fterm, args, kwargs, st, node, f)
        self.stats['calls_inlined'] += 1
        self.stats['functions'].add(f.fid)
        fid = self.frame_id(f, node)
        results = []
        self.sinks.append([])
        for s, fr in self.bind(f, args, kwargs, st, node, fterm):
            fr['#closure'] = T('fid', fterm.a[1]) if fterm.a[1] else NONE
            s.frames[fid] = fr
            self.fstack.append((f, fid, node))
            yh = self.yield_handlers
            if not f.is_generator:
                self.yield_handlers = []
            try:
                for s1 in self.emit(Ev('enter', node, fn=f, args=fr, fterm=fterm), s):
                    if isinstance(f.node, ast.Lambda):
                        rets = self.eval(f.node.body, s1)
                    else:
                        out = self.block(f.node.body, [s1])
                        rets = out.ret + [(x, NONE) for x in out.next]
                    rets = self.compact_vals(rets, node)
                    for s2, v in rets:
                        if f.name == 'pop_queued' and f.cls is not None and v.op in ('call', 'res', 'ret'):
                            self.popped.add(v)      # what is queued is in normal form: a tuple
                        for s3 in self.emit(Ev('exit', node, fn=f, value=v, args=fr), s2):
                            results.append((s3, v))
            finally:
                self.yield_handlers = yh
                self.fstack.pop()
        excs = self.sinks.pop()
        for s, e in self.compact_exc(excs, node):
            for s1 in self.emit(Ev('exitexc', node, fn=f, exc=e), s):
                self.throw(s1, e)
        nested = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)) for x in ast.walk(f.node) if x is not f.node)
        if not nested and not force:
            for s, v in results:
                s.frames.pop(fid, None)
        return self.compact_vals(results, node)

    def taint_soft(self, st, why):
        st.taint = st.taint | {why}

    def opaque_call(self, fterm, args, kwargs, st, node, f):
        t = call(fterm, args, kwargs, self.site(node, 'c'))
        res = []
        for s in self.emit(Ev('call', node, fn=f, name=f.qual, args=args, kwargs=dict(kwargs), result=t, opaque=True), st):
            res.append((s, t))
        return res

    # ------------------------------------------------------------------
    # statements
    def block(self, stmts, states):
        out = Out(states)
        live = self.live()
        for node in stmts:
            if not out.next:
                break
            if live is not None:
                self.prune(out.next, live, live.before.get(id(node)))
            cur, out.next = self.compact(out.next, node), []
            for s in cur:
                o = self.stmt(node, s)
                out.next += o.next
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
        if live is not None and stmts:
            self.prune(out.next, live, live.after.get(id(stmts[-1])))
        out.next = self.compact(out.next, stmts[-1] if stmts else None)
        return out

    def live(self):
        """Liveness of the locals of the current function."""
        f = self.fstack[-1][0]
        if self.mon is not None and self.mon.keep_locals or not isinstance(f, Function) or isinstance(f.node, ast.Lambda) or '/c' in str(self.fstack[-1][1]):
            return None
        r = _LIVE.get(id(f.node))
        if r is None:
            r = _LIVE[id(f.node)] = (f.node, Liveness(f.node))
        return r[1]

    def prune(self, states, live, names):
        """Forget the locals that are not read any more."""
        if names is None:
            return
        fid = self.fstack[-1][1]
        for s in states:
            fr = s.frames.get(fid)
            if fr is None:
                continue
            dead = [v for v in fr if v not in names and v not in live.always and v[:1] != '#']
            if dead:
                s.frames[fid] = {v: x for v, x in fr.items() if v not in dead}

    def stmt(self, node, st):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            self.taint(st, 'unsupported statement %s at %s' % (type(node).__name__, self.loc(node)))
            return Out([st])
        return m(node, st)

    def s_Expr(self, node, st):
        return Out([s for s, _ in self.eval(node.value, st)])

    def s_Pass(self, node, st):
        return Out([st])

    def s_Assign(self, node, st):
        out = Out()
        for s, v in self.eval(node.value, st):
            ss = [s]
            for t in node.targets:
                ss = [y for x in ss for y in self.assign(t, v, x, node)]
            out.next += ss
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return Out([st])
        out = Out()
        for s, v in self.eval(node.value, st):
            out.next += self.assign(node.target, v, s, node)
        return out

    def s_AugAssign(self, node, st):
        out = Out()
        op = OPS[type(node.op).__name__]
        load = as_load(node.target)
        for s, old in self.eval(load, st):
            for s2, v in self.eval(node.value, s):
                new = self.binop(op, old, v)
                for s3 in self.emit(Ev('augassign', node, old=old, op=op, value=v, result=new), s2):
                    if op in ('-', '+', '|', '&') and old.op in ('obj', 'attr', 'comp') and self.kind_of(old, s3) in ('set', 'list'):
                        # in-place update of a container
                        mname = {'-': 'difference_update', '+': 'extend', '|': 'update', '&': 'intersection_update'}[op]
                        ss = []
                        for x in self.mutate(s3, old, mname, [v], [], node):
                            # the variable keeps naming the same object
                            ss += self.assign(node.target, old, x, node, aug=True)
                    else:
                        ss = self.assign(node.target, new, s3, node, aug=True)
                    out.next += ss
        return out

    def s_Delete(self, node, st):
        states = [st]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    fid = self.scope_of(t.id, s)
                    if fid:
                        s.put(fid, t.id, UNDEF)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.eval(t.value, s):
                        for s2, i in self.eval(t.slice, s1):
                            nxt += self.mutate(s2, b, '__delitem__', [i], [], node)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.eval(t.value, s):
                        for s2 in self.emit(Ev('delattr', node, base=b, name=t.attr), s1):
                            nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        return Out(states)

    def s_Return(self, node, st):
        out = Out()
        if node.value is None:
            rs = [(st, NONE)]
        else:
            rs = self.eval(node.value, st)
        for s, v in rs:
            for s2 in self.emit(Ev('return', node, value=v), s):
                out.ret.append((s2, v))
        return out

    def s_Break(self, node, st):
        o = Out()
        o.brk = self.emit(Ev('break', node), st)
        return o

    def s_Continue(self, node, st):
        o = Out()
        o.cont = [st]
        return o

    def s_If(self, node, st):
        t, f = self.cond(node.test, st)
        for s in t:
            self.note(s, node, 'condition `%s` is true' % src(node.test))
        for s in f:
            self.note(s, node, 'condition `%s` is false' % src(node.test))
        self.stats['branches'] += 1
        a = self.block(node.body, t)
        b = self.block(node.orelse, f) if node.orelse else Out(f)
        return join(a, b)

    def s_Global(self, node, st):
        return Out([st])
    s_Nonlocal = s_Global

    def s_Import(self, node, st):
        states = [st]
        for al in node.names:
            nxt = []
            for s in states:
                for s1 in self.emit(Ev('import', node, name=al.name), s):
                    name = al.asname or al.name.split('.')[0]
                    dotted = al.name if al.asname else al.name.split('.')[0]
                    r = self.prog.modules.get(dotted)
                    s1.put(self.frame, name, T('mod', r.name) if r else ext(dotted))
                    nxt.append(s1)
            states = nxt
        return Out(states)

    def s_ImportFrom(self, node, st):
        m = self.module()
        mod = self.prog._absolute(m, node)
        states = [st]
        for al in node.names:
            nxt = []
            for s in states:
                for s1 in self.emit(Ev('import', node, name=mod + '.' + al.name), s):
                    if mod in self.prog.modules:
                        r = self.prog.resolve_name(self.prog.modules[mod], al.name, builtin=False) or self.prog.modules.get(mod + '.' + al.name)
                        vals = self.resolved(r, s1)
                    else:
                        vals = [(s1, ext(mod + '.' + al.name))]
                    for s2, v in vals:
                        s2.put(self.frame, al.asname or al.name, v)
                        nxt.append(s2)
            states = nxt
        return Out(states)

    def s_FunctionDef(self, node, st):
        f = self.module().nested.get(node)
        v = T('func', f.fid, self.frame)
        states = [(st, v)]
        for d in reversed(node.decorator_list):
            nxt = []
            for s, val in states:
                nxt += self.apply_decorator(d, val, s)
            states = nxt
        out = Out()
        for s, val in states:
            s.put(self.frame, node.name, val)
            out.next.append(s)
        return out
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, node, st):
        c = self.module().nested.get(node)
        st.put(self.frame, node.name, T('cls', c.cid))
        return Out([st])

    def s_Assert(self, node, st):
        t, f = self.cond(node.test, st)
        for s in f:
            self.throw(s, T('exc', 'X', 'assert@' + self.site(node), 'builtins.AssertionError'))
        return Out(t)

    def s_Raise(self, node, st):
        if node.exc is None:
            exc = st.get(self.frame, '#exc') or T('exc', 'E', 'unknown', None)
            for s in self.emit(Ev('raise', node, exc=exc, reraise=True), st):
                self.throw(s, exc)
            return Out()
        for s, v in self.eval(node.exc, st):
            ss = [(s, None)]
            if node.cause is not None:
                ss = self.eval(node.cause, s)
            for s1, cause in ss:
                exc = self.as_exc(v, node)
                for s2 in self.emit(Ev('raise', node, exc=exc, value=v, cause=cause), s1):
                    self.throw(s2, exc)
        return Out()

    def as_exc(self, v, node):
        if v.op == 'exc':
            return v
        if v.op == 'call' and v.a[0].op == 'ext':
            return T('exc', 'X', self.site(node), v.a[0].a[0])
        if v.op == 'ext':
            return T('exc', 'X', self.site(node), v.a[0])
        if v.op == 'inst':
            return T('exc', 'X', self.site(node), v.a[0])
        return T('exc', 'V', v, None)

    def s_Match(self, node, st):
        self.taint(st, 'match statement at %s' % self.loc(node))
        out = Out([st.copy()])
        for case in node.cases:
            out = join(out, self.block(case.body, [st.copy()]))
        return out

    # loops ---------------------------------------------------------------
    def s_While(self, node, st):
        loopid = self.site(node, 'w')
        brk, rets = [], []

        def step(head):
            for s in [head]:
                t, f = self.cond(node.test, s)
                body_in = []
                for x in t:
                    body_in += self.emit(Ev('iter', node, loop=loopid, while_=True), x)
                self.loops.append((loopid, None, None))
                try:
                    o = self.block(node.body, body_in)
                finally:
                    self.loops.pop()
                brk.extend(o.brk)
                rets.extend(o.ret)
                cont = []
                for x in o.next + o.cont:
                    cont += self.emit(Ev('iterend', node, loop=loopid, while_=True), x)
                exits = []
                for x in f:
                    exits += self.emit(Ev('loopdone', node, loop=loopid, while_=True), x)
                return cont, exits
        exits = self.fix([st], loopid, step, node)
        out = Out(exits)
        if node.orelse:
            o = self.block(node.orelse, exits)
            out = Out(o.next)
            out.brk, out.cont, out.ret = o.brk, o.cont, o.ret
        out.next = self.compact(out.next + brk, node)
        out.ret += self.compact_vals(rets, node)
        return out

    def s_For(self, node, st):
        out = Out()
        for s, it in self.eval(node.iter, st):
            brk, rets = [], []

            def handler(s1, elem):
                o = Out()
                states = self.assign(node.target, elem, s1, node)
                o = self.block(node.body, states)
                rets.extend(o.ret)
                return o.next + o.cont, o.brk
            exits, broken = self.iterate(s, it, node, handler)
            if node.orelse:
                o = self.block(node.orelse, exits)
                exits = o.next
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
            out.next += exits + broken
            out.ret += rets
        out.next = self.compact(out.next, node)
        out.ret = self.compact_vals(out.ret, node)
        return out

    def s_AsyncFor(self, node, st):
        self.taint(st, 'async for at %s' % self.loc(node))
        return self.s_For(node, st)

    # iteration -------------------------------------------------------------
    def iterate(self, st, it, node, handler, depth=0):
        """Run handler(state, element) for every element of an iterable.
        Returns (exhausted states, states that left by break)."""
        items = self.finite_items(st, it)
        if items is not None and len(items) <= 8:
            cur, broken = [st], []
            outer = self.unrolled
            try:
                for k, x in enumerate(items):
                    self.unrolled = outer + (k,)
                    nxt = []
                    for s in cur:
                        c, b = handler(s, x)
                        nxt += c
                        broken += b
                    cur = self.compact(nxt, node)
            finally:
                self.unrolled = outer
            return cur, broken
        it0 = strip_iter(it)
        if it0.op == 'genx':
            return self.run_genexp(st, it0, node, handler)
        if it0.op == 'gen' and it0.a[0].a[0] in self.opaque:
            return self.iterate_opaque(st, it, node, handler)
        if it0.op == 'gen':
            return self.run_generator(st, it0, node, handler)
        if it0.op == 'call' and it0.a[0].op == 'ext':
            nm, args = it0.a[0].a[0], it0.a[1]
            if nm == 'builtins.enumerate' and args:
                src_ = args[0]
                start = args[1] if len(args) > 1 else dict(it0.a[2]).get('start', const(0))
                if self.count_mode and start.op == 'const' and self.finite_items(st, src_) is None:
                    var = '#enum' + self.site(node, 'en')
                    fid = self.frame
                    st.put(fid, var, start)

                    def h(s, e):
                        i = s.get(fid, var)
                        s.put(fid, var, self.binop('+', i, const(1)))
                        return handler(s, tup(i, e))
                    return self.iterate(st, src_, node, h)
                if strip_iter(src_).op in ('genx', 'gen') or self.finite_items(st, src_) is not None:
                    fin = self.finite_items(st, src_)
                    if fin is not None and len(fin) <= 8 and start.op == 'const':
                        return self.iterate(st, tup(*[tup(const(cval(start) + i), x) for i, x in enumerate(fin)]), node, handler)
                    return self.iterate(st, src_, node, lambda s, e: handler(s, tup(T('idx', src_, self.site(node, 'i'), start), e)))
            if nm == 'builtins.zip' and args and not it0.a[2]:
                fins = [self.finite_items(st, x) for x in args]
                if all(f is not None for f in fins):
                    return self.iterate(st, tup(*[tup(*x) for x in zip(*fins)]), node, handler)
            if nm == 'builtins.map' and len(args) == 2:
                def h(s, e):
                    c, b = [], []
                    for s1, v in self.apply(args[0], [e], [], s, node):
                        c1, b1 = handler(s1, v)
                        c += c1
                        b += b1
                    return c, b
                return self.iterate(st, args[1], node, h)
            if nm == 'builtins.filter' and len(args) == 2:
                def h(s, e):
                    c, b = [], []
                    vals = [(s, e)] if args[0] is NONE else self.apply(args[0], [e], [], s, node)
                    for s1, v in vals:
                        c += self.assume(s1.copy(), v, False)
                        for s2 in self.assume(s1, v, True):
                            c1, b1 = handler(s2, e)
                            c += c1
                            b += b1
                    return c, b
                return self.iterate(st, args[1], node, h)
            if nm == 'itertools.chain' and args and not any(x.op == 'star' for x in args):
                cur, broken = [st], []
                for x in args:
                    nxt = []
                    for s in cur:
                        c, b = self.iterate(s, x, node, handler)
                        nxt += c
                        broken += b
                    cur = nxt
                return cur, broken
        if it0.op == 'comp' and it0.a[0] != 'dict' and not self.atomic:
            # elements of a materialised comprehension
            return self.iterate_comp(st, it0, node, handler)
        if is_concat(it0) and not self.has_array(it0):
            c1, b1 = self.iterate(st, it0.a[1], node, handler)
            out, brk = [], list(b1)
            for s in c1:
                c2, b2 = self.iterate(s, it0.a[2], node, handler)
                out += c2
                brk += b2
            return out, brk
        return self.iterate_opaque(st, it, node, handler)

    def elem_of(self, st, it, loopid):
        """Element term of an opaque iterable."""
        it = strip_at(it)
        if it.op == 'call' and it.a[0].op == 'ext':
            nm, args = it.a[0].a[0], it.a[1]
            if nm == 'builtins.enumerate' and args:
                start = args[1] if len(args) > 1 else dict(it.a[2]).get('start', const(0))
                return tup(T('idx', args[0], loopid, start), self.elem_of(st, args[0], loopid))
            if nm == 'builtins.zip' and args:
                return tup(*[self.elem_of(st, x, loopid) for x in args])
        if it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] == 'items' and not it.a[1]:
            base = it.a[0].a[0]
            k = T('elem', base, loopid)
            return tup(k, T('sub', base, k))
        if it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] == 'values' and not it.a[1]:
            base = it.a[0].a[0]
            return T('sub', base, T('elem', base, loopid))
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] == 'builtins.range':
            a = it.a[1]
            if len(a) == 1:
                ln = strip_at(a[0])
                if is_len(ln):
                    return T('idx', ln.a[1][0], loopid, const(0))
        if it.op == 'comp' and it.a[0] != 'dict' and not self.atomic:
            return it.a[1]
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(it.a[1]) == 1:
            return self.elem_of(st, it.a[1][0], loopid)
        return T('elem', it, loopid)

    def iterate_opaque(self, st, it, node, handler):
        loopid = self.site(node, 'l')
        snap = self.snap(st, it)
        elem = self.elem_of(st, it, loopid)
        broken = []
        nonempty_first = []

        def step(head):
            ins = self.emit(Ev('iter', node, loop=loopid, it=it, elem=elem), head.copy())
            cont = []
            self.loops.append((loopid, it, elem))
            try:
                for s in ins:
                    c, b = handler(s, elem)
                    cont += c
                    for x in b:
                        broken.append(x)
            finally:
                self.loops.pop()
            res = []
            for x in cont:
                res += self.emit(Ev('iterend', node, loop=loopid, it=it, elem=elem), x)
            exits = self.emit(Ev('loopdone', node, loop=loopid, it=it, elem=elem), head)
            return res, exits
        exits = self.fix([st], loopid, step, node)
        return exits, self.compact(broken, node)

    def iterate_comp(self, st, comp, node, handler):
        loopid = self.site(node, 'l')
        kind, elt, gens = comp.a[0], comp.a[1], comp.a[2]
        broken = []
        gen_elems = tuple(g[0] for g in gens)

        def step(head):
            ins = self.emit(Ev('iter', node, loop=loopid, it=comp, elem=elt), head.copy())
            nxt = []
            for s in ins:
                ss = [s]
                for _, _, conds in gens:
                    for c in conds:
                        ss = [y for x in ss for y in self.assume(x, c, True)]
                nxt += ss
            cont = []
            self.loops.append((loopid, comp, elt))
            try:
                for s in nxt:
                    c, b = handler(s, elt)
                    cont += c
                    broken.extend(b)
            finally:
                self.loops.pop()
            res = []
            for x in cont:
                # facts about this element do not carry over
                self.purge(x, lambda t: any(y in gen_elems for y in walk(t)))
                res += self.emit(Ev('iterend', node, loop=loopid, it=comp, elem=elt), x)
            exits = self.emit(Ev('loopdone', node, loop=loopid, it=comp, elem=elt), head)
            return res, exits
        exits = self.fix([st], loopid, step, node)
        return exits, self.compact(broken, node)

    def seq_items(self, st, t):
        """Items of a sequence term of statically known length, else None."""
        t = strip_at(t)
        if t.op == 'tuple':
            out = []
            for x in t.a[0]:
                if x.op == 'star':
                    sub = self.seq_items(st, x.a[0])
                    if sub is None:
                        return None
                    out += sub
                else:
                    out.append(x)
            return out
        if t.op in ('obj', 'default', 'glob'):
            c = st.heap.get((t, '#'))
            if c is None and t.op == 'glob':
                c = self.glob_content(t)
            if c is not None and c.op == 'seq':
                return self.seq_items(st, T('tuple', c.a[0]))
            if c is not None and c.op == 'ditems':
                ks = [kv.a[0] for kv in c.a[0]]
                if all(k.op == 'const' for k in ks):
                    return ks
        return None

    def finite_items(self, st, t):
        it = strip_iter(t)
        r = self.seq_items(st, it)
        if r is not None:
            return r
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] == 'builtins.range' and all(x.op == 'const' for x in it.a[1]):
            try:
                rr = range(*[cval(x) for x in it.a[1]])
                if len(rr) <= 4:
                    return [const(i) for i in rr]
            except TypeError:
                pass
        if it.op == 'call' and it.a[0].op == 'attr' and it.a[0].a[1] in ('items', 'values', 'keys') and not it.a[1]:
            d = self.dict_items(st, it.a[0].a[0])
            if d is not None and all(k is not None for k, _ in d):
                return {'items': [tup(k, v) for k, v in d], 'values': [v for _, v in d], 'keys': [k for k, _ in d]}[it.a[0].a[1]]
        if self.small is not None:
            if it.op == 'call' and it.a[0].op == 'ext' and it.a[1] and not it.a[2]:
                n = it.a[0].a[0]
                fins = [self.finite_items(st, x) for x in it.a[1]] if n in ('builtins.zip', 'builtins.enumerate', 'builtins.reversed', 'builtins.list', 'builtins.tuple', 'builtins.iter') else [None]
                if all(f is not None for f in fins):
                    if n == 'builtins.zip':
                        return [tup(*x) for x in zip(*fins)]
                    if n == 'builtins.enumerate' and len(fins) == 1:
                        return [tup(const(i), x) for i, x in enumerate(fins[0])]
                    if n == 'builtins.reversed':
                        return fins[0][::-1]
                    if len(fins) == 1 and n != 'builtins.enumerate':
                        return fins[0]
            return self.small.items(self, st, it)
        return None

    def star_items(self, st, v):
        """Keyword arguments given as **v."""
        items = self.dict_items(st, v)
        if items is None or any(k is not None and not (k.op == 'const' and isinstance(cval(k), str)) for k, _ in items):
            return [('**', v)]
        last = {}
        for k, x in items:
            if k is not None:
                last[cval(k)] = x
        return list(last.items()) + [('**', x) for k, x in items if k is None]

    def dict_items(self, st, t):
        """[(key term | None, value)] of a dict of known content, else None.
        A None key stands for all entries of another mapping."""
        t = strip_at(t)
        c = st.heap.get((t, '#'))
        if c is None and t.op == 'glob':
            c = self.glob_content(t)
        if c is not None and c.op == 'ditems':
            res = []
            for kv in c.a[0]:
                if kv.a[0].op == 'starstar':
                    sub = self.dict_items(st, kv.a[1])
                    if sub is None:
                        res.append((None, kv.a[1]))
                    else:
                        res += sub
                else:
                    res.append((kv.a[0], kv.a[1]))
            return res
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'types.MappingProxyType' and len(t.a[1]) == 1:
            return self.dict_items(st, t.a[1][0])
        if t.op == 'default':
            return self.dict_items(st, t.a[2]) if t.a[2].op != 'ditems' else [(kv.a[0], kv.a[1]) for kv in t.a[2].a[0]]
        return None

    def run_generator(self, st, gen, node, handler):
        """Iterate over a generator function call."""
        fterm, args, kwargs = gen.a
        f = self.prog.functions[fterm.a[0]]
        broken = []
        uid = self.site(node, 'g')

        def on_yield(s, v):
            saved = self.yield_handlers
            fst = self.fstack
            self.yield_handlers = saved[:-1]
            # the consumer runs in its own context
            self.fstack = outer
            try:
                c, b = handler(s, v)
            finally:
                self.fstack = fst
                self.yield_handlers = saved
            for x in b:
                self.throw(x, T('exc', 'unwind', uid, None))
            return [(x, NONE) for x in c]
        outer = list(self.fstack)
        saved = self.yield_handlers
        self.yield_handlers = saved + [on_yield]
        self.sinks.append([])
        try:
            rets = self.inline(f, fterm, list(args), list(kwargs), st, node, run_async=True)
        finally:
            self.yield_handlers = saved
            excs = self.sinks.pop()
        for s, e in excs:
            if e.op == 'exc' and e.a[0] == 'unwind' and e.a[1] == uid:
                broken.append(s)
            else:
                self.throw(s, e)
        return self.compact([s for s, _ in rets], node), self.compact(broken, node)

    def run_genexp(self, st, gx, node, handler):
        nid, fid = gx.a[0], gx.a[1]
        gnode, owner = self._genx[nid]
        first = gx.a[2]
        broken = []
        outer = list(self.fstack)
        cfid = self.frame_for_comp(gnode, fid)

        def rec(s, i):
            """run generator i; returns exhausted states"""
            if i == len(gnode.generators):
                res = []
                for s1, v in self.eval(gnode.elt, s):
                    fst = self.fstack
                    self.fstack = outer
                    try:
                        c, b = handler(s1, v)
                    finally:
                        self.fstack = fst
                    broken.extend(b)
                    res += c
                return res
            g = gnode.generators[i]
            its = [(s, first)] if i == 0 else self.eval(g.iter, s)
            res = []
            for s1, it in its:
                def h(s2, e):
                    ss = self.assign(g.target, e, s2, node)
                    for cnd in g.ifs:
                        nn, skipped = [], []
                        for x in ss:
                            t, f = self.cond(cnd, x)
                            nn += t
                            skipped += f
                        skip_all.extend(skipped)
                        ss = nn
                    out = []
                    nb = len(broken)
                    for x in ss:
                        out += rec(x, i + 1)
                    out += skip_all
                    del skip_all[:]
                    return out, []
                skip_all = []
                c, b = self.iterate(s1, it, g.iter if i else gnode, h)
                res += c
            return res
        self.fstack = outer + [(owner, cfid, gnode)]
        st.frames[cfid] = {'#closure': T('fid', fid)}
        try:
            ex = rec(st, 0)
        finally:
            self.fstack = outer
        return self.compact(ex, node), self.compact(broken, node)

    # comprehensions are collections of their own, not iterated over again
    atomic = False
    _genx = {}

    def frame_for_comp(self, node, fid):
        return '%s/c%d:%d' % (fid, node.lineno, node.col_offset)

    # with / try -------------------------------------------------------------
    def s_With(self, node, st, is_async=False):
        return self.with_items(node, list(node.items), st, is_async)

    def s_AsyncWith(self, node, st):
        return self.s_With(node, st, True)

    def with_items(self, node, items, st, is_async):
        if not items:
            return self.block(node.body, [st])
        item = items[0]
        out = Out()
        for s, cm in self.eval(item.context_expr, st):
            out = join(out, self.with_one(node, item, cm, items[1:], s, is_async))
        out.next = self.compact(out.next, node)
        return out

    def with_one(self, node, item, cm, rest, st, is_async):
        uid = self.site(item.context_expr, 'with')
        body_out = Out()

        def run_body(s, value):
            ss = [s]
            if item.optional_vars is not None:
                ss = self.assign(item.optional_vars, value, s, node)
            o = Out()
            for x in ss:
                o = join(o, self.with_items(node, rest, x, is_async))
            return o
        if cm.op == 'gencm':
            gen = cm.a[0]
            fterm, args, kwargs = gen.a
            f = self.prog.functions[fterm.a[0]]
            outer = list(self.fstack)
            pending = {}

            def on_yield(s, v):
                saved = self.yield_handlers
                fst = self.fstack
                self.yield_handlers = saved[:-1]
                self.fstack = outer
                try:
                    o = run_body(s, v)     # exceptions go to the sink of the yield point
                finally:
                    self.fstack = fst
                    self.yield_handlers = saved
                res = [(x, NONE) for x in o.next]
                for kind, lst in (('brk', o.brk), ('cont', o.cont)):
                    for x in lst:
                        x.put('#with' + uid, 'p', const(kind))
                        res.append((x, NONE))
                for x, v2 in o.ret:
                    x.put('#with' + uid, 'p', const('ret'))
                    x.put('#with' + uid, 'v', v2)
                    res.append((x, NONE))
                return res
            saved = self.yield_handlers
            self.yield_handlers = saved + [on_yield]
            try:
                rets = self.inline(f, fterm, list(args), list(kwargs), st, node, run_async=True)
            finally:
                self.yield_handlers = saved
            for s, _ in rets:
                p = s.get('#with' + uid, 'p')
                v = s.get('#with' + uid, 'v')
                s.frames.pop('#with' + uid, None)
                if p is None:
                    body_out.next.append(s)
                elif is_const(p, 'brk'):
                    body_out.brk.append(s)
                elif is_const(p, 'cont'):
                    body_out.cont.append(s)
                elif is_const(p, 'ret'):
                    body_out.ret.append((s, v or NONE))
                else:
                    body_out.next.append(s)
            return body_out
        cls = self.class_of(cm, st)
        enter = self.prog.find_method(cls, '__aenter__' if is_async else '__enter__') if cls else None
        if enter is not None:
            exit_ = self.prog.find_method(cls, '__aexit__' if is_async else '__exit__')

            def do_enter(s):
                return self.inline(enter, T('func', enter.fid, None), [cm], [], s, item.context_expr, run_async=True)

            def do_exit(s, exc):
                a = [cm] + ([NONE] * 3 if exc is None else [T('exctype', exc), exc, T('tb')])
                return self.inline(exit_, T('func', exit_.fid, None), a, [], s, item.context_expr, run_async=True)
            suppress = None
        else:
            def do_enter(s):
                res = []
                v = exts.enter_value(cm)
                if is_async:
                    self.havoc(s, item.context_expr)
                for x in self.emit(Ev('cm_enter', item.context_expr, cm=cm, is_async=is_async), s):
                    res.append((x, v))
                return res

            def do_exit(s, exc):
                res = []
                if is_async:
                    self.havoc(s, node)
                for x in self.emit(Ev('cm_exit', node, cm=cm, exc=exc, is_async=is_async), s):
                    res.append((x, FALSE))
                return res
            suppress = exts.suppressed(cm)
        self.sinks.append([])
        o = Out()
        for s, v in do_enter(st):
            self.sinks.append([])
            try:
                o1 = run_body(s, v)
            finally:
                excs = self.sinks.pop()
            o = Out()
            for x in self.compact(o1.next, node):
                o.next += [y for y, _ in do_exit(x, None)]
            for x in self.compact(o1.brk, node):
                o.brk += [y for y, _ in do_exit(x, None)]
            for x in self.compact(o1.cont, node):
                o.cont += [y for y, _ in do_exit(x, None)]
            for x, val in self.compact_vals(o1.ret, node):
                o.ret += [(y, val) for y, _ in do_exit(x, None)]
            for x, e in self.compact_exc(excs, node):
                for y, r in do_exit(x, e):
                    if suppress is not None and e.a[0] != 'unwind':
                        caught, passed = self.match_exc(e, suppress)
                        if caught:
                            o.next += self.emit(Ev('caught', node, exc=e, handler=suppress), y.copy())
                        if passed:
                            self.throw(y, e)
                    elif r.op == 'const':
                        if cval(r):
                            o.next += self.emit(Ev('caught', node, exc=e, handler=None), y)
                        else:
                            self.throw(y, e)
                    else:
                        o.next += self.emit(Ev('caught', node, exc=e, handler=None), y.copy())
                        self.throw(y, e)
            body_out = join(body_out, o)
        for x, e in self.sinks.pop():
            self.throw(x, e)
        return body_out

    def match_exc(self, exc, handler):
        """(may be caught, may pass) of an exception by a handler type term."""
        if handler is None:
            return True, False
        if handler.op == 'tuple':
            c = [self.match_exc(exc, h) for h in handler.a[0]]
            return any(x for x, _ in c), all(y for _, y in c)
        kind = exc.a[0]
        if kind == 'unwind':
            return False, True
        if handler.op != 'ext' or not handler.a[0]:
            if handler.op == 'cls':
                if kind == 'X':
                    cs = exc.a[2]
                    if cs in self.prog.classes:
                        sub = self.prog.classes[handler.a[0]] in self.prog.mro(self.prog.classes[cs])
                        return sub, not sub
                    return False, True
                return True, True
            return True, True
        h = handler.a[0]
        hc = exts.exc_class(h)
        if kind in ('E', 'V'):
            if hc in (Exception, BaseException):
                if kind == 'V':
                    return True, hc is Exception
                return True, False
            if hc is not None and not issubclass(hc, Exception):
                return kind == 'V', True
            return True, True
        if kind == 'B':
            if hc is BaseException:
                return True, False
            if hc is not None and issubclass(hc, Exception):
                return False, True
            return True, True
        if kind == 'X':
            ec = exts.exc_class(exc.a[2])
            if ec is None and exc.a[2] in self.prog.classes:
                c = self.prog.classes[exc.a[2]]
                bases = {exts.exc_class(b) for b in self.prog.ext_bases(c)} - {None}
                if hc is not None and any(issubclass(b, hc) for b in bases):
                    return True, False
                return False, True
            if ec is None or hc is None:
                if exc.a[2] == h:
                    return True, False
                if hc in (Exception, BaseException):
                    return True, False
                return True, True
            if issubclass(ec, hc):
                return True, False
            if issubclass(hc, ec):
                return True, True
            return False, True
        return True, True

    def s_Try(self, node, st):
        # body
        self.sinks.append([])
        try:
            o = self.block(node.body, [st])
        finally:
            excs = self.sinks.pop()
        excs = self.compact_exc(excs, node)
        self.sinks.append([])   # exceptions of handlers / orelse -> finally
        res = Out()
        try:
            if node.orelse:
                o2 = self.block(node.orelse, o.next)
                o.next = o2.next
                o.brk += o2.brk
                o.cont += o2.cont
                o.ret += o2.ret
            res = join(res, o)
            for s, e in excs:
                cur = [(s, e)]
                for h in node.handlers:
                    nxt = []
                    for s1, e1 in cur:
                        if h.type is None:
                            types = [(s1, None)]
                        else:
                            types = self.eval(h.type, s1)
                        for s2, ht in types:
                            ht = self.as_types(ht, s2)
                            c, p = self.match_exc(e1, ht)
                            if p:
                                nxt.append((s2.copy() if c else s2, e1))
                            if c:
                                res = join(res, self.handle(h, s2, e1, ht))
                    cur = nxt
                for s1, e1 in cur:
                    self.throw(s1, e1)
        finally:
            excs = self.sinks.pop()
        excs = self.compact_exc(excs, node)
        if not node.finalbody:
            for s, e in excs:
                self.throw(s, e)
            res.next = self.compact(res.next, node)
            return res
        fin = Out()

        def final(states):
            return self.block(node.finalbody, states)
        for attr_ in ('next', 'brk', 'cont'):
            lst = self.compact(getattr(res, attr_), node)
            if lst:
                f = final(lst)
                getattr(fin, attr_).extend(f.next)
                fin.brk += f.brk
                fin.cont += f.cont
                fin.ret += f.ret
        for s, v in self.compact_vals(res.ret, node):
            f = final([s])
            fin.ret += [(x, v) for x in f.next] + f.ret
            fin.brk += f.brk
            fin.cont += f.cont
        for s, e in excs:
            saved = s.get(self.frame, '#exc')
            s.put(self.frame, '#exc', e)
            f = final([s])
            for x in f.next:
                if saved is not None:
                    x.put(self.frame, '#exc', saved)
                self.throw(x, e)
            # leaving the finally block by return/break discards the exception
            for x, v in f.ret:
                for y in self.emit(Ev('caught', node, exc=e, handler=None, by='finally'), x):
                    fin.ret.append((y, v))
            for x in f.brk:
                fin.brk += self.emit(Ev('caught', node, exc=e, handler=None, by='finally'), x)
            for x in f.cont:
                fin.cont += self.emit(Ev('caught', node, exc=e, handler=None, by='finally'), x)
        return fin
    s_TryStar = s_Try

    def as_types(self, ht, st):
        if ht is None:
            return None
        items = self.seq_items(st, ht)
        if items is not None:
            return tup(*[self.as_types(x, st) for x in items])
        return ht

    def handle(self, h, st, exc, ht):
        saved = st.get(self.frame, '#exc')
        st.put(self.frame, '#exc', exc)
        if h.name:
            st.put(self.frame, h.name, exc)
        self.note(st, h, 'exception %s is handled' % show_exc(exc))
        res = Out()
        for s in self.emit(Ev('caught', h, exc=exc, handler=ht), st):
            o = self.block(h.body, [s])
            res = join(res, o)
        for lst in (res.next, res.brk, res.cont):
            for s in lst:
                self._restore(s, saved)
        for s, _ in res.ret:
            self._restore(s, saved)
        return res

    def _restore(self, s, saved):
        fr = dict(s.frames.get(self.frame, {}))
        if saved is None:
            fr.pop('#exc', None)
        else:
            fr['#exc'] = saved
        s.frames[self.frame] = fr

    # ------------------------------------------------------------------
    # assignment
    def scope_of(self, name, st):
        """Frame in which a name is bound for the current function, or None."""
        f, fid, _ = self.fstack[-1]
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                return None
            fn = f if isinstance(f, Function) else None
            if name in fr:
                return fid
            c = fr.get('#closure')
            fid = c.a[0] if c is not None and c.op == 'fid' else None
            f = None
        return None

    def assign(self, target, v, st, node, aug=False):
        if isinstance(target, ast.Name):
            fid = self.frame
            f = self.func
            if isinstance(f, Function) and not fid.endswith('@cls'):
                if '/c' in fid:
                    pass
                elif target.id in f.nonlocals:
                    fr = st.frames.get(fid, {})
                    c = fr.get('#closure')
                    up = c.a[0] if c is not None and c.op == 'fid' else None
                    while up is not None and target.id not in st.frames.get(up, {}):
                        c = st.frames.get(up, {}).get('#closure')
                        up = c.a[0] if c is not None and c.op == 'fid' else None
                    if up is not None:
                        old = st.get(up, target.id)
                        st.put(up, target.id, v)
                        return self.emit(Ev('storenonlocal', node, name=target.id, frame=up, value=v, old=old), st)
                elif target.id in f.globals_decl:
                    return self.emit(Ev('storeglobal', node, name=target.id, module=f.module.name, value=v), st)
            st.put(fid, target.id, v)
            return [st]
        if isinstance(target, ast.Attribute):
            res = []
            for s, b in self.eval(target.value, st):
                res += self.setattr(s, b, target.attr, v, node, aug)
            return res
        if isinstance(target, ast.Subscript):
            res = []
            for s, b in self.eval(target.value, st):
                for s1, i in self.eval(target.slice, s):
                    res += self.setitem(s1, b, i, v, node, aug)
            return res
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            items = self.seq_items(st, v)
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if items is None and v.op in ('genx', 'gen'):
                pass
            if items is not None and not star and len(items) == len(elts):
                vals = items
            elif items is not None and star and len(items) >= len(elts) - 1:
                k = star[0]
                n = len(items) - (len(elts) - 1)
                vals = items[:k] + [tup(*items[k:k + n])] + items[k + n:]
            elif star:
                k = star[0]
                vals = []
                for i in range(len(elts)):
                    if i < k:
                        vals.append(self.sub(v, const(i)))
                    elif i == k:
                        after = len(elts) - 1 - k
                        vals.append(T('sub', v, T('slice', const(k), const(-after) if after else NONE, NONE)))
                    else:
                        vals.append(T('sub', v, const(i - len(elts))))
            else:
                vals = [self.sub(v, const(i)) for i in range(len(elts))]
            states = [st]
            for e, x in zip(elts, vals):
                states = [y for s in states for y in self.assign(e, x, s, node)]
            return states
        self.taint(st, 'unsupported assignment target')
        return [st]

    def setattr(self, st, base, name, v, node, aug=False):
        base_alts = self.alternatives(base) if base.op == 'phi' else {base}
        cls = self.class_of(base, st)
        if cls is not None:
            f = self.prog.find_method(cls, name, 'set')
            if f is not None:
                return [s for s, _ in self.inline(f, T('func', f.fid, None), [base, v], [], st, node)]
        old = st.heap.get((base, name))
        res = self.emit(Ev('storeattr', node, base=base, name=name, value=v, old=old, cls=cls, aug=aug), st)
        for s in res:
            self.purge(s, lambda t: any(y.op == 'attr' and y.a[0] is base and y.a[1] == name for y in walk(t)))
            s.heap[(base, name)] = v
            if base.op == 'phi':
                for k in [k for k in s.heap if k[1] == name and k[0] in base_alts]:
                    del s.heap[k]
        return res

    def setitem(self, st, base, idx, v, node, aug=False):
        res = self.emit(Ev('storesub', node, base=base, idx=idx, value=v, aug=aug), st)
        for s in res:
            c = s.heap.get((base, '#'))
            self.bump(s, base, node)
            if c is not None:
                new = None
                if c.op == 'ditems' and idx.op == 'const':
                    items = [kv for kv in c.a[0] if kv.a[0] is not idx] + [T('kv', idx, v)]
                    if not any(kv.a[0].op not in ('const', 'starstar') for kv in c.a[0]):
                        new = T('ditems', tuple(items))
                elif c.op == 'seq' and idx.op == 'const' and isinstance(cval(idx), int) and not any(x.op == 'star' for x in c.a[0]):
                    lst = list(c.a[0])
                    if -len(lst) <= cval(idx) < len(lst):
                        lst[cval(idx)] = v
                        new = T('seq', tuple(lst))
                if new is not None:
                    s.heap[(base, '#')] = new
                else:
                    s.heap.pop((base, '#'), None)
            elif base.op != 'obj':
                if idx.op == 'const':
                    for k in [k for k in s.heap if k[0] is base and isinstance(k[1], T) and k[1] is not idx and not (k[1].op == 'const' and _distinct_idx(k[1], idx))]:
                        del s.heap[k]
                    s.heap[(base, idx)] = v
                else:
                    for k in [k for k in s.heap if k[0] is base and isinstance(k[1], T)]:
                        del s.heap[k]
        return res

    # ------------------------------------------------------------------
    # expressions
    def eval(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.taint(st, 'unsupported expression %s' % type(node).__name__)
            return [(st, TOP)]
        r = m(node, st)
        if len(r) > self.max_states:
            r = self.compact_vals(r, node)
        return r

    def evals(self, nodes, st):
        """Evaluate several expressions; list of (state, [terms])."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s1, v in self.eval(n, s):
                    nxt.append((s1, vs + [v]))
            res = nxt
        return res

    def cond(self, node, st):
        """Evaluate a condition; (states where true, states where false)."""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur, done = [st], []
            for n in node.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(n, s)
                    if is_and:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = nxt
            return (cur, done) if is_and else (done, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        if isinstance(node, ast.IfExp):
            t, f = self.cond(node.test, st)
            a, b = [], []
            for s in t:
                x, y = self.cond(node.body, s)
                a += x
                b += y
            for s in f:
                x, y = self.cond(node.orelse, s)
                a += x
                b += y
            return a, b
        ts, fs = [], []
        for s, v in self.eval(node, st):
            t, f = self.split(s, v)
            ts += t
            fs += f
        return ts, fs

    def split(self, st, v):
        """Split a state on the truth of a value."""
        cls = self.class_of(v, st)
        if cls is not None:
            for m in ('__bool__', '__len__'):
                f = self.prog.find_method(cls, m)
                if f is not None and v.op in ('inst', 'attr'):
                    ts, fs = [], []
                    for s, r in self.inline(f, T('func', f.fid, None), [v], [], st, f.node):
                        t, fl = self.split(s, r)
                        ts += t
                        fs += fl
                    return ts, fs
        v1 = self.content_term(st, v)
        t = self.assume(st.copy(), v1, True)
        f = self.assume(st, v1, False)
        return t, f

    def content_term(self, st, v):
        if v.op in ('attr', 'obj', 'phi', 'in', 'comp', 'sub', 'elem', 'default', 'glob') or (v.op == 'call'):
            c = st.heap.get((v, '#'))
            if c is not None:
                if c.op == 'seq':
                    if any(x.op != 'star' for x in c.a[0]):
                        return TRUE
                    if not c.a[0]:
                        return FALSE
                    return T('or', tuple(self.content_term(st, x.a[0]) for x in c.a[0]))
                if c.op == 'ditems' and not c.a[0]:
                    return FALSE
            return self.snap(st, v)
        if is_concat(v) and not self.has_array(v):
            return T('bin', '+', self.content_term(st, v.a[1]), self.content_term(st, v.a[2]))
        return v

    def e_Constant(self, node, st):
        return [(st, const(node.value))]

    def e_Name(self, node, st):
        fid = self.scope_of(node.id, st)
        if fid is not None:
            return [(st, st.frames[fid][node.id])]
        f = self.func
        m = f.module if isinstance(f, Function) else f
        return self.resolved(self.prog.resolve_name(m, node.id), st, node)

    def resolved(self, r, st, node=None):
        if r is None:
            nm = getattr(node, 'id', '?')
            if nm == '__name__':
                return [(st, const(self.module().name))]
            return [(st, T('unbound', nm))]
        if isinstance(r, str):
            if r in ('builtins.True', 'builtins.False', 'builtins.None'):
                return [(st, const({'True': True, 'False': False, 'None': None}[r[9:]]))]
            return [(st, ext(canon_ext(r)))]
        if isinstance(r, Module):
            return [(st, T('mod', r.name))]
        if isinstance(r, Class):
            return [(st, T('cls', r.cid))]
        if isinstance(r, Function):
            v = T('func', r.fid, None)
            out = [(st, v)]
            for d in reversed(r.decorators()):
                nxt = []
                self.fstack.append((r.module, 'mod:' + r.module.name, None))
                try:
                    for s, val in out:
                        nxt += self.apply_decorator(d, val, s)
                finally:
                    self.fstack.pop()
                out = nxt
            return out
        if isinstance(r, tuple) and r[0] == 'expr':
            return [(st, self.glob(r[1], r[2]))]
        return [(st, TOP)]

    def glob(self, m, name):
        """Value of a module-level assignment."""
        key = (m.name, name)
        cache = self.typer.globs
        if key in cache:
            return cache[key]
        cache[key] = T('glob', m.name, name)   # guards recursion
        bs = [b for b in m.bindings.get(name, ())]
        v = T('glob', m.name, name)
        if len(bs) == 1 and bs[0][0] == 'expr':
            node = bs[0][1]
            e = Engine(self.prog)
            e.sinks.append([])
            e.fstack.append((m, 'mod:' + m.name, None))
            s = State()
            rs = e.eval(node, s)
            if len(rs) == 1:
                s1, t = rs[0]
                if t.op == 'obj' or isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                    c = s1.heap.get((t, '#'))
                    self.typer.glob_content[v] = c
                elif t.op == 'call' and not (t.a[0].op == 'ext' and exts.is_pure(t.a[0].a[0]) and t.a[0].a[0] not in exts.ITERATORS):
                    self.typer.glob_content[v] = None
                    self.typer.glob_init[v] = t
                else:
                    v = t
        cache[key] = v
        return v

    def emit_mutate(self, st, node, base):
        """An iterator kept at module level moves on."""
        self.emit(Ev('mutate', node, base=base, method='builtins.next', args=[], kwargs={}, result=None), st)

    def glob_content(self, t):
        return self.typer.glob_content.get(t)

    def apply_decorator(self, d, val, st):
        target = d.func if isinstance(d, ast.Call) else d
        r = self.prog.resolve_expr(self.module(), target)
        if isinstance(target, ast.Attribute) and target.attr in ('register', 'setter', 'getter', 'deleter'):
            return [(st, val)]
        if isinstance(r, str):
            nm = r
            if nm.endswith('contextmanager') or nm.endswith('asynccontextmanager'):
                return [(st, T('cmfunc', val))]
            if nm in ('functools.singledispatch',):
                return [(st, T('dispatch', val))]
            return [(st, val)]       # export, wraps, staticmethod, ...
        if isinstance(r, Function):
            res = []
            for s, dv in self.eval(d, st):
                res += self.apply(dv, [val], [], s, d)
            return res
        if isinstance(r, Class):
            res = []
            for s, dv in self.eval(d, st):
                res += self.apply(dv, [val], [], s, d)
            return res
        # local decorator
        try:
            vals = self.eval(d, st)
        except AnalysisError:
            return [(st, val)]
        res = []
        for s, dv in vals:
            if dv.op in ('func', 'bound', 'cls'):
                res += self.apply(dv, [val], [], s, d)
            else:
                res.append((s, val))
        return res

    def e_JoinedStr(self, node, st):
        parts = [v.value for v in node.values if isinstance(v, ast.FormattedValue)]
        res = []
        for s, vs in self.evals(parts, st):
            if not parts:
                res.append((s, const(''.join(str(v.value) for v in node.values))))
                continue
            it = iter(vs)
            items = []
            for v in node.values:
                items.append(next(it) if isinstance(v, ast.FormattedValue) else const(v.value))
            if all(x.op == 'const' for x in items):
                res.append((s, const(''.join(str(cval(x)) for x in items))))
            else:
                res.append((s, T('fstr', tuple(items))))
        return res

    def e_FormattedValue(self, node, st):
        return self.eval(node.value, st)

    def e_Tuple(self, node, st):
        return [(s, T('tuple', tuple(vs))) for s, vs in self.eval_items(node.elts, st)]

    def eval_items(self, elts, st):
        res = [(st, [])]
        for e in elts:
            nxt = []
            for s, vs in res:
                if isinstance(e, ast.Starred):
                    for s1, v in self.eval(e.value, s):
                        items = self.seq_items(s1, v)
                        nxt.append((s1, vs + (items if items is not None else [T('star', v)])))
                else:
                    for s1, v in self.eval(e, s):
                        nxt.append((s1, vs + [v]))
            res = nxt
        return res

    def new_obj(self, kind, node, st, content):
        ob = T('obj', kind, self.site(node, ('o',) + self.unrolled))
        st.heap[(ob, '#')] = content
        st.vers.pop(ob, None)
        self.purge(st, lambda t: any(y is ob for y in walk(t)))
        return ob

    def e_List(self, node, st):
        return [(s, self.new_obj('list', node, s, T('seq', tuple(vs)))) for s, vs in self.eval_items(node.elts, st)]

    def e_Set(self, node, st):
        return [(s, self.new_obj('set', node, s, T('seq', tuple(vs)))) for s, vs in self.eval_items(node.elts, st)]

    def e_Dict(self, node, st):
        res = [(st, [])]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, kvs in res:
                if k is None:
                    for s1, x in self.eval(v, s):
                        nxt.append((s1, kvs + [T('kv', T('starstar'), x)]))
                else:
                    for s1, (kk, vv) in self.evals([k, v], s):
                        nxt.append((s1, [y for y in kvs if y.a[0] is not kk] + [T('kv', kk, vv)]))
            res = nxt
        return [(s, self.new_obj('dict', node, s, T('ditems', tuple(kvs)))) for s, kvs in res]

    def e_ListComp(self, node, st):
        return self.comp('list', node, st)

    def e_SetComp(self, node, st):
        return self.comp('set', node, st)

    def e_DictComp(self, node, st):
        return self.comp('dict', node, st)

    def e_GeneratorExp(self, node, st):
        nid = self.site(node, 'gx')
        Engine._genx[nid] = (node, self.func)
        res = []
        for s, it in self.eval(node.generators[0].iter, st):
            res.append((s, T('genx', nid, self.frame, it)))
        return res

    def comp(self, kind, node, st, pre=None):
        """Materialise a comprehension: a comp term, or a known sequence."""
        if pre is None:
            # alternatives for what is iterated over are kept apart
            mon, self.mon = self.mon, Monitor()
            self.sinks.append([])
            try:
                its = self.eval(node.generators[0].iter, st.copy())
            finally:
                self.mon = mon
                self.sinks.pop()
            if len({it for _, it in its}) > 1:
                out = []
                for s, it in self.eval(node.generators[0].iter, st):
                    out += self.comp(kind, node, s, pre=[(s, it)])
                return out
        focus = False
        if self.focus_mode and kind in ('list', 'set') and not isinstance(node, ast.DictComp):
            if pre is None:
                mon, self.mon = self.mon, Monitor()
                self.sinks.append([])
                try:
                    r = self.eval(node.generators[0].iter, st.copy())
                finally:
                    self.mon = mon
                    self.sinks.pop()
            else:
                r = pre
            focus = all(self.focused(x, it) for x, it in r)
        if not focus and self.count_mode and kind == 'list' and not isinstance(node, ast.DictComp):
            focus = self.counted(st, pre, node)
        if focus:
            nid = self.site(node, 'gx')
            Engine._genx[nid] = (node, self.func)
            out = []
            for s, it in (pre if pre is not None else self.eval(node.generators[0].iter, st)):
                out += self.collect_items(s, T('genx', nid, self.frame, it), node, kind)
            return out
        owner, fid = self.func, self.frame
        cfid = self.frame_for_comp(node, fid)
        elts, gens_desc, seq, exact = [], [], [], [True]
        is_dict = isinstance(node, ast.DictComp)

        def rec(s, i, desc):
            if i == len(node.generators):
                res = []
                vals = self.evals([node.key, node.value], s) if is_dict else [(x, [y]) for x, y in self.eval(node.elt, s)]
                for s1, vs in vals:
                    v = tup(*vs) if is_dict else vs[0]
                    if v not in elts:
                        elts.append(v)
                        gens_desc.append(tuple(desc))
                    seq.append(v)
                    if len(vals) > 1:
                        exact[0] = False
                    for s2 in self.emit(Ev('compitem', node, value=v, comp=kind), s1):
                        res.append(s2)
                return res
            g = node.generators[i]
            its = pre if (i == 0 and pre is not None) else self.eval(g.iter, s)
            if len(its) > 1:
                exact[0] = False
            res = []
            for s1, it in its:
                fin = self.finite_items(s1, it)
                if fin is None or len(fin) > 8:
                    exact[0] = False
                if g.ifs:
                    exact[0] = False
                skipped = []

                def h(s2, e):
                    ss = self.assign(g.target, e, s2, node)
                    conds = []
                    for cnd in g.ifs:
                        nn = []
                        for x in ss:
                            conds.append(self.cond_term(cnd, x))
                            t, f = self.cond(cnd, x)
                            nn += t
                            skipped.extend(f)
                        ss = nn
                    out = []
                    for x in ss:
                        out += rec(x, i + 1, desc + [(e, it, tuple(conds))])
                    out += skipped
                    del skipped[:]
                    return out, []
                c, b = self.iterate(s1, it, g.iter if i else node, h)
                res += c
            return res
        self.fstack.append((owner, cfid, node))
        for s, _ in pre or ():
            s.frames[cfid] = {'#closure': T('fid', fid)}
        st.frames[cfid] = {'#closure': T('fid', fid)}
        try:
            ex = rec(st, 0, [])
        finally:
            self.fstack.pop()
        ex = self.compact(ex, node)
        for s in ex:
            s.frames.pop(cfid, None)
        if exact[0]:
            out = []
            for s in ex:
                if is_dict:
                    c = T('ditems', tuple(T('kv', x.a[0][0], x.a[0][1]) for x in seq))
                else:
                    c = T('seq', tuple(seq))
                out.append((s, self.new_obj(kind, node, s, c)))
            return out
        if len(elts) == 1:
            elt, desc = elts[0], gens_desc[0]
        elif not elts:
            elt, desc = TOP, ()
        else:
            elt = self.phi(self.site(node, 'ce'), ('elt',), *elts)
            desc = gens_desc[0]
        t = T('comp', kind, elt, desc)
        return [(s, t) for s in ex]

    def has_array(self, t, depth=0):
        """Is a sum one of arrays, not of lists?"""
        t = strip_at(t)
        if t.op == 'bin':
            return self.has_array(t.a[1], depth) or self.has_array(t.a[2], depth)
        if t.op == 'call' and t.a[0].op == 'ext':
            return t.a[0].a[0].startswith('numpy.')
        if t.op == 'attr' and t.a[0].op == 'inst' and depth < 3:
            cls = self.prog.classes.get(t.a[0].a[0])
            vs = prog_types(self.prog).init_of(cls).get(t.a[1], ()) if cls is not None else ()
            return bool(vs) and all(self.has_array(v, depth + 1) for v in vs)
        return False

    def counted(self, st, pre, node):
        if self.count_pred is None:
            return True
        if pre is None:
            mon, self.mon = self.mon, Monitor()
            self.sinks.append([])
            try:
                pre = self.eval(node.generators[0].iter, st.copy())
            finally:
                self.mon = mon
                self.sinks.pop()
        return any(self.count_pred(it) for _, it in pre)

    def focused(self, st, it):
        """Focus mode: an iterable whose elements are all known."""
        it = strip_iter(it)
        if it.op == 'genx':
            return self.focused(st, it.a[2])
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('builtins.map', 'builtins.filter') and len(it.a[1]) == 2:
            return self.focused(st, it.a[1][1])
        items = self.finite_items(st, it)
        return items is not None and len(items) <= 4 and all(any(y.op == 'focus' for y in walk(x)) for x in items)

    def collect_items(self, st, it, node, kind='list'):
        """Counting mode: a list of the elements of an iterator."""
        obj = self.new_obj(kind, node, st, T('seq', ()))
        var = '#list' + self.site(node, 'cl')
        fid = self.frame
        st.put(fid, var, obj)

        def h(s, e):
            c = s.heap.get((obj, '#'))
            if c is not None and c.op == 'seq' and len(c.a[0]) < CAP and not (kind == 'set' and e in c.a[0]):
                s.heap[(obj, '#')] = T('seq', c.a[0] + (e,))
            return [s], []
        ex, _ = self.iterate(st, it, node, h)
        return [(s, obj) for s in ex]

    def cond_term(self, node, st):
        """Condition as one term (for the description of a comprehension)."""
        if isinstance(node, ast.BoolOp):
            parts = tuple(self.cond_term(n, st) for n in node.values)
            return T('and' if isinstance(node.op, ast.And) else 'or', parts)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return T('un', 'not', self.cond_term(node.operand, st))
        mon, self.mon = self.mon, Monitor()
        self.sinks.append([])
        try:
            r = self.eval(node, st.copy())
        finally:
            self.mon = mon
            self.sinks.pop()
        if len(r) == 1:
            return self.content_term(r[0][0], r[0][1])
        return T('opaquecond', self.site(node))

    def e_Lambda(self, node, st):
        f = self.module().nested[node]
        return [(st, T('func', f.fid, self.frame))]

    def e_NamedExpr(self, node, st):
        res = []
        for s, v in self.eval(node.value, st):
            fid = self.frame
            while '/c' in fid:
                fid = fid.rsplit('/c', 1)[0]
            s.put(fid, node.target.id, v)
            res.append((s, v))
        return res

    def e_IfExp(self, node, st):
        t, f = self.cond(node.test, st)
        res = []
        for s in t:
            res += self.eval(node.body, s)
        for s in f:
            res += self.eval(node.orelse, s)
        return res

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        cur, res = [st], []
        for i, n in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s1, v in self.eval(n, s):
                    if last:
                        res.append((s1, v))
                        continue
                    t, f = self.split(s1, v)
                    if is_and:
                        nxt += t
                        res += [(x, FALSE if v.op in ('cmp', 'un') else v) for x in f]
                    else:
                        nxt += f
                        res += [(x, TRUE if v.op in ('cmp', 'un') else v) for x in t]
            cur = nxt
        return res

    def e_UnaryOp(self, node, st):
        res = []
        op = OPS[type(node.op).__name__]
        if op == 'not' and isinstance(node.operand, (ast.BoolOp,)):
            t, f = self.cond(node.operand, st)
            return [(s, FALSE) for s in t] + [(s, TRUE) for s in f]
        for s, v in self.eval(node.operand, st):
            if op == 'not':
                v = self.content_term(s, v)
                if v.op == 'const':
                    res.append((s, const(not cval(v))))
                elif v.op == 'un' and v.a[0] == 'not':
                    res.append((s, T('call', ext('builtins.bool'), (v.a[1],), (), None)))
                else:
                    h = self.known_truth(s, v)
                    res.append((s, const(not h) if h is not None else T('un', 'not', v)))
            elif v.op == 'const' and isinstance(cval(v), (int, float)) and op == '-':
                res.append((s, const(-cval(v))))
            else:
                res.append((s, T('un', op, v)))
        return res

    def known_truth(self, st, v):
        if v.op in ('cmp', 'const') or v.op == 'un':
            k = self.canon(v)
            if isinstance(k, bool):
                return k
        return None

    def binop(self, op, a, b):
        if a.op == 'const' and b.op == 'const' and type(cval(a)) in (int, float, str) and type(cval(b)) in (int, float, str):
            try:
                x, y = cval(a), cval(b)
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                     '%': lambda: x % y if not isinstance(x, str) else None, '//': lambda: x // y, '**': lambda: x ** y if abs(y) < 64 else None}.get(op)
                if r is not None:
                    v = r()
                    if v is not None and not (isinstance(v, str) and len(v) > 2000):
                        if self.count_mode and isinstance(v, int) and not isinstance(v, bool) and op in '+-':
                            v = max(-CAP, min(CAP, v)) if max(abs(x), abs(y)) <= CAP else v
                        return const(v)
            except Exception:
                pass
        if op == '+' and a.op == 'tuple' and b.op == 'tuple':
            return T('tuple', a.a[0] + b.a[0])
        return T('bin', op, a, b)

    def e_BinOp(self, node, st):
        res = []
        op = OPS[type(node.op).__name__]
        for s, (a, b) in self.evals([node.left, node.right], st):
            dunder = {'-': '__sub__', '+': '__add__'}.get(op)
            a1 = self.snap_if_container(s, a)
            b1 = self.snap_if_container(s, b)
            if self.focus_mode and op in ('-', '|', '&', '+') and a.op == 'obj' and b.op == 'obj':
                x, y = self.seq_items(s, a), self.seq_items(s, b)
                if x is not None and y is not None and len(x) + len(y) <= 8:
                    z = [e for e in x if e not in y] if op == '-' else [e for e in x if e in y] if op == '&' else x + [e for e in y if e not in x or op == '+']
                    res.append((s, self.new_obj(a.a[0], node, s, T('seq', tuple(z)))))
                    continue
            res.append((s, self.binop(op, a1, b1)))
        return res

    def snap_if_container(self, st, x):
        if x.op in ('attr', 'obj') and (x in st.vers or self.is_shared_mutable(x)):
            return self.snap(st, x)
        return x

    def e_Compare(self, node, st):
        res = []
        for s, vs in self.evals([node.left] + node.comparators, st):
            terms = []
            for op, a, b in zip(node.ops, vs, vs[1:]):
                terms.append(self.compare(s, OPS[type(op).__name__], a, b))
            if len(terms) == 1:
                for s2 in self.emit(Ev('compare', node, term=terms[0]), s):
                    res.append((s2, terms[0]))
            else:
                res.append((s, T('and', tuple(terms))))
        return res

    def compare(self, st, op, a, b):
        if op in ('in', 'not in'):
            items = self.dict_items(st, b)
            if items is not None and all(k is not None for k, _ in items):
                seq = [k for k, _ in items]
            else:
                seq = self.seq_items(st, b)
            if seq is not None:
                if a in seq:
                    return TRUE if op == 'in' else FALSE
                if a.op == 'const' and all(x.op == 'const' for x in seq):
                    return TRUE if (op == 'not in') else FALSE
                if len(seq) <= 6 and seq:
                    r = T('or', tuple(T('cmp', '==', a, x) for x in seq))
                    return r if op == 'in' else T('un', 'not', r)
            b = self.snap(st, b)
            if b.op == 'call' and b.a[0].op == 'attr' and b.a[0].a[1] == 'keys':
                b = b.a[0].a[0]
            return T('cmp', op, a, b)
        a, b = self.cmp_operand(st, a), self.cmp_operand(st, b)
        return T('cmp', op, a, b)

    def cmp_operand(self, st, x):
        items = None
        if x.op == 'obj':
            items = self.seq_items(st, x)
            if items is not None:
                return tup(*items)
            return self.snap(st, x)
        return x

    def e_Attribute(self, node, st):
        res = []
        for s, b in self.eval(node.value, st):
            res += self.getattr(s, b, node.attr, node)
        return res

    def class_of(self, t, st=None):
        """Package class of a term's value, if known."""
        t = strip_at(t)
        if t.op == 'inst':
            return self.prog.classes.get(t.a[0])
        if t.op == 'phi':
            cs = {self.class_of(x, st) for x in self.alternatives(t) if x is not NONE and x is not UNDEF}
            return cs.pop() if len(cs) == 1 else None
        return self.typer.class_of(self, t)

    def kind_of(self, t, st=None):
        """'list' / 'set' / 'dict' for built-in containers."""
        t = strip_at(t)
        if t.op == 'obj':
            return t.a[0]
        if t.op == 'comp':
            return t.a[0]
        if t.op == 'call' and t.a[0].op == 'ext':
            return {'builtins.list': 'list', 'builtins.set': 'set', 'builtins.dict': 'dict', 'builtins.sorted': 'list', 'builtins.frozenset': 'set'}.get(t.a[0].a[0])
        if t.op == 'attr':
            return self.typer.kind_of(self, t)
        if t.op == 'phi':
            ks = {self.kind_of(x, st) for x in self.alternatives(t)}
            return ks.pop() if len(ks) == 1 else None
        if t.op == 'bin' and t.a[0] in ('-', '|', '&'):
            return 'set' if 'set' in (self.kind_of(t.a[1], st), self.kind_of(t.a[2], st)) else None
        return None

    def getattr(self, st, base, name, node, want_call=False):
        b = base
        if self.mon.loads and b.op == 'inst':
            sts = self.emit(Ev('loadattr', node, base=b, name=name), st)
            if not sts:
                return []
            st = sts[0]
        if b.op == 'mod':
            m = self.prog.modules[b.a[0]]
            r = self.prog.resolve_name(m, name, builtin=False)
            if r is None:
                r = self.prog.modules.get(m.name + '.' + name)
            return self.resolved(r, st, node)
        if b.op == 'ext':
            return [(st, ext(canon_ext(b.a[0] + '.' + name)))]
        if b.op == 'cls':
            c = self.prog.classes[b.a[0]]
            f = self.prog.find_method(c, name)
            if f is not None:
                k = self.prog.method_kind(f)
                if k == 'classmethod':
                    return [(st, T('bound', T('func', f.fid, None), b))]
                return [(st, T('func', f.fid, None))]
            ca = self.prog.find_class_attr(c, name)
            if ca is not None:
                return self.class_attr(ca, name, st)
            return [(st, attr(b, name))]
        if b.op == 'super':
            c, s_ = self.prog.classes[b.a[0]], b.a[1]
            cls = self.class_of(s_, st) or c
            f = self.prog.find_method(cls, name, after=c)
            if f is not None:
                return self.bind_method(f, s_, st, node)
            ca = self.prog.find_class_attr(cls, name, after=c)
            if ca is not None:
                return self.class_attr(ca, name, st)
            return [(st, T('attr', b, name, None))]
        if name == '__class__' and b.op == 'inst' and b.a[0] in self.prog.classes:
            return [(st, T('cls', b.a[0]))]
        if (b, name) in st.heap:
            return [(st, st.heap[(b, name)])]
        if b.op == 'phi':
            # distribute over the objects when they are all known instances
            alts = self.alternatives(b)
            insts = [x for x in alts if x.op in ('inst',)]
            if insts and len(insts) == len([x for x in alts if x is not UNDEF and x is not NONE]):
                cls = self.class_of(b, st)
                if cls is not None:
                    f = self.prog.find_method(cls, name)
                    if f is not None:
                        return self.bind_method(f, b, st, node)
                vals = []
                for x in insts:
                    if (x, name) in st.heap:
                        vals.append(st.heap[(x, name)])
                if len(vals) == len(insts):
                    if len(set(vals)) == 1:
                        return [(st, vals[0])]
                    return [(st, self.phi('a', (b, name), *vals))]
        if b.op == 'exc' and name in ('args', '__traceback__', '__cause__'):
            return [(st, attr(b, name))]
        if b.op == 'dispatch':
            return [(st, attr(b, name))]
        cls = self.class_of(b, st)
        if cls is not None:
            f = self.prog.find_method(cls, name)
            if f is not None:
                return self.bind_method(f, b, st, node)
            ca = self.prog.find_class_attr(cls, name)
            if ca is not None:
                return self.class_attr(ca, name, st)
            if name == '__class__':
                return [(st, T('cls', cls.cid))]
        t = self.attr_term(st, b, name)
        if not want_call or name in self.typer.stored_attrs:
            st.heap[(b, name)] = t
        return [(st, t)]

    def attr_term(self, st, b, name):
        ver = None
        if name in self.typer.stored_attrs and not (b.op == 'in' and False):
            ver = st.epoch or 0
            if ver == 0:
                ver = None
        return attr(b, name, ver)

    def class_attr(self, ca, name, st):
        c, node = ca
        self.fstack.append((c.module, 'cls:' + c.cid, None))
        try:
            rs = self.eval(node, st)
        finally:
            self.fstack.pop()
        out = []
        for s, v in rs:
            if v.op == 'obj':
                g = T('glob', c.cid, name)
                self.typer.glob_content.setdefault(g, s.heap.get((v, '#')))
                out.append((s, g))
            else:
                out.append((s, v))
        return out

    def bind_method(self, f, selfterm, st, node):
        k = self.prog.method_kind(f)
        if k == 'property':
            return self.inline(f, T('func', f.fid, None), [selfterm], [], st, node)
        if k == 'staticmethod':
            return [(st, T('func', f.fid, None))]
        if k == 'classmethod':
            cls = self.class_of(selfterm, st)
            return [(st, T('bound', T('func', f.fid, None), T('cls', cls.cid) if cls else selfterm))]
        fv = T('func', f.fid, None)
        for d in f.decorators():
            r = self.prog.resolve_expr(f.module, d)
            if isinstance(r, str) and r.endswith('contextmanager'):
                fv = T('cmfunc', fv)
        return [(st, T('bound', fv, selfterm))]

    def sub(self, b, i):
        if b.op == 'tuple' and i.op == 'const' and isinstance(cval(i), int):
            items = b.a[0]
            if not any(x.op == 'star' for x in items) and -len(items) <= cval(i) < len(items):
                return items[cval(i)]
        if i.op == 'idx' and i.a[0] is strip_at(b) and is_const(i.a[2], 0):
            return T('elem', strip_at(b), i.a[1])
        return T('sub', b, i)

    def e_Subscript(self, node, st):
        res = []
        for s, (b, i) in self.evals([node.value, node.slice], st):
            res += self.getitem(s, b, i, node)
        return res

    def getitem(self, s, b, i, node):
        items = self.dict_items(s, b) if b.op in ('obj', 'glob', 'default', 'call') else None
        if items is not None:
            for k, v in reversed(items):
                if k is i:
                    return [(s, v)]
                if k is None:
                    break
            else:
                if i.op == 'const' and all(k.op == 'const' for k, _ in items):
                    self.throw(s, T('exc', 'X', 'key', 'builtins.KeyError'))
                    return []
                if i.op != 'const' and items and all(k is not None for k, _ in items):
                    if self.raising():
                        self.throw(s.copy(), T('exc', 'X', 'key', 'builtins.KeyError'))
                    vals = []
                    for _, v in items:
                        if v not in vals:
                            vals.append(v)
                    if len(vals) <= 6:
                        # split over the entries
                        out = []
                        for k, v in items:
                            for s1 in self.assume(s.copy(), T('cmp', '==', i, k), True):
                                out.append((s1, v))
                        return out
                    return [(s, self.phi(self.site(node), ('item',), *vals))]
        seq = self.seq_items(s, b)
        if seq is not None and i.op == 'const' and isinstance(cval(i), int):
            if -len(seq) <= cval(i) < len(seq):
                return [(s, seq[cval(i)])]
        if seq is not None and i.op == 'slice' and all(x.op == 'const' for x in i.a):
            sl = slice(*[cval(x) for x in i.a])
            return [(s, self.new_obj('list', node, s, T('seq', tuple(seq[sl]))) if b.op == 'obj' else tup(*seq[sl]))]
        if (b, i) in s.heap:
            return [(s, s.heap[(b, i)])]
        cls = self.class_of(b, s)
        if cls is not None:
            f = self.prog.find_method(cls, '__getitem__')
            if f is not None:
                return self.inline(f, T('func', f.fid, None), [b, i], [], s, node)
        if self.raising() and b.op not in ('comp',):
            self.throw(s.copy(), T('exc', 'E', 'sub@' + self.site(node), None))
        t = self.sub(self.snap(s, b), i)
        out = []
        for s1 in self.emit(Ev('getitem', node, base=b, idx=i, result=t), s):
            out.append((s1, t))
        return out

    def raising(self):
        """Whether implicit exceptions matter here (inside a try statement)."""
        return self.eager_exc or len(self.sinks) > 1 and self.in_try()

    def in_try(self):
        # approximates: some function on the stack contains a try statement
        for f, _, _ in self.fstack:
            if isinstance(f, Function) and self.typer.has_try(f):
                return True
        return False

    def e_Slice(self, node, st):
        parts = [x if x is not None else ast.Constant(None) for x in (node.lower, node.upper, node.step)]
        return [(s, T('slice', *vs)) for s, vs in self.evals(parts, st)]

    def e_Starred(self, node, st):
        return [(s, T('star', v)) for s, v in self.eval(node.value, st)]

    def e_Yield(self, node, st):
        vals = self.eval(node.value, st) if node.value is not None else [(st, NONE)]
        res = []
        for s, v in vals:
            for s1 in self.emit(Ev('yield', node, value=v), s):
                if self.yield_handlers:
                    res += self.yield_handlers[-1](s1, v)
                else:
                    res.append((s1, NONE))
        return res

    def e_YieldFrom(self, node, st):
        res = []
        for s, it in self.eval(node.value, st):
            def h(s1, e):
                out = []
                for s2 in self.emit(Ev('yield', node, value=e), s1):
                    if self.yield_handlers:
                        out += [x for x, _ in self.yield_handlers[-1](s2, e)]
                    else:
                        out.append(s2)
                return out, []
            ex, _ = self.iterate(s, it, node, h)
            res += [(x, NONE) for x in ex]
        return res

    def e_Await(self, node, st):
        res = []
        for s, v in self.eval(node.value, st):
            res += self.await_(v, s, node)
        return res

    def await_(self, v, st, node):
        """Await a term."""
        if v.op == 'coro':
            fterm, args, kwargs = v.a
            return self.run_coro(fterm, list(args), list(kwargs), st, node)
        if v.op == 'phi':
            alts = self.alternatives(v)
            if alts and all(x.op == 'coro' for x in alts):
                res = []
                for x in alts:
                    res += self.await_(x, st.copy(), node)
                return res
        # suspension on something external
        res = []
        for s in self.emit(Ev('await', node, value=v), st):
            s2 = s.copy()
            self.havoc(s, node)
            self.havoc(s2, node)
            if not exts.await_never_raises(v):
                self.throw(s2.copy(), T('exc', 'E', 'await:' + head(v), None))
            self.throw(s2, T('exc', 'B', 'cancel', None))
            for s3 in self.emit(Ev('resumed', node, value=v), s):
                r = T('awaited', v)
                if self.focus_mode and v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] == 'asyncio.wait' and v.a[1]:
                    items = self.seq_items(s3, strip_iter(v.a[1][0]))
                    if items is not None:
                        fin = [x for x in items if self.holds(s3, T('call', T('attr', x, 'done', None), (), (), None)) is not False]
                        d = self.new_obj('set', node, s3, T('seq', tuple(fin)))
                        p = T('obj', 'set', self.site(node, 'pend'))
                        s3.heap[(p, '#')] = T('seq', tuple(x for x in items if x not in fin))
                        r = tup(d, p)
                res.append((s3, r))
        return res

    def run_coro(self, fterm, args, kwargs, st, node):
        f0 = fterm
        pre = []
        if fterm.op == 'bound':
            pre, f0 = [fterm.a[1]], fterm.a[0]
        if f0.op == 'func':
            f = self.prog.functions[f0.a[0]]
            if f.fid in self.opaque or f.qual in self.opaque or f.name in self.opaque:
                t = call(f0, pre + args, kwargs, self.site(node, 'c'))
                res = []
                for s in self.emit(Ev('call', node, fn=f, name=f.qual, args=pre + args, kwargs=dict(kwargs), result=t, opaque=True, awaited=True), st):
                    s2 = s.copy()
                    self.havoc(s2, node)
                    self.havoc(s, node)
                    self.throw(s2, T('exc', 'E', 'await:' + f.qual, None))
                    self.throw(s2.copy(), T('exc', 'B', 'await:' + f.qual, None))
                    for s3 in self.emit(Ev('resumed', node, value=t, fn=f, opaque=True), s):
                        res.append((s3, t))
                return res
            return self.inline(f, f0, pre + args, kwargs, st, node, run_async=True)
        return self.user_call(fterm, args, kwargs, st, node)

    def user_call(self, fterm, args, kwargs, st, node):
        """Await a call of a function supplied by the user."""
        t = call(fterm, args, kwargs, self.site(node, 'u'))
        res = []
        for s in self.emit(Ev('usercall', node, fn=fterm, args=args, kwargs=dict(kwargs), result=t), st):
            s2 = s.copy()
            self.havoc(s, node)
            self.havoc(s2, node)
            self.throw(s2, T('exc', 'E', 'user', None))
            self.throw(s2.copy(), T('exc', 'B', 'user', None))
            for s3 in self.emit(Ev('resumed', node, value=t, user=True), s):
                res.append((s3, t))
        return res

    # ------------------------------------------------------------------
    # calls
    def e_Call(self, node, st):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            f = self.func
            while isinstance(f, Function) and f.cls is None and f.parent is not None:
                f = f.parent
            if isinstance(f, Function) and f.cls is not None:
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                fid = self.scope_of(first, st)
                return [(st, T('super', f.cls.cid, st.frames[fid][first]))]
        res = []
        if isinstance(node.func, ast.Attribute):
            fvs = []
            for s, b in self.eval(node.func.value, st):
                fvs += self.getattr(s, b, node.func.attr, node.func, want_call=True)
        else:
            fvs = self.eval(node.func, st)
        for s, fv in fvs:
            for s1, args in self.eval_items(node.args, s):
                kws = [(s1, [])]
                for kw in node.keywords:
                    nxt = []
                    for s2, ks in kws:
                        for s3, v in self.eval(kw.value, s2):
                            nxt.append((s3, ks + ([(kw.arg, v)] if kw.arg is not None else self.star_items(s3, v))))
                    kws = nxt
                for s2, ks in kws:
                    res += self.apply(fv, args, ks, s2, node)
        return res

    def apply(self, fv, args, kwargs, st, node):
        """Call a value."""
        kwargs = list(kwargs)
        if fv.op == 'func':
            f = self.prog.functions[fv.a[0]]
            return self.inline(f, fv, args, kwargs, st, node)
        if fv.op == 'bound':
            inner = fv.a[0]
            return self.apply(inner, [fv.a[1]] + list(args), kwargs, st, node)
        if fv.op == 'cmfunc':
            out = []
            for s, v in self.apply(fv.a[0], args, kwargs, st, node):
                out.append((s, T('gencm', v) if v.op in ('gen', 'coro') else v))
            return out
        if fv.op == 'partial':
            return self.apply(fv.a[0], list(fv.a[1]) + list(args), list(fv.a[2]) + kwargs, st, node)
        if fv.op == 'wrapped':
            return [(st, T('coro', fv, tuple(args), tuple(kwargs)))]
        if fv.op == 'dispatch':
            return self.apply_dispatch(fv, args, kwargs, st, node)
        if fv.op == 'cls':
            return self.instantiate(self.prog.classes[fv.a[0]], args, kwargs, st, node)
        if fv.op == 'phi':
            alts = [x for x in self.alternatives(fv) if x is not UNDEF and x is not NONE]
            if alts and all(x.op in ('func', 'bound', 'partial', 'cls', 'cmfunc') for x in alts) and len(alts) <= 6:
                res = []
                for x in sorted(alts):
                    res += self.apply(x, args, kwargs, st.copy(), node)
                return res
            if alts and all(x.op == 'attr' for x in alts) and len({x.a[1] for x in alts}) == 1:
                recv = self.phi(fv.a[0], ('recv', fv.a[1]), *[x.a[0] for x in alts])
                return exts.call_method(self, recv, next(iter(alts)).a[1], args, kwargs, st, node)
        if fv.op == 'ext':
            return exts.call_ext(self, fv.a[0], args, kwargs, st, node)
        if fv.op == 'attr':
            return exts.call_method(self, fv.a[0], fv.a[1], args, kwargs, st, node)
        cls = self.class_of(fv, st)
        if cls is not None:
            f = self.prog.find_method(cls, '__call__')
            if f is not None:
                return self.inline(f, T('func', f.fid, None), [fv] + list(args), kwargs, st, node)
        # unknown callable (user supplied function, element of a table, ...)
        t = call(fv, args, kwargs, self.site(node, 'c'))
        res = []
        for s in self.emit(Ev('call', node, fn=fv, name=None, args=args, kwargs=dict(kwargs), result=t, unknown=True), st):
            self.throw(s.copy(), T('exc', 'E', 'user' if fv.op == 'in' else 'call', None))
            if fv.op == 'in':
                self.throw(s.copy(), T('exc', 'B', 'user', None))
            res.append((s, t))
        return res

    def apply_dispatch(self, fv, args, kwargs, st, node):
        """functools.singledispatch: choose by the class of the first argument."""
        base = fv.a[0]
        f = self.prog.functions[base.a[0]]
        table = self.typer.dispatch_table(f)
        cls = self.class_of(args[0], st) if args else None
        res = []
        if cls is not None:
            for c in self.prog.mro(cls):
                if c.cid in table:
                    g = table[c.cid]
                    return self.inline(g, T('func', g.fid, None), args, kwargs, st, node)
            return self.inline(f, base, args, kwargs, st, node)
        for cid, g in sorted(table.items()):
            for s in self.assume(st.copy(), call(ext('builtins.isinstance'), [args[0], T('cls', cid)]), True):
                res += self.inline(g, T('func', g.fid, None), args, kwargs, s, node)
        s = st
        ss = [s]
        for cid in sorted(table):
            ss = [y for x in ss for y in self.assume(x, call(ext('builtins.isinstance'), [args[0], T('cls', cid)]), False)]
        for x in ss:
            res += self.inline(f, base, args, kwargs, x, node)
        return res

    def instantiate(self, cls, args, kwargs, st, node):
        """Create an instance of a package class."""
        inst = T('inst', cls.cid, self.site(node, 'n'), True)
        for k in [k for k in st.heap if k[0] is inst]:
            del st.heap[k]
        res = []
        bound_args = list(args)
        for s in self.emit(Ev('new', node, cls=cls, inst=inst, args=args, kwargs=dict(kwargs)), st):
            f = self.prog.find_method(cls, '__init__')
            if f is None:
                exb = self.prog.ext_bases(cls)
                for k, v in kwargs:
                    if k != '**':
                        s.heap[(inst, k)] = v
                    else:
                        items = self.dict_items(s, v)
                        if items is not None:
                            for kk, vv in items:
                                if kk is not None and kk.op == 'const':
                                    s.heap[(inst, cval(kk))] = vv
                                elif kk is None:
                                    s.heap[(inst, '#**')] = vv
                        else:
                            s.heap[(inst, '#**')] = v
                for s2 in self.emit(Ev('newdone', node, cls=cls, inst=inst), s):
                    res.append((s2, inst))
                continue
            for s2, _ in self.inline(f, T('func', f.fid, None), [inst] + bound_args, kwargs, s, node):
                for s3 in self.emit(Ev('newdone', node, cls=cls, inst=inst), s2):
                    res.append((s3, inst))
        return res

    def mutate(self, st, base, method, args, kwargs, node, result=None):
        """In-place modification of a container or external object."""
        res = []
        for s in self.emit(Ev('mutate', node, base=base, method=method, args=args, kwargs=dict(kwargs), result=result), st):
            c = s.heap.get((base, '#'))
            new = None
            if c is not None and c.op == 'seq' and base.op == 'obj':
                inloop = self.loops and not self.created_in_loop(base, s)
                if self.count_mode and method in ('append', 'add') and len(args) == 1 and len(c.a[0]) >= CAP:
                    new = c
                elif method == 'append' and len(args) == 1:
                    new = T('seq', c.a[0] + (args[0],))
                elif method == 'add' and len(args) == 1:
                    new = T('seq', c.a[0] + (args[0],))
                elif method in ('extend', 'update') and len(args) == 1:
                    items = self.seq_items(s, args[0])
                    new = T('seq', c.a[0] + (tuple(items) if items is not None else (T('star', args[0]),)))
                elif method == 'clear':
                    new = T('seq', ())
                if self.focus_mode and new is None or self.focus_mode and base.a[0] == 'set':
                    new = self.focus_mutate(s, base, c, method, args) or new
                if new is not None and len(new.a[0]) > 12:
                    new = None
            elif c is not None and c.op == 'ditems':
                if method == 'update' and len(args) <= 1:
                    items = list(c.a[0])
                    if args:
                        items.append(T('kv', T('starstar'), args[0]))
                    for k, v in kwargs:
                        if k == '**':
                            items.append(T('kv', T('starstar'), v))
                        else:
                            items = [kv for kv in items if kv.a[0] is not const(k)] + [T('kv', const(k), v)]
                    new = T('ditems', tuple(items))
                elif method == 'clear':
                    new = T('ditems', ())
                elif method == 'setdefault' and len(args) == 2 and all(kv.a[0].op == 'const' for kv in c.a[0]) and args[0].op == 'const':
                    if any(kv.a[0] is args[0] for kv in c.a[0]):
                        new = c
                    else:
                        new = T('ditems', c.a[0] + (T('kv', args[0], args[1]),))
                elif method == 'setdefault' and len(args) == 2 and args[0].op == 'const' and all(kv.a[0].op in ('const', 'starstar') for kv in c.a[0]):
                    if any(kv.a[0] is args[0] for kv in c.a[0]):
                        new = c
                    else:
                        new = T('ditems', (T('kv', args[0], args[1]),) + c.a[0])
                elif method == 'pop' and args and args[0].op == 'const' and all(kv.a[0].op == 'const' for kv in c.a[0]):
                    new = T('ditems', tuple(kv for kv in c.a[0] if kv.a[0] is not args[0]))
            self.bump(s, base, node)
            if method == 'sort' and not args and (base.op == 'comp' and base.a[0] == 'list' or base.op == 'call' and base.a[0].op == 'ext' and base.a[0].a[0] in ('builtins.list', 'builtins.sorted')):
                # what is called by this name is the sorted list from now on
                after = call(T('ext', 'builtins.sorted'), (base,), tuple(kwargs.items()) if isinstance(kwargs, dict) else tuple(kwargs))
                for fid, fr in list(s.frames.items()):
                    if any(v is base for v in fr.values()):
                        s.frames[fid] = {k: after if v is base else v for k, v in fr.items()}
                for k in [k for k, v in s.heap.items() if v is base]:
                    s.heap[k] = after
            if new is not None:
                s.heap[(base, '#')] = new
            else:
                s.heap.pop((base, '#'), None)
                for k in [k for k in s.heap if k[0] is base and isinstance(k[1], T)]:
                    del s.heap[k]
            res.append(s)
        return res

    def focus_mutate(self, s, base, c, method, args):
        """Focus mode: exact effect on a container of distinct known elements."""
        cur = list(c.a[0])
        if any(x.op == 'star' for x in cur):
            return None
        if method == 'add' and len(args) == 1:
            return c if args[0] in cur else T('seq', tuple(cur) + (args[0],))
        if method in ('discard', 'remove', '__delitem__') and len(args) == 1 and method != '__delitem__':
            if args[0].op != 'focus' and any(x.op == 'focus' for x in cur):
                return c if args[0].op == 'elem' or args[0].op == 'const' else None
            return T('seq', tuple(x for x in cur if x is not args[0]))
        if method in ('difference_update', 'update', 'intersection_update', 'extend'):
            others = []
            for a in args:
                it = self.seq_items(s, strip_iter(a))
                if it is None:
                    return None
                others += it
            if method == 'update' and base.a[0] == 'set':
                return T('seq', tuple(dict.fromkeys(cur + others)))
            if method == 'difference_update':
                return T('seq', tuple(x for x in cur if x not in others))
            if method == 'intersection_update':
                return T('seq', tuple(x for x in cur if x in others))
        return None

    def created_in_loop(self, base, st):
        return False


# ----------------------------------------------------------------------------
# helpers

def join(a, b):
    o = Out(a.next + b.next)
    o.brk = a.brk + b.brk
    o.cont = a.cont + b.cont
    o.ret = a.ret + b.ret
    return o


def k_terms(key):
    return [x for x in key[1:] if isinstance(x, T)]


def flat_trail(t):
    out = []
    while t:
        t, x = t
        out.append(x)
    out.reverse()
    return out[-25:]


def as_load(node):
    n = ast.copy_location(type(node)(**{f: getattr(node, f) for f in node._fields}), node)
    n.ctx = ast.Load()
    return n


def src(node):
    try:
        s = ast.unparse(node)
    except Exception:
        return '?'
    return s if len(s) < 90 else s[:87] + '...'


def is_len(t):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.len' and len(t.a[1]) == 1


def strip_at(t):
    while t.op == 'at':
        t = t.a[0]
    return t


def strip_iter(t):
    t = strip_at(t)
    while t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.iter', 'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1 and not t.a[2] and t.a[1][0].op != 'star':
        t = strip_at(t.a[1][0])
    return t


def strip_bool(t):
    while t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.bool', 'builtins.list', 'builtins.tuple') and len(t.a[1]) == 1 and t.a[1][0].op in ('or', 'and', 'un', 'cmp', 'bin', 'call', 'at', 'attr', 'phi', 'const', 'obj'):
        t = t.a[1][0]
    return t


def is_listlike(t):
    t = strip_at(t)
    if t.op == 'comp':
        return True
    if t.op == 'obj':
        return t.a[0] == 'list'
    if t.op == 'tuple':
        return True
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.list', 'builtins.sorted', 'builtins.tuple'):
        return True
    if t.op == 'bin' and t.a[0] == '+':
        return is_listlike(t.a[1]) or is_listlike(t.a[2])
    return False


def is_concat(t):
    return t.op == 'bin' and t.a[0] == '+' and (is_listlike(t.a[1]) or is_listlike(t.a[2]))


def queue_content(recv):
    return T('attr', strip_at(recv), '#queue', None) if recv.op != 'at' else T('at', T('attr', strip_at(recv), '#queue', None), recv.a[1])


def head(t):
    if t.op == 'call':
        f = t.a[0]
        return f.a[0] if f.op == 'ext' else (f.a[1] if f.op == 'attr' else f.op)
    return t.op


def show_exc(e):
    if e.op != 'exc':
        return show(e)
    kind = {'E': 'an Exception', 'B': 'a BaseException', 'X': str(e.a[2]), 'V': 'an exception value', 'unwind': 'unwind'}.get(e.a[0], '?')
    return '%s (from %s)' % (kind, e.a[1] if isinstance(e.a[1], str) else show(e.a[1]))


def canon_ext(name):
    return exts.ALIASES.get(name, name)


def _distinct_idx(a, b):
    return a.op == 'const' and b.op == 'const' and cval(a) != cval(b) and isinstance(cval(a), int) and isinstance(cval(b), int) and (cval(a) < 0) == (cval(b) < 0)


def _compatible(r1, c1, r2, c2):
    """Whether some x satisfies x r1 c1 and x r2 c2 (r = outcome sets)."""
    pts = sorted({c1, c2})
    cands = []
    for i, p in enumerate(pts):
        cands.append(p)
    cands += [pts[0] - 1, pts[-1] + 1] + ([(pts[0] + pts[1]) / 2] if len(pts) == 2 else [])

    def rel(x, c):
        return '<' if x < c else '>' if x > c else '='
    for x in cands:
        if rel(x, c1) in r1 and rel(x, c2) in r2:
            return True
    return 'u' in r1 and 'u' in r2


# ----------------------------------------------------------------------------
# whole-program type facts

class Types:
    """Attribute kinds inferred from the constructors, and package-wide tables."""

    def __init__(self, prog):
        self.prog = prog
        self.globs = {}
        self.glob_content = {}
        self.glob_init = {}
        self._cls = {}
        self.empties = {}
        self._trys = {}
        self._pending = set()
        self._dispatch = {}
        self.stored_attrs = set()      # attributes assigned outside constructors
        self.mutated_attrs = set()     # attributes whose content is modified
        self.init_values = {}
        self._scan()

    def _constructors(self):
        """Constructors, and functions that only they refer to."""
        fs = list(self.prog.functions.values())
        res = {f.fid for f in fs if f.name == '__init__'}
        users = {}
        for f in fs:
            inner = {id(x) for g in fs if g.parent is f for x in ast.walk(g.node)}
            for n in ast.walk(f.node):
                if id(n) in inner:
                    continue
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if nm is not None:
                    users.setdefault(nm, set()).add(f.fid)
        for m in self.prog.modules.values():
            inner = {id(x) for f in fs if f.module is m for x in ast.walk(f.node)}
            for n in ast.walk(m.tree):
                if id(n) not in inner and isinstance(n, (ast.Attribute, ast.Name)):
                    users.setdefault(n.attr if isinstance(n, ast.Attribute) else n.id, set()).add(None)
        while True:
            new = {f.fid for f in fs if f.fid not in res and not isinstance(f.node, ast.Lambda) and f.name[:1] == '_' or f.parent is not None and f.parent.fid in res and f.fid not in res}
            new = {x for x in new if self._users(users, x) and self._users(users, x) <= res | {x}}
            if not new:
                return res
            res |= new

    def _users(self, users, fid):
        f = self.prog.functions[fid]
        us = users.get(f.name, set())
        if f.parent is None:
            return us
        return {u for u in us if u is not None and self._within(self.prog.functions[u], f.parent)}

    def _within(self, f, g):
        while f is not None and f is not g:
            f = f.parent
        return f is not None

    def _scan(self):
        ctors = self._constructors()
        for f in self.prog.functions.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if not (f.fid in ctors and isinstance(n.value, ast.Name) and n.value.id in _selves(f)):
                        self.stored_attrs.add(n.attr)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in exts.MUTATORS:
                    self._mark(n.value, f)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self._mark(n.value, f)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                    self.mutated_attrs.add(n.target.attr)

    def _mark(self, n, f):
        while isinstance(n, ast.Subscript):
            n = n.value
        if isinstance(n, ast.Attribute):
            self.mutated_attrs.add(n.attr)

    def has_try(self, f):
        r = self._trys.get(f.fid)
        if r is None:
            r = self._trys[f.fid] = any(isinstance(n, (ast.Try, ast.With, ast.AsyncWith)) for n in ast.walk(f.node))
        return r

    def dispatch_table(self, f):
        """Registered implementations of a singledispatch function."""
        if f.fid in self._dispatch:
            return self._dispatch[f.fid]
        table = {}
        for g in self.prog.functions.values():
            for d in g.decorators():
                target = d.func if isinstance(d, ast.Call) else d
                if isinstance(target, ast.Attribute) and target.attr == 'register':
                    r = self.prog.resolve_expr(g.module, target.value)
                    if r is f:
                        clss = []
                        if isinstance(d, ast.Call):
                            clss = d.args
                        else:
                            a = (g.node.args.posonlyargs + g.node.args.args)
                            if a and a[0].annotation is not None:
                                clss = [a[0].annotation]
                        for cn in clss:
                            c = self.prog.resolve_expr(g.module, cn)
                            if isinstance(c, Class):
                                table[c.cid] = g
        self._dispatch[f.fid] = table
        return table

    def init_of(self, cls):
        """attr -> set of values over all paths of the constructor."""
        if cls.cid in self._cls:
            return self._cls[cls.cid]
        if cls.cid in self._pending:
            return {}
        self._pending.add(cls.cid)
        vals = {}
        f = self.prog.find_method(cls, '__init__')
        if f is not None:
            e = Engine(self.prog)
            args, kwargs = e.symbolic_args(f)
            inst = T('inst', cls.cid, 'self', False)
            rets, _ = e.run(f, args, kwargs, self_term=inst)
            for s, _ in rets:
                for (b, name), v in s.heap.items():
                    if b is inst and isinstance(name, str) and not name.startswith('#'):
                        c = s.heap.get((v, '#'))
                        if v.op == 'obj' and c is not None and c.op == 'seq' and not c.a[0]:
                            self.empties.setdefault(cls.cid, {})[name] = v
                        for x in e.alternatives(v):
                            vals.setdefault(name, set()).add(x)
        self._cls[cls.cid] = vals
        self._pending.discard(cls.cid)
        return vals

    def attr_classes(self, cls, name):
        vals = self.init_of(cls).get(name)
        if not vals:
            return None
        res = set()
        for v in vals:
            if v.op == 'inst':
                res.add(v.a[0])
            elif v is NONE:
                res.add(None)
            else:
                return None
        return res

    def class_of(self, eng, t):
        if t.op == 'attr':
            if t.a[1] in HINTS and not self.prog_has_attr(t.a[1]):
                pass
            b = eng.class_of(t.a[0])
            if b is not None:
                cs = self.attr_classes(b, t.a[1])
                if cs:
                    cs = cs - {None}
                    if len(cs) == 1:
                        return self.prog.classes.get(next(iter(cs)))
                v = self.init_of(b).get(t.a[1])
                if v and all(x.op == 'in' for x in v):
                    return self.hint(t.a[1])
            return None
        if t.op == 'in':
            return eng.in_types.get(t.a[0]) if hasattr(eng, 'in_types') else None
        if t.op == 'kwget':
            return None
        return None

    def hint(self, name):
        c = HINTS.get(name)
        if c is None:
            return None
        for k in self.prog.classes.values():
            if k.name == c:
                return k
        return None

    def prog_has_attr(self, name):
        return True

    def not_none(self, t):
        """attr term whose constructor value is never None."""
        return False

    def kind_of(self, eng, t):
        b = eng.class_of(t.a[0])
        if b is None:
            return None
        vals = self.init_of(b).get(t.a[1])
        if not vals:
            return None
        ks = {eng.kind_of(v) for v in vals}
        return ks.pop() if len(ks) == 1 else None

    def ext_type(self, eng, t):
        """External type of an attribute set in the constructor (dotted name)."""
        t = strip_at(t)
        if t.op == 'call' and t.a[0].op == 'ext':
            return t.a[0].a[0]
        if t.op == 'attr':
            b = eng.class_of(t.a[0])
            if b is not None:
                vals = self.init_of(b).get(t.a[1])
                if vals:
                    ns = {x.a[0].a[0] for x in vals if x.op == 'call' and x.a[0].op == 'ext'}
                    if len(ns) == 1 and all(x.op == 'call' for x in vals):
                        return ns.pop()
        if t.op == 'phi':
            ns = {self.ext_type(eng, x) for x in eng.alternatives(t)}
            return ns.pop() if len(ns) == 1 else None
        return None


# attributes that hold a constructor argument; the class the documentation gives
HINTS = {
    'coordinate_system': 'CoordinateSystem',
    'result': 'SearchResultContainer',
    'simplex_queue': 'SimplexQueue',
    'position_queue': 'PositionQueue',
    'ancestor': 'MinimizationResult',
    'child': 'MinimizationResult',
}


def _first_arg(f):
    a = f.node.args.posonlyargs + f.node.args.args
    return [a[0].arg] if a else []


def _selves(f):
    """Names that stand for the object itself in a method (and what is nested in it)."""
    names, chain = set(), []
    while f is not None:
        chain.append(f)
        names.update(_first_arg(f) if f.cls is not None or f.parent is None else ())
        f = f.parent
    stored = {}
    for g in chain:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stored[n.id] = stored.get(n.id, 0) + 1
    while True:
        new = {t.id for g in chain for n in ast.walk(g.node)
               if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names
               for t in n.targets if isinstance(t, ast.Name) and stored[t.id] == 1} - names
        if not new:
            return names
        names |= new


def prog_types(prog):
    t = getattr(prog, '_types', None)
    if t is None:
        t = prog._types = Types(prog)
    return t
