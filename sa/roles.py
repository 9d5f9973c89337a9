"""The parts of the program the properties talk about, found from public names
and type tags, never from private names."""

from .engine import Engine, Monitor, DEAD, strip_at
from .loader import AnalysisError, Function
from .terms import T, walk, show, NONE

TAGS = dict(
    S='nodefinder.simplex_queue', P='nodefinder.position_queue', state='nodefinder.controller_state',
    result='nodefinder.search_result_container', coord='nodefinder.coordinate_system',
    minres='nodefinder.minimization_result', joined='nodefinder.joined_minimization_result',
    ires='nodefinder.identification_result', icont='nodefinder.identification_result_container',
    point='nodefinder.nodal_point', line='nodefinder.nodal_line',
)


class Roles:
    def __init__(self, prog):
        self.prog = prog
        self.run_async = prog.public('nodefinder.search', 'run_async')
        self.run_sync = prog.public('nodefinder.search', 'run')

    def cls(self, key):
        return self.prog.class_by_tag(TAGS[key])

    def __getattr__(self, name):
        if name in TAGS:
            return self.cls(name)
        raise AttributeError(name)

    # -- discovery -----------------------------------------------------------
    @property
    def entry(self):
        """(controller class, coroutine function that run_async awaits)."""
        r = getattr(self, '_entry', None)
        if r is None:
            r = self._entry = self._find_entry()
        return r

    def _find_entry(self):
        roles = self
        found = {}

        class M(Monitor):
            def on(self, ev, m, st, eng):
                if ev.kind == 'call' and ev.awaited and isinstance(ev.fn, Function) and ev.fn.cls is not None and ev.args:
                    c = eng.class_of(ev.args[0], st)
                    if c is not None and ev.fn.cls in roles.prog.mro(c):
                        found.setdefault(ev.fn.fid, (c, ev.fn))
                return m

        # the constructor is not needed for this
        prog = self.prog
        inits = {f.fid for f in prog.functions.values() if f.name == '__init__'}
        e = Engine(prog, M())
        e.opaque = inits | {f.fid for f in prog.functions.values() if f.cls is not None and f.is_async}
        a, k = e.symbolic_args(self.run_async)
        e.run(self.run_async, a, k)
        if not found:
            # awaited coroutine is not opaque: the opaque event
            raise AnalysisError('run_async does not await a method of a controller class')
        for c, f in found.values():
            return c, f

    @property
    def controller(self):
        return self.entry[0]

    @property
    def main(self):
        return self.entry[1]

    @property
    def self_term(self):
        return T('inst', self.controller.cid, 'self', False)

    # -- background tasks of the entry ----------------------------------------
    def tasks(self):
        """Coroutine functions started as tasks, and functions run periodically:
        {'spawn': [(Function, [args])], 'periodic': [(Function, kwargs)]}."""
        r = getattr(self, '_tasks', None)
        if r is not None:
            return r
        spawn, periodic = {}, {}
        roles = self
        self.qterms = {}
        prog = self.prog

        class M(Monitor):
            def on(self, ev, m, st, eng):
                if ev.kind == 'enter' and isinstance(ev.fn, Function) and ev.fn.cls is not None:
                    ps = [x.arg for x in ev.fn.node.args.posonlyargs + ev.fn.node.args.args]
                    me = ev.args.get(ps[0]) if ps else None
                    if me is not None:
                        q = roles.queue_of(eng, me, st)
                        if q and strip_at(me).op in ('attr', 'inst', 'in'):
                            roles.qterms.setdefault(q, []).append(strip_at(me)) if strip_at(me) not in roles.qterms.get(q, []) else None
                if ev.kind == 'spawn':
                    c = ev.coro
                    if c.op == 'coro':
                        ft, args = c.a[0], list(c.a[1])
                        while ft.op == 'bound':
                            ft, args = ft.a[0], [ft.a[1]] + args
                        if ft.op == 'func':
                            spawn.setdefault(ft.a[0], (ev.node, ft, args, c.a[2]))
                        else:
                            spawn.setdefault(show(ft), (ev.node, None, args, ()))
                if ev.kind == 'call' and ev.name and ev.name.endswith('PeriodicTask'):
                    fv = ev.args[0] if ev.args else ev.kwargs.get('task_func')
                    if fv is not None:
                        pre = []
                        while fv.op in ('bound', 'partial'):
                            if fv.op == 'bound':
                                fv, pre = fv.a[0], [fv.a[1]] + pre
                            else:
                                fv, pre = fv.a[0], list(fv.a[1]) + pre
                        if fv.op == 'func':
                            periodic.setdefault(fv.a[0], (ev.node, fv, pre, dict(ev.kwargs), eng.func))
                return m

        e = Engine(prog, M(), opaque=self.data_methods)
        e.run(self.main, *e.symbolic_args(self.main), self_term=self.self_term)
        self._tasks = (spawn, periodic)
        return self._tasks

    @property
    def async_functions(self):
        """Module-level coroutine functions (the minimiser)."""
        return {f.fid for f in self.prog.functions.values() if f.is_async and f.cls is None and f.parent is None}

    def qterm(self, q):
        self.tasks()
        ts = self.qterms.get(q, [])
        if len(ts) != 1:
            raise AnalysisError('the search uses %d %s queues' % (len(ts), {'S': 'simplex', 'P': 'position'}[q]))
        return ts[0]

    # -- queues ----------------------------------------------------------------
    QNAMES = ('pop_queued', 'add_objects', 'set_finished')

    def queue_of(self, eng, t, st):
        c = eng.class_of(t, st)
        if c is None:
            return None
        if c is self.S:
            return 'S'
        if c is self.P:
            return 'P'
        return None

    @staticmethod
    def call_arg(ev, i):
        """The i-th declared parameter of an opaque call."""
        a = ev.fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if i < len(ev.args):
            return ev.args[i]
        return ev.kwargs.get(ps[i]) if i < len(ps) else None

    @property
    def data_methods(self):
        """Methods of the classes that hold results and geometry: not followed
        by the rules that are only about the scheduler."""
        keep = set()
        for c in [self.controller, self.S, self.P, self.cls('state')]:
            keep |= {k.cid for k in self.prog.mro(c)}
        keep_mod = self.controller.module
        return {f.fid for f in self.prog.functions.values() if f.cls is not None and f.cls.cid not in keep and f.cls.module is not keep_mod}

    def role(self, ev, st, eng):
        """Translate an event to a role event, or None.

        ('pop', q, value) ('add', q, objects) ('fin', q, obj) ('addres', res, value)
        ('refined', pos)  -- reported when the outermost call returns."""
        if ev.kind == 'call' and ev.opaque and isinstance(ev.fn, Function) and ev.fn.cls is not None and ev.fn.name in ('add_result', 'set_refined'):
            arg = self.call_arg(ev, 1)
            return ('addres' if ev.fn.name == 'add_result' else 'refined', arg, ev.result)
        if ev.kind not in ('exit', 'enter') or not isinstance(ev.fn, Function) or ev.fn.cls is None:
            return None
        f = ev.fn
        if f.name in self.QNAMES:
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            me = ev.args.get(ps[0]) if ps else None
            if me is None:
                return None
            q = self.queue_of(eng, me, st)
            if q is None:
                return None
            # outermost call only (the frame of f itself is on the stack)
            for g, _, _ in eng.fstack[:-1]:
                if isinstance(g, Function) and g.name == f.name and g.cls is not None and g is not f:
                    return None
            if f.name == 'pop_queued':
                return ('pop', q, ev.value) if ev.kind == 'exit' else None
            arg = ev.args.get(ps[1]) if len(ps) > 1 else None
            if f.name == 'add_objects':
                return ('add' if ev.kind == 'exit' else 'adding', q, arg)
            return ('fin' if ev.kind == 'exit' else 'finning', q, arg)
        if f.name in ('add_result', 'set_refined') and f.cls in self.prog.mro(self.result):
            a = f.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            arg = ev.args.get(ps[1]) if len(ps) > 1 else None
            if f.name == 'add_result':
                return ('addres', arg, ev.value) if ev.kind == 'exit' else ('addingres', arg, None)
            return ('refined', arg, None) if ev.kind == 'exit' else None
        return None


def get(prog):
    r = getattr(prog, '_roles', None)
    if r is None:
        r = prog._roles = Roles(prog)
    return r
