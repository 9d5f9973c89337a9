"""C23 and C27: what functions modify.

The in-place changes every function of the package can make to objects that
exist before it is called are computed by `sa.effects`.  C23 looks at what
identification, plotting and saving do to their arguments, C27 at what any
function does to module-level objects, classes, functions and default
arguments, and at what searches do to the arguments of the caller."""

import ast

from ..effects import Effects, defaults, mutable_default, MUTABLE_CALLS
from ..loader import Function, Class
from ..engine import prog_types

#: identification and plotting: function -> parameters that may change
IDENTIFY = {
    'run': (), 'run_from_positions': (), 'create_clusters': (), 'calculate_dimension': (), 'evaluate_cluster': (),
}
PLOT = {
    ('search', 'points'): ('axis',), ('search', 'simplices'): ('axis',), ('search', 'stencil'): ('axis',),
    ('identify', 'result'): ('axis',), ('identify', 'nodal_point'): ('axis',), ('identify', 'nodal_line'): ('axis',),
}
DRAWN = ('axis', 'fig', 'figure', 'ax', 'hdf5_handle')

#: functions a search is made of: function -> parameters that may change
SEARCH = {
    'run_async': (), 'run': (), 'get_mesh_stencil': (), 'get_auto_stencil': (), 'get_circle_stencil': (), 'get_sphere_stencil': (),
    'run_minimization': (), 'root_nelder_mead': (),
    'Controller.__init__': (), 'FakePotential.__init__': (), 'FakePotential.__call__': (),
    'CoordinateSystem.__init__': (), 'CoordinateSystem.get_frac': (), 'CoordinateSystem.get_pos': (), 'CoordinateSystem.normalize_position': (),
    'CoordinateSystem.connecting_vector': (), 'CoordinateSystem.distance': (), 'CoordinateSystem.average': (),
    'ObjectQueue.__init__': (), 'ObjectQueue.add_objects': (), 'SimplexQueue.normalize': (), 'PositionQueue.normalize': (), 'RunningQueue.set_finished': (),
    'CellList.__init__': (), 'CellList.get_index': (), 'CellList.get_neighbour_values': (), 'CellList.add_point': (),
    'SearchResultContainer.set_refined': (), 'SearchResultContainer.get_neighbour_distance_iterator': (),
    'SearchResultContainer.get_refined_neighbour_distance_iterator': (), 'SearchResultContainer.get_all_neighbour_distances': (),
    'IdentificationResultContainer.__init__': (), 'Controller.schedule_minimization': (), 'Controller.run_simplex': (),
}
#: classes whose constructor arguments stay those of the caller
KEEPERS = ('Controller', 'FakePotential', 'CoordinateSystem', 'IdentificationResultContainer', 'NodalLine', 'NodalPoint', 'IdentificationResult')


def via(ctx, ch):
    if not ch.via:
        return ''
    return ' (reached through %s)' % ', '.join('%s line %d' % (g.qual, n.lineno) for n, g in ch.via)


def describe(r):
    return '%s%s%s' % (r.name, ''.join('.' + p for p in r.path), ' (an element of it)' if r.elem else '')


def judge(ctx, rule, f, s, exempt, what):
    """No parameter of f is changed."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    done = set()
    for ch in s.changes.values():
        if ch.root.kind != 'in' or ch.root.name in exempt or ch.root.name not in names + [getattr(a.vararg, 'arg', None), getattr(a.kwarg, 'arg', None)]:
            continue
        if a.kwarg is not None and ch.root.name == a.kwarg.arg and not ch.root.path and not ch.root.elem:
            continue    # the dict of keyword arguments is made for the call
        key = (ch.root.name, ch.node.lineno, ch.sure)
        if key in done:
            continue
        done.add(key)
        text = '%s modifies its argument %s: %s%s' % (f.qual, describe(ch.root), ch.text, via(ctx, ch))
        if cache(ctx, ch):
            continue
        if ch.sure and not s.tainted:
            ctx.bad(rule, ctx.loc(ch.func, ch.node), ch.func.qual, text)
        else:
            ctx.undecided(rule, '%s line %d' % (ch.func.qual, ch.node.lineno), 'may be that ' + text)
    bad = {k[0] for k in done}
    for n in names:
        if n not in bad and n not in exempt and n not in ('self', 'cls'):
            ctx.ok(rule, '%s(%s) %s' % (f.qual, n, what))
    ctx.functions.add(f.fid)


def functions(prog, name, module=None):
    return [f for f in prog.functions.values() if f.qual == name and f.parent is None or f.qual == name and '.' in name and '<' not in name and f.parent is None
            if module is None or module(f.module.name)]


def captured(ctx, e, rule, c, what):
    """The constructor arguments that an object keeps are not changed by its
    methods."""
    init = ctx.prog.find_method(c, '__init__')
    if init is None:
        return
    s = e.summary(init)
    kept = [(path, r) for path, rs in s.parts.items() for r in rs if r.kind == 'in']
    if not kept:
        ctx.ok(rule, '%s keeps no argument as it is' % c.name)
    for path, r in kept:
        found = False
        for name, ms in sorted(c.methods.items()):
            for m in ms:
                if m is init or m.name == 'to_hdf5':
                    continue
                for ch in e.summary(m).changes.values():
                    if ch.root.kind != 'self' or ch.root.path[:len(path)] != path or cache(ctx, ch):
                        continue
                    found = True
                    rest = ch.root.path[len(path):]
                    text = '%s modifies the %s it was created with: %s%s%s' % (c.name, describe(r), ''.join('.' + p for p in rest), ch.text, via(ctx, ch))
                    if ch.sure and r.sure:
                        ctx.bad(rule, ctx.loc(ch.func, ch.node), ch.func.qual, text)
                    else:
                        ctx.undecided(rule, '%s line %d' % (ch.func.qual, ch.node.lineno), 'may be that ' + text)
        if not found:
            ctx.ok(rule, '%s.%s, given as %s, %s' % (c.name, '.'.join(path), describe(r), what))


def c23(ctx):
    prog = ctx.prog
    e = Effects(ctx)
    inside = lambda m: '.identify' in m
    ctx.rule('arguments', 'identification modifies none of its arguments')
    for name, exempt in IDENTIFY.items():
        fs = [f for f in functions(prog, name, inside)]
        if not fs:
            ctx.undecided('arguments', name, 'function not found')
        for f in fs:
            judge(ctx, 'arguments', f, e.summary(f), exempt, 'stays as it is')
    ctx.rule('plots', 'plotting modifies nothing but the axis')
    for (part, name), exempt in PLOT.items():
        fs = functions(prog, name, lambda m: ('.%s.' % part) in m + '.' and 'plot' in m)
        if not fs:
            ctx.undecided('plots', '%s.plot.%s' % (part, name), 'function not found')
        for f in fs:
            judge(ctx, 'plots', f, e.summary(f), exempt + DRAWN, 'stays as it is')
    ctx.rule('saving', 'saving and showing a result does not change it')
    for c in sorted(prog.classes.values(), key=lambda c: c.cid):
        if '.result' not in c.module.name and 'coordinate_system' not in c.module.name:
            continue
        for name in ('to_hdf5', '__repr__', '__iter__', '__len__', '__getitem__', 'shape_name', 'minimization_results'):
            for m in c.methods.get(name, ()):
                s = e.summary(m)
                found = False
                for ch in s.changes.values():
                    if ch.root.kind != 'self' or cache(ctx, ch):
                        continue
                    found = True
                    whole = not ch.root.path and not ch.root.elem
                    text = '%s changes %s: %s%s' % (m.qual, describe(ch.root), ch.text, via(ctx, ch))
                    if ch.sure and not whole and not hidden(ch):
                        ctx.bad('saving', ctx.loc(ch.func, ch.node), ch.func.qual, text)
                    else:
                        ctx.undecided('saving', m.qual, text)
                if not found:
                    ctx.ok('saving', '%s changes nothing' % m.qual)
                ctx.functions.add(m.fid)
    ctx.rule('kept', 'objects that results are kept in do not change them later')
    for n in ('IdentificationResultContainer', 'IdentificationResult', 'NodalLine', 'NodalPoint'):
        for c in prog.classes.values():
            if c.name == n:
                captured(ctx, e, 'kept', c, 'is not changed by its methods')
    ctx.assumptions += ASSUMED
    ctx.explanation = 'every function of the package is interpreted once with symbolic arguments; in-place changes of objects reachable from its parameters are summarised and carried to its callers'


def hidden(ch):
    """A private attribute, which may be a cache."""
    return any(p.startswith('_') for p in ch.root.path)


def cache(ctx, ch):
    """The change fills a private dict that is empty at first, which nobody
    else changes: what it holds is not part of the object's value."""
    path = ch.root.path
    name = path[-1] if path else ''
    if not name.startswith('_') or name.startswith('__') or ch.func.cls is None:
        return False
    attrs = []
    for f in ctx.prog.functions.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name:
                attrs.append((f, n))
    made = False
    for f, n in attrs:
        if f.cls is None or not isinstance(n.value, ast.Name):
            return False
        if isinstance(n.ctx, ast.Store):
            made = True
            if f.name != '__init__' or not any(isinstance(a, ast.Assign) and any(x is n for x in a.targets) and empty_dict(a.value) for a in ast.walk(f.node)):
                return False
        elif f.fid != ch.func.fid:
            return False
    return made


def empty_dict(n):
    return isinstance(n, ast.Dict) and not n.keys or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and not n.keywords


ASSUMED = [
    'functions of numpy, networkx, scipy and the standard library change their arguments only where this is documented (the lists are in sa/exts.py and sa/effects.py)',
    'objects given by the caller that have the same attribute or method names as classes of the package behave like these',
    'a function given by the caller (gap_fct) may do as it likes',
]


def live(prog):
    """Functions whose name is used anywhere, or that are not private."""
    names = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.add(n.value)
    return lambda f: not f.name.startswith('_') or f.name.startswith('__') or f.name in names or getattr(f.node, 'decorator_list', ())


def c27(ctx):
    prog = ctx.prog
    e = Effects(ctx)
    ctx.rule('arguments', 'searches modify none of the arguments of the caller')
    for name, exempt in SEARCH.items():
        fs = functions(prog, name, lambda m: '.identify._' not in m and '.plot' not in m)
        if name == 'run':
            fs = [f for f in fs if '.search' in f.module.name]
        if not fs:
            if name.split('.')[0] in {c.name for c in prog.classes.values()} or '.' not in name:
                ctx.undecided('arguments', name, 'function not found')
            continue
        for f in fs:
            judge(ctx, 'arguments', f, e.summary(f), exempt + ('hdf5_handle',), 'stays as it is')
    ctx.rule('kept', 'objects given to a search that it keeps are not modified later')
    for n in KEEPERS:
        for c in prog.classes.values():
            if c.name == n:
                captured(ctx, e, 'kept', c, 'is not changed by its methods')
    ctx.rule('state', 'no function changes module-level objects, classes or functions')
    alive = live(prog)
    for fid in sorted(e.all):
        f = prog.functions[fid]
        if not alive(f):
            continue
        s = e.summary(f)
        found = False
        for ch in s.changes.values():
            if ch.root.kind not in ('glob', 'cls', 'func', 'ext') or ch.func.fid != fid and ch.func.fid in e.all:
                continue
            if ch.root.kind == 'glob' and ':' in ch.root.name and own_attribute(prog, ch.root.name):
                continue
            found = True
            what = {'glob': 'the class-level object' if ':' in ch.root.name else 'the module-level object', 'cls': 'the class', 'func': 'the function', 'ext': 'the object'}[ch.root.kind]
            text = '%s %s is changed in place, so a later call sees what an earlier one did: %s' % (what, describe(ch.root), ch.text)
            if ch.sure and not ch.soft:
                ctx.bad('state', ctx.loc(ch.func, ch.node), ch.func.qual, text)
            else:
                ctx.undecided('state', '%s line %d' % (ch.func.qual, ch.node.lineno), 'may be that ' + text)
        for n, (node, g) in s.settings.items():
            found = True
            ctx.bad('state', ctx.loc(g, node), g.qual, '%s changes a setting of the whole process, which stays for later calls' % n)
        if not found:
            ctx.ok('state', f.qual)
        ctx.functions.add(fid)
    ctx.rule('defaults', 'no default argument is changed')
    for f in sorted(prog.functions.values(), key=lambda f: f.fid):
        ds = [(p, d) for p, d in defaults(f).items() if mutable_default(prog, f, d)]
        for p, d in ds:
            s = e.summary(f)
            hits = [ch for ch in s.changes.values() if ch.root.kind == 'in' and ch.root.name == p]
            sure = [ch for ch in hits if ch.sure]
            c = e.class_of.get(f.fid)
            if c is not None and f.name == '__init__':
                for path, rs in s.parts.items():
                    for r in rs:
                        if r.kind == 'in' and r.name == p:
                            for ms in c.methods.values():
                                for m in ms:
                                    for ch in e.summary(m).changes.values():
                                        if m is not f and ch.root.kind == 'self' and ch.root.path[:len(path)] == path:
                                            hits.append(ch)
                                            if ch.sure and r.sure:
                                                sure.append(ch)
            if sure:
                ch = sure[0]
                ctx.bad('defaults', ctx.loc(ch.func, ch.node), ch.func.qual, 'the default of %s(%s) is one object for all calls, and it is changed: %s' % (f.qual, p, ch.text))
            elif hits:
                ctx.undecided('defaults', '%s(%s)' % (f.qual, p), 'may be changed in place')
            elif any(r.kind == 'in' and r.name == p for r in s.returns | {r for rs in s.parts.values() for r in rs}):
                ctx.undecided('defaults', '%s(%s)' % (f.qual, p), 'a mutable default is handed out or kept')
            else:
                ctx.ok('defaults', '%s(%s) is never changed' % (f.qual, p))
    ctx.ok('defaults', 'all %d functions looked at' % len(prog.functions))
    ctx.rule('shared', 'no mutable object is shared by the instances of a class')
    for c in sorted(prog.classes.values(), key=lambda c: c.cid):
        shared(ctx, e, c)
    ctx.rule('caches', 'no function remembers its results')
    for f in sorted(prog.functions.values(), key=lambda f: f.fid):
        caches(ctx, e, f)
    ctx.assumptions += ASSUMED + ['the global random number generators are not seen as state that runs share']
    ctx.explanation = 'every function of the package is interpreted once with symbolic arguments; in-place changes of module-level objects, classes, functions, defaults and arguments are collected'


def own_attribute(prog, name):
    """Is a class-level name replaced by an attribute of each instance?"""
    cid, _, attr = name.rpartition('.')
    c = prog.classes.get(cid)
    return c is not None and attr in prog_types(prog).init_of(c)


def class_level(prog, c):
    """name -> node of mutable objects made in the class body."""
    out = {}
    for n in c.node.body:
        targets, v = (), None
        if isinstance(n, ast.Assign):
            targets, v = n.targets, n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            targets, v = [n.target], n.value
        mutable = isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))
        if isinstance(v, ast.Call):
            r = prog.resolve_expr(c.module, v.func)
            mutable = isinstance(r, str) and r in MUTABLE_CALLS or isinstance(r, Class)
        for t in targets:
            if mutable and isinstance(t, ast.Name):
                out[t.id] = n
    return out


def shared(ctx, e, c):
    prog = ctx.prog
    own = class_level(prog, c)
    if not own:
        ctx.ok('shared', '%s has no mutable object in its body' % c.name)
        return
    subs = [d for d in prog.classes.values() if c in prog.mro(d)]
    for name in own:
        found = False
        for d in subs:
            if name in prog_types(prog).init_of(d):
                continue
            for m in {m.fid: m for k in prog.mro(d) if isinstance(k, Class) for ms in k.methods.values() for m in ms}.values():
                for ch in e.summary(m).changes.values():
                    if ch.root.kind == 'self' and ch.root.path[:1] == (name,):
                        found = True
                        text = '%s.%s is one object for all instances of the class, and it is changed: %s%s' % (c.name, name, ch.text, via(ctx, ch))
                        if ch.sure and d is c:
                            ctx.bad('shared', ctx.loc(ch.func, ch.node), ch.func.qual, text)
                        else:
                            ctx.undecided('shared', '%s.%s' % (c.name, name), text)
        if not found:
            ctx.ok('shared', '%s.%s is never changed' % (c.name, name))


CACHES = ('functools.lru_cache', 'functools.cache', 'functools.cached_property')


def caches(ctx, e, f):
    prog = ctx.prog
    for d in getattr(f.node, 'decorator_list', ()):
        x = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr(f.module, x)
        if isinstance(r, str) and r in CACHES[:2]:
            if not f.name.startswith('_') and gives_mutable(ctx, f):
                ctx.bad('caches', ctx.loc(f, d), f.qual, 'the object %s returns is remembered and given to later callers too: what one of them does to it, the others see' % f.qual)
            else:
                ctx.undecided('caches', f.qual, 'results are remembered (%s)' % r)
            return
    ctx.ok('caches', f.qual)


def gives_mutable(ctx, f):
    from ..terms import T
    from .queues import ext
    try:
        eng, rets, raises = ctx.analyse(f)
    except RecursionError:
        return False
    for st, v in rets:
        if not isinstance(v, T):
            return False
        for y in eng.alternatives(v) if v.op == 'phi' else {v}:
            if not (y.op == 'obj' or y.op == 'comp' and y.a[0] != 'gen' or y.op == 'inst' or (ext(y) or '').startswith('numpy.') and (ext(y) or '') not in ('numpy.float64', 'numpy.prod', 'numpy.sum')):
                return False
    return bool(rets)
