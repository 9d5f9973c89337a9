"""C28: what importing the package executes and loads.

The statements that run on import (module bodies, class bodies, decorators,
default values, and the bodies of the package's own functions called there)
are enumerated for all modules of the package, and every function that can
load a plotting library is followed backwards along references."""

import ast
import glob
import os
import sys

from ..loader import Class, Function, Module
from .. import roles as R

PLOTTING = {'matplotlib', 'mpl_toolkits', 'pylab', 'seaborn', 'plotly', 'bokeh', 'altair', 'mayavi', 'pyvista', 'vispy', 'holoviews', 'plotnine', 'cycler', 'kiwisolver', 'contourpy'}
# their modules do not load a plotting library when they are imported
KNOWN = {'numpy', 'scipy', 'networkx', 'h5py', 'fsc', 'decorator', 'typing_extensions', 'packaging'}
KNOWN_BUT = ('scipy.spatial._plotutils',)
LOOPS = {'asyncio.get_event_loop', 'asyncio.new_event_loop', 'asyncio.set_event_loop', 'asyncio.run', 'asyncio.ensure_future', 'asyncio.create_task', 'asyncio.SelectorEventLoop', 'asyncio.get_event_loop_policy', 'asyncio.Runner', 'asyncio.gather'}
FILES = {'builtins.open', 'io.open', 'os.open', 'os.mkdir', 'os.makedirs', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'h5py.File', 'numpy.load', 'numpy.save', 'numpy.loadtxt', 'numpy.savetxt', 'numpy.genfromtxt', 'logging.FileHandler', 'logging.handlers.RotatingFileHandler', 'logging.handlers.TimedRotatingFileHandler', 'logging.handlers.WatchedFileHandler', 'logging.config.fileConfig', 'configparser.ConfigParser.read', 'shutil.copy', 'shutil.rmtree', 'subprocess.run', 'subprocess.Popen', 'subprocess.call', 'subprocess.check_output', 'subprocess.check_call', 'os.system', 'os.popen', 'sqlite3.connect', 'shelve.open'}
FILE_PREFIX = ('tempfile.', 'importlib.resources.', 'pkgutil.get_data', 'socket.')
FILE_METHODS = {'read_text', 'write_text', 'read_bytes', 'write_bytes', 'mkdir', 'touch', 'unlink', 'rmdir'}
LOADERS = ('importlib.import_module', 'builtins.__import__', 'importlib.__import__')


def false_test(t):
    if isinstance(t, ast.Constant):
        return not t.value
    return isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING' or isinstance(t, ast.Attribute) and t.attr == 'TYPE_CHECKING'


def executed(body):
    """Nodes of all expressions and statements that run when a block runs,
    without the bodies of functions."""
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        if isinstance(n, ast.If) and false_test(n.test):
            todo += n.orelse
            continue
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.Lambda):
            todo += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.ClassDef):
            todo += n.decorator_list + n.bases + [k.value for k in n.keywords] + n.body
        elif isinstance(n, ast.If) and isinstance(n.test, ast.Constant):
            todo += n.body
        else:
            todo += list(ast.iter_child_nodes(n))


def imported(m, n):
    """Absolute names of the modules an import statement loads."""
    if isinstance(n, ast.Import):
        return [al.name for al in n.names]
    if isinstance(n, ast.ImportFrom):
        base = n.module or ''
        if n.level:
            parts = m.name.split('.') if m.is_pkg else m.name.split('.')[:-1]
            parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
            base = '.'.join(parts + ([n.module] if n.module else []))
        return [base] + [base + '.' + al.name for al in n.names if al.name != '*']
    return []


def local_names(f):
    """External modules bound by imports within a function."""
    res = {}
    while f is not None:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                for al in n.names:
                    res.setdefault(al.asname or al.name.split('.')[0], al.name if al.asname else al.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = imported(f.module, n)[0]
                for al in n.names:
                    res.setdefault(al.asname or al.name, base + '.' + al.name)
        f = f.parent
    return res


def within(prog, name):
    """The module or member of the package with an absolute name."""
    if name in prog.modules:
        return prog.modules[name]
    base, _, last = name.rpartition('.')
    if base in prog.modules:
        return prog.member(prog.modules[base], last)
    return name


def resolve(prog, m, node, f=None):
    """What a name or attribute refers to."""
    if f is not None:
        base = node
        tail = []
        while isinstance(base, ast.Attribute):
            tail.append(base.attr)
            base = base.value
        if isinstance(base, ast.Name):
            ln = local_names(f)
            if base.id in ln:
                r = within(prog, ln[base.id])
                for a in reversed(tail):
                    r = prog.member(r, a)
                return r
            g = f
            while g is not None:
                if base.id in g.locals:
                    # a function defined inside
                    for x in ast.walk(g.node):
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == base.id and x in m.nested:
                            return m.nested[x]
                    return None
                g = g.parent
    if isinstance(node, (ast.Name, ast.Attribute)):
        return prog.resolve_expr(m, node)
    return None


def library(name):
    return name.split('.')[0] in PLOTTING or name in KNOWN_BUT


def loads(prog, m, n, f=None):
    """Names of plotting libraries that a node loads."""
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [x for x in imported(m, n) if library(x)][:1]
    if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and library(n.args[0].value):
        if resolve(prog, m, n.func, f) in LOADERS:
            return [n.args[0].value]
    return []


def class_init(prog, c):
    return [g for g in (prog.find_method(c, '__init__'), prog.find_method(c, '__new__'), prog.find_method(c, '__post_init__')) if g is not None]


def hooks(prog, c, node, m):
    """Functions that run when a class is made."""
    res = []
    for b in prog.mro(c)[1:]:
        if isinstance(b, Class):
            res += b.methods.get('__init_subclass__', [])
    for k in node.keywords:
        r = prog.resolve_expr(m, k.value)
        if k.arg == 'metaclass' and isinstance(r, Class):
            res += [g for ms in ('__new__', '__init__', '__prepare__') for g in r.methods.get(ms, [])]
    return res


def plotting_function(f):
    return 'plot' in f.module.name.split('.')[-1]


def site_dirs():
    return [p for p in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + sys.path if p.endswith('-packages') and os.path.isdir(p)]


def third_party(name, seen=None):
    """Does importing a module from outside load a plotting library?  None if
    its source is not found."""
    seen = set() if seen is None else seen
    todo = [name]
    while todo:
        n = todo.pop()
        top = n.split('.')[0]
        if n in seen:
            continue
        seen.add(n)
        if library(n):
            return n
        if top in KNOWN or top in sys.stdlib_module_names:
            continue
        if len(seen) > 600:
            return None
        for d in site_dirs():
            p = os.path.join(d, *n.split('.'))
            src = next((x for x in (os.path.join(p, '__init__.py'), p + '.py') if os.path.isfile(x)), None)
            if src:
                break
        else:
            if n == name:
                return None
            continue
        try:
            tree = ast.parse(open(src, encoding='utf-8').read())
        except (SyntaxError, UnicodeDecodeError):
            return None
        m = Module(n, src, tree, src.endswith('__init__.py'), '')
        parts = n.split('.')
        todo += ['.'.join(parts[:i]) for i in range(1, len(parts))]
        for x in executed(tree.body):
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                todo += imported(m, x)
    return ''


def c28(ctx):
    prog = ctx.prog
    ctx.rule('import', 'no statement that runs when a module of the package is imported loads a plotting library')
    ctx.rule('outside', 'no library that the package imports loads a plotting library in turn')
    ctx.rule('use', 'no function outside the plotting modules can reach the loading of a plotting library')
    ctx.rule('quiet', 'no statement that runs on import runs a search, opens a file or creates an event loop')
    ctx.rule('present', 'a plotting library is loaded somewhere within a plotting function, not required to be loaded already')
    roles = R.get(prog)
    ctx.functions |= set(prog.functions)
    ctx.explanation = 'Enumeration of all statements that run on import, for every module, and of all references between functions of the package.'
    # references between functions
    refs, origin, soft = {}, {}, {}
    methods = {}
    for c in prog.classes.values():
        for name, ms in c.methods.items():
            methods.setdefault(name, []).extend(ms)
    for fid, f in sorted(prog.functions.items()):
        m = f.module
        out, may = {}, {}
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        for n in [x for s in body for x in ast.walk(s)]:
            for lib in loads(prog, m, n, f):
                origin.setdefault(fid, (n, lib))
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                r = resolve(prog, m, n, f)
                if isinstance(r, Function):
                    out.setdefault(r.fid, n)
                elif isinstance(r, Class):
                    for g in class_init(prog, r):
                        out.setdefault(g.fid, n)
                elif r is None and isinstance(n, ast.Attribute):
                    for g in methods.get(n.attr, ()):
                        may.setdefault(g.fid, n)
        refs[fid], soft[fid] = out, may
    for f in prog.functions.values():
        if f.parent is not None and f.fid in origin:
            origin.setdefault(f.parent.fid, origin[f.fid])

    def reach(fid, extra=None):
        """A chain of references to a function that loads a plotting library."""
        seen, todo = {fid: None}, [fid]
        while todo:
            x = todo.pop(0)
            if x in origin:
                chain = []
                while x is not None:
                    chain.append(x)
                    x = seen[x]
                return list(reversed(chain))
            for y in list(refs.get(x, ())) + (list(soft.get(x, ())) if extra else []):
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return None

    libs = {v[1] for v in origin.values()}
    for fid, (n, lib) in sorted(origin.items()):
        f = prog.functions[fid]
        if plotting_function(f):
            ctx.ok('present', '%s loads %s at %s' % (f.qual, lib, ctx.loc(f, n)))
    n_use = 0
    for fid, f in sorted(prog.functions.items()):
        if plotting_function(f):
            continue
        if f.name.startswith('_') and not f.name.startswith('__') or f.name.startswith('<'):
            continue
        chain = reach(fid)
        if chain:
            g = prog.functions[chain[-1]]
            if plotting_function(g) and len(chain) > 1 and wraps(prog, f):
                ctx.undecided('use', f.qual, 'a function that does nothing but plot')
                continue
            ctx.bad('use', ctx.loc(f, refs[fid][chain[1]]) if len(chain) > 1 else ctx.loc(g, origin[g.fid][0]), f.qual, 'loads %s: %s' % (origin[chain[-1]][1], ' -> '.join(prog.functions[x].qual for x in chain)))
        else:
            n_use += 1
    ctx.ok('use', '%d functions outside the plotting modules' % n_use)
    # statements that run on import
    run_fns = set()
    for r in (roles.run_async, roles.run_sync):
        if r is not None:
            run_fns.add(r.fid)
    total = 0
    for name, m in sorted(prog.modules.items()):
        todo = [(None, m.tree.body)]
        seen = set()
        while todo:
            f, body = todo.pop()
            mod = f.module if f is not None else m
            where = f if f is not None else None
            for n in executed(body):
                total += 1
                at = '%s:%d' % (mod.path, getattr(n, 'lineno', 1))
                who = mod.name if f is None else f.qual
                for lib in loads(prog, mod, n, f):
                    ctx.bad('import', at, who, 'importing %s loads %s' % (name, lib))
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in imported(mod, n):
                        top = x.split('.')[0]
                        if x in prog.modules or top in prog.modules or library(x):
                            continue
                        if top in KNOWN or top in sys.stdlib_module_names:
                            continue
                        if isinstance(n, ast.ImportFrom) and x != imported(mod, n)[0]:
                            continue
                        r = third_party(x)
                        if r is None:
                            ctx.undecided('outside', x, 'its source was not found')
                        elif r:
                            ctx.bad('outside', at, who, 'importing %s loads %s, which loads %s' % (name, x, r))
                        else:
                            ctx.ok('outside', x)
                calls = []
                if isinstance(n, ast.Call):
                    calls.append(n.func)
                if isinstance(n, ast.ClassDef) and isinstance(mod.nested.get(n), Class):
                    for g in hooks(prog, mod.nested[n], n, mod):
                        if g.fid not in seen:
                            seen.add(g.fid)
                            todo.append((g, g.node.body))
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    calls += [d for d in n.decorator_list if isinstance(d, (ast.Name, ast.Attribute))]
                for c in calls:
                    r = resolve(prog, mod, c, f)
                    if isinstance(r, tuple) and r and r[0] == 'expr':
                        r = alias(prog, r)
                    if isinstance(r, Function):
                        if r.fid in run_fns:
                            ctx.bad('quiet', at, who, 'importing %s runs a search' % name)
                        if r.is_async and not r.fid in run_fns:
                            continue
                        if r.fid not in seen and not r.is_generator:
                            seen.add(r.fid)
                            todo.append((r, r.node.body if isinstance(r.node.body, list) else [r.node.body]))
                    elif isinstance(r, Class):
                        if roles.controller is not None and r.cid == roles.controller.cid:
                            ctx.bad('quiet', at, who, 'importing %s runs a search' % name)
                        for g in class_init(prog, r):
                            if g.fid not in seen:
                                seen.add(g.fid)
                                todo.append((g, g.node.body))
                    elif isinstance(r, str):
                        if r in LOOPS:
                            ctx.bad('quiet', at, who, 'importing %s creates or uses an event loop: %s' % (name, r))
                        elif r in FILES or r.startswith(FILE_PREFIX):
                            ctx.bad('quiet', at, who, 'importing %s opens a file: %s' % (name, r))
                        elif r == 'logging.basicConfig' and isinstance(n, ast.Call) and any(k.arg == 'filename' for k in n.keywords):
                            ctx.bad('quiet', at, who, 'importing %s opens a file: %s' % (name, r))
                    if isinstance(c, ast.Attribute) and c.attr in FILE_METHODS and not isinstance(r, (Function, Class, str)):
                        if path_value(prog, mod, c.value):
                            ctx.bad('quiet', at, who, 'importing %s opens a file: %s' % (name, c.attr))
                        else:
                            ctx.undecided('quiet', '%s: .%s()' % (at, c.attr), 'receiver')
                    if isinstance(c, ast.Attribute) and c.attr in ('run_until_complete', 'run_forever'):
                        ctx.bad('quiet', at, who, 'importing %s runs an event loop' % name)
        ctx.ok('import', name)
        ctx.ok('quiet', name)
    ctx.assumptions.append('numpy, scipy, networkx, h5py, fsc and decorator do not load a plotting library when imported (checked for the installed versions)')
    ctx.assumptions.append('%d statements and expressions that run on import looked at' % total)
    # classes and methods that read a plotting library that something else has to load
    for fid, f in sorted(prog.functions.items()):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'modules' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and library(n.slice.value):
                if resolve(prog, f.module, n.value, f) == 'sys.modules':
                    ctx.bad('present', ctx.loc(f, n), f.qual, '%s is not loaded, but required to be loaded already' % n.slice.value)


def wraps(prog, f):
    """Is the function in a class and named as a plotting function?"""
    return 'plot' in f.name or 'draw' in f.name


def alias(prog, r, depth=0):
    """A module-level name that is another name for something."""
    _, m, name = r[:3]
    vals = [b for b in m.bindings.get(name, ()) if b[0] == 'expr']
    if len(vals) == 1 and isinstance(vals[0][1], (ast.Name, ast.Attribute)) and depth < 5:
        x = prog.resolve_expr(m, vals[0][1])
        if isinstance(x, tuple) and x and x[0] == 'expr':
            return alias(prog, x, depth + 1)
        return x
    return None


def path_value(prog, m, node):
    """Is the expression a file system path?"""
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            r = prog.resolve_expr(m, x.func)
            if isinstance(r, str) and r.startswith('pathlib.'):
                return True
    return False
