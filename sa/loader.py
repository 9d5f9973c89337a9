"""Parses the analysed package and resolves names, classes and inheritance."""

import ast
import builtins
import hashlib
import os

SRC_ROOT = os.environ.get('NODEFINDER_SRC', '/repo')
PKG = 'nodefinder'


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, parse error)."""


class Function:
    def __init__(self, fid, node, module, cls, parent):
        self.fid = fid
        self.node = node
        self.module = module
        self.cls = cls          # Class or None
        self.parent = parent    # enclosing Function or None
        self.name = getattr(node, 'name', '<lambda>')
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_generator = _has_yield(node)
        self.locals = _local_names(node)
        self.globals_decl, self.nonlocals = _decls(node)

    @property
    def loc(self):
        return '%s:%d' % (self.module.path, self.node.lineno)

    @property
    def qual(self):
        return self.fid.split(':')[-1]

    def decorators(self):
        return getattr(self.node, 'decorator_list', [])

    def __repr__(self):
        return '<Function %s>' % self.fid


class Class:
    def __init__(self, cid, node, module):
        self.cid = cid
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}      # name -> list of (Function, kind)
        self.attrs = {}        # name -> value ast node
        self.bases = []        # Class or external dotted names

    def __repr__(self):
        return '<Class %s>' % self.cid


class Module:
    def __init__(self, name, path, tree, is_pkg, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.source = source
        self.bindings = {}     # name -> list of ('import', dotted) / ('from', mod, name) / ('func', F) / ('class', C) / ('expr', node)
        self.stars = []        # modules star-imported
        self.nested = {}       # ast function node -> Function


def _one_self(tree):
    """Another name for the first argument of a method ('this = self', set once) is that argument."""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        for f in c.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            a = f.args.posonlyargs + f.args.args
            if not a:
                continue
            first, binds = a[0].arg, {}
            for n in ast.walk(f):
                names = []
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    names = [n.id]
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names = [n.name]
                elif isinstance(n, ast.arg):
                    names = [n.arg]
                elif isinstance(n, ast.ExceptHandler):
                    names = [n.name]
                elif isinstance(n, (ast.Nonlocal, ast.Global)):
                    names = list(n.names) * 2
                elif isinstance(n, ast.alias):
                    names = [(n.asname or n.name).split('.')[0]]
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
                    names = [n.name]
                elif isinstance(n, ast.MatchMapping):
                    names = [n.rest]
                for x in names:
                    binds[x] = binds.get(x, 0) + 1
            if binds.get(first) != 1:
                continue
            same = {n.targets[0].id for n in ast.walk(f)
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == first
                    and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and binds[n.targets[0].id] == 1}
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in same:
                    n.id = first


def _has_yield(node):
    stack = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _targets(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def _scope_nodes(node):
    """Nodes of the function's own scope (no nested functions / comprehensions)."""
    body = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets inside bind in the enclosing scope
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    yield m.target
            continue
        stack.extend(ast.iter_child_nodes(n))


def _decls(node):
    g, nl = set(), set()
    for n in _scope_nodes(node):
        if isinstance(n, ast.Global):
            g.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
    return g, nl


def _local_names(node):
    res = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        res.add(x.arg)
    if a.vararg:
        res.add(a.vararg.arg)
    if a.kwarg:
        res.add(a.kwarg.arg)
    for n in _scope_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            res.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            res.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                res.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
    g, nl = _decls(node)
    return res - g - nl


class Program:
    def __init__(self, root=None):
        self.root = root or SRC_ROOT
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self._load()
        self._link()

    # -- loading ---------------------------------------------------------
    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError('package %s not found below %s' % (PKG, self.root))
        digest = hashlib.sha256()
        for dirpath, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                digest.update(rel.encode() + b'\0' + src.encode())
                try:
                    tree = ast.parse(src, rel)
                except SyntaxError as exc:
                    raise AnalysisError('cannot parse %s: %s' % (rel, exc))
                _one_self(tree)
                self.modules[name] = Module(name, rel, tree, is_pkg, src)
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            for node in m.tree.body:
                self._bind_stmt(m, node)
            self._collect_functions(m, m.tree, None, None, m.name + ':')

    def _collect_functions(self, m, node, cls, parent, prefix):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                name = getattr(child, 'name', '<lambda@%d:%d>' % (child.lineno, child.col_offset))
                fid = prefix + name
                if fid in self.functions:
                    fid = '%s#%d' % (fid, child.lineno)
                f = Function(fid, child, m, cls, parent)
                self.functions[fid] = f
                m.nested[child] = f
                if cls is not None and isinstance(node, ast.ClassDef):
                    cls.methods.setdefault(name, []).append(f)
                # methods' nested functions keep the class for super()
                self._collect_functions(m, child, cls, f, fid + '.')
            elif isinstance(child, ast.ClassDef):
                cid = prefix + child.name
                c = Class(cid, child, m)
                self.classes[cid] = c
                m.nested[child] = c
                for st in child.body:
                    if isinstance(st, ast.Assign):
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = st.value
                    elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                        c.attrs[st.target.id] = st.value
                self._collect_functions(m, child, c, parent, cid + '.')
            else:
                self._collect_functions(m, child, cls, parent, prefix)

    def _bind_stmt(self, m, node):
        b = m.bindings
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    b.setdefault(al.asname, []).append(('import', al.name))
                else:
                    b.setdefault(al.name.split('.')[0], []).append(('import', al.name.split('.')[0]))
        elif isinstance(node, ast.ImportFrom):
            mod = self._absolute(m, node)
            for al in node.names:
                if al.name == '*':
                    m.stars.append(mod)
                else:
                    b.setdefault(al.asname or al.name, []).append(('from', mod, al.name))
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            b.setdefault(node.name, []).append(('func', node))
        elif isinstance(node, ast.ClassDef):
            b.setdefault(node.name, []).append(('class', node))
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    b.setdefault(t.id, []).append(('expr', node.value))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            b.setdefault(e.id, []).append(('item', node.value, i))
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            b.setdefault(node.target.id, []).append(('expr', node.value))
        elif isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
            b.setdefault(node.target.id, []).append(('aug', node))
        elif isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for field in ('body', 'orelse', 'finalbody'):
                for st in getattr(node, field, []) or []:
                    self._bind_stmt(m, st)
            for h in getattr(node, 'handlers', []) or []:
                for st in h.body:
                    self._bind_stmt(m, st)

    @staticmethod
    def _absolute(m, node):
        if not node.level:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:len(parts) - (node.level - 1)]
        if node.module:
            parts = parts + node.module.split('.')
        return '.'.join(parts)

    # -- linking ---------------------------------------------------------
    def _link(self):
        for c in self.classes.values():
            for bnode in c.node.bases:
                r = self.resolve_expr(c.module, bnode)
                c.bases.append(r)

    def resolve_expr(self, m, node):
        """Resolve a Name / dotted Attribute at module level to a Class,
        Function, Module or an external dotted name (str); None if unknown."""
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(m, node.value)
            return self.member(base, node.attr)
        if isinstance(node, ast.Call):   # e.g. decorators
            return self.resolve_expr(m, node.func)
        return None

    def member(self, base, name):
        if isinstance(base, Module):
            r = self.resolve_name(base, name, builtin=False)
            if r is not None:
                return r
            sub = self.modules.get(base.name + '.' + name)
            return sub
        if isinstance(base, str):
            return base + '.' + name
        if isinstance(base, Class):
            ms = base.methods.get(name)
            if ms:
                return ms[-1]
        return None

    def resolve_name(self, m, name, builtin=True, seen=None):
        """Resolve a module-level name: Class, Function, Module, external dotted
        name, ('expr', module, node...) or None."""
        if seen is None:
            seen = set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        for bnd in reversed(m.bindings.get(name, [])):
            kind = bnd[0]
            if kind == 'import':
                dotted = bnd[1]
                return self.modules.get(dotted, dotted)
            if kind == 'from':
                mod, nm = bnd[1], bnd[2]
                if mod in self.modules:
                    r = self.resolve_name(self.modules[mod], nm, builtin=False, seen=seen)
                    if r is not None:
                        return r
                    sub = self.modules.get(mod + '.' + nm)
                    if sub is not None:
                        return sub
                    return None
                return mod + '.' + nm
            if kind == 'func':
                return m.nested.get(bnd[1])
            if kind == 'class':
                return m.nested.get(bnd[1])
            if kind in ('expr', 'item'):
                return ('expr', m, name)
        for star in m.stars:
            if star in self.modules:
                r = self.resolve_name(self.modules[star], name, builtin=False, seen=seen)
                if r is not None and not name.startswith('_'):
                    return r
        if name == '__name__':
            return None
        sub = self.modules.get(m.name + '.' + name) if m.is_pkg else None
        if sub is not None:
            return sub
        if builtin and hasattr(builtins, name):
            return 'builtins.' + name
        return None

    def mro(self, cls):
        """Linearised package classes (C3 for simple hierarchies)."""
        res = []

        def add(c):
            if isinstance(c, Class):
                if c in res:
                    return
                res.append(c)
                for b in c.bases:
                    add(b)
        # depth first, but shared bases go last (sufficient for this package)
        order = []

        def lin(c):
            if not isinstance(c, Class):
                return []
            seqs = [lin(b) for b in c.bases if isinstance(b, Class)]
            seqs.append([b for b in c.bases if isinstance(b, Class)])
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    return out
                out.append(cand)
                for s in seqs:
                    if s and s[0] is cand:
                        del s[0]
            return out
        order = lin(cls)
        return order

    def ext_bases(self, cls):
        return {b for c in self.mro(cls) for b in c.bases if isinstance(b, str)}

    def find_method(self, cls, name, kind=None, after=None):
        """Find a method along the MRO. kind: None (any), 'get', 'set'."""
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            for f in reversed(c.methods.get(name, [])):
                k = self.method_kind(f)
                if kind == 'set':
                    if k == 'setter':
                        return f
                elif k not in ('setter', 'deleter'):
                    return f
            if name in c.attrs:
                return None
        return None

    def find_class_attr(self, cls, name, after=None):
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return None
        return None

    def method_kind(self, f):
        for d in f.decorators():
            if isinstance(d, ast.Name):
                if d.id == 'property':
                    return 'property'
                if d.id in ('staticmethod', 'classmethod'):
                    return d.id
                if d.id in ('cached_property',):
                    return 'property'
            if isinstance(d, ast.Attribute):
                if d.attr == 'setter':
                    return 'setter'
                if d.attr == 'deleter':
                    return 'deleter'
                if d.attr in ('cached_property',):
                    return 'property'
        return 'method'

    # -- anchors ---------------------------------------------------------
    def find_class(self, name):
        cands = [c for c in self.classes.values() if c.name == name]
        if len(cands) == 1:
            return cands[0]
        if not cands:
            raise AnalysisError('class %s not found in the package' % name)
        raise AnalysisError('class %s is defined more than once' % name)

    def class_by_tag(self, tag, extra=False):
        """The class registered with the given HDF5 type tag."""
        for c in self.classes.values():
            for main, extras, _ in self.tags(c):
                if main == tag or (extra and tag in extras):
                    return c
        raise AnalysisError('no class is registered for the type tag %r' % tag)

    def tags(self, c):
        """(main tag, extra tags, decorator node) of subscribe_hdf5 decorators."""
        res = []
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call):
                r = self.resolve_expr(c.module, d.func)
                if isinstance(r, str) and r.endswith('subscribe_hdf5'):
                    main = self.const_expr(c.module, d.args[0]) if d.args else None
                    extras = []
                    for kw in d.keywords:
                        if kw.arg in ('main_tag', 'type_tag'):
                            main = self.const_expr(c.module, kw.value)
                        if kw.arg == 'extra_tags':
                            extras = self.const_expr(c.module, kw.value)
                    if len(d.args) > 1:
                        extras = self.const_expr(c.module, d.args[1])
                    res.append((main, list(extras) if extras is not None else None, d))
        return res

    def const_expr(self, m, node):
        """Value of a constant module-level expression, or None."""
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            vals = [self.const_expr(m, e) for e in node.elts]
            return None if any(v is None for v in vals) else vals
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a, b = self.const_expr(m, node.left), self.const_expr(m, node.right)
            if a is None or b is None:
                return None
            try:
                return a + b
            except TypeError:
                return None
        if isinstance(node, ast.JoinedStr):
            parts = []
            for v in node.values:
                if isinstance(v, ast.FormattedValue):
                    v = v.value
                p = self.const_expr(m, v)
                if p is None:
                    return None
                parts.append(str(p))
            return ''.join(parts)
        if isinstance(node, ast.Name):
            for bnd in reversed(m.bindings.get(node.id, [])):
                if bnd[0] == 'expr':
                    return self.const_expr(m, bnd[1])
                if bnd[0] == 'from' and bnd[1] in self.modules:
                    return self.const_expr(self.modules[bnd[1]], ast.Name(bnd[2], ast.Load()))
        return None

    def public(self, modname, name):
        """A public function of a (sub)package, following re-exports."""
        m = self.modules.get(modname)
        if m is None:
            raise AnalysisError('module %s not found' % modname)
        r = self.resolve_name(m, name, builtin=False)
        if isinstance(r, Function):
            return r
        raise AnalysisError('public function %s.%s not found' % (modname, name))

    def method(self, cls, name):
        f = self.find_method(cls, name)
        if f is None:
            raise AnalysisError('method %s.%s not found' % (cls.name, name))
        return f

    def find_function(self, name):
        cands = [f for f in self.functions.values() if f.name == name]
        if len(cands) == 1:
            return cands[0]
        raise AnalysisError('function %s: %d definitions' % (name, len(cands)))
