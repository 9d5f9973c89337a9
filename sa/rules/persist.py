"""Rules about saving and loading (C01 - C04, C26, C35)."""

import ast

from ..engine import Engine, Monitor, DEAD, strip_at, strip_iter, prog_types
from ..loader import AnalysisError, Function
from ..terms import T, NONE, TRUE, FALSE, UNDEF, const, is_const, cval, ext, attr, call, walk, show
from .. import roles as R
from .search import plain, mentions, loose, opt_attrs, Rec, EMPTY, inc, prop_holds
from .results import reads, self_of, attr_name

RENAME = ('os.rename', 'os.replace', 'os.renames', 'shutil.move')
REMOVE = ('os.remove', 'os.unlink')
READ = ('fsc.hdf5_io.load', 'os.stat', 'os.access', 'os.fspath', 'os.path.', 'builtins.str', 'builtins.repr', 'builtins.print', 'builtins.bool',
        'builtins.isinstance', 'pathlib.', 'builtins.len', 'builtins.format', 'logging.', 'builtins.type', 'tempfile.', 'os.makedirs', 'os.chmod')
WRITE = ('fsc.hdf5_io.save', 'os.remove', 'os.unlink', 'os.truncate', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'os.rename', 'os.replace',
         'shutil.move', 'numpy.save', 'numpy.savez', 'os.mknod', 'os.symlink', 'os.link')


def unpath(t):
    """Strip conversions of a path."""
    while True:
        t = plain(t)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pathlib.Path', 'pathlib.PurePath', 'builtins.str', 'os.fspath', 'os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'pathlib.PosixPath', 'os.path.normpath') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


class SaveMonitor(Monitor):
    def __init__(self, saves, tmp_rules=True):
        self.saves = saves
        self.tmp_rules = tmp_rules
        self.seen = dict(rename=0, write=0, clear=0, touch=0)

    quiet = False

    def init(self):
        return EMPTY

    def report(self, eng, *args, **kwargs):
        if not self.quiet:
            eng.report(*args, **kwargs)

    def is_save(self, t):
        return unpath(t) in self.saves

    def derived(self, t):
        return any(mentions(t, s) for s in self.saves)

    def on(self, ev, m, st, eng):
        k = ev.kind
        if k in ('call', 'callret', 'callexc', 'pcall', 'mutate') and (ev.name or k == 'mutate'):
            return self.call(ev, m, st, eng)
        if k == 'storeattr' and ev.name == 'needs_saving':
            if ev.value is FALSE or eng.holds(st, ev.value) is False:
                self.seen['clear'] += 1
                return m if m.get('renamed') else m.set(cleared=eng.loc(ev.node))
            return m.set(cleared=None)
        if k == 'assume' and ev.key[0] == 'truth' and ev.val is False:
            t = ev.key[1]
            if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('os.path.exists', 'os.path.isfile', 'os.path.lexists') and t.a[1] and m.get('tmp') is not None and unpath(t.a[1][0]) is m.get('tmp'):
                return m.set(removed=True)
            return m
        if k == 'cm_exit' and m.get('tmpdir') is not None and strip_at(ev.cm) is m.get('tmpdir'):
            return m.set(removed=True)
        if k == 'cm_exit' and m.get('file') is not None and strip_at(ev.cm) is m.get('file') and not m.get('keep'):
            if m.get('renamed') and m.get('moved') is m.get('tmp'):
                self.report(eng, 'temporary', ev.node, 'the temporary file deletes itself on closing although it was renamed', st, key='delete')
            return m.set(removed=True)
        return m

    def call(self, ev, m, st, eng):
        k = ev.kind
        name = ev.name if k != 'mutate' else '.' + ev.method
        args = list(ev.args or ())
        kwargs = dict(ev.kwargs or {})
        vals = args + list(kwargs.values())
        recv = unpath(ev.recv) if ev.recv is not None else unpath(ev.base) if k == 'mutate' else None
        if recv is not None and name in ('.replace', '.rename', '.unlink', '.write_bytes', '.write_text', '.touch', '.open', '.copy_to', '.move'):
            if recv in self.saves or recv is m.get('tmp') or self.derived(recv):
                if name in ('.replace', '.rename') and len(args) == 1:
                    name, args = 'os.replace', [recv] + args
                elif name == '.unlink':
                    name, args = 'os.unlink', [recv]
                elif name in ('.write_bytes', '.write_text', '.touch'):
                    name, args = 'os.truncate', [recv]
                elif name == '.open':
                    name, args = 'builtins.open', [recv] + args
                vals = args + list(kwargs.values())
                if k in ('pcall', 'mutate'):
                    k = 'callret'
        # creation of a temporary file
        if name.startswith('tempfile.') and k == 'callret':
            n = name.split('.')[-1]
            d = kwargs.get('dir')
            if n in ('NamedTemporaryFile', 'TemporaryFile'):
                pos = ['mode', 'buffering', 'encoding', 'newline', 'suffix', 'prefix', 'dir', 'delete']
            elif n in ('mkstemp', 'mkdtemp', 'TemporaryDirectory', 'mktemp'):
                pos = ['suffix', 'prefix', 'dir']
            else:
                return m
            for p, v in zip(pos, args):
                kwargs.setdefault(p, v)
            d = kwargs.get('dir')
            t = ev.result
            if d is None or not self.derived(d):
                if any(x.op in ('phi', 'obj') for x in ([] if d is None else [d])):
                    m = m.set(elsewhere='?')
                else:
                    m = m.set(elsewhere=eng.loc(ev.node))
            if n == 'NamedTemporaryFile':
                return m.set(tmp=T('attr', t, 'name', None), file=t, keep=kwargs.get('delete') is FALSE, removed=None)
            if n in ('mkstemp', 'mktemp'):
                return m.set(tmp=t, keep=True, removed=None)
            return m.set(tmpdir=t if n == 'TemporaryDirectory' else None, tmp=t, keep=True, removed=None)
        if name in RENAME and len(args) >= 2:
            src, dst = unpath(args[0]), unpath(args[1])
            if dst in self.saves:
                if k == 'call':
                    self.seen['rename'] += 1
                    if src not in m.get('written', ()) and not any(self.same_tmp(src, w) for w in m.get('written', ())):
                        self.report(eng, 'complete', ev.node, 'the save file is replaced before the new state is written completely', st, key='early')
                    if m.get('elsewhere') and m.get('elsewhere') != '?' and m.get('tmp') is not None and self.same_tmp(src, m.get('tmp')):
                        self.report(eng, 'temporary', ev.node, 'the temporary file is not in the directory of the save file, so replacing it is not atomic', st, key='dir')
                    return m
                if k == 'callret':
                    return m.set(renamed=True, moved=src)
                return m
            if src in self.saves and k == 'call':
                self.report(eng, 'in place', ev.node, 'the save file is moved away', st, key='away')
                return m
        touching = [v for v in vals if self.is_save(v)]
        if touching:
            self.seen['touch'] += 1
        if touching and k == 'call' and writes(name, args, kwargs, self):
            self.report(eng, 'in place', ev.node, 'the save file itself is written or removed by %s' % name, st, key=('inplace', name))
            return m
        # the temporary file
        tmpargs = [unpath(v) for v in vals if not self.is_save(v) and self.is_tmp(v, m)]
        if tmpargs and name not in RENAME:
            if name in REMOVE:
                if k in ('callret', 'callexc'):
                    return m.set(removed=True)
                return m
            if any(name.startswith(r) for r in READ if r != 'tempfile.') or k == 'pcall':
                return m
            if k == 'call':
                self.seen['write'] += 1
                if m.get('renamed') and m.get('moved') in tmpargs:
                    pass
                return m.set(tmp=m.get('tmp') if m.get('tmp') is not None else tmpargs[0], removed=None)
            if k == 'callret':
                return m.set(written=tuple(sorted(set(m.get('written', ())) | set(tmpargs))))
            if k == 'callexc':
                return m.set(failed=eng.loc(ev.node))
        return m

    @staticmethod
    def same_tmp(a, b):
        return a is b or a.op == 'sub' and b.op == 'sub' and a.a[0] is b.a[0]

    def is_tmp(self, v, m):
        u = unpath(v)
        if m.get('tmp') is not None and (u is m.get('tmp') or mentions(u, m.get('tmp'))):
            return True
        if m.get('file') is not None and u is m.get('file'):
            return True
        if self.derived(u) and u not in self.saves and u.op in ('bin', 'call', 'fmt', 'fstr', 'join', 'str'):
            # a path next to the save file
            if u.op == 'call' and u.a[0].op == 'ext' and (u.a[0].a[0] in ('os.path.dirname',) or u.a[0].a[0].startswith('tempfile')):
                return False
            return u.op != 'call' or 'join' in show(u.a[0]) or 'format' in show(u.a[0]) or 'with_' in show(u.a[0]) or 'splitext' in show(u)
        return False


def writes(name, args, kwargs, mon):
    if name in ('builtins.open', 'io.open', 'os.open', 'h5py.File', 'gzip.open', 'h5py._hl.files.File', 'codecs.open'):
        if not args or not mon.is_save(args[0]):
            return name != 'os.open' and any(mon.is_save(kwargs[k]) for k in kwargs if k in ('file', 'name')) and mode_writes(kwargs.get('mode'))
        mode = args[1] if len(args) > 1 else kwargs.get('mode')
        if name == 'os.open':
            return True
        return mode_writes(mode)
    if any(name == w or name.startswith(w) and w in ('shutil.copy', 'numpy.save') for w in WRITE):
        if name.startswith('shutil.copy') and args and mon.is_save(args[0]) and not any(mon.is_save(a) for a in args[1:]):
            return False
        return True
    return False


def mode_writes(mode):
    if mode is None:
        return False
    if mode.op == 'const':
        return any(c in str(cval(mode)) for c in 'wax+')
    return True


def save_tasks(ctx, roles):
    spawn, periodic = roles.tasks()
    ctx.require(periodic, 'no periodic task saves the state')
    saves = [attr(roles.self_term, n) for n in opt_attrs(ctx.prog, roles.controller, 'save_file')]
    ctx.require(saves, 'the path of the save file is not kept by the controller')
    return [(ctx.prog.functions[fid], v) for fid, v in periodic.items()], saves


def c01(ctx):
    roles = R.get(ctx.prog)
    ctx.rule('in place', 'nothing but a rename of another file ever writes, truncates, moves or removes the file at the save path')
    ctx.rule('complete', 'the file is replaced only after the state was written completely to the file that replaces it')
    ctx.rule('temporary', 'the replacing file is in the directory of the save file; when writing or replacing fails it is removed')
    ctx.rule('error', 'a failure to write leaves the function as an exception')
    ctx.rule('flag', 'the state is marked as saved only after the replacement')
    tasks, saves = save_tasks(ctx, roles)
    for f, (node, ft, pre, kws, owner) in tasks:
        mon = SaveMonitor(saves)
        before = len(ctx.violations)
        eng, rets, raises = ctx.analyse(f, pre, [], monitor=mon, label='save task %s' % f.qual)
        ctx.require(mon.seen['touch'] or mon.seen['rename'], 'the save task does not use the path of the save file')
        if not mon.seen['rename'] and len(ctx.violations) == before:
            ctx.undecided('complete', f.qual, 'how the save file is replaced was not understood')
        for s, v in list(rets) + list(raises):
            m = s.mon
            if s.taint:
                continue
            exc = v.op == 'exc'
            if m.get('cleared') and not m.get('renamed'):
                ctx.bad('flag', m.get('cleared'), f.qual, 'the state is marked as saved although the new file is not in place%s' % (' (%s)' % v.a[1] if exc else ''))
            if exc and v.a[0] == 'B':
                continue
            if exc and str(v.a[1]) in ('call:os.remove', 'call:os.unlink', 'call:.unlink', 'call:os.close', 'call:.close'):
                continue
            if m.get('tmp') is not None and not m.get('renamed') and not m.get('removed') and (exc or m.get('failed') or m.get('written')):
                if exc and str(v.a[1]).startswith('call:tempfile'):
                    continue
                ctx.bad('temporary', ctx.loc(f), f.qual, 'a temporary file is left behind when %s' % ('saving fails (%s)' % v.a[1] if exc else 'the save file is not replaced'))
            if not exc and not m.get('renamed') and (m.get('failed') or m.get('tmp') is not None):
                ctx.bad('error', ctx.loc(f), f.qual, 'a failure to save is hidden: the function returns normally without having replaced the file')
        if len(ctx.violations) == before:
            for r in ('in place', 'complete', 'temporary', 'error', 'flag'):
                ctx.ok(r, '%s: %d returning, %d raising path classes, %s' % (f.qual, len(rets), len(raises), mon.seen))
    # nobody else touches the file
    others = [(ctx.prog.find_method(roles.controller, '__init__'), None), (roles.main, roles.self_term)]
    for f, me in others:
        if f is None:
            continue
        mon = SaveMonitor(saves + [T('in', 'save_file')])
        eng, rets, raises = ctx.analyse(f, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods, label=f.qual)
        ctx.ok('in place', '%s: %d uses of the path' % (f.qual, mon.seen['touch']))
    mon = SaveMonitor([T('in', 'save_file')])
    inits = {f.fid for f in ctx.prog.functions.values() if f.name == '__init__'}
    ctx.analyse(roles.run_async, monitor=mon, opaque=inits | {roles.main.fid}, label='run_async')
    ctx.ok('in place', 'run_async')


# ---------------------------------------------------------------------------
# C02

CHANGE = ('put', 'put_nowait', 'get', 'get_nowait', 'append', 'appendleft', 'pop', 'popleft', 'add', 'update', 'remove', 'discard', 'clear', 'insert',
          'extend', 'popitem', 'setdefault', 'difference_update', 'symmetric_difference_update', 'intersection_update', 'extendleft', 'sort', 'reverse')


def literal_names(prog, cls, what):
    """Names in HDF5_ATTRIBUTES / HDF5_OPTIONAL, following inheritance."""
    for c in prog.mro(cls):
        for n in c.node.body:
            tg = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(tg, ast.Name) and tg.id == what and n.value is not None:
                return prog.const_expr(c.module, n.value)
    return []


def versions(prog, cls, name):
    """All definitions of a method along the MRO (a version may call the next one)."""
    return [f for c in prog.mro(cls) for f in c.methods.get(name, []) if prog.method_kind(f) not in ('setter', 'deleter')]


def self_names(f):
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    return {n.attr for n in ast.walk(f.node) if ps and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0]}


def read_closure(prog, cls, names):
    """(attributes, functions) read through methods and properties."""
    res, fs, seen, todo = set(), [], set(), set(names)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        vs = versions(prog, cls, n)
        if not vs:
            res.add(n)
        for f in vs:
            fs.append(f)
            todo |= self_names(f)
    return res, fs


def persisted_attrs(prog, cls):
    """{attribute of the object that enters what is saved: attributes of the
    helper object it holds that do, or None if all of it}."""
    direct = set(literal_names(prog, cls, 'HDF5_ATTRIBUTES') or ()) | set(literal_names(prog, cls, 'HDF5_OPTIONAL') or ())
    names = set(direct)
    for f in versions(prog, cls, 'to_hdf5'):
        names |= self_names(f)
    attrs, fs = read_closure(prog, cls, names)
    types = prog_types(prog)
    res = {}
    for n in attrs:
        held = types.init_of(cls).get(n, ())
        hs = [prog.classes[v.a[0]] for v in held if v.op == 'inst']
        if not hs or len(hs) != len(held):
            res[n] = None
            continue
        used = {'__iter__', '__getitem__', '__len__', '__next__'}
        for f in fs:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == n:
                    used.add(x.attr)
        res[n] = set()
        for h in hs:
            res[n] |= read_closure(prog, h, [u for u in used if versions(prog, h, u) or not u.startswith('__')])[0]
    return res


def root_attr(eng, st, t, me):
    """(attribute of ``me`` that a container belongs to, attribute of the helper)."""
    sub = None
    for _ in range(6):
        t = strip_at(t)
        n = None
        if t.op == 'attr' and t.a[0] is me:
            n = t.a[1]
        if n is None:
            for (b, k), v in st.heap.items():
                if b is me and isinstance(k, str) and v is t and k != '#':
                    n = k
        if n is None and me.op == 'inst':
            for k, vs in eng.typer.init_of(eng.prog.classes[me.a[0]]).items():
                if t in vs:
                    n = k
        if n is not None:
            return n, sub
        if t.op == 'attr':
            sub = t.a[1]
        if t.op in ('attr', 'sub'):
            t = t.a[0]
        else:
            return None, None
    return None, None


class MarkMonitor(Monitor):
    def __init__(self, me, attrs):
        self.me, self.attrs, self.n = me, attrs, 0

    def init(self):
        return EMPTY

    def on(self, ev, m, st, eng):
        tgt = None
        if ev.kind == 'mutate':
            tgt, how = ev.base, ev.method
        elif ev.kind == 'storesub':
            tgt, how = ev.base, 'item assignment'
        elif ev.kind in ('call', 'callret') and ev.name and ev.name[0] == '.' and ev.name[1:] in CHANGE and ev.kind == 'callret':
            tgt, how = ev.recv, ev.name[1:]
        elif ev.kind == 'storeattr' and ev.base is self.me:
            if ev.name == 'needs_saving':
                h = eng.holds(st, ev.value)
                return m.set(mark=h is True or None, unmark=(eng.loc(ev.node) if h is False else None), odd=h is None or None)
            if ev.name in self.attrs:
                self.n += 1
                return m.set(dirty=(ev.name, eng.loc(ev.node)))
            return m
        elif ev.kind == 'storeattr':
            tgt, how = T('attr', ev.base, ev.name, None), ev.name
        if tgt is None:
            return m
        n, sub = root_attr(eng, st, tgt, self.me)
        if n in self.attrs and (sub is None or self.attrs[n] is None or sub in self.attrs[n]):
            self.n += 1
            return m.set(dirty=(n, eng.loc(ev.node)))
        return m


def public_methods(prog, cls):
    res = {}
    for c in reversed(list(prog.mro(cls))):
        for f in prog.functions.values():
            if f.cls is c and not f.name.startswith('_') and f.parent is None:
                dec = {ast.unparse(d).split('(')[0].split('.')[-1] for d in f.decorators()}
                if dec & {'property', 'classmethod', 'staticmethod', 'abstractmethod', 'cached_property', 'setter'} or f.name in ('from_hdf5', 'to_hdf5'):
                    continue
                res[f.name] = f
    return list(res.values())


def c02(ctx):
    prog = ctx.prog
    roles = R.get(prog)
    ctx.rule('mark', 'every path of a method of the queues and the result container that changes an attribute which is saved leaves needs_saving true')
    ctx.rule('combine', 'needs_saving of the state is true if any one of its three parts needs saving')
    ctx.rule('write', 'the save task, with a path set and any one part needing saving, replaces the file with the saved state on every normal path')
    ctx.rule('unmark', 'needs_saving is set to a false value only by the save task')
    ctx.rule('flag', 'the state is marked as saved only after the new file is in place')
    ctx.rule('final', 'every normal end of the search is preceded by a save after the last change')
    mark_ok = 0
    for key in ('S', 'P', 'result'):
        cls = roles.cls(key)
        attrs = persisted_attrs(prog, cls)
        attrs.pop('needs_saving', None)
        ctx.require(attrs, 'nothing of %s is saved' % cls.name)
        me = self_of(cls)
        for f in public_methods(prog, cls):
            mon = MarkMonitor(me, attrs)
            # only normal ends: a method that fails leaves no promise
            eng, rets, raises = ctx.analyse(f, self_term=me, monitor=mon, label='%s.%s' % (cls.name, f.name))
            bad = False
            for s, v in rets:
                m = s.mon
                if not m.get('dirty') or m.get('mark'):
                    continue
                if s.taint or m.get('odd'):
                    ctx.undecided('mark', f.qual, 'whether the change of %s is marked' % m.get('dirty')[0])
                    continue
                bad = True
                ctx.bad('mark', m.get('dirty')[1], f.qual, '%s changes %s of the %s, which is saved, without marking it as needing a save' % (f.name, m.get('dirty')[0], cls.name))
            if not bad:
                ctx.ok('mark', '%s.%s: %d changes seen on %d paths' % (cls.name, f.name, mon.n, len(rets)))
                mark_ok += mon.n
        # a finished or new object is not unmarked by its own methods
    ctx.require(mark_ok or ctx.violations, 'no method changes saved data')
    combine(ctx, roles)
    write(ctx, roles)
    flag(ctx, roles)
    unmark(ctx, roles)
    final(ctx, roles)


def parts_of(ctx, roles):
    """Terms of the three parts of the state object."""
    cls = roles.cls('state')
    me = self_of(cls)
    res = {}
    for opt in ('result', 'simplex_queue', 'position_queue'):
        n = opt_attrs(ctx.prog, cls, opt)
        ctx.require(n, 'the state does not keep its %s' % opt)
        res[opt] = attr(me, n[0])
    return me, res


def combine(ctx, roles):
    me, parts = parts_of(ctx, roles)
    cls = roles.cls('state')
    g = ctx.prog.find_method(cls, 'needs_saving') or ctx.prog.find_method(cls, 'needs_saving', 'get')
    if g is None:
        ctx.undecided('combine', cls.name, 'the state has no property needs_saving')
        return
    names = sorted(parts)
    for bits in range(8):
        vals = {n: bool(bits >> i & 1) for i, n in enumerate(names)}

        def setup(st):
            for n, b in vals.items():
                st.heap[(parts[n], 'needs_saving')] = const(b)
        eng, rets, raises = ctx.analyse(g, [], [], self_term=me, setup=setup, label='%s with %s' % (g.qual, ', '.join(n for n in names if vals[n]) or 'nothing'))
        want = any(vals.values())
        got = {eng.holds(s, v) for s, v in rets if not s.taint}
        if want and False in got:
            ctx.bad('combine', ctx.loc(g), g.qual, 'the state does not need saving although its %s does' % ' and '.join(n for n in names if vals[n]))
        elif None in got or not rets:
            ctx.undecided('combine', g.qual, 'value not determined')
        else:
            ctx.ok('combine', '%s=%s -> %s' % (g.qual, vals, want))


def flag(ctx, roles):
    tasks, saves = save_tasks(ctx, roles)
    for f, (node, ft, pre, kws, owner) in tasks:
        mon = SaveMonitor(saves)
        mon.quiet = True
        eng, rets, raises = ctx.analyse(f, pre, [], monitor=mon, label='save task %s' % f.qual)
        bad = {s.mon.get('cleared') for s, v in list(rets) + list(raises) if not s.taint and s.mon.get('cleared') and not s.mon.get('renamed')}
        for loc in bad:
            ctx.bad('flag', loc, f.qual, 'the state is marked as saved on a path on which the new file is not in place, so the next save leaves its changes out')
        if not bad:
            ctx.ok('flag', '%s: %d returning, %d raising path classes' % (f.qual, len(rets), len(raises)))


def write(ctx, roles):
    me, parts = parts_of(ctx, roles)
    tasks, saves = save_tasks(ctx, roles)
    cls = roles.cls('state')
    ctrl = roles.controller
    inst = ctx_state_terms(ctx, roles)
    ctx.require(inst, 'the controller does not keep a state')
    for f, (node, ft, pre, kws, owner) in tasks:
        for part in sorted(parts):
            def setup(st):
                for sv in saves:
                    st.heap[(sv.a[0], sv.a[1])] = const('run.hdf5')
                for t in inst:
                    for n, p in parts.items():
                        # the parts as seen through the state of the controller
                        for x in part_terms(ctx, roles, t, p):
                            st.heap[(x, 'needs_saving')] = const(n == part)
            mon = WriteMonitor(const('run.hdf5'), inst)
            eng, rets, raises = ctx.analyse(f, pre, [], monitor=mon, setup=setup, label='save task %s with unsaved %s' % (f.qual, part))
            bad = False
            for s, v in rets:
                if s.taint:
                    ctx.undecided('write', f.qual, str(sorted(s.taint)))
                    continue
                if not s.mon.get('renamed'):
                    bad = True
                    if s.mon.get('saved'):
                        ctx.undecided('write', f.qual, 'how the save file is replaced was not understood')
                    else:
                        ctx.bad('write', ctx.loc(f), f.qual, 'with a save path set and an unsaved %s, the save task can return without saving' % part)
                elif s.mon.get('wrong'):
                    bad = True
                    ctx.bad('write', s.mon.get('wrong'), f.qual, 'what is written is not the state of the search')
            if not bad:
                ctx.ok('write', '%s with unsaved %s: %d returning paths' % (f.qual, part, len(rets)))


def ctx_state_terms(ctx, roles):
    """Values of the controller's attributes that hold the state."""
    from ..engine import prog_types
    res = []
    eng = Engine(ctx.prog)
    cls = roles.cls('state')
    for n, vs in prog_types(ctx.prog).init_of(roles.controller).items():
        for v in vs:
            if v.op == 'inst' and v.a[0] == cls.cid:
                res.append(attr(roles.self_term, n))
                break
    return res


def part_terms(ctx, roles, t, p):
    """Term(s) under which a part is known when reached through ``t``."""
    from ..engine import prog_types
    return [attr(t, p.a[1])]


class WriteMonitor(Monitor):
    def __init__(self, path, states):
        self.path, self.states = path, states

    def init(self):
        return EMPTY

    def on(self, ev, m, st, eng):
        if ev.kind in ('callret', 'call') and ev.name:
            args = list(ev.args or ())
            if ev.name == 'fsc.hdf5_io.save' and ev.kind == 'call':
                v = args[0] if args else (ev.kwargs or {}).get('obj')
                good = v is not None and (plain(v) in self.states)
                pv = plain(v) if v is not None else None
                wrong = pv is not None and not good and (not any(mentions(v, s) for s in self.states) or pv.op in ('attr', 'sub'))
                return m.set(saved=True, wrong=eng.loc(ev.node) if wrong else None)
            if ev.kind == 'callret' and ev.name in RENAME and len(args) >= 2 and unpath(args[1]) is self.path:
                return m.set(renamed=True)
            if ev.kind == 'callret' and ev.name in ('.rename', '.replace') and len(args) == 1 and unpath(args[0]) is self.path:
                return m.set(renamed=True)
        if ev.kind in ('pcall', 'mutate') and ev.args and len(ev.args) == 1 and unpath(ev.args[0]) is self.path:
            n = ev.name if ev.kind == 'pcall' else '.' + ev.method
            if n in ('.rename', '.replace'):
                return m.set(renamed=True)
        return m


def unmark(ctx, roles):
    """Only the save task (and the state's setter it uses) removes the mark."""
    tasks, saves = save_tasks(ctx, roles)
    allowed = {f.fid for f, _ in tasks}
    prog = ctx.prog
    # functions only reached from the save task
    callers = {}
    for f in prog.functions.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                callers.setdefault(n.attr, set()).add(f.fid)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                callers.setdefault(n.id, set()).add(f.fid)
    changed = True
    while changed:
        changed = False
        for f in prog.functions.values():
            if f.fid not in allowed and f.name != '__init__' and not is_setter(f):
                cs = callers.get(f.name, set()) - {f.fid}
                if f.name.startswith('_') and cs and cs <= allowed:
                    allowed.add(f.fid)
                    changed = True
    n = 0
    for f in prog.functions.values():
        if f.fid in allowed:
            continue
        for x in ast.walk(f.node):
            tgts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.AugAssign)) and x.value is not None else []
            flat = []
            for t in tgts:
                flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for t in flat:
                if not (isinstance(t, ast.Attribute) and t.attr == 'needs_saving'):
                    continue
                n += 1
                v = x.value
                const_ = v.value if isinstance(v, ast.Constant) else None
                if is_setter(f) and f.name == 'needs_saving':
                    ctx.ok('unmark', '%s passes the value on' % f.qual)
                elif isinstance(v, ast.Constant) and not const_:
                    if f.name == '__init__':
                        ctx.undecided('unmark', f.qual, 'a new object is not marked')
                    else:
                        ctx.bad('unmark', ctx.loc(f, x), f.qual, 'the mark is removed outside the save task')
                elif isinstance(v, ast.Constant):
                    ctx.ok('unmark', '%s sets the mark' % f.qual)
                else:
                    ctx.undecided('unmark', f.qual, 'value of the mark')
    # a fresh state is marked
    vals = []
    from ..engine import prog_types
    for key in ('S', 'P', 'result'):
        vs = prog_types(prog).init_of(roles.cls(key)).get('needs_saving')
        vals.append(vs)
    if all(vs is not None and vs <= {FALSE, NONE, const(0)} for vs in vals):
        ctx.bad('unmark', ctx.loc(roles.cls('state').module, roles.cls('state').node), roles.cls('state').name, 'a new state is not marked as needing a save, so initial simplices would not be written')


def is_setter(f):
    return any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in f.decorators())


def final(ctx, roles):
    tasks, saves = save_tasks(ctx, roles)
    qS, qP = roles.qterm('S'), roles.qterm('P')
    save_fids = {f.fid for f, _ in tasks}
    seen = dict(cm=0)

    def all_done(eng, st, node):
        return prop_holds(eng, st, qS, 'finished', node) is True and prop_holds(eng, st, qP, 'has_queued', node) is False

    class Main(Monitor):
        def init(self):
            return EMPTY

        def on(self, ev, m, st, eng):
            k = ev.kind
            if k == 'loopdone' and ev.while_ or k in ('await', 'break', 'return'):
                return m.set(drained=True) if not m.get('drained') and all_done(eng, st, ev.node) else m
            if k == 'spawn':
                return m.set(drained=None, saved=None)
            if k == 'call' and ev.name and ev.name.endswith('PeriodicTask'):
                exit_ = ev.kwargs.get('run_on_exit')
                off = exit_ is not None and eng.holds(st, exit_) is False
                return m.set(**{'noexit': (ev.result,) if off else None})
            if k == 'cm_exit' and ev.exc is None:
                c = strip_at(ev.cm)
                if c.op == 'call' and c.a[0].op == 'ext' and c.a[0].a[0].endswith('PeriodicTask') or 'PeriodicTask' in show(c):
                    seen['cm'] += 1
                    if c in (m.get('noexit') or ()):
                        return m
                    return m.set(saved=True) if m.get('drained') or all_done(eng, st, ev.node) else m.set(saved=None)
                return m
            if k == 'exit' and isinstance(ev.fn, Function) and ev.fn.fid in save_fids:
                return m.set(saved=True) if m.get('drained') or all_done(eng, st, ev.node) else m.set(saved=None)
            r = roles.role(ev, st, eng)
            if r is None:
                return m
            if r[0] in ('pop', 'add', 'fin', 'addres', 'refined'):
                return m.set(saved=None, drained=None if r[0] == 'add' else m.get('drained'))
            return m
    mon = Main()
    eng, rets, raises = ctx.analyse(roles.main, self_term=roles.self_term, monitor=mon, opaque=roles.data_methods | save_fids, label='scheduler %s, saves' % roles.main.qual)
    if not seen['cm']:
        ctx.undecided('final', roles.main.qual, 'the periodic save is not used as a context manager')
        return
    n = 0
    for s, _ in rets:
        if s.taint:
            ctx.undecided('final', roles.main.qual, str(sorted(s.taint)))
        elif not s.mon.get('saved'):
            ctx.bad('final', ctx.loc(roles.main), roles.main.qual, 'the search can return without a save after its last change')
        else:
            n += 1
    if n:
        ctx.ok('final', '%s: %d returning path classes' % (roles.main.qual, n))
