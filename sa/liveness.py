"""Live local variables before every statement of a function (backward data
flow over the syntax tree).  Names used by nested functions, lambdas and
generator expressions are live throughout."""
import ast

NESTED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)


def names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def loads(nodes):
    return {x.id for n in nodes if n is not None for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}


def targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[targets(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return set()


class Liveness:
    def __init__(self, fn):
        self.before = {}      # id(statement) -> live names before it
        self.after = {}       # id(last statement of a block) -> live names after it
        self.always = set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.always.add(x.arg)
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, NESTED):
                self.always |= names(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
            if isinstance(x, (ast.NamedExpr,)):
                self.always |= names(x.target)
        self.exc = frozenset()
        self.loop = []
        if not isinstance(fn, ast.Lambda):
            self.block(fn.body, frozenset())

    def block(self, stmts, out):
        if stmts:
            self.after[id(stmts[-1])] = self.after.get(id(stmts[-1]), frozenset()) | out | self.exc
        for s in reversed(stmts):
            out = frozenset(self.stmt(s, out) | self.exc)
            self.before[id(s)] = self.before.get(id(s), frozenset()) | out
        return out

    def stmt(self, s, out):
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads([s])
        if isinstance(s, ast.Break):
            return self.loop[-1][0] if self.loop else out
        if isinstance(s, ast.Continue):
            return self.loop[-1][1] if self.loop else out
        if isinstance(s, ast.Assign):
            kill = set().union(*[targets(t) for t in s.targets])
            return (out - kill) | loads([s.value] + s.targets)
        if isinstance(s, ast.AnnAssign):
            return (out - (targets(s.target) if s.value is not None else set())) | loads([s.value, s.target])
        if isinstance(s, ast.AugAssign):
            return out | loads([s.value, s.target]) | targets(s.target)
        if isinstance(s, ast.If):
            return self.block(s.body, out) | self.block(s.orelse, out) | loads([s.test])
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            isw = isinstance(s, ast.While)
            use = loads([s.test]) if isw else set()
            kill = set() if isw else targets(s.target)
            orelse = self.block(s.orelse, out) if s.orelse else out
            head = frozenset(use | orelse)
            while True:
                self.loop.append((out, head))
                b = self.block(s.body, head)
                self.loop.pop()
                new = frozenset(head | b - kill | use | (set() if isw else loads([s.target])))
                if new == head:
                    break
                head = new
            return head if isw else head | loads([s.iter])
        if isinstance(s, (ast.With, ast.AsyncWith)):
            kill = set().union(*[targets(i.optional_vars) for i in s.items if i.optional_vars is not None])
            return (self.block(s.body, out) - kill) | loads([i.context_expr for i in s.items] + [i.optional_vars for i in s.items])
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out | self.exc) if s.finalbody else out
            exc = self.exc
            hs = set()
            if s.finalbody:
                self.exc = frozenset(exc | fin)
            for h in s.handlers:
                hs |= self.block(h.body, fin) - ({h.name} if h.name else set())
                hs |= loads([h.type])
            self.exc = frozenset(self.exc | hs)
            o = self.block(s.orelse, fin) if s.orelse else fin
            r = self.block(s.body, o)
            self.exc = exc
            return r | hs
        if isinstance(s, ast.Delete):
            return out | set().union(*[names(t) for t in s.targets])
        if any(isinstance(x, ast.stmt) for x in ast.iter_child_nodes(s)) or isinstance(s, getattr(ast, 'Match', ())):
            u = frozenset(out | self.exc | names(s))
            for x in ast.walk(s):
                if isinstance(x, ast.stmt):
                    self.before[id(x)] = u | self.always
                    self.after[id(x)] = u | self.always
            return u
        return out | loads([s])
