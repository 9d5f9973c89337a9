#!/usr/bin/env python3
"""Rewrites the whole package mechanically in ways that keep its behaviour, and runs all
checks on the result: none may raise an alarm or fail to answer.

Usage: auto.py [-j N] [-t] [TRANSFORM ...]     (-t: run the tests on each rewritten tree instead)
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.environ.get('NODEFINDER_SRC', '/repo')
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNC + (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


def own(fn):
    """Nodes of a function without those of nested scopes' bodies."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNC + (ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def has(nodes, kinds):
    return any(isinstance(x, kinds) for n in nodes for x in ast.walk(n))


class Blocks(ast.NodeTransformer):
    """Applies stmt(s) -> list of statements to every statement (children first)."""
    def __init__(self):
        self.k = 0
        self.depth = 0

    def fresh(self, base):
        self.k += 1
        return '%s_%d_' % (base, self.k)

    def stmt(self, s):
        return [s]

    def generic_visit(self, node):
        isf = isinstance(node, FUNC)
        self.depth += isf
        super().generic_visit(node)
        self.depth -= isf
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if isinstance(node, (ast.Module, ast.ClassDef)) or (not self.depth and not isf):
                    continue
                out = []
                for s in b:
                    out += self.stmt(s)
                setattr(node, f, out)
        return node


class Noop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.If, ast.For, ast.Raise)):
            return [assign('_', ast.Constant(None)), s]
        return [s]


class RetTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None:
            v = self.fresh('result')
            return [assign(v, s.value), ast.Return(name(v))]
        return [s]


class CondTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If):
            v = self.fresh('cond')
            return [assign(v, s.test), ast.If(name(v), s.body, s.orelse)]
        return [s]


class Invert(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class IfExp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Assign(copy.deepcopy(s.targets), e.body)], [ast.Assign(s.targets, e.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            e = s.value
            return [ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])]
        return [s]


class Early(Blocks):
    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth or isinstance(node, FUNC):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    for i, s in enumerate(b):
                        if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                            s.orelse = b[i + 1:]
                            setattr(node, f, b[:i + 1])
                            break
        return node


class While1(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse:
            return [ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])]
        return [s]


class ForTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For):
            v = self.fresh('seq')
            it = s.iter
            s.iter = name(v)
            return [assign(v, it), s]
        return [s]


class ForUnpack(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            v = self.fresh('item')
            t = s.target
            s.target = name(v, ast.Store())
            s.body.insert(0, ast.Assign([t], name(v)))
        return [s]


class ArgTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, (ast.Call, ast.Await)):
            c = s.value.value if isinstance(s.value, ast.Await) else s.value
            if not isinstance(c, ast.Call) or has([c.func], (ast.Call, ast.Await)):
                return [s]
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, ast.Starred) or has([a], (ast.Yield,)):
                    return [s]
            if any(k.arg is None for k in c.keywords):
                return [s]
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Constant, ast.Name)):
                    v = self.fresh('arg')
                    pre.append(assign(v, a))
                    c.args[i] = name(v)
            for k in c.keywords:
                if not isinstance(k.value, (ast.Constant, ast.Name)):
                    v = self.fresh('arg')
                    pre.append(assign(v, k.value))
                    k.value = name(v)
            return pre + [s]
        return [s]


class CompLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
            c = s.value
            if any(g.is_async for g in c.generators):
                return [s]
            v = self.fresh('acc')
            if isinstance(c, ast.ListComp):
                init, put = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [c.elt], []))
            elif isinstance(c, ast.SetComp):
                init, put = ast.Call(name('set'), [], []), ast.Expr(ast.Call(ast.Attribute(name(v), 'add', ast.Load()), [c.elt], []))
            else:
                init, put = ast.Dict([], []), ast.Assign([ast.Subscript(name(v), c.key, ast.Store())], c.value)
            body = [put]
            for g in reversed(c.generators):
                for t in reversed(g.ifs):
                    body = [ast.If(t, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = name(v)
            return [assign(v, init)] + body + [s]
        return [s]


class Annotate(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in self.glob:
            return [ast.AnnAssign(s.targets[0], name('object'), s.value, 1)]
        return [s]

    def visit_FunctionDef(self, node):
        self.glob = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for a in node.args.args + node.args.kwonlyargs:
            if a.annotation is None:
                a.annotation = name('object')
        return self.generic_visit(node)

    visit_AsyncFunctionDef = visit_FunctionDef


class DeMorgan(ast.NodeTransformer):
    def test(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n

    visit_While = visit_If


class Swap(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        op, l, r = n.ops[0], n.left, n.comparators[0]
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}.get(type(op))
        if sw and not has([l, r], (ast.Call, ast.Await)):
            return ast.Compare(r, [sw()], [l])
        neg = {ast.IsNot: ast.Is, ast.NotIn: ast.In}.get(type(op))
        if neg:
            return ast.UnaryOp(ast.Not(), ast.Compare(l, [neg()], [r]))
        return n


class Keywords(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if not any(k.arg is None for k in n.keywords) and not has([k.value for k in n.keywords], (ast.Call, ast.Await)):
            n.keywords = n.keywords[::-1]
        return n


class SelfAlias(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        for f in c.body:
            if isinstance(f, FUNC) and f.args.args and f.args.args[0].arg == 'self' and not has(f.body, ast.Call) is None:
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(f)):
                    continue
                for b in f.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Name) and x.id == 'self':
                            x.id = 'this'
                i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body.insert(i, assign('this', name('self')))
        return c


class Wrap(ast.NodeTransformer):
    """def f(...): body  ->  f calls _f_impl with the same arguments."""
    def __init__(self):
        self.cls = None

    def visit_ClassDef(self, c):
        old, self.cls = self.cls, c
        self.generic_visit(c)
        self.cls = old
        return c

    def visit_FunctionDef(self, f):
        if f.name.startswith('__') or is_gen(f) or f.args.vararg or f.args.kwarg:
            return f
        kinds = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in f.decorator_list]
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(f)):
            return f
        g = copy.deepcopy(f)
        g.name = '_%s_impl' % f.name.lstrip('_')
        g.decorator_list = []
        pos = [a.arg for a in f.args.args]
        kw = [a.arg for a in f.args.kwonlyargs]
        g.args.defaults = []
        g.args.kw_defaults = [None] * len(kw)
        if self.cls is None:
            call = ast.Call(name(g.name), [name(a) for a in pos], [ast.keyword(a, name(a)) for a in kw])
        elif 'staticmethod' in kinds:
            g.decorator_list = [name('staticmethod')]
            call = ast.Call(ast.Attribute(name(self.cls.name), g.name, ast.Load()), [name(a) for a in pos], [ast.keyword(a, name(a)) for a in kw])
        elif 'setter' in kinds:
            g.name += '_set'
            call = ast.Call(ast.Attribute(name(pos[0]), g.name, ast.Load()), [name(a) for a in pos[1:]], [])
        else:
            if 'classmethod' in kinds:
                g.decorator_list = [name('classmethod')]
            call = ast.Call(ast.Attribute(name(pos[0]), g.name, ast.Load()), [name(a) for a in pos[1:]], [ast.keyword(a, name(a)) for a in kw])
        if isinstance(f, ast.AsyncFunctionDef):
            call = ast.Await(call)
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        f.body = doc + [ast.Return(call)]
        return [g, f]

    visit_AsyncFunctionDef = visit_FunctionDef


def params(f):
    a = f.args
    return {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def stored(nodes):
    """Names bound by these statements in their own scope."""
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out


class Rename(ast.NodeTransformer):
    """Renames all local variables."""
    def __init__(self):
        self.env = [{}]

    def visit_FunctionDef(self, f):
        f.decorator_list = [self.visit(d) for d in f.decorator_list]
        f.args.defaults = [self.visit(d) for d in f.args.defaults]
        f.args.kw_defaults = [d and self.visit(d) for d in f.args.kw_defaults]
        if len(self.env) > 1 and f.name in self.env[-1]:
            f.name = self.env[-1][f.name]
        decl = {n for x in own(f) if isinstance(x, (ast.Global,)) for n in x.names}
        nonl = {n for x in own(f) if isinstance(x, (ast.Nonlocal,)) for n in x.names}
        imp = {(a.asname or a.name).split('.')[0] for x in own(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        env = dict(self.env[-1])
        for p in params(f) | decl | imp:
            env.pop(p, None)
        for n in stored(f.body) - params(f) - decl - nonl - imp:
            env[n] = 'v_' + n
        self.env.append(env)
        f.body = [self.visit(b) for b in f.body]
        self.env.pop()
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, f):
        env = dict(self.env[-1])
        for p in params(f):
            env.pop(p, None)
        self.env.append(env)
        f.body = self.visit(f.body)
        self.env.pop()
        return f

    def comp(self, c):
        bound = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        env = dict(self.env[-1])
        env.update({b: 'w_' + b for b in bound})
        first = c.generators[0]
        it = self.visit(first.iter)
        self.env.append(env)
        first.iter = ast.Constant(0)
        self.generic_visit(c)
        first.iter = it
        self.env.pop()
        return c

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, n):
        n.id = self.env[-1].get(n.id, n.id)
        return n

    def visit_Nonlocal(self, n):
        n.names = [self.env[-1].get(x, x) for x in n.names]
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.env[-1].get(n.name, n.name)
        self.generic_visit(n)
        return n


class Local(ast.NodeTransformer):
    """Moves pieces of functions into nested functions."""
    tail = False

    def __init__(self):
        self.k = 0

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if is_gen(f) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in own(f)):
            return f
        loc = stored(f.body) | params(f)
        isas = isinstance(f, ast.AsyncFunctionDef)
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') for x in ast.walk(f)):
            return f
        if self.tail:
            i = max(1, len(f.body) // 2)
            doc = isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant)
            if len(f.body) - i < 2 or (doc and i == 1):
                return f
            rest = f.body[i:]
            if has(rest, (ast.Import, ast.ImportFrom)):
                return f
            # variables bound before and used after must be nonlocal if bound in the rest
            before = stored(f.body[:i]) | params(f)
            nl = sorted(stored(rest) & before)
            self.k += 1
            nm = 'rest_%d_' % self.k
            body = ([ast.Nonlocal(nl)] if nl else []) + rest
            g = (ast.AsyncFunctionDef if isas else ast.FunctionDef)(nm, ast.arguments([], [], None, [], [], None, []), body, [], None)
            c = ast.Call(name(nm), [], [])
            f.body = f.body[:i] + [g, ast.Return(ast.Await(c) if isas else c)]
            return f
        self.loops(f, loc)
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def loops(self, f, loc):
        for par in list(own(f)) + [f]:
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(par, fld, None)
                if not isinstance(b, list):
                    continue
                for s in b:
                    if isinstance(s, (ast.For, ast.While)) and not has(s.body, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal)):
                        aw = has(s.body, (ast.Await, ast.AsyncFor, ast.AsyncWith))
                        inner = stored(s.body)
                        allst = {n.id for st in f.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                        outside = set()
                        inb = {id(x) for st in s.body for x in ast.walk(st)}
                        for st in f.body:
                            for n in ast.walk(st):
                                if isinstance(n, ast.Name) and id(n) not in inb:
                                    outside.add(n.id)
                        nl = sorted(inner & outside)
                        if any(n not in params(f) and not self.bound(f, n, s) for n in nl):
                            continue
                        self.k += 1
                        nm = 'step_%d_' % self.k
                        args = []
                        if isinstance(s, ast.For):
                            args = sorted(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name))
                        nl = [n for n in nl if n not in args]
                        g = (ast.AsyncFunctionDef if aw else ast.FunctionDef)(nm, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), ([ast.Nonlocal(nl)] if nl else []) + s.body, [], None)
                        c = ast.Call(name(nm), [name(a) for a in args], [])
                        s.body = [ast.Expr(ast.Await(c) if aw else c)]
                        j = b.index(s)
                        b.insert(j, g)
                        return self.loops(f, loc) if False else None

    @staticmethod
    def bound(f, n, s):
        inb = {id(x) for st in s.body for x in ast.walk(st)}
        return any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) and id(x) not in inb for st in f.body for x in ast.walk(st))


class Tail(Local):
    tail = True


class FunTemp(Blocks):
    """Methods that are called are fetched first."""
    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and not has([s.value.func], (ast.Call, ast.Await)):
            if isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == 'super':
                return [s]
            v = self.fresh('fun')
            f = s.value.func
            s.value.func = name(v)
            return [assign(v, f), s]
        return [s]


class AttrTemp(Blocks):
    """self.a.b(...) -> obj = self.a; obj.b(...)"""
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and s.value is not None:
            c = s.value.value if isinstance(s.value, ast.Await) else s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) \
                    and isinstance(c.func.value.value, ast.Name) and c.func.value.value.id == 'self':
                v = self.fresh('obj')
                a = c.func.value
                c.func.value = name(v)
                return [assign(v, a), s]
        return [s]


class TryFinally(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For):
            return [ast.Try([s], [], [], [ast.Pass()])]
        return [s]


class GenToList(ast.NodeTransformer):
    """any(gen) -> any([...]) changes nothing but the number of evaluations."""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'sum', 'tuple', 'set', 'sorted', 'min', 'max') and n.args and isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            n.args[0] = ast.ListComp(g.elt, g.generators)
        return n


class AnyLoop(Blocks):
    """if any(gen): -> loop with flag"""
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id == 'any' \
                and isinstance(s.test.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.test.args[0].generators) == 1:
            g = s.test.args[0]
            v = self.fresh('found')
            ge = g.generators[0]
            body = [ast.If(g.elt, [assign(v, ast.Constant(True)), ast.Break()], [])]
            for t in reversed(ge.ifs):
                body = [ast.If(t, body, [])]
            s.test = name(v)
            return [assign(v, ast.Constant(False)), ast.For(ge.target, ge.iter, body, []), s]
        return [s]


class Methods(ast.NodeTransformer):
    """Reverses the order of the methods without decorators that refer to others."""
    def visit_ClassDef(self, c):
        m = [x for x in c.body if isinstance(x, FUNC)]
        o = [x for x in c.body if not isinstance(x, FUNC)]
        if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for f in m for d in f.decorator_list):
            return c
        c.body = o + m[::-1]
        return c


class StrFmt(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        return n


class PosToKw(ast.NodeTransformer):
    pass


ALL = dict(noop=Noop, rettemp=RetTemp, condtemp=CondTemp, invert=Invert, ifexp=IfExp, early=Early, while1=While1, fortemp=ForTemp,
           forunpack=ForUnpack, argtemp=ArgTemp, comploop=CompLoop, annotate=Annotate, demorgan=DeMorgan, swap=Swap, keywords=Keywords,
           selfalias=SelfAlias, wrap=Wrap, rename=Rename, local=Local, tail=Tail, funtemp=FunTemp, attrtemp=AttrTemp, tryfinally=TryFinally,
           gentolist=GenToList, anyloop=AnyLoop, methods=Methods)


def make(t, root):
    shutil.copytree(os.path.join(SRC, 'nodefinder'), os.path.join(root, 'nodefinder'), ignore=shutil.ignore_patterns('__pycache__'))
    n = 0
    for d, _, fs in os.walk(os.path.join(root, 'nodefinder')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                s = open(p, encoding='utf8').read()
                tree = ast.parse(s)
                before = ast.dump(tree)
                for k in t.split('+'):
                    tree = ast.fix_missing_locations(ALL[k]().visit(tree))
                if ast.dump(tree) != before:
                    n += 1
                    open(p, 'w', encoding='utf8').write(ast.unparse(tree) + '\n')
                    compile(open(p, encoding='utf8').read(), p, 'exec')
    return n


def check(root, pid):
    vr = tempfile.mkdtemp(prefix='nfauto')
    try:
        shutil.copytree(os.path.join(VERIF, 'sa'), os.path.join(vr, 'sa'), ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(os.path.join(VERIF, 'check.py'), vr)
        shutil.copy(os.path.join(VERIF, 'known_findings.txt'), vr)
        try:
            r = subprocess.run([sys.executable, os.path.join(vr, 'check.py'), pid], env=dict(os.environ, NODEFINDER_SRC=root),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 99, 'timeout', 0, 0
        u = o = -1
        p = os.path.join(vr, 'evidence', pid + '.json')
        if os.path.exists(p):
            c = json.load(open(p))['coverage']
            u, o = c['undecided'], c['obligations']
        return rc, out, u, o
    finally:
        shutil.rmtree(vr, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-c', default='')
    ap.add_argument('names', nargs='*')
    a = ap.parse_args()
    pids = a.c.split(',') if a.c else [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for t in a.names or ALL:
            root = tempfile.mkdtemp(prefix='nfauto')
            try:
                n = make(t, root)
                if a.t:
                    for x in os.listdir(SRC):
                        if x not in ('nodefinder', '.git') and not os.path.exists(os.path.join(root, x)):
                            (shutil.copytree if os.path.isdir(os.path.join(SRC, x)) else shutil.copy)(os.path.join(SRC, x), os.path.join(root, x))
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-plot-compare',
                                        'tests/search', 'tests/identify/test_cluster.py::test_clustering'], cwd=root, env=dict(os.environ, PYTHONPATH=root, MPLBACKEND='agg'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    print(t, n, r.stdout.strip().splitlines()[-1], flush=True)
                    if ' failed' in r.stdout or ' error' in r.stdout:
                        print(r.stdout[-1500:])
                    continue
                res = list(ex.map(lambda p: (p,) + check(root, p), pids))
                und = [(p, u, o) for p, rc, out, u, o in res if rc == 0 and u]
                print('%s: %d files rewritten; undecided: %s' % (t, n, ', '.join('%s %d/%d' % x for x in und) or 'none'), flush=True)
                for p, rc, out, u, o in res:
                    if rc:
                        bad += 1
                        print('   UNEXPECTED %s %s exit %d\n      %s' % (t, p, rc, '\n      '.join(out.strip().splitlines()[-6:])), flush=True)
            finally:
                shutil.rmtree(root, ignore_errors=True)
    print('%d unexpected' % bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
