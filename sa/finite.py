"""Values of terms, and of facts about them, where some terms have given
values: decides formulas on a finite family of values."""

import itertools
from collections import Counter

from .terms import T, is_const, cval


class Unknown(Exception):
    pass


def strip(t):
    while isinstance(t, T) and t.op == 'at':
        t = t.a[0]
    return t


def ordered(counter):
    return sorted(counter.items(), key=lambda kv: -kv[1])


BUILTINS = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'sorted': sorted, 'dict': dict, 'len': len, 'sum': sum,
            'bool': bool, 'max': max, 'min': min, 'any': any, 'all': all, 'int': int, 'float': float, 'abs': abs, 'round': round,
            'divmod': divmod, 'range': range, 'reversed': lambda x: list(reversed(x)), 'enumerate': lambda *a: list(enumerate(*a)),
            'zip': lambda *a: list(zip(*a)), 'iter': lambda x: list(x), 'next': lambda x, *d: next(iter(x), *d)}
BIN = {'+': lambda l, r: l + r, '-': lambda l, r: l - r, '*': lambda l, r: l * r, '/': lambda l, r: l / r, '//': lambda l, r: l // r,
       '%': lambda l, r: l % r, '**': lambda l, r: l ** r, '&': lambda l, r: l & r, '|': lambda l, r: l | r, '^': lambda l, r: l ^ r}
CMP = {'==': lambda l, r: l == r, '!=': lambda l, r: l != r, '<': lambda l, r: l < r, '<=': lambda l, r: l <= r, '>': lambda l, r: l > r,
       '>=': lambda l, r: l >= r, 'in': lambda l, r: l in r, 'not in': lambda l, r: l not in r, 'is': lambda l, r: l is r, 'is not': lambda l, r: l is not r}
ERRORS = (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, OverflowError, AttributeError, StopIteration)


def value(t, env, name_of=None):
    """Value of a term; env gives values of terms."""
    t = strip(t)
    if t in env:
        return env[t]
    if is_const(t):
        return cval(t)
    from .rules.queues import ext as ename
    from .rules.graphs import method_of
    rec = lambda y: value(y, env)
    op = t.op
    try:
        if op == 'tuple':
            return tuple(rec(y) for y in t.a[0])
        if op == 'seqv':
            vs = [rec(y) for y in t.a[1]]
            return {'list': list, 'tuple': tuple, 'set': set}.get(t.a[0], list)(vs)
        if op == 'ditems':
            return {rec(kv.a[0]): rec(kv.a[1]) for kv in t.a[0]}
        if op == 'cmp':
            return CMP[t.a[0]](rec(t.a[1]), rec(t.a[2]))
        if op == 'un':
            v = rec(t.a[1])
            if t.a[0] in ('-', '+', 'not', '~', 'USub', 'Not', 'UAdd'):
                return -v if t.a[0] in ('-', 'USub') else +v if t.a[0] in ('+', 'UAdd') else (not v) if t.a[0] in ('not', 'Not') else ~v
            raise Unknown('un')
        if op in ('and', 'or') and isinstance(t.a[0], tuple):
            v = None
            for y in t.a[0]:
                v = rec(y)
                if bool(v) == (op == 'or'):
                    return v
            return v
        if op == 'ifexp' or op == 'cond':
            return rec(t.a[1]) if rec(t.a[0]) else rec(t.a[2])
        if op == 'bin':
            return BIN[t.a[0]](rec(t.a[1]), rec(t.a[2]))
        if op == 'sub':
            b = rec(t.a[0])
            i = t.a[1]
            if i.op == 'slice':
                i = slice(*[rec(y) if isinstance(y, T) else y for y in i.a])
            else:
                i = rec(i)
            return b[i]
        if op == 'idx' and len(t.a) > 2 and isinstance(t.a[2], T):
            z = T('idx', t.a[0], t.a[1])
            if z in env:
                return env[z] + rec(t.a[2])
            raise Unknown('idx')
        if op == 'comp':
            res = []

            def go(k, e2):
                if k == len(t.a[2]):
                    v = t.a[1]
                    if isinstance(v, T) and v.op == 'kv':
                        res.append((value(v.a[0], e2), value(v.a[1], e2)))
                    else:
                        res.append(value(v, e2))
                    return
                e, it, conds = t.a[2][k]
                for x in list(value(it, e2)):
                    e3 = dict(e2)
                    bind(e, x, e3)
                    if all(value(c, e3) for c in conds):
                        go(k + 1, e3)
            go(0, env)
            return dict(res) if t.a[0] == 'dict' else set(res) if t.a[0] == 'set' else res
        n = ename(t)
        b, m = method_of(t)
        if n is not None:
            kw = {k: keyed(v, env) if k == 'key' else rec(v) for k, v in t.a[2]}
            if n.startswith('builtins.') and n[9:] in BUILTINS:
                return BUILTINS[n[9:]](*[rec(y) for y in t.a[1]], **kw)
            if n in ('math.ceil', 'math.floor', 'numpy.ceil', 'numpy.floor', 'math.fsum', 'numpy.sum', 'numpy.max', 'numpy.min', 'numpy.abs'):
                import math
                fn = {'ceil': math.ceil, 'floor': math.floor, 'fsum': math.fsum, 'sum': sum, 'max': max, 'min': min, 'abs': abs}[n.split('.')[1]]
                return fn(*[rec(y) for y in t.a[1]])
            if n == 'collections.Counter' and len(t.a[1]) <= 1:
                return Counter(rec(t.a[1][0])) if t.a[1] else Counter()
            if n == 'fractions.Fraction':
                from fractions import Fraction
                return Fraction(*[rec(y) for y in t.a[1]])
            if n in ('operator.itemgetter',):
                raise Unknown(n)
            raise Unknown(n)
        if m is not None and b is not None:
            o = rec(b)
            args = [rec(y) for y in t.a[1]]
            if isinstance(o, dict):
                if m == 'most_common':
                    r = ordered(o)
                    return r[:args[0]] if args and args[0] is not None else r
                if m == 'total':
                    return sum(o.values())
                if m in ('items', 'keys', 'values', 'elements'):
                    return list(getattr(o, m)())
                if m in ('get', 'copy'):
                    return getattr(o, m)(*args)
            if isinstance(o, (list, tuple)) and m in ('count', 'index', 'copy'):
                return getattr(o, m)(*args)
    except ERRORS:
        raise Unknown(op)
    raise Unknown(op)


def keyed(t, env):
    """Key functions."""
    from .rules.queues import ext as ename
    if is_const(t) and cval(t) is None:
        return None
    if t.op == 'attr' and t.a[1] in ('get', '__getitem__', 'count'):
        return getattr(value(t.a[0], env), t.a[1])
    if ename(t) == 'operator.itemgetter' and len(t.a[1]) == 1:
        i = value(t.a[1][0], env)
        return lambda x: x[i]
    raise Unknown('key')


def bind(e, x, env):
    e = strip(e)
    env[e] = x
    if e.op == 'tuple':
        for y, z in zip(e.a[0], x):
            bind(y, z, env)


def holds(k, val, env):
    """Is a fact true?"""
    if k[0] == 'truth':
        return bool(value(k[1], env)) == val
    if k[0] == 'ord':
        l, r = value(k[1], env), value(k[2], env)
        try:
            return ('<' if l < r else '=' if l == r else '>' if l > r else 'u') in val
        except TypeError:
            return ('=' if l == r else 'u') in val
    if k[0] == 'in':
        return (value(k[1], env) in value(k[2], env)) == val
    if k[0] == 'is':
        return (value(k[1], env) is value(k[2], env)) == val
    raise Unknown(k[0])


def counters(labels, total):
    """All counters with a total, in all orders of the labels that occur."""
    for counts in itertools.product(range(total + 1), repeat=len(labels) - 1):
        rest = total - sum(counts)
        if rest < 0:
            continue
        items = [(l, c) for l, c in zip(labels, counts + (rest,)) if c]
        for p in itertools.permutations(items):
            yield dict(p)
