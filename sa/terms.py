"""
Hash-consed value terms.

A term names *what a value is* in terms of the program's inputs, allocation
sites, calls and reads of versioned state.  Equal terms denote equal values (on
one path of one activation); different terms say nothing by themselves.
"""


class T:
    __slots__ = ('op', 'a', 'id', '_c')
    _table = {}

    def __new__(cls, op, *a):
        key = (op, tuple((type(x).__name__, x) if isinstance(x, (bool, int, float)) else x for x in a))
        self = cls._table.get(key)
        if self is None:
            self = object.__new__(cls)
            self.op = op
            self.a = a
            self.id = len(cls._table)
            self._c = None
            cls._table[key] = self
        return self

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id

    # every term id reachable from this one (used for staleness tests)
    @property
    def marks(self):
        """Set of loop ids this term depends on, plus 'at' when it depends on a
        read of mutable state."""
        if self._c is None:
            res = set()
            if self.op in ('phi', 'elem', 'ghost'):
                res.add(self.a[0] if self.op == 'phi' else self.a[1] if self.op == 'elem' else 'ghost')
            if self.op == 'at':
                res.add('at')
            if self.op == 'attr' and self.a[2] is not None:
                res.add('at')
            for x in walk_args(self.a):
                res |= x.marks
            self._c = frozenset(res)
        return self._c


def walk_args(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from walk_args(x)


def walk(t, seen=None):
    """All sub-terms, each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(walk_args(x.a))


def subst(t, mapping, memo=None):
    """Replace sub-terms."""
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, T):
            return subst(x, mapping, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    new = tuple(go(x) for x in t.a)
    res = t if all(n is o or n == o for n, o in zip(new, t.a)) and len(new) == len(t.a) else T(t.op, *new)
    memo[t] = res
    return res


def const(v):
    return T('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
TOP = T('top', '?')
UNDEF = T('undef')


def is_const(t, *v):
    if t.op != 'const':
        return False
    return not v or any(t.a[1] == x and type(t.a[1]) is type(x) for x in v)


def cval(t):
    return t.a[1]


def ext(name):
    return T('ext', name)


def attr(base, name, ver=None):
    return T('attr', base, name, ver)


def call(f, args=(), kwargs=(), tag=None):
    return T('call', f, tuple(args), tuple(sorted(kwargs, key=lambda kv: kv[0])), tag)


def tup(*items):
    return T('tuple', tuple(items))


OPS = {
    'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'Pow': '**',
    'FloorDiv': '//', 'MatMult': '@', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^',
    'LShift': '<<', 'RShift': '>>',
    'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!=',
    'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in',
    'Not': 'not', 'USub': '-', 'UAdd': '+', 'Invert': '~',
}


def show(t, depth=6):
    """Human readable form."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth <= 0:
        return '…'
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[1])
    if o in ('in', 'ext', 'mod'):
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'at':
        return s(a[0])
    if o == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'call':
        args = [s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]
        return '%s(%s)' % (s(a[0]), ', '.join(args))
    if o in ('bin', 'cmp'):
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'un':
        return '%s %s' % (a[0], s(a[1]))
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a[0]) + ')'
    if o == 'cls':
        return a[0].split(':')[-1]
    if o == 'func':
        return a[0].split(':')[-1]
    if o == 'bound':
        return '%s.%s' % (s(a[1]), s(a[0]))
    if o == 'inst':
        return '<%s %s>' % (a[0].split(':')[-1], a[1] if isinstance(a[1], str) else '')
    if o == 'obj':
        return '<%s>' % (a[0],)
    if o == 'elem':
        return 'elem(%s)' % s(a[0])
    if o == 'phi':
        slot = a[1]
        return '%s~' % (slot[-1] if isinstance(slot, tuple) and isinstance(slot[-1], str) else 'phi')
    if o == 'comp':
        return '[%s for … in %s]' % (s(a[1]), ', '.join(s(x[1]) for x in a[2]))
    if o == 'coro':
        return 'coroutine %s' % s(a[0])
    return '%s%s' % (o, '(' + ', '.join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a) + ')')
