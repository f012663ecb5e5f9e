"""Matrices of rational functions, and a walk along the paths of a flow graph that follows them.

Identities between rational functions are decided by comparing their (exact, rational) values at a few fixed points: equal
functions agree at every point, and different ones disagree at all but a vanishing part of them."""

import hashlib
from fractions import Fraction

from cfg import show


class Unknown(Exception):
    pass


class Wrong(Exception):
    """An element that does not exist or has no value"""


POINTS = 6


class Rat:
    """A rational function of atoms, as an expression"""
    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def __add__(self, o):
        if self.op == 'const' and self.a == 0:
            return o
        if o.op == 'const' and o.a == 0:
            return self
        return fold(Rat('+', self, o))

    def __sub__(self, o):
        if o.op == 'const' and o.a == 0:
            return self
        return fold(Rat('-', self, o))

    def __mul__(self, o):
        for x, y in ((self, o), (o, self)):
            if x.op == 'const' and x.a == 0:
                return const(0)
            if x.op == 'const' and x.a == 1:
                return y
        return fold(Rat('*', self, o))

    def __truediv__(self, o):
        if o.op == 'const' and o.a == 0:
            raise Unknown('division by zero')
        return fold(Rat('/', self, o))

    def value(self):
        return self.a if self.op == 'const' else None

    def at(self, point, memo):
        """The value where point(atom) gives those of the atoms"""
        r = memo.get(id(self))
        if r is not None:
            return r
        if self.op == 'const':
            r = self.a
        elif self.op == 'atom':
            r = point(self.a)
        else:
            x, y = self.a.at(point, memo), self.b.at(point, memo)
            r = x + y if self.op == '+' else x - y if self.op == '-' else x * y if self.op == '*' else x / y
        memo[id(self)] = r
        return r

    def values(self, other=None):
        """Values at a few points, where neither this nor the other has a zero denominator"""
        out = []
        for k in range(POINTS * 4):
            try:
                m = {}
                p = points(k)
                out.append((self.at(p, m), other.at(p, m) if other is not None else None))
            except ZeroDivisionError:
                continue
            if len(out) == POINTS:
                return out
        raise Unknown('a denominator is always zero')

    def near(self, o, tol=0):
        """Whether they are the same function. Two different rational functions agree at all of the points only by an extraordinary
        coincidence; equal ones always do. The tolerance is for constants that are given to a few digits."""
        return all(x == y or abs(x - y) <= tol * max(abs(x), abs(y)) for x, y in self.values(o))

    def vanishes(self, big, tol):
        """Whether it is nothing next to another"""
        return all(abs(x) <= tol * abs(y) for x, y in self.values(big))

    def show(self):
        if self.op == 'const':
            return '%g' % float(self.a)
        if self.op == 'atom':
            return show(self.a) if self.a[0] == 'mem' and self.a[1] != ('adjusted',) else '.'.join(str(i) for i in self.a[1:])
        return '(%s %s %s)' % (self.a.show(), self.op, self.b.show())

    def replace(self, f, memo=None):
        memo = {} if memo is None else memo
        if id(self) not in memo:
            if self.op == 'const':
                r = self
            elif self.op == 'atom':
                r = f(self.a) or self
            else:
                r = Rat(self.op, self.a.replace(f, memo), self.b.replace(f, memo))
            memo[id(self)] = r
        return memo[id(self)]


def fold(r):
    if r.a.op == 'const' and r.b.op == 'const':
        return Rat('const', r.at(None, {}))
    return r


def points(k):
    def p(atom):
        h = hashlib.sha256(('%d %r' % (k, atom)).encode()).digest()
        return Fraction(int.from_bytes(h[:4], 'big') % 9973 + 1, 9973)
    return p


def const(v):
    return Rat('const', Fraction(repr(v)) if isinstance(v, float) else Fraction(v))


def atom(a):
    return Rat('atom', a)


class Mat:
    def __init__(self, rows, cols, fill=None):
        self.r, self.c = rows, cols
        self.e = {}
        if fill is not None:
            for i in range(rows):
                for j in range(cols):
                    self.e[i, j] = fill(i, j)

    def copy(self):
        m = Mat(self.r, self.c)
        m.e = dict(self.e)
        return m

    def get(self, i, j):
        if (i, j) not in self.e:
            raise Wrong('element (%d, %d) of a %dx%d matrix is used and never set' % (i, j, self.r, self.c))
        return self.e[i, j]

    def whole(self):
        return all((i, j) in self.e for i in range(self.r) for j in range(self.c))


def identity(n):
    return Mat(n, n, lambda i, j: const(1 if i == j else 0))


def symbols(name, r=3, c=3):
    return Mat(r, c, lambda i, j: atom(('m', name, i, j)))


def prod(a, b):
    if a.c != b.r:
        raise Wrong('the product of a %dx%d and a %dx%d matrix' % (a.r, a.c, b.r, b.c))
    m = Mat(a.r, b.c)
    for i in range(a.r):
        for j in range(b.c):
            s = const(0)
            for k in range(a.c):
                s = s + a.get(i, k) * b.get(k, j)
            m.e[i, j] = s
    return m


class Inverse:
    """The inverse of a matrix, times another"""
    def __init__(self, of, times):
        self.of, self.times = of, times


class Ref:
    def __init__(self, m, i, j):
        self.m, self.i, self.j = m, i, j


class Path:
    def __init__(self, env, conds):
        self.env, self.conds = env, conds


class Walk:
    """Follows every path of a graph without loops of unknown length. Scalars are rational functions, matrices are kept by element.
    calls(node, args, walk) -> value or None gives the results of calls; conditions that are not constant are taken both ways."""

    def __init__(self, g, calls=None, leaf=None, limit=4000, maths=None):
        self.g = g
        self.calls = calls
        self.leaf = leaf
        self.paths = []     # (conditions [(term, truth)], result or None)
        self.limit = limit
        self.steps = 0
        self.decided = None
        self.results = {}   # temporary -> call that gives it

    def run(self):
        self.go(self.g.entry, {}, [])
        if not self.paths:
            raise Wrong('the function never returns')
        return self.paths

    def clone(self, env):
        seen = {}

        def c(v):
            if isinstance(v, Mat):
                if id(v) not in seen:
                    seen[id(v)] = v.copy()
                return seen[id(v)]
            if isinstance(v, Ref):
                return Ref(c(v.m), v.i, v.j)
            return v
        return {k: c(v) for k, v in env.items()}

    def go(self, n, env, conds):
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Unknown('too long')
            if n is self.g.exit:
                self.paths.append((conds, None, env))
                return
            if n is getattr(self.g, 'excexit', None) or n.k == 'excexit':
                return
            if n.k == 'throw':
                return
            if n.k == 'ret':
                x = n.d.get('x')
                self.paths.append((conds, self.value(x, env) if x is not None else None, env))
                return
            if n.k == 'br':
                c = self.truth(n.d['cond'], env)
                if c is None:
                    for t, v in conds:
                        if t == n.d['cond']:
                            c = v
                            break
                if c is None:
                    for s, l in n.succ[1:]:
                        self.go(s, self.clone(env), conds + [(n.d['cond'], l)])
                    s, l = n.succ[0]
                    conds = conds + [(n.d['cond'], l)]
                    n = s
                    continue
                n = [s for s, l in n.succ if l == c][0]
                continue
            self.node(n, env)
            if not n.succ:
                return
            n = n.succ[0][0]

    def node(self, n, env):
        if n.k == 'assign':
            lhs = n.lhs
            cur = env.get(lhs)
            v = self.try_value(n.rhs, env)
            if isinstance(cur, Ref) and not n.d.get('decl') and not n.d.get('bind'):
                if not isinstance(v, Rat):
                    raise Unknown('an element is set to %s' % show(n.rhs))
                cur.m.e[cur.i, cur.j] = v
                return
            if isinstance(v, Mat) and not n.d.get('bind') and not n.d.get('retval'):
                v = v.copy()
            self.forget(env, lhs)
            if v is not None:
                env[lhs] = v
            return
        if n.k == 'call':
            args = [self.try_value(a, env) for a in n.args]
            q = n.q.split('<')[0]
            name = n.q.split('::')[-1]
            obj = self.try_value(n.obj, env) if n.obj is not None else None
            r = self.calls(n, args, obj, self, env) if self.calls else None
            if r is None:
                r = self.known(n, name, args, obj, env)
            if n.dst is not None:
                self.results[n.dst] = n
                self.forget(env, n.dst)
                if r is not None:
                    env[n.dst] = r
            return

    def forget(self, env, t):
        for k in [k for k in env if k == t or (len(k) > 1 and k[0] in ('mem', 'idx', 'at') and k[1] == t)]:
            del env[k]

    def known(self, n, name, args, obj, env):
        q = n.q
        ctor = n.d.get('ctor') or ''
        if ctor.startswith('boost::numeric::ublas::'):
            kind = ctor.split('::')[3].split('<')[0]
            if len(args) == 1 and isinstance(args[0], (Mat, Inverse)):
                return args[0].copy() if isinstance(args[0], Mat) else args[0]
            dims = [int(a.value()) if isinstance(a, Rat) and a.value() is not None else None for a in args]
            if kind == 'identity_matrix' and dims and dims[0]:
                return identity(dims[0])
            if kind == 'zero_matrix' and len(dims) == 2 and None not in dims:
                return Mat(dims[0], dims[1], lambda i, j: const(0))
            if kind in ('matrix', 'bounded_matrix') and len(dims) == 2 and None not in dims:
                return Mat(dims[0], dims[1])
            if kind in ('scalar_matrix', 'matrix') and len(args) == 3 and None not in dims[:2]:
                return Mat(dims[0], dims[1], lambda i, j: args[2])
            if kind == 'permutation_matrix':
                return ('perm',)
            return None
        if 'ublas' in q:
            if name == 'operator()' and isinstance(obj, Mat) and len(args) == 2:
                i, j = [a.value() if isinstance(a, Rat) else None for a in args]
                if i is None or j is None:
                    raise Unknown('an element at %s' % ', '.join(show(a) for a in n.args))
                if not (0 <= i < obj.r and 0 <= j < obj.c):
                    raise Wrong('element (%d, %d) of a %dx%d matrix is used' % (i, j, obj.r, obj.c))
                return Ref(obj, int(i), int(j))
            if name == 'prod' and len(args) >= 2 and isinstance(args[0], Mat) and isinstance(args[1], Mat):
                return prod(args[0], args[1])
            if name == 'trans' and isinstance(args[0], Mat):
                return Mat(args[0].c, args[0].r, lambda i, j: args[0].get(j, i))
            if name in ('size1', 'size2'):
                m = obj[1] if isinstance(obj, tuple) and obj and obj[0] == 'lu' else obj
                if isinstance(m, Mat):
                    return const(m.r if name == 'size1' else m.c)
            if name == 'assign' and isinstance(obj, Mat) and isinstance(args[0], Mat):
                if (obj.r, obj.c) != (args[0].r, args[0].c):
                    raise Wrong('a %dx%d matrix is assigned a %dx%d matrix' % (obj.r, obj.c, args[0].r, args[0].c))
                obj.e = dict(args[0].e)
                return None
            if name == 'operator=' and isinstance(obj, Mat) and isinstance(args[0], Mat):
                obj.e = dict(args[0].e)
                obj.r, obj.c = args[0].r, args[0].c
                return obj
            if name == 'clear' and isinstance(obj, Mat):
                for i in range(obj.r):
                    for j in range(obj.c):
                        obj.e[i, j] = const(0)
                return None
            if name == 'lu_factorize' and isinstance(args[0], Mat):
                self.set(n.args[0], ('lu', args[0].copy(), n.args[1] if len(n.args) > 1 else None), env)
                return const(0)     # there is an inverse, or nothing can be said
            if name == 'lu_substitute' and isinstance(args[0], tuple) and args[0][0] == 'lu':
                pm = args[0][2]
                if (n.args[1] if len(n.args) > 2 else None) != pm:
                    raise Unknown('factorised and substituted with different permutations')
                x = args[-1]
                if isinstance(x, Mat):
                    self.set(n.args[-1], Inverse(args[0][1], x.copy()), env)
                    return None
            raise Unknown('a call of %s' % q)
        return None

    def set(self, t, v, env):
        if t[0] in ('addr', 'cast'):
            t = t[1] if t[0] == 'addr' else t[2]
        env[t] = v

    def truth(self, t, env):
        if t[0] == 'not':
            r = self.truth(t[1], env)
            return None if r is None else not r
        if t[0] == 'const':
            return bool(t[1])
        if t[0] == 'bin' and t[1] in ('<', '<=', '>', '>=', '==', '!='):
            a, b = self.try_value(t[2], env), self.try_value(t[3], env)
            if isinstance(a, Rat) and isinstance(b, Rat):
                x, y = a.value(), b.value()
                if x is not None and y is not None:
                    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[t[1]]
        return None

    def try_value(self, t, env):
        try:
            return self.value(t, env)
        except Unknown:
            return None

    def value(self, t, env):
        if t in env:
            v = env[t]
            if isinstance(v, Ref):
                return v.m.get(v.i, v.j)
            return v
        if self.leaf:
            r = self.leaf(t, env, self)
            if r is not None:
                return r
        k = t[0]
        if k in ('const', 'float') and isinstance(t[1], (int, float)):
            return const(t[1])
        if k == 'cast':
            return self.value(t[2], env)
        if k in ('deref', 'addr') and t[1] in env:
            return self.value(t[1], env)
        if k == 'bin' and t[1] in ('+', '-', '*', '/'):
            a, b = self.value(t[2], env), self.value(t[3], env)
            if isinstance(a, Rat) and isinstance(b, Rat):
                return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[t[1]](b)
            raise Unknown(show(t))
        if k == 'un' and t[1] == '-':
            return const(0) - self.value(t[2], env)
        if k in ('mem',):
            return atom(t)
        if k == 'idx' or k == 'at':
            b = self.try_value(t[1], env)
            i = self.try_value(t[2], env)
            if isinstance(b, dict) and isinstance(i, Rat) and i.value() is not None and int(i.value()) in b:
                return b[int(i.value())]
        raise Unknown(show(t))
