"""Evaluation of comparison functions over a finite domain of orderings.

A comparison function of two objects A and B of the same class touches their contents only
through comparisons of a part of A with the corresponding part of B.  Each such part is a
key; fixing for every key whether A's is less than, equal to or greater than B's determines
the result.  The function's flow graph is evaluated (conditional constant propagation) once
for every assignment of orderings that matters."""

import itertools

import absint
import cfg
import ir
from absint import Eval, T, F
from cfg import replace, subterms

A = ('A',)
B = ('B',)


def swap(t):
    return replace(t, lambda x: B if x == A else A if x == B else x)


COMM = ('+', '*', '&', '|', '^')


def canon(t):
    def f(x):
        if x[0] == 'bin' and x[1] in COMM and repr(x[3]) < repr(x[2]):
            return ('bin', x[1], x[3], x[2])
        if x[0] == 'dyn':
            return x[2]
        if x[0] == 'cast':
            return x[2]
        if x[0] == 'addr' and x[1][0] == 'deref':
            return x[1][1]
        if x[0] == 'deref' and x[1][0] == 'addr':
            return x[1][1]
        if x[0] in ('idx', 'iter') or (x[0] == 'at' and x[2][0] != 'enum'):
            return ('elem', x[1])
        if x[0] == 'enditer':
            return ('enditer', x[1])
        if x[0] == 'deref' and x[1][0] == 'elem':
            return x[1]
        return x
    return replace(t, f)


def roots(t):
    return {x for x in subterms(t) if x in (A, B)}


def fields(t, aliases=None):
    """First-level members of A/B that the term depends on; '*' if it depends on an opaque view of the whole object"""
    out = set()

    def go(x):
        if x in (A, B):
            out.add('*')
            return
        if x[0] == 'mem' and x[1] in (A, B):
            out.add(x[2])
            return
        if x[0] == 'mem' and x[1][0] == 'callf' and x[1][2] in (A, B):
            # member of a view of the object, e.g. the object converted to UTC
            out.add(x[2])
            return
        if x[0] == 'callf' and x[2] in (A, B):
            enums = [i[1] for i in x[3:] if isinstance(i, tuple) and i[0] == 'enum']
            if enums:
                out.update(enums)
            else:
                m = x[1].split('::')[-1]
                out.add('*')
                out.add(m + '()')
            return
        if x[0] == 'at' and x[1][0] == 'mem' and x[1][1] in (A, B) and x[2][0] == 'enum':
            out.add(x[2][1])
            return
        for i in x[1:]:
            if isinstance(i, tuple):
                if i and isinstance(i[0], str):
                    go(i)
                else:
                    for j in i:
                        if isinstance(j, tuple):
                            go(j)
    go(t)
    return out


def flatten_call(t):
    """calls keep their arguments in a nested tuple; make subterms() see them"""
    def f(x):
        if x[0] == 'call' and len(x) == 4 and isinstance(x[3], tuple) and not (x[3] and isinstance(x[3][0], str)):
            return ('callf', x[1], x[2] if x[2] is not None else ('none',)) + tuple(norm(i) for i in x[3])
        return x
    return replace(t, f)


def norm(t):
    return canon(flatten_call(t))


def bare(t):
    """t without dereferences: which object is meant, however it is reached"""
    return norm(replace(t, lambda x: x[1] if x[0] in ('deref', 'addr') else x))


ABS = ('std::abs', 'std::fabs', 'fabs', 'fabsf', 'abs', 'fabsl', 'labs')


# members which are the dividend of a ratio
DIVIDEND = ('e', 'numerator')


def R_in(t, r):
    return any(x == r for x in subterms(t))


class RelEval(Eval):
    """signs: function key -> set of possible signs (A relative to B)"""

    def __init__(self, g, signs, env, **kw):
        self.signs = signs
        self.keys = {}
        self.unlike = []
        super().__init__(g, oracle=self.ask, env=env, **kw)
        self.node = None

    def step(self, n, env):
        self.node = n
        return super().step(n, env)

    def key(self, x, y):
        """(canonical key, +1/-1) if x and y are the same part of A and B"""
        x = norm(x)
        y = norm(y)
        if not roots(x) or not roots(y):
            return None
        if norm(swap(x)) != y:
            return None
        if x == y:
            return None
        if roots(x) == {A}:
            return (x, 1)
        if roots(x) == {B}:
            return (y, -1)
        # products of parts of both: the one with A's dividend is A's side
        for f in DIVIDEND:
            for t, u, s in ((x, y, 1), (y, x, -1)):
                if any(m[0] == 'mem' and m[2] == f and R_in(m, A) for m in subterms(t)) and not any(m[0] == 'mem' and m[2] == f and R_in(m, A) for m in subterms(u)):
                    return (t, s)
        return (x, 1) if repr(x) <= repr(y) else (y, -1)

    def ask(self, kind, x, y):
        if kind == 'cmp':
            if x[0] == 'big' or y[0] == 'big':
                if x[0] == y[0]:
                    return {-1, 0, 1}
                return {x[1]} if x[0] == 'big' else {-y[1]}
            if x == ('zerodiff',) and y[0] != 'const' and y[0] != 'float':
                return {-1}
            if y == ('zerodiff',) and x[0] != 'const' and x[0] != 'float':
                return {1}
            if x == ('zerodiff',):
                return {(0 > y[1]) - (0 < y[1])}
            if y == ('zerodiff',):
                return {(x[1] > 0) - (x[1] < 0)}
            k = self.key(x, y)
            if k is None:
                nx, ny = norm(x), norm(y)
                rx, ry = roots(nx), roots(ny)
                if len(rx) == 1 and len(ry) == 1 and rx != ry:
                    # iterators against ends and sizes against indices are not value comparisons
                    if not any(s[0] in ('enditer', 'size') for t in (nx, ny) for s in subterms(t)):
                        self.unlike.append((self.node, nx, ny))
                # mixed call results, e.g. memcmp (a, b, n) == 0
                for t, o, sg in ((nx, ny, 1), (ny, nx, -1)):
                    if roots(t) == {A, B} and o[0] == 'const' and t[0] == 'callf':
                        s = self.call_signs(t)
                        if s is not None and o[1] == 0:
                            return {i * sg for i in s}
                return None
            self.keys.setdefault(k[0], self.node)
            s = self.signs(k[0])
            if s is None:
                return None
            return {i * k[1] for i in s}
        if kind == 'atom':
            nx = norm(x)
            if roots(nx) == {A, B} and nx[0] == 'callf':
                s = self.call_signs(nx)
                if s is not None:
                    # a predicate about both: true when they agree
                    return {i == 0 for i in s}
            return None
        return None

    def call_signs(self, t):
        """A call given parts of both objects: f(A.x, B.x)"""
        sw = norm(swap(t))
        parts = [p for p in t[2:] if isinstance(p, tuple) and roots(p)]
        a = [p for p in parts if roots(p) == {A}]
        b = [p for p in parts if roots(p) == {B}]
        if not a or not b:
            return None
        key = ('pair', t[1], a[0] if len(a) == 1 else ('tuple',) + tuple(a))
        self.keys.setdefault(key, self.node)
        sa = {bare(swap(x)) for x in a}
        sb = {bare(x) for x in b}
        fa = {f for x in a for f in fields(x) if not f.endswith('()') and f != '*'}
        fb = {f for x in b for f in fields(x) if not f.endswith('()') and f != '*'}
        if not (sb <= sa or sa & sb) and fa and fb and not fa & fb:
            self.unlike.append((self.node, a[0], b[0]))
        return self.signs(key)

    def ev_un(self, op, x):
        return ('big', -x[1]) if x[0] == 'big' and op == '-' else x if x[0] == 'zerodiff' else ('un', op, x)

    def binop(self, op, x, y):
        if op == '-' and x != absint.TOP and y != absint.TOP:
            k = self.key(x, y)
            if k is not None:
                self.keys.setdefault(k[0], self.node)
                s = self.signs(k[0])
                if s is not None:
                    return {('zerodiff',) if i == 0 else ('big', i * k[1]) for i in s}
        return super().binop(op, x, y)

    def product(self, k, q, objs, args, env):
        r = super().product(k, q, objs, args, env)
        if next(iter(q[0])) in ABS:
            out = set()
            for t in r:
                if t[0] == 'call' and len(t) == 4 and t[3] and t[3][0][0] in ('big', 'zerodiff'):
                    out.add(('big', 1) if t[3][0][0] == 'big' else t[3][0])
                else:
                    out.add(t)
            return frozenset(out)
        return r

    def ev(self, t, env):
        if t[0] == 'dyn':
            return self.ev(t[2], env)
        if t[0] == 'un' and t[1] == '-':
            return self.cap(set(self.ev_un('-', x) for x in self.ev(t[2], env)))
        return super().ev(t, env)

    def nonnull(self, x):
        n = norm(x)
        k = None
        if roots(n) == {A} or roots(n) == {B}:
            if n in (A, B) or (n[0] == 'addr' and n[1] in (A, B)):
                return {T}
        return super().nonnull(x)


def bool_set(ev):
    """Possible boolean results"""
    out = set()
    for r in ev.returns:
        if r == T:
            out.add(True)
        elif r == F:
            out.add(False)
        elif r[0] == 'const':
            out.add(bool(r[1]))
        else:
            q = None
            if r[0] in ('call', 'bin', 'nonnull', 'not'):
                t = r
                neg = False
                if t[0] == 'not':
                    neg = True
                    t = t[1]
                q = ev.ask('atom', t, None)
                if q is not None:
                    out |= {(not i) if neg else i for i in q}
                    continue
            out |= {True, False}
    return out


def ast_size(x):
    n = 0
    for _ in ir.walk(x):
        n += 1
    return n


_sizes = {}


def size(fn):
    if fn.key not in _sizes:
        _sizes[fn.key] = ast_size(fn.body)
    return _sizes[fn.key]


def is_accessor(fn):
    b = fn.body
    while b is not None and b['s'] == 'block' and len(b['b']) == 1:
        b = b['b'][0]
    return b is not None and b['s'] == 'return' and size(fn) <= 40


def policy(cls_names, prog):
    """Callees to look into when evaluating a comparison of objects of the given class (and its bases)"""
    def inline(callee, caller, depth):
        if callee.d.get('op') in cfg.REL:
            return operand_class(callee) in cls_names
        if callee.kind == 'ctor' or callee.kind == 'dtor':
            return False
        if callee.cls in cls_names:
            if any(strip(callee.type(p['t'])) in cls_names for p in callee.params):
                return True
            # accessors
            return len(callee.params) <= 1 and is_accessor(callee)
        if callee.cls is None:
            # free helpers
            return callee.file.startswith('src/') and (bool(callee.d.get('internal')) or size(callee) < 60 or bool(callee.d.get('inst')))
        return len(callee.params) == 0 and is_accessor(callee)
    return inline


def strip(t):
    t = t.replace('const ', '').replace('&', '').replace('*', '').strip()
    for p in ('std::shared_ptr<', 'boost::optional<'):
        if t.startswith(p):
            t = t[len(p):-1]
    return t.strip()


def operand_class(fn):
    return fn.cls or strip(fn.type(fn.params[0]['t']))


class Relation:
    """A comparison function prepared for evaluation"""

    def __init__(self, prog, fn, policy, arguments=False):
        self.prog = prog
        self.fn = fn
        self.g = cfg.Graph(prog, fn, policy=policy)
        self.env = {}
        ps = list(self.g.params)
        if fn.cls and not fn.d.get('static') and not arguments:
            self.env[('deref', ('this',))] = A
            self.env[('this',)] = ('addr', A)
            self.env[ps[0]] = B if not self.is_pointer(fn, 0) else ('addr', B)
        else:
            self.env[ps[0]] = A if not self.is_pointer(fn, 0) else ('addr', A)
            self.env[ps[1]] = B if not self.is_pointer(fn, 1) else ('addr', B)

    def is_pointer(self, fn, i):
        t = fn.type(fn.params[i]['t'])
        return t.endswith('*') or 'shared_ptr<' in t.split('(')[0]

    def run(self, signs):
        e = RelEval(self.g, signs, self.env, unroll=2)
        e.run()
        return e

    def discover(self):
        """All keys, by letting every comparison go either way"""
        e = self.run(lambda k: {-1, 0, 1})
        return e
