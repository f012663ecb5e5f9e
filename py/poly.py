"""Normal forms of arithmetic value terms.

A term becomes a polynomial: a dict from monomials (sorted tuples of (atom, exponent)) to
rational coefficients.  Exponents may be negative; a division by something with more than
one monomial makes an atom of the divisor's normal form.  Two terms with the same normal
form have the same value (up to rounding)."""

from fractions import Fraction

FLOATS = ('double', 'float', 'long double')


def const(v):
    return {} if v == 0 else {(): Fraction(v) if not isinstance(v, float) else Fraction(repr(v))}


def atom(a, e=1):
    return {((a, e),): Fraction(1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mono(m, n):
    d = {}
    for a, e in m + n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono(m, n)
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def key(p):
    return tuple(sorted(p.items(), key=repr))


def inverse(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(((a, -e) for a, e in m), key=repr)): 1 / c}
    if not p:
        return atom(('inf',))
    # factor out the leading coefficient so that proportional divisors agree
    k = key(p)
    lead = k[0][1]
    return scale(atom(('sum', key(scale(p, 1 / lead))), -1), 1 / lead)


def value(p):
    """The value of a constant polynomial, else None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def is_float(t, types):
    k = t[0]
    if k == 'float':
        return True
    if k == 'const':
        return False
    if k == 'cast':
        return t[1] in FLOATS
    if k == 'bin' and t[1] in ('+', '-', '*', '/'):
        return is_float(t[2], types) or is_float(t[3], types)
    if k == 'un':
        return is_float(t[2], types)
    ty = types(t) if types else None
    if ty is None:
        return True
    return ty.replace('const ', '').strip() in FLOATS


class Normal:
    def __init__(self, leaf=None, types=None):
        """leaf(term) -> a polynomial, or None to treat the term as an atom; types(term) -> type name or None"""
        self.leaf = leaf or (lambda t: None)
        self.types = types

    def __call__(self, t):
        r = self.leaf(t)
        if r is not None:
            return r
        k = t[0]
        if k in ('const', 'float') and isinstance(t[1], (int, float)):
            return const(t[1])
        if k == 'enum':
            return atom(t)
        if k == 'un' and t[1] == '-':
            return scale(self(t[2]), -1)
        if k == 'cast':
            inner = self(t[2])
            if t[1] in FLOATS or not is_float(t[2], self.types):
                return inner
            v = value(inner)
            if v is not None:
                return const(int(v))
            return atom(('trunc', key(inner)))
        if k == 'bin':
            op = t[1]
            if op in ('+', '-'):
                return add(self(t[2]), self(t[3]), 1 if op == '+' else -1)
            if op == '*':
                return mul(self(t[2]), self(t[3]))
            if op == '/':
                p, q = self(t[2]), self(t[3])
                if is_float(t[2], self.types) or is_float(t[3], self.types):
                    return mul(p, inverse(q))
                return atom(('idiv', key(p), key(q)))
            if op == '<<' and t[3][0] == 'const':
                return scale(self(t[2]), 2 ** t[3][1])
            p, q = self(t[2]), self(t[3])
            return atom(('op' + op, key(p), key(q)))
        if k == 'call':
            name = t[1].replace('std::', '').lstrip(':')
            if t[2] is None:
                r = self.maths(name, t[3])
                if r is not None:
                    return r
            args = tuple(key(self(a)) for a in t[3])
            if t[2] is None:
                return atom(('call', name, args))
        return atom(t)


    def maths(self, name, args):
        """Functions that are brought to pow() and natural logarithms"""
        name = name[:-1] if name in ('powf', 'sqrtf', 'expf', 'logf', 'log10f', 'log2f', 'powl', 'sqrtl', 'log10l') else name
        if name == 'sqrt' and len(args) == 1:
            return power(self(args[0]), const(Fraction(1, 2)))
        if name == 'cbrt' and len(args) == 1:
            return power(self(args[0]), const(Fraction(1, 3)))
        if name == 'pow' and len(args) == 2:
            return power(self(args[0]), self(args[1]))
        if name in ('exp2', 'exp10') and len(args) == 1:
            return power(const(int(name[3:])), self(args[0]))
        if name in ('log10', 'log2') and len(args) == 1:
            return mul(call('log', rounded(self(args[0]))), atom(('call', 'log', (key(const(int(name[3:]))),)), -1))
        if name == 'log' and len(args) == 1:
            return call('log', rounded(self(args[0])))
        return None


def call(name, *args):
    return atom(('call', name, tuple(key(a) for a in args)))


def power(x, y):
    v = value(y)
    if v is not None and v.denominator == 1 and abs(v) <= 4:
        r = const(1)
        for i in range(abs(int(v))):
            r = mul(r, x)
        return r if v >= 0 else inverse(r)
    return call('pow', rounded(x), rounded(y))


def rounded(p, digits=10):
    """With coefficients to some number of significant digits, here and inside the atoms"""
    def inner(x):
        if isinstance(x, Fraction):
            return Fraction(repr(float('%.*g' % (digits, float(x)))))
        if isinstance(x, tuple):
            return tuple(inner(i) for i in x)
        return x
    r = {}
    for m, c in p.items():
        r = add(r, {tuple((inner(a), e) for a, e in m): inner(c)})
    return r


def substitute(p, f):
    """Replace atoms: f(atom) -> polynomial or None; goes into calls and sums"""
    def one(a):
        r = f(a)
        if r is not None:
            return r
        if a[0] == 'call' and len(a) == 3 and isinstance(a[2], tuple):
            args = [substitute(dict(i), f) for i in a[2]]
            if a[1] == 'pow' and len(args) == 2:
                return power(*args)
            return call(a[1], *[rounded(i) for i in args])
        if a[0] == 'sum':
            return substitute(dict(a[1]), f)
        if a[0] == 'trunc':
            return atom(('trunc', key(substitute(dict(a[1]), f))))
        if a[0] in ('idiv',) or (isinstance(a[0], str) and a[0].startswith('op')):
            return atom((a[0], key(substitute(dict(a[1]), f)), key(substitute(dict(a[2]), f))))
        return atom(a)
    out = {}
    for m, c in p.items():
        t = const(1)
        for a, e in m:
            x = one(a)
            if e < 0:
                x = inverse(x)
            if e == int(e):
                for i in range(abs(int(e))):
                    t = mul(t, x)
            else:
                t = mul(t, power(x, const(abs(e))))
        out = add(out, scale(t, c))
    return out


def atoms(p):
    """All atoms, also those inside calls and sums"""
    for m in p:
        for a, e in m:
            yield a
            if a[0] == 'call' and len(a) == 3 and isinstance(a[2], tuple):
                for i in a[2]:
                    yield from atoms(dict(i))
            elif a[0] in ('sum', 'trunc'):
                yield from atoms(dict(a[1]))
            elif a[0] == 'idiv' or (isinstance(a[0], str) and a[0].startswith('op') and len(a) == 3):
                yield from atoms(dict(a[1]))
                yield from atoms(dict(a[2]))


def linear(p, a):
    """(coefficient, rest) if p is linear in the atom a with a constant coefficient, else None"""
    k, rest = Fraction(0), {}
    for m, c in p.items():
        d = dict(m)
        if a in d:
            if m != ((a, 1),):
                return None
            k = c
        else:
            if a in list(atoms({m: c})):
                return None
            rest[m] = c
    return k, rest


def equal(p, q, tol=1e-9):
    p, q = rounded(p), rounded(q)
    ks = set(p) | set(q)
    for m in ks:
        a, b = p.get(m, 0), q.get(m, 0)
        if a != b and abs(a - b) > tol * max(abs(a), abs(b)):
            return False
    return True


def show(p):
    from cfg import show as show_term
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr):
        f = []
        if c != 1 or not m:
            f.append(str(c) if c.denominator == 1 else '%g' % float(c))
        for a, e in m:
            s = show_term(a) if a and a[0] in ('mem', 'var', 'gvar', 'deref', 'enum') else '<%s>' % (a[0] if len(a) else '')
            if a[0] == 'call' and len(a) == 3 and isinstance(a[2], tuple):
                s = '%s(%s)' % (a[1], ', '.join(show(dict(i)) for i in a[2]))
            elif a[0] == 'sum':
                s = '(%s)' % show(dict(a[1]))
            f.append(s if e == 1 else '%s^%s' % (s, e))
        out.append('*'.join(f))
    return ' + '.join(out)
