"""Paths through functions that calculate with numbers.

Every path of a function without loops is followed with polynomials (see poly) for its numbers, and structures of them; a call of a
function of the library is followed too.  The outcome is a list of paths: the conditions under which each is taken, what it returns and
the structures that it leaves behind.  Functions like floor() and division of integers become atoms, which `number` can give the value of."""

import math

import poly
from ir import AnalysisBroken


class Unknown(Exception):
    pass


class Record(dict):
    def copy(self):
        return Record((k, v.copy() if isinstance(v, Record) else v) for k, v in self.items())


class Other:
    """Something that is not a number"""

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Other) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


FLOATS = ('double', 'float', 'long double')
ROUNDING = {'floor': 'floor', 'floorf': 'floor', 'ceil': 'ceil', 'ceilf': 'ceil', 'round': 'round', 'roundf': 'round', 'lround': 'round', 'lroundf': 'round', 'llround': 'round', 'llroundf': 'round',
            'lrint': 'round', 'lrintf': 'round', 'llrint': 'round', 'llrintf': 'round', 'rint': 'round', 'rintf': 'round', 'nearbyint': 'round', 'nearbyintf': 'round', 'trunc': 'trunc', 'truncf': 'trunc'}


def key(v):
    if isinstance(v, Record):
        return tuple(sorted((k, key(x)) for k, x in v.items()))
    if isinstance(v, Other):
        return v.key
    return poly.key(v)


def strip(x):
    while isinstance(x, dict) and x.get('e') in ('icast', 'cast', 'paren', 'definit', 'defarg', 'tmp', 'full') and isinstance(x.get('x'), dict):
        x = x['x']
    return x


class Path:
    def __init__(self, vars, facts):
        self.vars = vars
        self.facts = facts

    def copy(self):
        return Path({k: v.copy() if isinstance(v, Record) else v for k, v in self.vars.items()}, list(self.facts))


class Paths:
    """special(engine, x, path) -> list of (value, path), or None"""

    def __init__(self, prog, special=None, limit=4000):
        self.prog = prog
        self.special = special
        self.left = limit
        self.stack = []
        self.functions = set()

    @property
    def f(self):
        return self.stack[-1]

    def run(self, f, args, this=None, path=None):
        """-> list of (returned value, this, path)"""
        if f.body is None or len(self.stack) > 6 or f in self.stack:
            raise Unknown('call of %s' % f.q)
        self.functions.add(f)
        outer = path or Path({}, [])
        p = Path({}, list(outer.facts))
        for q, a in zip(f.params, args):
            p.vars[q.get('id')] = a.copy() if isinstance(a, Record) else a
        if this is not None:
            p.vars['this'] = this.copy() if isinstance(this, Record) else this
        self.stack.append(f)
        try:
            live = [p]
            for i in f.inits or []:
                new = []
                for p in live:
                    if not i.get('f'):
                        raise Unknown('a constructor of a base')
                    for v, q in self.ev(i['x'], p):
                        q.vars['this'][i['f']] = v
                        new.append(q)
                live = new
            done = []
            for p in live:
                ends, rets = self.stmt(f.body, p)
                done += rets + [(None, q) for q in ends]
        finally:
            self.stack.pop()
        out = []
        for v, q in done:
            r = outer.copy()
            r.facts = q.facts
            out.append((v, q.vars.get('this'), r))
        return out

    # statements: -> (paths that go on, [(value, path) that return])

    def stmt(self, s, p):
        self.left -= 1
        if self.left < 0:
            raise Unknown('too many paths')
        if s is None:
            return [p], []
        if isinstance(s, list) or s.get('s') == 'block':
            live, rets = [p], []
            for y in (s if isinstance(s, list) else s.get('b', [])):
                new = []
                for q in live:
                    a, b = self.stmt(y, q)
                    new += a
                    rets += b
                live = new
            return live, rets
        k = s.get('s')
        if k is None or k == 'expr':
            return [q for v, q in self.ev(s['x'] if k else s, p)], []
        if k in ('null', 'empty'):
            return [p], []
        if k == 'decl':
            if s.get('x') is None:
                p.vars[s.get('id')] = Other('nothing')
                return [p], []
            out = []
            for v, q in self.ev(s['x'], p):
                q.vars[s.get('id')] = v.copy() if isinstance(v, Record) else v
                out.append(q)
            return out, []
        if k == 'return':
            if s.get('x') is None:
                return [], [(None, p)]
            return [], [(v.copy() if isinstance(v, Record) else v, q) for v, q in self.ev(s['x'], p)]
        if k == 'if':
            live, rets = [], []
            for q, t in self.branch(s['c'], p):
                a, b = self.stmt(s.get('x') if t else s.get('y'), q)
                live += a
                rets += b
            return live, rets
        raise Unknown('statement %s' % k)

    def branch(self, c, p):
        """-> [(path, whether true)]"""
        c = strip(c)
        e, op = c.get('e'), c.get('op')
        if e == 'un' and op == '!':
            return [(q, not t) for q, t in self.branch(c['x'], p)]
        if e == 'bin' and op in ('&&', '||'):
            out = []
            for q, t in self.branch(c['x'], p):
                out += self.branch(c['y'], q) if t == (op == '&&') else [(q, t)]
            return out
        if e == 'bool' or c.get('cv') is not None and e in ('int', 'bool'):
            return [(p, bool(c.get('cv')))]
        if e == 'bin' and op in ('<', '>', '<=', '>=', '==', '!='):
            out = []
            for a, q in self.ev(c['x'], p):
                for b, r in self.ev(c['y'], q):
                    if isinstance(a, dict) and isinstance(b, dict) and not isinstance(a, Record) and not isinstance(b, Record):
                        d = poly.add(a, b, -1)
                        whole = self.whole(c['x']) and self.whole(c['y'])
                        for t in (True, False):
                            z = r.copy()
                            if self.assume(z, d, op, t, whole):
                                out.append((z, t))
                    else:
                        for t in (True, False):
                            z = r.copy()
                            z.facts.append((('same', key(a), key(b)), op, t))
                            out.append((z, t))
            return out
        out = []
        for v, q in self.ev(c, p):
            if isinstance(v, Other) and v.key[0] == 'bool':
                out.append((q, v.key[1]))
                continue
            for t in (True, False):
                z = q.copy()
                z.facts.append((('is', key(v)), '!=', t))
                out.append((z, t))
        return out

    def assume(self, p, d, op, t, whole):
        v = poly.value(d)
        if v is not None:
            return {'<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op] == t
        if not t:
            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
        p.facts.append((d, op, whole))
        return True

    def whole(self, x):
        x = strip_implicit(x)
        return self.f.type(x['t']).replace('const ', '').strip() not in FLOATS if x.get('t') is not None else True

    # expressions: -> [(value, path)]

    def all(self, xs, p):
        out = [([], p)]
        for x in xs:
            out = [(vs + [v], r) for vs, q in out for v, r in self.ev(x, q)]
        return out

    def ev(self, x, p):
        self.left -= 1
        if self.left < -100000:
            raise Unknown('too much to do')
        if self.special is not None:
            r = self.special(self, x, p)
            if r is not None:
                return r
        e = x.get('e')
        if x.get('cv') is not None and e != 'enum':
            return [(poly.const(x['cv']), p)]
        if x.get('cf') is not None:
            return [(poly.const(float(x['cf'])), p)]
        m = getattr(self, 'e_' + str(e), None)
        if m is None:
            raise Unknown('expression %s' % e)
        return m(x, p)

    def e_icast(self, x, p):
        out = []
        for v, q in self.ev(x['x'], p):
            if x.get('kind') == 'FloatingToIntegral':
                v = self.truncated(v)
            out.append((v, q))
        return out
    e_cast = e_icast

    def truncated(self, v):
        if not isinstance(v, dict):
            raise Unknown('a number is expected')
        if all(c.denominator == 1 and all(n > 0 and self.integer(a) for a, n in m) for m, c in v.items()):
            return v
        return poly.atom(('call', 'trunc', (poly.key(v),)))

    def integer(self, a):
        return a[0] == 'whole' or a[0] == 'call' and a[1] in ('floor', 'ceil', 'round', 'trunc', 'idiv')

    def through(self, x, p):
        return self.ev(x['x'], p)
    e_definit = e_defarg = e_paren = e_tmp = e_full = through

    def e_enum(self, x, p):
        return [(Other('enum', x['q']), p)]

    def e_str(self, x, p):
        return [(Other('str', x.get('s')), p)]

    def e_this(self, x, p):
        return [(p.vars['this'], p)]

    def e_var(self, x, p):
        if x.get('id') not in p.vars:
            raise Unknown('variable %s' % x.get('n'))
        return [(p.vars[x['id']], p)]

    def e_mem(self, x, p):
        out = []
        for b, q in self.ev(x['b'], p):
            if not isinstance(b, Record) or x['f'] not in b:
                raise Unknown('member %s' % x['f'])
            out.append((b[x['f']], q))
        return out

    def e_throw(self, x, p):
        return []

    def e_cond(self, x, p):
        out = []
        for q, t in self.branch(x['c'], p):
            out += self.ev(x['x'] if t else x['y'], q)
        return out

    def store(self, t, v, p):
        t = strip(t)
        if t.get('e') == 'var':
            p.vars[t['id']] = v.copy() if isinstance(v, Record) else v
        elif t.get('e') == 'mem':
            (b, q), = self.ev(t['b'], p)
            if not isinstance(b, Record):
                raise Unknown('a member of something else')
            b[t['f']] = v.copy() if isinstance(v, Record) else v
        elif t.get('e') == 'un' and t.get('op') == '*' and strip(t['x']).get('e') == 'this':
            p.vars['this'] = v.copy()
        else:
            raise Unknown('where a value is put')

    def e_un(self, x, p):
        op = x.get('op')
        if op in ('*', '&'):
            return self.ev(x['x'], p)
        out = []
        for v, q in self.ev(x['x'], p):
            if not isinstance(v, dict) or isinstance(v, Record):
                raise Unknown('a number is expected')
            if op == '-':
                out.append((poly.scale(v, -1), q))
            elif op == '+':
                out.append((v, q))
            elif '++' in op or '--' in op:
                n = poly.add(v, poly.const(1), 1 if '++' in op else -1)
                self.store(x['x'], n, q)
                out.append((v if 'post' in op else n, q))
            else:
                raise Unknown('operator %s' % op)
        return out

    def arithmetic(self, op, a, b, whole):
        if not all(isinstance(v, dict) and not isinstance(v, Record) for v in (a, b)):
            raise Unknown('a number is expected')
        if op == '+':
            return poly.add(a, b)
        if op == '-':
            return poly.add(a, b, -1)
        if op == '*':
            return poly.mul(a, b)
        if op in ('/', '%') and whole:
            d = poly.atom(('call', 'idiv', (poly.key(a), poly.key(b))))
            return d if op == '/' else poly.add(a, poly.mul(d, b), -1)
        if op == '/':
            return poly.mul(a, poly.inverse(b))
        raise Unknown('operator %s' % op)

    def e_bin(self, x, p):
        op = x['op']
        if op == ',':
            return [r for v, q in self.ev(x['x'], p) for r in self.ev(x['y'], q)]
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return [(Other('bool', t), q) for q, t in self.branch(x, p)]
        return [(self.arithmetic(op, a, b, self.whole(x['x']) and self.whole(x['y'])), r) for a, q in self.ev(x['x'], p) for b, r in self.ev(x['y'], q)]

    def e_asg(self, x, p):
        op = x['op']
        out = []
        for v, q in self.ev(x['y'], p):
            if op != '=':
                for old, r in self.ev(x['x'], q):
                    n = self.arithmetic(op[:-1], old, v, self.whole(x['x']) and self.whole(x['y']))
                    if self.whole(x['x']) and not self.whole(x['y']):
                        n = self.truncated(n)
                    self.store(x['x'], n, r)
                    out.append((n, r))
            else:
                self.store(x['x'], v, q)
                out.append((v, q))
        return out

    def args(self, x, p):
        return self.all([a for a in x.get('a', []) if isinstance(a, dict)], p)

    def e_ctor(self, x, p):
        out = []
        for a, q in self.args(x, p):
            f = self.prog.functions.get(x.get('fn'))
            if len(a) == 1 and isinstance(a[0], Record):
                out.append((a[0], q))
                continue
            if f is None or f.body is None:
                if len(a) == 1:
                    out.append((a[0], q))
                    continue
                raise Unknown('constructor %s' % x.get('fn'))
            out += [(t, r) for v, t, r in self.run(f, a, Record(), q)]
        return out

    def e_call(self, x, p):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        if q == 'boost::throw_exception':
            return []
        name = q.split('::')[-1]
        if name in ROUNDING and (q == name or q.startswith('std::')):
            return [(poly.atom(('call', ROUNDING[name], (poly.key(a[0]),))) if not self.truncated(a[0]) == a[0] else a[0], r) for a, r in self.args(x, p)]
        f = self.prog.functions.get(x.get('fn'))
        if op == '=' and isinstance(x.get('o'), dict):
            out = []
            for a, r in self.args(x, p):
                self.store(x['o'], a[0], r)
                out.append((a[0], r))
            return out
        if f is None or f.body is None or not x.get('in'):
            raise Unknown('call of %s' % q)
        out = []
        for o, r in (self.ev(x['o'], p) if isinstance(x.get('o'), dict) else [(None, p)]):
            for a, s in self.args(x, r):
                for v, t, u in self.run(f, a, o, s):
                    if o is not None and t is not None and key(t) != key(o):
                        y = strip(x['o'])
                        if y.get('e') == 'this':
                            u.vars['this'] = t
                        else:
                            self.store(x['o'], t, u)
                    out.append((v, u))
        return out


def strip_implicit(x):
    return x


def number(p, given):
    """The value of a polynomial for given values of its atoms (fractions)"""
    from fractions import Fraction
    t = Fraction(0)
    for m, c in p.items():
        for a, n in m:
            v = value(a, given)
            if v == 0 and n < 0:
                raise ZeroDivisionError
            c = c * v ** n
        t += c
    return t


def value(a, given):
    if a in given:
        return given[a]
    if a[0] == 'call':
        xs = [number(dict(k), given) for k in a[2]]
        if a[1] == 'floor':
            return math.floor(xs[0])
        if a[1] == 'ceil':
            return math.ceil(xs[0])
        if a[1] == 'round':
            return math.floor(abs(xs[0]) * 2 + 1) // 2 * (1 if xs[0] >= 0 else -1)
        if a[1] == 'trunc':
            return math.trunc(xs[0])
        if a[1] == 'idiv':
            return math.trunc(xs[0] / xs[1])
    if a[0] == 'sum':
        return number(dict(a[1]), given)
    raise Unknown('value of %s' % (a,))


def holds(facts, given):
    """Whether a path is taken for the given values; None if that is not known"""
    for d, op, t in facts:
        if not isinstance(d, dict):
            return None
        v = number(d, given)
        if not {'<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]:
            return False
    return True


class Prover:
    """Bounds of polynomials from facts about their atoms: sums of facts are facts"""

    def __init__(self, facts, positive, nonnegative=()):
        """facts: polynomials that are >= 0; positive: atoms that are > 0"""
        ones = [poly.const(1)] + [poly.atom(a) for a in positive] + [poly.atom(a, -1) for a in positive]
        factors = []
        for a in ones:
            for b in ones:
                f = poly.mul(a, b)
                if f not in factors:
                    factors.append(f)
        self.factors = factors
        self.positive = set(positive) | set(nonnegative)
        self.facts = []
        self.more(facts)

    def more(self, facts):
        for f in facts:
            for k in self.factors:
                g = poly.mul(f, k)
                if g and g not in self.facts:
                    self.facts.append(g)

    def proves(self, q, depth=5):
        """whether q >= 0"""
        bad = [m for m, c in q.items() if c < 0 or not all(a in self.positive or n % 2 == 0 for a, n in m)]
        if not bad:
            return True
        if not depth:
            return False
        m = min(bad, key=lambda m: (-len(m), repr(m)))
        c = q[m]
        for f in self.facts:
            if m in f and (f[m] < 0) == (c < 0):
                if self.proves(poly.add(q, f, -c / f[m]), depth - 1):
                    return True
        return False
