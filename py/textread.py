"""Reading of texts whose shape is known.

TextEval evaluates a function over abstract strings ('tmpl', chars...) whose characters are
  ('lit', c)               a known character
  ('dig', term, i, w)      digit i of the number term, which is printed with w digits
so that what a parser makes of "{year:4}-{month:2}" is decided for all values at once.
Values of leaf terms are bounded by intervals, which decide comparisons with constants.
"""

import absint
import poly
import text
from absint import T, F, TOP
from cfg import Graph, show

NPOS = -1        # as the extractor prints std::string::npos
BAD = ('opaque', 'bad number')

STD_BASES = {
    'boost::bad_lexical_cast': ['std::bad_cast', 'std::exception'],
    'std::bad_cast': ['std::exception'],
    'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::invalid_argument': ['std::logic_error', 'std::exception'],
    'std::logic_error': ['std::exception'],
    'std::runtime_error': ['std::exception'],
}


def chars(pieces):
    """Characters of a template, or None"""
    out = []
    for p in pieces:
        if p[0] in ('lit', 'dig'):
            out.append(p)
        elif p[0] == 'num' and p[2]:
            out += [('dig', p[1], i, p[2]) for i in range(p[2])]
        else:
            return None
    return out


def tmpl(cs):
    return ('tmpl',) + tuple(cs)


def lits(s):
    return [('lit', c) for c in s]


def digits(term, w):
    return [('dig', term, i, w) for i in range(w)]


def literal(t):
    """The text of a term which is a fixed string, or None"""
    if t[0] == 'str':
        return t[1]
    if t[0] == 'tmpl' and all(c[0] == 'lit' for c in t[1:]):
        return ''.join(c[1] for c in t[1:])
    return None


def as_tmpl(t):
    if t[0] == 'tmpl':
        return t
    if t[0] == 'str':
        return tmpl(lits(t[1]))
    return None


def number(cs):
    """The integer that a sequence of characters denotes, as a polynomial; BAD if it is none, None if not known"""
    cs = list(cs)
    sign = 1
    if cs and cs[0] in (('lit', '-'), ('lit', '+')):
        sign = -1 if cs[0][1] == '-' else 1
        cs = cs[1:]
    if not cs:
        return BAD
    total = {}
    i = 0
    while i < len(cs):
        c = cs[i]
        if c[0] == 'lit':
            if not c[1].isdigit():
                return BAD
            total = poly.add(poly.scale(total, 10), poly.const(int(c[1])))
            i += 1
            continue
        w = c[3]
        run = cs[i:i + w]
        if run != digits(c[1], w):
            # some of the digits only
            total = poly.add(poly.scale(total, 10), poly.atom(c))
            i += 1
            continue
        total = poly.add(poly.scale(total, 10 ** w), poly.atom(c[1]))
        i += w
    return poly.scale(total, sign)


def spelled(cs, leaf):
    """A leaf function for normal forms which takes the numbers spelled in a text apart into their digits, so that a number may be
    compared with one put together from some of its digits"""
    widths = dict((c[1], c[3]) for c in cs if c[0] == 'dig')
    plain = poly.Normal(leaf, lambda t: 'int')
    negated = {}
    for t in widths:
        p = plain(t)
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] != t and abs(k) == 1:
                negated[m[0][0]] = (t, k)

    def f(t):
        if t[0] == 'charof':
            return poly.add(f(('dig',) + t[1:]), poly.const(48))
        if t[0] == 'dig':
            p = plain(t[1])
            return {} if not p else poly.atom(t)
        sign = 1
        if t in negated:
            t, sign = negated[t]
        if t in widths:
            if not plain(t):
                return {}
            w = widths[t]
            out = {}
            for i in range(w):
                out = poly.add(out, poly.scale(poly.atom(('dig', t, i, w)), 10 ** (w - 1 - i)))
            return poly.scale(out, sign)
        return leaf(t)
    return f


def unpoly(p):
    """A polynomial of degree one as a term"""
    out = None
    for m, c in sorted(p.items(), key=repr):
        if c.denominator != 1 or len(m) > 1 or (m and m[0][1] != 1):
            return TOP
        x = ('const', int(c)) if not m else (m[0][0] if c == 1 else ('un', '-', m[0][0]) if c == -1 else ('bin', '*', ('const', int(c)), m[0][0]))
        out = x if out is None else ('bin', '+', out, x)
    return out if out is not None else ('const', 0)


class TextEval(absint.Summary):
    def __init__(self, g, oracle=None, env=None, bounds=None, **kw):
        """bounds(term) -> (lo, hi) or None for the leaf terms"""
        self.bounds = bounds or (lambda t: None)
        super().__init__(g, oracle or self.compare, env, call=TextEval.called, **kw)
        self.unknown = []
        self.escaped = set()
        self.lost = False

    # ---- comparisons

    def interval(self, t):
        if t[0] == 'const' and isinstance(t[1], int):
            return t[1], t[1]
        b = self.bounds(t)
        if b is not None:
            return b
        if t[0] == 'cast':
            return self.interval(t[2])
        if t[0] == 'un' and t[1] == '-':
            b = self.interval(t[2])
            return (-b[1], -b[0]) if b else None
        if t[0] == 'call' and t[1].split('::')[-1] == 'abs' and len(t[3]) == 1:
            b = self.interval(t[3][0])
            if b:
                return (0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1]))), max(abs(b[0]), abs(b[1]))
        if t[0] == 'bin' and t[1] in ('+', '-', '*'):
            x, y = self.interval(t[2]), self.interval(t[3])
            if x and y:
                if t[1] == '+':
                    return x[0] + y[0], x[1] + y[1]
                if t[1] == '-':
                    return x[0] - y[1], x[1] - y[0]
                ps = [a * b for a in x for b in y]
                return min(ps), max(ps)
        if t[0] == 'bin' and t[1] in ('/', '%') and t[3][0] == 'const' and isinstance(t[3][1], int) and t[3][1] > 0:
            x = self.interval(t[2])
            if x and x[0] >= 0:
                if t[1] == '/':
                    return x[0] // t[3][1], x[1] // t[3][1]
                return (0, min(x[1], t[3][1] - 1)) if x[1] >= t[3][1] else x
        if t[0] == 'charof':
            return 48, 57
        if t[0] == 'dig':
            return 0, 9
        return None

    def compare(self, kind, x, y):
        if kind != 'cmp':
            return None
        a, b = literal(x), literal(y)
        if a is not None and b is not None:
            return {(a > b) - (a < b)}
        tx, ty = as_tmpl(x), as_tmpl(y)
        if tx is not None and ty is not None:
            if tx == ty:
                return {0}
            if len(tx) != len(ty) or any(c != d and not self.may_match(c, d) for c, d in zip(tx[1:], ty[1:])):
                return {-1, 1}
            return {-1, 0, 1}
        if x == y:
            return {0}
        i, j = self.interval(x), self.interval(y)
        if i is None or j is None:
            return None
        out = set()
        if i[0] < j[1]:
            out.add(-1)
        if i[1] > j[0]:
            out.add(1)
        if i[0] <= j[1] and j[0] <= i[1]:
            out.add(0)
        return out

    def may_match(self, c, d):
        if c[0] == 'lit' and d[0] == 'lit':
            return c[1] == d[1]
        if c[0] == 'lit':
            return c[1].isdigit()
        if d[0] == 'lit':
            return d[1].isdigit()
        return True

    # ---- terms

    def char(self, c):
        return ('const', ord(c[1])) if c[0] == 'lit' else ('charof', c[1], c[2], c[3])

    def ev(self, t, env):
        if t[0] == 'size' and t not in env:
            out = set()
            for b in self.ev(t[1], env):
                b2 = as_tmpl(b)
                if b2 is not None:
                    out.add(('const', len(b2) - 1))
                else:
                    return super().ev(t, env)
            return self.cap(out)
        if t[0] == 'idx' and t not in env:
            bs = self.ev(t[1], env)
            if all(as_tmpl(b) is not None for b in bs):
                out = set()
                for b in bs:
                    b = as_tmpl(b)
                    for i in self.ev(t[2], env):
                        if i[0] == 'const' and 0 <= i[1] < len(b) - 1:
                            out.add(self.char(b[1 + i[1]]))
                        elif i[0] == 'const' and i[1] == len(b) - 1:
                            out.add(('const', 0))
                        else:
                            out.add(TOP)
                return self.cap(out)
        if t[0] == 'bin' and t[1] == '+':
            xs, ys = self.ev(t[2], env), self.ev(t[3], env)
            if all(x[0] == 'tmpl' for x in xs) and all(as_tmpl(y) is not None for y in ys):
                return self.cap(set(tmpl(x[1:] + as_tmpl(y)[1:]) for x in xs for y in ys))
        return super().ev(t, env)

    def chars_of(self, x):
        return list(x[1:])

    def called(self, n, env):
        """Hook: the value of a call, or None"""
        q = n.q
        m = q.split('::')[-1]
        if n.d.get('ctor'):
            if 'basic_string' in q and len(n.args) >= 3:
                # string(other, pos, length)
                pass
            return None
        if q.split('::')[-1] in ('min', 'max') and n.obj is None and len(n.args) == 2:
            xs, ys = self.ev(n.args[0], env), self.ev(n.args[1], env)
            out = set()
            for x in xs:
                for y in ys:
                    i, j = self.interval(x), self.interval(y)
                    if i is None or j is None:
                        return None
                    f = min if m == 'min' else max
                    if i[0] == i[1] and j[0] == j[1]:
                        out.add(('const', f(i[0], j[0])))
                    elif i[1] <= j[0]:
                        out.add(x if m == 'min' else y)
                    elif j[1] <= i[0]:
                        out.add(y if m == 'min' else x)
                    else:
                        return None
            return self.cap(out)
        if m in ('snprintf', 'sprintf'):
            cs = self.printed(n, env)
            return None if cs is None else frozenset([('const', len(cs))])
        if m in ('lexical_cast', 'raw_convert', 'stoi', 'stol', 'atoi', 'locale_convert') and n.args:
            out = set()
            for x in self.ev(n.args[0], env):
                x = as_tmpl(x)
                if x is None:
                    return None
                r = number(x[1:])
                if r is None:
                    out.add(TOP)
                elif r is BAD:
                    out.add(BAD)
                else:
                    out.add(unpoly(r))
            return self.cap(out)
        if n.obj is None:
            return None
        objs = self.ev(n.obj, env)
        if not all(o[0] == 'tmpl' for o in objs):
            return None
        args = [self.ev(a, env) for a in n.args]
        if any(len(a) != 1 for a in args):
            self.unknown.append(n)
            return frozenset([TOP])
        args = [next(iter(a)) for a in args]
        out = set()
        for o in objs:
            r = self.string_method(m, o, args)
            if r is None:
                self.unknown.append(n)
                r = TOP
            out.add(r)
        return self.cap(out)

    def index(self, a, default):
        if a is None:
            return default
        if a[0] == 'const' and isinstance(a[1], int):
            return NPOS if a[1] in (-1, 2 ** 64 - 1) else a[1]
        return None

    def string_method(self, m, o, args):
        cs = list(o[1:])
        n = len(cs)
        if m in ('c_str', 'data', 'str'):
            return o
        if m == 'substr':
            a = self.index(args[0] if args else None, 0)
            l = self.index(args[1] if len(args) > 1 else None, NPOS)
            if a is None or l is None:
                return None
            if a > n:
                return BAD
            return tmpl(cs[a:a + l] if l != NPOS else cs[a:])
        if m in ('find', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of'):
            what = literal(args[0])
            if what is None and args[0][0] == 'const':
                what = chr(args[0][1])
            pos = self.index(args[1] if len(args) > 1 else None, 0 if m.startswith('find_first') or m == 'find' else NPOS)
            if what is None or pos is None:
                return None
            if any(c.isdigit() for c in what) and m != 'find_first_not_of':
                return None
            rng = list(range(min(pos, n) if pos != NPOS else n, n))
            if m in ('rfind', 'find_last_of'):
                rng = list(range(min(pos, n - 1) if pos != NPOS else n - 1, -1, -1))
            if m in ('find', 'rfind') and len(what) != 1:
                for i in rng:
                    if i + len(what) <= n and all(cs[i + j] == ('lit', what[j]) for j in range(len(what))):
                        return ('const', i)
                return ('const', NPOS)
            for i in rng:
                c = cs[i]
                if m == 'find_first_not_of':
                    if c[0] == 'dig':
                        if not all(str(d) in what for d in range(10)):
                            return None
                        continue
                    if c[1] not in what:
                        return ('const', i)
                elif c[0] == 'lit' and c[1] in what:
                    return ('const', i)
            return ('const', NPOS)
        if m == 'back' and cs:
            return self.char(cs[-1])
        if m == 'compare' and len(args) == 1 and literal(args[0]) is not None and literal(o) is not None:
            a, b = literal(o), literal(args[0])
            return ('const', (a > b) - (a < b))
        if m in ('resize', 'push_back', 'operator+=', 'append', 'erase', 'insert', 'clear', 'pop_back', 'assign'):
            return ('opaque', 'void')
        return None

    def mutated(self, x, n, env):
        if x[0] == 'tmpl':
            m = n.q.split('::')[-1]
            args = [self.ev(a, env) for a in n.args]
            if all(len(a) == 1 for a in args):
                args = [next(iter(a)) for a in args]
                cs = list(x[1:])
                if m == 'resize' and args and args[0][0] == 'const':
                    k = args[0][1]
                    fill = chr(args[1][1]) if len(args) > 1 and args[1][0] == 'const' else '\0'
                    return tmpl((cs + lits(fill) * max(0, k - len(cs)))[:k])
                if m in ('push_back', 'operator+=') and len(args) == 1:
                    if args[0][0] == 'const':
                        return tmpl(cs + lits(chr(args[0][1])))
                    if as_tmpl(args[0]) is not None:
                        return tmpl(cs + list(as_tmpl(args[0])[1:]))
                if m == 'append' and len(args) == 2 and args[0][0] == 'const' and args[1][0] == 'const':
                    return tmpl(cs + lits(chr(args[1][1])) * args[0][1])
                if m == 'append' and len(args) == 1 and as_tmpl(args[0]) is not None:
                    return tmpl(cs + list(as_tmpl(args[0])[1:]))
                if m == 'clear':
                    return tmpl([])
                if m == 'pop_back' and cs:
                    return tmpl(cs[:-1])
                if m == 'erase' and args and args[0][0] == 'const':
                    l = self.index(args[1] if len(args) > 1 else None, NPOS)
                    if l is not None:
                        return tmpl(cs[:args[0][1]] + (cs[args[0][1] + l:] if l != NPOS else []))
            self.unknown.append(n)
            return TOP
        return super().mutated(x, n, env)

    def printed(self, n, env):
        """The characters that a call of snprintf makes, or None"""
        for i in (0,):
            v = super().outvalue(n, i, n.args[0], env)
            x = next(iter(v))
            if x[0] != 'out' or TOP in x[3]:
                return None
            ps = text.template(x)
            return None if ps is None else chars(ps)

    def partvalue(self, n, i, t, env):
        new = self.outvalue(n, i, t, env)
        at = self.ev(t[3], env)
        if len(new) == 1 and len(at) == 1:
            y, a = next(iter(new)), next(iter(at))
            while a[0] == 'cast':
                a = a[2]
            if y[0] == 'tmpl' and a[0] == 'const':
                return self.cap(set(tmpl(x[1:1 + a[1]] + y[1:]) if x[0] == 'tmpl' and len(x) - 1 >= a[1] else TOP for x in self.ev(t[2], env)))
        return super().partvalue(n, i, t, env)

    def outvalue(self, n, i, t, env):
        if n.q.split('::')[-1] in ('snprintf', 'sprintf') and i == 0:
            cs = self.printed(n, env)
            if cs is not None:
                if n.q.endswith('snprintf'):
                    size = self.ev(n.args[1], env)
                    size = next(iter(size)) if len(size) == 1 else TOP
                    if size[0] != 'const':
                        return frozenset([TOP])
                    cs = cs[:max(0, size[1] - 1)]
                return frozenset([tmpl(cs)])
        if n.q.split('::')[-1] == 'sscanf' and len(n.args) > 2:
            src, fmt = self.ev(n.args[0], env), self.ev(n.args[1], env)
            if len(src) == 1 and len(fmt) == 1:
                src, fmt = as_tmpl(next(iter(src))), next(iter(fmt))
                if src is not None and fmt[0] == 'str':
                    vals = self.scan(list(src[1:]), fmt[1])
                    if vals is not None and i - 2 < len(vals):
                        return frozenset([vals[i - 2]])
                    old = self.ev(t, env)
                    return old if vals is not None else frozenset([TOP])
        return super().outvalue(n, i, t, env)

    def scan(self, cs, fmt):
        out = []
        for p in text.conversions(fmt):
            if isinstance(p, str):
                for c in p:
                    if not cs or cs[0] != ('lit', c):
                        return out
                    cs = cs[1:]
                continue
            if p.group('conv') not in 'di' or not p.group('width'):
                return None
            w = int(p.group('width'))
            k = 0
            while k < w and k < len(cs) and (cs[k][0] == 'dig' or cs[k][1].isdigit()):
                k += 1
            if not k:
                return out
            r = number(cs[:k])
            if r is BAD:
                return out
            out.append(TOP if r is None else unpoly(r))
            cs = cs[k:]
        return out

    # ---- case

    def recased(self, f, t, env):
        """t with the function named f (tolower, toupper) applied to every character"""
        f = {'tolower': str.lower, 'toupper': str.upper, 'to_lower': str.lower, 'to_upper': str.upper, 'to_lower_copy': str.lower, 'to_upper_copy': str.upper}.get(f.split('::')[-1].split('(')[0])
        out = set()
        for x in self.ev(t, env):
            x = as_tmpl(x)
            if x is None or f is None:
                return frozenset([TOP])
            out.add(tmpl([('lit', f(c[1])) if c[0] == 'lit' else c for c in x[1:]]))
        return self.cap(out)

    def per_char(self, r, rng, env):
        """The name of the function which r applies to the elements of rng"""
        vs = self.ev(r, env)
        names = set()
        for v in vs:
            while v[0] == 'cast':
                v = v[2]
            if v[0] != 'call' or len(v[3]) != 1:
                return 'unknown'
            a = v[3][0]
            while a[0] == 'cast':
                a = a[2]
            if a != ('elem', rng) and a not in self.ev(('elem', rng), env):
                return 'unknown'
            names.add(v[1])
        return names.pop() if len(names) == 1 else 'unknown'

    def rewritten(self, n, t, env):
        if n.q == 'std::transform' and len(n.args) == 4 and n.args[0] == ('iter', t) and n.args[1] == ('enditer', t) and n.args[3][0] in ('fn', 'addr'):
            f = n.args[3] if n.args[3][0] == 'fn' else n.args[3][1]
            return self.recased(str(f[1]), t, env)
        return super().rewritten(n, t, env)

    # ---- exceptions

    def bases(self, cls):
        cls = cls.replace('const ', '').rstrip(' &')
        if cls in STD_BASES:
            return [cls] + STD_BASES[cls]
        out = list(self.g.prog.bases(cls))
        for b in list(out):
            for x in STD_BASES.get(b, []):
                if x not in out:
                    out.append(x)
        return out

    def step(self, n, env):
        if n.k == 'nop' and n.d.get('dispatch') and env.get(('#exc',)) is not None:
            cls = next(iter(env[('#exc',)]))[1]
            bases = self.bases(cls)
            for s, l in n.succ:
                if l is not None and l[0] == 'catch' and (l[1] is None or l[1] in bases):
                    out = dict(env)
                    out.pop(('#exc',), None)
                    return [(s, l, out)]
            res = [(s, l, env) for s, l in n.succ if l is not None and l[0] == 'uncaught']
            if any(s is self.g.excexit for s, l, e in res):
                self.escaped.add(cls)
            return res
        if n.k == 'throw':
            if n not in self.throws:
                self.throws.append(n)
            out = dict(env)
            cls = (n.cls or '').replace('const ', '').rstrip(' &')
            if n.cls:
                out[('#exc',)] = frozenset([('cls', cls)])
            elif ('#exc',) not in out:
                out.pop(('#exc',), None)
            if n.exc is self.g.excexit:
                self.escaped.add(cls)
            return [(n.exc, 'exc', out)] if n.exc is not None else []
        if n.k == 'assign' and n.rhs[0] == 'map':
            out = dict(env)
            self.kill(out, n.lhs)
            out[n.lhs] = self.recased(self.per_char(n.rhs[1], n.rhs[2], env), n.rhs[2], env) if n.lhs == n.rhs[2] else frozenset([TOP])
            return [(s, l, out) for s, l in n.succ]
        if n.k == 'assign' and n.lhs[0] in ('elem', 'idx') and n.lhs[1][0] in ('var', 'mem') and any(as_tmpl(x) is not None for x in self.ev(n.lhs[1], env)):
            out = dict(env)
            self.kill(out, n.lhs[1])
            out[n.lhs[1]] = self.recased(self.per_char(n.rhs, n.lhs[1], env), n.lhs[1], env) if n.lhs[0] == 'elem' else frozenset([TOP])
            return [(s, l, out) for s, l in n.succ]
        res = super().step(n, env)
        if n.k == 'call' and n.q.split('::')[-1] in ('to_lower', 'to_upper') and len(n.args) >= 1 and n.args[0][0] in ('var', 'mem'):
            res = [(s, l, out if l == 'exc' else self.with_value(out, n.args[0], self.recased(n.q, n.args[0], env))) for s, l, out in res]
        if n.k == 'call' and n.q.split('::')[-1] in ('to_lower_copy', 'to_upper_copy') and len(n.args) >= 1:
            res = [(s, l, out if l == 'exc' else self.with_value(out, n.dst, self.recased(n.q, n.args[0], env))) for s, l, out in res]
        if n.k == 'call':
            # calls are taken to throw only when what they are given is known to be wrong
            m = n.q.split('::')[-1]
            val = next((out[n.dst] for s, l, out in res if l != 'exc' and n.dst in out), frozenset())
            res2 = []
            for s, l, out in res:
                if l == 'exc':
                    if BAD in val:
                        out = dict(out)
                        cls = {'lexical_cast': 'boost::bad_lexical_cast', 'raw_convert': 'boost::bad_lexical_cast', 'substr': 'std::out_of_range'}.get(m, 'std::invalid_argument')
                        out[('#exc',)] = frozenset([('cls', cls)])
                        if s is self.g.excexit:
                            self.escaped.add(cls)
                        res2.append((s, l, out))
                elif val != frozenset([BAD]):
                    res2.append((s, l, out))
            res = res2
        if n.k == 'scope_end' and n.d.get('exceptional'):
            for s, l, out in res:
                if s is self.g.excexit and ('#exc',) in out:
                    self.escaped.add(next(iter(out[('#exc',)]))[1])
        if n.k == 'nop' and n.d.get('dispatch'):
            for s, l, out in res:
                if s is self.g.excexit and ('#exc',) in out:
                    self.escaped.add(next(iter(out[('#exc',)]))[1])
        return res

    def with_value(self, env, t, v):
        out = dict(env)
        self.kill(out, t)
        out[t] = v
        return out

    def returns_normally(self):
        return self.states.get((self.g.exit.id, ())) is not None


def read(prog, fn, policy, env_for, bounds=None, max_depth=8):
    """Evaluate fn with parameters bound as env_for(graph) says"""
    g = Graph(prog, fn, policy, max_depth)
    return TextEval(g, None, env_for(g), bounds).run()
