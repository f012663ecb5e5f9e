"""C10: pictures are converted pixel by pixel, channel by channel, within their tables and buffers"""

import shape
import cursor
from fractions import Fraction

import poly
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

WIDTH, HEIGHT = 3, 2
DCI = 48.0 / 52.37

EXPLANATION = (
    'The conversions of pictures between RGB and XYZ are interpreted abstractly over the values of their pixels: a pixel that is written is a term of the tables, the matrix and the pixels that were read, '
    'with an interval for every index into a table. Every pixel must be the term of its own place and channel, no index may leave its table for any value of a pixel, and nothing is written outside of the lines of the picture.')


def num(p, lo=None, hi=None):
    return ('num', tuple(sorted(p.items(), key=repr)), lo, hi)


def frac(v):
    return Fraction(v).limit_denominator(10 ** 12) if isinstance(v, float) else Fraction(v)


class Engine(cursor.Cursor):
    def __init__(self, *a, **k):
        cursor.Cursor.__init__(self, *a, **k)
        # atom -> (lowest, highest)
        self.ranges = {}
        self.alias = {}
        # buffers which something unknown may have filled
        self.touched = set()
        self.inputs = {}
        # (function, line, what): indices which leave their table
        self.outside = []

    # numbers

    def bounds(self, v):
        if v[0] == 'const' and isinstance(v[1], (int, float)):
            return v[1], v[1]
        if v[0] != 'num':
            return None, None
        lo, hi = self.linear(dict(v[1]))
        if v[2] is not None:
            lo = v[2] if lo is None else max(lo, v[2])
            hi = None if hi is None else max(hi, v[2])
        if v[3] is not None:
            hi = v[3] if hi is None else min(hi, v[3])
            lo = None if lo is None else min(lo, v[3])
        return lo, hi

    def linear(self, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            if not m:
                a = b = 1
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.ranges:
                a, b = self.ranges[m[0][0]]
                if a is None or b is None:
                    return None, None
            else:
                return None, None
            x, y = c * frac(a), c * frac(b)
            lo, hi = lo + min(x, y), hi + max(x, y)
        return lo, hi

    def poly(self, v):
        if v[0] == 'const' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return poly.const(frac(v[1]))
        if v[0] != 'num':
            return None
        if v[2] is None and v[3] is None:
            return dict(v[1])
        return poly.atom(self.made(('clamp', v[1], v[2], v[3]), *self.bounds(v)))

    def made(self, a, lo, hi):
        self.ranges[a] = (lo, hi)
        return a

    def compare(self, op, v, w):
        if v[0] == 'num' or w[0] == 'num':
            p, q = self.poly(v), self.poly(w)
            if p is None or q is None:
                return ANY
            if op == '+':
                return num(poly.add(p, q))
            if op == '-':
                return num(poly.add(p, q, -1))
            if op == '*':
                return num(poly.mul(p, q))
            if op == '/' and w[0] == 'const' and isinstance(w[1], float) and w[1]:
                return num(poly.scale(p, 1 / frac(w[1])))
            if op == '/' and w[0] == 'num' and all(a[0] == 'm' for m, c in w[1] for a, k in m):
                return num(poly.mul(p, poly.atom(('m', 'inverse', w[1]))))
            if op in ('>>', '/') and w[0] == 'const' and isinstance(w[1], int) and w[1] > 0:
                n = w[1] if op == '>>' else w[1].bit_length() - 1
                lo, hi = self.bounds(v)
                if op == '/' and w[1] & (w[1] - 1) or lo is None or lo < 0:
                    return ANY
                return num(poly.atom(self.made(('shift', v[1], n), int(lo) >> n, int(hi) >> n)))
            if op in ('<', '>', '<=', '>=', '==', '!='):
                a, b = self.bounds(num(poly.add(p, q, -1)))
                if a is None or b is None:
                    a, b = (None, None)
                    l1, h1 = self.bounds(v)
                    l2, h2 = self.bounds(w)
                    if None not in (l1, h2):
                        a = l1 - h2
                    if None not in (h1, l2):
                        b = h1 - l2
                if op in ('<', '>='):
                    r = True if b is not None and b < 0 else (False if a is not None and a >= 0 else None)
                    return ANY if r is None else const(r == (op == '<'))
                if op in ('>', '<='):
                    r = True if a is not None and a > 0 else (False if b is not None and b <= 0 else None)
                    return ANY if r is None else const(r == (op == '>'))
            return ANY
        if op == '/' and v[0] == 'const' and w[0] == 'const' and isinstance(w[1], float) and w[1]:
            return const(v[1] / w[1])
        return cursor.Cursor.compare(self, op, v, w)

    def clamp(self, v, c, highest):
        if v[0] == 'const':
            return const(min(v[1], c) if highest else max(v[1], c))
        _, p, lo, hi = v
        if highest:
            if hi is not None:
                hi = min(hi, c)
            else:
                hi = c
            if lo is not None and lo > hi:
                return const(hi)
        else:
            if hi is not None and c > hi:
                return const(c)
            lo = c if lo is None else max(lo, c)
        return ('num', p, lo, hi)

    # places

    def ev(self, x, st):
        if isinstance(x, dict) and 'cf' in x and x.get('e') in ('bin', 'un', 'var', 'icast', 'cast', 'float'):
            return const(x['cf'])
        return cursor.Cursor.ev(self, x, st)

    def e_cast(self, x, st):
        v = cursor.Cursor.e_cast(self, x, st)
        if v[0] == 'ptr':
            t = self.f.type(x['t'])
            wide = 'uint16_t' in t or 'unsigned short' in t or 'short' in t
            if wide and not v[1].endswith('/2') and v[1] in ('rgb',):
                if v[2] % 2:
                    raise shape.Unknown('half of a value')
                return ('ptr', v[1] + '/2', v[2] // 2)
        return v

    def e_var(self, x, st):
        k = (self.f.tu, x.get('id'))
        if k in self.alias:
            return st.vars.get(self.alias[k], ANY)
        return cursor.Cursor.e_var(self, x, st)

    def store(self, t, v, st):
        s = shape.strip(t)
        if isinstance(s, dict) and s.get('e') == 'var' and (self.f.tu, s.get('id')) in self.alias:
            st.vars[self.alias[(self.f.tu, s.get('id'))]] = v
            return
        cursor.Cursor.store(self, t, v, st)

    def load(self, p, st):
        if p[0] == 'ptr' and p[1] in self.inputs:
            if not isinstance(p[2], int):
                raise shape.Unknown('place of a pixel')
            return self.inputs[p[1]](p[2])
        if p[0] == 'ptr' and (p[1], p[2]) not in st.heap:
            if p[1] in self.sizes and p[1] not in self.touched and isinstance(p[2], int) and not self.branched and any(k[0] == p[1] for k in st.heap):
                self.outside.append((self.f, None, 'an element of an array that has not been set is used'))
            return ANY
        return cursor.Cursor.load(self, p, st)

    def s_decl(self, s, st, o):
        r = cursor.Cursor.s_decl(self, s, st, o)
        k = (self.f.tu, s.get('id'))
        if s.get('alen') and r.normal is not None and r.normal.vars.get(k, ANY)[0] == 'seq':
            given = r.normal.vars[k][1:]
            b = self.buffer(s.get('n'), s['alen'])
            for i in range(s['alen']):
                r.normal.heap[(b[1], i)] = given[i] if i < len(given) else const(0)
            r.normal.vars[k] = b
        if r.normal is not None and r.normal.vars.get(k, ANY) == ANY and s.get('t') is not None:
            t = self.f.type(s['t'])
            if 'struct' in t or 'unnamed' in t or 'anonymous' in t:
                r.normal.vars[k] = obj('local%s' % (k,), 'local')
        return r

    def e_idx(self, x, st):
        b = self.ev(x['b'], st)
        if b[0] == 'obj' and b[1].startswith('lut '):
            return self.lookup(b, self.ev(x['i'], st), x)
        return cursor.Cursor.e_idx(self, x, st)

    def lookup(self, lut, i, x):
        size = 1 << int(lut[1].split()[-2])
        lo, hi = self.bounds(i)
        # what is not whole is cut off
        lo, hi = lo if lo is None else int(lo), hi if hi is None else int(hi)
        if lo is None or hi is None or lo < 0 or hi > size - 1:
            if i[0] in ('num', 'const'):
                self.outside.append((self.f, x.get('l'), 'a table of %d values is used at %s to %s' % (size, 'anything' if lo is None else float(lo), 'anything' if hi is None else float(hi))))
                return num(poly.atom(('outside',)))
            return ANY
        p = self.poly(i)
        return num(poly.atom(self.made(('lut', lut[1], tuple(sorted(p.items(), key=repr))), 0, 1)))


class World:
    def __init__(self, prog):
        self.prog = prog

    def field(self, e, st, o, name):
        if o is not None and o[1] == 'size':
            return {'width': const(WIDTH), 'height': const(HEIGHT)}.get(name)
        return None

    def call(self, e, st, x, o, args):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        cls = x.get('cls') or ''
        short = q.split('::')[-1]
        every = ([o] if o is not None else []) + list(args)
        if x.get('e') == 'ctor':
            if args and args[0][0] == 'obj' and len(args) == 1:
                return args[0]
            return None
        if x.get('e') == 'new':
            return None
        if m == 'make_shared' and 'OpenJPEGImage' in (x.get('fn') or ''):
            return obj('new', 'dcp::OpenJPEGImage')
        if o is not None and o[0] == 'obj' and o[2] == 'dcp::OpenJPEGImage':
            if m == 'data' and args[0][0] == 'const':
                return ('ptr', '%s%d' % (o[1], args[0][1]), 0)
            if m == 'size':
                return obj('size', 'dcp::Size')
        if o is not None and o[0] == 'obj' and o[1] == 'conversion':
            if m in ('in', 'out'):
                return obj('curve ' + m, 'curve')
            if m in ('xyz_to_rgb', 'rgb_to_xyz', 'bradford'):
                return obj('matrix ' + m, 'matrix')
        if o is not None and o[0] == 'obj' and o[1].startswith('curve ') and m == 'double_lut':
            if not all(a[0] == 'const' for a in args) or len(args) != 4:
                raise shape.Unknown('table')
            lo, hi, bits, inverse = [a[1] for a in args]
            where = '' if (lo, hi) == (0, 1) else '[%g,%g]' % (lo, hi)
            return obj('lut %s %d %s' % (o[1].split()[1] + where, bits, 'inverse' if inverse else 'forward'), 'lut')
        if short == 'make_inverse_gamma_lut' and args and args[0][0] == 'obj' and args[0][1].startswith('curve '):
            return obj('piecewise ' + args[0][1].split()[1], 'piecewise')
        if o is not None and o[0] == 'obj' and o[1].startswith('piecewise ') and m == 'lookup':
            lo, hi = e.bounds(args[0])
            if args[0][0] not in ('num', 'const'):
                raise shape.Unknown('a value')
            if lo is None or hi is None or lo < 0 or hi > 1:
                e.outside.append((e.f, x.get('l'), 'a curve is used at %s to %s' % ('anything' if lo is None else float(lo), 'anything' if hi is None else float(hi))))
            p = e.poly(args[0])
            return num(poly.atom(e.made(('lookup', o[1], tuple(sorted(p.items(), key=repr))), 0, 4095)))
        if o is not None and o[0] == 'obj' and o[1].startswith('matrix ') and op == '()':
            if not all(a[0] == 'const' for a in args):
                raise shape.Unknown('element of a matrix')
            return num(poly.atom(('m', o[1].split()[1]) + tuple(a[1] for a in args)))
        if op == '[]' and o is not None and o[0] == 'obj' and o[1].startswith('lut '):
            return e.lookup(o, args[0], x)
        if m == 'at' and o is not None and o[0] == 'obj' and o[1].startswith('lut '):
            return e.lookup(o, args[0], x)
        if short in ('min', 'max', 'fmin', 'fmax') and len(args) == 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if b[0] == 'const' and a[0] in ('num', 'const'):
                    return e.clamp(a, b[1], short in ('min', 'fmin'))
            return ANY
        if short == 'clamp' and len(args) == 3 and args[1][0] == 'const' and args[2][0] == 'const' and args[0][0] in ('num', 'const'):
            return e.clamp(e.clamp(args[0], args[1][1], False), args[2][1], True)
        if short in ('lrint', 'lround', 'round', 'rint', 'lrintf', 'llrint') and len(args) == 1:
            if args[0][0] == 'const':
                return const(round(args[0][1]))
            if args[0][0] == 'num':
                lo, hi = e.bounds(args[0])
                p = e.poly(args[0])
                return num(poly.atom(e.made(('round', tuple(sorted(p.items(), key=repr))), None if lo is None else round(lo), None if hi is None else round(hi))))
            return ANY
        if short == 'pow' and len(args) == 2 and all(a[0] == 'const' for a in args):
            return const(args[0][1] ** args[1][1])
        if short == 'compose' or op == '()' and o is not None and o == TRUE:
            return ANY
        # references to the same variable
        f = self.prog.functions.get(x.get('fn'))
        if f is None or f.body is None:
            e.touched |= set(a[1] for a in every if a[0] == 'ptr')
        if f is not None and f.body is not None:
            seen = {}
            for p, a in zip(f.params, x.get('a', [])):
                a = shape.strip(a)
                if p.get('ref') and isinstance(a, dict) and a.get('e') == 'var' and a.get('id') is not None:
                    if a['id'] in seen:
                        e.alias[(f.tu, p['id'])] = (f.tu, seen[a['id']])
                    else:
                        e.alias.pop((f.tu, p.get('id')), None)
                        seen[a['id']] = p['id']
        return None


def chain(p):
    """kinds of functions around a pixel, from the outside"""
    out = []
    while True:
        atoms = [a for m, c in p for a, k in m if a[0] != 'm']
        kinds = sorted(set(a[0] for a in atoms))
        if len(kinds) != 1:
            return out + kinds
        out.append(kinds[0])
        a = atoms[0]
        if a[0] in ('in', 'outside'):
            return out
        p = a[2] if a[0] in ('lut', 'lookup') else a[1]


def close(p, q):
    """do two terms say the same, but for the rounding of coefficients?"""
    p, q = dict(p), dict(q)
    f = lambda d: sorted(((tuple(sorted((canon(a), k) for a, k in m)), float(c)) for m, c in d.items()), key=repr)
    a, b = f(p), f(q)
    return len(a) == len(b) and all(x[0] == y[0] and abs(x[1] - y[1]) < 1e-6 * max(1, abs(y[1])) for x, y in zip(a, b))


def canon(a):
    """an atom with its coefficients rounded"""
    def pl(p):
        return tuple(sorted(((tuple(sorted((canon(b), k) for b, k in m)), '%.7g' % float(c)) for m, c in p), key=repr))
    if a[0] in ('lut', 'lookup'):
        return repr((a[0], a[1], pl(a[2])))
    if a[0] == 'clamp':
        return repr(('clamp', pl(a[1]), float(a[2]) if a[2] is not None else None, float(a[3]) if a[3] is not None else None))
    if a[0] == 'round':
        return repr(('round', pl(a[1])))
    if a[0] == 'shift':
        return repr(('shift', pl(a[1]), a[2]))
    return repr(a)


def check(ctx, prog):
    ctx.rule('pixel', 'a pixel that is written is what the curves and the matrix make of the pixel in the same place, channel by channel', 60)
    ctx.rule('index', 'no value of a pixel takes an index out of its table', 4)
    ctx.rule('place', 'the pixels of every line are written, and nothing else', 4)
    ctx.rule('range', 'values out of their range are brought into it, or refused', 4)

    def tup(p):
        return tuple(sorted(p.items(), key=repr))

    def run(f, args, inputs):
        e = Engine(prog, World(prog))
        e.strict = True
        e.inputs = inputs(e)
        try:
            rs = e.call(f, NULL, args, shape.State({}, {}, frozenset()))
        except shape.Unknown:
            if e.outside and not e.branched:
                indices(f, f.q.split('::')[-1], e)
            raise
        ctx.functions(e.functions)
        if e.branched or len(rs) > 1:
            raise shape.Unknown('a decision is not known')
        return e, rs

    conversion = obj('conversion', 'dcp::ColourConversion')
    image = obj('xyz', 'dcp::OpenJPEGImage')

    def xyz(e, value=None, channel=None):
        def get(k):
            def g(i):
                if value is not None:
                    return const(value if channel in (None, k) else 100)
                if not 0 <= i < WIDTH * HEIGHT:
                    e.outside.append((e.f, None, 'a pixel outside of the picture is read'))
                return num(poly.atom(e.made(('in', k, i), 0, 4095)))
            return g
        return {'xyz%d' % k: get(k) for k in range(3)}

    def rgb(pitch):
        def make(e):
            def g(i):
                x = i % (pitch // 2)
                if i < 0 or i // (pitch // 2) >= HEIGHT or x >= WIDTH * 3:
                    e.outside.append((e.f, None, 'a pixel outside of the picture is read'))
                return num(poly.atom(e.made(('in', i), 0, 65535)))
            return {'rgb/2': g}
        return make

    def judge(f, what, h, want):
        """want: (buffer, offset) -> term"""
        if not any(k in h for k in want) or any(k[0] == 'rgb' for k in h):
            raise shape.Unknown('%s: written in another way' % what)
        for k, (term, name) in sorted(want.items()):
            got = h.get(k)
            if got is None:
                ctx.violation('place', f.file, f.line, f.q, '%s: %s is not written' % (what, name), 'place:%s:%s' % (what, name))
                continue
            ctx.ok('place', '%s: %s' % (what, name))
            if term is None:
                ctx.expect(got == const(255), 'pixel', f.file, f.line, f.q, '%s: %s is not opaque' % (what, name), 'pixel:%s:%s' % (what, name), '%s: %s' % (what, name))
                continue
            if got[0] != 'num':
                ctx.skip('pixel', '%s: %s' % (what, name))
                continue
            ok = close(got[1], term)
            if not ok and chain(got[1]) != chain(term):
                ctx.skip('pixel', '%s: %s: another calculation: %s' % (what, name, ', '.join(chain(got[1]))))
                continue
            ctx.expect(ok, 'pixel', f.file, f.line, f.q, '%s: %s is not what the curves and matrix make of the same pixel' % (what, name), 'pixel:%s:%s' % (what, name), '%s: %s' % (what, name))
        bufs = set(k[0] for k in want)
        for k in sorted((k for k in h if k[0] in bufs and k not in want), key=repr):
            ctx.violation('place', f.file, f.line, f.q, '%s: something is written outside of the picture' % what, 'place:%s:outside:%s' % (what, k[1]))

    def indices(f, what, e):
        for g, l, why in e.outside[:1]:
            ctx.violation('index', g.file, l or g.line, g.q, '%s: %s' % (what, why), 'index:%s:%s' % (what, why))
        if not e.outside:
            ctx.ok('index', what)

    def from_xyz(scale_out, rounded):
        def term(k, i):
            inner = {}
            for j in range(3):
                lut = ('lut', 'lut out 12 forward', tup(poly.atom(('in', j, i))))
                inner = poly.add(inner, poly.scale(poly.mul(poly.atom(('m', 'xyz_to_rgb', k, j)), poly.atom(lut)), 1 / frac(DCI)))
            c = ('clamp', tup(inner), 0.0, 1.0)
            r = ('round', tup(poly.scale(poly.atom(c), 65535)))
            l = poly.scale(poly.atom(('lut', 'lut in 16 inverse', tup(poly.atom(r)))), scale_out)
            return tup(poly.atom(('round', tup(l)))) if rounded else tup(l)
        return term

    def functions(name, n):
        fs = [f for f in prog.get('dcp::' + name) if f.body is not None and len(f.params) == n]
        if not fs:
            raise AnalysisBroken('no function dcp::%s with %d parameters' % (name, n))
        return fs

    COLOURS = ('red', 'green', 'blue')
    # XYZ to RGB
    f = functions('xyz_to_rgb', 5)[0]
    pitch = WIDTH * 6 + 4
    for note in (NULL, TRUE):
        def go():
            e, rs = run(f, [image, conversion, ('ptr', 'rgb', 0), const(pitch), note], xyz)
            if not rs:
                ctx.violation('place', f.file, f.line, f.q, 'XYZ is never converted to RGB', 'place:never:xyz_to_rgb')
                return
            t = from_xyz(65535, True)
            indices(f, 'XYZ to RGB', e)
            judge(f, 'XYZ to RGB', rs[0][1].heap, {('rgb/2', y * pitch // 2 + 3 * x + k): (t(k, y * WIDTH + x), '%s at %d, %d' % (COLOURS[k], x, y)) for y in range(HEIGHT) for x in range(WIDTH) for k in range(3)})
        ctx.attempt('pixel', 'XYZ to RGB', go)
        for value, within in ((-1, 0), (-100000, 0), (4096, 4095), (100000, 4095), (0, 0), (1, 1), (2047, 2047), (4094, 4094), (4095, 4095)):
            def go():
                e, rs = run(f, [image, conversion, ('ptr', 'rgb', 0), const(pitch), note], lambda e: xyz(e, value))
                indices(f, 'XYZ to RGB, pixels of %d' % value, e)
                if e.outside:
                    return
                if not rs:
                    ctx.violation('range', f.file, f.line, f.q, 'XYZ to RGB: a picture with pixels of %d is refused' % value, 'range:%d' % value)
                    return
                used = set()

                def walk(t):
                    if isinstance(t, tuple):
                        if len(t) == 3 and t[0] == 'lut' and t[1] == 'lut out 12 forward':
                            used.add(float(dict(t[2]).get((), 0)))
                        for i in t:
                            walk(i)
                for k, v in rs[0][1].heap.items():
                    if k[0] == 'rgb/2':
                        walk(v)
                if not used:
                    raise shape.Unknown('values used')
                ctx.expect(used == {float(within)}, 'range', f.file, f.line, f.q, 'XYZ to RGB: pixels of %d are taken for %s' % (value, ', '.join('%g' % u for u in sorted(used))), 'range:%d' % value, 'pixels of %d' % value)
            ctx.attempt('range', 'pixels of %d' % value, go)
    f4 = functions('xyz_to_rgba', 4)[0]
    pitch4 = WIDTH * 4 + 5

    def go():
        e, rs = run(f4, [image, conversion, ('ptr', 'rgba', 0), const(pitch4)], xyz)
        if not rs:
            ctx.violation('place', f4.file, f4.line, f4.q, 'XYZ is never converted to RGBA', 'place:never:xyz_to_rgba')
            return
        t = from_xyz(255, False)
        indices(f4, 'XYZ to RGBA', e)
        want = {}
        for y in range(HEIGHT):
            for x in range(WIDTH):
                for k in range(4):
                    want[('rgba', y * pitch4 + 4 * x + k)] = (t(2 - k, y * WIDTH + x) if k < 3 else None, '%s at %d, %d' % (COLOURS[2 - k] if k < 3 else 'opacity', x, y))
        judge(f4, 'XYZ to RGBA', rs[0][1].heap, want)
    ctx.attempt('pixel', 'XYZ to RGBA', go)
    for value, channel in [(v, c) for v in (-1, 4096, 100000, 0, 1, 2047, 4095) for c in range(3)]:
        def go():
            what = 'XYZ to RGBA, pixels with %s of %d' % ('XYZ'[channel], value)
            e, rs = run(f4, [image, conversion, ('ptr', 'rgba', 0), const(pitch4)], lambda e: xyz(e, value, channel))
            indices(f4, what, e)
            if not e.outside:
                ctx.expect(bool(rs) or not 0 <= value <= 4095, 'range', f4.file, f4.line, f4.q, '%s: the picture is refused' % what, 'range:' + what, what)
        ctx.attempt('range', 'XYZ to RGBA, pixels of %d' % value, go)

    # RGB to XYZ
    def to_xyz(k, i):
        inner = {}
        for j in range(3):
            v = poly.atom(('in', i + j))
            lut = poly.atom(('lut', 'lut in 12 forward', tup(poly.atom(('shift', tup(v), 4)))))
            for l in range(3):
                inner = poly.add(inner, poly.scale(poly.mul(poly.mul(poly.atom(('m', 'bradford', k, l)), poly.atom(('m', 'rgb_to_xyz', l, j))), lut), frac(DCI)))
        return tup(poly.atom(('lookup', 'piecewise out', tup(poly.atom(('clamp', tup(inner), 0.0, 1.0))))))
    size = obj('size', 'dcp::Size')
    for n in (4, 5):
        for f in functions('rgb_to_xyz', n):
            def go():
                args = [('ptr', 'rgb', 0)] + ([('ptr', 'dst', 0)] if n == 5 else []) + [size, const(pitch), conversion]
                e, rs = run(f, args, rgb(pitch))
                what = 'RGB to XYZ' if n == 4 else 'RGB to XYZ in one buffer'
                if not rs:
                    ctx.violation('place', f.file, f.line, f.q, '%s is never done' % what, 'place:never:%s' % what)
                    return
                indices(f, what, e)
                want = {}
                for y in range(HEIGHT):
                    for x in range(WIDTH):
                        for k in range(3):
                            i = y * WIDTH + x
                            want[('new%d' % k, i) if n == 4 else ('dst', 3 * i + k)] = (to_xyz(k, y * pitch // 2 + 3 * x), '%s at %d, %d' % ('XYZ'[k], x, y))
                judge(f, what, rs[0][1].heap, want)
            ctx.attempt('pixel', 'RGB to XYZ (%d)' % n, go)
