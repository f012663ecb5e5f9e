"""C29: the matrices of a colour conversion take white to white and primaries to primaries, and undo each other"""

import re

import ir
from algebra import Inverse, Mat, Rat, Unknown, Walk, Wrong, atom, const, identity, prod, symbols
from cfg import Graph, show
from textread import TextEval

SOURCES = ['colour_conversion.cc', 'chromaticity.cc', 'rgb_xyz.cc']

EXPLANATION = (
    'The functions that make matrices are followed along each of their paths with the elements as rational functions of the chromaticities. '
    'The identities that define the matrices (each column is in the direction of its primary; the sum of the columns is white with luminance 1; '
    'the adaptation takes one white to the other and is the identity where there is none; the inverse is the inverse) are decided exactly by comparing exact values of the two sides at fixed rational points (polynomial identity testing). '
    'The built-in conversions are evaluated to constants and compared with the published primaries, white points and curves.')

THIS = ('deref', ('this',))
Q = 'dcp::ColourConversion::'


def mem(*names):
    t = THIS
    for n in names:
        t = ('mem', t, n)
    return t


def policy(*no):
    def p(callee, caller, depth):
        return callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp')) and callee.q not in no
    return p


def graph(ctx, prog, f, *no):
    g = Graph(prog, f, policy(*no))
    ctx.functions([f.key])
    ctx.functions(g.inlined)
    return g


def one(prog, name, pred=lambda f: True):
    fs = [f for f in prog.get(name) if f.body is not None and pred(f)]
    if not fs:
        raise ir.AnalysisBroken('%s not found' % name)
    return fs[0]


def coordinate(c, n):
    """Coordinates of a chromaticity member"""
    x, y = atom(mem(c, 'x')), atom(mem(c, 'y'))
    return {'x': x, 'y': y, 'z': const(1) - x - y}[n]


def rgb_to_xyz(ctx, prog):
    f = one(prog, Q + 'rgb_to_xyz')
    g = graph(ctx, prog, f)
    for conds, r, env in Walk(g).run():
        if not isinstance(r, Mat):
            raise Unknown('the result')
        if (r.r, r.c) != (3, 3):
            raise Wrong('the result is a %dx%d matrix' % (r.r, r.c))
        for j, p in enumerate(('_red', '_green', '_blue')):
            for i, k in ((0, 'x'), (2, 'z')):
                ok = (r.get(i, j) * coordinate(p, 'y')).near(r.get(1, j) * coordinate(p, k))
                ctx.expect(ok, 'primaries', f.file, f.line, f.q, 'column %d of the matrix (%s) is not in the direction of %s: %s over Y is %s / %s' % (j, p[1:], p, 'XYZ'[i], r.get(i, j).show()[:150], r.get(1, j).show()[:150]),
                           'column:%d:%d' % (j, i), 'column %d, %s / Y' % (j, 'XYZ'[i]))
        for i, k in enumerate('xyz'):
            s = r.get(i, 0) + r.get(i, 1) + r.get(i, 2)
            w = coordinate('_white', k) / coordinate('_white', 'y')
            ctx.expect(s.near(w), 'white', f.file, f.line, f.q, 'white (1, 1, 1) is not taken to the white point: %s is not %s' % ('XYZ'[i], w.show()), 'white:%d' % i, '%s of white' % 'XYZ'[i])


def xyz_to_rgb(ctx, prog):
    f = one(prog, Q + 'xyz_to_rgb')
    g = graph(ctx, prog, f, Q + 'rgb_to_xyz')
    sym = symbols('rgb_to_xyz')

    def calls(n, args, obj, w, env):
        if n.q == Q + 'rgb_to_xyz':
            return sym.copy()
        return None
    for conds, r, env in Walk(g, calls).run():
        if isinstance(r, Inverse):
            ok = r.of.whole() and all(r.of.get(i, j).near(sym.get(i, j)) for i in range(3) for j in range(3))
            ctx.expect(ok, 'inverse', f.file, f.line, f.q, 'the matrix that is inverted is not that from RGB to XYZ', 'inverse:of', 'what is inverted')
            ok = r.times.whole() and all(r.times.get(i, j).near(const(i == j)) for i in range(3) for j in range(3))
            ctx.expect(ok, 'inverse', f.file, f.line, f.q, 'the inverse is multiplied by something else than the identity', 'inverse:times', 'what is substituted')
        elif isinstance(r, Mat):
            p = prod(r, sym)
            for i in range(3):
                for j in range(3):
                    ctx.expect(p.get(i, j).near(const(i == j), 1e-9), 'inverse', f.file, f.line, f.q, 'element (%d, %d) of the product of the two matrices is not %d' % (i, j, i == j), 'inverse:%d:%d' % (i, j), 'element %d, %d' % (i, j))
        else:
            raise Unknown('the result')


def flat(conds):
    """(term, truth) with negations resolved"""
    out = []
    for t, v in conds:
        while t[0] == 'not':
            t, v = t[1], not v
        out.append((t, v))
    return out


def bradford(ctx, prog):
    f = one(prog, Q + 'bradford')
    g = graph(ctx, prog, f)
    adj = mem('_adjusted_white')

    def is_adj(t):
        while t[0] in ('cast', 'has', 'set', 'nonnull', 'truthy', 'bool', 'deref', 'addr'):
            t = t[2] if t[0] == 'cast' else t[1]
        return t == adj

    def set_cond(t):
        if t[0] in ('has', 'set', 'nonnull', 'truthy', 'bool') and is_adj(t[1]):
            return True
        if t[0] == 'call' and t[2] is not None and is_adj(t[2]):
            return True
        return is_adj(t) if t[0] in ('mem', 'cast') else False
    given = [0, 0]

    def leaf(t, env, w):
        if t[0] == 'mem' and t[2] in ('x', 'y') and t[1][0] == 'deref' and is_adj(t[1][1]):
            return atom(('mem', ('adjusted',), t[2]))
        return None

    def white(c):
        x, y = c('x'), c('y')
        m = Mat(3, 1)
        m.e = {(0, 0): x / y, (1, 0): const(1), (2, 0): (const(1) - x - y) / y}
        return m
    a = white(lambda n: atom(('mem', ('adjusted',), n)))
    b = white(lambda n: atom(mem('_white', n)))
    w = Walk(g, leaf=leaf)

    def about_y(t):
        for x in sub(t):
            if x in w.results and any(about_y(a) for a in w.results[x].args):
                return True
            if x[0] == 'mem' and x[2] == 'y' and is_adj(x[1]):
                return True
        return False
    for conds, r, env in w.run():
        if not isinstance(r, Mat):
            raise Unknown('the result')
        if (r.r, r.c) != (3, 3):
            raise Wrong('the result is a %dx%d matrix' % (r.r, r.c))
        conds = flat(conds)
        has = [v for t, v in conds if set_cond(t)]
        rest = [(t, v) for t, v in conds if not set_cond(t)]
        same = all(r.get(i, j).near(const(i == j)) for i in range(3) for j in range(3))
        if has and not has[0]:
            ctx.expect(same, 'no adaptation', f.file, f.line, f.q, 'the result is not the identity where there is no adjusted white', 'bradford:none', 'no adjusted white')
            given[0] = 1
            continue
        if same:
            # only for an adjusted white that is no colour
            small = [t for t, v in rest if v and t[0] == 'bin' and t[1] in ('<', '<=') or not v and t[0] == 'bin' and t[1] in ('>', '>=')]
            eps = [t for t in small if tiny(t)]
            ctx.expect(bool(eps), 'no adaptation', f.file, f.line, f.q, 'the result is the identity although there is an adjusted white (where %s)' % ', '.join('%s is %s' % (show(t), v) for t, v in conds), 'bradford:ignored', 'adjusted white of (0, 0)')
            continue
        given[1] = 1
        ctx.expect(bool(has), 'no adaptation', f.file, f.line, f.q, 'the adjusted white is used without asking whether there is one', 'bradford:unset', 'adjusted white is there')
        safe = [t for t, v in rest if t[0] == 'bin' and tiny(t) and (not v and t[1] in ('<', '<=') or v and t[1] in ('>', '>=')) and about_y(t[2])]
        ctx.expect(bool(safe), 'no adaptation', f.file, f.line, f.q, 'the adaptation divides by y of the adjusted white, which can be 0 there', 'bradford:zero', 'adjusted white with y of 0')
        p = prod(r, b)
        for i in range(3):
            ctx.expect(p.get(i, 0).near(a.get(i, 0), TOLERANCE), 'adaptation', f.file, f.line, f.q, '%s of the white point is not taken to that of the adjusted white' % 'XYZ'[i], 'bradford:white:%d' % i, '%s of white' % 'XYZ'[i])
        # with the same white on both sides nothing changes
        for i in range(3):
            for j in range(3):
                e = r.get(i, j)
                s = e.replace(lambda x: atom(mem('_white', x[2])) if x[0] == 'mem' and x[1] == ('adjusted',) else None)
                ok = s.near(const(1), TOLERANCE) if i == j else s.vanishes(const(1), TOLERANCE)
                ctx.expect(ok, 'adaptation', f.file, f.line, f.q, 'element (%d, %d) is not %d for an adjusted white that is the white' % (i, j, i == j), 'bradford:same:%d:%d' % (i, j), 'element %d, %d' % (i, j))
        # the cone responses are those of Bradford: M r M^-1 is diagonal
        M = Mat(3, 3, lambda i, j: const(BRADFORD[i][j]))
        Mi = inverse3(BRADFORD)
        d = prod(prod(M, r), Mi)
        for i in range(3):
            for j in range(3):
                if i != j:
                    big = d.get(i, i)
                    ctx.expect(d.get(i, j).vanishes(big, 1e-5), 'adaptation', f.file, f.line, f.q, 'the adaptation is not a scaling of the cone responses of Bradford: response %d depends on %d' % (i, j), 'bradford:cone:%d:%d' % (i, j), 'response %d, %d' % (i, j))
    if given != [1, 1]:
        raise Unknown('paths')


TOLERANCE = 1e-6
BRADFORD = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]]


def inverse3(m):
    from fractions import Fraction
    a = [[Fraction(repr(v)) for v in r] for r in m]
    det = sum(a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]) for i in range(3))

    def cof(i, j):
        return a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3]
    return Mat(3, 3, lambda i, j: const(cof(i, j) / det))


def tiny(t):
    c = t[3]
    while c[0] == 'cast':
        c = c[2]
    return c[0] in ('float', 'const') and isinstance(c[1], (int, float)) and abs(c[1]) <= 1e-3


def combined(ctx, prog):
    f = one(prog, 'dcp::combined_rgb_to_xyz')
    g = graph(ctx, prog, f, Q + 'rgb_to_xyz', Q + 'bradford')
    A, B = symbols('rgb_to_xyz'), symbols('bradford')

    def calls(n, args, obj, w, env):
        if n.q == Q + 'rgb_to_xyz':
            return A.copy()
        if n.q == Q + 'bradford':
            return B.copy()
        return None
    out = g.params[1]
    want = prod(B, A)
    scale = const(48) / const(52.37)
    for conds, r, env in Walk(g, calls, limit=20000).run():
        got = {}
        for k, v in env.items():
            if k[0] in ('idx', 'at') and k[1] in (out, ('deref', out)) and k[2][0] == 'const' and isinstance(v, Rat):
                got[k[2][1]] = v
            elif k == ('deref', out) and isinstance(v, Rat):
                got[0] = v
        if not got:
            raise Unknown('no elements')
        for i in range(9):
            ok = i in got and got[i].near(want.get(i // 3, i % 3) * scale, 1e-9)
            ctx.expect(ok, 'combined', f.file, f.line, f.q, 'element %d is %s, not the element of the product of the Bradford matrix and that from RGB to XYZ times 48 / 52.37' % (i, got[i].show()[:300] if i in got else 'not set'), 'combined:%d' % i, 'element %d' % i)


D65 = (0.3127, 0.329)
G709 = [(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)]
P3 = [(0.68, 0.32), (0.265, 0.69), (0.15, 0.06)]
PRESETS = {
    # name: curve, YUV matrix, primaries, white, curve of the result
    'srgb_to_xyz': (('ModifiedGamma', 2.4, 0.04045, 0.055, 12.92), 'REC601', G709, D65, ('Gamma', 2.6)),
    'rec601_to_xyz': (('Gamma', 2.2), 'REC601', G709, D65, ('Gamma', 2.6)),
    'rec709_to_xyz': (('Gamma', 2.2), 'REC709', G709, D65, ('Gamma', 2.6)),
    'p3_dci_to_xyz': (('Gamma', 2.6), 'REC709', P3, (0.314, 0.351), ('Gamma', 2.6)),
    'p3_d65_to_xyz': (('Gamma', 2.6), 'REC709', P3, D65, ('Gamma', 2.6)),
    'p3_d60_to_xyz': (('Gamma', 2.6), 'REC709', P3, (0.32168, 0.33767), ('Gamma', 2.6)),
    'rec1886_to_xyz': (('Gamma', 2.4), 'REC709', G709, D65, ('Gamma', 2.6)),
    'rec2020_to_xyz': (('Gamma', 2.4), 'REC2020', [(0.708, 0.292), (0.17, 0.797), (0.131, 0.046)], D65, ('Gamma', 2.6)),
    's_gamut3_to_xyz': (('SGamut3',), 'REC709', [(0.73, 0.28), (0.14, 0.855), (0.1, -0.05)], D65, ('Identity',)),
}


def strip(t):
    while t[0] in ('cast', 'deref', 'addr'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def number(t):
    t = strip(t)
    if t[0] == 'un' and t[1] == '-':
        return -number(t[2])
    if t[0] in ('const', 'float'):
        return float(t[1])
    raise Unknown('a number is %s' % show(t))


def chroma(t):
    t = strip(t)
    while t[0] == 'obj' and len(t) == 3:
        t = strip(t[2])
    if t[0] in ('obj', 'list') and t[1].endswith('Chromaticity') and len(t) == 4:
        return number(t[2]), number(t[3])
    raise Unknown('a chromaticity is %s' % show(t))


def definition(g, t):
    """The node that gives a temporary or local its only value"""
    ns = [n for n in g.nodes if (n.k in ('call', 'new') and n.dst == t) or (n.k == 'assign' and n.lhs == t)]
    if len(ns) != 1:
        raise Unknown('%s has %d definitions' % (show(t), len(ns)))
    n = ns[0]
    if n.k == 'assign':
        return definition(g, strip(n.rhs))
    if n.k == 'call' and n.d.get('ctor', '') and n.d['ctor'].startswith('std::') and len(n.args) == 1:
        return definition(g, strip(n.args[0]))
    return n


def curve_of(g, t, e):
    n = definition(g, strip(t))
    m = None
    if n.k == 'call' and n.q.split('::')[-1] == 'make_shared':
        m = re.search(r'dcp::(\w+)TransferFunction', n.fn.type(n.e['t']))
        args = n.args
    elif n.k == 'new':
        m = re.search(r'dcp::(\w+)TransferFunction', n.d['type'])
        args = n.args
    if not m:
        raise Unknown('a curve is %s' % show(t))
    out = [m.group(1)]
    env = e.states[[k for k in e.states if k[0] == n.id][0]]
    for a in args:
        v = e.ev(a, env)
        if len(v) != 1:
            raise Unknown('several values')
        out.append(number(next(iter(v))))
    return tuple(out)


def same(a, b):
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else abs(x - y) < 1e-9 for x, y in zip(a, b))


def presets(ctx, prog):
    for name, (curve, yuv, prim, white, out) in sorted(PRESETS.items()):
        fs = [f for f in prog.get(Q + name) if f.body is not None]
        if not fs:
            ctx.skip('presets', '%s not found' % name)
            continue
        ctx.attempt('presets', name, lambda: preset(ctx, prog, fs[0], name, curve, yuv, prim, white, out))


def preset(ctx, prog, f, name, curve, yuv, prim, white, out):
    g = graph(ctx, prog, f, Q + '(ctor)', 'dcp::Chromaticity::(ctor)')
    e = TextEval(g, None, None).run()
    made = []
    for n in g.nodes:
        if (n.k == 'call' and n.d.get('ctor') == 'dcp::ColourConversion' or n.k == 'new' and n.d.get('cls') == 'dcp::ColourConversion') and n.id in e.executed and len(n.args) == 8:
            made.append(n)
    if len(made) != 1:
        raise Unknown('%d conversions are made' % len(made))
    n = made[0]
    env = e.states[[k for k in e.states if k[0] == n.id][0]]
    vals = []
    for a in n.args:
        v = e.ev(a, env)
        if len(v) != 1:
            raise Unknown('an argument has several values')
        vals.append(next(iter(v)))

    def put(what, got, want):
        ctx.expect(same(got, want), 'presets', n.file, n.line, f.q, '%s: %s is %s, and should be %s' % (name, what, got, want), '%s:%s' % (name, what), '%s: %s' % (name, what))
    put('the curve', curve_of(g, n.args[0], e), curve)
    y = strip(vals[1])
    if y[0] == 'enum':
        put('the YUV matrix', (y[1].split('::')[-1],), (yuv,))
    for what, v, w in zip(('red', 'green', 'blue', 'white'), vals[2:6], list(prim) + [white]):
        put(what, chroma(v), w)
    put('the curve of the result', curve_of(g, n.args[7], e), out)


def parts(ctx, prog):
    """The constructor, setters and accessors keep each part in its place"""
    names = ['in', 'yuv_to_rgb', 'red', 'green', 'blue', 'white', 'adjusted_white', 'out']
    f = one(prog, Q + '(ctor)', lambda f: len(f.params) == 8)
    g = graph(ctx, prog, f)
    e = TextEval(g, None, None).run()
    for n, p in zip(names, g.params):
        v = frozenset(e.member('_' + n) or ())
        ctx.expect(v == frozenset([p]), 'parts', f.file, f.line, f.q, '_%s becomes %s' % (n, ', '.join(show(x) for x in v)), 'ctor:' + n, 'constructor: ' + n)
    for n in names:
        for f in [f for f in prog.get(Q + n) if f.body is not None and not f.params]:
            g = graph(ctx, prog, f)
            e = TextEval(g, None, None).run()
            ctx.expect(frozenset(e.returns) == frozenset([mem('_' + n)]), 'parts', f.file, f.line, f.q, '%s() gives %s' % (n, ', '.join(show(x) for x in e.returns)), 'get:' + n, n)
        for f in [f for f in prog.get(Q + 'set_' + n) if f.body is not None and len(f.params) == 1]:
            g = graph(ctx, prog, f)
            e = TextEval(g, None, None).run()
            for m in names:
                v = frozenset(e.member('_' + m) or ())
                want = g.params[0] if m == n else mem('_' + m)
                ok = v == frozenset([want]) or (m == n and len(v) == 1 and any(x == want for x in sub(next(iter(v)))))
                ctx.expect(ok, 'parts', f.file, f.line, f.q, 'set_%s makes _%s %s' % (n, m, ', '.join(show(x) for x in v)), 'set:%s:%s' % (n, m), 'set_' + n)
    f = one(prog, 'dcp::Chromaticity::z')
    g = graph(ctx, prog, f)
    for conds, r, env in Walk(g).run():
        ctx.expect(isinstance(r, Rat) and r.near(const(1) - atom(mem('x')) - atom(mem('y'))), 'parts', f.file, f.line, f.q, 'z is %s' % (r.show() if isinstance(r, Rat) else '?'), 'z', 'z')
    f = one(prog, 'dcp::Chromaticity::D65')
    g = graph(ctx, prog, f, 'dcp::Chromaticity::(ctor)')
    e = TextEval(g, None, None).run()
    if len(e.returns) == 1:
        ctx.expect(same(chroma(next(iter(e.returns))), D65), 'parts', f.file, f.line, f.q, 'D65 is %s' % show(next(iter(e.returns))), 'd65', 'D65')


def sub(t):
    yield t
    for i in t:
        if isinstance(i, tuple) and i:
            yield from sub(i)


def definite(ctx, prog, rule, fn):
    try:
        fn(ctx, prog)
    except Wrong as e:
        f = one(prog, ('dcp::combined_rgb_to_xyz' if fn is combined else Q + fn.__name__))
        ctx.violation(rule, f.file, f.line, f.q, str(e), '%s:element' % fn.__name__)


def check(ctx, prog):
    ctx.rule('primaries', 'each column of the matrix from RGB to XYZ is in the direction of its primary', 6)
    ctx.rule('white', 'the matrix from RGB to XYZ takes white to the white point with luminance 1', 3)
    ctx.rule('inverse', 'the matrix from XYZ to RGB is the inverse of that from RGB to XYZ', 2)
    ctx.rule('no adaptation', 'without an adjusted white the adaptation is the identity', 2)
    ctx.rule('adaptation', 'the adaptation takes the white to the adjusted white by scaling the cone responses of Bradford', 15)
    ctx.rule('combined', 'the combined matrix is the product of the adaptation and the matrix from RGB to XYZ, with companding', 9)
    ctx.rule('presets', 'the built-in conversions have the published primaries, white points and curves', 40)
    ctx.rule('parts', 'each part of a conversion is kept in its place', 20)
    for rule, fn in (('white', rgb_to_xyz), ('inverse', xyz_to_rgb), ('adaptation', bradford), ('combined', combined), ('presets', presets), ('parts', parts)):
        ctx.attempt(rule, fn.__name__, lambda: definite(ctx, prog, rule, fn))
