"""C26: tables of transfer functions hold their curve over the range they were asked for"""

import ir
import poly
from cfg import Graph, show
from loops import LoopEval, table
from tables import INDEX, Unknown, Wrong, filled, untouched
from absint import TOP

SOURCES = ['transfer_function.cc', 'gamma_transfer_function.cc', 'identity_transfer_function.cc', 'modified_gamma_transfer_function.cc', 's_gamut3_transfer_function.cc', 'rgb_xyz.cc']

EXPLANATION = (
    'Each function that fills a table is evaluated with one generic iteration of its loop, for both directions and for both sides of each condition that depends on the entry. '
    'The range of the index must be that of the whole table; the entry, as a normal form in which the index is replaced by the point of the range that it stands for, must be that of the curve '
    'and depend on the range in no other way; the place where the curve changes over must be the one of its definition.')

THIS = ('deref', ('this',))
Q, D, M = ('q',), ('width',), ('last',)


def member(n):
    return ('mem', THIS, n)


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp'))


def strip(t):
    while t[0] == 'cast':
        t = t[2]
    return t


def is_length(t, bits, alloc=None):
    """Whether a term is 2 to the number of bits"""
    t = strip(t)
    if t[0] == 'call' and t[2] is None:
        n = t[1].replace('std::', '').lstrip(':')
        a = [strip(x) for x in t[3]]
        if n in ('pow', 'powf') and len(a) == 2 and a[0][0] in ('float', 'const') and a[0][1] == 2 and a[1] == bits:
            return True
        if n in ('lrint', 'lround', 'round', 'floor', 'llrint') and len(a) == 1:
            return is_length(a[0], bits)
        if n in ('exp2', 'exp2f') and a == [bits]:
            return True
        if n in ('ldexp', 'scalbn') and len(a) == 2 and a[0][0] in ('float', 'const') and a[0][1] == 1 and a[1] == bits:
            return True
    if t[0] == 'bin' and t[1] == '<<' and strip(t[2])[0] == 'const' and strip(t[2])[1] == 1 and strip(t[3]) == bits:
        return True
    if t[0] == 'size':
        o = t[1]
        return o[0] == 'obj' and o[1] == 'std::vector' and len(o) >= 3 and is_length(o[2], bits)
    return False


def call(name, *a):
    return poly.mul(poly.const(1), poly.call(name, *[poly.rounded(i) for i in a]))


def curves():
    """class -> inverse -> (threshold or None, upper part, lower part), as functions of the point"""
    q = poly.atom(Q)
    c = poly.const
    m = lambda n: poly.atom(member(n))
    inv = poly.inverse
    add = poly.add
    sub = lambda a, b: poly.add(a, b, -1)
    mul = poly.mul
    div = lambda a, b: poly.mul(a, poly.inverse(b))
    log10 = lambda a: div(call('log', a), call('log', c(10)))
    A, B, P, T = m('_A'), m('_B'), m('_power'), m('_threshold')
    cut = c(171.2102946929)
    return {
        'dcp::GammaTransferFunction': {0: (None, poly.power(q, m('_gamma')), None), 1: (None, poly.power(q, inv(m('_gamma'))), None)},
        'dcp::IdentityTransferFunction': {0: (None, q, None), 1: (None, q, None)},
        'dcp::ModifiedGammaTransferFunction': {
            0: (T, poly.power(div(add(q, A), add(c(1), A)), P), div(q, B)),
            1: (div(T, B), sub(mul(add(c(1), A), poly.power(q, inv(P))), A), mul(q, B))},
        'dcp::SGamut3TransferFunction': {
            0: (div(cut, c(1023)), sub(mul(poly.power(c(10), div(sub(mul(q, c(1023)), c(420)), c(261.5))), c(0.19)), c(0.01)),
                div(mul(sub(mul(q, c(1023)), c(95)), c(0.01125)), sub(cut, c(95)))),
            1: (c(0.01125), div(add(c(420), mul(log10(div(add(q, c(0.01)), c(0.19))), c(261.5))), c(1023)),
                div(add(div(mul(q, sub(cut, c(95))), c(0.01125)), c(95)), c(1023)))},
    }


KNOWN_CALLS = ('pow', 'log')


def vocabulary(p, params):
    for a in poly.atoms(p):
        if a in (Q, D, M, INDEX) or a in params:
            continue
        if a[0] == 'mem' and a[1] == THIS:
            continue
        if a[0] == 'call' and a[1] in KNOWN_CALLS and len(a) == 3 and isinstance(a[2], tuple):
            continue
        if a[0] == 'sum':
            continue
        if a[0] == 'trunc':
            continue
        raise Unknown('an entry uses %s' % poly.show(poly.atom(a)))


def graph(ctx, prog, f, policy=policy):
    g = Graph(prog, f, policy)
    ctx.functions([f.key])
    ctx.functions(g.inlined)
    return g


def single(vs):
    if len(vs) != 1 or TOP in vs:
        raise Unknown('more than one value')
    return next(iter(vs))


def curve(ctx, prog, f, cls, inverse, spec):
    g = graph(ctx, prog, f)
    if len(g.params) != 4:
        raise Unknown('parameters')
    frm, to, bits, inv = g.params
    name = '%s, %s' % (cls.split('::')[-1], 'inverse' if inverse else 'forward')

    def make(d):
        return LoopEval(g, None, {inv: ('const', inverse)}, decide=d).run()
    rows = table(make)
    if rows is None:
        raise Unknown('too many conditions')

    def leaf(t):
        if is_length(t, bits):
            return poly.add(poly.atom(M), poly.const(1))
        s = strip(t)
        if s == to:
            return poly.add(poly.atom(frm), poly.atom(D))
        if s[0] == 'mem' and s[1] == THIS:
            return poly.atom(s)
        if s[0] == 'lv':
            return poly.atom(s)
        return None
    normal = poly.Normal(leaf, lambda t: 'int' if t[0] == 'lv' else 'double')
    point = poly.mul(poly.add(poly.atom(Q), poly.atom(frm), -1), poly.mul(poly.atom(M), poly.inverse(poly.atom(D))))
    thr, upper, lower = spec
    regions = {}
    for d, e in rows:
        if not e.complete:
            raise Unknown('not evaluated')
        if e.unknown:
            raise Unknown('unknown')
        ret = single(e.returns)
        stores = [s for s in e.stores if ret in s[2] or s[2] & e.returns]
        if ret[0] != 'obj' or ret[1] != 'std::vector':
            raise Unknown('the result is %s' % show(ret))
        if not stores:
            if not untouched(e, ret):
                raise Unknown('no entries are seen to be stored')
            ctx.violation('coverage', f.file, f.line, f.q, '%s: no entry is stored%s' % (name, ''.join(' where %s is %s' % (show(c), v) for c, v in d.items())), name + ':stored')
            continue
        appended = any(s[3] == 'append' for s in stores)
        if not appended:
            size = normal(ret[2]) if len(ret) > 2 else {}
            vocabulary(size, g.params)
            ctx.expect(poly.equal(size, poly.add(poly.atom(M), poly.const(1))), 'size', f.file, f.line, f.q,
                       '%s: the table has %s entries rather than 2 to the number of bits' % (name, show(ret[2]) if len(ret) > 2 else 'no'), name + ':size', name)
        elif len(ret) > 2 and ret[2][0] != 'obj':
            raise Unknown('appended to %s' % show(ret))
        for s in stores:
            try:
                lp, first, last, conv = filled(e, s, normal)
            except Wrong as x:
                ctx.violation('coverage', f.file, s[0].line, f.q, '%s: %s' % (name, x), name + ':loop')
                continue
            if last is not None:
                ok = poly.equal(first, {}) and poly.equal(last, poly.atom(M))
                vocabulary(first, g.params)
                vocabulary(last, g.params)
                ctx.expect(ok, 'coverage', f.file, s[0].line, f.q, '%s: entries %s to %s are filled, with %s = the last index' % (name, poly.show(first), poly.show(last), 'last'), name + ':coverage', name)

            def at(p):
                p = conv(p)
                return poly.substitute(p, lambda a: point if a == INDEX else None)
            region = None
            for c, v in d.items():
                if c[0] != 'bin' or c[1] not in ('>', '>='):
                    continue
                x = at(poly.add(normal(c[2]), normal(c[3]), -1))
                vocabulary(x, g.params)
                if thr is None:
                    continue
                # proportional to q - threshold?
                w = poly.add(poly.atom(Q), thr, -1)
                for k in (1, -1):
                    if proportional(x, w, k):
                        region = v if k > 0 else not v
            val = at(normal(single(s[4])))
            vocabulary(val, g.params)
            dep = [a for a in poly.atoms(val) if a in (D, M, INDEX) or a in g.params]
            if dep:
                ctx.violation('range', f.file, s[0].line, f.q,
                              '%s: the entry for the point q of the range depends on the range in another way: %s' % (name, poly.show(val)), name + ':range', name)
                continue
            ctx.ok('range', name)
            if thr is None:
                ctx.expect(poly.equal(val, upper), 'curve', f.file, s[0].line, f.q, '%s: the entry for q is %s rather than %s' % (name, poly.show(val), poly.show(upper)), name + ':curve', name)
                continue
            for high in ([region] if region is not None else [True, False]):
                want = upper if high else lower
                conds = ', '.join('%s is %s' % (show(c), v) for c, v in d.items())
                ctx.expect(poly.equal(val, want), 'curve', f.file, s[0].line, f.q,
                           '%s: the entry for q %s %s is %s rather than %s (where %s)' % (name, 'above' if high else 'below', poly.show(thr), poly.show(val), poly.show(want), conds),
                           '%s:curve:%s' % (name, 'high' if high else 'low'), name)
                regions[high] = True
    if thr is not None:
        ctx.expect(len(regions) == 2, 'curve', f.file, f.line, f.q, '%s: only one side of %s is evaluated' % (name, poly.show(thr)), name + ':sides', name)


def proportional(x, w, sign):
    """Whether x is w times something positive: a constant, or (w cleared of a divisor) one of the members"""
    x = poly.rounded(x)
    lead = x.get(((Q, 1),))
    if lead is not None and (lead > 0) == (sign > 0):
        if poly.equal(poly.scale(x, 1 / lead), w):
            return True
    # q * B - threshold for q - threshold / B
    for m, c in x.items():
        fs = dict(m)
        if fs.get(Q) == 1 and len(m) == 2 and (c > 0) == (sign > 0):
            other = [(a, e) for a, e in m if a != Q][0]
            k = {(other,): c}
            return poly.equal(poly.mul(x, poly.inverse(k)), w)
    return False


def int_lut(ctx, prog):
    f = prog.one('dcp::TransferFunction::make_int_lut')
    g = graph(ctx, prog, f, lambda a, b, c: policy(a, b, c) and a.q != 'dcp::TransferFunction::double_lut_unlocked')
    if len(g.params) != 5:
        raise Unknown('parameters')

    def make(d):
        return LoopEval(g, None, {}, decide=d).run()
    rows = table(make)
    if rows is None:
        raise Unknown('too many conditions')
    for d, e in rows:
        if not e.complete or e.unknown:
            raise Unknown('not evaluated')
        ret = single(e.returns)
        stores = [s for s in e.stores if ret in s[2]]
        if ret[0] != 'obj' or ret[1] != 'std::vector':
            raise Unknown('the result is %s' % show(ret))
        if not stores:
            if not untouched(e, ret):
                raise Unknown('no entries are seen to be stored')
            ctx.violation('coverage', f.file, f.line, f.q, 'no entry of the table of integers is stored', 'int:stored')
            continue
        source = []

        def is_source(t):
            while t[0] in ('deref', 'cast', 'addr'):
                t = t[1] if t[0] != 'cast' else t[2]
            return t[0] == 'call' and t[1].split('::')[-1] in ('double_lut_unlocked', 'double_lut', 'make_double_lut')

        def leaf(t):
            s = strip(t)
            if s[0] == 'size' and is_source(s[1]):
                return poly.add(poly.atom(M), poly.const(1))
            if s[0] == 'size' and s[1] == ret and len(ret) > 2:
                return normal(ret[2])
            if s[0] in ('idx', 'at') and is_source(s[1]):
                source.append(s[1])
                return poly.atom(('entry', poly.key(normal(s[2]))))
            if s[0] == 'lv':
                return poly.atom(s)
            return None
        normal = poly.Normal(leaf, lambda t: 'int' if t[0] in ('lv', 'var') else 'double')
        appended = any(s[3] == 'append' for s in stores)
        if not appended:
            ctx.expect(len(ret) > 2 and poly.equal(normal(ret[2]), poly.add(poly.atom(M), poly.const(1))), 'size', f.file, f.line, f.q, 'the table of integers has %s entries' % (show(ret[2]) if len(ret) > 2 else 'no'), 'int:size', 'integers')
        for s in stores:
            try:
                lp, first, last, conv = filled(e, s, normal)
            except Wrong as x:
                ctx.violation('coverage', f.file, s[0].line, f.q, 'the table of integers: %s' % x, 'int:loop')
                continue
            if last is not None:
                ctx.expect(poly.equal(first, {}) and poly.equal(last, poly.atom(M)), 'coverage', f.file, s[0].line, f.q, 'entries %s to %s of the table of integers are filled' % (poly.show(first), poly.show(last)), 'int:coverage', 'integers')
            v = strip(single(s[4]))
            if v[0] != 'call' or v[1].replace('std::', '').lstrip(':') not in ('lrint', 'lround', 'llrint', 'llround', 'rint', 'round', 'nearbyint', 'lrintf'):
                if v[0] in ('idx', 'at', 'bin'):
                    ctx.violation('rounding', f.file, s[0].line, f.q, 'the entry is %s, not the nearest integer' % show(v), 'int:rounding', 'integers')
                    continue
                raise Unknown('the entry is %s' % show(v))
            ctx.ok('rounding', 'integers')
            val = conv(normal(v[3][0]))
            ok = False
            for a in [a for a in poly.atoms(val) if a[0] == 'entry']:
                i = conv(dict(a[1]))
                if poly.equal(i, poly.atom(INDEX)):
                    ok = poly.equal(val, poly.mul(poly.atom(a), poly.atom(g.params[4])))
            ctx.expect(ok, 'scaling', f.file, s[0].line, f.q, 'entry i of the table of integers is the nearest integer to %s' % poly.show(val), 'int:scaling', 'integers')
            for t in source:
                while t[0] in ('deref', 'cast', 'addr'):
                    t = t[1] if t[0] != 'cast' else t[2]
                ctx.expect(tuple(strip(a) for a in t[3]) == tuple(g.params[:4]), 'arguments', f.file, s[0].line, f.q, 'the table of integers is made from %s' % show(t), 'int:source', 'integers')


def accessors(ctx, prog):
    """Constructors put each parameter in its member"""
    from textread import TextEval
    for cls, members in (('dcp::GammaTransferFunction', ['_gamma']), ('dcp::ModifiedGammaTransferFunction', ['_power', '_threshold', '_A', '_B'])):
        for f in [f for f in prog.get(cls + '::(ctor)') if f.body is not None and len(f.params) == len(members)]:
            g = graph(ctx, prog, f)
            e = TextEval(g, None, None).run()
            for m, p in zip(members, g.params):
                v = e.member(m) or ()
                ctx.expect(frozenset(v) == frozenset([p]), 'parameters', f.file, f.line, f.q, '%s of %s becomes %s' % (m, cls, ', '.join(show(x) for x in v)), '%s:%s' % (cls, m), cls)
        for m in members:
            for f in [f for f in prog.get('%s::%s' % (cls, m[1:])) if f.body is not None and not f.params]:
                g = graph(ctx, prog, f)
                e = TextEval(g, None, None).run()
                ctx.expect(e.returns == {member(m)}, 'parameters', f.file, f.line, f.q, '%s gives %s' % (f.q, ', '.join(show(x) for x in e.returns)), f.q, cls)


def piecewise(ctx, prog):
    cls = 'dcp::PiecewiseLUT2'
    fs = [f for f in prog.get(cls + '::(ctor)') if f.body is not None and len(f.params) == 6]
    if not fs:
        raise Unknown('no constructor')
    f = fs[0]
    g = graph(ctx, prog, f, lambda a, b, c: policy(a, b, c) and 'int_lut' not in a.q)
    e = LoopEval(g, None, {}).run()
    fn, boundary, low, high, inv, scale = g.params

    def zero_or(t, x):
        return strip(t) == x if not isinstance(x, int) else strip(t)[0] in ('const', 'float') and strip(t)[1] == x
    for m, want in (('_low', (0, boundary, low, inv, scale)), ('_high', (boundary, 1, high, inv, scale))):
        v = single(e.member(m) or ())
        while v[0] in ('cast', 'deref') or (v[0] == 'obj' and len(v) == 3):
            v = v[2] if v[0] in ('cast', 'obj') else v[1]
        if v[0] != 'call' or not v[1].endswith('::int_lut'):
            raise Unknown('%s is %s' % (m, show(v)))
        ctx.expect(len(v[3]) == 5 and all(zero_or(a, b) for a, b in zip(v[3], want)), 'piecewise', f.file, f.line, f.q, 'the piece %s of a piecewise table is made by %s' % (m, show(v)), 'pw:' + m, 'pieces')
    ctx.expect(frozenset(e.member('_boundary') or ()) == frozenset([boundary]), 'piecewise', f.file, f.line, f.q, 'the boundary of a piecewise table becomes %s' % ', '.join(show(x) for x in e.member('_boundary') or ()), 'pw:boundary', 'pieces')
    for m, bits in (('_low_scale', low), ('_high_scale', high)):
        n = poly.Normal(lambda t: poly.add(poly.atom(M), poly.const(1)) if is_length(t, bits) else None, lambda t: 'int')
        v = n(single(e.member(m) or ()))
        ctx.expect(poly.equal(v, poly.atom(M)), 'piecewise', f.file, f.line, f.q, '%s is %s, with 2 to the number of bits less one = last' % (m, poly.show(v)), 'pw:' + m, 'pieces')
    fs = [f for f in prog.get(cls + '::lookup') if f.body is not None]
    if not fs:
        raise Unknown('no lookup')
    f = fs[0]
    g = graph(ctx, prog, f)
    x = g.params[0]
    rows = table(lambda d: LoopEval(g, None, {}, decide=d).run())
    n = poly.Normal(lambda t: None, lambda t: 'double')
    b = poly.atom(member('_boundary'))
    for d, e in rows:
        if len(d) != 1:
            raise Unknown('the lookup has %d conditions' % len(d))
        (c, v), = d.items()
        if c[0] != 'bin' or c[1] not in ('>', '>='):
            raise Unknown('condition')
        w = poly.add(n(c[2]), n(c[3]), -1)
        diff = poly.add(poly.atom(x), b, -1)
        if poly.equal(w, diff):
            up = v
        elif poly.equal(w, poly.scale(diff, -1)):
            up = not v
        else:
            ctx.violation('piecewise', f.file, f.line, f.q, 'the piece is chosen by %s' % show(c), 'pw:choice', 'pieces')
            continue
        if not e.complete or e.unknown:
            raise Unknown('not evaluated')
        r = strip(single(e.returns))
        if r[0] not in ('idx', 'at') or strip(r[2])[0] != 'call' or strip(r[2])[1].replace('std::', '') not in ('lrint', 'lround', 'round', 'rint'):
            raise Unknown('the lookup gives %s' % show(r))
        i = n(strip(r[2])[3][0])
        xs = poly.atom(x)
        if up:
            want = poly.mul(poly.mul(poly.add(xs, b, -1), poly.inverse(poly.add(poly.const(1), b, -1))), poly.atom(member('_high_scale')))
        else:
            want = poly.mul(poly.mul(xs, poly.inverse(b)), poly.atom(member('_low_scale')))
        ctx.expect(r[1] == member('_high' if up else '_low') and poly.equal(i, want), 'piecewise', f.file, f.line, f.q,
                   'a value %s the boundary is looked up in %s at %s' % ('above' if up else 'below', show(r[1]), poly.show(i)), 'pw:lookup:%s' % ('high' if up else 'low'), 'pieces')


def check(ctx, prog):
    ctx.rule('size', 'a table has 2 to the number of bits entries', 8)
    ctx.rule('coverage', 'every entry of a table is filled', 8)
    ctx.rule('range', 'an entry depends on the range only through the point of the range that it stands for', 8)
    ctx.rule('curve', 'an entry is the value of the curve at its point', 8)
    ctx.rule('rounding', 'tables of integers hold the nearest integers', 1)
    ctx.rule('scaling', 'entry i of a table of integers is entry i of the table times the scale', 1)
    ctx.rule('arguments', 'a table of integers is made from the table of the same range, depth and direction', 1)
    ctx.rule('parameters', 'the parameters of a curve go to the members of their names, and the accessors give those', 5)
    ctx.rule('piecewise', 'a piecewise table is made of the tables below and above its boundary, and looks a value up in the right one at the right place', 5)
    specs = curves()
    for c in sorted(specs):
        fs = [f for f in prog.get(c + '::make_double_lut') if f.body is not None]
        if not fs:
            raise ir.AnalysisBroken('%s::make_double_lut not found' % c)
        for inverse in (0, 1):
            ctx.attempt('curve', '%s %s' % (c, 'inverse' if inverse else 'forward'), lambda: curve(ctx, prog, fs[0], c, inverse, specs[c][inverse]))
    ctx.attempt('scaling', 'make_int_lut', lambda: int_lut(ctx, prog))
    ctx.attempt('parameters', 'constructors', lambda: accessors(ctx, prog))
    ctx.attempt('piecewise', 'PiecewiseLUT2', lambda: piecewise(ctx, prog))
