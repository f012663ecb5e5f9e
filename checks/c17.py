"""C17: arithmetic on the times of texts and markers keeps the instant, and their texts are read as written"""

from fractions import Fraction

import paths
import poly
from cfg import Graph
from ir import AnalysisBroken
from paths import Other, Paths, Record, Unknown
from textread import TextEval, digits, lits

SOURCES = ['dcp_time.cc']

EXPLANATION = (
    'Every path through each function that makes, adds, subtracts, converts or counts times is followed with polynomials of the parts of the times: '
    'on each the result must be the same instant, as an identity of polynomials, and have each part within its bounds, which follows from the conditions of the path. '
    'Where that cannot be shown, values are looked for that refute the formulas of the path. The texts of times are compared part by part with what is read from them.')

PARTS = ('h', 'm', 's', 'e', 'tcr')


def time(name):
    return Record((p, poly.atom(('whole', name, p))) for p in PARTS)


def seconds(t):
    return poly.add(poly.add(poly.scale(t['h'], 3600), poly.scale(t['m'], 60)), poly.add(t['s'], poly.mul(t['e'], poly.inverse(t['tcr']))))


def count(t):
    """units in the whole seconds and the rest"""
    return poly.add(poly.mul(poly.add(poly.add(poly.scale(t['h'], 3600), poly.scale(t['m'], 60)), t['s']), t['tcr']), t['e'])


def bounds(t):
    one = poly.const(1)
    r = [t['h'], t['m'], t['s'], t['e'], poly.add(t['tcr'], one, -1), poly.add(poly.add(t['tcr'], one, -1), t['e'], -1)]
    return r + [poly.add(poly.const(59), t[p], -1) for p in 'ms']


def call(name, p):
    return poly.atom(('call', name, (poly.key(p),)))


def atoms(p):
    """every atom of a polynomial, also within the arguments of functions"""
    out = set()
    for m in p:
        for a, n in m:
            out.add(a)
            if a[0] == 'call':
                for k in a[2]:
                    out |= atoms(dict(k))
            elif a[0] == 'sum':
                out |= atoms(dict(a[1]))
    return out


def check(ctx, prog):
    ctx.rule('instant', 'the result of an operation is the instant that it means, whatever the rates', 12)
    ctx.rule('bounds', 'the minutes, seconds and units of a result are within their bounds', 20)
    ctx.rule('count', 'the seconds or units that a time counts are those from the beginning, rounded as asked for', 4)
    ctx.rule('text', 'the text of a time has its parts in order, and reading takes each from its place', 6)

    def find(q, pred=lambda f: True):
        fs = [f for f in prog.get(q) if f.body is not None and pred(f)]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    is_time = lambda f, i: len(f.params) > i and f.type(f.params[i]['t']).replace('const ', '').replace('&', '').strip() == 'dcp::Time'
    typed = lambda *ts: lambda f: len(f.params) == len(ts) and all(t in f.type(p['t']) for t, p in zip(ts, f.params))

    def given(values):
        return {('whole', n, p): v for n, t in values.items() if isinstance(t, tuple) for p, v in zip(PARTS, (Fraction(x) for x in t))}

    SOME = [(1, m, s, e, r) for m in (0, 59) for s in (0, 59) for e, r in ((0, 24), (23, 24), (12, 24), (24, 25), (249, 250), (3, 4), (998, 1000))]
    pairs = [given({'a': a, 'b': b}) for a in SOME for b in SOME]
    RATES = (1, 24, 25, 30, 250, 1000)
    rated = [{**given({'this': a}), ('whole', 'tcr_'): Fraction(r)} for a in SOME for r in RATES]
    LENGTHS = [Fraction(x) for x in (0, 1, 59, 60, 61, 3599, 3600, 7325)]
    lengths = [{('seconds',): x + y, ('whole', 'tcr_'): Fraction(r)} for x in LENGTHS for y in (0, Fraction(1, 2), Fraction(999, 1000), Fraction(9999, 10000), Fraction(1, 24)) for r in RATES]
    frames = [{('whole', 'frame'): Fraction(n), ('fps',): Fraction(r), ('whole', 'tcr_'): Fraction(t)} for n in (0, 1, 23, 24, 25, 1439, 1440, 86399, 86400, 100000) for r in (24, 25, Fraction(24000, 1001)) for t in RATES]

    def follow(f, args, this, base, positive, samples, wanted, whole=True, label=None):
        """wanted(value, this) -> (rule, [(what, polynomial that is 0 or a function of the samples giving what is allowed)], Record whose parts are bounded or None)"""
        label = label or f.q.split('::')[-1]

        def go():
            e = Paths(prog)
            ends = e.run(f, args, this)
            ctx.functions(e.functions)
            if not ends:
                raise Unknown('it never returns')
            for n, (v, t, p) in enumerate(ends):
                rule, zeros, bounded, near = wanted(v, t)
                facts = [(d, op, w) for d, op, w in p.facts if isinstance(d, dict)]
                for what, z in zeros:
                    decide(rule, '%s: %s' % (label, what), z, facts, near, n)
                if bounded is not None:
                    for part in ('e', 's', 'm'):
                        top = poly.add(bounded['tcr'], poly.const(1), -1) if part == 'e' else poly.const(59)
                        limits(part, bounded[part], top, facts, n)

        def taken(facts):
            for s in samples:
                try:
                    if paths.holds(facts, s):
                        yield s
                except ZeroDivisionError:
                    pass

        def sample(s):
            return ', '.join('%s %s' % ('.'.join(str(i) for i in k if i != 'whole'), float(v) if v != int(v) else int(v)) for k, v in sorted(s.items(), key=repr))

        # a division by a sum does not cancel, so identities with one are looked at with numbers
        def decide(rule, what, z, facts, near, n):
            for d, op, w in facts:
                if op == '==':
                    # x == y: one for the other
                    z = reduced(z, d)
            if poly.equal(z, {}):
                ctx.ok(rule, '%s (path %d)' % (what, n))
                return
            known = False
            for s in taken(facts):
                known = True
                v = paths.number(z, s)
                if abs(v) > near(s):
                    ctx.violation(rule, f.file, f.line, f.q, '%s is not what it means: for %s it is wrong by %g' % (what, sample(s), float(v)), '%s:%s:%s' % (rule, f.key, what))
                    return
            ctx.skip(rule, '%s (path %d): not shown%s' % (what, n, '' if known else ', and never taken'))

        def reduced(z, d):
            (m, c) = next(((m, c) for m, c in d.items() if len(m) == 1 and m[0][1] == 1), (None, None))
            if m is None:
                return z
            a = m[0][0]
            rest = poly.scale(poly.add(d, {m: c}, -1), -1 / c)
            if len(rest) != 1:
                return z
            return poly.substitute(z, lambda x: rest if x == a else None)

        def limits(part, v, top, facts, n):
            facts0 = list(base)
            more = []
            for d, op, w in facts:
                k = poly.const(1) if w else {}
                if op in ('>=', '=='):
                    more.append(d)
                if op in ('<=', '=='):
                    more.append(poly.scale(d, -1))
                if op == '>':
                    more.append(poly.add(d, k, -1))
                if op == '<':
                    more.append(poly.add(poly.scale(d, -1), k, -1))
            half = poly.const(Fraction(1, 2))
            calls = set()
            for x in [v, top] + [d for d, op, w in facts]:
                calls |= {a for a in atoms(x) if a[0] == 'call'}
            nonneg = [a for f0 in base for m in f0 if len(m) == 1 and f0[m] > 0 and len(f0) == 1 for a, k in m]
            pr = paths.Prover(facts0 + more, positive, nonneg)
            for a in sorted(calls, key=lambda a: len(repr(a))):
                x = dict(a[2][0])
                y = poly.atom(a)
                if a[1] == 'round':
                    pr.more([poly.add(poly.add(y, x, -1), half), poly.add(poly.add(x, y, -1), half)])
                elif a[1] == 'floor':
                    pr.more([poly.add(x, y, -1), poly.add(poly.add(y, poly.const(1)), x, -1)])
                elif a[1] == 'ceil':
                    pr.more([poly.add(y, x, -1), poly.add(poly.add(x, poly.const(1)), y, -1)])
                elif a[1] == 'idiv':
                    c = dict(a[2][1])
                    if pr.proves(x) and poly.value(c) is not None and poly.value(c) > 0:
                        r = poly.add(x, poly.mul(c, y), -1)
                        pr.more([r, poly.add(poly.add(c, poly.const(1), -1), r, -1), y])
            for what, q in (('at least 0', v), ('less than its limit', poly.add(top, v, -1))):
                words = '%s: %s is %s' % (label, {'e': 'units', 's': 'seconds', 'm': 'minutes'}[part], what)
                # these are whole numbers, so that more than -1 is at least 0
                if pr.proves(poly.add(q, half)):
                    ctx.ok('bounds', '%s (path %d)' % (words, n))
                    continue
                for s in taken(facts):
                    if paths.number(q, s) < 0:
                        ctx.violation('bounds', f.file, f.line, f.q, '%s are beyond their bounds (%s) for %s' % ({'e': 'the units', 's': 'the seconds', 'm': 'the minutes'}[part], paths.number(v, s), sample(s)), 'bounds:%s:%s:%s' % (f.key, part, what))
                        return
                ctx.skip('bounds', '%s (path %d)' % (words, n))
        try:
            ctx.attempt('instant', label, go)
        except ZeroDivisionError:
            ctx.skip('instant', label)

    a, b, this = time('a'), time('b'), time('this')
    rate = poly.atom(('whole', 'tcr_'))
    exact = lambda s: 0
    A, B = bounds(a), bounds(b)
    tcrs = [('whole', 'a', 'tcr'), ('whole', 'b', 'tcr')]

    def whole_units(t, r):
        return poly.mul(poly.add(poly.add(poly.scale(t['h'], 3600), poly.scale(t['m'], 60)), t['s']), r)

    for op, k in (('+', 1), ('-', -1)):
        f = find('dcp::operator' + op, lambda f: is_time(f, 0) and is_time(f, 1))
        want = poly.add(seconds(a), seconds(b), k)
        follow(f, [a, b], None, A + B, tcrs, pairs, lambda v, t: ('instant', [('instant', poly.add(seconds(v), want, -1))], v, exact), label='operator' + op)
        g = find('dcp::Time::operator%s=' % op)
        follow(g, [b], a, A + B, tcrs, pairs, lambda v, t: ('instant', [('instant', poly.add(seconds(t), want, -1))], None, exact), label='operator%s=' % op)

    f = find('dcp::operator/', lambda f: is_time(f, 0) and is_time(f, 1))
    want = poly.mul(seconds(a), poly.inverse(seconds(b)))
    follow(f, [a, b], None, A + B, tcrs, pairs, lambda v, t: ('count', [('ratio', poly.add(v, want, -1))], None, lambda s: Fraction(1, 10000)), label='operator/')

    T = bounds(this) + [poly.add(rate, poly.const(1), -1)]
    pos = [('whole', 'this', 'tcr'), ('whole', 'tcr_')]
    f = find('dcp::Time::rebase')
    want = poly.mul(seconds(this), rate)
    follow(f, [rate], this, T, pos, rated, lambda v, t: ('instant', [('rate', poly.add(v['tcr'], rate, -1)), ('instant', poly.add(poly.add(count(v), whole_units(this, rate), -1), call('round', poly.mul(this['e'], poly.mul(rate, poly.inverse(this['tcr'])))), -1))], v, lambda s: Fraction(501, 1000)))

    for n in ('floor', 'ceil'):
        f = find('dcp::Time::as_editable_units_' + n)
        rest = poly.mul(this['e'], poly.mul(rate, poly.inverse(this['tcr'])))
        follow(f, [rate], this, T, pos, rated, lambda v, t: ('count', [('units', poly.add(poly.add(v, whole_units(this, rate), -1), call(n, rest), -1))], None, exact))
    f = find('dcp::Time::as_editable_units')
    follow(f, [], this, T, pos, rated, lambda v, t: ('count', [('units', poly.add(v, count(this), -1))], None, exact))
    f = find('dcp::Time::as_seconds')
    follow(f, [], this, T, pos, rated, lambda v, t: ('count', [('seconds', poly.add(v, seconds(this), -1))], None, exact))

    secs = poly.atom(('seconds',))
    L = [secs, poly.add(rate, poly.const(1), -1)]

    def from_seconds(x):
        low = call('floor', x)
        units = call('round', poly.mul(poly.add(x, low, -1), rate))
        return poly.add(poly.mul(low, rate), units)
    f = find('dcp::Time::(ctor)', typed('double', 'int'))
    follow(f, [secs, rate], Record(), L + [call('floor', secs)], [('whole', 'tcr_')], lengths, lambda v, t: ('instant', [('rate', poly.add(t['tcr'], rate, -1)), ('instant', poly.add(count(t), from_seconds(secs), -1))], t, lambda s: Fraction(501, 1000)), label='time from seconds')
    f = find('dcp::Time::(ctor)', typed('int', 'double', 'int'))
    frame, fps = poly.atom(('whole', 'frame')), poly.atom(('fps',))
    x = poly.mul(frame, poly.inverse(fps))
    follow(f, [frame, fps, rate], Record(), [frame, poly.add(rate, poly.const(1), -1), call('floor', x)], [('whole', 'tcr_'), ('fps',)], frames, lambda v, t: ('instant', [('rate', poly.add(t['tcr'], rate, -1)), ('instant', poly.add(count(t), from_seconds(x), -1))], t, lambda s: Fraction(501, 1000)), label='time of a frame')
    f = find('dcp::Time::(ctor)', typed('int', 'int', 'int', 'int', 'int'))
    five = [poly.atom(('whole', 'this', p)) for p in PARTS]
    follow(f, five, Record(), T, pos, rated, lambda v, t: ('instant', [('part ' + p, poly.add(t[p], x, -1)) for p, x in zip(PARTS, five)], None, exact), label='time of parts')

    # texts
    writer = find('dcp::Time::as_string')
    member = lambda n: ('mem', ('deref', ('this',)), n)
    standards = dict((c[0], c[1]) for c in prog.enum('dcp::Standard')['c'])
    limit = {'h': 99, 'm': 59, 's': 59, 'e': 99}
    for standard, width in (('SMPTE', 2), ('INTEROP', 3)):
        def go():
            g = Graph(prog, writer, lambda callee, caller, depth: callee.file.startswith('src/'))
            ctx.functions([writer] + list(g.inlined))
            e = TextEval(g, None, {g.params[0]: ('enum', 'dcp::Standard::' + standard, standards[standard])}, lambda t: (0, limit[t[2]]) if t[0] == 'mem' and t[2] in limit else None).run()
            r = next(iter(e.returns)) if e.complete and len(e.returns) == 1 else None
            if r is None or r[0] != 'tmpl':
                raise Unknown('text is not of known shape')
            want = digits(member('h'), 2) + lits(':') + digits(member('m'), 2) + lits(':') + digits(member('s'), 2) + lits(':') + digits(member('e'), width)
            ctx.expect(list(r[1:]) == list(want), 'text', writer.file, writer.line, writer.q, 'the text of a time is not HH:MM:SS:%s, each part from the member of that meaning, for %s' % ('E' * width, standard), 'text:write:' + standard, 'text for ' + standard)
        ctx.attempt('text', 'text for ' + standard, go)

    reader = find('dcp::Time::(ctor)', lambda f: len(f.params) == 2 and 'basic_string' in f.type(f.params[0]['t']))
    WHOLE = Other('the text')
    split = lambda v, sep: Other('split', v.key, sep)
    part = lambda v, i: Other('part', v.key, i)
    size = lambda v: poly.atom(('whole', 'size', v.key))
    colons = split(WHOLE, ':')
    point = split(part(colons, 2), '.')

    def special(there):
        def f(e, x, p):
            q, m, op = x.get('q') or '', x.get('m'), x.get('op')
            k = x.get('e')
            if k == 'ctor' and not x.get('a'):
                return [(Other('nothing'), p)] if not (x.get('cls') or '').startswith('dcp::') else None
            if k != 'call':
                return None
            if q == 'boost::throw_exception':
                return []
            if m == 'split':
                out = []
                for a, r in e.all(x['a'][1:3], p):
                    if not isinstance(a[0], Other) or not isinstance(a[1], Other) or a[1].key[0] != 'str' or len(a[1].key[1] or '') != 1:
                        raise Unknown('what is split')
                    e.store(x['a'][0], split(a[0], a[1].key[1]), r)
                    out.append((Other('nothing'), r))
                return out
            if m == 'is_any_of':
                return e.ev(x['a'][0], p)
            if q.startswith('dcp::raw_convert'):
                return [(poly.atom(('read', v.key)), r) for v, r in e.ev(x['a'][0], p) if isinstance(v, Other)]
            o = x.get('o') if isinstance(x.get('o'), dict) else (x['a'][0] if x.get('a') else None)
            if o is None or not (q.startswith('std::') or q.startswith('boost::')):
                return None
            (v, p), = e.ev(o, p)
            if v == Other('rate'):
                if op == '!' or m in ('operator bool', 'is_initialized', 'has_value', 'operator!'):
                    return [(Other('bool', there if op != '!' and m != 'operator!' else not there), p)]
                if m in ('get', 'value') or op in ('*', '->'):
                    return [(rate, p)] if there else []
            if isinstance(v, Other) and v.key[0] in ('split', 'part', 'the text'):
                if op == '[]' or m == 'at':
                    i = [a for a in x['a'] if isinstance(a, dict)][-1]
                    if i.get('cv') is None:
                        (n, p), = e.ev(i, p)
                        n = poly.value(n)
                        if n is None:
                            raise Unknown('which part')
                    else:
                        n = i['cv']
                    return [(part(v, int(n)), p)]
                if m in ('front', 'back') and m == 'front':
                    return [(part(v, 0), p)]
                if m in ('size', 'length'):
                    return [(size(v), p)]
                if m == 'empty':
                    return [(Other('empty', v.key), p)]
            return None
        return f

    for there, n, words in ((False, 3, 'HH:MM:SS.sss'), (False, 4, 'HH:MM:SS:EEE'), (True, 4, 'HH:MM:SS:EE')):
        def go():
            e = Paths(prog, special(there), limit=40000)
            ends = e.run(reader, [WHOLE, Other('rate')], Record())
            ctx.functions(e.functions)
            parts = [part(colons, i) for i in range(5)]
            halves = [part(point, 0), part(point, 1)]
            last = halves if n == 3 else parts[2:4]

            def took(count, lengths, dots=2):
                """what paths end with that are taken for a number of parts of the lengths given"""
                sizes = {colons.key: count, point.key: dots, WHOLE.key: 12}
                sizes.update((q.key, 6) for q in parts)
                sizes.update((q.key, 2) for q in halves)
                sizes.update((q.key, l) for q, l in zip([parts[0], parts[1]] + list(last), lengths))
                given = {('whole', 'size', k): Fraction(v) for k, v in sizes.items()}
                out = []
                for v, t, p in ends:
                    for d, op, yes in p.facts:
                        if isinstance(d, dict):
                            if not paths.holds([(d, op, yes)], given):
                                break
                        elif d[0] == 'is' and d[1][0] == 'empty' and d[1][1] in sizes:
                            if (sizes[d[1][1]] == 0) != yes:
                                break
                        else:
                            raise Unknown('a condition')
                    else:
                        out.append(t)
                return out
            want = {'h': parts[0], 'm': parts[1], 's': last[0], 'e': last[1]}
            for lengths in ((2, 2, 2, 2), (1, 2, 2, 2), (2, 1, 2, 2), (2, 2, 1, 2), (2, 2, 2, 1), (2, 2, 2, 3)):
                ts = took(n, lengths)
                say = '%s with %s digits' % (words, ', '.join(str(l) for l in lengths))
                ctx.expect(bool(ts), 'text', reader.file, reader.line, reader.q, 'the text %s is refused' % say, 'text:refused:' + say, say)
                for t in ts:
                    for k, v in want.items():
                        ctx.expect(t.get(k) == poly.atom(('read', v.key)), 'text', reader.file, reader.line, reader.q, 'the %s of a time are not read from their place in %s' % ({'h': 'hours', 'm': 'minutes', 's': 'seconds', 'e': 'units'}[k], words), 'text:read:%s:%s' % (words, k), '%s of %s' % (k, words))
                    r = rate if there else poly.const(1000 if n == 3 else 250)
                    ctx.expect(t.get('tcr') == r, 'text', reader.file, reader.line, reader.q, 'the rate of a time read from %s is %s, not %s' % (words, poly.show(t.get('tcr') or {}), poly.show(r)), 'text:read:%s:tcr' % words, 'rate of ' + words)
            for count, lengths, dots in [(n, (2,) * i + (l,) + (2,) * (3 - i), 2) for i in range(4) for l in (0, 3 if i < 3 else 4)] + [(2, (2, 2, 2, 2), 2), (5, (2, 2, 2, 2), 2)] + ([(3, (2, 2, 2, 2), 1), (3, (2, 2, 2, 2), 3)] if n == 3 else []):
                say = '%d parts%s of %s digits%s' % (count, '' if n == 4 else ' and %d points' % (dots - 1), ', '.join(str(l) for l in lengths), ' with a rate' if there else '')
                ctx.expect(not took(count, lengths, dots), 'text', reader.file, reader.line, reader.q, 'a text of %s is not refused' % say, 'text:accepted:' + say, 'refused: ' + say)
        ctx.attempt('text', 'reading ' + words, go)
