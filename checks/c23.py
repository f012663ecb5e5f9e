"""C23: times written as text are read back unchanged"""

import absint
import paths
import poly
import textread
from cfg import Graph, show
from textread import TextEval, spelled, chars, digits, lits, tmpl

SOURCES = ['local_time.cc', 'utc_offset.cc']

EXPLANATION = (
    'The functions which write a time as text are evaluated (conditional constant propagation) to templates: sequences of literal characters and of the '
    'digits of members. The parser is then evaluated over those templates, and over variants of them, in a domain of strings of known shape with interval '
    'bounds for the values, so that what it stores is known for all times at once.')

THIS = ('deref', ('this',))
FIELDS = ['_year', '_month', '_day', '_hour', '_minute', '_second', '_millisecond', '_offset._hour', '_offset._minute']
RANGE = {'_year': (1400, 9999), '_month': (1, 12), '_day': (1, 31), '_hour': (0, 23), '_minute': (0, 59), '_second': (0, 59), '_millisecond': (0, 999)}
OFFSETS = []
for _h in ((-12, -12), (-11, -2), (-1, -1), (0, 0), (1, 1), (2, 13), (14, 14)):
    for _m in ((-59, -59), (-58, -2), (-1, -1), (0, 0), (1, 1), (2, 58), (59, 59)):
        if _h[0] * _m[0] >= 0:
            OFFSETS.append(('at %s:%s from UTC' % ('/'.join(str(i) for i in sorted(set(_h))), '/'.join(str(i) for i in sorted(set(_m)))), _h, _m))


def member(f, base=THIS):
    t = base
    for i in f.split('.'):
        t = ('mem', t, i)
    return t


def policy(callee, caller, depth):
    return callee.file.startswith('src/')


class Scenario:
    def __init__(self, base, hour, minute):
        self.base = base
        self.ranges = dict((member(k, base), v) for k, v in RANGE.items())
        self.ranges[member('_offset._hour', base)] = hour
        self.ranges[member('_offset._minute', base)] = minute

    def bounds(self, t):
        return self.ranges.get(t)

    def leaf(self, t):
        if t in self.ranges and self.ranges[t] == (0, 0):
            return {}
        if t[0] == 'call' and t[1].split('::')[-1] == 'abs' and len(t[3]) == 1 and t[3][0] in self.ranges:
            lo, hi = self.ranges[t[3][0]]
            if (lo, hi) == (0, 0):
                return {}
            if lo >= 0:
                return poly.atom(t[3][0])
            if hi <= 0:
                return poly.scale(poly.atom(t[3][0]), -1)
        return None


def check(ctx, prog):
    ctx.rule('format', 'a time is written as YYYY-MM-DDTHH:MM:SS[.mmm][(+|-)HH:MM], each part from the member of that meaning', 4)
    ctx.rule('round-trip', 'the parser accepts every text that is written and stores in each member the value it was written from', 40)
    ctx.rule('variants', 'the other spellings of a time (Z, no offset, fractions of any number of digits) are read as the instant they denote', 20)
    ctx.rule('malformed', 'a text of another shape is rejected with the exception for bad times', 10)
    ctx.rule('bounds', 'a part of an offset is set to every value within its bounds, and to no other', 4)
    for name, lo, hi in (('hour', -12, 14), ('minute', -59, 59)):
        fs = [f for f in prog.get('dcp::UTCOffset::set_' + name) if f.body is not None and len(f.params) == 1]
        for f in fs:
            for v in (-10000, -61, -60, -24, -15, -13, 15, 24, 60, 61, 10000, lo - 1, lo, lo + 1, 0, 1, hi - 1, hi, hi + 1):
                def go():
                    ends = paths.Paths(prog).run(f, [poly.const(v)], paths.Record({'_hour': poly.const(0), '_minute': poly.const(0)}))
                    if any(p.facts for _, _, p in ends):
                        raise paths.Unknown('a condition is not known')
                    ctx.functions([f])
                    within = lo <= v <= hi
                    ctx.expect(bool(ends) == within, 'bounds', f.file, f.line, f.q, 'the %s of an offset is %s %d' % (name, 'refused when it is set to' if within else 'set without complaint to', v), 'bounds:%s:%d' % (name, v), '%s %d' % (name, v))
                ctx.attempt('bounds', '%s %d' % (name, v), go)

    cls = 'dcp::LocalTime'
    writer = prog.one(cls + '::as_string')
    parsers = [f for f in prog.get(cls + '::(ctor)') if len(f.params) == 1 and 'string' in f.type(f.params[0]['t']) and f.body is not None]
    if not parsers:
        raise __import__('ir').AnalysisBroken('no constructor of LocalTime from a string')
    parser = parsers[0]
    ctx.functions([writer, parser])

    # the text
    texts = []
    default = (writer.params[1].get('d') or {}).get('cv') if len(writer.params) == 2 else None
    if default is not None:
        ctx.expect(bool(default), 'format', writer.file, writer.line, writer.q, 'a time is written without its offset unless it is asked for', 'format:default', 'the offset is written unless it is asked not to be')
    for ms in (0, 1):
        for tz in (0, 1):
            for name, hour, minute in (OFFSETS if tz else OFFSETS[:1]):
                sc = Scenario(THIS, hour, minute)
                g = Graph(prog, writer, policy)
                ctx.functions(g.inlined)
                if len(g.params) != 2:
                    ctx.skip('format', 'as_string has other parameters')
                    continue
                e = TextEval(g, None, {g.params[0]: ('const', ms), g.params[1]: ('const', tz)}, sc.bounds).run()
                what = 'time %s, %s milliseconds, %s offset' % (name, 'with' if ms else 'without', 'with' if tz else 'without')
                if e.complete and not e.returns and e.escaped:
                    ctx.violation('format', writer.file, writer.line, writer.q, 'writing a %s always throws %s' % (what, ', '.join(sorted(e.escaped))), 'throws:%s' % what)
                    continue
                if e.escaped:
                    ctx.violation('format', writer.file, writer.line, writer.q, 'writing a %s can throw %s' % (what, ', '.join(sorted(e.escaped))), 'throws:%s' % what)
                if not e.complete or len(e.returns) != 1:
                    ctx.skip('format', '%s: %d possible texts' % (what, len(e.returns)))
                    continue
                r = next(iter(e.returns))
                if r[0] != 'tmpl':
                    ctx.skip('format', '%s: text is not of known shape (%s)' % (what, show(r)[:80]))
                    continue
                cs = list(r[1:])
                bad = compare_format(cs, ms, tz, sc)
                ctx.expect(bad is None, 'format', writer.file, writer.line, writer.q, 'the text of a %s is %s: %s' % (what, describe(cs), bad), 'format:%s' % what, what)
                texts.append((what, ms, tz, sc, cs))

    # its parts on their own
    sc = Scenario(THIS, (0, 0), (0, 0))
    date_text = digits(member('_year'), 4) + lits('-') + digits(member('_month'), 2) + lits('-') + digits(member('_day'), 2)
    time_text = digits(member('_hour'), 2) + lits(':') + digits(member('_minute'), 2)
    second_text = time_text + lits(':') + digits(member('_second'), 2)
    for name, args, want in (('date', (), date_text), ('time_of_day', (0, 0), time_text), ('time_of_day', (1, 0), second_text), ('time_of_day', (1, 1), second_text + lits('.') + digits(member('_millisecond'), 3))):
        f = prog.one(cls + '::' + name)
        g = Graph(prog, f, policy)
        ctx.functions([f] + list(g.inlined))
        what = '%s(%s)' % (name, ', '.join('true' if a else 'false' for a in args))
        if len(g.params) != len(args):
            ctx.skip('format', '%s has other parameters' % name)
            continue
        e = TextEval(g, None, dict((p, ('const', a)) for p, a in zip(g.params, args)), sc.bounds).run()
        if e.escaped:
            ctx.violation('format', f.file, f.line, f.q, '%s can throw %s' % (what, ', '.join(sorted(e.escaped))), 'throws:%s' % what)
        r = next(iter(e.returns)) if e.complete and len(e.returns) == 1 else None
        if r is not None and (r[0] in ('var', 'addr', 'decay') or r == ('opaque', 'uninit')) and e.complete:
            ctx.violation('format', f.file, f.line, f.q, '%s returns a buffer that is never written' % what, 'unwritten:%s' % what)
            continue
        if r is None or r[0] != 'tmpl':
            ctx.skip('format', '%s is not of known shape' % what)
            continue
        bad = compare(list(r[1:]), want, sc)
        ctx.expect(bad is None, 'format', f.file, f.line, f.q, '%s gives %s: %s' % (what, describe(list(r[1:])), bad), 'format:%s' % what, what)

    def run(cs, bounds):
        g = Graph(prog, parser, policy)
        ctx.functions(g.inlined)
        return TextEval(g, None, {g.params[0]: tmpl(cs)}, bounds).run()

    def judge(rule, what, cs, sc, expected):
        e = run(cs, sc.bounds)
        if not e.complete or e.unknown:
            ctx.skip(rule, '%s: parser not understood at %s' % (what, e.unknown[0].where() if e.unknown else '?'))
            return
        if e.escaped:
            n = e.throws[0] if e.throws else None
            ctx.violation(rule, parser.file, n.line if n else parser.line, parser.q, 'reading %s (%s) can throw %s' % (describe(cs), what, ', '.join(sorted(e.escaped))), 'rejects:%s' % what)
            if not e.returns_normally():
                return
        normal = poly.Normal(sc.leaf, lambda t: 'int')
        apart = poly.Normal(spelled(cs, sc.leaf), lambda t: 'int')
        for f in FIELDS:
            vals = e.member(f)
            want = expected[f]
            if any(absint.TOP in absint.deep(v) for v in vals):
                ctx.skip(rule, '%s: %s is not known' % (what, f))
                continue
            wrong = [v for v in vals if not poly.equal(normal(v), normal(want)) and not poly.equal(apart(v), apart(want))]
            ctx.expect(not wrong, rule, parser.file, parser.line, parser.q, 'reading %s (%s) sets %s to %s rather than %s' % (describe(cs), what, f, show(wrong[0]) if wrong else '', show(want)), '%s:%s' % (what, f), '%s, %s' % (what, f))

    for what, ms, tz, sc, cs in texts:
        expected = dict((f, member(f, sc.base)) for f in FIELDS)
        if not ms:
            expected['_millisecond'] = ('const', 0)
        if not tz:
            expected['_offset._hour'] = expected['_offset._minute'] = ('const', 0)
        judge('round-trip', what, cs, sc, expected)

    # other spellings
    orig = ('deref', ('var', 'time'))

    def m(f):
        return member(f, orig)

    date = digits(m('_year'), 4) + lits('-') + digits(m('_month'), 2) + lits('-') + digits(m('_day'), 2) + lits('T')
    base = date + digits(m('_hour'), 2) + lits(':') + digits(m('_minute'), 2) + lits(':') + digits(m('_second'), 2)
    sc = Scenario(orig, (0, 14), (0, 59))
    behind = Scenario(orig, (0, 12), (0, 59))
    for i in range(1, 10):
        sc.ranges[m('d%d' % i)] = behind.ranges[m('d%d' % i)] = (0, 9)
    offset = digits(m('_offset._hour'), 2) + lits(':') + digits(m('_offset._minute'), 2)
    plain = dict((f, m(f)) for f in FIELDS)
    plain['_offset._hour'] = plain['_offset._minute'] = plain['_millisecond'] = ('const', 0)
    ahead = dict(plain)
    ahead['_offset._hour'], ahead['_offset._minute'] = m('_offset._hour'), m('_offset._minute')
    minus = dict(plain)
    minus['_offset._hour'], minus['_offset._minute'] = ('un', '-', m('_offset._hour')), ('un', '-', m('_offset._minute'))
    judge('variants', 'no offset', base, sc, plain)
    judge('variants', 'Z', base + lits('Z'), sc, plain)
    judge('variants', 'offset with +', base + lits('+') + offset, sc, ahead)
    judge('variants', 'offset with -', base + lits('-') + offset, behind, minus)
    for n in (1, 2, 3, 4, 6):
        frac = lits('.')
        value = ('const', 0)
        for i in range(1, n + 1):
            frac += digits(m('d%d' % i), 1)
            if i <= 3:
                value = ('bin', '+', value, ('bin', '*', ('const', 10 ** (3 - i)), m('d%d' % i)))
        for tail, s, exp in ((lits('Z'), sc, plain), (lits('+') + offset, sc, ahead), (lits('-') + offset, behind, minus), ([], sc, plain)):
            exp = dict(exp)
            exp['_millisecond'] = value
            judge('variants', '%d digit fraction then %s' % (n, describe(tail) or 'nothing'), base + frac + tail, s, exp)

    # malformed texts
    def reject(what, cs):
        e = run(cs, sc.bounds)
        if not e.complete or e.unknown:
            ctx.skip('malformed', '%s: parser not understood' % what)
            return
        ctx.expect(not e.returns_normally(), 'malformed', parser.file, parser.line, parser.q, 'the malformed time %s (%s) is accepted' % (describe(cs), what), 'accepts:%s' % what, what)
        other = sorted(c for c in e.escaped if c != 'dcp::TimeFormatError')
        ctx.expect(not other, 'malformed', parser.file, parser.line, parser.q, 'the malformed time %s (%s) gives %s, not TimeFormatError' % (describe(cs), what, ', '.join(other)), 'exception:%s' % what, what)

    for i in (4, 7, 10, 13, 16):
        reject('wrong separator at %d' % i, base[:i] + lits('!') + base[i + 1:])
    for i in (0, 5, 8, 11, 14, 17):
        reject('not a number at %d' % i, base[:i] + lits('x') + base[i + 1:])
    for i in range(0, 19):
        reject('only %d characters' % i, base[:i])
    reject('unknown time zone character', base + lits('X') + offset)
    reject('short time zone', base + lits('+') + offset[:4])
    reject('time zone hour not a number', base + lits('+xx') + offset[2:])
    reject('time zone minute not a number', base + lits('+') + offset[:3] + lits('xx'))
    for t in ('+15:00', '-13:00', '+99:00', '-99:59', '+04:60', '-04:99', '+-1:30', '--1:30', '+04:-5', '+04:-1', '-04:-5', '+04:0', '+0400', '+4:00', '+04'):
        reject('time zone %s' % t, base + lits(t))
    for t in ('+04:000', '-04:000', '+04:00:30', '+04:00 ', '+04:00Z', '-04:00x', '+04x00', '-04.00', '+04 00', 'Zx', 'Z ', 'Z+04:00', 'ZZ'):
        reject('time zone %s' % t, base + lits(t))
    for t in ('.x', '.1x', '.12x', '.123x', '.1234567x', '.123 +04:00', '.12x4Z', '.123x4-04:00', '.5.5', '.123+04:000', '.123-04x00', '.123Zx'):
        reject('fraction %s' % t, base + lits(t))
    reject('time zone far ahead', base + lits('+20:00'))
    reject('time zone far behind', base + lits('-20:00'))
    reject('minutes of time zone too large', base + lits('+04:75'))


def compare_format(cs, ms, tz, sc):
    want = digits(member('_year'), 4) + lits('-') + digits(member('_month'), 2) + lits('-') + digits(member('_day'), 2) + lits('T') + \
        digits(member('_hour'), 2) + lits(':') + digits(member('_minute'), 2) + lits(':') + digits(member('_second'), 2)
    if ms:
        want += lits('.') + digits(member('_millisecond'), 3)
    if tz:
        h, m = member('_offset._hour'), member('_offset._minute')
        neg = sc.ranges[h][0] < 0 or sc.ranges[m][0] < 0
        want += lits('-' if neg else '+')
        want += digits(('abs', h), 2) + lits(':') + digits(('abs', m), 2)
    return compare(cs, want, sc)


def compare(cs, want, sc):
    if len(cs) != len(want):
        return 'it has %d characters rather than %d' % (len(cs), len(want))
    normal = poly.Normal(sc.leaf, lambda t: 'int')
    for i, (c, w) in enumerate(zip(cs, want)):
        if c[0] != w[0] or (c[0] == 'lit' and c[1] != w[1]):
            return 'character %d should be %s' % (i, w[1] if w[0] == 'lit' else 'a digit')
        if c[0] == 'dig':
            if c[2:] != w[2:]:
                return 'character %d is digit %d of %d' % (i, c[2], c[3])
            x = w[1]
            if x[0] == 'abs':
                x = ('call', 'abs', None, (x[1],))
            if not poly.equal(normal(c[1]), normal(x)):
                return 'character %d is a digit of %s rather than of %s' % (i, show(c[1]), show(x))
    return None


def describe(cs):
    out = ''
    i = 0
    while i < len(cs):
        c = cs[i]
        if c[0] == 'lit':
            out += c[1]
            i += 1
        else:
            j = i
            while j < len(cs) and cs[j][0] == 'dig' and cs[j][1] == c[1] and cs[j][2] == c[2] + j - i:
                j += 1
            out += '{%s}' % show(c[1]).replace('time->', '')
            i = j
    return out
