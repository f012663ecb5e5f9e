"""C24: arithmetic on times and their conversions keep the instant"""

import absint
import poly
import textread
from cfg import Graph, show
from textread import TextEval, digits, lits, tmpl

SOURCES = ['local_time.cc', 'utc_offset.cc']

EXPLANATION = (
    'Each function that changes or converts a time is summarised: the value terms of the members (or of the result) at its end in terms of those at its start. '
    'The terms are brought to a normal form - a date, a number of microseconds and what is added to them as a polynomial of the members and parameters - which must '
    'be the one that the operation means.')

THIS = ('deref', ('this',))
PARTS = ['_year', '_month', '_day', '_hour', '_minute', '_second', '_millisecond']


def member(f, base=THIS):
    t = base
    for i in f.split('.'):
        t = ('mem', t, i)
    return t


def policy(callee, caller, depth):
    return callee.file.startswith('src/')


class Unknown(Exception):
    pass


N = poly.Normal(types=lambda t: 'int')


def strip(t):
    while t[0] == 'cast' or (t[0] == 'call' and t[2] is not None and t[1].split('::')[-1].startswith('operator ')):
        t = t[2]
    return t


def arg(t):
    """The argument of a one-argument wrapper object"""
    t = strip(t)
    while t[0] == 'obj' and len(t) == 3:
        t = strip(t[2])
    return t


def duration(t):
    """Microseconds in a duration term"""
    t = strip(t)
    if t[0] == 'obj':
        c = t[1].split('::')[-1]
        if c == 'time_duration' and len(t) in (5, 6):
            k = [3600000000, 60000000, 1000000, 1]
            out = {}
            for a, f in zip(t[2:], k):
                out = poly.add(out, poly.scale(N(strip(a)), f))
            return out
        if c in ('hours', 'minutes', 'seconds', 'milliseconds', 'microseconds', 'subsecond_duration') and len(t) == 3 and c != 'subsecond_duration':
            return poly.scale(N(arg(t[2])), {'hours': 3600000000, 'minutes': 60000000, 'seconds': 1000000, 'milliseconds': 1000, 'microseconds': 1}[c])
        if len(t) == 3:
            return duration(t[2])
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator+', 'operator-'):
        xs = ([t[2]] if t[2] is not None else []) + list(t[3])
        if len(xs) == 2:
            return poly.add(duration(xs[0]), duration(xs[1]), 1 if t[1].endswith('+') else -1)
        if len(xs) == 1 and t[1].endswith('-'):
            return poly.scale(duration(xs[0]), -1)
    if t[0] == 'bin' and t[1] in ('+', '-'):
        return poly.add(duration(t[2]), duration(t[3]), 1 if t[1] == '+' else -1)
    if t[0] == 'un' and t[1] == '-':
        return poly.scale(duration(t[2]), -1)
    if t[0] == 'var':
        return poly.atom(t)
    if t[0] == 'mut' and t[1].split('::')[-1] in ('operator+=', 'operator-=') and len(t[3]) == 1:
        return poly.add(duration(t[2]), duration(t[3][0]), 1 if t[1].endswith('+=') else -1)
    raise Unknown(show(t)[:100])


def count(t):
    """The number in a days(n) / months(n) object"""
    t = strip(t)
    neg = 1
    while True:
        if t[0] == 'un' and t[1] == '-':
            neg = -neg
            t = strip(t[2])
        elif t[0] == 'obj' and len(t) == 3:
            t = strip(t[2])
        else:
            return poly.scale(N(t), neg)


def unit(t):
    t = strip(t)
    while t[0] == 'un':
        t = strip(t[2])
    names = []
    while t[0] == 'obj' and len(t) >= 3:
        names.append(t[1].split('::')[-1])
        t = strip(t[2])
    for n in names:
        for u in ('month', 'week', 'year', 'date_duration', 'days'):
            if u in n:
                return 'day' if u in ('date_duration', 'days') else u
    raise Unknown(show(t)[:100])


class Instant:
    """date (a canonical term), shifts of it by days or months, microseconds since midnight"""

    def __init__(self, date, shifts, micros):
        self.date = date
        self.shifts = shifts
        self.micros = micros

    def key(self):
        return (self.date, tuple(sorted((u, poly.key(p)) for u, p in self.shifts.items() if p)), poly.key(self.micros))

    def show(self):
        s = show(self.date)
        for u, p in self.shifts.items():
            if p:
                s += ' + (%s) %ss' % (poly.show(p), u)
        return s + ' + %s us' % poly.show(self.micros)


def date(t):
    """(canonical date, shifts)"""
    t = strip(t)
    if t[0] == 'obj' and t[1].split('::')[-1] == 'date' and len(t) == 5:
        return ('ymd',) + tuple(arg(i) for i in t[2:]), {}
    if t[0] == 'obj' and len(t) == 3:
        return date(t[2])
    if t[0] == 'mut' and t[1].split('::')[-1] in ('operator+=', 'operator-=') and len(t[3]) == 1:
        d, s = date(t[2])
        return shift(d, s, t[3][0], 1 if t[1].endswith('+=') else -1)
    if t[0] == 'out' and t[1].split('::')[-1] in ('operator+=', 'operator-=') and t[2] == 0 and len(t[3]) == 2:
        d, s = date(t[3][0])
        return shift(d, s, t[3][1], 1 if t[1].endswith('+=') else -1)
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator+', 'operator-'):
        xs = ([t[2]] if t[2] is not None else []) + list(t[3])
        if len(xs) == 2:
            d, s = date(xs[0])
            return shift(d, s, xs[1], 1 if t[1].endswith('+') else -1)
    if t[0] == 'bin' and t[1] in ('+', '-'):
        d, s = date(t[2])
        return shift(d, s, t[3], 1 if t[1] == '+' else -1)
    if t[0] == 'call' and t[1].split('::')[-1] == 'date' and t[2] is not None:
        i = instant(t[2])
        if not i.micros or i.date[0] == 'of':
            return i.date, i.shifts
    raise Unknown(show(t)[:100])


def shift(d, s, by, k):
    u = unit(by)
    s = dict(s)
    s[u] = poly.add(s.get(u, {}), count(by), k)
    return d, s


def instant(t):
    t = strip(t)
    if t[0] == 'var':
        return Instant(('of', t), {}, {})
    if t[0] == 'obj' and t[1].split('::')[-1] == 'ptime' and len(t) == 4:
        d, s = date(t[2])
        return Instant(d, s, duration(t[3]))
    if t[0] == 'obj' and len(t) == 3:
        return instant(t[2])
    if t[0] == 'mut' and t[1].split('::')[-1] in ('operator+=', 'operator-=') and len(t[3]) == 1:
        return moved(instant(t[2]), t[3][0], 1 if t[1].endswith('+=') else -1)
    if t[0] == 'call' and t[1].split('::')[-1] in ('operator+', 'operator-'):
        xs = ([t[2]] if t[2] is not None else []) + list(t[3])
        if len(xs) == 2:
            return moved(instant(xs[0]), xs[1], 1 if t[1].endswith('+') else -1)
    if t[0] == 'bin' and t[1] in ('+', '-'):
        return moved(instant(t[2]), t[3], 1 if t[1] == '+' else -1)
    raise Unknown(show(t)[:100])


def moved(i, by, k):
    try:
        u = unit(by)
        if u in ('day', 'month') and 'time_duration' not in repr(by)[:80]:
            d, s = shift(i.date, i.shifts, by, k)
            return Instant(d, s, i.micros)
    except Unknown:
        pass
    return Instant(i.date, i.shifts, poly.add(i.micros, duration(by), k))


GETTERS = {
    '_year': ('date', 'year'), '_month': ('date', 'month'), '_day': ('date', 'day'),
    '_hour': ('time_of_day', 'hours'), '_minute': ('time_of_day', 'minutes'), '_second': ('time_of_day', 'seconds'),
}


def part(t):
    """(which part, instant) that a member's final value takes from an instant"""
    t = strip(t)
    if t[0] == 'bin' and t[1] == '/':
        x = strip(t[2])
        if x[0] == 'call' and x[1].split('::')[-1] == 'fractional_seconds' and t[3] == ('const', 1000):
            return 'milliseconds', inner(x[2], 'time_of_day')
        if x[0] == 'call' and x[1].split('::')[-1] == 'fractional_seconds' and t[3][0] == 'const':
            return 'microseconds / %s' % t[3][1], inner(x[2], 'time_of_day')
        raise Unknown(show(t)[:100])
    if t[0] == 'bin' and t[1] == '*':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            x = strip(a)
            if x[0] == 'call' and x[1].split('::')[-1] == 'fractional_seconds' and b[0] == 'const':
                return 'microseconds * %s' % b[1], inner(x[2], 'time_of_day')
    if t[0] == 'bin' and t[1] == '%' and t[3] == ('const', 1000):
        x = strip(t[2])
        if x[0] == 'call' and x[1].split('::')[-1] == 'total_milliseconds':
            return 'milliseconds', inner(x[2], 'time_of_day')
    if t[0] == 'call' and t[2] is not None:
        m = t[1].split('::')[-1]
        if m == 'fractional_seconds':
            return 'microseconds', inner(t[2], 'time_of_day')
        if m in ('total_milliseconds',):
            raise Unknown(m)
        x = strip(t[2])
        if m in ('year', 'month', 'day') and x[0] == 'call':
            return m, inner(x, 'date')
        if m in ('hours', 'minutes', 'seconds') and x[0] == 'call':
            return m, inner(x, 'time_of_day')
        if m in ('as_number',):
            return part(t[2])
    raise Unknown(show(t)[:100])


def inner(x, m):
    x = strip(x)
    if x[0] == 'call' and x[1].split('::')[-1] == m and x[2] is not None:
        return instant(x[2])
    raise Unknown(show(x)[:100])


def apart_poly(p, apart):
    """The same polynomial with its atoms taken apart"""
    out = {}
    for m, c in p.items():
        x = poly.const(c)
        for a, e in m:
            for _ in range(e):
                x = poly.mul(x, apart(a))
        out = poly.add(out, x)
    return out


def clock(t):
    """Bounds of the parts of a time of day"""
    if t[0] == 'call' and t[2] is not None:
        return {'fractional_seconds': (0, 999999), 'hours': (0, 23), 'minutes': (0, 59), 'seconds': (0, 59), 'month': (1, 12), 'day': (1, 31), 'year': (1400, 9999)}.get(t[1].split('::')[-1])
    return None


PART_NAME = {'_year': 'year', '_month': 'month', '_day': 'day', '_hour': 'hours', '_minute': 'minutes', '_second': 'seconds', '_millisecond': 'milliseconds'}


def now():
    """The instant that the members denote"""
    m = poly.scale(N(member('_millisecond')), 1000)
    for f, k in (('_hour', 3600000000), ('_minute', 60000000), ('_second', 1000000)):
        m = poly.add(m, poly.scale(N(member(f)), k))
    return Instant(('ymd', member('_year'), member('_month'), member('_day')), {}, m)


def plus(i, micros=None, **shifts):
    s = dict(i.shifts)
    for u, p in shifts.items():
        s[u] = poly.add(s.get(u, {}), p)
    return Instant(i.date, s, poly.add(i.micros, micros or {}))


def check(ctx, prog, only_utc=False):
    if only_utc:
        ctx.rule('parts', 'each part of the time in UTC is taken from the same part of the shifted instant', 7)
        ctx.rule('instant', 'the time in UTC is the local time less the hours and the minutes of the offset', 7)
    else:
        ctx.rule('parts', 'each member of a time is set from the part of the instant that it stands for', 40)
        ctx.rule('instant', 'the instant a time is changed to is the one that the operation means', 40)
        ctx.rule('offset', 'operations other than the setting of the offset leave the offset from UTC as it is', 8)
        ctx.rule('struct tm', 'the fields of a struct tm go to the members of the same meaning, with the year counted from 1900 and the month from 0', 14)
        ctx.rule('epoch', 'the number of seconds since 1970 is made from every part of the time with its proper weight', 1)
        ctx.rule('asn1', 'times in certificates are read from the right digits, as UTC', 18)
        ctx.rule('accessors', 'the parts of a time that are given out are those of the same name', 8)

    cls = 'dcp::LocalTime'

    def one(name, pred=lambda f: True):
        fs = [f for f in prog.get(cls + '::' + name) if f.body is not None and pred(f)]
        if not fs:
            raise __import__('ir').AnalysisBroken('%s::%s not found' % (cls, name))
        return fs[0]

    def ptype(f, i):
        return f.type(f.params[i]['t']) if i < len(f.params) else ''

    def summary(f, env=None, bounds=None):
        g = Graph(prog, f, policy)
        ctx.functions([f.key])
        ctx.functions(g.inlined)
        return TextEval(g, None, env(g) if env else None, bounds or clock).run(), g

    def operation(f, want, value, what, keeps_offset=True):
        """f leaves members (given by value(name)) denoting the instant want"""
        e = value.__self__
        ctx.expect(not e.escaped, 'parts', f.file, e.throws[0].line if e.throws else f.line, f.q, '%s can throw %s' % (what, ', '.join(sorted(e.escaped))), '%s:throws' % f.name, what + ' does not throw')
        for name in PARTS:
            vals = value(name)
            if vals is None:
                ctx.violation('parts', f.file, f.line, f.q, '%s never returns' % what, '%s:never' % f.name)
                return
            for v in sorted(vals, key=repr):
                if v == member(name) and want.key() == now().key():
                    ctx.ok('parts', '%s %s' % (what, name))
                    continue
                try:
                    p, i = part(v)
                except Unknown as e:
                    if v == member(name) or v[0] == 'const':
                        ctx.violation('parts', f.file, f.line, f.q, '%s can leave %s as %s' % (what, name, show(v)), '%s:%s:kept' % (f.name, name))
                    else:
                        ctx.skip('parts', '%s %s: %s' % (what, name, e))
                    continue
                ctx.expect(p == PART_NAME[name], 'parts', f.file, f.line, f.q, '%s sets %s from the %s' % (what, name, p), '%s:%s:part' % (f.name, name), '%s %s' % (what, name))
                ctx.expect(same(i, want), 'instant', f.file, f.line, f.q, '%s goes to %s rather than to %s' % (what, i.show(), want.show()), '%s:%s:instant' % (f.name, name), '%s %s' % (what, name))
        if keeps_offset:
            for name in ('_offset._hour', '_offset._minute'):
                vals = value(name)
                ctx.expect(vals == frozenset([member(name)]), 'offset', f.file, f.line, f.q, '%s changes %s to %s' % (what, name, ', '.join(show(v) for v in vals)), '%s:%s' % (f.name, name), what)

    def same(a, b):
        if a.date != b.date or not poly.equal(a.micros, b.micros):
            return False
        for u in set(a.shifts) | set(b.shifts):
            if not poly.equal(a.shifts.get(u, {}), b.shifts.get(u, {})):
                return False
        return True

    minute = 60000000
    f = one('as_utc')
    e, g = summary(f)
    off = poly.add(poly.scale(poly.atom(member('_offset._hour')), -60 * minute), poly.scale(poly.atom(member('_offset._minute')), -minute))
    operation(f, plus(now(), off), e.result, 'conversion to UTC', False)
    if only_utc:
        return

    # set from a ptime
    f = one('set', lambda f: 'ptime' in ptype(f, 0))
    e, g = summary(f)
    operation(f, Instant(('of', g.params[0]), {}, {}), e.member, 'setting from a ptime')
    for f in [f for f in prog.get(cls + '::(ctor)') if f.body is not None and 'ptime' in ptype(f, 0)]:
        e, g = summary(f)
        operation(f, Instant(('of', g.params[0]), {}, {}), e.member, 'construction from a ptime', False)
        if len(g.params) == 2:
            for n in ('_hour', '_minute'):
                vals = e.member('_offset.' + n) or frozenset()
                ctx.expect(vals == frozenset([('mem', g.params[1], n)]), 'offset', f.file, f.line, f.q, 'construction from a ptime and an offset sets the offset\'s %s to %s' % (n, ', '.join(show(v) for v in vals)), 'ptime:%s' % n, 'offset given to constructor')
    f = one('add')
    e, g = summary(f)
    operation(f, plus(now(), poly.atom(g.params[0])), e.member, 'adding a duration')
    f = one('add_minutes')
    e, g = summary(f)
    operation(f, plus(now(), poly.scale(poly.atom(g.params[0]), minute)), e.member, 'adding minutes')
    for name, u in (('add_days', 'day'), ('add_months', 'month')):
        f = one(name)
        for lo, hi in ((1, 1000), (-1000, -1), (0, 0)):
            g = Graph(prog, f, policy)
            ctx.functions(g.inlined)
            p = g.params[0]
            e = TextEval(g, None, None, lambda t: (lo, hi) if t == p else clock(t)).run()
            by = poly.atom(p)
            what = 'adding %s %ss' % ('a positive number of' if lo > 0 else 'a negative number of' if hi < 0 else 'no', u)
            if lo == hi == 0:
                # nothing is said of how a zero shift is made
                continue
            operation(f, plus(now(), None, **{u: by}), e.member, what)
    # struct tm
    tm = {'_year': ('tm_year', 1900), '_month': ('tm_mon', 1), '_day': ('tm_mday', 0), '_hour': ('tm_hour', 0), '_minute': ('tm_min', 0), '_second': ('tm_sec', 0)}
    for f in [one('set', lambda f: 'tm' in ptype(f, 0) and 'ptime' not in ptype(f, 0))] + [f for f in prog.get(cls + '::(ctor)') if f.body is not None and len(f.params) == 1 and ptype(f, 0) in ('struct tm', 'tm')]:
        e, g = summary(f)
        base = g.params[0] if not ptype(f, 0).endswith('*') else ('deref', g.params[0])
        for name, (field, add) in tm.items():
            vals = e.member(name) or frozenset()
            want = poly.add(poly.atom(('mem', base, field)), poly.const(add))
            wrong = [v for v in vals if not poly.equal(N(v), want)]
            ctx.expect(not wrong, 'struct tm', f.file, f.line, f.q, '%s is set to %s rather than %s' % (name, ', '.join(show(v) for v in wrong), poly.show(want)), 'tm:%s' % name, '%s from %s' % (name, field))
        vals = e.member('_millisecond') or frozenset()
        ctx.expect(vals == frozenset([('const', 0)]), 'struct tm', f.file, f.line, f.q, 'the milliseconds are set to %s' % ', '.join(show(v) for v in vals), 'tm:ms', 'milliseconds')

    # constructors which are not given an offset
    for f in [f for f in prog.get(cls + '::(ctor)') if f.body is not None and (not f.params or (len(f.params) == 1 and 'string' not in ptype(f, 0) and 'LocalTime' not in ptype(f, 0)))]:
        e, g = summary(f)
        what = 'construction from %s' % (ptype(f, 0) or 'the present time')
        for n in ('_offset._hour', '_offset._minute'):
            unset = [v for v in e.member(n) or () if v == member(n) or v[0] == 'const']
            ctx.expect(not unset, 'offset', f.file, f.line, f.q, '%s does not take the offset from the local time zone' % what, 'ctor:%s:%s' % (ptype(f, 0), n), what)
        for n in PARTS[:6]:
            unset = [v for v in e.member(n) or () if v == member(n) or v[0] == 'const']
            ctx.expect(not unset, 'parts', f.file, f.line, f.q, '%s does not set %s' % (what, n), 'ctor:%s:%s' % (ptype(f, 0), n), what)

    # the local offset
    for f in [f for f in prog.get(cls + '::set_local_time_zone') if f.body is not None]:
        e, g = summary(f)
        for n, h in (('_offset._hour', 'hours'), ('_offset._minute', 'minutes')):
            for v in (e.member(n) or ()):
                v = strip(v)
                if v[0] != 'call' or v[2] is None:
                    ctx.skip('offset', 'local offset: %s' % show(v)[:80])
                    continue
                x = strip(v[2])
                xs = ([x[2]] if x[2] is not None else []) + list(x[3]) if x[0] == 'call' and x[1].split('::')[-1] == 'operator-' else [x[2], x[3]] if x[0] == 'bin' and x[1] == '-' else None
                ctx.expect(v[1].split('::')[-1] == h, 'offset', f.file, f.line, f.q, 'the local offset\'s %s is made from %s()' % (n[9:], v[1].split('::')[-1]), 'local:%s' % n, 'local ' + n)
                if not xs or len(xs) != 2:
                    ctx.skip('offset', 'local offset: %s' % show(x)[:80])
                    continue
                local = [any(i[0] == 'call' and i[1].split('::')[-1] in ('utc_to_local', 'local_time') for i in absint.deep(y)) for y in xs]
                ctx.expect(local == [True, False], 'offset', f.file, f.line, f.q, 'the local offset is not local time less UTC', 'local:order', 'local offset')

    # seconds since the epoch
    f = one('as_time_t')
    e, g = summary(f)
    if len(e.returns) == 1:
        r = next(iter(e.returns))
        want = {}
        for name, k in (('_hour', 3600), ('_minute', 60), ('_second', 1)):
            want = poly.add(want, poly.scale(poly.atom(member(name)), k))
        want = poly.add(want, poly.scale(poly.atom(('days',)), 86400))

        def leaf(t):
            t = strip(t)
            if t[0] == 'call' and t[1].split('::')[-1] == 'days' and t[2] is not None:
                x = strip(t[2])
                xs = None
                if x[0] == 'bin' and x[1] == '-':
                    xs = [x[2], x[3]]
                elif x[0] == 'call' and x[1].split('::')[-1] == 'operator-':
                    xs = ([x[2]] if x[2] is not None else []) + list(x[3])
                if xs and len(xs) == 2:
                    a, b = date(xs[0]), date(xs[1])
                    if a == (('ymd', member('_year'), member('_month'), member('_day')), {}) and b[0][0] == 'ymd' and [i[-1] for i in b[0][1:]] == [1970, 1, 1]:
                        return poly.atom(('days',))
                    return poly.atom(('wrong', show(t)))
            return None
        try:
            got = poly.Normal(leaf, lambda t: 'int')(r)
            ctx.expect(poly.equal(got, want), 'epoch', f.file, f.line, f.q, 'the result is %s' % poly.show(got), 'as_time_t', 'as_time_t')
        except Unknown as ex:
            ctx.skip('epoch', str(ex))
    else:
        ctx.skip('epoch', 'more than one result')

    # certificates
    txt = ('deref', ('var', 'text'))
    t = lambda n: ('mem', txt, n)
    rest = digits(t('month'), 2) + digits(t('day'), 2) + digits(t('hour'), 2) + digits(t('minute'), 2) + digits(t('second'), 2) + lits('Z')
    ranges = {t('month'): (1, 12), t('day'): (1, 31), t('hour'): (0, 23), t('minute'): (0, 59), t('second'): (0, 59)}
    cases = [
        ('from_asn1_utc_time', digits(t('year'), 2) + rest, (0, 49), 2000, 'years 00 to 49'),
        ('from_asn1_utc_time', digits(t('year'), 2) + rest, (70, 99), 1900, 'years 70 to 99'),
        ('from_asn1_generalized_time', digits(t('year'), 4) + rest, (1950, 9999), 0, 'four-digit years'),
    ]
    for name, cs, years, add, what in cases:
        f = one(name)
        r = dict(ranges)
        r[t('year')] = years
        e, g = summary(f, lambda g: {g.params[0]: tmpl(cs)}, r.get)
        if not e.complete or e.unknown or not e.return_states:
            ctx.skip('asn1', '%s is not understood' % name)
            continue
        want = {'_year': poly.add(poly.atom(t('year')), poly.const(add)), '_millisecond': {}, '_offset._hour': {}, '_offset._minute': {}}
        for n in ('month', 'day', 'hour', 'minute', 'second'):
            want['_' + n] = poly.atom(t(n))
        for n, w in want.items():
            vals = e.result(n)
            if absint.TOP in vals or any(x[0] in ('out', 'opaque') for v in vals for x in absint.deep(v)):
                ctx.skip('asn1', '%s: %s' % (name, n))
                continue
            apart = poly.Normal(textread.spelled(cs, lambda t: None), lambda t: 'int')
            wrong = [v for v in vals if not poly.equal(N(v), w) and not poly.equal(apart(v), apart_poly(w, apart))]
            ctx.expect(not wrong, 'asn1', f.file, f.line, f.q, '%s (%s): %s becomes %s rather than %s' % (name, what, n, ', '.join(show(v) for v in wrong), poly.show(w)), '%s:%s:%s' % (name, what, n), '%s %s' % (what, n))

    # accessors
    for n in PARTS:
        f = one(n[1:])
        e, g = summary(f)
        ctx.expect(e.returns == frozenset([member(n)]) or e.returns == {member(n)}, 'accessors', f.file, f.line, f.q, '%s() gives %s' % (n[1:], ', '.join(show(v) for v in e.returns)), n, n)
    for n in ('year', 'month', 'day'):
        f = one('set_' + n)
        e, g = summary(f)
        for m in PARTS:
            want = g.params[0] if m == '_' + n else member(m)
            ctx.expect(e.member(m) == frozenset([want]), 'accessors', f.file, f.line, f.q, 'set_%s() sets %s to %s' % (n, m, ', '.join(show(v) for v in e.member(m) or ())), 'set_%s:%s' % (n, m), 'set_' + n)
    for n in ('hour', 'minute'):
        for f in [f for f in prog.get('dcp::UTCOffset::' + n) if f.body is not None]:
            e, g = summary(f)
            ctx.expect(e.returns == {member('_' + n)}, 'accessors', f.file, f.line, f.q, 'UTCOffset::%s() gives %s' % (n, ', '.join(show(v) for v in e.returns)), 'utc:' + n, 'offset ' + n)
        for f in [f for f in prog.get('dcp::UTCOffset::set_' + n) if f.body is not None]:
            lo, hi = (-12, 14) if n == 'hour' else (-59, 59)
            g = Graph(prog, f, policy)
            p = g.params[0]
            e = TextEval(g, None, None, lambda t: (lo, hi) if t == p else None).run()
            ctx.expect(not e.escaped, 'accessors', f.file, f.line, f.q, 'UTCOffset::set_%s rejects some of %d to %d' % (n, lo, hi), 'utc:set_%s:range' % n, 'offset range')
            other = 'minute' if n == 'hour' else 'hour'
            for m, want in (('_' + n, p), ('_' + other, member('_' + other))):
                vals = e.member(m) or frozenset()
                ctx.expect(vals == frozenset([want]), 'accessors', f.file, f.line, f.q, 'UTCOffset::set_%s sets %s to %s' % (n, m, ', '.join(show(v) for v in vals)), 'utc:set_%s:%s' % (n, m), 'offset setter')
    for f in [f for f in prog.get('dcp::UTCOffset::(ctor)') if len(f.params) == 2]:
        e, g = summary(f)
        for m, p in (('_hour', g.params[0]), ('_minute', g.params[1])):
            ctx.expect(e.member(m) == frozenset([p]), 'accessors', f.file, f.line, f.q, 'UTCOffset(hour, minute) sets %s to %s' % (m, ', '.join(show(v) for v in e.member(m) or ())), 'utc:ctor:' + m, 'offset constructor')
    for f in [f for f in prog.get(cls + '::(ctor)') if len(f.params) == 6]:
        e, g = summary(f)
        for m, p in zip(['_year', '_month', '_day', '_hour', '_minute', '_offset'], g.params):
            ctx.expect(e.member(m) == frozenset([p]), 'accessors', f.file, f.line, f.q, 'the constructor sets %s to %s' % (m, ', '.join(show(v) for v in e.member(m) or ())), 'ctor:' + m, 'constructor')
