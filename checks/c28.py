"""C28: synchronisation signal: bits are written most significant first, CRCs cover what they should, and the samples carry the bits"""

import math
import re

import ir
import poly
from absint import T, F, deep
from cfg import Graph, show
from loops import LoopEval, table
from tables import INDEX, Unknown, Wrong, counter, filled, loop_of

SOURCES = ['bitstream.cc', 'fsk.cc', 'sound_asset_writer.cc', 'types.cc']

EXPLANATION = (
    'The function that gives the next sample is evaluated for every state that its members can reach from construction, for both values of the next bit, and compared with the machine of the standard '
    '(four samples a bit; a 0 is half a cycle and a 1 a whole one; the phase goes on across bits and across frames). '
    'The writers of bits are evaluated with one generic iteration of their loop: the n-th bit written must be the one with the n-th highest weight, every bit goes to the data once and to a CRC that is being made. '
    'For each edit rate the widths of all fields of a packet are added up and must fill the samples of the frame.')

THIS = ('deref', ('this',))
FULL = 1 << 23


def mem(n):
    return ('mem', THIS, n)


def policy(*no):
    return lambda callee, caller, depth: callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp')) and callee.q not in no


def one(prog, q):
    fs = [f for f in prog.get(q) if f.body is not None]
    if not fs:
        raise ir.AnalysisBroken('there is no function %s' % q)
    return fs[0]


def strip(t):
    while t[0] in ('cast', 'nonnull') or (t[0] == 'addr' and t[1][0] == 'deref'):
        t = t[2] if t[0] == 'cast' else t[1] if t[0] == 'nonnull' else t[1][1]
    return t


def number(v):
    if v == T:
        return 1
    if v == F:
        return 0
    if v[0] in ('const', 'float') and isinstance(v[1], (int, float)):
        return v[1]
    if v[0] == 'un' and v[1] == '-':
        x = number(v[2])
        return None if x is None else -x
    if v[0] == 'cast':
        return number(v[2])
    return None


class BitEval(LoopEval):
    """Reads of the data have a given value, and where they were is kept"""

    def __init__(self, g, data, bit, env):
        super().__init__(g, None, env)
        self.data = data
        self.bit = bit
        self.reads = set()

    def ev(self, t, env):
        s = t
        while s[0] in ('cast', 'nonnull'):
            s = s[2] if s[0] == 'cast' else s[1]
        if s[0] in ('idx', 'at') and s[1] == mem(self.data):
            self.reads |= set(strip(x) for x in super().ev(s[2], env))
            return frozenset([T if self.bit else F])
        if s[0] == 'call' and s[2] == mem(self.data) and s[1].split('::')[-1] == 'at' and len(s[3]) == 1:
            self.reads |= set(strip(x) for x in super().ev(s[3][0], env))
            return frozenset([T if self.bit else F])
        return super().ev(t, env)

    def step(self, n, env):
        if n.k == 'call' and n.obj == mem(self.data) and n.q.split('::')[-1] in ('at', 'operator[]') and len(n.args) == 1 and n.dst is not None:
            self.reads |= set(strip(x) for x in super().ev(n.args[0], env))
            out = dict(env)
            self.kill(out, n.dst)
            out[n.dst] = frozenset([T if self.bit else F])
            return [(s, l, out) for s, l in n.succ]
        return super().step(n, env)


POS = ('pos',)


def wave(bit, k):
    return 0.1 * (math.sin(math.pi * (2 * k + 1) / 4) if bit else math.sin(math.pi * (2 * k + 1) / 8)) * FULL


def fsk(ctx, prog):
    r = prog.record('dcp::FSK')
    data = [f['n'] for f in r['fields'] if 'vector<bool' in f['type']]
    state = [f['n'] for f in r['fields'] if f['n'] not in data]
    if len(data) != 1:
        raise Unknown('the data are kept in %d members' % len(data))
    data = data[0]
    ctor = [f for f in prog.get('dcp::FSK::(ctor)') if f.body is not None and not f.params]
    getf, setf = one(prog, 'dcp::FSK::get'), one(prog, 'dcp::FSK::set_data')
    gg, gs = Graph(prog, getf, policy()), Graph(prog, setf, policy())
    ctx.functions([getf.key, setf.key] + list(gg.inlined))

    init = {}
    for f in r['fields']:
        if f.get('x') is not None and f['x'].get('cv') is not None:
            init[f['n']] = ('const', f['x']['cv'])
    if ctor:
        e = LoopEval(Graph(prog, ctor[0], policy()), None, {}).run()
        for n in state:
            v = e.member(n)
            if v is not None and len(v) == 1 and number(next(iter(v))) is not None:
                init[n] = ('const', int(number(next(iter(v)))))
    for n in state:
        if n not in init:
            raise Unknown('the first value of %s' % n)

    def set_data(st):
        e = LoopEval(gs, None, {mem(k): v for k, v in st.items()}).run()
        v = e.member(data)
        if v is None or len(v) != 1:
            raise Unknown('what is done with new data')
        if next(iter(v)) != gs.params[0] and strip(next(iter(v))) == mem(data):
            ctx.violation('data', setf.file, setf.line, setf.q, 'new data are not kept', 'set_data')
        out = {}
        for n in state:
            v = e.member(n)
            if len(v) != 1:
                raise Unknown('%s after new data' % n)
            out[n] = next(iter(v))
        return out
    # which member says where in the data we are?
    st = set_data(init)
    cursor = None
    for n in state:
        env = {mem(k): v for k, v in st.items()}
        env[mem(n)] = POS
        e = BitEval(gg, data, 0, env)
        e.run()
        if any(x == POS for x in e.reads):
            cursor = n
    if cursor is None:
        raise Unknown('nothing says which bit is next')
    ctx.expect(number(st[cursor]) == 0, 'data', setf.file, setf.line, setf.q, 'new data are not read from their start: %s is %s' % (cursor, show(st[cursor])), 'start')
    rest = [n for n in state if n != cursor]

    def key(s):
        out = []
        for n in rest:
            v = number(s[n])
            if v is None:
                raise Unknown('%s is %s' % (n, show(s[n])))
            out.append(int(v))
        return tuple(out)
    start = (key(st), (0, 0, 0))     # sample, polarity of the last bit, last bit
    seen = {start}
    work = [(start, 'after construction')]
    reported = set()

    def bad(what, message):
        if what not in reported:
            reported.add(what)
            ctx.violation('samples' if what != 'data' else 'data', getf.file, getf.line, getf.q, message, 'get:%s' % what)
    while work:
        (s, (k, pol, last)), how = work.pop()
        cur = None
        for bit in (0, 1):
            if k and bit != last:
                continue     # in the middle of a bit it is still the same one
            env = {mem(n): ('const', v) for n, v in zip(rest, s)}
            env[mem(cursor)] = POS
            e = BitEval(gg, data, bit, env).run()
            if not e.complete or e.asked:
                raise Unknown('the next sample depends on %s' % ', '.join(show(x) for x in e.asked))
            where = 'sample %d of a %d (last bit %d, polarity %s, %s)' % (k, bit, last, '+' if pol else '-', how)
            if not e.returns:
                bad('none', 'no sample is given for %s' % where)
                continue
            p = pol
            if k == 0 and last == 0:
                p = not pol
            want = wave(bit, k) * (1 if p else -1)
            for v in e.returns:
                x = number(v)
                if x is None and any(y == ('opaque', 'oob') for y in deep(v)):
                    bad('range', 'an element beyond the end of a table is used for %s' % where)
                    return
                if x is None:
                    raise Unknown('the sample is %s' % show(v))
                if abs(x - want) > 1e-4 * FULL:
                    bad('value', 'the sample is %d and not about %d for %s' % (x, want, where))
                else:
                    ctx.ok('samples', where)
            if e.reads - {POS}:
                bad('data', 'the bit at %s is used' % ', '.join(show(x) for x in e.reads))
            nk = (k + 1) % 4
            env2 = {n: e.member(n) for n in state}
            for n in state:
                if env2[n] is None or len(env2[n]) != 1:
                    raise Unknown('%s after a sample' % n)
                env2[n] = next(iter(env2[n]))
            step = poly.value(poly.add(poly.Normal()(env2[cursor]), poly.atom(POS), -1))
            if step is None:
                raise Unknown('the next bit is at %s' % show(env2[cursor]))
            if step != (1 if nk == 0 else 0):
                bad('data', 'after %s the place in the data goes on by %d' % (where, step))
                continue
            nxt = (key(env2), (nk, int(p), bit))
            if nxt not in seen:
                if len(seen) > 2000:
                    bad('states', 'the samples do not repeat after %s' % where)
                    return
                seen.add(nxt)
                work.append((nxt, 'later'))
            if nk == 0:
                # the end of a frame: new data go on from the same phase
                env3 = dict(env2)
                env3[cursor] = POS
                s3 = set_data(env3)
                ctx.expect(number(s3[cursor]) == 0, 'data', setf.file, setf.line, setf.q, 'new data are not read from their start', 'start')
                nxt = (key(s3), (0, int(p), bit))
                if nxt not in seen:
                    seen.add(nxt)
                    work.append((nxt, 'after new data'))


NARROW = re.compile(r'^(const )?(unsigned char|signed char|char|uint8_t|bool|unsigned short|short|uint16_t|int8_t|int16_t)$')


def width(t):
    t = t.replace('const ', '').strip()
    return {'unsigned char': 8, 'signed char': 8, 'char': 8, 'unsigned short': 16, 'short': 16, 'int': 31, 'unsigned int': 32, 'long': 63, 'unsigned long': 64, 'bool': 1,
            'unsigned long long': 64, 'long long': 63, 'uint8_t': 8, 'uint16_t': 16, 'uint32_t': 32, 'uint64_t': 64}.get(t)


def bit_of(v):
    """(word, shift, width that is left of the word) of a value that is one bit of a word"""
    v = strip(v)
    if v[0] == 'bin' and v[1] == '!=' and number(v[3]) == 0:
        return bit_of(v[2])
    if v[0] == 'not' and strip(v[1])[0] == 'bin' and strip(v[1])[1] == '==' and number(strip(v[1])[3]) == 0:
        return bit_of(strip(v[1])[2])
    if v[0] == 'bin' and v[1] == '==' and number(v[3]) == 1:
        b = bit_of(v[2])
        return b
    if v[0] == 'bin' and v[1] == '&':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if number(b) == 1:
                x = strip(a)
                if x[0] == 'bin' and x[1] == '>>':
                    return word(x[2]) [0], x[3], word(x[2])[1]
                return word(x)[0], ('const', 0), word(x)[1]
            y = strip(b)
            if y[0] == 'bin' and y[1] == '<<' and number(y[2]) == 1:
                return word(a)[0], y[3], word(a)[1]
        if number(v[3]) is not None or number(v[2]) is not None:
            raise Wrong('%s is no single bit' % show(v))
    if v[0] == 'bin' and v[1] == '|' and (number(v[3]) == 1 or number(v[2]) == 1):
        raise Wrong('%s is always set' % show(v))
    if v[0] == 'bin' and v[1] == '%' and number(v[3]) == 2:
        x = strip(v[2])
        if x[0] == 'bin' and x[1] == '>>':
            return word(x[2])[0], x[3], word(x[2])[1]
    raise Unknown('the bit is %s' % show(v))


def word(t):
    w = 64
    while t[0] == 'cast':
        x = width(t[1])
        if x is not None:
            w = min(w, x)
        t = t[2]
    return t, w


def rows(g, env=None):
    r = table(lambda d: LoopEval(g, None, env or {}, decide=d).run(), limit=8)
    if r is None:
        raise Unknown('too many conditions')
    return r


def has_crc(d):
    """Whether a CRC is being made, in a row of a table"""
    out = None
    for c, v in d.items():
        if c[0] == 'nonnull' and strip(c) == mem('_crc'):
            out = v
        elif c[0] == 'bin' and c[1] == '==' and any(strip(x)[0] == 'gvar' and strip(x)[1].endswith('none') for x in c[2:]):
            out = not v
    return out


def appended(e):
    return [s for s in e.stores if s[3] == 'append' and s[1] == mem('_data')]


def written(ctx, f, e, what):
    """(word, count polynomial, shift polynomial of INDEX, width) of the bits that a function writes"""
    ss = appended(e)
    if not ss:
        raise Wrong('%s writes no bit' % what)
    if len(ss) > 1:
        raise Unknown('%s writes bits in %d places' % (what, len(ss)))
    s = ss[0]
    if len(s[4]) != 1:
        raise Unknown('the bit has several values')
    w, sh, wd = bit_of(next(iter(s[4])))
    normal = poly.Normal()
    lp, first, last, conv = filled(e, s, normal)
    if last is None:
        raise Unknown('the number of bits')
    return w, poly.add(last, poly.const(1)), conv(normal(sh)), wd


def msb(ctx, f, w, count, shift, bits, where):
    want = poly.add(poly.add(count, poly.const(1), -1), poly.atom(INDEX), -1)
    ctx.expect(poly.equal(count, bits), 'order', f.file, f.line, f.q, '%s bits are written and not %s (%s)' % (poly.show(count), poly.show(bits), where), '%s:count' % f.q, '%s: number of bits' % f.q)
    ctx.expect(poly.equal(shift, want), 'order', f.file, f.line, f.q, 'bit n written is the one with weight 2^(%s), and not 2^(%s) (%s)' % (poly.show(shift), poly.show(want), where), '%s:shift' % f.q, '%s: weights' % f.q)


def bits(ctx, prog):
    for q in ('write_from_byte', 'write_from_word'):
        f = one(prog, 'dcp::Bitstream::' + q)
        g = Graph(prog, f, policy())
        ctx.functions([f.key] + list(g.inlined))

        whole = 8 if q.endswith('byte') else 32
        default = (f.params[1].get('d') or {}) if len(f.params) > 1 else {}
        if default.get('cv') is not None:
            ctx.expect(default['cv'] == whole, 'order', f.file, f.line, f.q, 'unless a number of bits is given, %d are written and not %d' % (default['cv'], whole), '%s:default' % f.q, '%s: number of bits unless given' % f.q)

        def go():
            for d, e in rows(g):
                if not e.complete:
                    raise Unknown('not evaluated')
                w, count, shift, wd = written(ctx, f, e, f.q)
                ctx.expect(w == g.params[0], 'order', f.file, f.line, f.q, 'bits of %s are written, and not of what is given' % show(w), '%s:word' % f.q, '%s: word' % f.q)
                own = width(f.type(f.params[0]['t'])) if isinstance(f.params[0], dict) else None
                need = whole
                if own is not None:
                    ctx.expect(min(own, wd) >= need, 'order', f.file, f.line, f.q, 'only %d bits of what is given are kept' % min(own, wd), '%s:width' % f.q, '%s: width' % f.q)
                msb(ctx, f, w, count, shift, poly.Normal()(g.params[1]), 'CRC' if has_crc(d) else 'no CRC')
        wrongs(ctx, f, 'order', go)


def wrongs(ctx, f, rule, fn):
    try:
        fn()
    except Wrong as x:
        ctx.violation(rule, f.file, f.line, f.q, str(x), '%s:%s' % (f.q, rule))


def bit(ctx, prog):
    f = one(prog, 'dcp::Bitstream::write_bit')
    g = Graph(prog, f, policy())
    ctx.functions([f.key])
    b = g.params[0]
    n = 0
    for d, e in rows(g):
        crc = has_crc(d)
        app = appended(e)
        if not app and not e.stores:
            other = [c for c, env in e.calls if c.obj == mem('_data')]
            if other:
                raise Unknown('bits are kept by %s' % other[0].q)
        where = 'a CRC is being made' if crc else 'no CRC is being made'
        ctx.expect(len(app) == 1 and len(app[0][4]) == 1 and strip(next(iter(app[0][4]))) == b, 'bit', f.file, f.line, f.q, 'the bit is not added to the data exactly once as it is where %s' % where, 'write_bit:data', 'data where ' + where)
        pr = [(c, env) for c, env in e.calls if c.q.split('::')[-1] == 'process_bit']
        if crc is None:
            ctx.expect(not d and len(pr) == 0 or bool(pr), 'bit', f.file, f.line, f.q, 'bits do not go to the CRC', 'write_bit:crc', where)
            if not pr:
                ctx.violation('bit', f.file, f.line, f.q, 'bits do not go to the CRC that is being made', 'write_bit:crc')
            else:
                ctx.violation('bit', f.file, f.line, f.q, 'bits go to a CRC without asking whether one is being made', 'write_bit:unset')
            continue
        if crc:
            ok = len(pr) == 1 and len(pr[0][0].args) == 1 and [strip(x) for x in e.ev(pr[0][0].args[0], pr[0][1])] == [b]
            ctx.expect(ok, 'bit', f.file, f.line, f.q, 'the bit does not go to the CRC that is being made exactly once', 'write_bit:crc', where)
        else:
            ctx.expect(not pr, 'bit', f.file, f.line, f.q, 'a CRC that is not being made is used', 'write_bit:unset', where)
        n += 1


def crc(ctx, prog):
    f = one(prog, 'dcp::Bitstream::start_crc')
    g = Graph(prog, f, policy())
    ctx.functions([f.key])
    for d, e in rows(g):
        active = has_crc(d)
        if active is None and d:
            raise Unknown('start_crc asks for %s' % ', '.join(show(c) for c in d))
        end = e.member('_crc')
        if active is not False:
            ctx.expect(end is None and active, 'crc', f.file, f.line, f.q, 'a CRC can be started while one is being made', 'start_crc:twice', 'started twice')
            if active:
                continue
        if end is None:
            ctx.violation('crc', f.file, f.line, f.q, 'a CRC cannot be started', 'start_crc:never')
            continue
        for v in end:
            v = strip(v)
            if v[0] == 'obj' and 'crc_basic' in v[1] or v[0] == 'obj' and 'optional' in v[1]:
                a = list(v[2:])
                if len(a) == 1 and a[0][0] == 'obj':
                    a = list(a[0][2:])
                a = [strip(x) for x in a]
                ok = a and a[0] == g.params[0] and all(number(x) == 0 for x in a[1:])
                ctx.expect(bool(ok), 'crc', f.file, f.line, f.q, 'the CRC is made from %s, and not from the given polynomial' % ', '.join(show(x) for x in a), 'start_crc:poly', 'polynomial')
            elif v == mem('_crc') or (v[0] == 'gvar' and v[1].endswith('none')):
                ctx.violation('crc', f.file, f.line, f.q, 'no CRC is made afterwards', 'start_crc:never')
            else:
                raise Unknown('the CRC is %s' % show(v))
    f = one(prog, 'dcp::Bitstream::write_crc')
    g = Graph(prog, f, policy())
    ctx.functions([f.key])

    def go():
        for d, e in rows(g):
            active = has_crc(d)
            end = e.member('_crc')
            if active is False:
                ctx.expect(end is None, 'crc', f.file, f.line, f.q, 'a CRC can be written when none has been started', 'write_crc:unset', 'not started')
                continue
            if end is None:
                ctx.violation('crc', f.file, f.line, f.q, 'a CRC cannot be written', 'write_crc:never')
                continue
            if active is None:
                ctx.violation('crc', f.file, f.line, f.q, 'nothing asks whether a CRC has been started', 'write_crc:unset')
            ctx.expect(all(strip(v)[0] == 'gvar' and strip(v)[1].endswith('none') or strip(v) in (('null',), ('unset',)) or (strip(v)[0] == 'obj' and len(strip(v)) == 2) for v in end) or any(x[0].q.endswith('optional::reset') for x in e.calls),
                       'crc', f.file, f.line, f.q, 'the CRC goes on being made after it has been written (%s)' % ', '.join(show(v) for v in end), 'write_crc:end', 'ended')
            sums = [c for c, env in e.calls if c.q.split('::')[-1] == 'checksum']
            if not sums:
                ctx.violation('crc', f.file, f.line, f.q, 'the CRC is not asked for its value', 'write_crc:value')
                continue
            w, count, shift, wd = written(ctx, f, e, f.q)
            msb(ctx, f, w, count, shift, poly.const(16), 'the CRC')
            ctx.expect(wd >= 16, 'crc', f.file, f.line, f.q, 'only %d bits of the CRC are written' % wd, 'write_crc:width', 'width')
            dsts = set(c.dst for c in sums)
            isum = w in dsts or (w[0] == 'call' and w[1].endswith('checksum')) or (w[0] == 'ret' and 'checksum' in repr(w))
            if not isum and w[0] not in ('call', 'var', 'ret', 'const', 'bin'):
                raise Unknown('the CRC that is written is %s' % show(w))
            ctx.expect(isum, 'crc', f.file, f.line, f.q, '%s is written, and not the CRC' % show(w), 'write_crc:value', 'value')
            for c in sums:
                ctx.expect(loop_of(e, c) is None, 'crc', c.file, c.line, f.q, 'the CRC is asked for while its own bits are written', 'write_crc:order', 'asked for before it is written')
    wrongs(ctx, f, 'crc', go)


RATES = {24: 0, 25: 1, 30: 2, 48: 3, 50: 4, 60: 5, 96: 6, 100: 7, 120: 8}


def packets(ctx, prog):
    f = one(prog, 'dcp::SoundAssetWriter::create_sync_packets')
    writers = ['dcp::Bitstream::' + n for n in ('write_from_byte', 'write_from_word', 'start_crc', 'write_crc', 'write_bit', 'get')]
    g = Graph(prog, f, policy(*writers))
    ctx.functions([f.key])
    rate = ('mem', ('deref', mem('_asset')), '_edit_rate')
    for r in sorted(RATES):
        e = LoopEval(g, None, {('mem', rate, 'numerator'): ('const', r), ('mem', rate, 'denominator'): ('const', 1)}).run()
        fields = []
        lps = set()
        for n, env in sorted(e.calls, key=lambda x: e.rank(x[0])):
            if n.q not in writers[:5]:
                continue
            lp = loop_of(e, n)
            if lp is None:
                raise Unknown('bits written outside the loop')
            lps.add(lp.head.id)
            name = n.q.split('::')[-1]
            if name.startswith('write_from'):
                w = e.ev(n.args[1], env) if len(n.args) > 1 else frozenset([('const', 8 if name.endswith('byte') else 32)])
                vals = set(number(strip(x)) for x in w)
                if len(vals) != 1 or None in vals:
                    raise Unknown('the width of a field is %s' % ', '.join(show(x) for x in w))
                v = e.ev(n.args[0], env)
                fields.append((int(vals.pop()), v, n))
            elif name == 'write_crc':
                fields.append((16, 'crc', n))
            elif name == 'start_crc':
                fields.append((0, 'start', n))
            else:
                fields.append((1, None, n))
        if len(lps) != 1:
            raise Unknown('the packets are written in %d loops' % len(lps))
        lp = e.loops[lps.pop()]
        cs = []
        for p in lp.next:
            try:
                a, b, s = counter(lp, poly.Normal(), p)
                n = poly.value(poly.scale(poly.add(b, a, -1), s))
                if n is not None:
                    cs.append(int(n) + 1)
            except (Unknown, Wrong):
                pass
        if len(cs) != 1:
            raise Unknown('the number of packets')
        total = sum(w for w, v, n in fields)
        want = 48000 / r / 4
        ctx.expect(cs[0] * total == want, 'packets', f.file, f.line, f.q, 'at %d frames a second %d packets of %d bits do not fill the %d bits of a frame' % (r, cs[0], total, want), 'packets:%d' % r, '%d frames a second' % r)
        kinds = [v for w, v, n in fields if isinstance(v, str)]
        ctx.expect(kinds == ['start', 'crc'], 'packets', f.file, f.line, f.q, 'a packet does not start and write one CRC, in this order', 'packets:crc', 'CRC of a packet')
        # the CRC covers what is between the sync word and itself
        i = [k for k, x in enumerate(fields) if isinstance(x[1], str)]
        if len(i) == 2:
            sync = 0
            for w, v, n in fields[:i[0]]:
                x = number(strip(next(iter(v)))) if len(v) == 1 else None
                if x is None:
                    raise Unknown('the sync word')
                sync = (sync << w) | int(x)
            ctx.expect(sync == 0x4d56, 'packets', f.file, f.line, f.q, 'the CRC does not start just after the sync word 0x4d56 (but after %#x)' % sync, 'packets:sync', 'sync word')
            body = fields[i[0] + 1:i[1]]
            codes = [v for w, v, n in body[:1]]
            ctx.expect(bool(codes) and set(number(strip(x)) for x in codes[0]) == {RATES[r]} and body[0][0] == 4, 'packets', f.file, f.line, f.q, 'the code of %d frames a second is not %d in 4 bits' % (r, RATES[r]), 'packets:code:%d' % r, 'code of %d frames a second' % r)
            ctx.expect(sum(w for w, v, n in body) == 64, 'packets', f.file, f.line, f.q, 'the CRC covers %d bits and not 64' % sum(w for w, v, n in body), 'packets:cover', 'bits that the CRC covers')
            # the bytes of the identifier in their order, and the number of the frame
            ids = []
            for w, v, n in body:
                x = strip(next(iter(v))) if len(v) == 1 else ('several',)
                if x[0] in ('idx', 'at') and 'id' in show(x[1]):
                    ids.append((w, poly.Normal()(x[2]), n))
            if len(ids) == 4:
                base = ids[0][1]
                at = poly.linear(base, next((a for a in poly.atoms(base) if a[0] in ('lv', 'mem')), None))
                ctx.expect(at is not None and at[0] == 4 and poly.value(at[1]) == 0, 'packets', f.file, ids[0][2].line, f.q, 'the part of the identifier in a packet starts at %s' % poly.show(base), 'packets:id', 'identifier')
                for k, (w, p, n) in enumerate(ids):
                    ctx.expect(w == 8 and poly.value(poly.add(p, base, -1)) == k, 'packets', f.file, n.line, f.q, 'byte %d of the part of the identifier in a packet is that at %s' % (k, poly.show(p)), 'packets:id:%d' % k, 'byte %d of the identifier' % k)
            else:
                ctx.skip('packets', 'the bytes of the identifier')
            ctx.expect(any(w == 24 and set(strip(x) for x in v) == {mem('_frames_written')} for w, v, n in body), 'packets', f.file, f.line, f.q, 'the number of the frame is not written in 24 bits', 'packets:frame', 'number of the frame')
            nxt = lp.next.get(mem('_sync_packet'))
            if nxt is not None:
                lv = ('lv', lp.head.id, mem('_sync_packet'))
                vals = set(poly.value(poly.add(poly.Normal()(x), poly.atom(lv), -1)) if lv in list(deep(x)) else ('=', number(x)) for x in nxt)
                ctx.expect(vals == {1, ('=', 0)}, 'packets', f.file, f.line, f.q, 'the number of the packet is not counted up from 0', 'packets:number', 'number of the packet')
            else:
                ctx.violation('packets', f.file, f.line, f.q, 'the number of the packet is not counted', 'packets:number')
            pad = fields[i[1] + 1:]
            ctx.expect(all(set(number(strip(x)) for x in v) == {0} for w, v, n in pad), 'packets', f.file, f.line, f.q, 'a packet does not end with zeros', 'packets:pad', 'padding')


def check(ctx, prog):
    ctx.rule('samples', 'every sample is that of its bit, of four, in the right polarity', 16)
    ctx.rule('data', 'bits are used one after another from the first', 1)
    ctx.rule('order', 'words are written most significant bit first, with as many bits as asked for', 4)
    ctx.rule('bit', 'every bit written is kept once, and goes to a CRC that is being made', 4)
    ctx.rule('crc', 'a CRC is started when there is none, covers what follows, is written in 16 bits and then ended', 4)
    ctx.rule('packets', 'the packets of a frame fill its samples at every edit rate', 9)
    for rule, fn in (('samples', fsk), ('order', bits), ('bit', bit), ('crc', crc), ('packets', packets)):
        ctx.attempt(rule, fn.__name__, lambda: fn(ctx, prog))
