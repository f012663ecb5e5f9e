"""C16: a written MXF asset holds every frame it was given, in order, with the key and description of the asset"""

import cursor
import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'Writers of MXF assets are objects with a protocol: opened once, with a description that has been filled in, before the first frame; every frame written once, in order; finalised at the end. '
    'Histories of writing are interpreted abstractly with the MXF library recording what is asked of it, and with each of its operations failing. '
    'In sound the bytes of each frame are followed from the samples that they are made of.')

WRITERS = {
    'dcp::MonoJ2KPictureAssetWriter': '_picture_asset',
    'dcp::StereoJ2KPictureAssetWriter': '_picture_asset',
    'dcp::MonoMPEG2PictureAssetWriter': '_picture_asset',
    'dcp::AtmosAssetWriter': '_asset',
    'dcp::SoundAssetWriter': '_asset',
}
OK, BAD = obj('ok', 'Result'), obj('bad', 'Result')
FULL = 2 ** 32 - 1


class Engine(cursor.Cursor):
    """with samples, of which some bits are in a byte: ('bits', sample, shift, mask)"""

    def ev(self, x, st):
        if isinstance(x, dict) and x.get('e') in ('bin', 'un', 'var', 'icast', 'cast', 'float'):
            if 'cf' in x:
                return const(x['cf'])
            if 'cv' in x and x['e'] in ('bin', 'un', 'var'):
                return const(x['cv'])
        return cursor.Cursor.ev(self, x, st)

    def compare(self, op, v, w):
        if v[0] == 'bits' and w[0] == 'const' and isinstance(w[1], int):
            _, s, shift, mask = v
            n = w[1]
            if op == '&':
                return ('bits', s, shift, mask & n)
            if op == '>>':
                return ('bits', s, shift + n, mask >> n)
            if op == '<<':
                return ('bits', s, shift - n, (mask << n) & FULL)
            if op == '/' and n > 0 and n & (n - 1) == 0 and mask <= FULL >> 1:
                k = n.bit_length() - 1
                return ('bits', s, shift + k, mask >> k)
            if op == '%' and n > 0 and n & (n - 1) == 0 and mask <= FULL >> 1:
                return ('bits', s, shift, mask & (n - 1))
            return v if op in ('*', '+', '-') and mask == FULL else ANY
        if w[0] == 'bits' and v[0] == 'const' and op in ('&', '*'):
            return self.compare(op, w, v)
        if v[0] == 'interval' or w[0] == 'interval':
            return interval(op, v, w)
        if op == '*':
            for a, b in ((v, w), (w, v)):
                if a[0] == 'const' and b[0] == 'obj':
                    return obj('%s*%s' % (a[1], b[1]), b[2])
            if v[0] == 'obj' and w[0] == 'obj':
                return obj('*'.join(sorted((v[1], w[1]))), v[2])
        return cursor.Cursor.compare(self, op, v, w)

    def e_un(self, x, st):
        if x.get('op') == '-':
            v = self.ev(x['x'], st)
            if v[0] == 'interval':
                return ('interval', -v[2], -v[1])
            if v[0] == 'const' and isinstance(v[1], (int, float)):
                return const(-v[1])
            return ANY
        return cursor.Cursor.e_un(self, x, st)

    def e_idx(self, x, st):
        b = self.ev(x['b'], st)
        if b[0] == 'byte' and b[1] == 'block':
            self.wrong.append((self.f, x, 'a channel that is not there is read'))
            return ANY
        return cursor.Cursor.e_idx(self, x, st)

    def s_decl(self, s, st, o):
        r = cursor.Cursor.s_decl(self, s, st, o)
        t = self.f.type(s['t']) if 't' in s else ''
        k = (self.f.tu, s.get('id'))
        if st.vars.get(k) == ANY and 'FrameBuffer' in t and '*' not in t:
            self.fresh += 1
            st.vars[k] = obj('buffer %d' % self.fresh, t)
        return r


class Making(Engine):
    """with objects that are made, of classes of the library and others"""

    def e_new(self, x, st):
        c = shape.strip(x.get('x')) or {}
        self.fresh += 1
        cls = c.get('cls') or self.f.type(x['t']).replace('*', '').strip()
        o = obj('%s %d' % ((c.get('fn') or cls).split('::(ctor)')[0], self.fresh), cls)
        f = self.prog.functions.get(c.get('fn'))
        args = [self.ev(a, st) for a in c.get('a', []) if isinstance(a, dict)]
        if f is not None and f.body is not None and c.get('in'):
            self.inline(f, o, args, st)
        return o

    def e_call(self, x, st):
        if x.get('m') in ('make_shared', 'make_unique') and (x.get('q') or '').startswith('std::'):
            cls = (x.get('fn') or '').split('<', 1)[-1].split(',')[0].split('>')[0].strip()
            args = [self.ev(a, st) for a in x.get('a', []) if isinstance(a, dict)]
            fs = [f for f in self.prog.get(cls + '::(ctor)') if f.body is not None and len(f.params) == len(args)]
            if len(fs) == 1 and cls.startswith('dcp::'):
                self.fresh += 1
                o = obj('%s %d' % (cls, self.fresh), cls)
                self.inline(fs[0], o, args, st)
                return o
        return Engine.e_call(self, x, st)

    def e_delete(self, x, st):
        return ANY


class Reading:
    """What is asked of the MXF library and of the cryptographic one"""

    def __init__(self, fails=()):
        self.fails = fails
        self.reads = []
        self.asked = set()

    def field(self, e, st, o, name):
        if o is None or (o[1], name) in st.heap:
            return None
        if o[1] == 'description' or o[1].startswith('description '):
            return obj('%s %s' % (o[1], name), 'value')
        return None

    def call(self, e, st, x, o, args):
        q, m = x.get('q') or '', x.get('m')
        if x.get('e') == 'ctor':
            cls = x.get('cls') or ''
            if cls.startswith('ASDCP::') and cls.endswith('Descriptor'):
                return obj('description', cls)
            if cls == 'ASDCP::WriterInfo':
                return obj('info', cls)
            if cls == 'std::basic_string' and args and args[0][0] == 'ptr':
                return st.heap.get((args[0][1], 'text'), ANY)
            return pair(x, cls, args)
        if m == 'hex2bin' and len(args) == 4:
            p = e.place(x['a'][1], st)
            if p[0] == 'heap':
                st.heap[p[1]] = obj('binary of %s' % args[0][1], 'uuid') if args[0][0] in ('obj', 'const') else ANY
            t = shape.strip(x['a'][3])
            if t.get('e') == 'un' and t.get('op') == '&':
                e.store(t['x'], args[2], st)
            return const(0)
        if m == 'bin2UUIDhex' and len(args) == 4:
            if args[2][0] == 'ptr':
                st.heap[(args[2][1], 'text')] = obj('text of %s' % args[0][1], 'text') if args[0][0] == 'obj' else ANY
            return args[2]
        if m == 'operator=' and args and args[-1][0] == 'ptr' and (args[-1][1], 'text') in st.heap:
            v = st.heap[(args[-1][1], 'text')]
            e.store(x['o'] if isinstance(x.get('o'), dict) else x['a'][0], v, st)
            return v
        if q.endswith('MXFMetadata::read') or m in ('OP1aHeader', 'GetMDObjectByType', 'GetMDObjectsByType', 'ul'):
            return ANY
        if m == 'Failure' and o is not None and o in (OK, BAD):
            return const(o == BAD)
        if m == 'Success' and o is not None and o in (OK, BAD):
            return const(o == OK)
        self.asked.add(m)
        r = BAD if m in self.fails or (m == 'InitKey' and o is not None and o[0] == 'obj' and 'InitKey of ' + ('HMAC' if 'HMAC' in o[2] else 'AES') in self.fails) else OK
        if m == 'InitKey' and o is not None and o[0] == 'obj':
            st.heap[(o[1], 'key')] = args[0]
            st.heap[(o[1], 'label')] = args[1] if len(args) > 1 else NULL
            return r
        if m == 'SetIVec':
            return r
        if m == 'OpenRead':
            if o is not None and o[0] == 'obj':
                st.heap[(o[1], 'file')] = args[0]
            return r
        if m == 'ReadFrame' and len(args) >= 4:
            self.reads.append((o, args, dict(st.heap)))
            return r
        if q.endswith('Key::value'):
            return obj('bytes of ' + str(o[1]), 'bytes') if o[0] == 'obj' else ANY
        if m in ('make_shared', 'make_unique') and 'FrameBuffer' in (x.get('fn') or ''):
            e.fresh += 1
            return obj('buffer %d' % e.fresh, 'buffer')
        if m in ('fix_long_path', 'string', 'c_str', 'native') and (o is not None or args):
            v = o if o is not None else args[0]
            return v if v[0] in ('obj', 'const') else None
        if o is not None and o[1:2] == ('asset',):
            if m == 'file':
                return obj('the file', 'path')
            if m in ('key', 'standard'):
                return st.heap.get(('asset', '_' + m), ANY)
        if m and m.startswith('Fill') and 'ASDCP' in q:
            return r
        if m in ('FillRandom', 'compose'):
            return ANY
        return None


def interval(op, v, w):
    def ends(a):
        if a[0] == 'interval':
            return a[1], a[2]
        if a[0] == 'const' and isinstance(a[1], (int, float)):
            return a[1], a[1]
        return None
    a, b = ends(v), ends(w)
    if a is None or b is None:
        return ANY
    if op in ('<', '>', '<=', '>='):
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if op == '<':
            return TRUE if a[1] < b[0] else FALSE if a[0] >= b[1] else ANY
        return TRUE if a[1] <= b[0] else FALSE if a[0] > b[1] else ANY
    if op == '+':
        return ('interval', a[0] + b[0], a[1] + b[1])
    if op == '-':
        return ('interval', a[0] - b[1], a[1] - b[0])
    if op == '*':
        e = [i * j for i in a for j in b]
        return ('interval', min(e), max(e))
    if op == '/' and b[0] == b[1] and b[0] != 0:
        e = [i / b[0] for i in a]
        return ('interval', min(e), max(e))
    if op == 'min':
        return ('interval', min(a[0], b[0]), min(a[1], b[1]))
    if op == 'max':
        return ('interval', max(a[0], b[0]), max(a[1], b[1]))
    return ANY


def pair(x, cls, args):
    """Fractions and sizes as what they are made of"""
    if cls in ('dcp::Fraction', 'ASDCP::Rational', 'dcp::Size') and len(args) == 2 and all(a[0] in ('obj', 'const') for a in args):
        return obj('(%s, %s)' % (args[0][1], args[1][1]), cls)
    return None


class World:
    def __init__(self, fails=()):
        self.fails = fails
        self.channels = 3
        self.capacity = 36

    def field(self, e, st, o, name):
        if o is None:
            return None
        if (o[1], name) in st.heap:
            return None
        if o[1] == 'state':
            return obj('state ' + name, 'state')
        if o[1] == 'asset edit_rate':
            return obj('edit rate ' + name, 'int')
        if o[1] == 'descriptor' or o[1].startswith('state '):
            return obj(o[1] + ' ' + name, 'description')
        return None

    def note(self, st, *what):
        t = st.heap.get(('trace', 't'), ANY)
        st.heap[('trace', 't')] = t + (what,) if t[0] == 'trace' else ANY

    def result(self, name):
        return BAD if name in self.fails else OK

    def content(self, e, st, b):
        if b[0] != 'obj':
            raise shape.Unknown('buffer that is written')
        v = st.heap.get((b[1], 'content'))
        if v is not None:
            return v
        size = st.heap.get((b[1], 'size'), const(0))
        if size[0] != 'const':
            raise shape.Unknown('size of the buffer that is written')
        return tuple(st.heap.get(('data of ' + b[1], i), const(0)) for i in range(size[1]))

    def call(self, e, st, x, o, args):
        q, m = x.get('q') or '', x.get('m')
        cls = x.get('cls') or ''
        if x.get('e') == 'new':
            return obj('state', 'state') if 'ASDCPState' in e.f.type(x['t']) else None
        if x.get('e') == 'ctor':
            if 'FrameBuffer' in cls:
                e.fresh += 1
                return obj('buffer %d' % e.fresh, cls)
            if cls.endswith('FrameInfo'):
                return obj('info', cls)
            return pair(x, cls, args)
        if m == 'Failure' and o is not None and o in (OK, BAD):
            return const(o == BAD)
        if m == 'Success' and o is not None and o in (OK, BAD):
            return const(o == OK)
        writer = o is not None and 'ASDCP::' in q and ('MXFWriter' in q or 'MXFSWriter' in q)
        if writer and m == 'OpenWrite':
            self.note(st, 'open', args[0], st.heap.get((args[1][1], 'filled'), NULL) if args[1][0] == 'obj' else ANY, args[4] if len(args) > 4 else None)
            return self.result(m)
        if writer and m == 'WriteFrame':
            eye = [a for a in args if a[0] == 'enum' or a[0] == 'const' and isinstance(a[1], int) and 'Stereo' in e.stack[0][0].q]
            self.note(st, 'frame', self.content(e, st, args[0]), tuple(a for a in args[1:] if a[0] == 'obj' and a[1] in ('crypto context', 'crypto hmac')), eye[0] if eye else None)
            return self.result(m)
        if writer and m == 'FakeWriteFrame':
            self.note(st, 'fake', args[0], args[1] if len(args) == 2 else None)
            return self.result(m)
        if writer and m == 'Finalize':
            self.note(st, 'finalize')
            return self.result(m)
        if writer and m == 'Tell':
            return ANY
        if writer and m == 'OP1aHeader':
            return obj('header', 'header')
        if m == 'OpenReadFrame' and len(args) == 3:
            if args[2][0] == 'obj':
                st.heap[(args[2][1], 'content')] = ('parsed', args[0]) if args[0][0] == 'ptr' else ANY
            return self.result(m)
        if m == 'OpenReadFrame' or m == 'FillPictureDescriptor' or m == 'FillVideoDescriptor':
            return self.result(m)
        if m == 'fill_writer_info' and len(args) == 2:
            if args[0][0] == 'obj':
                st.heap[(args[0][1], 'filled')] = args[1]
            return ANY
        if o is not None and o[0] == 'obj' and 'FrameBuffer' in q:
            if m == 'Data' and not args:
                return ('ptr', 'data of ' + o[1], 0)
            if m == 'SetData':
                st.heap[(o[1], 'content')] = ('parsed', args[0]) if args[0][0] == 'ptr' else ANY
                return OK
            if m in ('Size', 'Capacity'):
                if args:
                    st.heap[(o[1], m.lower())] = args[0]
                    if m == 'Capacity' and args[0][0] == 'const':
                        e.sizes['data of ' + o[1]] = args[0][1]
                    return OK
                return st.heap.get((o[1], m.lower()), ANY)
            if m == 'PlaintextOffset':
                return ANY
        if m in ('fix_long_path', 'string', 'c_str', 'native') and (o is not None or args):
            v = o if o is not None else args[0]
            return v if v[0] in ('obj', 'const') else None
        if o is not None and o[1:2] == ('asset',):
            if m == 'id':
                return const('the id')
            if m == 'channels':
                return const(self.channels)
            if m == 'set_file' and args:
                st.heap[('asset', '_file')] = args[0]
                return ANY
            if m == 'file':
                return st.heap.get(('asset', '_file'), NULL)
            if m == 'standard':
                return obj('a standard', 'dcp::Standard')
            if m == 'edit_rate':
                return obj('asset edit_rate', 'dcp::Fraction')
            if m in ('set_frame_rate', 'set_size', 'set_screen_aspect_ratio') and args:
                st.heap[('asset', m[3:])] = args[0]
                return ANY
            if m == 'language':
                return ANY
            if not args and x.get('cm'):
                return obj('asset ' + m, 'value')
        if o is not None and o[1:2] == ('crypto',) and m in ('context', 'hmac'):
            return obj('crypto ' + m, m)
        if m == 'CalcFrameBufferSize':
            return const(self.capacity)
        if m == 'create_sync_packets':
            return seq()
        if q.endswith('FSK::get'):
            n = st.heap.get(('fsk', 'n'), const(0))
            st.heap[('fsk', 'n')] = const(n[1] + 1)
            return ('bits', 'sync %d' % n[1], 0, FULL)
        if q.endswith('FSK::set_data'):
            return ANY
        if m == 'memset' and len(args) == 3:
            if args[0][0] == 'ptr' and args[1][0] == 'const' and args[2][0] == 'const' and isinstance(args[2][1], int) and args[2][1] < 100000:
                for i in range(args[2][1]):
                    e.put(('ptr', args[0][1], args[0][2] + i), const(args[1][1] & 255), st, x)
                return args[0]
            raise shape.Unknown('memset')
        if q in ('std::fill_n', 'std::fill'):
            if args[0][0] == 'ptr' and args[2][0] == 'const':
                n = (args[1][1] if q == 'std::fill_n' else args[1][2] - args[0][2]) if args[1][0] in ('const', 'ptr') else None
                if isinstance(n, int) and n < 100000:
                    for i in range(n):
                        e.put(('ptr', args[0][1], args[0][2] + i), args[2], st, x)
                    return ANY
            raise shape.Unknown('fill')
        if q in ('std::min', 'std::max') and len(args) == 2:
            for a, b in (args, args[::-1]):
                if a[0] == 'bits' and b[0] in ('const', 'any'):
                    return a
            if 'interval' in (args[0][0], args[1][0]):
                return interval(m, args[0], args[1])
        if m == 'clamp' and len(args) == 3:
            if args[0][0] == 'bits':
                return args[0]
            if args[0][0] == 'interval':
                return interval('min', interval('max', args[0], args[1]), args[2])
        if m in ('lround', 'lroundf', 'lrint', 'round', 'rint', 'llround', 'floor', 'trunc') and args:
            return args[0] if args[0][0] in ('bits', 'interval') else None
        if q.endswith('::GenRandomValue') or m in ('GetMDObjectByType', 'AddChildObject'):
            return ANY
        return None


def check(ctx, prog):
    ctx.rule('order', 'a file is opened once, with its description filled in, before its first frame; every frame is written once and in order; it is finalised once at the end', 5)
    ctx.rule('key', 'frames are written with the key and the integrity check of the writer', 5)
    ctx.rule('count', 'after it is finalised an asset has as many frames as were written, and its file', 5)
    ctx.rule('refuse', 'no frame is taken after finalising', 5)
    ctx.rule('fail', 'what fails is reported', 10)
    ctx.rule('describe', 'what a file says of its asset is what the asset has, and is read back as it', 20)
    ctx.rule('sample', 'each byte of a frame of sound is a byte of the sample that belongs there; channels that are not given are silent', 5)
    ctx.rule('scale', 'samples beyond full scale are limited to it', 2)

    def find(q, pred=None):
        fs = [f for f in prog.get(q) if f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    def value(x):
        x = shape.strip(x)
        if x is None:
            return ANY
        if x.get('e') == 'null':
            return NULL
        if x.get('e') == 'bool':
            return const(bool(x['cv']))
        if x.get('e') == 'enum':
            return ('enum', x['q'], x['cv'])
        return const(x['cv']) if 'cv' in x else ANY

    def fresh(cls, channels=3, capacity=36, **more):
        heap = {}
        for c in [cls] + [b for b in prog.bases(cls) if b != cls]:
            r = prog.record(c)
            for f in (r or {}).get('fields', []):
                heap.setdefault(('writer', f['n']), value(f.get('x')))
        heap.update({('writer', '_state'): obj('state', 'state'), ('writer', '_crypto_context'): obj('crypto', 'crypto'), ('writer', '_file'): obj('the file', 'path'),
                     ('writer', WRITERS[cls]): obj('asset', 'asset'), ('writer', '_overwrite'): obj('whether to overwrite', 'bool'), ('trace', 't'): ('trace',)})
        st = shape.State({}, dict(heap))
        if cls in ('dcp::AtmosAssetWriter', 'dcp::SoundAssetWriter'):
            # these fill in the description when they are made
            f = find(cls + '::(ctor)', lambda f: len(f.params) > 1)
            w = World()
            w.channels, w.capacity = channels, capacity
            v, s, e = step(w, f, st, [obj('asset', 'asset') if 'Asset' in f.type(p['t']) else obj('the file', 'path') if 'path' in f.type(p['t']) else FALSE if f.type(p['t']) == 'bool' else seq() for p in f.params])
            if s is None:
                raise shape.Unknown('making of the writer')
            for k, v in s.heap.items():
                if k[0].startswith(('state ', 'data of ')):
                    heap[k] = v
        for k, v in more.items():
            heap[('writer', k)] = v
        return shape.State({}, heap)

    def step(w, f, st, args):
        """-> (value, state or None, engine)"""
        e = Engine(prog, w)
        e.strict = True
        for k, v in st.heap.items():
            if k[1] == 'capacity' and v[0] == 'const':
                e.sizes['data of ' + k[0]] = v[1]
        rs = e.call(f, obj('writer', f.cls), list(args), st)
        ctx.functions(e.functions)
        if not rs:
            return None, None, e
        v, s = rs[0]
        for b, t in rs[1:]:
            v, s = shape.join(v, b), shape.merge(s, t)
        for g, x, what in e.wrong:
            ctx.violation('order', g.file, x.get('l', g.line), g.q, what, 'order:wrong:%s' % what)
        for g, x, p in e.beyond:
            ctx.violation('order', g.file, (x or {}).get('l', g.line), g.q, 'bytes are written beyond the end of a buffer', 'order:beyond')
        return v, s, e

    def trace(s):
        t = s.heap.get(('trace', 't'), ANY)
        if t[0] != 'trace':
            raise shape.Unknown('what was asked of the MXF library')
        return t[1:]

    def given(i):
        return [('ptr', 'given %d' % i, 0), const(8)]

    def expected(cls, i):
        return tuple(('byte', 'given %d' % i, j) for j in range(8)) if cls.endswith('AtmosAssetWriter') else ('parsed', ('ptr', 'given %d' % i, 0))

    for cls in sorted(WRITERS):
        if cls.endswith('SoundAssetWriter'):
            continue
        short = cls[5:]
        stereo = 'Stereo' in cls
        write = find(cls + '::write', lambda f: len(f.params) == 2)
        finalize = find(cls + '::finalize')
        fakes = [f for f in prog.get(cls + '::fake_write') if f.body is not None]

        def history(ops, w=None):
            w = w or World()
            s = fresh(cls)
            n = 0
            for op in ops:
                if op == 'w':
                    v, s, e = step(w, write, s, given(n))
                else:
                    v, s, e = step(w, fakes[0], s, [obj('info %d' % n, 'info')])
                n += 1
                if s is None:
                    return None, None, e
            return step(w, finalize, s, [])

        def judge(ops):
            what = '%s: %s' % (short, 'nothing' if not ops else ', '.join({'w': 'frame', 'f': 'fake'}[o] for o in ops))
            v, s, e = history(ops)
            if s is None:
                if 'f' in ops:
                    ctx.skip('order', what + ': refused')
                    return
                ctx.violation('order', write.file, write.line, write.q, 'frames are refused although nothing fails', 'order:refused:' + short)
                return
            t = trace(s)
            f = write
            kinds = [a[0] for a in t]
            want = (['open'] + ['frame' if o == 'w' else 'fake' for o in ops] + ['finalize']) if ops else []
            ctx.expect(kinds == want, 'order', f.file, f.line, f.q, 'with %d frames given the file is asked to %s' % (len(ops), ', '.join(kinds) or 'do nothing'), 'order:%s' % short, what)
            if kinds != want:
                return
            if ops:
                o = t[0]
                if o[1] != ANY:
                    ctx.expect(o[1] == obj('the file', 'path'), 'order', f.file, f.line, f.q, 'another file is opened', 'order:file:' + short, what + ': file')
                if o[2] != ANY:
                    ctx.expect(o[2] == const('the id'), 'order', f.file, f.line, f.q, 'the file is opened with a description which %s' % ('has not been filled in' if o[2] == NULL else 'has another identifier'), 'order:info:' + short, what + ': description')
                if o[3] is not None and o[3] != ANY:
                    ctx.expect(o[3] == obj('whether to overwrite', 'bool'), 'order', f.file, f.line, f.q, 'whether the file is overwritten is not as was asked', 'order:overwrite:' + short, what + ': overwriting')
            for i, a in enumerate(t[1:-1]):
                if a[0] == 'frame':
                    if a[1] != ANY:
                        ctx.expect(a[1] == expected(cls, i), 'order', f.file, f.line, f.q, 'frame %d is not written with what was given for it' % i, 'order:content:' + short, what + ': content')
                    ctx.expect(a[2] == (obj('crypto context', 'context'), obj('crypto hmac', 'hmac')), 'key', f.file, f.line, f.q, 'frame %d is written without the key or integrity check of the writer' % i, 'key:' + short, what + ': key')
                else:
                    g = fakes[0]
                    if a[1][0] == 'obj':
                        ctx.expect(a[1][1].startswith('info %d' % i) and a[1][1].endswith('size'), 'order', g.file, g.line, g.q, 'another size is taken for frame %d' % i, 'order:fake:' + short, what + ': size of fake')
                eye = a[3] if a[0] == 'frame' else a[2]
                if stereo:
                    name = str(eye[1]) if eye is not None and eye[0] == 'enum' else None
                    if name is None:
                        ctx.skip('order', what + ': eye')
                    else:
                        ctx.expect(name.endswith('LEFT' if i % 2 == 0 else 'RIGHT'), 'order', f.file, f.line, f.q, 'frame %d is written for the wrong eye' % i, 'order:eye:' + short, what + ': eye of frame %d' % i)
            d = s.heap.get(('asset', '_intrinsic_duration'), None)
            n = len(ops) // 2 if stereo else len(ops)
            if d == ANY:
                ctx.skip('count', what)
            else:
                ctx.expect(d == const(n), 'count', finalize.file, finalize.line, finalize.q, 'after %d were written the asset has %s frames' % (n, 'no known number of' if d is None else d[1]), 'count:' + short, what + ': length')
            if ops:
                p = s.heap.get(('asset', '_file'), NULL)
                if p != ANY:
                    ctx.expect(p == obj('the file', 'path'), 'count', write.file, write.line, write.q, 'the asset does not have the file that was written', 'count:file:' + short, what + ': file of the asset')
            if ops:
                r = s.heap.get(('asset', '_frame_rate'), NULL)
                good = (obj('(2*edit rate numerator, edit rate denominator)', 'dcp::Fraction'),) if stereo else (obj('asset edit_rate', 'dcp::Fraction'), obj('(edit rate numerator, edit rate denominator)', 'dcp::Fraction'))
                if 'Atmos' not in cls and r != ANY:
                    ctx.expect(r in good, 'describe', write.file, write.line, write.q, 'the asset does not have the frame rate of what was written', 'describe:rate:' + short, what + ': frame rate')
            if v[0] == 'const':
                ctx.expect(bool(v[1]) == bool(ops), 'count', finalize.file, finalize.line, finalize.q, 'whether anything was written is told wrong', 'count:told:' + short, what + ': what is told')

        lists = ['', 'ww' if stereo else 'w', 'www' if not stereo else 'wwww']
        if fakes:
            lists += ['wf', 'wwff', 'wffw']
        for ops in lists:
            ctx.attempt('order', '%s %s' % (short, ops), lambda: judge(ops))

        def after():
            w = World()
            s = fresh(cls)
            v, s, e = step(w, write, s, given(0))
            if s is None:
                raise shape.Unknown('first frame')
            v, s, e = step(w, finalize, s, [])
            if s is None:
                raise shape.Unknown('finalising')
            v, t, e = step(w, finalize, s, [])
            ctx.expect(t is None, 'refuse', finalize.file, finalize.line, finalize.q, 'an asset is finalised twice', 'refuse:twice:' + short, '%s twice' % finalize.q)
            for f, args in [(write, given(1))] + [(g, [obj('info', 'info')]) for g in fakes]:
                v, t, e = step(w, f, s, args)
                ctx.expect(t is None, 'refuse', f.file, f.line, f.q, 'a frame is taken after the asset has been finalised', 'refuse:' + short, '%s after finalising' % f.q)
        ctx.attempt('refuse', short, after)

        for failing in ('OpenWrite', 'WriteFrame', 'OpenReadFrame', 'Finalize', 'FakeWriteFrame'):
            def fail():
                w = World((failing,))
                s = fresh(cls)
                if failing == 'FakeWriteFrame':
                    if not fakes:
                        return
                    v, s, e = step(World(), write, s, given(0))
                    if s is None:
                        raise shape.Unknown('first frame')
                    v, s, e = step(w, fakes[0], s, [obj('info', 'info')])
                    f = fakes[0]
                else:
                    v, s, e = step(w, write, s, given(0))
                    f = write
                    if failing == 'OpenReadFrame' and 'J2K' not in cls:
                        return
                    if failing == 'Finalize':
                        if s is None:
                            raise shape.Unknown('first frame')
                        v, s, e = step(w, finalize, s, [])
                        f = finalize
                ctx.expect(s is None, 'fail', f.file, f.line, f.q, '%s passes over a failure of %s' % (f.q, failing), 'fail:%s:%s' % (short, failing), '%s: %s' % (short, failing))
            ctx.attempt('fail', '%s %s' % (short, failing), fail)

    # keys, of readers and writers
    standards = dict((c[0], ('enum', 'dcp::Standard::' + c[0], c[1])) for c in prog.enum('dcp::Standard')['c'])
    KEY = obj('the key', 'dcp::Key')
    BYTES = obj('bytes of the key', 'bytes')

    def made(f, w, this, args, heap):
        e = Making(prog, w, depth=12)
        e.strict = True
        rs = e.call(f, this, list(args), shape.State({}, dict(heap)))
        ctx.functions(e.functions)
        if len(rs) > 1:
            v, s = rs[0]
            for b, t in rs[1:]:
                v, s = shape.join(v, b), shape.merge(s, t)
            rs = [(v, s)]
        return rs[0] if rs else (None, None)

    def context(heap, c, key, n, f, what):
        """Is this a context for the key and standard?"""
        aes, hmac = heap.get((c[1], '_context'), ANY), heap.get((c[1], '_hmac'), ANY)
        if aes == ANY or hmac == ANY:
            raise shape.Unknown('context')
        if key == NULL:
            ctx.expect(aes == NULL and hmac == NULL, 'key', f.file, f.line, f.q, 'something without a key is encrypted or decrypted', 'key:none', what + ': no key')
            return
        for o, k in ((aes, 'cipher'), (hmac, 'integrity check')):
            v = heap.get((o[1], 'key'), NULL) if o != NULL else NULL
            if v == ANY:
                raise shape.Unknown('key')
            ctx.expect(v == BYTES, 'key', f.file, f.line, f.q, 'the %s does not have the key of the asset' % k, 'key:' + k, what + ': ' + k)
        if hmac == NULL:
            return
        label = heap.get((hmac[1], 'label'), ANY)
        if label[0] == 'enum':
            ctx.expect(str(label[1]).upper().endswith(n), 'key', f.file, f.line, f.q, 'the integrity check of an asset of %s is that of another standard' % n, 'key:label:' + n, what + ': label')

    readers = sorted((g for q in ('dcp::AtmosAsset', 'dcp::MonoJ2KPictureAsset', 'dcp::StereoJ2KPictureAsset', 'dcp::MonoMPEG2PictureAsset', 'dcp::SoundAsset') for g in prog.get(q + '::start_read') if g.body is not None), key=lambda g: g.q)
    for f in readers:
        for n, standard in sorted(standards.items()):
            for key in (KEY, NULL):
                for fails in ((), ('OpenRead',), ('ReadFrame',), ('InitKey of AES',), ('InitKey of HMAC',), ('SetIVec',)):
                    for hmac in (True, False):
                        if fails and (not hmac or n != 'SMPTE' or (key == NULL) != (fails[0] in ('OpenRead', 'ReadFrame'))):
                            continue
                        what = 'reading of %s (%s, %s%s)' % (f.cls[5:], n, 'key' if key != NULL else 'no key', '' if hmac else ', no integrity check')

                        def go():
                            w = Reading(fails)
                            v, s = made(f, w, obj('asset', f.cls), [], {('asset', '_key'): key, ('asset', '_standard'): standard})
                            if s is not None:
                                if v[0] != 'obj' or (v[1], '_crypto_context') not in s.heap:
                                    raise shape.Unknown('reader')
                                if not hmac:
                                    sets = [g for g in prog.get('dcp::AssetReader::set_check_hmac') if g.body is not None]
                                    if not sets:
                                        return
                                    s = made(sets[0], w, v, [FALSE], s.heap)[1]
                                mine = [g for g in prog.get('dcp::AssetReader::get_frame') if g.body is not None and g.key.startswith(v[1].rsplit(' ', 1)[0] + '::')]
                                if not mine:
                                    raise shape.Unknown('reader of frames')
                                fr, t = made(mine[0], w, v, [const(7)], s.heap)
                            else:
                                t = None
                            if fails:
                                ctx.expect(t is None, 'fail', f.file, f.line, f.q, 'a frame is read although %s failed' % fails[0], 'fail:read:%s' % fails[0], '%s: %s' % (what, fails[0]))
                                return
                            if t is None:
                                ctx.violation('order', f.file, f.line, f.q, 'nothing can be read although nothing fails', 'order:read:refused')
                                return
                            if len(w.reads) != 1:
                                raise shape.Unknown('reads')
                            o, a, heap = w.reads[0]
                            ctx.expect(a[0] == const(7), 'order', mine[0].file, mine[0].line, mine[0].q, 'another frame than the one asked for is read', 'order:read:n', what + ': number') if a[0] != ANY else ctx.skip('order', what)
                            if heap.get((o[1], 'file'), ANY) != ANY:
                                ctx.expect(heap[(o[1], 'file')] == obj('the file', 'path'), 'order', f.file, f.line, f.q, 'another file is read', 'order:read:file', what + ': file')
                            c = s.heap[(v[1], '_crypto_context')]
                            if c[0] != 'obj':
                                raise shape.Unknown('context')
                            # Atmos is only of SMPTE
                            context(heap, c, key, 'SMPTE' if 'Atmos' in f.q else n, f, what)
                            ctx.expect(a[2] == heap.get((c[1], '_context')), 'key', mine[0].file, mine[0].line, mine[0].q, 'a frame is read without the key of its reader', 'key:read', what + ': key of the frame') if a[2] != ANY else ctx.skip('key', what)
                            ctx.expect(a[3] == (heap.get((c[1], '_hmac')) if hmac else NULL), 'key', mine[0].file, mine[0].line, mine[0].q, 'the integrity of a frame is %s' % ('not checked' if hmac else 'checked though that was not asked for'), 'key:read:hmac', what + ': integrity') if a[3] != ANY else ctx.skip('key', what)
                        ctx.attempt('key', what, go)

    ctor = find('dcp::AssetWriter::(ctor)', lambda f: len(f.params) == 2)
    for n, standard in sorted(standards.items()):
        for key in (KEY, NULL):
            def go():
                what = 'writing (%s, %s)' % (n, 'key' if key != NULL else 'no key')
                v, s = made(ctor, Reading(), obj('writer', 'dcp::AssetWriter'), [obj('asset', 'asset'), obj('the file', 'path')], {('asset', '_key'): key, ('asset', '_standard'): standard})
                if s is None:
                    ctx.violation('order', ctor.file, ctor.line, ctor.q, 'no writer can be made although nothing fails', 'order:make')
                    return
                c = s.heap.get(('writer', '_crypto_context'), ANY)
                if c[0] != 'obj':
                    raise shape.Unknown('context')
                context(s.heap, c, key, n, ctor, what)
                p = s.heap.get(('writer', '_file'), ANY)
                if p != ANY:
                    ctx.expect(p == obj('the file', 'path'), 'order', ctor.file, ctor.line, ctor.q, 'a writer is not for the file that it was made for', 'order:make:file', what + ': file')
            ctx.attempt('key', 'writing %s' % n, go)

    # descriptions
    R = obj('(edit rate numerator, edit rate denominator)', 'ASDCP::Rational')
    for cls, wanted in (
            ('dcp::AtmosAssetWriter', {'EditRate': R, 'FirstFrame': obj('asset first_frame', 'value'), 'MaxChannelCount': obj('asset max_channel_count', 'value'), 'MaxObjectCount': obj('asset max_object_count', 'value'), 'AtmosVersion': obj('asset atmos_version', 'value')}),
            ('dcp::SoundAssetWriter', {'EditRate': R, 'AudioSamplingRate': obj('(asset sampling_rate, 1)', 'ASDCP::Rational'), 'ChannelCount': const(3), 'QuantizationBits': const(24), 'BlockAlign': const(9), 'AvgBps': obj('9*asset sampling_rate', 'value')})):
        def go():
            s = fresh(cls)
            f = find(cls + '::(ctor)', lambda f: len(f.params) > 1)
            for k, v in sorted(wanted.items()):
                got = s.heap.get(('state desc', k), NULL)
                if got == ANY:
                    ctx.skip('describe', '%s %s' % (cls, k))
                    continue
                ctx.expect(got[:2] == v[:2], 'describe', f.file, f.line, f.q, '%s of a file is not that of its asset' % k, 'describe:%s:%s' % (cls, k), '%s of %s' % (k, cls))
        ctx.attempt('describe', cls, go)

    def D(*names):
        v = ['description ' + n for n in names]
        return obj('(%s)' % ', '.join(v) if len(v) > 1 else v[0], '')

    rate = {'_edit_rate': D('EditRate Numerator', 'EditRate Denominator'), '_intrinsic_duration': D('ContainerDuration')}
    picture = dict(rate, _frame_rate=D('SampleRate Numerator', 'SampleRate Denominator'))
    for q, pred, wanted in (
            ('dcp::AtmosAsset::(ctor)', lambda f: len(f.params) == 1 and 'path' in f.type(f.params[0]['t']), dict(rate, _first_frame=D('FirstFrame'), _max_channel_count=D('MaxChannelCount'), _max_object_count=D('MaxObjectCount'), _atmos_version=D('AtmosVersion'), _atmos_id=obj('text of description AtmosID', ''))),
            ('dcp::SoundAsset::(ctor)', lambda f: len(f.params) == 1 and 'path' in f.type(f.params[0]['t']), dict(rate, _channels=D('ChannelCount'), _bit_depth=D('QuantizationBits'))),
            ('dcp::J2KPictureAsset::read_picture_descriptor', None, dict(picture, _screen_aspect_ratio=D('AspectRatio Numerator', 'AspectRatio Denominator'))),
            ('dcp::MPEG2PictureAsset::read_video_descriptor', None, picture)):
        def go():
            f = find(q, pred)
            v, s = made(f, Reading(), obj('asset', f.cls), [obj('the file', 'path') if 'ctor' in q else obj('description', 'description')], {('info', 'EncryptedEssence'): FALSE, ('info', 'AssetUUID'): obj('the id', 'uuid'), ('info', 'LabelSetType'): ('enum', 'ASDCP::LabelSet_t::LS_MXF_SMPTE', 2)})
            if s is None:
                ctx.violation('describe', f.file, f.line, f.q, 'no asset can be read although nothing fails', 'describe:refused:' + q)
                return
            for k, want in sorted(wanted.items()):
                got = s.heap.get(('asset', k), NULL)
                if got == ANY:
                    ctx.skip('describe', '%s %s' % (q, k))
                    continue
                ctx.expect(got[:2] == want[:2], 'describe', f.file, f.line, f.q, '%s of an asset is not read from the part of the file that says so' % k[1:].replace('_', ' '), 'describe:%s:%s' % (q, k), '%s by %s' % (k, q))
            size = [s.heap.get(('asset _size', k)) for k in ('width', 'height')]
            if 'Picture' in q and None not in size and ANY not in size:
                ctx.expect([v[:2] for v in size] == [D('StoredWidth')[:2], D('StoredHeight')[:2]], 'describe', f.file, f.line, f.q, 'the size of a picture is not read from the part of the file that says so', 'describe:%s:size' % q, 'size by ' + q)
            if 'ctor' in q and s.heap.get(('asset', '_id'), ANY) != ANY:
                ctx.expect(s.heap[('asset', '_id')][:2] == ('obj', 'text of the id'), 'describe', f.file, f.line, f.q, 'the identifier of an asset is not read from the part of the file that says so', 'describe:%s:id' % q, 'identifier by ' + q)
        ctx.attempt('describe', q, go)

    information = {('info', 'EncryptedEssence'): FALSE, ('info', 'AssetUUID'): obj('the id', 'uuid'), ('info', 'LabelSetType'): ('enum', 'ASDCP::LabelSet_t::LS_MXF_SMPTE', 2)}
    for q in ('dcp::AtmosAsset', 'dcp::SoundAsset', 'dcp::MonoJ2KPictureAsset', 'dcp::StereoJ2KPictureAsset', 'dcp::MonoMPEG2PictureAsset'):
        f = find(q + '::(ctor)', lambda f: len(f.params) == 1 and 'path' in f.type(f.params[0]['t']))
        for failing in ('OpenRead', 'FillWriterInfo', 'FillAtmosDescriptor', 'FillAudioDescriptor', 'FillPictureDescriptor', 'FillVideoDescriptor'):
            def go():
                w = Reading((failing,))
                v, s = made(f, w, obj('asset', f.cls), [obj('the file', 'path')], information)
                if failing in w.asked:
                    ctx.expect(s is None, 'fail', f.file, f.line, f.q, 'an asset is read although %s failed' % failing, 'fail:asset:%s:%s' % (q, failing), '%s: %s' % (q[5:], failing))
            ctx.attempt('fail', '%s %s' % (q, failing), go)

    def keys():
        f = find('dcp::MXF::set_key')
        for old in (obj('key id', 'text'), NULL):
            v, s = made(f, Reading(), obj('asset', 'dcp::MXF'), [KEY], {('asset', '_key_id'): old, ('asset', '_key'): NULL})
            if s is None:
                ctx.violation('key', f.file, f.line, f.q, 'a key is refused', 'key:set')
                return
            got, kid = s.heap.get(('asset', '_key'), ANY), s.heap.get(('asset', '_key_id'), ANY)
            what = 'with an identifier' if old != NULL else 'without one'
            if got != ANY:
                ctx.expect(got == KEY, 'key', f.file, f.line, f.q, 'a key that is given is not kept', 'key:set:key', 'key of an asset %s' % what)
            ctx.expect(kid == old if old != NULL else kid != NULL, 'key', f.file, f.line, f.q, 'the identifier of the key is changed by giving the key' if old != NULL else 'a key has no identifier', 'key:set:id', 'identifier of the key of an asset %s' % what)
    ctx.attempt('key', 'set_key', keys)

    def eyes():
        frame = obj('frame', 'dcp::StereoJ2KPictureFrame')
        heap = {('frame', '_buffer'): obj('both', 'buffer'), ('both', 'Left'): obj('left eye', 'buffer'), ('both', 'Right'): obj('right eye', 'buffer')}
        mono = find('dcp::StereoJ2KPictureFrame::Part::mono')
        for side in ('left', 'right'):
            f = find('dcp::StereoJ2KPictureFrame::' + side)
            v, s = made(f, Reading(), frame, [], heap)
            if v is None or v[0] != 'obj':
                raise shape.Unknown('part')
            v, t = made(mono, Reading(), v, [], s.heap)
            if v is None or v[0] != 'obj':
                raise shape.Unknown('eye')
            ctx.expect(v == obj(side + ' eye', 'buffer'), 'order', mono.file, mono.line, mono.q, 'the %s part of a frame is that of the other eye' % side, 'order:eye:read', side + ' part')
    ctx.attempt('order', 'eyes', eyes)

    fill, unfill = find('dcp::MXF::fill_writer_info'), find('dcp::MXF::read_writer_info')
    for n, standard in sorted(standards.items()):
        for key in (obj('key id', 'text'), NULL):
            def go():
                what = '%s, %s' % (n, 'encrypted' if key != NULL else 'plain')
                v, s = made(fill, Reading(), obj('asset', 'dcp::MXF'), [obj('info', 'info'), obj('the id', 'text')], {('asset', '_standard'): standard, ('asset', '_key_id'): key, ('asset', '_context_id'): obj('context id', 'text'), ('info', 'EncryptedEssence'): FALSE, ('info', 'UsesHMAC'): FALSE, ('asset', '_metadata'): obj('metadata', 'dcp::MXFMetadata'), ('metadata', 'product_version'): obj('product_version', 'text'), ('metadata', 'product_name'): obj('product_name', 'text'), ('metadata', 'company_name'): obj('company_name', 'text')})
                if s is None:
                    ctx.violation('describe', fill.file, fill.line, fill.q, 'a description cannot be filled in although nothing is wrong', 'describe:fill')
                    return
                got = dict((k[1], u) for k, u in s.heap.items() if k[0] == 'info')
                want = {'EncryptedEssence': const(key != NULL), 'UsesHMAC': TRUE, 'AssetUUID': obj('binary of the id', 'uuid')}
                want.update({'ProductVersion': obj('product_version', 'text'), 'ProductName': obj('product_name', 'text'), 'CompanyName': obj('company_name', 'text')})
                if key != NULL:
                    want.update({'CryptographicKeyID': obj('binary of key id', 'uuid'), 'ContextID': obj('binary of context id', 'uuid')})
                for k, u in sorted(want.items()):
                    g = got.get(k, NULL)
                    if g == ANY:
                        ctx.skip('describe', what + ' ' + k)
                        continue
                    g, u = [const(bool(z[1])) if z[0] == 'const' else z for z in (g, u)]
                    ctx.expect(g == u, 'describe', fill.file, fill.line, fill.q, '%s in a file (%s) is not that of the asset' % (k, what), 'describe:fill:' + k, '%s (%s)' % (k, what))
                label = got.get('LabelSetType', NULL)
                if label == NULL:
                    ctx.violation('describe', fill.file, fill.line, fill.q, 'a file of %s is written without labels' % n, 'describe:fill:label')
                    return
                if label[0] != 'enum':
                    raise shape.Unknown('label')
                ctx.expect(str(label[1]).endswith(n), 'describe', fill.file, fill.line, fill.q, 'a file of %s is written with the labels of another standard' % n, 'describe:fill:label', 'label (%s)' % what)
                v, t = made(unfill, Reading(), obj('other', 'dcp::MXF'), [obj('info', 'info')], {('info', 'EncryptedEssence'): const(key != NULL), ('info', 'CryptographicKeyID'): obj('K', 'uuid'), ('info', 'AssetUUID'): obj('A', 'uuid'), ('info', 'LabelSetType'): label, ('other', '_key_id'): NULL})
                if t is None:
                    ctx.violation('describe', unfill.file, unfill.line, unfill.q, 'what was written for %s is refused by the reader' % n, 'describe:read')
                    return
                for k, u in (('_standard', standard), ('_key_id', obj('text of K', 'text') if key != NULL else NULL)):
                    g = t.heap.get(('other', k), NULL)
                    if g == ANY:
                        ctx.skip('describe', what + ' ' + k)
                        continue
                    ctx.expect(g == u or g[0] == 'enum' and g[2] == u[-1], 'describe', unfill.file, unfill.line, unfill.q, '%s of a file (%s) is read as something else' % (k[1:].replace('_', ' '), what), 'describe:read:' + k, '%s (%s)' % (k, what))
                if v != ANY:
                    ctx.expect(v == obj('text of A', 'text'), 'describe', unfill.file, unfill.line, unfill.q, 'the identifier of a file is read as something else', 'describe:read:id', 'identifier (%s)' % what)
            ctx.attempt('describe', 'information %s' % n, go)

    # sound
    cls = 'dcp::SoundAssetWriter'
    finalize = find(cls + '::finalize')
    SB = 'state frame_buffer'
    for kind in ('float', 'int'):
        write = find(cls + '::write', lambda f: kind in f.type(f.params[0]['t']))

        def sound(channels, given, samples, blocks, sync, w=None):
            """blocks: numbers of samples in each write"""
            w = w or World()
            w.channels = channels
            s = fresh(cls, channels, channels * 3 * samples, _sync=const(sync), _frame_buffer_offset=const(0), _include_mca_subdescriptors=const(False))
            n = 0
            for b in blocks:
                for c in range(given):
                    s.heap[('block', c)] = ('ptr', 'channel %d' % c, n)
                    for i in range(n, n + b):
                        s.heap[('channel %d' % c, i)] = ('bits', 'sample %d %d' % (c, i), 0, FULL)
                v, s, e = step(w, write, s, [('ptr', 'block', 0), const(given), const(b)])
                if s is None:
                    return None, None, e
                n += b
            return step(w, finalize, s, []) + (n,)

        for channels, given, samples, blocks, sync in ((3, 3, 4, [4], False), (3, 2, 4, [3, 3], False), (2, 1, 2, [1, 1, 3], False), (2, 2, 3, [7], False), (14, 14, 2, [3], True), (16, 6, 2, [2, 1], True), (14, 14, 2, [2], False)):
            def go():
                r = sound(channels, given, samples, blocks, sync)
                what = '%s: %d channels of %d in blocks of %s%s' % (kind, given, channels, '+'.join(str(b) for b in blocks), ' with sync' if sync else '')
                if r[1] is None:
                    ctx.violation('order', write.file, write.line, write.q, 'sound is refused although nothing fails', 'order:refused:sound')
                    return
                v, s, e, n = r
                t = trace(s)
                frames = (n + samples - 1) // samples
                kinds = [a[0] for a in t]
                ctx.expect(kinds == ['open'] + ['frame'] * frames + ['finalize'], 'order', finalize.file, finalize.line, finalize.q, 'with %d samples given, of which %d make a frame, the file is asked to %s' % (n, samples, ', '.join(kinds)), 'order:sound', what)
                if kinds != ['open'] + ['frame'] * frames + ['finalize']:
                    return
                if t[0][2] != ANY:
                    ctx.expect(t[0][2] == const('the id'), 'order', write.file, write.line, write.q, 'the file is opened with a description which has not been filled in', 'order:info:sound', what + ': description')
                if t[0][1] != ANY:
                    ctx.expect(t[0][1] == obj('the file', 'path'), 'order', write.file, write.line, write.q, 'another file is opened', 'order:file:sound', what + ': file')
                d = s.heap.get(('asset', '_intrinsic_duration'), NULL)
                if d != ANY:
                    ctx.expect(d == const(frames), 'count', finalize.file, finalize.line, finalize.q, 'after %d frames were written the asset has %s' % (frames, d[1] if d[0] == 'const' else 'none'), 'count:sound', what + ': length')
                f = s.heap.get(('asset', '_file'), NULL)
                if f != ANY:
                    ctx.expect(f == obj('the file', 'path'), 'count', write.file, write.line, write.q, 'the asset does not have the file that was written', 'count:file:sound', what + ': file of the asset')
                if v[0] == 'const':
                    ctx.expect(bool(v[1]), 'count', finalize.file, finalize.line, finalize.q, 'whether anything was written is told wrong', 'count:told:sound', what + ': what is told')
                for k, a in enumerate(t[1:-1]):
                    ctx.expect(a[2] == (obj('crypto context', 'context'), obj('crypto hmac', 'hmac')), 'key', write.file, write.line, write.q, 'a frame of sound is written without the key or integrity check of the writer', 'key:sound', what + ': key of frame %d' % k)
                    if len(a[1]) != channels * 3 * samples:
                        ctx.violation('sample', write.file, write.line, write.q, 'a frame of sound does not have its size', 'sample:size')
                        continue
                    for j, b in enumerate(a[1]):
                        i, c, byte = k * samples + j // (3 * channels), j // 3 % channels, j % 3
                        if b == ANY:
                            ctx.skip('sample', what)
                            break
                        if i >= n or (c >= given and not (sync and c == 13)):
                            good = b == const(0) or b[0] == 'const' and b[1] == 0
                            wanted = 'silence'
                        else:
                            src = 'sync %d' % i if sync and c == 13 else 'sample %d %d' % (c, i)
                            good = b[0] == 'bits' and b[1] == src and b[2] == 8 * byte and b[3] & 255 == 255
                            wanted = 'byte %d of %s' % (byte, 'the sync signal' if sync and c == 13 else 'sample %d of channel %d' % (i, c))
                        if not good:
                            ctx.violation('sample', write.file, write.line, write.q, 'byte %d of frame %d of sound is not %s' % (j, k, wanted), 'sample:%s' % kind)
                            break
                    else:
                        ctx.expect(True, 'sample', write.file, write.line, write.q, '', 'sample', what + ': bytes of frame %d' % k)
            ctx.attempt('sample', '%s %d %d %d' % (kind, channels, given, samples), go)

        def refuse():
            r = sound(2, 2, 2, [2], False)
            if r[1] is None:
                raise shape.Unknown('first frame')
            w = World()
            w.channels = 2
            v, t, e = step(w, write, r[1], [('ptr', 'block', 0), const(2), const(2)])
            ctx.expect(t is None, 'refuse', write.file, write.line, write.q, 'sound is taken after the asset has been finalised', 'refuse:sound', 'sound (%s) after finalising' % kind)
        ctx.attempt('refuse', 'sound', refuse)

        for failing, blocks in (('OpenWrite', [2]), ('WriteFrame', [2]), ('WriteFrame', [1]), ('Finalize', [1])):
            def fail():
                r = sound(2, 2, 2, blocks, False, World((failing,)))
                ctx.expect(r[1] is None, 'fail', write.file, write.line, write.q, 'sound is written although %s failed' % failing, 'fail:sound:' + failing, 'sound (%s): %s' % (kind, failing))
            ctx.attempt('fail', 'sound ' + failing, fail)

        def scale():
            f = find('dcp::sound_asset_writer::convert', lambda f: kind in f.type(f.params[0]['t']))
            top = 2 ** 23
            full = ('interval', -2.0, 2.0) if kind == 'float' else ('interval', -2 ** 31, 2 ** 31 - 1)
            for a, lo, hi in ((full, -top, top - 1), (('interval', 0.5, 0.5) if kind == 'float' else ('interval', 2 ** 22, 2 ** 22), 2 ** 22, 2 ** 22), (('interval', -0.5, -0.5) if kind == 'float' else ('interval', -2 ** 22, -2 ** 22), -2 ** 22, -2 ** 22), (('interval', 0, 0), 0, 0)):
                e = Engine(prog, World())
                e.strict = True
                rs = e.call(f, None, [a], shape.State())
                ctx.functions(e.functions)
                if len(rs) != 1 or rs[0][0][0] != 'interval':
                    raise shape.Unknown('range of a sample')
                v = rs[0][0]
                ctx.expect(lo <= round(v[1]) and round(v[2]) <= hi, 'scale', f.file, f.line, f.q, 'samples between %s and %s are written as %d to %d, which is not within %d to %d' % (a[1], a[2], round(v[1]), round(v[2]), lo, hi), 'scale:' + kind, '%s samples from %s to %s' % (kind, a[1], a[2]))
                if a == full:
                    ctx.expect(round(v[1]) <= -top + 1 and round(v[2]) >= top - 1, 'scale', f.file, f.line, f.q, 'samples at full scale are written as %d and %d' % (round(v[1]), round(v[2])), 'scale:low:' + kind, '%s samples at full scale' % kind)
        ctx.attempt('scale', kind, scale)
