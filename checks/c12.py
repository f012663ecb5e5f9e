"""C12: a key message carries every key, with what it is for, to its reader"""

import re

import cursor
import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The making of a key message is interpreted abstractly with pointers into the block followed byte by byte, so that it is known which byte of the block holds which byte of what. '
    'The block that was made is then given to the interpretation of the reader: the key, its identifier and kind, the identifier of the composition and the times that it finds must be those that were put in, each whole. '
    'The block of the Interop standard, and messages whose keys or times are wrong, are read in the same way.')

D, K = 'dcp::DecryptedKDM', 'dcp::DecryptedKDMKey'
LENGTHS = {'id': 36, 'cpl': 36, 'type': 4, 'key': 16, 'time': 25, 'structure': 16}


def text(*parts):
    return obj(('T',) + parts, 'text')


def whole(v, width=None):
    """The thing of which v is the text or bytes, from the first to the last, or None"""
    if v[0] in ('obj', 'const') and isinstance(v[1], str):
        return v[1]
    if v[0] != 'obj' or not isinstance(v[1], tuple):
        return None
    bs = v[1][1:] if v[1][0] == 'T' else (v[1][2] if v[1][0] == 'fmt' else ())
    if not bs or any(b[0] != 'byte' for b in bs):
        return None
    src = bs[0][1]
    if any(b[1] != src or b[2] != i for i, b in enumerate(bs)):
        return None
    if isinstance(src, tuple) and src[0] == 'hex':
        if v[1][0] != 'fmt' or v[1][1] != src[2] or len(bs) != 16:
            return None
        return src[1]
    if v[1][0] != 'T' or isinstance(src, tuple):
        return None
    n = length(src)
    return src if n is None or n == len(bs) else None


def length(name):
    if not isinstance(name, str):
        return None
    if name.endswith(' ms'):
        return 29
    if name.endswith(' short'):
        return 19
    return LENGTHS.get(name.split(' ')[0])


class World:
    def __init__(self, fields=None, attrs=None, blocks=None):
        self.fields = fields or {}
        self.attrs = attrs or {}
        # what decrypting gives: (bytes, length) by encrypted key
        self.blocks = blocks or {}
        self.encrypted = []
        self.made = []

    def field(self, e, st, o, name):
        if o is None:
            return ('ptr', 'structure of ' + name, 0) if name and 'id' in name else None
        return self.fields.get((o[1], name))

    def call(self, e, st, x, o, args):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        cls = x.get('cls') or ''
        if x.get('e') == 'ctor':
            if cls == 'std::basic_string':
                # the allocator is of no interest
                args = [a for a, y in zip(args, x['a']) if shape.strip(y).get('cls') != 'std::allocator' and y.get('e') != 'defarg']
                if not args:
                    return text()
                if args[0][0] == 'ptr':
                    if len(args) > 1 and args[1][0] == 'const' and isinstance(args[1][1], int):
                        return text(*[e.load(('ptr', args[0][1], args[0][2] + i), st) for i in range(args[1][1])])
                    if len(args) > 1 and args[1][0] == 'ptr' and args[1][1] == args[0][1]:
                        return text(*[e.load(('ptr', args[0][1], i), st) for i in range(args[0][2], args[1][2])])
                    return st.heap.get((args[0][1], 'text'), ANY)
                return args[0]
            if cls == 'std::vector' and re.match(r'std::vector<(unsigned char|char|uint8_t)', x.get('fn') or '') and args and args[0][0] in ('const', 'any'):
                return e.buffer('vector', args[0][1] if args[0][0] == 'const' else None)
            if cls == 'dcp::Key' and args:
                return self.key(e, st, args)
            if cls == K and len(args) >= 5:
                return obj(('K',) + tuple(args), K)
            if cls == 'dcp::EncryptedKDM' and len(args) > 3:
                self.made.append((x, args))
                return obj('encrypted', 'dcp::EncryptedKDM')
            if cls == 'dcp::LocalTime' and len(args) == 1:
                return args[0]
            return None
        if o is not None and o[0] == 'obj':
            if (o[1], m) in self.attrs:
                v = self.attrs[(o[1], m)]
                return v(st, args) if callable(v) else v
            if isinstance(o[1], str) and o[1].startswith('time ') and m == 'as_string':
                return obj(o[1] + (' ms' if args[:1] == [TRUE] else '') + (' short' if args[1:2] == [FALSE] else ''), 'text')
            if isinstance(o[1], str) and o[1].startswith('key ') and m == 'value':
                return o
            if isinstance(o[1], tuple) and o[1][0] == 'K' and m in ('type', 'id', 'key', 'cpl_id', 'standard'):
                return o[1][1 + ('type', 'id', 'key', 'cpl_id', 'standard').index(m)]
            if isinstance(o[1], tuple) and o[1][0] == 'T' and m in ('push_back', 'append', 'operator+=') and len(args) == 1:
                v = text(*(o[1][1:] + (args[0],))) if args[0][0] in ('byte', 'const') else ANY
                e.store(x['o'], v, st)
                return v
        if m in ('length', 'size') and o is not None and q.startswith('std::'):
            if o[0] == 'obj' and isinstance(o[1], str):
                n = length(o[1])
                return const(n) if n is not None else ANY
            if o[0] == 'obj' and o[1][0] == 'T':
                return const(len(o[1]) - 1)
        if m in ('c_str', 'data') and o is not None and q.startswith('std::'):
            return o
        if m == 'make_pair' and len(args) == 2:
            return ('pair', args[0], args[1])
        if q.endswith('base64_decode') and len(args) == 3:
            if args[1][0] == 'ptr':
                st.heap[(args[1][1], 'cipher')] = args[0]
                if args[0][0] == 'obj':
                    e.copy(args[1], args[0], args[2], st, x)
            return ANY
        if q in ('sscanf', 'std::sscanf') and len(args) > 2:
            for i, p in enumerate(args[2:]):
                if p[0] != 'ptr':
                    raise shape.Unknown('place of a part of an identifier')
                e.put(p, ('byte', ('hex', args[0][1], args[1][1]), i) if args[0][0] == 'obj' and args[1][0] == 'const' else ANY, st, x)
            return ANY
        if q in ('snprintf', 'std::snprintf') and len(args) > 3 and args[0][0] == 'ptr':
            st.heap[(args[0][1], 'text')] = obj(('fmt', args[2][1], tuple(args[3:])), 'text') if args[2][0] == 'const' else ANY
            return ANY
        if q in ('memcmp', 'std::memcmp') and len(args) == 3 and args[2][0] == 'const' and args[0][0] == 'ptr' and args[1][0] == 'ptr':
            bs = [[e.load(('ptr', a[1], a[2] + i), st) for i in range(args[2][1])] for a in args[:2]]
            return const(0) if bs[0] == bs[1] else const(1)
        if q == 'RSA_public_encrypt':
            self.encrypted.append((args[0], dict((k[1], v) for k, v in st.heap.items() if args[1][0] == 'ptr' and k[0] == args[1][1]) if args[1][0] == 'ptr' and args[1][2] == 0 else None))
            return const(256)
        if q == 'RSA_private_decrypt':
            c = st.heap.get((args[1][1], 'cipher'), ANY) if args[1][0] == 'ptr' else ANY
            if c[0] != 'const' or c[1] not in self.blocks or args[2][0] != 'ptr':
                raise shape.Unknown('what is decrypted')
            block, n = self.blocks[c[1]]
            for i, b in block.items():
                if isinstance(i, int):
                    st.heap[(args[2][1], args[2][2] + i)] = b
            return const(n)
        if q in ('dcp::day_less_than_or_equal', 'dcp::day_greater_than_or_equal', 'dcp::day_less_than', 'dcp::day_greater_than') and len(args) == 2 and all(a[0] == 'const' for a in args):
            r = {'<': args[0][1] < args[1][1], '>': args[0][1] > args[1][1], '=': args[0][1] == args[1][1]}
            return const(r['<' if 'less' in q else '>'] or ('or_equal' in q and r['=']))
        if q == 'RSA_size':
            return const(256)
        if q in ('BIO_new_mem_buf', 'PEM_read_bio_RSAPrivateKey', 'dcp::Certificate::public_key'):
            return obj(q, 'handle')
        if q.endswith('base64encode') and len(args) > 2 and args[2][0] == 'ptr':
            for i in range(130):
                st.heap[(args[2][1], args[2][2] + i)] = ('byte', 'base64 %d' % len(self.encrypted), i)
            st.heap[(args[2][1], args[2][2] + 130)] = const(0)
            return ANY
        if q in ('strlen', 'std::strlen') and args[0][0] == 'ptr':
            return const(130) if st.heap.get((args[0][1], 130)) == const(0) else ANY
        if op == '[]' and o is not None and o[0] == 'ptr' and args[0][0] == 'const':
            return e.load(('ptr', o[1], o[2] + args[0][1]), st)
        return None

    def key(self, e, st, args):
        if args[0][0] == 'ptr':
            n = args[1][1] if len(args) > 1 and args[1][0] == 'const' else 16
            return text(*[e.load(('ptr', args[0][1], args[0][2] + i), st) for i in range(n)])
        return args[0]


def check(ctx, prog):
    ctx.rule('block', 'the reader finds in a block what was put into it: key, its identifier and kind, identifier of the composition, times', 12)
    ctx.rule('size', 'the block has room for what is put into it, and the length that the reader expects', 2)
    ctx.rule('message', 'the message has every key, in order, with its identifier and kind, and the texts and times that it was made with', 8)
    ctx.rule('refuse', 'a message outside the validity of any certificate of its signer is not made; one whose keys have different times, or of unknown structure, is not read', 6)
    ctx.rule('make', 'a message for a composition has a key for each asset that can be encrypted, and no other', 4)

    def find(q, pred=None):
        fs = [f for f in prog.get(q) if f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    encrypt = find(D + '::encrypt')
    read = find(D + '::(ctor)', lambda f: f.params and 'EncryptedKDM' in f.type(f.params[0]['t']))

    def run(f, w, this, args=(), heap=None):
        e = cursor.Cursor(prog, w)
        rs = e.call(f, this, list(args), shape.State({}, dict(heap or {}), frozenset()))
        ctx.functions(e.functions)
        if not rs:
            if e.branched:
                raise shape.Unknown('it is not known whether it returns')
            return None, e
        v, s = rs[0]
        for b, t in rs[1:]:
            v, s = shape.join(v, b), shape.merge(s, t)
        return (v, s.heap), e

    def key_attrs(n):
        return {(n, 'type'): obj('type of ' + n, 'text'), (n, 'id'): obj('id of ' + n, 'text'), (n, 'key'): obj('key of ' + n, 'dcp::Key'), (n, 'cpl_id'): obj('cpl of ' + n, 'text')}

    def sender(dates=None, certs=None):
        a = {}
        for n in ('K1', 'K2'):
            a.update(key_attrs(n))
        f = {('kdm', '_keys'): seq(obj('K1', K), obj('K2', K))}
        for n in ('not_valid_before', 'not_valid_after'):
            f[('kdm', '_' + n)] = const(dates[n]) if dates else obj('time ' + n, 'dcp::LocalTime')
        for n in ('annotation_text', 'content_title_text', 'issue_date'):
            f[('kdm', '_' + n)] = obj('text ' + n, 'text')
        chain = []
        for i, (b, e) in enumerate(certs or ()):
            c = 'C%d' % i
            chain.append(obj(c, 'dcp::Certificate'))
            a[(c, 'not_before')], a[(c, 'not_after')] = const(b), const(e)
        a.update({('signer', 'leaf_to_root'): seq(*chain), ('signer', 'root_to_leaf'): seq(*chain[::-1]), ('signer', 'leaf'): obj('leaf', 'dcp::Certificate'), ('leaf', 'thumbprint'): obj('thumbprint', 'text'),
                  ('signer', 'unordered'): seq(*chain)})
        return World(f, a)

    def arguments():
        return [obj(p['n'], 'argument') if p['n'] != 'signer' else obj('signer', 'dcp::CertificateChain') for p in encrypt.params]

    blocks = []

    def making():
        w = sender()
        r, e = run(encrypt, w, obj('kdm', D), arguments())
        if r is None:
            ctx.violation('message', encrypt.file, encrypt.line, encrypt.q, 'a key message is never made', 'message:never')
            return
        if e.beyond:
            f, x, p = e.beyond[0]
            ctx.violation('size', f.file, (x or {}).get('l', f.line), f.q, 'byte %d is put into a block of %d' % (p[2], e.sizes[p[1]]), 'size:beyond')
        else:
            ctx.ok('size', 'nothing is put beyond the block')
        if len(w.encrypted) < 2:
            if e.branched:
                raise shape.Unknown('keys that are encrypted')
            ctx.violation('message', encrypt.file, encrypt.line, encrypt.q, 'of two keys %d are encrypted' % len(w.encrypted), 'message:count')
            return
        for n, block in w.encrypted[:2]:
            if n[0] != 'const' or block is None:
                raise shape.Unknown('block that is encrypted')
            blocks.append((block, n[1]))
            missing = [i for i in range(n[1]) if i not in block]
            ctx.expect(not missing, 'size', encrypt.file, encrypt.line, encrypt.q, 'byte %s of the block is not set' % (missing or [0])[0], 'size:unset', 'every byte of the block is set')
        x, args = w.made[-1] if w.made else (None, None)
        if args is None:
            raise shape.Unknown('message that is made')
        g = prog.functions.get(x.get('fn'))
        names = [p['n'] for p in g.params] if g is not None else [p['n'] for p in find('dcp::EncryptedKDM::(ctor)', lambda f: len(f.params) == len(args)).params]
        got = dict(zip(names, args))
        for n, want in (('not_valid_before', 'time not_valid_before'), ('not_valid_after', 'time not_valid_after'), ('content_title_text', 'text content_title_text'), ('cpl_id', 'cpl of K1'), ('annotation_text', 'text annotation_text'),
                        ('signer', 'signer'), ('recipient', 'recipient'), ('trusted_devices', 'trusted_devices'), ('formulation', 'formulation'),
                        ('disable_forensic_marking_picture', 'disable_forensic_marking_picture'), ('disable_forensic_marking_audio', 'disable_forensic_marking_audio')):
            v = got.get(n)
            if v is None or v == ANY:
                ctx.skip('message', n)
                continue
            if v[0] == 'pair':
                v = v[1]
            ctx.expect(v[1] == want, 'message', encrypt.file, x.get('l', encrypt.line), encrypt.q, 'the message is made with %s for %s' % (v[1], n.replace('_', ' ')), 'message:' + n, n)
        ids = got.get('key_ids', ANY)
        if ids[0] == 'seq':
            want = [(('obj', 'type of ' + k, 'text'), ('obj', 'id of ' + k, 'text')) for k in ('K1', 'K2')]
            have = [tuple(i[1:]) if i[0] == 'pair' else None for i in ids[1:]]
            ctx.expect(have == want, 'message', encrypt.file, x.get('l', encrypt.line), encrypt.q, 'the list of key identifiers of a message does not have the kind and identifier of each key', 'message:key_ids', 'identifiers of keys')
        else:
            ctx.skip('message', 'identifiers of keys')
        keys = got.get('keys', ANY)
        if keys[0] == 'seq':
            ctx.expect(len(keys) == 3, 'message', encrypt.file, x.get('l', encrypt.line), encrypt.q, 'a message with two keys is made with %d' % (len(keys) - 1), 'message:keys', 'number of keys')
            for i, k in enumerate(keys[1:]):
                if k[0] != 'obj' or k[1][:1] != ('T',):
                    ctx.skip('message', 'text of key %d' % i)
                    continue
                bs = [b for b in k[1][1:] if b[0] != 'const' or b[1] not in ('\n', 10)]
                ctx.expect(bs == [('byte', 'base64 %d' % (i + 1), j) for j in range(130)], 'message', encrypt.file, encrypt.line, encrypt.q, 'the encrypted key is not in the message as it is', 'message:text', 'text of key %d' % i)
        else:
            ctx.skip('message', 'number of keys')
    ctx.attempt('message', 'making of a message', making)

    # reading
    def reader(bs):
        a = {('e', 'keys'): seq(*[const('c%d' % i) for i in range(len(bs))])}
        for n in ('annotation_text', 'content_title_text', 'issue_date'):
            a[('e', n)] = obj('text ' + n, 'text')
        return World({('kdm', '_keys'): seq()}, a, dict(('c%d' % i, b) for i, b in enumerate(bs)))

    def reading(bs):
        return run(read, reader(bs), obj('kdm', D), [obj('e', 'dcp::EncryptedKDM'), obj('private key', 'text')])

    def expect_read(bs, names, what, typed=True, standard='SMPTE'):
        def go():
            r, e = reading(bs)
            if r is None:
                ctx.violation('block', read.file, read.line, read.q, '%s: a message is made that cannot be read' % what, 'block:never:' + what)
                return
            keys = r[1].get(('kdm', '_keys'), ANY)
            if keys[0] != 'seq':
                raise shape.Unknown('keys that are read')
            if len(keys) - 1 != len(bs):
                ctx.violation('block', read.file, read.line, read.q, '%s: of %d keys %d are read' % (what, len(bs), len(keys) - 1), 'block:count:' + what)
                return
            for k, n in zip(keys[1:], names):
                if k[0] != 'obj' or not isinstance(k[1], tuple):
                    raise shape.Unknown('key that is read')
                parts = dict(zip(('type', 'id', 'key', 'cpl', 'standard'), k[1][1:]))
                for p in ('type', 'id', 'key', 'cpl'):
                    v = parts[p]
                    if p == 'type' and not typed:
                        ctx.expect(v == NULL or v == ANY, 'block', read.file, read.line, read.q, '%s: a key is given a kind though there is none' % what, 'block:type:' + what, '%s: no kind' % what)
                        continue
                    if v == ANY or (v[0] == 'obj' and isinstance(v[1], tuple) and any(b == ANY for b in (v[1][2] if v[1][0] == 'fmt' else v[1][1:]))):
                        ctx.skip('block', '%s: %s' % (what, p))
                        continue
                    ctx.expect(whole(v) == '%s of %s' % (p, n), 'block', read.file, read.line, read.q, '%s: what is read as the %s of a key is not what was put in' % (what, {'cpl': 'composition', 'id': 'identifier', 'type': 'kind'}.get(p, p)), 'block:%s:%s' % (p, what), '%s: %s of %s' % (what, p, n))
                v = parts['standard']
                if v[0] == 'enum':
                    ctx.expect(v[1].endswith('::' + standard), 'block', read.file, read.line, read.q, '%s: the standard of a key is %s' % (what, v[1]), 'block:standard:' + what, '%s: standard' % what)
            for n in ('not_valid_before', 'not_valid_after'):
                v = r[1].get(('kdm', '_' + n), ANY)
                if v == ANY:
                    ctx.skip('block', '%s: %s' % (what, n))
                    continue
                ctx.expect(whole(v) == 'time ' + n, 'block', read.file, read.line, read.q, '%s: what is read as the time %s is not what was put in' % (what, n), 'block:%s:%s' % (n, what), '%s: %s' % (what, n))
            for n in ('annotation_text', 'content_title_text', 'issue_date'):
                v = r[1].get(('kdm', '_' + n))
                if v is not None and v[0] == 'obj':
                    ctx.expect(v[1] == 'text ' + n, 'message', read.file, read.line, read.q, '%s is read as %s' % (v[1], n), 'message:read:' + n, '%s: %s' % (what, n))
                elif v is None and not e.branched:
                    ctx.violation('message', read.file, read.line, read.q, '%s of a message is not read' % n.replace('_', ' '), 'message:read:' + n)
        ctx.attempt('block', what, go)

    def standard_block(n, kind):
        """As the standards have it"""
        fmt = next((v[1][2] for b, _ in blocks for v in b.values() if v[0] == 'byte' and isinstance(v[1], tuple) and v[1][0] == 'hex'), None)
        if fmt is None:
            raise shape.Unknown('format of identifiers')
        out = [('byte', 'structure of smpte_structure_id', i) for i in range(16)] + [('byte', 'thumbprint', i) for i in range(20)]
        out += [('byte', ('hex', 'cpl of ' + n, fmt), i) for i in range(16)]
        if kind == 'SMPTE':
            out += [('byte', 'type of ' + n, i) for i in range(4)]
        out += [('byte', ('hex', 'id of ' + n, fmt), i) for i in range(16)]
        for t in ('time not_valid_before', 'time not_valid_after'):
            out += [('byte', t, i) for i in range(25)]
        out += [('byte', 'key of ' + n, i) for i in range(16)]
        return dict(enumerate(out)), len(out)

    def layout():
        if not blocks:
            raise shape.Unknown('no block')
        for n, (b, size) in zip(('K1', 'K2'), blocks):
            want, k = standard_block(n, 'SMPTE')
            ctx.expect(size == k, 'size', encrypt.file, encrypt.line, encrypt.q, 'the block is %d bytes long, not %d' % (size, k), 'size:length', 'length of the block for %s' % n)
            # what is between the structure identifier and the end
            for i in range(16, k):
                v = b.get(i)
                if v is None or v == ANY or v[0] != 'byte':
                    ctx.skip('block', 'byte %d' % i)
                elif v != want[i]:
                    ctx.violation('block', encrypt.file, encrypt.line, encrypt.q, 'byte %d of the block holds byte %d of %s, where the standard has byte %d of %s' % (i, v[2], v[1], want[i][2], want[i][1] if isinstance(want[i][1], str) else want[i][1][1]), 'block:layout')
                    return
            ctx.ok('block', 'layout of the block for %s' % n)
    ctx.attempt('block', 'layout of the block', layout)
    if len(blocks) == 2:
        expect_read(blocks[:1], ('K1',), 'one key that was made here')
        expect_read(blocks, ('K1', 'K2'), 'two keys that were made here')

    def interop():
        b = standard_block('K1', 'INTEROP')
        expect_read([b], ('K1',), 'a key of an Interop message', False, 'INTEROP')
    if blocks:
        ctx.attempt('block', 'Interop block', interop)

    # refusals
    def refused(what, bs):
        def go():
            r, e = reading(bs)
            ctx.expect(r is None, 'refuse', read.file, read.line, read.q, 'a message %s is read' % what, 'refuse:' + what, what)
        ctx.attempt('refuse', what, go)

    if len(blocks) == 2:
        for t in ('before', 'after'):
            b = dict((i, ('byte', 'time other', v[2]) if v[0] == 'byte' and v[1] == 'time not_valid_' + t else v) for i, v in blocks[1][0].items())
            refused('whose second key has another time not_valid_%s' % t, [blocks[0], (b, blocks[1][1])])
        b = dict((i, v if not isinstance(i, int) or i != 3 else ('byte', 'something else', 3)) for i, v in blocks[0][0].items())
        refused('of unknown structure', [(b, blocks[0][1])])
        for n in (0, 16, 133, 135, 137, 139, 200):
            refused('with a block of %d bytes' % n, [(blocks[0][0], n)])
        refused('that cannot be decrypted', [({}, -1)])

    for what, dates, certs, want in (
            ('within the validity of all certificates', (20, 50), ((10, 100), (5, 200)), True),
            ('from before the first certificate', (5, 50), ((10, 100), (1, 200)), False),
            ('until after the first certificate', (20, 150), ((10, 100), (5, 200)), False),
            ('from before the second certificate', (20, 50), ((10, 100), (30, 200)), False),
            ('until after the second certificate', (20, 50), ((10, 100), (5, 40)), False)):
        def go():
            w = sender({'not_valid_before': dates[0], 'not_valid_after': dates[1]}, certs)
            r, e = run(encrypt, w, obj('kdm', D), arguments())
            if want is False and r is not None and e.branched and not w.made:
                raise shape.Unknown('not known whether it is made')
            ctx.expect((r is not None) == want, 'refuse', encrypt.file, encrypt.line, encrypt.q, 'a message valid %s is %s' % (what, 'refused' if want else 'made'), 'refuse:dates:' + what, what)
        ctx.attempt('refuse', what, go)

    # messages for compositions
    makers = [f for f in prog.get(D + '::(ctor)') if f.body is not None and f.params and 'CPL' in f.type(f.params[0]['t'])]
    for f in makers:
        for can, say in (((True, False, True), 'two of three assets'), ((False, True, False), 'one of three assets'), ((False, False, False), 'no asset')):
            def go():
                a = {('cpl', 'id'): obj('cpl id', 'text'), ('cpl', 'reel_file_assets'): seq(*[obj('R%d' % i, 'dcp::ReelFileAsset') for i in range(3)])}
                for i, c in enumerate(can):
                    a[('R%d' % i, 'encryptable')] = const(c)
                    a[('R%d' % i, 'key_type')] = obj('type of R%d' % i, 'text')
                    a[('R%d' % i, 'key_id')] = obj('id of R%d' % i, 'text')
                args = [obj('cpl', 'dcp::CPL')] + [obj(p['n'], 'argument') for p in f.params[1:]]
                r, e = run(f, World({('kdm', '_keys'): seq()}, a), obj('kdm', D), args)
                want = [('type of R%d' % i, 'id of R%d' % i, 'key', 'cpl id') for i, c in enumerate(can) if c]
                if r is None or not want:
                    ctx.expect((r is None) == (not want), 'make', f.file, f.line, f.q, 'a message for a composition of which %s can be encrypted %s' % (say, 'cannot be made' if r is None else 'can be made'), 'make:refuse:' + say, say)
                    return
                ks = r[1].get(('kdm', '_keys'), ANY)
                if ks[0] != 'seq' or any(k[0] != 'obj' or not isinstance(k[1], tuple) for k in ks[1:]):
                    raise shape.Unknown('keys of the message')
                got = [tuple(v[1] if v[0] == 'obj' else None for v in k[1][1:5]) for k in ks[1:]]
                ctx.expect(got == want, 'make', f.file, f.line, f.q, 'a message for a composition of which %s can be encrypted has the keys %s' % (say, got), 'make:' + say, say)
                for n in ('not_valid_before', 'not_valid_after', 'annotation_text', 'content_title_text', 'issue_date'):
                    v = r[1].get(('kdm', '_' + n), ANY)
                    if v[0] == 'obj':
                        ctx.expect(v[1] == n, 'make', f.file, f.line, f.q, '%s of a message is made from %s' % (n, v[1]), 'make:' + n, n)
            ctx.attempt('make', say, go)
