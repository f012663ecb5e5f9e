"""C13: a written package lists every file it holds, as it is on the disk"""

import shape
from ir import AnalysisBroken, walk
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The writing of a package is interpreted abstractly for packages of two compositions with resolved and unresolved assets, Interop texts with fonts and images, for both standards and with or without '
    'a packing list and asset map from before. What each list holds is followed through clearing and adding, and taken down where the list is written: '
    'every composition (as written), asset, font and image must be in it then, and the digests must be those of the files as they are after the last writing.')

STANDARD = 'dcp::Standard'


def known(v):
    return v[0] in ('obj', 'const', 'str')


def text(v):
    return str(v[1]) if v[0] in ('obj', 'const') else None


class World:
    """attrs: (object, method) -> value or function(state, args)"""

    def __init__(self, fields, attrs):
        self.fields = fields
        self.attrs = attrs

    def field(self, e, st, o, name):
        return self.fields.get((o[1], name)) if o is not None else None

    def call(self, e, st, x, o, args):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        cls = x.get('cls') or ''
        if x.get('e') == 'ctor':
            if cls == 'dcp::AssetMap':
                return self.new(st, 'M', 'dcp::AssetMap')
            if cls == 'dcp::PKL':
                return self.new(st, 'P', 'dcp::PKL')
            return None
        if m in ('make_shared', 'make_unique') and 'dcp::PKL' in (x.get('fn') or '').split('(')[0]:
            return self.new(st, 'P', 'dcp::PKL')
        if m in ('make_shared', 'make_unique') and 'dcp::AssetMap' in (x.get('fn') or '').split('(')[0]:
            return self.new(st, 'M', 'dcp::AssetMap')
        if o is not None and o[0] == 'obj' and (o[1], m) in self.attrs:
            v = self.attrs[(o[1], m)]
            return v(st, args) if callable(v) else v
        if ('', q) in self.attrs:
            v = self.attrs[('', q)]
            return v(st, args) if callable(v) else v
        # paths and texts
        every = ([o] if o is not None else []) + list(args)
        if op in ('/', '+') and len(every) == 2:
            return obj('%s%s%s' % (every[0][1], op, every[1][1]), 'text') if all(known(a) for a in every) else ANY
        if op in ('/=', '+=') and len(every) == 2:
            v = obj('%s%s%s' % (every[0][1], op[0], every[1][1]), 'text') if all(known(a) for a in every) else ANY
            e.store(x['o'] if isinstance(x.get('o'), dict) else x['a'][0], v, st)
            return v
        if q in ('dcp::filesystem::fix_long_path', 'dcp::filesystem::absolute', 'dcp::filesystem::canonical', 'boost::filesystem::absolute', 'boost::filesystem::canonical'):
            return args[0]
        if m in ('string', 'c_str', 'native', 'filename', 'generic_string') and o is not None and o[0] in ('obj', 'const') and q.startswith(('std::', 'boost::')):
            return o if m != 'filename' else obj('name of ' + str(o[1]), 'text')
        if q == 'dcp::NameFormat::get':
            return obj('name(%s)' % args[-1][1], 'text') if known(args[-1]) else ANY
        if q == 'std::accumulate':
            return args[2]
        return None

    def new(self, st, name, cls):
        if (name, 'there') in st.heap:
            raise shape.Unknown('two lists')
        st.heap[(name, 'there')] = TRUE
        return obj(name, cls)


def check(ctx, prog):
    ctx.rule('list', 'the packing list holds every composition and asset, and the asset map also the packing list, when they are written', 30)
    ctx.rule('place', 'the lists are written where readers look for them, and the packing list where the asset map says', 6)
    ctx.rule('entry', 'an entry has the identifier, digest, size and path of its file, and there is one for each font and image; files outside the package have none', 8)
    ctx.rule('fresh', 'the digest of an asset is forgotten when its file is written', 6)

    def find(q, pred=None):
        fs = [f for f in prog.get(q) if f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    def run(f, model, this, args=(), heap=None):
        e = shape.Shape(prog, model)
        rs = e.call(f, this, list(args), shape.State({}, dict(heap or {}), frozenset()))
        ctx.functions(e.functions)
        if e.wrong:
            g, x, why = e.wrong[0]
            ctx.violation('list', g.file, x.get('l'), g.q, '%s when a package is written' % why, 'list:wrong:%s' % g.q)
        if not rs:
            if e.branched:
                raise shape.Unknown('it is not known whether it returns')
            return None
        v, s = rs[0]
        for w, t in rs[1:]:
            v, s = shape.join(v, w), shape.merge(s, t)
        return v, s.heap, not e.branched

    write = find('dcp::DCP::write_xml')
    enums = dict((c[0], c[1]) for c in prog.enum(STANDARD)['c'])
    names = prog.enum('dcp::Filenames')
    names = dict((c[0], c[1]) for c in names['c']) if names else {}

    def enum(q, table, n):
        return ('enum', q + '::' + n, table[n]) if n in table else ANY

    A, B = obj('A', 'dcp::CPL'), obj('B', 'dcp::CPL')
    ASSETS = {'S': 'dcp::SoundAsset', 'T': 'dcp::InteropTextAsset', 'V': 'dcp::MonoJ2KPictureAsset', 'F': 'dcp::FontAsset'}
    WORDS = {'A': 'the first composition', 'B': 'the second composition', 'S': 'an asset', 'T': 'an Interop text', 'V': 'an asset of the second composition', 'F': 'a font of an Interop text', 'P': 'the packing list'}

    def scene(standard, pkl, amap, filenames):
        std = enum(STANDARD, enums, standard)
        fields = {
            ('dcp', '_cpls'): seq(A, B),
            ('dcp', '_pkls'): seq(obj('P', 'dcp::PKL')) if pkl else seq(),
            ('dcp', '_asset_map'): obj('M', 'dcp::AssetMap') if amap else NULL,
            ('dcp', '_directory'): obj('dir', 'text'),
        }
        attrs = {}

        def reel_asset(n, resolved=True):
            attrs[('R' + n, 'asset_ref')] = obj('R' + n + '.ref', 'dcp::Ref')
            attrs[('R' + n + '.ref', 'resolved')] = const(resolved)
            attrs[('R' + n + '.ref', 'id')] = attrs[('R' + n, 'id')] = const('id of ' + n)
            for k in ((('R' + n + '.ref', 'asset'), ('R' + n + '.ref', 'get'), ('R' + n, 'asset'), ('R' + n + '.ref', 'operator->'))):
                def asset(st, args):
                    if not resolved:
                        raise shape.Never()
                    return obj(n, ASSETS.get(n, 'dcp::Asset'))
                attrs[k] = asset
            return obj('R' + n, 'dcp::ReelFileAsset')

        attrs[('A', 'reel_file_assets')] = seq(reel_asset('S'), reel_asset('U', False), reel_asset('T'))
        attrs[('B', 'reel_file_assets')] = seq(reel_asset('S'), reel_asset('V'))
        attrs[('T', 'font_assets')] = seq(obj('F', 'dcp::FontAsset'))

        def mark(st, where, what, v):
            st.heap[(where, what)] = v

        for n in ('A', 'B'):
            attrs[(n, 'standard')] = std
            attrs[(n, 'file')] = obj('old path of ' + n, 'text')

            def written(st, args, n=n):
                mark(st, n, 'written', TRUE)
                # what was listed before is of the file as it was
                for w in ('P',):
                    if st.heap.get((w, 'has ' + n), FALSE) != FALSE:
                        mark(st, w, 'has ' + n, const('old'))
                    if st.heap.get((w, 'listed ' + n), FALSE) == TRUE:
                        mark(st, w, 'listed ' + n, const('old'))
                return ANY
            attrs[(n, 'write_xml')] = written
        for n in list(ASSETS) + ['A', 'B']:
            attrs[(n, 'id')] = const('id of ' + n)

            def to_pkl(st, args, n=n):
                if args[0] == obj('P', 'dcp::PKL'):
                    fresh = n not in ('A', 'B') or st.heap.get((n, 'written')) == TRUE
                    mark(st, 'P', 'has ' + n, (TRUE if st.heap.get(('P', 'has ' + n), FALSE) == FALSE else const('twice')) if fresh else const('old'))
                elif args[0] == ANY:
                    raise shape.Unknown('packing list not known')
                return ANY

            def to_map(st, args, n=n):
                if args[0] == obj('M', 'dcp::AssetMap'):
                    mark(st, 'M', 'has ' + n, TRUE if st.heap.get(('M', 'has ' + n), FALSE) == FALSE else const('twice'))
                elif args[0] == ANY:
                    raise shape.Unknown('asset map not known')
                return ANY
            attrs[(n, 'add_to_pkl')] = to_pkl
            attrs[(n, 'add_to_assetmap')] = to_map
        for w, what in (('P', 'dcp::PKL'), ('M', 'dcp::AssetMap')):
            attrs[(w, 'id')] = const('id of ' + w)
            attrs[(w, 'file')] = obj('old path of ' + w, 'text')
            attrs[(w, 'standard')] = std

            def clear(st, args, w=w):
                for n in WORDS:
                    mark(st, w, 'has ' + n, FALSE)
                mark(st, w, 'has old', FALSE)
                return ANY

            def out(st, args, w=w):
                for n in list(WORDS) + ['old']:
                    mark(st, w, 'listed ' + n, st.heap.get((w, 'has ' + n), FALSE))
                mark(st, w, 'path', args[0] if args else ANY)
                return ANY
            attrs[(w, 'clear_assets')] = clear
            attrs[(w, 'write_xml')] = out

        def add(st, args):
            if args and args[0] == const('id of P'):
                mark(st, 'M', 'has P', TRUE)
                mark(st, 'M', 'place', args[1])
                mark(st, 'M', 'flag', args[2] if len(args) > 2 else ANY)
            elif args and args[0] == ANY:
                raise shape.Unknown('entry not known')
            return ANY
        attrs[('M', 'add_asset')] = add

        def to_file(st, args):
            mark(st, 'volindex', 'path', args[0] if args else ANY)
            return ANY
        for q in ('write_to_file_formatted', 'write_to_file'):
            attrs[('', 'xmlpp::Document::' + q)] = to_file
        heap = {}
        for w, there in (('P', pkl), ('M', amap)):
            if there:
                heap[(w, 'there')] = TRUE
                # a list from before has entries that can be out of date
                for n in list(WORDS) + ['old']:
                    heap[(w, 'has ' + n)] = const('old')
        args = []
        for p in write.params:
            t = write.type(p['t'])
            args.append(enum('dcp::Filenames', names, filenames) if 'Filenames' in t else ANY)
        return World(fields, attrs), args, heap

    for standard in ('SMPTE', 'INTEROP'):
        for pkl, amap in ((False, False), (True, True), (True, False)):
            for fn in (sorted(names) or ['']):
                where = 'package of standard %s%s%s%s' % (standard, ', read with a packing list' if pkl else '', ', read with an asset map' if amap else '', ', names %s' % fn if fn else '')

                def go():
                    w, args, heap = scene(standard, pkl, amap, fn)
                    r = run(write, w, obj('dcp', 'dcp::DCP'), args, heap)
                    if r is None:
                        ctx.violation('list', write.file, write.line, write.q, 'a %s is never written' % where, 'list:never:' + where)
                        return
                    h, certain = r[1], r[2]

                    def need(rule, v, bad, what):
                        if v == TRUE:
                            ctx.ok(rule, '%s: %s' % (where, what))
                        elif v[0] == 'const' and certain:
                            ctx.violation(rule, write.file, write.line, write.q, '%s: %s' % (where, bad), '%s:%s:%s' % (rule, where, what), '%s: %s' % (where, what))
                        else:
                            ctx.skip(rule, '%s: %s: not known' % (where, what))
                    for n in ('A', 'B'):
                        need('list', h.get((n, 'written'), FALSE), '%s is not written' % WORDS[n], WORDS[n] + ' is written')
                    for n in ('A', 'B', 'S', 'T', 'V', 'F'):
                        v = h.get(('P', 'listed ' + n), FALSE)
                        need('list', v, '%s is %s when the packing list is written' % (WORDS[n], {const('old'): 'listed as it was before', const('twice'): 'listed twice'}.get(v, 'not listed')), WORDS[n] + ' in the packing list')
                    for n in ('A', 'B', 'S', 'T', 'V', 'F', 'P'):
                        v = h.get(('M', 'listed ' + n), FALSE)
                        need('list', v, '%s is %s when the asset map is written' % (WORDS[n], {const('old'): 'listed as it was before', const('twice'): 'listed twice'}.get(v, 'not listed')), WORDS[n] + ' in the asset map')
                    for l, say in (('P', 'packing list'), ('M', 'asset map')):
                        v = h.get((l, 'listed old'), FALSE)
                        need('list', {FALSE: TRUE}.get(v, FALSE if v[0] == 'const' else v), 'the %s is written with entries from before' % say, 'no entries from before in the %s' % say)
                    need('list', h.get(('M', 'flag'), FALSE), 'the packing list is not marked as one in the asset map', 'mark of the packing list')

                    def path(l, want, say):
                        v = h.get((l, 'path'))
                        if v is None and certain:
                            ctx.violation('place', write.file, write.line, write.q, '%s: the %s is not written' % (where, say), 'place:%s:%s' % (where, say))
                        elif v is None or not known(v):
                            ctx.skip('place', '%s: path of the %s' % (where, say))
                        else:
                            ctx.expect(want is None or v[1] == want, 'place', write.file, write.line, write.q, '%s: the %s is written to %s' % (where, say, v[1]), 'place:%s:%s' % (where, say), '%s: %s' % (where, say))
                    x = '.xml' if standard == 'SMPTE' else ''
                    path('M', 'dir/ASSETMAP' + x, 'asset map')
                    path('volindex', 'dir/VOLINDEX' + x, 'volume index')
                    a, b = h.get(('M', 'place'), ANY), h.get(('P', 'path'), ANY)
                    if known(a) and known(b):
                        ctx.expect(a == b, 'place', write.file, write.line, write.q, '%s: the packing list is written to %s but mapped to %s' % (where, b[1], a[1]), 'place:%s:pkl' % where, '%s: packing list' % where)
                    else:
                        ctx.skip('place', '%s: path of the packing list' % where)
                ctx.attempt('list', where, go)

    # entries
    def entry_world(inside, name, cls, outside_image=False):
        log = {}
        FILE = obj('file of ' + name, 'text')

        def put(kind):
            def f(st, args):
                i = next((a[1] for a in args[:1] if a[0] == 'const'), None)
                if i is None:
                    raise shape.Unknown('entry not known')
                st.heap[(kind, i)] = obj(repr(tuple(args)), 'entry')
                log[repr(tuple(args))] = args
                return ANY
            return f
        rel = lambda st, args: obj('relative', 'text') if inside else NULL
        fields = {
            (name, '_file'): FILE, (name, '_id'): const('id of ' + name),
            (name, '_texts'): seq(obj('text', 'dcp::TextString'), obj('I', 'dcp::TextImage'), obj('J', 'dcp::TextImage')),
        }
        attrs = {
            ('', 'dcp::relative_to_root'): rel,
            ('', 'dcp::filesystem::file_size'): lambda st, args: obj('size of %s' % args[0][1], 'size') if known(args[0]) else ANY,
            ('', 'dcp::make_digest'): lambda st, args: obj('digest of %s' % args[0][1], 'digest') if known(args[0]) else ANY,
            (name, 'hash'): obj('digest of file of ' + name, 'digest'), (name, 'id'): const('id of ' + name), (name, 'file'): FILE,
            ('P', 'add_asset'): put('P'), ('M', 'add_asset'): put('M'), ('P', 'standard'): ANY,
        }
        for i in ('I', 'J'):
            attrs[(i, 'id')] = const('id of ' + i)
            attrs[(i, 'file')] = obj('file of ' + i, 'text')
            attrs[(i, 'png_image')] = obj('png of ' + i, 'data')
            attrs[('png of ' + i, 'size')] = obj('size of png of ' + i, 'size')
        return World(fields, attrs), log

    classes = sorted(c for c in prog.derived('dcp::Asset') if c != 'dcp::Asset' and (c == 'dcp::InteropTextAsset' or c in ('dcp::SoundAsset', 'dcp::CPL', 'dcp::FontAsset', 'dcp::SMPTETextAsset', 'dcp::AtmosAsset', 'dcp::MonoJ2KPictureAsset')))
    if not classes:
        raise AnalysisBroken('no classes of assets')
    engine = shape.Shape(prog, World({}, {}))
    add_pkl = find('dcp::PKL::add_asset')
    add_map = find('dcp::AssetMap::add_asset')
    index = lambda f, n: next((i for i, p in enumerate(f.params) if p['n'] == n), None)
    for cls in classes:
        short = cls.split('::')[-1]
        for m, l, target, say in (('add_to_pkl', 'P', obj('P', 'dcp::PKL'), 'packing list'), ('add_to_assetmap', 'M', obj('M', 'dcp::AssetMap'), 'asset map')):
            base = find('dcp::Asset::' + m)
            f = engine.virtual(base, cls) or base
            for inside in (True, False):
                def go():
                    w, log = entry_world(inside, 'X', cls)
                    r = run(f, w, obj('X', cls), [target, obj('root', 'text')])
                    if r is None:
                        ctx.violation('entry', f.file, f.line, f.q, '%s is never added to the %s' % (short, say), 'entry:never:%s:%s' % (cls, m))
                        return
                    h, certain = r[1], r[2]
                    want = ['X'] + (['I', 'J'] if cls == 'dcp::InteropTextAsset' else [])
                    for n in want:
                        v = h.get((l, 'id of ' + n), FALSE)
                        thing = short if n == 'X' else 'an image of ' + short
                        what = '%s %s the package in the %s' % (thing, 'inside' if inside else 'outside', say)
                        key = 'entry:%s:%s:%s:%s' % (cls, m, n, inside)
                        if not certain:
                            ctx.skip('entry', what)
                            continue
                        if not inside:
                            ctx.expect(v == FALSE, 'entry', f.file, f.line, f.q, '%s that is outside the package is listed in the %s' % (thing, say), key, what)
                            continue
                        if v == FALSE or v[0] != 'obj':
                            ctx.expect(v != FALSE, 'entry', f.file, f.line, f.q, '%s is not listed in the %s' % (thing, say), key, what)
                            continue
                        args = log[v[1]]
                        bad = None
                        if l == 'P':
                            fields = (('hash', 'digest of file of X' if n == 'X' else 'digest of png of ' + n), ('size', 'size of file of X' if n == 'X' else 'size of png of ' + n))
                        else:
                            fields = (('path', 'file of ' + n),)
                        for p, need in fields:
                            i = index(add_pkl if l == 'P' else add_map, p)
                            if i is not None and i < len(args) and known(args[i]) and args[i][1] != need and not (n != 'X' and args[i][1] == need.replace('png', 'file')):
                                bad = 'the %s of %s in the %s is %s' % (p, thing, say, args[i][1])
                        if l == 'M' and len(args) > 2 and args[2] == TRUE:
                            bad = '%s is marked as a packing list' % thing
                        ctx.expect(bad is None, 'entry', f.file, f.line, f.q, bad, key, what)
                ctx.attempt('entry', '%s: %s' % (short, m), go)

    # digests
    OLD, PATH = const('old digest'), obj('path', 'text')

    def digest_after(f, this, args, what, attrs=None, fields=None, name='X'):
        def go():
            w = World(dict(fields or {}), dict({('', 'dcp::make_digest'): obj('new digest', 'text')}, **(attrs or {})))
            r = run(f, w, this, args, {(name, '_hash'): OLD, (name, '_file'): obj('old path', 'text')})
            if r is None:
                raise shape.Unknown('it never returns')
            v = r[1].get((name, '_hash'), ANY)
            if v == ANY:
                raise shape.Unknown('digest not known')
            ctx.expect(v != OLD, 'fresh', f.file, f.line, f.q, '%s keeps the digest of the file as it was before' % what, 'fresh:' + f.q, what)
        ctx.attempt('fresh', what, go)

    X = lambda cls: obj('X', cls)
    set_file = find('dcp::Asset::set_file')
    digest_after(set_file, X('dcp::SoundAsset'), [PATH], 'setting the file of an asset')
    digest_after(find('dcp::Asset::unset_hash'), X('dcp::SoundAsset'), [], 'forgetting the digest of an asset')
    for q in ('dcp::CPL::write_xml', 'dcp::InteropTextAsset::write', 'dcp::SMPTETextAsset::write'):
        f = find(q)
        digest_after(f, X(f.cls), [PATH] + [ANY] * (len(f.params) - 1), q.replace('dcp::', '') + '()', {})

    def known_digest():
        f = find('dcp::Asset::hash')
        w = World({('X', '_file'): PATH}, {('', 'dcp::make_digest'): lambda st, args: obj('digest of %s' % args[0][1], 'digest') if known(args[0]) else ANY})
        r = run(f, w, X('dcp::SoundAsset'), [ANY], {('X', '_hash'): NULL})
        if r is None or r[0] == ANY:
            raise shape.Unknown('digest not known')
        ctx.expect(r[0] != NULL and r[0][1] == 'digest of path', 'fresh', f.file, f.line, f.q, 'the digest of an asset that has none is not made from its file', 'fresh:hash', 'making of a digest')
    ctx.attempt('fresh', 'making of a digest', known_digest)

    # writers of MXF files: the asset gets the new file with its digest forgotten
    for cls in sorted(prog.derived('dcp::AssetWriter')):
        if any(c != cls for c in prog.derived(cls)) or cls == 'dcp::AssetWriter':
            continue
        seen, todo = set(), [f for f in prog.functions.values() if f.cls in prog.bases(cls) and f.body is not None]
        if not todo:
            continue
        first = todo[0]
        hit = False
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen.add(f.key)
            for x in walk(f.body):
                if x.get('e') == 'call' and x.get('q') in ('dcp::Asset::set_file', 'dcp::Asset::unset_hash'):
                    hit = True
                if x.get('e') in ('call', 'ctor') and x.get('fn'):
                    g = prog.functions.get(x['fn'])
                    if g is not None and g.body is not None and g.key not in seen:
                        todo.append(g)
                    elif g is None and x.get('q', '').startswith('dcp::') and x.get('e') == 'call':
                        todo += [h for h in prog.get(x['q']) if h.body is not None and h.key not in seen]
        ctx.expect(hit, 'fresh', first.file, first.line, cls, '%s never sets the file of its asset, so that a digest from before is kept' % cls.split('::')[-1], 'fresh:writer:' + cls, cls.split('::')[-1])
