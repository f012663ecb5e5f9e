"""C21: combining packages keeps every composition and asset, and overwrites nothing"""

import posixpath

import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The combining of packages is interpreted abstractly for two and three packages of either standard and of different standards, whose files and fonts have the same names, into folders that are empty or already have files of these names. '
    'What is on the disk is followed through every link, copy and writing of a text: nothing that is there may be written over, every file of every package must be in the new folder under a name of its own which its asset knows, '
    'and the compositions, the assets they refer to and the descriptions given must be in the new package before its lists are written.')

CLASSES = {'V': 'dcp::MonoJ2KPictureAsset', 'T': 'dcp::InteropTextAsset', 'A': 'dcp::CPL', 'F': 'dcp::FontAsset', 'S': 'dcp::SoundAsset'}
OUTPUT = '/out'
GIVEN = {'issuer': 'issuer', 'creator': 'creator', 'issue_date': 'date of issue', 'annotation_text': 'annotation'}


def thing(n):
    return obj(n, CLASSES[n[0]])


class World:
    def __init__(self, inputs, standards):
        # inputs: path -> names of what is within
        self.inputs = inputs
        self.standards = standards
        self.writes = []
        self.listed = False

    def field(self, e, st, o, name):
        return None

    def there(self, st, p):
        """is there something at a path?"""
        if p[0] != 'const':
            raise shape.Unknown('path not known')
        return st.heap.get(('disk', p[1]), NULL)

    def make(self, st, e, x, p, v):
        self.writes.append(p[1])
        old = self.there(st, p)
        if old != NULL:
            st.heap[('over', p[1])] = const('%s: %s of %s is written over' % (e.f.q.split('::')[-1], 'the file ' + p[1], 'before' if old == const('before') else old[1]))
        if ('folder', posixpath.dirname(p[1])) not in st.heap:
            st.heap[('over', p[1])] = const('the file %s is written to a folder that is not there' % p[1])
        st.heap[('disk', p[1])] = v

    def call(self, e, st, x, o, args):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        cls = x.get('cls') or ''
        if x.get('e') == 'ctor':
            if cls == 'dcp::DCP':
                if args[0][0] != 'const':
                    raise shape.Unknown('package not known')
                return obj('dcp:' + args[0][1], 'dcp::DCP')
            if 'error_condition' in cls and args and args[0][0] == 'enum':
                return args[0]
            return None
        if m in ('make_shared', 'make_unique') and q.startswith('std::') and 'dcp::DCP' in (x.get('fn') or '').split('(')[0] and args and args[0][0] == 'const':
            return obj('dcp:' + args[0][1], 'dcp::DCP')
        if o is not None and o[0] == 'obj' and o[2] == 'dcp::DCP':
            return self.package(e, st, o, m, args)
        if o is not None and o[0] == 'obj' and o[1][0] in CLASSES and o[2] == CLASSES[o[1][0]]:
            r = self.asset(e, st, x, o, m, args)
            if r is not None:
                return r
        if q.split('::')[-1] == 'exists' and 'filesystem' in q and args:
            return const(self.there(st, args[0]) != NULL)
        if m in ('create_hard_link', 'copy_file', 'rename', 'copy', 'create_symlink') and 'filesystem' in q:
            what = self.there(st, args[0])
            if m == 'create_hard_link' and st.heap.get(('disk', 'links')) != TRUE:
                raise shape.Never()
            self.make(st, e, x, args[1], what)
            if m == 'rename':
                st.heap[('disk', args[0][1])] = NULL
            return ANY
        if m in ('remove', 'remove_all') and 'filesystem' in q:
            if args[0][0] != 'const':
                raise shape.Unknown('path not known')
            if self.there(st, args[0]) != NULL:
                st.heap[('over', args[0][1])] = const('the file %s is removed' % args[0][1])
            return ANY
        if m in ('create_directories', 'create_directory') and 'filesystem' in q:
            if args[0][0] != 'const':
                raise shape.Unknown('path not known')
            p = args[0][1]
            while p not in ('', '/'):
                st.heap[('folder', p)] = TRUE
                p = posixpath.dirname(p)
            return TRUE
        if m == 'code' and o == ANY and q.startswith('boost::'):
            return obj('code', 'code')
        if op in ('==', '!=') and obj('code', 'code') in [o] + list(args) and st.heap.get(('disk', 'links'), TRUE) != TRUE:
            other = [a for a in [o] + list(args) if a is not None and a != obj('code', 'code')]
            if len(other) == 1 and other[0][0] == 'enum':
                return const((other[0][1].split('::')[-1] == st.heap[('disk', 'links')][1]) == (op == '=='))
            return ANY
        # paths and texts
        every = ([o] if o is not None else []) + list(args)
        consts = all(a[0] == 'const' and isinstance(a[1], str) for a in every)
        if op in ('/', '+') and len(every) == 2:
            return const(posixpath.join(every[0][1], every[1][1]) if op == '/' else every[0][1] + every[1][1]) if consts else ANY
        if op in ('/=', '+=') and len(every) == 2:
            v = const(posixpath.join(every[0][1], every[1][1]) if op == '/=' else every[0][1] + every[1][1]) if consts else ANY
            e.store(x['o'] if isinstance(x.get('o'), dict) else x['a'][0], v, st)
            return v
        if o is not None and o[0] == 'const' and isinstance(o[1], str) and q.startswith(('std::', 'boost::')):
            p = o[1]
            base, ext = posixpath.splitext(posixpath.basename(p))
            r = {'string': p, 'c_str': p, 'native': p, 'generic_string': p, 'filename': posixpath.basename(p), 'stem': base, 'extension': ext, 'parent_path': posixpath.dirname(p)}.get(m)
            if r is not None:
                return const(r)
            if m == 'empty':
                return const(p == '')
        if m == 'to_string' and args and args[0][0] == 'const':
            return const(str(args[0][1]))
        if q == 'dcp::add_to_container' or m == 'add_to_container':
            lhs = x['a'][0]
            a, b = args[0], args[1]
            if a[0] != 'seq' or b[0] != 'seq':
                raise shape.Unknown('a list is not known')
            e.store(lhs, a + b[1:], st)
            return ANY
        return None

    def package(self, e, st, o, m, args):
        p = o[1][4:]
        out = p == OUTPUT
        if m == 'add' and out:
            h = st.heap.get((o[1], 'cpls'), seq())
            st.heap[(o[1], 'cpls')] = h + (args[0],)
            return ANY
        if m == 'read' and not out:
            st.heap[(o[1], 'read')] = TRUE
            return ANY
        if m == 'standard' and not out:
            return self.standards[p]
        if m == 'cpls':
            if out:
                return st.heap.get((o[1], 'cpls'), seq())
            return seq(*[thing(n) for n in self.inputs[p] if n[0] == 'A']) if st.heap.get((o[1], 'read')) == TRUE else seq()
        if m == 'assets' and not out:
            return self.every(st, [p]) if st.heap.get((o[1], 'read')) == TRUE else seq()
        if m == 'resolve_refs' and out:
            if args[0][0] != 'seq':
                raise shape.Unknown('assets not known')
            h = args[0]
            added = st.heap.get((o[1], 'cpls'), seq())[1:]
            for p, names in self.inputs.items():
                for n in names:
                    if n[0] not in 'AF' and not all(thing(a) in added for a in names if a[0] == 'A'):
                        st.heap[('unresolved', n)] = const('the references of the composition with %s are not resolved' % n)
                    elif n[0] != 'A' and thing(n) not in h:
                        st.heap[('unresolved', n)] = const('the references to %s are not resolved' % n)
            st.heap[('out', 'resolved')] = TRUE
            return ANY
        if m == 'assets' and out:
            if st.heap.get(('out', 'resolved')) != TRUE:
                st.heap[('unresolved', 'all')] = const('the assets are asked for before the references are resolved')
            return self.every(st, [p for p, names in self.inputs.items() if any(thing(a) in st.heap.get((o[1], 'cpls'), seq()) for a in names if a[0] == 'A')])
        if m and m.startswith('set_') and out:
            st.heap[('out', m[4:])] = args[0]
            return ANY
        if m == 'write_xml' and out:
            self.listed = True
            for k in [k for k in st.heap if k[0] == 'out' and k[1] != 'resolved']:
                st.heap[('listed', k[1])] = st.heap[k]
            for p, names in self.inputs.items():
                for n in names:
                    f = st.heap.get((n, 'file'), ANY)
                    if n[0] != 'A':
                        st.heap[('listed', 'file of ' + n)] = f
                        st.heap[('listed', 'data of ' + n)] = self.there(st, f) if f[0] == 'const' else ANY
            st.heap[('listed', 'signer')] = args[0] if args else ANY
            st.heap[('listed', 'cpls')] = st.heap.get((o[1], 'cpls'), seq())
            return ANY
        raise shape.Unknown('%s of a package' % m)

    def every(self, st, ps):
        r = []
        for p in ps:
            r += [thing(n) for n in self.inputs[p] if thing(n) not in r]
        return seq(*r)

    def asset(self, e, st, x, o, m, args):
        n = o[1]
        if m == 'id':
            return const('id-' + n)
        if m == 'file':
            return st.heap.get((n, 'file'), ANY)
        if m == 'set_file' or m == 'set_file_preserving_hash':
            st.heap[(n, 'file')] = args[0]
            return ANY
        if n[0] == 'T':
            font = 'F' + n[1:]
            if m == 'font_filenames':
                return seq(('pair', const('font'), st.heap.get((font, 'file'), ANY)))
            if m == 'set_font_file':
                if args[0] != const('font'):
                    raise shape.Unknown('font not known')
                st.heap[(font, 'file')] = args[1]
                return ANY
            if m == 'write':
                self.make(st, e, x, args[0], const('data of ' + n))
                st.heap[(n, 'file')] = args[0]
                f = st.heap.get((font, 'file'), ANY)
                if f[0] != 'const':
                    raise shape.Unknown('file of a font not known')
                # fonts are written beside the text
                f = const(posixpath.join(posixpath.dirname(args[0][1]), posixpath.basename(f[1])))
                self.make(st, e, x, f, const('data of ' + font))
                st.heap[(font, 'file')] = f
                return ANY
            if m == 'font_assets':
                f = st.heap.get((font, 'file'), ANY)
                st.heap[('taken', font)] = f
                return seq(thing(font))
        return None


def check(ctx, prog):
    ctx.rule('keep', 'every composition is in the new package, and the references to every asset are resolved', 10)
    ctx.rule('file', 'every file of every package is in the new folder, under a name of its own which its asset knows, when the lists are written', 20)
    ctx.rule('over', 'no file that is there is written over or removed', 6)
    ctx.rule('describe', 'the new package has the issuer, creator, date and annotation given, and the signer', 5)
    ctx.rule('mixed', 'packages of different standards are refused before anything is written', 1)

    fs = [f for f in prog.get('dcp::combine') if f.body is not None]
    if not fs:
        raise AnalysisBroken('no function dcp::combine')
    combine = fs[0]
    enums = dict((c[0], c[1]) for c in prog.enum('dcp::Standard')['c'])
    std = lambda n: ('enum', 'dcp::Standard::' + n, enums[n])
    args = {'inputs': None, 'output': const(OUTPUT), 'signer': obj('the signer', 'dcp::CertificateChain')}
    args.update((k, const('the ' + v)) for k, v in GIVEN.items())
    if not all(p['n'] in args for p in combine.params):
        raise AnalysisBroken('parameters of dcp::combine')

    def run(inputs, standards, before, links):
        w = World(inputs, standards)
        e = shape.Shape(prog, w)
        e.strict = True
        heap = {('disk', p): const('before') for p in before}
        heap[('disk', 'links')] = const(links)
        heap[('folder', OUTPUT)] = TRUE
        for p, names in inputs.items():
            for n in names:
                f = {'V': 'video.mxf', 'S': 'sound.mxf', 'T': 'T/text.xml', 'F': 'T/font.ttf', 'A': 'cpl.xml'}[n[0]]
                f = posixpath.join(p, f)
                heap[(n, 'file')] = const(f)
                heap[('disk', f)] = const('data of ' + n)
        a = [seq(*[const(p) for p in inputs]) if p['n'] == 'inputs' else args[p['n']] for p in combine.params]
        rs = e.call(combine, NULL, a, shape.State({}, heap, frozenset()))
        ctx.functions(e.functions)
        if e.wrong:
            g, x, why = e.wrong[0]
            ctx.violation('keep', g.file, x.get('l'), g.q, '%s when packages are combined' % why, 'keep:wrong:%s' % g.q)
        if not rs:
            return w.writes
        if not w.listed:
            return None
        v, s = rs[0]
        for y, t in rs[1:]:
            v, s = shape.join(v, y), shape.merge(s, t)
        return s.heap

    one = lambda i, text: ['A%d' % i, 'V%d' % i] + (['T%d' % i, 'F%d' % i] if text else ['S%d' % i])
    kinds = [(text, count, before, links) for text in (True, False) for count in (1, 2, 3) for before in (False, True) for links in (True, 'cross_device_link', 'operation_not_supported')]
    for text, count, before, links in kinds:
        inputs = {'/in%d' % i: one(i, text) for i in range(count)}
        standard = 'INTEROP' if text else 'SMPTE'
        old = [OUTPUT + '/' + n for n in ('video.mxf', 'video0.mxf', 'sound.mxf')] + [OUTPUT + '/id-T0/text.xml', OUTPUT + '/id-T0/font.ttf'] if before else []
        where = '%d %s package%s%s%s' % (count, standard, 's' if count > 1 else '', ' into a folder with files of these names' if before else '', '' if links is True else ', links fail with ' + links)

        def go():
            h = run(inputs, {p: std(standard) for p in inputs}, old, links)
            if isinstance(h, list):
                ctx.violation('keep', combine.file, combine.line, combine.q, '%s can never be combined' % where, 'keep:never:' + where)
                return
            if h is None:
                ctx.violation('keep', combine.file, combine.line, combine.q, '%s are combined without writing the lists of the new package' % where, 'keep:lists:' + where)
                return
            if ('listed', 'cpls') not in h:
                raise shape.Unknown('no lists are known to be written')

            def say(ok, rule, bad, what):
                ctx.expect(ok, rule, combine.file, combine.line, combine.q, '%s: %s' % (where, bad), '%s:%s:%s' % (rule, where, what), '%s: %s' % (where, what))
            overs = [v[1] for k, v in sorted(h.items()) if k[0] == 'over' and v[0] == 'const']
            say(not overs, 'over', '; '.join(overs), 'nothing is written over')
            cpls = h[('listed', 'cpls')]
            names = [n for p in inputs for n in inputs[p]]
            for n in names:
                if n[0] == 'A':
                    say(cpls[0] == 'seq' and cpls[1:].count(thing(n)) == 1, 'keep', 'composition %s is %s the new package' % (n, 'not in' if thing(n) not in cpls else 'twice in'), 'composition ' + n)
                    continue
                bad = h.get(('unresolved', n), h.get(('unresolved', 'all')))
                say(bad is None or bad[0] != 'const', 'keep', bad[1] if bad else '', 'references to ' + n)
                f, d = h.get(('listed', 'file of ' + n), ANY), h.get(('listed', 'data of ' + n), ANY)
                if f[0] != 'const':
                    ctx.skip('file', '%s: file of %s' % (where, n))
                    continue
                say(f[1].startswith(OUTPUT + '/') and d == const('data of ' + n), 'file', 'when the lists are written the file of %s is %s, %s' % (n, f[1], 'where there is nothing' if d == NULL else 'which has the %s' % (d[1] if d[0] == 'const' else '?')), 'file of ' + n)
                t = h.get(('taken', n))
                if n[0] == 'F':
                    g = h.get(('listed', 'file of T' + n[1:]), ANY)
                    if g[0] == 'const':
                        say(posixpath.dirname(g[1]) == posixpath.dirname(f[1]), 'file', 'the font %s is at %s but its text at %s' % (n, f[1], g[1]), 'font %s beside its text' % n)
                if t is not None and t[0] == 'const':
                    say(t == f, 'file', 'the font %s is listed at %s before it is written to %s' % (n, t[1], f[1]), 'font ' + n)
            for k, words in GIVEN.items():
                v = h.get(('listed', k), NULL)
                if v != ANY:
                    say(v == args[k], 'describe', 'the %s is %s when the lists are written' % (words, v[1] if v[0] == 'const' else 'not set'), words)
            v = h.get(('listed', 'signer'), NULL)
            if v != ANY:
                say(v == args['signer'], 'describe', 'the lists are not signed with the signer given', 'signer')
        ctx.attempt('keep', where, go)

    for order in (('SMPTE', 'INTEROP'), ('INTEROP', 'SMPTE'), ('SMPTE', 'SMPTE', 'INTEROP')):
        def go():
            inputs = {'/in%d' % i: one(i, False) for i in range(len(order))}
            h = run(inputs, {p: std(s) for p, s in zip(inputs, order)}, [], True)
            ctx.expect(h == [], 'mixed', combine.file, combine.line, combine.q, 'packages of standards %s are %s' % (', '.join(order), 'refused only after %s is written' % h[0] if isinstance(h, list) and h else 'combined'), 'mixed:' + '-'.join(order), ', '.join(order))
        ctx.attempt('mixed', '-'.join(order), go)
