"""C22: a text has each property from the nearest element that gives it"""

import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The reading of texts is interpreted abstractly: each kind of element with each of its attributes alone, which must set the one property that it is for and no other; '
    'and texts inside two elements, for each property given by the outer, the inner, both or none, which must have it from the nearest. '
    'The editions of the standard are followed from the namespace that is read to the one that is written, and to what vertical positions are measured from.')

PS = 'dcp::TextAsset::ParseState'
FONT = {'ID': 'font_id', 'Id': 'font_id', 'Size': 'size', 'AspectAdjust': 'aspect_adjust', 'Italic': 'italic', 'Weight': 'bold', 'Underline': 'underline', 'Underlined': 'underline', 'Color': 'colour', 'Effect': 'effect', 'EffectColor': 'effect_colour'}
PLACE = {'HPosition': 'h_position', 'Hposition': 'h_position', 'HAlign': 'h_align', 'Halign': 'h_align', 'VPosition': 'v_position', 'Vposition': 'v_position', 'VAlign': 'v_align', 'Valign': 'v_align', 'Zposition': 'z_position', 'VariableZ': 'variable_z'}
ALIAS = {'font_id': 'font'}


class Engine(shape.Shape):
    def e_cast(self, x, st):
        v = shape.Shape.e_cast(self, x, st)
        if x.get('kind') == 'Dynamic' and v[0] == 'obj':
            t = self.f.type(x['t']).replace('const', '').replace('*', '').replace('&', '').strip()
            return v if self.derives(v[2], t) or v[2] == t else NULL
        return v

    def compare(self, op, v, w):
        if op in ('/', '*') and v[0] == 'obj' and w[0] == 'const':
            return obj('%s%s%s' % (v[1], op, w[1]), v[2])
        return shape.Shape.compare(self, op, v, w)


class World:
    def __init__(self, attributes=None, fields=None, attrs=None, functions=None, fresh=None):
        # of elements: (element, name) -> value
        self.attributes = attributes or {}
        self.fields = fields or {}
        self.attrs = attrs or {}
        self.functions = functions or {}
        self.names = fresh or []
        self.count = 0
        self.made = []

    def field(self, e, st, o, name):
        if o is None:
            return const('namespace ' + name) if name and '_ns' in name else None
        return self.fields.get((o[1], name))

    def attribute(self, node, name):
        if node[0] != 'obj' or name[0] != 'const':
            raise shape.Unknown('attribute of something unknown')
        return self.attributes.get((node[1], name[1]), NULL)

    def call(self, e, st, x, o, args):
        q, m = x.get('q') or '', x.get('m')
        cls = x.get('cls') or ''
        if x.get('e') == 'ctor':
            if cls == PS and not args:
                self.count += 1
                p = obj('ps%d' % self.count, PS)
                for n in self.names:
                    st.heap[(p[1], n)] = NULL
                st.heap[(p[1], 'load_variable_z')] = seq()
                return p
            if cls == 'dcp::Time' and args and args[0][0] in ('obj', 'const') and (len(args) < 3):
                return obj('time %s' % args[0][1], 'dcp::Time')
            if cls == 'dcp::Time':
                return obj('a time', 'dcp::Time')
            if cls == 'dcp::Colour' and len(args) == 1:
                return obj('colour %s' % args[0][1], 'dcp::Colour') if args[0][0] == 'const' else args[0]
            if cls == 'dcp::Colour' and len(args) != 1:
                return obj('a colour', 'dcp::Colour')
            if cls in ('dcp::TextString', 'dcp::TextImage') and len(args) > 3:
                self.made.append((cls, args, x))
                return obj('made', cls)
            return None
        if q in self.functions:
            return self.functions[q](e, st, x, o, args)
        if m in ('make_shared', 'make_unique'):
            for c in ('dcp::TextString', 'dcp::TextImage'):
                if '<%s' % c in (x.get('fn') or ''):
                    self.made.append((c, args, x))
                    return obj('made', c)
        if q.split('::')[-1] in ('optional_string_attribute', 'string_attribute', 'optional_number_attribute', 'number_attribute', 'optional_bool_attribute', 'bool_attribute') and len(args) >= 2:
            v = self.attribute(args[0], args[1])
            if v == NULL:
                if 'optional' not in q:
                    raise shape.Never()
                return v
            if 'number' in q:
                return obj('number %s' % v[1], 'number')
            if 'bool' in q:
                return obj('bool %s' % v[1], 'bool')
            return v
        if q.split('::')[-1].startswith('string_to_') and len(args) == 1:
            return obj('enum %s' % args[0][1], 'enum') if args[0][0] == 'const' else ANY
        if o is not None and o[0] == 'obj' and (o[1], m) in self.attrs:
            v = self.attrs[(o[1], m)]
            return v(st, args) if callable(v) else v
        if o is not None and o[0] == 'const' and q.startswith(('Glib::', 'std::')):
            if m in ('raw', 'c_str') or (m or '').startswith('operator ') or (m or '').startswith('operator basic_string'):
                return o
            if m == 'empty' and isinstance(o[1], str):
                return const(o[1] == '')
            if m == 'find' and isinstance(o[1], str) and args and args[0][0] == 'const' and isinstance(args[0][1], str):
                return const(o[1].find(args[0][1]) % 2 ** 64)
        if m == 'raw_convert' and args:
            try:
                return const(float(args[0][1]))
            except (TypeError, ValueError, IndexError):
                return ANY
        return None


def check(ctx, prog):
    ctx.rule('attribute', 'an attribute of an element sets the property that it is for and no other; one that is not there sets none', 30)
    ctx.rule('nearest', 'a text has each property from the innermost element that gives it', 40)
    ctx.rule('scope', 'what an element gives is in force within it and nowhere else', 6)
    ctx.rule('edition', 'each edition of the standard is read and written by its own namespace, and measures vertical positions from one of baseline and bounding box', 8)

    def find(q, pred=None):
        fs = [f for f in prog.get(q) if f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    record = prog.record(PS)
    names = [f['n'] for f in record['fields'] if 'optional' in str(f.get('type'))]
    if len(names) < 5:
        raise AnalysisBroken('members of ParseState not found')
    standards = dict((c[0], ('enum', 'dcp::Standard::' + c[0], c[1])) for c in prog.enum('dcp::Standard')['c'])

    def run(f, w, this, args=(), heap=None):
        e = Engine(prog, w)
        rs = e.call(f, this, list(args), shape.State({}, dict(heap or {}), frozenset()))
        ctx.functions(e.functions)
        if not rs:
            if e.branched:
                raise shape.Unknown('it is not known whether it returns')
            return None, None, e
        v, s = rs[0]
        for b, t in rs[1:]:
            v, s = shape.join(v, b), shape.merge(s, t)
        return v, s, e

    asset = obj('asset', 'dcp::SMPTETextAsset')
    node = obj('node', 'xmlpp::Element')

    # attributes
    def attribute(fname, name, field, standard, required=()):
        f = find('dcp::TextAsset::' + fname)

        def go():
            for value in ((('bold', TRUE), ('normal', FALSE)) if name == 'Weight' else (('value', None),)):
                a = dict((('node', r), const('of ' + r)) for r in required)
                if name is not None:
                    a[('node', name)] = const(value[0])
                w = World(a, fresh=names, attrs={('node', 'get_children'): seq()})
                args = [node]
                for p in f.params[1:]:
                    args.append(standards.get(standard, ANY) if 'Standard' in f.type(p['t']) else ANY)
                v, s, e = run(f, w, asset, args)
                if s is None or v[0] != 'obj':
                    raise shape.Unknown('what comes of the element')
                where = '%s %s%s' % (fname.replace('_node_state', ''), name or 'without attributes', ' (%s)' % standard if standard else '')
                for n in names:
                    if n == 'type':
                        continue
                    got = s.heap.get((v[1], n), NULL)
                    if fname == 'subtitle_node_state' and n in ('fade_up_time', 'fade_down_time') and n != field:
                        # these have values of their own if they are not given
                        continue
                    if fname == 'subtitle_node_state' and n in ('in', 'out'):
                        want = {'in': 'TimeIn', 'out': 'TimeOut'}[n]
                        ctx.expect(got == ANY or ('of ' + want) in str(got[1:2]), 'attribute', f.file, f.line, f.q, 'the time %s of a text is not read from %s' % (n, want), 'attribute:%s' % n, '%s: %s' % (where, n))
                        continue
                    key = 'attribute:%s:%s:%s:%s' % (fname, name, standard, n)
                    if n == field:
                        if got == ANY:
                            ctx.skip('attribute', '%s: %s' % (where, n))
                        elif value[1] is not None:
                            ctx.expect(got == value[1], 'attribute', f.file, f.line, f.q, '%s="%s" does not set %s to %s' % (name, value[0], n, value[1][1]), key, '%s %s' % (where, value[0]))
                        else:
                            ctx.expect(got != NULL and 'value' in str(got[1:2]), 'attribute', f.file, f.line, f.q, 'the attribute %s of an element does not give %s' % (name, n), key, where)
                    elif got != NULL:
                        if got == ANY or e.branched:
                            ctx.skip('attribute', '%s: %s' % (where, n))
                        else:
                            ctx.violation('attribute', f.file, f.line, f.q, 'an element %s sets %s, so that what an outer element gives is lost' % ('with only the attribute ' + name if name else 'without attributes', n), 'attribute:%s:%s' % (fname, n))
                ctx.ok('attribute', where)
        ctx.attempt('attribute', '%s %s' % (fname, name), go)

    for std in ('SMPTE', 'INTEROP'):
        attribute('font_node_state', None, None, std)
        for n in sorted(FONT):
            if n in {'SMPTE': ('Id', 'Underlined'), 'INTEROP': ('ID', 'Underline')}[std]:
                continue
            attribute('font_node_state', n, FONT[n], std)
    for f in ('text_node_state', 'image_node_state'):
        attribute(f, None, None, None)
        for n in sorted(PLACE):
            attribute(f, n, PLACE[n], None)
    attribute('text_node_state', 'Direction', 'direction', None)
    for n, field in (('FadeUpTime', 'fade_up_time'), ('FadeDownTime', 'fade_down_time')):
        attribute('subtitle_node_state', n, field, None, ('TimeIn', 'TimeOut'))

    # the nearest
    add = find('dcp::TextAsset::maybe_add_text')
    kinds = dict((c[0], ('enum', PS + '::Type::' + c[0], c[1])) for c in prog.enum(PS + '::Type')['c'])

    def params(cls, n):
        for g in prog.get(cls + '::(ctor)'):
            if len(g.params) == n:
                return [p['n'] for p in g.params]
        raise shape.Unknown('parameters of %s' % cls)

    def text(kind, given):
        """given: for each element from the outermost, the properties that it gives"""
        heap = {}
        states = []
        base = {'type': kinds[kind], 'in': obj('base in', 'dcp::Time'), 'out': obj('base out', 'dcp::Time')}
        for i, g in enumerate([base] + given):
            o = obj('s%d' % i, PS)
            states.append(o)
            for n in names:
                heap[(o[1], n)] = g.get(n, NULL)
            heap[(o[1], 'load_variable_z')] = g.get('load_variable_z', seq())
        w = World(fresh=names)
        args = []
        for p in add.params:
            t = add.type(p['t'])
            args.append(seq(*states) if 'ParseState' in t else standards['SMPTE'] if 'Standard' in t else obj('arg ' + p['n'], 'argument') if 'Ruby' in t or p['n'] == 'space_before' else const('the text') if 'string' in t else ANY)
        heap[('asset', '_texts')] = seq()
        v, s, e = run(add, w, asset, args, heap)
        if s is None:
            raise shape.Unknown('it never returns')
        if len(w.made) != 1:
            if e.branched or len(w.made) > 1:
                raise shape.Unknown('text that is made')
            return None
        cls, a, x = w.made[0]
        if s.heap.get(('asset', '_texts'), ANY)[0] == 'seq' and len(s.heap[('asset', '_texts')]) != 2:
            return None
        return dict(zip(params(cls, len(a)), a)), x

    for kind in sorted(kinds):
        for n in names:
            if n in ('type', 'variable_z'):
                continue
            if kind == 'IMAGE' and n in ('font_id', 'size', 'aspect_adjust', 'italic', 'bold', 'underline', 'colour', 'effect', 'effect_colour', 'direction'):
                continue
            p = ALIAS.get(n, n)
            O, I = obj('outer ' + n, 'value'), obj('inner ' + n, 'value')
            for what, given, want in (('outer', [{n: O}, {}], O), ('inner', [{}, {n: I}], I), ('both', [{n: O}, {n: I}], I), ('outermost of three', [{n: O}, {}, {}], O), ('middle of three', [{n: O}, {n: I}, {}], I)):
                def go():
                    r = text(kind, given)
                    w = '%s of a text (%s) given by %s' % (n, kind.lower(), what)
                    if r is None:
                        ctx.violation('nearest', add.file, add.line, add.q, 'no text is made', 'nearest:none:%s' % kind)
                        return
                    got, x = r
                    if p not in got:
                        ctx.skip('nearest', w)
                        return
                    v = got[p]
                    if v == ANY:
                        ctx.skip('nearest', w)
                        return
                    ctx.expect(v == want, 'nearest', add.file, x.get('l', add.line), add.q, 'a text (%s) does not have %s from the nearest element that gives it, with it given by %s' % (kind.lower(), n.replace('_', ' '), what), 'nearest:%s:%s' % (n, kind), w)
                    others = sorted(k for k, u in got.items() if k != p and u in (O, I))
                    ctx.expect(not others, 'nearest', add.file, x.get('l', add.line), add.q, '%s of an element is given to the text as %s' % (n, ', '.join(others)), 'nearest:other:%s:%s' % (n, kind), w + ' and as nothing else')
                ctx.attempt('nearest', '%s %s %s' % (kind, n, what), go)

        def parts():
            r = text(kind, [])
            if r is None:
                raise shape.Unknown('text that is made')
            got, x = r
            for p, want in (('text', const('the text')), ('id', const('the text')), ('space_before', obj('arg space_before', 'argument')), ('rubies', obj('arg rubies', 'argument'))):
                if p in got and got[p] != ANY and not (p == 'id' and kind == 'IMAGE'):
                    ctx.expect(got[p] == want, 'nearest', add.file, x.get('l', add.line), add.q, 'a text is made with something else for %s' % p, 'nearest:part:' + p, p)
        ctx.attempt('nearest', 'parts of a text', parts)

        def untimed():
            heap = {}
            o = obj('s0', PS)
            for n in names:
                heap[(o[1], n)] = NULL
            heap[(o[1], 'type')] = kinds[kind]
            heap[(o[1], 'load_variable_z')] = seq()
            w = World(fresh=names)
            args = [seq(o) if 'ParseState' in add.type(p['t']) else standards['SMPTE'] if 'Standard' in add.type(p['t']) else const('the text') if 'string' in add.type(p['t']) else ANY for p in add.params]
            v, s, e = run(add, w, asset, args, heap)
            ctx.expect(s is not None and not w.made, 'scope', add.file, add.line, add.q, 'content outside of any element with times %s' % ('is an error' if s is None else 'is taken for a text'), 'scope:untimed', 'content without times (%s)' % kind.lower())
        ctx.attempt('scope', 'content without times', untimed)

    # scope
    parse = find('dcp::TextAsset::parse_texts')
    MAKERS = {'Font': 'font_node_state', 'Subtitle': 'subtitle_node_state', 'Text': 'text_node_state', 'Image': 'image_node_state'}
    state_param = next((i for i, p in enumerate(parse.params) if 'ParseState' in parse.type(p['t'])), None)
    for name in ('Font', 'Subtitle', 'Text', 'Image', 'SubtitleList'):
        def go():
            before = obj('before', PS)
            seen, calls = [], []

            def adding(e, st, x, o, args):
                i = next((i for i, p in enumerate(add.params) if 'ParseState' in add.type(p['t'])), None)
                k = next((i for i, p in enumerate(add.params) if p['n'] == 'space_before'), None)
                seen.append((args[0], args[i], args[k] if k is not None else ANY))
                return ANY

            def inner(e, st, x, o, args):
                calls.append((args[0], args[state_param]))
                return ANY
            fs = {'dcp::TextAsset::maybe_add_text': adding, 'dcp::TextAsset::parse_texts': inner}
            for n, m in MAKERS.items():
                fs['dcp::TextAsset::' + m] = (lambda n: lambda e, st, x, o, args: obj('state of ' + n, PS) if args[0] == node else obj('state of something else', PS))(n)
            kids = [obj('c1', 'xmlpp::ContentNode'), obj('kid', 'xmlpp::Element'), obj('c2', 'xmlpp::ContentNode')]
            a = {('node', 'get_name'): const(name), ('kid', 'get_name'): const('Font'), ('c1', 'get_content'): const('first'), ('c2', 'get_content'): const('second')}
            a[('space', 'get_name')] = const('Space')
            attributes = {}
            if name == 'Text':
                kids += [obj('space', 'xmlpp::Element'), obj('c3', 'xmlpp::ContentNode'), obj('c4', 'xmlpp::ContentNode')]
                a[('c3', 'get_content')], a[('c4', 'get_content')] = const('third'), const('fourth')
                attributes[('space', 'Size')] = const('2.5')
            a[('node', 'get_children')] = seq(*kids)
            w = World(attributes, attrs=a, functions=fs, fresh=names)
            args = [node] + [seq(before) if i == state_param else standards['SMPTE'] if 'Standard' in parse.type(p['t']) else ANY for i, p in enumerate(parse.params) if i]
            v, s, e = run(parse, w, asset, args)
            if s is None:
                ctx.violation('scope', parse.file, parse.line, parse.q, 'an element %s is always refused' % name, 'scope:refused:' + name)
                return
            if e.branched:
                raise shape.Unknown('what is done is not known')
            mine = obj('state of ' + name, PS)
            for what, st in [(c[0], c[1]) for c in calls] + [(c[0], c[1]) for c in seen]:
                if st[0] != 'seq':
                    raise shape.Unknown('elements in force')
                ok = len(st) == 3 and st[1] == before and (st[2] == mine or name == 'SubtitleList')
                ctx.expect(ok, 'scope', parse.file, parse.line, parse.q, 'within an element %s, what it gives is not in force last' % name, 'scope:within:' + name, 'within %s' % name)
            if any(c[0][0] != 'const' for c in seen):
                raise shape.Unknown('contents')
            contents = [c[0][1] for c in seen]
            want = ['first', 'second'] + (['third', 'fourth'] if name == 'Text' else [])
            ctx.expect(contents == want, 'scope', parse.file, parse.line, parse.q, 'of the contents %s of an element %s, %s are read' % (want, name, contents), 'scope:contents:' + name, 'contents of %s' % name)
            ctx.expect([c[0] for c in calls] == [obj('kid', 'xmlpp::Element')], 'scope', parse.file, parse.line, parse.q, 'elements within an element %s are not each read once' % name, 'scope:children:' + name, 'elements within %s' % name)
            after = s.vars.get((parse.tu, parse.params[state_param]['id']), ANY)
            if after == ANY:
                ctx.skip('scope', 'after %s' % name)
            else:
                ctx.expect(after == seq(before), 'scope', parse.file, parse.line, parse.q, 'what an element %s gives is still in force after it' % name if after != seq() else 'what an element outside %s gives is not in force after it' % name, 'scope:after:' + name, 'after %s' % name)
            if name == 'Text' and contents == want and all(c[2][0] == 'const' for c in seen):
                ctx.expect([c[2][1] for c in seen] == [0, 0, 2.5, 0], 'scope', parse.file, parse.line, parse.q, 'a space of 2.5 before the third of four contents is given as %s' % [c[2][1] for c in seen], 'scope:space', 'space between contents')
        ctx.attempt('scope', name, go)

    # editions
    editions = dict((c[0], ('enum', 'dcp::SubtitleStandard::' + c[0], c[1])) for c in prog.enum('dcp::SubtitleStandard')['c'])
    base, box = find('dcp::uses_baseline'), find('dcp::uses_bounding_box')
    expected = {'INTEROP': 'baseline', 'SMPTE_2010': 'box', 'SMPTE_2007': 'box', 'SMPTE_2014': 'baseline'}
    for n in sorted(editions):
        def measure():
            a, b = run(base, World(), None, [editions[n]])[0], run(box, World(), None, [editions[n]])[0]
            if a[0] != 'const' or b[0] != 'const':
                raise shape.Unknown('what is used')
            ctx.expect(bool(a[1]) != bool(b[1]), 'edition', base.file, base.line, base.q, 'texts of %s are measured from %s' % (n, 'both baseline and bounding box' if a[1] else 'neither baseline nor bounding box'), 'edition:one:' + n, '%s is measured from one thing' % n)
            if n in expected:
                f = base if bool(a[1]) != (expected[n] == 'baseline') else box
                ctx.expect(bool(a[1]) == (expected[n] == 'baseline') and bool(b[1]) == (expected[n] == 'box'), 'edition', f.file, f.line, f.q, 'texts of %s are not measured from the %s' % (n, expected[n]), 'edition:which:' + n, '%s is measured from the %s' % (n, expected[n]))
        ctx.attempt('edition', n, measure)
    written = {}
    name = find('dcp::SMPTETextAsset::schema_namespace')
    for n in sorted(editions):
        if n == 'INTEROP':
            continue

        def ns():
            v, s, e = run(name, World(fields={('asset', '_subtitle_standard'): editions[n]}), asset)
            if s is None:
                ctx.violation('edition', name.file, name.line, name.q, 'texts of %s cannot be written' % n, 'edition:never:' + n)
                return
            if v[0] != 'const':
                raise shape.Unknown('namespace')
            written[n] = v[1]
            clash = [k for k, u in written.items() if u == v[1] and k != n]
            ctx.expect(not clash, 'edition', name.file, name.line, name.q, 'texts of %s and %s are written with the same namespace' % (n, (clash or [''])[0]), 'edition:same:' + n, 'namespace of %s' % n)
        ctx.attempt('edition', 'namespace of ' + n, ns)
    reader = find('dcp::SMPTETextAsset::parse_xml')
    for n in sorted(written):
        def back():
            w = World(attrs={('xml', 'namespace_uri'): const(written[n])}, fresh=names)
            v, s, e = run(reader, w, asset, [obj('xml', 'cxml::Document')] + [ANY] * (len(reader.params) - 1))
            if s is None:
                ctx.violation('edition', reader.file, reader.line, reader.q, 'texts that are written as %s are refused' % n, 'edition:refused:' + n)
                return
            got = s.heap.get(('asset', '_subtitle_standard'), ANY)
            if got[0] != 'enum':
                raise shape.Unknown('edition that is read')
            ctx.expect(got[2] == editions[n][2], 'edition', reader.file, reader.line, reader.q, 'texts that are written as %s are read as %s' % (n, got[1].split('::')[-1]), 'edition:back:' + n, 'reading of %s' % n)
        ctx.attempt('edition', 'reading of ' + n, back)
