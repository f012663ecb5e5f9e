"""C18: a document of texts that is written has each text, in its order, with the properties that it was given"""

import re

import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The writing of texts is interpreted abstractly, from the sorted list to the elements of the document, for one, two and three texts and images which differ in one property at a time, in both standards. '
    'The elements that come of it are then read as the standards say: a text has the times of the Subtitle around it, the place of the Text around it, and each feature of its font from the nearest Font around it. '
    'Every text must be there once, in its place, with every property it was given.')

FONT = 'dcp::order::Font'
EMPTY = ('map', ())
# what is in the document if a property is not
BOTH = {'h_align': 'dcp::HAlign::CENTER', 'h_position': 0, 'z_position': 0, 'direction': 'dcp::Direction::LTR', 'variable_z_positions': (), 'space_before': 0}


class Engine(shape.Shape):
    def s_rfor(self, s, st, o):
        r = self.ev(s['r'], st)
        if r[0] == 'map':
            r = seq(*[('pair', const(k), v) for k, v in r[1]])
        return shape.Shape.s_rfor(self, dict(s, r={'e': 'value', 'v': r}), st, o)

    def e_mem(self, x, st):
        b = self.ev(x['b'], st) if isinstance(x.get('b'), dict) else self.e_this(x, st)
        if b[0] == 'map':
            return b
        return shape.Shape.e_mem(self, x, st)

    def ev(self, x, st):
        if isinstance(x, dict) and 'cf' in x and x.get('e') in ('var', 'float', 'mem'):
            return const(float(x['cf']))
        return shape.Shape.ev(self, x, st)

    def e_new(self, x, st):
        return self.ev(x['x'], st) if isinstance(x.get('x'), dict) else ANY

    def compare(self, op, v, w):
        if op in ('==', '!=') and v[0] == w[0] and v[0] in ('seq', 'map'):
            return const((v == w) == (op == '=='))
        if v[0] == 'const' and w[0] == 'const' and op == '+' and isinstance(v[1], str) and isinstance(w[1], str):
            return const(v[1] + w[1])
        if v[0] == 'const' and w[0] == 'const' and op == '/' and isinstance(v[1], (int, float)) and isinstance(w[1], float) and w[1]:
            return const(v[1] / w[1])
        return shape.Shape.compare(self, op, v, w)


class World:
    def __init__(self, prog, props):
        self.prog = prog
        # of texts: name -> property -> value
        self.props = props
        self.count = 0
        self.depth = 0

    def field(self, e, st, o, name):
        if o is None:
            return None
        if o[1] in self.props:
            return self.props[o[1]].get(name.lstrip('_'))
        return None

    def fresh(self, cls):
        self.count += 1
        return obj('%s%d' % (cls.split('::')[-1], self.count), cls)

    def make(self, e, st, cls, args):
        fs = [f for f in self.prog.get(cls + '::(ctor)') if f.body is not None and len(f.params) == len(args)]
        if len(fs) != 1:
            raise shape.Unknown('making of %s' % cls)
        o = self.fresh(cls)
        st.heap[(o[1], 'children')] = seq()
        st.heap[(o[1], 'font')] = EMPTY
        e.inline(fs[0], o, args, st)
        return o

    def again(self, e, st, f, o, args):
        """a call which may be of a function that is being interpreted"""
        stack, vars = e.stack, dict(st.vars)
        if self.depth > 30:
            raise shape.Unknown('recursion')
        e.stack = []
        self.depth += 1
        try:
            v = e.inline(f, o, args, st)
        finally:
            e.stack = stack
            self.depth -= 1
        st.vars = vars
        return v

    def call(self, e, st, x, o, args):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        cls = x.get('cls') or ''
        every = ([o] if o is not None else []) + list(args)
        if x.get('e') == 'ctor':
            if cls == FONT:
                if not args:
                    return EMPTY
                if len(args) == 1 and args[0][0] == 'map':
                    return args[0]
                f = self.prog.functions.get(x.get('fn'))
                if f is None or f.body is None:
                    raise shape.Unknown('making of a font')
                o = self.fresh(FONT)
                st.heap[(o[1], '_values')] = EMPTY
                self.again(e, st, f, o, args)
                return st.heap[(o[1], '_values')]
            if cls == 'std::map':
                return args[0] if args and args[0][0] == 'map' else (EMPTY if not args else ANY)
            if cls.startswith('std::pair') and len(args) == 2:
                return ('pair',) + tuple(args)
            if cls.startswith('std::pair') and len(args) == 1 and args[0][0] == 'pair':
                return args[0]
            if args and args[0][0] == 'const' and ('format_string' in cls or 'ustring' in cls):
                return args[0]
            if cls == 'dcp::Time' and not args:
                return const('0')
            if cls == 'dcp::Time' and len(args) == 1:
                return args[0]
            if cls == 'dcp::order::Context' and not args:
                return self.fresh(cls)
            if cls.startswith('dcp::order::') and cls != FONT and args and not (len(args) == 1 and args[0][0] == 'obj' and args[0][2] == cls):
                return self.make(e, st, cls, args)
            if cls == 'dcp::LoadVariableZ' and len(args) == 2:
                o = self.fresh(cls)
                st.heap[(o[1], '_id')], st.heap[(o[1], '_positions')] = args
                return o
            if cls == 'std::vector' and len(args) >= 1 and args[0][0] == 'const' and isinstance(args[0][1], tuple):
                return args[0]
            return None
        if m in ('make_shared', 'make_unique') and q.startswith('std::'):
            t = re.match(r'std::(?:make_shared|make_unique)<([\w:]+)', x.get('fn') or '')
            if t is None or not t.group(1).startswith('dcp::order::'):
                raise shape.Unknown('making of something')
            return self.make(e, st, t.group(1), args)
        f = self.prog.functions.get(x.get('fn'))
        # fonts are values
        if o is not None and o[0] == 'map' and f is not None and f.q.startswith(FONT + '::'):
            if op == '=':
                e.store(x['o'], args[0], st)
                return args[0]
            if f.body is None:
                raise shape.Unknown('part of a font')
            t = self.fresh(FONT)
            st.heap[(t[1], '_values')] = o
            v = self.again(e, st, f, t, args)
            n = st.heap[(t[1], '_values')]
            if n != o:
                e.store(x['o'], n, st)
            return v
        if o is not None and o[0] == 'map' and q.startswith('std::'):
            d = dict(o[1])
            if op == '=' and args[0][0] == 'map':
                e.store(x['o'], args[0], st)
                return args[0]
            if m == 'empty':
                return const(not d)
            if m == 'size':
                return const(len(d))
            if m == 'clear':
                e.store(x['o'], EMPTY, st)
                return ANY
            if m in ('begin', 'cbegin', 'end', 'cend'):
                s = seq(*[('pair', const(k), v) for k, v in o[1]])
                return ('iter', s, 0 if 'begin' in m else len(s) - 1)
            if m in ('find', 'count', 'at', 'erase', 'contains') and args and args[0][0] == 'const':
                k = args[0][1]
                if m == 'find':
                    s = seq(*[('pair', const(a), v) for a, v in o[1]])
                    return ('iter', s, list(d).index(k) if k in d else len(d))
                if m in ('count', 'contains'):
                    return const(int(k in d))
                if m == 'at':
                    return d.get(k, ANY)
                d.pop(k, None)
                e.store(x['o'], ('map', tuple(sorted(d.items()))), st)
                return ANY
            if m in ('insert', 'emplace'):
                a = args[0] if len(args) == 1 else (('pair',) + tuple(args) if len(args) == 2 else ANY)
                if a[0] == 'pair' and a[1][0] == 'const':
                    d.setdefault(a[1][1], a[2])
                    e.store(x['o'], ('map', tuple(sorted(d.items()))), st)
                    return ANY
            if op == '[]' and args[0][0] == 'const':
                return d.get(args[0][1], const(''))
            if op not in ('==', '!='):
                raise shape.Unknown('%s of a map' % m)
        if op == '=' and len(every) == 2:
            # an element of a map
            t = shape.strip(x['o'] if isinstance(x.get('o'), dict) else x['a'][0])
            if isinstance(t, dict) and t.get('e') == 'call' and t.get('op') == '[]':
                b = t['o'] if isinstance(t.get('o'), dict) else t['a'][0]
                k = t['a'][0] if isinstance(t.get('o'), dict) else t['a'][1]
                d, k = e.ev(b, st), e.ev(k, st)
                if d[0] != 'map' or k[0] != 'const':
                    raise shape.Unknown('part of a map')
                d = dict(d[1])
                d[k[1]] = every[1]
                e.store(b, ('map', tuple(sorted(d.items()))), st)
                return every[1]
        # recursion
        if f is not None and f.body is not None and any(g is f for g, _ in e.stack):
            return self.again(e, st, f, o, args)
        if m == 'write_xml' and f is not None and f.body is not None and o is not None and o[0] == 'obj':
            return self.again(e, st, f, o, args)
        if m == 'as_xml' and o is not None and o[0] == 'obj' and f is not None:
            if o[2] == 'dcp::LoadVariableZ':
                st.heap[(args[0][1], '@ID')] = st.heap[(o[1], '_id')]
                st.heap[(args[0][1], 'kids')] = seq(st.heap[(o[1], '_positions')])
                return ANY
            g = e.virtual(f, o[2]) or f
            if g.body is None:
                raise shape.Unknown('no body of %s' % g.q)
            return self.again(e, st, g, o, args)
        # texts
        if o is not None and o[0] == 'obj' and o[1] in self.props and m in self.props[o[1]]:
            return self.props[o[1]][m]
        if o is not None and o[0] == 'obj' and o[2] == 'dcp::LoadVariableZ' and m in ('id', 'positions'):
            return st.heap[(o[1], '_' + m)]
        if m == 'to_argb_string' and o is not None and o[0] == 'const':
            return o
        if m in ('rebase', 'as_string', 'as_editable_units_ceil') and len(args) == 1 and args[0][0] in ('const', 'enum') and o is not None and o[0] == 'const':
            # which time, and how it is given
            return const('%s %s %s' % (o[1], m, str(args[0][1]).split('::')[-1]))
        if m in ('rebase', 'as_string', 'as_editable_units_ceil', 'as_editable_units_floor', 'as_seconds', 'to_argb_string'):
            raise shape.Unknown('%s of something' % m)
        if q in ('dcp::effect_to_string', 'dcp::halign_to_string', 'dcp::valign_to_string', 'dcp::direction_to_string') and args:
            if args[0][0] != 'enum':
                raise shape.Unknown('%s of something' % m)
            return const(args[0][1])
        if q.split('::')[-1] in ('fabs', 'abs', 'fabsf') and len(args) == 1:
            return const(abs(args[0][1])) if args[0][0] == 'const' and isinstance(args[0][1], (int, float)) else ANY
        # the document
        if q.split('::')[-1] in ('add_child', 'add_child_element') and every and every[0][0] == 'obj' and every[0][2] == 'node' and len(every) >= 2 and every[1][0] == 'const':
            n = self.fresh('node')
            n = obj(n[1], 'node')
            st.heap[(n[1], 'name')] = every[1]
            st.heap[(n[1], 'kids')] = seq()
            k = st.heap.get((every[0][1], 'kids'), ANY)
            st.heap[(every[0][1], 'kids')] = k + (n,) if k[0] == 'seq' else ANY
            return n
        if m == 'set_attribute' and o is not None:
            if o[0] != 'obj' or args[0][0] != 'const':
                raise shape.Unknown('attribute not known')
            st.heap[(o[1], '@' + args[0][1])] = args[1]
            return ANY
        if m in ('add_child_text', 'set_child_text', 'set_first_child_text') and o is not None:
            if o[0] != 'obj':
                raise shape.Unknown('element not known')
            k = st.heap.get((o[1], 'kids'), ANY)
            st.heap[(o[1], 'kids')] = k + (args[0],) if k[0] == 'seq' else ANY
            return ANY
        # texts of numbers
        if q.startswith('fmt::') and q.split('::')[-1] == 'to_string' and args and args[0][0] == 'const':
            return const(args[0][1] if isinstance(args[0][1], str) else str(args[0][1]))
        if q.startswith('fmt::') and q.split('::')[-1] == 'format' and args:
            if not all(a[0] == 'const' for a in args):
                return ANY
            return const(args[0][1].format(*[a[1] for a in args[1:]]))
        # vectors and strings
        if o is not None and o[0] == 'const' and isinstance(o[1], tuple) and m in ('empty', 'size'):
            return const(not o[1] if m == 'empty' else len(o[1]))
        if o is not None and o[0] == 'const' and isinstance(o[1], str) and m == 'empty':
            return const(not o[1])
        if op == '+' and len(every) == 2 and all(a[0] == 'const' and isinstance(a[1], str) for a in every):
            return const(every[0][1] + every[1][1])
        if op == '+=' and len(every) == 2 and all(a[0] == 'const' and isinstance(a[1], str) for a in every):
            v = const(every[0][1] + every[1][1])
            e.store(x['o'] if isinstance(x.get('o'), dict) else x['a'][0], v, st)
            return v
        if q == 'std::distance' and len(args) == 2 and all(a[0] == 'iter' for a in args):
            return const(args[1][2] - args[0][2])
        if op == '-' and len(every) == 2 and every[0][0] == 'iter' and every[1][0] == 'iter':
            return const(every[0][2] - every[1][2])
        if q.split('::')[-1] == 'swap' and q.startswith('std::') and len(every) == 2:
            xs = ([x['o']] if isinstance(x.get('o'), dict) else []) + list(x['a'])
            e.store(xs[0], every[1], st)
            e.store(xs[1], every[0], st)
            return ANY
        if op in ('==', '!=') and len(every) == 2 and every[0][0] == 'iter' and every[1][0] == 'iter':
            return const((every[0][2] == every[1][2]) == (op == '=='))
        if op in ('==', '!=') and len(every) == 2 and (NULL in every) and all(a == NULL or a[0] == 'const' for a in every):
            return const((every[0] == every[1]) == (op == '=='))
        if q in ('std::stable_sort', 'std::sort'):
            # those given are in order as they are
            return ANY
        return None


class Bad(Exception):
    pass


def check(ctx, prog):
    ctx.rule('text', 'every text and image is written once, in its order', 20)
    ctx.rule('own', 'a text or image that is written has the times, place and font that it was given, whatever is beside it', 60)
    ctx.rule('annotation', 'a text that is written has the annotations that it was given, and no other', 6)

    fs = [f for f in prog.get('dcp::TextAsset::texts_as_xml') if f.body is not None]
    if not fs:
        raise AnalysisBroken('no function dcp::TextAsset::texts_as_xml')
    write = fs[0]

    def enum(t, n):
        return ('enum', '%s::%s' % (t, n), dict((c[0], c[1]) for c in prog.enum(t)['c'])[n])

    base = {
        'in': const('t1'), 'out': const('t2'), 'fade_up_time': const('t3'), 'fade_down_time': const('t4'),
        'h_position': const(0.25), 'h_align': enum('dcp::HAlign', 'LEFT'), 'v_position': const(0.5), 'v_align': enum('dcp::VAlign', 'TOP'), 'z_position': const(0.125), 'variable_z_positions': const(('z1',)),
    }
    image = dict(base, id=const('id'), png_image=const('png'))
    string = dict(base, font=const('font1'), italic=TRUE, bold=FALSE, underline=FALSE, colour=const('colour1'), size=const(40), aspect_adjust=const(1.5),
                  direction=enum('dcp::Direction', 'RTL'), effect=enum('dcp::Effect', 'BORDER'), effect_colour=const('colour2'), space_before=const(0.5), rubies=seq())
    other = {
        'in': const('t5'), 'out': const('t6'), 'fade_up_time': const('t7'), 'fade_down_time': const('t8'),
        'h_position': const(0.75), 'h_align': enum('dcp::HAlign', 'RIGHT'), 'v_position': const(0.875), 'v_align': enum('dcp::VAlign', 'BOTTOM'), 'z_position': const(0.375), 'variable_z_positions': const(('z2',)),
        'font': const('font2'), 'italic': FALSE, 'bold': TRUE, 'underline': TRUE, 'colour': const('colour3'), 'size': const(42), 'aspect_adjust': const(2.5),
        'direction': enum('dcp::Direction', 'TTB'), 'effect': enum('dcp::Effect', 'SHADOW'), 'effect_colour': const('colour4'), 'space_before': const(0.75), 'rubies': seq(obj('ruby2', 'dcp::Ruby')),
    }
    none = {
        'h_position': const(0), 'h_align': enum('dcp::HAlign', 'CENTER'), 'v_position': const(0), 'v_align': enum('dcp::VAlign', 'CENTER'), 'z_position': const(0), 'variable_z_positions': const(()),
        'font': NULL, 'direction': enum('dcp::Direction', 'LTR'), 'effect': enum('dcp::Effect', 'NONE'), 'space_before': const(0),
    }
    rubies = {}
    for i in (1, 2):
        rubies['ruby%d' % i] = {'base': const('base%d' % i), 'annotation': const('annotation%d' % i), 'size': const(0.25 * i), 'position': enum('dcp::RubyPosition', ('BEFORE', 'AFTER')[i - 1]),
                                'offset': const(0.375 * i), 'spacing': const(0.125 * i), 'aspect_adjust': const(1.5 * i)}

    def run(texts, standard):
        props = dict(rubies)
        objs = []
        for i, t in enumerate(texts):
            n = 'text%d' % i
            props[n] = dict(t, text=const(n))
            props[n].pop('kind', None)
            if 'png_image' in t:
                props[n]['id'] = const(n)
            objs.append(obj(n, 'dcp::TextImage' if 'png_image' in t else 'dcp::TextString'))
        w = World(prog, props)
        e = Engine(prog, w)
        e.strict = True
        this = obj('asset', 'dcp::TextAsset')
        heap = {('asset', '_texts'): seq(*objs), ('root', 'kids'): seq(), ('root', 'name'): const('root')}
        args = {'xml_root': obj('root', 'node'), 'time_code_rate': const(24), 'standard': enum('dcp::Standard', standard)}
        if len(write.params) != 3:
            raise shape.Unknown('parameters')
        try:
            rs = e.call(write, this, [args['xml_root'], args['time_code_rate'], args['standard']], shape.State({}, heap, frozenset()))
        finally:
            if e.wrong:
                g, x, why = e.wrong[0]
                ctx.violation('own', g.file, x.get('l'), g.q, '%s when texts are written' % why, 'own:wrong:%s' % g.q)
        ctx.functions(e.functions)
        if e.branched or len(rs) != 1:
            raise shape.Unknown('a decision is not known')
        return rs[0][1].heap, props

    def read(h, standard):
        """The texts in a document, in order: [(text, properties)]"""
        out = []
        smpte = standard == 'SMPTE'

        def attribute(n, a):
            return h.get((n, '@' + a), NULL)

        def time(n, a):
            v = attribute(n, a)
            if v[0] != 'const':
                return v
            t, _, how = v[1].partition(' ')
            ok = ['rebase 24 as_string ' + standard]
            if a.startswith('Fade') and not smpte:
                ok += ['as_editable_units_ceil 24', 'rebase 24 as_editable_units_ceil 24']
            return const(t) if how in ok else const('%s, with %s' % (t, how))

        def walk(n, fonts, subtitle, text, around):
            kids = h.get((n, 'kids'), ANY)
            if kids[0] != 'seq':
                raise shape.Unknown('contents of an element')
            name = h.get((n, 'name'), ANY)
            if name[0] != 'const':
                raise shape.Unknown('name of an element')
            name = name[1]
            if name == 'Font':
                fonts = dict(fonts)
                fonts.update((k[1][1:], v) for k, v in h.items() if k[0] == n and str(k[1]).startswith('@'))
            elif name == 'Subtitle':
                subtitle = n
            elif name in ('Text', 'Image'):
                text = n
            space = NULL
            for k in kids[1:]:
                if k[0] == 'obj':
                    kn = h.get((k[1], 'name'), ANY)
                    if kn == const('Space'):
                        space = attribute(k[1], 'Size')
                    elif kn in (const('LoadVariableZ'), const('Ruby')):
                        continue
                    elif kn in (const('Font'), const('Subtitle'), const('Text'), const('Image')):
                        walk(k[1], fonts, subtitle, text, around)
                    elif kn[0] == 'const':
                        raise Bad('there is an element %s, which no reader knows' % kn[1])
                    else:
                        raise shape.Unknown('element not known')
                elif k[0] == 'const' and name in ('Font', 'Text', 'Image'):
                    out.append((k[1], fonts, subtitle, text, space))
                    space = NULL
                else:
                    raise shape.Unknown('contents of %s' % name)
        walk('root', {}, None, None, None)

        def node(n, *ns):
            for a in ns:
                v = attribute(n, a)
                if v != NULL:
                    return v
            return NULL

        def number(v, scale=1, suffix=''):
            if v == NULL:
                return 0
            if v[0] != 'const':
                raise shape.Unknown('value not known')
            s = v[1]
            if suffix and s.endswith(suffix):
                s = s[:-len(suffix)]
            return float(s) / scale

        def ruby(n):
            r = {}
            for k in h[(n, 'kids')][1:]:
                t = h[(k[1], 'kids')]
                if h[(k[1], 'name')] == const('Rb'):
                    r['base'] = t[1]
                if h[(k[1], 'name')] == const('Rt'):
                    r['annotation'] = t[1]
                    for a, b in (('size', 'Size'), ('position', 'Position'), ('offset', 'Offset'), ('spacing', 'Spacing'), ('aspect_adjust', 'AspectAdjust')):
                        r[a] = attribute(k[1], b)
            return r

        result = []
        for text, fonts, subtitle, t, space in out:
            if subtitle is None or t is None:
                raise Bad('%s is not within a Subtitle and a Text' % text)
            c = (lambda s: s) if smpte else (lambda s: s.replace('align', 'Align').replace('position', 'Position'))
            p = {'in': time(subtitle, 'TimeIn'), 'out': time(subtitle, 'TimeOut'), 'fade_up_time': time(subtitle, 'FadeUpTime'), 'fade_down_time': time(subtitle, 'FadeDownTime')}
            p['h_align'] = attribute(t, c('Halign'))
            p['v_align'] = attribute(t, c('Valign'))
            p['h_position'] = number(attribute(t, c('Hposition')), 100)
            p['v_position'] = number(attribute(t, c('Vposition')), 100)
            d = attribute(t, 'Direction')
            if not smpte and d[0] == 'const' and d[1] not in ('horizontal', 'vertical'):
                raise Bad('%s has the direction %s, which only the other standard has' % (text, d[1].split('::')[-1]))
            if smpte:
                p['z_position'] = number(attribute(t, 'Zposition'), 100)
                p['direction'] = attribute(t, 'Direction')
            z = attribute(t, 'VariableZ')
            p['variable_z_positions'] = const(())
            if z != NULL:
                ids = [k for k in h[(subtitle, 'kids')][1:] if k[0] == 'obj' and h[(k[1], 'name')] == const('LoadVariableZ')]
                found = [h[(k[1], 'kids')][1] for k in ids if attribute(k[1], 'ID') == z]
                if not found:
                    raise Bad('%s refers to positions which are not within its Subtitle' % text)
                p['variable_z_positions'] = found[0]
            p['font'] = fonts.get('ID' if smpte else 'Id', NULL)
            p['italic'] = fonts.get('Italic', NULL)
            p['colour'] = fonts.get('Color', NULL)
            p['size'] = fonts.get('Size', NULL)
            p['aspect_adjust'] = number(fonts.get('AspectAdjust', NULL))
            p['effect'] = fonts.get('Effect', NULL)
            p['effect_colour'] = fonts.get('EffectColor', NULL)
            p['underline'] = fonts.get('Underline' if smpte else 'Underlined', NULL)
            p['bold'] = fonts.get('Weight', NULL)
            p['space_before'] = number(space, 1, 'em')
            p['rubies'] = [ruby(k[1]) for k in h[(t, 'kids')][1:] if k[0] == 'obj' and h[(k[1], 'name')] == const('Ruby')]
            result.append((text, p, h[(t, 'name')]))
        return result

    def same(name, got, want):
        """-> what is wrong, or None"""
        if name in ('italic', 'underline', 'bold'):
            words = ('bold', 'normal') if name == 'bold' else ('yes', 'no')
            w = words[0 if want == TRUE else 1]
            return None if got == const(w) else 'is %s rather than %s' % (got[1] if got[0] == 'const' else 'not given', w)
        if isinstance(got, float) or isinstance(got, int):
            # some are written to one or two figures
            return None if abs(got - want[1]) < 0.006 else 'is %s rather than %s' % (got, want[1])
        if name == 'size':
            want = const(str(want[1]))
        if want[0] == 'enum':
            if got == NULL and BOTH.get(name) == want[1]:
                return None
            want = const(want[1])
        if got == ANY or got[0] not in ('const', 'null'):
            raise shape.Unknown('%s is not known' % name)
        return None if got == want else 'is %s rather than %s' % (got[1] if got[0] == 'const' else 'not given', want[1] if want[0] == 'const' else 'not given')

    font = ('font', 'italic', 'bold', 'underline', 'colour', 'size', 'aspect_adjust', 'effect', 'effect_colour')

    def one(texts, standard, where):
        def go():
            h, props = run(texts, standard)

            def say(ok, rule, bad, what):
                ctx.expect(ok, rule, write.file, write.line, write.q, '%s: %s' % (where, bad), '%s:%s:%s' % (rule, where, what), '%s: %s' % (where, what))
            try:
                got = read(h, standard)
            except Bad as b:
                say(False, 'own', str(b), 'place')
                return
            clean = lambda t: t.replace('urn:uuid:', '').replace('.png', '')
            names = ['text%d' % i for i in range(len(texts))]
            order = [clean(t) for t, _, _ in got]
            say(order == names, 'text', 'what is written is %s rather than %s' % (', '.join(order) or 'nothing', ', '.join(names)), 'texts')
            if order != names:
                return
            for t, p, kind in got:
                n = clean(t)
                want = props[n]
                picture = 'png_image' in want
                say(kind == const('Image' if picture else 'Text'), 'text', '%s is written in the element %s' % (n, kind[1]), 'element of ' + n)
                for k in sorted(p):
                    if picture and (k in font or k in ('direction', 'space_before', 'rubies')):
                        continue
                    if k == 'rubies':
                        bad = None
                        ws = [rubies[r[1]] for r in want['rubies'][1:]]
                        if len(ws) != len(p[k]):
                            bad = 'there are %d annotations rather than %d' % (len(p[k]), len(ws))
                        else:
                            for r, w in zip(p[k], ws):
                                for a in w:
                                    g = r.get(a, NULL)
                                    if a == 'position':
                                        ok = g == const('before' if w[a][1].endswith('BEFORE') else 'after')
                                    elif isinstance(w[a][1], str):
                                        ok = g == w[a]
                                    else:
                                        ok = g[0] == 'const' and abs(float(g[1]) - w[a][1]) < 1e-4
                                    if not ok and bad is None:
                                        bad = 'the %s of an annotation is %s' % (a.replace('_', ' '), g[1] if g[0] == 'const' else 'not given')
                        say(bad is None, 'annotation', 'of %s %s' % (n, bad), 'annotations of ' + n)
                        continue
                    bad = same(k, p[k], want[k])
                    say(bad is None, 'own', 'the %s of %s %s' % (k.replace('_', ' '), n, bad), '%s of %s' % (k, n))
        ctx.attempt('own', where, go)

    for standard in ('SMPTE', 'INTEROP'):
        with_ruby = dict(string, rubies=seq(obj('ruby1', 'dcp::Ruby')))
        one([string], standard, '%s, one text' % standard)
        one([with_ruby], standard, '%s, one text with an annotation' % standard)
        one([string, string], standard, '%s, two alike' % standard)
        one([dict(string, **none)], standard, '%s, one text with nothing set' % standard)
        one([image], standard, '%s, one image' % standard)
        one([string, image, string], standard, '%s, an image between texts' % standard)
        one([image, dict(image, h_position=const(0.75)), string], standard, '%s, images and text' % standard)
        for k in sorted(string):
            words = k.replace('_', ' ')
            v = dict(string, **{k: other[k]})
            one([string, v], standard, '%s, two texts which differ in %s' % (standard, words))
            one([string, v, string], standard, '%s, a text between two which differ from it in %s' % (standard, words))
            if k in none:
                u = dict(string, **{k: none[k]})
                one([u, string], standard, '%s, a text with and one without %s' % (standard, words))
                one([string, u], standard, '%s, a text without %s after one with it' % (standard, words))
            if k in image:
                one([image, dict(image, **{k: other[k]})], standard, '%s, two images which differ in %s' % (standard, words))
        one([with_ruby, string], standard, '%s, a text with and one without an annotation' % standard)
        one([with_ruby, dict(string, rubies=other['rubies'])], standard, '%s, two texts with different annotations' % standard)
