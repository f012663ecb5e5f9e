"""C01: what is written as XML is what is read from it"""

import ir
from cfg import Graph, show
from loops import LoopEval

EXPLANATION = (
    'For every class with a writer and a reader of XML, both are evaluated to the set of pairs (part of the object, place in the document: path of elements and attribute); '
    'the pairs of the two must agree.')

THIS = ('deref', ('this',))


class Unknown(Exception):
    pass


def xml(q):
    return q.startswith(('cxml::', 'xmlpp::', 'Glib::'))


class XmlEval(LoopEval):
    """Evaluation in which an element is known by the calls that make it, not by what is put into it"""

    def harmless(self, n):
        return n.k == 'call' and (xml(n.q) or self.about_xml(n))

    def about_xml(self, n):
        return any('xmlpp::' in t or 'cxml::' in t for t in self.g.prog.param_types(n.q))

    def mutated(self, x, n, env):
        if xml(n.q):
            return x
        return super().mutated(x, n, env)

    def outvalue(self, n, i, t, env):
        if xml(n.q) or self.about_xml(n):
            return self.ev(t if t[0] != 'bin' else t[2], env)
        return super().outvalue(n, i, t, env)


LEAVE = ('exceptions.cc', 'compose.hpp', 'exceptions.h', 'raw_convert.h', 'local_time.cc', 'util.cc', 'verify.cc', 'verify.h', 'file.cc', 'filesystem.cc', 'certificate.cc', 'certificate_chain.cc', 'language_tag.cc', 'key.cc')


def policy_for(prog, cls):
    family = set()
    todo = [cls]
    while todo:
        c = todo.pop()
        if c in family:
            continue
        family.add(c)
        for x in (prog.records.get(c) or {}).get('bases', ()):
            todo.append(x.get('q') if isinstance(x, dict) else x)

    own = {p.cls for p in PAIRS}

    def policy(f, caller, depth):
        if not f.file.startswith('src/') or depth > 6 or f.file.endswith(LEAVE):
            return False
        if f.cls in own and f.cls not in family:
            return False
        types = [f.type(p['t']) for p in f.params]
        if any('xmlpp::' in t or 'cxml::' in t for t in types):
            return True
        if f.q.endswith('(ctor)'):
            return True
        return f.cls is not None and (not f.params or f.cls in family)
    return policy


def deep(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from deep(i)


def bare(name):
    """Name of an element without the prefix of its namespace"""
    return name.split(':')[-1]


def strings(t):
    while t[0] == 'cast' or t[0] == 'obj' and len(t) >= 3 and ('ustring' in t[1] or 'basic_string' in t[1]):
        t = t[2]
    return t


def name_of(t):
    t = strings(t)
    if t[0] == 'str':
        return bare(t[1])
    if t[0] == 'call' and t[1] in ('std::operator+', 'operator+') and len(t[3]) == 2:
        x = strings(t[3][1])
        if x[0] == 'str':
            return bare(x[1])
    return '?'


def strip(t):
    while t[0] in ('deref', 'addr', 'cast', 'opt', 'some', 'dyn') or t[0] == 'call' and t[1] in ('std::move', 'std::__shared_ptr::get', 'std::shared_ptr::get', 'boost::optional::get', 'boost::get') or t[0] == 'mut' and xml(t[1]):
        if t[0] == 'call':
            t = t[2] if t[2] is not None else t[3][0]
        elif t[0] == 'cast':
            t = t[2]
        elif t[0] == 'mut':
            t = t[2]
        elif t[0] == 'dyn':
            t = t[-1]
        else:
            t = t[1]
    return t


# function that tells the path of the element which a writer returns, from the one that it was given
RETURNED = None


def written_path(t):
    """Elements from the root (or the element that the writer was given) to the one that a term stands for"""
    t = strip(t)
    if t[0] == 'call':
        n = t[1].split('::')[-1]
        if t[1] == 'cxml::add_child':
            p = written_path(t[3][0])
            return None if p is None else p + (name_of(t[3][1]),)
        if n in ('add_child', 'add_child_element') and t[2] is not None:
            p = written_path(t[2])
            return None if p is None else p + (name_of(t[3][0]),)
        if n == 'create_root_node' or n == 'get_root_node':
            return ()
        if t[1].startswith('dcp::') and t[3]:
            # the element that another writer gives back
            if RETURNED is not None:
                i, r = RETURNED(t[1])
                p = written_path(t[3][i]) if i is not None and i < len(t[3]) else None
                return None if r is None or p is None else p + r
    if t[0] == 'var':
        return ()
    return None


NODE = ('node_child', 'optional_node_child')
LEAF = ('string_child', 'optional_string_child', 'number_child', 'optional_number_child', 'bool_child', 'optional_bool_child', 'string_attribute', 'optional_string_attribute',
        'number_attribute', 'optional_number_attribute', 'bool_attribute', 'optional_bool_attribute', 'content', 'name', 'is_text')


def read_path(t):
    t = strip(t)
    if t[0] == 'call' and t[1].startswith('cxml::'):
        n = t[1].split('::')[-1]
        if n in NODE:
            p = read_path(t[2])
            return None if p is None else p + (name_of(t[3][0]),)
    if t[0] in ('elem', 'at', 'idx'):
        x = strip(t[1])
        if x[0] == 'call' and x[1].split('::')[-1] == 'node_children':
            p = read_path(x[2])
            return None if p is None else p + ((name_of(x[3][0]) if x[3] else '*'),)
        return None
    if t[0] == 'call' and t[1].split('::')[-1] in ('front', 'back') and t[2] is not None:
        return read_path(('elem', t[2]))
    if t[0] == 'obj' and 'cxml::Document' in t[1]:
        return ()
    if t[0] == 'call' and t[1].endswith('make_shared'):
        return ()
    if t[0] == 'var':
        return ()
    return None


def node_term(t):
    """Whether a term stands for a node that is read"""
    t = strip(t)
    return t[0] == 'call' and t[1].startswith('cxml::') and t[1].split('::')[-1] in NODE or t[0] in ('elem', 'at', 'idx') and strip(t[1])[0] == 'call' and strip(t[1])[1].split('::')[-1] == 'node_children'


def leaf(t):
    """(place, how) of a term that reads from a node"""
    if t[0] != 'call' or not t[1].startswith('cxml::') or t[2] is None:
        return None
    n = t[1].split('::')[-1]
    if n not in LEAF:
        return None
    p = read_path(t[2])
    if p is None:
        return None
    if n == 'content':
        return p, n
    if n in ('name', 'is_text'):
        return p + ('#name',), n
    if 'attribute' in n:
        return p + ('@' + name_of(t[3][0]),), n
    return p + (name_of(t[3][0]),), n


def part(t):
    """Name of the part of the object that a term stands for"""
    if t == THIS or t == ('this',):
        return ''
    if t[0] == 'mem':
        b = part(t[1])
        if b is None or t[2] in ('second', 'first'):
            return b
        return b + '.' + t[2]
    if t[0] in ('elem', 'at', 'idx'):
        b = part(t[1])
        return None if b is None else b + '[]'
    if t[0] in ('deref', 'cast', 'addr', 'opt', 'some', 'dyn'):
        return part(strip(t))
    if t[0] == 'sub':
        b = part(t[1])
        return None if b is None else b + t[2]
    return None


def parts(t, out=None):
    """The parts of the object that a value is made from"""
    if out is None:
        out = set()
    if not isinstance(t, tuple):
        return out
    if t and isinstance(t[0], str):
        p = part(t)
        if p:
            out.add(p)
            return out
    for i in t:
        if isinstance(i, tuple):
            parts(i, out)
    return out


def written(prog, f):
    """{(place, part)}: what a writer puts where; and {place: nodes}"""
    g = Graph(prog, f, policy_for(prog, f.cls))
    g.prog = prog
    e = XmlEval(g, None, {}).run()
    if not e.complete:
        raise Unknown('not evaluated')
    out = []
    e.made = {}
    for n, env in e.calls:
        if n.q == 'cxml::add_child' or n.q.startswith('xmlpp::') and n.q.split('::')[-1] in ('add_child', 'add_child_element'):
            par, names = (n.args[0], n.args[1]) if n.q == 'cxml::add_child' else (n.obj, n.args[0])
            for p in e.ev(par, env):
                p = written_path(p)
                for name in e.ev(names, env):
                    if p is not None:
                        e.made.setdefault(p + (name_of(name),), []).append(n)
        if n.q == 'cxml::add_text_child':
            for p in e.ev(n.args[0], env):
                p = written_path(p)
                for v in e.ev(n.args[2], env):
                    for name in e.ev(n.args[1], env):
                        out.append((None if p is None else p + (name_of(name),), v, n))
        elif n.q in ('xmlpp::Element::add_child_text', 'xmlpp::Element::set_child_text', 'xmlpp::Element::set_first_child_text'):
            for p in e.ev(n.obj, env):
                for v in e.ev(n.args[0], env):
                    out.append((written_path(p), v, n))
        elif n.q == 'xmlpp::Element::set_attribute':
            for p in e.ev(n.obj, env):
                p = written_path(p)
                for v in e.ev(n.args[1], env):
                    for name in e.ev(n.args[0], env):
                        out.append((None if p is None else p + ('@' + name_of(name),), v, n))
        elif n.obj is not None and n.q.startswith('dcp::'):
            # left to the writer of another class
            for a in [a for i, a in enumerate(n.args) if i in prog.elements(n.q)]:
                for x in e.ev(a, env):
                    p = written_path(x)
                    if p is not None and strip(x)[0] in ('var', 'call'):
                        nested = expand(prog, n.q)
                        for o in e.ev(n.obj, env):
                            if nested is None:
                                out.append((p, o, n))
                            else:
                                for place, inner in nested:
                                    out.append((p + place, ('sub', o, inner), n))
    return g, e, out


_expanded = {}


def expand(prog, q):
    """[(place, part)] of what another writer writes"""
    if q not in _expanded:
        _expanded[q] = None
        fs = [f for f in prog.get(q) if f.body is not None]
        if len(fs) == 1:
            _, _, out = written(prog, fs[0])
            _expanded[q] = sorted({(place, x) for place, v, n in out if place is not None for x in parts(v)})
    return _expanded[q]


_read = {}


class Reading:
    def __init__(self, prog, f):
        self.prog = prog
        self.g = Graph(prog, f, policy_for(prog, f.cls))
        self.g.prog = prog
        self.e = XmlEval(self.g, None, {}).run()
        if not self.e.complete:
            raise Unknown('not evaluated')
        self.out = []
        seen = set()
        for k, env in self.e.states.items():
            if k[0] == self.g.exit.id:
                for place, vals in env.items():
                    p = part(place) if isinstance(place, tuple) else None
                    if p:
                        for v in vals:
                            self.value(p, v, env, 0)
        for n in self.g.nodes:
            if n.k == 'assign' and part(n.lhs):
                for k, env in self.e.states.items():
                    if k[0] == n.id:
                        for v in self.e.ev(n.rhs, env):
                            self.value(part(n.lhs), v, env, 0)
        # places that decide something
        self.asked = set()
        for n in self.g.nodes:
            if n.k == 'br':
                for k, env in self.e.states.items():
                    if k[0] == n.id:
                        for v in self.e.ev(n.cond, env):
                            for t in deep(v):
                                l = leaf(t)
                                if l is not None:
                                    self.asked.add(l[0])
        self.assigned = {part(n.lhs) for n in self.g.nodes if n.k == 'assign' and part(n.lhs)}
        for n, base, bases, idx, vals in self.e.stores:
            if idx != 'append' and part(base):
                for v in set(vals) | set(idx or ()):
                    self.value(part(base) + '[]', v, {}, 0)
        for n, env in self.e.calls:
            if n.obj is not None and n.q.split('::')[-1] in ('push_back', 'emplace_back', 'insert', 'add'):
                p = part(n.obj)
                if p:
                    for a in n.args:
                        for v in self.e.ev(a, env):
                            self.value(p + '[]', v, env, 0)

    def value(self, p, v, env, depth):
        if depth > 6:
            return
        for t in deep(v):
            l = leaf(t)
            if l is not None:
                self.out.append((p, l[0], l[1], v))
            if t[0] == 'obj' and 'dcp::' in t[1] or t[0] == 'call' and t[1].endswith('make_shared'):
                # left to the reader of another class
                for a in t[2:] if t[0] == 'obj' else t[3]:
                    if isinstance(a, tuple) and node_term(a):
                        self.nested(p, read_path(a), t[1] if t[0] == 'obj' else None, v)
        x = strip(v)
        while x[0] == 'obj' and len(x) == 3 and 'optional' in x[1]:
            x = strip(x[2])
        if node_term(x):
            self.nested(p, read_path(x), None, v)
        self.object(p, strip(v), env, depth)
        t = v
        while t[0] == 'mut':
            if t[1].split('::')[-1] in ('push_back', 'emplace_back', 'insert'):
                for a in t[3]:
                    if isinstance(a, tuple):
                        self.object(p + '[]', strip(a), env, depth)
            t = t[2]

    def nested(self, p, place, cls, v):
        if place is None:
            return
        if cls in {q.cls for q in PAIRS}:
            if cls not in _read:
                _read[cls] = None
                rs = [f for f in self.prog.get(cls + '::(ctor)') if f.body is not None and not f.d.get('special') and f.params and 'cxml::' in f.type(f.params[0]['t'])]
                if len(rs) == 1:
                    _read[cls] = Reading(self.prog, rs[0])
            if _read[cls] is not None:
                for q, x, how, w in _read[cls].out:
                    self.out.append((p + q, place + x, how, w))
                return
        self.out.append((p, place, 'node', v))

    def object(self, p, t, env, depth):
        """Parts of an object in a variable"""
        if t[0] != 'var':
            return
        for k, vals in env.items():
            if isinstance(k, tuple) and k[0] == 'mem' and k != t:
                s = sub(k, t)
                if s is not None:
                    for w in vals:
                        if w != k and t not in list(deep(w)):
                            self.value(p + s, w, env, depth + 1)


def sub(k, base):
    """Path of place k within base"""
    if k == base:
        return ''
    if k[0] == 'mem':
        s = sub(k[1], base)
        return None if s is None else s + '.' + k[2]
    if k[0] in ('elem', 'at', 'idx'):
        s = sub(k[1], base)
        return None if s is None else s + '[]'
    if k[0] in ('deref', 'cast'):
        return sub(k[-1], base)
    return None


def delegated(v, n):
    return n.q.startswith('dcp::') and v[0] != 'sub'


def avoidable(g, starts, targets):
    """Whether one can get from a start to the end, or to a start again, without passing a target"""
    ids = {n.id for n in targets}
    first = {n.id for n in starts}
    work = [x for n in starts for x, _ in n.succ]
    seen = set()
    while work:
        n = work.pop()
        if n.id in seen or n.id in ids:
            continue
        if n is g.exit or n.id in first:
            return True
        seen.add(n.id)
        work += [x for x, _ in n.succ]
    return False


def reaches(g, start, target, without):
    work = [start]
    seen = set()
    while work:
        n = work.pop()
        if n is without or n.id in seen:
            continue
        if n is target:
            return True
        seen.add(n.id)
        work += [x for x, _ in n.succ]
    return False


def insisting(reading):
    """Places that a reader insists on, if what they are in is there"""
    out = {}
    e, g = reading.e, reading.g
    brs = [n for n in g.nodes if n.k == 'br']
    for n, env in e.calls:
        m = n.q.split('::')[-1]
        if not n.q.startswith('cxml::') or m not in LEAF or m.startswith('optional') or m in ('content', 'name', 'is_text') or n.obj is None:
            continue
        places = set()
        for o in e.ev(n.obj, env):
            l = leaf(('call', n.q, o, tuple(next(iter(e.ev(a, env))) for a in n.args)))
            if l is None:
                places = set()
                break
            places.add(l[0])
        if len(places) != 1:
            continue
        conditional = False
        for b in brs:
            if not reaches(g, g.entry, n, b) and avoidable(g, [b], [n]):
                conds = {v for k, env2 in e.states.items() if k[0] == b.id for v in e.ev(b.cond, env2)}
                if not any(b.id in lp.ids for lp in e.loops.values()) and not all(any(node_term(t) for t in deep(v)) and not any(leaf(t) for t in deep(v)) for v in conds):
                    conditional = True
                if any(b.id in lp.ids for lp in e.loops.values()) and e.guard_of(b) is None and not all(any(node_term(t) for t in deep(v)) and not any(leaf(t) for t in deep(v)) for v in conds):
                    conditional = True
        if not conditional:
            out.setdefault(places.pop(), n)
    return out


# (class, writer, what the reader is given, {part of the object: reason why it is left to another pair or is not read}, where the object is within what is written)
class Pair:
    def __init__(self, cls, writer, given='cxml::', leave=None, within='', at=(), writer_cls=None):
        self.cls = cls
        self.writer = (writer_cls or cls) + '::' + writer
        self.given = given
        self.leave = leave or {}
        self.within = within
        self.at = at


D = 'dcp::'
PAIRS = [
    Pair('dcp::CPL', 'write_xml', 'path'),
    Pair('dcp::PKL', 'write_xml', 'path'),
    Pair('dcp::PKL::Asset', 'write_xml', 'cxml::', within='._assets[]', at=('AssetList', 'Asset'), writer_cls='dcp::PKL'),
    Pair('dcp::AssetMap', 'write_xml', 'path'),
    Pair('dcp::Rating', 'as_xml'),
    Pair('dcp::ContentVersion', 'as_xml', at=('ContentVersion',)),
    Pair('dcp::Luminance', 'as_xml', at=('Luminance',)),
    Pair('dcp::ExtensionMetadata', 'as_xml', at=('ExtensionMetadata',)),
    Pair('dcp::ExtensionMetadata::Property', 'as_xml'),
    Pair('dcp::MCASubDescriptor', 'as_xml', at=('?',)),
    Pair('dcp::Reel', 'write_to_cpl', leave={'._main': 'by the assets of the reel', '._closed': 'by the assets of the reel', '._atmos': 'by the assets of the reel'}, at=('Reel',)),
    Pair('dcp::ReelMonoPictureAsset', 'write_to_cpl', at=('?',), writer_cls='dcp::ReelPictureAsset'),
    Pair('dcp::ReelStereoPictureAsset', 'write_to_cpl', at=('?',), writer_cls='dcp::ReelPictureAsset'),
    Pair('dcp::ReelSoundAsset', 'write_to_cpl', at=('?',), writer_cls='dcp::ReelFileAsset'),
    Pair('dcp::ReelInteropTextAsset', 'write_to_cpl', at=('?',)),
    Pair('dcp::ReelSMPTETextAsset', 'write_to_cpl', at=('?',)),
    Pair('dcp::ReelMarkersAsset', 'write_to_cpl', at=('?',)),
    Pair('dcp::ReelAtmosAsset', 'write_to_cpl', at=('?',)),
] + [Pair('dcp::data::' + c, 'as_xml') for c in (
    'Signer', 'X509Data', 'Reference', 'SignedInfo', 'Signature', 'AuthenticatedPrivate', 'TypedKeyId', 'KeyIdList', 'AuthorizedDeviceInfo', 'X509IssuerSerial', 'Recipient',
    'KDMRequiredExtensions', 'RequiredExtensions', 'AuthenticatedPublic', 'EncryptedKDMData')]


# Places that follow from others, and are only there for other readers
DERIVED = {
    ('AssetMap', 'Length'): 'length of the file',
}


def related(p, q):
    return p == q or p.startswith(q + '.') or p.startswith(q + '[') or q.startswith(p + '.') or q.startswith(p + '[')


def place_name(p):
    return '/'.join(p) or 'the content of the element'


def within(a, b):
    """Whether a place is another, or (when one is left to another class) within it"""
    n = min(len(a), len(b))
    return match_(a[:n], b[:n])


def match_(a, b):
    return len(a) == len(b) and all(x == y or x in '?*' and not y.startswith('@') or y in '?*' and not x.startswith('@') for x, y in zip(a, b))


def check(ctx, prog):
    ctx.rule('place', 'a part is written to a place from which it is read', 150)
    ctx.rule('kept', 'a part that is read is written', 150)
    ctx.rule('there', 'what the reader insists on is always written', 60)
    ctx.rule('form', 'an identifier is written with the prefix that its reader takes away', 20)
    ctx.rule('guard', 'an optional part is written exactly if there is one', 60)
    ctx.rule('standard', 'the standard that is written is the one that is read', 6)
    ctx.rule('taken', 'a reader that refuses unknown elements knows all that are written', 20)
    ctx.rule('read', 'a place that is written with a part is read', 150)
    types = {}
    for f in prog.functions.values():
        types.setdefault(f.q, set()).update(f.type(x['t']) for x in f.params)
    prog.param_types = lambda q: types.get(q, ())
    elements = {}
    for f in prog.functions.values():
        elements.setdefault(f.q, set()).update(i for i, x in enumerate(f.params) if 'xmlpp::Element' in f.type(x['t']))
    prog.elements = lambda q: elements.get(q, ())
    known = {}

    def returned(q):
        if q not in known:
            known[q] = (None, None)
            paths = set()
            for f in prog.get(q):
                if f.body is not None:
                    g = Graph(prog, f, policy_for(prog, f.cls))
                    g.prog = prog
                    e = XmlEval(g, None, {}).run()
                    paths |= {written_path(x) for x in e.returns}
            if len(paths) == 1 and elements.get(q):
                known[q] = (min(elements[q]), paths.pop())
        return known[q]

    global RETURNED
    RETURNED = returned
    for p in PAIRS:
        ctx.attempt('place', p.cls, lambda: pair(ctx, prog, p))


def pair(ctx, prog, p):
    ws = [f for f in prog.get(p.writer) if f.body is not None]
    rs = [f for f in prog.get(p.cls + '::(ctor)') if f.body is not None and not f.d.get('special') and f.params and p.given in f.type(f.params[0]['t'])]
    if not ws or not rs:
        raise ir.AnalysisBroken('no writer or no reader of %s' % p.cls)
    for r in rs:
        for w in ws:
            compare(ctx, prog, p, w, r)


def compare(ctx, prog, p, wf, rf):
    g, e, out = written(prog, wf)
    reading = Reading(prog, rf)
    ctx.functions([wf.key, rf.key])
    W = {}      # part -> {place: (node, value, number of parts)}
    allw = {}
    for place, v, n in out:
        if place is None:
            continue
        if not match_(place[:len(p.at)], p.at):
            continue
        place = place[len(p.at):]
        if '@?' in place or '@xmlns' in place:
            continue
        ps = parts(v)
        allw.setdefault(place, []).append((v, n))
        for q in ps:
            if p.within:
                if not q.startswith(p.within + '.'):
                    continue
                q = q[len(p.within):]
            if any(q.startswith(x) for x in p.leave):
                continue
            W.setdefault(q, {}).setdefault(place, []).append((v, n, len(ps)))
    R = {}
    for q, place, how, v in reading.out:
        if any(q.startswith(x) for x in p.leave):
            continue
        R.setdefault(q, {}).setdefault(place, []).append((how, v))
    nodes = {x for pl in R.values() for x, h in pl.items() if any(y[0] == 'node' for y in h)} | {x for pl in W.values() for x, h in pl.items() if any(delegated(y[0], y[1]) for y in h)}

    def match(a, b):
        return match_(a, b) or (a in nodes or b in nodes) and within(a, b)
    if not R:
        raise Unknown('nothing read')
    name = p.cls.split('::', 1)[1]
    for q, places in sorted(R.items()):
        places = {x: h for x, h in places.items() if not x[-1:] == ('#name',)}
        if not places:
            continue
        wq = {}
        for x, pl in W.items():
            if related(q, x):
                wq.update(pl)
        key = '%s%s' % (name, q)
        if not wq:
            if any(match_(x, y) for x in places for y in allw):
                ctx.ok('kept', key)
                continue
            x = sorted(places)[0]
            ctx.violation('kept', wf.file, wf.line, wf.q, '%s%s is read from %s but never written' % (name, q, place_name(x)), key)
            continue
        ctx.ok('kept', key)
        if any(match(x, y) for x in places for y in wq):
            ctx.ok('place', key)
        else:
            n = list(wq.values())[0][0][1]
            ctx.violation('place', n.file, n.line, wf.q, '%s%s is written to %s but read from %s' % (name, q, ', '.join(sorted(map(place_name, wq))), ', '.join(sorted(map(place_name, places)))), key)
    for q, places in sorted(W.items()):
        for place, vs in sorted(places.items()):
            key = '%s%s -> %s' % (name, q, place_name(place))
            readers = [x for x, pl in R.items() if any(match(place, y) for y in pl)]
            if any(related(q, x) for x in readers):
                ctx.ok('read', key)
            elif q in reading.assigned and any(match_(place, x) for x in reading.asked):
                ctx.ok('read', key)
            elif place[-1:] and (name, place[-1]) in DERIVED:
                ctx.ok('read', key)
            elif min(k for _, _, k in vs) > 1:
                ctx.skip('read', key)
            else:
                n = vs[0][1]
                ctx.violation('read', n.file, n.line, wf.q, '%s%s is written to %s, %s' % (name, q, place_name(place), 'which is read into %s' % ', '.join(sorted(readers)) if readers else 'which is not read'), key)
    must = insisting(reading)
    for place, n in sorted(must.items(), key=lambda x: x[0]):
        full = p.at + place
        nodes = [x for y, _, x in out if y is not None and match_(y, full)]
        if not nodes:
            continue
        parent = full[:-1]
        starts = [x for y, ns in e.made.items() if match_(y, parent) for x in ns]
        if not parent or not starts and len(parent) <= len(p.at):
            starts = [g.entry]
        if not starts:
            continue
        if avoidable(g, starts, nodes):
            ctx.violation('there', nodes[0].file, nodes[0].line, wf.q, '%s is not always written but %s:%d insists on it' % (place_name(full), n.file, n.line), '%s:%s' % (name, place_name(place)))
        else:
            ctx.ok('there', '%s:%s' % (name, place_name(place)))
    for q, places in sorted(R.items()):
        for place, hs in sorted(places.items()):
            for x, pl in W.items():
                if not related(q, x):
                    continue
                for y, vs in pl.items():
                    if match_(place, y) and not any(h == 'node' for h, _ in hs) and not any(v[1].q.startswith('dcp::') for v in vs):
                        a = [any(t[0] == 'str' and t[1] == 'urn:uuid:' for t in deep(v)) for v, _, _ in vs]
                        b = [any(t[0] == 'call' and t[1].endswith('remove_urn_uuid') for t in deep(v)) for _, v in hs]
                        if all(a) and not any(b):
                            n = vs[0][1]
                            ctx.violation('form', n.file, n.line, wf.q, '%s%s is written with the prefix urn:uuid: which is not taken away when it is read' % (name, q), '%s%s' % (name, q))
                        elif all(b) and not any(a):
                            n = vs[0][1]
                            ctx.violation('form', n.file, n.line, wf.q, '%s%s is written without the prefix urn:uuid: which is taken away when it is read' % (name, q), '%s%s' % (name, q))
                        elif all(a) and all(b):
                            ctx.ok('form', '%s%s' % (name, q))
    guards(ctx, prog, p, wf, g, e, out, name)
    taken(ctx, p, wf, g, e, out, reading, name)
    if p.given == 'path':
        ctx.attempt('standard', name, lambda: standards(ctx, prog, wf, rf, name))


def guards(ctx, prog, p, wf, g, e, out, name):
    """Each write of an optional part is reached if there is one and is not reached if there is none"""
    todo = {}
    for place, v, n in out:
        if place is None or v[0] == 'sub':
            continue
        for t in deep(v):
            if t[0] == 'deref' and t[1][0] == 'mem' and part(t[1]) and ('nonnull', t[1]) in e.asked:
                todo.setdefault(t[1], []).append((place, n))
    for m, places in todo.items():
        yes = XmlEval(g, None, {}, decide={('nonnull', m): True}).run()
        no = XmlEval(g, None, {}, decide={('nonnull', m): False}).run()
        for place, n in places:
            key = '%s%s -> %s' % (name, part(m), place_name(place))
            if n.id in no.executed:
                ctx.violation('guard', n.file, n.line, wf.q, '%s%s is written to %s also if there is none' % (name, part(m), place_name(place)), key)
            elif n.id not in yes.executed:
                ctx.violation('guard', n.file, n.line, wf.q, '%s%s is not written to %s if there is one' % (name, part(m), place_name(place)), key)
            else:
                ctx.ok('guard', key)


def taken(ctx, p, wf, g, e, out, reading, name):
    """If the reader insists on having seen all the children of a node, it looks for each that is written"""
    r = reading.e
    done = {read_path(o) for n, env in r.calls if n.q in ('cxml::Node::done',) for o in r.ev(n.obj, env)} - {None}
    if not done:
        return
    seen = {}
    for n, env in r.calls:
        m = n.q.split('::')[-1]
        if n.q.startswith('cxml::') and n.obj is not None and n.args and (m in NODE or m in LEAF or m in ('node_children', 'ignore_child')) and 'attribute' not in m:
            for o in r.ev(n.obj, env):
                for a in r.ev(n.args[0], env):
                    x = read_path(o)
                    if x is not None:
                        seen.setdefault(x, set()).add(name_of(a))
    signed = any(n.q.endswith('CertificateChain::sign') for n, _ in e.calls)
    for d in done:
        full = p.at + d
        children = {y[len(full)]: ns[0] for y, ns in e.made.items() if len(y) == len(full) + 1 and match_(y[:len(full)], full)}
        for y, v, n in out:
            if y is not None and len(y) > len(full) and match_(y[:len(full)], full) and not y[len(full)].startswith('@'):
                children.setdefault(y[len(full)], n)
        if signed and not full:
            for x in ('Signer', 'Signature'):
                children.setdefault(x, None)
        for x, n in sorted(children.items()):
            if x == '?':
                continue
            key = '%s: %s' % (name, place_name(d + (x,)))
            if x in seen.get(d, ()):
                ctx.ok('taken', key)
            else:
                ctx.violation('taken', n.file if n else wf.file, n.line if n else wf.line, wf.q, '%s is written, but the reader refuses a document with it' % place_name(full + (x,)), key)


def standards(ctx, prog, wf, rf, name):
    """The namespace that is written for a standard is the one by which the reader knows the standard"""
    g = Graph(prog, wf, policy_for(prog, wf.cls))
    g.prog = prog
    spaces = {}
    for std in ('INTEROP', 'SMPTE'):
        d = {}
        while True:
            x = XmlEval(g, None, {}, decide=d).run()
            conds = [c for c in x.asked if c not in d and any(t[0] == 'enum' and t[1].startswith('dcp::Standard::') for t in deep(c)) and c[0] == 'bin' and c[1] in ('==', '!=')]
            if not conds:
                break
            for c in conds:
                en = [t for t in deep(c) if t[0] == 'enum'][0]
                d[c] = en[1].endswith(std) == (c[1] == '==')
        ns = set()
        for n, env in x.calls:
            if n.q.endswith('::create_root_node') and len(n.args) > 1:
                ns |= {(name_of(a), b) for a in x.ev(n.args[0], env) for b in x.ev(n.args[1], env)}
        if len(ns) != 1:
            raise Unknown('namespace of %s' % std)
        spaces[std] = ns.pop()
    rg = Graph(prog, rf, policy_for(prog, rf.cls))
    rg.prog = prog
    r = XmlEval(rg, None, {}).run()
    roots = {name_of(t[2]) for k, env in r.states.items() for v in env.values() if isinstance(v, frozenset) for x in v if isinstance(x, tuple) for t in deep(x) if t[0] == 'obj' and t[1] == 'cxml::Document' and len(t) > 2}
    conds = [c for c in r.asked if c[0] in ('bin', 'call') and any(t[0] == 'call' and t[1].endswith('::namespace_uri') for t in deep(c))]
    if not conds:
        raise Unknown('no conditions on the namespace')
    for std, (root, ns) in spaces.items():
        if roots and roots != {'?'}:
            if root in roots:
                ctx.ok('standard', '%s: %s: name' % (name, std))
            else:
                ctx.violation('standard', wf.file, wf.line, wf.q, 'the document is called %s but the reader wants %s' % (root, ', '.join(roots)), name)
        d = {c: ns in list(deep(c)) for c in conds}
        x = XmlEval(rg, None, {}, decide=d).run()
        vals = x.final(('mem', THIS, '_standard'))
        if vals and any(v[0] == 'lv' and v[2] == ('mem', THIS, '_standard') for v in vals):
            vals = {v for n in rg.nodes if n.k == 'assign' and n.lhs == ('mem', THIS, '_standard') and n.id in x.executed
                    for v in x.ev(n.rhs, x.states[(n.id, ())])}
        if not any(k[0] == rg.exit.id for k in x.states):
            ctx.violation('standard', rf.file, rf.line, rf.q, 'refuses what is written for the %s standard' % std, '%s: %s' % (name, std))
        elif not vals or not all(v[0] == 'enum' for v in vals):
            raise Unknown('standard that is read')
        elif all(v[1] == 'dcp::Standard::' + std for v in vals):
            ctx.ok('standard', '%s: %s' % (name, std))
        else:
            ctx.violation('standard', rf.file, rf.line, rf.q, 'what is written for the %s standard is read as %s' % (std, ', '.join(show(v) for v in vals)), '%s: %s' % (name, std))
