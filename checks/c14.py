"""C14: operations on reels, compositions and packages take in every asset"""

import re

import shape
from ir import AnalysisBroken
from shape import ANY, NULL, TRUE, FALSE, const, obj, seq

EXPLANATION = (
    'The places of a reel for assets are found from its members. For each operation on reels, compositions and packages and each place (and each class that the asset there can have) '
    'the operation is interpreted abstractly with an asset in that place and anything in the others: branches on unknown values are both taken and joined, so that what is found must happen holds whatever else is there. '
    'The asset must then have been resolved, given its key, listed, written, compared or counted.')

ASSETS = {
    'dcp::ReelMonoPictureAsset': 'dcp::MonoJ2KPictureAsset', 'dcp::ReelStereoPictureAsset': 'dcp::StereoJ2KPictureAsset', 'dcp::ReelSoundAsset': 'dcp::SoundAsset',
    'dcp::ReelInteropTextAsset': 'dcp::InteropTextAsset', 'dcp::ReelSMPTETextAsset': 'dcp::SMPTETextAsset', 'dcp::ReelAtmosAsset': 'dcp::AtmosAsset',
}
TEXT = {'_main_subtitle': 'OPEN_SUBTITLE', '_main_caption': 'OPEN_CAPTION', '_closed_subtitles': 'CLOSED_SUBTITLE', '_closed_captions': 'CLOSED_CAPTION'}


class Wrong(Exception):
    """Something that is not there is used"""


class Model:
    """this: object name -> {member: value}; attrs: (object name, function) -> value; others: value of members that are not given"""

    def __init__(self, fields, attrs, others=ANY):
        self.fields = fields
        self.attrs = attrs
        self.others = others

    def field(self, e, st, o, name):
        if o is None:
            return None
        v = self.fields.get((o[1], name))
        if v is not None:
            return v
        if self.others is not ANY and (o[1], '*') in self.fields:
            return self.fields[(o[1], '*')].get(name)
        return None

    def call(self, e, st, x, o, args):
        m = x.get('m')
        if o is None or o[0] != 'obj':
            return None
        if (o[1], m) in self.attrs:
            st.must = st.must | {(m, o[1]) + tuple(a for a in args if a[0] in ('obj', 'const'))}
            v = self.attrs[(o[1], m)]
            return v(st, args) if callable(v) else v
        if m == 'operator->' and o[2] == 'dcp::Ref':
            return self.attrs.get((o[1], 'asset'), ANY)
        return None


def merged(a, b):
    a = dict(a)
    a.update(b)
    return a


def slots_of(prog):
    r = prog.record('dcp::Reel')
    out = []
    for f in r['fields']:
        t = f['type'] if 'type' in f else f.get('t')
        t = str(t)
        m = re.search(r'shared_ptr<dcp::(Reel\w+)>', t)
        if m and 'dcp::ReelAsset' in prog.bases('dcp::' + m.group(1)):
            out.append((f['n'], 'dcp::' + m.group(1), 'vector' in t or 'list<' in t))
    return out


def concrete(prog, cls):
    return sorted(c for c in prog.derived(cls) if c in ASSETS or c == 'dcp::ReelMarkersAsset')


def check(ctx, prog):
    ctx.rule('list', 'the list of file assets of a reel or composition holds every one of them, once', 15)
    ctx.rule('resolve', 'resolving references reaches every asset, and the fonts of Interop texts', 8)
    ctx.rule('key', 'a key is given to every asset that it is for, at once or when the asset is resolved, and to no other', 12)
    ctx.rule('encrypted', 'a package, composition or reel is partly encrypted if any asset is, and wholly if all are', 20)
    ctx.rule('equal', 'reels, compositions and packages with a difference in any asset are not equal, and are if there is none', 15)
    ctx.rule('write', 'every asset of a reel is written to its composition', 8)
    ctx.rule('length', 'the length of a reel is that of its picture, otherwise that of the shortest asset; of a composition, the sum over its reels', 8)
    ctx.rule('add', 'an asset that is added to a reel is in the place for its kind, and with those before it if there can be many', 8)

    slots = slots_of(prog)
    if len(slots) < 3:
        raise AnalysisBroken('members of Reel not found')
    R = 'dcp::Reel'

    def find(q, pred=None):
        fs = [f for f in prog.get(q) if f.body is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisBroken('no function %s' % q)
        return fs[0]

    def run(f, model, this, args=(), heap=None):
        """-> (value, must, heap) joined over all ways out, or None if it never returns"""
        e = shape.Shape(prog, model)
        rs = e.call(f, this, list(args), shape.State({}, dict(heap or {}), frozenset()))
        ctx.functions(e.functions)
        if e.wrong:
            g, x, why = e.wrong[0]
            raise Wrong('%s at %s:%s' % (why, g.file, x.get('l')))
        if not rs:
            if e.branched:
                raise shape.Unknown('it is not known whether it returns')
            return None
        v, s = rs[0]
        for w, t in rs[1:]:
            v, s = shape.join(v, w), shape.merge(s, t)
        return v, s.must, s.heap, not e.branched

    reel = obj('reel', R)

    def wrap(s, *xs):
        return (seq(*xs) if s[2] else xs[0])

    def world(s, cls, present=True, others=None, name='S', owner='reel', extra=None, attrs=None):
        """A reel with an asset in slot s; others: ANY or NULL"""
        other_slot = None
        if others is None:
            # what the places other than this one hold is a matter of the scenario
            others = scene[0]
            if isinstance(others, dict):
                other_slot, others = others, NULL
        o = obj(name, cls)
        fields = {}
        if present:
            fields[(owner, s[0])] = (seq(ANY, o, ANY) if others is ANY else seq(o)) if s[2] else o
        else:
            fields[(owner, s[0])] = seq() if s[2] else NULL
        if others is not ANY:
            fields[(owner, '_kdms')] = seq()
            fields[(owner, '*')] = dict((t[0], seq() if t[2] else NULL) for t in slots if t[0] != s[0])
        a = {
            (name, 'asset_ref'): obj(name + '.ref', 'dcp::Ref'),
            (name, 'asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')), (name, 'smpte_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name, 'interop_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')), (name, 'mono_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name, 'stereo_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')), (name, 'mono_j2k_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name, 'stereo_j2k_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')), (name, 'j2k_asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name, 'asset_of_type'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name + '.ref', 'asset'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name + '.ref', 'get'): obj(name + '.asset', ASSETS.get(cls, 'dcp::Asset')),
            (name + '.ref', 'id'): const('id of ' + name), (name + '.asset', 'id'): const('id of ' + name), (name, 'id'): const('id of ' + name),
            (name, 'key_id'): const('key of ' + name), (name, 'write_to_cpl'): ANY,
            (name, 'encrypted'): const(True), (name, 'encryptable'): const(True),
            (name + '.ref', 'resolved'): lambda st, args: st.heap.get((name + '.ref', 'done'), TRUE),
            (name + '.asset', 'set_key'): ANY, (name + '.asset', 'resolve_fonts'): ANY,
            (name, 'actual_duration'): ANY,
        }

        def resolve(st, args):
            st.heap[(name + '.ref', 'done')] = TRUE
            return TRUE
        a[(name + '.ref', 'resolve')] = resolve
        if other_slot is not None:
            t = other_slot['slot']
            fields[(owner, t[0])] = seq(obj('T', other_slot['cls'])) if t[2] else obj('T', other_slot['cls'])
            fields[('other', t[0])] = seq(obj('T', other_slot['cls'])) if t[2] else obj('T', other_slot['cls'])
            for k, v in list(a.items()):
                if not callable(v):
                    a[('T' + k[0][len(name):], k[1])] = (v[:1] + (v[1].replace('S', 'T'),) + v[2:]) if v[0] in ('obj', 'const') and isinstance(v[1], str) else v
            a[('T', 'encrypted')] = const(other_slot['encrypted'])
            a[('T', 'equals')] = TRUE
            a[('T.ref', 'resolved')] = a[('T.ref', 'resolve')] = TRUE
        a.update(attrs or {})
        fields.update(extra or {})
        return Model(fields, a, others)

    def scenarios(s):
        """What the other places can hold: anything at all; if that is not enough to decide, nothing, or one other asset"""
        yield ANY
        yield NULL
        for t in slots:
            if t is not s:
                for enc in (True, False):
                    yield {'slot': t, 'cls': concrete(prog, t[1])[-1], 'encrypted': enc}

    def each(rule, f, what, fun):
        """Runs a judgement, which gives None or the complaint"""
        def once():
            try:
                return fun()
            except Wrong as w:
                return '%s: %s' % (what, w)

        def go():
            bad, unknown = None, None
            for i, sc in enumerate(scenarios(place[0])):
                scene[0] = sc
                try:
                    b = once()
                except shape.Unknown as u:
                    if sc is ANY:
                        continue
                    b, unknown = None, u
                if sc is ANY:
                    if b is None:
                        break
                    continue
                if b is not None:
                    bad = b
                    break
            else:
                if unknown is not None:
                    raise unknown
            ctx.expect(bad is None, rule, f.file, f.line, f.q, bad, '%s:%s' % (rule, what), what)
        ctx.attempt(rule, what, go)

    scene = [ANY]
    place = [None]
    kdm = obj('kdm', 'dcp::DecryptedKDM')
    key = obj('key', 'dcp::DecryptedKDMKey')
    keyval = obj('value of key', 'dcp::Key')

    def keys(kid, around=None):
        if around is None:
            around = scene[0]
        return {('kdm', 'keys'): seq(ANY, key, ANY) if around is ANY else seq(key), ('key', 'id'): const(kid), ('key', 'key'): keyval, ('key', 'cpl_id'): const('id of cpl')}

    file_assets = find('dcp::Reel::file_assets')
    resolve_refs = find('dcp::Reel::resolve_refs')
    any_enc = find('dcp::Reel::any_encrypted')
    all_enc = find('dcp::Reel::all_encrypted')
    equals = find('dcp::Reel::equals')
    write = find('dcp::Reel::write_to_cpl')
    duration = find('dcp::Reel::duration')
    add_kdm = find('dcp::Reel::add', lambda f: 'KDM' in f.type(f.params[0]['t']))
    add_asset = find('dcp::Reel::add', lambda f: 'ReelAsset' in f.type(f.params[0]['t']))
    cpl_assets = [f for f in prog.get('dcp::CPL::reel_file_assets') if f.body is not None]

    def happened(r, m, name):
        if r is not None and any(e[0] == m and e[1] == name for e in r[1]):
            return True
        if r is not None and not r[3]:
            raise shape.Unknown('not known whether %s() is called' % m)
        return False

    for s in slots:
        place[0] = s
        for cls in concrete(prog, s[1]):
            name = '%s (%s)' % (s[0].lstrip('_'), cls.split('::')[-1])
            S = obj('S', cls)
            is_file = 'dcp::ReelFileAsset' in prog.bases(cls)
            keyed = is_file and cls != 'dcp::ReelInteropTextAsset'

            if is_file:
                def listing(f, this, owner):
                    def go():
                        r = run(f, world(s, cls, owner=owner, extra={('cpl', '_reels'): seq(ANY, reel, ANY) if scene[0] is ANY else seq(reel)}), this)
                        if r is None:
                            return 'the list of file assets is never made'
                        if r[0][0] not in ('seq', 'bag'):
                            raise shape.Unknown('the list is not understood')
                        if S not in shape.members(r[0]):
                            if not r[3]:
                                raise shape.Unknown('the list is not understood')
                            return 'the list of file assets can lack %s' % name
                        r = run(f, world(s, cls, owner=owner, others=NULL, extra={('cpl', '_reels'): seq(reel)}), this)
                        if r is not None and r[0][0] == 'seq' and r[0] != seq(S):
                            return 'the list of file assets of a reel with only %s is %d long' % (name, len(r[0]) - 1)
                        return None
                    return go
                each('list', file_assets, 'file assets of a reel: %s' % name, listing(file_assets, reel, 'reel'))
                for f in cpl_assets:
                    each('list', f, 'file assets of a composition%s: %s' % (' (const)' if f.d.get('const') else '', name), listing(f, obj('cpl', 'dcp::CPL'), 'reel'))

                def resolving():
                    r = run(resolve_refs, world(s, cls), reel, [ANY])
                    if not happened(r, 'resolve', 'S.ref'):
                        return 'the reference of %s can stay unresolved' % name
                    if cls == 'dcp::ReelInteropTextAsset' and s[0] in ('_main_subtitle', '_closed_captions') and not happened(r, 'resolve_fonts', 'S.asset'):
                        return 'the fonts of %s can stay unresolved' % name
                    return None
                each('resolve', resolve_refs, 'resolving %s' % name, resolving)

                def missing():
                    def asset(st, args):
                        if st.heap.get(('S.ref', 'done'), TRUE) == FALSE:
                            raise shape.Never()
                        return obj('S.asset', ASSETS.get(cls, 'dcp::Asset'))
                    w = world(s, cls, others=NULL, attrs=dict([(('S.ref', 'resolve'), FALSE)] + [(k, asset) for k in (('S', 'asset'), ('S', 'smpte_asset'), ('S', 'interop_asset'), ('S.ref', 'asset'), ('S.ref', 'get'))]))
                    w.fields[('reel', '_kdms')] = seq()
                    r = run(resolve_refs, w, reel, [seq()], {('S.ref', 'done'): FALSE})
                    return None if r is not None else 'resolving the references of a reel fails if %s is not there' % name
                each('resolve', resolve_refs, 'resolving %s that is missing' % name, missing)

            if keyed:
                def now():
                    r = run(add_kdm, world(s, cls, extra={('reel', '_kdms'): seq()}, attrs=keys('key of S')), reel, [kdm])
                    if not happened(r, 'set_key', 'S.asset'):
                        return 'the key of %s is not given to it by Reel::add()' % name
                    if not any(e[:3] == ('set_key', 'S.asset', keyval) for e in r[1]):
                        return '%s is given something other than its key' % name
                    return None

                def later():
                    w = world(s, cls, extra={('reel', '_kdms'): seq()}, attrs=keys('key of S'))
                    r = run(add_kdm, w, reel, [kdm], {('S.ref', 'done'): FALSE})
                    if r is None:
                        return 'Reel::add() never returns'
                    heap = dict(r[2])
                    r = run(resolve_refs, w, reel, [ANY], heap)
                    if not happened(r, 'set_key', 'S.asset'):
                        return 'the key of %s is not given to it when it is resolved after the KDM was added' % name
                    return None

                def other():
                    w = world(s, cls, others=NULL, extra={('reel', '_kdms'): seq()}, attrs=keys('another key', NULL))
                    r = run(add_kdm, w, reel, [kdm])
                    if happened(r, 'set_key', 'S.asset'):
                        return '%s is given a key that is not its own' % name
                    return None
                each('key', add_kdm, 'key of resolved %s' % name, now)
                each('key', resolve_refs, 'key of %s that is resolved later' % name, later)
                each('key', add_kdm, 'key that is not for %s' % name, other)

            if is_file:
                def enc(f, state, others, want, say):
                    def go():
                        r = run(f, world(s, cls, others=others, attrs={('S', 'encrypted'): const(state), ('S', 'key_id'): const('k') if state else NULL}), reel)
                        if r is None:
                            return 'it is never known whether a reel is encrypted'
                        if r[0] == ANY:
                            raise shape.Unknown('value not understood')
                        if shape.truth(r[0]) != want:
                            return 'a reel with %s %s is said %s' % (name, 'encrypted' if state else 'not encrypted', say)
                        return None
                    return go
                each('encrypted', any_enc, 'any_encrypted() with %s encrypted' % name, enc(any_enc, True, None, True, 'to have nothing encrypted'))
                each('encrypted', any_enc, 'any_encrypted() with only %s, not encrypted' % name, enc(any_enc, False, NULL, False, 'to have something encrypted'))
                each('encrypted', all_enc, 'all_encrypted() with %s not encrypted' % name, enc(all_enc, False, None, False, 'to be all encrypted'))
                each('encrypted', all_enc, 'all_encrypted() with only %s, encrypted' % name, enc(all_enc, True, NULL, True, 'not to be all encrypted'))

            def writing():
                def once(st, args):
                    st.heap[('S', 'times')] = const(st.heap.get(('S', 'times'), const(0))[1] + 1)
                    return ANY
                r = run(write, world(s, cls, others=NULL, attrs={('S', 'write_to_cpl'): once}), reel, [ANY, ANY])
                if r is not None and r[2].get(('S', 'times'), const(1))[0] == 'const' and r[2].get(('S', 'times'), const(1))[1] > 1:
                    return '%s is written more than once' % name
                r = run(write, world(s, cls), reel, [ANY, ANY])
                return None if happened(r, 'write_to_cpl', 'S') else '%s can be left out of the composition' % name
            each('write', write, 'writing %s' % name, writing)

            # comparison with another reel
            def compare(mine, theirs, same, others, want):
                def go():
                    T = obj('T', cls)
                    w = world(s, cls, present=mine, others=others, attrs={('S', 'equals'): const(same), ('S', 'file_asset_equals'): const(same), ('S', 'asset_equals'): const(same)})
                    w.fields[('other', s[0])] = (seq(T) if theirs else seq()) if s[2] else (T if theirs else NULL)
                    if s[2] and mine and theirs:
                        w.fields[('reel', s[0])] = seq(obj('S', cls))
                    if w.others is not ANY:
                        w.fields[('other', '*')] = dict((t[0], seq() if t[2] else NULL) for t in slots if t[0] != s[0])
                    r = run(equals, w, reel, [obj('other', R), ANY, ANY])
                    if r is None:
                        return 'the comparison never ends'
                    t = shape.truth(r[0])
                    say = 'of which %s' % ('one has no %s' % name if mine != theirs else '%s are %s' % (name, 'equal' if same else 'different'))
                    if t is None:
                        raise shape.Unknown('value not understood')
                    if t != want:
                        return 'reels %s are found %s' % (say, 'equal' if t else 'different')
                    return None
                return go
            each('equal', equals, 'different %s' % name, compare(True, True, False, None, False))
            each('equal', equals, '%s in the first reel only' % name, compare(True, False, False, None, False))
            each('equal', equals, '%s in the second reel only' % name, compare(False, True, False, None, False))
            each('equal', equals, 'equal %s' % name, compare(True, True, True, NULL, True))

            if s[2]:
                def several(flip):
                    def go():
                        T, S0, T0 = obj('T', cls), obj('S0', cls), obj('T0', cls)
                        w = world(s, cls, others=NULL, attrs={('S', 'equals'): lambda st, args: const((args[0] == T) != flip), ('S0', 'equals'): lambda st, args: const(args[0] == T0)})
                        w.fields[('reel', s[0])] = seq(S0, S)
                        w.fields[('other', s[0])] = seq(T0, T)
                        w.fields[('other', '*')] = w.fields[('reel', '*')]
                        r = run(equals, w, reel, [obj('other', R), ANY, ANY])
                        if r is None or r[0] == ANY:
                            raise shape.Unknown('value not understood')
                        if r[0] != const(not flip):
                            return 'reels with two %s, %s, are found %s' % (name, 'of which the second differs' if flip else 'equal in turn', 'equal' if flip else 'different')
                        return None
                    return go
                each('equal', equals, 'two equal %s' % name, several(False))
                each('equal', equals, 'two %s of which the second differs' % name, several(True))
            elif len(concrete(prog, s[1])) > 1:
                def mixed():
                    T = obj('T', [c for c in concrete(prog, s[1]) if c != cls][0])
                    w = world(s, cls, others=NULL, attrs={('S', 'equals'): FALSE})
                    w.fields[('other', s[0])] = T
                    w.fields[('other', '*')] = w.fields[('reel', '*')]
                    r = run(equals, w, reel, [obj('other', R), ANY, ANY])
                    if r is None or r[0] == ANY:
                        raise shape.Unknown('value not understood')
                    return None if r[0] == FALSE else 'reels are found equal though one has %s and the other %s' % (cls, T[2])
                each('equal', equals, '%s and another kind' % name, mixed)

            def long(present):
                def go():
                    r = run(duration, world(s, cls, others=NULL, attrs={('S', 'actual_duration'): const(7)}), reel)
                    if r is None:
                        return 'a reel with only %s has no length' % name
                    if r[0] == ANY:
                        raise shape.Unknown('value not understood')
                    if r[0] != const(7):
                        return 'a reel with only %s does not have the length of that' % name
                    for t in slots:
                        if t is s:
                            continue
                        c = concrete(prog, t[1])[0]
                        for mine, its in ((5, 9), (9, 5)):
                            w = world(s, cls, others=NULL, attrs={('S', 'actual_duration'): const(mine), ('T', 'actual_duration'): const(its)})
                            w.fields[('reel', t[0])] = seq(obj('T', c)) if t[2] else obj('T', c)
                            r = run(duration, w, reel)
                            want = mine if s[0] == '_main_picture' else (its if t[0] == '_main_picture' else 5)
                            if r is None or (r[0][0] == 'const' and r[0] != const(want)):
                                return 'a reel with %s of %d frames and %s of %d has a length of %s' % (name, mine, t[0].lstrip('_'), its, r[0][1] if r else 'nothing')
                    return None
                return go
            each('length', duration, 'length of reel with %s' % name, long(True))

            def adding():
                a = {('S', 'type'): ('enum', 'dcp::TextType::' + TEXT[s[0]], next((i[1] for i in prog.enum('dcp::TextType')['c'] if i[0] == TEXT[s[0]]), None))} if s[0] in TEXT else {}
                before = obj('before', cls)
                w = world(s, cls, present=False, others=NULL, attrs=a)
                if s[2]:
                    w.fields[('reel', s[0])] = seq(before)
                r = run(add_asset, w, reel, [S])
                if r is None:
                    return 'adding %s always fails' % name
                v = r[2].get(('reel', s[0]), NULL)
                if v == ANY:
                    raise shape.Unknown('what is in the reel')
                if s[2]:
                    if v != seq(before, S):
                        return 'after adding %s to one that is there already, the reel has not got both' % name
                elif v != S:
                    return '%s that is added is not in the reel' % name
                for t in slots:
                    if t is not s and ('reel', t[0]) in r[2] and r[2][('reel', t[0])] not in (NULL, seq()):
                        return 'adding %s changes %s' % (name, t[0].lstrip('_'))
                return None
            each('add', add_asset, 'adding %s' % name, adding)

    # reels of compositions, compositions of packages
    def parts(q, member, part, cls):
        whole = obj(part + 's', q)

        def model(attrs, many=True):
            return Model({(part + 's', member): seq(ANY, obj('P', cls), ANY) if many and scene[0] is ANY else seq(obj('P', cls))}, merged({('P', 'id'): const('id of cpl')}, attrs), ANY)

        def reach(rule, fname, m, args, extra=None, pred=None):
            f = find('%s::%s' % (q, fname), pred)

            def go():
                r = run(f, model(merged({('P', m): ANY}, extra() if extra else {})), whole, args)
                return None if happened(r, m, 'P') else '%s::%s() can pass over a %s' % (q, fname, part)
            each(rule, f, '%s::%s() reaches every %s' % (q, fname, part), go)
        reach('resolve', 'resolve_refs', 'resolve_refs', [ANY])
        reach('key', 'add', 'add', [kdm], lambda: keys('any'), lambda f: 'KDM' in f.type(f.params[0]['t']))
        for fname, bad in (('any_encrypted', True), ('all_encrypted', False)):
            f = find('%s::%s' % (q, fname))

            def go(v, many, want, fname=fname, f=f):
                def g():
                    r = run(f, model({('P', fname): const(v)}, many), whole)
                    if r is None or r[0] == ANY:
                        raise shape.Unknown('value not understood')
                    return None if r[0] == const(want) else '%s::%s() of something with a %s for which it is %s is not' % (q, fname, part, str(v).lower())
                return g
            each('encrypted', f, '%s::%s() with one %s %s' % (q, fname, part, bad), go(bad, True, bad))
            each('encrypted', f, '%s::%s() with only one %s %s' % (q, fname, part, not bad), go(not bad, False, not bad))

        f = find('%s::equals' % q)

        def same(mine, theirs, eq, want):
            def g():
                w = model({('P', 'equals'): const(eq), ('Q', 'equals'): const(eq)}, False)
                w.fields[(part + 's', member)] = seq(*[obj('P', cls)] * mine)
                w.fields[('that', member)] = seq(*[obj('Q', cls)] * theirs)
                for n in ('_annotation_text', '_content_kind'):
                    w.fields[(part + 's', n)] = w.fields[('that', n)] = const(n)
                r = run(f, w, whole, [obj('that', q), ANY, ANY])
                if r is None:
                    raise shape.Unknown('never returns')
                if r[0] == ANY:
                    raise shape.Unknown('value not understood')
                if want is False:
                    return None if r[0] == FALSE else 'things with %s %ss can be found equal' % ('different' if mine == theirs else 'different numbers of', part)
                return None if r[0] == TRUE else 'things with equal %ss are found different' % part
            return g
        each('equal', f, '%s::equals() with a different %s' % (q, part), same(1, 1, False, False))
        each('equal', f, '%s::equals() with one more %s' % (q, part), same(2, 1, True, False))
        each('equal', f, '%s::equals() with one fewer %s' % (q, part), same(1, 2, True, False))
        each('equal', f, '%s::equals() with equal %ss' % (q, part), same(1, 1, True, True))

        def inturn(flip):
            def g():
                P, Q, P0, Q0 = [obj(n, cls) for n in ('P', 'Q', 'P0', 'Q0')]
                w = model({('P', 'equals'): lambda st, args: const((args[0] == Q) != flip), ('P0', 'equals'): lambda st, args: const(args[0] == Q0),
                           ('Q', 'equals'): lambda st, args: const((args[0] == P) != flip), ('Q0', 'equals'): lambda st, args: const(args[0] == P0)}, False)
                w.fields[(part + 's', member)] = seq(P0, P)
                w.fields[('that', member)] = seq(Q0, Q)
                for n in ('_annotation_text', '_content_kind'):
                    w.fields[(part + 's', n)] = w.fields[('that', n)] = const(n)
                r = run(f, w, whole, [obj('that', q), ANY, ANY])
                if r is None or r[0] == ANY:
                    raise shape.Unknown('value not understood')
                return None if r[0] == const(not flip) else 'things with two %ss, %s, are found %s' % (part, 'the second different' if flip else 'equal in turn', 'equal' if flip else 'different')
            return g
        each('equal', f, '%s::equals() with two equal %ss' % (q, part), inturn(False))
        if cls == R:
            each('equal', f, '%s::equals() with the second %s different' % (q, part), inturn(True))

        f2 = find('%s::add' % q, lambda f: 'KDM' not in f.type(f.params[0]['t']))

        def added():
            before, new = obj('before', cls), obj('new', cls)
            w = model({}, False)
            w.fields[(part + 's', member)] = seq(before)
            r = run(f2, w, whole, [new])
            if r is None:
                return 'adding a %s always fails' % part
            v = r[2].get((part + 's', member), seq(before))
            if v[0] != 'seq':
                raise shape.Unknown('value not understood')
            return None if v == seq(before, new) else 'a %s that is added is not with those that were there, or not after them' % part
        each('add', f2, 'adding a %s' % part, added)

    parts('dcp::CPL', '_reels', 'reel', 'dcp::Reel')
    parts('dcp::DCP', '_cpls', 'composition', 'dcp::CPL')

    f = find('dcp::CPL::duration')

    def total():
        w = Model({('cpl', '_reels'): seq(obj('P', R), obj('Q', R))}, {('P', 'duration'): const(5), ('Q', 'duration'): const(11)})
        r = run(f, w, obj('cpl', 'dcp::CPL'))
        if r is None or r[0] == ANY:
            raise shape.Unknown('value not understood')
        return None if r[0] == const(16) else 'a composition with reels of 5 and 11 frames has %s' % r[0][1]
    each('length', f, 'length of composition', total)

    f = find('dcp::DCP::assets')
    for cls in sorted(ASSETS):
        def listed():
            S = obj('S', cls)
            w = world(('none', cls, False), cls, others=ANY)
            w.fields[('dcp', '_cpls')] = seq(obj('P', 'dcp::CPL'))
            w.attrs.update({('P', 'reel_file_assets'): seq(S), ('P', 'id'): const('id of cpl'), ('S.asset', 'font_assets'): seq(obj('font', 'dcp::FontAsset'))})
            r = run(f, w, obj('dcp', 'dcp::DCP'), [FALSE])
            if r is None or r[0][0] not in ('seq', 'bag'):
                raise shape.Unknown('list not understood')
            got = shape.members(r[0])
            if not r[3] and not {obj('P', 'dcp::CPL'), obj('S.asset', ASSETS[cls])} <= got:
                raise shape.Unknown('list not understood')
            if obj('P', 'dcp::CPL') not in got:
                return 'the list of assets of a package can lack a composition'
            if obj('S.asset', ASSETS[cls]) not in got:
                return 'the list of assets of a package can lack the asset of a %s' % cls
            if cls == 'dcp::ReelInteropTextAsset' and obj('font', 'dcp::FontAsset') not in got:
                return 'the list of assets of a package can lack the fonts of a text'
            w.attrs[('P', 'reel_file_assets')] = seq(S, S)
            r = run(f, w, obj('dcp', 'dcp::DCP'), [FALSE])
            if r is not None and r[0][0] == 'seq' and r[0].count(obj('S.asset', ASSETS[cls])) != 1:
                return 'an asset that is used twice is listed twice'
            w.attrs[('P', 'reel_file_assets')] = seq(S)
            r = run(f, w, obj('dcp', 'dcp::DCP'), [TRUE], {('S.ref', 'done'): FALSE})
            t = run(f, w, obj('dcp', 'dcp::DCP'), [TRUE])
            if t is not None and t[0][0] == 'seq' and obj('S.asset', ASSETS[cls]) not in t[0]:
                return 'an asset is not listed though it has been resolved'
            if r is not None and r[0][0] == 'seq' and obj('S.asset', ASSETS[cls]) in r[0]:
                return 'an asset that has not been resolved is listed though it should be ignored'
            return None
        each('list', f, 'assets of a package: %s' % cls, listed)
