"""C02: enumerated values survive their text form"""

import absint
from cfg import Graph, show
from textread import TextEval, literal

EXPLANATION = (
    'Every pair of functions that turns an enumerated value into text and back is found from the types of their parameters and results. '
    'The writer is evaluated (conditional constant propagation) for each value of the enumeration and the reader for each text that comes out and for texts near to those. '
    'Content kinds are named objects: their definitions, the list of all of them and the search by name are evaluated alike.')


OUTSIDE = ('src/compose.hpp', 'src/exceptions.h', 'src/exceptions.cc', 'src/raw_convert.h', 'src/raw_convert.cc', 'src/locale_convert.h', 'src/locale_convert.cc')


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and callee.file not in OUTSIDE


def plain(t):
    return t.replace('const ', '').rstrip(' &')


IGNORES_CASE = {'dcp::HAlign', 'dcp::VAlign'}
# text that is read but never written
ALIASES = {'dcp::Direction': {'horizontal': 'LTR', 'vertical': 'TTB'}}
# how the standards spell them
SPELLING = {
    'dcp::HAlign': {'LEFT': 'left', 'CENTER': 'center', 'RIGHT': 'right'},
    'dcp::VAlign': {'TOP': 'top', 'CENTER': 'center', 'BOTTOM': 'bottom'},
    'dcp::Effect': {'NONE': 'none', 'BORDER': 'border', 'SHADOW': 'shadow'},
    'dcp::Direction': {'LTR': 'ltr', 'RTL': 'rtl', 'TTB': 'ttb', 'BTT': 'btt'},
    'dcp::Status': {'FINAL': 'final', 'TEMP': 'temp', 'PRE': 'pre'},
    'dcp::Luminance::Unit': {'CANDELA_PER_SQUARE_METRE': 'candela-per-square-metre', 'FOOT_LAMBERT': 'foot-lambert'},
}
SCOPES = {
    'http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind': ('CLIP', 'PROMO', 'STEREOCARD'),
    'http://www.smpte-ra.org/schemas/2067-3/2013#content-kind': ('EPISODE', 'HIGHLIGHTS', 'EVENT'),
}
KINDS = {
    'FEATURE': 'feature', 'SHORT': 'short', 'TRAILER': 'trailer', 'TEST': 'test', 'TRANSITIONAL': 'transitional', 'RATING': 'rating', 'TEASER': 'teaser', 'POLICY': 'policy',
    'PUBLIC_SERVICE_ANNOUNCEMENT': 'psa', 'ADVERTISEMENT': 'advertisement', 'CLIP': 'clip', 'PROMO': 'promo', 'STEREOCARD': 'stereocard', 'EPISODE': 'episode', 'HIGHLIGHTS': 'highlights', 'EVENT': 'event',
}


def run(prog, f, args):
    g = Graph(prog, f, policy)
    return TextEval(g, None, dict(zip(g.params, args))).run(), g


def enum_of(t):
    """Value of an enumeration constant in a term, or None"""
    while t[0] == 'cast' or (t[0] == 'obj' and len(t) == 3):
        t = t[2]
    return t


def check(ctx, prog):
    ctx.rule('text', 'every value has a text, and no two values have the same', 20)
    ctx.rule('round-trip', 'reading the text of a value gives that value', 20)
    ctx.rule('case', 'alignments and content kinds are read whatever the case of their letters', 20)
    ctx.rule('unknown', 'a text that no value has is refused', 40)
    ctx.rule('kinds', 'each content kind has its own name, is in the list of all kinds and is found by its name', 48)

    writers, readers = {}, {}
    for f in sorted(prog.functions.values(), key=lambda f: f.key):
        if f.body is None or not f.file.startswith('src/') or len(f.params) != 1:
            continue
        ret, par = plain(f.ret or ''), plain(f.type(f.params[0]['t']))
        if f.cls and not f.d.get('static') and not f.d.get('st'):
            if 'static' not in str(f.d.get('sc', '')) and f.d.get('sm') is None and prog.enums.get(ret) is None and prog.enums.get(par) is None:
                continue
        if par in prog.enums and 'basic_string' in ret and 'optional' not in ret and '_type' not in f.name and 'attribute' not in f.name:
            writers.setdefault(par, []).append(f)
        if 'basic_string' in par and ret in prog.enums:
            readers.setdefault(ret, []).append(f)

    for en in sorted(set(writers) & set(readers)):
        values = prog.enums[en]['c']
        names = [v[0] for v in values if v[0] not in ('COUNT',)]
        for w in writers[en]:
            ctx.functions([w])
            texts = {}
            for c in values:
                name, val = c[0], c[1]
                if name == 'COUNT':
                    continue
                e, g = run(prog, w, [('enum', '%s::%s' % (en, name), val)])
                ctx.functions(g.inlined)
                r = e.returns
                ls = [literal(x) for x in r]
                if not e.complete or any(l is None for l in ls):
                    ctx.skip('text', '%s of %s' % (w.name, name))
                    continue
                if len(ls) != 1:
                    ctx.expect(bool(ls), 'text', w.file, w.line, w.q, '%s has no text' % name, 'text:%s:%s' % (en, name), '')
                    if ls:
                        ctx.skip('text', '%s of %s' % (w.name, name))
                    continue
                t = ls[0]
                same = [n for n, x in texts.items() if x == t]
                ctx.expect(not same, 'text', w.file, w.line, w.q, '%s and %s have the same text "%s"' % (name, same[0] if same else '', t), 'same:%s:%s' % (en, name), '%s is "%s"' % (name, t))
                texts[name] = t
                spelling = SPELLING.get(en, {}).get(name)
                if spelling is not None:
                    ctx.expect(t == spelling, 'text', w.file, w.line, w.q, '%s is written as "%s" rather than "%s"' % (name, t, spelling), 'spelling:%s:%s' % (en, name), '%s is "%s"' % (name, t))
            for r in readers[en]:
                ctx.functions([r])
                reads(ctx, prog, en, r, texts, names)

    kinds(ctx, prog)
    channels(ctx, prog)


def reads(ctx, prog, en, r, texts, names):
    e_falls = [False]

    def result(t):
        e, g = run(prog, r, [('str', t)])
        ctx.functions(g.inlined)
        e_falls[0] = not e.returns and e.returns_normally()
        if not e.complete or e.unknown:
            return None
        out = set()
        for x in e.returns:
            x = enum_of(x)
            if x[0] != 'enum' and x[0] != 'const':
                return None
            by_value = dict((c[1], c[0]) for c in prog.enums[en]['c'])
            out.add(by_value.get(x[-1], x[-1]))
        return out

    def given(rule, t, name, why):
        out = result(t)
        if out is None:
            ctx.skip(rule, '%s of "%s"' % (r.name, t))
            return
        got = ', '.join(str(i) for i in out) or 'refused'
        ctx.expect(out == {name}, rule, r.file, r.line, r.q, '"%s", %s, is read as %s' % (t, why % name, got), '%s:%s:%s' % (rule, en, t), '"%s" is %s' % (t, name))

    for name, t in texts.items():
        given('round-trip', t, name, 'the text of %s')
    for t, name in ALIASES.get(en, {}).items():
        given('round-trip', t, name, 'another spelling of %s')
    known = set(texts.values()) | set(ALIASES.get(en, {}))
    if en in IGNORES_CASE:
        for name, t in texts.items():
            for v in (t.upper(), t.capitalize(), t[0] + t[1:].upper()):
                given('case', v, name, 'the text of %s in other case')
    near = set(['', ' ', 'unknown', 'none-such', 'x'])
    for t in known:
        near |= {t[:-1], t + 'x', ' ' + t, t + ' ', t[::-1], t[0]}
    for t in sorted(near):
        if t in known or t.lower() in known or t.upper() in known:
            continue
        out = result(t)
        if out is None:
            ctx.skip('unknown', '%s of "%s"' % (r.name, t))
            continue
        if e_falls[0]:
            ctx.violation('unknown', r.file, r.line, r.q, 'for "%s", which is the text of no value, the function ends without a result' % t, 'falls:%s:%s' % (en, t))
            continue
        ctx.expect(not out, 'unknown', r.file, r.line, r.q, '"%s", which is the text of no value, is read as %s' % (t, ', '.join(str(i) for i in out)), 'unknown:%s:%s' % (en, t), 'refused "%s"' % t)


def kinds(ctx, prog):
    cls = 'dcp::ContentKind'
    insts = sorted((q.split('::')[-1], q) for q, v in prog.globals.items() if q.startswith(cls + '::') and plain(v['t'] if isinstance(v.get('t'), str) else '') in (cls, '') and q.split('::')[-1].isupper())
    all_fn = [f for f in prog.get(cls + '::all') if f.body is not None]
    find = [f for f in prog.get(cls + '::from_name') if f.body is not None]
    if not all_fn or not find:
        raise __import__('ir').AnalysisBroken('ContentKind::all or from_name not found')
    all_fn, find = all_fn[0], find[0]
    ctx.functions([all_fn, find])
    e, g = run(prog, all_fn, [])
    ctx.functions(g.inlined)
    items = None
    if e.complete and len(e.returns) == 1:
        items = e.items(next(iter(e.returns)))
    if items is None:
        ctx.skip('kinds', 'the list of all kinds')
    else:
        qs = [i[1] for i in items if i[0] == 'gvar']
        if len(qs) != len(items):
            ctx.skip('kinds', 'the list of all kinds')
        else:
            for n, q in insts:
                ctx.expect(qs.count(q) == 1, 'kinds', all_fn.file, all_fn.line, all_fn.q, '%s is %d times in the list of all content kinds' % (n, qs.count(q)), 'all:%s' % n, '%s is in the list' % n)
    for n, q in insts:
        v = prog.globals[q]
        t = prog.global_term(q)
        name = literal(t[2]) if t and t[0] == 'obj' and len(t) > 2 else None
        if name is None:
            ctx.skip('kinds', 'name of %s' % n)
            continue
        if n in KINDS:
            ctx.expect(name == KINDS[n], 'kinds', v['file'] if 'file' in v else find.file, v.get('line', find.line), q, '%s is named "%s" rather than "%s"' % (n, name, KINDS[n]), 'name:%s' % n, '%s is "%s"' % (n, name))
        s = None
        if len(t) > 3:
            s = t[3]
            while s is not None and s[0] in ('gvar', 'obj') and literal(s) is None:
                s = prog.global_term(s[1]) if s[0] == 'gvar' else s[2] if len(s) == 3 else ('null',)
            s = literal(s) if s is not None else None
            if s is None and t[3] not in (('null',), ('gvar', 'boost::none')):
                ctx.skip('kinds', 'scope of %s' % n)
                continue
        want = next((k for k, v in SCOPES.items() if n in v), None)
        if n in KINDS:
            ctx.expect(s == want, 'kinds', find.file, find.line, q, '%s has the scope %s rather than %s' % (n, s, want), 'scope:%s' % n, 'scope of %s' % n)
        for x, rule in ((name, 'kinds'), (name.upper(), 'case'), (name.capitalize(), 'case')):
            e, g = run(prog, find, [('str', x)])
            ctx.functions(g.inlined)
            if not e.complete or e.unknown or any(absint.TOP in absint.deep(r) for r in e.returns):
                ctx.skip(rule, 'from_name of "%s"' % x)
                continue
            ctx.expect(set(e.returns) == {('gvar', q)}, rule, find.file, find.line, find.q, '"%s", the name of %s, is read as %s' % (x, n, ', '.join(show(r) for r in e.returns) or 'refused'), 'find:%s' % x, '"%s" is %s' % (x, n))
    for x in ('', 'x', 'featur', 'features', 'advert', 'public-service-announcement', 'unknown', ' test'):
        e, g = run(prog, find, [('str', x)])
        if not e.complete or e.unknown or any(absint.TOP in absint.deep(r) for r in e.returns):
            ctx.skip('unknown', 'from_name of "%s"' % x)
            continue
        ctx.expect(not e.returns, 'unknown', find.file, find.line, find.q, '"%s", the name of no content kind, is read as %s' % (x, ', '.join(show(r) for r in e.returns)), 'find:%s' % x, 'refused "%s"' % x)


def channels(ctx, prog):
    """Identifiers of sound channels, which depend on the sound field"""
    to, back = prog.one('dcp::channel_to_mca_id'), prog.one('dcp::mca_id_to_channel')
    ctx.functions([to, back])
    fields = [c for c in prog.enums['dcp::MCASoundField']['c'] if c[0] != 'OTHER']
    for field in fields:
        texts = {}
        for c in prog.enums['dcp::Channel']['c']:
            if 'COUNT' in c[0]:
                continue
            e, g = run(prog, to, [('enum', 'dcp::Channel::' + c[0], c[1]), ('enum', 'dcp::MCASoundField::' + field[0], field[1])])
            ctx.functions(g.inlined)
            ls = set(literal(x) for x in e.returns)
            if not e.complete or None in ls or len(ls) > 1:
                ctx.skip('text', 'identifier of %s' % c[0])
                continue
            ctx.expect(bool(ls), 'text', to.file, to.line, to.q, 'the channel %s has no identifier' % c[0], 'channel:%s' % c[0], 'channel %s' % c[0])
            if not ls:
                continue
            t = ls.pop()
            same = [n for n, x in texts.items() if x == t]
            ctx.expect(not same, 'text', to.file, to.line, to.q, 'the channels %s and %s have the same identifier %s' % (c[0], same[0] if same else '', t), 'channel:same:%s:%s' % (field[0], c[0]), '%s is %s' % (c[0], t))
            texts[c[0]] = t
            for x, rule in ((t, 'round-trip'), (t.upper(), 'case'), (t.lower(), 'case')):
                e, g = run(prog, back, [('str', x)])
                ctx.functions(g.inlined)
                vals = set(enum_of(r) for r in e.returns)
                if not e.complete or e.unknown or any(v[0] not in ('enum', 'const', 'null') and not (v[0] in ('obj', 'list') and len(v) == 2) for v in vals):
                    ctx.skip(rule, 'mca_id_to_channel of "%s"' % x)
                    continue
                ctx.expect([v[-1] for v in vals] == [c[1]], rule, back.file, back.line, back.q, '"%s", the identifier of %s, is read as %s' % (x, c[0], ', '.join(show(v) for v in vals)), 'channel:%s:%s' % (rule, x), '"%s" is %s' % (x, c[0]))
    for x in ('', 'x', 'lf', 'cs', 'l ', 'vi', 'ds'):
        e, g = run(prog, back, [('str', x)])
        vals = set(enum_of(r) for r in e.returns)
        if not e.complete or e.unknown:
            ctx.skip('unknown', 'mca_id_to_channel of "%s"' % x)
            continue
        bad = [v for v in vals if v[0] in ('enum', 'const')]
        ctx.expect(not bad, 'unknown', back.file, back.line, back.q, '"%s", the identifier of no channel, is read as %s' % (x, ', '.join(show(v) for v in bad)), 'channel:unknown:%s' % x, 'refused "%s"' % x)
