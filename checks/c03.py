"""C03: equality of values compares every part, like with like"""

import closeness
import relation as R
from relation import Relation, bool_set, fields, norm
from cfg import show

EXPLANATION = (
    'Every equality operator and comparison method of a libdcp class is evaluated over its flow graph by conditional constant '
    'propagation in a domain where each compared part of the two objects is less, equal or greater: once with all parts equal '
    '(must give "equal"), and once per data member with just that member different (must be able to give "not equal"); operands '
    'of each comparison must be the same part of the two objects. Counts are of the functions, members and comparisons found in this run.')

# Members which are not part of an object's value
NOT_VALUE = {
    'dcp::TextImage': {'_file': 'where the image was loaded from'},
    'dcp::Certificate': {'_certificate': 'seen through the PEM text', '_public_key': 'derived cache'},
    'dcp::EncryptedKDM': {'_data': 'seen through the XML text'},
    'dcp::LocalTime': {'_offset': 'two times are compared as instants'},
    'dcp::VerificationNote': {'_data': 'by key', '_location': 'by key'},
    'dcp::filesystem::directory_iterator': {'_entry': 'derived'},
    'dcp::filesystem::recursive_directory_iterator': {'_entry': 'derived'},
}

# Members seen through another name
KEYED = {
    'dcp::VerificationNote': ['dcp::VerificationNote::Data', 'dcp::VerificationNote::Location'],
}

# Comparison methods: the members each is expected to cover.  (Members that the methods are
# documented to leave to options, or that only describe where an object is, are not listed.)
METHODS = {
    'dcp::Chromaticity::about_equal': ['x', 'y'],
    'dcp::ColourConversion::about_equal': ['_in', '_yuv_to_rgb', '_red', '_green', '_blue', '_white', '_adjusted_white', '_out'],
    'dcp::GammaTransferFunction::about_equal': ['_gamma'],
    'dcp::ModifiedGammaTransferFunction::about_equal': ['_power', '_threshold', '_A', '_B'],
    'dcp::Asset::equals': ['_hash'],
    'dcp::CPL::equals': ['_annotation_text', '_content_kind', '_reels'],
    'dcp::DCP::equals': ['_cpls'],
    'dcp::Reel::equals': ['_main_picture', '_main_sound', '_main_subtitle', '_main_caption', '_main_markers', '_closed_subtitles', '_closed_captions', '_atmos'],
    'dcp::ReelAsset::asset_equals': ['_intrinsic_duration', '_duration', '_annotation_text', '_edit_rate', '_entry_point'],
    'dcp::ReelFileAsset::file_asset_equals': ['_hash', '_asset_ref'],
    'dcp::ReelPictureAsset::equals': ['_frame_rate', '_screen_aspect_ratio', '_hash', '_asset_ref', '_intrinsic_duration', '_duration', '_edit_rate', '_entry_point'],
    'dcp::ReelSoundAsset::equals': ['_hash', '_asset_ref', '_intrinsic_duration', '_duration', '_edit_rate', '_entry_point'],
    'dcp::ReelTextAsset::equals': ['_hash', '_asset_ref', '_intrinsic_duration', '_duration', '_edit_rate', '_entry_point'],
    'dcp::ReelAtmosAsset::equals': ['_hash', '_asset_ref', '_intrinsic_duration', '_duration', '_edit_rate', '_entry_point'],
    'dcp::Text::equals': ['_in', '_out', '_h_position', '_h_align', '_v_position', '_v_align', '_z_position', '_variable_z_positions', '_fade_up_time', '_fade_down_time'],
    'dcp::TextString::equals': ['_font', '_italic', '_bold', '_underline', '_colour', '_size', '_aspect_adjust', '_direction', '_text', '_effect', '_effect_colour', '_space_before', '_rubies',
                                '_in', '_out', '_h_position', '_h_align', '_v_position', '_v_align', '_z_position', '_variable_z_positions', '_fade_up_time', '_fade_down_time'],
    'dcp::TextImage::equals': ['_png_image', '_in', '_out', '_h_position', '_h_align', '_v_position', '_v_align', '_z_position', '_variable_z_positions', '_fade_up_time', '_fade_down_time'],
    'dcp::TextAsset::equals': ['_texts'],
    'dcp::InteropTextAsset::equals': ['_movie_title', '_load_font_nodes', '_texts'],
    'dcp::SMPTETextAsset::equals': ['_content_title_text', '_language', '_annotation_text', '_issue_date', '_reel_number', '_edit_rate', '_time_code_rate', '_start_time', '_load_font_nodes', '_texts'],
}

# Methods which compare their first two arguments
ARGUMENTS = {
    'dcp::J2KPictureAsset::descriptor_equals': ['EditRate', 'SampleRate', 'StoredWidth', 'StoredHeight', 'AspectRatio', 'Rsize', 'Xsize', 'Ysize', 'XOsize', 'YOsize', 'XTsize', 'YTsize', 'XTOsize', 'YTOsize',
                                               'Csize', 'ContainerDuration'],
}

# Comparisons within a tolerance: their parts, and whether the other object may be of another kind
CLOSE = {
    'dcp::Chromaticity::about_equal': (['x', 'y'], False),
    'dcp::GammaTransferFunction::about_equal': (['_gamma'], True),
    'dcp::IdentityTransferFunction::about_equal': ([], True),
    'dcp::SGamut3TransferFunction::about_equal': ([], True),
    'dcp::ModifiedGammaTransferFunction::about_equal': (['_power', '_threshold', '_A', '_B'], True),
    'dcp::ColourConversion::about_equal': (['_in', '_yuv_to_rgb', '_red.x', '_red.y', '_green.x', '_green.y', '_blue.x', '_blue.y', '_white.x', '_white.y', '_adjusted_white.x', '_adjusted_white.y', '_out'], False),
}


def close(ctx, prog, fn, parts, kind):
    r = closeness.Rows(prog, fn, lambda a, b, d: a.file.startswith('src/') and not a.file.endswith(('exceptions.cc', 'compose.hpp')))
    ctx.functions([fn.key] + list(r.g.inlined))
    rows = r.run()
    for x in r.unlike:
        ctx.violation('like-with-like', fn.file, fn.line, fn.q, 'compares %s' % x, '%s: %s' % (fn.q, x))
    bad = closeness.judge(rows, [tuple(p.split('.')) for p in parts], kind)
    for facts, what in bad:
        ctx.violation('tolerance', fn.file, fn.line, fn.q, '%s (in the case %s)' % (what, '; '.join(' '.join(str(i) if not isinstance(i, tuple) else '.'.join(i) for i in f) for f in facts)), '%s: %s' % (fn.q, what))
    if not bad:
        for i in rows:
            ctx.ok('tolerance', '%s: %d cases' % (fn.q, len(rows)))


def keyed(prog, cls):
    out = []
    for e in KEYED.get(cls, []):
        for v in prog.enum(e)['c']:
            out.append('%s::%s' % (e, v[0]))
    return out


def one(ctx, prog, fn, cls, must, negate, method, arguments=False):
    names = set(prog.bases(cls))
    rel = Relation(prog, fn, R.policy(names, prog), arguments)
    ctx.functions([fn.key] + list(rel.g.inlined))
    d = rel.discover()
    if not d.complete or rel.g.truncated:
        ctx.skip('covers', fn.q)
        return
    bool_set(d)
    keys = list(d.keys)
    name = fn.q if fn.cls else '%s(%s)' % (fn.q, cls.split('::')[-1])
    reported = False
    for n, x, y in d.unlike:
        if len(str(x)) > 600 or len(str(y)) > 600:
            continue
        ctx.violation('like-with-like', n.file, n.line, fn.q, 'compares %s of one object with %s of the other' % (show_part(x), show_part(y)),
                      '%s: %s / %s' % (name, show_part(x), show_part(y)))
        reported = True
    if not reported:
        ctx.ok('like-with-like', '%s: %d comparisons' % (fn.q, len(keys)))
    equal = rel.run(lambda k: {0})
    res = bool_set(equal)
    want = not negate
    if not keys:
        if not must:
            return
    if res == {not want}:
        ctx.violation('reflexive', fn.file, fn.line, fn.q, 'objects equal in every compared part are reported %s' % ('unequal' if not negate else 'unequal (the operator says they differ)'),
                      '%s: reflexive' % name)
    elif res == {want}:
        ctx.ok('reflexive', fn.q)
    elif not method:
        ctx.skip('reflexive', fn.q)
    whole = [k for k in keys if '*' in fields(k)]
    for f in must:
        mine = [k for k in keys if f in fields(k)]
        if not mine and whole:
            # only seen through a view of the whole object
            mine = whole
        if not mine:
            ctx.violation('covers', fn.file, fn.line, fn.q, 'two objects that differ only in %s are reported equal: it is never compared' % f, '%s: %s' % (name, f))
            continue
        ok = True
        if any(negate not in bool_set(rel.run(lambda k: {s} if k in mine else {0})) for s in (-1, 1)):
            ctx.violation('covers', fn.file, fn.line, fn.q, 'two objects that differ only in %s are reported equal' % f, '%s: %s' % (name, f))
            ok = False
        else:
            # each comparison that involves the member must matter on its own
            for k in mine:
                if k[0] == 'pair' or any(t[0] in ('elem', 'size') for t in R.subterms(k)):
                    continue
                if any(negate not in bool_set(rel.run(lambda kk: {s} if kk == k else {0})) for s in (-1, 1)):
                    n = d.keys[k]
                    ctx.violation('covers', n.file, n.line, fn.q, 'a difference in %s does not affect the result' % show_part(k), '%s: %s' % (name, show_part(k)))
                    ok = False
        if ok:
            ctx.ok('covers', '%s: %s' % (name, f))


def show_part(t):
    return show(t).replace('A()', 'a').replace('B()', 'b')


def blocks(ctx, prog, fn, neg):
    """Blocks of bytes are equal if their sizes are and all of their bytes are"""
    from cfg import Graph
    from loops import LoopEval, table
    g = Graph(prog, fn, lambda c, a, d: c.file == fn.file)
    ctx.functions([fn.key])

    def strip(t):
        while t[0] == 'cast':
            t = t[2]
        return t
    for d, e in table(lambda d: LoopEval(g, None, {}, decide=d).run()):
        size = same = None
        for c, v in d.items():
            if c[0] != 'bin':
                raise ValueError(show(c))
            l, r = strip(c[2]), strip(c[3])
            names = [x[1].split('::')[-1] for x in (l, r) if x[0] == 'call']
            if names == ['size', 'size'] and c[1] == '==' and {l[2], r[2]} == set(g.params):
                size = v
            elif names == ['memcmp'] and c[1] == '==':
                m, k = (l, r) if l[0] == 'call' else (r, l)
                a = [strip(x) for x in m[3]]
                ctx.expect(k in (('const', 0),), 'blocks', fn.file, fn.line, fn.q, 'the bytes are equal if memcmp gives %s' % show(k), fn.key + ':zero', fn.key + ': memcmp')
                ok = all(x[0] == 'call' and x[1].endswith('::data') for x in a[:2]) and {a[0][2], a[1][2]} == set(g.params) and a[2][0] == 'call' and a[2][1].endswith('::size')
                ctx.expect(ok, 'blocks', fn.file, fn.line, fn.q, 'compares %s' % ', '.join(show(x) for x in a), fn.key + ':bytes', fn.key + ': bytes')
                ctx.expect(size is True, 'blocks', fn.file, fn.line, fn.q, 'bytes are compared without knowing that there are as many in both', fn.key + ':beyond', fn.key + ': within')
                same = v
            else:
                raise ValueError(show(c))
        for v in e.returns:
            if v[0] != 'const' and v not in (('true',), ('false',)):
                raise ValueError(show(v))
            got = bool(v[1]) if v[0] == 'const' else v == ('true',)
            got = got != neg
            want = size is True and same is True
            ctx.expect(got == want, 'blocks', fn.file, fn.line, fn.q, 'says that blocks are %s where the sizes are %s and the bytes %s' % ('equal' if got else 'different', {True: 'equal', False: 'different', None: 'not compared'}[size], {True: 'equal', False: 'different', None: 'not compared'}[same]), fn.key + ':result', '%s: %s %s' % (fn.key, size, same))


def check(ctx, prog):
    ctx.rule('blocks', 'blocks of bytes are equal exactly if their sizes and all of their bytes are', floor=6)
    for op in ('==', '!='):
        for fn in prog.get('dcp::operator' + op):
            if fn.body is not None and fn.file.endswith('data.cc'):
                ctx.attempt('blocks', fn.key, lambda: blocks(ctx, prog, fn, op == '!='))
    ctx.rule('reflexive', 'with every compared part equal, == gives true and != gives false', floor=40)
    ctx.rule('covers', 'with exactly one data member different, == can give false (and != true); members listed as not part of the value are exempt', floor=120)
    ctx.rule('like-with-like', 'the two operands of a comparison are the same part of the two objects', floor=40)
    for fn in sorted(prog.functions.values(), key=lambda f: f.key):
        op = fn.d.get('op')
        if op in ('==', '!=') and fn.q.startswith('dcp::') and fn.body is not None:
            if len(fn.params) + (1 if fn.cls else 0) != 2:
                continue
            cls = R.operand_class(fn)
            if cls not in prog.records:
                continue
            if R.strip(fn.type(fn.params[-1]['t'])) != cls:
                continue
            ignore = NOT_VALUE.get(cls, {})
            must = [f['n'] for c, f in prog.all_fields(cls) if f['n'] not in ignore] + keyed(prog, cls)
            one(ctx, prog, fn, cls, must, op == '!=', False)
    ctx.rule('tolerance', 'comparisons within a tolerance say "equal" only if every part was found to match and "not equal" only if some part was found not to', floor=20)
    for q, (parts, kind) in CLOSE.items():
        for fn in prog.get(q):
            if fn.body is not None:
                ctx.attempt('tolerance', q, lambda: close(ctx, prog, fn, parts, kind))
    for q, must in METHODS.items():
        for fn in prog.get(q):
            if fn.body is None:
                continue
            one(ctx, prog, fn, fn.cls, must, False, True)
    for q, must in ARGUMENTS.items():
        for fn in prog.get(q):
            if fn.body is None:
                continue
            one(ctx, prog, fn, fn.cls, must, False, True, True)
