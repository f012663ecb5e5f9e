"""C08: file operations do what their name says with the paths that they are given, also with long ones"""

import ir
from cfg import Graph, show, root
from loops import LoopEval, table

EXPLANATION = (
    'Each function of dcp::filesystem is evaluated along each combination of its conditions: it must call the operation of the same name exactly once, with its own arguments in their order '
    '(each path made safe for its length first) and with the error code if one was given, and return what that gives. '
    'Iterators go through all entries of the directory given. All other code of the library must use these functions: every call of a boost::filesystem operation that touches files is looked at.')

NS, BF = 'dcp::filesystem::', 'boost::filesystem::'
FIX, UNFIX = NS + 'fix_long_path', NS + 'unfix_long_path'
THIS = ('deref', ('this',))
TOUCH = {'exists', 'is_directory', 'is_empty', 'is_regular_file', 'is_symlink', 'is_other', 'create_directory', 'create_directories', 'copy', 'copy_file', 'copy_directory', 'copy_symlink', 'remove', 'remove_all',
         'file_size', 'rename', 'create_hard_link', 'create_symlink', 'create_directory_symlink', 'space', 'last_write_time', 'hard_link_count', 'canonical', 'weakly_canonical', 'status', 'symlink_status',
         'resize_file', 'read_symlink', 'equivalent', 'permissions', 'directory_iterator::(ctor)', 'recursive_directory_iterator::(ctor)'}
PURE = {'current_path', 'system_complete'}


class Unknown(Exception):
    pass


def mem(n):
    return ('mem', THIS, n)


def strip(t):
    while t[0] == 'cast' or t[0] == 'addr' and t[1][0] == 'deref' or t[0] == 'obj' and t[1] == 'boost::filesystem::path' and len(t) == 3:
        t = t[2] if t[0] == 'cast' or t[0] == 'obj' else t[1][1]
    return t


def policy(callee, caller, depth):
    return callee.file.endswith(('filesystem.cc', 'filesystem.h')) and callee.q not in (FIX, UNFIX)


def rows(g):
    r = table(lambda d: LoopEval(g, None, {}, decide=d).run())
    if r is None:
        raise Unknown('too many conditions')
    for d, e in r:
        if not e.complete:
            raise Unknown('not evaluated')
    return r


def wrapper(ctx, prog, f):
    g = Graph(prog, f, policy)
    ctx.functions([f.key] + list(g.inlined))
    name = f.q[len(NS):]
    ptypes = [f.type(p['t']) if isinstance(p, dict) else '' for p in f.params]
    seen = set()

    def bad(what, message, line=None):
        if what not in seen:
            seen.add(what)
            ctx.violation('wrappers', f.file, line or f.line, f.q, message, '%s(%d):%s' % (f.q, len(f.params), what))
    for d, e in rows(g):
        fs = [(n, env) for n, env in e.calls if n.q.startswith(BF) and n.q.count('::') == 2]
        acts = [(n, env) for n, env in fs if n.q[len(BF):] == name and (n.args or not f.params)]
        others = [(n, env) for n, env in fs if (n, env) not in acts and n.q[len(BF):] not in PURE]
        when = ''.join(', %s is %s' % (show(c), v) for c, v in d.items())
        if not f.params and not acts:
            acts = [(n, env) for n, env in fs if n.q[len(BF):] == name]
        if not acts:
            st = [x for x in others if x[0].q[len(BF):] in ('status', 'symlink_status')]
            if st or not fs and any(n.q not in (FIX, UNFIX) for n, env in e.calls):
                raise Unknown('done in another way')
            bad('missing', 'does not %s%s%s' % (name, when, ' but ' + ', '.join(n.q for n, env in others) if others else ''))
            continue
        if len(acts) > 1:
            bad('twice', 'does %s %d times%s' % (name, len(acts), when))
            continue
        if others:
            if any(n.q[len(BF):] in ('status', 'symlink_status') for n, env in others):
                raise Unknown('done in another way')
            if any(n.q[len(BF):] in TOUCH for n, env in others):
                bad('others', 'also calls %s%s' % (', '.join(n.q for n, env in others), when))
                continue
        n, env = acts[0]
        args = [e.ev(a, env) for a in n.args]
        given = [x for x in g.params]
        for i, p in enumerate(given):
            t = ptypes[i]
            if 'CopyOptions' in t:
                continue
            if i >= len(args):
                bad('arg%d' % i, 'its argument %s is not used' % show(p))
                continue
            for v in args[i]:
                v = strip(v)
                if 'filesystem::path' in t:
                    fixed = v[0] == 'call' and v[1] == FIX and len(v[3]) == 1
                    inner = strip(v[3][0]) if fixed else v
                    if inner != p:
                        bad('arg%d' % i, 'argument %d of %s is %s and not %s' % (i + 1, name, show(inner), show(p)), n.line)
                    elif not fixed:
                        bad('long%d' % i, 'argument %d of %s is not made safe for long paths' % (i + 1, name), n.line)
                    else:
                        ctx.ok('wrappers', '%s(%d): argument %d' % (name, len(given), i + 1))
                else:
                    if v != p and strip(v) != p:
                        bad('arg%d' % i, 'argument %d of %s is %s and not %s' % (i + 1, name, show(v), show(p)), n.line)
                    else:
                        ctx.ok('wrappers', '%s(%d): argument %d' % (name, len(given), i + 1))
        opt = [i for i, t in enumerate(ptypes) if 'CopyOptions' in t]
        if opt:
            over = None
            for c, v in d.items():
                if c[0] == 'bin' and c[1] == '==' and given[opt[0]] in [strip(x) for x in c[2:]]:
                    en = [x for x in c[2:] if strip(x)[0] == 'enum']
                    if en:
                        over = v if strip(en[0])[1].endswith('OVERWRITE_EXISTING') else (not v)
            if over is None and any(given[opt[0]] in list(sub(c)) for c in d):
                raise Unknown('the option is looked at in another way')
            if over is None:
                bad('option', 'whether to overwrite does not depend on what was asked for')
            else:
                vals = set(strip(x) for x in args[opt[0]]) if opt[0] < len(args) else set()
                ok = len(vals) == 1 and next(iter(vals))[0] == 'enum' and ('overwrite' in next(iter(vals))[1]) == over
                if not ok:
                    bad('option', '%s with %s where existing files are %sto be overwritten' % (name, ', '.join(show(x) for x in vals) or 'no option', '' if over else 'not '), n.line)
                else:
                    ctx.ok('wrappers', '%s(%d): overwriting' % (name, len(given)))
        if f.ret() if callable(f.ret) else f.ret:
            ret = f.ret() if callable(f.ret) else f.ret
            if ret != 'void':
                for v in e.returns:
                    x = strip(v)
                    if x[0] == 'call' and x[1] == UNFIX and len(x[3]) == 1:
                        x = strip(x[3][0])
                    elif 'path' in ret and x[0] == 'call' and x[1] == n.q:
                        bad('unfix', 'the result is given back with what was added to make it safe for long paths')
                        continue
                    if x[0] == 'call' and x[1] == n.q or x == n.dst:
                        ctx.ok('wrappers', '%s(%d): result' % (name, len(given)))
                    elif x[0] in ('const', 'not', 'bin', 'null') or x in (('true',), ('false',)):
                        bad('result', 'the result is %s and not that of %s%s' % (show(x), name, when))
                    else:
                        raise Unknown('the result is %s' % show(x))


def extension(ctx, prog, f):
    g = Graph(prog, f, policy)
    ctx.functions([f.key])
    for d, e in rows(g):
        for v in e.returns:
            names = []
            x = strip(v)
            while x[0] == 'call' and x[2] is not None and x[1].startswith(BF + 'path::'):
                names.append(x[1].split('::')[-1])
                x = strip(x[2])
            if x[0] == 'call' and x[1] == FIX:
                x = strip(x[3][0])
            names.reverse()
            if x != g.params[0] or not names:
                raise Unknown('the result is %s' % show(v))
            ctx.expect(names[0] == 'extension' and set(names[1:]) <= {'string', 'native', 'c_str'}, 'wrappers', f.file, f.line, f.q, 'the result is %s' % show(v), f.q + ':result', 'extension')


def change_extension(ctx, prog, f):
    g = Graph(prog, f, policy)
    ctx.functions([f.key])
    for d, e in rows(g):
        for v in e.returns:
            x = strip(v)
            if x[0] == 'mut' and x[1] == BF + 'path::replace_extension':
                ctx.expect(x[2] == g.params[0] and [strip(y) for y in x[3]] == [g.params[1]], 'wrappers', f.file, f.line, f.q, 'the result is %s' % show(v), f.q + ':result', 'change_extension')
            elif x == g.params[0]:
                ctx.violation('wrappers', f.file, f.line, f.q, 'the extension is not changed', f.q + ':result')
            else:
                raise Unknown('the result is %s' % show(v))


def weakly_canonical(ctx, prog, f):
    g = Graph(prog, f, policy)
    rs = rows(g)
    if any(n.q == BF + 'weakly_canonical' for n, env in rs[0][1].calls):
        return wrapper(ctx, prog, f)
    ctx.functions([f.key])
    for d, e in rs:
        if len(e.loops) != 1:
            raise Unknown('%d loops' % len(e.loops))
        lp = next(iter(e.loops.values()))
        up = dot = link = upname = None
        part = None
        for c, v in d.items():
            if c[0] == 'bin' and c[1] == '==' and any(x[0] == 'str' or x[0] == 'obj' for x in c[2:]):
                s = [strip(x) for x in c[2:] if strip(x)[0] == 'str']
                o = [strip(x) for x in c[2:] if strip(x)[0] != 'str']
                if len(s) != 1:
                    raise Unknown(show(c))
                if o[0][0] == 'elem':
                    part = o[0]
                    if s[0][1] == '..':
                        up = v
                    elif s[0][1] == '.':
                        dot = v
                elif o[0][0] == 'call' and o[0][1].endswith('::filename'):
                    if s[0][1] == '..':
                        upname = v
                else:
                    raise Unknown(show(c))
            elif c[0] == 'call' and c[1] == BF + 'is_symlink':
                link = v
            else:
                raise Unknown(show(c))
        texts = [p for p in lp.next if any(('lv', lp.head.id, p) in list(sub(x)) or p in list(sub(x)) for x in e.returns)]
        if len(texts) != 1 or len(lp.next[texts[0]]) != 1:
            raise Unknown('the result')
        lv = ('lv', lp.head.id, texts[0])
        v = next(iter(lp.next[texts[0]]))
        if v == lv:
            got = 'kept'
        elif v[0] == 'mut' and v[1] == BF + 'path::operator/=' and v[2] == lv:
            got = 'added' if strip(v[3][0])[0] == 'elem' else 'other'
            part = strip(v[3][0])
        elif v[0] == 'call' and v[1] == BF + 'path::parent_path' and v[2] == lv:
            got = 'parent'
        elif v[0] == 'call' and v[1] == BF + 'operator/' and v[3][0] == lv:
            got = 'added'
        else:
            raise Unknown('a part gives %s' % show(v))
        if up:
            if link or upname:
                want = 'added'
            elif link is False and upname is False:
                want = 'parent'
            else:
                ctx.violation('canonical', f.file, f.line, f.q, 'a ".." takes away what is before it without asking whether that is a link or a ".." itself' if got == 'parent' else 'a ".." is %s' % got, f.q + ':dotdot')
                continue
        elif dot:
            want = 'kept'
        elif up is False and dot is False:
            want = 'added'
        else:
            ctx.violation('canonical', f.file, f.line, f.q, 'parts are %s without asking whether they are %s' % (got, '".."' if up is None else '"."'), f.q + ':parts')
            continue
        ctx.expect(got == want, 'canonical', f.file, f.line, f.q, 'a part %s is %s and not %s' % ('".." (link %s, after ".." %s)' % (link, upname) if up else '"."' if dot else 'with a name', got, want), '%s:%s' % (f.q, want), ', '.join('%s is %s' % (show(c)[:60], v) for c, v in d.items()))
        if part is not None and part[0] == 'elem':
            b = strip(part[1])
            ok = b[0] == 'call' and b[1] in (BF + 'system_complete', BF + 'absolute') and strip(b[3][0])[0] == 'call' and strip(b[3][0])[1] == FIX and strip(strip(b[3][0])[3][0]) == g.params[0]
            if not ok and b[0] != 'call' and b != g.params[0]:
                raise Unknown('the parts are those of %s' % show(b))
            ctx.expect(ok, 'canonical', f.file, f.line, f.q, 'the parts are those of %s and not of the whole path' % show(b), f.q + ':whole', 'whole path')


def sub(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from sub(i)


def iterators(ctx, prog):
    for cls in ('directory_iterator', 'recursive_directory_iterator'):
        r = prog.record(NS + cls)
        wrapped = [f['n'] for f in r['fields'] if 'boost::filesystem' in f['type'] and 'iterator' in f['type']]
        if len(wrapped) != 1:
            raise Unknown('%s wraps %d iterators' % (cls, len(wrapped)))
        w = mem(wrapped[0])
        for f in prog.get(NS + cls + '::(ctor)'):
            if f.body is None or not f.params or cls in f.type(f.params[0]['t']):
                continue
            g = Graph(prog, f, lambda a, b, d: False)
            ctx.functions([f.key])
            for d, e in rows(g):
                v = [(n, env) for n, env in e.calls if n.q == BF + cls + '::(ctor)' and n.args]
                if len(v) != 1:
                    if not v:
                        ctx.violation('iterators', f.file, f.line, f.q, 'does not go through the directory given', '%s(%d)' % (f.q, len(f.params)))
                        continue
                    raise Unknown('%s is made in %d ways' % (cls, len(v)))
                n, env = v[0]
                a = [strip(next(iter(e.ev(x, env)))) for x in n.args]
                x = a[0]
                if x[0] == 'call' and x[1] == FIX:
                    x = strip(x[3][0])
                ctx.expect(x == g.params[0], 'iterators', f.file, f.line, f.q, 'goes through %s and not through the directory given' % show(x), '%s(%d)' % (f.q, len(f.params)), cls)
                if len(g.params) > 1:
                    ctx.expect(len(a) > 1 and a[1] == g.params[1], 'iterators', f.file, f.line, f.q, 'the error code is not the one given', '%s(%d):ec' % (f.q, len(f.params)), cls + ': error code')

        def each(name):
            for f in prog.get(NS + cls + '::' + name):
                if f.body is not None:
                    g = Graph(prog, f, lambda a, b, d: False)
                    ctx.functions([f.key])
                    for d, e in rows(g):
                        yield f, g, d, e
        kept = False
        for f, g, d, e in each('operator++'):
            v = set(e.member(wrapped[0]) or ())
            kept = kept or set(e.member('_entry') or [mem('_entry')]) != {mem('_entry')}
            if v == {w}:
                inc = [n for n, env in e.calls if n.obj == w and n.q.split('::')[-1] in ('increment', 'operator++')]
                if inc:
                    continue
            bumped = {('bin', '+', w, ('const', 1))}
            if v != bumped and v != {w} and not all(x[0] in ('mut', 'bin', 'out') for x in v):
                raise Unknown('the next entry is %s' % ', '.join(show(x) for x in v))
            ok = v == bumped or all(x[0] == 'mut' and x[2] == w or x[0] == 'out' and x[1].endswith('operator++') for x in v)
            ctx.expect(ok, 'iterators', f.file, f.line, f.q, 'does not go on by one entry', f.q, f.q)
        for name in ('operator*', 'operator->'):
            for f, g, d, e in each(name):
                for v in e.returns:
                    x = strip(v)
                    if x[0] == 'addr':
                        x = strip(x[1])
                    if x == mem('_entry'):
                        vals = e.member('_entry')
                        x = strip(next(iter(vals))) if vals and len(vals) == 1 else x
                    if not any(y == w for y in sub(x)):
                        stale = x == mem('_entry')
                        if not stale or kept:
                            raise Unknown('%s gives %s' % (f.q, show(v)))
                        ctx.violation('iterators', f.file, f.line, f.q, 'the entry is not the present one', f.q)
                        continue
                    changed = [y[1] for y in sub(x) if y[0] in ('call', 'mut') and y[1].startswith(BF + 'path::') and y[1].split('::')[-1] not in ('(ctor)', 'string', 'native', 'c_str', 'generic_string')]
                    ctx.expect(not changed, 'iterators', f.file, f.line, f.q, 'the path of the entry is changed by %s' % ', '.join(changed), f.q, f.q)
        for f, g, d, e in each('operator!='):
            for v in e.returns:
                x = strip(v)
                pos = True
                while x[0] == 'not':
                    x, pos = strip(x[1]), not pos
                o = ('mem', g.params[0], wrapped[0])
                if x[0] != 'bin' or x[1] not in ('==', '!='):
                    raise Unknown('%s gives %s' % (f.q, show(v)))
                ctx.expect((x[1] == '!=') == pos and {strip(x[2]), strip(x[3])} == {w, o}, 'iterators', f.file, f.line, f.q, 'compares %s' % show(v), f.q, f.q)
    for f in prog.get(NS + 'end'):
        if f.body is None:
            continue
        g = Graph(prog, f, lambda a, b, d: False)
        ctx.functions([f.key])
        for d, e in rows(g):
            for v in e.returns:
                x = strip(v)
                if x == g.params[0] or x[0] == 'obj':
                    ctx.expect(x[0] == 'obj' and len(x) == 2, 'iterators', f.file, f.line, f.q, 'the end is %s' % show(v), f.key, f.key)
    for f in prog.get(NS + 'begin'):
        if f.body is None:
            continue
        g = Graph(prog, f, lambda a, b, d: False)
        ctx.functions([f.key])
        for d, e in rows(g):
            for v in e.returns:
                x = strip(v)
                if x == g.params[0] or x[0] == 'obj':
                    ctx.expect(x == g.params[0], 'iterators', f.file, f.line, f.q, 'the beginning is %s' % show(v), f.key, f.key)
    for f in prog.get(NS + 'directory_entry::(ctor)'):
        if f.body is None or not f.params or 'directory_entry' in f.type(f.params[0]['t']):
            continue
        g = Graph(prog, f, lambda a, b, d: False)
        for d, e in rows(g):
            v = e.member('_path')
            ctx.expect(set(strip(x) for x in v or ()) == {g.params[0]}, 'iterators', f.file, f.line, f.q, 'the path of an entry is %s' % ', '.join(show(x) for x in v or ()), f.q, f.q)
    for name in ('path', 'operator const boost::filesystem::path &'):
        for f in prog.get(NS + 'directory_entry::' + name):
            if f.body is None:
                continue
            g = Graph(prog, f, lambda a, b, d: False)
            for d, e in rows(g):
                for v in e.returns:
                    x = strip(v)
                    if x[0] == 'call' and x[1] == UNFIX:
                        x = strip(x[3][0])
                    ctx.expect(x == mem('_path'), 'iterators', f.file, f.line, f.q, 'gives %s and not the path of the entry' % show(v), f.q, f.q)


def long_path(ctx, prog):
    for q in (FIX, UNFIX):
        fs = [f for f in prog.get(q) if f.body is not None]
        if not fs:
            raise ir.AnalysisBroken('there is no function %s' % q)
        f = fs[0]
        g = Graph(prog, f, policy)
        ctx.functions([f.key])
        for d, e in rows(g):
            for v in e.returns:
                ctx.expect(strip(v) == g.params[0], 'wrappers', f.file, f.line, f.q, 'a path is changed to %s where there is nothing to make safe' % show(v), q, q)


def funnel(ctx, prog):
    """Other code uses the functions of dcp::filesystem"""
    n = 0
    for f in prog.functions.values():
        if f.body is None or not f.file.startswith('src/') or f.file.endswith(('filesystem.cc', 'filesystem.h')):
            continue
        for x in ir.walk(f.body):
            if not isinstance(x, dict):
                continue
            c = x.get('c')
            q = x.get('q') or (c.get('q') if isinstance(c, dict) else None) or ''
            if not isinstance(q, str):
                continue
            if q.startswith(NS):
                n += 1
                ctx.ok('funnel', '%s:%s' % (f.file, x.get('l')))
            elif q.startswith(BF) and q[len(BF):] in TOUCH and x.get('e') in ('call', 'ctor'):
                ctx.violation('funnel', f.file, x.get('l') or f.line, f.q, '%s is used directly, so that long paths do not work' % q, '%s:%s' % (f.q, q))
    return n


def check(ctx, prog):
    ctx.rule('wrappers', 'each operation is the one of its name, on the paths given, with the error code given, and its result is given back', 50)
    ctx.rule('canonical', 'weakly_canonical takes "." away, and ".." with what is before it unless that is a link or a ".."', 5)
    ctx.rule('iterators', 'iterators go through the entries of the directory given', 14)
    ctx.rule('funnel', 'all file operations of the library go through dcp::filesystem', 30)
    names = 0
    for f in sorted(prog.functions.values(), key=lambda f: f.key):
        if f.body is None or not f.q.startswith(NS) or f.q.count('::') != 2 or not f.file.endswith('filesystem.cc'):
            continue
        name = f.q[len(NS):]
        if name in ('begin', 'end', 'fix_long_path', 'unfix_long_path'):
            continue
        if name not in TOUCH and name not in ('absolute', 'current_path', 'extension', 'change_extension'):
            continue
        names += 1
        special = {'extension': extension, 'change_extension': change_extension, 'weakly_canonical': weakly_canonical}.get(name)
        ctx.attempt('canonical' if name == 'weakly_canonical' else 'wrappers', f.key, lambda: (special or wrapper)(ctx, prog, f))
    if not names:
        raise ir.AnalysisBroken('there are no functions in dcp::filesystem')
    ctx.attempt('wrappers', 'long paths', lambda: long_path(ctx, prog))
    ctx.attempt('iterators', 'iterators', lambda: iterators(ctx, prog))
    ctx.attempt('funnel', 'funnel', lambda: funnel(ctx, prog))
