"""C05: failures of reading and writing files are reported, and files are written whole or not at all"""

import ir
from cfg import Graph, show, root
from loops import LoopEval, table
from c07 import Unknown, strip, mem, deep, THIS, is_set

EXPLANATION = (
    'Every function of the library that opens a dcp::File is evaluated along each combination of its conditions. A normal return needs: the file was asked whether it could be opened; each read or write gave as many items as were asked for; '
    'what was written was closed without an error. Pointer and length of what is written belong to the same object. checked_read and checked_write return normally only when everything has been done. '
    'A file that is written via a temporary one is replaced by renaming, after everything has been written.')

OPEN, BOOL = 'dcp::File::(ctor)', 'dcp::File::operator bool'
MOVE = {'dcp::File::write': 'write', 'dcp::File::read': 'read'}
USES = {'write', 'read', 'gets', 'puts', 'checked_write', 'checked_read', 'seek', 'tell', 'eof'}
EXTENT = {'data': 'size', 'c_str': 'size'}


def rows(g, limit=8):
    r = table(lambda d: LoopEval(g, None, {}, decide=d).run(), limit)
    if r is None:
        raise Unknown('too many conditions')
    for d, e in r:
        if not e.complete:
            raise Unknown('not evaluated')
    return r


def returns(e):
    """Whether the function returns in this row"""
    return any(k[0] == e.g.exit.id for k in e.states)


def plain(t):
    t = strip(t)
    while t[0] == 'obj' and len(t) == 3:
        t = strip(t[2])
    return t


def equal(d, a, b):
    """Whether conditions say that a == b"""
    for c, v in d.items():
        if c[0] != 'bin':
            continue
        p = [plain(c[2]), plain(c[3])]
        if p in ([a, b], [b, a]):
            if c[1] == '==':
                return v
            if c[1] == '>=' and p == [a, b] and v or c[1] == '>' and p == [b, a] and not v:
                return True
    return None


def original(t):
    """The object before what was done to it"""
    while t[0] in ('mut', 'out'):
        t = t[2] if t[0] == 'mut' else t[3][t[2]]
    return t


def functions(prog):
    for f in sorted(prog.functions.values(), key=lambda f: f.key):
        if f.body is None or not f.file.startswith('src/') or f.q.startswith('dcp::File::'):
            continue
        for x in ir.walk(f.body):
            if isinstance(x, dict) and x.get('e') == 'ctor' and (x.get('q') == OPEN or (x.get('c') or {}).get('q') == OPEN) and len(x.get('a', [])) == 2:
                yield f
                break


class Use:
    """One function that opens files"""

    def __init__(self, ctx, prog, f):
        self.ctx, self.prog, self.f = ctx, prog, f

    def policy(self, callee, caller, depth):
        return callee.file == self.f.file and not callee.q.startswith('dcp::File::') and callee.q.split('::')[-1] not in ('data', 'size')

    def bad(self, rule, what, message, line=None):
        self.ctx.violation(rule, self.f.file, line or self.f.line, self.f.q, message, '%s:%s' % (self.f.key, what))

    def run(self):
        ctx, f = self.ctx, self.f
        g = Graph(self.prog, f, self.policy)
        ctx.functions([f.key] + list(g.inlined))
        try:
            rs = rows(g)
        except Unknown:
            g = Graph(self.prog, f, lambda c, a, b: False)
            rs = rows(g)
        if not any(returns(e) for d, e in rs):
            self.bad('opened', 'always', 'never returns normally')
        for d, e in rs:
            if not returns(e):
                continue
            if any(n.q in ('dcp::File::get', 'dcp::File::take', 'dcp::File::open_error') for n, env in e.calls):
                raise Unknown('the handle is used')
            opened = {}
            for n, env in e.calls:
                if n.q == OPEN and len(n.args) == 2:
                    a = [plain(next(iter(e.ev(x, env)))) for x in n.args]
                    opened[('obj', 'dcp::File', a[0], a[1])] = n
            for o, n in opened.items():
                self.file(g, d, e, o, n)

    def file(self, g, d, e, o, at):
        ctx, f = self.ctx, self.f

        def mine(t):
            t = original(t)
            return t[0] == 'obj' and t[1] == 'dcp::File' and [plain(x) for x in t[2:]] == list(o[2:])
        asked = [v for c, v in d.items() if c[0] == 'call' and c[1] == BOOL and c[2] is not None and mine(c[2])]
        used = [(n, env) for n, env in e.calls if n.q.startswith('dcp::File::') and n.q.split('::')[-1] in USES and any(mine(x) for x in e.ev(n.obj, env))]
        mode = o[3][1] if o[3][0] == 'str' else None
        if not used:
            elsewhere = [n for n, env in e.calls if not n.q.startswith('dcp::File::') and any(any(mine(y) for y in deep(x)) for a in n.args for x in e.ev(a, env))]
            if elsewhere or e.loops:
                return
            if asked != [False]:
                self.bad('whole', 'unused', '%s is opened but nothing is read or written' % show(o), at.line)
            return
        key = '%s: %s' % (f.key, show(o))
        if asked != [True]:
            self.bad('opened', 'open', '%s is used %s' % (show(o), 'though it could not be opened' if asked else 'without asking whether it could be opened'), at.line)
        else:
            ctx.ok('opened', key)
        wrote = False
        for n, env in used:
            what = n.q.split('::')[-1]
            if what in ('write', 'checked_write', 'puts'):
                wrote = True
                if mode is not None:
                    ctx.expect(mode[:1] in ('w', 'a', 'x') or '+' in mode, 'opened', f.file, at.line, f.q, 'opened with mode "%s" and written' % mode, '%s:mode' % f.key, key + ': mode')
            elif mode is not None and what in ('read', 'checked_read', 'gets'):
                ctx.expect(mode[:1] == 'r' or '+' in mode, 'opened', f.file, at.line, f.q, 'opened with mode "%s" and read' % mode, '%s:mode' % f.key, key + ': mode')
            if what in ('write', 'read'):
                args = [e.ev(a, env) for a in n.args]
                if any(len(a) != 1 for a in args):
                    raise Unknown('several values')
                p, size, count = [plain(next(iter(a))) for a in args]
                res = [c for c in (x for k in d for x in deep(k)) if c[0] == 'call' and c[1] == n.q and [plain(y) for y in c[3]] == [p, size, count]]
                eq = None
                for r in res:
                    eq = equal(d, r, count)
                    if eq is not None:
                        break
                if eq is None and what == 'read' and self.counted(e, n):
                    ctx.ok('whole', '%s: %s counted' % (f.key, what))
                else:
                    ctx.expect(eq is True, 'whole', f.file, n.line, f.q, 'returns normally %s' % ('though %s gave another number than %s' % (what, show(count)) if eq is False else 'without asking whether %s did all of what it was asked for' % what), '%s:%s' % (f.key, what), '%s: %s' % (f.key, what))
                total = count if size == ('const', 1) else size if count == ('const', 1) else None
                if total is None:
                    if size[0] != 'const':
                        raise Unknown('%s items of %s' % (show(count), show(size)))
                    self.bad('whole', what + ':size', '%s is asked for %s items of %d bytes' % (what, show(count), size[1]), n.line)
                if what == 'write' and total is not None:
                    self.extent(n, p, total)
            elif what == 'checked_write':
                args = [plain(next(iter(e.ev(a, env)))) for a in n.args]
                self.extent(n, args[0], args[1])
        if wrote:
            ok = [v for c, v in d.items() for x in [c] if x[0] == 'bin' and x[1] == '==' and any(y[0] == 'call' and y[1] in ('dcp::File::close', 'fclose', 'fflush', 'dcp::File::flush') and (y[2] is None or mine(y[2])) for y in map(strip, x[2:])) and ('const', 0) in [strip(y) for y in x[2:]]]
            ok += [not v for c, v in d.items() if c[0] == 'call' and c[1] == 'dcp::File::close' and c[2] is not None and mine(c[2])]
            ctx.expect(True in ok, 'closed', f.file, f.line, f.q, 'returns normally %s' % ('though what was written could not be closed' if ok else 'without asking whether what was written could be closed'), '%s:close' % f.key, key + ': closed')

    def counted(self, e, n):
        """The number read is used for what is returned"""
        return any(y[0] == 'call' and y[1] == n.q for v in e.returns for y in deep(v))

    def extent(self, n, p, total):
        """The pointer and the length are those of the same object"""
        if p[0] != 'call' or p[2] is None or total[0] != 'call' or total[2] is None:
            return
        self.ctx.expect(p[2] == total[2], 'whole', self.f.file, n.line, self.f.q, '%s is written with the length %s' % (show(p), show(total)), '%s:extent' % self.f.key, '%s: extent' % self.f.key)
        name = total[1].split('::')[-1]
        self.ctx.expect(name in ('size', 'length'), 'whole', self.f.file, n.line, self.f.q, 'the length written is %s' % show(total), '%s:length' % self.f.key, '%s: length' % self.f.key)


def buffers(ctx, prog):
    """What is read goes to a buffer of the size of what is read"""
    for f in prog.get('dcp::ArrayData::(ctor)'):
        if f.body is None or len(f.params) != 1 or 'path' not in f.type(f.params[0]['t']):
            continue
        g = Graph(prog, f, lambda c, a, b: False)
        ctx.functions([f.key])
        for d, e in rows(g):
            if not returns(e):
                continue
            reads = [(n, env) for n, env in e.calls if n.q in MOVE or n.q == 'dcp::File::checked_read']
            if not reads and not e.loops:
                ctx.violation('whole', f.file, f.line, f.q, 'the file is not read', f.key + ':read')
                continue
            if len(reads) != 1:
                raise Unknown('%d reads' % len(reads))
            n, env = reads[0]
            a = [plain(next(iter(e.ev(x, env)))) for x in n.args]
            made = [y for y in deep(a[0]) if y[0] == 'call' and y[1].startswith('std::make_shared')]
            if not made or len(made[0][3]) != 1:
                raise Unknown('the buffer is %s' % show(a[0]))
            want = plain(made[0][3][0])
            ctx.expect(want == a[-1], 'whole', f.file, n.line, f.q, '%s bytes are read into a buffer of %s' % (show(a[-1]), show(want)), f.key + ':buffer', f.key + ': buffer')
            size = [y for y in deep(want) if y[0] == 'call' and y[1].endswith('file_size')]
            ctx.expect(size and plain(size[0][3][0]) == g.params[0] and want == size[0], 'whole', f.file, f.line, f.q, 'reads %s bytes and not the whole file' % show(want), f.key + ':size', f.key + ': size')


def copied(ctx, prog):
    for f in prog.get('dcp::ArrayData::(ctor)'):
        if f.body is None or len(f.params) != 2:
            continue
        g = Graph(prog, f, lambda c, a, b: False)
        ctx.functions([f.key])
        for d, e in rows(g):
            v = e.member('_data') or ()
            for x in v:
                m = plain(x)
                if m[0] != 'call' or not m[1].startswith('std::make_shared') or len(m[3]) != 2:
                    raise Unknown('the data are %s' % show(x))
                ctx.expect([plain(y) for y in m[3]] == [g.params[0], ('bin', '+', g.params[0], g.params[1])], 'whole', f.file, f.line, f.q, 'the data are those from %s to %s' % tuple(show(y) for y in m[3]), f.key + ':range', f.key + ': range')


def data(ctx, prog):
    f = [f for f in prog.get('dcp::Data::write') if f.body is not None]
    if not f:
        raise ir.AnalysisBroken('there is no function dcp::Data::write')
    f = f[0]
    g = Graph(prog, f, lambda c, a, b: c.file == f.file)
    for d, e in rows(g):
        if not returns(e):
            continue
        w = [(n, [plain(next(iter(e.ev(x, env)))) for x in n.args]) for n, env in e.calls if n.q in ('dcp::File::write', 'dcp::File::checked_write')]
        o = [(n, [plain(next(iter(e.ev(x, env)))) for x in n.args]) for n, env in e.calls if n.q == OPEN]
        if len(w) != 1 or len(o) != 1:
            if not w and not e.loops:
                ctx.violation('whole', f.file, f.line, f.q, 'the data are not written', f.key + ':nothing')
                continue
            raise Unknown('%d writes' % len(w))
        a = w[0][1]
        total = [x for x in a[1:] if x != ('const', 1)]
        okp = a[0][0] == 'call' and a[0][1].endswith('::data') and a[0][2] == THIS
        okl = len(total) == 1 and total[0][0] == 'call' and total[0][1].endswith('::size') and total[0][2] == THIS
        ctx.expect(okp and okl, 'whole', f.file, w[0][0].line, f.q, 'writes %s and not all of the data' % ', '.join(show(x) for x in a), f.key + ':all', f.key + ': all')
        ctx.expect(o[0][1][0] == g.params[0], 'whole', f.file, o[0][0].line, f.q, 'writes to %s' % show(o[0][1][0]), f.key + ':path', f.key + ': path')
        if o[0][1][1][0] == 'str':
            ctx.expect(o[0][1][1][1][:1] == 'w', 'whole', f.file, o[0][0].line, f.q, 'what was in the file before is kept (mode "%s")' % o[0][1][1][1], f.key + ':mode', f.key + ': mode')


def via_temp(ctx, prog):
    f = [f for f in prog.get('dcp::Data::write_via_temp') if f.body is not None]
    if not f:
        raise ir.AnalysisBroken('there is no function dcp::Data::write_via_temp')
    f = f[0]
    g = Graph(prog, f, lambda c, a, b: False)
    ctx.functions([f.key])
    temp, final = g.params[:2]
    for d, e in rows(g):
        seq = []
        for n, env in e.calls:
            a = [plain(next(iter(e.ev(x, env)))) for x in n.args]
            seq.append((n, n.q, a))
        names = [q.split('::')[-1] for n, q, a in seq]
        if returns(e):
            if 'rename' not in names:
                if any(x in ('copy_file', 'copy') for x in names):
                    ctx.violation('atomic', f.file, f.line, f.q, 'the file is copied into place, so that a part of it can be seen', f.key + ':rename')
                    continue
                if names in ([], ['write']):
                    ctx.violation('atomic', f.file, f.line, f.q, 'the temporary file is never renamed', f.key + ':rename')
                    continue
                raise Unknown('calls %s' % ', '.join(names))
        if 'rename' in names:
            i = names.index('rename')
            n, q, a = seq[i]
            ctx.expect(a[:2] == [temp, final], 'atomic', f.file, n.line, f.q, 'renames %s to %s' % (show(a[0]), show(a[1])), f.key + ':names', f.key + ': names')
            before = [x for x in seq[:i] if x[1] == 'dcp::Data::write']
            after = [x for x in seq[i:] if x[1] == 'dcp::Data::write']
            ok = len(before) == 1 and before[0][2] == [temp] and not after
            if not before and not after and len(seq) > 1:
                raise Unknown('written in another way')
            ctx.expect(ok, 'atomic', f.file, f.line, f.q, 'the temporary file is not written before it is renamed' if not before else 'writes to %s' % ', '.join(show(x[2][0]) for x in before + after), f.key + ':order', f.key + ': order')
            early = [x for x in seq[:i] if x[1].startswith(('dcp::filesystem::remove', 'boost::filesystem::remove')) and final in x[2]]
            ctx.expect(not early, 'atomic', f.file, f.line, f.q, 'the old file is removed before the new one is in its place', f.key + ':removed', f.key + ': old file')


def checked(ctx, prog):
    for name, fn in (('checked_write', 'fwrite'), ('checked_read', 'fread')):
        fs = [f for f in prog.get('dcp::File::' + name) if f.body is not None]
        if not fs:
            raise ir.AnalysisBroken('there is no function dcp::File::' + name)
        ctx.attempt('checked', name, lambda: one_checked(ctx, prog, fs[0], fn))


def one_checked(ctx, prog, f, fn):
    g = Graph(prog, f, lambda c, a, b: c.q.startswith('dcp::File::'))
    ctx.functions([f.key] + list(g.inlined))
    ptr, size = g.params[:2]
    rs = rows(g)
    if not any(returns(e) for d, e in rs):
        ctx.violation('checked', f.file, f.line, f.q, 'never returns normally', f.key + ':always')
    for d, e in rs:
        calls = [(n, [plain(next(iter(e.ev(x, env)))) for x in n.args]) for n, env in e.calls if n.q == fn]
        if not e.loops:
            if not returns(e):
                continue
            if len(calls) != 1:
                if size in [strip(y) for c in d for y in deep(c)]:
                    continue
                ctx.violation('checked', f.file, f.line, f.q, '%s is called %d times' % (fn, len(calls)), f.key + ':calls')
                continue
            n, a = calls[0]
            want = [ptr, ('const', 1), size]
            ctx.expect(a[:3] in (want, [ptr, size, ('const', 1)]), 'checked', f.file, n.line, f.q, '%s is called with (%s)' % (fn, ', '.join(show(x) for x in a[:3])), f.key + ':args', f.key + ': arguments')
            res = [c for c in (x for k in d for x in deep(k)) if c[0] == 'call' and c[1] == fn]
            eq = None
            for r in res:
                eq = equal(d, r, a[2])
                if eq is not None:
                    break
            ctx.expect(eq is True, 'checked', f.file, f.line, f.q, 'returns normally %s' % ('though %s did less than asked for' % fn if eq is False else 'without asking whether %s did all' % fn), f.key + ':all', f.key + ': all')
            continue
        if len(e.loops) != 1:
            raise Unknown('%d loops' % len(e.loops))
        lp = next(iter(e.loops.values()))
        # the count that goes up by what was done
        cand = []
        for p in lp.next:
            lv = ('lv', lp.head.id, p)
            for v in lp.next[p]:
                if v != lv and lv in list(deep(v)) and any(y[0] == 'call' and y[1] == fn for y in deep(v)):
                    cand.append(p)
                    break
        cand = [p for p in cand if p[0] == 'var']
        if not calls:
            ctx.violation('checked', f.file, f.line, f.q, '%s is not called' % fn, f.key + ':calls')
            continue
        n, a = calls[0]
        if len(cand) > 1:
            raise Unknown('several counts')
        if not cand:
            if any(v for v in d.values()) and any('-1' in show(c) for c in d):
                continue
            terms = a[:3] + [v for v, t in lp.guards]
            places = [p for p in lp.next if p[0] == 'var' and any(v != ('lv', lp.head.id, p) for v in lp.next[p]) and any(('lv', lp.head.id, p) in list(deep(t)) for t in terms)]
            if places:
                raise Unknown('the count')
            ctx.violation('checked', f.file, f.line, f.q, 'what has been done is not counted', f.key + ':count')
            continue
        done = cand[0]
        lv = ('lv', lp.head.id, done)
        from poly import Normal
        N = Normal()
        init = [plain(x) for x in lp.init.get(done, ())]
        ups = [x for x in lp.next[done] if x != lv]
        down = init == [size]
        if not down:
            ctx.expect(init == [('const', 0)], 'checked', f.file, f.line, f.q, 'the count starts with %s' % ', '.join(show(x) for x in init), f.key + ':start', f.key + ': start')
        for u in ups:
            u = plain(u)
            ok = u[0] == 'bin' and u[1] == ('-' if down else '+') and {lv} <= {plain(u[2]), plain(u[3])} and any(plain(x)[0] == 'call' and plain(x)[1] == fn for x in u[2:])
            ctx.expect(ok, 'checked', f.file, f.line, f.q, 'the count goes to %s' % show(u), f.key + ':step', f.key + ': step')
        if down:
            raise Unknown('counted down')
        if a[0][0] == 'addr' and a[0][1][0] in ('idx', 'at'):
            a[0] = ('bin', '+', plain(a[0][1][1]), plain(a[0][1][2]))
        if a[0][0] in ('addr', 'call', 'opaque', 'lv'):
            raise Unknown('goes to %s' % show(a[0]))
        wantp, wantl = ('bin', '+', ptr, lv), ('bin', '-', size, lv)
        ctx.expect(a[0] == wantp or N(a[0]) == N(wantp), 'checked', f.file, n.line, f.q, 'goes to %s and not behind what has been done' % show(a[0]), f.key + ':where', f.key + ': where')
        ctx.expect(a[1] == ('const', 1) and (a[2] == wantl or N(a[2]) == N(wantl)), 'checked', f.file, n.line, f.q, 'asks for %s times %s and not for what is missing' % (show(a[2]), show(a[1])), f.key + ':rest', f.key + ': rest')
        # ways out
        outs = []
        for b in g.nodes:
            if b.k != 'br' or b.id not in lp.ids and b is not lp.head:
                continue
            for s, l in b.succ:
                if s.id not in lp.ids and s is not lp.head and reaches(s, g.exit):
                    outs.append((b, l))
        if not outs:
            raise Unknown('no way out')
        full = None
        for b, l in outs:
            c, pol = LoopEval.canon(e, b.cond)
            truth = l == pol
            names = [x for x in c[2:]] if c[0] == 'bin' else []
            is_full = c[0] == 'bin' and c[1] in ('>=', '==') and truth and plain(c[2]) == done and plain(c[3]) == size or c[0] == 'bin' and c[1] == '>' and not truth and plain(c[2]) == size and plain(c[3]) == done or \
                c[0] == 'bin' and c[1] == '==' and truth and {plain(x) for x in names} == {done, size}
            if not is_full and done not in [plain(x) for x in names] and size not in [plain(x) for x in names]:
                ctx.violation('checked', f.file, b.line or f.line, f.q, 'returns normally when %s is %s, with something missing' % (show(b.cond), l), f.key + ':out')
            else:
                ctx.expect(is_full, 'checked', f.file, b.line or f.line, f.q, 'returns normally when %s is %s' % (show(b.cond), l), f.key + ':full', f.key + ': full')
        # nothing done must not go on for ever
        stuck = [(v, t) for v, t in lp.guards if any(plain(y)[0] == 'call' and plain(y)[1] == fn for y in deep(v))]
        ctx.expect(stuck, 'checked', f.file, f.line, f.q, 'goes on for ever at the end of the file', f.key + ':end', f.key + ': end')
        consts = [[plain(x)[1] for x in LoopEval.canon(e, v)[0][2:] if plain(x)[0] == 'const'] if LoopEval.canon(e, v)[0][0] == 'bin' else None for v, t in stuck]
        if stuck and all(c and c[0] not in (0, 1) for c in consts):
            ctx.violation('checked', f.file, f.line, f.q, 'goes on for ever at the end of the file', f.key + ':end')
        for v, t in stuck:
            c, pol = LoopEval.canon(e, v)
            if c[0] == 'bin' and c[1] in ('==', '>') and ('const', 0) in [plain(x) for x in c[2:]]:
                stays = t == pol
                zero = (c[1] == '==') if plain(c[3]) == ('const', 0) or c[1] == '==' else None
                if c[1] == '==':
                    ctx.expect(not stays, 'checked', f.file, f.line, f.q, 'goes on when nothing could be done, and stops when something was', f.key + ':zero', f.key + ': zero')
            elif c[0] == 'bin' and any(plain(x)[0] == 'const' for x in c[2:]):
                k = [plain(x)[1] for x in c[2:] if plain(x)[0] == 'const'][0]
                if c[1] == '==' and k != 0 and k != -1 and len(stuck) == 1:
                    ctx.violation('checked', f.file, f.line, f.q, 'the end of the file is taken to be where %s is %s' % (show(v), not t), f.key + ':zero')


def reaches(a, b):
    seen, work = set(), [a]
    while work:
        n = work.pop()
        if n is b:
            return True
        if n.id in seen:
            continue
        seen.add(n.id)
        work += [s for s, l in n.succ if l != 'exc']
    return False


def check(ctx, prog):
    ctx.rule('opened', 'a file is used only after asking whether it could be opened, and in the way it was opened for', 7)
    ctx.rule('whole', 'each read and write does all of what was asked for, or is reported', 8)
    ctx.rule('closed', 'an error when closing what was written is reported', 3)
    ctx.rule('checked', 'checked_read and checked_write return only when all has been done', 3)
    ctx.rule('atomic', 'a file written via a temporary one is put in its place by renaming, after all has been written', 3)
    for f in functions(prog):
        ctx.attempt('opened', f.key, lambda: Use(ctx, prog, f).run())
    ctx.attempt('whole', 'ArrayData', lambda: buffers(ctx, prog))
    ctx.attempt('whole', 'ArrayData from memory', lambda: copied(ctx, prog))
    ctx.attempt('whole', 'Data::write', lambda: data(ctx, prog))
    ctx.attempt('atomic', 'Data::write_via_temp', lambda: via_temp(ctx, prog))
    checked(ctx, prog)
