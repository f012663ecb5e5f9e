"""C07: what is opened or allocated has exactly one owner, who releases it once"""

import ir
from cfg import Graph, show, root
from loops import LoopEval, table

EXPLANATION = (
    'Typestate of dcp::File: for each operation and each combination of conditions, the handle is closed exactly once or is held by exactly one object afterwards, and operations on the handle are done only when there is one. '
    'ScopeGuard calls its function exactly once unless it has been cancelled, also when it is moved. '
    'Every class whose destructor releases a raw handle must not be copied with the operators that the compiler makes, and its own ones must not share the handle or keep a buffer of another size.')

THIS = ('deref', ('this',))
STDIO = {'write': ('fwrite',), 'read': ('fread',), 'eof': ('feof',), 'gets': ('fgets',), 'puts': ('fputs',), 'error': ('ferror',), 'seek': ('fseek', 'fseeko', 'fseeko64'), 'tell': ('ftell', 'ftello', 'ftello64')}


class Unknown(Exception):
    pass


def mem(n, o=THIS):
    return ('mem', o, n)


def strip(t):
    while True:
        if t[0] == 'cast':
            t = t[2]
        elif t[0] == 'call' and t[1] in ('std::move', 'std::exchange', 'std::__exchange', 'std::forward') and t[3]:
            t = t[3][0]
        elif t[0] == 'out' and t[1] in ('fwrite', 'fread', 'feof', 'fgets', 'fputs', 'ferror', 'fseek', 'ftell'):
            t = t[3][t[2]]
        elif t[0] == 'nonnull':
            t = t[1]
        else:
            return t


def null(t):
    t0 = t
    t = strip(t) if t[0] != 'call' else t
    return t in (('null',), ('const', 0)) or t[0] == 'nullptr' or show(t) == 'nullptr' or t0[0] == 'out' and t0[1] in ('std::exchange', 'std::__exchange') and t0[2] == 0


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp', 'filesystem.cc'))


def rows(g):
    r = table(lambda d: LoopEval(g, None, {}, decide=d).run())
    if r is None:
        raise Unknown('too many conditions')
    for d, e in r:
        if not e.complete:
            raise Unknown('not evaluated')
    return r


def normal(e):
    """Whether the function can return"""
    return any(k[0] == e.g.exit.id if isinstance(k, tuple) else k == e.g.exit.id for k in e.states)


def one(e, place):
    v = set(strip(x) for x in e.final(place) or ())
    return v


def is_set(d, place):
    """Truth of the condition that the place is not null, or None"""
    for c, v in d.items():
        if c[0] == 'nonnull' and strip(c[1]) == place:
            return v
        if c[0] == 'bin' and c[1] == '==' and strip(c[2]) == place and null(c[3]):
            return not v
        if c[0] == 'bin' and c[1] == '==' and strip(c[3]) == place and null(c[2]):
            return not v
        if c == place:
            return v
    return None


def is_self(d, other):
    for c, v in d.items():
        if c[0] == 'bin' and c[1] == '==' and ('this',) in c[2:]:
            return v
    return None


class FileRules:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        r = prog.record('dcp::File')
        self.handle = [f['n'] for f in r['fields'] if 'FILE' in f['type']]
        self.path = [f['n'] for f in r['fields'] if 'path' in f['type']]
        self.error = [f['n'] for f in r['fields'] if f['type'] == 'int']
        if len(self.handle) != 1:
            raise Unknown('File holds %d handles' % len(self.handle))
        self.h = mem(self.handle[0])

    def graph(self, f):
        self.ctx.functions([f.key])
        return Graph(self.prog, f, policy)

    def each(self, q):
        fs = [f for f in self.prog.get('dcp::File::' + q) if f.body is not None]
        if not fs:
            raise ir.AnalysisBroken('there is no function dcp::File::%s' % q)
        return fs

    def bad(self, f, what, message, line=None):
        self.ctx.violation('file', f.file, line or f.line, f.q, message, '%s:%s' % (f.key, what))

    def closes(self, e):
        return [(n, strip(next(iter(e.ev(n.args[0], env))))) for n, env in e.calls if n.q == 'fclose']

    def moved(self, f, g, d, e):
        """The handle, path and error have come from the other object, which has none any more"""
        other = g.params[0]
        if any(n.q.split('::')[-1] in ('swap', 'iter_swap') for n, env in e.calls):
            raise Unknown('exchanged')
        when = ''.join(', if %s is %s' % (show(c), v) for c, v in d.items())
        got = one(e, self.h)
        oh = mem(self.handle[0], other)
        none = is_set(d, oh) is False
        if got != {oh} and not (none and all(null(x) for x in got)):
            if any(x[0] in ('call', 'opaque', 'out') for x in got):
                raise Unknown('the handle is %s' % ', '.join(show(x) for x in got))
            self.bad(f, 'take', 'the handle is %s and not the one of the other file%s' % (', '.join(show(x) for x in got), when))
        else:
            self.ctx.ok('file', f.key + ': takes the handle' + when)
        left = e.final(oh) or ()
        if not all(null(x) for x in left) and not none:
            if any(x[0] in ('call', 'opaque', 'out') for x in left):
                raise Unknown('the handle of the other is %s' % ', '.join(show(x) for x in left))
            self.bad(f, 'left', 'the other file still has the handle, which is then closed twice%s' % when)
        else:
            self.ctx.ok('file', f.key + ': leaves none' + when)
        for m in self.path + self.error:
            v = one(e, mem(m))
            if any(x[0] in ('call', 'opaque', 'out') for x in v) and v != {mem(m, other)}:
                raise Unknown('%s is %s' % (m, ', '.join(show(x) for x in v)))
            self.ctx.expect(v == {mem(m, other)}, 'file', f.file, f.line, f.q, '%s is %s and not that of the other file%s' % (m, ', '.join(show(x) for x in v), when), '%s:%s' % (f.key, m), '%s: %s%s' % (f.key, m, when))

    def constructors(self):
        for f in self.each('(ctor)'):
            g = self.graph(f)
            if len(g.params) == 1:
                for d, e in rows(g):
                    if self.closes(e):
                        self.bad(f, 'close', 'a file is closed when it is moved')
                    self.moved(f, g, d, e)
            elif len(g.params) == 2:
                for d, e in rows(g):
                    opens = [(n, [strip(next(iter(e.ev(a, env)))) for a in n.args]) for n, env in e.calls if n.q in ('fopen', 'fopen64')]
                    if len(opens) != 1:
                        if any('open' in n.q for n, env in e.calls):
                            raise Unknown('opened in another way')
                        self.bad(f, 'open', 'the file is opened %d times' % len(opens))
                        continue
                    n, a = opens[0]
                    src = []
                    for x in a:
                        while x[0] == 'call' and x[2] is not None and x[1].split('::')[-1] in ('c_str', 'string', 'native', 'data'):
                            x = strip(x[2])
                        if x[0] == 'call' and x[1] == 'dcp::filesystem::fix_long_path':
                            x = strip(x[3][0])
                        src.append(x)
                    want = [{g.params[0], mem(self.path[0])}, {g.params[1]}]
                    for i, w in enumerate(want):
                        self.ctx.expect(src[i] in w, 'file', f.file, n.line, f.q, 'opens %s with %s' % (show(src[0]), show(src[1])), f.key + ':open', '%s: argument %d' % (f.key, i))
                    v = set(e.final(self.h) or ())
                    ok = is_set(d, n.dst) if n.dst else None
                    if ok is None:
                        ok = next((t for c, t in d.items() if c[0] == 'nonnull' and c[1][0] == 'call' and c[1][1] == n.q), None)
                    self.ctx.expect(all(x[0] == 'call' and x[1] == n.q or x == n.dst or null(x) and ok is False for x in v), 'file', f.file, f.line, f.q, 'the handle is %s' % ', '.join(show(x) for x in v), f.key + ':handle', f.key + ': handle')
                    p = set(strip(x) for x in e.final(mem(self.path[0])) or ())
                    self.ctx.expect(p == {g.params[0]}, 'file', f.file, f.line, f.q, 'the path is %s' % ', '.join(show(x) for x in p), f.key + ':path', f.key + ': path')
                    if ok and self.error:
                        v = set(strip(x) for x in e.final(mem(self.error[0])) or ())
                        self.ctx.expect(all(x[0] != 'const' or x[1] == 0 for x in v), 'file', f.file, f.line, f.q, 'there is an error (%s) though the file is open' % ', '.join(show(x) for x in v), f.key + ':noerror', f.key + ': no error')
                    if ok is False:
                        v = set(strip(x) for x in e.final(mem(self.error[0])) or ()) if self.error else set()
                        self.ctx.expect(v and all('errno' in show(x) for x in v), 'file', f.file, f.line, f.q, 'why the file could not be opened is not kept', f.key + ':error', f.key + ': error')

    def assignment(self):
        for f in self.each('operator='):
            g = self.graph(f)
            for d, e in rows(g):
                if is_self(d, g.params[0]):
                    ch = [place for place in [self.h] if one(e, place) not in (set(), {place})]
                    self.ctx.expect(not self.closes(e) and not ch, 'file', f.file, f.line, f.q, 'a file that is moved to itself is lost', f.key + ':self', f.key + ': to itself')
                    continue
                oh = mem(self.handle[0], g.params[0])
                if any(c[0] == 'bin' and {strip(c[2]), strip(c[3])} == {self.h, oh} for c in d):
                    raise Unknown('handles are compared')
                cl = self.closes(e)
                when = ''.join(', if %s is %s' % (show(c), v) for c, v in d.items())
                had = is_set(d, self.h)
                if any(n.q.split('::')[-1] in ('swap', 'iter_swap') for n, env in e.calls):
                    raise Unknown('exchanged')
                if had is False:
                    self.ctx.expect(not cl, 'file', f.file, f.line, f.q, 'closes a file that is not open', f.key + ':close', f.key + ': closes none')
                else:
                    self.ctx.expect([x for n, x in cl] == [self.h], 'file', f.file, f.line, f.q, 'the file that was open is closed %d times%s' % (len([x for n, x in cl if x == self.h]), when), f.key + ':close', f.key + ': closes')
                self.moved(f, g, d, e)

    def release(self):
        for q in ('(dtor)', 'close'):
            for f in self.each(q):
                g = self.graph(f)
                for d, e in rows(g):
                    had = is_set(d, self.h)
                    cl = self.closes(e)
                    if any(c[0] not in ('nonnull',) and is_set({c: True}, self.h) is None for c in d):
                        raise Unknown('other conditions')
                    if had is None:
                        self.bad(f, 'null', 'closes the handle without asking whether there is one') if cl else self.bad(f, 'close', 'the file is not closed')
                        continue
                    self.ctx.expect([x for n, x in cl] == ([self.h] if had else []), 'file', f.file, f.line, f.q, 'the file is closed %d times where it is %s' % (len(cl), 'open' if had else 'not open'), f.key + ':close', '%s: open %s' % (f.key, had))
                    if q == 'close' and had:
                        v = e.final(self.h) or ()
                        self.ctx.expect(v and all(null(x) for x in v), 'file', f.file, f.line, f.q, 'the handle is kept after it has been closed, and is closed again later', f.key + ':kept', f.key + ': forgets')

    def accessors(self):
        for f in self.each('take'):
            g = self.graph(f)
            for d, e in rows(g):
                self.ctx.expect(set(strip(x) for x in e.returns) == {self.h} or is_set(d, self.h) is False, 'file', f.file, f.line, f.q, 'gives %s' % ', '.join(show(x) for x in e.returns), f.key + ':give', f.key + ': gives')
                v = e.final(self.h) or ()
                self.ctx.expect(v and all(null(x) for x in v) or is_set(d, self.h) is False, 'file', f.file, f.line, f.q, 'the handle that has been given away is kept, and is closed twice', f.key + ':kept', f.key + ': forgets')
                self.ctx.expect(not self.closes(e), 'file', f.file, f.line, f.q, 'the handle that is given away is closed', f.key + ':close', f.key + ': open')
        for q, m in (('get', self.handle[0]), ('path', self.path[0]), ('open_error', self.error[0])):
            for f in self.prog.get('dcp::File::' + q):
                if f.body is None:
                    continue
                g = self.graph(f)
                for d, e in rows(g):
                    v = set(strip(x) for x in e.returns)
                    if any(x[0] == 'call' for x in v):
                        raise Unknown('%s gives %s' % (q, ', '.join(show(x) for x in v)))
                    self.ctx.expect(v == {mem(m)} and one(e, mem(m)) <= {mem(m)}, 'file', f.file, f.line, f.q, 'gives %s' % ', '.join(show(x) for x in v), f.key, f.key)
        for f in self.each('operator bool'):
            g = self.graph(f)
            for d, e in rows(g):
                for v in e.returns:
                    pos = True
                    x = v
                    while x[0] == 'not':
                        x, pos = x[1], not pos
                    s = is_set({x: True}, self.h)
                    if x[0] == 'bin' and x[1] == '!=':
                        s = is_set({('bin', '==') + x[2:]: True}, self.h)
                        s = None if s is None else not s
                    if s is None:
                        if x in (('const', 0), ('const', 1), ('true',), ('false',)) and is_set(d, self.h) is not None:
                            s = (is_set(d, self.h) == (x in (('true',), ('const', 1))))
                        else:
                            raise Unknown('gives %s' % show(v))
                    self.ctx.expect(s == pos, 'file', f.file, f.line, f.q, 'gives %s' % show(v), f.key, f.key)

    def stdio(self):
        for q, want in sorted(STDIO.items()):
            for f in self.each(q):
                g = self.graph(f)
                for d, e in rows(g):
                    calls = [(n, env) for n, env in e.calls if n.q in want]
                    other = [n for n, env in e.calls if n.q[:1] == 'f' and n.q not in want and '::' not in n.q]
                    had = is_set(d, self.h)
                    if had is False:
                        self.ctx.expect(not calls, 'file', f.file, f.line, f.q, '%s is called without a handle' % want[0], f.key + ':null', f.key + ': without handle')
                        continue
                    if had is None and calls:
                        self.bad(f, 'null', '%s is called without asking whether there is a handle' % want[0])
                        continue
                    if len(calls) != 1:
                        if e.loops:
                            raise Unknown('in a loop')
                        self.bad(f, 'calls', '%s is called %d times%s' % (want[0], len(calls), ' but ' + ', '.join(n.q for n in other) if other else ''))
                        continue
                    n, env = calls[0]
                    a = [strip(next(iter(e.ev(x, env)))) for x in n.args]
                    w = list(g.params)
                    w = [self.h] + w if q in ('seek', 'tell', 'eof', 'error') else w + [self.h]
                    self.ctx.expect(a == w, 'file', f.file, n.line, f.q, '%s is called with (%s)' % (n.q, ', '.join(show(x) for x in a)), f.key + ':args', f.key + ': arguments')
                    v = set(strip(x) for x in e.returns)
                    ok = all(x[0] == 'call' and x[1] == n.q or x == n.dst for x in v)
                    self.ctx.expect(ok, 'file', f.file, f.line, f.q, 'gives %s and not the result of %s' % (', '.join(show(x) for x in v), n.q), f.key + ':result', f.key + ': result')


def guard(ctx, prog):
    q = 'dcp::ScopeGuard::'
    r = prog.record('dcp::ScopeGuard')
    fn = [f['n'] for f in r['fields'] if 'function' in f['type']]
    flag = [f['n'] for f in r['fields'] if f['type'] == 'bool']
    if len(fn) != 1 or len(flag) > 1:
        raise Unknown('members')
    F = mem(fn[0])
    C = mem(flag[0]) if flag else None

    def runs(e):
        return [n for n, env in e.calls if n.q == 'std::function::operator()' and strip(n.obj) == F]
    # which value of the flag means that the function is called
    init = [f.get('x', {}).get('cv') for f in r['fields'] if f['type'] == 'bool']
    start = bool(init[0]) if init and init[0] is not None else None
    armed = None
    for f in prog.get(q + '(dtor)'):
        if f.body is None:
            continue
        ctx.functions([f.key])
        got = {}
        for d, e in rows(Graph(prog, f, policy)):
            key = None
            for c, v in d.items():
                if c == C:
                    key = v
                elif any(y == F for y in deep(c)):
                    if (v is False) == (c[0] in ('nonnull', 'call')):
                        key = 'empty'
                else:
                    raise Unknown(show(c))
            if key == 'empty':
                continue
            got.setdefault(key, []).append(len(runs(e)))
        if None in got:
            ctx.violation('guard', f.file, f.line, f.q, 'the function is called %s times whether or not it was cancelled' % got[None], f.q)
            return
        armed = [k for k, v in got.items() if v == [1]]
        ok = len(armed) == 1 and got.get(not armed[0]) == [0]
        ctx.expect(ok, 'guard', f.file, f.line, f.q, 'the function is called %s times if %s is true and %s times if it is false' % (got.get(True), show(C), got.get(False)), f.q, f.q)
        if not ok:
            return
        armed = armed[0]
        if start is not None:
            ctx.expect(start == armed, 'guard', r['file'], r['l'], 'dcp::ScopeGuard', 'a new guard does not call its function', 'start', 'starts')
    if armed is None:
        raise Unknown('no destructor')
    for f in prog.get(q + 'cancel'):
        if f.body is None:
            continue
        ctx.functions([f.key])
        for d, e in rows(Graph(prog, f, policy)):
            v = set(strip(x) for x in e.final(C) or ())
            fv = set(e.final(F) or [F])
            ok = v in ({('false',)}, {('const', 0)}) if armed else v in ({('true',)}, {('const', 1)})
            if not ok and fv != {F}:
                raise Unknown('the function is replaced')
            ctx.expect(ok, 'guard', f.file, f.line, f.q, 'the function is still called after cancel()', f.q, f.q)
            ctx.expect(not runs(e), 'guard', f.file, f.line, f.q, 'the function is called by cancel()', f.q + ':runs', f.q + ': not called')
    for f in prog.get(q + '(ctor)'):
        if f.body is None:
            continue
        ctx.functions([f.key])
        g = Graph(prog, f, policy)
        for d, e in rows(g):
            ctx.expect(not runs(e), 'guard', f.file, f.line, f.q, 'the function is called by the constructor', f.q + ':runs', f.key + ': not called')
            v = set(strip(x) for x in e.final(F) or ())
            if f.d.get('special') == 'move':
                o = g.params[0]
                if any(n.q.endswith('::swap') for n, env in e.calls):
                    raise Unknown('exchanged')
                ctx.expect(v == {mem(fn[0], o)}, 'guard', f.file, f.line, f.q, 'the function is %s after a move' % ', '.join(show(x) for x in v), f.q + ':function', f.q + ': function')
                if C:
                    c = set(strip(x) for x in e.final(C) or ())
                    ctx.expect(c == {mem(flag[0], o)}, 'guard', f.file, f.line, f.q, 'whether it has been cancelled is lost by a move', f.q + ':cancelled', f.q + ': cancelled')
                    oc = set(strip(x) for x in e.final(mem(flag[0], o)) or [mem(flag[0], o)])
                    of = set(e.final(mem(fn[0], o)) or [mem(fn[0], o)])
                    off = oc in (({('false',)}, {('const', 0)}) if armed else ({('true',)}, {('const', 1)}))
                    replaced = of != {mem(fn[0], o)} and not any(y[0] == 'mem' and y[2] == fn[0] for x in of for y in deep(x))
                    ctx.expect(off or replaced, 'guard', f.file, f.line, f.q, 'the function is called by both guards after a move', f.q + ':both', f.q + ': once')
            elif len(g.params) == 1:
                ok = any(y == g.params[0] for x in v for y in deep(x))
                ctx.expect(ok, 'guard', f.file, f.line, f.q, 'the function is %s' % ', '.join(show(x) for x in v), f.q + ':function', f.key)


def deep(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from deep(i)


RELEASE = ('free', 'release', 'destroy', 'close', 'delete')


def owned(prog, r):
    """Members of raw pointer type which the destructor releases: {name: how}"""
    out = {}
    for f in prog.get(r['q'] + '::(dtor)'):
        if f.body is None:
            continue
        pointers = [x['n'] for x in r['fields'] if x['type'].rstrip().endswith('*') or x['type'] in ('HPDF_Doc',) or x['type'].endswith('* const')]
        g = Graph(prog, f, policy)
        for n in g.nodes:
            if n.k == 'delete':
                args, how = [n.x], 'delete'
            elif n.k == 'call' and not n.q.startswith('dcp::') and any(w in n.q.split('::')[-1].lower() for w in RELEASE):
                args, how = list(n.args), n.q
            else:
                continue
            for a in args:
                a = strip(a)
                if a[0] == 'addr':
                    a = strip(a[1])
                if a[0] == 'mem' and a[1] == THIS and a[2] in pointers:
                    out[a[2]] = how
        return out, f
    return out, None


def classes(ctx, prog):
    for q, r in sorted(prog.records.items()):
        if not str(r.get('file')).startswith('src/') or not r.get('userdtor'):
            continue
        own, dtor = owned(prog, r)
        if not own:
            continue
        ctx.functions([dtor.key])
        special = {}
        for m in r['methods']:
            if m.get('special'):
                special[m['special']] = m
        names = ', '.join(sorted(own))
        based = any(copies_deleted(prog, b) for b in r['bases'])
        for kind, what in (('copy', 'copied'), ('copyassign', 'assigned')):
            m = special.get(kind)
            ok = based or (m is not None and (m.get('deleted') or m.get('user')))
            # a move operation that is declared takes the copy operation of the compiler away
            if m is None and any(k in special for k in ('move', 'moveassign')):
                ok = True
            ctx.expect(ok, 'classes', r['file'], r['l'], q, 'an object can be %s by the operation that the compiler makes, and then %s is released twice (%s)' % (what, names, ', '.join(sorted(set(own.values())))), '%s:%s' % (q, kind), '%s is not %s by default' % (q, what))
            if m is None or m.get('deleted') or not m.get('user'):
                continue
            for f in prog.get(q + ('::(ctor)' if kind == 'copy' else '::operator=')):
                if f.body is None or f.key != m['key']:
                    continue
                ctx.attempt('classes', f.key, lambda: copying(ctx, prog, r, f, own, kind))


def copies_deleted(prog, b):
    q = b.get('q') if isinstance(b, dict) else b
    if q is None:
        return False
    if 'noncopyable' in q:
        return True
    r = prog.records.get(q)
    if r is None:
        return False
    return any(m.get('special') == 'copy' and m.get('deleted') for m in r['methods'])


def copying(ctx, prog, r, f, own, kind):
    g = Graph(prog, f, policy)
    ctx.functions([f.key])
    lengths = [x['n'] for x in r['fields'] if x['type'] in ('int', 'size_t', 'unsigned int', 'std::size_t')]
    try:
        rs = rows(g)
    except Unknown:
        g = Graph(prog, f, lambda a, b, d: False)
        rs = rows(g)
    for d, e in rs:
        if kind == 'copyassign' and is_self(d, g.params[0]):
            continue
        if any(n.q.endswith('swap') for n, env in e.calls):
            raise Unknown('exchanged')
        if not e.return_states and not any(True for _ in [0] if e.final(THIS) is not None) and e.throws:
            continue
        for m in sorted(own):
            v = set(strip(x) for x in e.final(mem(m)) or ())
            o = mem(m, g.params[0])
            ctx.expect(o not in v, 'classes', f.file, f.line, f.q, '%s is the one of the other object, and is released twice' % m, '%s:%s' % (f.key, m), '%s: own %s' % (f.key, m))
            if kind != 'copyassign':
                continue
            kept = v <= {mem(m)}
            if kept:
                for l in lengths:
                    lv = set(strip(x) for x in e.final(mem(l)) or ())
                    same = any(c[0] == 'bin' and {strip(c[2]), strip(c[3])} == {mem(l), mem(l, g.params[0])} for c in d)
                    ctx.expect(lv <= {mem(l)} or same, 'classes', f.file, f.line, f.q, '%s is kept while %s becomes that of the other object' % (m, l), '%s:%s' % (f.key, l), '%s: size of %s' % (f.key, m))
            else:
                freed = [n for n in g.nodes if n.k == 'delete' and strip(n.x) == mem(m) or n.k == 'call' and n.q == own[m] and any(strip(a) == mem(m) or strip(a) == ('addr', mem(m)) for a in n.args)]
                ctx.expect(freed, 'classes', f.file, f.line, f.q, 'the old %s is not released' % m, '%s:%s:leak' % (f.key, m), '%s: releases %s' % (f.key, m))


def check(ctx, prog):
    ctx.rule('file', 'a file is closed exactly once by exactly one owner, and used only while it is open', 50)
    ctx.rule('guard', 'a guard calls its function exactly once unless it is cancelled', 8)
    ctx.rule('classes', 'what a destructor releases is not shared by copies', 14)
    r = FileRules(ctx, prog)
    for n in ('constructors', 'assignment', 'release', 'accessors', 'stdio'):
        ctx.attempt('file', n, getattr(r, n))
    ctx.attempt('guard', 'guard', lambda: guard(ctx, prog))
    ctx.attempt('classes', 'classes', lambda: classes(ctx, prog))
