"""C09: tables that are shared between threads are guarded, and each caller gets the table that it asked for"""

import c03
import ir
import locks
from absint import T, F, TOP, deep
from cfg import Graph, show, terms_of
from loops import LoopEval, table
from textread import TextEval

SOURCES = ['transfer_function.cc', 'gamma_transfer_function.cc', 'identity_transfer_function.cc', 'modified_gamma_transfer_function.cc', 's_gamut3_transfer_function.cc', 'rgb_xyz.cc', 'colour_conversion.cc']

EXPLANATION = (
    'For each class with a mutex, a must-analysis of the locks held over the flow graph of each of its methods that can be called from outside (with its private ones inlined): '
    'every access of a mutable member is made with one and the same mutex held, and nothing that takes that mutex is called meanwhile (also through overriders). '
    'The functions that give out cached tables are evaluated for the cases that the lookup finds and does not find an entry: what is looked up, stored and given out must be the entry under '
    'a key made of every parameter, and what is stored must be made from the same parameters, only where there was no entry.')

THIS = ('deref', ('this',))


class Unknown(Exception):
    pass


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp'))


def strip(t):
    while t[0] in ('cast', 'addr') or (t[0] == 'deref' and t[1][0] == 'addr'):
        t = t[2] if t[0] == 'cast' else t[1] if t[0] == 'addr' else t[1][1]
    return t


def container(t):
    """The member that a (changed) container term is about"""
    while t[0] in ('mut', 'cast', 'out'):
        t = t[2]
    return t if t[0] == 'mem' and t[1] == THIS else None


def accesses(n, members):
    out = set()
    for t in terms_of(n):
        for x in deep(t):
            if x[0] == 'mem' and x[1] == THIS and x[2] in members:
                out.add(x[2])
    return out


def locking(ctx, prog, cls, rec):
    mutex = [f['n'] for f in rec['fields'] if locks.MUTEX.search(f['type'])]
    members = set(f['n'] for f in rec['fields'] if f['n'] not in mutex and f.get('mutable'))
    if not members:
        members = set(f['n'] for f in rec['fields'] if f['n'] not in mutex and not f['type'].startswith('const '))
    family = set([cls]) | set(prog.derived(cls))
    methods = [f for f in prog.functions.values() if f.cls in family and f.body is not None and f.kind not in ('ctor', 'dtor')]
    # who takes the mutex, directly or through calls
    graphs = {}
    direct = {}
    for f in methods:
        g = Graph(prog, f, lambda a, b, c: False)
        graphs[f.key] = g
        direct[f.key] = any(locks.acquires(n)[1] for n in g.nodes) or any(n.k == 'call' and n.q.split('::')[-1] in ('lock', 'lock_shared') and n.obj is not None and locks.shared(locks.strip(n.obj)) for n in g.nodes)
    takes = set(k for k, v in direct.items() if v)
    while True:
        more = set()
        for f in methods:
            if f.key in takes:
                continue
            for n in graphs[f.key].nodes:
                if n.k == 'call' and called(prog, n) & takes:
                    more.add(f.key)
        if not more:
            break
        takes |= more
    roots = [f for f in methods if f.d.get('access') != 'private']
    seen = {m: [] for m in members}
    for f in roots:
        g = Graph(prog, f, policy)
        ctx.functions([f.key])
        ctx.functions(g.inlined)
        state = locks.held_at(g)
        for n in g.nodes:
            if n.id not in state:
                continue
            held = locks.mutexes(state[n.id])
            for m in accesses(n, members):
                seen[m].append((f, n, held if n.k != 'ret' else before(n, state)))
            var, ms = locks.acquires(n)
            again = [m for m in ms if m in held]
            if ms:
                ctx.expect(not again, 'deadlock', n.file, n.line, f.q, '%s is locked while it is held' % ', '.join(show(m) for m in again), '%s:again' % f.q, '%s locks once' % f.q)
            if n.k == 'call' and held and not ms:
                bad = called(prog, n) & takes
                ctx.expect(not bad or not mine(n), 'deadlock', n.file, n.line, f.q, '%s is called with %s held, which it locks itself' % (', '.join(sorted(bad)), ', '.join(show(m) for m in held)),
                           '%s:calls:%s' % (f.q, n.q), '%s calls %s' % (f.q, n.q))
    for m, xs in sorted(seen.items()):
        common = None
        for f, n, held in xs:
            common = held if common is None else common & held
        if common:
            for f, n, held in xs:
                ctx.ok('guarded', '%s in %s' % (m, f.q))
            continue
        for f, n, held in xs:
            # the mutex that most accesses agree on
            best = max(set(h for _, _, hs in xs for h in hs), key=lambda h: sum(h in hs for _, _, hs in xs), default=None)
            if best is None or best not in held:
                ctx.violation('guarded', n.file, n.line, n.fn.q if n.fn else f.q, '%s of %s is used, on a path from %s, without %s held' % (m, cls, f.q, show(best) if best else 'a lock'), '%s:%s:%s' % (cls, m, f.q))


def before(n, state):
    """The mutexes held where the result of a function is evaluated, before its scopes are left"""
    work, out, seen = [n], None, set()
    while work:
        x = work.pop()
        for p, _ in x.pred:
            if p.id in seen or p.id not in state:
                continue
            seen.add(p.id)
            if p.k == 'scope_end':
                work.append(p)
            else:
                h = locks.mutexes(locks.transfer(p, state[p.id]))
                out = h if out is None else out & h
    return out or set()


def mine(n):
    return n.obj is None or strip(n.obj) in (THIS, ('this',)) or strip(n.obj)[0] in ('deref', 'mem')


def called(prog, n):
    """Keys of the functions that a call may run"""
    k = n.e.get('fn')
    out = set()
    if k:
        out.add(k)
        out |= set(o.key if hasattr(o, 'key') else o for o in prog.overriders(k))
    if not out:
        out |= set(f.key for f in prog.get(n.q))
    return out


def field_values(t, rec):
    """Values of the fields of a key"""
    t = strip(t)
    if t[0] == 'list':
        vals = t[2:]
        return {f['n']: strip(v) for f, v in zip(rec['fields'], vals)}
    raise Unknown('the key is %s' % show(t))


def element(t):
    """(member, key) if a term is an entry of a container"""
    t = strip(t)
    if t[0] in ('idx', 'at') and container(t[1]):
        return container(t[1]), t[2]
    if t[0] == 'call' and t[1].split('::')[-1] in ('at', 'operator[]') and t[2] is not None and container(t[2]):
        return container(t[2]), t[3][0]
    if t[0] == 'mem' and t[2] == 'second':
        x = strip(t[1])
        if x[0] == 'deref':
            x = strip(x[1])
        return lookup(x)
    return None


def lookup(x):
    x = strip(x)
    if x[0] == 'call' and x[1].split('::')[-1] in ('find', 'count', 'contains') and x[2] is not None and container(x[2]):
        return container(x[2]), x[3][0]
    return None


def absent(c, v):
    """(container, key) -> whether the condition with truth v says that there is no entry"""
    if c[0] == 'bin' and c[1] == '==':
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            l = lookup(a)
            if l and strip(b)[0] == 'enditer':
                return l, v
            if l and strip(b) == ('const', 0):
                return l, v
    l = lookup(c)
    if l:
        return l, not v
    if c[0] == 'bin' and c[1] in ('>', '>='):
        l = lookup(c[2])
        if l and strip(c[3])[0] == 'const':
            return l, not v
    return None


def cache(ctx, prog, f, maker):
    """f(params) gives out the entry of a container made by maker(params)"""
    g = Graph(prog, f, lambda a, b, c: policy(a, b, c) and a.name not in (maker,))
    ctx.functions([f.key])
    ctx.functions(g.inlined)
    params = list(g.params)
    rows = table(lambda d: LoopEval(g, None, {}, decide=d).run())
    if rows is None:
        raise Unknown('too many conditions')
    rec = prog.records['dcp::TransferFunction::LUTDescriptor']
    conts = set()
    names = {}

    def key_ok(k, what, node=None):
        vals = field_values(k, rec)
        for p in params:
            at = [n for n, v in vals.items() if v == p]
            ctx.expect(bool(at), 'key', f.file, node.line if node else f.line, f.q, '%s %s uses a key that does not hold the parameter %s' % (f.q, what, show(p)), '%s:key:%s' % (f.q, show(p)), '%s: %s' % (what, show(p)))
            for n in at:
                names.setdefault(p, set()).add(n)
        return tuple(sorted((n, v) for n, v in vals.items()))

    keys = set()
    for d, e in rows:
        if not e.complete or e.unknown:
            raise Unknown('not evaluated')
        missing = {}
        for c, v in d.items():
            a = absent(c, v)
            if a:
                (cont, k), gone = a
                conts.add(cont)
                missing[cont] = gone
                keys.add(key_ok(k, 'looks up'))
        stored = {}
        for n, base, bases, idx, rhs in e.stores:
            cont = container(base)
            if cont is None or idx in (None, 'append'):
                continue
            for k in idx:
                keys.add(key_ok(k, 'stores', n))
            conts.add(cont)
            ctx.expect(missing.get(cont) is True, 'kept', n.file, n.line, f.q, 'an entry of %s is stored where there may be one already, which may have been given out' % show(cont), '%s:stored:%s' % (f.q, show(cont)), '%s keeps entries' % f.q)
            for v in rhs:
                made(ctx, f, n, v, maker, params)
            stored[cont] = rhs
        for n, env in e.calls:
            if n.obj is None or n.obj != strip(n.obj):
                continue
            nm = n.q.split('::')[-1]
            if container(n.obj) and nm in ('clear', 'erase', 'extract', 'swap', 'merge', 'insert_or_assign'):
                ctx.violation('kept', n.file, n.line, f.q, 'entries of %s, which may have been given out, are removed by %s' % (show(n.obj), nm), '%s:%s' % (f.q, nm))
            if container(n.obj) and nm in ('insert', 'emplace', 'try_emplace'):
                raise Unknown('entries are added by %s' % nm)
        if not e.returns:
            raise Unknown('no result')
        for r in e.returns:
            r = strip(r)
            el = element(r)
            if el:
                cont, k = el
                conts.add(cont)
                keys.add(key_ok(k, 'gives out'))
                found = missing.get(cont) is False or (missing.get(cont) is None and r[0] != 'mem')
                ctx.expect(found or cont in stored, 'result', f.file, f.line, f.q, '%s gives out an entry that is not there%s' % (f.q, where(d)), '%s:absent' % f.q, '%s gives out what is there' % f.q)
                continue
            if r[0] == 'call' and r[1].split('::')[-1] == maker:
                ctx.expect(any(r in vs for vs in stored.values()), 'result', f.file, f.line, f.q, '%s gives out a table that it does not keep' % f.q, '%s:kept' % f.q, '%s gives out what it stored' % f.q)
                made(ctx, f, None, r, maker, params)
                continue
            raise Unknown('the result is %s' % show(r))
    ctx.expect(len(keys) == 1, 'key', f.file, f.line, f.q, '%s uses %d different keys' % (f.q, len(keys)), '%s:keys' % f.q, '%s uses one key' % f.q)
    ctx.expect(len(conts) == 1, 'key', f.file, f.line, f.q, '%s uses entries of %s' % (f.q, ', '.join(sorted(show(c) for c in conts))), '%s:containers' % f.q, '%s uses one container' % f.q)
    for c in conts:
        t = [x['type'] for x in prog.records['dcp::TransferFunction']['fields'] if x['n'] == c[2]]
        if t and f.ret.strip().endswith('&'):
            stable = t[0].replace('const ', '').startswith(('std::unordered_map<', 'std::map<', 'boost::unordered_map<', 'std::__cxx11::list<', 'std::list<'))
            ctx.expect(stable, 'kept', f.file, f.line, f.q, 'references to entries of a %s are given out, and end when others are added' % t[0].split('<')[0], '%s:stable' % f.q, '%s: entries do not move' % f.q)
    return conts, names


def where(d):
    return ''.join(' where %s is %s' % (show(c), v) for c, v in d.items())[:300]


def made(ctx, f, n, v, maker, params):
    v = strip(v)
    if v[0] != 'call' or v[1].split('::')[-1] != maker:
        raise Unknown('what is stored is %s' % show(v))
    args = [strip(a) for a in v[3]]
    ctx.expect(args == params, 'made', f.file, n.line if n else f.line, f.q, 'the table kept for (%s) is made by %s' % (', '.join(show(p) for p in params), show(v)), '%s:made' % f.q, '%s: %s' % (f.q, maker))


def hashing(ctx, prog):
    fs = [f for f in prog.functions.values() if f.cls == 'dcp::TransferFunction::LUTDescriptorHasher' and f.name == 'operator()' and f.body is not None]
    if not fs:
        return
    f = fs[0]
    g = Graph(prog, f, policy)
    ctx.functions([f.key])
    e = TextEval(g, None, None).run()
    used = set()
    for r in e.returns:
        for x in deep(r):
            if x[0] in ('call', 'obj') and any(w in str(x[1]) for w in ('rand', 'time', 'clock')):
                ctx.violation('hash', f.file, f.line, f.q, 'the hash of a key uses %s' % x[1], 'hash:%s' % x[1])
            if x[0] == 'addr' and x[1] == ('deref', g.params[0]):
                ctx.violation('hash', f.file, f.line, f.q, 'the hash of a key depends on where the key is stored', 'hash:address')
            if x == ('this',) or x == THIS:
                ctx.violation('hash', f.file, f.line, f.q, 'the hash of a key depends on the hasher', 'hash:this')
            if x[0] == 'mem' and root_is(x, g.params[0]):
                used.add(x[2])
    ctx.ok('hash', 'the hash uses %s' % ', '.join(sorted(used)))


def root_is(t, p):
    while t[0] in ('mem', 'deref', 'cast', 'addr'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t == p


def check(ctx, prog):
    ctx.rule('guarded', 'members shared between threads are only used with their mutex held', 6)
    ctx.rule('deadlock', 'nothing that takes a mutex is run while it is held', 3)
    ctx.rule('key', 'cached tables are kept, looked up and given out under a key that holds every parameter', 10)
    ctx.rule('made', 'what is kept is made from the parameters that it is kept under', 2)
    ctx.rule('kept', 'a table that has been given out is never replaced or removed', 2)
    ctx.rule('result', 'what is given out is the entry that was found or stored', 2)
    ctx.rule('hash', 'the hash of a key depends only on the key', 1)
    ctx.rule('covers', 'keys that differ in any part are unequal', 5)
    ctx.rule('reflexive', 'keys with the same parts are equal', 1)
    ctx.rule('like-with-like', 'keys are compared part by part', 1)
    for cls, rec in sorted(prog.records.items()):
        if cls.startswith('dcp::') and any(locks.MUTEX.search(f['type']) for f in rec['fields']):
            locking(ctx, prog, cls, rec)
    q = 'dcp::TransferFunction::'
    for name, maker in (('double_lut', 'make_double_lut'), ('int_lut', 'make_int_lut')):
        fs = [f for f in prog.get(q + name) if f.body is not None]
        if not fs:
            raise ir.AnalysisBroken('%s%s not found' % (q, name))
        ctx.attempt('key', fs[0].q, lambda: cache(ctx, prog, fs[0], maker))
    ctx.attempt('hash', 'hash', lambda: hashing(ctx, prog))
    cls = 'dcp::TransferFunction::LUTDescriptor'
    if cls in prog.records:
        for f in prog.get(cls + '::operator=='):
            if f.body is not None:
                ctx.attempt('covers', f.q, lambda: c03.one(ctx, prog, f, cls, [x['n'] for x in prog.records[cls]['fields']], False, False))
