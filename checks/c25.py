"""C25: what is set is what is got"""

import ir
from cfg import Graph, show
from loops import LoopEval, table

EXPLANATION = (
    'For every class and every pair of functions set_x(v) and x(): the state after set_x(v), on each combination of its conditions, is given to x(), which must then give v. '
    'The same for every constructor parameter that has the name of a getter. Setters are also checked for leaving alone what the other getters of plain members give.')

THIS = ('deref', ('this',))

# Properties that a setter changes besides its own, as its documentation says or as follows from what it sets
MEANT = {
    ('dcp::LoadVariableZ::set_positions', 'valid'): 'positions that are set are valid ones',
    ('dcp::MXF::set_key', 'key_id'): 'a key has an ID',
}


class Unknown(Exception):
    pass


def deep(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from deep(i)


def strip(t):
    while True:
        if t[0] == 'cast':
            t = t[2]
        elif t[0] in ('obj',) and len(t) == 3 and ('optional' in t[1] or 'basic_string' in t[1] or 'shared_ptr' in t[1] or 'vector' in t[1] or 'path' in t[1]):
            t = t[2]
        elif t[0] == 'call' and t[1] in ('std::move', 'std::forward') and t[3]:
            t = t[3][0]
        elif t[0] in ('some', 'opt'):
            t = t[1]
        else:
            return t


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and not callee.file.endswith('compose.hpp') and depth < 4


def shallow(callee, caller, depth):
    return policy(callee, caller, depth) and callee.q.endswith('(ctor)') and 'path' not in [p.get('n') for p in callee.params] and 'file' not in [p.get('n') for p in callee.params]


def rows(g, env=None, limit=5):
    r = table(lambda d: LoopEval(g, None, env or {}, decide=d).run(), limit)
    if r is None:
        raise Unknown('too many conditions')
    for d, e in r:
        if not e.complete:
            raise Unknown('not evaluated')
    return r


def replace(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(replace(i, m) if isinstance(i, tuple) else i for i in t)
    return t


def after(prog, f):
    """[(given values, state)] after a function of a class returns"""
    g = Graph(prog, f, policy)
    try:
        rs = rows(g)
    except Unknown:
        # only the constructors of bases and members, then
        g = Graph(prog, f, shallow)
        g.unsure = True
        rs = rows(g)
    given = {p: ('opaque', 'given', i) for i, p in enumerate(g.params)}
    out = []
    for d, e in rs:
        # an argument known to be absent or present under the conditions is as good as given
        for k, env in e.states.items():
            if k[0] != g.exit.id:
                continue
            state = {}
            for place, vals in env.items():
                if isinstance(place, tuple) and place[0] == 'mem' and any(x == ('this',) for x in deep(place)):
                    state[place] = frozenset(replace(v, given) for v in vals)
            out.append((d, state))
    return g, out


def got(prog, f, state):
    g = Graph(prog, f, policy)
    out = set()
    for d, e in rows(g, state):
        out |= set(e.returns)
    return out


def getters(prog, cls):
    """{name: function} of the functions of the class and its bases without parameters"""
    out = {}
    todo = [cls]
    while todo:
        c = todo.pop(0)
        for f in prog.by_class.get(c, ()):
            n = f.q.split('::')[-1]
            if not f.params and f.body is not None and n not in out and f.type(f.d['ret']) != 'void' and not f.d.get('kind') == 'ctor':
                out[n] = f
        r = prog.records.get(c)
        for b in (r or {}).get('bases', ()):
            todo.append(b.get('q') if isinstance(b, dict) else b)
    return out


def same(v, w):
    v = strip(v)
    return v == w or v[0] == 'deref' and strip(v[1]) == w or v[0] == 'addr' and strip(v[1]) == w


def from_given(v, want):
    """Whether a value is made of the one given by conversions alone"""
    v = strip(v)
    if same(v, want):
        return True
    if v[0] == 'call' and v[1].split('::')[-1] in ('to_string', 'c_str', 'as_string', 'str') and v[2] is not None and not v[3]:
        return from_given(v[2], want)
    if v[0] == 'call' and v[1].split('::')[-1] in ('absolute', 'canonical', 'weakly_canonical') and v[3]:
        return from_given(v[3][0], want)
    if v[0] == 'mem' and v[2] in ('_subtag',):
        return from_given(v[1], want)
    if v[0] == 'dyn':
        return from_given(v[-1], want)
    return False


def compare(ctx, rule, prog, f, g, state, i, name, getter):
    want = ('opaque', 'given', i)
    vals = got(prog, getter, state)
    if not vals:
        raise Unknown('%s gives nothing' % name)
    key = '%s: %s' % (f.key, name)
    if all(same(v, want) for v in vals):
        ctx.ok(rule, key)
        return
    if all(from_given(v, want) for v in vals):
        # made from what was given and nothing else
        ctx.ok(rule, key)
        return
    plain = [v for v in vals if strip(v)[0] == 'mem' and any(x == ('this',) for x in deep(v)) or strip(v)[0] == 'opaque' and strip(v)[1] == 'given']
    if getattr(g, 'unsure', False):
        plain = [v for v in plain if strip(v)[0] == 'opaque']
    if len(plain) == len(vals):
        wrong = [v for v in vals if not same(v, want)]
        ctx.violation(rule, f.file, f.line, f.q, '%s() gives %s and not %s afterwards' % (name, ', '.join(show(v) if strip(v)[0] == 'mem' else show(g.params[strip(v)[2]]) for v in wrong), show(g.params[i])), key)
        return
    if not getattr(g, 'unsure', False) and not any(want in list(deep(v)) for v in vals) and all(strip(v)[0] == 'const' or strip(v)[0] == 'str' or strip(v) in (('none',), ('null',)) for v in vals):
        ctx.violation(rule, f.file, f.line, f.q, '%s() gives %s whatever %s is' % (name, ', '.join(show(v) for v in vals), show(g.params[i])), key)
        return
    raise Unknown('%s() gives %s' % (name, ', '.join(show(v) for v in vals)))


def check(ctx, prog):
    ctx.rule('set', 'what is set is what is got', 110)
    ctx.rule('construct', 'what a constructor is given is what is got', 60)
    ctx.rule('alone', 'a setter leaves alone what the other getters give', 100)
    ctx.rule('unset', 'what is unset is not there any more', 5)
    prog.by_class = {}
    for f in prog.functions.values():
        if f.cls and f.file.startswith('src/'):
            prog.by_class.setdefault(f.cls, []).append(f)
    for cls in sorted(prog.by_class):
        gs = getters(prog, cls)
        fields = {x['n'] for c, x in prog.all_fields(cls)} if cls in prog.records else set()
        for f in sorted(prog.by_class[cls], key=lambda f: f.key):
            if f.body is None:
                continue
            n = f.q.split('::')[-1]
            if n.startswith('set_') and len(f.params) == 1 and n[4:] in gs:
                ctx.attempt('set', f.key, lambda: setter(ctx, prog, f, n[4:], gs))
            elif n.startswith('unset_') and not f.params and n[6:] in gs:
                ctx.attempt('unset', f.key, lambda: unset(ctx, prog, f, n[6:], gs))
            elif n == '(ctor)' and f.params and not f.d.get('special'):
                names = [p.get('n') for p in f.params]
                if any(x in gs for x in names):
                    ctx.attempt('construct', f.key, lambda: construct(ctx, prog, f, names, gs))


def plain_type(t):
    t = t.replace('const ', '').replace('&', '').strip()
    for p in ('boost::optional<', 'std::optional<'):
        if t.startswith(p):
            t = t[len(p):-1].strip()
    return t


def stored_key(prog, f):
    """(map, key) of the entry which a setter fills with its argument"""
    g = Graph(prog, f, policy)
    out = set()
    for d, e in rows(g):
        for n in g.nodes:
            if n.k != 'assign' or n.lhs[0] not in ('index', 'at') or n.id not in {k[0] for k in e.states}:
                continue
            for k, env in e.states.items():
                if k[0] == n.id:
                    for key in e.ev(n.lhs[2], env):
                        for v in e.ev(n.rhs, env):
                            if key[0] == 'enum' and strip(v) == g.params[0]:
                                out.add((n.lhs[1], key))
    return out


def found_key(prog, f):
    """(map, key) of the entry which a getter looks for"""
    g = Graph(prog, f, policy)
    out = set()
    for d, e in rows(g):
        for n, env in e.calls:
            if n.q.split('::')[-1] in ('find', 'at', 'operator[]', 'count') and n.obj is not None and len(n.args) == 1:
                for key in e.ev(n.args[0], env):
                    if key[0] == 'enum':
                        out.add((n.obj, key))
    return out


def keyed(ctx, prog, f, name, gs):
    """A setter and getter of an entry of a map; True if they are such"""
    a, b = stored_key(prog, f), found_key(prog, gs[name])
    if len(a) != 1 or len(b) != 1:
        return False
    a, b = a.pop(), b.pop()
    if a != b:
        ctx.violation('set', f.file, f.line, f.q, '%s() looks for %s in %s but what is set goes to %s in %s' % (name, show(b[1]), show(b[0]), show(a[1]), show(a[0])), f.key)
        return True
    ctx.ok('set', f.key)
    s, t = plain_type(f.type(f.params[0]['t'])), plain_type(f.type(gs[name].d['ret']))
    if s == t:
        ctx.ok('set', f.key + ': type')
    else:
        ctx.skip('set', '%s: set as %s and got as %s' % (f.key, s, t))
    for n, h in gs.items():
        if n == name:
            continue
        try:
            c = found_key(prog, h)
        except Exception:
            continue
        if len(c) == 1:
            if c.pop() == a:
                ctx.violation('alone', h.file, h.line, h.q, 'looks for %s, which is what %s sets' % (show(a[1]), f.q), '%s:%s' % (f.key, n))
            else:
                ctx.ok('alone', '%s: %s' % (f.key, n))
    return True


def setter(ctx, prog, f, name, gs):
    try:
        if keyed(ctx, prog, f, name, gs):
            ctx.functions([f.key, gs[name].key])
            return
    except Unknown:
        pass
    g, out = after(prog, f)
    ctx.functions([f.key, gs[name].key])
    if not out:
        raise Unknown('does not return')
    for d, state in out:
        if any(p in list(deep(c)) for c in d for p in g.params):
            # depends on the value given
            vals = got(prog, gs[name], state)
            wrong = [v for v in vals if not from_given(v, ('opaque', 'given', 0))]
            if wrong:
                if getattr(g, 'unsure', False) or any(equality(c, p) for c in d for p in g.params) or not all(strip(v)[0] == 'mem' and any(x == ('this',) for x in deep(v)) for v in wrong):
                    raise Unknown('depends on the value')
        compare(ctx, 'set', prog, f, g, state, 0, name, gs[name])
    plain = {}
    for n, h in gs.items():
        if n != name:
            m = member(prog, h)
            if m is not None:
                plain[n] = m
    mine = member(prog, gs[name])
    for n, m in sorted(plain.items()):
        if m == mine:
            continue
        for d, state in out:
            v = state.get(('mem', THIS, m))
            if v is None or v == frozenset([('mem', THIS, m)]):
                ctx.ok('alone', '%s: %s' % (f.key, n))
            elif any(x == ('opaque', 'given', 0) for y in v for x in [strip(y)]) and mine is not None:
                ctx.violation('alone', f.file, f.line, f.q, '%s() gives %s afterwards' % (n, show(g.params[0])), '%s:%s' % (f.key, n))
            else:
                if (f.q, n) in MEANT or not all(empty(x) or strip(x)[0] in ('const', 'str', 'mem', 'enum') for x in v):
                    ctx.ok('alone', '%s: %s' % (f.key, n))
                else:
                    ctx.violation('alone', f.file, f.line, f.q, '%s() gives %s afterwards' % (n, ', '.join(show(x) for x in v)), '%s:%s' % (f.key, n))


def unset(ctx, prog, f, name, gs):
    g, out = after(prog, f)
    ctx.functions([f.key, gs[name].key])
    if not out:
        raise Unknown('does not return')
    for d, state in out:
        vals = got(prog, gs[name], state)
        if vals and all(empty(v) for v in vals):
            ctx.ok('unset', f.key)
        elif vals and all(strip(v)[0] == 'mem' for v in vals) and not d:
            ctx.violation('unset', f.file, f.line, f.q, '%s() gives %s afterwards' % (name, ', '.join(show(v) for v in vals)), f.key)
        else:
            raise Unknown('%s() gives %s' % (name, ', '.join(show(v) for v in vals)))


def equality(c, p):
    """Whether a condition is about the value given, as a whole, being equal to some other"""
    if c[0] == 'bin' and c[1] in ('==', '!='):
        a, b = [list(deep(x)) for x in c[2:4]]
        return p in a and ('this',) in b or p in b and ('this',) in a
    if c[0] == 'call' and c[1].split('::')[-1] in ('operator==', 'operator!=', 'equal', 'compare'):
        return True
    return c[0] == 'not' and equality(c[1], p)


def empty(v):
    if show(v) == 'boost::none':
        return True
    return v in (('none',), ('null',)) or v[0] == 'obj' and len(v) == 2 and 'optional' in v[1] or v[0] == 'cast' and empty(v[2]) or v[0] == 'obj' and len(v) == 3 and 'optional' in v[1] and empty(v[2])


_member = {}


def member(prog, f):
    """The member that a getter gives, if it is a plain one"""
    if f.key not in _member:
        _member[f.key] = None
        try:
            g = Graph(prog, f, policy)
            r = rows(g)
            if len(r) == 1:
                v = {strip(x) for x in r[0][1].returns}
                if len(v) == 1:
                    v = v.pop()
                    if v[0] == 'mem' and v[1] == THIS:
                        _member[f.key] = v[2]
        except Exception:
            pass
    return _member[f.key]


def construct(ctx, prog, f, names, gs):
    g, out = after(prog, f)
    ctx.functions([f.key])
    if not out:
        raise Unknown('does not return')
    for i, n in enumerate(names):
        if n not in gs:
            continue
        ctx.attempt('construct', '%s: %s' % (f.key, n), lambda: [compare(ctx, 'construct', prog, f, g, state, i, n, gs[n]) for d, state in out])
