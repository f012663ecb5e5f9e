"""C04: orderings are strict weak orders and agree with each other"""

import itertools

import c24
import relation as R
from relation import Relation, bool_set
from cfg import show

EXPLANATION = (
    'Each ordering operator is evaluated over its flow graph by conditional constant propagation, in the finite domain where every '
    'compared part of the two operands is less, equal or greater. The result over all assignments must be that of a lexicographic '
    'order of the parts (so: irreflexive, asymmetric, transitive), and the operators of one type must be consistent with each other '
    'and with equality. Counts are of the operators and orderings evaluated in this run.')

SIGN = {-1: '<', 0: '=', 1: '>'}


def show_part(t):
    return show(t).replace('A()', 'a').replace('B()', 'b')


def assignments(keys, full_limit):
    """All sign vectors for few keys; otherwise those with at most two parts unequal"""
    n = len(keys)
    if 3 ** n <= full_limit:
        yield from itertools.product((0, -1, 1), repeat=n)
        return
    zero = [0] * n
    yield tuple(zero)
    for i in range(n):
        for s in (-1, 1):
            v = list(zero)
            v[i] = s
            yield tuple(v)
    for i, j in itertools.combinations(range(n), 2):
        for s, t in itertools.product((-1, 1), repeat=2):
            v = list(zero)
            v[i], v[j] = s, t
            yield tuple(v)


class Op:
    def __init__(self, prog, fn, cls):
        self.fn = fn
        self.cls = cls
        self.rel = Relation(prog, fn, R.policy(set(prog.bases(cls)), prog))
        self.d = self.rel.discover()
        bool_set(self.d)
        self.keys = [k for k in self.d.keys]

    def eval(self, signs):
        return bool_set(self.rel.run(lambda k: signs.get(k, {0})))


WANT = {'<': lambda s: s < 0, '>': lambda s: s > 0, '<=': lambda s: s <= 0, '>=': lambda s: s >= 0}


def describe(keys, v):
    return ', '.join('a.%s b.%s' % (show_part(k).replace('a.', '', 1), '') if False else '%s %s %s' % (show_part(k), SIGN[s], show_part(R.norm(R.swap(k)))) for k, s in zip(keys, v) if s) or 'all parts equal'


def check(ctx, prog):
    ctx.rule('like-with-like', 'the two operands of a comparison are the same part of the two objects', floor=8)
    ctx.rule('order', 'the result is that of a lexicographic comparison of the parts, for every combination of orderings', floor=8)
    ctx.rule('consistent', 'all the orderings of a type rank the parts alike, and == compares the same parts', floor=4)
    c24.check(ctx, prog, only_utc=True)
    groups = {}
    for fn in sorted(prog.functions.values(), key=lambda f: f.key):
        op = fn.d.get('op')
        if op in ('<', '>', '<=', '>=', '==') and fn.q.startswith('dcp::') and fn.body is not None and len(fn.params) + (1 if fn.cls else 0) == 2:
            cls = R.operand_class(fn)
            if cls in prog.records and R.strip(fn.type(fn.params[-1]['t'])) == cls:
                groups.setdefault(cls, {})[op] = fn
    import os
    limit = 20000 if os.environ.get('VERIF_TIER') == 'thorough' else 2500
    for cls, ops in sorted(groups.items()):
        if set(ops) == {'=='}:
            continue
        built = {}
        for op, fn in ops.items():
            built[op] = Op(prog, fn, cls)
            ctx.functions([fn.key] + list(built[op].rel.g.inlined))
        ranks = {}
        for op, o in sorted(built.items()):
            fn = o.fn
            if op == '==':
                continue
            name = '%s %s' % (cls, op)
            bad = False
            for n, x, y in o.d.unlike:
                ctx.violation('like-with-like', n.file, n.line, fn.q, 'compares %s of one operand with %s of the other' % (show_part(x), show_part(y)), '%s: %s / %s' % (name, show_part(x), show_part(y)))
                bad = True
            if bad:
                continue
            ctx.ok('like-with-like', '%s: %d comparisons' % (name, len(o.keys)))
            if not o.d.complete or not o.keys:
                ctx.skip('order', name)
                continue
            r = rank(ctx, o, op, name, limit)
            if r is not None:
                ranks[op] = r
        # consistency
        ref = None
        for op, r in sorted(ranks.items()):
            if ref is None:
                ref = (op, r)
                continue
            ctx.expect(ref[1] == r, 'consistent', built[op].fn.file, built[op].fn.line, built[op].fn.q,
                       '%s ranks by %s but %s by %s' % (ref[0], [show_part(k) for k in ref[1]], op, [show_part(k) for k in r]), '%s: %s and %s' % (cls, ref[0], op))
        if ref is not None and '==' in built:
            a, b = set(ref[1]), set(built['=='].keys)
            whole = any('*' in R.fields(k) for k in a | b)
            if whole and a != b:
                ctx.skip('consistent', cls)
            else:
                eqfn = built['=='].fn
                fa, fb = fieldset(a), fieldset(b)
                ctx.expect(fa == fb, 'consistent', ops[ref[0]].file, ops[ref[0]].line, ops[ref[0]].q,
                           '%s and == do not look at the same parts: %s' % (ref[0], sorted(fa ^ fb)), '%s: %s and ==' % (cls, ref[0]))


def fieldset(keys):
    out = set()
    for k in keys:
        out |= R.fields(k)
    return out


def rank(ctx, o, op, name, limit):
    """The order of significance of the keys, or None having reported why there is none"""
    fn = o.fn
    keys = o.keys
    n = len(keys)
    want = WANT[op]

    def ev(v):
        return o.eval({k: {s} for k, s in zip(keys, v)})

    def single(i, s):
        v = [0] * n
        v[i] = s
        return tuple(v)

    cache = {}

    def get(v):
        if v not in cache:
            cache[v] = ev(v)
        return cache[v]

    zero = tuple([0] * n)
    if len(get(zero)) != 1:
        ctx.skip('order', name)
        return None
    if get(zero) != {want(0)}:
        ctx.violation('order', fn.file, fn.line, fn.q, 'a value compared with an equal one gives %s' % (not want(0)), '%s: reflexivity' % name)
        return None
    # which keys matter, and which way round
    relevant = []
    for i in range(n):
        lo, hi = get(single(i, -1)), get(single(i, 1))
        if len(lo) != 1 or len(hi) != 1:
            ctx.skip('order', name)
            return None
        if lo == {want(-1)} and hi == {want(1)}:
            relevant.append(i)
        else:
            nd = o.d.keys[keys[i]]
            ctx.violation('order', nd.file, nd.line, fn.q, 'with only %s differing, a %s b gives %s when it is less and %s when it is greater' % (show_part(keys[i]), op, bool_text(lo), bool_text(hi)), '%s: %s' % (name, show_part(keys[i])))
            return None
    # significance
    import functools
    table = {}
    for i, j in itertools.combinations(range(n), 2):
        v = [0] * n
        v[i], v[j] = -1, 1
        r = get(tuple(v))
        v[i], v[j] = 1, -1
        r2 = get(tuple(v))
        if len(r) != 1 or len(r2) != 1:
            ctx.skip('order', name)
            return None
        a = r == {want(-1)}
        b = r2 == {want(1)}
        if a != b:
            ctx.violation('order', fn.file, fn.line, fn.q, 'not asymmetric: %s %s b and b %s a agree when %s and %s differ in opposite directions' % ('a', op, op, show_part(keys[i]), show_part(keys[j])),
                          '%s: %s, %s' % (name, show_part(keys[i]), show_part(keys[j])))
            return None
        table[(i, j)] = a
        table[(j, i)] = not a
    order = sorted(range(n), key=lambda i: -sum(1 for j in range(n) if j != i and table[(i, j)]))
    count = 0
    for v in assignments(keys, limit):
        count += 1
        sign = 0
        for i in order:
            if v[i]:
                sign = v[i]
                break
        r = get(v)
        if r != {want(sign)}:
            ctx.violation('order', fn.file, fn.line, fn.q, 'not an order: a %s b gives %s when %s' % (op, bool_text(r), describe(keys, v)), '%s: %s' % (name, describe(keys, v)))
            return None
    ctx.ok('order', '%s: %d orderings of %s' % (name, count, ', '.join(show_part(keys[i]) for i in order)))
    ctx.rules['order']['orderings_evaluated'] = ctx.rules['order'].get('orderings_evaluated', 0) + len(cache)
    return [keys[i] for i in order]


def bool_text(s):
    return '/'.join(str(i).lower() for i in sorted(s))
