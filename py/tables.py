"""Loops that fill a table: which entries they fill, and with what, from the results of loops.LoopEval."""

import poly
from absint import deep
from cfg import show


class Unknown(Exception):
    pass


class Wrong(Exception):
    """Something that fills no table, however it is read"""


INDEX = ('index',)


def counter(lp, normal, path):
    """The values that a counter has in the iterations of a loop: (first, last, step) as polynomials"""
    if lp.head.d.get('loop') == 'do':
        raise Unknown('the loop tests its condition at the end')
    lv = ('lv', lp.head.id, path)
    init, nxt = lp.init.get(path, ()), lp.next.get(path, ())
    if len(init) != 1 or len(nxt) != 1:
        raise Unknown('the counter has several values')
    first = normal(next(iter(init)))
    step = poly.add(normal(next(iter(nxt))), poly.atom(lv), -1)
    v = poly.value(step)
    if v not in (1, -1):
        raise Unknown('the counter goes by %s' % poly.show(step))
    if len(lp.guards) != 1:
        raise Unknown('the loop has %d conditions' % len(lp.guards))
    c, stay = lp.guards[0]
    return first, bound(c, stay, lv, v, normal), v


def bound(c, stay, lv, step, normal):
    """The last value of lv for which the condition has the truth value `stay`"""
    while c[0] == 'not':
        c, stay = c[1], not stay
    if c[0] != 'bin' or c[1] not in ('<', '<=', '>', '>=', '!=', '=='):
        raise Unknown('the loop goes on while %s' % show(c))
    op = c[1]
    if not stay:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '!=': '==', '==': '!='}[op]
    d = poly.linear(poly.add(normal(c[2]), normal(c[3]), -1), lv)
    if d is None or abs(d[0]) != 1:
        raise Unknown('the loop goes on while %s' % show(c))
    k, rest = d
    if k < 0:
        rest = poly.scale(rest, -1)
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    limit = poly.scale(rest, -1)    # lv op limit
    if op == '!=':
        op = '<' if step > 0 else '>'
    if step > 0 and op in ('<', '<='):
        return poly.add(limit, poly.const(1), -1) if op == '<' else limit
    if step < 0 and op in ('>', '>='):
        return poly.add(limit, poly.const(1)) if op == '>' else limit
    raise Wrong('the counter goes %s and the loop goes on while %s' % ('up' if step > 0 else 'down', show(c)))


def untouched(e, value):
    """Whether an object is given to nothing that could fill it"""
    for n, env in e.calls:
        for a in list(n.args) + ([n.obj] if n.obj is not None else []):
            for v in e.ev(a, env):
                if any(x == value for x in deep(v)) and not (n.e.get('cm') or n.d.get('ctor')):
                    return False
    return True


def loop_of(e, node):
    """The innermost loop with the node"""
    ls = [l for l in e.loops.values() if node.id in l.ids]
    return min(ls, key=lambda l: len(l.ids)) if ls else None


def lvs(p):
    return sorted(set(a for a in poly.atoms(p) if a[0] == 'lv'), key=repr)


def filled(e, store, normal):
    """(loop, first index, last index, f) for a store in a loop; f turns the polynomial of a value in the loop to one of the atom INDEX"""
    node, base, bases, idx, rhs = store
    lp = loop_of(e, node)
    if lp is None:
        raise Unknown('an entry is stored outside the loops')
    if idx == 'append' or idx is None:
        cs = [p for p in lp.next if len(lp.next[p]) == 1 and len(lp.init.get(p, ())) == 1 and
              poly.value(poly.add(normal(next(iter(lp.next[p]))), poly.atom(('lv', lp.head.id, p)), -1)) in (1, -1)]
        if len(cs) != 1:
            raise Unknown('no counter')
        path = cs[0]
        first, last, step = counter(lp, normal, path) if idx == 'append' else (normal(next(iter(lp.init[path]))), None, poly.value(poly.add(normal(next(iter(lp.next[path]))), poly.atom(('lv', lp.head.id, path)), -1)))
        lv = ('lv', lp.head.id, path)
        # the n-th value appended has the counter at first + step * n
        sub = poly.add(first, poly.scale(poly.atom(INDEX), step))

        def f(p):
            return poly.substitute(p, lambda a: sub if a == lv else None)
        if last is None:
            return lp, {}, None, f
        return lp, {}, poly.scale(poly.add(last, first, -1), step), f
    if len(idx) != 1:
        raise Unknown('an index has several values')
    ip = normal(next(iter(idx)))
    ls = lvs(ip)
    if len(ls) != 1:
        raise Unknown('the index is %s' % poly.show(ip))
    lv = ls[0]
    lin = poly.linear(ip, lv)
    if lin is None or abs(lin[0]) != 1:
        raise Unknown('the index is %s' % poly.show(ip))
    k, off = lin
    first, last, step = counter(lp, normal, lv[2])
    a, b = poly.add(poly.scale(first, k), off), poly.add(poly.scale(last, k), off)
    if step * k < 0:
        a, b = b, a
    sub = poly.scale(poly.add(poly.atom(INDEX), off, -1), 1 / k)
    return lp, a, b, lambda p: poly.substitute(p, lambda x: sub if x == lv else None)
