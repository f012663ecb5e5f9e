"""Which mutexes are held where: a forward must-analysis over a flow graph.

A lock is held from the construction of a named lock object (or a call of lock()) to the end of its scope (or unlock())."""

import re

LOCK = re.compile(r'(^|::)(unique_lock|lock_guard|scoped_lock|shared_lock|upgrade_lock|strict_lock|upgrade_to_unique_lock)(::|$)')
MUTEX = re.compile(r'(^|::|\s)(mutex|recursive_mutex|shared_mutex|timed_mutex|recursive_timed_mutex|shared_timed_mutex)$')


def acquires(n):
    """The mutex paths that a node locks, with the variable that holds them"""
    if n.k == 'call' and n.d.get('ctor') and LOCK.search(n.d['ctor']):
        if not n.d.get('decl') or not n.args:
            return None, []
        if any('defer_lock' in str(a) or 'adopt_lock' in str(a) or 'try_to_lock' in str(a) for a in n.args[1:]):
            return n.dst, []
        return n.dst, [strip(a) for a in n.args]
    return None, []


def strip(t):
    while t[0] in ('cast', 'addr'):
        t = t[2] if t[0] == 'cast' else t[1]
    return t


def shared(path):
    """Whether other threads can see the mutex"""
    t = path
    while t[0] in ('mem', 'deref'):
        if t == ('deref', ('this',)):
            return True
        t = t[1]
    return t[0] in ('gvar', 'this', 'static')


def transfer(n, held):
    """held: frozenset of (holder, mutex)"""
    if n.k == 'call':
        var, ms = acquires(n)
        if ms:
            return held | frozenset((var, m) for m in ms)
        name = n.q.split('::')[-1]
        if name in ('lock', 'unlock', 'lock_shared', 'unlock_shared') and n.obj is not None:
            o = strip(n.obj)
            owners = [(v, m) for v, m in held if v == o]
            if name.startswith('unlock'):
                return frozenset((v, m) for v, m in held if v != o and m != o)
            if LOCK.search(n.q):
                return held if owners else held | frozenset([(o, o)])
            return held | frozenset([(None, o)])
    if n.k == 'scope_end':
        v = n.d['var']
        return frozenset((x, m) for x, m in held if x != v)
    return held


def held_at(g):
    """node id -> the (holder, mutex) pairs that are surely held before the node"""
    state = {g.entry.id: frozenset()}
    work = [g.entry]
    while work:
        n = work.pop()
        out = transfer(n, state[n.id])
        succ = [(s, out) for s, _ in n.succ]
        if n.exc is not None:
            # a lock whose constructor throws is not held
            succ.append((n.exc, state[n.id]))
        for s, o in succ:
            if s.id not in state:
                state[s.id] = o
                work.append(s)
            else:
                m = state[s.id] & o
                if m != state[s.id]:
                    state[s.id] = m
                    work.append(s)
    return state


def mutexes(held):
    return set(m for v, m in held if shared(m))
