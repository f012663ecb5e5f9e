"""Evaluation of functions whose loops run an unknown number of times.

Each loop is evaluated for one iteration in general: what its body may change has a symbolic value, ('lv', loop, path), at
its head. For each loop the values that those have on entry and after one iteration are kept, and for each store to an
element of a container or array the index and the value. Branches that depend on symbolic values are evaluated both ways,
unless `decide` (from asked conditions to truth) says otherwise; `table` enumerates the combinations."""

import itertools

from absint import T, F, TOP, deep, harmless
from cfg import root, show
from textread import TextEval


def loop_body(g, head):
    """Nodes of the loop with the given head: those from which it can be reached without leaving what it dominates"""
    before = set()
    work = [g.entry]
    while work:
        n = work.pop()
        if n.id in before or n is head:
            continue
        before.add(n.id)
        work += [s for s, _ in n.succ]
        if n.exc is not None:
            work.append(n.exc)
    work = [p[0] for p in head.pred if p[0].id not in before]
    nodes = {}
    while work:
        n = work.pop()
        if n.id in nodes or n is head or n.id in before:
            continue
        nodes[n.id] = n
        work += [p[0] for p in n.pred]
    return [nodes[i] for i in sorted(nodes)]


class Loop:
    def __init__(self, head, body):
        self.head = head
        self.body = body
        self.ids = set(n.id for n in body)
        self.init = {}      # path -> values on entry
        self.next = {}      # path -> values after an iteration
        self.guards = []    # (condition term, truth that stays in the loop)

    def changed(self, skip=None):
        out = []
        for n in self.body:
            t = None
            if skip is not None and skip(n):
                continue
            if n.k == 'assign':
                t = n.lhs
            elif n.k == 'call' and n.obj is not None and not harmless(n) and not n.d.get('ctor'):
                t = n.obj
            if t is not None:
                out.append(t)
            if n.k == 'call':
                mp = n.e.get('mp') or []
                for i, a in enumerate(n.args):
                    if i < len(mp) and mp[i] == 1:
                        out.append(a[1] if a[0] == 'addr' else a)
        res = []
        for t in out:
            if t[0] in ('idx', 'at', 'elem'):
                continue
            if t[0] == 'deref' and t != ('deref', ('this',)):
                continue
            if t not in res:
                res.append(t)
        return res


class LoopEval(TextEval):
    def __init__(self, g, oracle=None, env=None, bounds=None, decide=None, **kw):
        super().__init__(g, oracle, env, bounds, **kw)
        self.decide = decide or {}
        self.asked = []
        self.loops = {}
        self.stores = []
        self.calls = []

    # function that tells whether a node changes nothing that matters
    harmless = None

    def canon(self, v):
        """(key, polarity) of a condition"""
        pol = True
        while v[0] == 'not':
            v = v[1]
            pol = not pol
        if v[0] == 'bin' and v[1] in ('<=', '<', '!='):
            v = ('bin', {'<=': '>', '<': '>=', '!=': '=='}[v[1]], v[2], v[3])
            pol = not pol
        return v, pol

    def run(self):
        g = self.g
        start = {}
        for k, v in self.env0.items():
            start[k] = v if isinstance(v, frozenset) else frozenset([v])
        work = [(g.entry, start)]
        self.states[(g.entry.id, ())] = start
        queue = [g.entry]
        while queue:
            # the earliest node first, so that joins come before what follows them
            n = min(queue, key=lambda x: self.rank(x))
            queue.remove(n)
            self.steps += 1
            if self.steps > self.max_steps:
                self.complete = False
                return self
            env = self.states[(n.id, ())]
            self.executed.add(n.id)
            for s, label, out in self.step(n, env):
                self.edges.add((n.id, s.id))
                if s.k == 'nop' and s.d.get('loop') in ('head', 'do'):
                    lp = self.loops.get(s.id)
                    if lp is None:
                        lp = self.loops[s.id] = Loop(s, loop_body(g, s))
                    if n.id in lp.ids:
                        for t in lp.changed(self.harmless):
                            lp.next[t] = lp.next.get(t, frozenset()) | self.ev(t, out)
                        continue
                    out = dict(out)
                    for t in lp.changed(self.harmless):
                        lp.init[t] = lp.init.get(t, frozenset()) | self.ev(t, out)
                    for t in lp.changed(self.harmless):
                        self.kill(out, t)
                        out[t] = frozenset([('lv', s.id, t)])
                tgt = self.states.get((s.id, ()))
                if tgt is None:
                    self.states[(s.id, ())] = dict(out)
                    queue.append(s)
                elif self.join(tgt, out):
                    if s not in queue:
                        queue.append(s)
        return self

    def rank(self, n):
        if not hasattr(self, '_rank'):
            self._rank = {}
            seen, order = set(), []
            stack = [(self.g.entry, iter([s for s, _ in self.g.entry.succ]))]
            seen.add(self.g.entry.id)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s.id not in seen:
                        seen.add(s.id)
                        nx = [y for y, _ in s.succ]
                        if s.exc is not None:
                            nx.append(s.exc)
                        stack.append((s, iter(nx)))
                        break
                else:
                    order.append(x.id)
                    stack.pop()
            for i, x in enumerate(reversed(order)):
                self._rank[x] = i
        return self._rank.get(n.id, 1 << 30)

    def step(self, n, env):
        if n.k == 'br':
            vs = self.ev(n.cond, env)
            want = set()
            for v in vs:
                if v in (T, F):
                    want.add(v == T)
                    continue
                if v[0] == 'const':
                    want.add(bool(v[1]))
                    continue
                c, pol = self.canon(v)
                lp = self.guard_of(n)
                if lp is not None:
                    if (v, lp[1]) not in lp[0].guards:
                        lp[0].guards.append((v, lp[1]))
                    want |= {True, False}
                    continue
                if c in self.decide:
                    want.add(self.decide[c] == pol)
                else:
                    if c not in self.asked:
                        self.asked.append(c)
                    want |= {True, False}
            return [(s, l, env) for s, l in n.succ if l in want]
        if n.k == 'switch':
            vs = self.ev(n.x, env)
            if len(vs) == 1 and next(iter(vs))[0] not in ('const', 'enum'):
                v = next(iter(vs))
                while v[0] == 'cast':
                    v = v[2]
                for s, l in n.succ:
                    if l[0] != 'case' or l[1] not in n.labels:
                        continue
                    c = ('bin', '==', v, n.labels[l[1]])
                    if c not in self.decide:
                        if c not in self.asked:
                            self.asked.append(c)
                        return [(s, l, env) for s, l in n.succ]
                    if self.decide[c]:
                        return [(s, l, env)]
                return [(s, l, env) for s, l in n.succ if l[0] == 'default']
        if n.k == 'assign' and n.lhs[0] in ('idx', 'at', 'elem') or (n.k == 'assign' and n.lhs[0] == 'deref' and n.lhs != ('deref', ('this',))):
            base = n.lhs[1]
            idx = self.ev(n.lhs[2], env) if n.lhs[0] in ('idx', 'at') else None
            self.stores.append((n, base, self.ev(base, env), idx, self.ev(n.rhs, env)))
        if n.k == 'call':
            self.calls.append((n, env))
            if n.obj is not None and n.q.split('::')[-1] in ('push_back', 'emplace_back') and len(n.args) == 1:
                self.stores.append((n, n.obj, self.ev(n.obj, env), 'append', self.ev(n.args[0], env)))
        return super().step(n, env)

    def guard_of(self, n):
        """(loop, truth that stays) if the branch decides whether a loop goes on"""
        for lp in self.loops.values():
            if n.id in lp.ids:
                inside = [l for s, l in n.succ if s.id in lp.ids or s is lp.head]
                outside = [l for s, l in n.succ if not (s.id in lp.ids or s is lp.head)]
                if inside and outside:
                    # the innermost loop only
                    return lp, inside[0]
        return None


def table(make, limit=6):
    """Evaluations for every combination of the undecided conditions: [(decide, evaluation)], or None if there are too many.
    make(decide) -> LoopEval that has been run"""
    out = []
    work = [{}]
    while work:
        d = work.pop()
        e = make(d)
        new = [c for c in e.asked if c not in d]
        if not new:
            out.append((d, e))
            continue
        if len(d) >= limit:
            return None
        c = new[0]
        for v in (True, False):
            x = dict(d)
            x[c] = v
            work.append(x)
    return out
