"""Conditional constant propagation over a Graph.

The domain is a finite set of value terms per variable (or access path); branches whose
condition evaluates to a constant follow one edge only.  Comparisons between symbolic
values are put to an `oracle`, which fixes the order of the operands (one of <, =, >) or
the truth of an atom, so that a comparison function can be evaluated over all the
orderings its operands can have.  Loops over constant tables are partitioned by
iteration.
"""

from cfg import deref, neg, root, subterms, NEGOP

T = ('const', 1)
F = ('const', 0)
TOP = ('top',)
MAXSET = 24


class State(dict):
    pass


# algorithms which write through an iterator
WRITING = {'transform', 'copy', 'copy_n', 'copy_if', 'fill', 'fill_n', 'generate', 'generate_n', 'replace', 'replace_if', 'remove', 'remove_if', 'reverse', 'rotate', 'sort', 'stable_sort', 'unique', 'swap_ranges', 'iota', 'merge'}


class Eval:
    def __init__(self, g, oracle=None, env=None, unroll=80, max_steps=60000, call=None):
        self.g = g
        self.oracle = oracle or (lambda op, x, y: None)
        self.callhook = call
        self.env0 = env or {}
        self.unroll = unroll
        self.returns = set()
        self.return_nodes = {}
        self.return_states = []
        self.throws = []
        self.executed = set()
        self.states = {}
        self.steps = 0
        self.max_steps = max_steps
        self.complete = True
        self.edges = set()

    # ---- terms

    def ev(self, t, env):
        k = t[0]
        if k in ('const', 'str', 'enum', 'null', 'gvar', 'this', 'fn', 'lambda', 'top', 'float', 'opaque'):
            if k == 'gvar' and t in env:
                return env[t]
            return frozenset([t])
        if t in env:
            return env[t]
        if k == 'var':
            return frozenset([t])
        if k == 'elem':
            idx = env.get(('#elem', t[1]))
            xs = self.ev(t[1], env)
            if idx is not None and len(xs) == 1:
                x = next(iter(xs))
                items = self.items(x)
                if items is not None and idx < len(items):
                    return frozenset([items[idx]])
            out = set()
            for x in xs:
                items = self.items(x)
                if items is not None:
                    out |= set(items)
                else:
                    out.add(('elem', x))
            return self.cap(out)
        if k == 'iter' and ('#elem', t[1]) in env:
            xs = self.ev(('elem', t[1]), env)
            if len(xs) == 1 and all(x[0] != 'elem' for x in xs):
                return frozenset([('addr', next(iter(xs)))])
        if k == 'mem':
            out = set()
            for b in self.ev(t[1], env):
                out |= self.mem(b, t[2], env)
            return self.cap(out)
        if k == 'bin':
            out = set()
            for x in self.ev(t[2], env):
                for y in self.ev(t[3], env):
                    out |= self.binop(t[1], x, y)
            return self.cap(out)
        if k == 'not':
            return self.cap(set(self.negate(x) for x in self.ev(t[1], env)))
        if k == 'nonnull':
            out = set()
            for x in self.ev(t[1], env):
                out |= self.nonnull(x)
            return self.cap(out)
        if k == 'cast':
            out = set()
            for x in self.ev(t[2], env):
                if x[0] == 'enum' or x[0] == 'const':
                    out.add(('const', x[-1]))
                else:
                    out.add(('cast', t[1], x) if x != TOP else TOP)
            return self.cap(out)
        if k == 'un':
            out = set()
            for x in self.ev(t[2], env):
                if x[0] == 'const' and t[1] == '-' and isinstance(x[1], int):
                    out.add(('const', -x[1]))
                else:
                    out.add(('un', t[1], x))
            return self.cap(out)
        if k == 'deref':
            return self.cap(set(deref(x) if x != TOP else TOP for x in self.ev(t[1], env)))
        if k in ('idx', 'at'):
            out = set()
            for b in self.ev(t[1], env):
                for i in self.ev(t[2], env):
                    items = self.items(b)
                    if items is not None and i[0] in ('const', 'enum') and isinstance(i[-1], int):
                        if 0 <= i[-1] < len(items):
                            out.add(items[i[-1]])
                        else:
                            out.add(('opaque', 'oob'))
                    else:
                        out.add((k, b, i))
            return self.cap(out)
        if k == 'size':
            out = set()
            for b in self.ev(t[1], env):
                items = self.items(b)
                if items is not None:
                    out.add(('const', len(items)))
                elif b[0] == 'str':
                    out.add(('const', len(b[1])))
                else:
                    out.add(('size', b))
            return self.cap(out)
        if k == 'call':
            objs = [None] if t[2] is None else self.ev(t[2], env)
            return self.product('call', [frozenset([t[1]])] , objs, t[3], env)
        if k in ('list', 'obj'):
            return self.tup(t[:2], t[2:], env)
        if k == 'tuple':
            return self.tup(t[:1], t[1:], env)
        # generic unary structure
        out = [()]
        parts = []
        for i in t[1:]:
            if isinstance(i, tuple) and i and isinstance(i[0], str):
                parts.append(self.ev(i, env))
            else:
                parts.append([i])
        res = [(k,)]
        for p in parts:
            res = [r + (x,) for r in res for x in p]
            if len(res) > MAXSET:
                return frozenset([TOP])
        return self.cap(set(res))

    def tup(self, head, items, env):
        res = [tuple(head)]
        for i in items:
            p = self.ev(i, env)
            res = [r + (x,) for r in res for x in p]
            if len(res) > MAXSET:
                return frozenset([TOP])
        return frozenset(res)

    def product(self, k, q, objs, args, env):
        res = [()]
        for a in args:
            p = self.ev(a, env)
            res = [r + (x,) for r in res for x in p]
            if len(res) > MAXSET:
                return frozenset([TOP])
        return self.cap(set((k, next(iter(q[0])), o, r) for o in objs for r in res))

    def cap(self, s):
        if TOP in s or len(s) > MAXSET:
            return frozenset([TOP])
        return frozenset(s)

    def items(self, x):
        if x[0] == 'gvar':
            gl = self.constant_global(x[1])
            if gl is not None:
                x = gl
        if x[0] == 'list':
            return list(x[2:])
        if x[0] == 'obj' and len(x) == 3 and x[2][0] == 'list':
            return list(x[2][2:])
        if x[0] == 'obj' and len(x) > 3 and x[2][0] == 'list' and x[1] in ('std::vector', 'std::list', 'std::map', 'std::set'):
            return list(x[2][2:])
        return None

    def constant_global(self, q):
        return self.g.prog.global_term(q)

    FIELD_ORDER = {'first': 0, 'second': 1}

    def mem(self, b, f, env):
        if b == TOP:
            return {TOP}
        if ('mem', b, f) in env:
            return set(env[('mem', b, f)])
        if b[0] in ('list',):
            items = list(b[2:])
            rec = self.g.prog.record(b[1], missing_ok=True) if b[1] else None
            order = None
            if rec is not None:
                names = [i['n'] for i in rec.get('fields', [])]
                if f in names:
                    order = names.index(f)
            if order is None:
                order = self.FIELD_ORDER.get(f)
            if order is not None and order < len(items):
                return {items[order]}
        if b[0] == 'obj' and b[1] == 'std::pair' and f in self.FIELD_ORDER and len(b) == 4:
            return {b[2 + self.FIELD_ORDER[f]]}
        o = b
        if b[0] == 'gvar' and b not in env:
            o = self.constant_global(b[1]) or b
        if o[0] == 'obj' and o[1].startswith('dcp::'):
            # an object made by a constructor that puts its parameters in its members
            ctors = [c for c in self.g.prog.get(o[1] + '::(ctor)') if len(c.params) == len(o) - 2]
            if len(ctors) == 1:
                init = [i for i in ctors[0].inits or [] if i.get('f') == f]
                if len(init) == 1 and init[0]['x'].get('e') == 'var':
                    ids = [p['id'] for p in ctors[0].params]
                    if init[0]['x'].get('id') in ids:
                        return {o[2 + ids.index(init[0]['x']['id'])]}
        return {('mem', b, f)}

    def negate(self, x):
        if x == T:
            return F
        if x == F:
            return T
        if x == TOP:
            return TOP
        return neg(x)

    def nonnull(self, x):
        if x == TOP:
            return {TOP}
        if x == ('null',):
            return {F}
        if x[0] in ('addr', 'obj', 'const', 'str', 'list', 'enum'):
            return {T}
        r = self.oracle('set', x, None)
        if r is None:
            return {('nonnull', x)}
        return {T if i else F for i in r}

    CMP = {'==': lambda c: c == 0, '!=': lambda c: c != 0, '<': lambda c: c < 0, '>': lambda c: c > 0, '<=': lambda c: c <= 0, '>=': lambda c: c >= 0}

    def binop(self, op, x, y):
        if x == TOP or y == TOP:
            return {TOP}
        if op in self.CMP:
            xv = x[-1] if x[0] in ('const', 'enum', 'float', 'str') else None
            yv = y[-1] if y[0] in ('const', 'enum', 'float', 'str') else None
            if xv is not None and yv is not None and isinstance(xv, str) == isinstance(yv, str):
                c = (xv > yv) - (xv < yv)
                return {T if self.CMP[op](c) else F}
            if op in ('==', '!=') and {x[0], y[0]} == {'addr', 'enditer'}:
                return {T if op == '!=' else F}
            if x[0] == 'tuple' and y[0] == 'tuple' and len(x) == len(y):
                return self.lex(op, x[1:], y[1:])
            signs = self.oracle('cmp', x, y)
            if signs is None and x == y and op in ('==', '<=', '>='):
                return {T}
            if signs is None and x == y and op in ('!=', '<', '>'):
                return {F}
            if signs is None:
                return {('bin', op, x, y)}
            return {T if self.CMP[op](c) else F for c in signs}
        if op in ('+', '-') and x[0] == 'iter' and y[0] not in ('iter', 'enditer'):
            return {x}
        if x[0] in ('const', 'enum') and y[0] in ('const', 'enum') and isinstance(x[-1], int) and isinstance(y[-1], int):
            a, b = x[-1], y[-1]
            try:
                if op == '+':
                    return {('const', a + b)}
                if op == '-':
                    return {('const', a - b)}
                if op == '*':
                    return {('const', a * b)}
                if op == '/' and b:
                    return {('const', int(a / b))}
                if op == '%' and b:
                    return {('const', a % b if a >= 0 and b > 0 else -((-a) % b))}
                if op == '&':
                    return {('const', a & b)}
                if op == '|':
                    return {('const', a | b)}
                if op == '<<':
                    return {('const', a << b)}
                if op == '>>':
                    return {('const', a >> b)}
            except Exception:
                return {TOP}
        return {('bin', op, x, y)}

    def lex(self, op, xs, ys):
        """Lexicographic comparison of tuples"""
        possible = {0}
        for x, y in zip(xs, ys):
            if 0 not in possible:
                break
            eq = self.binop('==', x, y)
            lt = self.binop('<', x, y)
            possible.discard(0)
            if eq - {F}:
                possible.add(0)
            if eq - {T}:
                if lt - {F}:
                    possible.add(-1)
                if lt - {T}:
                    possible.add(1)
        return {T if self.CMP[op](c) else F for c in possible}

    # ---- flow

    def run(self):
        g = self.g
        work = [(g.entry, ())]
        start = dict()
        for k, v in self.env0.items():
            start[k] = v if isinstance(v, frozenset) else frozenset([v])
        self.states[(g.entry.id, ())] = start
        visited = set()
        while work:
            n, part = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                self.complete = False
                return self
            env = self.states[(n.id, part)]
            visited.add((n.id, part))
            self.executed.add(n.id)
            outs = self.step(n, env)
            for s, label, out in outs:
                self.edges.add((n.id, s.id))
                p2 = part
                if s.k == 'nop' and s.d.get('loop') in ('head', 'do'):
                    d = dict(part)
                    d[s.id] = min(d.get(s.id, -1) + 1, self.unroll)
                    p2 = tuple(sorted(d.items()))
                elif s.k == 'nop' and s.d.get('loopexit') is not None and dict(part).get(s.d['loopexit']) is not None:
                    p2 = tuple(i for i in part if i[0] != s.d['loopexit'])
                if s is g.exit or s is g.excexit:
                    p2 = ()
                key = (s.id, p2)
                tgt = self.states.get(key)
                if tgt is None:
                    self.states[key] = dict(out)
                    work.append((s, p2))
                else:
                    if self.join(tgt, out):
                        work.append((s, p2))
        return self

    def outer(self, k):
        """Is k (part of) something that existed when the function was entered?"""
        if k[0] != 'mem':
            return False
        r = root(k)
        return r == ('this',) or (r[0] == 'var' and r in self.g.params)

    def join(self, tgt, src):
        changed = False
        for k in [k for k in tgt if k not in src and self.outer(k)]:
            if k not in tgt[k]:
                tgt[k] = self.cap(tgt[k] | {k})
                changed = True
        for k, v in src.items():
            o = tgt.get(k)
            if o is None:
                # defined on one side only: the other side has the symbolic value itself
                if isinstance(k, tuple) and k and k[0] == '#elem':
                    tgt[k] = v
                    continue
                tgt[k] = v if not self.outer(k) else self.cap(v | {k})
                changed = True
            elif isinstance(v, frozenset) and not v <= o:
                tgt[k] = self.cap(o | v)
                changed = tgt[k] != o or changed
        return changed

    def mutated(self, x, n, env):
        if x == TOP or (x[0] == 'mut' and x[1] == n.q):
            return x
        return ('mut', n.q, x)

    def outvalue(self, n, i, t, env):
        return frozenset([('opaque', 'out%d' % n.id)])

    def partvalue(self, n, i, t, env):
        return None

    def rewritten(self, n, t, env):
        """Value of container t after an algorithm that was given an iterator of it has run"""
        return frozenset([TOP])

    def kill(self, env, t):
        for k in [k for k in env if k != t and k[0] in ('mem', 'idx', 'elem', 'at') and self.extends(k, t)]:
            del env[k]

    def parts(self, rhs, lhs, env):
        """When an object is copied, so are the values its members have been given"""
        if rhs == lhs or rhs[0] not in ('var', 'mem', 'deref', 'gvar'):
            return {}
        out = {}
        for k, v in env.items():
            if k[0] == 'mem' and self.extends(k, rhs):
                out[self.rebase(k, rhs, lhs)] = v
        return out

    def rebase(self, k, old, new):
        if k == old:
            return new
        return (k[0], self.rebase(k[1], old, new)) + k[2:]

    def extends(self, k, t):
        while k[0] in ('mem', 'idx', 'elem', 'at', 'deref'):
            k = k[1]
            if k == t:
                return True
        return False

    def step(self, n, env):
        k = n.k
        if k == 'assign':
            out = dict(env)
            lhs = n.lhs
            v = self.ev(n.rhs, env)
            parts = self.parts(n.rhs, lhs, env)
            self.kill(out, lhs)
            out[lhs] = v
            out.update(parts)
            return [(s, l, out) for s, l in n.succ]
        if k == 'call':
            out = dict(env)
            r = None
            if self.callhook is not None:
                r = self.callhook(self, n, env)
            if r is None:
                if n.d.get('ctor'):
                    r = self.tup(('obj', n.ctor), n.args, env)
                else:
                    objs = [None] if n.obj is None else self.ev(n.obj, env)
                    r = self.product('call', [frozenset([n.q])], objs, n.args, env)
            self.kill(out, n.dst)
            out[n.dst] = r
            mp = n.e.get('mp') or []
            for i, a in enumerate(n.args):
                if (i < len(mp) and mp[i] == 1) or (i >= len(mp) and a[0] == 'addr' and 'scanf' in n.q):
                    t = a[1] if a[0] == 'addr' else a
                    if t[0] in ('var', 'mem'):
                        self.kill(out, t)
                        out[t] = self.outvalue(n, i, t, env)
                    elif t[0] == 'bin' and t[1] == '+' and t[2][0] in ('var', 'mem'):
                        v = self.partvalue(n, i, t, env)
                        if v is not None:
                            out[t[2]] = v
            if n.q.startswith('std::') and n.q.split('::')[-1] in WRITING:
                for a in (n.args[2:3] if n.q in ('std::transform', 'std::copy', 'std::copy_n', 'std::copy_if') else n.args):
                    if a[0] == 'iter' and a[1][0] in ('var', 'mem'):
                        self.kill(out, a[1])
                        out[a[1]] = self.rewritten(n, a[1], env)
            if n.obj is not None and n.obj[0] == 'var' and not harmless(n) and not n.d.get('ctor'):
                # a non-const member function of a local object: its value is not what it was
                self.kill(out, n.obj)
                out[n.obj] = self.cap(set(self.mutated(x, n, env) for x in self.ev(n.obj, env)))
            res = [(s, l, out) for s, l in n.succ]
            if n.exc is not None:
                res.append((n.exc, 'exc', env))
            return res
        if k == 'new':
            out = dict(env)
            out[n.dst] = self.cap(set(('addr', x) for x in self.tup(('obj', n.cls or n.type), n.args, env)))
            return [(s, l, out) for s, l in n.succ]
        if k == 'br':
            vs = self.ev(n.cond, env)
            want = set()
            for v in vs:
                if v == T or v == F:
                    want.add(v == T)
                elif v[0] in ('const',):
                    want.add(bool(v[1]))
                else:
                    b = None
                    r = self.oracle('atom', v, None)
                    if r is not None:
                        want |= set(r)
                    else:
                        want |= {True, False}
            return [(s, l, env) for s, l in n.succ if l in want]
        if k == 'switch':
            vs = self.ev(n.x, env)
            res = []
            known = all(v[0] in ('const', 'enum') for v in vs)
            cases = set(l[1] for s, l in n.succ if l[0] == 'case')
            for s, l in n.succ:
                if not known:
                    res.append((s, l, env))
                elif l[0] == 'case':
                    if any(v[-1] == l[1] for v in vs):
                        res.append((s, l, env))
                elif any(v[-1] not in cases for v in vs):
                    res.append((s, l, env))
            return res
        if k == 'ret':
            if n.x is not None:
                vs = self.ev(n.x, env)
                self.returns |= vs
                self.return_nodes[n.id] = self.return_nodes.get(n.id, frozenset()) | vs
            else:
                self.return_nodes[n.id] = frozenset()
            self.return_states.append((n, env))
            return [(s, l, env) for s, l in n.succ]
        if k == 'throw':
            if n not in self.throws:
                self.throws.append(n)
            return [(n.exc, 'exc', env)] if n.exc is not None else []
        if k == 'nondet':
            rng = n.range
            xs = self.ev(rng, env)
            if len(xs) == 1:
                items = self.items(next(iter(xs)))
                if items is not None and len(items) <= self.unroll:
                    idx = env.get(('#next', n.id), 0)
                    out = dict(env)
                    if idx < len(items):
                        out[('#elem', rng)] = idx
                        out[('#next', n.id)] = idx + 1
                        return [(s, l, out) for s, l in n.succ if l is True]
                    out.pop(('#next', n.id), None)
                    out.pop(('#elem', rng), None)
                    return [(s, l, out) for s, l in n.succ if l is False]
            return [(s, l, env) for s, l in n.succ]
        res = [(s, l, env) for s, l in n.succ]
        return res


HARMLESS = {'find', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'lower_bound', 'upper_bound', 'equal_range', 'count', 'size', 'empty', 'length', 'c_str'}


def harmless(n):
    """Calls of methods of containers that are not const but change nothing"""
    return n.e.get('cm') or n.e.get('sm') or (n.q.startswith('std::') and n.q.split('::')[-1] in HARMLESS)


def deep(t):
    """All the terms within t, including those in argument tuples"""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from deep(i)


class Summary(Eval):
    """Values of members and of the result at the end of a function, in terms of what they were at its start"""

    def mutated(self, x, n, env):
        if x == TOP:
            return x
        args = []
        for a in n.args:
            v = self.ev(a, env)
            args.append(next(iter(v)) if len(v) == 1 else TOP)
        y = x
        while y[0] == 'mut':
            if y[4] == n.id:
                return ('mut', n.q, y[2], ('loop',), n.id)
            y = y[2]
        return ('mut', n.q, x, tuple(args), n.id)

    def outvalue(self, n, i, t, env):
        args = []
        for j, a in enumerate(n.args):
            v = self.ev(a, env)
            x = next(iter(v)) if len(v) == 1 else TOP
            if j == i:
                v = self.ev(t if t[0] != 'bin' else t[2], env)
                x = next(iter(v)) if len(v) == 1 else TOP
            args.append(('opaque', 'loop') if any(y[0] == 'out' and y[4] == n.id for y in deep(x)) else x)
        return frozenset([('out', n.q, i, tuple(args), n.id)])

    def partvalue(self, n, i, t, env):
        # something written part way into a buffer
        new = next(iter(self.outvalue(n, i, t, env)))
        at = self.ev(t[3], env)
        at = next(iter(at)) if len(at) == 1 else TOP
        return self.cap(set(('append', x, at, new) for x in self.ev(t[2], env)))

    def step(self, n, env):
        res = super().step(n, env)
        if n.k == 'call' and n.obj is not None and n.obj[0] in ('mem', 'deref') and not harmless(n) and not n.d.get('ctor'):
            out2 = []
            for s, l, out in res:
                if l != 'exc':
                    out = dict(out)
                    self.kill(out, n.obj)
                    out[n.obj] = self.cap(set(self.mutated(x, n, env) for x in self.ev(n.obj, env)))
                out2.append((s, l, out))
            res = out2
        return res

    def final(self, t):
        """Possible values of access path t when the function returns normally"""
        env = self.states.get((self.g.exit.id, ()))
        if env is None:
            return None
        return self.ev(t, env)

    def member(self, f):
        t = ('deref', ('this',))
        for i in f.split('.'):
            t = ('mem', t, i)
        return self.final(t)

    def result(self, f):
        """Possible values of member f (or member path a.b) of the returned object"""
        out = set()
        for n, env in self.return_states:
            if n.x is not None:
                t = n.x
                for i in f.split('.'):
                    t = ('mem', t, i)
                out |= self.ev(t, env)
        return frozenset(out)


def summary(prog, fn, policy=None, env=None, oracle=None, max_depth=8, **kw):
    from cfg import Graph
    g = Graph(prog, fn, policy, max_depth)
    return Summary(g, oracle, env, **kw).run()
