"""Must-analysis over the shape of objects.

An abstract interpretation of function bodies in which a value is null, one of a
few named objects, a constant, a sequence of values, or anything at all.  Where a
condition can be anything both branches are taken and their results joined, so that
what holds at the end holds whatever the unknown values are.  A set of events (calls
made on the objects of interest) is carried along and intersected at joins."""

import re

import ir

ANY = ('any',)
NULL = ('null',)


class Unknown(Exception):
    """Something that the analysis does not understand"""


def obj(name, cls):
    return ('obj', name, cls)


def seq(*xs):
    return ('seq',) + tuple(xs)


def const(v):
    return ('const', v)


TRUE, FALSE = const(True), const(False)


def truth(v):
    """True, False or None"""
    if v[0] == 'const':
        return bool(v[1])
    if v == NULL:
        return False
    if v[0] in ('obj', 'lambda', 'enum'):
        return True
    return None


def join(a, b):
    if a == b:
        return a
    if a[0] == 'seq' and b[0] == 'seq' and len(a) == len(b):
        return ('seq',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] in ('seq', 'bag') and b[0] in ('seq', 'bag'):
        # of different lengths: what is in both, whatever else is
        return ('bag', members(a) & members(b))
    return ANY


def members(v):
    """The objects which are surely in a sequence"""
    if v[0] == 'bag':
        return v[1]
    if v[0] == 'seq':
        return frozenset(x for x in v[1:] if x[0] == 'obj')
    return frozenset()


def plus(v, xs):
    """A sequence with more added at its end (None: nobody knows what)"""
    if v[0] == 'seq' and xs is not None:
        return v + tuple(xs)
    if v[0] in ('seq', 'bag'):
        return ('bag', members(v) | frozenset(x for x in (xs or ()) if x[0] == 'obj'))
    return ANY


class State:
    __slots__ = ('vars', 'heap', 'must', 'certain')

    def __init__(self, vars=None, heap=None, must=frozenset(), certain=True):
        # certain: no branch on the way here was taken on an unknown value
        self.certain = certain
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.must = must

    def copy(self):
        return State(dict(self.vars), dict(self.heap), self.must, self.certain)


def merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    v = {}
    for k in set(a.vars) | set(b.vars):
        if k in a.vars and k in b.vars:
            v[k] = join(a.vars[k], b.vars[k])
        else:
            v[k] = a.vars[k] if k in a.vars else b.vars[k]
    h = {}
    for k in set(a.heap) | set(b.heap):
        h[k] = join(a.heap[k], b.heap[k]) if k in a.heap and k in b.heap else ANY
    return State(v, h, a.must & b.must, a.certain and b.certain)


class Out:
    """What comes of a statement"""

    def __init__(self):
        self.normal = None
        self.returns = []
        self.breaks = None
        self.continues = None

    def leave(self, o):
        self.returns += o.returns
        self.breaks = merge(self.breaks, o.breaks)
        self.continues = merge(self.continues, o.continues)


def strip(x):
    while isinstance(x, dict) and x.get('e') in ('cast', 'icast', 'defarg', 'paren', 'bindtemp'):
        x = x['x']
    return x


class Shape:
    """model.call(engine, state, x, object value, argument values) gives the value of a call, or None if it has nothing to say;
    model.field(engine, state, object value, name) likewise for a member"""

    def __init__(self, prog, model, depth=8):
        self.prog = prog
        self.model = model
        self.depth = depth
        self.stack = []
        self.functions = set()
        self.budget = 400000
        # uses of nothing which happen whatever the unknown values are
        self.wrong = []
        # has a branch been taken on an unknown value?
        self.branched = False
        # is what cannot be followed an end to it all, rather than a call of something unknown?
        self.strict = False

    # functions

    def call(self, f, this, args, st):
        """-> [(value, state)]"""
        if len(self.stack) > self.depth or any(g is f for g, _ in self.stack[1:]):
            raise Unknown('recursion')
        self.functions.add(f)
        st = st.copy()
        for p, a in zip(f.params, args):
            st.vars[(f.tu, p.get('id'))] = a
        self.stack.append((f, this))
        try:
            for i in f.d.get('inits', []):
                if i.get('f') and this is not None and this[0] == 'obj':
                    st.heap[(this[1], i['f'])] = self.ev(i['x'], st)
                elif i.get('base') and self.strict and this is not None and (i.get('x') or {}).get('e') == 'ctor' and getattr(self.prog.functions.get(i['x'].get('fn')), 'body', None) is not None:
                    self.inline(self.prog.functions[i['x']['fn']], this, [self.ev(a, st) for a in i['x'].get('a', []) if isinstance(a, dict)], st)
                elif i.get('x') is not None:
                    self.ev(i['x'], st)
            o = self.stmt(f.body, st)
        finally:
            self.stack.pop()
        out = list(o.returns)
        if o.normal is not None:
            out.append((ANY, o.normal))
        return out

    def inline(self, f, this, args, st):
        rs = self.call(f, this, args, st)
        if not rs:
            raise Never()
        v, s = rs[0]
        for w, t in rs[1:]:
            v, s = join(v, w), merge(s, t)
        st.vars, st.heap, st.must, st.certain = s.vars, s.heap, s.must, s.certain
        return v

    @property
    def f(self):
        return self.stack[-1][0]

    # statements

    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown('too much to do')
        o = Out()
        if s is None:
            o.normal = st
            return o
        if isinstance(s, list):
            for y in s:
                if st is None:
                    break
                p = self.stmt(y, st)
                o.leave(p)
                st = p.normal
            o.normal = st
            return o
        k = s.get('s')
        if k is None:
            s = {'s': 'expr', 'x': s}
            k = 'expr'
        try:
            return getattr(self, 's_' + k)(s, st, o)
        except Never:
            o.normal = None
            return o
        except AttributeError as e:
            if "s_" in str(e):
                raise Unknown('statement %s' % k)
            raise

    def s_block(self, s, st, o):
        return self.stmt(s.get('b', []), st)

    s_decls = s_block

    def s_null(self, s, st, o):
        o.normal = st
        return o

    s_empty = s_null

    def s_expr(self, s, st, o):
        self.ev(s['x'], st)
        o.normal = st
        return o

    def s_decl(self, s, st, o):
        st.vars[(self.f.tu, s.get('id'))] = self.ev(s['x'], st) if s.get('x') is not None else ANY
        o.normal = st
        return o

    def s_return(self, s, st, o):
        v = self.ev(s['x'], st) if s.get('x') is not None else ANY
        o.returns.append((v, st))
        return o

    def s_break(self, s, st, o):
        o.breaks = st
        return o

    def s_continue(self, s, st, o):
        o.continues = st
        return o

    def branch(self, c, st):
        """-> (state if true or None, state if false or None)"""
        c0 = strip(c)
        if isinstance(c0, dict) and c0.get('e') == 'un' and c0.get('op') == '!':
            a, b = self.branch(c0['x'], st)
            return b, a
        if isinstance(c0, dict) and c0.get('e') == 'bin' and c0.get('op') == '&&':
            a, b = self.branch(c0['x'], st)
            if a is None:
                return None, b
            a, d = self.branch(c0['y'], a)
            return a, merge(b, d)
        if isinstance(c0, dict) and c0.get('e') == 'bin' and c0.get('op') == '||':
            a, b = self.branch(c0['x'], st)
            if b is None:
                return a, None
            d, b = self.branch(c0['y'], b)
            return merge(a, d), b
        try:
            t = truth(self.ev(c, st))
        except Never:
            return None, None
        if t is True:
            return st, None
        if t is False:
            return None, st
        st.certain = False
        self.branched = True
        return st, st.copy()

    def s_if(self, s, st, o):
        if s.get('init') is not None:
            p = self.stmt(s['init'], st)
            st = p.normal
        if s.get('var') is not None and st is not None:
            st = self.stmt(s['var'], st).normal
        if st is None:
            return o
        a, b = self.branch(s['c'], st)
        n = None
        if a is not None:
            p = self.stmt(s.get('x'), a)
            o.leave(p)
            n = merge(n, p.normal)
        if b is not None:
            p = self.stmt(s.get('y'), b)
            o.leave(p)
            n = merge(n, p.normal)
        o.normal = n
        return o

    def s_switch(self, s, st, o):
        if s.get('var') is not None:
            st = self.stmt(s['var'], st).normal
            if st is None:
                return o
        v = self.ev(s['c'], st)
        flat = []

        def labels(x):
            ls = []
            while isinstance(x, dict) and x.get('s') in ('case', 'default'):
                ls.append(x.get('cv', (x.get('v') or {}).get('cv')) if x['s'] == 'case' else 'default')
                x = x.get('x')
            return ls, x
        for x in (s['x'].get('b', []) if s['x'].get('s') == 'block' else [s['x']]):
            flat.append(labels(x))
        known = v[1] if v[0] == 'const' else (v[2] if v[0] == 'enum' else None)
        all_labels = [l for ls, _ in flat for l in ls]
        normal = None
        starts = []
        for i, (ls, _) in enumerate(flat):
            if ls and (known is None or known in ls or ('default' in ls and known not in all_labels)):
                starts.append(i)
        if known is None and 'default' not in all_labels or (known is not None and not starts):
            normal = st.copy()
        for i in starts:
            p = self.stmt([x for _, x in flat[i:]], st.copy())
            o.returns += p.returns
            o.continues = merge(o.continues, p.continues)
            normal = merge(normal, merge(p.normal, p.breaks))
        o.normal = normal
        return o

    def s_rfor(self, s, st, o):
        r = self.ev(s['r'], st)
        v = s['var']
        key = (self.f.tu, v.get('id'))
        if r[0] == 'seq':
            out = None
            for x in r[1:]:
                if st is None:
                    break
                st.vars[key] = x
                p = self.stmt(s['x'], st)
                o.returns += p.returns
                out = merge(out, p.breaks)
                st = merge(p.normal, p.continues)
            o.normal = merge(out, st)
            return o
        if r[0] == 'bag' and r[1]:
            # anything, those that are surely there in any order, and anything
            return self.s_rfor(dict(s, r={'e': 'value', 'v': seq(ANY, *(sorted(r[1]) + [ANY]))}), st, o)
        # any number of elements
        self.branched = True
        st.certain = False
        done = st.copy()
        for i in range(3):
            st.vars[key] = ANY
            p = self.stmt(s['x'], st)
            o.returns += p.returns
            done = merge(done, p.breaks)
            st = merge(p.normal, p.continues)
            if st is None:
                break
            done = merge(done, st.copy())
            st = done.copy()
        o.normal = done
        return o

    def loop(self, s, st, o, first):
        done = None
        decided = True
        for i in range(300):
            if i >= 12 and not decided:
                st = self.unknown(s, st)
                done = merge(done, st)
                break
            if first or i:
                if s.get('c') is not None:
                    st, b = self.branch(s['c'], st)
                    decided = decided and (st is None or b is None)
                    done = merge(done, b)
            if st is None:
                break
            p = self.stmt(s.get('x'), st)
            o.returns += p.returns
            done = merge(done, p.breaks)
            st = merge(p.normal, p.continues)
            if st is None:
                break
            if s.get('inc') is not None:
                self.ev(s['inc'], st)
        else:
            st = self.unknown(s, st)
            done = merge(done, st)
        o.normal = done
        return o

    def unknown(self, s, st):
        """A loop of which the end is not known: forget what it changes"""
        self.branched = True
        if st is not None:
            for x in ir.walk(s):
                if x.get('e') in ('asg',) or (x.get('e') == 'un' and x.get('op') in ('++', '--', 'p++', 'p--', 'post++', 'post--')) or (x.get('e') == 'call' and x.get('op') in ('++', '--', '=', '+=', '-=')):
                    t = strip(x.get('x') or x.get('o') or (x.get('a') or [None])[0])
                    if isinstance(t, dict) and t.get('e') == 'var':
                        st.vars[(self.f.tu, t.get('id'))] = ANY
        return st

    def s_while(self, s, st, o):
        return self.loop(s, st, o, True)

    def s_do(self, s, st, o):
        return self.loop(s, st, o, False)

    def s_for(self, s, st, o):
        if s.get('init') is not None:
            st = self.stmt(s['init'], st).normal
            if st is None:
                return o
        return self.loop(s, st, o, True)

    def s_try(self, s, st, o):
        before = st.copy()
        p = self.stmt(s['x'], st)
        o.leave(p)
        n = p.normal
        for h in s.get('h', []):
            q = self.stmt(h.get('x'), before.copy())
            o.leave(q)
            n = merge(n, q.normal)
        o.normal = n
        return o

    # expressions

    def ev(self, x, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown('too much to do')
        if x is None:
            return ANY
        k = x.get('e')
        m = getattr(self, 'e_' + str(k), None)
        if m is None:
            for y in ('x', 'y', 'b', 'i', 'c'):
                if isinstance(x.get(y), dict):
                    self.ev(x[y], st)
            for y in x.get('a', []) or []:
                if isinstance(y, dict):
                    self.ev(y, st)
            return const(x['cv']) if 'cv' in x else ANY
        return m(x, st)

    def e_cast(self, x, st):
        v = self.ev(x['x'], st)
        if v[0] == 'any' and 'cv' in x:
            return const(x['cv'])
        return v

    e_icast = e_defarg = e_definit = e_paren = e_bindtemp = e_cast

    def e_value(self, x, st):
        return x['v']

    def e_null(self, x, st):
        return NULL

    def e_this(self, x, st):
        t = self.stack[-1][1]
        return t if t is not None else ANY

    def e_bool(self, x, st):
        return const(bool(x['cv']))

    def e_int(self, x, st):
        return const(x['cv'])

    def e_str(self, x, st):
        return const(x.get('s'))

    def e_enum(self, x, st):
        return ('enum', x.get('q'), x.get('cv'))

    def e_var(self, x, st):
        k = (self.f.tu, x.get('id'))
        if k in st.vars:
            return st.vars[k]
        if 'cv' in x:
            return const(x['cv'])
        v = self.model.field(self, st, None, x.get('q') or x.get('n'))
        return ANY if v is None else v

    def e_mem(self, x, st):
        b = self.ev(x['b'], st) if isinstance(x.get('b'), dict) else self.e_this(x, st)
        if b[0] == 'obj':
            if (b[1], x['f']) in st.heap:
                return st.heap[(b[1], x['f'])]
            v = self.model.field(self, st, b, x['f'])
            if v is not None:
                return v
        if b[0] == 'pair' and x['f'] in ('first', 'second'):
            return b[1 if x['f'] == 'first' else 2]
        return ANY

    def e_lambda(self, x, st):
        return ('lambda', x['fn'], self.stack[-1][1], self.f.tu)

    def e_throw(self, x, st):
        raise Never()

    def e_cond(self, x, st):
        a, b = self.branch(x['c'], st.copy())
        if a is not None and b is None:
            v = self.ev(x['x'], a)
            st.vars, st.heap, st.must, st.certain = a.vars, a.heap, a.must, a.certain
            return v
        if b is not None and a is None:
            v = self.ev(x['y'], b)
            st.vars, st.heap, st.must, st.certain = b.vars, b.heap, b.must, b.certain
            return v
        if a is None:
            raise Never()
        v, w = self.ev(x['x'], a), self.ev(x['y'], b)
        m = merge(a, b)
        st.vars, st.heap, st.must, st.certain = m.vars, m.heap, m.must, m.certain
        return join(v, w)

    def e_un(self, x, st):
        op = x.get('op')
        if op == '!':
            t = truth(self.ev(x['x'], st))
            return ANY if t is None else const(not t)
        if op in ('*', '&'):
            return self.ev(x['x'], st)
        v = self.ev(x['x'], st)
        if op in ('++', '--', 'p++', 'p--', 'post++', 'post--', '++post', '--post'):
            n = ANY
            if v[0] == 'const' and isinstance(v[1], int):
                n = const(v[1] + (1 if '+' in op else -1))
            elif v[0] == 'iter':
                n = ('iter', v[1], v[2] + (1 if '+' in op else -1))
            self.store(x['x'], n, st)
            return n
        if op == '-' and v[0] == 'const' and isinstance(v[1], (int, float)):
            return const(-v[1])
        return ANY

    def e_bin(self, x, st):
        op = x['op']
        if op in ('&&', '||'):
            a, b = self.branch(x, st.copy())
            m = merge(a, b)
            if m is None:
                raise Never()
            st.vars, st.heap, st.must, st.certain = m.vars, m.heap, m.must, m.certain
            if b is None:
                return TRUE
            if a is None:
                return FALSE
            return ANY
        v, w = self.ev(x['x'], st), self.ev(x['y'], st)
        return self.compare(op, v, w)

    def compare(self, op, v, w):
        known = ('const', 'null', 'obj', 'iter', 'enum')
        if op in ('==', '!=') and v[0] in known and w[0] in known:
            if v[0] == 'enum' and w[0] == 'enum':
                same = v[2] == w[2]
            elif v[0] == 'enum' and w[0] == 'const' or v[0] == 'const' and w[0] == 'enum':
                same = v[-1] == w[-1]
            elif v[0] == 'obj' and w[0] == 'obj':
                same = v[1] == w[1]
            elif v[0] == 'const' and w[0] == 'const' and (v[1] is None or w[1] is None):
                return ANY
            else:
                same = v == w
            return const(same == (op == '=='))
        if v[0] == 'enum' and w[0] in ('enum', 'const') and op not in ('==', '!='):
            v = const(v[2])
        if w[0] == 'enum' and v[0] == 'const' and op not in ('==', '!='):
            w = const(w[2])
        if v[0] == 'const' and w[0] == 'const' and isinstance(v[1], (int, float)) and isinstance(w[1], (int, float)):
            a, b = v[1], w[1]
            if op in ('<', '>', '<=', '>='):
                return const({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
            if op in ('+', '-', '*'):
                return const({'+': a + b, '-': a - b, '*': a * b}[op])
            if op in ('>>', '<<') and isinstance(a, int) and isinstance(b, int) and a >= 0 and 0 <= b < 32:
                return const(a >> b if op == '>>' else a << b)
            if op in ('&', '|', '^') and isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return const({'&': a & b, '|': a | b, '^': a ^ b}[op])
        if op == '|' and (v == TRUE or w == TRUE):
            return TRUE
        if op == '&' and (v == FALSE or w == FALSE):
            return FALSE
        return ANY

    def store(self, t, v, st):
        t = strip(t)
        if not isinstance(t, dict):
            return
        if t.get('e') == 'var':
            st.vars[(self.f.tu, t.get('id'))] = v
        elif t.get('e') == 'mem':
            b = self.ev(t['b'], st) if isinstance(t.get('b'), dict) else self.e_this(t, st)
            if b[0] == 'obj':
                st.heap[(b[1], t['f'])] = v

    def e_asg(self, x, st):
        v = self.ev(x['y'], st)
        op = x.get('op', '=')
        if op != '=':
            w = self.ev(x['x'], st)
            v = self.compare(op[:-1], w, v)
        self.store(x['x'], v, st)
        return v

    def e_ctor(self, x, st):
        cls = x.get('cls') or ''
        args = [self.ev(a, st) for a in x.get('a', []) if isinstance(a, dict)]
        v = self.model.call(self, st, x, None, args)
        if v is not None:
            return v
        if not args and cls in ('std::shared_ptr', 'boost::shared_ptr', 'std::weak_ptr', 'std::unique_ptr', 'boost::optional'):
            return NULL
        if not args and cls in ('std::vector', 'std::list', 'std::deque', 'std::set'):
            return seq()
        if args and cls in ('std::shared_ptr', 'boost::shared_ptr', 'boost::optional', 'std::vector', 'std::list', 'std::basic_string', 'boost::filesystem::path', 'std::function', 'boost::function', 'std::unique_ptr', '__gnu_cxx::__normal_iterator', 'boost::none_t'):
            if cls in ('std::vector', 'std::list') and len(args) > 1 and args[0][0] == 'iter' and args[1][0] == 'iter':
                return seq(*args[0][1][1 + args[0][2]:1 + args[1][2]])
            return args[0] if args[0][0] != 'const' or cls not in ('std::vector', 'std::list') else ANY
        if len(args) == 1 and args[0][0] in ('obj', 'seq', 'lambda', 'iter'):
            return args[0]
        return ANY

    def e_list(self, x, st):
        return seq(*[self.ev(a, st) for a in x.get('a', [])]) if not x.get('cls') else ANY

    def e_call(self, x, st):
        q, m, op = x.get('q') or '', x.get('m'), x.get('op')
        o = self.ev(x['o'], st) if isinstance(x.get('o'), dict) else None
        args = [self.ev(a, st) for a in x.get('a', []) if isinstance(a, dict)]
        v = self.model.call(self, st, x, o, args)
        if v is not None:
            return v
        if q == 'boost::throw_exception':
            raise Never()
        target = o if o is not None else (args[0] if args else ANY)
        # pointers, optionals and iterators
        if op in ('->', '*') and len(args) <= (0 if o is not None else 1):
            if target[0] == 'iter':
                s, i = target[1], target[2]
                if s[0] == 'seq' and not 0 <= i < len(s) - 1 and st.certain:
                    self.wrong.append((self.f, x, 'an element past the end of a list is used'))
                return s[1 + i] if s[0] == 'seq' and 0 <= i < len(s) - 1 else ANY
            if target == NULL and st.certain:
                self.wrong.append((self.f, x, 'something that is not there is used'))
            return target
        if m in ('operator bool', 'is_initialized', 'has_value'):
            t = truth(target)
            return ANY if t is None else const(t)
        if op == '!':
            t = truth(target)
            return ANY if t is None else const(not t)
        if m in ('get', 'lock', 'move', 'forward', 'ref', 'cref', 'const_pointer_cast', 'static_pointer_cast', 'value', 'get_value_or') and (q.startswith('std::') or q.startswith('boost::')):
            if m in ('get_value_or',) and target == NULL:
                return args[-1]
            return target
        if m == 'dynamic_pointer_cast':
            v = args[0]
            t = re.match(r'(?:std|boost)::dynamic_pointer_cast<(?:const )?([\w:]+)', x.get('fn', ''))
            if v == NULL:
                return NULL
            if v[0] == 'obj' and t:
                return v if self.derives(v[2], t.group(1)) else NULL
            return ANY
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = (o, args[0]) if o is not None else (args[0], args[1])
            r = self.compare(op, a, b)
            if r != ANY or not x.get('in'):
                return r
        if op == '=' or m in ('reset', 'swap') and o is not None:
            v = args[0] if args else NULL
            lhs = x['o'] if isinstance(x.get('o'), dict) else x['a'][0]
            if o is None:
                v = args[1]
            self.store(lhs, v, st)
            return v
        if op in ('++', '--'):
            n = ('iter', target[1], target[2] + (1 if op == '++' else -1)) if target[0] == 'iter' else ANY
            self.store(x['o'] if isinstance(x.get('o'), dict) else x['a'][0], n, st)
            return n
        if op in ('+', '-') and target[0] == 'iter' and args[-1][0] == 'const':
            return ('iter', target[1], target[2] + (args[-1][1] if op == '+' else -args[-1][1]))
        # sequences
        if q.startswith('std::') and o is not None and (o[0] == 'seq' or m in ('push_back', 'emplace_back', 'insert', 'emplace', 'clear')):
            if m == 'size' and o[0] == 'seq':
                return const(len(o) - 1)
            if m == 'empty' and o[0] == 'seq':
                return const(len(o) == 1)
            if m in ('begin', 'cbegin') and o[0] == 'seq':
                return ('iter', o, 0)
            if m in ('end', 'cend') and o[0] == 'seq':
                return ('iter', o, len(o) - 1)
            if m in ('front',) and o[0] == 'seq':
                return o[1] if len(o) > 1 else ANY
            if m in ('back',) and o[0] == 'seq':
                return o[-1] if len(o) > 1 else ANY
            if (op == '[]' or m == 'at') and o[0] == 'seq':
                i = args[0]
                if i[0] == 'const' and isinstance(i[1], int) and 0 <= i[1] < len(o) - 1:
                    return o[1 + i[1]]
                if i[0] == 'const' and st.certain:
                    self.wrong.append((self.f, x, 'an element past the end of a list is used'))
                return ANY
            if m in ('push_back', 'emplace_back'):
                self.store(x['o'], plus(o, args[:1] or None), st)
                return ANY
            if m in ('insert', 'emplace') and len(args) == 1 and '::set' in q.replace('unordered_', '') and o[0] == 'seq' and all(v[0] in ('const', 'obj') for v in o[1:] + tuple(args)):
                new = args[0] not in o[1:]
                if new:
                    self.store(x['o'], o + (args[0],), st)
                return ('pair', ANY, const(new))
            if m in ('count', 'contains') and len(args) == 1 and o[0] == 'seq' and all(v[0] in ('const', 'obj') for v in o[1:] + tuple(args)):
                return const(int(args[0] in o[1:]))
            if m == 'find' and len(args) == 1 and o[0] == 'seq' and all(v[0] in ('const', 'obj') for v in o[1:] + tuple(args)):
                return ('iter', o, o[1:].index(args[0]) if args[0] in o[1:] else len(o) - 1)
            if m == 'insert':
                n = ANY
                if o[0] == 'seq' and len(args) == 3 and args[0][0] == 'iter' and args[1][0] == 'iter' and args[2][0] == 'iter':
                    i = args[0][2]
                    n = o[:1 + i] + tuple(args[1][1][1 + args[1][2]:1 + args[2][2]]) + o[1 + i:]
                elif o[0] == 'seq' and len(args) == 2 and args[0][0] == 'iter':
                    i = args[0][2]
                    n = o[:1 + i] + (args[1],) + o[1 + i:]
                elif o[0] == 'seq' and len(args) == 1:
                    n = o + (args[0],)
                elif len(args) == 3 and args[1][0] == 'iter' and args[2][0] == 'iter':
                    n = plus(o, args[1][1][1 + args[1][2]:1 + args[2][2]])
                    n = ('bag', members(n)) if n != ANY else ANY
                elif o[0] in ('seq', 'bag'):
                    n = ('bag', members(o))
                self.store(x['o'], n, st)
                return ANY
            if m == 'clear':
                self.store(x['o'], seq(), st)
                return ANY
            if m in ('pop_back', 'pop_front') and o[0] == 'seq':
                if len(o) == 1 and st.certain:
                    self.wrong.append((self.f, x, 'an element of an empty list is removed'))
                self.store(x['o'], (o[:-1] if m == 'pop_back' else o[:1] + o[2:]) if len(o) > 1 else ANY, st)
                return ANY
            if m in ('erase', 'resize', 'assign', 'sort', 'unique', 'reverse', 'remove', 'remove_if', 'splice', 'merge', 'emplace', 'push_front', 'emplace_front', 'pop_back', 'pop_front'):
                self.store(x['o'], ANY, st)
                return ANY
        if q == 'std::back_inserter':
            return ('backinsert', repr(0), x['a'][0] and self.place(x['a'][0], st))
        if q == 'std::copy' and len(args) == 3 and args[2][0] == 'backinsert' and args[0][0] == 'iter' and args[1][0] == 'iter':
            p = args[2][2]
            xs = tuple(args[0][1][1 + args[0][2]:1 + args[1][2]])
            self.append(p, xs, st)
            return ANY
        if q == 'std::copy' and len(args) == 3 and args[2][0] == 'backinsert':
            self.append(args[2][2], None, st)
            return ANY
        if q in ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of') and len(args) == 3 and args[0][0] == 'iter' and args[1][0] == 'iter' and args[2][0] == 'lambda':
            rs = [truth(self.apply(args[2], [y], st)) for y in args[0][1][1 + args[0][2]:1 + args[1][2]]]
            if q == 'std::for_each':
                return ANY
            if q == 'std::all_of':
                return FALSE if False in rs else (TRUE if all(r is True for r in rs) else ANY)
            r = True if True in rs else (False if all(r is False for r in rs) else None)
            return ANY if r is None else const(r if q == 'std::any_of' else not r)
        if q == 'std::equal' and len(args) in (4, 5) and all(a[0] == 'iter' for a in args[:-1]) and args[-1][0] == 'lambda':
            xs = args[0][1][1 + args[0][2]:1 + args[1][2]]
            ys = args[2][1][1 + args[2][2]:]
            if len(args) == 5 and len(xs) != len(ys):
                return FALSE
            if len(ys) < len(xs):
                return ANY
            rs = [truth(self.apply(args[-1], [y, z], st)) for y, z in zip(xs, ys)]
            return FALSE if False in rs else (TRUE if all(r is True for r in rs) else ANY)
        if q == 'std::find_if' and len(args) == 3 and args[0][0] == 'iter' and args[1][0] == 'iter' and args[2][0] == 'lambda':
            for i, y in enumerate(args[0][1][1 + args[0][2]:1 + args[1][2]]):
                t = truth(self.apply(args[2], [y], st))
                if t is None:
                    return ANY
                if t:
                    return ('iter', args[0][1], args[0][2] + i)
            return args[1]
        if q == 'std::find' and len(args) == 3 and args[0][0] == 'iter' and args[1][0] == 'iter':
            for i, y in enumerate(args[0][1][1 + args[0][2]:1 + args[1][2]]):
                t = truth(self.compare('==', y, args[2]))
                if t is None:
                    return ANY
                if t:
                    return ('iter', args[0][1], args[0][2] + i)
            return args[1]
        if q in ('std::min', 'std::max') and len(args) == 2:
            if args[0][0] == 'const' and args[1][0] == 'const':
                return const((min if q == 'std::min' else max)(args[0][1], args[1][1]))
            return ANY
        if op == '()' and o is not None and o[0] == 'lambda':
            return self.apply(o, args, st)
        # functions of the program
        if q.startswith(('std::', 'boost::', '__gnu_cxx::')) or not x.get('fn'):
            self.forget(x, st)
            return ANY
        f = self.prog.functions.get(x['fn'])
        if f is not None and f.body is not None and len(self.stack) <= self.depth and not any(g is f for g, _ in self.stack) and (o is None or o[0] == 'obj'):
            if o is not None and o[0] == 'obj':
                g = self.virtual(f, o[2])
                # an overrider which calls this is calling what it overrides
                if g is not None and not any(h is g for h, _ in self.stack):
                    f = g
            before = st.copy()
            try:
                v = self.inline(f, o, args, st)
                for p, a, old in zip(f.params, [a for a in x.get('a', []) if isinstance(a, dict)], args):
                    new = st.vars.get((f.tu, p.get('id')), ANY)
                    if p.get('ref') and new != old and strip(a).get('e') in ('var', 'mem'):
                        self.store(a, new, st)
                return v
            except Unknown:
                if self.strict:
                    raise
                st.vars, st.heap, st.must, st.certain = before.vars, before.heap, before.must, before.certain
        self.forget(x, st)
        return ANY

    def apply(self, lam, args, st):
        f = self.prog.functions.get(lam[1])
        if f is None or f.body is None:
            return ANY
        return self.inline(f, lam[2], args, st)

    def place(self, x, st):
        x = strip(x)
        if x.get('e') == 'var':
            return ('var', (self.f.tu, x.get('id')))
        if x.get('e') == 'mem':
            b = self.ev(x['b'], st) if isinstance(x.get('b'), dict) else self.e_this(x, st)
            if b[0] == 'obj':
                return ('heap', (b[1], x['f']))
        return ('none', None)

    def append(self, p, xs, st):
        d = st.vars if p[0] == 'var' else (st.heap if p[0] == 'heap' else None)
        if d is None:
            return
        d[p[1]] = plus(d.get(p[1], ANY), xs)

    def forget(self, x, st):
        """A call of something unknown: what it can change can be anything"""
        for a, mode in zip(x.get('a', []), x.get('mp', []) or []):
            if mode == 1 and isinstance(a, dict) and strip(a).get('e') in ('var', 'mem'):
                if self.ev(a, st)[0] != 'obj':
                    self.store(a, ANY, st)

    def derives(self, cls, base):
        return base in self.prog.bases(cls)

    def virtual(self, f, cls):
        """The overrider of f in a class"""
        over = [self.prog.functions.get(k) for k in self.prog.overriders(f.key)]
        for c in self.prog.bases(cls):
            if f.cls == c:
                return f
            for g in over:
                if g is not None and g.cls == c:
                    return g if g.body is not None else None
        return None


class Never(Exception):
    """Evaluation does not return: it throws"""
