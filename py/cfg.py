"""Lowering of the dumped syntax trees to control-flow graphs.

A Graph is the flow graph of one root function into which callees (helpers,
lambdas, getters, ...) selected by a policy have been spliced, so that analyses
on the graph do not depend on how the source is divided into functions.

Nodes:
  entry, exit, excexit, nop
  assign   lhs, rhs                    (decl=True for the initialisation of a variable)
  call     dst, e (callee info), obj, args
  new      dst, type, args        delete   x
  br       cond                        successors labelled True / False
  nondet                               a loop or choice whose condition is not modelled
  switch   x                           successors labelled ('case', v) / ('default',)
  ret      x                           return from the root function
  throw    x, cls
  scope_end var                        a local of class type goes out of scope
  deref    x, type                     smart pointer / optional / pointer dereferenced
  index    base, i                     operator[] / at() / array subscript

Terms (nested tuples):
  ('const', v) ('str', s) ('enum', qname, v) ('null',) ('float', v)
  ('var', uid) ('gvar', qname) ('this',)
  ('mem', obj, field) ('deref', p) ('addr', x) ('idx', base, i) ('at', map, key)
  ('un', op, x) ('bin', op, x, y) ('not', x) ('nonnull', p) ('cast', type, x) ('dyn', type, x)
  ('size', c) ('iter', c) ('enditer', c) ('elem', c) ('tuple', ...)
  ('list', cls, items...) ('obj', cls, args...) ('lambda', key, frame) ('fn', key) ('opaque', n)
"""

import re

CONT = re.compile(r'^(const )?(std::(vector|list|deque|array|basic_string|set|map|multimap|multiset|unordered_map|initializer_list|queue)<|Glib::ustring|boost::filesystem::directory)')
SMART = re.compile(r'^(const )?(std::(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|__shared_ptr_access)|boost::(optional|shared_ptr|scoped_ptr|intrusive_ptr|optional_ns::)|boost::optional)')
SMARTQ = re.compile(r'^(std::(__)?(shared_ptr|unique_ptr|shared_ptr_access)|boost::(optional|shared_ptr|scoped_ptr))(::|<)')
IDENT_CTOR = {
    'std::basic_string', 'boost::filesystem::path', 'boost::optional', 'std::shared_ptr', 'Glib::ustring', 'std::function',
    'std::unique_ptr', 'boost::shared_ptr', 'std::weak_ptr', 'boost::function', 'std::__cxx11::basic_string', 'std::allocator',
    '__gnu_cxx::__normal_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator', 'boost::function0', 'boost::function1', 'boost::function2',
}
ALGO_ANY = {'std::any_of': 'any', 'std::all_of': 'all', 'std::none_of': 'none', 'std::find_if': 'find', 'std::find_if_not': 'findnot'}
ALGO_LOOP = {'std::for_each', 'std::count_if', 'std::transform', 'std::accumulate', 'std::sort', 'std::stable_sort', 'std::remove_if',
             'std::copy_if', 'std::generate', 'std::generate_n', 'std::partition', 'std::replace_if', 'std::unique', 'std::max_element', 'std::min_element',
             'std::adjacent_find', 'std::equal', 'std::is_sorted', 'std::mismatch', 'std::lower_bound', 'std::upper_bound'}
NEGOP = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
REL = set(NEGOP)
RAII = re.compile(r'lock|Guard|guard|dcp::|unique_ptr|^std::.*stream|scoped')


def deref(p):
    if p[0] == 'addr':
        return p[1]
    if p[0] == 'iter':
        return ('elem', p[1])
    return ('deref', p)


def addr(x):
    if x[0] == 'deref':
        return x[1]
    return ('addr', x)


def neg(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'const':
        return ('const', 0 if t[1] else 1)
    if t[0] == 'bin' and t[1] in ('==', '!='):
        return ('bin', NEGOP[t[1]], t[2], t[3])
    return ('not', t)


def subterms(t):
    yield t
    for i in t[1:]:
        if isinstance(i, tuple) and i and isinstance(i[0], str):
            yield from subterms(i)


def replace(t, f):
    """Bottom-up rewrite"""
    out = [t[0]]
    for i in t[1:]:
        if isinstance(i, tuple) and i and isinstance(i[0], str):
            out.append(replace(i, f))
        else:
            out.append(i)
    return f(tuple(out))


def root(t):
    """The variable (or other leaf) at the bottom of an access path"""
    while True:
        if t[0] in ('mem', 'deref', 'addr', 'idx', 'elem', 'at', 'iter', 'enditer', 'cast', 'dyn', 'size', 'nonnull', 'not'):
            t = t[2] if t[0] in ('cast', 'dyn') else t[1]
        else:
            return t


def show(t, vars=None):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    s = lambda x: show(x, vars)
    if k == 'const' or k == 'float':
        return str(t[1])
    if k == 'str':
        return '"%s"' % t[1]
    if k == 'enum':
        return t[1].split('::', 1)[-1]
    if k == 'null':
        return 'nullptr'
    if k == 'var':
        return t[1].rsplit('.', 1)[0]
    if k == 'gvar':
        return t[1]
    if k == 'this':
        return 'this'
    if k == 'mem':
        if t[1][0] == 'deref':
            b = s(t[1][1])
            return t[2] if b == 'this' else b + '->' + t[2]
        return s(t[1]) + '.' + t[2]
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'addr':
        return '&' + s(t[1])
    if k == 'idx' or k == 'at':
        return s(t[1]) + '[' + s(t[2]) + ']'
    if k == 'elem':
        return s(t[1]) + '[*]'
    if k == 'un':
        return t[1] + s(t[2])
    if k == 'bin':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'not':
        return '!' + s(t[1])
    if k == 'nonnull':
        return 'set(%s)' % s(t[1])
    if k in ('cast', 'dyn'):
        return '%s<%s>(%s)' % (k, t[1], s(t[2]))
    if k == 'call':
        return '%s%s(%s)' % ('' if t[2] is None else s(t[2]) + '.', t[1].split('::')[-1], ', '.join(s(i) for i in t[3]))
    if k == 'callf':
        return '%s%s(%s)' % ('' if t[2] == ('none',) else s(t[2]) + '.', t[1].split('::')[-1], ', '.join(s(i) for i in t[3:]))
    if k == 'phi':
        return 'phi{%s}' % ' | '.join(sorted(s(i) for i in t[1]))
    return '%s(%s)' % (k, ', '.join(s(i) for i in t[1:]))


class Node:
    __slots__ = ('id', 'k', 'd', 'line', 'file', 'fn', 'succ', 'exc', 'pred', 'depth', 'loop')

    def __init__(self, id, k, d, line, file, fn, depth):
        self.id = id
        self.k = k
        self.d = d
        self.line = line
        self.file = file
        self.fn = fn
        self.succ = []      # (node, label)
        self.exc = None
        self.pred = []      # (node, label)
        self.depth = depth
        self.loop = False

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def where(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<%d %s %s %r>' % (self.id, self.k, self.where(), {k: (show(v) if isinstance(v, tuple) else v) for k, v in self.d.items() if k not in ('e',)})


class Frame:
    def __init__(self, fn, this, parent=None):
        self.fn = fn
        self.this = this
        self.parent = parent      # for lambdas: frame in which the closure was made
        self.ids = {}             # id -> term
        self.returns = []
        self.ret = None
        self.ctx_base = 0
        self.lambdas = {}
        self.inline = False


def default_policy(callee, caller, depth):
    return True


class Graph:
    def __init__(self, prog, fn, policy=None, max_depth=8, max_nodes=20000):
        self.prog = prog
        self.root = fn
        self.policy = policy or (lambda callee, caller, depth: False)
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.nodes = []
        self.vars = {}
        self.counter = 0
        self.front = []
        self.ctx = []
        self.landing = {}
        self.frames = []
        self.loops = []
        self.stack = []
        self.closures = {}        # var uid -> lambda term
        self.lambda_frames = {}   # frame number -> Frame
        self.truncated = False
        self.line = fn.line
        self.inlined = set()
        self.exit = self._node('exit', {}, link=False)
        self.excexit = self._node('excexit', {}, link=False)
        self._build()

    # ------------------------------------------------------------- plumbing

    def _node(self, k, d, link=True, line=None):
        f = self.frames[-1].fn if self.frames else self.root
        n = Node(len(self.nodes), k, d, line or self.line, f.file, f, len(self.stack))
        self.nodes.append(n)
        if link:
            for p, label in self.front:
                p.succ.append((n, label))
            self.front = [(n, None)]
        return n

    def emit(self, k, line=None, may_throw=False, **d):
        if not self.front and k not in ('nop',):
            # unreachable code: still build it, detached
            pass
        n = self._node(k, d, line=line)
        if may_throw:
            n.exc = self.exc_target(len(self.ctx))
        return n

    def fresh(self, name, type_, **info):
        self.counter += 1
        uid = '%s.%d' % (name, self.counter)
        d = dict(name=name, type=type_, line=self.line, fn=self.frames[-1].fn if self.frames else self.root)
        d.update(info)
        self.vars[uid] = d
        return ('var', uid)

    def exc_target(self, depth):
        """First node of the unwinding path with self.ctx[:depth] active"""
        if depth == 0:
            return self.excexit
        entry = self.ctx[depth - 1]
        if entry[0] == 'try':
            return entry[1]
        key = entry[1]
        if key not in self.landing:
            n = Node(len(self.nodes), 'scope_end', {'var': entry[2], 'exceptional': True}, self.line, self.frames[-1].fn.file, self.frames[-1].fn, len(self.stack))
            self.nodes.append(n)
            self.landing[key] = n
            n.succ.append((self.exc_target(depth - 1), None))
        return self.landing[key]

    def push_scope(self, var):
        self.counter += 1
        self.ctx.append(('scope', self.counter, var))

    def pop_scopes(self, depth, emit=True):
        """Leave scopes down to depth, for fall-through at the end of a block"""
        while len(self.ctx) > depth:
            e = self.ctx.pop()
            if e[0] == 'scope' and emit and self.front:
                self.emit('scope_end', var=e[2], exceptional=False)

    def unwind(self, depth):
        """Emit scope ends for a jump out to depth without popping"""
        for e in reversed(self.ctx[depth:]):
            if e[0] == 'scope':
                self.emit('scope_end', var=e[2], exceptional=False)

    # ------------------------------------------------------------- build

    def _build(self):
        f = self.root
        fr = Frame(f, ('this',))
        self.frames.append(fr)
        self.entry = self._node('entry', {}, link=True)
        for i, p in enumerate(f.params):
            v = self.fresh(p['n'] or 'arg%d' % i, f.type(p['t']), param=i)
            fr.ids[p['id']] = v
        self.params = [fr.ids[p['id']] for p in f.params]
        self.stack.append(f.key)
        self.inits(f)
        self.stmt(f.body)
        self.pop_scopes(0)
        for p, label in self.front:
            p.succ.append((self.exit, label))
        for n in self.nodes:
            for s, label in n.succ:
                s.pred.append((n, label))
            if n.exc is not None:
                n.exc.pred.append((n, 'exc'))
        # forget unreachable nodes
        seen = set()
        todo = [self.entry]
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            todo += [s for s, _ in n.succ]
            if n.exc is not None:
                todo.append(n.exc)
        self.reach = [n for n in self.nodes if n.id in seen]
        for n in self.reach:
            n.pred = [(p, l) for p, l in n.pred if p.id in seen]

    def inits(self, f):
        for i in f.inits:
            self.line = i['l'] or self.line
            fr = self.frames[-1]
            if 'f' in i:
                lhs = ('mem', deref(fr.this), i['f'])
                x = self.ex(i['x'])
                self.emit('assign', lhs=lhs, rhs=x, decl=True, init=True)
            elif 'base' in i or 'deleg' in i:
                x = i['x']
                self.ctor_call(x, on=deref(fr.this))

    # ------------------------------------------------------------- statements

    def stmt(self, s):
        if s is None:
            return
        k = s['s']
        if len(self.nodes) > self.max_nodes:
            self.truncated = True
            return
        self.line = s.get('l') or self.line
        getattr(self, 's_' + k, self.s_other)(s)

    def s_other(self, s):
        self.emit('nop')

    def s_null(self, s):
        pass

    def s_wrap(self, s):
        self.stmt(s.get('x'))

    def s_block(self, s):
        depth = len(self.ctx)
        for i in s['b']:
            self.stmt(i)
        self.line = s.get('el') or self.line
        self.pop_scopes(depth)

    def s_decls(self, s):
        for i in s['b']:
            self.stmt(i)

    def s_expr(self, s):
        self.ex(s['x'], discard=True)

    def s_decl(self, s):
        fr = self.frames[-1]
        ty = fr.fn.type(s['t'])
        if s.get('static'):
            v = ('gvar', '%s::%s' % (fr.fn.q, s['n']))
            fr.ids[s['id']] = v
            if 'x' in s:
                x = self.ex(s['x'])
                self.emit('assign', lhs=v, rhs=x, decl=True, static=True)
            return
        x = s.get('x')
        if s.get('ref') and x is not None:
            val = self.ex(x)
            if val[0] in ('var', 'mem', 'deref', 'idx', 'elem', 'at', 'gvar') and not (val[0] == 'var' and self.vars.get(val[1], {}).get('temp')):
                fr.ids[s['id']] = val
                return
            v = self.fresh(s['n'], ty)
            fr.ids[s['id']] = v
            self.emit('assign', lhs=v, rhs=val, decl=True, ref=True)
            return
        v = self.fresh(s['n'], ty, alen=s.get('alen'))
        fr.ids[s['id']] = v
        if x is not None:
            if x['e'] == 'lambda':
                val = self.ex(x)
                self.closures[v[1]] = val
                self.emit('assign', lhs=v, rhs=val, decl=True)
            elif x['e'] == 'ctor' and not self.is_ident(x):
                self.ctor_call(x, on=v, decl=True)
            else:
                val = self.ex(x)
                if val[0] == 'lambda':
                    self.closures[v[1]] = val
                self.emit('assign', lhs=v, rhs=val, decl=True)
        else:
            self.emit('assign', lhs=v, rhs=('opaque', 'uninit'), decl=True)
        if RAII.search(ty) and not ty.endswith('*') and not ty.endswith('&') and not ty.startswith('std::shared_ptr') and not ty.startswith('std::vector') \
                and not ty.startswith('boost::optional') and not ty.startswith('std::list') and not ty.startswith('std::map'):
            self.push_scope(v)

    def s_return(self, s):
        fr = self.frames[-1]
        x = s.get('x')
        val = self.ex(x) if x is not None else None
        self.line = s.get('l') or self.line
        if fr.inline:
            if val is not None and fr.ret is not None:
                self.emit('assign', lhs=fr.ret, rhs=val, retval=True)
                if val[0] == 'lambda':
                    self.closures[fr.ret[1]] = val
            self.unwind(fr.ctx_base)
            fr.returns += self.front
        else:
            self.unwind(fr.ctx_base)
            n = self.emit('ret', x=val)
            n.succ.append((self.exit, None))
        self.front = []

    def s_if(self, s):
        depth = len(self.ctx)
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('var'):
            self.s_decl(s['var'])
        t, f = self.cond(s['c'])
        self.front = t
        d2 = len(self.ctx)
        self.stmt(s.get('x'))
        self.pop_scopes(d2)
        after = self.front
        self.front = f
        if s.get('y'):
            self.stmt(s['y'])
            self.pop_scopes(d2)
        self.front = self.front + after
        self.pop_scopes(depth)

    def loop(self, s, head_cond, inc, post=False, var=None):
        depth = len(self.ctx)
        brk, cont = [], []
        self.loops.append((brk, cont, depth))
        if post:
            start = self.emit('nop', loop='do')
            self.stmt(s.get('x'))
            self.pop_scopes(depth)
            self.front = self.front + cont
            self.emit('nop', loop='cond')
            t, f = head_cond()
            for p, l in t:
                p.succ.append((start, l))
            self.front = f + brk
        else:
            start = self.emit('nop', loop='head')
            if var is not None:
                self.s_decl(var)
            t, f = head_cond()
            self.front = t
            self.stmt(s.get('x'))
            self.pop_scopes(depth)
            self.front = self.front + cont
            if inc is not None and self.front:
                self.ex(inc, discard=True)
            if self.front:
                for p, l in self.front:
                    p.succ.append((start, l))
            self.front = f + brk
        self.loops.pop()

    def s_for(self, s):
        depth = len(self.ctx)
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(s, (lambda: self.cond(s['c'])) if s.get('c') else (lambda: (self.front, [])), s.get('inc'))
        self.pop_scopes(depth)

    def s_while(self, s):
        self.loop(s, lambda: self.cond(s['c']), None, var=s.get('var'))

    def s_do(self, s):
        self.loop(s, lambda: self.cond(s['c']), None, post=True)

    def s_rfor(self, s):
        rng = self.ex(s['r'])
        v = s['var']
        fr = self.frames[-1]

        def head():
            n = self.emit('nondet', range=rng)
            return [(n, True)], [(n, False)]

        depth = len(self.ctx)
        brk, cont = [], []
        self.loops.append((brk, cont, depth))
        start = self.emit('nop', loop='head')
        t, f = head()
        self.front = t
        elem = self.elem_of(rng)
        if v.get('ref'):
            fr.ids[v['id']] = elem
            self.emit('nop', bind=elem)
        else:
            var = self.fresh(v['n'], fr.fn.type(v['t']))
            fr.ids[v['id']] = var
            self.emit('assign', lhs=var, rhs=elem, decl=True)
        self.stmt(s.get('x'))
        self.pop_scopes(depth)
        self.front = self.front + cont
        for p, l in self.front:
            p.succ.append((start, l))
        self.front = f + brk
        self.loops.pop()

    def elem_of(self, rng):
        return ('elem', rng)

    def s_break(self, s):
        # innermost loop or switch
        brk, _, depth = self.loops[-1]
        self.unwind(depth)
        brk += self.front
        self.front = []

    def s_continue(self, s):
        for brk, cont, depth in reversed(self.loops):
            if cont is not None:
                self.unwind(depth)
                cont += self.front
                break
        self.front = []

    def s_switch(self, s):
        x = self.ex(s['c'])
        n = self.emit('switch', x=x, labels={})
        brk = []
        self.loops.append((brk, None, len(self.ctx)))
        old = getattr(self, 'switch', None)
        self.switch = (n, [False])
        self.front = []
        depth = len(self.ctx)
        self.stmt(s.get('x'))
        self.pop_scopes(depth)
        if not self.switch[1][0]:
            self.front = self.front + [(n, ('default',))]
        self.switch = old
        self.loops.pop()
        self.front = self.front + brk

    def label(self, e, cv):
        while isinstance(e, dict) and e.get('e') in ('cast', 'paren', 'const') and isinstance(e.get('x'), dict):
            e = e['x']
        if isinstance(e, dict) and e.get('e') == 'enum':
            return ('enum', e['q'], cv)
        return ('const', cv)

    def s_case(self, s):
        n, _ = self.switch
        if s.get('cv') is not None:
            n.labels[s['cv']] = self.label(s.get('v'), s['cv'])
        self.front = self.front + [(n, ('case', s.get('cv')))]
        self.emit('nop', case=s.get('cv'))
        self.stmt(s.get('x'))

    def s_default(self, s):
        n, d = self.switch
        d[0] = True
        self.front = self.front + [(n, ('default',))]
        self.emit('nop')
        self.stmt(s.get('x'))

    def s_try(self, s):
        dispatch = self._node('nop', {'dispatch': True}, link=False)
        self.ctx.append(('try', dispatch))
        depth = len(self.ctx)
        self.stmt(s['x'])
        self.pop_scopes(depth)
        self.ctx.pop()
        after = self.front
        catch_all = False
        for h in s['h']:
            self.front = [(dispatch, ('catch', h.get('cls')))]
            self.line = h['l']
            if 'id' in h:
                v = self.fresh('exc', '')
                self.frames[-1].ids[h['id']] = v
                self.emit('assign', lhs=v, rhs=('opaque', 'exception'), decl=True, catch=h.get('cls'))
            else:
                self.emit('nop', catch='...')
                catch_all = True
            if h.get('cls') == 'std::exception':
                catch_all = True
            d = len(self.ctx)
            self.stmt(h.get('x'))
            self.pop_scopes(d)
            after = after + self.front
        if not catch_all:
            dispatch.succ.append((self.exc_target(len(self.ctx)), ('uncaught',)))
        self.front = after

    # ------------------------------------------------------------- conditions

    def cond(self, e):
        """Lower a condition; returns the edges (true, false)"""
        k = e['e']
        if k == 'bin' and e['op'] == '&&':
            t1, f1 = self.cond(e['x'])
            self.front = t1
            t2, f2 = self.cond(e['y'])
            return t2, f1 + f2
        if k == 'bin' and e['op'] == '||':
            t1, f1 = self.cond(e['x'])
            self.front = f1
            t2, f2 = self.cond(e['y'])
            return t1 + t2, f2
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['x'])
            return f, t
        if k == 'icast' and e['kind'] in ('IntegralToBoolean',) and e['x']['e'] in ('bin', 'un') and e['x'].get('op') in ('&&', '||', '!'):
            return self.cond(e['x'])
        self.line = e.get('l') or self.line
        x = self.ex(e)
        if x[0] == 'const':
            return (self.front, []) if x[1] else ([], self.front)
        pol = True
        while x[0] == 'not':
            x = x[1]
            pol = not pol
        n = self.emit('br', line=e.get('l'), cond=x)
        return [(n, pol)], [(n, not pol)]

    # ------------------------------------------------------------- expressions

    def ty(self, e):
        return self.frames[-1].fn.type(e.get('t'))

    def lookup(self, e):
        fr = self.frames[-1]
        while fr is not None:
            if e['id'] in fr.ids:
                return fr.ids[e['id']]
            fr = fr.parent
        if e.get('k') in ('global', 'smem'):
            return ('gvar', e['q'])
        v = self.fresh(e['n'], self.ty(e))
        self.frames[-1].ids[e['id']] = v
        return v

    def ex(self, e, discard=False):
        if e is None:
            return ('opaque', 'none')
        k = e['e']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            for a in e.get('a', []):
                self.ex(a)
            return ('opaque', k)
        if k == 'call':
            return self.e_call(e, discard)
        return m(e)

    def e_var(self, e):
        if 'cv' in e and e.get('k') != 'param':
            return ('const', e['cv'])
        if 'cf' in e and e.get('k') != 'param':
            return ('float', e['cf'])
        return self.lookup(e)

    def e_enum(self, e):
        return ('enum', e['q'], e['cv'])

    def e_fn(self, e):
        return ('fn', e['fn'])

    def e_mfn(self, e):
        return ('fn', e['fn'])

    def e_mem(self, e):
        b = self.ex(e['b'])
        bt = self.ty(e['b'])
        if bt.endswith('*') or bt.endswith('*const') or bt.endswith('* const'):
            b = deref(b)
        if e.get('anon'):
            return b
        return ('mem', b, e['f'])

    def e_this(self, e):
        fr = self.frames[-1]
        return fr.this

    def e_int(self, e):
        return ('const', e['cv'])

    def e_bool(self, e):
        return ('const', e['cv'])

    def e_float(self, e):
        return ('float', e['cf'])

    def e_str(self, e):
        return ('str', e.get('s', ''))

    def e_null(self, e):
        return ('null',)

    def e_zero(self, e):
        return ('const', 0)

    def e_sizeof(self, e):
        if 'cv' in e:
            return ('const', e['cv'])
        return ('opaque', 'sizeof')

    def e_defarg(self, e):
        if 'cv' in e:
            return ('const', e['cv'])
        return self.ex(e['x'])

    def e_definit(self, e):
        return self.ex(e['x'])

    def e_typeid(self, e):
        return ('opaque', 'typeid')

    def e_stmtexpr(self, e):
        self.stmt(e['x'])
        return ('opaque', 'stmtexpr')

    def e_list(self, e):
        return ('list', e.get('cls') or '') + tuple(self.ex(i) for i in e['a'])

    def e_lambda(self, e):
        fr = self.frames[-1]
        self.counter += 1
        self.lambda_frames[self.counter] = fr
        return ('lambda', e['fn'], self.counter)

    def e_throw(self, e):
        cls = None
        if e.get('x') is not None:
            x = self.ex(e['x'])
            cls = self.ty(e['x'])
        else:
            x = None
        self.emit('throw', x=x, cls=cls, may_throw=True)
        self.front = []
        return ('opaque', 'throw')

    def e_new(self, e):
        x = e.get('x')
        args = ()
        cls = None
        if x is not None:
            if x['e'] == 'ctor':
                args = tuple(self.ex(a) for a in x['a'])
                cls = x.get('cls')
            else:
                args = (self.ex(x),)
        size = self.ex(e['n']) if e.get('n') is not None else None
        dst = self.fresh('new', self.ty(e), temp=True)
        self.emit('new', dst=dst, type=self.frames[-1].fn.type(e['nt_']), args=args, size=size, arr=bool(e.get('arr')), cls=cls, ctor=x, may_throw=True)
        return dst

    def e_delete(self, e):
        x = self.ex(e['x'])
        self.emit('delete', x=x, arr=bool(e.get('arr')))
        return ('opaque', 'void')

    def e_idx(self, e):
        b = self.ex(e['b'])
        i = self.ex(e['i'])
        self.emit('index', base=b, i=i, bt=self.ty(e['b']), raw=True)
        return ('idx', b, i)

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            x = self.ex(e['y'])
            lhs = self.ex(e['x'])
            if x[0] == 'lambda' and lhs[0] == 'var':
                self.closures[lhs[1]] = x
            self.line = e.get('l') or self.line
            self.emit('assign', lhs=lhs, rhs=x)
            return lhs
        y = self.ex(e['y'])
        lhs = self.ex(e['x'])
        self.emit('assign', lhs=lhs, rhs=('bin', op[:-1], lhs, y), compound=op)
        return lhs

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            x = self.ex(e['x'])
            old = x
            if op.startswith('post'):
                old = self.fresh('old', self.ty(e), temp=True)
                self.emit('assign', lhs=old, rhs=x, decl=True)
            self.emit('assign', lhs=x, rhs=('bin', op[-1], x, ('const', 1)), compound=op)
            return old if op.startswith('post') else x
        if op == '!':
            if e['x']['e'] == 'bin' and e['x']['op'] in ('&&', '||'):
                return neg(self.logical(e['x']))
            return neg(self.ex(e['x']))
        if 'cv' in e:
            return ('const', e['cv'])
        if 'cf' in e:
            return ('float', e['cf'])
        x = self.ex(e['x'])
        if op == '&':
            return addr(x)
        if op == '*':
            self.emit('deref', x=x, type=self.ty(e['x']))
            return deref(x)
        if op == '+':
            return x
        return ('un', op, x)

    def logical(self, e):
        t, f = self.cond(e)
        v = self.fresh('cond', 'bool', temp=True)
        self.front = t
        self.emit('assign', lhs=v, rhs=('const', 1), logical=True)
        a = self.front if t else []
        self.front = f
        if f:
            self.emit('assign', lhs=v, rhs=('const', 0), logical=True)
            self.front = self.front + a
        else:
            self.front = a
        return v

    def e_bin(self, e):
        op = e['op']
        if 'cv' in e:
            return ('const', e['cv'])
        if 'cf' in e:
            return ('float', e['cf'])
        if op in ('&&', '||'):
            return self.logical(e)
        if op == ',':
            self.ex(e['x'], discard=True)
            return self.ex(e['y'])
        x = self.ex(e['x'])
        y = self.ex(e['y'])
        return self.binary(op, x, y)

    def binary(self, op, x, y):
        if op in ('==', '!='):
            for a, b in ((x, y), (y, x)):
                if b == ('null',):
                    t = ('nonnull', a)
                    return neg(t) if op == '==' else t
        if op in ('+', '-') and x[0] == 'iter' and y[0] not in ('iter', 'enditer'):
            return ('bin', op, x, y)
        return ('bin', op, x, y)

    def e_cond(self, e):
        t, f = self.cond(e['c'])
        v = self.fresh('sel', self.ty(e), temp=True)
        self.front = t
        out = []
        if t:
            x = self.ex(e['x'])
            if self.front:
                self.emit('assign', lhs=v, rhs=x, select=True)
            out += self.front
        self.front = f
        if f:
            y = self.ex(e['y'])
            if self.front:
                self.emit('assign', lhs=v, rhs=y, select=True)
            out += self.front
        self.front = out
        return v

    NUM = {'IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'}

    def e_icast(self, e):
        return self.e_cast(e)

    def e_cast(self, e):
        if 'cv' in e:
            return ('const', e['cv'])
        if 'cf' in e:
            return ('float', e['cf'])
        kind = e['kind']
        if kind in self.NUM:
            x = self.ex(e['x'])
            return ('cast', self.ty(e), x)
        if kind in ('PointerToBoolean',):
            return ('nonnull', self.ex(e['x']))
        if kind in ('IntegralToBoolean', 'FloatingToBoolean'):
            x = self.ex(e['x'])
            t = self.ty(e['x'])
            if t == 'bool':
                return x
            return ('bin', '!=', x, ('const', 0))
        x = self.ex(e['x'])
        if e.get('ck') == 'dynamic':
            return ('dyn', self.ty(e), x)
        return x

    # ------------------------------------------------------------- calls

    def is_ident(self, e):
        if e.get('copy'):
            return True
        cls = e.get('cls')
        args = [a for a in e['a'] if a and a['e'] != 'defarg']
        if len(args) == 1 and cls in IDENT_CTOR:
            return True
        return False

    def e_ctor(self, e):
        args = [a for a in e['a'] if a and a['e'] != 'defarg']
        if self.is_ident(e):
            at = self.ty(args[0])
            if e.get('cls') == 'std::basic_string' and not ('char' in at or 'string' in at):
                pass
            else:
                x = self.ex(args[0])
                return x
        cls = e.get('cls')
        if not args and cls in ('boost::optional', 'std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'std::weak_ptr', 'std::function', 'boost::function'):
            return ('null',)
        if not args and cls == 'std::basic_string':
            return ('str', '')
        return self.ctor_call(e)

    def ctor_call(self, e, on=None, decl=False):
        """Construct an object; on: the object term it is constructed in (else a temporary)"""
        if e.get('e') != 'ctor':
            x = self.ex(e)
            if on is not None and on[0] == 'var':
                self.emit('assign', lhs=on, rhs=x, decl=True)
            return x
        cls = e.get('cls')
        if not [a for a in e['a'] if a and a['e'] != 'defarg']:
            empty = None
            if cls in ('boost::optional', 'std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr', 'std::weak_ptr', 'std::function', 'boost::function'):
                empty = ('null',)
            elif cls == 'std::basic_string':
                empty = ('str', '')
            if empty is not None:
                if on is None:
                    return empty
                if on[0] in ('var', 'mem'):
                    self.emit('assign', lhs=on, rhs=empty, decl=True)
                return on
        args = [self.ex(a) for a in e['a']]
        dst = on if on is not None else self.fresh('tmp', self.ty(e), temp=True)
        fn = self.prog.functions.get(e.get('fn'))
        self.line = e.get('l') or self.line
        if fn is not None and fn.body is not None and self.should_inline(fn, e):
            self.inline(fn, addr(dst), args, e)
            return dst
        self.emit('call', dst=dst, e=e, q=(e.get('q') or ''), obj=None, args=args, ctor=cls, decl=decl, may_throw=not e.get('nt'))
        return dst

    def should_inline(self, fn, e):
        if len(self.stack) >= self.max_depth or fn.key in self.stack or len(self.nodes) > self.max_nodes:
            return False
        return self.policy(fn, self.frames[-1].fn, len(self.stack))

    def inline(self, fn, this, args, e, parent=None):
        fr = Frame(fn, this, parent)
        fr.inline = True
        self.inlined.add(fn.key)
        line = self.line
        fr.ctx_base = len(self.ctx)
        if fn.ret not in ('void', '') and fn.kind not in ('ctor', 'dtor'):
            fr.ret = self.fresh('ret_' + fn.name, fn.ret, temp=True)
        # bind parameters
        binds = []
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else ('opaque', 'missing')
            binds.append((p, a))
        loops, switch = self.loops, getattr(self, 'switch', None)
        self.loops = []
        self.frames.append(fr)
        self.stack.append(fn.key)
        for p, a in binds:
            if p.get('ref') or a[0] == 'lambda':
                fr.ids[p['id']] = a
                continue
            v = self.fresh(p['n'] or 'arg', fn.type(p['t']))
            if a[0] == 'var' and a[1] in self.closures:
                self.closures[v[1]] = self.closures[a[1]]
            fr.ids[p['id']] = v
            self.emit('assign', lhs=v, rhs=a, decl=True, bind=True)
        self.inits(fn)
        self.stmt(fn.body)
        self.pop_scopes(fr.ctx_base)
        self.stack.pop()
        self.frames.pop()
        self.loops = loops
        self.switch = switch
        self.front = self.front + fr.returns
        self.line = line
        if not self.front:
            # never returns normally
            return ('opaque', 'noreturn')
        if len(self.front) > 1 or True:
            self.emit('nop', inlined=fn.key)
        return fr.ret if fr.ret is not None else ('opaque', 'void')

    def closure(self, t):
        if t[0] == 'lambda':
            return t
        if t[0] == 'var' and t[1] in self.closures:
            return self.closures[t[1]]
        return None

    def call_closure(self, lam, args, e):
        fn = self.prog.functions.get(lam[1])
        if fn is None or fn.body is None or fn.key in self.stack or len(self.stack) >= self.max_depth + 4 or len(self.nodes) > self.max_nodes:
            self.emit('call', dst=self.fresh('ret', '', temp=True), e=e, q='lambda', obj=None, args=args, may_throw=True)
            return ('opaque', 'lambda')
        parent = self.lambda_frames[lam[2]]
        return self.inline(fn, parent.this, args, e, parent=parent)

    def e_call(self, e, discard=False):
        q = e.get('q') or ''
        m = e.get('m') or ''
        op = e.get('op')
        line = e.get('l') or self.line

        if q == 'boost::throw_exception':
            x = self.ex(e['a'][0])
            self.line = line
            self.emit('throw', x=x, cls=self.ty(e['a'][0]), may_throw=True)
            self.front = []
            return ('opaque', 'throw')

        if q in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::static_pointer_cast', 'std::const_pointer_cast'):
            x = self.ex(e['a'][0])
            if q == 'std::move' and len(e['a']) == 1:
                self.emit('move', x=x)
            return addr(x) if q == 'std::addressof' else x
        if q == 'std::dynamic_pointer_cast':
            return ('dyn', self.ty(e), self.ex(e['a'][0]))

        obj = None
        if e.get('o') is not None:
            obj = self.ex(e['o'])
            ot = self.ty(e['o'])
            pointer = ot.endswith('*') or ot.endswith('*const') or ot.endswith('* const')

            # smart pointers and optionals
            if SMART.match(ot.replace('const ', '', 1) if ot.startswith('const ') else ot):
                if op == '->':
                    self.line = line
                    self.emit('deref', x=obj, type=ot)
                    return obj
                if op == '*' or (m == 'get' and 'optional' in ot) or (m == 'value' and 'optional' in ot):
                    self.line = line
                    self.emit('deref', x=obj, type=ot)
                    return deref(obj)
                if m == 'get':
                    return obj
                if m.startswith('operator bool') or m.startswith('operator unspecified') or m in ('is_initialized', 'has_value'):
                    return ('nonnull', obj)
                if op == '!':
                    return ('not', ('nonnull', obj))
                if op == '=' and e['a']:
                    x = self.ex(e['a'][0])
                    if x[0] == 'list' and len(x) == 2:
                        x = ('null',)
                    self.line = line
                    self.emit('assign', lhs=obj, rhs=x)
                    return obj
                if m == 'reset' and not e['a']:
                    self.line = line
                    self.emit('assign', lhs=obj, rhs=('null',))
                    return ('opaque', 'void')
                if e.get('conv') and m.startswith('operator'):
                    return ('nonnull', obj)
            if e.get('conv') and (m == 'operator bool' or m.startswith('operator unspec')) and not e.get('in'):
                return ('nonnull', obj)
            # iterators
            if 'iterator' in ot and not pointer:
                if op == '->':
                    return obj
                if op == '*':
                    return deref(obj)
                if op in ('++', '--'):
                    old = obj
                    post = bool(e['a'])
                    if post:
                        old = self.fresh('old', ot, temp=True)
                        self.emit('assign', lhs=old, rhs=obj, decl=True)
                    self.emit('assign', lhs=obj, rhs=('bin', op[-1], obj, ('const', 1)), compound=op)
                    return old
                if op in ('+', '-', '+=', '-='):
                    y = self.ex(e['a'][0])
                    if op.endswith('='):
                        self.emit('assign', lhs=obj, rhs=('bin', op[0], obj, y), compound=op)
                        return obj
                    return ('bin', op, obj, y)
                if op == '=' and e['a']:
                    x = self.ex(e['a'][0])
                    self.emit('assign', lhs=obj, rhs=x)
                    return obj
            # containers
            if CONT.match(ot) or ot.startswith('boost::array'):
                if m in ('begin', 'cbegin', 'rbegin', 'crbegin'):
                    return ('iter', obj)
                if m in ('end', 'cend', 'rend', 'crend'):
                    return ('enditer', obj)
                if m in ('size', 'length'):
                    return ('size', obj)
                if m == 'empty':
                    return ('bin', '==', ('size', obj), ('const', 0))
                if op == '[]' or m == 'at':
                    i = self.ex(e['a'][0])
                    self.line = line
                    if 'map<' in ot:
                        if m == 'at':
                            pass
                        self.emit('index', base=obj, i=i, bt=ot, raw=False, map=True)
                        return ('at', obj, i)
                    self.emit('index', base=obj, i=i, bt=ot, raw=(op == '[]'), checked=(m == 'at'))
                    return ('idx', obj, i)
                if m in ('front', 'back'):
                    self.line = line
                    self.emit('index', base=obj, i=('const', m), bt=ot, raw=True)
                    return ('elem', obj)
                if op == '=' and e['a']:
                    x = self.ex(e['a'][0])
                    self.line = line
                    self.emit('assign', lhs=obj, rhs=x)
                    return obj
            if ot in ('boost::filesystem::path', 'const boost::filesystem::path') and op == '=' and e['a']:
                x = self.ex(e['a'][0])
                self.emit('assign', lhs=obj, rhs=x)
                return obj
            if pointer and op is None:
                obj = deref(obj)
                if obj[0] == 'deref' and obj[1] != ('this',) and obj[1] != self.frames[-1].this:
                    self.line = line
                    self.emit('deref', x=obj[1], type=ot)

        # relational operators
        if op in REL and not e.get('in'):
            xs = ([obj] if obj is not None else []) + [self.ex(a) for a in e['a']]
            if len(xs) == 2:
                self.line = line
                return self.binary(op, xs[0], xs[1])

        # closures
        callee = e.get('fn')
        if e.get('f') is not None:
            t = self.ex(e['f'])
            args = [self.ex(a) for a in e['a']]
            lam = self.closure(t)
            self.line = line
            if lam is not None:
                return self.call_closure(lam, args, e)
            dst = self.fresh('ret', self.ty(e), temp=True)
            self.emit('call', dst=dst, e=e, q='(indirect)', obj=None, args=args, fptr=t, may_throw=True, discard=discard)
            return dst
        if callee and callee.startswith('lambda@'):
            args = [self.ex(a) for a in e['a']]
            self.line = line
            lam = self.closure(obj) if obj is not None else None
            if lam is not None:
                return self.call_closure(lam, args, e)
            fn = self.prog.functions.get(callee)
            if fn is not None and fn.key not in self.stack and len(self.stack) < self.max_depth + 4 and len(self.nodes) <= self.max_nodes:
                fr = self.frames[-1]
                return self.inline(fn, fr.this, args, e, parent=fr)
        if m == 'operator()' and obj is not None:
            lam = self.closure(obj)
            if lam is not None:
                args = [self.ex(a) for a in e['a']]
                self.line = line
                return self.call_closure(lam, args, e)

        if q == 'std::tie' or q == 'std::make_tuple':
            return ('tuple',) + tuple(self.ex(a) for a in e['a'])

        args = [self.ex(a) for a in e['a']]
        self.line = line

        if q in ALGO_ANY or q in ALGO_LOOP:
            lams = [(i, self.closure(a)) for i, a in enumerate(args)]
            lams = [(i, l) for i, l in lams if l is not None]
            if lams:
                return self.algorithm(q, args, lams[0][0], lams[0][1], e)

        fn = self.prog.functions.get(callee)
        if fn is not None and fn.body is not None and not (e.get('v') and self.prog.overriders(fn.key)):
            if self.should_inline(fn, e):
                this = addr(obj) if obj is not None else (self.frames[-1].this if fn.cls else ('opaque', 'nothis'))
                return self.inline(fn, this, args, e)

        if op in REL and e.get('in'):
            xs = ([obj] if obj is not None else []) + args
            if len(xs) == 2:
                self.emit('call', dst=self.fresh('cmp', 'bool', temp=True), e=e, q=q, obj=obj, args=args, may_throw=True, discard=discard)
                return ('bin', op, xs[0], xs[1])
        if op == '=' and obj is not None and len(args) == 1 and (not e.get('in') or fn is None or fn.body is None):
            self.emit('assign', lhs=obj, rhs=args[0])
            return obj

        dst = self.fresh('ret', self.ty(e), temp=True)
        n = self.emit('call', dst=dst, e=e, q=q, obj=obj, args=args, may_throw=not e.get('nt') and not (e.get('c') and not e.get('in')), discard=discard)
        if e.get('nr'):
            self.front = []
        return dst

    def algorithm(self, q, args, li, lam, e):
        kind = ALGO_ANY.get(q, 'loop')
        conts = [a for a in args[:li] if a[0] == 'iter']
        elems = [('elem', c[1]) for c in conts] or [('opaque', 'elem')]
        fn = self.prog.functions.get(lam[1])
        npar = len(fn.params) if fn else 1
        largs = [elems[min(i, len(elems) - 1)] if q in ('std::equal', 'std::transform', 'std::mismatch') else elems[0] for i in range(npar)]
        if q == 'std::accumulate' and npar == 2:
            largs = [('opaque', 'acc'), elems[0]]
        res = self.fresh('algo', self.ty(e), temp=True)
        init = {'any': ('const', 0), 'all': ('const', 1), 'none': ('const', 1)}.get(kind)
        if kind in ('find', 'findnot') and conts:
            init = ('enditer', conts[0][1])
        self.emit('assign', lhs=res, rhs=init if init is not None else ('opaque', 'algo'), decl=True)
        start = self.emit('nop', loop='head')
        n = self.emit('nondet', range=conts[0][1] if conts else ('opaque', 'range'))
        out = [(n, False)]
        self.front = [(n, True)]
        r = self.call_closure(lam, largs, e)
        if kind in ('any', 'all', 'none', 'find', 'findnot') and self.front:
            pol = True
            while r[0] == 'not':
                r = r[1]
                pol = not pol
            b = self.emit('br', cond=r)
            hit = pol if kind in ('any', 'none', 'find') else not pol
            back = [(b, not hit)]
            self.front = [(b, hit)]
            val = {'any': ('const', 1), 'all': ('const', 0), 'none': ('const', 0)}.get(kind)
            if val is None:
                val = ('iter', conts[0][1]) if conts else ('opaque', 'it')
            self.emit('assign', lhs=res, rhs=val)
            out += self.front
            self.front = back
        for p, l in self.front:
            p.succ.append((start, l))
        self.front = out
        if q == 'std::transform' and conts:
            outs = [a for a in args[2:li] if a[0] == 'iter']
            if outs:
                self.emit('assign', lhs=outs[-1][1], rhs=('map', r, conts[0][1]))
        if kind == 'loop' and q not in ('std::for_each',):
            self.emit('assign', lhs=res, rhs=('call', q, None, tuple(args)), decl=True)
        return res


# ----------------------------------------------------------------- reaching definitions and values

def path_prefixes(t):
    """t and the access paths it extends"""
    while True:
        yield t
        if t[0] in ('mem', 'idx', 'elem', 'at', 'deref'):
            t = t[1]
        else:
            return


class Values:
    """Reaching definitions of variables and of access paths rooted in them, and the value
    terms that result from substituting single reaching definitions"""

    def __init__(self, g):
        self.g = g
        self.defs_at = {}
        keys = set()
        for n in g.reach:
            d = []
            if n.k == 'assign':
                d.append(n.lhs)
            elif n.k in ('call', 'new'):
                d.append(n.dst)
                if n.k == 'call':
                    mp = n.e.get('mp') or []
                    for i, a in enumerate(n.args):
                        if i < len(mp) and mp[i] == 1:
                            t = a[1] if a[0] == 'addr' else a
                            if t[0] in ('var', 'mem') and root(t)[0] == 'var' and not (a[0] != 'addr' and g.vars.get(root(t)[1], {}).get('type', '').endswith('*')):
                                d.append(t)
            if d:
                self.defs_at[n.id] = d
                keys.update(d)
        self.keys = keys
        self.by_root = {}
        for k in keys:
            self.by_root.setdefault(root(k), []).append(k)
        self._flow()
        self.memo = {}

    def _flow(self):
        g = self.g
        order = {n.id: i for i, n in enumerate(g.reach)}
        self.inn = {n.id: {} for n in g.reach}
        import heapq
        work = [order[g.entry.id]]
        inwork = {g.entry.id}
        visited = set()
        while work:
            n = g.reach[heapq.heappop(work)]
            inwork.discard(n.id)
            first = n.id not in visited
            visited.add(n.id)
            state = self.inn[n.id]
            out = self._transfer(n, state)
            succs = [s for s, _ in n.succ]
            if n.exc is not None:
                succs.append(n.exc)
            for s in succs:
                tgt = self.inn[s.id]
                changed = False
                src = out if s is not n.exc else state
                for k, v in src.items():
                    o = tgt.get(k)
                    if o is None:
                        tgt[k] = v
                        changed = True
                    elif not v <= o:
                        tgt[k] = o | v
                        changed = True
                if (changed or s.id not in visited) and s.id not in inwork:
                    heapq.heappush(work, order[s.id])
                    inwork.add(s.id)

    def _transfer(self, n, state):
        d = self.defs_at.get(n.id)
        if not d:
            return state
        out = dict(state)
        for t in d:
            # kill longer paths
            for k in self.by_root.get(root(t), []):
                if k != t and k in out and t in path_prefixes(k):
                    del out[k]
            out[t] = frozenset([n.id])
        return out

    def defs(self, t, n):
        return self.inn[n.id].get(t, frozenset())

    def value(self, t, n, depth=0, stop=None):
        """t with variables replaced by their (single) reaching definitions at node n"""
        key = (t, n.id)
        if key in self.memo:
            return self.memo[key]
        if depth > 40:
            return t
        self.memo[key] = t      # cycles: leave the variable
        r = self._value(t, n, depth)
        self.memo[key] = r
        return r

    def _def_value(self, t, did, depth):
        d = self.g.nodes[did]
        if d.k == 'assign' and d.lhs == t:
            if d.d.get('compound'):
                # x op= y: value involves the old x
                r = d.rhs
                return self.value(r, d, depth + 1)
            return self.value(d.rhs, d, depth + 1)
        if d.k == 'call' and d.dst == t:
            if d.d.get('ctor'):
                return ('obj', d.ctor) + tuple(self.value(a, d, depth + 1) for a in d.args)
            return ('call', d.q, None if d.obj is None else self.value(d.obj, d, depth + 1), tuple(self.value(a, d, depth + 1) for a in d.args))
        if d.k == 'new' and d.dst == t:
            return ('addr', ('obj', d.cls or d.type) + tuple(self.value(a, d, depth + 1) for a in d.args))
        if d.k == 'call':
            for i, a in enumerate(d.args):
                if a == t or a == ('addr', t):
                    return ('out', d.q, i, None if d.obj is None else self.value(d.obj, d, depth + 1), did)
        return t

    def _value(self, t, n, depth):
        if t[0] in ('var', 'mem', 'idx', 'at', 'elem', 'deref'):
            ds = self.defs(t, n)
            if len(ds) == 1:
                did = next(iter(ds))
                return self._def_value(t, did, depth)
            if len(ds) > 1:
                vals = set()
                for did in ds:
                    v = self._def_value(t, did, depth)
                    if v[0] == 'phi':
                        vals |= v[1]
                    else:
                        vals.add(v)
                if len(vals) == 1:
                    return next(iter(vals))
                return ('phi', frozenset(vals))
            if t[0] == 'var':
                return t
        if t[0] in ('const', 'str', 'enum', 'null', 'float', 'gvar', 'this', 'fn', 'lambda', 'opaque', 'phi', 'out'):
            return t
        out = [t[0]]
        for i in t[1:]:
            if isinstance(i, tuple) and i and isinstance(i[0], str):
                out.append(self.value(i, n, depth + 1))
            elif isinstance(i, tuple):
                out.append(tuple(self.value(j, n, depth + 1) if isinstance(j, tuple) else j for j in i))
            else:
                out.append(i)
        r = tuple(out)
        if r[0] == 'deref':
            return deref(r[1])
        if r[0] == 'mem' and r[1][0] == 'phi':
            return ('phi', frozenset(('mem', i, r[2]) for i in r[1][1]))
        if r[0] == 'bin' and r[2][0] == 'iter' and r[1] in ('+', '-'):
            return r[2]
        return r


def terms_of(n):
    """The terms that a node is made of"""
    for k, v in n.d.items():
        if k == 'e' or v is None:
            continue
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            yield v
        elif isinstance(v, (list, tuple)):
            for i in v:
                if isinstance(i, tuple) and i and isinstance(i[0], str):
                    yield i
