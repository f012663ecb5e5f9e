"""C15: every problem that verification can find is found somewhere, has a type and a text, and carries what its text wants"""

import re

import ir
from absint import deep
from cfg import Graph
from ir import walk
from loops import LoopEval
from tables import Unknown

EXPLANATION = (
    'For each problem that is declared, the functions that give its type and its text are evaluated with that problem decided: each must end with one result, the text must have as many places as there are values, '
    'and the details that the text takes without asking whether they are there are its needs. '
    'Each place at which a problem is noted is then looked at with the details it sets (constructor, chain of setters, setters of the variable before it is handed over) and those the surrounding context is known to add there '
    '(a must-analysis over blocks, scope guards and the call graph); they must include the needs of the problem.')

V = 'dcp::VerificationNote::'
CONTEXT = {'cpl': 'cpl_id', 'reel_index': 'reel_index', 'asset_id': 'asset_id'}


def one(prog, q, n=None):
    fs = [f for f in prog.get(q) if f.body is not None and (n is None or len(f.params) == n)]
    if not fs:
        raise ir.AnalysisBroken('there is no function %s' % q)
    return fs[0]


def decided(g, code, codes):
    """The evaluation of a function for one code"""
    d = {}
    for i in range(400):
        e = LoopEval(g, None, {}, decide=d).run()
        new = [c for c in e.asked if c not in d and c[0] == 'bin' and c[1] in ('==', '!=') and any(t[0] == 'enum' and t[1].startswith(V + 'Code::') for t in c[2:])]
        if not new:
            return e
        for c in new:
            en = [t for t in c[2:] if t[0] == 'enum'][0]
            for i, x in enumerate(codes):
                # the questions that follow are sure to be the same for the others
                d[tuple(('enum', V + 'Code::' + x, i) if t == en else t for t in c)] = (x == code) == (c[1] == '==')
            d[c] = (en[1] == V + 'Code::' + code) == (c[1] == '==')
    raise Unknown('too many conditions on the code')


def terms(e):
    for n, env in e.calls:
        for a in list(n.args) + [n.obj]:
            if a:
                for v in e.ev(a, env):
                    yield v
    for r in e.returns:
        yield r


def has_getters(prog):
    return {f.q[len(V):] for f in prog.functions.values() if f.q.startswith(V) and not f.params}


def needs(e):
    asked = {t for c in e.asked for t in deep(c) if t[0] == 'call' and t[1].startswith(V)}
    out = set()
    for t in terms(e):
        for x in deep(t):
            if x[0] == 'deref' and x[1][0] == 'call' and x[1][1].startswith(V) and x[1] not in asked:
                out.add(x[1][1][len(V):])
    return out


def text_of(v):
    """(format, number of values) of a result of the function that gives the text"""
    if v[0] == 'call' and v[1].endswith('String::compose') and v[3]:
        s = [x[1] for x in deep(v[3][0]) if x[0] == 'str']
        return (s[0], len(v[3]) - 1) if len(s) == 1 else None
    s = [x[1] for x in deep(v) if x[0] == 'str']
    if v[0] == 'call' and v[1] == 'std::function::operator()' and len(s) == 1 and len(list(deep(v[3][0]))) <= 3:
        return s[0], None
    return None


class Site:
    def __init__(self, f, line, codes, have):
        self.f, self.line, self.codes, self.have = f, line, codes, have


class Flow:
    """What the context is sure to add to a note, at each place; by function, from all of its callers"""
    def __init__(self, prog):
        self.prog = prog
        self.sites = []
        self.unknown = []
        self.stuck = {}
        self.guarded = set()
        self.entry = {}
        self.top = frozenset(CONTEXT)
        callers = {}
        self.fs = [f for f in prog.functions.values() if f.body is not None]
        by_key = {f.key: f for f in self.fs}
        called = set()
        for f in self.fs:
            for x in walk(f.body):
                if x.get('e') in ('call', 'ctor') and x.get('fn') in by_key:
                    called.add(x['fn'])
        self.by_key = by_key
        for f in self.fs:
            self.entry[f.key] = self.top if f.key in called or f.q == 'lambda' else frozenset()
        # what matters is only what has to do with the context
        self.about = [f for f in self.fs if any('dcp::Context' in f.type(p['t']) for p in f.params) or
                      any(x.get('q') == 'dcp::Context' and x.get('e') == 'mem' or x.get('q', '').startswith('dcp::Context::') or x.get('q', '').startswith(V) or (x.get('e') == 'enum' and x.get('q', '').startswith(V))
                          for x in walk(f.body))]
        about = {f.key for f in self.about}
        for f in self.fs:
            if f.key not in about:
                for x in walk(f.body):
                    if x.get('e') in ('call', 'ctor', 'lambda') and x.get('fn') in about:
                        self.entry[x['fn']] = frozenset()
        while True:
            self.next = {}
            self.sites, self.unknown = [], []
            for f in self.about:
                self.f = f
                self.body(f.body, self.entry[f.key])
            changed = False
            for k, v in self.next.items():
                v = v & self.entry[k]
                if v != self.entry[k]:
                    self.entry[k] = v
                    changed = True
            if not changed:
                break

    # Statements: the state is the set of members of the context that are sure to be set
    def body(self, s, st):
        if s is None:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.body(x, st)
            return st
        k = s.get('s')
        if k == 'block':
            guards = set()
            stmts = s.get('b') or []
            for i, x in enumerate(stmts):
                if x.get('s') == 'decl':
                    guards |= self.guard(x)
                    self.held(x, stmts[i + 1:], st)
                st = self.body(x, st)
                if st is None:
                    st = self.top
            return st - guards
        if k == 'if':
            if s.get('var'):
                st = self.body(s['var'], st)
            st = self.expr(s.get('c'), st)
            a = self.body(s.get('x'), st)
            b = self.body(s.get('y'), st)
            if self.leaves(s.get('x')):
                return b
            if self.leaves(s.get('y')):
                return a
            return a & b
        if k in ('for', 'while', 'do', 'rfor', 'switch'):
            for key, v in s.items():
                if isinstance(v, (dict, list)):
                    st = st & self.body(v, st) if not self.is_expr(v) else self.expr(v, st)
            return st
        if k == 'try':
            self.kept(s)
            a = self.body(s.get('x'), st)
            for h in s.get('h') or []:
                b = self.body(h.get('x'), st & a)
                if not self.leaves(h.get('x')):
                    a = a & b
            return a
        for key, v in s.items():
            if isinstance(v, (dict, list)):
                st = self.body(v, st) if not self.is_expr(v) else self.expr(v, st)
        return st

    def kept(self, s):
        """What is put into the context and taken out again in a try must be taken out by the handlers too"""
        stmts = (s.get('x') or {}).get('b') or []
        for i, x in enumerate(stmts):
            m = self.effect(x['x']) if x.get('s') == 'expr' else None
            if not m or not m[1]:
                continue
            after = [j for j, y in enumerate(stmts) if j > i and y.get('s') == 'expr' and (self.effect(y['x']) or (None,))[0] == m[0]]
            if not after or not any(y.get('e') == 'call' for z in stmts[i + 1:after[0]] for y in walk(z)):
                continue
            for h in s.get('h') or []:
                if m[0] not in self.clears(h.get('x')) and not self.leaves(h.get('x')):
                    self.stuck[(self.f.key, m[0])] = (self.f, x['l'], m[0])

    def is_expr(self, v):
        return isinstance(v, dict) and 'e' in v

    def leaves(self, s):
        while isinstance(s, dict) and s.get('s') == 'block' and s.get('b'):
            s = s['b'][-1]
        return isinstance(s, dict) and (s.get('s') in ('return', 'continue', 'break') or any(x.get('e') == 'throw' for x in walk(s) if s.get('s') == 'expr'))

    def member(self, x):
        while isinstance(x, dict) and x.get('e') in ('cast', 'icast'):
            x = x['x']
        return x['f'] if isinstance(x, dict) and x.get('e') == 'mem' and x.get('q') == 'dcp::Context' and x.get('f') in CONTEXT else None

    def clears(self, body):
        out = set()
        for x in walk(body):
            m = self.effect(x)
            if m:
                out.add(m[0])
        return out

    def guard(self, decl):
        out = set()
        if 'ScopeGuard' in self.f.type(decl['t']):
            for x in walk(decl):
                if x.get('e') == 'lambda' and x.get('fn') in self.by_key:
                    out |= self.clears(self.by_key[x['fn']].body)
        self.guarded |= {(self.f.key, m, decl['l']) for m in out}
        return out

    def effect(self, x):
        """(member of the context, whether it is then set), if that is what an expression does"""
        if x.get('e') == 'call' and x.get('op') == '=' and self.member(x.get('o')):
            a = x['a'][0]
            none = any(y.get('n') in ('none', 'nullptr') or y.get('e') == 'null' for y in walk(a)) or (a.get('e') == 'ctor' and not a.get('a'))
            return self.member(x['o']), not none
        if x.get('e') == 'asg' and x.get('op') == '=' and self.member(x.get('x')):
            return self.member(x['x']), True
        if x.get('e') == 'call' and x.get('m') == 'reset' and self.member(x.get('o')):
            return self.member(x['o']), bool(x.get('a'))
        return None

    def held(self, decl, rest, st):
        """A note in a variable: what is set before it is handed over"""
        x = decl.get('x')
        if not isinstance(x, dict) or not self.f.type(decl['t']).replace('const ', '').strip() == 'dcp::VerificationNote':
            return
        have = set()
        handed = False
        for s in rest:
            for y in walk(s):
                if y.get('e') == 'call' and y.get('m') in ('push_back', 'add_note', 'add_note_if_not_existing', 'emplace_back') and any(z.get('e') == 'var' and z.get('id') == decl['id'] for a in y['a'] for z in walk(a)):
                    handed = True
                    if y.get('q', '').startswith('dcp::Context::'):
                        have |= {CONTEXT[m] for m in st}
            if handed:
                break
            if s.get('s') == 'expr':
                y = s['x']
                while isinstance(y, dict) and y.get('e') == 'call' and y.get('q', '').startswith(V + 'set_'):
                    have.add(y['m'][4:])
                    y = y['o']
        decl['have'] = have if handed else None

    def expr(self, x, st):
        if x is None:
            return st
        self.find(x, (), st, False)
        for y in walk(x):
            m = self.effect(y)
            if m:
                st = st | {m[0]} if m[1] else st - {m[0]}
            if y.get('e') in ('call', 'ctor', 'lambda') and y.get('fn') in self.by_key:
                k = y['fn']
                self.next[k] = self.next.get(k, self.top) & st
        return st

    def find(self, x, chain, st, by_context):
        if isinstance(x, list):
            for y in x:
                self.find(y, chain, st, by_context)
            return
        if not isinstance(x, dict):
            return
        if x.get('e') == 'call' and x.get('q', '').startswith(V + 'set_'):
            self.find(x['o'], chain + (x['m'][4:],), st, by_context)
            self.find(x['a'], (), st, False)
            return
        add = x.get('e') == 'call' and x.get('q', '').startswith('dcp::Context::add_note')
        note = x.get('e') == 'ctor' and x.get('q') == V + '(ctor)'
        if (add and '<' in x['fn'].split('(')[0] or note) and x.get('a'):
            t = self.f.type(x['a'][0].get('t')).replace('const ', '').replace('&', '').strip()
            if note and t == 'dcp::VerificationNote':
                self.find(x['a'][0], chain, st, by_context)
                return
            codes = [y['n'] for y in walk(x['a'][0]) if y.get('e') == 'enum' and y['q'].startswith(V + 'Code::')]
            have = set(chain)
            if len(x['a']) > 1:
                have.add('file')
            if len(x['a']) > 2:
                have.add('line')
            if add or by_context:
                have |= {CONTEXT[m] for m in st}
            if codes:
                self.sites.append(Site(self.f, x['l'], codes, have))
            elif not self.f.q.startswith('dcp::Context::add_note'):
                self.unknown.append('%s: note with a code that is not known' % self.f.q)
            self.find(x['a'][1:], (), st, False)
            return
        for k, y in x.items():
            if isinstance(y, (dict, list)):
                self.find(y, chain if k == 'x' and x.get('e') in ('cast', 'icast', 'defarg') else (), st, by_context or add)


def check(ctx, prog):
    ctx.rule('text', 'a problem has a text, with a place for each value', 110)
    ctx.rule('type', 'a problem has a type', 110)
    ctx.rule('found', 'a problem that is declared is noted somewhere', 110)
    ctx.rule('given', 'a note has the details that its text takes', 120)
    ctx.rule('left', 'what is put into the context is taken out even if there is an exception')
    ctx.rule('kind', 'a detail is stored as the type that it is taken out as', 30)
    ctx.rule('frame', 'frames are counted from the same origin in all notes of a function', 2)
    codes = [c['n'] if isinstance(c, dict) else c if isinstance(c, str) else c[0] for c in prog.enum('dcp::VerificationNote::Code')['c']] if isinstance(prog.enum('dcp::VerificationNote::Code'), dict) else \
        [c if isinstance(c, str) else c[0] if not isinstance(c, dict) else c['n'] for c in prog.enum('dcp::VerificationNote::Code')]
    text = one(prog, 'dcp::note_to_string', 3)
    kind = one(prog, V + 'type')
    ctx.functions([text, kind])
    gt = Graph(prog, text, lambda callee, caller, depth: callee.file.endswith('verify.cc'))
    gk = Graph(prog, kind, lambda callee, caller, depth: callee.file.endswith('verify.cc'))
    wanted = {}

    def a_text(c):
        e = decided(gt, c, codes)
        if not e.returns:
            ctx.violation('text', text.file, text.line, text.q, 'there is no text for %s' % c, c)
            return
        wanted[c] = needs(e)
        for v in e.returns:
            t = text_of(v)
            if v == ('str', ''):
                ctx.violation('text', text.file, text.line, text.q, 'there is no text for %s' % c, c)
            elif t is None:
                if any(x[0] == 'deref' and x[1][0] == 'call' and x[1][1].startswith(V) for x in deep(v)):
                    ctx.ok('text', c)
                else:
                    ctx.skip('text', c)
            else:
                places = {int(i) for i in re.findall(r'%(\d)', t[0])}
                want = set(range(1, (t[1] or 0) + 1))
                ctx.expect(places == want, 'text', text.file, text.line, text.q,
                           'the text of %s ("%s") has places for the values %s but is given %d' % (c, t[0], ', '.join(map(str, sorted(places))) or 'none', t[1] or 0), c, c)

    def a_type(c):
        e = decided(gk, c, codes)
        if not e.returns:
            ctx.violation('type', kind.file, kind.line, kind.q, 'there is no type for %s' % c, c)
        elif len(e.returns) == 1 and list(e.returns)[0][0] == 'enum':
            ctx.ok('type', c)
        else:
            ctx.skip('type', c)

    for c in codes:
        ctx.attempt('text', c, lambda: a_text(c))
        ctx.attempt('type', c, lambda: a_type(c))

    flow = Flow(prog)
    for f, l, m in flow.stuck.values():
        ctx.violation('left', f.file, l, f.q, '%s stays in the context if there is an exception, and so is added to notes that are not about it' % m, '%s %s' % (f.q, m))
    for k in flow.guarded:
        ctx.ok('left', '%s in %s' % (k[1], k[0].split('(')[0]))
    for u in flow.unknown:
        ctx.skip('given', u)
    ctx.functions(flow.about)
    for f in flow.about:
        for x in walk(f.body):
            if x.get('s') == 'decl' and 'have' in x:
                lines = {y['l'] for y in walk(x.get('x'))}
                for s in flow.sites:
                    if s.f is f and s.line in lines:
                        if x['have'] is None:
                            s.have = None
                        else:
                            s.have = s.have | x['have']
    noted = set()
    for s in flow.sites:
        for c in s.codes:
            noted.add(c)
            if s.have is None:
                ctx.skip('given', '%s in %s' % (c, s.f.q))
                continue
            missing = wanted.get(c, set()) - s.have
            ctx.expect(not missing, 'given', s.f.file, s.line, s.f.q,
                       '%s is noted without %s, which its text takes without asking whether it is there' % (c, ', '.join(sorted(missing))), '%s %s' % (s.f.q, c), '%s in %s' % (c, s.f.q))
    # a code may reach the place where it is noted by way of a variable
    for f in flow.about:
        if f is text or f is kind:
            continue
        for x in walk(f.body):
            if x.get('e') in ('call', 'ctor', 'cond') or x.get('s') in ('decl', 'return') or x.get('op') == '=':
                if x.get('op') in ('==', '!='):
                    continue
                for a in (x.get('a') or []) + [x.get(k) for k in ('x', 'y', 'n', 'z') if isinstance(x.get(k), dict) and x.get(k).get('e') == 'enum']:
                    if isinstance(a, dict) and a.get('e') == 'enum' and a.get('q', '').startswith(V + 'Code::'):
                        noted.add(a['n'])
    for c in codes:
        if c in noted:
            ctx.ok('found', c)
        elif flow.unknown and any(y.get('e') == 'enum' and y.get('n') == c for f in flow.about if f is not text and f is not kind for y in walk(f.body)):
            ctx.skip('found', c)
        else:
            ctx.violation('found', 'src/verify.h', 1, V + 'Code', '%s is declared but noted nowhere' % c, c)

    stored, taken = {}, {}
    for f in flow.about:
        for x in walk(f.body):
            if x.get('e') == 'call' and x.get('q') == 'boost::any::operator=' and x['a']:
                keys = [y['q'] for y in walk(x['o']) if y.get('e') == 'enum']
                m = re.match(r'boost::any::operator=<(.*)>\(', x['fn'])
                if len(keys) == 1 and m:
                    stored.setdefault(keys[0], {})[norm(m.group(1))] = (f, x['l'])
            if x.get('e') == 'call' and x.get('q') in (V + 'data', V + 'location') and len(x['a']) == 1 and x['a'][0].get('e') == 'enum':
                m = re.match(r'.*?::(?:data|location)<(.*)>\(', x['fn'])
                if m:
                    taken.setdefault(x['a'][0]['q'], {})[norm(m.group(1))] = (f, x['l'])
    for k in sorted(set(stored) & set(taken)):
        bad = sorted((set(stored[k]) ^ set(taken[k])))
        f, l = list(taken[k].values())[0]
        ctx.expect(set(stored[k]) == set(taken[k]), 'kind', f.file, l, f.q, '%s is stored as %s but taken as %s' % (k.split('::')[-1], ', '.join(stored[k]), ', '.join(taken[k])), k.split('::')[-1], k)

    for f in flow.about:
        args = [(x['l'], shape(x['a'][0])) for x in walk(f.body) if x.get('e') == 'call' and x.get('q') == V + 'set_frame' and x['a']]
        for l, a in args:
            ctx.expect(a[0] == args[0][1][0] or a[1] or args[0][1][1], 'frame', f.file, l, f.q, 'a frame is given as %s but elsewhere as %s' % (' + '.join(a[0]), ' + '.join(args[0][1][0])), f.q, f.q)


def shape(x):
    """The variables a number is made from, and whether it has anything besides sums of them"""
    names = sorted(y['n'] for y in walk(x) if y.get('e') == 'var')
    other = any(y.get('e') == 'call' for y in walk(x)) or any(y.get('e') == 'var' and y.get('k') == 'local' for y in walk(x))
    return names, other


def norm(t):
    return re.sub(r'\bconst\b|&', '', t).strip()
