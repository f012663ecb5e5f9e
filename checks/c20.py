"""C20: malformed documents are reported with the exceptions meant for them, never by failing assertions"""

import c02
import c23
import ir
from ir import walk

EXPLANATION = (
    'What is read from XML nodes, files, MXF descriptors and decrypted blocks is followed through variables, members, containers, arguments, results and captures of lambdas (a taint analysis over all functions of the library, to a fixpoint). '
    'An assertion fails with an exception that says there is a mistake in the program, so no assertion may depend on such a value, directly or by being what is left over after comparing it with everything that is known. '
    'A value counts as checked once a condition on it leads to another exception or to an early return.')

XML = ('cxml::Node::', 'cxml::Document::')
XML_NOT = ('done', 'ignore_child', 'read_file', 'read_string', 'name', 'is_text', 'line', 'node', '(ctor)', 'node_child')
XMLPP = ('get_attribute', 'get_attribute_value', 'get_value', 'get_content', 'get_child_text')
# functions that put what they read into the argument with this number
FILLS = {'RSA_private_decrypt': 2, 'dcp::File::read': 0, 'dcp::File::gets': 0, 'dcp::File::checked_read': 0, 'dcp::fread': 0, 'fread': 0}


def throws(s):
    """Failing assertions within a statement"""
    return [x for x in walk(s) if x.get('e') == 'throw' and any(y.get('q') == 'dcp::ProgrammingError::(ctor)' for y in walk(x))]


def leaves(s):
    while isinstance(s, dict) and s.get('s') == 'block' and s.get('b'):
        s = s['b'][-1]
    return isinstance(s, dict) and (s.get('s') in ('return', 'continue', 'break') or (s.get('s') == 'expr' and any(x.get('e') == 'throw' or x.get('m') == 'throw_exception' for x in walk(s))))


def strip(x):
    while isinstance(x, dict) and x.get('e') in ('cast', 'icast', 'defarg'):
        x = x['x']
    return x


class Taint:
    def __init__(self, prog):
        self.fs = [f for f in prog.functions.values() if f.body is not None and f.file.startswith('src/')]
        self.by = {f.key: f for f in self.fs}
        self.params = {f.key: set() for f in self.fs}
        self.places = {f.key: set() for f in self.fs}      # what holds data of a document
        self.inside = {f.key: set() for f in self.fs}      # containers that only have elements with such data
        self.split = {f.key: set() for f in self.fs}
        self.sizes = {f.key: [] for f in self.fs}
        self.checked = {f.key: self.checks(f) for f in self.fs}
        for f in self.fs:
            self.helpers(f)
        self.result = set()
        self.sources = 0
        while True:
            before = self.size()
            for f in self.fs:
                self.function(f)
            if before == self.size():
                break

    def size(self):
        return sum(len(s) for d in (self.params, self.places, self.inside) for s in d.values()) + len(self.result)

    def checks(self, f):
        """Places that a condition is about which leads to an exception that is not a failed assertion, or to leaving: [(place, line of the end of the condition)]"""
        out = []
        made = {x['id']: x['x'] for x in walk(f.body) if x.get('s') == 'decl' and isinstance(x.get('x'), dict)}
        for x in walk(f.body):
            if x.get('s') == 'if' and 'macro' not in x and (leaves(x.get('x')) or leaves(x.get('y'))) and not throws(x.get('x')):
                partial = {id(z) for y in walk(x['c']) if y.get('e') == 'call' and (y.get('m') in ('length', 'size', 'empty') or y.get('op') == '[]') and y.get('o') for z in walk(y['o'])}
                # a variable that holds the outcome of a test stands for what was tested
                tests = [made[y['id']] for y in walk(x['c']) if y.get('e') == 'var' and y.get('id') in made and f.type(y['t']).replace('const ', '') == 'bool']
                for y in walk([x['c']] + tests):
                    if y.get('e') in ('var', 'mem'):
                        p = self.place(y)
                        if p:
                            (out if id(y) not in partial else self.sizes[f.key]).append((p, max([z.get('l', 0) for z in walk(x['c'])])))
        return out

    def helpers(self, f):
        """What is given to a function that checks it has been checked"""
        for x in walk(f.body):
            if x.get('e') == 'call' and x.get('fn') in self.by:
                g = self.by[x['fn']]
                for a, p in zip(x.get('a') or [], g.params):
                    q = self.place(a)
                    if q is None:
                        continue
                    if any(c[0] == (p['id'], None) for c in self.checked[g.key]) and self.only_checks(g):
                        self.checked[f.key].append((q, x['l']))
                    if any(c[0] == (p['id'], None) for c in self.sizes[g.key]):
                        self.sizes[f.key].append((q, x['l']))

    def only_checks(self, g):
        return g.type(g.d['ret']) in ('void', 'bool')

    def is_checked(self, p, f, line):
        return any(q == p and l < line for q, l in self.checked[f.key])

    def size_checked(self, p, f, line):
        return any(q == p and l < line for q, l in self.sizes[f.key])

    def place(self, x):
        """(variable or this, member or None)"""
        names = []
        x = strip(x)
        while isinstance(x, dict):
            if x.get('e') == 'mem':
                names.append(x['f'])
                x = strip(x['b'])
            elif x.get('e') == 'call' and x.get('op') in ('->', '*', '[]') and x.get('o'):
                x = strip(x['o'])
            elif x.get('e') == 'call' and x.get('m') in ('get', 'back', 'front', 'at') and x.get('o'):
                x = strip(x['o'])
            elif x.get('e') == 'un' and x.get('op') in ('*', '&'):
                x = strip(x['x'])
            else:
                break
        if not isinstance(x, dict):
            return None
        if x.get('e') == 'this':
            return ('this', names[-1]) if names else None
        if x.get('e') == 'var':
            return (x.get('id'), names[-1] if names else None)
        return None

    def held(self, p, f, places=None):
        s = self.places[f.key] if places is None else places
        return p in s or (p[1] is not None and (p[0], None) in s)

    def source(self, x):
        if x.get('e') != 'call':
            return False
        q = x.get('q', '')
        return (q.startswith(XML) and x['m'] not in XML_NOT) or (q.startswith('xmlpp::') and x['m'] in XMLPP)

    def tainted(self, x, f):
        if isinstance(x, list):
            return any(self.tainted(y, f) for y in x)
        if not isinstance(x, dict):
            return False
        e = x.get('e')
        if e in ('lambda', 'sizeof'):
            return False
        if self.source(x):
            return True
        if e in ('var', 'mem'):
            p = self.place(x)
            if p is None:
                return self.tainted(x.get('b'), f)
            return (self.held(p, f) or self.held(p, f, self.inside[f.key])) and not self.is_checked(p, f, x['l'])
        if e == 'call' and x.get('m') in ('empty', 'size', 'length') and x.get('o'):
            p = self.place(x['o'])
            if p is not None:
                if x['m'] == 'empty' and p in self.split[f.key]:
                    return False
                return self.held(p, f) and not self.is_checked(p, f, x['l']) and not self.size_checked(p, f, x['l'])
        if e in ('call', 'ctor') and x.get('fn') in self.by:
            if e == 'ctor':
                return any(self.tainted(a, f) for a in x.get('a', []))
            return x['fn'] in self.result
        if e == 'cond':
            return self.tainted(x['x'], f) or self.tainted(x['y'], f)
        return any(self.tainted(y, f) for y in x.values() if isinstance(y, (dict, list)))

    def mark(self, x, f, into):
        p = self.place(x)
        if p is None and isinstance(x, dict) and x.get('e') == 'call' and x.get('o'):
            return self.mark(x['o'], f, into)
        if p is not None:
            into[f.key].add(p)

    def function(self, f):
        places = self.places[f.key]
        for p in self.params[f.key]:
            places.add(p if isinstance(p, tuple) else (p, None))
        inits = f.d.get('inits') or []
        while True:
            n = self.size()
            for i in inits:
                if i.get('f') and i.get('x') and self.tainted(i['x'], f):
                    places.add(('this', i['f']))
            for x in walk([f.body, inits]):
                s, e = x.get('s'), x.get('e')
                if s == 'decl' and x.get('x') and self.tainted(x['x'], f):
                    places.add((x['id'], None))
                elif s == 'rfor' and self.tainted(x['r'], f):
                    for y in walk(x['var']):
                        if y.get('s') == 'decl':
                            places.add((y['id'], None))
                elif e == 'asg' and self.tainted(x['y'], f):
                    self.mark(x['x'], f, self.places)
                elif s == 'return' and x.get('x') and f.type(f.d['ret']) != 'bool' and self.tainted(x['x'], f):
                    self.result.add(f.key)
                elif e == 'call':
                    o, a = x.get('o'), x.get('a') or []
                    if x.get('op') in ('=', '+=') and o and self.tainted(a, f):
                        self.mark(o, f, self.places)
                    if x.get('m') in ('push_back', 'insert', 'emplace_back') and o and self.tainted(a, f):
                        self.mark(o, f, self.inside)
                    if x.get('m') in ('append', 'assign') and o and self.tainted(a, f):
                        self.mark(o, f, self.places)
                    if not o and x.get('q') in ('boost::algorithm::split',) and len(a) > 1:
                        self.mark(a[0], f, self.split)
                        if self.tainted(a[1], f):
                            self.mark(a[0], f, self.places)
                    i = FILLS.get(x.get('q'))
                    if i is not None and i < len(a):
                        self.mark(a[i], f, self.places)
                    if x.get('q', '').startswith('ASDCP::') and x.get('m', '').startswith('Fill') and a:
                        self.mark(a[-1], f, self.places)
                if e in ('call', 'ctor') and x.get('fn') in self.by:
                    g = self.by[x['fn']]
                    for a, p in zip(x.get('a') or [], g.params):
                        if self.tainted(a, f):
                            self.params[g.key].add(p['id'])
                if e == 'lambda' and x.get('fn') in self.by:
                    ids = {c.get('id') for c in x.get('caps') or []}
                    self.params[x['fn']] |= {p for p in places if p[0] in ids}
            if n == self.size():
                break


class Part:
    """Some of the rules of another check"""
    def __init__(self, ctx, rules):
        self.ctx, self.rules_ = ctx, rules

    def rule(self, *a):
        pass

    def functions(self, fs):
        pass

    def ok(self, rule, what=None):
        if rule in self.rules_:
            self.ctx.ok(self.rules_[rule], what)

    def violation(self, rule, *a, **k):
        if rule in self.rules_:
            self.ctx.violation(self.rules_[rule], *a, **k)

    def skip(self, rule, what):
        if rule in self.rules_:
            self.ctx.skip(self.rules_[rule], what)

    def expect(self, cond, rule, *a, **k):
        if rule in self.rules_:
            self.ctx.expect(cond, self.rules_[rule], *a, **k)
        return cond

    def attempt(self, rule, what, fn):
        return self.ctx.attempt(self.rules_.get(rule, 'name'), what, fn)


def check(ctx, prog):
    ctx.rule('time', 'a malformed time is refused with the exception for such times', 10)
    ctx.rule('name', 'a text that is the name of no value is refused', 40)
    c23.check(Part(ctx, {'malformed': 'time'}), ir.load(c23.SOURCES))
    c02.check(Part(ctx, {'unknown': 'name'}), ir.load(getattr(c02, 'SOURCES', None)))
    ctx.rule('assertion', 'no assertion depends on a value that was read', 100)
    ctx.rule('access', 'elements and optional values that were read are used only after asking whether they are there', 30)
    t = Taint(prog)
    ctx.functions(t.fs)

    def constant(c):
        return not any(y.get('e') in ('var', 'mem', 'call') for y in walk(c))

    def visit(f, s, conds):
        if isinstance(s, list):
            for x in s:
                visit(f, x, conds)
            return
        if not isinstance(s, dict):
            return
        k = s.get('s')
        if k == 'block':
            c = list(conds)
            for x in s.get('b') or []:
                visit(f, x, c)
                if x.get('s') == 'if':
                    y = x
                    while isinstance(y, dict) and y.get('s') == 'if' and 'macro' not in y:
                        if leaves(y.get('x')) or leaves(y.get('y')):
                            c = c + [y['c']]
                        y = y.get('y')
                elif x.get('s') == 'switch':
                    c = c + [x['c']]
            return
        if k == 'if':
            if throws(s.get('x')) and 'macro' in s:
                own = [s['c']] if not constant(s['c']) else conds
                bad = [c for c in own if t.tainted(c, f)]
                where = '%s: %s' % (f.q, names(own[-1]) if own else 'always')
                ctx.expect(not bad, 'assertion', f.file, s['l'], f.q,
                           'an assertion fails, instead of an exception about the document, depending on %s, which is read' % (names(bad[0]) if bad else ''), where, where)
                return
            visit(f, s.get('x'), conds + [s['c']])
            visit(f, s.get('y'), conds + [s['c']])
            return
        if k == 'expr' and throws(s):
            bad = [c for c in conds if t.tainted(c, f)]
            where = '%s: %s' % (f.q, names(conds[-1]) if conds else 'always')
            ctx.expect(not bad, 'assertion', f.file, s['l'], f.q,
                       'an exception about the program is thrown, instead of one about the document, depending on %s, which is read' % (names(bad[0]) if bad else ''), where, where)
            return
        if k in ('for', 'while', 'rfor', 'switch', 'do', 'case', 'default', 'try'):
            c = conds + ([s['c']] if k == 'switch' else [s['r']] if k == 'rfor' else [])
            visit(f, s.get('x'), c)
            for h in s.get('h') or []:
                visit(f, h.get('x'), c)

    for f in t.fs:
        ctx.attempt('access', f.q, lambda: accesses(ctx, t, f))
        if throws(f.body):
            ctx.attempt('assertion', f.q, lambda: visit(f, f.body, []))


def accesses(ctx, t, f):
    """Uses of optional values and elements of what was read"""
    asked = []

    def ask(c, line):
        for y in walk(c):
            if y.get('e') in ('var', 'mem') and t.place(y):
                asked.append((t.place(y), line))
            if y.get('s') == 'decl':
                asked.append(((y['id'], None), line))

    for x in walk(f.body):
        if (x.get('s') in ('if', 'for', 'while', 'do') or x.get('e') == 'cond') and isinstance(x.get('c'), dict):
            ask([x['c'], x.get('var') or []], x['l'])
        elif x.get('e') == 'bin' and x.get('op') in ('&&', '||'):
            ask(x['x'], x['l'])
        elif x.get('s') == 'rfor':
            ask(x['r'], x['l'])
        elif x.get('s') == 'switch':
            ask(x['c'], x['l'])
    asked += t.sizes[f.key] + t.checked[f.key]
    maybe = {(x['id'], None) for x in walk(f.body) if x.get('s') == 'decl' and isinstance(strip(x.get('x')), dict) and strip(x['x']).get('m') == 'optional_node_child'}
    for x in walk([f.body, f.d.get('inits') or []]):
        if x.get('e') != 'call' or not isinstance(x.get('o'), dict):
            continue
        o = strip(x['o'])
        ty = f.type(o['t']) if 't' in o else ''
        optional = 'optional' in ty and (x.get('op') in ('*', '->') or x.get('m') == 'get')
        element = ('vector<' in ty or 'list<' in ty or 'basic_string' in ty) and 'map<' not in ty and (x.get('op') == '[]' or x.get('m') in ('front', 'back'))
        p = t.place(o)
        node = x.get('op') in ('*', '->') and 'shared_ptr' in ty and (p in maybe or o.get('m') == 'optional_node_child')
        if not node and (not (optional or element) or not t.tainted(o, f)):
            continue
        if p in t.split[f.key] and (x.get('m') in ('front', 'back') or [strip(a).get('cv') for a in x.get('a') or []] == [0]):
            # splitting gives at least one part
            continue
        what = '%s: %s' % (f.q, names(o))
        ctx.expect(p is not None and any(q == p and l <= x['l'] for q, l in asked), 'access', f.file, x['l'], f.q,
                   '%s, which is read, is used without asking whether it is there' % names(o), what, what)


def names(x):
    out = []
    for y in walk(x):
        n = y.get('n') if y.get('e') in ('var', 'enum') else y.get('f') if y.get('e') == 'mem' else y.get('m') if y.get('e') == 'call' and not y.get('op') else None
        if n and n not in out:
            out.append(n)
    return ' '.join(out[:4]) or 'nothing'
