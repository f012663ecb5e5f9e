"""C27: names made from a format are safe, and made of the values that were given"""

import ir
import poly
from absint import T, F
from cfg import Graph, show
from loops import LoopEval, table
from tables import Unknown, Wrong, counter

SOURCES = ['name_format.cc']

EXPLANATION = (
    'The loop over the format is evaluated for one generic character, for each of the 256 values that it can have and for every combination of the questions that are asked about what follows it '
    '(is there more, is there a value for the key, is the key to be ignored). What is appended and how far the loop goes on is compared with the definition; '
    'the loop that copies a value is evaluated in the same way for each of the 256 characters.')

THIS = ('deref', ('this',))
SPEC = ('mem', THIS, '_specification')
APPEND = ('operator+=', 'push_back', 'append')
KEY = ('key',)


def mapped(c):
    return {ord('/'): ord('-'), ord(':'): ord('-'), ord(' '): ord('_')}.get(c, c)


def strip(t):
    while t[0] == 'cast' or t[0] == 'addr' and t[1][0] == 'deref':
        t = t[2] if t[0] == 'cast' else t[1][1]
    return t


def number(t):
    t = strip(t)
    return t[1] if t[0] == 'const' and isinstance(t[1], int) else 1 if t == T else 0 if t == F else None


def policy(callee, caller, depth):
    return callee.file.startswith('src/') and not callee.file.endswith(('exceptions.cc', 'exceptions.h', 'compose.hpp'))


class NameEval(LoopEval):
    """Characters of the format are c (at the counter) and KEY (after it); those of a value are v"""

    def __init__(self, g, c, v, values, decide=None):
        super().__init__(g, None, {}, decide=decide)
        self.c, self.v, self.values = c, v, values
        self.at = set()

    def is_value(self, b):
        """Whether a text is the one found for a key"""
        b = strip(b)
        if b[0] == 'deref':
            b = b[1]
        if b[0] == 'mem' and b[2] == 'second':
            return self.values in list(deep(b))
        if b[0] in ('at', 'idx') and b[1] == self.values:
            return True
        return b[0] == 'call' and b[2] == self.values and b[1].split('::')[-1] in ('at', 'operator[]')

    def ev(self, t, env):
        if t[0] in ('idx', 'at', 'elem') and t not in env:
            out = set()
            for b in super().ev(t[1], env):
                if strip(b) == SPEC or b == SPEC:
                    if t[0] == 'elem':
                        out.add(('const', self.c))
                        continue
                    for i in super().ev(t[2], env):
                        p = poly.Normal()(i)
                        lv = [a for a in poly.atoms(p) if a[0] == 'lv']
                        off = poly.value(poly.add(p, poly.atom(lv[0]), -1)) if len(lv) == 1 else None
                        if lv:
                            self.at.add(lv[0])
                        out.add(('const', self.c) if off == 0 else KEY if off == 1 else ('spec', show(i)))
                elif self.is_value(b):
                    if t[0] != 'elem':
                        for i in super().ev(t[2], env):
                            if i[0] != 'lv':
                                return frozenset([('value', show(i))])
                    out.add(('const', self.v))
                else:
                    return super().ev(t, env)
            return frozenset(out)
        return super().ev(t, env)


def deep(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for i in t:
            if isinstance(i, tuple):
                yield from deep(i)


def appends(v, base):
    """What has been appended to base to give v"""
    out = []
    while v != base:
        if v[0] == 'mut' and v[1].split('::')[-1] in APPEND and len(v[3]) == 1:
            out.append(v[3][0])
            v = v[2]
        elif v[0] == 'call' and v[1] in ('std::operator+',) and len(v[3]) == 2:
            out.append(v[3][1])
            v = v[3][0]
        elif v[0] == 'str' and v[1] == '' and base is None:
            break
        else:
            raise Unknown('the name is %s' % show(v)[:100])
    return list(reversed(out))


def fact(c, v, g, e, lv):
    """('more' | 'found' | 'ignored', truth)"""
    values, suffix, ignore = g.params[:3]
    if c[0] == 'bin' and c[1] in ('>', '>=', '<', '<='):
        if lv is not None and ('size', SPEC) in list(deep(c)):
            d = poly.linear(poly.add(poly.Normal()(c[2]), poly.Normal()(c[3]), -1), lv)
            if d is not None:
                k, rest = d
                # size of the format is the counter + left
                res = []
                for left in (1, 2, 3):
                    p = poly.add(poly.scale(poly.atom(lv), k), poly.substitute(rest, lambda a: poly.add(poly.atom(lv), poly.const(left)) if a == ('size', SPEC) else None))
                    x = poly.value(p)
                    if x is None:
                        raise Unknown('the condition %s' % show(c))
                    res.append({'>': x > 0, '>=': x >= 0, '<': x < 0, '<=': x <= 0}[c[1]])
                if res == [False, True, True]:
                    return 'more', v
                if res == [True, False, False]:
                    return 'more', not v
                raise Wrong('whether there is a character after a %% is decided by %s' % show(c))
        n = number(c[3])
        x = strip(c[2])
        if n is not None and x[0] == 'call' and x[1].split('::')[-1] == 'count' and x[2] == values and [strip(a) for a in x[3]] == [KEY]:
            return 'found', v == {('>', 0): True, ('>=', 1): True, ('<', 1): False, ('<=', 0): False}[c[1], n]
    if c[0] == 'bin' and c[1] == '==':
        if lv is not None and ('size', SPEC) in list(deep(c)):
            d = poly.value(poly.add(poly.add(poly.Normal()(c[2]), poly.Normal()(c[3]), -1), poly.const(0)))
            p = poly.add(poly.Normal()(c[2]), poly.Normal()(c[3]), -1)
            for s in (1, -1):
                if poly.value(poly.add(poly.add(poly.scale(p, s), poly.atom(lv), -1), poly.atom(('size', SPEC)))) == 1:
                    return 'more', not v
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            a, b = strip(a), strip(b)
            if a[0] == 'call' and a[2] == values and a[1].split('::')[-1] == 'find' and b == ('enditer', values):
                if [strip(x) for x in a[3]] != [KEY]:
                    raise Wrong('the value is that for %s and not for the character after the %%' % ', '.join(show(x) for x in a[3]))
                return 'found', not v
            if a[0] == 'call' and a[2] == ignore and a[1].split('::')[-1] in ('find', 'rfind', 'find_first_of') and number(b) in (-1, 2 ** 64 - 1):
                if strip(a[3][0]) != KEY:
                    raise Wrong('what is looked for in the characters to ignore is %s and not the character after the %%' % show(a[3][0]))
                return 'ignored', not v
            if a[0] == 'call' and a[2] == values and a[1].split('::')[-1] == 'count' and number(b) in (0, 1):
                return 'found', v == bool(number(b))
    if any(x[0] == 'mem' and x[2] == 'second' and values in list(deep(x)) for x in deep(c)):
        return 'value:%s' % show(c), v
    if c[0] == 'bin' and c[1] == '==' and KEY in [strip(x) for x in c[2:]] and any(number(x) is not None for x in c[2:]):
        return 'key:%s' % show(c), v
    if c[0] == 'call' and c[1].split('::')[-1] == 'contains' and c[2] == values:
        return 'found', v
    raise Unknown('the condition %s' % show(c)[:200])


def get(ctx, prog):
    fs = [f for f in prog.get('dcp::NameFormat::get') if f.body is not None]
    if not fs:
        raise ir.AnalysisBroken('there is no function NameFormat::get')
    f = fs[0]
    g = Graph(prog, f, policy)
    ctx.functions([f.key] + list(g.inlined))
    values, suffix, ignore = g.params[:3]
    seen = set()
    given = [x['s'] for x in ir.walk(f.params[2].get('d')) if isinstance(x, dict) and x.get('e') == 'str' and 's' in x] if len(f.params) > 2 and f.params[2].get('d') else []
    if len(given) == 1:
        ctx.expect(given[0] == '', 'format', f.file, f.line, f.q, 'the key "%s" is ignored unless another is given' % given[0], 'get:default', 'no key is ignored unless one is given')

    def bad(rule, what, message):
        if what not in seen:
            seen.add(what)
            ctx.violation(rule, f.file, f.line, f.q, message, 'get:%s' % what)

    def name(c):
        return repr(chr(c)) if 32 <= c < 127 else 'character %d' % c
    for c in range(256):
        sc = c if c < 128 else c - 256
        rows = table(lambda d: NameEval(g, sc, ord('v'), values, d).run(), limit=8)
        if rows is None:
            raise Unknown('too many conditions')
        for d, e in rows:
            if not e.complete or not e.returns:
                raise Unknown('not evaluated')
            # the loop over the format, and the text that it adds to
            outer = None
            for r in e.returns:
                parts = []
                x = r
                while x[0] in ('mut', 'call') and not (x[0] == 'lv'):
                    if x[0] == 'mut' and x[1].split('::')[-1] in APPEND and len(x[3]) == 1:
                        parts.append(x[3][0])
                        x = x[2]
                    elif x[0] == 'call' and x[1] == 'std::operator+' and len(x[3]) == 2:
                        parts.append(x[3][1])
                        x = x[3][0]
                    else:
                        raise Unknown('the result is %s' % show(r)[:100])
                if x[0] != 'lv':
                    if x == suffix or any(y[0] == 'lv' for y in deep(r)):
                        bad('suffix', 'order', 'the result is %s and not what the format gives followed by the suffix' % show(r)[:100])
                        return
                    raise Unknown('the result is %s' % show(r)[:100])
                if [strip(p) for p in reversed(parts)] != [suffix]:
                    bad('suffix', 'suffix', 'what follows the text from the format is %s, and not just the suffix' % (', '.join(show(p) for p in reversed(parts)) or 'nothing'))
                elif c == 0:
                    ctx.ok('suffix', 'suffix')
                outer = x
            lp = e.loops[outer[1]]
            text = outer[2]
            init = lp.init.get(text)
            if init != frozenset([('str', '')]) and c == 0:
                bad('format', 'start', 'the name starts as %s' % ', '.join(show(x) for x in init or ()))
            cnt = [p for p in lp.next if ('lv', lp.head.id, p) in e.at]
            if len(cnt) == 1:
                lv = ('lv', lp.head.id, cnt[0])
                normal = poly.Normal()
                if c == 0:
                    limits(ctx, f, lp, lv, cnt[0], normal)
                steps = set(poly.value(poly.add(normal(x), poly.atom(lv), -1)) for x in lp.next[cnt[0]])
            elif any(y[0] == 'elem' for y in ()):
                lv, steps = None, {1}
            else:
                raise Unknown('the format is not gone through by a counter')
            facts = {}
            for q, v in d.items():
                k, t = fact(q, v, g, e, lv)
                facts[k] = t
            done = [appends(x, outer) for x in lp.next[text]]
            where = '%s%s' % (name(c), ''.join(', %s%s' % ('' if v else 'not ', k) for k, v in facts.items()))
            if len(done) != 1 or len(steps) != 1 or None in steps:
                raise Unknown('several outcomes for %s' % where)
            app, step = done[0], steps.pop()
            sub = c == ord('%') and facts.get('more') is not False and facts.get('found') and facts.get('ignored') is False
            lit = c != ord('%') or facts.get('more') is False or facts.get('found') is False or facts.get('ignored')
            is_lit = len(app) == 1 and number(app[0]) is not None
            if not sub and not lit:
                # not all that matters has been asked
                missing = [k for k in ('more', 'found', 'ignored') if k not in facts]
                bad('format', 'unasked', 'for %s a decision is made without asking whether the key is %s' % (where, ' or '.join(missing)))
                continue
            if lit and c == ord('%') and step == 2 and len(app) == 2 and number(app[0]) == c:
                # the character after it is dealt with at once
                ctx.skip('format', where)
                continue
            if lit:
                want = mapped(c)
                want = want if want < 128 else want - 256
                if not is_lit:
                    bad('format', 'literal', 'for %s in the format %s is added' % (where, ', '.join(show(x) for x in app) or 'nothing'))
                else:
                    got = number(app[0])
                    if got != want and got != want + 256:
                        bad('safe' if c != want else 'format', 'char:%d' % c, 'for %s in the format %s is added, and not %s' % (where, name(got % 256), name(want % 256)))
                    else:
                        ctx.ok('format', where)
                if step != 1:
                    bad('format', 'step', 'after %s in the format the next character looked at is %s further' % (where, step))
            else:
                if is_lit or len(app) != 1:
                    bad('format', 'value', 'for a key with a value (%s) %s is added, and not the value' % (where, ', '.join(show(x) for x in app) or 'nothing'))
                    continue
                if step != 2:
                    bad('format', 'step2', 'after a key the next character looked at is %s further' % step)
                else:
                    ctx.ok('format', where)
                copied(ctx, prog, f, g, app[0], e, values, bad, name)


def limits(ctx, f, lp, lv, path, normal):
    init = lp.init.get(path, ())
    ctx.expect(set(number(x) for x in init) == {0}, 'format', f.file, f.line, f.q, 'the first character looked at is not the first of the format', 'get:first', 'first character')
    if len(lp.guards) == 1:
        from tables import bound
        c, stay = lp.guards[0]
        last = bound(c, stay, lv, 1, normal)
        ctx.expect(poly.equal(last, poly.add(poly.atom(('size', SPEC)), poly.const(1), -1)), 'format', f.file, f.line, f.q, 'the last character looked at is that at %s and not the last of the format' % poly.show(last), 'get:last', 'last character')
    else:
        ctx.skip('format', 'last character')


def copied(ctx, prog, f, g, v, e0, values, bad, name):
    """The value is added with each of its characters made safe"""
    v0 = strip(v)
    if NameEval(g, 0, 0, values).is_value(v0):
        bad('safe', 'value-unsafe', 'values are added without making their characters safe')
        return
    if v0[0] != 'lv':
        if v0[0] == 'str':
            bad('format', 'value', 'for a key "%s" is added, whatever its value is' % v0[1])
            return
        if any(y[0] == 'mut' and y[1].split('::')[-1] in APPEND for y in deep(v0)):
            bad('format', 'value-extra', 'more than the value is added for a key')
            return
        raise Unknown('what is added for a key is %s' % show(v0)[:100])
    for ch in range(256):
        sc = ch if ch < 128 else ch - 256
        rows = table(lambda d: NameEval(g, ord('%'), sc, values, d).run(), limit=8)
        ok = False
        for d, e in rows:
            lp = e.loops.get(v0[1])
            if lp is None or v0[2] not in lp.next:
                continue
            if lp.init.get(v0[2]) != frozenset([('str', '')]):
                raise Unknown('the copy of a value starts as %s' % lp.init.get(v0[2]))
            outs = [appends(x, v0) for x in lp.next[v0[2]]]
            if len(outs) != 1:
                raise Unknown('several outcomes')
            want = mapped(ch)
            got = [number(x) for x in outs[0]]
            if None in got:
                if outs[0] and outs[0][0][0] == 'value':
                    bad('format', 'value-index', 'the character at %s of a value is used' % outs[0][0][1])
                    return
                raise Unknown('%s is added for a character of a value' % ', '.join(show(x) for x in outs[0]))
            if [x % 256 for x in got] != [want]:
                bad('safe' if want != ch else 'format', 'value:%d' % ch, 'for %s in a value %s is added, and not %s' % (name(ch), ', '.join(name(x % 256) for x in got) or 'nothing', name(want)))
            else:
                ok = True
            if ch == 0:
                cs = [p for p in lp.next if any(('lv', lp.head.id, p) in list(deep(x)) for gd in lp.guards for x in [gd[0]])]
                if len(cs) == 1 and len(lp.guards) == 1:
                    a, b, s = counter(lp, poly.Normal(), cs[0])
                    if s == 1:
                        p = poly.add(b, poly.const(1))
                        at = [x for x in poly.atoms(p) if x[0] == 'size']
                        full = len(at) == 1 and poly.equal(p, poly.atom(at[0])) and poly.value(a) == 0
                        ctx.expect(full, 'format', f.file, f.line, f.q, 'characters %s to %s of a value are used, and not all' % (poly.show(a), poly.show(b)), 'get:value-range', 'all of a value')
                    else:
                        bad('format', 'value-order', 'the characters of a value are added from its end')
                else:
                    ctx.skip('format', 'range of a value')
        if ok:
            ctx.ok('safe', 'character %d of a value' % ch)




def check(ctx, prog):
    ctx.rule('format', 'each character of the format is kept, and each key with a value that is not ignored is replaced by it', 256)
    ctx.rule('safe', 'no separator, colon or space of the format or of a value is in the name', 100)
    ctx.rule('suffix', 'the suffix is added at the end as it is', 1)

    def go():
        try:
            get(ctx, prog)
        except Wrong as x:
            f = prog.get('dcp::NameFormat::get')[0]
            ctx.violation('format', f.file, f.line, f.q, str(x), 'get:decision')
    ctx.attempt('format', 'NameFormat::get', go)
