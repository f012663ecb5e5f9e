"""Comparisons within a tolerance: when does a function say that two objects are about equal?

The function is evaluated for every combination of answers to the questions it asks (is this part of the one within the
tolerance of that of the other; is this pointer or optional of either set). It must say yes only if every part is known to match,
and no only if some part is known not to."""

from cfg import Graph, show
from loops import LoopEval, table
from absint import T, F
from relation import strip as strip_type

THIS = ('deref', ('this',))


class Unknown(Exception):
    pass


def strip(t):
    while t[0] in ('cast', 'addr') or (t[0] == 'deref' and t[1][0] == 'addr'):
        t = t[2] if t[0] == 'cast' else t[1] if t[0] == 'addr' else t[1][1]
    return t


def side(t, other):
    """('a' or 'b', path of member names) of a part of either object"""
    names = []
    t = strip(t)
    while True:
        if t == THIS or t == ('this',):
            return 'a', tuple(reversed(names))
        if is_other(t, other):
            return 'b', tuple(reversed(names))
        if t[0] == 'mem':
            names.append(t[2])
            t = strip(t[1])
        elif t[0] in ('deref', 'nonnull') or (t[0] == 'call' and t[2] is not None and t[1].split('::')[-1] in ('get', 'value', 'operator*', 'operator->') and not t[3]):
            t = strip(t[1] if t[0] != 'call' else t[2])
        else:
            return None


def is_other(t, other):
    t = strip(t)
    if t == other or t == ('deref', other):
        return True
    if t[0] == 'deref':
        return is_other(t[1], other)
    if t[0] == 'dyn':
        return any(isinstance(i, tuple) and i and isinstance(i[0], str) and is_other(i, other) for i in t[1:])
    if t[0] == 'call' and 'pointer_cast' in t[1]:
        return any(is_other(a, other) for a in t[3])
    return False


def is_cast(t, other):
    t = strip(t)
    if t[0] == 'nonnull':
        t = strip(t[1])
    return (t[0] == 'dyn' or (t[0] == 'call' and 'pointer_cast' in t[1])) and is_other(t, other)


class Rows:
    def __init__(self, prog, fn, policy):
        self.g = Graph(prog, fn, policy)
        self.other = self.g.params[0]
        self.eps = self.g.params[1] if len(self.g.params) > 1 else None
        self.unlike = []

    def fact(self, c, v):
        """What an answer says: ('kind', truth), ('set', side, path, truth) or ('match', path, truth)"""
        while c[0] == 'not':
            c, v = c[1], not v
        if is_cast(c, self.other):
            return 'kind', v
        if c[0] == 'bin' and c[1] == '==' and any(strip(x) in (('null',), ('const', 0), ('nullptr',)) for x in c[2:4]):
            x = c[2] if strip(c[3])[0] in ('null', 'const', 'nullptr') else c[3]
            if is_cast(x, self.other):
                return 'kind', not v
        if c[0] == 'nonnull':
            s = side(c[1], self.other)
            if s:
                return 'set', s[0], s[1], v
        if c[0] == 'mem' or (c[0] == 'cast' and strip(c)[0] == 'mem'):
            s = side(c, self.other)
            if s:
                return 'set', s[0], s[1], v
        if c[0] == 'bin' and c[1] in ('>', '>=', '<', '<='):
            for x, e, up in ((c[2], c[3], c[1] in ('>', '>=')), (c[3], c[2], c[1] in ('<', '<='))):
                x = strip(x)
                if strip(e) == self.eps and x[0] == 'call' and x[1].split('::')[-1] in ('fabs', 'abs', 'fabsf') and len(x[3]) == 1:
                    d = strip(x[3][0])
                    if d[0] == 'bin' and d[1] in ('+', '-'):
                        a, b = side(d[2], self.other), side(d[3], self.other)
                        if a and b:
                            if d[1] == '+' or a[1] != b[1] or a[0] == b[0]:
                                self.unlike.append(show(d))
                                return 'wrong', show(d)
                            return 'match', a[1], v != up
        if c[0] == 'bin' and c[1] == '==':
            a, b = side(c[2], self.other), side(c[3], self.other)
            if a and b:
                if a[0] == b[0] or a[1] != b[1]:
                    self.unlike.append(show(c))
                    return 'wrong', show(c)
                return 'match', a[1], v
        if c[0] == 'call' and c[1].split('::')[-1] == 'about_equal' and c[2] is not None and c[3]:
            a, b = side(c[2], self.other), side(c[3][0], self.other)
            if a and b:
                if a[0] == b[0] or a[1] != b[1]:
                    self.unlike.append(show(c))
                    return 'wrong', show(c)
                if len(c[3]) > 1 and strip(c[3][1]) != self.eps:
                    raise Unknown(show(c))
                return 'match', a[1], v
        raise Unknown('the condition %s' % show(c)[:200])

    def run(self):
        """[(facts, result)]"""
        rows = table(lambda d: LoopEval(self.g, None, {}, decide=d).run(), limit=40)
        if rows is None:
            raise Unknown('too many conditions')
        out = []
        for d, e in rows:
            if not e.complete or e.unknown:
                raise Unknown('not evaluated')
            for r in e.returns:
                base = [self.fact(c, v) for c, v in d.items()]
                if r in (T, F) or r[0] == 'const':
                    out.append((base, r == T or (r[0] == 'const' and bool(r[1]))))
                    continue
                probe = LoopEval(self.g, None, {})
                c, pol = probe.canon(r)
                for v in (True, False):
                    out.append((base + [self.fact(c, v)], v == pol))
        return out


def judge(rows, parts, kind):
    """(row, what is wrong) for each wrong row; parts: paths, with those whose owner may be unset"""
    bad = []
    for facts, res in rows:
        if any(f[0] == 'wrong' for f in facts):
            continue
        match, set_, known_kind = {}, {}, None
        clash = False
        for f in facts:
            if f[0] == 'kind':
                clash |= known_kind not in (None, f[1])
                known_kind = f[1]
            elif f[0] == 'set':
                clash |= set_.get((f[1], f[2]), f[3]) != f[3]
                set_[f[1], f[2]] = f[3]
            else:
                clash |= match.get(f[1], f[2]) != f[2]
                match[f[1]] = f[2]
        if clash:
            continue
        state = []
        if kind:
            state.append((('the kind of object',), known_kind))
        for p in parts:
            s = None
            owner = [q for q in (p[:i] for i in range(1, len(p) + 1)) if ('a', q) in set_ or ('b', q) in set_]
            for q in owner:
                a, b = set_.get(('a', q)), set_.get(('b', q))
                if a is False and b is False:
                    s = True
                elif a is not None and b is not None and a != b:
                    s = False
            if s is None and p in match:
                s = match[p]
            state.append((p, s))
        if res:
            for p, s in state:
                if s is not True:
                    bad.append((facts, 'says "equal" where %s %s' % ('.'.join(p), 'differs' if s is False else 'has not been looked at')))
        elif all(s is not False for p, s in state):
            bad.append((facts, 'says "not equal" where no part is known to differ'))
    return bad
