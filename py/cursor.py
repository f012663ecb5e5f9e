"""Shape analysis with pointers into buffers: which byte of which buffer holds which byte of what

Values: ('ptr', buffer, offset); ('addr', place); ('byte', source, index). What a buffer holds is kept in the heap under (buffer, offset)."""

import shape
from shape import ANY, const, obj, strip


class Cursor(shape.Shape):
    def __init__(self, *args, **kw):
        shape.Shape.__init__(self, *args, **kw)
        self.sizes = {}
        # (function, expression, what): bytes beyond the end of a buffer
        self.beyond = []
        self.fresh = 0

    def buffer(self, name, size):
        self.fresh += 1
        b = '%s#%d' % (name, self.fresh)
        self.sizes[b] = size
        return ('ptr', b, 0)

    def s_decl(self, s, st, o):
        if s.get('alen') and s.get('x') is None:
            st.vars[(self.f.tu, s.get('id'))] = self.buffer(s.get('n'), s['alen'])
            o.normal = st
            return o
        return shape.Shape.s_decl(self, s, st, o)

    def e_new(self, x, st):
        v = self.model.call(self, st, x, None, [])
        return self.buffer('new', None) if v is None else v

    def load(self, p, st):
        if p[0] == 'addr':
            if p[1][0] == 'var':
                return st.vars.get(p[1][1], ANY)
            if p[1][0] == 'heap':
                return st.heap.get(p[1][1], ANY)
            return ANY
        if p[0] == 'ptr':
            if not isinstance(p[2], int):
                return ANY
            return st.heap.get((p[1], p[2]), ('byte', p[1], p[2]))
        return None

    def put(self, p, v, st, x=None):
        if p[0] == 'addr':
            if p[1][0] == 'var':
                st.vars[p[1][1]] = v
            elif p[1][0] == 'heap':
                st.heap[p[1][1]] = v
        elif p[0] == 'ptr' and isinstance(p[2], int):
            size = self.sizes.get(p[1])
            if size is not None and not 0 <= p[2] < size:
                self.beyond.append((self.f, x, p))
            st.heap[(p[1], p[2])] = v
        elif p == ANY or p[0] == 'ptr':
            raise shape.Unknown('written through a pointer that is not known')

    def e_un(self, x, st):
        op = x.get('op')
        if op == '&':
            y = strip(x['x'])
            if y.get('e') == 'idx':
                b, i = self.ev(y['b'], st), self.ev(y['i'], st)
                if b[0] == 'ptr' and i[0] == 'const':
                    return ('ptr', b[1], b[2] + i[1])
                return ANY
            if y.get('e') == 'un' and y.get('op') == '*':
                return self.ev(y['x'], st)
            v = self.ev(x['x'], st)
            if v[0] in ('ptr', 'const') and y.get('e') in ('var', 'mem'):
                return ('addr', self.place(y, st))
            return v
        if op == '*':
            p = self.ev(x['x'], st)
            v = self.load(p, st)
            return p if v is None else v
        if op in ('++', '--', 'p++', 'p--', 'post++', 'post--', '++post', '--post'):
            v = self.ev(x['x'], st)
            if v[0] == 'ptr':
                n = ('ptr', v[1], v[2] + (1 if '+' in op else -1))
                self.store(x['x'], n, st)
                return v if 'post' in op or op.startswith('p') else n
            if v[0] == 'const' and isinstance(v[1], int) and 'post' in op:
                self.store(x['x'], const(v[1] + (1 if '+' in op else -1)), st)
                return v
        return shape.Shape.e_un(self, x, st)

    def e_idx(self, x, st):
        b, i = self.ev(x['b'], st), self.ev(x['i'], st)
        if b[0] == 'ptr' and i[0] == 'const':
            return self.load(('ptr', b[1], b[2] + i[1]), st)
        return ANY

    def compare(self, op, v, w):
        if op == '+' and v[0] == 'const' and w[0] == 'ptr':
            v, w = w, v
        if v[0] == 'ptr' and w[0] == 'const' and op in ('+', '-') and isinstance(w[1], int):
            return ('ptr', v[1], v[2] + (w[1] if op == '+' else -w[1]))
        if v[0] == 'ptr' and w[0] == 'ptr' and v[1] == w[1]:
            if op == '-':
                return const(v[2] - w[2])
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return shape.Shape.compare(self, op, const(v[2]), const(w[2]))
        if v[0] == 'ptr' and w[0] == 'null' or v[0] == 'null' and w[0] == 'ptr':
            return const(op == '!=') if op in ('==', '!=') else ANY
        if op in ('/', '%') and v[0] == 'const' and w[0] == 'const' and isinstance(v[1], int) and isinstance(w[1], int) and w[1] > 0 and v[1] >= 0:
            return const(v[1] // w[1] if op == '/' else v[1] % w[1])
        return shape.Shape.compare(self, op, v, w)

    def store(self, t, v, st):
        t = strip(t)
        if isinstance(t, dict) and t.get('e') == 'un' and t.get('op') == '*':
            self.put(self.ev(t['x'], st), v, st, t)
        elif isinstance(t, dict) and t.get('e') == 'idx':
            b, i = self.ev(t['b'], st), self.ev(t['i'], st)
            if b[0] == 'ptr' and i[0] == 'const':
                self.put(('ptr', b[1], b[2] + i[1]), v, st, t)
            elif b[0] == 'ptr':
                raise shape.Unknown('place in a buffer not known')
        else:
            shape.Shape.store(self, t, v, st)

    def copy(self, to, what, n, st, x):
        """memcpy: what is a pointer or something with bytes of its own"""
        if to[0] != 'ptr' or n[0] != 'const' or not isinstance(n[1], int) or n[1] > 100000:
            if to[0] == 'ptr':
                raise shape.Unknown('how much is copied is not known')
            return
        got = [self.load(('ptr', what[1], what[2] + i), st) if what[0] == 'ptr' else (('byte', what[1], i) if what[0] in ('obj', 'const') else ANY) for i in range(n[1])]
        for i, b in enumerate(got):
            self.put(('ptr', to[1], to[2] + i), b, st, x)

    def e_call(self, x, st):
        q = x.get('q') or ''
        if q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove') and len(x.get('a', [])) == 3:
            a = [self.ev(y, st) for y in x['a']]
            self.copy(a[0], a[1], a[2], st, x)
            return a[0]
        if q in ('std::copy_n',) and len(x.get('a', [])) == 3:
            a = [self.ev(y, st) for y in x['a']]
            self.copy(a[2], a[0], a[1], st, x)
            return ('ptr', a[2][1], a[2][2] + a[1][1]) if a[2][0] == 'ptr' and a[1][0] == 'const' else ANY
        if q == 'std::copy' and len(x.get('a', [])) == 3:
            a = [self.ev(y, st) for y in x['a']]
            if a[0][0] == 'ptr' and a[1][0] == 'ptr' and a[2][0] == 'ptr' and a[0][1] == a[1][1]:
                n = a[1][2] - a[0][2]
                self.copy(a[2], a[0], const(n), st, x)
                return ('ptr', a[2][1], a[2][2] + n)
        return shape.Shape.e_call(self, x, st)
