"""Templates of the texts a function makes: a list of pieces
  ('lit', c)                  a literal character
  ('num', term, width, kind)  a number printed with (at least) width characters; kind is 'zero' if padded with zeros
  ('str', term)               a string of unknown length
"""

import re

CONV = re.compile(r'%(?P<flags>[-+ #0]*)(?P<width>\d+|\*)?(?:\.(?P<prec>\d+|\*))?(?P<len>hh|h|ll|l|j|z|t|L)?(?P<conv>[diouxXeEfFgGaAcspn%])')


def conversions(fmt):
    """Pieces of a printf or scanf format: strings and match objects"""
    out = []
    pos = 0
    for m in CONV.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        if m.group('conv') == '%':
            out.append('%')
        else:
            out.append(m)
        pos = m.end()
    if pos < len(fmt):
        out.append(fmt[pos:])
    return out


def template(t):
    """Pieces of the text t denotes, or None"""
    k = t[0]
    if k == 'str':
        return [('lit', c) for c in t[1]]
    if k == 'tmpl':
        return list(t[1:])
    if k == 'call' and t[2] is not None and t[1].endswith(('::c_str', '::str', '::string', '::data')):
        return template(t[2])
    if k == 'call' and t[1] == 'std::operator+' and t[2] is None and len(t[3]) == 2:
        return join(template(t[3][0]), template(t[3][1]))
    if k == 'bin' and t[1] == '+':
        return join(template(t[2]), template(t[3]))
    if k == 'append':
        return join(template(t[1]), template(t[3]))
    if k == 'mut' and t[1].endswith('::operator+=') and len(t[3]) == 1:
        return join(template(t[2]), template(t[3][0]))
    if k == 'out' and t[1].split('::')[-1] in ('snprintf', 'sprintf'):
        i = 2 if t[1].endswith('snprintf') else 1
        args = t[3]
        if len(args) <= i or args[i][0] != 'str':
            return None
        rest = list(args[i + 1:])
        out = []
        for p in conversions(args[i][1]):
            if isinstance(p, str):
                out += [('lit', c) for c in p]
                continue
            if not rest or p.group('width') == '*' or p.group('prec') == '*':
                return None
            a = rest.pop(0)
            if p.group('conv') == 's':
                s = template(a)
                out += s if s is not None else [('str', a)]
            elif p.group('conv') in 'diu':
                out.append(('num', a, int(p.group('width') or 0), 'zero' if '0' in p.group('flags') else 'space'))
            elif p.group('conv') == 'c':
                out.append(('lit', chr(a[1])) if a[0] == 'const' else ('str', a))
            else:
                out.append(('str', a))
        return out
    if k == 'const' and isinstance(t[1], int) and 32 <= t[1] < 127:
        return [('lit', chr(t[1]))]
    return [('str', t)]


def join(a, b):
    return None if a is None or b is None else a + b


def positions(pieces):
    """[(position, piece)], as far as positions are known"""
    out = []
    pos = 0
    for p in pieces:
        out.append((pos, p))
        if p[0] == 'lit':
            pos += 1
        elif p[0] == 'num' and p[2]:
            pos += p[2]
        else:
            break
    return out


def describe(pieces):
    from cfg import show
    return ''.join(p[1] if p[0] == 'lit' else '{%s}' % show(p[1]) for p in pieces)
