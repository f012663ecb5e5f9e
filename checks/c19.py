"""C19: numbers in documents and names do not depend on the locale of the program"""

import re

from ir import walk

EXPLANATION = (
    'Every place of the library at which a number becomes text or text becomes a number is found by the function that is called (resolved, with the types of its arguments), and judged by what that function does in another locale: '
    'printf and scanf are fixed for integers but not for floating point, streams and lexical_cast group digits and use the decimal point of the global locale unless they are given the classic one, fmt is fixed unless told otherwise by L. '
    'A place whose text can only reach an exception, a message or a stream that the caller gave is not of concern.')

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vsnprintf': 2, 'asprintf': 1, '__mingw_snprintf': 2}
SCANF = {'scanf': 0, 'fscanf': 1, 'sscanf': 1}
# conversions which use the decimal point of the C locale
C_WRITE = {'ecvt', 'fcvt', 'gcvt'}
C_READ = {'strtod', 'strtof', 'strtold', 'atof', 'stod', 'stof', 'stold', 'wcstod'}
C_FIXED = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'stoi', 'stol', 'stoul', 'stoll', 'stoull'}
SPEC = re.compile(r"%(?P<flags>[-+ #0']*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?(?P<mod>hh|h|ll|l|j|z|t|L)?(?P<conv>[diouxXeEfFgGaAcspn%\[])")
FMT = re.compile(r'\{[^{}:]*:(?P<spec>[^{}]*)\}')
STREAMS = ('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_stringstream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream')


def strip(x):
    while isinstance(x, dict) and x.get('e') in ('cast', 'icast', 'defarg', 'paren'):
        x = x['x']
    return x


def floating(t):
    t = re.sub(r'\b(const|volatile)\b|&', '', t).strip()
    return t in ('float', 'double', 'long double')


def number(t):
    t = re.sub(r'\b(const|volatile)\b|&', '', t).strip()
    return t in ('int', 'unsigned int', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'unsigned', '__int128', 'unsigned __int128')


def literal(f, x):
    """The literals that an expression can be, or None"""
    x = strip(x)
    if not isinstance(x, dict):
        return None
    if x.get('e') == 'str':
        return [x['s']]
    if x.get('e') == 'cond':
        a, b = literal(f, x['x']), literal(f, x['y'])
        return a + b if a is not None and b is not None else None
    if x.get('e') == 'ctor' and len(x.get('a', [])) >= 1:
        return literal(f, x['a'][0])
    if x.get('e') == 'var':
        out = []
        for d in walk(f.body):
            if d.get('s') == 'decl' and d.get('id') == x.get('id') and d.get('x') is not None:
                v = literal(f, d['x'])
                if v is None:
                    return None
                out += v
            if d.get('e') == 'asg' and strip(d['x']).get('e') == 'var' and strip(d['x']).get('id') == x.get('id'):
                v = literal(f, d['y'])
                if v is None:
                    return None
                out += v
            if d.get('e') == 'call' and any(strip(a).get('id') == x.get('id') and strip(a).get('e') == 'var' for a in d.get('a', [])[:1] if isinstance(strip(a), dict)):
                if d.get('m') in PRINTF:
                    v = literal(f, d['a'][PRINTF[d['m']]]) if len(d['a']) > PRINTF[d['m']] else None
                    if v is None:
                        return None
                    out += [w.replace('%%', '%').replace('%d', '1') for w in v]
        return out or None
    return None


def root(x):
    """The object on which a chain of << or >> works"""
    x = strip(x)
    while isinstance(x, dict):
        if x.get('e') == 'call' and x.get('op') in ('<<', '>>'):
            x = strip(x['o'] if x.get('o') is not None else x['a'][0])
        elif x.get('e') == 'un' and x.get('op') == '*':
            x = strip(x['x'])
        else:
            break
    return x


class Messages:
    """Which expressions of a function can only reach messages"""

    def __init__(self, f):
        self.f = f
        self.parent = {}
        stack = [(f.body, None)]
        while stack:
            x, p = stack.pop()
            if isinstance(x, list):
                stack += [(y, p) for y in x]
            elif isinstance(x, dict):
                self.parent[id(x)] = p
                for k, y in x.items():
                    if isinstance(y, (dict, list)):
                        stack.append((y, x))

    def direct(self, x):
        while x is not None:
            if x.get('e') == 'throw':
                return True
            if x.get('e') == 'ctor' and (x.get('cls') or '').split('::')[-1].endswith(('Error', 'Exception', 'VerificationNote')):
                return True
            if x.get('e') == 'call' and (x.get('q') in ('boost::function2::operator()', 'std::function::operator()') or x.get('m') in ('set_error', 'throw_exception', 'perror', 'log')):
                return True
            x = self.parent.get(id(x))
        return False

    def only(self, x):
        if self.direct(x):
            return True
        # the variable that holds the text
        p = x
        while p is not None and p.get('s') != 'decl' and not (p.get('e') == 'asg'):
            if p.get('s') in ('return', 'if', 'for', 'while', 'block'):
                return False
            p = self.parent.get(id(p))
        if p is None:
            return False
        v = p.get('id') if p.get('s') == 'decl' else (strip(p['x']).get('id') if strip(p['x']).get('e') == 'var' else None)
        if v is None:
            return False
        uses = [y for y in walk(self.f.body) if y.get('e') == 'var' and y.get('id') == v and self.parent.get(id(y)) is not p]
        return bool(uses) and all(self.direct(y) for y in uses)


def check(ctx, prog):
    ctx.rule('write', 'text that holds a number is the same in every locale', 60)
    ctx.rule('read', 'text that holds a number is read in the same way in every locale', 30)
    ctx.rule('program', 'the library leaves the locale of the program alone', 1)

    if not prog.functions:
        raise __import__('ir').AnalysisBroken('no functions')
    seen = []
    changed = []
    for f in prog.functions.values():
        if f.body is None or not f.file.startswith('src/') or '/locale_convert' in '/' + f.file or f.file.endswith('compose.hpp'):
            continue
        seen.append(f)
        own = set(p.get('id') for p in f.params if 'basic_ostream' in f.type(p['t']) or 'basic_istream' in f.type(p['t']) or 'std::ostream' in f.type(p['t']))
        messages = None
        types = lambda x: f.type(x['t']) if isinstance(x, dict) and x.get('t') is not None else ''

        def judge(rule, x, bad, how):
            nonlocal messages
            if bad:
                messages = messages or Messages(f)
                if messages.only(x):
                    bad = False
            what = '%s in %s line %s' % (x.get('m'), f.q, x.get('l'))
            ctx.expect(not bad, rule, f.file, x.get('l') or f.line, f.q, how, 'locale:%s:%s' % (f.q, x.get('m')), what)

        for x in walk(f.body):
            if x.get('e') == 'call':
                m, q, a = x.get('m'), x.get('q') or '', x.get('a', [])
                library = q == m or q.startswith(('std::', 'boost::', 'fmt::', 'Glib::')) or q.startswith('__')
                if m in PRINTF and library and len(a) > PRINTF[m]:
                    if m == 'fprintf' or m == 'printf':
                        continue
                    fs = literal(f, a[PRINTF[m]])
                    if fs is None:
                        ctx.skip('write', 'format of %s in %s is not a literal' % (m, f.q))
                        continue
                    bad = [s for s in fs if any(c['conv'] in 'eEfFgGaA' or "'" in c['flags'] for c in map(re.Match.groupdict, SPEC.finditer(s)))]
                    judge('write', x, bad, '%s writes "%s", of which the decimal point or grouping is that of the locale' % (m, bad[0] if bad else ''))
                elif m in SCANF and library and len(a) > SCANF[m]:
                    fs = literal(f, a[SCANF[m]])
                    if fs is None:
                        ctx.skip('read', 'format of %s in %s is not a literal' % (m, f.q))
                        continue
                    bad = [s for s in fs if any(c['conv'] in 'eEfFgGaA' or "'" in c['flags'] for c in map(re.Match.groupdict, SPEC.finditer(s)))]
                    judge('read', x, bad, '%s reads "%s", of which the decimal point is that of the locale' % (m, bad[0] if bad else ''))
                elif m in C_READ and library:
                    judge('read', x, True, '%s takes the decimal point of the locale' % m)
                elif m in C_WRITE and library:
                    judge('write', x, True, '%s uses the decimal point of the locale' % m)
                elif m in C_FIXED and library:
                    judge('read', x, False, '')
                elif q == 'std::to_string' or q == 'std::__cxx11::to_string':
                    judge('write', x, a and floating(types(strip(a[0]))) or '(float' in x.get('fn', '') or '(double' in x.get('fn', '') or '(long double' in x.get('fn', ''),
                          'std::to_string of a floating point number uses the decimal point of the locale')
                elif q in ('fmt::to_string', 'fmt::format', 'fmt::format_to', 'fmt::format_to_n'):
                    bad = 'std::locale' in ' '.join(types(y) for y in a[:2])
                    for y in a[:2]:
                        for s in literal(f, y) or []:
                            if any('L' in s['spec'] for s in map(re.Match.groupdict, FMT.finditer(s))):
                                bad = True
                    judge('write', x, bad, '%s is told to use the locale' % q)
                elif q == 'dcp::raw_convert':
                    judge('read', x, False, '')
                elif q == 'dcp::locale_convert':
                    to, src = types(x), types(strip(a[0])) if a else ''
                    t = re.match(r'dcp::locale_convert<(.*)', x.get('fn', ''))
                    inst = t.group(1) if t else ''
                    if floating(to) or inst.startswith(('float', 'double')):
                        judge('read', x, True, 'locale_convert reads a floating point number with the decimal point of the locale')
                    elif a and floating(src):
                        judge('write', x, True, 'locale_convert writes a floating point number with the decimal point of the locale')
                    else:
                        judge('write', x, False, '')
                elif q in ('dcp::String::compose', 'String::compose'):
                    bad = any(floating(types(strip(y))) for y in a[1:])
                    judge('write', x, bad, 'String::compose writes a floating point number with the decimal point of the locale')
                elif q in ('boost::lexical_cast', 'boost::conversion::try_lexical_convert'):
                    to, src = types(x), types(strip(a[0])) if a else ''
                    if floating(to):
                        judge('read', x, True, 'lexical_cast reads a floating point number as the locale has it')
                    elif number(src) and 'string' in to:
                        judge('write', x, True, 'lexical_cast writes a number with the grouping and decimal point of the locale')
                    else:
                        judge('read' if 'string' in src or 'char' in src else 'write', x, False, '')
                elif q in ('std::basic_ostream::operator<<', 'std::basic_istream::operator>>', 'std::basic_ostream::_M_insert'):
                    t = re.search(r'operator(?:<<|>>)\((.*)\)', x.get('fn', ''))
                    if not t or not number(t.group(1)):
                        continue
                    r = root(x)
                    if isinstance(r, dict) and r.get('e') == 'var' and r.get('id') in own:
                        continue
                    if isinstance(r, dict) and r.get('q') in ('std::cout', 'std::cerr', 'std::clog') or (isinstance(r, dict) and r.get('n') in ('cout', 'cerr', 'clog')):
                        continue
                    classic = False
                    if isinstance(r, dict) and r.get('e') in ('var', 'mem'):
                        for y in walk(f.body):
                            if y.get('m') == 'imbue' and isinstance(strip(y.get('o')), dict) and strip(y['o']).get('id') == r.get('id') and strip(y['o']).get('f') == r.get('f'):
                                if any(z.get('q') == 'std::locale::classic' for z in walk(y)) or any(z.get('e') == 'str' and z.get('s') in ('C', 'POSIX') for z in walk(y)):
                                    classic = True
                    write = x.get('op') == '<<'
                    judge('write' if write else 'read', x, not classic, 'a stream %s a number as the locale of the program has it' % ('writes' if write else 'reads'))
                elif q in ('strftime', 'std::strftime', 'std::put_time', 'std::get_time'):
                    fs = [s for y in a for s in literal(f, y) or []]
                    bad = any(re.search(r'%[EO]?[cxXpAaBbhr]', s) for s in fs)
                    judge('write', x, bad, '%s writes a date as the locale has it' % m)
                elif q in ('setlocale', 'std::setlocale', 'uselocale', 'std::locale::global'):
                    if m == 'setlocale' and len(a) > 1 and (strip(a[1]).get('e') in ('null',) or strip(a[1]).get('cv') == 0):
                        continue
                    changed.append((f, x))
    ctx.functions(seen)
    ctx.expect(not changed, 'program', changed[0][0].file if changed else 'src', changed[0][1].get('l') if changed else 0, changed[0][0].q if changed else '',
               'the locale of the whole program is changed' , 'locale:global', 'no function changes the locale of the program')
