"""Building the extractor, running it over /repo's current source and loading its output.

The extractor (tool/extract.cc) is a clang libTooling program which dumps the
type-checked syntax tree of everything defined below /repo.  Results are cached
by the content of the source, of the project headers it reaches and of the tool,
so that a check only parses what changed since the cache was filled."""

import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(HERE, '.cache'))
SRC = os.path.join(REPO, 'src')
TOOLS = os.path.join(REPO, 'tools')

DEFINES = [
    '-std=c++11', '-w', '-D_FILE_OFFSET_BITS=64', '-D__STDC_FORMAT_MACROS', '-DLIBDCP_VERSION="devel"', '-DLIBDCP_LINUX',
    '-DLIBDCP_MPEG2_TRANSCODE', '-DLIBDCP_HAVE_NO_CHECK_TIME=1', '-DLIBDCP_HAVE_WEAKLY_CANONICAL=1',
    '-DLIBDCP_HAVE_COPY_OPTIONS=1', '-DLIBDCP_HAVE_REPLACE_EXTENSION=1', '-DLIBDCP_HAVE_HARU=1', '-pthread',
]
PKGS = ['openssl', 'libxml++-2.6', 'xmlsec1-openssl', 'sndfile', 'libopenjp2', 'xerces-c', 'fmt', 'libavcodec', 'libavutil']


class AnalysisBroken(Exception):
    """The analysis could not be carried out: neither a pass nor a violation"""


def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


_pkg_cflags = None


def flags():
    global _pkg_cflags
    if _pkg_cflags is None:
        out = subprocess.run(['pkg-config', '--cflags'] + PKGS, stdout=subprocess.PIPE, check=True).stdout.decode()
        _pkg_cflags = out.split()
    # -D__XMLSEC_FUNCTION__ and friends may carry shell escapes
    pkg = [i.replace('\\"', '"') for i in _pkg_cflags]
    return DEFINES + ['-I' + os.path.join(HERE, 'stubs'), '-I' + SRC] + pkg


def stub_hash():
    parts = []
    for base, dirs, files in os.walk(os.path.join(HERE, 'stubs')):
        dirs.sort()
        for f in sorted(files):
            parts.append(os.path.join(base, f)[len(HERE):])
            parts.append(_read(os.path.join(base, f)))
    return _sha(*parts)


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken('%s failed: %s' % (what, r.stdout.decode(errors='replace')[-2000:]))


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    h = _sha(_read(os.path.join(HERE, 'tool', 'extract.cc')), _read(os.path.join(HERE, 'tool', 'build.sh')))[:16]
    exe = os.path.join(CACHE, 'extract-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        _run(['bash', os.path.join(HERE, 'tool', 'build.sh'), tmp], 'building the extractor')
        os.rename(tmp, exe)
    return exe, h


def build_pch():
    os.makedirs(CACHE, exist_ok=True)
    h = _sha(stub_hash(), ' '.join(flags()))[:16]
    pch = os.path.join(CACHE, 'all-' + h + '.pch')
    if not os.path.exists(pch):
        tmp = pch + '.%d' % os.getpid()
        _run(['clang++-18', '-x', 'c++-header'] + flags() + [os.path.join(HERE, 'stubs', 'all.h'), '-o', tmp], 'precompiling headers')
        os.rename(tmp, pch)
    return pch


_inc_re = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^">]+)[">]', re.M)


class Deps:
    def __init__(self):
        self.direct = {}

    def _direct(self, path):
        if path not in self.direct:
            found = []
            for m in _inc_re.finditer(_read(path)):
                name = m.group(1).decode(errors='replace')
                name = name[4:] if name.startswith('dcp/') else name
                for d in (os.path.dirname(path), SRC):
                    p = os.path.normpath(os.path.join(d, name))
                    if os.path.exists(p) and p.startswith(REPO + '/'):
                        found.append(p)
                        break
            self.direct[path] = found
        return self.direct[path]

    def closure(self, path):
        seen = set()
        todo = [path]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            todo += self._direct(p)
        return sorted(seen)


def library_sources():
    """Translation units of the library: those in src/ not included textually by another one"""
    all_ = sorted(f for f in os.listdir(SRC) if f.endswith('.cc'))
    included = set()
    for f in all_:
        for m in _inc_re.finditer(_read(os.path.join(SRC, f))):
            n = m.group(1).decode(errors='replace')
            if n.endswith('.cc'):
                included.add(os.path.basename(n))
    # present in the tree, but not part of the library's source list and included by nobody
    try:
        listed = set(re.findall(r'[\w.]+\.cc', _read(os.path.join(SRC, 'wscript')).decode()))
    except OSError:
        listed = set(all_)
    return [os.path.join(SRC, f) for f in all_ if f not in included and (f in listed or not f.endswith('_common.cc'))]


def tool_sources():
    if not os.path.isdir(TOOLS):
        return []
    # dcpdumpimage needs GraphicsMagick, which the build does not provide here
    return [os.path.join(TOOLS, f) for f in sorted(os.listdir(TOOLS)) if f.endswith('.cc') and f != 'dcpdumpimage.cc']


def extract(sources):
    """Return {source: json file}"""
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_tool)
        b = ex.submit(build_pch)
        exe, tool_h = a.result()
        pch = b.result()
    deps = Deps()
    base = _sha(tool_h, pch, REPO, ' '.join(flags()))
    jobs = []
    result = {}
    out_dir = os.path.join(CACHE, 'tu')
    os.makedirs(out_dir, exist_ok=True)
    for s in sources:
        if not os.path.exists(s):
            raise AnalysisBroken('source %s is missing' % s)
        parts = [base, s]
        for d in deps.closure(s):
            parts.append(d)
            parts.append(_read(d))
        out = os.path.join(out_dir, os.path.basename(s) + '-' + _sha(*parts) + '.json')
        result[s] = out
        if not os.path.exists(out):
            jobs.append((s, out))

    def one(job):
        s, out = job
        tmp = out + '.%d' % os.getpid()
        cmd = [exe, REPO + '/', tmp, s, '--'] + flags() + ['-include-pch', pch, '-ferror-limit=0']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(tmp):
            raise AnalysisBroken('cannot parse %s: %s' % (s, r.stdout.decode(errors='replace')[-2000:]))
        if r.returncode != 0:
            with open(tmp + '.err', 'wb') as f:
                f.write(r.stdout)
            os.rename(tmp + '.err', out + '.err')
        os.rename(tmp, out)

    # big ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for _ in ex.map(one, jobs):
            pass
    return result


class Func:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d['key']
        self.q = d['q']
        self.name = d['n']
        self.file = rel(d['file'])
        self.line = d['l']
        self.kind = d['kind']
        self.cls = d.get('cls')
        self.params = d['params']
        self.body = d.get('body')
        self.inits = d.get('inits', [])

    def type(self, t):
        return self.tu.types[t] if t is not None and t >= 0 else ''

    @property
    def ret(self):
        return self.type(self.d['ret'])

    def where(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<Func %s>' % self.key


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


class TU:
    def __init__(self, source, d):
        self.source = source
        self.types = d['types']
        self.errors = d['errors']


class Program:
    def __init__(self, sources):
        self.functions = {}
        self.by_q = {}
        self.records = {}
        self.record_by_t = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.errors = []
        files = extract(sources)
        for s in sources:
            with open(files[s]) as f:
                d = json.load(f)
            tu = TU(rel(s), d)
            self.tus.append(tu)
            if tu.errors:
                msg = ''
                try:
                    msg = _read(files[s] + '.err').decode(errors='replace')
                except OSError:
                    pass
                self.errors.append((tu.source, tu.errors, msg))
            for fd in d['functions'] + d['functions2']:
                if fd['key'] in self.functions:
                    continue
                fn = Func(fd, tu)
                self.functions[fn.key] = fn
                self.by_q.setdefault(fn.q, []).append(fn)
            for r in d['records']:
                if r['t'] not in self.record_by_t:
                    r['tu'] = tu
                    r['file'] = rel(r['file'])
                    for fld in r['fields']:
                        fld['type'] = tu.types[fld['t']]
                    self.record_by_t[r['t']] = r
                    self.records.setdefault(r['q'], r)
            for e in d['enums']:
                e['file'] = rel(e['file'])
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                g['tu'] = tu
                g['file'] = rel(g['file'])
                self.globals.setdefault(g['q'], g)
        self._over = None
        self._sub = None

    def get(self, q, pred=None):
        """Functions with qualified name q"""
        return [f for f in self.by_q.get(q, []) if pred is None or pred(f)]

    def one(self, q, pred=None):
        fs = self.get(q, pred)
        if not fs:
            raise AnalysisBroken('function %s not found' % q)
        return fs[0]

    def record(self, q, missing_ok=False):
        if q not in self.records:
            if missing_ok:
                return None
            raise AnalysisBroken('class %s not found' % q)
        return self.records[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisBroken('enumeration %s not found' % q)
        return self.enums[q]

    def bases(self, q):
        """All base classes of q, transitively, q first"""
        out = []
        todo = [q]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo += r['bases']
        return out

    def derived(self, q):
        return [c for c in self.records if q in self.bases(c)]

    def all_fields(self, q):
        out = []
        for c in self.bases(q):
            r = self.records.get(c)
            if r:
                for f in r['fields']:
                    out.append((c, f))
        return out

    def global_term(self, q):
        """The value term of a namespace-scope constant, or None"""
        if not hasattr(self, '_gterms'):
            self._gterms = {}
        if q in self._gterms:
            return self._gterms[q]
        self._gterms[q] = None
        g = self.globals.get(q)
        if g is None or g.get('x') is None:
            return None
        import cfg
        import absint
        fd = dict(key='init of ' + q, q=q, n=q, file=os.path.join(REPO, g['file']), l=g['l'], kind='func', params=[],
                  body={'s': 'return', 'x': g['x'], 'l': g['l']}, ret=g['t'])
        graph = cfg.Graph(self, Func(fd, g['tu']))
        e = absint.Eval(graph).run()
        if len(e.returns) == 1:
            self._gterms[q] = next(iter(e.returns))
        return self._gterms[q]

    def overriders(self, key):
        if self._over is None:
            self._over = {}
            for f in self.functions.values():
                for o in f.d.get('over', []):
                    self._over.setdefault(o, []).append(f.key)
        out = []
        todo = [key]
        while todo:
            k = todo.pop()
            for i in self._over.get(k, []):
                if i not in out:
                    out.append(i)
                    todo.append(i)
        return out


def src(*names):
    return [os.path.join(SRC, n) for n in names]


def load(names=None, tools=False):
    if names is None:
        s = library_sources()
    else:
        s = src(*names)
    if tools:
        s = s + tool_sources()
    return Program(s)


def walk(x):
    """Every dict node of a dumped tree, preorder"""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            stack.extend(reversed([v for v in n.values() if isinstance(v, (dict, list))]))
        elif isinstance(n, list):
            stack.extend(reversed(n))


if __name__ == '__main__':
    import time
    t = time.time()
    p = load(tools=True)
    print('%d functions, %d records, %d enums, errors %r, %.1fs' % (len(p.functions), len(p.records), len(p.enums), [e[:2] for e in p.errors], time.time() - t))
