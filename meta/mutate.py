"""mutate.py FILE CHECK... [--lines A-B] [--max N]: how many small changes of src/FILE do the checks notice?

A development aid: for every small textual change of the file that still parses, runs the checks on a scratch copy and lists the changes
that no check reports."""

import os
import random
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('MUT_ROOT', '/tmp/mut')


def mutants(lines, lo, hi):
    out = []
    def put(i, new, what):
        if new != lines[i]:
            out.append((i, new, what))
    swaps = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), (' > ', ' < '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '),
             ('+=', '-='), ('-=', '+='), ('++', '--'), (' << ', ' >> '), (' >> ', ' << '), ('true', 'false'), ('false', 'true'), ('!', ''), (' % ', ' / '), ('min(', 'max('), ('max(', 'min('), (' & ', ' | '), (' | ', ' & '), (' ^ ', ' | ')]
    first = next((i for i, l in enumerate(lines) if l.startswith('#include')), 0)
    comment = False
    for i in range(lo, hi):
        l = lines[i]
        if '/*' in l and '*/' not in l:
            comment = True
        if '*/' in l:
            comment = False
        if comment or i < first:
            continue
        st = l.strip()
        if not st or st.startswith(('#', '//', '*', '/*', 'using', 'namespace', 'include')):
            continue
        for a, b in swaps:
            for m in re.finditer(re.escape(a), l):
                if a == '!' and l[m.end():m.end() + 1] == '=':
                    continue
                put(i, l[:m.start()] + b + l[m.end():], '%s->%s' % (a, b))
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w"])', l):
            v = int(m.group(1))
            for w in (v + 1, v - 1):
                put(i, l[:m.start()] + str(w) + l[m.end():], '%d->%d' % (v, w))
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)', l):
            put(i, l[:m.start()] + str(round(float(m.group(1)) * 1.01, 8)) + l[m.end():], 'float')
        if st.endswith(';') and not re.match(r'^(auto|int|bool|float|double|return|std::|string|char|struct|\w+ \w+ ?=|\w+ \w+;)', st) and '{' not in st:
            put(i, '', 'drop statement')
        if st.startswith('throw'):
            put(i, '', 'drop throw')
        m = re.match(r'^(\s*(?:else |\} else )?if \()(.*)(\) \{\s*)$', l)
        if m:
            put(i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'negate if')
            put(i, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3), 'if false')
            put(i, m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3), 'if true')
        m = re.match(r'^(.*\()([^(),]+), ([^(),]+)(\).*)$', l)
        if m:
            put(i, m.group(1) + m.group(3) + ', ' + m.group(2) + m.group(4), 'swap args')
        for m in re.finditer(r'"([^"]+)"', l):
            put(i, l[:m.start()] + '"' + m.group(1)[:-1] + '"' + l[m.end():], 'cut string')
        ids = [x for x in re.findall(r'\b[a-z_]\w*\b', l)]
        for a, b in (('hour', 'minute'), ('minute', 'hour'), ('month', 'day'), ('day', 'month'), ('_x', '_y'), ('width', 'height'), ('first', 'second'), ('from', 'to'), ('lower', 'upper'), ('.x', '.y'), ('.y', '.x'), ('begin', 'end'), ('black', 'white')):
            for m in re.finditer(re.escape(a), l):
                put(i, l[:m.start()] + b + l[m.end():], '%s->%s' % (a, b))
    return out


def work(job):
    n, f, lines, (i, new, what), checks, w = job
    d = '%s/%d' % (ROOT, w)
    p = '%s/repo/src/%s' % (d, f)
    t = list(lines)
    t[i] = new
    open(p, 'w').write('\n'.join(t))
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_CACHE=d + '/cache', VERIF_EVIDENCE=d + '/evidence')
    r = subprocess.run('g++ -std=c++17 -w -fsyntax-only -I %s/repo/src %s' % (d, p if f.endswith('.cc') else '-x c++ ' + p), shell=True, capture_output=True)
    if r.returncode and 'No such file' not in r.stderr.decode():
        return 'nocompile', None
    res = []
    for c in checks:
        r = subprocess.run(['python3', VERIF + '/py/run.py', c], env=env, capture_output=True, text=True)
        if r.returncode == 1:
            return 'caught', c
        if r.returncode != 0:
            res.append((r.stderr or r.stdout)[-200:])
    return ('error' if res else 'missed'), (res[0] if res else None)


def main():
    args = sys.argv[1:]
    lo = hi = None
    mx = None
    if '--lines' in args:
        k = args.index('--lines')
        lo, hi = [int(x) for x in args[k + 1].split('-')]
        del args[k:k + 2]
    if '--max' in args:
        k = args.index('--max')
        mx = int(args[k + 1])
        del args[k:k + 2]
    f, checks = args[0], args[1:]
    lines = open('/repo/src/' + f).read().split('\n')
    ms = mutants(lines, (lo or 1) - 1, min(hi or len(lines), len(lines)))
    if mx and len(ms) > mx:
        ms = random.Random(1).sample(ms, mx)
    shutil.rmtree(ROOT, ignore_errors=True)
    W = 8
    for w in range(W):
        os.makedirs('%s/%d' % (ROOT, w))
        subprocess.run(['cp', '-r', '/repo', '%s/%d/repo' % (ROOT, w)], check=True)
        subprocess.run(['cp', '-r', os.environ.get('VERIF_CACHE', VERIF + '/.cache'), '%s/%d/cache' % (ROOT, w)], check=False)
        os.makedirs('%s/%d/evidence' % (ROOT, w))
    import queue
    q = queue.Queue()
    for w in range(W):
        q.put(w)

    def one(k):
        w = q.get()
        try:
            return ms[k], work((k, f, lines, ms[k], checks, w))
        finally:
            q.put(w)
    stats = {}
    with cf.ThreadPoolExecutor(W) as ex:
        for (i, new, what), (r, info) in ex.map(one, range(len(ms))):
            stats[r] = stats.get(r, 0) + 1
            if r in ('missed', 'error'):
                print('%s:%d %s [%s] %s%s' % (f, i + 1, r, what, new.strip()[:110], '  -- ' + info.strip().split('\n')[-1][:100] if info else ''))
    print(stats)
    shutil.rmtree(ROOT, ignore_errors=True)


main()
