"""Run the check of one property: run.py ID

Exit status 0: the property holds on /repo's current source; 1: a violation was found (and
a VIOLATION line printed); anything else: the analysis could not be made."""

import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.setrecursionlimit(20000)

import ir    # noqa


class Context:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.rules = {}
        self.analysed = set()
        self.held = 0
        self.obligations = 0

    def rule(self, name, text, floor=0):
        """Declare a rule; floor is the least number of instances that must be found for the
        result to mean anything"""
        self.rules[name] = {'rule': text, 'instances': 0, 'held': 0, 'floor': floor}

    def ok(self, rule, what=None):
        r = self.rules[rule]
        r['instances'] += 1
        r['held'] += 1
        self.obligations += 1
        self.held += 1
        if what and len(r.setdefault('samples', [])) < 4:
            r['samples'].append(what)

    def violation(self, rule, file, line, function, message, key, what=None):
        """key identifies the construct independently of line numbers"""
        key = re.sub(r"\s+", "_", key)
        r = self.rules[rule]
        r['instances'] += 1
        self.obligations += 1
        for v in self.violations:
            if v['key'] == key and v['rule'] == rule:
                return
        self.violations.append(dict(property=self.pid, rule=rule, file=file, line=line, function=function, message=message, key=key))

    def expect(self, cond, rule, file, line, function, message, key, what=None):
        if cond:
            self.ok(rule, what or message_ok(function, key))
        else:
            self.violation(rule, file, line, function, message, key)
        return cond

    def skip(self, rule, what):
        """An instance whose shape the analysis does not understand: not claimed either way"""
        self.rules[rule].setdefault('undecided', [])
        if what not in self.rules[rule]['undecided']:
            self.rules[rule]['undecided'].append(what)

    def attempt(self, rule, what, fn):
        """Run the analysis of one construct; one that is not understood is not claimed either way"""
        try:
            return fn()
        except ir.AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.skip(rule, '%s: %s: %s' % (what, type(e).__name__, str(e)[:200]))

    def functions(self, fs):
        for f in fs:
            self.analysed.add(f.key if hasattr(f, 'key') else f)


def message_ok(function, key):
    return '%s: %s' % (function, key)


def known_findings(pid):
    """Lines "open: property=<id> rule=<rule> key=<key> <what fails>" of known_findings.txt (a key has no spaces; see
    VERIF_KEYS).  The lines starting "fixed:" record defects that have been repaired and have no effect here."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'open: property=(\S+) rule=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == pid:
                    out[(m.group(2), m.group(3))] = dict(key=m.group(3), what=m.group(4))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    start = time.time()
    mod = importlib.import_module(pid.lower())
    ctx = Context(pid)
    names = getattr(mod, 'SOURCES', None)
    prog = ir.load(names, tools=getattr(mod, 'TOOLS', False))
    t_load = time.time() - start
    mod.check(ctx, prog)

    known = known_findings(pid)
    fresh = []
    shown = []
    for v in ctx.violations:
        k = known.get((v['rule'], v['key']))
        if k is not None:
            shown.append((k, v))
        else:
            fresh.append(v)

    # a rule that matched nothing at all says nothing; that is an error of the check
    empty = [n for n, r in ctx.rules.items() if r['instances'] < max(1, r['floor'] // 3) and not any(i.get('undecided') for i in ctx.rules.values())]

    evidence = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(os.path.join(evidence, 'replay'), exist_ok=True)
    for v in fresh:
        h = hashlib.sha256((v['rule'] + v['key']).encode()).hexdigest()[:10]
        v['replay'] = os.path.join(evidence, 'replay', '%s-%s.json' % (pid, h))
        with open(v['replay'], 'w') as f:
            json.dump(dict(v, how='python3 /verif/py/run.py %s re-analyses the source and reports this construct for as long as it is there' % pid), f, indent=1)

    coverage = {
        'explanation': mod.EXPLANATION,
        'translation_units': len(prog.tus),
        'functions_in_program': len(prog.functions),
        'functions_analysed': len(ctx.analysed),
        'obligations': ctx.obligations,
        'obligations_held': ctx.held,
        'rules': ctx.rules,
        'known_findings': ['%s: %s' % (k['key'], k['what']) for k, v in shown],
        'parse_errors': [list(e[:2]) for e in prog.errors],
        'load_s': round(t_load, 2),
    }
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), coverage=coverage,
              wall_s=round(time.time() - start, 2), violations=len(fresh))
    tmp = os.path.join(evidence, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(evidence, pid + '.json'))

    for k, v in shown:
        print('KNOWN-FINDING: property=%s %s:%d %s' % (pid, v['file'], v['line'], k['what']))
    for v in fresh:
        print('%s:%d: in %s: [%s] %s' % (v['file'], v['line'], v['function'], v['rule'], v['message']))
        if os.environ.get('VERIF_KEYS'):
            print('   key: %s' % v['key'])
    for v in fresh:
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    if fresh:
        return 1
    if empty:
        print('%s: nothing found for rule(s) %s: the analysis no longer sees the code it is about' % (pid, ', '.join(empty)))
        return 3
    print('%s: held: %d obligations over %d functions (%.1fs)' % (pid, ctx.obligations, len(ctx.analysed), time.time() - start))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ir.AnalysisBroken as e:
        print('analysis not possible: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(4)
