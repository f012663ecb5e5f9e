"""Writes DESIGN.md from the text below, the properties, the rules of the checks and the planted changes."""

import glob
import json
import os
import re

import props
from props import PROPS, VERIF

HEAD = open(os.path.join(VERIF, 'meta', 'design_head.md')).read()
TEXT = {}
for part in re.split(r'(?m)^## ', open(os.path.join(VERIF, 'meta', 'design_text.md')).read())[1:]:
    k, t = part.split('\n', 1)
    TEXT[k.strip()] = t.strip()
TAIL = open(os.path.join(VERIF, 'meta', 'design_tail.md')).read()


def rules(pid):
    s = open(os.path.join(VERIF, 'checks', pid.lower() + '.py')).read()
    out, seen = [], set()
    for m in re.finditer(r"ctx\.rule\('(\w+)', '([^']*)'", s):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            out.append((m.group(1), m.group(2)))
    return out


def main():
    seeds = {}
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        seeds.setdefault(m['property'], []).append((d.split('/')[-2], m))
    findings = [l.strip() for l in open(os.path.join(VERIF, 'known_findings.txt')) if re.match('(fixed|open):', l)]
    o = [HEAD.rstrip(), '', '## Properties that are decided', '']
    na = dict(props.NOT_APPLICABLE)
    for p in sorted(PROPS, key=lambda p: p['id']):
        if p['id'] in na:
            continue
        o += ['### %s: %s' % (p['id'], p['title']), '', p['statement'], '']
        if p['id'] in TEXT:
            o += [TEXT[p['id']], '']
        o += ['Rules (each instance is one obligation of the evidence):', '']
        o += ['* `%s`: %s' % r for r in rules(p['id'])] + ['']
        o += ['Why tests do not reach it: ' + p['why'], '', 'Bounds: ' + p['level_note'], '']
        if seeds.get(p['id']):
            o += ['Planted changes, all caught by this check: ' + ', '.join('`%s`' % s for s, m in seeds[p['id']]) + '.', '']
    o += ['## Properties that static analysis cannot decide', '']
    for p in sorted(PROPS, key=lambda p: p['id']):
        if p['id'] in na:
            o += ['* %s (%s): %s' % (p['id'], p['title'], na[p['id']])]
    o += ['', '## Planted changes', '', 'Each is under `seeded/` with a demonstration on the built library. All compile and pass the existing tests.', '', '| change | check | what it breaks | needs |', '|---|---|---|---|']
    for pid in sorted(seeds):
        for s, m in seeds[pid]:
            o.append('| %s | %s | %s | %s |' % (s, pid, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
    o += ['', '## Defects found in the unchanged tree', '', '(also in `known_findings.txt`)', '']
    for l in findings:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            o.append('* %s, repaired by %s: %s' % m.groups())
        else:
            o.append('* ' + l)
    o += ['', TAIL.strip(), '']
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(o))


main()
