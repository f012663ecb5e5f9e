"""The properties, and how each is checked.  Running this file rewrites properties.jsonl and MANIFEST.json."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'static analysis: '
NOTE = ('Decided from the type-checked syntax trees of the current source (clang front end, all library translation units), without running it. '
        'Trusted: the front end, the declaration-only stand-ins for libcxml and asdcplib headers, and the analysis itself. ')

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level_note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, level_note=level_note, state=state, observe=observe))


def mech(name, where):
    return {'name': name, 'where': where}


exec(open(os.path.join(VERIF, 'meta', 'list.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(PROPS, key=lambda p: p['id']):
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mechanism']))
            if p['state']:
                d['anchors']['state'] = p['state']
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for p in sorted(PROPS, key=lambda p: p['id']):
        if p['technique'] is None:
            continue
        cmd = 'python3 /verif/py/run.py %s' % p['id']
        checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, evidence_file='/verif/evidence/%s.json' % p['id'],
                           technique=TECH + p['technique'], level='other', level_note=NOTE + p['level_note']))
    m = dict(version=1, setup_cmd='python3 /verif/py/setup.py', checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
             hooks=dict(guard='', enable='', source_commits=[]),
             notes='All checks are static: they parse /repo/src with the clang-18 libraries and analyse the result; nothing of libdcp is run. '
                   'DESIGN.md describes each rule; known_findings.txt lists the defects that were found.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
