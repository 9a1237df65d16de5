#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyhipp/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over.split(), 'text': text}, why_tests_cant=why,
        anchors={'files': [S + f for f in files.split()],
                 'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                 'observe_at': observe, 'hook_needed': hook}), technique, note))


from props_text import define  # noqa
define(prop)


def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, tech, note in P:
        i = p['id']
        if os.path.exists(f'{HERE}/vh/props/{i.lower()}.py'):
            checks.append(dict(
                property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'python3 run.py {i} --tier thorough',
                evidence_file=f'evidence/{i}.json', technique=tech, level='exploration', level_note=note))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed;', len(na), 'not')


main()
