#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note, level='model_checking', state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files,
                     'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c}
                                 for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append((d, technique, level, ' '.join(note.split())))


NA = {}
exec(open(os.path.join(V, 'tools', 'proplist.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for d, _, _, _ in P:
            fh.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, tech, level, note in P:
        i = d['id']
        if os.path.exists(os.path.join(V, 'checks', i + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': 'python3 checks/%s.py --tier quick' % i,
                'thorough_cmd': 'python3 checks/%s.py --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': tech, 'level': level, 'level_note': note})
        else:
            na.append({'property': i,
                       'reason': NA.get(i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'hooks': {'guard': 'none', 'enable': 'no hooks: every check observes '
                   'the public interface of the code in /repo',
                   'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'TLA+/TLC specifications in spec/, drivers in harness/, one '
                  'pipeline per property in checks/. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(P), 'properties', len(checks), 'checks')


main()
