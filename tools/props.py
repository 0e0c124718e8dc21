"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), level_note='', na=None):
    assert len(title) <= 80, title
    P.append(dict(
        row={'id': id, 'title': title, 'statement': statement,
             'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why,
             'anchors': {
                 'files': files,
                 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                 'state': [{'name': a, 'meaning': b, 'where': c}
                           for a, b, c in state],
                 'observe_at': list(observe),
                 'hook_needed': None}},
        note=level_note, na=na))


G = 'src/guidelines/'
exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['row']) + '\n')
    checks, na = [], []
    for p in P:
        i = p['row']['id']
        if p['na']:
            na.append({'property': i, 'reason': p['na']})
            continue
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'TLA+ specification checked with TLC; recorded '
                         'histories of the real code validated against it',
            'level': 'model_checking',
            'level_note': p['note'] or (
                'Every recorded call or history is judged by TLC against the '
                'TLA+ definitions; the input space is enumerated up to small '
                'bounds and sampled beyond them. Trusts TLC and the recorder '
                'in harness/.')})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Specifications in spec/, recorders in harness/. No '
                    'hooks in /repo: all state is observed through the '
                    'public functions.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
