"""Single source of properties.jsonl and MANIFEST.json: python3 gen/catalog.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, na=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': tests,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, note, na))


exec(open(os.path.join(V, 'gen', 'props.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
        for d, t, n, na in P:
            assert len(d['title']) <= 80, d['id']
            o.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'Every check re-extracts the IR of the whole library from /repo (compile, link, JSON) into a scratch directory it removes. '
                  'No hooks were needed in /repo. gen/catalog.py regenerates this file and properties.jsonl.'}
    for d, t, n, na in P:
        if na:
            m['not_applicable'].append({'property': d['id'], 'reason': na})
        else:
            m['checks'].append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'], 'thorough_cmd': 'python3 check.py ' + d['id'],
                                'evidence_file': 'evidence/%s.json' % d['id'], 'technique': t, 'level': 'other', 'level_note': n})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
