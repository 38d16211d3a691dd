"""Writes properties.jsonl and MANIFEST.json from the list below (development tool, not used by the checks)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/sloth/'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None,
         technique='explicit-state bounded exhaustive exploration of the real code against a reference model'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               **({'state': [dict(name=a, meaning=b, where=S + c) for a, b, c in state]} if state else {}),
                               **({'observe_at': observe} if observe else {}), hook_needed=None),
                  _note=note, _tech=technique))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')

have = {n[:-3].upper() for n in os.listdir(os.path.join(HERE, 'mc', 'props')) if n.startswith('c')}
NA = [p for p in P if p['id'] not in have]
m = dict(version=1, setup_cmd='./run.sh setup',
         checks=[dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'],
                      thorough_cmd='./run.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                      technique=p['_tech'], level='model_checking', level_note=p['_note'])
                 for p in P if p['id'] in have],
         not_applicable=[dict(property=p['id'], reason=p['_note']) for p in NA])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
for p in P:
    assert len(p['title']) <= 80, p['id']
