#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import meta
have = {f[:-3] for f in os.listdir(H + '/props') if f.endswith('.py')}
with open(H + '/properties.jsonl', 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
na = {i for i, _ in meta.NA}
m = dict(version=1, setup_cmd='python3-vt run.py --setup',
         checks=[dict(property=p['id'], quick_cmd='python3-vt run.py %s quick' % p['id'], thorough_cmd='python3-vt run.py %s thorough' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']) for p in meta.PROPS if p['id'] not in na],
         not_applicable=[dict(property=i, reason=r) for i, r in meta.NA])
for c in m['checks']:
    assert c['property'] in have, c['property']
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(na), 'not applicable')
