"""Writes properties.jsonl and MANIFEST.json from the table in tools/meta_table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta_table import PROPS
V = os.path.dirname(here)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='./run --selftest',
         checks=[dict(property=p['id'], quick_cmd=f'./run {p["id"]}', thorough_cmd=f'./run {p["id"]} --tier thorough',
                      technique=p['technique'], level='exploration', level_note=p['note']) for p in PROPS if p.get('claim', True)],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if not p.get('claim', True)],
         notes='Every check is a Hypothesis-driven search over plain-data cases (lib/pbt.py); a shrunk failing case is the replay file, '
               're-run with ./run PID --replay FILE.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties')
