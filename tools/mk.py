#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['observe']: a['observe_at'] = p['observe']
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='true', checks=[dict(property=p['id'], quick_cmd=f"python3 fw/run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 fw/run.py {p['id']}",
    evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if not p['na']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
