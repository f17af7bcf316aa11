#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique=p['check']['technique'],
               level=p['check'].get('level', 'other'), level_note=p['check']['note']) for p in PROPS if p['check']]
na = [dict(property=p['id'], reason=p['na']) for p in PROPS if not p['check']]
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
  notes='All checks are static: they compile /repo/DevIL to LLVM IR on every run and decide the property from the IR (no code of the library is executed). No hooks are needed in /repo.'), open(H + '/MANIFEST.json', 'w'), indent=1)
if os.path.isdir(H + '/seeded'):
    import gen_design
    gen_design.write(PROPS)
