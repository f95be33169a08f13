#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (development helper)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import props
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['obs'], hook_needed=None)
        if p.get('state'): a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a)) + '\n')
TECH = 'contract-based deductive verification: weakest-precondition VCs generated from the LLVM IR of /repo, discharged by z3/cvc5 function by function'
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'], technique=TECH, level='proof', level_note=p['note']) for p in props.P if 'note' in p]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=p['id'], reason=p['na']) for p in props.P if 'na' in p],
         notes='No hooks: the verifier reads the unmodified sources. Several fix: commits in /repo; see known-findings.json and DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
