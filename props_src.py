#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props_src.py rewrites both."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, claimed=True, na=None, level='proof', technique=None, note=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(dict(j=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), claimed=claimed, na=na, level=level, technique=technique, note=note))
exec(open(os.path.join(V, 'props_text.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p['j']) + '\n')
TECH = 'contract-based deductive verification of the extracted real code (Verus/Z3), failed obligations replayed on the real code'
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=[], not_applicable=[],
         notes='Each check extracts the functions under contract from /repo on every run, has Verus discharge every obligation, and replays the executable form of the contract on the real code (bounded, never counted as proved). See DESIGN.md.')
for p in P:
    i = p['j']['id']
    if p['claimed']:
        m['checks'].append(dict(property=i, quick_cmd=f'python3 /verif/run.py {i} --tier quick', thorough_cmd=f'python3 /verif/run.py {i} --tier thorough', technique=p['technique'] or TECH, level=p['level'], level_note=p['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=p['na']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
