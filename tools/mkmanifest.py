"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the goto programs compiled from the current C sources (own VC generator, z3/cvc5)'
CL = {}
def claim(id, note, technique=TECH, level='proof'):
    CL[id] = dict(property=id, quick_cmd='./check ' + id, thorough_cmd='VERIF_TIER=thorough ./check ' + id, technique=technique, level=level, level_note=note)
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[CL[i] for i in ids if i in CL],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in CL],
         notes='Checks take the code from /repo\'s working tree on every run; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
