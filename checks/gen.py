"""Writes properties.jsonl and MANIFEST.json (python3 checks/gen.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
from table import P
from props import PROPS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    if p['id'] not in P:
        assert p['id'] in NA, p['id']
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the LLVM IR of the real crates, branch feasibility and assertions decided by SMT (Z3)', level='model_checking',
        level_note='Every input within the stated bounds: %s. Trusted: rustc/LLVM lowering, the symbolic engine (path inputs are replayed against the native build), the harness oracles.' % '; '.join(j['what'] for j in P[p['id']])[:900]))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='Counterexamples are replayed on the natively compiled code before they are reported; python3 check.py --replay FILE repeats one. /repo has no hooks: the harnesses use its public API.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in PROPS:
    jsonschema.validate(p, s)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(PROPS), 'properties', len(checks), 'checks')
