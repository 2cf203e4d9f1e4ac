"""Regenerate /verif/MANIFEST.json from the table below (python3 tools/gen_manifest.py)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_PROOF = ('contract-based deductive verification: VCs generated from /repo by symbolic execution of the real '
           'functions against pre/postconditions, discharged by z3/cvc5')
T_MIX = T_PROOF + '; executable-contract bounded stand-in for the parts out of reach'
TABLE = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
checks = []
for pid in sorted(TABLE):
    level, note = TABLE[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py ' + pid,
                   'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + pid,
                   'technique': T_PROOF if level == 'proof' else T_MIX,
                   'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')} for i in ids if i not in TABLE]
if na:
    m['not_applicable'] = na
m['notes'] = 'See DESIGN.md. Real code runs under /opt/venv/bin/python; the verifier runs under python3-vt.'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
