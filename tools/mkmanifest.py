"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import PROPS
NA = {}
try:
    from checks import NOT_APPLICABLE as NA
except ImportError:
    pass
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % i,
            'technique': c.get('technique', 'contract-based deductive verification: weakest-precondition style VCs generated from the LLVM IR of the real functions, loop invariants checked inductively, discharged by z3; bounded contract execution on the real code as counterexample search and labelled stand-in'),
            'level': c['level'], 'level_note': c.get('level_note', 'unbounded contract proofs for the functions listed in the evidence; everything else named there is bounded')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
