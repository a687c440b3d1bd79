"""regenerate MANIFEST.json from properties.jsonl and the contract modules"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
checks = []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    mod = importlib.import_module('contracts.' + pid.lower())
    checks.append(dict(property=pid, quick_cmd=f"python3-vt check.py {pid}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {pid} thorough",
                       technique="contract-based deductive verification: pydv generates verification conditions from /repo's current Python source against the contracts in "
                                 f"contracts/{pid.lower()}.py; z3 discharges them; undischarged ones are decided by a bounded run of the same source and replayed on the real code",
                       level=getattr(mod, 'LEVEL', 'proof'), level_note=getattr(mod, 'NOTE', '') or
                       ("postconditions and loop invariants of " + ', '.join(sorted({c.target.split(':')[1] for c in mod.CONTRACTS})) + " discharged for all inputs; assumptions in the evidence file")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=json.load(open(os.path.join(H, 'tools', 'not_applicable.json'))),
         notes="see DESIGN.md; known_findings.txt lists repaired and recorded defects; no hooks in /repo")
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
