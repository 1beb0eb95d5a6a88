"""writes MANIFEST.json: one check per property that has a checks/cXX.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NA = {}
import sys; sys.path.insert(0, ROOT)
checks = []
for p in props:
    i = p['id']
    if not os.path.exists('%s/checks/%s.py' % (ROOT, i.lower())):
        NA.setdefault(i, 'check not built yet'); continue
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run_check.py %s' % i, thorough_cmd='/opt/venv/bin/python run_check.py %s --tier thorough' % i,
        technique='symbolic execution of the real Python code with exact algebraic values; z3 decides branches and obligations; counterexamples replayed',
        level='model_checking',
        level_note='holds for every value of the symbolic inputs within the bounds in the evidence file (bounded configurations, exact real arithmetic, zero threshold tending to 0); trusts symx/ (symbolic numpy stand-ins), the reference in checks/ and z3'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    notes='run_check.py <id> [-v] [--only GLOB] [--replay FILE]; see DESIGN.md'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
