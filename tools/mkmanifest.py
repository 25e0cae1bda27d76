"""Writes MANIFEST.json from the checks present in checks/ (one entry per property with a check module)."""
import json, os, re, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = 'static value-flow equivalence: SSA summaries (global value numbering with decision diagrams and loop summaries over LLVM IR) of the code and of its one-line specification'
exec(open(V + '/tools/manifest_info.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists(V + '/checks/%s.py' % i): na.append(dict(property=i, reason='no check built yet')); continue
    t, note = INFO.get(i, (FLOW, 'decides the structural clauses listed in DESIGN.md'))
    checks.append(dict(property=i, quick_cmd='python3 checks/run.py ' + i, thorough_cmd='python3 checks/run.py ' + i,
                       technique=t, level='other', level_note=note))
m = dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. All checks read /repo sources on every run (clang -> LLVM bitcode -> irdump -> analysis); nothing of the repository is executed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
