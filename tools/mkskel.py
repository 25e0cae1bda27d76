#!/usr/bin/env python3
"""Records the loop nests of the functions on the tree the specifications were written against (checks/skeleton.json)."""
import glob, json, os, re, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = tempfile.mktemp()
for f in sorted(glob.glob(V + '/checks/C*.py')):
    subprocess.run(['python3', 'checks/run.py', os.path.basename(f)[:-3]], cwd=V, env=dict(os.environ, NIKV_SKELOUT=out), check=True, stdout=subprocess.DEVNULL)
ids = set()
for f in glob.glob('/repo/lib/nikfemm/src/**/*.[hc]pp', recursive=True) + glob.glob('/repo/python/*.cpp') + glob.glob('/repo/lib/nikfemm/include/**/*.h*', recursive=True):
    ids |= set(re.findall(r'[A-Za-z_]\w*', open(f, errors='replace').read()))
d = {}
for l in open(out):
    c, k, s = json.loads(l)
    if s is not None: d.setdefault(c, {})[k] = s
with open(V + '/checks/skeleton.json', 'w') as f:
    f.write('{\n "identifiers": %s,\n' % json.dumps(' '.join(sorted(ids))) + ',\n'.join(' %s: {\n%s}' % (json.dumps(c), ',\n'.join('  %s: %s' % (json.dumps(k), json.dumps(s)) for k, s in sorted(d[c].items()))) for c in sorted(d)) + '\n}\n')
os.unlink(out)
