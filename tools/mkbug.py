"""mkbug.py <spec.py>: the spec defines BUGS = [dict(id, property, file, subst=[(old,new)...], needs, breaks, cpp=..., py=..., cmd=...)].
Creates seeded/<id>/ and, with a scratch copy under /tmp, confirms that the demo passes before and fails after the change (built with g++ straight from the copy)."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPPSH = '''#!/bin/bash
# builds demo.cpp against the static library of /repo's build and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -mavx -O1 -w -I/repo/lib/nikfemm/include -I/repo/lib/nikfemm/src "$D/demo.cpp" /repo/_build/lib/nikfemm/libnikfemm_static.a -o "$T/demo" || exit 3
cd "$T"
timeout 120 ./demo > out.log 2>&1
rc=$?
tail -5 out.log
exit $rc
'''
PYSH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python timeout 120 /usr/bin/python3 "$D/demo.py" > out.log 2>&1
rc=$?
tail -5 out.log
exit $rc
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        W = '/tmp/mkbug'
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', W])
        for f, subs in b['edits'].items():
            p = W + '/' + f
            s = open(p).read()
            for old, new in subs:
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        d = V + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
        if 'cpp' in b: open(d + '/demo.cpp', 'w').write(b['cpp']); open(d + '/demo.sh', 'w').write(CPPSH)
        if 'py' in b: open(d + '/demo.py', 'w').write(b['py']); open(d + '/demo.sh', 'w').write(PYSH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(W, ignore_errors=True)
        print('wrote', b['id'])
main()
