import re, subprocess
import build, lint
from flow import flow
KW = dict(ignore=[r'^arg\.0$'])
def run(c):
    flow(c, need=1, **KW)
    r = subprocess.run(['clang++', '-std=c++20', '-fsyntax-only', '-fno-access-control', '-w', '-Wno-invalid-offsetof', '-fno-color-diagnostics'] + build.incs()[-3:] + [build.VERIF + '/harness/w_C13.cpp'], capture_output=True, text=True)
    bad = re.findall(r'static assertion failed[^\n]*?NVLAYOUT ([^\n]*)', r.stderr)
    other = [l for l in r.stderr.split('\n') if 'error:' in l and 'static assertion failed' not in l]
    n = len(re.findall(r'^(?:PTR|SAME|NUM|static_assert)|; (?:PTR|SAME|NUM)', open(build.VERIF + '/harness/w_C13.cpp').read(), re.M))
    if other: c.undecided('layout', 'w_C13', '; '.join(other)[:500])
    for b in dict.fromkeys(bad): c.violation('layout', 'lib/nikfemm/src/mesh/mesh.hpp MeshData', b, key='layout:' + b)
    if not other and not bad:
        for k in range(n): c.ok('layout', 'static assertion %d of harness/w_C13.cpp' % k)
        c.need('layout', 20)
    c.assume.append('what the triangulator does with its input (and that it is the vendored one) is outside this property; an allocation request that fails is not modelled')
    return c.finish('Mesh::mesh with the triangulator replaced by a recorder: for every drawing and every pair of quality parameters the switches carry the minimum angle, the boundary flag and the maximum area in full, the announced counts are those of the drawing, every point, segment and region marker arrives in order in a buffer large enough for the announced count, no field the triangulator reads is left unset, and the result goes to the mesh with its lists empty. The layout of MeshData against triangulateio is a set of static assertions compiled against the current headers.')
