"""Typed syntax trees of every function of the repository (astdump), after template instantiation."""
import hashlib, json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import build
RES = '/usr/lib/llvm-18/lib/clang/18'
def tool():
    exe = build.HERE + '/build/astdump'; src = build.HERE + '/astdump.cpp'
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(build.HERE + '/build', exist_ok=True)
        flags = subprocess.check_output([build.LLVM + 'llvm-config', '--cxxflags', '--ldflags'], text=True).split()
        tmp = build.uniq(exe)
        r = subprocess.run(['clang++', '-std=c++17', '-O1', src, '-o', tmp] + flags + ['-fno-rtti', '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode: raise build.BuildError(r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe
def unit(src, cv=True):
    key = hashlib.sha256(repr((build.tree_digest(), src, cv, build.REPO, open(build.HERE + '/astdump.cpp').read(), open(build.VERIF + '/harness/opencv/opencv2/core/core.hpp').read())).encode()).hexdigest()[:24]
    out = build.CACHE + '/js/' + key + '.ast.json'
    if not os.path.exists(out):
        os.makedirs(build.CACHE + '/js', exist_ok=True); tmp = build.uniq(out)
        r = subprocess.run([tool(), tmp, build.REPO + '/', src, '--', '-std=c++20', '-resource-dir', RES, '-I' + build.REPO + '/lib/nikfemm/include', '-I' + build.SRC,
                            '-I' + build.VERIF + '/harness/opencv', '-I/usr/include/python3.12', '-Wno-everything'] + (['-DNIKFEMM_USE_OPENCV'] if cv else []), capture_output=True, text=True)
        if not os.path.exists(tmp): return None, r.stderr[-800:]
        d = json.load(open(tmp)); d['errors'] = [l for l in r.stderr.split('\n') if ' error: ' in l]
        json.dump(d, open(tmp, 'w')); os.rename(tmp, out)
    return json.load(open(out)), ''
class Program:
    def __init__(self, python=False):
        us = build.lib_sources() + [build.VERIF + '/harness/ast_all.cpp']
        if python: us.append(build.REPO + '/python/nikfemm.cpp')
        tool(); build.tree_digest()
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(unit, us))
        self.fn = {}; self.rec = {}; self.errors = []; self.units = len(us)
        for u, (d, e) in zip(us, rs):
            if d is None: self.errors.append((u, e)); continue
            self.errors += [(u, x) for x in d['errors'] if 'harness/ast_all' not in u]
            for n, f in d['functions'].items():
                if '/triangle/' in f['file']: continue
                if n not in self.fn: f['name'] = n; f['rel'] = os.path.relpath(f['file'], build.REPO); self.fn[n] = f
            self.rec.update(d['records'])
_P = {}
def program(python=False):
    if python not in _P: _P[python] = Program(python)
    return _P[python]
def walk_e(e):
    """every expression below e (lambda bodies included)"""
    if not isinstance(e, dict): return
    yield e
    for x in e.get('a', ()): yield from walk_e(x)
    for k in ('obj', 'callee', 'b'):
        if k in e and isinstance(e[k], dict): yield from walk_e(e[k])
    if e.get('k') == 'lambda':
        yield from walk_s(e['body'])
def kids_s(s):
    for k in ('b', 'h'):
        for x in s.get(k, ()) if isinstance(s.get(k), list) else ():
            if x: yield x
    for k in ('then', 'else', 'init', 'body', 'cv'):
        if isinstance(s.get(k), dict): yield s[k]
def exprs_s(s):
    """expressions directly in statement s"""
    for k in ('e', 'c', 'inc', 'range'):
        if isinstance(s.get(k), dict): yield s[k]
    for d in s.get('d', ()):
        if isinstance(d.get('init'), dict): yield d['init']
def walk_s(s):
    """every expression below statement s"""
    if not s: return
    for e in exprs_s(s): yield from walk_e(e)
    for x in kids_s(s): yield from walk_s(x)
def stmts(s):
    if not s: return
    yield s
    for x in kids_s(s): yield from stmts(x)
    for e in exprs_s(s):
        for y in walk_e(e):
            if y.get('k') == 'lambda': yield from stmts(y['body'])
def show(e, d=0):
    """readable text of an expression"""
    if not isinstance(e, dict): return '?'
    if d > 7: return '…'
    k = e['k']; a = [show(x, d + 1) for x in e.get('a', ())]
    if k == 'var': return e['n']
    if k == 'mem': return a[0] + ('->' if e.get('arrow') else '.') + e['n'] if a[0] != 'this' else e['n']
    if k == 'this': return 'this'
    if k == 'lit': return str(e.get('v'))
    if k == 'idx': return '%s[%s]' % tuple(a)
    if k == 'bin': return '%s %s %s' % (a[0], e['op'], a[1])
    if k == 'un': return a[0] + e['op'] if e.get('post') else e['op'] + a[0]
    if k == 'conv': return a[0]
    if k == 'cond': return '%s ? %s : %s' % tuple(a)
    if k == 'call':
        f = e.get('f'); o = show(e['obj'], d + 1) if 'obj' in e else None
        if e.get('op'):
            if e['op'] == '[]': return '%s[%s]' % (o, ', '.join(a))
            if e['op'] == '()': return '%s(%s)' % (o, ', '.join(a))
            if e['op'] == '->': return o or a[0]
            xs = ([o] if o is not None else []) + a
            return (' %s ' % e['op']).join(xs) if len(xs) > 1 else e['op'] + xs[0]
        n = f['s'] if f else '(*%s)' % show(e.get('callee'), d + 1)
        return ('' if o is None or o == 'this' else o + ('->' if e.get('arrow') else '.')) + '%s(%s)' % (n, ', '.join(a))
    if k == 'ctor': return a[0] if e.get('copy') and a else '%s(%s)' % (e['t'].split('<')[0].split('::')[-1], ', '.join(a))
    return k + '(' + ', '.join(a) + ')'
