"""Builds bitcode of /repo's current sources plus the harness and extracts the flow description (JSON)."""
import threading
import hashlib, json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NIKV_REPO', '/repo')
SRC = REPO + '/lib/nikfemm/src'
LLVM = '/usr/lib/llvm-18/bin/'
CACHE = os.environ.get('NIKV_CACHE', '/tmp/nikverif-cache')

class BuildError(Exception): pass

def tool(name='irdump'):
    exe = HERE + '/build/' + name
    src = HERE + '/%s.cpp' % name
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(HERE + '/build', exist_ok=True)
        flags = subprocess.check_output([LLVM + 'llvm-config', '--cxxflags', '--ldflags'], text=True).split()
        tmp = uniq(exe)
        r = subprocess.run(['clang++', '-std=c++17', '-O1', src, '-o', tmp] + flags + ['-lLLVM-18'], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe

BASE = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-ffp-contract=off', '-fno-access-control',
        '-fno-discard-value-names', '-Wno-everything', '-fPIC']

SLOCK = threading.Lock()
def uniq(p): return '%s.%d.%d.tmp' % (p, os.getpid(), threading.get_ident())
def shim():
    with SLOCK: return shim_()
def shim_():
    """libstdc++'s search algorithms as plain loops (the shipped random-access overload is unrolled by hand)"""
    src = '/usr/include/c++/13/bits/stl_algobase.h'
    if not os.path.exists(src): return []
    d = CACHE + '/shim'; out = d + '/bits/stl_algobase.h'
    if not os.path.exists(out):
        import re
        s = open(src).read()
        n, k = re.subn(r'(_Predicate __pred, random_access_iterator_tag\)\s*\{).*?\n    \}\n', r'\1\n      while (__first != __last && !__pred(__first)) ++__first;\n      return __first;\n    }\n', s, count=1, flags=re.S)
        if k != 1: return []
        os.makedirs(d + '/bits', exist_ok=True)
        tmp = uniq(out); open(tmp, 'w').write(n); os.rename(tmp, out)
    return ['-I' + d]

def incs():
    return shim() + ['-I' + SRC, '-I' + REPO + '/lib/nikfemm/include', '-I' + VERIF + '/harness']

_digest = None
def tree_digest():
    global _digest
    if _digest is None:
        h = hashlib.sha256()
        fs = []
        for root in (SRC, REPO + '/lib/nikfemm/include', REPO + '/python', VERIF + '/harness'):
            for d, _, f in os.walk(root):
                if '/build' in d: continue
                fs += [os.path.join(d, x) for x in f if x.endswith(('.hpp', '.h', '.cpp', '.c'))]
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        h.update(open(HERE + '/irdump.cpp', 'rb').read())
        _digest = h.hexdigest()
    return _digest

def lib_sources(triangle=False):
    out = []
    for d, _, f in sorted(os.walk(SRC)):
        for x in sorted(f):
            if x.endswith('.cpp'):
                p = os.path.join(d, x)
                if not triangle and '/triangle/' in p: continue
                out.append(p)
    return out

def compile_unit(src, defs, extra=()):
    key = hashlib.sha256(repr((tree_digest(), src, tuple(defs), tuple(extra), BASE, incs())).encode()).hexdigest()[:24]
    out = CACHE + '/bc/' + key + '.bc'
    if not os.path.exists(out):
        os.makedirs(CACHE + '/bc', exist_ok=True)
        tmp = uniq(out)
        r = subprocess.run(['clang++'] + BASE + incs() + ['-D' + d for d in defs] + list(extra) + ['-emit-llvm', '-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s\n%s' % (src, r.stderr[-3000:]))
        os.rename(tmp, out)
    return out

def module(sources, defs=(), extra=()):
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda s: compile_unit(s, defs, extra), sources))
    key = hashlib.sha256(repr(bcs).encode()).hexdigest()[:24]
    out = CACHE + '/bc/' + key + '.linked.bc'
    if not os.path.exists(out):
        tmp = uniq(out)
        r = subprocess.run([LLVM + 'llvm-link'] + bcs + ['-o', tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-3000:])
        os.rename(tmp, out)
    return out

def facts(bc):
    """facts about every function of a module (irlint)"""
    key = hashlib.sha256(repr((bc, REPO, open(HERE + '/irlint.cpp').read())).encode()).hexdigest()[:24]
    out = CACHE + '/js/' + key + '.facts.json'
    if not os.path.exists(out):
        os.makedirs(CACHE + '/js', exist_ok=True)
        tmp = uniq(out)
        r = subprocess.run([tool('irlint'), bc, REPO + '/', tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError('irlint: ' + r.stderr[-3000:])
        os.rename(tmp, out)
    return json.load(open(out))

def dump(bc, roots, opaque=(), inline=(), extra=()):
    cfg = ''.join('root %s\n' % r for r in roots) + ''.join('opaque %s\n' % r for r in opaque) + ''.join('inline %s\n' % r for r in inline) + ''.join(e + '\n' for e in extra)
    key = hashlib.sha256(repr((bc, cfg)).encode()).hexdigest()[:24]
    out = CACHE + '/js/' + key + '.json'
    if not os.path.exists(out):
        os.makedirs(CACHE + '/js', exist_ok=True)
        cf = uniq(out) + '.cfg'
        open(cf, 'w').write(cfg)
        tmp = uniq(out)
        r = subprocess.run([tool(), bc, cf, tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError('irdump: ' + r.stderr[-3000:])
        os.rename(tmp, out)
    return json.load(open(out))
