"""Rules decided by the C++ front end itself on every translation unit of the library and of the Python module."""
import hashlib, os, re, subprocess, sysconfig
from concurrent.futures import ThreadPoolExecutor
import build

def units(python=True, triangle=False):
    u = build.lib_sources(triangle)
    p = build.REPO + '/python/nikfemm.cpp'
    if python and os.path.exists(p): u.append(p)
    return u
def pyinc():
    return [a for d in ('/usr/include/python3.12', sysconfig.get_paths()['include']) if os.path.exists(d + '/Python.h') for a in ('-I' + d,)][:1]
def front(src, args):
    r = subprocess.run(['clang++', '-std=c++20', '-fsyntax-only', '-fno-caret-diagnostics', '-fno-diagnostics-fixit-info', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-color-diagnostics'] + build.incs()[-3:] + pyinc() + args + [src], capture_output=True, text=True)
    return r
DIAG = re.compile(r'^(.*?):(\d+):(\d+): (warning|error|fatal error): (.*)$', re.M)

def formats(c):
    args = ['-Wno-everything', '-Wformat', '-Wformat-extra-args', '-Wformat-insufficient-args', '-Wnon-pod-varargs', '-Wformat-security', '-Wdeprecated-declarations', '-DDEBUG_LOG=1',
            '-include', build.VERIF + '/harness/fmt_shim.h'] + ['-D%s=nv_%s' % (n, n) for n in ('nloginfo', 'nlogwarn', 'nlogerror')]
    us = units()
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda s: front(s, args), us))
    sites = {}; bad = {}; broken = []
    for s, r in zip(us, rs):
        for f, l, col, kind, msg in DIAG.findall(r.stderr):
            if not os.path.abspath(f).startswith(build.REPO + '/'): 
                if kind != 'warning': broken.append((s, msg))
                continue
            f = os.path.relpath(f, build.REPO); k = (f, int(l))
            if '/triangle/' in f: continue
            if 'NVSITE' in msg: sites[(f, int(l), int(col))] = 'string' if 'NVSITE-string' in msg else 'literal'
            elif kind == 'warning' or '-Wformat' in msg or 'variadic' in msg: bad.setdefault(k, []).append(msg)
            else: broken.append((f, msg))
    text = {}
    def line(f, l):
        if f not in text: text[f] = open(build.REPO + '/' + f, errors='replace').read().split('\n')
        return text[f][l - 1].strip()
    for (f, l), m in sorted(bad.items()):
        c.violation('format', '%s:%d' % (f, l), '%s   [%s]' % ('; '.join(dict.fromkeys(m)), line(f, l)), key=f + ':' + re.sub(r'\W+', '_', line(f, l))[:80])
    for (f, l, col), how in sorted(sites.items()):
        if (f, l) in bad: continue
        if how == 'string': c.undecided('format', '%s:%d' % (f, l), 'the format string is computed: ' + line(f, l))
        else: c.ok('format', '%s:%d:%d %s' % (f, l, col, line(f, l)[:90]))
    if broken: c.undecided('format', 'translation units', 'not analysable: ' + '; '.join('%s: %s' % b for b in broken[:5]))
    c.facts['translation_units'] = len(us); c.facts['call_sites'] = len(sites)
    return len(sites)
