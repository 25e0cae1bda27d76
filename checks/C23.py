import re
import build
from flow import flow
END = re.compile(r'^(exit|_exit|_Exit|quick_exit|abort|raise|kill|__assert_fail|__assert|__assert_perror_fail|std::terminate\(\)|std::abort|__cxa_pure_virtual|pthread_exit|_Unwind_Resume_or_Rethrow|longjmp|_longjmp|__builtin_trap)$')
HIDDEN = re.compile(r'^(rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|srand48|time|clock|gettimeofday|clock_gettime|getpid|gettid|getenv|secure_getenv|getrandom|arc4random|pthread_self|setlocale|times|getrusage|sched_getcpu)$|^std::random_device::|^std::this_thread::get_id')
def run(c):
    try: bc = build.module(build.lib_sources(True)); d = build.facts(bc)
    except build.BuildError as x:
        c.undecided('process', 'library', 'does not compile: ' + str(x)[-600:]); return c.finish('')
    D = d['dem']; R = build.REPO + '/'
    rel = lambda f: f[len(R):] if f and f.startswith(R) else f
    fs = [f for f in d['functions'] if f['file'].startswith(R)]
    c.need('process', 300); c.need('state', 20)
    sites = 0
    for f in fs:
        tri = '/triangle/' in f['file']; where = lambda l: '%s %s' % (f['dem'][:120], '%s:%d' % (rel(l[0]), l[1]) if l else rel(f['file']))
        bad = False
        for k in f['calls']:
            n = D.get(k['callee'], k['callee']); head = n.split('(')[0]; sites += 1
            if END.match(head) or END.match(k['callee']):
                bad = True; c.violation('process', where(k['loc']), 'calls %s, which ends the process' % head, key=f['dem'].split('(')[0] + ':' + head)
            elif not tri and (HIDDEN.match(head) or HIDDEN.match(k['callee'])):
                bad = True; c.violation('state', where(k['loc']), 'calls %s: the result depends on state that is neither in the object nor in the arguments' % head, key=f['dem'].split('(')[0] + ':' + head)
            if k.get('term') and not k.get('nt') and D.get(k['callee'], '').find('__clang') < 0 and mayraise(d, k['callee']):
                bad = True; c.violation('process', where(k['loc']), 'an exception of %s is turned into std::terminate by a noexcept boundary' % n[:120], key=f['dem'].split('(')[0] + ':term')
        if re.match(r'^nikfemm::nexit\(|^triexit\(', f['dem']) and f['returns']:
            bad = True; c.violation('failure', where([f['file'], f['line']]), 'can return: the failure does not surface as an exception', key=f['dem'].split('(')[0] + ':returns')
        if not tri:
            for how, l in f['time']:
                bad = True; c.violation('state', where(l), 'a clock reading is %s outside diagnostics' % how, key=f['dem'].split('(')[0] + ':clock')
            for l in f['ptrtoint']:
                bad = True; c.violation('state', where(l), 'an address is used as a number', key=f['dem'].split('(')[0] + ':address')
        if not bad: c.count('process'); c.obl.append(('process', '%s' % f['dem'][:120])) if len(c.obl) < 2000 else None
    seen = set()
    for g in d['globals']:
        if not (g.get('file') or '').startswith(R): continue
        k = (g['src'], g['file'].split('/src/')[-1].split('../')[-1], g['line'])
        if k in seen: continue
        seen.add(k)
        if '/triangle/' in g['file']: continue
        if g['const'] or g.get('ctype'): c.ok('state', 'constant %s (%s:%d)' % (g['dem'], rel(g['file']), g['line']))
        else: c.violation('state', '%s:%d' % (rel(g['file']), g['line']), 'mutable static %s%s' % (g['dem'], ' (thread local)' if g['tls'] else ''), key=g['dem'])
    ptrkey = {re.search(r'std::(unordered_)?(multi)?(set|map)<[^<>,]*\*', f['dem']).group() for f in d['functions'] if re.search(r'^(?:\w+ )?std::(unordered_)?(multi)?(set|map)<(?:nikfemm|unsigned|int|double|char)[^<>,]*\*', f['dem'])}
    for k in sorted(ptrkey): c.undecided('state', k, 'a container ordered or hashed by addresses: its iteration order is not a function of the arguments')
    flow(c, rule='failure')
    c.facts['functions'] = len(fs); c.facts['call_sites'] = sites; c.facts['modules'] = len(build.lib_sources(True))
    c.assume += ['calls through the C++ library do not end the process (operator new raises std::bad_alloc, std::vector::at raises)', 'undefined behaviour (out-of-range indexing) is the subject of other properties',
                 'templates are analysed for the arguments the library instantiates']
    return c.finish('Every function of the library (the vendored triangulator included) in the bitcode of all translation units: no call site ends the process, no noexcept boundary is crossed by a function that may raise. Outside the triangulator: no mutable variable with static or thread storage, no clock reading that flows anywhere but into a diagnostic, no random, environment or address-dependent source. nexit raises always and nassert exactly when its condition is false.')
MEMO = {}
def mayraise(d, name, depth=0):
    """the callee reaches a throw expression or a library function that raises"""
    if not MEMO:
        MEMO['f'] = {f['name']: f for f in d['functions']}
    if name in ('__cxa_throw', '__cxa_rethrow') or re.match(r'^std::__throw_', d['dem'].get(name, '')): return True
    if name in MEMO.get('r', {}): return MEMO['r'][name]
    MEMO.setdefault('r', {})[name] = False
    f = MEMO['f'].get(name)
    if f is None or f['nounwind']: return False
    r = any(mayraise(d, k['callee'], depth + 1) for k in f['calls'] if not k.get('term') and k['callee'])
    MEMO['r'][name] = r
    return r
