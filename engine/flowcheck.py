"""Compares the flow summaries of nv::impl_X (repository API) and nv::spec_X (specification) for every X of a harness file."""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, vf, models, pymodels, terms
from terms import *
from vfops import family as vf_family

OPQ = [r'^std::(multi)?(set|map)<.*>::(lower_bound|upper_bound|find|equal_range|insert|erase|emplace)\(', r'^std::_Rb_tree_(increment|decrement)\(', r'^(void )?std::(stable_)?sort<', r'^std::vector<.*>::(vector|~vector|push_back|emplace_back|resize|reserve|clear|insert|erase|assign|operator=|c?begin|c?end|_M_\w+)\(',
       r'^(void |[\w:]+(<.*>)?\*?& |std::vector<.*>::reference )?std::vector<.*>::(emplace_back|_M_\w+|insert|emplace|_S_\w+)<',
       r'std::__copy_move(_backward)?<(true|false), true, .*>::__copy_m<',
       r'^std::unordered_map<', r'^[^(]*[> ]std::unordered_map<unsigned long, .*>::(insert|emplace|try_emplace|insert_or_assign)<', r'^std::(__cxx11::)?basic_string<', r'^std::vector<bool, .*>::operator\[\]\(', r'^std::_Bit_reference::operator', r'^nikfemm::n(log|exit)', r'^nikfemm::NonLinearExpression::', r'^nv::(assume|size|sizeis|num)\(']

def short(dem):
    m = re.match(r'(?:.* )?nv::(impl|spec)_(\w+)\([^()]*\)$', dem)
    return (m.group(1), m.group(2)) if m else None

def locstr(loc):
    """innermost repository location"""
    if not loc: return '?'
    out = []
    for f in loc:
        x = f if isinstance(f, str) else '%s:%s' % (f[0], f[1])
        out.append(x)
    for x in out:
        if build.REPO in x or 'nikfemm/src' in x: return x
    return out[0]

try: REFSKEL = json.load(open(build.VERIF + '/checks/skeleton.json'))
except OSError: REFSKEL = {}

def restructured(a, b):
    if a == b: return False
    if [x for x in a if isinstance(x, str) and x[:3] == 'fn:' and x not in b]: return True
    n = lambda s: sorted((x[0], x[1].replace('e', 'n')) for x in s if not isinstance(x, str))
    e = lambda s: sum(x[1] == 'e' for x in s if not isinstance(x, str))
    if n(a) == n(b) and e(a) == e(b) and ('recursive' in a) == ('recursive' in b): return False
    return not (n(a) == n(b) and e(a) > e(b) and ('recursive' in a) == ('recursive' in b))     # an early exit added to a loop that does work is no mere restructuring

IDENTS = frozenset(REFSKEL.get('identifiers', '').split())
def newfns(ev):
    """functions of the repository that ran on this side and that the tree the specifications were aligned with does not have; lambdas"""
    out = set(); seen = set()
    for n in ev.mcache:        # associative look-ups: find / count / at / operator[] can express the same query
        m = re.match(r'^std::(unordered_)?(multi)?(?:map|set)<.*>::(find|count|contains|at|operator\[\]|lower_bound|equal_range|insert|emplace|try_emplace|insert_or_assign)\b', ev.mod['dem'].get(n, n))
        if m: out.add('fn:%s%s' % ('hash.' if m.group(1) else 'tree.', m.group(3)))
    for F in ev.ran.values():
        for b in F.blocks.values() if isinstance(F.blocks, dict) else F.blocks:
            for i in b['ins']:
                for f in i.get('loc') or ():
                    if isinstance(f, str) or (f[0], f[1]) in seen: continue
                    seen.add((f[0], f[1]))
                    if build.REPO + '/' not in f[1] and '/nikfemm/' not in f[1]: continue
                    nm = f[0]
                    if re.search(r'UlR?|\$_\d|lambda', nm) and ('EUl' in nm or 'ENKUl' in nm or '$_' in nm or 'lambda' in nm): out.add('fn:lambda'); continue
                    if nm[:2] == '_Z':
                        ids = []; k = 2
                        while k < len(nm):
                            m = re.match(r'[CD]\d|[ST]\w?_|S[tabsiod]', nm[k:])
                            if m: k += len(m.group()); continue
                            m = re.match(r'\d+', nm[k:])
                            if m:
                                l = int(m.group()); k += len(m.group()); ids.append(nm[k:k + l]); k += l; continue
                            if nm[k] in 'EI' and ids and nm[2] == 'N' or nm[2] != 'N' and ids: break
                            k += 1
                    else: ids = [nm]
                    for x in ids[-1:]:
                        if x and x not in IDENTS and re.match(r'^\w+$', x): out.add('fn:' + x)
    return sorted(out)

class Pair:
    def __init__(self, name): self.name = name; self.status = None; self.extraonly = False; self.detail = []; self.stats = {}

def isobs(ev, b):
    """is this memory object visible to the caller?"""
    x = b
    while x.op == 'fn' and x.args[0] in ('vd', 'vb', 'map', 'nle', 'mapnode', 'absv', 'acc', 'mapin', 'setv', 'cap', 'txt'): x = x.args[1]
    if x in ev.localbases: return False
    if x.op == 'leaf' and x.args[0] in ('alloca', 'new', 'exc', 'ignored', 'localobj', 'mapit'): return False
    return True

def masked(th, v):
    return ite(th, ZERO, v) if th is not BF else v

def termset(v):
    t = flat(v)
    return t.lin

def compare(mod, fi, fs, opts, facts=None, ignore=(), subset=()):
    p = Pair(short(mod['functions'][fs]['dem'])[1])
    reset_facts()
    HOOKS.clear()
    for h in (facts or ()): HOOKS.append(h)
    BUDGET[0] = 0
    evs = []
    try:
        for f in (fi, fs):
            ev = vf.Ev(mod, models.M, opts=dict(opts)); ev.side = 'impl' if f == fi else 'spec'
            r = ev.run(f); evs.append((ev, r))
    except (vf.Unsupported, TooBig, RecursionError) as e:
        p.status = 'undecided'; p.detail.append('%s: %s (%s)' % (type(e).__name__, e, 'impl' if not evs else 'spec')); return p
    (ei, ri), (es, rs) = evs
    p.stats = dict(ei.stats); p.evs = evs
    p.notes = sorted(set(ei.notes))
    bad = []; soft = []
    if ei.unknown or es.unknown: soft += ['unmodelled %s' % (u,) for u in ei.unknown[:3] + es.unknown[:3]]
    extra = ei.vocab - es.vocab; used = set()       # used: calls the differing values depend on
    ti, ts = ri.throwg, rs.throwg
    if not sameval(ti, ts):
        bad.append(('throw', 'refuses under %s but should under %s' % (show(ti, 6), show(ts, 6)), [t[2] for t in ri.throws][:2], unkn(ti, ts))); used |= calls(ti, ts)
    th = vor(ti, ts)
    vi, vs = masked(th, ri.ret), masked(th, rs.ret)
    if not sameval(vi, vs): bad.append(('return value', 'is %s, should be %s' % (show(vi, 7), show(vs, 7)), [], unkn(vi, vs))); used |= calls(vi, vs)
    bases = set(b for b in ri.mem if isobs(ei, b)) | set(b for b in rs.mem if isobs(es, b))
    n = 0
    for b in sorted(bases, key=lambda t: t.h):
        nm = show(b)
        if any(re.search(x, nm) for x in ignore): continue
        n += 1
        try: a, c = ei.regV(ei.state(b)), es.regV(es.state(b))
        except (vf.Unsupported, TooBig) as e: soft.append('%s: %s' % (nm, e)); continue
        if any(re.search(x, nm) for x in subset):
            miss = []; todo = [(masked(th, a), masked(th, c))]; seen = set()
            while todo:
                x, y = todo.pop()
                if x is y or (id(x), id(y)) in seen: continue
                seen.add((id(x), id(y)))
                if isinstance(x, N) and isinstance(y, N) and x.d is y.d: todo += list(zip(x.c, y.c)); continue
                tx, ty = flat(x).lin, flat(y).lin
                lack = [k for k in ty if tx.get(k) != ty[k]]; miss += lack
                need = [reads(k) for k in lack if k is not None]
                for u in tx:       # what may stand for a missing contribution reads everything that contribution is made of
                    if u is not None and tx[u] != ty.get(u) and any(reads(u) >= q for q in need): used |= calls(u)
            if not miss: continue
            locs = [e.loc for e in ei.effects(ei.state(b))[1]]
            bad.append(('memory ' + nm, 'lacks the contribution %s' % '; '.join(show(k, 7) if k is not None else 'const' for k in miss), locs, unkn(c))); continue
        a, c = masked(th, a), masked(th, c)
        if sameval(a, c): continue
        fa, fc = flat(a), flat(c)
        k, effs = ei.effects(ei.state(b)); k2, effs2 = es.effects(es.state(b))
        def contrib(ev, effs):
            out = {}
            for e in effs:
                x = vmul(e.delta, fn('K', e.off))
                for d in reversed(e.doms): x = vsum(d, x)
                out[flat(x)] = e
            return out
        ci, cs = contrib(ei, effs), contrib(es, effs2)
        oi = [e for t, e in ci.items() if t not in cs]; os_ = [e for t, e in cs.items() if t not in ci]
        locs = [e.loc for e in oi] or [e.loc for e in effs]
        bad.append(('memory ' + nm, 'writes %s; should be %s' % ('; '.join(esh(e) for e in oi[:4]) or 'nothing (missing)', '; '.join(esh(e) for e in os_[:4]) or 'nothing'), locs, unkn(fa, fc), not oi and bool(os_))); used |= calls(fa, fc)
    p.regions = n
    p.skel = sorted(list(x) for x in ei.skel.values()) + (['recursive'] if vf_family(mod['functions'][fi]['dem']) in ei.vocab else []) + newfns(ei)
    hard = [x for x in bad if not x[3]]
    extra = sorted(x for x in extra if x in used or '::' not in x)
    p.extraonly = bool(extra and hard and not soft)
    if extra and bad: soft = soft + ['calls %s, whose meaning is not modelled' % ', '.join(extra)]
    if hard and not soft: p.status = 'violated'; p.bad = bad
    elif bad or soft: p.status = 'undecided'; p.bad = bad; p.detail += soft + [('differs but not exactly known: %s %s' % (x[0], x[1]))[:600] for x in bad]
    else: p.status = 'ok'; p.bad = []
    p.assumed = ei.assumed
    return p

def walk(v):
    """every term a value is made of"""
    st = [v]; seen = set()
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, T): yield x; st += x.args
        elif isinstance(x, N): st.append(x.d); st += x.c
        elif isinstance(x, P): st += [x.base, x.off]
        elif isinstance(x, tuple): st += x
        elif hasattr(x, 'trip'): st += [x.trip, x.until]
def calls(*vs):
    """families of the unmodelled callees the values depend on"""
    out = set()
    for v in vs:
        for x in walk(v):
            if x.op == 'fn' and x.args[0] in ('call', 'out') and isinstance(x.args[1], str):
                out.add(vf_family(x.args[1]))
    return out
READS = {}
def reads(v):
    """the fields a value depends on, each as the chain of offsets that leads to it"""
    r = READS.get(v)
    if r is None:
        def path(x):
            if x.op == 'fn' and x.args[0] == 'ld': return path(x.args[1]) + (const_off(x.args[2]),)
            if x.op == 'fn' and len(x.args) > 1 and isinstance(x.args[1], T): return path(x.args[1]) + (x.args[0],)
            return (str(x.args[:1]),)
        r = READS[v] = frozenset(path(x) for x in walk(v) if x.op == 'fn' and x.args[0] == 'ld')
    return r
def const_off(t):
    return str(t.lin.get(None, 0)) if isinstance(t, T) else str(t)
def esh(e): return '%s at [%s]%s' % (show(e.delta, 7), show(e.off, 6), ' ' + str(e.doms) if e.doms else '')
def unkn(*vs): return any(getattr(flat(v), 'unk', False) if not isinstance(v, tuple) else any(flat(x).unk for x in v) for v in vs)
def sameval(a, b):
    if a is b: return True
    if isinstance(a, tuple) or isinstance(b, tuple):
        a = a if isinstance(a, tuple) else (a,); b = b if isinstance(b, tuple) else (b,)
        return len(a) == len(b) and all(sameval(x, y) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF: return a is b
    return flat(a) is flat(b) or equivalent(a, b)

def run(cid, defs=(), opq=(), inline=(), opts=None, facts=None, only=None, ignore=(), src=None, subset=(), direct=None, extra=()):
    bc = build.module(build.lib_sources() + [build.VERIF + '/harness/' + (src or 'h_%s.cpp' % cid)], defs, extra)
    mod = build.dump(bc, [r'^(.* )?nv::(impl|spec)_\w+\([^()]*\)$', r'(\$_\d+|\{lambda\([^{}]*\)#\d+\})::operator\(\)'] + list((direct or {}).values()), OPQ + list(opq), list(inline))
    impl = {}; spec = {}
    for n, f in mod['functions'].items():
        for k, rx in (direct or {}).items():
            if re.search(rx, f['dem']): impl[k] = n
        s = short(f['dem'])
        if s: (impl if s[0] == 'impl' else spec)[s[1]] = n
    alts = {}
    for k in spec: alts.setdefault(k.split('__')[0], []).append(k)      # spec_X__2: another formulation of spec_X
    assert set(impl) == set(alts), set(impl) ^ set(alts)
    def one(k):
        ps = []
        for a in sorted(alts[k]):
            q = compare(mod, impl[k], spec[a], opts or {}, facts, ignore, subset); q.name = k
            ps.append(q)
            if q.status == 'ok': break
        return ([q for q in ps if q.status == 'ok'] or
                [q for q in ps if q.status == 'undecided' and not (q.extraonly and any(x.status == 'violated' for x in ps))] or [q for q in ps if q.status == 'violated'] or ps)[0]
    one0 = one
    def one(k):
        q = one0(k); ref = REFSKEL.get(cid, {}).get(k)
        # the loops are not the ones the specification was aligned with: a difference that is not a plain omission is no proof of one
        if q.status == 'violated' and ref is not None and restructured(getattr(q, 'skel', ref), ref) and not all(len(b) > 4 and b[4] for b in q.bad):
            q.status = 'undecided'; q.detail = ['the loops were restructured (%s, were %s); the summaries differ: %s' % (q.skel, ref, '; '.join('%s %s' % b[:2] for b in q.bad)[:600])]
        return q
    names = [k for k in sorted(impl) if not only or re.search(only, k)]
    res = parallel(one, names) if os.environ.get('NIKV_FORK') else [one(k) for k in names]
    if os.environ.get('NIKV_SKELOUT'):       # tools/mkskel.py
        with open(os.environ['NIKV_SKELOUT'], 'a') as f:
            for q in res: f.write(json.dumps([cid, q.name, getattr(q, 'skel', None)]) + '\n')
    return res

DEADLINE = time.time() + 600
def parallel(one, names, jobs=6, limit=240, mem=5 << 30):
    """every pair in a process of its own, with limits on time and memory: what exceeds them is undecided"""
    import pickle, resource, select, signal
    todo = list(names); run = {}; done = {}
    while todo or run:
        while todo and len(run) < jobs:
            k = todo.pop(0); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    try: q = one(k)
                    except (MemoryError, vf.Unsupported, TooBig, RecursionError) as x: q = Pair(k); q.status = 'undecided'; q.bad = []; q.detail = [type(x).__name__ + ' ' + str(x)[:200]]
                    except Exception as x:
                        import traceback
                        q = Pair(k); q.status = 'undecided'; q.bad = []; q.detail = ['internal ' + traceback.format_exc()[-300:]]
                    d = {a: getattr(q, a) for a in ('name', 'status', 'detail', 'stats', 'bad', 'regions', 'notes', 'assumed', 'skel') if hasattr(q, a)}
                    with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(d))
                finally: os._exit(0)
            os.close(w); run[r] = (k, pid, time.time(), [])
        ready, _, _ = select.select(list(run), [], [], 0.5)
        for r in list(run):
            k, pid, t0, buf = run[r]
            end = False
            if r in ready:
                x = os.read(r, 1 << 20)
                if x: buf.append(x)
                else: end = True
            if not end and (time.time() - t0 > limit or time.time() > DEADLINE): os.kill(pid, signal.SIGKILL); end = True
            if end:
                os.close(r); os.waitpid(pid, 0); del run[r]
                q = Pair(k)
                try: q.__dict__.update(pickle.loads(b''.join(buf)))
                except Exception: q.status = 'undecided'; q.bad = []; q.detail = ['stopped after %d s or out of memory' % (time.time() - t0)]
                done[k] = q
    return [done[k] for k in names]

if __name__ == '__main__':
    t = time.time()
    kw = {}
    cf = build.VERIF + '/checks/%s.py' % sys.argv[1]
    if os.path.exists(cf):
        sys.path.insert(0, build.VERIF + '/checks'); kw = dict(getattr(__import__(sys.argv[1]), 'KW', {}))
    kw['opts'] = dict(kw.get('opts') or {}, dbg='-d' in sys.argv)
    for p in run(sys.argv[1], only=sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-d' else None, **kw):
        print(p.name, p.status, p.detail if p.status != 'ok' else '')
        for b in getattr(p, 'bad', []): print('     ', b[0], b[1][:1500], [locstr(l) for l in b[2]], 'unk' if b[3] else '')
    print('%.1fs' % (time.time() - t))
