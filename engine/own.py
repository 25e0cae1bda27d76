"""Ownership of raw buffers: malloc/realloc/triangulate create one, free/realloc release one. Forward analysis with one abstract
heap object per creation site, on the control-flow graphs of the functions that touch such buffers; callees that touch them are
analysed in place, locals of class type are destroyed at the end of their function. What a member may hold when a member function
starts is the join of what every constructor and function leaves in it (class invariant, computed to a fixpoint)."""
import re
import syn, cfg
from cfg import strip
ALLOC = {'malloc', 'calloc', 'strdup', 'aligned_alloc', 'trimalloc'}
FREE = {'free', 'trifree', 'cfree'}
FILLED = ('pointlist', 'pointmarkerlist', 'trianglelist', 'triangleattributelist', 'segmentlist', 'segmentmarkerlist')  # what the switches pzqAQ(Y)a make triangulate() allocate
SHARED = ('holelist', 'regionlist')           # copied from the input, not allocated
LIMIT = 400

def raw(t): return t.rstrip().endswith('*') and not t.rstrip().endswith('**') and '(' not in t
LIBC = {'memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'printf', 'fprintf', 'snprintf', 'sprintf', 'qsort', 'strcpy', 'strncpy', 'strcmp', 'puts', 'fputs', 'fwrite', 'fread', 'bzero', 'triangulate'}
WRITES = {'memcpy', 'memmove', 'memset', 'bzero', 'fread'}
class GiveUp(Exception): pass

class St:
    __slots__ = ('env', 'heap', 'facts', 'ret')
    def __init__(s, env=None, heap=None, facts=None): s.env = env or {}; s.heap = heap or {}; s.facts = facts or {}; s.ret = None
    def copy(s):
        t = St(dict(s.env), dict(s.heap), dict(s.facts)); t.ret = s.ret; return t
    def key(s): return (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.facts.items()), s.ret)

class Frame:
    def __init__(s, fn, this, bind, depth, ctx=()): s.fn = fn; s.this = this; s.bind = bind; s.depth = depth; s.ctx = ctx; s.locals = []

class Owner:
    def __init__(s, P, report):
        s.P = P; s.report = report; s.rel = {}; s.graphs = {}; s.inv = {}; s.stats = dict(allocations=0, releases=0, exits=0, overwrites=0, handed_over=0)
        s.bysimple = {}
        for n, f in P.fn.items(): s.bysimple.setdefault(f['f']['q'], []).append(n)
        s.R = {s.short(k): k for k in P.rec}
        s.dtors = {s.rname(f['f']['cls']): n for n, f in P.fn.items() if f.get('dtor')}
        s.sites = set(); s.changed = False; s.uid = 0
        s.quiet = True
        s.pfields = {}
        for r, d in P.rec.items():
            for n, t in d['fields']:
                if raw(t): s.pfields.setdefault(r, []).append(n)
        # functions that touch buffers
        direct = {n for n, f in P.fn.items() if any(s.touches(e) for e in s.exprs(f))}
        s.relevant = set(direct)
        while True:
            new = {n for n, f in P.fn.items() if n not in s.relevant and any(e['k'] in ('call', 'ctor') and e.get('f') and e['f']['n'] in s.relevant for e in s.exprs(f))}
            if not new: break
            s.relevant |= new
        s.direct = direct
    @staticmethod
    def short(t): return re.sub(r'\b(const|struct|class|nikfemm::)\s*|\s*[&*]+$', '', t).replace(' ', '').strip()
    def rname(s, t): return s.R.get(s.short(t), t)
    def special(s, t, what):
        """the class (t, a base or a member) that writes its own copy"""
        for c in s.bases(t):
            d = s.P.rec.get(c)
            if d is None: continue
            if d.get(what) == 'user': return c
            for _, ft in d['fields']:
                if not ft.rstrip().endswith(('*', '&')) and s.rec(ft):
                    r = s.special(ft, what)
                    if r: return r
    def rec(s, t): return s.P.rec.get(s.rname(t))
    def exprs(s, f):
        for i in f.get('inits', ()): yield from syn.walk_e(i['e'])
        yield from syn.walk_s(f['body'])
    def touches(s, e):
        if e['k'] == 'call' and e.get('f'):
            n = e['f']['s']
            if n in ALLOC or n in FREE or n in ('realloc', 'triangulate'): return True
        if e['k'] == 'bin' and e['op'] == '=':
            x = strip(e['a'][0])
            return x['k'] == 'mem' and raw(x.get('t', '')) and x.get('cls', '').split('::')[-1].split('<')[0] in ('MeshData', 'triangulateio')
        # whole structures copied or exchanged
        if e['k'] == 'call' and (e.get('op') == '=' or e.get('f') and e['f']['s'] in ('operator=', 'swap', 'exchange')):
            xs = [e['obj']] if 'obj' in e else list(e.get('a', ()))[:1]
            return any(s.owned(s.typeof(x)) for x in xs)
        return False
    def owned(s, t): return any(s.ownercls(t, q).split('::')[-1] == 'MeshData' for q in s.structptrs(t))
    # ---- places
    def place(s, e, st, F):
        e = strip(e); k = e['k']
        if k == 'this': return F.this
        if k == 'var':
            b = F.bind.get(e['id'])
            if b is not None and b[0] == 'ref': return b[1]
            return (('v', F.fn, F.depth, e['id']),)
        if k == 'mem':
            b = strip(e['a'][0])
            if e.get('arrow') and b['k'] != 'this':
                v = s.ev(b, st, F)
                if isinstance(v, tuple) and v and v[0] == 'addr': return v[1] + (e['n'],)
                p = s.place(b, st, F)
                return None if p is None else p + ('*', e['n'])
            p = F.this if b['k'] == 'this' else s.place(b, st, F)
            return None if p is None else p + (e['n'],)
        if k == 'un' and e['op'] == '*':
            b = strip(e['a'][0])
            if b['k'] == 'this': return F.this
            v = s.ev(b, st, F)
            return v[1] if isinstance(v, tuple) and v and v[0] == 'addr' else None
        if k == 'idx' or k == 'call' and e.get('op') == '[]' or k == 'call' and e.get('f') and e['f']['s'] in ('at', 'front', 'back') and 'obj' in e:
            b = e['obj'] if 'obj' in e else e['a'][0]
            p = s.place(b, st, F)
            return None if p is None else p + ('[]',)
        if k == 'call' and e.get('f') and e['f']['s'] in ('move', 'forward', 'as_const') and len(e.get('a', ())) == 1: return s.place(e['a'][0], st, F)
        return None
    def typeof(s, e): return re.sub(r'^const | &&?$|&&?$', '', strip(e).get('t', '')).strip()
    def structptrs(s, t, d=0):
        """paths of the raw pointer members of a record"""
        r = s.rec(t); out = []
        if r is None or d > 4: return out
        for b in r['bases']: out += s.structptrs(b, d + 1)
        for n, ft in r['fields']:
            if raw(ft): out.append((n,))
            elif not ft.rstrip().endswith(('*', '&')) and s.rec(ft): out += [(n,) + x for x in s.structptrs(ft, d + 1)]
        return out
    def get(s, p, st, F, cls=None):
        if p is None: return 'any'
        if p in st.env: return st.env[p]
        v = s.entry(p, cls)
        if v == 'own':
            o = ('in',) + tuple(map(str, p)); st.heap.setdefault(o, 'live'); v = ('obj', o)
        st.env[p] = v
        return v
    def entry(s, p, cls):
        """value of a member nothing in this function has written yet"""
        r = p[0]
        if r[0] == 'v' or '[]' in p or '*' in p: return 'any'
        vs = s.inv.get((cls, p[-1]))
        if not vs: return 'any'
        if 'own' in vs: return 'own' if not (vs & {'dangling', 'undef', 'ext'}) else 'mixed'
        if vs == {'null'}: return 'null'
        if 'dangling' in vs: return 'dangling'
        if 'undef' in vs: return 'undef'
        if 'ext' in vs: return 'ext'
        return 'any'
    def bad(s, kind, l, F, text, key): s.report('bad', kind, s.where(F, l), text, key)
    def where(s, F, l):
        f = s.P.fn[F.fn]; return '%s:%s %s' % (f['rel'], l, F.fn.replace('nikfemm::', '')[:90])
    def name(s, p):
        return '.'.join(x if isinstance(x, str) else x[0] if x[0] != 'v' else s.vname(x) for x in p) if p else 'a buffer'
    def vname(s, x): return s.names.get((x[1], x[3]), 'local')
    names = {}
    # ---- expressions
    def new(s, st, l, F, what):
        o = ('new', F.fn, F.ctx, l, what)
        if st.heap.get(o) == 'live' and not s.holders(o, st): s.bad('leak', l, F, 'the buffer allocated here before is held by nothing', 'again:' + what)
        for p in s.holders(o, st): st.env[p] = 'any'      # an earlier one of the same site
        st.heap[o] = 'live'; s.sites.add((F.fn, l, what)); return ('obj', o)
    def ev(s, e, st, F):
        """value of a pointer expression; effects of calls in it"""
        e = strip(e); k = e['k']
        if k == 'lit': return 'null' if e.get('v') in ('null', 'nullptr', '0', 0, None) else 'any'
        if k == 'this': return ('addr', F.this) if F.this is not None else 'any'
        if k in ('var', 'mem') or k == 'un' and e['op'] == '*':
            b = F.bind.get(e.get('id')) if k == 'var' else None
            if b is not None and b[0] == 'val': return b[1] if (('v', F.fn, F.depth, e['id']),) not in st.env else st.env[(('v', F.fn, F.depth, e['id']),)]
            if k == 'mem': s.walk(e['a'][0], st, F)
            if not raw(e.get('t', '')) and not raw(e.get('vt', '')): return 'any'
            return s.get(s.place(e, st, F), st, F, e.get('cls'))
        if k == 'un' and e['op'] == '&':
            p = s.place(e['a'][0], st, F)
            return ('addr', p) if p is not None else 'ext'
        if k == 'cond':
            s.walk(e['a'][0], st, F)
            if s.choices is not None: return s.ev(e['a'][1 + s.choose(2)], st, F)
            a = s.ev(e['a'][1], st, F); b = s.ev(e['a'][2], st, F)
            if a == b: return a
            s.escape(a, st); s.escape(b, st); return 'any'
        if k == 'bin' and e['op'] == '=': return s.assign(e['a'][0], e['a'][1], st, F, e.get('l'))
        if k == 'bin' and e['op'] == ',': s.walk(e['a'][0], st, F); return s.ev(e['a'][1], st, F)
        if k == 'bin' and e['op'] in '+-' and raw(e.get('t', '')):
            s.walk(e, st, F, skip=True); return 'any'
        if k == 'idx':
            v = s.ev(e['a'][0], st, F); s.walk(e['a'][1], st, F); s.used(v, st, e.get('l'), F, e['a'][0]); return 'any'
        if k == 'call': return s.call(e, st, F)
        if k == 'new':
            s.walk(e, st, F, skip=True)
            return s.new(st, e.get('l'), F, 'new') if F.fn in s.direct and not s.rec(e.get('at', '')) else 'any'
        s.walk(e, st, F, skip=True); return 'any'
    def used(s, v, st, l, F, e):
        if isinstance(v, tuple) and v[0] == 'obj' and st.heap.get(v[1]) == 'freed':
            s.bad('used after release', l, F, '%s is used after it was released' % syn.show(e), 'use:' + syn.show(e)[:40])
    def walk(s, e, st, F, skip=False):
        """effects of an expression whose value does not matter"""
        if not isinstance(e, dict): return
        e = strip(e) if not skip else e
        if not skip and e['k'] in ('call', 'idx') or not skip and e['k'] == 'bin' and e['op'] == '=': s.ev(e, st, F); return
        if not skip and e['k'] == 'ctor' and e.get('f') and e['f']['n'] in s.relevant: s.call(e, st, F); return
        if e['k'] == 'delete':
            v = s.ev(e['a'][0], st, F); x = strip(e['a'][0])
            if isinstance(v, tuple) and v[0] == 'obj' and v[1][0] in ('new', 'in') and v[1][-1] != 'new':
                s.bad('release', e.get('l'), F, 'delete of %s, which malloc() or the triangulator allocated' % syn.show(x), 'delete:' + syn.show(x)[:40])
            s.release(v, s.place(x, st, F), st, e.get('l'), F, 'delete', syn.show(x)); return
        if e['k'] == 'lambda':       # what it mentions is out of sight from here on
            for y in syn.walk_s(e['body']) if isinstance(e.get('body'), dict) else ():
                if y['k'] in ('var', 'mem') and raw(y.get('t', '') or y.get('vt', '')): s.hide(s.place(y, st, F), st)
            return
        for x in e.get('a', ()): s.arg(x, st, F) if e['k'] in ('ctor', 'init', 'new') else s.walk(x, st, F)
        for q in ('obj', 'callee'):
            if isinstance(e.get(q), dict): s.walk(e[q], st, F)
    def escape(s, v, st):
        if isinstance(v, tuple) and v[0] == 'obj' and st.heap.get(v[1]) == 'live': st.heap[v[1]] = 'esc'
    def hide(s, p, st):
        if p is not None and p in st.env: s.escape(st.env[p], st); st.env[p] = 'any'
    def arg(s, x, st, F):
        y = strip(x)
        if raw(y.get('t', '')): s.escape(s.ev(x, st, F), st)
        else: s.walk(x, st, F)
    def release(s, v, p, st, l, F, how, txt):
        s.sites.add((F.fn, l, 'release'))
        if v == 'null': return
        if v == 'undef': s.bad('release', l, F, '%s of %s, which was never given a value' % (how, txt), how + txt[:40] + 'undef'); return
        if v == 'ext' or isinstance(v, tuple) and v[0] == 'addr': s.bad('release', l, F, '%s of %s, which is not memory this code obtained' % (how, txt), how + txt[:40] + 'ext'); return
        if v == 'dangling': s.bad('release', l, F, '%s of %s, which may have been released already' % (how, txt), how + txt[:40] + 'dangling'); return
        if v == 'mixed': s.bad('release', l, F, '%s of %s, which may hold memory that is released elsewhere' % (how, txt), how + txt[:40] + 'mixed'); return
        if isinstance(v, tuple) and v[0] == 'obj':
            h = st.heap.get(v[1])
            if how != 'delete' and v[1][-1] == 'new': s.bad('release', l, F, '%s of %s, which new allocated' % (how, txt), how + txt[:40] + 'new')
            if h == 'freed': s.bad('release', l, F, '%s of %s a second time' % (how, txt), how + txt[:40] + 'twice')
            elif h in ('live', 'esc'): st.heap[v[1]] = 'freed'
    def holders(s, o, st, but=None): return [p for p, v in st.env.items() if v == ('obj', o) and p != but]
    def put(s, p, v, st, F, l, txt):
        if p is None: s.escape(v, st); return
        if '[]' in p:
            s.escape(st.env.get(p), st); st.env[p] = v
            if '[]' != p[-1]: return
            s.escape(v, st); st.env[p] = 'any'; return
        old = st.env.get(p)
        if old is None and p[0][0] != 'v': old = s.get(p, st, F, s.clsof.get(p))
        if isinstance(old, tuple) and old[0] == 'obj' and old != v and st.heap.get(old[1]) == 'live' and '[]' not in p and not s.holders(old[1], st, p):
            s.bad('leak', l, F, '%s is overwritten while it may still hold a buffer' % txt, 'over:' + txt[:50])
            st.heap[old[1]] = 'esc'
        if not s.quiet and isinstance(old, tuple) and old[0] == 'obj': s.stats['overwrites'] += 1
        st.env[p] = v
    clsof = {}
    def assign(s, lhs, rhs, st, F, l):
        x = strip(lhs); t = s.typeof(x)
        if raw(x.get('t', '')) or raw(x.get('vt', '')):
            v = s.ev(rhs, st, F); p = s.place(x, st, F)
            if x['k'] == 'idx': s.ev(x, st, F)
            if p is not None and x.get('cls'): s.clsof[p] = x['cls']
            s.put(p, v, st, F, l, syn.show(x)); return v
        ps = s.structptrs(t)
        if ps: s.copystruct(s.place(x, st, F), rhs, ps, st, F, l, t); return 'any'
        s.walk(rhs, st, F); s.walk(x, st, F); return 'any'
    def ownercls(s, t, path):
        """record that declares the last member of path"""
        for n in path[:-1]:
            t = next((ft for c in s.bases(t) for fn, ft in (s.rec(c) or {}).get('fields', ()) if fn == n), t)
        return next((c for c in s.bases(t) if any(fn == path[-1] for fn, _ in (s.rec(c) or {}).get('fields', ()))), s.rname(t))
    def bases(s, t):
        t = s.rname(t); out = [t]
        for b in s.P.rec.get(t, {}).get('bases', ()): out += s.bases(b)
        return out
    def structval(s, e, ps, st, F, t):
        """values of the pointer members of a struct expression"""
        x = strip(e)
        if x['k'] == 'ctor' and x.get('a') and s.special(t, 'cctor'): s.walk(x, st, F, skip=True); return {q: 'any' for q in ps}
        while x['k'] == 'ctor' and x.get('copy') and x.get('a'): x = strip(x['a'][0])
        if x['k'] == 'call' and x.get('f') and x['f']['s'] == 'exchange' and len(x.get('a', ())) == 2:
            p = s.place(x['a'][0], st, F); vs = {q: s.get(p + q, st, F, s.ownercls(t, q)) if p else 'any' for q in ps}
            nv = s.structval(x['a'][1], ps, st, F, t)
            for q in ps:
                if p: st.env[p + q] = nv[q]
            return vs
        if x['k'] in ('ctor', 'init') and not x.get('a'): return {q: s.fieldinit(t, q, x) for q in ps}
        if x['k'] == 'call':
            r = s.call(x, st, F)
            return {q: dict(r[1]).get(q, 'any') for q in ps} if isinstance(r, tuple) and r[0] == 'struct' else {q: 'any' for q in ps}
        p = s.place(x, st, F)
        if p is None: s.walk(x, st, F); return {q: 'any' for q in ps}
        return {q: s.get(p + q, st, F, s.ownercls(t, q)) for q in ps}
    def fieldinit(s, t, q, e=None):
        d = s.P.rec.get(s.ownercls(t, q), {})
        i = d.get('init', {}).get(q[-1])
        if i is None: return 'null' if e is not None and e.get('zero') else 'undef'
        return 'null' if strip(i).get('v') in ('null', 'nullptr', '0', 0, None) or not strip(i).get('a') and strip(i)['k'] == 'init' else 'any'
    def copystruct(s, p, rhs, ps, st, F, l, t):
        vs = s.structval(rhs, ps, st, F, t)
        for q in ps:
            if p is None: s.escape(vs[q], st); continue
            s.clsof[p + q] = s.ownercls(t, q); s.put(p + q, vs[q], st, F, l, s.name((p + q)[1:] or p + q))
    def call(s, e, st, F):
        f = e.get('f'); a = list(e.get('a', ())); l = e.get('l')
        n = f['s'] if f else ''
        if e['k'] == 'call' and e.get('op') == '=' or n == 'operator=':
            ob = e.get('obj') or (a[0] if a else None); r = a[-1] if a else None
            t = s.typeof(ob) if ob is not None else ''
            if f and f['n'] in s.relevant and f['n'] in s.P.fn: return s.inline(f['n'], ob, a, st, F, l)
            ps = s.structptrs(t)
            if ps and s.special(t, 'cassign'):
                for x in a: s.walk(x, st, F)
                return 'any'
            if ps and r is not None: s.copystruct(s.place(ob, st, F), r, ps, st, F, l, t); return 'any'
        if f and f['n'] in s.P.fn and f['n'] in s.relevant: return s.inline(f['n'], e.get('obj'), a, st, F, l)
        if n in ALLOC:
            for x in a: s.walk(x, st, F)
            return s.new(st, l, F, n)
        if n in FREE and len(a) == 1:
            v = s.ev(a[0], st, F); s.release(v, s.place(a[0], st, F), st, l, F, 'release', syn.show(strip(a[0]))); return 'any'
        if n == 'realloc' and len(a) == 2:
            v = s.ev(a[0], st, F); s.walk(a[1], st, F); s.release(v, s.place(a[0], st, F), st, l, F, 'reallocation', syn.show(strip(a[0])))
            return s.new(st, l, F, n)
        if n == 'triangulate' and len(a) == 4: return s.triangulate(a, st, F, l)
        if n == 'exchange' and len(a) == 2:
            x = strip(a[0])
            if raw(x.get('t', '')):
                p = s.place(x, st, F); v = s.get(p, st, F, x.get('cls')); w = s.ev(a[1], st, F)
                if p is not None: st.env[p] = w
                return v
        if n == 'swap' and len(a) == 2:
            t = s.typeof(a[0]); p, q = s.place(a[0], st, F), s.place(a[1], st, F)
            for r in ([()] if raw(t) else s.structptrs(t)):
                if p is None or q is None: continue
                c = s.ownercls(t, r) if r else strip(a[0]).get('cls')
                v, w = s.get(p + r, st, F, c), s.get(q + r, st, F, c); st.env[p + r] = w; st.env[q + r] = v
            return 'any'
        if n in ('move', 'forward') and len(a) == 1: return s.ev(a[0], st, F)
        if n == 'data' and 'obj' in e: return 'ext'
        std = bool(f) and (f.get('q', '').startswith('std::') or n in LIBC or f['n'] in s.P.fn)
        keep = f and f.get('q', '').startswith('std::') and 'obj' in e and n in ('push_back', 'emplace_back', 'insert', 'emplace', 'reset') or e['k'] == 'ctor'
        if isinstance(e.get('obj'), dict): s.walk(e['obj'], st, F)
        for x in a:
            y = strip(x)
            if raw(y.get('t', '')):
                v = s.ev(x, st, F)
                if isinstance(v, tuple) and v[0] == 'addr' and (not std or n in WRITES and x is a[0]):
                    for p in [p for p in st.env if p[:len(v[1])] == v[1]]: s.hide(p, st)
                if keep or not std: s.escape(v, st)
                if not std: s.hide(s.place(x, st, F), st)
                if keep or not std: pass
                elif n not in ('printf', 'fprintf'): s.used(v, st, l, F, x)
            else: s.walk(x, st, F)
        return 'any'
    def triangulate(s, a, st, F, l):
        for x in (a[0], a[3]): s.walk(x, st, F)
        i, o = s.ev(a[1], st, F), s.ev(a[2], st, F)
        if not (isinstance(i, tuple) and i[0] == 'addr' and isinstance(o, tuple) and o[0] == 'addr'): raise GiveUp('triangulate() of structures the analysis does not see')
        i, o = i[1], o[1]
        oc = s.outcls(a[2])
        for f in ('pointlist', 'segmentlist', 'regionlist', 'holelist'):
            v = st.env.get(i + (f,), 'undef')
            if isinstance(v, tuple) and v[0] == 'obj' and st.heap.get(v[1]) == 'freed': s.bad('used after release', l, F, '%s is handed to the triangulator after it was released' % s.name(i + (f,)), 'tri:' + f)
        for f in s.filled(F):
            p = o + (f,); v = s.get(p, st, F, oc); s.sites.add((F.fn, l, 'handed ' + f))
            if v == 'null' or v == 'any' or '[]' in p: pass
            elif isinstance(v, tuple) and v[0] == 'obj' and st.heap.get(v[1]) == 'live': s.bad('handed over', l, F, '%s may still hold a buffer when the triangulator is to fill it' % s.name(p), 'hand:' + f)
            elif v in ('undef', 'dangling', 'mixed', 'ext') or isinstance(v, tuple): s.bad('handed over', l, F, '%s is neither null nor a buffer when the triangulator is to fill it' % s.name(p), 'hand:' + f)
            s.clsof[p] = oc; st.env[p] = s.new(st, l, F, f)
        for f in SHARED: s.clsof[o + (f,)] = oc; st.env[o + (f,)] = st.env.get(i + (f,), 'any')
        return 'any'
    def filled(s, F):
        """the lists the switches of this function make the triangulator allocate"""
        fm = [y['v'] for y in s.exprs(s.P.fn[F.fn]) if y['k'] == 'lit' and isinstance(y.get('v'), str) and re.match(r'^[a-zA-Z0-9%.]*p[a-zA-Z0-9%.]*$', y['v']) and ('z' in y['v'] or 'q' in y['v'])]
        sw = re.sub(r'%[-+0-9.l]*[a-z]', '', fm[0]) if len(fm) == 1 else 'pzqAQa'
        out = list(FILLED)
        if 'n' in sw: out.append('neighborlist')
        if 'e' in sw: out += ['edgelist'] + ([] if 'B' in sw else ['edgemarkerlist'])
        if 'B' in sw: out = [x for x in out if not x.endswith('markerlist')]
        if 'P' in sw: out = [x for x in out if not x.startswith('segment')]
        if 'N' in sw: out = [x for x in out if not x.startswith('point')]
        if 'E' in sw: out = [x for x in out if not x.startswith('triangle')]
        if 'A' not in sw: out = [x for x in out if x != 'triangleattributelist']
        return out
    def outcls(s, e):
        for y in syn.walk_e(e):
            if y['k'] == 'un' and y['op'] == '&': return s.typeof(y['a'][0])
        return 'nikfemm::MeshData'
    # ---- calls of functions of the repository
    def inline(s, n, ob, a, st, F, l):
        f = s.P.fn[n]
        if F.depth > 7: return 'any'
        this = None
        if ob is not None:
            v = s.ev(ob, st, F) if strip(ob).get('t', '').rstrip().endswith('*') else None
            this = v[1] if isinstance(v, tuple) and v[0] == 'addr' else s.place(ob, st, F) if v is None else None
        if this is None: s.uid += 1; this = (('x', 'object'), '[]')
        bind = {}
        for q, x in zip(f['params'], a):
            t = q['t']
            if t.rstrip().endswith('&'):
                p = s.place(x, st, F)
                if p is None: s.walk(x, st, F); s.uid += 1; p = (('v', 'tmp', F.depth, s.uid),)
                bind[q['id']] = ('ref', p)
            elif t.rstrip().endswith('*'): bind[q['id']] = ('val', s.ev(x, st, F))
            elif s.structptrs(t):
                for w, v in s.structval(x, s.structptrs(t), st, F, t).items(): st.env[(('v', n, F.depth + 1, q['id']),) + w] = v
            else: s.walk(x, st, F)
        G = Frame(n, this, bind, F.depth + 1, F.ctx + ((l, n),))
        r = s.pick(s.body(f, st, G), st)
        return r if r is not None else 'any'
    # a call may end in several states: the step is evaluated again for each of them
    choices = None; pos = 0
    def choose(s, n):
        if s.pos == len(s.choices): s.choices.append([0, n])
        i = min(s.choices[s.pos][0], n - 1); s.pos += 1; return i
    def pick(s, outs, st):
        if not outs: raise Dead()
        i = 0
        if len(outs) > 1:
            if s.choices is None: raise GiveUp('a call with several outcomes where only one is followed')
            i = s.choose(len(outs))
        o = outs[i]; st.env, st.heap, st.facts = dict(o.env), dict(o.heap), dict(o.facts); return o.ret
    def fork(s, fun, st):
        saved = s.choices, s.pos; s.choices = []; out = {}; n = 0
        try:
            while True:
                s.pos = 0; t = st.copy(); n += 1
                if n > LIMIT: raise GiveUp('too many outcomes of one step')
                try: fun(t); out.setdefault(t.key(), t)
                except Dead: pass
                while s.choices and s.choices[-1][0] + 1 >= s.choices[-1][1]: s.choices.pop()
                if not s.choices: break
                s.choices[-1][0] += 1
        finally: s.choices, s.pos = saved
        return list(out.values())
    def graph(s, f):
        g = s.graphs.get(f['name'])
        if g is None:
            g = s.graphs[f['name']] = cfg.CFG(f['body'], [])
        return g
    def body(s, f, st, F):
        """states at the normal ends of the function"""
        g = s.graph(f)
        for i in f.get('inits', ()):
            p = F.this + (i['n'],) if 'n' in i and F.this is not None else None
            x = strip(i['e'])
            if p is None:
                if x['k'] == 'ctor' and x.get('f') and x['f']['n'] in s.relevant and x['f']['n'] in s.P.fn: s.sub(x['f']['n'], F.this, x.get('a', ()), st, F)
                continue
            if raw(x.get('t', '')) or x['k'] == 'lit': st.env[p] = s.ev(x, st, F)
            else:
                t = s.typeof(x); ps = s.structptrs(t)
                if ps:
                    for q, v in s.structval(x, ps, st, F, t).items(): st.env[p + q] = v
        work = [(g.entry, st)]; seen = {}; outs = []; steps = 0
        while work:
            n, t = work.pop(); steps += 1
            if steps > 6000: raise GiveUp('too many abstract states')
            k = t.key()
            if k in seen.setdefault(n.i, set()): continue
            seen[n.i].add(k)
            if len(seen[n.i]) > LIMIT: raise GiveUp('too many abstract states')
            if n is g.exit or n.k == 'exit':
                outs += s.leave(f, t, F); continue
            ts = s.step(n, t.copy(), F)
            for t2 in ts:
                for m, lab in n.succ:
                    if lab == 'exc': continue
                    t3 = s.edge(n, lab, t2.copy(), F)
                    if t3 is not None: work.append((m, t3))
        uniq = {}
        for o in outs: uniq.setdefault(o.key(), o)
        return list(uniq.values())
    def sub(s, n, this, a, st, F, l=None):
        G = Frame(n, this, {}, F.depth + 1, F.ctx + ((l, n),)); f = s.P.fn[n]
        for q, x in zip(f['params'], a):
            if q['t'].rstrip().endswith('&'):
                p = s.place(x, st, F)
                if p is not None: G.bind[q['id']] = ('ref', p)
        s.pick(s.body(f, st, G), st)
    def step(s, n, st, F):
        def go(t):
            if n.k == 'decl': s.decl(n.x, t, F)
            elif n.k in ('e', 'br', 'rinit'):
                if isinstance(n.x, dict): s.walk(n.x['range'] if n.k == 'rinit' else n.x, t, F)
            elif n.k == 'ret' and isinstance(n.x, dict):
                ty = s.typeof(n.x)
                if raw(strip(n.x).get('t', '')): t.ret = s.ev(n.x, t, F)
                elif s.structptrs(ty) and not s.P.fn[F.fn]['f']['r'].rstrip().endswith('&'): t.ret = ('struct', tuple(sorted(s.structval(n.x, s.structptrs(ty), t, F, ty).items(), key=str)))
                else: s.walk(n.x, t, F)
        outs = s.fork(go, st)
        for t in outs:
            for x in s.assigned(n):
                for k in [k for k, (b, vs) in t.facts.items() if x in vs]: del t.facts[k]
        return outs
    def assigned(s, n):
        out = set()
        if n.k == 'decl': out.add(n.x['id'])
        if isinstance(n.x, dict) and n.k in ('e', 'br', 'ret'):
            for y in syn.walk_e(n.x):
                if y['k'] == 'bin' and y['op'] in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=') or y['k'] == 'un' and y['op'] in ('++', '--', '&'):
                    z = strip(y['a'][0])
                    if z['k'] == 'var': out.add(z['id'])
        return out
    def decl(s, d, st, F):
        p = (('v', F.fn, F.depth, d['id']),); s.names[(F.fn, d['id'])] = d['n']; i = d.get('init'); t = d['t']
        if t.rstrip().endswith('&'):
            q = s.place(i, st, F) if i else None
            if q is not None: F.bind[d['id']] = ('ref', q)
            elif i: s.walk(i, st, F)
            return
        if raw(t):
            s.drop(p, st, F, d['l'])
            st.env[p] = s.ev(i, st, F) if i else 'undef'; return
        ps = s.structptrs(t)
        if ps:
            if (p, 'made') in st.env: s.destroy(p, t, st, F, d['l'])
            if i is not None and strip(i)['k'] == 'ctor' and not strip(i).get('a') and strip(i).get('f') and strip(i)['f']['n'] in s.relevant and strip(i)['f']['n'] in s.P.fn:
                for q in ps: st.env[p + q] = s.fieldinit(t, q)
                s.sub(strip(i)['f']['n'], p, (), st, F)
            elif i is None or strip(i)['k'] in ('ctor', 'init') and not strip(i).get('a'):
                for q in ps: st.env[p + q] = s.fieldinit(t, q, strip(i) if i else None)
            else:
                for q, v in s.structval(i, ps, st, F, t).items(): st.env[p + q] = v
            st.env[(p, 'made')] = t
            if (p, t) not in F.locals: F.locals.append((p, t))
            return
        if i: s.walk(i, st, F)
    def drop(s, p, st, F, l):
        v = st.env.get(p)
        if isinstance(v, tuple) and v[0] == 'obj' and st.heap.get(v[1]) == 'live' and not s.holders(v[1], st, p):
            s.bad('leak', l, F, '%s goes out of scope while it still holds a buffer' % s.name(p), 'scope:' + s.name(p)); st.heap[v[1]] = 'esc'
    def destroy(s, p, t, st, F, l):
        """end of a local of class type"""
        for c in s.bases(t):
            if c in s.dtors and s.dtors[c] in s.relevant:
                G = Frame(s.dtors[c], p, {}, F.depth + 1, F.ctx + ((l, 'end'),)); r = st.ret; s.pick(s.body(s.P.fn[s.dtors[c]], st, G), st); st.ret = r
        for n, ft in [x for c in s.bases(t) for x in s.P.rec.get(c, {}).get('fields', ())]:
            if not ft.rstrip().endswith(('*', '&')) and s.rec(ft): s.destroy(p + (n,), ft, st, F, l)
    def edge(s, n, lab, st, F):
        if n.k != 'br' or lab is None: return st
        e = strip(n.x); neg = not lab
        x = None
        if e['k'] == 'bin' and e['op'] in ('==', '!='):
            l, r = strip(e['a'][0]), strip(e['a'][1])
            if r['k'] == 'lit' and r.get('v') in ('null', 'nullptr', '0', 0): x = l
            elif l['k'] == 'lit' and l.get('v') in ('null', 'nullptr', '0', 0): x = r
            isnull = (e['op'] == '==') != neg
        elif raw(e.get('t', '')) or e['k'] in ('var', 'mem') and raw(e.get('vt', '')): x = e; isnull = neg
        if x is not None and raw(x.get('t', '') or x.get('vt', '')):
            p = s.place(x, st, F)
            if p is not None:
                v = s.get(p, st, F, x.get('cls'))
                if isnull:
                    if isinstance(v, tuple) and v[0] == 'addr': return None
                    if isinstance(v, tuple) and v[0] == 'obj':
                        if v[1][0] == 'new': return None       # an allocation that fails is outside what is judged
                        if st.heap.get(v[1]) != 'freed': st.heap.pop(v[1], None)
                        else: return None
                        for q in s.holders(v[1], st): st.env[q] = 'null'
                    st.env[p] = 'null'
                elif v == 'null': return None
            return st
        # a condition over locals that was decided before
        vs = frozenset(y['id'] for y in syn.walk_e(e) if y['k'] == 'var')
        if vs and not any(y['k'] in ('call', 'idx', 'mem', 'lambda', 'ctor') for y in syn.walk_e(e)):
            k = syn.show(e)
            if k in st.facts: return st if st.facts[k][0] == lab else None
            if not n.loops: st.facts[k] = (lab, vs)
        return st
    def leave(s, f, st, F):
        l = f.get('end', f['line'])
        return s.fork(lambda t: s.ending(f, t, F, l), st)
    def ending(s, f, st, F, l):
        for p, t in reversed(F.locals):
            if (p, 'made') in st.env: s.destroy(p, t, st, F, l)
        for p in [p for p in st.env if isinstance(p[0], tuple) and len(p[0]) == 4 and p[0][0] == 'v' and p[0][1] == F.fn and p[0][2] == F.depth]:
            v = st.env.get(p)
            if st.ret is not None and (v == st.ret or st.ret[0] == 'struct' and v in [w for _, w in st.ret[1]]): del st.env[p]; continue
            s.drop(p, st, F, l); del st.env[p]
        for p in [p for p in st.env if p[-1] == 'made' and isinstance(p[0], tuple) and isinstance(p[0][0], tuple) and p[0][0][0] == 'v' and p[0][0][1] == F.fn and p[0][0][2] == F.depth]: del st.env[p]
        held = {v[1] for v in st.env.values() if isinstance(v, tuple) and v[0] == 'obj'}
        for o in [o for o, h in st.heap.items() if h != 'live' and o not in held]: del st.heap[o]
        st.facts = {} if F.depth else st.facts
        if not s.quiet: s.stats['exits'] += 1
    # ---- roots
    def run(s):
        roots = [n for n in sorted(s.relevant) if n in s.direct or s.P.fn[n].get('dtor')]
        for c, ps in s.pfields.items():
            if c.split('::')[-1].split('<')[0] not in ('MeshData',): continue
            for q in ps: s.inv[(c, q)] = {s.fieldinit(c, (q,))} & {'null', 'undef', 'any'}
        s.gave = {}
        for rnd in range(6):
            s.changed = False; s.quiet = True; rep = s.report; s.report = lambda *a: None
            for n in roots: s.root(n)
            s.report = rep
            if not s.changed: break
        s.quiet = False; s.gave = {}
        for n in roots: s.root(n)
        return roots
    def root(s, n):
        f = s.P.fn[n]; this = (('this',),)
        F = Frame(n, this, {}, 0)
        for q in f['params']:
            t = q['t'].rstrip()
            if t.endswith('&'): F.bind[q['id']] = ('ref', (('arg', q['n']),))
            elif t.endswith('*'): F.bind[q['id']] = ('val', ('addr', (('arg', q['n']),)) if s.rec(t) else 'any')
            elif s.rec(t): F.bind[q['id']] = ('ref', (('arg', q['n']),))
        st = St()
        if f.get('ctor'):
            for q in s.structptrs(f['f']['cls']): st.env[this + q] = s.fieldinit(f['f']['cls'], q)
        try: outs = s.body(f, st, F)
        except (GiveUp, RecursionError, Dead) as e: s.gave[n] = str(e); return
        dt = f.get('dtor')
        for o in outs:
            kept = {}
            for p, v in o.env.items():
                if p[0][0] in ('this', 'arg') or '[]' in p:
                    if isinstance(v, tuple) and v[0] == 'obj': kept.setdefault(v[1], []).append(p)
            for p, v in o.env.items():
                c = s.clsof.get(p) or (s.ownercls(f['f'].get('cls', ''), p[1:]) if p[0] == ('this',) and len(p) > 1 else None)
                if dt and p[0] == ('this',):
                    if isinstance(v, tuple) and v[0] == 'obj' and o.heap.get(v[1]) == 'live': s.bad('leak', f.get('end', f['line']), F, '%s is not released by the destructor' % s.name(p[1:]), 'dtor:' + s.name(p[1:]))
                    continue
                if dt or c is None or (c, p[-1]) not in s.inv: continue
                if p[0][0] not in ('this', 'arg'): continue
                a = v
                if isinstance(v, tuple): a = {'live': 'own', 'freed': 'dangling', 'esc': 'any', None: 'any'}[o.heap.get(v[1])] if v[0] == 'obj' else 'ext'
                if isinstance(v, tuple) and v[0] == 'obj' and a == 'own' and len(kept.get(v[1], ())) > 1:
                    x = [q for q in kept[v[1]] if q != p][0]
                    s.bad('shared', f['line'], F, '%s and %s hold the same buffer afterwards' % (s.name(p), s.name(x)), 'share:' + s.name(p[1:]))
                if a not in s.inv[(c, p[-1])] and a in ('null', 'own', 'dangling', 'ext', 'undef'): s.inv[(c, p[-1])].add(a); s.changed = True
            for obj, h in o.heap.items():
                if h == 'live' and not s.holders(obj, o) and o.ret != ('obj', obj) and not (isinstance(o.ret, tuple) and o.ret[0] == 'struct' and ('obj', obj) in [w for _, w in o.ret[1]]):
                    s.bad('leak', f.get('end', f['line']), F, 'a buffer is still held by nothing when the function ends (%s)' % (obj[-1],), 'end:' + str(obj[-1]))
        if dt:       # everything a member may hold is released
            for q in s.structptrs(f['f']['cls']):
                c = s.ownercls(f['f']['cls'], q)
                if 'own' in s.inv.get((c, q[-1]), ()) and not any((('this',),) + q in o.env and isinstance(o.env[(('this',),) + q], (tuple, str)) for o in outs):
                    s.bad('leak', f.get('end', f['line']), F, '%s is not released by the destructor' % '.'.join(q), 'dtor:' + '.'.join(q))
class Dead(Exception): pass
