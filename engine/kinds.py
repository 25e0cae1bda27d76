"""Index kinds: infers, by unification over the typed syntax trees, what every integer counts or numbers (nodes, triangles, segments, …) and by what every
array is indexed. Functions are analysed bottom-up; each call gets its own instance of the callee's constraints. A class of values that is
both a node number and a triangle number (or count, or array key) is a violation."""
import re
import syn
SEED = {('MeshData', 'numberofpoints'): ('V', 'node'), ('MeshData', 'numberoftriangles'): ('V', 'triangle'), ('MeshData', 'numberofsegments'): ('V', 'segment'), ('MeshData', 'numberofedges'): ('V', 'edge'), ('MeshData', 'numberofholes'): ('V', 'hole'), ('MeshData', 'numberofregions'): ('V', 'region marker'),
        ('MeshData', 'pointlist'): ('K', 'node'), ('MeshData', 'pointmarkerlist'): ('K', 'node'), ('MeshData', 'pointattributelist'): ('K', 'node'),
        ('MeshData', 'trianglelist'): ('K', 'triangle'), ('MeshData', 'triangleattributelist'): ('K', 'triangle'), ('MeshData', 'trianglearealist'): ('K', 'triangle'),
        ('MeshData', 'segmentmarkerlist'): ('K', 'segment'), ('MeshData', 'edgemarkerlist'): ('K', 'edge'),
        ('Elem', 'verts'): ('E', 'node')}
INT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|unsigned|size_t|long long|uint\d+_t|int\d+_t|bool)( int| long)*( &)?$|^(const )?unsigned( &)?$')
VEC = re.compile(r'^(const )?std::(vector|deque|array|span|basic_string)<')
MAP = re.compile(r'std::(unordered_)?(multi)?map<')
SET = re.compile(r'std::(unordered_)?(multi)?set<')
def isint(t): return bool(INT.match(t.strip()))

class Node:
    __slots__ = ('up', 'kinds', 'subs', 'adds', 'edges', 'slack')
    def __init__(self): self.up = None; self.kinds = {}; self.subs = {}; self.adds = None; self.edges = []; self.slack = False
    def find(self):
        n = self
        while n.up is not None: n = n.up
        return n
class Sig:
    def __init__(self): self.params = []; self.this = Node(); self.ret = Node()

class Kinds:
    def __init__(self, P):
        self.P = P; self.sigs = {}; self.active = set(); self.conflicts = []; self.stats = dict(index=0, sized=0, compared=0, calls=0); self.past = []
        self.fixed = []
        for n in P.fn: self.sig(n)
    def sig(self, n):
        if n in self.sigs: return self.sigs[n]
        if n in self.active: return None
        self.active.add(n); f = F(self, self.P.fn[n]); s = f.run(); self.active.discard(n); self.sigs[n] = s
        return s

def sub(n, k):
    n = n.find()
    if k not in n.subs: n.subs[k] = Node()
    return n.subs[k].find()

class F:
    def __init__(self, A, f):
        self.A = A; self.f = f; self.env = {}; self.all = []; self.sig = Sig(); self.decl = {}; self.counts = {}; self.loose = False
        for p in f['params']: n = Node(); self.env[p['id']] = n; self.sig.params.append(n)
        self.le = []      # variables running up to and including a count
    def run(self):
        for i in self.f.get('inits', ()):
            if i.get('n') and i.get('e'): self.unify(self.fieldnode(self.sig.this, self.f['f'].get('cls', ''), i['n'], None), self.ev(i['e']), None)
        self.s(self.f['body'])
        self.report()
        return self.sig
    # ---- unification
    def site(self, e): return (self.f['rel'], e.get('l') if isinstance(e, dict) else None, syn.show(e)[:110] if isinstance(e, dict) and 'k' in e else '')
    def unify(self, a, b, e):
        if a is None or b is None: return
        a0, b0 = a, b
        a = a.find(); b = b.find()
        if e is not None: a0.edges.append((b0, self.site(e))); b0.edges.append((a0, self.site(e)))
        if a is b: return
        b.up = a
        for k, v in b.kinds.items(): a.kinds.setdefault(k, v)
        a.slack |= b.slack
        if len(a.kinds) > 1 and a not in self.all: self.all.append(a)
        bs = b.subs; b.subs = {}
        for k, v in bs.items():
            if k in a.subs: self.unify(a.subs[k], v, e)
            else: a.subs[k] = v
            a = a.find()
    def seed(self, n, kind, e):
        m = n.find()
        if kind not in m.kinds: m.kinds[kind] = (n, self.site(e) if e else (self.f['rel'], self.f['line'], ''))
        if len(m.kinds) > 1 and m not in self.all: self.all.append(m)
    def report(self):
        seen = set()
        for n in self.all:
            n = n.find()
            if id(n) in seen or len(n.kinds) < 2: continue
            seen.add(id(n))
            (k1, (n1, s1)), (k2, (n2, s2)) = sorted(n.kinds.items(), key=lambda x: x[0])[:2]
            path = self.path(n1, n2)
            self.A.conflicts.append((self.f, sorted(n.kinds), path, s1, s2))
            n.kinds = {}
    def path(self, a, b):
        prev = {id(a): None}; q = [a]; byid = {id(a): a}
        while q:
            x = q.pop(0)
            if x is b: break
            for y, s in x.edges:
                if id(y) not in prev: prev[id(y)] = (x, s); byid[id(y)] = y; q.append(y)
        out = []; x = b
        while id(x) in prev and prev[id(x)]: p, s = prev[id(x)]; out.append(s); x = p
        return out[::-1]
    def inst(self, n, memo):
        n = n.find()
        if id(n) in memo: return memo[id(n)]
        m = Node(); memo[id(n)] = m; m.slack = n.slack
        for k in n.kinds: m.kinds[k] = (m, (self.f['rel'], n.kinds[k][1][1] if n.kinds[k] else None, 'in a callee: ' + (n.kinds[k][1][2] if n.kinds[k] else '')))
        for k, v in n.subs.items(): m.subs[k] = self.inst(v, memo)
        if n.adds: m.adds = [self.inst(x, memo) for x in n.adds]
        return m
    # ---- structure
    def fieldnode(self, base, cls, name, e):
        cls = cls.replace('nikfemm::', '')
        n = sub(base, 'F:' + name)
        sd = SEED.get((cls, name))
        if sd:
            what, kind = sd
            self.seed(n if what == 'V' else sub(n, what), kind, e)
        return n
    def const(self, e):
        while isinstance(e, dict) and e['k'] == 'conv': e = e['a'][0]
        return e['k'] == 'lit' or e['k'] == 'sizeof' or (e['k'] == 'un' and e['op'] in '-+' and self.const(e['a'][0])) or (e['k'] == 'bin' and e['op'] in '+-*/' and all(self.const(x) for x in e['a']))
    def index(self, b, ie, e):
        self.A.stats['index'] += 1
        if self.const(ie): self.ev(ie); return
        n = self.ev(ie)
        self.idx(b, n, e)
        x = ie
        while x['k'] == 'conv': x = x['a'][0]
        if self.iscount(x) and not self.grows(x): self.A.past.append((self.f, e, b, n, 'the index is the number of entries itself'))
        elif x['k'] == 'var' and x['id'] in self.le: self.A.past.append((self.f, e, b, n, 'the index runs up to and including the number of entries'))
    def idx(self, b, n, e):
        if n is None: return
        n = n.find() if n.adds is None else n
        if n.adds:
            for x in n.adds: self.idx(b, x, e)
        else: self.unify(n, sub(b, 'K'), e)
    def iscount(self, x):
        if x['k'] == 'mem' and x['n'].startswith('numberof'): return True
        if x['k'] == 'call' and x.get('f') and x['f']['s'] == 'size' and 'obj' in x: return True
        return False
    def grows(self, x):
        """the function itself moves that count (it appends)"""
        t = syn.show(x)
        for y in syn.walk_s(self.f['body']):
            if y['k'] == 'un' and y['op'] == '++' and syn.show(y['a'][0]) == t: return True
            if y['k'] == 'bin' and y['op'] in ('+=', '=') and syn.show(y['a'][0]) == t: return True
            if y['k'] == 'call' and y.get('f') and y['f']['s'] in ('push_back', 'emplace_back', 'resize') and x['k'] == 'call' and 'obj' in y and syn.show(y['obj']) == syn.show(x['obj']): return True
        return False
    def size(self, c, ne, e):
        """container c is given ne entries"""
        self.A.stats['sized'] += 1
        x = ne
        while x['k'] == 'conv': x = x['a'][0]
        if x['k'] == 'bin' and x['op'] == '*':
            ks = [y for y in x['a'] if not self.const(y)]
            if len(ks) != 1: [self.ev(y) for y in x['a']]; return
            if any(y['k'] == 'lit' for y in x['a']): self.ev(ks[0]); return       # several entries per item
            x = ks[0]
        if x['k'] == 'call' and 'obj' not in x and x.get('f') and x['f']['s'] in ('max', 'min'):
            [self.ev(y) for y in x['a']]; sub(c, 'K').find().slack = True
            return
        if x['k'] == 'bin' and x['op'] in '+-': sub(c, 'K').find().slack = True
        n = self.ev(x)
        if n is None: return
        if n.adds: 
            for y in n.adds: y = y.find()
            return
        self.unify(n, sub(c, 'K'), e)
    # ---- expressions
    def ev(self, e):
        if not isinstance(e, dict): return None
        k = e['k']; a = e.get('a', ())
        if k == 'var':
            if e['s'] == 'binding' and e['id'] not in self.env and 'b' in e: return self.ev(e['b'])
            if e['id'] not in self.env: self.env[e['id']] = Node()
            return self.env[e['id']]
        if k == 'lit' or k == 'sizeof': return None
        if k == 'this': return self.sig.this
        if k == 'conv': return self.ev(a[0])
        if k == 'mem':
            b = self.ev(a[0])
            return self.fieldnode(b, e.get('cls', ''), e['n'], e) if b is not None else None
        if k == 'idx':
            b = self.ev(a[0])
            if b is None: self.ev(a[1]); return None
            self.index(b, a[1], e)
            return sub(b, 'E')
        if k == 'un':
            n = self.ev(a[0])
            if e['op'] == '*' and n is not None and not re.search(r'nikfemm::|std::', a[0].get('t', '').replace('__gnu_cxx', '')): return sub(n, 'E')
            return n if e['op'] in ('++', '--', '*', '&', '+') else None
        if k == 'cond':
            self.ev(a[0]); x = self.ev(a[1]); y = self.ev(a[2])
            self.unify(x, y, e) if x is not None and y is not None else None
            return x if x is not None else y
        if k == 'bin': return self.bin(e)
        if k == 'new':
            n = Node()
            if e.get('array') and a: self.size(n, a[0], e)
            else: return self.ev(a[0]) if a else n
            return n
        if k == 'init':
            d = self.rec(e['t'])
            n = Node()
            xs = [self.ev(x) for x in a]
            if d and len(d['fields']) >= len(a):
                for (fn, ft), x in zip(d['fields'], xs):
                    if x is not None: self.unify(self.fieldnode(n, e['t'], fn, e), x, e)
            elif VEC.match(e.get('t', '')) or 'initializer_list' in e.get('t', ''):
                for x in xs: self.unify(sub(n, 'E'), x, e) if x is not None else None
            return n
        if k == 'lambda':
            for p in e['params']: self.env[p['id']] = Node()
            self.s(e['body']); return None
        if k == 'ctor': return self.ctor(e)
        if k == 'call': return self.call(e)
        for x in a: self.ev(x)
        return Node() if k.startswith('?') else None
    def rec(self, t):
        t = re.sub(r'^const | &$', '', t)
        return self.A.P.rec.get(t)
    def bin(self, e):
        op = e['op']; l, r = e['a']
        if op == ',': self.ev(l); return self.ev(r)
        if op == '=':
            x = self.ev(r)
            if l['k'] == 'var' and l['s'] in ('local', 'param') and l['id'] in self.env and not l.get('vt', '').endswith('&') and (self.const(r) or r['k'] in ('ctor', 'new')):
                self.env[l['id']] = x if x is not None else Node(); return self.env[l['id']]
            y = self.ev(l); self.unify(y, x, e) if x is not None and not x.adds else None
            if x is not None and x.adds and l['k'] == 'var': self.env[l['id']] = x
            return y
        if op in ('+=', '-='):
            x = self.ev(l); y = self.ev(r)
            if x is not None and y is not None and not y.adds and isint(l.get('t', '')) and isint(r.get('t', '')): self.unify(x, y, e)
            return x
        x = self.ev(l); y = self.ev(r)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if x is not None and y is not None and isint(self.raw(l)) and isint(self.raw(r)) and not (self.cnt(l) and self.cnt(r)) and not x.adds and not y.adds:
                self.A.stats['compared'] += 1; self.unify(x, y, e)
            return None
        if op in ('+', '-') and isint(e.get('t', '')):
            if self.const(l): return y
            if self.const(r): return x
            n = Node(); n.adds = [z for z in (x, y) if z is not None] if op == '+' else None
            return n
        if op in '+-' and re.search(r'\*$', e.get('t', '')):
            if re.search(r'\*$|\]$', self.raw(r)): x, y = y, x
            n = Node()
            if x is not None and op == '+':
                if y is not None: self.idx(x, y, e)
                self.unify(sub(n, 'E'), sub(x, 'E'), e)
            return n
        if op == '%' and isint(e.get('t', '')): return y
        return None
    def raw(self, e):
        while e['k'] == 'conv' and e.get('a'): e = e['a'][0]
        return e.get('t', '')
    def cnt(self, e):
        while e['k'] == 'conv': e = e['a'][0]
        if e['k'] == 'bin' and e['op'] in '+-': return any(self.cnt(x) for x in e['a'])
        return self.iscount(e) or (e['k'] == 'var' and e['id'] in self.counts)
    def ctor(self, e):
        a = e.get('a', ()); t = e['t']
        if e.get('copy') or (len(a) == 1 and a[0].get('t', '') == t): return self.ev(a[0]) if a else Node()
        f = e.get('f')
        if f and f['n'] in self.A.P.fn: return self.apply(e, f, None)
        n = Node()
        if VEC.match(t):
            if a and isint(self.raw(a[0])):
                self.size(n, a[0], e)
                if len(a) > 1 and a[1]['k'] != 'call':
                    x = self.ev(a[1])
                    if x is not None and not self.const(a[1]): self.unify(sub(n, 'E'), x, e)
                return n
            xs = [self.ev(x) for x in a]
            if xs and xs[0] is not None and 'initializer_list' in a[0].get('t', ''): return xs[0]
            if len(xs) > 1 and xs[0] is not None: self.unify(sub(n, 'E'), sub(xs[0], 'E'), e)
            return n
        xs = [self.ev(x) for x in a]
        if t.startswith('std::pair<') and len(xs) == 2:
            for nm, x in zip(('first', 'second'), xs):
                if x is not None and not x.adds: self.unify(sub(n, 'F:' + nm), x, e)
        elif len(xs) == 1 and xs[0] is not None: return xs[0]
        return n
    def apply(self, e, f, obj):
        s = self.A.sig(f['n']); a = e.get('a', ())
        xs = [self.ev(x) for x in a]
        if s is None: return Node()
        self.A.stats['calls'] += 1
        memo = {}
        if obj is not None: self.unify(obj, self.inst(s.this, memo), e)
        for x, p, ae in zip(xs, s.params, a):
            p = self.inst(p, memo)
            if x is None: continue
            if x.adds:
                for y in x.adds:
                    if p.find().kinds or p.find().subs: self.unify(y, p, e)
                continue
            self.unify(x, p, e)
        if f['q'].startswith('nikfemm::MatCOOSymmetric') and f['s'] == 'operator()' and obj is not None:      # the matrix has m rows and m columns
            for x in xs:
                if x is not None and not x.adds: self.unify(x, self.fieldnode(obj, 'MatCOOSymmetric', 'm', e), e)
        if e['k'] == 'ctor': return self.inst(s.this, memo)
        return self.inst(s.ret, memo)
    def call(self, e):
        f = e.get('f'); a = e.get('a', ())
        o = self.ev(e['obj']) if 'obj' in e else None
        if not f:
            for x in a: self.ev(x)
            if 'callee' in e: self.ev(e['callee'])
            return Node()
        if f['n'] in self.A.P.fn: return self.apply(e, f, o)
        s = f['s']; ot = e['obj'].get('t', '') if 'obj' in e else ''
        if o is not None:
            if re.search(r'iterator', ot) and s in ('operator*', 'operator->', 'operator[]'):
                for x in a: self.ev(x)
                return sub(o, 'E')
            if s in ('operator++', 'operator--', 'operator+', 'operator-', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'operator+=', 'operator-=', 'find', 'data', 'lower_bound', 'upper_bound') and not (s == 'operator-' and isint(e.get('t', ''))):
                for x in a:
                    y = self.ev(x)
                    if s in ('operator+', 'operator-') and y is not None and isint(self.raw(x)) and 'iterator' in ot: self.idx(o, y, e)
                    if s == 'find' and MAP.search(ot) and y is not None and not y.adds: self.unify(sub(o, 'MK'), y, e)
                if (MAP.search(ot) or SET.search(ot)) and s in ('find', 'begin', 'lower_bound', 'upper_bound'):
                    return self.mapit(o, ot)
                return o
            if VEC.match(ot):
                if s in ('operator[]', 'at') and a: self.index(o, a[0], e); return sub(o, 'E')
                if s in ('front', 'back'): return sub(o, 'E')
                if s in ('size', 'capacity'): return sub(o, 'K')
                if s in ('push_back', 'emplace_back') and a:
                    x = self.ev(a[0])
                    if x is not None and not x.adds and len(a) == 1: self.unify(sub(o, 'E'), x, e)
                    return None
                if s in ('resize', 'assign') and a and isint(self.raw(a[0])):
                    self.size(o, a[0], e)
                    for x in a[1:]: self.ev(x)
                    return None
                if s == 'operator=':
                    y = self.ev(a[0])
                    if e['obj']['k'] == 'var' and e['obj']['s'] == 'local' and a[0]['k'] in ('ctor', 'call') and not e['obj'].get('vt', '').endswith('&'):
                        self.env[e['obj']['id']] = y if y is not None else Node(); return y
                    self.unify(o, y, e) if y is not None else None
                    return o
            elif MAP.search(ot) or SET.search(ot):
                if s in ('operator[]', 'at', 'count', 'contains') and a:
                    x = self.ev(a[0])
                    if x is not None and not x.adds: self.unify(sub(o, 'MK'), x, e)
                    return sub(o, 'E') if s in ('operator[]', 'at') else None
                if s in ('insert', 'emplace'):
                    x = [self.ev(y) for y in a]
                    if SET.search(ot) and x and x[0] is not None and not x[0].adds and len(x) == 1: self.unify(sub(o, 'MK'), x[0], e)
                    elif len(x) == 1 and x[0] is not None and MAP.search(ot):
                        self.unify(sub(o, 'MK'), sub(x[0], 'F:first'), e); self.unify(sub(o, 'E'), sub(x[0], 'F:second'), e)
                    return None
                if s == 'size': return Node()
            elif s == 'operator=' and a:
                y = self.ev(a[0])
                self.unify(o, y, e) if y is not None and not y.adds else None
                return o
        if s == 'reserve' and 'obj' in e:       # room for more is no claim about how many there are
            self.loose = True; [self.ev(x) for x in a]; self.loose = False
            return None
        xs = [self.ev(x) for x in a]
        if s in ('max', 'min') and len(a) == 2 and f['n'].startswith('std::') and 'obj' not in e and all(isint(self.raw(x)) for x in a):
            x, y = xs
            if x is not None and y is not None and not x.adds and not y.adds and not self.loose and not any(self.const(z) for z in a): self.unify(x, y, e)
            return x if x is not None else y
        if s == 'move' or s == 'forward' or s == 'ref' or s == 'cref' or s == 'abs': return xs[0] if xs else None
        if s in ('malloc', 'calloc') and a: n = Node(); self.size(n, a[-1] if s == 'malloc' else a[0], e); return n
        if s == 'realloc' and len(a) > 1: 
            n = Node(); return n
        if s == 'make_pair' and len(xs) == 2:
            n = Node()
            for nm, x in zip(('first', 'second'), xs):
                if x is not None and not x.adds: self.unify(sub(n, 'F:' + nm), x, e)
            return n
        if s in ('operator==', 'operator!='): return None
        return Node()
    def mapit(self, o, t):
        """iterator over a map or set: behaves like an array whose elements are pairs"""
        n = Node(); el = sub(n, 'E')
        if MAP.search(t):
            self.unify(sub(el, 'F:first'), sub(o, 'MK'), None); self.unify(sub(el, 'F:second'), sub(o, 'E'), None)
        else: self.unify(el, sub(o, 'MK'), None)
        return n
    # ---- statements
    def s(self, s):
        if not s: return
        k = s['k']
        if k == 'decl':
            for d in s['d']:
                i = d.get('init'); x = self.ev(i) if i else None
                if i is not None:
                    y = i
                    while y['k'] == 'conv': y = y['a'][0]
                    if self.cnt(y): self.counts[d['id']] = True
                if x is None: x = Node()
                elif not d['t'].endswith('&') and isint(d['t']) and x.adds is None:
                    n = Node(); self.unify(n, x, i); x = n
                m = re.search(r'\[(\d+)\]$', d['t'])
                self.decl[d['id']] = d; self.env[d['id']] = x
                for j, b in enumerate(d.get('bind', ())): self.env[b['id']] = self.ev(b['e']) if b.get('e') and b['e']['k'] != 'var' else Node()
            return
        if k == 'rfor':
            r = self.ev(s['range']); t = s['range'].get('t', '')
            if s.get('init'): self.s(s['init'])
            el = None
            if r is not None: el = sub(self.mapit(r, t), 'E') if MAP.search(t) or SET.search(t) else sub(r, 'E')
            self.env[s['v']['id']] = el if el is not None else Node()
            for j, b in enumerate(s.get('bind', ())):
                self.env[b['id']] = sub(el, 'F:' + ('first', 'second')[j]) if el is not None and j < 2 and MAP.search(t) else Node()
            self.s(s['body']); return
        if k == 'for':
            self.s(s.get('init'))
            c = s.get('c'); le = None
            if c: self.ev(c)
            if c and c['k'] == 'bin' and c['op'] == '<=':
                l, r = c['a']
                while l['k'] == 'conv': l = l['a'][0]
                while r['k'] == 'conv': r = r['a'][0]
                if l['k'] == 'var' and (self.iscount(r) or r['k'] == 'var' and r['id'] in self.counts): le = l['id']; self.le.append(le)
            self.s(s['body'])
            if s.get('inc'): self.ev(s['inc'])
            if le is not None: self.le.remove(le)
            return
        if k == 'ret':
            if s.get('e'):
                x = self.ev(s['e'])
                if x is not None and not x.adds: self.unify(self.sig.ret, x, s['e'])
            return
        for x in ('init', 'cv'):
            if isinstance(s.get(x), dict): self.s(s[x])
        for e in syn.exprs_s(s): self.ev(e)
        for x in syn.kids_s(s):
            if x is s.get('init') or x is s.get('cv'): continue
            self.s(x)

# ---- arrays of a fixed number of entries
def strip(e):
    while isinstance(e, dict) and e['k'] == 'conv': e = e['a'][0]
    return e
class Fixed:
    """every subscript of an array with a constant number of entries: the index is a constant, a loop variable with a constant bound, a remainder, or a parameter
    that is one of these at every call; an index that counts insertions has no bound"""
    def __init__(self, P):
        self.P = P; self.out = []
        self.calls = {}
        for n, f in P.fn.items():
            for e in list(syn.walk_s(f['body'])):
                if e['k'] in ('call',) and e.get('f') and e['f']['n'] in P.fn: self.calls.setdefault(e['f']['n'], []).append((f, e))
        for n, f in P.fn.items(): self.fn(f)
    def defs(self, f):
        """variable -> list of (kind, expression/bound)"""
        if '_defs' in f: return f['_defs']
        D = {}
        for s in syn.stmts(f['body']):
            if s['k'] == 'decl':
                for d in s['d']:
                    if d.get('init') is not None: D.setdefault(d['id'], []).append(('=', d['init']))
            if s['k'] == 'for':
                c = s.get('c')
                for x in syn.walk_e(c) if c else ():
                    if x['k'] == 'bin' and x['op'] in ('<', '<=', '!='):
                        l = strip(x['a'][0])
                        if l['k'] == 'var': D.setdefault(l['id'], []).append(('bound', x))
                inc = s.get('inc')
                if inc: 
                    for x in syn.walk_e(inc): x['_inc'] = True
        for e in syn.walk_s(f['body']):
            if e['k'] == 'bin' and e['op'] == '=':
                l = strip(e['a'][0])
                if l['k'] == 'var': D.setdefault(l['id'], []).append(('=', e['a'][1]))
            elif (e['k'] == 'un' and e['op'] in ('++', '--') or e['k'] == 'bin' and e['op'] in ('+=', '-=', '*=')) and not e.get('_inc'):
                l = strip(e['a'][0])
                if l['k'] == 'var': D.setdefault(l['id'], []).append(('step', e))
        f['_defs'] = D
        return D
    def bound(self, f, e, depth=0):
        """exclusive upper bound of e, 'counter', ('param', i) or None"""
        e = strip(e)
        if depth > 4: return None
        if e['k'] == 'lit':
            try: return int(e['v']) + 1
            except Exception: return None
        if e['k'] == 'bin' and e['op'] == '%':
            r = strip(e['a'][1])
            return int(r['v']) if r['k'] == 'lit' else None
        if e['k'] == 'bin' and e['op'] == '&':
            r = strip(e['a'][1])
            return int(r['v']) + 1 if r['k'] == 'lit' else None
        if e['k'] == 'cond':
            b = [self.bound(f, x, depth + 1) for x in e['a'][1:]]
            return max(b) if all(isinstance(x, int) for x in b) else None
        if e['k'] in ('bin',) and e['op'] in '+-':
            b = [self.bound(f, x, depth + 1) for x in e['a']]
            if all(isinstance(x, int) for x in b): return b[0] + b[1] - 1 if e['op'] == '+' else b[0]
            return None
        if e['k'] == 'un' and e['op'] in ('++', '--'): return 'counter' if e['op'] == '++' else None
        if e['k'] == 'var':
            D = self.defs(f).get(e['id'], [])
            ps = [i for i, p in enumerate(f['params']) if p['id'] == e['id']]
            if ps and not D: return ('param', ps[0])
            bs = [x for k, x in D if k == 'bound']
            if bs:
                r = 0
                for x in bs:
                    lim = strip(x['a'][1]); v = self.bound(f, lim, depth + 1)
                    if not isinstance(v, int): return None
                    r = max(r, v - 1 + (1 if x['op'] == '<=' else 0))
                return r
            if any(k == 'step' for k, x in D): return 'counter' if not ps else None
            v = [self.bound(f, x, depth + 1) for k, x in D]
            if v and all(isinstance(x, int) for x in v): return max(v)
        return None
    def guarded(self, f, i):
        """the bound may be refined by a condition or comes from several definitions"""
        ids = {x['id'] for x in syn.walk_e(i) if x['k'] == 'var'}
        D = self.defs(f)
        for v in list(ids):
            if len([1 for k, _ in D.get(v, ()) if k == '=']) > 1 and not any(k == 'bound' for k, _ in D.get(v, ())): return True
            for k, x in D.get(v, ()):
                if k == '=': ids |= {y['id'] for y in syn.walk_e(x) if y['k'] == 'var'}
                if k == '=' and strip(x)['k'] == 'cond': return True
        if strip(i)['k'] == 'cond': return True
        for s in syn.stmts(f['body']):
            if s['k'] in ('if', 'switch') and any(y['k'] == 'var' and y['id'] in ids for y in syn.walk_e(s['c'])): return True
        return any(x['k'] == 'cond' and any(y['k'] == 'var' and y['id'] in ids for y in syn.walk_e(x['a'][0])) for x in syn.walk_s(f['body']))
    def fn(self, f):
        for e in syn.walk_s(f['body']):
            if e['k'] == 'idx':
                m = re.search(r'\[(\d+)\]$', e['a'][0].get('t', '')); i = e['a'][1] if m else None
            elif e['k'] == 'call' and e.get('op') == '[]' and 'obj' in e and 'std::array<' in e['obj'].get('t', ''):
                m = re.search(r', (\d+)U?L?>', e['obj']['t']); i = e['a'][0] if m else None
            else: continue
            if not m: continue
            self.one(f, e, i, int(m.group(1)), 0)
    def one(self, f, e, i, N, depth):
        b = self.bound(f, i)
        t = syn.show(e)[:100]
        if isinstance(b, int): self.out.append(('ok' if b <= N else 'und' if self.guarded(f, i) else 'bad', f, e, '%s: index below %d, %d entries' % (t, b, N)))
        elif isinstance(b, tuple) and depth < 3:
            cs = self.calls.get(f['name'], [])
            for g, call in cs:
                if b[1] < len(call.get('a', ())): self.one(g, call, call['a'][b[1]], N, depth + 1)
        elif b == 'counter':
            x = strip(i); base = e['a'][0] if e['k'] == 'idx' else e['obj']
            edge = N >= 2 and x['k'] == 'un' and base['k'] == 'mem' and strip(base['a'][0])['k'] == 'call' and MAP.search(strip(base['a'][0]).get('obj', {}).get('t', '') or '')
            self.out.append(('edge' if edge else 'bad', f, e, '%s: the index counts insertions, the array has %d entries' % (t, N)))
        else: self.out.append(('und', f, e, '%s: no bound found for the index, %d entries' % (t, N)))
