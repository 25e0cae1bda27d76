"""Write-effect analysis over the typed syntax trees: which of the objects a function is given (this, a parameter, a global) it may change.
A region is 'this', ('p', i), ('g', name), 'local' or 'fresh'. Everything reachable from a region belongs to it."""
import re
import syn
LOCAL = frozenset(['local'])
E0 = frozenset()
ITER = re.compile(r'__normal_iterator|_iterator<|_Iterator|_Bit_reference|reverse_iterator|std::function|initializer_list|unique_ptr|shared_ptr|span<|basic_string_view|istream|ostream')
READ_METHODS = set('operator[] at begin end rbegin rend cbegin cend front back data find lower_bound upper_bound equal_range count size empty capacity get c_str length contains operator* operator-> max_size top str is_open good what substr compare lock'.split())
PURE_STD = set('''find find_if find_if_not accumulate max_element min_element minmax_element distance count count_if any_of all_of none_of equal lower_bound upper_bound binary_search
 max min abs fabs sqrt pow sin cos tan atan atan2 acos asin exp log log10 floor ceil round isnan isinf isfinite isnormal signbit hypot cbrt fmod lround trunc copysign fmax fmin operator== operator!= operator< operator> operator<= operator>= operator<=> operator+ operator-
 make_pair make_tuple tie get to_string move forward begin end cbegin cend size next prev advance inner_product reduce isless addressof bit_cast hash now duration_cast stoi stod stoul operator/ operator* operator& operator|
 log2 sincos strlen strcmp printf puts putchar time clock fflush string ref cref mismatch is_sorted tolower toupper setprecision setw endl fixed numeric_limits epsilon lowest infinity quiet_NaN fma clamp midpoint lerp sizeof malloc calloc fopen fclose exit abort __builtin_expect __assert_fail va_start va_end __builtin_va_start __builtin_va_end getline remove sprintf_ operator"" steady_clock high_resolution_clock hardware_concurrency sleep_for'''.split())
OUT0 = set('sort stable_sort partial_sort nth_element fill fill_n iota reverse unique remove_if rotate shuffle random_shuffle generate generate_n replace replace_if make_heap push_heap pop_heap partition stable_partition memset memcpy memmove strcpy strncpy strcat sprintf snprintf for_each free delete qsort vsnprintf vsprintf advance next_permutation'.split())
OUTLAST = {'copy': 2, 'copy_n': 2, 'copy_if': 2, 'transform': -2, 'swap': (0, 1), 'iter_swap': (0, 1), 'exchange': (0,), 'swap_ranges': (0, 2), 'merge': 4, 'set_union': 4, 'set_intersection': 4, 'set_difference': 4, 'partial_sum': 2, 'adjacent_difference': 2, 'move_backward': 2, 'copy_backward': 2, 'realloc': (0,), 'fread': (0,), 'fwrite': (), 'fprintf': (), 'fputs': (), 'fputc': (), 'back_inserter': (), 'inserter': ()}

class Effects:
    def __init__(self, P):
        self.P = P; self.recs = {k.replace('nikfemm::', ''): v for k, v in P.rec.items()}; self.memo = {}; self.sum = {}; self.rounds = 0
        for n in P.fn: self.sum[n] = dict(w={}, ret=E0, un={}, stor={})
        for _ in range(12):
            self.rounds += 1; ch = False
            for n, f in P.fn.items():
                s = Fun(self, f).run()
                if self.key(s) != self.key(self.sum[n]): ch = True
                self.sum[n] = s
            if not ch: break
    def key(self, s): return (set(s['w']), s['ret'], set(s['un']), {k: v for k, v in s['stor'].items()})
    # ---- types
    def rec(self, t): return self.recs.get(t.replace('nikfemm::', '').strip())
    def ptrs(self, t):
        """a value of type t can reach memory that copying it does not copy"""
        if t in self.memo: return self.memo[t]
        self.memo[t] = False; r = False
        if '*' in t or '&' in t or ITER.search(t) or '(lambda' in t: r = True
        else:
            for w in set(re.findall(r'[A-Za-z_][\w:]*(?:<[^<>]*>)?', t)) | set(re.findall(r'\w+', t)):
                d = self.rec(w)
                if d and not d.get('copyctor') and (any(self.ptrs(ft) for _, ft in d['fields']) or any(self.ptrs(b) for b in d['bases'])): r = True; break
        self.memo[t] = r
        return r
    def owner(self, t):
        """t has a destructor of its own and members that are plain pointers, but copies member by member"""
        d = self.rec(t.replace('const ', ''))
        return bool(d and not d.get('copyctor') and self.ptrs(t) and (d.get('dtor') and not t.endswith('Simulation') or any(self.owner(b) for b in d['bases']) or any(self.owner(ft) for _, ft in d['fields'])))

class Fun:
    def __init__(self, E, f):
        self.E = E; self.f = f; self.env = {}; self.kind = {}; self.w = {}; self.un = {}; self.ret = set(); self.stor = {}; self.keys = {}
        for i, p in enumerate(f['params']):
            self.kind[p['id']] = p['t']
            if p['t'].endswith('&') or E.ptrs(p['t']): self.env[p['id']] = frozenset([('p', i)])
    def run(self):
        for _ in range(6):
            before = (dict(self.env), len(self.w), len(self.un))
            for i in self.f.get('inits', ()):
                if i.get('e'): self.e(i['e'])
            self.s(self.f['body'])
            if (self.env, len(self.w), len(self.un)) == before: break
        return dict(w=self.w, ret=frozenset(self.ret), un=self.un, stor=self.stor)
    def bind(self, id, rs):
        o = self.env.get(id, E0); n = o | rs
        if n != o: self.env[id] = n
    def write(self, rs, e, why):
        for r in rs:
            if r in ('local', 'fresh', ('g', 'cout'), ('g', 'cerr'), ('g', 'clog')): continue
            if r == 'this' and (self.f.get('ctor') or self.f.get('dtor')): continue
            self.w.setdefault(r, (e.get('l'), why))
    # ---- regions
    def lv(self, e):
        """regions the object denoted by e lies in"""
        k = e['k']; a = e.get('a', ())
        if k == 'var':
            if e['s'] == 'global': return frozenset([('g', e['n'])])
            if e['s'] == 'binding': return (self.lv(e['b']) if 'b' in e else E0) | self.env.get(e['id'], E0) or LOCAL
            t = self.kind.get(e['id'], e.get('vt', ''))
            if t.endswith('&'): return self.env.get(e['id'], E0) or LOCAL
            return LOCAL
        if k == 'this': return frozenset(['this'])
        if k == 'mem':
            if e.get('static'): return frozenset([('g', e['n'])])
            r = self.pt(a[0]) if e.get('arrow') else self.lv(a[0])
            if e.get('ft', '').endswith('&'): return self.deep(a[0]) if not e.get('arrow') else r
            return r
        if k == 'un':
            if e['op'] == '*': return self.pt(a[0])
            return self.lv(a[0])
        if k == 'idx': return self.pt(a[0])
        if k in ('conv',): return self.lv(a[0])
        if k == 'cond': return self.lv(a[1]) | self.lv(a[2])
        if k == 'bin': return self.lv(a[0]) if e['op'] != ',' else self.lv(a[1])
        if k == 'call':
            f = e.get('f'); rt = f['r'] if f else ''
            if not rt.endswith('&') and not rt.endswith('reference') and '_Bit_reference' not in rt: return LOCAL
            return self.callret(e, True)
        return LOCAL
    def deep(self, e):
        """regions reachable through pointers held in the object e denotes, beyond the object itself"""
        r = set()
        x = e
        while x['k'] == 'mem' and not x.get('arrow') and not x.get('static'): x = x['a'][0]
        if x['k'] == 'var' and x['s'] in ('local', 'param', 'binding'): r |= self.env.get(x['id'], E0)
        elif x['k'] == 'var': r.add(('g', x['n']))
        r |= {q for q in self.lv(e) if q not in ('local', 'fresh')}
        return frozenset(r)
    def pt(self, e):
        """regions the value of e (pointer, iterator, struct holding pointers) points into"""
        k = e['k']; a = e.get('a', ())
        if k == 'this': return frozenset(['this'])
        if k == 'var':
            if e['s'] == 'global': return frozenset([('g', e['n'])])
            t = self.kind.get(e['id'], e.get('vt', ''))
            if re.search(r'\[\d*\]$', t): return LOCAL | self.env.get(e['id'], E0)
            return self.env.get(e['id'], E0) | (self.lv(e) - LOCAL)
        if k == 'mem':
            if re.search(r'\[\d*\]$', e.get('ft', '')): return self.lv(e)
            return self.deep(e) if not e.get('arrow') else self.pt(a[0])
        if k == 'un':
            if e['op'] == '&': return self.lv(a[0])
            if e['op'] == '*': return self.pt(a[0])
            return self.pt(a[0]) if a else E0
        if k == 'idx': 
            if re.search(r'\[\d*\]$', e.get('t', '')): return self.lv(e)
            return self.pt(a[0])
        if k == 'conv': return self.pt(a[0])
        if k == 'cond': return self.pt(a[1]) | self.pt(a[2])
        if k == 'bin':
            if e['op'] in ('=', ','): return self.pt(a[1])
            return (self.pt(a[0]) if self.E.ptrs(a[0].get('t', '')) else E0) | (self.pt(a[1]) if self.E.ptrs(a[1].get('t', '')) else E0)
        if k == 'new': return frozenset(['fresh'])
        if k == 'ctor':
            r = set()
            if self.E.ptrs(e['t']):
                for x in a: r |= self.argdeep(x)
            return frozenset(r)
        if k == 'init' or k.startswith('?'):
            r = set()
            for x in a:
                if self.E.ptrs(x.get('t', '')): r |= self.pt(x)
            return frozenset(r)
        if k == 'call':
            f = e.get('f')
            if f and f['s'] in ('malloc', 'calloc', 'fopen', 'strdup'): return frozenset(['fresh'])
            return self.callret(e)
        if k == 'lambda': return E0
        return E0
    def argdeep(self, x):
        t = x.get('t', '')
        r = self.pt(x) if self.E.ptrs(t) else E0
        return r
    def arg(self, x, pt):
        """regions a callee reaches through the argument x for a parameter of type pt"""
        if pt.endswith('&') or pt.endswith('&&'): return self.lv(x) | (self.deep(x) if self.E.ptrs(x.get('t', '')) else E0)
        return self.pt(x) if self.E.ptrs(pt or x.get('t', '')) else LOCAL
    def callret(self, e, loc=False):
        f = e.get('f'); a = e.get('a', ())
        if not f: return E0
        if f['n'] in self.E.P.fn:
            s = self.E.sum[f['n']]; r = set()
            for q in s['ret']:
                r |= self.mapr(q, e)
            return frozenset(r)
        r = set()
        if 'obj' in e:
            o = e['obj']
            if e.get('arrow'): r |= self.pt(o)
            else:
                it = ITER.search(o.get('t', ''))
                r |= self.pt(o) if it else (self.lv(o) | (self.deep(o) if '*' in o.get('t', '') and not loc else E0))
        for i, x in enumerate(a):
            p = f['p'][i] if i < len(f['p']) else x.get('t', '')
            if self.E.ptrs(x.get('t', '')): r |= self.pt(x)
            if p.endswith('&') and f['r'].endswith('&') and 'obj' not in e: r |= self.lv(x)
        return frozenset(r)
    def mapr(self, q, e):
        if q == 'this':
            o = e.get('obj')
            if o is None: return LOCAL
            r = self.pt(o) if e.get('arrow') or o['k'] == 'this' else self.lv(o)
            if not e.get('arrow') and o['k'] != 'this' and self.E.ptrs(o.get('t', '')): r = r | self.deep(o)
            return r
        if isinstance(q, tuple) and q[0] == 'p':
            i = q[1]; a = e.get('a', ())
            if i >= len(a): return LOCAL
            p = e['f']['p'][i]
            return self.arg(a[i], p)
        return frozenset([q])
    # ---- statements
    def s(self, s):
        if not s: return
        k = s['k']
        if k == 'decl':
            for d in s['d']:
                self.kind[d['id']] = d['t']
                i = d.get('init')
                if i:
                    self.e(i)
                    if d['t'].endswith('&'): self.bind(d['id'], self.lv(i) | (self.deep(i) if self.E.ptrs(i.get('t', '')) else E0))
                    elif self.E.ptrs(d['t']): self.bind(d['id'], self.pt(i) - LOCAL if i['k'] not in ('ctor',) else self.pt(i) - LOCAL)
                    if self.E.owner(d['t']) and i['k'] == 'ctor' and i.get('copy'):
                        rs = self.deep(i['a'][0]) if i.get('a') else E0
                        self.write(rs, dict(l=d['l']), 'the local copy "%s" shares the buffers and releases them at the end of its scope' % d['n'])
                for b in d.get('bind', ()):
                    self.kind[b['id']] = d['t'] if d['t'].endswith('&') else ''
                    if i: self.bind(b['id'], self.lv(i) if d['t'].endswith('&') else self.pt(i) if self.E.ptrs(d['t']) else E0)
        elif k == 'rfor':
            v = s['v']; r = s['range']
            src = self.keys.get(r['id'], '') if r['k'] == 'var' and r['id'] in self.keys else syn.show(r) if re.search(r'map<|set<', r.get('t', '')) else ''
            self.keys[v['id']] = src
            for b in s.get('bind', ())[:1]: self.keys[b['id']] = src
            self.kind[v['id']] = v['t']; self.e(r)
            rs = self.lv(r) if not ITER.search(r.get('t', '')) else self.pt(r)
            if v['t'].endswith('&'): self.bind(v['id'], rs | (self.deep(r) if self.E.ptrs(v['t'][:-1]) else E0))
            elif self.E.ptrs(v['t']): self.bind(v['id'], rs | self.deep(r))
            if self.E.owner(v['t']): self.write(rs | self.deep(r), s, 'each copy "%s" shares the buffers and releases them' % v['n'])
            for b in s.get('bind', ()):
                self.kind[b['id']] = v['t'] if v['t'].endswith('&') else ''
                if v['t'].endswith('&'): self.bind(b['id'], rs)
                elif self.E.ptrs(v['t']): self.bind(b['id'], self.deep(r))
        elif k == 'ret' and s.get('e'):
            rt = self.f['f']['r']; x = s['e']
            if rt.endswith('&'): self.ret |= self.lv(x) - LOCAL
            elif self.E.ptrs(rt): self.ret |= self.pt(x) - LOCAL
        if k == 'decl': return
        for e in syn.exprs_s(s):
            if k == 'rfor' and e is s['range']: continue
            self.e(e)
        for x in syn.kids_s(s): self.s(x)
    def e(self, e):
        if not isinstance(e, dict): return
        k = e['k']; a = e.get('a', ())
        for x in a: self.e(x)
        if 'obj' in e: self.e(e['obj'])
        if 'callee' in e: self.e(e['callee'])
        if k == 'lambda':
            for p in e['params']: self.kind[p['id']] = p['t']; self.bind(p['id'], LOCAL if p['t'].endswith('&') else E0)
            self.s(e['body'])
        elif k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.assign(a[0], a[1], e)
        elif k == 'un' and e['op'] in ('++', '--'): self.write(self.lv(a[0]), e, syn.show(e))
        elif k == 'delete': self.write(self.pt(a[0]), e, syn.show(e))
        elif k in ('call', 'ctor'): self.call(e)
    def base(self, l):
        x = l
        while True:
            if x['k'] == 'mem' and not x.get('arrow') and not x.get('static') and x.get('a'): x = x['a'][0]
            elif x['k'] in ('conv',): x = x['a'][0]
            elif x['k'] == 'idx' and re.search(r'\[\d*\]$', x['a'][0].get('t', '')): x = x['a'][0]
            elif x['k'] == 'call' and 'obj' in x and not x.get('arrow') and x.get('op') == '[]': x = x['obj']
            else: return x
    def assign(self, l, r, e):
        self.write(self.lv(l), e, syn.show(e)[:140])
        if self.E.ptrs(l.get('t', '')):
            b = self.base(l)
            if b['k'] == 'var' and b['s'] != 'global': self.bind(b['id'], self.pt(r) - LOCAL)
    def call(self, e):
        f = e.get('f'); a = e.get('a', ())
        if not f:
            for x in a:
                rs = self.argdeep(x) - {'local', 'fresh'}
                for r in rs: self.un.setdefault(r, (e.get('l'), 'indirect call ' + syn.show(e)[:100]))
            return
        if f['n'] in self.E.P.fn:
            s = self.E.sum[f['n']]
            for q, why in s['w'].items():
                if q == 'this' and e['k'] == 'ctor': continue
                self.write(self.mapr(q, e), e, '%s -> line %s: %s' % (syn.show(e)[:80], why[0], why[1]))
            for q, why in s['un'].items():
                for r in self.mapr(q, e):
                    if r not in ('local', 'fresh'): self.un.setdefault(r, (e.get('l'), why[1]))
            # pointers kept in an object that is a local variable
            if 'obj' in e and self.E.ptrs(e['obj'].get('t', '')):
                b = self.base(e['obj'])
                if b['k'] == 'var' and b['s'] != 'global':
                    for x in a:
                        if self.E.ptrs(x.get('t', '')): self.bind(b['id'], self.pt(x) - LOCAL)
            return
        if e['k'] == 'ctor':
            for i, x in enumerate(a):
                p = f['p'][i] if i < len(f['p']) else ''
                if p.endswith('&&') and not e.get('elide'): self.moved(x, e)
            return
        n = f['s']
        if f.get('m'):
            o = e.get('obj')
            if o is not None:
                if n in ('push_back', 'emplace_back') and o['k'] == 'var' and a:
                    x = a[0]
                    while x['k'] == 'conv': x = x['a'][0]
                    if x['k'] == 'mem' and x['n'] == 'first': x = x['a'][0]
                    if x['k'] == 'var' and x['id'] in self.keys: self.keys[o['id']] = self.keys[x['id']]
                for i, x in enumerate(a):
                    p = f['p'][i] if i < len(f['p']) else ''
                    if p.endswith('&&'): self.moved(x, e)
                    elif p.endswith('&') and not p.startswith('const ') and ' const' not in p and n not in ('operator[]', 'push_back', 'emplace_back', 'emplace', 'insert', 'assign') and not ITER.search(p):
                        self.write(self.lv(x), e, syn.show(e)[:140])
                    if self.E.ptrs(x.get('t', '')) and not f.get('c'):
                        b = self.base(o)
                        if b['k'] == 'var' and b['s'] != 'global' and self.E.ptrs(o.get('t', '')): self.bind(b['id'], self.pt(x) - LOCAL)
                ot = o.get('t', '')
                if f.get('c') or f.get('st'): return
                if n == 'operator[]' and re.search(r'map<', ot):
                    rs = self.pt(o) if e.get('arrow') else self.lv(o); how = self.keyof(a[0], o)
                    if how == 'computed': self.write(rs, e, syn.show(e)[:120] + ' (inserts the key when it is missing)')
                    elif how == 'other':
                        for r in rs - {'local', 'fresh'}: self.un.setdefault(r, (e.get('l'), syn.show(e)[:100] + ' inserts the key when it is missing'))
                    return
                if n in READ_METHODS: return
                if re.search(r'stream|chrono', ot): return
                if '(lambda' in ot or n == 'operator()':
                    for i, x in enumerate(a):
                        p = f['p'][i] if i < len(f['p']) else ''
                        if p.endswith('&') and not p.startswith('const '): self.write(self.lv(x), e, 'passed by reference to the callable ' + syn.show(e)[:100])
                    return
                self.write(self.pt(o) if e.get('arrow') else self.lv(o), e, syn.show(e)[:140])
            return
        if n in PURE_STD or f['q'].startswith('cv::imshow') or re.match(r'Py', n): return
        if f['q'].startswith('nikfemm::nlog') or n in ('nexit', 'nassert'): return
        out = []
        if n in OUT0: out = [0]
        elif n in OUTLAST:
            if n in ('transform', 'copy') and len(a) > 2:
                src = a[0]; dst = a[2]
                while src['k'] in ('ctor', 'conv') and src.get('a'): src = src['a'][0]
                while dst['k'] in ('ctor', 'conv') and dst.get('a'): dst = dst['a'][0]
                d = dst.get('obj') or (dst['a'][0] if dst.get('a') else None)
                if src['k'] == 'call' and 'obj' in src and d and d['k'] == 'var': self.keys[d['id']] = syn.show(src['obj'])
            v = OUTLAST[n]; out = list(v) if isinstance(v, tuple) else [v if v >= 0 else len(a) + v]
        elif n == 'triangulate': out = [1, 2, 3]
        else:
            for i, x in enumerate(a):
                p = f['p'][i] if i < len(f['p']) else ''
                if (p.endswith('&') or p.endswith('*')) and not p.startswith('const ') :
                    rs = self.arg(x, p) - {'local', 'fresh', ('g', 'cout'), ('g', 'cerr'), ('g', 'clog')}
                    if f['q'].startswith('cv::') or not f.get('repo'):
                        for r in rs: self.un.setdefault(r, (e.get('l'), 'passed to ' + f['q'] + ' which may change it'))
                        if f['q'].startswith('cv::'): self.write(rs, e, syn.show(e)[:120])
                elif ITER.search(x.get('t', '')) and not f['q'].startswith('std::chrono'):
                    for r in self.pt(x) - {'local', 'fresh'}: self.un.setdefault(r, (e.get('l'), 'iterator passed to ' + f['q']))
            return
        for i in out:
            if 0 <= i < len(a):
                x = a[i]; p = f['p'][i] if i < len(f['p']) else ''
                self.write(self.lv(x) if p.endswith('&') and not ITER.search(x.get('t', '')) and '*' not in x.get('t', '') else self.pt(x), e, syn.show(e)[:140])
                if n in ('memcpy', 'memmove', 'copy', 'swap') and len(a) > 1:
                    b = self.base(x['a'][0] if x['k'] == 'un' and x['op'] == '&' else x)
                    if b['k'] == 'var' and b['s'] != 'global' and (self.E.ptrs(a[1].get('t', '')) if n != 'memcpy' else '*' in b.get('vt', '') and self.E.ptrs(b['vt'][:-1].strip()) or self.E.ptrs(b.get('vt', '')) and not b.get('vt', '').endswith('*')): self.bind(b['id'], self.pt(a[1]) - LOCAL)
    def keyof(self, k, o):
        """is the look-up key one of the container's own keys? ('own', 'other': a variable from elsewhere, 'computed')"""
        while k['k'] == 'conv': k = k['a'][0]
        c = syn.show(o)
        if k['k'] == 'mem' and k['n'] == 'first' and k['a'][0]['k'] == 'var': return 'own' if self.keys.get(k['a'][0]['id']) == c else 'other'
        if k['k'] == 'var': return 'own' if self.keys.get(k['id']) == c else 'other' if k['id'] in self.keys or k['s'] in ('param', 'binding') else 'computed'
        return 'computed'
    def moved(self, x, e):
        y = x
        if y['k'] == 'call' and y.get('f') and y['f']['s'] in ('move', 'forward') and y.get('a'):
            self.write(self.lv(y['a'][0]), e, 'moved from: ' + syn.show(y)[:100])
