"""Iterators, references and pointers into containers: a forward analysis over the control-flow graph that knows, for every local one, which containers it points
into, which operations may invalidate it (callee summaries included), and where it is used afterwards."""
import re
import syn, paths
from cfg import CFG, strip
from paths import cls, isiter, walk_flat
SEQ = ('vector', 'basic_string', 'deque')
FINDS = set('find find_if find_if_not lower_bound upper_bound search adjacent_find max_element min_element'.split()) - {'max_element', 'min_element'}
def prval(e):
    """the expression is a temporary object"""
    e0 = e
    while e.get('k') == 'conv': e = e['a'][0]
    if e['k'] == 'ctor': return True
    if e['k'] == 'call' and e.get('f'): 
        r = e['f']['r']; return not r.endswith('&') and not r.endswith('*') and not isiter(r) and r != 'void'
    return False
class Borrow:
    def __init__(self, F, body, inits, name):
        self.F = F; self.g = CFG(body, inits); self.out = []; self.track = {}; self.name = name; self.n = 0; self.links = {}
        self.collect()
        self.flow()
    # ---- what a value points into: [(container path, class)]
    def into(self, e, depth=0):
        """containers an lvalue / iterator / pointer expression reaches an element of"""
        if not isinstance(e, dict) or depth > 12: return []
        k = e['k']; a = e.get('a', ())
        if k in ('conv', 'mem', 'un'):
            return self.into(a[0], depth + 1) if a and (k != 'un' or e['op'] in ('*', '&', '++', '--')) and not (k == 'mem' and e.get('arrow') and '*' in a[0].get('t', '') and a[0]['k'] != 'var') else []
        if k == 'ctor': return self.into(a[0], depth + 1) if a and (isiter(e['t'])) else []
        if k == 'idx': return self.into(a[0], depth + 1) if re.search(r'\[\d*\]$', a[0].get('t', '')) or a[0]['k'] == 'var' else []
        if k == 'cond': return self.into(a[1], depth + 1) + self.into(a[2], depth + 1)
        if k == 'bin' and e['op'] in ('+', '-') and ('*' in e.get('t', '')): return self.into(a[0], depth + 1)
        if k == 'var': return list(self.track.get(e['id'], {}).get('c', ()))
        if k == 'call' and e.get('f'):
            f = e['f']
            if 'obj' in e:
                o = e['obj']; c = cls(o.get('t', '').rstrip('* ').strip())
                if c and (e.get('op') == '[]' or f['s'] in ('at', 'front', 'back', 'data') or f['s'] in paths.ITERM):
                    if prval(o): return []
                    p = self.F.pointee(o) if e.get('arrow') else self.F.path(o)
                    up = self.into(o, depth + 1)
                    return ([(p, c)] if p else []) + up
                if isiter(o.get('t', '')) and (e.get('op') in ('*', '->', '++', '--', '+', '-', '[]', '+=', '-=')): return self.into(o, depth + 1)
            elif f['s'] in paths.ALGIT and a and isiter(f['r']): return self.into(a[0], depth + 1)
            elif f['s'] in ('move', 'forward') and a: return self.into(a[0], depth + 1)
        return []
    def collect(self):
        for _ in range(2):
            for n in self.g.n:
                if n.k == 'decl':
                    d = n.x; i = d.get('init'); t = d['t']
                    if not i: continue
                    kind = 'ref' if t.endswith('&') and not isiter(t) else 'iter' if isiter(t) else 'ptr' if re.search(r'\*( ?const)?$', t) else None
                    if not kind: continue
                    c = self.into(i)
                    if c: self.add(d['id'], d['n'], kind if not (t.endswith('&') and isiter(t)) else 'iter', c)
                    for b in d.get('bind', ()):
                        if t.endswith('&') and c: self.add(b['id'], b['n'], 'ref', c)
                elif n.k == 'rinit':
                    s = n.x; r = s['range']; c = cls(r.get('t', '').rstrip('&').strip()); p = None if prval(r) else self.F.path(r)
                    cs = ([(p, c)] if p and c else []) + ([] if prval(r) else self.into(r))
                    if cs:
                        self.add(('h', n.i), 'the loop over ' + syn.show(r)[:50], 'iter', cs)
                        if s['v']['t'].endswith('&'):
                            self.add(s['v']['id'], s['v']['n'], 'ref', cs)
                            for b in s.get('bind', ()): self.add(b['id'], b['n'], 'ref', cs)
                elif n.k == 'e':
                    x = strip(n.x); l = r = None
                    if x['k'] == 'bin' and x['op'] == '=' and '*' in x['a'][0].get('t', ''): l, r = x['a']
                    elif x['k'] == 'call' and x.get('op') == '=' and 'obj' in x and isiter(x['obj'].get('t', '')) and x.get('a'): l, r = x['obj'], x['a'][0]
                    if l and l['k'] == 'var':
                        c = self.into(r)
                        if c: self.add(l['id'], l['n'], 'iter' if isiter(l.get('t', '')) else 'ptr', c)
    def add(self, i, name, kind, cs):
        t = self.track.setdefault(i, dict(n=name, kind=kind, c=[]))
        for c in cs:
            if c[0] is not None and c not in t['c']: t['c'].append(c)
    # ---- invalidation
    def hit(self, i, p, k, x):
        """does the modification invalidate tracked variable i? -> text"""
        t = self.track[i]; m = x.get('f', {}).get('s') if isinstance(x.get('f'), dict) else None
        direct = x.get('k') == 'call' and x.get('f') and x['f']['n'] not in self.F.A.P.fn
        for C, c in t['c']:
            if k in ('grow', 'grow?', 'shrink', 'realloc') and p != C: continue
            if k == 'grow':
                if c in SEQ or c.startswith('unordered') and t['kind'] == 'iter': return True
            elif k == 'grow?':
                if c.startswith('unordered') and t['kind'] == 'iter': return True
            elif k == 'realloc':
                if c in SEQ or c.startswith('unordered') and t['kind'] == 'iter': return True
            elif k == 'shrink':
                if direct and m in ('pop_back', 'pop_front', 'pop'): continue
                if direct and m == 'clear': return True
                if c in SEQ: return True
                if direct and m in ('erase', 'extract'):
                    for arg in x.get('a', ()):
                        for y in syn.walk_e(arg):
                            if y['k'] == 'var' and (y['id'] == i or self.links.get(y['id']) == i or isinstance(i, tuple) and self.owner.get(y['id']) == i): 
                                if any(z['k'] == 'un' and z['op'] == '++' and z.get('post') or z['k'] == 'call' and z.get('op') == '++' and len(z.get('a', ())) == 1 for z in syn.walk_e(arg)): return False
                                return True
            elif k == 'set':
                if p is None or not (C[:len(p)] == p): continue
                if x.get('k') == 'bin' and x['op'] != '=' : continue
                if x.get('k') == 'un' or 'k' not in x: continue
                if p == C or x.get('op') == '=' or x.get('k') == 'bin':
                    if x.get('k') == 'call' and x.get('f') and x['f']['n'] in self.F.A.P.fn and p != C: continue
                    return True
        return False
    # ---- flow
    def flow(self):
        self.owner = {}
        for n in self.g.n:
            if n.k == 'rinit':
                self.owner[n.x['v']['id']] = ('h', n.i)
                for b in n.x.get('bind', ()): self.owner[b['id']] = ('h', n.i)
        self.hid = {}
        for n in self.g.n:
            if n.k == 'rinit':
                for m, _ in n.succ:
                    if m.k == 'rhead': self.hid[m.i] = ('h', n.i)
        st = {self.g.entry.i: {}}; work = [self.g.entry]; self.found = {}; cnt = 0
        by = {n.i: n for n in self.g.n}
        while work and cnt < 20000:
            n = work.pop(); cnt += 1; s = dict(st[n.i]); s = self.node(n, s)
            for m, lab in n.succ:
                t = self.edge(n, lab, s); o = st.get(m.i)
                if o is None: st[m.i] = dict(t); work.append(m)
                else:
                    ch = False
                    for k, v in t.items():
                        if k not in o: o[k] = v; ch = True
                        elif RANK(v) > RANK(o[k]): o[k] = v; ch = True
                    if ch: work.append(m)
    def edge(self, n, lab, s):
        if n.k != 'br' or lab not in (True, False): return s
        x = strip(n.x); neg = False
        while x['k'] == 'un' and x['op'] == '!': neg = not neg; x = strip(x['a'][0])
        op = x.get('op') if x['k'] in ('bin', 'call') else None
        if op not in ('==', '!='): return s
        xs = x.get('a', ()) if x['k'] == 'bin' else ([x['obj']] if 'obj' in x else []) + list(x.get('a', ()))
        eq = (op == '==') != neg; holds = lab if eq else not lab
        s = dict(s)
        for v, o in ((xs[0], xs[1]), (xs[1], xs[0])) if len(xs) == 2 else ():
            v = strip(v)
            o_ = strip(o)
            while o_['k'] == 'ctor' and o_.get('a'): o_ = strip(o_['a'][0])
            if holds and v['k'] == 'var' and o_['k'] == 'call' and o_.get('f') and o_['f']['s'] in ('begin', 'cbegin') and 'obj' in o_:
                s.pop(('f', v['id']), None)        # the first element (of a container tested for emptiness by its caller)
            while v['k'] == 'ctor' and v.get('a'): v = strip(v['a'][0])
            o = strip(o)
            while o['k'] == 'ctor' and o.get('a'): o = strip(o['a'][0])
            if v['k'] == 'var' and ('f', v['id']) in s and (o['k'] == 'call' and o.get('f') and o['f']['s'] in ('end', 'cend') or o['k'] == 'var' and o['id'] in self.ends()):
                if not holds: s.pop(('f', v['id']), None)
                else: s[('f', v['id'])] = ('end', n.l, 'it equals end()')
        return s
    def ends(self):
        if not hasattr(self, '_ends'):
            self._ends = {n.x['id'] for n in self.g.n if n.k == 'decl' and n.x.get('init') and strip(n.x['init'])['k'] == 'call' and strip(n.x['init']).get('f') and strip(n.x['init'])['f']['s'] in ('end', 'cend')}
        return self._ends
    def report(self, n, i, why, kind):
        key = (kind, i, n.l)
        if key not in self.found: self.found[key] = (n, why); self.out.append((kind, n.l, self.track[i]['n'] if i in self.track else str(i), why))
    def uses(self, e, s, n, lhs=False):
        """uses of invalid variables, dereferences of unchecked look-ups"""
        k = e['k']; a = e.get('a', ())
        if k == 'bin' and e['op'] == '=' and a[0]['k'] == 'var' and a[0]['id'] in self.track and not a[0].get('vt', '').endswith('&'):
            self.uses(a[1], s, n); return
        if k == 'call' and e.get('op') == '=' and 'obj' in e and e['obj']['k'] == 'var' and isiter(e['obj'].get('t', '')):
            for x in a: self.uses(x, s, n)
            return
        if k == 'var':
            w = s.get(e['id'])
            if w: self.report(n, e['id'], w, 'use')
            return
        if k == 'call' and e.get('op') in ('*', '->') and 'obj' in e or k == 'un' and e['op'] == '*':
            o = strip(e['obj'] if k == 'call' else a[0])
            if o['k'] == 'var' and ('f', o['id']) in s: self.reportf(n, o['n'], s[('f', o['id'])])
            elif o['k'] == 'call' and o.get('f') and isiter(o['f']['r']) and (o['f']['s'] in FINDS and not o['f'].get('repo')): self.reportf(n, syn.show(o)[:60], ('find', n.l, syn.show(o)[:80], o))
            elif o['k'] == 'call' and o.get('f') and o['f']['s'] in ('end', 'cend') and 'obj' in o and cls(o['obj'].get('t', '')): self.reportf(n, syn.show(o)[:60], ('end', n.l, 'it is end()'))
        if k == 'lambda':
            for y in syn.walk_s(e['body']):
                if y['k'] == 'var' and s.get(y['id']): self.report(n, y['id'], s[y['id']], 'use')
            return
        for key in ('obj', 'callee', 'b'):
            if isinstance(e.get(key), dict): self.uses(e[key], s, n)
        for x in a: self.uses(x, s, n)
    def reportf(self, n, name, w):
        key = ('find', name, n.l)
        if key in self.found: return
        self.found[key] = 1
        guarded = w[0] == 'find' and self.guarded(w)
        self.out.append(('maybe' if guarded else 'end', n.l, name, w))
    def guarded(self, w):
        o = w[3] if len(w) > 3 else None
        c = None
        if o is not None: c = self.F.path(o['obj']) if 'obj' in o else self.F.pointee(o['a'][0]) if o.get('a') else None
        for n in self.g.n:
            xs = [n.x] if n.k in ('br', 'e', 'ret') and isinstance(n.x, dict) else [n.x['init']] if n.k == 'decl' and n.x.get('init') else []
            for x in xs:
                for y in syn.walk_e(x):
                    if y['k'] != 'call' or not y.get('f'): continue
                    if y['f']['s'] in ('count', 'contains', 'rbegin', 'crbegin', 'back') and 'obj' in y:
                        p = self.F.path(y['obj'])
                        if c is None or p is None or p == c or c[:len(p)] == p: return True
                    if y.get('op') in ('==', '!='):
                        zs = [strip(z) for z in ([y['obj']] if 'obj' in y else []) + list(y.get('a', ()))]
                        zs = [strip(z['a'][0]) if z['k'] == 'ctor' and z.get('a') else z for z in zs]
                        if any(z['k'] == 'call' and z.get('f') and z['f']['s'] in ('end', 'cend') or z['k'] == 'var' and z['id'] in self.ends() for z in zs) and not any(z['k'] == 'call' and z.get('f') and z['f']['s'] in ('next', 'prev') for z in zs) and n.k != 'br': return True
        return False
    def node(self, n, s):
        self.n += 1
        x = None
        if n.k in ('e', 'br', 'ret') and isinstance(n.x, dict): x = n.x
        elif n.k == 'decl': x = n.x.get('init')
        elif n.k == 'rinit': x = n.x['range']
        if x: self.uses(x, s, n)
        if n.k == 'rhead':
            h = self.hid.get(n.i)
            if h is not None and s.get(h): self.report(n, h, s[h], 'use')
        # events
        for p, k, y in self.F.node_mods(n):
            if p is None or k.startswith('unk'): continue
            for i in self.track:
                if i not in s and self.bound(i, s) and self.hit(i, p, k, y): s[i] = ('inv', y.get('l'), syn.show(y)[:90])
        # bindings
        if n.k == 'decl':
            d = n.x
            for i in [d['id']] + [b['id'] for b in d.get('bind', ())]:
                if i in self.track: self.bind(i, d.get('init'), s, n)
            self.findstate(d['id'], d.get('init'), s, n)
        elif n.k == 'rinit':
            h = ('h', n.i)
            if h in self.track: s.pop(h, None); s[('b', h)] = ('b',)
        elif n.k == 'rvar':
            v = n.x['v']['id']
            for i in [v] + [b['id'] for b in n.x.get('bind', ())]:
                if i in self.track: s.pop(i, None); s[('b', i)] = ('b',)
        elif n.k == 'e':
            y = strip(n.x); l = r = None
            if y['k'] == 'bin' and y['op'] == '=' and y['a'][0]['k'] == 'var': l, r = y['a']
            elif y['k'] == 'call' and y.get('op') == '=' and 'obj' in y and y['obj']['k'] == 'var' and y.get('a'): l, r = y['obj'], y['a'][0]
            if l is not None and l['id'] in self.track and not l.get('vt', '').endswith('&'): self.bind(l['id'], r, s, n)
            if l is not None and not l.get('vt', '').endswith('&'): self.findstate(l['id'], r, s, n)
        if x:
            for z in walk_flat(x):      # ++it, --it: the look-up result was stepped
                if (z['k'] == 'un' and z['op'] in ('++', '--') or z['k'] == 'call' and z.get('op') in ('++', '--')):
                    o = z['a'][0] if z['k'] == 'un' else z.get('obj')
                    if o and o['k'] == 'var': s.pop(('f', o['id']), None)
        return s
    def bound(self, i, s): return ('b', i) in s
    def bind(self, i, init, s, n):
        s.pop(i, None); s[('b', i)] = ('b',)
        if init is not None:
            for y in walk_flat(init):
                if y['k'] == 'var' and y['id'] != i and s.get(y['id']) and (isiter(y.get('t', '')) or self.track.get(y['id'], {}).get('kind') == 'ptr'): s[i] = s[y['id']]
    def findstate(self, i, init, s, n):
        s.pop(('f', i), None)
        if not init: return
        e = strip(init)
        while e['k'] == 'ctor' and e.get('a') and isiter(e['t']): e = strip(e['a'][0])
        if e['k'] == 'call' and e.get('f') and isiter(e['f']['r']) and e['f']['s'] in FINDS and not e['f'].get('repo'): s[('f', i)] = ('find', n.l, syn.show(e)[:80], e)
        elif e['k'] == 'call' and e.get('f') and e['f']['s'] in ('end', 'cend') and 'obj' in e and cls(e['obj'].get('t', '')): s[('f', i)] = ('end', n.l, 'it is end()')
def RANK(v): return {'b': 0, 'find': 1, 'end': 2, 'inv': 3}.get(v[0], 1)
def dangling(F, f, body):
    """references, pointers and iterators to locals or temporaries that outlive them"""
    out = []; rt = f['f']['r']
    locs = {}
    for s in syn.stmts(f['body']):
        if s['k'] == 'decl':
            for d in s['d']:
                if not d.get('static'): locs[d['id']] = d
    for p in f['params']:
        if not p['t'].endswith('&') and '*' not in p['t'] : locs[p['id']] = p
    def local(p): return p and isinstance(p[0], tuple) and p[0][0] == 'v' and p[0][1] in locs and not locs[p[0][1]]['t'].endswith('&') and not ('*' in locs[p[0][1]]['t'] and not locs[p[0][1]]['t'].endswith(']'))
    def own(s, inl=False):      # statements outside lambdas
        if not s: return
        yield s
        for x in syn.kids_s(s): yield from own(x)
    for s in own(body):
        if s['k'] == 'ret' and s.get('e'):
            e = strip(s['e'])
            if rt.endswith('&') and e['k'] in ('var', 'mem', 'call', 'idx') and local(F.path(e)): 
                p = F.path(e); v = locs[p[0][1]]
                if not (isiter(v['t']) ): out.append((s['l'], 'returns a reference into its own local "%s"' % v['n']))
            elif rt.endswith('*') and e['k'] == 'un' and e['op'] == '&' and local(F.path(e['a'][0])): out.append((s['l'], 'returns the address of its own local "%s"' % locs[F.path(e['a'][0])[0][1]]['n']))
            elif (isiter(rt) or rt.endswith('*')) and e['k'] in ('call', 'ctor'):
                while e['k'] == 'ctor' and e.get('a'): e = strip(e['a'][0])
                if e['k'] == 'call' and 'obj' in e and cls(e['obj'].get('t', '')) and e['f']['s'] in paths.ITERM and local(F.path(e['obj'])): out.append((s['l'], 'returns an iterator into its own local "%s"' % locs[F.path(e['obj'])[0][1]]['n']))
        xs = []
        if s['k'] == 'rfor': xs = [(s['range'], s['l'], 'the loop')]
        if s['k'] == 'decl': xs = [(d['init'], d['l'], '"%s"' % d['n']) for d in s['d'] if d.get('init') and (d['t'].endswith('&') or isiter(d['t']) or d['t'].endswith('*'))]
        for e, l, what in xs:
            e = strip(e)
            while e['k'] == 'ctor' and e.get('a') and isiter(e['t']): e = strip(e['a'][0])
            while e['k'] == 'un' and e['op'] == '&': e = strip(e['a'][0])
            chain = e; refs = False
            while True:
                if chain['k'] == 'call' and chain.get('f') and 'obj' in chain and (chain['f']['r'].endswith('&') or isiter(chain['f']['r']) or chain['f']['r'].endswith('reference')) :
                    refs = True; o = strip(chain['obj'])
                    if prval(o) and not isiter(o.get('t', '')) and not o.get('t', '').endswith('*') and (cls(o.get('t', '')) or chain['f'].get('repo')):
                        out.append((l, '%s refers into a temporary that is gone after this statement: %s' % (what, syn.show(e)[:80]))); break
                    chain = o
                elif chain['k'] == 'mem' and not chain.get('arrow') and refs: chain = strip(chain['a'][0])
                else: break
    return out
