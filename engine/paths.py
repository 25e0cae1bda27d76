"""Field-sensitive modification summaries: which access paths (root, field, field, '[]' ...) an expression or a function may assign, grow, shrink or reallocate.
Distinct parameters are taken to denote distinct objects."""
import re
import syn
CONT = re.compile(r'^(const )?std::(vector|map|set|unordered_map|unordered_set|deque|list|basic_string|multimap|multiset|unordered_multimap|stack|queue|priority_queue|forward_list)<')
GROW = set('push_back emplace_back insert emplace push push_front emplace_front try_emplace insert_or_assign append emplace_hint splice insert_range'.split())
SHRINK = set('pop_back erase clear pop pop_front extract remove remove_if'.split())
SET = set('resize assign swap merge operator='.split())
REALLOC = set('reserve shrink_to_fit rehash'.split())
def cls(t):
    m = CONT.match(t.strip().rstrip('&*').strip())
    return m.group(2) if m else None
MAXD = 6
class Paths:
    """P: syn.Program. sum[name] = {(path, kind): (line, text)} with paths rooted at 'this', ('p', i) or ('g', name)"""
    def __init__(self, P):
        self.P = P; self.sum = {n: {} for n in P.fn}; self.fa = {}
        for _ in range(10):
            ch = False
            for n, f in P.fn.items():
                a = Fn(self, f); s = a.summary()
                if set(s) != set(self.sum[n]): ch = True
                self.sum[n] = s; self.fa[n] = a
            if not ch: break
class Fn:
    def __init__(self, A, f, same=None):
        self.A = A; self.f = f; self.same = same or {}; self.alias = {}; self.par = {}; self.types = {}; self.lam = {}
        for i, p in enumerate(f['params']):
            self.types[p['id']] = p['t']
            if p['t'].endswith('&') or '*' in p['t']: self.par[p['id']] = i
        for _ in range(2):
            for s in syn.stmts(f['body']): self.binds(s)
    def binds(self, s):
        if s['k'] == 'decl':
            for d in s['d']:
                self.types[d['id']] = d['t']; i = d.get('init')
                if not i: continue
                if i['k'] == 'lambda': self.lam[d['id']] = i
                t = d['t']
                if t.endswith('&') : self.al(d['id'], self.path(i))
                elif t.endswith('*') or re.search(r'\*( const)?$', t): self.al(d['id'], self.pointee(i))
                elif isiter(t): self.al(d['id'], self.pointee(i))
                for b in d.get('bind', ()):
                    if t.endswith('&'): self.al(b['id'], self.path(i))
        elif s['k'] == 'rfor':
            v = s['v']; self.types[v['id']] = v['t']; p = self.path(s['range'])
            if v['t'].endswith('&') and p: self.al(v['id'], p + ('[]',))
            for b in s.get('bind', ()):
                if v['t'].endswith('&') and p: self.al(b['id'], p + ('[]',))
    def al(self, i, p):
        if p is None: return
        self.alias.setdefault(i, set()).add(p[:MAXD])
    def root(self, i):
        if i in self.same: return self.same[i]
        if i in self.par and i not in self.alias: return (('p', self.par[i]),)
        if i in self.alias:
            for p in sorted(self.alias[i], key=repr):
                if p[0] != ('v', i): return p
        return (('v', i),)
    def path(self, e):
        """access path of an lvalue, None when unknown"""
        k = e['k']; a = e.get('a', ())
        if k == 'conv': return self.path(a[0])
        if k == 'var':
            if e['s'] == 'global': return (('g', e['n']),)
            if e['s'] == 'binding' and e['id'] not in self.alias: return self.path(e['b']) if 'b' in e and e['b']['k'] != 'call' else (('v', e['id']),)
            t = self.types.get(e['id'], e.get('vt', ''))
            return self.root(e['id']) if t.endswith('&') or e['s'] == 'binding' else (('v', e['id']),)
        if k == 'this': return ('this',)
        if k == 'mem':
            if e.get('static'): return (('g', e['n']),)
            b = self.pointee(a[0]) if e.get('arrow') else self.path(a[0])
            return (b + (e['n'],))[:MAXD] if b else None
        if k == 'un' and e['op'] == '*': return self.pointee(a[0])
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'): return self.path(a[0])
        if k == 'idx':
            b = self.pointee(a[0]); return (b + ('[]',))[:MAXD] if b and not (b[-1:] == ('[]',) and a[0]['k'] == 'var') else b
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='): return self.path(a[0])
        if k == 'call':
            f = e.get('f')
            if not f: return None
            if e.get('op') in ('[]',) or f['s'] in ('at', 'front', 'back', 'top', 'data') and 'obj' in e:
                b = self.path(e['obj']) if not e.get('arrow') else self.pointee(e['obj']); return (b + ('[]',))[:MAXD] if b else None
            if e.get('op') in ('*', '->') and 'obj' in e: return self.pointee(e['obj'])
            if f['s'] in ('move', 'forward', 'as_const', 'ref') and a: return self.path(a[0])
            if e.get('op', '').endswith('=') and 'obj' in e and e['op'] not in ('==', '!=', '<=', '>='): return self.path(e['obj'])
            return None
        return None
    def pointee(self, e):
        """path of what a pointer / iterator / array expression points to"""
        k = e['k']; a = e.get('a', ())
        if k == 'conv': return self.pointee(a[0])
        if k == 'this': return ('this',)
        if k == 'var':
            if e['s'] == 'global': return (('g', e['n']),)
            return self.root(e['id'])
        if k == 'un' and e['op'] == '&': return self.path(a[0])
        if k == 'un' and e['op'] in ('++', '--'): return self.pointee(a[0])
        if k == 'mem': return self.path(e)
        if k == 'idx': return self.path(e)
        if k == 'bin' and e['op'] in ('+', '-', '+=', '-='): return self.pointee(a[0])
        if k == 'ctor' and a: return self.pointee(a[0])
        if k == 'call':
            f = e.get('f')
            if f and 'obj' in e and f['s'] in ITERM:
                b = self.pointee(e['obj']) if e.get('arrow') else self.path(e['obj']); return (b + ('[]',))[:MAXD] if b else None
            if f and 'obj' in e and e.get('op') in ('++', '--', '+', '-', '+=', '-='): return self.pointee(e['obj'])
            if f and 'obj' in e and isiter(f['r']):
                b = self.path(e['obj']); return (b + ('[]',))[:MAXD] if b else None
            if f and f['s'] in ALGIT and a: return self.pointee(a[0])
            return self.path(e)
        return None
    # ---- modifications
    def mods_e(self, e):
        """[(path or None, kind, expr)] of one expression, subexpressions included"""
        out = []
        for x in walk_flat(e):
            out += self.mod1(x)
        return out
    def mod1(self, e):
        k = e['k']; a = e.get('a', ())
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            if a[0]['k'] == 'var' and ('*' in a[0].get('vt', '') or isiter(a[0].get('vt', ''))) and not a[0].get('vt', '').endswith('&'): return [((('v', a[0]['id']),), 'set', e)]
            return [(self.path(a[0]), 'set', e)]
        if k == 'un' and e['op'] in ('++', '--'):
            if a[0]['k'] == 'var' and not a[0].get('vt', '').endswith('&'): return [((('v', a[0]['id']),), 'set', e)]
            return [(self.path(a[0]), 'set', e)]
        if k == 'delete': return [(self.pointee(a[0]), 'free', e)]
        if k in ('call', 'ctor'): return self.mcall(e)
        return []
    def mcall(self, e):
        f = e.get('f'); a = e.get('a', ()); out = []
        if not f:
            c = e.get('callee')
            return [(None, 'unknown', e)] if c else []
        if f['n'] in self.A.P.fn:
            for (q, kind), why in self.A.sum[f['n']].items():
                if q is None: out.append((None, 'unknown', e)); continue
                r = q[0]
                if r == 'this':
                    if e['k'] == 'ctor' or 'obj' not in e: continue
                    b = self.pointee(e['obj']) if e.get('arrow') or e['obj']['k'] == 'this' else self.path(e['obj'])
                elif isinstance(r, tuple) and r[0] == 'p':
                    if r[1] >= len(a): continue
                    pt = f['p'][r[1]] if r[1] < len(f['p']) else ''
                    b = self.path(a[r[1]]) if pt.endswith('&') else self.pointee(a[r[1]])
                else: b = (r,)
                out.append(((b + q[1:])[:MAXD] if b else None, kind, e) if b else (None, 'unk:' + kind, e))
            return out
        n = f['s']
        if f.get('m') and 'obj' in e:
            o = e['obj']; ot = o.get('t', '').replace('const ', '')
            p = self.pointee(o) if e.get('arrow') else self.path(o)
            if f.get('c'): pass
            elif cls(ot) or e.get('arrow') and cls(ot.rstrip('* ')):
                c = cls(ot.rstrip('* '))
                if n in GROW: out.append((p, 'grow', e))
                elif n in SHRINK: out.append((p, 'shrink', e))
                elif n in SET: out.append((p, 'set', e))
                elif n in REALLOC: out.append((p, 'realloc', e))
                elif n == 'operator[]' and 'map' in c: out.append((p, 'grow?', e))
                elif n in ('operator+=',): out.append((p, 'grow', e))
            elif isiter(ot):
                if e.get('op') in ('++', '--', '+=', '-=', '='):
                    if o['k'] == 'var': out.append(((('v', o['id']),), 'set', e))
            elif '(lambda' in ot:
                if o['k'] == 'var' and o['id'] in self.lam:
                    for s in syn.stmts(self.lam[o['id']]['body']):
                        for x in syn.exprs_s(s): out += self.mods_e(x)
            elif re.search(r'stream|chrono|random|mersenne', ot): pass
            elif n.startswith('operator') and n.endswith('=') and n not in ('operator==', 'operator!=', 'operator<=', 'operator>='): out.append((p, 'set', e))
            elif n not in ('operator*', 'operator->', 'operator[]', 'begin', 'end', 'operator()', 'get', 'count', 'size') : out.append((p, 'set', e))
            for i, x in enumerate(a):
                pt = f['p'][i] if i < len(f['p']) else ''
                if pt.endswith('&') and not pt.endswith('&&') and 'const ' not in pt and ' const' not in pt and n not in ('operator[]', 'push_back', 'insert', 'emplace', 'emplace_back', 'emplace_hint', 'try_emplace') and not re.search(r'lambda', ot): out.append((self.path(x), 'set', e))
                elif n == 'operator()' and pt.endswith('&') and 'const' not in pt: out.append((self.path(x), 'set', e))
            return out
        if e['k'] == 'ctor': return out
        for i, x in enumerate(a):
            pt = f['p'][i] if i < len(f['p']) else ''
            if x['k'] == 'lambda':
                for s in syn.stmts(x['body']):
                    for y in syn.exprs_s(s): out += self.mods_e(y)
            elif pt.endswith('&') and not pt.endswith('&&') and 'const ' not in pt and ' const' not in pt and n not in ('get', 'ref', 'tie', 'max', 'min', 'addressof', 'as_const'):
                if n not in ('forward', 'move'): out.append((self.path(x), 'set', e))
            elif '*' in pt and 'const ' not in pt.split('*')[0] and 'char' not in pt: 
                q = self.pointee(x)
                if q and n not in ('isnan',): out.append((q, 'set', e))
            elif isiter(x.get('t', '')) and n in ('sort', 'fill', 'stable_sort', 'copy', 'transform', 'iota', 'reverse', 'unique', 'remove', 'remove_if', 'partial_sort', 'shuffle', 'rotate', 'swap'):
                q = self.pointee(x)
                if q: out.append((q, 'set', e))
            elif isiter(x.get('t', '')) and x['k'] == 'call' and x['f']['s'] in ('back_inserter', 'inserter', 'front_inserter') and x.get('a'):
                out.append((self.path(x['a'][0]), 'grow', e))
        if n == 'advance' and a and a[0]['k'] == 'var': out.append(((('v', a[0]['id']),), 'set', e))
        return out
    def node_mods(self, n):
        """modifications made by a node of the control-flow graph"""
        if n.k in ('e', 'br', 'ret') and isinstance(n.x, dict): return self.mods_e(n.x)
        if n.k == 'decl':
            r = [((('v', n.x['id']),), 'set', n.x)]
            if n.x.get('init') and n.x['init']['k'] != 'lambda': r = self.mods_e(n.x['init']) + r
            return r
        if n.k == 'rinit': return self.mods_e(n.x['range'])
        if n.k == 'rvar': return [((('v', n.x['v']['id']),), 'set', n.x)] if not n.x['v']['t'].endswith('&') else []
        return []
    def summary(self):
        out = {}
        for s in syn.stmts(self.f['body']):
            xs = list(syn.exprs_s(s))
            for e in xs:
                for p, kind, x in self.mods_e(e):
                    if p is None:
                        if kind == 'unknown': out.setdefault((None, 'unknown'), (x.get('l'), syn.show(x)[:100]))
                        continue
                    r = p[0]
                    if r == 'this' or isinstance(r, tuple) and r[0] in ('p', 'g'):
                        if isinstance(r, tuple) and r[0] == 'p' and len(p) == 1 and not self.f['params'][r[1]]['t'].endswith('&') and '*' not in self.f['params'][r[1]]['t']: continue
                        out.setdefault((p, kind), (x.get('l'), syn.show(x)[:100]))
        for i in self.f.get('inits', ()):
            if i.get('e'):
                for p, kind, x in self.mods_e(i['e']):
                    if p and p[0] != 'this' and not (isinstance(p[0], tuple) and p[0][0] == 'v'): out.setdefault((p, kind), (x.get('l'), syn.show(x)[:100]))
        return out
ITERM = set('begin end cbegin cend rbegin rend find lower_bound upper_bound data erase insert emplace c_str'.split())
ALGIT = set('find find_if find_if_not lower_bound upper_bound max_element min_element next prev unique remove remove_if begin end cbegin cend search adjacent_find partition rotate copy'.split())
IT = re.compile(r'__normal_iterator|_iterator<|_Iterator|_Rb_tree_iterator|_Node_iterator|_Node_const_iterator|reverse_iterator|_Bit_iterator')
def isiter(t): return bool(IT.search(t)) and not t.startswith('std::pair<') and not t.startswith('std::vector<')
def walk_flat(e):
    """sub-expressions in evaluation order (children first), lambda bodies left out"""
    if not isinstance(e, dict): return
    for k in ('obj', 'callee', 'b'):
        if isinstance(e.get(k), dict): yield from walk_flat(e[k])
    for x in e.get('a', ()): yield from walk_flat(x)
    yield e

def aliased(A, f):
    """views of f in which an argument is the object itself, or two arguments are one object (a += a)"""
    own = f['f'].get('cls'); ps = f['params']
    base = lambda t: t.replace('const ', '').replace('nikfemm::', '').rstrip('&').strip()
    for i, p in enumerate(ps):
        if not p['t'].endswith('&') or p['t'].endswith('&&'): continue
        if own and base(p['t']) == base(own) and not f.get('ctor'): yield 'with %s being the object itself' % p['n'], Fn(A, f, {p['id']: ('this',)})
        for j in range(i):
            if ps[j]['t'].endswith('&') and base(ps[j]['t']) == base(p['t']) and (cls(base(p['t'])) or 'nikfemm::' in p['t']): yield 'with %s and %s being the same object' % (ps[j]['n'], p['n']), Fn(A, f, {p['id']: (('p', j),)})
