"""Termination of loops and recursion over control-flow graphs of the typed syntax trees.
A loop is proved when the steps of its counters cut every way round it; a counter is an integer, pointer or iterator that every round compares with a bound
the loop does not move, and that only moves towards it. Containers that are drained count as well."""
import re
import syn
from cfg import CFG, strip
import paths
from paths import isiter, cls
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
BITS = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'bool': 1, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}
MAXV = {'unsigned char': 255, 'char': 127, 'signed char': 127, 'short': 32767, 'unsigned short': 65535}
def typ(t): return t.replace('const ', '').replace('volatile ', '').rstrip('&').strip()
def isint(t):
    t = typ(t); return t in BITS or t in ('long', 'unsigned long', 'long long', 'unsigned long long')
def isfp(t): return typ(t) in ('double', 'float', 'long double')
def unsigned(t): return typ(t).startswith('unsigned') or typ(t) == 'bool'
def bits(t): return BITS.get(typ(t), 64)
def over(a, b):
    """writing a may change what reading b sees (or the reverse)"""
    n = min(len(a), len(b)); return a[:n] == b[:n]
IMPURE = set('rand random time clock fgets fread getline scanf get read now'.split())
class Loop:
    def __init__(self, F, g, lid):
        self.F = F; self.g = g; self.lid = lid; L = g.loops[lid]; self.head = L['head']
        ns = {n.i: n for n in g.inloop(lid)}
        back = {}; 
        for n in ns.values():
            for m, _ in n.succ:
                if m.i in ns: back.setdefault(m.i, []).append(n)
        on = {self.head.i}; st = [self.head]
        while st:
            for q in back.get(st.pop().i, ()):
                if q.i not in on: on.add(q.i); st.append(q)
        reach = {self.head.i}; st = [self.head]
        while st:
            for q, _ in st.pop().succ:
                if q.i in on and q.i not in reach: reach.add(q.i); st.append(q)
        self.on = on & reach; self.nodes = [ns[i] for i in sorted(self.on)]
        self.iscycle = any(m is self.head for n in self.nodes for m, _ in n.succ)
        self.mods = []          # (node, path, kind, expr)
        for n in self.nodes:
            for p, k, x in F.node_mods(n): self.mods.append((n, p, k, x))
        self.inner = set()      # variables that belong to one round
        for n in self.nodes:
            if n.k == 'decl': self.inner.add(n.x['id']); self.inner |= {b['id'] for b in n.x.get('bind', ())}
            if n.k == 'rvar': self.inner.add(n.x['v']['id']); self.inner |= {b['id'] for b in n.x.get('bind', ())}
    # ---- what an expression reads
    def reads(self, e):
        out = []
        def go(e, val=True):
            k = e['k']; a = e.get('a', ())
            if k in ('var', 'mem', 'idx'):
                p = self.F.path(e)
                if p: out.append(('val', p))
                if k == 'mem': 
                    b = a[0] if a else None
                    while b and b['k'] == 'mem' and not b.get('arrow') and b.get('a'): b = b['a'][0]
                    if b and b['k'] not in ('this', 'var', 'mem'): go(b)
                    elif b and b['k'] == 'mem' and b.get('a'): go(b['a'][0]) if b['a'][0]['k'] not in ('this',) else None
                elif k == 'idx':
                    for x in a: go(x)
                elif k == 'var' and p and p[0] != ('v', e['id']): out.append(('val', (('v', e['id']),)))
                return
            if k == 'call':
                f = e.get('f')
                if 'obj' in e:
                    o = e['obj']; p = self.F.pointee(o) if e.get('arrow') else self.F.path(o)
                    if f and cls(o.get('t', '').rstrip('* ').strip()) and f['s'] in ('size', 'empty', 'end', 'begin', 'cend', 'cbegin', 'rend', 'rbegin') and p: out.append(('size', p))
                    else:
                        if p: out.append(('deep', p))
                        if o['k'] not in ('this', 'var') : go(o)
                        if o['k'] == 'var' and isiter(o.get('t', '')): out.append(('val', (('v', o['id']),)))
                for x in a: go(x)
                if 'callee' in e: go(e['callee'])
                return
            for key in ('obj', 'callee', 'b'):
                if isinstance(e.get(key), dict): go(e[key])
            for x in a: go(x)
        go(e)
        return out
    def hits(self, mod, rd):
        """does the modification (path, kind) change what the read sees?"""
        p, k = mod; how, q = rd
        if p is None: return None
        if how == 'size':
            if k in ('grow', 'grow?', 'shrink'): return p == q or p[:len(q)] == q and len(p) < len(q)
            if k == 'realloc': return False
            return q[:len(p)] == p
        if how == 'val': return over(p, q) if k not in ('realloc',) else False
        return over(p, q)
    def changes(self, e, skip=None):
        """modifications in the loop that change what e reads"""
        rs = self.reads(e); out = []
        for n, p, k, x in self.mods:
            if skip is not None and p == skip: continue
            for r in rs:
                if self.hits((p, k), r): out.append((n, p, k, x, r)); break
        return out
    def opaque(self, e):
        """e calls something whose result may change by itself"""
        for y in paths.walk_flat(e):
            if y['k'] in ('call',):
                f = y.get('f')
                if not f: return True
                if f['s'] in IMPURE and not f.get('repo'): return True
                if f['n'] in self.F.A.P.fn and self.F.A.sum[f['n']]: return True
                if f.get('m') and 'obj' in y and not f.get('c') and f['n'] not in self.F.A.P.fn and not cls(y['obj'].get('t', '').rstrip('* ')) and not isiter(y['obj'].get('t', '')) and y.get('op') not in ('[]', '()', '*', '->'): return True
        return False
    # ---- exits
    def exits(self):
        out = []
        if not hasattr(self.g, 'live'):      # nodes from which the function can return
            bk = {}; live = {self.g.exit.i}; st = [self.g.exit.i]
            for n in self.g.n:
                for m, _ in n.succ: bk.setdefault(m.i, []).append(n.i)
            while st:
                for q in bk.get(st.pop(), ()):
                    if q not in live: live.add(q); st.append(q)
            self.g.live = live
        alive = any(i in self.g.live for i in self.on)
        for n in self.nodes:
            if n.k != 'br': continue
            if alive and not any(m.i in self.g.live and m.i not in self.on for m, lab in n.succ): continue     # only ends in an exception
            ins = {lab for m, lab in n.succ if m.i in self.on and lab != 'exc'}; labs = {True, False}
            if len(ins) == 1:
                stay = ins.pop(); out.append((n, stay))
        return out
    def atom(self, n, stay):
        """(left, rel, right): the comparison that keeps the loop going"""
        x = strip(n.x); k = x['k']
        neg = not stay
        while True:
            if k == 'un' and x['op'] == '!': neg = not neg; x = strip(x['a'][0]); k = x['k']; continue
            break
        if k == 'bin' and x['op'] in NEG: l, op, r = x['a'][0], x['op'], x['a'][1]
        elif k == 'call' and x.get('op') in NEG:
            xs = ([x['obj']] if 'obj' in x else []) + list(x.get('a', ()))
            if len(xs) != 2: return None
            l, op, r = xs[0], x['op'], xs[1]
        elif k == 'call' and x.get('f') and x['f']['s'] == 'empty' and 'obj' in x: return (x, '==0' if not neg else '!=0', None)
        elif k == 'un' and x['op'] in ('--', '++'): l, op, r = x, '!=', dict(k='lit', v='0', t=x['t'])
        elif k in ('var', 'mem') and (isint(x['t']) and typ(x['t']) != 'bool' or '*' in x['t']): l, op, r = x, '!=', dict(k='lit', v='0', t=x['t'])
        else: return None
        if neg: op = NEG[op]
        return (l, op, r)
    def lit(self, e):
        e = strip(e)
        if e['k'] == 'lit' and isinstance(e.get('v'), str) and re.fullmatch(r'\d+', e['v']): return int(e['v'])
        if e['k'] == 'lit' and isinstance(e.get('v'), float): return e['v']
        if e['k'] == 'un' and e['op'] == '-':
            v = self.lit(e['a'][0]); return None if v is None else -v
        if e['k'] == 'bin' and e['op'] in ('*', '+', '-', '/'):
            a, b = self.lit(e['a'][0]), self.lit(e['a'][1])
            if a is not None and b is not None:
                try: return {'*': a * b, '+': a + b, '-': a - b}.get(e['op'], (a // b if isinstance(a, int) and isinstance(b, int) else a / b))
                except ZeroDivisionError: return None
        if e['k'] == 'var' and e['s'] in ('local',):
            ds = [m for n in self.g.n for m in self.F.node_mods(n) if m[0] == (('v', e['id']),)]
            if len(ds) == 1 and ds[0][2].get('init'): return self.lit(ds[0][2]['init'])
        return None
    def step(self, path, kind, x, iter_):
        """how x moves the counter: number, '+': forward by at least one, '0+': never back, ('reset', expr), None unknown"""
        k = x['k'] if 'k' in x else 'decl'
        if k == 'un' and x['op'] in ('++', '--'): return 1 if x['op'] == '++' else -1
        if k == 'call' and x.get('op') in ('++', '--'): return 1 if x['op'] == '++' else -1
        if k == 'bin' and x['op'] in ('+=', '-='):
            v = self.lit(x['a'][1]); s = 1 if x['op'] == '+=' else -1
            if v is not None: return s * v
            t = strip(x['a'][1]).get('t', '')
            return None
        if k == 'bin' and x['op'] in ('*=', '<<='):
            v = self.lit(x['a'][1]); return 'up' if v is not None and (v >= 2 or x['op'] == '<<=' and v >= 1) else None
        if k == 'bin' and x['op'] in ('/=', '>>='):
            v = self.lit(x['a'][1]); return 'down' if v is not None and (v >= 2 or x['op'] == '>>=' and v >= 1) else None
        if k == 'call' and x.get('op') in ('+=', '-=') and x.get('a'):
            v = self.lit(x['a'][0]); return None if v is None else v if x['op'] == '+=' else -v
        if k == 'call' and x.get('f') and x['f']['s'] == 'advance' and len(x.get('a', ())) == 2: return self.lit(x['a'][1])
        r = None
        if k == 'bin' and x['op'] == '=': r = strip(x['a'][1])
        elif k == 'call' and x.get('op') == '=' and x.get('a'): r = x['a'][0]
        if r is not None:
            while r['k'] in ('ctor', 'conv') and r.get('a'): r = r['a'][0]
            if r['k'] == 'bin' and r['op'] in ('+', '-'):
                for i, j in ((0, 1), (1, 0)):
                    if self.F.path(strip(r['a'][i])) == path and (i == 0 or r['op'] == '+'):
                        v = self.lit(r['a'][j])
                        if v is not None: return v if r['op'] == '+' else -v
                return None
            if r['k'] == 'call' and r.get('f'):
                s = r['f']['s']
                if s == 'erase' and r.get('a') and self.refers(r['a'][0], path): return 1
                if s == 'next' and r.get('a') and self.refers(r['a'][0], path): return 1
                if s == 'prev' and r.get('a') and self.refers(r['a'][0], path): return -1
                return None
            if self.F.path(r) == path: return 0
            if self.lit(r) is not None: return ('reset', self.lit(r))
        return None
    def refers(self, e, path):
        e = strip(e)
        while e['k'] in ('ctor', 'conv') and e.get('a'): e = e['a'][0]
        if e['k'] == 'un' and e['op'] in ('++', '--'): e = e['a'][0]
        if e['k'] == 'call' and e.get('op') in ('++', '--') and 'obj' in e: e = e['obj']
        return e['k'] == 'var' and (('v', e['id']),) == path
    def side(self, e):
        """(path, type, bumps in the comparison) when e is a counter"""
        t0 = e.get('t', ''); e = strip(e)
        while e['k'] == 'ctor' and e.get('a') and (e.get('copy') or isiter(e['t'])): e = strip(e['a'][0])
        if e['k'] == 'bin' and e['op'] in ('+', '-') and isint(e['t']):
            for i in (0, 1):
                if self.lit(e['a'][1 - i]) is not None and (i == 0 or e['op'] == '+'): return self.side(e['a'][i])
        if e['k'] == 'un' and e['op'] in ('++', '--'): e = strip(e['a'][0])
        if e['k'] == 'call' and e.get('op') in ('++', '--') and 'obj' in e: e = e['obj']
        if e['k'] == 'var' and (isint(e['vt']) or '*' in e['vt'] or isiter(e['vt'])) and not (e['s'] == 'local' and e['id'] in self.inner):
            t = typ(e['vt']); p = (('v', e['id']),) if e['s'] != 'global' and not e['vt'].endswith('&') else self.F.path(e)
            return (p, t) if p else None
        if e['k'] == 'mem' and isint(e.get('ft', '')):
            p = self.F.path(e); return (p, typ(e['ft'])) if p and '[]' not in p else None
        return None
    def init_of(self, path):
        """initial values the counter may have when the loop is entered"""
        out = []
        for n in self.g.n:
            if n.i in self.on: continue
            for p, k, x in self.F.node_mods(n):
                if p == path:
                    if 'k' not in x: out.append(x.get('init'))
                    elif x['k'] == 'bin' and x['op'] == '=': out.append(x['a'][1])
                    else: out.append(None)
        return out
    def judge(self, n, stay):
        """-> (status, detail, step nodes)"""
        x = n.x
        at = self.atom(n, stay)
        if at is None:
            ch = self.changes(x)
            if not ch and not self.opaque(x) and not any(p is None for _, p, k, _ in self.mods): return ('invariant', syn.show(x)[:80] + ' never changes', ())
            y = strip(x)
            if y['k'] == 'call' and y.get('f') and y['f']['s'] in ('isnan', 'isinf', 'isfinite', '__isnan', '__isinf'): return ('fp', syn.show(x)[:80], ())
            if y['k'] == 'var' and y['s'] == 'local':       # a flag computed in the round
                src = self.flag(y)
                if src == 'fp': return ('fp', syn.show(x)[:80], ())
                if src == 'init' : return ('invariant', syn.show(x)[:80] + ' is not changed', ())
            return ('unknown', syn.show(x)[:80], ())
        l, op, r = at
        if r is None:      # container drained
            o = l['obj']; p = self.F.pointee(o) if l.get('arrow') else self.F.path(o)
            if op == '!=0' and p: return self.drain(p, n)
            return ('unknown', syn.show(x)[:80], ())
        if isfp(l.get('t', '')) or isfp(r.get('t', '')):
            return self.fpatom(l, op, r, x, n)
        sl, sr = strip(l), strip(r)
        for s_, o_, other in ((sl, op, r), (sr, SWAP[op], l)):
            if s_['k'] == 'call' and s_.get('f') and s_['f']['s'] == 'size' and 'obj' in s_ and o_ in ('>', '>=', '!=') and self.lit(other) is not None:
                p = self.F.path(s_['obj'])
                if p and any(q == p and k == 'shrink' for _, q, k, _ in self.mods): return self.drain(p, n)
        best = None
        for c, o, b in ((l, op, r), (r, SWAP[op], l)):
            v = self.side(c)
            if not v: continue
            j = self.counter(v, c, o, b, n)
            if best is None or j[0] == 'ok' or best[0] == 'invariant' or best[0] == 'unknown' and j[0] == 'broken': best = j if best is None or best[0] != 'ok' else best
        if best: return best
        if not self.changes(x) and not self.opaque(x) and not any(p is None for _, p, k, _ in self.mods): return ('invariant', syn.show(x)[:80] + ' never changes', ())
        return ('unknown', syn.show(x)[:80], ())
    def flag(self, y):
        """where a local flag gets its values in the loop: 'fp' floating-point comparisons only, 'init': nowhere"""
        srcs = []
        for n, p, k, x in self.mods:
            if p == (('v', y['id']),): srcs.append((n, x))
        if not srcs: return 'init'
        ok = True
        for n, x in srcs:
            r = x.get('init') if 'k' not in x else x['a'][1] if x['k'] == 'bin' and x['op'] == '=' else None
            if r is None: return None
            r = strip(r)
            if r['k'] == 'bin' and r['op'] in NEG and (isfp(r['a'][0]['t']) or isfp(r['a'][1]['t'])): continue
            return None
        return 'fp' if ok else None
    def fpatom(self, l, op, r, x, n):
        for c, o, b in ((l, op, r), (r, SWAP[op], l)):
            v = strip(c)
            if v['k'] == 'var' and isfp(v['vt']) and v['s'] != 'global' and v['id'] not in self.inner:
                p = (('v', v['id']),); st = [(n, self.step(p, k, y, False)) for n, q, k, y in self.mods if q == p]
                if st and all(isinstance(s, (int, float)) and s != 0 for _, s in st) and self.lit(b) is not None:
                    if all((s > 0) == (o in ('<', '<=')) for _, s in st) and o in ('<', '<=', '>', '>='): return ('ok', 'floating counter with constant step and bound', [n for n, _ in st])
        for c, o, b in ((l, op, r), (r, SWAP[op], l)):
            if c.get('k') == 'conv' and isint(strip(c).get('t', '')) and self.side(c):       # an integer counter against a floating bound
                j = self.counter(self.side(c), c, o, b, n)
                if j[0] in ('ok', 'broken'): return j
        if not self.changes(x) and not self.opaque(x): return ('invariant', syn.show(x)[:80] + ' never changes', ())
        return ('fp', syn.show(x)[:80], ())
    def drain(self, p, n):
        st = []; bad = None
        for m, q, k, x in self.mods:
            if q is None: bad = x
            elif q == p and k == 'shrink': 
                st.append(m)
            elif q == p and k in ('grow', 'grow?', 'set') or len(q) < len(p) and p[:len(q)] == q and k != 'realloc': bad = x
        if bad is not None: return ('unknown', 'the container is refilled in the loop', ())
        if not st: return ('invariant', 'the container is never emptied', ())
        if self.g.cycle(self.lid, {n.i}) is not None: return ('unknown', 'not tested in every round', ())
        return ('ok', 'container drained', st)
    def counter(self, v, c, op, b, n):
        path, t = v; name = syn.show(c)[:40]; txt = syn.show(n.x)[:80]; it = isiter(t); ptr = '*' in t
        steps = []; bad = None; resets = []; noise = False
        for m, q, k, x in self.mods:
            if q == path or (q is not None and len(q) < len(path) and path[:len(q)] == q):
                s = self.step(path, k, x, it) if q == path else None
                if isinstance(s, tuple): resets.append((m, s[1], x))
                elif s is None: bad = x
                else: steps.append((m, s, x))
            elif q is None and isinstance(path[0], tuple) and path[0][0] != 'v': noise = True
        if not steps and not resets and bad is None:
            ch = self.changes(n.x)
            if not ch and not self.opaque(n.x): return ('invariant', txt + ' never changes', ())
            return ('unknown', txt, ())
        if op == '==': return ('unknown', txt, ())
        if op in ('<', '<='): want = 1
        elif op in ('>', '>='): want = -1
        else: want = 0
        val = []
        for m, s, x in steps:
            if s == 'up': s = 1
            if s == 'down': s = -1
            val.append((m, s, x))
        ups = [m for m, s, _ in val if s > 0]; downs = [m for m, s, _ in val if s < 0]; zero = [m for m, s, _ in val if s == 0]
        if want == 0:
            if ups and downs or not (ups or downs): return ('unknown', txt, ())
            want = 1 if ups else -1
        good, wrong = (ups, downs) if want > 0 else (downs, ups)
        bl = self.lit(b); bt = strip(b).get('t', '')
        if want < 0 and op == '>=' and unsigned(t) and bl is not None and bl <= 0: return ('broken', '"%s" is always true: %s is unsigned' % (txt, name), ())
        if want > 0 and bits(t) < 32 and not it and not ptr:
            mx = MAXV.get(t, 1)
            if bl is not None and (bl > mx or bl == mx and op == '<='): return ('broken', '%s is %s and never reaches %s' % (name, t, bl), ())
            if bl is None and isint(bt) and (bits(bt) > bits(t) or op == '<=' and bits(bt) == bits(t)): return ('broken', '%s is %s (at most %d) while the bound "%s" has no such limit' % (name, t, mx, syn.show(b)[:60]), ())
        if bad is not None: return ('unknown', '%s is changed by %s' % (name, syn.show(bad)[:60] if 'k' in bad else 'a declaration'), ())
        if resets:
            return ('broken', 'line %s sets %s back to %s' % (resets[0][2].get('l'), name, resets[0][1]), ())
        if wrong and not good:
            if unsigned(t) and op == '<' and want > 0 and all(s == -1 for m, s, _ in val if m in wrong): good, wrong = wrong, []
            else: return ('broken', '%s moves away from its bound in "%s"' % (name, txt), ())
        if wrong: return ('unknown', '%s moves both ways' % name, ())
        if not good: return ('broken', '%s is stepped by zero' % name, ())
        ch = [q for q in self.changes(b, path)]
        if noise: return ('unknown', 'call through a pointer may change %s' % name, ())
        if self.opaque(b): return ('unknown', 'the bound %s is recomputed by a call' % syn.show(b)[:60], ())
        if any(p is None and k == 'unknown' for _, p, k, _ in self.mods) and any(r[1][0] == 'this' or isinstance(r[1][0], tuple) and r[1][0][0] != 'v' for r in self.reads(b)): return ('unknown', 'an indirect call may move the bound', ())
        if ch:
            away = []
            for m, p, k, x, r in ch:
                if k in ('grow',) and r[0] == 'size' and want > 0: away.append((m, x))
                elif k == 'shrink' and want > 0 and op in ('<', '<=') and r[0] == 'size': continue
                elif k == 'shrink' and r[0] == 'size' and it: continue
                elif k == 'set' and strip(b)['k'] in ('var', 'mem') and self.F.path(strip(b)) == p:
                    s = self.step(p, k, x, False)
                    if isinstance(s, (int, float)) and s * want > 0: away.append((m, x))
                    elif isinstance(s, (int, float)) and s * want < 0 and op != '!=': continue
                    else: return ('unknown', 'the bound %s is changed by %s' % (syn.show(b)[:40], syn.show(x)[:60] if 'k' in x else ''), ())
                else: return ('unknown', 'the bound %s may be changed by %s' % (syn.show(b)[:40], syn.show(x)[:60] if 'k' in x else '?'), ())
            if away: return ('broken', 'line %s moves the bound %s: %s' % (away[0][1].get('l'), syn.show(b)[:50], syn.show(away[0][1])[:80]), ())
        if op == '!=':
            if not all(abs(s) == 1 for _, s, _ in val): return ('unknown', txt + ' with steps other than one', ())
            ini = self.init_of(path)
            if it:
                if not self.same_range(ini, b, want): return ('unknown', txt + ': start and end of different ranges', ())
            elif ptr: return ('unknown', txt, ())
            else:
                iv = [self.lit(i) if i else None for i in ini]
                if not (want > 0 and ini and all(q == 0 for q in iv) and (unsigned(bt) or (bl or -1) >= 0) or want < 0 and bl == 0 and unsigned(t)): return ('unknown', txt, ())
        for m, s, x in steps:
            if s == 'up':
                iv = [self.lit(i) if i else None for i in self.init_of(path)]
                if not iv or any(q is None for q in iv): return ('unknown', txt, ())
                if any(q == 0 for q in iv): return ('broken', '%s stays zero' % name, ())
            if s == 'down' and not (bl is not None and (bl >= 0 and op == '>' or bl >= 1 or op == '!=')): return ('unknown', txt, ())
        if self.g.cycle(self.lid, {n.i}) is not None: return ('unknown', txt + ' is not tested in every round', good)
        return ('ok', txt, good)
    def same_range(self, ini, b, want):
        b = strip(b)
        while b['k'] == 'ctor' and b.get('a'): b = strip(b['a'][0])
        if b['k'] == 'var':
            q = [x for n in self.g.n for x in [n.x] if n.k == 'decl' and n.x['id'] == b['id']]
            if q and q[0].get('init'): b = q[0]['init']
            while b['k'] == 'ctor' and b.get('a'): b = strip(b['a'][0])
        if b['k'] != 'call' or not b.get('f') or b['f']['s'] not in ('end', 'cend', 'rend', 'begin', 'cbegin') : return False
        pb = self.F.pointee(b)
        if not ini or pb is None: return False
        for i in ini:
            if i is None or self.F.pointee(i) != pb: return False
        return True
    def verdict(self):
        """('ok'|'violation'|'undecided'|'none', text)"""
        if not self.iscycle: return ('none', 'not a loop')
        L = self.g.loops[self.lid]
        if L['k'] == 'rfor': return ('ok', 'range for')
        ex = [(n, s) + self.judge(n, s) for n, s in self.exits()]
        cut = {m.i for _, _, st, _, ns in ex if st == 'ok' for m in ns}
        if cut:
            if self.g.cycle(self.lid, cut) is None: return ('ok', '; '.join(d for _, _, st, d, _ in ex if st == 'ok'))
        rep = self.repeat()
        if rep: return ('violation', 'a round along %s changes nothing that decides how the loop goes on: it repeats for ever' % rep)
        if not ex:
            if any(n.k == 'ret' for n in self.g.inloop(self.lid)): return ('undecided', 'left only by an unconditional return')
            return ('violation', 'there is no way out of the loop')
        if not cut and all(st in ('invariant', 'fp', 'broken', 'vacuous') for _, _, st, _, _ in ex):
            inner = [n for n in self.g.inloop(self.lid) if n.k == 'rhead' and n.i not in self.on]
            if all(st == 'invariant' for _, _, st, _, _ in ex) and self.early(): return ('undecided', 'every way out is decided before the first round or inside an inner traversal')
            r = [d for _, _, st, d, _ in ex if st == 'broken'] + ['the only other way out is the floating-point comparison ' + d for _, _, st, d, _ in ex if st == 'fp'] + [d for _, _, st, d, _ in ex if st == 'invariant']
            return ('violation', '; '.join(r[:3]))
        return ('undecided', '; '.join(d for _, _, st, d, _ in ex if st in ('unknown', 'ok', 'broken'))[:200])
    def early(self):
        """ways out that are not comparisons: range-for bodies, case labels, handlers"""
        for n in self.nodes:
            if n.k == 'br': continue
            ins = [m for m, lab in n.succ if m.i in self.on and lab != 'exc']; outs = [m for m, lab in n.succ if m.i not in self.on]
            if ins and outs: return True
        return False
    def repeat(self):
        """a way round the loop that changes nothing any of its decisions depends on"""
        R = []; 
        for n in self.nodes:
            if n.k == 'br': R += self.reads(n.x)
            if n.k == 'rhead': R += [('deep', r[1]) for r in self.reads(n.x['range'])]
        seen = set(R); ch = True
        while ch:
            ch = False
            for n, p, k, x in self.mods:
                if p is None: continue
                if any(self.hits((p, k), r) for r in seen):
                    src = []
                    if 'k' not in x: src = [x.get('init')] if 'init' in x else [x.get('range')]
                    elif x['k'] == 'bin': src = [x['a'][1]]
                    else: src = [x]
                    for e in src:
                        if not e: continue
                        for r in self.reads(e):
                            if r not in seen: seen.add(r); ch = True
        changing = set()
        for n, p, k, x in self.mods:
            if p is None or k.startswith('unk'): changing.add(n.i); continue
            if isinstance(p[0], tuple) and p[0][0] == 'v' and p[0][1] in self.inner and len(p) == 1: continue
            if any(self.hits((p, k), r) for r in seen): changing.add(n.i)
        for n in self.nodes:
            for e in ([n.x] if n.k in ('e', 'br', 'ret') and isinstance(n.x, dict) else [n.x.get('init')] if n.k == 'decl' and n.x.get('init') else []):
                if self.opaque(e): changing.add(n.i)
        p = self.g.cycle(self.lid, changing)
        if p is None: return None
        every = {n.i for n, s in self.exits() if self.g.cycle(self.lid, {n.i}) is None}
        extra = [n for n, lab in p if n.k == 'br' and n.i not in every]
        if len(extra) > 1: return None
        return 'lines ' + ', '.join(str(l) for l in sorted({n.l for n, _ in p if n.l}))[:80]

def functions(P, A):
    """(name, f, Fn, body, inits) for every function and every lambda inside"""
    for n, f in sorted(P.fn.items()):
        F = A.fa[n]
        yield n, f, F, f['body'], [i['e'] for i in f.get('inits', ()) if i.get('e')]
        k = 0
        for s in syn.stmts(f['body']):
            for e in syn.exprs_s(s):
                for y in paths.walk_flat(e):
                    if y['k'] == 'lambda':
                        k += 1; yield n + '::lambda%d' % k, f, F, y['body'], []

# ---- recursion
def recursion(P, A):
    """[(name, f, verdict, text)] for every function that can call itself"""
    calls = {}
    for n, f in P.fn.items():
        cs = []
        for s in syn.stmts(f['body']):
            for e in syn.exprs_s(s):
                for y in syn.walk_e(e):
                    if y['k'] in ('call', 'ctor') and y.get('f') and y['f']['n'] in P.fn: cs.append(y)
        for i in f.get('inits', ()):
            if i.get('e'):
                for y in syn.walk_e(i['e']):
                    if y['k'] in ('call', 'ctor') and y.get('f') and y['f']['n'] in P.fn: cs.append(y)
        calls[n] = cs
    # strongly connected components (Tarjan)
    idx = {}; low = {}; st = []; on = set(); out = []
    import sys; sys.setrecursionlimit(10000)
    def go(v):
        idx[v] = low[v] = len(idx); st.append(v); on.add(v)
        for c in calls[v]:
            w = c['f']['n']
            if w not in idx: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v: break
            if len(comp) > 1 or any(c['f']['n'] == v for c in calls[v]): out.append(comp)
    for v in sorted(calls):
        if v not in idx: go(v)
    res = []
    for comp in out:
        if len(comp) > 1:
            res.append((comp[0], P.fn[comp[0]], 'undecided', 'mutual recursion of %d functions' % len(comp))); continue
        n = comp[0]; f = P.fn[n]; F = A.fa[n]; g = CFG(f['body'])
        def rec(node):
            xs = [node.x] if node.k in ('e', 'br', 'ret') and isinstance(node.x, dict) else [node.x.get('init')] if node.k == 'decl' and node.x.get('init') else [node.x['range']] if node.k == 'rinit' else []
            return [y for x in xs for y in syn.walk_e(x) if y['k'] in ('call', 'ctor') and y.get('f') and y['f']['n'] == n]
        sites = [(m, y) for m in g.n for y in rec(m)]
        reach = lambda cut: walk(g.entry, cut)
        def walk(a, cut):
            seen = {a.i}; q = [a]
            while q:
                for b, _ in q.pop().succ:
                    if b.i not in cut and b.i not in seen: seen.add(b.i); q.append(b)
            return seen
        sn = {m.i for m, _ in sites}
        if g.exit.i not in walk(g.entry, sn) : res.append((n, f, 'violation', 'every way through the function calls it again')); continue
        best = None
        for i, p in enumerate(f['params']):
            if not isint(p['t']): continue
            dirs = []
            for m, y in sites:
                x = strip(y['a'][i]) if i < len(y.get('a', ())) else None; d = None
                if x is not None and x['k'] == 'bin' and x['op'] in ('+', '-'):
                    l = strip(x['a'][0]); r = strip(x['a'][1])
                    if l['k'] == 'var' and l['id'] == p['id'] and r['k'] == 'lit' and str(r.get('v')).isdigit(): d = int(r['v']) * (1 if x['op'] == '+' else -1)
                elif x is not None and x['k'] == 'var' and x['id'] == p['id']: d = 0
                elif x is not None and x['k'] == 'bin' and x['op'] in ('/', '>>'):
                    l = strip(x['a'][0]); r = strip(x['a'][1])
                    if l['k'] == 'var' and l['id'] == p['id'] and r['k'] == 'lit' and str(r.get('v')).isdigit() and int(r['v']) >= (2 if x['op'] == '/' else 1): d = -1
                dirs.append(d)
            changed = any(q == (('v', p['id']),) for m in g.n for q, k, x in F.node_mods(m))
            if changed or any(d is None for d in dirs): continue
            guards = [m for m in g.n if m.k == 'br' and any(y['k'] == 'var' and y['id'] == p['id'] for y in syn.walk_e(m.x))]
            if all(d < 0 for d in dirs):
                un = [m for m, _ in sites if all(m.i in walk(g.entry, set()) and m.i in walk2(g, gd) for gd in guards)] if guards else [m for m, _ in sites]
                best = ('ok', 'argument %s decreases and is tested' % p['n']) if not un else ('violation', 'argument %s decreases without being tested before the call in line %s' % (p['n'], un[0].l))
                if best[0] == 'ok': break
            elif all(d > 0 for d in dirs):
                b = best or ('undecided', 'argument %s grows' % p['n'])
                best = b
        if best is None: best = swapped(f, g, sites, walk)
        if best is None:
            same = [m for m, y in sites if len(y.get('a', ())) == len(f['params']) and all(strip(x)['k'] == 'var' and strip(x)['id'] == q['id'] or x['k'] == 'ctor' and x.get('copy') and x.get('a') and x['a'][0]['k'] == 'var' and x['a'][0]['id'] == q['id'] for x, q in zip(y['a'], f['params']))]
            def changed_before(t):
                bk = {}; seen = {t.i}; q = [t]
                for m in g.n:
                    for b, _ in m.succ: bk.setdefault(b.i, []).append(m)
                while q:
                    for m in bk.get(q.pop().i, ()):
                        if m.i not in seen: seen.add(m.i); q.append(m)
                ids = {p['id'] for p in f['params']}
                for m in g.n:
                    if m.i not in seen or m is t: continue
                    for q, k, x in F.node_mods(m):
                        if q is None or q[0] == 'this' or isinstance(q[0], tuple) and (q[0][0] in ('p', 'g') or q[0][1] in ids): return True
                return False
            same = [m for m in same if not changed_before(m)]
            if same: best = ('violation', 'line %s calls it again with the same arguments' % same[0].l)
        res.append((n, f) + (best or ('undecided', 'no argument is seen to decrease')))
    return res
def swapped(f, g, sites, walk):
    """calls itself with two integer arguments exchanged: the order known before the call must not hold in it"""
    ps = [p for p in f['params'] if isint(p['t'])]
    if len(ps) != 2 or len(f['params']) != 2: return None
    ids = [p['id'] for p in ps]
    for m, y in sites:
        a = [strip(x) for x in y.get('a', ())]
        if [x.get('id') if x['k'] == 'var' else None for x in a] != ids[::-1]: return None
        S = {'<', '=', '>'}
        for b in g.n:
            if b.k != 'br': continue
            x = strip(b.x)
            if x['k'] != 'bin' or x['op'] not in NEG: continue
            l, r = strip(x['a'][0]), strip(x['a'][1])
            if not (l['k'] == r['k'] == 'var' and {l['id'], r['id']} == set(ids)): continue
            op = x['op'] if l['id'] == ids[0] else SWAP[x['op']]
            for lab in (True, False):
                tgt = [q for q, lb in b.succ if lb is lab]
                if all(m.i not in walk(q, {b.i}) for q in tgt) and m.i not in walk2(g, b):      # only the other outcome leads to the call
                    o = NEG[op] if lab else op
                    S &= {'<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='}, '==': {'='}, '!=': {'<', '>'}}[o]
        if S & {{'<': '>', '>': '<', '=': '='}[q] for q in S}:
            return ('violation', 'line %s calls it again with the arguments exchanged although they may be %s' % (m.l, 'equal' if '=' in S else 'in either order'))
    return ('ok', 'arguments %s and %s exchanged into order' % (ps[0]['n'], ps[1]['n']))
def walk2(g, gd):
    """nodes reachable from the entry without passing gd"""
    seen = {g.entry.i}; q = [g.entry]
    while q:
        for b, _ in q.pop().succ:
            if b.i not in seen and b.i != gd.i: seen.add(b.i); q.append(b)
    return seen
