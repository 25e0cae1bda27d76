"""Flow summaries: computes, for one function in SSA form, the value numbers of everything a caller can observe
(return value, memory effects per object, throw conditions).  See DESIGN.md, "flow engine"."""
import re, sys
from terms import *
sys.setrecursionlimit(100000)

LAM = leaf('stride')
class Unsupported(Exception): pass

# ------------------------------------------------------------------ memory states
class S: __slots__ = ()
class Init(S):
    __slots__ = ('base', 'undef')
    def __init__(s, base, undef=False): s.base = base; s.undef = undef
class Upd(S):
    __slots__ = ('prev', 'off', 'val', 'g', 'loc', 'w')
    def __init__(s, prev, off, val, g, loc, w): s.prev = prev; s.off = off; s.val = val; s.g = g; s.loc = loc; s.w = w
class LoopS(S):
    __slots__ = ('prev', 'effs', 'full', 'loc', 'base')
    def __init__(s, prev, effs, full=None, loc=None, base=None): s.prev = prev; s.effs = effs; s.full = full; s.loc = loc; s.base = base
class Whole(S):
    __slots__ = ('h', 'loc')
    def __init__(s, h, loc=None): s.h = h; s.loc = loc
class Alias(S):
    __slots__ = ('st', 'shift', 'loc')
    def __init__(s, st, shift=None, loc=None): s.st = st; s.shift = shift; s.loc = loc
class Cur(S):
    __slots__ = ('uid', 'base', 'before', 'fixed', 'reads')
    def __init__(s, uid, base, before): s.uid = uid; s.base = base; s.before = before; s.fixed = None; s.reads = set()
class Gate(S):     # state = a under guard g, else b
    __slots__ = ('g', 'a', 'b')
    def __init__(s, g, a, b): s.g = g; s.a = a; s.b = b

class Eff:
    __slots__ = ('off', 'delta', 'doms', 'loc', 'w')
    def __init__(s, off, delta, doms, loc, w=8): s.off = off; s.delta = delta; s.doms = doms; s.loc = loc; s.w = w
    def __repr__(s): return '%s [%s] += %s' % (s.doms, show(s.off), show(s.delta))

CURN = {}
CURW = {}      # widest read of each loop-current cell (8 where unknown)
def mkcur(uid, base, off, w=None):
    t = fn('cur', uid, base, off)
    if w is not None and w > CURW.get(t, 0): CURW[t] = w
    if t not in t.deps: t.deps = t.deps | {t}
    CURN.setdefault(uid, set()).add(t)
    return t
def curst(uid, base):
    t = fn('curst', uid, base)
    if t not in t.deps: t.deps = t.deps | {t}
    CURN.setdefault(uid, set()).add(t)
    return t
REFN['cur'] = lambda u, b, o: apply(lambda x, y: mkcur(u, asT(x), asT(y)), ('cur', u), b, o)
REFN['curst'] = lambda u, b: apply(lambda x: curst(u, asT(x)), ('curst', u), b)
REFN['bool'] = lambda x: apply(lambda y: y if y in (ZERO, ONE) else fn('bool', asT(y)), 'rebool', x)

def othervec(d):
    """difference of two addresses of elements: those of two vectors at different constant places of one object"""
    x = ZERO; hit = False
    for k, c in d.lin.items():
        if k is LAM: x = add(x, const(c)); hit = True
        elif k is not None and k.op == '*' and LAM in k.args:
            x = add(x, scale(k.args[1] if k.args[0] is LAM else k.args[0], c)); hit = True
    return hit and x.op == 'c' and x is not ZERO
def intcoef(d): return all(v.denominator == 1 for v in d.lin.values())
def disjoint(o1, w1, o2, w2):
    """True: provably different cells; False: same cell; None: unknown"""
    if o1 is o2: return False
    d = sub(o1, o2)
    if d.op == 'c': return not (-w1 < d.args[0] < w2)
    if othervec(d): return True
    cs = [v for k, v in d.lin.items() if k is not None]
    if all(v.denominator == 1 for v in cs):
        g = 0
        for v in cs: g = math.gcd(g, v.numerator)
        c = d.lin.get(None, Fraction(0))
        if c.denominator == 1 and g > 1:
            m = c.numerator % g
            if m >= w2 and m + w1 <= g: return True
    s = signs(canon(d)[0])
    if 0 not in s: return True
    return None

def lin_in(t, r):
    """t = a*r + b with rational a: (a, b) or None"""
    if r not in t.deps: return (Fraction(0), t)
    a = t.lin.get(r, Fraction(0))
    b = sub(t, scale(r, a)) if a else t
    if r in b.deps: return None
    return a, b

class Loc:
    @staticmethod
    def of(ins): return ins.get('loc') or []

class Fun:
    def __init__(self, d):
        self.d = d; self.name = d['name']; self.dem = d['dem']
        self.blocks = {b['id']: b for b in d['blocks']}
        self.loops = {l['header']: l for l in d['loops']}
        for l in d['loops']: l['set'] = set(l['blocks'])
        self.kids = {}
        for l in d['loops']: self.kids.setdefault(l['parent'], []).append(l['header'])
        self.order = {}
        self.preds = {b: [] for b in self.blocks}
        for b in d['blocks']:
            for s in self.succs(b): self.preds[s].append(b['id'])
        self.defs = {i['id']: i for b in d['blocks'] for i in b['ins']}
    def succs(self, b):
        t = b['ins'][-1]
        s = list(t.get('succ', []))
        for c in t.get('cases', []): s.append(c[1])
        return list(dict.fromkeys(s))
    def topo(self, header):
        """blocks (or child-loop headers) of a loop level in dependency order"""
        if header in self.order: return self.order[header]
        inside = self.loops[header]['set'] if header is not None else set(self.blocks)
        rep = {}
        for k in self.kids.get(header if header is not None else -1, []):
            for b in self.loops[k]['set']: rep[b] = k
        nodes = {}
        for b in inside: nodes.setdefault(rep.get(b, b), set())
        for b in inside:
            for s in self.succs(self.blocks[b]):
                if s in inside and s != header:
                    u, v = rep.get(b, b), rep.get(s, s)
                    if u != v: nodes[u].add(v)
        start = header if header is not None else 0
        seen = set(); out = []
        def dfs(n):
            st = [(n, iter(sorted(nodes[n])))]; seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen: seen.add(y); st.append((y, iter(sorted(nodes[y])))); break
                else: out.append(x); st.pop()
        dfs(rep.get(start, start))
        out.reverse(); self.order[header] = out
        return out

class Result: pass

class Ev:
    def __init__(self, mod, models, facts=None, opts=None):
        self.mod = mod; self.models = models; self.opts = opts or {}
        self.mem = {}; self.ran = {}; self.vecat = {}; self.throws = []; self.uid = 0; self.trips = []; self.outerg = []; self.iter0 = []; self.vocab = set(); self.notes = []; self.wcache = {}
        self.assumed = 0; self.facts = facts or {}; self.stats = dict(ins=0, loops=0, calls=0, stores=0, loads=0)
        self.localbases = set(); self.guard = BT; self.curins = None; self.unknown = []
        self.bvs = []; self.mcache = {}; self.assume_g = BT; self.frame = 0; self.skel = {}; self.cnts = {}; self.initcells = {}; self.objsize = {}

    # ------------------------------------------------------------- entry
    def run(self, fname, args=None):
        F = Fun(self.mod['functions'][fname])
        self.F = F; Ev.current = self; self.ran[F.name] = F
        env = {}
        for k, a in enumerate(F.d['args']):
            if args is not None and k < len(args) and args[k] is not None: env[a['id']] = args[k]; continue
            l = leaf('arg', k)
            if a['ty'] == 'ptr': env[a['id']] = ptr(l, ZERO)
            elif a['ty'] == 'i1': env[a['id']] = boolatom(l)
            else: env[a['id']] = l
        self.rets = []
        self.env = env
        self.region(None, {0: [(BT, {})]})
        r = Result()
        v = UNDEF; g = BF
        for (gg, val) in self.rets:
            v = ite(gg, val, v) if val is not None else v; g = vor(g, gg)
        r.ret = v; r.retg = g; r.mem = self.mem; r.throws = list(self.throws); r.ev = self
        t = BF
        for (gg, _, _) in self.throws: t = vor(t, gg)
        r.throwg = t
        return r

    # ------------------------------------------------------------- region walk
    def region(self, header, inc):
        """evaluate one loop level (or the function). returns (backedges, exits)"""
        F = self.F
        inside = F.loops[header]['set'] if header is not None else set(F.blocks)
        backs = []; exits = []
        kids = set(F.kids.get(header if header is not None else -1, []))
        def edge(pred, succ, g):
            force = header is not None and pred == header and succ not in inside
            if g is BF and not force: return
            pv = {}
            for i in F.blocks[succ]['ins']:
                if i['op'] != 'phi': break
                for (pb, o) in i['ops']:
                    if pb == pred: pv[i['id']] = self.opv(o)
            if succ == header: backs.append((g, pv))
            elif succ in inside: inc.setdefault(succ, []).append((g, pv))
            else: exits.append((succ, g, pv, pred))
        for b in F.topo(header):
            if b in kids:
                if b not in inc: continue
                ex = self.loop(b, inc.pop(b))
                for (succ, g, pv, pred) in ex:
                    # route through this level
                    if g is BF: continue
                    if succ == header: backs.append((g, pv))
                    elif succ in inside: inc.setdefault(succ, []).append((g, pv))
                    else: exits.append((succ, g, pv, pred))
                continue
            if b not in inc: continue
            self.block(b, inc.pop(b), edge)
        return backs, exits

    def merge(self, inc, phis):
        g = BF
        for (gg, _) in inc: g = vor(g, gg)
        vals = {}
        for i in phis:
            v = None
            for (gg, pv) in inc:
                x = pv[i]
                v = x if v is None else ite(gg, x, v)
            vals[i] = v
        return g, vals

    def block(self, b, inc, edge, phivals=None):
        blk = self.F.blocks[b]
        phis = [i['id'] for i in blk['ins'] if i['op'] == 'phi']
        g, vals = self.merge(inc, phis)
        if phivals: vals.update(phivals)
        self.env.update(vals)
        self.guard = g
        for i in blk['ins']:
            if i['op'] == 'phi': continue
            op = i['op']; self.curins = i; self.stats['ins'] += 1
            if op == 'br':
                if self.guard is BF and b != self.force_header: return
                if not i['ops']: edge(b, i['succ'][0], self.guard)
                else:
                    c = asbool(self.opv(i['ops'][0]))
                    dead = [self.assumed_away(x) for x in i['succ']]
                    if i['succ'][0] == i['succ'][1]: edge(b, i['succ'][0], self.guard)
                    elif dead[0] != dead[1]: edge(b, i['succ'][1 if dead[0] else 0], self.guard)
                    else:
                        for k, gg in ((0, vand(self.guard, c)), (1, vand(self.guard, vnot(c)))):
                            if b == self.force_header and b in self.F.loops and i['succ'][k] not in self.F.loops[b]['set'] and i['ops'][0][0] == 'v':
                                save = dict(self.env); self.setcond(i['ops'][0], BT if k == 0 else BF)      # where the loop ends its condition is known
                                edge(b, i['succ'][k], gg); self.env = save
                            else: edge(b, i['succ'][k], gg)
                return
            if op == 'switch':
                v = self.opv(i['ops'][0]); rest = self.guard; tgt = {}
                for (c, s) in i['cases']:
                    e = vcmp('eq', v, const(int(c)))
                    tgt[s] = vor(tgt.get(s, BF), vand(rest, e)); rest = vand(rest, vnot(e))
                tgt[i['succ'][0]] = vor(tgt.get(i['succ'][0], BF), rest)
                for s, gg in tgt.items(): edge(b, s, gg)
                return
            if op == 'ret':
                self.rets.append((self.guard, self.opv(i['ops'][0]) if i['ops'] else None)); return
            if op == 'unreachable': return
            v = self.ins(i)
            if v is not None: self.env[i['id']] = v
    force_header = None
    def assumed_away(self, b):
        """with the option 'assume' set: every way on from the block makes a call that ends the run, which the property takes never to be made"""
        r = self.opts.get('assume')
        if not r: return False
        dead = getattr(self.F, 'dead', None)
        if dead is None:
            dem = self.mod['dem']; nb = {}
            dead = {b for b, x in self.F.blocks.items() if any(i['op'] in ('call', 'invoke') and i.get('callee') and re.search(r, dem.get(i['callee'], i['callee'])) for i in x['ins'])}
            n = -1
            while n != len(dead):
                n = len(dead)
                for b2, x in self.F.blocks.items():
                    su = x['ins'][-1].get('succ') if x['ins'] else None
                    if x['ins'] and x['ins'][-1]['op'] == 'invoke' and su: su = su[:1]
                    if su and all(y in dead for y in su): dead.add(b2)
            self.F.dead = dead
        return b in dead
    def setcond(self, o, v):
        while o[0] == 'v' and o[1] in self.env:
            self.env[o[1]] = v
            d = self.F.defs.get(o[1])
            if d is None or d['op'] not in ('xor', 'freeze'): return
            if d['op'] == 'xor':
                if d['ops'][1][0] != 'i' or d['ops'][1][2] != 1: return
                v = vnot(v)
            o = d['ops'][0]

    # ------------------------------------------------------------- operands
    def opv(self, o):
        k = o[0]
        if k == 'v':
            v = self.env.get(o[1])
            if v is None: return UNDEF
            return v
        if k == 'i': return const(int(o[1])) if o[2] != 1 else (BT if int(o[1]) else BF)
        if k == 'f': return fconst(float.fromhex(o[1]))
        if k == 'null': return ZERO
        if k == 'undef': return UNDEF
        if k == 'zero': return ZERO
        if k == 'g': return ptr(leaf('glob', o[1]), ZERO)
        if k == 'cgep': return self.gep(o[1])
        if k == 'vec': return tuple(self.opv(x) for x in o[1:])
        return leaf('operand', str(o), unk=True)
    def gep(self, g):
        if g.get('bad'): return leaf('badgep', self.uid, unk=True)
        v = self.opv(g['base'])
        off = const(g['off'])
        for (o, s) in g['var']: off = vadd(off, apply(lambda x: scale(asT(x), s), ('scale', s), self.opv(o)))
        def f(b, o):
            if isinstance(b, P): return self.nodeaddr(ptr(b.base, add(b.off, asT(o))))
            if b is UNDEF: return b
            if b is ZERO: return b if o is ZERO else asT(o)
            return ptr(b, asT(o))
        return apply(f, 'gep', v, off)

    # ------------------------------------------------------------- nodes of an unordered_map with packed keys
    def nodefield(self, a):
        """(node base, position, byte within the node) of an address inside an unordered_map node"""
        if not ismapnode(a): return None
        c = a.off.lin.get(None, Fraction(0))
        if c.denominator != 1: return None
        r = c.numerator % 32
        return a.base, scale(sub(a.off, const(r)), Fraction(1, 32)), r
    def nodekey(self, b, k, r=8): return fn('mapkey', *(b.args[3:] or b.args[1:]), k)
    def nodeaddr(self, a):
        k = self.nodefield(a)
        if k is None or k[2] < 16: return a
        return ptr(fn('map', *k[0].args[1:3]), add(scale(self.nodekey(*k), 2**12), const(k[2] - 16)))
    # ------------------------------------------------------------- loads and stores
    def state(self, base):
        s = self.mem.get(base)
        return s if s is not None else self.initst(base)
    def initst(self, base): return Init(base, self.islocal(base))

    def kill(self, p):
        """the life of the local object p ends (under the current guard): its content is not carried any further"""
        if not isinstance(p, P) or p.off is not ZERO or p.base not in self.localbases: return
        G = self.guard
        if G is BF: return
        start, mem0 = self.iter0[-1] if self.iter0 else ({}, {})
        from vfops import rootpath
        for b in [b for b in self.mem if rootpath(b, p.base) is not None]:
            st = self.mem[b]; s0 = start.get(b, mem0.get(b))
            if G is BT:
                if s0 is None: del self.mem[b]
                else: self.mem[b] = s0
                continue
            nG = vnot(G)
            while st is not s0:
                if isinstance(st, Upd) and vand(st.g, nG) is BF: st = st.prev
                elif isinstance(st, Gate) and vand(st.g, nG) is BF: st = st.b
                elif isinstance(st, Gate) and vand(vnot(st.g), nG) is BF: st = st.a
                else: break
            self.mem[b] = st

    def vecptr(self, B, o):
        """data pointer of the std::vector object at (B, o)"""
        B, o = self.absobj(B, o)
        if o.op == 'c': return ptr(fn('vd', B, o), ZERO)
        return ptr(fn('vd', B), mul(LAM, o))
    def absobj(self, B, o):
        """an address inside an abstract value stored in a vector, as an address inside that value"""
        n = self.objsize.get(B)
        if n is None: return B, o
        c = int(o.lin.get(None, 0)) % n
        tok = self.load(self.state(fn('absv', B)), sub(o, const(c)), 8)
        return (tok, const(c)) if isinstance(tok, T) and tok.op == 'fn' else (fn('objat', asT(tok)), const(c))
    def vecbytes(self, B, o):
        B, o = self.absobj(B, o)
        return self.load(self.state(fn('vb', B)), o, 8)
    def ldleaf(self, base, off, w):
        if base.op == 'leaf' and base.args[0] == 'zero': return ZERO
        x = self.initcells.get((base, off))
        if x is not None: return x
        if base.op == 'leaf' and base.args[0] == 'glob':
            g = self.mod['globals'].get(base.args[1], {})
            if g.get('const') and 'flat' in g and off.op == 'c':
                for (o, val) in g['flat']:
                    if o == off.args[0]: return self.opv(val)
                return ZERO
            if g.get('const') and 'init' in g and off is ZERO: return self.opv(g['init'])
            if g.get('const') and 'arr' in g and off.op == 'c' and w:
                k = off.args[0] / w
                if k.denominator == 1 and 0 <= k < len(g['arr']): return self.opv(g['arr'][int(k)])
        for f in self.opts.get('ldfacts', ()):
            x = f(self, base, off)
            if x is not None: return x
        return fn('ld', base, off)

    def load(self, st, off, w, depth=0):
        """content of a state at an offset"""
        ops = []; v = None
        while True:
            if isinstance(st, Upd):
                dj = disjoint(off, w, st.off, st.w)
                if dj is False:
                    if st.w == w or w == 0:
                        if st.g is BT: v = st.val; break
                        ops.append(('g', st.g, st.val))
                    elif st.w > w:
                        x = self.lo32(st.val) if w == 4 else st.val
                        if st.g is BT: v = x; break
                        ops.append(('g', st.g, x))
                    elif st.w == 4 and w == 8:
                        lo = self.load(st, off, 4, depth + 1); hi = self.load(st, add(off, const(4)), 4, depth + 1)
                        v = vadd(lo, vmul(hi, const(2**32))); break
                    else: raise Unsupported('partial overlap')
                elif dj is None: self.assumed += 1
                else:
                    d = sub(off, st.off)
                    if d.op == 'c' and st.w == 8 and w == 4 and d.args[0] == 4:
                        x = self.hi32(st.val)
                        if st.g is BT: v = x; break
                        ops.append(('g', st.g, x))
                st = st.prev; continue
            if isinstance(st, Init):
                v = UNDEF if st.undef else self.ldleaf(st.base, off, w); break
            if isinstance(st, Whole):
                v = fn('at', st.h, off); break
            if isinstance(st, Cur):
                if off.op == 'c':
                    if st.fixed and all(disjoint(off, w, o, w2) is True for o, w2 in st.fixed): st = st.before; continue
                    st.reads.add((off, w))
                v = mkcur(st.uid, st.base, off, w); break
            if isinstance(st, Alias):
                if st.shift is not None: off = add(off, st.shift)
                st = st.st; continue
            if isinstance(st, Gate):
                v = ite(st.g, self.load(st.a, off, w, depth + 1), self.load(st.b, off, w, depth + 1)); break
            if isinstance(st, LoopS):
                x = self.load_loop(st, off, w)
                if x is None: st = st.prev; continue
                kind, val = x
                if kind == 'val': v = val; break
                ops.append(('add', val)); st = st.prev; continue
            raise Unsupported('state')
        for o in reversed(ops):
            if o[0] == 'g': v = ite(o[1], o[2], v)
            else: v = vadd(v, o[1])
        return v

    def load_loop(self, st, off, w):
        tot = ZERO; hit = False; full = None
        for e in st.effs:
            ebv = frozenset(d.r for d in e.doms)
            inv = not (ebv & e.off.deps)
            if inv:
                dj = disjoint(off, w, e.off, e.w)
                if dj is False:
                    x = e.delta
                    for d in reversed(e.doms): x = vsum(d, x)
                    tot = vadd(tot, x); hit = True
                continue
            if disjoint_shape(off, w, e): continue
            D = e.doms[0]
            l = lin_in(e.off, D.r)
            if l and l[0] and not ((ebv - {D.r}) & e.off.deps) and D.until is None:
                rs = scale(sub(off, l[1]), 1 / l[0])
                if all(c.denominator == 1 for c in rs.lin.values()):
                    x = e.delta
                    for d in reversed(e.doms[1:]): x = vsum(d, x)
                    x = Subst({D.r: rs}).V(x)
                    if st.full:
                        full = x; continue
                    inr = vand(vcmp('ge', rs, ZERO), vcmp('lt', rs, D.trip))
                    tot = vadd(tot, ite(inr, x, ZERO)); hit = True
                    continue
            if e.delta is ZERO: continue
            return ('val', self.ldv(st, off, w))
        if st.full:
            if full is not None: return ('val', vadd(full, tot) if hit else full)
            return ('add', tot) if hit else None
        return ('add', tot) if hit else None

    def ldv(self, st, off, w):
        x = self.inverse(st, off)
        if x is not None: return x
        x = self.count(st, off)
        if x is not None: return x
        return fn('ldv', self.regT(st), off)

    # -- inverted index: ids[v][cnt[v]++] = t, read back at ids[v][k] with k < cnt[v]
    def count(self, st, off):
        """the cell holds c times the number of (iteration of D, write) pairs whose index was i: a canonical counting term"""
        if st.base is None or not st.effs: return None
        ks = [k for k in off.lin if k is not None]
        if len(ks) != 1: return None
        D = st.effs[0].doms[0] if len(st.effs[0].doms) == 1 else None
        c = st.effs[0].delta
        if D is None or D.until is not None or not isinstance(c, T) or c.op != 'c' or c.args[0] <= 0: return None
        if any(len(e.doms) != 1 or e.doms[0].h != D.h or e.delta is not c for e in st.effs): return None
        if self.regT(st.prev) is not ZERO: return None
        i = ks[0]; a = off.lin[i]; b = const(off.lin.get(None, 0))
        us = {}
        for e in st.effs:
            u = scale(sub(e.off, b), 1 / a)
            if not all(q.denominator == 1 for q in u.lin.values()): return None
            us[u] = e.off
        if len(us) != len(st.effs): return None
        order = sorted(us, key=lambda t: t.h)
        cell = fn('occ', binder('count', D, *order), i); NONNEG.add(cell)
        f = self.cnts.get(cell)
        if f is None: f = self.cnts[cell] = dict(i=i, D=D, us=order, cell=cell, arr=[])
        arr = (st.base, c.args[0], [us[u] for u in order])
        if arr not in f['arr']: f['arr'].append(arr)
        return scale(cell, c.args[0])
    def invtrip(self, trip):
        if len(trip.lin) != 1: return None
        k, q = next(iter(trip.lin.items()))
        return self.cnts.get(k) if q == 1 else None
    def inverse(self, st, off):
        if not st.effs: return None
        for (r, trip) in self.bvs:
            f = self.invtrip(trip)
            if f is None: continue
            l = lin_in(off, r)
            if not l or not l[0]: continue
            known = [a[0] for a in f['arr']]
            for e in st.effs:
                for k in e.off.lin:      # fill positions kept by another array than the one the loop runs over
                    if k is not None and k.op == 'fn' and k.args[0] == 'lr' and k.args[1] not in known:
                        known.append(k.args[1]); bs = self.state(k.args[1])
                        if not isinstance(bs, LoopS): continue
                        for u in f['us']:
                            if u in k.args[2].lin: self.count(bs, replace_atom(k.args[2], u, f['i'])); break
            for base, c, offs in f['arr']:
                vals = []
                for u, co in zip(f['us'], offs):
                    rest = flat(Subst({f['i']: u}).V(l[1])) if f['i'] in l[1].deps else flat(replace_atom(l[1], f['i'], u))
                    hit = None
                    for e in st.effs:
                        if len(e.doms) != 1 or e.doms[0].h != f['D'].h: continue
                        d = sub(e.off, rest)
                        if len(d.lin) != 1: continue
                        k, q = next(iter(d.lin.items()))
                        if q == l[0] / c and k is not None and k.op == 'fn' and k.args[0] == 'lr' and k.args[1] is base and k.args[2] is co and k.args[3] is f['D'].trip:
                            hit = flat(strip_old(e.delta)); break
                    if hit is None: break
                    vals.append(hit)
                if len(vals) != len(f['us']): continue
                n = binder('inv', f['D'], f['cell'], f['i'], r, *vals)
                n.deps = n.deps | {r} | f['i'].deps
                return n
        return None
    def instances(self, r, trip):
        """the (corner) instances the pair (i, r < cnt[i]) stands for: list of substitutions, or None"""
        f = self.invtrip(trip)
        if f is None: return None
        out = []
        for j, u in enumerate(f['us']):
            cj = flat(Subst({f['i']: u}).T(f['cell']))
            c, s = canon(cj)
            if FACTS.get(c) != {s}: FACTS[c] = {s}; SCACHE.pop(c, None)
            def hook(t, S, j=j):
                if t.op == 'binder' and t.args[0] == 'inv' and t.args[2] is f['cell'] and t.args[3] is f['i'] and t.args[4] is r: return t.args[5 + j]
                return None
            out.append(Subst({f['i']: u, r: leaf('occ', r, dep=False)}, hook))
        return f, out

    def lo32(self, v):
        def f(x):
            x = asT(x)
            if x.op == 'c': return const(int(x.args[0]) % 2**32)
            hi, lo = split32(x)
            return lo
        return apply(f, 'lo32', v)
    def hi32(self, v):
        def f(x):
            x = asT(x)
            if x.op == 'c': return const(int(x.args[0]) % 2**64 >> 32)
            hi, lo = split32(x)
            return hi
        return apply(f, 'hi32', v)

    def do_load(self, addr, w, ty, tbaa, ins):
        self.stats['loads'] += 1
        vec = tbaa and 'Vector_impl_data' in tbaa[0]
        def f(a):
            if not isinstance(a, P):
                if a is UNDEF or a is ZERO: return UNDEF
                a = ptr(a, ZERO)
            fld = tbaa[1] if vec else None
            if fld is None and not tbaa and ty == 'ptr' and w == 8 and a.base in self.vecat:     # the tag is lost when a load is hoisted
                for k in (0, 8):
                    if sub(a.off, const(k)) in self.vecat[a.base]: fld = k; break
            if vec: self.vecat.setdefault(a.base, set()).add(sub(a.off, const(fld)))
            if fld is not None:
                o = sub(a.off, const(fld)); s = self.vecptr(a.base, o)
                if fld == 0: return s
                if fld == 8: return vadd(s, self.vecbytes(a.base, o))
                return vadd(s, fn('cap', a.base, o))
            k = self.nodefield(a)
            if k is not None and k[2] == 0: return ptr(a.base, add(a.off, const(32)))
            if k is not None and k[2] == 8: return self.nodekey(*k) if w == 8 else self.lo32(self.nodekey(*k))
            if k is not None and k[2] == 12: return self.hi32(self.nodekey(*k))
            v = self.load(self.state(a.base), a.off, w)
            if isinstance(v, N):
                for g in self.outerg:
                    if isinstance(g, N) and isinstance(v, N): v = restrict(v, g)
            if ty == 'ptr': v = apply(lambda x: x if isinstance(x, P) or x is ZERO or x is UNDEF else ptr(x, ZERO), 'toptr', v)
            return v
        self.uid += 1
        return apply(f, ('load', self.uid), addr)

    def targets(self, addr):
        """[(guard, P)] of an address"""
        if isinstance(addr, P): return [(BT, addr)]
        if isinstance(addr, T):
            if addr is UNDEF or addr is ZERO: return []
            return [(BT, ptr(addr, ZERO))]
        leaves = {}
        def walk(v, seen):
            if isinstance(v, N):
                if id(v) in seen: return
                seen.add(id(v))
                for c in v.c: walk(c, seen)
            else: leaves[id(v)] = v
        walk(addr, set())
        out = []
        for l in leaves.values():
            if l is UNDEF or l is ZERO: continue
            self.uid += 1
            c = apply(lambda x: BT if x is l else BF, ('is', self.uid), addr)
            out.append((c, l if isinstance(l, P) else ptr(l, ZERO)))
        return out

    def store(self, addr, val, w, loc, g=None):
        g = self.guard if g is None else g
        if g is BF: return
        self.stats['stores'] += 1
        if isinstance(val, tuple):
            for k, x in enumerate(val): self.store(vadd(addr, const(8 * k)), x, 8, loc, g)
            return
        for (c, a) in self.targets(addr):
            gg = vand(g, c)
            if gg is BF: continue
            self.mem[a.base] = Upd(self.state(a.base), a.off, val, gg, loc, w)

    def setvec(self, B, o, nbytes, loc, g=None):
        vb = fn('vb', B)
        self.mem[vb] = Upd(self.state(vb), o, nbytes, self.guard if g is None else g, loc, 8)
    def setregion(self, base, st, g=None):
        g = self.guard if g is None else g
        if g is BT: self.mem[base] = st
        elif g is not BF: self.mem[base] = Gate(g, st, self.state(base))

    def fillstate(self, n, es, val, loc):
        """n elements of es bytes, each val"""
        if val is ZERO: return LoopS(Init(leaf('zero')), [], ('z',), loc)
        r = bv(n, sum(1 for t in self.trips if t is n)); D = dom(r, n)
        return LoopS(Init(leaf('zero')), [Eff(scale(r, es), val, [D], loc, es)], ('z',), loc)

    # ------------------------------------------------------------- summaries
    def effects(self, st, stop=None):
        """(base key T or None, [Eff]) of a state relative to `stop` (or to its origin)"""
        chain = []
        key = None
        while st is not stop:
            if isinstance(st, Upd): chain.append(st); st = st.prev
            elif isinstance(st, LoopS):
                chain.append(st)
                if st.full: key = ZERO; break
                st = st.prev
            elif isinstance(st, Init): key = ZERO if st.undef or st.base.op == 'fn' and st.base.args[0] == 'absv' and self.islocal(st.base.args[1]) else fn('init', st.base); break
            elif isinstance(st, Whole): key = st.h; break
            elif isinstance(st, Cur): key = curst(st.uid, st.base); break
            elif isinstance(st, Alias):
                if st.shift is not None: key = fn('shifted', self.regT(st.st), st.shift); break
                st = st.st
            elif isinstance(st, Gate):
                key = ite(st.g, self.regV(st.a), self.regV(st.b)); break
            else: raise Unsupported('effects')
        effs = []
        for s in reversed(chain):
            if isinstance(s, LoopS): effs += s.effs
            else:
                old = self.load(s.prev, s.off, s.w)
                if isinstance(s.val, P) or isinstance(old, P) or isinstance(s.val, N) or isinstance(old, N): pass
                if old is UNDEF: old = ZERO
                val = s.val if s.val is not UNDEF else ZERO
                d = ite(s.g, vsub(val, old), ZERO)
                if isinstance(d, P): d = asT(d)
                effs.append(Eff(s.off, d, [], s.loc, s.w))
        return key, effs
    def regV(self, st):
        key, effs = self.effects(st)
        tot = key if key is not None else ZERO
        for e in effs:
            e = self.locallr(e)
            x = vmul(e.delta, fn('K', e.off))
            for d in reversed(e.doms): x = vsum(d, x)
            tot = vadd(tot, x)
        return tot
    def regT(self, st): return flat(self.regV(st))

from vfloop import LoopMixin, ismapnode
from vfops import OpsMixin
for m in (LoopMixin, OpsMixin):
    for k, v in list(m.__dict__.items()):
        if not k.startswith('__'): setattr(Ev, k, v)

def disjoint_shape(off, w, e):
    """cells of e can never be at off, whatever the bound variables"""
    d = sub(off, e.off)
    cs = [v for k, v in d.lin.items() if k is not None]
    if not cs: return not (-w < d.lin.get(None, Fraction(0)) < e.w)
    if othervec(d): return True
    if all(v.denominator == 1 for v in cs):
        g = 0
        for v in cs: g = math.gcd(g, v.numerator)
        c = d.lin.get(None, Fraction(0))
        if c.denominator == 1 and g > 1:
            m = c.numerator % g
            return m >= e.w and m + w <= g
    return False

def replace_atom(t, k, v):
    q = t.lin.get(k)
    return add(sub(t, scale(k, q)), scale(v, q)) if q else t

PTRFN = ('vd', 'vb', 'map')
def normbase(b, off):
    """base + offset of an address given as one sum"""
    if b.op in ('leaf', 'fn', 'binder') or len(b.lin) < 2: return b, off
    ks = [k for k, q in b.lin.items() if k is not None and q == 1 and (k.op == 'fn' and k.args[0] in PTRFN or k.op == 'leaf' and k.args[0] in ('arg', 'glob', 'alloca', 'new'))]
    if len(ks) != 1: return b, off
    return ks[0], add(off, sub(b, ks[0]))
REFN['ld'] = lambda b, o: apply(lambda x, y: fn('ld', *normbase(asT(x), asT(y))), 'reld', b, o)

def strip_old(d):
    """value written by a Set effect (delta plus the old content it subtracts)"""
    def f(x):
        x = asT(x); out = x
        for k, c in list(x.lin.items()):
            if k is not None and k.op == 'fn' and k.args[0] in ('lr', 'old') and c == -1: out = add(out, k)
        return out
    return apply(f, 'strip', d)

SPLIT = {}
def split32(x):
    """(hi, lo) of a 64-bit integer value number"""
    hi = ZERO; lo = ZERO; odd = None
    for k, c in x.lin.items():
        q = c / 2**32
        term = scale(k, c) if k is not None else const(c)
        if q.denominator == 1: hi = add(hi, scale(term, Fraction(1, 2**32)))
        else: lo = add(lo, term)
    if hi is ZERO:
        if x in BVINFO: return ZERO, x
        if x.op == 'fn' and x.args[0] == 'ld': return fn('hi32', x), fn('lo32', x)
        return fn('hi32', x), fn('lo32', x)
    return hi, lo
