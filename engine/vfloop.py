"""Loop summaries for the flow engine: domains, accumulators, recurrences, early exits, per-object effects."""
from terms import *
import vf

UNROLL = 4
INF = leaf('inf')

def mkphi(uid, pid, isptr=False):
    t = fn('phi', uid, pid)
    if t not in t.deps: t.deps = t.deps | {t}
    return t

def leaves(v, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if isinstance(v, N):
        if id(v) in seen: return out
        seen.add(id(v))
        for c in v.c: leaves(c, out, seen)
    else: out.add(v)
    return out

def flatb(v):
    """flatten unless a 0/1 diagram"""
    if isinstance(v, N) and leaves(v) <= {ZERO, ONE}: return v
    return flat(v)

def mapkeyed(off, r):
    """the cell of the element of a map at the position r of an iteration: a different one at every position"""
    ks = [k for k in off.lin if k is not None and r in k.deps]
    return len(ks) == 1 and ks[0].op == 'fn' and ks[0].args[0] == 'mapkey' and ks[0].args[-1] is r
def ismapnode(a): return isinstance(a, P) and a.base.op == 'fn' and a.base.args[0] == 'mapnode'

SELF = leaf('self')
def inner(v, kt):
    """a condition below the top that does not depend on kt"""
    st = list(v.c); seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, N) or id(x) in seen: continue
        seen.add(id(x))
        if kt not in x.d.deps: return x.d
        st += list(x.c)
def deep(v, d, i, memo):
    """cofactor of a diagram"""
    if not isinstance(v, N): return v
    if v.d is d: return v.c[i]
    k = id(v)
    if k not in memo: memo[k] = ite3(v.d, *[deep(x, d, i, memo) for x in v.c])
    return memo[k]

class LoopMixin:
    # -------- induction variables (syntactic: backedge value is phi +- constant)
    def find_ivs(self, h, init={}):
        F = self.F; ivs = {}
        inside = F.loops[h]['set']
        for i in F.blocks[h]['ins']:
            if i['op'] != 'phi': break
            steps = set()
            for (pb, o) in i['ops']:
                if pb not in inside: continue
                c = 0; ok = True; cur = o; n = 0
                while True:
                    if cur[0] != 'v': ok = False; break
                    if cur[1] == i['id']: break
                    d = F.defs.get(cur[1]); n += 1
                    if d is None or n > 8: ok = False; break
                    if d['op'] == 'add' and d['ops'][1][0] == 'i': c += int(d['ops'][1][1]); cur = d['ops'][0]
                    elif d['op'] == 'add' and d['ops'][0][0] == 'i': c += int(d['ops'][0][1]); cur = d['ops'][1]
                    elif d['op'] == 'sub' and d['ops'][1][0] == 'i': c -= int(d['ops'][1][1]); cur = d['ops'][0]
                    elif d['op'] == 'getelementptr' and not d['gep']['var']: c += d['gep']['off']; cur = d['gep']['base']
                    elif d['op'] in ('zext', 'sext', 'trunc', 'freeze'): cur = d['ops'][0]
                    elif d['op'] == 'load' and d['ty'] == 'ptr' and d['ops'][0] == ['v', i['id']] and isinstance(init.get(i['id']), P) and ismapnode(init[i['id']]): c += 32; cur = d['ops'][0]
                    elif d['op'] == 'phi' and len(d['ops']) == 1: cur = d['ops'][0][1]
                    else: ok = False; break
                steps.add(c if ok else None)
            if len(steps) == 1 and None not in steps and 0 not in steps: ivs[i['id']] = steps.pop()
        return ivs

    def iv_in_cond(self, h, ivs):
        F = self.F; t = F.blocks[h]['ins'][-1]
        if t['op'] != 'br' or not t['ops']: return set()
        st = [t['ops'][0]]; seen = set(); out = set()
        while st:
            o = st.pop()
            if not isinstance(o, list) or not o: continue
            if o[0] == 'v':
                if o[1] in seen: continue
                seen.add(o[1])
                if o[1] in ivs: out.add(o[1]); continue
                d = F.defs.get(o[1])
                if d is None: continue
                st += d['ops'] if d['op'] != 'phi' else []
                if 'gep' in d: st.append(d['gep']['base']); st += [x[0] for x in d['gep']['var']]
        return out

    def exec_header(self, h, phivals):
        """evaluate a loop header without lasting effects; returns branch condition 'continue' as a diagram or None"""
        F = self.F; blk = F.blocks[h]; t = blk['ins'][-1]
        if t['op'] != 'br' or not t['ops']: return None
        inside = F.loops[h]['set']
        s0, s1 = t['succ'][0] in inside, t['succ'][1] in inside
        if s0 == s1: return None
        save = (dict(self.mem), self.guard, list(self.throws), dict(self.env), self.assumed, dict(self.stats))
        self.env.update(phivals); self.guard = BT
        for i in blk['ins']:
            if i['op'] in ('phi', 'br'): continue
            self.curins = i
            v = self.ins(i)
            if v is not None: self.env[i['id']] = v
        c = asbool(self.opv(t['ops'][0]))
        self.mem, self.guard, self.throws, self.env, self.assumed, self.stats = save
        return c if s0 else vnot(c)

    def trip_of(self, cond, kt):
        """iteration count of 'while (cond(k)) ++k' from k = 0, or None"""
        def rec(v):
            if not isinstance(v, N): return None
            if kt not in v.d.deps:
                cs = [rec(x) for x in v.c]
                if any(c is None for c in cs): return None
                return ite3(v.d, *cs)
            l = vf.lin_in(v.d, kt)
            if not l or not l[0]: return None
            c, a = l
            if not all(x in (BT, BF) for x in v.c):
                d = inner(v, kt)        # decide the conditions that do not change in the loop first
                if d is None: return None
                cs = [rec(deep(v, d, i, {})) for i in range(3)]
                if any(c is None for c in cs): return None
                return ite3(d, *cs)
            cont = tuple(1 if x is BT else 0 for x in v.c)
            if c < 0: c, a, cont = -c, neg(a), cont[::-1]     # now increasing in k: continue set must be downward closed
            # d = a + c k ; continue while sign in cont
            if cont in ((1, 0, 0), (1, 0, 1)): return scale(neg(a), 1 / c)
            if cont == (1, 1, 0):
                if c == 1: return add(neg(a), ONE)
                return None
            return None
        return rec(cond)

    def loop(self, h, inc):
        F = self.F; L = F.loops[h]; blk = F.blocks[h]
        self.stats['loops'] += 1
        phis = [i['id'] for i in blk['ins'] if i['op'] == 'phi']
        types = {i['id']: i['ty'] for i in blk['ins'] if i['op'] == 'phi'}
        g0, init = self.merge(inc, phis)
        if g0 is BF: return []
        ivs = {k: s for k, s in self.find_ivs(h, init).items() if init[k] is not UNDEF}
        self.uid += 1; uid = self.uid
        kt = leaf('kprobe', uid, dep=True)
        pv = {}
        for k in phis:
            pv[k] = vadd(init[k], scale(kt, ivs[k])) if k in ivs else self.phival(mkphi(('p', uid), k), types[k])
        cond = self.exec_header(h, pv)
        for g in self.outerg + [g0]:        # the loop only runs under these conditions
            if isinstance(cond, N) and isinstance(g, N):
                c1 = restrict(cond, g)
                if c1 is not None: cond = c1
        trip = self.trip_of(cond, kt) if cond is not None else None
        if self.opts.get("dbg"): print("LOOP", self.F.dem[:40], h, "ivs", ivs, "cond", cond, "trip", trip)
        if trip is None and cond in (BT, BF) : pass
        if trip is not None:
            tf = flat(trip)
            if any(d.op == 'fn' and d.args[0] == 'phi' and d.args[1] == ('p', uid) for d in tf.deps): trip = None
            else: trip = tf
        if trip is not None and trip.op == 'c' and trip.args[0] < 0: trip = ZERO
        if trip is not None and trip.op == 'c' and trip.args[0] <= self.opts.get('unroll', UNROLL):
            return self.unrolled(h, g0, init, phis, int(trip.args[0]))
        if trip is None and cond is not None and not self.opts.get('nounroll_cond'):
            # constant-evaluable loop (e.g. over a literal table)
            c0 = self.exec_header(h, init)
            if c0 is BF: return self.unrolled(h, g0, init, phis, 0)
        return self.symbolic(h, g0, init, phis, types, ivs, trip, uid)

    def phival(self, t, ty):
        if ty == 'ptr': return ptr(t, ZERO)
        if ty == 'i1': return boolatom(t)
        return t

    def unrolled(self, h, g0, init, phis, n):
        out = []; vals = init; g = g0
        savef = self.force_header; self.force_header = None
        for t in range(n + 2):
            b, ex = self.region(h, {h: [(g, vals)]})
            out += [e for e in ex if e[1] is not BF]
            if not b: break
            g, vals = self.merge(b, phis)
            if g is BF: break
        else: self.notes.append('unroll limit')
        self.force_header = savef
        return out

    # -------- symbolic loops
    def symbolic(self, h, g0, init, phis, types, ivs, trip, uid):
        infinite = trip is None
        if infinite: trip = INF
        tripv = trip
        mult = sum(1 for t in self.trips if t is trip)
        r = bv(trip, mult)
        if infinite: NONNEG.discard(r); BVINFO.pop(r, None)
        cin = self.iv_in_cond(h, ivs)
        dirn = -1 if cin and all(ivs[k] < 0 for k in cin) else 1
        kk = r if dirn == 1 or infinite else sub(sub(trip, ONE), r)
        D0 = dom(r, trip)
        self.trips.append(trip); self.bvs.append((r, trip))
        mem0 = dict(self.mem); thr0 = list(self.throws); guard0 = self.guard
        savef = self.force_header
        vars_ = []          # (leaf, phi id)
        pv = {}
        for k in phis:
            if k in ivs: pv[k] = vadd(init[k], scale(kk, ivs[k]))
            else:
                t = mkphi(uid, k); vars_.append((t, k)); pv[k] = self.phival(t, types[k])
        wkey = (self.F.name, self.frame, h)
        W = set(self.wcache.get(wkey, ()))
        fixed = None        # regions written at constant places only: what else they hold does not change in the loop
        for attempt in range(12):
            self.mem = dict(mem0)
            start = {}
            for b in W:
                start[b] = vf.Cur(uid, b, mem0.get(b) or self.initst(b)); self.mem[b] = start[b]
                if fixed and b in fixed: start[b].fixed = fixed[b]
            self.throws = []
            self.force_header = h
            self.outerg.append(g0); self.iter0.append((start, mem0))
            backs, exits = self.region(h, {h: [(BT, pv)]})
            self.outerg.pop(); self.iter0.pop()
            self.force_header = savef
            written = {b for b, s in self.mem.items() if s is not start.get(b, mem0.get(b))}
            fam = {b for b in written if r in b.deps}
            new = {b for b in written - W if r not in b.deps and not any(d.op == 'fn' and d.args[0] in ('phi', 'cur') and d.args[1] == uid for d in b.deps)}
            if not new:
                if fixed is not None and not fixed: break
                now = {}
                for b in W:
                    if not start[b].reads or b not in self.mem or self.mem[b] is start[b] or not self.reaches(self.mem[b], start[b]): continue
                    effs = self.effects(self.mem[b], start[b])[1]
                    if effs and all(e.off.op == 'c' and not e.doms for e in effs): now[b] = [(e.off, e.w) for e in effs]
                if fixed is None:
                    fixed = {b: c for b, c in now.items() if any(all(vf.disjoint(o, w, o2, w2) is True for o2, w2 in c) for o, w in start[b].reads)}
                    if not fixed: break
                    continue
                if all(b in now and {o for o, w in now[b]} <= {o for o, w in fixed[b]} for b in fixed if b in self.mem and self.mem[b] is not start[b]): break
                fixed = {}; continue
            W |= new
        self.wcache[wkey] = set(W)
        self.trips.pop(); self.bvs.pop()
        memE = self.mem; throws = self.throws
        self.mem = dict(mem0); self.throws = thr0; self.guard = guard0
        gback, step = self.merge(backs, phis) if backs else (BF, {})
        if gback is not BT and gback is not BF and len(backs) > 1: step = {k: restrict(x, gback) for k, x in step.items()}
        # ---- refusals: nothing computed in an iteration that throws is observable, so everything else may assume it did not
        TG = BF; thr2 = []
        for (g, what, loc) in throws:
            thr2.append((restrict(g, vnot(TG)) if TG is not BF else g, what, loc)); TG = vor(TG, g)
        throws = thr2
        nothrow = vnot(TG)
        keep = (lambda x: x) if TG is BF else (lambda x: restrict(x, nothrow) if x is not UNDEF else x)
        if TG is not BF and nothrow is not BF:
            step = {k: keep(x) for k, x in step.items()}
            exits = [(s, keep(g), {k: keep(x) for k, x in p_.items()}, pr) for (s, g, p_, pr) in exits]
        # ---- exits
        hexit = [e for e in exits if e[3] == h]; early = [e for e in exits if e[3] != h]
        if not infinite: early += [e for e in hexit if False]
        U = BF
        for (s, g, p_, pr) in (early if not infinite else exits): U = vor(U, g)
        # ---- region effects relative to loop entry
        regs = {}; localuse = []
        for b in sorted(W, key=lambda t: t.h):
            if b not in memE or memE[b] is start[b]: continue
            key, effs = self.effects(memE[b], start[b]) if self.reaches(memE[b], start[b]) else (None, None)
            if effs is None: regs[b] = ('rec', self.regT(memE[b]))
            else: regs[b] = ('eff', self.mergeeffs([vf.Eff(e.off, keep(e.delta), e.doms, e.loc, e.w) for e in effs] if TG is not BF and nothrow is not BF else effs))
        famef = []
        for b in written - W:
            st = memE[b]; base = mem0.get(b) or self.initst(b)
            if b in self.localbases or self.islocal(b): continue
            key, effs = self.effects(st, base if b in mem0 else None)
            for e in effs: famef.append(vf.Eff(fn('addr', b, e.off), e.delta, e.doms, e.loc, e.w))
        # ---- loop-carried variables
        V = {}              # leaf -> (init, step)
        under = (lambda x: restrict(x, g0) if isinstance(x, N) else x) if isinstance(g0, N) else (lambda x: x)
        init = {k: under(x) for k, x in init.items()}
        regT0 = lambda st: flat(under(self.regV(st)))
        for (t, k) in vars_:
            if k in step: V[t] = (init[k], self.unbool(step[k], t, types[k]))
            else: V[t] = (init[k], t)
        curn = set(vf.CURN.get(uid, ()))
        smap = {}           # resolved cur nodes
        lrs = []
        used = set()
        def note(v):
            if isinstance(v, tuple):
                for x in v: note(x)
            elif v is not None: used.update(v.deps)
        for t in V: note(V[t][1])
        note(U)
        for e in exits:
            note(e[1])
            for x in e[2].values(): note(x)
        for (g, _, _) in throws: note(g)
        for b, x in regs.items():
            if x[0] == 'rec': note(x[1])
            else:
                for e in x[1]:
                    note(e.off); note(e.delta)
                    for d in e.doms: note(d.trip); note(d.until)
        for e in famef:
            note(e.off); note(e.delta)
        for c in [c for c in curn if c in used]:
            if c.args[0] == 'curst':
                b = c.args[2]
                before = start[b].before
                if b not in regs: smap[c] = regT0(before); continue
                if regs[b][0] == 'rec': V[c] = (regT0(before), regs[b][1])
                else:
                    # whole content of a region that is being updated element by element
                    tot = c
                    for e in regs[b][1]:
                        x = vmul(e.delta, fn('K', e.off))
                        for d in reversed(e.doms): x = vsum(d, x)
                        tot = vadd(tot, x)
                    V[c] = (regT0(before), flat(tot))
        for b, x in regs.items():
            if x[0] == 'rec':
                c = vf.curst(uid, b)
                if c not in V: V[c] = (regT0(start[b].before), x[1])
        for t in V: note(V[t][1])
        folds = {}          # cells at constant places: all their writes
        for round_ in range(5):
            curn = set(vf.CURN.get(uid, ()))     # the sums built above may have created further reads
            for c in sorted([c for c in curn if c in used and c.args[0] == 'cur' and c not in smap and c not in V], key=lambda t: (len(t.args[3].deps & curn), t.h)):
                b, off = c.args[2], c.args[3]; cw = vf.CURW.get(c, 8) if b.op == 'leaf' and b.args[0] == 'new' else 8
                before = start[b].before if b in start else None
                if before is None: continue
                if b not in regs:
                    smap[c] = self.load(before, off, 8)
                    if smap[c] is UNDEF: smap[c] = ZERO
                    continue
                if regs[b][0] == 'rec': smap[c] = ('at', vf.curst(uid, b), off); continue
                effs = [e for e in regs[b][1] if e.delta is not ZERO]
                same = [e for e in effs if e.off is off and not e.doms]
                inner = [e for e in effs if e.off is off and e.doms]
                others = [e for e in effs if e.off is not off and not vf.disjoint_shape(off, cw, e) and not (vf.disjoint(off, 8, e.off, e.w) is True and not e.doms and not self.varies(e.off, r, V) and not self.varies(off, r, V))]
                rdep = self.varies(off, r, V)
                if not rdep:
                    if (same or inner) and True:
                        d = ZERO
                        for e in same + inner:
                            x = e.delta
                            for dd in reversed(e.doms): x = vsum(dd, x)
                            d = vadd(d, x)
                        # an iteration that is followed by another one did not leave the loop
                        d1 = restrict(d, vnot(U)) if U is not BF and isinstance(d, N) else d
                        V[c] = (self.load(before, off, 8), vadd(c, d1))
                        if not others: folds[c] = (b, off, same + inner, d, d1 is not d)
                        continue
                    if not [e for e in others if not self.ordered(e, off, r, dirn)]: smap[c] = self.load(before, off, 8); continue
                    smap[c] = ('lr', b, off); continue
                l = vf.lin_in(off, r)
                injective = bool(l and l[0] or mapkeyed(off, r)) and not any(isinstance(x, T) and x.op == 'fn' and x.args[0] == 'phi' and x.args[1] in (uid, ('p', uid)) for x in off.deps)
                oth = [e for e in others if not self.ordered(e, off, r, dirn)]
                if injective and not oth: smap[c] = self.load(before, off, 8); continue
                if not effs: smap[c] = self.load(before, off, 8); continue
                smap[c] = ('lr', b, off)
                if self.opts.get('dbg'): print('LR', self.side, show(b)[:80], show(off,6)[:100], 'inj', injective, [show(e.off,6)[:80] for e in oth], len(effs))
            for c, x in list(smap.items()):
                if isinstance(x, tuple) and x[0] == 'lr':
                    smap[c] = fn('lr', self.basekey(x[1]), x[2], trip, r, dirn); lrs.append((smap[c], x[1], x[2])); self.lrused = getattr(self, 'lrused', set()) | {x[1]}
            # cur nodes of rec regions -> at(curst, off)
            for c, x in list(smap.items()):
                if isinstance(x, tuple) and x[0] == 'at': smap[c] = fn('at', x[1], x[2])
            # resolve nested references among cur nodes
            for _ in range(6):
                ch = False
                s = Subst({k: v for k, v in smap.items()})
                for c in list(smap):
                    if smap[c].deps & s.keys:
                        n = s.V(smap[c])
                        if n is not smap[c]: smap[c] = n; ch = True
                if not ch: break
            S0 = Subst(smap)
            for t in list(V): V[t] = (V[t][0], S0.V(V[t][1])); note(V[t][1])
            if not any(c in used and c.args[0] == 'cur' and c not in smap and c not in V for c in vf.CURN.get(uid, ())): break
        # ---- until domain
        body_until = None
        Ures = S0.V(U)
        # ---- classify variables
        val = {}; fin_sum = {}    # leaf -> value in iteration r ; leaf -> increment
        kindof = {}
        pend = dict(V)
        guard_iter = 0
        while pend and guard_iter < 12:
            guard_iter += 1; prog = False
            for t in list(pend):
                ini, st = pend[t]
                if st is UNDEF: st = t
                live = frozenset(pend)
                tv = self.tv(t, types, vars_)
                if isinstance(ini, tuple) or isinstance(st, tuple): continue
                d = vsub(st, tv)
                if isinstance(d, P): d = asT(d)
                if not (d.deps & live):
                    kindof[t] = ('acc', ini, d); del pend[t]; prog = True; continue
                # lagged copy of an expression of the iteration number
                if not (st.deps & live) and not infinite:
                    kindof[t] = ('lag', ini, st); del pend[t]; prog = True; continue
                # flag: init const, sticky
                ii = ini
                if ii in (ZERO, ONE) and self.isflag(st, t):
                    s0 = Subst({t: ZERO}).V(st); s1 = Subst({t: ONE}).V(st)
                    if ii is ZERO and leaves(s1) <= {ONE} and not (s0.deps & live):
                        kindof[t] = ('flag', ini, s0); del pend[t]; prog = True; continue
                    if ii is ONE and leaves(s0) <= {ZERO} and not (s1.deps & live):
                        kindof[t] = ('nflag', ini, vnot(s1)); del pend[t]; prog = True; continue
            if prog: 
                m = {}
                for t in kindof:
                    if t not in val:
                        val[t] = self.iterval(kindof[t], D0, r, kk, dirn); m[t] = val[t]
                sub_ = Subst(m)
                for t in pend: pend[t] = (pend[t][0], sub_.V(pend[t][1]))
                for t in list(kindof):
                    k, a, d = kindof[t]
                    if d.deps & sub_.keys: kindof[t] = (k, a, sub_.V(d))
                continue
            # scalar recurrences equal to an expression of other loop-carried state
            if self.equivalents(pend, regs, kindof, val, start, memE, uid, S0):
                continue
            break
        # remaining: canonical recurrence symbols
        if pend:
            names = self.recnames(pend, D0, types, vars_, dirn, Ures, val)
            m = {t: self.recval(names[t], trip, r) for t in pend}
            for t in pend: val[t] = m[t]; kindof[t] = ('rec', pend[t][0], names[t])
            sub_ = Subst(m)
            for t in list(val):
                if t not in m: val[t] = sub_.V(val[t])
            for t in list(kindof):
                if kindof[t][0] in ('acc', 'flag', 'nflag', 'lag'): kindof[t] = kindof[t][:2] + (sub_.V(kindof[t][2]),)
        vmap = {t: val[t] if kindof[t][0] == 'lag' else flatb(val[t]) for t in val}
        full = dict(vmap)
        sv = Subst(vmap)
        # reads at places that turn out to be different in every iteration see what was there before the loop
        lrmap = {}
        for lt, b, off in lrs:
            off2 = flat(sv.V(S0.V(off)))
            if off2 is off or regs[b][0] == 'rec' or b not in start or start[b].before is None: continue
            l = vf.lin_in(off2, r)
            if not (l and l[0]): continue
            hit = False
            for e in regs[b][1]:
                if e.delta is ZERO: continue
                o2 = flat(sv.V(S0.V(e.off)))
                if o2 is off2 and not e.doms: continue
                e2 = vf.Eff(o2, e.delta, e.doms, e.loc, e.w)
                if vf.disjoint_shape(off2, 8, e2) or self.ordered(e2, off2, r, dirn): continue
                hit = True
            if not hit: lrmap[flat(sv.V(S0.V(lt)))] = self.load(start[b].before, off2, 8)
        if lrmap:
            S2 = Subst({r: r}, lambda t, S: lrmap.get(t) if t.op == "fn" and t.args[0] == "lr" else None)
            vmap = {t: S2.V(v) for t, v in vmap.items()}; full = dict(vmap); sv = Subst(vmap)
            kindof.update({t: k[:2] + (S2.V(k[2]),) for t, k in kindof.items() if k[0] in ('acc', 'flag', 'nflag', 'lag')})
        def res(x):
            x = sv.V(S0.V(x))
            return S2.V(x) if lrmap else x
        # ---- until
        Ures = res(U)
        until = flat(Ures) if Ures is not BF else None
        D = dom(r, trip, until)
        one = ONE if infinite else None
        exv = BF
        if until is not None:
            exv = BT if infinite else boolatom(fn('exists', binder('ex', dom(r, trip), until)))
            first = fn('first', binder('first', dom(r, trip), until, dirn))
            if not until.deps & {r}: pass
        # ---- after-loop values
        def final_map(early_exit):
            m = {}
            for t, (k, ini, d) in kindof.items():
                if k == 'acc':
                    m[t] = vadd(ini, vsum(D if early_exit else dom(r, trip), d))
                elif k == 'lag':
                    if early_exit: m[t] = self.lagval(ini, d, r, trip, dirn)
                    else: m[t] = ite(vcmp('gt', trip, ZERO), Subst({r: sub(trip, ONE) if dirn == 1 else ZERO}).V(d), ini)
                elif k in ('flag', 'nflag'):
                    e = boolatom(fn('exists', binder('ex', D if early_exit else dom(r, trip), flat(d))))
                    e = e if k == 'flag' else vnot(e)
                    m[t] = e
                else:
                    m[t] = self.recval(d, trip, first if early_exit else trip)
            return m
        out = []
        def outval(x, m, rr, gr=None):
            x = S0.V(x)
            if gr is not None: x = restrict(sv.V(x), gr) if not isinstance(x, tuple) else x
            if isinstance(x, tuple): return tuple(outval1(y, m, rr) for y in x)
            return outval1(x, m, rr)
        def outval1(x, m, rr):
            mm = {t: flatb(v) for t, v in m.items()}
            x = Subst(mm).V(x)
            x = Subst({r: rr}).V(x)
            return x
        rfin = trip if dirn == 1 else const(-1)
        if not infinite:
            fm = final_map(False)
            for (s, g, p_, pr) in hexit:
                gg = vand(g0, vnot(exv))
                out.append((s, gg, {k: outval(x, fm, rfin) for k, x in p_.items()}, pr))
                break
        ex = exits if infinite else early
        if ex and until is not None:
            fm = final_map(True)
            for n, (s, g, p_, pr) in enumerate(ex):
                if len(ex) == 1: eg = BT
                else: eg = outval(g, fm, first)
                gg = vand(vand(g0, exv), eg)
                gr = res(g)
                out.append((s, gg, {k: outval(x, fm, first, gr) for k, x in p_.items()}, pr))
        # ---- throws inside
        TH = BF
        for (g, what, loc) in throws:
            g = res(g)
            if g is BF: continue
            iv = self.instances(r, trip) if not infinite and g.deps & {r} else None
            if iv is not None and all(s.V(g) is BF for s in iv[1]): continue
            e = g if not (r in g.deps) else boolatom(fn('exists', binder('thr', D, flat(g))))
            gt = vand(g0, e)
            if gt is not BF: self.throws.append((gt, what, loc)); TH = vor(TH, gt)
        if TH is not BF: out = [(s, vand(g, vnot(TH)), p_, pr) for (s, g, p_, pr) in out]
        # ---- memory after
        folded = {}
        for c, (b, off, es, d, exiting) in folds.items():
            if c not in kindof or kindof[c][0] == 'acc' and not exiting or kindof[c][0] == 'eqv' or any(id(e) in folded for e in es): continue
            o = flat(res(off))
            if r in o.deps: continue
            fs = sv.V(S0.V(vadd(c, d)))
            if lrmap: fs = S2.V(fs)
            x = final_map(False)[c] if not infinite else None
            if exv is not BF:
                y = Subst({r: first}).V(restrict(fs, Ures) if isinstance(fs, N) else fs)
                x = y if x is None else ite(exv, y, x)
            if x is None: continue
            for e in es: folded[id(e)] = None
            folded[id(es[0])] = (o, x, es[0])
        fmall = None
        for b in sorted(regs, key=lambda b: not (b.op == 'fn' and b.args[0] == 'vb')):      # sizes before contents
            kind, x = regs[b]
            before = start[b].before
            if kind == 'rec':
                c = vf.curst(uid, b)
                k_, ini, d = kindof[c]
                hh = self.recval(d, trip, first if until is not None else trip) if k_ == 'rec' else flat(vadd(ini, vsum(D, d)))
                st = vf.Whole(hh)
                self.setregion(b, st, g0)
                continue
            neweffs = []
            for e in x:
                if id(e) in folded:
                    if folded[id(e)] is None: continue
                    o, x, _ = folded[id(e)]
                    old = self.load(before, o, e.w)
                    if old is UNDEF:
                        before = vf.Upd(before, o, x, g0, e.loc, e.w); self.mem[b] = before; continue
                    delta = vsub(x, old)
                    if g0 is not BT: delta = ite(g0, delta, ZERO)
                    if delta is not ZERO: neweffs.append(vf.Eff(o, delta, [], e.loc, e.w))
                    continue
                off = flat(res(e.off)); delta = res(e.delta)
                if delta is ZERO: continue
                if until is not None and flat(ite(vnot(Ures), delta, ZERO)) is ZERO:      # only in the iteration that leaves the loop
                    S1 = Subst({r: first})
                    delta = ite(exv, S1.V(delta), ZERO)
                    if g0 is not BT: delta = ite(g0, delta, ZERO)
                    neweffs += self.convert(vf.Eff(flat(S1.V(off)), delta, [S1.dom(self.resdom(d, res))[0] for d in e.doms], e.loc, e.w))
                    continue
                if g0 is not BT: delta = ite(g0, delta, ZERO)
                doms = [self.resdom(d, res) for d in e.doms]
                alldeps = off.deps | delta.deps
                for d in doms: alldeps = alldeps | d.trip.deps
                if r not in alldeps and until is None:
                    ne = vf.Eff(off, vmul(trip, delta), doms, e.loc, e.w)
                else: ne = vf.Eff(off, delta, [D] + doms, e.loc, e.w)
                neweffs += self.convert(ne)
            if not neweffs: continue
            self.mem[b] = self.mkloops(b, before, neweffs, D)
        if famef:
            fb = leaf('family')
            effs = []
            for e in famef:
                off = flat(res(e.off)); delta = res(e.delta)
                if g0 is not BT: delta = ite(g0, delta, ZERO)
                effs += self.convert(vf.Eff(off, delta, [D] + [self.resdom(d, res) for d in e.doms], e.loc, e.w))
            self.mem[fb] = vf.LoopS(self.state(fb), effs)
        pure = all(k[0] in ('flag', 'nflag') for k in kindof.values()) and not any(regs[b][0] != 'eff' or any(e.delta is not ZERO for e in regs[b][1]) for b in regs if not self.islocal(b))
        self.skel[(self.F.name, h)] = (len(self.trips), 'n' if until is None else 's' if pure else 'e')      # loops for comparison: no early exit, search, exit out of a working loop
        return out


    def varies(self, t, r, V):
        return r in t.deps or any(x in V for x in t.deps)
    def basekey(self, b): return b
    def islocal(self, b):
        while b.op == 'fn' and b.args[0] in ('vd', 'vb', 'map', 'mapin', 'setv'): b = b.args[1]
        return b in self.localbases
    def tv(self, t, types, vars_):
        for (x, k) in vars_:
            if x is t: return self.phival(t, types[k])
        return t
    def unbool(self, v, t, ty): return v
    def isflag(self, st, t):
        ls = leaves(st)
        return all(l in (ZERO, ONE) or l is t for l in ls)

    def reaches(self, st, stop):
        while True:
            if st is stop: return True
            if isinstance(st, vf.Upd): st = st.prev
            elif isinstance(st, vf.LoopS):
                if st.full: return False
                st = st.prev
            elif isinstance(st, vf.Alias) and st.shift is None: st = st.st
            else: return False

    def mergeeffs(self, effs):
        out = []
        for e in effs:
            if e.delta is ZERO: continue
            if not e.doms:
                for o in out:
                    if not o.doms and o.off is e.off and o.w == e.w:
                        o.delta = vadd(o.delta, e.delta); break
                else: out.append(vf.Eff(e.off, e.delta, [], e.loc, e.w))
            else: out.append(e)
        return [e for e in out if e.delta is not ZERO]

    def resdom(self, d, res):
        trip = flat(res(d.trip)); u = flat(res(d.until)) if d.until is not None else None
        return dom(d.r, trip, u, d.tag) if trip is not d.trip or u is not d.until else d

    def iterval(self, k, D, r, kk, dirn):
        kind, ini, d = k
        if kind == 'lag': return self.lagval(ini, d, r, D.trip, dirn)
        if kind == 'acc':
            if r not in d.deps: return vadd(ini, vmul(kk, d))
            if isinstance(ini, P): return vadd(ini, fn('prefix', binder('pf', D, flat(d)), r, dirn))
            return vadd(ini, fn('prefix', binder('pf', D, flat(d)), r, dirn))
        e = boolatom(fn('exists', fn('pre', binder('ex', D, flat(d)), r, dirn)))
        return e if kind == 'flag' else vnot(e)

    def lagval(self, ini, d, r, trip, dirn):
        if dirn == 1: return ite(vcmp('gt', r, ZERO), Subst({r: sub(r, ONE)}).V(d), ini)
        return ite(vcmp('lt', r, sub(trip, ONE)), Subst({r: add(r, ONE)}).V(d), ini)
    def recnames(self, pend, D, types, vars_, dirn, U, val):
        """canonical symbols for mutually recursive loop-carried variables: hash refinement on (init, step)"""
        ts = list(pend)
        tmp = {t: leaf('rect', k, dep=False) for k, t in enumerate(ts)}
        s = Subst(tmp)
        mem = namegroup([(tmp[t], flat(pend[t][0]), flat(s.V(pend[t][1]))) for t in ts], D, dirn, flat(s.V(U)) if U is not BF and D.trip is INF else None)
        return {t: (c, ini, binder('step', D, st)) for t, (c, ini, st) in zip(ts, mem)}
    def recval(self, name, trip, r):
        sym, ini, b = name
        return fn('rec', sym, ini, b, r)

    def equivalents(self, pend, regs, kindof, val, start, memE, uid, S0):
        """a scalar that is carried around the loop but always equals a dot product of carried vectors is replaced by it"""
        recs = [t for t in pend if t.op == 'fn' and t.args[0] == 'curst']
        scal = [t for t in pend if not (t.op == 'fn' and t.args[0] == 'curst')]
        if not recs or not scal or len(recs) > 8: return False
        done = False
        for t in scal:
            ini, st = pend[t]
            if not (isinstance(ini, T) and isinstance(st, T)): continue
            doms = self.sumdoms(ini)
            hit = None
            for Dm in doms:
                for i in range(len(recs)):
                    for j in range(i, len(recs)):
                        a, b = recs[i], recs[j]
                        off = scale(Dm.r, 8)
                        ba, bb = a.args[2], b.args[2]
                        if ba not in memE or bb not in memE: continue
                        f0 = vsum(Dm, vmul(self.load(start[ba].before, off, 8), self.load(start[bb].before, off, 8)))
                        if f0 is not ini: continue
                        f1 = S0.V(vsum(Dm, vmul(self.load(memE[ba], off, 8), self.load(memE[bb], off, 8))))
                        f1 = Subst({k: v for k, v in val.items()}).V(f1) if val else f1
                        if f1 is not st: continue
                        hit = vsum(Dm, vmul(fn('at', a, off), fn('at', b, off))); break
                    if hit is not None: break
                if hit is not None: break
            if hit is None: continue
            del pend[t]
            s = Subst({t: hit})
            for x in pend: pend[x] = (pend[x][0], s.V(pend[x][1]))
            for x in list(kindof):
                if kindof[x][2].deps & s.keys: kindof[x] = kindof[x][:2] + (s.V(kindof[x][2]),)
            for x in val: val[x] = s.V(val[x])
            val[t] = hit; kindof[t] = ('eqv', None, hit); self.eqv = True
            done = True
        return done

    def sumdoms(self, t):
        out = []
        def walk(x, n):
            if n > 6: return
            if x.op == 'sum': out.append(x.args[0])
            if x.op in '+*/':
                for a in x.args: walk(a, n + 1)
        for k in t.lin:
            if k is not None: walk(k, 0)
        return out

    def ordered(self, e, off, r, dirn):
        """can effect e of an EARLIER iteration not touch cell `off` of the current one? (declared order facts)"""
        f = self.opts.get('ordered')
        return bool(f and f(self, e, off, r, dirn))

    def locallr(self, e):
        """an effect whose reads of earlier iterations name an object built by this function: named by the place in it"""
        from vfops import rootpath
        def root(x):
            while x.op == 'fn' and x.args[0] in ('vd', 'vb', 'map', 'nle', 'absv', 'mapin', 'setv'): x = x.args[1]
            return x
        if not e.doms or not any(root(b) in self.localbases for b in self.lrbases(None)): return e
        keys = frozenset(d.r for d in e.doms); seen = set(); st = [e.delta, e.off]; roots = set()
        while st:
            x = st.pop()
            if id(x) in seen or not (x.deps & keys): continue
            seen.add(id(x))
            if isinstance(x, N): st.append(x.d); st += x.c; continue
            if x.op == 'fn' and x.args[0] == 'lr' and x.args[1] is not SELF and root(x.args[1]) in self.localbases: roots.add(root(x.args[1]))
            st += [y for y in x.args if isinstance(y, (T, N))]
        if len(roots) != 1: return e
        rb = roots.pop()
        def hook(t, S):
            if t.op == 'fn' and t.args[0] == 'lr' and t.args[1] is not SELF and root(t.args[1]) is rb:
                return fn('lr', leaf('sibling', rootpath(t.args[1], rb)), *[flat(S.T(x)) if isinstance(x, T) else x for x in t.args[2:]])
        S1 = Subst({k: k for k in keys}, hook)
        return vf.Eff(flat(S1.V(e.off)), S1.V(e.delta), e.doms, e.loc, e.w)

    def mkloops(self, b, before, effs, D):
        """LoopS with full-coverage detection"""
        hook = lambda t, S: fn('lr', SELF, *[flat(S.T(x)) if isinstance(x, T) else x for x in t.args[2:]]) if t.op == 'fn' and t.args[0] == 'lr' and t.args[1] is b else None
        if any(b in self.lrbases(e.delta) or b in self.lrbases(e.off) for e in effs):
            S1 = Subst({D.r: D.r}, hook)
            effs = [vf.Eff(flat(S1.V(e.off)), S1.V(e.delta), e.doms, e.loc, e.w) for e in effs]
        full = None
        size = self.regsize(b)
        if size is not None and D.until is None:
            cand = [e for e in effs if e.doms and e.doms[0].r is D.r]
            lat = {}
            for e in cand:
                l = vf.lin_in(e.off, D.r)
                if l and l[0] > 0 and l[1].op == 'c' and mul(D.trip, const(l[0])) is size:
                    if e.doms[1:]: continue
                    lat.setdefault(l[0], []).append((l[1].args[0], e))
            for a, lst in lat.items():
                cov = {}
                for c, e in lst: cov[c] = e.w
                if sum(cov.values()) >= a: full = (a, lst)
        if self.opts.get('dbg'): print('FULL', self.side, bool(full), show(b)[-60:], show(size,5)[:200] if size is not None else None, show(D.trip,5)[:100])
        if full:
            a, lst = full
            ne = []
            for e in effs:
                if any(e is x for _, x in lst):
                    ne.append(vf.Eff(e.off, vadd(e.delta, self.load(before, e.off, e.w)), e.doms, e.loc, e.w))
                else: ne.append(e)
            return vf.LoopS(before, [e for e in ne], ('full',), base=b)
        return vf.LoopS(before, effs, base=b)

    def lrbases(self, v):
        return getattr(self, 'lrused', ())
    def regsize(self, b):
        if b.op == 'fn' and b.args[0] == 'vd' and len(b.args) == 3:
            return flat(self.vecbytes(b.args[1], b.args[2]))
        return None

    # -------- inverted index: sum over (vertex i, k < cnt[i]) -> sum over (triangle t, corner j)
    def convert(self, e):
        # sums over an inverted index inside a value become effects of their own
        if isinstance(e.delta, T):
            rest = ZERO; parts = []
            for k, q in e.delta.lin.items():
                if k is not None and k.op == 'sum' and self.invtrip(k.args[0].trip) is not None and k.args[0].until is None and len(e.delta.lin) <= 40:
                    parts.append(vf.Eff(e.off, scale(k.args[1], q), e.doms + [k.args[0]], e.loc, e.w))
                else: rest = add(rest, scale(k, q) if k is not None else const(q))
            if parts:
                conv = [self.convert1(x) for x in parts]
                if all(c is not None for c in conv):
                    return ([vf.Eff(e.off, rest, e.doms, e.loc, e.w)] if rest is not ZERO else []) + [y for c in conv for y in c]
        c = self.convert1(e)
        return [e] if c is None else c
    def convert1(self, e):
        for m, Dk in enumerate(e.doms):
            if Dk.until is not None: continue
            x = self.instances(Dk.r, Dk.trip)
            if x is None: continue
            f, subs = x
            m2 = [n for n in range(m) if e.doms[n].r is f['i'] and e.doms[n].until is None]
            if not m2: continue
            m2 = m2[0]; out = []
            for s in subs:
                off = flat(s.V(e.off)); delta = s.V(e.delta)
                if delta is ZERO: continue
                ds = [s.dom(d)[0] for n, d in enumerate(e.doms) if n not in (m, m2)]
                ds.insert(m2, f['D'])
                out.append(vf.Eff(off, delta, ds, e.loc, e.w))
            return out
        return None
