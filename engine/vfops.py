"""Instruction semantics for the flow engine."""
from terms import *
import vf, re

WIDTH = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}
ICMP = {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge',
        'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ole': 'le', 'ogt': 'gt', 'oge': 'ge'}

def mapcmp(x, y):
    """the node iterator of an unordered_map is its position; the end iterator is the number of elements"""
    if vf.ismapnode(x) and y is ZERO: return x.off, scale(fn('mapsize', *(x.base.args[3:] or x.base.args[1:])), 32)
    if vf.ismapnode(y) and x is ZERO: return scale(fn('mapsize', *(y.base.args[3:] or y.base.args[1:])), 32), y.off
    return x, y

class OpsMixin:
    def ins(self, i):
        op = i['op']
        if op in ('add', 'fadd'): return vadd(self.opv(i['ops'][0]), self.opv(i['ops'][1]))
        if op in ('sub', 'fsub'): return vsub(self.opv(i['ops'][0]), self.opv(i['ops'][1]))
        if op in ('mul', 'fmul'):
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            return vmul(a, b)
        if op == 'fdiv': return vdiv(self.opv(i['ops'][0]), self.opv(i['ops'][1]))
        if op in ('sdiv', 'udiv'):
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            def f(x, y):
                x, y = asT(x), asT(y)
                if y.op == 'c' and y.args[0]:
                    q = scale(x, 1 / y.args[0])
                    if all(c.denominator == 1 for c in q.lin.values()): return q
                    if x.op == 'c':
                        n = abs(x.args[0]) // abs(y.args[0]); return const(n if (x.args[0] < 0) == (y.args[0] < 0) else -n)
                    if self.isbytes(x): return q
                return fn('idiv', x, y)
            return apply(f, 'idiv', a, b)
        if op in ('srem', 'urem'):
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            def f(x, y):
                x, y = asT(x), asT(y)
                if x.op == 'c' and y.op == 'c' and y.args[0]:
                    n = abs(x.args[0]) % abs(y.args[0]); return const(n if x.args[0] >= 0 else -n)
                if y.op != 'c' and atleast(x, ZERO) and atleast(scale(y, 2), add(x, ONE)):
                    return ite(vcmp('lt', x, y), x, sub(x, y))
                return fn('irem', x, y)
            return apply(f, 'irem', a, b)
        if op == 'fneg': return vneg(self.opv(i['ops'][0]))
        if op in ('and', 'or', 'xor'):
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            if i['ty'] == 'i1' or self.boollike(a) and self.boollike(b):
                a, b = asbool(a), asbool(b)
                return vand(a, b) if op == 'and' else vor(a, b) if op == 'or' else vxor(a, b)
            if op == 'and' and b is const(0xFFFFFFFF): return self.lo32(a)
            if op == 'and' and a is const(0xFFFFFFFF): return self.lo32(b)
            if op == 'xor' and b is const(-1): return vsub(const(-1), a)
            if op == 'or':
                def f(x, y):
                    x, y = asT(x), asT(y)
                    if x is ZERO: return y
                    if y is ZERO: return x
                    hx = all((c / 2**32).denominator == 1 for c in x.lin.values()); hy = all((c / 2**32).denominator == 1 for c in y.lin.values())
                    if hx != hy: return add(x, y)
                    if x.op == 'c' and y.op == 'c': return const(int(x.args[0]) | int(y.args[0]))
                    return fn('or', *sorted((x, y), key=lambda t: t.h))
                return apply(f, 'or', a, b)
            def f(x, y):
                x, y = asT(x), asT(y)
                if x.op == 'c' and y.op == 'c':
                    u, v = int(x.args[0]), int(y.args[0]); return const(u & v if op == 'and' else u ^ v)
                return fn(op, *sorted((x, y), key=lambda t: t.h))
            return apply(f, op, a, b)
        if op == 'shl':
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            return apply(lambda x, y: scale(asT(x), 2 ** int(y.args[0])) if y.op == 'c' else fn('shl', asT(x), asT(y)), 'shl', a, b)
        if op in ('lshr', 'ashr'):
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1])
            if b is const(32) and i['ty'] == 'i64': return self.hi32(a)
            def f(x, y):
                x, y = asT(x), asT(y)
                if y.op == 'c':
                    q = scale(x, Fraction(1, 2 ** int(y.args[0])))
                    if all(c.denominator == 1 for c in q.lin.values()) or self.isbytes(x): return q
                    if x.op == 'c': return const(int(x.args[0]) >> int(y.args[0]))
                return fn('shr', x, y)
            return apply(f, 'shr', a, b)
        if op in ('zext', 'sext', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'uitofp', 'sitofp', 'addrspacecast'):
            v = self.opv(i['ops'][0])
            if op == 'ptrtoint': return v
            if op == 'sext' and v in (BT,) : return v
            return v
        if op == 'trunc':
            v = self.opv(i['ops'][0])
            if i['ty'] == 'i1': return asbool(v)
            if i['ty'] == 'i32' and self.pairlike(i['ops'][0]): return self.lo32(v)
            def f(x):
                x = asT(x)
                if x.op != 'c' and any((c / 2**32).denominator == 1 for k, c in x.lin.items() if k is not None): return vf.split32(x)[1]
                return x
            return apply(f, 'trunc', v)
        if op in ('fptosi', 'fptoui'):
            v = self.opv(i['ops'][0])
            return apply(lambda x: const(int(x.args[0])) if x.op == 'c' else x if self.intlike(x) else fn('trunc', asT(x)), 'fptosi', v)
        if op == 'icmp':
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1]); pred = ICMP[i['pred']]
            if self.boollike(a) and self.boollike(b) and pred in ('eq', 'ne') and i['ty'] == 'i1' and (a in (BT, BF) or b in (BT, BF)):
                x = vxor(asbool(a), asbool(b)); return x if pred == 'ne' else vnot(x)
            return apply(lambda x, y: cmpT(pred, *mapcmp(x, y)), 'cmp' + pred, a, b)
        if op == 'fcmp':
            a, b = self.opv(i['ops'][0]), self.opv(i['ops'][1]); pred = i['pred']
            if pred in ('uno', 'ord'):
                x = apply(lambda u: boolatom(fn('isnan', asT(u))) if u.op != 'c' else BF, 'isnan', a)
                if b is not a: x = vor(x, apply(lambda u: boolatom(fn('isnan', asT(u))) if u.op != 'c' else BF, 'isnan', b))
                return x if pred == 'uno' else vnot(x)
            if pred in ('true', 'false'): return BT if pred == 'true' else BF
            if pred[0] == 'u' and pred[1:] in ('lt', 'le', 'gt', 'ge'): return vcmp(pred[1:], a, b)
            return vcmp(ICMP[pred], a, b)
        if op == 'select':
            return ite(asbool(self.opv(i['ops'][0])), self.opv(i['ops'][1]), self.opv(i['ops'][2]))
        if op == 'getelementptr': return self.gep(i['gep'])
        if op == 'alloca':
            self.uid += 1
            key = (self.F.name, self.frame, i['id'])
            b = leaf('alloca', *key); self.localbases.add(b)
            return ptr(b, ZERO)
        if op == 'load': return self.do_load(self.opv(i['ops'][0]), WIDTH.get(i['ty'], i.get('size', 8)), i['ty'], i.get('tbaa'), i)
        if op == 'store':
            addr = self.opv(i['ops'][1]); v = self.opv(i['ops'][0])
            tb = i.get('tbaa')
            if tb and 'Vector_impl_data' in tb[0]:
                self.store_vecfield(addr, v, tb[1], i); return None
            self.store(addr, v, i.get('size', 8), i.get('loc') or [])
            return None
        if op == 'extractvalue':
            v = self.opv(i['ops'][0])
            for k in i['idx']: v = v[k] if isinstance(v, tuple) and k < len(v) else (UNDEF if v is UNDEF else vfn('extract', flat(v), k))
            return v
        if op == 'insertvalue':
            v = self.opv(i['ops'][0]); x = self.opv(i['ops'][1])
            def ins(v, idx):
                n = list(v) if isinstance(v, tuple) else [UNDEF] * 8
                while len(n) <= idx[0]: n.append(UNDEF)
                n[idx[0]] = x if len(idx) == 1 else ins(n[idx[0]], idx[1:])
                return tuple(n)
            if not isinstance(v, tuple):
                m = re.match(r'\{(.*)\}', i['ty']); v = (UNDEF,) * (m.group(1).count(',') + 1 if m else 2)
            return ins(v, i['idx'])
        if op == 'call' or op == 'invoke': return self.call(i)
        if op == 'fence': return None
        self.unknown.append((op, i.get('loc')))
        return leaf('unknown', self.F.name, i['id'], unk=True)

    def store_vecfield(self, addr, v, fo, i):
        for (c, a) in self.targets(addr):
            o = sub(a.off, const(fo)); g = vand(self.guard, c)
            if fo == 0:
                if v is ZERO: self.setvec(a.base, o, ZERO, i.get('loc'), g)
                elif isinstance(v, P):      # moved-from data pointer: alias contents
                    d = self.vecptr(a.base, o)
                    if d.base is not v.base or d.off is not v.off:
                        self.setregion(d.base, vf.Alias(self.state(v.base), v.off if v.off is not ZERO else None), g)
                        self.pendvec = (a.base, o, v)
            elif fo == 8:
                pv = getattr(self, 'pendvec', None)
                if v is ZERO: self.setvec(a.base, o, ZERO, i.get('loc'), g)
                elif pv and pv[0] is a.base and pv[1] is o: self.setvec(a.base, o, vsub(v, pv[2]), i.get('loc'), g)
                elif isinstance(v, P):
                    d = self.vecptr(a.base, o)
                    if d.base is v.base: self.setvec(a.base, o, sub(v.off, d.off), i.get('loc'), g)
                    else: self.setvec(a.base, o, fn('bytes', asT(v)), i.get('loc'), g)

    def boollike(self, v):
        if isinstance(v, N):
            return all(self.boollike(c) for c in v.c)
        return v is ZERO or v is ONE or v is UNDEF or isinstance(v, T) and v.op == 'fn' and v.args[0] in ('bool',)
    def isbytes(self, x):
        def atom(k): return k is None or k.op == 'fn' and k.args[0] == 'ld' and isinstance(k.args[1], T) and k.args[1].op == 'fn' and k.args[1].args[0] == 'vb' or k.op == 'fn' and k.args[0] in ('at', 'bytes', 'cur', 'rec', 'lr', 'ldv') or k.op in ('flat', 'sum')
        return all(atom(k) for k in x.lin)
    def intlike(self, x): return x in BVINFO or all((k is None or k in BVINFO) and c.denominator == 1 for k, c in x.lin.items())
    def pairlike(self, o):
        """is this 64-bit value taken apart into two 32-bit halves somewhere (so that truncation means 'low half')?"""
        if o[0] != 'v': return False
        c = self.F.__dict__.setdefault('pairs', None)
        if c is None:
            c = set()
            for b in self.F.d['blocks']:
                for i in b['ins']:
                    if i['op'] == 'lshr' and i['ops'][1][0] == 'i' and i['ops'][1][1] == '32' and i['ops'][0][0] == 'v': c.add(i['ops'][0][1])
            self.F.pairs = c
        return o[1] in c

    # ------------------------------------------------------------------ calls
    def throw(self, what, i):
        if self.guard is BF: return
        self.throws.append((self.guard, what, i.get('loc') or []))
        self.guard = BF

    def call(self, i):
        self.stats['calls'] += 1
        name = i.get('callee')
        args = [self.opv(o) for o in i['ops']]
        if name is None:
            if self.opts.get('alloc') and i['ty'] == 'ptr':      # the allocation slot of a type object
                import pymodels
                return pymodels.newobject(self, i)
            self.unknown.append(('indirect call', i.get('loc')))
            return leaf('icall', self.F.name, i['id'], unk=True)
        if name.startswith('llvm.'): return self.intrinsic(name, args, i)
        dem = self.mod['dem'].get(name, name)
        h = self.mcache.get(name)
        if h is None:
            for pat, f in self.models:
                if pat.search(dem): h = f; break
            else: h = type(self).default_call
            self.mcache[name] = h
        if self.guard is BF: return UNDEF
        return h(self, dem, args, i)

    def intrinsic(self, n, a, i):
        b = n.split('.')[1]
        if n.startswith('llvm.lifetime.end'): self.kill(a[-1]); return UNDEF
        if b in ('lifetime', 'dbg', 'assume', 'invariant', 'donothing', 'stacksave', 'stackrestore', 'experimental', 'va_start', 'va_end'): return UNDEF
        if b in ('memcpy', 'memmove'):
            self.memcpy(a[0], a[1], a[2], i); return UNDEF
        if b == 'memset':
            self.memset(a[0], a[1], a[2], i); return UNDEF
        if b == 'fabs': return vabs(a[0])
        if b == 'abs': return vabs(a[0])
        if b == 'sqrt': return vfn('sqrt', a[0])
        if b == 'fmuladd' or b == 'fma': return vadd(vmul(a[0], a[1]), a[2])
        if b in ('maxnum', 'umax', 'smax', 'maximum'): return ite(vcmp('lt', a[0], a[1]), a[1], a[0])
        if b in ('minnum', 'umin', 'smin', 'minimum'): return ite(vcmp('lt', a[1], a[0]), a[1], a[0])
        if b in ('expect',): return a[0]
        if b == 'is':
            if n.startswith('llvm.is.constant'): return BF
            m = a[1].args[0]
            return apply(lambda u: boolatom(fn('isnan' if m == 3 else 'fpclass%d' % m, asT(u))) if asT(u).op != 'c' else BF, 'fpclass%d' % m, a[0])
        if b == 'pow': return powmodel(a[0], a[1])
        if b == 'powi': return powmodel(a[0], a[1])
        if b in ('sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'round', 'rint', 'copysign'): return vfn(b, *a)
        if b == 'umul' or b == 'uadd':
            return ((vmul if b == 'umul' else vadd)(a[0], a[1]), BF)
        if b == 'trap': self.throw('trap', i); return UNDEF
        self.unknown.append((n, i.get('loc')))
        return leaf('intrin', n, self.uid, unk=True)

    def memcpy(self, dst, src, n, i, g=None):
        g = self.guard if g is None else g
        if g is BF or dst is UNDEF or src is UNDEF: return
        for (c1, d) in self.targets(dst):
            for (c2, s) in self.targets(src):
                gg = vand(g, vand(c1, c2))
                if gg is BF: continue
                nn = flat(n)
                k = self.nodefield(s)
                if k is not None and k[1] == 8 and nn.op == 'c' and nn.args[0] >= 8:
                    self.mem[d.base] = vf.Upd(self.state(d.base), d.off, self.nodekey(*k), gg, i.get('loc') or [], 8)
                    if nn.args[0] > 8: self.memcpy(ptr(d.base, add(d.off, const(8))), self.nodeaddr(ptr(s.base, add(s.off, const(8)))), const(nn.args[0] - 8), i, gg)
                    continue
                if nn.op == 'c':
                    size = int(nn.args[0]); k = 0
                    if size > 512:
                        self.copyrange(d, s, nn, gg, i); continue
                    st = self.state(s.base)
                    w = self.copywidths(st, s.off, size)
                    for o, x in w:
                        v = self.load(st, add(s.off, const(o)), x)
                        if v is UNDEF: continue
                        self.mem[d.base] = vf.Upd(self.state(d.base), add(d.off, const(o)), v, gg, i.get('loc') or [], x)
                    # nested vectors / maps inside the copied bytes
                else: self.copyrange(d, s, nn, gg, i)
    def copywidths(self, st, off, size):
        """pick the cell granularity known for the source (default 4-byte cells when not a multiple of 8)"""
        ws = {}
        x = st
        while isinstance(x, vf.Upd):
            d = sub(x.off, off)
            if d.op == 'c' and 0 <= d.args[0] < size: ws.setdefault(int(d.args[0]), x.w)
            x = x.prev
        out = []; k = 0
        dflt = 8 if size % 8 == 0 else 4
        while k < size:
            w = ws.get(k)
            if w is None:
                w = min(dflt, size - k)
                if any(k < q < k + w for q in ws): w = min(q for q in ws if q > k) - k
            out.append((k, w)); k += w
        return out
    def copyrange(self, d, s, n, g, i):
        """symbolic-length copy of 8-byte cells"""
        trip = scale(n, Fraction(1, 8))
        r = bv(trip, sum(1 for t in self.trips if t is trip)); D = dom(r, trip)
        so = add(s.off, scale(r, 8)); do = add(d.off, scale(r, 8))
        v = self.load(self.state(s.base), so, 8)
        before = self.state(d.base)
        size = self.regsize(d.base)
        if isinstance(v, P): v = asT(v)
        if v is self.load(before, do, 8): return
        if d.off is ZERO and size is not None and size is n and g is BT:
            self.mem[d.base] = vf.LoopS(before, [vf.Eff(do, v, [D], i.get('loc') or [], 8)], ('full',))
        else:
            delta = ite(g, vsub(v, self.load(before, do, 8)), ZERO)
            self.mem[d.base] = vf.LoopS(before, [vf.Eff(do, delta, [D], i.get('loc') or [], 8)])
    def memset(self, dst, val, n, i):
        for (c, d) in self.targets(dst):
            gg = vand(self.guard, c)
            nn = flat(n)
            if nn.op == 'c' and nn.args[0] <= 512:
                size = int(nn.args[0]); k = 0; w = 8 if size % 8 == 0 else 4 if size % 4 == 0 else 1
                while k < size:
                    v = val if w == 1 else ZERO if val is ZERO else vfn('bytes', val)
                    self.mem[d.base] = vf.Upd(self.state(d.base), add(d.off, const(k)), v, gg, i.get('loc') or [], w); k += w
            elif d.base in self.localbases and d.off is ZERO and val is ZERO:
                self.mem[d.base] = vf.LoopS(vf.Init(leaf('zero')), [], ('z',))
            else: self.unknown.append(('memset', i.get('loc')))

    def snapshot(self, v, root=None):
        """value number of an argument including everything modified that hangs off it"""
        v0 = v
        if isinstance(v, N): return flat(apply(lambda x: self.snapshot(x), ('snap', self.uid_()), v))
        if isinstance(v, tuple): return fn('tuple', *[self.snapshot(x) for x in v])
        if not isinstance(v, P): return v
        parts = []
        local = self.islocal(v.base)
        for b in self.mem:
            path = rootpath(b, v.base)
            if path is not None: parts.append((path, flat(self.here(self.regV(self.mem[b])))))
        parts.sort(key=lambda x: x[0])
        base = leaf('localobj') if local else v.base
        return fn('obj', base, v.off, *[y for x in parts for y in x])
    def snaps(self, dem, args, skip=()):
        """value numbers of the arguments; an object of a type treated as one abstract value is that value"""
        types = self.opts.get('objelem') or {}
        ps = [re.sub(r'\bconst\b|&+$', '', p).strip().rstrip('&').strip() for p in split_params(dem)]
        meth = len(args) - len(ps); out = []
        m = re.match(r'(?:[^(]* )?((?:\w+::)*\w+)::~?[^:(]*(?:\(|<)', dem)
        cls = m.group(1) if m else None
        for j, a in enumerate(args):
            if j in skip: continue
            t = ps[j - meth] if j >= meth else cls if j == meth - 1 else None
            if t in types and isinstance(a, (P, N)): out.append(flat(self.here(self.objtok(a))))
            else: out.append(self.snapshot(a))
        return out
    def objtok(self, a): return self.do_load(apply(lambda t: ptr(fn('absv', t.base), t.off) if isinstance(t, P) else UNDEF, 'obj', a), 8, 'x', None, {})
    def here(self, v):
        """v simplified with the conditions under which the current instruction runs"""
        for g in self.outerg + [self.guard]:
            if isinstance(g, N) and isinstance(v, N):
                v = restrict(v, g)
        return v if v is not None else ZERO
    def uid_(self): self.uid += 1; return self.uid

    def default_call(self, dem, args, i):
        r = self.default_call1(dem, args, i)
        params = split_params(dem)
        for p, a in zip(reversed(params), reversed(args)):      # objects passed by value live in a temporary of the caller
            if p.strip().startswith('nikfemm::') and not p.strip().endswith(('&', '*')): self.kill(a)
        return r
    def default_call1(self, dem, args, i):
        # calls that replace the elements of one vector argument (same length) as a function of the other arguments
        for rx, k in self.opts.get('fills', ()):
            if re.search(rx, dem):
                nm = callname(dem)
                snaps = self.snaps(dem, args, (k,))
                for (c, t) in self.targets(args[k]):
                    d = self.vecptr(t.base, t.off)
                    if d.off is not ZERO: raise vf.Unsupported('filled vector inside a vector')
                    self.setregion(d.base, vf.Whole(fn('out', nm, k, *snaps)), vand(self.guard, c))
                return UNDEF
        # calls whose effects on their object are a multiset of requests: nothing else the property reads depends on them
        for rx in self.opts.get('acc', ()):
            if re.search(rx, dem):
                nm = callname(dem); snaps = self.snaps(dem, args, (0,))
                for (c, t) in self.targets(args[0]):
                    b = fn('acc', t.base); st = self.state(b)
                    self.mem[b] = vf.Upd(st, t.off, vadd(self.load(st, t.off, 8), fn('call', nm, *snaps)), vand(self.guard, c), i.get('loc'), 8)
                return UNDEF
        # calls that build a whole object as a function of the other arguments; None: end of an object's life
        for rx, k, *vec in self.opts.get('makes', ()):
            if re.search(rx, dem):
                if k is None: return UNDEF
                nm = callname(dem)
                cp = vec and vec[0] == 'obj' and re.search(r'(\w+)::(?:\1|operator=)\([\w:]*\1 ?(?:const&|&&)\)$', dem)
                if cp and len(args) == 3: outs = (0, 1)         # an assignment that returns its object by value
                else: outs = (k,)
                snaps = self.snaps(dem, args, outs) if not cp else [self.here(self.objtok([a for j, a in enumerate(args) if j not in outs][0]))]
                for (c, t) in [x for o in outs for x in self.targets(args[o])]:
                    if vec and vec[0] == 'obj':     # the object is one abstract value
                        b = fn('absv', t.base)
                        if t.base in self.localbases: self.localbases.add(b)
                        self.mem[b] = vf.Upd(self.state(b), t.off, snaps[0] if cp else fn('made', nm, *snaps), vand(self.guard, c), i.get('loc'), 8)
                        continue
                    if vec:      # the object is a std::vector of plain elements
                        d = self.vecptr(t.base, t.off)
                        if t.off.op != 'c': raise vf.Unsupported('built vector inside a vector')
                        self.mem[fn('vb', t.base)] = vf.Upd(self.state(fn('vb', t.base)), t.off, fn('outsize', nm, k, *snaps), vand(self.guard, c), i.get('loc'), 8)
                        self.setregion(d.base, vf.Whole(fn('out', nm, k, *snaps)), vand(self.guard, c))
                        continue
                    for b in [b for b in list(self.mem) if rootpath(b, t.base) is not None and b is not t.base] + [t.base]:
                        self.setregion(b, vf.Whole(fn('out', nm, rootpath(b, t.base), *snaps)), vand(self.guard, c))
                return UNDEF
        # look-ups in an object that nothing here changes in a way they could see: functions of the other arguments
        for rx in self.opts.get('lookup', ()):
            if re.search(rx, dem):
                me = args[0]
                r = fn('call', callname(dem), *([me.base, me.off] if isinstance(me, P) else [asT(me)]), *self.snaps(dem, args, (0,)))
                return ptr(r, ZERO) if i['ty'] == 'ptr' else r
        self.vocab.add(family(dem))
        pure = any(re.search(p, dem) for p in self.opts.get('pure', ()))
        snaps = self.snaps(dem, args)
        nm = callname(dem)
        params = split_params(dem)
        meth = len(args) - len(params)     # sret and/or this come first
        if not pure:
            for k, a in enumerate(args):
                if not isinstance(a, (P, N)): continue
                if k >= meth:
                    pt = params[k - meth].strip()
                    if not (pt.endswith('&') or pt.endswith('*')): 
                        if k >= meth: continue
                    if re.search(r'\bconst\s*[&*]$', pt) or pt.startswith('const '): continue
                elif dem.rstrip().endswith(') const') and k == meth - 1 and meth >= 1: continue
                for (c, t) in self.targets(a):
                    gg = vand(self.guard, c)
                    for b in [b for b in list(self.mem) if rootpath(b, t.base) is not None] + [t.base]:
                        self.setregion(b, vf.Whole(fn('out', nm, k, rootpath(b, t.base), *snaps)), gg)
        ty = i['ty']
        if ty == 'void':
            if pure: self.unknown.append((dem[:60] + ' treated as pure but returns nothing', i.get('loc')))
            return UNDEF
        r = fn('call', nm, *snaps)
        if not pure: self.notes.append('opaque call ' + nm)
        if ty == 'i1': return boolatom(r)
        if ty == 'ptr': return ptr(r, ZERO)
        if ty.startswith('{'): return tuple(fn('extract', r, k) for k in range(ty.count(',') + 1))
        return r

def rootpath(b, root):
    """canonical path string when object b hangs off object root"""
    if b is root: return ''
    if b.op == 'fn' and b.args[0] in ('vd', 'vb', 'map', 'nle', 'absv', 'acc', 'mapin', 'setv', 'cap'):
        x = rootpath(b.args[1], root)
        if x is not None: return x + '/' + b.args[0] + ''.join(str(a.h if isinstance(a, T) else a) for a in b.args[2:])
    return None

def family(dem):
    """name of an uninterpreted callee without template arguments and signature; look-ups of one kind count as one"""
    x = dem; p = None
    while p != x: p = x; x = re.sub(r'<[^<>]*>', '', x)
    x = x.split('(')[0].split()[-1] if x.split('(')[0].split() else x
    x = x.split('[')[0]
    return re.sub(r'::(lower_bound|upper_bound|equal_range|find)$', '::search', x)
def callname(dem):
    r = LOCALTY.sub(r'\1', dem)
    return re.sub(r'\) const$', ')', r) if r.startswith('std::') else r
LOCALTY = re.compile(r'[\w:]+\([^()]*\)(?: const)?::(\w+)')   # types local to a function, whichever function
def split_params(dem):
    """parameter list of a demangled signature"""
    s = dem.rstrip()
    s = re.sub(r'\) const$', ')', s)
    s = re.sub(r'\)\s*(const)?\s*(\[abi:\w+\])?$', ')', s)
    if not s.endswith(')'): return []
    d = 0
    for k in range(len(s) - 1, -1, -1):
        if s[k] == ')': d += 1
        elif s[k] == '(':
            d -= 1
            if d == 0: break
    body = s[k + 1:-1]
    out = []; d = 0; cur = ''
    for ch in body:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip() and cur.strip() != 'void': out.append(cur)
    return out

def atleast(x, y):
    d = sub(x, y)
    if d.op == 'c': return d.args[0] >= 0
    c, s = canon(d)
    return -s not in signs(c) or not feasible(frozenset([(c, -s)]))
def vabs(v):
    def f(x):
        x = asT(x)
        if x.op == 'c': return const(abs(x.args[0]))
        if x in NONNEG: return x
        c, s = canon(x)
        q = content(x)
        a = scale(x, 1)
        pos = mkN(c, neg(c), ZERO, c)
        k = None
        # |x| = |k| * |c| with x = k*c
        for cand in (x,):
            z = content(x); k = abs(z)
        return apply(lambda t: scale(t, k) if True else t, ('scale', k), pos)
    return apply(f, 'abs', v)

def powmodel(a, b):
    def f(x, y):
        x, y = asT(x), asT(y)
        if y.op == 'c':
            q = y.args[0]
            if q.denominator == 1 and 0 <= q <= 8:
                r = ONE
                for _ in range(int(q)): r = mul(r, x)
                return r
            if q.denominator == 1 and -8 <= q < 0:
                r = ONE
                for _ in range(int(-q)): r = mul(r, x)
                return div(ONE, r)
            if q == Fraction(1, 2): return sqrt(x)
        return fn('pow', x, y)
    return apply(f, 'pow', a, b)
