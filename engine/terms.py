"""Value numbers for the flow analysis.

A value number (class T) is a node of a hash-consed expression DAG together with a fingerprint: the value of the
expression at one fixed pseudo-random point of the field F_{p^2} (p = 2^61-1, i^2 = -1).  Two expressions that are equal as
rational functions of the program's leaf values have the same fingerprint, so algebraic rewriting (reassociation, factoring,
hoisting, sign moves) does not change a value number; two different ones collide with probability below 2^-50.  This is the
"random interpretation" form of global value numbering (Gulwani & Necula).  Nothing is executed and no path is enumerated:
conditionals are kept as decision diagrams (class N) over comparison atoms and merged at every join.
"""
import hashlib, math, struct
from fractions import Fraction

p = (1 << 61) - 1

def rnd(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=15).digest(), 'big') % p

def fmul(a, b):
    if a[1] == 0 and b[1] == 0: return (a[0] * b[0] % p, 0)
    return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
def fadd(a, b): return ((a[0] + b[0]) % p, (a[1] + b[1]) % p)
def fneg(a): return (-a[0] % p, -a[1] % p)
def finv(a):
    n = pow(a[0] * a[0] + a[1] * a[1], p - 2, p)
    return (a[0] * n % p, -a[1] * n % p)
def fq(q):
    return (q.numerator % p * pow(q.denominator % p, p - 2, p) % p, 0)
def fsqrt(a):
    """canonical square root in F_{p^2} or None"""
    if a == (0, 0): return a
    if a[1] == 0:
        s = pow(a[0], (p + 1) // 4, p)
        if s * s % p == a[0]: return (min(s, p - s), 0)
        s = pow(-a[0] % p, (p + 1) // 4, p)
        return (0, min(s, p - s))
    n = (a[0] * a[0] + a[1] * a[1]) % p
    s = pow(n, (p + 1) // 4, p)
    if s * s % p != n: return None
    inv2 = (p + 1) // 2
    for sg in (s, -s % p):
        x2 = (a[0] + sg) * inv2 % p
        x = pow(x2, (p + 1) // 4, p)
        if x * x % p == x2 and x:
            y = a[1] * inv2 % p * pow(x, p - 2, p) % p
            r = (x, y); m = fneg(r)
            return min(r, m)
    return None

EMPTY = frozenset()
TAB = {}

class T:
    __slots__ = ('op', 'args', 'h', 'lin', 'deps', 'unk', 'sz', '__weakref__')
    def __repr__(self): return show(self)

def _mk(op, args, h, lin=None, deps=EMPTY, unk=False):
    t = TAB.get(h)
    if t is not None: return t
    t = T(); t.op = op; t.args = args; t.h = h; t.deps = deps; t.unk = unk; t.sz = 1
    t.lin = lin if lin is not None else {t: Fraction(1)}
    TAB[h] = t
    return t

def const(q):
    if not isinstance(q, Fraction): q = Fraction(q)
    h = fq(q)
    t = TAB.get(h)
    if t is not None and t.op == 'c': return t
    t = T(); t.op = 'c'; t.args = (q,); t.h = h; t.deps = EMPTY; t.unk = False; t.sz = 1; t.lin = {None: q} if q else {}
    TAB[h] = t
    return t

def leaf(*key, unk=False, dep=False):
    h = (rnd('leaf', *key), 0)
    t = TAB.get(h)
    if t is None:
        t = _mk('leaf', key, h, None, EMPTY, unk)
        if dep: t.deps = frozenset([t])
    return t

ZERO = const(0); ONE = const(1)
UNDEF = leaf('undef')
NONNEG = set()          # atoms known to be >= 0

PI = leaf('pi'); NONNEG.add(PI)

_fcache = {}
def fconst(d):
    """floating-point literal: a simple rational, a rational multiple of pi^(+-1), or an opaque number"""
    r = _fcache.get(d)
    if r is not None: return r
    r = _fconst(d); _fcache[d] = r
    return r
def _fconst(d):
    if d != d: return leaf('nan')
    if d in (float('inf'), float('-inf')): return scale(leaf('inf'), 1 if d > 0 else -1)
    if d == int(d) and abs(d) < 2**53: return const(int(d))
    for k, base in ((0, 1.0), (1, math.pi), (-1, 1 / math.pi)):
        q = Fraction(d / base).limit_denominator(100000)
        if q and abs(float(q) * base - d) <= 4e-16 * abs(d) * (1 if k == 0 else 2) and q.denominator < 20000 and (q.denominator == 1 or q.numerator.bit_length() + q.denominator.bit_length() <= 40):
            c = const(q)
            return c if k == 0 else mul(c, PI) if k == 1 else div(c, PI)
    for k, base in ((1, math.pi), (-1, 1 / math.pi)):
        q = Fraction('%.6g' % (d / base))
        if abs(float(q) * base - d) <= 5e-16 * abs(d): return mul(const(q), PI) if k == 1 else div(const(q), PI)
    q = Fraction(repr(d))
    if len(repr(d)) <= 12 or q.denominator < 10**16: return const(q)
    return const(Fraction(d))

def lin_of(t): return t.lin

def add(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is ZERO: return b
    if b is ZERO: return a
    if a.op == 'c' and b.op == 'c': return const(a.args[0] + b.args[0])
    h = fadd(a.h, b.h)
    t = TAB.get(h)
    if t is not None: return t
    lin = dict(a.lin)
    for k, v in b.lin.items():
        s = lin.get(k, 0) + v
        if s: lin[k] = s
        else: lin.pop(k, None)
    if not lin: return ZERO
    if len(lin) > 40: lin = None
    elif set(lin) == {None}: return const(lin[None])
    if lin is None: return _mk('+', (a, b), h, None, a.deps | b.deps, a.unk or b.unk)
    deps = EMPTY; unk = False
    for k in lin:
        if k is not None:
            if k.deps: deps = deps | k.deps
            unk = unk or k.unk
    return _mk('+', (a, b), h, lin, deps, unk)

def scale(a, q):
    q = Fraction(q)
    if a is UNDEF: return a
    if q == 1: return a
    if q == 0: return ZERO
    if a.op == 'c': return const(a.args[0] * q)
    h = fmul(a.h, fq(q))
    t = TAB.get(h)
    if t is not None: return t
    return _mk('*', (const(q), a), h, {k: v * q for k, v in a.lin.items()}, a.deps, a.unk)

def neg(a): return scale(a, -1)
def sub(a, b):
    if a is b: return ZERO
    return add(a, scale(b, -1))

def content(t):
    """rational factor: signed for single-term forms, positive gcd otherwise"""
    l = t.lin
    if len(l) == 1:
        return next(iter(l.values()))
    n = 0; d = 1
    for v in l.values():
        n = math.gcd(n, v.numerator); d = d * v.denominator // math.gcd(d, v.denominator)
    return Fraction(n, d)

def mul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if a is ZERO or b is ZERO: return ZERO
    if a.op == 'c': return scale(b, a.args[0])
    if b.op == 'c': return scale(a, b.args[0])
    ca, cb = content(a), content(b)
    if ca != 1: a = scale(a, 1 / ca)
    if cb != 1: b = scale(b, 1 / cb)
    h = fmul(a.h, b.h)
    t = TAB.get(h)
    if t is None: t = _mk('*', (a, b), h, None, a.deps | b.deps, a.unk or b.unk)
    return scale(t, ca * cb)

def div(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if b is ZERO: return leaf('div0', a.h)
    if a is ZERO: return ZERO
    if b.op == 'c': return scale(a, 1 / b.args[0])
    if a is b: return ONE
    ca, cb = content(a), content(b)
    if ca != 1: a = scale(a, 1 / ca)
    if cb != 1: b = scale(b, 1 / cb)
    h = fmul(a.h, finv(b.h))
    t = TAB.get(h)
    if t is None: t = _mk('/', (a, b), h, None, a.deps | b.deps, a.unk or b.unk)
    return scale(t, ca / cb)

def fn(name, *args, unk=False):
    """uninterpreted function of T arguments (plain python values allowed as parameters)"""
    if name == 'sqrt': return sqrt(args[0])
    h = (rnd('fn', name, tuple(a.h if isinstance(a, T) else a for a in args)), 0)
    t = TAB.get(h)
    if t is not None: return t
    if name == 'first': return first(args, h)
    deps = EMPTY
    for a in args:
        if isinstance(a, T):
            if a.deps: deps = deps | a.deps
            if a.unk: unk = True
    return _mk('fn', (name,) + args, h, None, deps, unk)

UPPER = {}      # atom -> a value it stays below
def first(args, h):
    t = _mk('fn', ('first',) + args, h, None, args[0].deps, args[0].unk)
    if args[0].op == 'binder': NONNEG.add(t); UPPER[t] = args[0].args[1].trip
    return t
def sqrt(a):
    if a is UNDEF: return a
    if a.op == 'c' and a.args[0] >= 0:
        n, d = a.args[0].numerator, a.args[0].denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return const(Fraction(math.isqrt(n), math.isqrt(d)))
    c = content(a); out = ONE
    if c > 0:
        n, d = c.numerator, c.denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            a = scale(a, 1 / c); out = const(Fraction(math.isqrt(n), math.isqrt(d)))
    s = fsqrt(a.h)
    if s is None: t = fn('sqrt?', a)
    else:
        # keep the root distinct from polynomial values: x*x has root |x|, named by its own fingerprint
        t = TAB.get(s) or TAB.get(fneg(s))
        if t is None or not (t.op == 'fn' and t.args[0] == 'sqrt'):
            key = ('sqrt',) + s
            t = SQ.get(key)
            if t is None:
                other = TAB.get(s)
                if other is not None:      # sqrt of a perfect square expression
                    t = other if other in NONNEG else fn('abs', min(other, scale(other, -1), key=lambda z: z.h))
                elif TAB.get(fneg(s)) is not None:
                    other = TAB.get(fneg(s)); t = fn('abs', min(other, scale(other, -1), key=lambda z: z.h))
                else:
                    t = _mk('fn', ('sqrt', a), s, None, a.deps, a.unk)
                SQ[key] = t
        NONNEG.add(t)
    return mul(out, t)
SQ = {}

# ---------------------------------------------------------------- bound variables and facts
class BV: pass
BVINFO = {}             # T bv -> (trip T)
def bv(trip, mult):
    h = (rnd('bv', trip.h, mult), 0)
    t = TAB.get(h)
    if t is None:
        t = _mk('leaf', ('bv', trip, mult), h)
        t.deps = frozenset([t]) | trip.deps
        BVINFO[t] = trip
        NONNEG.add(t)
    return t

FACTS = {}              # canonical T -> set of possible signs
def bound(d, hi, depth=0):
    """some provable upper (hi) / lower bound of a linear form, as a Fraction or None"""
    if depth > 8: return None
    bs = [k for k in d.lin if k is not None and k in BVINFO]
    if bs:
        k = next((k for k in bs if not any(j is not k and k in BVINFO[j].deps for j in bs)), bs[0])      # inner counters, whose range depends on others, first
        c = d.lin[k]
        if (c > 0) == hi: return bound(add(d, scale(sub(sub(BVINFO[k], ONE), k), c)), hi, depth + 1)     # maximum trip-1
        return bound(sub(d, scale(k, c)), hi, depth + 1)
    for k in d.lin:
        if k in UPPER and (d.lin[k] > 0) == hi:
            return bound(add(d, scale(sub(sub(UPPER[k], ONE), k), d.lin[k])), hi, depth + 1)
    tot = Fraction(0)
    for k, c in d.lin.items():
        if k is None: tot += c
        elif k in NONNEG:
            if (c > 0) == hi: return None
        else: return None
    return tot

SCACHE = {}
def signs(d):
    """possible signs of a canonical difference"""
    s = SCACHE.get(d)
    if s is not None: return s
    s = {-1, 0, 1}
    f = FACTS.get(d)
    if f is not None: s = s & f
    u = bound(d, True); l = bound(d, False)
    if u is not None:
        if u < 0: s &= {-1}
        elif u == 0: s &= {-1, 0}
    if l is not None:
        if l > 0: s &= {1}
        elif l == 0: s &= {0, 1}
    for h in HOOKS: s = h(d, s)
    if not s: s = {-1, 0, 1}
    SCACHE[d] = s
    return s
HOOKS = []
def reset_facts():
    FACTS.clear(); SCACHE.clear(); APPLY.clear(); FLATC.clear(); BUCKETS.clear(); FEAS.clear(); ATOMS.clear(); ITE.clear(); LARGE.clear()

def canon(d):
    """(canonical d, sign flip) up to a nonzero rational factor"""
    c = content(d)
    if c < 0: d = scale(d, 1 / c); s = -1
    else:
        s = 1
        if c != 1: d = scale(d, 1 / c)
    if is_bool(d): return d, s
    m = fneg(d.h)
    if m < d.h: return scale(d, -1), -s
    return d, s

# ---------------------------------------------------------------- decision diagrams
class N:
    __slots__ = ('d', 'c', 'deps', 'unk', 'flatc')
    def __repr__(self): return show(self)
NT = {}
class P:
    """pointer: base object (T) and byte offset (T)"""
    __slots__ = ('base', 'off', 'deps', 'unk')
    def __repr__(self): return '&%s[%s]' % (show(self.base), show(self.off))
PT = {}
def ptr(base, off):
    k = (base, off)
    r = PT.get(k)
    if r is None:
        r = P(); r.base = base; r.off = off; r.deps = base.deps | off.deps; r.unk = base.unk or off.unk; PT[k] = r
    return r
def asT(v):
    if isinstance(v, P): return add(v.base, v.off)
    return v

def multiple(a, b, d):
    x, y = a.lin, b.lin; q = None
    for k, c in d.lin.items():
        v = x.get(k, 0) - y.get(k, 0)
        if not v or q is not None and v != q * c: return False
        q = v / c
    for k, c in x.items():
        if k not in d.lin and y.get(k, 0) != c: return False
    for k in y:
        if k not in d.lin and k not in x: return False
    return q is not None and abs(q) >= 65536          # packed pairs

def proportional(x, d):
    q = None
    for k, c in d.lin.items():
        r = x.lin[k] / c
        if q is None: q = r
        elif q != r: return False
    return True
def mkN(d, lo, ze, hi):
    if lo is ze and ze is hi: return lo
    s = signs(d)
    if 0 in s and ze is not ZERO and isinstance(ze, T) and ze.op != 'c' and ze.lin.keys() == d.lin.keys() and proportional(ze, d):
        o = [x for x, i in ((lo, -1), (hi, 1)) if i in s]        # a multiple of d where d is zero
        ze = o[0] if o and all(x is o[0] for x in o) and isinstance(o[0], T) and o[0].lin.keys() == d.lin.keys() and proportional(o[0], d) else ZERO
        if lo is ze and ze is hi: return lo
    elif ze is ZERO and 0 in s:
        o = [x for x, i in ((lo, -1), (hi, 1)) if i in s]
        if o and all(x is o[0] for x in o) and isinstance(o[0], T) and o[0].lin.keys() == d.lin.keys() and proportional(o[0], d): ze = o[0]
    if len(d.lin) == 2 and abs(d.lin.get(None, 0)) == 1:      # a counter below one is zero
        k = next(k for k in d.lin if k is not None)
        if k in BVINFO and abs(d.lin[k]) == 1 and d.lin[k] == -d.lin[None]:
            a, b = (lo, hi) if d.lin[k] > 0 else (hi, lo)
            if ze is b: c, sg = canon(k); return ite3(c, *((b, a, b)))
    if len(s) == 1: return {-1: lo, 0: ze, 1: hi}[next(iter(s))]
    if -1 not in s: lo = ze
    elif 1 not in s: hi = ze
    elif 0 not in s: ze = hi
    # an undefined branch may be taken to equal another one
    if lo is UNDEF or ze is UNDEF or hi is UNDEF:
        alt = [x for x in (lo, ze, hi) if x is not UNDEF]
        if all(x is alt[0] for x in alt) and not (-1 in s and 1 in s and 0 in s and False): return alt[0]
    # where d is zero, values that differ by a multiple of d are the same
    if 0 in s and isinstance(ze, T):
        if lo is not ze and isinstance(lo, T) and -1 in s and multiple(lo, ze, d): ze = lo
        elif hi is not ze and lo is not ze and isinstance(hi, T) and 1 in s and multiple(hi, ze, d): ze = hi
    if lo is ze and ze is hi: return lo
    k = (d, id(lo), id(ze), id(hi))
    n = NT.get(k)
    if n is None:
        n = N(); n.d = d; n.c = (lo, ze, hi); n.flatc = None
        n.deps = d.deps | lo.deps | ze.deps | hi.deps; n.unk = d.unk or lo.unk or ze.unk or hi.unk
        NT[k] = n
    return n

def top(v): return v.d if isinstance(v, N) else None
def cof(v, d, i): return v.c[i] if isinstance(v, N) and v.d is d else v

ITE = {}
def ite3(d, lo, ze, hi):
    if lo is ze and ze is hi: return lo
    if not (isinstance(lo, N) or isinstance(ze, N) or isinstance(hi, N)): return mkN(d, lo, ze, hi)
    key = (d, id(lo), id(ze), id(hi))
    r = ITE.get(key)
    if r is not None: return r[0]
    r = ite3_(d, lo, ze, hi)
    ITE[key] = (r, lo, ze, hi)
    return r
def ite3_(d, lo, ze, hi):
    BUDGET[0] += 1
    if BUDGET[0] > 3000000: raise TooBig()
    m = d
    for v in (lo, ze, hi):
        if isinstance(v, N) and v.d.h < m.h: m = v.d
    if m is d:
        return mkN(d, cof(lo, d, 0), cof(ze, d, 1), cof(hi, d, 2))
    return mkN(m, *[ite3(d, cof(lo, m, i), cof(ze, m, i), cof(hi, m, i)) for i in range(3)])

APPLY = {}
class TooBig(Exception): pass
BUDGET = [0]
def apply(f, name, *vs):
    """lift a leaf operation to decision diagrams; leaf results may themselves be diagrams"""
    for v in vs:
        if isinstance(v, N): break
    else: return f(*vs)
    key = (name,) + tuple(id(v) for v in vs)
    r = APPLY.get(key)
    if r is not None: return r[0]
    BUDGET[0] += 1
    if BUDGET[0] > 3000000: raise TooBig()
    m = None
    for v in vs:
        if isinstance(v, N) and (m is None or v.d.h < m.h): m = v.d
    r = ite3(m, *[apply(f, name, *[cof(v, m, i) for v in vs]) for i in range(3)])
    APPLY[key] = (r, vs)
    return r

def vadd(a, b):
    def f(x, y):
        if isinstance(x, P) and isinstance(y, P): return add(asT(x), asT(y))
        if isinstance(x, P): return ptr(x.base, add(x.off, y))
        if isinstance(y, P): return ptr(y.base, add(y.off, x))
        return add(x, y)
    return apply(f, 'add', a, b)
def vsub(a, b):
    def f(x, y):
        if isinstance(x, P) and isinstance(y, P):
            if x.base is y.base: return sub(x.off, y.off)
            return sub(asT(x), asT(y))
        if isinstance(x, P): return sub(asT(x), y)
        if isinstance(y, P): return sub(x, asT(y))
        return sub(x, y)
    return apply(f, 'sub', a, b)
def vmul(a, b): return apply(lambda x, y: mul(asT(x), asT(y)), 'mul', a, b)
def vdiv(a, b): return apply(lambda x, y: div(asT(x), asT(y)), 'div', a, b)
def vneg(a): return apply(lambda x: neg(asT(x)), 'neg', a)
def vfn(name, *args, unk=False):
    if name == 'sqrt': return apply(lambda x: absroot(sqrt(asT(x))), 'sqrt', args[0])
    ts = [a for a in args if isinstance(a, (T, N, P))]
    idx = [i for i, a in enumerate(args) if isinstance(a, (T, N, P))]
    if not any(isinstance(a, N) for a in ts): return fn(name, *[asT(a) if isinstance(a, (T, P)) else a for a in args], unk=unk)
    def f(*xs):
        l = list(args)
        for i, x in zip(idx, xs): l[i] = asT(x)
        return fn(name, *l, unk=unk)
    return apply(f, ('fn', name, unk, tuple(None if i in idx else a for i, a in enumerate(args))), *ts)

def absroot(t):
    """the root of a square is the absolute value of its base"""
    if t is UNDEF or len(t.lin) != 1: return t
    k, c = next(iter(t.lin.items()))
    if k is None or k.op != 'fn' or k.args[0] != 'abs': return t
    x, s = canon(k.args[1]); c *= abs(content(k.args[1]))
    return mkN(x, scale(x, -c), ZERO, scale(x, c))
BT, BF = ONE, ZERO
def vnot(a): return apply(lambda x: BF if x is BT else BT if x is BF else x if x is UNDEF else sub(ONE, x), 'not', a)
def _and(x, y):
    if x is BF or y is BF: return BF
    if x is BT: return y
    if y is BT: return x
    if x is UNDEF: return y
    if y is UNDEF: return x
    return mul(x, y)
def vand(a, b):
    if a is BF or b is BF: return BF
    if a is BT: return b
    if b is BT: return a
    return apply(_and, 'and', a, b)
def vor(a, b): return vnot(vand(vnot(a), vnot(b)))
def vxor(a, b): return ite(a, vnot(b), b)
def ite(c, a, b):
    if a is b: return a
    if c is BT: return a
    if c is BF: return b
    if isinstance(a, tuple) or isinstance(b, tuple):
        n = len(a) if isinstance(a, tuple) else len(b)
        ga = a if isinstance(a, tuple) else (UNDEF,) * n; gb = b if isinstance(b, tuple) else (UNDEF,) * n
        return tuple(ite(c, x, y) for x, y in zip(ga, gb))
    def f(x, y, z):
        if x is BT: return y
        if x is BF: return z
        if y is z: return y
        return fn('sel', x, asT(y), asT(z), unk=True)
    return apply(f, 'ite', c, a, b)

def asbool(v):
    """an i1/i8 flag as a 0/1 diagram"""
    def f(x):
        if x is BT or x is BF: return x
        if x is UNDEF: return x
        return cmpT('ne', x, ZERO)
    return apply(f, 'asbool', v)

PRED = {'lt': (1, 0, 0), 'le': (1, 1, 0), 'gt': (0, 0, 1), 'ge': (0, 1, 1), 'eq': (0, 1, 0), 'ne': (1, 0, 1)}
def cmpT(pred, x, y):
    if isinstance(x, P) and isinstance(y, P):
        d = sub(x.off, y.off) if x.base is y.base else sub(asT(x), asT(y))
    else: d = sub(asT(x), asT(y))
    if x is UNDEF or y is UNDEF: return UNDEF
    tab = PRED[pred]
    if y is ZERO and isinstance(x, P) and nonnull(x.base): return const(tab[2])
    if x is ZERO and isinstance(y, P) and nonnull(y.base): return const(tab[0])
    if d.op == 'c':
        q = d.args[0]
        return const(tab[0 if q < 0 else 1 if q == 0 else 2])
    # difference of two square roots: compare the radicands
    if len(d.lin) == 2 and None not in d.lin:
        (k1, c1), (k2, c2) = d.lin.items()
        if c1 == -c2 and all(k.op == 'fn' and k.args[0] == 'sqrt' for k in (k1, k2)):
            return cmpT(pred, scale(k1.args[1], 1), k2.args[1]) if c1 > 0 else cmpT(pred, k2.args[1], k1.args[1])
    c, s = canon(d)
    l = [const(t) for t in tab]
    if s < 0: l = l[::-1]
    if is_bool(c) and s > 0:        # 0/1 valued atom
        return mkN(c, l[1], l[1], l[2])
    return mkN(c, *l)
def nonnull(b): return b.op == 'fn' and b.args[0] == 'map' or b.op == 'leaf' and b.args[0] in ('alloca', 'new', 'glob')
def is_bool(t): return t.op == 'fn' and t.args[0] in ('exists', 'bool')
def large(v, n=40):
    """a diagram with many leaves, none of which is a constant or an address"""
    out = set(); seen = set(); st = [v]
    while st:
        x = st.pop()
        if isinstance(x, N):
            if id(x) not in seen: seen.add(id(x)); st += x.c
        elif not isinstance(x, T) or x.op == 'c' or x is UNDEF: return False
        else: out.add(x)
    return len(out) > n
LARGE = {}
def packed(v):
    if not isinstance(v, N): return v
    r = LARGE.get(v)
    if r is None: LARGE[v] = r = flat(v) if large(v) else v
    return r
def vcmp(pred, a, b):
    a, b = packed(a), packed(b)
    return apply(lambda x, y: cmpT(pred, x, y), 'cmp' + pred, a, b)

def boolatom(t):
    """0/1-valued leaf as a diagram"""
    t = t if is_bool(t) else fn('bool', t)
    return mkN(t, BF, BF, BT)

# ---------------------------------------------------------------- flattening, sums
def flat(v):
    if isinstance(v, T): return v
    if isinstance(v, P): return asT(v)
    if isinstance(v, tuple): return fn('tuple', *[flat(x) for x in v])
    r = FLATC.get(id(v))
    if r is not None: return r[0]
    w = unify(v)
    if w is not v: r = flat(w)
    else:
        lo, ze, hi = [flat(x) for x in v.c]
        r = flatnode(v.d, lo, ze, hi, v)
    FLATC[id(v)] = (r, v)
    return r
FLATC = {}
def flatnode(d, lo, ze, hi, v=None):
    a = (rnd('chi-', d.h), 0); b = (rnd('chi0', d.h), 0)
    c = ((1 - a[0] - b[0]) % p, 0)
    h = fadd(fadd(fmul(a, lo.h), fmul(b, ze.h)), fmul(c, hi.h))
    t = TAB.get(h)
    if t is not None: return t
    if v is None: v = rawN(d, lo, ze, hi)
    return _mk('flat', (v,), h, None, v.deps, v.unk)
def rawN(d, lo, ze, hi):
    n = N(); n.d = d; n.c = (lo, ze, hi); n.flatc = None
    n.deps = d.deps | lo.deps | ze.deps | hi.deps; n.unk = d.unk or lo.unk or ze.unk or hi.unk
    return n

# ---------------------------------------------------------------- order closure (linear relations between comparison atoms)
def _fm(eqs, ineqs):
    """is the system  e = 0 (eqs), f >= 0 / f > 0 (ineqs: (f, strict))  satisfiable over the rationals?"""
    eqs = [dict(e) for e in eqs]; ineqs = [(dict(f), st) for f, st in ineqs]
    def subst(f, k, e):
        c = f.pop(k, 0)
        if c:
            q = c / e[k]
            for x, y in e.items():
                if x is not k:
                    z = f.get(x, 0) - q * y
                    if z: f[x] = z
                    else: f.pop(x, None)
    while eqs:
        e = eqs.pop()
        ks = [k for k in e if k is not None]
        if not ks:
            if e.get(None, 0) != 0: return False
            continue
        k = ks[0]
        for f in eqs: subst(f, k, e)
        for f, _ in ineqs: subst(f, k, e)
    while True:
        vs = {}
        keep = []
        for f, st in ineqs:
            ks = [k for k in f if k is not None]
            if not ks:
                c = f.get(None, 0)
                if c < 0 or (st and c == 0): return False
                continue
            keep.append((f, st))
            for k in ks:
                x = vs.setdefault(k, [0, 0]); x[0 if f[k] > 0 else 1] += 1
        ineqs = keep
        if not vs: return True
        k = min(vs, key=lambda z: vs[z][0] * vs[z][1])
        pos = [x for x in ineqs if x[0].get(k, 0) > 0]; ng = [x for x in ineqs if x[0].get(k, 0) < 0]
        rest = [x for x in ineqs if not x[0].get(k, 0)]
        if len(pos) * len(ng) + len(rest) > 400: return True
        for f, s1 in pos:
            for g, s2 in ng:
                a, b = f[k], -g[k]; h = {}
                for x in set(f) | set(g):
                    if x is k: continue
                    z = f.get(x, 0) * b + g.get(x, 0) * a
                    if z: h[x] = z
                rest.append((h, s1 or s2))
        ineqs = rest
FEAS = {}
def feasible(ctx):
    """ctx: frozenset of (canonical difference, sign)"""
    r = FEAS.get(ctx)
    if r is None:
        eqs = []; ineqs = []; atoms = set()
        for d, s in ctx:
            if s == 0: eqs.append(d.lin)
            else: ineqs.append(({k: v * s for k, v in d.lin.items()}, True))
            atoms.update(k for k in d.lin if k is not None)
        seen = set()
        while atoms - seen:
            for k in list(atoms - seen):
                seen.add(k)
                if k in NONNEG: ineqs.append(({k: Fraction(1)}, False))
                if k in BVINFO:
                    f = dict(sub(sub(BVINFO[k], ONE), k).lin); ineqs.append((f, False)); atoms.update(x for x in f if x is not None)
        r = FEAS[ctx] = _fm(eqs, ineqs)
    return r
def ctxadd(ctx, d, s):
    """the part of ctx connected to d, plus (d, s)"""
    return ctx | {(d, s)}
def related(ctx, d):
    want = {k for k in d.lin if k is not None}; out = set(); ch = True
    for k in list(want):
        if k in BVINFO: want |= {x for x in BVINFO[k].lin if x is not None}
    rest = set(ctx)
    while ch:
        ch = False
        for c in list(rest):
            ks = {k for k in c[0].lin if k is not None}
            if ks & want: want |= ks; out.add(c); rest.discard(c); ch = True
    return frozenset(out)
def possible(ctx, d, s):
    if is_bool(d): return True
    rel = related(ctx, d)
    if not rel: return True
    return feasible(rel | {(d, s)})
def zerodiff(ctx, x):
    """x is a linear combination of the differences ctx says are zero"""
    rows = []
    def red(f):
        for p, g in rows:
            c = f.get(p)
            if c:
                q = c / g[p]
                f = {k: v for k in set(f) | set(g) for v in (f.get(k, 0) - q * g.get(k, 0),) if v}
        return f
    for d, s in ctx:
        if s != 0: continue
        f = red(dict(d.lin))
        f = {k: v for k, v in f.items() if v}
        p = next((k for k in f if k is not None), None)
        if p is not None: rows.append((p, f))
    return bool(rows) and not red({k: v for k, v in x.lin.items() if v})
def reval(t, env, memo):
    """fingerprint of t with the values of some atoms replaced, as (numerator, denominator)"""
    r = memo.get(t)
    if r is not None: return r
    if t in env: r = (env[t], (1, 0))
    elif t.op == '+':
        (a, b), (c, d) = reval(t.args[0], env, memo), reval(t.args[1], env, memo)
        r = (fadd(a, c), b) if b == d else (fadd(fmul(a, d), fmul(c, b)), fmul(b, d))
    elif t.op == '*':
        (a, b), (c, d) = reval(t.args[0], env, memo), reval(t.args[1], env, memo)
        r = (fmul(a, c), fmul(b, d))
    elif t.op == '/':
        (a, b), (c, d) = reval(t.args[0], env, memo), reval(t.args[1], env, memo)
        r = (fmul(a, d), fmul(b, c))
    elif t.op == 'fn':
        ch = False; k = []
        for a in t.args:
            if isinstance(a, T):
                n, d = reval(a, env, memo)
                v = fmul(n, finv(d)) if d != (0, 0) else n
                ch = ch or v != a.h; k.append(v)
            else: k.append(a)
        r = ((rnd('reval', *k), 0) if ch or t.args[0] == 'sqrt' else t.h, (1, 0))
    else: r = (t.h, (1, 0))
    memo[t] = r
    return r
def atoms_in(t, out, lim=40):
    st = [t]; seen = set()
    while st and len(out) < lim:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in '+*/': st.extend(a for a in x.args if isinstance(a, T))
        elif x.op != 'c' and x not in out: out.append(x)
ZR = {}
def zeroroot(ctx, a, b):
    """a and b agree at a random point of the variety where one of the differences of ctx is zero"""
    for d, s in ctx:
        if s != 0: continue
        env = ZR.get(d)
        if env is None:
            env = {}; at = []; atoms_in(d, at)
            for v in sorted(at, key=lambda x: x.h):
                if v.op == 'fn' and v.args[0] == 'sqrt': continue
                f = []; ok = True
                for x in (0, 1, 2, 3):
                    n, q = reval(d, {v: (x, 0)}, {})
                    f.append(n)
                    if q == (0, 0): ok = False
                sl = fadd(f[1], fneg(f[0]))
                if not ok or sl == (0, 0) or fadd(f[2], fneg(f[1])) != sl or fadd(f[3], fneg(f[2])) != sl: continue
                env = {v: fmul(fneg(f[0]), finv(sl))}; break
            ZR[d] = env
        if not env: continue
        memo = {}
        (n, q), (m, r) = reval(a, env, memo), reval(b, env, memo)
        if q != (0, 0) and r != (0, 0) and fmul(n, r) == fmul(m, q): return True
    return False
class Eq:
    def __init__(self, budget=20000): self.n = budget; self.memo = {}
    def eq(self, a, b, ctx=frozenset()):
        if a is b: return True
        na, nb = isinstance(a, N), isinstance(b, N)
        if not na and not nb:
            if a is UNDEF or b is UNDEF: return a is b
            a, b = asT(a), asT(b)
            return a is b or bool(ctx) and (zerodiff(ctx, sub(a, b)) or zeroroot(ctx, a, b))
        self.n -= 1
        if self.n < 0: return False
        k = (id(a), id(b), ctx)
        r = self.memo.get(k)
        if r is not None: return r
        d = a.d if na and (not nb or a.d.h <= b.d.h) else b.d
        sg = signs(d); r = True
        for i, s in enumerate((-1, 0, 1)):
            if s not in sg: continue
            if is_bool(d) and s == -1: continue
            x, y = cof(a, d, i), cof(b, d, i)
            if x is y: continue
            if not possible(ctx, d, s): continue
            if not self.eq(x, y, ctx if is_bool(d) else ctx | {(d, s)}): r = False; break
        self.memo[k] = r
        return r
def equivalent(a, b, budget=20000): return Eq(budget).eq(a, b)
ATOMS = {}
def datoms(v):
    r = ATOMS.get(id(v))
    if r is None:
        a = set(); l = set(); st = [v]; seen = set()
        while st:
            x = st.pop()
            if isinstance(x, N):
                if id(x) in seen: continue
                seen.add(id(x)); a.add(x.d); st += x.c
            else: l.add(x.h if isinstance(x, T) else id(x))
        r = ATOMS[id(v)] = (frozenset(a), frozenset(l), v)
    return r
BUCKETS = {}
def unify(v):
    """an earlier diagram equal to v on every sign combination the order closure allows, else v"""
    a, l, _ = datoms(v)
    if len(a) < 2: return v
    at = frozenset(k for d in a for k in d.lin if k is not None)
    ks = (l, at) 
    b = BUCKETS.setdefault(ks, [])
    for q, w in enumerate(b):
        if w is v: return v
        if equivalent(v, w, 3000):
            if id(w) not in FLATC and len(datoms(w)[0]) > len(a): b[q] = v; return v      # v may be part of w: the smaller one represents both
            return w
    if len(b) < 40: b.append(v)
    return v
def restrict(x, g):
    """x simplified using the knowledge that the 0/1 diagram g is 1"""
    if isinstance(x, tuple): return tuple(restrict(y, g) for y in x)
    memo = {}
    def go(x, g):
        if g is BF: return None
        if not isinstance(x, N): return x
        if not isinstance(g, N): return x
        k = (id(x), id(g))
        if k in memo: return memo[k]
        m = x.d if x.d.h <= g.d.h else g.d
        if m is not x.d:      # x does not look at m here: drop it from g
            gg = BF
            for c in g.c: gg = vor(gg, c)
            r = go(x, gg)
        else:
            cs = [go(cof(x, m, i), cof(g, m, i)) for i in range(3)]
            de = [c for c in cs if c is not None]
            if not de: r = None
            else:
                # an excluded branch takes the value of a defined neighbour
                lo, ze, hi = cs
                if ze is None: ze = hi if hi is not None else lo
                if lo is None: lo = ze
                if hi is None: hi = ze
                r = mkN(m, lo, ze, hi)
        memo[k] = r
        return r
    r = go(x, g)
    return x if r is None else r

class Dom:
    """iteration domain: bound variable r in [0, trip), possibly cut short by an early exit"""
    __slots__ = ('r', 'trip', 'until', 'h', 'tag')
    def __repr__(self): return 'for %s<%s%s' % (show(self.r), show(self.trip), ' until ' + show(self.until) if self.until is not None else '')
def dom(r, trip, until=None, tag=None):
    d = Dom(); d.r = r; d.trip = trip; d.until = until; d.tag = tag
    d.h = (rnd('dom', trip.h, r.h, until.h if until is not None else None, tag), 0)
    return d

def hoist(v, r):
    if isinstance(v, (T, P)): return v
    if r not in v.deps: return v
    cs = [hoist(x, r) for x in v.c]
    if r not in v.d.deps: return ite3(v.d, *cs)
    return apply(lambda a, b, c: flatnode(v.d, asT(a), asT(b), asT(c)), ('hoist', v.d), *cs)
def vsum(D, v):
    v = hoist(v, D.r)
    return apply(lambda t: sumT(D, asT(t)), ('sum', D.h), v)
def sumT(D, t):
    if t is ZERO: return ZERO
    if t is UNDEF: return t
    if D.r not in t.deps and D.until is None: return mul(D.trip, t)
    c = content(t)
    if c != 1: t = scale(t, 1 / c)
    # a linear functional of the body: its values at two points of the bound variable, with independent weights
    # (with one point only, Sum(f) / Sum(g) would be f / g)
    h = fadd(fmul(D.h, t.h), fmul(second(D.h), at2(t, D.r, D.trip.h)))
    n = TAB.get(h)
    if n is None:
        deps = (t.deps - {D.r}) | D.trip.deps | ((D.until.deps - {D.r}) if D.until is not None else EMPTY)
        n = _mk('sum', (D, t), h, None, deps, t.unk or D.trip.unk)
    return scale(n, c)
def second(h): return (rnd('second', h), 0)
AT2 = {}
def at2(t, r, trip):
    """fingerprint of t at another value of the bound variable r"""
    if r not in t.deps: return t.h
    v = (rnd('bv2', r.h, trip), 0)
    return Reval({r: v}).T(t)
class Reval:
    """fingerprints with the values of some bound variables replaced"""
    MEMO = {}
    def __init__(self, env):
        self.env = env; self.keys = frozenset(env)
        self.memo = Reval.MEMO.setdefault(tuple(sorted((k.h, v) for k, v in env.items())), {})
    def T(self, t):
        if not (t.deps & self.keys): return t.h
        h = self.memo.get(t)
        if h is None: h = self.memo[t] = self._T(t)
        return h
    def _T(self, t):
        if t in self.env: return self.env[t]
        o, a = t.op, t.args
        if o == '+': return fadd(self.T(a[0]), self.T(a[1]))
        if o == '*': return fmul(self.T(a[0]), self.T(a[1]))
        if o == '/': return fmul(self.T(a[0]), finv(self.T(a[1])))
        if o == 'flat':
            v = a[0]; d = self.T(v.d); x = rnd('chi-', d); y = rnd('chi0', d)
            lo, ze, hi = [self.T(asT(c)) if not isinstance(c, N) else self.T(flat(c)) for c in v.c]
            return fadd(fadd(fmul((x, 0), lo), fmul((y, 0), ze)), fmul(((1 - x - y) % p, 0), hi))
        if o == 'sum':
            D, b = a; h, R = self.dom(D)
            R2 = Reval({**self.env, D.r: (rnd('bv2', R.env[D.r] if D.r in R.env else D.r.h, self.T(D.trip)), 0)})
            return fadd(fmul(h, R.T(b)), fmul(second(h), R2.T(b)))
        if o == 'binder':
            h, R = self.dom(a[1])
            return (rnd('binder', a[0], h, tuple(R.T(x) if isinstance(x, T) else x for x in a[2:])), 0)
        if o == 'leaf' and a[0] == 'bv': return (rnd('bv', self.T(a[1]), a[2]), 0)
        if o == 'fn' and a[0] == 'sqrt':
            s = fsqrt(self.T(a[1]))
            if s is not None: return s
        return (rnd('fn', *[self.T(x) if isinstance(x, T) else x for x in a]), 0)
    def dom(self, D):
        trip = self.T(D.trip)
        if trip == D.trip.h: R = self; r = D.r.h
        else:
            r = (rnd('bv', trip, D.r.args[2]), 0)
            R = Reval({**self.env, D.r: r})
        u = R.T(D.until) if D.until is not None else None
        if trip == D.trip.h and (u is None or u == D.until.h): return D.h, R
        return (rnd('dom', trip, r, u, D.tag), 0), R
def binder(name, D, *ts):
    """node binding D.r in ts"""
    h = (rnd('binder', name, D.h, tuple(t.h if isinstance(t, T) else t for t in ts)), 0)
    n = TAB.get(h)
    if n is None:
        deps = EMPTY; unk = D.trip.unk
        for t in ts:
            if isinstance(t, T): deps |= t.deps; unk = unk or t.unk
        deps = (deps - {D.r}) | D.trip.deps | ((D.until.deps - {D.r}) if D.until is not None else EMPTY)
        n = _mk('binder', (name, D) + ts, h, None, deps, unk)
    return n

# ---------------------------------------------------------------- substitution
class Subst:
    def __init__(self, m, fnhook=None):
        self.m = m; self.keys = frozenset(m); self.memo = {}; self.fnhook = fnhook
    def T(self, t):
        if not (t.deps & self.keys): return t
        r = self.memo.get(t)
        if r is None:
            r = self._T(t); self.memo[t] = r
        return r
    def _T(self, t):
        if t in self.m: return self.m[t]
        if self.fnhook is not None:
            x = self.fnhook(t, self)
            if x is not None: return x
        o = t.op
        if o == '+': return vadd(self.T(t.args[0]), self.T(t.args[1]))
        if o == '*': return vmul(self.T(t.args[0]), self.T(t.args[1]))
        if o == '/': return vdiv(self.T(t.args[0]), self.T(t.args[1]))
        if o == 'fn':
            if t.args[0] == 'rec':
                x = renamerec(self, t)
                if x is not None: return x
            a = [self.T(x) if isinstance(x, T) else x for x in t.args[1:]]
            return refn(t.args[0], a, t.unk)
        if o == 'flat': return flat(self.V(t.args[0]))
        if o == 'sum':
            D, b = t.args; D2, inner = self.dom(D)
            return vsum(D2, inner.T(b))
        if o == 'binder':
            D = t.args[1]; D2, inner = self.dom(D)
            return binder(t.args[0], D2, *[flat(inner.T(x)) if isinstance(x, T) else x for x in t.args[2:]])
        if o == 'leaf':
            if t.args[0] == 'bv':
                tr = flat(self.T(t.args[1]))
                return bv(tr, t.args[2]) if tr is not t.args[1] else t
            return t
        return t
    def dom(self, D):
        trip = flat(self.T(D.trip))
        if D.r in self.keys:
            m = {k: v for k, v in self.m.items() if k is not D.r}
        else: m = self.m
        if trip is D.trip:
            inner = self if m is self.m else Subst(m, self.fnhook); r = D.r
        else:
            r = bv(trip, D.r.args[2]); m = dict(m); m[D.r] = r; inner = Subst(m, self.fnhook)
        u = flat(inner.T(D.until)) if D.until is not None else None
        if trip is D.trip and u is D.until: return D, inner
        return dom(r, trip, u, D.tag), inner
    def V(self, v):
        if isinstance(v, T): return self.T(v)
        if isinstance(v, tuple): return tuple(self.V(x) for x in v)
        if not (v.deps & self.keys): return v
        k = ('V', id(v))
        r = self.memo.get(k)
        if r is not None: return r[0]
        if isinstance(v, P):
            b = self.T(v.base); o = self.T(v.off)
            r = mkptr(b, o)
        else:
            d = self.T(v.d); c = [self.V(x) for x in v.c]
            if isinstance(d, N):
                r = apply(lambda x: sel3(x, *c), ('sel3',) + tuple(id(x) for x in c), d)
            else: r = sel3(d, *c)
        self.memo[k] = (r, v)
        return r
class Rename(Subst):
    """replaces bound symbols (which are not listed as dependencies)"""
    def T(self, t):
        if t in self.m: return self.m[t]
        r = self.memo.get(t)
        if r is None:
            if t.op == 'c' or t.op == 'leaf': r = t
            elif t.op == 'fn' and t.args[0] == 'rec':
                a = [flat(self.T(x)) if isinstance(x, T) else x for x in t.args[1:]]
                r = fn('rec', *a)
            elif t.op in '+*' and len(t.lin) > 1 or t.op == '+':
                r = ZERO
                for k, c in t.lin.items(): r = vadd(r, const(c) if k is None else vmul(const(c), self.T(k)))
            else: r = self._T(t)
            self.memo[t] = r
        return r
    def V(self, v):
        if isinstance(v, T): return self.T(v)
        if isinstance(v, tuple): return tuple(self.V(x) for x in v)
        k = ('V', id(v))
        r = self.memo.get(k)
        if r is not None: return r[0]
        if isinstance(v, P): r = mkptr(self.T(v.base), self.T(v.off))
        else:
            d = self.T(v.d); c = [self.V(x) for x in v.c]
            r = apply(lambda x: sel3(x, *c), ('sel3',) + tuple(id(x) for x in c), d) if isinstance(d, N) else sel3(d, *c)
        self.memo[k] = (r, v)
        return r
RECGRP = {}      # symbol -> group: members (symbol, initial value, step binder), direction, exit condition
def namegroup(mem, D, dirn, U):
    """mem: [(symbol, ini, step)] with steps in terms of the symbols; returns the canonical symbols, in order"""
    cur = [leaf('rec0', ini.h, dep=False) for _, ini, _ in mem]
    for rnd_ in range(4):
        s = Rename({y: c for (y, _, _), c in zip(mem, cur)})
        u = flat(s.V(U)).h if U is not None else None
        nxt = []
        for (y, ini, st) in mem:
            stp = flat(s.V(st))
            nxt.append(leaf('rec', ini.h, stp.h, D.trip.h, dirn if D.r in stp.deps else 0, u, dep=False))
        cur = nxt
    s = Rename({y: c for (y, _, _), c in zip(mem, cur)})
    out = [(c, ini, flat(s.V(st))) for c, (_, ini, st) in zip(cur, mem)]
    u = flat(s.V(U)) if U is not None else None
    for c, _, _ in out: RECGRP[c] = (out, D, dirn, u)
    return out
def renamerec(sub, t):
    g = RECGRP.get(t.args[1])
    if g is None: return None
    mem, D, dirn, U = g
    k = ('grp', t.args[1])
    new = sub.memo.get(k)
    if new is None:
        D2, inner = sub.dom(D)
        m2 = [(y, flat(sub.T(ini)), flat(inner.T(st))) for y, ini, st in mem]
        u2 = flat(inner.T(U)) if U is not None else None
        out = mem if D2 is D and u2 is U and all(a[1] is b[1] and a[2] is b[2] for a, b in zip(m2, mem)) else namegroup(m2, D2, dirn, u2)
        new = sub.memo[k] = {y: (c, ini, st, D2) for (y, _, _), (c, ini, st) in zip(mem, out)}
    c, ini, st, D2 = new[t.args[1]]
    rest = [flat(sub.T(x)) if isinstance(x, T) else x for x in t.args[4:]]
    return fn('rec', c, ini, binder('step', D2, st), *rest)
def sel3(d, lo, ze, hi):
    if isinstance(d, P): d = asT(d)
    if d is UNDEF: return hi
    if d.op == 'c': return lo if d.args[0] < 0 else ze if d.args[0] == 0 else hi
    c, s = canon(d)
    if s < 0: lo, hi = hi, lo
    return ite3(c, lo, ze, hi)
def mkptr(b, o):
    def f(x, y):
        if isinstance(x, P): return ptr(x.base, add(x.off, asT(y)))
        return ptr(x, asT(y))
    return apply(f, 'mkptr', b, o)
REFN = {}
def refn(name, a, unk=False):
    r = REFN.get(name)
    if r is not None: return r(*a)
    return vfn(name, *a, unk=unk)

# ---------------------------------------------------------------- printing
NAMES = {}
def show(v, depth=7):
    if depth <= 0: return '…'
    if isinstance(v, tuple): return '(' + ', '.join(show(x, depth - 1) for x in v) + ')'
    if isinstance(v, P): return '&' + show(v.base, depth - 1) + '[' + show(v.off, depth - 1) + ']'
    if isinstance(v, N):
        lo, ze, hi = v.c
        return '{%s: <0→%s; =0→%s; >0→%s}' % (show(v.d, depth - 2), show(lo, depth - 1), show(ze, depth - 1), show(hi, depth - 1))
    if not isinstance(v, T): return str(v)
    if v in NAMES: return NAMES[v]
    o = v.op
    if o == 'c': return str(v.args[0])
    if o == 'leaf':
        if v.args[0] == 'bv': return 'k%d' % v.args[2] + '<' + show(v.args[1], depth - 3) + '>'
        return '.'.join(str(x) for x in v.args)
    if o == '+':
        if len(v.lin) <= 8:
            s = ''
            for k, c in v.lin.items():
                x = show(k, depth - 1) if k is not None else None
                s += ' + ' + (str(c) if x is None else x if c == 1 else '%s*%s' % (c, x))
            return '(' + s[3:] + ')'
        return '(' + show(v.args[0], depth - 1) + ' + ' + show(v.args[1], depth - 1) + ')'
    if o in '*/': return show(v.args[0], depth - 1) + o + show(v.args[1], depth - 1)
    if o == 'fn': return str(v.args[0]) + '(' + ', '.join(show(x, depth - 1) if isinstance(x, T) else str(x) for x in v.args[1:]) + ')'
    if o == 'flat': return show(v.args[0], depth)
    if o == 'sum': return 'Σ[%s](%s)' % (v.args[0], show(v.args[1], depth - 1))
    if o == 'binder': return '%s[%s](%s)' % (v.args[0], v.args[1], ', '.join(show(x, depth - 1) if isinstance(x, T) else str(x) for x in v.args[2:]))
    return o
