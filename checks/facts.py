"""Order facts the flow engine may use (each is an invariant of the data structure, stated in DESIGN.md)."""
import terms, vf
def loads_of(t, pred):
    return [k for k in t.lin if k is not None and k.op == 'fn' and k.args[0] == 'ld' and pred(k)]
def csr_ordered(ev, e, off, r, dirn):
    """stored entries of row i have column > i: walking the rows downwards, a mirrored update col[j] of an earlier row never hits row i"""
    if isrowcol(e.off, off): return True
    if dirn != -1: return False
    l = vf.lin_in(off, r)
    if not l or l[0] != 8 or l[1] is not terms.ZERO: return False
    inner = [d.r for d in e.doms]
    if not inner: return False
    ks = [k for k in e.off.lin if k is not None]
    return len(ks) == 1 and e.off.lin[ks[0]] == 8 and ks[0].op == 'fn' and ks[0].args[0] == 'ld' and any(x in ks[0].deps for x in inner)
def isrowcol(a, b):
    """a = 8*col[row_ptr[i] + k], b = 8*i: a stored column is larger than its row"""
    if len(a.lin) != 1 or len(b.lin) != 1: return False
    (k, c), (x, d) = *a.lin.items(), *b.lin.items()
    if c != 8 or d != 8 or k is None or x is None or k.op != 'fn' or k.args[0] != 'ld': return False
    rows = [t for t in k.args[2].lin if t is not None and t.op == 'fn' and t.args[0] == 'ld']
    return len(rows) == 1 and k.args[2].lin[rows[0]] == 4 and rows[0].args[2].lin.get(x) == 4
def distinct_corners(d, s):
    """the three corners of a triangle are three different nodes"""
    ks = [k for k in d.lin if k is not None]
    if len(ks) == 2 and None not in d.lin and d.lin[ks[0]] == -d.lin[ks[1]] and all(k.op == 'fn' and k.args[0] == 'ld' for k in ks) and ks[0].args[1] is ks[1].args[1]:
        o = terms.sub(ks[0].args[2], ks[1].args[2])
        if o.op == 'c' and abs(o.args[0]) in (4, 8) and all(c % 12 == 0 for k, c in ks[0].args[2].lin.items() if k is not None) and len(ks[0].args[2].deps): return s - {0}
    return s
def nondegenerate(d, s):
    """the doubled area of a triangle (cross product of two edge vectors) is not zero"""
    if 0 not in s or None in d.lin or len(d.lin) != 2: return s
    (k1, c1), (k2, c2) = d.lin.items()
    if c1 != -c2: return s
    def edges(k):
        if k.op != '*' or len(k.args) != 2: return None
        out = []
        for f in k.args:
            f = f if isinstance(f, terms.T) else f[0]
            v = list(f.lin.items())
            if len(v) != 2 or v[0][0] is None or v[1][0] is None or v[0][1] != -v[1][1] or any(x.op != 'fn' or x.args[0] != 'ld' for x, _ in v): return None
            out.append({x for x, _ in v})
        return out
    a, b = edges(k1), edges(k2)
    if not a or not b: return s
    base = {x.args[1] for e in a + b for x in e}
    return s - {0} if len(base) == 1 and len({x for e in a + b for x in e}) == 6 else s
