"""Meaning of the interpreter's API for the flow engine: objects of the caller are read-only trees of items; lists and tuples
that the function makes are memory cells; what leaves the function is the value of such a list or tuple at that moment."""
import re
from terms import *
import vf
from models import M, model
from vfops import rootpath

def kinds(ev): return ev.__dict__.setdefault('pykinds', {})
def obj(v): return asT(v)
def isz(v): return v is ZERO
def snap(ev, v):
    """the Python value an object stands for at this moment"""
    def f(t):
        if not isinstance(t, P) or t.off is not ZERO: return t
        k = kinds(ev).get(t.base)
        if k is None: return t
        ev.__dict__.setdefault('pysnapped', set()).add(t.base)
        if k[0] == 'tuple':
            n = k[1]
            if n.op != 'c': return ptr(fn('pytuple', flat(n), ev.regT(ev.state(t.base))), ZERO)
            return ptr(fn('pytuple', *[asT(flatp(snap(ev, ev.load(ev.state(t.base), const(8 * q), 8)))) for q in range(int(n.args[0]))]), ZERO)
        if k[0] == 'list':
            cb = fn('cap', t.base)
            return ptr(fn('pylist', flat(ev.load(ev.state(cb), ZERO, 8)), flat(ev.here(ev.regV(ev.state(t.base))))), ZERO)
        if k[0] == 'object':
            x = ev.load(ev.state(t.base), const(16), 8)
            g = lambda y: ev.objtok(y) if isinstance(y, P) else y
            return ptr(fn('pyobject', k[1], flat(ev.here(apply(g, ('held', ev.uid_()), x)))), ZERO)
        return t
    return apply(f, ('pysnap', ev.uid_()), v)
def flatp(v): return v if isinstance(v, T) and not isinstance(v, P) else flat(v)
def item(ev, v):
    v = snap(ev, v)
    return apply(lambda t: asT(t), ('pyval', ev.uid_()), v)

def fresh(ev, i, kind, n=None):
    b = leaf('new', ev.F.name, ev.frame, i['id']); ev.localbases.add(b)
    ev.mem[b] = vf.LoopS(vf.Init(leaf('zero')), [], ('z',))
    kinds(ev)[b] = (kind, n); ev.__dict__.setdefault('pysnapped', set()).discard(b)
    if kind == 'list':
        cb = fn('cap', b); ev.localbases.add(cb)
        ev.mem[cb] = vf.Upd(ev.state(cb), ZERO, n, BT, i.get('loc') or [], 8)
    return ptr(b, ZERO)

@model(r'^PyList_New$')
def lnew(ev, dem, a, i): return fresh(ev, i, 'list', flat(a[0]))
@model(r'^PyTuple_New$')
def tnew(ev, dem, a, i): return fresh(ev, i, 'tuple', flat(a[0]))
@model(r'^Py(List|Tuple)_(SetItem|SET_ITEM)(\(.*)?$')
def setitem(ev, dem, a, i):
    for (c, t) in ev.targets(a[0]):
        if t.base in ev.__dict__.get('pysnapped', ()): ev.vocab.add('a list that is filled after it was stored')
    ev.store(vadd(a[0], vscale(a[1], 8)), item(ev, a[2]), 8, i.get('loc') or []); return ZERO
def vscale(v, k): return apply(lambda t: scale(asT(t), k), ('x', k), v)
@model(r'^PyList_Append$')
def lappend(ev, dem, a, i):
    ev.vocab.add('PyList_Append')      # the length becomes a count of rounds, which may equal a given size for reasons not visible here
    for (c, t) in ev.targets(a[0]):
        cb = fn('cap', t.base); n = ev.load(ev.state(cb), ZERO, 8)
        g = vand(ev.guard, c)
        ev.store(vadd(t, vscale(n, 8)), item(ev, a[1]), 8, i.get('loc') or [], g)
        ev.mem[cb] = vf.Upd(ev.state(cb), ZERO, vadd(n, ONE), g, i.get('loc') or [], 8)
    return ZERO
@model(r'^_?Py_BuildValue(_SizeT)?$')
def build_(ev, dem, a, i):
    f = fmt(ev, a[0]); q = 1; out = []
    if f is None or not re.fullmatch(r'\s*\(?[NOSdkKiIlLnfbBhH, ]*\)?\s*', f): ev.unknown.append(('Py_BuildValue format', i.get('loc'))); return leaf('unkbv', ev.uid_(), unk=True)
    for ch in re.sub(r'[\s(),]', '', f):
        v = a[q]; q += 1
        if ch in 'NOS': out.append(flat(item(ev, v)))
        elif ch in 'df': out.append(asT(ptr(fn('pyfloat', flat(v)), ZERO)))
        else: out.append(asT(ptr(fn('pyint', flat(v)), ZERO)))
    if len(out) == 1 and '(' not in f: return ptr(out[0], ZERO)
    return ptr(fn('pytuple', *out), ZERO)
@model(r'^PyTuple_Pack$')
def pack(ev, dem, a, i): return ptr(fn('pytuple', *[flat(item(ev, x)) for x in a[1:]]), ZERO)
def fmt(ev, v):
    if isinstance(v, P):
        from models import cstr
        return cstr(ev, v)
def num(name):
    return lambda ev, dem, a, i: apply(lambda t: ptr(fn(name, asT(t)), ZERO), name, a[0])
for rx, nm in ((r'^PyFloat_FromDouble$', 'pyfloat'), (r'^PyLong_From(UnsignedLong|Long|LongLong|UnsignedLongLong|Size_t|Ssize_t)$', 'pyint')):
    M.append((re.compile(rx), num(nm)))
def conv(name):
    def f(ev, dem, a, i):
        def g(t):
            if isinstance(t, P) and t.base.op == 'leaf' and '_Py_TrueStruct' in map(str, t.base.args): return ONE
            if isinstance(t, P) and t.base.op == 'leaf' and '_Py_FalseStruct' in map(str, t.base.args): return ZERO
            if name == 'pydouble' and isinstance(t, P) and t.base.op == 'fn' and t.base.args[0] == 'pyfloat': return t.base.args[1]
            return fn(name, asT(t))
        return apply(g, name, a[0])
    return f
for rx, nm in ((r'^Py(Float|Long)_AsDouble$|^PyFloat_AS_DOUBLE(\(|$)', 'pydouble'), (r'^PyLong_As(UnsignedLong|Long|LongLong|UnsignedLongLong|Size_t|Ssize_t)$', 'pyinteger')):
    M.append((re.compile(rx), conv(nm)))
@model(r'^PyObject_IsTrue$')
def istrue(ev, dem, a, i): return conv('pyinteger')(ev, dem, a, i)
@model(r'^Py(Tuple|List)_(GetItem|GET_ITEM)(\(|$)')
def getitem(ev, dem, a, i): return apply(lambda t, k: ptr(fn('pyitem', asT(t), asT(k)), ZERO), 'pyitem', a[0], a[1])
@model(r'^Py(Tuple|List)_(Size|GET_SIZE)(\(|$)|^PyObject_(Size|Length)$|^Py_SIZE(\(|$)')
def getsize(ev, dem, a, i):
    def f(t):
        k = kinds(ev).get(t.base) if isinstance(t, P) else None
        if k and k[0] == 'list': return ev.load(ev.state(fn('cap', t.base)), ZERO, 8)
        if k and k[0] == 'tuple': return k[1]
        return ev.__dict__.get('pysizes', {}).get(t) or fn('pysize', asT(t))
    return apply(f, ('pysize', ev.uid_()), a[0])
def tname(v):
    return v.base.args[1] if isinstance(v, P) and v.base.op == 'leaf' and v.base.args[0] == 'glob' else asT(v)
@model(r'^Py(Object_TypeCheck|_IS_TYPE)(\(|$)')
def tcheck(ev, dem, a, i): return apply(lambda t, y: boolatom(fn('pyis', asT(t), tname(y))), ('pyis',), a[0], a[1])
@model(r'^Py_TYPE(\(|$)')
def ptype(ev, dem, a, i): return apply(lambda t: ptr(fn('pytype', asT(t)), ZERO), 'pytype', a[0])
@model(r'^PyType_HasFeature(\(|$)')
def feat(ev, dem, a, i):
    names = {1 << 24: 'PyLong_Type', 1 << 25: 'PyList_Type', 1 << 26: 'PyTuple_Type'}
    def f(t, y):
        if isinstance(t, P) and t.base.op == 'fn' and t.base.args[0] == 'pytype' and y.op == 'c' and int(y.args[0]) in names:
            return boolatom(fn('pyis', t.base.args[1], names[int(y.args[0])]))
        return boolatom(fn('pyfeature', asT(t), asT(y)))
    return apply(f, ('pyfeat',), a[0], a[1])
@model(r'^PyErr_Occurred$')
def occurred(ev, dem, a, i): return ZERO      # the analysed calls convert
@model(r'^PyErr_(SetString|Format|SetNone|SetObject|NoMemory)$')
def raise_(ev, dem, a, i):
    if ev.iter0 or ev.__dict__.get('pydrop'): ev.guard = BF; return ZERO if i['ty'] != 'ptr' else ZERO
    ev.throw('Python exception', i); return ZERO
@model(r'^Py_(INCREF|DECREF|XINCREF|XDECREF)(\(|$)|^PyErr_Clear$')
def refs(ev, dem, a, i): return UNDEF
@model(r'^PyObject_CallObject$|^PyObject_CallNoArgs$')
def pycall(ev, dem, a, i):
    p = fresh(ev, i, 'object', None); kinds(ev)[p.base] = ('object', tname(a[0])); return p
@model(r'^nv::result\(')
def result(ev, dem, a, i):
    b = leaf('pyresult'); ev.mem[b] = vf.Upd(ev.state(b), ZERO, item(ev, a[0]), ev.guard, i.get('loc') or [], 8); return UNDEF
@model(r'^nv::tuple\(')
def tup(ev, dem, a, i):
    ev.__dict__.setdefault('pysizes', {})[a[0]] = flat(a[1]); return BT
@model(r'^_?PyArg_ParseTuple(_SizeT)?$')
def parse(ev, dem, a, i):
    f = fmt(ev, a[1]); q = 2; n = 0
    if f is None or not re.fullmatch(r'(O!?|[dfkKiIlLnbBhHp])*([:;].*)?', f): ev.unknown.append(('PyArg_ParseTuple format', i.get('loc'))); return ONE
    ok = BT
    for ch in re.findall(r'O!?|.', re.split('[:;]', f)[0]):
        it = apply(lambda t: ptr(fn('pyitem', asT(t), const(n)), ZERO), ('arg', n), a[0]); n += 1
        if ch == 'O!':
            ok = vand(ok, boolatom(fn('pyis', flat(it), tname(a[q])))); q += 1
        w = {'I': 4, 'i': 4, 'f': 4, 'h': 2, 'H': 2, 'b': 1, 'B': 1, 'p': 4}.get(ch, 8)
        v = it if ch[0] == 'O' else conv('pydouble' if ch in 'df' else 'pyinteger')(ev, dem, [it], i)
        ev.store(a[q], v, w, i.get('loc') or []); q += 1
    return ok
def newobject(ev, i):
    p = fresh(ev, i, 'object', None); kinds(ev)[p.base] = ('object', 'new'); return p
@model(r'^nikfemm::MultiLayerCurrentDensitySimulation::MultiLayerCurrentDensitySimulation\(unsigned int\)')
def newsim(ev, dem, a, i):
    for (c, t) in ev.targets(a[0]):
        ev.setregion(fn('vd', t.base, ZERO), vf.Whole(fn('layers', flat(a[1]))), vand(ev.guard, c))
        ev.setvec(t.base, ZERO, vscale(a[1], 336), i.get('loc'), vand(ev.guard, c))
    return UNDEF
