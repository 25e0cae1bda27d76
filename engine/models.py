"""Library models: what opaque standard-library and toolbox calls mean to the flow engine."""
import re
from terms import *
import vf
from vfops import powmodel, vabs, rootpath, LOCALTY

M = []
def model(pat):
    def d(f): M.append((re.compile(pat), f)); return f
    return d

# ---- no effect on anything a property talks about
@model(r'^nikfemm::nlog(info|warn|error)\(|^std::chrono|^std::basic_ostream|^std::ostream|operator<<|^(printf|fprintf|puts|putchar|fflush|vprintf|clock)\b|^std::locale|^std::ios_base|^std::(endl|flush)')
def ignore(ev, dem, a, i):
    return leaf('ignored') if i['ty'] != 'ptr' else ptr(leaf('ignored'), ZERO)
@model(r'^std::(__cxx11::)?basic_string<|^std::to_string|^std::operator\+|^std::allocator<char>|^std::runtime_error|^std::invalid_argument|^std::logic_error|^std::out_of_range|^std::exception|^std::__new_allocator<char>')
def strings(ev, dem, a, i):
    return leaf('ignored') if i['ty'] != 'ptr' else ptr(leaf('ignored'), ZERO)
@model(r'^nikfemm::nexit\(')
def nexit(ev, dem, a, i): ev.throw('nexit', i); return UNDEF
@model(r'^(__cxa_throw|__cxa_rethrow|abort|exit|_exit|__assert_fail|std::terminate|__cxa_bad_cast|__cxa_throw_bad_array_new_length)\b|^std::__throw_|^std::__glibcxx_assert_fail|^__clang_call_terminate')
def thrower(ev, dem, a, i): ev.throw(dem, i); return UNDEF
@model(r'^(__cxa_allocate_exception)\b')
def cxaalloc(ev, dem, a, i):
    b = leaf('exc', ev.uid_()); ev.localbases.add(b); return ptr(b, ZERO)
@model(r'^(__cxa_free_exception|__cxa_begin_catch|__cxa_end_catch|__cxa_guard_|__cxa_atexit|_Unwind_Resume)')
def cxa(ev, dem, a, i): return UNDEF

# ---- assumptions used by the harness
@model(r'^nv::assume\(')
def assume(ev, dem, a, i):
    ev.guard = vand(ev.guard, asbool(a[0])); return UNDEF

# ---- allocation
@model(r'^operator new|^(malloc|calloc)$')
def opnew(ev, dem, a, i):
    k = ('new', ev.F.name, ev.frame, i['id'])
    b = leaf(*k); ev.localbases.add(b)
    if dem == "malloc": ev.mem[b] = vf.Init(b)
    if dem == 'calloc': ev.mem[b] = vf.LoopS(vf.Init(leaf('zero')), [], ('z',))
    if dem in ('malloc', 'calloc') or dem.startswith('operator new'):
        cb = fn('cap', b); ev.localbases.add(cb)
        ev.mem[cb] = vf.Upd(ev.state(cb), ZERO, vmul(a[0], a[1]) if dem == 'calloc' else a[0], BT, i.get('loc') or [], 8)
    return ptr(b, ZERO)
@model(r'^operator delete|^free$')
def opdel(ev, dem, a, i): return UNDEF

# ---- math
def m1(name):
    def f(ev, dem, a, i): return vfn(name, *a)
    return f
for n in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'atan2', 'exp', 'log', 'floor', 'ceil', 'round', 'fmod', 'log10', 'tanh', 'cbrt'):
    M.append((re.compile(r'^(std::)?%sf?(\((double|float)(, (double|float))?\))?$' % n), m1(n)))
@model(r'^(std::)?sqrtf?(\((double|float)\))?$')
def msqrt(ev, dem, a, i): return vfn('sqrt', a[0])
@model(r'^(std::)?(fabs|abs)f?(\((double|float|int|long)\))?$')
def mfabs(ev, dem, a, i): return vabs(a[0])
@model(r'^(std::)?powf?(\(double, double\))?$')
def mpow(ev, dem, a, i): return powmodel(a[0], a[1])
@model(r'^(std::)?hypotf?(\(double, double\))?$')
def mhypot(ev, dem, a, i): return vfn('sqrt', vadd(vmul(a[0], a[0]), vmul(a[1], a[1])))
@model(r'^(std::)?(fmin|fmax)(\(double, double\))?$')
def mminmax(ev, dem, a, i):
    return ite(vcmp('lt', a[0], a[1]), a[0], a[1]) if 'min' in dem else ite(vcmp('lt', a[0], a[1]), a[1], a[0])
@model(r'^(mem(cpy|move))$')
def mmemcpy(ev, dem, a, i): ev.memcpy(a[0], a[1], a[2], i); return a[0]

# ---- std::vector
SIZES = {'double': 8, 'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8, 'unsigned char': 1, 'bool': 1, 'float': 4, 'char': 1}
def elem_size(ev, dem):
    t = vec_elem(dem)
    return type_size(ev, t)
def vec_elem(dem):
    dem = LOCALTY.sub(r'\1', dem)
    k = dem.index('vector<') + 7; d = 0; out = ''
    for ch in dem[k:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0: break
        out += ch
    return out.strip()
def type_size(ev, t):
    if t in ev.opts.get('objelem', {}): return ev.opts['objelem'][t]
    t = LOCALTY.sub(r'\1', t.strip())
    if t in SIZES: return SIZES[t]
    if t.endswith('*'): return 8
    m = re.match(r'std::array<(.*), (\d+)ul>$', t)
    if m: return type_size(ev, m.group(1)) * int(m.group(2))
    if t.startswith('std::vector<'): return 24
    for k in ('struct.', 'class.'):
        if k + t in ev.mod['structs']: return ev.mod['structs'][k + t]
    m = re.match(r'std::pair<(.*)>$', t)
    if m:
        d = 0
        for k, ch in enumerate(m.group(1)):
            if ch in '<(': d += 1
            if ch in '>)': d -= 1
            if ch == ',' and d == 0:
                a, b = type_size(ev, m.group(1)[:k]), type_size(ev, m.group(1)[k + 1:])
                al = max(min(a, 8), min(b, 8)); return (a + al - 1) // al * al + (b + al - 1) // al * al
    n = t.split('::')[-1]
    c = [v for k, v in ev.mod['structs'].items() if re.sub(r'\.\d+$', '', k).split('::')[-1].split('.')[-1] == n]
    if c and all(x == c[0] for x in c): return c[0]
    raise vf.Unsupported('size of ' + t)

def each(ev, addr):
    for (c, t) in ev.targets(addr):
        g = vand(ev.guard, c)
        if g is not BF: yield g, t

def vec_set(ev, t, n, es, st, g, i):
    ev.setvec(t.base, t.off, vmul(n, const(es)), i.get('loc') or [], g)
    d = ev.vecptr(t.base, t.off)
    if d.off is ZERO: ev.setregion(d.base, st, g)
    else: ev.symvec(d, st, g)

@model(r'^std::(_Bit_)?vector<.*>::vector\((std::allocator<.*> const&)?\)$')
def vctor0(ev, dem, a, i):
    es = elem_size(ev, dem)
    for g, t in each(ev, a[0]): vec_set(ev, t, ZERO, es, vf.LoopS(vf.Init(leaf('zero')), [], ('z',)), g, i)
    return UNDEF
@model(r'^std::vector<.*>::vector\(unsigned long, (std::allocator<.*> const&)\)$')
def vctorn(ev, dem, a, i):
    es = elem_size(ev, dem)
    for g, t in each(ev, a[0]):
        vec_set(ev, t, a[1], es, ev.fillstate(flat(a[1]), es, ZERO, i.get('loc')), g, i)
        if vec_elem(dem) == 'nikfemm::NonLinearExpression':
            d = ev.vecptr(t.base, t.off)
            if d.off is ZERO: ev.setregion(fn('nle', d.base), vf.LoopS(vf.Init(leaf('zero')), [], ('z',)), g)
        if vec_elem(dem).startswith('std::vector<'):
            d = ev.vecptr(t.base, t.off)
            for b in (fn('vb', d.base), fn('vd', d.base)):
                if d.off is ZERO: ev.setregion(b, vf.LoopS(vf.Init(leaf('zero')), [], ('z',)), g)
                else: ev.unknown.append(('vector of vectors nested in a vector', i.get('loc')))
    return UNDEF
@model(r'^std::vector<.*>::vector\(unsigned long, .* const&, (std::allocator<.*> const&)\)$')
def vctornv(ev, dem, a, i):
    es = elem_size(ev, dem)
    w = min(es, 8)
    for g, t in each(ev, a[0]):
        src = a[2]
        cells = []
        el = vec_elem(dem)
        if el in SIZES or el.endswith('*'): cells = [(0, es)]
        elif el == 'nikfemm::Vector': cells = [(0, 8), (8, 8)]
        else: raise vf.Unsupported('vector(n, value) of ' + el)
        n = flat(a[1]); r = bv(n, sum(1 for x in ev.trips if x is n)); D = dom(r, n); effs = []
        for o, w in cells:
            v = ev.do_load(vadd(src, const(o)), w, 'double', None, i)
            if v is not ZERO: effs.append(vf.Eff(add(scale(r, es), const(o)), v, [D], i.get('loc') or [], w))
        vec_set(ev, t, a[1], es, vf.LoopS(vf.Init(leaf('zero')), effs, ('z',)), g, i)
    return UNDEF
@model(r'^std::vector<.*>::(vector|operator=)\(std::vector<.*> ?(const&|&&)(, std::allocator<.*> const&)?\)$')
def vcopy(ev, dem, a, i):
    for g, t in each(ev, a[0]):
        srcs = list(each(ev, a[1]))
        for g2, s in srcs:
            g3 = vand(g, g2)
            if s.base is t.base and s.off is t.off: continue
            nb = ev.vecbytes(s.base, s.off)
            sd = ev.vecptr(s.base, s.off); dd = ev.vecptr(t.base, t.off)
            st = ev.state(sd.base)
            nested = [(b, rootpath(b, sd.base)) for b in list(ev.mem) if b is not sd.base and rootpath(b, sd.base) is not None]
            for k in dict(nikfemm_NonLinearExpression=('nle',)).get(vec_elem(dem).replace('::', '_'), ('vb', 'vd') if vec_elem(dem).startswith('std::vector<') else ()):
                b = fn(k, sd.base)
                if b not in ev.mem and not ev.islocal(sd.base): nested.append((b, None))
            if dd.off is not ZERO: 
                ev.unknown.append(('copy into nested vector', i.get('loc'))); continue
            ev.setvec(t.base, t.off, nb, i.get('loc') or [], g3)
            ev.setregion(dd.base, vf.Alias(st, sd.off if sd.off is not ZERO else None), g3)
            for b, pth in nested: ev.setregion(rebase(b, sd.base, dd.base), vf.Alias(ev.state(b)), g3)
    return a[0]
def rebase(b, x, y):
    if b is x: return y
    return fn(b.args[0], rebase(b.args[1], x, y), *b.args[2:])
@model(r'^(void |[\w:]+(<.*>)?\*?& |std::vector<.*>::reference )?std::vector<.*>::(push_back|emplace_back(<.*>)?|_M_realloc_insert(<.*>)?)\(')
def vpush(ev, dem, a, i):
    dem = re.sub(r'^\S.*?& (?=std::vector<)', '', dem)
    es = elem_size(ev, dem); el = vec_elem(dem)
    ret = None
    if '_M_realloc_insert' in dem: a = [a[0]] + a[2:]       # always at the end: only push_back and emplace_back reach it
    for g, t in each(ev, a[0]):
        nb = ev.vecbytes(t.base, t.off)
        d = vadd(ev.vecptr(t.base, t.off), nb); ret = d if ret is None else ret
        val = a[1] if len(a) > 1 else None
        save = ev.guard; ev.guard = g
        push_value(ev, d, val, el, es, i, dem, a)
        ev.setvec(t.base, t.off, vadd(nb, const(es)), i.get('loc') or [], g)
        ev.guard = save
    return ret if ret is not None else UNDEF
def push_value(ev, d, val, el, es, i, dem, a):
    if val is None: return
    if el in SIZES or el.endswith('*'):
        v = ev.do_load(val, es, 'ptr' if el.endswith('*') else 'x', None, i); ev.store(d, v, es, i.get('loc') or [])
        return
    if len(a) > 2:     # emplace_back with several scalar arguments
        if es != 8 * (len(a) - 1): ev.unknown.append(('emplace_back', i.get('loc')))
        for k, x in enumerate(a[1:]):
            v = ev.do_load(x, 8, 'x', None, i); ev.store(vadd(d, const(8 * k)), v, 8, i.get('loc') or [])
        return
    if el in ev.opts.get('objelem', {}):      # an abstract value
        tok = ev.do_load(apply(lambda t: ptr(fn('absv', t.base), t.off), 'obj', val), 8, 'x', None, i)
        for g, t in each(ev, d):
            if t.base in ev.localbases: ev.localbases.add(fn('absv', t.base))
            ev.objsize[t.base] = es
        ev.store(apply(lambda t: ptr(fn('absv', t.base), t.off), 'obj', d), tok, 8, i.get('loc') or [])
        return
    ev.copyobj(d, val, es, i)
@model(r'^std::vector<.*>::(~vector|_M_deallocate|reserve|shrink_to_fit|get_allocator|max_size|_S_.*)\(')
def vnop(ev, dem, a, i):
    if '::~vector(' in dem: ev.kill(a[0])
    return leaf('ignored')
@model(r'^std::vector<.*>::c?(begin|end)\(\)( const)?$')
def vbegin(ev, dem, a, i):
    end = re.search(r'::c?end\(', dem)
    def f(t):
        if not isinstance(t, P):
            if t is UNDEF or t is ZERO: return UNDEF
            t = ptr(t, ZERO)
        s = ev.vecptr(t.base, t.off)
        return vadd(s, ev.vecbytes(t.base, t.off)) if end else s
    return apply(f, ('vbegin', ev.uid_()), a[0])
# vector<bool>: one byte per element; a bit reference is (address of the byte, 0)
@model(r'^std::vector<bool, .*>::operator\[\]\(unsigned long\)( const)?$')
def vbit(ev, dem, a, i):
    p = apply(lambda t, n: vadd(ev.vecptr(t.base, t.off), n) if isinstance(t, P) else UNDEF, ('vbit', ev.uid_()), a[0], a[1])
    if dem.endswith('const'): return vcmp('ne', ev.do_load(p, 1, 'i8', None, i), ZERO)
    return (p, ZERO)
@model(r'^std::_Bit_reference::operator bool\(\) const$')
def bitget(ev, dem, a, i):
    return vcmp('ne', ev.do_load(ev.do_load(a[0], 8, 'ptr', None, i), 1, 'i8', None, i), ZERO)
@model(r'^std::_Bit_reference::operator=\(')
def bitset(ev, dem, a, i):
    v = ite(asbool(a[1]), ONE, ZERO) if 'bool' in dem else ite(asbool(bitget(ev, dem, [a[1]], i)), ONE, ZERO)
    ev.store(ev.do_load(a[0], 8, 'ptr', None, i), v, 1, i.get('loc') or [])
    return a[0]
@model(r'^std::vector<.*>::clear\(')
def vclear(ev, dem, a, i):
    for g, t in each(ev, a[0]): ev.setvec(t.base, t.off, ZERO, i.get('loc') or [], g)
    return UNDEF
@model(r'^std::vector<.*>::pop_back\(')
def vpop(ev, dem, a, i):
    es = elem_size(ev, dem)
    for g, t in each(ev, a[0]): ev.setvec(t.base, t.off, vsub(ev.vecbytes(t.base, t.off), const(es)), i.get('loc') or [], g)
    return UNDEF
@model(r'^std::vector<.*>::(resize|assign)\(unsigned long(, .* const&)?\)$')
def vresize(ev, dem, a, i):
    es = elem_size(ev, dem)
    val = ZERO
    if len(a) > 2: val = ev.do_load(a[2], min(es, 8), 'x', None, i)
    for g, t in each(ev, a[0]):
        old = flat(ev.vecbytes(t.base, t.off)); n = flat(a[1])
        if 'assign' in dem or old is ZERO: vec_set(ev, t, n, es, ev.fillstate(n, es, val, i.get('loc')), g, i)
        else:
            ev.setvec(t.base, t.off, scale(n, es), i.get('loc') or [], g)
            ev.notes.append('resize')
    return UNDEF
@model(r'^std::(vector<.*>::)?(erase|insert)|^std::vector<.*>::(erase|insert|_M_erase|_M_insert|_M_fill|_M_range(?!_check)|_M_(?!range_check))')
def vother(ev, dem, a, i):
    return ev.default_call(dem, a, i)

# ---- MatCOOSymmetric / unordered_map keyed by packed indices
def mapbase(t): return fn('map', *absobj(t))
def absobj(t): return vf.Ev.current.absobj(t.base, t.off)
@model(r'^std::unordered_map<unsigned long, .*>::unordered_map\((unsigned long, .*)?\)$')
def mapctor(ev, dem, a, i):
    for g, t in each(ev, a[0]): ev.setregion(mapbase(t), vf.LoopS(vf.Init(leaf('zero')), [], ('z',)), g)
    return UNDEF
@model(r'^std::unordered_map<unsigned long, .*>::(unordered_map|operator=)\(std::unordered_map<.*> ?(const&|&&)\)$')
def mapcopy(ev, dem, a, i):
    for g, t in each(ev, a[0]):
        for g2, s in each(ev, a[1]):
            b = mapbase(s)
            ev.setregion(mapbase(t), vf.Alias(ev.state(b)), vand(g, g2))
            for off in (16, 24): pass
    return a[0]
@model(r'^std::unordered_map<unsigned long, .*>::(operator\[\]|at)\(')
def mapidx(ev, dem, a, i):
    key = ev.do_load(a[1], 8, 'i64', None, i)
    def f(t, k): return ptr(mapbase(t if isinstance(t, P) else ptr(t, ZERO)), scale(asT(k), 2**12))
    ev.uid_()
    return apply(f, 'mapcell', a[0], key)
@model(r'^std::unordered_map<unsigned long, .*>::find\(')
def mapfind(ev, dem, a, i):
    key = ev.do_load(a[1], 8, 'i64', None, i)
    def f(t, k):
        t = t if isinstance(t, P) else ptr(t, ZERO)
        return ite(boolatom(fn('present', *absobj(t), asT(k))), ptr(mapbase(t), sub(scale(asT(k), 2**12), const(16))), ZERO)
    return apply(f, 'mapfind', a[0], key)
@model(r'^std::unordered_map<unsigned long, .*>::(count|contains)\(')
def mapcount(ev, dem, a, i):
    key = ev.do_load(a[1], 8, 'i64', None, i)
    return apply(lambda t, k: boolatom(fn('present', *absobj(t), asT(k))), 'mapcnt', a[0], key)
@model(r'^std::unordered_map<unsigned long, .*>::(insert|emplace|try_emplace)|std::unordered_map<unsigned long, .*>::(insert|emplace|try_emplace|insert_or_assign)<')
def mapinsert(ev, dem, a, i):
    # inserting a default value where absent does not change the (total, default-zero) cell content
    key = ev.do_load(a[1], 8, 'i64', None, i)
    cells = re.search(r'::(try_)?emplace<', dem) and a[2] if len(a) > 2 else vadd(a[1], const(8))
    if cells is None or dem.endswith('const&)') or 'insert_or_assign' in dem: ev.unknown.append((dem[:60], i.get('loc')))
    else:
        val = nle_get(ev, cells) if 'NonLinearExpression' in dem else ev.do_load(cells, 8, 'double', None, i)
        val = restrict(val, ev.guard)
        if val is not ZERO and val is not UNDEF: ev.unknown.append(('insert of a non-default value ' + show(val, 4), i.get('loc')))
    def f(t, k): return ptr(mapbase(t if isinstance(t, P) else ptr(t, ZERO)), sub(scale(asT(k), 2**12), const(16)))
    ev.uid_()
    return (apply(f, ('mapins', ev.uid_()), a[0], key), leaf('ignored'))
@model(r'^std::unordered_map<unsigned long, .*>::end\(')
def mapend(ev, dem, a, i): return ZERO
@model(r'^std::unordered_map<unsigned long, .*>::begin\(')
def mapbegin(ev, dem, a, i):
    return apply(lambda t: ptr(fn('mapnode', *absobj(t), *maptok(ev, t)), ZERO), ('mapbegin', ev.uid_()), a[0])
def maptok(ev, t):
    """a map built by the function itself is known by its content, one of the caller by its address"""
    b, o = absobj(t)
    if not ev.islocal(b): return ()
    return (fn('content', flat(ev.here(ev.regV(ev.state(fn('map', b))))), o),)
def mapname(nb): return nb.args[3:] or nb.args[1:]
@model(r'^std::unordered_map<unsigned long, .*>::size\(')
def mapsize(ev, dem, a, i):
    return apply(lambda t: fn('mapsize', *(maptok(ev, t) or absobj(t))), ('mapsize', ev.uid_()), a[0])
@model(r'^std::unordered_map<unsigned long, .*>::(~unordered_map|reserve|rehash)\(')
def mapnop(ev, dem, a, i): return UNDEF

# ---- maps keyed by one 32-bit integer: a cell per key and a cell telling whether the key is present
SMALLMAP = r'^std::(?:unordered_)?map<unsigned int, (?:unsigned )?(?:int|long|double), .*>::'
def smcells(t, k): return ptr(mapbase(t), scale(asT(k), 2**12)), ptr(fn('mapin', *absobj(t)), scale(asT(k), 2**12))
def smkey(ev, a, i): return ev.do_load(a[1], 4, 'i32', None, i)
@model(SMALLMAP + r'(unordered_)?map\((unsigned long, .*)?\)$')
def smctor(ev, dem, a, i):
    for g, t in each(ev, a[0]):
        for b in (mapbase(t), fn('mapin', *absobj(t))): ev.setregion(b, vf.LoopS(vf.Init(leaf('zero')), [], ('z',)), g)
    return UNDEF
@model(SMALLMAP + r'operator\[\]\(')
def smidx(ev, dem, a, i):
    key = smkey(ev, a, i)
    ev.uid_()
    r = apply(lambda t, k: smcells(t if isinstance(t, P) else ptr(t, ZERO), k)[0], ('smap', ev.uid), a[0], key)
    q = apply(lambda t, k: smcells(t if isinstance(t, P) else ptr(t, ZERO), k)[1], ('smapin', ev.uid), a[0], key)
    was = ev.do_load(q, 4, 'i32', None, i)     # naming a key that is present changes nothing
    new = vand(ev.guard, vnot(asbool(vcmp('ne', was, ZERO))))
    ev.store(q, const(1), 4, i.get('loc') or [], new)
    return r
@model(SMALLMAP + r'(at|find)\(')
def smat(ev, dem, a, i):
    key = smkey(ev, a, i); ev.uid_()
    r = apply(lambda t, k: smcells(t if isinstance(t, P) else ptr(t, ZERO), k)[0], ('smap', ev.uid), a[0], key)
    q = apply(lambda t, k: smcells(t if isinstance(t, P) else ptr(t, ZERO), k)[1], ('smapin', ev.uid), a[0], key)
    present = vcmp('ne', ev.do_load(q, 4, 'i32', None, i), ZERO)
    if '::at(' in dem:
        save = ev.guard; ev.guard = vand(save, vnot(asbool(present))); ev.throw('out_of_range', i); ev.guard = vand(save, asbool(present)); return r
    return ite(asbool(present), vsub(r, const(MAPNODE(dem))), ZERO)
def MAPNODE(dem): return 8 if 'unordered' in dem else 32
@model(SMALLMAP + r'(count|contains)\(')
def smcount(ev, dem, a, i):
    key = smkey(ev, a, i); ev.uid_()
    q = apply(lambda t, k: smcells(t if isinstance(t, P) else ptr(t, ZERO), k)[1], ('smapin', ev.uid), a[0], key)
    x = vcmp('ne', ev.do_load(q, 4, 'i32', None, i), ZERO)
    return x if 'contains' in dem else ite(asbool(x), const(1), ZERO)
@model(SMALLMAP + r'(~(unordered_)?map|reserve)\(')
def smdtor(ev, dem, a, i): return UNDEF
# ---- std::set as one abstract value
@model(r'^std::set<.*>::(set|operator=)\(std::set<.*> ?(const&|&&)\)$')
def setcopy(ev, dem, a, i):
    v = ev.do_load(apply(lambda t: ptr(fn('setv', t.base), t.off) if isinstance(t, P) else t, 'setv', a[1]), 8, 'x', None, i)
    ev.store(apply(lambda t: ptr(fn('setv', t.base), t.off) if isinstance(t, P) else t, 'setv', a[0]), v, 8, i.get('loc') or [])
    return a[0]
@model(r'^std::set<.*>::~?set\(\)$')
def setctor(ev, dem, a, i):
    if '~' not in dem: ev.store(apply(lambda t: ptr(fn('setv', t.base), t.off) if isinstance(t, P) else t, 'setv', a[0]), ZERO, 8, i.get('loc') or [])
    return UNDEF
@model(r'^realloc$')
def mrealloc(ev, dem, a, i):
    """same object, its content up to the old size kept (failure is not modelled); the size asked for is recorded"""
    ev.store(apply(lambda t: ptr(fn('cap', t.base if isinstance(t, P) else t), ZERO), 'cap', a[0]), a[1], 8, i.get('loc') or [])
    return a[0]

# ---- NonLinearExpression as an abstract scalar (sum of lin/mu[idx] terms plus a constant)
def nlecell(t): return fn('nle', t.base), t.off
def nle_upd(ev, addr, f, i):
    for g, t in each(ev, addr):
        b, o = nlecell(t)
        ev.mem[b] = vf.Upd(ev.state(b), o, f(ev.load(ev.state(b), o, 8)), g, i.get('loc') or [], 8)
def nle_get(ev, addr):
    def f(t):
        b, o = nlecell(t if isinstance(t, P) else ptr(t, ZERO)); return ev.load(ev.state(b), o, 8)
    return apply(f, ('nle', ev.uid_()), addr)
def nle_term(ev, addr, i):
    lin = ev.do_load(addr, 8, 'double', None, i); idx = ev.do_load(vadd(addr, const(8)), 4, 'i32', None, i)
    return vmul(lin, vfn('invmu', idx))
@model(r'^nikfemm::NonLinearExpression::operator([+\-*]?=)\((.*)\)$')
def nleop(ev, dem, a, i):
    m = re.search(r'operator([+\-*]?=)\((.*)\)$', dem)
    op, ty = m.group(1), m.group(2)
    if 'double' in ty: x = ev.do_load(a[1], 8, 'double', None, i)
    elif 'Term' in ty: x = nle_term(ev, a[1], i)
    else: x = nle_get(ev, a[1])
    nle_upd(ev, a[0], {'=': lambda v: x, '+=': lambda v: vadd(v, x), '-=': lambda v: vsub(v, x), '*=': lambda v: vmul(v, x)}[op], i)
    return a[0]
@model(r'^nikfemm::NonLinearExpression::operator\*\(double const&\)')
def nlemul(ev, dem, a, i):
    x = vmul(nle_get(ev, a[1]), ev.do_load(a[2], 8, 'double', None, i))
    nle_upd(ev, a[0], lambda v: x, i); return UNDEF
@model(r'^nikfemm::NonLinearExpression::NonLinearExpression\(\)')
def nlector(ev, dem, a, i): nle_upd(ev, a[0], lambda v: ZERO, i); return UNDEF
@model(r'^nikfemm::NonLinearExpression::NonLinearExpression\(nikfemm::NonLinearExpression')
def nlecopy(ev, dem, a, i):
    x = nle_get(ev, a[1]); nle_upd(ev, a[0], lambda v: x, i); return UNDEF
@model(r'^nikfemm::NonLinearExpression::~NonLinearExpression')
def nledtor(ev, dem, a, i): return UNDEF

def copyobj(self, d, s, size, i):
    self.memcpy(d, s, const(size), i)
vf.Ev.copyobj = copyobj
def symvec(self, d, st, g):
    self.unknown.append(('constructing nested vector', None))
vf.Ev.symvec = symvec

@model(r'^nv::size\(')
def nvsize(ev, dem, a, i):
    n = leaf('N', str(show(a[0]))); NONNEG.add(n)
    for g, t in each(ev, a[1]): ev.mem.setdefault(fn('vb', t.base), vf.Init(fn('vb', t.base))); ev.initcells[(fn('vb', t.base), t.off)] = scale(n, a[2].args[0])
    return UNDEF
@model(r'^nv::sizeis\(')
def nvsizeis(ev, dem, a, i):
    for g, t in each(ev, a[0]):
        ev.mem.setdefault(fn('vb', t.base), vf.Init(fn('vb', t.base))); ev.initcells[(fn('vb', t.base), t.off)] = vmul(a[1], a[2])
    return UNDEF
@model(r'^nv::num\(')
def nvnum(ev, dem, a, i): return leaf('num', show(a[0]))

@model(r'^void std::vector<.*>::_M_range_initialize<(__gnu_cxx::__normal_iterator<)?.*\*.*>\(')
def vrange(ev, dem, a, i):
    """vector(first, last) over a contiguous range of plain elements"""
    nb = vsub(a[2], a[1])
    if isinstance(nb, P) or not isinstance(a[1], P): raise vf.Unsupported('range constructor')
    src = a[1]
    for g, t in each(ev, a[0]):
        dd = ev.vecptr(t.base, t.off)
        if dd.off is not ZERO: ev.unknown.append(('range constructor of a nested vector', i.get('loc'))); continue
        ev.setvec(t.base, t.off, nb, i.get('loc') or [], g)
        ev.setregion(dd.base, vf.Alias(ev.state(src.base), src.off if src.off is not ZERO else None), g)
    return UNDEF
@model(r'std::__copy_move(_backward)?<.*>::__copy_m<')
def copym(ev, dem, a, i):
    """trivially copyable range copy"""
    n = vsub(a[1], a[0])
    back = '_backward' in dem
    dst = vsub(a[2], n) if back else a[2]
    ev.memcpy(dst, a[0], n, i)
    return a[2] if back and False else (vsub(a[2], n) if back else vadd(a[2], n))

@model(r'std::vector<std::pair<unsigned long, \w+>, .*>::vector<std::__detail::_Node_(const_)?iterator<')
def vfrommap(ev, dem, a, i):
    """vector of the (key, value) pairs of a map, in the order of the map's iteration"""
    first, last = a[1], a[2]
    if not vf.ismapnode(first) or first.off is not ZERO or last is not ZERO: ev.unknown.append((dem[:60], i.get('loc'))); return UNDEF
    n = fn('mapsize', *mapname(first.base)); r = bv(n, sum(1 for x in ev.trips if x is n)); D = dom(r, n)
    mb = fn('map', *first.base.args[1:3]); k = fn('mapkey', *mapname(first.base), r)
    v = ev.load(ev.state(mb), scale(k, 2**12), 8)
    loc = i.get('loc') or []
    effs = [vf.Eff(scale(r, 16), k, [D], loc, 8), vf.Eff(add(scale(r, 16), const(8)), flat(v), [D], loc, 8)]
    for g, t in each(ev, a[0]): vec_set(ev, t, n, 16, vf.LoopS(vf.Init(leaf('zero')), effs, ('z',)), g, i)
    return UNDEF

def comparator(ev, dem):
    """canonical meaning of the ordering function of a std::sort call: its result as a function of the two elements"""
    m = re.search(r'std::(?:stable_)?sort<(.*)>\(', dem)
    if not m: return leaf('cmp', 'less')
    d = 0; last = ''
    for ch in m.group(1):
        if ch in '<({': d += 1
        if ch in '>)}': d -= 1
        if ch == ',' and d == 0: last = ''
        else: last += ch
    last = last.strip()
    if ',' not in m.group(1) or '__normal_iterator' in last.split('<')[0]: return leaf('cmp', 'less')
    for n, f in ev.mod['functions'].items():
        x = f['dem'].find(last + '::operator()')
        if x >= 0 and len(f['args']) == 3:
            e2 = vf.Ev(ev.mod, ev.models, opts=ev.opts)
            r = e2.run(n); vf.Ev.current = ev
            return fn('cmp', flat(r.ret))
    return leaf('cmp', last, unk=True)
@model(r'^(void )?std::(stable_)?sort<')
def stdsort(ev, dem, a, i):
    c = comparator(ev, dem)
    if not isinstance(a[0], P): ev.unknown.append((dem[:60], i.get('loc'))); return UNDEF
    ev.setregion(a[0].base, vf.Whole(fn('sorted', ev.regT(ev.state(a[0].base)), a[0].off, flat(vsub(a[1], a[0])), c)))
    return UNDEF

@model(r'^std::_Rb_tree_(increment|decrement)\(')
def rbnext(ev, dem, a, i):
    me, inv = ('tnext', 'tprev') if 'increment' in dem else ('tprev', 'tnext')
    def f(x):
        if isinstance(x, P):
            if x.off is ZERO and isinstance(x.base, T) and x.base.op == 'fn' and x.base.args[0] == inv:
                y = x.base; return ptr(y.args[1], y.args[2])
            return ptr(fn(me, x.base, x.off), ZERO)
        return ptr(fn(me, asT(x), ZERO), ZERO)
    ev.uid += 1
    return apply(f, ('rb', ev.uid), a[0])

# ---- C strings built by the printf family: the text is a list of literal pieces and formatted values
def cstr(ev, p):
    """the constant string p points to"""
    if isinstance(p, P) and p.off is ZERO and p.base.op == 'leaf' and p.base.args[0] == 'glob':
        g = ev.mod['globals'].get(p.base.args[1], {})
        if g.get('const') and 'str' in g: return g['str']
        if g.get('const') and re.match(r'^\[1 x i8\]$', g.get('ty', '')): return ''
    return None
CONVLEN = dict(d=11, i=11, u=10, x=8, c=1, ld=20, li=20, lu=20, zu=20, lld=20, llu=20)
def fmtbound(spec, arg):
    f = spec[-1]; m = re.match(r'^[-+ #0]*(\d*)(?:\.(\d+))?', spec)
    w = int(m.group(1) or 0); pr = int(m.group(2)) if m.group(2) is not None else 6
    if f in 'fF': n = 311 + pr
    elif f in 'eEgGaA': n = 10 + max(pr, 17)
    elif f == 's': n = None
    else: n = CONVLEN.get(re.sub(r'^[-+ #0\d.]*', '', spec), 24)
    return None if n is None else max(n, w)
def sformat(ev, dem, a, i, buf, size, fmt, rest):
    f = cstr(ev, fmt)
    loc = i.get('loc') or []
    if f is None: tok = fn('text', snap1(ev, fmt), *[snap1(ev, x) for x in rest]); need = None
    else:
        ps = re.findall(r'%%|%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t|L)?[a-zA-Z]|[^%]+', f)
        k = [0]; 
        if sum(1 for x in ps if x[0] == '%' and x != '%%') > len(rest): ev.unknown.append(('too few arguments for ' + f, loc)); return UNDEF
        vals = list(rest); 
        def build_(ps, vals, acc, need):
            acc = list(acc); vals = list(vals)
            while ps:
                x = ps[0]; ps = ps[1:]
                if x == '%%': x = '%'
                if x[0] != '%' or x == '%':
                    if acc and isinstance(acc[-1], str): acc[-1] += x
                    else: acc.append(x)
                    need += len(x); continue
                v = vals.pop(0)
                if x[-1] == 's':
                    if isinstance(v, N):
                        return apply(lambda w, ps=tuple(ps), vals=tuple(vals), acc=tuple(acc), need=need, x=x: build_(('%s',) + ps, (w,) + vals, acc, need), ('sfmt', ev.uid_()), v)
                    s = cstr(ev, v)
                    if s is not None:
                        if acc and isinstance(acc[-1], str): acc[-1] += s
                        else: acc.append(s)
                        need += len(s); continue
                    acc.append(fn('s', asT(v) if not isinstance(v, T) else v)); need += 64; continue
                sp = re.sub(r'(hh|h|ll|l|z|j|t|L)(?=.$)', '', x[1:])
                need += fmtbound(x[1:], v) or 64
                acc.append(fn('fmt', sp, flat(v)))
            t = fn('text', *[y for y in acc if y != ''])
            if size is not None and size.op == 'c' and size.args[0] < need + 1: t = fn('truncated', size, t)
            return t
        tok = build_(tuple(ps), vals, [], 0)
    def tb(t):
        if not isinstance(t, P): return t
        b = fn('cap', fn('txt', t.base))
        if t.base in ev.localbases: ev.localbases.add(b)
        return ptr(b, t.off)
    ev.store(apply(tb, ('txt', ev.uid_()), buf), tok, 8, loc)
    return fn('printed', flat(tok))
def snap1(ev, x): return ev.snapshot(x) if isinstance(x, (P, N)) else x
@model(r'^snprintf$')
def msnprintf(ev, dem, a, i): return sformat(ev, dem, a, i, a[0], a[1] if isinstance(a[1], T) else None, a[2], a[3:])
@model(r'^sprintf$')
def msprintf(ev, dem, a, i): return sformat(ev, dem, a, i, a[0], None, a[1], a[2:])
@model(r'^nv::text\(')
def mtext(ev, dem, a, i):
    def f(t):
        if not isinstance(t, P) or t.base.op == 'leaf' and t.base.args[0] == 'ignored': ev.unknown.append(('text of an unmodelled string', i.get('loc'))); return leaf('unktext', ev.uid_(), unk=True)
        s = cstr(ev, t)
        if s is not None: return fn('text', s)
        return ev.load(ev.state(fn('cap', fn('txt', t.base))), t.off, 8)
    return apply(f, ('text', ev.uid_()), a[0])
@model(r'^nv::cap\(')
def mcap(ev, dem, a, i):
    def f(t):
        if not isinstance(t, P): return ZERO
        if t.base.op == 'fn' and t.base.args[0] == 'vd' and t.off is ZERO: return ev.vecbytes(t.base.args[1], t.base.args[2])
        return vsub(ev.load(ev.state(fn('cap', t.base)), ZERO, 8), t.off)
    return apply(f, ('capof', ev.uid_()), a[0])

@model(r'^nv::set\(')
def mset(ev, dem, a, i):
    """the value itself where it was ever written"""
    bad = leaf('unwritten')
    def f(t):
        if t is UNDEF: return bad
        if isinstance(t, T) and not isinstance(t, P) and any(x.op == 'fn' and x.args[0] == 'ld' and root_(x.args[1]) in ev.localbases for x in t.lin if x is not None): return bad
        return t
    return apply(f, ('set', ev.uid_()), a[0])
def root_(b):
    while b.op == 'fn' and len(b.args) > 1 and isinstance(b.args[1], T): b = b.args[1]
    return b
