"""Typestate analysis of the functions the Python interpreter calls (python/nikfemm.cpp).

Every function named by a method table or a type object is analysed on LLVM IR with the file's own helpers inlined and the
interpreter's API left as calls.  The abstract state of a path holds the facts established by its branches (kinds of
objects, sizes, comparisons), the references the function owns, whether a Python exception is pending and which numeric
conversions were not yet checked.  States are propagated over the control-flow graph (exceptional edges included) to a
fixed point; nothing is executed."""
import re
import build, lint

IMMORTAL = re.compile(r'^_Py_(None|True|False|NotImplemented|Ellipsis)Struct$|^_Py_EllipsisObject$')
NEWREF = re.compile(r'^(Py(List_New|Tuple_New|Tuple_Pack|Dict_New|Set_New|(Long|Float|Unicode|Bool|Bytes|Capsule)_\w*(From|New)\w*|PyBool_FromLong|Object_Call\w*|Object_Str|Object_Repr|Object_GetAttr\w*|Object_GetItem|Module_Create2|Number_(?!Check)\w+|Sequence_(List|Tuple|Fast|GetItem)|Type_GenericNew|Type_GenericAlloc|Object_Init|Object_New|Object_GetIter|Iter_Next|List_AsTuple|List_GetSlice|Err_NewException)|Py_BuildValue|_Py_BuildValue_SizeT|_PyObject_New|PyObject_Vectorcall\w*|PyBool_FromLong|Py_NewRef|_Py_NewRef|PyEval_EvalCode)$')
STEAL = {'PyList_SetItem': 2, 'PyTuple_SetItem': 2, 'PyList_SET_ITEM': 2, 'PyTuple_SET_ITEM': 2}
SIZE = {'PyTuple_Size': 'tuple', 'PyTuple_GET_SIZE': 'tuple', 'PyList_Size': 'list', 'PyList_GET_SIZE': 'list', 'Py_SIZE': None, 'PyObject_Size': None, 'PySequence_Size': None, 'PyObject_Length': None}
ITEM = {'PyTuple_GetItem': 'tuple', 'PyList_GetItem': 'list'}
CONV = {'PyFloat_AsDouble': ('float',), 'PyLong_AsDouble': (), 'PyLong_AsUnsignedLong': (), 'PyLong_AsLong': (), 'PyLong_AsLongLong': (), 'PyLong_AsUnsignedLongLong': (), 'PyLong_AsSize_t': (), 'PyLong_AsSsize_t': (), 'PyNumber_AsSsize_t': ()}
INTCONV = {k for k in CONV if k.startswith(('PyLong', 'PyNumber')) and k != 'PyLong_AsDouble'}
NEEDKIND = {'PyLong_AsDouble': ('int', 'bool'), 'PyFloat_AsDouble': ('float', 'int', 'bool'), 'PyFloat_AS_DOUBLE': ('float',)}
for k_ in INTCONV: NEEDKIND[k_] = ('int', 'bool')
TYPES = {'PyFloat_Type': 'float', 'PyLong_Type': 'int', 'PyList_Type': 'list', 'PyTuple_Type': 'tuple', 'PyBool_Type': 'bool', 'PyUnicode_Type': 'str', 'PyDict_Type': 'dict'}
FLAGS = {1 << 24: 'int', 1 << 25: 'list', 1 << 26: 'tuple', 1 << 27: 'bytes', 1 << 28: 'str', 1 << 29: 'dict'}
NEUTRAL = re.compile(r'^(printf|puts|putchar|fprintf|snprintf|memcpy|memset|memmove|free|malloc|strcmp|strlen)$|^llvm\.|^Py(Err_(SetString|Format|SetNone|SetObject|Clear|Print|NoMemory)|Object_TypeCheck|Type_\w+|Bool_Check|Arg_\w+|Module_AddObject\w*|Module_AddType|List_Append|Object_IsTrue|Object_IsInstance|Mem_\w+|GIL\w+|Eval_\w+Thread|UnicodeAs\w+|Callable_Check|Number_Check|Sequence_Check|Object_Free|Object_GC_\w+)$|^Py_(INCREF|DECREF|XINCREF|XDECREF|TYPE|SIZE|REFCNT|IS_TYPE|SET_TYPE|SET_SIZE|Is\w*)$|^_Py_Dealloc$')

class Bound(Exception): pass

class State:
    __slots__ = ('env', 'facts', 'own', 'pend', 'unch', 'mem', 'oom', 'exc')
    def __init__(s, env=(), facts=frozenset(), own=(), pend=0, unch=frozenset(), mem=(), oom=False, exc=None):
        s.env = dict(env); s.facts = facts; s.own = dict(own); s.pend = pend; s.unch = unch; s.mem = dict(mem); s.oom = oom; s.exc = exc
    def copy(s): return State(s.env, s.facts, s.own, s.pend, s.unch, s.mem, s.oom, s.exc)
    def key(s): return (frozenset(s.env.items()), s.facts, frozenset(s.own.items()), s.pend, s.unch, frozenset(s.mem.items()), s.oom, s.exc)

def ids(k, out):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'v': out.add(k[1])
        else:
            for x in k: ids(x, out)
    return out
def mentions(k, dead): return bool(ids(k, set()) & dead)
def showk(k, d=0):
    if not isinstance(k, tuple) or not k: return str(k)
    t = k[0]
    if d > 4: return '…'
    if t == 'c': return str(k[1])
    if t == 'item': return '%s[%s]' % (showk(k[1], d + 1), showk(k[2], d + 1))
    if t == 'size': return 'len(%s)' % showk(k[1], d + 1)
    if t == 'vsize': return 'size of %s' % showk(k[1], d + 1)
    if t == 'arg': return ('self', 'args', 'kwds')[k[1]] if k[1] < 3 else 'argument %d' % k[1]
    if t == 'v': return 'value %s' % k[1]
    if t == 'ld': return '*(%s)' % showk(k[1], d + 1)
    if t == 'gep': return '%s+%s%s' % (showk(k[1], d + 1), k[2], '+…' if k[3] else '')
    if t == 'g': return k[1]
    return '%s(%s)' % (t, ', '.join(showk(x, d + 1) for x in k[1:]))

class Analysis:
    def __init__(self, mod, f, kind, report, mayraise, invariant=None, usertypes=()):
        self.mod = mod; self.f = f; self.kind = kind; self.report = report; self.mayraise = mayraise; self.invariant = invariant; self.usertypes = usertypes
        self.ins = {i['id']: i for b in f['blocks'] for i in b['ins']}; self.blk = {i['id']: b['id'] for b in f['blocks'] for i in b['ins']}
        self.blocks = {b['id']: b for b in f['blocks']}; self.args = {a['id']: n for n, a in enumerate(f['args'])}
        self.loops = {l['header']: set(l['blocks']) for l in f['loops']}
        self.loopids = {h: {i['id'] for b in bs for i in self.blocks[b]['ins']} for h, bs in self.loops.items()}
        self.rets = []; self.calls = set(); self.unknown = set(); self.nstates = 0; self.okfield = True; self.obl = set()
        self.alloca = {i['id'] for i in self.ins.values() if i['op'] == 'alloca'}
        self.live()
    def live(self):
        """blocks from which the value of a phi may still be read"""
        users = {}
        def roots(op, seen):
            if not isinstance(op, list) or not op or op[0] != 'v' or op[1] in seen: return
            seen.add(op[1]); i = self.ins.get(op[1])
            if i is None or i['op'] == 'phi': return
            for o in self.operands(i): roots(o, seen)
        succ = {}
        for b in self.f['blocks']:
            t = b['ins'][-1]; succ[b['id']] = list(t.get('succ') or []) + [c[1] for c in t.get('cases') or []]
            seen = set()
            for i in b['ins']:
                if i['op'] == 'phi': continue
                for o in self.operands(i): roots(o, seen)
            for x in seen: users.setdefault(x, set()).add(b['id'])
            for i in b['ins']:
                if i['op'] == 'phi':
                    for p, o in i['ops']:
                        s2 = set(); roots(o, s2)
                        for x in s2: users.setdefault(x, set()).add(p)
        pred = {}
        for b, ss in succ.items():
            for x in ss: pred.setdefault(x, set()).add(b)
        self.livein = {}
        for x, bs in users.items():
            seen = set(bs); w = list(bs)
            while w:
                b = w.pop()
                if self.blk.get(x) == b: continue
                for p in pred.get(b, ()):
                    if p not in seen: seen.add(p); w.append(p)
            self.livein[x] = seen
    @staticmethod
    def operands(i):
        out = [o for o in i['ops'] if isinstance(o, list)]
        if i.get('gep') and 'base' in i['gep']: out += [i['gep']['base']] + [v[0] for v in i['gep']['var']]
        if i.get('icallee'): out.append(i['icallee'])
        return out
    # ---- canonical keys
    def key(self, st, op, d=0):
        t = op[0]
        if t == 'i': return ('c', int(op[1]))
        if t == 'f': return ('f', float.fromhex(op[1]))
        if t == 'null': return ('null',)
        if t in ('undef', 'zero'): return ('undef',)
        if t == 'g': return ('g', op[1])
        if t == 'cgep':
            g = op[1]
            if 'base' in g: return self.gep(st, g, d)
            return ('?', str(op))
        if t == 'ce': return self.key(st, op[2], d + 1) if len(op) > 2 else ('?', str(op))
        if t == 'v':
            x = op[1]
            if x in st.env: return st.env[x]
            if x in self.args: return ('arg', self.args[x])
            i = self.ins.get(x)
            if i is None or d > 40: return ('v', x)
            o = i['op']
            if o in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'): return self.key(st, i['ops'][0], d + 1)
            if o == 'getelementptr' and 'base' in i['gep']: return self.gep(st, i['gep'], d)
            if o in ('add', 'sub', 'mul', 'or', 'and', 'shl', 'sitofp', 'uitofp'): return (o,) + tuple(self.key(st, y, d + 1) for y in i['ops'])
            if o == 'call' or o == 'invoke':
                n = self.name(i); a = i['ops']
                if n in ITEM: return ('item', self.key(st, a[0], d + 1), self.key(st, a[1], d + 1))
                if n in SIZE: return ('size', self.key(st, a[0], d + 1))
                if n == 'Py_TYPE': return ('type', self.key(st, a[0], d + 1))
                if re.match(r'^std::vector<.*>::size$', n): return ('vsize', self.key(st, a[0], d + 1))
                if re.match(r'^std::vector<.*>::(begin|end|c?r?begin|c?r?end|data|front|back)$', n): return ('vptr', n[-8:], self.key(st, a[0], d + 1))
                if re.match(r'^std::vector<.*>::(operator\[\]|at)$', n): return ('vel', self.key(st, a[0], d + 1), self.key(st, a[1], d + 1))
            if o == 'load': return self.ldkey(st, self.key(st, i['ops'][0], d + 1))
            return ('v', x)
        return ('?', str(op))
    def ldkey(self, st, a):
        if a in st.mem: return st.mem[a]
        if a[0] == 'gep' and len(a[3]) == 1 and a[3][0][1] == 8:
            if a[2] == 24 and ('is', a[1], 'tuple') in st.facts: return ('item', a[1], a[3][0][0])
            if a[2] == 0 and a[1][0] == 'ld' and a[1][1][0] == 'gep' and a[1][1][2] == 24 and not a[1][1][3] and ('is', a[1][1][1], 'list') in st.facts: return ('item', a[1][1][1], a[3][0][0])
        if a[0] == 'gep' and a[2] >= 24 and not a[3] and ('is', a[1], 'tuple') in st.facts: return ('item', a[1], ('c', (a[2] - 24) // 8))
        return ('ld', a)
    def gep(self, st, g, d):
        b = self.key(st, g['base'], d + 1); off = g['off']; var = []
        for v, s in g['var']:
            k = self.key(st, v, d + 1)
            if k[0] == 'c': off += k[1] * s
            else: var.append((k, s))
        if b[0] == 'gep': off += b[2]; var = list(b[3]) + var; b = b[1]
        if off == 0 and not var: return b
        return ('gep', b, off, tuple(var))
    def name(self, i):
        c = i.get('callee')
        if not c: return ''
        n = self.mod['dem'].get(c, c); p = n.find('(')
        # strip arguments: the last top-level parenthesis group
        if p >= 0:
            depth = 0; cut = None
            for q in range(len(n) - 1, -1, -1):
                if n[q] == ')': depth += 1
                elif n[q] == '(':
                    depth -= 1
                    if depth == 0: cut = q; break
            n = n[:cut] if cut else n
        n = re.sub(r'\[abi:\w+\]', '', n)
        m = re.match(r'^(?:[\w:<>&\*, ]+ )?((?:std::vector)<.*>::[\w\[\]~]+)$', n)
        return m.group(1) if m else n.strip()
    # ---- facts
    def fact(self, st, *fs):
        st.facts = st.facts | frozenset(fs)
    def lb(self, st, S):
        best = 0
        for f in st.facts:
            if f[0] != 'cmp': continue
            _, op, a, b = f
            if op == 'eq' and a == S and b[0] == 'c': best = max(best, b[1])
            if op == 'eq' and b == S and a[0] == 'c': best = max(best, a[1])
            if op in ('ule', 'sle') and b == S and a[0] == 'c': best = max(best, a[1])
            if op in ('ult', 'slt') and b == S and a[0] == 'c': best = max(best, a[1] + 1)
        return best
    def same(self, st, S):
        out = {S}; more = True
        while more:
            more = False
            for f in st.facts:
                if f[0] == 'cmp' and f[1] == 'eq':
                    for x, y in ((f[2], f[3]), (f[3], f[2])):
                        if x in out and y not in out: out.add(y); more = True
        return out
    def nonneg(self, st, k):
        if k[0] == 'c': return k[1] >= 0
        if k[0] in ('size', 'vsize'): return True
        if k[0] == 'v':
            i = self.ins.get(k[1])
            if i and i['op'] == 'phi':
                for b, o in i['ops']:
                    if o[0] == 'i':
                        if int(o[1]) < 0: return False
                    elif o[0] == 'v':
                        j = self.ins.get(o[1])
                        if not (j and j['op'] == 'add' and j['ops'][0] == ['v', k[1]] and j['ops'][1][0] == 'i' and int(j['ops'][1][1]) > 0): return False
                    else: return False
                return True
        return any(f[0] == 'cmp' and f[1] in ('sle', 'slt') and f[3] == k and f[2][0] == 'c' and f[2][1] >= (0 if f[1] == 'sle' else -1) for f in st.facts)
    def below(self, st, i, Ss, unsigned_only=False):
        """i < S for some S of the set, on this path"""
        lo = max(self.lb(st, S) for S in Ss)
        for S in Ss:
            if S[0] == 'c': lo = max(lo, S[1])
        if i[0] == 'c': return 0 <= i[1] < lo
        for f in st.facts:
            if f[0] != 'cmp' or f[2] != i: continue
            _, op, a, b = f
            if op == 'ult' or op == 'slt' and self.nonneg(st, i):
                if b in Ss: return True
                if b[0] == 'c' and b[1] <= lo: return True
            if (op == 'ule' or op == 'sle' and self.nonneg(st, i)):
                if b[0] == 'c' and b[1] < lo: return True
                if b[0] == 'sub' and b[1] in Ss and b[2][0] == 'c' and b[2][1] >= 1: return True
                if b[0] == 'add' and b[1] in Ss and b[2][0] == 'c' and b[2][1] <= -1: return True
        return False
    def inb(self, st, c, i):
        if self.below(st, i, self.same(st, ('size', c))): return True
        n = self.small(st, c)
        return bool(n) and all(self.inb(st, ('item', c[1], ('c', j)), i) for j in range(n))
    def small(self, st, k):
        """k is an item at an index that runs below a small constant"""
        if k[0] == 'item' and k[2][0] == 'v' and self.nonneg(st, k[2]):
            for n in range(1, 9):
                if self.below(st, k[2], {('c', n)}): return n
    def nonnull(self, st, k):
        if ('nn', k) in st.facts or k[0] in ('g', 'arg', 'vel', 'vptr') : return True
        if k[0] == 'gep': return self.nonnull(st, k[1])
        if k[0] == 'v' and k[1] in self.alloca: return True
        if k[0] == 'v':
            i = self.ins.get(k[1])
            if i and i['op'] in ('call', 'invoke'): return True      # allocation is assumed to succeed where it is not tested
        if k[0] == 'item': return self.inb(st, k[1], k[2])
        if k[0] == 'ld' and k[1][0] == 'gep' and k[1][1] == ('arg', 0) and self.kind in ('method', 'dealloc'): return bool(self.invariant)
        return False
    def raised(self, st, a):
        """the built-in exception a call raises, or None"""
        m = re.search(r"'(PyExc_\w+)'", str(self.key(st, a[0]))) if a else None
        return m and m.group(1)
    def iskind(self, st, k, *kinds):
        if any(('is', k, t) in st.facts for t in kinds): return True
        if k in (('g', '_Py_TrueStruct'), ('g', '_Py_FalseStruct')) and 'bool' in kinds: return True
        n = self.small(st, k)
        return bool(n) and all(self.iskind(st, ('item', k[1], ('c', j)), *kinds) for j in range(n))      # every place the index can have was tested
    # ---- branch refinement: list of states in which the value is true / false
    def refine(self, st, op, truth, d=0):
        if d > 30: return [st]
        if op[0] == 'i': return [st] if (int(op[1]) != 0) == truth else []
        if op[0] == 'null': return [] if truth else [st]
        if op[0] != 'v': return [st]
        x = op[1]
        if x in st.env:
            k = st.env[x]
            if k[0] == 'c': return [st] if (k[1] != 0) == truth else []
            if k[0] == 'null': return [] if truth else [st]
            if k[0] == 'v' and k[1] != x: return self.refine(st, ['v', k[1]], truth, d + 1)
            return [st]
        i = self.ins.get(x)
        if i is None: return [st]
        o = i['op']
        if o in ('zext', 'sext', 'trunc', 'freeze'): return self.refine(st, i['ops'][0], truth, d + 1)
        if o == 'xor' and i['ops'][1][0] == 'i' and int(i['ops'][1][1]) in (1, -1): return self.refine(st, i['ops'][0], not truth, d + 1)
        if o == 'and' or o == 'or':
            conj = (o == 'and') == truth
            if conj: return [t for s in self.refine(st, i['ops'][0], truth, d + 1) for t in self.refine(s, i['ops'][1], truth, d + 1)]
            return self.refine(st.copy(), i['ops'][0], truth, d + 1) + [t for s in self.refine(st.copy(), i['ops'][0], not truth, d + 1) for t in self.refine(s, i['ops'][1], truth, d + 1)]
        if o == 'select':
            c, a, b = i['ops']
            return [t for s in self.refine(st.copy(), c, True, d + 1) for t in self.refine(s, a, truth, d + 1)] + [t for s in self.refine(st.copy(), c, False, d + 1) for t in self.refine(s, b, truth, d + 1)]
        if o in ('icmp', 'fcmp'):
            p = i['pred']; a, b = i['ops']
            ka, kb = self.key(st, a), self.key(st, b)
            if ka[0] in ('c', 'null') and kb[0] not in ('c', 'null'):
                a, b, ka, kb = b, a, kb, ka
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if ka[0] == 'c' and kb[0] == 'c':
                x_, y_ = ka[1], kb[1]; U = lambda z: z & (2**64 - 1)
                v = dict(eq=x_ == y_, ne=x_ != y_, slt=x_ < y_, sle=x_ <= y_, sgt=x_ > y_, sge=x_ >= y_, ult=U(x_) < U(y_), ule=U(x_) <= U(y_), ugt=U(x_) > U(y_), uge=U(x_) >= U(y_)).get(p)
                if v is not None: return [st] if v == truth else []
            if ka[0] == 'null' and kb[0] == 'null' and p in ('eq', 'ne'): return [st] if (p == 'eq') == truth else []
            if p in ('eq', 'ne') and kb == ('null',):
                return self.nulltest(st, ka, a, (p == 'eq') == truth)
            if p in ('eq', 'ne') and kb == ('c', 0) and a[0] == 'v' and a[1] in self.ins and self.boolish(a): return self.refine(st, a, (p == 'ne') == truth, d + 1)
            if o == 'icmp': return self.addcmp(st, p, ka, kb, truth)
            # floating comparison with the error value of a conversion
            if p in ('oeq', 'ueq', 'une', 'one') and kb == ('f', -1.0):
                eq = (p in ('oeq', 'ueq')) == truth
                if not eq: self.checked(st, ka)
            return [st]
        if o in ('call', 'invoke'):
            n = self.name(i); a = i['ops']
            if n == 'PyObject_TypeCheck' or n == 'Py_IS_TYPE':
                t = self.key(st, a[1]); t = TYPES.get(t[1], t[1]) if t[0] == 'g' else None
                k = self.key(st, a[0])
                if truth and t: self.fact(st, ('is', k, t), ('nn', k))
                elif not truth and t and ('is', k, t) in st.facts: return []
                return [st]
            if n == 'PyType_HasFeature':
                t = self.key(st, a[0]); fl = self.key(st, a[1])
                if t[0] == 'type' and fl[0] == 'c' and fl[1] in FLAGS:
                    if truth: self.fact(st, ('is', t[1], FLAGS[fl[1]]), ('nn', t[1]))
                    elif ('is', t[1], FLAGS[fl[1]]) in st.facts: return []
                return [st]
            if n == 'PyErr_Occurred':
                if truth:
                    if st.pend == 0: return []
                    st.pend = 1
                else:
                    if st.pend == 1: return []
                    st.pend = 0; st.unch = frozenset()
                return [st]
            if n in SIZE and not truth: self.fact(st, ('cmp', 'eq', self.key(st, op), ('c', 0))); return [st]
            if n in SIZE and truth: self.fact(st, ('cmp', 'sle', ('c', 1), self.key(st, op))); return [st]
            if i['ty'] == 'ptr': return self.nulltest(st, self.key(st, op), op, not truth)
            return [st]
        return [st]
    def boolish(self, a):
        i = self.ins[a[1]]
        if i['op'] in ('zext', 'sext', 'trunc', 'freeze'): return i['ops'][0][0] == 'v' and i['ops'][0][1] in self.ins and self.boolish(i['ops'][0])
        if i['op'] in ('call', 'invoke'): return self.name(i) in ('PyObject_TypeCheck', 'Py_IS_TYPE', 'PyType_HasFeature')
        return i['op'] in ('icmp', 'fcmp', 'and', 'or', 'xor', 'select') and (i['ty'] == 'i1' or i['op'] in ('and', 'or', 'select'))
    def nulltest(self, st, k, op, isnull):
        if k == ('null',): return [st] if isnull else []
        if isnull:
            if ('nn', k) in st.facts: return []
            i = self.ins.get(op[1]) if op[0] == 'v' else None
            if i is not None and i['op'] in ('call', 'invoke') and self.name(i) == 'PyErr_Occurred': return self.refine(st, op, False)
            if k[0] == 'item':
                if self.inb(st, k[1], k[2]): return []
                st.pend = 1
            if k in st.own: del st.own[k]; st.pend = 1
            self.fact(st, ('nul', k))
        else:
            i = self.ins.get(op[1]) if op[0] == 'v' else None
            if i is not None and i['op'] in ('call', 'invoke') and self.name(i) == 'PyErr_Occurred': return self.refine(st, op, True)
            if ('nul', k) in st.facts: return []
            self.fact(st, ('nn', k))
        return [st]
    def checked(self, st, k):
        if k in st.unch:
            st.unch = st.unch - {k}
            if not st.unch and st.pend == 2: st.pend = 0
    NEG = dict(eq='ne', ne='eq', ult='uge', ule='ugt', ugt='ule', uge='ult', slt='sge', sle='sgt', sgt='sle', sge='slt')
    def addcmp(self, st, p, a, b, truth):
        if not truth: p = self.NEG[p]
        if p in ('ugt', 'uge', 'sgt', 'sge'): p = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[p]; a, b = b, a
        if p == 'eq':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c':
                    for f in st.facts:
                        if f[0] == 'cmp' and f[1] == 'eq' and f[2] == x and f[3][0] == 'c' and f[3] != y: return []
                        if f == ('cmp', 'ne', x, y): return []
                        if f[0] == 'cmp' and f[2] == x and f[3][0] == 'c' and (f[1] == 'slt' and y[1] >= f[3][1] or f[1] == 'sle' and y[1] > f[3][1]): return []
        if p == 'ne':
            if ('cmp', 'eq', a, b) in st.facts or ('cmp', 'eq', b, a) in st.facts: return []
            for x, y in ((a, b), (b, a)):
                if y == ('c', -1): self.checked(st, x)
        if p in ('ult', 'slt', 'ule', 'sle'):
            if a[0] == 'c' and any(f[0] == 'cmp' and f[1] == 'eq' and f[2] == b and f[3][0] == 'c' and not (a[1] < f[3][1] or p[1:] == 'le' and a[1] == f[3][1]) for f in st.facts): return []
            if b[0] == 'c' and any(f[0] == 'cmp' and f[1] == 'eq' and f[2] == a and f[3][0] == 'c' and not (f[3][1] < b[1] or p[1:] == 'le' and f[3][1] == b[1]) for f in st.facts): return []
            if p == 'ult': self.checked(st, a)
            if p == 'ule' and not (b[0] == 'c' and b[1] in (-1, 2**64 - 1)): self.checked(st, a)
            if p in ('slt', 'sle') and a[0] == 'c' and a[1] >= (-1 if p == 'slt' else 0): self.checked(st, b)
        self.fact(st, ('cmp', p, a, b)) 
        return [st]
    # ---- reporting
    def bad(self, prop, rule, i, msg): self.report(prop, rule, self.f, i, msg)
    def good(self, prop, rule, i): self.obl.add((prop, rule, i['id']))
    def need(self, prop, rule, i, cond, msg):
        self.good(prop, rule, i)
        if not cond: self.bad(prop, rule, i, msg)
        return cond
    # ---- uses
    def use(self, st, i, op, what):
        """the object or number is about to be used"""
        if op[0] != 'v' and op[0] != 'null': return
        k = self.key(st, op)
        if k[0] == 'item': self.need('C20', 'length', i, self.nonnull(st, k), '%s uses %s, which need not exist: its index is not known to be below the length' % (what, showk(k)))
        if ('gone', k) in st.facts: self.bad('C22', 'reference', i, '%s uses %s after its reference was released' % (what, showk(k)))
    def model(self, k):
        """part of the simulation or of the system the function was given"""
        while isinstance(k, tuple) and k and k[0] in ('gep', 'ld', 'vel', 'vptr'): k = k[1] if k[0] != 'vptr' else k[2]
        return bool(k) and k[0] in ('arg', 'item')
    def touch(self, st, i, what):
        """the model is about to be changed or asked: everything converted so far must have been checked"""
        self.need('C20', 'conversion', i, not st.unch, '%s is reached before a conversion of an argument was checked for failure' % what)
        self.need('C20', 'layer', i, all(self.bounded(st, f[1]) for f in st.facts if f[0] == 'int'), '%s is reached before a number of the caller was compared with the number of layers' % what)
    def number(self, st, i, op, what):
        k = self.key(st, op)
        if k in st.unch: self.need('C20', 'conversion', i, False, '%s uses the result of a conversion before it was checked for failure' % what)
        if ('int', k) in st.facts: self.need('C20', 'layer', i, self.bounded(st, k), '%s uses a number of the caller that was not compared with the number of layers' % what)
    def bounded(self, st, k):
            return any(f[0] == 'cmp' and (f[1] == 'ult' and f[2] == k and self.anysize(f[3]) or f[1] == 'eq' and (f[2] == k and self.anysize(f[3]) or f[3] == k and self.anysize(f[2])) or f[1] == 'slt' and f[2] == k and self.anysize(f[3]) and self.nonneg(st, k)) for f in st.facts)
    @staticmethod
    def anysize(k): return k[0] in ('vsize', 'size') or k[0] in ('add', 'sub', 'sdiv', 'udiv') and any(isinstance(x, tuple) and x[0] in ('vsize', 'vptr') for x in k[1:])
    def deref(self, st, i, addr, what):
        """memory of a field is read or written through addr"""
        k = self.key(st, addr)
        b = k[1] if k[0] == 'gep' else k
        if b[0] == 'v' and b[1] in self.alloca or b[0] in ('g', 'vel', 'vptr'): return
        if b[0] == 'null': self.bad('C20', 'missing', i, '%s follows a null pointer' % what); return
        if b[0] == 'item':
            self.use(st, i, addr, what) if k[0] != 'gep' else self.need('C20', 'length', i, self.nonnull(st, b), '%s reads a field of %s, which need not exist' % (what, showk(b)))
            if k[0] == 'gep' and k[2] >= 16: self.need('C20', 'kind', i, any(f[0] == 'is' and f[1] == b for f in st.facts), '%s reads a field of %s, whose kind was not established' % (what, showk(b)))
        elif b[0] == 'ld':
            if b[1][0] == 'gep' and b[1][2] == 16 and not b[1][3] and (b[1][1][0] in ('item', 'arg') or ('is', b[1][1], 'x') in st.facts):
                self.need('C20', 'missing', i, self.nonnull(st, b), '%s uses the object behind %s, which may be missing' % (what, showk(b[1][1])))
        elif b[0] == 'v' and ('nul', b) in st.facts: self.bad('C20', 'missing', i, '%s follows a pointer that is null on this path' % what)
    # ---- references
    def gain(self, st, k, i): st.own[k] = st.own.get(k, 0) + 1; st.facts = st.facts - {('gone', k)}
    def drop(self, st, k, i, how):
        if k[0] == 'g' and IMMORTAL.match(k[1]): return
        if k == ('null',): return
        self.good('C22', 'reference', i)
        if k in st.own:
            st.own[k] -= 1
            if not st.own[k]:
                del st.own[k]
                if how == 'releases': self.fact(st, ('gone', k))
        elif how == 'releases' or k[0] in ('item', 'arg', 'g'): self.bad('C22', 'reference', i, '%s a reference to %s that the function does not own' % (how, showk(k)))
        elif k[0] == 'v' and self.ins.get(k[1], {}).get('op') in ('call', 'invoke'): self.bad('C22', 'reference', i, '%s a reference to %s that was given away before' % (how, showk(k)))
    # ---- transfer
    def run(self):
        start = State()
        if self.kind in ('method', 'new'): self.fact(start, ('is', ('arg', 1), 'tuple'))
        seen = {}; work = [(0, None, start)]
        while work:
            b, pred, st = work.pop()
            st = self.enter(b, pred, st)
            if st is None: continue
            k = st.key(); s = seen.setdefault(b, set())
            if k in s: continue
            s.add(k); self.nstates += 1
            if self.nstates > 60000: raise Bound('too many abstract states')
            for nb, ns in self.block(b, st): work.append((nb, b, ns))
    def enter(self, b, pred, st):
        B = self.blocks[b]; st = st.copy()
        header = b in self.loops; back = header and pred in self.loops[b]
        if header:
            dead = self.loopids[b]
            if back:
                for k in list(st.own):
                    if k[0] == 'v' and k[1] in dead:
                        i = self.ins[k[1]]
                        if not st.oom: self.bad('C22', 'reference', i, 'the reference obtained here is still owned when the loop starts its next round')
                        del st.own[k]
            new = {}
            if back:
                st.facts = frozenset(f for f in st.facts if not mentions(f, dead)); st.unch = frozenset(('old',) if mentions(k, dead) else k for k in st.unch)
                st.mem = {a: v for a, v in st.mem.items() if not mentions(a, dead) and not mentions(v, dead)}
                st.env = {x: v for x, v in st.env.items() if x not in dead and not mentions(v, dead)}
        vals = {}
        for i in B['ins']:
            if i['op'] != 'phi': break
            for p, o in i['ops']:
                if p == pred and not header: vals[i['id']] = self.key(st, o)
        st.env.update(vals)
        keep = {x for x in st.env if x in vals or b in self.livein.get(x, ())}; work = list(keep)
        while work:
            for y in ids(st.env[work.pop()], set()):
                for z in self.reaches(y):
                    if z in st.env and z not in keep: keep.add(z); work.append(z)
        st.env = {x: v for x, v in st.env.items() if x in keep}
        return st
    def reaches(self, x):
        """the values with an entry of their own (phis, selects) that the value is computed from"""
        if not hasattr(self, '_reach'): self._reach = {}
        if x not in self._reach:
            self._reach[x] = out = {x}; i = self.ins.get(x)
            if i is not None and i['op'] not in ('phi', 'load', 'call', 'invoke'):
                for o in self.operands(i):
                    if o and o[0] == 'v': out |= self.reaches(o[1])
        return self._reach[x]
    def block(self, b, st):
        states = [st]
        B = self.blocks[b]
        for i in B['ins']:
            o = i['op']
            if o == 'phi': continue
            if o == 'br':
                out = []
                for s in states:
                    if len(i['succ']) == 1: out.append((i['succ'][0], s)); continue
                    for t, truth in ((0, True), (1, False)):
                        out += [(i['succ'][t], x) for x in self.refine(s.copy(), i['ops'][0], truth)]
                return out
            if o == 'switch':
                out = []
                for s in states:
                    k = self.key(s, i['ops'][0]); rest = [s.copy()]
                    for c, t in i['cases']:
                        c = ('c', int(c))
                        if k[0] == 'c':
                            if k == c: out.append((t, s.copy()))
                            continue
                        out += [(t, x) for x in self.addcmp(s.copy(), 'eq', k, c, True)]
                        rest = [y for x in rest for y in self.addcmp(x, 'ne', k, c, True)]
                    if not (k[0] == 'c' and any(int(c) == k[1] for c, _ in i['cases'])): out += [(i['succ'][0], x) for x in rest]
                return out
            if o == 'ret':
                for s in states: self.ret(s, i)
                return []
            if o == 'unreachable': return []
            if o == 'resume':
                for s in states: self.escape(s, i)
                return []
            if o == 'invoke':
                out = []
                for s in states:
                    exc = self.raises(i)
                    if exc:
                        e = s.copy(); e.exc = exc
                        if exc == 'oom': e.oom = True
                        out.append((i['succ'][1], e))
                    out += [(i['succ'][0], x) for x in self.call(s, i)]
                return out
            nxt = []
            for s in states: nxt += self.step(s, i)
            # identical states need not be carried twice
            if len(nxt) > 1: nxt = list({x.key(): x for x in nxt}.values())
            states = nxt
        return []
    def step(self, st, i):
        o = i['op']
        if o == 'call':
            exc = self.raises(i)
            if exc and self.kind != 'dealloc':
                e = st.copy(); e.exc = exc; self.escape(e, i)
            return self.call(st, i)
        if o == 'landingpad':
            types = [x[1] if x[0] == 'g' else None for x in i['ops'] if x[0] in ('g', 'null')]
            full = None in types or '_ZTISt9exception' in types
            st.env[i['id']] = ('pad', full and 1 or 0, tuple(t or '' for t in types)); return [st]
        if o == 'extractvalue':
            k = self.key(st, i['ops'][0])
            if k[0] == 'pad': st.env[i['id']] = ('padv', k[1], k[2], i['idx'][0])
            return [st]
        if o == 'insertvalue':
            k = self.key(st, i['ops'][1])
            if k[0] == 'padv': st.env[i['id']] = ('pad', k[1], k[2])
            return [st]
        if o == 'store':
            v, a = i['ops']; ak = self.key(st, a); vk = self.key(st, v)
            self.deref(st, i, a, 'a store')
            self.use(st, i, v, 'a store')
            ba = ak[1] if ak[0] == 'gep' else ak
            if self.model(ba): self.number(st, i, v, 'a store')
            st.mem = {x: y for x, y in st.mem.items() if not (x == ak or self.mayalias(x, ak))}
            st.mem[ak] = vk
            st.facts = frozenset(f for f in st.facts if not self.reads(f, ak))
            if vk in st.own and not (ak[0] == 'v' and ak[1] in self.alloca): 
                if ak[0] != 'v': self.fact(st, ('kept', vk))
            return [st]
        if o == 'load':
            self.deref(st, i, i['ops'][0], 'a load'); return [st]
        if o == 'select' and i['ty'] != 'i1':
            out = []
            for truth, arm in ((True, i['ops'][1]), (False, i['ops'][2])):
                for s in self.refine(st.copy(), i['ops'][0], truth): s.env[i['id']] = self.key(s, arm); out.append(s)
            return out
        if o in ('sitofp', 'uitofp', 'fadd', 'fmul', 'fsub', 'fdiv'):
            for x in i['ops']:
                if x[0] == 'v': self.number(st, i, x, 'arithmetic')
            return [st]
        return [st]
    @staticmethod
    def mayalias(x, a):
        bx = x[1] if x[0] == 'gep' else x; ba = a[1] if a[0] == 'gep' else a
        return bx == ba and x != a and ((x[0] == 'gep' and x[3]) or (a[0] == 'gep' and a[3]))
    def reads(self, f, ak):
        def w(k):
            if not isinstance(k, tuple): return False
            if k and k[0] == 'ld' and len(k) == 2 and k[1] == ak: return True
            return any(w(x) for x in k)
        return w(f)
    def raises(self, i):
        if i.get('nt'): return None
        n = self.name(i); c = i.get('callee')
        if not c: return None                     # slots of the interpreter
        if re.match(r'^_?Py|^llvm\.|^__cxa_(begin|end|allocate|free|get)|^(printf|puts|free|malloc|memcpy)$|^__clang|^__gxx', n): return None
        if n in ('__cxa_throw', '__cxa_rethrow'): return 'lib'
        full = self.mod['dem'].get(c, c)
        if 'operator new' in n: return 'oom'
        if re.search(r'(^|[ &*])std::', full.split('(')[0]):
            return ('lib' if re.search(r'::at$', n) else 'oom') if self.mayraise(c) or re.search(r'push_back|emplace|resize|reserve|insert|::vector|basic_string', n) else None
        return 'lib' if self.mayraise(c) else None
    def escape(self, st, i):
        n = self.name(i) if i['op'] in ('call',) else ''
        self.bad('C22', 'exception', i, 'a C++ exception %sleaves the function and reaches the interpreter' % (('of %s ' % n) if n else ''))
    def call(self, st, i):
        n = self.name(i); a = i['ops']; self.calls.add(n or 'slot')
        rid = ('v', i['id'])
        api = bool(re.match(r'^_?Py', n))
        # a fresh execution of this instruction
        if rid in st.own and i['ty'] == 'ptr':
            if not st.oom: self.bad('C22', 'reference', i, 'the reference obtained here earlier is still owned')
            del st.own[rid]
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.experimental') or n == 'llvm.assume': return [st]
        if n == 'llvm.eh.typeid.for': st.env[i['id']] = ('tid', a[0][1] if a[0][0] == 'g' else ''); return [st]
        if n == '__cxa_begin_catch': st.exc = None; return [st]
        if n in ('__cxa_end_catch', '__cxa_get_exception_ptr', '__cxa_allocate_exception', '__cxa_free_exception', '__clang_call_terminate'): return [st]
        if n in ('__cxa_throw', '__cxa_rethrow'): return []
        if not n:
            t = self.key(st, i['icallee']) if i.get('icallee') else ('?',)
            for x in a: self.use(st, i, x, 'a slot call')
            if i['ty'] == 'ptr' and t[0] == 'ld' and t[1][0] == 'gep' and t[1][1][0] in ('arg', 'g'):
                self.good('C22', 'reference', i); self.gain(st, rid, i)
            elif i['ty'] == 'void':
                pass
            elif t[0] == 'ld' and t[1][0] == 'gep' and t[1][1][0] == 'ld': pass     # virtual call
            else: self.unknown.add('indirect call')
            return [st]
        for x in a:
            if n not in ('Py_XDECREF', 'Py_XINCREF'): self.use(st, i, x, n)
        if n in ('Py_INCREF', 'Py_XINCREF', 'Py_NewRef', '_Py_NewRef'):
            k = self.key(st, a[0])
            if not (k[0] == 'g' and IMMORTAL.match(k[1])) and k != ('null',): self.gain(st, k, i)
            if n.endswith('NewRef'): st.env[i['id']] = k
            return [st]
        if n in ('Py_DECREF', 'Py_XDECREF'):
            k = self.key(st, a[0])
            if n == 'Py_XDECREF' and (k == ('null',) or ('nul', k) in st.facts): return [st]
            self.drop(st, k, i, 'releases'); return [st]
        if n in ITEM:
            c = self.key(st, a[0])
            self.need('C20', 'kind', i, self.iskind(st, c, ITEM[n]) or c in st.own or ('made', c, ITEM[n]) in st.facts, '%s of %s, which is not known to be a %s' % (n, showk(c), ITEM[n]))
            k = self.key(st, a[1])
            if not self.inb(st, c, k): st.pend = max(st.pend, 2) if st.pend != 1 else 1; st.facts = st.facts | {('loose', ('item', c, k))}
            return [st]
        if n in SIZE:
            c = self.key(st, a[0])
            if SIZE[n]: self.need('C20', 'kind', i, self.iskind(st, c, SIZE[n]) or c in st.own or ('made', c, SIZE[n]) in st.facts, '%s of %s, which is not known to be a %s' % (n, showk(c), SIZE[n]))
            return [st]
        if n in NEEDKIND:
            k = self.key(st, a[0]); bare = not self.iskind(st, k, *NEEDKIND[n])
            self.good('C20', 'conversion', i)
            if bare: self.fact(st, ('bare', rid))
            safe = n in CONV and any(self.iskind(st, k, t) for t in CONV[n]) or self.iskind(st, k, 'bool') or n == 'PyFloat_AS_DOUBLE'
            if bare and n == 'PyFloat_AS_DOUBLE': self.bad('C20', 'conversion', i, '%s of %s, whose kind was not established' % (n, showk(k)))
            if not safe:
                st.unch = st.unch | {rid}
                if st.pend == 0: st.pend = 2
            if n in INTCONV and not self.iskind(st, k, 'bool'): self.fact(st, ('int', rid))
            return [st]
        if n in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetNone', 'PyErr_SetObject', 'PyErr_NoMemory'):
            lost = [r for r in st.unch if ('bare', r) in st.facts]; x = self.raised(st, a)
            self.need('C20', 'conversion', i, not lost or x in (None, 'PyExc_TypeError', 'PyExc_SystemError'), 'the refusal of a value converted with its kind unchecked is replaced by %s' % x)
            st.pend = 1; st.unch = frozenset()
            if i['ty'] == 'ptr': st.env[i['id']] = ('null',)
            return [st]
        if n == 'PyErr_Clear': st.pend = 0; st.unch = frozenset(); return [st]
        if n == 'PyErr_Occurred': return [st]
        if n in ('PyObject_TypeCheck', 'Py_IS_TYPE', 'PyType_HasFeature', 'Py_TYPE'): return [st]
        if n in STEAL:
            c, v = self.key(st, a[0]), self.key(st, a[STEAL[n]])
            if v != ('null',): self.drop(st, v, i, 'gives away')
            return [st]
        if re.match(r'^_?PyArg_Parse(Tuple)?(AndKeywords)?(_SizeT)?$', n): return self.parse(st, i, n, a)
        if n in ('PyModule_AddObject', 'PyList_Append', 'PyModule_AddObjectRef', 'PyModule_AddType', 'PyType_Ready', 'PyTuple_SetItem', 'PyModule_AddIntConstant', 'PyModule_AddStringConstant', 'PyObject_IsTrue', 'PyObject_SetAttrString'):
            bad = st.copy(); bad.pend = 1; bad.env[i['id']] = ('c', -1)
            good = st; good.env[i['id']] = ('c', 0)
            if n == 'PyModule_AddObject': self.drop(good, self.key(st, a[2]), i, 'gives away')
            if i['id'] in self.tested(): return [good, bad]
            return [good]
        if NEWREF.match(n):
            self.good('C22', 'reference', i)
            if 'BuildValue' in n:
                f = self.mod['globals'].get(a[0][1], {}).get('str') if a[0][0] == 'g' else None
                if f is None: self.unknown.add('Py_BuildValue with a computed format'); 
                else:
                    q = 1
                    for ch in re.sub(r'[\s(),:\[\]{}]', '', f):
                        if ch in '#*&!': continue
                        if q >= len(a): self.bad('C22', 'reference', i, 'too few arguments for the format "%s"' % f); break
                        if ch == 'N': self.drop(st, self.key(st, a[q]), i, 'gives away')
                        q += 1
            if n == 'PyTuple_Pack': 
                nn_ = self.key(st, a[0])
                if nn_[0] == 'c' and nn_[1] != len(a) - 1: self.bad('C22', 'reference', i, 'PyTuple_Pack is told %s objects and given %d' % (nn_[1], len(a) - 1))
            self.gain(st, rid, i)
            if n in ('PyList_New', 'PyTuple_New', 'PyTuple_Pack'): self.fact(st, ('made', rid, 'list' if n == 'PyList_New' else 'tuple'))
            return [st]
        if api or re.match(r'^Py', n):
            if not NEUTRAL.match(n): self.unknown.add(n)
            return [st]
        # the library and the C++ runtime
        if not re.match(r'^std::vector<.*>::(size|begin|end|c?r?begin|c?r?end|operator\[\]|empty|at)$|^__gnu_cxx::', n) and any(x[0] == 'v' and self.model(self.key(st, x)) for x in a): self.touch(st, i, n[:80])
        for q, x in enumerate(a):
            if x[0] != 'v': continue
            if re.match(r'^std::vector<.*>::operator\[\]$', n) and q == 1:
                k = self.key(st, x)
                if k in st.unch: self.need('C20', 'conversion', i, False, 'an index uses the result of a conversion before it was checked for failure')
                if ('int', k) in st.facts: self.need('C20', 'layer', i, self.below(st, k, self.same(st, ('vsize', self.key(st, a[0])))), 'the layer number of the caller is used as an index without having been compared with the number of layers')
                continue
            if re.search(r'::at$', n): continue
            k = self.key(st, x)
            if not (q and re.match(r'^nikfemm::Vector::Vector$', n)): self.number(st, i, x, n[:80])
            if k[0] == 'ld': self.deref(st, i, x, n[:80])
        if re.match(r'^(nikfemm::|std::)', n) or re.search(r'(^|[ &*])std::|nikfemm::', self.mod['dem'].get(i.get('callee'), '')): pass
        elif not NEUTRAL.match(n) and 'operator' not in n: self.unknown.add(n)
        if i['ty'] == 'ptr' and n.startswith('operator new'): self.fact(st, ('nn', rid), ('fresh', rid))
        return [st]
    def selcond(self):
        if not hasattr(self, '_selcond'): self._selcond = {i['ops'][0][1] for i in self.ins.values() if i['op'] == 'select' and i['ops'][0][0] == 'v'}
        return self._selcond
    def tested(self):
        if not hasattr(self, '_tested'):
            self._tested = {o[1] for i in self.ins.values() if i['op'] in ('icmp', 'switch', 'br', 'ret', 'select') for o in i['ops'] if isinstance(o, list) and o and o[0] == 'v'}
        return self._tested
    def parse(self, st, i, n, a):
        bad = st.copy(); bad.pend = 1; bad.env[i['id']] = ('c', 0)
        good = st; good.env[i['id']] = ('c', 1)
        kw = 'Keywords' in n; f = a[2 if kw else 1]; q = 4 if kw else 2
        fmt = self.mod['globals'].get(f[1], {}).get('str') if f[0] == 'g' else None
        if fmt is None: self.unknown.add('PyArg_ParseTuple with a computed format'); return [good, bad]
        body = re.split('[:;]', fmt)[0]; p = 0; optional = False
        while p < len(body):
            ch = body[p]; p += 1
            if ch in '() ': continue
            if ch == '|': optional = True; continue
            if ch == '$': continue
            t = None
            if ch == 'O' and body[p:p + 1] == '!': t = self.key(st, a[q]); q += 1; p += 1
            if q >= len(a): self.bad('C22', 'reference', i, 'too few arguments for the format "%s"' % fmt); break
            ad = self.key(st, a[q]); q += 1
            while p < len(body) and body[p] in '#*&': p += 1; q += 1
            if optional: continue
            for s in (good,):
                s.mem.pop(ad, None); v = ('ld', ad)
                if ch == 'O':
                    self.fact(s, ('nn', v))
                    if t and t[0] == 'g': self.fact(s, ('is', v, TYPES.get(t[1], t[1])))
                elif ch in 'bBhHiIlkLKn': self.fact(s, ('int', v))
        return [good, bad] if i['id'] in self.tested() else [good]
    def ret(self, st, i):
        if not i['ops']: return
        self.good('C22', 'result', i)
        k = self.key(st, i['ops'][0]); ty = self.f['ret']
        if ty == 'i32' and self.kind == 'int': neg = k[0] == 'c' and k[1] < 0
        elif ty != 'ptr': return
        else: neg = k == ('null',) or ('nul', k) in st.facts
        if neg:
            if st.pend != 1: self.bad('C22', 'result', i, 'returns NULL on a path on which no Python exception %s set' % ('is' if st.pend == 0 else 'need be'))
        else:
            if st.pend: self.bad('C22', 'result', i, 'returns a result on a path on which a Python exception %s pending' % ('is' if st.pend == 1 else 'may be'))
            if ty == 'ptr':
                if k in st.own:
                    st.own[k] -= 1
                    if not st.own[k]: del st.own[k]
                elif k[0] == 'g' and IMMORTAL.match(k[1]): pass
                elif k[0] in ('item', 'arg', 'g') or k[0] == 'v': self.bad('C22', 'result', i, 'returns %s without owning a reference to it' % showk(k))
                if self.kind == 'new':
                    v = st.mem.get(('gep', k, 16, ()))
                    if not (v and (v[0] == 'v' and ('fresh', v) in st.facts)): self.okfield = False
        if not st.oom:
            for k in st.own:
                if ('kept', k) in st.facts: continue
                src = self.ins.get(k[1]) if k[0] == 'v' else i
                self.bad('C22', 'reference', src or i, 'the reference to %s obtained here is still owned on a path that returns %s' % (showk(k), 'NULL' if neg else 'a result'))
        self.rets.append(neg)

_orig_refine = Analysis.refine
def refine(self, st, op, truth, d=0):
    """exception selectors: a handler for std::exception (or for everything) takes what the library raises"""
    if op[0] == 'v' and op[1] in self.ins and op[1] not in st.env:
        i = self.ins[op[1]]
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne'):
            ks = [self.key(st, x) for x in i['ops']]
            sel = next((k for k in ks if k[0] == 'padv'), None); tid = next((k for k in ks if k[0] == 'tid'), None)
            if sel and tid:
                eq = (i['pred'] == 'eq') == truth
                caught = tid[1] in ('_ZTISt9exception', '')
                if caught: return [st] if eq else []
                if '_ZTISt9exception' in sel[2] or '' in sel[2]: return [st]
                return [st]
    return _orig_refine(self, st, op, truth, d)
def refine1(self, st, op, truth, d=0):
    """a condition that was decided on this path stays decided"""
    if op[0] == 'v' and op[1] in self.ins and self.ins[op[1]]['ty'] == 'i1':
        if ('truth', ('v', op[1]), not truth) in st.facts: return []
        out = refine(self, st, op, truth, d)
        if op[1] in self.selcond():
            for s in out: self.fact(s, ('truth', ('v', op[1]), truth))
        return out
    return refine(self, st, op, truth, d)
Analysis.refine = refine1

def load():
    src = build.REPO + '/python/nikfemm.cpp'
    bc = build.compile_unit(src, [], lint.pyinc())
    facts = build.facts(build.module(build.lib_sources() + [src], (), lint.pyinc()))
    mod = build.dump(bc, [r'^(?!std::|nikfemm::|Py(?!Init_)|_Py|operator|__|void std|bool std)'], [r'^(Py(?!Init_)|_Py|nikfemm::|std::|operator|__)|^[^(]* std::'], extra=['keepinvoke'])
    return mod, facts

MEMO = {}
def mayraise(facts):
    fs = {f['name']: f for f in facts['functions']}; memo = {}
    def r(name, depth=0):
        if name in ('__cxa_throw', '__cxa_rethrow') or re.match(r'^std::__throw_(?!length_error|bad_alloc|bad_array)', facts['dem'].get(name, '')): return True
        if re.match(r'^std::__throw_|^operator new', facts['dem'].get(name, '')): return True
        if name in memo: return memo[name]
        memo[name] = False
        f = fs.get(name)
        if f is None or f['nounwind']: return False
        memo[name] = any(r(k['callee'], depth + 1) for k in f['calls'] if not k.get('term') and not k['nt'] and k['callee'])
        return memo[name]
    return r

def roots(mod):
    """functions the interpreter calls: named in a method table or a type object, and the module's entry point"""
    out = {}
    for g, v in mod['globals'].items():
        if g.startswith('llvm.'): continue
        for fn in v.get('fnrefs', ()):
            if fn not in mod['functions']: continue
            f = mod['functions'][fn]; n = len(f['args'])
            if 'Type' in g or 'slots' in g: k = 'dealloc' if f['ret'] == 'void' else 'new' if n == 3 and f['ret'] == 'ptr' else 'int' if f['ret'] == 'i32' else 'slot'
            else: k = 'method'
            out.setdefault(fn, k)
    for fn in mod['functions']:
        if fn.startswith('PyInit_'): out[fn] = 'init'
    return out

def analyse():
    """(list of findings (prop, rule, where, msg, key), obligations per property, facts, undecided)"""
    mod, facts = load()
    rs = roots(mod); mr = mayraise(facts)
    found = {}; und = []; obl = {}; stats = dict(functions=[], abstract_states=0)
    def report(prop, rule, f, i, msg):
        loc = (i.get('loc') or [['', '', 0, 0]]); l = loc[0]
        path = ' < '.join('%s:%d' % (x[1].split('/')[-1], x[2]) for x in loc[:3])
        name = f['dem'].split('(')[0]
        k = (prop, rule, name, msg, tuple(x[2] for x in loc[:3]))
        found[k] = (prop, rule, '%s (%s)' % (name, path), msg, name + ':' + rule + ':' + re.sub(r'\W+', '_', msg)[:60])
    types = {g for g, v in mod['globals'].items() if v.get('fnrefs') and not g.startswith('llvm.')}
    inv = {}
    order = sorted(rs, key=lambda x: 0 if rs[x] == 'new' else 1)
    for fn in order:
        f = mod['functions'][fn]; kind = rs[fn]
        owner = next((g for g, v in mod['globals'].items() if fn in v.get('fnrefs', ())), '')
        A = Analysis(mod, f, kind, report, mr, invariant=None, usertypes=types)
        if kind == 'method' or kind == 'dealloc': A.invariant = all(v for t, v in inv.items() if len(v_names(mod, t)) > 0) if kind == 'dealloc' else method_invariant(mod, owner, inv)
        try: A.run()
        except Bound as x: und.append((f['dem'].split('(')[0], str(x)))
        if kind == 'new': inv[owner] = A.okfield
        for u in A.unknown: und.append((f['dem'].split('(')[0], 'calls %s, which the analysis has no rule for' % u))
        for p, r, x in A.obl: obl.setdefault(p, set()).add((r, f['dem'].split('(')[0], x))
        stats['functions'].append('%s (%s, %d blocks, %d abstract states)' % (f['dem'].split('(')[0], kind, len(f['blocks']), A.nstates)); stats['abstract_states'] += A.nstates
    stats['invariants'] = {k: v for k, v in inv.items()}
    return list(found.values()), obl, stats, und
def v_names(mod, t): return mod['globals'][t].get('fnrefs', ())
def method_invariant(mod, table, inv):
    """the table's type: the type object whose name shares the longest prefix with the table's"""
    import os
    best = max(inv, key=lambda t: len(os.path.commonprefix([re.sub(r'^_ZL\d+', '', t), re.sub(r'^_ZL\d+', '', table)])), default=None)
    return inv.get(best, False)
