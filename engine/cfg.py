"""Control-flow graphs of functions, from their typed syntax trees. Conditions are split at && || !; constant conditions have one way out."""
import syn
class Node:
    __slots__ = ('i', 'k', 'x', 'l', 'succ', 'loops', 'tag', 'hs')
    def __init__(n, i, k, x, l, loops, hs): n.i = i; n.k = k; n.x = x; n.l = l; n.succ = []; n.loops = loops; n.tag = None; n.hs = hs
def strip(e):
    while e.get('k') == 'conv' or e.get('k', '').startswith('?CXXRewritten') and len(e.get('a', ())) == 1: e = e['a'][0]
    return e
def const(e):
    e = strip(e)
    if e['k'] == 'lit' and isinstance(e.get('v'), bool): return e['v']
    if e['k'] == 'lit' and isinstance(e.get('v'), str) and e['v'].isdigit(): return int(e['v']) != 0
    return None
def noreturn(e):
    """the statement ends in an exception"""
    for y in syn.walk_e(e):
        if y['k'] == 'lambda': return False
        break
    x = strip(e)
    if x['k'] == 'throw': return True
    return x['k'] == 'call' and x.get('f') and x['f']['s'] in ('nexit', 'abort', 'exit', '_Exit', 'terminate', 'rethrow_exception', 'throw_exception')
class CFG:
    """nodes: 'e' expression, 'decl' (x = declarator), 'br' (x = condition; succ: (node, True/False)), 'rinit'/'rhead'/'rvar' of a range for, 'ret', 'nop'"""
    def __init__(self, body, inits=()):
        self.n = []; self.loops = []; self.cur = []; self.hs = []; self.labels = {}; self.gotos = []
        self.exit = self.node('exit', None, 0); self.exit.loops = ()
        start = self.node('nop', None, 0); self.entry = start
        outs = [(start, None)]
        for x in inits: outs = self.expr(x, outs, x.get('l'))
        outs = self.stmt(body, outs, None, None)
        for o in outs: self.link(o, self.exit)
        for g, name in self.gotos:
            if name in self.labels: g.succ.append((self.labels[name], None))
        self.exit.loops = ()
    def node(self, k, x, l):
        n = Node(len(self.n), k, x, l, tuple(self.cur), tuple(self.hs)); self.n.append(n)
        for h in self.hs[-1:]: n.succ.append((h, 'exc'))
        return n
    def link(self, o, n): o[0].succ.append((n, o[1]))
    def seq(self, outs, n):
        for o in outs: self.link(o, n)
        return [(n, None)]
    def expr(self, e, outs, l):
        return self.seq(outs, self.node('e', e, e.get('l', l)))
    def cond(self, e, outs):
        """-> (true outs, false outs)"""
        x = strip(e)
        if x['k'] == 'bin' and x['op'] == '&&':
            t, f = self.cond(x['a'][0], outs); t2, f2 = self.cond(x['a'][1], t); return t2, f + f2
        if x['k'] == 'bin' and x['op'] == '||':
            t, f = self.cond(x['a'][0], outs); t2, f2 = self.cond(x['a'][1], f); return t + t2, f2
        if x['k'] == 'un' and x['op'] == '!':
            t, f = self.cond(x['a'][0], outs); return f, t
        c = const(x)
        if c is not None: return (outs, []) if c else ([], outs)
        n = self.node('br', x, x.get('l')); self.seq(outs, n)
        return [(n, True)], [(n, False)]
    def stmt(self, s, outs, brk, cont):
        """brk, cont: lists collecting the ways out"""
        if not s: return outs
        k = s['k']
        if k == 'block':
            for y in s['b']: outs = self.stmt(y, outs, brk, cont)
            return outs
        if k == 'decl':
            for d in s['d']: n = self.node('decl', d, d['l']); outs = self.seq(outs, n)
            return outs
        if k == 'expr':
            x = strip(s['e'])
            if x['k'] == 'cond' and any(y['k'] in ('throw',) for y in syn.walk_e(x)):
                t, f = self.cond(x['a'][0], outs); r = []
                for br, o in ((x['a'][1], t), (x['a'][2], f)):
                    o = self.expr(br, o, s['l'])
                    r += [] if noreturn(br) else o
                return r
            outs = self.expr(s['e'], outs, s['l'])
            return [] if noreturn(s['e']) else outs
        if k == 'if':
            outs = self.stmt(s.get('init'), outs, brk, cont); outs = self.stmt(s.get('cv'), outs, brk, cont)
            t, f = self.cond(s['c'], outs)
            t = self.stmt(s['then'], t, brk, cont); f = self.stmt(s.get('else'), f, brk, cont)
            return t + f
        if k in ('for', 'while', 'do'):
            if k == 'for': outs = self.stmt(s.get('init'), outs, None, None)
            lid = len(self.loops); self.loops.append(dict(s=s, k=k)); self.cur.append(lid)
            head = self.node('nop', None, s['l']); self.loops[lid]['head'] = head
            self.seq(outs, head); b = []; c = []; ex = []
            o = [(head, None)]
            if k != 'do':
                if s.get('cv'): o = self.stmt(s['cv'], o, None, None)
                if s.get('c'): t, ex = self.cond(s['c'], o)
                else: t = o
                o = self.stmt(s['body'], t, b, c) + c
                if s.get('inc'): o = self.expr(s['inc'], o, s['l'])
                for q in o: self.link(q, head)
            else:
                o = self.stmt(s['body'], o, b, c) + c
                t, ex = self.cond(s['c'], o)
                for q in t: self.link(q, head)
            self.cur.pop()
            return ex + b
        if k == 'rfor':
            outs = self.stmt(s.get('init'), outs, None, None)
            init = self.node('rinit', s, s['l']); self.seq(outs, init)
            lid = len(self.loops); self.loops.append(dict(s=s, k=k)); self.cur.append(lid)
            head = self.node('rhead', s, s['l']); self.loops[lid]['head'] = head; init.succ.append((head, None))
            var = self.node('rvar', s, s['l']); head.succ.append((var, True))
            b = []; c = []; o = self.stmt(s['body'], [(var, None)], b, c) + c
            for q in o: self.link(q, head)
            self.cur.pop()
            return [(head, False)] + b
        if k == 'ret':
            n = self.node('ret', s.get('e'), s['l']); self.seq(outs, n); n.succ.append((self.exit, None)); return []
        if k == 'break':
            if brk is not None: brk += outs
            return []
        if k == 'continue':
            if cont is not None: cont += outs
            return []
        if k == 'goto':
            n = self.node('nop', None, s['l']); self.seq(outs, n); self.gotos.append((n, s['n'])); return []
        if k == 'label':
            n = self.node('nop', None, s['l']); n.tag = 'label'; self.labels[s['n']] = n; outs = self.seq(outs, n)
            for y in s['b']: outs = self.stmt(y, outs, brk, cont)
            return outs
        if k == 'switch':
            n = self.node('e', s['c'], s['l']); self.seq(outs, n); b = []
            body = s['body']; cs = body['b'] if body['k'] == 'block' else [body]
            o = []; dflt = False
            for y in cs:
                while y and y['k'] in ('case', 'default'):
                    o = o + [(n, 'case')]; dflt |= y['k'] == 'default'; y = y['b'][0] if y.get('b') else None
                o = self.stmt(y, o, b, cont)
            return o + b + ([] if dflt else [(n, 'case')])
        if k == 'try':
            hn = self.node('nop', None, s['l'])
            self.hs.append(hn); first = self.node('nop', None, s['l']); o = self.stmt(s['body'], self.seq(outs, first), brk, cont); self.hs.pop()
            for h in s.get('h', ()): o = o + self.stmt(h, [(hn, None)], brk, cont)
            return o
        if k == 'null': return outs
        # unknown statement: its parts in order
        for e in syn.exprs_s(s): outs = self.expr(e, outs, s.get('l'))
        for y in syn.kids_s(s): outs = self.stmt(y, outs, brk, cont)
        return outs
    def cycle(self, lid, removed):
        """a path head -> head of loop lid that avoids the removed nodes, or None"""
        h = self.loops[lid]['head']; prev = {}; st = [h]; rem = set(removed)
        while st:
            n = st.pop()
            for m, lab in n.succ:
                if lid not in m.loops or m.i in rem: continue
                if m is h:
                    p = [(n, lab)]
                    while n is not h: n, lb = prev[n.i]; p.append((n, lb))
                    return p[::-1]
                if m.i not in prev and m is not h: prev[m.i] = (n, lab); st.append(m)
        return None
    def inloop(self, lid): return [n for n in self.n if lid in n.loops]
