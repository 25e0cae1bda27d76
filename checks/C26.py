"""C26: every loop is bounded (ranking argument on control-flow graphs) and every recursion decreases."""
import re
import syn, paths, loops
from cfg import CFG
def run(c):
    P = syn.program(python=True); A = paths.Paths(P); seen = {}; n = 0; counters = 0
    for name, f, F, body, inits in loops.functions(P, A):
        g = CFG(body, inits); short = name.replace('nikfemm::', '')
        for lid, L in enumerate(g.loops):
            v, t = loops.Loop(F, g, lid).verdict(); n += 1
            where = '%s:%s %s' % (f['rel'], L['s']['l'], short[:90])
            fam = re.sub(r'<[^()]*?>', '', short.split('(')[0])
            key = (f['rel'], L['s']['l'], v, t)
            if key in seen: continue
            seen[key] = 1
            if v == 'ok': c.ok('loop', where + ': ' + t[:80])
            elif v == 'violation': c.violation('loop', where, t, key='%s:%s' % (fam, re.sub(r'line \d+|lines [\d, ]+', '', t)[:60]))
            elif v == 'undecided': c.undecided('loop', where, t)
        lab = [m for m in g.n if m.tag == 'label']
        for m in lab:
            if back(g, m): c.undecided('loop', '%s:%s %s' % (f['rel'], m.l, short[:90]), 'backward goto')
    for name, f in sorted(P.fn.items()):      # the same object passed twice (a += a)
        for how, F in paths.aliased(A, f):
            g = CFG(f['body'], []); short = name.replace('nikfemm::', '')
            for lid, L in enumerate(g.loops):
                v, t = loops.Loop(F, g, lid).verdict(); where = '%s:%s %s' % (f['rel'], L['s']['l'], short[:80])
                if (where, how, v) in seen: continue
                seen[(where, how, v)] = 1
                if v == 'violation' and (f['rel'], L['s']['l'], 'violation', t) not in seen: c.violation('self', where, how + ': ' + t, key=re.sub(r'<[^()]*?>', '', short.split('(')[0]) + ':self')
                elif v == 'ok': c.ok('self', where + ' ' + how)
    for name, f, v, t in loops.recursion(P, A):
        where = '%s:%s %s' % (f['rel'], f['line'], name.replace('nikfemm::', '')[:90])
        if v == 'ok': c.ok('recursion', where + ': ' + t)
        elif v == 'violation': c.violation('recursion', where, t, key=name.split('(')[0] + ':rec')
        else: c.undecided('recursion', where, t)
    for u, e in P.errors[:5]: c.undecided('loop', u, 'not analysable: ' + e[-200:])
    c.need('loop', 120)
    c.facts.update(translation_units=P.units, functions=len(P.fn), loops=n)
    c.assume.append('containers hold fewer than 2^32 elements, distinct reference parameters denote distinct objects')
    return c.finish('Control-flow graphs of every function and lambda: for each loop the counters that every round compares with a bound the loop does not move, and that only move towards it, have to advance on every way round; recursion has to decrease a tested argument.')
def back(g, h):
    """a cycle through label h that no loop statement closes"""
    heads = {L['head'].i for L in g.loops}; st = [h]; seen = set()
    while st:
        for m, _ in st.pop().succ:
            if m is h: return True
            if m.i not in seen and m.i not in heads: seen.add(m.i); st.append(m)
    return False
