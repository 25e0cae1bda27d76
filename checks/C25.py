"""C25: no iterator, reference or pointer into a container is used after an operation that may invalidate it (forward dataflow, callee summaries)."""
import re
import syn, paths, loops, borrow
def run(c):
    P = syn.program(python=True); A = paths.Paths(P); seen = set(); tracked = 0; events = 0; nodes = 0
    for name, f, F, body, inits in loops.functions(P, A):
        b = borrow.Borrow(F, body, inits, name); tracked += len(b.track); nodes += b.n
        short = name.replace('nikfemm::', ''); fam = re.sub(r'<[^()]*?>', '', short.split('(')[0])
        bad = set()
        for kind, l, var, why in b.out:
            k = (f['rel'], kind, l, var); bad.add(var)
            if k in seen: continue
            seen.add(k); where = '%s:%s %s' % (f['rel'], l, short[:80])
            if kind == 'use': c.violation('invalidated', where, '%s is used after line %s may have invalidated it: %s' % (var, why[1], why[2]), key='%s:%s:%s' % (fam, var, why[2][:40]))
            elif kind == 'end': c.violation('past-the-end', where, '%s is dereferenced although it may be end(): %s' % (var, why[2]), key='%s:%s:end' % (fam, var))
            else: c.undecided('past-the-end', where, '%s may be end(): %s' % (var, why[2]))
        for i, t in b.track.items():
            if t['n'] in bad: continue
            k = (f['rel'], t['n'], str(t['c'])[:200], fam)
            if k in seen: continue
            seen.add(k)
            for C, cl in t['c'][:1]: c.ok('invalidated', '%s %s: %s (%s) into %s' % (f['rel'], short[:70], t['n'], t['kind'], cl))
        for l, t in borrow.dangling(F, f, body):
            if (f['rel'], l, t) in seen: continue
            seen.add((f['rel'], l, t)); c.violation('dangling', '%s:%s %s' % (f['rel'], l, short[:80]), t, key=fam + ':' + t[:40])
        rt = f['f']['r']
        if rt.endswith('&') or rt.endswith('*') or paths.isiter(rt): c.ok('dangling', '%s %s returns %s' % (f['rel'], short[:70], rt[:60]))
    views = 0
    for name, f in sorted(P.fn.items()):      # a += a
        for how, F in paths.aliased(A, f):
            views += 1; b = borrow.Borrow(F, f['body'], [], name); short = name.replace('nikfemm::', ''); fam = re.sub(r'<[^()]*?>', '', short.split('(')[0])
            where = '%s:%s %s' % (f['rel'], f['line'], short[:80])
            new = [o for o in b.out if o[0] == 'use' and (f['rel'],) + o[:3] not in seen]
            for kind, l, var, why in new: c.violation('self', '%s:%s %s' % (f['rel'], l, short[:80]), '%s: %s is used after line %s may have invalidated it: %s' % (how, var, why[1], why[2]), key=fam + ':self')
            if not new: c.ok('self', where + ' ' + how)
    for u, e in P.errors[:5]: c.undecided('invalidated', u, 'not analysable: ' + e[-200:])
    c.need('invalidated', 60)
    c.need('self', 10)
    c.facts.update(translation_units=P.units, functions=len(P.fn), references_tracked=tracked, self_aliased_views=views, flow_steps=nodes)
    c.assume.append('distinct reference parameters denote distinct objects')
    return c.finish('For every local reference, pointer, iterator and every traversal of a container: the operations that may invalidate it, through callees included, never lie on a path between its creation and a use; look-up results are compared with end() before they are dereferenced; nothing refers into a local or temporary that is gone.')
