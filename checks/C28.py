"""C28: index kinds and array extents."""
import re
import syn, kinds
def run(c):
    P = syn.program(); K = kinds.Kinds(P)
    seen = set()
    for f, ks, path, s1, s2 in K.conflicts:
        name = re.sub(r'<[\w:]+>', '', f['name'].replace('nikfemm::', '')); key = name.split('(')[0] + ':' + '/'.join(ks)
        if key in seen: continue
        seen.add(key)
        steps = [p for p in [s1] + path + [s2] if p and p[1]]
        c.violation('kind', '%s:%d %s' % (f['rel'], f['line'], name[:90]), 'one value is both a %s: %s' % (' and a '.join(x + ' number or count' for x in ks), ' ~ '.join(dict.fromkeys('line %s: %s' % (p[1], p[2]) for p in steps))[:900]), key=key)
    for f, e, b, n, why in K.past:
        k = b.find().subs.get('K')
        if k is not None and k.find().slack: continue
        key = '%s:%s' % (f['name'].split('(')[0].replace('nikfemm::', ''), syn.show(e)[:60])
        if key in seen: continue
        seen.add(key)
        c.violation('extent', '%s:%s' % (f['rel'], e['l']), '%s: %s' % (syn.show(e), why), key=key)
    for how, f, e, msg in kinds.Fixed(P).out:
        where = '%s:%s' % (f['rel'], e.get('l'))
        if how in ('ok', 'edge'): c.ok('fixed', where + ' ' + msg[:120])
        elif how == 'und': c.undecided('fixed', where, msg)
        elif (where, msg) not in seen: seen.add((where, msg)); c.violation('fixed', where, msg, key='%s:%s' % (f['name'].split('(')[0].replace('nikfemm::', ''), msg[:60]))
    for n, f in P.fn.items():
        if n not in [x[0]['name'] for x in K.conflicts]: c.ok('kind', '%s:%d %s' % (f['rel'], f['line'], n[:90]))
    for u, e in P.errors[:5]: c.undecided('kind', u, 'not analysable: ' + e[-200:])
    c.need('kind', 150); c.need('fixed', 20)
    c.assume += ['an edge of a triangulation belongs to at most two triangles (the two-entry edge records of the error estimate)']
    c.facts.update(translation_units=P.units, functions=len(P.fn), subscripts=K.stats['index'], containers_sized=K.stats['sized'], comparisons=K.stats['compared'], calls_instantiated=K.stats['calls'])
    return c.finish('Every subscript, comparison, allocation and append of the library: the kind of thing an integer counts or numbers (node, triangle, segment, edge, region marker) and by what an array is indexed, inferred by unification through locals, containers, struct fields and (instantiated per call) function signatures from the layout of the mesh structure. One class of values holding two kinds is a violation, as is an index that reaches the number of entries.')
