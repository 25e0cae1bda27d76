import syn, own
def run(c):
    P = syn.program(python=True); seen = set(); bad = set()
    def report(tag, kind, where, text, key):
        fn = where.split(' ', 1)[1].split('(')[0]; fam = own.re.sub(r'<[^()]*?>', '', fn)
        if (where, key) in seen: return
        seen.add((where, key)); bad.add((where.split(' ')[0]))
        c.violation(kind.replace(' ', '-'), where, text, key='%s:%s' % (fam, key))
    O = own.Owner(P, report)
    roots = O.run()
    for n, why in sorted(O.gave.items()):
        f = P.fn[n]; c.undecided('path', '%s:%s %s' % (f['rel'], f['line'], n.replace('nikfemm::', '')[:90]), why)
    done = set()
    for fn, l, what in sorted(O.sites, key=str):
        f = P.fn[fn]; w = '%s:%s' % (f['rel'], l); fam = own.re.sub(r'<[^()]*?>', '', fn.replace('nikfemm::', ''))[:70]
        if w in bad or (w, fam, what) in done: continue
        done.add((w, fam, what)); c.ok('released' if what == 'release' else 'handed-over' if what.startswith('handed') else 'obtained', '%s %s: %s' % (w, fam, what))
    for n in roots:
        f = P.fn[n]; c.ok('path', '%s:%s %s: every normal path from its entry to its ends' % (f['rel'], f['line'], n.replace('nikfemm::', '')[:90]))
    # what a destructor releases must not be shared by copying member by member
    for cls, d in sorted(O.dtors.items()):
        r = P.rec.get(cls)
        if d not in O.relevant or r is None: continue
        owns = sorted('.'.join(q) for q in O.structptrs(cls) if 'own' in O.inv.get((O.ownercls(cls, q), q[-1]), ()))
        if not owns: continue
        for k, t in (('cctor', 'copy constructor'), ('cassign', 'copy assignment'), ('mctor', 'move constructor'), ('massign', 'move assignment')):
            w = '%s:%s %s' % (P.fn[d]['rel'], r['line'], cls.replace('nikfemm::', ''))
            if r.get(k) == 'default': c.violation('copied', w, 'the %s the compiler writes copies the pointers to %s, and both objects release them' % (t, ', '.join(owns)[:120]), key='%s:%s' % (own.re.sub(r'<.*?>', '', cls), k))
            else: c.ok('copied', '%s: %s is %s' % (w, t, r.get(k)))
    for u, e in P.errors[:5]: c.undecided('path', u, 'not analysable: ' + e[-200:])
    if not O.sites: c.undecided('obtained', 'lib/nikfemm/src', 'no buffer is obtained or released where the analysis can see it')
    c.facts.update(functions_analysed=len(roots), functions_with_buffers=len(O.relevant), sites=len(O.sites), members={'%s.%s' % (k[0].split('::')[-1], k[1]): sorted(v) for k, v in sorted(O.inv.items())}, normal_ends=O.stats['exits'])
    c.assume += ['an allocation does not fail', 'paths that end in an exception are not judged for leaks', 'distinct reference parameters denote distinct objects', 'the triangulator allocates what its switches say it allocates']
    return c.finish('On every normal path of every function that obtains, releases or moves buffers of the triangulator: a pointer is released only while it holds a buffer obtained by the matching allocator and not released yet; a member that may hold one is not overwritten, handed to the triangulator or dropped before it is released; what any member may hold (computed over all functions to a fixpoint) is released by the destructor; no two objects end up holding one buffer, by copying neither.')
