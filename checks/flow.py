"""Glue between the flow comparison and the report."""
import flowcheck, build, terms
GENERAL = ['real arithmetic: floating-point rounding, overflow and non-finite intermediate values are not modelled',
           'equal fingerprints over F_{p^2} (p=2^61-1) are taken as equality of value numbers (collision probability < 2^-50 per comparison)',
           'clang 18 front end, SROA and inliner preserve the meaning of the code; opaque library calls mean what engine/models.py says']
def flow(c, harness=None, need=None, rule='flow', **kw):
    try: res = flowcheck.run(c.pid, src=harness, **kw)
    except build.BuildError as x:      # the entry points are not there any more under these names: nothing can be said
        c.minimum.clear(); c.nobuild = True
        c.undecided(rule, 'specification', 'does not compile against the current headers: ' + str(x)[-600:])
        return []
    tot = dict(ins=0, loops=0, calls=0, stores=0, loads=0)
    for p in res:
        for k in tot: tot[k] += p.stats.get(k, 0)
        if p.status == 'ok': c.ok(rule, p.name + ' (%d instructions, %d loops)' % (p.stats.get('ins', 0), p.stats.get('loops', 0)))
        elif p.status == 'violated':
            locs = [flowcheck.locstr(l) for b in p.bad for l in b[2]]
            c.violation(rule, ' '.join(dict.fromkeys(locs)) or 'nv::impl_' + p.name, p.name + ': ' + ' | '.join('%s %s' % (b[0], b[1]) for b in p.bad)[:3000], key=p.name)
        else: c.undecided(rule, p.name, '; '.join(map(str, p.detail))[:1000])
    for k, v in tot.items(): c.facts['analysed_' + k] = c.facts.get('analysed_' + k, 0) + v
    c.assume += [a for a in GENERAL if a not in c.assume]
    if need and not getattr(c, 'nobuild', False): c.need(rule, need)
    return res
