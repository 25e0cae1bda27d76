import build, capi
def run(c, prop='C20', need=150):
    try: found, obl, stats, und = capi.analyse()
    except (build.BuildError, KeyError) as x:
        c.undecided('capi', 'python/nikfemm.cpp', 'does not compile: ' + str(x)[-600:]); return c.finish('')
    bad = set()
    for p, rule, where, msg, key in sorted(found):
        if p == prop: bad.add((rule, where.split(' (')[0])); c.violation(rule, 'python/nikfemm.cpp ' + where, msg, key=key)
    for r, f, i in sorted(obl.get(prop, ())):
        if (r, f) in bad: continue
        c.ok(r, '%s, instruction %s' % (f, i))
    for f, why in und: c.undecided('capi', f, why)
    if not und and not bad: c.minimum['kind' if prop == 'C20' else 'reference'] = 5
    for k, v in stats.items(): c.facts[k] = v
    c.assume += ['the interpreter calls each function with the arguments its method table promises (a tuple of arguments, an object of the type itself)',
                 'an allocation of the interpreter succeeds where the code does not test it; where the code tests it, both outcomes are followed',
                 'no other thread and no callback changes a list between the test of its length and its use']
    return c.finish(TEXT[prop])
TEXT = dict(
    C20='Path-sensitive typestate analysis of every function the interpreter calls, helpers inlined: an item of a list or tuple is only used where its index is known to be below the length or the item was tested for NULL; lists and tuples are only asked for items or sizes, and numbers only converted, where the kind was established; no result of a conversion reaches the simulation before its failure was ruled out; no number of the caller is used as a layer before it was compared with the number of layers; the object behind a System is never followed before it was tested.',
    C22='Path-sensitive typestate analysis of every function the interpreter calls, exceptional edges included: no path leaves by a C++ exception; every path that returns NULL has an exception pending and every other path none; every reference obtained is released, given away or returned exactly once on every path and in every loop round; nothing borrowed is released; nothing is used after its release.')
