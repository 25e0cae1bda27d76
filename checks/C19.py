"""C19: queries, solves and plots change nothing but their declared result (write-effect analysis)."""
import re
import syn, effects
# (functions, parameters they may change); anything else they can reach must stay as it is
SPEC = [
 (r'Mesh<\w+>::compute(AreaIntegral|Mass|Barycenter|InertiaMoment|Curl|Grad)\(', ()),
 (r'Mesh<\w+>::getInnermostPolygon\(', ()),
 (r'Mesh<\w+>::(Elem|Node)ScalarPlot(ToFile)?\(', ()),
 (r'Mesh<\w+>::(Elem|Node)ScalarPlotRend\(', (0,)),
 (r'Mesh<\w+>::getMeshBoundingBox\(', (0, 1, 2, 3)),
 (r'Mesh<\w+>::getMeshScaleOffset\(', (2, 3, 4, 5)),
 (r'MeshData::(get\w+|pointInElem)\(', ()),
 (r'Drawing<\w+>::(plot|plotToFile|getPolygonProp|getRegionPtrFromId|getCurrentEpsilon)\(', ()),
 (r'Drawing<\w+>::plotRend\(', (0,)),
 (r'BaseCSR::(print|printCSR|write_to_file|plot|operator\(\))\(', ()),
 (r'(BaseCSR::BaseCSR|MatCSR\w+::MatCSR\w+|NonLinearMatCSRSymmetric::NonLinearMatCSRSymmetric)\(', ()),
 (r'System<\w+>::System\(', ()),
 (r'(preconditioned\w*C|c)onjugateGradientSolver\(', (2,)),
 (r'multSSORPreconditioner\(', (1,)),
 (r'incompleteCholeskyDecomposition\(', ()),
 (r'(mult|add|sub|div|addScaled|copy)\(', (0,)),
 (r'(squareSum|dot|norm|isnan|element_wise_norm|geomOrientation|pointInTriangle|limit|map)\(', ()),
 (r'(Magnetostatic|CurrentDensity|MultiLayerCurrentDensity)Simulation::solve\(', ()),
 (r'(Magnetostatic|CurrentDensity|MultiLayerCurrentDensity)Simulation::setVoltage\(', (0,)),
 (r'MagnetostaticSimulation::(computeForceIntegrals|computeTorqueIntegral|computeStressIntegral|getSurroundingRegionBlockIntegralAssets)\(', ()),
 (r'MagnetostaticSimulation::updateMu\(', (2,)),
 (r'MultiLayerCurrentDensitySimulation::computePowerDensity\(', ()),
 (r'(Magnetostatic|CurrentDensity)Mesh::getFemSystem(CotangentWeights)?\(', ()),
 (r'MagnetostaticMesh::addDirichletInfiniteBoundaryConditions\(', (0,)),
 (r'NonLinearExpression::(evaluate|isLinear|operator\*)\(', ()),
 (r'(MagnetostaticProp|CurrentDensityProp|BH_Point)::(getMu|isLinear|operator[!=]=)\(', ()),
 (r'Polygon::(contains|area|copy|print|operator[!=]=|\w*[oO]rient\w*|\w*[dD]istance\w*)\(', ()),
 (r'(Segment|Circle)::\w+\(', ()),
 (r'Vector::(operator[-+*/^!=]=?|dot|cross|norm\w*|angle|distance\w*|lerp|rotate|round|magnitude\w*|versor|direction|to_string)\(', ()),
]
SKIP = re.compile(r'Vector::(normalize|operator[-+*/]=)\(|Segment::operator=\(|Circle::operator=\(|isnan\(std')
def short(n): return n.replace('nikfemm::', '')
def run(c):
    P = syn.program(); E = effects.Effects(P)
    found = {}
    for n in P.fn:
        s = short(n)
        if SKIP.search(s): continue
        for pat, allow in SPEC:
            if re.match(pat, s): found[n] = allow; break
    for pat, _ in SPEC:
        if not any(re.match(pat, short(n)) for n in found): c.undecided('pure', pat, 'no function of that name is left')
    params = 0
    for n, allow in sorted(found.items()):
        f = P.fn[n]; s = E.sum[n]; where = '%s:%d %s' % (f['rel'], f['line'], short(n)[:110])
        params += len(f['params']) + (1 if f['f'].get('m') else 0)
        bad = {r: w for r, w in s['w'].items() if not (isinstance(r, tuple) and r[0] == 'p' and r[1] in allow) and not (r == 'this' and f.get('ctor'))}
        unk = {r: w for r, w in s['un'].items() if r not in s['w'] and not (isinstance(r, tuple) and r[0] == 'p' and r[1] in allow)}
        def nm(r): return 'the object it is called on' if r == 'this' else 'its argument "%s"' % f['params'][r[1]]['n'] if r[0] == 'p' else 'the global "%s"' % r[1]
        for r, (l, why) in bad.items(): c.violation('pure', where, 'line %s changes %s: %s' % (l, nm(r), why), key='%s:%s' % (re.sub(r'<\w+>', '', short(n)), r))
        for r, (l, why) in unk.items(): c.undecided('pure', where, 'line %s may change %s: %s' % (l, nm(r), why))
        if not bad and not unk: c.ok('pure', where)
    for u, e in P.errors[:5]: c.undecided('pure', u, 'not analysable: ' + e[-200:])
    c.need('pure', 100)
    c.facts.update(translation_units=P.units, functions_summarised=len(P.fn), queries=len(found), objects_that_must_not_change=params, fixpoint_rounds=E.rounds)
    return c.finish('Every query, evaluation, integral, solve, plot, print and write function (plot code included, compiled against declarations of the OpenCV interface): the set of objects it can write, through its own assignments, its callees, references, pointers, iterators and shallow copies, computed as a fixpoint over the typed syntax trees of all functions, contains only its declared result.')
