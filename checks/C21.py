from flow import flow
import lint, build
KW = dict(defs=['NV_PYMODULE="%s/python/nikfemm.cpp"' % build.REPO], extra=lint.pyinc(), opq=[r'^_?Py', r'MultiLayerCurrentDensitySimulation::\w+\(', r'::drawRectangle\(', r'::drawRegion\(', r'::drawPolygon\(', r'System<double>::~?System\(', r'^nv::(result|tuple)\('],
    opts=dict(alloc=True, objelem={'nikfemm::System<double>': 88}, makes=[(r'::generateSystem\(', 0, 'obj', 1), (r'System<double>::System\(nikfemm::System', 0, 'obj'), (r'System<double>::~System\(', None), (r'::solve\(', 0, 'vec'), (r'::computePowerDensity\(', 0, 'vec')]))
def run(c):
    flow(c, need=11, **KW)
    c.assume.append('the analysed calls are those with valid arguments (C20 decides the others); conversions succeed')
    return c.finish('Every method of the Python module is compared, for valid arguments, with its specification: which library function it calls with which of the caller\'s numbers, and every entry of the lists it returns (layer, coordinates, global node indices, voltage, power density) for any number of layers, nodes and triangles.')
