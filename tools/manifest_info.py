INFO = {
 'C14': ('ownership typestate: path-sensitive forward analysis of one abstract heap object per creation site, with class invariants computed to a fixpoint', 'every function that obtains, releases or moves triangulator buffers; exceptional exits are not judged'),
 'C19': ('interprocedural write-effect analysis (fixpoint of may-write sets over the typed syntax trees of all functions)', 'covers every write the typed program can express; pointer arithmetic across objects is assumed absent'),
 'C20': ('path-sensitive typestate dataflow over the CPython C API in LLVM IR', 'every path of every method; loops by fixpoint'),
 'C22': ('typestate dataflow (ownership of references, pending exception, landing pads) over LLVM IR', 'every path of every method; loops by fixpoint'),
 'C23': ('whole-program IR facts: call graph reachability of terminating calls, mutable globals, entropy sources', 'every function of the library outside the vendored triangulator'),
 'C25': ('forward dataflow over control-flow graphs with interprocedural field-sensitive modification summaries (iterator and reference invalidation, self-aliased arguments, dangling references)', 'every function of the library translation units; unmodelled container operations are reported as undecided'),
 'C26': ('ranking-function analysis on control-flow graphs of the typed syntax trees (loops, self-calls, recursion)', 'every loop and recursive cycle outside the vendored triangulator; exits on floating-point convergence alone are obligations'),
 'C27': ('front-end format lint on the real call sites (argument types against conversions)', 'every diagnostic call site, all logging levels compiled in'),
 'C28': ('index-kind type inference by unification over the typed syntax trees', 'every subscript and loop bound of the mesh-array code'),
}
NA = {'C29': 'accuracy of the numerical solution is a quantitative statement about floating-point results and mesh resolution; no static argument bounds it',
      'C30': 'the triangulation itself is computed by Triangle (third-party code vendored in lib/nikfemm/src/triangle); its mesh quality is a run-time numerical property'}
