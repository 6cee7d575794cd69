"""Texts of DESIGN.md that go with the properties: oracle, harness, cost and false alarms."""
ORACLE = {
 "C01": ("threadgroups", "a brute-force walk over the groups: every element of the mesh (with non-zero measure) exactly once; basis-function supports computed from the degree decide which elements couple, and elements of different threads in the same group must not; for histories, a freshly built partitioning", "12 s"),
 "C02": ("algebra (double+float, BLAS) and algebra_noblas (fallback code)", "plain nested loops over std::vector, with guard zones around the operands and the address sanitizer", "45 s"),
 "C03": ("sam", "dense T, g from the definitions by repeated substitution; T'KT, T'(f-Kg), residuals, restricted norms by plain sums", "12 s"),
 "C04": ("constraints", "a reference table of definitions per DOF (first one rules, override rules) evaluated by fixed-point substitution in every state; values, increments and rates at all time points", "33 s"),
 "C05": ("sysmat", "a plain array of numbers updated in lockstep with the operations; solutions verified by substitution", "20 s"),
 "C06": ("timestep", "an independent automaton over (time, step, size, interval) in lockstep with TimeStep; restart and copy explored from every state of a history", "20 s"),
 "C07": ("nonlin", "a reference automaton for convergence, divergence, line search and tangent updates, in lockstep with NonLinSIM/NewmarkNLSIM on a one-DOF model whose residual the explorer chooses in each iteration", "22 s"),
 "C08": ("dynamics", "the Newmark relations and the dynamic equilibrium equation, evaluated with plain 2x2 arithmetic after each step; restarted runs compared with uninterrupted ones", "25 s"),
 "C09": ("eqsys", "independent sums over the elements of the contributions, constraint elimination with dense matrices; Schur complement by dense elimination", "25 s"),
 "C10": ("solvers", "the expected call sequence of the scripted simulators, return codes, saved levels and final states, from a direct description of each driver", "9 s"),
 "C11": ("integrators", "Butcher's rooted trees: one scalar equation per tree with known exact polynomial solution, so that exactness is equivalent to all order conditions; interpolation polynomials for multi-step formulas", "20 s"),
 "C12": ("exprlang (also under asan with only the parser part)", "an independent recursive-descent parser and evaluator over second-order Taylor numbers, and a list of the refused token sequences from the same grammar", "26 s"),
 "C13": ("functions (asan)", "definitions of the functions on second-order Taylor numbers in x, y, z, t; plain interpolation for tables; rotations by Rodrigues' formula for force directions", "45 s"),
 "C14": ("tensors (asan)", "plain matrix algebra on the components; residuals and orthonormality for eigenvectors; Rodrigues' formula for rotations; definitions on the coordinates for points", "14 s"),
 "C15": ("quadrature (asan)", "monomial integrals; Lagrange and Legendre polynomials in coefficient form (long double); chain rule with Cramer inverse; tagged values for the cache", "28 s"),
 "C16": ("results (plain, asan)", "map from data set path to values, built from the registered fields, models and the levels dumped; the file listed through the HDF5 library", "~25 s"),
 "C17": ("norms (asan)", "sums element by element over the active elements with the patch's own material, solution and projections; thresholds and fractions of the marking from their definitions", "29 s"),
 "C18": ("modal (asan)", "Jacobi iteration after Cholesky reduction for eigenpairs; scalar oscillator per mode; reduced system for coupled DOFs", "~30 s"),
 "C19": ("modelinput (asan)", "table of sets and conditions the input was written from; nodes of the entities of a 3-node patch", "~35 s"),
 "C20": ("inputtext (asan)", "the items the text was written from; tinyxml2 on the flattened file; grading formulas", "~40 s"),
}
FALSE_ALARMS = """
* C20: a white-space before a comma or between the last comma and the end has no documented meaning in integer lists, only even gradings are centred, an optional value follows -hdf5 and -restart when the next word is not an option
* C04: the harness confused expandVector with expandSolution; rates of equations whose constant has no function code are not defined; equations for the same DOF from several patches
  have no defined precedence, circular dependencies and chains across merged models are not supported: excluded. Nodes that are holes after collapsing are excluded.
* C05: adding to a locked sparse matrix was first expected to be refused; after the repair (a1a22cc) it is expected to work.
* C06: after a restart without a step sequence only the steps after the restart can be reset to; cut-backs are not repeated by reset.
* C07: line search with zero residual, a linear driver starting from zero, and the iteration limit (not applied when iterations are driven one by one) were wrong in the oracle.
* C08: exact restart is only required when the tangent is updated, or the problem is linear with constant step size.
* C09: elements with only scalars are ignored by design (ElmMats::empty): excluded.
* C10: a single step means end = dt; a run of one step in a multi-step definition does not save an initial state: corrected in the oracle. The numbering of export levels after a restart is not claimed.
* C11: round-off in the stop time of the harness.
* C12: derivatives by difference quotients and ill-conditioned points: comparison restricted to moderate points; the automatic differentiation library gives NaN for tanh'' at +-800 and derivatives of x^p in zero for p<2: excluded;
  the number of threads must be set before functions are created; evaluation after a failed parse is not claimed.
* C15: collapsed elements of large size have a determinant of round-off size instead of zero; singularity is judged for small elements only.
* C16: nodal forces are the negative element forces, and elements without a node on the boundary are refused; projected fields registered separately on mixed models have no documented place in the file and are not enumerated.
* C17: stubs: norm vectors were not zeroed by resize, the DOF map of mixed projections has to be registered, the dummy initElement of ForceBase must be overridden, properties are handled in the order of the model.
* C18: Arnoldi iterations with fewer vectors than equations may converge to other eigenpairs than the wanted ones, or not at all (then reported as failure); compressed sparse matrices must have the same pattern; matrices filled directly must be flagged as non-zero.
* C19: vector-valued traction needs several fields; a set without any local item in a distributed model is no error; local axes have a meaning on boundaries only; node numbers in the input are those before renumbering.
* C14: products of two symmetric tensors of different dimension (the symmetric result has no defined size) are not judged; eigenvectors by Jacobi iteration are accurate to the zero tolerance of the build (1e-12), not relative to the size of the components.
* C13: the normalization of the regularized Dirac function was integrated too inaccurately in the oracle; tolerance of rates of expressions (difference quotients). Chebyshev::evalDer2 in +-1, missing arguments in
  text forms and force directions of non-unit length are not claimed.
"""
