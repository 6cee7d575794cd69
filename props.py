"""The properties: statement, anchors and what their checks assure (see gen.py)."""

def P(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), technique=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          observe_at=list(observe), hook_needed=None), level_note=note)
    if technique:
        d["technique"] = technique
    return d

TRUST = " Trusts the compiler (gcc -O1, no NDEBUG-only checks), the memory sanitizer where used, and the oracle in the harness."

PROPS = [
 P("C01", "Thread groups cover every element once and never share unknowns",
   "For every structured mesh, strip width, strip direction and number of threads, the partitioning of elements into thread groups contains every element exactly once, and two elements that different threads process concurrently never couple to the same unknown. Re-initializing, filtering or renumbering an existing partitioning yields exactly the partitioning of the elements then asked for, whatever it held before.",
   ["inputs", "configurations", "histories"],
   "all 2D and 3D meshes up to the size bound, all patterns of zero-measure knot spans, all strip widths and directions, 1..8 threads, all histories of up to three re-initializations, all filter subsets",
   "The tests check a handful of fixed partitionings for one thread count; a missed or doubly assembled element or a race needs a particular combination of size, width, direction and thread count.",
   ["src/Utility/ThreadGroups.C", "src/Utility/ThreadGroups.h"],
   [("strip sizes at least as wide as the coupling distance", "ThreadGroups::calcGroups"), ("two-coloured groups", "ThreadGroups::StripDirection"), ("subset selection", "ThreadGroups::filter")],
   "Exhaustive within the mesh-size, strip-width and thread-count bounds on the real partitioning code; larger meshes are not explored." + TRUST,
   observe=["ThreadGroups::operator[]"]),
 P("C02", "Dense vector and matrix algebra equals the textbook definition",
   "Every operation on dense vectors and on two-, three- and four-index matrices (products with all combinations of transposition and accumulation, norms, inverses, block and column access, resizing, augmentation) gives the entries of its textbook definition for all shapes, offsets, strides and flags, in both precisions, with and without an external BLAS. No operation touches storage outside its operands, and sequences of shape-changing operations keep all entries that remain valid.",
   ["inputs", "configurations", "histories"],
   "all operand shapes up to 3 (4 thorough) per index, all flags, offsets and strides, all sequences of two (three) shape-changing operations, BLAS and fallback build, float and double",
   "The tests exercise a few operations on one shape each, in double precision with BLAS only; wrong leading dimensions, flags, offsets and stale entries only show for particular shapes.",
   ["src/LinAlg/matrix.h", "src/LinAlg/matrixnd.h", "src/LinAlg/MatVec.C"],
   [("BLAS calls with leading dimension and increments", "utl::matrix<T>::multiply"), ("resize keeping or discarding content", "utl::matrixBase::redim")],
   "Exhaustive within the shape bounds, under the address sanitizer; one fixed set of distinct entries per shape, since all operations but the inverse and norms are linear." + TRUST,
   observe=["utl::vector", "utl::matrix", "utl::matrix3d", "utl::matrix4d"]),
 P("C03", "Constraint equations are eliminated exactly",
   "For every assignment of free, fixed, prescribed and dependent status to the DOFs of an FE model, let u = T*q + g be the constraint equations. Each free DOF then has exactly one equation number (those of the second status group last) and queries in either direction agree; the expanded solution is T*q + g; the assembled system matrix is the sum of T'*K*T and the right-hand side that of T'*(f-K*g), with equations that get no contributions regularised, on every matrix format and assembly mode, also when re-assembled; the equation couplings (sparsity pattern) include every non-zero of T'*K*T; and the reaction forces are the residual in the fixed, prescribed and dependent DOFs. Norms and dot-products restricted to a DOF type include exactly the DOFs of that type.",
   ["inputs", "configurations", "histories"],
   "all status assignments (6 kinds per DOF), constraint orders, master selections and constants in five small FE models with up to five DOFs; five matrix formats, three pre-assembly modes, three ways of assembly, assembly repeated once",
   "The tests assemble a few models with at most one constraint type; which term is lost depends on the combination of dependent DOFs sharing an element, constants, ordering, matrix format and assembly mode.",
   ["src/LinAlg/SAM.C", "src/LinAlg/SAM.h", "src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/DiagMatrix.C", "src/LinAlg/ISTLMatrix.C", "src/LinAlg/SystemMatrix.C"],
   [("equation numbering", "SAM::initSystemEquations"), ("constraint elimination in assembly", "assemSparse, assemDense"), ("sparsity pattern", "SAM::getDofCouplings")],
   "Exhaustive within the model sizes on the real code; the SPR and PETSc formats are not available in this build. The coefficients are one fixed set of distinct values, which suffices because all results are multi-linear in them." + TRUST,
   observe=["SAM", "SystemMatrix::multiply", "SystemVector"]),
 P("C04", "The constraints in force are those defined, through merging and renumbering",
   "For every sequence of boundary conditions and constraints on the nodes of an FE model (fixed and prescribed DOFs with or without overriding, two-, three- and multi-point constraints, periodicity, rigid, local-axes and weighted nodal couplings, merged and renumbered nodes), each DOF is governed by its first definition unless a later one overrides a Dirichlet condition, and a fixed DOF stays fixed. Definitions from several patches are merged and chains of dependent DOFs resolved such that the expanded solution satisfies every equation in force, whether resolved at once or by links; also when models are merged. For time dependent prescribed values, the increments, corrections and rates of the solution satisfy the same equations at every point of the time history.",
   ["histories", "inputs", "configurations"],
   "all sequences of three or four definitions out of some forty kinds on a patch with two or three unknowns per node and on two patches sharing two nodes, both ways of resolving, two time histories; all pairs of models with two definitions each, merged with zero to two common nodes",
   "The tests add a few constraints to a patch and count them; lost and misapplied constraints depend on the order of definitions, numbering, the chain of dependencies and the history of the prescribed values.",
   ["src/ASM/ASMbase.C", "src/ASM/SAMpatch.C", "src/Utility/MPC.C", "src/Utility/Utilities.C"],
   [("definition and overriding", "ASMbase::addMPC, fix, prescribe"), ("merging", "ASMbase::mergeAndGetAllMPCs, MPC::merge"), ("chains", "ASMbase::resolveMPCchains, SAMpatch::initConstraintEqs"), ("time history", "ASMbase::updateDirichlet, SAMpatch::updateConstraintEqs")],
   "Exhaustive over the definition sequences within the depth on the real classes, compared with an independent reference that evaluates the equations. Circular dependencies, equations whose precedence between patches is undefined and chains across merged models are excluded; the patch is a minimal implementation of the abstract ASMbase." + TRUST,
   observe=["ASMbase::findMPC", "SAM::getEquation", "SAM::expandSolution"]),
 P("C05", "System matrices keep their value through every sequence of operations",
   "A system matrix is, on every storage format (dense general and symmetric, diagonal, sparse for SuperLU, UMFPACK or SAMG, and ISTL), an array of numbers that only the requested operations change: after any sequence of re-initialization, resizing, redimensioning, entry updates, element assembly, scaling, addition of a constant or another matrix, truncation, augmentation, pattern compression and locking, copying and solving, the products, norms, entries, columns, sub-matrices, sparsity pattern and text/binary dumps of the matrix are those of that array. Solving gives the solution of the linear system for all right-hand-sides, also when the factorization is re-used or the content was changed since the last solve, and leaves the right-hand-side intact when the solution is returned separately.",
   ["inputs", "histories", "configurations"],
   "all sequences of three (four thorough, diagonal and ISTL) operations out of 16 kinds with their variants, ending with one more solve of a re-used matrix, seven formats, five shapes, two initial contents",
   "The tests build one matrix in one way per format and use it once; stale content, wrong compressed access, and wrong re-use of factorizations need particular sequences.",
   ["src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/DiagMatrix.C", "src/LinAlg/ISTLMatrix.C", "src/LinAlg/SystemMatrix.C"],
   [("editable, locked and compressed patterns", "SparseMatrix::editable"), ("re-used factorizations", "SparseMatrix::solveSLUx, solveUMF, DenseMatrix::solve")],
   "Exhaustive within the operation depth on the real matrix classes, for matrices of up to 4x4 and one set of values per operation. The SPR, SAMG (solve) and PETSc formats are not available in this build." + TRUST,
   observe=["SystemMatrix", "SparseMatrix", "DenseMatrix", "DiagMatrix"]),
 P("C06", "Time stepping visits exactly the requested times in every history",
   "For every time stepping definition (start and stop time, a sequence of intervals with one or several step sizes or a number of steps, graded intervals, maximum number of steps, minimum and maximum step size with iteration-dependent adaption, CFL restriction, XML or legacy text input) and every history of iteration counts, CFL numbers and cut-backs, each increment advances the time by exactly the current step size, which is positive; the end of every interval and the stop time are hit exactly and never passed; the step sizes are those of the definition; a cut-back restarts from the last converged time with a smaller size not below the minimum size and fails when at that minimum; and the simulation ends at the stop time or after the maximum number of steps. Restarting from serialized data and copying the object continue the sequence exactly as if not interrupted, and resetting to an earlier step repeats the same steps.",
   ["histories", "inputs"],
   "twelve time stepping definitions, all histories of three iteration counts or CFL numbers and up to two cut-backs per step in the first six (eight thorough) steps, continued to the end; restart or copy after any of the first four steps; reset to any visited step",
   "The tests run each definition once without cut-backs and check a few times; errors appear in particular positions of an interval, after a cut-back or restart there.",
   ["src/SIM/TimeStep.C", "src/SIM/TimeStep.h", "src/SIM/TimeDomain.h"],
   [("advance and interval ends", "TimeStep::increment"), ("cut-back", "TimeStep::cutback"), ("restart", "TimeStep::serialize, deSerialize")],
   "Exhaustive over the event histories within the depth on the real class, compared in lockstep with an independent reference model; the definitions are a fixed set." + TRUST,
   observe=["TimeStep::time", "TimeStep::step", "TimeStep::increment", "TimeStep::finished"]),
 P("C07", "Equilibrium iterations end with the right verdict and the right solution",
   "For every sequence of residuals and solution increments the nonlinear and the dynamic solution drivers meet, and every set of control parameters (convergence norm energy, residual or displacement, relative and absolute tolerance, reference norm option all or max, maximum number of iterations, allowed number of successive norm increases, divergence limit, number of iterations with updated tangent, line search tolerance, restart from the initial configuration), a step is reported as converged exactly when the norm relative to the reference norm drops below the tolerance or there is no load on the step, and as diverged exactly when the norm increased in too many successive iterations, exceeds the divergence limit upon an increase, is not a number, or the iteration limit is reached. The solution is the sum of all increments with their line search factors, line search ends in a point that satisfies its tolerance or else is the best visited, the tangent is updated in the requested iterations only, and several drivers that iterate in turns do not affect each other. A linear driver takes exactly one solution per step.",
   ["histories", "configurations", "schedules"],
   "38 control parameter sets, static and dynamic driver; all sequences over seven residual magnitudes in the first five (six thorough) iterations of one step and three (four) of the next; complete steps and iteration-wise interleaving with a second driver; 1296 springs with line search",
   "The tests solve two well-behaved problems; the verdict on slow, oscillating, growing or undefined residuals, second steps and interleaved drivers depends on the history of norms.",
   ["src/SIM/NonLinSIM.C", "src/SIM/NewmarkSIM.C", "src/SIM/MultiStepSIM.C"],
   [("convergence and divergence check", "NonLinSIM::checkConvergence, NewmarkSIM::checkConvergence"), ("line search", "NonLinSIM::lineSearch"), ("iteration loop", "NonLinSIM::solveStep, solveIteration")],
   "Exhaustive over residual histories within the depth on the real drivers with a one-DOF model whose residual and tangent are scripted, compared with a reference automaton." + TRUST,
   observe=["NonLinSIM::solveStep", "NewmarkSIM::solveStep", "SIMsolution::getSolution"]),
 P("C08", "Time integration satisfies the equations of its scheme in every history",
   "For the Newmark, generalized-alpha, Hilber-Hughes-Taylor and nonlinear Newmark (with true inertia) drivers, after every converged step of every history of step sizes and load levels the displacement, velocity and acceleration satisfy the Newmark relations with the scheme's beta and gamma, and the dynamic equilibrium equation of the scheme with mass, damping (viscous, mass- and stiffness-proportional) and linear or nonlinear stiffness, independently of the chosen predictor (zero acceleration, constant velocity, constant displacement), primary unknown (acceleration or displacement) and tangent update option; prescribed motion is followed exactly; the initial acceleration balances the initial load. A simulation restarted from the serialized state of any step continues identically.",
   ["histories", "configurations"],
   "all histories of two step sizes and three load levels over four (five thorough) steps with a restart after any step, for 222 combinations of scheme, predictor, unknown, damping, numerical damping, tangent update, linear or cubic spring and prescribed motion",
   "The tests compare a few responses at constant step size and load with tabulated values to a coarse tolerance; errors in terms that vanish for constant load, zero damping, one predictor or before a restart stay hidden.",
   ["src/SIM/NewmarkSIM.C", "src/SIM/GenAlphaSIM.C", "src/SIM/HHTSIM.C", "src/SIM/NewmarkNLSIM.C", "src/SIM/MultiStepSIM.C", "src/ASM/NewmarkMats.C", "src/ASM/HHTMats.C"],
   [("predictor and corrector", "NewmarkSIM::predictStep, correctStep"), ("element Newton matrix and residual", "NewmarkMats, HHTMats"), ("restart", "MultiStepSIM::serialize, HHTSIM::serialize")],
   "Exhaustive over the histories within the depth on the real drivers with a coupled two-DOF oscillator; HHT and nonlinear Newmark are explored from zero initial conditions only." + TRUST,
   observe=["SIMsolution::getSolution"]),
 P("C09", "The equation system holds the sum of all element contributions",
   "An equation system with any number of matrices, right-hand-side vectors and scalars holds, after every assembly pass, the sum over the elements of exactly what each of them delivered: matrices, vectors and scalars land in the system matrix, vector and scalar with the same index, the element Newton matrix and right-hand side are used when there is one matrix with a right-hand side, prescribed values and constraint constants contribute to the vector associated with each matrix, and reaction forces hold the unbalanced force in all constrained DOFs. This is so for every matrix format and pre-assembly mode, when only the right-hand side is wanted, for elements without matrices, in repeated passes and after re-initialization with another size, in copies, assigned and added systems, and independent of the order of the elements and of which thread assembles which element. Static condensation gives the Schur complement for every selection of retained nodes, leaves the system as it was, and its recovery file reproduces the full solution including prescribed values, while truncated files are rejected. Reaction forces integrated alone, nodal boundary forces and global norms equal the sums over the element contributions too.",
   ["inputs", "histories", "configurations", "schedules", "crash_points"],
   "thirteen constrained models x all systems of up to two matrices, three vectors and two scalars x format, pre-assembly mode, associated vectors and reactions x histories of two passes (seven kinds) and copy, assign and add operations; all assignments of elements to 1-3 threads over two passes; all selections of retained nodes; all truncations of the recovery file; all node lists up to three; all norm group layouts",
   "The tests assemble one matrix and one vector; contributions that end up in the wrong place or are lost need several vectors, constraints, a second pass, a copy or another thread.",
   ["src/ASM/AlgEqSystem.C", "src/ASM/ReactionsOnly.C", "src/ASM/GlbForceVec.C", "src/ASM/GlbNorm.C", "src/ASM/ElmMats.C", "src/LinAlg/SparseMatrix.C"],
   [("assembly", "AlgEqSystem::assemble"), ("per-thread scalars", "AlgEqSystem::initialize, finalize"), ("condensation", "AlgEqSystem::staticCondensation, recoverInternals")],
   "Exhaustive within the sizes and two passes on the real classes, compared with an independent sum over the elements. The assembly calls of different threads are serialized; that concurrent ones do not touch the same unknowns is C01." + TRUST,
   observe=["AlgEqSystem::getMatrix", "AlgEqSystem::getVector", "AlgEqSystem::getScalar", "AlgEqSystem::getReactions"]),
 P("C10", "Simulation drivers solve, save and restart every time step exactly once",
   "The transient driver solves the time steps in order, advances, solves and saves each of them exactly once, saves the initial state first in multi-step simulations, stops at the first failure with the return code telling what failed, and saves diverged solutions only if asked to. Results are exported with consecutive time levels at the requested stride, with the geometry on the first level. A simulation restarted from any level of the restart file continues with exactly the state, time and step number of that level and gives the same final state and the same restart levels as if it were not interrupted, also when it writes to the same file; the level that was read is returned, counting from one, and missing levels and files are reported as failures. Restart data of any size and content are read back unchanged. The stationary and the mesh-adaptive drivers call solver, norm, adaption and output in order and stop at the first failure. The time-slab adaptive driver saves, for every history of refinements and predictions, results in increasing time step order, only states that follow from the previous steps on the saved mesh with staggering enabled, and always the final step. Coupled simulators run both in the defined order and stop when one fails; semi-implicit coupling iterates until both have converged or the iteration limit, reports divergence and failure, and applies constant or Aitken relaxation to the solution, which remains finite.",
   ["histories", "fault_sequences", "configurations"],
   "up to four time steps x failure of any operation in any step x output strides 0-3; restart: 1-5 (7 thorough) steps x restart and output strides x interruption in any step x restart from any level, into same or new file, real HDF5 files; slab adaptive: 24 parameter sets x 3-6 (8) steps x all refinement verdicts in the first five (seven) adaptions x one failure; adaptive: 0-3 cycles x failure of any call; all status sequences of two simulators in up to four sub-iterations over two steps x relaxation x Aitken x four contractions",
   "The tests check that the coupled classes compile and delegate; sequences with failures, restarts and refinements are not run.",
   ["Apps/Utils/SIMSolver.h", "Apps/Utils/SIMSolverTS.h", "Apps/Utils/SIMSolverAdap.h", "Apps/Utils/SIMCoupled.h", "Apps/Utils/SIMCoupledSI.h", "src/Utility/HDF5Restart.C", "src/Utility/DataExporter.C"],
   [("time loop", "SIMSolver::solveProblem"), ("restart", "SIMSolver::restart, HDF5Restart::writeData"), ("slab adaptivity", "SIMSolverTS::solveProblem"), ("sub-iterations", "SIMCoupledSI::solveStep")],
   "Exhaustive within the bounds on the real drivers, instantiated on scripted simulators with a history-dependent state; mesh refinement itself is scripted." + TRUST,
   observe=["ISolver call sequence", "SIMSolver::solveProblem return value", "restart and result files"]),
 P("C11", "Time integration schemes reproduce the solutions their order promises",
   "Each explicit Runge-Kutta scheme (Euler, Heun, RK3, RK4 and the embedded Heun-Euler, Bogacki-Shampine and Fehlberg schemes) of order p solves every differential equation whose solution is determined by the order conditions up to order p exactly, for any sequence of step sizes, with nonlinear right-hand sides depending on the solution, on time and on time-dependent prescribed values, which hold exactly at the end of each step. The embedded schemes estimate the error with a solution of the next order, reject and repeat the step from the same state with a smaller step size until the estimate is below the tolerance, fail when the step size cannot be reduced, and select the next step size from the estimate. The result does not depend on the mass matrix being treated as constant, and the mass matrix is then assembled only once, also with rejected steps or after a restart. Adams-Bashforth and Adams-Moulton schemes add in every step the integral of the polynomial interpolating the available loads, starting with the order the initial conditions allow and after a restart with order one, increasing to the full order. A failing operation makes the step fail. Backward differences of order one and two, for first and second time derivatives, are exact for polynomials of their degree in every step from the first, for any sequence of step sizes for first derivatives, and do not use solutions before the initial one. Methods are found by name with their order and number of steps.",
   ["inputs", "histories", "fault_sequences", "configurations"],
   "all 17 rooted trees up to order 5 with three kinds of leaves; Runge-Kutta: 4 (5 thorough) steps x 3 step sizes; embedded: 3 (4) steps x all accept/reject sequences with six error levels; multi-step: k+3 steps x available initial conditions x restart after any of the first three steps; 12 scalar equations for the implicit schemes; failure of any call; backward differences: 5 (6) steps x 3 step sizes",
   "The tests check the names, and a few coefficients for constant step size; a wrong coefficient, stage time or starting step only lowers the convergence order.",
   ["Apps/Utils/SIMExplicitRK.h", "Apps/Utils/SIMExplicitRKE.h", "Apps/Utils/SIMExplicitLMM.h", "Apps/Utils/SIMImplicitLMM.h", "Apps/Utils/TimeIntUtils.C", "src/Utility/BDF.C", "src/Utility/BDF.h"],
   [("Runge-Kutta", "SIMExplicitRK::solveRK"), ("embedded", "SIMExplicitRKE::solveStep"), ("multi-step", "SIMExplicitLMM::solveStep, SIMImplicitLMM::solveStep"), ("backward differences", "BDF::advanceStep")],
   "Exhaustive over histories within the bounds on the real classes; the order conditions up to order 5 are complete. The simulator is a system of ordinary differential equations; the implicit schemes use the real nonlinear driver." + TRUST,
   observe=["solution vectors", "TimeStep::time", "BDF::getCoefs"]),
 P("C12", "Expressions evaluate and differentiate as documented",
   "Every expression of the documented language (numbers, identifiers, constants, comments, the operators + - * / ^ and signs with their documented precedence and associativity, parentheses, assignments, sequences of statements, functions with value and reference arguments) is accepted and evaluates in every point, for scalar, vector, tensor and symmetric tensor valued functions, to the value defined by the documentation of the language, with lazily evaluated alternatives; every other sequence of tokens is refused with an error; an undefined value (division by zero, function argument out of range) is reported and gives zero, also in derivatives. With automatic differentiation the first and second derivatives, gradient and Hessian are those of the expression; otherwise the given derivative expressions are used for exactly the directions they are given for, and difference quotients for other first derivatives. Gradients, Hessians, time derivatives, values and their numbers of components have the documented layout, functions said to be time-independent do not depend on time, and parameters set by name are used from then on in all threads.",
   ["inputs", "histories", "configurations"],
   "all operator sequences with up to 4 (5 thorough) operands, signs and one parenthesized range; all built-in functions of all combinations of arguments and composed with each unary function; up to three (four) statements after initial assignments; 14 number formats in 14 x 14 contexts; all token sequences up to length 4 (5) over 15 tokens; all combinations of explicitly given derivatives for all numbers of components; histories of four (five) parameter settings seen from three threads; 3-6 evaluation points",
   "The tests evaluate a dozen expressions; precedence, associativity and nesting, malformed input, rarely used functions, undefined values and derivative layouts go wrong for particular combinations.",
   ["src/Utility/ExprFunctions.C", "src/Utility/ExprFunctions.h", "src/Utility/TensorFunction.C", "src/Utility/Function.h", "3rdparty/expreval/parser.cpp", "3rdparty/expreval/node.cpp", "3rdparty/expreval/func.cpp"],
   [("operator precedence", "Parser::ParseRegion"), ("built-in functions", "FunctionList::AddDefaultFunctions"), ("derivatives", "EvalFuncSpatial::deriv, dderiv, gradient, hessian"), ("components", "EvalMultiFunction::evalGradient, evalHessian")],
   "Exhaustive within the lengths on the real parser and evaluator, compared with an independent recursive-descent evaluator over second-order Taylor numbers in a fixed set of points; random numbers, underflow in powers, and derivatives at kinks and of x^p for p<2 in zero are excluded." + TRUST,
   observe=["RealFunc::operator()", "RealFunc::deriv", "EvalFunc::numError"]),
 P("C13", "Predefined functions of space and time",
   "Every predefined function of time (ramp, Dirac, step, sine, linear, constant, piecewise linear tables read from a file, expressions), every predefined function of space (linear, quadratic, stepwise, rotation, regularized Dirac, tabulated along one direction, Chebyshev polynomials, scalar, vector or tensor valued), and their products, weighted sums and maxima, has the documented value in every point and at every time, whether it is created directly or from its text with scaling factor and time variation; its first and second derivatives in space, gradient, Hessian and time derivative are those of that value wherever they exist; it has the documented number of components; and it reports being zero, or independent of time, only if it is. Tables are read from any file with comment and blank lines, constant outside the range, used from any column, up to the first point out of order. Pressures act along the normal or the given direction, stress fields give tractions by contraction with the normal, force resultants act in the rotated or given direction with the magnitude distributed by the shape function; and the rates of pressures and stress tractions are the derivatives of these with respect to time. Products and sums pass on patch and domain.",
   ["inputs", "configurations"],
   "all combinations of kind and of parameters from sets of 2-4 values, by constructor and by text, with and without time factor (5 kinds); tables with up to 3 (4 thorough) points in 4 file layouts and 3 columns; Chebyshev functions with up to 3 (4) terms in each of 3 directions and all polynomials up to degree 8 (11) ; sums of up to three functions with four weights; 27-216 points times 2-4 times including break points",
   "The tests evaluate a few functions in a few points; derivatives with respect to time, flags, break points, scaling factors, file layouts and rarely used kinds go wrong for particular combinations only.",
   ["src/Utility/Functions.C", "src/Utility/Functions.h", "src/Utility/Function.h", "src/Utility/Chebyshev.C", "src/Utility/TractionField.C", "src/SIM/FunctionSum.C"],
   [("text forms", "utl::parseRealFunc, parseTimeFunc, parseTracFunc, parseVecFunc"), ("tables", "LinearFunc, LinVecFunc, Interpolate1D"), ("products", "SpaceTimeFunc"), ("Chebyshev", "ChebyshevFunc::deriv, dderiv"), ("tractions", "PressureField, TractionField, ForceDirField"), ("sums", "FunctionSum::getValue")],
   "Exhaustive over the parameter sets on the real classes in a grid of points, compared with definitions on second-order Taylor numbers. Derivatives at break points and of the regularized Dirac and step functions in expressions are excluded." + TRUST,
   observe=["RealFunc::operator()", "RealFunc::deriv", "RealFunc::dderiv", "isConstant", "TractionFunc::timeDerivative"]),
 P("C14", "Tensor and vector algebra",
   "Tensors of dimension 1 to 3 and symmetric tensors, including plane strain ones, hold exactly the components they are given, in the documented order, whether constructed from components, arrays, scalars, point vectors or other tensors or assigned from tensors of another kind or dimension (common components, zero elsewhere). Transposition, symmetrization, shifting, sums, scaling, products with tensors and points, inner and outer products, trace, determinant, inverse (or the report that there is none), norms, von Mises values, strain-like measures (right and left Cauchy-Green), rotation of tensors and congruence transformations are those of the matrix they represent; principal values are its eigenvalues in the promised order and the directions orthonormal eigenvectors, also for equal values and for large and small components. Coordinate systems from one or two vectors are orthonormal, right-handed, and aligned with them; rotation tensors are those of the rotation vector and give it back; fourth-order identities and components are addressed consistently. Operations on points (sums, dot and cross products, lengths, ordering, comparison within tolerance, bounding box tests, matrix products) are those of their coordinates, with time and parameters carried along. No operation reads or writes outside the tensor.",
   ["inputs"],
   "all tensors with components from 3-7 values (general ones up to 3x3 with 3 values per component, symmetric 3D ones with 5, thorough 7) in 3 scalings plus nearly equal values; all 49 pairs of 7 kinds of tensors with 5 component patterns each; coordinate systems from all vectors of lattices of 3-7 values per coordinate; 343 rotation vectors; all pairs of 64 (125) points; address sanitizer on",
   "The tests use a handful of tensors, mostly 2D and 3D general ones; plane strain storage, mixed kinds, multiple eigenvalues and degenerate directions go wrong only for particular kinds and values.",
   ["src/Utility/Tensor.C", "src/Utility/Tensor.h", "src/Utility/Tensor4.C", "src/Utility/Tensor4.h", "src/Utility/Vec3.h", "src/Utility/Vec3Oper.C"],
   [("storage", "Tensor::index, SymmTensor::redim"), ("eigenvalues", "SymmTensor::principal"), ("axes", "Tensor::Tensor(const Vec3&,bool), Tensor(v1,v2,...), rotVec"), ("fourth order", "SymmTensor4::index"), ("points", "Vec3::inside, operator<")],
   "Exhaustive over the component sets on the real classes under the address sanitizer, compared with plain matrix algebra. Symmetric products of tensors with different dimension, equality across dimensions, and rotations by an angle of pi are not judged." + TRUST,
   observe=["Tensor::operator()", "SymmTensor::principal", "SymmTensor::inverse", "Tensor::rotVec", "Vec3::operator<"]),
 P("C15", "Quadrature, interpolation and coordinate mappings",
   "The Gauss rules with 1 to 10 points and the Gauss-Legendre and Gauss-Lobatto-Legendre rules with any number of points integrate all polynomials up to their degree exactly with positive weights in ascending, symmetric points, the triangle rules those of their degree; rules that do not exist are reported as such. Legendre polynomials, their derivatives and the Lobatto differentiation matrix, one-dimensional Lagrange interpolation, Pascal's triangle and tensor-product Lagrange bases of any order in one to three directions, on uniform or given points, have the right values and derivatives, and points outside the domain are refused where documented. For every element shape the Jacobian determinant (or curve and surface dilation), its inverse, the gradients, second derivatives and (for affine elements) third derivatives of the basis functions, boundary and edge dilations, tangents and normals, the Hessian of the geometry and the gradients of the Jacobian and its determinant are those of the mapping; singular points are reported with a zero determinant and no derivatives; curves and shells keep their parametric derivatives. Mixed elements transform each basis with the chosen or a separate geometry, and their Piola-mapped functions and gradients are those of the contravariant mapping. Basis function caches return the values of the requested element, point, rule, basis and number of derivatives for every cache policy and history of initializations and clearings, computing each no more often than the policy says.",
   ["inputs", "operation sequences"],
   "rules with up to 16 (24 thorough) points and all monomials; polynomials to degree 10 (14); bases with 1-5 points per direction (3D: 1-3, thorough 5) in 2 layouts and up to 125 plus nodal points; elements with 2-4 (5) nodes per direction in 1D-3D, 8 shapes (affine, bilinear, quadratic, curved, irregular, degenerated, collapsed) x 2 sizes x 2 orientations in 9-18 points; all 3^8 (4^8) nodal offsets of four-node quadrilaterals, 3^4 of shells, 3^8 of eight-node hexahedra; mixed elements with all geometry bases; all command sequences of length 4 (5) on two caches sharing the rule for 4 policies and 4 (6) sets of rules; address sanitizer on",
   "The tests check one regular element per dimension, sums of weights, and no cache at all; errors in individual rules, orders, orientations, or terms of higher derivatives that vanish on regular elements are not seen.",
   ["src/Utility/GaussQuadrature.C", "src/Utility/TriangleQuadrature.C", "src/Utility/Legendre.C", "src/Utility/LagrangeInterpolator.C", "src/Utility/CoordinateMapping.C", "src/Utility/IFEM_math.C", "src/ASM/Lagrange.C", "src/ASM/FiniteElement.C", "src/ASM/BasisFunctionCache.C"],
   [("rules", "GaussQuadrature::getGauss, Legendre::GLL"), ("basis", "Lagrange::computeBasis"), ("mappings", "utl::Jacobian, Hessian, Hessian2, detJacGradient"), ("mixed", "MxFiniteElement::Jacobian, Hessian, piolaGradient"), ("cache", "BasisFunctionCache::init, getVals")],
   "Exhaustive over the families on the real functions under the address sanitizer, compared with polynomials in coefficient form and the chain rule. The stabilization matrix (getGmat), element interfaces and the spline bases (not compiled here) are not covered." + TRUST,
   observe=["utl::Jacobian", "utl::Hessian", "Lagrange::computeBasis", "BasisFunctionCache::getVals", "MxFiniteElement::piolaMapping"]),
 P("C16", "The result database holds exactly the results handed to it",
   "After every history of result dumps with and without time step, geometry updates, strides, fields enabled, disabled and written once, dumps refused for missing data, restarts from an earlier level of an appended file and resumed files, the HDF5 file holds for every dumped time level exactly the data sets of the enabled fields, each with the values it had at that dump, the levels are numbered consecutively from the requested or the last existing one, a refused dump changes nothing, and the log is that of the last run. For every combination of results of a simulator on several patches (primary, secondary, projected, norms, element masks, grid, local-to-global nodes, eigenmodes, nodal forces; mixed, rotational and scalar models; suppressed fields, prefixes, patches and elements activated in time) each patch and basis has its own values in its own order, written only where requested. The reader returns vectors, numbers, texts, three-dimensional arrays and the number of patches as they are in the file, converts between real and integer data, reports missing and empty data without side effects, and leaves the file free for subsequent writing.",
   ["operation sequences", "inputs", "histories"],
   "all sequences of 4 (5 thorough) out of 11 operations on one file with six kinds of fields of two two-patch models; 64 sets of results x 3 kinds of models x 5 kinds of projections x with/without separate projection basis, description as name, empty solution, prefix, suppression and activation, two levels each; 1-6 eigenvalue solvers with 0-3 modes; all 64 sets of nodes x 1-3 force components; all pairs (triples) of 6 kinds of reads of 10 existing, empty and missing data; every data set of the file compared through the HDF5 library and the reader; a part of it with the address sanitizer",
   "There are no tests of the HDF5 output; applications read back one kind of result of one run, and a missing, stale or shifted data set of a later level or patch goes unnoticed.",
   ["src/Utility/DataExporter.C", "src/Utility/HDF5Writer.C", "src/Utility/HDF5Reader.C", "src/Utility/HDF5Base.C", "src/ASM/GlbForceVec.C", "src/SIM/SIMbase.C"],
   [("histories", "DataExporter::dumpTimeLevel"), ("results", "HDF5Writer::writeSIM"), ("append", "HDF5Writer::getLastTimeLevel, writeArray"), ("reader", "HDF5Reader::readVector, readString, read3DArray")],
   "Exhaustive over the histories and combinations on the real exporter, writer, reader and HDF5 library, compared with a map from path to values built from the documented layout. Parallel (MPI) output and full disks are not covered." + TRUST,
   observe=["HDF5Writer::writeArray", "HDF5Writer::writeSIM", "DataExporter::dumpTimeLevel", "HDF5Reader::readVector"]),
 P("C17", "Norms and forces sum exactly their elements, and marking selects exactly",
   "For every model of up to three patches (empty and inactive patches, materials, several element groups, boundary conditions with traction, nodes shared by two or three patches, nodal or patch-wise (separate) projections and mixed bases) the global norms and element norms computed by SIMbase::solutionNorms are the sums over every active element once, of the element's integrals evaluated with the solution, material and projected solutions of its own patch, plus the boundary terms; missing projections leave their norm group empty and do not shift the others; the final operation (absolute value or square root) is applied once; failing elements are reported. SIMbase::project gives the nodal averages over the patches sharing a node (or the patches' own values, in order), and boundary forces (SIM::getBoundaryForce) are the sums over the boundaries with the given code. AdaptiveSetup::calcRefinement marks exactly the elements at or above the threshold of the selected type (largest, average, minimum, Doerfel, fraction, symmetrized, threshold, true beta), largest first, never an element with less error before one with more and not more than there are, and stops exactly at the given tolerance, step, size and condition limits.",
   ["inputs", "operation sequences"],
   "12 (18 thorough) models x nodal/separate/mixed x materials, groups, activation, final operations, failures, up to three projections each given, missing, or as field; 5 projection methods; boundaries with 3 codes on up to 4 ends; marking: 8 types x 3 schemes x 11 thresholds x all distributions of 4 (5) error values over 1-5 (6) elements; stopping: all combinations of 3 norm groups x criteria",
   "Norm tests use one patch with all projections present, and adaptive tests one run each; the failures appear for missing projections, inactive or empty patches, several element groups, exact ties at the threshold, and fractional percentages.",
   ["src/SIM/SIMbase.C", "src/ASM/GlbNorm.C", "src/ASM/IntegrandBase.C", "src/SIM/ForceIntegrator.C", "src/SIM/AdaptiveSetup.C"],
   [("norms", "SIMbase::solutionNorms, NormBase, GlbNorm::assemble"), ("projection", "SIMbase::project"), ("forces", "SIM::getBoundaryForce"), ("marking", "AdaptiveSetup::calcRefinement, initPrm, parse")],
   "Exhaustive over the listed models and distributions on the real classes (patches are stubs with integer-like element values), compared with direct sums over elements written from the definitions. Numerical integration of real spline patches and the mesh refinement itself (LR splines) are not covered." + TRUST,
   observe=["SIMbase::solutionNorms", "SIMbase::project", "SIM::getBoundaryForce", "AdaptiveSetup::calcRefinement"]),
 P("C18", "Eigenmodes solve the eigenvalue problem, and modal superposition is exact",
   "For every symmetric stiffness matrix and positive definite mass matrix, eig::solve returns for each solution method (Arnoldi iterations in regular, inverse, shift-and-invert, buckling and Cayley mode, and LAPACK) and matrix format the requested number of distinct eigenvalues in ascending order, with mass-normalized, mutually orthogonal eigenvectors, those wanted for the method and shift when the whole space is spanned, or reports failure; never values that did not converge. SIMbase::systemModes gives them as frequencies or eigenvalues as asked for, numbered, with the vectors expanded to fixed and coupled DOFs, and refuses invalid numbers of modes. Mode::orthonormalize scales the mode to unit modal mass in both forms and refuses zero vectors, and computeDamping gives the modal damping. The modal system (SIMmodal) has for each mode the Newmark (or static) coefficient and residual of the scalar oscillator with its frequency, its own or else the Rayleigh damping, and load, in every step; expanded solutions are the sums over the modes, wrong dimensions are refused without lasting effect, and saved modes are restored completely. EigenModeSIM gives the combination of the modes, scaled to unit largest component, with the amplitudes (of either sign) and frequencies given for each listed mode.",
   ["inputs", "operation sequences"],
   "matrices of 3-4 equations from 3 diagonal and 2-3 off-diagonal values x 4 mass matrices x 3 formats x 8 methods x all numbers of modes and vectors x 5 shifts; all models of 2-3 (4 thorough) nodes of 4 kinds x 3 stiffness x 2 mass matrices x 5 methods x 2 solvers; 1-3 modes with 3 frequencies x 2 dampings x Rayleigh damping x restart, two steps with changing step size, load and solution, 4 schemes; all pairs (triples) of mode entries x 3 amplitudes x 2 frequencies, three time steps",
   "The eigenvalue tests use diagonal matrices without shift, and there are no tests of modal superposition or mode combination.",
   ["src/Eig/EigSolver.C", "src/SIM/SIMbase.C", "src/SIM/SIMmodal.C", "src/SIM/EigenModeSIM.C", "src/LinAlg/DenseMatrix.C"],
   [("eigenvalues", "eig::solve, DenseMatrix::solveEig"), ("modes", "SIMbase::systemModes, Mode"), ("modal", "SIMmodal::assembleModalSystem, expandSolution, saveModes"), ("combination", "EigenModeSIM::solveStep, parse")],
   "Exhaustive over the listed matrices and models on the real solvers, compared with Jacobi iteration after Cholesky reduction and with the scalar oscillator. ARPACK and LAPACK themselves are trusted libraries; with fewer iteration vectors than equations only that the results are eigenpairs is required." + TRUST,
   observe=["eig::solve", "SIMbase::systemModes", "SIMmodal::assembleModalSystem", "EigenModeSIM::solveStep"]),
 P("C19", "The model gets the boundary conditions and refinements of the input file",
   "For every pair of topology sets in the input file - vertices, edges, faces, patches, nodes, node boxes or elements, given by type or dimension, open or closed, for single patches, ranges of patches and several items, in one, two or three dimensions, serial or distributed - and every pair of conditions on them, each condition is attached to exactly the entities of its set, independently of the other sets and of the order of definition, under a code of its own that gives the function of the condition (constants, expressions, time-dependent, by component, normal or vector), with its basis, order, local or projected axes and tangent direction. After preprocessing exactly the nodal DOFs of the Dirichlet conditions are fixed, or prescribed with the value of the function at the node and time; a fixed condition wins over a prescribed one, lower-dimensional entities over higher-dimensional ones and otherwise the first condition, unless overridden for node sets. SIMbase::getBoundaryNodes gives each node of a set once. The same holds for property codes and property files. Refinement, order elevation, graded and explicit knots, periodicity, connections, projection bases, fixed points and lines and material sets are applied to exactly the patches (of this process) listed, in order, with all arguments, invalid patches and sets are refused, and nothing is refined twice. Initial conditions set exactly the given component and level of the given fields.",
   ["inputs"],
   "all pairs of 10-15 topology sets x all pairs of 13-25 conditions (third condition: the first one on the second set; thorough: more, with both orders of definition, and three fields in 3D), serial (2 patches) and distributed (3 patches, 2 local), 1D-3D; two property codes x 3 entities x 4 x 3 values, in the input and in a file; sequences of 2 (3) of 7 geometry commands x 9 kinds of patch lists; 1-2 fixed points or lines; 4 x 4 material sets; 1-2 initial conditions for 5 fields",
   "The regression tests parse a handful of sets; two of them together, distributed models and the later preprocessing are not tested.",
   ["src/SIM/SIMinput.C", "src/SIM/SIM1D.C", "src/SIM/SIM2D.C", "src/SIM/SIM3D.C", "src/SIM/SIMbase.C", "src/SIM/TopologySet.h", "src/Utility/Functions.C", "src/Utility/Utilities.C"],
   [("sets", "SIMinput::parseGeometryTag, parsePatchList, parseTopologySet"), ("conditions", "SIMinput::parseBCTag, setPropertyType, getUniquePropertyCode"), ("preprocess", "SIMbase::preprocessC, addConstraint, initDirichlet, getBoundaryNodes"), ("geometry", "SIM1D/SIM2D/SIM3D::parseGeometryTag"), ("initial", "SIMinput::setInitialConditions")],
   "Exhaustive over the listed inputs on the real simulators, compared with the table of sets and conditions the input was written from. The patches are stand-ins that record what they are told, since spline patches need GoTools." + TRUST,
   observe=["ASMbase::isFixed, findMPC", "SIMbase::getBoundaryNodes", "calls of the patch interface"]),
 P("C20", "Input text, include files, options and control messages mean what they say",
   "Texts of the input are read as written: lists of integers (separated by commas or white-space, with ranges a:b, ranges followed by more items, and zero for an item left out around commas) whatever white-space surrounds them, malformed items are refused; utl::parseKnots gives the geometric, biased, centred and 5th-order gradings on the given part of the unit interval, symmetric where centred, with the end points inside the unit interval added, or the knots listed, and refuses invalid gradings; utl::readLine and ignoreComments skip blank and comment lines of any length, also indented ones, and keep every other line, also the last one without line feed; XML attributes and values (logical, number, text, vector, list) are converted as documented and left alone when missing; strings are split, replaced and adjusted, and gather, renumber, merge and find give the listed entries. readXML passes each top-level element to parse exactly once, prioritized tags first and the rest in order, with the content of (nested) include files in place of the include tags, and fails when an element is refused or an include file is missing. Each command line option and each option tag of the input file sets exactly its own value, whatever precedes it, consuming exactly its arguments and leaving them unchanged; result file names keep their directories and lose their extension only. ControlFIFO::poll passes each element of every message received since the last poll, of any size, to the callback of its name once and in order. A LogStream writes everything once to each of its active streams.",
   ["inputs"],
   "all texts of up to 6 (7) characters of 9 for integer lists; gradings with 0-7 knots x 4 (16) slopes x 21 end points; 1-4 (5) lines of 8 kinds; attributes; strings of up to 7 (8) characters of 3; index maps with up to 4 entries; input files of 1-3 of 12 elements including files that include files; sequences of up to 2 option tags and 2 (3) of 38 command line options; 1-3 polls after 1-2 of 10 messages of up to 5000 bytes; sequences of 5 (6) log stream operations",
   "The tests parse a few well-formed samples; lists with ranges and commas, gradings of sub-intervals, relative paths, missing include files, long lines and several messages at a time are not tested.",
   ["src/Utility/Utilities.C", "src/Utility/StringUtils.C", "src/Utility/ControlFIFO.C", "src/Utility/LogStream.C", "src/SIM/XMLInputBase.C", "src/SIM/SIMoptions.C"],
   [("lists", "utl::parseIntegers, parseKnots, parseVec, getAttribute"), ("lines", "utl::readLine, ignoreComments"), ("include", "IncludeInjector, XMLInputBase::readXML, handlePriorityTags"), ("options", "SIMoptions::parseOldOptions, parseOutputTag, parseDiscretizationTag, dumpHDF5"), ("fifo", "ControlFIFO::poll")],
   "Exhaustive over the listed inputs on the real functions, compared with what the texts were written from." + TRUST,
   observe=["parsed values", "elements passed to parse and callbacks", "option values", "stream contents"]),
]

NOT_APPLICABLE = {}
HOOKS = None
NOTES = ""
