"""The checks: property id -> explorer programs (harness/<name>.C) and build variants."""

# Sources that a solution driver on a model without FE patches refers to, but never uses
NOFEM = ("ISTLMatrix", "ISTLSolParams", "ASM2D", "ASM3D", "ASMs2DmxLag", "ASMs3DmxLag", "ASMu2DLag", "ASMsupel",
         "DomainDecomposition", "SPRMatrix", "Lagrange", "LagrangeField2D", "LagrangeField3D", "LagrangeFields2D",
         "LagrangeFields3D", "EigSolver", "eig_drv1", "eig_drv2", "eig_drv3", "eig_drv4", "eig_drv5", "eig_drv6",
         "ExprFunctions", "func", "expr", "node", "parser", "vallist", "except", "funclist", "FieldFunctions",
         "HDF5Reader", "HDF5Restart", "HDF5Base", "AnaSol", "FunctionSum", "GlbL2projector", "GlbNorm", "Chebyshev",
         "TractionField", "VTF", "ElementBlock", "DualField")

NOFEM10 = tuple(x for x in NOFEM if not x.startswith('HDF5') and x not in ('func','expr','node','parser','vallist','except','funclist','ExprFunctions'))

# Sources the result database does not need
NOFEM16 = tuple(x for x in NOFEM10)

NOFEM17 = tuple(x for x in NOFEM10 if x not in ("GlbNorm","GlbL2projector","AnaSol","FunctionSum","TractionField","DomainDecomposition"))

NOFEM18 = tuple(x for x in NOFEM10 if not x.lower().startswith("eig") and x not in ("SPRMatrix","DomainDecomposition"))

NOFEM19 = tuple(x for x in NOFEM10 if x not in ("GlbL2projector","TractionField","AnaSol","FunctionSum","DomainDecomposition","ASM1D","ASM2D","ASM3D","SIM1D","SIM2D","SIM3D","SIMinput"))

NOFEM11 = tuple(x for x in NOFEM if x not in ("DomainDecomposition",))

CHECKS = {
    "C01": dict(parts=[dict(harness="threadgroups", variant="plain", stub=True)]),
    "C02": dict(parts=[dict(harness="algebra", variant="asan"), dict(harness="algebra_noblas", variant="asan")]),
    "C03": dict(parts=[dict(harness="sam", variant="plain", stub=True, cut=("SIMbase","DomainDecomposition","SPRMatrix"))]),
    "C05": dict(parts=[dict(harness="sysmat", variant="plain", stub=True, cut=("SIMbase","DomainDecomposition","SPRMatrix"))]),
    "C08": dict(parts=[dict(harness="dynamics", variant="plain", cut=NOFEM)]),
    "C07": dict(parts=[dict(harness="nonlin", variant="plain", cut=NOFEM)]),
    "C04": dict(parts=[dict(harness="constraints", variant="plain", stub=True)]),
    "C09": dict(parts=[dict(harness="eqsys", variant="plain", stub=True, cut=("SIMbase","DomainDecomposition","SPRMatrix"), env={"OMP_WAIT_POLICY":"passive"})]),
    "C11": dict(parts=[dict(harness="integrators", variant="asan", cut=NOFEM11)]),
    "C10": dict(parts=[dict(harness="solvers", variant="plain", cut=NOFEM10)]),
    "C06": dict(parts=[dict(harness="timestep", variant="plain", stub=True)]),
    "C12": dict(parts=[dict(harness="exprlang", variant="plain", stub=True), dict(harness="exprlang", variant="asan", stub=True, env={"EXPR_MEM":"1"})]),
    "C13": dict(parts=[dict(harness="functions", variant="asan", stub=True)]),
    "C14": dict(parts=[dict(harness="tensors", variant="asan", stub=True)]),
    "C15": dict(parts=[dict(harness="quadrature", variant="asan", stub=True)]),
    "C17": dict(parts=[dict(harness="norms", variant="asan", cut=NOFEM17)]),
    "C18": dict(parts=[dict(harness="modal", variant="asan", cut=NOFEM18)]),
    "C19": dict(parts=[dict(harness="modelinput", variant="asan", cut=NOFEM19)]),
    "C20": dict(parts=[dict(harness="inputtext", variant="asan")]),
    "C21": dict(parts=[dict(harness="coupled", variant="asan", cut=NOFEM19)]),
    "C16": dict(parts=[dict(harness="results", variant="plain", cut=NOFEM16), dict(harness="results", variant="asan", cut=NOFEM16, env={"RES_MEM":"1"})]),
}
