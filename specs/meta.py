"""What each check specifies, and what it assumes (used for MANIFEST.json, the evidence files and DESIGN.md)."""

COMMON_TRUST = [
    "magstat/interp.py: abstract semantics of the Python subset (closures, classes, exceptions, decorators, gated joins at data dependent branches)",
    "magstat/lib*.py: abstract models of the jax / jax.numpy / flax / jaxopt routines the package calls (an unmodelled routine gives 'undecided', never a verdict)",
    "magstat/nf.py: normal form of real-valued value graphs; 'holds' requires identical normal forms (or a proved sign), 'violated' requires a separating assignment of the inputs",
    "real arithmetic: rounding is not modelled (C30 not applicable)",
]

VN = "abstract interpretation of the syntax tree with global value numbering (value graphs with gated joins, normal-form comparison)"

META = {}


def m(pid, how, rule, assume=(), technique=VN):
    META[pid] = dict(how=how, rule=rule, assume=list(assume), technique=technique)


m("C01", "The user's function is an uninterpreted symbol with formal partial derivatives; the value graph of every derivative operator must equal the formal partial.",
  "one obligation per way of naming the variable (position, keyword, component, direction, tuple, repetition) and per argument layout",
  ["functions are smooth; argument dimensions 1-3; derivatives up to order 5"])
m("C02", "Every Hessian-vector routine's value graph is compared with the formal Hessian of an uninterpreted function times the direction; every flag combination of the value/gradient/HVP routine is evaluated.",
  "one obligation per routine, flag combination and pytree layout", ["dimensions 1-3"])
m("C03", "Laplacian, divergence and curl of uninterpreted (scalar, vector, batched, pytree valued) functions are compared with the sums of formal partials.",
  "one obligation per operator, dimension and output layout", ["dimensions 1-4"])
m("C04", "Each rule's value graph over a symbolic grid is reduced to its weights (coefficients of the uninterpreted integrand) and compared with the exact weights; exactness degrees follow as polynomial identities.",
  "one obligation per rule, grid length and polynomial degree", ["grids of 2-5 nodes with symbolic coordinates and up to 70 with concrete ones, decreasing and integer grids; Gauss degree 1-4"])
m("C05", "Product, disk and ball integrals of an uninterpreted integrand over symbolic grids must equal the explicit weighted sum.",
  "one obligation per dimension, rule, argument passing and output layout", ["1-3 dimensions, 2-4 nodes per axis; integrand values that are not finite outside the region"])
m("C06", "Surface integrals over an uninterpreted parametrization are compared with the sum of integrand times norm of the cross product of formal tangents, element by element in row-major order.",
  "one obligation per function, grid shape and rule", ["uninterpreted surfaces on grids up to 3 by 4; planes, saddles, cylinders and degenerate cells of every size, on grids near and far"])
m("C07", "Source tensor, charge tensor and potentials are compared, order by order, with formal Taylor coefficients and moments of uninterpreted charges and surfaces.",
  "one obligation per order and charge kind", ["orders 0-3; targets at every distance from planes of every size; up to 40 sources"])
m("C08", "Integrator steps and whole trajectories of an uninterpreted, time dependent right-hand side are compared with the scheme's formula on a symbolic time grid.",
  "one obligation per scheme, state layout and grid length", ["2-5 time levels with symbolic times, up to 101 with a concrete grid"])
m("C09", "Interior maps are evaluated on symbolic parameters in the unit cube; domain membership is decided by sign, the Jacobian determinant (formal derivative of the value graph) must equal the measure.",
  "one obligation per domain kind and batch shape", ["dimensions 1-3, batch shapes (), (2,), (2,1); batches of 1 to 300 rows inside, on the edge of and outside the unit cube, row by row"])
m("C10", "Boundary maps are evaluated piecewise on symbolic parameters; landing, speed and coverage of each piece are decided on the value graph.",
  "one obligation per domain kind and piece", ["dimensions 1-3; polygons of 3-4 vertices; sums of three and more lengths are evaluated with an arbitrary relative error, so that a choice of segment may not rely on exact sums"])
m("C11", "Measures, membership tests and normals are compared with closed formulas over symbolic geometry.",
  "one obligation per domain kind and method", ["dimensions 1-3"])
m("C12", "Algebra laws are decided as polynomial or rational identities between value graphs of symbolic quaternions.",
  "one obligation per law and operator", [])
m("C13", "Rotation, reflection, exponential, logarithm and power value graphs are compared with the closed formulas for symbolic angles, axes and vectors.",
  "one obligation per constructor and method", [])
m("C14", "Signs of conjunction and disjunction are decided on value graphs over each sign region of the arguments; the derived set operations over each sign combination.",
  "one obligation per system, operation and sign region", ["order of the Rp system 1-4; roots of squares are evaluated with an arbitrary small relative error"])
m("C15", "Distance function value graphs over symbolic sizes: sign in each region, zero on the boundary, unit normal derivative, and no unguarded division or square root of zero (as seen by differentiation) at the centre.",
  "one obligation per solid, region and dimension", ["values: dimensions 1-8, signs and gradients: 1-3"])
m("C16", "Transformations of a solid given by an uninterpreted distance function must evaluate that function at the exact pre-image of a symbolic point.",
  "one obligation per transformation and argument convention", ["dimensions 1-8 (reflection and projection 1-4)"])

EFFECT = "flow-sensitive effect (origin/alias) analysis of the syntax tree"

m("C17", "Each imposing routine is evaluated on an uninterpreted network, distance function and data function; the model's value graph must equal the documented composition, and on the zero level set (and with unit gradient, for Neumann data) its value or formal normal derivative must equal the data.",
  "one obligation per routine, argument routing, calling form and output layout", ["1-3 coordinates, up to 3 positional arguments in every order"])
m("C18", "The network's value graph over symbolic parameters is compared with the composition of affine maps and an uninterpreted activation; the spline activation with base activation plus the coefficient-weighted basis of the package's own knot vector.",
  "one obligation per layer list, batch shape and grid option", ["up to 4 layers of at most 3 neurons (up to 24 layers of one neuron); grids of at most 4 cells, degree 0-3"])
m("C19", "Basis value graphs over symbolic evaluation points (per knot interval) and symbolic or repeated knots are compared with the Cox-de Boor recursion; division events are checked for unguarded zero denominators in value and derivative.",
  "one obligation per degree, knot multiplicity pattern and layout", ["degree 0-4 with at most 8 symbolic knots; up to 30 concrete knots and degree 5"])
m("C20", "The CG loop is unrolled path-sensitively over an uninterpreted Hessian operator; every reachable exit is compared with the CG recurrence and the boundary step of length equal to the radius.",
  "one obligation per exit (initial, residual, curvature, boundary, limit) and iteration; pytree and vector layouts", ["dimension 1-2 and a pytree, at most 3 iterations; the stopping test of a general iteration from an arbitrary state"])
m("C21", "One update from an arbitrary symbolic state: ratio, acceptance, returned parameters, value, gradient, error, auxiliary output and radius are compared with the documented rule on the accepted, rejected and minimum-radius path; the radius rule and the subproblem call are decided separately.",
  "one obligation per flag combination, Hessian mode (exact, finite difference, damped) and parameter layout", ["dimension 2, one subproblem iteration (the subproblem itself is C20)"])
m("C22", "The derived functions are evaluated on an uninterpreted objective for all four flag combinations and compared with value, formal gradient and auxiliary output.",
  "one obligation per flag combination and layout", ["dimension 2; pytrees with leaves of every dtype width"])
m("C23", "The sampling loop over an uninterpreted proposal law and density is reduced to its chain of gated results; each returned proposal's own acceptance condition must imply that its own uniform draw does not exceed the scaled density there, with all keys independent. The loop body is decided from an arbitrary state, which covers every number of rejections.",
  "one obligation per sample layout, count and unrolling; one for the loop body; zero density by substitution", ["1-3 samples with free rejections, larger counts with none"])
m("C24", "Batches of symbolic data are reduced to the random row index of every entry; the indices must be distinct entries of one permutation (without replacement) or of one draw per batch key (with replacement), the same for every leaf.",
  "one obligation per data layout, row count, batch size and option", ["2-5 rows, up to 3 batches, up to 3 epochs with free choices; larger counts next to every number the code mentions"])
m("C25", "Every consumption of a key (split, fold, sampling routine, initialiser, hand-over to the caller) is recorded with its path condition; two uses of the same key on compatible paths are a violation; loop bodies are decided from an arbitrary state. A census of the syntax trees shows which functions consume keys.",
  "one obligation per key-consuming entry point, plus the census", ["up to 3 samples, epochs and batches unrolled; loops by induction over the body"], technique="linearity (typestate) analysis of key values over the abstract interpretation, with a syntactic census")
m("C26", "For every function: the set of parameters, module-level names and enclosing variables it may modify (stores, in-place operators, mutating methods, in-place routines, summaries of callees), and every reference to clocks, files, environment, global generators, callbacks or configuration.",
  "one obligation per function and one per module's import-time statements", ["aliases through library calls other than container constructors are taken to be fresh"], technique=EFFECT)
m("C27", "Name-resolution analysis: every exported, imported and referenced name is resolved through the package's and the installed libraries' source text; module-level imports are executed abstractly in order to exclude circularity.",
  "one obligation per exported name, import, and free name of a function", ["the libraries' names are read from their source text, not imported"], technique="name-resolution and import-order analysis of the syntax trees")

m("C31", "The obligations of the other properties are evaluated again with every input unknown to Python: each place where the value of an array is asked for (truth value, int/float/bool, item/tolist, a numpy routine, a boolean mask, nonzero/unique) is recorded with its call path, code that tells traced from concrete arrays takes the traced branch, and the result must be the one of the eager evaluation.",
  "one obligation per quick obligation of the value properties, plus the maps, measures and membership tests of domains of known geometry",
  ["configuration (degrees, tolerances, radii limits, geometry of a domain) may be inspected by Python; domain.normal_vec and Quaternion.__eq__ answer with Python values by contract"],
  technique="dataflow (conversion) analysis over the abstract interpretation with traced inputs")

m("C32", "The value obligations are evaluated and everything is recorded that automatic differentiation does not see as part of the value graph: stop_gradient on an input dependent value, loops without a reverse mode, host callbacks, and functions with their own derivative rule, whose rule is compared with the formal derivative of the body.",
  "one obligation per quick obligation of C01-C10 and C12-C19",
  ["that the value graph itself is the right function of all inputs is decided by those properties; derivatives at kinks and of comparisons are those of the chosen branch"],
  technique="dataflow analysis (derivative-blocking operations between inputs and results) over the abstract interpretation")

m("C33", "The value obligations are evaluated and every floating point type of less than 64 bits or integer type of less than 32 bits that the code names, as the type of a work array, a cast, a constant or the source of a tolerance, is recorded with its call path.",
  "one obligation per quick obligation of the value properties",
  ["types that follow from the inputs (x.dtype) and default types are those of the inputs or of the configured default precision; accuracy itself is C30"],
  technique="type-provenance analysis (explicitly named narrow types) over the abstract interpretation")

m("C34", "Every combination of argument shapes, counts, orders, names and types outside the documented contract is enumerated up to the listed sizes; the entries are symbolic, and the abstract evaluation of the call must reach an exception on every path. Valid neighbours of the same calls must be answered.",
  "233 invalid and 24 valid calls of the domain maps and domain values, integrals, surface routines, derivative operators, quaternions and shape transformations",
  ["the kind of exception is left open; a plane or space rotation of a single number is broadcast by the translation and not part of the claim; value dependent refusals (normalisation, trust region options, dtype of trees) are decided with C03, C12-C16, C21-C24"],
  technique="abstract interpretation with symbolic entries (exception on every path)")

NA = {
    "C28": "Convergence is a limit statement over unboundedly many data dependent iterations; no static argument in reach bounds it (the per-step facts it rests on are C20 and C21).",
    "C29": "A statement about probabilities and expected counts of a data dependent loop; not visible in the shape of the code (what is visible, which proposals can be returned, is C23).",
    "C30": "Rounding error bounds depend on magnitudes of run-time values and on compiled kernels outside the repository; no sound static bound in reach.",
}
