"""Writes properties.jsonl (kept as a script only so that the text is easy to review)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=list(state),
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


I = ["inputs"]
IP = ["inputs", "programs"]
IC = ["inputs", "configurations"]

p("C01", "Partial-derivative operators return the exact partial derivative",
  "For every smooth function, the derivative operators return exactly the requested (possibly repeated or mixed) partial derivative, whether the variable is selected by position, by name, by a component of an array argument or by a tangent direction. The value that accompanies a derivative is the function's own value, and every positional and keyword argument reaches the function unchanged.",
  IP, "every differentiable function f, every argument list and every way of naming the partial derivative",
  "Tests differentiate a handful of closed-form functions at one point; they cannot quantify over the user's function, nor over every combination of index, name, component and nesting.",
  ["magpi/calc.py"], [("derivative / value_and_derivative", "magpi/calc.py"), ("apply_to_module", "magpi/calc.py")], ["return value of derivative(...)"])
p("C02", "Jacobians and Hessian-vector products are exact and agree with each other",
  "For every smooth function and every point and direction, all Hessian-vector-product routines return the exact product of the Hessian with the direction (plus the requested damping multiple of the direction), and the value-with-Jacobian routines return the exact value, auxiliary output and Jacobian. The combined value/gradient/HVP routine returns the same value, gradient, auxiliary output and a linear operator equal to the Hessian for every combination of its flags.",
  IP, "every function, point, direction, pytree layout and flag combination (user-supplied gradient or not, auxiliary output or not)",
  "hvp_* and value_grad_hvp are exercised only indirectly through one optimiser run; no test compares the variants or covers the flags.",
  ["magpi/calc.py"], [("hvp, hvp_forward_over_reverse, hvp_reverse_over_reverse, value_grad_hvp", "magpi/calc.py"), ("value_and_jacfwd, value_and_jacrev", "magpi/calc.py")])
p("C03", "Laplacian, divergence and curl are the exact differential operators",
  "For every smooth function, the Laplacian is the sum of the pure second partial derivatives of each output component, the divergence the trace of the Jacobian, and the curl the antisymmetric combination of first partials in 2 and 3 dimensions; batched and pytree outputs are treated component by component and extra arguments are passed through. A curl in any other dimension is refused.",
  IP, "every function (scalar, vector, batched, pytree valued), every point, every dimension",
  "Tests use low-degree polynomials at single points, for which several wrong index patterns coincide with the right ones.",
  ["magpi/calc.py"], [("laplace, hessian_diag", "magpi/calc.py"), ("divergence, value_and_divergence", "magpi/calc.py"), ("curl, curl2d, curl3d", "magpi/calc.py")])
p("C04", "One-dimensional quadrature rules are consistent on every grid",
  "On every increasing grid, uniform or not, the weights of each quadrature rule add up to the length of the grid and the rule integrates piecewise exactly: linear functions for the midpoint and trapezoidal rule, cubics for Simpson's rule, and the affinely mapped Gauss-Legendre rule on each cell. Nodes stay inside the grid and every cell contributes exactly once.",
  I, "every grid (any number of cells, any spacing) and every Gauss degree",
  "Tests integrate a few functions on uniform grids and compare with tolerance; non-uniform spacing, few-cell grids and the trapezoidal rule are not covered.",
  ["magpi/integrate.py"], [("midpoint, trap, simpson, gauss", "magpi/integrate.py")])
p("C05", "Product, disk and ball integrals are the weighted sum of the integrand",
  "Integrating over a product of intervals equals the tensor-product quadrature sum: each node tuple is paired with the product of its own weights, for every number of dimensions, unequal grids, any rule and any array or pytree valued integrand. Disk and ball integrals evaluate the integrand at the polar or spherical node shifted by the origin with the matching surface or volume element and the requested radial and angular limits; extra arguments reach the integrand unchanged.",
  IP, "every integrand, domain, rule, node count and extra argument",
  "Tests use square grids and symmetric integrands, for which swapped axes, wrong node counts and dropped arguments go unnoticed; the ball integral has no test.",
  ["magpi/integrate.py"], [("integrate", "magpi/integrate.py"), ("integrate_disk, integrate_sphere", "magpi/integrate.py")])
p("C06", "Surface integrals use the exact area element, element by element",
  "For every surface parametrization, the surface integral weights the integrand at the mapped node with the norm of the cross product of the two tangent vectors, and integrating element by element gives the same cells in row-major order, each paired with the image of its own parameter midpoint. Extra arguments are passed through unchanged.",
  IP, "every parametrization of a surface in space, every grid, rule and integrand",
  "The module has no tests.",
  ["magpi/surface_integral.py"], [("integrate_surface, integrate_surface_elements, center, midpoints", "magpi/surface_integral.py")])
p("C07", "Single-layer potentials pair every source moment with its Taylor coefficient",
  "For every order, the source tensor holds the moments of the surface element divided by the distance to the target point and the charge tensor holds the matching Taylor coefficients (derivatives divided by the factorial) at the element's midpoint, in the same order, so that their contraction over 4 pi is the multipole expansion of the single-layer potential; the curl potential is its exact curl. The charges combine the magnetisation with the outward unit normal and the correction potential with the documented sign.",
  IP, "every surface, target point, charge density, expansion order and layout of the charge",
  "The module has no tests.",
  ["magpi/surface_integral.py"], [("source_tensor, charge_tensor", "magpi/surface_integral.py"), ("single_layer_potential, curl_single_layer_potential", "magpi/surface_integral.py"), ("scalar_potential_charge, vector_potential_charge", "magpi/surface_integral.py")])
p("C08", "ODE integration follows the scheme's own time levels on every time grid",
  "For every right-hand side, including explicitly time dependent ones, and every (also non-uniform) time grid, each step of the integrator starts from the previous time level with the actual step size; the Euler step is the first order and the Runge-Kutta step the classical fourth order scheme. The result starts with the initial value and holds one entry per time level, for arrays and pytrees alike, with extra arguments passed to the dynamics.",
  IP, "every right-hand side, initial value, time grid and method",
  "The module has no tests.",
  ["magpi/ode.py"], [("rk4, explicit_euler", "magpi/ode.py"), ("odeint", "magpi/ode.py")])
p("C09", "Interior sampling maps stay inside the domain and preserve uniformity",
  "Every interior transformation maps each point of the unit cube into its closed domain, for any input batch shape, and has constant Jacobian determinant whose magnitude is the domain's reported measure, so uniform samples stay uniform; inputs outside the unit cube are wrapped back.",
  I, "every point of the unit cube, every geometry (bounds, radii, origins, vertices) and every batch shape",
  "Tests check containment of 1000 random points for one geometry each; uniformity is never checked and one-geometry tests cannot see wrong vertex, radius or origin handling.",
  ["magpi/domain.py"], [("transform_hypercube, transform_annulus, transform_circle, transform_sphere, transform_triangle", "magpi/domain.py"), ("Hypercube, Parallelogram, Sphere, Disk, Annulus .transform", "magpi/domain.py")])
p("C10", "Boundary sampling maps land on the boundary and cover it uniformly",
  "Every boundary transformation maps each parameter to a point on the domain's boundary, for every geometry and batch shape, with constant speed or constant area density, and covers the whole boundary: both end points of an interval, all faces of a box in proportion to their size, the polyline through the given vertices in their order, the whole circle and the whole sphere.",
  I, "every parameter value, every geometry and batch shape",
  "Tests check that random points lie on the boundary for origin-anchored or symmetric geometries only.",
  ["magpi/domain.py"], [("transform_hypercube_bnd, transform_polyline, transform_circle_bnd, transform_sphere_bnd", "magpi/domain.py"), ("Parallelogram.transform_bnd", "magpi/domain.py")])
p("C11", "Domain measures, membership tests and normals agree with the geometry",
  "The reported support of every domain is its exact length, area or volume, the membership test is true exactly for the points of the domain, and the normal vector at a boundary point is the outward unit normal, for single points and for batches; points off the boundary yield no normal. Domain objects are immutable values.",
  I, "every geometry, every query point and batch shape",
  "Support is tested for two domains with one size each; sphere and disk membership and normals are untested.",
  ["magpi/domain.py"], [("support, includes, normal_vec", "magpi/domain.py")])
p("C12", "Quaternion arithmetic satisfies the laws of the quaternion algebra",
  "Addition, subtraction, negation, Hamilton product, conjugation, reciprocal, division and norm of quaternions satisfy the algebra's laws for all operands: the product is associative and distributive with multiplicative norm, the reciprocal is a two-sided inverse, left and right division undo left and right multiplication, and mixed expressions with scalars respect operand order. Flattening a quaternion to its leaves and rebuilding it returns the same quaternion.",
  I, "all quaternions and scalars",
  "Tests evaluate products of basis elements and one norm; reflected operators and division are untested.",
  ["magpi/quaternions.py"], [("class Quaternion", "magpi/quaternions.py"), ("quaternion_left_div, quaternion_right_div", "magpi/quaternions.py")])
p("C13", "Quaternion rotations, reflections, exp, log and powers are geometrically exact",
  "For every vector, rotating by a quaternion is the linear isometry that leaves the rotation axis fixed and turns by the given angle, quaternions built from an angle and any non-zero axis or from Euler angles are unit quaternions of that rotation, and a reflection maps the normal to its negative and fixes the plane. Exponential and logarithm are mutually inverse on their principal domain, and powers are the exponential of the scaled logarithm.",
  I, "all vectors, angles, axes, quaternions and exponents",
  "Tests rotate one basis vector by a quarter turn; non-unit axes, combined Euler angles, reflections and logarithms are untested.",
  ["magpi/quaternions.py"], [("quaternion_rotation, quaternion_reflection, from_axis_angle, from_euler_angles", "magpi/quaternions.py"), ("quanternion_exp, quanternion_log, sgn, arg", "magpi/quaternions.py")])
p("C14", "R-function combinations have the sign of the Boolean combination",
  "For every system of R-functions and all arguments, conjunction is positive exactly when both arguments are positive and disjunction exactly when at least one is, with zero on the boundary, and both are symmetric and De Morgan dual; negation, intersection, union, difference, implication, equivalence and exclusive-or of solids therefore have the sign of the corresponding set operation. The blending system agrees with this outside its blending radius, never enlarges an intersection, and scales with the geometry.",
  IC, "all argument values, all parameter values of the systems and all pairs of solids",
  "Tests check intervals at a few points for two systems; the power, weighted and blending systems and most sign quadrants are untested.",
  ["magpi/r_fun.py"], [("RFun, RAlpha, RAlphaM, RP, RhoBlending", "magpi/r_fun.py"), ("compose", "magpi/r_fun.py")])
p("C15", "Primitive solids are positive inside, zero on the boundary, negative outside",
  "The distance functions of cuboids, cubes, spheres, cylinders and ellipsoids are positive inside, zero exactly on the boundary and negative outside, for every size and dimension, with unit inward normal derivative on the boundary where first order normalization is promised. They and their derivatives are finite at the centre of round solids.",
  I, "every size, dimension, placement option, R-system and query point",
  "Tests evaluate unit cubes and one sphere at boundary points; interior and exterior signs, cylinders, ellipsoids and derivatives at the centre are untested.",
  ["magpi/r_fun.py"], [("cuboid, cube, sphere, cylinder, ellipsoid, normalize_1st_order", "magpi/r_fun.py")])
p("C16", "Transformed solids are the exact geometric image of the original",
  "For every solid, translating, scaling, rotating in two or three dimensions, reflecting and projecting return the distance function of the exactly moved solid about the given origin, rotations in the plane and about the third axis turn the same way, isometries preserve the function's values and scaling multiplies them by the scale; a body of revolution evaluates the profile at axial position and distance from the axis. Ill-specified rotations and non-scalar scalings are refused.",
  IC, "every solid (any distance function), every transformation parameter, number type and query point",
  "Tests move unit cubes by symmetric amounts, for which a wrong direction of rotation, a wrong origin or integer parameters cannot be seen; revolution is untested.",
  ["magpi/r_fun.py"], [("translate, scale, scale_without_normalization, rotate2d, rotate3d, reflect, project, revolution", "magpi/r_fun.py")])
p("C17", "Imposed boundary and initial conditions hold for every model",
  "For every network, a model with imposed Dirichlet data is the distance function times the network plus the data, so it takes the prescribed value wherever the distance function vanishes, one with imposed Neumann data has the prescribed outward normal derivative wherever the distance function vanishes with unit gradient, and one with imposed initial data equals the initial model at the initial time and the documented exponential blend afterwards. The selected positional arguments are routed to each ingredient and all arguments reach the network, used directly or as a decorator.",
  IP, "every network, distance function, data function, argument routing and point",
  "Tests use f(x)=x on a unit cube with default routing.",
  ["magpi/model.py"], [("impose_dirichlet_bc, impose_neumann_bc, impose_ic", "magpi/model.py")])
p("C18", "Network builders realise the requested architecture",
  "A multi-layer perceptron applies its hidden layers in order, each followed by the chosen activation (hyperbolic tangent by default), then a linear output layer without activation, and drops the feature axis exactly for a single output neuron; building one initialises a network for the requested number of input features with the requested sizes. A spline activation returns the base activation plus the coefficient-weighted spline basis of each feature, on its fixed or its own per-feature grid.",
  IC, "every layer list, activation, input batch shape, grid and degree option",
  "The perceptron is only constructed once in a doctest; the spline activation is checked for shape and positivity.",
  ["magpi/model.py", "magpi/spline.py"], [("MLP, mlp", "magpi/model.py"), ("SplineActivation", "magpi/spline.py")])
p("C19", "The spline basis is the B-spline basis on every knot vector",
  "On every non-decreasing knot vector, with repeated knots allowed, and for every degree the basis functions satisfy the Cox-de Boor recursion with half-open intervals, hence are non-negative, vanish outside their own knots and sum to one inside the full-support range; basis values and their derivatives are finite everywhere and there is one basis function per admissible index, vectorised over points and per-feature grids. The power-spaced grid runs monotonically from start to stop and is symmetric about their centre.",
  IC, "every knot vector, degree, evaluation point and grid parameter",
  "Tests evaluate one uniform grid at a few points for degrees 0 to 2.",
  ["magpi/spline.py"], [("_base_fun, basis", "magpi/spline.py"), ("make_grid", "magpi/spline.py")])
p("C20", "The Steihaug subproblem solver follows CG and never leaves the trust region",
  "For every gradient, every symmetric Hessian operator and every radius, the subproblem solver produces the conjugate-gradient iterates, and as soon as curvature is non-positive or an iterate would leave the trust region it stops exactly on the trust-region boundary along the current direction, so the returned step is never longer than the radius. It stops at the first iterate whose residual is below the tolerance, performs no step when that holds initially, and reports the step length and iteration count of the returned step, residual and curvature of the last iteration, and whether a stopping test was met.",
  IP, "every gradient, Hessian operator, radius, tolerance and iteration limit",
  "Tests run three tiny quadratics with positive curvature; negative curvature and boundary hits after the first iterate are untested.",
  ["magpi/tr.py"], [("steihaug", "magpi/tr.py")])
p("C21", "A trust-region step is accepted consistently and its radius stays in bounds",
  "For every objective, a trust-region update moves to the trial point exactly when the ratio of actual to predicted reduction reaches the acceptance threshold and otherwise keeps the parameters, and in both cases the reported value, gradient, error and auxiliary output belong to the returned parameters. The trial step solves the subproblem for the current gradient, (damped or finite-difference) Hessian and radius to the forcing tolerance, which never grows and never falls below the gradient tolerance; the predicted reduction uses the undamped model. The radius shrinks exactly on poor agreement, grows only on good agreement with a step on the boundary, never exceeds the maximum and never drops below the minimum; at the minimum radius nothing changes.",
  ["inputs", "histories"], "every objective, parameter, state and solver option along any sequence of updates",
  "Two optimiser runs on one smooth test function; rejected steps, auxiliary output after a rejection, radius limits and restarts are untested.",
  ["magpi/tr.py"], [("TR.update, TR.init_state, update_tr_radius", "magpi/tr.py")],
  state=[dict(name="TrState", meaning="value/grad/error/aux of the current parameters and the trust radius", where="magpi/tr.py")])
p("C22", "Objectives are called with one convention whatever flags describe them",
  "Whether the objective returns a value, a value with auxiliary data, or already supplies its gradient, the derived value, gradient and value-with-gradient functions return the same value, gradient and auxiliary data (nothing when there is none) and forward all arguments. Pytree helpers report the common size or dtype of all leaves and refuse mixed ones.",
  IP, "all four flag combinations, every objective and pytree",
  "Only two of the four flag combinations are ever reached, through optimiser runs.",
  ["magpi/utils.py", "magpi/opt.py"], [("make_funs_with_aux", "magpi/utils.py"), ("tree_dim, tree_single_dtype", "magpi/utils.py"), ("axis_size, check_axis_size", "magpi/opt.py")])
p("C23", "Rejection sampling only returns accepted proposals",
  "Every returned sample is a proposal whose own independent uniform draw did not exceed the scaled density at that very proposal, so a proposal of zero density is never returned; a rejected proposal is replaced together with its draw, and exactly the requested number of samples is produced, array or pytree.",
  ["inputs", "histories"], "every key, density, proposal generator, sample count and scale, along any number of rejections",
  "Tests draw from one density with a fixed key; a stale draw or a density evaluated at another proposal is statistically invisible.",
  ["magpi/sampling.py"], [("rejection_sampling", "magpi/sampling.py")])
p("C24", "Batching selects whole rows, consistently, and iterators deliver every batch",
  "Batching without replacement splits a random permutation so that no row is used twice, all batches are full and only the remainder is dropped; batching with replacement draws every batch with its own key and honours the choice of repetition within a batch. All leaves of a pytree use the same row indices, data with unequal row counts is refused, and the iterator yields every batch of every epoch in order, with fresh randomness per epoch.",
  ["inputs", "histories"], "every key, data pytree, batch size, epoch count and option",
  "The batching helpers have no tests.",
  ["magpi/opt.py"], [("batches_without_replacement, batches_with_replacement, make_iterator", "magpi/opt.py")])
p("C25", "No random key is ever consumed twice",
  "Along every execution, each random key is used for at most one purpose: it is either split or handed to exactly one sampling routine, initialiser or caller, including across loop iterations, epochs, batches and parallel samples.",
  ["inputs", "histories"], "every function taking or producing random keys, every number of iterations",
  "Key reuse yields plausible numbers, so no assertion on values can see it.",
  ["magpi/sampling.py", "magpi/opt.py", "magpi/model.py", "magpi/spline.py"], [("random.split discipline", "magpi/sampling.py, magpi/opt.py, magpi/model.py")])
p("C26", "Library functions are pure and leave their inputs and module state untouched",
  "No library function modifies module-level state, a caller's argument, a default argument value or a value object after construction, performs input/output other than invoking the optimiser's callback, or reads ambient state such as clocks, environment or global random generators; results depend on arguments only. Functions can therefore be traced, cached and re-run.",
  ["programs", "histories"], "every function of the library and every call history",
  "Tests call functions once with fresh arguments; hidden state shows only across calls.",
  ["magpi/"], [("frozen dataclasses, functional updates", "magpi/*.py")])
p("C27", "The prelude and the package export exactly the names they promise",
  "Every exported name resolves, is defined once, and denotes the numerical library routine of that name, so code written against the shared prelude computes with the intended function; the package makes all listed submodules available and its modules can be imported without circularity.",
  ["programs", "configurations"], "every exported name of every module",
  "Most re-exported names are never referenced by a test.",
  ["magpi/prelude.py", "magpi/__init__.py"], [("__all__ tables and imports", "magpi/prelude.py")])
p("C28", "The trust-region optimiser converges to a stationary point",
  "For every twice differentiable objective bounded below, repeated trust-region updates drive the gradient norm below the tolerance or stop at the minimum radius.",
  ["inputs", "histories"], "every objective and start point", "Needs a limit argument over all objectives.",
  ["magpi/tr.py"], [("TR.run", "magpi/tr.py")])
p("C29", "Rejection sampling terminates after the stated expected number of proposals",
  "If the density is bounded by the scale, each sample takes the stated expected number of proposals and the sampler terminates almost surely.",
  ["inputs", "histories"], "every density and key", "A probability statement over the random stream.",
  ["magpi/sampling.py"], [("rejection_sampling", "magpi/sampling.py")])
p("C30", "Results are accurate to working precision",
  "All operators return results within a small multiple of the working floating-point precision of the exact mathematical value for all representable inputs.",
  I, "all floating-point inputs", "Rounding behaviour over all representable inputs.",
  ["magpi/"], [("jax floating point arithmetic", "magpi/*.py")])
p("C31", "Library functions can be traced and give the same result as eagerly",
  "Every numerical routine can be used inside jit, vmap and grad: no Python branch, conversion to a Python number, numpy routine or result size depends on the value of an array argument, and tracing an argument never changes the result. Degrees, tolerances, options and the geometry of a domain are configuration and may be inspected; outward normals (which answer None off the boundary) and quaternion equality answer with Python values by contract, and a quaternion object holds a single quaternion (it is not a batch container for vmap).",
  ["programs", "inputs"], "every numerical routine with every array argument traced",
  "Most tests call the routines eagerly, where a branch or conversion on a value works; the failure appears only under a transformation.",
  ["magpi/"], [("structured control flow, where instead of if", "magpi/*.py")])
p("C32", "Results can be differentiated with respect to every real input",
  "Forward and reverse mode derivatives of every derivative operator, integral, integrator, domain map, quaternion, distance function, imposed model, network and spline with respect to coordinates, geometry, grids, states and parameters are the derivatives of the value computed, wherever its formula is regular: no stop_gradient, forward-only loop, host callback or wrong hand-written derivative rule lies between an input and the result.",
  ["programs", "inputs"], "every differentiable routine and every real input",
  "Tests check values; a blocked derivative shows only when somebody differentiates through that very routine with respect to that very input.",
  ["magpi/"], [("scan with checkpointing, closed formulas", "magpi/*.py")])
p("C33", "Double precision inputs are processed in double precision",
  "No routine falls back to a fixed lower precision: the types of work arrays, constants, casts and tolerances are those of the inputs or the configured default, so that with 64-bit mode enabled every integral, trajectory, transformation, network, basis, optimiser step and sample is computed in double precision.",
  ["programs", "configurations"], "every numerical routine under every default precision",
  "The tests run in single precision only, where a hard-wired single precision type changes nothing.",
  ["magpi/"], [("types taken from inputs", "magpi/*.py")])
p("C34", "Arguments outside the contract are refused, not answered",
  "A call whose arguments do not fit the documented contract never returns a value: samples with a wrong number of columns, vectors in place of radii, centres, bounds and vertices of a wrong or of different dimension, node arrays of rank 0 or above 2, wrong numbers of node counts, surface grids that are no vectors of at least two parameters, surfaces and evaluation points outside R^3, negative expansion orders, unknown argument names and mismatched lists of derivatives, quaternion parts of a wrong shape or of different types, points of a wrong dimension in plane and space rotations and revolutions, unknown axes, and parameters of composition systems outside their range raise an exception, for all values of the entries.",
  ["inputs"], "every public routine with a shape or parameter contract and every argument outside it",
  "Tests try one or two invalid calls; a check that is weakened or dropped lets broadcasting produce a plausible number for the others.",
  ["magpi/"], [("contract checks", "magpi/domain.py, magpi/integrate.py, magpi/surface_integral.py, magpi/calc.py, magpi/quaternions.py, magpi/r_fun.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
