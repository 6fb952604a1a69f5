#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The single place where the listed properties are edited."""
import json, os
S = "src/einsteinpy/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=n, meaning=m, where=S+w) for n,m,w in state],
        mechanism=[dict(name=n, where=S+w) for n,w in mech],
        observe_at=observe, hook_needed=hook)))

prop("C01","Symbolic curvature pipeline equals the definition for every metric",
 "For every symbolic metric (any dimension >= 2, any signature, any off-diagonal structure, given covariantly or contravariantly) the Christoffel symbols, Riemann tensor, Ricci tensor, Ricci scalar and Einstein tensor the library computes equal, component by component, the ones defined by differential geometry (Gamma^i_jk, R^t_srn = d_r Gamma^t_sn - ..., R_sn = R^t_stn, R = g^sn R_sn, G = R_sn - R g_sn/2). Every route to the same object (from the metric, from Christoffels, from Riemann, from Ricci, including starting from an object in a non-default index configuration) gives the same tensor.",
 ["inputs","histories"],"all metrics (dimension, signature, sparsity, coordinate dependence, index configuration of the given metric) and all derivation routes through intermediate objects",
 "Tests evaluate a handful of components for Schwarzschild/Kerr/de Sitter, diagonal or symmetric 4D metrics only; wrong index order, a missed product-rule term or a dimension assumption that vanishes on those is invisible.",
 ["symbolic/christoffel.py","symbolic/riemann.py","symbolic/ricci.py","symbolic/einstein.py"],
 [("ChristoffelSymbols.from_metric","symbolic/christoffel.py"),("RiemannCurvatureTensor.from_christoffels","symbolic/riemann.py"),("RicciTensor.from_riemann/RicciScalar.from_riccitensor","symbolic/ricci.py"),("EinsteinTensor.from_metric","symbolic/einstein.py")],
 ["tensor() components of the public symbolic classes evaluated at points"])

prop("C02","Weyl, Schouten and stress-energy tensors are the stated combinations",
 "For every metric the Weyl tensor is the trace-free part of the Riemann tensor, the Schouten tensor is (Ric - R g/(2(n-1)))/(n-2), and the stress-energy tensor is c^4/(8 pi G) times (Einstein tensor minus Lambda times the metric). In dimension 3 the Weyl tensor is identically zero, and asking for Weyl or Schouten in dimension below 3 raises ValueError.",
 ["inputs"],"all metrics in dimension 2,3,4,5 with covariant or contravariant input",
 "Existing tests only use vacuum or maximally symmetric 4D metrics where most terms vanish or coincide, and never dimension 5.",
 ["symbolic/weyl.py","symbolic/schouten.py","symbolic/stress_energy_momentum.py"],
 [("WeylTensor.from_metric","symbolic/weyl.py"),("SchoutenTensor.from_metric","symbolic/schouten.py"),("StressEnergyMomentumTensor.from_metric","symbolic/stress_energy_momentum.py")],
 ["tensor() components evaluated at points; exception type"])

prop("C03","Computed curvature obeys the geometric identities",
 "The tensors the library returns satisfy, for every metric: torsion-free symmetry and metric compatibility of the connection, the antisymmetries, pair symmetry and first Bianchi identity of Riemann, the second Bianchi identity in contracted form (the Einstein tensor is divergence free), symmetry of Ricci, Einstein, Schouten and stress-energy, and vanishing of every trace of Weyl.",
 ["inputs"],"all metrics; all index positions",
 "The identities quantify over all components and all metrics; tests look at single components of special metrics.",
 ["symbolic/christoffel.py","symbolic/riemann.py","symbolic/ricci.py","symbolic/einstein.py","symbolic/weyl.py"],
 [("component formulas of the pipeline","symbolic/riemann.py"),("index bookkeeping","symbolic/tensor.py")],
 ["the library's own tensors (and sympy derivatives of them) evaluated at points"])

prop("C04","Raising and lowering indices is path independent and reversible",
 "Changing a tensor's index configuration contracts exactly the indices that change with the metric (lowering) or inverse metric (raising) and leaves index order alone, so that any sequence of configuration changes gives the same components as the direct change and returning to the original configuration restores the original tensor. The result has the tensor's class, the requested configuration, the metric used as its parent metric and a name recording the change; a missing metric or an invalid configuration is an error and never a silently wrong tensor.",
 ["inputs","histories"],"all tensor kinds and ranks, all configurations, all finite sequences of configuration changes, explicit or inherited metric given covariantly or contravariantly",
 "Tests change one configuration once on symmetric tensors of diagonal metrics, where index order mistakes and mixed-up metric/inverse cannot show.",
 ["symbolic/tensor.py","symbolic/christoffel.py","symbolic/riemann.py","symbolic/ricci.py","symbolic/einstein.py","symbolic/weyl.py","symbolic/schouten.py","symbolic/stress_energy_momentum.py","symbolic/vector.py"],
 [("_change_config","symbolic/tensor.py"),("change_config methods","symbolic/riemann.py"),("_change_name","symbolic/helpers.py")],
 ["change_config() results: components, class, config, parent_metric, name, exceptions"],
 [("config","index configuration string","symbolic/tensor.py"),("_parent_metric","metric used for index changes","symbolic/tensor.py")])

prop("C05","A metric and its inverse stay consistent under every call history",
 "For every metric, in any order and number of calls, the inverse is the matrix inverse with the opposite index configuration, the inverse of the inverse is the original, lowering always yields the covariant metric, the metric's own parent metric is itself, and the original object is never altered. Only all-lower and all-upper configurations are obtainable: any mixed configuration raises ValueError.",
 ["inputs","histories"],"all metrics and all finite sequences of inv / lower_config / change_config calls on the objects produced",
 "Caching of the inverse makes the answer depend on call history; tests exercise one call on one metric.",
 ["symbolic/metric.py"],
 [("MetricTensor.change_config/inv/lower_config","symbolic/metric.py")],
 ["components and config of the metrics returned"],
 [("_invmetric","cached inverse","symbolic/metric.py")])

prop("C06","Tensor products and contractions sum the indices asked for",
 "The product of two tensors without contraction is the outer product with concatenated index configuration, and with a pair of index positions (including position zero of either tensor) it is the sum over exactly that pair, the remaining indices keeping their order and configuration. Contracting two indices of equal type raises ValueError and the result can be evaluated in all free symbols of both factors.",
 ["inputs"],"all pairs of tensors (ranks, configurations, free symbols) and all index pairs",
 "Tests contract one or two fixed index pairs of symmetric tensors.",
 ["symbolic/tensor.py"],[("tensor_product","symbolic/tensor.py")],["components, config, variables of the product"])

prop("C07","Lorentz transformation acts on every index by its type",
 "Transforming a tensor by a matrix multiplies every upper index by the matrix and every lower index by its inverse, so that contractions of transformed tensors equal transformed contractions, transforming by the inverse matrix undoes the transformation, and composing two transformations equals transforming by the product. The result keeps class, index configuration and symbols, has no parent metric and a name recording the transformation.",
 ["inputs","histories"],"all tensor kinds and configurations, all invertible matrices (boosts, rotations, shears), sequences of transformations",
 "The only value test is a rank-1 contravariant vector under one boost.",
 ["symbolic/tensor.py","symbolic/metric.py","symbolic/vector.py","symbolic/riemann.py"],
 [("BaseRelativityTensor.lorentz_transform","symbolic/tensor.py"),("subclass overrides","symbolic/riemann.py")],["components, class, config, parent_metric, name"])

prop("C08","Tensor construction validates its input and records faithful metadata",
 "A tensor is accepted exactly when its data is a list, tuple, array or scalar expression, its configuration consists of 'u' and 'l', the number of indices equals the rank (and the rank the class demands) and the leading dimension equals the number of coordinate symbols; otherwise construction raises TypeError or ValueError. An accepted tensor reports the order, configuration, symbols, dimension, name, free variables (sorted, without coordinates), undefined functions and components it was given.",
 ["inputs"],"all combinations of data kind, rank, configuration, symbols and class",
 "The accept/reject decision is a product space; tests sample a few reject cases per class.",
 ["symbolic/tensor.py","symbolic/vector.py","symbolic/metric.py"],
 [("Tensor.__init__","symbolic/tensor.py"),("BaseRelativityTensor.__init__","symbolic/tensor.py")],["constructor outcome and public attributes"])

prop("C09","Substitution, simplification and lambdification preserve a tensor's value",
 "For every tensor, substituting values for symbols yields the same tensor with the same rank and index configuration evaluated at those values, simplifying (in place or not) never changes the value of any component, and the generated numeric function, called with numbers for the argument list it returns, produces the component values at those numbers in the component layout of the tensor.",
 ["inputs","histories"],"all tensors of any rank, all substitutions, all argument orders",
 "Tests lambdify a few metrics and substitute in one rank-2 tensor.",
 ["symbolic/tensor.py","symbolic/helpers.py"],
 [("Tensor.subs/simplify","symbolic/tensor.py"),("tensor_lambdify","symbolic/tensor.py"),("simplify_sympy_array","symbolic/helpers.py")],["values of returned tensors and functions"])

prop("C10","Every predefined spacetime is the one it is documented to be",
 "Each predefined metric equals the documented line element for every value of its parameters, with parameters given by the caller substituted and defaults kept symbolic, and obeys the corresponding field equations (vacuum, vacuum with cosmological constant, electrovacuum, flat, prescribed scalar curvature) at every regular point. Searching the catalogue finds exactly the spacetimes whose name contains the query, whatever its case.",
 ["inputs","configurations"],"all predefined spacetimes, all parameter values, all regular points",
 "Tests mostly check that a MetricTensor instance is returned; only a few field equations are checked for Schwarzschild and de Sitter.",
 ["symbolic/predefined/vacuum_solutions.py","symbolic/predefined/de_sitter.py","symbolic/predefined/alcubierre_warp.py","symbolic/predefined/bessel_gravitational_wave.py","symbolic/predefined/minkowski.py","symbolic/predefined/cmetric.py","symbolic/predefined/davidson.py","symbolic/predefined/ernst.py","symbolic/predefined/godel.py","symbolic/predefined/bertotti_kasner.py","symbolic/predefined/barriola_vilenkin.py","symbolic/predefined/janis_newman_winicour.py","symbolic/predefined/find.py"],
 [("predefined constructors","symbolic/predefined/vacuum_solutions.py"),("find/get_predefined","symbolic/predefined/find.py")],["tensor() of the returned MetricTensor evaluated at points"])

prop("C11","Position conversions between coordinate systems agree on every path",
 "Converting an event between Cartesian, spherical and Boyer-Lindquist coordinates yields the same physical event on every path: the Cartesian image is preserved, a round trip returns the original coordinates (angles up to the canonical ranges) and direct and indirect conversions agree, for every octant, axis and equatorial position (outside the disc r = 0 of the oblate system) and every spin including zero. Time is never changed, and a Boyer-Lindquist conversion without mass and spin raises KeyError.",
 ["inputs","histories"],"all positions, all spins and masses, all finite conversion sequences",
 "Tests convert a few first-octant points once.",
 ["coordinates/conversion.py","coordinates/core.py","coordinates/utils.py"],
 [("*_fast conversion kernels","coordinates/utils.py"),("conversion classes","coordinates/conversion.py")],["components of the converted coordinate objects"])

prop("C12","Velocity conversions are the Jacobian of the position conversions",
 "Converting a position with a 3-velocity between Cartesian, spherical and Boyer-Lindquist coordinates maps the velocity by the chain rule of the position map, so the Cartesian velocity is the same on every path and round trips restore the original velocity, away from the polar axis. The position part equals the conversion of the position alone. The conversion classes on plain SI numbers hold what they are given and convert the velocity only when all three components are given.",
 ["inputs","histories"],"all positions off the axis in every octant (including coordinate planes), all velocities and spins, all finite conversion sequences",
 "Tests check a few velocities in one octant; sign and quadrant errors elsewhere are invisible.",
 ["coordinates/differential.py","coordinates/conversion.py","coordinates/utils.py"],
 [("velocity kernels","coordinates/utils.py"),("differential classes","coordinates/differential.py")],["components of the converted differentials"])

prop("C13","Physical results do not depend on the units arguments are given in",
 "Supplying the same physical quantities in different units (km, kpc, degrees, years, solar masses, microcoulombs, ...) gives the same SI position 4-vector, velocity, metric components, characteristic radii, singularities, body and shadow quantities. A position 4-vector is (c t, three SI components), coordinate components are retrievable by name and by index as given, and dimensionally wrong units are rejected.",
 ["inputs","configurations"],"all unit choices for every dimensioned argument",
 "Tests almost always pass SI quantities, where a dropped conversion is invisible.",
 ["coordinates/core.py","coordinates/differential.py","metric/base_metric.py","metric/kerr.py","metric/kerrnewman.py","units.py"],
 [("quantity_input and .si.value conversions","coordinates/core.py"),("primitive","units.py")],["public return values"])

prop("C14","Four-velocity is normalised in the metric it is asked for",
 "The 4-velocity built from a position and 3-velocity in a metric has the given spatial components and a positive time component for which g(u,u) = c^2 holds in that metric at that position, for every timelike 3-velocity. Asking for it in a metric whose coordinate system differs raises CoordinateError, and asking again for another metric never reuses the earlier result. The metric may be a predefined one, a perturbed one or one of the user's own with any components; lorentz_factor is the same statement in a flat metric.",
 ["inputs","histories"],"all positions outside horizons, timelike velocities, metrics (Schwarzschild, Kerr, Kerr-Newman) and sequences of requests",
 "Tests evaluate one velocity per class.",
 ["coordinates/differential.py","coordinates/utils.py"],
 [("v0","coordinates/utils.py"),("v_t setter / velocity","coordinates/differential.py")],["velocity(), v_t and exceptions"],
 [("_v_t","last computed time component","coordinates/differential.py")])

prop("C15","Numeric metric components are those of the named spacetime",
 "The covariant components of the Schwarzschild, Kerr and Kerr-Newman metrics at every event are those of the textbook line element in SI units for the given mass, spin and charge, the contravariant components are their matrix inverse, and Kerr-Newman with zero charge equals Kerr, Kerr with zero spin equals Schwarzschild. A perturbation is added exactly once to the covariant components and taken into account in the inverse.",
 ["inputs","configurations"],"all masses, spins in [0,1], charges, events outside coordinate singularities, perturbation functions",
 "Tests compare a few numbers, mostly at charge zero or so small that the charge terms are below tolerance.",
 ["metric/base_metric.py","metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("metric_covariant","metric/kerrnewman.py"),("metric_contravariant","metric/base_metric.py")],["metric_covariant/metric_contravariant values"])

prop("C16","Numeric Christoffel symbols and geodesic acceleration match the metric",
 "The Christoffel symbols of each numeric metric are exactly those of its own covariant components (all 64, symmetric in the lower pair), and the geodesic right-hand side returns the velocity followed by minus Gamma u u plus, for charged particles around charged bodies, the Lorentz force charge * F^a_b u^b in the sign convention of the stated field tensor. Asking in an unsupported coordinate system raises CoordinateError.",
 ["inputs","configurations"],"all masses, spins, charges, particle charges, events and velocities",
 "Tests compare two pinned numeric arrays and only uncharged particles around uncharged bodies.",
 ["metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("_christoffels/_dg_dx_bl/_f_vec","metric/kerrnewman.py")],["christoffels() and f_vec() values"])

prop("C17","Kerr-Newman electromagnetic field is consistent",
 "The covariant potential of the Kerr-Newman field is r_Q r/rho^2 (1, 0, 0, -alpha sin^2 theta), the field tensor is antisymmetric with the electric components its closed form states, contravariant potential and tensor are the index-raised covariant ones, and all vanish for zero charge.",
 ["inputs"],"all masses, spins, charges, events",
 "Tests evaluate one point.",
 ["metric/kerrnewman.py"],[("em_potential_*, em_tensor_*","metric/kerrnewman.py")],["values of the four electromagnetic methods"])

prop("C18","Horizons, ergospheres and auxiliary functions are consistent roots",
 "Reported horizons are the roots of the metric's Delta and reported ergospheres, as functions of the polar angle, the roots of the time-time component, ordered inner ergosphere <= inner horizon <= outer horizon <= outer ergosphere; for Schwarzschild the outer ones equal the Schwarzschild radius. Sigma, Delta, rho, alpha and the Schwarzschild radius equal their defining formulas for plain numbers and for quantities alike, and spin outside [0,1] raises ValueError.",
 ["inputs","configurations"],"all masses, sub-extremal spins and charges, polar angles",
 "Tests check a single mass/spin value, with zero charge.",
 ["metric/base_metric.py"],[("singularities, sigma, delta, rho, alpha, schwarzschild_radius","metric/base_metric.py")],["returned dictionary, functions and numbers; exceptions"])

prop("C19","Metric objects refuse coordinates they are not defined in",
 "Each numeric metric answers (components, Christoffels, right-hand side, singularities) only when constructed with coordinates of the system it is defined in and raises CoordinateError otherwise, whatever the order of calls; answers of one object never influence another object.",
 ["configurations","histories"],"all metric classes x coordinate systems x operations, all interleavings of calls on several objects",
 "Tests cover part of the matrix once, without interleaving.",
 ["metric/base_metric.py","metric/schwarzschild.py","metric/kerr.py","metric/kerrnewman.py"],
 [("system checks","metric/kerr.py")],["exceptions and values"])

prop("C20","Dual numbers compute exact first derivatives",
 "Every arithmetic operation and elementary function on dual numbers returns the value of the operation and the derivative given by the rules of calculus, for every mix of dual and plain operands in either position, so that evaluating any composed expression yields its exact value and directional derivative. Differentiating a metric function this way gives the symmetric matrix of partial derivatives for each coordinate.",
 ["inputs","programs"],"all expressions over + - * / ** neg sin cos tan log exp with dual and plain operands at all points of their domain",
 "Tests check each operator once; composition and operand order combinations are unbounded.",
 ["utils/dual.py"],[("DualNumber","utils/dual.py"),("_jacobian_g","utils/dual.py")],["val and deriv of results"])

prop("C21","Initial momentum satisfies the mass-shell condition",
 "For every metric (built-in or user supplied, with any off-diagonal components), position and spatial momentum, the completed 4-momentum keeps the spatial components and satisfies g^{ab} p_a p_b = -1 for time-like and 0 for null-like geodesics, with the root that the stated convention selects.",
 ["inputs"],"all supported and user metrics, parameters, positions, momenta, both kinds",
 "Tests check Schwarzschild/Kerr values at a few points; user metrics with general off-diagonal components are never used.",
 ["geodesic/utils.py","geodesic/geodesic.py"],[("_P","geodesic/utils.py"),("contravariant metrics","geodesic/utils.py")],["Geodesic.momentum"])

prop("C22","The symplectic integrator composes its flows as specified at each order",
 "One step of order 2 is the symmetric composition of the three Hamiltonian flows on the duplicated phase space, orders 4, 6 and 8 are the triple-jump compositions of the next lower order, hence the scheme is time reversible, its local error has the stated order and the momenta of coordinates the metric does not depend on, summed over both copies of phase space, are conserved, for every metric, step size and coupling. Each step appends one result, warns exactly when the error measure exceeds the tolerances and warnings are not suppressed, and an unsupported order is rejected.",
 ["inputs","histories","configurations"],"all metrics, states, step sizes, couplings, orders and step counts",
 "Tests check one step from one state at order 2 against stored numbers and only loosely higher orders.",
 ["integrators/fantasy.py","integrators/utils.py"],[("GeodesicIntegrator.step/_ord_*","integrators/fantasy.py"),("_flow_A/_flow_B/_flow_mixed/_Z","integrators/utils.py")],["results of step(); warnings"],
 [("res_list","current duplicated phase-space point","integrators/fantasy.py"),("step_num","steps performed","integrators/fantasy.py")])

prop("C23","A geodesic's trajectory is the integrator's output in the chosen coordinates",
 "A geodesic of N steps returns N indexed rows of 4-position and 4-momentum, equal to the successive integrator states from the given initial data with the options given; Cartesian output equals the spherical output with only positions converted; time-like and null-like shorthands equal the general class, and unknown metric names are rejected.",
 ["inputs","configurations","histories"],"all metrics, initial data, options and step counts",
 "Tests check shapes and a few runs.",
 ["geodesic/geodesic.py"],[("Geodesic.calculate_trajectory","geodesic/geodesic.py")],["Geodesic.trajectory and attributes"],
 [("_trajectory","stored result","geodesic/geodesic.py")])

prop("C24","Runge-Kutta integrators take the classical step and respect the bound",
 "The naive integrator advances by exactly the classical fourth-order Runge-Kutta step in the direction of its bound, for any right-hand side of scalar or vector type, and stops with a warning and unchanged state once the bound is reached. The adaptive integrator never passes its bound, starts and goes on with steps in proportion to the given step size, keeps its error within tolerance, and warns instead of failing when stepped after finishing.",
 ["inputs","histories"],"all right-hand sides, initial data, bounds on either side, step sizes and step counts",
 "Tests take one or two steps of simple equations; the bound is never reached in either direction by the naive one.",
 ["integrators/runge_kutta.py"],[("RK4naive.step","integrators/runge_kutta.py"),("RK45","integrators/runge_kutta.py")],["t, y and warnings after each step"],
 [("t,y,direction","integration state","integrators/runge_kutta.py")])

prop("C25","Cosmological scale factor and its derivative are a consistent pair",
 "For each era the scale factor is the stated law (t^(2/3), t^(1/2), exp(sqrt(Lambda/3) t)) times the tuning parameter, its derivative is the time derivative of that law, both are independent of the time unit, and an unknown era raises ValueError.",
 ["inputs","configurations"],"all times, eras, tuning parameters and units",
 "Tests sample one time per era.",
 ["utils/scalar_factor.py"],[("scalar_factor, scalar_factor_derivative","utils/scalar_factor.py")],["returned values and exceptions"])

prop("C26","Embedding surface of a Schwarzschild body is sampled as specified",
 "The embedding reports the circumference radius r/sqrt(1-2M/r), walks outward and inward from its initial radius by steps of M/alpha accumulating height by the stated gradient at each radius, and the surface is the solid of revolution of that outward profile, for every mass, mass unit and step factor.",
 ["inputs"],"all masses, units, step factors",
 "Tests pin values for one mass.",
 ["hypersurface/schwarzschildembedding.py"],[("get_values/get_values_surface","hypersurface/schwarzschildembedding.py")],["returned profile and surface arrays"])

prop("C27","Black-hole shadow is symmetric, ordered and scales with the mass",
 "The shadow's critical impact parameter is 3 sqrt(3) M (M the mass's value in kg, lengths in km), all rays outside it have turning points solving r/sqrt(1-2M/r) = b, impact parameters and intensities are reported as matching lists mirrored about zero, and intensities equal the stated red- and blue-shifted integrals (by five-point Gauss-Legendre quadrature); smoothing interpolates the same curve by a cubic spline at the requested number of points.",
 ["inputs","histories"],"all masses (including non-integer), ray counts, fields of view, limits",
 "Tests check array lengths for one mass.",
 ["rays/shadow.py"],[("Shadow","rays/shadow.py")],["public arrays of Shadow"])

prop("C28","Plotters draw the data they were given, for any sequence of plots",
 "Static and interactive geodesic plotters (and the shadow and hypersurface plotters) draw, for any sequence of calls on any number of plotters, exactly the trajectories' coordinates in the chosen view, in 3D, 2D, parametric and animated modes, together with the horizon and (if wanted) the ergosphere of the geodesic's black hole (in 2D: their meridional outline), with the colours, titles, aspect, labels and figure size asked for. A static plotter starts a new figure with every plot, an interactive one adds to its figure; a refused call draws nothing, clearing empties the plotter's own figure, showing and saving concern the plotter's own figure (saved under the name given), and no call touches the figure of another.",
 ["inputs","histories"],"all trajectories, options and finite sequences of plot/clear calls",
 "Tests check with mocks that drawing functions are called.",
 ["plotting/geodesic/static.py","plotting/geodesic/interactive.py","plotting/rays/shadow.py","plotting/hypersurface/core.py"],
 [("StaticGeodesicPlotter","plotting/geodesic/static.py"),("InteractiveGeodesicPlotter","plotting/geodesic/interactive.py")],["data of the matplotlib artists and plotly traces"],
 [("figure contents","artists and traces drawn so far","plotting/geodesic/static.py")])

prop("C29","Physical constants, bodies and their relations are consistent",
 "Every constant exposed numerically has its documented SI value and unit, every symbolic constant is retrievable by name with the same identity and keeps its name and description whatever other constants are made, and units are stripped to SI values. Bodies keep the name, mass, charge, radius, coordinates (with position and velocity taken from them), parent and defaults they were constructed with, quantities of the wrong kind are refused, and changing one body (made from quantities of its own) never shows in another; equality and printed form follow the data, and the predefined bodies have their documented data.",
 ["inputs","configurations"],"all constants and all body constructions",
 "Tests check a few constants and bodies.",
 ["constant.py","units.py","symbolic/constants.py","bodies.py"],[("constants","constant.py"),("Body","bodies.py")],["attribute values"])

prop("C30","Julia-set images count escape iterations",
 "Every pixel of a fractal image is (iterations until escape / iteration limit)^0.2 of the map z^2 + c at that pixel's complex coordinate, for every window, size, angle, escape radius and iteration limit. The slider figure holds one image per angle between start and end and shows the last one at first.",
 ["inputs"],"all pixels and parameters",
 "Tests only check that a figure results.",
 ["plotting/fractal.py"],[("_julia","plotting/fractal.py")],["pixel arrays"])

prop("C31","Coordinate transformation matrices invert the Jacobian of the change",
 "The transformation matrix made from the old coordinates as functions of the new ones is the inverse of the Jacobian of the change, and its inverse is that Jacobian (rows for new, columns for old coordinates), however often and in whatever order inverses of several matrices are asked for; a matrix made from components has these components and their matrix inverse. A matrix keeps the coordinates and expressions it was given, asking never alters it, anything but rank two raises ValueError and a change given the other way round NotImplementedError.",
 ["inputs","histories"],"all regular changes of coordinates in any dimension, all call histories",
 "Tests use plane polar coordinates once.",
 ["symbolic/helpers.py"],[("TransformationMatrix","symbolic/helpers.py")],["components of the matrix and of inv(), attributes, exceptions"],
 [("_inv","cached inverse","symbolic/helpers.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P))
