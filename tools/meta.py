#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, observe):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, observe=observe))

C = "src/curve/mod.rs"; B = "src/curve/basis/mod.rs"; K = "src/curve/knots/mod.rs"; KM = "src/curve/knots/methods.rs"
PT = "src/curve/points/mod.rs"; G = "src/curve/generation/mod.rs"; PA = "src/curve/parameters/mod.rs"; PM = "src/curve/parameters/methods.rs"
IP = "src/curve/points/methods/interpolation.rs"; FM = "src/curve/points/methods/fit/mod.rs"; FL = "src/curve/points/methods/fit/loose.rs"; FF = "src/curve/points/methods/fit/fixed.rs"
MI = "src/manipulation/insert.rs"; MM = "src/manipulation/merge.rs"; MR = "src/manipulation/reverse.rs"; MS = "src/manipulation/split.rs"

REAL = "Exact real arithmetic (rounding and overflow excluded); symbolic knots at least 2^-20 apart; degree, multiplicities and sizes bounded by the listed configurations. Trusts the LLVM instrumentation, symrt and z3 (a sample of unsat answers is rechecked by cvc5; every path witness and counterexample is replayed on the ordinary build)."
HYB = "Coordinates symbolic in [-1,1] (some configurations: up to 2^20 or 2^-30), knots, parameters and matrix factorisations executed natively for the listed concrete values; equality up to 1e-6 of their size. Trusts the LLVM instrumentation, symrt and z3; witnesses and counterexamples are replayed on the ordinary build."
FP = "IEEE-754 binary64, bit-exact, for every 64-bit value including NaN, infinities and subnormals; degree, multiplicities and sizes bounded by the listed configurations. Trusts the LLVM instrumentation, symrt and z3; witnesses and counterexamples are replayed on the ordinary build."

prop("C01", "Evaluation returns the point of the B-spline curve",
 "Evaluating a curve with clamped knots at any parameter u in [0,1] returns the sum over all control points weighted by their B-spline basis functions at u, as given by the de Boor recursion. At an internal knot the span to its right counts, at u = 1 the last non-empty span. This holds for every degree, every multiplicity of the internal knots up to degree + 1 and every dimension.",
 ["inputs", "configurations"], "all parameters in [0,1], all control points, all strictly increasing internal knots, for degrees 0..9 and multiplicity patterns up to p+1",
 "Tests evaluate a few curves with hand-picked parameters; the value must be right for every parameter, knot vector and control polygon, including parameters on knots of any multiplicity.",
 [C, B, K, PT], [("sum over the p+1 basis functions of the span", C+": evaluate_derivative / calculate"), ("Cox-de Boor recursion", B), ("span search", K+": find_idx")], REAL, ["Curve::evaluate"])
prop("C02", "Basis functions: recursion, non-negativity, support, partition of unity",
 "Each basis function of every derivative level equals its Cox-de Boor definition for every parameter in [0,1], is never negative, vanishes outside the knots that support it, and all of them sum to one. Both public entry points give the same values.",
 ["inputs", "configurations"], "all parameters in [0,1] and all strictly increasing internal knots, for degrees 0..8, derivative levels 0..p and multiplicity patterns",
 "Tests sample a few parameters of a few knot vectors; the identities are algebraic laws over all knot vectors and parameters.",
 [B, K], [("Cox-de Boor recursion with the 0/0 = 0 convention", B), ("evaluate over derivative knot vectors", K)], REAL, ["Knots::evaluate", "basis::basis"])
prop("C03", "Derivatives of every order are the derivatives of the curve",
 "Evaluating the k-th derivative at any u in [0,1] returns the k-th derivative of the piecewise polynomial curve (from the right at internal knots, from the left at u = 1). Derivatives of an order above the degree are zero.",
 ["inputs", "configurations"], "all parameters, control points and knots for degrees 0..8, orders 0..p+2 and multiplicity patterns up to p+1",
 "Tests compare single derivative values; the law ranges over every order, parameter, multiplicity and control polygon.",
 [C, PT, K], [("derivative control points", PT+": derive / derivative_points"), ("derivative knot vectors", K), ("evaluation of order k", C+": evaluate_derivative")], REAL, ["Curve::evaluate_derivative"])
prop("C04", "Evaluation accepts exactly the parameters in [0,1]",
 "Evaluating a curve or any of its derivatives succeeds if and only if 0 <= u <= 1 and never panics: every other value, NaN and infinities included, is reported as out of bounds together with the parameter and the bounds. Accepted evaluations return a vector of the curve's dimension, and exactly zero for orders above the degree.",
 ["inputs", "configurations"], "all 2^64 parameter values and all increasing floating-point knots, for degrees 0..8 and derivative orders 0..p+2",
 "Tests try two out-of-range values; NaN, signed zeros, values next to knots and to the ends, and the index arithmetic behind them are not sampled.",
 [C, K, B], [("bounds check", C+": evaluate_derivative"), ("span search", K+": find_idx")], FP, ["Curve::evaluate", "Curve::evaluate_derivative"])
prop("C05", "Knot insertion does not change the curve",
 "Inserting any knot 0 < u < 1 whose multiplicity is at most the degree succeeds, adds exactly that knot in sorted position and one control point, and leaves every point of the curve where it was; repeated and successive insertions do the same. A knot of multiplicity degree + 1 is rejected, naming its multiplicity, and the curve stays as it was.",
 ["inputs", "histories", "configurations"], "all insertion parameters, evaluation parameters, control points and knots, for one to three insertions and repeated insertion up to p+2 times",
 "Tests insert a few knots and compare a few points; geometry preservation is an identity over all parameters, knots and multiplicities.",
 [MI, C, K], [("Boehm insertion", MI), ("multiplicity check", MI), ("derived data rebuilt", C)], REAL, ["Curve::insert", "Curve::insert_times", "insert::insert"])
prop("C06", "Insertion and splitting accept exactly the legal parameters",
 "Inserting a knot and splitting succeed if and only if 0 < u < 1 and the multiplicity of u is at most the degree, for every floating-point value including NaN; otherwise they return the error that names the violated limit and leave the curve unchanged, and they never panic. An accepted insertion yields exactly the old knots plus u, an accepted split yields clamped halves that contain exactly the old knots on either side.",
 ["inputs", "configurations"], "all 2^64 parameter values against concrete and symbolic floating-point knots of degree 1..8 with multiplicities 1..p+1",
 "Tests try single illegal values; the boundary behaviour concerns all bit patterns and all multiplicities.",
 [MI, MS, K], [("bounds and multiplicity checks", MI+", "+MS), ("multiplicity count", K+": multiplicity")], FP, ["insert::insert", "Curve::insert", "Curve::insert_times", "split::split", "split::split_and_normalize"])
prop("C07", "The two halves of a split trace the original curve",
 "Splitting at any 0 < u < 1 of multiplicity at most the degree yields two clamped curves of the same degree whose knots are the original knots left and right of u, rescaled to [0,1] exactly where normalisation was requested. Every point of the left half is the original curve's point on [0,u] and every point of the right half that on [u,1]; the original is unchanged.",
 ["inputs", "configurations"], "all split parameters, evaluation parameters, control points and knots, for degrees 1..8, multiplicity patterns and all four normalisation options",
 "Tests split one curve at a few places; correctness depends on multiplicities, coincidence with knots and normalisation flags for every parameter.",
 [MS, MI, K, C], [("insertion up to full multiplicity and cutting", MS), ("normalisation", K+": normalize")], REAL, ["Curve::split", "split::split", "split::split_and_normalize"])
prop("C08", "Reversal traverses the same curve backwards",
 "Reversing a curve gives the curve u -> C(1-u): mirrored knots, control points in opposite order and the k-th derivative with sign (-1)^k, in place and as a copy alike. Reversing twice restores the original, the copying form leaves its argument alone, and reversing data points reverses their order.",
 ["inputs", "configurations"], "all parameters, control points and knots, for degrees 0..8 and multiplicity patterns",
 "Tests reverse single curves and compare a few numbers; the law holds for every parameter and derivative order.",
 [MR, PT, K, C], [("knot and point reversal", MR+", "+K+", "+PT), ("derived data rebuilt", C)], REAL, ["Curve::reverse", "reverse::reverse", "reverse::reversed", "Points::reverse"])
prop("C09", "Merging joins two curves smoothly and keeps the far parts",
 "Merging two clamped curves of equal degree p and dimension gives one clamped curve over [0,1] whose knots are the knots of both halves compressed to [0,1/2] and [1/2,1] with a simple knot in the middle, continuous there with all derivatives up to order p-1. Only the control points next to the joint move: outside the spans next to the joint the merged curve coincides with the two inputs, which are themselves unchanged.",
 ["inputs", "configurations"], "all control points of both curves and all evaluation parameters, for degrees 1..7, different segment counts (up to 19) and several concrete knot vectors with multiplicities",
 "Tests merge a few curves of degree up to 3 with equal size; the joint conditions must hold for every pair of control polygons, degree and pair of sizes.",
 [MM, C], [("joint control points from the constrained linear system", MM)], HYB, ["merge::merge", "merge::merge_from", "merge::merge_to"])
prop("C10", "Merging moves the control points as little as possible",
 "Among all curves with the merged knot vector that keep the far control points, the merged curve minimises the sum of squared displacements of the two curves' control points, subject to the requested constraints. Every requested point of either curve is kept exactly; in particular merging from the left keeps the left end point and merging to the right keeps the right start point.",
 ["inputs", "configurations"], "all control points of both curves, for degrees 1..7, up to three constraint parameters, several concrete knot vectors with multiplicities",
 "Tests check specific merged control points; optimality is a statement over all competing curves and all inputs.",
 [MM], [("Lagrange system of the displacement", MM)], HYB, ["merge::merge", "merge::merge_from", "merge::merge_to", "Curve::append_constrained"])
prop("C11", "Interpolation passes through every data point",
 "Interpolating n+1 data points over admissible parameters and knots gives n+1 control points whose curve takes the value of each data point at that point's parameter.",
 ["inputs", "configurations"], "all data points in [-1,1], for degrees 1..7, up to 21 points, equally spaced and irregular parameters and uniform, averaging and de Boor knots, or given knots with repeated ones",
 "Tests interpolate a few data sets; the property must hold for every data set because one wrong matrix entry only shows for suitable data.",
 [IP, C, KM], [("collocation matrix and its factorisation", IP)], HYB, ["interpolation::interpolate", "Curve::evaluate"])
prop("C12", "The loose fit minimises the penalised squared error",
 "The fit with loose ends returns n+1 control points at which the gradient of the sum of squared distances at the parameters plus lambda times the squared kappa-th differences of the control points vanishes, for every data set. Without a penalty, data taken from a curve over the same knots are reproduced.",
 ["inputs", "configurations"], "all data points in [-1,1], for degrees 1..7, up to 17 data points, equally spaced and irregular parameters, uniform and irregular knots, repeated internal knots, lambda in {0, 2^-10, 0.5, 1, 64} and kappa 1..6, lambda = 4096 with kappa 1",
 "Tests compare a handful of fits; optimality quantifies over every data set and penalty.",
 [FL, FM], [("normal equations and their factorisation", FM+": compute_svd, "+FL)], HYB, ["fit::loose::fit"])
prop("C13", "The fixed-ends fit keeps the ends and is optimal inside",
 "The fit with fixed ends returns n+1 control points of which the first and last are the first and last data points, bit for bit, and whose interior control points make the gradient of the squared error of the interior data, plus lambda times the squared kappa-th differences of the interior control points, vanish for every data set. A single segment returns the two end points.",
 ["inputs", "configurations"], "all data points in [-1,1], for degrees 1..7, up to 17 data points, equally spaced and irregular parameters, uniform and irregular knots, repeated internal knots, lambda in {0, 2^-10, 0.5, 1, 64} and kappa 1..6, lambda = 4096 with kappa 1",
 "Tests compare a handful of fits; optimality quantifies over every data set and penalty, and the end rows interact with it.",
 [FF, FM], [("reduced normal equations", FF), ("difference penalty", FM)], HYB, ["fit::fixed::fit"])
prop("C14", "Parameters are the normalised accumulated lengths",
 "Equally spaced parameters are g/m. Chord-length and centripetal parameters start at 0, end at 1, never decrease, and equal the accumulated distances (or square roots of distances) up to the point divided by their total, for all data whose points do not all coincide.",
 ["inputs", "configurations"], "all data points (up to 3 points, dimensions 1..3) and all step lengths along fixed directions (up to 15 points), m up to 40 for equal spacing",
 "Tests use one data set per method; the law holds for all data, including repeated points and all dimensions.",
 [PM, PA], [("accumulated chord lengths", PM)], REAL, ["parameters::generate", "parameters::methods"])
prop("C15", "Generated knot vectors follow their definitions",
 "Generated knot vectors are clamped on [0,1], sorted and have n+p+2 entries. Uniform knots are equidistant, averaging knots are the means of p successive parameters, de Boor knots follow their interpolation formula for as many parameters as control points, and otherwise every span of them contains a parameter.",
 ["inputs", "configurations"], "all strictly increasing parameter vectors, for degrees 1..7 and up to 15 segments; uniform knots for degrees 1..6 and up to 17 segments",
 "Tests compare single vectors; the formulas quantify over all parameter vectors and sizes.",
 [KM, K], [("knot methods", KM)], REAL, ["knots::generate", "knots::methods"])
prop("C16", "Manipulated curves carry the derivative data of a fresh curve",
 "After any insertion, split, reversal or merge, alone or in sequence, the derivative knot vectors, derivative control points and all derivatives the curve evaluates are those of a curve newly built from its knots and control points. A newly built curve depends only on the knots and control points given, not on derivative data they carried.",
 ["inputs", "histories", "configurations"], "all insertion and split parameters, control points and evaluation parameters, for degrees 1..7 and seven operation sequences plus merge and building anew",
 "Tests check values after an operation but not the stored derivative data at every order for arbitrary parameters and sequences.",
 [C, K, PT, MI, MS, MR, MM], [("derived data recomputed after each operation", C)], REAL, ["Knots::vector_derivative", "Points::matrix_derivative", "Curve::evaluate_derivative"])
prop("C17", "Knot search returns the span asked for",
 "For every u in [0,1] and every derivative level, the search for the knot left of (or equal to) u and right of (or equal to) u returns an index inside the domain whose knot stands in exactly that relation to u with no other knot in between; at the ends of the domain the first or last non-empty span is returned. It never panics.",
 ["inputs", "configurations"], "all floating-point parameters in [0,1] and all increasing floating-point knots, for degrees 0..8, every derivative level and multiplicities 1..p+1",
 "Tests look up a few parameters in two vectors; repeated knots, all derivative levels and the ends are a product space tests do not cover.",
 [K], [("find_idx with its four comparators", K)], FP, ["Knots::find_idx"])
prop("C18", "Knot predicates and rescaling mean what they say",
 "Sorted, clamped, normed and uniform are reported exactly for vectors that are so, and the multiplicity of a value is the number of domain knots equal to it. Normalising maps any clamped vector affinely to [0,1] and rescaling maps it to the requested interval, at every derivative level; the copying form leaves its argument alone.",
 ["inputs", "configurations"], "all floating-point knot values (predicates), all affine images of all clamped vectors (rescaling), for degrees 1..7",
 "Tests try a few vectors; equivalence with the definition needs all of them.",
 [K], [("predicates, normalize, rescale", K)], "Predicates: IEEE-754 binary64, bit-exact. Rescaling: exact real arithmetic. Bounds: the listed sizes. Trusts the LLVM instrumentation, symrt and z3; witnesses and counterexamples are replayed on the ordinary build.", ["knots::is_sorted", "knots::is_clamped", "knots::is_normed", "knots::is_uniform", "Knots::normalize", "Knots::rescale"])
prop("C19", "Coordinates are treated independently and alike",
 "Evaluation, insertion, splitting, reversal, derivatives, merging, interpolation and fits of a curve in several dimensions give in every coordinate exactly what they give for that coordinate alone.",
 ["inputs", "configurations"], "all control and data points in dimensions 2..9, with symbolic parameters",
 "Tests use one or two dimensions with equal-looking rows; mixing of coordinates shows only for suitable data in suitable dimensions.",
 [C, PT, MI, MS, MR, MM, IP, FL, FF], [("column-wise linear algebra", PT)], "Real arithmetic for the knot manipulations, symbolic coordinates with native factorisations for merge, interpolation and fits. "+HYB, ["Curve", "merge::merge", "interpolation::interpolate", "fit"])
prop("C20", "A derivative curve is the derivative, as a curve of its own",
 "The k-th derivative curve has degree p-k, the knots of that level and evaluates, with all its own derivatives, to the derivatives of the original curve of correspondingly higher order. Derivative curves can be derived again, and the original is unchanged.",
 ["inputs", "configurations"], "all parameters, control points and knots, for degrees 1..8, k in 0..p and all further orders",
 "Tests take one derivative curve; that it is a full curve with consistent derivatives of its own for every k is not sampled.",
 [C, PT, K], [("get_derivative_curve", C)], REAL, ["Curve::get_derivative_curve"])
prop("C21", "Invalid requests are rejected with the right error, never a panic",
 "Curves with fewer segments than their degree, knot generation with degree 0 or above the number of segments, fits with more segments than data, mismatched parameters, a penalty order beyond the free control points, a negative weight or a weight with non-uniform knots, and merges with unequal degree, unequal dimension, unclamped or unnormed knots or as many constraints as the degree are rejected with the error that names the cause and the offending values. Every legal combination is accepted.",
 ["inputs", "configurations"], "all combinations of degrees 0..5 and sizes 0..8, penalty orders up to 6, all floating-point weights and knot values",
 "Tests trigger single errors; that the accepted set is exactly the legal one needs every size combination and value.",
 [C, G, KM, FM, MM], [("input checks", FM+": input_checks, "+MM+", "+KM+", "+C)], "Sizes by exhaustive symbolic choice within the stated ranges, weights, knots and parameters bit-exact. Trusts the LLVM instrumentation, symrt and z3; witnesses and counterexamples are replayed on the ordinary build.", ["Curve::new", "generate", "knots::generate", "fit", "merge"])
prop("C22", "Curve geometry: end points, end tangents, local control, hull",
 "Every clamped curve starts at its first and ends at its last control point, tangent there to the first and last leg of the control polygon with the speed degree / span length. Moving one control point changes the curve only on the knots that support it, and every point lies within the coordinate range of the control points of its span.",
 ["inputs", "configurations"], "all parameters, control points, displacements and knots, for degrees 1..8 and multiplicity patterns",
 "Tests check isolated points; these are inequalities and invariances over all parameters and control polygons.",
 [C, B, PT], [("clamped knots, local support and convexity of the basis", B)], REAL, ["Curve::evaluate", "Curve::evaluate_derivative"])
prop("C23", "Appending and prepending are merges",
 "Appending or prepending a curve gives the same curve as merging the two in that order, returns the changed curve and leaves the other one alone. With constraints, both keep each requested point of the curve it was requested for and displace the control points as little as possible.",
 ["inputs", "configurations"], "all control points of both curves, for degrees 1..5, different segment counts, up to three constraints and several concrete knot vectors",
 "Tests append two curves once; equivalence and the assignment of constraints to curves must hold for every pair.",
 [C, MM], [("append, prepend and their constrained forms", C)], HYB, ["Curve::append", "Curve::prepend", "Curve::append_constrained", "Curve::prepend_constrained"])
prop("C24", "Splitting in the middle and merging again restores the curve",
 "Splitting a curve at 1/2 and merging the halves, by any of the merge operations, gives the original curve with the middle as an additional knot: the same knots, control points and points.",
 ["inputs", "histories", "configurations"], "all control points, for degrees 1..8, multiplicity patterns and several concrete knot vectors without a knot at 1/2",
 "No test composes the two operations.",
 [MS, MM, MI], [("split", MS), ("merge", MM)], HYB, ["Curve::split", "merge::merge", "Curve::append", "Curve::prepend"])
prop("C25", "Generation combines the requested ingredients",
 "Generating a curve manually yields exactly the given control points with the given, uniform or computed knots (by the requested parameter and knot method); generating by interpolation or by a fit yields a curve of the requested degree and number of segments over uniform knots that passes through the data or is the requested least-squares fit with the requested penalty.",
 ["inputs", "configurations"], "all control and data points, for degrees 1..6 and every combination of methods",
 "Tests generate one curve per variant; mixed-up methods or arguments only show for suitable data and every combination must be right.",
 [G, C, PA, KM, FM, IP], [("dispatch over the requested generation", G)], REAL + " Interpolation and fits: symbolic coordinates, native factorisations, equality up to 1e-6.", ["generation::generate"])
prop("C26", "Knot vector bookkeeping is consistent",
 "For every knot vector, the counts of segments, internal and domain knots, the derivative knot vectors (the vector without its outermost knots at either end), the domain and internal sections and the multiplicities are consistent with the vector at every derivative level. Re-deriving after a change carries the change to every level.",
 ["inputs", "configurations"], "all increasing floating-point knots and query values, for degrees 0..8 and multiplicity patterns",
 "Tests look at one vector; the index arithmetic has to be right for every degree, level and size.",
 [K], [("derived knot vectors and index ranges", K)], FP, ["Knots"])
prop("C27", "Any history of operations keeps the curve consistent",
 "After any sequence of insertions, reversals and splits, the curve has sorted knots that are exactly the images of the original ones, consistent counts and all derivatives, and every point and tangent is that of the original curve at the correspondingly transformed parameter.",
 ["inputs", "histories"], "all sequences of length up to 3 (4 in the thorough tier) of insert, reverse, left split and right split with symbolic parameters, all control points and evaluation parameters, degrees 1..6",
 "Tests apply single operations to pristine curves; stale internal state shows only in sequences.",
 [C, MI, MS, MR, K, PT], [("operations keep knots, points and derived data in step", C)], REAL, ["Curve"])

prop("C28", "Curves are smooth piecewise polynomials",
 "Between two neighbouring knots the values a curve returns are those of one polynomial of degree at most p, and its k-th derivative those of one of degree at most p - k, each being the slope of the order below. At a knot of multiplicity m the derivatives up to order p - m are continuous; the knot itself belongs to the span on its right.",
 ["inputs", "configurations"], "all control points and strictly increasing internal knots, every span and order, for degrees 0..8 (9 in the thorough tier), multiplicities up to p+1 and up to 23 spans",
 "Tests compare single values; being polynomial and smooth is a relation between values at many parameters that no sampled value shows.",
 [C, B, K, PT], [("values and derivatives from one basis", C+", "+B), ("span belonging to a knot", K+": find_idx")], REAL + " No reference curve: only values returned by the crate are compared with each other.", ["Curve::evaluate", "Curve::evaluate_derivative"])
prop("C29", "Curves move with their points under affine maps",
 "Applying an affine map to all points before an operation gives the same as applying it to the result: this holds for evaluation, derivatives, insertion, splitting, reversal, the merges, interpolation and both fits. Control points at the knot averages give the identity. Chord-length and centripetal parameters are unchanged by moving, turning, mirroring or uniformly scaling the data.",
 ["inputs", "configurations"], "all points and translations, all parameters, fixed regular linear maps, for degrees 1..8 and dimensions 1..3",
 "Tests never relate two runs; dependence on position or size of the data only shows by comparing all inputs with their images.",
 [C, PT, MI, MS, MM, IP, FM, PM], [("points enter linearly with weights summing to one", C+", "+PT), ("lengths relative to their total", PM)], "Real arithmetic for the knot manipulations and parameters, symbolic coordinates with native factorisations for merges, interpolation and fits. "+HYB, ["Curve", "merge", "interpolate", "fit", "parameters::generate"])
prop("C30", "No operation prefers a direction of the curve",
 "Reversing the curve or data first and doing the mirrored operation gives the reversed result: insertion at u and at 1-u, splitting (with the halves swapped), merging (with the curves swapped and merge-from and merge-to exchanged), derivative curves up to the sign, interpolation, both fits, all three parameter methods, and the uniform and averaging knots.",
 ["inputs", "configurations"], "all parameters, control and data points, for degrees 1..7 and multiplicity patterns",
 "Tests treat the two ends with separate examples; that left and right are handled alike is a relation between two runs.",
 [MI, MS, MM, MR, IP, FL, FF, PM, KM], [("index arithmetic from the left and from the right", MI+", "+MS+", "+MM), ("mirrored knots and points", MR)], "Real arithmetic for knot manipulations and parameters, symbolic coordinates with native factorisations for merges, interpolation and fits. "+HYB, ["reverse::reversed", "Curve", "merge", "fit", "parameters::generate", "knots::generate"])
prop("C31", "Point collections keep exactly what they are given",
 "Data and control points return exactly the coordinates they were built from, by point and as a matrix, report matching counts, segments and dimension, and change only where they are written to; reversing them reverses the order and copies are independent. Deriving control points again after any change of points or knots gives the derivative points of every level for the new data.",
 ["inputs", "histories", "configurations"], "all coordinates (all 2^64 values, NaN included, for storage), every index, up to 10 points and dimension 6; all points and knots for degrees 1..5",
 "Tests look at one or two collections; that nothing else changes and that no stale level survives needs every index, level and value.",
 [PT], [("accessors and derivative levels", PT)], "Storage: IEEE-754 binary64, bit-exact. Deriving: "+REAL, ["Points::matrix", "Points::get", "Points::get_mut", "ControlPoints::derive", "ControlPoints::matrix_derivative"])

prop("C32", "Insertion, splitting and differentiation commute",
 "Two knots inserted in either order give the same curve; inserting a knot and splitting behind it gives the same halves as splitting first; splitting at two places gives the same three pieces in either order. The derivative of a refined or split curve is the refined or split derivative curve (times the k-th power of the length of the piece), and each is accepted exactly as far as its own degree allows.",
 ["inputs", "histories", "configurations"], "all pairs of parameters, control points and knots, every derivative order, for degrees 1..6 and multiplicity patterns",
 "Tests never compare two orders of operations; the agreement is a relation over all pairs of parameters.",
 [MI, MS, C, K, PT], [("insertion and splitting", MI+", "+MS), ("derivative curves", C+": get_derivative_curve")], REAL, ["Curve::insert", "Curve::split", "Curve::get_derivative_curve"])
prop("C33", "Fits, interpolation and knots agree where they must",
 "With as many control points as data, both fits without a penalty return the interpolating control points. Fitting the points of a fit changes nothing, and data of a curve whose control points have no kappa-th differences are reproduced whatever the weight of the penalty. Without internal knots all knot methods agree, equally spaced data on a line get equally spaced parameters from every method, and with the parameters as knots of degree one interpolation returns the data.",
 ["inputs", "configurations"], "all data points in [-1,1] (also scaled by 2^20 and 2^-30), for degrees 1..7 and up to 13 control points",
 "Tests treat each method alone; these relations between methods hold for all data.",
 [IP, FL, FF, FM, KM, PM], [("collocation matrix and normal equations over the same basis", IP+", "+FM), ("knot and parameter methods", KM+", "+PM)], HYB + " Knots and parameters: exact real arithmetic.", ["interpolation::interpolate", "fit::loose::fit", "fit::fixed::fit", "knots::generate", "parameters::generate"])
prop("C34", "Results depend on the arguments only",
 "Evaluating, searching knots, fitting, interpolating, merging and generating give the same result however many other calls, on the same or other curves and data of equal size, came before. Reading never changes a curve, copies develop independently, and knots or points changed and derived again give the results of the changed data.",
 ["inputs", "histories", "configurations"], "all parameters, knots, control and data points, for sequences of three to six calls, degrees 1..5",
 "Tests call each function on fresh data; a remembered intermediate result only shows in suitable sequences.",
 [C, K, PT, IP, FM, MM, G], [("no state apart from knots and points", C+", "+K+", "+PT)], "Real arithmetic for curves and knots, symbolic coordinates with native factorisations for fits, interpolation and merges. "+HYB, ["Curve::evaluate_derivative", "Knots::find_idx", "Knots::evaluate", "fit", "interpolate", "merge", "generate"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
TECH = "symbolic execution of the compiled LLVM bitcode, every path decided by an SMT solver (z3, cvc5 cross-check), native replay of counterexamples"
m = {"version": 1, "setup_cmd": "bin/check --build",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation happens at link time (engine/sxld). Exit 2 means no answer (build failure, vacuous configuration or unreproduced counterexample)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
