#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; not part of any check)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

L, B, H, LA, J = "src/legendre/mod.rs", "src/legendre/bogaert/mod.rs", "src/hermite/mod.rs", "src/laguerre/mod.rs", "src/jacobi/mod.rs"
CH, GW, MA, MI, SI, TR, DA = "src/chebyshev/mod.rs", "src/golub_welsch.rs", "src/math.rs", "src/midpoint/mod.rs", "src/simpson/mod.rs", "src/trapezoid/mod.rs", "src/data_api.rs"
BD = "src/legendre/bogaert/data.rs"
LIB, TOML = "src/lib.rs", "Cargo.toml"

P = []
def prop(id, title, statement, over, text, why, mech, technique, note, files=None, observe=None, na=None):
    fs = files or []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in fs:
            fs.append(f)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, technique=technique, note=note, files=fs, observe=observe, na=na))

BACKWARD = "accurate to a small multiple of machine precision times the size of the largest recurrence coefficient (nodes), and as well as a backward-stable symmetric eigenvalue solver determines them (weights)"

prop("C01", "Gauss-Legendre nodes and weights are right to double precision at every degree",
 "For every degree n >= 1, the Gauss-Legendre rule has as its nodes exactly the n zeros of the Legendre polynomial of degree n, in ascending order, each within 2.5e-15, and as its weights the matching Christoffel numbers 2/((1-x^2) P_n'(x)^2), each within a relative 4e-15. This includes the nodes closest to the ends of the interval, both sides of the change from tabulated to asymptotic nodes, and degrees of a million and more.",
 ["inputs", "configurations"], "all degrees n >= 1 and all node indices, in the std and in the libm build",
 "The tests look at a handful of small degrees and two or three single large ones; a wrong table entry, series coefficient or branch limit for one (n, k) only shows at that degree and node.",
 [("tabulated nodes for n <= 100", f"{B}: tabulated_pair"), ("table data", f"{BD}: tables"), ("asymptotic expansion and Bessel zeros for n > 100", f"{B}: compute_pair, bessel_j0_zero, bessel_j1_squared"), ("mirror of the negative half", f"{L}: new, par_new")],
 "exhaustive enumeration of small degrees plus generated large degrees against a double-double Newton oracle",
 "Every node of every degree up to 800 (quick) is compared; beyond that generated (degree, node) pairs up to 2*10^6. Trusts the double-double arithmetic and the three-term recurrence.")

prop("C02", "Gauss-Hermite nodes and weights are right at every degree",
 f"For every degree n >= 1, the Gauss-Hermite rule consists of the n zeros of the physicists' Hermite polynomial H_n in ascending order and their Gauss weights for exp(-x^2) over the whole real line, {BACKWARD}. The weights add up to sqrt(pi), and the rule of degree 1 is the single node 0.",
 ["inputs", "configurations"], "all degrees for which the eigenvalue iteration is affordable (explored: every degree to 240, then up to 340/520)",
 "The tests compare a few small rules; the error of the matrix set-up or the eigenvector extraction at other degrees is not looked at.",
 [("recurrence coefficients and zeroth moment", f"{H}: new"), ("eigenvalue solver and sorting", f"{GW}: golub_welsch")],
 "enumerated and generated degrees against a double-double QL eigenvalue oracle",
 "Tolerance is the backward-error bound 4e-15(1+sqrt n) of the matrix norm for nodes and the corresponding eigenvector perturbation bound for weights; weights below that floor are only bounded from above.")

prop("C03", "Gauss-Laguerre nodes and weights are right for every degree and alpha",
 f"For every degree n >= 1 and every finite alpha > -1 for which the total weight Gamma(alpha+1) is representable (alpha up to about 170), the Gauss-Laguerre rule consists of the n zeros of the generalised Laguerre polynomial in ascending order and their Gauss weights for x^alpha exp(-x) on [0, inf), {BACKWARD}. The weights add up to Gamma(alpha+1).",
 ["inputs", "configurations"], "all degrees and all real parameters alpha in (-1, 170]",
 "The tests fix one or two values of alpha; alpha is a continuous parameter with difficult ends (near -1, large) that only a search reaches.",
 [("recurrence coefficients", f"{LA}: new"), ("gamma function for the zeroth moment", f"{MA}: gamma, ln_gamma"), ("eigenvalue solver", f"{GW}: golub_welsch")],
 "generated (degree, alpha) against a double-double QL eigenvalue oracle",
 "As C02; the total weight is accepted within 3e-14..2e-12 relative (growing with alpha), the calibrated accuracy of the gamma function approximation. alpha is drawn up to 170.")

prop("C04", "Gauss-Jacobi nodes and weights are right for every degree, alpha and beta",
 f"For every degree n >= 1 and all finite alpha, beta > -1 (explored up to 600 each), the Gauss-Jacobi rule consists of the n zeros of the Jacobi polynomial P_n^(alpha,beta) in ascending order and their Gauss weights for (1-x)^alpha (1+x)^beta on [-1, 1], {BACKWARD}. This includes parameters for which the usual recurrence formulas degenerate (alpha+beta equal or close to 0, -1 or -2, parameters close to -1), and parameter pairs that name a Legendre or Chebyshev rule.",
 ["inputs", "configurations"], "all degrees and all pairs of real parameters in (-1, 600]",
 "The tests fix a few parameter pairs; the recurrence has removable singularities on lines in the parameter plane and the zeroth moment over- and underflows in others, which samples miss.",
 [("recurrence coefficients, special lines, delegation", f"{J}: new"), ("zeroth moment", f"{MA}: jacobi_zeroth_moment, gamma, ln_gamma"), ("eigenvalue solver", f"{GW}: golub_welsch")],
 "generated (degree, alpha, beta) against a double-double QL eigenvalue oracle",
 "As C02. Known finding: the middle node of an odd-degree rule with alpha != beta is exactly 0 (pinned by the existing tests); only that value at that node is excused.")

prop("C05", "Gauss-Chebyshev nodes and weights are right to double precision at every degree",
 "For every degree n >= 1, the nodes of the Gauss-Chebyshev rule of the first kind are -cos((2k-1) pi/(2n)) with weights pi/n, and those of the second kind -cos(k pi/(n+1)) with weights pi/(n+1) sin^2(k pi/(n+1)), k = 1..n, in ascending order, to within a few units in the last place of 1 (nodes) and of the weight (first kind).",
 ["inputs", "configurations"], "all degrees n >= 1, both kinds",
 "The tests check a few degrees; an index slip or an exact-zero rule for the middle node shows at particular degrees only.",
 [("first kind", f"{CH}: GaussChebyshevFirstKind::new, par_new"), ("second kind", f"{CH}: GaussChebyshevSecondKind::new, par_new")],
 "exhaustive enumeration of small degrees plus generated degrees against closed forms in double-double arithmetic",
 "Every node and weight of every degree up to 500 (quick) / 2000 (thorough), generated degrees to 2*10^5.")

prop("C06", "Every Gaussian rule is well formed",
 "Every Gaussian rule of degree n, of any family and with any admissible parameters (Laguerre alpha up to 170, Jacobi parameters up to 600), has exactly n finite nodes, strictly ascending (as long as doubles can tell neighbours apart, that is for degrees below 10^8) and inside the rule's domain, and n finite non-negative weights whose sum is the integral of the weight function and whose first moment is that of the weight function. Nodes are strictly inside the domain unless the true distance of the extreme node from its end is below the rounding error.",
 ["inputs", "configurations"], "all families, degrees (explored to 300 for eigenvalue-based rules, 10^6 for the others) and parameters",
 "The tests check order and sums for a few rules; extreme parameters, where a node reaches the boundary or a weight becomes negative or infinite, need a search.",
 [("construction", f"{L}: new"), ("construction", f"{J}: new"), ("construction", f"{LA}: new"), ("construction", f"{H}: new"), ("construction", f"{CH}: new"), ("sorting", f"{GW}: golub_welsch"), ("moments", f"{MA}: gamma, jacobi_zeroth_moment")],
 "generated rules checked against invariants of Gauss rules",
 "Domain checks use a rigorous lower bound on the distance of the extreme node from the end. Known finding: middle node of odd-degree Jacobi rules with different parameters.")

prop("C07", "An n-point Gaussian rule integrates every polynomial of degree 2n-1 exactly",
 "For every Gaussian rule of degree n, every polynomial p of degree at most 2n-1 and every interval (in either orientation, for the rules that take one), the integral of p times the rule's weight function is returned up to rounding. For Jacobi rules over [a, b] the weight function is transported to [a, b] with the interval, without being rescaled (the value is (b-a)/2 times the integral of p over [-1, 1] against (1-x)^alpha (1+x)^beta).",
 ["inputs", "configurations"], "all families, degrees, parameters, intervals and polynomials of degree <= 2n-1",
 "The tests integrate a few monomials with small rules; exactness is a statement about a 2n-dimensional space for every n, parameter and interval.",
 [("weighted sums", f"{L}: integrate"), ("weighted sums", f"{J}: integrate"), ("weighted sums", f"{LA}: integrate"), ("weighted sums", f"{H}: integrate"), ("weighted sums", f"{CH}: integrate"), ("nodes and weights", f"{GW}: golub_welsch")],
 "generated polynomials in the orthonormal basis; orthogonality as the oracle",
 "Products of orthonormal polynomials of degree <= n-1 and <= n, whose integral is known exactly from orthogonality. Tolerance: first-order effect of the admitted node and weight errors.")

prop("C08", "integrate is exactly the weighted sum over the rule's nodes",
 "For every Gaussian rule, every interval and every function, integrate calls the function exactly once per node, at the affine image of that node in the interval (a to -1, b to 1; the node itself for Hermite and Laguerre), and returns the sum of the rule's weights times the returned values, times (b-a)/2 where an interval is given, to within the rounding of such a sum. A NaN or infinite value at any one node shows in the result as in that sum, and with symmetric weights (every rule but Jacobi with different parameters) exchanging the limits only changes the sign, up to rounding.",
 ["inputs"], "all rules, all finite interval limits (reversed, equal, tiny, huge) and arbitrary functions, stateful ones included",
 "The tests integrate smooth functions over a few intervals, where a missed or doubled node or a misplaced argument hides behind the tolerance or the symmetry of the integrand.",
 [("affine map and scale", f"{L}: argument_transformation, scale_factor, integrate"), ("affine map and scale", f"{J}: integrate"), ("affine map and scale", f"{CH}: integrate"), ("plain sum", f"{H}: integrate"), ("plain sum", f"{LA}: integrate")],
 "generated rules, intervals and hash-valued integrands; recorded calls and a double-double sum as the oracle",
 "The order of the calls is not constrained. Limits up to 1e300 in magnitude are generated as long as b-a is representable.")

for id, name, f, t, s in [
 ("C09", "Midpoint", MI, "The composite midpoint rule is its definition, with its classical error",
  "For every number of cells n >= 1 (to u32::MAX) and all finite limits, the midpoint rule calls the function once at each of a + (i+1/2) h, i = 0..n-1, h = (b-a)/n, and returns h times the sum of the values to within rounding. It therefore integrates linear functions exactly, x^2 with exactly the error -(b-a)^3/(12 n^2), and any smooth function with an error of at most (b-a)^3/(24 n^2) max|f''|."),
 ("C10", "Trapezoid", TR, "The composite trapezoid rule is its definition, with its classical error",
  "For every number of cells n >= 1 (to u32::MAX) and all finite limits, the trapezoid rule calls the function once at each of a + i h, i = 0..n, h = (b-a)/n, and returns h times the sum of the values with the first and last halved, to within rounding. It therefore integrates linear functions exactly, x^2 with exactly the error (b-a)^3/(6 n^2), and any smooth function with an error of at most (b-a)^3/(12 n^2) max|f''|."),
 ("C11", "Simpson", SI, "The composite Simpson rule is its definition, with its classical error",
  "For every number of cells n >= 1 (to u32::MAX) and all finite limits, Simpson's rule uses the values at the ends of the cells (weight 1/6 at the ends of the interval, 2/6 inside) and at the cells' midpoints (4/6), each evaluated once, and returns h = (b-a)/n times their weighted sum to within rounding. It therefore integrates cubic polynomials exactly, x^4 with its exact classical error, and any smooth function with an error of at most (b-a)^5/(2880 n^4) max|f''''|.")]:
    prop(id, t, s, ["inputs", "configurations"], "all degrees, all finite limits in either order, arbitrary functions",
     "The tests integrate a few functions with a few degrees; a dropped or doubled point, a wrong end weight, an index overflow or an accumulated step shows only for other degrees, limits or large counts.",
     [("the sum", f"{f}: integrate"), ("the points", f"{f}: iter")],
     "generated degrees, limits and integrands; the textbook definition in double-double arithmetic as the oracle",
     "Degrees 1..10^5 by generation, plus single cases beyond 2^31 in the full build. Points are accepted within a few units in the last place of the larger limit.")

prop("C12", "Parallel integration and construction agree with the sequential ones",
 "For every rule and every thread pool, parallel integration calls the function exactly once at each of the same points as sequential integration and returns the same value up to the rounding of a reordered sum; NaN propagates, a panic in the function reaches the caller, and several threads may use one rule, also from within its own integrand. Parallel construction gives the same rule as sequential construction, up to rounding.",
 ["inputs", "schedules", "configurations"], "all rules, degrees, intervals, functions, pool sizes 1..9 and the schedules that occur",
 "The tests compare the parallel and the sequential value of one smooth integrand per rule on the global pool.",
 [("par_integrate", f"{f}: par_integrate") for f in (L, H, LA, J, CH, MI, SI, TR)] + [("par_new", f"{L}: par_new"), ("par_new", f"{CH}: par_new")],
 "generated rules, integrands and pools; the sequential rule and the definition as the oracle",
 "Schedules are those that rayon and the operating system produce, not enumerated (rayon cannot run under loom or shuttle).")

prop("C13", "All views and iterators of a Gaussian rule show the same sequence",
 "For every Gaussian rule, iterating over nodes, weights or pairs, by reference or by value, the slice views, degree and the conversion to node-weight pairs all show one and the same sequence of n pairs. Each iterator, under any history of calls from both ends (next, next_back, nth, nth_back, len, size_hint, count, last, folds, searches, clones, remaining slice), behaves as a double-ended, exact-size, fused iterator over that sequence.",
 ["inputs", "histories"], "all rules, all five iterator kinds, all histories of calls",
 "The tests iterate forwards over a few rules; forwarding mistakes (nth_back, last, an overflow in a jump, a stale slice) need particular histories.",
 [("generated accessors", f"{DA}: __impl_node_weight_rule"), ("generated iterators", f"{DA}: __impl_node_weight_rule_iterators")],
 "model-based histories of iterator calls against an index interval",
 "Histories of up to 40 calls on rules of degree 1..60, run to exhaustion and beyond.")

prop("C14", "Composite rules behave as their degree alone, whatever was done to them",
 "After any history of construction, change of degree, cloning and integration, a midpoint, trapezoid or Simpson rule reports the degree it was last given and integrates bit for bit as a fresh rule of that degree. The iterator that it hands out yields the numbers 0, 1, ..., n-1 of the cells of the degree at the time (as doubles), from both ends, as double-ended, fused, exact-size iterators, independently of later changes to the rule.",
 ["inputs", "histories"], "all histories over the three composite rules and degrees 1..u32::MAX",
 "The tests change the degree once; arithmetic on the largest degrees (2n+1 points of u32::MAX cells) and mixed iterator histories are not reached.",
 [("change_degree", f"{f}: change_degree") for f in (MI, TR, SI)] + [("composite rule accessors", f"{DA}: composite rule macro")],
 "model-based histories against a degree and an index interval",
 "Histories of up to 30 actions; degrees to u32::MAX for everything that does not visit each point.")

prop("C15", "A validated parameter is finite and greater than -1, whatever it went through",
 "Every way to obtain a rule parameter (constructor, conversion from a float, parsing, checked arithmetic, default) succeeds exactly for values that are finite and greater than -1, gives the value that plain double arithmetic or double parsing gives (powers to within rounding), and reports an error otherwise, never panicking. Formatting (without width or precision) is that of the double and parses back to the same value, and comparison is that of the doubles.",
 ["inputs", "histories"], "all 2^64 doubles, all strings, all chains of checked operations",
 "The tests try a few values; the neighbours of -1, infinities, NaN payloads, -0.0, overflow in the operations and odd text need generation.",
 [("constructor", f"{DA}: FiniteAboveNegOneF64::new"), ("checked operations", f"{DA}: checked_add..checked_pow"), ("parsing", f"{DA}: FromStr"), ("conversion", f"{DA}: TryFrom")],
 "generated bit patterns, strings and operation chains against plain double arithmetic",
 "Doubles by uniform bits and by neighbourhoods of the edges; text by grammar and arbitrary Unicode.")

prop("C16", "Stored rules and parameters come back equal, and invalid parameters are refused",
 "Writing any rule or parameter with serde (any self-describing or binary format) or rkyv and reading it back gives an equal object. Reading never yields a parameter that is not finite and greater than -1: such data, a zero degree, or a missing, misplaced or damaged encoding is refused with an error, not a panic; the zerocopy traits lay a parameter out as its double.",
 ["inputs", "fault_sequences"], "all rules and parameters, all formats, and arbitrary modifications of the encoded data",
 "The repository has no tests of these features at all.",
 [("serde derive", f"{DA}: FiniteAboveNegOneF64 Deserialize"), ("rule derives", f"{DA}: __impl_node_weight_rule"), ("feature list", f"{TOML}: features")],
 "generated round trips and damaged encodings; equality and validity as the oracle",
 "Formats: serde_json text and value, RON, CBOR, bincode-like, rkyv. Known finding: zerocopy's derived TryFromBytes accepts any eight bytes as a parameter.", files=[DA])

prop("C17", "Gauss-Jacobi generalises the named rules and treats its parameters alike",
 "The Jacobi rules with parameters (0,0), (-1/2,-1/2) and (1/2,1/2) equal the Legendre and the two Chebyshev rules of that degree, and converting one of these rules to a Jacobi rule gives that rule; every rule reports the parameters it was made with. Exchanging the parameters mirrors the rule at 0, and a tiny change of a parameter changes nodes and weights only a little.",
 ["inputs"], "all degrees and parameters",
 "The tests check the conversions at one degree; a wrong branch at or next to a special parameter pair, or an asymmetry between the parameters, needs a search.",
 [("delegation", f"{J}: new"), ("conversions", f"{J}: From impls"), ("accessors", f"{J}: alpha, beta"), ("accessor", f"{LA}: alpha")],
 "metamorphic relations over generated degrees and parameters",
 "Degrees to 2000 for the named rules, 160 otherwise. Known finding: middle node of odd-degree rules with different parameters.")

prop("C18", "Rules do not depend on the math backend or on other features",
 "The default no_std build, the std build and the build with every feature construct the same rules: every node and weight agrees within the sum of the rounding errors that each is allowed, for every family, degree and parameter.",
 ["inputs", "configurations"], "all rules, three feature sets",
 "The tests run one feature set at a time and compare with constants; nothing compares the builds with each other.",
 [("backend selection", f"{MA}: cfg(feature = \"std\")"), ("asymptotic expansions", f"{B}: compute_pair")],
 "differential: the same generated rules from three builds in separate processes",
 "Tolerances are those of C01-C05, added.")

prop("C19", "Smooth integrands converge with the classical Gauss remainder",
 "For every Gaussian rule of degree n, interval and constant c, the integral of exp(ct) or cos(ct) against the weight function differs from its closed form by no more than the classical Gauss remainder f^(2n)(xi)/(2n)! times the squared norm of the monic orthogonal polynomial, plus rounding; for the exponential the error also has the sign that the remainder prescribes.",
 ["inputs"], "all families, degrees, parameters, intervals and rates c",
 "The tests integrate a few transcendental functions with fixed tolerances far above the remainder.",
 [("weighted sums", f"{L}: integrate"), ("weighted sums", f"{J}: integrate"), ("weighted sums", f"{H}: integrate"), ("weighted sums", f"{LA}: integrate"), ("weighted sums", f"{CH}: integrate")],
 "generated analytic integrands against closed forms and the remainder term",
 "Closed forms by series in double-double arithmetic. Known finding: middle node of odd-degree Jacobi rules with different parameters.")

prop("C20", "Rules are values: construction and integration depend on nothing else",
 "A rule's bits depend on its family, degree and parameters only: not on what was built, integrated, cloned, dropped or converted before, nor on the thread. A rule never changes by being used (nested, concurrently, with a panicking or NaN-returning integrand), rules of one family compare equal exactly if their degrees and parameters do, and repeating an integral repeats its bits.",
 ["inputs", "histories", "schedules"], "all histories of uses of a set of rules, also from several threads",
 "The tests use each rule once; caches, shared state or order dependence only show over histories.",
 [("immutable storage", f"{DA}: __impl_node_weight_rule"), ("construction", f"{L}: new"), ("construction", f"{J}: new"), ("construction", f"{CH}: new")],
 "model-based histories over a pool of similar rules",
 "Histories of up to 25 deeds; threads run under the real scheduler. Known finding: middle node of odd-degree Jacobi rules.")

prop("C21", "Composite rules never allocate, and giving up a rule's pairs copies nothing",
 "Constructing, using (integrating, iterating, changing degree, cloning) and dropping a midpoint, trapezoid or Simpson rule allocates no heap memory. Converting a Gaussian rule into its node-weight pairs hands over the rule's own storage without allocating.",
 ["inputs"], "all rules, degrees and intervals",
 "The tests do not observe the allocator.",
 [("composite rules", f"{MI}: Midpoint"), ("composite rules", f"{SI}: Simpson"), ("composite rules", f"{TR}: Trapezoid"), ("conversion", f"{DA}: into_node_weight_pairs")],
 "generated uses under a counting allocator",
 "Single-threaded observation through a global allocator wrapper.")

prop("C22", "Rules satisfy the structural relations of orthogonal polynomials",
 "Even weight functions give symmetric rules with a zero middle node at odd degrees; the nodes of degree n separate those of degree n+1; Hermite rules of degree 2n and 2n+1 are Laguerre rules in x^2, Jacobi rules with equal parameters are Jacobi rules in 2x^2-1; Jacobi rules with parameters (1/2,-1/2) and (-1/2,1/2) have their trigonometric closed form; raising a parameter moves every node the same way.",
 ["inputs"], "all families, degrees (to 3000, or 150 for eigenvalue-based rules) and parameters",
 "The tests do not relate rules to each other.",
 [("construction", f"{H}: new"), ("construction", f"{LA}: new"), ("construction", f"{J}: new"), ("construction", f"{L}: new"), ("construction", f"{CH}: new")],
 "metamorphic relations between generated rules",
 "Tolerances are those of C01-C05, propagated through the relation. Known finding: middle node of odd-degree Jacobi rules with different parameters.")

prop("C23", "Construction and integration return, whatever they are given",
 "For every degree, every parameter that the parameter type admits (to the largest double and down to the neighbours of -1), every two doubles as limits and every integrand that returns, constructing a rule and integrating with it return without a panic. The rule has exactly its degree's number of nodes and reports its parameters; with finite limits the function is called once per point whatever values it returns; an undefined (NaN) limit, or an undefined value at every point, gives an undefined result.",
 ["inputs"], "all admissible parameters and all doubles as limits and values",
 "The tests use ordinary parameters and limits; an iteration that never ends, an index that overflows or a short cut for a special value shows at the extremes only.",
 [("eigenvalue solver", f"{GW}: golub_welsch"), ("parameters", f"{J}: new, alpha, beta"), ("parameters", f"{LA}: new, alpha"), ("integration", f"{L}: integrate"), ("integration", f"{SI}: integrate"), ("integration", f"{TR}: integrate"), ("integration", f"{MI}: integrate")],
 "generated extreme parameters, limits and values; totality and call counts as the oracle",
 "Nothing is claimed about the values of nodes and weights outside of the ranges of C03, C04 and C06. A case that does not return is confirmed alone, in a new process.")

prop("C24", "The composite rules split, refine and reverse as sums over cells",
 "For every number of cells n, every interval and every continuous function, up to rounding: a composite rule with kn cells gives the sum of its results with n cells over the k equal parts of the interval; the trapezoid rule with 2n cells is the mean of the trapezoid and midpoint rules with n cells; Simpson's rule is one third of the trapezoid rule plus two thirds of the midpoint rule; exchanging the limits changes the sign; and for a convex function the midpoint rule is not above, and the trapezoid rule not below, the integral.",
 ["inputs", "configurations"], "all degrees, intervals and Lipschitz functions",
 "The tests look at each rule by itself, for a few degrees.",
 [("the sum", f"{MI}: integrate"), ("the sum", f"{TR}: integrate"), ("the sum", f"{SI}: integrate")],
 "metamorphic relations between generated uses of the three rules",
 "Integrands are sines, kinks and sawteeth with a known Lipschitz constant, which bounds the effect of rounding in the arguments.")


prop("C25", "Work grows in proportion to the degree",
 "For every degree n, constructing a Gauss-Legendre or Gauss-Chebyshev rule (in sequence or in parallel), converting it to a Gauss-Jacobi rule, integrating with it, walking through its nodes, weights or pairs from either end or by strides, asking it n times for its degree, its slices and its views, and cloning and comparing it take an amount of work proportional to n; so do integrating with a composite rule and walking through it.",
 ["inputs", "configurations"], "all degrees",
 "The benchmarks measure single sizes and assert nothing; a test of a large rule that becomes quadratic only takes longer.",
 [("construction", f"{L}: new, par_new"), ("construction", f"{CH}: new, par_new"), ("one node in constant time", f"{B}: ThetaWeightPair::new"), ("views and iterators", f"{DA}: __impl_node_weight_rule, __impl_slice_iterator_newtype_traits, __impl_node_rule"), ("integration", f"{SI}: integrate")],
 "generated work and degrees; metamorphic relation between the instruction counts (cachegrind) at n and 4n",
 "Instructions executed stand for time, which makes the check independent of load; parallel work is counted on one thread. The eigenvalue-based constructors, whose work is not linear, are left out.")

prop("C90", "The crate builds without the standard library",
 "With its default features the crate compiles for a target that has no standard library, using only core and alloc.",
 ["configurations"], "all feature sets and no_std targets",
 "The tests run on a host with std; a stray use of std would only fail to link elsewhere.",
 [("no_std attribute", f"{LIB}: no_std"), ("math backend", f"{MA}: libm")], "", "",
 na="Whether code compiles for a target is decided by the compiler, once, not by generated inputs; and the sandbox has no bare-metal target installed.")
with open("properties.jsonl", "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        assert len(d["title"]) <= 80, (p["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

m = {"version": 1, "setup_cmd": "./check build",
 "checks": [{"property": p["id"], "quick_cmd": f'./check {p["id"]} quick', "thorough_cmd": f'./check {p["id"]} thorough',
   "technique": "property-based testing: " + p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if not p["na"]],
 "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
 "notes": "No hooks in /repo. Every check builds the harness crate (path dependency on /repo) from the working tree, for the std/rayon/serde build and for the default no_std (libm) build, and runs both. Known findings: KNOWN_FINDINGS.txt."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
