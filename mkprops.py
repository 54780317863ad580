#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note))

ELL = ["src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs"]
prop("C01", "Cuts never lose a feasible point",
 "For every ellipsoidal search space (plain or factorised), every kind of cut (central, deep, discrete; single or parallel) and every history of cuts, each point of the ellipsoid before an accepted cut that satisfies the cut (for a single cut g'(x-xc)+b <= 0; for a parallel one also the lower bound g'(x-xc)+b1 >= 0) lies in the ellipsoid after it, up to rounding. A cut that is refused leaves the ellipsoid, hence every point, in place.",
 ["inputs", "histories", "configurations"],
 "all cut sequences over an alphabet of directions x offsets x cut kinds, from every constructor, in every dimension 2 to 66, fine sweeps of the offset, plain/factorised space, deferral trick on/off",
 "tests pin a few numbers after one or two cuts on one 4-dimensional ball; soundness must hold in every direction, at every offset and after any history",
 ELL, [("rank-one update of the shape", "src/ell.rs: Ell::update_core"), ("factorised update", "src/ell_stable.rs: EllStable::update_core"), ("cut coefficients", "src/ell_calc.rs: calc_bias_cut, calc_parallel, calc_*_q")],
 "Every reached transition (ellipsoid before, cut, ellipsoid after) is read back from the implementation and containment is decided by an S-procedure style exact test on the two ellipsoids; bounded by the cut alphabet and depth. Trusts f64 tolerance 1e-6 relative and the dense linear algebra of the harness.")
prop("C02", "Every accepted cut gives the minimum-volume ellipsoid",
 "Each accepted cut strictly shrinks the volume of the search ellipsoid, by exactly the factor of the minimum-volume ellipsoid that contains the part of the old one satisfying the cut (for a parallel cut: both bounds when the second one is inside the ellipsoid, otherwise the first alone). This is what bounds the number of iterations of every solve.",
 ["inputs", "histories", "configurations"],
 "all cut sequences over the alphabet of C01, from every constructor, every dimension 2 to 66, both spaces",
 "tests fix a handful of coefficients; a slightly larger but still sound ellipsoid passes them and only shows as slower convergence in some dimension or offset range",
 ELL, [("shrink factor", "src/ell.rs: Ell::update_core"), ("coefficients rho, sigma, delta", "src/ell_calc.rs")],
 "Log-determinant of the shape read from the implementation before/after each explored transition against closed-form minimum volume found by an independent reference; bounded alphabet and depth.")
prop("C03", "Cut verdicts are exact and a refused cut changes nothing",
 "A cut is accepted exactly when it meets the ellipsoid usefully; it is reported as having no solution exactly when no point of the ellipsoid satisfies it (plane beyond the far side, or an empty slab), and as having no effect exactly when the minimum-volume ellipsoid of the remainder would not be smaller (discrete cuts only). When the verdict is not success, centre, shape and scale of the search space are left exactly as they were.",
 ["inputs", "histories", "configurations"],
 "all cut sequences over the alphabet of C01 plus exact boundary cuts (tangent planes, zero-width slabs, zero offsets) on every axis",
 "tests probe one offset per verdict; a wrong verdict ends a solve with a false 'no solution' or corrupts the space only for particular offsets and histories",
 ELL, [("verdict", "src/ell_calc.rs: calc_*"), ("state written only after success", "src/ell.rs: Ell::update_core; src/ell_stable.rs")],
 "Verdict of every explored transition compared with geometry computed from the read-back ellipsoid (boundary cases only where exactly representable); refused cuts compared bit for bit.")
prop("C04", "The search space is always a valid ellipsoid reporting its true size",
 "After any sequence of cuts the search space describes a non-degenerate ellipsoid: finite centre, positive scale, symmetric positive definite shape. The size it reports after a cut is the squared half-width of the ellipsoid in the direction of that cut before it was applied. Constructors give exactly the ellipsoid asked for. Moving the centre changes nothing but the centre, and a copy of a search space is in the same state (centre, shape, reported size, update mode), evolves identically and is independent of the original.",
 ["inputs", "histories", "configurations"],
 "all cut sequences over the alphabet of C01 and long periodic histories up to 1200 cuts; all constructors x dimensions x scales x centres; copies and centre moves after every history of up to 3 cuts",
 "tests never look at the shape after more than a couple of cuts, so drift, asymmetry or a stale size go unseen",
 ELL, [("shape, scale, centre", "src/ell.rs: Ell fields"), ("factors", "src/ell_stable.rs: EllStable"), ("size", "SearchSpace::tsq")],
 "Invariants evaluated on every reached state of the implementation; positive definiteness by Cholesky in the harness.")
prop("C05", "Deferring the scale factor changes nothing observable",
 "A search space with the deferral trick disabled and one with it enabled, given the same history of cuts, always return the same verdicts and sizes and describe the same ellipsoid, up to rounding.",
 ["histories", "configurations"],
 "all cut sequences over the alphabet of C01, the two configurations run in lockstep",
 "the tests never switch the deferral off",
 ["src/ell.rs", "src/ell_calc.rs"], [("no_defer_trick branch", "src/ell.rs: Ell::update_core")],
 "Lockstep exploration of the two configurations of the implementation; every state compared.")
prop("C06", "Plain and factorised search spaces are interchangeable",
 "The numerically stable (factorised) search space and the plain one, given the same history of cuts, always return the same verdicts and sizes, keep the same centre and describe the same ellipsoid, up to rounding.",
 ["histories", "configurations"],
 "all cut sequences over the alphabet of C01, both spaces run in lockstep, deferral on and off",
 "tests compare the two on single cuts from a ball, where the triangular factor is still the identity",
 ELL, [("LDL' update", "src/ell_stable.rs: EllStable::update_core")],
 "Lockstep exploration of both implementations; factor product compared with the plain shape in every state.")
prop("C07", "Cut formulas agree with the exact minimum-volume solution",
 "For every dimension, ellipsoid size and pair of offsets, the step, shrink and scale coefficients of single, central and parallel cuts, in continuous and discrete form and in every published variant, equal those of the exact minimum-volume ellipsoid. The verdicts (success, no solution, no effect) agree with the geometry, a disabled second bound is treated like a single cut, and the coefficients returned with a refusal describe no step and no shrinking.",
 ["inputs", "configurations"],
 "every dimension 2 to 260 and selected ones to 100000 x sizes (1e-100..1e100) x up to 940x940 offsets relative to the half-width, including planes through the centre, symmetric and flat slabs; every entry point, parallel cuts enabled and disabled",
 "tests use a few (size, offset) pairs in dimension 4 only",
 ["src/ell_calc.rs"], [("single/parallel/central formulas", "src/ell_calc.rs: EllCalcCore, EllCalc")],
 "Complete grid on the real functions against an independent reference; grid bound, tolerance 1e-9 relative.")
prop("C08", "Cuts do not depend on the choice of units or coordinates",
 "Multiplying a cut (gradient and offsets) by a positive number changes neither verdict nor resulting ellipsoid. Scaling or translating the space, or reversing the order of coordinates, transforms the result in the same way and changes nothing else.",
 ["inputs", "histories", "configurations"],
 "all cut sequences over the alphabet of C01, run in lockstep with the transformed history (scales 1e-4..1e4, translation, coordinate reversal)",
 "no test runs the same history in two coordinate systems",
 ELL, [("update", "src/ell.rs, src/ell_stable.rs: update_core"), ("coefficients", "src/ell_calc.rs")],
 "Lockstep exploration of original and transformed system; every state compared up to rounding.")
DRV = ["src/cutting_plane.rs"]
prop("C09", "The feasibility loop is honest",
 "For any oracle and search space: a point is returned only if it is the current centre and the oracle has just accepted it; nothing is returned if the space reports no solution (or any refusal), if its size falls below the tolerance, or if the iteration limit is used up. Each cut produced by the oracle is applied to the space exactly once and in order, the oracle is asked exactly once per iteration at the current centre, and the iteration count says how many iterations ran.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of oracle answers and space verdicts/sizes for iteration limits 0..10, one or two deviating events at every position of long runs, tolerances and levels of every magnitude, and runs of up to 100003 iterations",
 "tests run a few concrete problems that all follow the common path",
 DRV, [("feasibility loop", "src/cutting_plane.rs: cutting_plane_feas")],
 "Environment (oracle and space) answers enumerated exhaustively around the real driver, its call trace compared with a reference automaton.")
prop("C10", "The optimisation loop returns the best point it has seen",
 "For any oracle and search space: the returned point is the centre at which the oracle last improved the objective, nothing is returned if it never did, and the objective level keeps its last improved value. Improving answers are applied to the space as central cuts and others as deep cuts, each exactly once and in order; the loop stops exactly on a refused cut, on a size below the tolerance, or on the iteration limit, and the count says how many iterations ran.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of oracle answers and space verdicts/sizes for iteration limits 0..7, one or two deviating events at every position of long runs, tolerances and levels of every magnitude, and runs of up to 100003 iterations",
 "tests run a few concrete problems that all follow the common path",
 DRV, [("optimisation loop", "src/cutting_plane.rs: cutting_plane_optim")],
 "Environment answers enumerated exhaustively around the real driver, call trace compared with a reference automaton.")
prop("C11", "The discrete optimisation loop follows its retry protocol",
 "For any oracle and search space: the returned point is the evaluation point the oracle gave with its last improvement, and nothing is returned if there was none. After a cut that had no effect the oracle is asked again for an alternative (retry) as long as it says more are available, and the loop ends when none is left; an ordinary step is never asked as a retry. It stops exactly on a refused cut, on a size below the tolerance or on the iteration limit, with the count of iterations run; a space without its own discrete cut uses its deep cut.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of oracle answers (improved / not, more alternatives / not) and space verdicts/sizes for iteration limits 0..5, one or two deviating events at every position of long runs, tolerances and levels of every magnitude, and runs of up to 100003 iterations",
 "tests run one discrete problem",
 DRV, [("discrete loop", "src/cutting_plane.rs: cutting_plane_optim_q"), ("default discrete cut", "src/cutting_plane.rs: SearchSpaceQ")],
 "Environment answers enumerated exhaustively around the real driver, call trace compared with a reference automaton.")
prop("C12", "Bisection brackets the boundary",
 "For any yes/no assessor, every probed value is the midpoint of the current interval, a yes moves the upper end and a no the lower end to it, and the interval the caller passed is narrowed accordingly. The search stops once the half-width is below the tolerance or the iteration limit is reached, reports the number of iterations run, and reports success exactly when some probe was answered yes.",
 ["inputs", "histories"],
 "17 intervals x tolerances x iteration limits 0..16 x every answer sequence; threshold sweeps with limits up to 300",
 "tests use one assessor",
 DRV, [("bisection", "src/cutting_plane.rs: bsearch")],
 "Every answer sequence enumerated on the real routine and compared step by step with a reference.")
prop("C13", "The bisection adaptor works on a copy and keeps only successes",
 "For every level probed, the oracle is given that level before anything else, the feasibility loop runs on a copy of the search space with the given options, and the answer is yes exactly when that loop found a point. The kept search space changes only on a yes, and then only by moving its centre to the point found.",
 ["inputs", "histories", "fault_sequences"],
 "every environment answer at every level, up to 5 levels and 4 iterations per level; 70,000 levels in a row",
 "tests use one concrete problem",
 DRV, [("adaptor", "src/cutting_plane.rs: BSearchAdaptor::assess_bs")],
 "Environment answers enumerated exhaustively around the real adaptor; trace compared with a reference automaton.")
prop("C14", "The positive-definiteness test is right and proves its refusals",
 "The factorisation accepts a symmetric matrix exactly when it is positive definite (in relaxed mode it accepts every positive semidefinite one). On refusal it has read no row beyond the block it names and gives a vector supported on that block whose quadratic form is non-positive and equal to minus the reported value; other matrices are evaluated by the same quadratic form. On acceptance the square root it returns reproduces the matrix, and a reused instance answers like a fresh one.",
 ["inputs", "histories"],
 "every symmetric matrix of order 1..6 over small integer alphabets x scales (every power of two), strict and relaxed; structured families with the first bad pivot at every position up to order 66; every sequence of 3 factorisations on one instance",
 "tests use about ten matrices",
 ["src/oracles/ldlt_mgr.rs"], [("factorisation", "src/oracles/ldlt_mgr.rs: LDLTMgr::factor, factor_with_allow_semidefinite"), ("certificate", "LDLTMgr::witness, sym_quad"), ("square root", "LDLTMgr::sqrt")],
 "Complete enumeration of small integer matrices on the real code against exact integer leading minors; known finding F1 (relaxed mode accepts some indefinite matrices after an exact zero pivot).")
prop("C15", "Matrix-inequality oracles accept exactly the feasible points",
 "The three matrix-inequality oracles accept a point exactly when the matrix of the inequality is positive definite there. Otherwise the returned cut excludes the queried point (positive offset) and is satisfied by every feasible point, and it is the cut derived from the refusal certificate. The answer depends only on the queried point, not on earlier queries.",
 ["inputs", "histories"],
 "all coefficient matrices of order 1..3 over small integer alphabets x constant matrices x grid of query points; every order to 20 and variable count to 40 on the axes; every history of queries a, b, a",
 "tests solve one small problem; a cut that removes feasible points only shows on other matrices",
 ["src/oracles/lmi_oracle.rs", "src/oracles/lmi0_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/ldlt_mgr.rs"], [("oracle", "LMIOracle::assess_feas"), ("oracle without constant", "LMI0Oracle"), ("eager oracle", "LMIOldOracle")],
 "Complete enumeration of small integer problems on the real oracles; verdict by exact minors, cut validity on every feasible grid point.")
prop("C16", "The low-pass filter oracle enforces exactly its specification",
 "A filter design is accepted exactly when its response lies within the pass-band bounds, below the stop-band bound and is non-negative at every sampled frequency and the leading coefficient is non-negative. Otherwise the cut is a truly violated specification, stated at the queried point with both of its bounds where it has two. It announces further alternatives exactly when some sampled frequency violates its bound. With an objective, an accepted design lowers the level to its largest stop-band response; answers never depend on earlier queries in any other way, and the packaged problem builds the bands it describes.",
 ["inputs", "histories", "configurations"],
 "filter specifications in several units x every design vector over a value alphabet as one long query history, designs violating exactly one sampled frequency, and every query history of length 3 over 10 designs; orders up to 100",
 "tests only count iterations of one design problem",
 ["src/oracles/lowpass_oracle.rs"], [("oracle", "LowpassOracle::assess_feas / assess_optim"), ("problem set-up", "create_lowpass_case")],
 "Complete query histories on the real oracle; every answer compared with a direct evaluation of the specification.")
prop("C17", "Profit oracles accept and cut correctly at every point and level",
 "For every model and query point the profit oracles report an infeasible point by a cut valid for all feasible better points, and improve the level exactly at feasible points whose profit is at least the level, to that profit. The robust oracle answers for the worst case over the uncertainty margins. The discrete oracle evaluates at the integer neighbour, follows the retry protocol, and its answers depend on earlier queries only through it.",
 ["inputs", "histories", "configurations"],
 "6 production models x 225 points x 9 levels, every query history of length 2 (3 on a sub-grid); discrete oracle with every retry pattern; 70,000 questions in a row to one instance; fine sweeps of single questions and every integer candidate to 1030",
 "tests fix the iteration count and result of one model",
 ["src/oracles/profit_oracle.rs"], [("oracle", "ProfitOracle::assess_optim"), ("robust", "ProfitRbOracle"), ("discrete", "ProfitOracleQ::assess_optim_q")],
 "Complete query histories on the real oracles against a direct evaluation of the model and validity on the whole grid; known finding F2 (sign of the restated discrete cut).")
prop("C18", "Quasi-convex, SVM and max-cut oracles answer as documented",
 "The quasi-convex oracle cuts only worse points and improves the level exactly to the objective at a better feasible point. The support-vector oracle returns the hinge gradient of the sample with the smallest margin and that margin as level and offset, or a zero cut and level when every margin is at least one. The max-cut oracle reports the cut value of the assignment rounded to signs, with twice the weight each vertex has across the cut as its descent direction, and signals improvement exactly when the value is strictly better.",
 ["inputs", "histories"],
 "quasi-convex: fine sweep of points x 22 levels, histories of length 3 and of 70,000; SVM: every small data set and labelling x weights, every shape to 40 x 40 with each sample the worst in turn; max-cut: every small weighted graph x sign patterns x levels, every number of vertices to 66",
 "tests use one or two queries each",
 ["src/quasicvx.rs", "src/oracles/svm_oracle.rs", "src/oracles/maxcut_oracle.rs"], [("quasi-convex", "src/quasicvx.rs"), ("SVM", "src/oracles/svm_oracle.rs"), ("max-cut", "src/oracles/maxcut_oracle.rs")],
 "Complete enumeration of small problems on the real oracles against direct evaluation.")
prop("C19", "The array type obeys vector and matrix algebra",
 "Every element-wise, scalar and in-place operation, dot product, matrix-vector product, norm, reduction and constructor of the array type gives the textbook result for every shape, and sequences of operations compose. Operands of different size are refused rather than silently truncated, and operands that are only read are left unchanged.",
 ["inputs", "programs"],
 "every sequence of up to 5 of 26 operations on vectors of length 0..6 and matrices up to 4x4; each operation on every length to 530 and shape to 40x40 and on pairs of special values; every mismatched pair of shapes",
 "tests use one or two vectors per operation and no sequences",
 ["src/arr.rs"], [("array type", "src/arr.rs: Arr")],
 "Every operation program up to the stated depth run on the real type and on a plain reference.")
prop("C20", "Conjugate gradient solves what it claims to",
 "A reported solution of a linear system has a residual below the tolerance, and failure is reported otherwise. A symmetric positive definite system of order n is solved within n iterations (up to rounding), an initial guess that already solves it is returned unchanged, the iterate is returned as soon as it meets the tolerance (also on the last step the limit allows), no more steps than the limit allows are taken, and a larger iteration limit never changes a result already reached.",
 ["inputs", "configurations"],
 "every positive definite integer matrix of order 1..5 over small alphabets x right-hand sides x guesses x tolerances x iteration limits; every order to 24, structured families and chains up to order 160",
 "tests use three systems",
 ["src/conjugate_gradient.rs"], [("iteration", "src/conjugate_gradient.rs: conjugate_gradient")],
 "Complete enumeration on the real routine; exact solution by rational elimination in the harness.")
prop("C21", "Power iteration finds the dominant eigenpair",
 "Each of the four power-iteration variants, on a symmetric matrix with a separated dominant eigenvalue and a start vector not orthogonal to it, returns on convergence that eigenvalue and a unit eigenvector within the tolerance, with the number of iterations used; it stops at the first step whose change (of the vector, or of the eigenvalue, as the variant documents) is within the tolerance. The iteration limit is respected (the vector is then the start multiplied by the matrix once per iteration, the value its Rayleigh quotient), and a larger limit never changes a converged result.",
 ["inputs", "configurations"],
 "every symmetric integer matrix of order 1..3 over small alphabets with a spectral gap, structured families of every order to 66, slow convergence followed step by step, x start vectors x scales x four variants x iteration limits around convergence",
 "tests use one or two matrices",
 ["src/power_iteration.rs"], [("four variants", "src/power_iteration.rs")],
 "Complete enumeration on the real routines against a Jacobi eigenvalue reference.")
prop("C22", "Complete solves find the true answer",
 "For every linear problem whose feasible set meets the starting ellipsoid, the feasibility loop returns a feasible point within the number of iterations the volume reduction guarantees, the optimisation and bisection loops come within the tolerance of the true optimum, and the discrete loop returns only feasible integer points with the level it reports, on each search space; empty problems are reported as such. The same holds for the packaged profit, robust profit, discrete profit and quasi-convex problems from every starting ellipsoid.",
 ["inputs", "configurations", "histories"],
 "64119 linear problems in 2 to 8 variables (all pairs and triples of lattice half-spaces in a box, some in units 2^±40) x 3 spaces x single/parallel cuts x 4 drivers; packaged problems from 125 starts x 3 spaces",
 "tests solve one instance of each packaged problem with one space",
 ["src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs", "src/oracles/profit_oracle.rs", "src/quasicvx.rs"], [("drivers", "src/cutting_plane.rs"), ("spaces", "src/ell.rs, src/ell_stable.rs")],
 "Every problem of a finite family solved by the real code and compared with exact vertex enumeration.")

prop("C23", "Semidefinite and filter-design solves reach the true optimum",
 "With the packaged matrix-inequality oracles (with and without constant term, lazy and eager) and the packaged low-pass filter oracle, on every search space: the feasibility loop returns only points that satisfy the matrix inequality or filter specification and finds one whenever a fat feasible set meets the starting ellipsoid; the optimisation and bisection loops come within tolerance of the true minimum, the reported level is the objective at the returned point, and problems without a solution are reported as such.",
 ["inputs", "configurations", "histories"],
 "4374 semidefinite problems with matrices of order 2 and 180 of order 3 in 2 variables x applicable oracles x 3 spaces x 3 drivers; 60 filter specifications of orders 2 and 3 against the exact linear program, larger orders across spaces",
 "tests solve one matrix-inequality problem and count the iterations of one filter design without looking at the result",
 ["src/oracles/lmi_oracle.rs", "src/oracles/lmi0_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/ldlt_mgr.rs", "src/oracles/lowpass_oracle.rs", "src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs"], [("oracles", "src/oracles"), ("drivers", "src/cutting_plane.rs"), ("spaces", "src/ell.rs, src/ell_stable.rs")],
 "Every problem of a finite family solved by the real code and compared with a nested convex search over the exact smallest eigenvalue, or vertex enumeration of the exact linear program.")
prop("C24", "Options, cut choices, verdicts and errors carry their data faithfully",
 "Options hold exactly the limit and tolerance given (quiet by default, and the documented defaults otherwise); a parallel cut returns the bounds it was built from. Different verdicts are unequal and read differently. An error's message contains every datum it carries (counts, values, texts), different errors are unequal and read differently, and a copy equals its original.",
 ["inputs"],
 "all errors over 71 x 71 counts x 16 values and 15 texts x 16 values; all verdict pairs; options and cuts over the same grids",
 "tests format two errors and copy one",
 ["src/error.rs", "src/cutting_plane.rs"], [("errors", "src/error.rs: EllipsoidError"), ("options, verdicts, cuts", "src/cutting_plane.rs: Options, CutStatus, ParallelCut")],
 "Complete enumeration of the values over finite grids on the real types.")
prop("C25", "Instances are independent and every run is repeatable",
 "What a search space, an oracle, a factorisation, a numerical routine or a driver run answers depends only on its own construction and its own history of calls, never on other instances: constructing, using or dropping others between its calls, on the same thread, inside an oracle call of a running driver, or on another thread, changes no bit of its answers, and the same program run again gives the same answers.",
 ["schedules", "histories", "configurations"],
 "117 programs of up to 4 calls over every kind of instance, with each constructor argument varied in turn, and over every driver: every ordered pair with one program run at each yield point of the other on one thread, and every interleaving of pairs on two threads (all pairs in the thorough tier), against references from fresh processes",
 "tests use one instance at a time; a cache, workspace or rotation counter shared between instances shows only when two of them are interleaved",
 ["src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs", "src/cutting_plane.rs", "src/oracles/ldlt_mgr.rs", "src/oracles/lowpass_oracle.rs", "src/oracles/profit_oracle.rs", "src/quasicvx.rs", "src/conjugate_gradient.rs", "src/power_iteration.rs", "src/arr.rs"],
 [("state of spaces and oracles kept in their own fields", "src/ell.rs, src/ell_stable.rs, src/oracles, src/quasicvx.rs"), ("drivers keep no state between runs", "src/cutting_plane.rs")],
 "Controlled scheduler: a baton passes between two threads at every yield point (between calls; inside drivers in every oracle call) and every interleaving is executed; results compared bit for bit with a run alone in a fresh process. Preemption inside one library call is not explored: safe Rust without shared state has none to observe.")

TECH = "explicit enumeration of all bounded behaviours of the real code (stateless model checking) against a reference model"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
     thorough_cmd=f"bash check.sh {p['id']} thorough", technique=TECH, level="model_checking",
     level_note=p["note"]) for p in P],
  not_applicable=[],
  notes="Checks drive the public API of the crate built from /repo's working tree; no hooks in /repo are needed. Known findings: known-findings.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
