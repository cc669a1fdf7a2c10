"""Per-property harness configuration: sources, instrumentation, what makes a case count."""
# the generators and oracles are not under test: compiled without sanitizers, and linked last so that
# shared inline functions come from the instrumented objects
GEN = ("qpgen.cpp", {"mode": "plain"})
SVC = ["svc_dynamic.cpp", "svc_sparse.cpp", "svc_s32.cpp", "svc_s26.cpp", "svc_sD3.cpp", "svc_s4D.cpp", GEN]
NANINIT = ["-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-D_GLIBCXX_ASSERTIONS"]
SHIM = ["-I", "@VERIF@/shim/include"]
NARROW = ["-Wno-c++11-narrowing"]
CHECKS = {}


def parts(src, n):
    """the same source compiled n times, one slice of its types each"""
    return [(src, {"flags": [f"-DPART={k}"]}) for k in range(n)]


def chk(pid, src, rule, **kw):
    CHECKS[pid] = {"src": src, "rule": rule, **kw}


MON = "runtime monitoring: "
SAN = " under ASan + UBSan"

chk("Q01", ["q01.cpp"] + SVC,
    "Seeded random convex QPs (built around known KKT points, LPs over boxes, degenerate and duplicated rows, MPC-shaped, "
    "badly scaled) with random solver settings and storage. A case is non-trivial when the answer was reported Optimal/PolishFailed "
    "with at least one active constraint and was then judged by the KKT monitor; distinct by kind, size, iteration count and objective.",
    require=["optimal_checked", "active_rows_seen"],
    technique=MON + "KKT oracle in extended precision over generated QPs" + SAN)
chk("Q02", ["q02.cpp"] + SVC,
    "Feasible bounded QPs with a known interior point. Non-trivial: at least one finite bound and more than one variable, status observed.",
    technique=MON + "status oracle on QPs feasible and bounded by construction" + SAN)
chk("Q03", ["q03.cpp"] + SVC,
    "QPs infeasible by a built-in Farkas certificate, by one contradictory row, or unbounded along a built-in recession direction; part of them "
    "solved with a used solver object or a warm start. Non-trivial: status observed for a distinct problem.",
    technique=MON + "status oracle on QPs infeasible/unbounded by construction" + SAN)
chk("Q04", ["q04.cpp"] + SVC,
    "For each problem a reference run with a high limit, then runs with limits around the reference's iteration count; check intervals "
    "1..; wall-clock limits on large ill-conditioned problems. Non-trivial: distinct (problem, limit, interval) with an observed status.",
    require=["limited_runs"], budget=12, shards=1,
    technique=MON + "limit/termination monitor against an unlimited reference run, CPU-time hang detection")
chk("Q05", ["q05.cpp"] + SVC,
    "Each problem solved in every storage variant that fits (static, dynamic, mixed, sparse with/without compression, explicit zeros, upper "
    "triangle only, arbitrary values below the diagonal). Non-trivial: a comparison against the reference variant was made.",
    require=["lower_triangle_garbage"],
    technique=MON + "differential monitor across storage variants" + SAN)
chk("Q06", ["q06.cpp"] + SVC,
    "Random histories (6-16 steps) of analyze/solve/warm solve/copy/assign/self-assign/move over three solver objects and three problem "
    "structures. Every solve is compared with a fresh object. Non-trivial: distinct operation sequences ending in a solve.",
    require=["answers_compared", "bystanders_checked"],
    technique=MON + "history monitor, every answer compared with a fresh object" + SAN)
chk("Q07", ["q07.cpp"] + SVC,
    "Cold solve, then solves warm started from random, huge, foreign, perturbed and own solutions, with and without scaling and polishing. "
    "Non-trivial: distinct (problem, warm start) pairs compared with the cold answer.",
    technique=MON + "differential monitor warm vs cold, iteration bound from a constructed optimum" + SAN)
chk("Q08", ["q08.cpp"] + SVC,
    "Same problem with and without polishing, incl. degenerate, duplicated rows, loose tolerances. Non-trivial: polished answers judged.",
    technique=MON + "polished vs unpolished differential plus KKT oracle" + SAN)
chk("Q09", ["q09.cpp"] + SVC,
    "Hostile well-formed problems (m=0, n=1, empty rows/columns, +-inf and contradictory bounds, denormals, 1e12 magnitudes) and settings, "
    "over object lifetimes (analyze/solve/copy/move/assign/destroy). Stages: clang ASan+UBSan with NaN-initialised Eigen temporaries and "
    "libstdc++ assertions; gcc ASan+UBSan; valgrind memcheck for uninitialised reads. Non-trivial: distinct problems with more than one variable.",
    require=["optimal"], stages=[
        {"mode": "full", "flags": NANINIT, "budget": 7, "thorough_budget": 200},
        {"mode": "gccfull", "src": ["q09.cpp", "svc_dynamic.cpp", "svc_s26.cpp", "qpgen.cpp"], "budget": 4, "thorough_budget": 100},
        {"mode": "vgplain", "src": ["q09.cpp", "svc_sparse.cpp", "svc_s32.cpp", GEN], "budget": 9, "thorough_budget": 250,
         "env": {"VH_VALGRIND": "1"},
         "wrap": ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--max-stackframe=8000000"]}],
    technique="ASan, UBSan, libstdc++/Eigen assertions, NaN-poisoned temporaries and valgrind memcheck on hostile inputs")
chk("Q10", ["q10.cpp"] + [s for s in SVC if s != GEN] + [("qpgen.cpp", {"mode": "tsan"})] + [
    ("q10c.cpp", {"flags": SHIM + NARROW + [f"-DPART={k}"]}) for k in (1, 2, 3, 4)],
    "2-6 threads released together with injected delays, each using its own solver, a copy of a common ancestor, copying the ancestor "
    "concurrently, or reading one shared const problem and warm start; results compared bitwise with the sequential run. Non-trivial: "
    "distinct (problem type, thread role assignment, delays).",
    mode="tsan", budget=14, shards=1, require=["parallel_answers", "parallel:mpc", "parallel:filters", "parallel:transcription"],
    technique="ThreadSanitizer plus parallel-vs-sequential bitwise result monitor")
chk("S01", ["s01.cpp"],
    "Sequences of 8 operations on random destinations (row/column major, compressed or not) with dense, fixed, transposed, block, sparse and "
    "identity sources. Non-trivial: distinct operations with more than one coefficient, each compared with dense arithmetic.",
    mode="full", technique=MON + "shadow dense matrix after every operation" + SAN)
chk("S02", ["s02.cpp"],
    "Random sparse matrices and outer blocks of them, zeroed; pattern, allocation, values in and outside compared. Non-trivial: proper "
    "blocks of matrices with more than one entry.", budget=6,
    mode="full", require=["zeroed"], technique=MON + "before/after state monitor on sparse storage" + SAN)
chk("S03", ["s03.cpp"],
    "Random Jacobians/Hessians (dense, sparse, structured, offset) composed and compared with dense chain rule, and analytic maps compared "
    "with finite differences. Non-trivial: distinct compositions with more than one inner or outer component.",
    mode="full", require=["compositions", "analytic_compositions"], technique=MON + "dense chain-rule oracle and finite differences" + SAN)
chk("T01", ["t01.cpp"],
    "20 clock types, offsets from 0 to 1e6 s of either sign, times over +-1e8 s. Non-trivial: non-zero offset; distinct by type, time, offset.",
    mode="full", budget=6, technique=MON + "exact-arithmetic oracle for time traits" + SAN)
chk("I01", ["i01.cpp"],
    "Random programs (dense/sparse, row/column-major and uncompressed Jacobians, explicit zeros, with and without second derivatives). "
    "Every Ipopt callback in random order against dense evaluation at the announced positions; then real solves of convex programs with "
    "constructed optimum, warm starts, iteration limits, infeasible/unbounded/fixed/failing programs. Non-trivial: distinct call sequences "
    "and distinct solved programs.", flags=["-isystem", "/usr/include/coin"], libs=["-lipopt"],
    stages=[{"mode": "full", "budget": 4, "thorough_budget": 150, "env": {"VH_PART": "c"}},
            {"mode": "plain", "flags": ["-isystem", "/usr/include/coin", "-D_GLIBCXX_ASSERTIONS"], "budget": 12, "thorough_budget": 400, "env": {"VH_PART": "s"}}],
    require=["jacobians_seen", "hessians_seen", "optimum_compared", "warm_compared", "limits_observed", "outcomes_seen"],
    technique=MON + "callback recorder vs dense evaluation, KKT and constructed-optimum oracle on real Ipopt solves" + SAN)
chk("B01", ["b01.cpp"],
    "Random dense, fixed-size and sparse problems, settings, warm starts and scripted solver outcomes, incl. failing set-up and failing solve, "
    "against a recording stand-in for the OSQP C interface. Non-trivial: distinct problems handed over.", mode="full", flags=SHIM, budget=6,
    require=["solutions_seen", "failures_seen"],
    technique=MON + "recording stand-in for the OSQP C interface, call-order and ownership monitor" + SAN)
chk("R01", ["r01.cpp"],
    "rclcpp::Time values over the whole epoch range and offsets of either sign. Non-trivial: non-zero offset; distinct by time and offset.",
    mode="full", flags=SHIM, budget=5, technique=MON + "exact-arithmetic oracle for time traits" + SAN)

chk("M01", parts("m01.cpp", 8),
    "Histories of up to 12 refinements (ph splits, degree changes, error-driven), copies and moves over eight mesh types; after each step the "
    "partition is compared with a reference model and interval look-ups at boundaries, neighbours of boundaries and random times are judged. "
    "Non-trivial: distinct histories ending with more than one interval.", flags=SHIM + NARROW, budget=8,
    require=["splits", "error_refinements", "lookups", "ivals_over_target"],
    technique=MON + "reference-model monitor after every refinement step" + SAN)
chk("M02", parts("m02.cpp", 7),
    "Random meshes (after refinement histories) of seven mesh types; random polynomials of the extreme and of random degrees in extended "
    "precision. Non-trivial: distinct meshes with more than one collocation point.", flags=SHIM + NARROW, budget=8,
    require=["quadratures", "differentiations", "evaluations", "derivatives_evaluated"],
    technique=MON + "exact polynomial oracle in extended precision" + SAN)
for pid, order, what in (("M03", 1, "values and Jacobian columns"), ("M04", 2, "Hessian bilinear forms")):
    chk(pid, parts("m03.cpp", 6),
        f"Random functions (linear, quadratic, trigonometric; dense, sparse, by reference, automatic and numerical derivatives) over random refined "
        f"meshes; {what} of evaluation, weighted evaluation, integral and dynamics compared with an independently computed grid in dual-number "
        "arithmetic; result objects re-used at 1-4 points, compressed or not. Non-trivial: distinct (function kind, operation, mesh, reuse).",
        flags=SHIM + NARROW + [f"-DORDER={order}"], budget=8, require=["reused_results", "compressed_results", "jacobian_columns"],
        technique=MON + "dual-number reference on an independent Radau grid" + SAN)
chk("M05", parts("m05.cpp", 3),
    "Random trajectories, dynamics and refined meshes: error vector against an independent defect computation in extended precision; trajectory "
    "disturbed outside one interval; polynomial solutions and solutions off on one interval; refinement loops on smooth problems. Non-trivial: "
    "distinct meshes and problems.", flags=SHIM + NARROW, budget=8, require=["defects", "locality", "refinement_loops"],
    technique=MON + "independent defect oracle, locality and refinement-loop monitors" + SAN)
for pid, what, rule, req, tech in (
        ("O01", 1, "objective, constraint values and all bounds at 1-3 random points (incl. tf = 0, infinite bounds)", ["points"], "independent collocation transcription as reference"),
        ("O02", 2, "gradient, Jacobian, both Hessians at 1-4 points (first often at zero or with zero multipliers), in changing call order; fixed pattern; fresh program",
         ["jacobian_columns", "hessian_forms", "patterns_compared", "fresh_compared"], "dual-number derivatives of an independent transcription, pattern-stability and staleness monitors"),
        ("O03", 3, "random program solutions to trajectories and back, node values, polynomial trajectories through the program", ["nodes", "trajectory_points"], "round-trip monitor")):
    chk(pid, parts("o01.cpp", 4),
        f"Random optimal control problems (four dimension sets; analytic dense/sparse, by reference, automatic derivatives) over random refined meshes: {rule}. "
        "Non-trivial: distinct problem and mesh.", flags=SHIM + NARROW + [f"-DWHAT={what}"], budget=8, require=req, technique=MON + tech + SAN)
chk("O04", parts("o04.cpp", 4),
    "Random optimal control problems (vector states with analytic dense or sparse derivatives; SE(2) and SO(3)xR2 states with automatic derivatives), "
    "objectives affine in the integral, curved linearization trajectories, random refined meshes; one-shot construction and repeated updates of one "
    "allocation; random program solutions mapped back. Non-trivial: distinct problem, mesh and horizon.",
    flags=SHIM + NARROW, budget=8, require=["rows", "hessian_forms", "updates", "trajectory_points"],
    technique=MON + "dual-number linearization of error dynamics, constraints and cost on an independent grid" + SAN)
for pid, what, rule, req, tech in (
        ("C01", 1, "1-3 calls with changing weights and trajectories, returned input and trajectories compared with an independent interior point solution of the collocated tracking problem",
         ["optima_compared", "active_constraints"], "independent collocated optimum as reference"),
        ("C02", 2, "histories of up to 8 calls, weight and trajectory changes, copies, moves, assignments; then the same configuration on a fresh controller, a copy, and shifted in time",
         ["histories", "copies_changed", "answers_compared", "shifts"], "twin-run monitor against a fresh controller")):
    chk(pid, parts("c01.cpp", 4),
        f"Random model predictive controllers (vector, SE(2), SO(3)xR2 states; floating and chrono times; time-varying dynamics and constraints): {rule}. "
        "Non-trivial: distinct controllers.", flags=SHIM + NARROW + [f"-DWHAT={what}"], budget=10, require=req, technique=MON + tech + SAN)
chk("P01", ["p01.cpp"],
    "Histories of up to 40 operations (control calls at advancing, repeated and backward times, gain, trajectory and spline changes, resets, copies, moves) "
    "over seven combinations of time type and state group, compared call by call with a reference model. Non-trivial: distinct histories in which the integral moved.",
    mode="full", flags=SHIM, budget=8, require=["calls", "resets", "splines", "trajectories", "copies", "clamped", "time_not_advancing"],
    technique=MON + "reference-model monitor over call histories" + SAN)
for pid, what, rule, req, tech in (
        ("E01", 1, "1-3 predictions each (zero, constant, time-polynomial, linear and general dynamics; durations incl. zero; sub-steps unset, too long, dividing and not dividing; "
         "arbitrary values or NaN below the diagonal of Q): recorded evaluation times, Euler steps over the recorded times, constant twists, fine predictions against an extrapolated midpoint rule",
         ["time_evaluations", "constant_twists", "random_walks", "euler_comparisons", "convergence_comparisons", "splits", "zero_durations"],
         "recorded evaluation times and independent integration in dual-number linearization"),
        ("E02", 2, "sequences of up to 6 updates (vector, SO(2), SO(3) measurements, 1-7 dimensions, correlated noise, singular priors, arbitrary values or NaN below the diagonal of R) "
         "interleaved with predictions; linear measurements in both orders and jointly", ["updates", "orders_compared", "predictions", "copies"],
         "Kalman posterior in extended precision with dual-number linearization, order-independence monitor")):
    chk(pid, parts("e01.cpp", 6),
        f"Extended Kalman filters over vector spaces, SO(3), SE(2), SO(2)xR2 with Euler and Runge-Kutta steppers, automatic and numerical derivatives: {rule}. "
        "Non-trivial: distinct operations judged.", flags=SHIM + [f"-DWHAT={what}"], budget=8, require=req, technique=MON + tech + SAN)
for pid, what, rule, req, tech in (
        ("A01", 1, "QP built at once, in a fresh allocation and over an earlier problem: recorded barrier evaluation instants and integration steps, fixed rows, barrier rows at the "
         "configured and at a fine step against dual-number sensitivities of the extrapolated backup flow",
         ["instants", "input_rows", "barrier_rows", "updates_reused"], "recorded evaluation instants and an independent dual-number flow"),
        ("A02", 2, "filters and their copies called 1-6 times with related and unrelated states, desired inputs, barriers: bounds, minimal invasion, cost and input against an interior point "
         "solution, and a fresh filter", ["admissible_inputs", "corrected_inputs", "active_barriers", "relaxed", "optima_compared", "answers_compared", "copies", "independent_optima", "safe_inputs"],
         "independent optimum, bound monitor and twin-run against a fresh filter")):
    chk(pid, parts("a01.cpp", 4),
        f"Random safety filters (R2, SE(2), SO(3), SO(2)xR states; vector and SO(3) inputs; 1-3 barriers, 1-12 instants, horizons and steps that do or do not divide; random input polytopes): {rule}. "
        "Non-trivial: distinct problems with more than one instant, and distinct calls.", flags=SHIM + [f"-DWHAT={what}"], budget=8, require=req, technique=MON + tech + SAN)
chk("O05", parts("o05.cpp", 4),
    "Random optimal control problems on SE(2), SO(3), SO(2)xR1, SE(2)xR1 (vector, SO(2), SO(3) inputs) flattened around random constant- and varying-velocity "
    "trajectories; 1-3 points each incl. zero deviation: values, velocity, first and second derivatives of every function in changing call order; solutions mapped back. "
    "Non-trivial: distinct problem, point and trajectory.",
    flags=SHIM + NARROW, budget=8, require=["points", "inner_derivatives", "end_derivatives", "dynamics_derivatives", "solutions"],
    technique=MON + "composition with the original problem and dual-number derivatives of it" + SAN)
chk("O06", parts("o06.cpp", 4),
    "Random OCPs (vector spaces and SE(2); dense, sparse and reference derivatives; all, some or no derivatives supplied) tested with right derivatives (must be "
    "accepted, at the requested number of distinct points) and with one derivative of one function made wrong in one entry (offset, dropped, NaN, inf, wrong shape) at one "
    "or all points (must be rejected). Non-trivial: distinct fault and problem.",
    flags=SHIM + NARROW, budget=8, require=["right_derivatives", "wrong_derivatives"],
    technique=MON + "fault injection into supplied derivatives, verdicts against the known fault" + SAN)
