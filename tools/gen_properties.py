#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
H = "include/smooth/feedback/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": [H + f for f in files], "mechanism": [{"name": n, "where": H + w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": H + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("Q01", "A QP solution reported Optimal really is optimal",
 "Whenever the QP solver reports Optimal (or PolishFailed) for a convex problem, the returned primal point satisfies every constraint, the returned multipliers make the Lagrangian stationary, each non-zero multiplier has the sign of a bound that is active at the point, and the objective value is within tolerance of the true minimum, all to the requested absolute and relative tolerances. The reported objective equals the cost of the returned point.",
 ["inputs", "configurations"], "all convex QPs (any n, m, rank of P, equality/one-sided/two-sided/free rows), dense and sparse, all tolerance, scaling, polishing and relaxation settings",
 "tests/test_qp.cpp compares a few hand-written problems and same-solver cross checks with the default parameters; optimality of an arbitrary instance needs an independent KKT oracle over many instances and settings",
 ["qp_solver.hpp", "qp.hpp"], [("QPSolver::solve", "qp_solver.hpp"), ("QPSolver::check_stopping", "qp_solver.hpp"), ("polish_qp", "qp_solver.hpp"), ("QPSolver::scale", "qp_solver.hpp")],
 ["return value of solve_qp / QPSolver::solve"])

prop("Q02", "Feasible bounded QPs are never declared infeasible",
 "A QP that has a point satisfying all constraints with margin is never reported primal infeasible, and a QP whose cost is bounded below on the feasible set (strongly convex cost, bounded variables, or a dual feasible point) is never reported dual infeasible. In particular such a problem, given enough iterations, is reported optimal.",
 ["inputs", "configurations"], "all QPs constructed around a known interior point or with known equality solution, all storage kinds, scalings and check intervals",
 "tests only run a handful of feasible problems; a wrong certificate shows only for particular bound patterns, scalings or iterates",
 ["qp_solver.hpp"], [("infeasibility certificates", "qp_solver.hpp"), ("trivially empty bound test", "qp_solver.hpp")], ["solution status"])

prop("Q03", "Infeasible or unbounded QPs are detected and never called optimal",
 "A QP whose constraints are contradictory (with a margin) is never reported optimal and is reported primal infeasible within a bounded number of iterations; contradictory bounds on a single row are always recognised. A QP that is unbounded below along a recession direction is never reported optimal and is reported dual infeasible within a bounded number of iterations.",
 ["inputs", "configurations"], "all QPs built from a known Farkas certificate or a known recession direction, dense and sparse, with and without scaling, polish and warm start",
 "tests contain three fixed infeasible problems; the certificate logic has one branch per bound kind and a scaling-dependent unscaling step",
 ["qp_solver.hpp"], [("infeasibility certificates", "qp_solver.hpp"), ("return code selection", "qp_solver.hpp")], ["solution status"])

prop("Q04", "The QP solver honours its limits and always returns",
 "The solver never performs more than the allowed number of iterations, reports MaxIterations exactly when that limit ends the run, returns with MaxTime soon after the time limit has passed, and reports how many iterations it did. For every positive stopping-check interval a feasible well-conditioned problem terminates with Optimal after a bounded number of iterations without any limit being set.",
 ["inputs", "configurations"], "all iteration limits (including 0 and 1), time limits, check intervals from 1 upwards, problem kinds",
 "tests use one iteration limit and one time limit with the default check interval of 25",
 ["qp_solver.hpp"], [("main loop and limit checks", "qp_solver.hpp")], ["status, iteration count"])

prop("Q05", "The QP answer does not depend on how the problem is stored",
 "The same QP given as static dense, dynamic dense, mixed static/dynamic, or sparse data (compressed or not, with or without explicitly stored zeros, full or only upper triangular cost matrix) yields the same status and the same solution and objective up to tolerance. Only the upper triangle of the cost matrix influences the answer.",
 ["inputs", "configurations"], "all QPs and all supported storage variants of each",
 "tests compare dense and sparse on a few problems, always with a symmetric fully stored cost matrix in compressed form",
 ["qp_solver.hpp", "qp.hpp"], [("system matrix filling", "qp_solver.hpp"), ("scaling", "qp_solver.hpp"), ("polish_qp", "qp_solver.hpp")], ["solution of each variant"])

prop("Q06", "QP solver objects carry no history into later answers",
 "A solver object that has been used before, copied, moved, assigned or re-prepared for a problem of a different size or sparsity gives the same answer as a freshly constructed one, and solving never modifies the problem or warm start it is given. Copies are independent: using one never changes the stored solution of another.",
 ["histories", "inputs"], "all sequences of prepare / solve / copy / move / assign over solver objects and problems sharing a structure",
 "tests reuse a solver twice with identical data; stale factorizations, scalings or multipliers only surface in longer histories",
 ["qp_solver.hpp"], [("QPSolver::analyze", "qp_solver.hpp"), ("LDLTWrapper copy semantics", "qp_solver.hpp"), ("QPSolver working memory", "qp_solver.hpp")], ["solution after each step"],
 [("ldlt_.first", "symbolic factorization must be redone", "qp_solver.hpp")])

prop("Q07", "Warm starting changes speed, never the answer",
 "Solving with any finite warm start (random, scaled, from another problem, or the solution itself) gives a status and solution equivalent to a cold start. Warm starting from an optimal primal-dual pair terminates at the first stopping check.",
 ["inputs", "histories"], "all QPs and all finite warm start pairs",
 "tests warm start one problem from its own solution and compare the iteration count only",
 ["qp_solver.hpp"], [("warm start scaling", "qp_solver.hpp")], ["status, solution, iteration count"])

prop("Q08", "Solution polishing never makes a solution worse and reports failure",
 "With polishing enabled the returned solution is never less feasible or less optimal than the requested tolerances allow, whatever active set was guessed, and normally reaches near machine precision on non-degenerate problems. If polishing could not be carried out the status says so and the unpolished, tolerance-satisfying solution is returned.",
 ["inputs", "configurations"], "all convex QPs including degenerate and redundant constraints, all polish settings, loose tolerances",
 "tests check polishing on well-behaved problems only; wrong active set guesses need loose tolerances or degenerate geometry",
 ["qp_solver.hpp", "qp.hpp"], [("polish_qp", "qp_solver.hpp"), ("final status", "qp_solver.hpp")], ["residuals with and without polishing, status"])

prop("Q09", "QP solving is free of memory errors and undefined behaviour",
 "For every well-formed problem (finite cost and constraint matrix, bounds possibly infinite, consistent sizes, including no constraints, single variables, empty rows and columns) and every settings combination, solving performs no out-of-bounds access, no use of freed or uninitialised memory, no arithmetic undefined behaviour and no failed internal assertion.",
 ["inputs", "configurations", "histories"], "all well-formed problems, storage kinds, settings and object lifetimes",
 "tests run under a sanitizer but on benign fixed sizes only",
 ["qp_solver.hpp", "utils/sparse.hpp"], [("index arithmetic in solve/scale/polish", "qp_solver.hpp")], ["sanitizer reports, assertions"])

prop("Q10", "Independent solvers and controllers can run concurrently",
 "Separate solver and controller objects (including copies of one object, and read-only use of one shared mesh) used from different threads without synchronisation never race and give the results of a sequential run.",
 ["schedules", "inputs"], "all interleavings of operations on distinct objects, objects copied from a common ancestor included",
 "the tests are single threaded",
 ["qp_solver.hpp", "mpc.hpp", "collocation/mesh.hpp", "utils/sparse.hpp"], [("per-object working memory", "qp_solver.hpp"), ("desired trajectory ownership", "mpc.hpp")], ["race detector reports, per-thread results"])

prop("S01", "Sparse block writes change exactly the requested block",
 "Adding or writing a (scaled, optionally upper-triangle-only) block or identity into a sparse matrix produces exactly the result of the same operation on a dense matrix, for dense and sparse sources of either storage order, and leaves every other coefficient unchanged.",
 ["inputs", "histories"], "all destinations (row/column major, compressed or not, any existing pattern), positions, sources, scales, sequences of operations",
 "test_utils_sparse.cpp has one small example without offsets, scales or the upper-only flag",
 ["utils/sparse.hpp"], [("block_add / block_write / identities", "utils/sparse.hpp")], ["destination matrix"])

prop("S02", "Zeroing a sparse expression zeroes only it and keeps its allocation",
 "Setting a sparse matrix or a block of its rows or columns to zero makes exactly the coefficients of that expression zero, keeps the sparsity pattern, allocation and compression state, and leaves coefficients outside the expression unchanged. Counting and marking explicit zeros agree with the stored coefficients.",
 ["inputs", "histories"], "all sparse matrices, compressed or not, and all row/column blocks of them",
 "not covered by the tests other than for whole matrices",
 ["utils/sparse.hpp"], [("set_zero", "utils/sparse.hpp"), ("count_explicit_zeros / mark_explicit_zeros", "utils/sparse.hpp")], ["matrix before and after"])

prop("S03", "Second derivative of a composition follows the chain rule",
 "The Hessian computed for a composition of two functions from their Jacobians and Hessians equals the second-order chain rule, accumulates onto existing content at the requested position, and agrees for dense and sparse inputs.",
 ["inputs"], "all dimensions, dense/sparse operands, destination offsets",
 "tests check one function pair only through other components",
 ["utils/sparse.hpp"], [("d2r_fog", "utils/sparse.hpp")], ["destination matrix"])

prop("T01", "Time arithmetic is consistent for every clock type",
 "For every supported time type, adding a number of seconds and subtracting two times are inverse to each other up to the resolution of the type, differences are in seconds with the right sign, and shifting both times leaves the difference unchanged.",
 ["inputs", "configurations"], "floating point times, durations and time points of any period, positive and negative offsets",
 "test_static.cpp only checks that the concept is satisfied",
 ["time.hpp"], [("time_trait specialisations", "time.hpp")], ["results of plus and minus"])

prop("M01", "A mesh is always a valid partition, whatever refinements were made",
 "After any sequence of refinements and degree changes a mesh still covers [0, 1] with non-overlapping intervals in order, each degree stays within the configured range, refinement splits only the chosen interval into the documented number of equal parts of minimal degree or raises its degree, untouched intervals keep boundaries and degree, and looking up a time returns the interval that contains it. Error-driven refinement refines exactly the intervals whose error exceeds the target.",
 ["histories", "inputs"], "all sequences of refine / set degree / increase / decrease / error-based refinement operations",
 "test_collocation_mesh.cpp applies three refinements",
 ["collocation/mesh.hpp"], [("Mesh::refine_ph", "collocation/mesh.hpp"), ("Mesh::refine_errors", "collocation/mesh.hpp"), ("Mesh::interval_find", "collocation/mesh.hpp")], ["nodes, degrees, interval lookup after each step"])

prop("M02", "Mesh quadrature and differentiation are exact for polynomials",
 "On every mesh the collocation weights are non-negative, sum to one and integrate polynomials of degree up to 2K-2 per interval exactly; nodes are strictly increasing, start each interval and end at 1; differentiation, integration and interpolation on an interval are exact for polynomials of the interval degree, including derivatives. Interval-wise and whole-mesh views agree.",
 ["inputs", "histories"], "all meshes reachable by refinement, all admissible degrees, all evaluation times and derivative orders",
 "tests check a few degrees on meshes of one or two equal intervals",
 ["collocation/mesh.hpp"], [("interval_nodes / interval_weights", "collocation/mesh.hpp"), ("interval_diffmat / interval_intmat", "collocation/mesh.hpp"), ("Mesh::eval", "collocation/mesh.hpp")], ["nodes, weights, matrices, evaluations"])

prop("M03", "Mesh function values and first derivatives are exact",
 "Evaluating, integrating, or forming the dynamics constraints of functions over a mesh gives the documented values, and the returned Jacobian equals the true derivative with respect to initial time, final time and all state and input parameters, with the documented column layout. Re-using a result object gives the same values as a fresh one.",
 ["inputs", "histories"], "all meshes, function dimensions, times, parameter values, differentiation methods, scaling flag, reuse histories",
 "tests check one function per operation at fixed sizes and points",
 ["collocation/mesh_function.hpp"], [("mesh_eval / mesh_integrate / mesh_dyn", "collocation/mesh_function.hpp")], ["result value and Jacobian"])

prop("M04", "Mesh function second derivatives are exact",
 "The Hessian returned for a multiplier-weighted mesh function is the upper triangle of the true second derivative of the weighted value with respect to times, states and inputs, including all cross terms, and has no entries below the diagonal.",
 ["inputs", "histories"], "all meshes, functions, multipliers, times and re-used result objects",
 "tests check one function per operation at fixed sizes and points",
 ["collocation/mesh_function.hpp"], [("second derivative accumulation", "collocation/mesh_function.hpp")], ["result Hessian"])

prop("M05", "The mesh dynamics error measures the collocation defect",
 "The relative dynamics error reported for each mesh interval is zero exactly when the trajectory satisfies the dynamics to polynomial accuracy on it, equals the documented relative defect otherwise, and depends only on that interval. Refining against it eventually drives the error below the target for smooth problems.",
 ["inputs", "histories"], "all meshes, dynamics, trajectories, time spans",
 "one trajectory on two meshes is tested",
 ["collocation/dyn_error.hpp", "collocation/mesh.hpp"], [("mesh_dyn_error", "collocation/dyn_error.hpp")], ["returned error vector"])

prop("O01", "The NLP made from an optimal control problem is that problem",
 "For every optimal control problem and mesh the transcribed nonlinear program has the documented objective, constraint values and bounds: collocation of the dynamics, integral definition, running constraints at every node and end constraints, consistently scaled, so a point is feasible for the program exactly when it is a feasible collocated trajectory.",
 ["inputs", "configurations"], "all flat problems, meshes and decision vectors",
 "test_ocp_to_nlp.cpp checks only derivatives at one point and a conversion round trip for one problem",
 ["ocp_to_nlp.hpp", "nlp.hpp"], [("OCPNLP::f / g / bounds", "ocp_to_nlp.hpp")], ["values and bounds of the program"])

prop("O02", "NLP derivatives of optimal control problems are exact and stable",
 "Objective gradient, constraint Jacobian and both Hessians (upper triangle) of a transcribed optimal control problem equal the true derivatives at every point, and repeated evaluation at changing points keeps a fixed sparsity pattern containing every structural non-zero and returns the same values as a fresh evaluation.",
 ["inputs", "histories"], "all flat problems, meshes, decision vectors, multipliers and evaluation orders",
 "tests check one problem at one or two points",
 ["ocp_to_nlp.hpp", "collocation/mesh_function.hpp"], [("df_dx / dg_dx / d2f_dx2 / d2g_dx2", "ocp_to_nlp.hpp")], ["sparse derivative matrices"])

prop("O03", "NLP and trajectory solutions convert back and forth without loss",
 "Converting a program vector and its multipliers to a trajectory solution and back reproduces it exactly, the trajectory interpolates the node values at the node times, and final time, integrals and every multiplier block end up in the right place.",
 ["inputs", "configurations"], "all meshes, problem dimensions and vectors",
 "one round trip with one problem is tested",
 ["ocp_to_nlp.hpp"], [("nlpsol_to_ocpsol / ocpsol_to_nlpsol", "ocp_to_nlp.hpp")], ["trajectory functions and vectors"])

prop("O04", "The QP made from an optimal control problem is its local model",
 "The quadratic program obtained by linearising an optimal control problem around a trajectory has the exact quadratic model of its cost (integral and end point), the exact linearised collocated dynamics (on Lie groups too), and the exact linearised running and end constraints; updating it repeatedly gives the same program as building it anew. Its solution, mapped back, solves the original problem when that problem is linear-quadratic.",
 ["inputs", "histories", "configurations"], "all problems with one integral, linearisation trajectories, meshes, horizons",
 "test_ocp_to_qp.cpp solves one double integrator with only loose checks",
 ["ocp_to_qp.hpp"], [("ocp_to_qp", "ocp_to_qp.hpp"), ("qpsol_to_ocpsol", "ocp_to_qp.hpp")], ["QP matrices, recovered trajectory"])

prop("O05", "Flattening an optimal control problem preserves it and its derivatives",
 "A Lie group optimal control problem flattened around a nominal trajectory takes the same objective, integral and constraint values and describes the same dynamics as the original at the corresponding point, its analytic first and second derivatives are those of its value, and unflattening maps solutions back.",
 ["inputs", "configurations"], "all problems, nominal trajectories with any velocity, deviations within the injectivity radius",
 "one problem with a constant-velocity nominal trajectory is tested (and only if an optional dependency is present)",
 ["ocp_flatten.hpp"], [("FlatDyn / FlatInnerFun / FlatEndptFun", "ocp_flatten.hpp"), ("unflatten_ocpsol", "ocp_flatten.hpp")], ["function values and derivatives"])

prop("O06", "The derivative self-test accepts right and rejects wrong derivatives",
 "The optimal control derivative test returns true for a problem whose analytic derivatives are right and false when any single first or second derivative entry of any of its functions is wrong by more than the tolerance.",
 ["inputs", "programs"], "all problems and all single-entry corruptions of their derivatives",
 "tests only exercise the accepting case",
 ["ocp.hpp"], [("test_ocp_derivatives", "ocp.hpp")], ["returned boolean"])

prop("C01", "MPC returns the input that minimises the documented tracking cost",
 "The input and the predicted state and input trajectories returned by the model-predictive controller solve the documented tracking problem: running state, running input and terminal weights all take effect as configured, the trajectory starts at the current state, follows the linearised dynamics and obeys the running constraints.",
 ["inputs", "configurations"], "all states, desired trajectories, weights, horizons, constraint bounds, time types",
 "test_mpc.cpp checks that calls succeed and that copies are possible, not the optimum",
 ["mpc.hpp", "ocp_to_qp.hpp"], [("MPC::operator()", "mpc.hpp"), ("MPCObj / MPCIntegrand", "mpc.hpp"), ("MPC::set_weights", "mpc.hpp")], ["returned input, code, trajectories"])

prop("C02", "MPC answers depend only on the current configuration",
 "For the same time, state, desired trajectory, weights and parameters the controller returns the same answer irrespective of earlier calls, warm starting, copying or moving, shifting time and trajectories together leaves the answer unchanged, and changing a copy never affects the original.",
 ["histories", "inputs"], "all call histories over a controller and its copies",
 "tests call each method once",
 ["mpc.hpp"], [("warm start handling", "mpc.hpp"), ("shared desired trajectories", "mpc.hpp"), ("time update", "mpc.hpp")], ["returned inputs over histories"])

prop("A01", "The safety filter QP encodes the barrier conditions along the backup flow",
 "The QP built for active set invariance contains, for each of the K equally spaced look-ahead instants, the barrier condition along the backup trajectory with its sensitivity to the current input (to the accuracy of the integration step), the input bounds relative to the desired input, the non-negative relaxation variable and the configured weights. Constraint instants are equally spaced over the horizon whatever the integration step.",
 ["inputs", "configurations"], "all dynamics, barriers, backup controllers, horizons, K, step sizes, input bounds",
 "test_asif.cpp checks that the filter runs for two systems",
 ["asif_func.hpp", "common.hpp"], [("asif_to_qp_update", "asif_func.hpp")], ["QP matrices"])

prop("A02", "The safety filter is minimally invasive and respects its limits",
 "The filtered input equals the desired input when that input is admissible, otherwise it is the closest admissible input in the configured weights (up to the penalised relaxation), it always satisfies the input bounds when the status is optimal, and the answer does not depend on earlier calls.",
 ["inputs", "histories"], "all states, desired inputs, barrier functions, call sequences",
 "tests look at the status of a few calls only",
 ["asif.hpp", "asif_func.hpp"], [("ASIFilter::operator()", "asif.hpp")], ["returned input and status"])

prop("P01", "The PID controller implements its control law over every history",
 "At every call the output is the desired acceleration plus proportional, derivative and integral terms of the tracking error with the configured gains; the integral state accumulates error times elapsed time only when time advances, is clamped component-wise by the windup limit, and is cleared by a reset. Gains, trajectories and copies take effect from the next call on.",
 ["histories", "inputs"], "all sequences of control calls, gain and trajectory changes, resets and copies, all time types, times that repeat or go backwards",
 "test_pid.cpp makes a few calls with one time type",
 ["pid.hpp", "time.hpp"], [("PID::operator()", "pid.hpp")], ["returned input"], [("i_err_", "integral state", "pid.hpp")])

prop("E01", "EKF prediction integrates state and covariance over exactly the given time",
 "Prediction advances the estimate by the dynamics and the covariance by its linearisation over exactly the requested time with sub-steps no longer than the requested maximum, regardless of how the time divides, keeps the covariance symmetric, and uses only the upper triangle of the process covariance. For linear systems it converges to the exact solution as the sub-step shrinks and splitting a prediction in two gives the same result.",
 ["inputs", "histories"], "all dynamics, covariances, durations, sub-steps, steppers",
 "tests check linear systems with zero process noise",
 ["ekf.hpp"], [("EKF::predict", "ekf.hpp")], ["estimate, covariance, times at which the dynamics are evaluated"])

prop("E02", "EKF update is the Bayesian update and never increases uncertainty",
 "A measurement update moves the estimate and covariance to the Kalman posterior for the linearised measurement on the manifold, keeps the covariance symmetric and positive semidefinite and no larger than before, and uses only the upper triangle of the measurement covariance. Estimates of a linear problem do not depend on the order of the measurements.",
 ["inputs", "histories"], "all manifolds, measurement functions and dimensions, correlated covariances, measurement sequences",
 "tests check one Euclidean linear update with diagonal covariances",
 ["ekf.hpp"], [("EKF::update", "ekf.hpp")], ["estimate and covariance"])

prop("I01", "Ipopt results are faithful solutions of the given program",
 "Solving a nonlinear program through the Ipopt bridge with status Optimal returns a point satisfying bounds and constraints, multipliers that make the Lagrangian stationary in the documented convention, and the objective of that point, identically with exact and approximated Hessians; other outcomes map to their status, and warm starting reproduces the solution. Derivative values reach the solver at the positions that were announced.",
 ["inputs", "configurations"], "all programs with and without second derivatives, options, warm starts",
 "Ipopt is tested with one program, only if present",
 ["compat/ipopt.hpp", "nlp.hpp"], [("IpoptNLP callbacks", "compat/ipopt.hpp"), ("solve_nlp_ipopt", "compat/ipopt.hpp")], ["returned solution, recorded callback data"])

prop("B01", "The OSQP bridge hands over the same problem and returns its solution",
 "Solving through the OSQP bridge passes exactly the given cost (upper triangle), constraints, bounds, settings and warm start to OSQP and returns OSQP's primal, dual, objective and status unchanged, without leaking its workspace.",
 ["inputs", "configurations"], "all dense and sparse problems, settings, warm starts and solver outcomes",
 "not tested at all",
 ["compat/osqp.hpp"], [("solve_qp_osqp", "compat/osqp.hpp")], ["data passed to the OSQP C interface"])

prop("R01", "ROS time types behave like the other clock types",
 "ROS time stamps support the same consistent addition and subtraction of seconds as all other time types.",
 ["inputs"], "all ROS time stamps",
 "only compiled if ROS is present",
 ["compat/ros.hpp"], [("time_trait<rclcpp::Time>", "compat/ros.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
