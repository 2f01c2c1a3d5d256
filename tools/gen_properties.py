#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "A solve that reports success really returns an optimal point",
 "Whenever a solve ends with status solved (or solved inaccurate), the returned x and y satisfy, for the problem data then loaded and in the user's own units (in scaled units if scaled termination was requested), the primal, dual and - if enabled - duality-gap tolerances in force, ten times relaxed for the inaccurate status. This holds after any history of updates, warm starts, rho changes, interrupted, timed-out or failed solves on the same solver, for both linear-system solvers.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every convex QP, every settings combination, every sequence of API calls before the solve, and every fault (interrupt, deadline, allocation failure) that hit an earlier call",
 "The tests check about forty fixed problems, nearly all freshly set up and solved once with default scaling; they never combine updates, partial failures, rho changes, indirect solver and a re-solve, and never recompute the residuals from the user's own data.",
 ["src/auxil.c", "src/osqp_api.c", "src/scaling.c", "algebra/_common/kkt.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("check_termination / compute_prim_res / compute_dual_res / tolerances", "src/auxil.c"), ("unscale_solution, store_solution", "src/scaling.c, src/auxil.c")],
 ["osqp_solve", "solver->solution", "osqp_get_solution", "solver->info"],
 [{"name": "data P,q,A,l,u", "meaning": "the scaled copy of the user's problem", "where": "OSQPWorkspace.data"}, {"name": "x,z,y", "meaning": "ADMM iterates", "where": "OSQPWorkspace"}])

prop("C02", "Infeasibility verdicts come with a valid certificate",
 "Whenever a solve reports primal (dual) infeasibility, or its inaccurate variant, the certificate it returns is a normalised vector that proves it for the currently loaded data within the infeasibility tolerance in force (ten times relaxed for the inaccurate variant), the objective is +infinity (-infinity), and x and y are not offered as a solution; and a solve never calls a problem infeasible that has a comfortably strictly feasible bounded optimum. Whenever it reports a solution, no certificate is offered.",
 ["inputs", "histories", "configurations"],
 "all problems (feasible, primal infeasible, dual infeasible), all histories that move one problem between these classes by updates, all settings",
 "The tests use a handful of hand-made infeasible problems on fresh solvers and check mostly the status; they do not verify certificates against the data after updates turned the problem infeasible and back.",
 ["src/auxil.c", "src/scaling.c", "src/osqp_api.c", "algebra/mkl/vector.c"],
 [("is_primal_infeasible / is_dual_infeasible", "src/auxil.c"), ("store_solution certificate branch", "src/auxil.c"), ("project_polar_reccone, in_reccone", "algebra/mkl/vector.c")],
 ["osqp_solve", "solver->solution->prim_inf_cert", "solver->solution->dual_inf_cert", "solver->info->obj_val"])

prop("C03", "The info record agrees with the returned solution and the run",
 "After every solve that returns normally, the reported objective, dual objective, duality gap, primal and dual residual, iteration count, number of rho updates and status text agree with what the returned point, the loaded data and the run that just happened actually give. No field is left over from an earlier solve or an earlier iteration.",
 ["inputs", "histories", "configurations", "schedules"],
 "all problems, settings and call histories, including solves ended by the iteration limit, a deadline, or acceptance of a polished point",
 "Tests compare obj_val and status on fresh solves; stale or inconsistent fields after a second solve, a time limit or a rejected polish are not looked at.",
 ["src/osqp_api.c", "src/auxil.c", "src/polish.c"],
 [("update_info, update_status, reset_info", "src/auxil.c"), ("end of osqp_solve", "src/osqp_api.c")],
 ["solver->info after osqp_solve"])

prop("C04", "Updating a solver is equivalent to setting up a new one",
 "After any sequence of accepted vector, matrix, rho and settings updates, a solver behaves as a freshly set-up solver holding the resulting problem and settings: from the same starting point it produces the same iterates up to rounding (when scaling is off, or was recomputed because a matrix update came after the last change of q), and in any case the same status and solution at convergence. Partial matrix updates by index change exactly the addressed entries, values and order of updates notwithstanding.",
 ["histories", "inputs", "configurations"],
 "all sequences of update calls with full and partial (indexed, permuted, empty) arguments, over all problems, scaling on or off, both linear-system solvers, vector or scalar rho",
 "Tests apply single updates, mostly full replacements with small sigma and scaling on, and compare loosely at convergence; update histories, large sigma, constraint-type changes and their order are not covered.",
 ["src/osqp_api.c", "src/auxil.c", "src/scaling.c", "algebra/_common/kkt.c", "algebra/mkl/matrix.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("osqp_update_data_vec, osqp_update_data_mat, osqp_update_rho, osqp_update_settings", "src/osqp_api.c"), ("update_KKT_P / update_KKT_A / update_KKT_param2", "algebra/_common/kkt.c"), ("update_rho_vec", "src/auxil.c")],
 ["osqp_solve results after updates vs. a fresh osqp_setup"])

prop("C05", "A rejected call leaves no trace",
 "A call that is refused because its arguments are invalid reports an error and changes nothing: every later call gives exactly the results it would have given if the rejected call had never been made, and results already held by the solver stay readable unchanged.",
 ["histories", "inputs"],
 "every position in every call history at which a setup, data, settings, rho, warm-start, solution or matrix call with invalid arguments (inconsistent bounds, bad counts, out-of-range settings, null arguments) is made",
 "Tests check that invalid calls return an error code; they do not compare the rest of the history with and without the rejected call.",
 ["src/osqp_api.c", "src/auxil.c", "src/error.c"],
 [("validate_data, validate_settings", "src/auxil.c"), ("early returns in osqp_update_*", "src/osqp_api.c")],
 ["return codes", "all later results"])

prop("C06", "The time limit is honoured, never early and never late",
 "With a positive time limit, a solve whose elapsed time (setup time plus solve time on the first solve, update time plus solve time later) has reached the limit performs at most one more main iteration and then ends with the time-limit status, or another verdict that is true for the data; a solve whose elapsed time stays below the limit never reports it, and a limit left unset never stops a solve. What is returned is the current state of the algorithm, described consistently.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "every timing of every step - stalls and slow linear solves at any point, repeated solves, update time accumulated before a solve - and every limit",
 "The tests run one problem with a tiny limit on the real clock; where the limit falls relative to iterations, updates and re-solves is outside their control.",
 ["src/osqp_api.c", "src/timing_linux.c"],
 [("temp_run_time >= settings->time_limit", "src/osqp_api.c"), ("osqp_tic/osqp_toc", "src/timing_linux.c")],
 ["solver->info->status_val", "number of linear solves after the deadline", "solver->info->run_time"],
 [{"name": "clear_update_time, first_run", "meaning": "which accumulated time counts", "where": "OSQPWorkspace"}])

prop("C07", "An interrupt stops the solve promptly and leaves no trace",
 "An interrupt signal arriving at any instant while a solve is running ends that solve within one main iteration with the interrupted status (or, if it arrived after the last iteration, leaves the finished result intact); the process's previous signal handler is back in place when any solve returns, however it ended, and is used again for later signals. The interrupted solver remains usable: the next solve is not affected by the old signal and is truthful.",
 ["schedules", "crash_points", "histories"],
 "every point of a solve (including set-up of the listener, polishing, rho adaptation and result storage) at which a signal may land, every handler installed before, and every later history",
 "No test delivers a signal at all.",
 ["src/interrupt_unix.c", "src/osqp_api.c"],
 [("osqp_start_interrupt_listener / osqp_end_interrupt_listener / osqp_is_interrupted", "src/interrupt_unix.c"), ("exit path of osqp_solve", "src/osqp_api.c")],
 ["osqp_solve return value and status", "sigaction state before and after"])

prop("C08", "A failed memory allocation is reported and survivable",
 "If any single memory request made during an API call fails (or all requests from some point on fail), the call returns an error or completes correctly; it never crashes, never touches memory it does not own, and never reports a result that is not true. After a failed setup the documented cleanup call releases everything; after a failed solve or update the solver can still be solved again truthfully or cleaned up.",
 ["fault_sequences", "crash_points", "inputs"],
 "every allocation point of every API call for every problem shape (with and without constraints, scaling, vector rho, solution storage, polishing), one-shot and persistent failures, both linear-system solvers",
 "No test makes an allocation fail.",
 ["src/osqp_api.c", "src/polish.c", "src/auxil.c", "src/util.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/_common/kkt.c", "algebra/_common/csc_utils.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("null checks after c_malloc / c_calloc and the OSQP_MEM_ALLOC_ERROR returns", "src/osqp_api.c"), ("osqp_cleanup of a partially built solver", "src/osqp_api.c")],
 ["return codes", "heap state after cleanup", "invalid accesses"])

prop("C09", "Everything acquired is released, exactly once",
 "After a solver has been cleaned up, every block of memory, matrix handle, factorisation and open file that any call on it acquired has been released exactly once, whatever the call history and however its solves and updates ended; a solve on a set-up solver does not grow the memory it holds. No API call reads or writes outside the memory it was given or acquired.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all call histories ending in cleanup, including rejected calls, failed setups, polishing in every outcome, interrupts and deadlines",
 "The tests run without leak or bounds checking and check no handle balance of the numerical library.",
 ["src/osqp_api.c", "src/polish.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "algebra/_common/csc_utils.c", "algebra/_common/kkt.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("osqp_cleanup", "src/osqp_api.c"), ("free_linsys_solver_*", "algebra/mkl/lin_sys"), ("local frees in polish", "src/polish.c")],
 ["allocation ledger", "matrix and factorisation handle ledger"])

prop("C10", "Solvers running concurrently do not affect each other",
 "Distinct solvers used from distinct threads at the same time each give exactly the results, reported data and return codes they give when run alone, for every interleaving of their calls; an interrupt is seen by the solves in progress only, and the application's signal handler is restored once no solve is running.",
 ["schedules", "histories"],
 "every interleaving of setup, solve, update, warm start, polish and cleanup of two or more solvers on separate threads, preemption anywhere inside a call",
 "All tests are single-threaded with one solver at a time.",
 ["src/osqp_api.c", "src/interrupt_unix.c", "src/auxil.c", "src/polish.c", "src/util.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/mkl/algebra_libs.c"],
 [("all solver state is reached through the solver handle", "include/private/types.h"), ("global interrupt flag and saved handler", "src/interrupt_unix.c")],
 ["results of each thread alone vs interleaved", "signal disposition"])

prop("C11", "Results depend only on the inputs",
 "The same sequence of calls with the same arguments gives bit-for-bit the same results, whatever the memory returned by the allocator held before and wherever it lies, whatever the clock shows, whatever other solvers exist or were used before in the process, and whether or not progress printing is on - except where the user explicitly made the run depend on time.",
 ["inputs", "histories", "schedules", "configurations"],
 "all call histories; all heap contents and placements, all clock readings and rates, printing on or off, prior unrelated solvers",
 "Tests cannot vary heap contents, addresses or clock, and never compare two runs bit by bit.",
 ["src/osqp_api.c", "src/auxil.c", "src/util.c", "src/polish.c", "src/scaling.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/_common/kkt.c", "algebra/_common/csc_utils.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("explicit initialisation of workspace", "src/osqp_api.c"), ("printing reads info only", "src/util.c")],
 ["x, y, certificates and info compared bitwise across perturbed executions"])

prop("C12", "Reported times account for the time that passed",
 "Setup, solve, update and polish times are each non-negative and equal the time their phase took on the monotonic clock; the total equals setup (first solve) or update (later solves) plus solve plus polish time of this solve, and counts every update or rho-change call made since the previous solve exactly once. Changes of the wall clock have no effect.",
 ["schedules", "histories", "inputs"],
 "all histories of updates and solves (also after interrupted, timed-out or rejected calls), arbitrary delays inside any phase, arbitrary jumps of the wall clock",
 "The tests assert only that times are positive or zero on the real clock.",
 ["src/osqp_api.c", "src/polish.c", "src/timing_linux.c", "src/auxil.c"],
 [("osqp_tic / osqp_toc with CLOCK_MONOTONIC", "src/timing_linux.c"), ("update_time accumulation and clearing", "src/osqp_api.c")],
 ["solver->info->{setup,solve,update,polish,run}_time against simulated time"])

prop("C13", "The caller keeps ownership of what it passes in",
 "Every array, matrix and settings record passed to an API call is only read: it is unchanged when the call returns, and it may be overwritten or freed right afterwards without affecting any later result. Results written to caller-provided storage stay within the documented lengths.",
 ["histories", "inputs"],
 "every argument of every call in every history, overwritten and freed immediately after the call",
 "Tests keep all inputs alive and constant for the solver's whole life.",
 ["src/osqp_api.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "src/util.c", "algebra/_common/csc_utils.c"],
 [("deep copies in osqp_setup", "src/osqp_api.c"), ("copy_settings", "src/util.c"), ("OSQPMatrix_new_from_csc copies", "algebra/mkl/matrix.c")],
 ["argument checksums", "results after scribbling over arguments"])

prop("C14", "Starting points and solution reads do what they say",
 "With warm starting off, or after a cold start, a solve starts from zero: its result does not depend on any earlier solve, warm start or interruption (given the same data, settings and rho). A warm start makes the next solve start from exactly the given point: started at a solution it ends at that solution at the first termination check. Reading the solution never changes the solver, can be repeated with the same result, and - read before any further call that changes the solver - equals the solver's own stored solution (certificates up to the rounding of a normalisation).",
 ["histories", "inputs", "configurations"],
 "all histories before the cold start; all warm-start points given as x only, y only or both; any number and position of solution reads",
 "Tests warm-start one problem at its optimum and never compare cold-started re-solves bitwise or read solutions between calls.",
 ["src/osqp_api.c", "src/auxil.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
 [("osqp_warm_start, osqp_cold_start, osqp_get_solution", "src/osqp_api.c"), ("store_solution copies before unscaling", "src/auxil.c")],
 ["x, y, info->iter after cold/warm started solves", "osqp_get_solution output"])

prop("C15", "Polishing never makes the answer worse",
 "Switching polishing on does not change the algorithm's path, iterations or status; a point is reported as polished only if its actual residuals are not worse than those of the unpolished point and still meet the tolerances, and otherwise exactly the unpolished point and its info are returned. A failure inside polishing (factorisation error, failed allocation) leaves a truthful unpolished result and a solver that works as before.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "all problems (degenerate, no active constraints, all active, unbounded sides), all delta and refinement settings, faults at any step of the polish, earlier polished solves on the same solver",
 "Tests check a few successful polishes; failed, skipped or faulty polishing and re-solves after it are not compared with the run without polishing.",
 ["src/polish.c", "src/osqp_api.c", "src/auxil.c"],
 [("form_Ared, form_rhs_red, iterative_refinement, acceptance test in polish", "src/polish.c")],
 ["solver->info->status_polish", "x,y with polishing on and off"])

prop("C16", "A failing linear-system solver never yields a false answer",
 "If the underlying factorisation or linear solve fails or stalls at any point (error codes, wrong inertia, exhausted iterations), the API call reports an error or the solve ends with a status that is true for the loaded data; a problem whose objective is so non-convex that the factorisation has the wrong inertia is reported as such at setup rather than solved. Afterwards the solver can be cleaned up, and once the failures stop, updated and solved truthfully.",
 ["fault_sequences", "inputs", "histories"],
 "every call into the numerical library, failing one-shot or persistently, at setup, solve, rho update, matrix update or polish, for every problem",
 "The tests never see the numerical library fail.",
 ["algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "src/auxil.c", "src/polish.c", "src/osqp_api.c"],
 [("error checks after pardiso phases 11/22/33", "algebra/mkl/lin_sys/direct/pardiso_interface.c"), ("dcg return request handling", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"), ("exitflag propagation from adapt_rho / update_rho / update_matrices", "src/osqp_api.c")],
 ["return codes, status, residuals recomputed from the data"])

prop("C17", "Solves are bounded and make progress once disturbances stop",
 "Every solve performs at most the configured number of iterations, checks termination at the configured interval and stops at the first check at which its criteria are met; adaptive rho changes happen only at the configured interval, keep rho within its limits and are counted. A solver disturbed by interrupts, deadlines, rejected calls, failed allocations or extreme rho values, once the disturbance has stopped and it is cold-started with a moderate rho, reaches the verdict an undisturbed solver with the same data, settings and rho reaches, in a bounded multiple of the iterations that one needs (never a false verdict, and never stuck where the undisturbed one is not).",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "all settings of iteration, termination and adaptation intervals (including time-based adaptation under any clock behaviour) and all finite fault sequences followed by quiet",
 "Tests run undisturbed solves to convergence with default intervals only.",
 ["src/osqp_api.c", "src/auxil.c"],
 [("main loop of osqp_solve", "src/osqp_api.c"), ("adapt_rho, compute_rho_estimate", "src/auxil.c")],
 ["solver->info->iter, rho_updates, rho_estimate", "number of linear solves and factorisations"])

prop("C18", "Code generation reports every I/O failure",
 "Generating code either reports success and leaves a complete set of files whose contents equal those of an undisturbed generation, or reports an error; no failed open, short or failed write, full disk or failed close goes unreported, every opened file is closed, and the generating solver is unaffected either way.",
 ["fault_sequences", "crash_points", "inputs"],
 "every file operation of a code generation failing once or from some point on, for every problem and generation option",
 "The tests generate code on a healthy file system only, and not in this build configuration.",
 ["src/codegen.c", "src/osqp_api.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c"],
 [("codegen_inc, codegen_src, codegen_example and write_* helpers", "src/codegen.c")],
 ["osqp_codegen return code", "file contents"])

prop("C19", "Generated code restarts the solver it was generated from",
 "The generated sources compile, and the solver they contain - the only state that survives from the generating process - continues exactly as the original would from a cold start: the same iterates, status and solution on the same data, and after the same permitted updates.",
 ["inputs", "histories", "crash_points"],
 "all problems and settings, generation at any point of a call history, both embedded modes",
 "Tests generate a few fixed problems and do not compare the generated solver with its source solver after a history of updates and rho changes.",
 ["src/codegen.c", "src/osqp_api.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c"],
 [("write_settings, write_data, write_scaling, write_linsys, write_workspace", "src/codegen.c")],
 ["generated program's output vs the library's"])

prop("C20", "Derivative queries observe, they do not disturb",
 "Computing adjoint derivatives after a solve leaves the stored solution and all later solves unchanged, can be repeated with the same result, releases what it acquires even if an allocation in it fails, and reports an error when there is no solution to differentiate.",
 ["histories", "fault_sequences", "inputs"],
 "all histories that interleave derivative calls with solves, updates and rejected calls, with an allocation failing at any point",
 "Tests call the derivative functions once on fresh solves and not in this build configuration.",
 ["src/derivative.c", "src/osqp_api.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c"],
 [("adjoint_derivative_compute and the get_mat/get_vec readers", "src/derivative.c")],
 ["osqp_adjoint_derivative_* results", "later osqp_solve results"])

prop("C21", "Derivative values equal the true sensitivities",
 "At a non-degenerate solution the adjoint derivatives returned for P, q, A, l and u equal the derivatives of the solution with respect to those data contracted with the given direction.",
 ["inputs"], "all non-degenerate problems and directions",
 "Tests compare a few fixed problems with finite differences.",
 ["src/derivative.c"], [("adjoint_derivative_compute", "src/derivative.c")], ["osqp_adjoint_derivative_get_mat/get_vec"])

prop("C22", "Sparse-matrix and vector helpers match dense arithmetic",
 "Every sparse-matrix and vector helper (products, norms, stacking, triangle extraction, permutation, row selection) returns what the same operation on dense arrays returns, also for empty matrices, empty rows and columns.",
 ["inputs"], "all shapes and sparsity patterns",
 "Tests use a few fixed matrices.",
 ["algebra/_common/csc_math.c", "algebra/_common/csc_utils.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c"], [("csc_* and OSQPMatrix_* / OSQPVectorf_* functions", "algebra/")], ["function results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
