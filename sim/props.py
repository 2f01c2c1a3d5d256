"""What each check runs and how it is described."""
E_ = "exploration"
F_ = "fault_enumeration"
SPEC = {
 "C01": dict(level=E_, judge="recomputing every residual, gap and tolerance from the data the reference model says is loaded"),
 "C02": dict(level=E_, judge="verifying each certificate against the data the reference model says is loaded"),
 "C03": dict(level=E_, judge="recomputing the info record from the returned point, the data and the recorded linear-system calls, and against a twin solver stopped at the same iteration"),
 "C04": dict(level=E_, judge="refinement against a freshly set-up solver that holds the data and settings of the reference model"),
 "C05": dict(level=E_, judge="comparing the history with the same history without its rejected calls"),
 "C06": dict(level=E_, judge="the simulated clock at each recorded linear solve against the limit in force"),
 "C07": dict(level=F_, judge="the record of signal delivery, main iterations after it and the signal table before and after"),
 "C08": dict(level=F_, judge="every allocation of the history failing in turn (once, or all from there on), with memory ledger and truth of later results"),
 "C09": dict(level=F_, judge="the ledger of blocks, matrix handles and factorisations after the last cleanup, redzones and AddressSanitizer"),
 "C10": dict(level=E_, judge="comparing every thread's results under an explicit interleaving with the same thread's calls run alone"),
 "C11": dict(level=E_, judge="bitwise comparison of the run with the same plan in another environment (heap contents, placement, clock, printing, other solvers)"),
 "C12": dict(level=E_, judge="bounding every reported time by the simulated time its phase took"),
 "C13": dict(level=E_, judge="checksums of the caller's memory and comparison of runs with and without overwriting it after each call"),
 "C14": dict(level=E_, judge="comparison of cold- and warm-started solves with histories reduced to the data, and of reads with the stored solution"),
 "C15": dict(level=E_, judge="comparison with the same plan with polishing off, and residuals recomputed from the data"),
 "C16": dict(level=F_, judge="every numerical-library call failing in turn, with the truth of every later result recomputed from the data"),
 "C17": dict(level=E_, judge="the recorded iteration, check and adaptation schedule, twins stopped at earlier checks, and bounded recovery"),
 "C18": dict(level=F_, variants=[("builtin", 8)], judge="every file operation and allocation of a code generation failing in turn (once, short, or all from there on): return code, the files left against those of an undisturbed generation, open handles, and the solver's later results"),
 "C19": dict(level=E_, variants=[("builtin", 8)], judge="compiling the files the generation left in the simulated file system against the embedded library of the working tree, and driving the exported solver and the original through the same calls, bit for bit"),
 "C20": dict(level=F_, variants=[("builtin", 8)], judge="allocations of derivative calls failing at random points of a history: return codes, memory ledger, the solver before and after each call, and comparison with the same history without the faults, in another environment, and without the derivative calls"),
 "C21": dict(level=E_, variants=[("builtin", 8)], judge="after any history of solves, updates, rejected calls and faults, comparison of the derivatives with an exact solution of the adjoint equations of the problem the reference model says is loaded"),
 "C23": dict(level=F_, judge="solves stopped at chosen points (iteration and time limits, signals, failing linear solves) and resumed, against the same solve left alone, bit for bit"),
 "C24": dict(level=E_, judge="the captured log of every call against the info record, the settings in force and, row by row, the same solve stopped at that iteration"),
}


def variants(pid):
    return SPEC[pid].get("variants", [("mkl", 6), ("builtin", 2)])



REAL = {"mkl": ["all of src/*.c except code generation and derivatives (not part of the pinned build)", "algebra/_common", "algebra/mkl",
                "Intel MKL: PARDISO, RCI CG, sparse and dense BLAS (sequential, MKL_CBWR=COMPATIBLE)", "POSIX threads (one runs at a time, chosen by the simulator)"],
        "builtin": ["built-in backend: all of src/*.c for Linux including code generation and derivatives, algebra/_common, algebra/builtin, the QDLDL interface, AMD",
                    "code that generation emits, compiled with clang against the embedded sources (C19)"]}
STUBS = {"mkl": ["heap (simulated arena with fault injection)", "clocks", "signal table and delivery", "thread scheduling", "stdout"],
         "builtin": ["heap (simulated arena with fault injection)", "clocks", "signal table and delivery", "thread scheduling", "stdout",
                     "file system (in memory, with fault injection)", "QDLDL (fetched from the network by the real build): an LDL stand-in with the same interface"]}
ASSUMPTIONS = ["MKL computes deterministically in sequential COMPATIBLE mode and touches no state outside its handles",
               "thread preemption is at compiler-level edges of OSQP code and at calls that leave it, one thread at a time (sequential consistency)",
               "problems are small (mostly up to six variables and eight rows, sometimes twenty and twenty-five); nothing in the judged properties depends on size"]
