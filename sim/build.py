#!/usr/bin/env python3
"""Build the simulator from /repo's working tree.  Usage: build.py [mkl|builtin]  -> prints the path of the binary."""
import concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
VENV = "/opt/vp/venv"
OUT = os.environ.get("SIM_BUILD_DIR", os.path.join(VERIF, "build"))

RENAME = """clock_gettime gettimeofday time clock nanosleep usleep sigaction signal sigprocmask raise malloc calloc
realloc free PARDISO dcg dcg_init dcg_check mkl_sparse_d_create_csc mkl_sparse_destroy mkl_sparse_d_mv printf puts putchar
fopen fclose fprintf fputs fputc fwrite fflush ferror remove rand""".split()
RENAME += """putc _IO_putc setvbuf ftell unlink strdup posix_memalign aligned_alloc timespec_get sched_yield pthread_yield
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_once
mtx_lock mtx_trylock mtx_unlock thrd_yield call_once""".split()
RENAME += "pthread_sigmask MKL_malloc MKL_calloc MKL_free mkl_malloc mkl_calloc mkl_free pardiso DCG DCG_INIT DCG_CHECK vprintf vfprintf perror abort".split()

CONFIG_MKL = """#ifndef OSQP_CONFIGURE_H
#define OSQP_CONFIGURE_H
#define IS_LINUX
#define OSQP_ALGEBRA_MKL
#define OSQP_ENABLE_PRINTING
#define OSQP_ENABLE_PROFILING
#define OSQP_ENABLE_INTERRUPT
#define OSQP_USE_LONG
#define OSQP_CUSTOM_MEMORY "sim_memory.h"
#define OSQP_CUSTOM_PRINTING "sim_print.h"
#endif
"""
CONFIG_BUILTIN = CONFIG_MKL.replace("OSQP_ALGEBRA_MKL", "OSQP_ALGEBRA_BUILTIN").replace(
    "#define OSQP_USE_LONG", "#define OSQP_USE_LONG\n#define OSQP_CODEGEN\n#define OSQP_ENABLE_DERIVATIVES")
EXCL = ("interrupt_windows.c", "timing_macos.c", "timing_windows.c", "profilers_itt.c",
        "profilers_nvtx.c", "profilers_omnitrace.c", "profilers_roctx.c", "profilers_terminal.c", "profilers_impl.c")


def sources(variant):
    ex = EXCL + (("codegen.c", "derivative.c") if variant == "mkl" else ())
    s = [f for f in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(f) not in ex]
    s += sorted(glob.glob(REPO + "/algebra/_common/*.c"))
    if variant == "mkl":
        return s + sorted(glob.glob(REPO + "/algebra/mkl/**/*.c", recursive=True))
    # the default backend; QDLDL itself is fetched at configure time by the real build, so an LDL stand-in takes its place
    s += sorted(glob.glob(REPO + "/algebra/_common/lin_sys/qdldl/**/*.c", recursive=True))
    s += sorted(glob.glob(REPO + "/algebra/builtin/**/*.c", recursive=True))
    return s + [SIM + "/ldl/qdldl.c"]


def key_of(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def all_inputs():
    ins = []
    for d in ("src", "include", "algebra"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            ins += [os.path.join(r, f) for f in fs if f.endswith((".c", ".h", ".in"))]
    sim = [f for f in glob.glob(SIM + "/*.cpp") + glob.glob(SIM + "/*.h") + glob.glob(SIM + "/seam/*.h") + glob.glob(SIM + "/ldl/*.[ch]") + [os.path.abspath(__file__)]]
    return ins, sim


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)


def build(variant="mkl"):
    mkl = variant == "mkl"
    config = CONFIG_MKL if mkl else CONFIG_BUILTIN
    ins, sim = all_inputs()
    cflags = ["-O1", "-g", "-fno-omit-frame-pointer", "-DNDEBUG", "-m64", "-w"]
    san = ["-fsanitize=address"]
    cov = ["-fsanitize-coverage=trace-pc-guard"]
    k = key_of(ins + sim, " ".join(cflags + san + cov) + config)
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, k)
    exe = os.path.join(final, "osqpsim")
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe):
        return exe
    # keep the build folder small: drop old builds
    old = sorted((os.path.join(OUT, d) for d in os.listdir(OUT) if not d.startswith(".")), key=os.path.getmtime)
    for d in old[:-5]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix=".b", dir=OUT)
    open(tmp + "/osqp_configure.h", "w").write(config)
    with open(tmp + "/redefine.txt", "w") as f:
        for s in RENAME: f.write(f"{s} sim_{s}\n")
    inc = ["-I" + tmp, "-I" + SIM + "/seam"] + ["-I" + REPO + p for p in
           ["/include/public", "/include/private", "/algebra/_common", "/algebra/_common/lin_sys"] + (
           ["/algebra/mkl", "/algebra/mkl/lin_sys/direct", "/algebra/mkl/lin_sys/indirect"] if mkl else
           ["/algebra/builtin", "/algebra/_common/lin_sys/qdldl", "/algebra/_common/lin_sys/qdldl/amd/include"])]
    if mkl:
        inc += ["-isystem", VENV + "/include"]
        cflags += ["-DMKL_ILP64", "-DMKL_LINK_SDL=1"]
    else:
        inc.insert(0, "-I" + SIM + "/ldl")
        cflags += ["-DSIM_LDL_EVENTS"]
    jobs = []
    objs = []
    srcs = sources(variant)
    # seams compile with the renaming applied afterwards
    def cc(f, i):
        o = f"{tmp}/c{i}_{os.path.basename(f)}.o"
        run(["clang", "-c", "-std=gnu11"] + cflags + san + cov + inc + [f, "-o", o])
        run(["objcopy", "--redefine-syms=" + tmp + "/redefine.txt", o])
        # the library's writable globals go to sections of their own: every simulated run starts with their initial values
        secs = set(re.findall(r"^\s*\d+\s+(\.(?:data|bss)\S*)\s", subprocess.run(["objdump", "-h", o], capture_output=True, text=True).stdout, re.M))
        ren = []
        for x in sorted(secs):
            if x.startswith(".data.rel.ro"): continue
            ren += ["--rename-section", x + ("=osqpdata,alloc,load,data,contents" if x.startswith(".data") else "=osqpbss,alloc,load,data,contents")]
        if ren: run(["objcopy"] + ren + [o])
        return o
    def cxx(f):
        o = f"{tmp}/s_{os.path.basename(f)}.o"
        # the simulator itself is optimised and uninstrumented (it must be able to look everywhere)
        run(["clang++", "-c", "-std=c++17", "-O2", "-g", "-Wall", "-Wextra", "-m64", "-DSIM_WITH_ASAN"] + (["-DMKL_ILP64", "-DSIM_MKL"] if mkl else []) + inc + [f, "-o", o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cc, f, i) for i, f in enumerate(srcs)] + [ex.submit(cxx, f) for f in sorted(glob.glob(SIM + "/*.cpp"))]
        objs = [x.result() for x in fs]
    run(["clang++", "-fsanitize=address", "-g"] + objs + ["-o", tmp + "/osqpsim"] +
        ([VENV + "/lib/libmkl_rt.so.2", "-Wl,-rpath," + VENV + "/lib"] if mkl else []) + ["-lm", "-ldl", "-lpthread"])
    for o in objs: os.unlink(o)
    if not mkl:
        # what the real build copies next to generated code
        e = tmp + "/emb/src"
        os.makedirs(e + "/inc")
        hs = glob.glob(REPO + "/include/public/*.h") + glob.glob(REPO + "/include/private/*.h") + glob.glob(REPO + "/algebra/builtin/*.h") + \
            glob.glob(REPO + "/algebra/_common/*.h") + glob.glob(REPO + "/algebra/_common/lin_sys/qdldl/*.h") + glob.glob(SIM + "/ldl/*.h")
        cs = [REPO + "/src/" + x + ".c" for x in ("auxil", "error", "osqp_api", "scaling", "util")] + glob.glob(REPO + "/algebra/builtin/*.c") + \
            [x for x in glob.glob(REPO + "/algebra/_common/*.c") if "reduced" not in x] + glob.glob(REPO + "/algebra/_common/lin_sys/qdldl/*.c") + [SIM + "/ldl/qdldl.c"]
        for h in hs:
            if os.path.basename(h) != "osqp_configure.h": shutil.copy(h, e + "/inc")
        for x in cs: shutil.copy(x, e)
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["mkl"]:
        print(build(v))
