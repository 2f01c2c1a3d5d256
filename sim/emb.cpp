// Generated code: compiled as an embedded user would, loaded, and driven next to the solver it came from.
#ifndef SIM_MKL
#include "emb.h"
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

static std::string exe_dir() {
  char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n < 0) return ".";
  b[n] = 0; std::string s(b); return s.substr(0, s.rfind('/'));
}
static void put(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static int sh(const std::string& cmd) {
  // environment: a sanitised parent must not make the compiler's children behave differently
  int r = system(("export ASAN_OPTIONS= ; " + cmd).c_str());
  return WIFEXITED(r) ? WEXITSTATUS(r) : 128;
}
static const char* FLAGS = "-std=gnu11 -m64 -w -fPIC -fsanitize=address -fno-omit-frame-pointer -ffp-contract=off";
static std::string incs(const std::string& cfg) {
  std::string e = exe_dir() + "/emb/src";
  return " -I" + cfg + " -I" + e + "/inc ";
}
// The library, once per generated configuration
static std::string library(const std::string& config, std::string& err) {
  Hash h; h.str(config);
  char nm[40]; snprintf(nm, sizeof nm, "cfg-%016llx", (unsigned long long)h.h);
  std::string root = exe_dir() + "/emb", d = root + "/" + nm, arch = d + "/lib.a";
  int lk = open((root + "/lock-" + nm).c_str(), O_CREAT | O_RDWR, 0644);
  if (lk >= 0) flock(lk, LOCK_EX);
  if (access((d + "/failed").c_str(), F_OK) == 0) err = slurp(d + "/failed");
  else if (access(arch.c_str(), F_OK)) {
    mkdir(d.c_str(), 0755);
    put(d + "/osqp_configure.h", config);
    std::string cmd = "cd " + d + " && ls " + root + "/src/*.c | xargs -P8 -I{} sh -c 'clang -c -O1 " + std::string(FLAGS) + incs(d) +
      " {} -o $(basename {} .c).o' >log 2>&1 && for o in *.o; do objcopy --redefine-sym malloc=em_malloc --redefine-sym calloc=em_calloc --redefine-sym realloc=em_realloc --redefine-sym free=em_free "
      "--redefine-sym printf=em_printf --redefine-sym puts=em_puts --redefine-sym putchar=em_putchar $o || exit 1; done >>log 2>&1 && rm -f tmp.a && ar rcs tmp.a *.o >>log 2>&1 && mv tmp.a lib.a";
    if (sh(cmd)) { err = slurp(d + "/log").substr(0, 400); if (err.empty()) err = "no message"; put(d + "/failed", err); }
  }
  if (lk >= 0) close(lk);
  return arch;
}
static const char* SHIM = R"(
#include "osqp.h"
#include "@P@workspace.h"
#include "@P@workspace.c"
#include <string.h>
#define S (&@P@solver)
int em_heap = 0;
void* em_malloc(unsigned long n) { (void)n; em_heap++; return 0; }
void* em_calloc(unsigned long n, unsigned long k) { (void)n; (void)k; em_heap++; return 0; }
void* em_realloc(void* p, unsigned long n) { (void)p; (void)n; em_heap++; return 0; }
void em_free(void* p) { (void)p; em_heap++; }
int em_printf(const char* f, ...) { (void)f; return 0; }
int em_puts(const char* f) { (void)f; return 0; }
int em_putchar(int c) { return c; }
static OSQPFloat fa[3][512]; static OSQPInt ia[2][512];
static OSQPFloat* cv(int k, const double* v, int n) { int i; if (!v) return OSQP_NULL; for (i = 0; i < n; i++) fa[k][i] = (OSQPFloat)v[i]; return fa[k]; }
static OSQPInt* ci(int k, const double* v, int n) { int i; if (!v) return OSQP_NULL; for (i = 0; i < n; i++) ia[k][i] = (OSQPInt)v[i]; return ia[k]; }
static OSQPInt N(void) { OSQPInt m, n; osqp_get_dimensions(S, &m, &n); return n; }
static OSQPInt M(void) { OSQPInt m, n; osqp_get_dimensions(S, &m, &n); return m; }
void em_dims(double* d) { d[0] = (double)N(); d[1] = (double)M(); }
int em_heap_uses(void) { return em_heap; }
int em_solve(void) { return (int)osqp_solve(S); }
int em_uvec(const double* q, const double* l, const double* u) { return (int)osqp_update_data_vec(S, cv(0, q, N()), cv(1, l, M()), cv(2, u, M())); }
int em_wstart(const double* x, const double* y) { return (int)osqp_warm_start(S, cv(0, x, N()), cv(1, y, M())); }
void em_cstart(void) { osqp_cold_start(S); }
int em_umat(const double* px, const double* pi, int pn, const double* ax, const double* ai, int an) {
#if OSQP_EMBEDDED_MODE == 2
  return (int)osqp_update_data_mat(S, cv(0, px, pn), ci(0, pi, pn), pn, cv(1, ax, an), ci(1, ai, an), an);
#else
  return -99;
#endif
}
int em_urho(double r) {
#if OSQP_EMBEDDED_MODE == 2
  return (int)osqp_update_rho(S, (OSQPFloat)r);
#else
  return -99;
#endif
}
int em_uset(const double* s) {
  OSQPSettings t; memset(&t, 0, sizeof t);
  t = *S->settings;
@SET@
  return (int)osqp_update_settings(S, &t);
}
void em_sol(double* x, double* y, double* pc, double* dc) {
  int i; OSQPSolution* o = S->solution;
  for (i = 0; i < N(); i++) { x[i] = o->x[i]; dc[i] = o->dual_inf_cert[i]; }
  for (i = 0; i < M(); i++) { y[i] = o->y[i]; pc[i] = o->prim_inf_cert[i]; }
}
void em_info(double* d, char* st) {
  OSQPInfo* I = S->info;
  d[0] = I->status_val; d[1] = I->iter; d[2] = I->obj_val; d[3] = I->dual_obj_val; d[4] = I->prim_res; d[5] = I->dual_res; d[6] = I->duality_gap; d[7] = I->rho_updates;
  strncpy(st, I->status, 31); st[31] = 0;
}
double em_rho(void) { return (double)S->settings->rho; }
)";
static std::string shim(const std::string& pre) {
  std::string s = SHIM;
  std::string set;
  struct { int k; const char* f; } U[] = {{S_WARM, "warm_starting"}, {S_ALPHA, "alpha"}, {S_MAXITER, "max_iter"}, {S_EABS, "eps_abs"}, {S_EREL, "eps_rel"},
    {S_EPINF, "eps_prim_inf"}, {S_EDINF, "eps_dual_inf"}, {S_SCTERM, "scaled_termination"}, {S_CHECK, "check_termination"}, {S_GAP, "check_dualgap"}};
  for (auto& u : U) { char b[120]; snprintf(b, sizeof b, "  t.%s = s[%d];\n", u.f, u.k); set += b; }
  auto rep = [&](const std::string& a, const std::string& b) { for (size_t p; (p = s.find(a)) != std::string::npos;) s.replace(p, a.size(), b); };
  rep("@SET@", set); rep("@P@", pre);
  return s;
}

bool emb_run(const std::map<std::string, std::string>& files, const std::string& dir, const std::string& pre, const std::vector<Op>& ops, std::vector<EmbRec>& out, std::string& err, EmbRec& before) {
  auto it = files.find(dir + "osqp_configure.h");
  if (it == files.end()) { err = "no configuration header"; return false; }
  std::string config = it->second;
  { size_t a = config.find("autogenerated by OSQP on "); if (a != std::string::npos) { size_t b = config.find('\n', a); config.erase(a, b == std::string::npos ? b : b - a); } }
  std::string arch = library(config, err);
  if (!err.empty()) { err = "the library does not compile with the generated configuration: " + err; return false; }
  std::string cfg = arch.substr(0, arch.rfind('/'));
  const char* td = getenv("TMPDIR"); std::string tmpl = std::string(td ? td : "/tmp") + "/osqp-emb-XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
  if (!mkdtemp(tb.data())) { err = ""; return false; }
  std::string d = tb.data();
  for (auto& f : files) { std::string b = f.first.substr(dir.size()); if (b.find('/') == std::string::npos) put(d + "/" + b, f.second); }
  put(d + "/shim.c", shim(pre));
  // workspace and driver as one unit; the example program that was generated is built now and then
  Hash k; k.str(config); for (auto& o : ops) k.str(o.k);
  bool example = k.h % 5 == 0;
  std::string C = "clang " + std::string(FLAGS) + " -O0 -I." + incs(cfg);
  std::string cmd = "cd " + d + " && { " + (example ? C + " -c emosqp.c -o e.o && " : "") + C + " -shared -Wl,-Bsymbolic shim.c " + arch + " -lm -o em.so; } >log 2>&1";
  bool ok = true;
  if (sh(cmd)) { err = slurp(d + "/log").substr(0, 400); ok = false; }
  void* so = nullptr;
  if (ok) { so = dlopen((d + "/em.so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!so) { err = dlerror(); ok = false; } }
  if (DIR* dp = opendir(d.c_str())) {
    while (dirent* e = readdir(dp)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
    closedir(dp); rmdir(d.c_str());
  }
  if (!ok) return false;
#define FN(r, n, ...) r (*n)(__VA_ARGS__) = (r (*)(__VA_ARGS__))dlsym(so, #n)
  FN(void, em_dims, double*); FN(int, em_solve, void); FN(int, em_uvec, const double*, const double*, const double*);
  FN(int, em_wstart, const double*, const double*); FN(void, em_cstart, void); FN(int, em_umat, const double*, const double*, int, const double*, const double*, int);
  FN(int, em_urho, double); FN(int, em_uset, const double*); FN(void, em_sol, double*, double*, double*, double*); FN(void, em_info, double*, char*);
  FN(int, em_heap_uses, void); FN(double, em_rho, void);
#undef FN
  double dm[2]; em_dims(dm);
  size_t n = (size_t)dm[0], m = (size_t)dm[1];
  auto snap = [&](EmbRec& r) {
    V i(8, 0.0); r.x.assign(n, 0); r.y.assign(m, 0); r.pc.assign(m, 0); r.dc.assign(n, 0); char st[40] = {0};
    em_info(i.data(), st); em_sol(r.x.data(), r.y.data(), r.pc.data(), r.dc.data());
    r.status = (i64)i[0]; r.iter = (i64)i[1]; r.obj = i[2]; r.dobj = i[3]; r.pres = i[4]; r.dres = i[5]; r.gap = i[6]; r.rho_updates = (i64)i[7]; r.text = st;
    r.rho = em_rho(); r.heap = em_heap_uses(); r.n = n; r.m = m;
  };
  snap(before);
  for (auto& o : ops) {
    EmbRec r;
    auto P = [&](const char* k) -> const double* { static const double z[1] = {0}; return o.has(k) ? (o.arr(k).empty() ? z : o.arr(k).data()) : nullptr; };
    if (o.k == "solve") r.ret = em_solve();
    else if (o.k == "uvec") r.ret = em_uvec(P("q"), P("l"), P("u"));
    else if (o.k == "umat") r.ret = em_umat(P("Px"), P("Pidx"), (int)o.num("Pn"), P("Ax"), P("Aidx"), (int)o.num("An"));
    else if (o.k == "urho") r.ret = em_urho(o.num("rho"));
    else if (o.k == "wstart") r.ret = em_wstart(P("x"), P("y"));
    else if (o.k == "cstart") em_cstart();
    else if (o.k == "uset") r.ret = em_uset(P("set"));
    snap(r);
    out.push_back(r);
  }
  dlclose(so);
  return true;
}
#endif
