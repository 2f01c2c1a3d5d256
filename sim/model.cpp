// Plan text format, settings, problem generator.
#include "sim.h"
#include <cmath>
#include <cstring>
#include <sstream>
#include <algorithm>

// ------------------------------------------------------------------ settings -------------------
Set default_set() {
  OSQPSettings s; memset(&s, 0, sizeof s);
  osqp_set_default_settings(&s);
  s.verbose = 0;
  return set_from_osqp(&s);
}
void set_to_osqp(const Set& s, OSQPSettings* o) {
  memset(o, 0, sizeof *o);
  o->linsys_solver = (enum osqp_linsys_solver_type)(int)s[S_LINSYS];
  o->allocate_solution = (OSQPInt)s[S_ALLOCSOL]; o->verbose = (OSQPInt)s[S_VERBOSE]; o->profiler_level = (OSQPInt)s[S_PROFILER];
  o->warm_starting = (OSQPInt)s[S_WARM]; o->scaling = (OSQPInt)s[S_SCALING]; o->polishing = (OSQPInt)s[S_POLISH];
  o->rho = s[S_RHO]; o->rho_is_vec = (OSQPInt)s[S_RHOVEC]; o->sigma = s[S_SIGMA]; o->alpha = s[S_ALPHA];
  o->cg_max_iter = (OSQPInt)s[S_CGMAX]; o->cg_tol_reduction = (OSQPInt)s[S_CGRED]; o->cg_tol_fraction = s[S_CGFRAC];
  o->cg_precond = (osqp_precond_type)(int)s[S_CGPREC];
  o->adaptive_rho = (OSQPInt)s[S_AR]; o->adaptive_rho_interval = (OSQPInt)s[S_ARINT]; o->adaptive_rho_fraction = s[S_ARFRAC];
  o->adaptive_rho_tolerance = s[S_ARTOL]; o->max_iter = (OSQPInt)s[S_MAXITER]; o->eps_abs = s[S_EABS]; o->eps_rel = s[S_EREL];
  o->eps_prim_inf = s[S_EPINF]; o->eps_dual_inf = s[S_EDINF]; o->scaled_termination = (OSQPInt)s[S_SCTERM];
  o->check_termination = (OSQPInt)s[S_CHECK]; o->check_dualgap = (OSQPInt)s[S_GAP]; o->time_limit = s[S_TLIM];
  o->delta = s[S_DELTA]; o->polish_refine_iter = (OSQPInt)s[S_REFINE]; o->device = (OSQPInt)s[S_DEVICE];
}
Set set_from_osqp(const OSQPSettings* o) {
  Set s(S_N, 0.0);
  s[S_LINSYS] = (double)o->linsys_solver; s[S_ALLOCSOL] = (double)o->allocate_solution; s[S_VERBOSE] = (double)o->verbose;
  s[S_PROFILER] = (double)o->profiler_level; s[S_WARM] = (double)o->warm_starting; s[S_SCALING] = (double)o->scaling;
  s[S_POLISH] = (double)o->polishing; s[S_RHO] = o->rho; s[S_RHOVEC] = (double)o->rho_is_vec; s[S_SIGMA] = o->sigma;
  s[S_ALPHA] = o->alpha; s[S_CGMAX] = (double)o->cg_max_iter; s[S_CGRED] = (double)o->cg_tol_reduction; s[S_CGFRAC] = o->cg_tol_fraction;
  s[S_CGPREC] = (double)o->cg_precond; s[S_AR] = (double)o->adaptive_rho; s[S_ARINT] = (double)o->adaptive_rho_interval;
  s[S_ARFRAC] = o->adaptive_rho_fraction; s[S_ARTOL] = o->adaptive_rho_tolerance; s[S_MAXITER] = (double)o->max_iter;
  s[S_EABS] = o->eps_abs; s[S_EREL] = o->eps_rel; s[S_EPINF] = o->eps_prim_inf; s[S_EDINF] = o->eps_dual_inf;
  s[S_SCTERM] = (double)o->scaled_termination; s[S_CHECK] = (double)o->check_termination; s[S_GAP] = (double)o->check_dualgap;
  s[S_TLIM] = o->time_limit; s[S_DELTA] = o->delta; s[S_REFINE] = (double)o->polish_refine_iter; s[S_DEVICE] = (double)o->device;
  return s;
}
static bool b01(double v) { return v == 0 || v == 1; }
bool set_valid(const Set& s, bool su) {
  if (su) {
#ifdef SIM_MKL
    if (s[S_LINSYS] != OSQP_DIRECT_SOLVER && s[S_LINSYS] != OSQP_INDIRECT_SOLVER) return false;
#else
    if (s[S_LINSYS] != OSQP_DIRECT_SOLVER) return false;      // the built-in algebra has no indirect solver
#endif
    if (!b01(s[S_ALLOCSOL]) || s[S_SCALING] < 0 || s[S_RHO] <= 0 || !b01(s[S_RHOVEC]) || s[S_SIGMA] <= 0) return false;
    if (s[S_AR] < 0 || s[S_AR] > 3 || s[S_ARINT] < 0 || s[S_ARFRAC] <= 0 || s[S_ARTOL] < 1) return false;
  }
  if (!b01(s[S_VERBOSE]) || s[S_PROFILER] < 0 || s[S_PROFILER] > 2 || !b01(s[S_WARM]) || !b01(s[S_POLISH])) return false;
  if (s[S_CGPREC] != OSQP_NO_PRECONDITIONER && s[S_CGPREC] != OSQP_DIAGONAL_PRECONDITIONER) return false;
  if (s[S_ALPHA] <= 0 || s[S_ALPHA] >= 2 || s[S_CGMAX] <= 0 || s[S_CGRED] <= 0 || s[S_CGFRAC] <= 0 || s[S_CGFRAC] >= 1) return false;
  if (s[S_MAXITER] <= 0 || s[S_EABS] < 0 || s[S_EREL] < 0 || (s[S_EABS] == 0 && s[S_EREL] == 0) || s[S_EPINF] <= 0 || s[S_EDINF] <= 0) return false;
  if (!b01(s[S_SCTERM]) || s[S_CHECK] < 0 || !b01(s[S_GAP]) || s[S_TLIM] <= 0 || s[S_DELTA] <= 0 || s[S_REFINE] < 0) return false;
  return true;
}
void set_update(Set& c, const Set& n) {
  for (int k : {S_PROFILER, S_VERBOSE, S_WARM, S_POLISH, S_ALPHA, S_CGMAX, S_CGRED, S_CGFRAC, S_CGPREC, S_MAXITER, S_EABS, S_EREL,
                S_EPINF, S_EDINF, S_SCTERM, S_CHECK, S_GAP, S_TLIM, S_DELTA, S_REFINE})
    c[k] = n[k];
}

// ------------------------------------------------------------------ plan text ------------------
static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string arr(const V& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += num(v[i]); }
  return s + "]";
}
std::string case_text(const Case& c) {
  std::ostringstream o;
  o << "case " << c.prop << " " << (c.sub.empty() ? "-" : c.sub) << "\n";
  for (auto& p : c.par) o << "par " << p.first << " " << num(p.second) << "\n";
  const rt::Cfg& g = c.plan.cfg;
  o << "cfg " << g.poison << " " << g.poison_mode << " " << g.pad << " " << g.padseed << " " << g.edge_ns << " " << g.ls_ns << " " << g.fac_ns
    << " " << g.clk_ns << " " << g.mono_base << " " << g.wall_off; if (g.inf) o << " " << g.inf; o << "\n";
  o << "threads " << c.plan.nth << "\n";
  if (!c.plan.sched.empty()) {
    o << "sched";
    for (auto& s : c.plan.sched) o << " " << s.th << ":" << s.k;
    o << "\n";
  }
  for (auto& op : c.plan.ops) {
    o << "op " << op.k << " th=" << op.th << " slot=" << op.slot;
    for (auto& kv : op.v) o << " " << kv.first << "=" << arr(kv.second);
    const rt::Faults& f = op.f;
    if (f.alloc_at >= 0) o << " !alloc=" << f.alloc_at << ":" << f.alloc_persist;
    if (f.sig_edge >= 0) o << " !sig_edge=" << f.sig_edge;
    if (f.sig_ls >= 0) o << " !sig_ls=" << f.sig_ls;
    if (f.sig_rep > 0) o << " !sig_rep=" << f.sig_rep << ":" << f.sig_gap;
    if (f.ls_at >= 0) o << " !ls=" << f.ls_at << ":" << f.ls_persist << ":" << f.ls_code << ":" << f.ls_kind;
    if (f.io_at >= 0) o << " !io=" << f.io_at << ":" << f.io_persist << ":" << f.io_kind;
    for (auto& s : f.stalls) o << " !stall=" << s.edge << ":" << s.ls << ":" << s.ns << ":" << s.wall;
    o << "\n";
  }
  return o.str();
}
static std::vector<i64> split_i(const std::string& s) {
  std::vector<i64> r; std::string t; std::istringstream i(s);
  while (std::getline(i, t, ':')) r.push_back(strtoll(t.c_str(), nullptr, 10));
  return r;
}
bool case_parse(const std::string& t, Case& c, std::string& err) {
  std::istringstream in(t);
  std::string line;
  c = Case();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w; l >> w;
    if (w == "case") { l >> c.prop >> c.sub; if (c.sub == "-") c.sub = ""; }
    else if (w == "par") { std::string k, v; l >> k >> v; c.par[k] = strtod(v.c_str(), nullptr); }
    else if (w == "cfg") { rt::Cfg& g = c.plan.cfg; l >> g.poison >> g.poison_mode >> g.pad >> g.padseed >> g.edge_ns >> g.ls_ns >> g.fac_ns >> g.clk_ns >> g.mono_base >> g.wall_off; if (!(l >> g.inf)) g.inf = 0; }
    else if (w == "threads") l >> c.plan.nth;
    else if (w == "sched") { std::string s; while (l >> s) { auto a = split_i(s); c.plan.sched.push_back({(int)a[0], a[1]}); } }
    else if (w == "op") {
      Op op; l >> op.k;
      std::string s;
      while (l >> s) {
        auto e = s.find('=');
        if (e == std::string::npos) { err = "bad token " + s; return false; }
        std::string k = s.substr(0, e), v = s.substr(e + 1);
        if (k == "th") op.th = atoi(v.c_str());
        else if (k == "slot") op.slot = atoi(v.c_str());
        else if (k[0] == '!') {
          auto a = split_i(v);
          if (k == "!alloc") { op.f.alloc_at = a[0]; op.f.alloc_persist = a[1]; }
          else if (k == "!sig_edge") op.f.sig_edge = a[0];
          else if (k == "!sig_ls") op.f.sig_ls = a[0];
          else if (k == "!sig_rep") { op.f.sig_rep = a[0]; op.f.sig_gap = a[1]; }
          else if (k == "!ls") { op.f.ls_at = a[0]; op.f.ls_persist = a[1]; op.f.ls_code = (int)a[2]; op.f.ls_kind = (int)a[3]; }
          else if (k == "!io") { op.f.io_at = a[0]; op.f.io_persist = a[1]; op.f.io_kind = (int)a[2]; }
          else if (k == "!stall") op.f.stalls.push_back({a[0], a[1], a[2], a[3] != 0});
        } else {
          V x; const char* p = v.c_str() + 1; 
          while (*p && *p != ']') { char* q; x.push_back(strtod(p, &q)); p = q; if (*p == ',') p++; }
          op.v[k] = x;
        }
      }
      c.plan.ops.push_back(op);
    } else if (w == "expect") continue;
    else { err = "bad line " + line; return false; }
  }
  return true;
}

Op mk(const std::string& k, int slot, int th) { Op o; o.k = k; o.slot = slot; o.th = th; return o; }
static V vi(const VI& a) { return V(a.begin(), a.end()); }
static VI iv(const V& a) { VI r; for (double d : a) r.push_back((i64)d); return r; }
Op op_setup(int slot, const Prob& p, const Set& s) {
  Op o = mk("setup", slot);
  o.v["n"] = {(double)p.n}; o.v["m"] = {(double)p.m};
  o.v["Pp"] = vi(p.P.p); o.v["Pi"] = vi(p.P.i); o.v["Px"] = p.P.x;
  o.v["Ap"] = vi(p.A.p); o.v["Ai"] = vi(p.A.i); o.v["Ax"] = p.A.x;
  o.v["q"] = p.q; o.v["l"] = p.l; o.v["u"] = p.u;
  o.v["set"] = s;
  return o;
}
Prob prob_of(const Op& op) {
  Prob p;
  p.n = (i64)op.num("n"); p.m = (i64)op.num("m");
  p.P.m = p.P.n = p.n; p.P.p = iv(op.arr("Pp")); p.P.i = iv(op.arr("Pi")); p.P.x = op.arr("Px");
  p.A.m = p.m; p.A.n = p.n; p.A.p = iv(op.arr("Ap")); p.A.i = iv(op.arr("Ai")); p.A.x = op.arr("Ax");
  p.q = op.arr("q"); p.l = op.arr("l"); p.u = op.arr("u");
  return p;
}

// ------------------------------------------------------------------ problems -------------------
const char* cls_name[] = {"strong", "psd", "lp", "lpzero", "diag", "eq", "pinf", "dinf", "m0", "aempty", "badscale", "noncvx"};

static Csc dense_to_csc(const std::vector<V>& M, i64 m, i64 n, const std::vector<std::vector<char>>& pat) {
  Csc c; c.m = m; c.n = n; c.p.push_back(0);
  for (i64 j = 0; j < n; j++) {
    for (i64 i = 0; i < m; i++) if (pat[i][j]) { c.i.push_back(i); c.x.push_back(M[i][j]); }
    c.p.push_back((i64)c.i.size());
  }
  return c;
}
static double rnd(Rng& g) { // "nice" magnitudes, away from zero
  double v = g.uni(0.2, 2.0);
  return g.chance(0.5) ? v : -v;
}
int pick_cls(Rng& g, unsigned mask) {
  static const int w[C_NCLS] = {26, 12, 8, 4, 8, 10, 8, 8, 5, 4, 7, 0};
  int tot = 0; for (int k = 0; k < C_NCLS; k++) if (mask >> k & 1) tot += w[k] ? w[k] : 5;
  int r = (int)g.below(tot);
  for (int k = 0; k < C_NCLS; k++) if (mask >> k & 1) { r -= w[k] ? w[k] : 5; if (r < 0) return k; }
  return 0;
}
GenProb gen_prob(Rng& g, int cls, int maxn, int maxm) {
  GenProb G; G.cls = cls;
  i64 n = g.range(1, maxn), m = g.range(1, maxm);
  if (g.chance(0.15)) n = 1;
  if (cls == C_M0) m = 0;
  if (cls == C_EQ && m > n) m = n;                    // independent equalities
  if (cls == C_LP || cls == C_LPZ) { if (m < n) m = n; }
  double den = g.pick({0.3, 0.6, 1.0});
  std::vector<V> P(n, V(n, 0.0)), A(m, V(n, 0.0));
  std::vector<std::vector<char>> pp(n, std::vector<char>(n, 0)), pa(m, std::vector<char>(n, 0));
  // ---- P
  if (cls == C_DIAG) {
    for (i64 i = 0; i < n; i++) { P[i][i] = g.uni(0.3, 3); pp[i][i] = 1; }
    G.dmin = 0.3;
  } else if (cls == C_LP || cls == C_DINF) {
    if (cls == C_DINF && g.chance(0.5)) G.dmin = 0;   // filled in below
  } else if (cls == C_LPZ) {
    for (i64 i = 0; i < n; i++) if (g.chance(0.7)) pp[i][i] = 1;  // explicit zeros
    if (n > 1 && g.chance(0.5)) pp[0][n - 1] = 1;
  } else {
    i64 rank = cls == C_PSD ? g.range(0, n - 1) : n;
    for (i64 r = 0; r < rank; r++) {
      V v(n, 0.0);
      for (i64 i = 0; i < n; i++) if (g.chance(den)) v[i] = rnd(g);
      for (i64 i = 0; i < n; i++) for (i64 j = 0; j < n; j++) P[i][j] += v[i] * v[j] / std::max<i64>(1, rank);
    }
    if (cls != C_PSD) { G.dmin = 0.3; for (i64 i = 0; i < n; i++) P[i][i] += G.dmin; }
    for (i64 i = 0; i < n; i++) for (i64 j = i; j < n; j++) if (P[i][j] != 0) pp[i][j] = 1;
    if (g.chance(0.2)) for (i64 i = 0; i < n; i++) for (i64 j = i; j < n; j++) if (g.chance(0.15)) pp[i][j] = 1; // structural zeros
  }
  // ---- A
  if (cls != C_AEMPTY)
    for (i64 i = 0; i < m; i++) {
      bool any = false;
      for (i64 j = 0; j < n; j++) if (g.chance(den)) { A[i][j] = rnd(g); pa[i][j] = 1; any = true; }
      if (!any && !g.chance(0.1)) { i64 j = (i64)g.below(n); A[i][j] = rnd(g); pa[i][j] = 1; }
      if (g.chance(0.05)) { i64 j = (i64)g.below(n); pa[i][j] = 1; }
    }
  if (cls == C_LP || cls == C_LPZ) // make it bounded with the box rows
    for (i64 j = 0; j < n; j++) { for (i64 k = 0; k < n; k++) { A[j][k] = 0; pa[j][k] = 0; } A[j][j] = g.uni(0.5, 2); pa[j][j] = 1; }
  if (cls == C_EQ) for (i64 i = 0; i < m; i++) { A[i][i] += A[i][i] >= 0 ? 2.5 : -2.5; pa[i][i] = 1; }
  V x0(n); for (auto& v : x0) v = g.uni(-1.5, 1.5);
  V l(m), u(m), y(m, 0.0), q(n, 0.0);
  double slack = 1e300;
  bool known_opt = (cls == C_PSD || cls == C_EQ || (cls != C_PINF && cls != C_DINF && g.chance(0.5)));
  if (cls == C_LP || cls == C_LPZ) known_opt = g.chance(0.4);
  bool interior = true;
  for (i64 i = 0; i < m; i++) {
    double ax = 0; for (i64 j = 0; j < n; j++) ax += A[i][j] * x0[j];
    double s1 = g.uni(0.4, 2), s2 = g.uni(0.4, 2);
    int kind = (int)g.below(10);
    bool eq = cls == C_EQ ? g.chance(0.8) : (cls != C_LP && cls != C_LPZ && kind == 0 && g.chance(0.6) && m <= n);
    if ((cls == C_LP || cls == C_LPZ) && i < n) { l[i] = ax - s1; u[i] = ax + s2; }
    else if (eq) { l[i] = u[i] = ax; interior = false; if (known_opt) y[i] = g.uni(-1, 1); continue; }
    else if (kind <= 3) { l[i] = ax - s1; u[i] = ax + s2; }
    else if (kind <= 5) { l[i] = ax - s1; u[i] = OSQP_INFTY; s2 = 1e300; }
    else if (kind <= 7) { l[i] = -OSQP_INFTY; u[i] = ax + s2; s1 = 1e300; }
    else if (kind == 8) { l[i] = -OSQP_INFTY; u[i] = OSQP_INFTY; s1 = s2 = 1e300; }
    else { l[i] = ax - s1; u[i] = ax + s2; }
    if (known_opt && g.chance(0.45)) {     // make it active
      if (g.chance(0.5) && u[i] < 1e29) { u[i] = ax; y[i] = g.uni(0.3, 2); interior = false; }
      else if (l[i] > -1e29) { l[i] = ax; y[i] = -g.uni(0.3, 2); interior = false; }
    }
    slack = std::min(slack, std::min(s1, s2));
  }
  if (known_opt) {
    for (i64 j = 0; j < n; j++) { double s = 0; for (i64 k = 0; k < n; k++) s -= P[j][k] * x0[k]; for (i64 i = 0; i < m; i++) s -= A[i][j] * y[i]; q[j] = s; }
  } else {
    for (auto& v : q) v = g.uni(-2, 2);
    if (g.chance(0.05)) for (auto& v : q) v = 0;
  }
  if (cls == C_AEMPTY) for (i64 i = 0; i < m; i++) { double a = g.uni(0.4, 2), b = g.uni(0.4, 2); l[i] = g.chance(0.3) ? -OSQP_INFTY : -a; u[i] = g.chance(0.3) ? OSQP_INFTY : b; slack = 0.4; }
  if (cls == C_PINF) {
    G.feasible = false;
    double gap = g.uni(0.5, 3);
    i64 a = (i64)g.below(m);
    if (m == 1 || g.chance(0.2)) {          // an empty row that must be nonzero
      for (i64 j = 0; j < n; j++) { A[a][j] = 0; if (!g.chance(0.3)) pa[a][j] = 0; }
      if (g.chance(0.5)) { l[a] = gap; u[a] = g.chance(0.5) ? gap + 1 : OSQP_INFTY; } else { u[a] = -gap; l[a] = g.chance(0.5) ? -gap - 1 : -OSQP_INFTY; }
    } else {                                 // two (anti)parallel rows that contradict each other
      i64 b = (a + 1 + (i64)g.below(m - 1)) % m;
      bool any = false; for (i64 j = 0; j < n; j++) if (A[a][j] != 0) any = true;
      if (!any) { A[a][0] = 1; pa[a][0] = 1; }
      double f = g.chance(0.5) ? g.uni(0.5, 2) : -g.uni(0.5, 2);
      for (i64 j = 0; j < n; j++) { A[b][j] = f * A[a][j]; pa[b][j] = pa[a][j]; }
      double r = g.uni(-1, 1);
      u[a] = r; l[a] = g.chance(0.5) ? -OSQP_INFTY : r - 1;      // a'x <= r
      if (f > 0) { l[b] = f * (r + gap); u[b] = g.chance(0.5) ? OSQP_INFTY : l[b] + 1; }
      else { u[b] = f * (r + gap); l[b] = g.chance(0.5) ? -OSQP_INFTY : u[b] - 1; }
    }
    interior = false;
  }
  if (cls == C_DINF) {
    // column 0 is a free ray: no curvature, cost -1 direction, constraints that do not stop it
    G.bounded = false;
    for (i64 i = 1; i < n; i++) { P[i][i] = g.uni(0.3, 2); pp[i][i] = g.chance(0.6); if (!pp[i][i]) P[i][i] = 0; }
    double dir = g.chance(0.5) ? 1 : -1;      // ray direction
    q[0] = -dir * g.uni(0.5, 2);
    for (i64 i = 0; i < m; i++) {
      if (g.chance(0.5)) { A[i][0] = 0; pa[i][0] = 0; }
      else {
        A[i][0] = g.uni(0.3, 1.5) * (g.chance(0.5) ? 1 : -1); pa[i][0] = 1;
        double t = A[i][0] * dir;
        if (t > 0) u[i] = OSQP_INFTY; else l[i] = -OSQP_INFTY;
      }
      bool any = false; for (i64 j = 0; j < n; j++) if (pa[i][j]) any = true;
      (void)any;
    }
    // x0 must still satisfy the rows: recompute bounds around it
    for (i64 i = 0; i < m; i++) {
      double ax = 0; for (i64 j = 0; j < n; j++) ax += A[i][j] * x0[j];
      if (l[i] > -1e29) l[i] = ax - g.uni(0.4, 2);
      if (u[i] < 1e29) u[i] = ax + g.uni(0.4, 2);
    }
    if (n > 1 && g.chance(0.6)) for (i64 i = 1; i < n; i++) q[i] *= P[i][i] > 0 ? 1 : 0;
    interior = false;
  }
  if (cls == C_NONCVX) {
    i64 k = (i64)g.below(n);
    for (i64 j = 0; j < n; j++) if (j != k) { P[std::min(k, j)][std::max(k, j)] = P[std::max(k, j)][std::min(k, j)] = 0; pp[std::min(k, j)][std::max(k, j)] = 0; }
    P[k][k] = -g.uni(0.5, 3); pp[k][k] = 1;
    for (i64 i = 0; i < m; i++) { A[i][k] = 0; pa[i][k] = 0; }
    G.bounded = false;
  }
  if (cls == C_BADSCALE) {
    for (i64 i = 0; i < m; i++) {
      double f = g.logu(-2.5, 2.5);
      for (i64 j = 0; j < n; j++) A[i][j] *= f;
      if (l[i] > -1e29) l[i] *= f;
      if (u[i] < 1e29) u[i] *= f;
    }
    double f = g.logu(-2, 2);
    for (i64 i = 0; i < n; i++) { q[i] *= f; for (i64 j = 0; j < n; j++) P[i][j] *= f; }
    G.dmin *= f;
  }
  if ((cls == C_PINF || cls == C_DINF) && g.chance(0.2)) {   // rows so large that their scaling factors reach their limits
    for (i64 i = 0; i < m; i++) if (g.chance(0.5)) {
      double f = g.logu(2, 5);
      for (i64 j = 0; j < n; j++) A[i][j] *= f;
      if (l[i] > -1e29) l[i] *= f;
      if (u[i] < 1e29) u[i] *= f;
    }
  }
  for (i64 i = 0; i < n; i++) for (i64 j = 0; j < i; j++) pp[i][j] = 0;
  G.pr.n = n; G.pr.m = m; G.pr.P = dense_to_csc(P, n, n, pp); G.pr.A = dense_to_csc(A, m, n, pa);
  G.pr.q = q; G.pr.l = l; G.pr.u = u; G.x0 = x0;
  if (cls == C_PSD && !known_opt) G.bounded = false;
  if (cls == C_AEMPTY) { G.x0.assign(n, 0.0); interior = true; }
  if (interior && m > 0 && slack < 1e299) G.interior = cls == C_BADSCALE ? 0 : slack;
  if (m == 0) G.interior = 1;
  G.well = G.feasible && G.bounded && G.dmin > 0 && cls != C_BADSCALE && cls != C_NONCVX && (cls == C_STRONG || cls == C_DIAG || cls == C_EQ || cls == C_M0 || cls == C_AEMPTY);
  return G;
}

Set gen_set(Rng& g, const GenProb& p, unsigned f) {
  Set s = default_set();
  s[S_LINSYS] = (f & GF_INDIRECT) || (!(f & GF_DIRECT) && g.chance(0.28)) ? (double)OSQP_INDIRECT_SOLVER : (double)OSQP_DIRECT_SOLVER;
#ifndef SIM_MKL
  s[S_LINSYS] = (double)OSQP_DIRECT_SOLVER;
#endif
  s[S_VERBOSE] = !(f & GF_NOVERB) && g.chance(0.12);
  s[S_WARM] = g.chance(0.8);
  s[S_SCALING] = g.pick({10, 10, 10, 0, 0, 1, 4});
  s[S_POLISH] = (f & GF_POLISH) ? 1 : !(f & GF_NOPOLISH) && g.chance(0.3);
  s[S_RHO] = g.chance(0.5) ? 0.1 : g.logu(-3, 2);
  s[S_RHOVEC] = !g.chance(0.15);
  s[S_SIGMA] = g.chance(0.8) ? 1e-6 : g.logu(-7, -2);
  s[S_ALPHA] = g.pick({1.6, 1.6, 1.0, 0.7, 1.9, 1.3});
  s[S_CGMAX] = g.pick({20, 20, 50, 5, 2});
  s[S_CGRED] = g.pick({10, 10, 1, 4});
  s[S_CGFRAC] = g.pick({0.15, 0.15, 0.5, 0.01});
  s[S_CGPREC] = g.chance(0.7) ? OSQP_DIAGONAL_PRECONDITIONER : OSQP_NO_PRECONDITIONER;
  s[S_AR] = (f & GF_FIXEDRHO) ? 0 : g.pick({1, 1, 1, 0, 0, 3, 2});
  if ((f & GF_NOTIME) && s[S_AR] == 2) s[S_AR] = 1;
  if ((f & GF_NOKKT) && s[S_AR] == 3) s[S_AR] = 1;
  s[S_ARINT] = g.pick({0, 0, 50, 10, 7, 3, 25});
  s[S_ARFRAC] = g.pick({0.4, 0.4, 0.1, 0.9});
  s[S_ARTOL] = g.pick({5., 5., 2., 1.2, 10.});
  s[S_MAXITER] = (f & GF_CONV) ? 20000 : (f & GF_SHORT) ? g.pick({1, 5, 17, 40, 100, 250}) : g.pick({4000, 4000, 4000, 600, 150, 30, 7, 1});
  double e = g.pick({1e-3, 1e-3, 1e-4, 1e-5, 1e-6});
  s[S_EABS] = e; s[S_EREL] = g.chance(0.7) ? e : g.chance(0.5) ? 0 : e * g.pick({0.1, 10.});
  if (s[S_EREL] > 0 && g.chance(0.04)) s[S_EABS] = 0;
  s[S_EPINF] = g.pick({1e-4, 1e-4, 1e-3, 1e-6});
  s[S_EDINF] = g.pick({1e-4, 1e-4, 1e-3, 1e-6});
  s[S_SCTERM] = g.chance(0.12);
  s[S_CHECK] = g.pick({25, 25, 10, 1, 7, 0, 5});
  if ((f & GF_CONV) && s[S_CHECK] == 0) s[S_CHECK] = 25;
  s[S_GAP] = g.chance(0.65);
  s[S_DELTA] = g.pick({1e-6, 1e-6, 1e-7, 1e-4});
  s[S_REFINE] = g.pick({3, 3, 0, 1, 6});
  s[S_ALLOCSOL] = !g.chance(0.05);
  if (s[S_ALLOCSOL] == 0 && g.chance(0.3)) s[S_ALLOCSOL] = 1;
  (void)p;
  return s;
}
