// The reference model and the oracles: what a run must satisfy, judged from its record alone.
#include "sim.h"
#include <cmath>
#include <cstring>
#include <algorithm>

static const double MARK = OSQP_NAN;
static const double INFB = 1e26;

ld norm_inf(const V& v) { ld r = 0; for (double d : v) { if (!(std::fabs(d) <= 1e308)) return INFINITY; r = std::max<ld>(r, std::fabs(d)); } return r; }
V mulP(const Csc& P, const V& x) {
  std::vector<ld> r(P.n, 0);
  for (i64 j = 0; j < P.n; j++) for (i64 k = P.p[j]; k < P.p[j + 1]; k++) {
    i64 i = P.i[k];
    r[i] += (ld)P.x[k] * x[j];
    if (i != j) r[j] += (ld)P.x[k] * x[i];
  }
  return V(r.begin(), r.end());
}
V mulA(const Csc& A, const V& x) {
  std::vector<ld> r(A.m, 0);
  for (i64 j = 0; j < A.n; j++) for (i64 k = A.p[j]; k < A.p[j + 1]; k++) r[A.i[k]] += (ld)A.x[k] * x[j];
  return V(r.begin(), r.end());
}
V mulAt(const Csc& A, const V& y) {
  std::vector<ld> r(A.n, 0);
  for (i64 j = 0; j < A.n; j++) for (i64 k = A.p[j]; k < A.p[j + 1]; k++) r[j] += (ld)A.x[k] * y[A.i[k]];
  return V(r.begin(), r.end());
}
static Csc absm(Csc a) { for (auto& v : a.x) v = std::fabs(v); return a; }
static V absv(V v) { for (auto& d : v) d = std::fabs(d); return v; }

// equilibration as documented: sqrt of column norms of the KKT matrix, then cost normalisation
Scal ruiz(const Prob& p0, int iters) {
  Scal s; s.D.assign(p0.n, 1); s.E.assign(p0.m, 1);
  if (iters <= 0) return s;
  s.on = true;
  Prob p = p0;
  auto lim = [](double v) { v = v < 1e-4 ? 1.0 : v; return v > 1e4 ? 1e4 : v; };
  for (int it = 0; it < iters; it++) {
    V d(p.n, 0), e(p.m, 0);
    for (i64 j = 0; j < p.n; j++) {
      for (i64 k = p.P.p[j]; k < p.P.p[j + 1]; k++) d[j] = std::max(d[j], std::fabs(p.P.x[k]));
      for (i64 k = p.A.p[j]; k < p.A.p[j + 1]; k++) { d[j] = std::max(d[j], std::fabs(p.A.x[k])); e[p.A.i[k]] = std::max(e[p.A.i[k]], std::fabs(p.A.x[k])); }
    }
    for (auto& v : d) v = 1 / std::sqrt(lim(v));
    for (auto& v : e) v = 1 / std::sqrt(lim(v));
    for (i64 j = 0; j < p.n; j++) {
      for (i64 k = p.P.p[j]; k < p.P.p[j + 1]; k++) p.P.x[k] *= d[j] * d[p.P.i[k]];
      for (i64 k = p.A.p[j]; k < p.A.p[j + 1]; k++) p.A.x[k] *= d[j] * e[p.A.i[k]];
      p.q[j] *= d[j]; s.D[j] *= d[j];
    }
    for (i64 i = 0; i < p.m; i++) s.E[i] *= e[i];
    double c = 0, qn = 0;
    for (i64 j = 0; j < p.n; j++) {
      double mx = 0; for (i64 k = p.P.p[j]; k < p.P.p[j + 1]; k++) mx = std::max(mx, std::fabs(p.P.x[k]));
      c += mx; qn = std::max(qn, std::fabs(p.q[j]));
    }
    c = lim(std::max(c / p.n, lim(qn)));
    c = 1 / c;
    for (auto& v : p.P.x) v *= c;
    for (auto& v : p.q) v *= c;
    s.c *= c;
  }
  return s;
}
static Prob scaled(const Prob& p, const Scal& s) {
  Prob r = p;
  for (i64 j = 0; j < p.n; j++) {
    for (i64 k = p.P.p[j]; k < p.P.p[j + 1]; k++) r.P.x[k] = (double)(s.c * p.P.x[k] * s.D[j] * s.D[p.P.i[k]]);
    for (i64 k = p.A.p[j]; k < p.A.p[j + 1]; k++) r.A.x[k] = p.A.x[k] * s.D[j] * s.E[p.A.i[k]];
    r.q[j] = (double)(s.c * p.q[j] * s.D[j]);
  }
  for (i64 i = 0; i < p.m; i++) {
    if (std::fabs(p.l[i]) < INFB) r.l[i] *= s.E[i];
    if (std::fabs(p.u[i]) < INFB) r.u[i] *= s.E[i];
  }
  return r;
}

bool is_solved(i64 s) { return s == OSQP_SOLVED || s == OSQP_SOLVED_INACCURATE; }
static bool has_point(i64 s) { return s == OSQP_SOLVED || s == OSQP_SOLVED_INACCURATE || s == OSQP_MAX_ITER_REACHED || s == OSQP_TIME_LIMIT_REACHED; }
static bool is_inf(i64 s) { return s >= OSQP_PRIMAL_INFEASIBLE && s <= OSQP_DUAL_INFEASIBLE_INACCURATE; }

static std::string f(const char* fmt, ...) {
  char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b;
}

// ---- quantities of a point -------------------------------------------------------------------
struct Ev {
  ld obj, dobj, gap, objabs, gapabs, dres, dresfloor, ptol_norm, dtol_norm, gtol_norm, plow, pfloor;
  V Ax;
};
static Ev eval(const Prob& p, const V& x, const V& y, const V& ythr) {
  Ev e; memset((void*)&e, 0, offsetof(Ev, Ax));
  V Px = mulP(p.P, x), Ax = mulA(p.A, x), Aty = mulAt(p.A, y);
  V aP = mulP(absm(p.P), absv(x)), aA = mulA(absm(p.A), absv(x)), aAt = mulAt(absm(p.A), absv(y));
  ld xPx = 0, qx = 0, axPx = 0, aqx = 0, S = 0, aS = 0;
  for (i64 j = 0; j < p.n; j++) {
    xPx += (ld)x[j] * Px[j]; qx += (ld)p.q[j] * x[j];
    axPx += std::fabs((ld)x[j] * aP[j]); aqx += std::fabs((ld)p.q[j] * x[j]);
    ld r = (ld)Px[j] + p.q[j] + Aty[j];
    e.dres = std::max(e.dres, std::fabs(r));
    e.dresfloor = std::max<ld>(e.dresfloor, 1e-12L * (aP[j] + std::fabs(p.q[j]) + aAt[j]));
  }
  for (i64 i = 0; i < p.m; i++) {
    double yi = y[i];
    bool lf = p.l[i] > -INFB, uf = p.u[i] < INFB;
    if (yi > 0 && uf) { S += (ld)p.u[i] * yi; aS += std::fabs((ld)p.u[i] * yi); }
    if (yi < 0 && lf) { S += (ld)p.l[i] * yi; aS += std::fabs((ld)p.l[i] * yi); }
    ld z, w = Ax[i];
    if (yi > ythr[i] && uf) z = p.u[i];
    else if (yi < -ythr[i] && lf) z = p.l[i];
    else z = std::min<ld>(std::max<ld>(w, p.l[i]), p.u[i]);
    e.plow = std::max(e.plow, std::fabs(w - z));
    e.pfloor = std::max<ld>(e.pfloor, 1e-12L * (aA[i] + std::fabs((double)z)));
  }
  e.obj = xPx / 2 + qx; e.dobj = -xPx / 2 - S; e.gap = xPx + qx + S;
  e.objabs = axPx + aqx; e.gapabs = axPx + aqx + aS;
  e.ptol_norm = norm_inf(Ax) + e.plow;
  e.dtol_norm = std::max(std::max(norm_inf(Px), norm_inf(p.q)), norm_inf(Aty));
  e.gtol_norm = std::max(std::max(std::fabs(xPx), std::fabs(qx)), std::fabs(S));
  e.Ax = Ax;
  return e;
}
static V ythr_of(const Prob& p, const Scal& s, const V& x, const V& y, double rho) {
  V Ax = mulA(p.A, x), t(p.m);
  ld yn = norm_inf(y);
  for (i64 i = 0; i < p.m; i++) {
    double E = s.on ? s.E[i] : 1; ld c = s.on ? s.c : 1;
    t[i] = (double)std::max<ld>(1e-6L * yn, std::max<ld>(1e-9L, 1e-12L * 1e3L * rho * (1 + E * std::fabs(Ax[i])) * E / c));
  }
  return t;
}
static void to_scaled(const Scal& s, V& x, V& y) {
  for (size_t j = 0; j < x.size(); j++) x[j] /= s.D[j];
  for (size_t i = 0; i < y.size(); i++) y[i] = (double)((ld)y[i] * s.c / s.E[i]);
}

static bool all_mark(const V& v) { for (double d : v) if (d != MARK) return false; return true; }
static bool finite_all(const V& v) { for (double d : v) if (!std::isfinite(d)) return false; return true; }

static std::string sol_check(const Prob& p, const Scal& s, const Set& st, double rho, const Sol& so, i64 status, bool polished) {
  ld k = status == OSQP_SOLVED_INACCURATE ? 10 : 1;
  if (!finite_all(so.x) || !finite_all(so.y)) return "reported solved but the point is not finite";
  ld ea = k * st[S_EABS], er = k * st[S_EREL];
  bool sc = st[S_SCTERM] && s.on;
  V x = so.x, y = so.y, t = ythr_of(p, s, x, y, rho);
  Prob q = p;
  if (sc) { q = scaled(p, s); to_scaled(s, x, y); for (i64 i = 0; i < p.m; i++) t[i] = (double)((ld)t[i] * s.c / s.E[i]); }
  Ev e = eval(q, x, y, t);
  ld slack = sc ? 1e-5L : 1e-6L;
  ld pt = ea + er * e.ptol_norm, dt = ea + er * e.dtol_norm, gt = ea + er * e.gtol_norm;
  if (p.m && e.plow > pt * (1 + slack) + e.pfloor) return f("primal residual %.6Lg exceeds its tolerance %.6Lg", e.plow, pt);
  if (e.dres > dt * (1 + slack) + e.dresfloor) return f("dual residual %.6Lg exceeds its tolerance %.6Lg", e.dres, dt);
  if (st[S_GAP] && !polished && std::fabs(e.gap) > gt * (1 + slack) + 1e-11L * e.gapabs) return f("duality gap %.6Lg exceeds its tolerance %.6Lg", e.gap, gt);
  return "";
}
static std::string cert_check(const Prob& p, const Scal& s, const Set& st, const Sol& so, i64 status) {
  bool prim = status == OSQP_PRIMAL_INFEASIBLE || status == OSQP_PRIMAL_INFEASIBLE_INACCURATE;
  bool inacc = status == OSQP_PRIMAL_INFEASIBLE_INACCURATE || status == OSQP_DUAL_INFEASIBLE_INACCURATE;
  ld eps = (prim ? st[S_EPINF] : st[S_EDINF]) * (inacc ? 10 : 1);
  V v = prim ? so.pc : so.dc;
  if (!finite_all(v)) return "certificate is not finite";
  if (std::fabs((double)(norm_inf(v) - 1)) > 1e-9) return f("certificate is not normalised (norm %.9Lg)", norm_inf(v));
  if (!all_mark(prim ? so.dc : so.pc)) return "the other certificate is offered as well";
  if (!all_mark(so.x) || !all_mark(so.y)) return "a point is offered as a solution of an infeasible problem";
  Prob q = p;
  bool sc = st[S_SCTERM] && s.on;
  if (sc) {                          // the tolerance applies in scaled units
    q = scaled(p, s);
    if (prim) for (i64 i = 0; i < p.m; i++) v[i] /= s.E[i]; else for (i64 j = 0; j < p.n; j++) v[j] /= s.D[j];
    ld nn = norm_inf(v); for (auto& d : v) d = (double)(d / nn);
  }
  ld sl = sc ? 1e-5L : 1e-6L;
  if (prim) {
    V r = mulAt(q.A, v), ra = mulAt(absm(q.A), absv(v));
    for (i64 j = 0; j < p.n; j++) if (std::fabs(r[j]) > eps * (1 + sl) + 1e-12L * ra[j]) return f("||A'v|| = %.6g exceeds the tolerance %.6Lg", std::fabs(r[j]), eps);
    ld sup = 0, asup = 0;
    for (i64 i = 0; i < p.m; i++) {
      bool lf = q.l[i] > -INFB, uf = q.u[i] < INFB;
      if (v[i] > 1e-12 && !uf) return f("certificate pushes against an infinite upper bound (row %lld, %.3g)", (long long)i, v[i]);
      if (v[i] < -1e-12 && !lf) return f("certificate pushes against an infinite lower bound (row %lld, %.3g)", (long long)i, v[i]);
      if (v[i] > 0 && uf) { sup += (ld)q.u[i] * v[i]; asup += std::fabs((ld)q.u[i] * v[i]); }
      if (v[i] < 0 && lf) { sup += (ld)q.l[i] * v[i]; asup += std::fabs((ld)q.l[i] * v[i]); }
    }
    if (asup == 0 || sup > 1e-11L * asup) return f("support function %.6Lg is not negative", sup);
  } else {
    V pv = mulP(q.P, v), pa = mulP(absm(q.P), absv(v)), av = mulA(q.A, v), aa = mulA(absm(q.A), absv(v));
    ld qv = 0, aq = 0;
    for (i64 j = 0; j < p.n; j++) { qv += (ld)q.q[j] * v[j]; aq += std::fabs((ld)q.q[j] * v[j]); }
    if (aq == 0 || qv > 1e-11L * aq) return f("q'v = %.6Lg is not negative", qv);
    for (i64 j = 0; j < p.n; j++) if (std::fabs(pv[j]) > eps * (1 + sl) + 1e-12L * pa[j]) return f("||Pv|| = %.6g exceeds the tolerance %.6Lg", std::fabs(pv[j]), eps);
    for (i64 i = 0; i < p.m; i++) {
      if (q.u[i] < INFB && av[i] > eps * (1 + sl) + 1e-12L * aa[i]) return f("(Av)_%lld = %.6g grows towards a finite upper bound", (long long)i, av[i]);
      if (q.l[i] > -INFB && av[i] < -eps * (1 + sl) - 1e-12L * aa[i]) return f("(Av)_%lld = %.6g falls towards a finite lower bound", (long long)i, av[i]);
    }
  }
  return "";
}
static const char* status_text[] = {"", "solved", "solved inaccurate", "primal infeasible", "primal infeasible inaccurate", "dual infeasible",
  "dual infeasible inaccurate", "maximum iterations reached", "run time limit reached", "problem non convex", "interrupted", "unsolved"};

static bool close(ld a, ld b, ld rel, ld floor) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + floor; }

static std::string info_check(const Prob& p, const Scal& s, const Set& st, double rho, const Rec& r) {
  const OSQPInfo& I = r.info;
  i64 v = I.status_val;
  if (has_point(v) && r.sol.has) {
    if (!finite_all(r.sol.x) || !finite_all(r.sol.y)) return "";
    V x = r.sol.x, y = r.sol.y, t = ythr_of(p, s, x, y, rho);
    Ev e = eval(p, x, y, t);
    if (!close(I.obj_val, e.obj, 1e-7L, 1e-9L * e.objabs + 1e-13L)) return f("obj_val %.9g but the returned point has %.9Lg", I.obj_val, e.obj);
    if (!close(I.dual_obj_val, e.dobj, 1e-7L, 1e-8L * e.gapabs + 1e-13L)) return f("dual_obj_val %.9g but the returned point has %.9Lg", I.dual_obj_val, e.dobj);
    if (!close(I.duality_gap, e.gap, 1e-7L, 1e-8L * e.gapabs + 1e-13L)) return f("duality_gap %.9g but the returned point has %.9Lg", I.duality_gap, e.gap);
    if (st[S_SCTERM] && s.on) { Prob q = scaled(p, s); for (i64 i = 0; i < p.m; i++) t[i] = (double)((ld)t[i] * s.c / s.E[i]); to_scaled(s, x, y); e = eval(q, x, y, t); }
    ld fl = st[S_SCTERM] ? 10 : 1, rl = st[S_SCTERM] ? 1e-5L : 1e-6L;
    if (!close(I.dual_res, e.dres, rl, fl * e.dresfloor * 10 + 1e-300L)) return f("dual_res %.9g but the returned point has %.9Lg", I.dual_res, e.dres);
    if (p.m == 0) { if (I.prim_res != 0) return f("prim_res %.9g without constraints", I.prim_res); }
    else if (I.prim_res < e.plow * (1 - rl) - fl * 10 * e.pfloor - 1e-300L) return f("prim_res %.9g but the returned point violates by at least %.9Lg", I.prim_res, e.plow);
    ld kkt = std::max<ld>(std::max(I.dual_res, I.prim_res), std::fabs(I.duality_gap));
    if (!close(I.rel_kkt_error, kkt, 1e-9L, 1e-300L)) return f("rel_kkt_error %.9g does not belong to the reported residuals (%.9Lg)", I.rel_kkt_error, kkt);
  }
  if ((v == OSQP_PRIMAL_INFEASIBLE || v == OSQP_PRIMAL_INFEASIBLE_INACCURATE) && I.obj_val != OSQP_INFTY) return f("primal infeasible but obj_val = %g", I.obj_val);
  if ((v == OSQP_DUAL_INFEASIBLE || v == OSQP_DUAL_INFEASIBLE_INACCURATE) && I.obj_val != -OSQP_INFTY) return f("dual infeasible but obj_val = %g", I.obj_val);
  return "";
}

// ------------------------------------------------------------------ shadow ---------------------
static int uvec_ok(const Op& op, const Prob& p) {
  if (!op.has("l") && !op.has("u")) return 1;
  int res = 1;
  const V& l = op.has("l") ? op.arr("l") : p.l; const V& u = op.has("u") ? op.arr("u") : p.u;
  bool both = op.has("l") && op.has("u");
  for (i64 i = 0; i < p.m; i++) {
    double mg = both ? 0 : 1e-9 * (1 + std::min(std::fabs(l[i]), std::fabs(u[i])));
    if (l[i] > u[i] + mg) return 0;
    if (!both && l[i] > u[i] - mg) res = -1;
    if (both && l[i] > u[i]) return 0;
  }
  return res;
}
static int setup_ok(const Op& op) {
  if (op.has("nullP") || op.has("nullA") || op.has("nullq") || op.has("nullset")) return 0;
  i64 m = (i64)(op.has("mm") ? op.num("mm") : op.num("m")), n = (i64)(op.has("nn") ? op.num("nn") : op.num("n"));
  if (n <= 0 || m < 0) return 0;
  i64 Pm = (i64)(op.has("Pm") ? op.num("Pm") : op.num("n")), Pn = (i64)(op.has("Pn") ? op.num("Pn") : op.num("n"));
  i64 Am = (i64)(op.has("Am") ? op.num("Am") : op.num("m")), An = (i64)(op.has("An") ? op.num("An") : op.num("n"));
  if (Pm != n || Pn != n || Am != m || An != n) return 0;
  if (m > 0 && (op.has("nulll") || op.has("nullu"))) return 0;
  Prob p = prob_of(op);
  for (i64 j = 0; j < p.n; j++) for (i64 k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (p.P.i[k] > j) return 0;
  for (i64 i = 0; i < p.m; i++) if (p.l[i] > p.u[i]) return 0;
  return set_valid(op.arr("set"), true) ? 1 : 0;
}
static int validity(const Op& op, const Shadow& sh) {
  if (op.k == "setup") return setup_ok(op);
  if (op.k == "cleanup" || op.k == "getdims" || op.k == "newset" || op.k == "newmat" || op.k == "errmsg" || op.k == "cstart") return 1;
  if (op.has("nosolver")) return 0;
  if (op.k == "codegen" || op.k == "adjc" || op.k == "adjv" || op.k == "adjm") return -1;
  if (op.k == "uvec") { int r = 1; for (auto& p : sh.alts) { int v = uvec_ok(op, p); if (&p == &sh.alts[0]) r = v; else if (v != r) r = -1; } return r; }
  if (op.k == "umat") {
    if (sh.alts.empty()) return -1;
    i64 nP = sh.alts[0].P.nnz(), nA = sh.alts[0].A.nnz(), P = (i64)op.num("Pn"), A = (i64)op.num("An");
    if (op.has("nc")) return -1;       // makes the problem non-convex: an error is due, and the data are loaded
    if (P < 0 || P > nP || A < 0 || A > nA) return 0;
    if (!op.has("Pidx") && P != 0 && P != nP) return 0;
    if (!op.has("Aidx") && A != 0 && A != nA) return 0;
    return 1;
  }
  if (op.k == "urho") return op.num("rho") > 0 ? 1 : 0;
  if (op.k == "uset") return op.has("set") && set_valid(op.arr("set"), false) ? 1 : 0;
  if (op.k == "getsol") return op.has("nullsol") ? 0 : 1;
  return 1;
}
bool op_valid(const Op& op, const Shadow& sh) { return validity(op, sh) == 1; }

static void apply_vec(Prob& p, const Op& op) { if (op.has("q")) p.q = op.arr("q"); if (op.has("l")) p.l = op.arr("l"); if (op.has("u")) p.u = op.arr("u"); }
static void apply_mat(Prob& p, const Op& op) {
  if (op.has("Px")) { const V& x = op.arr("Px"); if (op.has("Pidx")) { const V& ix = op.arr("Pidx"); for (size_t k = 0; k < x.size() && k < ix.size(); k++) p.P.x[(size_t)ix[k]] = x[k]; } else p.P.x = x; }
  if (op.has("Ax")) { const V& x = op.arr("Ax"); if (op.has("Aidx")) { const V& ix = op.arr("Aidx"); for (size_t k = 0; k < x.size() && k < ix.size(); k++) p.A.x[(size_t)ix[k]] = x[k]; } else p.A.x = x; }
}
static void dedupe(Shadow& s) {
  for (size_t i = 0; i < s.alts.size(); i++) for (size_t j = i + 1; j < s.alts.size();)
    if (s.alts[i] == s.alts[j] && s.scal[i].D == s.scal[j].D && s.scal[i].E == s.scal[j].E && s.scal[i].c == s.scal[j].c) { s.alts.erase(s.alts.begin() + j); s.scal.erase(s.scal.begin() + j); } else j++;
  while (s.alts.size() > 16) { s.alts.pop_back(); s.scal.pop_back(); }
}
static void mid_stall(const Op& op, const Rec& r, i64& lo) {
  for (auto& st : op.f.stalls) if (!st.wall && st.edge >= 0 && st.edge > r.tr.edges * 0.3 && st.edge < r.tr.edges * 0.7) lo += st.ns;
}
// The factorisation of a badly scaled matrix can fail by rounding alone: such an update may be refused, whatever its arguments
static bool may_fail(const Shadow& sh, const Op& op) {
  if (op.k != "uvec" && op.k != "umat" && op.k != "urho") return false;
  auto wild = [](const V& w) { for (double e : w) if (std::fabs(e) > 3e3) return true; return false; };
  for (auto& p : sh.alts) if (wild(p.A.x) || wild(p.P.x)) return true;
  return (op.has("Px") && wild(op.arr("Px"))) || (op.has("Ax") && wild(op.arr("Ax")));
}
static void step(Shadow& sh, const Op& op, const Rec& r) {
  if (!r.exec) return;
  bool injected = r.tr.alloc_fired || r.tr.ls_fired || (r.ret != 0 && sh.live && !op.has("nosolver") && validity(op, sh) != 0 && may_fail(sh, op));
  i64 dur = r.tr.t1 - r.tr.t0;
  if (op.k == "cleanup") { sh = Shadow(); return; }
  if (op.k == "setup") {
    sh = Shadow();
    sh.live = r.live;
    if (r.live) {
      Prob p = prob_of(op); sh.set = op.arr("set");
      sh.alts = {p}; sh.scal = {ruiz(p, (int)sh.set[S_SCALING])};
      sh.setup_lo = r.tr.main_ns; mid_stall(op, r, sh.setup_lo); sh.setup_hi = dur;
    }
    return;
  }
  if (!sh.live || op.has("nosolver")) return;
  bool upd = op.k == "uvec" || op.k == "umat" || op.k == "urho";
  if (upd) {
    if (sh.updates_since == 0 && sh.solves > 0 && false) {}
    i64 lo = 0;
    if (r.ret == 0 && !injected) { lo = r.tr.main_ns; mid_stall(op, r, lo); } else { sh.acc_fuzzy = true; }
    sh.acc_lo += lo; sh.acc_hi += dur; sh.updates_since++;
  }
  int val = validity(op, sh);
  if (op.k == "uvec" && (val != 0 || injected)) {
    if (r.ret == 0) { for (auto& p : sh.alts) apply_vec(p, op); }
    else if (injected) { size_t k = sh.alts.size(); for (size_t i = 0; i < k; i++) { Prob p = sh.alts[i]; apply_vec(p, op); sh.alts.push_back(p); sh.scal.push_back(sh.scal[i]); } sh.lin_bad = true; }
    dedupe(sh);
  } else if (op.k == "umat" && (val != 0 || injected)) {
    size_t k = sh.alts.size();
    if (r.ret == 0 || op.has("nc")) {
      for (size_t i = 0; i < k; i++) { apply_mat(sh.alts[i], op); sh.scal[i] = ruiz(sh.alts[i], (int)sh.set[S_SCALING]); }
      bool full = k && ((op.has("Px") && !op.has("Pidx")) || !sh.alts[0].P.nnz()) && ((op.has("Ax") && !op.has("Aidx")) || !sh.alts[0].A.nnz());
      if (r.ret != 0) sh.lin_bad = true; else if (!injected && full) sh.lin_bad = false;
    } else if (injected) {
      for (size_t i = 0; i < k; i++) { Prob p = sh.alts[i]; apply_mat(p, op); sh.alts.push_back(p); sh.scal.push_back(ruiz(p, (int)sh.set[S_SCALING])); }
      sh.lin_bad = true;
    }
    dedupe(sh);
  } else if (op.k == "uset" && r.ret == 0 && val == 1) set_update(sh.set, op.arr("set"));
  else if (op.k == "wstart" && r.ret == 0) sh.set[S_WARM] = 1;
  else if (op.k == "urho" && r.ret != 0 && injected) sh.lin_bad = true;
  else if (op.k == "solve") {
    if (r.ret != 0 && injected) sh.lin_bad = true;
    sh.solves++;
    sh.completed++;   // an interrupted or failed solve is a solve
    sh.acc_lo = sh.acc_hi = 0; sh.acc_fuzzy = false; sh.updates_since = 0;
  }
}
std::vector<std::vector<Shadow>> shadows(const Plan& p, const Run& r) {
  int ns = 1; for (auto& o : p.ops) ns = std::max(ns, o.slot + 1);
  std::vector<Shadow> cur(ns);
  std::vector<std::vector<Shadow>> out;
  for (size_t i = 0; i < p.ops.size(); i++) { out.push_back(cur); step(cur[p.ops[i].slot], p.ops[i], r.rec[i]); }
  out.push_back(cur);
  return out;
}

// ------------------------------------------------------------------ the judge ------------------
static const double NS = 1e-9;
static bool same_bytes(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }

Viols judge_run(const Case& c, const Run& r) {
  Viols out;
  const Plan& P = c.plan;
  auto add = [&](const char* prop, const std::string& kind, const std::string& msg, int op) {
    if (out.size() < 200) out.push_back({prop, kind, msg, op});
  };
  int ns = 1; for (auto& o : P.ops) ns = std::max(ns, o.slot + 1);
  std::vector<Shadow> sh(ns);
  std::vector<Rec> last(ns);      // snapshot after the previous op of the slot
  bool single = P.nth <= 1;
  for (size_t i = 0; i < P.ops.size(); i++) {
    const Op& op = P.ops[i]; const Rec& x = r.rec[i];
    Shadow S = sh[op.slot];
    const Rec prev = last[op.slot];
    step(sh[op.slot], op, x);
    if (!x.exec || op.k == "disp" || op.k == "sigint" || op.k == "wait" || op.k == "wall") continue;
    last[op.slot] = x;
    int oi = (int)i;
    bool injected = x.tr.alloc_fired || x.tr.ls_fired;
    if (!x.args_ok) add("C13", "argument-changed", "the call changed its input: " + x.args_msg, oi);
    if (!x.mem.empty()) add("C09", "memory", x.mem, oi);
    if (x.tr.stale_solves) add("C16", "stale-factors", f("%lld linear solves used the factors of another matrix, or of a factorisation that failed", (long long)x.tr.stale_solves), oi);
    if (single && !x.disp_ok) add("C07", "handler-lost", "the process's previous SIGINT disposition is not back in place after the call", oi);
    int val = (op.k == "setup" || S.live || op.has("nosolver")) ? validity(op, S) : -1;
    bool api = op.k == "setup" || op.k == "uvec" || op.k == "umat" || op.k == "urho" || op.k == "uset" || op.k == "getsol" || op.k == "wstart" || op.k == "solve";
    if (api && val == 0 && x.ret == 0) add("C05", "invalid-accepted", "a call with invalid arguments was accepted", oi);
    if (api && val == 1 && x.ret != 0 && !injected && op.k != "solve" && !(op.k == "setup" && x.ret == OSQP_NONCVX_ERROR) && !may_fail(S, op))
      add("C05", "valid-refused", f("a valid %s call was refused with %lld", op.k.c_str(), (long long)x.ret), oi);
    if (op.k == "setup" && val == 1 && x.ret == OSQP_NONCVX_ERROR && c.num("noncvx") == 0 && !injected)
      add("C16", "convex-called-nonconvex", "setup of a convex problem reports non-convexity", oi);
    if (val == 0 && x.ret != 0 && S.live && !op.has("nosolver") && x.live) {
      // nothing the caller can read may have changed
      if (memcmp(&x.info, &prev.info, sizeof(OSQPInfo))) add("C05", "info-changed", "a rejected call changed the info record", oi);
      if (!same_bytes(x.set, prev.set)) add("C05", "settings-changed", "a rejected call changed the settings", oi);
      if (!same_bytes(x.sol.x, prev.sol.x) || !same_bytes(x.sol.y, prev.sol.y) || !same_bytes(x.sol.pc, prev.sol.pc) || !same_bytes(x.sol.dc, prev.sol.dc))
        add("C05", "solution-changed", "a rejected call changed the stored solution", oi);
    }
    if (op.k == "getdims") {
      if (op.has("nosolver") ? (x.dm != -1 || x.dn != -1) : (!S.alts.empty() && (x.dm != S.alts[0].m || x.dn != S.alts[0].n))) add("C05", "dims", "osqp_get_dimensions reports wrong dimensions", oi);
    }
    if (op.k == "newset" && x.ret == 0 && !x.misc.empty()) {
      Set d = default_set(); d[S_VERBOSE] = x.misc[S_VERBOSE];
      if (!same_bytes(d, x.misc)) add("C08", "defaults", "OSQPSettings_new returned something other than the default settings", oi);
    }
    if (op.k == "errmsg") {
      const V& cs = op.arr("code");
      double unknown = -1;
      for (size_t k = 0; k < cs.size() && 2 * k + 1 < x.misc.size(); k++) if (cs[k] == 1e9) unknown = x.misc[2 * k + 1];
      for (size_t k = 0; k < cs.size() && 2 * k + 1 < x.misc.size(); k++) {
        if (x.misc[2 * k] <= 0) add("C09", "message", f("there is no message for return code %g", cs[k]), oi);
        else if (unknown >= 0 && (cs[k] < 0 || cs[k] > 11) && x.misc[2 * k + 1] != unknown) add("C09", "message", f("return code %g, which does not exist, has a message of its own", cs[k]), oi);
      }
    }
    if (op.k == "newmat" && x.ret == 0 && !x.misc.empty()) {
      int w = (int)op.num("which"); i64 m = (i64)op.num("m"), n = (i64)op.num("n"); if (w == 0) m = n;
      i64 k = w == 3 ? 0 : std::min(m, n);
      V e = {(double)m, (double)n, (double)(w < 4 ? k : 0)};
      if (w < 4) {
        for (i64 j = 0; j <= n; j++) e.push_back((double)std::min(j, k));
        for (i64 j = 0; j < k; j++) { e.push_back((double)j); e.push_back(w == 0 ? 1.0 : w == 1 ? 2.5 : op.arr("x")[j]); }
      }
      if (!same_bytes(e, x.misc)) add("C08", "helper-matrix", "a matrix helper that reported success returned the wrong matrix", oi);
    }
    // a call that does not set up a solver must not change the memory held
    if (single && x.live && S.live && op.k != "setup" && op.k != "cleanup") {
      if (x.l1.live_bytes != x.l0.live_bytes || x.l1.live_blocks != x.l0.live_blocks || x.l1.live_handles != x.l0.live_handles || x.l1.live_factors != x.l0.live_factors)
        add("C09", "memory-held-changed", f("%s changed the memory held: %zu -> %zu bytes in %zu -> %zu blocks, factorisations %zu -> %zu, handles %zu -> %zu", op.k.c_str(), x.l0.live_bytes, x.l1.live_bytes,
            x.l0.live_blocks, x.l1.live_blocks, x.l0.live_factors, x.l1.live_factors, x.l0.live_handles, x.l1.live_handles), oi);
    }
    if (op.k == "setup" && x.ret != 0 && val == 0 && single && (x.l1.live_blocks != x.l0.live_blocks)) add("C09", "memory-held-changed", "a rejected setup kept memory", oi);
    if (op.k == "setup" && x.live) {
      if (x.info.status_val != OSQP_UNSOLVED || strcmp(x.info.status, "unsolved")) add("C03", "setup-info", "status after setup is not unsolved", oi);
      if (x.info.status_polish != 0 || x.info.rho_updates != 0) add("C03", "setup-info", "fresh info record is not clean", oi);
      double lo = sh[op.slot].setup_lo * NS, hi = sh[op.slot].setup_hi * NS;
      if (!(x.info.setup_time >= lo * (1 - 1e-9) - 1e-9 && x.info.setup_time <= hi * (1 + 1e-9) + 1e-9)) add("C12", "setup-time", f("setup_time %.9g outside [%.9g, %.9g]", x.info.setup_time, lo, hi), oi);
    }
    bool upd = op.k == "uvec" || op.k == "umat" || op.k == "urho";
    if (upd && S.live && x.live && !op.has("nosolver") && x.ret == 0) {
      const Shadow& T = sh[op.slot];
      double lo = T.acc_lo * NS, hi = T.acc_hi * NS;
      if (!(x.info.update_time >= lo * (1 - 1e-9) - 1e-9 && x.info.update_time <= hi * (1 + 1e-9) + 1e-9))
        add("C12", "update-time", f("update_time %.9g after %d update calls that took [%.9g, %.9g]", x.info.update_time, T.updates_since, lo, hi), oi);
    }
    if (op.k != "solve" || !S.live || op.has("nosolver")) continue;

    // ---------------- a solve
    const OSQPInfo& I = x.info;
    i64 st = I.status_val;
    double rho = std::max(x.set[S_RHO], prev.set.size() ? prev.set[S_RHO] : x.set[S_RHO]);
    const Set& set = S.set;
    bool intr = st == OSQP_SIGINT;
    if (x.tr.sig_lost) add("C07", "signal-lost", "a signal during the call found an action that neither the application nor the library set for it", oi);
    if (intr && x.tr.sig_to_other == 0) add("C07", "phantom-interrupt", "the solve reports an interrupt but no signal reached it", oi);
    if (x.tr.sig_to_other > 0 && single) {
      i64 extra = x.tr.main_solves - x.tr.sig_main_solves;
      if (extra > 1) add("C07", "late-interrupt", f("%lld main iterations were started after the interrupt", (long long)extra), oi);
      if (!intr && extra > 0 && x.ret == 0) add("C07", "ignored-interrupt", "iterations continued after the interrupt and the status does not say so", oi);
      if (intr && x.ret == 0) { /* either convention is fine */ }
    }
    if (x.ret != 0) {
      if (!injected && !intr) add("C16", "solve-error", f("osqp_solve failed with %lld without any fault", (long long)x.ret), oi);
    }
    if (st < 1 || st > OSQP_UNSOLVED) { add("C03", "status-range", f("status %lld", (long long)st), oi); continue; }
    if (strcmp(I.status, status_text[st])) add("C03", "status-text", f("status_val %lld but status text '%s'", (long long)st, I.status), oi);
    if (x.set[S_RHO] < 1e-6 * (1 - 1e-12) || x.set[S_RHO] > 1e6 * (1 + 1e-12)) add("C17", "rho-range", f("rho = %g", x.set[S_RHO]), oi);
    if (x.tr.main_solves > (i64)set[S_MAXITER]) add("C17", "too-many-iterations", f("%lld iterations, max_iter %g", (long long)x.tr.main_solves, set[S_MAXITER]), oi);
    if (set[S_AR] == 0 && x.set[S_RHO] != prev.set[S_RHO]) add("C17", "rho-changed", "rho changed although adaptation is off", oi);
    if (set[S_LINSYS] == OSQP_DIRECT_SOLVER && !injected) {
      i64 k = 0, fac = 0, iv = (i64)x.set[S_ARINT];
      for (auto& e : x.tr.ls) if (e.main) {
        if (e.kind == 33) k++;
        if (e.kind == 22) { if (!k && S.lin_bad) continue;   // repeats a factorisation that failed earlier
          fac++; if (iv > 0 && k % iv) { add("C17", "rho-schedule", f("rho adapted after iteration %lld, interval %lld", (long long)k, (long long)iv), oi); break; } }
      }
      if (set[S_AR] == 0 && fac) add("C17", "rho-schedule", "refactorisation although adaptation is off", oi);
      if (!intr && x.ret == 0 && I.rho_updates != fac && S.alts.size() == 1 && S.alts[0].m >= 0)
        add("C03", "rho-updates", f("rho_updates = %lld but this solve refactored %lld times", (long long)I.rho_updates, (long long)fac), oi);
    }
    if (set[S_AR] == 2 && prev.set[S_ARINT] == 0) {   // the interval is fixed at the first iteration by which the given fraction of the setup time has passed
      double thr = set[S_ARFRAC] * prev.info.setup_time;
      std::vector<const rt::LsEv*> it; for (auto& e : x.tr.ls) if (e.main && (e.kind == 33 || e.kind == 100)) it.push_back(&e);
      i64 v = (i64)x.set[S_ARINT], ch = (i64)set[S_CHECK], mu = ch ? ch : 25, nit = (i64)it.size();
      bool ok = false, due = false;
      for (i64 j = 1; j <= nit; j++) {
        double lo = (it[j - 1]->t + it[j - 1]->dur - it[0]->t) * NS, hi = ((j < nit ? it[j]->t : x.tr.t1) - x.tr.t0) * NS;
        i64 w = (i64)((2 * j + mu) / (2 * mu)) * mu;    // the closest multiple
        if (hi > thr * (1 - 1e-9) && v == std::max<i64>(1, std::max(w, ch))) ok = true;
        if (lo > thr * (1 + 1e-9) + 1e-12) { due = j < nit; break; }
      }
      if (v > 0 && !ok) add("C17", "rho-interval", f("time-based adaptation: interval %lld does not belong to the moment %.3g of %.3g s of setup time had passed", (long long)v, thr, prev.info.setup_time), oi);
      if (v == 0 && due) add("C17", "rho-interval", f("time-based adaptation: %.3g s have passed and no interval is fixed", thr), oi);
    }
    // memory of times
    if (intr || x.ret != 0) continue;

    if (st == OSQP_UNSOLVED) add("C03", "status-unsolved", "a finished solve left the status 'unsolved'", oi);
    if (I.iter != x.tr.main_solves) add("C03", "iter", f("iter = %lld but %lld iterations were run", (long long)I.iter, (long long)x.tr.main_solves), oi);
    if (st == OSQP_MAX_ITER_REACHED && I.iter != (i64)set[S_MAXITER]) add("C03", "max-iter", f("status 'maximum iterations reached' after %lld of %g iterations", (long long)I.iter, set[S_MAXITER]), oi);
    if (!(I.rho_estimate >= 1e-6 * (1 - 1e-12) && I.rho_estimate <= 1e6 * (1 + 1e-12))) add("C03", "rho-estimate", f("rho_estimate = %g", I.rho_estimate), oi);
    bool pol_due = set[S_POLISH] && st == OSQP_SOLVED;
    if (!pol_due && I.status_polish != OSQP_POLISH_NOT_PERFORMED) add("C03", "status-polish", f("status_polish = %lld although this solve did not polish", (long long)I.status_polish), oi);
    if (pol_due && I.status_polish == OSQP_POLISH_NOT_PERFORMED) add("C03", "status-polish", "polishing was due but is reported as not performed", oi);

    // which data explain the result
    auto explain = [&](const std::function<std::string(const Prob&, const Scal&)>& fn) {
      std::string first;
      for (size_t a = 0; a < S.alts.size(); a++) { std::string w = fn(S.alts[a], S.scal[a]); if (w.empty()) return std::string(); if (first.empty()) first = w; }
      return first;
    };
    if (x.sol.has) {
      if (is_solved(st)) {
        std::string w = explain([&](const Prob& p, const Scal& s) { return sol_check(p, s, set, rho, x.sol, st, I.status_polish == OSQP_POLISH_SUCCESS); });
        if (!w.empty()) add("C01", "not-optimal", w, oi);
      }
      if (has_point(st) || st == OSQP_NON_CVX) {
        if (!all_mark(x.sol.pc) || !all_mark(x.sol.dc)) add("C02", "certificate-offered", "a certificate is offered without an infeasibility verdict", oi);
      } else if (is_inf(st)) {
        std::string w = explain([&](const Prob& p, const Scal& s) { return cert_check(p, s, set, x.sol, st); });
        if (!w.empty()) add("C02", "bad-certificate", w, oi);
      }
    }
    bool tame = true;   // rounding alone (or a truncated CG) can make the iterates of badly scaled problems diverge
    for (auto& p : S.alts) for (const V* w : {&p.A.x, &p.P.x}) for (double e : *w) if (std::fabs(e) > 3e3) tame = false;
    if (st == OSQP_NON_CVX && tame && set[S_LINSYS] == OSQP_DIRECT_SOLVER && !injected && !S.lin_bad && !c.num("noncvx")) add("C02", "false-nonconvex", "a convex problem is called non-convex", oi);
    if (is_inf(st)) {
      bool pr = st <= OSQP_PRIMAL_INFEASIBLE_INACCURATE;
      if (I.obj_val != (pr ? OSQP_INFTY : -OSQP_INFTY)) add("C02", "infeasible-objective", f("obj_val = %g with an infeasibility verdict", I.obj_val), oi);
      // a comfortably feasible, bounded problem is never called infeasible: known interior point, strong convexity
      if (c.par.count("interior") && S.updates_since == 0 && S.solves == 0 && c.num("interior") > 0) {
        ld lim = (pr ? set[S_EPINF] : set[S_EDINF]) * 10;
        if (pr && c.num("interior") > lim * c.num("x0norm1") * 4 && !(set[S_SCTERM] && set[S_SCALING])) add("C02", "false-infeasible", "a problem with a comfortable interior is called primal infeasible", oi);
        if (!pr && c.num("dmin") > lim * 10 * S.alts[0].n && !(set[S_SCTERM] && set[S_SCALING])) add("C02", "false-infeasible", "a strongly convex problem is called dual infeasible", oi);
      }
    }
    {
      std::string w = explain([&](const Prob& p, const Scal& s) { return info_check(p, s, set, rho, x); });
      if (!w.empty()) add("C03", "info-mismatch", w, oi);
    }
    // ---------------- termination schedule
    i64 chk = (i64)set[S_CHECK];
    if ((st == OSQP_SOLVED || st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE) && I.iter < (i64)set[S_MAXITER]) {
      bool tl = set[S_TLIM] < 1e9;
      if (!tl && (chk == 0 || I.iter % chk)) add("C17", "check-interval", f("stopped at iteration %lld with check interval %lld", (long long)I.iter, (long long)chk), oi);
    }
    // ---------------- times
    double dur = (x.tr.t1 - x.tr.t0) * NS;
    bool first = S.completed == 0;
    double slo = x.tr.main_ns * NS, shi = dur - x.tr.polish_ns * NS;
    {
      i64 e0 = -1, e1 = -1;
      for (auto& e : x.tr.ls) if (e.main) { if (e0 < 0) e0 = e.edge; e1 = e.edge; }
      for (auto& s : op.f.stalls) if (!s.wall && s.edge >= 0 && s.edge > e0 + 1 && s.edge < e1 - 1 && e0 >= 0) slo += s.ns * NS;
    }
    auto in = [](double v, double lo, double hi) { return v >= lo * (1 - 1e-9) - 1e-9 && v <= hi * (1 + 1e-9) + 1e-9; };
    if (!in(I.solve_time, slo, shi)) add("C12", "solve-time", f("solve_time %.9g outside [%.9g, %.9g]", I.solve_time, slo, shi), oi);
    if (pol_due) { if (!in(I.polish_time, x.tr.polish_ns * NS, dur - x.tr.main_ns * NS)) add("C12", "polish-time", f("polish_time %.9g outside [%.9g, %.9g]", I.polish_time, x.tr.polish_ns * NS, dur - x.tr.main_ns * NS), oi); }
    else if (I.polish_time != 0) add("C12", "polish-time", f("polish_time %.9g although this solve did not polish", I.polish_time), oi);
    if (I.setup_time != prev.info.setup_time) add("C12", "setup-time", "setup_time changed during a solve", oi);
    double tail = I.solve_time + I.polish_time;
    double ts = I.setup_time + tail, tu = I.update_time + tail;
    bool okS = std::fabs(I.run_time - ts) <= 1e-9 * ts + 1e-12, okU = std::fabs(I.run_time - tu) <= 1e-9 * tu + 1e-12;
    if (first ? !okS : !okU) add("C12", "run-time", f("run_time %.9g but setup %.9g update %.9g solve %.9g polish %.9g", I.run_time, I.setup_time, I.update_time, I.solve_time, I.polish_time), oi);
    {
      double lo = S.acc_lo * NS, hi = S.acc_hi * NS;
      if (!in(I.update_time, lo, hi)) add("C12", "update-time", f("update_time %.9g at a solve preceded by %d update calls that took [%.9g, %.9g]", I.update_time, S.updates_since, lo, hi), oi);
    }
    // ---------------- time limit
    double lim = set[S_TLIM];
    if (lim > 0) {
      i64 alo = first ? S.setup_lo : S.acc_lo, ahi = first ? S.setup_hi : S.acc_hi;
      double U = ahi * NS + dur;
      bool stop_by_time = st == OSQP_TIME_LIMIT_REACHED || ((st == OSQP_SOLVED_INACCURATE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE) && I.iter < (i64)set[S_MAXITER]);
      if (stop_by_time && U < lim * (1 - 1e-9)) add("C06", "early-stop", f("stopped by the time limit %.9g after at most %.9g s", lim, U), oi);
      if (stop_by_time && lim > 9e9) add("C06", "early-stop", "stopped by a time limit that was not set", oi);
      i64 t0 = -1, over = 0; bool past = false;
      for (auto& e : x.tr.ls) if (e.main && (e.kind == 33 || e.kind == 100)) {
        if (t0 < 0) t0 = e.t;
        if ((alo + (e.t - t0)) * NS >= lim * (1 + 1e-9)) { over++; }
        if ((alo + (e.t + e.dur - t0)) * NS >= lim * (1 + 1e-9)) past = true;
      }
      if (over > 1) add("C06", "late-stop", f("%lld iterations were started after the time limit %.9g had passed", (long long)over, lim), oi);
      if (past && st == OSQP_MAX_ITER_REACHED && I.iter < (i64)set[S_MAXITER]) add("C06", "wrong-status", "the time limit passed but the status is 'maximum iterations reached'", oi);
    }
  }
  // ---------------- end of the run
  for (size_t i = P.ops.size(); i < r.rec.size(); i++) {
    const Rec& x = r.rec[i];
    if (!x.mem.empty()) add("C09", "memory", x.mem, (int)i);
    if (single && !x.disp_ok) add("C07", "handler-lost", "disposition not intact after cleanup", (int)i);
  }
  if (!r.mem.empty()) add("C09", "memory", r.mem, -1);
  if (!r.leaks.empty()) add("C09", "leak", "after cleanup: " + r.leaks, -1);
  if (r.open_files) add("C09", "open-files", "files left open", -1);
  return out;
}

bool same_result(const Rec& a, const Rec& b, bool full, std::string& why) {
  auto d = [&](const char* n, double x, double y) { if (memcmp(&x, &y, 8) && !(x == y)) { why = f("%s differs: %.17g vs %.17g", n, x, y); return true; } return false; };
  if (a.exec != b.exec || a.live != b.live) { why = "one run executed the call, the other did not"; return false; }
  if (!a.exec) return true;
  if (a.ret != b.ret) { why = f("return code %lld vs %lld", (long long)a.ret, (long long)b.ret); return false; }
  if (!a.live) return true;
  const OSQPInfo &I = a.info, &J = b.info;
  if (d("status", I.status_val, J.status_val) || d("iter", I.iter, J.iter) || d("obj_val", I.obj_val, J.obj_val) || d("prim_res", I.prim_res, J.prim_res) || d("dual_res", I.dual_res, J.dual_res)) return false;
  auto vd = [&](const char* n, const V& x, const V& y) {
    if (x.size() != y.size()) { why = f("%s has different lengths", n); return true; }
    for (size_t i = 0; i < x.size(); i++) if (memcmp(&x[i], &y[i], 8) && !(x[i] == y[i])) { why = f("%s[%zu] differs: %.17g vs %.17g", n, i, x[i], y[i]); return true; }
    return false;
  };
  if (vd("x", a.sol.x, b.sol.x) || vd("y", a.sol.y, b.sol.y) || vd("prim_inf_cert", a.sol.pc, b.sol.pc) || vd("dual_inf_cert", a.sol.dc, b.sol.dc)) return false;
  if (vd("read x", a.out.x, b.out.x) || vd("read y", a.out.y, b.out.y) || vd("read prim_inf_cert", a.out.pc, b.out.pc) || vd("read dual_inf_cert", a.out.dc, b.out.dc)) return false;
  if (full) {
    if (d("primdual_int", I.primdual_int, J.primdual_int) || d("dual_obj_val", I.dual_obj_val, J.dual_obj_val) || d("duality_gap", I.duality_gap, J.duality_gap) || d("rho_updates", I.rho_updates, J.rho_updates) ||
        d("rho_estimate", I.rho_estimate, J.rho_estimate) || d("status_polish", I.status_polish, J.status_polish) || d("rel_kkt_error", I.rel_kkt_error, J.rel_kkt_error)) return false;
    if (strcmp(I.status, J.status)) { why = "status text differs"; return false; }
    Set sa = a.set, sb = b.set; sa[S_VERBOSE] = sb[S_VERBOSE] = 0;
    if (vd("settings", sa, sb)) return false;
  }
  return true;
}

Stats stats;
void count_stats(const Plan& p, const Run& r) {
  Stats& s = stats;
  s.runs++; s.simns += r.simns; s.switches += r.switches;
  if (s.covs.size() < 400000) s.covs.push_back(r.cov);
  if (r.switches && s.ilvs.size() < 400000) s.ilvs.push_back(r.ilv);
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Rec& x = r.rec[i]; const Op& op = p.ops[i];
    if (!x.exec) continue;
    s.ops++;
    if (x.tr.alloc_fired) s.faults["alloc_failed"] += x.tr.alloc_fired;
    if (x.tr.ls_fired) s.faults["linear_solver_error"] += x.tr.ls_fired;
    if (x.tr.io_fired) s.faults["io_error"] += x.tr.io_fired;
    if (x.tr.sig_to_other) s.faults["sigint_to_solver"] += x.tr.sig_to_other;
    if (x.tr.sig_to_user) s.faults["sigint_to_application"] += x.tr.sig_to_user;
    if (x.tr.sig_default || x.tr.sig_ignored) s.faults["sigint_default_or_ignored"] += x.tr.sig_default + x.tr.sig_ignored;
    if (x.tr.stalls_fired) s.faults["stall"] += x.tr.stalls_fired;
    if (op.k == "wall") s.faults["wall_clock_jump"]++;
    if (op.k == "sigint") s.faults["sigint_between_calls"]++;
    if (x.live && x.ret != 0 && !x.tr.alloc_fired && !x.tr.ls_fired && op.k != "solve") s.faults["rejected_call"]++;
    if (op.k == "solve" && x.live) {
      s.solves++; s.iters += x.tr.main_solves;
      i64 v = x.info.status_val;
      s.status[v >= 1 && v <= 11 ? status_text[v] : "?"]++;
      if (x.info.status_polish == 1) s.events["polished"]++;
      if (x.info.rho_updates > 0) s.events["rho_adapted"]++;
    }
  }
}
