// One profile per property: what is generated, which faults are injected, and how a case is decided.
#include "sim.h"
#include "emb.h"
#include <cmath>
#include <cstring>
#include <algorithm>

// ------------------------------------------------------------------ histories ------------------
enum { H_INVALID = 1, H_TIME = 2, H_SIG = 4, H_ALLOC = 8, H_LS = 16, H_WALL = 32, H_XRHO = 64, H_STALL = 128, H_HELPERS = 256,
       H_DISP = 512, H_NOMAT = 1024, H_NOGETSOL = 2048, H_NORHO = 4096, H_INTSIG = 8192 };

static void rand_cfg(Rng& g, rt::Cfg& c) {
  c.poison = g.sub(); c.poison_mode = (int)g.below(4);
  c.pad = (size_t)g.below(64) * 64; c.padseed = g.chance(0.5) ? 1 : 0;
  c.edge_ns = g.pick({1, 5, 20, 0}); c.ls_ns = (i64)g.logu(3, 6); c.fac_ns = (i64)g.logu(3, 7); c.clk_ns = g.pick({0, 20, 500});
  c.mono_base = (i64)g.logu(6, 17); c.wall_off = (i64)g.logu(15, 18);
}

struct Gen {
  Rng& g; Plan& plan; unsigned h, gf; int slot, th;
  GenProb gp; Prob cur; Set set;
  Gen(Rng& g_, Plan& p_, unsigned h_, unsigned gf_, int slot_ = 0, int th_ = 0) : g(g_), plan(p_), h(h_), gf(gf_), slot(slot_), th(th_) {}
  void add(Op o) { o.slot = slot; o.th = th; plan.ops.push_back(o); }
  double limit() {  // a time limit near what a few iterations cost
    const rt::Cfg& c = plan.cfg;
    return 1e-9 * (c.fac_ns * g.uni(0, 4) + (c.ls_ns + 100) * (double)g.range(1, 120));
  }
  Set newset() {
    Set s = gen_set(g, gp, gf);
    if ((h & H_TIME) && g.chance(0.5)) s[S_TLIM] = limit();
    return s;
  }
  void setup(const GenProb& p) { gp = p; cur = p.pr; set = newset(); add(op_setup(slot, cur, set)); }
  void setup_fixed(const GenProb& p, const Set& s) { gp = p; cur = p.pr; set = s; add(op_setup(slot, cur, set)); }
  V rvec(i64 n, double a) { V v(n); for (auto& d : v) d = g.uni(-a, a); return v; }
  void around(V& l, V& u, bool consistent) {     // new bounds, around one point or around independent ones
    V x = g.chance(0.5) ? gp.x0 : rvec(cur.n, 2), Ax = mulA(cur.A, x);
    for (i64 i = 0; i < cur.m; i++) {
      double c = consistent ? Ax[i] : g.uni(-3, 3);
      double a = g.uni(0.3, 2), b = g.uni(0.3, 2);
      int k = (int)g.below(12);
      l[i] = c - a; u[i] = c + b;
      if (k == 0) l[i] = u[i] = c;
      else if (k <= 3) u[i] = OSQP_INFTY;
      else if (k <= 6) l[i] = -OSQP_INFTY;
      else if (k == 7) { l[i] = -OSQP_INFTY; u[i] = OSQP_INFTY; }
    }
  }
  void uvec() {
    Op o = mk("uvec");
    int what = (int)g.below(10);
    if (what <= 3 || what == 9 || (what <= 6 && g.chance(0.3))) {
      V q = cur.q;
      int k = (int)g.below(4);
      if (k == 0) q = rvec(cur.n, 2); else if (k == 1) for (auto& d : q) d *= g.uni(0.3, 2); else if (k == 2) for (auto& d : q) d = -d; else q[g.below(q.size())] += g.uni(-1, 1);
      o.v["q"] = q; cur.q = q;
    }
    if (cur.m > 0 && what >= 3) {
      V l = cur.l, u = cur.u;
      double eq = what <= 5 && g.chance(0.4) ? 0.25 : 0;   // one side only may turn inequalities into equalities as well
      if (what == 4) { for (i64 i = 0; i < cur.m; i++) if (u[i] > 1e29) l[i] = g.uni(-3, 2); else l[i] = u[i] - (g.chance(eq) ? 0 : g.uni(0.1, 3)); o.v["l"] = l; }
      else if (what == 5) { for (i64 i = 0; i < cur.m; i++) if (l[i] < -1e29) u[i] = g.uni(-2, 3); else u[i] = l[i] + (g.chance(eq) ? 0 : g.uni(0.1, 3)); o.v["u"] = u; }
      else if (what == 6) { i64 i = (i64)g.below(cur.m); double c = g.uni(-1, 1); if (g.chance(0.5)) l[i] = u[i] = c; else { l[i] = g.chance(0.5) ? -OSQP_INFTY : c - 1; u[i] = g.chance(0.5) ? OSQP_INFTY : c + 1; } o.v["l"] = l; o.v["u"] = u; }
      else if (what == 8 && g.chance(0.5)) { l = gp.pr.l; u = gp.pr.u; o.v["l"] = l; o.v["u"] = u; }
      else { around(l, u, g.chance(0.7)); o.v["l"] = l; o.v["u"] = u; }
      cur.l = l; cur.u = u;
    }
    add(o);
  }
  void umat() {
    Op o = mk("umat");
    int what = (int)g.below(8);
    i64 nP = cur.P.nnz(), nA = cur.A.nnz();
    if (what != 1 && what != 5 && nP > 0) {       // P
      V x = cur.P.x;
      if (g.chance(0.5)) {                          // full: congruence, keeps the definiteness
        V d(cur.n); for (auto& v : d) v = g.uni(0.6, 1.7);
        for (i64 j = 0; j < cur.n; j++) for (i64 k = cur.P.p[j]; k < cur.P.p[j + 1]; k++) x[k] *= d[j] * d[cur.P.i[k]];
        if (g.chance(0.5) && gp.cls != C_DINF) for (i64 j = 0; j < cur.n; j++) for (i64 k = cur.P.p[j]; k < cur.P.p[j + 1]; k++) if (cur.P.i[k] == j) x[k] += g.uni(0, 1);
        o.v["Px"] = x; o.v["Pn"] = {(double)nP};
      } else {                                      // partial: raise some diagonal entries, move some off-diagonals with their diagonals
        std::map<i64, double> ch;
        for (i64 j = 0; j < cur.n; j++) for (i64 k = cur.P.p[j]; k < cur.P.p[j + 1]; k++) {
          i64 i = cur.P.i[k];
          if (i == j && g.chance(0.5) && !(gp.cls == C_DINF && j == 0)) { double nv = x[k] + g.uni(0, 1.5); x[k] = nv; ch[k] = nv; }
          if (i != j && g.chance(0.3)) {
            i64 di = -1, dj = -1;
            for (i64 t = cur.P.p[i]; t < cur.P.p[i + 1]; t++) if (cur.P.i[t] == i) di = t;
            for (i64 t = cur.P.p[j]; t < cur.P.p[j + 1]; t++) if (cur.P.i[t] == j) dj = t;
            if (di >= 0 && dj >= 0 && di != dj) { double e = g.uni(-0.5, 0.5); x[k] += e; x[di] += std::fabs(e); x[dj] += std::fabs(e); ch[k] = x[k]; ch[di] = x[di]; ch[dj] = x[dj]; }
          }
        }
        V ix, vx; for (auto& c : ch) ix.push_back((double)c.first);
        for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[g.below(i)]);
        for (double k : ix) vx.push_back(x[(size_t)k]);
        o.v["Px"] = vx; o.v["Pidx"] = ix; o.v["Pn"] = {(double)ix.size()};
      }
      cur.P.x = x;
    }
    if (what >= 1 && what != 2 && nA > 0) {         // A
      V x = cur.A.x;
      if (g.chance(0.5)) { for (auto& v : x) v *= g.uni(0.6, 1.6) * (g.chance(0.08) ? -1 : 1); o.v["Ax"] = x; o.v["An"] = {(double)nA}; }
      else {
        V ix, vx;
        for (i64 k = 0; k < nA; k++) if (g.chance(0.4)) ix.push_back((double)k);
        for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[g.below(i)]);
        for (double k : ix) { x[(size_t)k] = x[(size_t)k] * g.uni(0.6, 1.6) + (g.chance(0.2) ? g.uni(-0.5, 0.5) : 0); vx.push_back(x[(size_t)k]); }
        o.v["Ax"] = vx; o.v["Aidx"] = ix; o.v["An"] = {(double)ix.size()};
      }
      cur.A.x = x;
    }
    if (!o.has("Px") && !o.has("Ax")) { uvec(); return; }
    add(o);
  }
  void urho() {
    Op o = mk("urho");
    o.v["rho"] = {(h & H_XRHO) && g.chance(0.4) ? g.pick({1e-6, 1e6, 1e-9, 1e9, 1e-5, 1e5}) : g.logu(-3, 3)};
    add(o);
  }
  void uset() {
    Set s = newset();
    Set c = set; set_update(c, s); set = c;
    Op o = mk("uset"); o.v["set"] = s; add(o);
  }
  void wstart() {
    Op o = mk("wstart");
    int k = (int)g.below(4);
    double a = g.pick({0.5, 2., 20.});
    if (k != 1) o.v["x"] = k == 3 ? gp.x0 : rvec(cur.n, a);
    if (k != 0) o.v["y"] = rvec(cur.m, a);
    add(o);
  }
  void invalid() {
    int k = (int)g.below(16);
    Op o;
    switch (k) {
    case 0: case 1: case 2: case 3: {
      if (!cur.m) { o = mk("urho"); o.v["rho"] = {-1}; break; }
      o = mk("uvec");
      V l = cur.l, u = cur.u; i64 i = (i64)g.below(cur.m);
      auto gap = [&]() { return g.chance(0.3) ? g.logu(-8, -3) : g.uni(0.2, 2); };   // crossed by a little or a lot
      if (k == 0) { for (i64 j = 0; j < cur.m; j++) { l[j] = g.uni(-2, 0); u[j] = g.uni(0.1, 2); } l[i] = g.uni(0.5, 2); u[i] = l[i] - gap(); o.v["l"] = l; o.v["u"] = u; if (g.chance(0.5)) o.v["q"] = rvec(cur.n, 3); }
      else if (k == 1) { if (u[i] > 1e29) { u[i] = 0; l[i] = 1; o.v["u"] = u; o.v["l"] = l; } else { l[i] = u[i] + gap(); o.v["l"] = l; if (g.chance(0.5)) o.v["q"] = rvec(cur.n, 3); } }
      else if (k == 2) { if (l[i] < -1e29) { u[i] = 0; l[i] = 1; o.v["u"] = u; o.v["l"] = l; } else { u[i] = l[i] - gap(); o.v["u"] = u; } }
      else { for (auto& d : l) d = g.uni(0.5, 1); for (auto& d : u) d = g.uni(-1, 0.2); o.v["l"] = l; o.v["u"] = u; o.v["q"] = rvec(cur.n, 3); }
      break;
    }
    case 4: case 5: case 6: {
      o = mk("umat");
      i64 nP = cur.P.nnz(), nA = cur.A.nnz();
      if (k == 4) { V x(nP + 1, 1.0), ix(nP + 1, 0.0); o.v["Px"] = x; if (g.chance(0.5)) o.v["Pidx"] = ix; o.v["Pn"] = {(double)(nP + 1)}; }
      else if (k == 5) { V x(nA + 1, 1.0), ix(nA + 1, 0.0); o.v["Ax"] = x; if (g.chance(0.5)) o.v["Aidx"] = ix; o.v["An"] = {(double)(nA + 1)}; if (g.chance(0.6) && nP) { V px = cur.P.x; for (auto& v : px) v *= 2; o.v["Px"] = px; o.v["Pn"] = {(double)nP}; } }
      else {
        V ax = cur.A.x; for (auto& v : ax) v *= 1.5;
        if (nA) { o.v["Ax"] = ax; o.v["An"] = {(double)nA}; }
        o.v["Px"] = V((size_t)nP + 2, 1.0); o.v["Pidx"] = V((size_t)nP + 2, 0.0); o.v["Pn"] = {-1.0};
      }
      break;
    }
    case 7: o = mk("urho"); o.v["rho"] = {g.pick({0., -1., -1e-9})}; break;
    case 8: case 9: case 10: case 11: {
      o = mk("uset");
      if (k == 8) { if (g.chance(0.3)) break; }
      Set s = newset();
      s[S_TLIM] = set[S_TLIM];
      int w = (int)g.below(22);
      switch (w) {
      case 0: s[S_ALPHA] = g.pick({0., 2., -1., 3.}); break;
      case 1: s[S_MAXITER] = g.pick({0, -1}); break;
      case 2: s[S_EABS] = -1e-3; break;
      case 3: s[S_EREL] = -1e-3; break;
      case 4: s[S_EABS] = s[S_EREL] = 0; break;
      case 5: s[S_EPINF] = 0; break;
      case 6: s[S_EDINF] = -1; break;
      case 7: s[S_SCTERM] = 2; break;
      case 8: s[S_CHECK] = -1; break;
      case 9: s[S_TLIM] = g.pick({0., -1.}); break;
      case 10: s[S_DELTA] = 0; break;
      case 11: s[S_REFINE] = -1; break;
      case 12: s[S_WARM] = 2; break;
      case 13: s[S_POLISH] = 3; break;
      case 14: s[S_VERBOSE] = 5; break;
      case 15: s[S_CGMAX] = 0; break;
      case 16: s[S_CGPREC] = g.pick({2., 3., 7., 255.}); break;
      case 17: s[S_CGRED] = g.pick({0., -1.}); break;
      case 18: s[S_CGFRAC] = g.pick({0., 1., -0.5, 2.}); break;
      case 19: s[S_GAP] = g.pick({2., -1.}); break;
      case 20: s[S_PROFILER] = g.pick({3., -1.}); break;
      default: s[S_CGPREC] = 2; break;
      }
      o.v["set"] = s; break;
    }
    case 12: o = mk("getsol"); o.v["nullsol"] = {}; break;
    case 13: { o = mk(g.chance(0.3) ? "solve" : g.chance(0.5) ? "uvec" : g.chance(0.5) ? "urho" : g.chance(0.5) ? "uset" : "getsol"); o.v["nosolver"] = {}; if (o.k == "urho") o.v["rho"] = {1}; if (o.k == "uset") o.v["set"] = set; break; }
    case 14: { o = mk(g.chance(0.5) ? "wstart" : "umat"); o.v["nosolver"] = {}; break; }
    default: o = mk("uset"); break;
    }
    add(o);
  }
  void bad_setup() {
    Op o = op_setup(slot, cur.n ? cur : gp.pr, set.size() ? set : default_set());
    Prob p = prob_of(o);
    switch (g.below(12)) {
    case 0: o.v["nullP"] = {}; break;
    case 1: o.v["nullA"] = {}; break;
    case 2: o.v["nullq"] = {}; break;
    case 3: o.v["nullset"] = {}; break;
    case 4: o.v["nn"] = {0.0}; break;
    case 5: o.v["mm"] = {-1.0}; break;
    case 6: o.v["Pm"] = {(double)p.n + 1}; break;
    case 7: o.v["An"] = {(double)p.n + 1}; break;
    case 8: if (p.m) { V l = p.l, u = p.u; i64 i = (i64)g.below(p.m); l[i] = 1; u[i] = g.chance(0.3) ? 1 - g.logu(-8, -3) : 0; o.v["l"] = l; o.v["u"] = u; } else o.v["nn"] = {-2.0}; break;
    case 9: { Set s = o.arr("set"); int w = (int)g.below(15);
      if (w == 12) s[S_CGPREC] = g.pick({2., 5.}); else if (w == 13) s[S_LINSYS] = g.pick({2., 7.}); else if (w == 14) s[S_TLIM] = g.pick({0., -1.}); else if (w == 0) s[S_RHO] = 0; else if (w == 1) s[S_SIGMA] = 0; else if (w == 2) s[S_SCALING] = -1; else if (w == 3) s[S_ARTOL] = 0.5; else if (w == 4) s[S_ARINT] = -1; else if (w == 5) s[S_ARFRAC] = 0;
      else if (w == 6) s[S_ALPHA] = 2; else if (w == 7) s[S_RHOVEC] = 2; else if (w == 8) s[S_AR] = 9; else if (w == 9) s[S_ALLOCSOL] = 2; else if (w == 10) s[S_MAXITER] = 0; else s[S_AR] = -1;
      o.v["set"] = s; break; }
    case 10: if (p.n > 1) { // lower triangular entry
      V Pp(p.n + 1, 1.0), Pi, Px; Pp[0] = 0; Pi = {1}; Px = {0.5}; o.v["Pp"] = Pp; o.v["Pi"] = Pi; o.v["Px"] = Px; } else o.v["nn"] = {0.0};
      break;
    default: if (p.m) o.v[g.chance(0.5) ? "nulll" : "nullu"] = {}; else o.v["nn"] = {0.0};
    }
    add(o);
  }
  void step() {
    int r = (int)g.below(100);
    if (r < 34) add(mk("solve"));
    else if (r < 50) uvec();
    else if (r < 62) { if (h & H_NOMAT) uvec(); else umat(); }
    else if (r < 68) { if (h & H_NORHO) add(mk("solve")); else urho(); }
    else if (r < 75) uset();
    else if (r < 82) wstart();
    else if (r < 84) add(mk("cstart"));
    else if (r < 89) { if (h & H_NOGETSOL) add(mk("solve")); else add(mk("getsol")); }
    else if (r < 90) add(mk("getdims"));
    else if (r < 96) { if (h & H_INVALID) invalid(); else add(mk("solve")); }
    else if (r < 97) { if (h & H_WALL) { Op o = mk("wall"); o.v["ns"] = {(double)((i64)g.logu(3, 15) * (g.chance(0.5) ? 1 : -1))}; add(o); } else uvec(); }
    else if (r < 98) { if (h & H_WALL) { Op o = mk("wait"); o.v["ns"] = {(double)(i64)g.logu(3, 10)}; add(o); } else add(mk("solve")); }
    else if (r < 99) { if (h & H_DISP) { Op o = mk("disp"); o.v["d"] = {(double)g.below(5)}; add(o); } else wstart(); }
    else { if (h & H_SIG) add(mk("sigint")); else add(mk("solve")); }
  }
};

// Degenerate relatives of a problem: no objective gradient and/or nothing but zero bounds (x = 0 is feasible)
static void homogeneous(Rng& g, GenProb& p) {
  int k = (int)g.below(3);
  if (k != 0) { for (auto& d : p.pr.q) d = 0; if (p.cls == C_DINF) p.bounded = true; }
  if (k != 1) {
    for (i64 i = 0; i < p.pr.m; i++) {
      if (p.pr.l[i] > -OSQP_INFTY) p.pr.l[i] = 0;
      if (p.pr.u[i] < OSQP_INFTY) p.pr.u[i] = 0;
      if (p.pr.l[i] == 0 && p.pr.u[i] == 0 && g.chance(0.5)) (g.chance(0.5) ? p.pr.l[i] = -OSQP_INFTY : p.pr.u[i] = OSQP_INFTY);
    }
    p.feasible = true; p.bounded = false; p.interior = 0; p.x0.assign(p.pr.n, 0.0);
  }
  p.well = false;
}
static GenProb any_prob(Rng& g, unsigned mask = (1u << C_NONCVX) - 1, int maxn = 6, int maxm = 8) {
  if (g.chance(0.06)) { maxn = 20; maxm = 25; }
  GenProb p = gen_prob(g, pick_cls(g, mask), maxn, maxm);
  if (g.chance(0.05)) homogeneous(g, p);
  return p;
}

// A problem that is slightly non-convex: sigma hides it from the iteration, but the system of the polishing step has the wrong inertia.
static GenProb hidden_noncvx(Rng& g, Case& c) {
  GenProb p = gen_prob(g, C_DIAG, 5, 6);
  i64 k = (i64)g.below(p.pr.P.nnz() ? p.pr.P.nnz() : 1);
  for (i64 c0 = 0; c0 < p.pr.n; c0++) for (i64 j = (i64)p.pr.P.p[c0]; j < (i64)p.pr.P.p[c0 + 1]; j++) if (j == k) {
    bool weak = g.chance(0.7);   // so weak that the solver may stop in the middle of the valley
    p.pr.P.x[j] = -g.logu(weak ? -5.5 : -4, weak ? -4 : -2);
    if (weak) { for (auto& d : p.pr.q) d *= 5; p.pr.q[c0] = 0; }
  }
  p.well = p.bounded = false; p.interior = p.dmin = 0;
  c.par["noncvx"] = 1;
  return p;
}
static void hide(Set& s) { s[S_SIGMA] = 0.1; s[S_SCALING] = 0; s[S_POLISH] = 1; s[S_DELTA] = 1e-8; s[S_LINSYS] = OSQP_DIRECT_SOLVER; s[S_GAP] = 0; s[S_EABS] = s[S_EREL] = 1e-3; s[S_MAXITER] = 2000; }

// A moment of a call: any, or the first or last time some location of the code is passed (rare code gets its share).
static i64 moment(Rng& g, const rt::CallTrace& t) {
  if (t.occ.empty() || g.chance(0.4)) return (i64)g.below(t.edges + 1);
  const auto& o = t.occ[g.below(t.occ.size())];
  return std::max<i64>(0, (g.chance(0.5) ? o.first : o.second) - (i64)g.below(2));
}
static Run dry_run(const Plan& p) { rt::rec_edges = true; Run r = run_plan(p); rt::rec_edges = false; return r; }
// A linear-system call: any, one of the last, or one that is not a plain solve.
static std::vector<i64> rare_calls(const rt::CallTrace& t) {
  std::vector<i64> r;
  if ((i64)t.ls.size() == t.lscalls) for (size_t k = 0; k < t.ls.size(); k++) if (t.ls[k].kind != 33 && t.ls[k].kind != 100 && t.ls[k].kind != -1) r.push_back((i64)k);
  return r;
}
static i64 ls_call(Rng& g, const rt::CallTrace& t) {
  if (g.chance(0.3)) { std::vector<i64> rare = rare_calls(t); if (!rare.empty()) return rare[g.below(rare.size())]; }
  return g.chance(0.4) ? t.lscalls - 1 - (i64)g.below(std::min<i64>(t.lscalls, 4)) : (i64)g.below(t.lscalls);
}
// faults go where the fault-free execution shows something happening
static void place_faults(Rng& g, Plan& p, unsigned h, int howmany) {
  if (!(h & (H_SIG | H_ALLOC | H_LS | H_STALL))) return;
  Run dry = dry_run(p);
  std::vector<size_t> solves, upd, all;
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (!dry.rec[i].exec || !dry.rec[i].tr.edges) continue;
    all.push_back(i);
    if (p.ops[i].k == "solve") solves.push_back(i);
    if (p.ops[i].k == "umat" || p.ops[i].k == "urho" || p.ops[i].k == "uvec") upd.push_back(i);
  }
  if (all.empty()) return;
  std::vector<int> kinds;
  for (int k : {H_SIG, H_ALLOC, H_LS, H_STALL}) if (h & k) kinds.push_back(k);
  for (int f = 0; f < howmany; f++) {
    int k = kinds[g.below(kinds.size())];
    auto pick = [&](const std::vector<size_t>& v) { return v.empty() ? all[g.below(all.size())] : v[g.below(v.size())]; };
    size_t i = 0;
    if (k == H_LS && g.chance(0.4)) {               // a factorisation in the middle of a solve
      std::vector<size_t> withf; for (size_t j : solves) if (!rare_calls(dry.rec[j].tr).empty()) withf.push_back(j);
      if (!withf.empty()) { i = withf[g.below(withf.size())]; std::vector<i64> rc = rare_calls(dry.rec[i].tr); rt::Faults& ff = p.ops[i].f; ff.ls_at = rc[g.below(rc.size())]; ff.ls_persist = g.chance(0.3); ff.ls_code = g.pick({-4, -1, -2, -3, -10, -7}); ff.ls_kind = g.pick({0, 0, 1}); continue; }
    }
    i = k == H_SIG ? pick(solves) : g.chance(0.5) ? pick(solves) : g.chance(0.6) ? pick(upd) : pick(all);
    Op& o = p.ops[i]; const rt::CallTrace& t = dry.rec[i].tr;
    if (k == H_SIG) { if (g.chance(0.6) || !t.lscalls) o.f.sig_edge = moment(g, t); else o.f.sig_ls = (i64)g.below(t.lscalls); if (g.chance(0.25)) { o.f.sig_rep = g.range(1, 4); o.f.sig_gap = (i64)g.logu(0, 4); } }
    else if (k == H_ALLOC) {
      if (!t.allocs) { for (int tr = 0; tr < 6; tr++) { size_t j = all[g.below(all.size())]; if (dry.rec[j].tr.allocs && j) { i = j; break; } } }
      if (!dry.rec[i].tr.allocs) continue;
      p.ops[i].f.alloc_at = (i64)g.below(dry.rec[i].tr.allocs); p.ops[i].f.alloc_persist = g.chance(0.3);
    } else if (k == H_LS) {
      if (!t.lscalls) continue;
      o.f.ls_at = ls_call(g, t);
      o.f.ls_persist = g.chance(0.3); o.f.ls_code = g.pick({-4, -1, -2, -3, -10, -7}); o.f.ls_kind = g.pick({0, 0, 0, 1, 2});
      if (o.f.ls_persist && o.f.ls_kind == 0 && g.chance(0.5)) o.f.ls_at = 0;
    } else {
      rt::Faults::Stall s{-1, -1, (i64)g.logu(3, 8), (h & H_WALL) && g.chance(0.2)};
      if (g.chance(0.1)) s.ns = (i64)g.logu(8, 13);
      if (g.chance(0.5) && t.lscalls) s.ls = (i64)g.below(t.lscalls); else s.edge = moment(g, t);
      o.f.stalls.push_back(s);
    }
  }
}
static void prob_params(Case& c, const GenProb& p) {
  c.par["cls"] = p.cls;
  if (p.interior > 0) c.par["interior"] = p.interior;
  double n1 = 0; for (double d : p.x0) n1 += std::fabs(d);
  c.par["x0norm1"] = n1 + 1; c.par["dmin"] = p.dmin;
}

static Viols only(const Viols& v, const char* id) { Viols r; for (auto& x : v) if (x.prop == id) r.push_back(x); return r; }
static bool truth(const Viol& v) {
  return v.kind == "not-optimal" || v.kind == "bad-certificate" || v.kind == "info-mismatch" || v.kind == "infeasible-objective" || v.kind == "false-infeasible" || v.kind == "certificate-offered" || v.kind == "status-unsolved" || v.kind == "iter";
}
// findings of a whole-run judgement that also break the property under test
static Viols mapped(const Viols& v, const char* id, bool tr, bool mem) {
  Viols r = only(v, id);
  for (auto& x : v) if (x.prop != id && ((tr && truth(x)) || (mem && x.prop == "C09"))) { Viol y = x; y.msg = "[" + x.prop + "] " + x.msg; y.prop = id; r.push_back(y); }
  return r;
}

static void drop_unset(Plan&) {}
static Case start(const char* id, u64 seed, Rng& g) {
  Case c; c.prop = id; c.par["seed"] = (double)(seed & ((1ull << 53) - 1));
  rand_cfg(g, c.plan.cfg);
  { u64 k = (seed * 0x9E3779B97F4A7C15ull) >> 40; if (k % 8 == 3) c.plan.cfg.inf = 1 + (int)(k / 8 % 2); }
  (void)drop_unset;
  return c;
}
static void finish(Gen& G, Rng& g, int lo, int hi) {
  int n = (int)g.range(lo, hi);
  if (hi >= 6 && g.chance(0.02)) n = (int)g.range(15, 40);   // now and then a long life
  for (int i = 0; i < n; i++) G.step();
  if (G.plan.ops.back().k != "solve") G.add(mk("solve"));
}
static void dispositions(Rng& g, Plan& p) { if (g.chance(0.6)) { Op o = mk("disp"); o.v["d"] = {(double)g.below(5)}; p.ops.insert(p.ops.begin(), o); } }

static std::vector<Case> one(const Case& c) { return {c}; }

// ---- a generic random history with faults
static Case history(const char* id, u64 seed, unsigned h, unsigned gf, unsigned mask, int lo, int hi, double pf) {
  Rng g(seed);
  Case c = start(id, seed, g);
  unsigned hh = h;
  // swarm: switch whole fault kinds off per run
  for (unsigned k : {H_INVALID, H_TIME, H_SIG, H_ALLOC, H_LS, H_XRHO, H_STALL}) if ((h & k) && g.chance(0.4)) hh &= ~k;
  Gen G(g, c.plan, hh, gf);
  bool hidden = std::string(id) == "C09" && g.chance(0.08);
  GenProb p = hidden ? hidden_noncvx(g, c) : any_prob(g, mask);
  G.setup(p);
  if (std::string(id) == "C02" && g.chance(0.3)) {   // verdicts on degenerate problems with coarse infeasibility tolerances
    c.plan.ops.pop_back(); homogeneous(g, p); G.setup(p);
    Set& s = c.plan.ops.back().v["set"];
    s[S_EPINF] = g.pick({0.5, 0.1, 0.02}); s[S_EDINF] = g.pick({0.5, 0.1, 0.02});
    if (g.chance(0.5)) s[S_CHECK] = 1;
    G.set = c.plan.ops.back().arr("set");
  }
  if (hidden) { hide(c.plan.ops.back().v["set"]); G.set = c.plan.ops.back().arr("set"); }
  if ((hh & H_INVALID) && g.chance(0.1)) { Op s = c.plan.ops.back(); c.plan.ops.pop_back(); G.bad_setup(); c.plan.ops.push_back(s); }
  prob_params(c, p);
  finish(G, g, lo, hi);
  if (g.chance(0.1)) { G.add(mk("cleanup")); if (g.chance(0.5)) { GenProb p2 = any_prob(g, mask); G.setup(p2); c.par.erase("interior"); G.add(mk("solve")); } }
  if (hh & (H_SIG | H_DISP)) dispositions(g, c.plan);
  if (g.chance(pf)) {
    place_faults(g, c.plan, hh, 1 + (int)g.below(3));
    if (g.chance(0.5)) { int k = (int)g.range(1, 3); G.h &= ~(unsigned)H_TIME; for (int i = 0; i < k; i++) G.step(); G.add(mk("solve")); }
  }
  return c;
}

// ------------------------------------------------------------------ variants of a plan ---------
static Plan without(const Plan& p, const std::function<bool(size_t)>& drop, std::vector<int>* map = nullptr) {
  Plan q = p; q.ops.clear();
  if (map) map->assign(p.ops.size(), -1);
  for (size_t i = 0; i < p.ops.size(); i++) if (!drop(i)) { if (map) (*map)[i] = (int)q.ops.size(); q.ops.push_back(p.ops[i]); }
  return q;
}
static std::string fmt(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// Replace solve i by the same solve that is stopped after k iterations and checks nothing on the way.
static bool twin(const Plan& p, const Run& r, size_t i, i64 k, bool nocheck, Rec& out, bool polish = false, bool noinf = false) {
  Plan q = p; q.ops.resize(i);
  Set s = r.rec[i].set; // settings after the solve (rho may have moved; not updatable anyway)
  if (nocheck) s[S_CHECK] = 0;
  s[S_MAXITER] = (double)k; s[S_TLIM] = 1e10;
  if (!polish) s[S_POLISH] = 0;
  if (noinf) s[S_EPINF] = s[S_EDINF] = 1e-300;   // keep the iterates: (next to) no infeasibility verdict
  Op u = mk("uset", p.ops[i].slot); u.v["set"] = s;
  q.ops.push_back(u);
  q.ops.push_back(mk("solve", p.ops[i].slot));
  Run t = run_plan(q);
  out = t.rec[i + 1];
  return t.rec[i].exec && t.rec[i].ret == 0 && out.exec;
}
static bool twinnable(const Op& o, const Rec& x) {
  return o.k == "solve" && x.exec && x.live && x.ret == 0 && !o.f.any() && x.set[S_LINSYS] == OSQP_DIRECT_SOLVER && x.set[S_AR] != 2 && !o.has("nosolver");
}
// certificates may be normalised once more when they are read: equal up to the rounding of that division
static bool ceq(const V& a, const V& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 8) && !(std::fabs(a[i] - b[i]) <= 1e-14 * (1e-30 + std::fabs(a[i])))) return false;
  return true;
}
static bool veq(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }

static Viols twin_check(const char* id, const Case& c, const Run& r, bool only_time) {
  Viols out;
  int budget = 3;
  for (size_t i = 0; i < c.plan.ops.size() && budget; i++) {
    const Rec& x = r.rec[i];
    if (!twinnable(c.plan.ops[i], x)) continue;
    i64 st = x.info.status_val;
    if (x.info.status_polish == 1 || x.info.iter < 1) continue;
    if (only_time ? st != OSQP_TIME_LIMIT_REACHED : !(is_solved(st) || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED)) continue;
    Rec t; budget--;
    if (!twin(c.plan, r, i, x.info.iter, true, t)) continue;
    if (!(is_solved(t.info.status_val) || t.info.status_val == OSQP_MAX_ITER_REACHED)) continue;
    std::string w;
    if (x.info.iter != t.info.iter) w = "iter";
    else if (!veq(x.sol.x, t.sol.x)) w = "x"; else if (!veq(x.sol.y, t.sol.y)) w = "y";
    else if (x.info.prim_res != t.info.prim_res) w = fmt("prim_res (%.17g vs %.17g)", x.info.prim_res, t.info.prim_res);
    else if (x.info.dual_res != t.info.dual_res) w = fmt("dual_res (%.17g vs %.17g)", x.info.dual_res, t.info.dual_res);
    else if (x.info.obj_val != t.info.obj_val) w = "obj_val"; else if (x.info.dual_obj_val != t.info.dual_obj_val) w = "dual_obj_val";
    else if (x.info.duality_gap != t.info.duality_gap) w = "duality_gap";
    if (!w.empty()) out.push_back({id, "twin", w + fmt(" differs from the same solve stopped after exactly %lld iterations", (long long)x.info.iter), (int)i});
  }
  return out;
}

// ------------------------------------------------------------------ the properties -------------
static const unsigned M_ALL = (1u << C_NONCVX) - 1;
static const unsigned M_STD = M_ALL & ~(1u << C_PINF) & ~(1u << C_DINF);

static std::vector<Case> g01(u64 s) { return one(history("C01", s, H_INVALID | H_TIME | H_SIG | H_ALLOC | H_LS | H_XRHO | H_STALL | H_WALL, 0, M_ALL, 2, 9, 0.45)); }
static Viols j01(const Case& c) { Run r = run_plan(c.plan); return only(judge_run(c, r), "C01"); }

static std::vector<Case> g02(u64 s) {
  Rng g(s ^ 0x55);
  unsigned mask = g.chance(0.7) ? ((1u << C_PINF) | (1u << C_DINF)) : M_ALL;
  return one(history("C02", s, H_INVALID | H_TIME | H_SIG | H_ALLOC | H_LS | H_XRHO, 0, mask, 1, 8, 0.3));
}
// A check of the termination criteria that the solve x passed without stopping (0: none, or its criteria cannot be recomputed here)
static i64 earlier_check(const Case& c, const Rec& x, const Set& s, size_t i) {
  i64 chk = (i64)s[S_CHECK], st = x.info.status_val;
  if (!chk || (s[S_SCTERM] && s[S_SCALING]) || s[S_TLIM] < 1e9) return 0;
  bool inf = st == OSQP_PRIMAL_INFEASIBLE || st == OSQP_DUAL_INFEASIBLE || st == OSQP_PRIMAL_INFEASIBLE_INACCURATE || st == OSQP_DUAL_INFEASIBLE_INACCURATE;
  i64 k = st == OSQP_SOLVED || st == OSQP_SOLVED_INACCURATE || st == OSQP_MAX_ITER_REACHED || inf ? (x.info.iter - 1) / chk * chk : 0;   // the last check before the end
  if (k > chk) { Rng g((u64)c.num("seed") + i); if (g.chance(0.5)) k = chk * g.range(1, k / chk); }
  return k;
}
// The infeasibility criteria, recomputed with a margin from two successive iterates: which of them certainly hold?
static std::string infeasible_by(const Prob& d, const Set& s, const Rec& b, const Rec& a) {
  V Ax = mulA(d.A, b.sol.x), Px = mulP(d.P, b.sol.x), Aty = mulAt(d.A, b.sol.y);
  ld ea = s[S_EABS], er = s[S_EREL];
  auto diff = [](const V& p, const V& q) { V r(p.size()); for (size_t i = 0; i < p.size(); i++) r[i] = (double)((ld)p[i] - q[i]); return r; };
  auto noise = [](const V& p, const V& q, ld nd) { return 1e-12L * std::max(norm_inf(p), norm_inf(q)) / nd; };   // relative rounding error of the difference
  if (d.m && b.info.prim_res > 1.001L * (ea + er * std::max(norm_inf(Ax), (ld)b.info.prim_res + norm_inf(Ax)))) {
    V v = diff(b.sol.y, a.sol.y);
    bool clear = true;
    for (i64 i = 0; i < d.m; i++) {
      double L = std::fabs(d.l[i]), U = std::fabs(d.u[i]);
      if ((L > 1e20 && L < 1e30) || (U > 1e20 && U < 1e30)) clear = false;
      bool lf = d.l[i] > -1e20, uf = d.u[i] < 1e20;
      if (!lf && v[i] < 0) v[i] = 0;
      if (!uf && v[i] > 0) v[i] = 0;
    }
    ld n = norm_inf(v);
    if (clear && n > 1e-9L) {
      ld nz = noise(b.sol.y, a.sol.y, n), sup = 0, asup = 0, eps = s[S_EPINF];
      for (i64 i = 0; i < d.m; i++) if (v[i]) { ld w = (ld)(v[i] > 0 ? d.u[i] : d.l[i]) * v[i]; sup += w; asup += std::fabs(w); }
      V r = mulAt(d.A, v); ld la = 0; for (i64 j = 0; j < d.m; j++) { V e(d.m, 0.0); e[j] = 1; la += norm_inf(mulAt(d.A, e)); }
      ld bn = 0; for (i64 i = 0; i < d.m; i++) bn += (std::fabs(d.u[i]) < 1e20 ? std::fabs(d.u[i]) : 0) + (std::fabs(d.l[i]) < 1e20 ? std::fabs(d.l[i]) : 0);
      if (norm_inf(r) < 0.98L * eps * n && nz * la < 0.01L * eps && sup < -0.01L * asup && sup < -100 * nz * bn * n) return "primal infeasibility";
    }
  }
  ld dn = std::max(std::max(norm_inf(Px), norm_inf(d.q)), norm_inf(Aty));
  if (b.info.dual_res > 1.001L * (ea + er * dn)) {
    V v = diff(b.sol.x, a.sol.x);
    ld n = norm_inf(v);
    if (n > 1e-9L) {
      ld nz = noise(b.sol.x, a.sol.x, n), qv = 0, aq = 0, eps = s[S_EDINF];
      for (i64 j = 0; j < d.n; j++) { qv += (ld)d.q[j] * v[j]; aq += std::fabs((ld)d.q[j]); }
      ld lp = 0, la = 0; for (i64 j = 0; j < d.n; j++) { V e(d.n, 0.0); e[j] = 1; lp += norm_inf(mulP(d.P, e)); if (d.m) la += norm_inf(mulA(d.A, e)); }
      V pv = mulP(d.P, v), av = mulA(d.A, v);
      bool ok = qv < -0.01L * aq * n && qv < -100 * nz * aq * n && norm_inf(pv) < 0.98L * eps * n && nz * (lp + la) < 0.01L * eps;
      for (i64 i = 0; i < d.m; i++) {
        if (d.u[i] < 1e30 && av[i] > 0.98L * eps * n) ok = false;
        if (d.l[i] > -1e30 && av[i] < -0.98L * eps * n) ok = false;
      }
      if (ok) return "dual infeasibility";
    }
  }
  return "";
}
// The solve x went on past its check at iteration k: were the infeasibility criteria met there?  t: the twin stopped at k
static bool late_verdict(const char* id, const Case& c, const Run& r, const std::vector<std::vector<Shadow>>& sh, size_t i, i64 k, Rec& t, Viols& v) {
  auto point = [](const Rec& y) { return y.info.status_val == OSQP_SOLVED || y.info.status_val == OSQP_SOLVED_INACCURATE || y.info.status_val == OSQP_MAX_ITER_REACHED; };
  if (!twin(c.plan, r, i, k, true, t, false, true) || t.sol.x.empty() || t.info.iter != k || !point(t)) return false;
  Rec t1;
  const Shadow& S = sh[i][c.plan.ops[i].slot];
  if (k > 1 && twin(c.plan, r, i, k - 1, true, t1, false, true) && t1.sol.x.size() == t.sol.x.size() && t1.info.iter == k - 1 && point(t1)) {
    stats.events["infeasibility-criteria-recomputed"]++;
    std::string w = infeasible_by(S.alts[0], S.set, t, t1);
    if (!w.empty()) v.push_back({id, "late-verdict", fmt("the criteria for %s held at the check at iteration %lld but the solve went on to %lld (status %lld)", w.c_str(), (long long)k, (long long)r.rec[i].info.iter, (long long)r.rec[i].info.status_val), (int)i});
  }
  return true;
}
static void inaccurate_missed(const char* id, const Case& c, const Run& r, const std::vector<std::vector<Shadow>>& sh, size_t i, bool inf, Viols& v);
static Viols j02(const Case& c) {
  Run r = run_plan(c.plan);
  Viols v = only(judge_run(c, r), "C02");
  // an infeasible problem is called so at the first check at which the iterates prove it
  auto sh = shadows(c.plan, r);
  int budget = 1;
  for (size_t i = 0; i < c.plan.ops.size() && budget; i++) {
    const Rec& x = r.rec[i];
    if (!twinnable(c.plan.ops[i], x) || is_solved(x.info.status_val) || sh[i][c.plan.ops[i].slot].alts.size() != 1) continue;
    i64 k = earlier_check(c, x, sh[i][c.plan.ops[i].slot].set, i);
    if (k <= 0) continue;
    budget--;
    Rec t;
    late_verdict("C02", c, r, sh, i, k, t, v);
  }
  int ib = 2;
  for (size_t i = 0; i < c.plan.ops.size() && ib; i++)
    if (twinnable(c.plan.ops[i], r.rec[i]) && (r.rec[i].info.status_val == OSQP_MAX_ITER_REACHED || r.rec[i].info.status_val == OSQP_TIME_LIMIT_REACHED)) { ib--; inaccurate_missed("C02", c, r, sh, i, true, v); }
  return v;
}

static std::vector<Case> g03(u64 s) { return one(history("C03", s, H_INVALID | H_TIME | H_SIG | H_ALLOC | H_LS | H_XRHO | H_STALL | H_WALL, 0, M_ALL, 2, 9, 0.4)); }
static Viols j03(const Case& c) {
  Run r = run_plan(c.plan);
  Viols v = only(judge_run(c, r), "C03"), t = twin_check("C03", c, r, false);
  v.insert(v.end(), t.begin(), t.end());
  // the primal-dual integral grows by the gap of each check
  int budget = 1;
  for (size_t i = 0; i < c.plan.ops.size() && budget; i++) {
    const Rec& x = r.rec[i];
    i64 K = x.info.iter;
    if (!twinnable(c.plan.ops[i], x) || K < 3 || K > 3000 || !(is_solved(x.info.status_val) || x.info.status_val == OSQP_MAX_ITER_REACHED) || x.info.status_polish == 1) continue;
    i64 chk = (i64)x.set[S_CHECK], iv = (i64)x.set[S_ARINT];
    bool all = chk == 1 || (x.set[S_AR] == 1 && iv == 1);          // looked at after every iteration
    if (!all && !(chk == 0 && x.set[S_AR] == 0)) continue;         // or only after the first and the last
    Rec y; budget--;
    if (!twin(c.plan, r, i, all ? K - 1 : 1, false, y, false, true) || y.info.iter != (all ? K - 1 : 1) || !(y.info.status_val == OSQP_MAX_ITER_REACHED || is_solved(y.info.status_val))) continue;
    double base = all ? y.info.primdual_int : std::fabs(y.info.duality_gap), want = base + std::fabs(x.info.duality_gap);
    stats.events["integral-recomputed"]++;
    if (!std::isfinite(want) || std::fabs(x.info.primdual_int - want) <= 1e-9 * want) continue;
    v.push_back({"C03", "integral", fmt("the primal-dual integral is %.12g; it was %.12g before and the gap is %.12g", x.info.primdual_int, base, x.info.duality_gap), (int)i});
  }
  return v;
}

// ---- C04: updated solver == fresh solver
static std::vector<Case> g04(u64 seed) {
  Rng g(seed);
  Case c = start("C04", seed, g);
  bool conv = g.chance(0.3);
  c.sub = conv ? "conv" : "iter";
  Gen G(g, c.plan, H_INVALID | H_XRHO, GF_NOTIME | GF_NOVERB | GF_NOPOLISH | (conv ? GF_CONV : (g.chance(0.2) ? 0 : GF_DIRECT) | GF_SHORT));
  GenProb p = conv ? gen_prob(g, pick_cls(g, (1u << C_STRONG) | (1u << C_DIAG) | (1u << C_EQ)), 6, 8) : any_prob(g, M_ALL);
  G.setup(p);
  if (g.chance(0.3)) { Set& s = c.plan.ops[0].v["set"]; s[S_SIGMA] = g.logu(-3, 1); G.set[S_SIGMA] = s[S_SIGMA]; }
  int n = (int)g.range(1, 6);
  for (int i = 0; i < n; i++) { if (g.chance(0.25)) G.umat(); else if (g.chance(0.2)) G.uvec(); else G.step(); }
  V x = G.rvec(G.cur.n, g.chance(0.5) ? 1 : 10), y = G.rvec(G.cur.m, g.chance(0.5) ? 1 : 10);
  c.par["K"] = (double)g.range(1, conv ? 1 : 30);
  c.par["refresh"] = g.chance(0.5);
  c.par["wseed"] = (double)(g.sub() >> 12);
  return one(c);
}
static double vdiff(const V& a, const V& b) { double d = 0; for (size_t i = 0; i < a.size(); i++) { double t = std::fabs(a[i] - b[i]); if (!(t <= d)) d = std::isnan(t) ? INFINITY : std::max(d, t); } return d; }
static Viols j04(const Case& c) {
  Viols out;
  Plan p = c.plan;
  // where is the history now?  (rho may have been adapted)
  Run r0 = run_plan(p);
  auto sh = shadows(p, r0);
  const Shadow& S = sh.back()[0];
  if (!S.live || S.alts.size() != 1 || S.lin_bad) return out;
  Prob d = S.alts[0];
  // the settings in force: what the model says, and rho as reported by the solver
  Set set = S.set;
  double rho = 0.1; for (size_t i = 0; i < p.ops.size(); i++) if (r0.rec[i].live && p.ops[i].slot == 0) { rho = r0.rec[i].set[S_RHO]; set[S_ARINT] = r0.rec[i].set[S_ARINT]; }
  bool conv = c.sub == "conv";
  Rng g((u64)c.num("wseed") + 77);
  V x(d.n), y(d.m); for (auto& v : x) v = g.uni(-2, 2); for (auto& v : y) v = g.uni(-2, 2);
  Set us = set; us[S_POLISH] = 0; us[S_TLIM] = 1e10; us[S_WARM] = 1; us[S_VERBOSE] = 0;
  if (conv) { us[S_EABS] = us[S_EREL] = 1e-6; us[S_CHECK] = 25; us[S_MAXITER] = 20000; us[S_SCTERM] = 0; us[S_GAP] = 1; }
  else { us[S_CHECK] = 0; us[S_MAXITER] = c.num("K"); }
  // adaptation divides by residuals that may be pure rounding noise: compare before its first chance
  if (!conv && set[S_AR] && set[S_ARINT] > 0) us[S_MAXITER] = std::min(us[S_MAXITER], std::max(1., set[S_ARINT] - 1));
  bool refresh = c.num("refresh") || conv;
  if (!refresh && set[S_SCALING] > 0) {
    // without a refresh the scaling in force is the one of the last matrix update (or setup)
    bool qchanged = false; 
    for (size_t i = 0; i < p.ops.size(); i++) if (r0.rec[i].exec && r0.rec[i].ret == 0) { if (p.ops[i].k == "uvec" && p.ops[i].has("q")) qchanged = true; if (p.ops[i].k == "umat") qchanged = false; }
    if (qchanged) refresh = true;
  }
  auto tail = [&](Plan& q, bool hist, const V& xs) {
    if (hist && refresh) { Op o = mk("umat"); o.v["Px"] = d.P.x; o.v["Pn"] = {(double)d.P.nnz()}; o.v["Ax"] = d.A.x; o.v["An"] = {(double)d.A.nnz()}; if (!d.P.nnz()) o.v.erase("Px"); if (!d.A.nnz()) o.v.erase("Ax"); q.ops.push_back(o); }
    Op u = mk("uset"); u.v["set"] = us; q.ops.push_back(u);
    Op w = mk("wstart"); w.v["x"] = xs; w.v["y"] = y; q.ops.push_back(w);
    q.ops.push_back(mk("solve"));
  };
  Plan ph = p; tail(ph, true, x);
  Run rh = run_plan(ph);
  Set fs = set; fs[S_RHO] = rho;
  auto fresh = [&](const Prob& dd, const V& xs) { Plan q; q.cfg = p.cfg; q.ops.push_back(op_setup(0, dd, fs)); tail(q, false, xs); return run_plan(q); };
  Run rf = fresh(d, x);
  const Rec &a = rh.rec[ph.ops.size() - 1], &b = rf.rec[3];
  if (!b.exec || !a.exec) { if (a.exec != b.exec) out.push_back({"C04", "setup-differs", "the updated problem cannot be set up although the updated solver holds it (or vice versa)", -1}); return out; }
  if (rf.rec[1].ret || rf.rec[2].ret) return out;
  if (a.ret != b.ret) { out.push_back({"C04", "return", fmt("solve returned %lld after updates but %lld on a fresh solver", (long long)a.ret, (long long)b.ret), -1}); return out; }
  double sc = 1 + std::max({(double)norm_inf(b.sol.x), (double)norm_inf(b.sol.y), 1e-300});
  if (!(sc < 1e200)) return out;
  if (a.live && b.live) {
    Set sa = a.set, sb = b.set;
    for (int k = 0; k < S_N; k++) if (sa[k] != sb[k] && k != S_RHO && k != S_ARINT) out.push_back({"C04", "settings", fmt("setting #%d is %.17g after updates but %.17g on a fresh solver", k, sa[k], sb[k]), -1});
  }
  if (conv) {
    // an extreme rho (times 1e3 in equality rows) turns rounding into residuals near the tolerance asked for
    if (!(rho >= 1e-4 && rho <= 1e4)) return out;
    if (b.info.status_val == OSQP_SOLVED && b.info.iter <= 500) {
      if (a.info.status_val != OSQP_SOLVED) out.push_back({"C04", "status", fmt("status %lld after updates, solved after %lld iterations on a fresh solver", (long long)a.info.status_val, (long long)b.info.iter), -1});
      else {
        if (a.info.iter > 10 * b.info.iter + 1000) out.push_back({"C04", "slower", fmt("%lld iterations after updates, %lld on a fresh solver", (long long)a.info.iter, (long long)b.info.iter), -1});
        double dx = vdiff(a.sol.x, b.sol.x);
        if (!(dx <= 2e-2 * (1 + (double)norm_inf(b.sol.x)))) out.push_back({"C04", "solution", fmt("solution differs by %.3g from that of a fresh solver", dx), -1});
      }
    } else if ((b.info.status_val == OSQP_PRIMAL_INFEASIBLE || b.info.status_val == OSQP_DUAL_INFEASIBLE) && is_solved(a.info.status_val)) out.push_back({"C04", "status", "solved after updates but infeasible on a fresh solver", -1});
    return out;
  }
  if (a.sol.x.empty()) return out;
  if (b.info.status_val != OSQP_MAX_ITER_REACHED && !is_solved(b.info.status_val)) {
    return out;
  }
  // rounding: how far does a relative change of 1e-13 of the data move the fresh solver?
  Prob dp = d; Rng pg((u64)c.num("wseed") + 5); V xp = x;
  for (auto& v : dp.q) v *= 1 + 1e-13 * pg.uni(-1, 1);
  for (auto& v : dp.A.x) v *= 1 + 1e-13 * pg.uni(-1, 1);
  for (auto& v : xp) v *= 1 + 1e-13 * pg.uni(-1, 1);
  double cal = 0;
  for (int rep = 0; rep < 3; rep++) {
    if (rep) { for (auto& v : dp.q) v *= 1 + 1e-13 * pg.uni(-1, 1); for (auto& v : dp.A.x) v *= 1 + 1e-13 * pg.uni(-1, 1); for (auto& v : dp.P.x) v *= 1 + 1e-13 * pg.uni(-1, 1); }
    Run rp = fresh(dp, xp);
    if (!rp.rec[3].exec || rp.rec[3].sol.x.size() != b.sol.x.size()) return out;
    cal = std::max(cal, std::max(vdiff(rp.rec[3].sol.x, b.sol.x), vdiff(rp.rec[3].sol.y, b.sol.y)));
  }
  // a last bit of A x is worth rho (a thousand times rho in equality rows) in y, one of y 1/rho in x
  double tol = 1e-9 * sc + 2000 * cal + 2e-13 * (1e3 * rho + 1 / rho) * sc;
  if (a.sol.x.size() != b.sol.x.size() || (!is_solved(a.info.status_val) && a.info.status_val != OSQP_MAX_ITER_REACHED)) { if (tol < 1e-3 * sc) out.push_back({"C04", "status", fmt("status %lld after updates but %lld on a fresh solver", (long long)a.info.status_val, (long long)b.info.status_val), -1}); return out; }
  double dx = vdiff(a.sol.x, b.sol.x), dy = vdiff(a.sol.y, b.sol.y);
  if (!(dx <= tol) || !(dy <= tol)) out.push_back({"C04", "iterates", fmt("after %g iterations from the same point, x differs by %.3g and y by %.3g from a fresh solver (rounding explains %.3g)", us[S_MAXITER], dx, dy, tol), -1});
  return out;
}

// ---- C05: rejected calls leave no trace
static std::vector<Case> g05(u64 seed) {
  Rng g(seed);
  Case c = start("C05", seed, g);
  Gen G(g, c.plan, H_INVALID | (g.chance(0.2) ? H_SIG : 0), GF_NOTIME);
  GenProb p = any_prob(g);
  prob_params(c, p);
  G.setup(p);
  if (g.chance(0.2)) { Op s = c.plan.ops.back(); c.plan.ops.pop_back(); G.bad_setup(); c.plan.ops.push_back(s); }
  int n = (int)g.range(2, 8);
  for (int i = 0; i < n; i++) { if (g.chance(0.4)) G.invalid(); if (g.chance(0.05)) G.bad_setup(); G.step(); }
  if (c.plan.ops.back().k != "solve") G.add(mk("solve"));
  return one(c);
}
static Viols j05(const Case& c) {
  Run r = run_plan(c.plan);
  Viols v = only(judge_run(c, r), "C05");
  auto sh = shadows(c.plan, r);
  std::vector<char> rej(c.plan.ops.size(), 0);
  bool any = false;
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op& o = c.plan.ops[i]; const Rec& x = r.rec[i];
    if (!x.exec || x.ret == 0 || x.tr.alloc_fired || x.tr.ls_fired) continue;
    if (o.k == "setup" || o.k == "uvec" || o.k == "umat" || o.k == "urho" || o.k == "uset" || o.k == "getsol" || o.k == "wstart" || o.has("nosolver"))
      if (!op_valid(o, sh[i][o.slot])) { rej[i] = 1; any = true; }
  }
  if (!any) return v;
  std::vector<int> map;
  Plan q = without(c.plan, [&](size_t i) { return rej[i]; }, &map);
  Run e = run_plan(q);
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (map[i] >= 0) {
    std::string w;
    if (!same_result(r.rec[i], e.rec[map[i]], true, w)) { v.push_back({"C05", "trace", "with the rejected calls removed, " + c.plan.ops[i].k + " gives another result: " + w, (int)i}); break; }
  }
  return v;
}

// ---- C06: time limits
static std::vector<Case> g06(u64 s) { return one(history("C06", s, H_TIME | H_STALL | H_WALL | (s % 5 == 0 ? H_SIG | H_INVALID | H_LS | H_ALLOC : 0), 0, M_ALL, 2, 8, 0.7)); }
static Viols j06(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v = only(a, "C06");
  // what a stopped solve returns must be described consistently
  for (auto& x : a) if (truth(x) && x.op >= 0 && x.op < (int)c.plan.ops.size() && r.rec[x.op].live && r.rec[x.op].info.status_val == OSQP_TIME_LIMIT_REACHED) { Viol y = x; y.prop = "C06"; y.msg = "[" + x.prop + "] " + x.msg; v.push_back(y); }
  Viols t = twin_check("C06", c, r, true);
  v.insert(v.end(), t.begin(), t.end());
  return v;
}

// ---- C07: interrupts
static std::vector<Case> g07(u64 seed) {
  Rng g(seed);
  Case c = start("C07", seed, g);
  Gen G(g, c.plan, H_DISP | H_SIG | (g.chance(0.3) ? H_INVALID : 0) | (g.chance(0.2) ? H_TIME : 0), GF_NOTIME);
  GenProb p = any_prob(g);
  prob_params(c, p);
  G.setup(p);
  finish(G, g, 1, 6);
  dispositions(g, c.plan);
  if (g.chance(0.35)) place_faults(g, c.plan, g.chance(0.7) ? H_LS : H_LS | H_ALLOC, 1);
  Plan clean = c.plan;
  place_faults(g, c.plan, H_SIG, g.chance(0.8) ? 1 : 2);
  return one(c);
}
static Viols j07(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v = only(a, "C07");
  bool hit = false;
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (r.rec[i].tr.sig_to_other) hit = true;
  if (hit) for (auto& x : a) if (truth(x)) { Viol y = x; y.prop = "C07"; y.msg = "[" + x.prop + "] " + x.msg; v.push_back(y); }
  // until the first interrupted solve, everything is as if the signal had not come
  Plan q = c.plan;
  for (auto& o : q.ops) { o.f.sig_edge = o.f.sig_ls = -1; o.f.sig_rep = 0; }
  q = without(q, [&](size_t i) { return q.ops[i].k == "sigint"; });
  std::vector<int> map; Plan q2 = without(c.plan, [&](size_t i) { return c.plan.ops[i].k == "sigint"; }, &map);
  Run e = run_plan(q);
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (map[i] >= 0) {
    const Rec& x = r.rec[i];
    if (c.plan.ops[i].k == "solve" && x.live && x.info.status_val == OSQP_SIGINT) break;
    if (x.set.size() && x.set[S_AR] == 2) break;
    if (x.set.size() && x.set[S_TLIM] < 1e9) continue;
    std::string w;
    if (!same_result(x, e.rec[map[i]], true, w)) { v.push_back({"C07", "disturbed", c.plan.ops[i].k + " was not interrupted but differs from the undisturbed run: " + w, (int)i}); break; }
  }
  return v;
}

// ---- C08: allocation failures, every point of every call
static std::vector<Case> g08(u64 seed) {
  Rng g(seed);
  Case c = start("C08", seed, g);
  Gen G(g, c.plan, H_XRHO, GF_NOTIME | GF_SHORT | (g.chance(0.6) ? GF_POLISH : 0));
  GenProb p = any_prob(g, M_ALL, 5, 6);
  if (g.chance(0.1)) { Op o = mk("newset"); c.plan.ops.push_back(o); }
  if (g.chance(0.1)) { Op o = mk("errmsg"); o.v["code"] = {0, (double)g.range(1, 11), 1e9, (double)g.range(12, 40), -(double)g.range(1, 40), g.pick({-1e9, 1e8, -1., 12.})}; c.plan.ops.push_back(o); }
  if (g.chance(0.2)) { Op o = mk("newmat"); i64 m = g.range(0, 4), n = g.range(0, 4); o.v["m"] = {(double)m}; o.v["n"] = {(double)n}; o.v["which"] = {(double)g.below(5)}; o.v["x"] = G.rvec(std::min(m, n), 2); c.plan.ops.push_back(o); }
  G.setup(p);
  if (g.chance(0.5)) c.plan.ops.back().v["set"][S_MAXITER] = G.set[S_MAXITER] = 1000;
  int n = (int)g.range(1, 4);
  for (int i = 0; i < n; i++) G.step();
  if (c.plan.ops.back().k != "solve") G.add(mk("solve"));
  size_t nf = c.plan.ops.size();
  G.gf &= ~(unsigned)(GF_POLISH);
  if (g.chance(0.5)) G.uvec();
  if (g.chance(0.3)) G.umat();
  G.add(mk("solve"));
  Run dry = run_plan(c.plan);
  std::vector<Case> cs;
  std::vector<std::pair<size_t, i64>> pts;
  for (size_t i = 0; i < nf; i++) if (dry.rec[i].exec) for (i64 k = 0; k < dry.rec[i].tr.allocs; k++) pts.push_back({i, k});
  for (auto& pt : pts) for (int pers = 0; pers < 2; pers++) {
    if (pers && g.chance(0.6)) continue;
    Case d = c; d.plan.ops[pt.first].f.alloc_at = pt.second; d.plan.ops[pt.first].f.alloc_persist = pers;
    if (c.plan.ops[pt.first].k == "setup") { // a failed setup is followed by cleanup and a fresh attempt
      std::vector<Op> ops;
      for (size_t i = 0; i <= pt.first; i++) ops.push_back(d.plan.ops[i]);
      ops.push_back(mk("solve"));   // should the setup have succeeded all the same, it must have left a working solver
      for (size_t i = pt.first + 1; i < nf && i < pt.first + 3; i++) if (c.plan.ops[i].k != "setup") ops.push_back(c.plan.ops[i]);
      ops.push_back(mk("cleanup"));
      Op s = c.plan.ops[pt.first]; ops.push_back(s); ops.push_back(mk("solve"));
      if (d.plan.ops.size() > pt.first) d.plan.ops = ops;
    }
    cs.push_back(d);
  }
  return cs;
}
static Viols j08(const Case& c) { Run r = run_plan(c.plan); return mapped(judge_run(c, r), "C08", true, true); }

// ---- C09: everything released
static std::vector<Case> g09(u64 s) {
  Case c = history("C09", s, H_INVALID | H_TIME | H_SIG | H_ALLOC | H_LS | H_XRHO | H_STALL, s % 3 == 0 ? GF_POLISH : 0, M_ALL, 1, 8, 0.5);
  Rng g(s ^ 0x99);
  if (g.chance(0.2)) { Op o = mk("errmsg", 0); o.v["code"] = {0, (double)g.range(1, 11), 1e9, (double)g.range(12, 40), -(double)g.range(1, 40), g.pick({-1e9, 1e8, -1., 12.})}; c.plan.ops.push_back(o); }
  if (g.chance(0.2)) { Op o = mk("newmat", 0); i64 m = g.range(0, 4), n = g.range(0, 4); o.v["m"] = {(double)m}; o.v["n"] = {(double)n}; o.v["which"] = {(double)g.below(5)}; V x(std::min(m, n)); for (auto& d : x) d = g.uni(-1, 1); o.v["x"] = x; c.plan.ops.push_back(o); }
  return one(c);
}
static Viols j09(const Case& c) { Run r = run_plan(c.plan); return only(judge_run(c, r), "C09"); }

// ---- C10: threads
static std::vector<Case> g10(u64 seed) {
  Rng g(seed);
  Case c = start("C10", seed, g);
  int nt = g.chance(0.75) ? 2 : 3;
  c.plan.nth = nt;
  std::vector<Op> ops;
  for (int t = 0; t < nt; t++) {
    Plan tp; tp.cfg = c.plan.cfg;
    Gen G(g, tp, H_INVALID, GF_NOTIME | (g.chance(0.7) ? GF_SHORT : 0), t, t);
    GenProb p = any_prob(g, M_ALL, 5, 6);
    G.setup(p);
    finish(G, g, 1, 4);
    if (g.chance(0.4)) G.add(mk("cleanup"));
    ops.insert(ops.end(), tp.ops.begin(), tp.ops.end());
  }
  if (g.chance(0.6)) { Op o = mk("disp", 0, 0); o.v["d"] = {(double)g.below(5)}; ops.insert(ops.begin(), o); c.par["disp"] = o.num("d"); }
  c.plan.ops = ops;
  // slice lengths: from a handful of edges (preemption inside small windows) to whole calls
  int style = (int)g.below(4);
  for (int k = 0; k < 400; k++) {
    int t = (int)g.below(nt);
    i64 n = style == 0 ? (i64)g.logu(0, 2) : style == 1 ? (i64)g.logu(1, 4) : style == 2 ? (i64)g.logu(2.5, 4.5) : (i64)g.logu(0, 4.5);
    c.plan.sched.push_back({t, n});
  }
  // two threads meet: each is brought to one and the same location of the code, then they take turns there
  if (g.chance(0.4)) {
    std::map<uint32_t, std::vector<i64>> where[3];
    for (int t = 0; t < nt; t++) {
      Plan q; q.cfg = c.plan.cfg; q.nth = 1;
      for (auto& o : ops) if (o.th == t && o.k != "disp") { Op p = o; p.th = 0; q.ops.push_back(p); }
      Run a = dry_run(q);
      i64 cum = 0;
      for (size_t i = 0; i < q.ops.size(); i++) {
        const rt::CallTrace& e = a.rec[i].tr;
        for (size_t k = 0; k < e.occ.size(); k++) { auto& w = where[t][e.occ_at[k]]; w.push_back(cum + e.occ[k].first); if (e.occ[k].second != e.occ[k].first) w.push_back(cum + e.occ[k].second); }
        cum += e.edges + 1;                        // the end of an operation counts as a step
      }
    }
    std::vector<rt::Slice> m;
    i64 at[3] = {0, 0, 0};
    for (int k = 0, n = (int)g.range(1, 4); k < n; k++) {
      int a = (int)g.below(nt), b = (a + 1 + (int)g.below(nt - 1)) % nt;
      std::vector<uint32_t> both;
      auto later = [&](int t, uint32_t w) { auto it = where[t].find(w); return it != where[t].end() && it->second.back() > at[t]; };
      for (auto& w : where[a]) if (later(a, w.first) && later(b, w.first)) both.push_back(w.first);
      if (both.empty()) break;
      uint32_t w = both[g.below(both.size())];
      for (int t : {a, b}) {
        std::vector<i64> ok; for (i64 e : where[t][w]) if (e > at[t]) ok.push_back(e);
        i64 e = g.chance(0.5) ? ok[0] : ok[g.below(ok.size())];
        m.push_back({t, e - at[t]}); at[t] = e;
      }
      for (int j = 0, nj = (int)g.range(4, 40); j < nj; j++) { int t = j & 1 ? b : a; i64 l = (i64)g.logu(0, 1.3); m.push_back({t, l}); at[t] += l; }
    }
    c.plan.sched.insert(c.plan.sched.begin(), m.begin(), m.end());
    if (!m.empty()) stats.events["meetings"]++;
  }
  if (g.chance(0.35)) {   // one interrupt for the whole process
    Run dry = dry_run(c.plan);
    std::vector<size_t> so; for (size_t i = 0; i < ops.size(); i++) if (ops[i].k == "solve" && dry.rec[i].exec && dry.rec[i].tr.edges) so.push_back(i);
    if (!so.empty()) { size_t i = so[g.below(so.size())]; c.plan.ops[i].f.sig_edge = moment(g, dry.rec[i].tr); }
  }
  return one(c);
}
static Viols j10(const Case& c) {
  Viols v;
  Run r = run_plan(c.plan);
  for (auto& x : judge_run(c, r)) if (x.prop == "C09" && x.kind != "memory-held-changed") { Viol y = x; y.prop = "C10"; v.push_back(y); }
  int nt = c.plan.nth;
  i64 sig_t = -1;
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (r.rec[i].tr.sig_delivered) sig_t = r.rec[i].tr.sig_time;
  for (int t = 0; t < nt; t++) {
    Plan q; q.cfg = c.plan.cfg; q.nth = 1;
    std::vector<int> back;
    for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].th == t) { Op o = c.plan.ops[i]; o.th = 0; o.f.sig_edge = o.f.sig_ls = -1; o.f.sig_rep = 0; q.ops.push_back(o); back.push_back((int)i); }
    Run a = run_plan(q);
    for (size_t k = 0; k < back.size(); k++) {
      const Rec& x = r.rec[back[k]]; const Rec& y = a.rec[k];
      const Op& o = c.plan.ops[back[k]];
      bool during = sig_t >= 0 && o.k == "solve" && x.exec && x.tr.t0 <= sig_t && sig_t <= x.tr.t1;
      if (o.k == "solve" && x.live && x.info.status_val == OSQP_SIGINT) {
        if (!during) v.push_back({"C10", "foreign-interrupt", "a solve that was not in progress when the interrupt arrived was interrupted", back[k]});
        break;
      }
      if (during) {   // iterating when the interrupt arrived, and still two iterations later
        int before = 0, after = 0;
        for (auto& e : x.tr.ls) if (e.main && (e.kind == 33 || e.kind == 100)) { if (e.t < sig_t) before++; else if (e.t > sig_t) after++; }
        if (before && after >= 2) { v.push_back({"C10", "lost-interrupt", fmt("a solve that was iterating when the interrupt arrived ran %d more iterations", after), back[k]}); break; }
      }
      std::string w;
      if (!same_result(x, y, true, w)) { v.push_back({"C10", "interference", o.k + " gives another result than when its thread runs alone: " + w, back[k]}); break; }
    }
  }
  // the application's handler is back when no solve is running
  if (r.tail.empty() || true) if (!r.final_disp_ok) v.push_back({"C10", "handler", "the application's SIGINT handler is not in place after all solves have ended", -1});
  return v;
}

// ---- C11: environment independence
static std::vector<Case> g11(u64 seed) {
  Rng g(seed);
  Case c = start("C11", seed, g);
  Gen G(g, c.plan, H_INVALID | H_XRHO, GF_NOTIME | GF_NOVERB);
  GenProb p = any_prob(g);
  prob_params(c, p);
  G.setup(p);
  finish(G, g, 1, 7);
  if (g.chance(0.3)) place_faults(g, c.plan, H_ALLOC | H_LS, 1);
  c.par["eseed"] = (double)(g.sub() >> 12); c.par["noise"] = g.chance(0.4); c.par["verb"] = g.chance(0.5);
  return one(c);
}
static Viols j11(const Case& c) {
  Viols v;
  Run a = run_plan(c.plan);
  Rng g((u64)c.num("eseed") + 3);
  Plan q = c.plan; rand_cfg(g, q.cfg);
  q.cfg.poison_mode = (c.plan.cfg.poison_mode + 1 + (int)g.below(3)) % 4;
  bool verb = c.num("verb");
  if (verb) for (auto& o : q.ops) if (o.has("set") && (o.k == "setup" || o.k == "uset") && o.v["set"][S_VERBOSE] == 0) o.v["set"][S_VERBOSE] = 1;
  std::vector<int> map(q.ops.size());
  std::vector<Op> ops;
  Plan np; Gen N(g, np, 0, GF_SHORT, 7, 0);
  bool noise = c.num("noise");
  if (noise) N.setup(any_prob(g, M_ALL, 4, 5));
  size_t fed = 0;
  for (size_t i = 0; i < q.ops.size(); i++) {
    if (noise && g.chance(0.7)) { while (fed < np.ops.size()) ops.push_back(np.ops[fed++]); N.step(); }
    map[i] = (int)ops.size(); ops.push_back(q.ops[i]);
  }
  q.ops = ops;
  Run b = run_plan(q);
  std::map<int, bool> failed;
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    std::string w;
    // a failed solve leaves the progress figures of wherever they were last refreshed, and printing refreshes them
    if (c.plan.ops[i].k == "solve" && a.rec[i].live) failed[c.plan.ops[i].slot] = a.rec[i].ret != 0 || a.rec[i].info.status_val == OSQP_SIGINT;
    if (c.plan.ops[i].k == "setup") failed[c.plan.ops[i].slot] = false;
    Rec eb = b.rec[map[i]];
    if (verb && failed[c.plan.ops[i].slot] && a.rec[i].info.status_val == eb.info.status_val) {
      eb.info = a.rec[i].info;
    }
    if (!same_result(a.rec[i], eb, true, w)) {
      v.push_back({"C11", "environment", c.plan.ops[i].k + fmt(" depends on the environment (heap contents, addresses, clock%s%s): ", verb ? ", printing" : "", noise ? ", other solvers" : "") + w, (int)i});
      break;
    }
  }
  return v;
}

// ---- C12: times
static std::vector<Case> g12(u64 s) { return one(history("C12", s, H_INVALID | H_TIME | H_SIG | H_STALL | H_WALL | H_LS | H_ALLOC, s % 2 ? GF_SHORT : 0, M_ALL, 2, 9, 0.8)); }
static Viols j12(const Case& c) { Run r = run_plan(c.plan); return only(judge_run(c, r), "C12"); }

// ---- C13: ownership of arguments
static std::vector<Case> g13(u64 s) { return one(history("C13", s, H_INVALID | H_ALLOC | H_LS, GF_NOTIME, M_ALL, 1, 8, 0.2)); }
static Viols j13(const Case& c) {
  Run a = run_plan(c.plan, RunOpts{true, true}), b = run_plan(c.plan, RunOpts{false, false});
  Viols v = only(judge_run(c, a), "C13");
  for (auto& x : judge_run(c, a)) if (x.kind == "memory") { Viol y = x; y.prop = "C13"; v.push_back(y); }
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    std::string w;
    if (!same_result(a.rec[i], b.rec[i], true, w)) { v.push_back({"C13", "argument-kept", c.plan.ops[i].k + " gives another result when earlier arguments are overwritten after their call: " + w, (int)i}); break; }
  }
  return v;
}

// ---- C14: starting points and reads
static std::vector<Case> g14(u64 seed) {
  Rng g(seed);
  Case c = start("C14", seed, g);
  int w = (int)g.below(10);
  c.sub = w < 4 ? "cold" : w < 6 ? "getsol" : w < 8 ? "point" : "atsol";
  unsigned hf = H_INVALID | H_XRHO | (g.chance(0.4) ? H_SIG : 0) | (g.chance(0.3) ? H_TIME : 0);
  if (c.sub != "cold") hf &= ~(unsigned)H_TIME;
  Gen G(g, c.plan, hf, GF_NOTIME | (c.sub == "atsol" ? GF_CONV | GF_DIRECT : 0));
  int mode = (int)g.below(c.sub == "cold" ? 3 : 2);
  GenProb p = c.sub == "atsol" ? gen_prob(g, pick_cls(g, (1u << C_STRONG) | (1u << C_DIAG) | (1u << C_EQ) | (1u << C_M0)), 6, 8) :
              mode == 2 && g.chance(0.7) ? any_prob(g, (1u << C_PINF) | (1u << C_DINF)) : any_prob(g);
  prob_params(c, p);
  G.setup(p);
  int n = (int)g.range(1, 7);
  if (mode == 2 && g.chance(0.7)) { for (int i = 0, k = (int)g.below(3); i < k; i++) G.step(); G.add(mk("solve")); for (int i = 0, k = (int)g.below(3); i < k; i++) { if (g.chance(0.5)) G.uvec(); else G.uset(); } }
  else if (c.sub == "getsol") { for (int i = 0; i < n; i++) { G.step(); while (g.chance(0.5)) G.add(mk("getsol")); } G.add(mk("solve")); G.add(mk("getsol")); G.add(mk("getsol")); }
  else for (int i = 0; i < n; i++) G.step();
  if (c.sub == "cold" && (hf & H_SIG)) place_faults(g, c.plan, H_SIG, 1);
  c.par["mode"] = (double)mode;
  c.par["wseed"] = (double)(g.sub() >> 12);
  return one(c);
}
// the history reduced to what defines the problem: setup and accepted data / settings updates
static Plan reduced(const Plan& p, const Run& r, double& rho, Set& st) {
  rho = 0; 
  for (size_t i = 0; i < p.ops.size(); i++) if (r.rec[i].live) { rho = r.rec[i].set[S_RHO]; st = r.rec[i].set; }
  return without(p, [&](size_t i) { const std::string& k = p.ops[i].k; return !r.rec[i].exec || r.rec[i].ret != 0 || !(k == "setup" || k == "uvec" || k == "umat" || k == "uset"); });
}
static Viols j14(const Case& c) {
  Viols v;
  Run r = run_plan(c.plan);
  bool faults = false;
  for (auto& x : r.rec) if (x.tr.alloc_fired || x.tr.ls_fired) faults = true;
  auto put = [&](const char* kind, const std::string& m, int op) { v.push_back({"C14", kind, m, op}); };
  if (c.sub == "cold" || c.sub == "point") {
    double rho; Set st;
    Plan q = reduced(c.plan, r, rho, st);
    if (!rho || faults) return v;
    for (auto& o : q.ops) o.f = rt::Faults();
    Plan h = c.plan;
    Rng g((u64)c.num("wseed") + 11);
    auto sh = shadows(c.plan, r);
    if (!sh.back()[0].live) return v;
    const Prob& d = sh.back()[0].alts[0];
    Op ur = mk("urho"); ur.v["rho"] = {rho};
    Set us = sh.back()[0].set; us[S_TLIM] = 1e10;
    if (c.sub == "cold") {
      int mode = (int)c.num("mode");                        // 0: cold-started by the caller; 1: warm starting off; 2: the solve before had no solution to start from
      if (mode == 2) {
        bool none = false;
        for (size_t i = 0; i < c.plan.ops.size(); i++) {
          const Rec& x = r.rec[i]; const std::string& k = c.plan.ops[i].k;
          if (!x.exec) continue;
          if (k == "solve") { i64 t = x.info.status_val; none = x.live && x.ret == 0 && !c.plan.ops[i].has("nosolver") && (t == OSQP_PRIMAL_INFEASIBLE || t == OSQP_PRIMAL_INFEASIBLE_INACCURATE || t == OSQP_DUAL_INFEASIBLE || t == OSQP_DUAL_INFEASIBLE_INACCURATE || t == OSQP_NON_CVX); }
          else if (k == "wstart" || k == "setup" || k == "cleanup") none = false;
        }
        if (!none) return v;
        stats.events["no-solution-restart"]++;
      }
      us[S_WARM] = mode != 1;
      Op u = mk("uset"); u.v["set"] = us;
      h.ops.push_back(u); q.ops.push_back(u);
      h.ops.push_back(ur); q.ops.push_back(ur);
      if (mode == 0) h.ops.push_back(mk("cstart"));
    } else {
      us[S_WARM] = 1;
      Op u = mk("uset"); u.v["set"] = us;
      h.ops.push_back(u); q.ops.push_back(u); h.ops.push_back(ur); q.ops.push_back(ur);
      Op w = mk("wstart");
      V x(d.n), y(d.m); for (auto& z : x) z = g.uni(-2, 2); for (auto& z : y) z = g.uni(-2, 2);
      w.v["x"] = x; w.v["y"] = y;
      if (c.num("mode") && g.chance(0.5)) {                 // given one at a time
        Op w1 = mk("wstart"), w2 = mk("wstart"); w1.v["x"] = x; w2.v["y"] = y;
        h.ops.push_back(w1); h.ops.push_back(w2);
      } else h.ops.push_back(w);
      q.ops.push_back(w);
    }
    h.ops.push_back(mk("solve")); q.ops.push_back(mk("solve"));
    Run a = run_plan(h), b = run_plan(q);
    const Rec &x = a.rec[h.ops.size() - 1], &y = b.rec[q.ops.size() - 1];
    std::string w;
    if (!same_result(x, y, true, w)) put(c.sub == "cold" ? "cold-start" : "warm-start", (c.sub == "cold" ? c.num("mode") == 2 ? "after a solve without a solution, the next solve does not start cold: " : "a cold-started solve depends on what was solved before: " : "a solve warm-started at a given point depends on what was solved before: ") + w, -1);
    return v;
  }
  if (c.sub == "getsol") {
    std::vector<int> map;
    Plan q = without(c.plan, [&](size_t i) { return c.plan.ops[i].k == "getsol"; }, &map);
    Run e = run_plan(q);
    for (size_t i = 0; i < c.plan.ops.size(); i++) if (map[i] >= 0) {
      std::string w;
      if (!same_result(r.rec[i], e.rec[map[i]], true, w)) { put("read-disturbs", "without the solution reads, " + c.plan.ops[i].k + " gives another result: " + w, (int)i); break; }
    }
    int last = -1;   // last solve with nothing but reads since
    for (size_t i = 0; i < c.plan.ops.size(); i++) {
      const Rec& x = r.rec[i]; const Op& o = c.plan.ops[i];
      if (!x.exec) continue;
      if (o.k == "solve") { last = x.live && x.ret == 0 && !o.has("nosolver") && x.info.status_val != OSQP_SIGINT ? (int)i : -1; continue; }
      if (o.k == "getsol" && !o.has("nullsol") && !o.has("nosolver") && x.out.has && last >= 0) {
        const Rec& s = r.rec[last];
        if (s.sol.has && s.info.status_polish != 1) {
          if (!veq(s.sol.x, x.out.x) || !veq(s.sol.y, x.out.y) || !ceq(s.sol.pc, x.out.pc) || !ceq(s.sol.dc, x.out.dc)) put("read-differs", "osqp_get_solution does not give the solution stored by the solve before it", (int)i);
        } else if (s.sol.has && (!veq(s.sol.x, x.out.x) || !veq(s.sol.y, x.out.y))) put("read-differs", "osqp_get_solution does not give the polished solution stored by the solve before it", (int)i);
        if (s.sol.has && (!veq(x.sol.x, s.sol.x) || !veq(x.sol.y, s.sol.y) || !veq(x.sol.pc, s.sol.pc) || !veq(x.sol.dc, s.sol.dc))) put("read-disturbs", "reading the solution changed the solution the solver stores", (int)i);
      } else if (o.k != "getsol" && o.k != "getdims") last = -1;
    }
    return v;
  }
  // started at a solution, a solve ends there at the first check
  auto sh = shadows(c.plan, r);
  if (faults || !sh.back()[0].live) return v;
  Set us = sh.back()[0].set;
  Plan h = c.plan;
  int how = (int)((i64)c.num("wseed") / 97 % 4);   // 0, 1: the point is given; 2: it is where the previous solve ended; 3: it is where polishing put it
  us[S_TLIM] = 1e10; us[S_WARM] = 1; us[S_EABS] = us[S_EREL] = how == 3 ? 1e-3 : 1e-7; us[S_MAXITER] = 20000; us[S_CHECK] = 25; us[S_POLISH] = how == 3; us[S_GAP] = 1; us[S_SCTERM] = 0;
  Op u = mk("uset"); u.v["set"] = us; h.ops.push_back(u);
  if (c.num("mode")) h.ops.push_back(mk("cstart"));
  h.ops.push_back(mk("solve"));
  Run a = run_plan(h);
  const Rec s1 = a.rec[h.ops.size() - 1];
  if (!s1.exec || s1.info.status_val != OSQP_SOLVED || s1.sol.x.empty()) return v;
  if (how == 3 && (s1.info.status_polish != OSQP_POLISH_SUCCESS || s1.info.prim_res > 1e-9 || s1.info.dual_res > 1e-9 || std::fabs(s1.info.duality_gap) > 1e-9)) return v;
  if (how == 3) stats.events["started-where-polished"]++;
  Set us2 = us; us2[S_POLISH] = 0; us2[S_EABS] = us2[S_EREL] = how == 3 ? 1e-6 : 1e-4; i64 chk = (i64)(1 + (i64)c.num("wseed") % 30); us2[S_CHECK] = (double)chk;
  // adapting rho at a solution (both residuals are noise) can throw the iterates off: check before the first adaptation
  if (us[S_AR]) {
    i64 iv = (i64)s1.set[S_ARINT];
    if (iv > 0 && chk >= iv) { if (iv == 1) return v; chk = 1 + chk % (iv - 1); us2[S_CHECK] = (double)chk; }
  }
  { Op ur = mk("urho"); ur.v["rho"] = {0.1}; h.ops.push_back(ur); }
  Op u2 = mk("uset"); u2.v["set"] = us2; h.ops.push_back(u2);
  if (how < 2) {
    if ((i64)c.num("wseed") % 3 == 0) h.ops.push_back(mk("cstart"));
    Op w = mk("wstart"); w.v["x"] = s1.sol.x; w.v["y"] = s1.sol.y; h.ops.push_back(w);
  }
  h.ops.push_back(mk("solve"));
  Run b = run_plan(h);
  const Rec& s2 = b.rec[h.ops.size() - 1];
  if (s2.info.status_val != OSQP_SOLVED || s2.info.iter != chk) put("warm-start-ignored", fmt("%s at a solution (1000 times more accurate than required), the solve needed %lld iterations (check interval %lld, status %lld)", how < 2 ? "warm-started" : how == 2 ? "continued from the previous solve," : "continued from where polishing put it,", (long long)s2.info.iter, (long long)chk, (long long)s2.info.status_val), -1);
  else if (vdiff(s1.sol.x, s2.sol.x) > 1e-2 * (1 + (double)norm_inf(s1.sol.x))) put("warm-start-ignored", "warm-started at a solution, the solve ended elsewhere", -1);
  return v;
}

// ---- C15: polishing
static std::vector<Case> g15(u64 seed) {
  Rng g(seed);
  Case c = start("C15", seed, g);
  Gen G(g, c.plan, H_XRHO, GF_NOTIME | GF_POLISH | GF_NOVERB);
  GenProb p = any_prob(g, g.chance(0.8) ? M_STD : M_ALL);
  prob_params(c, p);
  G.setup(p);
  int n = (int)g.range(0, 5);
  auto solve = [&]() { G.add(mk("solve")); };
  solve();
  for (int i = 0; i < n; i++) {
    int k = (int)g.below(5);
    if (k == 0) G.uvec(); else if (k == 1) G.umat(); else if (k == 2) G.urho(); else if (k == 3) G.uset(); else G.uvec();
    // both runs continue from the same point
    Op w = mk("wstart");
    if (g.chance(0.5)) { w.v["x"] = G.rvec(G.cur.n, 2); w.v["y"] = G.rvec(G.cur.m, 2); G.add(w); } else G.add(mk("cstart"));
    solve();
  }
  if (g.chance(0.45)) {
    Run dry = run_plan(c.plan);
    std::vector<size_t> so;
    for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].k == "solve" && dry.rec[i].exec && (dry.rec[i].tr.polish_calls || dry.rec[i].tr.allocs)) so.push_back(i);
    if (!so.empty()) {
      size_t i = so[g.below(so.size())]; rt::Faults& f = c.plan.ops[i].f;
      if (g.chance(0.5) && dry.rec[i].tr.allocs) { f.alloc_at = (i64)g.below(dry.rec[i].tr.allocs); f.alloc_persist = g.chance(0.2); }
      else { i64 pc = dry.rec[i].tr.polish_calls; f.ls_at = dry.rec[i].tr.lscalls - 1 - (i64)g.below(std::max<i64>(1, pc)); if (f.ls_at < 0) f.ls_at = 0; f.ls_persist = g.chance(0.3); f.ls_code = -4; }
    }
  }
  return one(c);
}
static Viols j15(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v;
  bool faults = false; for (auto& o : c.plan.ops) if (o.f.any()) faults = true;
  for (auto& x : a) if (truth(x) && x.op >= 0 && x.op < (int)c.plan.ops.size() && r.rec[x.op].exec && (r.rec[x.op].info.status_polish != 0 || faults)) { Viol y = x; y.prop = "C15"; y.msg = "[" + x.prop + "] " + x.msg; v.push_back(y); }
  Plan q = c.plan;
  for (auto& o : q.ops) { if (o.has("set")) o.v["set"][S_POLISH] = 0; o.f = rt::Faults(); }
  Run u = run_plan(q);
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    Rec x = r.rec[i], y = u.rec[i];
    if (!x.exec || !x.live || !y.live || c.plan.ops[i].k != "solve") continue;
    if (x.set[S_AR] == 2) break;
    bool mainfault = x.tr.ls_fired && x.tr.polish_calls == 0;
    if (mainfault) break;
    auto put = [&](const char* k, const std::string& m) { v.push_back({"C15", k, m, (int)i}); };
    if (x.ret != 0 && !x.tr.ls_fired && !x.tr.alloc_fired) { put("polish-error", fmt("a solve with polishing failed with %lld without any fault", (long long)x.ret)); break; }
    if (x.info.status_val != y.info.status_val || x.info.iter != y.info.iter) { put("path", fmt("status %lld after %lld iterations with polishing, %lld after %lld without", (long long)x.info.status_val, (long long)x.info.iter, (long long)y.info.status_val, (long long)y.info.iter)); break; }
    if (x.info.rho_updates != y.info.rho_updates || x.set[S_RHO] != y.set[S_RHO]) { put("path", "rho differs with polishing on"); break; }
    if (x.ret == 0 && y.ret == 0 && x.info.rho_estimate != y.info.rho_estimate) { put("path", fmt("the rho estimate is %.17g with polishing and %.17g without", x.info.rho_estimate, y.info.rho_estimate)); break; }
    if (x.info.status_polish == 1) {
      auto worse = [&](double p, double o) { return p > std::max(o, 1e-10) * (1 + 1e-9); };
      if (worse(x.info.prim_res, y.info.prim_res) || worse(x.info.dual_res, y.info.dual_res))
        put("worse", fmt("polished point accepted although its residuals (%.6g, %.6g) are worse than those of the unpolished point (%.6g, %.6g)", x.info.prim_res, x.info.dual_res, y.info.prim_res, y.info.dual_res));
    } else {
      x.info.status_polish = y.info.status_polish; x.set[S_POLISH] = y.set[S_POLISH]; x.ret = y.ret;
      std::string w;
      if (!same_result(x, y, true, w)) { put("not-restored", fmt("polishing was not successful (%lld) but the result is not the unpolished one: ", (long long)r.rec[i].info.status_polish) + w); break; }
    }
  }
  return v;
}

// ---- C16: failing linear solver, non-convex problems
static std::vector<Case> g16(u64 seed) {
  Rng g(seed);
  if (g.chance(0.1)) {
    // a convex problem is loaded, an update makes it non-convex, another one repairs it
    Case c = start("C16", seed, g);
    c.sub = "ncumat";
    Gen G(g, c.plan, 0, GF_DIRECT | GF_NOTIME | GF_SHORT);
    GenProb p = gen_prob(g, C_NONCVX, 6, 8);
    Csc bad = p.pr.P;
    std::vector<size_t> neg;
    for (i64 j = 0; j < bad.n; j++) for (i64 k = bad.p[j]; k < bad.p[j + 1]; k++) if (bad.i[k] == j && bad.x[k] < 0) { neg.push_back((size_t)k); p.pr.P.x[(size_t)k] = g.uni(0.5, 3); }
    p.bounded = false; p.dmin = 0;
    G.setup(p);
    for (int i = (int)g.below(3); i > 0; i--) { if (g.chance(0.4)) G.uvec(); else if (g.chance(0.3)) G.urho(); else G.add(mk("solve")); }
    Op b = mk("umat"); b.v["nc"] = {1};
    if (neg.size() == 1 && g.chance(0.4)) { b.v["Px"] = {bad.x[neg[0]]}; b.v["Pidx"] = {(double)neg[0]}; b.v["Pn"] = {1}; }
    else { b.v["Px"] = bad.x; b.v["Pn"] = {(double)bad.x.size()}; }
    if (g.chance(0.3) && p.pr.A.nnz()) { b.v["Ax"] = p.pr.A.x; b.v["An"] = {(double)p.pr.A.nnz()}; }
    G.add(b);
    if (g.chance(0.3)) G.add(mk("getsol"));
    if (g.chance(0.3)) G.invalid();
    Op o = mk("umat");
    o.v["Px"] = p.pr.P.x; o.v["Pn"] = {(double)p.pr.P.x.size()};
    if (p.pr.A.nnz()) { o.v["Ax"] = p.pr.A.x; o.v["An"] = {(double)p.pr.A.nnz()}; }
    G.add(o);
    G.add(mk("solve"));
    if (g.chance(0.4)) { G.uvec(); G.add(mk("solve")); }
    return one(c);
  }
  if (g.chance(0.15)) {
    Case c = start("C16", seed, g);
    c.sub = "noncvx"; c.par["noncvx"] = 1;
    Gen G(g, c.plan, 0, GF_DIRECT | GF_NOTIME | GF_SHORT);
    GenProb p = gen_prob(g, C_NONCVX, 6, 8);
    G.setup(p);
    G.add(mk("solve"));
    G.add(mk("cleanup"));
    GenProb p2 = gen_prob(g, C_STRONG, 5, 5); G.setup(p2); G.add(mk("solve"));
    return one(c);
  }
  Case c = history("C16", seed, H_LS | (seed % 4 == 0 ? H_INVALID : 0), 0, M_ALL, 1, 7, 0);
  Rng g2(seed ^ 0x16);
  place_faults(g2, c.plan, H_LS, 1 + (int)g2.below(2));
  Gen G(g2, c.plan, 0, 0); 
  G.add(mk("solve"));
  return one(c);
}
static Viols j16(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v;
  if (c.sub == "noncvx") {
    v = mapped(a, "C16", false, true);
    if (r.rec[0].exec && r.rec[0].ret != OSQP_NONCVX_ERROR) v.push_back({"C16", "nonconvex-accepted", fmt("setup of a non-convex problem returned %lld instead of the non-convexity error", (long long)r.rec[0].ret), 0});
    for (size_t i = 3; i < r.rec.size() && i < c.plan.ops.size(); i++) if (c.plan.ops[i].k == "setup" && r.rec[i].ret != 0) v.push_back({"C16", "setup-after-nonconvex", "a convex problem cannot be set up after a non-convex one", (int)i});
    return v;
  }
  v = mapped(a, "C16", true, true);
  if (c.sub == "ncumat") for (size_t i = 0; i < c.plan.ops.size() && i < r.rec.size(); i++)
    if (c.plan.ops[i].has("nc") && r.rec[i].exec && r.rec[i].live && r.rec[i].ret == 0)
      v.push_back({"C16", "nonconvex-accepted", "a matrix update that makes the problem non-convex (wrong inertia) is accepted without an error", (int)i});
  // a main-loop failure is reported, not swallowed
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Rec& x = r.rec[i];
    if (!x.exec || !x.tr.ls_fired) continue;
    bool mainfail = false;
    for (auto& e : x.tr.ls) if (e.main && e.ret != 0) mainfail = true;
    if (mainfail && c.plan.ops[i].k == "setup" && x.ret == 0) v.push_back({"C16", "swallowed", "the factorisation failed but setup reports success", (int)i});
    if (mainfail && (c.plan.ops[i].k == "umat" || c.plan.ops[i].k == "urho" || c.plan.ops[i].k == "uvec") && x.ret == 0) v.push_back({"C16", "swallowed", "the factorisation failed but " + c.plan.ops[i].k + " reports success", (int)i});
    if (mainfail && c.plan.ops[i].k == "solve" && x.ret == 0) {
      // the solve may still end with a true status: iterates are checked by the oracles; 'solved' after a failed factorisation is judged there
    }
  }
  return v;
}

// ---- C17: bounded, first check, recovery
// |u'max(y, 0) + l'min(y, 0)| over the finite bounds; 0 where it cannot be told
static ld support(const Prob& d, const V& y) {
  ld s = 0, a = 0;
  for (i64 i = 0; i < d.m; i++) {
    double b = y[i] > 0 ? d.u[i] : d.l[i];
    if (std::fabs(b) > 1e20) { if (std::fabs(b) < 1e30) return 0; continue; }
    s += (ld)b * y[i]; a += std::fabs((ld)b * y[i]);
  }
  return std::fabs(s) > 1e-6L * a ? std::fabs(s) : 0;
}
// A solve that ran out of iterations or time although the ten times relaxed criteria hold at the point it returned
static void inaccurate_missed(const char* id, const Case& c, const Run& r, const std::vector<std::vector<Shadow>>& sh, size_t i, bool inf, Viols& v) {
  const Rec& x = r.rec[i];
  const Shadow& S = sh[i][c.plan.ops[i].slot];
  i64 st = x.info.status_val;
  if ((st != OSQP_MAX_ITER_REACHED && st != OSQP_TIME_LIMIT_REACHED) || x.info.iter < 2 || S.alts.size() != 1 || !x.sol.has || x.sol.x.empty() || (S.set[S_SCTERM] && S.set[S_SCALING])) return;
  Set s = S.set; s[S_EABS] *= 10; s[S_EREL] *= 10; s[S_EPINF] *= 10; s[S_EDINF] *= 10;
  const Prob& d = S.alts[0];
  if (inf) {
    Rec t;
    if (!twin(c.plan, r, i, x.info.iter - 1, true, t, false, true) || t.sol.x.size() != x.sol.x.size() || t.info.iter != x.info.iter - 1 || !(is_solved(t.info.status_val) || t.info.status_val == OSQP_MAX_ITER_REACHED)) return;
    stats.events["relaxed-infeasibility-recomputed"]++;
    std::string w = infeasible_by(d, s, x, t);
    if (!w.empty()) v.push_back({id, "inaccurate-missed", fmt("the relaxed criteria for %s hold at the end, at iteration %lld, but the status is %lld", w.c_str(), (long long)x.info.iter, (long long)st), (int)i});
    return;
  }
  V Ax = mulA(d.A, x.sol.x), Px = mulP(d.P, x.sol.x), Aty = mulAt(d.A, x.sol.y);
  ld ea = s[S_EABS], er = s[S_EREL], dn = std::max(std::max(norm_inf(Px), norm_inf(d.q)), norm_inf(Aty));
  ld xPx = 0, qx = 0; for (i64 j = 0; j < d.n; j++) { xPx += (ld)x.sol.x[j] * Px[j]; qx += (ld)d.q[j] * x.sol.x[j]; }
  bool ok = (d.m == 0 || x.info.prim_res < 0.999L * (ea + er * norm_inf(Ax))) && x.info.dual_res < 0.999L * (ea + er * dn);
  if (s[S_GAP]) ok = ok && std::fabs(x.info.duality_gap) < 0.999L * (ea + er * std::max(std::max(std::fabs(xPx), std::fabs(qx)), support(d, x.sol.y)));
  stats.events["relaxed-criteria-recomputed"]++;
  if (ok) v.push_back({id, "inaccurate-missed", fmt("the relaxed termination criteria hold at the end, at iteration %lld, but the status is %lld", (long long)x.info.iter, (long long)st), (int)i});
}
static std::vector<Case> g17(u64 seed) {
  Rng g(seed);
  if (g.chance(0.5)) {
    Case c = history("C17", seed, H_INVALID | H_TIME | H_SIG | H_XRHO | H_LS | H_ALLOC, 0, M_ALL, 1, 7, 0.3);
    c.sub = "schedule";
    return one(c);
  }
  if (g.chance(0.4)) {       // loose relative tolerances, checked (nearly) every iteration: which term decides when to stop?
    Case c = start("C17", seed, g);
    c.sub = "first";
    Gen G(g, c.plan, H_INVALID | H_XRHO, GF_NOTIME | GF_DIRECT);
    GenProb p = any_prob(g, M_ALL);
    prob_params(c, p);
    G.setup(p);
    Set& s = c.plan.ops.back().v["set"];
    s[S_CHECK] = (double)g.range(1, 3); s[S_SCTERM] = 0; s[S_EREL] = g.logu(-4, -0.5); s[S_EABS] = g.chance(0.5) ? 1e-9 : s[S_EREL] * g.logu(-4, 0); s[S_MAXITER] = g.chance(0.3) ? (double)g.range(3, 60) : 4000;
    s[S_AR] = g.pick({0, 1, 1, 3, 3}); s[S_ARINT] = (double)g.range(1, 20); s[S_ARTOL] = g.pick({1., 1.5, 5.}); s[S_ARFRAC] = g.pick({0.4, 0.4, 0.9, 0.1}); s[S_RHO] = g.logu(-3, 3);
    G.set = s;
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; i++) {
      int k = (int)g.below(4);
      if (k == 0) G.uvec(); else if (k == 1) G.wstart(); else if (k == 2) G.urho();
      G.add(mk("solve"));
    }
    return one(c);
  }
  Case c = start("C17", seed, g);
  c.sub = "recover";
  Gen G(g, c.plan, H_INVALID | H_TIME | H_SIG | H_XRHO | H_NOMAT, GF_NOTIME | GF_DIRECT);
  GenProb p = any_prob(g, M_ALL);
  prob_params(c, p);
  Set s = G.gp.pr.n ? default_set() : gen_set(g, p, GF_NOTIME | GF_DIRECT);
  s[S_AR] = g.chance(0.5); s[S_ARINT] = g.pick({0, 50}); s[S_ARTOL] = 5; s[S_RHO] = g.pick({0.1, 1e-6, 1e6, 10.}); s[S_SIGMA] = 1e-6;
  G.setup_fixed(p, s);
  int n = (int)g.range(1, 6);
  for (int i = 0; i < n; i++) {
    int k = (int)g.below(8);
    if (k < 2) G.add(mk("solve")); else if (k == 2) G.urho(); else if (k == 3) G.uset(); else if (k == 4) G.wstart(); else if (k == 5) G.invalid(); else if (k == 6) G.uvec(); else G.add(mk("solve"));
  }
  if (g.chance(0.7)) place_faults(g, c.plan, H_SIG | H_ALLOC | H_STALL, 1 + (int)g.below(2));
  Op u = mk("uset"); Set us = default_set(); us[S_MAXITER] = 4000; us[S_WARM] = g.chance(0.5); us[S_VERBOSE] = 0;
  if (g.chance(0.3)) us[S_CHECK] = (double)g.range(1, 40);
  if (g.chance(0.3)) us[S_EABS] = us[S_EREL] = g.logu(-6, -3);
  G.add(mk("cstart"));       // started over: no point left behind by a wild rho
  { Op ur = mk("urho"); ur.v["rho"] = {0.1}; G.add(ur); }
  u.v["set"] = us; G.add(u);
  G.add(mk("solve"));
  return one(c);
}
static Viols j17(const Case& c) {
  Run r = run_plan(c.plan);
  Viols v = only(judge_run(c, r), "C17");
  auto sh = shadows(c.plan, r);
  if (c.sub == "recover") {
    size_t i = c.plan.ops.size() - 1;
    const Rec& x = r.rec[i];
    bool prev_ok = i > 0 && r.rec[i - 1].exec && r.rec[i - 1].ret == 0 && c.plan.ops[i - 1].k == "uset" && c.plan.ops[i].k == "solve" && !c.plan.ops[i].f.any() &&
      i > 1 && c.plan.ops[i - 2].k == "urho" && r.rec[i - 2].exec && r.rec[i - 2].ret == 0 && c.plan.ops[i - 2].num("rho") == 0.1 &&
      i > 2 && c.plan.ops[i - 3].k == "cstart" && r.rec[i - 3].exec && r.rec[i - 3].ret == 0;
    const Op& so = c.plan.ops[0];
    if (prev_ok && x.exec && sh[i][0].live && !sh[i][0].lin_bad && sh[i][0].alts.size() == 1 && so.k == "setup" && r.rec[0].exec && r.rec[0].ret == 0 && std::count_if(c.plan.ops.begin(), c.plan.ops.end(), [](const Op& o) { return o.k == "setup"; }) == 1) {
      // the same solver, undisturbed: set up alike, given the data and settings now in force, and solved once
      const Prob &d = sh[i][0].alts[0], d0 = prob_of(so);
      if (d.P.x == d0.P.x && d.A.x == d0.A.x) {
        Plan q; q.cfg = c.plan.cfg; Op s1 = so; s1.f = rt::Faults();
        Set ss = so.arr("set"); if (x.set.size()) ss[S_ARINT] = r.rec[i - 1].set[S_ARINT]; s1.v["set"] = ss;
        q.ops.push_back(s1);
        Op uv = mk("uvec"); if (!(d.q == d0.q)) uv.v["q"] = d.q; if (!(d.l == d0.l && d.u == d0.u)) { uv.v["l"] = d.l; uv.v["u"] = d.u; }
        if (uv.v.size()) q.ops.push_back(uv);
        for (size_t k = i - 3; k <= i; k++) q.ops.push_back(c.plan.ops[k]);
        Run t = run_plan(q);
        bool good = true; for (size_t k = 0; k + 1 < q.ops.size(); k++) good = good && t.rec[k].exec && t.rec[k].ret == 0;
        const Rec& y = t.rec[q.ops.size() - 1];
        if (good && y.exec && y.ret == 0 && (y.info.status_val == OSQP_SOLVED || y.info.status_val == OSQP_PRIMAL_INFEASIBLE || y.info.status_val == OSQP_DUAL_INFEASIBLE)) {
          stats.events[y.info.status_val == OSQP_SOLVED ? "recovered" : "recovered-infeasible"]++;
          if (x.ret != 0 || x.info.status_val != y.info.status_val) v.push_back({"C17", "no-recovery", fmt("after the disturbances the solve ends with ret %lld, status %lld (rho %g, %lld iterations); undisturbed it ends with status %lld after %lld", (long long)x.ret, (long long)x.info.status_val, x.set.size() ? x.set[S_RHO] : 0, (long long)x.info.iter, (long long)y.info.status_val, (long long)y.info.iter), (int)i});
          else if (x.info.iter > 2 * y.info.iter + 100) v.push_back({"C17", "slow-recovery", fmt("after the disturbances the solve needs %lld iterations; undisturbed it needs %lld", (long long)x.info.iter, (long long)y.info.iter), (int)i});
        }
      }
    }
  }
  // rho moves exactly when its estimate is away from it by more than the tolerance, and then to the estimate
  int ab = 1;
  for (size_t i = 0; i < c.plan.ops.size() && ab; i++) {
    const Rec& x = r.rec[i];
    if (!twinnable(c.plan.ops[i], x)) continue;
    const Set& s = x.set;
    i64 iv = (i64)s[S_ARINT], last = x.info.iter;
    if (s[S_AR] != 1 || iv <= 0 || last < iv) continue;
    ab--;
    Rng g((u64)c.num("seed") + 3 * i);
    i64 k = iv * (g.chance(0.5) ? 1 : g.range(1, last / iv));
    if (k < 1 || k > 3000) continue;
    Rec t0, t;
    double before = 0;
    if (k > 1) { if (!twin(c.plan, r, i, k - 1, true, t0, false, true) || t0.ret != 0) continue; before = t0.set[S_RHO]; }
    if (k == 1) { Plan q = c.plan; q.ops.resize(i); Run b = run_plan(q); for (size_t j = 0; j < i; j++) if (b.rec[j].live && c.plan.ops[j].slot == c.plan.ops[i].slot) before = b.rec[j].set[S_RHO]; }
    if (!before || !twin(c.plan, r, i, k, true, t, false, true) || t.ret != 0 || !(is_solved(t.info.status_val) || t.info.status_val == OSQP_MAX_ITER_REACHED) || (k > 1 && !(is_solved(t0.info.status_val) || t0.info.status_val == OSQP_MAX_ITER_REACHED))) continue;
    double after = t.set[S_RHO], end = t.info.rho_estimate;
    if (!(end > 1.001e-6 && end < 0.999e6)) continue;
    double est = std::min(std::max(before * (end / after), 1e-6), 1e6), tol = s[S_ARTOL];
    stats.events["rho-rule"]++;
    bool must = est > before * tol * (1 + 1e-9) || est < before / tol * (1 - 1e-9), may = est > before * tol * (1 - 1e-9) || est < before / tol * (1 + 1e-9);
    if (after != before && !may) v.push_back({"C17", "rho-rule", fmt("rho moved from %.17g to %.17g at iteration %lld although its estimate %.17g is within the tolerance %g", before, after, (long long)k, est, tol), (int)i});
    else if (after == before && must) v.push_back({"C17", "rho-rule", fmt("rho stayed at %.17g at iteration %lld although its estimate is %.17g (tolerance %g)", before, (long long)k, est, tol), (int)i});
    else if (after != before && std::fabs(after - est) > 1e-9 * est) v.push_back({"C17", "rho-rule", fmt("rho moved from %.17g to %.17g at iteration %lld; its estimate is %.17g", before, after, (long long)k, est), (int)i});
  }
  // in the mode driven by the optimality error, only when that error has shrunk enough since the last adaptation
  int kb = 1;
  for (size_t i = 0; i < c.plan.ops.size() && kb; i++) {
    const Rec& x = r.rec[i];
    if (!twinnable(c.plan.ops[i], x)) continue;
    const Set& s = x.set;
    i64 iv = (i64)s[S_ARINT], last = x.info.iter;
    if (s[S_AR] != 3 || iv <= 0 || last < iv) continue;
    kb--;
    Plan q = c.plan; q.ops.resize(i); Run b = run_plan(q);
    double before = 0, kkt = OSQP_INFTY;
    for (size_t j = 0; j < i; j++) if (b.rec[j].live && c.plan.ops[j].slot == c.plan.ops[i].slot) before = b.rec[j].set[S_RHO];
    for (i64 k = iv; before && k <= last && k <= 8 * iv && k <= 400; k += iv) {
      Rec t;
      if (!twin(c.plan, r, i, k, true, t, false, true) || t.ret != 0 || t.info.iter != k || !(is_solved(t.info.status_val) || t.info.status_val == OSQP_MAX_ITER_REACHED)) break;
      double after = t.set[S_RHO], end = t.info.rho_estimate, err = t.info.rel_kkt_error;
      if (!(end > 1.001e-6 && end < 0.999e6)) break;
      double est = std::min(std::max(before * (end / after), 1e-6), 1e6), tol = s[S_ARTOL], gate = s[S_ARFRAC] * kkt;
      stats.events["rho-rule-kkt"]++;
      bool must = err <= gate * (1 - 1e-9) && (est > before * tol * (1 + 1e-9) || est < before / tol * (1 - 1e-9));
      bool may = err <= gate * (1 + 1e-9) && (est > before * tol * (1 - 1e-9) || est < before / tol * (1 + 1e-9));
      std::string w = fmt("at iteration %lld (estimate %.17g, tolerance %g, error %.9g, %g times that of the last adaptation %.9g)", (long long)k, est, tol, err, s[S_ARFRAC], kkt);
      if (after != before && !may) { v.push_back({"C17", "rho-rule", fmt("rho moved from %.17g to %.17g ", before, after) + w, (int)i}); break; }
      if (after == before && must) { v.push_back({"C17", "rho-rule", fmt("rho stayed at %.17g ", before) + w, (int)i}); break; }
      if (after == before && may) break;        // too close to call
      if (after != before) kkt = err;
      before = after;
    }
  }
  // stops at the first check at which the criteria hold
  int budget = c.sub == "first" ? 3 : 2;
  for (size_t i = 0; i < c.plan.ops.size() && budget; i++) {
    const Rec& x = r.rec[i];
    if (!twinnable(c.plan.ops[i], x) || sh[i][c.plan.ops[i].slot].alts.size() != 1) continue;
    const Set& s = sh[i][c.plan.ops[i].slot].set;
    i64 k = earlier_check(c, x, s, i);
    if (k <= 0) continue;
    budget--;
    Rec t;
    if (!late_verdict("C17", c, r, sh, i, k, t, v)) continue;
    const Prob& d = sh[i][c.plan.ops[i].slot].alts[0];
    V Ax = mulA(d.A, t.sol.x), Px = mulP(d.P, t.sol.x), Aty = mulAt(d.A, t.sol.y);
    ld ea = s[S_EABS], er = s[S_EREL];
    ld dn = std::max(std::max(norm_inf(Px), norm_inf(d.q)), norm_inf(Aty));
    ld xPx = 0, qx = 0; for (i64 j = 0; j < d.n; j++) { xPx += (ld)t.sol.x[j] * Px[j]; qx += (ld)d.q[j] * t.sol.x[j]; }
    bool ok = (d.m == 0 || t.info.prim_res < 0.999L * (ea + er * norm_inf(Ax))) && t.info.dual_res < 0.999L * (ea + er * dn);
    if (s[S_GAP]) ok = ok && std::fabs(t.info.duality_gap) < 0.999L * (ea + er * std::max(std::max(std::fabs(xPx), std::fabs(qx)), support(d, t.sol.y)));
    if (ok) v.push_back({"C17", "late-check", fmt("the termination criteria held at the check at iteration %lld but the solve went on to %lld", (long long)k, (long long)x.info.iter), (int)i});
  }
  for (size_t i = 0; i < c.plan.ops.size(); i++)
    if (twinnable(c.plan.ops[i], r.rec[i])) inaccurate_missed("C17", c, r, sh, i, false, v);
  return v;
}

// ---- C18: code generation under failing file operations
static V chars(const std::string& s) { V v; for (char ch : s) v.push_back((double)ch); return v; }
static std::string text_of(const V& v) { std::string s; for (double d : v) s += (char)(int)d; return s; }
static Op codegen_op(Rng& g) {
  Op o = mk("codegen");
  std::string dir = g.pick({"", "out/", "/tmp/x/", "a/b/c/"}), pre = g.pick({"", "p_", "mpc_", "Solver1_"});
  o.v["dir"] = chars(dir); o.v["prefix"] = chars(pre);
  o.v["def"] = {(double)g.range(1, 2), g.chance(0.2) ? 1.0 : 0.0, (double)g.chance(0.3), (double)g.chance(0.2), (double)g.chance(0.2), (double)g.chance(0.1)};
  return o;
}
static std::vector<Case> g18(u64 seed) {
  Rng g(seed);
  Case c = start("C18", seed, g);
  Gen G(g, c.plan, (g.chance(0.3) ? H_INVALID : 0) | H_XRHO, GF_NOTIME | GF_SHORT);
  GenProb p = any_prob(g, M_ALL);
  G.setup(p); prob_params(c, p);
  int n = (int)g.range(0, 4); for (int i = 0; i < n; i++) G.step();
  if (g.chance(0.3)) place_faults(g, c.plan, H_SIG | H_ALLOC | H_LS, 1);
  int k = g.chance(0.2) ? 2 : 1;
  for (int j = 0; j < k; j++) {
    Op o = codegen_op(g);
    if (g.chance(0.12)) {
      int w = (int)g.below(8);
      if (w == 0) o.v["nulldef"] = {}; else if (w == 1) o.v["nosolver"] = {}; else o.v["def"][w - 2] = w == 2 ? g.pick({0., 3., -1.}) : g.pick({2., -1.});
    } else if (g.chance(0.12)) {
      size_t L = (size_t)g.pick({60, 85, 89, 90, 91, 95, 120, 300, 2000}), M = (size_t)g.pick({0, 1, 900, 998, 1005, 1010, 1011, 1012, 1013, 1020, 1024, 2000, 4000});
      if (g.chance(0.5)) o.v["prefix"] = chars(std::string(L, 'p'));
      if (g.chance(0.5)) o.v["dir"] = chars(std::string(M, 'd') + "/");
    }
    G.add(o);
    n = (int)g.range(0, 2); for (int i = 0; i < n; i++) G.step();
  }
  G.add(mk("solve"));
  if (g.chance(0.8)) {
    Run dry = run_plan(c.plan);
    for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].k == "codegen" && dry.rec[i].tr.ios && g.chance(0.8)) {
      rt::Faults& f = c.plan.ops[i].f; i64 N = dry.rec[i].tr.ios;
      f.io_at = g.chance(0.15) ? N - 1 : g.chance(0.1) ? 0 : g.chance(0.3) ? N - 1 - (i64)g.below(std::min<i64>(N, 60)) : (i64)g.below(N);
      f.io_persist = g.chance(0.3); f.io_kind = g.chance(0.5);
    }
  }
  return one(c);
}
static std::map<std::string, std::string> undated(const std::map<std::string, std::string>& f) {
  std::map<std::string, std::string> r;
  for (auto& x : f) {
    std::string d = x.second; size_t a = d.find(" * This file was autogenerated by OSQP on ");
    if (a != std::string::npos) { size_t b = d.find('\n', a); d.erase(a, b == std::string::npos ? b : b - a); }
    r[x.first] = d;
  }
  return r;
}
static Viols j18(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v = mapped(a, "C18", false, true);
  for (auto& x : a) if (truth(x) && x.op > 0) for (int j = 0; j < x.op; j++) if (c.plan.ops[j].k == "codegen") { Viol y = x; y.msg = "[" + x.prop + "] " + x.msg; y.prop = "C18"; v.push_back(y); break; }
  Plan q = c.plan; for (auto& o : q.ops) if (o.k == "codegen") o.f = rt::Faults();
  q.cfg.poison ^= 0x5bd1e995; q.cfg.poison_mode = (q.cfg.poison_mode + 1) % 4; q.cfg.pad = (q.cfg.pad + 192) % 4096;
  Run u = run_plan(q);
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op& o = c.plan.ops[i]; const Rec &x = r.rec[i], &y = u.rec[i];
    if (o.k != "codegen" || !x.exec || !y.exec) continue;
    auto put = [&](const char* k, const std::string& m) { v.push_back({"C18", k, m, (int)i}); };
    if (x.open_files) put("file-left-open", "code generation returned with a file still open");
    std::string dir = text_of(o.arr("dir")), pre = text_of(o.arr("prefix"));
    const V& d = o.arr("def");
    bool bad = o.has("nulldef") || o.has("nosolver") || !(d[0] == 1 || d[0] == 2);
    for (size_t j = 1; j < 6; j++) if (d[j] != 0 && d[j] != 1) bad = true;
    if (bad) { if (x.ret == 0) put("invalid-accepted", "code generation accepted invalid arguments"); if (!x.files.empty()) put("invalid-wrote", "a rejected code generation wrote files"); continue; }
    std::vector<std::string> want = {dir + pre + "workspace.c", dir + pre + "workspace.h", dir + "osqp_configure.h", dir + "emosqp.c"};
    for (auto& f : x.files) if (std::find(want.begin(), want.end(), f.first) == want.end()) put("stray-file", "code generation wrote " + f.first);
    bool longname = pre.size() > 60 || dir.size() + pre.size() > 900;
    if (y.ret != 0) { if (!longname && y.info.status_val != OSQP_NON_CVX) put("refused", fmt("undisturbed code generation failed with %lld", (long long)y.ret)); }
    else for (auto& w : want) if (!y.files.count(w) || y.files.at(w).empty()) put("missing-file", "code generation succeeded but did not write " + w);
    if (x.tr.io_fired) stats.events[x.ret ? "io-fault-reported" : "io-fault-unreported"]++;
    if (x.tr.io_fired && x.ret == 0) put("fault-swallowed", "a file operation failed but code generation reports success");
    if (x.ret == 0 && y.ret == 0 && undated(x.files) != undated(y.files)) put("incomplete", "code generation reports success but its files differ from those of an undisturbed generation in another environment");
    if (x.ret != 0 && y.ret == 0 && !x.tr.io_fired && !x.tr.ls_fired) put("refused", fmt("code generation without a failing file operation returned %lld", (long long)x.ret));
    if (x.live) for (size_t j = i; j-- > 0;) if (r.rec[j].exec && r.rec[j].live) {
      const Rec& b = r.rec[j];
      if (memcmp(&b.info, &x.info, sizeof b.info) || !veq(b.set, x.set) || !veq(b.sol.x, x.sol.x) || !veq(b.sol.y, x.sol.y) || !veq(b.sol.pc, x.sol.pc) || !veq(b.sol.dc, x.sol.dc)) put("solver-changed", "code generation changed the solver's settings, info or solution");
      break;
    }
  }
  // the solver goes on as if no code had been generated
  std::vector<int> map;
  Plan w = without(c.plan, [&](size_t i) { return c.plan.ops[i].k == "codegen"; }, &map);
  Run t = run_plan(w);
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (map[i] >= 0) {
    const Rec &x = r.rec[i], &y = t.rec[map[i]]; std::string why;
    if (x.exec != y.exec || (x.exec && !same_result(x, y, true, why))) { v.push_back({"C18", "solver-disturbed", "after code generation a call behaves differently: " + why, (int)i}); break; }
  }
  return v;
}

// ---- C19: the exported solver goes on as the exporting one
static std::vector<Case> g19(u64 seed) {
  Rng g(seed);
  Case c = start("C19", seed, g);
  int mode = (int)g.range(1, 2);
  bool flt = g.chance(0.06), prt = g.chance(0.15);
  Gen G(g, c.plan, (g.chance(0.3) ? H_INVALID : 0) | (g.chance(0.3) ? H_XRHO : 0), GF_NOTIME | GF_NOPOLISH | GF_NOVERB | (mode == 1 ? GF_FIXEDRHO : 0));
  GenProb p = any_prob(g, M_ALL);
  G.setup(p); prob_params(c, p);
  int n = (int)g.range(0, 5); for (int i = 0; i < n; i++) G.step();
  if (g.chance(0.35)) place_faults(g, c.plan, H_SIG | H_ALLOC | H_LS, 1 + (int)g.below(2));
  { Set s = G.newset(); Set k = G.set; set_update(k, s); k[S_POLISH] = 0; k[S_TLIM] = 1e10; k[S_VERBOSE] = 0; Op o = mk("uset"); o.v["set"] = k; if (g.chance(0.5)) { G.set = k; G.add(o); } }
  Op o = codegen_op(g);
  o.v["dir"] = chars("out/");
  o.v["def"] = {(double)mode, (double)flt, (double)prt, 0, 0, 0};
  G.add(o);
  int lo = (int)g.range(1, 5);
  G.h = g.chance(0.3) ? H_XRHO : 0;
  if (g.chance(0.7)) G.add(mk("solve"));
  for (int i = 0; i < lo; i++) {
    int k = (int)g.below(12);
    if (k < 3) G.add(mk("solve"));
    else if (k < 6) {
      if (mode == 2 && g.chance(0.7)) { G.uvec(); continue; }
      Op u = mk("uvec");                    // bounds move, but no row changes its type
      if (g.chance(0.6)) { u.v["q"] = G.rvec(G.cur.n, 2); G.cur.q = u.v["q"]; }
      if (G.cur.m && g.chance(0.6)) {
        V l = G.cur.l, w = G.cur.u; for (i64 j = 0; j < G.cur.m; j++) { double d = g.uni(-1, 1); if (l[j] > -1e29) l[j] += d; if (w[j] < 1e29) w[j] += d; if (l[j] > -1e29 && w[j] < 1e29 && w[j] > l[j]) w[j] += g.uni(0, 1); }
        if (g.chance(0.15)) { l[0] = 1; w[0] = 0; u.v["l"] = l; u.v["u"] = w; }
        else { u.v["l"] = l; u.v["u"] = w; G.cur.l = l; G.cur.u = w; }
      }
      if (u.v.empty()) u.v["q"] = G.cur.q;
      G.add(u);
    }
    else if (k < 8) { if (mode == 2) G.umat(); else G.wstart(); }
    else if (k == 8) { if (mode == 2) G.urho(); else G.add(mk("cstart")); }
    else if (k == 9) G.uset();
    else if (k == 10) G.wstart();
    else G.add(mk("cstart"));
  }
  G.add(mk("solve"));
  return one(c);
}
static Viols j19(const Case& c) {
  Viols v;
#ifndef SIM_MKL
  size_t at = 0; bool has = false;
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].k == "codegen") { at = i; has = true; break; }
  if (!has) return v;
  Run r = run_plan(c.plan);
  const Op& o = c.plan.ops[at]; const Rec& x = r.rec[at];
  if (!x.exec || x.ret != 0 || o.f.any()) return v;
  std::vector<Op> ops; std::vector<size_t> idx;
  for (size_t i = at + 1; i < c.plan.ops.size(); i++) {
    const Op& t = c.plan.ops[i];
    if (t.f.any() || t.has("nosolver") || t.k == "codegen" || t.k == "setup" || t.k == "cleanup") break;
    if (t.k == "solve" || t.k == "uvec" || t.k == "umat" || t.k == "urho" || t.k == "wstart" || t.k == "cstart" || t.k == "uset") {
      ops.push_back(t); idx.push_back(i);
      if (c.plan.cfg.inf) for (const char* w : {"l", "u"}) if (t.has(w)) for (double& d : ops.back().v[w]) if (std::fabs(d) == OSQP_INFTY) d = d < 0 ? -INFINITY : INFINITY;
    }
  }
  auto put = [&](const char* k, const std::string& m, size_t i) { v.push_back({"C19", k, m, (int)i}); };
  std::vector<EmbRec> e; EmbRec b; std::string err;
  if (!emb_run(x.files, text_of(o.arr("dir")), text_of(o.arr("prefix")), ops, e, err, b)) {
    if (!err.empty()) { for (auto& ch : err) if (ch == '\n') ch = ' '; put("does-not-compile", "the generated code does not build: " + err.substr(0, 300), at); }
    return v;
  }
  stats.events["exported-programs"]++;
  const Op& so = c.plan.ops[0];
  if (b.n != (i64)so.num("n") || b.m != (i64)so.num("m")) put("dimensions", "the exported solver has other dimensions", at);
  if (b.status != OSQP_UNSOLVED || b.text != "unsolved") put("initial-status", "the exported solver does not start with the status 'unsolved'", at);
  bool flt = o.arr("def").size() > 1 && o.arr("def")[1] == 1;
  for (size_t k = 0; k < ops.size(); k++) {
    const Rec& y = r.rec[idx[k]]; const EmbRec& z = e[k];
    if (!y.exec || !y.live) break;
    if (y.tr.ls_fired || y.tr.alloc_fired || y.info.status_val == OSQP_SIGINT) break;
    if (z.heap) { put("allocates", "the exported solver uses the heap", idx[k]); break; }
    if (flt) { if (ops[k].k == "solve" && z.ret == 0 && (z.status < 1 || z.status >= OSQP_UNSOLVED)) put("status", "the single-precision solver ends without a status", idx[k]); if ((ops[k].k == "uset" || ops[k].k == "wstart") && y.ret != z.ret) put("return-code", fmt("%s returns %lld from the exported (single precision) solver and %lld from the original", ops[k].k.c_str(), (long long)z.ret, (long long)y.ret), idx[k]); continue; }
    if (y.ret != z.ret && ops[k].k != "cstart") { put("return-code", fmt("%s returns %lld from the exported solver and %lld from the original", ops[k].k.c_str(), (long long)z.ret, (long long)y.ret), idx[k]); break; }
    if (memcmp(&y.set[S_RHO], &z.rho, 8)) { put("rho", fmt("rho is %.17g in the exported solver and %.17g in the original", z.rho, y.set[S_RHO]), idx[k]); break; }
    if (ops[k].k != "solve" || y.ret != 0) continue;
    auto df = [&](double p, double q) { return memcmp(&p, &q, 8) && !(p == q) && !(std::isnan(p) && std::isnan(q)); };
    auto vd = [&](const V& p, const V& q) { if (p.size() != q.size()) return true; for (size_t j = 0; j < p.size(); j++) if (df(p[j], q[j])) return true; return false; };
    std::string w;
    i64 st = y.info.status_val;             // embedded code does not store certificates (they need a division)
    bool has_x = is_solved(st) || st == OSQP_MAX_ITER_REACHED;
    if (z.status != y.info.status_val || z.text != y.info.status) w = fmt("status %lld vs %lld", (long long)z.status, (long long)y.info.status_val);
    else if (z.iter != y.info.iter) w = fmt("%lld vs %lld iterations", (long long)z.iter, (long long)y.info.iter);
    else if (y.sol.has && vd(z.x, y.sol.x)) w = "x"; else if (y.sol.has && vd(z.y, y.sol.y)) w = "y"; else if (y.sol.has && has_x && vd(z.pc, y.sol.pc)) w = "prim_inf_cert"; else if (y.sol.has && has_x && vd(z.dc, y.sol.dc)) w = "dual_inf_cert";
    else if (df(z.obj, y.info.obj_val)) w = "obj_val"; else if (df(z.dobj, y.info.dual_obj_val)) w = "dual_obj_val"; else if (df(z.pres, y.info.prim_res)) w = "prim_res"; else if (df(z.dres, y.info.dual_res)) w = "dual_res";
    else if (df(z.gap, y.info.duality_gap)) w = "duality_gap"; else if (z.rho_updates != y.info.rho_updates) w = "rho_updates";
    if (!w.empty()) { put("diverges", "the exported solver's result differs from the original's: " + w, idx[k]); break; }
  }
#endif
  return v;
}

// ---- C20, C21: derivatives of the solution
static bool adj_op(const Op& o) { return o.k == "adjc" || o.k == "adjv" || o.k == "adjm"; }
static Op adj_compute(Rng& g, i64 n, i64 m) {
  Op o = mk("adjc"); V dx(n), dy(m);
  int w = (int)g.below(5);
  for (auto& d : dx) d = w == 0 ? 0 : g.uni(-1, 1);
  for (auto& d : dy) d = w == 1 ? 0 : g.uni(-1, 1);
  if (w == 2) { for (auto& d : dx) if (g.chance(0.7)) d = 0; for (auto& d : dy) if (g.chance(0.7)) d = 0; }
  o.v["dx"] = dx; o.v["dy"] = dy;
  return o;
}
// the entries asked for: those of the problem's own matrices (P: one triangle), all of them, or some
static Op adj_mat(Rng& g, const Prob& p) {
  Op o = mk("adjm");
  auto dense = [&](i64 m, i64 n, double ch, V& pp, V& pi) { pp = {0}; for (i64 j = 0; j < n; j++) { for (i64 i = 0; i < m; i++) if (g.chance(ch)) pi.push_back((double)i); pp.push_back((double)pi.size()); } };
  V Pp, Pi, Ap, Ai;
  int w = (int)g.below(4);
  if (w < 2) { Pp = V(p.P.p.begin(), p.P.p.end()); Pi = V(p.P.i.begin(), p.P.i.end()); Ap = V(p.A.p.begin(), p.A.p.end()); Ai = V(p.A.i.begin(), p.A.i.end()); }
  else { double ch = w == 2 ? 1 : 0.4; dense(p.n, p.n, ch, Pp, Pi); dense(p.m, p.n, ch, Ap, Ai); }
  o.v["Pp"] = Pp; o.v["Pi"] = Pi; o.v["Ap"] = Ap; o.v["Ai"] = Ai;
  return o;
}
// a call that leaves data and stored solution alone
static Op adj_neutral(Rng& g, const Prob& p, const Set& set) {
  Op o;
  switch (g.below(8)) {
  case 0: o = mk("getdims"); break;
  case 1: o = mk("cstart"); break;
  case 2: { o = mk("wstart"); V x(p.n); for (auto& d : x) d = g.uni(-2, 2); o.v["x"] = x; break; }
  case 3: { o = mk("uset"); Set s = set; s[S_ALPHA] = g.uni(0.6, 1.8); if (g.chance(0.3)) s[S_MAXITER] = 0; o.v["set"] = s; break; }
  case 4: o = mk("urho"); o.v["rho"] = {g.chance(0.4) ? -1. : g.logu(-2, 2)}; break;
  case 5: { o = mk("umat"); o.v["Px"] = V((size_t)p.P.nnz() + 2, 1.0); o.v["Pidx"] = V((size_t)p.P.nnz() + 2, 0.0); o.v["Pn"] = {-1.0}; break; }
  case 6: if (p.m) { o = mk("uvec"); V l = p.l, u = p.u; l[0] = 1; u[0] = 0; o.v["l"] = l; o.v["u"] = u; break; } [[fallthrough]];
  default: o = mk("getsol");
  }
  return o;
}
static void adj_insert(Rng& g, Case& c, bool values) {
  Run dry = run_plan(c.plan);
  auto sh = shadows(c.plan, dry);
  std::vector<size_t> at;
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].k == "solve" && dry.rec[i].exec && dry.rec[i].ret == 0 && dry.rec[i].live && is_solved(dry.rec[i].info.status_val) && !sh[i].empty() && !sh[i][0].alts.empty()) at.push_back(i);
  int left = 3;
  for (size_t k = at.size(); k-- > 0 && left;) {
    if (k + 1 != at.size() && !g.chance(0.5)) continue;
    left--;
    size_t i = at[k]; const Prob& p = sh[i][0].alts[0]; const Set& set = dry.rec[i].set;
    std::vector<Op> ins;
    auto neutral = [&](double ch) { while (g.chance(ch)) ins.push_back(adj_neutral(g, p, set)); };
    neutral(0.3);
    Op cp = adj_compute(g, p.n, p.m), mt = adj_mat(g, p);
    int rounds = (int)g.range(1, values ? 2 : 3);
    for (int q = 0; q < rounds; q++) {
      if (q && g.chance(0.4)) cp = adj_compute(g, p.n, p.m);
      if (q && g.chance(0.3)) mt = adj_mat(g, p);
      ins.push_back(cp); neutral(0.2);
      bool a = g.chance(0.5);
      ins.push_back(a ? mk("adjv") : mt); neutral(0.15);
      if (values || g.chance(0.8)) ins.push_back(a ? mt : mk("adjv"));
      if (g.chance(0.2)) ins.push_back(mk("adjv"));
      neutral(0.15);
    }
    if (!values && g.chance(0.1)) { Op o = g.chance(0.5) ? cp : g.chance(0.5) ? mt : mk("adjv"); o.v["nosolver"] = {}; ins.push_back(o); }
    c.plan.ops.insert(c.plan.ops.begin() + i + 1, ins.begin(), ins.end());
  }
}
static std::vector<Case> g20(u64 seed) {
  Rng g(seed);
  Case c = start("C20", seed, g);
  Gen G(g, c.plan, (g.chance(0.3) ? H_INVALID : 0) | H_XRHO, GF_NOTIME);
  GenProb p = any_prob(g, ((1u << C_NONCVX) - 1) & ~(1u << C_PINF) & ~(1u << C_DINF));
  G.setup(p); prob_params(c, p);
  int n = (int)g.range(0, 3); for (int i = 0; i < n; i++) G.step();
  G.add(mk("solve"));
  n = (int)g.range(0, 3); for (int i = 0; i < n; i++) G.step();
  if (c.plan.ops.back().k != "solve") G.add(mk("solve"));
  if (g.chance(0.3)) place_faults(g, c.plan, H_SIG | H_ALLOC | H_LS, 1);
  adj_insert(g, c, false);
  if (g.chance(0.75)) {
    Run dry = run_plan(c.plan);
    std::vector<size_t> w; for (size_t i = 0; i < c.plan.ops.size(); i++) if (adj_op(c.plan.ops[i]) && dry.rec[i].exec && dry.rec[i].tr.allocs) w.push_back(i);
    if (!w.empty() && g.chance(0.04)) {      // every allocation of one derivative call in turn
      size_t at = w[g.below(w.size())]; i64 N = dry.rec[at].tr.allocs; bool pers = g.chance(0.3);
      std::vector<Case> all;
      for (i64 k = 0; k < N && k < 400; k++) { Case d = c; d.plan.ops[at].f.alloc_at = k; d.plan.ops[at].f.alloc_persist = pers; all.push_back(d); }
      return all;
    }
    int k = w.empty() ? 0 : (int)g.range(1, 2);
    while (k--) { Op& o = c.plan.ops[w[g.below(w.size())]]; i64 N = dry.rec[&o - c.plan.ops.data()].tr.allocs; o.f.alloc_at = (i64)g.below(N); o.f.alloc_persist = g.chance(0.3); }
  }
  return one(c);
}
// For every operation: does the stored solution belong to the data (0 no, 1 solved), and did the last computation for it succeed?
struct AdjState { bool solved = false, sol = false, computed = false; };
static std::vector<AdjState> adj_states(const Plan& p, const Run& r) {
  std::vector<AdjState> v; AdjState a;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op& o = p.ops[i]; const Rec& x = r.rec[i];
    v.push_back(a);
    if (!x.exec || o.has("nosolver")) continue;
    bool inj = x.tr.alloc_fired || x.tr.ls_fired;
    if (o.k == "setup" || o.k == "cleanup") a = AdjState();
    else if (o.k == "solve") { a.solved = x.ret == 0 && x.live && is_solved(x.info.status_val); a.sol = x.sol.has; a.computed = false; }
    else if ((o.k == "uvec" || o.k == "umat") && (x.ret == 0 || inj)) a.solved = a.computed = false;
    else if (o.k == "adjc") a.computed = x.ret == 0;
  }
  return v;
}
static Viols j20(const Case& c) {
  Run r = run_plan(c.plan);
  Viols a = judge_run(c, r), v = mapped(a, "C20", false, true);
  bool any = false;
  for (auto& o : c.plan.ops) any = any || adj_op(o);
  if (!any) return v;
  Plan q = c.plan; for (auto& o : q.ops) if (adj_op(o)) o.f = rt::Faults();
  q.cfg.poison ^= 0x5bd1e995; q.cfg.poison_mode = (q.cfg.poison_mode + 1) % 4; q.cfg.pad = (q.cfg.pad + 192) % 4096;
  Run u = run_plan(q);
  auto st = adj_states(c.plan, r);
  const Op* last = nullptr; V vec0; const Op* vecfor = nullptr; bool hv = false;
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op& o = c.plan.ops[i]; const Rec &x = r.rec[i], &y = u.rec[i];
    if (o.k == "solve" || o.k == "setup") hv = false;
    if (!adj_op(o) || !x.exec || !y.exec) continue;
    auto put = [&](const char* k, const std::string& m) { v.push_back({"C20", k, m, (int)i}); };
    if (o.has("nosolver")) { if (x.ret == 0) put("invalid-accepted", "a derivative call without a solver was accepted"); continue; }
    for (size_t j = i; j-- > 0;) if (r.rec[j].exec && r.rec[j].live) {
      const Rec& b = r.rec[j];
      if (memcmp(&b.info, &x.info, sizeof b.info) || !veq(b.set, x.set) || !veq(b.sol.x, x.sol.x) || !veq(b.sol.y, x.sol.y) || !veq(b.sol.pc, x.sol.pc) || !veq(b.sol.dc, x.sol.dc)) put("solver-changed", "a derivative call changed the solver's settings, info or solution");
      break;
    }
    if (o.k == "adjc") last = &o;
    if (!st[i].solved || !st[i].sol) continue;
    if (o.k != "adjc" && !st[i].computed) continue;
    stats.events["derivative-calls"]++;
    if (y.ret != 0) { put("refused", fmt("%s after a solve that succeeded returned %lld", o.k.c_str(), (long long)y.ret)); continue; }
    if (x.ret != 0) { if (!x.tr.alloc_fired) put("refused", fmt("%s after a solve that succeeded returned %lld", o.k.c_str(), (long long)x.ret)); else stats.events["derivative-fault-reported"]++; continue; }
    for (double d : x.misc) if (!std::isfinite(d)) { put("not-finite", "a derivative is not a finite number"); break; }
    if (!veq(x.misc, y.misc)) put("environment", "the same derivatives differ in another environment or after a failed attempt");
    if (o.k == "adjv") {
      if (hv && vecfor && last && veq(vecfor->arr("dx"), last->arr("dx")) && veq(vecfor->arr("dy"), last->arr("dy")) && !veq(vec0, x.misc)) put("not-repeatable", "asking for the same derivatives again gives another result");
      vec0 = x.misc; vecfor = last; hv = true;
    }
  }
  std::vector<int> map;
  Plan w = without(c.plan, [&](size_t i) { return adj_op(c.plan.ops[i]); }, &map);
  Run t = run_plan(w);
  for (size_t i = 0; i < c.plan.ops.size(); i++) if (map[i] >= 0) {
    const Rec &x = r.rec[i], &y = t.rec[map[i]]; std::string why;
    if (x.exec != y.exec || (x.exec && !same_result(x, y, true, why))) { v.push_back({"C20", "solver-disturbed", "after derivative calls a call behaves differently: " + why, (int)i}); break; }
  }
  return v;
}

static std::vector<Case> g21(u64 seed) {
  Rng g(seed);
  Case c = start("C21", seed, g);
  Gen G(g, c.plan, (g.chance(0.4) ? H_INVALID : 0) | H_NORHO, GF_NOTIME | GF_NOVERB);
  GenProb p = any_prob(g, ((1u << C_NONCVX) - 1) & ~(1u << C_PINF) & ~(1u << C_DINF));
  G.setup(p); prob_params(c, p);
  int rounds = (int)g.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    int n = (int)g.range(0, 4); for (int i = 0; i < n; i++) G.step();
    Set s = G.set; s[S_EABS] = 1e-9; s[S_EREL] = g.chance(0.5) ? 0 : 1e-9; s[S_MAXITER] = 20000; s[S_CHECK] = g.pick({25, 10, 1}); s[S_POLISH] = g.chance(0.6); s[S_GAP] = 1; s[S_ALPHA] = 1.6; s[S_VERBOSE] = 0; s[S_SCTERM] = 0;
    Op o = mk("uset"); o.v["set"] = s; G.add(o); G.set = s;
    G.add(mk("solve"));
  }
  if (g.chance(0.25)) place_faults(g, c.plan, H_SIG | H_ALLOC | H_LS, 1);
  adj_insert(g, c, true);
  return one(c);
}
static bool gauss(std::vector<std::vector<ld>> K, const std::vector<ld>& b, std::vector<ld>& x, ld& inv, ld* fro = nullptr) {   // inv: norm of the inverse
  size_t N = b.size(); ld nk = 0;
  std::vector<std::vector<ld>> I(N, std::vector<ld>(N + 1, 0)); for (size_t i = 0; i < N; i++) { I[i][i] = 1; I[i][N] = b[i]; for (auto d : K[i]) nk = std::max(nk, std::fabs(d)); }
  for (size_t k = 0; k < N; k++) {
    size_t pv = k; for (size_t i = k; i < N; i++) if (std::fabs(K[i][k]) > std::fabs(K[pv][k])) pv = i;
    if (!(std::fabs(K[pv][k]) > 1e-9L * nk)) return false;
    std::swap(K[k], K[pv]); std::swap(I[k], I[pv]);
    for (size_t i = 0; i < N; i++) if (i != k && K[i][k] != 0) { ld f = K[i][k] / K[k][k]; for (size_t j = k; j < N; j++) K[i][j] -= f * K[k][j]; for (size_t j = 0; j <= N; j++) I[i][j] -= f * I[k][j]; }
  }
  x.assign(N, 0); inv = 0; ld f2 = 0;
  for (size_t i = 0; i < N; i++) { ld s = 0; for (size_t j = 0; j < N; j++) { ld d = I[i][j] / K[i][i]; s += std::fabs(d); f2 += d * d; } inv = std::max(inv, s); x[i] = I[i][N] / K[i][i]; }
  if (fro) *fro = std::sqrt(f2);
  return true;
}
static Viols j21(const Case& c) {
  Viols v;
  Run r = run_plan(c.plan);
  auto sh = shadows(c.plan, r);
  auto st = adj_states(c.plan, r);
  const Op* last = nullptr; const Rec* sol = nullptr;
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op& o = c.plan.ops[i]; const Rec& x = r.rec[i];
    if (!x.exec || o.has("nosolver")) continue;
    if (o.k == "solve") sol = &x;
    if (o.k == "adjc") last = &o;
    if ((o.k != "adjv" && o.k != "adjm") || !last || !sol || !st[i].solved || !st[i].sol || !st[i].computed || x.ret != 0 || sh[i].empty() || sh[i][0].alts.size() != 1) continue;
    const Prob& p = sh[i][0].alts[0]; i64 n = p.n, m = p.m;
    const V &X = sol->sol.x, &Y = sol->sol.y;
    V Ax = mulA(p.A, X), Px = mulP(p.P, X), Aty = mulAt(p.A, Y);
    bool ok = true; std::vector<int> act(m, 0);           // 2 equality, 1 upper, -1 lower
    for (i64 j = 0; j < n && ok; j++) if (std::fabs(Px[j] + p.q[j] + Aty[j]) > 1e-7) ok = false;
    for (i64 k = 0; k < m && ok; k++) {
      if (p.l[k] == p.u[k]) { act[k] = 2; if (std::fabs(Ax[k] - p.u[k]) > 1e-7) ok = false; continue; }
      if (p.u[k] - p.l[k] < 1e-2) ok = false;
      double su = p.u[k] > 1e25 ? 1e30 : p.u[k] - Ax[k], sl = p.l[k] < -1e25 ? 1e30 : Ax[k] - p.l[k];
      if (Y[k] > 1e-2 && std::fabs(su) < 1e-7) act[k] = 1;
      else if (Y[k] < -1e-2 && std::fabs(sl) < 1e-7) act[k] = -1;
      else if (std::fabs(Y[k]) < 1e-7 && su > 1e-2 && sl > 1e-2) act[k] = 0;
      else ok = false;
    }
    double xn = 1, yn = 1; for (double d : X) xn = std::max(xn, std::fabs(d)); for (double d : Y) yn = std::max(yn, std::fabs(d));
    if (!ok || xn > 100 || yn > 100) continue;
    std::vector<i64> idx; for (i64 k = 0; k < m; k++) if (act[k]) idx.push_back(k);
    size_t N = (size_t)n + idx.size();
    std::vector<std::vector<ld>> K(N, std::vector<ld>(N, 0));
    std::vector<ld> b(N), w; ld inv = 0;
    for (i64 j = 0; j < n; j++) for (i64 t = p.P.p[j]; t < p.P.p[j + 1]; t++) { K[p.P.i[t]][j] = p.P.x[t]; K[j][p.P.i[t]] = p.P.x[t]; }
    for (i64 j = 0; j < n; j++) for (i64 t = p.A.p[j]; t < p.A.p[j + 1]; t++) for (size_t a = 0; a < idx.size(); a++) if (idx[a] == p.A.i[t]) { K[n + a][j] = p.A.x[t]; K[j][n + a] = p.A.x[t]; }
    for (i64 j = 0; j < n; j++) b[j] = -(ld)last->arr("dx")[j];
    for (size_t a = 0; a < idx.size(); a++) b[n + a] = -(ld)last->arr("dy")[idx[a]];
    if (!gauss(K, b, w, inv) || inv > 1e3L) continue;
    // the code solves the least-squares form of a larger system (all rows, weighted by multiplier and slack), regularised by 1e-6
    // and refined at most 200 times, which converges only if that system's smallest singular value is well above 1e-3
    {
      std::vector<std::vector<ld>> row; std::vector<ld> lam, sl;        // G, the multipliers, the slacks
      for (i64 k = 0; k < m; k++) if (act[k] != 2) for (int sd = -1; sd <= 1; sd += 2) {
        double bd = sd < 0 ? p.l[k] : p.u[k]; if (std::fabs(bd) > 1e25) continue;
        std::vector<ld> a(n, 0); for (i64 j = 0; j < n; j++) for (i64 t = p.A.p[j]; t < p.A.p[j + 1]; t++) if (p.A.i[t] == k) a[j] += sd * (ld)p.A.x[t];
        row.push_back(a); lam.push_back(sd * Y[k] > 0 ? sd * Y[k] : 0); sl.push_back(act[k] == sd ? 0 : sd * (Ax[k] - bd));
      }
      size_t q = row.size(), ne = 0; for (i64 k = 0; k < m; k++) ne += act[k] == 2;
      size_t M = n + q + ne; if (M > 120) continue;
      std::vector<std::vector<ld>> F(M, std::vector<ld>(M, 0));
      for (i64 a = 0; a < n; a++) for (i64 e = 0; e < n; e++) F[a][e] = K[a][e];
      for (size_t a = 0; a < q; a++) { F[n + a][n + a] = sl[a]; for (i64 e = 0; e < n; e++) { F[n + a][e] = lam[a] * row[a][e]; F[e][n + a] = row[a][e]; } }
      size_t at = n + q; for (i64 k = 0; k < m; k++) if (act[k] == 2) { for (i64 j = 0; j < n; j++) for (i64 t = p.A.p[j]; t < p.A.p[j + 1]; t++) if (p.A.i[t] == k) { F[at][j] += p.A.x[t]; F[j][at] += p.A.x[t]; } at++; }
      std::vector<ld> z; ld fi = 0, fro = 0;
      if (!gauss(F, std::vector<ld>(M, 0), z, fi, &fro) || fro > 200) continue;
    }
    stats.events["derivatives-compared"]++;
    V ry(m, 0.0); for (size_t a = 0; a < idx.size(); a++) ry[idx[a]] = (double)w[n + a];
    double wn = 1; for (ld d : w) wn = std::max(wn, (double)std::fabs(d));
    double tol = 1e-5 * wn * (double)std::max<ld>(1, inv) * std::max(xn, yn);
    auto off = [&](double got, double want) { return !(std::fabs(got - want) <= tol + 1e-6 * std::fabs(want)); };
    auto put = [&](const std::string& m) { v.push_back({"C21", "wrong-derivative", m, (int)i}); };
    if (o.k == "adjv") {
      const V& d = x.misc; bool bad = false;
      for (i64 j = 0; j < n && !bad; j++) if (off(d[j], (double)w[j])) { put(fmt("dq[%lld] = %.9g, the sensitivity of the problem loaded is %.9g", (long long)j, d[j], (double)w[j])); bad = true; }
      for (i64 k = 0; k < m && !bad; k++) {
        double dl = d[n + k], du = d[n + m + k];
        if (act[k] == 2 ? off(dl + du, -ry[k]) : (off(dl, act[k] == -1 ? -ry[k] : 0) || off(du, act[k] == 1 ? -ry[k] : 0))) { put(fmt("dl[%lld] = %.9g, du = %.9g, the sensitivity to the %s bound is %.9g", (long long)k, dl, du, act[k] == 2 ? "common" : act[k] == 1 ? "upper (active)" : act[k] == -1 ? "lower (active)" : "inactive", -ry[k])); bad = true; }
      }
    } else {
      const V &Pp = o.arr("Pp"), &Pi = o.arr("Pi"), &Ap = o.arr("Ap"), &Ai = o.arr("Ai"); bool bad = false;
      for (i64 j = 0; j < n && !bad; j++) for (i64 t = (i64)Pp[j]; t < (i64)Pp[j + 1] && !bad; t++) {
        i64 k = (i64)Pi[t]; double want = 0.5 * ((double)w[k] * X[j] + (double)w[j] * X[k]);
        if (off(x.misc[t], want)) { put(fmt("dP(%lld,%lld) = %.9g, the sensitivity of the problem loaded is %.9g", (long long)k, (long long)j, x.misc[t], want)); bad = true; }
      }
      for (i64 j = 0; j < n && !bad; j++) for (i64 t = (i64)Ap[j]; t < (i64)Ap[j + 1] && !bad; t++) {
        i64 k = (i64)Ai[t]; double want = act[k] ? Y[k] * (double)w[j] + ry[k] * X[j] : 0, got = x.misc[Pi.size() + t];
        if (off(got, want)) { put(fmt("dA(%lld,%lld) = %.9g, the sensitivity of the problem loaded is %.9g", (long long)k, (long long)j, got, want)); bad = true; }
      }
    }
    if (!v.empty()) break;
  }
  return v;
}

// ---- C23: a solve that stopped early goes on where it stopped
static i64 iters_done(const Rec& x) {      // whole iterations of a solve that kept its iterates
  if (x.ret == 0) { i64 t = x.info.status_val; return t == OSQP_MAX_ITER_REACHED || t == OSQP_TIME_LIMIT_REACHED || is_solved(t) ? x.info.iter : -1; }
  if (x.info.status_val == OSQP_SIGINT) return x.tr.main_solves;
  if (x.tr.ls_fired && x.tr.main_solves >= 1) return x.tr.main_solves - 1;   // the failing one is not part of the history
  return -1;
}
static std::vector<Case> g23(u64 seed) {
  Rng g(seed);
  Case c = start("C23", seed, g);
  Gen G(g, c.plan, H_INVALID | H_XRHO | (g.chance(0.3) ? H_SIG : 0), GF_NOTIME | GF_DIRECT | (g.chance(0.5) ? GF_FIXEDRHO : 0));
  GenProb p = any_prob(g, M_ALL);
  prob_params(c, p);
  G.setup(p);
  bool adapt = G.set[S_AR] == 1 && G.set[S_ARINT] > 0;
  { Op& o = c.plan.ops.back(); V& s = o.v["set"]; if (s[S_AR] > 1) { s[S_AR] = g.chance(0.5); if (s[S_AR] == 1 && g.chance(0.8)) s[S_ARINT] = (double)g.range(1, 30); } G.set = s; adapt = s[S_AR] == 1; }
  for (int i = 0, k = (int)g.below(5); i < k; i++) G.step();
  if (g.chance(0.2)) place_faults(g, c.plan, H_SIG | H_STALL, 1);
  Set s = G.set; s[S_TLIM] = 1e10; s[S_WARM] = 1;
  if (g.chance(0.5)) s[S_EABS] = s[S_EREL] = g.logu(-9, -3);
  if (g.chance(0.6)) s[S_POLISH] = 0;
  i64 iv = adapt ? std::max<i64>(1, (i64)s[S_ARINT]) : 1;
  i64 chk = g.chance(0.3) ? 0 : adapt ? (i64)g.pick({1, 2, 5, 10, 25}) : 1;
  bool coarse = !adapt && g.chance(0.3); if (coarse) chk = g.range(2, 25);
  s[S_CHECK] = (double)chk;
  i64 step = iv; if (chk) { step = iv * chk; for (i64 k = iv; k < iv * chk; k += iv) if (k % chk == 0) { step = k; break; } }
  int parts = (int)g.range(1, 4);
  i64 N = 0;
  Run pre = run_plan(c.plan);
  for (int k = 0; k < parts; k++) {
    i64 len = step * std::max<i64>(1, (i64)g.logu(0, 1.8)); if (len > 600) len = step * std::max<i64>(1, 600 / step);
    Set t = s; int how = (int)g.below(8);
    bool any = !adapt && chk <= 1;                // may stop at any iteration
    Op so = mk("solve"); so.v["part"] = {1};
    t[S_MAXITER] = (double)len;
    if (any && how <= 5) {
      i64 at = g.range(0, len - 1);
      if (how <= 1) { so.f.sig_ls = at; t[S_MAXITER] = (double)(len + g.range(1, 50)); }
      else if (how <= 3) { so.f.ls_at = at; so.f.ls_kind = 2; so.f.ls_code = g.pick({-4, -1, -2, -3, -10, -7}); t[S_MAXITER] = (double)(len + g.range(1, 50)); }
      else { t[S_TLIM] = 1e-9 * (c.plan.cfg.ls_ns + 100) * (double)(at + 1); t[S_MAXITER] = (double)(len + g.range(1, 50)); }
    }
    Op u = mk("uset"); u.v["set"] = t; u.v["part"] = {1};
    G.add(u); G.add(so);
    N += len;
    for (int q = 0; q < 2; q++) if (g.chance(0.15)) {   // nothing of this touches the solver
      Op o = mk(g.pick({"getsol", "getdims", "wait", "errmsg"})); o.v["part"] = {1};
      if (o.k == "wait") o.v["ns"] = {(double)(i64)g.logu(3, 9)};
      if (o.k == "errmsg") o.v["code"] = {1.0, 5.0};
      G.add(o);
    }
  }
  c.par["N"] = (double)(N + step * (i64)g.logu(0, 1.8));
  for (int j = 0; j < S_N; j++) c.par[fmt("s%02d", j)] = s[j];
  return one(c);
}
static Viols j23(const Case& c) {
  Viols v;
  Run r = run_plan(c.plan);
  const Plan& p = c.plan;
  i64 N = (i64)c.num("N"), done = 0, upd = 0; int stops = 0; std::vector<i64> at;
  Set s(S_N); for (int j = 0; j < S_N; j++) s[j] = c.num(fmt("s%02d", j), default_set()[j]);
  auto sh = shadows(p, r);
  bool parts = false;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op& o = p.ops[i]; const Rec& x = r.rec[i];
    if (x.tr.alloc_fired) return v;
    if (!o.has("part")) { if (parts || x.tr.ls_fired) return v; continue; }
    if (!parts && (sh[i].empty() || !sh[i][0].live || sh[i][0].lin_bad || sh[i][0].alts.size() != 1)) return v;
    parts = true;
    if (o.k == "uset") { if (!x.exec || x.ret != 0) return v; continue; }
    if (o.k != "solve") continue;
    if (!x.exec || !x.live || x.set[S_LINSYS] != OSQP_DIRECT_SOLVER || x.set[S_AR] > 1 || !x.set[S_WARM]) return v;
    i64 k = iters_done(x), iv = x.set[S_AR] == 1 ? (i64)x.set[S_ARINT] : 0, chk = (i64)x.set[S_CHECK];
    if (k < 0 || (double)chk != s[S_CHECK]) return v;                  // a verdict without a point: nothing is resumed
    if (x.info.status_val == OSQP_SOLVED) return v;     // it was over before (or only its polishing failed)
    if ((chk > 1 && k % chk) || (iv > 0 && k % iv)) return v;          // the schedule of checks and adaptations starts over
    if (iv > 0 && (x.ret != 0 || x.info.status_val == OSQP_TIME_LIMIT_REACHED)) return v;  // the adaptation due there was not made
    done += k; at.push_back(done); upd += x.ret == 0 ? x.info.rho_updates : 0; stops++;
  }
  if (!stops || done >= N || done == 0) return v;
  Plan a = p, b = without(p, [&](size_t i) { return p.ops[i].has("part"); });
  Op u = mk("uset"), so = mk("solve"); Set t = s;
  t[S_MAXITER] = (double)(N - done); u.v["set"] = t; a.ops.push_back(u); a.ops.push_back(so);
  t[S_MAXITER] = (double)N; u.v["set"] = t; b.ops.push_back(u); b.ops.push_back(so);
  Run ra = run_plan(a), rb = run_plan(b);
  Rec x = ra.rec[a.ops.size() - 1]; const Rec& y = rb.rec[b.ops.size() - 1];
  if (ra.rec[a.ops.size() - 2].ret != 0 || rb.rec[b.ops.size() - 2].ret != 0 || !y.exec || !y.live || y.ret != 0) return v;
  if (std::count(at.begin(), at.end(), y.info.iter)) return v;         // it ends exactly at a stop (an interrupt comes before the check)
  if (y.info.iter < done) { v.push_back({"C23", "not-resumed", fmt("the solve that was not stopped ends after %lld iterations (%s); stopped on the way it is still going after %lld", (long long)y.info.iter, y.info.status, (long long)done), (int)p.ops.size() - 1}); return v; }
  stats.events["resumed"]++; stats.events["resumed-after-" + std::to_string(stops)]++;
  i64 ai = x.info.iter + done; x.info.iter = (decltype(x.info.iter))ai; x.info.rho_updates += (decltype(x.info.rho_updates))upd; x.info.primdual_int = y.info.primdual_int; x.set[S_MAXITER] = y.set[S_MAXITER];
  std::string w;
  if (!same_result(x, y, true, w)) v.push_back({"C23", "not-resumed", fmt("stopped %d time(s) after %lld iterations in all and resumed, the solve does not end as the one that was not stopped: ", stops, (long long)done) + w, (int)p.ops.size() - 1});
  return v;
}

// ---- C24: what is printed is what is reported
struct Row { i64 iter; double v[6]; bool star; double time; std::string text; bool polish; };
static bool parse_row(const std::string& l, Row& w) {
  const char* s = l.c_str(); char* e; w.text = l; w.star = false; w.polish = false; w.iter = 0;
  while (*s == ' ') s++;
  if (!strncmp(s, "plsh", 4)) { w.polish = true; s += 4; } else { if (!(*s >= '0' && *s <= '9')) return false; w.iter = strtoll(s, &e, 10); s = e; }
  for (int k = 0; k < (w.polish ? 5 : 6); k++) { if (*s != ' ') return false; w.v[k] = strtod(s, &e); if (e == s) return false; s = e; }
  if (w.polish) { while (*s == ' ') s++; if (*s != '-') return false; while (*s == '-') s++; } else if (*s == '*') { w.star = true; s++; }
  w.time = strtod(s, &e); if (e == s) return false; s = e;
  return *s == 's' && s[1] == 0;
}
static std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> r(1); for (char ch : t) if (ch == '\n') r.emplace_back(); else r.back() += ch; return r; }
// a printed number and the value it stands for
static bool shows(double printed, const char* format, double value) {
  char b[64]; snprintf(b, sizeof b, format, value); double w = strtod(b, nullptr);
  return printed == w || (std::isnan(printed) && std::isnan(w));
}
static std::vector<Case> g24(u64 s) {
  Rng g(s ^ 0x24);
  Case c = history("C24", s, H_INVALID | H_TIME | H_SIG | H_XRHO | H_LS | H_STALL | H_ALLOC, 0, M_ALL, 2, 8, 0.3);
  int mode = (int)g.below(10);                  // settings of the whole history: quiet, printing, or as drawn
  for (auto& o : c.plan.ops) if (o.has("set") && mode < 8) o.v["set"][S_VERBOSE] = o.v["set"][S_VERBOSE] == 0 || o.v["set"][S_VERBOSE] == 1 ? (mode < 2 ? 0 : 1) : o.v["set"][S_VERBOSE];
  return one(c);
}
static Viols j24(const Case& c) {
  Viols v;
  Run r = run_plan(c.plan);
  auto sh = shadows(c.plan, r);
  Rng g((u64)c.num("seed") ^ 0x2424);
  int budget = 2;
  for (size_t i = 0; i < c.plan.ops.size(); i++) {
    const Op& o = c.plan.ops[i]; const Rec& x = r.rec[i];
    if (!x.exec || o.k == "disp" || o.k == "sigint" || o.k == "wait" || o.k == "wall") continue;
    const std::string& out = x.tr.printed;
    auto put = [&](const char* kind, const std::string& m) { if (v.empty()) v.push_back({"C24", kind, m, (int)i}); };
    bool failed = x.ret != 0;
    if (failed) { 
      if (out.empty() && (o.k == "solve" || o.k == "setup")) put("silent-failure", o.k + fmt(" failed with %lld and printed nothing", (long long)x.ret));
      if (!(o.k == "solve" && x.live && !o.has("nosolver") && x.info.status_val == OSQP_SOLVED && x.info.status_polish < 0)) continue;   // polishing failed: the rest is reported as usual
    }
    if (o.has("nosolver") || o.k == "errmsg" || o.k == "newset" || o.k == "newmat" || o.k == "codegen" || o.k == "cleanup") { if (!out.empty() && !o.has("nosolver")) put("not-silent", o.k + " prints: " + out.substr(0, 80)); continue; }
    if (!x.live || sh[i].empty()) continue;
    bool said = out.find("ERROR in ") != std::string::npos;
    if (o.k != "setup" && o.k != "solve") { if (!out.empty() && !said) put("not-silent", o.k + " succeeded and printed: " + out.substr(0, 80)); continue; }
    const Set& s = x.set;
    if (!s[S_VERBOSE]) { stats.events["quiet-calls"]++; if (!out.empty() && !x.tr.alloc_fired && !x.tr.ls_fired && !said) put("not-silent", o.k + " with verbose off printed: " + out.substr(0, 100)); continue; }
    if (out.size() > 390000) continue;
    if (o.k == "setup") {
      stats.events["headers"]++;
      Prob p = prob_of(o);
      auto has = [&](const std::string& t) { if (out.find(t) == std::string::npos) put("header", "the header printed by setup does not say \"" + t + "\""); };
      has(fmt("n = %lld", (long long)p.n)); has(fmt("m = %lld", (long long)p.m)); has(fmt("= %lld\n", (long long)(p.P.nnz() + p.A.nnz())));
      has(fmt("eps_abs = %.1e", s[S_EABS])); has(fmt("eps_rel = %.1e", s[S_EREL])); has(fmt("eps_prim_inf = %.1e", s[S_EPINF])); has(fmt("eps_dual_inf = %.1e", s[S_EDINF]));
      has(fmt("rho = %.2e", s[S_RHO])); has(fmt("sigma = %.2e", s[S_SIGMA])); has(fmt("alpha = %.2f", s[S_ALPHA])); has(fmt("max_iter = %lld\n", (long long)s[S_MAXITER]));
      has(s[S_CHECK] ? fmt("check_termination: on (interval %lld, duality gap: %s)", (long long)s[S_CHECK], s[S_GAP] ? "on" : "off") : std::string("check_termination: off"));
      if (c.plan.cfg.inf == 0) has(fmt("time_limit: %.2e sec", s[S_TLIM]));
      has(s[S_SCALING] ? fmt("scaling: on (%lld iterations)", (long long)s[S_SCALING]) : std::string("scaling: off"));
      has(fmt("scaled_termination: %s", s[S_SCTERM] ? "on" : "off")); has(fmt("warm starting: %s", s[S_WARM] ? "on" : "off")); has(fmt("polishing: %s", s[S_POLISH] ? "on" : "off"));
      has(s[S_AR] == 0 ? std::string("adaptive: disabled") : s[S_AR] == 1 ? fmt("adaptive: %lld iterations", (long long)s[S_ARINT]) : s[S_AR] == 2 ? std::string("adaptive: time") : fmt("adaptive: kkt error, interval %lld", (long long)s[S_ARINT]));
      continue;
    }
    stats.events["logs"]++;
    const OSQPInfo& I = x.info; i64 st = I.status_val;
    std::vector<Row> rows; std::map<std::string, std::string> foot; bool tl = false;
    for (auto& l : lines_of(out)) {
      Row w; size_t k = l.find(':');
      if (parse_row(l, w)) { if (!foot.empty()) put("log", "an iteration is printed after the footer"); rows.push_back(w); }
      else if (l == "run time limit reached") tl = true;
      else if (k != std::string::npos && l.compare(0, 5, "ERROR")) { size_t e = l.find_first_not_of(' ', k + 1); if (foot.count(l.substr(0, k))) put("footer", "the footer says twice: " + l); foot[l.substr(0, k)] = e == std::string::npos ? "" : l.substr(e); }
    }
    bool pol = I.status_polish == OSQP_POLISH_SUCCESS;
    if (rows.empty()) { put("log", "no iteration is printed"); continue; }
    if (tl != (st == OSQP_TIME_LIMIT_REACHED) && !(tl && is_solved(st)) && !(tl && st >= 3 && st <= 6)) put("log", tl ? "the run time limit is said to be reached; the status is another" : "the run time limit was reached and this is not said");
    // footer
    auto line = [&](const char* name, const std::string& want, bool there) {
      auto it = foot.find(name);
      if (!there) { if (it != foot.end()) put("footer", std::string("the footer says \"") + name + ": " + it->second + "\" for status " + I.status); return; }
      if (it == foot.end()) put("footer", std::string("the footer does not give: ") + name);
      else if (it->second != want) put("footer", std::string("the footer says \"") + name + ": " + it->second + "\"; what is reported is " + want);
    };
    bool so = is_solved(st);
    line("status", I.status, true);
    line("number of iterations", fmt("%lld", (long long)I.iter), true);
    line("optimal objective", fmt("%.4f", I.obj_val), so); line("dual objective", fmt("%.4f", I.dual_obj_val), so);
    line("duality gap", fmt("%.4e", I.duality_gap), so); line("primal-dual integral", fmt("%.4e", I.primdual_int), so);
    line("run time", fmt("%.2es", I.run_time), true); line("optimal rho estimate", fmt("%.2e", I.rho_estimate), true);
    bool pl = s[S_POLISH] && st == OSQP_SOLVED;
    line("solution polishing", pol ? "successful" : I.status_polish < 0 ? "unsuccessful" : "not needed", pl);
    // rows
    if (rows.back().polish != pol) put("log", pol ? "the polished point is not printed" : "a polished point is printed that was not taken");
    i64 prev = 0; double pt = 0; std::map<i64, int> at; i64 stars = 0;
    for (size_t k = 0; k < rows.size(); k++) {
      const Row& w = rows[k];
      if (w.polish && k + 1 < rows.size()) put("log", "the polished point is not the last row");
      if (!w.polish) { if (w.iter <= prev || w.iter > I.iter) put("log", fmt("iteration %lld is printed after %lld (%lld were made)", (long long)w.iter, (long long)prev, (long long)I.iter)); prev = w.iter; stars += w.star; at[w.iter] = (int)k; }
      if (w.time < pt || w.time < 0 || w.time > I.run_time * 1.006 + 1e-30) put("log", fmt("the time printed with iteration %lld is %g, after %g (run time %g)", (long long)w.iter, w.time, pt, I.run_time));
      pt = w.time * 0.994;
    }
    if (stars != I.rho_updates) put("log", fmt("%lld rows are marked as rho updates; %lld updates are reported", (long long)stars, (long long)I.rho_updates));
    if (!at.count(1)) put("log", "the first iteration is not printed");
    if (!at.count(I.iter)) put("log", fmt("the last iteration, %lld, is not printed", (long long)I.iter));
    for (i64 k = OSQP_PRINT_INTERVAL; k <= I.iter; k += OSQP_PRINT_INTERVAL) if (!at.count(k)) put("log", fmt("iteration %lld is not printed (every %d are)", (long long)k, OSQP_PRINT_INTERVAL));
    auto match = [&](const Row& w, const OSQPInfo& J, double rho, const char* of, bool obj = true) {
      const char* nm[6] = {"objective", "prim res", "dual res", "gap", "rel kkt", "rho"};
      double val[6] = {J.obj_val, J.prim_res, J.dual_res, J.duality_gap, J.rel_kkt_error, rho};
      for (int k = obj ? 0 : 1; k < (w.polish ? 5 : 6); k++) if (!shows(w.v[k], k ? "%9.2e" : "%12.4e", val[k])) put("row", fmt("row \"%s\" of the log: the %s %s is %.9g", w.text.c_str(), nm[k], of, val[k]));
    };
    bool point = so || st == OSQP_MAX_ITER_REACHED || st == OSQP_TIME_LIMIT_REACHED;
    if (point && (pol || !rows.back().polish)) match(rows.back(), I, s[S_RHO], "reported");
    // earlier rows: the same solve, stopped there
    if (v.empty() && budget && twinnable(o, x) && rows.size() > 1) {
      const Row& w = rows[g.below(rows.size())];
      Rec t;
      if (!w.polish && w.iter <= 3000 && twin(c.plan, r, i, w.iter, true, t, false, true) && t.ret == 0 && t.info.iter == w.iter && (is_solved(t.info.status_val) || t.info.status_val == OSQP_MAX_ITER_REACHED)) {
        budget--; stats.events["rows-compared"]++;
        bool last = w.iter == I.iter;            // the check that ends a solve comes before the adaptation
        match(w, t.info, last ? w.v[5] : t.set[S_RHO], "of that iteration", point || !last);   // a verdict without a point replaces the objective
      }
    }
  }
  return v;
}

const std::vector<Profile> profiles = {
  {"C01", g01, j01}, {"C02", g02, j02}, {"C03", g03, j03}, {"C04", g04, j04}, {"C05", g05, j05}, {"C06", g06, j06}, {"C07", g07, j07}, {"C08", g08, j08},
  {"C09", g09, j09}, {"C10", g10, j10}, {"C11", g11, j11}, {"C12", g12, j12}, {"C13", g13, j13}, {"C14", g14, j14}, {"C15", g15, j15}, {"C16", g16, j16}, {"C17", g17, j17},
  {"C18", g18, j18}, {"C19", g19, j19}, {"C20", g20, j20}, {"C21", g21, j21}, {"C23", g23, j23}, {"C24", g24, j24},
};
const Profile* find_profile(const std::string& id) { for (auto& p : profiles) if (id == p.id) return &p; return nullptr; }
