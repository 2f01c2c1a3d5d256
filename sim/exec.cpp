// Executes a plan against the real library.
#include "sim.h"
#include <cmath>
#include <cstring>

namespace {
struct Arg { void* p; size_t n; u64 sum; std::string name; bool out; };
struct Slot { OSQPSolver* s = nullptr; bool live = false, failed = false; i64 n = 0, m = 0; };
struct Ctx {
  const Plan* plan; const RunOpts* opt; Run* run;
  std::map<int, Slot> slots;
};
u64 sum_of(const void* p, size_t n) { Hash h; h.bytes(p, n); return h.h; }

struct Args {
  std::vector<Arg> a;
  void* raw(const std::string& name, const void* src, size_t n, bool out = false) {
    void* p = rt::user_alloc(n);
    if (src && n) memcpy(p, src, n); else if (n) memset(p, 0x3C, n);
    a.push_back({p, n, 0, name, out});
    return p;
  }
  double* d(const std::string& name, const V& v) { return (double*)raw(name, v.data(), v.size() * 8); }
  OSQPInt* i(const std::string& name, const V& v) {
    std::vector<OSQPInt> t(v.begin(), v.end());
    return (OSQPInt*)raw(name, t.data(), t.size() * sizeof(OSQPInt));
  }
  void seal() { for (auto& x : a) if (!x.out) x.sum = sum_of(x.p, x.n); }
  std::string check() {
    std::string bad;
    for (auto& x : a) if (!x.out && sum_of(x.p, x.n) != x.sum) bad += x.name + " ";
    return bad;
  }
  void release(const RunOpts& o) {
    for (auto& x : a) {
      if (o.scribble) memset(x.p, 0xEE, x.n);
      if (o.free_args) rt::user_free(x.p);
    }
    a.clear();
  }
};

V vec(const OSQPFloat* p, i64 n) { return p ? V(p, p + n) : V(); }

// how this caller writes infinity
V bounds(const V& v, int inf) { V r = v; if (inf) for (size_t i = 0; i < r.size(); i++) if (std::fabs(r[i]) == OSQP_INFTY && (inf == 1 || i % 2)) r[i] = r[i] < 0 ? -INFINITY : INFINITY; return r; }
void limits(OSQPSettings& s, int inf) { if (inf && s.time_limit == 1e10) s.time_limit = INFINITY; }

void snapshot(Rec& r, Slot& sl) {
  r.live = sl.live;
  if (!sl.live) return;
  OSQPSolver* s = sl.s;
  r.info = *s->info;
  r.set = set_from_osqp(s->settings);
  if (std::isinf(r.set[S_TLIM])) r.set[S_TLIM] = 1e10;
  r.sol = Sol();
  if (s->solution) {
    r.sol.has = true;
    r.sol.x = vec(s->solution->x, sl.n); r.sol.y = vec(s->solution->y, sl.m);
    r.sol.pc = vec(s->solution->prim_inf_cert, sl.m); r.sol.dc = vec(s->solution->dual_inf_cert, sl.n);
  }
}

void exec_op(Ctx& c, const Op& op, Rec& r) {
  Slot& sl = c.slots[op.slot];
  const std::string& k = op.k;
  if (k == "disp") { rt::set_disposition((int)op.num("d")); r.exec = true; return; }
  if (k == "sigint") { rt::deliver_sigint_now(); r.exec = true; return; }
  if (k == "wait") { rt::advance((i64)op.num("ns")); r.exec = true; return; }
  if (k == "wall") { rt::wall_jump((i64)op.num("ns")); r.exec = true; return; }
  bool nosolver = op.has("nosolver");
  int inf = c.plan->cfg.inf;
  if (k == "setup") { if (sl.s) return; }
  else if (k == "cleanup") { if (!sl.s) return; }
  else if (k == "newset" || k == "newmat" || k == "errmsg") {}
  else if (!nosolver && !sl.live) return;
  r.exec = true;
  std::string mem0; rt::memory_errors(mem0);
  r.l0 = rt::ledger();
  int u0 = rt::user_handler_calls();
  Args A;
  OSQPSolver* s = nosolver ? nullptr : sl.s;
  auto begin = [&](int is_setup) { A.seal(); rt::call_begin(op.slot, is_setup, op.f); };
  auto end = [&]() {
    r.tr = rt::call_end();
    r.args_msg = A.check(); r.args_ok = r.args_msg.empty();
  };
  if (k == "setup") {
    Prob p = prob_of(op);
    OSQPCscMatrix mp, ma; memset(&mp, 0, sizeof mp); memset(&ma, 0, sizeof ma);
    mp.m = op.has("Pm") ? (OSQPInt)op.num("Pm") : p.P.m; mp.n = op.has("Pn") ? (OSQPInt)op.num("Pn") : p.P.n;
    mp.nz = -1; mp.nzmax = p.P.nnz();
    mp.p = A.i("P->p", op.arr("Pp")); mp.i = A.i("P->i", op.arr("Pi")); mp.x = A.d("P->x", p.P.x);
    ma.m = op.has("Am") ? (OSQPInt)op.num("Am") : p.A.m; ma.n = op.has("An") ? (OSQPInt)op.num("An") : p.A.n;
    ma.nz = -1; ma.nzmax = p.A.nnz();
    ma.p = A.i("A->p", op.arr("Ap")); ma.i = A.i("A->i", op.arr("Ai")); ma.x = A.d("A->x", p.A.x);
    OSQPCscMatrix* P = (OSQPCscMatrix*)A.raw("P", &mp, sizeof mp);
    OSQPCscMatrix* AA = (OSQPCscMatrix*)A.raw("A", &ma, sizeof ma);
    double* q = A.d("q", p.q); double* l = A.d("l", bounds(p.l, inf)); double* u = A.d("u", bounds(p.u, inf));
    OSQPSettings st; set_to_osqp(op.arr("set"), &st); limits(st, inf);
    OSQPSettings* sp = (OSQPSettings*)A.raw("settings", &st, sizeof st);
    if (op.has("nullP")) P = nullptr;
    if (op.has("nullA")) AA = nullptr;
    if (op.has("nullq")) q = nullptr;
    if (op.has("nulll")) l = nullptr;
    if (op.has("nullu")) u = nullptr;
    if (op.has("nullset")) sp = nullptr;
    OSQPInt m = op.has("mm") ? (OSQPInt)op.num("mm") : p.m, n = op.has("nn") ? (OSQPInt)op.num("nn") : p.n;
    OSQPSolver* out = nullptr;
    begin(1);
    r.ret = osqp_setup(&out, P, q, AA, l, u, m, n, sp);
    end();
    sl.s = out; sl.live = r.ret == 0 && out; sl.n = p.n; sl.m = p.m;
    sl.failed = out && !sl.live;
  } else if (k == "solve") {
    begin(0); r.ret = osqp_solve(s); end();
  } else if (k == "uvec") {
    double* q = op.has("q") ? A.d("q", op.arr("q")) : nullptr;
    double* l = op.has("l") ? A.d("l", bounds(op.arr("l"), inf)) : nullptr;
    double* u = op.has("u") ? A.d("u", bounds(op.arr("u"), inf)) : nullptr;
    begin(0); r.ret = osqp_update_data_vec(s, q, l, u); end();
  } else if (k == "umat") {
    double* px = op.has("Px") ? A.d("Px", op.arr("Px")) : nullptr;
    double* ax = op.has("Ax") ? A.d("Ax", op.arr("Ax")) : nullptr;
    OSQPInt* pi = op.has("Pidx") ? A.i("Px_idx", op.arr("Pidx")) : nullptr;
    OSQPInt* ai = op.has("Aidx") ? A.i("Ax_idx", op.arr("Aidx")) : nullptr;
    begin(0); r.ret = osqp_update_data_mat(s, px, pi, (OSQPInt)op.num("Pn"), ax, ai, (OSQPInt)op.num("An")); end();
  } else if (k == "urho") {
    begin(0); r.ret = osqp_update_rho(s, op.num("rho")); end();
  } else if (k == "uset") {
    OSQPSettings* sp = nullptr;
    if (op.has("set")) { OSQPSettings st; set_to_osqp(op.arr("set"), &st); limits(st, inf); sp = (OSQPSettings*)A.raw("settings", &st, sizeof st); }
    begin(0); r.ret = osqp_update_settings(s, sp); end();
  } else if (k == "wstart") {
    double* x = op.has("x") ? A.d("x", op.arr("x")) : nullptr;
    double* y = op.has("y") ? A.d("y", op.arr("y")) : nullptr;
    begin(0); r.ret = osqp_warm_start(s, x, y); end();
  } else if (k == "cstart") {
    begin(0); osqp_cold_start(s); end();
  } else if (k == "getsol") {
    OSQPSolution so; memset(&so, 0, sizeof so);
    i64 n = sl.n, m = sl.m;
    so.x = (double*)A.raw("sol->x", nullptr, n * 8, true); so.y = (double*)A.raw("sol->y", nullptr, m * 8, true);
    so.prim_inf_cert = (double*)A.raw("sol->prim_inf_cert", nullptr, m * 8, true);
    so.dual_inf_cert = (double*)A.raw("sol->dual_inf_cert", nullptr, n * 8, true);
    OSQPSolution* sp = (OSQPSolution*)A.raw("solution", &so, sizeof so);
    if (op.has("nullsol")) sp = nullptr;
    begin(0); r.ret = osqp_get_solution(s, sp); end();
    if (r.ret == 0 && sp) { r.out.has = true; r.out.x = vec(so.x, n); r.out.y = vec(so.y, m); r.out.pc = vec(so.prim_inf_cert, m); r.out.dc = vec(so.dual_inf_cert, n); }
  } else if (k == "getdims") {
    OSQPInt* m = (OSQPInt*)A.raw("m", nullptr, 8, true); OSQPInt* n = (OSQPInt*)A.raw("n", nullptr, 8, true);
    begin(0); osqp_get_dimensions(s, m, n); end();
    r.dm = *m; r.dn = *n;
  } else if (k == "cleanup") {
    begin(0); r.ret = osqp_cleanup(s); end();
    sl = Slot();
  } else if (k == "codegen") {
    auto str = [&](const char* key) { std::string t; for (double d : op.arr(key)) t += (char)(int)d; return t; };
    std::string dir = str("dir"), pre = str("prefix");
    char* d = (char*)A.raw("output_dir", dir.c_str(), dir.size() + 1);
    char* f = (char*)A.raw("file_prefix", pre.c_str(), pre.size() + 1);
    OSQPCodegenDefines df; memset(&df, 0, sizeof df);
    const V& dv = op.arr("def");
    auto at = [&](size_t i) { return (OSQPInt)(i < dv.size() ? dv[i] : 0); };
    df.embedded_mode = at(0); df.float_type = at(1); df.printing_enable = at(2); df.profiling_enable = at(3); df.interrupt_enable = at(4); df.derivatives_enable = at(5);
    OSQPCodegenDefines* dp = op.has("nulldef") ? nullptr : (OSQPCodegenDefines*)A.raw("defines", &df, sizeof df);
    rt::files().clear();
    begin(0); r.ret = osqp_codegen(s, d, f, dp); end();
    for (auto& x : rt::files()) r.files[x.first] = x.second.data;
    r.open_files = rt::open_files();
  } else if (k == "adjc") {
    double* dx = A.d("dx", op.arr("dx")); double* dy = A.d("dy", op.arr("dy"));
    begin(0); r.ret = osqp_adjoint_derivative_compute(s, dx, dy); end();
  } else if (k == "adjv") {
    i64 n = sl.n, m = sl.m;
    double* dq = (double*)A.raw("dq", nullptr, n * 8, true); double* dl = (double*)A.raw("dl", nullptr, m * 8, true); double* du = (double*)A.raw("du", nullptr, m * 8, true);
    begin(0); r.ret = osqp_adjoint_derivative_get_vec(s, dq, dl, du); end();
    if (r.ret == 0) { r.misc = vec(dq, n); V a = vec(dl, m), b = vec(du, m); r.misc.insert(r.misc.end(), a.begin(), a.end()); r.misc.insert(r.misc.end(), b.begin(), b.end()); }
  } else if (k == "adjm") {              // into matrices of the caller's, whose patterns say what is wanted
    OSQPCscMatrix mp, ma; memset(&mp, 0, sizeof mp); memset(&ma, 0, sizeof ma);
    size_t np = op.arr("Pi").size(), na = op.arr("Ai").size();
    mp.m = mp.n = ma.n = sl.n; ma.m = sl.m; mp.nz = ma.nz = -1; mp.nzmax = (OSQPInt)np; ma.nzmax = (OSQPInt)na;
    mp.p = A.i("dP->p", op.arr("Pp")); mp.i = A.i("dP->i", op.arr("Pi")); mp.x = (double*)A.raw("dP->x", nullptr, np * 8, true);
    ma.p = A.i("dA->p", op.arr("Ap")); ma.i = A.i("dA->i", op.arr("Ai")); ma.x = (double*)A.raw("dA->x", nullptr, na * 8, true);
    OSQPCscMatrix* P = (OSQPCscMatrix*)A.raw("dP", &mp, sizeof mp); OSQPCscMatrix* AA = (OSQPCscMatrix*)A.raw("dA", &ma, sizeof ma);
    begin(0); r.ret = osqp_adjoint_derivative_get_mat(s, P, AA); end();
    if (r.ret == 0) { r.misc = vec(mp.x, (i64)np); V a = vec(ma.x, (i64)na); r.misc.insert(r.misc.end(), a.begin(), a.end()); }
  } else if (k == "newset") {            // settings / codegen-defines helpers
    begin(0);
    OSQPSettings* a = OSQPSettings_new();
    OSQPCodegenDefines* d = OSQPCodegenDefines_new();
    if (a) { r.misc = set_from_osqp(a); OSQPSettings_free(a); }
    OSQPCodegenDefines_free(d);
    r.ret = (a && d) ? 0 : 5;
    end();
  } else if (k == "errmsg") {            // what a return code means, who we are
    const V& cs = op.arr("code");
    begin(0);
    for (double d : cs) { const char* t = osqp_error_message((OSQPInt)d); i64 h = 0, l = 0; if (t) for (; t[l] && l < 500; l++) h = h * 131 + t[l]; r.misc.push_back(t ? (double)l : -1.0); r.misc.push_back((double)(h & 0xffffffff)); }
    { const char* t = osqp_version(); r.misc.push_back(t && *t ? 1 : 0); r.misc.push_back((double)osqp_capabilities()); }
    r.ret = 0;
    end();
  } else if (k == "newmat") {            // matrix helpers
    OSQPInt m = (OSQPInt)op.num("m"), n = (OSQPInt)op.num("n");
    double* x = A.d("vec", op.arr("x"));
    int which = (int)op.num("which");
    begin(0);
    OSQPCscMatrix* M = which == 0 ? OSQPCscMatrix_identity(n) : which == 1 ? OSQPCscMatrix_diag_scalar(m, n, 2.5)
                     : which == 2 ? OSQPCscMatrix_diag_vec(m, n, x) : which == 3 ? OSQPCscMatrix_zeros(m, n)
                     : OSQPCscMatrix_new(m, n, 0, nullptr, nullptr, nullptr);
    if (M) {
      r.misc = {(double)M->m, (double)M->n, (double)M->nzmax};
      if (which < 4) { for (OSQPInt j = 0; j <= M->n; j++) r.misc.push_back((double)M->p[j]); for (OSQPInt j = 0; j < M->nzmax; j++) { r.misc.push_back((double)M->i[j]); r.misc.push_back(M->x[j]); } }
      OSQPCscMatrix_free(M);
    }
    r.ret = M ? 0 : 5;
    end();
  } else { fprintf(stderr, "unknown op %s\n", k.c_str()); exit(3); }
  A.release(*c.opt);
  rt::heap_check();
  r.l1 = rt::ledger();
  r.disp_ok = rt::disposition_intact();
  r.user_sig = rt::user_handler_calls() - u0;
  std::string mem1; rt::memory_errors(mem1);
  if (mem1.size() > mem0.size()) r.mem = mem1.substr(mem0.size());
  snapshot(r, sl);
}

Ctx* g_ctx;
void thread_body(int tid, void*) {
  for (size_t i = 0; i < g_ctx->plan->ops.size(); i++) {
    const Op& op = g_ctx->plan->ops[i];
    if (op.th != tid || op.k == "disp") continue;
    exec_op(*g_ctx, op, g_ctx->run->rec[i]);
    rt::op_boundary();
  }
}
}  // namespace

void (*before_run)(const Plan& p) = nullptr;
Run run_plan(const Plan& p, const RunOpts& o) {
  if (before_run) before_run(p);
  Run run;
  run.rec.resize(p.ops.size());
  Ctx c; c.plan = &p; c.opt = &o; c.run = &run;
  for (auto& op : p.ops) c.slots[op.slot];
  rt::run_begin(p.cfg);
  if (p.nth <= 1) {
    for (size_t i = 0; i < p.ops.size(); i++) exec_op(c, p.ops[i], run.rec[i]);
  } else {
    g_ctx = &c;
    // changing the disposition while a solve runs would be the application's own race: do it up front
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].k == "disp") exec_op(c, p.ops[i], run.rec[i]);
    rt::run_threads(p.nth, thread_body, nullptr, p.sched);
  }
  for (auto& s : c.slots) if (s.second.s) {
    Op op = mk("cleanup", s.first);
    Rec r;
    exec_op(c, op, r);
    run.tail.push_back(op); run.rec.push_back(r);
  }
  rt::heap_check();
  rt::memory_errors(run.mem);
  run.final_disp_ok = rt::disposition_intact();
  run.end = rt::ledger();
  run.open_files = rt::open_files();
  if (run.end.live_blocks || run.end.live_handles || run.end.live_factors) run.leaks = rt::describe_leaks(6);
  run.ehash = rt::event_hash(); run.cov = rt::coverage_signature(); run.ilv = rt::interleaving_hash();
  run.simns = rt::now() - p.cfg.mono_base; run.switches = rt::switches_done();
  rt::run_end();
  count_stats(p, run);
  return run;
}
