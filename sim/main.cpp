// Command line of the simulator: seeded search, replay, minimisation, determinism self-check.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string cur_prop, cur_case;
static int cur_fd = -1;
static void note_current(const Plan& p) {
  if (cur_fd < 0) return;
  Case c; c.prop = cur_prop; c.sub = "crash"; c.plan = p;
  std::string t = case_text(c);
  t += "# end\n";
  if (pwrite(cur_fd, t.data(), t.size(), 0) < 0) {}
  if (ftruncate(cur_fd, (off_t)t.size()) < 0) {}
}
static Viols judge(const Case& c) {
  if (c.sub == "crash") {                  // a plan that crashed or hung: running it is the whole test
    Run r = run_plan(c.plan);
    return {};
  }
  return find_profile(c.prop)->judge(c);
}
static bool has_kind(const Viols& v, const std::string& prop, const std::string& kind) { for (auto& x : v) if (x.prop == prop && x.kind == kind) return true; return false; }

// ------------------------------------------------------------------ minimisation ---------------
static bool fails_in_child(const Case& c, const std::string& kind) {
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    alarm(30);
    Viols v = judge(c);
    _exit(kind != "crash" && has_kind(v, c.prop, kind) ? 42 : 0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (kind == "crash") return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 42;
}
static Case minimise(Case c, const std::string& kind, double budget) {
  double t0 = wall();
  auto left = [&] { return wall() - t0 < budget; };
  auto attempt = [&](const Case& d) { if (!left()) return false; if (fails_in_child(d, kind)) { c = d; return true; } return false; };
  bool again = true;
  while (again && left()) {
    again = false;
    // threads and schedule
    if (c.plan.sched.size() > 0) {
      for (size_t w = c.plan.sched.size(); w >= 1 && left(); w /= 2)
        for (size_t i = 0; i + w <= c.plan.sched.size() && left();) {
          Case d = c; d.plan.sched.erase(d.plan.sched.begin() + i, d.plan.sched.begin() + i + w);
          if (attempt(d)) again = true; else i += w;
        }
    }
    // operations, from the end, in shrinking chunks
    for (size_t w = std::max<size_t>(1, c.plan.ops.size() / 2); w >= 1 && left(); w /= 2)
      for (i64 i = (i64)c.plan.ops.size() - (i64)w; i >= 0 && left();) {
        Case d = c; d.plan.ops.erase(d.plan.ops.begin() + i, d.plan.ops.begin() + i + w);
        if (!d.plan.ops.empty() && attempt(d)) again = true;
        i -= (i64)w;
        if (i + (i64)w > (i64)c.plan.ops.size()) i = (i64)c.plan.ops.size() - (i64)w;
      }
    // faults
    for (size_t i = 0; i < c.plan.ops.size() && left(); i++) {
      const rt::Faults f = c.plan.ops[i].f;
      if (!f.any()) continue;
      auto tryf = [&](rt::Faults g) { Case d = c; d.plan.ops[i].f = g; if (attempt(d)) again = true; };
      tryf(rt::Faults());
      if (!c.plan.ops[i].f.any()) continue;
      { rt::Faults g = c.plan.ops[i].f; if (g.alloc_at >= 0) { g.alloc_at = -1; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.alloc_persist) { g.alloc_persist = false; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.sig_edge >= 0) { g.sig_edge = -1; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.sig_ls >= 0) { g.sig_ls = -1; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.sig_rep > 0) { g.sig_rep = 0; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.sig_rep > 1) { g.sig_rep--; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.ls_at >= 0) { g.ls_at = -1; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (g.ls_persist) { g.ls_persist = false; tryf(g); } }
      { rt::Faults g = c.plan.ops[i].f; if (!g.stalls.empty()) { g.stalls.clear(); tryf(g); } }
    }
    // settings back to their defaults
    if (left()) {
      Set def = default_set();
      for (size_t i = 0; i < c.plan.ops.size(); i++) if (c.plan.ops[i].has("set") && c.plan.ops[i].arr("set").size() == def.size())
        for (int k = 0; k < S_N && left(); k++) if (c.plan.ops[i].arr("set")[k] != def[k]) { Case d = c; d.plan.ops[i].v["set"][k] = def[k]; if (attempt(d)) again = true; }
    }
    // optional arguments
    for (size_t i = 0; i < c.plan.ops.size() && left(); i++) if (c.plan.ops[i].k == "uvec" || c.plan.ops[i].k == "wstart")
      for (const char* k : {"q", "l", "u", "x", "y"}) if (c.plan.ops[i].has(k) && left()) { Case d = c; d.plan.ops[i].v.erase(k); if (attempt(d)) again = true; }
    // environment
    if (left()) { Case d = c; d.plan.cfg = rt::Cfg(); if (case_text(d) != case_text(c)) attempt(d); }
  }
  return c;
}

static std::string jesc(const std::string& s) {
  std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o;
}
static std::string json_stats(double secs, u64 cases, bool full) {
  std::ostringstream o;
  auto mp = [&](const std::map<std::string, u64>& m) { std::string s = "{"; bool f = true; for (auto& x : m) { if (!f) s += ","; f = false; s += "\"" + jesc(x.first) + "\":" + std::to_string(x.second); } return s + "}"; };
  std::set<u64> cov(stats.covs.begin(), stats.covs.end()), ilv(stats.ilvs.begin(), stats.ilvs.end());
  o << "{\"cases\":" << cases << ",\"runs\":" << stats.runs << ",\"sim_seconds\":" << stats.simns * 1e-9 << ",\"wall\":" << secs << ",\"ops\":" << stats.ops << ",\"solves\":" << stats.solves
    << ",\"iterations\":" << stats.iters << ",\"switches\":" << stats.switches << ",\"edges_seen\":" << rt::edges_seen() << ",\"edges_total\":" << rt::edges_total()
    << ",\"faults\":" << mp(stats.faults) << ",\"status\":" << mp(stats.status) << ",\"events\":" << mp(stats.events);
  auto lst = [&](const std::set<u64>& s) { std::string r = "["; bool f = true; size_t k = 0; for (u64 v : s) { if (k++ > 60000) break; if (!f) r += ","; f = false; char b[20]; snprintf(b, sizeof b, "\"%llx\"", (unsigned long long)(v & 0xffffffffffull)); r += b; } return r + "]"; };
  o << ",\"ncov\":" << cov.size() << ",\"nilv\":" << ilv.size();
  if (full) o << ",\"cov\":" << lst(cov) << ",\"ilv\":" << lst(ilv);
  o << "}";
  return o.str();
}

static int usage() { fprintf(stderr, "osqpsim work PROP SEED0 STEP COUNT SECONDS OUTDIR CURFILE MAXVIOL | replay FILE | minimise FILE KIND OUT SECONDS | show PROP SEED | hash PROP SEED0 N\n"); return 2; }

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  rt::global_init();
  if (argc < 3) return usage();
  std::string cmd = argv[1];
  auto load = [&](const char* f, Case& c) {
    std::ifstream in(f); std::stringstream ss; ss << in.rdbuf();
    std::string e;
    if (!in || !case_parse(ss.str(), c, e)) { fprintf(stderr, "cannot read case %s: %s\n", f, e.c_str()); exit(2); }
  };
  if (cmd == "work" && argc >= 10) {
    cur_prop = argv[2];
    const Profile* p = find_profile(cur_prop);
    if (!p) return usage();
    u64 seed = strtoull(argv[3], nullptr, 10), stepn = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
    double secs = atof(argv[6]);
    std::string outdir = argv[7];
    int maxv = atoi(argv[9]);
    cur_fd = open(argv[8], O_RDWR | O_CREAT | O_TRUNC, 0644);
    before_run = note_current;
    double t0 = wall();
    u64 ncase = 0, k = 0; int nv = 0;
    std::set<std::string> kinds;
    for (; k < count && wall() - t0 < secs && nv < maxv; k++) {
      u64 s = seed + k * stepn;
      std::vector<Case> cs = p->gen(s);
      for (auto& c : cs) {
        if (wall() - t0 >= secs) break;
        ncase++;
        Viols v = judge(c);
        if (v.empty()) continue;
        Viols again = judge(c);
        if (again.size() != v.size() || again[0].kind != v[0].kind || again[0].msg != v[0].msg) { printf("N {\"seed\":%llu,\"msg\":\"%s\"}\n", (unsigned long long)s, jesc(v[0].msg).c_str()); continue; }
        std::string key = v[0].kind;
        if (kinds.count(key)) { nv++; continue; }
        kinds.insert(key); nv++;
        std::string f = outdir + "/" + cur_prop + "-" + v[0].kind + "-" + std::to_string(s) + ".case";
        std::ofstream(f) << case_text(c);
        printf("V {\"seed\":%llu,\"kind\":\"%s\",\"msg\":\"%s\",\"op\":%d,\"file\":\"%s\"}\n", (unsigned long long)s, jesc(v[0].kind).c_str(), jesc(v[0].msg).c_str(), v[0].op, f.c_str());
      }
      if (k % 64 == 0) { printf("P %llu\n", (unsigned long long)s); }
    }
    printf("S {\"seeds\":%llu,\"stats\":%s}\n", (unsigned long long)k, json_stats(wall() - t0, ncase, true).c_str());
    return 0;
  }
  if (cmd == "plans" && argc >= 4) {       // every plan that the judge of a case runs, as traceable files
    static std::string pre; static int no; pre = argv[3]; no = 0;
    Case c; load(argv[2], c);
    before_run = [](const Plan& p) { Case k; k.prop = "C01"; k.plan = p; std::ofstream(pre + std::to_string(no++) + ".case") << case_text(k); };
    judge(c);
    printf("%d plans\n", no);
    return 0;
  }
  if (cmd == "replay") {
    Case c; load(argv[2], c);
    Viols v = judge(c);
    for (auto& x : v) printf("VIOL %s %s op=%d: %s\n", x.prop.c_str(), x.kind.c_str(), x.op, x.msg.c_str());
    return v.empty() ? 0 : 1;
  }
  if (cmd == "trace") {
    Case c; load(argv[2], c);
    Run r = run_plan(c.plan);
    for (size_t i = 0; i < r.rec.size(); i++) {
      const Rec& x = r.rec[i]; const Op& o = i < c.plan.ops.size() ? c.plan.ops[i] : r.tail[i - c.plan.ops.size()];
      printf("%2zu th%d s%d %-8s exec=%d ret=%lld edges=%lld allocs=%lld ls=%lld main=%lld sig(o%d u%d d%d) fired(a%d l%d)", i, o.th, o.slot, o.k.c_str(), x.exec, (long long)x.ret, (long long)x.tr.edges, (long long)x.tr.allocs, (long long)x.tr.lscalls, (long long)x.tr.main_solves, x.tr.sig_to_other, x.tr.sig_to_user, x.tr.sig_default, x.tr.alloc_fired, x.tr.ls_fired);
      if (x.live) printf(" | %s it=%lld obj=%.9g pr=%.3g dr=%.3g gap=%.3g pol=%lld rho=%.4g upd=%lld", x.info.status, (long long)x.info.iter, x.info.obj_val, x.info.prim_res, x.info.dual_res, x.info.duality_gap, (long long)x.info.status_polish, x.set[S_RHO], (long long)x.info.rho_updates);
      printf("\n");
      if (getenv("SIM_X") && x.live) { printf("     x="); for (double d : x.sol.x) printf(" %.17g", d); printf(" y="); for (double d : x.sol.y) printf(" %.17g", d); printf("\n     pc="); for (double d : x.sol.pc) printf(" %.17g", d); printf(" dc="); for (double d : x.sol.dc) printf(" %.17g", d); printf("\n"); }
      if (getenv("SIM_P")) printf("%s", x.tr.printed.c_str());
    }
    if (!r.leaks.empty()) printf("leaks: %s\n", r.leaks.c_str());
    for (auto& x : judge_run(c, r)) printf("VIOL %s %s op=%d: %s\n", x.prop.c_str(), x.kind.c_str(), x.op, x.msg.c_str());
    return 0;
  }
  if (cmd == "minimise" && argc >= 6) {
    Case c; load(argv[2], c);
    std::string kind = argv[3];
    if (!fails_in_child(c, kind)) { printf("M not-reproduced\n"); return 3; }
    Case m = minimise(c, kind, atof(argv[5]));
    std::ofstream(argv[4]) << case_text(m);
    printf("M ok\n");
    return 0;
  }
  if (cmd == "show" && argc >= 4) {
    auto cs = find_profile(argv[2])->gen(strtoull(argv[3], nullptr, 10));
    int k = argc > 4 ? atoi(argv[4]) : 0;
    printf("# %zu cases\n%s", cs.size(), case_text(cs[k]).c_str());
    return 0;
  }
  if (cmd == "hash" && argc >= 5) {        // event-log hash of many seeds: used to prove determinism across processes
    const Profile* p = find_profile(argv[2]);
    if (!p) return usage();
    u64 s0 = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
    Hash h;
    for (u64 s = s0; s < s0 + n; s++) {
      auto cs = p->gen(s);
      for (size_t i = 0; i < cs.size() && i < 3; i++) {
        Run r = run_plan(cs[i].plan);
        h.add(r.ehash); h.add(r.cov); h.add(r.ilv); h.add((u64)r.simns);
        for (auto& x : r.rec) if (x.live) { h.add((u64)x.info.status_val); h.add((u64)x.info.iter); for (double d : x.sol.x) h.dbl(d); for (double d : x.sol.y) h.dbl(d); h.dbl(x.info.run_time); h.dbl(x.info.prim_res); }
      }
      if (argc > 5) printf("%llu %016llx\n", (unsigned long long)s, (unsigned long long)h.h);
    }
    printf("H %016llx\n", (unsigned long long)h.h);
    return 0;
  }
  return usage();
}
