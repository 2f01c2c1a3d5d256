// Plans (what a simulated run does), records (what it did), the reference model and the judges.
#pragma once
#include "rt.h"
#include <cstdarg>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include "osqp.h"

typedef std::vector<double> V;
typedef std::vector<i64> VI;
typedef long double ld;

// ------------------------------------------------------------------ problems -------------------
struct Csc {
  i64 m = 0, n = 0;
  VI p, i;
  V x;
  i64 nnz() const { return (i64)x.size(); }
  bool operator==(const Csc& o) const { return m == o.m && n == o.n && p == o.p && i == o.i && x == o.x; }
};
struct Prob {
  i64 n = 0, m = 0;
  Csc P, A;       // P: upper triangle
  V q, l, u;
  bool operator==(const Prob& o) const { return n == o.n && m == o.m && P == o.P && A == o.A && q == o.q && l == o.l && u == o.u; }
};
enum Cls { C_STRONG, C_PSD, C_LP, C_LPZ, C_DIAG, C_EQ, C_PINF, C_DINF, C_M0, C_AEMPTY, C_BADSCALE, C_NONCVX, C_NCLS };
extern const char* cls_name[];
struct GenProb {
  Prob pr;
  int cls = 0;
  bool feasible = true, bounded = true;   // a bounded optimum is known to exist
  double interior = 0;                    // slack of x0 in every row (0: none known)
  V x0;                                   // interior or optimal point
  double dmin = 0;                        // P >= dmin I
  bool well = false;                      // well conditioned and feasible: must converge
};

// settings, in a fixed order so that they can be written to a plan
enum SetKey { S_LINSYS, S_ALLOCSOL, S_VERBOSE, S_PROFILER, S_WARM, S_SCALING, S_POLISH, S_RHO, S_RHOVEC, S_SIGMA, S_ALPHA,
  S_CGMAX, S_CGRED, S_CGFRAC, S_CGPREC, S_AR, S_ARINT, S_ARFRAC, S_ARTOL, S_MAXITER, S_EABS, S_EREL, S_EPINF, S_EDINF,
  S_SCTERM, S_CHECK, S_GAP, S_TLIM, S_DELTA, S_REFINE, S_DEVICE, S_N };
typedef V Set;
Set default_set();
void set_to_osqp(const Set& s, OSQPSettings* o);
Set set_from_osqp(const OSQPSettings* o);
bool set_valid(const Set& s, bool from_setup);
void set_update(Set& cur, const Set& nw);   // what osqp_update_settings may change

// ------------------------------------------------------------------ plans ----------------------
struct Op {
  std::string k;
  int th = 0, slot = 0;
  std::map<std::string, V> v;
  rt::Faults f;
  bool has(const std::string& s) const { return v.count(s) > 0; }
  double num(const std::string& s, double d = 0) const { auto it = v.find(s); return it == v.end() || it->second.empty() ? d : it->second[0]; }
  const V& arr(const std::string& s) const { static V e; auto it = v.find(s); return it == v.end() ? e : it->second; }
};
struct Plan {
  rt::Cfg cfg;
  int nth = 1;
  std::vector<rt::Slice> sched;
  std::vector<Op> ops;
};
struct Case {
  std::string prop;
  std::string sub;                 // which judge of the property
  std::map<std::string, double> par;
  Plan plan;
  double num(const std::string& s, double d = 0) const { auto it = par.find(s); return it == par.end() ? d : it->second; }
};
std::string case_text(const Case& c);
bool case_parse(const std::string& t, Case& c, std::string& err);

Op op_setup(int slot, const Prob& p, const Set& s);
Prob prob_of(const Op& op);
Op mk(const std::string& k, int slot = 0, int th = 0);

// ------------------------------------------------------------------ records --------------------
struct Sol { bool has = false; V x, y, pc, dc; };
struct Rec {
  bool exec = false;
  i64 ret = 0;
  bool live = false;               // the slot holds a set-up solver after the op
  OSQPInfo info;
  Set set;
  Sol sol;                         // solver->solution after the op
  Sol out;                         // storage the caller passed (getsol)
  rt::CallTrace tr;
  rt::LedgerStats l0, l1;
  bool disp_ok = true;
  int user_sig = 0;
  bool args_ok = true;
  std::string args_msg;
  std::string mem;                 // memory errors noted up to here
  i64 dm = 0, dn = 0;
  V misc;
  std::map<std::string, std::string> files;   // generated code
  int open_files = 0;
};
struct RunOpts {
  bool scribble = true;            // overwrite and free every argument right after the call
  bool free_args = true;
};
struct Run {
  std::vector<Rec> rec;            // one per op, then one per implicit cleanup
  std::vector<Op> tail;            // the implicit cleanups
  std::string mem, leaks;
  u64 ehash = 0, cov = 0, ilv = 0;
  i64 simns = 0, switches = 0;
  rt::LedgerStats end;
  int open_files = 0;
  bool final_disp_ok = true;
};
Run run_plan(const Plan& p, const RunOpts& o = RunOpts());
extern void (*before_run)(const Plan& p);   // told about every plan before it runs (crash forensics)

struct Stats {
  u64 runs = 0; double simns = 0;
  std::map<std::string, u64> faults, status, events;
  std::vector<u64> covs, ilvs;
  u64 solves = 0, iters = 0, switches = 0, ops = 0;
};
extern Stats stats;

// ------------------------------------------------------------------ oracles --------------------
struct Viol { std::string prop, kind, msg; int op = -1; };
typedef std::vector<Viol> Viols;

struct Scal { V D, E; ld c = 1; bool on = false; };
Scal ruiz(const Prob& p, int iters);

struct Shadow {                    // reference model of one solver
  bool live = false;
  std::vector<Prob> alts;          // candidates for the data held (more than one only after a failed update)
  std::vector<Scal> scal;
  Set set;
  bool lin_bad = false;            // a failed call may have left the linear system stale
  int solves = 0, completed = 0;
  i64 acc_lo = 0, acc_hi = 0;      // time of update calls since the previous solve
  i64 setup_lo = 0, setup_hi = 0;
  bool acc_fuzzy = false;
  int updates_since = 0;
};
bool op_valid(const Op& op, const Shadow& sh);
// Evaluate a run against the model; every finding carries the property it belongs to.
struct JudgeOpts { bool times = true; };
Viols judge_run(const Case& c, const Run& r);
std::vector<std::vector<Shadow>> shadows(const Plan& p, const Run& r); // state of each slot before each op [op][slot]
void count_stats(const Plan& p, const Run& r);

ld norm_inf(const V& v);
V mulP(const Csc& P, const V& x);
V mulA(const Csc& A, const V& x);
V mulAt(const Csc& A, const V& y);

bool is_solved(i64 s);
bool same_result(const Rec& a, const Rec& b, bool full, std::string& why);

// ------------------------------------------------------------------ generators -----------------
GenProb gen_prob(Rng& g, int cls, int maxn, int maxm);
int pick_cls(Rng& g, unsigned mask);
Set gen_set(Rng& g, const GenProb& p, unsigned flags);
enum { GF_DIRECT = 1, GF_NOPOLISH = 2, GF_NOTIME = 4, GF_FIXEDRHO = 8, GF_CONV = 16, GF_NOVERB = 32, GF_SHORT = 64, GF_NOKKT = 128, GF_POLISH = 256 , GF_INDIRECT = 512};

struct Profile {
  const char* id;
  std::function<std::vector<Case>(u64 seed)> gen;
  std::function<Viols(const Case&)> judge;
};
extern const std::vector<Profile> profiles;
const Profile* find_profile(const std::string& id);
