// Simulator runtime: every seam between OSQP and its environment.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <signal.h>

typedef uint64_t u64;
typedef int64_t i64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  double gauss();
  double logu(double lo, double hi);   // 10^U(lo,hi)
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  u64 sub() { return next() >> 12; }   // seeds that survive a trip through a double
};

struct Hash {
  u64 h = 0xcbf29ce484222325ull;
  void add(u64 v) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; }
  void bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) add(c[i]); }
  void str(const std::string& s) { bytes(s.data(), s.size()); }
  void dbl(double d) { u64 v; __builtin_memcpy(&v, &d, 8); add(v); }
};

namespace rt {

// ---- faults of one API call (indices are relative to the start of the call) -------------------
struct Faults {
  i64 alloc_at = -1; bool alloc_persist = false;
  i64 sig_edge = -1;            // deliver SIGINT after this many edges of the call
  i64 sig_ls = -1;              // deliver SIGINT inside this linear-system call
  i64 sig_rep = 0, sig_gap = 0; // and again this often, each time after so many more edges
  i64 ls_at = -1; bool ls_persist = false; int ls_code = -4; int ls_kind = 0; // 0 any call,1 factor only,2 solve only
  struct Stall { i64 edge; i64 ls; i64 ns; bool wall; };
  std::vector<Stall> stalls;
  i64 io_at = -1; bool io_persist = false; int io_kind = 0; // codegen I/O faults
  bool any() const { return alloc_at >= 0 || sig_edge >= 0 || sig_ls >= 0 || ls_at >= 0 || !stalls.empty() || io_at >= 0; }
};

struct LsEv { int kind; bool main; i64 t; i64 edge; int ret; i64 dur; };  // kind: 11,22,33,-1 pardiso; 100 = dcg solve

// ---- what one API call did -------------------------------------------------------------------
struct CallTrace {
  i64 edges = 0, allocs = 0, lscalls = 0, ios = 0;
  i64 t0 = 0, t1 = 0;                   // simulated monotonic time at entry/exit
  i64 main_solves = 0, main_factors = 0, polish_calls = 0;
  i64 main_ns = 0, polish_ns = 0;       // explicit cost charged inside linear-system calls
  i64 stall_ns = 0;
  std::vector<LsEv> ls;
  // fired faults
  int alloc_fired = 0, ls_fired = 0, io_fired = 0, sig_delivered = 0, stalls_fired = 0;
  int stale_solves = 0;                 // linear solves with factors of another matrix, or of a failed factorisation
  int sig_to_user = 0, sig_to_other = 0, sig_default = 0, sig_ignored = 0, sig_pending = 0, sig_lost = 0;
  i64 sig_main_solves = -1;             // main solves started when the signal landed
  i64 sig_ls_total = -1;
  i64 sig_time = -1;
  bool sig_in_ls = false;
  std::string printed;
  std::vector<uint32_t> occ_at;         // the locations of occ
  std::vector<std::pair<i64, i64>> occ; // first and last time each code location was passed (only while rec_edges)
};
extern bool rec_edges;

struct Cfg {
  u64 poison = 1; int poison_mode = 0; // 0 random bytes, 1 zeros, 2 0xFF.., 3 NaN/huge mix
  size_t pad = 0; u64 padseed = 0;
  i64 edge_ns = 5, ls_ns = 20000, fac_ns = 200000, clk_ns = 20;
  i64 mono_base = 1000000000ll; i64 wall_off = 1700000000000000000ll;
  int inf = 0;   // callers write an infinite bound or time limit as: 0 OSQP_INFTY, 1 INFINITY, 2 a mixture of the two
};

struct Violation { std::string kind, msg; };

// user handlers selectable as "previous disposition"
enum { DISP_DFL = 0, DISP_IGN = 1, DISP_H1 = 2, DISP_H2 = 3, DISP_SIGINFO = 4 };

void global_init();
void run_begin(const Cfg& c);
void run_end();                             // final checks are done by the caller

// memory ledger
struct LedgerStats { size_t live_blocks, live_bytes, live_mkl, live_handles, live_factors; };
LedgerStats ledger();                       // library-owned, not user-owned
std::string describe_leaks(int max);
bool memory_errors(std::string& out);       // canaries, double frees, foreign frees seen so far
int  heap_check();                          // verify canaries of all live blocks; returns number of bad ones
void* user_alloc(size_t n);                 // user-owned, same arena, exact bounds
void  user_free(void* p);                   // scribble and free

// time
i64  now();
void advance(i64 ns);
void wall_jump(i64 ns);

// signals
void set_disposition(int d);
int  get_disposition();                     // -1 if something else is installed
bool disposition_intact();                  // full struct equality with what set_disposition installed
int  user_handler_calls();
void deliver_sigint_now();                  // outside of any call

// call bracketing
void call_begin(int slot, int opkind_setup, const Faults& f);
CallTrace call_end();
bool in_call();

// threads
typedef void (*ThreadFn)(int tid, void* arg);
struct Slice { int th; i64 k; };
void run_threads(int n, ThreadFn fn, void* arg, const std::vector<Slice>& sched);
u64  interleaving_hash();
i64  switches_done();
void op_boundary();

// coverage
u64  coverage_signature();                  // of the current run
size_t edges_total();
size_t edges_seen();                        // accumulated over the process

u64 event_hash();

// in-memory files (code generation)
struct File { std::string data; bool open = false; int opens = 0; };
std::map<std::string, File>& files();
int open_files();

}  // namespace rt
