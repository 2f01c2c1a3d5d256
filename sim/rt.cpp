// Simulator runtime. Nothing in here is instrumented; OSQP's objects are, and their references to
// libc / MKL entry points are renamed to the sim_* functions below (objcopy --redefine-syms).
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#ifdef SIM_MKL
#include <mkl.h>
#include <mkl_pardiso.h>
#include <mkl_rci.h>
#include <mkl_spblas.h>
#endif
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#define SIM_ASAN 1
#endif
#ifdef SIM_WITH_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

double Rng::gauss() {
  double u1 = uni(), u2 = uni();
  if (u1 < 1e-300) u1 = 1e-300;
  return std::sqrt(-2.0 * std::log(u1)) * std::cos(6.283185307179586 * u2);
}
double Rng::logu(double lo, double hi) { return std::pow(10.0, uni(lo, hi)); }

namespace rt {

static const i64 EDGE_LIMIT = 600000000ll;

// ------------------------------------------------------------------ state of a run -------------
enum Owner : unsigned char { OWN_OSQP = 1, OWN_MKL = 2, OWN_USER = 3 };
struct Block { char* p; size_t n; Owner own; bool live; int slot; i64 seq; int op; };

struct Thr {
  int id = 0;
  bool in_call = false, in_handler = false;
  int slot = 0; bool is_setup = false;
  Faults f; CallTrace tr;
  i64 next_ev = INT64_MAX;
  size_t stall_i = 0;
  sem_t sem; bool done = false;
  int ncalls = 0; i64 call_no = 0;
};

static Cfg cfg;
static Rng poison_rng(1);
static char* arena = nullptr;
static const size_t ARENA = 1ull << 33;
static size_t bump = 0, bump_high = 0;
static std::vector<Block> blocks;
static std::unordered_map<void*, int> bymem;
static std::string mem_err;
static i64 alloc_seq = 0;
static i64 mono = 0, wall_off = 0;
static Hash evhash;
static Thr main_thr;
static thread_local Thr* cur = nullptr;

// scheduling
static std::vector<Thr*> thrs;
static std::vector<Slice> sched;
static size_t sched_i = 0;
static std::set<void*> locks;
static std::map<void*, bool> onces;
static i64 slice_left = INT64_MAX;
static i64 n_switches = 0;
static Hash ilv;

// coverage
static uint32_t n_guards = 0;
static std::vector<uint32_t> run_cov;
static std::vector<uint8_t> seen_cov;

// signals
static struct sigaction sigtab[65];
static struct sigaction user_act;
static int user_disp = 0;
static int user_calls = 0;
static bool sig_blocked = false, sig_pending = false;
static sigset_t simmask;

struct FHandle { const void* fa; u64 fhash; bool ffail; bool live; bool main; int slot; void* saved_pt[64]; long long n; long long mtype, maxfct, mnum; };
static std::map<void*, FHandle> fh;
static std::map<void*, bool> cgmain, cgfresh;
static std::set<void*> spm;
static std::map<std::string, File> vfs;
static std::map<void*, std::string> openf;

std::map<std::string, File>& files() { return vfs; }
int open_files() { return (int)openf.size(); }

// ------------------------------------------------------------------ clock ----------------------
i64 now() { return mono; }
void advance(i64 ns) { mono += ns; evhash.add(0x71 ^ (u64)ns); }
void wall_jump(i64 ns) { wall_off += ns; }

// ------------------------------------------------------------------ signals --------------------
static void h1(int) { user_calls++; }
static void h2(int) { user_calls++; }
static void h3(int, siginfo_t*, void*) { user_calls++; }

void set_disposition(int d) {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  sigemptyset(&a.sa_mask);
  switch (d) {
  case DISP_DFL: a.sa_handler = SIG_DFL; break;
  case DISP_IGN: a.sa_handler = SIG_IGN; break;
  case DISP_H1: a.sa_handler = h1; sigaddset(&a.sa_mask, SIGTERM); break;
  case DISP_H2: a.sa_handler = h2; a.sa_flags = SA_RESTART; break;
  case DISP_SIGINFO: a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO | SA_NODEFER; break;
  }
  user_disp = d;
  user_act = a;
  sigtab[SIGINT] = a;
}
static bool same_act(const struct sigaction& a, const struct sigaction& b) {
  if (a.sa_handler != b.sa_handler || a.sa_flags != b.sa_flags) return false;
  for (int s = 1; s < 64; s++) if (sigismember(&a.sa_mask, s) != sigismember(&b.sa_mask, s)) return false;
  return true;
}
int get_disposition() { return same_act(sigtab[SIGINT], user_act) ? user_disp : -1; }
bool disposition_intact() { return same_act(sigtab[SIGINT], user_act); }
int user_handler_calls() { return user_calls; }

static void deliver(Thr* c) {
  if (sig_blocked) { sig_pending = true; if (c) c->tr.sig_pending++; return; }
  struct sigaction a = sigtab[SIGINT];
  evhash.add(0x516);
  if (c) {
    c->tr.sig_delivered++;
    if (!c->tr.sig_to_other) c->tr.sig_main_solves = c->tr.main_solves;
    c->tr.sig_ls_total = c->tr.lscalls;
    // neither the application nor the library asked for this
    auto plain = [](const struct sigaction& s, void (*h)(int)) { return !(s.sa_flags & SA_SIGINFO) && s.sa_handler == h; };
    if ((plain(a, SIG_DFL) && !plain(user_act, SIG_DFL)) || (plain(a, SIG_IGN) && !plain(user_act, SIG_IGN))) c->tr.sig_lost++;
    if (c->f.sig_rep > 0) { c->f.sig_rep--; c->f.sig_edge = c->tr.edges + c->f.sig_gap; }
    c->tr.sig_time = mono;
  }
  if (!(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_DFL) { if (c) c->tr.sig_default++; return; }
  if (!(a.sa_flags & SA_SIGINFO) && a.sa_handler == SIG_IGN) { if (c) c->tr.sig_ignored++; return; }
  bool user = a.sa_handler == h1 || a.sa_handler == h2 || (void*)a.sa_sigaction == (void*)h3;
  if (c) { if (user) c->tr.sig_to_user++; else c->tr.sig_to_other++; c->in_handler = true; }
  if (a.sa_flags & SA_RESETHAND) { sigtab[SIGINT].sa_handler = SIG_DFL; sigtab[SIGINT].sa_flags = 0; }
  bool ob = sig_blocked;
  if (!(a.sa_flags & SA_NODEFER)) sig_blocked = true;
  if (a.sa_flags & SA_SIGINFO) {
    siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = SIGINT;
    a.sa_sigaction(SIGINT, &si, nullptr);
  } else a.sa_handler(SIGINT);
  sig_blocked = ob;
  if (c) c->in_handler = false;
}
void deliver_sigint_now() { deliver(nullptr); }

// ------------------------------------------------------------------ scheduler ------------------
static int next_alive(int from) {
  int n = (int)thrs.size();
  for (int k = 0; k < n; k++) { int t = (from + k) % n; if (!thrs[t]->done) return t; }
  return -1;
}
static int pick_next(int self) {
  while (sched_i < sched.size()) {
    Slice s = sched[sched_i++];
    if (s.th >= 0 && s.th < (int)thrs.size() && !thrs[s.th]->done && s.k > 0) { slice_left = s.k; return s.th; }
  }
  // schedule exhausted: fair round robin, so that a thread that waits for another one makes progress
  slice_left = thrs.size() > 1 ? 100000 : INT64_MAX;
  int t = next_alive(self < 0 ? 0 : self + 1);
  return t;
}
static void switch_from(Thr* c, u64 where) {
  int t = pick_next(c->id);
  if (t < 0 || t == c->id) return;
  n_switches++;
  ilv.add((u64)t * 1000003 + where * 31 + (u64)c->ncalls);
  evhash.add(0x5151 ^ ((u64)t << 32) ^ where);
  sem_post(&thrs[t]->sem);
  sem_wait(&c->sem);
}

// ------------------------------------------------------------------ edges ----------------------
static void recompute_next_ev(Thr* c) {
  i64 e = EDGE_LIMIT;
  if (c->f.sig_edge >= 0 && c->f.sig_edge < e) e = c->f.sig_edge;
  for (auto& s : c->f.stalls) if (s.edge >= 0 && s.edge < e) e = s.edge;
  c->next_ev = e;
}
static void edge_event(Thr* c) {
  if (c->tr.edges >= EDGE_LIMIT) {
    fprintf(stderr, "SIM-HANG: a call executed %lld edges without returning\n", (long long)c->tr.edges);
    fflush(stderr);
    _exit(77);
  }
  if (c->f.sig_edge >= 0 && c->tr.edges >= c->f.sig_edge) { c->f.sig_edge = -1; deliver(c); }
  for (auto& s : c->f.stalls)
    if (s.edge >= 0 && c->tr.edges >= s.edge) {
      s.edge = -1; c->tr.stalls_fired++;
      if (s.wall) wall_off += s.ns; else { mono += s.ns; c->tr.stall_ns += s.ns; }
    }
  recompute_next_ev(c);
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; x++) *x = ++n_guards;
}
bool rec_edges = false;
static std::vector<std::pair<i64, uint32_t>> stamp;   // per guard: the call it was last passed in, its position in tr.occ
static i64 call_no = 0;
static void note_edge(Thr* c, uint32_t g) {
  if (stamp.size() <= n_guards) stamp.resize(n_guards + 1, {-1, 0});
  if (g >= stamp.size()) return;
  if (stamp[g].first != c->call_no || stamp[g].second >= c->tr.occ.size()) { stamp[g] = {c->call_no, (uint32_t)c->tr.occ.size()}; c->tr.occ.push_back({c->tr.edges, c->tr.edges}); c->tr.occ_at.push_back(g); }
  else c->tr.occ[stamp[g].second].second = c->tr.edges;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  Thr* c = cur;
  if (!c || !c->in_call || c->in_handler) return;
  uint32_t g = *guard;
  if (g < run_cov.size()) run_cov[g]++;
  c->tr.edges++;
  if (rec_edges) note_edge(c, g);
  mono += cfg.edge_ns;
  if (c->tr.edges >= c->next_ev) edge_event(c);
  if (--slice_left <= 0) switch_from(c, g);
}

size_t edges_total() { return n_guards; }
size_t edges_seen() { size_t k = 0; for (auto v : seen_cov) k += v; return k; }
u64 coverage_signature() {
  Hash h;
  for (size_t i = 0; i < run_cov.size(); i++) if (run_cov[i]) {
    int b = 31 - __builtin_clz(run_cov[i]);
    if (b > 3) b = 4 + (b - 4) / 3;
    h.add(i * 64 + b);
  }
  return h.h;
}

// ------------------------------------------------------------------ memory ---------------------
static void fill(char* p, size_t n) {
  switch (cfg.poison_mode) {
  case 1: memset(p, 0, n); return;
  case 2: memset(p, 0xFF, n); return;
  case 3:
    for (size_t i = 0; i + 8 <= n; i += 8) {
      u64 r = poison_rng.next(), v;
      double d;
      switch (r & 3) {
      case 0: d = NAN; memcpy(&v, &d, 8); break;
      case 1: d = 1e300 * ((r & 4) ? 1 : -1); memcpy(&v, &d, 8); break;
      case 2: d = 3.5; memcpy(&v, &d, 8); break;
      default: v = 1;
      }
      memcpy(p + i, &v, 8);
    }
    if (n & 7) memset(p + (n & ~7ull), 0x5A, n & 7);
    return;
  default:
    for (size_t i = 0; i < n; i += 8) { u64 r = poison_rng.next(); memcpy(p + i, &r, n - i < 8 ? n - i : 8); }
  }
}
static const unsigned char CAN = 0xC7;
static const size_t RZ = 64;

static void* arena_alloc(size_t n, Owner own) {
  size_t gap = cfg.padseed ? (size_t)(poison_rng.next() % 5) * 64 : 0;
  if (n > (1ull << 32)) return nullptr;
  size_t off = (bump + 63) & ~63ull;
  off += RZ + gap;
  size_t end = off + ((n + 63) & ~63ull);
  if (end == off) end += 64;
  if (end + RZ > ARENA) return nullptr;
  char* p = arena + off;
  // canary bytes around, then ASan poison
  UNPOISON(arena + bump, end + RZ - bump);
  memset(p - RZ, CAN, RZ);
  memset(p + n, CAN, (end - off - n) + RZ);
  fill(p, n);
  POISON(p - RZ, RZ);
  POISON(p + n, (end - off - n) + RZ);
  bump = end + RZ;
  if (bump > bump_high) bump_high = bump;
  Block b{p, n, own, true, cur ? cur->slot : -1, alloc_seq++, cur ? cur->ncalls : -1};
  bymem[p] = (int)blocks.size();
  blocks.push_back(b);
  return p;
}
static bool canary_ok(const Block& b) {
  size_t end = ((b.n + 63) & ~63ull); if (!end) end = 64;
  bool ok = true;
  UNPOISON(b.p - RZ, RZ);
  UNPOISON(b.p + b.n, end - b.n + RZ);
  for (size_t i = 0; i < RZ; i++) if ((unsigned char)b.p[-(long)RZ + (long)i] != CAN) ok = false;
  for (size_t i = b.n; i < end + RZ; i++) if ((unsigned char)b.p[i] != CAN) ok = false;
  POISON(b.p - RZ, RZ);
  POISON(b.p + b.n, end - b.n + RZ);
  return ok;
}
static void note_mem(const std::string& s) { if (mem_err.size() < 2000) mem_err += s + "; "; }

static void arena_free(void* p, Owner own) {
  if (!p) return;
  auto it = bymem.find(p);
  if (it == bymem.end()) { note_mem("free of a pointer that was never allocated"); return; }
  Block& b = blocks[it->second];
  if (!b.live) { note_mem("double free of block #" + std::to_string(b.seq) + " size " + std::to_string(b.n)); return; }
  if (b.own != own) note_mem(std::string("block #") + std::to_string(b.seq) + " released through the wrong owner (" + std::to_string((int)b.own) + " by " + std::to_string((int)own) + ")");
  if (!canary_ok(b)) note_mem("write outside block #" + std::to_string(b.seq) + " size " + std::to_string(b.n));
  b.live = false;
  UNPOISON(b.p, b.n);
  memset(b.p, 0xDD, b.n);
  POISON(b.p, b.n ? b.n : 1);
}
static bool alloc_fails() {
  Thr* c = cur;
  if (!c || !c->in_call) return false;
  i64 k = c->tr.allocs++;
  if (c->f.alloc_at >= 0 && (k == c->f.alloc_at || (c->f.alloc_persist && k >= c->f.alloc_at))) {
    c->tr.alloc_fired++;
    evhash.add(0xA110C ^ (u64)k);
    return true;
  }
  return false;
}
void* user_alloc(size_t n) { return arena_alloc(n, OWN_USER); }
void user_free(void* p) { arena_free(p, OWN_USER); }

LedgerStats ledger() {
  LedgerStats s{0, 0, 0, 0, 0};
  for (auto& b : blocks) if (b.live && b.own != OWN_USER) { s.live_blocks++; s.live_bytes += b.n; if (b.own == OWN_MKL) s.live_mkl++; }
  s.live_handles = spm.size();
  for (auto& h : fh) if (h.second.live) s.live_factors++;
  return s;
}
std::string describe_leaks(int max) {
  std::string o;
  int k = 0;
  for (auto& b : blocks) if (b.live && b.own != OWN_USER) {
    if (k++ < max) o += "block#" + std::to_string(b.seq) + "(" + std::to_string(b.n) + "B, call " + std::to_string(b.op) + ") ";
  }
  if (k > max) o += "... " + std::to_string(k) + " blocks; ";
  if (!spm.empty()) o += std::to_string(spm.size()) + " sparse handle(s) ";
  int l = 0; for (auto& h : fh) if (h.second.live) l++;
  if (l) o += std::to_string(l) + " factorisation(s)";
  return o;
}
bool memory_errors(std::string& out) { out = mem_err; return !mem_err.empty(); }
int heap_check() {
  int bad = 0;
  for (auto& b : blocks) if (b.live && !canary_ok(b)) { bad++; note_mem("write outside block #" + std::to_string(b.seq) + " size " + std::to_string(b.n)); }
  return bad;
}

// ------------------------------------------------------------------ runs -----------------------
// The library's writable globals (see build.py): a run starts as a new process would.
extern "C" { extern char __start_osqpdata[] __attribute__((weak)); extern char __stop_osqpdata[] __attribute__((weak)); extern char __start_osqpbss[] __attribute__((weak)); extern char __stop_osqpbss[] __attribute__((weak)); }
static std::string glob_data, glob_bss;
static void raw_copy(char* d, const char* s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = s[i]; }
static void save_globals() {
  if (__start_osqpdata) { glob_data.resize((size_t)(__stop_osqpdata - __start_osqpdata)); raw_copy(&glob_data[0], __start_osqpdata, glob_data.size()); }
  if (__start_osqpbss) { glob_bss.resize((size_t)(__stop_osqpbss - __start_osqpbss)); raw_copy(&glob_bss[0], __start_osqpbss, glob_bss.size()); }
}
static void reset_globals() {
  if (glob_data.size()) raw_copy(__start_osqpdata, glob_data.data(), glob_data.size());
  if (glob_bss.size()) raw_copy(__start_osqpbss, glob_bss.data(), glob_bss.size());
}
void global_init() {
  save_globals();
  arena = (char*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { perror("mmap arena"); _exit(3); }
  run_cov.assign(n_guards + 1, 0);
  seen_cov.assign(n_guards + 1, 0);
  sem_init(&main_thr.sem, 0, 0);
  sigemptyset(&simmask);
}
void run_begin(const Cfg& c) {
  reset_globals();
  cfg = c;
  poison_rng = Rng(c.poison);
  bump = c.pad;
  blocks.clear(); bymem.clear(); mem_err.clear(); alloc_seq = 0;
  mono = c.mono_base; wall_off = c.wall_off;
  evhash = Hash(); ilv = Hash(); n_switches = 0;
  std::fill(run_cov.begin(), run_cov.end(), 0u);
  fh.clear(); cgmain.clear(); cgfresh.clear(); spm.clear(); vfs.clear(); openf.clear();
  memset(sigtab, 0, sizeof sigtab);
  set_disposition(DISP_DFL);
  user_calls = 0; sig_blocked = sig_pending = false;
  main_thr.id = 0; main_thr.done = false; main_thr.ncalls = 0; main_thr.in_call = false; main_thr.f = Faults();
  cur = &main_thr;
  slice_left = INT64_MAX; sched.clear(); sched_i = 0; thrs.clear();
  locks.clear(); onces.clear();
}
static void release_leftovers();
void run_end() {
  release_leftovers();
  for (size_t i = 0; i < run_cov.size(); i++) if (run_cov[i]) seen_cov[i] = 1;
  UNPOISON(arena, bump);
  if (bump > (64u << 20)) madvise(arena, bump, MADV_DONTNEED);
  bump = 0;
}
void call_begin(int slot, int is_setup, const Faults& f) {
  Thr* c = cur;
  c->tr = CallTrace();
  c->f = f;
  c->slot = slot; c->is_setup = is_setup;
  c->ncalls++;
  c->call_no = ++call_no;
  c->tr.t0 = mono;
  recompute_next_ev(c);
  evhash.add(0xCA11 ^ ((u64)c->id << 40) ^ (u64)c->ncalls);
  c->in_call = true;
}
CallTrace call_end() {
  Thr* c = cur;
  c->in_call = false;
  c->tr.t1 = mono;
  evhash.add((u64)c->tr.edges); evhash.add((u64)c->tr.allocs); evhash.add((u64)c->tr.lscalls); evhash.add((u64)mono);
  evhash.str(c->tr.printed);
  CallTrace t; std::swap(t, c->tr);
  c->f = Faults();
  return t;
}
bool in_call() { return cur && cur->in_call; }
u64 event_hash() { return evhash.h; }
u64 interleaving_hash() { return ilv.h; }
i64 switches_done() { return n_switches; }

struct ThArg { Thr* t; ThreadFn fn; void* arg; };
static void* thread_main(void* a) {
  ThArg* ta = (ThArg*)a;
  Thr* t = ta->t;
  cur = t;
  sem_wait(&t->sem);
  ta->fn(t->id, ta->arg);
  t->done = true;
  int nx = pick_next(t->id);
  if (nx >= 0) sem_post(&thrs[nx]->sem);
  else sem_post(&main_thr.sem);
  cur = nullptr;
  return nullptr;
}
void run_threads(int n, ThreadFn fn, void* arg, const std::vector<Slice>& s) {
  if (n <= 1) { cur = &main_thr; main_thr.id = 0; fn(0, arg); return; }
  sched = s; sched_i = 0;
  std::vector<Thr*> own;
  for (int i = 0; i < n; i++) { Thr* t = new Thr; t->id = i; sem_init(&t->sem, 0, 0); own.push_back(t); }
  thrs = own;
  std::vector<pthread_t> pt(n);
  std::vector<ThArg> ta(n);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
  for (int i = 0; i < n; i++) { ta[i] = {own[i], fn, arg}; pthread_create(&pt[i], &at, thread_main, &ta[i]); }
  pthread_attr_destroy(&at);
  int first = pick_next(-1);
  if (first < 0) first = 0;
  sem_post(&thrs[first]->sem);
  sem_wait(&main_thr.sem);
  for (int i = 0; i < n; i++) pthread_join(pt[i], nullptr);
  for (auto t : own) { sem_destroy(&t->sem); delete t; }
  thrs.clear(); sched.clear(); slice_left = INT64_MAX;
  cur = &main_thr;
}
void op_boundary() {
  Thr* c = cur;
  if (!c || thrs.size() < 2) return;
  if (--slice_left <= 0) switch_from(c, 0);
}

// ------------------------------------------------------------------ linear-system calls ---------
static bool ls_enter(Thr* c, int kind, bool main, int* code) {
  // returns true if the call must fail with *code
  if (!c || !c->in_call) return false;
  i64 k = c->tr.lscalls++;
  for (auto& s : c->f.stalls)
    if (s.ls >= 0 && k == s.ls) { c->tr.stalls_fired++; if (s.wall) wall_off += s.ns; else { mono += s.ns; c->tr.stall_ns += s.ns; if (main) c->tr.main_ns += s.ns; else if (kind != -1) c->tr.polish_ns += s.ns; } }
  if (c->f.sig_ls >= 0 && k >= c->f.sig_ls) {
    c->f.sig_ls = -1; c->tr.sig_in_ls = true;
    // the k-th call itself has started: count it first
    deliver(c);
    recompute_next_ev(c);
  }
  bool hit = c->f.ls_at >= 0 && (k == c->f.ls_at || (c->f.ls_persist && k >= c->f.ls_at));
  if (hit && c->f.ls_kind == 1 && !(kind == 11 || kind == 22 || kind == 12)) hit = false;
  if (hit && c->f.ls_kind == 2 && !(kind == 33 || kind == 100 || kind == 23 || kind == 13)) hit = false;
  if (kind == -1) hit = false;
#ifndef SIM_MKL
  if (kind == 33) hit = false;      // a triangular solve reports nothing
#endif
  if (hit) { c->tr.ls_fired++; *code = c->f.ls_code; evhash.add(0x15FA ^ (u64)k); }
  return hit;
}
static void ls_cost(Thr* c, int kind, bool main, i64 t_start, int ret) {
  if (!c || !c->in_call) return;
  i64 d = (kind == 33 || kind == 100) ? cfg.ls_ns : (kind > 0) ? cfg.fac_ns : 0;
  mono += d;
  if (main) c->tr.main_ns += d; else if (kind != -1) c->tr.polish_ns += d;   // releasing the factors is clean-up, after the polish timer
  if (!main) c->tr.polish_calls++;
  LsEv e{kind, main, t_start, c->tr.edges, ret, d};
  if (c->tr.ls.size() < 200000) c->tr.ls.push_back(e);
  evhash.add((u64)kind * 77 + (u64)ret);
}

#ifdef SIM_MKL
extern "C" void sim_PARDISO(void* pt, const long long* maxfct, const long long* mnum, const long long* mtype,
                            const long long* phase, const long long* n, const void* a, const long long* ia,
                            const long long* ja, long long* perm, const long long* nrhs, long long* iparm,
                            const long long* msglvl, void* b, void* x, long long* error) {
  Thr* c = cur;
  int kind = (int)*phase;
  bool known = fh.count(pt);
  bool main = known ? fh[pt].main : (c ? c->is_setup : true);
  i64 t0 = mono;
  bool does_solve = kind == 33 || kind == 23 || kind == 13, does_factor = kind == 22 || kind == 12 || kind == 23 || kind == 13;
  if (does_solve && main && c && c->in_call) c->tr.main_solves++;
  if (does_factor && main && c && c->in_call) c->tr.main_factors++;
  int code = 0;
  auto content = [&]() { Hash h; const double* v = (const double*)a; for (long long i = 0, k = ia[*n] - ia[0]; i < k; i++) h.dbl(v[i]); return h.h; };
  if (kind == 33 && known && c && c->in_call && (fh[pt].ffail || (fh[pt].fa && fh[pt].fa == a && fh[pt].fhash != content()))) c->tr.stale_solves++;
  if (ls_enter(c, kind, main, &code)) {
    *error = code;
    if (does_factor && known) fh[pt].ffail = true;
    if (does_factor) iparm[21] = *n;      // only the error code tells: the count of positive pivots is anybody's guess
    ls_cost(c, kind, main, t0, code);
    return;
  }
  if (kind == -1 && (!known || !fh[pt].live)) {     // nothing was ever created: MKL has nothing to release
    *error = 0;
    ls_cost(c, kind, main, t0, 0);
    return;
  }
  bool creates = kind == 11 || kind == 12 || kind == 13;
  if (!creates && (!known || !fh[pt].live)) {
    note_mem("linear-system call on a handle that does not exist");
    *error = -3;
    return;
  }
  if (creates && kind != 11 && known && fh[pt].live) creates = false;
  if (kind == 11 && known && fh[pt].live) note_mem("factorisation handle overwritten while live");
  PARDISO(pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error);
  if (creates) {
    FHandle h; h.fa = nullptr; h.fhash = 0; h.ffail = false; h.live = true; h.main = main; h.slot = c ? c->slot : -1;
    h.n = *n; h.mtype = *mtype; h.maxfct = *maxfct; h.mnum = *mnum;
    fh[pt] = h;
  }
  if (does_factor && fh.count(pt)) { FHandle& h = fh[pt]; h.ffail = *error != 0; h.fa = a; h.fhash = content(); }
  if (kind == -1) fh[pt].live = false; else memcpy(fh[pt].saved_pt, pt, sizeof(void*) * 64);
  ls_cost(c, kind, main, t0, (int)*error);
}
extern "C" void sim_dcg_init(const long long* n, const double* x, const double* b, long long* rci, long long* ipar, double* dpar, double* tmp) {
  if (!cgmain.count(tmp)) cgmain[tmp] = cur ? cur->is_setup : true;
  cgfresh[tmp] = true;
  dcg_init(n, x, b, rci, ipar, dpar, tmp);
}
extern "C" void sim_dcg_check(const long long* n, const double* x, const double* b, long long* rci, long long* ipar, double* dpar, double* tmp) {
  dcg_check(n, x, b, rci, ipar, dpar, tmp);
}
extern "C" void sim_dcg(const long long* n, double* x, const double* b, long long* rci, long long* ipar, double* dpar, double* tmp) {
  Thr* c = cur;
  if (cgfresh[tmp]) {
    cgfresh[tmp] = false;
    bool main = cgmain.count(tmp) ? cgmain[tmp] : true;
    i64 t0 = mono;
    if (main && c && c->in_call) c->tr.main_solves++;
    int code = 0;
    bool f = ls_enter(c, 100, main, &code);
    ls_cost(c, 100, main, t0, f ? code : 0);
    if (f) { *rci = code < 0 ? code : -10; return; }
  }
  dcg(n, x, b, rci, ipar, dpar, tmp);
}
extern "C" int sim_mkl_sparse_d_create_csc(sparse_matrix_t* A, int base, long long r, long long cc, long long* cs, long long* ce, long long* ri, double* v) {
  if (alloc_fails()) return SPARSE_STATUS_ALLOC_FAILED;
  int s = mkl_sparse_d_create_csc(A, (sparse_index_base_t)base, r, cc, cs, ce, ri, v);
  if (s == SPARSE_STATUS_SUCCESS) spm.insert(*A);
  return s;
}
extern "C" int sim_mkl_sparse_destroy(sparse_matrix_t A) {
  if (!spm.count(A)) { note_mem("sparse handle destroyed twice or never created"); return SPARSE_STATUS_INVALID_VALUE; }
  spm.erase(A);
  return mkl_sparse_destroy(A);
}
extern "C" int sim_mkl_sparse_d_mv(int op, double alpha, sparse_matrix_t A, struct matrix_descr d, const double* x, double beta, double* y) {
  if (A && !spm.count(A)) { note_mem("product with a destroyed sparse handle"); return SPARSE_STATUS_INVALID_VALUE; }
  return mkl_sparse_d_mv((sparse_operation_t)op, alpha, A, d, x, beta, y);
}
// MKL itself returns NULL for zero-length requests
extern "C" void* sim_MKL_malloc(size_t n, int) { if (!n || alloc_fails()) return nullptr; return arena_alloc(n, OWN_MKL); }
extern "C" void* sim_MKL_calloc(size_t k, size_t n, int) {
  if (!k || !n || alloc_fails()) return nullptr;
  void* p = arena_alloc(k * n, OWN_MKL); if (p) memset(p, 0, k * n); return p;
}
extern "C" void sim_MKL_free(void* p) { arena_free(p, OWN_MKL); }
extern "C" void* sim_mkl_malloc(size_t n, int a) { return sim_MKL_malloc(n, a); }
extern "C" void* sim_mkl_calloc(size_t k, size_t n, int a) { return sim_MKL_calloc(k, n, a); }
extern "C" void sim_mkl_free(void* p) { sim_MKL_free(p); }
extern "C" void sim_pardiso(void* pt, const long long* a1, const long long* a2, const long long* a3, const long long* a4,
                            const long long* a5, const void* a6, const long long* a7, const long long* a8, long long* a9,
                            const long long* a10, long long* a11, const long long* a12, void* a13, void* a14, long long* a15) {
  sim_PARDISO(pt, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15);
}
extern "C" void sim_DCG_INIT(const long long* n, const double* x, const double* b, long long* r, long long* i, double* d, double* t) { sim_dcg_init(n, x, b, r, i, d, t); }
extern "C" void sim_DCG_CHECK(const long long* n, const double* x, const double* b, long long* r, long long* i, double* d, double* t) { sim_dcg_check(n, x, b, r, i, d, t); }
extern "C" void sim_DCG(const long long* n, double* x, const double* b, long long* r, long long* i, double* d, double* t) { sim_dcg(n, x, b, r, i, d, t); }
static void release_leftovers() {
  for (auto& h : fh) if (h.second.live) {
    long long phase = -1, nrhs = 1, msg = 0, err = 0, idum = 0, iparm[64]; double d = 0;
    memset(iparm, 0, sizeof iparm); iparm[0] = 1;
    PARDISO(h.second.saved_pt, &h.second.maxfct, &h.second.mnum, &h.second.mtype, &phase, &h.second.n, &d, &idum, &idum, &idum, &nrhs, iparm, &msg, &d, &d, &err);
  }
  for (auto s : spm) mkl_sparse_destroy((sparse_matrix_t)s);
  fh.clear(); spm.clear();
}
#else
static void release_leftovers() {}
extern "C" void sim_ls_event(const void* hc, int kind, int init, int* fail) {
  // called by the LDL stand-in: kind 11/22 factor, 33 solve; init: handle registration
  Thr* c = cur;
  void* h = const_cast<void*>(hc);
  bool known = fh.count(h);
  if (!known) { FHandle f; memset(&f, 0, sizeof f); f.main = c ? c->is_setup : true; f.live = false; fh[h] = f; }
  if (kind == -22) { fh[h].ffail = true; return; }      // a zero pivot
  bool main = fh[h].main;
  i64 t0 = mono;
  if (kind == 33 && main && c && c->in_call) c->tr.main_solves++;
  if (kind == 22 && main && c && c->in_call) c->tr.main_factors++;
  int code = 0;
  *fail = ls_enter(c, kind, main, &code) ? code : 0;
  if (kind == 22) fh[h].ffail = *fail != 0;
  if (kind == 33 && fh[h].ffail && c && c->in_call) c->tr.stale_solves++;
  ls_cost(c, kind, main, t0, *fail);
  (void)init;
}
#endif

}  // namespace rt
using namespace rt;

// ------------------------------------------------------------------ libc seams -------------------
extern "C" {
void* sim_malloc(size_t n) { if (alloc_fails()) return nullptr; return arena_alloc(n, OWN_OSQP); }
void* sim_calloc(size_t k, size_t n) {
  if (alloc_fails()) return nullptr;
  void* p = arena_alloc(k * n, OWN_OSQP);
  if (p) memset(p, 0, k * n);
  return p;
}
void sim_free(void* p) { arena_free(p, OWN_OSQP); }
void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  if (alloc_fails()) return nullptr;
  auto it = bymem.find(p);
  size_t old = it == bymem.end() ? 0 : blocks[it->second].n;
  void* q = arena_alloc(n, OWN_OSQP);
  if (q) { memcpy(q, p, old < n ? old : n); arena_free(p, OWN_OSQP); }
  return q;
}

static int sim_vprint(const char* fmt, va_list ap) {
  char buf[1024];
  int k = vsnprintf(buf, sizeof buf, fmt, ap);
  Thr* c = cur;
  if (c && c->tr.printed.size() < 400000) c->tr.printed += buf;
  return k;
}
int sim_print(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int k = sim_vprint(fmt, ap); va_end(ap); return k; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int k = sim_vprint(fmt, ap); va_end(ap); return k; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vprint(fmt, ap); }
void sim_perror(const char* s) { sim_print("%s\n", s ? s : ""); }
void sim_abort(void) { fprintf(stderr, "SIM: abort() called\n"); abort(); }
int sim_puts(const char* s) { return sim_print("%s\n", s); }
int sim_putchar(int ch) { return sim_print("%c", ch); }

int sim_clock_gettime(clockid_t id, struct timespec* ts) {
  i64 v;
  mono += cfg.clk_ns;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = mono + wall_off;
  else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) v = mono / 7;
  else v = mono;
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) {
  mono += cfg.clk_ns;
  i64 v = mono + wall_off;
  tv->tv_sec = v / 1000000000ll; tv->tv_usec = (v % 1000000000ll) / 1000;
  return 0;
}
time_t sim_time(time_t* t) { mono += cfg.clk_ns; time_t v = (mono + wall_off) / 1000000000ll; if (t) *t = v; return v; }
clock_t sim_clock(void) { mono += cfg.clk_ns; return (clock_t)(mono / 7000); }
int sim_nanosleep(const struct timespec* a, struct timespec*) { mono += a->tv_sec * 1000000000ll + a->tv_nsec; return 0; }
int sim_usleep(unsigned us) { mono += (i64)us * 1000; return 0; }
int sim_rand(void) { return (int)(poison_rng.next() & 0x7fffffff); }

int sim_sigaction(int sig, const struct sigaction* act, struct sigaction* old) {
  if (sig < 1 || sig > 64) return -1;
  // the kernel copies in first, then out: the two may alias
  struct sigaction in; if (act) in = *act;
  if (old) *old = sigtab[sig];
  if (act) sigtab[sig] = in;
  evhash.add(0x51A + sig);
  return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int sig, sh_t h) {
  if (sig < 1 || sig > 64) return SIG_ERR;
  sh_t o = sigtab[sig].sa_handler;
  memset(&sigtab[sig], 0, sizeof sigtab[sig]);
  sigtab[sig].sa_handler = h; sigtab[sig].sa_flags = SA_RESTART;
  return o;
}
int sim_sigprocmask(int how, const sigset_t* set, sigset_t* old) {
  if (old) { sigemptyset(old); if (sig_blocked) sigaddset(old, SIGINT); }
  if (set) {
    bool in = sigismember(set, SIGINT) == 1;
    if (how == SIG_BLOCK) sig_blocked |= in; else if (how == SIG_UNBLOCK) { if (in) sig_blocked = false; } else sig_blocked = in;
    if (!sig_blocked && sig_pending) { sig_pending = false; deliver(cur); }
  }
  return 0;
}
int sim_pthread_sigmask(int how, const sigset_t* set, sigset_t* old) { return sim_sigprocmask(how, set, old); }
int sim_raise(int sig) { if (sig == SIGINT) deliver(cur); return 0; }

// ---- in-memory files ---------------------------------------------------------------------------
static bool io_fails(int* mode) {
  Thr* c = cur;
  if (!c || !c->in_call) return false;
  i64 k = c->tr.ios++;
  if (c->f.io_at >= 0 && (k == c->f.io_at || (c->f.io_persist && k >= c->f.io_at))) {
    c->tr.io_fired++; *mode = c->f.io_kind; evhash.add(0x10FA ^ (u64)k);
    return true;
  }
  return false;
}
struct SimFile { std::string name; bool err; };
static bool is_std(void* fp) { return fp == (void*)stdout || fp == (void*)stderr; }
void* sim_fopen(const char* path, const char* mode) {
  int m;
  if (io_fails(&m)) return nullptr;
  if (mode && mode[0] == 'r' && !vfs.count(path)) return nullptr;
  SimFile* f = new SimFile{path, false};
  if (!mode || mode[0] == 'w') vfs[path].data.clear();
  vfs[path].open = true; vfs[path].opens++;
  openf[f] = path;
  return f;
}
static int fwrite_raw(void* fp, const char* s, size_t n) {
  if (is_std(fp)) { Thr* c = cur; if (c && c->tr.printed.size() < 400000) c->tr.printed.append(s, n); return (int)n; }
  if (!openf.count(fp)) { note_mem("write to a file that is not open"); return -1; }
  SimFile* f = (SimFile*)fp;
  int m = 0;
  if (io_fails(&m)) {
    if (m == 1 && n > 1) vfs[f->name].data.append(s, n / 2);   // torn write
    f->err = true;
    return -1;
  }
  vfs[f->name].data.append(s, n);
  return (int)n;
}
int sim_fclose(void* fp) {
  if (is_std(fp)) return 0;
  if (!openf.count(fp)) { note_mem("close of a file that is not open"); return -1; }
  SimFile* f = (SimFile*)fp;
  int m = 0;
  bool bad = io_fails(&m);
  if (bad) { auto& d = vfs[f->name].data; d.resize(d.size() / 2); }   // buffered data lost at close
  vfs[f->name].open = false;
  openf.erase(fp);
  delete f;
  return bad ? -1 : 0;
}
int sim_fprintf(void* fp, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char sb[4096];
  int k = vsnprintf(sb, sizeof sb, fmt, ap);
  va_end(ap);
  if (k < 0) return k;
  if ((size_t)k >= sizeof sb) {
    std::string big(k + 1, 0);
    va_start(ap, fmt); vsnprintf(&big[0], k + 1, fmt, ap); va_end(ap);
    return fwrite_raw(fp, big.data(), k);
  }
  return fwrite_raw(fp, sb, k);
}
int sim_vfprintf(void* fp, const char* fmt, va_list ap) {
  char sb[8192]; int k = vsnprintf(sb, sizeof sb, fmt, ap);
  return k < 0 ? k : fwrite_raw(fp, sb, strlen(sb));
}
int sim_fputs(const char* s, void* fp) { return fwrite_raw(fp, s, strlen(s)); }
int sim_fputc(int ch, void* fp) { char c = (char)ch; return fwrite_raw(fp, &c, 1) < 0 ? -1 : ch; }
size_t sim_fwrite(const void* p, size_t a, size_t b, void* fp) { int r = fwrite_raw(fp, (const char*)p, a * b); return r < 0 ? 0 : b; }
int sim_fflush(void* fp) { return fp && openf.count(fp) ? (((SimFile*)fp)->err ? -1 : 0) : 0; }
int sim_ferror(void* fp) { return openf.count(fp) ? ((SimFile*)fp)->err : 0; }
int sim_remove(const char* p) { vfs.erase(p); return 0; }
int sim_unlink(const char* p) { vfs.erase(p); return 0; }
int sim_putc(int ch, void* fp) { return sim_fputc(ch, fp); }
int sim__IO_putc(int ch, void* fp) { return sim_fputc(ch, fp); }
int sim_setvbuf(void*, char*, int, size_t) { return 0; }
long sim_ftell(void* fp) { return openf.count(fp) ? (long)vfs[((SimFile*)fp)->name].data.size() : -1; }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** out, size_t, size_t n) { void* p = sim_malloc(n); if (!p && n) return ENOMEM; *out = p; return 0; }
int sim_timespec_get(struct timespec* ts, int base) { sim_clock_gettime(CLOCK_REALTIME, ts); return base; }

// ---- locks: only one simulated thread runs at a time, so a lock that is taken means somebody else has to run first -----
static void yield_now() { Thr* c = cur; if (c && c->in_call) { if (++c->tr.edges >= EDGE_LIMIT) edge_event(c); if (thrs.size() > 1) switch_from(c, 7); } }
int sim_sched_yield(void) { yield_now(); return 0; }
int sim_pthread_yield(void) { yield_now(); return 0; }
void sim_thrd_yield(void) { yield_now(); }
int sim_pthread_mutex_trylock(void* m) { return locks.insert(m).second ? 0 : EBUSY; }
int sim_pthread_mutex_lock(void* m) { while (!locks.insert(m).second) yield_now(); return 0; }
int sim_pthread_mutex_unlock(void* m) { locks.erase(m); return 0; }
int sim_pthread_spin_trylock(void* m) { return sim_pthread_mutex_trylock(m); }
int sim_pthread_spin_lock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_spin_unlock(void* m) { return sim_pthread_mutex_unlock(m); }
int sim_mtx_trylock(void* m) { return sim_pthread_mutex_trylock(m); }
int sim_mtx_lock(void* m) { return sim_pthread_mutex_lock(m); }
int sim_mtx_unlock(void* m) { return sim_pthread_mutex_unlock(m); }
int sim_pthread_once(void* o, void (*fn)(void)) {
  auto it = onces.find(o);
  if (it == onces.end()) { onces[o] = false; fn(); onces[o] = true; return 0; }
  while (!onces[o]) yield_now();
  return 0;
}
void sim_call_once(void* o, void (*fn)(void)) { sim_pthread_once(o, fn); }
}
