// Simulator core: cooperative scheduler over real threads, simulated clock,
// happens-before race detection, heap checking and fault injection.
// Compiled WITHOUT -fsanitize=thread; the code under test is compiled WITH it
// (compile step only), so every memory access, atomic and synchronisation
// operation of the code under test arrives in the callbacks below.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>

namespace sim {
namespace {
constexpr int MAXT = 62;
constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 2ull << 30;
constexpr uintptr_t GMAP = 0x110000000000ull;    // 1 byte per granule
constexpr uintptr_t SYNCMAP = 0x111000000000ull; // 1 byte per granule
constexpr uintptr_t SHADOW = 0x120000000000ull;  // 32 bytes per granule
constexpr uintptr_t STK = 0x130000000000ull, STK_EACH = 1ull << 20, STK_SZ = STK_EACH * 64;
constexpr uintptr_t STK_SHADOW = 0x131000000000ull;
constexpr uintptr_t DATA_SHADOW = 0x132000000000ull;
constexpr uintptr_t MSTK_SHADOW = 0x133000000000ull;
constexpr uintptr_t MSTK_SZ = 8ull << 20;
constexpr int QUAR_BYTES = 48 << 20;

struct VC { uint32_t c[MAXT + 2]; };
inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

enum State { ST_NONE, ST_RUN, ST_BLOCKED, ST_DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_GUARD, W_SLEEP };
struct Thread {
  int id{0};
  State st{ST_NONE};
  WaitKind wk{W_NONE};
  uintptr_t waddr{0};
  int64_t wake_at{-1};   // timed wait
  bool timed_out{false};
  bool signalled{false};
  int go{0};
  pthread_t pt{};
  VC vc, acq_pending, rel_fence;
  bool has_acq{false}, has_rel{false};
  int sut{0}, harness{0};
  bool nofault{false};
  int64_t prio{0};
  int64_t stalled_until{0};
  int cs_n{0};
  uintptr_t cs[512];
  void* (*fn)(void*){nullptr};
  void* arg{nullptr};
  bool detached{false};
};
struct SyncVar { uintptr_t key; VC vc; int owner; int count; SyncVar* next; };
constexpr int NB = 1 << 14;

struct Stat {
  bool on{false}, multi{false}, races{false}, faults_on{false};
  int n{1}, cur{0};
  Thread* t[MAXT + 2];
  SyncVar* tab[NB];
  int64_t step{0}, max_steps{0}, limit{0};
  int64_t run_len{0};
  int64_t now{0}, now0{0}, wall_off{0};
  int64_t plain_left{0};
  int devpos{0};
  int64_t n_alloc{0}, n_cond{0}, n_clock{0}, n_thread{0}, n_read{0}, n_sigaction{0};
  int64_t read_bytes{0};
  int64_t live_b{0}, live_n{0};
  uint64_t hash{1469598103934665603ull}, shash{1469598103934665603ull};
  int64_t pct_next{-1};
  int64_t pct_low{0};
  int64_t alloc_burst{0};
  struct { void (*h)(int); int flags; sigset_t mask; } sig[65];
} S;
Plan* P = nullptr;     // current plan
Rng* R = nullptr;      // scheduling PRNG
Rng* RP = nullptr;     // where plain-access preemption points fall
Result* RES = nullptr;
Result dummy_res;
thread_local Thread* me = nullptr;
pthread_key_t exit_key;
uintptr_t data_lo, data_hi, mstk_hi;
Fault* FT = nullptr; int nFT = 0;
Dev* DV = nullptr; int nDV = 0;
int64_t pct_points[64]; int n_pct = 0;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
void fwait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
inline void mix(uint64_t& h, uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }

template <class F> F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

SyncVar* sync_find(uintptr_t a, bool create) {
  unsigned b = unsigned((a * 0x9E3779B97F4A7C15ull) >> 50) & (NB - 1);
  for (SyncVar* s = S.tab[b]; s; s = s->next) if (s->key == a) return s;
  if (!create) return nullptr;
  SyncVar* s = static_cast<SyncVar*>(calloc(1, sizeof(SyncVar)));
  s->key = a; s->owner = -1; s->next = S.tab[b]; S.tab[b] = s;
  if (a - ARENA < ARENA_SZ) reinterpret_cast<uint8_t*>(SYNCMAP)[(a - ARENA) >> 3] = 1;
  return s;
}
void sync_drop(uintptr_t a) {
  unsigned b = unsigned((a * 0x9E3779B97F4A7C15ull) >> 50) & (NB - 1);
  for (SyncVar** s = &S.tab[b]; *s; s = &(*s)->next)
    if ((*s)->key == a) { SyncVar* d = *s; *s = d->next; free(d); return; }
}
inline void tick(Thread* t) { ++t->vc.c[t->id]; }

void collect_pcs(Thread* t) {
  if (!t) return;
  int k = 0;
  for (int i = t->cs_n - 1; i >= 0 && k < 20; --i) if (i < 512) RES->pcs[k++] = t->cs[i];
  RES->npcs = k;
}
}  // namespace

const char* fault_name(int k) {
  static const char* n[] = {"none", "alloc_failure", "sigint", "spurious_wakeup", "clock_jump", "thread_stall",
                            "thread_create_failure", "read_error", "short_read", "truncated_input", "write_error",
                            "read_eintr", "sigaction_failure", "callback_throw", "corrupt_byte", "slow_callback"};
  return k > 0 && k < F_MAX ? n[k] : "none";
}
Result* result() { return RES; }
void set_result(Result* r) { RES = r; }

void fail(const char* cls, const char* fmt, ...) {
  S.on = false;
  if (!RES) RES = &dummy_res;
  snprintf(RES->cls, sizeof RES->cls, "%s", cls);
  va_list ap; va_start(ap, fmt);
  vsnprintf(RES->msg, sizeof RES->msg, fmt, ap);
  va_end(ap);
  if (RES->npcs == 0) collect_pcs(me);
  RES->steps = S.step; RES->hash = S.hash; RES->sched_hash = S.shash; RES->sim_ns = S.now - S.now0; RES->allocs = S.n_alloc;
  RES->done = 2;
  fflush(nullptr);
  raw_syscall(SYS_exit_group, 77, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
void probe(const char* name, int64_t n) {
  if (!RES) return;
  for (int i = 0; i < RES->nprobes; ++i) if (!strcmp(RES->probes[i].name, name)) { RES->probes[i].n += n; return; }
  if (RES->nprobes < 64) {
    int i = RES->nprobes++;
    snprintf(RES->probes[i].name, sizeof RES->probes[i].name, "%s", name);
    RES->probes[i].n = n;
  }
}
void note(uint64_t h) { mix(S.hash, h); }
void note(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) mix(S.hash, (unsigned char)s[i]); }
int64_t steps() { return S.step; }
int64_t now_ns() { return S.now; }
void advance_clock(int64_t ns) { if (ns > 0) S.now += ns; }
void set_wall_offset(int64_t ns) { S.wall_off = ns; }
int self() { return me ? me->id : 0; }
int live_threads() { int k = 0; for (int i = 1; i < S.n; ++i) if (S.t[i]->st != ST_DONE) ++k; return k; }
int64_t live_blocks() { return S.live_n; }
int64_t live_bytes() { return S.live_b; }
int64_t sut_allocs() { return S.n_alloc; }
bool faults_enabled() { return S.faults_on && !(me && me->nofault); }
void enable_faults(bool b) { if (me) me->nofault = !b; }
static std::function<void(int)> g_at_exit;
void at_exit(std::function<void(int)> f) { g_at_exit = std::move(f); }
void stop_all_faults() { S.faults_on = false; }
uint64_t faults_fired() { uint64_t n = 0; if (RES) for (int i = 0; i < F_MAX; ++i) n += uint64_t(RES->fired[i]); return n; }
void fault_fired(int k) { if (RES && k > 0 && k < F_MAX) RES->fired[k]++; mix(S.hash, 7000 + k); }
bool g_masked[F_MAX];
void mask_fault(int kind, bool m) { g_masked[kind] = m; }
bool fault_due(int kind, int64_t ord, int64_t* b) {
  if (!S.on || !faults_enabled() || g_masked[kind]) return false;
  for (int i = 0; i < nFT; ++i)
    if (FT[i].kind == kind && FT[i].a == ord) { if (b) *b = FT[i].b; fault_fired(kind); return true; }
  return false;
}
SutScope::SutScope() { if (me) ++me->sut; }
SutScope::~SutScope() { if (me) --me->sut; }
HarnessScope::HarnessScope() { if (me) ++me->harness; }
HarnessScope::~HarnessScope() { if (me) --me->harness; }
void set_step_limit(int64_t extra) { S.limit = S.step + extra; }
void clear_step_limit() { S.limit = 0; }
void* sig_handler(int s) { return reinterpret_cast<void*>(S.sig[s].h); }
int sig_flags(int s) { return S.sig[s].flags; }
bool sig_masks(int s, int n) { return sigismember(&S.sig[s].mask, n) == 1; }

namespace {
// ---------------------------------------------------------------- scheduling
bool runnable(Thread* t) {
  if (t->st == ST_RUN) return true;
  if (t->st == ST_BLOCKED && t->wake_at >= 0 && t->wake_at <= S.now) return true;
  return false;
}
void make_ready(Thread* t) {
  if (t->st == ST_BLOCKED) {
    if (t->wake_at >= 0 && !t->signalled) t->timed_out = true;
    t->st = ST_RUN; t->wk = W_NONE; t->waddr = 0; t->wake_at = -1;
  }
}
int rr_next(int from) {
  for (int k = 1; k <= S.n; ++k) { int i = (from + k) % S.n; if (runnable(S.t[i]) && S.t[i]->stalled_until <= S.step) return i; }
  for (int k = 1; k <= S.n; ++k) { int i = (from + k) % S.n; if (runnable(S.t[i])) return i; }
  return -1;
}
void record_dev(int tid) {
  if (RES && RES->ndevs < (int)(sizeof RES->devs / sizeof RES->devs[0])) { RES->devs[RES->ndevs].step = S.step; RES->devs[RES->ndevs].tid = tid; RES->ndevs++; }
  else if (RES) RES->ndevs = 1 << 20;  // overflow: not minimisable
}
void switch_to(int n) {
  Thread* c = me;
  Thread* t = S.t[n];
  make_ready(t);
  if (t == c) { S.cur = n; return; }
  S.cur = n; S.run_len = 0;
  if (RES) RES->switches++;
  mix(S.shash, uint64_t(S.step) * 64 + n);
  mix(S.hash, 1000 + n);
  fwake(&t->go);
  if (c->st != ST_DONE) fwait(&c->go);
}
void deadlock() {
  char buf[2000]; int o = 0;
  static const char* wn[] = {"-", "mutex", "condvar", "futex", "join", "once", "guard", "sleep"};
  for (int i = 0; i < S.n && o < 1800; ++i)
    if (S.t[i]->st == ST_BLOCKED) o += snprintf(buf + o, sizeof buf - o, " T%d:%s", i, wn[S.t[i]->wk]);
  for (int i = 0; i < S.n; ++i) if (S.t[i]->st == ST_BLOCKED && i == 0) collect_pcs(S.t[i]);
  fail("deadlock", "no thread can make progress:%s", buf);
}
// choose who runs when the current one cannot
int pick_blocked() {
  for (;;) {
    int def = rr_next(me->id);
    if (def >= 0) {
      int n = def;
      if (P->replay) {
        while (S.devpos < nDV && DV[S.devpos].step < S.step) ++S.devpos;
        if (S.devpos < nDV && DV[S.devpos].step == S.step) {
          int w = DV[S.devpos++].tid;
          if (w < S.n && runnable(S.t[w])) n = w;
        }
      } else if (P->mode == 1) {
        int c[MAXT], k = 0;
        for (int i = 0; i < S.n; ++i) if (runnable(S.t[i]) && S.t[i]->stalled_until <= S.step) c[k++] = i;
        if (k > 1) n = c[R->below(k)];
        if (n != def) record_dev(n);
      } else if (P->mode == 2) {
        for (int i = 0; i < S.n; ++i) if (runnable(S.t[i]) && S.t[i]->stalled_until <= S.step && (n < 0 || S.t[i]->prio > S.t[n]->prio)) n = i;
        if (n != def) record_dev(n);
      }
      return n;
    }
    // nobody runnable: jump the clock to the next timer
    int64_t best = -1;
    for (int i = 0; i < S.n; ++i) if (S.t[i]->st == ST_BLOCKED && S.t[i]->wake_at >= 0 && (best < 0 || S.t[i]->wake_at < best)) best = S.t[i]->wake_at;
    if (best < 0) deadlock();
    S.now = best > S.now ? best : S.now;
  }
}
int64_t sig_left = 0;
void step_faults() {
  if (!faults_enabled()) return;
  for (int i = 0; i < nFT; ++i) {
    Fault& f = FT[i];
    if (f.kind == F_SIGINT && f.b == 2) {  // a deadline: the a-th step after each installation of a handler
      void (*h)(int) = S.sig[SIGINT].h;
      if (h == SIG_DFL || h == SIG_IGN || h == nullptr || me->sut <= 0 || me->harness) continue;
      if (f.c != S.n_sigaction) { sig_left = f.a; f.c = S.n_sigaction; }
      if (sig_left >= 0 && sig_left-- == 0) { fault_fired(F_SIGINT); h(SIGINT); }
    } else if (f.kind == F_SIGINT && f.b == 1 && f.a >= 0) {  // a-th step while a handler is installed
      void (*h)(int) = S.sig[SIGINT].h;
      if (h == SIG_DFL || h == SIG_IGN || h == nullptr || me->sut <= 0 || me->harness || f.a-- > 0) continue;
      fault_fired(F_SIGINT); h(SIGINT);
    } else if (f.kind == F_SIGINT && f.b == 0 && f.a >= 0 && S.step >= f.a && me->sut > 0 && me->harness == 0) {
      f.a = -1;
      fault_fired(F_SIGINT);
      void (*h)(int) = S.sig[SIGINT].h;
      if (h == SIG_DFL) probe("sigint_default_action");
      else if (h != SIG_IGN && h != nullptr) h(SIGINT);
    } else if (f.kind == F_STALL && f.a >= 0 && S.step >= f.a) {
      f.a = -1;
      if (f.b < S.n && S.t[f.b]->st != ST_DONE) { S.t[f.b]->stalled_until = S.step + f.c; fault_fired(F_STALL); }
    }
  }
}
void sched_point(int kind) {
  Thread* c = me;
  ++S.step; ++S.run_len;
  S.now += 20;
  mix(S.hash, uint64_t(kind) * 64 + c->id);
  if (S.step > S.max_steps) fail("liveness", "no completion within %lld simulated steps", (long long)S.max_steps);
  if (S.limit && S.step > S.limit && c->harness == 0) fail("liveness", "operation did not complete within its step bound (%lld)", (long long)S.limit);
  if (c->harness) return;
  if (nFT) step_faults();
  if (S.n == 1) return;
  int n = c->id;
  if (P->replay) {
    while (S.devpos < nDV && DV[S.devpos].step < S.step) ++S.devpos;
    if (S.devpos < nDV && DV[S.devpos].step == S.step) {
      int w = DV[S.devpos++].tid;
      if (w < S.n && runnable(S.t[w])) n = w;
    }
  } else if (P->mode == 1) {
    if (R->below(1000) < P->p1000) {
      int cand[MAXT], k = 0;
      for (int i = 0; i < S.n; ++i) if (i != c->id && runnable(S.t[i]) && S.t[i]->stalled_until <= S.step) cand[k++] = i;
      if (k) n = cand[R->below(k)];
    }
    if (n != c->id) record_dev(n);
  } else if (P->mode == 2) {
    for (int i = 0; i < n_pct; ++i) if (pct_points[i] == S.step) c->prio = --S.pct_low;
    for (int i = 0; i < S.n; ++i) if (runnable(S.t[i]) && S.t[i]->stalled_until <= S.step && S.t[i]->prio > S.t[n]->prio) n = i;
    if (n != c->id) record_dev(n);
  }
  if (n == c->id && (S.run_len > 1500 || c->stalled_until > S.step)) {  // fairness, also of the default schedule
    int m = rr_next(c->id);
    if (m >= 0 && m != c->id) n = m;
    if (P->mode == 2) c->prio = --S.pct_low;
    S.run_len = 0;
  }
  if (n != c->id) { if (RES) RES->preempts++; switch_to(n); }
}
void block(WaitKind k, uintptr_t a, int64_t deadline = -1) {
  Thread* c = me;
  ++S.step; S.now += 20;
  mix(S.hash, 900 + k);
  if (S.step > S.max_steps) fail("liveness", "no completion within %lld simulated steps", (long long)S.max_steps);
  c->st = ST_BLOCKED; c->wk = k; c->waddr = a; c->wake_at = deadline; c->timed_out = false; c->signalled = false;
  int n = pick_blocked();
  switch_to(n);
}
// wakes up to `n` waiters; the PRNG (or default order) chooses which
int wake(WaitKind k, uintptr_t a, int n) {
  int done = 0;
  for (;;) {
    int c[MAXT], m = 0;
    for (int i = 0; i < S.n; ++i) { Thread* t = S.t[i]; if (t->st == ST_BLOCKED && t->wk == k && t->waddr == a && !t->signalled) c[m++] = i; }
    if (!m || done >= n) return done;
    Thread* t = S.t[c[0]];  // FIFO by id; interleaving randomness comes from the scheduler
    t->signalled = true; t->st = ST_RUN; t->wk = W_NONE; t->waddr = 0; t->wake_at = -1;
    ++done;
  }
}
inline bool simulated() { return S.on && me; }

// ---------------------------------------------------------------- race detection
struct Slot { uint64_t v; };
// layout: pc:26 | tid:6 | clk:22 | mask:8 | w:1 | at:1
inline uint64_t mk(uint64_t pc, int tid, uint32_t clk, uint8_t mask, bool w, bool at) {
  return (pc & 0x3ffffff) << 38 | uint64_t(tid) << 32 | uint64_t(clk & 0x3fffff) << 10 | uint64_t(mask) << 2 | uint64_t(w) << 1 | uint64_t(at);
}
uint64_t* shadow_of(uintptr_t a) {
  if (a - ARENA < ARENA_SZ) return reinterpret_cast<uint64_t*>(SHADOW + ((a - ARENA) >> 3) * 32);
  if (a - STK < STK_SZ) return reinterpret_cast<uint64_t*>(STK_SHADOW + ((a - STK) >> 3) * 32);
  if (a >= data_lo && a < data_hi) return reinterpret_cast<uint64_t*>(DATA_SHADOW + ((a - data_lo) >> 3) * 32);
  if (a < mstk_hi && a >= mstk_hi - MSTK_SZ) return reinterpret_cast<uint64_t*>(MSTK_SHADOW + ((a - (mstk_hi - MSTK_SZ)) >> 3) * 32);
  return nullptr;
}
const char* region_of(uintptr_t a) {
  if (a - ARENA < ARENA_SZ) return "heap";
  if (a - STK < STK_SZ) return "stack";
  if (a >= data_lo && a < data_hi) return "static";
  return "main-stack";
}
[[noreturn]] void race_fail(uintptr_t a, uint64_t old, uintptr_t pc, bool w, bool at) {
  Thread* c = me;
  collect_pcs(c);
  int k = RES->npcs; for (int i = k; i > 0; --i) if (i + 1 < 24) RES->pcs[i + 1] = RES->pcs[i - 1];
  RES->pcs[0] = pc; RES->pcs[1] = (old >> 38) | (pc & ~0x3ffffffull); RES->npcs = (k + 2 > 24 ? 24 : k + 2);
  fail("data-race", "unsynchronised accesses to %s memory: thread %d %s%s vs earlier %s%s by thread %d", region_of(a), c->id,
       at ? "atomic " : "", w ? "write" : "read", (old & 1) ? "atomic " : "", (old >> 1 & 1) ? "write" : "read", int(old >> 32 & 63));
}
void race_granule(uintptr_t g, uint8_t mask, bool w, bool at, uintptr_t pc) {
  uint64_t* s = shadow_of(g);
  if (!s) return;
  Thread* c = me;
  const uint64_t neu = mk(pc, c->id, c->vc.c[c->id], mask, w, at);
  int place = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t o = s[i];
    if (!o) { if (place < 0) place = i; continue; }
    uint8_t om = o >> 2; int ot = o >> 32 & 63; bool ow = o >> 1 & 1, oa = o & 1;
    if (!(om & mask)) continue;
    if (ot == c->id) {
      if (om == mask && oa == at && (w || !ow)) { place = i; }  // same or stronger: replace
      continue;
    }
    uint32_t oc = o >> 10 & 0x3fffff;
    if (oc > c->vc.c[ot]) {
      if ((w || ow) && !(at && oa)) race_fail(g, o, pc, w, at);
    } else if (w) {
      // ordered before us and overwritten by a write: slot may be reused
      if (om == mask && place < 0) place = i;
    }
  }
  if (place < 0) place = (S.step + (g >> 3)) & 3;
  s[place] = neu;
}
void heap_bad(uintptr_t a, int size, bool w, uint8_t st) {
  fail(st == 0xFD ? "use-after-free" : "heap-overflow", "%s of %d bytes at %s heap memory", w ? "write" : "read", size,
       st == 0xFD ? "freed" : "unallocated");
}
inline void heap_check(uintptr_t a, int size, bool w) {
  if (a - ARENA < ARENA_SZ) {
    const uint8_t* g = reinterpret_cast<const uint8_t*>(GMAP);
    uint8_t s0 = g[(a - ARENA) >> 3], s1 = g[(a + size - 1 - ARENA) >> 3];
    if (s0 == 8 && s1 == 8) return;
    if (s0 == 0 || s0 == 0xFD) heap_bad(a, size, w, s0);
    if (s1 == 0 || s1 == 0xFD) heap_bad(a, size, w, s1);
    if (s1 < 8 && ((a + size - 1) & 7) >= s1) heap_bad(a, size, w, 0);
  }
}
void access(uintptr_t a, int size, bool w, bool at, uintptr_t pc) {
  if (!simulated() || me->harness) return;
  heap_check(a, size, w);
  if (S.multi && S.races) {
    uintptr_t end = a + size;
    for (uintptr_t g = a & ~7ull; g < end; g += 8) {
      unsigned lo = g < a ? unsigned(a - g) : 0, hi = end - g < 8 ? unsigned(end - g) : 8;
      race_granule(g, uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1)), w, at, pc);
    }
  }
}
inline void plain(uintptr_t a, int size, bool w, void* pc) {
  if (!simulated() || me->harness) return;
  access(a, size, w, false, reinterpret_cast<uintptr_t>(pc));
  if (S.plain_left && --S.plain_left == 0) {
    S.plain_left = 1 + RP->below(2 * P->plain_mean);
    sched_point(1);
  }
}
// ---------------------------------------------------------------- heap
struct Hdr { uint32_t size; uint32_t magic; uint32_t cls; uint32_t pad; };
constexpr uint32_t LIVE = 0xA110C8ED, DEAD = 0xDEADBEEF;
uintptr_t brk_ = 0;
struct QN { QN* next; };
QN* fl_head[4096]; 
struct QEnt { Hdr* h; };
QEnt* quar = nullptr; size_t q_head = 0, q_tail = 0, q_cap = 0; int64_t q_bytes = 0;
bool heap_ready = false;
void* must_map(uintptr_t at, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) { static const char m[] = "sim: mmap failed\n"; raw_syscall(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); raw_syscall(SYS_exit_group, 99, 0, 0, 0, 0, 0); }
  return p;
}
void heap_init() {
  heap_ready = true;
  must_map(ARENA, ARENA_SZ);
  must_map(GMAP, ARENA_SZ / 8);
  must_map(SYNCMAP, ARENA_SZ / 8);
  must_map(SHADOW, ARENA_SZ * 4);
  must_map(STK, STK_SZ);
  must_map(STK_SHADOW, STK_SZ * 4);
  must_map(MSTK_SHADOW, MSTK_SZ * 4);
  brk_ = ARENA + 64;
}
uint32_t blk_bytes(size_t n) {
  size_t t = (n + sizeof(Hdr) + 16 + 15) & ~size_t(15);
  if (t > 65536) t = (t + 4095) & ~size_t(4095);
  return uint32_t(t);
}
void set_gmap(uintptr_t a, size_t n, bool live) {
  uint8_t* g = reinterpret_cast<uint8_t*>(GMAP) + ((a - ARENA) >> 3);
  size_t full = n >> 3;
  if (live) { memset(g, 8, full); if (n & 7) g[full] = n & 7; }
  else memset(g, 0xFD, full + ((n & 7) ? 1 : 0));
}
// debugging aid (SIM_LEAKS=1 with `replay`): where live blocks were allocated
struct LeakRec { uintptr_t p; int n; int64_t ord; size_t size; int harness; uintptr_t pc[12]; };
constexpr size_t LEAKS = 1 << 17;
uint32_t heap_serial = 0, heap_mark = 0; uintptr_t run_heap = 0;
bool leak_dbg = false; LeakRec* leak_tab = nullptr; size_t leak_n = 0;
void* heap_alloc(size_t n) {
  if (!heap_ready) heap_init();
  if (n > (512u << 20)) return nullptr;
  uint32_t t = blk_bytes(n);
  uint32_t cls = t / 16;
  Hdr* h = nullptr;
  if (cls < 4096 && fl_head[cls]) { h = reinterpret_cast<Hdr*>(fl_head[cls]); fl_head[cls] = fl_head[cls]->next; }
  else {
    if (brk_ + t > ARENA + ARENA_SZ) return nullptr;
    h = reinterpret_cast<Hdr*>(brk_); brk_ += t;
  }
  h->size = uint32_t(n); h->magic = LIVE; h->cls = cls; h->pad = ++heap_serial;
  uintptr_t u = reinterpret_cast<uintptr_t>(h + 1);
  set_gmap(u, n, true);
  if (S.multi && S.races) memset(reinterpret_cast<void*>(SHADOW + ((u - ARENA) >> 3) * 32), 0, ((n + 7) >> 3) * 32);
  S.live_n++; S.live_b += n;
  if (leak_dbg && me && S.on) {
    LeakRec& r = leak_tab[leak_n++ % LEAKS]; r.p = u; r.n = me->cs_n < 12 ? me->cs_n : 12; r.ord = S.n_alloc; r.size = n; r.harness = me->harness;
    for (int i = 0; i < r.n; ++i) r.pc[i] = me->cs[me->cs_n - 1 - i];
  }
  return reinterpret_cast<void*>(u);
}
void heap_free(void* p) {
  if (!p) return;
  uintptr_t u = reinterpret_cast<uintptr_t>(p);
  if (u - ARENA >= ARENA_SZ) { free(p); return; }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  if (h->magic != LIVE) fail(h->magic == DEAD ? "double-free" : "bad-free", "operator delete of a block that is not live");
  size_t n = h->size;
  if (simulated() && S.multi && S.races && !me->harness) {
    uintptr_t pc = me->cs_n > 0 && me->cs_n <= 512 ? me->cs[me->cs_n - 1] : 0;
    for (uintptr_t g = u; g < u + n; g += 8) { unsigned hi = u + n - g < 8 ? unsigned(u + n - g) : 8; race_granule(g, uint8_t((1u << hi) - 1), true, false, pc); }
  }
  uint8_t* sm = reinterpret_cast<uint8_t*>(SYNCMAP) + ((u - ARENA) >> 3);
  for (size_t i = 0; i < (n + 7) / 8; ++i) if (sm[i]) { sm[i] = 0; for (int b = 0; b < 8; ++b) sync_drop(u + i * 8 + b); }
  h->magic = DEAD;
  set_gmap(u, n, false);
  S.live_n--; S.live_b -= n;
  if (h->cls < 4096) {
    if (q_tail - q_head >= q_cap) {
      size_t nc = q_cap ? q_cap * 2 : 4096;
      QEnt* nq = static_cast<QEnt*>(malloc(nc * sizeof(QEnt)));
      for (size_t i = q_head; i < q_tail; ++i) nq[i % nc] = quar[i % q_cap];
      free(quar); quar = nq; q_cap = nc;
    }
    quar[q_tail++ % q_cap].h = h; q_bytes += h->cls * 16;
    while (q_bytes > QUAR_BYTES) {
      Hdr* o = quar[q_head++ % q_cap].h; q_bytes -= o->cls * 16;
      uint32_t c = o->cls;
      reinterpret_cast<QN*>(o)->next = fl_head[c]; fl_head[c] = reinterpret_cast<QN*>(o);
    }
  }
}
bool alloc_fault() {
  if (!simulated() || me->harness || me->sut <= 0) return false;
  int64_t ord = ++S.n_alloc;
  if (!faults_enabled() || !nFT) return false;
  if (S.alloc_burst > 0) { --S.alloc_burst; fault_fired(F_ALLOC); return true; }
  for (int i = 0; i < nFT; ++i)
    if (FT[i].kind == F_ALLOC && FT[i].a == ord) { S.alloc_burst = FT[i].b > 0 ? FT[i].b - 1 : 0; fault_fired(F_ALLOC); return true; }
  return false;
}
}  // namespace

bool is_heap_live(const void* p) {
  uintptr_t u = reinterpret_cast<uintptr_t>(p);
  return u - ARENA < ARENA_SZ && reinterpret_cast<uint8_t*>(GMAP)[(u - ARENA) >> 3] != 0xFD && reinterpret_cast<uint8_t*>(GMAP)[(u - ARENA) >> 3] != 0;
}
void leak_mark() { leak_n = 0; heap_mark = heap_serial; if (getenv("SIM_LEAKS")) { if (!leak_tab) leak_tab = static_cast<LeakRec*>(malloc(sizeof(LeakRec) * LEAKS)); leak_dbg = true; } }
void leak_dump() {
  if (!leak_dbg) return;
  for (size_t i = 0; i < leak_n && i < LEAKS; ++i) {
    LeakRec& r = leak_tab[i];
    if (!is_heap_live(reinterpret_cast<void*>(r.p))) continue;
    bool later = false; for (size_t k = i + 1; k < leak_n && k < LEAKS; ++k) if (leak_tab[k].p == r.p) later = true;
    if (later) continue;
    fprintf(stderr, "LIVE %zu bytes, allocation %lld harness=%d:", r.size, (long long)r.ord, r.harness);
    for (int j = 0; j < r.n; ++j) fprintf(stderr, " %lx", (unsigned long)r.pc[j]);
    fprintf(stderr, "\n");
  }
}
void yield_point() { if (simulated()) sched_point(2); }

extern "C" char __data_start, _end;
// Blocks allocated since leak_mark() that are live and that neither static storage nor an older block leads to.
// (What code keeps for the rest of the process, such as a table built on first use, is not lost.)
int64_t leaked() {
  struct B { uintptr_t u; uint32_t n; bool mark; };
  std::vector<B> b; std::vector<std::pair<uintptr_t, uintptr_t>> todo;
  auto walk = [&](uintptr_t from, uintptr_t to) {
    for (uintptr_t a = from; a + sizeof(Hdr) <= to;) {
      Hdr* h = reinterpret_cast<Hdr*>(a); if (!h->cls) break;
      if (h->magic == LIVE) { if (h->pad > heap_mark) b.push_back({a + sizeof(Hdr), h->size, false}); else todo.push_back({a + sizeof(Hdr), a + sizeof(Hdr) + h->size}); }
      a += uintptr_t(h->cls) * 16;
    }
  };
  walk(run_heap, brk_);
  if (b.empty()) return 0;
  todo.push_back({reinterpret_cast<uintptr_t>(&__data_start), reinterpret_cast<uintptr_t>(&_end)});
  while (!todo.empty()) {
    auto r = todo.back(); todo.pop_back();
    for (uintptr_t a = (r.first + 7) & ~7ull; a + 8 <= r.second; a += 8) {
      uintptr_t v = *reinterpret_cast<uintptr_t*>(a);
      if (v - ARENA >= ARENA_SZ) continue;
      auto it = std::upper_bound(b.begin(), b.end(), v, [](uintptr_t x, const B& y) { return x < y.u; });
      if (it == b.begin()) continue; --it;
      if (it->mark || v >= it->u + (it->n ? it->n : 1)) continue;
      it->mark = true; todo.push_back({it->u, it->u + it->n});
    }
  }
  int64_t n = 0; for (auto& x : b) n += !x.mark;
  if (n) leak_dump();
  return n;
}
void begin(const Plan& plan) {
  if (!heap_ready) heap_init();
  // The run's heap starts at a fixed address with empty free lists, whatever this process did before.
  if (brk_ < ARENA + ARENA_SZ / 2) brk_ = ARENA + ARENA_SZ / 2;
  run_heap = brk_;
  memset(fl_head, 0, sizeof fl_head); q_head = q_tail = 0; q_bytes = 0;
  data_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull; data_hi = reinterpret_cast<uintptr_t>(&_end);
  static bool mapped = false;
  if (!mapped) { must_map(DATA_SHADOW, ((data_hi - data_lo) * 4 + 8191) & ~4095ull); mapped = true; }
  {
    char here; mstk_hi = (reinterpret_cast<uintptr_t>(&here) + 65536) & ~7ull;
    pthread_attr_t at; void* lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); mstk_hi = reinterpret_cast<uintptr_t>(lo) + sz; pthread_attr_destroy(&at); }
  }
  P = new Plan(plan);
  R = new Rng(plan.seed ^ 0x5ced5eedull);
  nFT = int(P->faults.size()); FT = P->faults.data();
  nDV = int(P->devs.size()); DV = P->devs.data();
  S.max_steps = P->max_steps; S.races = P->races;
  S.now = 1000000000ll; S.now0 = S.now;
  for (auto& o : P->ops) { mix(S.hash, o.k); mix(S.hash, o.a); mix(S.hash, o.b); mix(S.hash, o.c); mix(S.hash, o.d); }
  for (auto& f : P->faults) { mix(S.hash, f.kind); mix(S.hash, f.a); mix(S.hash, f.b); mix(S.hash, f.c); }
  for (auto& kv : P->params) { note(kv.first); mix(S.hash, kv.second); }
  n_pct = 0;
  if (P->mode == 2 && !P->replay) for (int i = 0; i < P->pct_k && n_pct < 64; ++i) pct_points[n_pct++] = 1 + R->below(P->pct_len);
  RP = new Rng(plan.seed ^ 0x91a1acce55ull);
  if (P->plain_mean > 0) S.plain_left = 1 + RP->below(2 * P->plain_mean);
  static Thread t0;
  t0.id = 0; t0.st = ST_RUN; t0.pt = pthread_self(); t0.prio = 1000; t0.vc.c[0] = 1;
  if (P->mode == 2 && !P->replay) t0.prio = 1000 + R->below(1000);
  S.t[0] = &t0; S.n = 1; S.cur = 0; me = &t0;
  for (auto& s : S.sig) { s.h = SIG_DFL; s.flags = 0; }
  pthread_key_create(&exit_key, [](void* v) {
    Thread* t = static_cast<Thread*>(v);
    // all thread_local destructors have run
    t->st = ST_DONE;
    tick(t);
    wake(W_JOIN, uintptr_t(t->id), 100);
    int n = pick_blocked();
    S.run_len = 0; S.cur = n;
    Thread* u = S.t[n];
    make_ready(u);
    mix(S.shash, uint64_t(S.step) * 64 + n);
    mix(S.hash, 2000 + n);
    me = nullptr;
    fwake(&u->go);
  });
  S.faults_on = true;
  S.on = true;
}
void end() {
  S.on = false;
  if (RES) { RES->steps = S.step; RES->hash = S.hash; RES->sched_hash = S.shash; RES->sim_ns = S.now - S.now0; RES->allocs = S.n_alloc; }
}
}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------ operator new
static size_t g_alloc_max = ~size_t(0);
namespace sim { void alloc_faults_up_to(size_t n) { g_alloc_max = n; } }
static void* op_new(size_t n) {
  if (n <= g_alloc_max && alloc_fault()) throw std::bad_alloc();
  void* p = heap_alloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_fault() ? nullptr : heap_alloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_fault() ? nullptr : heap_alloc(n ? n : 1); }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void* operator new(size_t n, std::align_val_t) { return op_new((n + 15) & ~size_t(15)); }
void* operator new[](size_t n, std::align_val_t) { return op_new((n + 15) & ~size_t(15)); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p); }

// ------------------------------------------------------------------ tsan callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Thread* t = me; if (!t) return;
  if (t->cs_n < 512) t->cs[t->cs_n] = reinterpret_cast<uintptr_t>(pc);
  ++t->cs_n;
}
void __tsan_func_exit() { Thread* t = me; if (t && t->cs_n > 0) --t->cs_n; }
#define RW(N) \
  void __tsan_read##N(void* a) { plain((uintptr_t)a, N, false, PC); } \
  void __tsan_write##N(void* a) { plain((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { plain((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { plain((uintptr_t)a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { plain((uintptr_t)a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { plain((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n && simulated() && !me->harness) { for (unsigned long o = 0; o < n; o += 8) access((uintptr_t)a + o, int(n - o < 8 ? n - o : 8), false, false, (uintptr_t)PC); } }
void __tsan_write_range(void* a, unsigned long n) { if (n && simulated() && !me->harness) { for (unsigned long o = 0; o < n; o += 8) access((uintptr_t)a + o, int(n - o < 8 ? n - o : 8), true, false, (uintptr_t)PC); } }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) plain((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { plain((uintptr_t)a, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { return memcpy(d, s, n); }
}

namespace {
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ };
inline bool is_acq(int mo) { return mo == MO_CONSUME || mo == MO_ACQUIRE || mo == MO_ACQ_REL || mo == MO_SEQ; }
inline bool is_rel(int mo) { return mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ; }
void a_pre(volatile void* a, int size, bool w, void* pc) {
  if (!simulated() || me->harness) return;
  sched_point(3);
  access((uintptr_t)a, size, w, true, (uintptr_t)pc);
}
void a_load(volatile void* a, int mo) {
  if (!simulated() || !S.multi) return;
  SyncVar* s = sync_find((uintptr_t)a, false);
  if (!s) return;
  if (is_acq(mo)) vc_join(me->vc, s->vc);
  else { vc_join(me->acq_pending, s->vc); me->has_acq = true; }
}
void a_store(volatile void* a, int mo, bool rmw) {
  if (!simulated()) return;
  SyncVar* s = sync_find((uintptr_t)a, true);
  if (is_rel(mo)) { if (!rmw) s->vc = me->vc; else vc_join(s->vc, me->vc); tick(me); }
  else {
    if (me->has_rel) { if (!rmw) s->vc = me->rel_fence; else vc_join(s->vc, me->rel_fence); }
    else if (!rmw) memset(&s->vc, 0, sizeof s->vc);
  }
}
template <class T> T at_load(const volatile T* a, int mo, void* pc) { a_pre((volatile void*)a, sizeof(T), false, pc); T v = *a; a_load((volatile void*)a, mo); return v; }
template <class T> void at_store(volatile T* a, T v, int mo, void* pc) { a_pre(a, sizeof(T), true, pc); a_store(a, mo, false); *a = v; }
template <class T, class F> T at_rmw(volatile T* a, int mo, void* pc, F f) {
  a_pre(a, sizeof(T), true, pc);
  T old = *a; a_load(a, mo); a_store(a, mo, true); *a = f(old); return old;
}
template <class T> int at_cas(volatile T* a, T* c, T v, int mo, int fmo, void* pc) {
  a_pre(a, sizeof(T), true, pc);
  if (*a == *c) { a_load(a, mo); a_store(a, mo, true); *a = v; return 1; }
  *c = *a; a_load(a, fmo); return 0;
}
}  // namespace
#define ATOM(N, T) \
  extern "C" T __tsan_atomic##N##_load(const volatile T* a, int mo) { return at_load<T>(a, mo, PC); } \
  extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo, PC); } \
  extern "C" T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T) { return v; }); } \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(o + v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(o - v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(o & v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(o | v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(o ^ v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [&](T o) { return T(~(o & v)); }); } \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return at_cas<T>(a, c, v, mo, fmo, PC); } \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return at_cas<T>(a, c, v, mo, fmo, PC); } \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_cas<T>(a, &c, v, mo, fmo, PC); return c; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!simulated()) return;
  sched_point(4);
  if (is_acq(mo) && me->has_acq) vc_join(me->vc, me->acq_pending);
  if (is_rel(mo)) { me->rel_fence = me->vc; me->has_rel = true; tick(me); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ static-local guards
namespace {
bool guard_done(const long long int* g) { return *reinterpret_cast<const char*>(g) == 1; }
}
extern "C" int __cxa_guard_acquire(long long int* g) {
  char* b = reinterpret_cast<char*>(g);
  if (guard_done(g)) return 0;
  if (!simulated()) { b[1] = 1; return 1; }
  sched_point(5);
  while (!guard_done(g) && b[1]) {
    if (b[2] == me->id + 1) fail("recursive-init", "recursive initialisation of a function-local static");
    block(W_GUARD, (uintptr_t)g);
  }
  if (guard_done(g)) { SyncVar* s = sync_find((uintptr_t)g, true); vc_join(me->vc, s->vc); return 0; }
  b[1] = 1; b[2] = char(me->id + 1);
  SyncVar* s = sync_find((uintptr_t)g, true); vc_join(me->vc, s->vc);
  return 1;
}
extern "C" void __cxa_guard_release(long long int* g) {
  char* b = reinterpret_cast<char*>(g);
  b[0] = 1; b[1] = 0; b[2] = 0;
  if (!simulated()) return;
  SyncVar* s = sync_find((uintptr_t)g, true); vc_join(s->vc, me->vc); tick(me);
  wake(W_GUARD, (uintptr_t)g, 100);
}
extern "C" void __cxa_guard_abort(long long int* g) {
  char* b = reinterpret_cast<char*>(g);
  b[1] = 0; b[2] = 0;
  if (!simulated()) return;
  SyncVar* s = sync_find((uintptr_t)g, true); vc_join(s->vc, me->vc); tick(me);
  wake(W_GUARD, (uintptr_t)g, 100);
}

// ------------------------------------------------------------------ pthread
namespace {
void mx_lock(uintptr_t a, int kind) {
  SyncVar* s = sync_find(a, true);
  if (s->owner == me->id) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { ++s->count; return; }
    fail("self-deadlock", "thread %d locks a mutex it already holds", me->id);
  }
  while (s->owner >= 0) { block(W_MUTEX, a); s = sync_find(a, true); }
  s->owner = me->id; s->count = 1; vc_join(me->vc, s->vc);
}
void mx_unlock(uintptr_t a) {
  SyncVar* s = sync_find(a, true);
  if (s->owner != me->id) fail("bad-unlock", "thread %d unlocks a mutex it does not hold", me->id);
  if (--s->count > 0) return;
  s->owner = -1; vc_join(s->vc, me->vc); tick(me);
  wake(W_MUTEX, a, 100);
}
struct StartArg { Thread* t; };
void* trampoline(void* v) {
  Thread* t = static_cast<Thread*>(v);
  me = t;
  pthread_setspecific(exit_key, t);
  fwait(&t->go);
  return t->fn(t->arg);
}
}  // namespace
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  static auto rl = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!simulated()) return rl(out, attr, fn, arg);
  if (me->sut > 0 && !me->harness) { int64_t o = ++S.n_thread; if (fault_due(F_THREAD, o)) return EAGAIN; }
  if (S.n >= MAXT) fail("harness-limit", "too many simulated threads");
  int id = S.n;
  Thread* t = static_cast<Thread*>(calloc(1, sizeof(Thread)));
  t->id = id; t->st = ST_RUN; t->fn = fn; t->arg = arg; t->wake_at = -1; t->sut = me->sut > 0 && !me->harness ? 1 : 0; t->nofault = t->sut ? me->nofault : false;
  t->vc = me->vc; t->vc.c[id] = 1; tick(me);
  t->prio = (P->mode == 2 && !P->replay) ? 1000 + R->below(1000) : 1000;
  S.multi = true;
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(STK + STK_EACH * id), STK_EACH);
  int rc = rl(&t->pt, &at, trampoline, t);
  pthread_attr_destroy(&at);
  if (rc) { free(t); return rc; }
  S.t[id] = t; S.n = id + 1;
  *out = t->pt;
  mix(S.hash, 500 + id);
  if (!me->harness) sched_point(6);
  return 0;
}
static Thread* by_pt(pthread_t p) { for (int i = 0; i < S.n; ++i) if (pthread_equal(S.t[i]->pt, p)) return S.t[i]; return nullptr; }
extern "C" int pthread_join(pthread_t p, void** rv) {
  static auto rl = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!simulated()) return rl(p, rv);
  Thread* t = by_pt(p);
  if (!t) return rl(p, rv);
  if (t == me) return EDEADLK;
  while (t->st != ST_DONE) block(W_JOIN, uintptr_t(t->id));
  vc_join(me->vc, t->vc);
  int rc = rl(p, rv);
  memset(&t->pt, 0xff, sizeof t->pt);
  return rc;
}
extern "C" int pthread_detach(pthread_t p) {
  static auto rl = real<int (*)(pthread_t)>("pthread_detach");
  if (simulated()) { Thread* t = by_pt(p); if (t) t->detached = true; }
  return rl(p);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!simulated()) return rl(m);
  sched_point(7);
  heap_check((uintptr_t)m, 8, true);
  mx_lock((uintptr_t)m, m->__data.__kind & 3);
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!simulated()) return rl(m);
  sched_point(8);
  heap_check((uintptr_t)m, 8, true);
  SyncVar* s = sync_find((uintptr_t)m, true);
  if (s->owner >= 0) return EBUSY;
  mx_lock((uintptr_t)m, 0);
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto rl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!simulated()) return rl(m);
  heap_check((uintptr_t)m, 8, true);
  mx_unlock((uintptr_t)m);
  sched_point(9);
  return 0;
}
// A mutex with a deadline (std::timed_mutex), and reader-writer locks (std::shared_timed_mutex): the writer is the owner of the
// variable at the lock's address, readers are counted in the one beside it. `deadline` < 0: none; 0: do not wait at all.
static int64_t wall_now() { return 1700000000ll * 1000000000ll + S.now + S.wall_off; }
static int64_t until(clockid_t clk, const struct timespec* ts) {
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec, w = clk == CLOCK_REALTIME ? t - wall_now() : t - S.now;
  return S.now + (w > 0 ? w : 0);
}
static int mx_timed(pthread_mutex_t* m, int64_t deadline) {
  uintptr_t a = (uintptr_t)m;
  sched_point(27);
  heap_check(a, 8, true);
  while (sync_find(a, true)->owner >= 0 && sync_find(a, true)->owner != me->id) {
    if (S.now >= deadline) return ETIMEDOUT;
    block(W_MUTEX, a, deadline);
  }
  mx_lock(a, m->__data.__kind & 3);
  return 0;
}
static int rw_lock(uintptr_t a, bool write, int64_t deadline) {
  sched_point(28);
  heap_check(a, 8, true);
  for (;;) {
    SyncVar* s = sync_find(a, true);
    SyncVar* r = sync_find(a + 1, true);
    if (s->owner == me->id) return EDEADLK;
    if (s->owner < 0 && (!write || r->count == 0)) {
      vc_join(me->vc, s->vc);
      if (write) { vc_join(me->vc, r->vc); s->owner = me->id; s->count = 1; } else { ++r->count; }
      return 0;
    }
    if (deadline == 0) return EBUSY;
    if (deadline > 0 && S.now >= deadline) return ETIMEDOUT;
    block(W_MUTEX, a, deadline);
  }
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  static auto rl = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
  return simulated() ? mx_timed(m, until(CLOCK_REALTIME, ts)) : rl(m, ts);
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  static auto rl = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
  return simulated() ? mx_timed(m, until(c, ts)) : rl(m, c, ts);
}
#define SIM_RW(name, write, deadline, params, args) \
  extern "C" int name params { static auto rl = real<int (*) params>(#name); return simulated() ? rw_lock((uintptr_t)l, write, deadline) : rl args; }
SIM_RW(pthread_rwlock_rdlock, false, -1, (pthread_rwlock_t* l), (l))
SIM_RW(pthread_rwlock_wrlock, true, -1, (pthread_rwlock_t* l), (l))
SIM_RW(pthread_rwlock_tryrdlock, false, 0, (pthread_rwlock_t* l), (l))
SIM_RW(pthread_rwlock_trywrlock, true, 0, (pthread_rwlock_t* l), (l))
SIM_RW(pthread_rwlock_timedrdlock, false, until(CLOCK_REALTIME, ts), (pthread_rwlock_t* l, const struct timespec* ts), (l, ts))
SIM_RW(pthread_rwlock_timedwrlock, true, until(CLOCK_REALTIME, ts), (pthread_rwlock_t* l, const struct timespec* ts), (l, ts))
SIM_RW(pthread_rwlock_clockrdlock, false, until(c, ts), (pthread_rwlock_t* l, clockid_t c, const struct timespec* ts), (l, c, ts))
SIM_RW(pthread_rwlock_clockwrlock, true, until(c, ts), (pthread_rwlock_t* l, clockid_t c, const struct timespec* ts), (l, c, ts))
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  static auto rl = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!simulated()) return rl(l);
  uintptr_t a = (uintptr_t)l;
  heap_check(a, 8, true);
  SyncVar* s = sync_find(a, true);
  SyncVar* r = sync_find(a + 1, true);
  if (s->owner == me->id) { s->owner = -1; s->count = 0; vc_join(s->vc, me->vc); tick(me); wake(W_MUTEX, a, 100); }
  else if (r->count > 0) { --r->count; vc_join(r->vc, me->vc); tick(me); if (r->count == 0) wake(W_MUTEX, a, 100); }
  else fail("bad-unlock", "thread %d unlocks a reader-writer lock it does not hold", me->id);
  sched_point(29);
  return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  sched_point(10);
  heap_check((uintptr_t)c, 8, true);
  int64_t o = ++S.n_cond;
  mx_unlock((uintptr_t)m);
  int rc = 0;
  if (fault_due(F_SPURIOUS, o)) { sched_point(11); }
  else { block(W_COND, (uintptr_t)c, deadline); if (me->timed_out) rc = ETIMEDOUT; }
  heap_check((uintptr_t)m, 8, true);
  mx_lock((uintptr_t)m, 0);
  return rc;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!simulated()) return rl(c, m);
  return cv_wait(c, m, -1);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  if (!simulated()) return rl(c, m, ts);
  int64_t w = ts->tv_sec * 1000000000ll + ts->tv_nsec - wall_now();
  return cv_wait(c, m, S.now + (w > 0 ? w : 0));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  static auto rl = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!simulated()) return rl(c, m, clk, ts);
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  int64_t w = clk == CLOCK_REALTIME ? t - wall_now() : t - S.now;
  return cv_wait(c, m, S.now + (w > 0 ? w : 0));
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
  static auto rl = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!simulated()) return rl(c);
  sched_point(12);
  heap_check((uintptr_t)c, 8, true);
  wake(W_COND, (uintptr_t)c, 1);
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto rl = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!simulated()) return rl(c);
  sched_point(13);
  heap_check((uintptr_t)c, 8, true);
  wake(W_COND, (uintptr_t)c, 1000);
  return 0;
}
extern "C" int pthread_once(pthread_once_t* o, void (*fn)()) {
  static auto rl = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!simulated()) { if (*o == 2) return 0; return rl(o, fn); }
  sched_point(14);
  SyncVar* s = sync_find((uintptr_t)o, true);
  while (*o != 2 && s->owner >= 0) { block(W_ONCE, (uintptr_t)o); s = sync_find((uintptr_t)o, true); }
  if (*o == 2) { vc_join(me->vc, s->vc); return 0; }
  s->owner = me->id;
  try { fn(); } catch (...) {
    s = sync_find((uintptr_t)o, true); s->owner = -1; wake(W_ONCE, (uintptr_t)o, 100); throw;
  }
  *o = 2;
  s = sync_find((uintptr_t)o, true);
  s->owner = -1; vc_join(s->vc, me->vc); tick(me);
  wake(W_ONCE, (uintptr_t)o, 100);
  return 0;
}
extern "C" int sched_yield() {
  if (!simulated()) return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  sched_point(15);
  if (S.n > 1 && !me->harness) { int n = rr_next(me->id); if (n >= 0 && n != me->id && P->mode != 2) switch_to(n); }
  return 0;
}
static int sim_sleep(int64_t ns) { if (ns < 0) ns = 0; sched_point(16); block(W_SLEEP, 0, S.now + ns); return 0; }
extern "C" int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!simulated()) return (int)raw_syscall(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
  return sim_sleep(ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem) {
  if (!simulated()) return (int)-raw_syscall(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem, 0, 0);
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  return sim_sleep((fl & TIMER_ABSTIME) ? t - S.now : t);
}
extern "C" int usleep(useconds_t us) {
  if (!simulated()) { struct timespec t{us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
  return sim_sleep(us * 1000ll);
}
extern "C" long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (simulated() && n == SYS_futex) {
    int op = int(b) & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point(17);
      if (*reinterpret_cast<volatile int*>(a) != int(c)) { errno = EAGAIN; return -1; }
      int64_t dl = -1;
      if (d) { auto* ts = reinterpret_cast<struct timespec*>(d); int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (op == FUTEX_WAIT) dl = S.now + t; else dl = (b & FUTEX_CLOCK_REALTIME) ? S.now + (t - wall_now()) : t; if (dl < S.now) dl = S.now; }
      block(W_FUTEX, (uintptr_t)a, dl);
      if (me->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sched_point(18); return wake(W_FUTEX, (uintptr_t)a, int(c)); }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
// ------------------------------------------------------------------ clock
static void clock_read() {
  S.now += 100;
  int64_t j = 0;
  if (fault_due(F_CLOCK, ++S.n_clock, &j)) { if (j > 0) S.now += j; S.wall_off += j < 0 ? j : 0; }
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!simulated()) { long r = raw_syscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = int(-r); return -1; } return 0; }
  if (!me->harness) clock_read();
  int64_t t = c == CLOCK_REALTIME ? wall_now() : S.now;
  ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
extern "C" time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
extern "C" clock_t clock() { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000l + ts.tv_nsec / 1000; }
extern "C" [[noreturn]] void exit(int code) {
  static auto re = real<void (*)(int)>("exit");
  if (simulated() && sim::g_at_exit) { auto f = sim::g_at_exit; sim::g_at_exit = nullptr; f(code); sim::end(); if (RES) RES->done = 1; fflush(nullptr); _exit(0); }
  re(code); __builtin_unreachable();
}
extern "C" int get_nprocs() { return 4; }
// ------------------------------------------------------------------ signals
extern "C" int sigaction(int s, const struct sigaction* act, struct sigaction* old) {
  static auto rl = real<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
  if (!simulated() || s < 1 || s > 64) return rl(s, act, old);
  sched_point(19);
  if (fault_due(F_SIGACTION, ++S.n_sigaction)) { errno = EINVAL; return -1; }
  auto& e = S.sig[s];
  auto was = e;
  if (act) { e.h = act->sa_handler; e.flags = act->sa_flags; e.mask = act->sa_mask; }
  if (old) { memset(old, 0, sizeof *old); old->sa_handler = was.h; old->sa_flags = was.flags; old->sa_mask = was.mask; }
  return 0;
}
extern "C" void (*signal(int s, void (*h)(int)))(int) {
  static auto rl = real<void (*(*)(int, void (*)(int)))(int)>("signal");
  if (!simulated() || s < 1 || s > 64) return rl(s, h);
  void (*o)(int) = S.sig[s].h; S.sig[s].h = h; S.sig[s].flags = 0; return o;
}
// ------------------------------------------------------------------ file reads
extern "C" ssize_t read(int fd, void* buf, size_t n) {
  auto raw = [&](size_t m) -> ssize_t { long r = raw_syscall(SYS_read, fd, (long)buf, (long)m, 0, 0, 0); if (r < 0) { errno = int(-r); return -1; } return r; };
  if (!simulated() || fd <= 2 || me->harness || !nFT) return raw(n);
  sched_point(20);
  int64_t o = ++S.n_read;
  if (fault_due(F_READ_ERR, o)) { errno = EIO; return -1; }
  if (fault_due(F_READ_EINTR, o)) { errno = EINTR; return -1; }
  for (int i = 0; i < nFT; ++i) {
    if (FT[i].kind == F_READ_SHORT && int64_t(n) > FT[i].a && FT[i].a > 0) { n = FT[i].a; fault_fired(F_READ_SHORT); }
    if (FT[i].kind == F_READ_EOF && S.read_bytes + int64_t(n) > FT[i].a) { n = FT[i].a > S.read_bytes ? FT[i].a - S.read_bytes : 0; fault_fired(F_READ_EOF); if (!n) return 0; }
  }
  ssize_t r = raw(n);
  if (r > 0) S.read_bytes += r;
  return r;
}
