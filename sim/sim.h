// Deterministic simulation runtime: one process, one running thread at a time,
// every scheduling / clock / fault decision taken from a Plan.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

enum FaultKind : int {
  F_ALLOC = 1,      // a: ordinal of the SUT allocation that fails, b: burst length
  F_SIGINT = 2,     // a: step at which SIGINT is delivered (b == 1: counting only steps while a handler is installed)
  F_SPURIOUS = 3,   // a: ordinal of the condvar wait that wakes up spuriously
  F_CLOCK = 4,      // a: ordinal of the clock read, b: jump in ns (wall clock may be <0)
  F_STALL = 5,      // a: step, b: tid, c: number of steps the thread is not scheduled
  F_THREAD = 6,     // a: ordinal of the thread creation that fails (EAGAIN)
  F_READ_ERR = 7,   // a: ordinal of the read that fails with EIO
  F_READ_SHORT = 8, // a: max bytes per read (from the first read on)
  F_READ_EOF = 9,   // a: byte offset at which the input ends (torn file)
  F_WRITE_ERR = 10, // a: ordinal of the output write that fails
  F_READ_EINTR = 11,// a: ordinal of the read interrupted by a signal (EINTR)
  F_SIGACTION = 12, // a: ordinal of the sigaction call that fails
  F_THROW = 13,     // a: ordinal of a user callback that throws
  F_BYTE = 14,      // a: offset of a corrupted byte, b: xor mask
  F_SLOW = 15,      // a: ordinal of a callback, b: ns the clock advances in it
  F_MAX = 16,
};
const char* fault_name(int k);

struct Fault { int kind; int64_t a, b, c; };
struct Op { int64_t k, a, b, c, d; };
struct Dev { int64_t step; int tid; };

struct Plan {
  std::string harness;
  std::map<std::string, int64_t> params;
  std::vector<Op> ops;
  std::vector<Fault> faults;
  uint64_t seed{0};
  // Scheduling. replay==false: drawn from the PRNG; true: only `devs`.
  bool replay{false};
  int mode{1};          // 0 none, 1 random walk, 2 PCT
  int p1000{50};        // random walk: switch probability (per mille) per sync point
  int plain_mean{0};    // mean number of plain accesses between plain preemptions, 0 = off
  int pct_k{3};
  int64_t pct_len{2000};
  std::vector<Dev> devs;
  int64_t max_steps{2000000};
  bool races{true};
  int64_t param(const std::string& k, int64_t d = 0) const {
    auto it = params.find(k);
    return it == params.end() ? d : it->second;
  }
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : int64_t(next() % uint64_t(n)); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  double unit() { return double(next() >> 11) / 9007199254740992.0; }
};

// --- run control (used by the harnesses, called on simulated thread 0) ---
void begin(const Plan& plan);  // everything from here on is simulated
void end();                    // leave the simulation (all threads must have exited)
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void probe(const char* name, int64_t n = 1);
void note(uint64_t h);                 // mixes observable outcome into the event hash
void note(const std::string& s);
// Fault windows: allocation faults / SIGINT only fire inside.
struct SutScope { SutScope(); ~SutScope(); };     // code under test
struct HarnessScope { HarnessScope(); ~HarnessScope(); };  // oracle code: no faults, no preemption
bool fault_due(int kind, int64_t ordinal, int64_t* b = nullptr);  // custom fault sites
void fault_fired(int kind);
uint64_t faults_fired();  // how many faults have fired so far
void mask_fault(int kind, bool masked);
void yield_point();            // explicit scheduling point
void set_step_limit(int64_t extra); // fail with liveness if more than `extra` further steps run
void clear_step_limit();
int64_t steps();
int64_t now_ns();
void advance_clock(int64_t ns);
void set_wall_offset(int64_t ns);
int self();                    // simulated thread id
int live_threads();            // started and not finished (without thread 0)
bool spawn_failed_injected();
int64_t live_blocks();         // operator-new blocks currently live
int64_t live_bytes();
int64_t sut_allocs();          // allocation ordinal counter
bool faults_enabled();
void enable_faults(bool);      // of the calling simulated thread
void at_exit(std::function<void(int)> f);  // what the simulated process does instead of ending when it calls exit(); the run is then complete
void alloc_faults_up_to(size_t n);  // larger requests always succeed
void stop_all_faults();        // from here on no fault fires in any thread
void leak_mark();
int64_t leaked();              // live blocks allocated since leak_mark() that nothing older leads to
void leak_dump();              // debugging aid, see SIM_LEAKS
bool is_heap_live(const void* p);
// signal table (simulated sigaction)
void* sig_handler(int signo);  // current handler
int sig_flags(int signo);
bool sig_masks(int signo, int n);
std::string read_stderr();

// --- result slot ---
struct Result {
  int done;            // 1: harness completed and all oracles held; 2: fail() called
  char cls[96];
  char msg[4096];
  uint64_t hash;       // event hash
  uint64_t sched_hash; // schedule signature
  int64_t steps, switches, preempts, sim_ns, allocs;
  int64_t fired[F_MAX];
  int nprobes;
  struct { char name[48]; int64_t n; } probes[64];
  int ndevs;
  Dev devs[20000];
  int npcs;
  uint64_t pcs[24];
};
Result* result();
void set_result(Result*);

// --- harness registry ---
struct Harness {
  const char* name;
  void (*gen)(Rng&, Plan&, int tier);  // fills ops, params, faults, scheduling
  void (*run)(const Plan&);            // executes; throws or fail()s on violation
};
void register_harness(const Harness& h);
struct Registrar { explicit Registrar(const Harness& h) { register_harness(h); } };
}  // namespace sim
#define SIM_CHECK(c, cls, ...) do { if (!(c)) ::sim::fail(cls, __VA_ARGS__); } while (0)
