// Scoped guards (signals, stream precision, rounding mode), timers under clock faults, counters, option values.
#include <cfenv>
#include <csignal>
#include <fstream>
#include <iostream>

#include "dreal/solver/icp_stat.h"
#include "dreal/util/interrupt.h"
#include "dreal/util/option_value.h"
#include "dreal/util/precision_guard.h"
#include "dreal/util/profiler.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/util/signal_handler_guard.h"
#include "dreal/util/stat.h"
#include "dreal/util/timer.h"
#include "hx.h"
using namespace hx;
namespace {
// ------------------------------------------------------------------ timers
using dreal::Timer; using dreal::TimerGuard;
struct TM { // reference: accumulated time lies in [lo, hi]; run0/run1: bounds of the last start
  bool running{false}; int64_t lo{0}, hi{0}, s0{0}, s1{0};
  void start(int64_t a, int64_t b) { running = true; lo = hi = 0; s0 = a; s1 = b; }
  void pause(int64_t a, int64_t b) { if (running) { running = false; lo += std::max<int64_t>(0, a - s1); hi += b - s0; } }
  void resume(int64_t a, int64_t b) { if (!running) { running = true; s0 = a; s1 = b; } }
  void cur(int64_t a, int64_t b, int64_t* l, int64_t* h) const { *l = lo + (running ? std::max<int64_t>(0, a - s1) : 0); *h = hi + (running ? b - s0 : 0); }
};
struct Boom {};
void run_timer(const Plan& p) {
  struct Cell { std::unique_ptr<Timer> t; TM m; };
  std::vector<Cell> cs(3);
  for (auto& c : cs) c.t.reset(new Timer());
  auto check = [&](Cell& c, const char* when) {
    int64_t a = sim::now_ns(); int64_t e = 0; double s = 0; bool r = false; std::string txt;
    { sim::SutScope ss; e = std::chrono::duration_cast<std::chrono::nanoseconds>(c.t->elapsed()).count(); }
    int64_t b = sim::now_ns(); int64_t l, h; c.m.cur(a, b, &l, &h);
    SIM_CHECK(e >= l && e <= h, "timer", "%s: a timer reports %lld ns, the simulated clock says it ran for %lld..%lld ns", when, (long long)e, (long long)l, (long long)h);
    a = sim::now_ns(); { sim::SutScope ss; s = c.t->seconds(); r = c.t->is_running(); } b = sim::now_ns(); c.m.cur(a, b, &l, &h);
    SIM_CHECK(s >= l / 1e9 - 1e-12 - 1e-9 * std::fabs(l / 1e9) && s <= h / 1e9 + 1e-12 + 1e-9 * std::fabs(h / 1e9), "timer", "%s: a timer reports %.9f s, the simulated clock says %lld..%lld ns", when, s, (long long)l, (long long)h);
    { std::ostringstream os; int64_t a2 = sim::now_ns(); { sim::SutScope ss; os << *c.t; } int64_t b2 = sim::now_ns(), l2, h2; c.m.cur(a2, b2, &l2, &h2); txt = os.str(); char* end = nullptr; double v = strtod(txt.c_str(), &end);
      SIM_CHECK(end && std::string(end) == "s" && v >= double(l2) / 1e9 * (1 - 1e-5) - 1e-9 && v <= double(h2) / 1e9 * (1 + 1e-5) + 1e-9, "timer", "%s: a timer prints as '%s', the simulated clock says %lld..%lld ns", when, txt.c_str(), (long long)l2, (long long)h2); }
    SIM_CHECK(r == c.m.running, "timer", "%s: a timer says running=%d, should be %d", when, r, c.m.running);
  };
  for (size_t i = 0; i < p.ops.size(); ++i) {
    const Op& o = p.ops[i]; Cell& c = cs[o.a % 3];
    sim::advance_clock(o.b);
    int64_t a = sim::now_ns();
    switch (o.k) {
      case 0: { sim::SutScope s; c.t->start(); } c.m.start(a, sim::now_ns()); break;
      case 1: { sim::SutScope s; c.t->pause(); } c.m.pause(a, sim::now_ns()); break;
      case 2: { sim::SutScope s; c.t->resume(); } c.m.resume(a, sim::now_ns()); break;
      case 3: break;
      case 4: { sim::SutScope s; *cs[(o.a + 1) % 3].t = *c.t; } cs[(o.a + 1) % 3].m = c.m; break;
      default: { // guarded section, possibly nested and possibly left by an exception
        bool en = o.c & 1, st = o.c & 2, thr = o.c & 4, inner = o.c & 8; int mid = int(o.d % 5);
        auto pause_m = [&](bool x) { (void)x; };
        (void)pause_m;
        try {
          int64_t a0 = sim::now_ns();
          std::unique_ptr<TimerGuard> g; { sim::SutScope s; g.reset(new TimerGuard(c.t.get(), en, st)); }
          if (en && st) c.m.resume(a0, sim::now_ns());
          struct Leave { Cell& c; std::unique_ptr<TimerGuard>& g; bool en; ~Leave() { int64_t b0 = sim::now_ns(); { sim::SutScope s; g.reset(); } if (en) c.m.pause(b0, sim::now_ns()); } } lv{c, g, en};
          sim::advance_clock(o.b / 3 + 7);
          check(c, "inside a guarded section");
          if (mid == 1 || mid == 3) { int64_t x = sim::now_ns(); { sim::SutScope s; g->pause(); } if (en) c.m.pause(x, sim::now_ns()); sim::advance_clock(o.b / 2 + 11); check(c, "after pausing the guard"); }
          if (mid == 2 || mid == 3) { int64_t x = sim::now_ns(); { sim::SutScope s; g->resume(); } if (en) c.m.resume(x, sim::now_ns()); sim::advance_clock(o.b / 5 + 3); check(c, "after resuming the guard"); }
          if (inner) { Cell& d = cs[(o.a + 1) % 3]; int64_t x = sim::now_ns(); std::unique_ptr<TimerGuard> g2; { sim::SutScope s; g2.reset(new TimerGuard(d.t.get(), true, true)); } d.m.resume(x, sim::now_ns()); sim::advance_clock(13); int64_t y = sim::now_ns(); { sim::SutScope s; g2.reset(); } d.m.pause(y, sim::now_ns()); }
          if (thr) throw Boom{};
        } catch (const Boom&) {}
      }
    }
    check(c, "after an operation");
    sim::note(uint64_t(c.m.running)); 
    if (o.k == 3 && (o.c & 1)) { // profiler output is elapsed time, whatever happens to the wall clock
      std::ostringstream out; int64_t p0 = sim::now_ns(), p1, p2;
      { std::unique_ptr<dreal::Profiler> pr; { sim::SutScope s; pr.reset(new dreal::Profiler("prof", out)); } p1 = sim::now_ns(); sim::advance_clock(o.b); p2 = sim::now_ns(); { sim::SutScope s; pr.reset(); } }
      int64_t p3 = sim::now_ns(); std::string t = out.str(); SIM_CHECK(t.compare(0, 6, "prof: ") == 0 && t.back() == '\n', "timer", "profiler printed %s", t.c_str());
      double v = atof(t.c_str() + 6); double l = (p2 - p1) / 1e9, h = (p3 - p0) / 1e9;
      SIM_CHECK(v >= l - 1e-4 * l - 1e-9 && v <= h + 1e-4 * h + 1e-9, "timer", "the profiler reports %s of a section that took %.9f..%.9f s", t.c_str(), l, h);
    }
  }
}
void gen_timer(Rng& g, Plan& p, int tier) {
  p.mode = 0; int n = int(g.range(2, tier ? 80 : 30)); const int64_t longest = g.chance(1, 8) ? 500000000000000ll : 50000000000ll;  // up to days
  for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(7), g.below(3), log_uniform(g, 1, longest), g.below(16), g.below(5)});
  int m = int(g.below(6));
  for (int i = 0; i < m; ++i) p.faults.push_back(Fault{sim::F_CLOCK, log_uniform(g, 1, n * 6), g.chance(1, 2) ? log_uniform(g, 1, 4000000000000ll) : -log_uniform(g, 1, 4000000000000ll), 0});
}
sim::Registrar r0({"timer", gen_timer, run_timer});

// ------------------------------------------------------------------ signal handler guard
std::atomic_bool g_flag2{false}; volatile std::atomic_bool vflag{false};
int hits[4];
void h0(int) { ++hits[0]; }
void h1(int) { ++hits[1]; vflag = true; }
void h2(int) { ++hits[2]; dreal::g_interrupted = true; }
void h3(int) { ++hits[3]; }
void (*const HS[])(int) = {SIG_DFL, SIG_IGN, h0, h1, h2, h3};
const int SIGS[] = {SIGINT, SIGTERM, SIGUSR1};
volatile std::atomic_bool* flag_of(int h) { return (h & 1) ? &vflag : &dreal::g_interrupted; }

void sig_level(const Plan& p, size_t& i, int depth) {
  // consumes operations until a POP (or the end); every guard opened here is closed on exit, also by exceptions
  while (i < p.ops.size()) {
    const Op o = p.ops[i++];
    int sg = SIGS[o.a % 3];
    switch (o.k % 6) {
      case 0: case 1: { // guarded section
        if (depth > 5) break;
        void* before = sim::sig_handler(sg); int bf = sim::sig_flags(sg); bool bm = sim::sig_masks(sg, SIGUSR2);
        volatile std::atomic_bool* fl = flag_of(int(o.b)); bool fl_other = *flag_of(int(o.b) + 1); (void)fl_other;
        auto h = HS[2 + o.b % 4];
        bool failed = false, entered = false;
        try {
          std::unique_ptr<dreal::SignalHandlerGuard> g;
          {
            sim::SutScope s;
            try { g.reset(new dreal::SignalHandlerGuard(sg, h, fl)); } catch (const std::runtime_error&) { failed = true; } catch (const std::bad_alloc&) { failed = true; }
          }
          if (failed) {
            SIM_CHECK(sim::sig_handler(sg) == before && sim::sig_flags(sg) == bf, "signal-handler", "installing a handler failed but the previous one is gone");
            break;
          }
          entered = true;
          SIM_CHECK(sim::sig_handler(sg) == reinterpret_cast<void*>(h), "signal-handler", "inside the guarded section another handler than the requested one is installed");
          SIM_CHECK(sim::sig_flags(sg) & SA_RESTART, "signal-handler", "system calls interrupted by signal %d are not restarted inside the guarded section", sg);
          // restoring a handler that was in place cannot fail
          struct Close { std::unique_ptr<dreal::SignalHandlerGuard>& g; ~Close() { sim::SutScope s; sim::mask_fault(sim::F_SIGACTION, true); g.reset(); sim::mask_fault(sim::F_SIGACTION, false); } } cl{g};
          if (o.c & 1) { sim::SutScope s; sim::yield_point(); void (*f)(int) = reinterpret_cast<void (*)(int)>(sim::sig_handler(sg)); f(sg); SIM_CHECK(*fl || (h != h1 && h != h2) || fl != (h == h1 ? &vflag : &dreal::g_interrupted), "signal-handler", "an interrupt inside the section is not visible"); }
          sig_level(p, i, depth + 1);
          { sim::SutScope s; for (int k = 0; k < 3; ++k) sim::yield_point(); }
          if (o.c & 2) throw Boom{};
        } catch (const Boom&) { }
        if (entered) {
          SIM_CHECK(sim::sig_handler(sg) == before, "signal-handler", "leaving a guarded section (depth %d, signal %d) did not restore the previous handler", depth, sg);
          SIM_CHECK(sim::sig_flags(sg) == bf && sim::sig_masks(sg, SIGUSR2) == bm, "signal-handler", "leaving a guarded section changed the flags or the mask of the previous handler");
          bool outer_sets = before == reinterpret_cast<void*>(fl == &vflag ? h1 : h2);  // a later interrupt may set it again
          if (!outer_sets) SIM_CHECK(!*fl, "signal-handler", "the interrupt flag is still set after the guarded section");
        }
        break;
      }
      case 2: { sim::SutScope s; sim::yield_point(); break; }
      case 3: { // the program itself changes the disposition inside the section: only at the outermost level
        if (depth == 0) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = HS[o.b % 6]; sa.sa_flags = int(o.c % 2 ? SA_NODEFER : 0); sigemptyset(&sa.sa_mask); if (o.c & 2) sigaddset(&sa.sa_mask, SIGUSR2); Quiet q; sigaction(sg, &sa, nullptr); }
        break;
      }
      default: if (depth > 0) return; break;
    }
  }
}
void run_sig(const Plan& p) {
  for (auto& h : hits) h = 0;
  dreal::g_interrupted = false; vflag = false;
  size_t i = 0; while (i < p.ops.size()) sig_level(p, i, 0);
  for (int k = 0; k < 4; ++k) sim::note(uint64_t(hits[k]));
}
void gen_sig(Rng& g, Plan& p, int tier) {
  p.mode = 0; int n = int(g.range(2, tier ? 40 : 18));
  for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(6), g.below(3), g.below(6), g.below(4), 0});
  int m = int(g.below(4)); for (int i = 0; i < m; ++i) p.faults.push_back(Fault{sim::F_SIGINT, log_uniform(g, 1, n * 8), 0, 0});
  if (g.chance(1, 2)) p.faults.push_back(Fault{sim::F_SIGACTION, g.range(1, n), 0, 0});
}
sim::Registrar r1({"siguard", gen_sig, run_sig});

// ------------------------------------------------------------------ precision and rounding guards, per thread
void fp_level(const Plan& p, size_t& i, size_t end, int step, std::vector<std::ostringstream*>& os, int depth) {
  static const int RM[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  while (i < end) {
    const Op o = p.ops[i]; i += step;
    switch (o.k % 6) {
      case 0: { // rounding mode
        int before = fegetround(); int want = RM[o.a % 4];
        try {
          sim::SutScope s;
          dreal::RoundingModeGuard g(want);
          SIM_CHECK(fegetround() == want, "rounding-mode", "rounding mode %d requested, %d active", want, fegetround());
          sim::yield_point();
          if (depth < 5) fp_level(p, i, end, step, os, depth + 1);
          SIM_CHECK(fegetround() == want, "rounding-mode", "rounding mode changed inside the section: %d instead of %d", fegetround(), want);
          volatile double one = 1.0, three = 3.0; volatile double q = one / three; (void)q;
          if (o.c & 1) throw Boom{};
        } catch (const Boom&) {}
        SIM_CHECK(fegetround() == before, "rounding-mode", "rounding mode not restored: %d instead of %d", fegetround(), before);
        break;
      }
      case 1: { // precision
        std::ostringstream& s0 = *os[o.a % os.size()]; std::streamsize before = s0.precision(); std::streamsize want = o.b % 20;
        try {
          sim::SutScope s;
          std::unique_ptr<dreal::PrecisionGuard> g;
          bool dflt = o.c & 2;
          try { if (dflt) g.reset(new dreal::PrecisionGuard(&s0)); else g.reset(new dreal::PrecisionGuard(&s0, want)); } catch (const std::bad_alloc&) { }
          if (g) {
            if (dflt) want = std::numeric_limits<double>::max_digits10;
            SIM_CHECK(s0.precision() == want, "precision", "precision %lld requested, %lld active", (long long)want, (long long)s0.precision());
            struct Close { std::unique_ptr<dreal::PrecisionGuard>& g; ~Close() { g.reset(); } } cl{g};
            if (dflt) { sim::HarnessScope hs; double v = std::ldexp(double(o.d * 2654435761u % 1000003 + 1) / 997.0, int(o.b % 40) - 20); int rm = fegetround(); fesetround(FE_TONEAREST); std::ostringstream t; t.precision(s0.precision()); t << v; double w = strtod(t.str().c_str(), nullptr); fesetround(rm); SIM_CHECK(w == v, "precision", "a value printed inside the section does not read back"); }
            sim::yield_point();
            if (depth < 5) fp_level(p, i, end, step, os, depth + 1);
            if (o.c & 4) s0.setstate(std::ios::badbit);
            if (o.c & 1) throw Boom{};
          }
        } catch (const Boom&) {}
        s0.clear();
        SIM_CHECK(s0.precision() == before, "precision", "stream precision not restored: %lld instead of %lld", (long long)s0.precision(), (long long)before);
        break;
      }
      case 2: { sim::SutScope s; sim::yield_point(); break; }
      case 3: if (depth == 0) os[o.a % os.size()]->precision(o.b % 20); break;
      default: if (depth > 0) return; break;
    }
  }
}
void run_fp(const Plan& p) {
  const int n = int(p.param("threads", 1));
  auto work = [&](int w) {
    std::ostringstream a, b; std::vector<std::ostringstream*> os{&a, &b};
    fesetround(FE_TONEAREST);
    size_t i = size_t(w); while (i < p.ops.size()) fp_level(p, i, p.ops.size(), n, os, 0);
    SIM_CHECK(fegetround() == FE_TONEAREST, "rounding-mode", "thread %d ends in rounding mode %d", w, fegetround());
  };
  std::vector<std::thread> th; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); });
  work(0); for (auto& t : th) t.join();
}
void gen_fp(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 200); p.params["threads"] = g.range(1, 3);
  int n = int(g.range(2, tier ? 60 : 30)); for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(6), g.below(4), g.below(40), g.below(8), g.below(100000)});
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 40, 3);
}
sim::Registrar r2({"fpguard", gen_fp, run_fp});

// ------------------------------------------------------------------ counters shared by threads
struct MyStat : dreal::Stat { explicit MyStat(bool e) : Stat{e} {} std::atomic<int> a{0}; std::atomic<int64_t> b{0}; void ia() { increase(&a); } void ib() { increase(&b); } };
void run_stat(const Plan& p) {
  const int n = int(p.param("threads", 2)); const bool en = p.param("enabled", 1);
  std::unique_ptr<MyStat> st(new MyStat(en)); std::ostringstream cap; 
  std::vector<std::unique_ptr<dreal::IcpStat>> is; 
  int64_t ca = 0, cb = 0; int per[8][2] = {{0}}; TM tm[8][3];
  for (int w = 0; w < n; ++w) is.emplace_back(new dreal::IcpStat(en, w));
  for (size_t i = 0; i < p.ops.size(); ++i) { const Op& o = p.ops[i]; if (o.k == 0) ++ca; else if (o.k == 1) ++cb; else if (o.k < 4) ++per[o.a % n][o.k & 1]; }
  auto work = [&](int w) {
    for (size_t i = size_t(w); i < p.ops.size(); i += size_t(n)) { const Op& o = p.ops[i]; sim::SutScope s;
      switch (o.k) { case 0: st->ia(); break; case 1: st->ib(); break; case 2: is[o.a % n]->num_branch_++; break; case 3: is[o.a % n]->num_prune_++; break;
        default: { // a timed section of this worker, as ICP has them: branching, pruning, evaluation
          int which = int(o.b % 3); Timer* t = which == 0 ? &is[w]->timer_branch_ : which == 1 ? &is[w]->timer_prune_ : &is[w]->timer_eval_;
          int64_t x = sim::now_ns(); { TimerGuard g(t, en, true); if (en) tm[w][which].resume(x, sim::now_ns()); { sim::HarnessScope hs; sim::advance_clock(o.c); } sim::yield_point(); x = sim::now_ns(); } if (en) tm[w][which].pause(x, sim::now_ns()); } } }
  };
  std::vector<std::thread> th; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); });
  work(0); for (auto& t : th) t.join();
  SIM_CHECK(st->a == (en ? ca : 0) && st->b == (en ? cb : 0), "counter", "counters ended at %d / %lld after %lld / %lld increments (enabled=%d)", st->a.load(), (long long)st->b.load(), (long long)ca, (long long)cb, en);
  for (int w = 0; w < n; ++w) {
    std::ostringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); bool enb; { sim::SutScope s; enb = is[w]->enabled(); is[w].reset(); } std::cout.rdbuf(old);
    std::string t = out.str();
    SIM_CHECK(enb == (en != 0), "counter", "statistics made with enabled=%d say enabled()=%d", en, enb);
    if (!en) { SIM_CHECK(t.empty(), "counter", "disabled statistics print: %s", t.c_str()); continue; }
    long long b = -1, q = -1; std::istringstream in(t); std::string l;
    while (std::getline(in, l)) { size_t e = l.rfind('='); if (e == std::string::npos) continue; if (l.find("Total # of Branching") == 0) b = atoll(l.c_str() + e + 1); if (l.find("Total # of Pruning") == 0) q = atoll(l.c_str() + e + 1);
      if (l.find("T" + std::to_string(w) + " ") == std::string::npos) sim::fail("counter", "statistics line of worker %d is not labelled so: %s", w, l.c_str()); }
    const char* const tl[3] = {"Total time spent in Branching", "Total time spent in Pruning", "Total time spent in Evaluation"};
    for (int k = 0; k < 3; ++k) {
      bool want = k == 2 || per[w][k] > 0; size_t at = t.find(tl[k]); 
      SIM_CHECK((at != std::string::npos) == want, "counter", "worker %d, %d branchings, %d prunings: the line '%s' is %s", w, per[w][0], per[w][1], tl[k], want ? "missing" : "printed");
      if (!want) continue;
      double v = atof(t.c_str() + t.find('=', at) + 1); int64_t lo, hi; tm[w][k].cur(0, 0, &lo, &hi);
      SIM_CHECK(v >= double(lo) / 1e9 - 1e-6 && v <= double(hi) / 1e9 + 1e-6, "counter", "worker %d: '%s' says %f s, the sections took %lld..%lld simulated ns", w, tl[k], v, (long long)lo, (long long)hi);
    }
    SIM_CHECK(b == per[w][0] && q == per[w][1], "counter", "worker %d reports %lld branchings / %lld prunings, %d / %d happened", w, b, q, per[w][0], per[w][1]);
  }
}
void gen_stat(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 200); p.params["threads"] = g.range(1, 4); p.params["enabled"] = g.chance(4, 5);
  int n = int(g.range(2, tier ? 120 : 60)); const int64_t longest = g.chance(1, 8) ? 50000000000000ll : 50000000000ll; for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(g.chance(1, 4) ? 5 : 4), g.below(4), g.below(3), log_uniform(g, 1, longest), 0});
}
sim::Registrar r3({"stat", gen_stat, run_stat});

// ------------------------------------------------------------------ option values
void run_opt(const Plan& p) {
  using OV = dreal::OptionValue<std::string>;
  std::vector<std::unique_ptr<OV>> v; struct M { std::string s; int t; }; std::vector<M> m;
  for (int i = 0; i < 3; ++i) { std::string d = "default-value-of-the-option-" + std::to_string(i); v.emplace_back(new OV(d)); m.push_back(M{d, 0}); }
  for (const Op& o : p.ops) {
    int a = int(o.a % 3), b = int(o.b % 3); std::string val = "some-long-option-value-" + std::to_string(o.c); Out r = OK; M before = m[a]; M want = before; 
    switch (o.k % 7) {
      case 0: r = sut([&] { v[a]->set_from_file(val); }); if (before.t <= 1) want = M{val, 1}; break;
      case 1: r = sut([&] { v[a]->set_from_command_line(val); }); if (before.t <= 2) want = M{val, 2}; break;
      case 2: r = sut([&] { *v[a] = val; }); want = M{val, 3}; break;
      case 3: { std::string t = val; r = sut([&] { *v[a] = std::move(t); }); want = M{val, 3}; break; }
      case 4: r = sut([&] { *v[a] = *v[b]; }); want = m[b]; break;
      case 5: { std::unique_ptr<OV> c; r = sut([&] { c.reset(new OV(*v[b])); }); if (r == OK) { v[a] = std::move(c); want = m[b]; } break; }
      default: break;
    }
    sim::HarnessScope hs;
    if (r == OK) m[a] = want;
    for (int i = 0; i < 3; ++i) {
      SIM_CHECK(v[i]->get() == m[i].s, "option", "an option holds %s, its sources say %s", v[i]->get().c_str(), m[i].s.c_str());
      // the source that won is observable through what may still override it
      OV c(*v[i]); c.set_from_file("F"); SIM_CHECK((c.get() == "F") == (m[i].t <= 1), "option", "source %d: a file setting %s", m[i].t, c.get() == "F" ? "overrides" : "does not override");
      OV d(*v[i]); d.set_from_command_line("C"); SIM_CHECK((d.get() == "C") == (m[i].t <= 2), "option", "source %d: a command line setting %s", m[i].t, d.get() == "C" ? "overrides" : "does not override");
      OV e(*v[i]); e = "K"; SIM_CHECK(e.get() == "K", "option", "a setting from code does not override");
    }
    sim::note(uint64_t(r)); sim::note(m[a].s);
  }
}
void gen_opt(Rng& g, Plan& p, int tier) {
  p.mode = 0; int n = int(g.range(2, tier ? 60 : 30)); for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(6), g.below(3), g.below(3), g.below(1000), 0});
  if (g.chance(2, 3)) gen_alloc_faults(g, p, n * 2, 4);
}
sim::Registrar r4({"option", gen_opt, run_opt});
}  // namespace
