// The whole solver: contexts with scopes, SAT core, theory solver, sequential and parallel ICP, interrupts, failures.
#include <atomic>
#include "dreal/util/logging.h"
#include "probmodel.h"
using namespace prob;
namespace {
enum K { DECL, ASSERT, PUSH, POP, CHECK, OPT, NARROW, NEWCTX, REASSERT, CHAIN, NK };
const char* KN[] = {"declare", "assert", "push", "pop", "check", "option", "narrow", "new", "reassert", "chain"};
std::atomic<int64_t> g_sig_step{-1}; std::atomic<int> g_sig_count{0};
void on_sigint(int) { dreal::g_interrupted = true; sim::HarnessScope h; if (g_sig_step < 0) g_sig_step = sim::steps(); ++g_sig_count; }

constexpr int64_t DEADLINE = 40000;  // steps after which a check is interrupted, so that hard problems end
struct Asserted { TP t; Formula f; bool sure; };
struct Frame { size_t nv, na; std::vector<Var> saved; };
struct Session {
  const Plan& p; int who, n; uint64_t pseed; bool interrupts; int64_t bound;
  std::unique_ptr<Context> c; bool poisoned{false};
  std::vector<Var> vars; std::vector<Asserted> as; std::vector<Frame> fr; std::vector<std::pair<TP, uint64_t>> history;
  Pt witness; int next_slot{0}; double delta{0.001}; int checks{0}; bool has_ite{false};
  Session(const Plan& pl, int w, int m) : p(pl), who(w), n(m), pseed(uint64_t(pl.param("pseed", 1)) * 977 + uint64_t(w)), interrupts(pl.param("guard", 0)), bound(pl.param("bound", 60000)) {}

  Config config() const {
    Config f; static const double pr[] = {0.001, 0.01, 0.05, 0.125, 1.5, 3};
    f.mutable_precision() = pr[p.param("precision", 1) % 6];
    if (p.param("jobs", 1) > 1) f.mutable_number_of_jobs() = int(p.param("jobs", 1));
    if (p.param("polytope")) f.mutable_use_polytope() = true;
    if (p.param("worklist")) f.mutable_use_worklist_fixpoint() = true;
    if (p.param("left")) f.mutable_stack_left_box_first() = true;
    if (p.param("rseed")) f.mutable_random_seed() = uint32_t(p.param("rseed"));
    if (p.param("phase")) f.mutable_sat_default_phase() = static_cast<Config::SatDefaultPhase>(p.param("phase") & 3);
    return f;
  }
  bool fresh() {
    { HarnessDrop h; vars.clear(); as.clear(); fr.clear(); has_ite = false; }
    c.reset(); poisoned = false;
    Config f = config();
    delta = f.precision();
    Out r = sut([&] { c.reset(new Context(f)); });
    if (r != OK) { SIM_CHECK(sim::faults_fired() > 0, "unexpected-exception", "a context cannot be constructed"); c.reset(); }
    return r == OK;
  }
  struct HarnessDrop {};
  std::vector<int> slots(bool boo) const { std::vector<int> r; for (auto& v : vars) if ((v.type == 2) == boo) r.push_back(v.slot); return r; }
  Syms syms() const { Syms s; for (auto& v : vars) s.emplace(v.slot, v.v); return s; }
  void fault(Out r, const std::string& what, const char* op) {
    if (r == OK) return;
    SIM_CHECK(sim::faults_fired() > 0 || (g_sig_count), "unexpected-exception", "%s failed without a fault: %s", op, what.c_str());
    SIM_CHECK(r != OTHER || (g_sig_count && what.find("KeyboardInterrupt") != std::string::npos), "unexpected-exception", "%s failed with: %s", op, what.c_str());
  }
  // An operation that failed can be repeated.
  template <class F> void again(F f, const char* op) { Quiet q; std::string what; Out r = sut(f, &what); SIM_CHECK(r == OK, "unexpected-exception", "%s failed, and again without a fault: %s", op, what.c_str()); sim::probe("repeated"); }
  double wit(int type, double lo, double hi, int slot) const {
    Rng g(pseed * 31 + uint64_t(slot));
    if (type == 2) return double(g.below(2));
    if (type == 1) return std::ceil(lo) + double(g.below(int64_t(std::floor(hi) - std::ceil(lo)) + 1));
    return lo + 0.25 * double(g.below(int64_t((hi - lo) * 4) + 1));
  }
  void step(const Op& o) {
    if (!c && !fresh()) return;
    if (poisoned && o.k != NEWCTX) { if (!fresh()) return; }
    std::string what;
    sim::note(uint64_t(o.k));
    switch (o.k) {
      case NEWCTX: fresh(); break;
      case DECL: {
        if (vars.size() >= 5) return;
        static const double lo[] = {-3, 0, -1, -2, 1, 0}, hi[] = {3, 2, 1, 3, 3, 0.5};
        const int type = int(o.a % 8 < 5 ? 0 : o.a % 8 - 5); const int d = int(o.b % 5);
        Var v; { sim::HarnessScope hs; Quiet q; v.type = type; v.lo = type == 2 ? 0 : lo[d]; v.hi = type == 2 ? 1 : hi[d]; v.model = o.c % 8 != 0; v.slot = next_slot++; if (type == 1 && o.c % 16 >= 10) { v.slot += FAR * int(1 + o.b / 5 % 7); v.lo += far_off(v.slot); v.hi += far_off(v.slot); } v.v = Variable((type == 2 ? "b" : "x") + std::to_string(v.slot), type == 0 ? Variable::Type::CONTINUOUS : type == 1 ? Variable::Type::INTEGER : Variable::Type::BOOLEAN); witness.v[v.slot] = wit(type, v.lo, v.hi, v.slot); }
        auto decl = [&] { if (type == 2) c->DeclareVariable(v.v, v.model); else c->DeclareVariable(v.v, v.lo, v.hi, v.model); };
        Out r = sut(decl, &what);
        fault(r, what, "declaring a variable");
        if (r != OK) again(decl, "declaring a variable");
        vars.push_back(v);
        break;
      }
      case NARROW: {
        if (o.c % 8 == 7) {  // a variable which is not declared is refused
          Variable u; { Quiet q; u = Variable("undeclared"); } Out r = sut([&] { c->SetInterval(u, 0, 0.25); }, &what);
          SIM_CHECK(r != OK, "refused", "a domain is set for a variable that is not declared"); sim::probe("refused_variable"); return; }
        std::vector<size_t> cand; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].type != 2 && vars[i].hi - vars[i].lo >= 1) cand.push_back(i);
        if (cand.empty()) return;
        Var& v = vars[cand[size_t(o.a) % cand.size()]]; const double w = witness.v[v.slot];
        double l = v.lo, h = v.hi; if (w - l >= 0.5 && (o.b & 1)) l = std::ceil(w - 0.5); else if (h - w >= 0.5) h = std::floor(w + 0.5); if (!(l <= w && w <= h && l < h)) return;
        // the domain may have been narrowed by assertions already: only a narrower domain keeps the meaning
        { Box b; bool okk = true; { Quiet q; sim::HarnessScope hs; const Box::Interval& cur = c->box()[v.v]; if (c->box().empty()) okk = false; else { l = std::max(l, cur.lb()); h = std::min(h, cur.ub()); if (!(l <= h)) okk = false; } } if (!okk) return; }
        auto narrow = [&] { c->SetInterval(v.v, l, h); };
        Out r = sut(narrow, &what); fault(r, what, "setting a domain");
        if (r != OK) again(narrow, "setting a domain");
        v.lo = std::max(v.lo, l); v.hi = std::min(v.hi, h);
        break;
      }
      case ASSERT: case REASSERT: case CHAIN: {
        TP t;
        if (vars.empty()) return;
        { sim::HarnessScope hs; Quiet q;
          if (o.k == REASSERT) { if (history.empty()) return; t = history[size_t(o.a) % history.size()].first; for (int s : used(*t)) { bool in = false; for (auto& v : vars) in |= v.slot == s; if (!in) return; } if (o.b & 1) t = mk(NOT, t); }
          else if (o.k == CHAIN) { t = chain(uint64_t(o.a)); if (!t) return; history.push_back({t, 0}); }
          else {
            Gen G(uint64_t(o.a) * 0x9E3779B9u + pseed, slots(false), slots(true), p.param("ite"), p.param("hard"), &witness);
            t = G.formula(int(o.b % 4)); const int h = holds(*t, witness);
            if (h != 1 && o.c % 8 != 0) t = mk(NOT, t);
            history.push_back({t, 0});
          }
          }
        Formula f; Out r = sut([&] { f = form(*t, syms()); c->Assert(f); }, &what);
        fault(r, what, "an assertion");
        if (r == OK || r == NOMEM) { as.push_back({t, f, r == OK}); }
        else poisoned = true;
        break;
      }
      case PUSH: { if (fr.size() >= 4) return; const int k = o.a % 4 == 0 ? 2 : 1; Out r = sut([&] { c->Push(k); }, &what); fault(r, what, "push"); if (r == OK) for (int i = 0; i < k; ++i) fr.push_back({vars.size(), as.size(), vars}); else SIM_CHECK(r == NOMEM, "unexpected-exception", "push failed with: %s", what.c_str()); break; }
      case POP: { if (fr.empty()) return; Out r = sut([&] { c->Pop(1); }, &what); fault(r, what, "pop"); if (r == OK) { vars = fr.back().saved; as.resize(fr.back().na); fr.pop_back(); } else poisoned = true; break; }
      case OPT: { Out r = OK;
        switch (o.a % 5) {
          case 4: {  // a value that is not accepted is refused and changes nothing
            static const char* keys[] = {":polytope", ":worklist-fixpoint", ":produce-models", ":precision", ":precision"}; const std::string key = keys[o.b % 5];
            dreal::optional<std::string> before, after; { Quiet q; before = c->GetOption(key); }
            r = sut([&] { if (o.b % 5 == 3) c->SetOption(key, -double(o.c % 3)); else if (o.b % 5 == 4) c->SetOption(key, std::nan("")); else c->SetOption(key, std::string("maybe")); }, &what);
            SIM_CHECK(r != OK, "refused", "the option %s accepts a bad value", key.c_str());
            { Quiet q; after = c->GetOption(key); }
            SIM_CHECK(bool(before) == bool(after) && (!before || *before == *after), "refused", "the refused value of the option %s is answered as '%s'", key.c_str(), after ? after->c_str() : "");
            if (r == OTHER) r = OK;
            sim::probe("refused_option"); break; }
          case 0: r = sut([&] { c->SetOption(":polytope", std::string(o.b & 1 ? "true" : "false")); }, &what); break;
          case 1: r = sut([&] { c->SetOption(":worklist-fixpoint", std::string(o.b & 1 ? "true" : "false")); }, &what); break;
          case 2: r = sut([&] { c->SetInfo(":status", std::string("sat")); }, &what); break;
          default: r = sut([&] { c->SetOption(":produce-models", std::string("true")); }, &what); break;
        }
        fault(r, what, "an option"); break; }
      case CHECK: check(); break;
    }
  }
  // Constraints that only contradict each other as a chain, of which the last one has an alternative.
  TP chain(uint64_t seed) {
    Rng g(seed * 0x9E3779B9u + pseed); std::vector<const Var*> v; for (auto& x : vars) if (x.type != 2 && x.slot < FAR) v.push_back(&x); if (v.size() < 2) return nullptr;
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[size_t(g.below(int64_t(i)))]); v.resize(size_t(g.range(2, int64_t(v.size()))));
    auto X = [&](size_t i) { return mk(VAR, nullptr, nullptr, v[i]->slot); }; auto C = [&](double x) { return mk(CST, nullptr, nullptr, 0, x); }; auto W = [&](size_t i) { return witness.v[v[i]->slot]; };
    auto leq = [&](TP a, TP b) { switch (g.below(4)) { case 0: return mk(REL, a, b, 1); case 1: return mk(REL, b, a, 3); case 2: return mk(NOT, mk(REL, a, b, 2)); default: return mk(NOT, mk(REL, b, a, 0)); } };
    auto alt = [&](TP a, TP b) { return g.chance(1, 2) ? mk(OR, a, b) : mk(OR, b, a); };
    double sum = 0; TP all; std::vector<TP> links;
    for (size_t i = 0; i + 1 < v.size(); ++i) { double d = W(i) - W(i + 1) + double(g.range(0, 3)) / 4; sum += d; TP l = g.chance(1, 2) ? leq(mk(SUB, X(i), X(i + 1)), C(d)) : g.chance(1, 2) ? leq(X(i), mk(ADD, X(i + 1), C(d))) : leq(mk(MUL, C(2), X(i)), mk(MUL, C(2), mk(ADD, X(i + 1), C(d)))); if (g.chance(1, 8)) l = alt(l, leq(X(i), C(W(i) - 0.5))); links.push_back(l); }
    // the bound on the last variable which the first one cannot follow
    const size_t k = v.size() - 1; const double cut = v[0]->lo - sum; double lo = cut - 0.25 * double(g.range(1, 4)); TP bad = leq(X(k), C(lo)); if (g.chance(1, 3)) bad = leq(mk(ADD, X(k), X(k)), C(2 * lo));
    TP good = leq(X(k), C(W(k) + double(g.range(0, 4)) / 4)); if (g.chance(1, 2)) good = leq(C(W(k) - double(g.range(0, 4)) / 4), X(k));
    links.push_back(alt(bad, good)); if (g.chance(1, 2)) links.push_back(alt(leq(C(W(0) + 0.25 + sum), X(k)), leq(C(W(k) - 1), X(k))));
    for (size_t i = links.size(); i > 1; --i) std::swap(links[i - 1], links[size_t(g.below(int64_t(i)))]); for (auto& l : links) all = all ? mk(AND, all, l) : l;
    return all;
  }
  static std::set<int> used(const T& t) { std::set<int> s; if (t.k == VAR || t.k == BV) s.insert(t.i); for (auto* x : {&t.a, &t.b, &t.f}) if (*x) for (int i : used(**x)) s.insert(i); return s; }
  void check() {
    dreal::optional<Box> res; std::string what; Out r; ++checks;
    const int64_t before = sim::steps(); const int sigs = g_sig_count;
    if (interrupts) {
      g_sig_step = -1;
      std::unique_ptr<dreal::SignalHandlerGuard> g; { Quiet q; g.reset(new dreal::SignalHandlerGuard(SIGINT, on_sigint, &dreal::g_interrupted)); }
      r = sut([&] { res = c->CheckSat(); }, &what);
      const int64_t late = g_sig_step < 0 ? 0 : sim::steps() - g_sig_step;
      SIM_CHECK(late <= bound, "interrupt", "the solver ran %lld steps on after it was interrupted", (long long)late);
      g.reset();
      SIM_CHECK(!dreal::g_interrupted, "interrupt", "the interrupt flag is still set after the guarded section");
      if (r == OTHER && what.find("KeyboardInterrupt") != std::string::npos) { SIM_CHECK(g_sig_count > sigs, "interrupt", "the solver reports an interrupt that did not happen"); sim::probe("interrupted"); sim::note(uint64_t(99)); return; }
    } else r = sut([&] { res = c->CheckSat(); }, &what);
    (void)before;
    Quiet q; sim::HarnessScope hs;
    if (r == OTHER && g_sig_count && what.find("KeyboardInterrupt") != std::string::npos) { sim::probe("interrupted"); return; }
    fault(r, what, "a satisfiability check");
    if (r != OK) { sim::note(uint64_t(98)); sim::probe("check_failed"); return; }
    if (p.param("jobs", 1) <= 1) sim::note(uint64_t(res ? 1 : 0));
    if (!res) { sim::probe("unsat"); SIM_CHECK(c->get_model().empty(), "model", "the stored model is not empty after unsat"); refute(); }
    else { sim::probe("sat"); verify(*res); }
  }
  std::string state() const { std::string s; for (auto& v : vars) { char b[80]; snprintf(b, sizeof b, "%s%d in [%g,%g]; ", v.type == 2 ? "b" : "x", v.slot, v.lo, v.hi); s += b; } for (auto& a : as) s += text(*a.t) + (a.sure ? "; " : " (?); "); return s; }
  int all(const Pt& pt) const { int r = 1; pt.undef = false; for (auto& a : as) { int h = holds(*a.t, pt); if (h == 0) return 0; if (h == 2) r = 2; } return pt.undef ? 2 : r; }  // undefined terms: no verdict
  // "unsat" is wrong if some point satisfies everything
  void refute() {
    Pt pt; Rng g(pseed ^ uint64_t(checks) * 1234567);
    for (int k = 0; k < 120; ++k) {
      for (auto& v : vars) {
        const double w = witness.v[v.slot]; double x;
        if (k == 0 || (k < 60 && g.chance(1, 2))) x = w; else if (v.type == 2) x = double(g.below(2)); else if (v.type == 1) x = std::ceil(v.lo) + double(g.below(int64_t(std::floor(v.hi) - std::ceil(v.lo)) + 1)); else x = v.lo + (v.hi - v.lo) * double(g.below(17)) / 16;
        if (x < v.lo || x > v.hi) x = v.type == 0 ? v.lo : std::ceil(v.lo);
        pt.v[v.slot] = x;
      }
      if (all(pt) == 1) { std::string s; for (auto& v : vars) { char b[60]; snprintf(b, sizeof b, "%d=%.17g ", v.slot, pt.v[v.slot]); s += b; } sim::fail("unsound-unsat", "the answer is unsat, but %s satisfies %s", s.c_str(), state().c_str()); }
    }
    sim::probe("unsat_unrefuted");
  }
  void verify(const Box& b) {
    std::set<std::string> want, have; for (auto& v : vars) if (v.model) want.insert(v.v.get_name());
    for (auto& v : b.variables()) SIM_CHECK(have.insert(v.get_name()).second, "model", "the model lists %s twice", v.get_name().c_str());
    SIM_CHECK(want == have, "model", "the model has %zu variables (%s), declared are %zu: %s", have.size(), have.empty() ? "" : have.begin()->c_str(), want.size(), state().c_str());
    SIM_CHECK(want.empty() || !b.empty(), "model", "a delta-sat answer has an empty model: %s", state().c_str());
    Dom d; d.delta = delta;
    for (auto& v : vars) {
      if (!v.model) { d.v[v.slot] = Iv{v.lo, v.hi}; continue; }
      const Box::Interval iv = b[v.v];
      SIM_CHECK(v.lo <= iv.lb() && iv.lb() <= iv.ub() && iv.ub() <= v.hi, "model", "%s = [%.17g, %.17g] leaves the domain [%g, %g]: %s", v.v.get_name().c_str(), iv.lb(), iv.ub(), v.lo, v.hi, state().c_str());
      SIM_CHECK(iv.ub() - iv.lb() <= delta + 1e-12, "model", "%s = [%.17g, %.17g] is wider than the precision %g", v.v.get_name().c_str(), iv.lb(), iv.ub(), delta);
      if (v.type) SIM_CHECK(iv.lb() == iv.ub() && iv.lb() == std::floor(iv.lb()), "model", "%s = [%.17g, %.17g] is not an integer: %s", v.v.get_name().c_str(), iv.lb(), iv.ub(), state().c_str());
      const double m = iv.lb() + (iv.ub() - iv.lb()) / 2; d.v[v.slot] = Iv{m, m};
    }
    for (auto& a : as) if (a.sure && !weak(*a.t, d).t) sim::fail("unsound-sat", "the model %s does not satisfy %s weakened by %g; all: %s", str(b).c_str(), text(*a.t).c_str(), delta, state().c_str());
    Box m2 = c->get_model(); SIM_CHECK(m2 == b, "model", "the stored model differs from the returned one");
  }
  void run() { int k = 0; for (const Op& o : p.ops) if ((k++) % n == who) step(o); check_last(); }
  void check_last() { if (c && !poisoned) { check(); } { c.reset(); } }
};
void run_solver(const Plan& p) {
  const int n = int(p.param("threads", 1));
  { Quiet q; (void)dreal::log(); }
  std::unique_ptr<dreal::SignalHandlerGuard> whole; if (p.param("deadline")) { Quiet q; whole.reset(new dreal::SignalHandlerGuard(SIGINT, on_sigint, &dreal::g_interrupted)); }
  std::vector<std::unique_ptr<Session>> ss; for (int i = 0; i < n; ++i) ss.emplace_back(new Session(p, i, n));
  std::vector<std::thread> th;
  { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&ss, i] { ss[size_t(i)]->run(); }); }
  ss[0]->run();
  for (auto& t : th) t.join();
  if (p.param("jobs", 1) > 1) SIM_CHECK(sim::live_threads() == 0, "thread-leak", "%d threads are left behind", sim::live_threads());
}
void gen_ops(Rng& g, Plan& p, int n, int threads) {
  // every session begins with some declarations
  for (int k = 0; k < 2; ++k) for (int t = 0; t < threads; ++t) p.ops.push_back(Op{DECL, g.below(1000), g.below(1000), g.range(1, 7), 0});
  static const int base[NK] = {5, 12, 6, 5, 7, 2, 2, 1, 4, 4};
  int w[NK], tot = 0; for (int i = 0; i < NK; ++i) { w[i] = base[i] * int(g.range(0, 3)); if (i == ASSERT || i == CHECK) w[i] += base[i]; tot += w[i]; }
  for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(1 << 30), g.below(1000), g.below(1000), 0}); }
}
void gen_params(Rng& g, Plan& p) {
  p.params["pseed"] = g.below(1 << 30); p.params["precision"] = g.chance(1, 12) ? g.range(4, 5) : g.below(4); p.params["ite"] = g.chance(1, 3); p.params["hard"] = g.chance(2, 3);
  p.params["polytope"] = g.chance(1, 4); p.params["worklist"] = g.chance(1, 4); p.params["left"] = g.chance(1, 3); p.params["rseed"] = g.chance(1, 3) ? g.below(1000) : 0; p.params["phase"] = g.below(4);
}
// histories of one context
void gen_ctx(Rng& g, Plan& p, int tier) { p.mode = 0; gen_params(g, p); gen_ops(g, p, int(g.range(3, tier ? 40 : 24)), 1); p.params["guard"] = 1; p.faults.push_back(Fault{sim::F_SIGINT, DEADLINE, 2, -1}); }
// interrupted at arbitrary steps
void gen_int(Rng& g, Plan& p, int tier) { gen_ctx(g, p, tier); int n = int(g.range(1, 3)); for (int i = 0; i < n; ++i) p.faults.push_back(Fault{sim::F_SIGINT, log_uniform(g, 1, 20000), 1, 0}); if (g.chance(1, 2)) { p.params["jobs"] = g.range(2, 4); gen_sched(g, p, 20000); } }
// memory and thread failures
void gen_mem(Rng& g, Plan& p, int tier) { gen_ctx(g, p, tier); gen_alloc_faults(g, p, 8000, 5); if (g.chance(1, 3)) { p.params["jobs"] = g.range(2, 3); gen_sched(g, p, 20000); if (g.chance(1, 3)) p.faults.push_back(Fault{sim::F_THREAD, g.range(1, 6), 0, 0}); } }
// parallel search
void gen_par(Rng& g, Plan& p, int tier) { gen_params(g, p); gen_sched(g, p, 20000); p.params["jobs"] = g.range(2, 4); gen_ops(g, p, int(g.range(3, tier ? 24 : 14)), 1); p.params["guard"] = 1; p.faults.push_back(Fault{sim::F_SIGINT, DEADLINE, 2, -1}); if (g.chance(1, 4)) gen_stalls(g, p, 8000, 3); if (g.chance(1, 4)) gen_spurious(g, p, 30); }
// independent contexts in several threads
void gen_multi(Rng& g, Plan& p, int tier) { gen_params(g, p); gen_sched(g, p, 30000); p.params["threads"] = g.range(2, 3); if (g.chance(1, 4)) p.params["jobs"] = 2; gen_ops(g, p, int(g.range(4, tier ? 36 : 20)), int(p.params["threads"])); p.params["guard"] = 0; p.params["deadline"] = 1; p.faults.push_back(Fault{sim::F_SIGINT, 400000, 0, 0}); p.params["hard"] = g.chance(1, 3); p.params["precision"] = g.range(1, 3); if (g.chance(1, 4)) gen_stalls(g, p, 8000, 3); }
sim::Registrar r0({"ctx", gen_ctx, run_solver}), r1({"ctxint", gen_int, run_solver}), r2({"ctxmem", gen_mem, run_solver}), r3({"ctxpar", gen_par, run_solver}), r4({"ctxmulti", gen_multi, run_solver});
}  // namespace
