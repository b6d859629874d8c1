// Minimisation: Context::Minimize and Maximize over histories with scopes, one or two objectives, sequential and parallel.
#include <atomic>
#include "dreal/api/api.h"
#include "dreal/util/logging.h"
#include "minmodel.h"
using namespace prob;
namespace {
enum K { DECL, ASSERT, PUSH, POP, MIN_, CHECK, API, CHAIN, NK };
std::atomic<int> g_sigs{0};
void on_sig(int) { dreal::g_interrupted = true; sim::HarnessScope h; ++g_sigs; }
constexpr int64_t DEADLINE = 40000;
struct Frame { size_t nv, na, ng; };
struct S {
  const Plan& p; int who, n; uint64_t ps; std::unique_ptr<Context> c; double delta{0.01}; bool poisoned{false};
  std::vector<Var> vars; std::vector<TP> as; std::vector<Goal> goals; std::vector<size_t> goal_as; std::vector<Frame> fr; Pt w; int slot{0}, checks{0}; const Variable untouched_{"u"};
  S(const Plan& pl, int i, int m) : p(pl), who(i), n(m), ps(uint64_t(pl.param("pseed", 1)) * 991 + uint64_t(i)) {}
  Config config() const { Config f; static const double pr[] = {0.01, 0.02, 0.05, 0.125}; f.mutable_precision() = pr[p.param("precision") & 3]; if (p.param("jobs", 1) > 1) f.mutable_number_of_jobs() = int(p.param("jobs", 1)); if (p.param("polytope")) { f.mutable_use_polytope() = true; f.mutable_use_polytope_in_forall() = true; } if (p.param("local")) f.mutable_use_local_optimization() = true; if (p.param("worklist")) f.mutable_use_worklist_fixpoint() = true; if (p.param("left")) f.mutable_stack_left_box_first() = true; return f; }
  Closed closed(Rng& g) { std::vector<int> sl; for (auto& v : vars) sl.push_back(v.slot); return Closed{g, sl, bool(p.param("hard")), w}; }
  std::vector<MVar> mvars() const { std::vector<MVar> r; for (auto& v : vars) r.push_back(MVar{v.slot, v.type, v.lo, v.hi}); return r; }
  Syms syms() const { Syms s; for (auto& v : vars) s.emplace(v.slot, v.v); return s; }
  bool fault(Out r, const std::string& what, const char* op) {
    if (r == OK) return true;
    const bool intr = g_sigs && what.find("KeyboardInterrupt") != std::string::npos;
    SIM_CHECK(intr || (sim::faults_fired() && r != OTHER), "unexpected-exception", "%s fails: %s; %s", op, what.c_str(), state().c_str()); if (intr) sim::probe("interrupted");
    poisoned = true; return false;
  }
  bool fresh() { { Quiet q; sim::HarnessScope hs; vars.clear(); as.clear(); goals.clear(); goal_as.clear(); fr.clear(); } { Quiet q; c.reset(); } poisoned = false; Config f = config(); delta = f.precision(); std::string what; Out r = sut([&] { c.reset(new Context(f)); }, &what); if (!fault(r, what, "construction")) { Quiet q; c.reset(); return false; } return true; }
  void step(const Op& o) {
    if (!c || poisoned) { if (!fresh()) return; }
    std::string what; Rng g(uint64_t(o.a) * 77773 + ps); sim::note(uint64_t(o.k));
    switch (o.k) {
      case DECL: { if (vars.size() >= size_t(p.param("nvars", 3))) return; Var v; { Quiet q; sim::HarnessScope hs; static const double lo[] = {-2, 0, -1, 1, -1}, hi[] = {2, 2, 1, 3, 0.5}; int d = int(g.below(5)); v.type = g.chance(1, 5) ? 1 : 0; v.lo = lo[d]; v.hi = v.type ? std::ceil(hi[d]) : hi[d]; v.model = true; v.slot = slot++; v.v = Variable("x" + std::to_string(v.slot), v.type ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS); w.v[v.slot] = v.type ? v.lo + double(g.below(int64_t(v.hi - v.lo) + 1)) : v.lo + 0.25 * double(g.below(int64_t((v.hi - v.lo) * 4) + 1)); }
        Out r = sut([&] { c->DeclareVariable(v.v, v.lo, v.hi); }, &what); if (fault(r, what, "a declaration")) vars.push_back(v); break; }
      case ASSERT: { if (vars.empty()) return; TP t; { Quiet q; sim::HarnessScope hs; t = closed(g).constraint(int(g.below(3))); } Out r = sut([&] { c->Assert(form(*t, syms())); }, &what); if (fault(r, what, "an assertion")) as.push_back(t); break; }
      case PUSH: { if (fr.size() >= 3) return; Out r = sut([&] { c->Push(1); }, &what); if (fault(r, what, "push")) fr.push_back({vars.size(), as.size(), goals.size()}); break; }
      case POP: { if (fr.empty()) return; Out r = sut([&] { c->Pop(1); }, &what); if (fault(r, what, "pop")) { vars.resize(fr.back().nv, vars[0]); as.resize(fr.back().na); goals.resize(fr.back().ng); goal_as.resize(fr.back().ng); fr.pop_back(); } break; }
      case MIN_: { if (vars.empty() || !goals.empty()) return; Goal x; bool mx = false; { Quiet q; sim::HarnessScope hs; int m = g.chance(1, 5) ? 2 : 1; for (int i = 0; i < m; ++i) x.f.push_back(closed(g).term()); x.vars = mvars(); x.as = as; mx = m == 1 && g.chance(1, 3); }
        Out r = sut([&] { std::vector<Expression> es; for (auto& t : x.f) es.push_back(expr(*t, syms())); if (mx) c->Maximize(es[0]); else if (es.size() == 1) c->Minimize(es[0]); else c->Minimize(es); }, &what);
        if (mx) { Quiet q; sim::HarnessScope hs; x.f[0] = mk(NEGT, x.f[0]); }
        if (fault(r, what, "an objective")) { goals.push_back(x); goal_as.push_back(as.size()); } break; }
      // Every variable is bounded by the next, in any order of the assertions; the first one is minimised.
      case CHAIN: {
        if (vars.size() < 2 || !goals.empty()) return; std::vector<TP> ts; Goal x;
        { Quiet q; sim::HarnessScope hs; std::vector<int> sl = closed(g).slots; for (size_t i = sl.size() - 1; i > 0; --i) std::swap(sl[i], sl[size_t(g.below(int64_t(i) + 1))]); const double dir = g.chance(1, 2) ? 1 : -1; auto V = [&](int v) { return mk(MUL, mk(CST, nullptr, nullptr, 0, dir), mk(VAR, nullptr, nullptr, v)); };
          for (size_t i = 0; i + 1 < sl.size(); ++i) { TP d = mk(SUB, V(sl[i]), V(sl[i + 1])); bool u = false; ts.push_back(mk(REL, d, mk(CST, nullptr, nullptr, 0, num(*d, w, u).v - double(g.range(0, 3)) / 4), 3)); }
          TP l = V(sl.back()); bool u = false; ts.push_back(mk(REL, mk(ADD, l, l), mk(CST, nullptr, nullptr, 0, 2 * num(*l, w, u).v - double(g.range(0, 2)) / 4), 3));
          if (g.chance(1, 2)) std::reverse(ts.begin(), ts.end()); else for (size_t i = ts.size() - 1; i > 0; --i) std::swap(ts[i], ts[size_t(g.below(int64_t(i) + 1))]);
          x.f.push_back(V(sl[0])); x.vars = mvars(); }
        for (auto& t : ts) { Out r = sut([&] { c->Assert(form(*t, syms())); }, &what); if (!fault(r, what, "an assertion")) return; as.push_back(t); }
        x.as = as; Out r = sut([&] { c->Minimize(expr(*x.f[0], syms())); }, &what); if (fault(r, what, "an objective")) { goals.push_back(x); goal_as.push_back(as.size()); sim::probe("chain"); } break; }
      case CHECK: check(); break;
      case API: api(g); break;
    }
  }
  std::string state() const { std::string s; for (auto& v : vars) { char b[80]; snprintf(b, sizeof b, "x%d in [%g,%g]%s; ", v.slot, v.lo, v.hi, v.type ? " int" : ""); s += b; } for (auto& a : as) s += text(*a) + "; "; for (auto& x : goals) for (auto& f : x.f) s += "minimize " + text(*f) + (x.f.size() > 1 ? " (one of several)" : "") + "; "; return s; }
  void check() {
    ++checks; dreal::optional<Box> res; std::string what; Out r = sut([&] { res = c->CheckSat(); }, &what);
    if (!fault(r, what, "a check")) return;
    Quiet q; sim::HarnessScope hs; if (p.param("jobs", 1) <= 1) sim::note(uint64_t(res ? 1 : 0));
    // Assertions made after an objective may exclude its minima; before, all of them are satisfiable together.
    bool later = false; for (size_t i = 0; i < goal_as.size(); ++i) later = later || goal_as[i] != as.size(); if (goals.size() > 1) later = true;
    judge(res, goals, later);
  }
  void judge(const dreal::optional<Box>& res, const std::vector<Goal>& gs, bool later) {
    if (!res) { sim::probe("unsat"); SIM_CHECK(later, "minimum", "the answer is unsat although a minimum exists: %s", state().c_str()); return; }
    sim::probe(gs.empty() ? "sat" : "sat_minimum"); const Box& b = *res; Dom d; d.delta = delta; Dom whole; whole.delta = delta;
    SIM_CHECK(size_t(b.size()) == vars.size(), "minimum", "the model has %d variables, declared are %zu: %s", b.size(), vars.size(), state().c_str());
    for (auto& v : vars) { SIM_CHECK(b.has_variable(v.v), "minimum", "the model lacks x%d", v.slot); const Box::Interval iv = b[v.v]; SIM_CHECK(v.lo <= iv.lb() && iv.lb() <= iv.ub() && iv.ub() <= v.hi && iv.ub() - iv.lb() <= delta + 1e-12 && (!v.type || (iv.lb() == iv.ub() && iv.lb() == std::floor(iv.lb()))), "minimum", "x%d = [%.17g, %.17g] leaves its domain, is too wide or not an integer: %s", v.slot, iv.lb(), iv.ub(), state().c_str()); double m = iv.lb() + (iv.ub() - iv.lb()) / 2; d.v[v.slot] = Iv{m, m}; whole.v[v.slot] = Iv{iv.lb(), iv.ub()}; }
    for (auto& a : as) SIM_CHECK(weak(*a, d).t, "minimum", "the model %s does not satisfy %s weakened by %g: %s", str(b).c_str(), text(*a).c_str(), delta, state().c_str());
    if (no_better(gs, whole, w, ps * 5 + uint64_t(checks), "minimum", [&] { return str(b) + ": " + state(); })) sim::probe("compared");
  }
  // the functions of dreal.h with everything in one call
  void api(Rng& g) {
    if (vars.empty() || !fr.empty() || !goals.empty()) return;
    Goal x; Formula f; Expression e; std::vector<TP> keep; bool only_sat = false, never = false; int way = 0; const double d = config().precision();
    { Quiet q; sim::HarnessScope hs; keep = as; x.vars = mvars(); x.as = as; x.f.push_back(closed(g).term()); f = Formula::True(); for (auto& v : vars) f = f && v.v >= v.lo && v.v <= v.hi; for (auto& a : as) f = f && form(*a, syms()); e = expr(*x.f[0], syms()); way = int(g.below(4)); only_sat = g.chance(1, 3); never = g.chance(1, 4);
      // no point is near to both sides
      if (never) { const Var& v = vars[size_t(g.below(int64_t(vars.size())))]; f = g.chance(1, 2) ? f && v.v <= v.lo - 1 : f && v.v >= v.hi + 1; } }
    std::string what; dreal::optional<Box> res; Box b; bool ok = false; const Config cf = config(); { Quiet q; b.Add(untouched_, 3, 5); }
    Out r = sut([&] { switch (way) {
      case 0: res = only_sat ? dreal::CheckSatisfiability(f, cf) : dreal::Minimize(e, f, cf); break;
      case 1: ok = only_sat ? dreal::CheckSatisfiability(f, cf, &b) : dreal::Minimize(e, f, cf, &b); break;
      case 2: res = only_sat ? dreal::CheckSatisfiability(f, d) : dreal::Minimize(e, f, d); break;
      default: ok = only_sat ? dreal::CheckSatisfiability(f, d, &b) : dreal::Minimize(e, f, d, &b); break; } }, &what);
    if (!fault(r, what, "a call of the interface")) return;
    Quiet q; sim::HarnessScope hs; if (way & 1) { if (ok) res = b; else SIM_CHECK(b.size() == 1 && b.has_variable(untouched_) && b[0].lb() == 3 && b[0].ub() == 5, "minimum", "the answer is unsat and the box is changed to %s: %s", str(b).c_str(), state().c_str()); }
    ++checks; sim::probe("api"); if (never) { sim::probe("api_unsat"); SIM_CHECK(!res, "minimum", "the answer is %s although a variable has to be 1 away from its domain: %s", str(*res).c_str(), state().c_str()); return; }
    std::vector<Goal> gs; if (!only_sat) gs.push_back(x); judge(res, gs, false);
  }
  void run() { int k = 0; for (const Op& o : p.ops) if ((k++) % n == who) step(o); if (c && !poisoned) check(); { Quiet q; c.reset(); } }
};
void run_min(const Plan& p) {
  const int n = int(p.param("threads", 1)); { Quiet q; (void)dreal::log(); }
  std::unique_ptr<dreal::SignalHandlerGuard> sg; { Quiet q; sg.reset(new dreal::SignalHandlerGuard(SIGINT, on_sig, &dreal::g_interrupted)); }
  std::vector<std::unique_ptr<S>> ss; for (int i = 0; i < n; ++i) { Quiet q; ss.emplace_back(new S(p, i, n)); }
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&ss, i] { ss[size_t(i)]->run(); }); }
  ss[0]->run(); for (auto& t : th) t.join();
  if (p.param("jobs", 1) > 1) SIM_CHECK(sim::live_threads() == 0, "thread-leak", "%d threads are left behind", sim::live_threads());
}
void gen_min(Rng& g, Plan& p, int tier) {
  p.mode = 0; p.params["pseed"] = g.below(1 << 30); p.params["precision"] = g.below(4); p.params["hard"] = g.chance(1, 2); p.params["nvars"] = g.range(2, 4); p.params["polytope"] = g.chance(1, 5); p.params["local"] = g.chance(1, 4); p.params["worklist"] = g.chance(1, 5); p.params["left"] = g.chance(1, 3);
  int threads = 1; if (g.chance(1, 5)) { gen_sched(g, p, 30000); if (g.chance(1, 2)) p.params["jobs"] = g.range(2, 3); else p.params["threads"] = threads = 2; }
  for (int64_t t = threads * g.range(1, p.params["nvars"]); t > 0; --t) p.ops.push_back(Op{DECL, g.below(1 << 30), 0, 0, 0});
  static const int base[NK] = {4, 7, 3, 2, 6, 4, 2, 3}; int w[NK], tot = 0; for (int i = 0; i < NK; ++i) { w[i] = base[i] * int(g.range(0, 3)); if (i == MIN_ || i == ASSERT) w[i] += base[i]; tot += w[i]; }
  int n = int(g.range(2, tier ? 20 : 12)); for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(1 << 30), 0, 0, 0}); }
  p.faults.push_back(Fault{sim::F_SIGINT, threads > 1 ? 400000 : DEADLINE * 2, 0, 0}); if (g.chance(1, 8)) p.faults.push_back(Fault{sim::F_SIGINT, log_uniform(g, 10, 20000), 0, 0}); if (threads == 1 && g.chance(1, 8)) gen_alloc_faults(g, p, 8000, 3);
}
sim::Registrar r0({"minimize", gen_min, run_min});
}  // namespace
