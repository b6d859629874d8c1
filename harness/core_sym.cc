// Symbolic values: value semantics under sharing, concurrent sharing, failure atomicity of bystanders, leaks.
#include "symops.h"
using namespace symops;
namespace {
struct Snap { std::string s; size_t h; };
Snap snap(const Expression& e) { return Snap{e.to_string(), e.get_hash()}; }
Snap snap(const Formula& f) { return Snap{f.to_string(), f.get_hash()}; }

template <class T> void check_names(const Ctx& cx, const T& t, const Variables& vars, unsigned allowed, const char* cls, const char* when) {
  const std::string s = t.to_string(); unsigned in = 0, have = 0;
  for (size_t i = 0; i + 1 < s.size(); ++i) if ((s[i] == 'x' || s[i] == 'b') && isdigit(s[i + 1]) && (i == 0 || !isalnum(s[i - 1]))) in |= 1u << (s[i] == 'x' ? s[i + 1] - '0' : NV + s[i + 1] - '0');
  for (const Variable& v : vars) {
    int id = -1; for (int k = 0; k < NV; ++k) if (cx.x[k].equal_to(v)) id = k; for (int k = 0; k < NB; ++k) if (cx.b[k].equal_to(v)) id = NV + k;
    SIM_CHECK(id >= 0 && (allowed >> id & 1), cls, "%s: %s mentions the foreign variable %s", when, s.c_str(), v.get_name().c_str());
    have |= 1u << id;
  }
  SIM_CHECK((have & ~in) == 0, cls, "%s: %s reports a variable it does not mention", when, s.c_str());
  if (s.find("forall") == std::string::npos) SIM_CHECK(have == in, cls, "%s: %s mentions a variable that it does not report", when, s.c_str());
  SIM_CHECK(t.include_ite() == (s.find("(if ") != std::string::npos), cls, "%s: %s is reported %s an if-then-else", when, s.c_str(), t.include_ite() ? "to include" : "not to include");
}
template <class T> bool prefix_form(const T& t, std::string* out) {
  std::string what; Out r; { sim::HarnessScope hs; try { *out = dreal::ToPrefix(t); r = OK; } catch (const std::exception& x) { what = x.what(); r = OTHER; } }
  const std::string s = t.to_string();
  if (r != OK) { SIM_CHECK(s.find("NaN") != std::string::npos || s.find("forall") != std::string::npos || s.find("uf(") != std::string::npos || s.find("vf(") != std::string::npos, "prefix", "%s has no prefix form: %s", s.c_str(), what.c_str()); return false; }
  return true;
}
// evaluation of uninterpreted functions and quantifiers is refused
bool opaque(const std::string& s) { return s.find("uf(") != std::string::npos || s.find("vf(") != std::string::npos || s.find("forall") != std::string::npos; }
void check_e(const Pool& P, int i, const char* when) {
  const EM& m = P.em[i]; const Expression& e = P.E[i];
  check_names(P.cx, e, e.GetVariables(), m.vars, "expr-variables", when);
  std::string pre; bool have = prefix_form(e, &pre); const std::string txt = e.to_string();
  for (int p = 0; p < NPT; ++p) {
    if (!m.known[p]) continue;
    double v; try { v = e.Evaluate(P.cx.env[p]); } catch (const std::exception& x) { if (opaque(e.to_string()) || (m.n->raw && e.include_ite())) continue; sim::fail("expr-value", "%s: %s cannot be evaluated: %s", when, e.to_string().c_str(), x.what()); }
    SIM_CHECK(std::fabs(v - m.v[p]) <= 1e-6 * (1 + m.m[p]), "expr-value", "%s: %s evaluates to %.12g at point %d, the operation history says %.12g", when, e.to_string().c_str(), v, p, m.v[p]);
    if (txt.find("inf") == std::string::npos && txt.find("nan") == std::string::npos) { Infix r{txt, p}; double w = r.read(); SIM_CHECK(!r.bad, "printed", "%s is not well formed (at %zu)", txt.c_str(), r.i);
      if (!r.unk) SIM_CHECK(std::fabs(w - m.v[p]) <= 1e-6 * (1 + m.m[p]), "printed", "%s: the text %s evaluates to %.12g instead of %.12g at point %d", when, txt.c_str(), w, m.v[p], p); }
    if (have) { Prefix r{pre, p}; double w = r.num(); if (pre.find("inf") == std::string::npos && pre.find("nan") == std::string::npos) { SIM_CHECK(!r.bad && r.i == pre.size(), "prefix", "%s is printed as %s, which is not well formed", e.to_string().c_str(), pre.c_str());
      SIM_CHECK(std::fabs(w - m.v[p]) <= 1e-6 * (1 + m.m[p]), "prefix", "%s: %s is printed as %s, which evaluates to %.12g instead of %.12g", when, e.to_string().c_str(), pre.c_str(), w, m.v[p]); } }
  }
}
void check_f(const Pool& P, int i, const char* when) {
  const FM& m = P.fm[i]; const Formula& f = P.F[i];
  check_names(P.cx, f, f.GetFreeVariables(), m.vars, "formula-variables", when);
  std::string pre; bool have = prefix_form(f, &pre); const std::string txt = f.to_string();
  for (int p = 0; p < NPT; ++p) {
    if (m.t[p] == 2) continue;
    bool v; try { v = f.Evaluate(P.cx.env[p]); } catch (const std::exception& x) { if (opaque(f.to_string()) || m.n->raw) { const int t = ev3(f, P.cx.env[p]); if (t != 2) sim::probe("quantified_points"); SIM_CHECK(t == 2 || t == m.t[p], "formula-value", "%s: %s is %d at point %d, the operation history says %d", when, f.to_string().c_str(), t, p, m.t[p]); continue; } sim::fail("formula-value", "%s: %s cannot be evaluated: %s", when, f.to_string().c_str(), x.what()); }
    SIM_CHECK(v == (m.t[p] == 1), "formula-value", "%s: %s evaluates to %d at point %d, the operation history says %d", when, f.to_string().c_str(), v, p, m.t[p]);
    if (txt.find("inf") == std::string::npos && txt.find("nan") == std::string::npos) { Infix r{txt, p}; double w = r.read(); SIM_CHECK(!r.bad, "printed", "%s is not well formed (at %zu)", txt.c_str(), r.i);
      if (!r.unk) SIM_CHECK((w != 0) == v, "printed", "%s: the text %s is %d instead of %d at point %d", when, txt.c_str(), w != 0, v, p); }
    if (have && pre.find("inf") == std::string::npos && pre.find("nan") == std::string::npos) { Prefix r{pre, p}; double w = r.num(); SIM_CHECK(!r.bad && r.i == pre.size(), "prefix", "%s is printed as %s, which is not well formed", f.to_string().c_str(), pre.c_str());
      SIM_CHECK((w != 0) == v, "prefix", "%s: %s is printed as %s, which is %d instead of %d at point %d", when, f.to_string().c_str(), pre.c_str(), w != 0, v, p); }
  }
}
// the order of formulas takes time exponential in their nesting
int nesting(const std::string& s) { int d = 0, m = 0; for (char c : s) { if (c == '(') m = std::max(m, ++d); else if (c == ')') --d; } return m; }
template <class T> void check_order(const T& a, const T& b) {
  bool eq = a.EqualTo(b), l = a.Less(b), g = b.Less(a);
  SIM_CHECK(eq == b.EqualTo(a), "order", "structural equality is not symmetric: %s / %s", a.to_string().c_str(), b.to_string().c_str());
  if (eq) SIM_CHECK(!l && !g && a.get_hash() == b.get_hash() && a.to_string() == b.to_string(), "order", "equal values differ in order, hash or text: %s / %s", a.to_string().c_str(), b.to_string().c_str());
  else SIM_CHECK(l != g, "order", "values that are not equal are not strictly ordered: %s / %s", a.to_string().c_str(), b.to_string().c_str());
}

template <class T> void check_transitive(const std::vector<T>& v, int i) {
  const int n = int(v.size()); std::vector<bool> lo(n), hi(n);
  for (int j = 0; j < n; ++j) { lo[j] = v[j].Less(v[i]); hi[j] = v[i].Less(v[j]); }
  for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) {
    if (lo[j] && hi[k]) SIM_CHECK(v[j].Less(v[k]), "order", "the order is not transitive: %s < %s < %s", v[j].to_string().c_str(), v[i].to_string().c_str(), v[k].to_string().c_str());
    if (hi[j] && !hi[k] && v[j].Less(v[k])) sim::fail("order", "the order is not transitive: %s < %s < %s", v[i].to_string().c_str(), v[j].to_string().c_str(), v[k].to_string().c_str());
  }
}
void alias_body(const Plan& p, const Ctx& cx, bool oracle) {
  Pool P(cx);
  std::vector<Snap> se, sf;
  { sim::HarnessScope hs; for (auto& e : P.E) se.push_back(snap(e)); for (auto& f : P.F) sf.push_back(snap(f)); }
  for (const Op& o : p.ops) {
    Touch t = touched(o);
    std::string what;
    const std::string operand = o.k == DIFF ? se[size_t(ei(o.b))].s : std::string();
    Out r = sut([&] { apply(o, P); }, &what);
    Quiet q;
    sim::HarnessScope hs;
    if (oracle && o.k >= F_REL) ties(cx, opseed(o), 1, "formula-value");
    if (oracle && o.k < F_REL && o.a % 3 == 0) polys(cx, opseed(o), "expr-expand");
    if (oracle && opseed(o) % 40 == 7) wides(opseed(o), 1, "formula-value");
    SIM_CHECK(r == OK || r == NOMEM || (r == OTHER && may_refuse(o, operand, P)), "unexpected-exception", "an operation on symbolic values failed: %s", what.c_str());
    if (r == OK) model(o, P);
    else { // contents of the operation's own outputs are unspecified; everything else must be untouched
      if (t.e >= 0) P.reset_e(t.e); if (t.e2 >= 0) P.reset_e(t.e2); if (t.f >= 0) P.reset_f(t.f); if (t.f2 >= 0) P.reset_f(t.f2);
    }
    sim::note(uint64_t(r));
    for (int i = 0; i < NE; ++i) {
      bool mine = i == t.e || i == t.e2;
      Snap s = snap(P.E[i]);
      if (!mine) SIM_CHECK(s.s == se[i].s && s.h == se[i].h, "bystander-changed", "operation %lld on another value changed %s into %s", (long long)o.k, se[i].s.c_str(), s.s.c_str());
      if (mine && (s.s.find("nan") != std::string::npos || s.s.find("inf") != std::string::npos)) { P.reset_e(i); s = snap(P.E[i]); }  // overflowing constants
      if (mine) { check_e(P, i, "after an operation"); for (int j = 0; j < NE; ++j) check_order(P.E[i], P.E[j]); check_transitive(P.E, i); }
      if (mine && (s.s.size() > 400 || !mag_ok(P.em[i]))) { P.reset_e(i); s = snap(P.E[i]); }
      if (mine && i == t.e) sim::note(s.s);
      se[i] = s;
    }
    for (int i = 0; i < NF; ++i) {
      bool mine = i == t.f || i == t.f2;
      Snap s = snap(P.F[i]);
      if (!mine) SIM_CHECK(s.s == sf[i].s && s.h == sf[i].h, "bystander-changed", "operation %lld on another value changed %s into %s", (long long)o.k, sf[i].s.c_str(), s.s.c_str());
      if (mine && nesting(s.s) > 12) { P.reset_f(i); s = snap(P.F[i]); }
      if (mine) { check_f(P, i, "after an operation"); for (int j = 0; j < NF; ++j) check_order(P.F[i], P.F[j]); check_transitive(P.F, i); }
      if (mine && (s.s.size() > 600 || !mag_ok(P.fm[i]))) { P.reset_f(i); s = snap(P.F[i]); }
      if (mine && i == t.f) sim::note(s.s);
      sf[i] = s;
    }
  }
}
void run_alias(const Plan& p) {
  Ctx cx;
  // process-wide constants are created once: warm them up outside the leak window
  { Quiet q; sim::HarnessScope hs; Plan w = p; alias_body(w, cx, true); }
  sim::leak_mark();
  alias_body(p, cx, true);
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks leaked", (long long)lost); }
}
void gen_alias(Rng& g, Plan& p, int tier) {
  p.mode = 0; gen_ops(g, p, int(g.range(3, tier ? 60 : 35)), g.chance(1, 2));
}
void gen_aliasmem(Rng& g, Plan& p, int tier) { gen_alias(g, p, tier); gen_alloc_faults(g, p, 1500, 6); }
sim::Registrar r0({"alias", gen_alias, run_alias}), r0b({"aliasmem", gen_aliasmem, run_alias});

// ------------------------------------------------------------------ concurrent sharing
struct Worker {
  const Ctx* cx; const Plan* p; int who, n; std::vector<Expression> E0; std::vector<Formula> F0;
  std::vector<std::string> log; bool diverged{false};
  void run(bool check, const std::vector<std::string>* expect) {
    Pool P(*cx);
    { for (int i = 0; i < NE; ++i) P.E[i] = E0[i]; for (int i = 0; i < NF; ++i) P.F[i] = F0[i]; }
    if (p->param("drop")) { E0.clear(); F0.clear(); }
    int k = 0, idx = 0;
    for (const Op& o : p->ops) {
      if ((k++) % n != who) continue;
      Touch t = touched(o);
      Out r = sut([&] { apply(o, P); });
      if (r != OK) { if (r != OTHER) diverged = true; Quiet q; if (t.e >= 0) P.reset_e(t.e); if (t.e2 >= 0) P.reset_e(t.e2); if (t.f >= 0) P.reset_f(t.f); if (t.f2 >= 0) P.reset_f(t.f2); }
      // observe the result through the public interface (not a harness scope: reads are part of the property)
      std::string s; size_t h = 0; double v = 0; 
      { sim::SutScope ss; Quiet q;
        if (t.e >= 0) { s = P.E[t.e].to_string(); h = P.E[t.e].get_hash(); try { v = P.E[t.e].Evaluate(cx->env[size_t(o.d % NPT)]); } catch (const std::exception&) { v = -1; } s += "/" + std::to_string(P.E[t.e].GetVariables().size()); }
        else { s = P.F[t.f].to_string(); h = P.F[t.f].get_hash(); try { v = P.F[t.f].Evaluate(cx->env[size_t(o.d % NPT)]); } catch (const std::exception&) { v = -1; } s += "/" + std::to_string(P.F[t.f].GetFreeVariables().size()); } }
      if (s.size() > 400 || nesting(s) > 12) { if (t.e >= 0) P.reset_e(t.e); else P.reset_f(t.f); }
      sim::HarnessScope hs;
      char buf[64]; snprintf(buf, sizeof buf, "|%zx|%.17g", h, v); s += buf;
      if (expect && !diverged) {
        SIM_CHECK(size_t(idx) < expect->size() && (*expect)[idx] == s, "shared-result", "thread %d, operation %d: got %s, the same operation alone gives %s", who, idx, s.c_str(), size_t(idx) < expect->size() ? (*expect)[idx].c_str() : "-");
      } else if (!expect) log.push_back(s);
      ++idx;
    }
  }
};
void run_share(const Plan& p) {
  Ctx cx; const int n = int(p.param("threads", 2));
  std::vector<std::vector<std::string>> expect(n);
  Plan half = p;
  auto build = [&](std::vector<Expression>& E, std::vector<Formula>& F) {
    Pool P(cx); for (size_t i = 0; i < p.ops.size() && i < 12; ++i) { Op o = p.ops[p.ops.size() - 1 - i]; if (sut([&] { apply(o, P); }) != OK) { P.reset_e(ei(o.a)); P.reset_e(ei(o.b)); P.reset_e(ei(o.c)); P.reset_f(fi(o.a)); P.reset_f(fi(o.b)); } if (P.E[ei(o.a)].to_string().size() > 200) P.reset_e(ei(o.a)); if (P.F[fi(o.a)].to_string().size() > 200) P.reset_f(fi(o.a)); }
    E = P.E; F = P.F; };
  {
    Quiet q; sim::HarnessScope hs;
    std::vector<Expression> E; std::vector<Formula> F; build(E, F);
    for (int i = 0; i < n; ++i) { Worker w{&cx, &p, i, n, E, F, {}, false}; w.run(false, nullptr); expect[i] = w.log; }
  }
  sim::leak_mark();
  {
    std::vector<Expression> E; std::vector<Formula> F; std::vector<Snap> se, sf;
    { Quiet q; sim::HarnessScope hs; build(E, F); for (auto& e : E) se.push_back(snap(e)); for (auto& f : F) sf.push_back(snap(f)); }
    std::vector<std::unique_ptr<Worker>> ws; std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) ws.emplace_back(new Worker{&cx, &p, i, n, E, F, {}, false});
    {  Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&ws, &expect, i] { ws[i]->run(true, &expect[i]); }); }
    if (p.param("drop") == 2) { E.clear(); F.clear(); }
    ws[0]->run(true, &expect[0]);
    for (auto& t : th) t.join();
    if (p.param("drop") != 2) { sim::HarnessScope hs; for (int i = 0; i < NE; ++i) { Snap s = snap(E[i]); SIM_CHECK(s.s == se[i].s && s.h == se[i].h, "bystander-changed", "a shared value changed from %s to %s", se[i].s.c_str(), s.s.c_str()); }
      for (int i = 0; i < NF; ++i) { Snap s = snap(F[i]); SIM_CHECK(s.s == sf[i].s && s.h == sf[i].h, "bystander-changed", "a shared value changed from %s to %s", sf[i].s.c_str(), s.s.c_str()); } }
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks leaked", (long long)lost); }
}
void gen_share(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 20000); gen_ops(g, p, int(g.range(4, tier ? 60 : 36)), g.chance(1, 3));
  p.params["threads"] = g.range(2, 4); p.params["drop"] = g.below(3);
  if (g.chance(1, 4)) gen_stalls(g, p, 8000, 3);
  if (g.chance(1, 4)) gen_alloc_faults(g, p, 1500, 4);
}
sim::Registrar r1({"share", gen_share, run_share});

// ------------------------------------------------------------------ identities of variables
void run_vars(const Plan& p) {
  const int n = int(p.param("threads", 3));
  std::map<size_t, std::string> ids; std::vector<Variable> all;
  { Quiet q; sim::HarnessScope hs; std::set<size_t> many; const int64_t before = p.param("before"); for (int64_t i = 0; i < before; ++i) { Variable v("m"); SIM_CHECK(many.insert(v.get_id()).second, "variable-id", "two of %lld variables share one identity", (long long)before); const size_t h = v.get_hash(); if (i % 4096 == 0 || i + 3 > before) { ids.emplace(v.get_id(), "m"); for (auto& o : all) SIM_CHECK(!v.equal_to(o) && o.less(v) != v.less(o) && h == Variable(v).get_hash(), "variable-id", "of %lld variables, two are equal or not ordered", (long long)before); all.push_back(v); } } if (before) sim::probe("many_variables"); }
  auto work = [&](int who) {
    int k = 0;
    for (const Op& o : p.ops) {
      if ((k++) % n != who) continue;
      std::string name = "v" + std::to_string(o.a) ;
      auto rec = [&](const Variable& v, const std::string& nm, Variable::Type ty) {
        sim::HarnessScope hs;
        SIM_CHECK(!v.is_dummy() && v.get_id() != Variable().get_id(), "variable-id", "a new variable is indistinguishable from the dummy variable");
        SIM_CHECK(v.get_name() == nm && v.get_type() == ty, "variable-id", "a new variable has name %s type %d instead of %s %d", v.get_name().c_str(), int(v.get_type()), nm.c_str(), int(ty));
        auto it = ids.emplace(v.get_id(), nm); SIM_CHECK(it.second, "variable-id", "two variables (%s, %s) share one identity", it.first->second.c_str(), nm.c_str());
        for (size_t i = all.size() > 6 ? all.size() - 6 : 0; i < all.size(); ++i) { SIM_CHECK(!v.equal_to(all[i]) && v.less(all[i]) != all[i].less(v), "variable-id", "distinct variables compare equal or are not ordered"); 
          if (ty != Variable::Type::BOOLEAN && all[i].get_type() != Variable::Type::BOOLEAN) SIM_CHECK(!Expression(v).EqualTo(Expression(all[i])), "variable-id", "expressions of distinct variables compare equal"); }
        Variable c = v; SIM_CHECK(c.equal_to(v) && c.get_hash() == v.get_hash() && c.get_id() == v.get_id(), "variable-id", "a copy differs from its original");
        all.push_back(v);
      };
      switch (o.k % 5) {
        case 0: { std::unique_ptr<Variable> v; if (sut([&] { v.reset(new Variable(name)); }) == OK) rec(*v, name, Variable::Type::CONTINUOUS); break; }
        case 1: { std::unique_ptr<Variable> v; if (sut([&] { v.reset(new Variable(name, Variable::Type::BOOLEAN)); }) == OK) rec(*v, name, Variable::Type::BOOLEAN); break; }
        case 2: { std::unique_ptr<Variable> v; if (sut([&] { v.reset(new Variable(name, Variable::Type::INTEGER)); }) == OK) rec(*v, name, Variable::Type::INTEGER); break; }
        case 3: { std::vector<Variable> vs; if (sut([&] { vs = dreal::CreateVector("w", int(o.b % 4) + 1); }) == OK) for (size_t i = 0; i < vs.size(); ++i) rec(vs[i], "w" + std::to_string(i), Variable::Type::CONTINUOUS); break; }
        default: { Variable d; SIM_CHECK(d.is_dummy() && d.get_id() == Variable().get_id(), "variable-id", "default-constructed variables are not the dummy variable"); break; }
      }
    }
  };
  std::vector<std::thread> th;
  { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0);
  for (auto& t : th) t.join();
}
void gen_vars(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 600); p.params["threads"] = g.range(1, 5); if (g.chance(1, 60)) p.params["before"] = log_uniform(g, 100, 140000);
  int n = int(g.range(2, tier ? 120 : 60)); for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(5), g.below(9), g.below(9), 0, 0});
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 300, 4);
  if (g.chance(1, 3)) gen_stalls(g, p, 500, 4);
}
sim::Registrar r2({"vars", gen_vars, run_vars});
}  // namespace
