// Predicate abstraction, CNF conversion and if-then-else elimination over histories of formulas, by several threads, with failing allocations.
#include <iostream>

#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/logging.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"
#include "symops.h"
using namespace symops;
namespace {
using dreal::IfThenElseEliminator; using dreal::PredicateAbstractor; using dreal::TseitinCnfizer;
bool literal(const Formula& f) { return is_variable(f) || (is_negation(f) && is_variable(get_operand(f))); }
bool clause_ok(const Formula& f) {
  if (is_true(f) || is_false(f) || literal(f)) return true;
  if (!is_disjunction(f)) return false;
  for (const Formula& g : get_operands(f)) if (!literal(g)) return false;
  return true;
}
bool atom(const Formula& f) { return is_variable(f) || is_relational(f) || is_forall(f) || is_true(f) || is_false(f); }
bool nnf_ok(const Formula& f, bool pushed) {
  if (atom(f)) return true;
  if (is_negation(f)) { const Formula& g = get_operand(f); return pushed ? is_variable(g) || is_forall(g) : atom(g); }
  for (const Formula& g : get_operands(f)) if (!nnf_ok(g, pushed)) return false;
  return true;
}
bool cnf_atom(const Formula& f) { return (atom(f) || (is_negation(f) && atom(get_operand(f)))) && !is_equal_to(f) && !is_not_equal_to(f); }
bool naive_clause(const Formula& f) { if (cnf_atom(f)) return true; if (!is_disjunction(f)) return false; for (const Formula& g : get_operands(f)) if (!cnf_atom(g)) return false; return true; }
bool naive_ok(const Formula& f) { if (!is_conjunction(f)) return naive_clause(f); for (const Formula& g : get_operands(f)) if (!naive_clause(g)) return false; return true; }
bool purely_boolean(const Formula& f) {
  if (is_true(f) || is_false(f) || is_variable(f)) return true;
  if (is_negation(f)) return purely_boolean(get_operand(f));
  if (is_conjunction(f) || is_disjunction(f)) { for (const Formula& g : get_operands(f)) if (!purely_boolean(g)) return false; return true; }
  return false;
}

struct Forms { Ctx cx; std::vector<Formula> fs; std::vector<FM> ms; };
// builds formulas from the operation list; each one comes with its truth value at the sample points
void build(const Plan& p, Forms* r, bool ite) {
  Pool P(r->cx);
  for (const Op& o0 : p.ops) {
    Op o = o0; if (!ite && o.k == ITE) o.k = ADD;
    try { apply(o, P); } catch (const std::exception&) { continue; }  // no derivative
    model(o, P);
    Touch t = touched(o);
    for (int x : {t.e, t.e2}) if (x >= 0 && (P.E[x].to_string().size() > 120 || !mag_ok(P.em[x]))) P.reset_e(x);
    for (int x : {t.f, t.f2}) if (x >= 0 && P.F[x].to_string().size() > size_t(p.param("size", 260))) P.reset_f(x);
    if (t.f >= 0 && o.d % 3 == 0) { r->fs.push_back(P.F[t.f]); r->ms.push_back(P.fm[t.f]); }
    if (r->fs.size() >= 8) break;
  }
  if (r->fs.empty()) { r->fs.push_back(P.F[0]); r->ms.push_back(P.fm[0]); }
}

// Is there a value for the introduced variables that satisfies g at a point? The values tried are those the definitions
// v == e give (exhaustively) and, to find unconstrained variables, roots of the other equations and arbitrary values.
// 0 no, 1 yes, 2 not decided.
int ite_sat(const Formula& g, const std::vector<Variable>& aux, const Environment& at, bool attack) {
  struct Def { Expression e; std::vector<int> deps; };
  const int n = int(aux.size());
  auto idx = [&](const Variable& v) { for (int i = 0; i < n; ++i) if (aux[size_t(i)].equal_to(v)) return i; return -1; };
  std::vector<std::vector<Def>> def(static_cast<size_t>(n)); std::vector<std::vector<Expression>> eqs(static_cast<size_t>(n));
  std::function<void(const Formula&)> walk = [&](const Formula& h) {
    if (is_conjunction(h) || is_disjunction(h)) { for (auto& x : get_operands(h)) walk(x); return; }
    if (is_negation(h)) { walk(get_operand(h)); return; }
    if (!is_equal_to(h)) return;
    const Expression l = get_lhs_expression(h), r = get_rhs_expression(h);
    for (int side = 0; side < 2; ++side) {
      const Expression& a = side ? r : l; const Expression& b = side ? l : r;
      const int i = is_variable(a) ? idx(get_variable(a)) : -1;
      if (i >= 0) { Def d{b, {}}; for (const Variable& v : b.GetVariables()) if (idx(v) >= 0) d.deps.push_back(idx(v)); def[size_t(i)].push_back(d); }
    }
    for (const Variable& v : h.GetFreeVariables()) if (idx(v) >= 0) eqs[size_t(idx(v))].push_back(l - r);
  };
  walk(g);
  Environment env = at; std::vector<bool> set(size_t(n), false); bool failed = false; int budget = 1500;
  std::function<bool(int, bool)> go = [&](int done, bool wild) -> bool {
    if (done == n) { if (--budget < 0) { failed = true; return false; } try { return ev(g, env, VMap{}); } catch (const std::exception&) { failed = true; return false; } }
    int i = -1;
    for (int k = 0; k < n && i < 0; ++k) if (!set[size_t(k)]) { bool ok = true; for (auto& d : def[size_t(k)]) for (int x : d.deps) ok &= set[size_t(x)]; if (ok) i = k; }
    if (i < 0) { failed = true; return false; }
    std::vector<double> c; auto add = [&](double x) { if (!std::isfinite(x)) { failed = true; return; } for (double y : c) if (y == x) return; c.push_back(x); };
    auto val = [&](const Expression& e) { for (const Variable& v : e.GetVariables()) if (idx(v) >= 0 && !set[size_t(idx(v))]) return std::nan(""); try { return e.Evaluate(env); } catch (const std::exception&) { return std::nan(""); } };
    for (auto& d : def[size_t(i)]) add(val(d.e));
    if (c.empty()) add(0.0);
    set[size_t(i)] = true;
    if (wild) {
      bool keep = failed;
      for (auto& e : eqs[size_t(i)]) { env[aux[size_t(i)]] = 0.0; double d0 = val(e); env[aux[size_t(i)]] = 1.0; double d1 = val(e); if (std::isfinite(d0) && std::isfinite(d1) && d0 != d1) add(-d0 / (d1 - d0)); }
      add(-1234.5); add(4321.25); failed = keep;
    }
    for (double x : c) { env[aux[size_t(i)]] = x; if (go(done + 1, wild)) return true; if (budget < 0) break; }
    set[size_t(i)] = false;
    return false;
  };
  if (go(0, false)) return 1;
  const bool undecided = failed;
  if (attack) { std::fill(set.begin(), set.end(), false); budget = 400; if (go(0, true)) return 1; }
  return undecided ? 2 : 0;
}

void run_abs(const Plan& p) {
  Forms R; const int n = int(p.param("threads", 1)); const bool shared_pool = n > 1;
  (void)shared_pool;
  { Quiet q; sim::HarnessScope hs; build(p, &R, p.param("ite")); }
  (void)dreal::log();
  { size_t m = 0; for (auto& v : R.cx.x) m = std::max(m, size_t(v.get_id())); for (auto& v : R.cx.b) m = std::max(m, size_t(v.get_id())); introduced_after() = m; }
  std::map<size_t, int> bool_ids;  // every variable ever introduced, by any thread
  for (auto& v : R.cx.x) bool_ids[v.get_id()] = -1;
  for (auto& v : R.cx.b) bool_ids[v.get_id()] = -1;
  auto work = [&](int w) {
    PredicateAbstractor pa; TseitinCnfizer cnf; std::unique_ptr<IfThenElseEliminator> ite(new IfThenElseEliminator);
    std::map<size_t, std::string> mine; std::vector<std::pair<Formula, Variable>> seen;
    std::map<size_t, std::set<double>> ite_cand;
    int order = 0;
    for (size_t i = 0; i < R.fs.size() + 3; ++i) {
      size_t k = (i * (1 + 2 * size_t(w % 2)) + size_t(w)) % R.fs.size(); const Formula& f = R.fs[k];
      const int what = int(p.param("mode")) == 3 ? int((i + size_t(w)) % 3) : int(p.param("mode"));
      ++order;
      if (what == 0) {
        Formula c; Out r = sut([&] { c = pa.Convert(f); });
        sim::HarnessScope hs; Quiet q;
        SIM_CHECK(r == OK || r == NOMEM, "abstraction", "abstraction failed");
        if (r == OK) {
          SIM_CHECK(purely_boolean(c), "abstraction", "abstraction of %s still holds a predicate: %s", f.to_string().c_str(), c.to_string().c_str());
          for (const Variable& v : c.GetFreeVariables()) {
            bool own = false; for (auto& b : R.cx.b) own |= b.equal_to(v); if (own) continue;
            const Formula* pred = nullptr; try { pred = &pa[v]; } catch (const std::out_of_range&) { sim::fail("abstraction", "%s stands for no predicate", v.get_name().c_str()); }
            SIM_CHECK(v.get_type() == Variable::Type::BOOLEAN, "abstraction", "%s is not Boolean", v.get_name().c_str());
            const Variable* back = nullptr; try { back = &pa[*pred]; } catch (const std::out_of_range&) { sim::fail("abstraction", "the predicate %s has no variable", pred->to_string().c_str()); }
            SIM_CHECK(back->equal_to(v), "abstraction", "%s stands for %s, which is abstracted by %s", v.get_name().c_str(), pred->to_string().c_str(), back->get_name().c_str());
            for (auto& s : seen) SIM_CHECK(s.first.EqualTo(*pred) == s.second.equal_to(v), "abstraction", "over the history, %s and %s are confused", s.first.to_string().c_str(), pred->to_string().c_str());
            auto it = mine.find(v.get_id()); std::string t = pred->to_string();
            if (it == mine.end()) { auto ins = bool_ids.emplace(v.get_id(), w); SIM_CHECK(ins.second, "fresh-variable", "%s reuses the identity of a variable introduced elsewhere", v.get_name().c_str()); mine[v.get_id()] = t; seen.emplace_back(*pred, v); }
            else SIM_CHECK(it->second == t, "abstraction", "%s stood for %s and now stands for %s", v.get_name().c_str(), it->second.c_str(), t.c_str());
          }
          for (int pt = 0; pt < NPT; ++pt) {
            const int want = R.ms[k].t[pt] != 2 ? R.ms[k].t[pt] : ev3(f, R.cx.env[pt]); if (want == 2) continue;
            VMap bv; bool ok = true; for (const Variable& v : c.GetFreeVariables()) { bool own = false; for (auto& b : R.cx.b) own |= b.equal_to(v); if (!own) { const int t = ev3(pa[v], R.cx.env[pt]); ok &= t != 2; bv[v.get_id()] = t == 1; } }
            if (ok) SIM_CHECK(ev(c, R.cx.env[pt], bv) == (want == 1), "abstraction", "abstraction changed the meaning of %s: %s", f.to_string().c_str(), c.to_string().c_str());
          }
          if (i % 3 == 2) { const size_t k2 = (k + 1) % R.fs.size(); Formula both = pa.Convert(std::vector<Formula>{f, R.fs[k2]}), one = pa.Convert(R.fs[k2]); SIM_CHECK(both.EqualTo(c && one), "abstraction", "the abstraction of two formulas together is %s, one by one %s", both.to_string().c_str(), (c && one).to_string().c_str()); for (const Variable& v : one.GetFreeVariables()) { bool own = false; for (auto& b : R.cx.b) own |= b.equal_to(v); if (!own && !mine.count(v.get_id())) { auto ins = bool_ids.emplace(v.get_id(), w); SIM_CHECK(ins.second, "fresh-variable", "%s reuses the identity of a variable introduced elsewhere", v.get_name().c_str()); mine[v.get_id()] = pa[v].to_string(); seen.emplace_back(pa[v], v); } } }
          Formula c2; { c2 = pa.Convert(f); } SIM_CHECK(c2.EqualTo(c), "abstraction", "the same formula is abstracted differently the second time: %s / %s", c.to_string().c_str(), c2.to_string().c_str());
          for (auto& kv : pa.var_to_formula_map()) { auto it = mine.find(kv.first.get_id()); if (it != mine.end()) SIM_CHECK(kv.second.to_string() == it->second, "abstraction", "the table of predicates changed for %s", kv.first.get_name().c_str()); }
          sim::note(c.to_string().size() > 0 ? uint64_t(c.GetFreeVariables().size()) : 0);
        }
      } else if (what == 1) {
        // the pipeline of SatSolver::AddFormula: normal form (optional), clauses, abstraction of the clauses
        PredicateAbstractor pb; Formula c = f; std::vector<Formula> cl; const int form = int((p.param("form") + int64_t(i)) % 4);
        { Quiet q; sim::HarnessScope hs; const int64_t seed = (p.ops.empty() ? 1 : opseed(p.ops[0])) * 131 + order * 7 + w; ties(R.cx, seed, 0, "cnf", [&](const Formula& g) { return dreal::Nnfizer{}.Convert(g, seed & 1); });
          if (seed % 20 == 7) wides(seed, 0, "cnf", [&](const Formula& g) { switch (seed / 20 % 3) { case 0: return dreal::Nnfizer{}.Convert(g, seed & 1); case 1: return dreal::NaiveCnfizer{}.Convert(g); default: { Formula r = Formula::True(); PredicateAbstractor pw; const Formula h = pw.Convert(g); SIM_CHECK(h.GetFreeVariables().size() == g.GetFreeVariables().size(), "cnf", "%s has another number of literals than %s", h.to_string().c_str(), g.to_string().c_str()); dreal::FormulaSubstitution s; for (const Variable& v : h.GetFreeVariables()) s.emplace(v, pw[v]); return h.Substitute(s); } } }); }
        const std::string ftext = f.to_string(); const bool quant = ftext.find("forall") != std::string::npos;
        if (quant && ftext.size() > 100) continue;  // clauses below a quantifier are built by distribution
        auto same = [&](const Formula& g, const char* what) { sim::HarnessScope hs; Quiet q; for (int pt = 0; pt < NPT; ++pt) { const int x = ev3(f, R.cx.env[pt]), y = ev3(g, R.cx.env[pt]); SIM_CHECK(x == 2 || y == 2 || x == y, "cnf", "%s of %s is %s, which is %d instead of %d at point %d", what, f.to_string().c_str(), g.to_string().c_str(), y, x, pt); } };
        if (form == 1 || form == 2) { Formula g; Out r = sut([&] { g = dreal::Nnfizer{}.Convert(f, form == 2); }); SIM_CHECK(r == OK || r == NOMEM, "cnf", "negation normal form failed for %s", ftext.c_str()); if (r == OK) { SIM_CHECK(nnf_ok(g, form == 2), "cnf", "not in negation normal form: %s", g.to_string().c_str()); same(g, "the negation normal form"); c = g; } }
        if (form == 3) { { Quiet q; sim::HarnessScope hs; c = dreal::Nnfizer{}.Convert(pb.Convert(f)); } }
        if (ftext.size() < 100) { Formula g; std::string what; Out r = sut([&] { g = dreal::NaiveCnfizer{}.Convert(f); }, &what); SIM_CHECK(r == OK || r == NOMEM, "cnf", "naive conversion of %s failed: %s", ftext.c_str(), what.c_str()); if (r == OK) { SIM_CHECK(naive_ok(g), "cnf", "not in conjunctive normal form: %s", g.to_string().c_str()); same(g, "the naive normal form"); } }
        std::string what2;
        Out r = sut([&] { cl = cnf.Convert(c); }, &what2);
        sim::HarnessScope hs; Quiet q;
        SIM_CHECK(r == OK || r == NOMEM, "cnf", "conversion of %s failed: %s", c.to_string().c_str(), what2.c_str());
        if (r == OK) {
          std::vector<Variable> aux; std::set<size_t> auxid; for (auto& kv : cnf.map()) { aux.push_back(kv.first); auxid.insert(kv.first.get_id()); }
          for (auto& v : aux) { auto ins = bool_ids.emplace(v.get_id(), w); SIM_CHECK(ins.second, "fresh-variable", "the auxiliary variable %s is not fresh", v.get_name().c_str()); }
          const Variables fv = c.GetFreeVariables();
          for (const Formula& g : cl) for (const Variable& v : g.GetFreeVariables()) SIM_CHECK(fv.include(v) || auxid.count(v.get_id()), "cnf", "foreign variable %s in the clause %s", v.get_name().c_str(), g.to_string().c_str());
          std::vector<Formula> bl; for (const Formula& g : cl) bl.push_back(pb.Convert(g));
          for (const Formula& g : bl) SIM_CHECK(clause_ok(g), "cnf", "not a clause: %s", g.to_string().c_str());
          std::set<size_t> basev; std::vector<Variable> base; for (const Formula& g : bl) for (const Variable& v : g.GetFreeVariables()) if (!auxid.count(v.get_id()) && basev.insert(v.get_id()).second) base.push_back(v);
          if (form == 3) for (const Variable& v : fv) if (basev.insert(v.get_id()).second) base.push_back(v);
          auto solvable = [&](VMap bv) { for (int a = 0; a < 1 << aux.size(); ++a) { for (size_t b = 0; b < aux.size(); ++b) bv[aux[b].get_id()] = a >> b & 1; bool all = true; for (const Formula& g : bl) if (!ev(g, R.cx.env[0], bv)) { all = false; break; } if (all) return true; } return false; };
          if (form == 3 && base.size() + aux.size() <= 11) { // projected equivalence, by truth table
            for (int m = 0; m < 1 << base.size(); ++m) {
              VMap bv; for (size_t b = 0; b < base.size(); ++b) bv[base[b].get_id()] = m >> b & 1;
              const bool want = ev(c, R.cx.env[0], bv), got = solvable(bv);
              SIM_CHECK(want == got, "cnf", "clauses of %s are %s under an assignment that makes it %s", c.to_string().c_str(), got ? "satisfiable" : "unsatisfiable", want ? "true" : "false");
            }
          } else if (aux.size() <= 10) { // at the sample points, which decide the predicates
            for (int pt = 0; pt < NPT; ++pt) {
              const int want = ev3(f, R.cx.env[pt]); if (want == 2) continue;
              VMap bv; bool ok = true;
              for (const Variable& v : base) { bool own = false; for (int k2 = 0; k2 < NB; ++k2) if (R.cx.b[k2].equal_to(v)) { own = true; bv[v.get_id()] = PB[pt][k2]; } if (!own) { const int t = ev3(pb[v], R.cx.env[pt]); ok &= t != 2; bv[v.get_id()] = t == 1; } }
              if (!ok) continue;
              sim::probe("cnf_points");
              SIM_CHECK(solvable(bv) == (want == 1), "cnf", "the clauses of %s are %s at point %d, where it is %s", c.to_string().c_str(), want ? "unsatisfiable" : "satisfiable", pt, want ? "true" : "false");
            }
          }
          sim::note(uint64_t(cl.size()));
        }
      } else {
        Formula g; size_t before = 0; std::set<size_t> old; for (auto& v : ite->variables()) old.insert(v.get_id()); before = old.size();
        Out r = sut([&] { g = ite->Process(f); });
        sim::HarnessScope hs; Quiet q;
        SIM_CHECK(r == OK || r == NOMEM, "ite", "if-then-else elimination failed");
        std::vector<Variable> fresh; for (auto& v : ite->variables()) if (!old.count(v.get_id())) fresh.push_back(v);
        for (auto& v : fresh) { auto ins = bool_ids.emplace(v.get_id(), w); SIM_CHECK(ins.second, "fresh-variable", "the variable %s introduced for an if-then-else is not fresh", v.get_name().c_str()); }
        if (r == OK) {
          SIM_CHECK(!g.include_ite(), "ite", "an if-then-else remains in %s", g.to_string().c_str());
          std::vector<Variable> aux; { std::set<size_t> in; for (const Variable& v : g.GetFreeVariables()) in.insert(v.get_id()); for (auto& v : ite->variables()) if (in.count(v.get_id())) aux.push_back(v); std::sort(aux.begin(), aux.end(), [](const Variable& x, const Variable& y) { return x.get_id() < y.get_id(); }); }
          if (aux.size() <= 6) for (int pt = 0; pt < NPT; ++pt) {
            if (R.ms[k].t[pt] == 2) continue;
            const int sat = ite_sat(g, aux, R.cx.env[pt], R.ms[k].t[pt] == 0);
            if (sat == 2) { sim::probe("ite_point_undecided"); continue; }
            sim::probe("ite_points");
            SIM_CHECK((R.ms[k].t[pt] == 1) == (sat == 1), "ite", "at a sample point %s is %d but after elimination %s is %s", f.to_string().c_str(), R.ms[k].t[pt], g.to_string().c_str(), sat ? "satisfiable" : "unsatisfiable");
          }
          sim::note(uint64_t(fresh.size()));
        }
        if (p.param("fresh_ite")) ite.reset(new IfThenElseEliminator);
      }
    }
  };
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0); for (auto& t : th) t.join();
}
void gen_abs(Rng& g, Plan& p, int tier) {
  gen_sched(g, p, 8000); p.params["threads"] = g.chance(1, 2) ? 1 : g.range(2, 4); p.params["mode"] = g.below(4); p.params["ite"] = g.below(2); p.params["fresh_ite"] = g.chance(3, 4); p.params["form"] = g.below(4); p.params["size"] = g.range(60, 260);
  gen_ops(g, p, int(g.range(6, tier ? 60 : 40)));
  for (auto& o : p.ops) if (g.chance(1, 3)) o.k = F_REL + g.below(NK - F_REL);
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 1500, 4);
  if (g.chance(1, 4)) gen_stalls(g, p, 4000, 3);
}
template <int M> void gen_mode(Rng& g, Plan& p, int tier) { gen_abs(g, p, tier); p.params["mode"] = g.chance(1, 5) ? 3 : M; if (M == 2) { p.params["ite"] = 1;
  // one if-then-else used in both branches of another one, under other operators, and in several atoms
  for (int k = int(g.below(4)); k > 0; --k) {
    const int64_t in = g.below(NE), sh = g.below(NE), out = g.below(NE), c1 = g.below(NF), t = g.below(NF);
    std::vector<Op> seq;
    seq.push_back(Op{ITE, in, c1 + NE * g.below(NF), g.below(NE), 0});
    static const int mix[] = {MIX_CONST, ADD, FN, NEG, SUB, FN, FN, RAW, POWC, MUL, DIV}; const int mk = mix[g.below(11)]; seq.push_back(Op{mk, sh, in, g.below(NE), mk == FN ? g.below(NFN) : mk == RAW ? g.below(NRAW) : g.below(10)}); if (g.chance(1, 4)) std::swap(seq.back().b, seq.back().c);
    if (g.chance(1, 4)) seq.push_back(Op{FN, sh, sh, in, g.below(NFN)});
    seq.push_back(Op{ITE, out, g.chance(1, 2) ? in : sh, g.chance(1, 2) ? in : sh, 0}); seq.back().b += NE * g.below(NF);
    if (g.chance(1, 3)) seq.push_back(Op{g.chance(1, 2) ? ADD : FN, out, out, in, g.below(NFN)});
    seq.push_back(Op{F_REL, t, out, g.below(NE), 3 * g.below(2) + (g.chance(1, 2) ? 9 : 0)});
    if (g.chance(1, 2)) seq.push_back(Op{g.chance(1, 2) ? F_AND : F_OR, t, t, g.below(NF), 3});
    if (g.chance(1, 3)) seq.push_back(Op{F_NOT, t, t, 0, 3});
    size_t at = size_t(g.below(p.ops.size() + 1)); p.ops.insert(p.ops.begin() + at, seq.begin(), seq.end());
  } } }
sim::Registrar r0({"preds", gen_abs, run_abs}), r0a({"abs", gen_mode<0>, run_abs}), r0b({"cnf", gen_mode<1>, run_abs}), r0c({"ite", gen_mode<2>, run_abs});

// ------------------------------------------------------------------ the process-wide logger
void run_log(const Plan& p) {
  const int n = int(p.param("threads", 3)); std::vector<spdlog::logger*> got(size_t(n), nullptr);
  std::vector<int> off(size_t(n), 0);
  auto work = [&](int w) {
    Out r = sut([&] { got[size_t(w)] = dreal::log(); off[size_t(w)] = dreal::log()->level() == spdlog::level::off; if (p.param("msg")) { DREAL_LOG_INFO("worker {} says hello", w); DREAL_LOG_DEBUG("not shown {}", w); } });
    if (r != OK) { Quiet q; Out r2 = sut([&] { got[size_t(w)] = dreal::log(); off[size_t(w)] = dreal::log()->level() == spdlog::level::off; }); SIM_CHECK(r2 == OK, "logger", "the logger stays unusable after a failed first use"); }
  };
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0); for (auto& t : th) t.join();
  for (int i = 0; i < n; ++i) { SIM_CHECK(got[size_t(i)] && got[size_t(i)] == got[0], "logger", "threads got different loggers"); SIM_CHECK(off[size_t(i)], "logger", "thread %d found logging turned on by default", i); }
}
void gen_log(Rng& g, Plan& p, int tier) { gen_sched(g, p, 200); p.params["threads"] = g.range(1, 5); p.params["msg"] = g.below(2); if (g.chance(1, 3)) gen_alloc_faults(g, p, 20, 2); }
sim::Registrar r1({"logger", gen_log, run_log});
}  // namespace
