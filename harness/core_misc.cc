// Sets of variables and environments, printing in SMT-LIB form, perturbation by delta, SMT-LIB terms and commands.
#include "dreal/smt2/command.h"
#include "dreal/smt2/command_cell.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
#include <mutex>
#include "symops.h"
using namespace symops;
namespace {
// ------------------------------------------------------------------ sets of variables, environments
struct SetModel { std::vector<size_t> order; };
void run_sets(const Plan& p) {
  constexpr int N = 4, U = 9;
  std::vector<Variable> u; for (int i = 0; i < U; ++i) u.emplace_back("v" + std::to_string(i), i % 4 == 3 ? Variable::Type::BOOLEAN : Variable::Type::CONTINUOUS);
  const Variable dummy;
  std::vector<Variables> S(N); std::vector<std::set<int>> M(N);
  std::vector<Environment> E(N); std::vector<std::map<int, double>> EM_(N);
  auto vi = [](int64_t x) { return int(((x % U) + U) % U); }; auto si = [](int64_t x) { return int(((x % N) + N) % N); };
  auto text = [&](const std::set<int>& m) { std::string s = "{"; for (int i : m) s += (s.size() > 1 ? ", v" : "v") + std::to_string(i); return s + "}"; };
  auto checkS = [&](int i, const char* when) {
    const Variables& s = S[size_t(i)]; const auto& m = M[size_t(i)];
    SIM_CHECK(s.size() == m.size() && s.empty() == m.empty(), "sets", "%s: %s has %zu elements, should be %s", when, s.to_string().c_str(), s.size(), text(m).c_str());
    auto it = s.begin(); for (int k : m) { SIM_CHECK(it != s.end() && it->equal_to(u[size_t(k)]), "sets", "%s: %s should be %s", when, s.to_string().c_str(), text(m).c_str()); ++it; }
    for (int k = 0; k < U; ++k) SIM_CHECK(s.include(u[size_t(k)]) == (m.count(k) == 1) && (s.find(u[size_t(k)]) != s.end()) == (m.count(k) == 1), "sets", "%s: membership of v%d in %s", when, k, s.to_string().c_str());
    SIM_CHECK(s.to_string() == text(m), "sets", "%s: printed as %s instead of %s", when, s.to_string().c_str(), text(m).c_str());
  };
  auto pairs = [&](int i) {
    for (int j = 0; j < N; ++j) {
      const Variables &a = S[size_t(i)], &b = S[size_t(j)]; const auto &x = M[size_t(i)], &y = M[size_t(j)];
      const bool sub = std::includes(y.begin(), y.end(), x.begin(), x.end()), sup = std::includes(x.begin(), x.end(), y.begin(), y.end()), eq = x == y;
      SIM_CHECK(a.IsSubsetOf(b) == sub && a.IsSupersetOf(b) == sup && a.IsStrictSubsetOf(b) == (sub && !eq) && a.IsStrictSupersetOf(b) == (sup && !eq), "sets", "set inclusion of %s and %s", text(x).c_str(), text(y).c_str());
      SIM_CHECK((a == b) == eq && (b == a) == eq, "sets", "equality of %s and %s", text(x).c_str(), text(y).c_str());
      SIM_CHECK((a < b) + (b < a) + eq == 1, "sets", "%s and %s are not strictly ordered", text(x).c_str(), text(y).c_str());
      if (eq) SIM_CHECK(a.get_hash() == b.get_hash(), "sets", "equal sets hash differently: %s", text(x).c_str());
      for (int k = 0; k < N; ++k) if (a < b && b < S[size_t(k)]) SIM_CHECK(a < S[size_t(k)], "sets", "the order of sets is not transitive");
      std::set<int> in; for (int k : x) if (y.count(k)) in.insert(k);
      SIM_CHECK(dreal::HaveIntersection(a, b) == !in.empty(), "sets", "%s and %s are reported %s", text(x).c_str(), text(y).c_str(), in.empty() ? "to intersect" : "disjoint");
      SIM_CHECK(intersect(a, b).to_string() == text(in), "sets", "intersection of %s and %s", text(x).c_str(), text(y).c_str());
    }
  };
  auto checkE = [&](int i, const char* when) {
    const Environment& e = E[size_t(i)]; const auto& m = EM_[size_t(i)];
    SIM_CHECK(e.size() == m.size() && e.empty() == m.empty(), "environment", "%s: %zu entries instead of %zu", when, e.size(), m.size());
    std::set<int> dom; for (auto& kv : m) { dom.insert(kv.first); auto it = e.find(u[size_t(kv.first)]); SIM_CHECK(it != e.end() && it->second == kv.second, "environment", "%s: wrong value of v%d", when, kv.first); SIM_CHECK(e[u[size_t(kv.first)]] == kv.second, "environment", "%s: wrong value of v%d", when, kv.first); }
    SIM_CHECK(e.domain().to_string() == text(dom), "environment", "%s: wrong domain", when);
    { std::multiset<std::string> want, got; for (auto& kv : m) { std::ostringstream os; os << "v" << kv.first << " -> " << kv.second; want.insert(os.str()); } std::istringstream is(e.to_string()); std::string line; while (std::getline(is, line)) got.insert(line); SIM_CHECK(want == got, "environment", "%s: printed as %s", when, e.to_string().c_str()); size_t n = 0; for (auto& kv : e) { (void)kv; ++n; } SIM_CHECK(n == m.size(), "environment", "%s: iterating gives %zu entries", when, n); }
    { bool thrown = false; try { (void)e[dummy]; } catch (const std::runtime_error&) { thrown = true; } SIM_CHECK(thrown, "environment", "%s: reading the dummy variable is not refused", when); }
    for (int k = 0; k < U; ++k) if (!m.count(k)) { SIM_CHECK(e.find(u[size_t(k)]) == e.end(), "environment", "%s: v%d is bound", when, k); bool thrown = false; try { (void)e[u[size_t(k)]]; } catch (const std::runtime_error&) { thrown = true; } SIM_CHECK(thrown, "environment", "%s: reading the unbound v%d from a constant environment is not refused", when, k); }
  };
  for (const Op& o : p.ops) {
    const int a = si(o.a), b = si(o.b), c = si(o.c), k = vi(o.d), k2 = vi(o.d / U);
    Variables& s = S[size_t(a)]; auto& m = M[size_t(a)]; Environment& e = E[size_t(a)]; auto& em = EM_[size_t(a)];
    const auto was = m; const auto ewas = em; std::set<int> want = m; std::map<int, double> ewant = em; bool ok = false, refused = false, expect_refused = false;
    auto U2 = [](std::set<int> x, const std::set<int>& y) { x.insert(y.begin(), y.end()); return x; };
    auto D2 = [](std::set<int> x, const std::set<int>& y) { for (int i : std::set<int>(y)) x.erase(i); return x; };
    size_t erased = 0; int64_t expect_erased = -1; const double val = kc(int(o.c)) + double(o.b);
    const std::set<int> mb = M[size_t(b)], mc = M[size_t(c)]; bool one = false;
    { Quiet q; sim::HarnessScope hs; switch (o.k % 27) {
        case 0: case 1: case 4: want = U2(m, {k}); one = true; break;
        case 2: case 3: want = U2(m, mb); break;
        case 5: want = D2(m, {k}); expect_erased = m.count(k); one = true; break;
        case 6: want = D2(m, mb); expect_erased = int64_t(m.size() - want.size()); break;
        case 7: want = D2(m, mb); break;
        case 8: want = D2(m, {k}); one = true; break;
        case 9: want = U2(mb, mc); one = true; break;
        case 10: want = D2(mb, mc); one = true; break;
        case 11: want = U2(mb, {k}); one = true; break;
        case 12: want = D2(mb, {k}); one = true; break;
        case 13: want.clear(); for (int x : mb) if (mc.count(x)) want.insert(x); one = true; break;
        case 14: case 15: want = mb; break;
        case 16: want = {k, k2}; one = true; break;
        case 17: want = U2(m, {k, k2}); break;
        case 18: if (!em.count(k)) ewant[k] = val; break;
        case 19: ewant[k] = val; break;
        case 20: if (!em.count(k)) ewant[k] = 0; break;
        case 21: case 22: ewant = EM_[size_t(b)]; break;
        case 23: expect_refused = true; break;
        case 24: ewant = {{k, 0.0}, {k2, 0.0}}; break;
        case 25: ewant = {{k, val}}; if (k2 != k) ewant[k2] = -1.5; break;
        default: ewant = {{k, val}}; if (k2 != k) ewant[k2] = 2.5; break; } }
    double fresh = 0;
    Out out = sut([&] {
      switch (o.k % 27) {
        case 0: case 1: s.insert(u[size_t(k)]); break;
        case 2: s.insert(S[size_t(b)]); break;
        case 3: s += S[size_t(b)]; break;
        case 4: s += u[size_t(k)]; break;
        case 5: erased = s.erase(u[size_t(k)]); break;
        case 6: erased = s.erase(S[size_t(b)]); break;
        case 7: s -= S[size_t(b)]; break;
        case 8: s -= u[size_t(k)]; break;
        case 9: s = S[size_t(b)] + S[size_t(c)]; break;
        case 10: s = S[size_t(b)] - S[size_t(c)]; break;
        case 11: s = (o.c & 1) ? S[size_t(b)] + u[size_t(k)] : u[size_t(k)] + S[size_t(b)]; break;
        case 12: s = S[size_t(b)] - u[size_t(k)]; break;
        case 13: s = intersect(S[size_t(b)], S[size_t(c)]); break;
        case 14: s = S[size_t(b)]; break;
        case 15: { Variables t{S[size_t(b)]}; s = std::move(t); break; }
        case 16: s = Variables{u[size_t(k)], u[size_t(k2)]}; break;
        case 17: { std::vector<Variable> vs{u[size_t(k)], u[size_t(k2)], u[size_t(k)]}; s.insert(vs.begin(), vs.end()); break; }
        case 18: e.insert(u[size_t(k)], val); break;
        case 19: e[u[size_t(k)]] = val; break;
        case 20: fresh = e[u[size_t(k)]]; break;
        case 21: e = E[size_t(b)]; break;
        case 22: { Environment t{E[size_t(b)]}; e = std::move(t); break; }
        case 23: switch (o.c % 8) { case 5: { Environment t{{{u[size_t(k)], 1.0}, {u[size_t((k + 1) % U)], std::nan("")}}}; break; } case 6: { Environment::map mp; mp.emplace(u[size_t(k)], std::nan("")); Environment t{std::move(mp)}; break; } case 7: { Environment::map mp; mp.emplace(u[size_t(k)], 1.0); mp.emplace(dummy, 1.0); Environment t{std::move(mp)}; break; } case 0: e.insert(dummy, 1.0); break; case 1: e[dummy] = 2.0; break; case 2: { Environment t{{{u[size_t(k)], 1.0}, {dummy, 1.0}}}; break; } case 3: { Environment t{{u[size_t(k)], dummy}}; break; } default: e.insert(u[size_t(k)], std::nan("")); break; } break;
        case 24: e = Environment{{u[size_t(k)], u[size_t(k2)]}}; break;
        case 25: { Environment::map mp; mp.emplace(u[size_t(k)], val); if (k2 != k) mp.emplace(u[size_t(k2)], -1.5); e = Environment{std::move(mp)}; break; }
        default: e = k2 == k ? Environment{{{u[size_t(k)], val}}} : Environment{{{u[size_t(k)], val}, {u[size_t(k2)], 2.5}}}; break;
      }
      ok = true;
    });
    sim::HarnessScope hs; Quiet q;
    refused = out == OTHER;
    SIM_CHECK(out == OK || out == NOMEM || (refused && expect_refused), "sets", "operation %lld failed", (long long)o.k % 27);
    SIM_CHECK(!(expect_refused && out == OK), "environment", "a dummy variable or NaN is accepted by an environment (way %lld)", (long long)o.c % 8);
    if (out == OK) { m = want; em = ewant; if (expect_erased >= 0) SIM_CHECK(int64_t(erased) == expect_erased, "sets", "erasing reports %zu elements instead of %lld", erased, (long long)expect_erased);
      if (o.k % 27 == 20) SIM_CHECK(fresh == ewant[k], "environment", "entry v%d of an environment is %g instead of %g", k, fresh, ewant[k]); }
    else if (out == NOMEM) {
      // An operation on one element, or one which builds its result aside, has no effect. The others may have got part of the way.
      std::set<int> got; for (int i = 0; i < U; ++i) if (s.include(u[size_t(i)])) got.insert(i);
      if (o.k % 27 < 18) {
        if (one) SIM_CHECK(got == was || ((o.k % 27 == 4 || o.k % 27 == 8) && got == want), "sets", "operation %lld ran out of memory and left %s instead of %s", (long long)o.k % 27, text(got).c_str(), text(was).c_str());
        else { const std::set<int> all = U2(was, want); SIM_CHECK(std::includes(all.begin(), all.end(), got.begin(), got.end()), "sets", "operation %lld ran out of memory and left %s", (long long)o.k % 27, text(got).c_str()); m = got; }
        m = got;
        if (o.k % 27 == 14 || o.k % 27 == 15) { s = Variables(); m.clear(); }
      } else if (o.k % 27 != 21 && o.k % 27 != 22) { // nothing of a failed insertion is left behind
        SIM_CHECK(e.size() == ewas.size(), "environment", "an operation that ran out of memory changed an environment");
      } else { e = Environment(); em.clear(); }
    }
    for (int i = 0; i < N; ++i) { checkS(i, i == a ? "after an operation" : "after an operation on another set"); checkE(i, i == a ? "after an operation" : "after an operation on another environment"); }
    pairs(a);
    sim::note(S[size_t(a)].to_string());
  }
}
void gen_sets(Rng& g, Plan& p, int tier) {
  p.mode = 0; int w[27]; int tot = 0; for (int& x : w) { x = int(g.below(6)); tot += x; } if (!tot) { w[0] = 1; tot = 1; }
  int n = int(g.range(4, tier ? 80 : 40)); for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(4), g.below(4), g.below(16), g.below(81)}); }
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 300, 4);
}
sim::Registrar r0({"sets", gen_sets, run_sets});

// ------------------------------------------------------------------ printing in SMT-LIB form
struct FaultyBuf : std::streambuf {  // fails after a number of characters
  std::string got; int64_t left; explicit FaultyBuf(int64_t n) : left(n) {}
  int overflow(int c) override { if (left-- <= 0) { sim::fault_fired(sim::F_WRITE_ERR); return traits_type::eof(); } got += char(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize k = 0; while (k < n && overflow((unsigned char)s[k]) != traits_type::eof()) ++k; return k; }
};
double awkward(int64_t i) { // doubles that need all their digits
  Rng g{uint64_t(i) * 7919 + 3}; double m = g.unit() + 0.5; int e = int(g.range(-20, 20)); double v = std::ldexp(m, e); if (i % 7 == 0) v = std::ldexp(m, int(g.range(-1070, 1023))); if (i % 13 == 0) v = std::floor(std::ldexp(m, int(g.range(20, 70)))); if (i % 11 == 0) v = std::nextafter(kc(int(i)), 1e9); return g.chance(1, 2) ? -v : v;
}
void run_prefix(const Plan& p) {
  Ctx cx; Pool P(cx);
  sim::leak_mark();
  {
  std::ostringstream shared; int64_t shared_prec = 6;
  int step = 0;
  for (const Op& o0 : p.ops) {
    Op o = o0; ++step;
    { Quiet q; sim::HarnessScope hs; try { apply(o, P); model(o, P); } catch (const std::runtime_error&) { continue; } Touch t = touched(o);
      for (int x : {t.e, t.e2}) if (x >= 0 && (P.E[x].to_string().size() > 300 || !mag_ok(P.em[x]))) P.reset_e(x);
      for (int x : {t.f, t.f2}) if (x >= 0 && (P.F[x].to_string().size() > 400 || !mag_ok(P.fm[x]))) P.reset_f(x); }
    if (is_f(o.k)) { Quiet q; sim::HarnessScope hs; ties(cx, opseed(o), 2, "prefix"); }
    if (opseed(o) % 40 == 7) { Quiet q; sim::HarnessScope hs; wides(opseed(o), 2, "prefix"); }
    const bool isf = is_f(o.k); const int i = isf ? fi(o.a) : ei(o.a);
    const std::string txt = isf ? P.F[i].to_string() : P.E[i].to_string(); const bool opaque = txt.find("forall") != std::string::npos || txt.find("uf(") != std::string::npos || txt.find("vf(") != std::string::npos;
    // a stream that runs out of memory reports it by its state only, so the text is compared where no allocation failed
    const uint64_t ff0 = sim::faults_fired();
    std::string pre, what; Out r = sut([&] { pre = isf ? dreal::ToPrefix(P.F[i]) : dreal::ToPrefix(P.E[i]); }, &what);
    if (r == OK && sim::faults_fired() != ff0) { Quiet q; sim::HarnessScope hs; pre = isf ? dreal::ToPrefix(P.F[i]) : dreal::ToPrefix(P.E[i]); }
    const int how = int((o.d + step) % 4); const uint64_t ff1 = sim::faults_fired();
    {
      Quiet q; sim::HarnessScope hs;
      SIM_CHECK(r == OK || r == NOMEM || (r == OTHER && opaque), "prefix", "%s has no prefix form: %s", txt.c_str(), what.c_str());
      if (r == OK && pre.find("inf") == std::string::npos && pre.find("nan") == std::string::npos) {
        for (int pt = 0; pt < NPT; ++pt) {
          Prefix rd{pre, pt}; const double v = rd.num();
          SIM_CHECK(!rd.bad && rd.i == pre.size(), "prefix", "%s is printed as %s, which is not well formed", txt.c_str(), pre.c_str());
          if (isf) { if (P.fm[i].t[pt] != 2) SIM_CHECK((v != 0) == (P.fm[i].t[pt] == 1), "prefix", "%s is printed as %s, which is %d at point %d", txt.c_str(), pre.c_str(), v != 0, pt); }
          else if (P.em[i].known[pt]) SIM_CHECK(std::fabs(v - P.em[i].v[pt]) <= 1e-10 * (1 + P.em[i].m[pt]), "prefix", "%s is printed as %s, which evaluates to %.17g instead of %.17g", txt.c_str(), pre.c_str(), v, P.em[i].v[pt]);
        }
      }
    }
    // numbers are printed so that they read back unchanged
    const double c1 = awkward(o.a + 31 * o.b + 1000 * step), c0 = awkward(o.c + 17 * o.d + 500 * step);
    std::string a1, a2, a3; Out r2 = sut([&] { a1 = dreal::ToPrefix(Expression(c0)); a2 = dreal::ToPrefix(c1 * Expression(cx.x[0])); a3 = dreal::ToPrefix(Expression(cx.x[0]) + c0 > c1); });
    { Quiet q; sim::HarnessScope hs; SIM_CHECK(r2 == OK || r2 == NOMEM, "prefix", "printing numbers failed");
      if (r2 == OK && sim::faults_fired() == ff1) { Prefix x{a1, 0}; double v = x.num(); SIM_CHECK(!x.bad && v == c0, "prefix", "%.17g is printed as %s", c0, a1.c_str());
        Prefix y{a2, 0}; y.x0 = 1.0; v = y.num(); SIM_CHECK(!y.bad && v == c1, "prefix", "the factor %.17g is printed as %s", c1, a2.c_str());
        Prefix z{a3, 0}; z.x0 = 0.0; v = z.num(); SIM_CHECK(!z.bad && (v != 0) == (c0 > c1), "prefix", "x0 + %.17g > %.17g is printed as %s", c0, c1, a3.c_str()); } }
    // so is a constant that is only known to lie between two neighbouring numbers, also at the ends of their range
    { static const double ends[] = {1.7e308, -1.7e308, 1.5e308, -1.0e308, 8.9e307, 9.0e307, 4.9e-324, -2e-323, 3e-308, 1e-310}; const double lb = (o.d + step) % 4 ? c0 : ends[(o.b + step) % 10], ub = std::nextafter(lb, HUGE_VAL);
      if (std::isfinite(lb) && std::isfinite(ub)) { std::string d1, d2; const uint64_t ff = sim::faults_fired(); Out r5 = sut([&] { Expression e = dreal::real_constant(lb, ub, o.c & 1); d1 = dreal::ToPrefix(e); d2 = dreal::ToPrefix(Expression(cx.x[0]) + e > c1); });
        Quiet q; sim::HarnessScope hs; SIM_CHECK(r5 == OK || r5 == NOMEM, "prefix", "printing an imprecise number failed");
        if (r5 == OK && sim::faults_fired() == ff) { Prefix x{d1, 0}; double v = x.num(); SIM_CHECK(!x.bad && lb <= v && v <= ub, "prefix", "[%.17g, %.17g] is printed as %s", lb, ub, d1.c_str()); Prefix z{d2, 0}; z.x0 = 0.0; v = z.num(); SIM_CHECK(!z.bad && ((v != 0) == (lb > c1) || (v != 0) == (ub > c1)), "prefix", "x0 + [%.17g, %.17g] > %.17g is printed as %s", lb, ub, c1, d2.c_str()); } } }
    { std::string b1, b2, b3, b4, b5; const uint64_t ff = sim::faults_fired(); Out r4 = sut([&] { b1 = Expression(c0).to_string(); b2 = (c1 * Expression(cx.x[0])).to_string(); b3 = (c1 * Expression(cx.x[0]) + c0 * Expression(cx.x[1])).to_string(); b4 = (c0 + c1 * (Expression(cx.x[0]) * Expression(cx.x[1]))).to_string(); b5 = (Expression(cx.x[0]) + c0 > c1).to_string(); });
      Quiet q; sim::HarnessScope hs; SIM_CHECK(r4 == OK || r4 == NOMEM, "printed", "printing numbers failed");
      if (r4 == OK && sim::faults_fired() == ff) { auto rd = [&](const std::string& t, double x0, double x1, double want, const char* what) { Infix x{t, 0}; x.x0 = x0; x.x1 = x1; double v = x.read(); SIM_CHECK(!x.bad && v == want, "printed", "%s %.17g is printed as %s, which reads as %.17g", what, want, t.c_str(), v); };
        rd(b1, 0, 0, c0, "the number"); rd(b2, 1, 0, c1, "the factor"); rd(b3, 1, 0, c1, "the coefficient"); rd(b3, 0, 1, c0, "the coefficient"); rd(b4, 0, 0, c0, "the constant"); rd(b4, 1, 1, c0 + c1, "the sum"); Infix x{b5, 0}; x.x0 = 0; double v = x.read(); SIM_CHECK(!x.bad && (v != 0) == (c0 > c1), "printed", "x0 + %.17g > %.17g is printed as %s", c0, c1, b5.c_str()); } }
    { // the text on a caller's stream: the same, and the stream keeps its format; a stream that fails receives a beginning of it
      std::string got; { Quiet q; shared.precision(3 + (o.c % 9)); } const auto prec = shared.precision(); const auto fl = shared.flags(); const uint64_t ff = sim::faults_fired();
      Out r4 = sut([&] { if (isf) shared << P.F[i]; else shared << P.E[i]; });
      { Quiet q; sim::HarnessScope hs; SIM_CHECK(r4 == OK || r4 == NOMEM, "printed", "printing %s failed", txt.c_str()); SIM_CHECK(shared.precision() == prec && shared.flags() == fl, "printed", "printing %s changed the precision of the stream to %lld", txt.c_str(), (long long)shared.precision());
        if (sim::faults_fired() == ff) SIM_CHECK(shared.str() == txt, "printed", "%s is printed as %s", txt.c_str(), shared.str().c_str()); shared.str(""); shared.clear(); }
      if (how >= 2) { FaultyBuf fb(o.b % 40); std::ostream os(&fb); { Quiet q; os.precision(prec); } if (o.d & 2) os.exceptions(std::ios::badbit | std::ios::failbit);
        try { sim::SutScope ss; Quiet q; if (isf) os << P.F[i]; else os << P.E[i]; } catch (const std::exception&) { sim::probe("printing_thrown"); }
        Quiet q; sim::HarnessScope hs; SIM_CHECK(os.precision() == prec, "printed", "a failing stream has the precision %lld", (long long)os.precision()); SIM_CHECK(txt.compare(0, fb.got.size(), fb.got) == 0, "printed", "a failing stream received %s instead of the beginning of %s", fb.got.c_str(), txt.c_str()); } }
    // a printer on the caller's stream leaves the stream's precision as it was, however printing ends
    { Quiet q; shared_prec = 3 + (o.b % 9); shared.precision(shared_prec); }
    if (how == 0) { Out r3 = sut([&] { dreal::PrefixPrinter pp{shared}; if (isf) pp.Print(P.F[i]); else pp.Print(P.E[i]); });
      Quiet q; sim::HarnessScope hs; SIM_CHECK(shared.precision() == shared_prec, "prefix", "printing %s changed the precision of the stream to %lld", txt.c_str(), (long long)shared.precision());
      if (r3 == OK && r == OK && shared.good() && sim::faults_fired() == ff1) SIM_CHECK(shared.str() == pre, "prefix", "printed as %s and as %s", pre.c_str(), shared.str().c_str()); shared.str(""); shared.clear(); }
    else if (how == 1) { // the stream fails part of the way, with and without exceptions
      int64_t left = o.c % 40; FaultyBuf fb(left); std::ostream os(&fb); { Quiet q; os.precision(shared_prec); }
      if (o.d & 1) os.exceptions(std::ios::badbit | std::ios::failbit);
      try { sim::SutScope ss; Quiet q; dreal::PrefixPrinter pp{os}; if (isf) pp.Print(P.F[i]); else pp.Print(P.E[i]); } catch (const std::exception&) { sim::probe("printing_thrown"); }
      Quiet q; sim::HarnessScope hs; SIM_CHECK(os.precision() == shared_prec, "prefix", "a failing stream keeps the precision %lld", (long long)os.precision());
      if (r == OK) SIM_CHECK(pre.compare(0, fb.got.size(), fb.got) == 0, "prefix", "a failing stream received %s instead of the beginning of %s", fb.got.c_str(), pre.c_str());
    }
    Quiet q; sim::note(pre);
  }
  Quiet q; P.E.clear(); P.F.clear(); P.em.clear(); P.fm.clear();
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks leaked", (long long)lost); }
}
void gen_prefix(Rng& g, Plan& p, int tier) { p.mode = 0; gen_ops(g, p, int(g.range(3, tier ? 40 : 24))); if (g.chance(1, 3)) gen_alloc_faults(g, p, 1500, 5); }
sim::Registrar r1({"prefix", gen_prefix, run_prefix});

// ------------------------------------------------------------------ strengthening and weakening by delta
struct Undecided {};
double evd_e(const Expression& e, const Environment& env) { double v = e.Evaluate(env); if (!std::isfinite(v)) throw Undecided(); return v; }
bool evd(const Formula& f, const Environment& env, double d) {
  using dreal::FormulaKind;
  auto lhs = [&] { return evd_e(get_lhs_expression(f), env); }; auto rhs = [&] { return evd_e(get_rhs_expression(f), env); };
  auto pos = [](double x, double m) { if (std::fabs(x) < 1e-9 * (1 + m)) throw Undecided(); return x > 0; };
  switch (f.get_kind()) {
    case FormulaKind::True: return true;
    case FormulaKind::False: return false;
    case FormulaKind::Var: return env[get_variable(f)] != 0;
    case FormulaKind::And: { bool und = false; for (const Formula& g : get_operands(f)) try { if (!evd(g, env, d)) return false; } catch (Undecided&) { und = true; } if (und) throw Undecided(); return true; }
    case FormulaKind::Or: { bool und = false; for (const Formula& g : get_operands(f)) try { if (evd(g, env, d)) return true; } catch (Undecided&) { und = true; } if (und) throw Undecided(); return false; }
    case FormulaKind::Not: return !evd(get_operand(f), env, -d);
    case FormulaKind::Gt: case FormulaKind::Geq: { double l = lhs(), r = rhs(); return pos(l - r - d, std::fabs(l) + std::fabs(r)); }
    case FormulaKind::Lt: case FormulaKind::Leq: { double l = lhs(), r = rhs(); return pos(r - l - d, std::fabs(l) + std::fabs(r)); }
    case FormulaKind::Eq: { double l = lhs(), r = rhs(), m = std::fabs(l) + std::fabs(r); if (d <= 0) return pos(-d - std::fabs(l - r), m); if (l != r) return !pos(std::fabs(l - r), m); return true; }
    case FormulaKind::Neq: { double l = lhs(), r = rhs(), m = std::fabs(l) + std::fabs(r); if (d <= 0) return true; return pos(std::fabs(l - r) - d, m); }
    default: throw Undecided();
  }
}
void run_delta(const Plan& p) {
  Ctx cx; Pool P(cx); static const double deltas[] = {0.001, 0.05, 0.3, 1.0, 2.5};
  for (const Op& o : p.ops) {
    { Quiet q; sim::HarnessScope hs; try { apply(o, P); model(o, P); } catch (const std::runtime_error&) { continue; } Touch t = touched(o);
      for (int x : {t.e, t.e2}) if (x >= 0 && (P.E[x].to_string().size() > 150 || !mag_ok(P.em[x]))) P.reset_e(x);
      for (int x : {t.f, t.f2}) if (x >= 0 && P.F[x].to_string().size() > 300) P.reset_f(x);
      // what can be differentiated, is
      if (t.e >= 0) { const bool d = dreal::IsDifferentiable(P.E[t.e]); const std::string s = P.E[t.e].to_string(); bool bad = false; for (const char* w : {"abs(", "min(", "max(", "(if ", "uf(", "vf("}) bad |= s.find(w) != std::string::npos;
        SIM_CHECK(d == !bad, "delta", "%s is reported as %sdifferentiable", s.c_str(), d ? "" : "not "); if (d) { try { (void)P.E[t.e].Differentiate(cx.x[size_t(o.d % NV)]); } catch (const std::runtime_error& x) { sim::fail("delta", "%s is reported as differentiable, but: %s", s.c_str(), x.what()); } } } }
    if (!is_f(o.k)) continue;
    { Quiet q; sim::HarnessScope hs; ties(cx, opseed(o), 4, "delta"); if (opseed(o) % 20 == 7) wides(opseed(o), 4, "delta"); }
    const Formula& f = P.F[size_t(fi(o.a))]; const double d = deltas[o.b % 5]; const bool weak = o.c & 1; Formula g; std::string what;
    const std::string txt = f.to_string();
    Out r = sut([&] { g = weak ? dreal::DeltaWeaken(f, d) : dreal::DeltaStrengthen(f, d); }, &what);
    sim::HarnessScope hs; Quiet q;
    SIM_CHECK(r == OK || r == NOMEM || (r == OTHER && txt.find("forall") != std::string::npos), "delta", "%s cannot be %s: %s", txt.c_str(), weak ? "weakened" : "strengthened", what.c_str());
    if (r != OK) continue;
    const unsigned vars = P.fm[size_t(fi(o.a))].vars;
    for (const Variable& v : g.GetFreeVariables()) { bool own = false; for (int k = 0; k < NV; ++k) own |= (vars >> k & 1) && cx.x[size_t(k)].equal_to(v); for (int k = 0; k < NB; ++k) own |= (vars >> (NV + k) & 1) && cx.b[size_t(k)].equal_to(v); SIM_CHECK(own, "delta", "the foreign variable %s in %s", v.get_name().c_str(), g.to_string().c_str()); }
    for (int pt = 0; pt < NPT; ++pt) {
      const int now = ev3(g, cx.env[size_t(pt)]); if (now == 2) continue;
      const int orig = P.fm[size_t(fi(o.a))].t[pt];
      if (orig != 2) SIM_CHECK(weak ? now >= orig : now <= orig, "delta", "at point %d, %s is %d but %s by %g it is %d: %s", pt, txt.c_str(), orig, weak ? "weakened" : "strengthened", d, now, g.to_string().c_str());
      try { const bool want = evd(f, cx.env[size_t(pt)], weak ? -d : d); sim::probe("delta_points"); SIM_CHECK(want == (now == 1), "delta", "at point %d, %s %s by %g is %s, which is %d", pt, txt.c_str(), weak ? "weakened" : "strengthened", d, g.to_string().c_str(), now); } catch (Undecided&) {} catch (const std::runtime_error&) {}
    }
    sim::note(g.to_string());
  }
}
void gen_delta(Rng& g, Plan& p, int tier) { p.mode = 0; gen_ops(g, p, int(g.range(4, tier ? 60 : 36))); for (auto& o : p.ops) if (g.chance(1, 3)) o.k = F_REL + g.below(NK - F_REL); if (g.chance(1, 3)) gen_alloc_faults(g, p, 1500, 4); }
sim::Registrar r2({"delta", gen_delta, run_delta});

// ------------------------------------------------------------------ SMT-LIB terms and commands
void run_terms(const Plan& p) {
  using dreal::Command; using dreal::Logic; using dreal::Sort; using dreal::Term;
  Ctx cx; const int n = int(p.param("threads", 1)); Pool P0(cx);
  { Quiet q; sim::HarnessScope hs; for (const Op& o : p.ops) { if (o.k < 1000) continue; Op x = o; x.k -= 1000; try { apply(x, P0); model(x, P0); } catch (const std::runtime_error&) { continue; } Touch t = touched(x);
    for (int y : {t.e, t.e2}) if (y >= 0 && (P0.E[y].to_string().size() > 120 || !mag_ok(P0.em[y]))) P0.reset_e(y); for (int y : {t.f, t.f2}) if (y >= 0 && (P0.F[y].to_string().size() > 200 || !mag_ok(P0.fm[y]))) P0.reset_f(y); } }
  static const char* sorts[] = {"Real", "Int", "Bool", "Binary"}; static const char* logics[] = {"ALL", "QF_LIA", "QF_LIRA", "QF_LRA", "QF_NIA", "QF_NIAT", "QF_NIRA", "QF_NIRAT", "QF_NRA", "QF_NRAT", "QF_RDL"};
  std::vector<std::pair<std::shared_ptr<Command>, std::string>> published(16); std::mutex pub_m;
  auto work = [&](int w) {
    struct T { Term t; std::string s; bool f; }; std::vector<T> ts; std::vector<std::pair<Command, std::string>> cs; int k = 0;
    { Quiet q; for (int i = 0; i < 4; ++i) ts.push_back(T{Term(), "False", true}); }
    auto chk = [&](const T& t, const char* when) {
      const bool f = t.t.type() == Term::Type::FORMULA; SIM_CHECK(f == t.f, "term", "%s: a term is %s", when, f ? "a formula" : "an expression");
      SIM_CHECK(str(t.t) == t.s, "term", "%s: a term is %s instead of %s", when, str(t.t).c_str(), t.s.c_str());
      bool thrown = false; try { if (f) (void)t.t.expression(); else (void)t.t.formula(); } catch (const std::runtime_error&) { thrown = true; } SIM_CHECK(thrown, "term", "%s: reading %s as the other kind is not refused", when, t.s.c_str());
      SIM_CHECK((f ? t.t.formula().to_string() : t.t.expression().to_string()) == t.s, "term", "%s: wrong contents of a term", when);
      for (int s = 0; s < 4; ++s) { bool ok = true, ok2 = true; const Sort so = dreal::ParseSort(sorts[s]); try { t.t.Check(so); } catch (const std::runtime_error&) { ok = false; } try { t.t.Check(SortToType(so)); } catch (const std::runtime_error&) { ok2 = false; } SIM_CHECK(ok == ((s == 2) == f) && ok2 == ok, "term", "%s: checking %s against the sort %s", when, t.s.c_str(), sorts[s]); SIM_CHECK(str(so) == sorts[s], "term", "the sort %s is printed as %s", sorts[s], str(so).c_str()); }
    };
    for (const Op& o : p.ops) {
      if (o.k >= 1000 || (k++) % n != w) continue;
      const size_t a = size_t(o.a % 4), b = size_t(o.b % 4); const int e = ei(o.c), f = fi(o.c); T& t = ts[a]; std::string want = t.s; bool wf = t.f; Out r = OK; std::unique_ptr<Command> c; std::string cw;
      switch (o.k % 14) {
        case 0: want = P0.E[e].to_string(); wf = false; r = sut([&] { t.t = Term(P0.E[e]); }); break;
        case 1: want = P0.F[f].to_string(); wf = true; r = sut([&] { t.t = Term(P0.F[f]); }); break;
        case 2: want = P0.E[e].to_string(); wf = false; r = sut([&] { t.t = P0.E[e]; }); break;
        case 3: want = P0.F[f].to_string(); wf = true; r = sut([&] { t.t = P0.F[f]; }); break;
        case 4: want = ts[b].s; wf = ts[b].f; r = sut([&] { t.t = ts[b].t; }); break;
        case 5: if (a != b) { want = ts[b].s; wf = ts[b].f; r = sut([&] { t.t = std::move(ts[b].t); }); Quiet q; ts[b] = T{Term(), "False", true}; } break;
        case 6: { const Variable& v = cx.x[size_t(o.d % NV)]; { Quiet q; sim::HarnessScope hs; want = t.f ? t.t.formula().Substitute(v, P0.E[e]).to_string() : t.t.expression().Substitute(v, P0.E[e]).to_string(); } r = sut([&] { t.t = t.t.Substitute(v, Term(P0.E[e])); }); break; }
        case 7: { const Variable& v = cx.b[size_t(o.d % NB)]; { Quiet q; sim::HarnessScope hs; want = t.f ? t.t.formula().Substitute(v, P0.F[f]).to_string() : t.t.expression().Substitute({}, {{v, P0.F[f]}}).to_string(); } r = sut([&] { t.t = t.t.Substitute(v, Term(P0.F[f])); }); break; }
        case 8: { Quiet q; sim::HarnessScope hs; want = t.f ? (!t.t.formula()).to_string() : (t.t.expression() + 1.0).to_string(); } r = sut([&] { if (t.f) t.t.mutable_formula() = !t.t.formula(); else t.t.mutable_expression() += 1.0; }); break;
        case 9: { const std::string key = "k" + std::to_string(o.c), val = "v" + std::to_string(o.d); const int lv = int(o.d);
          auto cell = [&](auto make, const std::string& w) { cw = w; r = sut([&] { c.reset(new Command(make())); }); };
          switch (o.b % 17) {
            case 9: cell([&] { return std::make_shared<dreal::EchoCommand>(val); }, "(echo " + val + ")"); break; case 10: cell([] { return std::make_shared<dreal::GetAssertionsCommand>(); }, "(get-assertions)"); break; case 11: cell([] { return std::make_shared<dreal::GetModelCommand>(); }, "(get-model)"); break;
            case 12: cell([&] { return std::make_shared<dreal::GetOptionCommand>(key); }, "(get-option " + key + ")"); break; case 13: cell([] { return std::make_shared<dreal::GetProofCommand>(); }, "(get-proof)"); break; case 14: cell([] { return std::make_shared<dreal::GetUnsatAssumptionsCommand>(); }, "(get-unsat-assumptions)"); break;
            case 15: cell([] { return std::make_shared<dreal::GetUnsatCoreCommand>(); }, "(get-unsat-core)"); break; case 16: cell([] { return std::make_shared<dreal::ResetAssertionsCommand>(); }, "(reset-assertions)"); break;
           case 0: cw = "(assert " + P0.F[f].to_string() + ")"; r = sut([&] { c.reset(new Command(dreal::assert_command(P0.F[f]))); }); break; case 1: cw = "(check-sat)"; r = sut([&] { c.reset(new Command(dreal::check_sat_command())); }); break; case 2: cw = "(exit)"; r = sut([&] { c.reset(new Command(dreal::exit_command())); }); break;
            case 3: cw = "(pop " + std::to_string(lv) + ")"; r = sut([&] { c.reset(new Command(dreal::pop_command(lv))); }); break; case 4: cw = "(push " + std::to_string(lv) + ")"; r = sut([&] { c.reset(new Command(dreal::push_command(lv))); }); break; case 5: cw = "(reset)"; r = sut([&] { c.reset(new Command(dreal::reset_command())); }); break;
            case 6: cw = "(set-info " + key + " " + val + ")"; r = sut([&] { c.reset(new Command(dreal::set_info_command(key, val))); }); break; case 7: { const char* l = logics[o.d % 11]; cw = std::string("(set-logic ") + l + ")"; r = sut([&] { c.reset(new Command(dreal::set_logic_command(dreal::parse_logic(l)))); }); break; } default: cw = "(set-option " + key + " " + val + ")"; r = sut([&] { c.reset(new Command(dreal::set_option_command(key, val))); }); break; }
          break; }
        case 10: { bool thrown = false; r = sut([&] { try { std::string bad = (o.b & 1) ? sorts[o.d % 4] : logics[o.d % 11]; if (o.c & 1) bad += "x"; else bad = bad.substr(1); if (o.b & 1) (void)dreal::ParseSort(bad); else (void)dreal::parse_logic(bad); } catch (const std::bad_alloc&) { throw; } catch (const std::runtime_error&) { thrown = true; } }); sim::HarnessScope hs; SIM_CHECK(r != OK || thrown, "term", "an unknown sort or logic is accepted"); break; }
        case 11: if (!cs.empty()) { // commands are handles that can be copied and dropped anywhere
          const size_t i = size_t(o.c) % cs.size(); std::shared_ptr<Command> pub; std::string s = cs[i].second; r = sut([&] { pub = std::make_shared<Command>(cs[i].first); }); if (r == OK) { Quiet q; std::pair<std::shared_ptr<Command>, std::string> x{pub, s}; { std::lock_guard<std::mutex> l(pub_m); std::swap(published[size_t(o.d % 16)], x); } } break; } break;
        case 12: { std::pair<std::shared_ptr<Command>, std::string> pb; { Quiet q; std::lock_guard<std::mutex> l(pub_m); pb = published[size_t(o.d % 16)]; } if (pb.first) { std::string s; r = sut([&] { Command mine(*pb.first); Quiet q; std::ostringstream os; os << mine; s = os.str(); }); sim::HarnessScope hs; SIM_CHECK(r != OK || s == pb.second, "command", "a command made as %s now is %s", pb.second.c_str(), s.c_str()); } break; }
        default: { Quiet q; if (!cs.empty()) { if (o.d & 1) cs.erase(cs.begin() + ssize_t(size_t(o.c) % cs.size())); else { Command tmp = cs[0].first; cs[0].first = cs.back().first; cs.back().first = tmp; std::swap(cs[0].second, cs.back().second); } } break; }
      }
      sim::HarnessScope hs; Quiet q;
      SIM_CHECK(r == OK || r == NOMEM, "term", "operation %lld on terms failed", (long long)o.k % 14);
      if (r == OK) { t.s = want; t.f = wf; if (c) cs.emplace_back(*c, cw); } else if (o.k % 14 <= 8) { t = T{Term(), "False", true}; }
      for (auto& x : ts) chk(x, "after an operation"); for (auto& x : cs) SIM_CHECK(str(x.first) == x.second, "command", "a command made as %s now is %s", x.second.c_str(), str(x.first).c_str());
      sim::note(t.s);
    }
  };
  std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0); for (auto& t : th) t.join();
}
void gen_terms(Rng& g, Plan& p, int tier) {
  p.params["threads"] = g.chance(1, 2) ? 1 : g.range(2, 4); gen_sched(g, p, 3000);
  gen_ops(g, p, int(g.range(2, 14))); for (auto& o : p.ops) o.k += 1000;
  int n = int(g.range(4, tier ? 60 : 40)); for (int i = 0; i < n; ++i) p.ops.push_back(Op{g.below(14), g.below(4), g.below(36), g.below(30), g.below(88)});
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 600, 4);
  if (g.chance(1, 4)) gen_stalls(g, p, 2000, 3);
}
sim::Registrar r3({"terms", gen_terms, run_terms});
}  // namespace
