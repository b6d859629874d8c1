// Boxes: copies share their variables until one of them changes; every box keeps its own meaning over any history.
#include "dreal/solver/filter_assertion.h"
#include "dreal/util/box.h"
#include "dreal/util/logging.h"
#include "hx.h"
using namespace hx;
namespace {
using dreal::Box; using dreal::Variable; using ibex::Interval;
struct Comp { int v; double l, u; };
struct M { std::vector<Comp> c; bool empty{false}; };
constexpr int NV = 8, NB = 4;
struct Slot { Box b; M m; };
const Variable::Type TY[] = {Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY, Variable::Type::BOOLEAN};
int ty(int v) { static const int t[NV] = {0, 0, 1, 0, 1, 2, 3, 0}; return t[v]; }
Comp dflt(int v) { switch (ty(v)) { case 0: return {v, -HUGE_VAL, HUGE_VAL}; case 1: return {v, -2147483647.0, 2147483647.0}; default: return {v, 0, 1}; } }
int find(const M& m, int v) { for (size_t i = 0; i < m.c.size(); ++i) if (m.c[i].v == v) return int(i); return -1; }
bool same_vars(const M& a, const M& b) { if (a.c.size() != b.c.size()) return false; for (size_t i = 0; i < a.c.size(); ++i) if (a.c[i].v != b.c[i].v) return false; return true; }
bool bisectable(const Comp& c) { return Interval(c.l, c.u).is_bisectable(); }
Interval pick(int v, int64_t a, int64_t b) {
  if (ty(v) >= 2) { static const double l[] = {0, 1, 0}, u[] = {0, 1, 1}; return Interval(l[a % 3], u[a % 3]); }
  double l = double(a % 33 - 16), w = double(b % 17); if (ty(v) == 0) { l /= 4; w /= 8; if (b % 29 == 0) return Interval(-HUGE_VAL, l); if (b % 31 == 0) return Interval(l, HUGE_VAL); }
  return Interval(l, l + w);
}
struct Worker {
  const Plan& p; int who, n; const std::vector<Variable>& V; std::vector<Slot> s{static_cast<size_t>(NB)};
  void verify(size_t k, const char* when) {
    Quiet q; sim::HarnessScope hs; const Box& b = s[k].b; const M& m = s[k].m;
    SIM_CHECK(b.size() == int(m.c.size()) && b.variables().size() == m.c.size(), "box", "after %s: box %zu has %d variables, expected are %zu", when, k, b.size(), m.c.size());
    for (int v = 0; v < NV; ++v) SIM_CHECK(b.has_variable(V[size_t(v)]) == (find(m, v) >= 0), "box", "after %s: box %zu %s variable %d", when, k, b.has_variable(V[size_t(v)]) ? "has" : "lacks", v);
    if (m.c.empty()) return;
    SIM_CHECK(b.empty() == m.empty, "box", "after %s: box %zu is %s", when, k, b.empty() ? "empty" : "not empty");
    SIM_CHECK(b.interval_vector().size() == b.size(), "box", "after %s: box %zu has %d variables and %d intervals", when, k, b.size(), b.interval_vector().size());
    for (int i = 0; i < int(m.c.size()); ++i) {
      const Comp& c = m.c[size_t(i)]; const Variable& v = V[size_t(c.v)];
      SIM_CHECK(b.variable(i).equal_to(v) && b.variables()[size_t(i)].equal_to(v) && b.index(v) == i, "box", "after %s: component %d of box %zu belongs to %s", when, i, k, b.variable(i).get_name().c_str());
      if (!m.empty) SIM_CHECK(b[i].lb() == c.l && b[i].ub() == c.u && b[v] == b[i], "box", "after %s: %s of box %zu is [%.17g, %.17g], expected is [%.17g, %.17g]", when, v.get_name().c_str(), k, b[i].lb(), b[i].ub(), c.l, c.u);
    }
  }
  std::string text(const M& m) { std::string r; for (auto& c : m.c) { if (!r.empty()) r += "\n"; r += V[size_t(c.v)].get_name() + " : "; char u[80]; if (ty(c.v) == 1 || ty(c.v) == 2) snprintf(u, sizeof u, "[%d, %d]", int(c.l), int(c.u)); else if (ty(c.v) == 3) snprintf(u, sizeof u, "%s", c.u == 0 ? "False" : c.l == 1 ? "True" : "Unassigned"); else snprintf(u, sizeof u, "%s", str(Interval(c.l, c.u)).c_str()); r += u; } return r; }
  // A bound on one variable that is applied to a box leaves exactly the points which satisfy it.
  void bound(size_t i, int at, const Op& o, Out* r) {
    Slot& x = s[i]; Comp& c = x.m.c[size_t(at)]; const Comp old = c; const Variable& var = V[size_t(c.v)]; dreal::Formula f; double lo, hi; int rel = int(o.b % 6), neg = int(o.b / 6 % 3); bool range = false, plain = true; Rng g(uint64_t(o.d) * 1000 + uint64_t(o.b));
    { Quiet q; sim::HarnessScope hs; static const double vals[] = {-1, 0, 1, 0.5, -0.25, 3, -4, 1e-300, -1e-300, 1e300, -1e300, 0.1, -0.1, 2.5}; lo = vals[g.below(14)]; if (g.chance(1, 4)) lo = g.chance(1, 2) ? old.l : old.u; if (!(std::fabs(lo) < 1e308) || (ty(c.v) != 0 && std::fabs(lo) > 1e9)) lo = 2; hi = lo; dreal::Expression k{lo};
      if (g.chance(1, 4)) { range = true; hi = std::nextafter(lo, HUGE_VAL); k = dreal::drake::symbolic::real_constant(lo, hi, g.chance(1, 2)); }
      dreal::Expression l{var}, m{k}; bool swap = g.chance(1, 2); if (g.chance(1, 12)) { plain = false; l = l + V[0]; } if (swap) std::swap(l, m);
      switch (rel) { case 0: f = l < m; break; case 1: f = l <= m; break; case 2: f = l > m; break; case 3: f = l >= m; break; case 4: f = l == m; break; default: f = l != m; }
      if (swap) rel = rel < 4 ? (rel + 2) % 4 : rel; for (int t = 0; t < neg; ++t) f = !f; if (neg & 1) { static const int nr[] = {3, 2, 1, 0, 5, 4}; rel = nr[rel]; }
      if (g.chance(1, 16)) { plain = false; f = f && V[0] + V[1] > 2; } }
    dreal::FilterAssertionResult res = dreal::FilterAssertionResult::NotFiltered; *r = sut([&] { res = dreal::FilterAssertion(f, &x.b); });
    Quiet q; sim::HarnessScope hs; const bool filtered = res != dreal::FilterAssertionResult::NotFiltered; const bool whole = ty(c.v) != 0;
    // with a range for the constant, a bound holds if it does for some value of the range
    auto sat = [&](double y) { switch (rel) { case 0: return y < hi; case 1: return y <= hi; case 2: return y > lo; case 3: return y >= lo; case 4: return lo <= y && y <= hi; default: return range || y != lo; } };
    const bool now_empty = x.b.empty(); Interval iv = now_empty ? Interval() : x.b[at]; std::vector<double> pts{old.l, old.u, lo, hi, (lo + hi) / 2, iv.lb(), iv.ub()}; for (size_t t = 0, m = pts.size(); t < m; ++t) { if (whole) { pts.push_back(std::floor(pts[t])); pts.push_back(std::ceil(pts[t])); pts.push_back(pts[t] + 1); pts.push_back(pts[t] - 1); } else { pts.push_back(std::nextafter(pts[t], HUGE_VAL)); pts.push_back(std::nextafter(pts[t], -HUGE_VAL)); } }
    if (!plain) SIM_CHECK(!filtered && !now_empty && iv.lb() == old.l && iv.ub() == old.u, "box", "%s, which is not a bound, changes [%.17g, %.17g]", str(f).c_str(), old.l, old.u);
    if (res == dreal::FilterAssertionResult::FilteredWithoutChange) SIM_CHECK(!now_empty && iv.lb() == old.l && iv.ub() == old.u, "box", "%s is said not to change [%.17g, %.17g], which is now [%.17g, %.17g]", str(f).c_str(), old.l, old.u, iv.lb(), iv.ub());
    for (double y : pts) { if (!(std::fabs(y) <= 1e301) || (whole && y != std::floor(y))) continue; const bool in = old.l <= y && y <= old.u, now = !now_empty && iv.lb() <= y && y <= iv.ub();
      SIM_CHECK(!now || in, "box", "%s makes [%.17g, %.17g] larger: [%.17g, %.17g]", str(f).c_str(), old.l, old.u, iv.lb(), iv.ub());
      if (!plain) continue;
      SIM_CHECK(now || !in || !sat(y), "box", "%s takes the solution %.17g out of [%.17g, %.17g]: [%.17g, %.17g]", str(f).c_str(), y, old.l, old.u, iv.lb(), iv.ub());
      if (filtered) SIM_CHECK(!now || sat(y), "box", "%s is said to be applied to [%.17g, %.17g], but %.17g is left: [%.17g, %.17g]", str(f).c_str(), old.l, old.u, y, iv.lb(), iv.ub()); }
    c.l = iv.lb(); c.u = iv.ub(); if (now_empty) { x.m.empty = true; c = old; } sim::probe(filtered ? "bound_applied" : "bound_kept");
  }
  void step(const Op& o) {
    const size_t i = size_t(o.a % NB), j = size_t(o.b % NB); Slot& x = s[i]; Slot& y = s[j]; const int v = int(o.c % NV); const Variable& var = V[size_t(v)];
    Out r = OK; std::string what; const char* name = ""; bool lost_x = false, lost_y = false; sim::note(uint64_t(o.k));
    switch (o.k) {
      case 0: { name = "construction"; std::vector<Variable> vs; M m; { Quiet q; sim::HarnessScope hs; for (int t = 0; t < NV; ++t) if ((o.d >> t) & 1) { int w = (t + v) % NV; vs.push_back(V[size_t(w)]); m.c.push_back(dflt(w)); } } if (vs.empty()) return; r = sut([&] { Box b{vs}; x.b = std::move(b); }); lost_x = r != OK; if (r == OK) x.m = m; break; }
      case 1: name = "copying"; r = sut([&] { Box b{y.b}; x.b = b; }); lost_x = r != OK; if (r == OK) x.m = y.m; break;
      case 2: name = "assignment"; r = sut([&] { x.b = y.b; }); lost_x = r != OK; if (r == OK) x.m = y.m; break;
      case 3: name = "moving"; if (i == j) return; r = sut([&] { x.b = std::move(y.b); y.b = Box{}; }); lost_x = lost_y = r != OK; if (r == OK) { x.m = y.m; y.m = M{}; } break;
      case 4: case 5: { name = "adding a variable"; if (find(x.m, v) >= 0) return; Comp c = dflt(v); Interval iv = pick(v, o.d, o.b); if (o.k == 5) { c.l = iv.lb(); c.u = iv.ub(); if (c.l == -HUGE_VAL || c.u == HUGE_VAL) return; }
        if (x.m.empty) return;  // the first component of an empty box is empty, further ones mean nothing
        r = sut([&] { if (o.k == 5) x.b.Add(var, c.l, c.u); else x.b.Add(var); }); lost_x = r != OK; if (r == OK) x.m.c.push_back(c); break; }
      case 6: case 7: { name = "setting a component"; int at = find(x.m, v); if (at < 0 || x.m.empty) return; Interval iv = pick(v, o.d, o.b); r = sut([&] { if (o.k == 6) x.b[var] = iv; else x.b[at] = iv; }); x.m.c[size_t(at)].l = iv.lb(); x.m.c[size_t(at)].u = iv.ub(); break; }
      case 8: name = "emptying"; if (x.m.c.empty()) return; r = sut([&] { x.b.set_empty(); }); x.m.empty = true; break;
      case 9: { name = "bisection"; if (x.m.c.empty() || x.m.empty || i == j) return; size_t at = size_t(o.c) % x.m.c.size(); Comp c = x.m.c[at]; if (ty(c.v) == 3) return; if (ty(c.v) != 0 && (c.l != std::floor(c.l) || c.u != std::floor(c.u))) return; const bool can = bisectable(c); const bool by_name = o.d & 1; const bool lo_here = o.d & 2;
        Box l, h; r = sut([&] { std::pair<Box, Box> t = by_name ? x.b.bisect(V[size_t(c.v)]) : x.b.bisect(int(at)); l = t.first; h = t.second; }, &what);
        if (!can) { SIM_CHECK(r == OTHER || r == NOMEM, "box", "a component that cannot be split was split"); if (r == OTHER) { verify(i, name); return; } break; }
        if (r == OTHER) sim::fail("box", "bisection of [%g, %g] fails: %s", c.l, c.u, what.c_str());
        if (r != OK) break;
        { Quiet q; sim::HarnessScope hs; const Interval a = l[int(at)], b = h[int(at)]; const bool in = ty(c.v) == 1 || ty(c.v) == 2;
          SIM_CHECK(a.lb() == c.l && b.ub() == c.u && a.lb() <= a.ub() && b.lb() <= b.ub() && (in ? b.lb() == a.ub() + 1 && a.ub() == std::floor(a.ub()) : a.ub() == b.lb() && c.l < a.ub() && a.ub() < c.u), "box", "[%.17g, %.17g] was split into [%.17g, %.17g] and [%.17g, %.17g]", c.l, c.u, a.lb(), a.ub(), b.lb(), b.ub());
          if (c.l > -1e9 && c.u < 1e9) SIM_CHECK(std::max(a.ub() - a.lb(), b.ub() - b.lb()) <= (c.u - c.l) / 2 + (in ? 1 : 1e-9), "box", "[%.17g, %.17g] was split at %.17g", c.l, c.u, a.ub());
          M ml = x.m, mh = x.m; ml.c[at].u = a.ub(); mh.c[at].l = b.lb(); Slot keep = x; x.b = l; x.m = ml; verify(i, "bisection (lower half)"); x.b = h; x.m = mh; verify(i, "bisection (upper half)"); x = keep; verify(i, name);
          y.b = lo_here ? l : h; y.m = lo_here ? ml : mh; }
        break; }
      case 10: { name = "union"; if (x.m.c.empty() || !same_vars(x.m, y.m)) return; r = sut([&] { x.b.InplaceUnion(y.b); }); lost_x = r != OK; if (r != OK) break; if (y.m.empty) break; if (x.m.empty) { x.m = y.m; break; } for (size_t k = 0; k < x.m.c.size(); ++k) { x.m.c[k].l = std::min(x.m.c[k].l, y.m.c[k].l); x.m.c[k].u = std::max(x.m.c[k].u, y.m.c[k].u); } break; }
      case 11: { name = "finding the widest component"; if (x.m.c.empty() || x.m.empty) return; std::pair<double, int> d; r = sut([&] { d = x.b.MaxDiam(); }); if (r != OK) break; double best = 0; for (auto& c : x.m.c) if (bisectable(c)) best = std::max(best, Interval(c.l, c.u).diam());
        SIM_CHECK(d.first == best && (best == 0 ? d.second == -1 : d.second >= 0 && d.second < int(x.m.c.size()) && bisectable(x.m.c[size_t(d.second)]) && Interval(x.m.c[size_t(d.second)].l, x.m.c[size_t(d.second)].u).diam() == best), "box", "the widest component is %d (%.17g), expected is a width of %.17g", d.second, d.first, best); break; }
      case 12: { name = "printing"; if (x.m.empty) return; Quiet q; std::ostringstream os; os.precision(3); r = sut([&] { os << x.b; }); sim::HarnessScope hs; std::ostringstream w; w.precision(17); SIM_CHECK(os.precision() == 3, "box", "printing leaves the precision at %d", int(os.precision()));
        std::string want; for (auto& c : x.m.c) { M one; one.c.push_back(c); if (!want.empty()) want += "\n"; if (ty(c.v) == 0) { w.str(""); w << Interval(c.l, c.u); want += V[size_t(c.v)].get_name() + " : " + w.str(); } else want += text(one); } SIM_CHECK(os.str() == want, "box", "a box prints as %s, expected is %s", os.str().c_str(), want.c_str()); break; }
      case 13: { name = "comparison"; bool e = false, ne = false; r = sut([&] { e = x.b == y.b; ne = x.b != y.b; }); if (r != OK) break; bool w = same_vars(x.m, y.m); if (w && !x.m.c.empty()) { if (x.m.empty || y.m.empty) w = x.m.empty && y.m.empty; else for (size_t k = 0; k < x.m.c.size(); ++k) w = w && x.m.c[k].l == y.m.c[k].l && x.m.c[k].u == y.m.c[k].u; } SIM_CHECK(e == w && ne != e, "box", "two boxes compare %s", e ? "equal" : "different"); break; }
      case 14: { name = "applying a bound"; int at = find(x.m, v); if (at < 0 || x.m.empty || ty(v) == 3) return; bound(i, at, o, &r); break; }
      default: { name = "bisection at an unknown variable"; if (find(x.m, v) >= 0 || x.m.empty) return; r = sut([&] { x.b.bisect(var); }, &what); SIM_CHECK(r == OTHER || r == NOMEM, "box", "a box was split at a variable it does not have"); if (r == OTHER) r = OK; break; }
    }
    SIM_CHECK(r == OK || (r == NOMEM && sim::faults_fired()), "box", "%s fails: %s", name, what.c_str());
    if (lost_x) { Quiet q; x.b = Box{}; x.m = M{}; } if (lost_y) { Quiet q; y.b = Box{}; y.m = M{}; }
    for (size_t k = 0; k < s.size(); ++k) verify(k, name);
  }
};
void run_box(const Plan& p) {
  { Quiet q; (void)dreal::log(); }
  std::vector<Variable> V; { Quiet q; for (int i = 0; i < NV; ++i) V.emplace_back("v" + std::to_string(i), TY[ty(i)]); }
  const int n = int(p.param("threads", 1)); sim::leak_mark();
  {
    std::vector<std::unique_ptr<Worker>> w; { Quiet q; for (int i = 0; i < n; ++i) w.emplace_back(new Worker{p, i, n, V}); }
    Box common; M m; { Quiet q; for (int v = 0; v < 3; ++v) { common.Add(V[size_t(v)]); m.c.push_back(dflt(v)); } for (auto& t : w) { t->s[0].b = common; t->s[0].m = m; t->s[1].b = common; t->s[1].m = m; } if (p.param("drop")) common = Box{}; }
    auto work = [&](int i) { int k = 0; for (const Op& o : p.ops) if ((k++) % n == i) w[size_t(i)]->step(o); };
    std::vector<std::thread> th; { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
    work(0); for (auto& t : th) t.join();
    for (auto& t : w) for (size_t k = 0; k < t->s.size(); ++k) t->verify(k, "the end");
  }
  if (n == 1) SIM_CHECK(sim::leaked() == 0, "leak", "%lld blocks are lost", (long long)sim::leaked());
}
void gen_box(Rng& g, Plan& p, int tier) {
  p.mode = 0; const int n = int(g.range(4, tier ? 80 : 40)); int w[16], tot = 0; for (int i = 0; i < 16; ++i) { w[i] = int(g.range(0, 3)) + (i == 0 || i == 5 ? 1 : 0); tot += w[i]; }
  for (int i = 0; i < n; ++i) { int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(1000), g.below(1000), g.below(1000), g.below(1000)}); }
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 200, 3);
  if (g.chance(1, 2)) { gen_sched(g, p, 3000); p.params["threads"] = g.range(2, 3); p.params["drop"] = g.below(2); }
}
sim::Registrar r0({"box", gen_box, run_box});
}  // namespace
