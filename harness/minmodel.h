// Minimisation problems: closed constraints around a witness, and what an answer must satisfy.
#pragma once
#include "probmodel.h"
namespace prob {
struct MVar { int slot, type; double lo, hi; };
// What was asked for: at the time of the call these assertions were in force.
struct Goal { std::vector<TP> f; std::vector<MVar> vars; std::vector<TP> as; };
struct Closed {  // the set of solutions is compact, so that a minimum exists
  Rng& g; std::vector<int> slots; bool hard; const Pt& w;
  double at(const TP& t) { bool u = false; return num(*t, w, u).v; }
  TP x() { return slots.empty() ? mk(CST, nullptr, nullptr, 0, 1) : mk(VAR, nullptr, nullptr, slots[size_t(g.below(int64_t(slots.size())))]); }
  // often about few variables, so that constraints depend on each other in chains
  TP lin() { TP t; const bool few = g.chance(1, 2); int left = few ? int(g.range(1, 2)) : 9, n = int(slots.size()), from = n ? int(g.below(n)) : 0; for (int i = 0; i < n; ++i) { const int s = slots[size_t((from + i) % n)]; int k = int(g.range(-2, 2)); if (!k && few) k = 1; if (!k || left-- <= 0) continue; TP y = mk(VAR, nullptr, nullptr, s); if (k != 1) y = mk(MUL, mk(CST, nullptr, nullptr, 0, k), y); t = t ? mk(ADD, t, y) : y; } return t ? t : mk(CST, nullptr, nullptr, 0, double(g.range(-2, 2))); }
  TP term() { TP t = lin(); if (hard && g.chance(1, 2)) { TP q; switch (g.below(4)) { case 0: q = mk(SQR, x()); break; case 1: q = mk(MUL, x(), x()); break; case 2: q = mk(ABS, x()); break; default: q = mk(SQR, mk(SUB, x(), mk(CST, nullptr, nullptr, 0, double(g.range(-4, 4)) / 4))); } t = mk(ADD, t, q); } return t; }
  TP atom(bool truth) { TP t = term(); double v = at(t); int rel = g.chance(1, 8) && truth ? 4 : g.chance(1, 2) ? 1 : 3; double sl = double(g.range(0, 8)) / 4; double cst = rel == 4 ? v : (rel == 1) == truth ? v + sl : v - sl - 0.25; if (rel == 3) cst = truth ? v - sl : v + sl + 0.25; return mk(REL, t, mk(CST, nullptr, nullptr, 0, cst), rel); }
  TP constraint(int d) { switch (d ? g.below(4) : 0) { case 0: case 1: return atom(true); case 2: return mk(AND, constraint(d - 1), constraint(d - 1)); default: return g.chance(1, 2) ? mk(OR, constraint(d - 1), atom(g.chance(1, 2))) : mk(OR, atom(false), constraint(d - 1)); } }
};
// holds with a margin of e in every comparison
inline bool inside(const T& t, const Pt& q, double e) { switch (t.k) { case REL: { bool u = false; double a = num(*t.a, q, u).v - num(*t.b, q, u).v; return t.i == 1 ? a <= -e : t.i == 3 ? a >= e : false; } case AND: return inside(*t.a, q, e) && inside(*t.b, q, e); case OR: return inside(*t.a, q, e) || inside(*t.b, q, e); default: return false; } }
// No sampled point well inside of the constraints is better than the answer in every objective.
inline int no_better(const std::vector<Goal>& gs, const Dom& whole, const Pt& w, uint64_t seed, const char* cls, const std::function<std::string()>& state) {
  Rng g(seed); int strict = 0; const double delta = whole.delta;
  for (auto& x : gs) for (int k = 0; k < 300; ++k) {
    Pt q; const double in = 2 * delta; bool skip = false;
    for (auto& v : x.vars) { double y; if (k == 0) y = w.v.at(v.slot); else if (v.type) y = v.lo + double(g.below(int64_t(v.hi - v.lo) + 1)); else { int c = int(g.below(4)); y = c == 0 ? v.lo + in : c == 1 ? v.hi - in : v.lo + in + (v.hi - v.lo - 2 * in) * g.unit(); } if (!v.type) { y = std::max(v.lo + in, std::min(v.hi - in, y)); if (y < v.lo || y > v.hi) skip = true; } q.v[v.slot] = y; }
    // An integer at the end of its domain is not well inside of it: the bound is a constraint like others.
    for (auto& v : x.vars) if (v.type && (q.v[v.slot] == v.lo || q.v[v.slot] == v.hi)) skip = true;
    if (skip) continue;
    for (auto& a : x.as) if (!inside(*a, q, 3 * delta)) { skip = true; break; }
    if (skip) continue; ++strict;
    bool better = true; std::string vals;
    for (auto& f : x.f) { Iv now = ival(*f, whole); bool u = false; double there = num(*f, q, u).v; char b[90]; snprintf(b, sizeof b, ": [%.9g, %.9g] against %.9g; ", now.l, now.u, there); vals += text(*f) + b; better = better && there < now.l - 5 * delta - 1e-6; }
    if (better) { std::string pt; for (auto& v : x.vars) { char b[50]; snprintf(b, sizeof b, "x%d=%.9g ", v.slot, q.v[v.slot]); pt += b; } sim::fail(cls, "%sis better than the answer with precision %g (%s): %s", pt.c_str(), delta, vals.c_str(), state().c_str()); }
  }
  return strict;
}
}  // namespace prob
