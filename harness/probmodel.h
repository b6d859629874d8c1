// Problems for the solver and their meaning, independently of dReal's own evaluation.
//
// A problem is a formula over declared variables. It is generated from a 64-bit seed, built as a dReal formula, and
// evaluated here in two ways: exactly at a point (to refute "unsat") and with intervals under delta-weakening of every
// comparison (to check a delta-sat box).
#pragma once
#include "dreal/solver/context.h"
#include "dreal/util/interrupt.h"
#include "dreal/util/signal_handler_guard.h"
#include "hx.h"
#include <set>
namespace prob {
using namespace hx;
using dreal::Box; using dreal::Config; using dreal::Context; using dreal::Expression; using dreal::Formula; using dreal::Variable;
constexpr double INF = HUGE_VAL;
struct Iv { double l, u; };
inline Iv hull(Iv a, Iv b) { return {std::min(a.l, b.l), std::max(a.u, b.u)}; }
inline Iv wid(Iv a, double e) { return {a.l - e, a.u + e}; }
inline double m0(double a, double b) { return a == 0 || b == 0 ? 0 : a * b; }
inline Iv mul(Iv a, Iv b) { double p[] = {m0(a.l, b.l), m0(a.l, b.u), m0(a.u, b.l), m0(a.u, b.u)}; return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)}; }
struct T; using TP = std::shared_ptr<const T>;
enum TK { CST, VAR, ADD, SUB, MUL, SQR, SIN, ABS, MIN, MAX, ITE, EXP, TANH, REL, AND, OR, NOT, IFF, BV, NEGT, XOR, FITE, IMPL, LETT, CALLT, FORALLT, FUN1, DIVT, ATAN2T };
// FUN1: one of `fun_names`, number i.
// LETT: a named subterm (a), bound by the enclosing node's `lets`; CALLT: a call of a defined function, a is the expanded body.
// FORALLT: for all values of the `qs` in their ranges, a.
struct Bind { int id; std::string name; TP def; };
struct Quant { int slot; std::string name; double lo, hi; };
struct T { TK k; int i{0}; double c{0}; TP a, b, f; bool ite{false}; std::vector<Bind> lets; std::string name; std::vector<TP> args; std::vector<Quant> qs; };
inline TP mk(TK k, TP a = nullptr, TP b = nullptr, int i = 0, double c = 0, TP f = nullptr) { auto t = std::make_shared<T>(); t->k = k; t->i = i; t->c = c; t->ite = k == ITE || (a && a->ite) || (b && b->ite) || (f && f->ite); t->a = a; t->b = b; t->f = f; return t; }

struct Var { Variable v; int type; double lo, hi; bool model; int slot; };  // type: 0 continuous, 1 integer, 2 Boolean
enum FK { F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_SQRT, F_LOG, F_CUBE, NFUN };
inline const char* fun_name(int i) { static const char* n[] = {"cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "sqrt", "log", "cube"}; return n[i]; }
inline double fun_at(int i, double x) { switch (i) { case F_COS: return std::cos(x); case F_TAN: return std::tan(x); case F_ASIN: return std::asin(x); case F_ACOS: return std::acos(x); case F_ATAN: return std::atan(x); case F_SINH: return std::sinh(x); case F_COSH: return std::cosh(x); case F_SQRT: return std::sqrt(x); case F_LOG: return std::log(x); default: return x * x * x; } }
inline Iv fun_over(int i, Iv a) {
  const Iv all{-INF, INF}; double l, u;
  switch (i) {
    case F_COS: { if (!(a.u - a.l < 1e9)) return {-1, 1}; double m = std::cos((a.l + a.u) / 2), r = (a.u - a.l) / 2 + 1e-12; return {std::max(-1.0, m - r), std::min(1.0, m + r)}; }
    case F_TAN: if (!(a.l > -1.57 && a.u < 1.57)) return all; break;
    case F_ASIN: case F_ACOS: if (a.u < -1 || a.l > 1) return all; a.l = std::max(-1.0, a.l); a.u = std::min(1.0, a.u); break;
    case F_COSH: if (a.l <= 0 && a.u >= 0) { u = std::cosh(std::max(-a.l, a.u)); return {1, u + 1e-9 * u}; } break;
    case F_SQRT: if (a.u < 0) return all; a.l = std::max(0.0, a.l); break;
    case F_LOG: if (a.u <= 0) return all; a.l = std::max(0.0, a.l); break;
    default: break;
  }
  l = fun_at(i, a.l); u = fun_at(i, a.u); if (l > u) std::swap(l, u); if (!(l <= u)) return all;
  return {l - 1e-9 * (1 + std::fabs(l)), u + 1e-9 * (1 + std::fabs(u))};
}
// ---- exact evaluation at a point
struct Pt { std::map<int, double> v; std::set<int> inexact; mutable bool undef{false}; };  // slot -> value; defined from constants that are not representable
struct Num { double v; bool exact; };
inline int holds(const T& t, const Pt& p);  // 0, 1, 2 = too close to call
inline Num num(const T& t, const Pt& p, bool& unk) {
  auto N = [&](const TP& x) { return num(*x, p, unk); };
  auto in = [&p](double v) { if (!std::isfinite(v)) p.undef = true; return Num{v, false}; };
  switch (t.k) {
    case CST: return {t.c, t.i == 0};  // i: not representable, only approximated
    case LETT: case CALLT: return N(t.a);
    case VAR: return {p.v.at(t.i), !p.inexact.count(t.i)};
    case ADD: { Num a = N(t.a), b = N(t.b); return {a.v + b.v, a.exact && b.exact}; }
    case SUB: { Num a = N(t.a), b = N(t.b); return {a.v - b.v, a.exact && b.exact}; }
    case MUL: { Num a = N(t.a), b = N(t.b); return {a.v * b.v, a.exact && b.exact}; }
    case SQR: { Num a = N(t.a); return {a.v * a.v, a.exact}; }
    case NEGT: { Num a = N(t.a); return {-a.v, a.exact}; }
    case ABS: { Num a = N(t.a); return {std::fabs(a.v), a.exact}; }
    case MIN: { Num a = N(t.a), b = N(t.b); return {std::min(a.v, b.v), a.exact && b.exact}; }
    case MAX: { Num a = N(t.a), b = N(t.b); return {std::max(a.v, b.v), a.exact && b.exact}; }
    case SIN: return in(std::sin(N(t.a).v));
    case EXP: return in(std::exp(N(t.a).v));
    case TANH: return in(std::tanh(N(t.a).v));
    case FUN1: if (t.i == F_CUBE) { Num a = N(t.a); return {a.v * a.v * a.v, a.exact && std::fabs(a.v) < 1e4 && std::fabs(a.v * 1024) == std::floor(std::fabs(a.v * 1024))}; } return in(fun_at(t.i, N(t.a).v));
    case DIVT: return in(N(t.a).v / N(t.b).v);
    case ATAN2T: return in(std::atan2(N(t.a).v, N(t.b).v));
    case ITE: { int h = holds(*t.f, p); bool z = false; num(*t.a, p, z); num(*t.b, p, z); if (h == 2) { unk = true; return in(0); } return h ? N(t.a) : N(t.b); }
    default: unk = true; return in(0);
  }
}
// The bodies generated are monotone in every quantified variable, so that the corners decide.
// `in`: how far from the ends of its domain a variable stays.
template <class F> inline void corners(const T& t, size_t k, std::map<int, double>& at, F f, double in = 0) { if (k == t.qs.size()) { f(); return; } if (t.qs[k].lo + in > t.qs[k].hi - in) return; for (double v : {t.qs[k].lo + in, t.qs[k].hi - in}) { at[t.qs[k].slot] = v; corners(t, k + 1, at, f, in); } }
inline int hold_all(const T& t, const Pt& p) { Pt q = p; int r = 1; corners(t, 0, q.v, [&] { int h = holds(*t.a, q); if (h == 0) r = 0; else if (h == 2 && r) r = 2; }); if (q.undef) p.undef = true; return r; }
inline int holds(const T& t, const Pt& p) {
  switch (t.k) {
    case REL: { bool unk = false; Num a = num(*t.a, p, unk), b = num(*t.b, p, unk); double d = a.v - b.v; if (unk) return 2; if (!(a.exact && b.exact) && !(std::fabs(d) > 1e-7 * (1 + std::fabs(a.v) + std::fabs(b.v)))) return 2;
      switch (t.i) { case 0: return d < 0; case 1: return d <= 0; case 2: return d > 0; case 3: return d >= 0; case 4: return d == 0; default: return d != 0; } }
    case BV: return p.v.at(t.i) != 0;
    case NOT: { int a = holds(*t.a, p); return a == 2 ? 2 : 1 - a; }
    case AND: { int a = holds(*t.a, p), b = holds(*t.b, p); return a == 0 || b == 0 ? 0 : a == 2 || b == 2 ? 2 : 1; }
    case OR: { int a = holds(*t.a, p), b = holds(*t.b, p); return a == 1 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0; }
    case IFF: { int a = holds(*t.a, p), b = holds(*t.b, p); return a == 2 || b == 2 ? 2 : a == b; }
    case XOR: { int a = holds(*t.a, p), b = holds(*t.b, p); return a == 2 || b == 2 ? 2 : a != b; }
    case IMPL: { int a = holds(*t.a, p), b = holds(*t.b, p); return a == 0 || b == 1 ? 1 : a == 2 || b == 2 ? 2 : 0; }
    case FITE: { int c = holds(*t.f, p), a = holds(*t.a, p), b = holds(*t.b, p); return c == 2 ? (a == b ? a : 2) : c ? a : b; }
    case LETT: case CALLT: return holds(*t.a, p);
    case FORALLT: return hold_all(t, p);
    default: return 2;
  }
}
// ---- delta-weakened evaluation over intervals: can it be true, can it be false?
struct Dom { std::map<int, Iv> v; double delta; };
struct TF { bool t, f; };
inline TF weak(const T& t, const Dom& d);
inline TF weak_all(const T& t, const Dom& d);
inline Iv ival(const T& t, const Dom& d) {
  auto N = [&](const TP& x) { return ival(*x, d); };
  switch (t.k) {
    case CST: return t.i ? wid({t.c, t.c}, 1e-9) : Iv{t.c, t.c};
    case CALLT: return N(t.a);
    case LETT: return t.i ? wid(N(t.a), d.delta + 1e-9) : N(t.a);
    case VAR: return d.v.at(t.i);
    case ADD: { Iv a = N(t.a), b = N(t.b); return wid({a.l + b.l, a.u + b.u}, 1e-12); }
    case SUB: { Iv a = N(t.a), b = N(t.b); return wid({a.l - b.u, a.u - b.l}, 1e-12); }
    case MUL: return wid(mul(N(t.a), N(t.b)), 1e-12);
    case SQR: { Iv a = N(t.a); double l = a.l <= 0 && a.u >= 0 ? 0 : std::min(a.l * a.l, a.u * a.u); return wid({l, std::max(a.l * a.l, a.u * a.u)}, 1e-12); }
    case NEGT: { Iv a = N(t.a); return {-a.u, -a.l}; }
    case ABS: { Iv a = N(t.a); double l = a.l <= 0 && a.u >= 0 ? 0 : std::min(std::fabs(a.l), std::fabs(a.u)); return {l, std::max(std::fabs(a.l), std::fabs(a.u))}; }
    case MIN: { Iv a = N(t.a), b = N(t.b); return {std::min(a.l, b.l), std::min(a.u, b.u)}; }
    case MAX: { Iv a = N(t.a), b = N(t.b); return {std::max(a.l, b.l), std::max(a.u, b.u)}; }
    case SIN: { Iv a = N(t.a); if (!(a.u - a.l < 1e9)) return {-1, 1}; double m = (a.l + a.u) / 2, r = (a.u - a.l) / 2; Iv x = wid({std::sin(m), std::sin(m)}, r + 1e-12); return {std::max(x.l, -1.0), std::min(x.u, 1.0)}; }
    case EXP: { Iv a = N(t.a); return wid({std::exp(a.l), std::exp(a.u)}, 1e-9 * (1 + std::exp(a.u))); }
    case FUN1: return fun_over(t.i, N(t.a));
    case DIVT: { Iv a = N(t.a), b = N(t.b); if (!(b.l > 0 || b.u < 0)) return {-INF, INF}; return wid(mul(a, Iv{1 / b.u, 1 / b.l}), 1e-12); }
    case ATAN2T: { Iv a = N(t.a), b = N(t.b); if (!(b.l > 0)) return {-3.15, 3.15}; double q[] = {std::atan2(a.l, b.l), std::atan2(a.l, b.u), std::atan2(a.u, b.l), std::atan2(a.u, b.u)}; return wid({*std::min_element(q, q + 4), *std::max_element(q, q + 4)}, 1e-9); }
    case TANH: { Iv a = N(t.a); return wid({std::tanh(a.l), std::tanh(a.u)}, 1e-12); }
    case ITE: { TF c = weak(*t.f, d); Iv a = N(t.a), b = N(t.b); Iv r = c.t && c.f ? hull(a, b) : c.t ? a : b; return wid(r, 2 * d.delta + 1e-9); }  // stands for v = a or v = b, also weakened
    default: return {-INF, INF};
  }
}
inline TF weak(const T& t, const Dom& d) {
  switch (t.k) {
    case REL: { Iv a = ival(*t.a, d), b = ival(*t.b, d); const double e = d.delta + 1e-7; Iv x = wid({a.l - b.u, a.u - b.l}, e);
      if (!(x.l <= x.u)) return {true, true};
      switch (t.i) { case 0: case 1: return {x.l <= 0, x.u >= 0}; case 2: case 3: return {x.u >= 0, x.l <= 0}; case 4: return {x.l <= 0 && x.u >= 0, true}; default: return {true, x.l <= 0 && x.u >= 0}; } }
    case BV: { Iv a = d.v.at(t.i); return {a.u >= 1, a.l <= 0}; }
    case NOT: { TF a = weak(*t.a, d); return {a.f, a.t}; }
    case AND: { TF a = weak(*t.a, d), b = weak(*t.b, d); return {a.t && b.t, a.f || b.f}; }
    case OR: { TF a = weak(*t.a, d), b = weak(*t.b, d); return {a.t || b.t, a.f && b.f}; }
    case IFF: { TF a = weak(*t.a, d), b = weak(*t.b, d); return {(a.f || b.t) && (a.t || b.f), (a.f || b.f) && (a.t || b.t)}; }  // every occurrence of a literal is weakened by itself
    case XOR: { TF a = weak(*t.a, d), b = weak(*t.b, d); return {(a.f || b.f) && (a.t || b.t), (a.f || b.t) && (a.t || b.f)}; }
    case IMPL: { TF a = weak(*t.a, d), b = weak(*t.b, d); return {a.f || b.t, a.t && b.f}; }
    case FITE: { TF c = weak(*t.f, d), a = weak(*t.a, d), b = weak(*t.b, d); return {(c.f || a.t) && (c.t || b.t), (c.f || a.f) && (c.t || b.f)}; }
    case LETT: case CALLT: return weak(*t.a, d);
    case FORALLT: return weak_all(t, d);
    default: return {true, true};
  }
}
// The domain is a premise: weakening the formula makes it smaller.
inline TF weak_all(const T& t, const Dom& d) { TF r{true, true}; std::map<int, double> at; corners(t, 0, at, [&] { Dom e = d; for (auto& q : at) e.v[q.first] = Iv{q.second, q.second}; r.t = r.t && weak(*t.a, e).t; }, d.delta); return r; }
// ---- dReal's side
using Syms = std::map<int, Variable>;
inline Formula form(const T& t, const Syms& s);
inline Expression expr(const T& t, const Syms& s) {
  auto N = [&](const TP& x) { return expr(*x, s); };
  switch (t.k) {
    case CST: return Expression(t.c);
    case VAR: return Expression(s.at(t.i));
    case ADD: return N(t.a) + N(t.b);
    case SUB: return N(t.a) - N(t.b);
    case MUL: return N(t.a) * N(t.b);
    case SQR: return pow(N(t.a), 2.0);
    case NEGT: return -N(t.a);
    case ABS: return abs(N(t.a));
    case MIN: return min(N(t.a), N(t.b));
    case MAX: return max(N(t.a), N(t.b));
    case SIN: return sin(N(t.a));
    case EXP: return exp(N(t.a));
    case TANH: return tanh(N(t.a));
    case DIVT: return N(t.a) / N(t.b);
    case ATAN2T: return atan2(N(t.a), N(t.b));
    case FUN1: { Expression e = N(t.a); switch (t.i) { case F_COS: return cos(e); case F_TAN: return tan(e); case F_ASIN: return asin(e); case F_ACOS: return acos(e); case F_ATAN: return atan(e); case F_SINH: return sinh(e); case F_COSH: return cosh(e); case F_SQRT: return sqrt(e); case F_LOG: return log(e); default: return pow(e, 3.0); } }
    default: return if_then_else(form(*t.f, s), N(t.a), N(t.b));
  }
}
inline Formula form(const T& t, const Syms& s) {
  switch (t.k) {
    case REL: { Expression a = expr(*t.a, s), b = expr(*t.b, s); switch (t.i) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; default: return a != b; } }
    case BV: return Formula(s.at(t.i));
    case NOT: return !form(*t.a, s);
    case AND: return form(*t.a, s) && form(*t.b, s);
    case OR: return form(*t.a, s) || form(*t.b, s);
    case IFF: return dreal::iff(form(*t.a, s), form(*t.b, s));
    default: return Formula::True();
  }
}
inline std::string text(const T& t) {
  auto b = [&](const char* o) { return std::string("(") + o + " " + text(*t.a) + (t.b ? " " + text(*t.b) : "") + ")"; };
  static const char* rel[] = {"<", "<=", ">", ">=", "=", "!="};
  char u[40];
  switch (t.k) { case CST: snprintf(u, sizeof u, "%.17g", t.c); return u; case VAR: return "x" + std::to_string(t.i); case BV: return "b" + std::to_string(t.i); case ADD: return b("+"); case SUB: return b("-"); case MUL: return b("*"); case SQR: return b("sq"); case NEGT: return b("neg"); case ABS: return b("abs"); case MIN: return b("min"); case MAX: return b("max"); case SIN: return b("sin"); case EXP: return b("exp"); case TANH: return b("tanh"); case FUN1: return b(fun_name(t.i)); case DIVT: return b("/"); case ATAN2T: return b("atan2");
    case ITE: return "(ite " + text(*t.f) + " " + text(*t.a) + " " + text(*t.b) + ")"; case REL: return b(rel[t.i]); case AND: return b("and"); case OR: return b("or"); case NOT: return b("not"); case IFF: return b("iff"); case XOR: return b("xor"); case IMPL: return b("=>"); case FITE: return "(ite " + text(*t.f) + " " + text(*t.a) + " " + text(*t.b) + ")"; case LETT: return b("let"); case CALLT: return b(t.name.c_str()); case FORALLT: { std::string r = "(forall ("; for (auto& q : t.qs) { snprintf(u, sizeof u, "x%d in [%g,%g] ", q.slot, q.lo, q.hi); r += u; } return r + ") " + text(*t.a) + ")"; } default: return "?"; }
}
// ---- generation
// Variables far from zero: a slot from 100000 on tells how far. Problems mention them relative to that offset.
constexpr int FAR = 100000;
inline double far_off(int slot) { static const double o[] = {0, 3e9, -5e9, 2147483646, -2147483647, 1e12, -1e12, 1e9}; return o[size_t(slot / FAR) % 8]; }
inline TP var_at(int slot) { TP v = mk(VAR, nullptr, nullptr, slot); const double o = far_off(slot); return o == 0 ? v : o < 0 ? mk(ADD, v, mk(CST, nullptr, nullptr, 0, -o)) : mk(SUB, v, mk(CST, nullptr, nullptr, 0, o)); }
struct Gen {
  Rng g; std::vector<int> num, boo; bool allow_ite, hard; const Pt* w;
  Gen(uint64_t seed, const std::vector<int>& n, const std::vector<int>& b, bool ite, bool h, const Pt* witness) : g(seed), num(n), boo(b), allow_ite(ite), hard(h), w(witness) {}
  double c() { return double(g.range(-12, 12)) / 4; }
  TP any() { return var_at(num[size_t(g.below(int64_t(num.size())))]); }
  TP term(int d) {
    if (d <= 0 || g.chance(1, 3)) return num.empty() || g.chance(1, 4) ? mk(CST, nullptr, nullptr, 0, c()) : any();
    switch (g.below(hard ? 17 : 9)) {
      case 0: case 1: case 2: return mk(ADD, term(d - 1), term(d - 1));
      case 3: case 4: return mk(SUB, term(d - 1), term(d - 1));
      case 5: case 6: return mk(MUL, mk(CST, nullptr, nullptr, 0, c()), term(d - 1));
      case 7: return mk(NEGT, term(d - 1));
      case 8: if (allow_ite && g.chance(1, 2)) return mk(ITE, term(d - 1), term(d - 1), 0, 0, formula(d - 2)); return mk(ADD, term(d - 1), term(d - 1));
      case 9: return mk(SQR, term(d - 1));
      case 10: return mk(MUL, term(d - 1), term(d - 1));
      case 11: return mk(ABS, term(d - 1));
      case 12: return g.chance(1, 2) ? mk(MIN, term(d - 1), term(d - 1)) : mk(MAX, term(d - 1), term(d - 1));
      case 14: case 15: { // arguments within the function's domain for variables up to 3 in size
        TP x = num.empty() ? mk(CST, nullptr, nullptr, 0, c() / 4) : any(), q = mk(MUL, mk(CST, nullptr, nullptr, 0, g.chance(1, 2) ? 0.25 : -0.25), x); int k = int(g.below(NFUN));
        if (k == F_COS || k == F_ATAN || k == F_CUBE) return mk(FUN1, g.chance(1, 2) ? x : term(d - 1), nullptr, k); if (k == F_SQRT || k == F_LOG) q = mk(ADD, mk(CST, nullptr, nullptr, 0, 1), q); return mk(FUN1, q, nullptr, k); }
      case 16: { TP x = num.empty() ? mk(CST, nullptr, nullptr, 0, c() / 4) : any(), q = mk(ADD, mk(CST, nullptr, nullptr, 0, double(g.range(1, 2))), g.chance(1, 2) ? mk(MUL, mk(CST, nullptr, nullptr, 0, 0.25), x) : mk(SQR, x)); return mk(g.chance(2, 3) ? DIVT : ATAN2T, term(d - 1), g.chance(1, 3) ? mk(CST, nullptr, nullptr, 0, g.chance(1, 2) ? 2 : -3) : q); }
      default: return mk(g.chance(1, 2) ? SIN : TANH, term(d - 1));
    }
  }
  TP formula(int d) {
    if (d <= 0 || g.chance(1, 3)) {
      if (!boo.empty() && (num.empty() || g.chance(1, 4))) return mk(BV, nullptr, nullptr, boo[size_t(g.below(int64_t(boo.size())))]);
      if (num.empty()) return mk(REL, mk(CST, nullptr, nullptr, 0, 0), mk(CST, nullptr, nullptr, 0, 1), 0);
      if (g.chance(1, 4)) { const int v = num[size_t(g.below(int64_t(num.size())))]; return mk(REL, mk(VAR, nullptr, nullptr, v), mk(CST, nullptr, nullptr, 0, far_off(v) + c()), int(g.below(6))); }  // a bound
      TP a = term(2), b = g.chance(1, 2) ? mk(CST, nullptr, nullptr, 0, c()) : term(1);
      const int rel = int(g.below(6));
      if (w && (rel == 4 ? g.chance(2, 3) : g.chance(1, 6))) { bool unk = false; Num x = num_at(a, unk); if (!unk && x.exact) return mk(REL, a, mk(CST, nullptr, nullptr, 0, x.v), rel); }  // the witness lies exactly on the border
      return mk(REL, a, b, rel);
    }
    switch (g.below(7)) { case 0: case 1: return mk(AND, formula(d - 1), formula(d - 1)); case 2: case 3: case 4: return mk(OR, formula(d - 1), formula(d - 1)); case 5: return mk(NOT, formula(d - 1)); default: return mk(IFF, formula(d - 1), formula(d - 1)); }
  }
  Num num_at(const TP& t, bool& unk) { return prob::num(*t, *w, unk); }
};
}  // namespace prob
