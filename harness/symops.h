// Operation language over pools of symbolic values, with an executable reference model:
// every value is mirrored by a small expression graph of our own that is evaluated numerically
// (with derivatives and substitutions as environments), independently of the code under test.
#pragma once
#include "dreal/symbolic/prefix_printer.h"
#include "dreal/symbolic/symbolic.h"
#include <array>
#include <functional>
#include "hx.h"
namespace symops {
using namespace hx;
using dreal::Environment; using dreal::Expression; using dreal::Formula; using dreal::Variable; using dreal::Variables;
constexpr int NV = 5, NB = 2, NPT = 3, NE = 6, NF = 5;
constexpr double PT[NPT][NV] = {{0.37, -1.21, 1.63, 0.91, -0.57}, {-1.47, 0.83, 0.29, 1.11, 1.93}, {1.71, 1.37, -0.67, -1.91, 0.43}};
constexpr bool PB[NPT][NB] = {{true, false}, {false, true}, {true, true}};

struct Ctx {
  std::vector<Variable> x, b;
  std::vector<Environment> env;
  std::vector<dreal::ExpressionSubstitution> subst;
  explicit Ctx(bool warm = true) {
    // process-wide constants are created on first use and kept: not part of any run that counts blocks
    if (warm) { (void)Formula::True(); (void)Formula::False(); (void)Expression::Zero(); (void)Expression::One(); (void)Expression::Pi(); (void)Expression::E(); (void)Expression::NaN(); }
    for (int i = 0; i < NV; ++i) x.emplace_back("x" + std::to_string(i));
    for (int i = 0; i < NB; ++i) b.emplace_back("b" + std::to_string(i), Variable::Type::BOOLEAN);
    for (int p = 0; p < NPT; ++p) {
      Environment e;
      for (int i = 0; i < NV; ++i) e.insert(x[i], PT[p][i]);
      for (int i = 0; i < NB; ++i) e.insert(b[i], PB[p][i] ? 1.0 : 0.0);
      env.push_back(e);
    }
    if (warm) for (int i = 0; i < NV; ++i) { dreal::ExpressionSubstitution s; s.emplace(x[i], Expression(x[(i + 1) % NV])); s.emplace(x[(i + 1) % NV], Expression(x[i]) + 2.0); subst.push_back(s); }
  }
};

// ------------------------------------------------------------------ reference model
struct Val { double v{0}, m{0}, d{0}, dm{0}; bool ok{true}, dok{true}; };
struct Tri { int t; };
struct MEnv { Val x[NV]; int b[NB]; };  // b: 0, 1, 2 = unknown
struct MN; using NP = std::shared_ptr<const MN>;
enum MK { M_CONST, M_VAR, M_ADD, M_MUL, M_DIVSQ, M_FN, M_ITE, M_SUBST, M_DIFF, M_UNK, M_RAW, M_REL, M_AND, M_NOT, M_BVAR, M_TRUE, M_FORALL };
constexpr double QDOM[] = {-0.7, 0.4, 1.9};  // what a quantifier ranges over
struct MN {
  MK k; int i{0}; double c{0}; NP a, b, f; unsigned vars{0}, bound{0}; int64_t size{1}; bool loose{false}, raw{false};  // raw: an operation with a restricted domain occurs; bound: quantified variables below
  std::vector<std::pair<int, NP>> sub;            // real variable -> replacement
  std::vector<std::pair<int, NP>> bsub;           // Boolean variable -> replacement
};
constexpr int NFN = 20;
inline Val chain(const Val& x, double f, double df, double bound = 0) {
  Val r; r.ok = x.ok; r.dok = x.dok && x.ok; r.v = f; r.m = std::fabs(df) * x.m + std::fabs(f) + 1 + bound;
  r.d = df * x.d; r.dm = (std::fabs(df) + 1) * (x.dm + std::fabs(x.d)) * (1 + x.m); return r;
}
inline Val v_const(double c) { Val r; r.v = c; r.m = std::fabs(c); return r; }
inline Val v_add(const Val& x, const Val& y) { Val r; r.ok = x.ok && y.ok; r.dok = x.dok && y.dok; r.v = x.v + y.v; r.m = x.m + y.m; r.d = x.d + y.d; r.dm = x.dm + y.dm; return r; }
inline Val v_mul(const Val& x, const Val& y) { Val r; r.ok = x.ok && y.ok; r.dok = x.dok && y.dok && r.ok; r.v = x.v * y.v; r.m = x.m * y.m; r.d = x.d * y.v + x.v * y.d; r.dm = x.dm * y.m + x.m * y.dm; return r; }
inline Val v_neg(Val x) { x.v = -x.v; x.d = -x.d; return x; }
inline Val v_inv(const Val& x) { Val r = chain(x, 1 / x.v, -1 / (x.v * x.v)); return r; }
inline Val v_tanh(const Val& x) { double t = std::tanh(x.v); return chain(x, t, 1 - t * t); }
inline Val v_fn(int d, const Val& x, const Val& y) {
  auto nod = [](Val r) { r.dok = false; return r; };
  const Val t = v_mul(v_const(0.9), v_tanh(x));
  switch (d) {
    case 0: return chain(x, std::sin(x.v), std::cos(x.v));
    case 1: return chain(x, std::cos(x.v), -std::sin(x.v));
    case 2: return v_tanh(x);
    case 3: return chain(x, std::atan(x.v), 1 / (1 + x.v * x.v));
    case 4: { Val r = nod(chain(x, std::fabs(x.v), x.v < 0 ? -1 : 1)); return r; }
    case 5: { Val s = nod(chain(x, std::fabs(x.v), 1)); Val r = nod(chain(s, std::sqrt(s.v), 1)); r.m = 1e4 * (1 + x.m); return r; }
    case 6: case 7: { Val r = nod(v_add(x, y)); r.v = d == 6 ? std::min(x.v, y.v) : std::max(x.v, y.v); return r; }
    case 8: { Val s = v_tanh(x); return chain(s, std::exp(s.v), std::exp(s.v)); }
    case 9: { Val s = v_add(v_mul(x, x), v_const(1.5)); return chain(s, std::log(s.v), 1 / s.v); }
    case 10: { Val s = v_add(v_mul(x, x), v_const(1.0)); return chain(s, std::sqrt(s.v), 0.5 / std::sqrt(s.v)); }
    case 11: { double c = std::cos(t.v); return chain(t, std::tan(t.v), 1 / (c * c)); }
    case 12: return chain(t, std::asin(t.v), 1 / std::sqrt(1 - t.v * t.v));
    case 13: return chain(t, std::acos(t.v), -1 / std::sqrt(1 - t.v * t.v));
    case 14: return chain(t, std::sinh(t.v), std::cosh(t.v));
    case 15: return chain(t, std::cosh(t.v), std::sinh(t.v));
    case 16: { Val s = v_add(v_mul(y, y), v_const(1.0)); Val r; double q = x.v * x.v + s.v * s.v; r.ok = x.ok && s.ok; r.dok = x.dok && s.dok && r.ok; r.v = std::atan2(x.v, s.v); r.m = 4 + x.m + s.m;
      r.d = (x.d * s.v - x.v * s.d) / q; r.dm = (1 + x.m + s.m) * (x.dm + s.dm) * (1 + x.m + s.m); return r; }
    case 17: { Val s = v_add(v_mul(x, x), v_const(0.5)); Val u = v_tanh(y); Val l = chain(s, std::log(s.v), 1 / s.v); Val e = v_mul(u, l); Val r = chain(e, std::exp(e.v), std::exp(e.v)); r.m = 10 * (1 + s.m) * (1 + u.m); return r; }
    case 18: { Val s = chain(x, std::sin(x.v), std::cos(x.v)); return chain(s, std::sin(s.v), std::cos(s.v)); }
    default: return v_mul(x, v_mul(x, x));
  }
}
// functions with a restricted domain; outside of it (or close to its border) nothing is known
constexpr int NRAW = 12;
inline Val v_raw(int d, const Val& x, const Val& y, bool yconst) {
  Val bad; bad.ok = bad.dok = false;
  switch (d) {
    case 0: return x.v > 1e-6 ? chain(x, std::log(x.v), 1 / x.v) : bad;
    case 1: return x.v > 1e-6 ? chain(x, std::sqrt(x.v), 0.5 / std::sqrt(x.v)) : bad;
    case 2: return std::fabs(y.v) > 1e-6 ? v_mul(x, v_inv(y)) : bad;
    case 3: {
      const bool whole = yconst && y.v == std::floor(y.v);
      if (whole && y.v == 0) return v_const(1);
      if (!(x.v > 1e-6 || (x.v < -1e-6 && whole))) return bad;
      const double p = std::pow(x.v, y.v), dx = y.v * std::pow(x.v, y.v - 1), dy = x.v > 0 ? std::log(x.v) * p : 0;
      Val r; r.ok = x.ok && y.ok; r.dok = r.ok && x.dok && y.dok; r.v = p; r.m = std::fabs(dx) * x.m + std::fabs(dy) * y.m + std::fabs(p) + 1;
      r.d = dx * x.d + dy * y.d; r.dm = (std::fabs(dx) + std::fabs(dy) + std::fabs(p) + 1) * (1 + x.dm + y.dm) * (1 + x.m) * (1 + y.m) * (1 + 1 / std::fabs(x.v)); return r; }
    case 4: return std::fabs(x.v) < 0.999 ? chain(x, std::asin(x.v), 1 / std::sqrt(1 - x.v * x.v)) : bad;
    case 5: return std::fabs(x.v) < 0.999 ? chain(x, std::acos(x.v), -1 / std::sqrt(1 - x.v * x.v)) : bad;
    case 6: { const double c = std::cos(x.v); return std::fabs(c) > 1e-2 ? chain(x, std::tan(x.v), 1 / (c * c)) : bad; }
    case 7: return std::fabs(x.v) < 8 ? chain(x, std::sinh(x.v), std::cosh(x.v)) : bad;
    case 8: return std::fabs(x.v) < 8 ? chain(x, std::cosh(x.v), std::sinh(x.v)) : bad;
    case 9: return std::fabs(x.v) < 8 ? chain(x, std::exp(x.v), std::exp(x.v)) : bad;
    case 10: { const double q = x.v * x.v + y.v * y.v; if (q < 1e-3 || (std::fabs(x.v) < 1e-3 && y.v < 0)) return bad; Val r; r.ok = x.ok && y.ok; r.dok = r.ok && x.dok && y.dok; r.v = std::atan2(x.v, y.v); r.m = (x.m + y.m) / q + 4 + x.m + y.m; r.d = (x.d * y.v - x.v * y.d) / q; r.dm = (1 + x.m + y.m) * (x.dm + y.dm) * (1 + x.m + y.m) * (1 + 1 / q); return r; }
    default: return bad;  // not a number
  }
}
struct MEval {
  int64_t fuel{40000};
  Val e(const MN& n, const MEnv& en) {
    Val bad; bad.ok = bad.dok = false;
    if (--fuel < 0) return bad;
    switch (n.k) {
      case M_CONST: return v_const(n.c);
      case M_VAR: return en.x[n.i];
      case M_ADD: return v_add(e(*n.a, en), e(*n.b, en));
      case M_MUL: return v_mul(e(*n.a, en), e(*n.b, en));
      case M_DIVSQ: { Val y = e(*n.b, en); return v_mul(e(*n.a, en), v_inv(v_add(v_mul(y, y), v_const(1.0)))); }
      case M_FN: { Val x = e(*n.a, en); return v_fn(n.i, x, n.b ? e(*n.b, en) : x); }
      case M_RAW: { Val x = e(*n.a, en); return v_raw(n.i, x, n.b ? e(*n.b, en) : x, n.b && n.b->k == M_CONST && !n.b->i); }
      case M_ITE: { int t = f(*n.f, en); if (t == 2) return bad; Val r = e(t == 1 ? *n.a : *n.b, en); r.dok = false; return r; }
      case M_SUBST: return e(*n.a, apply(n, en));
      case M_DIFF: { MEnv en2 = en; bool nested = false; for (int i = 0; i < NV; ++i) { if (en.x[i].d != 0) nested = true; en2.x[i].d = i == n.i; en2.x[i].dm = i == n.i; en2.x[i].dok = true; }
        Val r = e(*n.a, en2); Val o; o.ok = r.ok && r.dok; o.v = r.d; o.m = 10 * (r.dm + std::fabs(r.d)); o.dok = !nested; return o; }
      default: return bad;
    }
  }
  MEnv apply(const MN& n, const MEnv& en) { MEnv r = en; for (auto& s : n.sub) r.x[s.first] = e(*s.second, en); for (auto& s : n.bsub) r.b[s.first] = f(*s.second, en); return r; }
  int f(const MN& n, const MEnv& en) {
    if (--fuel < 0) return 2;
    switch (n.k) {
      case M_TRUE: return 1;
      case M_BVAR: return en.b[n.i];
      case M_REL: { Val x = e(*n.a, en), y = e(*n.b, en); double df = x.v - y.v; if (!x.ok || !y.ok || !(std::fabs(df) > 1e-5 * (1 + x.m + y.m))) return 2;
        switch (n.i) { case 0: case 1: return df < 0; case 2: case 3: return df > 0; case 4: return 0; default: return 1; } }
      case M_AND: { int x = f(*n.a, en), y = f(*n.b, en); return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : 2; }
      case M_NOT: { int x = f(*n.a, en); return x == 2 ? 2 : 1 - x; }
      case M_SUBST: return f(*n.a, apply(n, en));
      case M_FORALL: { // i: mask of quantified variables
        MEnv e2 = en; bool unknown = false; int res = 1;
        std::function<void(int)> go = [&](int v) {
          while (v < NV && !(n.i >> v & 1)) ++v;
          if (v == NV) { int t = f(*n.a, e2); if (t == 2) unknown = true; if (t == 0) res = 0; return; }
          for (double q : QDOM) { if (!res) return; e2.x[v] = v_const(q); go(v + 1); }
        };
        go(0); return !res ? 0 : unknown ? 2 : 1; }
      default: return 2;
    }
  }
};
inline NP mk(MK k, NP a = nullptr, NP b = nullptr, int i = 0, double c = 0) {
  auto n = std::make_shared<MN>(); n->k = k; n->i = i; n->c = c; n->vars = (a ? a->vars : 0) | (b ? b->vars : 0); n->bound = (a ? a->bound : 0) | (b ? b->bound : 0); n->size = 1 + (a ? a->size : 0) + (b ? b->size : 0); n->raw = k == M_RAW || (a && a->raw) || (b && b->raw); n->a = std::move(a); n->b = std::move(b); return n;
}
inline NP m_const(double c) { return mk(M_CONST, nullptr, nullptr, 0, c); }
inline NP m_var(int i) { auto n = std::make_shared<MN>(); n->k = M_VAR; n->i = i; n->vars = 1u << i; return n; }
inline NP m_bvar(int i) { auto n = std::make_shared<MN>(); n->k = M_BVAR; n->i = i; n->vars = 1u << (NV + i); return n; }
inline NP m_add(NP a, NP b) { return mk(M_ADD, a, b); }
inline NP m_mul(NP a, NP b) { return mk(M_MUL, a, b); }
inline NP m_neg(NP a) { return mk(M_MUL, a, m_const(-1)); }
inline NP m_ite(NP f, NP a, NP b) { auto n = std::make_shared<MN>(); n->k = M_ITE; n->vars = f->vars | a->vars | b->vars; n->bound = f->bound | a->bound | b->bound; n->size = 1 + f->size + a->size + b->size; n->raw = f->raw || a->raw || b->raw; n->f = f; n->a = a; n->b = b; return n; }
inline NP m_sub(NP a, std::vector<std::pair<int, NP>> s, std::vector<std::pair<int, NP>> bs = {}) {
  auto n = std::make_shared<MN>(); n->k = M_SUBST; n->vars = a->vars; n->size = 1 + a->size; n->raw = a->raw; for (auto& x : s) n->raw |= x.second->raw; for (auto& x : bs) n->raw |= x.second->raw;
  for (auto& x : s) n->vars &= ~(1u << x.first);
  for (auto& x : bs) n->vars &= ~(1u << (NV + x.first));
  for (auto& x : s) { n->size += x.second->size; if (a->vars >> x.first & 1) n->vars |= x.second->vars; }
  for (auto& x : bs) { n->size += x.second->size; if (a->vars >> (NV + x.first) & 1) n->vars |= x.second->vars; }
  // a replacement whose variables are quantified where it is put would be captured: no meaning is fixed for that
  n->bound = a->bound; unsigned in = 0; for (auto& x : s) { in |= x.second->vars; n->bound |= x.second->bound; } for (auto& x : bs) { in |= x.second->vars; n->bound |= x.second->bound; }
  if (a->bound & in) { n->k = M_UNK; n->loose = true; return n; }
  n->a = a; n->sub = std::move(s); n->bsub = std::move(bs); return n;
}
inline NP m_unk(unsigned vars) { auto n = std::make_shared<MN>(); n->k = M_UNK; n->vars = vars; return n; }
inline NP m_forall(NP a, unsigned q) { auto n = std::make_shared<MN>(); n->k = M_FORALL; n->i = int(q); n->vars = a->vars & ~q; n->bound = a->bound | q; n->size = 1 + a->size; n->raw = a->raw; n->a = a; return n; }
inline NP m_and(NP a, NP b) { return mk(M_AND, a, b); }
inline NP m_not(NP a) { return mk(M_NOT, a); }
inline NP m_or(NP a, NP b) { return m_not(m_and(m_not(a), m_not(b))); }
inline NP m_iff(NP a, NP b) { return m_and(m_or(m_not(a), b), m_or(m_not(b), a)); }
inline MEnv m_env(int p) { MEnv e; for (int i = 0; i < NV; ++i) { e.x[i] = v_const(PT[p][i]); } for (int i = 0; i < NB; ++i) e.b[i] = PB[p][i]; return e; }

struct EM { NP n; double v[NPT], m[NPT]; bool known[NPT]; unsigned vars; };
struct FM { NP n; int t[NPT]; unsigned vars; };  // 0, 1 or 2 = unknown
inline EM em(NP n) { EM r; r.n = n; r.vars = n->vars; for (int p = 0; p < NPT; ++p) { MEval ev; Val v = ev.e(*n, m_env(p)); r.known[p] = v.ok && std::isfinite(v.v) && std::isfinite(v.m) && v.m < 1e7; r.v[p] = v.v; r.m[p] = v.m; } return r; }
inline FM fm(NP n) { FM r; r.n = n; r.vars = n->vars; for (int p = 0; p < NPT; ++p) { MEval ev; r.t[p] = ev.f(*n, m_env(p)); } return r; }

enum K {
  ADD, ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD_RL, ADD_LR, ADD_RR, MUL_RL, MUL_LR, MUL_RR, NEG_R, NEG, SUB_RL, SUB_LR, SUB_RR, FN, COPY, SUBST, SUBST_MAP, SUBST_B, ITE, INCDEC, DIV, SELF, POW, POWN, MUL, SUB, DIFF, MIX_CONST, PART_EVAL,
  EXPAND, SUMV, PRODV, SWAP, RCONST, UF, CONST, MOVE, RAW, POWC, VAROP, SUBST_2,
  F_REL, F_AND, F_OR, F_AND_RL, F_OR_RL, F_AND_LR, F_OR_LR, F_AND_RR, F_OR_RR, F_NOT, F_COPY, F_SUBST, F_SUBST_MAP, F_SUBST_B, F_IMPLY, F_IFF, F_EQ, F_BVAR, F_NARY, F_NARYV, F_SELF, F_FORALL, F_VREL, F_CONST, F_MOVE, F_VOPS, F_RELC, F_SUBST_2, NK
};
inline bool is_f(int64_t k) { return k >= F_REL; }

// targets/sources: a = target, b, c = sources, d = extra selector
struct Pool {
  std::vector<Expression> E; std::vector<Formula> F;
  std::vector<EM> em; std::vector<FM> fm;
  const Ctx& cx;
  explicit Pool(const Ctx& c, bool model = true) : cx(c) {
    for (int i = 0; i < NE; ++i) { E.push_back(Expression(c.x[i % NV])); if (model) em.push_back(leaf(i)); }
    for (int i = 0; i < NF; ++i) { F.push_back(Expression(c.x[i % NV]) > 0.25 * i); if (model) fm.push_back(fleaf(i)); }
  }
  static EM leaf(int i) { return symops::em(m_var(i % NV)); }
  static FM fleaf(int i) { return symops::fm(mk(M_REL, m_var(i % NV), m_const(0.25 * i), 2)); }
  void reset_e(int i) { E[i] = Expression(cx.x[i % NV]); if (!em.empty()) em[i] = leaf(i); }
  void reset_f(int i) { F[i] = Expression(cx.x[i % NV]) > 0.25 * i; if (!fm.empty()) fm[i] = fleaf(i); }
};
inline int ei(int64_t v) { return int(((v % NE) + NE) % NE); }
inline int fi(int64_t v) { return int(((v % NF) + NF) % NF); }

using VMap = std::map<size_t, bool>;

// variables with larger identifiers were introduced by a transformation; a quantifier over one tries the values its definitions give
inline size_t& introduced_after() { static size_t v = ~size_t(0); return v; }
// ---- plain Boolean/numeric evaluation by the harness (independent of Formula::Evaluate for connectives)
// A quantifier ranges over a small fixed domain. Throws std::runtime_error where rounding could decide.
inline bool ev(const Formula& f, const Environment& env, const VMap& bv) {
  using dreal::FormulaKind;
  auto forall = [&](const Formula& g) {
    std::vector<Variable> qs; for (const Variable& v : get_quantified_variables(g)) qs.push_back(v);
    std::sort(qs.begin(), qs.end(), [](const Variable& x, const Variable& y) { return x.get_id() < y.get_id(); });
    Environment e2 = env; VMap b2 = bv; bool undecided = false; std::vector<bool> set(qs.size(), false);
    std::function<void(const Formula&, const Variable&, std::vector<Expression>*)> eqs = [&](const Formula& h, const Variable& v, std::vector<Expression>* out) {
      if (is_conjunction(h) || is_disjunction(h)) { for (auto& x : get_operands(h)) eqs(x, v, out); return; }
      if (is_negation(h)) return eqs(get_operand(h), v, out);
      if (!is_equal_to(h)) return;
      const Expression l = get_lhs_expression(h), r = get_rhs_expression(h);
      if (is_variable(l) && get_variable(l).equal_to(v)) out->push_back(r); else if (is_variable(r) && get_variable(r).equal_to(v)) out->push_back(l);
    };
    // next: original variables first, then the introduced ones whose definitions are ready
    std::function<bool(size_t)> go = [&](size_t done) -> bool {
      if (done == qs.size()) { try { return ev(get_quantified_formula(g), e2, b2); } catch (const std::exception&) { undecided = true; return true; } }
      size_t i = qs.size(); std::vector<double> dom;
      for (size_t k = 0; k < qs.size() && i == qs.size(); ++k) {
        if (set[k]) continue;
        if (qs[k].get_type() == Variable::Type::BOOLEAN) { dom = {0, 1}; i = k; break; }
        if (qs[k].get_id() <= introduced_after()) { dom.assign(QDOM, QDOM + 3); i = k; break; }
        std::vector<Expression> defs; eqs(get_quantified_formula(g), qs[k], &defs); bool ready = true; std::vector<double> ds{QDOM[1]};
        for (const Expression& d : defs) for (size_t m = 0; m < qs.size(); ++m) if (!set[m] && d.GetVariables().include(qs[m])) ready = false;
        if (!ready) continue;
        for (const Expression& d : defs) { double x = std::nan(""); try { x = d.Evaluate(e2); } catch (const std::exception&) {} if (std::isfinite(x)) ds.push_back(x); else { undecided = true; return true; } }
        dom = ds; i = k;
      }
      if (i == qs.size()) { undecided = true; return true; }
      set[i] = true; b2.erase(qs[i].get_id()); bool all = true;
      for (double x : dom) { e2[qs[i]] = x; if (!go(done + 1)) { all = false; break; } }
      set[i] = false; return all;
    };
    if (!go(0)) return false;
    if (undecided) throw std::runtime_error("undecided");
    return true;
  };
  switch (f.get_kind()) {
    case FormulaKind::True: return true;
    case FormulaKind::False: return false;
    case FormulaKind::Var: { auto it = bv.find(get_variable(f).get_id()); if (it != bv.end()) return it->second; return env[get_variable(f)] != 0; }
    case FormulaKind::And: { for (const Formula& g : get_operands(f)) if (!ev(g, env, bv)) return false; return true; }
    case FormulaKind::Or: { for (const Formula& g : get_operands(f)) if (ev(g, env, bv)) return true; return false; }
    case FormulaKind::Not: return !ev(get_operand(f), env, bv);
    case FormulaKind::Forall: return forall(f);
    default: break;
  }
  const double l = get_lhs_expression(f).Evaluate(env), r = get_rhs_expression(f).Evaluate(env);
  if (!std::isfinite(l) || !std::isfinite(r) || (l != r && !(std::fabs(l - r) > 1e-9 * (1 + std::fabs(l) + std::fabs(r))))) throw std::runtime_error("undecided");
  switch (f.get_kind()) {
    case FormulaKind::Eq: return l == r;
    case FormulaKind::Neq: return l != r;
    case FormulaKind::Gt: return l > r;
    case FormulaKind::Geq: return l >= r;
    case FormulaKind::Lt: return l < r;
    default: return l <= r;
  }
}
// 0, 1, or 2 where the value is not decided
inline int ev3(const Formula& f, const Environment& env, const VMap& bv = VMap{}) { try { return ev(f, env, bv); } catch (const std::exception&) { return 2; } }
// Which pool entries an operation may change.
struct Touch { int e{-1}, e2{-1}, f{-1}, f2{-1}; };
inline Touch touched(const Op& o) {
  Touch t; int a = ei(o.a), b = ei(o.b), c = ei(o.c);
  if (!is_f(o.k)) {
    t.e = a;
    switch (o.k) { case ADD_RL: case MUL_RL: case SUB_RL: case NEG_R: case MOVE: t.e2 = b; break; case ADD_LR: case MUL_LR: case SUB_LR: t.e2 = c; break;
      case ADD_RR: case MUL_RR: case SUB_RR: case SWAP: t.e2 = b; break; default: break; }
  } else {
    t.f = fi(o.a);
    switch (o.k) { case F_AND_RL: case F_OR_RL: case F_MOVE: case F_AND_RR: case F_OR_RR: t.f2 = fi(o.b); break; case F_VOPS: if (o.d % 20 >= 11 && o.d % 20 <= 14) t.f2 = fi(o.b); break; case F_AND_LR: case F_OR_LR: t.f2 = fi(o.c); break; default: break; }
  }
  return t;
}
inline Expression fn(int d, const Expression& e, const Expression& f) {
  switch (d) {
    case 0: return sin(e); case 1: return cos(e); case 2: return tanh(e); case 3: return atan(e); case 4: return abs(e); case 5: return sqrt(abs(e)); case 6: return min(e, f); case 7: return max(e, f); case 8: return exp(tanh(e));
    case 9: return log(pow(e, 2.0) + 1.5); case 10: return sqrt(e * e + 1.0); case 11: return tan(0.9 * tanh(e)); case 12: return asin(0.9 * tanh(e)); case 13: return acos(0.9 * tanh(e)); case 14: return sinh(0.9 * tanh(e)); case 15: return cosh(0.9 * tanh(e));
    case 16: return atan2(e, f * f + 1.0); case 17: return pow(e * e + 0.5, tanh(f)); case 18: return sin(sin(e)); default: return pow(e, 3.0);
  }
}
inline Expression raw(int d, const Expression& e, const Expression& f) {
  switch (d) {
    case 0: return log(e); case 1: return sqrt(e); case 2: return e / f; case 3: return pow(e, f); case 4: return asin(e); case 5: return acos(e); case 6: return tan(e); case 7: return sinh(e); case 8: return cosh(e); case 9: return exp(e); case 10: return atan2(e, f);
    default: return e + Expression::NaN();
  }
}
inline bool raw2(int d) { return d == 2 || d == 3 || d == 10; }
inline double pc(int d) { static const double c[] = {0, 1, 2, 3, 4, -1, -2, 0.5, 1.5, -0.5}; return c[d % 10]; }
inline Formula rel(int d, const Expression& e, const Expression& f) {
  switch (d % 6) { case 0: return e < f; case 1: return e <= f; case 2: return e > f; case 3: return e >= f; case 4: return e == f; default: return e != f; }
}
// Large powers are left out, their expansion is exponential; conditional expressions cannot be expanded.
// Expand is specified for polynomials; around them it also goes through the
// functions of one argument and quotients of polynomials.  (Its debug
// assertions take it to be idempotent, which it is not on nested quotients.)
inline bool small_poly(const Expression& e) {
  if (!e.is_polynomial()) return false;
  const std::string s = e.to_string(); int pw = 0;
  if (s.size() > 70 || s.find('/') != std::string::npos) return false;
  for (size_t i = 0; i < s.size(); ++i) { if (s.compare(i, 4, "pow(") == 0) ++pw; if (s.compare(i, 2, ", ") == 0 && atof(s.c_str() + i + 2) > 4) return false; }
  return pw <= 3;
}
inline bool expandable(const Expression& e) {
  sim::HarnessScope hs;
  if (e.include_ite()) return false;
  if (e.is_polynomial()) return small_poly(e);
  using namespace dreal::drake::symbolic;
  if (is_sin(e) || is_cos(e) || is_tan(e) || is_abs(e) || is_log(e) || is_exp(e) || is_sqrt(e) || is_asin(e) || is_acos(e) || is_atan(e) || is_sinh(e) || is_cosh(e) || is_tanh(e)) return small_poly(get_argument(e));
  if (is_min(e) || is_max(e) || is_atan2(e) || is_pow(e)) return small_poly(get_first_argument(e)) && small_poly(get_second_argument(e));
  return is_uninterpreted_function(e);
}
inline double kc(int d) { static const double c[] = {0, 1, -1, 2, 0.5, -3.25, 1e-3, 0.1}; return c[d & 7]; }
inline void apply(const Op& o, Pool& P) {
  auto& E = P.E; auto& F = P.F; const Ctx& cx = P.cx;
  const int a = ei(o.a), b = ei(o.b), c = ei(o.c), d = int(o.d), fa = fi(o.a), fb = fi(o.b), fc = fi(o.c);
  auto leafE = [&](int i) { return Expression(cx.x[i % NV]); };
  auto leafF = [&](int i) { return Expression(cx.x[i % NV]) > 0.25 * i; };
  const int c1 = c == b ? (b + 1) % NE : c, b1 = c == b ? (c + 1) % NE : b, fc1 = fc == fb ? (fb + 1) % NF : fc, fb1 = fc == fb ? (fc + 1) % NF : fb;
  switch (o.k) {
    case ADD: E[a] = E[b] + E[c]; break;
    case SUB: E[a] = E[b] - E[c]; break;
    case MUL: E[a] = E[b] * E[c]; break;
    case ADDEQ: E[a] += E[b]; break;
    case SUBEQ: E[a] -= E[b]; break;
    case MULEQ: E[a] *= E[b]; break;
    case DIVEQ: E[a] /= pow(E[b], 2.0) + 1.0; break;
    case ADD_RL: { Expression t = std::move(E[b]) + E[c1]; E[b] = leafE(b); E[a] = t; break; }
    case ADD_LR: { Expression t = E[b1] + std::move(E[c]); E[c] = leafE(c); E[a] = t; break; }
    case ADD_RR: { Expression u = E[c]; Expression t = std::move(E[b]) + std::move(u); E[b] = leafE(b); E[a] = std::move(t); break; }
    case MUL_RL: { Expression t = std::move(E[b]) * E[c1]; E[b] = leafE(b); E[a] = t; break; }
    case MUL_LR: { Expression t = E[b1] * std::move(E[c]); E[c] = leafE(c); E[a] = t; break; }
    case MUL_RR: { Expression u = E[c]; Expression t = std::move(E[b]) * std::move(u); E[b] = leafE(b); E[a] = std::move(t); break; }
    case SUB_RL: { Expression t = std::move(E[b]) - E[c1]; E[b] = leafE(b); E[a] = t; break; }
    case SUB_LR: { Expression t = E[b1] - std::move(E[c]); E[c] = leafE(c); E[a] = t; break; }
    case SUB_RR: { Expression u = E[c]; Expression t = std::move(E[b]) - std::move(u); E[b] = leafE(b); E[a] = std::move(t); break; }
    case NEG_R: { Expression t = -std::move(E[b]); E[b] = leafE(b); E[a] = t; break; }
    case NEG: E[a] = -E[b]; break;
    case FN: E[a] = fn(d % NFN, E[b], E[c]); break;
    case COPY: E[a] = E[b]; break;
    case MOVE: { Expression t = std::move(E[b]); E[b] = leafE(b); E[a] = std::move(t); break; }
    case SUBST: E[a] = E[b].Substitute(cx.x[d % NV], E[c]); break;
    case SUBST_MAP: if (d & 1) { if (cx.subst.empty()) break; E[a] = E[b].Substitute(cx.subst[d % NV]); } else { dreal::ExpressionSubstitution s; s.emplace(cx.x[d % NV], E[c]); s.emplace(cx.x[(d + 2) % NV], E[(c + 1) % NE]); E[a] = E[b].Substitute(s); } break;
    case SUBST_B: { dreal::FormulaSubstitution s; s.emplace(cx.b[d % NB], F[fc]); E[a] = E[b].Substitute(s); break; }
    case ITE: E[a] = if_then_else(F[fb], E[b], E[c]); break;
    case INCDEC: { switch (d & 3) { case 0: ++E[a]; break; case 1: --E[a]; break; case 2: { Expression t = E[a]++; E[a] += t; break; } default: E[a]--; } break; }
    case DIV: E[a] = E[b] / (E[c] * E[c] + 1.0); break;
    case SELF: E[a] = E[b]; { Expression& r = E[a]; E[a] = r; } break;
    case POW: E[a] = pow(E[b], Expression(2.0 + (d & 1))); break;
    case POWN: E[a] = pow(E[b] * E[b] + 1.0, Expression((d & 1) ? -1.0 : 0.5)); break;
    case DIFF: E[a] = E[b].Differentiate(cx.x[d % NV]); break;
    case MIX_CONST: E[a] = (d & 1) ? 3.0 * E[b] + 2.0 : E[b] * -1.0 - 4.0; break;
    case PART_EVAL: { Environment en; en.insert(cx.x[d % NV], 0.5); if (d & 8) en.insert(cx.x[(d + 1) % NV], -1.25); E[a] = E[b].EvaluatePartial(en); break; }
    case EXPAND: E[a] = expandable(E[b]) ? E[b].Expand() : E[b]; break;
    case SUMV: E[a] = dreal::Sum({E[b], E[c], E[(b + 1) % NE], E[b]}); break;
    case PRODV: E[a] = dreal::Prod({E[b], E[c], Expression(cx.x[d % NV])}); break;
    case SWAP: { using std::swap; if (a != b) swap(E[a], E[b]); break; }
    case RCONST: E[a] = dreal::real_constant(kc(d), std::nextafter(kc(d), 1e300), d & 16); break;
    case UF: { Variables vs; for (int i = 0; i < NV; ++i) if (o.b >> i & 1) vs.insert(cx.x[i]); E[a] = dreal::uninterpreted_function((d & 1) ? "uf" : "vf", vs) + ((d & 2) ? E[c] : Expression(0.0)); break; }
    case CONST: E[a] = Expression(kc(d)); break;
    case RAW: E[a] = raw(d % NRAW, E[b], E[c]); break;
    case POWC: E[a] = pow(E[b], pc(d)); break;
    case VAROP: { const Variable& v = cx.x[d % NV]; const Variable& w = cx.x[o.b % NV]; switch (o.c % 10) { case 0: E[a] = -v; break; case 1: E[a] = +v; break; case 2: E[a] = v + w; break; case 3: E[a] = v - w; break; case 4: E[a] = v * w; break; case 5: E[a] += v; break; case 6: E[a] -= v; break; case 7: E[a] *= v; break; case 8: E[a] = +E[b]; break; default: E[a] = v / (Expression(w) * w + 1.0); } break; }
    case SUBST_2: { dreal::ExpressionSubstitution s; s.emplace(cx.x[d % NV], E[c]); dreal::FormulaSubstitution t; t.emplace(cx.b[d % NB], F[fc]); if (d & 8) t.emplace(cx.b[(d + 1) % NB], F[fb]); E[a] = E[b].Substitute(s, t); break; }
    case F_REL: F[fa] = rel(d, E[b], E[c]); break;
    case F_AND: F[fa] = F[fb] && F[fc]; break;
    case F_OR: F[fa] = F[fb] || F[fc]; break;
    case F_AND_RL: { Formula t = std::move(F[fb]) && F[fc1]; F[fb] = leafF(fb); F[fa] = t; break; }
    case F_OR_RL: { Formula t = std::move(F[fb]) || F[fc1]; F[fb] = leafF(fb); F[fa] = t; break; }
    case F_AND_LR: { Formula t = F[fb1] && std::move(F[fc]); F[fc] = leafF(fc); F[fa] = t; break; }
    case F_OR_LR: { Formula t = F[fb1] || std::move(F[fc]); F[fc] = leafF(fc); F[fa] = t; break; }
    case F_AND_RR: { Formula u = F[fc]; Formula t = std::move(F[fb]) && std::move(u); F[fb] = leafF(fb); F[fa] = t; break; }
    case F_OR_RR: { Formula u = F[fc]; Formula t = std::move(F[fb]) || std::move(u); F[fb] = leafF(fb); F[fa] = t; break; }
    case F_NOT: F[fa] = !F[fb]; break;
    case F_COPY: F[fa] = F[fb]; break;
    case F_MOVE: { Formula t = std::move(F[fb]); F[fb] = leafF(fb); F[fa] = std::move(t); break; }
    case F_SUBST: F[fa] = F[fb].Substitute(cx.x[d % NV], E[c]); break;
    case F_SUBST_MAP: { dreal::ExpressionSubstitution s; s.emplace(cx.x[d % NV], E[c]); s.emplace(cx.x[(d + 1) % NV], E[(c + 1) % NE]); F[fa] = F[fb].Substitute(s); break; }
    case F_SUBST_B: F[fa] = F[fb].Substitute(cx.b[d % NB], F[fc]); break;
    case F_IMPLY: F[fa] = (d & 4) ? (d & 1 ? dreal::imply(cx.b[d / 2 % NB], F[fc]) : dreal::imply(F[fb], cx.b[d / 2 % NB])) : dreal::imply(F[fb], F[fc]); break;
    case F_IFF: F[fa] = (d & 4) ? (d & 1 ? dreal::iff(cx.b[d / 2 % NB], F[fc]) : dreal::iff(F[fb], cx.b[d / 2 % NB])) : dreal::iff(F[fb], F[fc]); break;
    case F_EQ: F[fa] = (d & 1) ? F[fb] == F[fc] : F[fb] != F[fc]; break;
    case F_BVAR: { const Variable& v = cx.b[d / 2 % NB]; switch (d & 1 ? (d >> 3 & 1) : 2 + (d >> 3 & 1)) { case 0: F[fa] = v && F[fb]; break; case 1: F[fa] = F[fb] && v; break; case 2: F[fa] = v || F[fb]; break; default: F[fa] = F[fb] || v; } break; }
    case F_NARY: { std::set<Formula> s{F[fb], F[fc], F[(fb + 1) % NF]}; F[fa] = (d & 1) ? make_conjunction(s) : make_disjunction(s); break; }
    case F_NARYV: { std::vector<Formula> s{F[fb], F[fc], F[(fb + 1) % NF]}; F[fa] = (d & 1) ? dreal::make_conjunction(s) : dreal::make_disjunction(s); break; }
    case F_SELF: { Formula t = F[fb]; F[fa] = t; Formula& r = F[fa]; F[fa] = r; break; }
    case F_FORALL: F[fa] = forall(Variables{cx.x[d % NV], cx.x[(d + (d >> 3)) % NV]}, F[fb]); break;
    case F_VREL: F[fa] = (d & 1) ? cx.x[d % NV] == cx.x[(d / 2) % NV] : cx.b[0] == F[fb]; break;
    case F_CONST: F[fa] = (d & 1) ? Formula::True() : Formula::False(); break;
    case F_VOPS: { const Variable &v = cx.b[d & 1], &w = cx.b[d >> 1 & 1], &x = cx.x[o.b % NV], &y = cx.x[o.c % NV];
      switch (d % 20) { case 0: F[fa] = dreal::imply(v, w); break; case 1: F[fa] = dreal::iff(v, w); break; case 2: F[fa] = v && w; break; case 3: F[fa] = v || w; break; case 4: F[fa] = v == w; break; case 5: F[fa] = v != w; break; case 6: F[fa] = x != y; break; case 7: F[fa] = v == F[fb]; break; case 8: F[fa] = F[fb] == v; break; case 9: F[fa] = v != F[fb]; break; case 10: F[fa] = F[fb] != v; break;
        case 11: { Formula t = v && std::move(F[fb]); F[fb] = leafF(fb); F[fa] = t; break; } case 12: { Formula t = std::move(F[fb]) && v; F[fb] = leafF(fb); F[fa] = t; break; } case 13: { Formula t = v || std::move(F[fb]); F[fb] = leafF(fb); F[fa] = t; break; } case 14: { Formula t = std::move(F[fb]) || v; F[fb] = leafF(fb); F[fa] = t; break; }
        case 15: F[fa] = !v; break; case 16: F[fa] = x < y; break; case 17: F[fa] = x >= y; break; case 18: F[fa] = x <= E[c]; break; default: F[fa] = E[c] > x; } break; }
    case F_RELC: { const double k = kc(int(o.c)); switch (d / 6 % 3) { case 0: F[fa] = rel(d, E[b], Expression(k)); break; case 1: F[fa] = rel(d, E[b] + k, E[b]); break; default: F[fa] = rel(d, Expression(k), Expression(kc(int(o.b)))); } break; }
    case F_SUBST_2: { dreal::FormulaSubstitution t; t.emplace(cx.b[d % NB], F[fc]); if (d & 8) t.emplace(cx.b[(d + 1) % NB], F[fb]); if (d & 16) F[fa] = F[fb].Substitute(t); else { dreal::ExpressionSubstitution s; s.emplace(cx.x[d % NV], E[c]); F[fa] = F[fb].Substitute(s, t); } break; }
  }
}
// The same on the model.
inline void model(const Op& o, Pool& P) {
  auto& E = P.em; auto& F = P.fm;
  const int a = ei(o.a), b = ei(o.b), c = ei(o.c), d = int(o.d), fa = fi(o.a), fb = fi(o.b), fc = fi(o.c);
  const int c1 = c == b ? (b + 1) % NE : c, b1 = c == b ? (c + 1) % NE : b, fc1 = fc == fb ? (fb + 1) % NF : fc, fb1 = fc == fb ? (fc + 1) % NF : fb;
  auto L = [](int i) { return Pool::leaf(i); };
  auto LF = [](int i) { return Pool::fleaf(i); };
  auto sE = [&](NP n) { E[a] = em(n); };
  auto sF = [&](NP n) { F[fa] = fm(n); };
  NP one = m_const(1);
  switch (o.k) {
    case ADD: sE(m_add(E[b].n, E[c].n)); break;
    case SUB: sE(m_add(E[b].n, m_neg(E[c].n))); break;
    case MUL: sE(m_mul(E[b].n, E[c].n)); break;
    case ADDEQ: sE(m_add(E[a].n, E[b].n)); break;
    case SUBEQ: sE(m_add(E[a].n, m_neg(E[b].n))); break;
    case MULEQ: sE(m_mul(E[a].n, E[b].n)); break;
    case DIVEQ: sE(mk(M_DIVSQ, E[a].n, E[b].n)); break;
    case ADD_RL: { NP t = m_add(E[b].n, E[c1].n); E[b] = L(b); sE(t); break; }
    case ADD_LR: { NP t = m_add(E[b1].n, E[c].n); E[c] = L(c); sE(t); break; }
    case ADD_RR: { NP t = m_add(E[b].n, E[c].n); E[b] = L(b); sE(t); break; }
    case MUL_RL: { NP t = m_mul(E[b].n, E[c1].n); E[b] = L(b); sE(t); break; }
    case MUL_LR: { NP t = m_mul(E[b1].n, E[c].n); E[c] = L(c); sE(t); break; }
    case MUL_RR: { NP t = m_mul(E[b].n, E[c].n); E[b] = L(b); sE(t); break; }
    case SUB_RL: { NP t = m_add(E[b].n, m_neg(E[c1].n)); E[b] = L(b); sE(t); break; }
    case SUB_LR: { NP t = m_add(E[b1].n, m_neg(E[c].n)); E[c] = L(c); sE(t); break; }
    case SUB_RR: { NP t = m_add(E[b].n, m_neg(E[c].n)); E[b] = L(b); sE(t); break; }
    case NEG_R: { NP t = m_neg(E[b].n); E[b] = L(b); sE(t); break; }
    case NEG: sE(m_neg(E[b].n)); break;
    case FN: { int k = d % NFN; bool two = k == 6 || k == 7 || k == 16 || k == 17; sE(mk(M_FN, E[b].n, two ? E[c].n : nullptr, k)); break; }
    case COPY: E[a] = E[b]; break;
    case MOVE: { EM t = E[b]; E[b] = L(b); E[a] = t; break; }
    case SUBST: sE(m_sub(E[b].n, {{d % NV, E[c].n}})); break;
    case SUBST_MAP: if (d & 1) { if (P.cx.subst.empty()) break; int k = d % NV, k1 = (k + 1) % NV; sE(m_sub(E[b].n, {{k, m_var(k1)}, {k1, m_add(m_var(k), m_const(2))}})); } else sE(m_sub(E[b].n, {{d % NV, E[c].n}, {(d + 2) % NV, E[(c + 1) % NE].n}})); break;
    case SUBST_B: sE(m_sub(E[b].n, {}, {{d % NB, F[fc].n}})); break;
    case ITE: sE(m_ite(F[fb].n, E[b].n, E[c].n)); break;
    case INCDEC: { switch (d & 3) { case 0: sE(m_add(E[a].n, one)); break; case 1: case 3: sE(m_add(E[a].n, m_const(-1))); break; default: sE(m_add(m_add(E[a].n, one), E[a].n)); } break; }
    case DIV: sE(mk(M_DIVSQ, E[b].n, E[c].n)); break;
    case SELF: E[a] = E[b]; break;
    case POW: sE((d & 1) ? m_mul(E[b].n, m_mul(E[b].n, E[b].n)) : m_mul(E[b].n, E[b].n)); break;
    case POWN: sE((d & 1) ? mk(M_DIVSQ, one, E[b].n) : mk(M_FN, E[b].n, nullptr, 10)); break;
    case DIFF: sE(mk(M_DIFF, E[b].n, nullptr, d % NV)); break;
    case MIX_CONST: sE((d & 1) ? m_add(m_mul(E[b].n, m_const(3)), m_const(2)) : m_add(m_neg(E[b].n), m_const(-4))); break;
    case PART_EVAL: { std::vector<std::pair<int, NP>> s{{d % NV, m_const(0.5)}}; if (d & 8) s.push_back({(d + 1) % NV, m_const(-1.25)}); sE(m_sub(E[b].n, s)); break; }
    case EXPAND: E[a] = E[b]; break;
    case SUMV: sE(m_add(m_add(E[b].n, E[c].n), m_add(E[(b + 1) % NE].n, E[b].n))); break;
    case PRODV: sE(m_mul(m_mul(E[b].n, E[c].n), m_var(d % NV))); break;
    case SWAP: if (a != b) std::swap(E[a], E[b]); break;
    case RCONST: sE(mk(M_CONST, nullptr, nullptr, 1, kc(d))); break;
    case UF: { unsigned vs = unsigned(o.b) & ((1u << NV) - 1); if (d & 2) vs |= E[c].vars; sE(m_unk(vs)); break; }
    case CONST: sE(m_const(kc(d))); break;
    case RAW: { int k = d % NRAW; sE(mk(M_RAW, E[b].n, raw2(k) ? E[c].n : nullptr, k)); break; }
    case POWC: sE(mk(M_RAW, E[b].n, m_const(pc(d)), 3)); break;
    case VAROP: { NP v = m_var(d % NV), w = m_var(int(o.b % NV)); switch (o.c % 10) { case 0: sE(m_neg(v)); break; case 1: sE(v); break; case 2: sE(m_add(v, w)); break; case 3: sE(m_add(v, m_neg(w))); break; case 4: sE(m_mul(v, w)); break; case 5: sE(m_add(E[a].n, v)); break; case 6: sE(m_add(E[a].n, m_neg(v))); break; case 7: sE(m_mul(E[a].n, v)); break; case 8: E[a] = E[b]; break; default: sE(mk(M_DIVSQ, v, w)); } break; }
    case SUBST_2: { std::vector<std::pair<int, NP>> t{{d % NB, F[fc].n}}; if (d & 8) t.push_back({(d + 1) % NB, F[fb].n}); sE(m_sub(E[b].n, {{d % NV, E[c].n}}, t)); break; }
    case F_REL: sF(mk(M_REL, E[b].n, E[c].n, d % 6)); break;
    case F_AND: sF(m_and(F[fb].n, F[fc].n)); break;
    case F_OR: sF(m_or(F[fb].n, F[fc].n)); break;
    case F_AND_RL: { NP t = m_and(F[fb].n, F[fc1].n); F[fb] = LF(fb); sF(t); break; }
    case F_OR_RL: { NP t = m_or(F[fb].n, F[fc1].n); F[fb] = LF(fb); sF(t); break; }
    case F_AND_LR: { NP t = m_and(F[fb1].n, F[fc].n); F[fc] = LF(fc); sF(t); break; }
    case F_OR_LR: { NP t = m_or(F[fb1].n, F[fc].n); F[fc] = LF(fc); sF(t); break; }
    case F_AND_RR: { NP t = m_and(F[fb].n, F[fc].n); F[fb] = LF(fb); sF(t); break; }
    case F_OR_RR: { NP t = m_or(F[fb].n, F[fc].n); F[fb] = LF(fb); sF(t); break; }
    case F_NOT: sF(m_not(F[fb].n)); break;
    case F_COPY: case F_SELF: F[fa] = F[fb]; break;
    case F_MOVE: { FM t = F[fb]; F[fb] = LF(fb); F[fa] = t; break; }
    case F_SUBST: sF(m_sub(F[fb].n, {{d % NV, E[c].n}})); break;
    case F_SUBST_MAP: sF(m_sub(F[fb].n, {{d % NV, E[c].n}, {(d + 1) % NV, E[(c + 1) % NE].n}})); break;
    case F_SUBST_B: sF(m_sub(F[fb].n, {}, {{d % NB, F[fc].n}})); break;
    case F_IMPLY: case F_IFF: { NP x = F[fb].n, y = F[fc].n; if (d & 4) { if (d & 1) x = m_bvar(d / 2 % NB); else y = m_bvar(d / 2 % NB); } sF(o.k == F_IFF ? m_iff(x, y) : m_or(m_not(x), y)); break; }
    case F_EQ: sF((d & 1) ? m_iff(F[fb].n, F[fc].n) : m_not(m_iff(F[fb].n, F[fc].n))); break;
    case F_BVAR: { NP v = m_bvar(d / 2 % NB); sF((d & 1) ? m_and(v, F[fb].n) : m_or(F[fb].n, v)); break; }
    case F_NARY: case F_NARYV: { NP x = F[fb].n, y = F[fc].n, z = F[(fb + 1) % NF].n; sF((d & 1) ? m_and(m_and(x, y), z) : m_or(m_or(x, y), z)); break; }
    case F_FORALL: { unsigned q = (1u << (d % NV)) | (1u << ((d + (d >> 3)) % NV)); sF(m_forall(F[fb].n, q)); break; }
    case F_VREL: if (d & 1) { int i = d % NV, j = (d / 2) % NV; sF(i == j ? mk(M_TRUE) : mk(M_REL, m_var(i), m_var(j), 4)); } else sF(m_iff(m_bvar(0), F[fb].n)); break;
    case F_CONST: sF((d & 1) ? mk(M_TRUE) : m_not(mk(M_TRUE))); break;
    case F_VOPS: { NP v = m_bvar(d & 1), w = m_bvar(d >> 1 & 1), x = m_var(int(o.b % NV)), y = m_var(int(o.c % NV)), f = F[fb].n; const bool same = o.b % NV == o.c % NV; NP T = mk(M_TRUE);
      switch (d % 20) { case 0: sF(m_or(m_not(v), w)); break; case 1: case 4: sF(m_iff(v, w)); break; case 2: sF(m_and(v, w)); break; case 3: sF(m_or(v, w)); break; case 5: sF(m_not(m_iff(v, w))); break; case 6: sF(same ? m_not(T) : mk(M_REL, x, y, 5)); break; case 7: case 8: sF(m_iff(v, f)); break; case 9: case 10: sF(m_not(m_iff(v, f))); break;
        case 11: case 12: F[fb] = LF(fb); sF(m_and(v, f)); break; case 13: case 14: F[fb] = LF(fb); sF(m_or(v, f)); break; case 15: sF(m_not(v)); break; case 16: sF(same ? m_not(T) : mk(M_REL, x, y, 0)); break; case 17: sF(same ? T : mk(M_REL, x, y, 3)); break; case 18: sF(mk(M_REL, x, E[c].n, 1)); break; default: sF(mk(M_REL, E[c].n, x, 2)); } break; }
    case F_RELC: { const double k = kc(int(o.c)), k2 = kc(int(o.b)); const int r = d % 6; auto cmp = [&](double x, double y) { bool t = r == 0 ? x < y : r == 1 ? x <= y : r == 2 ? x > y : r == 3 ? x >= y : r == 4 ? x == y : x != y; return t ? mk(M_TRUE) : m_not(mk(M_TRUE)); };
      switch (d / 6 % 3) { case 0: sF(mk(M_REL, E[b].n, m_const(k), r)); break; case 1: { NP t = mk(M_REL, m_add(E[b].n, m_const(k)), E[b].n, r); sF(t); break; } default: sF(cmp(k, k2)); } break; }
    case F_SUBST_2: { std::vector<std::pair<int, NP>> t{{d % NB, F[fc].n}}; if (d & 8) t.push_back({(d + 1) % NB, F[fb].n}); sF(m_sub(F[fb].n, (d & 16) ? std::vector<std::pair<int, NP>>{} : std::vector<std::pair<int, NP>>{{d % NV, E[c].n}}, t)); break; }
  }
}
inline bool mag_ok(const EM& m) { if (m.n->size > 1500) return false; for (int p = 0; p < NPT; ++p) if (m.known[p] && !(m.m[p] < 1e6)) return false; return true; }
inline bool mag_ok(const FM& m) { return m.n->size <= 1500; }

inline int64_t opseed(const Op& o) { return ((o.a * 1009 + o.b) * 31 + o.c) * 41 + o.d; }
inline void gen_ops(Rng& g, Plan& p, int n, bool raw = false) {
  int w[NK]; int tot = 0;
  for (int i = 0; i < NK; ++i) { w[i] = int(g.below(10)); if (g.chance(1, 4)) w[i] *= 3; if (g.chance(1, 4)) w[i] = 0; if (i == COPY || i == F_COPY || i == ADDEQ || i == F_AND_RL || i == F_OR_RL || i == FN || i == F_REL) w[i] += 8; if (i == UF || i == F_CONST || i == CONST || i == RCONST) w[i] /= 2; if (i == RAW || i == POWC) w[i] = raw ? w[i] : 0; tot += w[i]; }
  for (int i = 0; i < n; ++i) {
    if (i && g.chance(1, 4)) { // a sibling of an earlier operation which differs in one place
      Op o = p.ops[size_t(g.below(i))]; o.a = g.below(30); switch (g.below(4)) { case 0: o.b = g.below(30); break; case 1: o.c = g.below(30); break; case 2: o.d = g.below(40); break; default: break; }
      p.ops.push_back(o); continue;
    }
    int x = int(g.below(tot)), k = 0; while (x >= w[k]) x -= w[k++]; p.ops.push_back(Op{k, g.below(30), g.below(30), g.below(30), g.below(40)});
  }
}
// Only differentiation may refuse its operand, and only if something without a derivative occurs in it.
inline bool may_refuse(const Op& o, const std::string& operand, const Pool& P) {
  auto er = [&](int i) { return P.em[size_t(i % NE)].n->raw; }; auto fr = [&](int i) { return P.fm[size_t(i % NF)].n->raw; };
  const int b = ei(o.b), c = ei(o.c), fb = fi(o.b), fc = fi(o.c);
  // constants outside of the domain of a function are refused
  if (o.k == RAW || o.k == POWC || er(ei(o.a)) || er(b) || er(c) || er(b + 1) || er(c + 1) || fr(fb) || fr(fc) || fr(fb + 1) || fr(fc + 1)) return true;
  if (o.k != DIFF) return false;
  for (const char* w : {"abs(", "min(", "max(", "(if ", "uf(", "vf("}) if (operand.find(w) != std::string::npos) return true;
  return false;
}
// ---- independent reader of the SMT-LIB prefix form
struct Prefix {
  const std::string& s; int p; size_t i{0}; bool bad{false}; double x0{PT[0][0]}, x1{PT[0][1]};
  Prefix(const std::string& text, int point) : s(text), p(point), x0(PT[point][0]), x1(PT[point][1]) {}
  std::string tok() { while (i < s.size() && s[i] == ' ') ++i; if (i >= s.size()) { bad = true; return ""; } if (s[i] == '(' || s[i] == ')') return std::string(1, s[i++]); size_t j = i; while (i < s.size() && s[i] != ' ' && s[i] != '(' && s[i] != ')') ++i; return s.substr(j, i - j); }
  double num() {
    std::string t = tok(); if (bad) return 0;
    if (t == "true") return 1; if (t == "false") return 0;
    if (t != "(") {
      if (t.size() == 2 && t[0] == 'x' && isdigit(t[1])) return t[1] == '0' ? x0 : t[1] == '1' ? x1 : PT[p][t[1] - '0'];
      if (t.size() == 2 && t[0] == 'b' && isdigit(t[1])) return PB[p][t[1] - '0'];
      char* e = nullptr; double v = strtod(t.c_str(), &e); if (*e) bad = true; return v;
    }
    std::string op = tok(); std::vector<double> a;
    while (!bad) { size_t k = i; std::string u = tok(); if (u == ")") break; i = k; a.push_back(num()); }
    auto need = [&](size_t n) { if (a.size() != n) bad = true; while (a.size() < 3) a.push_back(0); };
    auto all = [&](bool conj) { for (double v : a) if ((v != 0) != conj) return !conj; return conj; };
    if (op == "+") { double r = 0; for (double v : a) r += v; return r; }
    if (op == "*") { double r = 1; for (double v : a) r *= v; return r; }
    if (op == "and") return all(true); if (op == "or") return all(false);
    if (op == "ite") { need(3); return a[0] != 0 ? a[1] : a[2]; }
    static const std::map<std::string, double (*)(double)> un = {{"log", std::log}, {"abs", std::fabs}, {"exp", std::exp}, {"sqrt", std::sqrt}, {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"sinh", std::sinh}, {"cosh", std::cosh}, {"tanh", std::tanh}, {"-", [](double v) { return -v; }}, {"not", [](double v) { return double(v == 0); }}};
    auto it = un.find(op); if (it != un.end()) { need(1); return it->second(a[0]); }
    need(2); const double x = a[0], y = a[1];
    if (op == "/") return x / y; if (op == "^") return std::pow(x, y); if (op == "atan2") return std::atan2(x, y); if (op == "min") return std::min(x, y); if (op == "max") return std::max(x, y);
    if (op == "<") return x < y; if (op == "<=") return x <= y; if (op == ">") return x > y; if (op == ">=") return x >= y; if (op == "=") return x == y;
    bad = true; return 0;
  }
};
// ---- independent reader of the printed (infix) form. Booleans are 0 and 1; unk: something without a known value occurs.
struct Infix {
  const std::string& s; int p; size_t i{0}; bool bad{false}, unk{false}, exact{false}; double x0{PT[0][0]}, x1{PT[0][1]};
  Infix(const std::string& text, int point) : s(text), p(point), x0(PT[point][0]), x1(PT[point][1]) {}
  double read() { double v = any(); sp(); if (i != s.size()) bad = true; if (std::isnan(v)) unk = true; return v; }
  void sp() { while (i < s.size() && s[i] == ' ') ++i; }
  bool eat(const char* t) { sp(); size_t n = strlen(t); if (s.compare(i, n, t)) return false; if (isalpha((unsigned char)t[0]) && i + n < s.size() && (isalnum((unsigned char)s[i + n]) || s[i + n] == '_')) return false; i += n; return true; }
  void need(const char* t) { if (!eat(t)) bad = true; }
  double any() {
    double a = sum();
    for (const char* r : {"==", "!=", ">=", "<=", ">", "<"}) if (eat(r)) {
      double b = sum(); if (!exact && !(std::fabs(a - b) > 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) unk = true;
      switch (r[0]) { case '=': return a == b; case '!': return a != b; case '>': return r[1] ? a >= b : a > b; default: return r[1] ? a <= b : a < b; }
    }
    sp();
    if (!bad && eat("and")) { bool r = a != 0; do { double b = sum(); r = r && b != 0; } while (!bad && eat("and")); return r; }
    if (!bad && eat("or")) { bool r = a != 0; do { double b = sum(); r = r || b != 0; } while (!bad && eat("or")); return r; }
    return a;
  }
  double sum() {
    double a = (eat("- ")) ? -product() : product();
    while (!bad) { if (eat("+ ")) a += product(); else if (eat("- ")) a -= product(); else break; }
    return a;
  }
  double product() { double a = prim(); while (!bad) { if (eat("* ")) a *= prim(); else if (eat("/ ")) a /= prim(); else break; } return a; }
  void skip() { int d = 1; while (i < s.size() && d) { if (s[i] == '(') ++d; if (s[i] == ')') --d; ++i; } if (d) bad = true; unk = true; }
  double prim() {
    sp(); if (bad || i >= s.size()) { bad = true; return 0; }
    if (eat("!(")) { double a = any(); need(")"); return a == 0; }
    if (eat("(if ")) { double c = any(); need("then"); double a = any(); need("else"); double b = any(); need(")"); return c != 0 ? a : b; }
    if (eat("(")) { double a = any(); need(")"); return a; }
    if (eat("[")) { double a = any(); need(","); (void)any(); need("]"); return a; }
    if (isdigit((unsigned char)s[i]) || s[i] == '-' || s[i] == '.') { char* e = nullptr; double v = strtod(s.c_str() + i, &e); if (e == s.c_str() + i) bad = true; i = size_t(e - s.c_str()); return v; }
    size_t j = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i; const std::string w = s.substr(j, i - j);
    if (w == "True") return 1; if (w == "False") return 0; if (w == "NaN") { unk = true; return 0; }
    if (w.size() == 2 && isdigit((unsigned char)w[1]) && (w[0] == 'x' || w[0] == 'b')) { const int k = w[1] - '0'; if (k >= (w[0] == 'x' ? NV : NB)) { bad = true; return 0; } return w[0] == 'b' ? PB[p][k] : k == 0 ? x0 : k == 1 ? x1 : PT[p][k]; }
    if (w.empty() || !eat("(")) { bad = true; return 0; }
    if (w == "uf" || w == "vf" || w == "forall") { skip(); return 0; }
    double a = any();
    static const std::map<std::string, double (*)(double)> un = {{"log", std::log}, {"abs", std::fabs}, {"exp", std::exp}, {"sqrt", std::sqrt}, {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"sinh", std::sinh}, {"cosh", std::cosh}, {"tanh", std::tanh}};
    auto it = un.find(w); if (it != un.end()) { need(")"); return it->second(a); }
    need(","); double b = any(); need(")");
    if (w == "pow") return std::pow(a, b); if (w == "atan2") return std::atan2(a, b); if (w == "min") return std::min(a, b); if (w == "max") return std::max(a, b);
    bad = true; return 0;
  }
};
// ---- relations exactly at their border, over numbers that are represented exactly
struct TieAtom { int a0, a1, rel, side; bool neg; double c; };  // a0*x0 + a1*x1 rel c, or with x1 on the other side
struct Tie {
  std::vector<TieAtom> at; bool conj; Formula f;
  Tie(const Ctx& cx, int64_t seed) {
    Rng g(uint64_t(seed) * 0x9E3779B97F4A7C15u + 77); conj = g.chance(1, 2); const int n = g.chance(1, 3) ? 2 : 1;
    for (int i = 0; i < n; ++i) {
      TieAtom t; static const int A[] = {1, 1, 1, -1, 2, -2}; t.a0 = A[g.below(6)]; t.a1 = int(g.range(-1, 1)); t.rel = int(g.below(6)); t.side = int(g.below(4)); t.neg = t.rel >= 2 && g.chance(1, 3); t.c = double(g.range(-12, 12)) / 8; at.push_back(t);
      Expression l = double(t.a0) * cx.x[0], r = t.c;
      if (t.a1 && t.side < 2) l += double(t.a1) * cx.x[1]; else if (t.a1) r -= double(t.a1) * cx.x[1];
      if (t.side & 1) std::swap(l, r);
      Formula h; switch (t.rel) { case 0: h = l == r; break; case 1: h = l != r; break; default: { const bool less = (t.rel < 4) != bool(t.side & 1), strict = t.rel % 2 == 0; h = less ? (strict ? l < r : l <= r) : (strict ? l > r : l >= r); } }
      if (t.neg) h = !h; f = i == 0 ? h : conj ? f && h : f || h;
    }
  }
  // moved by d: positive strengthens
  bool want(double x0, double x1, double d) const {
    bool r = conj;
    for (size_t i = 0; i < at.size(); ++i) {
      const TieAtom& t = at[i]; const double v = t.a0 * x0 + t.a1 * x1 - t.c, e = t.neg ? -d : d; bool b;
      switch (t.rel) { case 0: b = e < 0 ? std::fabs(v) <= -e : v == 0; break; case 1: b = e < 0 ? true : e > 0 ? std::fabs(v) > e : v != 0; break; case 2: b = v < -e; break; case 3: b = v <= -e; break; case 4: b = v > e; break; default: b = v >= e; }
      if (t.neg) b = !b; if (at.size() == 1) return b; if (b != conj) r = !conj;
    }
    return r;
  }
  template <class F> void points(int64_t seed, double d, F fn) const {  // around the borders, moved by d either way
    Rng g(uint64_t(seed) * 31 + 5);
    for (auto& t : at) for (int k = -1; k <= 1; ++k) for (int j = -1; j <= 1; ++j) { const double x1 = double(g.range(-8, 8)) / 8, v = k * d + j * 0.125; fn((v + t.c - t.a1 * x1) / t.a0, x1); }
  }
  std::string say(double x0, double x1) const { char b[80]; snprintf(b, sizeof b, "x0=%g x1=%g", x0, x1); return b; }
};
// what: 1 evaluation, 2 printing, 4 perturbation
inline void ties(const Ctx& cx, int64_t seed, int what, const char* cls, const std::function<Formula(const Formula&)>& trans = nullptr) {
  Tie t(cx, seed); static const double D[] = {0.125, 0.5, 1, 0.25}; const double d = D[uint64_t(seed) / 7 % 4]; const std::string txt = t.f.to_string();
  Formula g = t.f; double e = 0; if (what & 4) { e = seed & 1 ? -d : d; g = e < 0 ? dreal::DeltaWeaken(t.f, d) : dreal::DeltaStrengthen(t.f, d); }
  if (trans) g = trans(g);
  const std::string in = what & 2 ? g.to_string() : "", pre = what & 2 ? dreal::ToPrefix(g) : "";
  sim::probe("ties");
  t.points(seed, d, [&](double x0, double x1) {
    const bool want = t.want(x0, x1, e); Environment env; env.insert(cx.x[0], x0); env.insert(cx.x[1], x1);
    auto chk = [&](bool got, const std::string& how) { SIM_CHECK(got == want, cls, "%s%s: %s is %d at %s, should be %d", txt.c_str(), e ? e < 0 ? " weakened" : " strengthened" : "", how.c_str(), got, t.say(x0, x1).c_str(), want); };
    chk(g.Evaluate(env), g.to_string());
    if (what & 1) {
      chk(!(!g).Evaluate(env), "its negation"); const Formula h = g.Substitute(cx.x[0], x0); chk(h.Evaluate(env), "with x0 substituted, " + h.to_string()); const Formula k = h.Substitute(cx.x[1], x1); chk(k.Evaluate(Environment{}), "with both substituted, " + k.to_string());
      const Expression i = if_then_else(g, Expression(3.0), Expression(cx.x[1]) * 0 + 5.0); chk(i.Evaluate(env) == 3.0, "the choice " + i.to_string());
    }
    if (what & 2) {
      Infix a(in, 0); a.exact = true; a.x0 = x0; a.x1 = x1; const double v = a.read(); SIM_CHECK(!a.bad, cls, "the text %s is not well formed", in.c_str()); chk(v != 0, "the text " + in);
      Prefix b(pre, 0); b.x0 = x0; b.x1 = x1; const double w = b.num(); SIM_CHECK(!b.bad, cls, "the text %s is not well formed", pre.c_str()); chk(w != 0, "the text " + pre);
    }
  });
}
// ---- polynomials with small whole coefficients, and what they are
using Mono = std::array<int, 3>;
struct PolyModel {
  std::map<Mono, double> c;
  static PolyModel num(double d) { PolyModel r; if (d != 0) r.c[Mono{{0, 0, 0}}] = d; return r; }
  static PolyModel var(int i) { PolyModel r; Mono m{{0, 0, 0}}; m[size_t(i)] = 1; r.c[m] = 1; return r; }
  void add(const Mono& m, double d) { double& x = c[m]; x += d; if (x == 0) c.erase(m); }
  PolyModel plus(const PolyModel& o, double f) const { PolyModel r = *this; for (auto& p : o.c) r.add(p.first, f * p.second); return r; }
  PolyModel times(const PolyModel& o) const { PolyModel r; for (auto& p : c) for (auto& q : o.c) { Mono m; for (size_t i = 0; i < 3; ++i) m[i] = p.first[i] + q.first[i]; r.add(m, p.second * q.second); } return r; }
  PolyModel pw(int n) const { PolyModel r = num(1); while (n-- > 0) r = r.times(*this); return r; }
  PolyModel d(int v) const { PolyModel r; for (auto& p : c) if (p.first[size_t(v)]) { Mono m = p.first; --m[size_t(v)]; r.add(m, p.second * p.first[size_t(v)]); } return r; }
  int degree() const { int d = 0; for (auto& p : c) d = std::max(d, p.first[0] + p.first[1] + p.first[2]); return d; }
  Expression expr(const Ctx& cx) const { Expression r = 0.0; for (auto& p : c) { Expression t = 1.0; for (size_t i = 0; i < 3; ++i) if (p.first[i]) t = t * pow(Expression(cx.x[i]), double(p.first[i])); r = r + p.second * t; } return r; }
};
inline std::pair<Expression, PolyModel> poly(const Ctx& cx, Rng& g, int depth) {
  if (depth == 0 || g.chance(1, 6)) { if (g.chance(1, 4)) { const double d = double(g.range(-3, 3)); return {Expression(d), PolyModel::num(d)}; } const int i = int(g.below(3)); return {Expression(cx.x[size_t(i)]), PolyModel::var(i)}; }
  auto a = poly(cx, g, depth - 1);
  switch (g.below(7)) {
    case 0: { const int n = int(g.range(0, 3)); if (a.second.degree() * n > 7) return a; return {pow(a.first, double(n)), a.second.pw(n)}; }
    case 1: return {-a.first, PolyModel().plus(a.second, -1)};
    case 2: case 3: { auto b = poly(cx, g, depth - 1); if (a.second.degree() + b.second.degree() > 7 || a.second.c.size() * b.second.c.size() > 120) return b; return {a.first * b.first, a.second.times(b.second)}; }
    case 4: { auto b = poly(cx, g, depth - 1); return {a.first - b.first, a.second.plus(b.second, -1)}; }
    default: { auto b = poly(cx, g, depth - 1); return {a.first + b.first, a.second.plus(b.second, 1)}; }
  }
}
// reads an expanded polynomial: a sum of monomials, in which no sum occurs
inline PolyModel read_poly(const Ctx& cx, const Expression& e, bool inner = false) {
  using namespace dreal::drake::symbolic; using dreal::is_constant; using dreal::is_variable;
  if (is_constant(e)) return PolyModel::num(get_constant_value(e));
  if (is_variable(e)) { for (int i = 0; i < 3; ++i) if (cx.x[size_t(i)].equal_to(get_variable(e))) return PolyModel::var(i); throw std::runtime_error("a foreign variable"); }
  if (is_addition(e)) { if (inner) throw std::runtime_error("a sum within a monomial"); PolyModel r = PolyModel::num(get_constant_in_addition(e)); for (auto& p : get_expr_to_coeff_map_in_addition(e)) r = r.plus(read_poly(cx, p.first, true), p.second); return r; }
  auto po = [&](const Expression& b, const Expression& n) { if (!is_constant(n)) throw std::runtime_error("an exponent"); const double d = get_constant_value(n); if (!(d >= 0 && d <= 12 && d == std::floor(d))) throw std::runtime_error("an exponent"); return read_poly(cx, b, true).pw(int(d)); };
  if (is_multiplication(e)) { PolyModel r = PolyModel::num(get_constant_in_multiplication(e)); for (auto& p : get_base_to_exponent_map_in_multiplication(e)) r = r.times(po(p.first, p.second)); return r; }
  if (is_pow(e)) return po(get_first_argument(e), get_second_argument(e));
  throw std::runtime_error("something else");
}
inline void polys(const Ctx& cx, int64_t seed, const char* cls) {
  Rng g(uint64_t(seed) * 0x9E3779B97F4A7C15u + 3); auto p = poly(cx, g, int(g.range(1, 4)));
  auto same = [&](const Expression& got, const PolyModel& want, const char* how) {
    std::string bad; try { if (read_poly(cx, got).c != want.c) bad = "another polynomial"; } catch (const std::bad_alloc&) { throw; } catch (const std::exception& x) { bad = x.what(); }
    SIM_CHECK(bad.empty(), cls, "%s %s gives %s, should be %s (%s)", p.first.to_string().c_str(), how, got.to_string().c_str(), want.expr(cx).to_string().c_str(), bad.c_str()); };
  sim::probe("polynomials");
  const Expression e = p.first.Expand(); same(e, p.second, "expanded"); same(e.Expand(), p.second, "expanded twice");
  SIM_CHECK(p.first.is_polynomial(), cls, "%s is not reported to be a polynomial", p.first.to_string().c_str());
  if (p.second.c.size() < 40) { const int v = int(g.below(3)); same(p.first.Differentiate(cx.x[size_t(v)]).Expand(), p.second.d(v), "differentiated and expanded"); }
  if (p.second.degree() <= 4 && p.second.c.size() < 12) {  // a polynomial for a variable
    const int v = int(g.below(3)); auto q = poly(cx, g, 1); PolyModel r; for (auto& m : p.second.c) { Mono rest = m.first; rest[size_t(v)] = 0; PolyModel t; t.c[rest] = m.second; r = r.plus(t.times(q.second.pw(m.first[size_t(v)])), 1); }
    same(p.first.Substitute(cx.x[size_t(v)], q.first).Expand(), r, ("with " + q.first.to_string() + " for " + cx.x[size_t(v)].get_name() + ", expanded,").c_str()); }
  auto in = [&](const Expression& got, dreal::drake::symbolic::ExpressionKind k, int arg) { const std::string how = "inside of " + got.to_string() + ", the argument"; SIM_CHECK(got.get_kind() == k || dreal::is_constant(got), cls, "%s is expanded to %s", p.first.to_string().c_str(), got.to_string().c_str()); if (!dreal::is_constant(got)) same(arg == 0 ? get_argument(got) : arg == 1 ? get_first_argument(got) : get_second_argument(got), p.second, how.c_str()); };
  const Expression& x = p.first; const Expression y(cx.x[3]); using K = dreal::drake::symbolic::ExpressionKind;
  switch (g.below(12)) {
    case 0: in(sin(x).Expand(), K::Sin, 0); break; case 1: in(exp(x).Expand(), K::Exp, 0); break; case 2: in(abs(x).Expand(), K::Abs, 0); break; case 3: in(cos(x).Expand(), K::Cos, 0); break;
    case 4: in(min(x, y).Expand(), K::Min, 1); break; case 5: in(max(y, x).Expand(), K::Max, 2); break; case 6: in(atan2(x, y).Expand(), K::Atan2, 1); break; case 7: in(atan2(y, x).Expand(), K::Atan2, 2); break;
    case 8: in(tanh(x).Expand(), K::Tanh, 0); break; case 9: in(atan(x).Expand(), K::Atan, 0); break; case 10: in(sinh(x).Expand(), K::Sinh, 0); break; default: in(tan(x).Expand(), K::Tan, 0); break;
  }
}
// ---- expressions and formulas with many parts, each about a variable of its own
// what: 1 expressions and formulas as values, 2 printing, 4 perturbation, 0 only a transformation of formulas that keeps the meaning
inline void wides(int64_t seed, int what, const char* cls, const std::function<Formula(const Formula&)>& trans = nullptr) {
  Rng g(uint64_t(seed) * 0x9E3779B97F4A7C15u + 9); const int n = int(log_uniform(g, 6, 70)); std::vector<Variable> x; std::vector<double> v, c, k; std::vector<int> e; Environment env; sim::probe("wide");
  for (int i = 0; i < n; ++i) { x.emplace_back("w" + std::to_string(i) + "_"); v.push_back(g.chance(1, 2) ? 0.5 : g.chance(1, 2) ? 2 : -1); int q = int(g.range(-6, 6)); c.push_back((q ? q : 7) * 0.25); e.push_back(int(g.range(1, 3))); k.push_back(double(g.range(0, 4)) / 4); env.insert(x.back(), v.back()); }
  std::vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(ord[size_t(i)], ord[size_t(g.below(i + 1))]);
  auto at = [](const std::vector<int>& o, size_t i) { return size_t(o[i]); };
  auto names = [&](const std::string& txt, const char* how) { for (int i = 0; i < n; ++i) { const std::string nm = x[size_t(i)].get_name(); size_t cnt = 0; for (size_t p = txt.find(nm); p != std::string::npos; p = txt.find(nm, p + 1)) ++cnt; SIM_CHECK(cnt == 1, cls, "%s of something with %d parts mentions %s %zu times: %s", how, n, nm.c_str(), cnt, txt.c_str()); } };
  const size_t one = size_t(g.below(n)), two = (one + 1 + size_t(g.below(n - 1))) % size_t(n);
  if (what & 3) for (int prod = 0; prod < 2; ++prod) {
    auto part = [&](size_t i) { return prod ? pow(Expression(x[i]), double(e[i])) : c[i] * Expression(x[i]); }; auto val = [&](size_t i, double y) { return prod ? std::pow(y, e[i]) : c[i] * y; };
    const double c0 = prod ? 3 : 2.5; Expression a = c0, b; double want = c0; auto op = [&](const Expression& l, const Expression& r) { return prod ? l * r : l + r; };
    for (size_t i = 0; i < size_t(n); ++i) { a = op(a, part(i)); want = prod ? want * val(i, v[i]) : want + val(i, v[i]); }
    std::vector<Expression> t; for (size_t i = 0; i < size_t(n); ++i) t.push_back(part(at(ord, i))); t.insert(t.begin() + long(one), Expression(c0));
    while (t.size() > 1) { std::vector<Expression> u; for (size_t i = 0; i + 1 < t.size(); i += 2) u.push_back(op(t[i], t[i + 1])); if (t.size() & 1) u.push_back(t.back()); t.swap(u); } b = t[0];
    const char* nm = prod ? "product" : "sum"; const std::string txt = a.to_string();
    if (what & 1) {
      SIM_CHECK(a.EqualTo(b) && a.get_hash() == b.get_hash() && !a.Less(b) && !b.Less(a), cls, "a %s of %d parts depends on the order: %s and %s", nm, n, txt.c_str(), b.to_string().c_str());
      SIM_CHECK(a.Evaluate(env) == want && b.Evaluate(env) == want, cls, "a %s of %d parts is %.17g, should be %.17g: %s", nm, n, a.Evaluate(env), want, txt.c_str());
      const Variables fv = a.GetVariables(); SIM_CHECK(fv.size() == size_t(n), cls, "a %s of %d variables has %zu", nm, n, fv.size()); for (auto& y : x) SIM_CHECK(fv.include(y), cls, "a %s of %d variables lacks %s", nm, n, y.get_name().c_str());
      auto without = [&](size_t i) { double r = c0; for (size_t j = 0; j < size_t(n); ++j) if (j != i) r = prod ? r * val(j, v[j]) : r + val(j, v[j]); return r; };
      { const Expression d = a.Differentiate(x[one]); const double dw = prod ? without(one) * e[one] * std::pow(v[one], e[one] - 1) : c[one]; SIM_CHECK(d.Evaluate(env) == dw, cls, "the derivative of %s by %s is %s, which is %.17g instead of %.17g", txt.c_str(), x[one].get_name().c_str(), d.to_string().c_str(), d.Evaluate(env), dw); }
      { const Expression d = a.Substitute(x[one], Expression(x[two]) * 2.0); const double rest = without(one), dw = prod ? rest * val(one, 2 * v[two]) : rest + val(one, 2 * v[two]); SIM_CHECK(d.Evaluate(env) == dw, cls, "%s with twice %s for %s is %s, which is %.17g instead of %.17g", txt.c_str(), x[two].get_name().c_str(), x[one].get_name().c_str(), d.to_string().c_str(), d.Evaluate(env), dw); }
      { Expression d = a; if (prod) d *= x[two]; else d += x[two]; d = prod ? d / part(one) : d - part(one); const double dw = prod ? without(one) * v[two] : without(one) + v[two]; SIM_CHECK(d.Evaluate(env) == dw, cls, "%s changed in two parts is %s, which is %.17g instead of %.17g", txt.c_str(), d.to_string().c_str(), d.Evaluate(env), dw);
        SIM_CHECK(a.Evaluate(env) == want && a.to_string() == txt && !d.EqualTo(a), cls, "changing a copy changes a %s of %d parts", nm, n); }
    }
    if (what & 2) { names(txt, "the text"); names(dreal::ToPrefix(a), "the prefix text"); }
  }
  // every part holds with a margin of at least a quarter on its side
  for (int conj = 0; conj < 2; ++conj) {
    std::vector<Formula> t; std::vector<int> r; for (size_t i = 0; i < size_t(n); ++i) { r.push_back(int(g.below(4))); const double m = conj ? 0.25 + k[i] : -0.25 - k[i]; Formula h; switch (r[i]) { case 0: h = x[i] <= v[i] + m; break; case 1: h = x[i] >= v[i] - m; break; case 2: h = x[i] < v[i] + m; break; default: h = x[i] > v[i] - m; } t.push_back(h); }
    Formula f = t[at(ord, 0)], f2 = t[0]; for (size_t i = 1; i < size_t(n); ++i) { f = conj ? f && t[at(ord, i)] : f || t[at(ord, i)]; f2 = conj ? t[i] && f2 : t[i] || f2; }
    const std::string txt = f.to_string(); Formula h = f; double d = 0; if (what & 4) { d = g.chance(1, 2) ? 0.125 : -0.125; h = d < 0 ? dreal::DeltaWeaken(f, -d) : dreal::DeltaStrengthen(f, d); }
    if (what & 1) {
      SIM_CHECK(f.EqualTo(f2) && f.get_hash() == f2.get_hash() && !f.Less(f2) && !f2.Less(f), cls, "a formula of %d parts depends on the order: %s and %s", n, txt.c_str(), f2.to_string().c_str());
      SIM_CHECK((conj ? dreal::is_conjunction(f) : dreal::is_disjunction(f)) && dreal::drake::symbolic::get_operands(f).size() == size_t(n) && f.GetFreeVariables().size() == size_t(n), cls, "a formula of %d parts has %zu operands and %zu variables: %s", n, dreal::drake::symbolic::get_operands(f).size(), f.GetFreeVariables().size(), txt.c_str());
    }
    if (what & 2) { names(txt, "the text"); names(dreal::ToPrefix(f), "the prefix text"); }
    if (trans) h = trans(h);
    auto holds = [&](const Formula& q, const Environment& en, bool w, const char* how) { const bool got = q.Evaluate(en); SIM_CHECK(got == w, cls, "%s of %s is %d, should be %d: %s", how, txt.c_str(), got, w, q.to_string().c_str()); };
    holds(h, env, conj, "the value");
    for (int z = 0; z < 4; ++z) {  // one part the other way, by how far it is from its border and 0.0625 more or less
      const size_t i = z ? size_t(g.below(n)) : one; const double over = g.chance(1, 2) ? 0.0625 : -0.0625, m = 0.25 + k[i], up = (r[i] == 0 || r[i] == 2) == bool(conj) ? 1 : -1;
      // moving by more than m - d (which strengthening takes away) turns the part
      const double by = conj ? m - d + over : m + d + over; Environment en = env; en[x[i]] = v[i] + up * by; const bool turned = over > 0;
      holds(h, en, turned ? !conj : conj, "the value with one part changed"); if (what & 1) holds(!h, en, turned ? conj : !conj, "the negation with one part changed");
      if (what & 1) { const Formula s = f.Substitute(x[i], v[i] + up * by); holds(s, env, turned ? !conj : conj, "the value with one variable replaced"); }
    }
  }
}
}  // namespace symops
