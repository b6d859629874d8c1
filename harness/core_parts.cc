// A value's kind, parts and attributes describe it completely: every expression and formula is taken apart through the
// public accessors and the visitors, put together again, and compared; attributes are recomputed from the parts.
#include <unordered_map>
#include <unordered_set>
#include "symops.h"
using namespace symops;
namespace {
using namespace dreal::drake::symbolic; using dreal::is_atomic; using dreal::is_clause; using dreal::is_cnf; using dreal::get_clauses;
#define CLS "parts"
constexpr ExpressionKind EK[] = {ExpressionKind::Constant, ExpressionKind::RealConstant, ExpressionKind::Var, ExpressionKind::Add, ExpressionKind::Mul, ExpressionKind::Div, ExpressionKind::Log, ExpressionKind::Abs, ExpressionKind::Exp, ExpressionKind::Sqrt, ExpressionKind::Pow, ExpressionKind::Sin, ExpressionKind::Cos, ExpressionKind::Tan, ExpressionKind::Asin, ExpressionKind::Acos, ExpressionKind::Atan, ExpressionKind::Atan2, ExpressionKind::Sinh, ExpressionKind::Cosh, ExpressionKind::Tanh, ExpressionKind::Min, ExpressionKind::Max, ExpressionKind::IfThenElse, ExpressionKind::NaN, ExpressionKind::UninterpretedFunction};
const std::vector<std::pair<ExpressionKind, bool (*)(const Expression&)>>& epreds() {
#define P1(k, f) {ExpressionKind::k, [](const Expression& e) { return f(e); }}
  static const std::vector<std::pair<ExpressionKind, bool (*)(const Expression&)>> v = {P1(Constant, is_constant), P1(RealConstant, is_real_constant), P1(Var, is_variable), P1(Add, is_addition), P1(Mul, is_multiplication), P1(Div, is_division), P1(Log, is_log), P1(Abs, is_abs), P1(Exp, is_exp), P1(Sqrt, is_sqrt), P1(Pow, is_pow), P1(Sin, is_sin), P1(Cos, is_cos), P1(Tan, is_tan), P1(Asin, is_asin), P1(Acos, is_acos), P1(Atan, is_atan), P1(Atan2, is_atan2), P1(Sinh, is_sinh), P1(Cosh, is_cosh), P1(Tanh, is_tanh), P1(Min, is_min), P1(Max, is_max), P1(IfThenElse, is_if_then_else), P1(NaN, is_nan), P1(UninterpretedFunction, is_uninterpreted_function)};
#undef P1
  return v;
}
const std::vector<std::pair<FormulaKind, bool (*)(const Formula&)>>& fpreds() {
#define P1(k, f) {FormulaKind::k, [](const Formula& e) { return f(e); }}
  static const std::vector<std::pair<FormulaKind, bool (*)(const Formula&)>> v = {P1(False, is_false), P1(True, is_true), P1(Var, is_variable), P1(Eq, is_equal_to), P1(Neq, is_not_equal_to), P1(Gt, is_greater_than), P1(Geq, is_greater_than_or_equal_to), P1(Lt, is_less_than), P1(Leq, is_less_than_or_equal_to), P1(And, is_conjunction), P1(Or, is_disjunction), P1(Not, is_negation), P1(Forall, is_forall)};
#undef P1
  return v;
}
bool uni(ExpressionKind k) { switch (k) { case ExpressionKind::Log: case ExpressionKind::Abs: case ExpressionKind::Exp: case ExpressionKind::Sqrt: case ExpressionKind::Sin: case ExpressionKind::Cos: case ExpressionKind::Tan: case ExpressionKind::Asin: case ExpressionKind::Acos: case ExpressionKind::Atan: case ExpressionKind::Sinh: case ExpressionKind::Cosh: case ExpressionKind::Tanh: return true; default: return false; } }
bool bin(ExpressionKind k) { switch (k) { case ExpressionKind::Div: case ExpressionKind::Pow: case ExpressionKind::Atan2: case ExpressionKind::Min: case ExpressionKind::Max: return true; default: return false; } }
// constant exponents for which the expression is a polynomial
bool natural(const Expression& e) { if (!is_constant(e)) return false; const double d = get_constant_value(e); return d >= 0 && d == std::floor(d) && d < 2147483648.0; }

// Rebuilds through a visitor, which must call the method of the value's kind.
struct Rebuild {
  ExpressionKind k{}; 
  Expression chk(const Expression& e, ExpressionKind want) { SIM_CHECK(e.get_kind() == want, CLS, "the visitor method for kind %d is called with %s", int(want), e.to_string().c_str()); return e; }
  Expression E(const Expression& e) { return dreal::VisitExpression<Expression>(this, e); }
  Expression VisitConstant(const Expression& e) { chk(e, ExpressionKind::Constant); return Expression(get_constant_value(e)); }
  Expression VisitRealConstant(const Expression& e) { chk(e, ExpressionKind::RealConstant); const double lb = get_lb_of_real_constant(e), ub = get_ub_of_real_constant(e); SIM_CHECK(lb < ub && std::nextafter(lb, INFINITY) == ub && (get_constant_value(e) == lb || get_constant_value(e) == ub), CLS, "%s has the bounds %.17g, %.17g and the value %.17g", e.to_string().c_str(), lb, ub, get_constant_value(e)); return real_constant(lb, ub, get_constant_value(e) == lb); }
  Expression VisitVariable(const Expression& e) { chk(e, ExpressionKind::Var); return Expression(get_variable(e)); }
  Expression VisitAddition(const Expression& e) { chk(e, ExpressionKind::Add); Expression r(get_constant_in_addition(e)); for (auto& p : get_expr_to_coeff_map_in_addition(e)) { SIM_CHECK(p.second != 0, CLS, "%s has a term with coefficient 0", e.to_string().c_str()); r += p.second * p.first; } return r; }
  Expression VisitMultiplication(const Expression& e) { chk(e, ExpressionKind::Mul); Expression r(1.0); for (auto& p : get_base_to_exponent_map_in_multiplication(e)) r *= pow(p.first, p.second); return get_constant_in_multiplication(e) * r; }
  Expression VisitDivision(const Expression& e) { chk(e, ExpressionKind::Div); return get_first_argument(e) / get_second_argument(e); }
#define U1(M, K, f) Expression M(const Expression& e) { chk(e, ExpressionKind::K); return f(get_argument(e)); }
#define B1(M, K, f) Expression M(const Expression& e) { chk(e, ExpressionKind::K); return f(get_first_argument(e), get_second_argument(e)); }
  U1(VisitLog, Log, log) U1(VisitAbs, Abs, abs) U1(VisitExp, Exp, exp) U1(VisitSqrt, Sqrt, sqrt) U1(VisitSin, Sin, sin) U1(VisitCos, Cos, cos) U1(VisitTan, Tan, tan) U1(VisitAsin, Asin, asin) U1(VisitAcos, Acos, acos) U1(VisitAtan, Atan, atan) U1(VisitSinh, Sinh, sinh) U1(VisitCosh, Cosh, cosh) U1(VisitTanh, Tanh, tanh)
  B1(VisitPow, Pow, pow) B1(VisitAtan2, Atan2, atan2) B1(VisitMin, Min, min) B1(VisitMax, Max, max)
  Expression VisitIfThenElse(const Expression& e) { chk(e, ExpressionKind::IfThenElse); return if_then_else(get_conditional_formula(e), get_then_expression(e), get_else_expression(e)); }
  Expression VisitUninterpretedFunction(const Expression& e) { chk(e, ExpressionKind::UninterpretedFunction); return uninterpreted_function(get_uninterpreted_function_name(e), e.GetVariables()); }
  // formulas
  Formula chk(const Formula& f, FormulaKind want) { SIM_CHECK(f.get_kind() == want, CLS, "the visitor method for kind %d is called with %s", int(want), f.to_string().c_str()); return f; }
  Formula F(const Formula& f) { return dreal::VisitFormula<Formula>(this, f); }
  Formula VisitFalse(const Formula& f) { chk(f, FormulaKind::False); return Formula::False(); }
  Formula VisitTrue(const Formula& f) { chk(f, FormulaKind::True); return Formula::True(); }
  Formula VisitVariable(const Formula& f) { chk(f, FormulaKind::Var); return Formula(get_variable(f)); }
#define R1(M, K, op) Formula M(const Formula& f) { chk(f, FormulaKind::K); return get_lhs_expression(f) op get_rhs_expression(f); }
  R1(VisitEqualTo, Eq, ==) R1(VisitNotEqualTo, Neq, !=) R1(VisitGreaterThan, Gt, >) R1(VisitGreaterThanOrEqualTo, Geq, >=) R1(VisitLessThan, Lt, <) R1(VisitLessThanOrEqualTo, Leq, <=)
  Formula VisitConjunction(const Formula& f) { chk(f, FormulaKind::And); return make_conjunction(get_operands(f)); }
  Formula VisitDisjunction(const Formula& f) { chk(f, FormulaKind::Or); return make_disjunction(get_operands(f)); }
  Formula VisitNegation(const Formula& f) { chk(f, FormulaKind::Not); return !get_operand(f); }
  Formula VisitForall(const Formula& f) { chk(f, FormulaKind::Forall); return forall(get_quantified_variables(f), get_quantified_formula(f)); }
};
Variables un(const Variables& a, const Variables& b) { Variables r = a; for (auto& v : b) r.insert(v); return r; }
bool same(const Variables& a, const Variables& b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto& v : b) { if (!i->equal_to(v)) return false; ++i; } return true; }
template <class T> std::string text(const T& x) { Quiet q; return x.to_string(); }  // a stream that runs out of memory keeps quiet about it
struct Inspect {
  int budget;
  bool smooth(const Expression& e) { // no function without a derivative occurs
    switch (e.get_kind()) {
      case ExpressionKind::Constant: case ExpressionKind::RealConstant: case ExpressionKind::Var: return true;
      case ExpressionKind::Add: for (auto& p : get_expr_to_coeff_map_in_addition(e)) if (!smooth(p.first)) return false; return true;
      case ExpressionKind::Mul: for (auto& p : get_base_to_exponent_map_in_multiplication(e)) if (!smooth(p.first) || !smooth(p.second)) return false; return true;
      case ExpressionKind::Abs: case ExpressionKind::Min: case ExpressionKind::Max: case ExpressionKind::IfThenElse: case ExpressionKind::UninterpretedFunction: case ExpressionKind::NaN: return false;
      default: return bin(e.get_kind()) ? smooth(get_first_argument(e)) && smooth(get_second_argument(e)) : smooth(get_argument(e));
    }
  }
  bool has_nan(const Expression& e) { return e.to_string().find("NaN") != std::string::npos; }
  const Ctx* cx;
  void values(const Expression& e, const std::string& s) {
    for (int p = 0; p < NPT; ++p) {
      const Environment& env = cx->env[size_t(p)]; double v, w, m; const bool add = is_addition(e);
      try { v = e.Evaluate(env); if (add) { w = get_constant_in_addition(e); m = std::fabs(w); for (auto& q : get_expr_to_coeff_map_in_addition(e)) { const double t = q.second * q.first.Evaluate(env); w += t; m += std::fabs(t); } }
        else if (is_pow(e)) w = m = std::pow(get_first_argument(e).Evaluate(env), get_second_argument(e).Evaluate(env));
        else { w = get_constant_in_multiplication(e); for (auto& q : get_base_to_exponent_map_in_multiplication(e)) w *= std::pow(q.first.Evaluate(env), q.second.Evaluate(env)); m = w; }
        m = std::fabs(m); }
      catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { continue; }
      if (!std::isfinite(v) || !std::isfinite(m)) continue;
      SIM_CHECK(std::fabs(v - w) <= 1e-9 * m + 1e-280, CLS, "%s evaluates to %.17g, its parts to %.17g", s.c_str(), v, w);
    }
  }
  void expr(const Expression& e) { const Expression& e_ = e; (void)e_;
    if (--budget < 0) return;
    const std::string s = text(e); if (s.find("nan") != std::string::npos || s.find("inf") != std::string::npos || s.find("NaN") != std::string::npos) return;
    const ExpressionKind k = e.get_kind();
    for (auto& p : epreds()) SIM_CHECK(p.second(e) == (p.first == k), CLS, "%s of kind %d is reported %s kind %d", s.c_str(), int(k), p.second(e) ? "to be of" : "not to be of", int(p.first));
    const bool c = k == ExpressionKind::Constant; const double cv = c ? get_constant_value(e) : 0;
    SIM_CHECK(is_zero(e) == (c && cv == 0) && is_one(e) == (c && cv == 1) && is_neg_one(e) == (c && cv == -1) && is_two(e) == (c && cv == 2) && (!c || (is_constant(e, cv) && (cv + 1 == cv || !is_constant(e, cv + 1)))), CLS, "%s is recognized wrongly as a constant", s.c_str());
    // sums and products may be normalized differently when they are built from their parts; their values are compared instead
    const bool nary = k == ExpressionKind::Add || k == ExpressionKind::Mul || (k == ExpressionKind::Pow && is_one(get_second_argument(e)));
    Expression r; bool threw = false; try { r = Rebuild().E(e); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& x) { if (!nary) sim::fail(CLS, "%s cannot be put together from its parts: %s", s.c_str(), x.what()); threw = true; }
    if (!nary) SIM_CHECK(r.EqualTo(e) && e.EqualTo(r) && r.get_hash() == e.get_hash() && text(r) == s, CLS, "the parts of %s give %s (equal %d %d, hash %d)", s.c_str(), r.to_string().c_str(), r.EqualTo(e), e.EqualTo(r), r.get_hash() == e.get_hash());
    else values(e, s);
    Variables vs; bool ite = k == ExpressionKind::IfThenElse, poly = false;
    auto sub = [&](const Expression& x) { vs = un(vs, x.GetVariables()); ite = ite || x.include_ite(); expr(x); };
    switch (k) {
      case ExpressionKind::Constant: case ExpressionKind::RealConstant: poly = true; break;
      case ExpressionKind::Var: poly = true; vs.insert(get_variable(e)); break;
      case ExpressionKind::Add: poly = true; for (auto& p : get_expr_to_coeff_map_in_addition(e)) { sub(p.first); poly = poly && p.first.is_polynomial(); } SIM_CHECK(get_expr_to_coeff_map_in_addition(e).size() + (get_constant_in_addition(e) != 0) > 1 || get_expr_to_coeff_map_in_addition(e).size() == 1, CLS, "%s is an addition of nothing", s.c_str()); break;
      case ExpressionKind::Mul: poly = true; for (auto& p : get_base_to_exponent_map_in_multiplication(e)) { sub(p.first); sub(p.second); poly = poly && p.first.is_polynomial() && natural(p.second); } break;
      case ExpressionKind::IfThenElse: vs = un(vs, get_conditional_formula(e).GetFreeVariables()); sub(get_then_expression(e)); sub(get_else_expression(e)); form(get_conditional_formula(e)); break;
      case ExpressionKind::UninterpretedFunction: vs = e.GetVariables(); SIM_CHECK(get_uninterpreted_function_name(e) == "uf" || get_uninterpreted_function_name(e) == "vf", CLS, "%s has the name %s", s.c_str(), get_uninterpreted_function_name(e).c_str()); break;
      default:
        if (uni(k)) { sub(get_argument(e)); }
        else { SIM_CHECK(bin(k), CLS, "unknown kind"); sub(get_first_argument(e)); sub(get_second_argument(e)); poly = k == ExpressionKind::Div ? get_first_argument(e).is_polynomial() && is_constant(get_second_argument(e)) : k == ExpressionKind::Pow ? get_first_argument(e).is_polynomial() && natural(get_second_argument(e)) : false; }
    }
    SIM_CHECK(same(vs, e.GetVariables()), CLS, "%s reports the variables %s, its parts have %s", s.c_str(), e.GetVariables().to_string().c_str(), vs.to_string().c_str());
    SIM_CHECK(e.include_ite() == ite, CLS, "%s is reported %s an if-then-else", s.c_str(), e.include_ite() ? "to include" : "not to include");
    SIM_CHECK(e.is_polynomial() == poly, CLS, "%s is reported %s a polynomial", s.c_str(), e.is_polynomial() ? "to be" : "not to be");
    if (poly && !threw) { const Expression t = dreal::VisitPolynomial<Expression>(&rb, e); SIM_CHECK(t.EqualTo(r), CLS, "visiting the polynomial %s gives %s", s.c_str(), t.to_string().c_str()); }
    const bool d = smooth(e); SIM_CHECK(dreal::IsDifferentiable(e) == d, CLS, "%s is reported %s differentiable", s.c_str(), d ? "not to be" : "to be");
    for (const Variable& v : e.GetVariables()) if (budget > 0 && v.get_type() != Variable::Type::BOOLEAN && s.size() < 120) {
      try { const Expression t = e.Differentiate(v); for (const Variable& w : t.GetVariables()) SIM_CHECK(e.GetVariables().include(w), CLS, "the derivative of %s mentions %s", s.c_str(), w.get_name().c_str()); }
      catch (const std::exception& x) { if (d && std::string(x.what()).find("ifferentiable") != std::string::npos) sim::fail(CLS, "%s is reported to be differentiable, but: %s", s.c_str(), x.what()); }
      break;
    }
  }
  Rebuild rb;
  static bool lit(const Formula& f) { return is_atomic(f) || (is_negation(f) && is_atomic(get_operand(f))); }
  static bool atom(const Formula& f) { switch (f.get_kind()) { case FormulaKind::And: case FormulaKind::Or: return false; case FormulaKind::Not: { const FormulaKind k = get_operand(f).get_kind(); return k == FormulaKind::Var || is_relational(get_operand(f)); } default: return true; } }
  static bool clause(const Formula& f) { if (f.get_kind() == FormulaKind::And) return false; if (f.get_kind() == FormulaKind::Or) { for (auto& g : get_operands(f)) if (!(atom(g) || (g.get_kind() == FormulaKind::Not && atom(get_operand(g))))) return false; return true; } return f.get_kind() != FormulaKind::Not || atom(get_operand(f)) || atom(f); }
  bool fsmooth(const Formula& f) {
    switch (f.get_kind()) {
      case FormulaKind::False: case FormulaKind::True: case FormulaKind::Var: return true;
      case FormulaKind::And: case FormulaKind::Or: for (auto& g : get_operands(f)) if (!fsmooth(g)) return false; return true;
      case FormulaKind::Not: return fsmooth(get_operand(f));
      case FormulaKind::Forall: return false;
      default: return smooth(get_lhs_expression(f)) && smooth(get_rhs_expression(f));
    }
  }
  void form(const Formula& f) { const Formula& e_ = f;
    if (--budget < 0) return;
    const std::string s = text(f); if (s.find("nan") != std::string::npos || s.find("inf") != std::string::npos || s.find("NaN") != std::string::npos) return;
    const FormulaKind k = f.get_kind(); int hits = 0;
    for (auto& p : fpreds()) { hits += p.second(f); SIM_CHECK(p.second(f) == (p.first == k), CLS, "%s of kind %d is reported %s kind %d", s.c_str(), int(k), p.second(f) ? "to be of" : "not to be of", int(p.first)); }
    const bool rel = k == FormulaKind::Eq || k == FormulaKind::Neq || k == FormulaKind::Gt || k == FormulaKind::Geq || k == FormulaKind::Lt || k == FormulaKind::Leq;
    SIM_CHECK(is_relational(f) == rel && is_nary(f) == (k == FormulaKind::And || k == FormulaKind::Or), CLS, "%s is classified wrongly", s.c_str());
    Formula r; try { r = Rebuild().F(f); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& x) { sim::fail(CLS, "%s cannot be put together from its parts: %s", s.c_str(), x.what()); }
    SIM_CHECK(r.EqualTo(f) && f.EqualTo(r) && r.get_hash() == f.get_hash() && text(r) == s, CLS, "the parts of %s give %s (equal %d %d, hash %d)", s.c_str(), r.to_string().c_str(), r.EqualTo(e_), e_.EqualTo(r), r.get_hash() == e_.get_hash());
    Variables vs; bool ite = false;
    auto sub = [&](const Formula& x) { vs = un(vs, x.GetFreeVariables()); ite = ite || x.include_ite(); form(x); };
    if (rel) { for (const Expression& x : {get_lhs_expression(f), get_rhs_expression(f)}) { vs = un(vs, x.GetVariables()); ite = ite || x.include_ite(); expr(x); } }
    else if (k == FormulaKind::And || k == FormulaKind::Or) { SIM_CHECK(get_operands(f).size() > 1, CLS, "%s has %zu operands", s.c_str(), get_operands(f).size());
      for (auto& g : get_operands(f)) { SIM_CHECK(g.get_kind() != k && !is_true(g) && !is_false(g), CLS, "%s has the operand %s", s.c_str(), g.to_string().c_str()); sub(g); } }
    else if (k == FormulaKind::Not) { sub(get_operand(f)); }
    else if (k == FormulaKind::Forall) { sub(get_quantified_formula(f)); for (const Variable& v : get_quantified_variables(f)) vs.erase(v); }
    else if (k == FormulaKind::Var) vs.insert(get_variable(f));
    SIM_CHECK(same(vs, f.GetFreeVariables()), CLS, "%s reports the free variables %s, its parts have %s", s.c_str(), f.GetFreeVariables().to_string().c_str(), vs.to_string().c_str());
    SIM_CHECK(f.include_ite() == ite, CLS, "%s is reported %s an if-then-else", s.c_str(), f.include_ite() ? "to include" : "not to include");
    SIM_CHECK(is_atomic(f) == atom(f), CLS, "%s is reported %s atomic", s.c_str(), is_atomic(f) ? "to be" : "not to be");
    const bool not_forall = k != FormulaKind::Forall; (void)not_forall;
    const bool cl = clause(f); SIM_CHECK(is_clause(f) == cl, CLS, "%s is reported %s a clause", s.c_str(), is_clause(f) ? "to be" : "not to be");
    bool cnf = cl; std::set<Formula> want{f}; if (k == FormulaKind::And) { cnf = true; for (auto& g : get_operands(f)) cnf = cnf && clause(g); want = get_operands(f); }
    SIM_CHECK(is_cnf(f) == cnf, CLS, "%s is reported %s in conjunctive normal form", s.c_str(), is_cnf(f) ? "to be" : "not to be");
    if (cnf) { const std::set<Formula> got = get_clauses(f); bool ok = got.size() == want.size(); auto i = got.begin(); if (ok) for (auto& g : want) { ok = ok && i->EqualTo(g); ++i; } SIM_CHECK(ok, CLS, "the clauses of %s: %zu instead of %zu", s.c_str(), got.size(), want.size()); }
    const bool d = fsmooth(f); SIM_CHECK(dreal::IsDifferentiable(f) == d, CLS, "%s is reported %s differentiable", s.c_str(), d ? "not to be" : "to be");
  }
};
int depth(const std::string& s) { int d = 0, m = 0; for (char c : s) { if (c == '(') m = std::max(m, ++d); else if (c == ')') --d; } return m; }

// containers keyed by structural equality hold every distinct value once
template <class T> void containers(const std::vector<T>& v) {
  std::unordered_set<T> u; std::set<T> o; std::unordered_map<T, size_t> m; std::vector<T> distinct;
  for (size_t i = 0; i < v.size(); ++i) { bool seen = false; for (auto& x : distinct) if (x.EqualTo(v[i])) seen = true; if (!seen) distinct.push_back(v[i]); const bool a = u.insert(v[i]).second, b = o.insert(v[i]).second; m[v[i]] = i; SIM_CHECK(a == !seen && b == !seen, CLS, "%s is %s in a container", v[i].to_string().c_str(), seen ? "kept twice" : "missing"); }
  for (size_t i = 0; i < v.size(); ++i) { auto it = m.find(v[i]); SIM_CHECK(u.count(v[i]) == 1 && o.count(v[i]) == 1 && it != m.end() && v[it->second].EqualTo(v[i]), CLS, "%s is not found again", v[i].to_string().c_str()); }
  SIM_CHECK(u.size() == distinct.size() && o.size() == distinct.size(), CLS, "a set of %zu values has %zu elements", distinct.size(), u.size());
}
void statics(const Ctx& cx, int64_t i) {
  using dreal::RelationalOperator;
  static const RelationalOperator ops[] = {RelationalOperator::EQ, RelationalOperator::NEQ, RelationalOperator::GT, RelationalOperator::GEQ, RelationalOperator::LT, RelationalOperator::LEQ};
  static const char* txt[] = {"=", "\xe2\x89\xa0", ">", "\xe2\x89\xa5", "<", "\xe2\x89\xa4"}; static const int neg[] = {1, 0, 5, 4, 3, 2};
  const size_t k = size_t(i % 6); SIM_CHECK((!ops[k]) == ops[neg[k]] && str(ops[k]) == txt[k], CLS, "relational operator %zu is printed as %s", k, str(ops[k]).c_str());
  auto refused = [&](const char* what, auto f) { bool t = false; try { f(); } catch (const std::bad_alloc&) { t = true; } catch (const std::runtime_error&) { t = true; } SIM_CHECK(t, CLS, "%s is not refused", what); };
  switch (i % 5) {
    case 0: refused("a Boolean variable as an expression", [&] { Expression e(cx.b[0]); }); break;
    case 1: refused("a real variable as a formula", [&] { Formula f(cx.x[0]); }); break;
    case 2: refused("the dummy variable as an expression", [&] { Expression e{Variable()}; }); break;
    case 3: refused("the dummy variable as a formula", [&] { Formula f{Variable()}; }); break;
    default: { const Variable n("n", Variable::Type::INTEGER), y("y", Variable::Type::BINARY); Expression e = Expression(n) + Expression(y); SIM_CHECK(e.GetVariables().size() == 2 && n.to_string() == "n" && str(y) == "y" && str(n.get_type()) == "Integer" && str(y.get_type()) == "Binary" && str(cx.x[0].get_type()) == "Continuous" && str(cx.b[0].get_type()) == "Boolean", CLS, "variables are printed wrongly"); refused("an integer variable as a formula", [&] { Formula f(n); }); }
  }
}
void run_parts(const Plan& p) {
  Ctx cx; const int n = int(p.param("threads", 1));
  (void)epreds(); (void)fpreds();
  std::vector<Expression> E0; std::vector<Formula> F0;
  { Quiet q; sim::HarnessScope hs; Pool P(cx, false);
    for (size_t i = 0; i < p.ops.size() && i < 10; ++i) { const Op& o = p.ops[p.ops.size() - 1 - i]; if (sut([&] { apply(o, P); }) != OK) { P.reset_e(ei(o.a)); P.reset_e(ei(o.b)); P.reset_e(ei(o.c)); P.reset_f(fi(o.a)); P.reset_f(fi(o.b)); P.reset_f(fi(o.c)); }
      for (int k = 0; k < NE; ++k) if (P.E[k].to_string().size() > 200) P.reset_e(k); for (int k = 0; k < NF; ++k) { std::string t = P.F[k].to_string(); if (t.size() > 300 || depth(t) > 9) P.reset_f(k); } }
    E0 = P.E; F0 = P.F; }
  sim::leak_mark();
  {
  auto work = [&](int who) {
    Pool P(cx, false);
    { Quiet q; for (int i = 0; i < NE; ++i) P.E[i] = E0[i]; for (int i = 0; i < NF; ++i) P.F[i] = F0[i]; }
    int k = 0;
    for (const Op& o : p.ops) {
      if ((k++) % n != who) continue;
      Touch t = touched(o);
      Out r = sut([&] { apply(o, P); });
      { Quiet q; sim::HarnessScope hs; if (r != OK) { for (int i : {ei(o.a), ei(o.b), ei(o.c)}) P.reset_e(i); for (int i : {fi(o.a), fi(o.b), fi(o.c)}) P.reset_f(i); }
        for (int x : {t.e, t.e2}) if (x >= 0 && P.E[x].to_string().size() > 250) P.reset_e(x); for (int x : {t.f, t.f2}) if (x >= 0) { std::string s = P.F[x].to_string(); if (s.size() > 400 || depth(s) > 9) P.reset_f(x); } }
      // inspected where other threads may run in between, and sometimes short of memory
      const bool tight = (o.d & 7) == 0; std::string what;
      Out ri = sut([&] { std::unique_ptr<Quiet> q; if (!tight) q.reset(new Quiet); Inspect in{24, &cx, {}};
        if (t.e >= 0) { in.expr(P.E[t.e]); } else in.form(P.F[t.f]);
        if (n > 1) { Inspect in2{6, &cx, {}}; in2.expr(E0[size_t(o.c % NE)]); in2.form(F0[size_t(o.c % NF)]); } }, &what);
      SIM_CHECK(ri == OK || ri == NOMEM, CLS, "inspecting a value failed: %s", what.c_str());
      Quiet q; sim::HarnessScope hs;
      statics(cx, o.a + 5 * o.b + 7 * o.c);
      if (o.d % 3 == 0) { containers(P.E); containers(P.F); }
      if (o.d % 5 == 0) { // applying a function to a set of formulas; combining a vector of formulas
        const std::set<Formula> in(P.F.begin(), P.F.end()); std::set<Formula> want; for (auto& f : in) want.insert(!f); const std::set<Formula> got = dreal::map(in, [](const Formula& f) { return !f; });
        SIM_CHECK(want.size() == got.size() && std::equal(want.begin(), want.end(), got.begin(), [](const Formula& x, const Formula& y) { return x.EqualTo(y); }), CLS, "mapping a set of formulas");
        SIM_CHECK(dreal::make_conjunction(P.F).EqualTo(P.F[0] && P.F[1] && P.F[2] && P.F[3] && P.F[4]) && dreal::make_disjunction(P.F).EqualTo(P.F[0] || P.F[1] || P.F[2] || P.F[3] || P.F[4]), CLS, "combining a vector of formulas");
        SIM_CHECK(is_true(dreal::make_conjunction(std::vector<Formula>{})) && is_false(dreal::make_disjunction(std::vector<Formula>{})) && is_true(dreal::drake::symbolic::make_conjunction(std::set<Formula>{})) && is_false(dreal::drake::symbolic::make_disjunction(std::set<Formula>{})), CLS, "combining no formulas"); }
      sim::note(t.e >= 0 ? P.E[t.e].to_string() : P.F[t.f].to_string());
    }
  };
  std::vector<std::thread> th;
  { Quiet q; for (int i = 1; i < n; ++i) th.emplace_back([&work, i] { work(i); }); }
  work(0);
  for (auto& t : th) t.join();
  }
  { const int64_t lost = sim::leaked(); SIM_CHECK(lost == 0, "leak", "%lld blocks leaked", (long long)lost); }
}
void gen_parts(Rng& g, Plan& p, int tier) {
  p.params["threads"] = g.chance(2, 3) ? 1 : g.range(2, 3); if (p.params["threads"] > 1) gen_sched(g, p, 8000); else p.mode = 0;
  gen_ops(g, p, int(g.range(3, tier ? 50 : 30)), g.chance(2, 3));
  if (g.chance(1, 3)) gen_alloc_faults(g, p, 2500, 5);
  if (p.params["threads"] > 1 && g.chance(1, 4)) gen_stalls(g, p, 6000, 3);
}
sim::Registrar r0({"parts", gen_parts, run_parts});
}  // namespace
