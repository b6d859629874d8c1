#include "ibex.h"
#include "sim.h"

namespace ibex {
const Interval Interval::EMPTY_SET{1, 0}, Interval::ALL_REALS{}, Interval::POS_REALS{0, HUGE_VAL}, Interval::NEG_REALS{-HUGE_VAL, 0}, Interval::ZERO{0.0}, Interval::ONE{1.0}, Interval::PI{3.141592653589793, 3.1415926535897936};
using I = Interval;
std::ostream& operator<<(std::ostream& os, const Interval& x) { if (x.is_empty()) return os << "[ empty ]"; return os << "[" << x.lb() << ", " << x.ub() << "]"; }
std::ostream& operator<<(std::ostream& os, const IntervalVector& x) { os << "("; for (int i = 0; i < x.size(); ++i) os << (i ? " ; " : "") << x[i]; return os << ")"; }
namespace {
bool ex(double a, double b, double r) { return std::fabs(a) < 9007199254740992.0 && std::fabs(b) < 9007199254740992.0 && std::fabs(r) < 9007199254740992.0 && a == std::floor(a) && b == std::floor(b); }
double addd(double a, double b, bool up) { double r = a + b; if (ex(a, b, r) || std::isinf(r) || a == 0 || b == 0) return r; return up ? I::up(r) : I::dn(r); }
double muld(double a, double b, bool up) { if (a == 0 || b == 0) return 0; double r = a * b; if (ex(a, b, r) || a == 1 || b == 1 || a == -1 || b == -1 || ((std::isinf(a) || std::isinf(b)))) return r; if (std::isinf(r)) return up ? (r > 0 ? r : -DBL_MAX) : (r < 0 ? r : DBL_MAX); return up ? I::up(r) : I::dn(r); }
double divd(double a, double b, bool up) { if (a == 0) return 0; if (std::isinf(b)) return std::isinf(a) ? (up ? HUGE_VAL : -HUGE_VAL) : 0; double r = a / b; if (std::isinf(a) || b == 1 || b == -1) return r; if (std::isinf(r)) return up ? (r > 0 ? r : -DBL_MAX) : (r < 0 ? r : DBL_MAX); return up ? I::up(r) : I::dn(r); }
}  // namespace
I operator+(const I& x, const I& y) { if (x.is_empty() || y.is_empty()) return I::EMPTY_SET; return I(addd(x.lb(), y.lb(), false), addd(x.ub(), y.ub(), true)); }
I operator-(const I& x, const I& y) { return x + (-y); }
I operator*(const I& x, const I& y) {
  if (x.is_empty() || y.is_empty()) return I::EMPTY_SET;
  double l = HUGE_VAL, u = -HUGE_VAL; for (double a : {x.lb(), x.ub()}) for (double b : {y.lb(), y.ub()}) { l = std::fmin(l, muld(a, b, false)); u = std::fmax(u, muld(a, b, true)); }
  return I(l, u);
}
I operator/(const I& x, const I& y) {
  if (x.is_empty() || y.is_empty() || (y.lb() == 0 && y.ub() == 0)) return I::EMPTY_SET;
  if (x.lb() == 0 && x.ub() == 0) return I(0.0);
  if (y.lb() < 0 && y.ub() > 0) return I();
  if (y.lb() == 0) { if (x.contains(0) && x.lb() < 0 && x.ub() > 0) return I(); if (x.lb() >= 0) return I(divd(x.lb(), y.ub(), false), HUGE_VAL); return I(-HUGE_VAL, divd(x.ub(), y.ub(), true)); }
  if (y.ub() == 0) return -(x / (-y));
  double l = HUGE_VAL, u = -HUGE_VAL; for (double a : {x.lb(), x.ub()}) for (double b : {y.lb(), y.ub()}) { l = std::fmin(l, divd(a, b, false)); u = std::fmax(u, divd(a, b, true)); }
  return I(l, u);
}
I& I::operator+=(const I& o) { return *this = *this + o; }
I& I::operator-=(const I& o) { return *this = *this - o; }
I& I::operator*=(const I& o) { return *this = *this * o; }
I& I::operator/=(const I& o) { return *this = *this / o; }
I abs(const I& x) { if (x.is_empty()) return x; return I(x.mig(), x.mag()); }
I sqr(const I& x) { I a = abs(x); return a * a; }
I sqrt(const I& x) { I y = x & I::POS_REALS; if (y.is_empty()) return y; auto s = [](double v, bool up) { double r = std::sqrt(v); if (std::isinf(r) || (r * r == v && r == std::floor(r))) return r; return up ? I::up(r) : std::fmax(0.0, I::dn(r)); }; return I(s(y.lb(), false), s(y.ub(), true)); }
namespace {
I powu(const I& x, unsigned n) { // x >= 0
  I r(1.0), b = x; while (n) { if (n & 1) r = r * b; b = b * b; n >>= 1; } return r & I::POS_REALS;
}
I mono(const I& x, double (*f)(double)) { I r = I::out2(f(x.lb()), f(x.ub())); return r; }
}  // namespace
I pow(const I& x, int n) {
  if (x.is_empty()) return x;
  if (n == 0) return I(1.0);
  if (n < 0) { if (n == INT32_MIN) return I(); return I(1.0) / pow(x, -n); }
  if (n % 2 == 0) return powu(abs(x), unsigned(n));
  I lo = x.lb() >= 0 ? powu(I(x.lb()), unsigned(n)) : std::isinf(x.lb()) ? I() : -powu(I(-x.lb()), unsigned(n));
  I hi = std::isinf(x.ub()) ? I() : x.ub() >= 0 ? powu(I(x.ub()), unsigned(n)) : -powu(I(-x.ub()), unsigned(n));
  return I(lo.lb(), hi.ub());
}
I exp(const I& x) { if (x.is_empty()) return x; auto e = [](double v, bool up) { double r = std::exp(v); if (v == 0) return 1.0; if (v == -HUGE_VAL) return 0.0; if (std::isinf(r)) return up ? r : (std::isinf(v) ? r : DBL_MAX); return up ? I::up(I::up(r)) : std::fmax(0.0, I::dn(I::dn(r))); }; return I(e(x.lb(), false), e(x.ub(), true)); }
I log(const I& x) { I y = x & I::POS_REALS; if (y.is_empty() || y.ub() == 0) return I::EMPTY_SET; auto g = [](double v, bool up) { if (v == 1) return 0.0; double r = std::log(v); if (std::isinf(r)) return r; return up ? I::up(I::up(r)) : I::dn(I::dn(r)); }; return I(g(y.lb(), false), g(y.ub(), true)); }
I pow(const I& x, double d) {
  if (x.is_empty()) return x;
  if (d == std::floor(d) && std::fabs(d) < 1e6) return pow(x, int(d));
  return exp(I(d) * log(x)) | ((x.contains(0) && d > 0) ? I(0.0) : I::EMPTY_SET);
}
I pow(const I& x, const I& y) { if (x.is_empty() || y.is_empty()) return I::EMPTY_SET; if (y.is_degenerated()) return pow(x, y.lb()); if (x.lb() < 0) return I(); return exp(y * log(x)) | (x.contains(0) ? I(0.0, 1.0) : I::EMPTY_SET) | (x.contains(0) && y.lb() < 0 ? I::POS_REALS : I::EMPTY_SET); }
I cos(const I& x) {
  if (x.is_empty()) return x;
  if (x.is_unbounded() || x.diam() >= 6.3 || x.mag() > 1e8) return I(-1, 1);
  double l = std::cos(x.lb()), u = std::cos(x.ub()); I r = I::out2(std::fmin(l, u), std::fmax(l, u));
  const double pi = 3.141592653589793, tol = 1e-7;
  for (double k = std::floor(x.lb() / pi) - 1; k * pi <= x.ub() + tol; ++k) if (k * pi >= x.lb() - tol) r |= I(std::fmod(std::fabs(k), 2.0) == 0 ? 1.0 : -1.0);
  return r & I(-1, 1);
}
I sin(const I& x) { if (x.is_empty()) return x; if (x.lb() == 0 && x.ub() == 0) return I(0.0); return cos(x - I(1.5707963267948966, 1.5707963267948968)); }
I tan(const I& x) {
  if (x.is_empty()) return x; if (x.lb() == 0 && x.ub() == 0) return x;
  if (x.is_unbounded() || x.diam() >= 3.14 || x.mag() > 1e6) return I();
  const double pi = 3.141592653589793; double a = (x.lb() - pi / 2) / pi, b = (x.ub() - pi / 2) / pi; if (std::floor(a - 1e-7) != std::floor(b + 1e-7)) return I();
  double l = std::tan(x.lb()), u = std::tan(x.ub()); double e = 1e-12 * (1 + std::fabs(l) + std::fabs(u)) ; return I(l - e * (1 + l * l), u + e * (1 + u * u));
}
I asin(const I& x) { I y = x & I(-1, 1); if (y.is_empty()) return y; return mono(y, std::asin); }
I acos(const I& x) { I y = x & I(-1, 1); if (y.is_empty()) return y; return I::out2(std::acos(y.ub()), std::acos(y.lb())); }
I atan(const I& x) { if (x.is_empty()) return x; return mono(x, std::atan); }
I atan2(const I& y, const I& x) { if (x.is_empty() || y.is_empty()) return I::EMPTY_SET; if (x.lb() > 0) return atan(y / x); return I(-3.1415926535897936, 3.1415926535897936); }
I sinh(const I& x) { if (x.is_empty()) return x; return mono(x, std::sinh); }
I cosh(const I& x) { if (x.is_empty()) return x; I a = abs(x); return I::out2(std::cosh(a.lb()), std::cosh(a.ub())) & I(1, HUGE_VAL); }
I tanh(const I& x) { if (x.is_empty()) return x; return mono(x, std::tanh) & I(-1, 1); }
I min(const I& x, const I& y) { if (x.is_empty() || y.is_empty()) return I::EMPTY_SET; return I(std::fmin(x.lb(), y.lb()), std::fmin(x.ub(), y.ub())); }
I max(const I& x, const I& y) { if (x.is_empty() || y.is_empty()) return I::EMPTY_SET; return I(std::fmax(x.lb(), y.lb()), std::fmax(x.ub(), y.ub())); }

const ExprCtr& make_ctr(const ExprNode& a, const ExprNode& b, CmpOp o) {
  const ExprConstant* c = dynamic_cast<const ExprConstant*>(&b);
  if (c && c->c == I(0.0)) return *new ExprCtr(a, o);
  return *new ExprCtr(a - b, o);
}
namespace {
void reach(const ExprNode* e, std::unordered_set<const ExprNode*>* s) { if (!e || !s->insert(e).second) return; reach(e->l, s); reach(e->r, s); }
I fwd(const ExprNode& e, const IntervalVector& x) {
  using N = ExprNode;
  switch (e.op) {
    case N::SYM: assert(e.index >= 0); return e.d = x[e.index];
    case N::CST: return e.d = static_cast<const ExprConstant&>(e).c;
    default: break;
  }
  const I a = fwd(*e.l, x), b = e.r ? fwd(*e.r, x) : I();
  switch (e.op) {
    case N::ADD: return e.d = a + b; case N::SUB: return e.d = a - b; case N::MUL: return e.d = e.l == e.r ? sqr(a) : a * b; case N::DIV: return e.d = a / b; case N::NEG: return e.d = -a;
    case N::POWI: return e.d = pow(a, int(e.par)); case N::POWD: return e.d = pow(a, e.par); case N::POWB: return e.d = pow(I(e.par), a); case N::POW: return e.d = pow(a, b);
    case N::SQRT: return e.d = sqrt(a); case N::EXP: return e.d = exp(a); case N::LOG: return e.d = log(a); case N::ABS: return e.d = abs(a);
    case N::SIN: return e.d = sin(a); case N::COS: return e.d = cos(a); case N::TAN: return e.d = tan(a); case N::ASIN: return e.d = asin(a); case N::ACOS: return e.d = acos(a); case N::ATAN: return e.d = atan(a); case N::ATAN2: return e.d = atan2(a, b);
    case N::SINH: return e.d = sinh(a); case N::COSH: return e.d = cosh(a); case N::TANH: return e.d = tanh(a); case N::MIN: return e.d = min(a, b); case N::MAX: return e.d = max(a, b);
    default: assert(false); return I();
  }
}
I root(const I& z, int n) { // z >= 0, n >= 1: nonnegative n-th root, outward
  if (z.is_empty()) return z;
  auto g = [n](double v, bool up) { if (v == 0 || std::isinf(v)) return v; if (n == 1) return v; double r = n == 2 ? std::sqrt(v) : std::pow(v, 1.0 / n); double e = r * 1e-14; return up ? I::up(r + e) : std::fmax(0.0, I::dn(r - e)); };
  return I(g(z.lb(), false), g(z.ub(), true));
}
bool bwd(const ExprNode& e, const I& y, IntervalVector& x) {  // false: inconsistent
  using N = ExprNode; const I z = e.d & y; if (z.is_empty()) return false; e.d = z;
  if (e.op == N::SYM) { x[e.index] &= z; return !x[e.index].is_empty(); }
  if (e.op == N::CST) return true;
  const I a = e.l->d, b = e.r ? e.r->d : I(); I na = a, nb = b;
  auto quo = [](const I& n, const I& d, const I& old) { // hull of { t in old | t*d meets n }
    if (d.contains(0)) { if (n.contains(0)) return old; if (d.lb() == 0 && d.ub() == 0) return I::EMPTY_SET; if (d.lb() < 0 && d.ub() > 0) { const I dn(d.lb(), 0.0), dp(0.0, d.ub()); return ((n / dn) & old) | ((n / dp) & old); } }
    return (n / d) & old; };
  switch (e.op) {
    case N::ADD: na &= z - b; nb &= z - na; break;
    case N::SUB: na &= z + b; nb &= na - z; break;
    case N::MUL: if (e.l == e.r) { const I r = root(z & I::POS_REALS, 2); na = (a & r) | (a & -r); nb = na; } else { na = quo(z, b, a); nb = quo(z, na, b); } break;
    case N::DIV: na &= z * b; nb = quo(na, z, b); break;
    case N::NEG: na &= -z; break;
    case N::POWI: { const int n = int(e.par); if (n == 0) break; I t = n < 0 ? (z == I() ? I() : quo(I(1.0), z, I())) : z; const int m = std::abs(n);
      if (m % 2 == 0) { const I r = root(t & I::POS_REALS, m); na = (a & r) | (a & -r); }
      else { const I p = root(t & I::POS_REALS, m), q = -root(-t & I::POS_REALS, m); na = a & (p | q); } break; }
    case N::POWD: if (e.par > 0) { const I t = z & I::POS_REALS; if (t.is_empty()) return false; na &= t.ub() == 0 ? I(0.0, DBL_MIN) : (exp(I(1.0) / I(e.par) * log(t)) | (t.contains(0) ? I(0.0) : I::EMPTY_SET)); } break;
    case N::SQRT: { const I t = z & I::POS_REALS; na &= sqr(t); break; }
    case N::EXP: na &= log(z); break;
    case N::LOG: na &= exp(z) & I::POS_REALS; break;
    case N::ABS: { const I t = z & I::POS_REALS; na = (a & t) | (a & -t); break; }
    case N::ATAN: if (z.lb() > -1.57 && z.ub() < 1.57) na &= tan(z); break;
    case N::TANH: case N::SINH: case N::COSH: case N::SIN: case N::COS: case N::TAN: case N::ASIN: case N::ACOS: case N::ATAN2: case N::POWB: case N::POW: break;
    case N::MIN: na &= I(z.lb(), HUGE_VAL); nb &= I(z.lb(), HUGE_VAL); if (a.lb() > z.ub()) nb &= z; if (b.lb() > z.ub()) na &= z; break;
    case N::MAX: na &= I(-HUGE_VAL, z.ub()); nb &= I(-HUGE_VAL, z.ub()); if (a.ub() < z.lb()) nb &= z; if (b.ub() < z.lb()) na &= z; break;
    default: break;
  }
  if (na.is_empty() || (e.r && nb.is_empty())) return false;
  if (!bwd(*e.l, na, x)) return false;
  if (e.r && e.r != e.l && !bwd(*e.r, nb, x)) return false;
  return true;
}
}  // namespace
void cleanup(const ExprNode& e, bool delete_symbols) { sim::HarnessScope hs;  // clean-up itself is taken not to fail
  std::unordered_set<const ExprNode*> s; reach(&e, &s); for (const ExprNode* n : s) if (delete_symbols || n->op != ExprNode::SYM) delete n; }
bool hc4(const ExprNode& e, const Array<const ExprSymbol>& args, const I& y, IntervalVector& x) {
  assert(args.size() == x.size());
  if (x.is_empty()) return false;
  for (int i = 0; i < args.size(); ++i) args[i].index = i;
  const I v = fwd(e, x);
  if (!v.is_empty() && v.is_subset(y)) return true;
  if (!bwd(e, y, x)) x.set_empty();
  return false;
}
Function::~Function() { sim::HarnessScope hs; std::unordered_set<const ExprNode*> s; reach(e_, &s); for (int i = 0; i < args_.size(); ++i) s.insert(&args_[i]); for (const ExprNode* n : s) delete n; }
std::ostream& operator<<(std::ostream& os, const ExprNode& e) {
  if (e.op == ExprNode::SYM) return os << static_cast<const ExprSymbol&>(e).name;
  if (e.op == ExprNode::CST) return os << static_cast<const ExprConstant&>(e).c;
  os << "(" << int(e.op) << " " << *e.l; if (e.r) os << " " << *e.r; return os << " " << e.par << ")";
}
std::ostream& operator<<(std::ostream& os, const NumConstraint& c) { static const char* n[] = {"<", "<=", "=", ">=", ">"}; return os << c.f.expr() << n[c.op] << "0"; }
void CtcPolytopeHull::contract(IntervalVector& x) { for (const auto& c : lin.sys.ctrs) { if (x.is_empty()) return; hc4(*c.first, lin.sys.args, NumConstraint::rhs(c.second), x); } }
}  // namespace ibex
