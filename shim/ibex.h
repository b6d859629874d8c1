// Stand-in for the IBEX interval library, which is not installed here.
//
// It offers the part of IBEX's interface that dReal uses: intervals with outward rounding, interval vectors, expression
// trees, the HC4 contractor behind ibex::Function::backward, and a polytope contractor that is a plain HC4 pass (sound,
// weaker than linear relaxation). Ownership follows IBEX: an ibex::Function frees the nodes and symbols it was built from.
// A function's evaluation writes into its nodes, so, as in IBEX, one function must not be used by two threads at once.
#pragma once
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <ostream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ibex {
class Interval {
 public:
  Interval() : l_{-HUGE_VAL}, u_{HUGE_VAL} {}
  Interval(double x) { if (std::isnan(x) || std::isinf(x)) { l_ = u_ = NAN; } else { l_ = u_ = x; } }
  Interval(double l, double u) : l_{l}, u_{u} { if (!(l <= u) || l == HUGE_VAL || u == -HUGE_VAL) l_ = u_ = NAN; }
  static const Interval EMPTY_SET, ALL_REALS, POS_REALS, NEG_REALS, ZERO, ONE, PI;
  double lb() const { return l_; }
  double ub() const { return u_; }
  bool is_empty() const { return l_ != l_; }
  void set_empty() { l_ = u_ = NAN; }
  bool is_unbounded() const { return !is_empty() && (l_ == -HUGE_VAL || u_ == HUGE_VAL); }
  bool is_degenerated() const { return is_empty() || l_ == u_; }
  bool contains(double x) const { return l_ <= x && x <= u_; }
  bool is_subset(const Interval& o) const { return is_empty() || (!o.is_empty() && o.l_ <= l_ && u_ <= o.u_); }
  double diam() const { return is_empty() ? NAN : l_ == u_ ? 0.0 : up(u_ - l_); }
  double rad() const { return is_empty() ? NAN : up(diam() / 2); }
  double mag() const { return is_empty() ? NAN : std::fmax(std::fabs(l_), std::fabs(u_)); }
  double mig() const { return is_empty() ? NAN : contains(0) ? 0.0 : std::fmin(std::fabs(l_), std::fabs(u_)); }
  double mid() const {
    if (l_ == -HUGE_VAL) return u_ == HUGE_VAL ? 0.0 : -DBL_MAX;
    if (u_ == HUGE_VAL) return DBL_MAX;
    double m = l_ / 2 + u_ / 2; if (std::fabs(l_) < 1e300 && std::fabs(u_) < 1e300) m = (l_ + u_) / 2; if (m < l_) m = l_; if (m > u_) m = u_; return m;
  }
  bool is_bisectable() const { if (is_empty()) return false; const double m = mid(); return l_ < m && m < u_; }
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const {
    assert(is_bisectable());
    double m = is_unbounded() || ratio == 0.5 ? mid() : l_ + ratio * (u_ - l_); if (!(l_ < m && m < u_)) m = mid();
    return {Interval(l_, m), Interval(m, u_)};
  }
  bool operator==(const Interval& o) const { return (is_empty() && o.is_empty()) || (l_ == o.l_ && u_ == o.u_); }
  bool operator!=(const Interval& o) const { return !(*this == o); }
  Interval& operator&=(const Interval& o) { if (is_empty() || o.is_empty()) { set_empty(); return *this; } return *this = Interval(std::fmax(l_, o.l_), std::fmin(u_, o.u_)); }
  Interval operator&(const Interval& o) const { Interval t{*this}; return t &= o; }
  Interval& operator|=(const Interval& o) { if (o.is_empty()) return *this; if (is_empty()) return *this = o; l_ = std::fmin(l_, o.l_); u_ = std::fmax(u_, o.u_); return *this; }
  Interval operator|(const Interval& o) const { Interval t{*this}; return t |= o; }
  Interval& operator+=(const Interval& o); Interval& operator-=(const Interval& o); Interval& operator*=(const Interval& o); Interval& operator/=(const Interval& o);
  static double dn(double x) { return std::nextafter(x, -HUGE_VAL); }
  static double up(double x) { return std::nextafter(x, HUGE_VAL); }
  static Interval out(double l, double u) { if (l != l) l = -HUGE_VAL; if (u != u) u = HUGE_VAL; if (l == HUGE_VAL) l = DBL_MAX; if (u == -HUGE_VAL) u = -DBL_MAX; return Interval(dn(l), up(u)); }
  static Interval out2(double l, double u) { Interval t = out(l, u); return out(t.l_, t.u_); }

 private:
  double l_, u_;
};
std::ostream& operator<<(std::ostream& os, const Interval& x);
inline Interval operator-(const Interval& x) { return x.is_empty() ? x : Interval(-x.ub(), -x.lb()); }
Interval operator+(const Interval& x, const Interval& y); Interval operator-(const Interval& x, const Interval& y);
Interval operator*(const Interval& x, const Interval& y); Interval operator/(const Interval& x, const Interval& y);
Interval sqr(const Interval& x); Interval sqrt(const Interval& x); Interval pow(const Interval& x, int n); Interval pow(const Interval& x, double d); Interval pow(const Interval& x, const Interval& y);
Interval exp(const Interval& x); Interval log(const Interval& x); Interval abs(const Interval& x);
Interval sin(const Interval& x); Interval cos(const Interval& x); Interval tan(const Interval& x);
Interval asin(const Interval& x); Interval acos(const Interval& x); Interval atan(const Interval& x); Interval atan2(const Interval& y, const Interval& x);
Interval sinh(const Interval& x); Interval cosh(const Interval& x); Interval tanh(const Interval& x);
Interval min(const Interval& x, const Interval& y); Interval max(const Interval& x, const Interval& y);

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(size_t(n)) {}
  IntervalVector(int n, const Interval& x) : v_(size_t(n), x) {}
  int size() const { return int(v_.size()); }
  void resize(int n) { v_.resize(size_t(n)); }
  Interval& operator[](int i) { assert(0 <= i && i < size()); return v_[size_t(i)]; }
  const Interval& operator[](int i) const { assert(0 <= i && i < size()); return v_[size_t(i)]; }
  // As in IBEX, a vector is empty if its first component is.
  bool is_empty() const { return (*this)[0].is_empty(); }
  void set_empty() { (*this)[0].set_empty(); }
  bool operator==(const IntervalVector& o) const { if (size() != o.size()) return false; if (size() == 0) return true; if (is_empty() || o.is_empty()) return is_empty() && o.is_empty(); return v_ == o.v_; }
  bool operator!=(const IntervalVector& o) const { return !(*this == o); }
  IntervalVector& operator|=(const IntervalVector& o) { assert(size() == o.size()); if (o.is_empty()) return *this; if (is_empty()) return *this = o; for (int i = 0; i < size(); ++i) v_[size_t(i)] |= o.v_[size_t(i)]; return *this; }
  IntervalVector& operator&=(const IntervalVector& o) { assert(size() == o.size()); if (is_empty()) return *this; if (o.is_empty()) { set_empty(); return *this; } for (int i = 0; i < size(); ++i) { v_[size_t(i)] &= o.v_[size_t(i)]; if (v_[size_t(i)].is_empty()) { set_empty(); break; } } return *this; }

 private:
  std::vector<Interval> v_;
};
std::ostream& operator<<(std::ostream& os, const IntervalVector& x);

struct Dim { int k; static Dim scalar() { return Dim{0}; } };
template <class T>
class Array {
 public:
  void add(T& x) { v_.push_back(&x); }
  int size() const { return int(v_.size()); }
  T& operator[](int i) const { return *v_[size_t(i)]; }

 private:
  std::vector<T*> v_;
};

class ExprCtr;
class ExprNode {
 public:
  enum Op { SYM, CST, ADD, SUB, MUL, DIV, NEG, POWI, POWD, POWB, POW, SQRT, EXP, LOG, ABS, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, SINH, COSH, TANH, MIN, MAX };
  ExprNode(Op o, const ExprNode* a, const ExprNode* b = nullptr, double k = 0) : op(o), l(a), r(b), par(k) {}
  virtual ~ExprNode() { op = static_cast<Op>(-1); }
  const ExprCtr& operator=(const ExprNode& o) const;
  ExprNode(const ExprNode&) = delete;
  Op op; const ExprNode* l; const ExprNode* r; double par; mutable Interval d; mutable int index = -1;
};
class ExprSymbol : public ExprNode {
 public:
  static const ExprSymbol& new_(const char* name, const Dim&) { return *new ExprSymbol(name); }
  std::string name;

 private:
  explicit ExprSymbol(const char* n) : ExprNode(SYM, nullptr), name(n) {}
};
class ExprConstant : public ExprNode {
 public:
  static const ExprConstant& new_scalar(const Interval& x) { return *new ExprConstant(x); }
  Interval c;

 private:
  explicit ExprConstant(const Interval& x) : ExprNode(CST, nullptr), c(x) {}
};
enum CmpOp { LT, LEQ, EQ, GEQ, GT };
class ExprCtr {
 public:
  ExprCtr(const ExprNode& x, CmpOp o) : e(x), op(o) {}
  const ExprNode& e; const CmpOp op;
};
const ExprCtr& make_ctr(const ExprNode& a, const ExprNode& b, CmpOp o);
inline const ExprCtr& ExprNode::operator=(const ExprNode& o) const { return make_ctr(*this, o, EQ); }
inline const ExprCtr& operator<(const ExprNode& a, const ExprNode& b) { return make_ctr(a, b, LT); }
inline const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b) { return make_ctr(a, b, LEQ); }
inline const ExprCtr& operator>(const ExprNode& a, const ExprNode& b) { return make_ctr(a, b, GT); }
inline const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b) { return make_ctr(a, b, GEQ); }
inline const ExprNode& operator+(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::ADD, &a, &b); }
inline const ExprNode& operator-(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::SUB, &a, &b); }
inline const ExprNode& operator*(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::MUL, &a, &b); }
inline const ExprNode& operator/(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::DIV, &a, &b); }
inline const ExprNode& operator*(double a, const ExprNode& b) { return ExprConstant::new_scalar(a) * b; }
inline const ExprNode& operator-(const ExprNode& a) { return *new ExprNode(ExprNode::NEG, &a); }
inline const ExprNode& pow(const ExprNode& a, int n) { return *new ExprNode(ExprNode::POWI, &a, nullptr, n); }
inline const ExprNode& pow(const ExprNode& a, double x) { return *new ExprNode(ExprNode::POWD, &a, nullptr, x); }
inline const ExprNode& pow(double x, const ExprNode& a) { return *new ExprNode(ExprNode::POWB, &a, nullptr, x); }
inline const ExprNode& pow(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::POW, &a, &b); }
#define IBEX_SHIM_UN(f, O) inline const ExprNode& f(const ExprNode& a) { return *new ExprNode(ExprNode::O, &a); }
IBEX_SHIM_UN(sqrt, SQRT) IBEX_SHIM_UN(exp, EXP) IBEX_SHIM_UN(log, LOG) IBEX_SHIM_UN(abs, ABS) IBEX_SHIM_UN(sin, SIN) IBEX_SHIM_UN(cos, COS) IBEX_SHIM_UN(tan, TAN) IBEX_SHIM_UN(asin, ASIN) IBEX_SHIM_UN(acos, ACOS) IBEX_SHIM_UN(atan, ATAN) IBEX_SHIM_UN(sinh, SINH) IBEX_SHIM_UN(cosh, COSH) IBEX_SHIM_UN(tanh, TANH)
#undef IBEX_SHIM_UN
inline const ExprNode& atan2(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::ATAN2, &a, &b); }
inline const ExprNode& min(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::MIN, &a, &b); }
inline const ExprNode& max(const ExprNode& a, const ExprNode& b) { return *new ExprNode(ExprNode::MAX, &a, &b); }
void cleanup(const ExprNode& e, bool delete_symbols);
// HC4: evaluates e over x and propagates e ∈ y back into x; false if x changed or may change under y, true if e(x) ⊆ y.
bool hc4(const ExprNode& e, const Array<const ExprSymbol>& args, const Interval& y, IntervalVector& x);
std::ostream& operator<<(std::ostream& os, const ExprNode& e);

class Function {
 public:
  Function(const Array<const ExprSymbol>& x, const ExprNode& y) : args_(x), e_(&y) {}
  Function(const Function&) = delete;
  ~Function();
  bool backward(const Interval& y, IntervalVector& x) const { return hc4(*e_, args_, y, x); }
  const ExprNode& expr() const { return *e_; }

 private:
  Array<const ExprSymbol> args_; const ExprNode* e_;
};
class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c) : f(x, c.e), op(c.op) {}
  Interval right_hand_side() const { return rhs(op); }
  static Interval rhs(CmpOp op) { return op == EQ ? Interval(0.0) : op == LT || op == LEQ ? Interval(-HUGE_VAL, 0.0) : Interval(0.0, HUGE_VAL); }
  Function f; CmpOp op;
};
std::ostream& operator<<(std::ostream& os, const NumConstraint& c);
class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& a) { args = a; }
  void add_ctr(const ExprCtr& c) { ctrs.push_back({&c.e, c.op}); }
  Array<const ExprSymbol> args; std::vector<std::pair<const ExprNode*, CmpOp>> ctrs;
};
class System {
 public:
  explicit System(const SystemFactory& f) : nb_ctr(int(f.ctrs.size())), args(f.args), ctrs(f.ctrs) {}
  const int nb_ctr; Array<const ExprSymbol> args; std::vector<std::pair<const ExprNode*, CmpOp>> ctrs;
};
class LinearizerCombo {
 public:
  enum Mode { XNEWTON };
  LinearizerCombo(const System& s, Mode) : sys(s) {}
  const System& sys;
};
class CtcPolytopeHull {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : lin(l) {}
  void contract(IntervalVector& x);
  LinearizerCombo& lin;
};
}  // namespace ibex
