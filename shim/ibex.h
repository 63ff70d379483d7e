// A small stand-in for the parts of IBEX 2.x that dReal uses; the real library is not in the sandbox.
// It is a sound interval library: interval extensions enclose the real functions (outward rounded), and
// Function::backward (HC4-revise) never loses a solution. What it contracts may differ from IBEX.
#pragma once
#include <atomic>
#include <cmath>
#include <iosfwd>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ibex {

class Interval {
 public:
  Interval() : lb_(-inf()), ub_(inf()) {}
  Interval(double a) { set(a, a); }  // NOLINT
  Interval(double a, double b) { set(a, b); }
  double lb() const { return lb_; }
  double ub() const { return ub_; }
  bool is_empty() const { return !(lb_ <= ub_); }
  void set_empty() { lb_ = nan(); ub_ = nan(); }
  bool is_degenerated() const { return is_empty() || lb_ == ub_; }
  bool is_unbounded() const { return !is_empty() && (std::isinf(lb_) || std::isinf(ub_)); }
  bool contains(double d) const { return lb_ <= d && d <= ub_; }
  bool is_subset(const Interval& o) const { return is_empty() || (o.lb_ <= lb_ && ub_ <= o.ub_); }
  bool intersects(const Interval& o) const { return !is_empty() && !o.is_empty() && lb_ <= o.ub_ && o.lb_ <= ub_; }
  double mid() const;
  double diam() const;
  double rad() const { return diam() / 2; }
  double mag() const;
  double mig() const;
  bool is_bisectable() const { if (is_empty()) return false; const double m = mid(); return lb_ < m && m < ub_; }
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const;
  Interval& operator&=(const Interval& o);
  Interval& operator|=(const Interval& o);
  Interval& operator+=(const Interval& o);
  Interval& operator-=(const Interval& o);
  Interval& operator*=(const Interval& o);
  Interval& operator/=(const Interval& o);
  Interval operator-() const;
  bool operator==(const Interval& o) const { return (is_empty() && o.is_empty()) || (lb_ == o.lb_ && ub_ == o.ub_); }
  bool operator!=(const Interval& o) const { return !(*this == o); }
  static const Interval EMPTY_SET, ALL_REALS, ZERO, ONE, POS_REALS, NEG_REALS, PI, HALF_PI, TWO_PI;

 private:
  static double inf() { return std::numeric_limits<double>::infinity(); }
  static double nan() { return std::numeric_limits<double>::quiet_NaN(); }
  void set(double a, double b) {
    if (!(a <= b) || a == inf() || b == -inf()) set_empty();
    else { lb_ = a; ub_ = b; }
  }
  double lb_, ub_;
};
Interval operator&(const Interval& a, const Interval& b);
Interval operator|(const Interval& a, const Interval& b);
Interval operator+(const Interval& a, const Interval& b);
Interval operator-(const Interval& a, const Interval& b);
Interval operator*(const Interval& a, const Interval& b);
Interval operator/(const Interval& a, const Interval& b);
Interval operator+(const Interval& a, double b); Interval operator+(double a, const Interval& b);
Interval operator-(const Interval& a, double b); Interval operator-(double a, const Interval& b);
Interval operator*(const Interval& a, double b); Interval operator*(double a, const Interval& b);
Interval operator/(const Interval& a, double b); Interval operator/(double a, const Interval& b);
Interval sqr(const Interval&); Interval sqrt(const Interval&); Interval abs(const Interval&);
Interval pow(const Interval&, int); Interval pow(const Interval&, double); Interval pow(const Interval&, const Interval&);
Interval exp(const Interval&); Interval log(const Interval&);
Interval sin(const Interval&); Interval cos(const Interval&); Interval tan(const Interval&);
Interval asin(const Interval&); Interval acos(const Interval&); Interval atan(const Interval&);
Interval atan2(const Interval& y, const Interval& x);
Interval sinh(const Interval&); Interval cosh(const Interval&); Interval tanh(const Interval&);
Interval min(const Interval&, const Interval&); Interval max(const Interval&, const Interval&);
std::ostream& operator<<(std::ostream&, const Interval&);

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(n) {}
  IntervalVector(int n, const Interval& x) : v_(n, x) {}
  int size() const { return (int)v_.size(); }
  Interval& operator[](int i) { return v_.at(i); }
  const Interval& operator[](int i) const { return v_.at(i); }
  // as in IBEX: a vector is empty when its first component is
  bool is_empty() const { return v_.at(0).is_empty(); }
  void set_empty() { for (auto& x : v_) x.set_empty(); }
  void resize(int n);
  double max_diam() const;
  IntervalVector& operator&=(const IntervalVector& o);
  IntervalVector& operator|=(const IntervalVector& o);
  bool operator==(const IntervalVector& o) const;
  bool operator!=(const IntervalVector& o) const { return !(*this == o); }

 private:
  std::vector<Interval> v_;
};
std::ostream& operator<<(std::ostream&, const IntervalVector&);

template <typename T>
class Array {
 public:
  Array() = default;
  void add(T& x) { v_.push_back(&x); }
  int size() const { return (int)v_.size(); }
  T& operator[](int i) const { return *v_.at(i); }

 private:
  std::vector<T*> v_;
};

struct Dim { static Dim scalar() { return {}; } };

enum CmpOp { LT, LEQ, EQ, GEQ, GT };

class ExprCtr;
enum class Op { Sym, Cst, Add, Sub, Mul, Div, Neg, Min, Max, Atan2, PowI, PowD, PowE, Sqr, Sqrt, Exp, Log, Abs, Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh };

class ExprNode {
 public:
  ExprNode(Op op, const ExprNode* a, const ExprNode* b) : op(op), a(a), b(b) { live()++; }
  ExprNode(const ExprNode&) = delete;
  virtual ~ExprNode() { live()--; }
  const ExprCtr& operator=(const ExprNode& e) const;
  bool is_zero() const { return op == Op::Cst && c == Interval(0.0); }
  const Op op;
  const ExprNode* const a;
  const ExprNode* const b;
  int n{0};
  double d{0};
  Interval c;
  static long& live();  // number of nodes alive
};
class ExprSymbol : public ExprNode {
 public:
  static const ExprSymbol& new_(const char* name, const Dim&) { return *new ExprSymbol(name); }
  const std::string name;
  using ExprNode::operator=;
 private:
  explicit ExprSymbol(const char* name) : ExprNode(Op::Sym, nullptr, nullptr), name(name) {}
};
class ExprConstant : public ExprNode {
 public:
  static const ExprConstant& new_scalar(const Interval& c) { return *new ExprConstant(c); }
 private:
  explicit ExprConstant(const Interval& i) : ExprNode(Op::Cst, nullptr, nullptr) { c = i; }
};
const ExprNode& operator+(const ExprNode&, const ExprNode&); const ExprNode& operator-(const ExprNode&, const ExprNode&);
const ExprNode& operator*(const ExprNode&, const ExprNode&); const ExprNode& operator/(const ExprNode&, const ExprNode&);
const ExprNode& operator*(double, const ExprNode&); const ExprNode& operator+(double, const ExprNode&);
const ExprNode& operator-(const ExprNode&);
const ExprNode& min(const ExprNode&, const ExprNode&); const ExprNode& max(const ExprNode&, const ExprNode&); const ExprNode& atan2(const ExprNode&, const ExprNode&);
const ExprNode& pow(const ExprNode&, int); const ExprNode& pow(const ExprNode&, double); const ExprNode& pow(double, const ExprNode&); const ExprNode& pow(const ExprNode&, const ExprNode&);
const ExprNode& sqr(const ExprNode&); const ExprNode& sqrt(const ExprNode&); const ExprNode& exp(const ExprNode&); const ExprNode& log(const ExprNode&); const ExprNode& abs(const ExprNode&);
const ExprNode& sin(const ExprNode&); const ExprNode& cos(const ExprNode&); const ExprNode& tan(const ExprNode&);
const ExprNode& asin(const ExprNode&); const ExprNode& acos(const ExprNode&); const ExprNode& atan(const ExprNode&);
const ExprNode& sinh(const ExprNode&); const ExprNode& cosh(const ExprNode&); const ExprNode& tanh(const ExprNode&);
std::ostream& operator<<(std::ostream&, const ExprNode&);

class ExprCtr {
 public:
  ExprCtr(const ExprNode& e, CmpOp op) : e(e), op(op) {}
  const ExprNode& e;
  const CmpOp op;
};
const ExprCtr& operator<(const ExprNode&, const ExprNode&); const ExprCtr& operator<=(const ExprNode&, const ExprNode&);
const ExprCtr& operator>(const ExprNode&, const ExprNode&); const ExprCtr& operator>=(const ExprNode&, const ExprNode&);
std::ostream& operator<<(std::ostream&, const ExprCtr&);

// deletes every node below e; the symbols only on demand
void cleanup(const ExprNode& e, bool delete_symbols);

// Number of evaluations and contractions left.  When it is used up every box is contracted to the
// empty one and every value is the empty interval, so that any search comes to its end; the
// harness then ignores the answer.  Not part of IBEX.
extern std::atomic<long> budget;
inline bool out_of_budget() { return budget.fetch_sub(1, std::memory_order_relaxed) <= 0; }

class Function {
 public:
  // owns the expression and the symbols unless told otherwise
  Function(const Array<const ExprSymbol>& x, const ExprNode& y, bool own = true);
  Function(const Function&) = delete;
  ~Function();
  Interval eval(const IntervalVector& x) const;
  // contracts x to the points with f(x) in y; true when f(x) is inside y already
  bool backward(const Interval& y, IntervalVector& x) const;

 private:
  struct Ins { Op op; int a, b, n, var; double d; Interval c; };
  void forward(const IntervalVector& x, std::vector<Interval>* z) const;
  std::vector<Ins> code_;
  std::vector<const ExprNode*> owned_;
};

class NumConstraint {
 public:
  NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c);
  Interval right_hand_side() const;
  Function f;
  const CmpOp op;
  std::string text;
};
std::ostream& operator<<(std::ostream&, const NumConstraint&);

class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& x) { vars = x; }
  void add_ctr(const ExprCtr& c) { ctrs.push_back(&c); }
  Array<const ExprSymbol> vars;
  std::vector<const ExprCtr*> ctrs;
};
class System {
 public:
  explicit System(const SystemFactory& f);
  int nb_ctr;
  std::vector<std::unique_ptr<Function>> fs;
  std::vector<Interval> rhs;
};
class LinearizerCombo {
 public:
  enum linear_mode { ART, AFFINE2, XNEWTON, COMPO };
  LinearizerCombo(const System& s, linear_mode) : sys(s) {}
  const System& sys;
};
class CtcPolytopeHull {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : sys(l.sys) {}
  void contract(IntervalVector& box);

 private:
  const System& sys;
};

}  // namespace ibex
