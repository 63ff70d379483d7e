#include "ibex.h"

#include <algorithm>
#include <atomic>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>

#include <quadmath.h>

namespace ibex {
namespace {
const double kInf = std::numeric_limits<double>::infinity(), kMax = std::numeric_limits<double>::max();
double dn(double x) { return std::nextafter(x, -kInf); }
double up(double x) { return std::nextafter(x, kInf); }
// rounding of an exact or nearly exact value
double qlo(__float128 q) { double d = (double)q; return d > q ? dn(d) : d; }
double qhi(__float128 q) { double d = (double)q; return d < q ? up(d) : d; }
double add_lo(double a, double b) {
  const double s = a + b;
  if (std::isnan(s)) return -kInf;
  if (std::isinf(s)) return std::isinf(a) || std::isinf(b) ? s : s > 0 ? kMax : -kInf;
  const double bb = s - a, e = (a - (s - bb)) + (b - bb);
  if (std::isnan(e) || std::isinf(e)) return dn(s);
  return e < 0 ? dn(s) : s;
}
double add_hi(double a, double b) { return -add_lo(-a, -b); }
double mul_lo(double a, double b) {
  if (a == 0 || b == 0) return 0;
  if (std::isinf(a) || std::isinf(b)) return a * b;
  return qlo((__float128)a * b);
}
double mul_hi(double a, double b) { return -mul_lo(-a, b); }
double div_lo(double a, double b) {  // b != 0
  if (a == 0) return 0;
  if (std::isinf(b)) return std::isinf(a) ? -kInf : ((a > 0) == (b > 0) ? 0 : dn(0));
  if (std::isinf(a)) return a / b;
  return qlo((__float128)a / b);
}
double div_hi(double a, double b) { return -div_lo(-a, b); }
// a library function with an error of at most two ulps
double lo2(double y) { return std::isnan(y) ? -kInf : dn(dn(y)); }
double hi2(double y) { return std::isnan(y) ? kInf : up(up(y)); }
const double kPiLo = 3.141592653589793, kPiHi = 3.1415926535897936;
const Interval kEmpty = [] { Interval i; i.set_empty(); return i; }();

// increasing function; exact at 0 when it maps 0 to 0
template <typename F>
Interval mono(const Interval& x, F f) {
  if (x.is_empty()) return x;
  const double a = f(x.lb()), b = f(x.ub());
  return Interval(x.lb() == 0 && a == 0 ? 0 : lo2(a), x.ub() == 0 && b == 0 ? 0 : hi2(b));
}
}  // namespace

const Interval Interval::EMPTY_SET = kEmpty, Interval::ALL_REALS, Interval::ZERO(0.0), Interval::ONE(1.0), Interval::POS_REALS(0.0, kInf), Interval::NEG_REALS(-kInf, 0.0),
    Interval::PI(kPiLo, kPiHi), Interval::HALF_PI(kPiLo / 2, kPiHi / 2), Interval::TWO_PI(kPiLo * 2, kPiHi * 2);

double Interval::mid() const {
  if (is_empty()) return nan();
  if (std::isinf(lb_)) return std::isinf(ub_) ? 0.0 : -kMax;
  if (std::isinf(ub_)) return kMax;
  double m = 0.5 * lb_ + 0.5 * ub_;
  return std::min(std::max(m, lb_), ub_);
}
double Interval::diam() const { return is_empty() ? 0 : add_hi(ub_, -lb_); }
double Interval::mag() const { return std::max(std::fabs(lb_), std::fabs(ub_)); }
double Interval::mig() const { return contains(0) ? 0 : std::min(std::fabs(lb_), std::fabs(ub_)); }
std::pair<Interval, Interval> Interval::bisect(double) const {
  const double m = mid();
  return {Interval(lb_, m), Interval(m, ub_)};
}
Interval& Interval::operator&=(const Interval& o) {
  if (is_empty()) return *this;
  if (o.is_empty()) { set_empty(); return *this; }
  set(std::max(lb_, o.lb_), std::min(ub_, o.ub_));
  return *this;
}
Interval& Interval::operator|=(const Interval& o) {
  if (o.is_empty()) return *this;
  if (is_empty()) { *this = o; return *this; }
  set(std::min(lb_, o.lb_), std::max(ub_, o.ub_));
  return *this;
}
Interval Interval::operator-() const { return is_empty() ? *this : Interval(-ub_, -lb_); }
Interval operator&(const Interval& a, const Interval& b) { Interval r = a; return r &= b; }
Interval operator|(const Interval& a, const Interval& b) { Interval r = a; return r |= b; }
Interval operator+(const Interval& a, const Interval& b) { return a.is_empty() || b.is_empty() ? kEmpty : Interval(add_lo(a.lb(), b.lb()), add_hi(a.ub(), b.ub())); }
Interval operator-(const Interval& a, const Interval& b) { return a + -b; }
Interval operator*(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty()) return kEmpty;
  const double p[] = {a.lb(), a.ub()}, q[] = {b.lb(), b.ub()};
  double l = kInf, h = -kInf;
  for (double x : p) for (double y : q) { l = std::min(l, mul_lo(x, y)); h = std::max(h, mul_hi(x, y)); }
  return Interval(l, h);
}
Interval operator/(const Interval& a, const Interval& b) {
  if (a.is_empty() || b.is_empty() || (b.lb() == 0 && b.ub() == 0)) return kEmpty;
  if (b.lb() < 0 && b.ub() > 0) return a.lb() == 0 && a.ub() == 0 ? a : Interval();
  if (b.ub() <= 0) return -a / -b;
  // 0 <= b, b not zero
  double l, h;
  if (a.lb() >= 0) l = div_lo(a.lb(), b.ub()); else l = b.lb() == 0 ? -kInf : div_lo(a.lb(), b.lb());
  if (a.ub() <= 0) h = div_hi(a.ub(), b.ub()); else h = b.lb() == 0 ? kInf : div_hi(a.ub(), b.lb());
  return Interval(l, h);
}
Interval operator+(const Interval& a, double b) { return a + Interval(b); }
Interval operator+(double a, const Interval& b) { return Interval(a) + b; }
Interval operator-(const Interval& a, double b) { return a - Interval(b); }
Interval operator-(double a, const Interval& b) { return Interval(a) - b; }
Interval operator*(const Interval& a, double b) { return a * Interval(b); }
Interval operator*(double a, const Interval& b) { return Interval(a) * b; }
Interval operator/(const Interval& a, double b) { return a / Interval(b); }
Interval operator/(double a, const Interval& b) { return Interval(a) / b; }
Interval& Interval::operator+=(const Interval& o) { return *this = *this + o; }
Interval& Interval::operator-=(const Interval& o) { return *this = *this - o; }
Interval& Interval::operator*=(const Interval& o) { return *this = *this * o; }
Interval& Interval::operator/=(const Interval& o) { return *this = *this / o; }

Interval abs(const Interval& x) { return x.is_empty() ? x : Interval(x.mig(), x.mag()); }
Interval sqr(const Interval& x) {
  if (x.is_empty()) return x;
  const double a = x.mig(), b = x.mag();
  return Interval(mul_lo(a, a), mul_hi(b, b));
}
Interval sqrt(const Interval& x0) {
  const Interval x = x0 & Interval::POS_REALS;
  if (x.is_empty()) return x;
  return Interval(qlo(sqrtq(x.lb())), std::isinf(x.ub()) ? kInf : qhi(sqrtq(x.ub())));
}
namespace {
// v >= 0, n > 0
double powi_lo(double v, int n) { double r = 1; if (n <= 8) { for (int i = 0; i < n; ++i) r = mul_lo(r, v); return r; } if (v == 0 || v == 1 || std::isinf(v)) return v; return std::max(0.0, lo2(std::pow(v, n))); }
double powi_hi(double v, int n) { double r = 1; if (n <= 8) { for (int i = 0; i < n; ++i) r = mul_hi(r, v); return r; } if (v == 0 || v == 1 || std::isinf(v)) return v; return hi2(std::pow(v, n)); }
}  // namespace
Interval pow(const Interval& x, int n) {
  if (x.is_empty()) return x;
  if (n == 0) return Interval(1.0);
  if (n < 0) { if (n == std::numeric_limits<int>::min()) return Interval(); return Interval(1.0) / pow(x, -n); }
  if (n == 1) return x;
  if (n % 2 == 0) return Interval(powi_lo(x.mig(), n), powi_hi(x.mag(), n));
  const double l = x.lb() >= 0 ? powi_lo(x.lb(), n) : -powi_hi(-x.lb(), n);
  const double h = x.ub() >= 0 ? powi_hi(x.ub(), n) : -powi_lo(-x.ub(), n);
  return Interval(l, h);
}
namespace {
// v^c for v >= 0
double powd(double v, double c, bool low) {
  if (v == 0) return c > 0 ? 0 : kInf;
  if (std::isinf(v)) return c > 0 ? kInf : 0;
  if (v == 1 || c == 0) return 1;
  const double y = std::pow(v, c);
  return low ? std::max(0.0, std::min(kMax, lo2(y))) : hi2(y);
}
}  // namespace
Interval pow(const Interval& x0, double c) {
  if (c == 0) return x0.is_empty() ? x0 : Interval(1.0);
  if (c == std::floor(c) && x0.lb() < 0) return Interval();  // defined for negative bases, too
  const Interval x = x0 & Interval::POS_REALS;
  if (x.is_empty()) return x;
  if (c < 0 && x.ub() == 0) return kEmpty;
  if (c > 0) return Interval(std::min(powd(x.lb(), c, true), kMax), powd(x.ub(), c, false));
  return Interval(std::min(powd(x.ub(), c, true), kMax), powd(x.lb(), c, false));
}
Interval pow(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return kEmpty;
  if (x.lb() < 0) return Interval();  // defined for integer exponents
  Interval r = kEmpty;
  if (x.ub() > 0) {
    const Interval p = x;
    double l = kInf, h = 0;
    for (double a : {p.lb(), p.ub()}) for (double b : {y.lb(), y.ub()}) {
      if (std::isinf(b)) {  // limits
        const double t = a == 1 ? 1 : (a > 1) == (b > 0) ? kInf : 0;
        l = std::min(l, t); h = std::max(h, t);
        if (p.contains(1)) { l = std::min(l, 1.0); h = std::max(h, 1.0); }
        continue;
      }
      l = std::min(l, powd(a, b, true)); h = std::max(h, powd(a, b, false));
      if (b == 0) { l = std::min(l, 1.0); h = std::max(h, 1.0); }
    }
    if (y.contains(0) || p.contains(1)) { l = std::min(l, 1.0); h = std::max(h, 1.0); }
    r = Interval(std::min(l, kMax), h);
  }
  if (x.contains(0)) { if (y.ub() > 0) r |= Interval(0.0); if (y.contains(0)) r |= Interval(1.0); }
  return r;
}
Interval exp(const Interval& x) {
  if (x.is_empty()) return x;
  const double l = x.lb() == 0 ? 1 : std::max(0.0, lo2(std::exp(x.lb())));
  const double h = x.ub() == 0 ? 1 : hi2(std::exp(x.ub()));
  return Interval(std::min(l, kMax), h);
}
Interval log(const Interval& x0) {
  const Interval x = x0 & Interval::POS_REALS;
  if (x.is_empty() || x.ub() == 0) return kEmpty;
  return Interval(x.lb() == 0 ? -kInf : x.lb() == 1 ? 0 : lo2(std::log(x.lb())), std::isinf(x.ub()) ? kInf : x.ub() == 1 ? 0 : hi2(std::log(x.ub())));
}
namespace {
// may x contain a point of off + period * Z (off, period given to about 1e-30)
bool hits(const Interval& x, __float128 off, __float128 period) {
  const __float128 s = 1e-25Q * (1 + fabsq((__float128)x.lb()) + fabsq((__float128)x.ub()));
  const __float128 a = ((__float128)x.lb() - s - off) / period, b = ((__float128)x.ub() + s - off) / period;
  return floorq(b) >= a;
}
Interval trig(const Interval& x, bool is_cos) {
  if (x.is_empty()) return x;
  if (x.mag() > 1e8 || x.diam() > 6.2831) return Interval(-1, 1);
  const double a = is_cos ? std::cos(x.lb()) : std::sin(x.lb()), b = is_cos ? std::cos(x.ub()) : std::sin(x.ub());
  double l = lo2(std::min(a, b)), h = hi2(std::max(a, b));
  if (x.lb() == 0 && x.ub() == 0) return Interval(is_cos ? 1 : 0);
  if (hits(x, is_cos ? 0 : M_PI_2q, 2 * M_PIq)) h = 1;
  if (hits(x, is_cos ? M_PIq : -M_PI_2q, 2 * M_PIq)) l = -1;
  return Interval(std::max(-1.0, l), std::min(1.0, h));
}
}  // namespace
Interval sin(const Interval& x) { return trig(x, false); }
Interval cos(const Interval& x) { return trig(x, true); }
Interval tan(const Interval& x) {
  if (x.is_empty()) return x;
  if (x.mag() > 1e8 || x.diam() > 3.1415 || hits(x, M_PI_2q, M_PIq)) return Interval();
  return mono(x, [](double v) { return std::tan(v); });
}
Interval asin(const Interval& x) { return mono(x & Interval(-1, 1), [](double v) { return std::asin(v); }); }
Interval acos(const Interval& x0) {
  const Interval x = x0 & Interval(-1, 1);
  if (x.is_empty()) return x;
  return Interval(x.ub() == 1 ? 0 : std::max(0.0, lo2(std::acos(x.ub()))), x.lb() == 1 ? 0 : hi2(std::acos(x.lb())));
}
Interval atan(const Interval& x) { return mono(x, [](double v) { return std::atan(v); }); }
Interval sinh(const Interval& x) { return mono(x, [](double v) { return std::sinh(v); }) & Interval(); }
Interval tanh(const Interval& x) { return mono(x, [](double v) { return std::tanh(v); }) & Interval(-1, 1); }
Interval cosh(const Interval& x) {
  if (x.is_empty()) return x;
  const double a = x.mig(), b = x.mag();
  return Interval(a == 0 ? 1 : std::min(kMax, std::max(1.0, lo2(std::cosh(a)))), b == 0 ? 1 : hi2(std::cosh(b)));
}
Interval atan2(const Interval& y, const Interval& x) {
  if (x.is_empty() || y.is_empty()) return kEmpty;
  if (x.lb() == 0 && x.ub() == 0 && y.lb() == 0 && y.ub() == 0) return Interval(-kPiHi, kPiHi);
  if ((y.contains(0) && x.lb() < 0 && (y.lb() < 0 || x.contains(0))) || (x.contains(0) && y.contains(0))) return Interval(-kPiHi, kPiHi);
  double l = kInf, h = -kInf;
  for (double a : {y.lb(), y.ub()}) for (double b : {x.lb(), x.ub()}) {
    const double v = std::atan2(a + 0.0, b);
    l = std::min(l, v); h = std::max(h, v);
  }
  return Interval(std::max(-kPiHi, l == 0 && y.lb() == 0 && x.lb() > 0 ? 0 : lo2(l)), std::min(kPiHi, h == 0 && y.ub() == 0 && x.lb() > 0 ? 0 : hi2(h)));
}
Interval min(const Interval& a, const Interval& b) { return a.is_empty() || b.is_empty() ? kEmpty : Interval(std::min(a.lb(), b.lb()), std::min(a.ub(), b.ub())); }
Interval max(const Interval& a, const Interval& b) { return a.is_empty() || b.is_empty() ? kEmpty : Interval(std::max(a.lb(), b.lb()), std::max(a.ub(), b.ub())); }
std::ostream& operator<<(std::ostream& os, const Interval& x) { return x.is_empty() ? os << "[ empty ]" : os << "[" << x.lb() << ", " << x.ub() << "]"; }

void IntervalVector::resize(int n) {
  const bool e = size() > 0 && is_empty();
  v_.resize(n);
  if (e) set_empty();
}
double IntervalVector::max_diam() const { double d = 0; for (auto& x : v_) d = std::max(d, x.diam()); return d; }
IntervalVector& IntervalVector::operator&=(const IntervalVector& o) {
  if (size() != o.size()) throw std::logic_error("ibex: intersection of vectors of different sizes");
  if (is_empty()) return *this;
  if (o.is_empty()) { set_empty(); return *this; }
  for (int i = 0; i < size(); ++i) { v_[i] &= o.v_[i]; if (v_[i].is_empty()) { set_empty(); break; } }
  return *this;
}
IntervalVector& IntervalVector::operator|=(const IntervalVector& o) {
  if (size() != o.size()) throw std::logic_error("ibex: union of vectors of different sizes");
  if (o.is_empty()) return *this;
  if (is_empty()) { *this = o; return *this; }
  for (int i = 0; i < size(); ++i) v_[i] |= o.v_[i];
  return *this;
}
bool IntervalVector::operator==(const IntervalVector& o) const {
  if (size() != o.size()) return false;
  if (is_empty() || o.is_empty()) return is_empty() == o.is_empty();
  return v_ == o.v_;
}
std::ostream& operator<<(std::ostream& os, const IntervalVector& x) {
  if (x.is_empty()) return os << "empty vector";
  os << "(";
  for (int i = 0; i < x.size(); ++i) os << (i ? " ; " : "") << x[i];
  return os << ")";
}

long& ExprNode::live() { static thread_local long n = 0; return n; }

namespace {
const ExprNode& n1(Op op, const ExprNode& a) { return *new ExprNode(op, &a, nullptr); }
const ExprNode& n2(Op op, const ExprNode& a, const ExprNode& b) { return *new ExprNode(op, &a, &b); }
const ExprNode& cst(double d) { return ExprConstant::new_scalar(Interval(d)); }
const ExprCtr& ctr(const ExprNode& a, const ExprNode& b, CmpOp op) {
  if (b.is_zero()) return *new ExprCtr(a, op);
  return *new ExprCtr(a - b, op);
}
void walk(const ExprNode* e, std::set<const ExprNode*>* seen, std::vector<const ExprNode*>* post) {
  if (!seen->insert(e).second) return;
  if (e->a) walk(e->a, seen, post);
  if (e->b) walk(e->b, seen, post);
  post->push_back(e);
}
}  // namespace
const ExprNode& operator+(const ExprNode& a, const ExprNode& b) { return n2(Op::Add, a, b); }
const ExprNode& operator-(const ExprNode& a, const ExprNode& b) { return n2(Op::Sub, a, b); }
const ExprNode& operator*(const ExprNode& a, const ExprNode& b) { return n2(Op::Mul, a, b); }
const ExprNode& operator/(const ExprNode& a, const ExprNode& b) { return n2(Op::Div, a, b); }
const ExprNode& operator*(double a, const ExprNode& b) { return n2(Op::Mul, cst(a), b); }
const ExprNode& operator+(double a, const ExprNode& b) { return n2(Op::Add, cst(a), b); }
const ExprNode& operator-(const ExprNode& a) { return n1(Op::Neg, a); }
const ExprNode& min(const ExprNode& a, const ExprNode& b) { return n2(Op::Min, a, b); }
const ExprNode& max(const ExprNode& a, const ExprNode& b) { return n2(Op::Max, a, b); }
const ExprNode& atan2(const ExprNode& a, const ExprNode& b) { return n2(Op::Atan2, a, b); }
const ExprNode& pow(const ExprNode& a, int n) { auto* r = new ExprNode(Op::PowI, &a, nullptr); r->n = n; return *r; }
const ExprNode& pow(const ExprNode& a, double d) { auto* r = new ExprNode(Op::PowD, &a, nullptr); r->d = d; return *r; }
const ExprNode& pow(double d, const ExprNode& b) { return n2(Op::PowE, cst(d), b); }
const ExprNode& pow(const ExprNode& a, const ExprNode& b) { return n2(Op::PowE, a, b); }
#define U(f, O) const ExprNode& f(const ExprNode& a) { return n1(Op::O, a); }
U(sqr, Sqr) U(sqrt, Sqrt) U(exp, Exp) U(log, Log) U(abs, Abs) U(sin, Sin) U(cos, Cos) U(tan, Tan) U(asin, Asin) U(acos, Acos) U(atan, Atan) U(sinh, Sinh) U(cosh, Cosh) U(tanh, Tanh)
#undef U
std::ostream& operator<<(std::ostream& os, const ExprNode& e) {
  if (e.op == Op::Sym) return os << static_cast<const ExprSymbol&>(e).name;
  if (e.op == Op::Cst) return os << e.c;
  os << "op" << (int)e.op << "(" << *e.a;
  if (e.b) os << "," << *e.b;
  if (e.op == Op::PowI) os << "," << e.n;
  if (e.op == Op::PowD) os << "," << e.d;
  return os << ")";
}
const ExprCtr& ExprNode::operator=(const ExprNode& e) const { return ctr(*this, e, EQ); }
const ExprCtr& operator<(const ExprNode& a, const ExprNode& b) { return ctr(a, b, LT); }
const ExprCtr& operator<=(const ExprNode& a, const ExprNode& b) { return ctr(a, b, LEQ); }
const ExprCtr& operator>(const ExprNode& a, const ExprNode& b) { return ctr(a, b, GT); }
const ExprCtr& operator>=(const ExprNode& a, const ExprNode& b) { return ctr(a, b, GEQ); }
static const char* opname(CmpOp op) { static const char* n[] = {"<", "<=", "=", ">=", ">"}; return n[op]; }
std::ostream& operator<<(std::ostream& os, const ExprCtr& c) { return os << c.e << opname(c.op) << "0"; }
static Interval rhs_of(CmpOp op) { return op == EQ ? Interval(0.0) : op == LT || op == LEQ ? Interval::NEG_REALS : Interval::POS_REALS; }

void cleanup(const ExprNode& e, bool delete_symbols) {
  std::set<const ExprNode*> seen;
  std::vector<const ExprNode*> post;
  walk(&e, &seen, &post);
  for (auto* n : post) if (n->op != Op::Sym || delete_symbols) delete n;
}

Function::Function(const Array<const ExprSymbol>& x, const ExprNode& y, bool own) {
  std::set<const ExprNode*> seen;
  std::vector<const ExprNode*> post;
  walk(&y, &seen, &post);
  std::map<const ExprNode*, int> var, at;
  for (int i = 0; i < x.size(); ++i) var[&x[i]] = i;
  for (auto* n : post) {
    Ins s{n->op, n->a ? at.at(n->a) : -1, n->b ? at.at(n->b) : -1, n->n, -1, n->d, n->c};
    if (n->op == Op::Sym) {
      if (!var.count(n)) throw std::logic_error("ibex: a symbol of the expression is not an argument of the function");
      s.var = var[n];
    }
    at[n] = (int)code_.size();
    code_.push_back(s);
    if (own && n->op != Op::Sym) owned_.push_back(n);
  }
  if (own) for (int i = 0; i < x.size(); ++i) owned_.push_back(&x[i]);
}
Function::~Function() { for (auto* n : owned_) delete n; }

std::atomic<long> budget{std::numeric_limits<long>::max()};

void Function::forward(const IntervalVector& x, std::vector<Interval>* zp) const {
  std::vector<Interval>& z = *zp;
  z.resize(code_.size());
  for (size_t i = 0; i < code_.size(); ++i) {
    const Ins& s = code_[i];
    const Interval none, &a = s.a >= 0 ? z[s.a] : none, &b = s.b >= 0 ? z[s.b] : none;
    switch (s.op) {
      case Op::Sym: z[i] = x[s.var]; break;
      case Op::Cst: z[i] = s.c; break;
      case Op::Add: z[i] = a + b; break;
      case Op::Sub: z[i] = a - b; break;
      case Op::Mul: z[i] = a * b; break;
      case Op::Div: z[i] = a / b; break;
      case Op::Neg: z[i] = -a; break;
      case Op::Min: z[i] = min(a, b); break;
      case Op::Max: z[i] = max(a, b); break;
      case Op::Atan2: z[i] = atan2(a, b); break;
      case Op::PowI: z[i] = pow(a, s.n); break;
      case Op::PowD: z[i] = pow(a, s.d); break;
      case Op::PowE: z[i] = pow(a, b); break;
      case Op::Sqr: z[i] = sqr(a); break;
      case Op::Sqrt: z[i] = sqrt(a); break;
      case Op::Exp: z[i] = exp(a); break;
      case Op::Log: z[i] = log(a); break;
      case Op::Abs: z[i] = abs(a); break;
      case Op::Sin: z[i] = sin(a); break;
      case Op::Cos: z[i] = cos(a); break;
      case Op::Tan: z[i] = tan(a); break;
      case Op::Asin: z[i] = asin(a); break;
      case Op::Acos: z[i] = acos(a); break;
      case Op::Atan: z[i] = atan(a); break;
      case Op::Sinh: z[i] = sinh(a); break;
      case Op::Cosh: z[i] = cosh(a); break;
      case Op::Tanh: z[i] = tanh(a); break;
    }
  }
}
Interval Function::eval(const IntervalVector& x) const {
  if (x.is_empty() || out_of_budget()) return kEmpty;
  std::vector<Interval> z;
  forward(x, &z);
  return z.back();
}
namespace {
// v^(1/c) for v >= 0, c > 0, outward
double root(double v, __float128 c, bool low) {
  if (v <= 0) return 0;
  if (v == 1 || std::isinf(v)) return v;
  const double y = (double)powq(v, 1 / c);
  return low ? std::max(0.0, dn(y)) : up(y);
}
Interval both(const Interval& x, const Interval& r) { return (x & r) | (x & -r); }
// the x with x^n in z, n > 0
Interval unpow(const Interval& x, const Interval& z0, int n) {
  if (n % 2 == 0) {
    const Interval z = z0 & Interval::POS_REALS;
    if (z.is_empty()) return z;
    return both(x, Interval(root(z.lb(), n, true), root(z.ub(), n, false)));
  }
  if (z0.is_empty()) return z0;
  auto r = [n](double v, bool low) { return v >= 0 ? root(v, n, low) : -root(-v, n, !low); };
  return x & Interval(r(z0.lb(), true), r(z0.ub(), false));
}
// the x with x * y = z for some y, z
Interval undo_mul(const Interval& x, const Interval& z, const Interval& y) {
  if (y.contains(0)) {
    if (z.contains(0)) return x;
    return (x & (z / (y & Interval(-kInf, 0)))) | (x & (z / (y & Interval(0, kInf))));
  }
  return x & (z / y);
}
double asinh_lo(double v) { return std::isinf(v) ? v : lo2(lo2(std::asinh(v))); }
double asinh_hi(double v) { return std::isinf(v) ? v : hi2(hi2(std::asinh(v))); }
}  // namespace
bool Function::backward(const Interval& y, IntervalVector& x) const {
  if (x.is_empty()) return true;
  if (out_of_budget()) { x.set_empty(); return false; }
  std::vector<Interval> z;
  forward(x, &z);
  if (!z.back().is_empty() && z.back().is_subset(y)) return true;
  z.back() &= y;
  for (size_t k = code_.size(); k-- > 0;) {
    const Interval r = z[k];
    if (r.is_empty()) { x.set_empty(); return false; }
    const Ins& s = code_[k];
    if (s.op == Op::Sym) { x[s.var] &= r; if (x[s.var].is_empty()) { x.set_empty(); return false; } continue; }
    if (s.op == Op::Cst) continue;
    Interval none, &a = z[s.a], &b = s.b >= 0 ? z[s.b] : none;
    switch (s.op) {
      case Op::Add: a &= r - b; b &= r - a; break;
      case Op::Sub: a &= r + b; b &= a - r; break;
      case Op::Mul: a = undo_mul(a, r, b); b = undo_mul(b, r, a); break;
      case Op::Div: a &= r * b; b = undo_mul(b, a, r); break;
      case Op::Neg: a &= -r; break;
      case Op::Min:
        if (a.lb() > r.ub()) b &= r; else if (b.lb() > r.ub()) a &= r;
        a &= Interval(r.lb(), kInf); b &= Interval(r.lb(), kInf); break;
      case Op::Max:
        if (a.ub() < r.lb()) b &= r; else if (b.ub() < r.lb()) a &= r;
        a &= Interval(-kInf, r.ub()); b &= Interval(-kInf, r.ub()); break;
      case Op::PowI:
        if (s.n > 0) a = unpow(a, r, s.n);
        else if (s.n < 0 && s.n > -1000) {
          if (r.lb() > 0 || r.ub() < 0) a = unpow(a, Interval(1.0) / r, -s.n);
        }
        break;
      case Op::Sqr: a = unpow(a, r, 2); break;
      case Op::PowD: {
        const Interval p = r & Interval::POS_REALS;
        if (p.is_empty()) { a = p; break; }
        a &= Interval::POS_REALS;
        if (s.d > 0) a &= Interval(root(p.lb(), s.d, true), root(p.ub(), s.d, false));
        break;
      }
      case Op::Sqrt: { const Interval p = r & Interval::POS_REALS; a &= sqr(p); break; }
      case Op::Exp: a &= log(r); break;
      case Op::Log: a &= exp(r); break;
      case Op::Abs: { const Interval p = r & Interval::POS_REALS; a = p.is_empty() ? p : both(a, p); break; }
      case Op::Asin: a &= sin(r & Interval(-kPiHi / 2, kPiHi / 2)) & Interval(-1, 1); break;
      case Op::Acos: a &= cos(r & Interval(0, kPiHi)); break;
      case Op::Atan: { const Interval p = r & Interval(-1.57, 1.57); if (p == r) a &= tan(p); break; }
      case Op::Sinh: a &= Interval(asinh_lo(r.lb()), asinh_hi(r.ub())); break;
      case Op::Tanh: {
        const Interval p = r & Interval(-1, 1);
        if (p.is_empty()) { a = p; break; }
        a &= Interval(p.lb() <= -1 ? -kInf : lo2(lo2(std::atanh(p.lb()))), p.ub() >= 1 ? kInf : hi2(hi2(std::atanh(p.ub()))));
        break;
      }
      case Op::Cosh: {
        const Interval p = r & Interval(1, kInf);
        if (p.is_empty()) { a = p; break; }
        a = both(a, Interval(std::max(0.0, (double)acoshq(p.lb()) * (1 - 1e-15)), std::isinf(p.ub()) ? kInf : (double)acoshq(p.ub()) * (1 + 1e-15)));
        break;
      }
      default: break;  // trigonometric functions, atan2, general powers: no contraction
    }
    if (a.is_empty() || (s.b >= 0 && b.is_empty())) { x.set_empty(); return false; }
  }
  return false;
}

NumConstraint::NumConstraint(const Array<const ExprSymbol>& x, const ExprCtr& c) : f(x, c.e), op(c.op) {
  std::ostringstream os;
  os << c;
  text = os.str();
}
Interval NumConstraint::right_hand_side() const { return rhs_of(op); }
std::ostream& operator<<(std::ostream& os, const NumConstraint& c) { return os << c.text; }
System::System(const SystemFactory& f) : nb_ctr((int)f.ctrs.size()) {
  for (auto* c : f.ctrs) {
    fs.push_back(std::make_unique<Function>(f.vars, c->e, false));  // a program of its own
    rhs.push_back(rhs_of(c->op));
  }
}
void CtcPolytopeHull::contract(IntervalVector& box) {
  for (size_t i = 0; i < sys.fs.size() && !box.is_empty(); ++i) sys.fs[i]->backward(sys.rhs[i], box);
}
}  // namespace ibex
