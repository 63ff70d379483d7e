// Independent reference semantics: a small AST for real-valued expressions and
// formulas, evaluated in binary128 with a forward error bound (three-valued:
// defined / undefined / inconclusive).
#pragma once
#include <quadmath.h>

#include <cmath>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "common.h"

namespace vh {
typedef __float128 f128;

enum class K { Const, Var, Add, Sub, Mul, Div, Neg, Log, Abs, Exp, Sqrt, Pow, Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Sinh, Cosh, Tanh, Min, Max, Ite, Interval };
enum class FK { True, False, BVar, Eq, Neq, Gt, Geq, Lt, Leq, And, Or, Not, Imply, Iff, Xor, Forall };

struct R;
struct RF;
typedef std::shared_ptr<const R> RP;
typedef std::shared_ptr<const RF> RFP;

struct R {
  K k;
  double c = 0;   // Const; lower bound for Interval
  double c2 = 0;  // upper bound for Interval
  int var = -1;
  RP a, b;
  RFP cond;
  int size = 1;
};
struct RF {
  FK k;
  int var = -1;
  RP a, b;
  std::vector<RFP> ops;
  std::vector<int> qvars;  // Forall; -1-i stands for the Boolean variable i
  int size = 1;
};

inline RP rc(double c) { auto r = std::make_shared<R>(); r->k = K::Const; r->c = c; return r; }
inline RP rv(int i) { auto r = std::make_shared<R>(); r->k = K::Var; r->var = i; return r; }
inline RP r1(K k, RP a) { auto r = std::make_shared<R>(); r->k = k; r->size = 1 + a->size; r->a = std::move(a); return r; }
inline RP r2(K k, RP a, RP b) { auto r = std::make_shared<R>(); r->k = k; r->size = 1 + a->size + b->size; r->a = std::move(a); r->b = std::move(b); return r; }
inline RP rite(RFP c, RP a, RP b) { auto r = std::make_shared<R>(); r->k = K::Ite; r->size = 1 + c->size + a->size + b->size; r->cond = std::move(c); r->a = std::move(a); r->b = std::move(b); return r; }
inline RFP ft() { auto r = std::make_shared<RF>(); r->k = FK::True; return r; }
inline RFP ff() { auto r = std::make_shared<RF>(); r->k = FK::False; return r; }
inline RFP fbv(int i) { auto r = std::make_shared<RF>(); r->k = FK::BVar; r->var = i; return r; }
inline RFP frel(FK k, RP a, RP b) { auto r = std::make_shared<RF>(); r->k = k; r->size = 1 + a->size + b->size; r->a = std::move(a); r->b = std::move(b); return r; }
inline RFP fops(FK k, std::vector<RFP> o) { auto r = std::make_shared<RF>(); r->k = k; for (auto& x : o) r->size += x->size; r->ops = std::move(o); return r; }
inline RFP fnot(RFP f) { return fops(FK::Not, {std::move(f)}); }
inline RFP fforall(std::vector<int> q, RFP f) { auto r = std::make_shared<RF>(); r->k = FK::Forall; r->qvars = std::move(q); r->size = 1 + f->size; r->ops = {std::move(f)}; return r; }

// ---------- printing (harness notation) ----------
inline std::string dstr(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline const char* kname(K k) {
  switch (k) {
    case K::Const: return "const"; case K::Var: return "var"; case K::Add: return "+"; case K::Sub: return "-"; case K::Mul: return "*"; case K::Div: return "/";
    case K::Neg: return "neg"; case K::Log: return "log"; case K::Abs: return "abs"; case K::Exp: return "exp"; case K::Sqrt: return "sqrt"; case K::Pow: return "pow";
    case K::Sin: return "sin"; case K::Cos: return "cos"; case K::Tan: return "tan"; case K::Asin: return "asin"; case K::Acos: return "acos"; case K::Atan: return "atan";
    case K::Atan2: return "atan2"; case K::Sinh: return "sinh"; case K::Cosh: return "cosh"; case K::Tanh: return "tanh"; case K::Min: return "min"; case K::Max: return "max"; case K::Ite: return "ite";
    case K::Interval: return "interval";
  }
  return "?";
}
inline const char* fkname(FK k) {
  switch (k) {
    case FK::True: return "true"; case FK::False: return "false"; case FK::BVar: return "bvar"; case FK::Eq: return "="; case FK::Neq: return "!="; case FK::Gt: return ">"; case FK::Geq: return ">=";
    case FK::Lt: return "<"; case FK::Leq: return "<="; case FK::And: return "and"; case FK::Or: return "or"; case FK::Not: return "not"; case FK::Imply: return "=>"; case FK::Iff: return "iff"; case FK::Xor: return "xor"; case FK::Forall: return "forall";
  }
  return "?";
}
std::string str(const RP& r);
inline std::string str(const RFP& f) {
  switch (f->k) {
    case FK::True: return "true";
    case FK::False: return "false";
    case FK::BVar: return "b" + std::to_string(f->var);
    case FK::And: case FK::Or: case FK::Not: case FK::Imply: case FK::Iff: case FK::Xor: {
      std::string s = std::string("(") + fkname(f->k);
      for (auto& o : f->ops) s += " " + str(o);
      return s + ")";
    }
    case FK::Forall: {
      std::string s = "(forall (";
      for (int q : f->qvars) s += q >= 0 ? " v" + std::to_string(q) : " b" + std::to_string(-1 - q);
      return s + ") " + str(f->ops[0]) + ")";
    }
    default: return std::string("(") + fkname(f->k) + " " + str(f->a) + " " + str(f->b) + ")";
  }
}
inline std::string str(const RP& r) {
  switch (r->k) {
    case K::Const: return dstr(r->c);
    case K::Interval: return "[" + dstr(r->c) + "," + dstr(r->c2) + "]";
    case K::Var: return "v" + std::to_string(r->var);
    case K::Ite: return "(ite " + str(r->cond) + " " + str(r->a) + " " + str(r->b) + ")";
    default: {
      std::string s = std::string("(") + kname(r->k) + " " + str(r->a);
      if (r->b) s += " " + str(r->b);
      return s + ")";
    }
  }
}

// ---------- evaluation ----------
struct V {
  bool ok = false;    // has a value
  bool sure = false;  // if !ok: definitely undefined (else inconclusive)
  f128 v = 0;         // value
  f128 M = 0;         // magnitude: value with every term taken absolutely
  f128 e = 0;         // bound on the error of a double evaluation (any association)
  int lsb = -1;       // >=0: a multiple of 2^-lsb, all arithmetic exact so far
  bool exact() const { return lsb >= 0; }
};
enum class T3 { F, T, I };

struct Asg {               // assignment: indices -> values
  std::vector<double> x;   // arithmetic variables
  std::vector<char> b;     // Boolean variables
};

constexpr double EPS = 2.3e-16;
constexpr double SAFETY = 64;

inline V undef() { V r; r.sure = true; return r; }
inline V incon() { return V(); }
inline int lsb_of(double d) {
  if (d == 0) return 0;
  if (!std::isfinite(d)) return -1;
  int ex; double m = std::frexp(std::fabs(d), &ex);  // m in [0.5,1)
  int k = 53;
  uint64_t i = static_cast<uint64_t>(std::ldexp(m, 53));
  while (!(i & 1)) { i >>= 1; --k; }
  int l = k - ex;  // d = i * 2^(ex-k)
  return l < 0 ? 0 : l;
}
inline V fin(V r) {
  // Normalises: overflow/underflow territory and wild errors are inconclusive.
  f128 a = fabsq(r.v), M = r.M < a ? a : r.M;
  r.M = M;
  if (!(M < 1e120Q) || isnanq(r.v)) return incon();
  if (a != 0 && a < 1e-120Q) return incon();
  r.ok = true;
  if (r.lsb >= 0) {
    if (r.lsb > 40 || log2q(M + 1) + r.lsb > 50) { r.lsb = -1; r.e += EPS * M; }
    else r.e = 0;
  }
  return r;
}
inline V leaf(double d) {
  V r; r.v = d; r.M = fabsq(r.v); r.lsb = lsb_of(d); r.e = 0;
  if (!std::isfinite(d)) return incon();
  if (r.lsb > 40) r.lsb = -1;
  return fin(r);
}

struct Evaluator {
  const Asg& s;
  const std::vector<double>* grid = nullptr;  // values for quantified variables
  int qi = -1;        // variable with a binary128 value
  f128 qv = 0;
  mutable bool edge = false;  // pow with base exactly zero and a symbolic exponent was seen
  explicit Evaluator(const Asg& a) : s(a) {}

  V bad(const V& a, const V& b) const {
    // one of them not ok
    if ((!a.ok && a.sure) || (!b.ok && b.sure)) return undef();
    return incon();
  }
  static V mono(const V& a, f128 v, f128 deriv, f128 M = -1) {
    V r; r.v = v; r.M = M < 0 ? fabsq(v) : M;
    if (SAFETY * (a.e + EPS * a.M) > 1) return incon();
    r.e = deriv * (a.e + EPS * a.M) + EPS * (r.M < fabsq(v) ? fabsq(v) : r.M);
    r.lsb = -1;
    return fin(r);
  }
  V pw(const V& a, const V& b) const {
    if (!a.ok || !b.ok) return bad(a, b);
    const f128 ae = SAFETY * (a.e + (a.exact() ? 0 : EPS * a.M)), be = SAFETY * (b.e + (b.exact() ? 0 : EPS * b.M));
    const bool bint = b.exact() && floorq(b.v) == b.v;
    if (b.exact() && b.v == 0) {
      // x^0: 1 (also for 0 by convention)
      V r; r.v = 1; r.M = 1; r.lsb = 0; return fin(r);
    }
    if (a.exact() && a.v == 0) {
      if (b.v - be > 0) { V r; r.v = 0; r.M = powq(a.M, b.v); r.lsb = bint ? a.lsb * static_cast<int>(b.v < 40 ? b.v : 40) : -1; r.e = bint ? 0 : EPS * r.M; return fin(r); }
      if (b.v + be < 0) return undef();
      return incon();
    }
    if (!a.exact() && fabsq(a.v) <= ae) return incon();
    if (a.v < 0) {
      if (!bint) {
        if (b.exact()) return undef();
        return incon();
      }
    }
    f128 v = powq(a.v, b.v);
    if (isnanq(v) || isinfq(v)) return incon();
    V r; r.v = v;
    f128 av = fabsq(a.v);
    if (bint && b.v > 0) {
      r.M = powq(a.M < av ? av : a.M, b.v);
      f128 dm = b.v * powq(a.M < av ? av : a.M, b.v - 1);
      r.e = dm * a.e + 4 * b.v * EPS * r.M;
      if (a.exact() && b.v <= 40) { r.lsb = a.lsb * static_cast<int>(b.v); } else r.lsb = -1;
      return fin(r);
    }
    f128 relM = (a.M < av ? av : a.M) / av;
    f128 rel = fabsq(b.v) * (a.e / av + EPS * relM) + fabsq(logq(av)) * (b.e + EPS * b.M) + 4 * EPS;
    if (SAFETY * rel > 0.5Q) return incon();
    r.M = fabsq(v) * (1 + fabsq(b.v) * relM);
    r.e = fabsq(v) * rel;
    r.lsb = -1;
    return fin(r);
  }

  V ev(const RP& r) const {
    switch (r->k) {
      case K::Const: return leaf(r->c);
      case K::Interval: { V l = leaf(r->c); l.e += fabsq((f128)r->c2 - (f128)r->c); l.lsb = -1; l.v = ((f128)r->c + (f128)r->c2) / 2; return fin(l); }
      case K::Var: { if (r->var == qi) { V q; q.v = qv; q.M = fabsq(qv); q.lsb = -1; q.e = 0; return fin(q); } return leaf(s.x[r->var]); }
      case K::Add: case K::Sub: {
        V a = ev(r->a), b = ev(r->b);
        if (!a.ok || !b.ok) return bad(a, b);
        V x; x.v = r->k == K::Add ? a.v + b.v : a.v - b.v; x.M = a.M + b.M; x.e = a.e + b.e;
        if (a.exact() && b.exact()) x.lsb = std::max(a.lsb, b.lsb); else { x.lsb = -1; x.e += EPS * x.M; }
        return fin(x);
      }
      case K::Mul: {
        V a = ev(r->a), b = ev(r->b);
        if (!a.ok || !b.ok) return bad(a, b);
        V x; x.v = a.v * b.v; x.M = a.M * b.M; x.e = a.M * b.e + b.M * a.e + a.e * b.e;
        if (a.exact() && b.exact()) x.lsb = a.lsb + b.lsb; else { x.lsb = -1; x.e += EPS * x.M; }
        return fin(x);
      }
      case K::Div: {
        V a = ev(r->a), b = ev(r->b);
        if (b.ok && b.exact() && b.v == 0) return undef();
        if (!a.ok || !b.ok) return bad(a, b);
        f128 bm = SAFETY * (b.e + (b.exact() ? 0 : EPS * b.M));
        if (b.exact() ? b.v == 0 : fabsq(b.v) <= bm) return incon();
        f128 bv = fabsq(b.v);
        V x; x.v = a.v / b.v; x.M = a.M / bv * (b.M / bv);
        x.e = a.e / bv + a.M / bv * (b.e / bv) * 2 + EPS * x.M;
        x.lsb = -1;
        return fin(x);
      }
      case K::Neg: { V a = ev(r->a); if (!a.ok) return a; a.v = -a.v; return a; }
      case K::Log: {
        V a = ev(r->a); if (!a.ok) return a;
        f128 m = SAFETY * (a.e + (a.exact() ? 0 : EPS * a.M));
        if (a.v + m < 0 || (a.exact() && a.v <= 0)) return undef();
        if (a.v - m <= 0) return incon();
        return mono(a, logq(a.v), 1 / a.v, fabsq(logq(a.v)) + 1e-10Q);
      }
      case K::Abs: { V a = ev(r->a); if (!a.ok) return a; a.v = fabsq(a.v); return a; }
      case K::Exp: { V a = ev(r->a); if (!a.ok) return a; if (fabsq(a.v) > 200) return incon(); return mono(a, expq(a.v), expq(a.v) * 2, expq(a.v) * (1 + a.M)); }
      case K::Sqrt: {
        V a = ev(r->a); if (!a.ok) return a;
        f128 m = SAFETY * (a.e + (a.exact() ? 0 : EPS * a.M));
        if (a.exact() && a.v == 0) return a;
        if (a.v + m < 0 || (a.exact() && a.v < 0)) return undef();
        if (a.v - m <= 0) return incon();
        return mono(a, sqrtq(a.v), 1 / sqrtq(a.v), sqrtq(a.M));
      }
      case K::Pow: { V a = ev(r->a), b = ev(r->b); if (a.ok && a.v == 0 && r->b->k != K::Const) edge = true; return pw(a, b); }
      case K::Sin: { V a = ev(r->a); if (!a.ok) return a; return mono(a, sinq(a.v), 1, 1); }
      case K::Cos: { V a = ev(r->a); if (!a.ok) return a; return mono(a, cosq(a.v), 1, 1); }
      case K::Tan: { V a = ev(r->a); if (!a.ok) return a; f128 t = tanq(a.v); f128 c = fabsq(cosq(a.v)); if (c < 1e-6Q || c <= SAFETY * (a.e + EPS * a.M) * 4) return incon(); return mono(a, t, 2 / (c * c), 1 / (c * c)); }
      case K::Asin: case K::Acos: {
        V a = ev(r->a); if (!a.ok) return a;
        f128 m = SAFETY * (a.e + (a.exact() ? 0 : EPS * a.M));
        f128 av = fabsq(a.v);
        if (av - m > 1) return undef();
        f128 v = r->k == K::Asin ? asinq(a.v) : acosq(a.v);
        if (a.exact() && av == 1) return mono(a, v, 1, 4);
        if (av + m >= 1 || 1 - av < 1e-9Q) return incon();
        return mono(a, v, 2 / sqrtq(1 - av * av), 4);
      }
      case K::Atan: { V a = ev(r->a); if (!a.ok) return a; return mono(a, atanq(a.v), 1, 2); }
      case K::Atan2: {
        V y = ev(r->a), x = ev(r->b);
        if (!x.ok || !y.ok) return bad(x, y);
        f128 my = SAFETY * (y.e + (y.exact() ? 0 : EPS * y.M)), mx = SAFETY * (x.e + (x.exact() ? 0 : EPS * x.M));
        f128 d = x.v * x.v + y.v * y.v;
        if (fabsq(y.v) <= my && x.v <= mx) return incon();
        if (d < 1e-30Q || sqrtq(d) <= 4 * (mx + my)) return incon();
        V r2; r2.v = atan2q(y.v, x.v); r2.M = 4;
        r2.e = 4 * ((fabsq(x.v) + sqrtq(d)) * (y.e + EPS * y.M) + (fabsq(y.v) + sqrtq(d)) * (x.e + EPS * x.M)) / d + 4 * EPS; r2.lsb = -1;
        return fin(r2);
      }
      case K::Sinh: { V a = ev(r->a); if (!a.ok) return a; if (fabsq(a.v) > 200) return incon(); return mono(a, sinhq(a.v), 2 * coshq(a.v), coshq(a.v) * (1 + a.M)); }
      case K::Cosh: { V a = ev(r->a); if (!a.ok) return a; if (fabsq(a.v) > 200) return incon(); return mono(a, coshq(a.v), 2 * coshq(a.v), coshq(a.v) * (1 + a.M)); }
      case K::Tanh: { V a = ev(r->a); if (!a.ok) return a; return mono(a, tanhq(a.v), 1, 1); }
      case K::Min: case K::Max: {
        V a = ev(r->a), b = ev(r->b);
        if (!a.ok || !b.ok) return bad(a, b);
        bool first = r->k == K::Min ? a.v <= b.v : a.v >= b.v;
        V x = first ? a : b;
        x.M = std::max(a.M, b.M); x.e = std::max(a.e, b.e);
        if (a.exact() && b.exact()) x.lsb = std::max(a.lsb, b.lsb); else { if (x.lsb >= 0) x.lsb = -1; x.e += EPS * x.M; }
        return fin(x);
      }
      case K::Ite: {
        T3 c = fv(r->cond);
        V a = ev(r->a), b = ev(r->b);
        if (strict_ite) { if (!a.ok || !b.ok) return bad(a, b); }
        if (c == T3::I) return incon();
        return c == T3::T ? a : b;
      }
    }
    return incon();
  }
  bool strict_ite = true;

  T3 fv(const RFP& f) const {
    switch (f->k) {
      case FK::True: return T3::T;
      case FK::False: return T3::F;
      case FK::BVar: return s.b[f->var] ? T3::T : T3::F;
      case FK::Not: { T3 a = fv(f->ops[0]); return a == T3::I ? T3::I : (a == T3::T ? T3::F : T3::T); }
      case FK::And: { bool inc = false; bool isf = false; for (auto& o : f->ops) { T3 a = fv(o); if (a == T3::I) inc = true; if (a == T3::F) isf = true; } return inc ? T3::I : (isf ? T3::F : T3::T); }
      case FK::Or: { bool inc = false; bool ist = false; for (auto& o : f->ops) { T3 a = fv(o); if (a == T3::I) inc = true; if (a == T3::T) ist = true; } return inc ? T3::I : (ist ? T3::T : T3::F); }
      case FK::Imply: { T3 a = fv(f->ops[0]), b = fv(f->ops[1]); if (a == T3::I || b == T3::I) return T3::I; return (a == T3::F || b == T3::T) ? T3::T : T3::F; }
      case FK::Iff: { T3 a = fv(f->ops[0]), b = fv(f->ops[1]); if (a == T3::I || b == T3::I) return T3::I; return a == b ? T3::T : T3::F; }
      case FK::Xor: { T3 a = fv(f->ops[0]), b = fv(f->ops[1]); if (a == T3::I || b == T3::I) return T3::I; return a != b ? T3::T : T3::F; }
      case FK::Forall: {
        if (!grid) return T3::I;
        Asg t = s; bool inc = false;
        return forall_rec(f, 0, t, inc);
      }
      default: {
        V a = ev(f->a), b = ev(f->b);
        if (!a.ok || !b.ok) return T3::I;
        f128 d = a.v - b.v;
        if (!(a.exact() && b.exact())) {
          f128 m = SAFETY * (a.e + b.e + EPS * (a.M + b.M));
          if (fabsq(d) <= m) return T3::I;
        }
        bool r = false;
        switch (f->k) {
          case FK::Eq: r = d == 0; break; case FK::Neq: r = d != 0; break; case FK::Gt: r = d > 0; break;
          case FK::Geq: r = d >= 0; break; case FK::Lt: r = d < 0; break; case FK::Leq: r = d <= 0; break; default: break;
        }
        return r ? T3::T : T3::F;
      }
    }
  }
  T3 forall_rec(const RFP& f, size_t i, Asg& t, bool& inc) const {
    if (i == f->qvars.size()) { Evaluator e(t); e.grid = grid; e.strict_ite = strict_ite; return e.fv(f->ops[0]); }
    bool any_i = false;
    static const std::vector<double> bools{0, 1};
    for (double g : f->qvars[i] >= 0 ? *grid : bools) {
      if (f->qvars[i] >= 0) t.x[f->qvars[i]] = g;
      else t.b[-1 - f->qvars[i]] = g != 0;
      T3 r = forall_rec(f, i + 1, t, inc);
      if (r == T3::F) return T3::F;
      if (r == T3::I) any_i = true;
    }
    return any_i ? T3::I : T3::T;
  }
};

// Does a double result d agree with the reference value?
inline bool agrees(const V& r, double d, f128 extra = 0) {
  if (!r.ok) return true;
  if (std::isnan(d) || std::isinf(d)) return false;
  if (r.exact() && extra == 0) return static_cast<f128>(d) == r.v;
  f128 tol = SAFETY * (r.e + EPS * r.M) + extra + 1e-300Q;
  return fabsq(static_cast<f128>(d) - r.v) <= tol;
}
inline bool informative(const V& r) { return r.ok && (r.exact() || SAFETY * r.e < 1e-3Q * (1 + fabsq(r.v))); }
inline std::string vstr(const V& r) {
  if (!r.ok) return r.sure ? "undefined" : "inconclusive";
  return dstr((double)r.v) + " (+-" + dstr((double)(SAFETY * (r.e + EPS * r.M))) + (r.exact() ? ", exact)" : ")");
}
inline std::string astr(const Asg& a) {
  std::string s = "{";
  for (size_t i = 0; i < a.x.size(); ++i) s += (i ? ", v" : "v") + std::to_string(i) + "=" + dstr(a.x[i]);
  for (size_t i = 0; i < a.b.size(); ++i) s += std::string(", b") + std::to_string(i) + "=" + (a.b[i] ? "1" : "0");
  return s + "}";
}
}  // namespace vh
