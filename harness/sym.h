// Bridge between the reference AST and dreal's symbolic library + generators.
#pragma once
#include <limits>
#include <memory>
#include <unordered_map>

#include "dreal/symbolic/symbolic.h"
#include "ref.h"

namespace vh {
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using dreal::Variables;
using dreal::Environment;
using dreal::ExpressionKind;
using dreal::FormulaKind;
using dreal::ExpressionSubstitution;
using dreal::FormulaSubstitution;

// Pool of variables shared by a case: arithmetic x[i], Boolean b[i].
struct Pool {
  std::vector<Variable> x, b;
  std::unordered_map<Variable::Id, int> xi, bi;
  Pool(int nx, int nb, int ints = 0) {
    static const Variable::Type kT[] = {Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::CONTINUOUS, Variable::Type::BINARY};
    static const char* names[] = {"x", "y", "z", "w", "u", "v", "t", "s"};
    for (int i = 0; i < nx; ++i) {
      std::string n = i < 8 ? names[i] : "x" + std::to_string(i);
      add_x(Variable(n, ints ? kT[(i + 3 * ints) % 4] : Variable::Type::CONTINUOUS));
    }
    for (int i = 0; i < nb; ++i) { Variable v("b" + std::to_string(i), Variable::Type::BOOLEAN); bi[v.get_id()] = i; b.push_back(v); }
  }
  int add_x(const Variable& v) { xi[v.get_id()] = (int)x.size(); x.push_back(v); return (int)x.size() - 1; }
  int add_b(const Variable& v) { bi[v.get_id()] = (int)b.size(); b.push_back(v); return (int)b.size() - 1; }
  Environment env(const Asg& a) const {
    Environment::map m;
    for (size_t i = 0; i < x.size() && i < a.x.size(); ++i) m.emplace(x[i], a.x[i]);
    for (size_t i = 0; i < b.size() && i < a.b.size(); ++i) m.emplace(b[i], a.b[i] ? 1.0 : 0.0);
    return Environment(m);
  }
};

// ---------- drake object -> reference AST through the public accessors ----------
RFP to_ref(const Formula& f, const Pool& p);
inline RP to_ref(const Expression& e, const Pool& p) {
  using namespace dreal;
  switch (e.get_kind()) {
    case ExpressionKind::Constant: return rc(get_constant_value(e));
    case ExpressionKind::RealConstant: { auto r = std::make_shared<R>(); r->k = K::Interval; r->c = get_lb_of_real_constant(e); r->c2 = get_ub_of_real_constant(e); return r; }
    case ExpressionKind::Var: return rv(p.xi.at(get_variable(e).get_id()));
    case ExpressionKind::Add: {
      RP r = rc(get_constant_in_addition(e));
      for (const auto& q : get_expr_to_coeff_map_in_addition(e)) r = r2(K::Add, r, r2(K::Mul, rc(q.second), to_ref(q.first, p)));
      return r;
    }
    case ExpressionKind::Mul: {
      RP r = rc(get_constant_in_multiplication(e));
      for (const auto& q : get_base_to_exponent_map_in_multiplication(e)) {
        if (is_constant(q.second) && get_constant_value(q.second) == 1.0) r = r2(K::Mul, r, to_ref(q.first, p));
        else r = r2(K::Mul, r, r2(K::Pow, to_ref(q.first, p), to_ref(q.second, p)));
      }
      return r;
    }
    case ExpressionKind::Div: return r2(K::Div, to_ref(get_first_argument(e), p), to_ref(get_second_argument(e), p));
    case ExpressionKind::Log: return r1(K::Log, to_ref(get_argument(e), p));
    case ExpressionKind::Abs: return r1(K::Abs, to_ref(get_argument(e), p));
    case ExpressionKind::Exp: return r1(K::Exp, to_ref(get_argument(e), p));
    case ExpressionKind::Sqrt: return r1(K::Sqrt, to_ref(get_argument(e), p));
    case ExpressionKind::Pow: return r2(K::Pow, to_ref(get_first_argument(e), p), to_ref(get_second_argument(e), p));
    case ExpressionKind::Sin: return r1(K::Sin, to_ref(get_argument(e), p));
    case ExpressionKind::Cos: return r1(K::Cos, to_ref(get_argument(e), p));
    case ExpressionKind::Tan: return r1(K::Tan, to_ref(get_argument(e), p));
    case ExpressionKind::Asin: return r1(K::Asin, to_ref(get_argument(e), p));
    case ExpressionKind::Acos: return r1(K::Acos, to_ref(get_argument(e), p));
    case ExpressionKind::Atan: return r1(K::Atan, to_ref(get_argument(e), p));
    case ExpressionKind::Atan2: return r2(K::Atan2, to_ref(get_first_argument(e), p), to_ref(get_second_argument(e), p));
    case ExpressionKind::Sinh: return r1(K::Sinh, to_ref(get_argument(e), p));
    case ExpressionKind::Cosh: return r1(K::Cosh, to_ref(get_argument(e), p));
    case ExpressionKind::Tanh: return r1(K::Tanh, to_ref(get_argument(e), p));
    case ExpressionKind::Min: return r2(K::Min, to_ref(get_first_argument(e), p), to_ref(get_second_argument(e), p));
    case ExpressionKind::Max: return r2(K::Max, to_ref(get_first_argument(e), p), to_ref(get_second_argument(e), p));
    case ExpressionKind::IfThenElse: return rite(to_ref(get_conditional_formula(e), p), to_ref(get_then_expression(e), p), to_ref(get_else_expression(e), p));
    default: break;
  }
  throw std::runtime_error("to_ref: unsupported expression kind");
}
inline RFP to_ref(const Formula& f, const Pool& p) {
  using namespace dreal;
  auto rel = [&](FK k) { return frel(k, to_ref(get_lhs_expression(f), p), to_ref(get_rhs_expression(f), p)); };
  switch (f.get_kind()) {
    case FormulaKind::True: return ft();
    case FormulaKind::False: return ff();
    case FormulaKind::Var: return fbv(p.bi.at(get_variable(f).get_id()));
    case FormulaKind::Eq: return rel(FK::Eq);
    case FormulaKind::Neq: return rel(FK::Neq);
    case FormulaKind::Gt: return rel(FK::Gt);
    case FormulaKind::Geq: return rel(FK::Geq);
    case FormulaKind::Lt: return rel(FK::Lt);
    case FormulaKind::Leq: return rel(FK::Leq);
    case FormulaKind::And: case FormulaKind::Or: {
      std::vector<RFP> o;
      for (const auto& g : get_operands(f)) o.push_back(to_ref(g, p));
      return fops(f.get_kind() == FormulaKind::And ? FK::And : FK::Or, o);
    }
    case FormulaKind::Not: return fnot(to_ref(get_operand(f), p));
    case FormulaKind::Forall: {
      std::vector<int> q;
      for (const auto& v : get_quantified_variables(f)) q.push_back(v.get_type() == Variable::Type::BOOLEAN ? -1 - p.bi.at(v.get_id()) : p.xi.at(v.get_id()));
      return fforall(q, to_ref(get_quantified_formula(f), p));
    }
  }
  throw std::runtime_error("to_ref: unsupported formula kind");
}

// ---------- generators of reference ASTs ----------
struct GenOpt {
  bool funcs = true;      // elementary functions
  bool domain = true;     // log sqrt pow asin acos
  bool ite = true;
  bool minmax = true;
  bool div = true;
  bool smooth = false;    // differentiable operations only
  bool poly = false;      // + - * and natural powers only
  bool symexp = true;     // symbolic exponents
  bool neq = true;
  bool forall = false;
  double intervals = 0;   // probability of an interval constant among the constants
  double fancy = 0;       // probability of Pi and E among the constants
};
struct Gen {
  Rng& r;
  int nx, nb;
  GenOpt o;
  RP last_a, last_b;
  std::vector<RP> bag;    // sub-terms to reuse (sharing, like terms)
  Gen(Rng& rng, int nx_, int nb_, GenOpt opt = GenOpt()) : r(rng), nx(nx_), nb(nb_), o(opt) {}

  double cst() {
    static const std::vector<double> small{0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, 1.5, 4, 5, 10, 0.25, -7};
    static const std::vector<double> odd{0.1, -0.3, 1.0 / 3, 3.14159, 1e-3, 1e3, 2.718281828459045, 123.456, -1e-2, 1e10, 7e-9, -0.0};
    if (r.chance(0.8)) return r.pick(small);
    if (r.chance(0.7)) return r.pick(odd);
    return r.uni(-5, 5);
  }
  double expo() {
    static const std::vector<double> e{2, 2, 3, 4, 1, 0, -1, -2, -3, 0.5, -0.5, 1.5, 2.5, 1.0 / 3, 0.25, 6};
    static const std::vector<double> n{0, 1, 2, 2, 3, 3, 4, 5};
    return o.poly ? r.pick(n) : r.pick(e);
  }
  RP atom() {
    if (r.chance(0.7)) return rv(r.below(nx));
    if (o.intervals > 0 && r.chance(o.intervals)) { auto q = std::make_shared<R>(); q->k = K::Interval; q->c = r.uni(-4, 4); q->c2 = std::nextafter(q->c, 1e9); return q; }
    return rc(o.poly ? (double)r.range(-3, 3) : cst());
  }
  RP expr(int depth) {
    if (!bag.empty() && r.chance(0.25)) return r.pick(bag);
    RP e = expr0(depth);
    if (bag.size() < 12 && e->size > 1 && e->size < 12) bag.push_back(e);
    return e;
  }
  RP expr0(int depth) {
    if (depth <= 0 || r.chance(0.12)) return atom();
    int w = r.below(100);
    if (w < 26) return r2(K::Add, expr(depth - 1), expr(depth - 1));
    if (w < 36) return r2(K::Sub, expr(depth - 1), expr(depth - 1));
    if (w < 58) return r2(K::Mul, expr(depth - 1), expr(depth - 1));
    if (w < 62) return r1(K::Neg, expr(depth - 1));
    if (o.poly) {
      if (w < 80) return r2(K::Pow, expr(depth - 1), rc(expo()));
      return r2(K::Mul, expr(depth - 1), expr(depth - 1));
    }
    if (w < 68) return o.div ? r2(K::Div, expr(depth - 1), expr(depth - 1)) : atom();
    if (w < 78) {
      if (!o.domain) return r2(K::Pow, expr(depth - 1), rc(r.range(0, 3)));
      if (o.symexp && r.chance(0.1)) return r2(K::Mul, r2(K::Pow, r.chance(0.7) ? rc(r.pick(std::vector<double>{2, 0.5, 3, 10})) : expr(depth - 1), expr(depth - 1)), expr(depth - 1));
      if (o.symexp && r.chance(0.2)) return r2(K::Pow, expr(depth - 1), expr(depth - 1));
      return r2(K::Pow, expr(depth - 1), rc(expo()));
    }
    if (w < 83 && o.minmax && !o.smooth) return r2(r.chance(0.5) ? K::Min : K::Max, expr(depth - 1), expr(depth - 1));
    if (w < 87 && o.ite && !o.smooth) return rite(form(1, 2), expr(depth - 1), expr(depth - 1));
    if (w < 98 && o.funcs) {
      static const std::vector<K> total{K::Exp, K::Sin, K::Cos, K::Tan, K::Atan, K::Sinh, K::Cosh, K::Tanh, K::Abs};
      static const std::vector<K> part{K::Log, K::Sqrt, K::Sqrt, K::Asin, K::Acos, K::Atan2};
      K k = (o.domain && r.chance(0.45)) ? r.pick(part) : r.pick(total);
      if (k == K::Atan2) return r2(k, expr(depth - 1), expr(depth - 1));
      return r1(k, expr(depth - 1));
    }
    return r2(K::Add, expr(depth - 1), expr(depth - 1));
  }
  // one operation of another on leaves: every rewriting rule sees its pattern often
  RP leaf() {
    int w = r.below(20);
    if (w < 11) return rv(r.below(nx));
    if (w < 13 && o.ite && !o.smooth) return rite(frel(r.chance(0.5) ? FK::Gt : FK::Leq, rv(r.below(nx)), rc(0)), r.chance(0.5) ? rv(r.below(nx)) : rc(cst()), rc(r.range(-2, 3)));
    if (w < 16) return rc((double)r.range(-2, 3));
    return atom();
  }
  RP op(const RP& a, const RP& b) {
    static const std::vector<double> e{2, 2, 3, 4, 6, -1, -2, -3, 0.5, 1.5, -0.5, 0.25, 1.0 / 3, 5, 8};
    int w = r.below(o.poly ? 12 : o.funcs ? 30 : 22);
    if (w < 2) return r2(K::Add, a, b);
    if (w < 4) return r2(K::Sub, a, b);
    if (w < 7) return r2(K::Mul, a, b);
    if (w < 8) return r1(K::Neg, a);
    if (w < 12) return r2(K::Pow, a, rc(o.poly || !o.domain ? (double)r.range(1, 4) : r.pick(e)));
    if (w < 14) return o.div ? r2(K::Div, a, b) : r2(K::Mul, a, b);
    if (w < 16) return o.symexp && o.domain ? r2(K::Pow, a, b) : r2(K::Mul, a, b);
    if (w < 18) return o.minmax && !o.smooth ? r2(r.chance(0.5) ? K::Min : K::Max, a, b) : r2(K::Add, a, b);
    if (w < 20) return o.ite && !o.smooth ? rite(frel(FK::Gt, r.chance(0.5) ? a : rv(r.below(nx)), rc(0)), a, b) : r2(K::Sub, a, b);
    if (w < 22) return r2(K::Mul, rc(cst()), a);
    static const std::vector<K> total{K::Exp, K::Sin, K::Cos, K::Tan, K::Atan, K::Sinh, K::Cosh, K::Tanh};
    static const std::vector<K> part{K::Log, K::Sqrt, K::Sqrt, K::Asin, K::Acos, K::Atan2};
    if (w < 26 && o.domain) { K k = r.pick(part); return k == K::Atan2 ? r2(k, a, b) : r1(k, a); }
    if (w < 27 && !o.smooth) return r1(K::Abs, a);
    return r1(r.pick(total), a);
  }
  RP tiny() {
    RP x = op(leaf(), leaf()), y = r.chance(0.5) ? leaf() : r.chance(0.2) ? x : op(leaf(), leaf());
    RP z = r.chance(0.7) ? op(x, y) : op(y, x);
    if (r.chance(0.3)) z = r.chance(0.5) ? op(z, leaf()) : op(leaf(), z);
    return z;
  }
  // the i-th operation applied to a: all unary ones, powers, and binary ones with a constant, a variable, or a itself
  static const int kOps = 68;
  static RP nth(int i, const RP& a, const RP& y) {
    static const std::vector<K> un{K::Neg, K::Log, K::Abs, K::Exp, K::Sqrt, K::Sin, K::Cos, K::Tan, K::Asin, K::Acos, K::Atan, K::Sinh, K::Cosh, K::Tanh};
    static const std::vector<double> e{0, 1, 2, 3, 4, 5, 6, 8, -1, -2, -3, 0.5, 1.5, -0.5, 1.0 / 3, 0.25};
    static const std::vector<K> bin{K::Add, K::Sub, K::Mul, K::Div, K::Pow, K::Min, K::Max, K::Atan2};
    if (i < 14) return r1(un[i], a);
    if ((i -= 14) < 16) return r2(K::Pow, a, rc(e[i]));
    i -= 16;
    const K k = bin[i % 8];
    switch (i / 8) {
      case 0: return r2(k, a, y);
      case 1: return r2(k, y, a);
      case 2: return r2(k, a, a);
      case 3: return r2(k, a, rc(i % 8 < 2 ? 1.5 : i % 8 == 2 ? -2 : 0.5));
    }
    switch (i - 32) {
      case 0: return r2(K::Mul, rc(-1), a);
      case 1: return r2(K::Div, rc(3), a);
      case 2: return r2(K::Pow, rc(2), a);
      case 3: return rite(frel(FK::Gt, a, rc(0)), a, y);
      case 4: return rite(frel(FK::Leq, y, rc(0)), y, a);
      default: return r2(K::Mul, r2(K::Pow, y, rc(2)), a);
    }
  }
  static RP combo(uint64_t i) { RP x = rv(0), y = rv(1); return nth((i / kOps) % kOps, nth(i % kOps, x, y), y); }
  // comparison over expressions of depth d
  RFP rel(int d) {
    static const std::vector<FK> rels{FK::Eq, FK::Neq, FK::Gt, FK::Geq, FK::Lt, FK::Leq};
    FK k = r.pick(rels);
    // the two sides of an earlier comparison again, in either order: complements and mirror images meet
    if (last_a && last_a->size <= 12 && r.chance(0.15)) return r.chance(0.5) ? frel(k, last_a, last_b) : frel(k, last_b, last_a);
    if (r.chance(0.5) || !last_a) { RP a = expr(d), b = r.chance(0.5) ? rc((double)r.range(-3, 3)) : expr(d); last_a = a; last_b = b; return frel(k, a, b); }
    return frel(k, expr(d), r.chance(0.5) ? rc((double)r.range(-3, 3)) : expr(d));
  }
  RFP form(int depth, int edepth) {
    if (depth <= 0 || r.chance(0.1)) {
      int w = r.below(20);
      if (w == 0) return ft();
      if (w == 1) return ff();
      if (w < 8 && nb > 0) return fbv(r.below(nb));
      return rel(r.below(edepth + 1));
    }
    switch (r.below(9)) {
      case 0: case 1: case 2: { int n = r.range(2, 4); std::vector<RFP> v; for (int i = 0; i < n; ++i) v.push_back(form(depth - 1, edepth)); return fops(FK::And, v); }
      case 3: case 4: case 5: { int n = r.range(2, 4); std::vector<RFP> v; for (int i = 0; i < n; ++i) v.push_back(form(depth - 1, edepth)); return fops(FK::Or, v); }
      case 6: return fnot(form(depth - 1, edepth));
      case 7: return fops(r.chance(0.5) ? FK::Imply : FK::Iff, {form(depth - 1, edepth), form(depth - 1, edepth)});
      default: return fnot(form(depth - 1, edepth));
    }
  }
  double val() {
    static const std::vector<double> sp{0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 0.25, 4};
    double u = r.unit();
    if (u < 0.5) return r.pick(sp);
    if (u < 0.75) return r.uni(0.05, 4);
    if (u < 0.95) return r.uni(-4, 4);
    return r.uni(-40, 40);
  }
  Asg asg() {
    Asg a;
    bool ints = r.chance(0.3);
    for (int i = 0; i < nx; ++i) a.x.push_back(ints ? (double)r.range(-3, 4) : val());
    for (int i = 0; i < nb; ++i) a.b.push_back(r.chance(0.5));
    return a;
  }
};

// ---------- reference AST -> drake objects, in varied API forms ----------
struct Builder {
  const Pool& p;
  Rng* r;  // nullptr: canonical forms only
  std::unordered_map<const void*, Expression> memo;
  explicit Builder(const Pool& pool, Rng* rng = nullptr) : p(pool), r(rng) {}
  int pick(int n) { return r ? r->below(n) : 0; }

  Expression operator()(const RP& t) {
    if (t->size > 1) {
      auto it = memo.find(t.get());
      if (it != memo.end() && pick(3) != 1) return it->second;   // share structure
    }
    Expression e = build(t);
    if (t->size > 1 && pick(2) == 0) memo[t.get()] = e;
    return e;
  }
  Expression build(const RP& t) {
    using namespace dreal;
    switch (t->k) {
      case K::Const: return Expression(t->c);
      case K::Interval: return real_constant(t->c, t->c2, pick(2) == 0);
      case K::Var: if (pick(5) == 1) return +p.x[t->var]; if (pick(5) == 1) return +Expression(p.x[t->var]); return Expression(p.x[t->var]);
      case K::Add: {
        if (t->b->k == K::Const && t->b->c == 1.0 && pick(3) == 1) { Expression e = (*this)(t->a); switch (pick(4)) { case 0: ++e; return e; case 1: return ++e; case 2: { Expression f = e; f++; return f; } default: { Expression f = e; Expression old = f++; return old + 1.0; } } }
        switch (pick(7)) {
          case 0: { Expression a = (*this)(t->a), b = (*this)(t->b); return a + b; }
          case 1: { Expression b = (*this)(t->b); return (*this)(t->a) + b; }
          case 2: { Expression a = (*this)(t->a); return a + (*this)(t->b); }
          case 3: { return (*this)(t->a) + (*this)(t->b); }
          case 4: { if (t->a == t->b && pick(2)) { Expression a = (*this)(t->a); a += a; return a; } Expression a = (*this)(t->a), b = (*this)(t->b); a += b; return a; }
          case 5: { Expression a = (*this)(t->a), b = (*this)(t->b); return std::move(a) + std::move(b); }
          default: { std::vector<Expression> v; flat(t, K::Add, v); return Sum(v); }
        }
      }
      case K::Sub: {
        if (t->b->k == K::Const && t->b->c == 1.0 && pick(3) == 1) { Expression e = (*this)(t->a); switch (pick(4)) { case 0: --e; return e; case 1: return --e; case 2: { Expression f = e; f--; return f; } default: { Expression f = e; Expression old = f--; return old - 1.0; } } }
        switch (pick(6)) {
          case 0: { Expression a = (*this)(t->a), b = (*this)(t->b); return a - b; }
          case 1: { Expression b = (*this)(t->b); return (*this)(t->a) - b; }
          case 2: { Expression a = (*this)(t->a); return a - (*this)(t->b); }
          case 3: { return (*this)(t->a) - (*this)(t->b); }
          case 4: { if (t->a == t->b && pick(2)) { Expression a = (*this)(t->a); a -= a; return a; } Expression a = (*this)(t->a), b = (*this)(t->b); a -= b; return a; }
          default: { Expression a = (*this)(t->a), b = (*this)(t->b); return std::move(a) - std::move(b); }
        }
      }
      case K::Mul: {
        switch (pick(7)) {
          case 0: { Expression a = (*this)(t->a), b = (*this)(t->b); return a * b; }
          case 1: { Expression b = (*this)(t->b); return (*this)(t->a) * b; }
          case 2: { Expression a = (*this)(t->a); return a * (*this)(t->b); }
          case 3: { return (*this)(t->a) * (*this)(t->b); }
          case 4: { if (t->a == t->b && pick(2)) { Expression a = (*this)(t->a); a *= a; return a; } Expression a = (*this)(t->a), b = (*this)(t->b); a *= b; return a; }
          case 5: { Expression a = (*this)(t->a), b = (*this)(t->b); return std::move(a) * std::move(b); }
          default: { std::vector<Expression> v; flat(t, K::Mul, v); return Prod(v); }
        }
      }
      case K::Div: {
        switch (pick(3)) {
          case 0: { Expression a = (*this)(t->a), b = (*this)(t->b); return a / b; }
          case 1: { if (t->a == t->b && pick(2)) { Expression a = (*this)(t->a); a /= a; return a; } Expression a = (*this)(t->a), b = (*this)(t->b); a /= b; return a; }
          default: { Expression b = (*this)(t->b); return (*this)(t->a) / b; }
        }
      }
      case K::Neg: { if (t->a->k == K::Var && pick(2)) return -p.x[t->a->var]; if (pick(2)) { Expression a = (*this)(t->a); return -a; } return -(*this)(t->a); }
      case K::Log: return log((*this)(t->a));
      case K::Abs: return abs((*this)(t->a));
      case K::Exp: return exp((*this)(t->a));
      case K::Sqrt: return sqrt((*this)(t->a));
      case K::Pow: { Expression a = (*this)(t->a), b = (*this)(t->b); return pow(a, b); }
      case K::Sin: return sin((*this)(t->a));
      case K::Cos: return cos((*this)(t->a));
      case K::Tan: return tan((*this)(t->a));
      case K::Asin: return asin((*this)(t->a));
      case K::Acos: return acos((*this)(t->a));
      case K::Atan: return atan((*this)(t->a));
      case K::Atan2: { Expression a = (*this)(t->a), b = (*this)(t->b); return atan2(a, b); }
      case K::Sinh: return sinh((*this)(t->a));
      case K::Cosh: return cosh((*this)(t->a));
      case K::Tanh: return tanh((*this)(t->a));
      case K::Min: { Expression a = (*this)(t->a), b = (*this)(t->b); return min(a, b); }
      case K::Max: { Expression a = (*this)(t->a), b = (*this)(t->b); return max(a, b); }
      case K::Ite: { Formula c = (*this)(t->cond); Expression a = (*this)(t->a), b = (*this)(t->b); return if_then_else(c, a, b); }
    }
    throw std::runtime_error("build");
  }
  void flat(const RP& t, K k, std::vector<Expression>& v) {
    if (t->k == k) { flat(t->a, k, v); flat(t->b, k, v); } else v.push_back((*this)(t));
  }
  Formula rel(FK k, const Expression& a, const Expression& b) {
    switch (k) {
      case FK::Eq: return a == b; case FK::Neq: return a != b; case FK::Gt: return a > b;
      case FK::Geq: return a >= b; case FK::Lt: return a < b; default: return a <= b;
    }
  }
  Formula operator()(const RFP& f) {
    using namespace dreal;
    switch (f->k) {
      case FK::True: return Formula::True();
      case FK::False: return Formula::False();
      case FK::BVar: return Formula(p.b[f->var]);
      case FK::Not: { if (f->ops[0]->k == FK::BVar && pick(2)) return !p.b[f->ops[0]->var]; if (pick(2)) { Formula a = (*this)(f->ops[0]); return !a; } return !(*this)(f->ops[0]); }
      case FK::And: case FK::Or: {
        bool an = f->k == FK::And;
        int m = pick(6);
        if (m == 0) { std::vector<Formula> v; for (auto& o : f->ops) v.push_back((*this)(o)); return an ? make_conjunction(v) : make_disjunction(v); }
        if (m == 1) { std::set<Formula> v; for (auto& o : f->ops) v.insert((*this)(o)); return an ? make_conjunction(v) : make_disjunction(v); }
        if (m == 2 && f->ops.size() == 2 && f->ops[0]->k == FK::BVar && f->ops[1]->k == FK::BVar) return an ? (p.b[f->ops[0]->var] && p.b[f->ops[1]->var]) : (p.b[f->ops[0]->var] || p.b[f->ops[1]->var]);
        Formula a = (*this)(f->ops[0]);
        for (size_t i = 1; i < f->ops.size(); ++i) {
          int form = pick(6);
          if (f->ops[i]->k == FK::BVar && form == 4) { const Variable& v = p.b[f->ops[i]->var]; if (an) { if (pick(2)) a = v && a; else a = std::move(a) && v; } else { if (pick(2)) a = v || a; else a = std::move(a) || v; } continue; }
          Formula b = (*this)(f->ops[i]);
          switch (form) {
            case 0: a = an ? (a && b) : (a || b); break;
            case 1: a = an ? (std::move(a) && b) : (std::move(a) || b); break;
            case 2: a = an ? (a && std::move(b)) : (a || std::move(b)); break;
            case 3: a = an ? (std::move(a) && std::move(b)) : (std::move(a) || std::move(b)); break;
            case 4: { Formula c = an ? (b && a) : (b || a); a = c; break; }
            default: { Formula keep = a; a = an ? (std::move(a) && b) : (std::move(a) || b); break; }
          }
        }
        return a;
      }
      case FK::Imply: { auto &x = f->ops[0], &y = f->ops[1]; if (x->k == FK::BVar && y->k == FK::BVar && pick(2)) return imply(p.b[x->var], p.b[y->var]); if (x->k == FK::BVar && pick(2)) return imply(p.b[x->var], (*this)(y)); if (y->k == FK::BVar && pick(2)) return imply((*this)(x), p.b[y->var]); return imply((*this)(x), (*this)(y)); }
      case FK::Iff: {
        auto &x = f->ops[0], &y = f->ops[1];
        int m = pick(3);
        if (x->k == FK::BVar && y->k == FK::BVar && m == 1) return iff(p.b[x->var], p.b[y->var]);
        if (x->k == FK::BVar && y->k == FK::BVar && m == 2) return p.b[x->var] == p.b[y->var];
        if (x->k == FK::BVar && m == 1) return iff(p.b[x->var], (*this)(y));
        if (x->k == FK::BVar && m == 2) return p.b[x->var] == (*this)(y);
        if (y->k == FK::BVar && m == 1) return iff((*this)(x), p.b[y->var]);
        if (y->k == FK::BVar && m == 2) return (*this)(x) == p.b[y->var];
        if (m == 2) return (*this)(x) == (*this)(y);
        return iff((*this)(x), (*this)(y));
      }
      case FK::Xor: {
        auto &x = f->ops[0], &y = f->ops[1];
        if (x->k == FK::BVar && y->k == FK::BVar && pick(2)) return p.b[x->var] != p.b[y->var];
        if (x->k == FK::BVar && pick(2)) return p.b[x->var] != (*this)(y);
        if (y->k == FK::BVar && pick(2)) return (*this)(x) != p.b[y->var];
        return (*this)(x) != (*this)(y);
      }
      case FK::Forall: { Variables q; for (int v : f->qvars) q.insert(v >= 0 ? p.x[v] : p.b[-1 - v]); return forall(q, (*this)(f->ops[0])); }
      default: { Expression a = (*this)(f->a), b = (*this)(f->b); return rel(f->k, a, b); }
    }
  }
};

inline std::string cut(const std::string& s, size_t n = 700) { return s.size() > n ? s.substr(0, n) + "..." : s; }
}  // namespace vh
