// Random boxes and points for the harnesses that use the stand-in for IBEX.
#pragma once
#include "dreal/util/box.h"
#include "sym.h"

namespace vh {
inline std::string show_box(const dreal::Box& b) {
  if (b.empty()) return "EMPTY";
  std::string s = "{";
  for (int i = 0; i < b.size(); ++i) s += (i ? ", " : "") + b.variables()[i].get_name() + "=[" + dstr(b[i].lb()) + "," + dstr(b[i].ub()) + "]";
  return s + "}";
}
inline double nice(Rng& r) {
  static const std::vector<double> sp{0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 4, 0.25};
  double u = r.unit();
  return u < 0.6 ? r.pick(sp) : u < 0.95 ? r.uni(-5, 5) : r.uni(-50, 50);
}
inline dreal::Box random_box(Rng& r, const std::vector<Variable>& vs, bool unbounded = true) {
  dreal::Box b;
  for (const Variable& v : vs) {
    b.Add(v);
    const auto t = v.get_type();
    if (t == Variable::Type::BOOLEAN || t == Variable::Type::BINARY) { if (r.chance(0.2)) b[v] = (double)r.below(2); continue; }
    if (t == Variable::Type::INTEGER) { double a = r.range(-6, 5); b[v] = ibex::Interval(a, a + r.range(0, 8)); continue; }
    double a = nice(r), w = r.chance(0.1) ? 0 : r.chance(0.3) ? r.uni(0, 0.01) : r.chance(0.5) ? r.range(0, 4) : r.uni(0, 6);
    double lo = a, hi = a + w;
    if (r.chance(0.06)) {
      // next to zero
      static const double tiny[] = {0, 5e-324, 1e-310, 1e-300, 1e-200, 1e-30};
      lo = -tiny[r.below(6)]; hi = tiny[r.below(6)];
      if (r.chance(0.3)) lo = std::min(hi, tiny[r.below(6)]);
      if (r.chance(0.3)) hi = std::max(lo, -tiny[r.below(6)]);
    }
    if (unbounded && r.chance(0.05)) lo = -HUGE_VAL;
    if (unbounded && r.chance(0.05)) hi = HUGE_VAL;
    b[v] = ibex::Interval(lo, hi);
  }
  return b;
}
// a value of the variable inside the interval (integral for variables that are not continuous)
inline double random_value(Rng& r, const ibex::Interval& i, Variable::Type t) {
  double lo = std::max(i.lb(), -1e6), hi = std::min(i.ub(), 1e6);
  if (lo > hi) return i.lb() > 0 ? i.lb() : i.ub();
  if (t != Variable::Type::CONTINUOUS) {
    lo = std::ceil(lo); hi = std::floor(hi);
    return lo >= hi ? lo : lo + std::floor(r.unit() * (hi - lo + 1));
  }
  double u = r.unit();
  if (u < 0.12) return lo;
  if (u < 0.24) return hi;
  if (u < 0.4) { double v = std::round(r.uni(lo, hi) * 4) / 4; return v < lo ? lo : v > hi ? hi : v; }
  if (u < 0.5) { double v = lo / 2 + hi / 2; return v < lo ? lo : v > hi ? hi : v; }
  double v = hi - lo > 100 ? (r.chance(0.5) ? std::max(lo, std::min(hi, r.uni(-5, 5))) : r.uni(lo, hi)) : r.uni(lo, hi);
  return v < lo ? lo : v > hi ? hi : v;
}
inline Asg random_point(Rng& r, const dreal::Box& b, const Pool& p) {
  Asg a;
  a.x.resize(p.x.size());
  a.b.resize(p.b.size());
  for (size_t i = 0; i < p.x.size(); ++i) a.x[i] = b.has_variable(p.x[i]) ? random_value(r, b[p.x[i]], p.x[i].get_type()) : 0;
  for (size_t i = 0; i < p.b.size(); ++i) a.b[i] = b.has_variable(p.b[i]) ? random_value(r, b[p.b[i]], Variable::Type::BOOLEAN) != 0 : 0;
  return a;
}
inline bool have_interval(const RFP& f);
inline bool have_interval(const RP& e) {
  if (e->k == K::Interval) return true;
  if (e->a && have_interval(e->a)) return true;
  if (e->b && have_interval(e->b)) return true;
  return e->cond && have_interval(e->cond);
}
inline bool have_interval(const RFP& f) {
  if (f->a && (have_interval(f->a) || have_interval(f->b))) return true;
  for (auto& o : f->ops) if (have_interval(o)) return true;
  return false;
}
inline std::string top_ops(const RFP& f) {
  if (f->a) return std::string(fkname(f->k)) + ":" + kname(f->a->k) + ":" + kname(f->b->k);
  if (!f->ops.empty()) return std::string(fkname(f->k)) + ":" + top_ops(f->ops[0]);
  return fkname(f->k);
}

// Constraints that are true at a given point, with exact arithmetic where they are equalities.
struct Plant {
  Rng& r;
  Gen& g;
  explicit Plant(Rng& rng, Gen& gen) : r(rng), g(gen) {}
  // a comparison true at s; with margin: also true when both sides are off by that much
  RFP rel(const Asg& s, int depth, bool eq = true) {
    for (int tries = 0; tries < 40; ++tries) {
      RP e = r.chance(0.25) ? g.tiny() : g.expr(depth);
      if (e->size > 40) continue;
      RP e2;
      Evaluator q(s);
      V v = q.ev(e);
      if (!v.ok || fabsq(v.v) > 1e6Q) continue;
      if (r.chance(0.25)) { e2 = g.expr(1); V w = q.ev(e2); if (!w.ok || fabsq(w.v) > 1e6Q) continue; e = r2(K::Sub, e, e2); v = q.ev(e); if (!v.ok) continue; }
      const double d = (double)v.v;
      const f128 err = SAFETY * (v.e + EPS * v.M);
      const bool ex = v.exact() && (f128)d == v.v;
      if (!ex && err > 1e-6Q) continue;
      const double slack = r.chance(0.4) ? r.uni(0.001, 0.1) : r.chance(0.5) ? r.uni(0.1, 3) : (double)r.range(1, 4);
      RFP f;
      const int w = r.below(10);
      if (ex && eq && w < 4) f = frel(FK::Eq, e, rc(d));
      else if (ex && w < 6) f = frel(r.chance(0.5) ? FK::Leq : FK::Geq, e, rc(d));
      else if (w < 8) f = frel(r.chance(0.5) ? FK::Leq : FK::Lt, e, rc(d + slack));
      else if (w < 9) f = frel(r.chance(0.5) ? FK::Geq : FK::Gt, e, rc(d - slack));
      else f = frel(FK::Neq, e, rc(d + (r.chance(0.5) ? slack : -slack)));
      if (r.chance(0.2)) {  // mirrored
        static const std::map<FK, FK> m{{FK::Eq, FK::Eq}, {FK::Neq, FK::Neq}, {FK::Leq, FK::Geq}, {FK::Geq, FK::Leq}, {FK::Lt, FK::Gt}, {FK::Gt, FK::Lt}};
        f = frel(m.at(f->k), f->b, f->a);
      }
      if (r.chance(0.15)) {
        static const std::map<FK, FK> m{{FK::Eq, FK::Neq}, {FK::Neq, FK::Eq}, {FK::Leq, FK::Gt}, {FK::Geq, FK::Lt}, {FK::Lt, FK::Geq}, {FK::Gt, FK::Leq}};
        f = fnot(frel(m.at(f->k), f->a, f->b));
      }
      if (Evaluator(s).fv(f) == T3::T) return f;
    }
    return frel(FK::Leq, rv(0), rc(std::ceil(s.x[0]) + 1));
  }
};
// a point whose coordinates are short dyadic numbers (integers where the type asks for it)
inline Asg dyadic_point(Rng& r, const Pool& p) {
  Asg a;
  for (auto& v : p.x) {
    double d;
    switch (v.get_type()) {
      case Variable::Type::BINARY: d = r.below(2); break;
      case Variable::Type::INTEGER: d = r.range(-4, 5); break;
      default: d = r.chance(0.5) ? r.range(-3, 3) : r.range(-32, 32) / 8.0; break;
    }
    a.x.push_back(d);
  }
  for (size_t i = 0; i < p.b.size(); ++i) a.b.push_back(r.chance(0.5));
  return a;
}
// a box around the point
inline dreal::Box box_around(Rng& r, const Pool& p, const Asg& a, bool unbounded) {
  dreal::Box b;
  for (size_t i = 0; i < p.x.size(); ++i) {
    const Variable& v = p.x[i];
    b.Add(v);
    const double c = a.x[i];
    if (v.get_type() == Variable::Type::BINARY) continue;
    const bool in = v.get_type() == Variable::Type::INTEGER;
    double lo = in ? c - r.range(0, 4) : r.chance(0.15) ? c : r.chance(0.5) ? c - r.range(0, 4) : c - r.uni(0, 5);
    double hi = in ? c + r.range(0, 4) : r.chance(0.15) ? c : r.chance(0.5) ? c + r.range(0, 4) : c + r.uni(0, 5);
    if (unbounded && r.chance(0.1)) { if (r.chance(0.5)) lo = -HUGE_VAL; else hi = HUGE_VAL; if (in) { lo = c - 100; hi = c + 1000; } }
    b[v] = ibex::Interval(lo, hi);
  }
  for (auto& v : p.b) b.Add(v);
  return b;
}
inline bool inside(const dreal::Box& b, const Pool& p, const Asg& a) {
  if (b.empty()) return false;
  for (size_t i = 0; i < p.x.size(); ++i) if (b.has_variable(p.x[i]) && !b[p.x[i]].contains(a.x[i])) return false;
  for (size_t i = 0; i < p.b.size(); ++i) if (b.has_variable(p.b[i]) && !b[p.b[i]].contains(a.b[i] ? 1 : 0)) return false;
  return true;
}
}  // namespace vh
