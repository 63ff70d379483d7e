// Problems, configurations and the checks on answers that are shared by the solver harnesses.
#pragma once
#include <atomic>
#include <cstdlib>

#include "dreal/solver/brancher.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"

#include "boxes.h"
#include "ser.h"
#include "sym.h"

using namespace vh;
using namespace dreal;
namespace dsym = dreal::drake::symbolic;

namespace {
// One call of the solver with a bounded amount of work; false: the answer is to be ignored.
bool solve(Ctx& c, Context& ctx, optional<Box>* res, long work) {
  ibex::budget = work;
  *res = ctx.CheckSat();
  const bool ok = ibex::budget > 0;
  ibex::budget = std::numeric_limits<long>::max();
  if (!ok) c.count("gave up");
  return ok;
}

// Can the formula hold at the point when every comparison may be off by delta?  Undefined or
// inconclusive values count as holding.
bool weak(const RFP& f, const Asg& s, double delta, bool pos = true) {
  switch (f->k) {
    case FK::True: return pos;
    case FK::False: return !pos;
    case FK::BVar: return (bool)s.b[f->var] == pos;
    case FK::Not: return weak(f->ops[0], s, delta, !pos);
    case FK::And: case FK::Or: {
      const bool all = (f->k == FK::And) == pos;
      for (auto& o : f->ops) if (weak(o, s, delta, pos) != all) return !all;
      return all;
    }
    case FK::Imply: return pos ? weak(f->ops[0], s, delta, false) || weak(f->ops[1], s, delta, true) : weak(f->ops[0], s, delta, true) && weak(f->ops[1], s, delta, false);
    case FK::Iff: case FK::Xor: {
      const bool same = (f->k == FK::Iff) == pos;
      auto &a = f->ops[0], &b = f->ops[1];
      return (weak(a, s, delta, true) && weak(b, s, delta, same)) || (weak(a, s, delta, false) && weak(b, s, delta, !same));
    }
    case FK::Forall: return true;
    default: break;
  }
  Evaluator q(s);
  const V v = q.ev(r2(K::Sub, f->a, f->b));
  if (!v.ok) return true;
  const f128 t = (f128)delta * (1 + 1e-9Q) + SAFETY * (v.e + EPS * v.M) + 1e-12Q * (1 + v.M);
  FK k = f->k;
  if (!pos) {
    static const std::map<FK, FK> m{{FK::Eq, FK::Neq}, {FK::Neq, FK::Eq}, {FK::Leq, FK::Gt}, {FK::Geq, FK::Lt}, {FK::Lt, FK::Geq}, {FK::Gt, FK::Leq}};
    k = m.at(k);
  }
  switch (k) {
    case FK::Eq: return fabsq(v.v) <= t;
    case FK::Neq: return true;
    case FK::Leq: case FK::Lt: return v.v <= t;
    default: return v.v >= -t;
  }
}

struct Opts { int jobs = 1; bool ite = false; bool bools = true; int maxbranch = 400; };

std::string show_config(const Config& c) {
  std::string s = "{precision " + dstr(c.precision());
  if (c.use_polytope()) s += " polytope";
  if (c.use_worklist_fixpoint()) s += " worklist";
  if (c.use_local_optimization()) s += " local";
  if (c.stack_left_box_first()) s += " left";
  if (c.number_of_jobs() > 1) s += " jobs " + std::to_string(c.number_of_jobs());
  return s + " phase " + std::to_string((int)c.sat_default_phase()) + "}";
}
Config random_config(Rng& r, int jobs) {
  Config c;
  static const double pr[] = {0.001, 0.01, 0.1, 0.5, 0.0001};
  c.mutable_precision() = pr[r.below(5)];
  c.mutable_use_polytope() = r.chance(0.3);
  c.mutable_use_polytope_in_forall() = r.chance(0.3);
  c.mutable_use_worklist_fixpoint() = r.chance(0.4);
  c.mutable_use_local_optimization() = r.chance(0.3);
  c.mutable_stack_left_box_first() = r.chance(0.5);
  static const Config::SatDefaultPhase ph[] = {Config::SatDefaultPhase::False, Config::SatDefaultPhase::True, Config::SatDefaultPhase::JeroslowWang, Config::SatDefaultPhase::RandomInitialPhase};
  c.mutable_sat_default_phase() = ph[r.below(4)];
  c.mutable_random_seed() = (uint32_t)r.u64();
  c.mutable_number_of_jobs() = jobs;
  const int mode = r.below(3);
  const uint64_t bseed = r.u64();
  auto calls = std::make_shared<std::atomic<uint64_t>>(0);
  if (mode) c.mutable_brancher() = [calls, mode, bseed](const Box& b, const DynamicBitset& act, Box* l, Box* rt) {
    // another legal strategy: any active dimension that can be split
    std::vector<int> can;
    for (int i = 0; i < b.size(); ++i) if (act[i] && b[i].is_bisectable()) {
      if (b.variable(i).get_type() != Variable::Type::CONTINUOUS && b[i].diam() < 1) continue;
      can.push_back(i);
    }
    if (can.empty()) return BranchLargestFirst(b, act, l, rt);
    uint64_t s = bseed + ++*calls;
    const int d = mode == 1 ? can[0] : can[splitmix(s) % can.size()];
    auto pr = b.bisect(d);
    *l = pr.first; *rt = pr.second;
    return d;
  };
  return c;
}

struct Problem {
  Pool p;
  Asg s;
  std::vector<RFP> fs;         // what was asked for
  std::vector<Formula> F;
  Box dom;
  explicit Problem(const Pool& q) : p(q) {}
};

struct Maker {
  Rng& r;
  Pool& p;
  Gen g;
  Plant plant;
  Builder bl;
  int nx, nb;
  Maker(Rng& rng, Pool& pool, GenOpt o) : r(rng), p(pool), g(rng, (int)pool.x.size(), (int)pool.b.size(), o), plant(rng, g), bl(pool, &rng), nx((int)pool.x.size()), nb((int)pool.b.size()) {}
  RFP bound(const Asg& s) {
    const int i = r.below(nx);
    const double v = s.x[i];
    static const FK ks[] = {FK::Leq, FK::Geq, FK::Lt, FK::Gt, FK::Eq, FK::Neq};
    for (;;) {
      const FK k = ks[r.below(6)];
      double c = r.chance(0.3) ? v : v + r.range(-3, 3) * (r.chance(0.5) ? 1 : 0.5);
      RFP f = r.chance(0.8) ? frel(k, rv(i), rc(c)) : frel(k, rc(c), rv(i));
      if (r.chance(0.2)) f = fnot(f);
      if (Evaluator(s).fv(f) == T3::T) return f;
    }
  }
  // a constraint without variables which is not decided when it is built
  RFP ground() {
    const double lo = r.range(-3, 3) + 0.1;
    auto in = std::make_shared<R>(); in->k = K::Interval; in->c = lo; in->c2 = std::nextafter(lo, HUGE_VAL);
    static const FK ks[] = {FK::Leq, FK::Geq, FK::Lt, FK::Gt};
    const FK k = ks[r.below(4)];
    const double d = (k == FK::Leq || k == FK::Lt) ? 1 : -1;
    RFP f = frel(k, in, rc(std::floor(lo) + (d > 0 ? 2 : -1)));   // holds
    return r.chance(0.5) ? f : fnot(frel(k, rc(std::floor(lo) + (d > 0 ? 2 : -1)), in));
  }
  RFP literal(const Asg& s, int depth) {
    if (r.chance(0.02)) return ground();
    if (nb && r.chance(0.25)) { const int i = r.below(nb); return s.b[i] ? fbv(i) : fnot(fbv(i)); }
    if (r.chance(0.3)) return bound(s);
    return plant.rel(s, depth);
  }
  // a formula that is true (or false) at s
  RFP formula(const Asg& s, int depth, bool want = true) {
    if (depth == 0 || r.chance(0.3)) { RFP f = literal(s, r.range(1, 2)); return want ? f : fnot(f); }
    const int w = r.below(9);
    const bool y = r.chance(0.5);
    switch (w) {
      case 0: case 1: case 2: case 3: {
        const bool an = w < 2;
        const int n = r.range(2, 3), k = r.below(n);
        std::vector<RFP> o;
        for (int i = 0; i < n; ++i) o.push_back(formula(s, depth - 1, an == want ? want : i == k ? want : r.chance(0.5)));
        return fops(an ? FK::And : FK::Or, o);
      }
      case 4: return fnot(formula(s, depth - 1, !want));
      case 5: case 6: return want ? (y ? fops(FK::Imply, {formula(s, depth - 1, r.chance(0.5)), formula(s, depth - 1, true)}) : fops(FK::Imply, {formula(s, depth - 1, false), formula(s, depth - 1, r.chance(0.5))}))
                                  : fops(FK::Imply, {formula(s, depth - 1, true), formula(s, depth - 1, false)});
      case 7: return fops(FK::Iff, {formula(s, depth - 1, y), formula(s, depth - 1, y == want)});
      default: return fops(FK::Xor, {formula(s, depth - 1, y), formula(s, depth - 1, y != want)});
    }
  }
  // the object and the reference read back from it; false when the text is not accepted
  bool make(const RFP& f, Formula* F, RFP* ref) {
    try { *F = bl(f); *ref = to_ref(*F, p); return true; } catch (const std::exception&) { return false; }
  }
};
GenOpt solver_ops(Rng& r, bool ite) {
  GenOpt o;
  o.ite = ite && r.chance(0.3); o.intervals = 0.02; o.symexp = r.chance(0.2);
  o.poly = r.chance(0.4);
  return o;
}
bool finite(const Asg& a) { for (double d : a.x) if (!std::isfinite(d)) return false; return true; }
bool integral(const Asg& a, const Pool& p) {
  for (size_t j = 0; j < a.x.size(); ++j) if (p.x[j].get_type() != Variable::Type::CONTINUOUS && a.x[j] != std::floor(a.x[j])) return false;
  return true;
}
bool all_true(const std::vector<RFP>& fs, const Asg& a) { Evaluator q(a); for (auto& f : fs) if (q.fv(f) != T3::T) return false; return true; }
std::string show_fs(const std::vector<RFP>& fs) { std::string t; for (auto& f : fs) t += str(f) + "; "; return t; }
bool have_ite(const RFP& f) { return str(f).find("(ite") != std::string::npos; }
// a bound that is met exactly: strict bounds of integers and disequations are weakened like any constraint
bool only_bounds(const RFP& f, const Pool& p) {
  const bool neg = f->k == FK::Not;
  const RFP& g = neg ? f->ops[0] : f;
  if (!g->a) return false;
  if (g->k == (neg ? FK::Eq : FK::Neq)) return false;
  const bool strict = neg ? g->k == FK::Leq || g->k == FK::Geq : g->k == FK::Lt || g->k == FK::Gt;
  const RP& v = g->a->k == K::Var ? g->a : g->b;
  if (strict && v->k == K::Var && p.x[v->var].get_type() != Variable::Type::CONTINUOUS) return false;
  return ((g->a->k == K::Var && g->b->k == K::Const) || (g->b->k == K::Var && g->a->k == K::Const));
}
bool boolean_only(const RFP& f) { if (f->a || f->k == FK::Forall) return false; for (auto& o : f->ops) if (!boolean_only(o)) return false; return true; }

// Branching stops at boxes that cannot be split: does every comparison have a variable that can be?
bool splittable(const RP& e, const Pool& p, const Box& m) {
  if (!e) return false;
  if (e->k == K::Var) return p.x[e->var].get_type() == Variable::Type::CONTINUOUS && m[p.x[e->var]].is_bisectable();
  return splittable(e->a, p, m) || splittable(e->b, p, m);
}
bool splittable(const RFP& f, const Pool& p, const Box& m) {
  if (f->a) return splittable(f->a, p, m) || splittable(f->b, p, m);
  for (auto& o : f->ops) if (!splittable(o, p, m)) return false;
  return true;
}

// Checks a box returned for the constraints over the domain; reports under the keys given.
void check_model(Ctx& c, Rng& r, const std::string& what, const Pool& p, const Box& dom, const std::vector<RFP>& fs, const Box& m, double delta, bool exact_ok = true) {
  const std::string w = what + " -> " + show_box(m);
  if (m.empty()) { c.violation("model:empty", w); return; }
  if (m.size() != dom.size()) { c.violation("model:variables", w); return; }
  for (auto& v : dom.variables()) if (!m.has_variable(v)) { c.violation("model:variables", w + " lacks " + v.get_name()); return; }
  bool integ = true;
  for (auto& v : m.variables()) {
    const auto& i = m[v];
    if (i.is_empty()) { c.violation("model:empty", w); return; }
    if (!i.is_subset(dom[v])) c.violation("model:domain", w + ": " + v.get_name() + " leaves its domain " + dstr(dom[v].lb()) + ".." + dstr(dom[v].ub()));
    if (v.get_type() != Variable::Type::CONTINUOUS && !(i.lb() == i.ub() && i.lb() == std::floor(i.lb()))) { c.violation(std::string("model:integral:") + (v.get_type() == Variable::Type::INTEGER ? "Int" : v.get_type() == Variable::Type::BINARY ? "Binary" : "Bool"), w + ": " + v.get_name() + " is no integral point"); integ = false; }
  }
  if (!integ) return;
  std::vector<RFP> todo;
  bool exact = exact_ok;
  for (auto& f : fs) {
    if (have_ite(f)) { c.count("formulas with if-then-else terms (not evaluated)"); continue; }
    if (!only_bounds(f, p) && !boolean_only(f)) exact = false;
    todo.push_back(f);
  }
  // a point of the box at which every constraint holds when weakened
  int best = -1; RFP miss;
  for (int t = 0; t < 40; ++t) {
    Asg a;
    for (auto& v : p.x) {
      const auto& i = m[v];
      double x = t == 0 ? i.mid() : t == 1 ? i.lb() : t == 2 ? i.ub() : r.chance(0.3) ? (r.chance(0.5) ? i.lb() : i.ub()) : r.uni(i.lb(), i.ub());
      if (!std::isfinite(x)) x = std::isfinite(i.lb()) ? i.lb() : std::isfinite(i.ub()) ? i.ub() : 0;
      if (x < i.lb()) x = i.lb();
      if (x > i.ub()) x = i.ub();
      a.x.push_back(x);
    }
    for (auto& v : p.b) a.b.push_back(m[v].lb() != 0);
    int n = 0; RFP bad;
    for (auto& f : todo) { if (weak(f, a, delta)) ++n; else if (!bad) bad = f; }
    if (bad && splittable(bad, p, m)) { c.violation("model:point:" + top_ops(bad), w + " violates " + str(bad) + " at " + astr(a)); return; }
    if (n == (int)todo.size()) {
      c.count("models that satisfy the weakened constraints");
      if (!exact) return;
      // exact: bounds and Booleans hold without weakening
      bool ok = true;
      Evaluator q(a);
      for (auto& f : todo) if (q.fv(f) == T3::F) { ok = false; bad = f; }
      if (ok) { c.count("models that satisfy bounds and Booleans exactly"); return; }
    }
    if (n > best) { best = n; miss = bad; }
    if (bad && !miss) miss = bad;
  }
  c.violation(std::string("model:") + (best == (int)todo.size() ? "exact:" : "weak:") + (miss ? top_ops(miss) : "?"), w + " violates " + (miss ? str(miss) : "?"));
}

Box make_domain(Rng& r, const Pool& p, const Asg& s) { return box_around(r, p, s, r.chance(0.15)); }

void declare(Context& ctx, Rng& r, const Pool& p, const Box& dom, std::vector<Formula>* also) {
  for (auto& v : p.x) {
    const auto& i = dom[v];
    const int w = r.below(3);
    if (w == 0) ctx.DeclareVariable(v, i.lb(), i.ub());
    else if (w == 1) { ctx.DeclareVariable(v); ctx.SetInterval(v, i.lb(), i.ub()); }
    else {
      ctx.DeclareVariable(v);
      if (std::isfinite(i.lb())) also->push_back(r.chance(0.5) ? Expression(v) >= i.lb() : Expression(i.lb()) <= v);
      if (std::isfinite(i.ub())) also->push_back(r.chance(0.5) ? Expression(v) <= i.ub() : !(Expression(v) > i.ub()));
    }
  }
  for (auto& v : p.b) ctx.DeclareVariable(v);
}
}  // namespace
