// C46: local optimisation solves the problem stated.
#include <cstring>

#include "dreal/contractor/counterexample_refiner.h"
#include "dreal/optimization/nlopt_optimizer.h"

#include "solve.h"

namespace {
double val(const RP& e, const Asg& a) { const V v = Evaluator(a).ev(e); return v.ok ? (double)v.v : NAN; }

// k1 * v1 + k2 * v2 + ... over the given variables; not constant
RP linear(Rng& r, const std::vector<int>& vs) {
  RP e;
  const int n = r.range(1, (int)vs.size());
  const int off = r.below((int)vs.size());
  for (int i = 0; i < n; ++i) {
    double k = r.range(-4, 4) / 2.0;
    if (k == 0) k = 1;
    RP t = k == 1 && r.chance(0.7) ? rv(vs[(off + i) % vs.size()]) : r2(K::Mul, rc(k), rv(vs[(off + i) % vs.size()]));
    e = e ? r2(K::Add, e, t) : t;
  }
  return e;
}
FK flip(FK k) {
  static const std::map<FK, FK> m{{FK::Leq, FK::Gt}, {FK::Geq, FK::Lt}, {FK::Lt, FK::Geq}, {FK::Gt, FK::Leq}, {FK::Eq, FK::Neq}, {FK::Neq, FK::Eq}};
  return m.at(k);
}
// by how much the constraint fails at the point
double excess(const RFP& f, const Asg& a, bool pos = true) {
  if (f->k == FK::Not) return excess(f->ops[0], a, !pos);
  if (f->k == FK::And) { double d = -HUGE_VAL; for (auto& o : f->ops) d = std::max(d, excess(o, a, pos)); return d; }
  if (f->k == FK::True) return -HUGE_VAL;
  const double d = val(f->a, a) - val(f->b, a);
  switch (pos ? f->k : flip(f->k)) {
    case FK::Leq: case FK::Lt: return d;
    case FK::Geq: case FK::Gt: return -d;
    case FK::Eq: return std::fabs(d);
    default: return HUGE_VAL;
  }
}
}  // namespace

static void problem(Ctx& c, Rng& r) {
  const int n = r.range(1, 4), m = r.chance(0.5) ? r.range(1, 2) : 0;
  Pool p(0, 0);
  static const char* nm[] = {"x", "y", "z", "w"};
  static const char* pm[] = {"p", "q"};
  // the parameters may have been created before or after the variables decided on
  const bool first = r.chance(0.5);
  std::vector<Variable> dv, pv;
  if (first) for (int i = 0; i < m; ++i) pv.push_back(Variable(pm[i]));
  for (int i = 0; i < n; ++i) dv.push_back(Variable(nm[i]));
  if (!first) for (int i = 0; i < m; ++i) pv.push_back(Variable(pm[i]));
  for (auto& v : dv) p.add_x(v);
  for (auto& v : pv) p.add_x(v);
  Asg s;
  for (int i = 0; i < n + m; ++i) s.x.push_back(r.range(-12, 12) / 4.0);
  // order of the variables in the box
  std::vector<int> ord;
  for (int i = 0; i < n; ++i) ord.push_back(i);
  for (int i = n - 1; i > 0; --i) { const int j = r.below(i + 1); if (i != j) std::swap(ord[i], ord[j]); }
  std::vector<double> lo(n), hi(n);
  Box box;
  for (int i : ord) {
    lo[i] = s.x[i] - r.range(0, 12) / 4.0; hi[i] = s.x[i] + r.range(1, 12) / 4.0;
    box.Add(dv[i]);
    box[dv[i]] = ibex::Interval(lo[i], hi[i]);
  }
  std::vector<int> dec, all;
  for (int i = 0; i < n; ++i) dec.push_back(i);
  for (int i = 0; i < n + m; ++i) all.push_back(i);
  // objective: a sum of squares of linear terms and a linear term; convex in the variables
  auto objective = [&] {
    RP e = r.chance(0.5) ? linear(r, all) : rc(r.range(-8, 8) / 4.0);
    const int q = r.range(1, n + 1);
    for (int i = 0; i < q; ++i) {
      RP l = r2(K::Sub, linear(r, i < n ? std::vector<int>{i} : dec), m && r.chance(0.4) ? rv(n + r.below(m)) : rc(r.range(-12, 12) / 4.0));
      RP sq = r2(K::Pow, l, rc(2));
      e = r2(K::Add, e, r.chance(0.5) ? sq : r2(K::Mul, rc(r.range(1, 8) / 4.0), sq));
    }
    return e;
  };
  RP obj = objective();
  const bool slsqp = r.chance(0.6);
  // constraints, all of which hold at s, with room if not equalities
  std::vector<RFP> cons;
  const int nc = r.range(0, 4);
  bool eq = false;
  for (int i = 0; i < nc; ++i) {
    auto one = [&](bool may_eq) {
      RP l = linear(r, r.chance(0.7) ? dec : all);
      const double v = val(l, s);
      const bool neg = r.chance(0.4);
      if (may_eq && slsqp && !eq && n > 1 && r.chance(0.25)) {
        eq = true;
        RFP f = frel(neg ? FK::Neq : FK::Eq, l, rc(v));
        return neg ? fnot(f) : f;
      }
      const double room = r.range(1, 6) / 4.0;
      FK k = std::vector<FK>{FK::Leq, FK::Lt, FK::Geq, FK::Gt}[r.below(4)];
      const bool up = k == FK::Leq || k == FK::Lt;
      RP rhs = rc(up ? v + room : v - room);
      // some terms on the other side
      if (r.chance(0.3)) { RP t = linear(r, all); l = r2(K::Add, l, t); rhs = r2(K::Add, t, rhs); }
      RFP f = r.chance(0.5) ? frel(k, l, rhs) : frel(up ? (k == FK::Leq ? FK::Geq : FK::Gt) : (k == FK::Geq ? FK::Leq : FK::Lt), rhs, l);
      return neg ? fnot(frel(flip(f->k), f->a, f->b)) : f;
    };
    if (r.chance(0.3)) { std::vector<RFP> fs; const int k = r.range(2, 3); for (int j = 0; j < k; ++j) fs.push_back(one(true)); cons.push_back(fops(FK::And, fs)); }
    else cons.push_back(one(true));
  }
  Config cfg;
  const double delta = std::vector<double>{0.001, 0.01, 0.1}[r.below(3)];
  cfg.mutable_precision() = delta;
  cfg.mutable_nlopt_maxtime() = 100.0;
  cfg.mutable_nlopt_maxeval() = 4000;
  cfg.mutable_nlopt_ftol_rel() = 1e-10;
  cfg.mutable_nlopt_ftol_abs() = 1e-10;
  std::string what = std::string(slsqp ? "SLSQP" : "COBYLA") + " delta " + dstr(delta) + " minimise " + str(obj) + " over " + show_box(box) + " subject to";
  for (auto& f : cons) what += " " + str(f);
  what += " planted " + astr(s);
  c.note(what);
  Builder bd(p, &r);
  NloptOptimizer opt(slsqp ? nlopt::algorithm::LD_SLSQP : nlopt::algorithm::LN_COBYLA, box, cfg);
  if (r.chance(0.3)) opt.SetMinObjective(bd(objective()));   // replaced below
  const bool late = r.chance(0.5);
  if (!late) opt.SetMinObjective(bd(obj));
  std::vector<Formula> fs;
  for (auto& f : cons) fs.push_back(bd(f));
  const size_t batch = r.below((int)fs.size() + 1);
  for (size_t i = 0; i < batch; ++i) opt.AddConstraint(fs[i]);
  if (batch < fs.size() || r.chance(0.2)) opt.AddConstraints(std::vector<Formula>(fs.begin() + batch, fs.end()));
  if (late) opt.SetMinObjective(bd(obj));
  // formulas outside the fragment are refused and leave the problem as it is
  if (r.chance(0.3)) {
    const Expression x{dv[0]};
    Formula f;
    switch (r.below(4)) {
      case 0: f = x == lo[0] || x >= hi[0] + 1; break;
      case 1: f = !(x == s.x[0]); break;
      case 2: f = x != s.x[0]; break;
      default: f = !(x <= hi[0] && Expression{dv[n - 1]} <= 100); break;
    }
    bool thrown = false;
    try { opt.AddConstraint(f); } catch (const std::runtime_error&) { thrown = true; }
    c.eval();
    if (!thrown) c.violation("opt:accepted", what + ": unsupported " + f.to_string() + " was not refused");
    c.count("unsupported constraints refused", thrown);
  }
  // several runs with other parameters
  const int runs = m ? r.range(1, 3) : r.range(1, 2);
  for (int run = 0; run < runs; ++run) {
    Asg a = s;
    bool same = true;
    if (run && m) for (int j = 0; j < m; ++j) if (r.chance(0.6)) { a.x[n + j] = r.range(-12, 12) / 4.0; same = same && a.x[n + j] == s.x[n + j]; }
    std::vector<double> x;
    for (int i : ord) x.push_back(r.chance(0.3) ? lo[i] : r.chance(0.4) ? hi[i] : r.uni(lo[i], hi[i]));
    Environment env;
    for (int j = 0; j < m; ++j) env.insert(pv[j], a.x[n + j]);
    double best = 12345;
    nlopt::result res;
    c.eval();
    try {
      res = m || r.chance(0.3) ? opt.Optimize(&x, &best, env) : opt.Optimize(&x, &best);
    } catch (const std::invalid_argument& e) {
      c.violation("opt:refused", what + ": the problem was refused: " + e.what());
      continue;
    } catch (const std::runtime_error& e) {
      if (strstr(e.what(), "NloptOptimizer") != nullptr) c.violation("opt:failed", what + ": " + e.what());
      c.count("runs given up by NLopt");
      continue;
    }
    if (x.size() != (size_t)n) { c.violation("opt:size", what); return; }
    Asg g = a;
    for (int i = 0; i < n; ++i) g.x[ord[i]] = x[i];
    const std::string got = what + " parameters of run " + std::to_string(run) + " in " + astr(g) + " cost " + dstr(best) + " result " + std::to_string((int)res);
    const double scale = 1 + std::fabs(best);
    bool in = true;
    for (int i = 0; i < n; ++i) in = in && g.x[i] >= lo[i] && g.x[i] <= hi[i];
    if (!in) { c.violation("opt:bounds", got); continue; }
    if (!std::isfinite(val(obj, g))) { c.count("results without a reference value"); continue; }
    if (!(std::fabs(val(obj, g) - best) <= 1e-9 * scale)) { c.violation("opt:value", got + ": the objective is " + dstr(val(obj, g)) + " there"); continue; }
    if (res != nlopt::SUCCESS && res != nlopt::FTOL_REACHED && res != nlopt::XTOL_REACHED) { c.count("runs that stopped elsewhere"); continue; }
    double ex = -HUGE_VAL, exs = -HUGE_VAL;
    for (auto& f : cons) { ex = std::max(ex, excess(f, g)); exs = std::max(exs, excess(f, a)); }
    if (exs > 0) { c.count("runs without a planted solution"); continue; }  // other parameters: s may not be feasible
    c.count(slsqp ? "SLSQP runs judged" : "COBYLA runs judged");
    c.nontrivial(got);
    // COBYLA may stop before it has reached a feasible point or the optimum
    if (!slsqp) { c.count("COBYLA runs ending feasible", ex <= 1.01 * delta + 1e-9); continue; }
    if (!(ex <= 1.01 * delta + 1e-9)) { c.violation("opt:infeasible", got + ": a constraint is off by " + dstr(ex)); continue; }
    // nothing feasible is better: along the way to the planted point and elsewhere
    double bv = HUGE_VAL; Asg arg;
    for (int t = 0; t < 300; ++t) {
      Asg q = a;
      const double l = t < 20 ? (t + 1) / 20.0 : 0;
      for (int i = 0; i < n; ++i) {
        if (t < 20) q.x[i] = g.x[i] + l * (s.x[i] - g.x[i]);
        else if (t < 160) q.x[i] = r.uni(lo[i], hi[i]);
        else { const double w = (hi[i] - lo[i]) * (t < 220 ? 0.3 : 0.1); q.x[i] = std::min(hi[i], std::max(lo[i], g.x[i] + r.uni(-w, w))); }
      }
      double e = -HUGE_VAL;
      for (auto& f : cons) e = std::max(e, excess(f, q));
      if (e > 0) continue;
      const double v = val(obj, q);
      if (v < bv) { bv = v; arg = q; }
    }
    if (std::isfinite(bv)) c.count("optima compared with feasible points");
    if (bv < best - 0.01 * scale) c.violation("opt:beaten", got + ": " + astr(arg) + " is feasible and costs " + dstr(bv));
    (void)same;
  }
}

// CachedExpression: values and derivatives are those of the expression, in any order of calls.
static void cached(Ctx& c, Rng& r) {
  Pool p(r.range(1, 4), 0);
  GenOpt go; go.ite = false;
  Gen g(r, (int)p.x.size(), 0, go);
  RP e = g.expr(r.range(1, 4));
  Builder bd(p, &r);
  Expression ex, ex2;
  RP e2 = g.expr(2);
  try { ex = bd(e); ex2 = bd(e2); } catch (const std::exception&) { c.count("expressions that are not defined"); return; }
  Box box, other;
  for (auto& v : p.x) box.Add(v);
  c.note("cached " + str(e));
  bool can = IsDifferentiable(ex);
  CachedExpression ce{ex, box};
  CachedExpression c2{ex2, box};
  const int calls = r.range(2, 10);
  const Expression* cur = &ex;
  std::map<Variable::Id, const Expression*> seen;
  for (int i = 0; i < calls; ++i) {
    c.eval();
    if (r.chance(0.1)) { if (r.chance(0.5)) { ce = c2; cur = &ex2; } else { c2 = CachedExpression{ex, box}; ce = c2; cur = &ex; c2 = CachedExpression{ex2, box}; } can = IsDifferentiable(*cur); seen.clear(); }
    if (&ce.box() != &box) { c.violation("cached:box", str(e)); return; }
    Asg a = random_point(r, box, p);
    Environment& env = ce.mutable_environment();
    for (size_t j = 0; j < p.x.size(); ++j) env[p.x[j]] = a.x[j];
    for (size_t j = 0; j < p.x.size(); ++j) if (ce.environment()[p.x[j]] != a.x[j]) c.violation("cached:environment", str(e));
    auto eval = [&](auto&& f) -> std::pair<bool, double> { try { return {true, f()}; } catch (const std::exception&) { return {false, 0}; } };
    const auto v1 = eval([&] { return ce.Evaluate(env); }), v2 = eval([&] { return cur->Evaluate(env); });
    if (v1.first != v2.first || (v1.first && memcmp(&v1.second, &v2.second, sizeof(double)) != 0)) c.violation("cached:value", cur->to_string() + " at " + astr(a));
    if (can) {
      const Variable& x = r.pick(p.x);
      Expression d, d2;
      bool t1 = false, t2 = false;
      try { d = cur->Differentiate(x); } catch (const std::exception&) { t1 = true; }
      try { d2 = ce.Differentiate(x); } catch (const std::exception&) { t2 = true; }
      if (t1 != t2) c.violation("cached:derivative", cur->to_string() + " by " + x.get_name() + ": one has a derivative");
      if (t1 || t2) continue;
      c.count("derivatives compared");
      if (!d.EqualTo(d2)) c.violation("cached:derivative", cur->to_string() + " by " + x.get_name() + ": " + d2.to_string() + " instead of " + d.to_string());
    }
  }
  c.nontrivial(str(e));
}

// CounterexampleRefiner: a refined box keeps the free variables and stays in the ranges of the
// quantified ones.
static void refine(Ctx& c, Rng& r) {
  const int ne = r.range(0, 2), nu = r.range(1, 2);
  Pool p(0, 0);
  static const char* en[] = {"x", "z"};
  static const char* un[] = {"y", "w"};
  const bool first = r.chance(0.5);
  std::vector<Variable> ev, uv;
  if (first) for (int i = 0; i < nu; ++i) uv.push_back(Variable(un[i], r.chance(0.08) ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS));
  for (int i = 0; i < ne; ++i) ev.push_back(Variable(en[i]));
  if (!first) for (int i = 0; i < nu; ++i) uv.push_back(Variable(un[i], r.chance(0.08) ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS));
  for (auto& v : uv) p.add_x(v);
  for (auto& v : ev) p.add_x(v);
  Asg s;
  for (int i = 0; i < nu + ne; ++i) s.x.push_back(r.range(-8, 8) / 4.0);
  std::vector<RFP> cs;
  std::vector<double> lo(nu, -HUGE_VAL), hi(nu, HUGE_VAL);
  bool cont = true;
  for (int i = 0; i < nu; ++i) {
    cont = cont && uv[i].get_type() == Variable::Type::CONTINUOUS;
    lo[i] = s.x[i] - r.range(0, 8) / 4.0; hi[i] = s.x[i] + r.range(1, 8) / 4.0;
    if (uv[i].get_type() != Variable::Type::CONTINUOUS) { lo[i] = std::floor(lo[i]); hi[i] = std::ceil(hi[i]); }
    cs.push_back(frel(FK::Geq, rv(i), rc(lo[i])));
    cs.push_back(frel(FK::Leq, rv(i), rc(hi[i])));
  }
  std::vector<int> all, us;
  for (int i = 0; i < nu + ne; ++i) all.push_back(i);
  for (int i = 0; i < nu; ++i) us.push_back(i);
  const int k = r.range(1, 3);
  double conv = r.chance(0.6);
  std::vector<RFP> mine;
  for (int i = 0; i < k; ++i) {
    RP l = linear(r, r.chance(0.3) ? us : all);
    if (r.chance(0.4)) l = r2(K::Add, l, r2(K::Pow, r2(K::Sub, rv(r.below(nu)), rc(r.range(-4, 4) / 4.0)), rc(2)));
    else if (!conv && r.chance(0.5)) l = r2(K::Add, l, r1(std::vector<K>{K::Sin, K::Cos, K::Abs}[r.below(3)], rv(r.below(nu))));
    const FK kind = std::vector<FK>{FK::Leq, FK::Lt, FK::Geq, FK::Gt, FK::Leq}[r.below(5)];
    const double v = val(l, s), room = r.range(1, 4) / 4.0;
    mine.push_back(frel(kind, l, rc(kind == FK::Leq || kind == FK::Lt ? v + room : v - room)));
  }
  for (auto& f : mine) cs.push_back(f);
  for (int i = (int)cs.size() - 1; i > 0; --i) { const int j = r.below(i + 1); if (i != j) std::swap(cs[i], cs[j]); }
  RFP q = fops(FK::And, cs);
  Config cfg;
  cfg.mutable_precision() = 0.01;
  cfg.mutable_nlopt_maxtime() = 100.0;
  cfg.mutable_nlopt_maxeval() = 2000;
  Builder bd(p, &r);
  Variables fv;
  for (auto& v : uv) fv.insert(v);
  Box box;
  std::vector<int> ord = all;
  for (int i = (int)ord.size() - 1; i > 0; --i) { const int j = r.below(i + 1); if (i != j) std::swap(ord[i], ord[j]); }
  for (int i : ord) {
    box.Add(p.x[i]);
    const double w = r.range(0, 4) / 8.0;
    const bool isint = p.x[i].get_type() != Variable::Type::CONTINUOUS;
    box[p.x[i]] = i < nu ? ibex::Interval(std::max(lo[i], isint ? std::floor(s.x[i] - w) : s.x[i] - w), std::min(hi[i], isint ? std::ceil(s.x[i] + w) : s.x[i] + w)) : ibex::Interval(s.x[i] - w, s.x[i] + w);
  }
  const Box before = box;
  const std::string what = "refine " + str(q) + " from " + show_box(box);
  c.note(what);
  const Formula f = bd(q);
  if (!is_conjunction(f)) { c.count("query simplified away"); return; }
  for (const Formula& o : get_operands(f)) if (!is_relational(o)) { c.count("query simplified away"); return; }
  CounterexampleRefiner ref(f, fv, cfg);
  for (int t = 0; t < 2; ++t) {
    c.eval();
    const Box got = ref.Refine(box);
    const std::string w = what + " -> " + show_box(got);
    if (got.size() != before.size()) { c.violation("refine:size", w); return; }
    bool moved = false;
    for (int i : ord) {
      const auto &a = got[p.x[i]], &b = before[p.x[i]];
      if (i >= nu) { if (a.lb() != b.lb() || a.ub() != b.ub()) c.violation("refine:free", w); continue; }
      moved = moved || a.lb() != b.lb() || a.ub() != b.ub();
      if (!(a.lb() >= lo[i] && a.ub() <= hi[i] && a.lb() <= a.ub())) c.violation("refine:range", w);
    }
    c.count(moved ? "boxes refined" : "boxes kept");
    if (moved && !cont) c.violation("refine:integral", w + ": moved an integer variable");
    if (moved) {
      Asg a = s;
      for (int i = 0; i < nu + ne; ++i) a.x[i] = got[p.x[i]].mid();
      for (int i = 0; i < nu; ++i) if (got[p.x[i]].lb() != got[p.x[i]].ub()) c.violation("refine:point", w);
      // the free variables are fixed to their middle: if the planted values are feasible there,
      // the point found is as well (for convex constraints)
      double ex = -HUGE_VAL, es = -HUGE_VAL;
      Asg sm = s; for (int i = nu; i < nu + ne; ++i) sm.x[i] = a.x[i];
      for (auto& m : mine) { ex = std::max(ex, excess(m, a)); es = std::max(es, excess(m, sm)); }
      (void)ex;
      if (es <= 0) c.count(ex <= 0.02 ? "refined to a counterexample" : "refined elsewhere");
    }
    c.nontrivial(w);
  }
}

static void c46(Ctx& c) {
  Rng r = c.rng();
  const int k = r.below(10);
  if (k < 6) problem(c, r); else if (k < 8) cached(c, r); else refine(c, r);
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C46", c46}}); }
