// C45: quantified constraints and optimisation.
#include "dreal/api/api.h"

#include "solve.h"

namespace {
// a smooth term over the variables 0..n-1, of moderate size
RP smooth(Rng& r, int n, int must, int terms) {
  auto factor = [&](int v) -> RP {
    switch (r.below(6)) {
      case 0: return r2(K::Pow, rv(v), rc(2));
      case 1: return r1(K::Sin, rv(v));
      case 2: return r1(K::Cos, rv(v));
      default: return rv(v);
    }
  };
  RP e = rc(r.range(-4, 4) / 2.0);
  for (int t = 0; t < terms; ++t) {
    RP f = factor(t == 0 ? must : r.below(n));
    if (r.chance(0.5)) f = r2(K::Mul, f, factor(r.below(n)));
    double k = r.range(-8, 8) / 4.0;
    if (k == 0) k = 1;
    e = r2(K::Add, e, r2(K::Mul, rc(k), f));
  }
  return e;
}
double val(const RP& e, const Asg& a) { const V v = Evaluator(a).ev(e); return v.ok ? (double)v.v : NAN; }
}  // namespace

static void quantified(Ctx& c, Rng& r) {
  const int ne = r.range(1, 2), nu = r.chance(0.75) ? 1 : 2;
  Pool p(0, 0);
  static const char* en[] = {"x", "z"};
  static const char* un[] = {"y", "w"};
  const bool ints = r.chance(0.15);
  for (int i = 0; i < ne; ++i) p.add_x(Variable(en[i], ints && i == 0 ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS));
  std::vector<Variable::Type> ut;
  for (int i = 0; i < nu; ++i) {
    ut.push_back(r.chance(0.1) ? Variable::Type::BINARY : r.chance(0.1) ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS);
    p.add_x(Variable(un[i], ut.back()));
  }
  const double delta = std::vector<double>{0.01, 0.05, 0.1, 0.3}[r.below(4)];
  Asg s = dyadic_point(r, p);
  Box dom;
  for (int i = 0; i < ne; ++i) {
    dom.Add(p.x[i]);
    const double lo = r.range(0, 3), hi = r.range(0, 3);
    dom[p.x[i]] = ibex::Interval(s.x[i] - lo, s.x[i] + hi);
  }
  std::vector<std::vector<double>> grid(nu);
  std::vector<double> ulo(nu), uhi(nu);
  for (int j = 0; j < nu; ++j) {
    if (ut[j] == Variable::Type::BINARY) { ulo[j] = 0; uhi[j] = 1; grid[j] = {0, 1}; continue; }
    ulo[j] = r.range(-4, 3) / 2.0; uhi[j] = ulo[j] + r.range(1, 5) / 2.0;
    if (ut[j] == Variable::Type::INTEGER) { ulo[j] = std::floor(ulo[j]); uhi[j] = std::ceil(uhi[j]); for (double t = ulo[j]; t <= uhi[j]; ++t) grid[j].push_back(t); continue; }
    const int n = nu == 1 ? 160 : 28;
    for (int i = 0; i <= n; ++i) grid[j].push_back(ulo[j] + (uhi[j] - ulo[j]) * i / n);
  }
  std::vector<std::vector<double>> ys{{}};
  for (int j = 0; j < nu; ++j) { std::vector<std::vector<double>> t; for (auto& y : ys) for (double v : grid[j]) { auto q = y; q.push_back(v); t.push_back(q); } ys = t; }
  // the values of the bound variables that are left when their bounds are
  // strengthened by the precision
  struct Q { std::vector<RP> e; std::vector<double> b; std::vector<bool> guarded; };  // for all y: some e[k] <= b[k]
  std::vector<Q> qs;
  // greatest excess over the grid at the values of the free variables
  auto excess = [&](const Q& q, const Asg& a0, const double room) {
    Asg a = a0;
    a.x.resize(ne + nu);
    double m = -HUGE_VAL;
    for (auto& y : ys) {
      bool in = true;
      for (int j = 0; j < nu; ++j) { a.x[ne + j] = y[j]; if (room > 0 && q.guarded[j] && (y[j] < ulo[j] + room || y[j] > uhi[j] - room)) in = false; }
      if (!in) continue;
      double least = HUGE_VAL;
      for (size_t k = 0; k < q.e.size(); ++k) least = std::min(least, val(q.e[k], a) - q.b[k]);
      m = std::max(m, least);
    }
    return m;
  };
  bool planted = true;
  const int n = r.chance(0.8) ? 1 : 2;
  Config config = random_config(r, r.chance(0.15) ? r.range(2, 3) : 1);
  config.mutable_precision() = delta;
  std::string what = show_config(config) + " dom " + show_box(dom) + " solution " + astr(s) + ":";
  std::vector<Formula> F;
  std::vector<RFP> others;
  Builder bl(p, &r);
  for (int i = 0; i < n; ++i) {
    Q q;
    const int k = r.chance(0.7) ? 1 : 2;
    for (int d = 0; d < k; ++d) q.e.push_back(smooth(r, ne + nu, ne + r.below(nu), r.range(1, 3)));
    // bounds that make it true at s with a margin, or (sometimes) miss that
    std::vector<std::vector<double>> v(k);
    Asg a = s;
    for (auto& y : ys) { for (int j = 0; j < nu; ++j) a.x[ne + j] = y[j]; for (int d = 0; d < k; ++d) v[d].push_back(val(q.e[d], a)); }
    const double margin = r.chance(0.5) ? r.uni(0.05, 0.2) : r.uni(0.2, 1.5);
    std::vector<size_t> open(ys.size());
    for (size_t t = 0; t < open.size(); ++t) open[t] = t;
    for (int d = 0; d < k; ++d) {
      double m = -HUGE_VAL;
      for (size_t t : open) m = std::max(m, v[d][t]);
      if (open.empty()) m = v[d][0] - 2;
      if (d + 1 < k) { std::vector<double> w = v[d]; std::sort(w.begin(), w.end()); m = w[w.size() * r.range(3, 9) / 10]; }
      double b = std::round((m + margin) * 64) / 64;
      if (d + 1 == k && r.chance(0.25)) { b -= r.uni(0.1, 1.5); planted = false; }
      q.b.push_back(b);
      std::vector<size_t> left;
      for (size_t t : open) if (v[d][t] > b - margin / 2) left.push_back(t);
      open = left;
    }
    if (!open.empty()) planted = false;
    Formula body = Formula::False();
    for (int d = 0; d < k; ++d) {
      const Expression e = bl(q.e[d]);
      body = body || (r.chance(0.6) ? e <= q.b[d] : r.chance(0.5) ? q.b[d] >= e : r.chance(0.5) ? -e >= -q.b[d] : !(e > q.b[d]));
    }
    Formula guard = Formula::True();
    Variables uv;
    for (int j = 0; j < nu; ++j) {
      uv.insert(p.x[ne + j]);
      q.guarded.push_back(ut[j] != Variable::Type::BINARY || r.chance(0.3));
      if (!q.guarded[j]) continue;
      const Expression y(p.x[ne + j]);
      guard = guard && y >= ulo[j] && (r.chance(0.5) ? y <= uhi[j] : !(y > uhi[j]));
    }
    body = is_true(guard) ? body : imply(guard, body);
    if (is_true(body) || is_false(body)) return;
    F.push_back(forall(uv, body));
    qs.push_back(q);
    what += " " + F.back().to_string();
  }
  // ordinary constraints next to them
  Asg se; se.x.assign(s.x.begin(), s.x.begin() + ne);
  Pool pe(0, 0);
  for (int i = 0; i < ne; ++i) pe.add_x(p.x[i]);
  GenOpt go; go.poly = true; go.ite = false;
  for (int i = r.below(3); i > 0; --i) {
    Maker mk(r, pe, go);
    Formula f; RFP ref;
    if (!mk.make(r.chance(0.4) ? mk.bound(se) : mk.plant.rel(se, 1), &f, &ref) || is_true(f)) continue;
    F.push_back(f); others.push_back(ref);
    what += " " + f.to_string();
  }
  c.note(what);
  Context ctx(config);
  for (int i = 0; i < ne; ++i) { ctx.DeclareVariable(p.x[i]); }
  for (int i = 0; i < ne; ++i) { ctx.SetInterval(p.x[i], dom[p.x[i]].lb(), dom[p.x[i]].ub()); }
  if (r.chance(0.2)) {
    Formula all = Formula::True();
    for (auto& f : F) all = all && f;
    ctx.Assert(all);
  } else for (auto& f : F) ctx.Assert(f);
  optional<Box> res;
  if (!solve(c, ctx, &res, c.thorough() ? 300000 : 60000)) return;
  c.eval();
  c.nontrivial(what);
  if (!res) {
    c.count(planted ? "unsat" : "unsat (not planted)");
    auto test = [&](const Asg& a) {
      if (!finite(a) || !integral(a, pe) || !inside(dom, pe, a) || !all_true(others, a)) return false;
      for (auto& q : qs) if (!(excess(q, a, 0) < -0.03)) return false;
      return true;
    };
    Asg a = se;
    bool bad = test(a);
    for (int i = 0; i < 25 && !bad; ++i) { a = random_point(r, dom, pe); bad = test(a); }
    if (bad) c.violation(std::string("forall:unsat:") + (qs[0].e.size() > 1 ? "or" : "one"), what + ": unsat, but it holds at " + astr(a));
    return;
  }
  c.count("delta-sat");
  const std::string w = what + " -> " + show_box(*res);
  check_model(c, r, what, pe, dom, others, *res, delta, false);
  double best = HUGE_VAL;
  for (int t = 0; t < 12; ++t) {
    Asg a;
    for (int i = 0; i < ne; ++i) { const auto& iv = (*res)[p.x[i]]; a.x.push_back(t == 0 ? iv.mid() : t == 1 ? iv.lb() : t == 2 ? iv.ub() : r.uni(iv.lb(), iv.ub())); }
    double m = -HUGE_VAL;
    for (auto& q : qs) m = std::max(m, excess(q, a, delta));
    best = std::min(best, m);
    if (best <= delta) break;
  }
  if (best > delta * 1.0001 + 1e-9) c.violation(std::string("forall:model:") + (qs[0].e.size() > 1 ? "or" : "one"), w + ": a quantified constraint is exceeded by " + dstr(best) + " (precision " + dstr(delta) + ")");
  else c.count(best > 0 ? "models within the precision" : "models for which it holds");
}

static void optimise(Ctx& c, Rng& r) {
  // chain: the cost is over the first variable only, and each variable is bounded by the next one; the constraints are
  // asserted in any order
  const bool chain = r.chance(0.35);
  const int n = chain ? (r.chance(0.8) ? 2 : 3) : r.range(1, 2);
  Pool p(0, 0);
  static const char* nm[] = {"x", "z", "u"};
  const bool ints = r.chance(0.15);
  for (int i = 0; i < n; ++i) p.add_x(Variable(nm[i], ints && i == 0 ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS));
  const double delta = n == 3 ? 0.2 : std::vector<double>{0.01, 0.05, 0.1, 0.3}[r.below(4)];
  const Asg s = dyadic_point(r, p);
  Box dom;
  for (int i = 0; i < n; ++i) { dom.Add(p.x[i]); dom[p.x[i]] = ibex::Interval(s.x[i] - r.range(1, 3), s.x[i] + r.range(1, 3)); }
  Builder bl(p, &r);
  const bool maxi = r.chance(0.4);
  const double sg = maxi ? -1 : 1;
  std::vector<RP> f;   // the objectives
  if (chain) f.push_back(r2(K::Mul, rc(r.chance(0.5) ? 1 : 0.5), rv(0)));
  else {
    f.push_back(smooth(r, n, 0, r.range(1, 3)));
    if (!maxi && r.chance(0.2)) f.push_back(smooth(r, n, r.below(n), r.range(1, 2)));
  }
  std::vector<RP> g;
  std::vector<double> b;
  Config config = random_config(r, r.chance(0.15) ? r.range(2, 3) : 1);
  config.mutable_precision() = delta;
  std::vector<Formula> F;
  std::vector<RFP> refs;
  auto constrain = [&](const RP& e, double slack) {
    const double m = std::round((val(e, s) + slack) * 16) / 16;
    const Expression E = bl(e);
    const Formula q = r.chance(0.5) ? E <= m : r.chance(0.5) ? !(E > m) : m >= E;
    if (is_true(q) || is_false(q)) return;
    g.push_back(e); b.push_back(m);
    refs.push_back(frel(FK::Leq, e, rc(m)));
    F.push_back(q);
  };
  if (chain) {
    double s0 = sg;
    for (int i = 0; i + 1 < n; ++i) {
      // s0 * v[i] >= s1 * v[i + 1] - slack (with a square in it, so that it is not a bound)
      const double s1 = r.chance(0.5) ? 1 : -1;
      RP link = r2(K::Add, r2(K::Mul, rc(-s0), rv(i)), r2(K::Mul, rc(s1), rv(i + 1)));
      if (r.chance(0.5)) link = r2(K::Add, link, r2(K::Mul, rc(0.25), r2(K::Pow, rv(i), rc(2))));
      constrain(link, 0.1 + 2 * delta);
      s0 = s1;
    }
    RP last = r2(K::Mul, rc(-s0), rv(n - 1));
    if (r.chance(0.8)) last = r2(K::Add, last, r2(K::Mul, rc(0.125), r2(K::Pow, rv(n - 1), rc(r.chance(0.5) ? 2 : 3))));
    constrain(last, 0.1 + 2 * delta);
  } else for (int i = r.below(3); i > 0; --i) constrain(smooth(r, n, r.below(n), r.range(1, 2)), r.uni(0.3 + 3 * delta, 2 + 3 * delta));
  for (size_t i = F.size(); i > 1; --i) { const size_t j = r.below(i); if (j != i - 1) std::swap(F[i - 1], F[j]); }
  std::vector<Expression> cost;
  for (auto& e : f) cost.push_back(bl(e));
  std::string what = maxi ? "maximise" : "minimise";
  for (auto& e : cost) what += " " + e.to_string();
  what += " " + show_config(config) + " dom " + show_box(dom) + " under";
  for (auto& q : F) what += " " + q.to_string();
  optional<Box> res;
  if (!maxi && cost.size() == 1 && r.chance(0.3)) {
    c.note(what);
    Formula con = Formula::True();
    for (auto& v : p.x) con = con && v >= dom[v].lb() && v <= dom[v].ub();
    for (auto& q : F) con = con && q;
    ibex::budget = 80000;
    if (r.chance(0.5)) res = dreal::Minimize(cost[0], con, config);
    else { Box out; if (dreal::Minimize(cost[0], con, config, &out)) res = out; }
    const bool ok = ibex::budget > 0;
    ibex::budget = std::numeric_limits<long>::max();
    if (!ok) { c.count("gave up"); return; }
  } else {
    Context ctx(config);
    for (auto& v : p.x) { ctx.DeclareVariable(v, dom[v].lb(), dom[v].ub()); }
    const size_t popped = r.chance(0.2) ? r.below(F.size() + 1) : F.size() + 1;
    if (popped <= F.size()) what += " (with more in a popped scope)";
    c.note(what);
    for (size_t i = 0; i <= F.size(); ++i) {
      if (i == popped) {
        ctx.Push(1);
        const double m = std::round(val(f[0], s) * 16) / 16;
        ctx.Assert(sg * cost[0] >= sg * m);
        if (r.chance(0.5)) ctx.Assert(p.x[n - 1] == s.x[n - 1]);
        if (r.chance(0.3)) ctx.Minimize(sg * cost[0]);
        ctx.Pop(1);
      }
      if (i < F.size()) ctx.Assert(F[i]);
    }
    if (maxi) ctx.Maximize(cost[0]); else if (cost.size() == 1 && r.chance(0.5)) ctx.Minimize(cost[0]); else ctx.Minimize(cost);
    if (!solve(c, ctx, &res, c.thorough() ? 300000 : 80000)) return;
  }
  c.eval();
  c.nontrivial(what);
  if (!res) { c.violation("optimise:unsat", what + ": unsat, but " + astr(s) + " is feasible"); return; }
  c.count(chain ? "optima of chains" : cost.size() > 1 ? "Pareto optima" : "optima");
  check_model(c, r, what, p, dom, refs, *res, delta, false);
  std::vector<double> got(f.size(), HUGE_VAL);
  for (int t = 0; t < 12; ++t) {
    Asg a;
    for (auto& v : p.x) { const auto& iv = (*res)[v]; a.x.push_back(t == 0 ? iv.mid() : t == 1 ? iv.lb() : t == 2 ? iv.ub() : r.uni(iv.lb(), iv.ub())); }
    for (size_t i = 0; i < f.size(); ++i) got[i] = std::min(got[i], sg * val(f[i], a));
  }
  // feasible points, with room for the precision, that are better (in every objective)
  const int steps = n == 3 ? 24 : 60;
  double best = HUGE_VAL; Asg arg;   // the largest of the differences to the costs found
  std::vector<std::vector<double>> pts{{}};
  for (auto& v : p.x) {
    std::vector<std::vector<double>> t;
    const auto& iv = dom[v];
    for (auto& q : pts) {
      if (v.get_type() == Variable::Type::INTEGER) for (double k = iv.lb() + 1; k < iv.ub(); ++k) { auto w = q; w.push_back(k); t.push_back(w); }
      else for (int k = 0; k <= steps; ++k) { auto w = q; const double lo = iv.lb() + 2 * delta, hi = iv.ub() - 2 * delta; if (hi < lo) continue; w.push_back(lo + (hi - lo) * k / steps); t.push_back(w); }
    }
    pts = t;
  }
  pts.push_back(s.x);
  for (auto& q : pts) {
    Asg a; a.x = q;
    bool ok = true;
    for (size_t i = 0; i < g.size(); ++i) ok = ok && val(g[i], a) <= b[i] - 2 * delta;
    if (!ok) continue;
    double d = -HUGE_VAL;
    for (size_t i = 0; i < f.size(); ++i) d = std::max(d, sg * val(f[i], a) - got[i]);
    if (d < best) { best = d; arg = a; }
  }
  if (std::isfinite(best)) c.count("optima compared with feasible points");
  if (best < -3 * delta - 1e-9) c.violation("optimise:beaten", what + " -> " + show_box(*res) + ": cost " + dstr(sg * got[0]) + ", but " + astr(arg) + " is feasible with cost " + dstr(sg * val(f[0], arg)));
}

static void c45(Ctx& c) {
  Rng r = c.rng();
  if (r.chance(0.6)) quantified(c, r); else optimise(c, r);
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C45", c45}}); }
