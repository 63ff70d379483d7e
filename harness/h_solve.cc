// C39, C40, C41, C44: answers of the solver for quantifier-free problems.
#include "dreal/api/api.h"

#include "solve.h"

static void solve_case(Ctx& c, bool report_unsat, bool report_model, int jobs) {
  Rng r = c.rng();
  const bool ints = r.chance(0.45);
  const bool wide = r.chance(0.15);   // one constraint over many variables
  const int nx = wide ? r.range(4, 7) : r.range(1, 3);
  Pool p(nx, r.chance(0.5) ? r.range(1, r.chance(0.2) ? 7 : 3) : 0, ints ? r.range(1, 3) : 0);
  Problem q(p);
  q.s = dyadic_point(r, p);
  Maker mk(r, q.p, solver_ops(r, true));
  const bool clauses = r.chance(0.4);   // many clauses with one literal each that is meant to be true
  const int n = clauses ? r.range(3, 9) : r.range(0, 5);
  for (int i = 0; i < n; ++i) {
    Formula F; RFP ref;
    RFP f;
    if (clauses) {
      std::vector<RFP> o;
      const int k = r.range(1, 4), t = r.below(k);
      for (int j = 0; j < k; ++j) { RFP l = mk.literal(q.s, r.range(1, 2)); o.push_back(j == t ? l : fnot(l)); }
      f = fops(FK::Or, o);
    } else f = mk.formula(q.s, r.below(3));
    if (!mk.make(f, &F, &ref)) continue;
    if (dsym::is_false(F)) continue;
    if (is_true(F)) continue;
    q.F.push_back(F); q.fs.push_back(ref);
  }
  for (int i = wide ? r.range(1, 2) : 0; i > 0; --i) {
    RP e = rc(0);
    for (int j = 0; j < nx; ++j) if (r.chance(0.85)) {
      RP t = rv(j);
      if (r.chance(0.25)) t = r2(K::Pow, t, rc(2));
      e = r2(K::Add, e, r2(K::Mul, rc(r.chance(0.5) ? 1 : -1), t));
    }
    const V v = Evaluator(q.s).ev(e);
    if (!v.ok) continue;
    const double d = (double)v.v;
    Formula F; RFP ref;
    const int w = r.below(4);
    if (!mk.make(w == 0 ? frel(FK::Leq, e, rc(d)) : w == 1 ? frel(FK::Geq, e, rc(d)) : frel(FK::Eq, e, rc(d)), &F, &ref) || is_true(F) || dsym::is_false(F)) continue;
    q.F.push_back(F); q.fs.push_back(ref);
    c.count("constraints over many variables");
  }
  bool planted = true;
  if (r.chance(0.3)) {   // something false at the point
    Formula F; RFP ref;
    if (mk.make(fnot(mk.formula(q.s, 1)), &F, &ref) && !is_true(F)) { q.F.push_back(F); q.fs.push_back(ref); planted = false; }
  }
  q.dom = make_domain(r, q.p, q.s);
  if (q.dom.empty()) return;
  Config config = random_config(r, jobs);
  const std::string what = show_config(config) + " " + show_fs(q.fs) + " dom " + show_box(q.dom) + (planted ? " solution " + astr(q.s) : "");
  c.note(what);
  std::vector<Formula> all = q.F, also;
  const long work = c.thorough() ? 100000 : 20000;
  optional<Box> res;
  std::string out_model;
  bool model = false;   // a model after an unsat answer
  if (r.chance(0.2)) {  // in one call
    for (auto& v : q.p.x) {
      const auto& i = q.dom[v];
      if (std::isfinite(i.lb())) all.push_back(r.chance(0.5) ? Expression(v) >= i.lb() : Expression(i.lb()) <= v);
      if (std::isfinite(i.ub())) all.push_back(r.chance(0.5) ? Expression(v) <= i.ub() : !(Expression(v) > i.ub()));
    }
    for (size_t i = all.size(); i > 1; --i) { const size_t j = r.below((int)i); if (j != i - 1) std::swap(all[i - 1], all[j]); }
    Formula F = Formula::True();
    for (auto& f : all) F = r.chance(0.5) ? F && f : f && F;
    const int how = r.below(jobs == 1 ? 4 : 2);
    if (how >= 2) { const double d = config.precision(); config = Config(); config.mutable_precision() = d; }
    ibex::budget = work;
    Box out;
    const int old = (int)r.below(3);
    if (old) { out = q.dom; }   // whatever the box held before
    switch (how) {
      case 0: res = CheckSatisfiability(F, config); break;
      case 1: if (CheckSatisfiability(F, config, &out)) res = out; break;
      case 2: res = CheckSatisfiability(F, config.precision()); break;
      default: if (CheckSatisfiability(F, config.precision(), &out)) res = out; break;
    }
    const bool ok = ibex::budget > 0;
    ibex::budget = std::numeric_limits<long>::max();
    if (!ok) { c.count("gave up"); return; }
    c.count("solved in one call");
    if (res) {
      const Variables fv = F.GetFreeVariables();
      if (res->size() != (int)fv.size()) c.violation("api:variables", what + " -> " + show_box(*res));
      for (auto& v : q.p.x) if (!fv.include(v)) { res->Add(v); (*res)[v] = random_value(r, q.dom[v], v.get_type()); }
      for (auto& v : q.p.b) if (!fv.include(v)) { res->Add(v); (*res)[v] = r.below(2); }
    }
  } else {
    Context ctx(config);
    declare(ctx, r, q.p, q.dom, &also);
    all.insert(all.end(), also.begin(), also.end());
    for (size_t i = all.size(); i > 1; --i) { const size_t j = r.below((int)i); if (j != i - 1) std::swap(all[i - 1], all[j]); }
    for (auto& f : all) ctx.Assert(f);
    if (!solve(c, ctx, &res, work)) return;
    if (ctx.config().precision() != config.precision()) c.violation("solve:config", what);
    model = !res && !ctx.get_model().empty();
    if (model) out_model = show_box(ctx.get_model());
  }
  c.eval();
  if (!res) {
    c.count(planted ? "unsat" : "unsat (not planted)");
    if (!report_unsat) return;
    if (planted) { if (all_true(q.fs, q.s) && inside(q.dom, q.p, q.s)) { c.violation("unsat:planted:" + top_ops(q.fs.empty() ? fops(FK::And, {}) : q.fs[0]), what + ": the answer is unsat"); return; } }
    if (model) c.violation("unsat:model", what + ": unsat, but the model is " + out_model);
    for (int i = 0; i < 60; ++i) {
      Asg a = i < 30 ? random_point(r, q.dom, q.p) : q.s;
      if (i >= 30) for (size_t j = 0; j < a.x.size(); ++j) if (r.chance(0.5)) a.x[j] = random_value(r, q.dom[q.p.x[j]], q.p.x[j].get_type());
      if (i >= 30) for (size_t j = 0; j < a.b.size(); ++j) if (r.chance(0.3)) a.b[j] = !a.b[j];
      if (finite(a) && integral(a, q.p) && inside(q.dom, q.p, a) && all_true(q.fs, a)) { c.violation("unsat:sampled", what + ": unsat, but " + astr(a) + " is a solution"); return; }
    }
    c.nontrivial(what);
    return;
  }
  c.count("delta-sat");
  c.nontrivial(what);
  if (report_model) check_model(c, r, what, q.p, q.dom, q.fs, *res, config.precision());
}
// C41: histories of declarations, assertions, scopes and checks.
static void c41(Ctx& c) {
  Rng r = c.rng();
  const int NX = r.range(2, 4), NB = r.range(0, 2);
  Pool p(NX, NB, r.chance(0.4) ? r.range(1, 3) : 0);
  Asg s = dyadic_point(r, p);
  struct Frame { std::vector<int> xs, bs; std::set<Variable::Id> pinned; Box dom; std::vector<RFP> fs; size_t stack = 0; Box box; };
  std::vector<Frame> st(1);
  Config config = random_config(r, 1);
  Context ctx(config);
  const GenOpt go = solver_ops(r, true);
  std::string log = show_config(config);
  const int ops = r.range(4, 40);
  auto sub = [&](Frame& f) {
    Pool q(0, 0);
    for (int i : f.xs) q.add_x(p.x[i]);
    for (int i : f.bs) q.add_b(p.b[i]);
    return q;
  };
  auto same_box = [](const Box& a, const Box& b) {
    if (a.size() != b.size() || a.empty() != b.empty()) return false;
    if (a.empty()) return true;
    for (int i = 0; i < a.size(); ++i) if (!a.variable(i).equal_to(b.variable(i)) || a[i] != b[i]) return false;
    return true;
  };
  auto declare_x = [&](Frame& f) {
    int k;
    do k = r.below(NX); while (f.dom.has_variable(p.x[k]));
    const Variable& v = p.x[k];
    const double c0 = s.x[k];
    double lo = c0 - r.range(0, 5), hi = c0 + r.range(0, 5);
    if (v.get_type() == Variable::Type::BINARY) { lo = 0; hi = 1; ctx.DeclareVariable(v); }
    else if (r.chance(0.5)) ctx.DeclareVariable(v, lo, hi);
    else { ctx.DeclareVariable(v); ctx.SetInterval(v, lo, hi); }
    f.dom.Add(v); f.dom[v] = ibex::Interval(lo, hi);
    log += " declare " + v.get_name() + "=[" + dstr(lo) + "," + dstr(hi) + "]";
    f.xs.push_back(k);
  };
  auto declare_b = [&](Frame& f) {
    int k;
    do k = r.below(NB); while (f.dom.has_variable(p.b[k]));
    ctx.DeclareVariable(p.b[k]); f.dom.Add(p.b[k]); log += " declare b" + std::to_string(k); f.bs.push_back(k);
  };
  std::vector<Formula> old;   // asserted before, perhaps in a scope that is closed by now
  auto again = [&](Frame& f) {
    std::vector<Formula> can;
    for (auto& o : old) { bool ok = true; for (auto& v : o.GetFreeVariables()) ok = ok && f.dom.has_variable(v); if (ok) can.push_back(o); }
    if (can.empty()) return false;
    const Formula o = can[r.below((int)can.size())];
    const RFP ref = to_ref(o, sub(f));
    log += " again " + o.to_string();
    c.note(log);
    const size_t na = ctx.assertions().size();
    ctx.Assert(o);
    if (ctx.assertions().size() == na) for (auto& v : o.GetFreeVariables()) f.pinned.insert(v.get_id());
    f.fs.push_back(ref);
    c.count("formulas asserted again");
    return true;
  };
  auto add = [&](Frame& f, const RFP& g) {
    Pool q = sub(f);
    Builder bl(q, &r);
    Formula F; RFP ref;
    try { F = bl(g); ref = to_ref(F, q); } catch (const std::exception&) { return; }
    log += " assert " + F.to_string();
    c.note(log);
    const size_t na = ctx.assertions().size();
    ctx.Assert(F);
    // turned into a bound, which setting the interval would replace
    if (ctx.assertions().size() == na) for (auto& v : F.GetFreeVariables()) f.pinned.insert(v.get_id());
    f.fs.push_back(ref);
    old.push_back(F);
  };
  const bool reopen = r.chance(0.4);
  int phase = 0, declares = 0;
  if (r.chance(reopen ? 0.3 : 0.8)) declare_x(st.back());
  for (int i = 0; i < ops; ++i) {
    Frame& f = st.back();
    double u = r.unit();
    if (reopen) {
      // the same formulas in scopes opened again and again, with the variables declared in other orders
      u = phase == 0 ? 0.55 : phase <= declares ? 0.1 : phase <= declares + 3 ? 0.3 : phase == declares + 4 ? 0.9 : 0.7;
      if (phase == 0) declares = r.range(1, NX + NB);
      phase = (phase + 1) % (declares + 6);
    }
    if (u < 0.15) {
      if ((int)f.bs.size() < NB && (r.chance(0.4) || (int)f.xs.size() == NX)) declare_b(f);
      else if ((int)f.xs.size() < NX) declare_x(f);
      c.note(log);
    } else if (u < 0.2 && !f.xs.empty()) {
      const int k = f.xs[r.below((int)f.xs.size())];
      const Variable& v = p.x[k];
      if (f.pinned.count(v.get_id()) || v.get_type() == Variable::Type::BINARY || f.dom.empty()) continue;
      const bool has = r.chance(0.7);
      const double lo = has ? s.x[k] - r.range(0, 5) : s.x[k] + (r.chance(0.5) ? 1 : -4), hi = has ? s.x[k] + r.range(0, 5) : lo + r.range(0, 3);
      ctx.SetInterval(v, lo, hi);
      f.dom[v] = ibex::Interval(lo, hi);
      log += " interval " + v.get_name() + "=[" + dstr(lo) + "," + dstr(hi) + "]";
      c.note(log);
      c.count("intervals set");
    } else if (u < 0.5) {
      if (f.xs.empty()) { if (st.size() > 1 && r.chance(0.3)) add(f, ff()); continue; }
      Pool q = sub(f);
      Asg sq; for (int i : f.xs) sq.x.push_back(s.x[i]); for (int i : f.bs) sq.b.push_back(s.b[i]);
      Maker mk(r, q, go);
      if (r.chance(reopen && old.size() > 3 ? 0.8 : 0.25) && again(f)) continue;
      const double w = r.unit();
      if (w < 0.8 || st.size() == 1) {
        if (w < 0.1) add(f, mk.bound(sq)); else add(f, mk.formula(sq, r.below(3)));
      } else if (w < 0.87) {
        add(f, fnot(mk.bound(sq)));
      } else if (w < 0.97) {
        add(f, fnot(mk.formula(sq, r.below(2))));
      } else add(f, ff());
    } else if (u < 0.62) {
      if (st.size() > 4) continue;
      const int n = r.chance(0.8) ? 1 : 2;
      for (int k = 0; k < n; ++k) {
        st.back().stack = ctx.assertions().size();
        st.back().box = ctx.box();
        Frame g = st.back();
        st.push_back(g);
      }
      ctx.Push(n);
      log += " push" + std::to_string(n);
    } else if (u < 0.75) {
      if (st.size() == 1) continue;
      const int n = r.range(1, (int)st.size() - 1);
      ctx.Pop(n);
      for (int k = 0; k < n; ++k) st.pop_back();
      log += " pop" + std::to_string(n);
      c.note(log);
      if (ctx.assertions().size() != st.back().stack) c.violation("history:pop:assertions", log + ": " + std::to_string(ctx.assertions().size()) + " assertions instead of " + std::to_string(st.back().stack));
      if (!same_box(ctx.box(), st.back().box)) c.violation("history:pop:box", log + ": the box is " + show_box(ctx.box()) + " instead of " + show_box(st.back().box));
      c.count("pops");
    } else {
      log += " check";
      c.note(log);
      if (!f.dom.size()) continue;
      const Box before = ctx.box();
      const size_t na = ctx.assertions().size();
      optional<Box> res;
      if (!solve(c, ctx, &res, c.thorough() ? 50000 : 10000)) return;
      c.eval();
      if (!same_box(before, ctx.box())) c.violation("history:check:box", log + ": checking changed the box to " + show_box(ctx.box()));
      if (na != ctx.assertions().size()) c.violation("history:check:assertions", log + ": checking changed the assertions");
      Pool q = sub(f);
      Asg sq; for (int i : f.xs) sq.x.push_back(s.x[i]); for (int i : f.bs) sq.b.push_back(s.b[i]);
      if (!res) {
        log += ":unsat";
        c.count("unsat");
        if (!ctx.get_model().empty()) c.violation("history:model", log + ": unsat, but the model is " + show_box(ctx.get_model()));
        bool bad = all_true(f.fs, sq) && inside(f.dom, q, sq);
        std::string wit = astr(sq);
        for (int k = 0; k < 30 && !bad; ++k) {
          Asg a = random_point(r, f.dom, q);
          for (size_t j = 0; j < a.x.size(); ++j) if (r.chance(0.5)) a.x[j] = sq.x[j];
          if (finite(a) && integral(a, q) && inside(f.dom, q, a) && all_true(f.fs, a)) { bad = true; wit = astr(a); }
        }
        if (bad) { c.violation("history:unsat", log + ": unsat, but " + wit + " is a solution of what is asserted"); return; }
      } else {
        log += ":sat";
        c.count("delta-sat");
        if (!same_box(*res, ctx.get_model())) c.violation("history:model", log + ": the model is " + show_box(ctx.get_model()) + ", the answer " + show_box(*res));
        check_model(c, r, log, q, f.dom, f.fs, *res, config.precision());
      }
    }
  }
  c.nontrivial(log);
}
static void c39(Ctx& c) { solve_case(c, true, false, 1); }
static void c40(Ctx& c) { solve_case(c, false, true, 1); }
static void c44(Ctx& c) { Rng r(c.cur * 77 + c.seed); solve_case(c, true, true, r.range(2, 5)); }

int main(int argc, char** argv) { return run_main(argc, argv, {{"C39", c39}, {"C40", c40}, {"C41", c41}, {"C44", c44}}); }
