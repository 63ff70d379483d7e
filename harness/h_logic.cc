// C09 (connectives), C13 (delta strengthening), C16 (classification), C17 (NNF), C18 (distributive CNF),
// C19 (definitional CNF), C20 (if-then-else elimination), C21 (predicate abstraction).
#include <set>

#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"
#include "ser.h"
using namespace vh;
using namespace dreal;

namespace {
const std::vector<double> GRID{-1, 0, 1, 2};

std::string tx(const Formula& f) { return cut(ser(f), 500); }
std::string tv(T3 t) { return t == T3::T ? "true" : t == T3::F ? "false" : "inconclusive"; }

// ---- generation: formulas with a few quantified subformulas ----
struct LGen {
  Rng& r;
  Gen g;
  int nfree;     // x[0..nfree) free, the rest only for quantifiers (mostly)
  int nx;
  double pforall;
  int edepth;
  LGen(Rng& rng, int nfree_, int nq, int nb, GenOpt o, double pf, int ed) : r(rng), g(rng, nfree_, nb, o), nfree(nfree_), nx(nfree_ + nq), pforall(pf), edepth(ed) {}
  std::vector<RFP> bag;
  RFP atom() {
    int w = r.below(24);
    if (w == 0) return ft();
    if (w == 1) return ff();
    if (w < 10 && g.nb > 0) return fbv(r.below(g.nb));
    if (w < 14) return frel(r.pick(std::vector<FK>{FK::Eq, FK::Neq, FK::Gt, FK::Geq, FK::Lt, FK::Leq}), rv(r.below(g.nx)), r.chance(0.6) ? rv(r.below(g.nx)) : rc(r.range(0, 1)));
    return g.rel(r.below(edepth + 1));
  }
  RFP form(int depth) {
    if (!bag.empty() && r.chance(0.15)) return r.pick(bag);
    RFP f = form0(depth);
    if (bag.size() < 8 && r.chance(0.5)) bag.push_back(f);
    return f;
  }
  RFP form0(int depth) {
    if (pforall > 0 && r.chance(pforall)) {
      double keep = pforall; pforall = keep / 3;
      int old = g.nx; auto oldbag = g.bag; g.bag.clear();
      std::vector<int> q;
      for (int i = nfree; i < nx; ++i) if (q.empty() || r.chance(0.4)) q.push_back(i);
      if (r.chance(0.1)) q = {0};  // a name that is also free elsewhere
      auto keepf = bag; if (r.chance(0.8)) bag.clear();
      g.nx = r.chance(0.85) ? nx : nfree;  // now and then vacuous
      RFP b = form(std::max(0, depth - 1));
      g.nx = old; g.bag = oldbag; pforall = keep; bag = keepf;
      return fforall(q, b);
    }
    if (depth <= 0 || r.chance(0.08)) return atom();
    if (r.chance(0.1)) {
      // a disjunction of conjunctions (or the other way round) over few literals: shared operands, absorption
      std::vector<RFP> lit, out;
      for (int i = r.range(2, 4); i > 0; --i) { RFP q = atom(); lit.push_back(r.chance(0.3) ? fnot(q) : q); }
      const bool dnf = r.chance(0.5);
      for (int i = r.range(2, 3); i > 0; --i) { std::vector<RFP> v; for (int j = r.range(1, 3); j > 0; --j) v.push_back(r.pick(lit)); out.push_back(v.size() == 1 ? v[0] : fops(dnf ? FK::And : FK::Or, v)); }
      return fops(dnf ? FK::Or : FK::And, out);
    }
    switch (r.below(8)) {
      case 0: case 1: { std::vector<RFP> v; for (int n = r.range(2, 4); n > 0; --n) v.push_back(form(depth - 1)); return fops(FK::And, v); }
      case 2: case 3: { std::vector<RFP> v; for (int n = r.range(2, 4); n > 0; --n) v.push_back(form(depth - 1)); return fops(FK::Or, v); }
      case 4: case 5: return fnot(form(depth - 1));
      case 6: return fops(FK::Imply, {form(depth - 1), form(depth - 1)});
      default: return fops(r.chance(0.5) ? FK::Iff : FK::Xor, {form(depth - 1), form(depth - 1)});
    }
  }
};

GenOpt poly_opt() { GenOpt o; o.poly = true; o.funcs = o.domain = o.ite = o.div = o.symexp = false; o.minmax = true; return o; }
GenOpt func_opt() { GenOpt o; o.ite = false; o.div = true; return o; }

Asg some_asg(Rng& r, int nx, int nb) {
  Asg a;
  double m = r.unit();
  for (int i = 0; i < nx; ++i) a.x.push_back(m < 0.6 ? (double)r.range(-2, 3) : m < 0.8 ? r.range(-8, 8) * 0.25 : r.uni(-3, 3));
  for (int i = 0; i < nb; ++i) a.b.push_back(r.chance(0.5));
  return a;
}

// Adds variables the pool does not know (introduced by a transformation); quantified ones too.
void absorb(Pool& p, const Variable& v) {
  if (p.xi.count(v.get_id()) || p.bi.count(v.get_id())) return;
  if (v.get_type() == Variable::Type::BOOLEAN) { p.bi[v.get_id()] = (int)p.b.size(); p.b.push_back(v); }
  else { p.xi[v.get_id()] = (int)p.x.size(); p.x.push_back(v); }
}
void absorb(Pool& p, const Formula& f) {
  for (const auto& v : f.GetFreeVariables()) absorb(p, v);
  if (is_conjunction(f) || is_disjunction(f)) for (const auto& o : get_operands(f)) absorb(p, o);
  if (is_negation(f)) absorb(p, get_operand(f));
  if (is_forall(f)) { for (const auto& v : get_quantified_variables(f)) absorb(p, v); absorb(p, get_quantified_formula(f)); }
}
// Builds a formula; an operation on constants outside its domain is refused by the library (C02) and skips the case.
struct Skip {};
Formula mk(Builder& b, const RFP& t) {
  try { return b(t); }
  catch (const std::domain_error&) { throw Skip(); }
  catch (const std::runtime_error& e) { if (strstr(e.what(), "Division by zero") || strstr(e.what(), "NaN")) throw Skip(); throw; }
}
T3 truth(const RFP& f, const Asg& a) { Evaluator e(a); e.grid = &GRID; return e.fv(f); }
void grow(Asg& a, const Pool& p) { a.x.resize(p.x.size(), 0.0); a.b.resize(p.b.size(), 0); }

bool rel_kind(const Formula& f) {
  switch (f.get_kind()) { case FormulaKind::Eq: case FormulaKind::Neq: case FormulaKind::Gt: case FormulaKind::Geq: case FormulaKind::Lt: case FormulaKind::Leq: return true; default: return false; }
}
// own definitions, by kind only
bool d_atomic(const Formula& f) {
  switch (f.get_kind()) {
    case FormulaKind::And: case FormulaKind::Or: return false;
    case FormulaKind::Not: { const Formula& g = get_operand(f); return g.get_kind() == FormulaKind::Var || rel_kind(g); }
    default: return true;
  }
}
bool d_literal(const Formula& f) { return d_atomic(f) || (f.get_kind() == FormulaKind::Not && d_atomic(get_operand(f))); }
bool d_clause(const Formula& f) {
  if (f.get_kind() == FormulaKind::Or) { for (const auto& o : get_operands(f)) if (!d_literal(o)) return false; return true; }
  return d_literal(f);
}
bool d_cnf(const Formula& f) {
  if (f.get_kind() == FormulaKind::And) { for (const auto& o : get_operands(f)) if (!d_clause(o)) return false; return true; }
  return d_clause(f);
}

// ---------------- C09 ----------------
void check_normal(Ctx& c, const Formula& f, const char* where) {
  auto bad = [&](const char* what) { c.violation(std::string("normal-") + what, std::string(where) + ": " + what + " in " + tx(f)); };
  switch (f.get_kind()) {
    case FormulaKind::And: case FormulaKind::Or: {
      c.eval();
      const auto& ops = get_operands(f);
      if (ops.size() < 2) bad("operands<2");
      std::set<std::string> seen;
      for (const auto& o : ops) {
        if (o.get_kind() == f.get_kind()) bad("own-kind");
        if (o.get_kind() == FormulaKind::True || o.get_kind() == FormulaKind::False) bad("truth-constant");
        if (!seen.insert(ser(o)).second) bad("duplicate");
        check_normal(c, o, where);
      }
      break;
    }
    case FormulaKind::Not: {
      const Formula& o = get_operand(f);
      if (o.get_kind() == FormulaKind::Not) bad("double-negation");
      if (o.get_kind() == FormulaKind::True || o.get_kind() == FormulaKind::False) bad("negated-constant");
      check_normal(c, o, where);
      break;
    }
    case FormulaKind::Forall: check_normal(c, get_quantified_formula(f), where); break;
    default: break;
  }
}
// what a conjunction (an) or disjunction of the given formulas must serialise to
std::string expect_list(const std::vector<Formula>& fs, bool an) {
  std::set<std::string> ops;
  for (const auto& f : fs) {
    if (f.get_kind() == (an ? FormulaKind::True : FormulaKind::False)) continue;
    if (f.get_kind() == (an ? FormulaKind::False : FormulaKind::True)) return an ? "F" : "T";
    if (f.get_kind() == (an ? FormulaKind::And : FormulaKind::Or)) for (const auto& o : get_operands(f)) ops.insert(ser(o));
    else ops.insert(ser(f));
  }
  if (ops.empty()) return an ? "T" : "F";
  if (ops.size() == 1) return *ops.begin();
  std::string s = an ? "&(" : "|(";
  for (auto& o : ops) s += o + ";";
  return s + ")";
}
void c09(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(1, 4), nx = r.range(1, 3);
  Pool p(nx, nb);
  LGen lg(r, nx, 0, nb, r.chance(0.6) ? poly_opt() : func_opt(), 0, r.range(0, 2));
  Builder bld(p, &r);
  const int mode = r.below(3);
  if (mode < 2) {
    RFP t = lg.form(r.range(1, 4));
    c.note(cut(str(t), 1500));
    Formula f = mk(bld, t);
    const std::string before = ser(f);
    check_normal(c, f, "built formula");
    // everything the builder made on the way is alive in no one's hands: rebuild in canonical form and compare truth
    int informative = 0, seen = 0;
    for (int k = 0; k < 3; ++k) {
      Asg a = some_asg(r, nx, nb);
      for (int m = 0; m < (1 << nb); ++m) {
        for (int i = 0; i < nb; ++i) a.b[i] = (m >> i) & 1;
        Evaluator e(a);
        T3 want = e.fv(t);
        if (want == T3::I) { c.count("inconclusive"); continue; }
        bool got;
        try { got = f.Evaluate(p.env(a)); } catch (const std::exception& ex) { c.violation("evaluate-throws", std::string(ex.what()) + " for " + tx(f) + " at " + astr(a)); return; }
        c.eval(); ++informative; seen |= got ? 1 : 2;
        if (got != (want == T3::T)) c.violation("truth", "built from " + cut(str(t)) + " evaluates to " + (got ? "true" : "false") + " at " + astr(a) + ", should be " + tv(want) + "; formula " + tx(f));
        Formula n = !f;
        if (n.Evaluate(p.env(a)) == got) c.violation("truth-not", "a formula and its negation agree at " + astr(a) + ": " + tx(f));
      }
    }
    if (seen == 3) c.count("formulas_seen_true_and_false");
    check_normal(c, !f, "negation");
    if (ser(!!f) != before) c.violation("double-negation", "!!f is " + tx(!!f) + " for f = " + tx(f));
    if (ser(f) != before) c.violation("changed", "building from a formula changed it: " + before + " to " + tx(f));
    if (informative) c.nontrivial(str(t));
    return;
  }
  // lists: flattening, units, absorbing elements, duplicates, in all forms
  std::vector<Formula> fs;
  int n = r.range(0, 6);
  if (r.chance(0.5)) {
    // literals over very few operands: complements, mirror images and bounds meet, every pair of them in turn
    std::vector<Formula> at;
    const Expression x = p.x[0], y = nx > 1 ? Expression(p.x[1]) : Expression(p.x[0]) * 2.0;
    for (const auto& q : std::vector<std::pair<Expression, Expression>>{{x, y}, {y, x}, {x, 0.0}, {0.0, x}, {x, 1.0}, {x + y, 1.0}})
      for (const Formula& f : {q.first == q.second, q.first != q.second, q.first > q.second, q.first >= q.second, q.first < q.second, q.first <= q.second}) at.push_back(f);
    for (int i = 0; i < nb; ++i) { at.push_back(Formula(p.b[i])); at.push_back(!Formula(p.b[i])); }
    at.push_back(Formula::True()); at.push_back(Formula::False());
    at.push_back(at[2] && at[36]); at.push_back(at[2] || at[36]); at.push_back(!at[0]);
    const size_t m = at.size();
    const uint64_t q = c.cur / 3;
    fs.push_back(at[q % m]); fs.push_back(at[(q / m) % m]);
    n = 2 + r.below(3);
    while ((int)fs.size() < n) fs.push_back(r.pick(at));
  }
  for (int i = (int)fs.size(); i < n; ++i) {
    if (!fs.empty() && r.chance(0.2)) fs.push_back(r.pick(fs));
    else fs.push_back(mk(bld, lg.form(r.range(0, 2))));
  }
  const bool an = r.chance(0.5);
  std::string d = an ? "and-list" : "or-list";
  for (auto& f : fs) d += " | " + cut(ser(f), 200);
  c.note(d);
  const std::string want = expect_list(fs, an);
  std::vector<std::string> before; for (auto& f : fs) before.push_back(ser(f));
  auto check = [&](const Formula& got, const char* form) {
    c.eval();
    check_normal(c, got, form);
    if (ser(got) != want) c.violation(std::string("list-") + form, d + ": " + form + " gives " + tx(got) + " instead of " + cut(want, 400));
  };
  check(an ? make_conjunction(fs) : make_disjunction(fs), "vector");
  check(an ? make_conjunction(std::set<Formula>(fs.begin(), fs.end())) : make_disjunction(std::set<Formula>(fs.begin(), fs.end())), "set");
  if (n > 0) {
    Formula a = fs[0];
    for (int i = 1; i < n; ++i) a = an ? (a && fs[i]) : (a || fs[i]);
    check(a, "operator-copies");
    Formula b = fs[0];
    for (int i = 1; i < n; ++i) b = an ? (std::move(b) && fs[i]) : (std::move(b) || fs[i]);
    check(b, "operator-left-moved");
    Formula e = fs[n - 1];
    for (int i = n - 2; i >= 0; --i) e = an ? (fs[i] && std::move(e)) : (fs[i] || std::move(e));
    check(e, "operator-right-moved");
    Formula g = fs[0], alias = g;
    for (int i = 1; i < n; ++i) { Formula t = fs[i]; g = an ? (std::move(g) && std::move(t)) : (std::move(g) || std::move(t)); if (r.chance(0.3)) alias = g; }
    check(g, "operator-both-moved");
    Formula h = an ? Formula::True() : Formula::False();
    for (int i = 0; i < n; ++i) { if (r.chance(0.5)) h = an ? (h && fs[i]) : (h || fs[i]); else h = an ? (fs[i] && h) : (fs[i] || h); }
    check(h, "operator-mixed-order");
    // balanced
    std::vector<Formula> w = fs;
    while (w.size() > 1) { int i = r.below((int)w.size() - 1); Formula q = an ? (w[i] && w[i + 1]) : (w[i] || w[i + 1]); w[i] = q; w.erase(w.begin() + i + 1); }
    check(w[0], "operator-tree");
    // a Boolean variable as operand
    const Variable& v = p.b[r.below(nb)];
    std::vector<Formula> fv = fs; fv.push_back(Formula(v));
    const std::string wv = expect_list(fv, an);
    Formula base = an ? make_conjunction(fs) : make_disjunction(fs);
    for (int k = 0; k < 2; ++k) {
      Formula q = k == 0 ? (an ? (base && v) : (base || v)) : (an ? (v && base) : (v || base));
      c.eval(); check_normal(c, q, "variable-operand");
      if (ser(q) != wv) c.violation("list-variable", d + ": with a variable gives " + tx(q) + " instead of " + cut(wv, 400));
    }
    // absorbing and unit constants, idempotence
    if (ser(an ? (base && Formula::False()) : (base || Formula::True())) != (an ? "F" : "T")) c.violation("absorbing", d);
    if (ser(an ? (base && Formula::True()) : (base || Formula::False())) != want) c.violation("unit", d);
    if (ser(an ? (base && base) : (base || base)) != want) c.violation("idempotent", d);
    { Formula s = base; s = an ? (std::move(s) && base) : (std::move(s) || base); if (ser(s) != want || ser(base) != want) c.violation("idempotent-moved", d + " gives " + tx(s)); }
  }
  for (size_t i = 0; i < fs.size(); ++i) if (ser(fs[i]) != before[i]) c.violation("operand-changed", d + ": operand " + std::to_string(i) + " became " + tx(fs[i]));
  if (fs.size() > 1) c.nontrivial(d);
}

// ---------------- C13 ----------------
RFP ref_strengthen(const RFP& f, double d) {
  switch (f->k) {
    case FK::True: case FK::False: case FK::BVar: return f;
    case FK::Not: return fnot(ref_strengthen(f->ops[0], -d));
    case FK::And: case FK::Or: { std::vector<RFP> o; for (auto& x : f->ops) o.push_back(ref_strengthen(x, d)); return fops(f->k, o); }
    case FK::Gt: case FK::Geq: return frel(f->k, r2(K::Sub, f->a, f->b), rc(d));
    case FK::Lt: case FK::Leq: return frel(f->k, r2(K::Sub, f->a, f->b), rc(-d));
    case FK::Eq: if (d > 0) return f; return fops(FK::And, {frel(FK::Geq, r2(K::Sub, f->a, f->b), rc(d)), frel(FK::Leq, r2(K::Sub, f->a, f->b), rc(-d))});
    case FK::Neq: if (d < 0) return ft(); return fops(FK::Or, {frel(FK::Gt, r2(K::Sub, f->a, f->b), rc(d)), frel(FK::Lt, r2(K::Sub, f->a, f->b), rc(-d))});
    default: throw std::runtime_error("ref_strengthen");
  }
}
void c13(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(1, 3), nx = r.range(1, 3);
  Pool p(nx, nb);
  GenOpt o = r.chance(0.6) ? poly_opt() : func_opt();
  if (r.chance(0.4)) o.ite = true;
  LGen lg(r, nx, 0, nb, o, 0, r.range(0, 3));
  Builder bld(p, &r);
  RFP t = lg.form(r.range(0, 3));
  static const std::vector<double> deltas{0.125, 0.5, 1, 0.25, 2, 0.001, 1e-10, 10, 0.1, 1e-3};
  const double delta = r.chance(0.8) ? r.pick(deltas) : r.uni(1e-6, 3);
  c.note("delta " + dstr(delta) + " " + cut(str(t), 1500));
  Formula f = mk(bld, t);
  const std::string before = ser(f);
  const RFP rf = to_ref(f, p);
  for (int dir = 0; dir < 2; ++dir) {
    const char* name = dir ? "DeltaWeaken" : "DeltaStrengthen";
    Formula g = dir ? DeltaWeaken(f, delta) : DeltaStrengthen(f, delta);
    if (ser(f) != before) c.violation("input-changed", std::string(name) + " changed its input " + before);
    RFP rg = to_ref(g, p), want = ref_strengthen(rf, dir ? -delta : delta);
    for (const auto& v : g.GetFreeVariables()) if (!f.GetFreeVariables().include(v)) c.violation("new-variable", std::string(name) + " introduces " + v.to_string());
    int n = 0;
    for (int k = 0; k < 10; ++k) {
      Asg a = some_asg(r, nx, nb);
      if (k % 2) for (auto& v : a.x) v += r.pick(std::vector<double>{delta, -delta, delta / 2, -delta / 2, 1.5 * delta, -1.5 * delta, 2 * delta, 0});
      T3 tf = truth(rf, a), tg = truth(rg, a), tw = truth(want, a);
      std::string at = std::string(name) + " by " + dstr(delta) + " of " + tx(f) + " gives " + tx(g) + "; at " + astr(a);
      if (tf != T3::I && tg != T3::I) {
        c.eval();
        if (dir == 0 && tg == T3::T && tf == T3::F) c.violation("strengthen-unsound", at + " the strengthened formula holds and the formula does not");
        if (dir == 1 && tf == T3::T && tg == T3::F) c.violation("weaken-unsound", at + " the formula holds and the weakened formula does not");
        if (tf != tg) c.count("points_where_delta_matters");
        ++n;
      }
      if (tw != T3::I && tg != T3::I) {
        c.eval();
        if (tw != tg) c.violation(std::string(dir ? "weaken" : "strengthen") + "-amount", at + " it is " + tv(tg) + " and a shift by exactly delta gives " + tv(tw));
      }
    }
    if (n) c.nontrivial(str(t));
  }
}

// ---------------- C16 ----------------
void c16(Ctx& c) {
  Rng r = c.rng();
  if (r.chance(0.12)) {
    // relational operators and variable sets
    static const RelationalOperator ops[] = {RelationalOperator::EQ, RelationalOperator::NEQ, RelationalOperator::GT, RelationalOperator::GEQ, RelationalOperator::LT, RelationalOperator::LEQ};
    auto holds = [](RelationalOperator o, double a, double b) { switch (o) { case RelationalOperator::EQ: return a == b; case RelationalOperator::NEQ: return a != b; case RelationalOperator::GT: return a > b; case RelationalOperator::GEQ: return a >= b; case RelationalOperator::LT: return a < b; default: return a <= b; } };
    for (auto o : ops) {
      const RelationalOperator no = !o;
      c.eval();
      for (double d : {-1.0, 0.0, 1.0}) if (holds(o, d, 0) == holds(no, d, 0)) c.violation("operator-negation", "the negation of relational operator " + std::to_string((int)o) + " is " + std::to_string((int)no));
      if (!no != o) c.violation("operator-double-negation", std::to_string((int)o));
    }
    std::vector<Variable> vs; const int n = r.range(1, 10);
    for (int i = 0; i < n; ++i) vs.emplace_back("v" + std::to_string(i));
    for (int k = 0; k < 10; ++k) {
      Variables a, b; std::set<Variable::Id> sa, sb; bool inter = false;
      double pa = r.unit(), pb = r.unit() * r.unit();
      for (auto& v : vs) { if (r.chance(pa)) { a.insert(v); sa.insert(v.get_id()); } if (r.chance(pb)) { b.insert(v); sb.insert(v.get_id()); } }
      for (auto i : sa) if (sb.count(i)) inter = true;
      c.eval(2);
      c.count(inter ? "intersecting_sets" : "disjoint_sets");
      if (HaveIntersection(a, b) != inter || HaveIntersection(b, a) != inter) c.violation("have-intersection", a.to_string() + " and " + b.to_string() + (inter ? " intersect" : " are disjoint"));
      c.nontrivial(a.to_string() + b.to_string());
    }
    return;
  }
  const int nb = r.range(1, 4), nx = 2;
  Pool p(nx + 2, nb);
  LGen lg(r, nx, 2, nb, poly_opt(), r.chance(0.5) ? 0.15 : 0, r.below(2));
  Builder bld(p, &r);
  // shapes near the definitions: (conjunction of) disjunctions of literals, sometimes broken at one place
  auto lit = [&](int depth) { RFP a = r.chance(0.15) && lg.pforall > 0 ? lg.form0(1) : lg.atom(); if (depth > 0 && r.chance(0.1)) a = lg.form(depth); return r.chance(0.4) ? fnot(a) : a; };
  auto clause = [&](double br) { std::vector<RFP> o; for (int n = r.range(1, 4); n > 0; --n) o.push_back(lit(r.chance(br) ? 2 : 0)); return o.size() == 1 ? o[0] : fops(FK::Or, o); };
  RFP t;
  switch (r.below(5)) {
    case 0: t = lg.form(r.range(0, 3)); break;
    case 1: t = clause(0.2); break;
    case 2: t = lit(1); break;
    default: { std::vector<RFP> o; for (int n = r.range(1, 4); n > 0; --n) o.push_back(clause(0.1)); t = o.size() == 1 ? o[0] : fops(FK::And, o); }
  }
  c.note(cut(str(t), 1500));
  Formula f = mk(bld, t);
  auto call = [&](bool (*fn)(const Formula&), const char* name, bool want) {
    bool got;
    try { got = fn(f); } catch (const std::exception& e) { c.violation(std::string(name) + "-throws", std::string(name) + " fails on " + tx(f) + ": " + e.what()); return; }
    c.eval();
    c.count(std::string(name) + (want ? "_true" : "_false"));
    if (got != want) c.violation(name, std::string(name) + " is " + (got ? "true" : "false") + " for " + tx(f));
  };
  call(is_atomic, "is_atomic", d_atomic(f));
  call(is_clause, "is_clause", d_clause(f));
  call(is_cnf, "is_cnf", d_cnf(f));
  if (d_cnf(f)) {
    std::set<Formula> cl;
    try { cl = get_clauses(f); } catch (const std::exception& e) { c.violation("get_clauses-throws", tx(f) + ": " + e.what()); return; }
    c.eval();
    for (const auto& k : cl) if (!d_clause(k)) c.violation("get_clauses-clause", "get_clauses of " + tx(f) + " contains " + tx(k));
    std::vector<Formula> v(cl.begin(), cl.end());
    if (expect_list(v, true) != ser(f)) c.violation("get_clauses", "the clauses of " + tx(f) + " conjoin to " + cut(expect_list(v, true), 300));
  }
  c.nontrivial(ser(f));
}

// ---------------- C17, C18 ----------------
bool nnf_shape(const Formula& f, bool push) {
  switch (f.get_kind()) {
    case FormulaKind::And: case FormulaKind::Or: for (const auto& o : get_operands(f)) if (!nnf_shape(o, push)) return false; return true;
    case FormulaKind::Not: { const Formula& o = get_operand(f); return o.get_kind() == FormulaKind::Var || o.get_kind() == FormulaKind::Forall || (!push && rel_kind(o)); }
    default: return true;
  }
}
void conv(Ctx& c, bool cnf) {
  Rng r = c.rng();
  const int nb = r.range(1, 4), nx = r.range(1, 3), nq = 2;
  Pool p(nx + nq, nb);
  LGen lg(r, nx, nq, nb, r.chance(0.7) ? poly_opt() : func_opt(), r.chance(0.4) ? 0.12 : 0, r.range(0, 1));
  Builder bld(p, &r);
  RFP t = lg.form(r.range(1, cnf ? 3 : 4));
  if (cnf && t->size > 60) { c.count("skipped_large"); return; }
  c.note(cut(str(t), 1500));
  Formula f = mk(bld, t);
  const std::string before = ser(f);
  const RFP rf = to_ref(f, p);
  for (int push = cnf ? 1 : 0; push < 2; ++push) {
    Formula g = cnf ? NaiveCnfizer{}.Convert(f) : (push == 0 && r.chance(0.5)) ? Nnfizer{}.Convert(f) : Nnfizer{}.Convert(f, push);
    c.eval();
    const char* nm = cnf ? "NaiveCnfizer" : push ? "Nnfizer(push)" : "Nnfizer";
    if (ser(f) != before) c.violation("input-changed", std::string(nm) + " changed its input");
    if (cnf ? !d_cnf(g) : !nnf_shape(g, push)) c.violation(std::string(cnf ? "cnf-shape" : "nnf-shape") + (push ? "-push" : ""), std::string(nm) + " of " + tx(f) + " gives " + tx(g));
    for (const auto& v : g.GetFreeVariables()) if (!f.GetFreeVariables().include(v)) c.violation("new-variable", std::string(nm) + " of " + tx(f) + " introduces " + v.to_string());
    RFP rg;
    try { rg = to_ref(g, p); } catch (const std::out_of_range&) { c.violation("unknown-variable", std::string(nm) + " of " + tx(f) + " gives " + tx(g)); return; }
    int n = 0, seen = 0;
    for (int k = 0; k < 4; ++k) {
      Asg a = some_asg(r, nx + nq, nb);
      for (int m = 0; m < (1 << nb); ++m) {
        for (int i = 0; i < nb; ++i) a.b[i] = (m >> i) & 1;
        T3 x = truth(rf, a), y = truth(rg, a);
        if (x == T3::I || y == T3::I) { c.count("inconclusive"); continue; }
        c.eval(); ++n; seen |= x == T3::T ? 1 : 2;
        if (x != y) c.violation("truth", std::string(nm) + " of " + tx(f) + " gives " + tx(g) + "; at " + astr(a) + " they are " + tv(x) + " and " + tv(y));
      }
    }
    if (seen == 3) c.count("formulas_seen_true_and_false");
    if (n && f.get_kind() != FormulaKind::Var && !rel_kind(f)) c.nontrivial(str(t));
  }
}

// ---------------- C19 ----------------
std::set<Variable::Id> all_vars(const Formula& f) {
  std::set<Variable::Id> s;
  for (const auto& v : f.GetFreeVariables()) s.insert(v.get_id());
  return s;
}
void c19(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(1, 4), nx = r.range(1, 2), nq = 2;
  Pool p(nx + nq, nb);
  LGen lg(r, nx, nq, nb, r.chance(0.85) ? poly_opt() : func_opt(), r.chance(0.4) ? 0.15 : 0, r.below(2));
  Builder bld(p, &r);
  const int rounds = r.range(1, 4);
  TseitinCnfizer shared;
  std::set<Variable::Id> used;
  for (auto& v : p.x) used.insert(v.get_id());
  for (auto& v : p.b) used.insert(v.get_id());
  std::vector<Formula> earlier;
  for (int round = 0; round < rounds; ++round) {
    RFP t = lg.form(r.range(0, 3));
    if (t->size > 70) { c.count("skipped_large"); continue; }
    c.note("round " + std::to_string(round) + ": " + cut(str(t), 1500));
    Formula f = mk(bld, t);
    if (!earlier.empty() && r.chance(0.15)) f = r.pick(earlier);
    earlier.push_back(f);
    TseitinCnfizer own;
    TseitinCnfizer& cnf = r.chance(0.7) ? shared : own;
    const std::string before = ser(f);
    std::vector<Formula> cl = cnf.Convert(f);
    c.eval();
    if (ser(f) != before) c.violation("input-changed", "Convert changed its input");
    std::string txt = "Tseitin of " + tx(f) + " gives";
    for (auto& k : cl) txt += "  " + cut(ser(k), 200);
    txt = cut(txt, 1800);
    std::set<Variable::Id> orig = all_vars(f), fresh;
    std::vector<std::pair<Variable, Formula>> defs;
    for (const auto& q : cnf.map()) {
      defs.push_back({q.first, q.second});
      if (used.count(q.first.get_id())) c.violation("not-fresh", "the variable " + q.first.to_string() + " recorded for this conversion exists already; " + txt);
      if (q.first.get_type() != Variable::Type::BOOLEAN) c.violation("fresh-type", txt);
      fresh.insert(q.first.get_id());
      absorb(p, q.first);
    }
    for (auto& q : defs) used.insert(q.first.get_id());
    bool stop = false;
    for (auto& k : cl) {
      if (!d_clause(k)) { c.violation("not-a-clause", cut(ser(k), 300) + " is not a clause; " + txt); stop = true; }
      for (const auto& v : k.GetFreeVariables()) if (!orig.count(v.get_id()) && !fresh.count(v.get_id())) { c.violation("unrecorded-variable", v.to_string() + " is neither in the formula nor recorded; " + txt); stop = true; }
    }
    for (auto& q : defs) for (const auto& v : q.second.GetFreeVariables()) if (!orig.count(v.get_id()) && !fresh.count(v.get_id())) { c.violation("unrecorded-variable", v.to_string() + " in a definition; " + txt); stop = true; }
    if (stop) continue;
    Pool q = p; for (auto& k : cl) absorb(q, k); for (auto& d : defs) absorb(q, d.second);
    RFP rf = to_ref(f, q);
    std::vector<RFP> rcl; for (auto& k : cl) rcl.push_back(to_ref(k, q));
    std::vector<std::pair<int, RFP>> rdef; for (auto& d : defs) rdef.push_back({q.bi.at(d.first.get_id()), to_ref(d.second, q)});
    c.count("clauses", (int64_t)cl.size()); c.count("fresh_variables", (int64_t)defs.size());
    int seen = 0;
    for (int k = 0; k < 6; ++k) {
      Asg a = some_asg(r, nx + nq, nb);
      const int lim = nb <= 3 ? (1 << nb) : 6;
      for (int m0 = 0; m0 < lim; ++m0) {
        for (int i = 0; i < nb; ++i) a.b[i] = nb <= 3 ? (m0 >> i) & 1 : r.chance(0.5);
        grow(a, q);
        T3 want = truth(rf, a);
        if (want == T3::I) { c.count("inconclusive"); continue; }
        // values of the definitions, innermost first (the definitions are acyclic)
        std::vector<char> done(rdef.size(), 0); bool inc = false;
        for (size_t pass = 0; pass <= rdef.size(); ++pass) for (size_t i = 0; i < rdef.size(); ++i) { T3 v = truth(rdef[i].second, a); if (v == T3::I) inc = true; else a.b[rdef[i].first] = v == T3::T; }
        if (inc) continue;
        bool all = true, ic = false; size_t bad = 0;
        for (size_t i = 0; i < rcl.size(); ++i) { T3 v = truth(rcl[i], a); if (v == T3::I) ic = true; if (v == T3::F) { all = false; bad = i; } }
        if (ic) continue;
        c.eval(); seen |= want == T3::T ? 1 : 2;
        if (want == T3::T && !all) {
          // some other extension may still do (not every encoding fixes the fresh values)
          bool some = false;
          if (rdef.size() <= 12) for (int m = 0; m < (1 << rdef.size()) && !some; ++m) {
            for (size_t i = 0; i < rdef.size(); ++i) a.b[rdef[i].first] = (m >> i) & 1;
            some = true; for (auto& k2 : rcl) if (truth(k2, a) != T3::T) { some = false; break; }
          }
          if (!some && rdef.size() <= 12) c.violation("lost-model", txt + "; at " + astr(a) + " the formula holds but no values of the fresh variables satisfy the clauses, e.g. " + cut(ser(cl[bad]), 200));
        }
        if (want == T3::F) {
          const int K = (int)rdef.size();
          const int tries = K <= 9 ? (1 << K) : 600;
          for (int m = 0; m < tries; ++m) {
            for (int i = 0; i < K; ++i) a.b[rdef[i].first] = K <= 9 ? (m >> i) & 1 : r.chance(0.5);
            bool sat = true; for (auto& k2 : rcl) if (truth(k2, a) != T3::T) { sat = false; break; }
            if (sat) { c.violation("new-model", txt + "; at " + astr(a) + " the clauses hold but the formula does not"); break; }
          }
          c.count("extensions_tried", tries);
        }
      }
    }
    if (seen == 3) c.count("formulas_seen_true_and_false");
    if (seen && !defs.empty()) c.nontrivial(str(t));
  }
}

// ---------------- C20 ----------------
void collect_ites(const RP& e, std::vector<RP>& v);
void collect_ites(const RFP& f, std::vector<RP>& v) {
  if (f->a) collect_ites(f->a, v);
  if (f->b) collect_ites(f->b, v);
  for (auto& o : f->ops) collect_ites(o, v);
}
void collect_ites(const RP& e, std::vector<RP>& v) {
  if (e->k == K::Ite) { v.push_back(e); collect_ites(e->cond, v); }
  if (e->a) collect_ites(e->a, v);
  if (e->b) collect_ites(e->b, v);
}
// Truth of a formula in which some variables are "new": a quantified new variable ranges over the
// values the original if-then-else terms and their branches take, plus two unrelated values.
struct NewEval {
  const std::vector<RP>& ites;
  std::set<int> isnew;
  long budget = 30000;
  std::vector<double> cands(const Asg& a) const {
    std::set<double> s{1000.5, -999.25};
    Evaluator e(a);
    for (auto& t : ites) for (const RP& q : {t, t->a, t->b}) { V v = e.ev(q); if (v.ok) s.insert((double)v.v); }
    return std::vector<double>(s.begin(), s.end());
  }
  T3 fv(const RFP& f, Asg& a) {
    if (--budget < 0) return T3::I;
    switch (f->k) {
      case FK::Not: { T3 x = fv(f->ops[0], a); return x == T3::I ? x : x == T3::T ? T3::F : T3::T; }
      case FK::And: { bool inc = false; for (auto& o : f->ops) { T3 x = fv(o, a); if (x == T3::F) return x; if (x == T3::I) inc = true; } return inc ? T3::I : T3::T; }
      case FK::Or: { bool inc = false; for (auto& o : f->ops) { T3 x = fv(o, a); if (x == T3::T) return x; if (x == T3::I) inc = true; } return inc ? T3::I : T3::F; }
      case FK::Forall: {
        std::vector<int> old, nw;
        for (int q : f->qvars) (isnew.count(q) ? nw : old).push_back(q);
        Asg keep = a;
        T3 res = all(f->ops[0], old, 0, nw, a);
        a = keep;
        return res;
      }
      default: return truth(f, a);
    }
  }
  T3 all(const RFP& b, const std::vector<int>& old, size_t i, const std::vector<int>& nw, Asg& a) {
    bool inc = false;
    if (i < old.size()) { for (double g : GRID) { a.x[old[i]] = g; T3 x = all(b, old, i + 1, nw, a); if (x == T3::F) return x; if (x == T3::I) inc = true; } return inc ? T3::I : T3::T; }
    std::vector<double> cs = cands(a);
    return allnew(b, nw, 0, cs, a);
  }
  T3 allnew(const RFP& b, const std::vector<int>& nw, size_t i, const std::vector<double>& cs, Asg& a) {
    if (i == nw.size()) return fv(b, a);
    bool inc = false;
    for (double v : cs) { a.x[nw[i]] = v; T3 x = allnew(b, nw, i + 1, cs, a); if (x == T3::F) return x; if (x == T3::I) inc = true; }
    return inc ? T3::I : T3::T;
  }
  T3 some(const RFP& b, const std::vector<int>& nw, size_t i, const std::vector<double>& cs, Asg& a) {
    if (i == nw.size()) return fv(b, a);
    bool inc = false;
    for (double v : cs) { a.x[nw[i]] = v; T3 x = some(b, nw, i + 1, cs, a); if (x == T3::T) return x; if (x == T3::I) inc = true; }
    return inc ? T3::I : T3::F;
  }
};
bool has_ite(const Formula& f, const Pool& p) { std::vector<RP> v; collect_ites(to_ref(f, p), v); return !v.empty(); }
void c20(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(1, 2), nx = 2, nq = 1;
  Pool p(nx + nq, nb);
  GenOpt o = poly_opt(); o.minmax = true;
  LGen lg(r, nx, nq, nb, o, r.chance(0.3) ? 0.2 : 0, r.below(2));
  Builder bld(p, &r);
  // expressions with if-then-else, at most 3 of them
  int budget = r.chance(0.1) ? 0 : r.chance(0.2) ? 4 : r.range(1, 3);
  bool in_q = false;
  std::function<RP(int)> ex; std::function<RFP(int)> fm;
  std::vector<RP> made;  // if-then-else terms to use again, under another guard
  ex = [&](int d) -> RP {
    if (budget > 0 && !made.empty() && r.chance(0.4)) { RP q = r.pick(made); int n = 0; std::function<void(const RP&)> cnt = [&](const RP& x) { if (!x) return; if (x->k == K::Ite) ++n; cnt(x->a); cnt(x->b); }; cnt(q); if (n <= budget) { budget -= n; return q; } }
    if (budget > 0 && r.chance(0.45)) { --budget; RFP cd = d > 0 && r.chance(0.4) ? fm(d - 1) : (r.chance(0.3) ? fbv(r.below(nb)) : frel(r.pick(std::vector<FK>{FK::Gt, FK::Geq, FK::Lt, FK::Leq, FK::Eq, FK::Neq}), rv(r.below(in_q ? nx + nq : nx)), rc(r.range(-1, 2)))); RP a = ex(d - 1), b = ex(d - 1); RP q = rite(cd, a, b); if (!in_q) made.push_back(q); return q; }
    if (d <= 0) return r.chance(0.6) ? rv(r.below(in_q ? nx + nq : nx)) : rc(r.range(-3, 3));
    switch (r.below(9)) {
      case 0: case 1: return r2(K::Add, ex(d - 1), ex(d - 1));
      case 2: return r2(K::Sub, ex(d - 1), ex(d - 1));
      case 3: return r2(K::Mul, ex(d - 1), ex(d - 1));
      case 4: return r2(r.chance(0.5) ? K::Min : K::Max, ex(d - 1), ex(d - 1));
      case 5: return r1(K::Abs, ex(d - 1));
      case 6: return r2(K::Pow, ex(d - 1), rc(r.range(2, 3)));
      case 7: return r2(K::Mul, rc(r.pick(std::vector<double>{2, -1, 3, 0.5})), ex(d - 1));
      default: return ex(d - 1);
    }
  };
  fm = [&](int d) -> RFP {
    if (d > 0 && r.chance(0.6)) switch (r.below(5)) {
      case 0: return fops(FK::And, {fm(d - 1), fm(d - 1)});
      case 1: return fops(FK::Or, {fm(d - 1), fm(d - 1)});
      case 2: return fnot(fm(d - 1));
      case 3: return fops(FK::Imply, {fm(d - 1), fm(d - 1)});
      default: if (!in_q && lg.pforall > 0) { in_q = true; RFP b = fm(d - 1); in_q = false; return fforall({nx}, b); } return fops(FK::Or, {fm(d - 1), fnot(fm(d - 1))});
    }
    if (r.chance(0.1)) return fbv(r.below(nb));
    return frel(r.pick(std::vector<FK>{FK::Gt, FK::Geq, FK::Lt, FK::Leq, FK::Eq, FK::Neq}), ex(2), r.chance(0.5) ? rc(r.range(-2, 3)) : ex(1));
  };
  RFP t = fm(r.range(0, 2));
  c.note(cut(str(t), 1500));
  Formula f = mk(bld, t);
  const std::string before = ser(f);
  const bool ite = has_ite(f, p);
  bool quant = false;
  { std::function<void(const RFP&)> w = [&](const RFP& g) { if (g->k == FK::Forall) quant = true; for (auto& x : g->ops) w(x); }; w(t); }
  IfThenElseEliminator el;
  Formula g = el.Process(f);
  c.eval();
  if (ser(f) != before) c.violation("input-changed", "Process changed its input");
  std::string txt = cut("eliminating from " + tx(f) + " gives " + tx(g), 1500);
  Pool q = p; absorb(q, g);
  NewEval ne{{}, {}};
  for (size_t i = p.x.size(); i < q.x.size(); ++i) ne.isnew.insert((int)i);
  if (has_ite(g, q)) c.violation("ite-left", txt);
  std::set<Variable::Id> rep; for (const auto& v : el.variables()) rep.insert(v.get_id());
  for (auto id : rep) if (p.xi.count(id) || p.bi.count(id)) c.violation("not-fresh", "a variable of the formula is reported as introduced; " + txt);
  std::vector<int> nw;
  for (const auto& v : g.GetFreeVariables()) {
    if (p.xi.count(v.get_id()) || p.bi.count(v.get_id())) continue;
    if (!rep.count(v.get_id())) c.violation("not-reported", v.to_string() + " is introduced but not reported; " + txt);
    if (v.get_type() != Variable::Type::BOOLEAN) nw.push_back(q.xi.at(v.get_id()));
  }
  if (!ite) {
    if (!quant && ser(g) != before) c.violation("no-ite-changed", txt);
    if (!quant && !rep.empty()) c.violation("no-ite-variables", txt);
  }
  RFP rf = to_ref(f, p), rg = to_ref(g, q);
  std::vector<RP> ites; collect_ites(rf, ites);
  NewEval n2{ites, ne.isnew};
  if (nw.size() > 4 || n2.isnew.size() > 4) { c.count("skipped_many_variables"); return; }
  c.count("introduced", (int64_t)n2.isnew.size());
  int seen = 0;
  for (int k = 0; k < 6; ++k) {
    Asg a; for (int i = 0; i < nx + nq; ++i) a.x.push_back(r.range(-2, 3)); for (int i = 0; i < nb; ++i) a.b.push_back(r.chance(0.5));
    T3 want = truth(rf, a);
    if (want == T3::I) { c.count("inconclusive"); continue; }
    Asg b = a; grow(b, q);
    n2.budget = 30000;
    std::vector<double> cs = n2.cands(a);
    T3 got = n2.some(rg, nw, 0, cs, b);
    if (got == T3::I) { c.count("inconclusive"); continue; }
    c.eval(); seen |= want == T3::T ? 1 : 2;
    if (got != want) c.violation(want == T3::T ? "lost-solution" : "new-solution", txt + "; at " + astr(a) + " the original is " + tv(want) + " and the result is " + (got == T3::T ? "satisfiable" : "unsatisfiable") + " over the introduced variables");
  }
  if (seen == 3) c.count("formulas_seen_true_and_false");
  if (seen && ite) c.nontrivial(str(t));
}

// ---------------- C21 ----------------
void c21(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(1, 3), nx = r.range(1, 3), nq = 1;
  Pool p(nx + nq, nb);
  LGen lg(r, nx, nq, nb, r.chance(0.8) ? poly_opt() : func_opt(), r.chance(0.4) ? 0.15 : 0, r.below(3));
  Builder bld(p, &r);
  PredicateAbstractor pa;
  std::map<Variable::Id, std::string> atom_of;  // variable -> serialised atom, across conversions
  std::map<std::string, Variable::Id> var_of;
  std::vector<Formula> earlier;
  const int rounds = r.range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    std::vector<Formula> fs; std::string d;
    const bool many = r.chance(0.3);
    for (int n = many ? r.range(0, 4) : 1; n > 0; --n) {
      if (!earlier.empty() && r.chance(0.25)) { fs.push_back(r.chance(0.5) ? r.pick(earlier) : !r.pick(earlier)); }
      else fs.push_back(mk(bld, lg.form(r.range(0, 3))));
      earlier.push_back(fs.back());
      d += " " + cut(ser(fs.back()), 300);
    }
    c.note("round " + std::to_string(round) + d);
    Formula g = many ? pa.Convert(fs) : pa.Convert(fs[0]);
    c.eval();
    std::string txt = cut("abstracting" + d + " gives " + tx(g), 1500);
    // recorded correspondence: stable, one to one, in both directions
    const auto& m = pa.var_to_formula_map();
    for (const auto& q : m) {
      std::string a = ser(q.second);
      auto it = atom_of.find(q.first.get_id());
      if (it != atom_of.end() && it->second != a) c.violation("atom-changed", "variable " + q.first.to_string() + " now stands for " + cut(a, 200) + "; " + txt);
      auto jt = var_of.find(a);
      if (jt != var_of.end() && jt->second != q.first.get_id()) c.violation("atom-twice", "two variables stand for " + cut(a, 200) + "; " + txt);
      if (q.first.get_type() != Variable::Type::BOOLEAN || p.bi.count(q.first.get_id()) || p.xi.count(q.first.get_id())) c.violation("not-fresh", txt);
      if (!(rel_kind(q.second) || q.second.get_kind() == FormulaKind::Forall)) c.violation("not-an-atom", "recorded atom " + cut(a, 200) + "; " + txt);
      try {
        if (!pa[q.second].equal_to(q.first)) c.violation("lookup-formula", cut(a, 200) + " is looked up as another variable; " + txt);
        if (ser(pa[q.first]) != a) c.violation("lookup-variable", txt);
      } catch (const std::exception&) { c.violation("lookup-throws", cut(a, 200) + " is recorded but not found; " + txt); }
      c.eval(2);
      atom_of[q.first.get_id()] = a; var_of[a] = q.first.get_id();
    }
    if (m.size() != atom_of.size()) c.violation("atom-forgotten", std::to_string(m.size()) + " atoms recorded, " + std::to_string(atom_of.size()) + " seen; " + txt);
    // propositional?
    bool prop = true;
    std::function<void(const Formula&)> w = [&](const Formula& f) {
      if (f.get_kind() == FormulaKind::And || f.get_kind() == FormulaKind::Or) for (const auto& o : get_operands(f)) w(o);
      else if (f.get_kind() == FormulaKind::Not) w(get_operand(f));
      else if (f.get_kind() == FormulaKind::Var) { const Variable& v = get_variable(f); if (!p.bi.count(v.get_id()) && !m.count(v)) { c.violation("unknown-variable", v.to_string() + "; " + txt); prop = false; } }
      else if (f.get_kind() != FormulaKind::True && f.get_kind() != FormulaKind::False) { prop = false; c.violation("not-propositional", tx(f) + "; " + txt); }
    };
    w(g);
    if (!prop) return;
    Pool q = p; for (const auto& x : m) absorb(q, x.first);
    RFP rg = to_ref(g, q);
    std::vector<RFP> rfs; for (auto& f : fs) rfs.push_back(to_ref(f, p));
    RFP rf = fops(FK::And, rfs);
    std::vector<std::pair<int, RFP>> at; for (const auto& x : m) at.push_back({q.bi.at(x.first.get_id()), to_ref(x.second, p)});
    int n = 0, seen = 0;
    for (int k = 0; k < 6; ++k) {
      Asg a = some_asg(r, nx + nq, nb);
      T3 want = truth(rf, a);
      Asg b = a; grow(b, q); bool inc = want == T3::I;
      for (auto& x : at) { T3 v = truth(x.second, a); if (v == T3::I) { if (false) {} bool used = false; for (const auto& fv : g.GetFreeVariables()) if (q.bi.at(fv.get_id()) == x.first) used = true; if (used) inc = true; } else b.b[x.first] = v == T3::T; }
      if (inc) { c.count("inconclusive"); continue; }
      T3 got = truth(rg, b);
      c.eval(); ++n; seen |= want == T3::T ? 1 : 2;
      if (got != want) c.violation("truth", txt + "; at " + astr(a) + " the formula is " + tv(want) + " and the abstraction " + tv(got));
    }
    if (seen == 3) c.count("formulas_seen_true_and_false");
    if (n && !m.empty()) c.nontrivial(d);
  }
  c.count("atoms", (int64_t)atom_of.size());
}
}  // namespace

int main(int argc, char** argv) {
  auto w = [](CaseFn f) { return CaseFn([f](Ctx& c) { try { f(c); } catch (const Skip&) { c.count("skipped_undefined"); } }); };
  return run_main(argc, argv, {{"C09", w(c09)}, {"C13", w(c13)}, {"C16", w(c16)}, {"C17", w([](Ctx& c) { conv(c, false); })}, {"C18", w([](Ctx& c) { conv(c, true); })}, {"C19", w(c19)}, {"C20", w(c20)}, {"C21", w(c21)}});
}
