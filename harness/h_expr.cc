// C01..C05, C08: value-level monitors over the symbolic library.
#include "sym.h"
using namespace vh;
using namespace dreal;

namespace {

std::string ex(const Expression& e) { return cut(e.to_string(), 400); }

// ---------------- C01 ----------------
void c01(Ctx& c) {
  Rng r = c.rng();
  const int mode = r.below(10);
  GenOpt o;
  if (mode < 2) o.poly = true;
  else if (mode < 4) { o.funcs = false; }
  else if (mode == 4) { o.funcs = false; o.ite = false; o.minmax = false; }
  if (mode == 9) o.intervals = 0.3;
  // a quarter of the cases goes through all pairs of operations in turn
  const bool systematic = (c.cur / 64) % 4 == 0;
  const int nx = systematic ? 2 : r.range(1, 4), nb = 2;
  Gen g(r, nx, nb, o);
  Pool p(nx, nb, r.chance(0.3) ? 1 + r.below(4) : 0);
  RP t = systematic ? Gen::combo(c.cur / 256 * 64 + c.cur % 64) : r.chance(0.35) ? g.tiny() : g.expr(r.range(2, mode < 5 ? 6 : 5));
  const bool is_form = !systematic && r.chance(0.15);
  RFP tf;
  if (is_form) tf = g.form(3, 2);
  c.note((is_form ? str(tf) : str(t)));
  std::vector<Expression> es;
  std::vector<Formula> fs;
  const int variants = 3;
  for (int i = 0; i < variants; ++i) {
    Rng br = c.rng(100 + i);
    Builder b(p, i == 0 ? nullptr : &br);
    try {
      if (is_form) fs.push_back(b(tf)); else es.push_back(b(t));
    } catch (const std::exception& e) {
      // construction may refuse: only if some constant subterm is undefined at every assignment.
      c.count("construction_refused");
      Asg a = g.asg();
      Evaluator ev(a);
      bool defined = is_form ? (ev.fv(tf) != T3::I) : ev.ev(t).ok;
      if (defined) c.violation("construct-throws", std::string("construction of ") + cut(is_form ? str(tf) : str(t)) + " threw " + e.what() + " although every step is defined at " + astr(a));
      return;
    }
  }
  // also the round trip through the accessors
  bool compared = false;
  for (int k = 0; k < (systematic ? 10 : 6); ++k) {
    Asg a = g.asg();
    Evaluator ev(a);
    ev.strict_ite = false;  // only the chosen branch of an if-then-else is evaluated
    if (is_form) {
      T3 w = ev.fv(tf);
      if (w == T3::I) { c.count("inconclusive"); continue; }
      for (int i = 0; i < variants; ++i) {
        bool got;
        try { got = fs[i].Evaluate(p.env(a)); } catch (const std::exception& e) {
          c.violation("evaluate-throws", "Formula " + cut(fs[i].to_string()) + " built from " + cut(str(tf)) + " at " + astr(a) + " threw " + e.what());
          continue;
        }
        c.eval(); compared = true;
        if (got != (w == T3::T)) c.violation("formula-value", "Formula " + cut(fs[i].to_string()) + " built (form " + std::to_string(i) + ") from " + cut(str(tf)) + " evaluates to " + (got ? "true" : "false") + " at " + astr(a));
      }
      continue;
    }
    V w = ev.ev(t);
    if (!w.ok) { c.count(w.sure ? "undefined" : "inconclusive"); continue; }
    for (int i = 0; i < variants; ++i) {
      double got;
      try { got = es[i].Evaluate(p.env(a)); } catch (const std::exception& e) {
        c.violation("evaluate-throws", "Expression " + ex(es[i]) + " built from " + cut(str(t)) + " at " + astr(a) + " threw " + e.what() + "; reference value " + vstr(w));
        continue;
      }
      c.eval();
      if (informative(w)) compared = true;
      if (!agrees(w, got)) c.violation("value", "Expression " + ex(es[i]) + " built (form " + std::to_string(i) + ") from " + cut(str(t)) + " evaluates to " + dstr(got) + " at " + astr(a) + "; reference value " + vstr(w));
    }
  }
  if (compared) { c.nontrivial(is_form ? str(tf) : str(t)); c.count("compared"); }
}


// ---------------- C02 ----------------
enum class Dom { In, Out, Unspecified };
struct Fn { const char* name; Expression (*f)(const Expression&); double (*ref)(double); Dom (*dom)(double); };
Dom d_nonneg(double v) { return v >= 0 ? Dom::In : Dom::Out; }
Dom d_unit(double v) { return v >= -1 && v <= 1 ? Dom::In : Dom::Out; }
Dom d_log(double v) { return v > 0 ? Dom::In : v == 0 ? Dom::Unspecified : Dom::Out; }
Dom d_all(double) { return Dom::In; }
double boundary(Rng& r) {
  static const double inf = std::numeric_limits<double>::infinity();
  static const std::vector<double> base{0, 1, -1, 0.5, -0.5, 2, -2, 1e-300, -1e-300, 5e-324, -5e-324, 1e300, -1e300, 3, -3, 1.5, -1.5, 0.0, -0.0};
  if (r.chance(0.2)) return r.uni(-3, 3);
  double b = r.pick(base);
  int k = r.below(5);
  if (k == 0) return std::nextafter(b, inf);
  if (k == 1) return std::nextafter(b, -inf);
  return b;
}
// Wraps e (whose evaluation must be reached) in a context; evaluates to k * value + m with the given k, m unless nonlin.
Expression wrap(Rng& r, const Expression& e, const Pool& p, bool& lin, double& k, double& m) {
  lin = true; k = 1; m = 0;
  switch (r.below(8)) {
    case 0: return e;
    case 1: k = 2; m = 0; return e * 2.0;
    case 2: k = 1; m = 3; return e + Expression(p.x[3]) * 0.0 + 3.0;
    case 3: lin = false; return atan(e) + p.x[3];
    case 4: return if_then_else(Expression(p.x[3]) > 0.0, e, Expression(p.x[3]));
    case 5: lin = false; return min(e, p.x[3]);
    case 6: lin = false; return max(Expression(p.x[3]), e);
    default: k = -1; return -e;
  }
}
void c02(Ctx& c) {
  Rng r = c.rng();
  static const std::vector<Fn> fns{
      {"log", &log, &std::log, &d_log}, {"sqrt", &sqrt, &std::sqrt, &d_nonneg}, {"asin", &asin, &std::asin, &d_unit}, {"acos", &acos, &std::acos, &d_unit},
      {"log", &log, &std::log, &d_log}, {"sqrt", &sqrt, &std::sqrt, &d_nonneg}, {"asin", &asin, &std::asin, &d_unit}, {"acos", &acos, &std::acos, &d_unit},
      {"abs", &abs, &std::fabs, &d_all}, {"exp", &exp, &std::exp, &d_all}, {"sin", &sin, &std::sin, &d_all}, {"cos", &cos, &std::cos, &d_all}, {"tan", &tan, &std::tan, &d_all},
      {"atan", &atan, &std::atan, &d_all}, {"sinh", &sinh, &std::sinh, &d_all}, {"cosh", &cosh, &std::cosh, &d_all}, {"tanh", &tanh, &std::tanh, &d_all}};
  Pool p(5, 2);
  const int what = r.below(10);
  if (what < 7) {
    // one function application
    std::string text; Dom dom; double want = 0; Expression sym, cst; double a = 0, b = 0; bool have_cst = true;
    std::function<Expression(const Expression&, const Expression&)> mk;
    bool is_div = false;
    if (what < 4) {
      const Fn& f = r.pick(fns);
      a = boundary(r);
      text = std::string(f.name) + "(" + dstr(a) + ")";
      dom = f.dom(a);
      want = f.ref(a);
      mk = [&f](const Expression& x, const Expression&) { return f.f(x); };
    } else if (what < 6) {
      a = boundary(r); b = r.chance(0.6) ? (double)r.range(-4, 5) / (r.chance(0.5) ? 1 : 2) : boundary(r);
      if (r.chance(0.1)) b = r.pick(std::vector<double>{1e10, -1e10, 4294967296.0, 4294967297.0, 2147483648.0, -2147483649.0});
      text = "pow(" + dstr(a) + ", " + dstr(b) + ")";
      dom = a < 0 && std::trunc(b) != b ? Dom::Out : (a == 0 && b < 0 ? Dom::Unspecified : Dom::In);
      want = std::pow(a, b);
      mk = [](const Expression& x, const Expression& y) { return pow(x, y); };
    } else {
      a = boundary(r); b = boundary(r);
      text = dstr(a) + " / " + dstr(b);
      dom = b == 0 ? Dom::Out : Dom::In;
      want = a / b;
      is_div = true;
      mk = [](const Expression& x, const Expression& y) { return x / y; };
    }
    if (dom == Dom::Unspecified) { c.count("unspecified"); return; }
    if (!std::isfinite(want) && dom == Dom::In) { c.count("overflow"); return; }
    c.note(text);
    c.nontrivial(text);
    // error class expected
    auto classify = [&](const std::function<double()>& go) -> std::string {
      try { double d = go(); return "value " + dstr(d); }
      catch (const std::domain_error& e) { return "domain_error"; }
      catch (const std::runtime_error& e) { return "runtime_error"; }
      catch (const std::exception& e) { return std::string("exception ") + e.what(); }
    };
    auto near = [](double x, double y) { return x == y || std::fabs(x - y) <= 4e-16 * std::fabs(y) + 1e-320; };
    const std::string err = is_div ? "runtime_error" : "domain_error";
    const char* modes[] = {"constant", "variables", "mixed-left", "mixed-right", "wrapped", "partial", "in formula"};
    for (int m = 0; m < 7; ++m) {
      bool lin = true; double k = 1, q = 0;
      double form_rhs = 0;
      std::string got = classify([&]() -> double {
        Environment env{{p.x[0], a}, {p.x[1], b}, {p.x[3], 1.0}};
        switch (m) {
          case 0: return mk(Expression(a), Expression(b)).Evaluate();
          case 1: return mk(p.x[0], p.x[1]).Evaluate(env);
          case 2: return mk(Expression(a), p.x[1]).Evaluate(env);
          case 3: return mk(p.x[0], Expression(b)).Evaluate(env);
          case 4: { Expression e = wrap(r, mk(p.x[0], p.x[1]), p, lin, k, q); return e.Evaluate(env); }
          case 5: { Expression e = mk(p.x[0], p.x[1]); return e.EvaluatePartial(Environment{{p.x[0], a}}).Evaluate(env); }
          default: { Formula f = mk(p.x[0], p.x[1]) >= Expression(p.x[3]) * 0.0 + form_rhs; return f.Evaluate(env) ? 1 : 0; }
        }
      });
      c.eval();
      // documented simplifications that drop the operand
      const bool dropped = (what >= 4 && what < 6 && b == 0 && (m == 3)) || (is_div && ((m == 2 || m == 3 || m == 5) && b == 1));
      if (dom == Dom::Out) {
        if (is_div && m == 5 && a == b) continue;
        if (got != err && !dropped)
          c.violation(std::string("no-error-") + modes[m], text + " (" + modes[m] + ") gave " + got + " instead of a " + err);
      } else {
        double expect = want;
        if (m == 4) { if (!lin) { if (got.compare(0, 5, "value") != 0) c.violation("error-in-domain", text + " (" + modes[m] + ") gave " + got); continue; } expect = k * want + q; }
        if (m == 6) expect = want >= form_rhs ? 1 : 0;
        if (got.compare(0, 5, "value") != 0) c.violation("error-in-domain", text + " (" + modes[m] + ") gave " + got + " instead of " + dstr(expect));
        else if (!near(strtod(got.c_str() + 6, nullptr), expect)) c.violation("wrong-value", text + " (" + modes[m] + ") gave " + got + " instead of " + dstr(expect));
      }
    }
    return;
  }
  if (what == 7) {
    // not-a-number
    c.note("NaN");
    Expression n = Expression::NaN();
    std::vector<Expression> es{n, n + p.x[0], p.x[0] * n, sin(n), pow(n, 2.0), n / p.x[1], min(n, p.x[0]), p.x[0] - n, if_then_else(Formula(p.b[0]), n, n)};
    Environment env{{p.x[0], 1.0}, {p.x[1], 2.0}, {p.b[0], 1.0}};
    const Expression& e = es[r.below((int)es.size())];
    c.nontrivial(e.to_string());
    c.eval();
    try { double d = e.Evaluate(env); c.violation("nan-evaluates", e.to_string() + " evaluates to " + dstr(d)); } catch (const std::runtime_error&) {}
    try { Expression s = e.Substitute(p.x[0], 3.0); c.violation("nan-substitutes", e.to_string() + " can be substituted into " + s.to_string()); } catch (const std::runtime_error&) {}
    return;
  }
  // unbound variables
  GenOpt o; o.domain = false; o.div = false; o.ite = false; o.minmax = true;
  Gen g(r, 4, 2, o);
  const bool form = r.chance(0.4);
  RP t = r.chance(0.35) ? g.tiny() : g.expr(4);
  Builder b(p);
  Asg a = g.asg();
  a.x.push_back(0);
  if (!form) {
    Expression e = b(t);
    if (e.GetVariables().empty()) { c.count("closed"); return; }
    std::vector<Variable> vs(e.GetVariables().begin(), e.GetVariables().end());
    Variable drop = r.pick(vs);
    Environment env;
    for (size_t i = 0; i < p.x.size(); ++i) if (!p.x[i].equal_to(drop)) env.insert(p.x[i], a.x[i]);
    c.note("unbound " + drop.get_name() + " in " + str(t));
    c.nontrivial("unbound " + drop.get_name() + " in " + str(t));
    c.eval();
    // every operand is evaluated: no if-then-else in here
    try { double d = e.Evaluate(env); c.violation("unbound-evaluates", e.to_string() + " evaluates to " + dstr(d) + " without a value for " + drop.get_name()); } catch (const std::runtime_error&) {}
  } else {
    // a single comparison or Boolean variable: = and != compare structurally when a value is missing (documented)
    static const std::vector<FK> rels{FK::Gt, FK::Geq, FK::Lt, FK::Leq};
    RFP f = r.chance(0.3) ? fbv(r.below(2)) : frel(r.pick(rels), t, g.expr(2));
    if (r.chance(0.3)) f = fnot(f);
    Formula F = b(f);
    if (F.GetFreeVariables().empty()) { c.count("closed"); return; }
    std::vector<Variable> vs(F.GetFreeVariables().begin(), F.GetFreeVariables().end());
    Variable drop = r.pick(vs);
    Environment env;
    for (size_t i = 0; i < p.x.size(); ++i) if (!p.x[i].equal_to(drop)) env.insert(p.x[i], a.x[i]);
    for (size_t i = 0; i < p.b.size(); ++i) if (!p.b[i].equal_to(drop)) env.insert(p.b[i], 1.0);
    c.note("unbound " + drop.get_name() + " in " + str(f));
    c.nontrivial("unbound " + drop.get_name() + " in " + str(f));
    c.eval();
    try { bool d = F.Evaluate(env); c.violation("unbound-evaluates", F.to_string() + " evaluates to " + (d ? "true" : "false") + " without a value for " + drop.get_name()); } catch (const std::runtime_error&) {}
  }
}

// ---------------- C03 ----------------
struct Subst { std::map<int, RP> x; std::map<int, RFP> b; };
RFP sub(const RFP& f, const Subst& s);
RP sub(const RP& t, const Subst& s) {
  if (t->k == K::Var) { auto it = s.x.find(t->var); return it == s.x.end() ? t : it->second; }
  if (!t->a) return t;
  auto n = std::make_shared<R>(*t);
  n->a = sub(t->a, s);
  if (t->b) n->b = sub(t->b, s);
  if (t->cond) n->cond = sub(t->cond, s);
  return n;
}
RFP sub(const RFP& f, const Subst& s) {
  if (f->k == FK::BVar) { auto it = s.b.find(f->var); return it == s.b.end() ? f : it->second; }
  auto n = std::make_shared<RF>(*f);
  if (f->k == FK::Forall) {
    Subst t = s;
    for (int v : f->qvars) { if (v >= 0) t.x.erase(v); else t.b.erase(-1 - v); }
    n->ops[0] = sub(f->ops[0], t);
    return n;
  }
  if (f->a) { n->a = sub(f->a, s); n->b = sub(f->b, s); }
  for (auto& o : n->ops) o = sub(o, s);
  return n;
}
void c03(Ctx& c) {
  Rng r = c.rng();
  GenOpt o;
  const int mode = r.below(6);
  if (mode == 0) { o.poly = true; o.funcs = false; }
  if (mode == 1) { o.funcs = false; }
  const int nx = 4, nb = 3;
  const bool quant = r.chance(0.25);         // quantified variables: index 4 and Boolean 3 (never in substituted parts)
  Pool p(nx + 1, nb + 1, r.chance(0.5) ? 1 + r.below(4) : 0);
  Gen g(r, nx, nb, o);
  Gen gq(r, quant ? nx + 1 : nx, quant ? nb + 1 : nb, o);
  const bool is_form = quant || r.chance(0.4);
  RP t; RFP tf;
  if (is_form) {
    tf = quant ? gq.form(2, 1) : g.form(3, 2);
    if (quant) { tf = fforall({nx, -1 - nb}, tf); if (r.chance(0.5)) tf = fops(FK::And, {tf, g.form(1, 1)}); }
  } else t = r.chance(0.35) ? g.tiny() : r.chance(0.2) ? Gen::combo(r.below(Gen::kOps * Gen::kOps)) : g.expr(4);
  // substitution
  Subst s;
  const int kind = r.below(5);
  if (kind == 0) { int a = r.below(nx), b = (a + 1 + r.below(nx - 1)) % nx; s.x[a] = rv(b); s.x[b] = rv(a); }           // swap
  else if (kind == 1) { for (int i = 0; i < nx; ++i) s.x[i] = rv((i + 1) % nx); }                                       // rotate
  else {
    for (int i = 0; i < nx; ++i) if (r.chance(0.5)) s.x[i] = r.chance(0.3) ? rc(g.cst()) : g.expr(r.range(0, 2));
    for (int i = 0; i < nb; ++i) if (r.chance(0.4)) s.b[i] = r.chance(0.3) ? fbv(r.below(nb)) : g.form(1, 1);
  }
  if (quant && r.chance(0.5)) s.b[nb] = r.chance(0.5) ? fbv(r.below(nb)) : g.form(1, 1);
  if (quant && r.chance(0.6)) s.x[nx] = g.expr(1);   // must be ignored below the quantifier
  if (kind == 3) s.b.clear();
  if (kind == 4 && !s.b.empty()) s.x.clear();
  std::string text = (is_form ? str(tf) : str(t)) + " [";
  for (auto& q : s.x) text += " v" + std::to_string(q.first) + ":=" + str(q.second);
  for (auto& q : s.b) text += " b" + std::to_string(q.first) + ":=" + str(q.second);
  text += "]";
  c.note(text);
  Rng br = c.rng(7);
  Builder b(p, &br);
  Expression e; Formula f = Formula::True();
  ExpressionSubstitution es; FormulaSubstitution fs;
  try {
    if (is_form) f = b(tf); else e = b(t);
    for (auto& q : s.x) es.emplace(p.x[q.first], b(q.second));
    for (auto& q : s.b) fs.emplace(p.b[q.first], b(q.second));
  } catch (const std::exception&) { c.count("construction_refused"); return; }
  std::vector<Expression> re; std::vector<Formula> rf;
  std::string before = is_form ? f.to_string() : e.to_string();
  bool threw = false; std::string why;
  try {
    if (is_form) {
      rf.push_back(f.Substitute(es, fs));
      if (fs.empty()) rf.push_back(f.Substitute(es));
      if (es.empty()) rf.push_back(f.Substitute(fs));
      if (es.size() == 1 && fs.empty()) rf.push_back(f.Substitute(es.begin()->first, es.begin()->second));
      if (fs.size() == 1 && es.empty()) rf.push_back(f.Substitute(fs.begin()->first, fs.begin()->second));
    } else {
      re.push_back(e.Substitute(es, fs));
      if (fs.empty()) re.push_back(e.Substitute(es));
      if (es.empty()) re.push_back(e.Substitute(fs));
      if (es.size() == 1 && fs.empty()) re.push_back(e.Substitute(es.begin()->first, es.begin()->second));
    }
  } catch (const std::exception& ex2) { threw = true; why = ex2.what(); }
  if ((is_form ? f.to_string() : e.to_string()) != before) c.violation("original-changed", "Substitute changed its argument: " + before + " became " + (is_form ? f.to_string() : e.to_string()));
  bool compared = false;
  RP st; RFP sf;
  if (is_form) sf = sub(tf, s); else st = sub(t, s);
  static const std::vector<double> grid{-1, 0, 0.5, 2};
  // variables of the result: those of the parts
  if (!threw) {
    Variables allowed;
    const Variables& ov = is_form ? f.GetFreeVariables() : e.GetVariables();
    for (const Variable& v : ov) {
      auto i1 = es.find(v);
      auto i2 = fs.find(v);
      if (v.get_type() != Variable::Type::BOOLEAN && i1 != es.end()) allowed += i1->second.GetVariables();
      else if (v.get_type() == Variable::Type::BOOLEAN && i2 != fs.end()) allowed += i2->second.GetFreeVariables();
      else allowed += v;
    }
    Variables got = is_form ? rf[0].GetFreeVariables() : re[0].GetVariables();
    if (!got.IsSubsetOf(allowed)) c.violation("foreign-variables", "after substitution " + text + " has variables outside those of the substituted parts");
  }
  for (int k = 0; k < 5; ++k) {
    Asg a = g.asg();
    a.x.push_back(g.val()); a.b.push_back(r.chance(0.5));
    Evaluator ev(a);
    ev.grid = &grid;
    ev.strict_ite = threw ? true : false;
    if (is_form) {
      T3 w = ev.fv(sf);
      if (w == T3::I) { c.count("inconclusive"); continue; }
      if (threw) { c.violation("substitute-throws", text + " threw " + why + " although defined at " + astr(a)); continue; }
      for (auto& q : rf) {
        if (quant) {
          // quantified: interpret the resulting structure over the grid
          T3 got = ev.fv(to_ref(q, p));
          c.eval();
          if (got != T3::I) { compared = true; if (got != w) c.violation("formula-value", text + " gives " + cut(q.to_string()) + ", wrong at " + astr(a)); }
          continue;
        }
        bool got;
        try { got = q.Evaluate(p.env(a)); } catch (const std::exception& x) { c.violation("evaluate-throws", text + " gives " + cut(q.to_string()) + " which throws at " + astr(a) + ": " + x.what()); continue; }
        c.eval(); compared = true;
        if (got != (w == T3::T)) c.violation("formula-value", text + " gives " + cut(q.to_string()) + " with the wrong value at " + astr(a));
      }
      continue;
    }
    V w = ev.ev(st);
    if (!w.ok) { c.count(w.sure ? "undefined" : "inconclusive"); continue; }
    if (threw) { c.violation("substitute-throws", text + " threw " + why + " although defined at " + astr(a)); continue; }
    for (auto& q : re) {
      double got;
      try { got = q.Evaluate(p.env(a)); } catch (const std::exception& x) { c.violation("evaluate-throws", text + " gives " + cut(q.to_string()) + " which throws at " + astr(a) + ": " + x.what() + "; reference " + vstr(w)); continue; }
      c.eval(); if (informative(w)) compared = true;
      if (!agrees(w, got)) c.violation("value", text + " gives " + cut(q.to_string()) + " = " + dstr(got) + " at " + astr(a) + "; reference " + vstr(w));
    }
  }
  if (compared) c.nontrivial(text);
  // partial evaluation
  if (!is_form) {
    Asg a = g.asg(); a.x.push_back(0); a.b.push_back(false);
    Environment part; std::set<int> given; Subst ps;
    for (int i = 0; i < nx; ++i) if (r.chance(0.5)) { part.insert(p.x[i], a.x[i]); given.insert(i); ps.x[i] = rc(a.x[i]); }
    Evaluator ev(a);
    V w = ev.ev(t);
    try {
      Expression q = e.EvaluatePartial(part);
      for (int i : given) if (q.GetVariables().include(p.x[i])) c.violation("partial-keeps-variable", "EvaluatePartial of " + cut(before) + " keeps " + p.x[i].get_name());
      if (w.ok) {
        double d = q.Evaluate(p.env(a));
        c.eval();
        if (!agrees(w, d)) c.violation("partial-value", "EvaluatePartial of " + cut(before) + " gives " + cut(q.to_string()) + " = " + dstr(d) + " at " + astr(a) + "; reference " + vstr(w));
        ExpressionSubstitution cs; for (int i : given) cs.emplace(p.x[i], Expression(a.x[i]));
        if (!cs.empty() && !e.Substitute(cs).EqualTo(q)) c.violation("partial-vs-substitute", "EvaluatePartial of " + cut(before) + " differs from substituting the constants");
      }
    } catch (const std::exception& x) {
      if (w.ok) c.violation("partial-throws", "EvaluatePartial of " + cut(before) + " at " + astr(a) + " threw " + x.what() + "; reference " + vstr(w));
    }
  }
}

// ---------------- C04 ----------------
// True partial derivative by a 5-point stencil in binary128 (two step sizes).
bool num_diff(const RP& t, const Asg& a, int i, f128& d, f128& err, bool& edge) {
  f128 res[2];
  const f128 hs[2] = {1e-5Q, 3e-6Q};
  for (int k = 0; k < 2; ++k) {
    f128 h = hs[k], v[4], big = 0;
    const f128 off[4] = {-2, -1, 1, 2};
    for (int j = 0; j < 4; ++j) {
      Evaluator ev(a); ev.qi = i; ev.qv = (f128)a.x[i] + off[j] * h;
      V r = ev.ev(t);
      if (ev.edge) edge = true;
      if (!r.ok) return false;
      v[j] = r.v;
      if (r.M > big) big = r.M;
    }
    if (big * 1e-32Q / h > 1e-9Q) return false;   // cancellation beyond binary128
    res[k] = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h);
  }
  d = res[1];
  err = fabsq(res[0] - res[1]);
  return err <= 1e-9Q * (1 + fabsq(d));
}
bool has_interval(const RP& t) { return t->k == K::Interval || (t->a && has_interval(t->a)) || (t->b && has_interval(t->b)); }
int nondiff(const RFP& f);
int nondiff(const RP& t) {
  int n = (t->k == K::Abs || t->k == K::Min || t->k == K::Max || t->k == K::Ite) ? 1 : 0;
  if (t->a) n += nondiff(t->a);
  if (t->b) n += nondiff(t->b);
  return n;
}
int nondiff(const RFP& f) {
  if (f->k == FK::Forall) return 1;
  int n = 0;
  if (f->a) n += nondiff(f->a) + nondiff(f->b);
  for (auto& o : f->ops) n += nondiff(o);
  return n;
}
// Some argument at this point is one where a rule's formula (not the function) may be undefined.
bool singular(const RP& t, const Asg& a, int i) {
  if (t->a && singular(t->a, a, i)) return true;
  if (t->b && singular(t->b, a, i)) return true;
  if (t->k != K::Pow && t->k != K::Sqrt && t->k != K::Asin && t->k != K::Acos && t->k != K::Div && t->k != K::Mul) return false;
  Evaluator ev(a);
  V v = ev.ev(t->a);
  if (!v.ok) return true;
  if (t->k == K::Asin || t->k == K::Acos) return fabsq(v.v) > 0.99Q;
  if (t->k == K::Pow && t->b->k != K::Const && v.v < 0) return true;
  if (fabsq(v.v) < 1e-9Q) return true;
  if (t->k == K::Mul) { V w = ev.ev(t->b); return !w.ok || fabsq(w.v) < 1e-9Q; }
  return false;
}
void c04(Ctx& c) {
  Rng r = c.rng();
  if (r.chance(0.15)) {
    // classification, on arbitrary expressions and formulas
    GenOpt o; o.forall = true;
    Gen g(r, 3, 2, o);
    Pool p(3, 2);
    RP t = g.expr(4); RFP tf = g.form(3, 2);
    if (r.chance(0.2)) tf = fforall({0}, tf);
    c.note(str(t) + " / " + str(tf));
    Builder b(p);
    try {
      Expression e = b(t); Formula f = b(tf);
      c.eval(2);
      bool want = nondiff(to_ref(e, p)) == 0, got = IsDifferentiable(e);
      if (want != got) c.violation("is-differentiable", "IsDifferentiable(" + ex(e) + ") is " + (got ? "true" : "false"));
      bool wantf = nondiff(to_ref(f, p)) == 0, gotf = IsDifferentiable(f);
      if (wantf != gotf) c.violation("is-differentiable-formula", "IsDifferentiable(" + cut(f.to_string()) + ") is " + (gotf ? "true" : "false"));
      if (e.GetVariables().size()) {
        c.nontrivial("IsDifferentiable " + e.to_string());
      }
      // a variable that does not occur
      Variable fresh("fresh");
      Expression d = e.Differentiate(fresh);
      if (!is_zero(d)) {
        // must at least be zero in value
        Asg a = g.asg();
        Evaluator ev(a);
        V w = ev.ev(to_ref(d, p));
        if (w.ok && fabsq(w.v) > SAFETY * (w.e + EPS * w.M)) c.violation("fresh-variable", "derivative of " + ex(e) + " with respect to a variable that does not occur is " + ex(d));
      }
    } catch (const std::exception& x) { c.count("refused"); }
    return;
  }
  GenOpt o; o.smooth = true;
  const int mode = r.below(6);
  if (mode == 0) o.funcs = false;
  if (mode == 1) { o.poly = true; o.funcs = false; }
  const int nx = r.range(1, 3);
  Gen g(r, nx, 0, o);
  Pool p(nx, 0);
  RP t;
  if (mode == 2) {
    // one function of a simple argument: every rule on its own
    static const std::vector<K> ks{K::Log, K::Exp, K::Sqrt, K::Sin, K::Cos, K::Tan, K::Asin, K::Acos, K::Atan, K::Sinh, K::Cosh, K::Tanh, K::Atan2, K::Pow, K::Div, K::Pow};
    K k = r.pick(ks);
    RP a = g.expr(r.below(2)), b = g.expr(r.below(2));
    t = (k == K::Atan2 || k == K::Pow || k == K::Div) ? r2(k, a, b) : r1(k, a);
  } else t = r.chance(0.35) ? g.tiny() : nx > 1 && r.chance(0.2) ? Gen::combo(r.below(Gen::kOps * Gen::kOps)) : g.expr(r.range(2, 4));
  // |.| may come from simplification of sqrt(x^2); Abs itself excluded
  if (nondiff(t)) { c.count("skipped_abs"); return; }
  c.note(str(t));
  Rng br = c.rng(3);
  Builder b(p, &br);
  Expression e;
  try { e = b(t); } catch (const std::exception&) { c.count("construction_refused"); return; }
  bool diffable;
  try { diffable = nondiff(to_ref(e, p)) == 0; } catch (const std::exception&) { c.count("no_reference"); return; }
  if (IsDifferentiable(e) != diffable) c.violation("is-differentiable", "IsDifferentiable(" + ex(e) + ") is " + (diffable ? "false" : "true"));
  if (!diffable) { c.count("simplified_to_abs"); return; }
  for (int i = 0; i < nx; ++i) {
    Expression d; bool threw = false; std::string why;
    try { d = e.Differentiate(p.x[i]); } catch (const std::exception& x) { threw = true; why = x.what(); }
    RP rd;
    try { if (!threw) rd = to_ref(d, p); } catch (const std::exception&) { c.count("no_reference"); continue; }
    if (!threw && !d.GetVariables().IsSubsetOf(e.GetVariables())) c.violation("derivative-variables", "derivative of " + ex(e) + " has other variables: " + ex(d));
    bool done = false;
    for (int k = 0; k < 5; ++k) {
      Asg a = g.asg();
      f128 nd, err; bool edge = false;
      Evaluator e0(a);
      V v0 = e0.ev(t);
      if (!v0.ok || e0.edge) continue;
      if (!num_diff(t, a, i, nd, err, edge) || edge) { c.count("not_differentiable_here"); continue; }
      if (threw) { c.violation("differentiate-throws", "derivative of " + ex(e) + " w.r.t. " + p.x[i].get_name() + " threw " + why + " although differentiable at " + astr(a)); break; }
      Evaluator ev(a);
      V w = ev.ev(rd);
      if (!w.ok && !w.sure) { c.count("derivative_inconclusive"); continue; }
      if (!w.ok) {
        // the derivative's formula is not defined at a point where the function is smooth
        c.count("derivative_undefined");
        // removable singularities of the quotient/power rules at points where the argument vanishes are accepted
        if (!singular(t, a, i)) c.violation("derivative-undefined", "d/d" + p.x[i].get_name() + " " + ex(e) + " = " + ex(d) + " is undefined at " + astr(a) + "; true derivative " + dstr((double)nd));
        continue;
      }
      c.eval();
      f128 tol = 1e-7Q * (1 + fabsq(nd)) + SAFETY * (w.e + EPS * w.M);
      if (tol > 1e-3Q * (1 + fabsq(nd))) { c.count("derivative_ill_conditioned"); continue; }
      if (fabsq(w.v - nd) > tol) c.violation("derivative", "d/d" + p.x[i].get_name() + " " + ex(e) + " = " + ex(d) + " is " + dstr((double)w.v) + " at " + astr(a) + "; true derivative " + dstr((double)nd));
      try {
        double got = d.Evaluate(p.env(a));
        if (!agrees(w, got)) c.violation("derivative-eval", "d/d" + p.x[i].get_name() + " " + ex(e) + " = " + ex(d) + " evaluates to " + dstr(got) + " at " + astr(a) + "; reference " + vstr(w));
      } catch (const std::exception& x) { c.violation("derivative-eval-throws", ex(d) + " throws at " + astr(a) + ": " + x.what()); }
      done = true;
    }
    if (done) c.nontrivial("d/dv" + std::to_string(i) + " " + str(t));
  }
}

// ---------------- C05 ----------------
typedef std::vector<int> Mono;
typedef std::map<Mono, double> Poly;
bool pmul(const Poly& a, const Poly& b, Poly& out) {
  for (auto& x : a) for (auto& y : b) {
    Mono m(x.first.size());
    for (size_t i = 0; i < m.size(); ++i) m[i] = x.first[i] + y.first[i];
    double& q = out[m]; q += x.second * y.second;
    if (std::fabs(q) > 1e15) return false;
  }
  for (auto it = out.begin(); it != out.end();) if (it->second == 0) it = out.erase(it); else ++it;
  return out.size() < 400;
}
bool poly_of(const RP& t, int n, Poly& out) {
  Poly a, b;
  switch (t->k) {
    case K::Const: if (t->c != std::floor(t->c) && t->c * 4 != std::floor(t->c * 4)) return false; if (t->c != 0) out[Mono(n)] = t->c; return true;
    case K::Var: { Mono m(n); m[t->var] = 1; out[m] = 1; return true; }
    case K::Neg: if (!poly_of(t->a, n, a)) return false; for (auto& q : a) out[q.first] = -q.second; return true;
    case K::Add: case K::Sub: {
      if (!poly_of(t->a, n, a) || !poly_of(t->b, n, b)) return false;
      out = a;
      for (auto& q : b) { double& v = out[q.first]; v += t->k == K::Add ? q.second : -q.second; if (v == 0) out.erase(q.first); }
      return true;
    }
    case K::Mul: return poly_of(t->a, n, a) && poly_of(t->b, n, b) && pmul(a, b, out);
    case K::Pow: {
      if (t->b->k != K::Const) return false;
      int k = (int)t->b->c;
      if (k != t->b->c || k < 0 || k > 8 || !poly_of(t->a, n, a)) return false;
      out[Mono(n)] = 1;
      for (int i = 0; i < k; ++i) { Poly q; if (!pmul(out, a, q)) return false; out = q; }
      return true;
    }
    default: return false;
  }
}
// Reads an expanded polynomial back; false if it is not a sum of monomials.
bool monomial(const Expression& e, const Pool& p, Mono& m, double& k) {
  if (is_constant(e)) { k *= get_constant_value(e); return true; }
  if (is_variable(e)) { m[p.xi.at(get_variable(e).get_id())] += 1; return true; }
  if (is_pow(e)) {
    const Expression &b = get_first_argument(e), &q = get_second_argument(e);
    if (!is_variable(b) || !is_constant(q)) return false;
    double v = get_constant_value(q);
    if (v < 1 || v != std::floor(v)) return false;
    m[p.xi.at(get_variable(b).get_id())] += (int)v;
    return true;
  }
  if (is_multiplication(e)) {
    k *= get_constant_in_multiplication(e);
    for (auto& q : get_base_to_exponent_map_in_multiplication(e)) {
      if (!is_variable(q.first) || !is_constant(q.second)) return false;
      double v = get_constant_value(q.second);
      if (v < 1 || v != std::floor(v)) return false;
      m[p.xi.at(get_variable(q.first).get_id())] += (int)v;
    }
    return true;
  }
  return false;
}
bool read_poly(const Expression& e, const Pool& p, int n, Poly& out, std::string& why) {
  auto add = [&](const Expression& t, double k) {
    Mono m(n);
    if (!monomial(t, p, m, k)) { why = "not a monomial: " + t.to_string(); return false; }
    if (out.count(m)) { why = "like terms left: " + t.to_string(); return false; }
    if (k != 0) out[m] = k;
    return true;
  };
  if (is_addition(e)) {
    double k0 = get_constant_in_addition(e);
    if (k0 != 0) out[Mono(n)] = k0;
    for (auto& q : get_expr_to_coeff_map_in_addition(e)) if (!add(q.first, q.second)) return false;
    return true;
  }
  return add(e, 1);
}
// Upper bound on the number of terms of the expansion.
double terms(const RP& q) {
  if (q->k == K::Add || q->k == K::Sub) return terms(q->a) + terms(q->b);
  if (q->k == K::Mul || q->k == K::Div) return terms(q->a) * terms(q->b);
  if (q->k == K::Pow) {
    double k = 1;
    if (q->b->k == K::Const) k = q->b->c;
    else k = 16;   // may fold to a constant
    if (k > 0) return std::pow(terms(q->a), k);
  }
  double m = 1;
  if (q->a) m = std::max(m, terms(q->a));
  if (q->b) m = std::max(m, terms(q->b));
  return m;
}
void c05(Ctx& c) {
  Rng r = c.rng();
  GenOpt o; o.ite = false;
  const bool poly = r.chance(0.5);
  if (poly) { o.poly = true; o.funcs = false; o.minmax = false; o.div = false; }
  const int nx = r.range(1, 3);
  Gen g(r, nx, 1, o);
  Pool p(nx, 1);
  RP t = r.chance(0.35) ? g.tiny() : g.expr(r.range(2, poly ? 4 : 4));
  c.note(str(t));
  Poly ref;
  bool small = poly && poly_of(t, nx, ref);
  if (poly && !small) { c.count("too_big"); return; }
  // bound the blow-up of non-polynomial inputs
  if (!poly) {
    if (terms(t) > 300) { c.count("too_big"); return; }
  }
  Rng br = c.rng(3);
  Builder b(p, &br);
  Expression e;
  try { e = b(t); } catch (const std::exception&) { c.count("construction_refused"); return; }
  const std::string before = e.to_string();
  Expression x; bool threw = false; std::string why;
  try { x = e.Expand(); } catch (const std::exception& q) { threw = true; why = q.what(); }
  if (e.to_string() != before) c.violation("original-changed", "Expand changed its argument " + before + " into " + ex(e));
  if (!threw) {
    // like terms that division introduces may need another round: the second expansion is judged for its value only
    Expression x2 = x;
    try { x2 = x.Expand(); } catch (const std::exception&) {}
    c.eval();
    if (poly && !x2.EqualTo(x)) c.violation("not-idempotent", "expanding " + ex(e) + " gives " + ex(x) + ", and expanding that gives " + ex(x2));
    if (!x.GetVariables().IsSubsetOf(e.GetVariables())) c.violation("variables", "Expand of " + ex(e) + " introduces variables: " + ex(x));
  }
  RP rx;
  try {
    if (!threw) rx = to_ref(x, p);
  } catch (const std::exception&) { c.count("no_reference"); return; }
  if (rx && rx->size > 1500) { c.count("too_big"); return; }
  bool compared = false;
  for (int k = 0; k < 5; ++k) {
    Asg a = g.asg();
    Evaluator ev(a);
    V w = ev.ev(t);
    if (!w.ok) { c.count(w.sure ? "undefined" : "inconclusive"); continue; }
    if (threw) { c.violation("expand-throws", "Expand of " + ex(e) + " threw " + why + " although defined at " + astr(a)); break; }
    V v = ev.ev(rx);
    if (!v.ok) {
      if (v.sure) c.violation("expand-undefined", "Expand of " + ex(e) + " is " + ex(x) + ", undefined at " + astr(a) + " where the original has value " + vstr(w));
      continue;
    }
    c.eval();
    f128 tol = SAFETY * (w.e + v.e + EPS * (w.M + v.M)) + 1e-300Q;
    if (tol < 1e-3Q * (1 + fabsq(w.v))) compared = true;
    if (fabsq(w.v - v.v) > tol) c.violation("value", "Expand of " + ex(e) + " is " + ex(x) + " with value " + vstr(v) + " instead of " + vstr(w) + " at " + astr(a));
    try { double d = x.Evaluate(p.env(a)); if (!agrees(v, d)) c.violation("eval", ex(x) + " evaluates to " + dstr(d) + " at " + astr(a) + "; reference " + vstr(v)); }
    catch (const std::exception& q) { c.violation("eval-throws", "Expand of " + ex(e) + " is " + ex(x) + " which throws at " + astr(a) + ": " + q.what()); }
  }
  if (poly && !threw) {
    Poly got; std::string bad;
    c.eval();
    if (!read_poly(x, p, nx, got, bad)) c.violation("not-expanded", "Expand of " + ex(e) + " is " + ex(x) + ": " + bad);
    else if (got != ref) c.violation("polynomial", "Expand of " + ex(e) + " is " + ex(x) + ", whose coefficients differ from those of " + cut(str(t)));
    // another way to write the same polynomial
    RP u = rc(0);
    std::vector<std::pair<Mono, double>> ms(ref.begin(), ref.end());
    for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[r.below((int)i)]);
    for (auto& q : ms) {
      RP m = rc(q.second);
      for (int i = 0; i < nx; ++i) for (int j = 0; j < q.first[i]; ++j) m = r2(K::Mul, m, rv(i));
      u = r2(K::Add, u, m);
    }
    Expression y = b(u).Expand();
    if (!y.EqualTo(x)) c.violation("equal-polynomials", "Expand of " + ex(e) + " is " + ex(x) + " but the same polynomial written as a sum of monomials expands to " + ex(y));
    if (!is_zero((x - y).Expand())) c.violation("difference", "(p - q).Expand() is " + ex((x - y).Expand()) + " for equal polynomials p, q: " + ex(x));
    compared = true;
  }
  if (compared) c.nontrivial(str(t));
}

// ---------------- C08 ----------------
void walk(const Formula& f, std::set<Variable::Id>& bound, std::set<Variable::Id>& fv, bool& ite);
void walk(const Expression& e, std::set<Variable::Id>& bound, std::set<Variable::Id>& fv, bool& ite, bool& poly) {
  bool d = true;
  switch (e.get_kind()) {
    case ExpressionKind::Constant: case ExpressionKind::RealConstant: poly = true; return;
    case ExpressionKind::NaN: poly = false; return;
    case ExpressionKind::Var: { auto id = get_variable(e).get_id(); if (!bound.count(id)) fv.insert(id); poly = true; return; }
    case ExpressionKind::Add: { poly = true; for (auto& q : get_expr_to_coeff_map_in_addition(e)) { bool pp; walk(q.first, bound, fv, ite, pp); poly = poly && pp; } return; }
    case ExpressionKind::Mul: {
      poly = true;
      for (auto& q : get_base_to_exponent_map_in_multiplication(e)) {
        bool pb, pe; walk(q.first, bound, fv, ite, pb); walk(q.second, bound, fv, ite, pe);
        bool nat = is_constant(q.second) && get_constant_value(q.second) >= 0 && get_constant_value(q.second) == std::floor(get_constant_value(q.second)) && get_constant_value(q.second) < 2e9;
        poly = poly && pb && nat;
      }
      return;
    }
    case ExpressionKind::Pow: {
      bool pb, pe; walk(get_first_argument(e), bound, fv, ite, pb); const Expression& q = get_second_argument(e); walk(q, bound, fv, ite, pe);
      bool nat = is_constant(q) && get_constant_value(q) >= 0 && get_constant_value(q) == std::floor(get_constant_value(q)) && get_constant_value(q) < 2e9;
      poly = pb && nat; return;
    }
    case ExpressionKind::Div: { bool p1, p2; walk(get_first_argument(e), bound, fv, ite, p1); walk(get_second_argument(e), bound, fv, ite, p2); poly = p1 && is_constant(get_second_argument(e)); return; }
    case ExpressionKind::Atan2: case ExpressionKind::Min: case ExpressionKind::Max: walk(get_first_argument(e), bound, fv, ite, d); walk(get_second_argument(e), bound, fv, ite, d); poly = false; return;
    case ExpressionKind::IfThenElse: ite = true; walk(get_conditional_formula(e), bound, fv, ite); walk(get_then_expression(e), bound, fv, ite, d); walk(get_else_expression(e), bound, fv, ite, d); poly = false; return;
    case ExpressionKind::UninterpretedFunction: poly = false; for (auto& v : e.GetVariables()) fv.insert(v.get_id()); return;
    default: walk(get_argument(e), bound, fv, ite, d); poly = false; return;
  }
}
void walk(const Formula& f, std::set<Variable::Id>& bound, std::set<Variable::Id>& fv, bool& ite) {
  bool d;
  switch (f.get_kind()) {
    case FormulaKind::True: case FormulaKind::False: return;
    case FormulaKind::Var: { auto id = get_variable(f).get_id(); if (!bound.count(id)) fv.insert(id); return; }
    case FormulaKind::And: case FormulaKind::Or: for (auto& g : get_operands(f)) walk(g, bound, fv, ite); return;
    case FormulaKind::Not: walk(get_operand(f), bound, fv, ite); return;
    case FormulaKind::Forall: { std::set<Variable::Id> b2 = bound; for (auto& v : get_quantified_variables(f)) b2.insert(v.get_id()); walk(get_quantified_formula(f), b2, fv, ite); return; }
    default: walk(get_lhs_expression(f), bound, fv, ite, d); walk(get_rhs_expression(f), bound, fv, ite, d); return;
  }
}
std::set<Variable::Id> ids(const Variables& v) { std::set<Variable::Id> s; for (auto& x : v) s.insert(x.get_id()); return s; }
void c08(Ctx& c) {
  Rng r = c.rng();
  GenOpt o;
  const int mode = r.below(5);
  if (mode == 0) { o.poly = true; o.funcs = false; }
  if (mode == 1) { o.funcs = false; o.ite = r.chance(0.3); }
  if (mode == 2) { o.ite = false; }
  Gen g(r, 4, 2, o);
  Pool p(4, 2, r.below(5));
  RP t = r.chance(0.35) ? g.tiny() : r.chance(0.2) ? Gen::combo(r.below(Gen::kOps * Gen::kOps)) : g.expr(r.range(1, 5)); RFP tf = g.form(3, 2);
  auto quantified = [&]() { return r.chance(0.2) ? std::vector<int>{-1 - r.below(2)} : r.chance(0.2) ? std::vector<int>{r.below(4), -1 - r.below(2)} : std::vector<int>{r.below(4)}; };
  if (r.chance(0.4)) { tf = fforall(quantified(), tf); if (r.chance(0.5)) tf = fops(r.chance(0.5) ? FK::And : FK::Or, {tf, g.form(1, 1)}); if (r.chance(0.3)) tf = fnot(tf); if (r.chance(0.3)) tf = fforall(quantified(), tf); }
  c.note(str(t) + " / " + str(tf));
  Rng br = c.rng(5);
  Builder b(p, &br);
  try {
    Expression e = b(t);
    if (r.chance(0.1)) { Variables vs; for (int i = 0; i < 4; ++i) if (r.chance(0.5)) vs.insert(p.x[i]); e = (r.chance(0.5) ? e * uninterpreted_function("uf", vs) : e + sin(uninterpreted_function("uf", vs))); }
    if (mode == 0 && r.chance(0.3)) e = e / Expression(2.0);
    for (int step = 0; step < 3; ++step) {
      std::set<Variable::Id> bound, fv; bool ite = false, poly = false;
      walk(e, bound, fv, ite, poly);
      c.eval(3);
      if (ids(e.GetVariables()) != fv) c.violation("expression-variables", "GetVariables of " + ex(e) + " differs from the variables occurring in it");
      if (e.include_ite() != ite) c.violation("expression-include-ite", "include_ite of " + ex(e) + " is " + (ite ? "false" : "true"));
      if (e.is_polynomial() != poly) c.violation("is-polynomial", "is_polynomial of " + ex(e) + " is " + (poly ? "false" : "true"));
      if (fv.size() > 1) c.nontrivial(e.to_string());
      // the reported variables suffice for an evaluation, and nothing else matters
      Asg a = g.asg();
      Environment full = p.env(a), only, other = p.env(g.asg());
      for (const Variable& v : e.GetVariables()) { only.insert(v, full[v]); other[v] = full[v]; }
      double d1 = 0, d2 = 0, d3 = 0; int n1 = 0, n2 = 0, n3 = 0;
      try { d1 = e.Evaluate(full); } catch (const std::exception&) { n1 = 1; }
      try { d2 = e.Evaluate(only); } catch (const std::exception&) { n2 = 1; }
      try { d3 = e.Evaluate(other); } catch (const std::exception&) { n3 = 1; }
      c.eval();
      if (n1 != n2 || n1 != n3) c.violation("binding-matters", "Evaluate of " + ex(e) + " depends on bindings of variables it does not report, at " + astr(a));
      else if (!n1 && !((d1 == d2 && d1 == d3) || (std::isnan(d1) && std::isnan(d2) && std::isnan(d3)))) c.violation("foreign-variable-matters", "Evaluate of " + ex(e) + " depends on variables it does not report, at " + astr(a));
      if (step == 0) e = e.Substitute(p.x[r.below(4)], b(g.expr(1)));
      else if (step == 1 && !e.include_ite() && e.to_string().size() < 400 && terms(to_ref(e, p)) < 60) e = e.Expand();
    }
  } catch (const std::exception& x) { c.count("refused"); }
  try {
    Formula f = b(tf);
    for (int step = 0; step < 2; ++step) {
      std::set<Variable::Id> bound, fv; bool ite = false;
      walk(f, bound, fv, ite);
      c.eval(2);
      if (ids(f.GetFreeVariables()) != fv) c.violation("formula-variables", "GetFreeVariables of " + cut(f.to_string()) + " differs from the variables free in it");
      if (f.include_ite() != ite) c.violation("formula-include-ite", "include_ite of " + cut(f.to_string()) + " is " + (ite ? "false" : "true"));
      if (fv.size() > 1) c.nontrivial(f.to_string());
      int v = r.below(4);
      f = f.Substitute(p.x[v], b(g.expr(1)));
    }
  } catch (const std::exception& x) { c.count("refused"); }
}

}  // namespace

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C08", c08}});
}
