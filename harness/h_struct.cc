// C06 (equality, order, hash), C07 (value semantics and ownership), C10 (variable sets, environments).


#include <set>
#include <unordered_map>
#include <unordered_set>

#include "ser.h"
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif
using namespace vh;
using namespace dreal;

namespace {
std::string ex(const Expression& e) { return cut(e.to_string(), 300); }
std::string ex(const Formula& e) { return cut(e.to_string(), 300); }
int sgn(bool a, bool b) { return (a ? 2 : 0) + (b ? 1 : 0); }

// ---------------- C06 ----------------
// Laws of equality, order and hash on a list of objects with known identity (ser).
template <class T>
void laws(Ctx& c, const std::vector<T>& v, const std::vector<std::string>& id, const char* kind) {
  const size_t n = v.size();
  std::vector<std::vector<char>> lt(n, std::vector<char>(n)), eq = lt;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { lt[i][j] = v[i].Less(v[j]); eq[i][j] = v[i].EqualTo(v[j]); }
  c.eval(2 * n * n);
  auto bad = [&](const char* law, size_t i, size_t j) { c.violation(std::string(kind) + "-" + law, std::string(law) + ": " + ex(v[i]) + " and " + ex(v[j]) + " (" + cut(id[i], 200) + " / " + cut(id[j], 200) + "): EqualTo " + (eq[i][j] ? "1" : "0") + " Less " + (lt[i][j] ? "1" : "0") + " reversed EqualTo " + (eq[j][i] ? "1" : "0") + " Less " + (lt[j][i] ? "1" : "0")); };
  for (size_t i = 0; i < n; ++i) {
    if (!eq[i][i]) bad("reflexive", i, i);
    if (lt[i][i]) bad("irreflexive", i, i);
    for (size_t j = 0; j < n; ++j) {
      if (eq[i][j] != eq[j][i]) bad("symmetric", i, j);
      if ((id[i] == id[j]) != (bool)eq[i][j]) bad("equality-is-structural", i, j);
      if (lt[i][j] + lt[j][i] + eq[i][j] != 1) bad("trichotomy", i, j);
      if (eq[i][j] && v[i].get_hash() != v[j].get_hash()) bad("hash", i, j);
      if (eq[i][j] && ser(v[i]) != ser(v[j])) bad("text", i, j);
    }
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    if (!lt[i][j]) continue;
    for (size_t k = 0; k < n; ++k) if (lt[j][k] && !lt[i][k]) c.violation(std::string(kind) + "-transitive", ex(v[i]) + " < " + ex(v[j]) + " < " + ex(v[k]) + " but not " + ex(v[i]) + " < " + ex(v[k]));
  }
  // containers
  std::set<T> os; std::unordered_set<T> us; std::map<T, int> om; std::unordered_map<T, int> um;
  std::map<std::string, int> cnt;
  for (size_t i = 0; i < n; ++i) { os.insert(v[i]); us.insert(v[i]); ++om[v[i]]; ++um[v[i]]; ++cnt[id[i]]; }
  c.eval(4);
  if (os.size() != cnt.size() || us.size() != cnt.size()) c.violation(std::string(kind) + "-container-size", "containers hold " + std::to_string(os.size()) + "/" + std::to_string(us.size()) + " objects instead of " + std::to_string(cnt.size()));
  for (size_t i = 0; i < n; ++i) {
    if (!os.count(v[i]) || !us.count(v[i])) c.violation(std::string(kind) + "-container-find", "inserted object not found: " + ex(v[i]));
    if (om[v[i]] != cnt[id[i]] || um[v[i]] != cnt[id[i]]) c.violation(std::string(kind) + "-container-count", "a map counts " + std::to_string(om[v[i]]) + "/" + std::to_string(um[v[i]]) + " copies of " + ex(v[i]) + " instead of " + std::to_string(cnt[id[i]]));
  }
}

// A copy of t with one small change somewhere.
RP mutate(Rng& r, const RP& t, int nx) {
  if (!t->a || r.chance(0.3)) {
    if (t->k == K::Const) return rc(r.chance(0.5) ? t->c + 1 : (t->c == 0 ? 2.0 : -t->c));
    if (t->k == K::Var) return rv((t->var + 1) % nx);
    if (t->k == K::Interval) { auto q = std::make_shared<R>(*t); q->c = std::nextafter(t->c, 1e9); q->c2 = std::nextafter(t->c2, 1e9); return q; }
  }
  auto n = std::make_shared<R>(*t);
  if (t->b && r.chance(0.5)) n->b = mutate(r, t->b, nx); else if (t->a) n->a = mutate(r, t->a, nx);
  return n;
}
void c06(Ctx& c) {
  Rng r = c.rng();
  const int what = r.below(10);
  if (what < 4) {
    // pairs and triples of expressions
    GenOpt o; o.intervals = 0.15;
    if (r.chance(0.3)) { o.poly = true; o.intervals = 0; }
    Pool p(3, 2);
    Gen g(r, 3, 2, o);
    std::vector<Expression> v;
    c.note("expressions");
    for (int i = 0; i < 5; ++i) {
      RP t = g.expr(r.below(4));
      RP m = mutate(r, t, 3);
      Rng b1 = c.rng(10 + i), b2 = c.rng(20 + i);
      try { Builder b(p, &b1); v.push_back(b(t)); } catch (const std::exception&) {}
      try { Builder b(p, &b2); v.push_back(b(t)); } catch (const std::exception&) {}
      try { Builder b(p, &b2); v.push_back(b(m)); } catch (const std::exception&) {}
    }
    if (r.chance(0.3)) { v.push_back(Expression::NaN()); v.push_back(Expression::NaN()); }
    if (r.chance(0.4)) {
      double lo = r.chance(0.7) ? r.uni(-2, 2) : 0.5;
      double up = std::nextafter(lo, 1e9), up2 = std::nextafter(up, 1e9);
      v.push_back(real_constant(lo, up, true)); v.push_back(real_constant(lo, up, false)); v.push_back(real_constant(lo, up, true));
      v.push_back(real_constant(up, up2, true)); v.push_back(real_constant(up, up2, false)); v.push_back(Expression(lo)); v.push_back(Expression(up));
    }
    if (r.chance(0.4)) {
      Variables a{p.x[0]}, b{p.x[0], p.x[1]}, d{p.x[1]};
      v.push_back(uninterpreted_function("f", a)); v.push_back(uninterpreted_function("f", b)); v.push_back(uninterpreted_function("g", a)); v.push_back(uninterpreted_function("f", d)); v.push_back(uninterpreted_function("f", a));
      v.push_back(uninterpreted_function("f", a) * p.x[0]); v.push_back(uninterpreted_function("f", d) * p.x[0]);
    }
    if (r.chance(0.2)) { v.push_back(Expression(0.0)); v.push_back(Expression(-0.0)); v.push_back(Expression(p.x[0]) * 0.0 + -0.0); }
    if (r.chance(0.2)) { v.push_back(Expression(1e16)); v.push_back(Expression(1e16 + 2)); v.push_back(p.x[0] + 1e16); v.push_back(p.x[0] + (1e16 + 2)); v.push_back(p.x[0] * (1e16 + 2)); v.push_back(p.x[0] * 1e16); v.push_back(pow(p.x[0], 1e16)); }
    std::vector<std::string> id;
    for (auto& e : v) id.push_back(ser(e));
    laws(c, v, id, "expression");
    for (size_t i = 0; i < v.size(); ++i) if (i % 3 == 1 && v[i].EqualTo(v[i - 1])) {
      // equal objects have equal values
      Asg a = g.asg();
      double d1 = 0, d2 = 0; int n1 = 0, n2 = 0;
      try { d1 = v[i].Evaluate(p.env(a)); } catch (const std::exception&) { n1 = 1; }
      try { d2 = v[i - 1].Evaluate(p.env(a)); } catch (const std::exception&) { n2 = 1; }
      if (n1 != n2 || (!n1 && !(d1 == d2) && !(std::isnan(d1) && std::isnan(d2)))) c.violation("equal-values", "equal expressions " + ex(v[i]) + " evaluate to " + dstr(d1) + " and " + dstr(d2) + " at " + astr(a));
    }
    std::string sig; for (size_t i = 0; i < v.size() && i < 4; ++i) sig += id[i] + " ";
    if (v.size() > 3) c.nontrivial(sig);
    return;
  }
  if (what < 7) {
    GenOpt o; o.funcs = r.chance(0.5);
    Pool p(3, 3);
    Gen g(r, 3, 3, o);
    std::vector<Formula> v;
    c.note("formulas");
    for (int i = 0; i < 5; ++i) {
      RFP t = g.form(r.below(3), 1);
      if (r.chance(0.25)) t = fforall(r.chance(0.5) ? std::vector<int>{r.below(3)} : r.chance(0.3) ? std::vector<int>{-1 - r.below(3)} : std::vector<int>{0, 1 + r.below(2)}, t);
      if (r.chance(0.2)) t = fops(r.chance(0.5) ? FK::And : FK::Or, {t, g.form(1, 1)});
      Rng b1 = c.rng(10 + i), b2 = c.rng(20 + i);
      try { Builder b(p, &b1); v.push_back(b(t)); } catch (const std::exception&) {}
      try { Builder b(p, &b2); v.push_back(b(t)); if (r.chance(0.5)) v.push_back(!b(t)); } catch (const std::exception&) {}
      // the same operands in another order
      if ((t->k == FK::And || t->k == FK::Or)) {
        try {
          Builder b(p, &b2);
          std::vector<Formula> ops;
          for (auto& q : t->ops) ops.push_back(b(q));
          Formula f2 = ops[0], f1 = ops[0];
          const bool an = t->k == FK::And;
          for (size_t k = 1; k < ops.size(); ++k) f2 = an ? (f2 && ops[k]) : (f2 || ops[k]);
          for (size_t k = ops.size(); k > 1; --k) { const size_t z = r.below((int)k); if (z != k - 1) std::swap(ops[k - 1], ops[z]); }
          f1 = ops[0];
          for (size_t k = 1; k < ops.size(); ++k) f1 = an ? (ops[k] && f1) : (ops[k] || f1);
          c.eval();
          if (!f1.EqualTo(f2)) c.violation("operand-order", "the same operands in different orders give different formulas: " + ex(f1) + " and " + ex(f2));
          v.push_back(f1);
        } catch (const std::exception&) {}
      }
    }
    std::vector<std::string> id;
    for (auto& e : v) id.push_back(ser(e));
    laws(c, v, id, "formula");
    std::string sig; for (size_t i = 0; i < v.size() && i < 4; ++i) sig += id[i] + " ";
    if (v.size() > 3) c.nontrivial(sig);
    return;
  }
  if (what < 9) {
    // sums and products of the same parts in different orders and associations
    Pool p(4, 1);
    const bool sum = r.chance(0.5);
    std::vector<Expression> parts;
    const int n = r.range(2, 7);
    auto atom = [&]() -> Expression {
      const Variable& v = p.x[r.below(4)];
      switch (r.below(6)) { case 0: return sin(v); case 1: return exp(Expression(v)); case 2: return if_then_else(Expression(v) > 1.0, v, 2.0); case 3: return uninterpreted_function("f", {v}); default: return v; }
    };
    for (int i = 0; i < n; ++i) {
      if (sum) {
        Expression t = atom();
        if (r.chance(0.4)) t = t * atom();
        if (r.chance(0.2)) t = pow(t, 2.0);
        if (r.chance(0.5)) t = t * (double)r.range(-3, 3);
        if (r.chance(0.2)) t = t + (double)r.range(-2, 2) + atom();
        if (r.chance(0.15)) t = Expression((double)r.range(-4, 4));
        parts.push_back(t);
      } else {
        Expression t = atom();
        if (r.chance(0.4)) t = pow(t, (double)r.range(-3, 3));
        if (r.chance(0.2)) t = t * atom();
        if (r.chance(0.15)) t = Expression((double)std::vector<int>{-2, -1, 1, 2, 3}[r.below(5)]);
        parts.push_back(t);
      }
    }
    std::string text = sum ? "sum of" : "product of";
    for (auto& q : parts) text += " [" + q.to_string() + "]";
    c.note(text);
    Expression first; bool have = false;
    for (int k = 0; k < 4; ++k) {
      std::vector<Expression> q = parts;
      for (size_t i = q.size(); i > 1; --i) { const size_t z = r.below((int)i); if (z != i - 1) std::swap(q[i - 1], q[z]); }
      Expression res;
      const int how = r.below(4);
      if (how == 0) { res = q[0]; for (size_t i = 1; i < q.size(); ++i) res = sum ? res + q[i] : res * q[i]; }
      else if (how == 1) { res = q[0]; for (size_t i = 1; i < q.size(); ++i) res = sum ? q[i] + res : q[i] * res; }
      else if (how == 2) { res = q[0]; for (size_t i = 1; i < q.size(); ++i) { if (sum) res += q[i]; else res *= q[i]; } }
      else { while (q.size() > 1) { int i = r.below((int)q.size() - 1); q[i] = sum ? q[i] + q[i + 1] : q[i] * q[i + 1]; q.erase(q.begin() + i + 1); } res = q[0]; }
      c.eval();
      if (!have) { first = res; have = true; continue; }
      if (!first.EqualTo(res) || first.get_hash() != res.get_hash() || first.Less(res) || res.Less(first)) c.violation(sum ? "sum-order" : "product-order", text + ": " + ex(first) + " in one order, " + ex(res) + " in another");
    }
    c.nontrivial(text);
    return;
  }
  // variables and variable sets
  std::vector<Variable> v;
  static const std::vector<Variable::Type> ty{Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY, Variable::Type::BOOLEAN};
  for (int i = 0; i < 4; ++i) v.push_back(Variable(r.chance(0.5) ? "x" : "y", r.pick(ty)));
  for (int i = 0; i < 3; ++i) v.push_back(v[r.below((int)v.size())]);
  v.push_back(Variable());
  v.push_back(Variable());
  c.note("variables");
  for (auto& a : v) for (auto& b : v) {
    c.eval();
    bool same = a.get_id() == b.get_id();
    if (a.equal_to(b) != same || std::equal_to<Variable>{}(a, b) != same) c.violation("variable-equality", "variable equality disagrees with identity");
    if (a.less(b) + b.less(a) + (int)same != 1 || std::less<Variable>{}(a, b) != a.less(b)) c.violation("variable-order", "variable order is not total");
    if (same && (a.get_hash() != b.get_hash() || std::hash<Variable>{}(a) != std::hash<Variable>{}(b))) c.violation("variable-hash", "equal variables, different hashes");
    if (!same && !a.is_dummy() && !b.is_dummy() && a.get_type() != Variable::Type::BOOLEAN && b.get_type() != Variable::Type::BOOLEAN) {
      if (Expression(a).EqualTo(Expression(b))) c.violation("variable-expressions", "expressions of different variables are equal");
    }
  }
  std::vector<Variables> s;
  for (int i = 0; i < 5; ++i) { Variables q; for (auto& a : v) if (r.chance(0.4)) q.insert(a); s.push_back(q); }
  { Variables q; for (auto it = s[0].rbegin(); it != s[0].rend(); ++it) q.insert(*it); s.push_back(q); }
  std::vector<std::string> id;
  for (auto& q : s) id.push_back(ser(q));
  for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.size(); ++j) {
    c.eval();
    bool same = id[i] == id[j];
    if ((s[i] == s[j]) != same) c.violation("set-equality", "variable-set equality is wrong for " + id[i] + " and " + id[j]);
    if ((s[i] < s[j]) + (s[j] < s[i]) + (int)same != 1) c.violation("set-order", "variable-set order is not total for " + id[i] + " and " + id[j]);
    if (same && s[i].get_hash() != s[j].get_hash()) c.violation("set-hash", "equal variable sets with different hashes: " + id[i]);
    for (size_t k = 0; k < s.size(); ++k) if (s[i] < s[j] && s[j] < s[k] && !(s[i] < s[k])) c.violation("set-transitive", "variable-set order is not transitive");
  }
  c.nontrivial("variables " + id[0] + id[1] + id[2]);
}

// ---------------- C07 ----------------
struct Machine {
  Ctx* c;      // null: no monitoring, only the operations
  Rng r;
  Pool p;
  std::vector<Expression> e;
  std::vector<Formula> f;
  std::vector<Expression> bag;
  std::set<Formula> fset;
  std::map<Expression, Formula> emap;
  Environment env;
  struct Snap { std::string s, t, v; size_t h; };
  std::vector<Snap> se, sf, sb;
  std::vector<std::string> log;

  Machine(Ctx* ctx, Rng rng) : c(ctx), r(rng), p(4, 3) {
    for (int i = 0; i < 6; ++i) e.push_back(p.x[i % 4]);
    for (int i = 0; i < 4; ++i) f.push_back(i < 3 ? Formula(p.b[i]) : Formula(p.x[0] > p.x[1]));
    for (auto& x : p.x) env.insert(x, 1.5);
    for (auto& x : p.b) env.insert(x, 1.0);
    if (c) { se.resize(e.size()); sf.resize(f.size()); for (size_t i = 0; i < e.size(); ++i) se[i] = snap(e[i]); for (size_t i = 0; i < f.size(); ++i) sf[i] = snap(f[i]); }
  }
  Snap snap(const Expression& x) { return {ser(x), x.to_string(), ser(x.GetVariables()), x.get_hash()}; }
  Snap snap(const Formula& x) { return {ser(x), x.to_string(), ser(x.GetFreeVariables()), x.get_hash()}; }
  void say(const std::string& s) { if (c) { log.push_back(s); if (log.size() > 60) log.erase(log.begin()); } }
  std::string hist() { std::string s; for (auto& l : log) s += l + "; "; return s; }
  template <class T> void same(const T& x, const Snap& s, const std::string& who) {
    c->eval();
    std::string what;
    if (ser(x) != s.s) what = "structure";
    else if (x.get_hash() != s.h) what = "hash";
    else if (x.to_string() != s.t) what = "text";
    if (what.empty()) {
      Variables v; 
      if (vars_of(x) != s.v) what = "free variables";
    }
    if (!what.empty()) c->violation("changed-" + what, who + " changed its " + what + " from " + cut(s.t, 200) + " to " + ex(x) + " without being assigned; last operations: " + hist());
  }
  std::string vars_of(const Expression& x) { return ser(x.GetVariables()); }
  std::string vars_of(const Formula& x) { return ser(x.GetFreeVariables()); }
  // The registers de, df (or -1) were assigned in this step.
  void verify(const std::set<int>& de, const std::set<int>& df) {
    if (!c) return;
    for (size_t i = 0; i < e.size(); ++i) { if (de.count((int)i)) se[i] = snap(e[i]); else same(e[i], se[i], "register e" + std::to_string(i)); }
    for (size_t i = 0; i < f.size(); ++i) { if (df.count((int)i)) sf[i] = snap(f[i]); else same(f[i], sf[i], "register f" + std::to_string(i)); }
    while (sb.size() > bag.size()) sb.pop_back();
    for (size_t i = 0; i < bag.size(); ++i) { if (i >= sb.size()) sb.push_back(snap(bag[i])); else same(bag[i], sb[i], "stored copy " + std::to_string(i)); }
  }
  template <class T> void expect(const T& got, const T& want, const char* how) {
    if (!c) return;
    c->eval();
    if (ser(got) != ser(want)) c->violation(std::string("forms-differ-") + how, std::string(how) + " gives " + ex(got) + " but the operator on untouched copies gives " + ex(want) + "; last operations: " + hist());
  }
  Expression atom() { if (r.chance(0.6)) return p.x[r.below(4)]; return Expression((double)r.range(-3, 3)); }
  void step() {
    const int i = r.below((int)e.size()), j = r.below((int)e.size()), d = r.below((int)e.size());
    const int m = r.below((int)f.size()), n = r.below((int)f.size()), g = r.below((int)f.size());
    const int op = r.below(48);
    const int bin = r.below(4);
    static const char* bn[] = {"+", "-", "*", "/"};
    auto ap = [&](const Expression& a, const Expression& b) -> Expression { switch (bin) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } };
    auto S = [](const char* s, int a) { return std::string(s) + std::to_string(a); };
    std::set<int> de, df;
    try {
      if (op < 4) { say(S("e", d) + "=e" + S("", i) + bn[bin] + S("e", j)); de = {d}; e[d] = ap(e[i], e[j]); }
      else if (op < 10) {
        say(S("e", i) + bn[bin] + "=" + S("e", j)); de = {i};
        Expression want = ap(e[i], e[j]);
        switch (bin) { case 0: e[i] += e[j]; break; case 1: e[i] -= e[j]; break; case 2: e[i] *= e[j]; break; default: e[i] /= e[j]; }
        expect(e[i], want, "in-place operator");
      } else if (op < 13) {
        if (i == j) return;
        say(S("e", d) + "=move(e" + S("", i) + ")" + bn[bin] + S("e", j)); de = {d, i};
        Expression want = ap(e[i], e[j]), t;
        switch (bin) { case 0: t = std::move(e[i]) + e[j]; break; case 1: t = std::move(e[i]) - e[j]; break; case 2: t = std::move(e[i]) * e[j]; break; default: t = std::move(e[i]) / e[j]; }
        e[i] = atom();
        e[d] = t;
        expect(t, want, "operator on a moved operand");
      } else if (op < 15) {
        if (i == j) return;
        say(S("e", d) + "=e" + S("", j) + bn[bin] + "move(" + S("e", i) + ")"); de = {d, i};
        Expression want = ap(e[j], e[i]), t;
        switch (bin) { case 0: t = e[j] + std::move(e[i]); break; case 1: t = e[j] - std::move(e[i]); break; case 2: t = e[j] * std::move(e[i]); break; default: t = e[j] / std::move(e[i]); }
        e[i] = atom();
        e[d] = t;
        expect(t, want, "operator on a moved second operand");
      } else if (op == 15) {
        say("++/-- e" + S("", i)); de = {i, d};
        Expression old = e[i];
        switch (r.below(4)) { case 0: { ++e[i]; expect(e[i], old + 1.0, "pre-increment"); break; } case 1: --e[i]; expect(e[i], old - 1.0, "pre-decrement"); break;
          case 2: { Expression t = e[i]++; expect(t, old, "post-increment result"); expect(e[i], old + 1.0, "post-increment"); e[d] = t; break; }
          default: { Expression t = e[i]--; expect(t, old, "post-decrement result"); expect(e[i], old - 1.0, "post-decrement"); e[d] = t; } }
      } else if (op == 16) { say(S("e", d) + "=-e" + S("", i)); de = {d}; e[d] = r.chance(0.5) ? -e[i] : +e[i]; }
      else if (op == 17) { say(S("e", d) + "=-copy e" + S("", i)); de = {d}; Expression t = e[i]; e[d] = -std::move(t); }
      else if (op < 20) {
        say(S("e", d) + "=fn(e" + S("", i) + ")"); de = {d};
        switch (r.below(12)) { case 0: e[d] = sin(e[i]); break; case 1: e[d] = cos(e[i]); break; case 2: e[d] = exp(e[i]); break; case 3: e[d] = abs(e[i]); break; case 4: e[d] = pow(e[i], 2.0); break; case 5: e[d] = pow(e[i], e[j]); break;
          case 6: e[d] = min(e[i], e[j]); break; case 7: e[d] = max(e[i], e[j]); break; case 8: e[d] = sqrt(e[i]); break; case 9: e[d] = tanh(e[i]); break; case 10: e[d] = atan2(e[i], e[j]); break; default: e[d] = dreal::log(e[i]); }
      } else if (op == 20) { say(S("e", d) + "=ite(f" + S("", m) + ",e" + S("", i) + ",e" + S("", j) + ")"); de = {d}; e[d] = if_then_else(f[m], e[i], e[j]); }
      else if (op == 21) { say(S("e", d) + "=subst(e" + S("", i) + ")"); de = {d}; ExpressionSubstitution s; s.emplace(p.x[r.below(4)], e[j]); s.emplace(p.x[r.below(4)], atom()); e[d] = e[i].Substitute(s); }
      else if (op == 22) { if (e[i].to_string().size() > 120 || e[i].include_ite()) return; say(S("e", d) + "=expand(e" + S("", i) + ")"); de = {d}; e[d] = e[i].Expand(); }
      else if (op == 23) { say(S("e", d) + "=partial(e" + S("", i) + ")"); de = {d}; e[d] = e[i].EvaluatePartial(Environment{{p.x[r.below(4)], 2.0}}); }
      else if (op == 24) { if (e[i].to_string().size() > 150) return; say(S("e", d) + "=diff(e" + S("", i) + ")"); de = {d}; e[d] = e[i].Differentiate(p.x[r.below(4)]); }
      else if (op == 25) { say(S("e", d) + "=e" + S("", i)); de = {d}; const Expression& ref = e[i]; e[d] = ref; }
      else if (op == 26) { if (d == i) return; say(S("e", d) + "=move(e" + S("", i) + ")"); de = {d, i}; e[d] = std::move(e[i]); e[i] = atom(); }
      else if (op == 27) { say("swap e" + S("", i) + ",e" + S("", j)); de = {i, j}; if (i != j) std::swap(e[i], e[j]); }
      else if (op == 28) { say("store e" + S("", i)); if (bag.size() < 5) bag.push_back(e[i]); }
      else if (op == 29) { say("drop stored"); if (!bag.empty()) bag.pop_back(); }
      else if (op == 30) { say(S("e", d) + "=stored" + bn[bin] + "=e"); if (bag.empty()) return; de = {d}; Expression t = bag[r.below((int)bag.size())]; switch (bin) { case 0: t += e[i]; break; case 1: t -= e[i]; break; case 2: t *= e[i]; break; default: t /= e[i]; } e[d] = t; }
      else if (op == 31) { say("Sum/Prod"); de = {d}; std::vector<Expression> v{e[i], e[j], atom()}; e[d] = r.chance(0.5) ? Sum(v) : Prod(v); }
      else if (op == 32) { say(S("e", d) + "=part of e" + S("", i)); de = {d};
        const Expression& x = e[i];
        if (is_addition(x)) { Expression t = get_expr_to_coeff_map_in_addition(x).begin()->first; e[d] = t; }
        else if (is_multiplication(x)) { Expression t = get_base_to_exponent_map_in_multiplication(x).begin()->first; e[d] = t; }
        else if (is_division(x)) { e[d] = get_first_argument(x); }   // reference into the object being overwritten when d == i
        else if (is_sin(x) || is_cos(x) || is_exp(x)) { e[d] = get_argument(x); }
        else e[d] = atom();
      }
      else if (op == 33) { say(S("e", d) + "=" + S("e", i) + " " + bn[bin] + " its own part"); de = {d};
        if (is_division(e[i]) || is_min(e[i]) || is_max(e[i])) { Expression want = ap(e[i], get_first_argument(e[i])); Expression t = e[i]; const Expression& part = get_first_argument(e[i]); e[d] = ap(t, part); expect(e[d], want, "operator with own part"); }
        else e[d] = ap(e[i], atom()); }
      // formulas
      else if (op < 37) { say(S("f", g) + "=f" + S("", m) + (op & 1 ? "&&" : "||") + S("f", n)); df = {g}; f[g] = op & 1 ? (f[m] && f[n]) : (f[m] || f[n]); }
      else if (op < 40) {
        if (m == n) return;
        const bool an = r.chance(0.5); const int form = r.below(3);
        Formula want = an ? (f[m] && f[n]) : (f[m] || f[n]), t;
        say(S("f", g) + "=" + (an ? "and" : "or") + "(f" + S("", m) + ",f" + S("", n) + ") moving " + S("", form));
        df = {g, m};
        if (form == 0) { t = an ? (std::move(f[m]) && f[n]) : (std::move(f[m]) || f[n]); }
        else if (form == 1) { df = {g, n}; t = an ? (f[m] && std::move(f[n])) : (f[m] || std::move(f[n])); }
        else { df.insert(n); t = an ? (std::move(f[m]) && std::move(f[n])) : (std::move(f[m]) || std::move(f[n])); }
        for (int k : df) if (k != g) f[k] = Formula(p.b[r.below(3)]);
        f[g] = t;
        expect(t, want, "connective on moved operands");
      }
      else if (op == 40) { say(S("f", g) + "=!f" + S("", m)); df = {g}; if (r.chance(0.5)) f[g] = !f[m]; else { Formula t = f[m]; f[g] = !std::move(t); } }
      else if (op == 41) { say(S("f", g) + "=rel"); df = {g}; switch (r.below(6)) { case 0: f[g] = e[i] > e[j]; break; case 1: f[g] = e[i] >= e[j]; break; case 2: f[g] = e[i] < e[j]; break; case 3: f[g] = e[i] <= e[j]; break; case 4: f[g] = e[i] == e[j]; break; default: f[g] = e[i] != e[j]; } }
      else if (op == 42) { say(S("f", g) + "=subst f" + S("", m)); df = {g}; ExpressionSubstitution s; s.emplace(p.x[r.below(4)], e[i]); FormulaSubstitution q; if (r.chance(0.5)) q.emplace(p.b[r.below(3)], f[n]); f[g] = f[m].Substitute(s, q); }
      else if (op == 43) { say(S("f", g) + "=f" + S("", m)); df = {g}; f[g] = f[m]; }
      else if (op == 44) { if (g == m) return; say(S("f", g) + "=move f" + S("", m)); df = {g, m}; f[g] = std::move(f[m]); f[m] = Formula(p.b[0]); }
      else if (op == 45) { say(S("f", g) + "=operand of f" + S("", m)); df = {g}; if (is_conjunction(f[m]) || is_disjunction(f[m])) f[g] = *get_operands(f[m]).begin(); else if (is_negation(f[m])) f[g] = get_operand(f[m]); else f[g] = f[m]; }
      else if (op == 46) { say(S("f", g) + "=and/or own part"); df = {g}; if (is_conjunction(f[m]) || is_disjunction(f[m])) { Formula t = f[m]; const Formula& part = *get_operands(f[m]).rbegin(); f[g] = r.chance(0.5) ? (t && part) : (std::move(t) || part); } else f[g] = imply(f[m], f[n]); }
      else { say("containers"); fset.insert(f[m]); emap.emplace(e[i], f[m]); if (fset.size() > 3) fset.clear(); if (emap.size() > 3) emap.clear(); if (r.chance(0.5)) { df = {g}; f[g] = r.chance(0.5) ? make_conjunction(fset) : make_disjunction(fset); } if (r.chance(0.3)) { df.insert(g); f[g] = forall({p.x[3]}, f[m]); } }
    } catch (const std::exception& x) {
      say(std::string("(threw ") + std::string(x.what()).substr(0, 30) + ")");
      // a moved-from operand is given a value again
      for (int k : de) if (is_null(e[k])) e[k] = atom();
      for (int k : df) if (is_null(f[k])) f[k] = Formula(p.b[0]);
    }
    // evaluation has no side effect either
    if (r.chance(0.1)) { try { e[i].Evaluate(env); } catch (const std::exception&) {} try { f[m].Evaluate(env); } catch (const std::exception&) {} }
    for (size_t k = 0; k < e.size(); ++k) if (e[k].to_string().size() > 260) { e[k] = p.x[k % 4]; de.insert((int)k); }
    for (size_t k = 0; k < f.size(); ++k) if (f[k].to_string().size() > 300) { f[k] = Formula(p.b[k % 3]); df.insert((int)k); }
    verify(de, df);
  }
  // A moved-from object holds no cell; it may only be assigned or destroyed.
  template <class T> static bool is_null(const T& x) { void* q; static_assert(sizeof(T) == sizeof q, "one pointer"); memcpy(&q, &x, sizeof q); return q == nullptr; }
};
void history(Ctx* c, Rng r, int steps) {
  Machine m(c, r);
  for (int i = 0; i < steps; ++i) m.step();
  if (c) c->nontrivial(m.hist());
}
void c07(Ctx& c) {
  Rng r = c.rng();
  const int steps = r.range(10, 60);
  c.note("history of " + std::to_string(steps) + " operations");
  Rng q = c.rng(1);
  history(&c, q, steps);
  // once more without monitors: everything allocated by the history is released at its end
  history(nullptr, q, steps);
  const size_t before = __sanitizer_get_current_allocated_bytes();
  history(nullptr, q, steps);
  const size_t after = __sanitizer_get_current_allocated_bytes();
  c.eval();
  if (after != before) c.violation("leak", "a history of " + std::to_string(steps) + " operations leaves " + std::to_string((long)after - (long)before) + " bytes allocated");
}

// ---------------- C10 ----------------
void c10(Ctx& c) {
  Rng r = c.rng();
  typedef std::map<Variable::Id, Variable> Model;
  static const std::vector<Variable::Type> ty{Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY, Variable::Type::BOOLEAN};
  std::vector<Variable> pool;
  for (int i = 0; i < 6; ++i) pool.push_back(Variable(i % 2 ? "x" : "v" + std::to_string(i), r.pick(ty)));
  std::string log;
  if (r.chance(0.6)) {
    std::vector<Variables> s(4);
    std::vector<Model> m(4);
    const int steps = r.range(5, 60);
    auto uni = [](const Model& a, const Model& b) { Model x = a; x.insert(b.begin(), b.end()); return x; };
    auto dif = [](const Model& a, const Model& b) { Model x; for (auto& q : a) if (!b.count(q.first)) x.insert(q); return x; };
    auto itr = [](const Model& a, const Model& b) { Model x; for (auto& q : a) if (b.count(q.first)) x.insert(q); return x; };
    auto sub = [](const Model& a, const Model& b) { for (auto& q : a) if (!b.count(q.first)) return false; return true; };
    for (int k = 0; k < steps; ++k) {
      int i = r.below(4), j = r.below(4), d = r.below(4), op = r.below(22);
      const Variable& v = pool[r.below(6)];
      log += std::to_string(op) + ":" + std::to_string(d) + std::to_string(i) + std::to_string(j) + " ";
      c.note("set history " + log);
      auto one = [&](const Variable& x) { Model q; q.emplace(x.get_id(), x); return q; };
      switch (op) {
        case 0: s[d].insert(v); m[d].emplace(v.get_id(), v); break;
        case 1: { size_t n = s[d].erase(v); size_t w = m[d].erase(v.get_id()); if (n != w) c.violation("erase-count", "erase returned " + std::to_string(n)); break; }
        case 2: { size_t w = itr(m[d], m[i]).size(); Model q = dif(m[d], m[i]); size_t n = s[d].erase(s[i]); m[d] = q; if (n != w) c.violation("erase-set-count", "erase of a set returned " + std::to_string(n) + " instead of " + std::to_string(w)); break; }
        case 3: m[d] = uni(m[d], m[i]); s[d].insert(s[i]); break;
        case 4: m[d] = uni(m[d], m[i]); s[d] += s[i]; break;
        case 5: m[d] = dif(m[d], m[i]); s[d] -= s[i]; break;
        case 6: s[d] += v; m[d].emplace(v.get_id(), v); break;
        case 7: s[d] -= v; m[d].erase(v.get_id()); break;
        case 8: { Model q = uni(m[i], m[j]); s[d] = s[i] + s[j]; m[d] = q; break; }
        case 9: { Model q = dif(m[i], m[j]); s[d] = s[i] - s[j]; m[d] = q; break; }
        case 10: { Model q = itr(m[i], m[j]); s[d] = intersect(s[i], s[j]); m[d] = q; break; }
        case 11: { Model q = uni(m[i], one(v)); s[d] = r.chance(0.5) ? s[i] + v : v + s[i]; m[d] = q; break; }
        case 12: { Model q = dif(m[i], one(v)); s[d] = s[i] - v; m[d] = q; break; }
        case 13: s[d] = Variables{v, pool[0], v}; m[d] = uni(one(v), one(pool[0])); break;
        case 14: { std::vector<Variable> l(pool.begin(), pool.begin() + r.below(6)); s[d].insert(l.begin(), l.end()); for (auto& x : l) m[d].emplace(x.get_id(), x); break; }
        case 15: { Variables t = s[i]; s[d] = std::move(t); m[d] = Model(m[i]); break; }
        case 16: { Model q = m[i]; s[d] = s[i]; m[d] = q; break; }
        default: break;
      }
      c.eval(4);
      std::string who = " after set history " + log;
      for (int t = 0; t < 4; ++t) {
        // contents, in strictly increasing order
        std::vector<Variable::Id> a, b;
        for (const auto& x : s[t]) a.push_back(x.get_id());
        for (auto& q : m[t]) b.push_back(q.first);
        if (a != b) c.violation("set-contents", "a variable set iterates over other elements than it should" + who);
        if (s[t].size() != m[t].size() || s[t].empty() != m[t].empty()) c.violation("set-size", "size or empty is wrong" + who);
      }
      std::vector<Variable::Id> rev, want; for (auto it = s[i].rbegin(); it != s[i].rend(); ++it) rev.push_back(it->get_id()); for (auto it = m[i].rbegin(); it != m[i].rend(); ++it) want.push_back(it->first);
      if (rev != want) c.violation("set-reverse", "reverse iteration is wrong" + who);
      if (s[i].include(v) != (m[i].count(v.get_id()) > 0) || (s[i].find(v) != s[i].end()) != s[i].include(v)) c.violation("set-include", "membership is wrong" + who);
      const bool sb = sub(m[i], m[j]), sp = sub(m[j], m[i]), eq = sb && sp;
      if (s[i].IsSubsetOf(s[j]) != sb) c.violation("set-subset", "IsSubsetOf is wrong" + who);
      if (s[i].IsSupersetOf(s[j]) != sp) c.violation("set-superset", "IsSupersetOf is wrong" + who);
      if (s[i].IsStrictSubsetOf(s[j]) != (sb && !eq)) c.violation("set-strict-subset", "IsStrictSubsetOf is wrong" + who);
      if (s[i].IsStrictSupersetOf(s[j]) != (sp && !eq)) c.violation("set-strict-superset", "IsStrictSupersetOf is wrong" + who);
      if ((s[i] == s[j]) != eq) c.violation("set-equal", "equality is wrong" + who);
      if (HaveIntersection(s[i], s[j]) != !itr(m[i], m[j]).empty()) c.violation("have-intersection", "HaveIntersection is wrong" + who);
      std::string txt = "{"; bool first = true; for (auto& q : m[i]) { txt += (first ? "" : ", ") + q.second.get_name(); first = false; } txt += "}";
      if (s[i].to_string() != txt) c.violation("set-text", "printed as " + s[i].to_string() + " instead of " + txt + who);
    }
    c.nontrivial("set " + log);
    return;
  }
  // environments
  Environment env;
  std::map<Variable::Id, double> m;
  const int steps = r.range(5, 50);
  Variable dummy;
  for (int k = 0; k < steps; ++k) {
    const Variable& v = pool[r.below(6)];
    double d = r.chance(0.1) ? (r.chance(0.5) ? std::numeric_limits<double>::infinity() : -0.0) : r.uni(-5, 5);
    int op = r.below(14);
    log += std::to_string(op) + ":" + v.get_name() + " ";
    c.note("environment history " + log);
    auto throws = [](const std::function<void()>& go) { try { go(); } catch (const std::runtime_error&) { return true; } return false; };
    std::string who = " after environment history " + log;
    switch (op) {
      case 0: case 1: env.insert(v, d); m.emplace(v.get_id(), d); break;
      case 2: env[v] = d; m[v.get_id()] = d; break;
      case 3: { double x = env[v]; if (!m.count(v.get_id())) m[v.get_id()] = 0; if (x != m[v.get_id()]) c.violation("env-index", "indexing returned " + dstr(x) + who); break; }
      case 4: { const Environment& ce = env; double x = 0; bool t = throws([&] { x = ce[v]; }); if (t != !m.count(v.get_id())) c.violation("env-const-index", "const lookup of a variable that is " + std::string(t ? "bound threw" : "not bound succeeded") + who); else if (!t && x != m[v.get_id()]) c.violation("env-const-value", "const lookup returned a wrong value" + who); break; }
      case 5: { Environment old = env; if (!throws([&] { env.insert(dummy, 1.0); })) c.violation("env-dummy", "insert accepts an anonymous variable" + who); if (!throws([&] { env.insert(v, std::nan("")); })) c.violation("env-nan", "insert accepts not-a-number" + who); break; }
      case 6: if (!throws([&] { env[dummy] = 1; })) c.violation("env-dummy-index", "indexing accepts an anonymous variable" + who);
              if (!throws([&] { const Environment& ce = env; (void)ce[dummy]; })) c.violation("env-dummy-const", "const lookup accepts an anonymous variable" + who); break;
      case 7: { Environment::map q; for (auto& x : env) q.insert(x); if (r.chance(0.5)) { q[v] = d; env = Environment(q); m[v.get_id()] = d; } else if (r.chance(0.5)) { q[v] = std::nan(""); if (!throws([&] { Environment t(q); })) c.violation("env-map-nan", "construction from a map accepts not-a-number" + who); } else { q[dummy] = 1; if (!throws([&] { Environment t(q); })) c.violation("env-map-dummy", "construction from a map accepts an anonymous variable" + who); } break; }
      case 8: { env = Environment{v, pool[0]}; m.clear(); m[v.get_id()] = 0; m[pool[0].get_id()] = 0; break; }
      case 9: { env = Environment{{v, d}, {pool[1], 2.0}, {v, d + 1}}; m.clear(); m.emplace(v.get_id(), d); m.emplace(pool[1].get_id(), 2.0); break; }
      case 10: { if (!throws([&] { Environment t{{v, 1.0}, {dummy, 2.0}}; })) c.violation("env-list-dummy", "list construction accepts an anonymous variable" + who); if (!throws([&] { Environment t{{v, std::nan("")}}; })) c.violation("env-list-nan", "list construction accepts not-a-number" + who); if (!throws([&] { Environment t{v, dummy}; })) c.violation("env-vars-dummy", "list construction accepts an anonymous variable" + who); break; }
      case 11: { Environment t = env; t[v] = d; t.insert(pool[2], 9); break; }  // copies are independent
      case 12: { auto it = env.find(v); if ((it != env.end()) != (m.count(v.get_id()) > 0)) c.violation("env-find", "find is wrong" + who); if (it != env.end()) { it->second = d; m[v.get_id()] = d; } break; }
      default: break;
    }
    c.eval(2);
    std::map<Variable::Id, double> got;
    for (const auto& q : env) got[q.first.get_id()] = q.second;
    if (got != m || env.size() != m.size() || env.empty() != m.empty()) c.violation("env-contents", "an environment holds other bindings than it should" + who);
    Variables dom = env.domain();
    std::vector<Variable::Id> a, b; for (const auto& x : dom) a.push_back(x.get_id()); for (auto& q : m) b.push_back(q.first);
    if (a != b) c.violation("env-domain", "the domain is not the set of bound variables" + who);
    std::string txt = env.to_string();
    if ((size_t)std::count(txt.begin(), txt.end(), '\n') != m.size()) c.violation("env-text", "printed with " + std::to_string(std::count(txt.begin(), txt.end(), '\n')) + " lines" + who);
  }
  c.nontrivial("env " + log);
}
}  // namespace

int main(int argc, char** argv) { return run_main(argc, argv, {{"C06", c06}, {"C07", c07}, {"C10", c10}}); }
