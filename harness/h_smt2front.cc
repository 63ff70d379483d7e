// C42: the SMT-LIB front end.
#include "dreal/smt2/driver.h"

#include "front.h"

namespace {
struct Smt2 {
  Ctx& c; Rng& r;
  struct Entry { std::string n; bool isb; RP e; RFP f; };
  struct Fun { std::string n; std::vector<char> params; bool isb; RP e; RFP f; std::vector<int> idx; size_t scope; };
  struct Decl { std::string n; Variable::Type t; int idx; double val; bool bounded; RP lb, ub; size_t scope; };
  std::vector<Entry> env;                       // global names, by scope
  std::vector<size_t> marks;
  std::vector<Fun> funs;
  std::vector<Decl> decls, gone;
  Asg s;                                        // planted values
  int nq = 0, nb = 0, nx = 0;
  std::vector<RFP> ref;                         // what is asserted
  std::vector<std::string> cmds, log;
  std::vector<std::vector<RP>> objectives;
  bool forall_ok = true, part = false;
  Smt2(Ctx& c_, Rng& r_) : c(c_), r(r_) { s.x.resize(600); s.b.resize(600); }

  std::string name(bool fun = false) {
    static const char* v[] = {"x", "y", "z", "w", "x1", "a.b", "k!0", "$p", "~t", "x_y", "@q", "?r", "^u", "&v", "<>", "e1", "E5x", "|a b|", "|(;)|", "x%", "p/q", "Real", "longer-name_42", "-x", "+", "and1", "let_", "a=b"};
    static const char* f[] = {"f", "g", "h", "f.1", "|f g|", "ff!"};
    std::string n;
    do n = fun ? f[r.below(6)] : v[r.below(28)]; while (n == "+");
    return n;
  }
  std::string lst(const std::vector<std::string>& v) {
    std::string t = "(";
    if (r.chance(0.05)) t += SEP;
    for (size_t i = 0; i < v.size(); ++i) { if (i) t += SEP; t += v[i]; }
    if (r.chance(0.05)) t += SEP;
    return t + ")";
  }
  TX number() {
    static const char* t[] = {"0", "1", "2", "3", "7", "-3", "-1", "12", "0.5", "2.0", "1.25", "-0.75", "0.1", "3.3", "1e-3", "2.5E+1", "1e2", "-1.5e0", "+2", "+0.5", ".5", "-.25", "4.", "0x1.8p1", "0x10", "-0x.8p0", "100", "0.30000000000000004", "00.5", "007", "1000000"};
    const std::string n = t[r.below(31)];
    if (n.find('x') != std::string::npos) return {n, rc(strtod(n.c_str(), nullptr))};
    return {n, decimal(n)};
  }
  // the entry a name denotes
  std::vector<const Entry*> visible(const std::vector<Entry>& e, bool isb) {
    std::vector<const Entry*> o;
    std::set<std::string> seen;
    for (size_t i = e.size(); i-- > 0;) if (seen.insert(e[i].n).second && e[i].isb == isb) o.push_back(&e[i]);
    return o;
  }
  std::vector<std::string> let(const std::vector<Entry>& e, int d, std::vector<Entry>* in) {
    *in = e;
    std::vector<std::string> bs;
    std::set<std::string> used;
    for (int i = r.range(1, 3); i > 0; --i) {
      const std::string n = r.chance(0.5) && !e.empty() ? e[r.below((int)e.size())].n : name();
      if (!used.insert(n).second) continue;
      if (r.chance(0.65)) { TX t = gx(e, d - 1); bs.push_back(lst({n, t.first})); in->push_back({n, false, t.second, nullptr}); }
      else { TF t = gf(e, d - 1); bs.push_back(lst({n, t.first})); in->push_back({n, true, nullptr, t.second}); }
    }
    return bs;
  }
  std::vector<const Fun*> callable(bool isb) {
    std::vector<const Fun*> o; std::set<std::string> seen;
    for (size_t i = funs.size(); i-- > 0;) if (seen.insert(funs[i].n).second && funs[i].isb == isb) o.push_back(&funs[i]);
    return o;
  }
  std::string call(const Fun& f, const std::vector<Entry>& e, int d, Sub* sub) {
    std::vector<std::string> t{f.n};
    for (size_t i = 0; i < f.params.size(); ++i) {
      if (f.params[i] == 'B') { TF a; do a = gf(e, d - 1); while (has_forall(a.second)); t.push_back(a.first); sub->b[f.idx[i]] = a.second; }
      else { TX a = gx(e, d - 1); t.push_back(a.first); sub->x[f.idx[i]] = a.second; }
    }
    return lst(t);
  }
  TX gx(const std::vector<Entry>& e, int d) {
    const auto vs = visible(e, false);
    if (d <= 0 || r.chance(0.12)) {
      if (vs.empty() || r.chance(0.3)) return number();
      const Entry* v = vs[r.below((int)vs.size())];
      return {v->n, v->e};
    }
    const double u = r.unit();
    if (u < 0.45) {
      static const char* ops[] = {"+", "-", "*", "/"};
      static const K ks[] = {K::Add, K::Sub, K::Mul, K::Div};
      int o = r.below(4);
      if (o == 3 && r.chance(0.5)) o = r.below(3);
      const int n = r.chance(0.7) ? 2 : r.range(o < 2 ? 1 : 2, 4);
      std::vector<std::string> t{ops[o]};
      RP q;
      for (int i = 0; i < n; ++i) { TX a = gx(e, d - 1); t.push_back(a.first); q = q ? r2(ks[o], q, a.second) : a.second; }
      if (n == 1 && o == 1) q = r1(K::Neg, q);
      return {lst(t), q};
    }
    if (u < 0.62) {
      static const std::pair<const char*, K> fs[] = {{"exp", K::Exp}, {"log", K::Log}, {"abs", K::Abs}, {"sin", K::Sin}, {"cos", K::Cos}, {"tan", K::Tan}, {"asin", K::Asin}, {"arcsin", K::Asin}, {"acos", K::Acos}, {"arccos", K::Acos}, {"atan", K::Atan}, {"arctan", K::Atan}, {"sinh", K::Sinh}, {"cosh", K::Cosh}, {"tanh", K::Tanh}, {"sqrt", K::Sqrt}};
      const auto& f = fs[r.below(16)];
      TX a = gx(e, d - 1);
      return {lst({f.first, a.first}), r1(f.second, a.second)};
    }
    if (u < 0.72) {
      static const std::pair<const char*, K> fs[] = {{"min", K::Min}, {"max", K::Max}, {"atan2", K::Atan2}, {"arctan2", K::Atan2}, {"pow", K::Pow}, {"^", K::Pow}};
      const auto& f = fs[r.below(6)];
      TX a = gx(e, d - 1), b = gx(e, d - 1);
      if (f.second == K::Pow && r.chance(0.7)) { const int k = r.range(0, 4); b = {std::to_string(k), rc(k)}; }
      return {lst({f.first, a.first, b.first}), r2(f.second, a.second, b.second)};
    }
    if (u < 0.8) {
      TF q; do q = gf(e, d - 1); while (has_forall(q.second));
      TX a = gx(e, d - 1), b = gx(e, d - 1);
      return {lst({"ite", q.first, a.first, b.first}), rite(q.second, a.second, b.second)};
    }
    if (u < 0.93) {
      std::vector<Entry> in;
      auto bs = let(e, d, &in);
      TX b = gx(in, d - 1);
      return {lst({"let", lst(bs), b.first}), b.second};
    }
    const auto fs = callable(false);
    if (fs.empty()) return gx(e, d - 1);
    const Fun& f = *fs[r.below((int)fs.size())];
    Sub sub;
    const std::string t = call(f, e, d, &sub);
    return {t, subst(f.e, sub)};
  }
  TF gf(const std::vector<Entry>& e, int d, bool top = false) {
    const auto vs = visible(e, true);
    const double u = r.unit();
    if (d <= 0 || (u < 0.15 && !top)) {
      if (r.chance(0.1)) return r.chance(0.5) ? TF{"true", ft()} : TF{"false", ff()};
      std::vector<const Entry*> ok;
      for (auto* v : vs) ok.push_back(v);
      if (!ok.empty() && r.chance(0.6)) { const Entry* v = ok[r.below((int)ok.size())]; return {v->n, v->f}; }
    }
    if (d <= 0 || u < 0.5) {
      static const std::pair<const char*, FK> fs[] = {{"=", FK::Eq}, {"<", FK::Lt}, {"<=", FK::Leq}, {">", FK::Gt}, {">=", FK::Geq}};
      const auto& f = fs[r.below(5)];
      TX a = gx(e, d - 1), b = gx(e, d - 1);
      return {lst({f.first, a.first, b.first}), frel(f.second, a.second, b.second)};
    }
    if (u < 0.72) {
      static const char* ops[] = {"and", "or", "xor"};
      static const FK ks[] = {FK::And, FK::Or, FK::Xor};
      const int o = r.below(3), n = r.range(1, 4);
      std::vector<std::string> t{ops[o]};
      std::vector<RFP> q;
      for (int i = 0; i < n; ++i) { TF a = gf(e, d - 1); t.push_back(a.first); q.push_back(a.second); }
      RFP f;
      if (o < 2) f = fops(ks[o], q);
      else { f = q[0]; for (int i = 1; i < n; ++i) f = fops(FK::Xor, {f, q[i]}); }
      return {lst(t), f};
    }
    if (u < 0.77) { TF a = gf(e, d - 1); return {lst({"not", a.first}), fnot(a.second)}; }
    if (u < 0.82) { TF a = gf(e, d - 1), b = gf(e, d - 1); return {lst({"=>", a.first, b.first}), fops(FK::Imply, {a.second, b.second})}; }
    if (u < 0.86) { TF a = gf(e, d - 1), b = gf(e, d - 1); return {lst({"=", a.first, b.first}), fops(FK::Iff, {a.second, b.second})}; }
    if (u < 0.89) { TF a = gf(e, d - 1), b = gf(e, d - 1), q = gf(e, d - 1); return {lst({"ite", q.first, a.first, b.first}), fops(FK::And, {fops(FK::Imply, {q.second, a.second}), fops(FK::Or, {q.second, b.second})})}; }
    if (u < 0.94) {
      std::vector<Entry> in;
      auto bs = let(e, d, &in);
      TF b = gf(in, d - 1);
      return {lst({"let", lst(bs), b.first}), b.second};
    }
    if (u < 0.97 && forall_ok) {
      std::vector<Entry> in = e;
      std::vector<std::string> vt;
      std::vector<int> q;
      std::vector<RFP> guard;
      std::set<std::string> used;
      for (int i = r.range(1, 3); i > 0; --i) {
        const std::string n = r.chance(0.5) && !e.empty() ? e[r.below((int)e.size())].n : name();
        if (!used.insert(n).second) continue;
        if (r.chance(0.2)) { const int k = 300 + nq++; vt.push_back(lst({n, "Bool"})); in.push_back({n, true, nullptr, fbv(k)}); q.push_back(-1 - k); continue; }
        const int k = 300 + nq++;
        if (nq > 250) nq = 0;
        const bool isint = r.chance(0.3);
        std::string t = "(" + n + SEP + (isint ? "Int" : "Real");
        if (r.chance(0.6)) {
          const int lo = r.range(-3, 1), hi = r.range(lo, 3);
          t += std::string(r.chance(0.5) ? " " : "") + "[" + std::to_string(lo) + "," + (r.chance(0.3) ? " (+ " + std::to_string(hi - 1) + " 1)" : std::to_string(hi)) + "]";
          guard.push_back(frel(FK::Leq, rc(lo), rv(k))); guard.push_back(frel(FK::Leq, rv(k), rc(hi)));
        }
        vt.push_back(t + ")");
        in.push_back({n, false, rv(k), nullptr});
        q.push_back(k);
      }
      TF b = gf(in, std::min(d - 1, 2));
      return {lst({"forall", lst(vt), b.first}), fforall(q, guard.empty() ? b.second : fops(FK::Imply, {fops(FK::And, guard), b.second}))};
    }
    const auto fs = callable(true);
    if (fs.empty()) return gf(e, d - 1);
    const Fun& f = *fs[r.below((int)fs.size())];
    Sub sub;
    const std::string t = call(f, e, d, &sub);
    return {t, subst(f.f, sub)};
  }
  // ---- commands
  void cmd(const std::string& t) { cmds.push_back(t); }
  void declare() {
    std::string n;
    bool dup;
    int tries = 0;
    do { n = name(); dup = false; for (auto& d : decls) dup = dup || d.n == n; } while (dup && ++tries < 50);
    if (dup) return;
    static const std::pair<const char*, Variable::Type> ts[] = {{"Real", Variable::Type::CONTINUOUS}, {"Real", Variable::Type::CONTINUOUS}, {"Int", Variable::Type::INTEGER}, {"Bool", Variable::Type::BOOLEAN}, {"Binary", Variable::Type::BINARY}};
    const auto& t = ts[r.below(5)];
    Decl d{n, t.second, 0, 0, false, nullptr, nullptr, marks.size()};
    const bool con = r.chance(0.4);
    std::string txt = con ? "(declare-const" + std::string(1, SEP) + n + SEP + t.first : "(declare-fun" + std::string(1, SEP) + n + SEP + "()" + SEP + t.first;
    if (t.second == Variable::Type::BOOLEAN) { d.idx = nb++; d.val = s.b[d.idx] = r.chance(0.5); env.push_back({n, true, nullptr, fbv(d.idx)}); }
    else {
      d.idx = nx++;
      d.val = t.second == Variable::Type::BINARY ? r.below(2) : t.second == Variable::Type::INTEGER ? r.range(-4, 4) : r.range(-32, 32) / 8.0;
      s.x[d.idx] = d.val;
      env.push_back({n, false, rv(d.idx), nullptr});
      if (t.second != Variable::Type::BINARY && r.chance(0.5)) {
        auto bnd = [&](double v) -> TX {
          const int i = (int)std::floor(v);
          switch (r.below(4)) {
            case 0: if (i < 0) return {"(- " + std::to_string(-i) + ")", rc(i)}; return {std::to_string(i), rc(i)};
            case 1: return {std::to_string(i) + ".0", rc(i)};
            case 2: if (t.second == Variable::Type::INTEGER) return {std::to_string(i), rc(i)}; return {std::to_string(i) + ".3", decimal(std::to_string(i) + ".3")};
            default: return {"(+ " + std::to_string(i - 1) + " 1)", rc(i)};
          }
        };
        const TX lo = bnd(d.val - 1 - r.below(4)), hi = bnd(d.val + 2 + r.below(4));
        d.bounded = true; d.lb = lo.second; d.ub = hi.second;
        txt += std::string(1, SEP) + "[" + lo.first + (r.chance(0.5) ? " ," : ",") + SEP + hi.first + "]";
      }
    }
    cmd(txt + ")");
    decls.push_back(d);
    log.push_back("declare " + n);
  }
  void add(const RFP& f) { ref.push_back(f); log.push_back("assert"); }
  void assertion() {
    TF f;
    f = gf(env, r.range(1, 4), true);
    if (truth(f.second, s) == T3::F && r.chance(0.85)) f = {lst({"not", f.first}), fnot(f.second)};
    cmd(lst({"assert", f.first}));
    add(f.second);
  }
  void define() {
    if (r.chance(0.35)) {   // no parameters: a variable with a definition
      std::string n; bool dup; int tries = 0;
      do { n = name(); dup = false; for (auto& d : decls) dup = dup || d.n == n; } while (dup && ++tries < 50);
      if (dup) return;
      Decl d{n, Variable::Type::CONTINUOUS, 0, 0, false, nullptr, nullptr, marks.size()};
      if (r.chance(0.6)) {
        TX b = gx(env, 2);
        cmd(lst({"define-fun", n, "()", "Real", b.first}));
        d.idx = nx++;
        Evaluator q(s); q.grid = &kGrid;
        const V v = q.ev(b.second);
        d.val = s.x[d.idx] = v.ok ? (double)v.v : 0;
        env.push_back({n, false, rv(d.idx), nullptr});
        decls.push_back(d); log.push_back("declare " + n);
        add(frel(FK::Eq, rv(d.idx), b.second));
      } else {
        TF b = gf(env, 2);
        cmd(lst({"define-fun", n, "()", "Bool", b.first}));
        d.t = Variable::Type::BOOLEAN; d.idx = nb++;
        d.val = s.b[d.idx] = truth(b.second, s) == T3::T;
        env.push_back({n, true, nullptr, fbv(d.idx)});
        decls.push_back(d); log.push_back("declare " + n);
        add(fops(FK::Iff, {fbv(d.idx), b.second}));
      }
      return;
    }
    Fun f;
    f.n = name(true);
    f.scope = marks.size();
    std::vector<Entry> in = env;
    std::vector<std::string> ps;
    std::set<std::string> used;
    for (int i = r.range(1, 3); i > 0; --i) {
      const std::string n = name();
      if (!used.insert(n).second) continue;
      const int k = 560 + (int)f.params.size();
      if (r.chance(0.25)) { f.params.push_back('B'); in.push_back({n, true, nullptr, fbv(k)}); ps.push_back(lst({n, "Bool"})); }
      else { f.params.push_back('R'); in.push_back({n, false, rv(k), nullptr}); ps.push_back(lst({n, r.chance(0.8) ? "Real" : "Int"})); }
      f.idx.push_back(k);
    }
    f.isb = r.chance(0.4);
    const bool fo = forall_ok;
    forall_ok = fo && r.chance(0.3);
    if (f.isb) { TF b = gf(in, 2); f.f = b.second; cmd(lst({"define-fun", f.n, lst(ps), "Bool", b.first})); }
    else { TX b = gx(in, 3); f.e = b.second; cmd(lst({"define-fun", f.n, lst(ps), "Real", b.first})); }
    forall_ok = fo;
    part = part || partial(f.f) || partial(f.e);
    funs.push_back(f);
  }
  void push() {
    const int n = r.chance(0.8) ? 1 : 2;
    for (int i = 0; i < n; ++i) marks.push_back(env.size());
    cmd(lst({"push", std::to_string(n)}));
    log.push_back("push" + std::to_string(n));
  }
  void pop() {
    if (marks.empty()) return;
    const int n = r.range(1, (int)marks.size());
    size_t m = 0;
    for (int i = 0; i < n; ++i) { m = marks.back(); marks.pop_back(); }
    env.resize(m);
    for (size_t i = decls.size(); i-- > 0;) if (decls[i].scope > marks.size()) { gone.push_back(decls[i]); decls.erase(decls.begin() + i); }
    for (size_t i = funs.size(); i-- > 0;) if (funs[i].scope > marks.size()) funs.erase(funs.begin() + i);
    cmd(lst({"pop", std::to_string(n)}));
    log.push_back("pop" + std::to_string(n));
  }
};

// "n", "(- n)", "(/ n d)" with integers n and d
bool rational(const std::string& t, f128* v) {
  std::string s;
  for (char ch : t) s += ch == '(' || ch == ')' ? ' ' : ch;
  std::istringstream is(s);
  std::vector<std::string> w; std::string x;
  while (is >> x) w.push_back(x);
  size_t i = 0;
  std::function<bool(f128*)> rd = [&](f128* o) -> bool {
    if (i >= w.size()) return false;
    const std::string y = w[i++];
    if (y == "-") { if (!rd(o)) return false; *o = -*o; return true; }
    if (y == "/") { f128 a, b; if (!rd(&a) || !rd(&b) || b == 0) return false; *o = a / b; return true; }
    if (y.find_first_not_of("0123456789") != std::string::npos) return false;
    *o = strtoflt128(y.c_str(), nullptr);
    return true;
  };
  return rd(v) && i == w.size();
}
}  // namespace

static void c42_script(Ctx& c, Rng& r, bool live) {
  Smt2 g(c, r);
  front::Rec R;
  rec = &R;
  struct Reset { ~Reset() { rec = nullptr; } } reset;
  R.live = live;
  g.forall_ok = !live && r.chance(0.6);
  Config config;
  config.mutable_random_seed() = 7;
  Smt2Driver drv{Context{config}};
  // expected output, by command that prints
  struct Expect { int kind; std::string text; RP term; std::string var; Box model; bool compliant, models; double prec; size_t answer; };
  std::vector<Expect> ex;
  std::vector<std::pair<std::string, std::string>> opts;
  bool compliant = false, models = false;
  double prec = 0.001;
  R.model_of = [&](const Box&) {
    Box b;
    size_t k = 0;
    for (auto& sc : R.scopes) for (auto& d : sc) if (d.model) {
      b.Add(d.v);
      double v = 0;
      for (auto& q : g.decls) if (q.n == d.v.get_name()) v = q.val;
      for (auto& q : g.gone) if (q.n == d.v.get_name() && !g.decls.size()) v = q.val;
      b[d.v] = ibex::Interval(v, d.v.get_type() == Variable::Type::CONTINUOUS && k++ % 2 ? v + 1.0 / 1024 : v);
    }
    return b;
  };
  size_t checks = 0;
  int last = -1;                       // index of the last check since which nothing was asserted or declared
  std::vector<size_t> at;              // number of declarations at each command of the text
  const int n = r.range(2, 12);
  std::vector<std::vector<std::pair<std::string, double>>> values;   // planted values at each check
  if (r.chance(0.3)) { g.cmd(g.lst({"set-logic", r.chance(0.5) ? "QF_NRA" : "ALL"})); g.log.push_back("logic"); }
  if (r.chance(0.2)) { g.cmd(g.lst({"set-info", ":status", r.chance(0.5) ? "sat" : "\"quoted (text) ; here\""})); g.log.push_back("info"); }
  if (r.chance(0.1)) { g.cmd(g.lst({"set-info", ":smt-lib-version", "2.0"})); g.log.push_back("info"); }
  for (int i = r.range(0, 4); i > 0; --i) g.declare();
  for (int i = 0; i < n; ++i) {
    const double u = r.unit();
    if (u < 0.15) { g.declare(); last = -1; }
    else if (u < 0.45) { g.assertion(); last = -1; }
    else if (u < 0.57) { g.define(); last = -1; }
    else if (u < 0.65) { g.push(); }
    else if (u < 0.72) { g.pop(); last = -1; }
    else if (u < 0.76) {
      static const char* os[] = {":smtlib2-compliant", ":produce-models", ":precision", ":polytope", ":worklist-fixpoint", ":my-option"};
      const std::string o = os[r.below(6)];
      std::string v;
      if (o == ":precision") { static const char* ps[] = {"0.001", "0.5", "0.125", "1e-4"}; v = ps[r.below(4)]; prec = strtod(v.c_str(), nullptr); }
      else { v = r.chance(0.5) ? "true" : "false"; if (o == ":smtlib2-compliant") compliant = v == "true"; if (o == ":produce-models") models = v == "true"; }
      g.cmd(g.lst({"set-option", o, v})); g.log.push_back("option " + o);
      opts.emplace_back(o, v);
    } else if (u < 0.79) {
      static const char* os[] = {":smtlib2-compliant", ":precision", ":my-option", ":other"};
      const std::string o = os[r.below(4)];
      g.cmd(g.lst({"get-option", o}));
      Expect e{}; e.kind = 4; e.text = "unsupported"; if (o == ":precision") e.text = "0.001";
      for (auto& q : opts) if (q.first == o) e.text = q.second;
      ex.push_back(e);
    } else if (u < 0.82 && !live && !g.env.empty()) {
      TX t = g.gx(g.env, 2);
      const bool mx = r.chance(0.5);
      g.cmd(g.lst({mx ? "maximize" : "minimize", t.first}));
      if (mx) g.log.push_back("maximize");
      g.log.push_back("minimize");
      g.objectives.push_back({mx ? r1(K::Neg, t.second) : t.second});
      last = -1;
    } else if (u < 0.93) {
      g.cmd(g.lst({"check-sat"})); g.log.push_back("check");
      const bool sat = r.chance(0.75);
      R.plan.push_back(sat);
      Expect e{}; e.kind = 0; e.compliant = compliant; e.models = models; e.prec = prec; e.answer = checks;
      ex.push_back(e);
      last = sat ? (int)checks : -2;
      ++checks;
      std::vector<std::pair<std::string, double>> vals;
      values.push_back(vals);
    } else if (u < 0.965) {
      if (last == -1 && !R.plan.empty()) continue;
      g.cmd(g.lst({"get-model"}));
      Expect e{}; e.kind = 1; e.answer = checks - 1;
      if (R.plan.empty()) { g.cmds.pop_back(); continue; }
      ex.push_back(e);
    } else {
      if (last < 0 || g.env.empty()) continue;
      std::vector<std::string> ts;
      std::vector<Expect> es;
      for (int k = r.range(1, 3); k > 0; --k) {
        Expect e{};
        const auto vb = g.visible(g.env, true);
        if (!vb.empty() && r.chance(0.3)) { const auto* v = vb[r.below((int)vb.size())]; ts.push_back(v->n); e.kind = 3; e.var = v->n; }
        else {
          static const char* ops[] = {"+", "-", "*"}; static const K ks[] = {K::Add, K::Sub, K::Mul};
          const int o = r.below(3);
          TX a = g.gx(g.env, 0), b = g.gx(g.env, 0);
          if (r.chance(0.4)) { ts.push_back(a.first); e.term = a.second; }
          else if (r.chance(0.15)) { ts.push_back(g.lst({"/", a.first, b.first})); e.term = r2(K::Div, a.second, b.second); }
          else if (r.chance(0.15)) { ts.push_back(g.lst({"log", a.first})); e.term = r1(K::Log, a.second); }
          else { ts.push_back(g.lst({ops[o], a.first, b.first})); e.term = r2(ks[o], a.second, b.second); }
          if (r.chance(0.2)) { const std::string n = g.name(); TX q = g.gx(g.env, 0); ts.back() = "(let ((" + n + " " + q.first + ")) (- (+ " + n + " 1) " + n + "))"; e.term = r2(K::Sub, r2(K::Add, q.second, rc(1)), q.second); }
          e.kind = 2;
        }
        e.answer = checks - 1;
        es.push_back(e);
      }
      g.cmd(g.lst({"get-value", g.lst(ts)}));
      Expect e{}; e.kind = 6; e.answer = checks - 1; ex.push_back(e);
      ex.insert(ex.end(), es.begin(), es.end());
      e.kind = 5; e.text = ")"; ex.push_back(e);
    }
  }
  if (r.chance(0.1)) { g.cmd("(exit)"); g.log.push_back("exit"); if (r.chance(0.3)) g.cmds.back() += " (after exit"; }
  const bool exited = !g.log.empty() && g.log.back() == "exit";
  if (g.cmds.empty()) return;
  // texts given to the driver
  std::vector<std::string> texts;
  const bool one = r.chance(0.6);
  std::string shown;
  for (auto& t : g.cmds) {
    const std::string x = spaces(r, std::string(r.chance(0.2) ? 1 : 0, SEP) + t, true);
    if (one && !texts.empty()) texts.back() += (r.chance(0.5) ? "\n" : "") + x; else texts.push_back(x);
    shown += x + "\n";
  }
  if (one && !exited && r.chance(0.3)) texts.back() += r.chance(0.5) ? "\n" : r.chance(0.5) ? " ; the end" : " ; the end\n";
  if (live) shown = "live: " + shown;
  c.note(shown);
  c.eval();
  std::string out, why;
  bool refused = false;
  ibex::budget = 8000;
  for (auto& t : texts) {
    const Parsed p = parse(drv, t);
    out += p.out;
    if (p.threw || !p.ok) { refused = true; why = p.what + p.err; break; }
  }
  const bool spent = ibex::budget <= 0;
  ibex::budget = std::numeric_limits<long>::max();
  if (!R.bad.empty()) { c.violation("smt2:undeclared", shown + R.bad); return; }
  if (refused) {
    c.count("refused");
    if (why.empty()) { c.violation("smt2:silent", shown + "refused without a diagnostic"); return; }
    bool part = g.part;
    for (auto& f : g.ref) part = part || partial(f);
    if (live) { c.count("refused live"); return; }
    if (why.find("not a valid") != std::string::npos) part = true;
    if (!part && g.objectives.empty() && ex.empty()) c.violation("smt2:refused", shown + "refused: " + why);
    return;
  }
  c.nontrivial(shown);
  c.count("scripts accepted");
  // what was called
  if (g.log != R.log) {
    std::string a, b;
    for (auto& x : g.log) a += x + " ";
    for (auto& x : R.log) b += x + " ";
    c.violation("smt2:commands", shown + "commands carried out: " + b + "instead of: " + a);
    return;
  }
  // variables
  Pool pool(0, 0);
  std::vector<Smt2::Decl> ds = g.decls;
  ds.insert(ds.end(), g.gone.begin(), g.gone.end());
  // indices of the reference follow the order of declaration, as do those of the pool
  for (auto& d : R.all) if (d.v.get_type() == Variable::Type::BOOLEAN) pool.add_b(d.v); else pool.add_x(d.v);
  if ((int)pool.x.size() != g.nx || (int)pool.b.size() != g.nb) { c.violation("smt2:sorts", shown + "the variables have other sorts"); return; }
  for (auto& d : ds) {
    const Variable& v = d.t == Variable::Type::BOOLEAN ? pool.b[d.idx] : pool.x[d.idx];
    if (v.get_type() != d.t || v.get_name() != d.n) { c.violation("smt2:sorts", shown + "variable " + d.n + " is declared as " + v.get_name() + " with another sort or name"); return; }
  }
  for (auto& sc : R.scopes) for (auto& d : sc) if (d.model && d.v.get_type() != Variable::Type::BOOLEAN && !live) {
    for (auto& q : g.decls) if (q.t != Variable::Type::BOOLEAN && pool.x[q.idx].equal_to(d.v)) {
      const auto& iv = R.box()[d.v];
      if (!q.bounded) { if (iv.lb() > -1e9 && d.v.get_type() != Variable::Type::BINARY) c.violation("smt2:bounds", shown + d.v.get_name() + " has the bounds " + span(iv)); continue; }
      auto lo = [](const RP& e) { return e->c; };
      auto hi = [](const RP& e) { return e->k == K::Interval ? e->c2 : e->c; };
      c.count("declared bounds");
      if (!(iv.lb() <= hi(q.lb) && iv.lb() >= lo(q.lb) && iv.ub() >= lo(q.ub) && iv.ub() <= hi(q.ub))) c.violation("smt2:bounds", shown + d.v.get_name() + " has the bounds " + span(iv));
      if (iv.lb() > lo(q.lb) || iv.ub() < hi(q.ub)) c.violation("smt2:bounds:narrow", shown + d.v.get_name() + " has the bounds " + span(iv));
    }
  }
  // assertions
  if (R.asserts.size() != g.ref.size()) { c.violation("smt2:commands", shown + "a different number of assertions"); return; }
  if (R.minimize.size() != g.objectives.size()) { c.violation("smt2:commands", shown + "a different number of objectives"); return; }
  Sub aux;
  std::vector<std::pair<int, RFP>> bools;
  for (auto& d : R.defs) {
    try {
      std::vector<Variable> bv; bound(d.second, &bv);
      for (auto& v : bv) if (v.get_type() == Variable::Type::BOOLEAN) pool.add_b(v); else pool.add_x(v);
      if (d.first.get_type() == Variable::Type::BOOLEAN) { const int k = pool.add_b(d.first); bools.emplace_back(k, subst(to_ref(d.second, pool), aux)); continue; }
      const int k = pool.add_x(d.first);
      const Expression &l = get_lhs_expression(d.second), &rr = get_rhs_expression(d.second);
      aux.x[k] = subst(to_ref(is_variable(l) && get_variable(l).equal_to(d.first) ? rr : l, pool), aux);
    } catch (const std::out_of_range&) { c.violation("smt2:undeclared", shown + d.second.to_string() + " has an unknown variable"); return; }
  }
  std::vector<RFP> got;
  std::vector<RP> goal;
  try {
    for (auto& f : R.asserts) {
      std::vector<Variable> bv; bound(f, &bv);
      for (auto& v : bv) if (v.get_type() == Variable::Type::BOOLEAN) pool.add_b(v); else pool.add_x(v);
      got.push_back(subst(to_ref(f, pool), aux));
    }
    for (auto& m : R.minimize) { if (m.size() != 1) { c.violation("smt2:objective", shown); return; } goal.push_back(subst(to_ref(m[0], pool), aux)); }
  } catch (const std::out_of_range&) { c.violation("smt2:undeclared", shown + "an assertion has an unknown variable"); return; }
  bool defined = true;                 // all bindings have a value at the planted point
  for (int t = 0; t < 8; ++t) {
    Asg a = g.s;
    if (t) {
      for (int i = 0; i < g.nx; ++i) if (r.chance(0.5)) a.x[i] = pool.x[i].get_type() == Variable::Type::BINARY ? r.below(2) : pool.x[i].get_type() == Variable::Type::INTEGER ? r.range(-4, 4) : r.range(-32, 32) / 8.0;
      for (int i = 0; i < g.nb; ++i) if (r.chance(0.5)) a.b[i] = r.chance(0.5);
    }
    Asg b = a;
    b.x.resize(pool.x.size() + 1); b.b.resize(pool.b.size() + 1);
    bool ok = true;
    for (auto& q : bools) {
      b.b[q.first] = 1; const T3 x = truth(q.second, b);
      b.b[q.first] = 0; const T3 y = truth(q.second, b);
      if (x == T3::I || y == T3::I) { ok = false; break; }
      if (x == y) { c.violation("smt2:let", shown + "a binding does not define its variable"); return; }
      b.b[q.first] = x == T3::T;
    }
    if (!t) { defined = ok; for (auto& q : aux.x) { Evaluator e(b); e.grid = &kGrid; defined = defined && e.ev(q.second).ok; } }
    if (!ok) { c.count("undefined bindings"); continue; }
    for (size_t i = 0; i < got.size(); ++i) {
      const T3 w = truth(g.ref[i], a), h = truth(got[i], b);
      if (w == T3::I || h == T3::I) { c.count("inconclusive values"); continue; }
      c.count(w == T3::T ? "true assertions" : "false assertions");
      if (w != h) { c.violation("smt2:value:" + std::string(fkname(g.ref[i]->k)), shown + "assertion " + std::to_string(i + 1) + " is read as " + R.asserts[i].to_string() + ", which is " + (h == T3::T ? "true" : "false") + " at " + astr(a)); return; }
    }
    for (size_t i = 0; i < goal.size(); ++i) {
      const T3 h = truth(frel(FK::Eq, goal[i], g.objectives[i][0]), [&] { Asg q = a; return q; }());
      (void)h;
      const V v = Evaluator(a).ev(g.objectives[i][0]), w = Evaluator(b).ev(goal[i]);
      if (!v.ok || !w.ok) continue;
      c.count("objectives compared");
      if (fabsq(v.v - w.v) > SAFETY * (v.e + w.e + EPS * (v.M + w.M))) { c.violation("smt2:objective", shown + "the objective is read as " + R.minimize[i][0].to_string()); return; }
    }
  }
  // output
  const auto L = lines_of(out);
  size_t k = 0;
  auto miss = [&](const std::string& w) { c.violation("smt2:output", shown + "output: " + out + "expected " + w); };
  if (live) {
    if (spent) { c.count("gave up"); return; }
    bool planted = defined;
    // the planted point satisfies all assertions ever made: every scope is satisfiable
    for (auto& f : g.ref) planted = planted && truth(f, g.s) == T3::T;
    for (size_t i = 0; i < R.answers.size(); ++i) { c.count(R.answers[i] ? "live delta-sat" : "live unsat"); if (planted && !R.answers[i]) { c.violation("smt2:unsat", shown + "check " + std::to_string(i + 1) + " is unsat, but " + astr(g.s) + " satisfies everything"); return; } }
  }
  bool without = false;                // values are asked for but there is no model
  for (auto& e : ex) {
    if (without) { without = e.kind != 5; continue; }
    if (k >= L.size() && e.kind != 3) { miss("more"); return; }
    if (e.kind == 6) {
      without = !R.answers.at(e.answer);
      const std::string w = without ? "(error \"model is not available\")" : "(";
      if (L[k++] != w) { miss(w); return; }
      continue;
    }
    const optional<Box>* ans = e.kind <= 3 ? &R.answers.at(e.answer) : nullptr;
    switch (e.kind) {
      case 0: {
        if (!*ans) { if (L[k++] != "unsat") { miss("unsat"); return; } break; }
        if (e.compliant) { if (L[k++] != "delta-sat") { miss("delta-sat"); return; } break; }
        const std::string pre = "delta-sat with delta = ";
        if (L[k].compare(0, pre.size(), pre) || std::fabs(strtod(L[k].c_str() + pre.size(), nullptr) - e.prec) > 1e-5 * e.prec) { miss("delta-sat with delta = " + dstr(e.prec)); return; }
        ++k;
        if (e.models) for (int i = 0; i < (*ans)->size(); ++i) { const std::string w = (*ans)->variable(i).get_name() + " : "; if (k >= L.size() || L[k].compare(0, w.size(), w)) { miss("a line for " + w); return; } ++k; }
        if (e.models && !(*ans)->size()) ++k;
        break;
      }
      case 1: {
        if (!*ans) { if (L[k++].compare(0, 6, "(error")) { miss("an error"); return; } break; }
        const Box& m = **ans;
        if (L[k++] != "(model") { miss("(model"); return; }
        for (int i = 0; i < m.size(); ++i) {
          const Variable& v = m.variable(i);
          static const std::map<Variable::Type, std::string> sn{{Variable::Type::CONTINUOUS, "Real"}, {Variable::Type::INTEGER, "Int"}, {Variable::Type::BINARY, "Binary"}, {Variable::Type::BOOLEAN, "Bool"}};
          const std::string w = "  (define-fun " + v.get_name() + " () " + sn.at(v.get_type()) + " ";
          if (k >= L.size() || L[k].compare(0, w.size(), w) || L[k].back() != ')') { miss(w); return; }
          const std::string val = L[k].substr(w.size(), L[k].size() - w.size() - 1);
          ++k;
          c.count("values in printed models");
          if (v.get_type() == Variable::Type::BOOLEAN) { if (val != (m[v].lb() == 1 ? "true" : "false")) { miss(w + "the other value"); return; } continue; }
          double lo, hi;
          if (val[0] == '[') { if (sscanf(val.c_str(), "[%lf, %lf]", &lo, &hi) != 2 && sscanf(val.c_str(), "[%lf,%lf]", &lo, &hi) != 2) { miss(w + "an interval"); return; } }
          else { char* end; lo = hi = strtod(val.c_str(), &end); if (*end || val.empty()) { miss(w + "a number"); return; } }
          if (lo != m[v].lb() || hi != m[v].ub()) { miss(w + span(m[v])); return; }
        }
        if (k >= L.size() || L[k++] != ")") { miss(")"); return; }
        break;
      }
      case 2: case 3: {
        if (k >= L.size() || L[k].compare(0, 2, "\t(") || L[k].back() != ')') { miss("a value"); return; }
        const std::string& l = L[k++];
        if (!*ans) break;
        c.count("values printed");
        if (e.kind == 3) {
          const Box& m = **ans;
          for (int i = m.size(); i-- > 0;) if (m.variable(i).get_name() == e.var) {
            const std::string w = "\t(" + e.var + (m[i].lb() == 1 ? " true)" : " false)");
            if (l != w) { miss(w); return; }
            break;
          }
          break;
        }
        Asg a = g.s;
        bool have = true;
        const Box& m = **ans;
        for (int i = 0; i < g.nx; ++i) if (m.has_variable(pool.x[i])) { a.x[i] = m[pool.x[i]].lb(); if (!std::isfinite(a.x[i])) have = false; }
        const V v = Evaluator(a).ev(e.term);
        if (!v.ok || !have) break;
        // the value is what follows the term
        const size_t iv = l.rfind("(interval ");
        const f128 tol = SAFETY * (v.e + EPS * v.M);
        f128 lo, hi;
        if (iv != std::string::npos) {
          const std::string t = l.substr(iv);
          const size_t p1 = t.find("(closed "), p2 = t.find("(closed ", p1 + 1);
          if (p1 == std::string::npos || p2 == std::string::npos) { c.count("values printed otherwise"); break; }
          if (!rational(t.substr(p1 + 8, p2 - p1 - 8), &lo) || !rational(t.substr(p2 + 8), &hi)) { miss("an interval"); return; }
        } else {
          // the last balanced item
          size_t end = l.size() - 1, b = end;
          if (l[end - 1] == ')') { int dp = 0; do { --b; if (l[b] == ')') ++dp; if (l[b] == '(') --dp; } while (dp && b > 0); } else while (l[b - 1] != ' ') --b;
          if (!rational(l.substr(b, end - b), &lo)) { miss("a number"); return; }
          hi = lo;
        }
        c.count("values compared");
        if (v.v < lo - tol || v.v > hi + tol) { miss("a value that contains " + dstr((double)v.v)); return; }
        break;
      }
      case 4:
        if (L[k] != e.text) {
          char *e1, *e2;
          const double x = strtod(L[k].c_str(), &e1), y = strtod(e.text.c_str(), &e2);
          if (*e1 || *e2 || L[k].empty() || x != y) { miss(e.text); return; }
        }
        ++k;
        break;
      default:
        if (L[k++] != e.text) { miss(e.text); return; }
    }
  }
  if (k != L.size()) miss("nothing more after line " + std::to_string(k));
}

// texts that are not scripts
static void c42_bad(Ctx& c, Rng& r) {
  Smt2 g(c, r);
  front::Rec R;
  rec = &R;
  struct Reset { ~Reset() { rec = nullptr; } } reset;
  R.model_of = [](const Box& b) { return b; };
  R.plan.assign(8, 1);
  Config config;
  Smt2Driver drv{Context{config}};
  for (int i = r.range(1, 3); i > 0; --i) g.declare();
  g.forall_ok = r.chance(0.3);
  for (int i = r.range(0, 3); i > 0; --i) { if (r.chance(0.6)) g.assertion(); else if (r.chance(0.5)) g.define(); else g.cmd("(check-sat)"); }
  std::string text;
  std::vector<size_t> ends;
  for (auto& t : g.cmds) { text += spaces(r, t, false).substr(0); ends.push_back(text.size()); text += "\n"; }
  // comments would hide what is inserted
  std::string clean;
  for (size_t i = 0; i < text.size(); ++i) { if (text[i] == '#') { while (i < text.size() && text[i] != '\n') ++i; } clean += i < text.size() ? text[i] : '\n'; }
  text = clean;
  bool must = true;
  std::string kind;
  switch (r.below(7)) {
    case 0: {   // cut inside a command
      std::vector<size_t> can; int dp = 0; bool q = false;
      for (size_t i = 0; i < text.size(); ++i) { if (text[i] == '|') q = !q; if (q) continue; if (text[i] == '(') ++dp; if (text[i] == ')') --dp; if (dp > 0) can.push_back(i + 1); }
      text = text.substr(0, can[r.below((int)can.size())]); kind = "cut"; break;
    }
    case 1: {   // a byte that is no part of the language, between commands
      static const unsigned char bs[] = {0x80, 0xff, 0xc3, 0xe2, 0xa0, '{', '}', '\\', '\'', ',', '`', '#', 0x01, 0x0c, 0x7f, ']', '['};
      const char ch = (char)bs[r.below(17)];
      std::string t; for (size_t i = 0; i < g.cmds.size(); ++i) { t += spaces(r, g.cmds[i], true) + "\n"; if (i == g.cmds.size() / 2) t += std::string(1, ch) + "\n"; }
      text = t; kind = "byte"; break;
    }
    case 2: text += ")"; kind = "paren"; break;
    case 3: {   // a name that is no longer, or was never, declared
      if (r.chance(0.5)) text += "(push 1)(declare-fun local_v () Real)(define-fun local_f ((q Real)) Real (+ q 1))(pop 1)(assert " + std::string(r.chance(0.5) ? "(= local_v 1)" : "(= (local_f 1) 1)") + ")";
      else text += r.chance(0.5) ? "(assert (< undeclared_v 1))" : r.chance(0.5) ? "(assert (let ((q 1)) (< q 2)))(assert (> q 0))" : "(assert (forall ((q Real)) (< q 2)))(assert (> q 0))";
      kind = "scope"; break;
    }
    case 4: {   // sorts
      static const char* bad[] = {"(assert 1)", "(assert (+ true 1))", "(assert (and 1 2))", "(assert (= true 1))", "(assert (not 3))", "(assert (< true false))", "(assert (ite 1 true false))", "(assert (ite true 1 false))", "(declare-fun q () Set)", "(define-fun f1 ((q Real)) Bool (+ q 1))(assert (f1 2))", "(define-fun f1 ((q Bool)) Bool (not q))(assert (f1 2))", "(define-fun f1 ((q Real)) Bool (> q 1))(assert (f1 2 3))", "(define-fun f1 ((q Real)) Bool (> q 1))(assert (f1 true))", "(minimize true)", "(pop 1)", "(push 0)", "(push -1)", "(push 99999999999)", "(assert (> 99999999999999999999 0))", "(assert ())", "(assert (+))", "(assert (let () ))", "(assert (and))", "(check-sat", "check-sat", "(unknown)", "(assert true true)", "(assert (exists ((q Real)) true))", "(set-logic NONE)", "(declare-fun q (Real) Real)", "(set-option :precision -0.5)", "(assert (sin 1 2))", "(assert (< 1 2 3))", "(declare-fun q () Real [1, 2)", "\"text\"", "(set-info :a \"unfinished)", "(assert |unfinished)", "|unfinished", "\"unfinished", "(declare-fun |a\\b| () Real)", "(declare-fun |a\\b| () Real)(assert (= |b| 1))", "(define-fun q1 () Real true)", "(define-fun q1 () Bool 1)", "(assert (forall ((q Real)) q))", "(assert (let ((q 1)) q))", "(assert (let ((q true)) (< q 1)))", "(assert (forall ((q Real [1 2])) true))", "(define-fun f1 ((q Real)) Real q)(assert (< (f1) 1))", "(assert (= (- 1) true))", "(maximize (> 1 2))", "(assert (xor 1 2))", "(assert (=> 1 true))", "(get-option precision)", "(declare-fun q1 () Real [true, 3])", "(assert (forall ((q Real)) (let ((p1 (+ q 1))) p1)))", "(assert (forall ((q Real)) (< q undeclared_w)))", "(get-value (undeclared_w))", "(get-value ())", "(check-sat)(declare-fun q1 () Real)(get-value (q1))", "(check-sat)(declare-fun q1 () Bool)(get-value (q1))", "(set-option :polytope 3.0)(set-option :polytope maybe)"};
      text += bad[r.below((int)(sizeof bad / sizeof *bad))]; kind = "sorts"; break;
    }
    default: {
      must = false; kind = "mutated";
      static const std::string al = "()[]|;\"\\#:.,-+=<>* \n\t\r0123456789eExXaAbzZ!_";
      for (int i = r.range(1, 8); i > 0 && !text.empty(); --i) {
        const size_t at = r.below((int)text.size());
        switch (r.below(5)) {
          case 0: text.erase(at, r.range(1, 5)); break;
          case 1: text.insert(at, std::string(1, al[r.below((int)al.size())])); break;
          case 2: text[at] = (char)r.below(256); break;
          case 3: { const size_t b = r.below((int)text.size()); text.insert(at, text.substr(b, r.range(1, 30))); break; }
          default: text.insert(at, r.chance(0.5) ? std::string(r.range(1, 300), "(1|\"-"[r.below(5)]) : "(let ((" + std::string(r.range(1, 20), 'v') + " "); break;
        }
      }
    }
  }
  c.note(kind + ": " + text);
  c.eval();
  c.nontrivial(kind + text);
  const Parsed p = parse(drv, text);
  c.count((p.threw ? "refused by exception: " : p.ok ? "accepted: " : "refused: ") + kind);
  if (!R.bad.empty()) { c.violation("smt2:bad:undeclared:" + kind, text + "\n" + R.bad); return; }
  if (p.threw ? p.what.empty() : !p.ok && p.err.empty()) c.violation("smt2:bad:silent:" + kind, text + "\nrefused without a diagnostic");
  if (must && p.ok) c.violation("smt2:bad:accepted:" + kind, text + "\naccepted");
}

static void c42(Ctx& c) {
  Rng r = c.rng();
  if (r.chance(0.3)) c42_bad(c, r); else c42_script(c, r, r.chance(0.15));
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C42", c42}}); }
