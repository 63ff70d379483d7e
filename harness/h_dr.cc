// C43: the DR front end.
#include "dreal/dr/driver.h"

#include "front.h"

namespace {
struct Dr {
  Rng& r;
  std::vector<std::pair<std::string, int>> vars;
  int extra = 0;
  explicit Dr(Rng& r_) : r(r_) {}
  RP gx(int d) {
    if (d <= 0 || r.chance(0.15)) {
      if (!vars.empty() && r.chance(0.6)) return rv(r.below((int)vars.size()));
      static const double k[] = {0, 1, 2, 3, 0.5, 0.25, 10, 1.5, 7, 100};
      return rc(k[r.below(10)]);
    }
    const double u = r.unit();
    if (u < 0.55) { static const K ks[] = {K::Add, K::Sub, K::Mul, K::Div, K::Sub}; return r2(ks[r.below(5)], gx(d - 1), gx(d - 1)); }
    if (u < 0.65) return r1(K::Neg, gx(d - 1));
    if (u < 0.77) { RP a = gx(d - 1); return r2(K::Pow, a, r.chance(0.6) ? rc(r.range(0, 4)) : r.chance(0.4) ? r1(K::Neg, rc(r.range(1, 3))) : gx(d - 1)); }
    if (u < 0.9) { static const K ks[] = {K::Exp, K::Log, K::Abs, K::Sin, K::Cos, K::Tan, K::Asin, K::Acos, K::Atan, K::Sinh, K::Cosh, K::Tanh, K::Sqrt}; return r1(ks[r.below(13)], gx(d - 1)); }
    static const K ks[] = {K::Min, K::Max, K::Atan2};
    return r2(ks[r.below(3)], gx(d - 1), gx(d - 1));
  }
  RFP gf(int d) {
    if (d <= 0 || r.chance(0.3)) { static const FK ks[] = {FK::Eq, FK::Lt, FK::Leq, FK::Gt, FK::Geq}; return frel(ks[r.below(5)], gx(r.range(0, 3)), gx(r.range(0, 3))); }
    switch (r.below(4)) {
      case 0: return fops(FK::And, {gf(d - 1), gf(d - 1)});
      case 1: return fops(FK::Or, {gf(d - 1), gf(d - 1)});
      case 2: return fops(FK::Imply, {gf(d - 1), gf(d - 1)});
      default: return fnot(gf(d - 1));
    }
  }
  std::string sp() { return r.chance(0.3) ? "" : std::string(1, SEP); }
  std::string par(const std::string& t) { return "(" + sp() + t + sp() + ")"; }
  static int prec(const RP& e) {
    switch (e->k) {
      case K::Add: case K::Sub: return 1;
      case K::Mul: case K::Div: return 2;
      case K::Neg: return 3;
      case K::Pow: return 4;
      default: return 5;
    }
  }
  std::string tx(const RP& e, int need = 0, bool right = false) {
    std::string t;
    int p = prec(e);
    switch (e->k) {
      case K::Const: {
        t = dstr(e->c);
        if (r.chance(0.15)) { char b[40]; snprintf(b, sizeof b, r.chance(0.5) ? "%.4e" : "%.6f", e->c); if (strtod(b, nullptr) == e->c) t = b; }
        if (e->c == 0.5 && r.chance(0.3)) t = ".5";
        if (e->c == 7 && r.chance(0.3)) t = "7.";
        break;
      }
      case K::Var: t = vars[e->var].first; break;
      case K::Add: case K::Sub: case K::Mul: case K::Div: {
        const char* o = e->k == K::Add ? "+" : e->k == K::Sub ? "-" : e->k == K::Mul ? "*" : "/";
        t = tx(e->a, p) + sp() + o + sp() + tx(e->b, p + 1, true);
        break;
      }
      case K::Neg: t = "-" + sp() + tx(e->a, 3, true); break;
      case K::Pow:
        if (r.chance(0.3)) { t = "pow" + sp() + "(" + tx(e->a) + "," + sp() + tx(e->b) + ")"; p = 5; }
        else t = tx(e->a, 5) + sp() + "^" + sp() + tx(e->b, 4, true);
        break;
      case K::Min: case K::Max: case K::Atan2: {
        std::string n = kname(e->k);
        if (e->k == K::Atan2 && r.chance(0.3)) n = "arctan2";
        t = n + sp() + "(" + sp() + tx(e->a) + sp() + "," + sp() + tx(e->b) + ")";
        break;
      }
      default: {
        std::string n = kname(e->k);
        if ((e->k == K::Asin || e->k == K::Acos || e->k == K::Atan) && r.chance(0.4)) n = "arc" + n.substr(1);
        t = n + sp() + "(" + sp() + tx(e->a) + sp() + ")";
      }
    }
    if (p < need && !(right && e->k == K::Neg)) t = par(t);
    else if (r.chance(0.07)) t = par(t);
    return t;
  }
  std::string tf(const RFP& f, int need = 0) {
    std::string t; int p = 5;
    const std::string s1(1, SEP);
    switch (f->k) {
      case FK::And: p = 3; t = tf(f->ops[0], 3) + s1 + "and" + s1 + tf(f->ops[1], 4); break;
      case FK::Or: p = 2; t = tf(f->ops[0], 2) + s1 + "or" + s1 + tf(f->ops[1], 3); break;
      case FK::Imply: p = 1; t = tf(f->ops[0], 2) + s1 + (r.chance(0.5) ? "implies" : "=>") + s1 + tf(f->ops[1], 1); break;
      case FK::Not: p = 4; t = "not" + s1 + tf(f->ops[0], 4); break;
      default: t = tx(f->a) + sp() + fkname(f->k) + sp() + tx(f->b);
    }
    if (p < need) t = par(t); else if (r.chance(0.07)) t = par(t);
    return t;
  }
};
}  // namespace

static void c43(Ctx& c) {
  Rng r = c.rng();
  front::Rec R;
  rec = &R;
  struct Reset { ~Reset() { rec = nullptr; } } reset;
  Dr g(r);
  Asg s;
  static const char* names[] = {"x", "y", "z", "x1", "foo_bar", "a.b", "Var", "e1", "E", "inf", "exps", "mini", "p", "q_", "ctr1", "X.", "notx", "order"};
  std::string text = "var:" + g.sp();
  std::vector<RP> lo, hi;
  const int nv = r.range(1, 4);
  std::vector<std::string> used;
  std::vector<std::pair<std::string, int>> vs;
  for (int i = 0; i < nv; ++i) {
    std::string n;
    do n = names[r.below(18)]; while (std::find(used.begin(), used.end(), n) != used.end());
    used.push_back(n);
    const double v = r.range(-16, 16) / 4.0;
    s.x.push_back(v);
    auto k = [&](double q) -> RP { RP e = rc(std::fabs(q)); if (q < 0) e = r1(K::Neg, e); if (r.chance(0.2)) e = r2(K::Add, e, r2(K::Mul, rc(2), rc(r.below(3)))); if (r.chance(0.1)) e = r2(K::Sub, e, r2(K::Pow, rc(2), rc(r.below(3)))); return e; };
    if (r.chance(0.12)) { RP e = k(v); lo.push_back(e); hi.push_back(e); text += g.tx(e) + SEP + n + g.sp() + ";" + g.sp(); }
    else {
      RP a = k(v - r.range(0, 4)), b = k(v + r.range(0, 4) + 20);
      lo.push_back(a); hi.push_back(b);
      text += "[" + g.sp() + g.tx(a) + "," + g.sp() + g.tx(b) + "]" + g.sp() + n + g.sp() + ";" + g.sp();
    }
    vs.emplace_back(n, i);
  }
  g.vars = vs;
  std::vector<RFP> ref;
  std::vector<RP> cost;
  const int nc = r.chance(0.85) ? r.range(1, 5) : 0;
  if (nc) {
    text += g.sp() + "ctr:" + g.sp();
    for (int i = 0; i < nc; ++i) {
      RFP f = g.gf(r.range(0, 3));
      if (truth(f, s) == T3::F && r.chance(0.85)) f = fnot(f);
      ref.push_back(f); text += g.tf(f) + g.sp() + ";" + g.sp();
    }
  }
  if (r.chance(0.3)) { text += g.sp() + "cost:" + g.sp(); for (int i = r.range(1, 2); i > 0; --i) { cost.push_back(g.gx(3)); text += g.tx(cost.back()) + g.sp() + ";" + g.sp(); } }
  text = spaces(r, text, false);
  if (r.chance(0.1)) text += "# the end";
  std::string kind;
  bool must = false;
  if (r.chance(0.3)) {
    must = true;
    switch (r.below(6)) {
      case 0: {   // cut before the last semicolon of a section
        std::string clean; for (size_t i = 0; i < text.size(); ++i) { if (text[i] == '#') while (i < text.size() && text[i] != '\n') ++i; if (i < text.size()) clean += text[i]; }
        std::vector<size_t> can; bool in = false;
        for (size_t i = 0; i < clean.size(); ++i) { if (!isspace((unsigned char)clean[i])) in = clean[i] != ';'; if (in) can.push_back(i + 1); }
        text = clean.substr(0, can[r.below((int)can.size())]); kind = "cut"; break;
      }
      case 1: {
        static const unsigned char bs[] = {0x80, 0xff, 0xc3, 0xa0, '{', '}', '\\', '\'', '`', 0x01, 0x0c, 0x7f, '"', '!', '&', '|', '$', '?', '@', '~', '%'};
        text += "\n" + std::string(1, (char)bs[r.below(21)]) + (r.chance(0.5) ? "\n" : ""); kind = "byte"; break;
      }
      case 2: text += std::string("\n") + (r.chance(0.5) ? ")" : r.chance(0.5) ? ";" : r.chance(0.5) ? "ctr: 1 = 1;" : "x"); if (text.back() == ';' && !nc && cost.empty()) must = false; kind = "more"; break;
      case 3: text += "\nctr: undeclared_v = 1;"; if (nc || !cost.empty()) kind = "more"; else kind = "undeclared"; break;
      case 4: { static const char* t[] = {"", "var:", "var: [1,2];", "var: x;", "ctr: 1 = 1;", "var: [1,2] x; ctr:", "var: [1,2] x; ctr: x;", "var: [1,2] x; ctr: x = 1", "var: [1,2] x; cost: x = 1;", "var: [1,2] x; ctr: x < 1 < 2;", "var: [1,2] x; ctr: x + (1 = 2);", "var: [1,2] 3;", "var: [1 2] x;", "var: [1,2] sin;", "var: [1,y] x;", "var: [1,2] x; ctr: sin x = 1;", "var: [1,2] x; ctr: x and x;", "var: [1,2] x; ctr: not x;", "var: [1,2] x; cost:"}; text = t[r.below(19)]; kind = "grammar"; break; }
      default: {
        must = false; kind = "mutated";
        static const std::string al = "()[];:,#.-+=<>*/^ \n\t0123456789eEaAbzZ_";
        for (int i = r.range(1, 8); i > 0 && !text.empty(); --i) {
          const size_t at = r.below((int)text.size());
          switch (r.below(4)) {
            case 0: text.erase(at, r.range(1, 5)); break;
            case 1: text.insert(at, std::string(1, al[r.below((int)al.size())])); break;
            case 2: text[at] = (char)r.below(256); break;
            default: text.insert(at, r.chance(0.5) ? std::string(r.range(1, 300), "(1-"[r.below(3)]) : text.substr(r.below((int)text.size()), r.range(1, 20)));
          }
        }
      }
    }
  }
  c.note(kind + (kind.empty() ? "" : ": ") + text);
  c.eval();
  c.nontrivial(kind + text);
  Config config;
  config.mutable_precision() = 0.01;
  const bool models = r.chance(0.5);
  config.mutable_produce_models() = models;
  const bool sat = r.chance(0.7);
  R.plan = {sat};
  R.model_of = [&](const Box& b) { Box m = b; for (int i = 0; i < m.size(); ++i) m[i] = (size_t)i < s.x.size() ? s.x[i] : 0.0; return m; };
  DrDriver drv{Context{config}};
  const Parsed p = parse(drv, text);
  if (!R.bad.empty()) { c.violation("dr:undeclared", text + "\n" + R.bad); return; }
  if (p.threw ? p.what.empty() : !p.ok && p.err.empty()) { c.violation("dr:silent:" + kind, text + "\nrefused without a diagnostic"); return; }
  if (!kind.empty()) {
    c.count((p.threw ? "refused by exception: " : p.ok ? "accepted: " : "refused: ") + kind);
    if (must && p.ok) c.violation("dr:accepted:" + kind, text + "\naccepted");
    if (!p.ok && (R.checked || !p.out.empty())) c.violation("dr:answered:" + kind, text + "\nrefused, but after giving an answer: " + p.out);
    return;
  }
  if (!p.ok) {
    c.count("refused");
    bool part = false;
    for (auto& f : ref) part = part || partial(f);
    for (auto& f : cost) part = part || partial(f);
    for (auto& e : lo) part = part || partial(e);
    for (auto& e : hi) part = part || partial(e);
    if (!part) c.violation("dr:refused", text + "\nrefused: " + p.what + p.err);
    return;
  }
  c.count("files accepted");
  if ((int)R.all.size() != nv) { c.violation("dr:declare", text + "\n" + std::to_string(R.all.size()) + " variables are declared"); return; }
  Pool pool(0, 0);
  for (int i = 0; i < nv; ++i) {
    const auto& d = R.all[i];
    pool.add_x(d.v);
    if (d.v.get_name() != vs[i].first || d.v.get_type() != Variable::Type::CONTINUOUS) { c.violation("dr:declare", text + "\n" + vs[i].first + " is declared as " + d.v.get_name()); return; }
    const auto& iv = R.box()[d.v];
    const V a = Evaluator(s).ev(lo[i]), b = Evaluator(s).ev(hi[i]);
    if (!a.ok || !b.ok) continue;
    if (fabsq(a.v - (f128)iv.lb()) > SAFETY * (a.e + EPS * a.M) || fabsq(b.v - (f128)iv.ub()) > SAFETY * (b.e + EPS * b.M)) c.violation("dr:bounds", text + "\n" + d.v.get_name() + " has the bounds " + span(iv));
    c.count("declared bounds");
  }
  if (R.asserts.size() != ref.size() || R.minimize.size() != (cost.empty() ? 0 : 1) || (!cost.empty() && R.minimize[0].size() != cost.size())) { c.violation("dr:count", text + "\na different number of constraints or costs"); return; }
  if (!R.checked) c.violation("dr:unchecked", text);
  std::vector<RFP> got;
  std::vector<RP> goal;
  try {
    for (auto& f : R.asserts) got.push_back(to_ref(f, pool));
    if (!cost.empty()) for (auto& e : R.minimize[0]) goal.push_back(to_ref(e, pool));
  } catch (const std::out_of_range&) { c.violation("dr:undeclared", text + "\nan unknown variable"); return; }
  catch (const std::runtime_error&) { c.count("not comparable"); return; }
  for (int t = 0; t < 8; ++t) {
    Asg a = s;
    if (t) for (auto& x : a.x) if (r.chance(0.6)) x = r.range(-16, 16) / 4.0;
    for (size_t i = 0; i < got.size(); ++i) {
      const T3 w = truth(ref[i], a), h = truth(got[i], a);
      if (w == T3::I || h == T3::I) { c.count("inconclusive values"); continue; }
      c.count(w == T3::T ? "true constraints" : "false constraints");
      if (w != h) { c.violation("dr:value:" + std::string(fkname(ref[i]->k)), text + "\nconstraint " + std::to_string(i + 1) + " is read as " + R.asserts[i].to_string() + ", which is " + (h == T3::T ? "true" : "false") + " at " + astr(a)); return; }
    }
    for (size_t i = 0; i < cost.size(); ++i) {
      const V v = Evaluator(a).ev(cost[i]), w = Evaluator(a).ev(goal[i]);
      if (!v.ok || !w.ok) continue;
      c.count("costs compared");
      if (fabsq(v.v - w.v) > SAFETY * (v.e + w.e + EPS * (v.M + w.M))) { c.violation("dr:cost", text + "\nthe cost is read as " + R.minimize[0][i].to_string()); return; }
    }
  }
  const auto L = lines_of(p.out);
  bool fine = true;
  if (!sat) fine = L.size() == 1 && L[0] == "unsat";
  else {
    fine = !L.empty() && L[0] == "delta-sat with delta = 0.01" && (models ? L.size() == 1 + nv + cost.size() : L.size() == 1);
    for (size_t i = 0; fine && models && i < cost.size(); ++i) {
      const size_t at = L[1 + nv + i].rfind(" is ");
      fine = at != std::string::npos && L[1 + nv + i].compare(0, 18, "Found minimum for ") == 0;
      const V v = Evaluator(s).ev(cost[i]);
      if (fine && v.ok && v.e < 1e-6Q) { const double x = strtod(L[1 + nv + i].c_str() + at + 4, nullptr); fine = std::fabs(x - (double)v.v) <= 1e-5 * (1 + std::fabs((double)v.v)); c.count("minima printed"); }
    }
  }
  if (!fine) c.violation("dr:output", text + "\noutput: " + p.out);
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C43", c43}}); }
