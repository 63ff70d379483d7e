// C33 boxes, C34 literals, C36 bound extraction, C37 evaluation over boxes.
#include <fenv.h>
#include <gmpxx.h>

#include <limits>

#include "dreal/solver/expression_evaluator.h"
#include "dreal/solver/filter_assertion.h"
#include "dreal/solver/formula_evaluator.h"
#include "dreal/util/box.h"
#include "dreal/util/interval.h"
#include "dreal/util/string_to_interval.h"

#include "boxes.h"
#include "ser.h"
#include "sym.h"

using namespace vh;
using dreal::Box;
using ibex::Interval;
typedef Variable::Type VT;

// ---------------------------------------------------------------- C33
static double bound33(Rng& r) {
  static const std::vector<double> sp{0, 1, -1, 0.5, 2, -3, 1e-300, -1e-300, 1e300, -1e300, 4.9e-324, 1e16, -1e16, 10, 100};
  double u = r.unit();
  if (u < 0.5) return r.pick(sp);
  if (u < 0.55) return HUGE_VAL;
  if (u < 0.6) return -HUGE_VAL;
  if (u < 0.9) return r.uni(-10, 10);
  return std::ldexp(r.uni(-1, 1), r.range(-200, 200));
}
static Interval iv33(Rng& r, VT t) {
  if (t == VT::BOOLEAN || t == VT::BINARY) { static const std::vector<Interval> b{Interval(0, 1), Interval(0, 0), Interval(1, 1)}; return r.pick(b); }
  if (t == VT::INTEGER) {
    double a = r.chance(0.1) ? r.range(-1000000000, 1000000000) : r.range(-12, 12), w = r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : r.range(0, 2000000);
    return Interval(a, a + w);
  }
  double a = bound33(r), b = r.chance(0.15) ? a : r.chance(0.1) ? std::nextafter(a, HUGE_VAL) : bound33(r);
  if (a > b) std::swap(a, b);
  if (a == HUGE_VAL) a = 1;
  if (b == -HUGE_VAL) b = 1;
  if (a > b) std::swap(a, b);
  return Interval(a, b);
}
struct M33 { std::vector<Variable> v; std::vector<Interval> i; bool empty = false; };
static std::string show(const Interval& i) { return i.is_empty() ? "empty" : "[" + dstr(i.lb()) + "," + dstr(i.ub()) + "]"; }
static std::string show(const M33& m) { std::string s; for (size_t k = 0; k < m.v.size(); ++k) s += m.v[k].get_name() + ":" + show(m.i[k]) + " "; return m.empty ? "EMPTY " + s : s; }
static bool same33(Ctx& c, const Box& b, const M33& m, const std::vector<Variable>& all, const std::string& log, const char* after) {
  auto bad = [&](const std::string& k, const std::string& w) { c.violation("box:" + k, w + " after " + after + "; expected " + show(m) + "; history: " + cut(log, 900)); return false; };
  c.eval();
  if (b.size() != (int)m.v.size() || b.variables().size() != m.v.size()) return bad("size", "size " + std::to_string(b.size()));
  if (b.empty() != m.empty) return bad("empty", std::string("empty() is ") + (b.empty() ? "true" : "false"));
  if (b.size() && b.interval_vector().size() != b.size()) return bad("vector-size", "interval vector of size " + std::to_string(b.interval_vector().size()));
  for (int i = 0; i < b.size(); ++i) {
    if (!b.variables()[i].equal_to(m.v[i]) || !b.variable(i).equal_to(m.v[i])) return bad("variable", "variable " + std::to_string(i));
    if (b.index(m.v[i]) != i) return bad("index", "index of " + m.v[i].get_name() + " is " + std::to_string(b.index(m.v[i])));
    if (!b.has_variable(m.v[i])) return bad("has", "has_variable(" + m.v[i].get_name() + ") is false");
    if (m.empty) continue;
    if (b[i] != m.i[i]) return bad("value", "b[" + std::to_string(i) + "] = " + show(b[i]));
    if (b[m.v[i]] != m.i[i]) return bad("value", "b[" + m.v[i].get_name() + "] = " + show(b[m.v[i]]));
    if (b.interval_vector()[i] != m.i[i]) return bad("value", "interval_vector()[" + std::to_string(i) + "]");
  }
  for (const Variable& v : all) {
    bool in = false;
    for (auto& w : m.v) in = in || w.equal_to(v);
    if (b.has_variable(v) != in) return bad("has", "has_variable(" + v.get_name() + ")");
  }
  if (!m.empty) {
    auto p = b.MaxDiam();
    double best = 0;
    for (auto& i : m.i) if (i.is_bisectable()) best = std::max(best, i.diam());
    if (p.second == -1 ? best > 0 : (p.second >= b.size() || !m.i[p.second].is_bisectable() || m.i[p.second].diam() != p.first || p.first != best))
      return bad("maxdiam", "MaxDiam = (" + dstr(p.first) + ", " + std::to_string(p.second) + "), largest is " + dstr(best));
  }
  return true;
}
static bool meq(const M33& a, const M33& b) {
  if (a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if (!a.v[i].equal_to(b.v[i])) return false;
  if (a.empty || b.empty) return a.empty == b.empty;
  for (size_t i = 0; i < a.v.size(); ++i) if (a.i[i] != b.i[i]) return false;
  return true;
}
static void c33(Ctx& c) {
  Rng r = c.rng();
  std::vector<Variable> all;
  static const VT types[] = {VT::CONTINUOUS, VT::INTEGER, VT::BINARY, VT::BOOLEAN, VT::CONTINUOUS, VT::CONTINUOUS};
  int nv = r.range(1, 8);
  for (int i = 0; i < nv; ++i) all.push_back(Variable("v" + std::to_string(r.chance(0.2) ? 0 : i), types[r.below(6)]));
  std::vector<Box> b;
  std::vector<M33> m;
  std::string log;
  auto ndef = [&](const Variable& v) { VT t = v.get_type(); return t == VT::CONTINUOUS ? Interval() : t == VT::INTEGER ? Interval(-2147483647, 2147483647) : Interval(0, 1); };
  {
    std::vector<Variable> vs; M33 q;
    if (r.chance(0.5)) { int n = r.range(0, nv); for (int i = 0; i < n; ++i) { vs.push_back(all[i]); q.v.push_back(all[i]); q.i.push_back(ndef(all[i])); } if (n) b.push_back(Box(vs)); else b.push_back(Box()); }
    else b.push_back(Box());
    m.push_back(q);
  }
  int steps = r.range(4, 40);
  for (int s = 0; s < steps; ++s) {
    int k = r.below((int)b.size());
    Box& x = b[k];
    M33& y = m[k];
    std::string op;
    c.note(log);
    switch (r.below(14)) {
      case 0: case 1: case 2: {
        std::vector<Variable> left;
        for (auto& v : all) { bool in = false; for (auto& w : y.v) in = in || w.equal_to(v); if (!in) left.push_back(v); }
        if (left.empty() || y.empty) continue;
        Variable v = r.pick(left);
        y.v.push_back(v);
        if (r.chance(0.5)) { x.Add(v); y.i.push_back(ndef(v)); op = "Add(" + v.get_name() + ")"; }
        else { Interval i = iv33(r, v.get_type()); x.Add(v, i.lb(), i.ub()); y.i.push_back(i); op = "Add(" + v.get_name() + "," + show(i) + ")"; }
        break;
      }
      case 3: case 4: if (b.size() >= 5) continue; else {
        op = "copy";
        Box cp = x; M33 cm = y;
        b.push_back(std::move(cp)); m.push_back(cm);
        break;
      }
      case 5: { int q = r.below((int)b.size()); op = "assign from " + std::to_string(q); if (r.chance(0.7)) { Box t(b[q]); M33 tm = m[q]; x = r.chance(0.5) ? t : std::move(t); y = tm; } else { const M33 tm = m[q]; x = b[q]; y = tm; } break; }
      case 6: case 7: {
        if (y.v.empty() || y.empty) continue;
        int i = r.below((int)y.v.size());
        Interval n = iv33(r, y.v[i].get_type());
        int how = r.below(3);
        if (how == 0) x[i] = n; else if (how == 1) x[y.v[i]] = n; else x.mutable_interval_vector()[i] = n;
        y.i[i] = n;
        op = "set " + y.v[i].get_name() + " " + show(n);
        break;
      }
      case 8: if (y.v.empty() || !r.chance(0.2)) continue; x.set_empty(); y.empty = true; op = "set_empty"; break;
      case 9: case 10: {
        int q = r.below((int)b.size());
        bool same = m[q].v.size() == y.v.size() && !y.v.empty();
        for (size_t i = 0; same && i < y.v.size(); ++i) same = y.v[i].equal_to(m[q].v[i]);
        if (!same) continue;
        op = "union with " + std::to_string(q);
        const M33 o = m[q];
        Box& ret = x.InplaceUnion(b[q]);
        if (&ret != &x) c.violation("box:union-ref", "InplaceUnion does not return its object; " + log);
        if (y.empty) y = o; else if (!o.empty) for (size_t i = 0; i < y.v.size(); ++i) y.i[i] = Interval(std::min(y.i[i].lb(), o.i[i].lb()), std::max(y.i[i].ub(), o.i[i].ub()));
        break;
      }
      default: {
        if (y.v.empty() || y.empty) continue;
        int i = r.below((int)y.v.size());
        VT t = y.v[i].get_type();
        if (t == VT::BOOLEAN) continue;
        op = "bisect " + y.v[i].get_name();
        bool by_name = r.chance(0.5);
        if (!y.i[i].is_bisectable()) {
          bool threw = false;
          try { auto p = by_name ? x.bisect(y.v[i]) : x.bisect(i); } catch (const std::runtime_error&) { threw = true; }
          if (!threw) c.violation("box:bisect-point", "bisecting the unsplittable " + show(y.i[i]) + " does not fail; " + log);
          c.count("bisections refused");
          break;
        }
        auto p = by_name ? x.bisect(y.v[i]) : x.bisect(i);
        c.count("bisections");
        M33 a = y, d = y;
        if (p.first.size() != x.size() || p.second.size() != x.size()) { c.violation("box:bisect-size", log); return; }
        a.i[i] = p.first[i]; d.i[i] = p.second[i];
        const Interval A = a.i[i], D = d.i[i], O = y.i[i];
        bool ok = !A.is_empty() && !D.is_empty() && A.is_subset(O) && D.is_subset(O) && A != O && D != O;
        if (t == VT::CONTINUOUS) ok = ok && std::min(A.lb(), D.lb()) == O.lb() && std::max(A.ub(), D.ub()) == O.ub() && A.lb() <= D.ub() && D.lb() <= A.ub();
        else { const Interval &L = A.lb() <= D.lb() ? A : D, &H = A.lb() <= D.lb() ? D : A; ok = ok && L.lb() <= O.lb() && H.ub() >= O.ub() && std::floor(L.ub()) + 1 >= H.lb(); }
        if (!ok) c.violation("box:bisect-cover", "bisecting " + show(O) + " gives " + show(A) + " and " + show(D) + "; " + log);
        if (!same33(c, p.first, a, all, log, "bisect (first part)") || !same33(c, p.second, d, all, log, "bisect (second part)")) return;
        if (r.chance(0.3)) { if (r.chance(0.5)) { x = p.first; y = a; } else { x = std::move(p.second); y = d; } }
        break;
      }
    }
    log += std::to_string(k) + ":" + op + "; ";
    for (size_t q = 0; q < b.size(); ++q) if (!same33(c, b[q], m[q], all, log, op.c_str())) return;
    for (size_t q = 0; q < b.size(); ++q) {
      bool e = b[k] == b[q], ne = b[k] != b[q], want = meq(m[k], m[q]);
      if (e != want || ne == want) { c.violation("box:equality", "boxes " + std::to_string(k) + " and " + std::to_string(q) + (e ? " are equal" : " differ") + ": " + show(m[k]) + " / " + show(m[q]) + "; " + log); return; }
    }
    if (r.chance(0.1) && !m[k].empty) {
      std::ostringstream os; os << b[k];
      for (auto& v : m[k].v) if (os.str().find(v.get_name() + " : ") == std::string::npos) c.violation("box:print", "printed box lacks " + v.get_name() + ": " + os.str());
    }
  }
  c.count("operations", steps);
  c.nontrivial(log);
}

// ---------------------------------------------------------------- C34
static mpq_class exact(const std::string& s) {
  size_t i = 0; bool neg = false;
  if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
  std::string dig; long e = 0;
  for (; i < s.size() && isdigit(s[i]); ++i) dig += s[i];
  if (i < s.size() && s[i] == '.') for (++i; i < s.size() && isdigit(s[i]); ++i) { dig += s[i]; --e; }
  if (i < s.size()) e += atol(s.c_str() + i + 1);
  mpz_class m(dig.empty() ? "0" : dig, 10), p;
  mpz_ui_pow_ui(p.get_mpz_t(), 10, labs(e));
  mpq_class q = e >= 0 ? mpq_class(m * p) : mpq_class(m, p);
  q.canonicalize();
  return neg ? -q : q;
}
static std::string digits(Rng& r, int n) { std::string s; for (int i = 0; i < n; ++i) s += '0' + r.below(10); return s; }
static std::string literal(Rng& r) {
  std::string s = r.chance(0.3) ? "-" : r.chance(0.15) ? "+" : "";
  int w = r.below(10);
  if (w < 3) { s += r.chance(0.1) ? "" : digits(r, r.range(1, 4)); s += "." + digits(r, r.range(1, 6)); }
  else if (w == 3) s += digits(r, r.range(1, 25)) + (r.chance(0.5) ? "." : "");
  else if (w == 4) { char b[64]; snprintf(b, sizeof b, "%.*g", r.range(1, 20), r.chance(0.5) ? r.unit() * 10 : std::ldexp(r.unit(), r.range(-60, 60))); s += b; }
  else if (w == 5) {  // an exactly representable value, or one next to it
    mpq_class q(std::ldexp((double)(r.u64() >> 11), -r.range(0, 80)));
    std::string d;
    mpz_class n = q.get_num(), den = q.get_den(), k;
    int k2 = (int)mpz_scan1(den.get_mpz_t(), 0);
    mpz_ui_pow_ui(k.get_mpz_t(), 5, k2);
    d = mpz_class(n * k).get_str();
    while ((int)d.size() <= k2) d = "0" + d;
    d.insert(d.size() - k2, ".");
    if (d.back() == '.') d += "0";
    if (r.chance(0.3)) d += "0000001";
    s += d;
  }
  else if (w == 6) {  // halfway between neighbouring doubles
    double v = std::ldexp((double)((1ull << 52) + (r.u64() >> 12)), -r.range(20, 70));
    mpq_class q = (mpq_class(v) + mpq_class(std::nextafter(v, HUGE_VAL))) / 2;
    mpz_class k; int k2 = (int)mpz_scan1(q.get_den().get_mpz_t(), 0);
    mpz_ui_pow_ui(k.get_mpz_t(), 5, k2);
    std::string d = mpz_class(q.get_num() * k).get_str();
    while ((int)d.size() <= k2) d = "0" + d;
    d.insert(d.size() - k2, ".");
    if (d.back() == '.') d += "0";
    s += d;
  }
  else if (w == 7) s += (r.chance(0.5) ? "0." : ".") + std::string(r.range(0, 30), '0') + digits(r, r.range(1, 30));
  else s += digits(r, r.range(1, 3)) + (r.chance(0.5) ? "." + digits(r, r.range(1, 20)) : "");
  if (w >= 8 || r.chance(0.2)) {
    int e = r.chance(0.7) ? r.range(-25, 25) : r.chance(0.7) ? r.range(-300, 300) : r.range(-420, 420);
    if (s.back() == '.') s += "0";
    s += std::string(r.chance(0.5) ? "e" : "E") + (e >= 0 && r.chance(0.4) ? "+" : "") + std::to_string(e);
  }
  return s;
}
static void c34(Ctx& c) {
  Rng r = c.rng();
  static const int modes[] = {FE_TONEAREST, FE_TONEAREST, FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  for (int i = 0; i < 20; ++i) {
    std::string s;
    try { s = literal(r); } catch (const std::exception&) { continue; }
    if (s.find_first_of("0123456789") == std::string::npos || s.find("inf") != std::string::npos) continue;
    c.note(s);
    const int mode = modes[r.below(6)];
    mpq_class q = exact(s), a = abs(q);
    static const mpq_class top(std::numeric_limits<double>::max()), low(std::numeric_limits<double>::min());
    Interval iv; std::string err;
    fesetround(mode);
    try { iv = dreal::StringToInterval(s); } catch (const std::exception& e) { err = e.what(); }
    const int after = fegetround();
    fesetround(FE_TONEAREST);
    c.eval();
    if (after != mode) c.violation("literal:rounding", "rounding mode changed by converting " + s);
    if (!err.empty()) {
      if (a == 0 || (a >= low && a <= top)) c.violation("literal:refused", "literal " + s + " refused: " + err);
      else c.count("refused out of range");
      continue;
    }
    if (iv.is_empty()) { c.violation("literal:empty", "literal " + s + " gives an empty interval"); continue; }
    bool lo = iv.lb() == -HUGE_VAL || mpq_class(iv.lb()) <= q, hi = iv.ub() == HUGE_VAL || mpq_class(iv.ub()) >= q;
    if (!lo || !hi) c.violation("literal:enclose", "literal " + s + " gives " + show(iv) + " which does not contain it");
    else {
      bool exactly = (std::isfinite(iv.lb()) && mpq_class(iv.lb()) == q) || (std::isfinite(iv.ub()) && mpq_class(iv.ub()) == q);
      if (exactly ? iv.lb() != iv.ub() : std::nextafter(iv.lb(), HUGE_VAL) < iv.ub()) c.violation("literal:width", "literal " + s + " gives " + show(iv) + ", wider than necessary");
      c.count(exactly ? "exact literals" : "inexact literals");
      c.nontrivial(s);
    }
  }
  for (int i = 0; i < 5; ++i) {
    double d = bound33(r);
    if (r.chance(0.3)) { uint64_t u = r.u64(); memcpy(&d, &u, 8); if (std::isnan(d)) continue; }
    if (std::isinf(d)) continue;
    Interval iv = dreal::BloatPoint(d);
    c.eval();
    if (!(iv.lb() < d && d < iv.ub() && std::nextafter(iv.lb(), HUGE_VAL) == d && std::nextafter(iv.ub(), -HUGE_VAL) == d))
      c.violation("literal:bloat", "BloatPoint(" + dstr(d) + ") = " + show(iv));
  }
}

// ---------------------------------------------------------------- C36
static double prev(double v) { return std::nextafter(v, -HUGE_VAL); }
static double next(double v) { return std::nextafter(v, HUGE_VAL); }
static void c36(Ctx& c) {
  Rng r = c.rng();
  static const VT types[] = {VT::CONTINUOUS, VT::CONTINUOUS, VT::CONTINUOUS, VT::INTEGER, VT::BINARY};
  int n = r.range(1, 4);
  std::vector<Variable> vs;
  Box box;
  for (int i = 0; i < n; ++i) { vs.push_back(Variable("v" + std::to_string(i), types[r.below(5)])); box.Add(vs[i]); if (r.chance(0.8)) box[i] = iv33(r, vs[i].get_type()); }
  Variable bv("b", VT::BOOLEAN);
  box.Add(bv);
  std::string log = "box " ;
  for (int i = 0; i < n; ++i) log += show(box[i]) + " ";
  for (int step = 0; step < 6 && !box.empty(); ++step) {
    int k = r.below(n);
    const Variable& v = vs[k];
    const bool isint = v.get_type() != VT::CONTINUOUS;
    const Interval old = box[k];
    // the constant: near the ends of the interval, inside, outside
    double a;
    switch (r.below(8)) {
      case 0: a = old.lb(); break;
      case 1: a = old.ub(); break;
      case 2: a = prev(old.lb()); break;
      case 3: a = next(old.ub()); break;
      case 4: a = r.range(-3, 3); break;
      case 5: a = old.mid(); break;
      case 6: a = bound33(r); break;
      default: a = isint ? r.range(-12, 12) + 0.5 : r.uni(-10, 10); break;
    }
    if (!std::isfinite(a) || std::fabs(a) > 1e307) a = r.chance(0.5) ? 0 : -1;
    if (isint && std::fabs(a) > 1e15) a = 7;
    const bool rcst = r.chance(0.3);
    double lo = a, hi = rcst ? next(a) : a;
    if (rcst && r.chance(0.5)) { hi = a; lo = prev(a); }
    Expression ce = rcst ? Expression::Zero() : Expression(a);
    if (rcst) ce = dreal::drake::symbolic::real_constant(lo, hi, r.chance(0.5));
    const int op = r.below(6);
    const bool flip = r.chance(0.5), neg = r.chance(0.4);
    const Expression ve(v);
    const Expression &L = flip ? ce : ve, &R_ = flip ? ve : ce;
    Formula f = op == 0 ? L == R_ : op == 1 ? L != R_ : op == 2 ? L > R_ : op == 3 ? L >= R_ : op == 4 ? L < R_ : L <= R_;
    int eff = op;  // relation of v to the constant
    if (flip && op >= 2) { static const int mir[] = {0, 1, 4, 5, 2, 3}; eff = mir[op]; }
    if (neg) { f = !f; static const int ng[] = {1, 0, 5, 4, 3, 2}; eff = ng[eff]; }
    const Box before = box;
    std::string text = ser(f);
    { std::ostringstream os; os << f << " on " << show(old) << " (" << v.get_type() << ")"; text = os.str(); }
    c.note(log + text);
    if (r.chance(0.15)) {  // not a bound
      std::vector<Formula> nb{ve + Expression(vs[r.below(n)]) * 2 >= ce, sin(ve) <= ce, Formula(bv), !Formula(bv), f && Formula(bv), f || Formula(bv), ve * ve == ce, Formula::True(), Formula::False()};
      const Formula& g = r.pick(nb);
      auto res = dreal::FilterAssertion(g, &box);
      c.eval();
      std::ostringstream os; os << g;
      if (n > 1 && box != before && g.get_kind() != f.get_kind()) c.violation("filter:nonbound", "the formula " + os.str() + " changed the box");
      if (box != before) c.violation("filter:nonbound", "the formula " + os.str() + ", no bound, changed the box");
      if (res != dreal::FilterAssertionResult::NotFiltered) {
        // a sum such as v0 + 2 v0 is no bound; nothing here may be reported as absorbed
        c.violation("filter:nonbound", "the formula " + os.str() + ", no bound, was reported as absorbed");
      }
      c.count("formulas that are no bounds");
      continue;
    }
    auto res = dreal::FilterAssertion(f, &box);
    c.eval();
    c.count(res == dreal::FilterAssertionResult::NotFiltered ? "kept" : "absorbed");
    const bool filtered = res != dreal::FilterAssertionResult::NotFiltered;
    const Interval now = box.empty() ? Interval::EMPTY_SET : box[k];
    // values that satisfy the bound: [wl, wu], and for != none but one
    double wl = old.lb(), wu = old.ub(); bool none = false;
    switch (eff) {
      case 0: wl = std::max(wl, lo); wu = std::min(wu, hi); break;
      case 1: break;
      case 2: wl = std::max(wl, isint ? std::floor(lo) + 1 : next(lo)); break;
      case 3: wl = std::max(wl, lo); break;
      case 4: wu = std::min(wu, isint ? std::ceil(hi) - 1 : prev(hi)); break;
      case 5: wu = std::min(wu, hi); break;
    }
    if (isint) { wl = std::ceil(wl); wu = std::floor(wu); }
    none = wl > wu;
    for (int i = 0; i < box.size(); ++i) if (i != k && !box.empty() && box[i] != before[i]) c.violation("filter:other", text + " changed another variable");
    if (res == dreal::FilterAssertionResult::FilteredWithoutChange && box != before) c.violation("filter:nochange", text + " reported without change, box changed");
    double gl = now.lb(), gu = now.ub(); bool gnone = now.is_empty();
    if (!gnone && isint) { gl = std::ceil(gl); gu = std::floor(gu); gnone = gl > gu; }
    if (!gnone && !(now.is_subset(old))) c.violation("filter:grow", text + " gives " + show(now) + ", not part of the old interval");
    if (!none && (gnone || gl > wl || gu < wu)) c.violation(std::string("filter:lost:") + (isint ? "int" : "cont"), text + " gives " + show(now) + ", values from " + dstr(wl) + " to " + dstr(wu) + " satisfy it");
    if (filtered && eff == 1) c.violation("filter:neq", text + " reported as absorbed");
    if (filtered && (none ? !gnone : (gnone || gl != wl || gu != wu))) c.violation(std::string("filter:exact:") + (isint ? "int" : "cont"), text + " reported as absorbed gives " + show(now) + ", satisfied from " + dstr(wl) + " to " + dstr(wu));
    log += text + "; ";
    c.nontrivial(text);
    if (r.chance(0.5)) box = before;
  }
}

// ---------------------------------------------------------------- C37
static void c37(Ctx& c) {
  Rng r = c.rng();
  const int nx = r.range(1, 3);
  Pool p(nx, 0);
  GenOpt o; o.ite = false; o.intervals = 0.05;
  Gen g(r, nx, 0, o);
  RP a, b;
  if (r.chance(0.3)) a = Gen::combo(r.below(Gen::kOps * Gen::kOps));
  else if (r.chance(0.4)) a = g.tiny();
  else a = g.expr(r.range(1, 4));
  b = r.chance(0.5) ? rc((double)r.range(-3, 3)) : g.expr(1);
  const bool linear = r.chance(0.04);
  if (linear) { a = r.chance(0.5) ? rv(0) : r2(K::Mul, rc(r.range(1, 3)), rv(0)); b = r.chance(0.5) ? rc(0) : r2(K::Mul, rc(r.range(1, 3)), rv(0)); }
  if (nx == 1 && a->size && [&] { std::string s = str(a); return s.find("v1") != std::string::npos; }()) return;
  static const std::vector<FK> rels{FK::Eq, FK::Neq, FK::Gt, FK::Geq, FK::Lt, FK::Leq};
  RFP f0 = frel(r.pick(rels), a, b);
  if (r.chance(0.3)) f0 = fnot(f0);
  c.note(str(f0));
  Formula f;
  try { Builder bl(p, &r); f = bl(f0); } catch (const std::exception&) { c.count("refused"); return; }
  if (!dreal::drake::symbolic::is_relational(f) && !(dreal::drake::symbolic::is_negation(f) && dreal::drake::symbolic::is_relational(dreal::drake::symbolic::get_operand(f)))) { c.count("not relational"); return; }
  const Formula& rel = dreal::drake::symbolic::is_negation(f) ? dreal::drake::symbolic::get_operand(f) : f;
  const Expression diff = dreal::drake::symbolic::get_lhs_expression(rel) - dreal::drake::symbolic::get_rhs_expression(rel);
  RFP ref; RP dref, lref, rref;
  try { ref = to_ref(f, p); dref = to_ref(diff, p); lref = to_ref(dreal::drake::symbolic::get_lhs_expression(rel), p); rref = to_ref(dreal::drake::symbolic::get_rhs_expression(rel), p); } catch (const std::exception&) { return; }
  if (str(f0).find("(ite") != std::string::npos) { c.count("with if-then-else"); return; }
  const dreal::FormulaEvaluator ev = dreal::make_relational_formula_evaluator(f);
  for (int bx = 0; bx < 4; ++bx) {
    Box box = random_box(r, p.x);
    if (r.chance(linear ? 0.5 : 0.06)) for (auto& v : p.x) {
      // one end at zero, the other one close to it
      static const double tiny[] = {0, 5e-324, 1e-310, 1e-300, 1e-200, 1e-30};
      const double t = tiny[r.below(6)];
      box[v] = r.chance(0.5) ? ibex::Interval(0, t) : ibex::Interval(-t, 0);
    }
    c.note(str(f0) + " on " + show_box(box));
    const auto res = ev(box);
    const auto type = res.type();
    const Interval& I = res.evaluation();
    c.count(type == dreal::FormulaEvaluationResult::Type::VALID ? "valid" : type == dreal::FormulaEvaluationResult::Type::UNSAT ? "unsat" : "unknown");
    Interval E; bool have = true;
    try { E = dreal::ExpressionEvaluator(diff)(box); } catch (const std::exception&) { have = false; }
    int seen = 0;
    for (int k = 0; k < 8; ++k) {
      Asg s = random_point(r, box, p);
      Evaluator q(s);
      V d = q.ev(dref), l = q.ev(lref), rr = q.ev(rref);
      c.eval();
      if (l.ok && rr.ok) {
        ++seen;
        // the two sides are subtracted symbolically first, which may round constants
        const f128 v = l.v - rr.v, slack = SAFETY * (l.e + rr.e + EPS * (l.M + rr.M));
        if (!(v >= (f128)I.lb() - slack && v <= (f128)I.ub() + slack))
          c.violation("eval:enclosure:" + top_ops(f0), str(f0) + " on " + show_box(box) + ": interval " + show(I) + " lacks the value " + dstr((double)v) + " at " + astr(s));
        T3 t = q.fv(ref);
        if (t == T3::F && type == dreal::FormulaEvaluationResult::Type::VALID) c.violation("eval:valid", str(f0) + " on " + show_box(box) + " judged valid, false at " + astr(s));
        if (t == T3::T && type == dreal::FormulaEvaluationResult::Type::UNSAT) c.violation("eval:unsat", str(f0) + " on " + show_box(box) + " judged unsatisfiable, true at " + astr(s));
      }
      if (d.ok && have) {
        const f128 slack = d.M * 1e-24Q + (have_interval(dref) ? SAFETY * d.e : 0);
        if (!(d.v >= (f128)E.lb() - slack && d.v <= (f128)E.ub() + slack))
          c.violation("eval:expression:" + top_ops(f0), str(f0) + " on " + show_box(box) + ": expression interval " + show(E) + " lacks " + dstr((double)d.v) + " at " + astr(s));
      }
    }
    if (seen) c.nontrivial(str(f0) + show_box(box));
    c.count("points compared", seen);
  }
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C33", c33}, {"C34", c34}, {"C36", c36}, {"C37", c37}}); }
