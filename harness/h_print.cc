// C14 (prefix output) and C15 (infix output): the text is read back by an independent reader and compared,
// as a normal form, with the printed object.
#include <iomanip>
#include <map>
#include <sstream>

#include "dreal/symbolic/prefix_printer.h"
#include "dreal/symbolic/symbolic.h"
#include "ser.h"
using namespace vh;
using namespace dreal;

namespace {
std::string S(long long i) { return std::to_string(i); }

// ---------- normal forms ----------
// A sum c + sum k_i * t_i; every expression is one. Grouping, order and the places where 1 and 0 are left
// out do not matter; constants are kept exactly.
struct N { double c = 0; std::map<std::string, double> t; };
N num(double d) { N n; n.c = d; return n; }
N atom(const std::string& s) { N n; n.t[s] = 1; return n; }
std::string canon(const N& n) {
  if (n.t.size() == 1 && n.c == 0 && n.t.begin()->second == 1) return n.t.begin()->first;
  std::string s = "S{" + hexd(n.c);
  for (auto& q : n.t) s += ";" + hexd(q.second) + "*" + q.first;
  return s + "}";
}
bool literal(const N& n) { return n.t.empty(); }
N plus(N a, const N& b, double sign = 1) { a.c += sign * b.c; for (auto& q : b.t) { double& k = a.t[q.first]; k += sign * q.second; if (k == 0) a.t.erase(q.first); } return a; }
N neg(N a) { a.c = -a.c; for (auto& q : a.t) q.second = -q.second; return a; }
// A sum within a sum stays a term of its own (its constants are not combined with the outer ones).
N addend(const N& n) { return literal(n) || (n.c == 0 && n.t.size() == 1) ? n : atom(canon(n)); }
// Products: numeric factors multiply; the rest is a multiset of powers.
N prod(const std::vector<N>& v) {
  double c = 1; std::multiset<std::string> f; std::vector<N> todo = v;
  for (auto& n : todo) {
    if (literal(n)) { c *= n.c; continue; }
    if (n.c == 0 && n.t.size() == 1) {  // k * t
      c *= n.t.begin()->second;
      const std::string& s = n.t.begin()->first;
      if (s[0] == 'P') { size_t i = 2; int depth = 0; std::string cur; for (; i + 1 < s.size(); ++i) { if (s[i] == '{' || s[i] == '(') ++depth; if (s[i] == '}' || s[i] == ')') --depth; if (s[i] == '|' && depth == 0) { f.insert(cur); cur.clear(); } else cur += s[i]; } f.insert(cur); }
      else f.insert(s);
    } else f.insert(canon(n));
  }
  if (f.empty()) return num(c);
  std::string s;
  if (f.size() == 1) s = *f.begin();
  else { s = "P{"; bool first = true; for (auto& x : f) { if (!first) s += "|"; first = false; s += x; } s += "}"; }
  N n; n.t[s] = c; return n;
}
N fn(const std::string& name, const std::vector<std::string>& a) { std::string s = name + "("; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + a[i]; return atom(s + ")"); }
N quot(const N& a, const N& b) {  // -13 / y is -(13 / y)
  if (literal(a) && a.c < 0) return neg(fn("/", {canon(neg(a)), canon(b)}));
  return fn("/", {canon(a), canon(b)});
}
std::string nary(const std::string& op, const std::vector<std::string>& a) {
  std::multiset<std::string> m(a.begin(), a.end()); std::string s = op + "{"; for (auto& x : m) s += x + "&"; return s + "}";
}
std::string rel(std::string op, std::string a, std::string b) {
  if (op == ">") { op = "<"; std::swap(a, b); }
  if (op == ">=") { op = "<="; std::swap(a, b); }
  return "R{" + op + " " + a + " , " + b + "}";
}
std::string fneg(const std::string& f) {
  if (f.compare(0, 4, "R{==") == 0) return "R{!=" + f.substr(4);
  return "not{" + f + "}";
}

// ---------- the printed object ----------
std::string of(const Formula& f);
N of(const Expression& e) {
  switch (e.get_kind()) {
    case ExpressionKind::Constant: return num(get_constant_value(e));
    case ExpressionKind::RealConstant: return atom("I[" + hexd(get_lb_of_real_constant(e)) + "_" + hexd(get_ub_of_real_constant(e)) + "]");
    case ExpressionKind::NaN: return atom("NaN");
    case ExpressionKind::Var: return atom("v:" + get_variable(e).get_name());
    case ExpressionKind::Add: { N n = num(get_constant_in_addition(e)); for (const auto& q : get_expr_to_coeff_map_in_addition(e)) n = plus(n, prod({num(q.second), of(q.first)})); return n; }
    case ExpressionKind::Mul: {
      std::vector<N> v{num(get_constant_in_multiplication(e))};
      for (const auto& q : get_base_to_exponent_map_in_multiplication(e)) { bool one = is_constant(q.second) && get_constant_value(q.second) == 1; v.push_back(one ? of(q.first) : fn("pow", {canon(of(q.first)), canon(of(q.second))})); }
      return prod(v);
    }
    case ExpressionKind::Div: return quot(of(get_first_argument(e)), of(get_second_argument(e)));
    case ExpressionKind::Pow: return fn("pow", {canon(of(get_first_argument(e))), canon(of(get_second_argument(e)))});
    case ExpressionKind::Atan2: return fn("atan2", {canon(of(get_first_argument(e))), canon(of(get_second_argument(e)))});
    case ExpressionKind::Min: return fn("min", {canon(of(get_first_argument(e))), canon(of(get_second_argument(e)))});
    case ExpressionKind::Max: return fn("max", {canon(of(get_first_argument(e))), canon(of(get_second_argument(e)))});
    case ExpressionKind::Log: return fn("log", {canon(of(get_argument(e)))});
    case ExpressionKind::Abs: return fn("abs", {canon(of(get_argument(e)))});
    case ExpressionKind::Exp: return fn("exp", {canon(of(get_argument(e)))});
    case ExpressionKind::Sqrt: return fn("sqrt", {canon(of(get_argument(e)))});
    case ExpressionKind::Sin: return fn("sin", {canon(of(get_argument(e)))});
    case ExpressionKind::Cos: return fn("cos", {canon(of(get_argument(e)))});
    case ExpressionKind::Tan: return fn("tan", {canon(of(get_argument(e)))});
    case ExpressionKind::Asin: return fn("asin", {canon(of(get_argument(e)))});
    case ExpressionKind::Acos: return fn("acos", {canon(of(get_argument(e)))});
    case ExpressionKind::Atan: return fn("atan", {canon(of(get_argument(e)))});
    case ExpressionKind::Sinh: return fn("sinh", {canon(of(get_argument(e)))});
    case ExpressionKind::Cosh: return fn("cosh", {canon(of(get_argument(e)))});
    case ExpressionKind::Tanh: return fn("tanh", {canon(of(get_argument(e)))});
    case ExpressionKind::IfThenElse: return fn("ite", {of(get_conditional_formula(e)), canon(of(get_then_expression(e))), canon(of(get_else_expression(e)))});
    case ExpressionKind::UninterpretedFunction: { std::vector<std::string> a; for (auto& v : e.GetVariables()) a.push_back("v:" + v.get_name()); std::sort(a.begin(), a.end()); return fn("uf:" + get_uninterpreted_function_name(e), a); }
  }
  throw std::logic_error("kind");
}
std::string of(const Formula& f) {
  auto r = [&](const char* op) { return rel(op, canon(of(get_lhs_expression(f))), canon(of(get_rhs_expression(f)))); };
  switch (f.get_kind()) {
    case FormulaKind::True: return "T";
    case FormulaKind::False: return "F";
    case FormulaKind::Var: return "v:" + get_variable(f).get_name();
    case FormulaKind::Eq: return r("==");
    case FormulaKind::Neq: return r("!=");
    case FormulaKind::Gt: return r(">");
    case FormulaKind::Geq: return r(">=");
    case FormulaKind::Lt: return r("<");
    case FormulaKind::Leq: return r("<=");
    case FormulaKind::And: case FormulaKind::Or: { std::vector<std::string> v; for (auto& g : get_operands(f)) v.push_back(of(g)); return nary(f.get_kind() == FormulaKind::And ? "and" : "or", v); }
    case FormulaKind::Not: return fneg(of(get_operand(f)));
    case FormulaKind::Forall: { std::vector<std::string> v; for (auto& x : get_quantified_variables(f)) v.push_back("v:" + x.get_name()); return "forall" + nary("", v) + of(get_quantified_formula(f)); }
  }
  throw std::logic_error("kind");
}

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
bool number(const std::string& s, double* d) {
  if (s.empty() || !(isdigit((unsigned char)s[0]) || (s.size() > 1 && (s[0] == '-' || s[0] == '.') && (isdigit((unsigned char)s[1]) || s[1] == '.')))) return false;
  char* e; *d = strtod(s.c_str(), &e); return !*e;
}
int arity(const std::string& f) {
  static const std::map<std::string, int> m = {{"log", 1}, {"abs", 1}, {"exp", 1}, {"sqrt", 1}, {"sin", 1}, {"cos", 1}, {"tan", 1}, {"asin", 1}, {"acos", 1}, {"atan", 1}, {"sinh", 1}, {"cosh", 1}, {"tanh", 1}, {"atan2", 2}, {"min", 2}, {"max", 2}};
  auto it = m.find(f); return it == m.end() ? 0 : it->second;
}

// ---------- reader of prefix text ----------
struct Prefix {
  std::vector<std::string> tok; size_t i = 0;
  explicit Prefix(const std::string& s) {
    for (size_t k = 0; k < s.size();) {
      if (isspace((unsigned char)s[k])) { ++k; continue; }
      if (s[k] == '(' || s[k] == ')') { tok.push_back(std::string(1, s[k++])); continue; }
      if (s[k] == '|') { size_t e = s.find('|', k + 1); if (e == std::string::npos) throw Bad("open |"); tok.push_back(s.substr(k, e - k + 1)); k = e + 1; continue; }
      size_t e = k; while (e < s.size() && !isspace((unsigned char)s[e]) && s[e] != '(' && s[e] != ')') ++e;
      tok.push_back(s.substr(k, e - k)); k = e;
    }
  }
  const std::string& peek() { if (i >= tok.size()) throw Bad("text ends early"); return tok[i]; }
  std::string next() { std::string s = peek(); ++i; return s; }
  void close() { if (next() != ")") throw Bad("')' expected"); }
  std::vector<N> args() { std::vector<N> v; while (peek() != ")") v.push_back(expr()); ++i; return v; }
  N expr() {
    std::string t = next();
    if (t == ")") throw Bad("unexpected ')'");
    double d; if (t != "(") { if (number(t, &d)) return num(d); if (t == "NaN") return atom(t); return atom("v:" + t); }
    std::string op = next();
    if (op == "ite") { std::string c = form(); N a = expr(), b = expr(); close(); return fn("ite", {c, canon(a), canon(b)}); }
    std::vector<N> a = args();
    if (op == "+") { if (a.empty()) throw Bad("(+)"); if (a.size() == 1) return a[0]; N n = num(0); for (auto& x : a) n = plus(n, addend(x)); return n; }
    if (op == "-") { if (a.size() == 1) return neg(a[0]); if (a.size() == 2) return plus(addend(a[0]), addend(a[1]), -1); throw Bad("arity of -"); }
    if (op == "*") { if (a.empty()) throw Bad("(*)"); return prod(a); }
    if (op == "/" && a.size() == 2) return quot(a[0], a[1]);
    std::vector<std::string> c; for (auto& x : a) c.push_back(canon(x));
    if (op == "/" || op == "^" || op == "pow") { if (c.size() != 2) throw Bad("arity of " + op); return fn(op == "/" ? "/" : "pow", c); }
    if (!arity(op) || (int)c.size() != arity(op)) throw Bad("function " + op + " with " + S((long long)c.size()) + " arguments");
    return fn(op, c);
  }
  std::string form() {
    std::string t = next();
    if (t == "true") return "T"; if (t == "false") return "F";
    if (t == ")") throw Bad("unexpected ')'");
    if (t != "(") { double d; if (number(t, &d)) throw Bad("number as a formula"); return "v:" + t; }
    std::string op = next();
    if (op == "and" || op == "or") { std::vector<std::string> v; while (peek() != ")") v.push_back(form()); ++i; if (v.size() < 2) throw Bad("operands of " + op); return nary(op, v); }
    if (op == "not") { std::string f = form(); close(); return fneg(f); }
    if (op == "=" || op == "<" || op == ">" || op == "<=" || op == ">=") { N a = expr(), b = expr(); close(); return rel(op == "=" ? "==" : op, canon(a), canon(b)); }
    throw Bad("connective " + op);
  }
  void end() { if (i != tok.size()) throw Bad("text after the end: " + tok[i]); }
};

// ---------- reader of infix text ----------
// Sums and products with the usual precedence, function calls, "(if F then A else B)", "[lb, ub]",
// "{x, y}", "!(F)", "(A and B and ...)", "forall({x}. F)".
struct Infix {
  std::vector<std::string> tok; size_t i = 0;
  explicit Infix(const std::string& s) {
    for (size_t k = 0; k < s.size();) {
      unsigned char ch = s[k];
      if (isspace(ch)) { ++k; continue; }
      if (isdigit(ch) || (ch == '.' && k + 1 < s.size() && isdigit((unsigned char)s[k + 1]))) { char* e; strtod(s.c_str() + k, &e); size_t n = e - s.c_str(); tok.push_back(s.substr(k, n - k)); k = n; continue; }
      if (isalpha(ch) || ch == '_') { size_t e = k; while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_')) ++e; tok.push_back(s.substr(k, e - k)); k = e; continue; }
      static const char* two[] = {"==", "!=", "<=", ">="}; bool hit = false;
      for (auto t : two) if (s.compare(k, 2, t) == 0) { tok.push_back(t); k += 2; hit = true; break; }
      if (!hit) tok.push_back(std::string(1, s[k++]));
    }
  }
  bool is(const char* t) { return i < tok.size() && tok[i] == t; }
  std::string next() { if (i >= tok.size()) throw Bad("text ends early"); return tok[i++]; }
  void want(const char* t) { if (next() != t) throw Bad(std::string("'") + t + "' expected before token " + S((long long)i)); }
  std::vector<std::string> vars() { std::vector<std::string> v; want("{"); if (is("}")) { ++i; return v; } for (;;) { v.push_back("v:" + next()); if (is("}")) { ++i; return v; } want(","); } }
  N expr() {  // sum
    N n; bool sub = is("-"); if (sub) ++i;
    n = term(); if (sub || is("+") || is("-")) n = addend(n); if (sub) n = neg(n);
    while (is("+") || is("-")) { bool m = next() == "-"; n = plus(n, addend(term()), m ? -1 : 1); }
    return n;
  }
  N term() {
    std::vector<N> v{factor()};
    for (;;) {
      if (is("*")) { ++i; v.push_back(factor()); }
      else if (is("/")) { ++i; N d = factor(); N a = prod(v); v = {quot(a, d)}; }
      else return prod(v);
    }
  }
  N factor() {
    std::string t = next(); double d;
    if (t == "-") return neg(factor());
    if (t == "(") {
      if (is("if")) { ++i; std::string c = form(); want("then"); N a = expr(); want("else"); N b = expr(); want(")"); return fn("ite", {c, canon(a), canon(b)}); }
      N n = expr(); want(")"); return n;
    }
    if (t == "[") { N a = expr(); want(","); N b = expr(); want("]"); if (!literal(a) || !literal(b)) throw Bad("interval"); return atom("I[" + hexd(a.c) + "_" + hexd(b.c) + "]"); }
    if (number(t, &d)) return num(d);
    if (t == "NaN") return atom(t);
    if (!isalpha((unsigned char)t[0]) && t[0] != '_') throw Bad("unexpected " + t);
    if (!is("(")) return atom("v:" + t);
    ++i;
    if (is("{")) { auto v = vars(); want(")"); std::sort(v.begin(), v.end()); return fn("uf:" + t, v); }
    std::vector<std::string> a{canon(expr())};
    while (is(",")) { ++i; a.push_back(canon(expr())); }
    want(")");
    if (t == "pow" ? a.size() != 2 : (!arity(t) || (int)a.size() != arity(t))) throw Bad("function " + t + " with " + S((long long)a.size()) + " arguments");
    return fn(t, a);
  }
  std::string form() {
    if (is("True")) { ++i; return "T"; }
    if (is("False")) { ++i; return "F"; }
    if (is("!")) { ++i; want("("); std::string f = form(); want(")"); return fneg(f); }
    if (is("forall")) { ++i; want("("); auto v = vars(); want("."); std::string f = form(); want(")"); return "forall" + nary("", v) + f; }
    if (is("(")) {
      // a comparison or an and/or of formulas
      size_t save = i;
      try { ++i; N a = expr(); std::string op = next(); static const std::set<std::string> ops{"==", "!=", "<", ">", "<=", ">="}; if (!ops.count(op)) throw Bad("no comparison: " + op); N b = expr(); want(")"); return rel(op, canon(a), canon(b)); }
      catch (const Bad&) { i = save + 1; }
      std::vector<std::string> v{form()}; std::string op = next(); if (op != "and" && op != "or") throw Bad("connective " + op);
      v.push_back(form());
      while (is(op.c_str())) { ++i; v.push_back(form()); }
      want(")"); return nary(op, v);
    }
    return "v:" + next();
  }
  void end() { if (i != tok.size()) throw Bad("text after the end: " + tok[i]); }
};

// ---------- generation ----------
struct World {
  Rng& r; Pool p; Gen g; Builder b; std::vector<Variable> u;
  World(Rng& rr, GenOpt o) : r(rr), p(4, 3, true), g(rr, 4, 3, o), b(p, &rr), u{p.x[0], p.x[1], p.x[2]} {}
  // constants that need all their digits
  double hard() {
    switch (r.below(8)) {
      case 0: return r.uni(-10, 10);
      case 1: { uint64_t x = r.u64(); double d; memcpy(&d, &x, 8); return std::isfinite(d) ? d : 0.1; }
      case 2: return std::ldexp(r.uni(1, 2), r.range(-1074, 1023));
      case 3: return 1.0 / r.range(3, 1000);
      case 4: return std::nextafter((double)r.range(-5, 5), r.chance(0.5) ? 1e9 : -1e9);
      case 5: { static const double v[] = {1e16, 1e17, 123456789012345678.0, 1e22, 1e-5, 1e-4, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 999999.5, 1e6, 1234567}; double x = v[r.below(14)]; return r.chance(0.5) ? x : -x; }
      case 6: return (double)(int64_t)(r.u64() >> 11) * (r.chance(0.5) ? 1 : -1);
      default: return r.range(-20, 20);
    }
  }
  Expression leaf() { return r.chance(0.5) ? Expression(r.pick(p.x)) : Expression(hard()); }
  Expression e(int d, bool intervals, bool ufs) {
    for (;;) try {
      Expression x = r.chance(0.5) ? b(g.expr(d)) : leaf();
      int n = r.below(4);
      for (int i = 0; i < n; ++i) switch (r.below(intervals || ufs ? 11 : 9)) {
        case 0: x = x * hard() + leaf(); break;
        case 1: x = hard() - x; break;
        case 2: x = x + hard() * Expression(r.pick(p.x)) - hard() * Expression(r.pick(p.x)); break;
        case 3: x = pow(x, Expression(r.chance(0.5) ? (double)r.range(-3, 4) : hard())); break;
        case 4: x = x * pow(r.pick(p.x), leaf()) * hard(); break;
        case 5: x = -x; break;
        case 6: x = x / leaf(); break;
        case 7: x = if_then_else(b(g.form(1, 1)), x, leaf()); break;
        case 8: x = max(x, leaf()) * leaf(); break;
        case 9: if (intervals) { double l = hard(); double h = std::nextafter(l, INFINITY); if (std::isfinite(h)) { Expression q = real_constant(l, h, r.chance(0.5)); x = r.chance(0.5) ? x + q : x * q; } } break;
        default: if (ufs) { Variables vs; int k = r.below(3); for (int q = 0; q < k; ++q) vs += u[q]; x = x + uninterpreted_function("foo", vs) * leaf(); } break;
      }
      if (finite(x)) return x;
    } catch (const std::exception&) { }
  }
  Formula f(int d, bool intervals, bool ufs, bool quant) {
    for (;;) try {
      Formula x = b(g.form(d, 2));
      int n = r.below(3);
      for (int i = 0; i < n; ++i) {
        Expression a = e(1, intervals, ufs), c = e(1, intervals, ufs);
        Formula y = Formula::True();
        switch (r.below(6)) { case 0: y = a < c; break; case 1: y = a <= c; break; case 2: y = a == c; break; case 3: y = a != c; break; case 4: y = a > c; break; default: y = a >= c; }
        if (quant && r.chance(0.4)) { Variables q; q.insert(r.pick(p.x)); if (r.chance(0.4)) q.insert(r.pick(p.x)); y = forall(q, y || b(g.form(1, 1))); }
        switch (r.below(4)) { case 0: x = x && y; break; case 1: x = x || !y; break; case 2: x = !(x && y); break; default: x = y; }
      }
      if (finite(x)) return x;
    } catch (const std::exception&) { }
  }
  template <class T> static bool finite(const T& x) { std::string s = ser(x); return s.find("inf") == std::string::npos && s.find("nan") == std::string::npos && s.find("NaN") == std::string::npos; }
};
// A stream with some formatting state.
struct State { std::ios_base::fmtflags fl; std::streamsize p, w; char fill; };
State state(std::ostream& o) { return {o.flags(), o.precision(), o.width(), o.fill()}; }
std::string differs(const State& a, const State& b) { if (a.fl != b.fl) return "flags"; if (a.p != b.p) return "precision " + S(a.p) + " to " + S(b.p); if (a.fill != b.fill) return "fill"; if (a.w != b.w) return "width"; return ""; }
void dress(Rng& r, std::ostream& o, bool all) {
  if (r.chance(0.7)) o.precision(r.range(0, 25));
  if (all) { if (r.chance(0.2)) o << std::fixed; if (r.chance(0.2)) o << std::scientific; if (r.chance(0.1)) o << std::hexfloat; if (r.chance(0.2)) o << std::showpos; if (r.chance(0.1)) o << std::uppercase; if (r.chance(0.1)) o << std::showpoint; }
  if (r.chance(0.2)) o.fill('*');
}
std::string canonical(const Expression& e) { return canon(of(e)); }
std::string canonical(const Formula& f) { return of(f); }
template <class Reader> std::string read(const Expression&, const std::string& t) { Reader q(t); std::string s = canon(q.expr()); q.end(); return s; }
template <class Reader> std::string read(const Formula&, const std::string& t) { Reader q(t); std::string s = q.form(); q.end(); return s; }
template <class Reader, class T> void compare(Ctx& c, const char* what, const T& x, const std::string& text) {
  c.eval();
  std::string got, want = canonical(x);
  try { got = read<Reader>(x, text); } catch (const Bad& b) { c.violation(std::string(what) + "-unreadable", cut(text) + " cannot be read: " + b.what()); return; }
  if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; i = i > 20 ? i - 20 : 0; c.violation(std::string(what) + "-meaning", "the text " + cut(text, 500) + " denotes ..." + cut(got.substr(i), 120) + " instead of ..." + cut(want.substr(i), 120)); }
}

bool printable(const Expression& e); bool printable(const Formula& f);
template <class T> void prefix_one(Ctx& c, Rng& r, const T& x, bool unsupported) {
  std::string before = ser(x);
  std::string text; bool refused = false;
  try { text = ToPrefix(x); } catch (const std::runtime_error&) { refused = true; }
  if (refused) { c.count("refused"); if (!unsupported) c.violation("prefix-refused", cut(x.to_string())); }
  else { compare<Prefix>(c, "prefix", x, text); c.count("texts"); }
  // into a stream that is in use
  std::ostringstream os; dress(r, os, false); os << "<";
  State s0 = state(os);
  try { PrefixPrinter pp(os); pp.Print(x); if (r.chance(0.3)) pp.Print(x); else if (r.chance(0.3)) { PrefixPrinter inner(os); inner.Print(x); } } catch (const std::runtime_error&) { }
  c.eval(2);
  std::string d = differs(s0, state(os)); if (!d.empty()) c.violation("prefix-stream-state", "printing " + cut(x.to_string(), 200) + " changed the " + d);
  if (!refused && os.str().compare(0, text.size() + 1, "<" + text) != 0) c.violation("prefix-stream-text", cut(os.str()) + " instead of " + cut(text));
  os << 0.1; std::ostringstream ref; ref.copyfmt(os); ref << 0.1; std::string t = os.str(), e = ref.str(); if (t.size() < e.size() || t.substr(t.size() - e.size()) != e) c.violation("prefix-later-output", t);
  if (ser(x) != before) c.violation("prefix-changed-object", before);
}
void c14(Ctx& c) {
  Rng r = c.rng(); GenOpt o; o.forall = false; World w(r, o);
  bool odd = r.chance(0.1);  // constructs without prefix form
  for (int i = 0; i < 3; ++i) {
    if (r.chance(0.6)) {
      Expression e = w.e(r.below(4), false, odd); c.note(cut(e.to_string(), 1500));
      prefix_one(c, r, e, odd); c.nontrivial(ser(e));
    } else {
      Formula f = w.f(r.below(3), false, odd, odd); c.note(cut(f.to_string(), 1500));
      prefix_one(c, r, f, odd); c.nontrivial(ser(f));
    }
  }
  // interval constants print as one of their values
  double l = w.hard(), h = std::nextafter(l, INFINITY);
  if (std::isfinite(h)) {
    Expression q = real_constant(l, h, r.chance(0.5)); c.eval(); c.count("interval_constants");
    try { Prefix p(ToPrefix(q)); N n = p.expr(); p.end(); if (!literal(n) || !(l <= n.c && n.c <= h)) c.violation("prefix-interval", "[" + dstr(l) + "," + dstr(h) + "] prints as " + ToPrefix(q)); } catch (const Bad& b) { c.violation("prefix-interval", ToPrefix(q)); }
  }
  double d = w.hard();
  compare<Prefix>(c, "prefix-constant", Expression(d), ToPrefix(Expression(d)));
}
template <class T> void infix_one(Ctx& c, Rng& r, const T& x, const Variables& vs) {
  std::string before = ser(x), text = x.to_string();
  compare<Infix>(c, "infix", x, text); c.count("texts");
  // the names in the text are exactly the names of the variables
  { Infix q(text); std::set<std::string> names, want; static const std::set<std::string> words{"if", "then", "else", "and", "or", "True", "False", "forall", "pow", "NaN", "foo", "e"};
    for (auto& t : q.tok) if ((isalpha((unsigned char)t[0]) || t[0] == '_') && !words.count(t) && !arity(t)) names.insert(t);
    for (auto& v : vs) want.insert(v.get_name());
    c.eval();
    for (auto& n : want) if (!names.count(n)) c.violation("infix-names", "the text " + cut(text, 400) + " does not name " + n); }
  std::ostringstream os; dress(r, os, true); os << "<";
  State s0 = state(os);
  std::ostream& ret = os << x; if (&ret != &os) c.violation("infix-stream", "operator<< returns another stream");
  c.eval(3);
  std::string d = differs(s0, state(os)); if (!d.empty()) c.violation("infix-stream-state", "printing " + cut(text, 300) + " changed the stream's " + d);
  if (os.str() != "<" + text) c.violation("infix-agree", "printed to a stream in use: " + cut(os.str(), 300) + ", to_string: " + cut(text, 300));
  if (x.to_string() != text) c.violation("infix-deterministic", cut(text));
  if (ser(x) != before) c.violation("infix-changed-object", before);
}
void c15(Ctx& c) {
  Rng r = c.rng(); GenOpt o; World w(r, o);
  for (int i = 0; i < 3; ++i) {
    if (r.chance(0.6)) {
      Expression e = w.e(r.below(4), true, true); c.note(cut(ser(e), 1500));
      infix_one(c, r, e, e.GetVariables()); c.nontrivial(ser(e));
    } else {
      Formula f = w.f(r.below(3), true, true, true); c.note(cut(ser(f), 1500));
      Variables vs = f.GetFreeVariables();
      infix_one(c, r, f, vs); c.nontrivial(ser(f));
    }
  }
}
}  // namespace

int main(int argc, char** argv) { return run_main(argc, argv, {{"C14", c14}, {"C15", c15}}); }
