// C28 (sorts, logics), C29 (terms), C30 (commands): the data types of the SMT-LIB front end.
#include <functional>
#include <memory>
#include <sstream>

#include "dreal/smt2/command.h"
#include "dreal/smt2/command_cell.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"
#include "ser.h"
using namespace vh;
using namespace dreal;

namespace {
std::string S(long long i) { return std::to_string(i); }
template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }

// ---------------- C28 ----------------
struct Name { const char* n; int v; };
const std::vector<Name>& logics() {
  static const std::vector<Name> v = {{"ALL", (int)Logic::ALL}, {"QF_LIA", (int)Logic::QF_LIA}, {"QF_LIRA", (int)Logic::QF_LIRA}, {"QF_LRA", (int)Logic::QF_LRA}, {"QF_NIA", (int)Logic::QF_NIA}, {"QF_NIAT", (int)Logic::QF_NIAT}, {"QF_NIRA", (int)Logic::QF_NIRA},
    {"QF_NIRAT", (int)Logic::QF_NIRAT}, {"QF_NRA", (int)Logic::QF_NRA}, {"QF_NRAT", (int)Logic::QF_NRAT}, {"QF_RDL", (int)Logic::QF_RDL}};
  return v;
}
const std::vector<Name>& sorts() {
  static const std::vector<Name> v = {{"Real", (int)Sort::Real}, {"Int", (int)Sort::Int}, {"Bool", (int)Sort::Bool}, {"Binary", (int)Sort::Binary}};
  return v;
}
Variable::Type meaning(Sort s) {
  switch (s) {
    case Sort::Bool: return Variable::Type::BOOLEAN;
    case Sort::Int: return Variable::Type::INTEGER;
    case Sort::Binary: return Variable::Type::BINARY;
    default: return Variable::Type::CONTINUOUS;
  }
}
// A name: valid, or one edit away from valid, or unrelated.
std::string name(Rng& r, const std::vector<Name>& t) {
  std::string s = t[r.below((int)t.size())].n;
  int edits = r.below(4) ? r.below(3) : 0;
  for (int i = 0; i < edits; ++i) {
    int p = s.empty() ? 0 : r.below((int)s.size());
    switch (r.below(9)) {
      case 0: if (!s.empty()) s.erase(p, 1); break;
      case 1: s.insert(p, 1, "AQFLNIRTDBo_ 1\0"[r.below(15)]); break;
      case 2: if (!s.empty()) s[p] ^= 0x20; break;
      case 3: s += s; break;
      case 4: s = s.substr(0, p); break;
      case 5: s = s.substr(p); break;
      case 6: s += "T"; break;
      case 7: s = " " + s; break;
      default: { static const char* o[] = {"", "QF_UF", "UF", "LRA", "HORN", "QF_BV", "Reals", "Array", "BitVec", "real", "INT", "ALL_SUPPORTED", "QF_NRA_ODE", "QF_IDL", "Boolean", "Integer"}; s = o[r.below(16)]; }
    }
  }
  return s;
}
template <class F, class P>
void one(Ctx& c, const std::string& s, const std::vector<Name>& t, const char* what, F parse, P print) {
  const Name* want = nullptr; for (auto& n : t) if (s == n.n) want = &n;
  c.eval();
  c.count(std::string(what) + (want ? "_valid" : "_invalid"));
  int got = -1; bool refused = false;
  try { got = parse(s); } catch (const std::runtime_error& e) {
    refused = true;
    if (!s.empty() && std::string(e.what()).find(s.c_str()) == std::string::npos) c.violation(std::string(what) + "-message", "the error for '" + s + "' does not name it: " + e.what());
  }
  if (refused != !want) { c.violation(std::string(what) + "-accept", std::string(what) + " '" + s + "' is " + (refused ? "refused" : "accepted as " + print(got))); return; }
  if (want) {
    if (got != want->v) c.violation(std::string(what) + "-value", "'" + s + "' parses to " + print(got));
    if (print(got) != s) c.violation(std::string(what) + "-print", "'" + s + "' prints as '" + print(got) + "'");
  }
}
void c28(Ctx& c) {
  Rng r = c.rng();
  std::string all;
  for (int i = 0; i < 8; ++i) {
    bool lg = r.chance(0.6);
    std::string s = name(r, lg ? logics() : r.chance(0.9) ? sorts() : logics());
    c.note(s); all += s + "|";
    if (lg) one(c, s, logics(), "logic", [](const std::string& x) { return (int)parse_logic(x); }, [](int v) { return str(static_cast<Logic>(v)); });
    else one(c, s, sorts(), "sort", [](const std::string& x) { return (int)ParseSort(x); }, [](int v) { return str(static_cast<Sort>(v)); });
  }
  for (auto& n : sorts()) { c.eval(); if (SortToType(static_cast<Sort>(n.v)) != meaning(static_cast<Sort>(n.v))) c.violation("sort-type", std::string(n.n) + " maps to the type " + str(SortToType(static_cast<Sort>(n.v)))); }
  for (auto& n : logics()) { c.eval(); if (str(static_cast<Logic>(n.v)) != n.n) c.violation("logic-print", std::string(n.n) + " prints as " + str(static_cast<Logic>(n.v))); }
  for (auto& n : sorts()) { c.eval(); if (str(static_cast<Sort>(n.v)) != n.n) c.violation("sort-print", std::string(n.n) + " prints as " + str(static_cast<Sort>(n.v))); }
  c.nontrivial(all);
}

// ---------------- C29 ----------------
struct World {
  Rng& r; Pool p; Gen g; Builder b;
  std::vector<Variable> vars;
  explicit World(Rng& rr) : r(rr), p(3, 3, true), g(rr, 3, 3, opt()), b(p, &rr) {
    vars = p.x; vars.insert(vars.end(), p.b.begin(), p.b.end());
    vars.emplace_back("k", Variable::Type::BINARY);
  }
  static GenOpt opt() { GenOpt o; o.domain = false; o.div = false; o.symexp = false; return o; }
  Expression e() { for (;;) try { Expression x = b(g.expr(r.below(4))); if (r.chance(0.2)) x += vars.back(); return x; } catch (const std::exception&) { } }
  Formula f() { for (;;) try { Formula x = b(g.form(r.below(3), 2)); if (r.chance(0.2)) x = x && vars.back() > 0; return x; } catch (const std::exception&) { } }
};
bool boolean(const Variable& v) { return v.get_type() == Variable::Type::BOOLEAN; }

struct M { bool isf, dead; Expression e; Formula f; };  // model of a term: what it holds
void c29(Ctx& c) {
  Rng r = c.rng(); World w(r);
  std::vector<Term> t(4); std::vector<M> m(4, M{true, false, Expression{}, Formula::False()});
  std::string log;
  auto tail = [&] { return cut(log.size() > 500 ? "..." + log.substr(log.size() - 500) : log, 600); };
  auto throws = [&](auto fn) { try { fn(); } catch (const std::runtime_error&) { return true; } return false; };
  auto check = [&](int i) {
    const M& x = m[i]; if (x.dead) return;
    const Term& y = t[i];
    c.eval(4);
    if ((y.type() == Term::Type::FORMULA) != x.isf) { c.violation("kind", "t" + S(i) + " has the wrong kind after" + tail()); return; }
    if (x.isf) {
      if (!throws([&] { y.expression(); })) c.violation("expression-of-formula", "t" + S(i) + " holds a formula but expression() returned, after" + tail());
      if (ser(y.formula()) != ser(x.f)) c.violation("content", "t" + S(i) + " holds " + cut(y.formula().to_string(), 200) + " instead of " + cut(x.f.to_string(), 200) + " after" + tail());
      if (str(y) != x.f.to_string()) c.violation("print", "t" + S(i) + " prints as " + cut(str(y), 200) + " after" + tail());
    } else {
      if (!throws([&] { y.formula(); })) c.violation("formula-of-expression", "t" + S(i) + " holds an expression but formula() returned, after" + tail());
      if (ser(y.expression()) != ser(x.e)) c.violation("content", "t" + S(i) + " holds " + cut(y.expression().to_string(), 200) + " instead of " + cut(x.e.to_string(), 200) + " after" + tail());
      if (str(y) != x.e.to_string()) c.violation("print", "t" + S(i) + " prints as " + cut(str(y), 200) + " after" + tail());
    }
  };
  int n = r.range(3, 25);
  for (int s = 0; s < n; ++s) {
    int i = r.below(4), j = r.below(4);
    if (m[j].dead) j = i;
    std::string op;
    int k = r.below(14);
    if (m[i].dead && k != 0 && k != 1 && k != 2 && k != 3 && k != 4) k = r.below(5);
    switch (k) {
      case 0: { Expression e = w.e(); op = "=" + cut(e.to_string(), 60); if (r.chance(0.5)) t[i] = e; else t[i] = Term{e}; m[i] = M{false, false, e, Formula::False()}; break; }
      case 1: { Formula f = w.f(); op = "=" + cut(f.to_string(), 60); if (r.chance(0.5)) t[i] = f; else t[i] = Term{f}; m[i] = M{true, false, Expression{}, f}; break; }
      case 2: if (m[j].dead) continue; op = "=t" + S(j); t[i] = t[j]; m[i] = m[j]; break;
      case 3: if (m[j].dead || i == j) continue; op = "=move t" + S(j); t[i] = std::move(t[j]); m[i] = m[j]; m[j].dead = true; break;
      case 4: if (m[j].dead) continue; op = "=copy-construct t" + S(j); { Term u{t[j]}; t[i] = std::move(u); } m[i] = m[j]; break;
      case 5: {  // mutable access
        op = "mutable";
        if (m[i].isf) { Formula f = w.f(); if (r.chance(0.5)) { t[i].mutable_formula() = f; m[i].f = f; } else { t[i].mutable_formula() = t[i].formula() && f; m[i].f = m[i].f && f; } if (!throws([&] { t[i].mutable_expression(); })) c.violation("mutable_expression-of-formula", tail()); }
        else { Expression e = w.e(); t[i].mutable_expression() += e; m[i].e += e; if (!throws([&] { t[i].mutable_formula(); })) c.violation("mutable_formula-of-expression", tail()); }
        break;
      }
      case 6: op = "=own content"; if (m[i].isf) t[i] = t[i].formula(); else t[i] = t[i].expression(); break;
      case 7: {  // sort checks
        for (Sort so : {Sort::Bool, Sort::Int, Sort::Real, Sort::Binary}) { c.eval(); bool th = throws([&] { t[i].Check(so); }); if (th != ((so == Sort::Bool) != m[i].isf)) c.violation("check-sort", "checking t" + S(i) + " (" + (m[i].isf ? "formula" : "expression") + ") against " + str(so) + (th ? " fails" : " succeeds")); }
        for (auto ty : {Variable::Type::BOOLEAN, Variable::Type::INTEGER, Variable::Type::CONTINUOUS, Variable::Type::BINARY}) { c.eval(); bool th = throws([&] { t[i].Check(ty); }); if (th != ((ty == Variable::Type::BOOLEAN) != m[i].isf)) c.violation("check-type", "checking t" + S(i) + " (" + (m[i].isf ? "formula" : "expression") + ") against " + str(ty) + (th ? " fails" : " succeeds")); }
        continue;
      }
      default: {  // substitution
        const Variable& v = r.pick(w.vars);
        op = ".Substitute(" + v.get_name() + ",t" + S(j) + ")";
        c.note(tail() + " t" + S(i) + op);
        M want; bool other = false; want.dead = false; want.isf = m[i].isf;
        bool clash = boolean(v) != m[j].isf;
        if (!clash) try {
          if (m[i].isf) want.f = boolean(v) ? m[i].f.Substitute(v, m[j].f) : m[i].f.Substitute(v, m[j].e);
          else want.e = boolean(v) ? m[i].e.Substitute(ExpressionSubstitution{}, FormulaSubstitution{{v, m[j].f}}) : m[i].e.Substitute(v, m[j].e);
        } catch (const std::exception&) { other = true; }
        c.eval();
        try {
          Term res = t[i].Substitute(v, t[j]);
          if (clash) { c.violation("substitute-kind", "substituting t" + S(j) + " (" + (m[j].isf ? "a formula" : "an expression") + ") for the variable " + v.get_name() + " of type " + str(v.get_type()) + " in t" + S(i) + " gives " + cut(str(res), 200)); return; }
          if (other) continue;
          int d = r.below(4); t[d] = std::move(res); m[d] = want; op += "->t" + S(d);
          c.count("substitutions");
        } catch (const std::runtime_error& e) { if (clash) { c.count("refused_substitutions"); continue; } if (!other) { c.violation("substitute-throws", "substituting for " + v.get_name() + " in t" + S(i) + " throws " + e.what() + " after" + tail()); return; } }
      }
    }
    log += " t" + S(i) + op + ";";
    c.note(tail());
    for (int q = 0; q < 4; ++q) check(q);
  }
  c.nontrivial(log);
}

// ---------------- C30 ----------------
std::string word(Rng& r) {
  static const char* w[] = {":status", ":precision", ":produce-models", "sat", "unsat", "true", "false", "0.001", "\"a b\"", "|x y|", "2.0", ":smt-lib-version", "", "()", "\"with \\\" quote\"", "{}", "%s", "\n"};
  if (r.chance(0.6)) return w[r.below(18)];
  std::string s; int n = r.below(40); for (int i = 0; i < n; ++i) s += (char)r.range(32, 126); return s;
}
int number(Rng& r) { static const int v[] = {0, 1, 2, -1, 9, 10, 255, 65536, 2147483647, -2147483647 - 1}; return r.chance(0.5) ? v[r.below(10)] : (int)r.u64(); }
void c30(Ctx& c) {
  Rng r = c.rng(); World w(r);
  struct C { Command c; std::function<std::string(std::ostream&)> want; std::string what; };
  std::vector<C> v;
  std::string log;
  auto fixed = [](const std::string& s) { return [s](std::ostream&) { return s; }; };
  int n = r.range(2, 8);
  for (int i = 0; i < n; ++i) {
    switch (r.below(20)) {
      case 0: case 1: case 2: case 3: {
        Formula f = w.f();
        bool cell = r.chance(0.3);
        Command cmd = cell ? Command{std::make_shared<AssertCommand>(f)} : assert_command(f);
        auto want = [f](std::ostream& like) { std::ostringstream o; o.copyfmt(like); o << f; return "(assert " + o.str() + ")"; };
        if (cell) { AssertCommand a(f); c.eval(); if (ser(a.get_assertion()) != ser(f)) c.violation("assertion", f.to_string()); }
        f = w.f();  // the caller's formula changes afterwards
        v.push_back({cmd, want, "assert"}); break;
      }
      case 4: { int k = number(r); PushCommand p(k); if (p.get_level() != k) c.violation("push-level", S(k)); v.push_back({push_command(k), fixed("(push " + S(k) + ")"), "push"}); break; }
      case 5: { int k = number(r); PopCommand p(k); if (p.get_level() != k) c.violation("pop-level", S(k)); v.push_back({pop_command(k), fixed("(pop " + S(k) + ")"), "pop"}); break; }
      case 6: { std::string a = word(r), b = word(r); SetInfoCommand s(a, b); if (s.get_key() != a || s.get_value() != b) c.violation("set-info", a + " " + b); v.push_back({set_info_command(a, b), fixed("(set-info " + a + " " + b + ")"), "set-info"}); break; }
      case 7: case 8: { std::string a = word(r), b = word(r); v.push_back({set_option_command(a, b), fixed("(set-option " + a + " " + b + ")"), "set-option"}); a = b = "changed"; break; }
      case 9: case 10: { const Name& q = logics()[r.below((int)logics().size())]; SetLogicCommand s(static_cast<Logic>(q.v)); if ((int)s.get_logic() != q.v) c.violation("set-logic", q.n); v.push_back({set_logic_command(static_cast<Logic>(q.v)), fixed(std::string("(set-logic ") + q.n + ")"), "set-logic"}); break; }
      case 11: v.push_back({check_sat_command(), fixed("(check-sat)"), "check-sat"}); break;
      case 12: v.push_back({exit_command(), fixed("(exit)"), "exit"}); break;
      case 13: v.push_back({reset_command(), fixed("(reset)"), "reset"}); break;
      case 14: { std::string a = word(r); EchoCommand e(a); if (e.get_message() != a) c.violation("echo", a); v.push_back({Command{std::make_shared<EchoCommand>(a)}, fixed("(echo " + a + ")"), "echo"}); break; }
      case 15: { std::string a = word(r); GetOptionCommand e(a); if (e.get_key() != a) c.violation("get-option", a); v.push_back({Command{std::make_shared<GetOptionCommand>(a)}, fixed("(get-option " + a + ")"), "get-option"}); break; }
      case 16: v.push_back({Command{std::make_shared<GetAssertionsCommand>()}, fixed("(get-assertions)"), "get-assertions"}); break;
      case 17: v.push_back({Command{std::make_shared<GetModelCommand>()}, fixed("(get-model)"), "get-model"}); break;
      case 18: switch (r.below(3)) { case 0: v.push_back({Command{std::make_shared<GetProofCommand>()}, fixed("(get-proof)"), "get-proof"}); break; case 1: v.push_back({Command{std::make_shared<GetUnsatAssumptionsCommand>()}, fixed("(get-unsat-assumptions)"), "get-unsat-assumptions"}); break; default: v.push_back({Command{std::make_shared<GetUnsatCoreCommand>()}, fixed("(get-unsat-core)"), "get-unsat-core"}); } break;
      default: v.push_back({Command{std::make_shared<ResetAssertionsCommand>()}, fixed("(reset-assertions)"), "reset-assertions"});
    }
    log += v.back().what + " ";
    c.count("kind_" + v.back().what);
    if (r.chance(0.3)) { int a = r.below((int)v.size()), b = r.below((int)v.size()); v[a] = v[b]; }  // copies
  }
  // one stream for all, sometimes with formatting left over by the user
  std::ostringstream os;
  if (r.chance(0.2)) os.precision(r.range(1, 20));
  std::string want;
  for (int round = 0; round < 2; ++round)
    for (auto& x : v) {
      std::string one = x.want(os);
      c.note(log + x.what);
      size_t at = os.str().size();
      c.eval();
      std::ostream& ret = os << x.c;
      if (&ret != &os) c.violation("stream", "operator<< returns another stream");
      std::string got = os.str().substr(at);
      if (got != one) c.violation("text-" + x.what, "a " + x.what + " command prints as '" + cut(got, 300) + "' instead of '" + cut(one, 300) + "'");
      os << "\n"; want += one;
      // parentheses and the command word can be read back
      if (got.size() < 2 || got[0] != '(' || got.back() != ')' || got.compare(1, x.what.size(), x.what)) c.violation("shape-" + x.what, got);
    }
  c.nontrivial(want);
}
}  // namespace

int main(int argc, char** argv) { return run_main(argc, argv, {{"C28", c28}, {"C29", c29}, {"C30", c30}}); }
