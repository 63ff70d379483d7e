// C38: the propositional layer.
#include "dreal/solver/config.h"
#include "dreal/solver/sat_solver.h"

#include "ser.h"
#include "sym.h"

using namespace vh;
using namespace dreal;
namespace dsym = dreal::drake::symbolic;

namespace {
// skeleton formula over atoms 0..n-1
struct S { enum K { At, Not, And, Or, Imp, Iff, Xor } k; int a = 0; std::vector<std::shared_ptr<S>> o; };
using SP = std::shared_ptr<S>;
bool ev(const SP& s, uint32_t m) {
  switch (s->k) {
    case S::At: return m >> s->a & 1;
    case S::Not: return !ev(s->o[0], m);
    case S::And: for (auto& x : s->o) if (!ev(x, m)) return false; return true;
    case S::Or: for (auto& x : s->o) if (ev(x, m)) return true; return false;
    case S::Imp: return !ev(s->o[0], m) || ev(s->o[1], m);
    case S::Iff: return ev(s->o[0], m) == ev(s->o[1], m);
    default: return ev(s->o[0], m) != ev(s->o[1], m);
  }
}
void atoms_of(const SP& s, uint32_t* m) { if (s->k == S::At) *m |= 1u << s->a; for (auto& x : s->o) atoms_of(x, m); }
std::string show(const SP& s) {
  static const char* n[] = {"", "not", "and", "or", "=>", "iff", "xor"};
  if (s->k == S::At) return "a" + std::to_string(s->a);
  std::string t = std::string("(") + n[s->k];
  for (auto& x : s->o) t += " " + show(x);
  return t + ")";
}
SP at(int a) { auto s = std::make_shared<S>(); s->k = S::At; s->a = a; return s; }
SP gen(Rng& r, int n, int depth) {
  if (depth == 0 || r.chance(0.15)) { SP s = at(r.below(n)); if (r.chance(0.4)) { auto t = std::make_shared<S>(); t->k = S::Not; t->o = {s}; return t; } return s; }
  auto s = std::make_shared<S>();
  const int w = r.below(10);
  s->k = w < 3 ? S::And : w < 6 ? S::Or : w < 7 ? S::Not : w < 8 ? S::Imp : w < 9 ? S::Iff : S::Xor;
  const int m = s->k == S::Not ? 1 : s->k == S::And || s->k == S::Or ? r.range(2, 4) : 2;
  for (int i = 0; i < m; ++i) s->o.push_back(gen(r, n, depth - 1));
  return s;
}
}  // namespace

static void c38(Ctx& c) {
  Rng r = c.rng();
  const int nb = r.range(0, 4), nt = r.range(nb ? 0 : 2, 5), n = nb + nt;
  Pool p(3, nb, r.chance(0.3) ? r.range(1, 3) : 0);
  // theory atoms: distinct relations, each used with either polarity and orientation of its normal form
  std::vector<Formula> pos, neg;                  // two spellings of the atom and of its negation
  std::vector<Formula> pos2, neg2;
  std::vector<bool> boolean;
  std::set<std::string> keys;
  std::map<std::string, std::pair<int, bool>> lookup;  // text of a literal -> atom, polarity
  for (int i = 0; i < nb; ++i) {
    pos.push_back(Formula(p.b[i])); neg.push_back(!Formula(p.b[i])); pos2.push_back(pos.back()); neg2.push_back(neg.back());
  }
  const bool quant = r.chance(0.2);
  static const char qkey[] = "the quantified atom";   // its body is rearranged, there is only one
  for (int i = 0; i < nt; ++i) {
    for (;;) {
      const Variable& v = p.x[r.below(3)];
      Expression lhs = r.chance(0.5) ? Expression(v) : r.chance(0.5) ? sin(Expression(v)) : Expression(v) * p.x[r.below(3)];
      Expression rhs = r.range(-2, 3);
      Formula a = lhs == rhs, b = lhs != rhs;
      switch (r.below(3)) { case 0: break; case 1: a = lhs <= rhs; b = lhs > rhs; break; default: a = lhs < rhs; b = lhs >= rhs; break; }
      if (quant && i == 0) { const Variable q("q", Variable::Type::CONTINUOUS); a = forall({q}, q * q >= lhs || (q <= rhs)); b = !a; }
      if (!keys.insert(ser(a)).second) continue;
      pos.push_back(a); neg.push_back(b); pos2.push_back(!b); neg2.push_back(!a);
      if (quant && i == 0) lookup[qkey] = {nb, true};
      lookup[ser(a)] = {nb + i, true}; lookup[ser(b)] = {nb + i, false};
      lookup[ser(!a)] = {nb + i, false}; lookup[ser(!b)] = {nb + i, true};
      break;
    }
  }
  auto lit = [&](int a, bool v) { return v ? (r.chance(0.5) ? pos[a] : pos2[a]) : (r.chance(0.5) ? neg[a] : neg2[a]); };
  std::function<Formula(const SP&)> build = [&](const SP& s) -> Formula {
    switch (s->k) {
      case S::At: return lit(s->a, true);
      case S::Not: if (s->o[0]->k == S::At && r.chance(0.7)) return lit(s->o[0]->a, false); return !build(s->o[0]);
      case S::And: { Formula f = build(s->o[0]); for (size_t i = 1; i < s->o.size(); ++i) f = f && build(s->o[i]); return f; }
      case S::Or: { Formula f = build(s->o[0]); for (size_t i = 1; i < s->o.size(); ++i) f = f || build(s->o[i]); return f; }
      case S::Imp: return imply(build(s->o[0]), build(s->o[1]));
      case S::Iff: return iff(build(s->o[0]), build(s->o[1]));
      default: return !iff(build(s->o[0]), build(s->o[1]));
    }
  };
  Config config;
  static const Config::SatDefaultPhase ph[] = {Config::SatDefaultPhase::False, Config::SatDefaultPhase::True, Config::SatDefaultPhase::JeroslowWang, Config::SatDefaultPhase::RandomInitialPhase};
  config.mutable_sat_default_phase() = ph[r.below(4)];
  config.mutable_random_seed() = (uint32_t)r.u64();
  SatSolver solver(config);
  std::vector<std::vector<SP>> frames(1);
  std::string log;
  const int ops = r.range(2, 16);
  bool popped = false;
  for (int i = 0; i < ops; ++i) {
    const double u = r.unit();
    if (u < 0.35 || i == 0) {
      SP s = gen(r, n, r.range(0, 3));
      Formula f = build(s);
      if (is_true(f) || is_false(f)) continue;
      log += " assert" + show(s);
      c.note(log);
      if (r.chance(0.3)) solver.AddFormulas({f}); else solver.AddFormula(f);
      frames.back().push_back(s);
    } else if (u < 0.45) {
      log += " push"; solver.Push(); frames.emplace_back();
    } else if (u < 0.55) {
      if (frames.size() == 1) continue;
      log += " pop"; c.note(log); solver.Pop(); frames.pop_back(); popped = true;
    } else {
      uint32_t used = 0;
      for (auto& f : frames) for (auto& s : f) atoms_of(s, &used);
      std::vector<uint32_t> models;
      for (uint32_t m = 0; m < 1u << n; ++m) { bool ok = true; for (auto& f : frames) for (auto& s : f) ok = ok && ev(s, m); if (ok) models.push_back(m); }
      log += " check";
      c.note(log);
      // enumerate: each model found is excluded by a learned clause, until unsat or enough
      int rounds = r.chance(0.3) ? 40 : r.range(1, 3);
      for (int k = 0; k < rounds; ++k) {
        auto res = solver.CheckSat();
        c.eval();
        if (!!res != !models.empty()) { c.violation("sat:answer", log + ": the solver says " + (res ? "sat" : "unsat") + ", the skeleton has " + std::to_string(models.size()) + " models"); return; }
        if (!res) { c.count("unsat answers"); break; }
        c.count("sat answers");
        uint32_t mask = 0, val = 0;
        std::set<Formula> lits;
        std::vector<std::pair<int, bool>> learned;
        for (auto& q : res->first) {
          auto it = p.bi.find(q.first.get_id());
          if (it == p.bi.end()) { c.violation("sat:foreign", log + ": the model lists " + q.first.get_name()); return; }
          if (mask >> it->second & 1) c.violation("sat:twice", log + ": the model lists " + q.first.get_name() + " twice");
          mask |= 1u << it->second; val |= (uint32_t)q.second << it->second;
        }
        for (auto& q : res->second) {
          Formula f = solver.theory_literal(q.first);
          auto it = lookup.find(dsym::is_forall(f) ? std::string(qkey) : ser(f));
          if (it == lookup.end()) { c.violation("sat:foreign", log + ": the model lists " + f.to_string()); return; }
          const int a = it->second.first;
          const bool v = q.second == it->second.second;
          if (mask >> a & 1) c.violation("sat:twice", log + ": the model lists " + f.to_string() + " twice");
          mask |= 1u << a; val |= (uint32_t)v << a;
          lits.insert(q.second ? f : !f);
          learned.emplace_back(a, v);
        }
        if (mask & ~used & ~0u) {
          // atoms that occur in no formula in force may only be listed when they are harmless, as any value is fine
          c.count("literals of atoms that are not in force");
        }
        // every completion is a model
        for (uint32_t m = 0; m < 1u << n; ++m) {
          if ((m & mask) != val) continue;
          bool ok = true;
          for (auto& f : frames) for (auto& s : f) if (!ev(s, m)) { ok = false; break; }
          if (!ok) { c.violation("sat:model", log + ": the literals returned (mask " + std::to_string(mask) + ", values " + std::to_string(val) + ") do not make every formula in force true"); return; }
        }
        c.count(popped ? "models after a pop" : "models");
        c.count("unlisted atoms", __builtin_popcount(used & ~mask));
        if (k + 1 == rounds) break;
        if (lits.empty()) break;
        // a learned clause: not all of these (or of a subset)
        std::set<Formula> sub;
        auto s = std::make_shared<S>();
        s->k = S::Or;
        const bool all = r.chance(0.5);
        for (auto& f : lits) if (all || r.chance(0.6) || sub.empty()) {
          sub.insert(f);
          const Formula& base = dsym::is_negation(f) ? dsym::get_operand(f) : f;
          auto l = lookup.at(dsym::is_forall(base) ? std::string(qkey) : ser(f));
          if (dsym::is_forall(base)) l.second = !dsym::is_negation(f);
          SP x = at(l.first);
          if (l.second) { auto t = std::make_shared<S>(); t->k = S::Not; t->o = {x}; x = t; }
          s->o.push_back(x);
        }
        solver.AddLearnedClause(sub);
        c.count("learned clauses");
        log += " learn" + show(s);
        frames.back().push_back(s);
        models.clear();
        for (uint32_t m = 0; m < 1u << n; ++m) { bool ok = true; for (auto& f : frames) for (auto& q : f) ok = ok && ev(q, m); if (ok) models.push_back(m); }
        c.note(log);
      }
    }
  }
  c.nontrivial(log);
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C38", c38}}); }
