// C35: contractors never lose a solution and report what they did.
#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/contractor/generic_contractor_generator.h"
#include "dreal/solver/config.h"

#include "boxes.h"
#include "ser.h"
#include "sym.h"

using namespace vh;
using namespace dreal;
namespace dsym = dreal::drake::symbolic;

static bool fix_term(const Box::IntervalVector& o, const Box::IntervalVector& n) {
  for (int i = 0; i < o.size(); ++i) {
    if (o[i].is_degenerated() || std::isinf(n[i].diam())) continue;
    if (1 - n[i].diam() / o[i].diam() >= 0.01) return false;
  }
  return true;
}
static bool simple_rel(const Formula& f) { return dsym::is_relational(f) || (dsym::is_negation(f) && dsym::is_relational(dsym::get_operand(f))); }

static void c35(Ctx& c) {
  Rng r = c.rng();
  // chain: constraints that contradict each other only all together
  const bool chain = r.chance(0.12);
  const int nx = chain ? r.range(2, 6) : r.range(1, 4);
  Pool p(nx, 0, !chain && r.chance(0.4) ? r.range(1, 3) : 0);
  GenOpt o; o.ite = false; o.intervals = 0.02; o.symexp = r.chance(0.3);
  Gen g(r, nx, 0, o);
  Plant plant(r, g);
  // points that satisfy all or all but a few of the constraints
  std::vector<Asg> pts;
  const Asg base = dyadic_point(r, p);
  pts.push_back(base);
  const int n = r.range(1, 5);
  std::vector<RFP> refs;
  std::vector<Formula> fs;
  Builder bl(p, &r);
  int others = r.range(0, 3);
  for (int i = 0; i < others; ++i) { Asg a = dyadic_point(r, p); for (int j = 0; j < nx; ++j) if (r.chance(0.6)) a.x[j] = base.x[j]; pts.push_back(a); }
  Box box;
  if (chain) {
    // up: v[o0] relates to k0, v[o(i+1)] to v[o(i)] + step(i), v[o(n-1)] to a value that cannot be reached
    std::vector<int> ord(nx);
    for (int i = 0; i < nx; ++i) ord[i] = i;
    for (int i = nx - 1; i > 0; --i) { const int j = r.below(i + 1); if (j != i) std::swap(ord[i], ord[j]); }
    const double s0 = r.range(-2, 2);
    std::vector<double> step, up(nx);
    up[0] = s0;
    for (int i = 1; i < nx; ++i) { step.push_back(r.range(-2, 2)); up[i] = up[i - 1] + step.back(); }
    const double gap = r.range(1, 6);
    std::vector<RFP> link;
    link.push_back(frel(r.chance(0.5) ? FK::Eq : FK::Leq, rv(ord[0]), rc(s0)));
    for (int i = 1; i < nx; ++i) {
      RP l = rv(ord[i]), m = rv(ord[i - 1]);
      const double k = std::vector<double>{1, 2, 0.5}[r.below(3)];
      link.push_back(frel(r.chance(0.5) ? FK::Eq : FK::Leq, r2(K::Mul, rc(k), l), r2(K::Mul, rc(k), r2(K::Add, m, rc(step[i - 1])))));
    }
    link.push_back(frel(r.chance(0.5) ? FK::Eq : FK::Geq, rv(ord[nx - 1]), rc(up[nx - 1] + gap)));
    // without the i-th, what comes before it starts low and what comes after it ends high
    pts.clear();
    for (int i = 0; i <= nx; ++i) {
      Asg a; a.x.resize(nx);
      for (int j = 0; j < nx; ++j) a.x[ord[j]] = j < i ? up[j] : up[j] + gap;
      pts.push_back(a);
    }
    for (int i = nx; i > 0; --i) { const int j = r.below(i + 1); if (j != i) std::swap(link[i], link[j]); }
    for (auto& f : link) {
      try { const Formula F = bl(f); if (!simple_rel(F)) return; fs.push_back(F); refs.push_back(to_ref(F, p)); } catch (const std::exception&) { return; }
    }
    for (int i = 0; i < nx; ++i) { box.Add(p.x[i]); box[i] = ibex::Interval(-40, r.chance(0.5) ? 40 : 45.5); }
    c.count("chains");
  } else
  // a nested formula of conjunctions and disjunctions for the generic contractor
  for (int i = 0; i < n; ++i) {
    RFP f;
    for (int t = 0; t < 6; ++t) {
      const Asg& s = pts[i == 0 ? 0 : r.below((int)pts.size())];
      f = plant.rel(s, r.range(1, 3));
      try { Formula F = bl(f); if (!simple_rel(F)) { f = nullptr; continue; } to_ref(F, p); fs.push_back(F); break; } catch (const std::exception&) { f = nullptr; }
    }
    if (!f || str(f).find("(ite") != std::string::npos) { if (f) fs.pop_back(); continue; }
    refs.push_back(to_ref(fs.back(), p));
  }
  if (fs.empty()) return;
  if (!chain) box = box_around(r, p, pts[r.below((int)pts.size())], r.chance(0.3));
  if (box.empty()) return;
  Config config;
  config.mutable_use_polytope() = false;
  // contractors
  std::vector<Contractor> cs;
  std::string desc;
  for (auto& f : refs) desc += str(f) + "; ";
  desc += " box " + show_box(box);
  c.note(desc);
  const int mode = chain ? 2 + r.below(4) : r.below(9);
  Contractor ctc = make_contractor_id(config);
  RFP whole = fops(FK::And, refs);
  bool explain = true, integer = true, output_total = true;
  std::string name;
  auto basic = [&](const Formula& f) { return make_contractor_ibex_fwdbwd(f, box, config); };
  try {
    switch (mode) {
      case 0: name = "fwdbwd"; ctc = basic(fs[0]); whole = refs[0]; integer = false; break;
      case 1: name = "polytope"; ctc = make_contractor_ibex_polytope(fs, box, config); integer = false; break;
      case 2: case 3: {
        for (auto& f : fs) cs.push_back(basic(f));
        if (r.chance(0.7)) cs.push_back(make_contractor_integer(box, config)); else integer = false;
        if (r.chance(0.3)) cs.push_back(make_contractor_ibex_polytope(fs, box, config));
        if (r.chance(0.2)) cs.insert(cs.begin(), make_contractor_id(config));
        if (mode == 2) { name = "seq"; ctc = make_contractor_seq(cs, config); }
        else { name = "fixpoint"; ctc = make_contractor_fixpoint(fix_term, cs, config); }
        break;
      }
      case 4: case 5: {
        for (auto& f : fs) cs.push_back(basic(f));
        cs.push_back(make_contractor_integer(box, config));
        if (r.chance(0.3)) cs.push_back(make_contractor_ibex_polytope(fs, box, config));
        name = "worklist"; ctc = make_contractor_worklist_fixpoint(fix_term, cs, config);
        output_total = false;
        break;
      }
      case 6: {
        name = "join";
        for (auto& f : fs) cs.push_back(basic(f));
        ctc = make_contractor_join(cs, config);
        whole = fops(FK::Or, refs); explain = false; integer = false;
        break;
      }
      default: {
        name = "generic";
        config.mutable_use_polytope() = r.chance(0.4);
        // random nesting
        std::vector<std::pair<Formula, RFP>> parts;
        for (size_t i = 0; i < fs.size(); ++i) parts.emplace_back(fs[i], refs[i]);
        while (parts.size() > 1) {
          int k = r.range(2, (int)std::min<size_t>(3, parts.size()));
          bool conj = r.chance(0.5);
          Formula f = conj ? Formula::True() : Formula::False();
          std::vector<RFP> q;
          for (int i = 0; i < k; ++i) { size_t j = r.below((int)parts.size()); f = conj ? f && parts[j].first : f || parts[j].first; q.push_back(parts[j].second); parts.erase(parts.begin() + j); }
          RFP rf = fops(conj ? FK::And : FK::Or, q);
          if (r.chance(0.2)) { f = !f; rf = fnot(rf); }
          parts.emplace_back(f, rf);
        }
        whole = parts[0].second;
        explain = false; integer = false;
        if (dsym::is_true(parts[0].first) || dsym::is_false(parts[0].first)) return;
        ctc = GenericContractorGenerator{}.Generate(parts[0].first, box, config);
        break;
      }
    }
  } catch (const std::exception& e) {
    c.violation("contractor:build:" + name, std::string("building ") + name + " for " + desc + " fails: " + e.what());
    return;
  }
  c.note(name + " " + desc);
  c.count(name);
  // which bits can matter
  if (name != "generic" && (int)ctc.input().size() == box.size()) {
    for (int i = 0; i < box.size(); ++i) {
      (void)i;
    }
  }
  const int branching = (mode == 4 || mode == 5) && r.chance(0.3) ? r.below(box.size()) : -1;
  ContractorStatus st(box, branching);
  ctc.Prune(&st);
  c.eval();
  const Box& nb = st.box();
  const std::string what = name + " for " + desc + " -> " + show_box(nb);
  // 1. shrinks only
  if (nb.size() != box.size()) { c.violation("contractor:size:" + name, what); return; }
  if (!nb.empty()) for (int i = 0; i < box.size(); ++i) if (nb[i].is_empty() || !nb[i].is_subset(box[i])) c.violation("contractor:grow:" + name, what);
  bool changed = nb.empty() || nb != box;
  c.count(nb.empty() ? "emptied" : changed ? "shrunk" : "unchanged");
  // 2. keeps every solution
  for (int i = 0; i < 12; ++i) pts.push_back(random_point(r, box, p));
  if (!nb.empty()) for (int i = 0; i < 6; ++i) { Asg a = random_point(r, box, p); for (int j = 0; j < nx; ++j) if (r.chance(0.5)) a.x[j] = r.chance(0.5) ? nb[j].lb() : nb[j].ub(); pts.push_back(a); }
  int sols = 0;
  for (auto& s : pts) {
    bool fin = true;
    for (double d : s.x) fin = fin && std::isfinite(d);
    if (!fin || !inside(box, p, s)) continue;
    bool integral = true;
    for (int j = 0; j < nx; ++j) if (p.x[j].get_type() != Variable::Type::CONTINUOUS && s.x[j] != std::floor(s.x[j])) integral = false;
    if (!integral) continue;
    Evaluator q(s);
    if (q.fv(whole) != T3::T) continue;
    ++sols;
    if (!inside(nb, p, s)) { c.violation("contractor:lost:" + name + ":" + top_ops(refs[0]), what + " loses the solution " + astr(s)); return; }
  }
  c.count("solutions kept", sols);
  // 3. reports
  if (nb.empty()) {
    if (output_total && (int)st.output().count() != box.size()) c.violation("contractor:output:" + name, what + ": output flags only " + std::to_string(st.output().count()) + " dimensions of an emptied box");
  } else if (output_total) {
    for (int i = 0; i < box.size(); ++i) if (nb[i] != box[i] && !st.output()[i]) c.violation("contractor:output:" + name, what + ": the change of dimension " + std::to_string(i) + " is not flagged");
  }
  if (explain) {
    const std::set<Formula> ex = st.Explanation();
    std::set<std::string> have;
    for (auto& f : fs) have.insert(ser(f));
    for (auto& f : ex) if (!have.count(ser(f))) c.violation("contractor:explain:foreign:" + name, what + ": explanation contains " + f.to_string());
    if (nb.empty()) {
      // no point of the original box satisfies everything in the explanation
      c.count("explanations");
      c.count("explanations shorter than the constraints", ex.size() < have.size());
      std::vector<RFP> er;
      for (auto& f : ex) er.push_back(to_ref(f, p));
      RFP all = fops(FK::And, er);
      for (auto& s : pts) {
        if (!inside(box, p, s)) continue;
        bool ok = true;
        for (int j = 0; j < nx; ++j) if (!std::isfinite(s.x[j]) || (p.x[j].get_type() != Variable::Type::CONTINUOUS && s.x[j] != std::floor(s.x[j]))) ok = false;
        if (ok && Evaluator(s).fv(all) == T3::T) { std::string t; for (auto& f : ex) t += f.to_string() + "; "; c.violation("contractor:explain:weak:" + name, what + ": explanation {" + t + "} has the solution " + astr(s)); }
      }
    }
  }
  if (changed || sols) c.nontrivial(name + desc);
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"C35", c35}}); }
