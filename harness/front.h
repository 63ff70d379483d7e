// A recording dreal::Context in front of the real implementation, and capturing of the process's output.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <iostream>

#include "dreal/solver/context_impl.h"
#include "dreal/version.h"

#include "solve.h"

namespace front {
struct Rec {
  struct Declared { Variable v; bool model; bool bounded; Expression lb, ub; };
  struct Event { int kind; Formula f; };                 // 0: assertion, 1: declaration of an auxiliary variable
  std::vector<std::vector<Declared>> scopes{1};          // declarations, by open scope
  std::vector<Declared> all;                             // model variables in order of declaration
  std::vector<Formula> asserts;                          // user assertions since the last take()
  std::vector<std::pair<Variable, Formula>> defs;        // definitions of auxiliary variables
  std::vector<Variable> open;                            // auxiliary variables without definition
  std::vector<std::vector<Expression>> minimize;
  std::vector<std::string> log;                          // what was called, in order
  std::string bad;                                       // a use of something undeclared
  bool live = false;                                     // the real solver answers
  std::vector<int> plan;                                 // else: 1 sat, 0 unsat
  size_t next = 0;
  std::function<Box(const Box&)> model_of;
  Box model;
  bool has_model = false, checked = false;
  std::vector<optional<Box>> answers;
  std::function<const Box&()> box;
  bool declared(const Variable& v) const {
    for (auto& s : scopes) for (auto& d : s) if (d.v.equal_to(v)) return true;
    return false;
  }
};
Rec* rec = nullptr;

struct Out {
  int fd = -1, saved = -1, target;
  explicit Out(int t) : target(t) {
    fflush(stdout); std::cout.flush();
    fd = memfd_create("out", 0); saved = dup(target); dup2(fd, target);
  }
  std::string take() {
    fflush(stdout); std::cout.flush(); std::cerr.flush();
    dup2(saved, target);
    std::string s; char b[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); close(saved); saved = -1;
    return s;
  }
  ~Out() { if (saved >= 0) take(); }
};
// what is written to std::cerr (and not to the descriptor, which the sanitizers use)
struct Err {
  std::ostringstream os;
  std::streambuf* saved;
  Err() { saved = std::cerr.rdbuf(os.rdbuf()); }
  std::string take() { if (saved) std::cerr.rdbuf(saved); saved = nullptr; return os.str(); }
  ~Err() { take(); }
};
}  // namespace front

namespace dreal {
using front::rec;
Context::Context() : Context{Config{}} {}
Context::Context(Context&& c) noexcept : impl_{std::move(c.impl_)} {}
Context::~Context() = default;
Context::Context(const Config& config) : impl_{std::make_unique<Impl>(config)} { if (rec) rec->box = [p = impl_.get()]() -> const Box& { return p->box(); }; }
void Context::Assert(const Formula& f) {
  if (rec) {
    std::vector<Variable> aux;
    for (const Variable& v : f.GetFreeVariables()) {
      if (!rec->declared(v)) rec->bad = "the assertion " + f.to_string() + " has the variable " + v.get_name() + ", which is not declared";
      for (auto& o : rec->open) if (o.equal_to(v)) aux.push_back(v);
    }
    bool def = false;
    if (aux.size() == 1) {   // the definition of an auxiliary variable
      const Variable& v = aux[0];
      def = v.get_type() == Variable::Type::BOOLEAN || (is_equal_to(f) && ((is_variable(get_lhs_expression(f)) && get_variable(get_lhs_expression(f)).equal_to(v)) || (is_variable(get_rhs_expression(f)) && get_variable(get_rhs_expression(f)).equal_to(v))));
    }
    if (def) {
      rec->defs.emplace_back(aux[0], f);
      rec->open.erase(std::find_if(rec->open.begin(), rec->open.end(), [&](const Variable& o) { return o.equal_to(aux[0]); }));
    } else {
      rec->asserts.push_back(f);
      rec->log.push_back("assert");
    }
    if (!rec->live || !rec->bad.empty()) return;
  }
  impl_->Assert(f);
}
optional<Box> Context::CheckSat() {
  if (rec) {
    rec->log.push_back("check");
    rec->checked = true;
    if (!rec->live) {
      const bool sat = rec->next < rec->plan.size() && rec->plan[rec->next];
      ++rec->next;
      rec->has_model = true;
      optional<Box> res;
      if (sat) { rec->model = rec->model_of(impl_->box()); res = rec->model; }
      else { rec->model = impl_->box(); rec->model.set_empty(); }
      rec->answers.push_back(res);
      return res;
    }
    const optional<Box> res = impl_->CheckSat();
    rec->answers.push_back(res);
    return res;
  }
  return impl_->CheckSat();
}
static void note_declaration(const front::Rec::Declared& d) {
  if (!rec) return;
  rec->scopes.back().push_back(d);
  if (d.model) { rec->all.push_back(d); rec->log.push_back("declare " + d.v.get_name()); }
  else rec->open.push_back(d.v);
}
void Context::DeclareVariable(const Variable& v, const bool m) {
  note_declaration({v, m, false, 0, 0});
  impl_->DeclareVariable(v, m);
}
void Context::DeclareVariable(const Variable& v, const Expression& lb, const Expression& ub, const bool m) {
  note_declaration({v, m, true, lb, ub});
  impl_->DeclareVariable(v, m);
  impl_->SetDomain(v, lb, ub);
}
void Context::Exit() { if (rec) rec->log.push_back("exit"); }
void Context::Minimize(const Expression& f) { Minimize(std::vector<Expression>{f}); }
void Context::Minimize(const std::vector<Expression>& fs) {
  if (rec) {
    rec->minimize.push_back(fs);
    rec->log.push_back("minimize");
    for (auto& f : fs) for (auto& v : f.GetVariables()) if (!rec->declared(v)) rec->bad = "the objective " + f.to_string() + " has the variable " + v.get_name() + ", which is not declared";
    if (!rec->live || !rec->bad.empty()) return;
  }
  impl_->Minimize(fs);
}
void Context::Maximize(const Expression& f) {
  if (rec) rec->log.push_back("maximize");
  Minimize(std::vector<Expression>{-f});
}
void Context::Pop(int n) {
  if (rec) rec->log.push_back("pop" + std::to_string(n));
  if (n <= 0) throw std::runtime_error("Context::Pop(n) called with n which is not positive.");
  while (n-- > 0) { impl_->Pop(); if (rec && rec->scopes.size() > 1) rec->scopes.pop_back(); }
}
void Context::Push(int n) {
  if (rec) rec->log.push_back("push" + std::to_string(n));
  if (n <= 0) throw std::runtime_error("Context::Push(n) called with n which is not positive.");
  while (n-- > 0) { impl_->Push(); if (rec) rec->scopes.emplace_back(); }
}
void Context::SetInfo(const std::string& k, const double v) { if (rec) rec->log.push_back("info"); impl_->SetInfo(k, v); }
void Context::SetInfo(const std::string& k, const std::string& v) { if (rec) rec->log.push_back("info"); impl_->SetInfo(k, v); }
void Context::SetInterval(const Variable& v, const double lb, const double ub) { impl_->SetInterval(v, lb, ub); }
void Context::SetLogic(const Logic& l) { if (rec) rec->log.push_back("logic"); impl_->SetLogic(l); }
void Context::SetOption(const std::string& k, const double v) { if (rec) rec->log.push_back("option " + k); impl_->SetOption(k, v); }
void Context::SetOption(const std::string& k, const std::string& v) { if (rec) rec->log.push_back("option " + k); impl_->SetOption(k, v); }
optional<std::string> Context::GetOption(const std::string& k) const { return impl_->GetOption(k); }
const Config& Context::config() const { return impl_->config(); }
Config& Context::mutable_config() { return impl_->mutable_config(); }
std::string Context::version() { return DREAL_VERSION_STRING; }
const Box& Context::box() const { return impl_->box(); }
const Box& Context::get_model() const { return rec && !rec->live && rec->has_model ? rec->model : impl_->get_model(); }
const ScopedVector<Formula>& Context::assertions() const { return impl_->assertions(); }
}  // namespace dreal

using front::rec;

namespace {
typedef std::pair<std::string, RP> TX;
typedef std::pair<std::string, RFP> TF;
const char SEP = '\x01';

bool has_forall(const RFP& f);
bool has_forall(const RP& e) { return e && ((e->cond && has_forall(e->cond)) || has_forall(e->a) || has_forall(e->b)); }
bool has_forall(const RFP& f) {
  if (!f) return false;
  if (f->k == FK::Forall) return true;
  for (auto& o : f->ops) if (has_forall(o)) return true;
  return has_forall(f->a) || has_forall(f->b);
}
bool partial(const RFP& f);
bool partial(const RP& e) {
  if (!e) return false;
  switch (e->k) { case K::Div: case K::Log: case K::Sqrt: case K::Pow: case K::Asin: case K::Acos: case K::Tan: case K::Exp: case K::Sinh: case K::Cosh: case K::Atan2: return true; default: break; }
  return (e->cond && partial(e->cond)) || partial(e->a) || partial(e->b);
}
bool partial(const RFP& f) {
  if (!f) return false;
  for (auto& o : f->ops) if (partial(o)) return true;
  return partial(f->a) || partial(f->b);
}
struct Sub { std::map<int, RP> x; std::map<int, RFP> b; };
RFP subst(const RFP& f, const Sub& s);
RP subst(const RP& e, const Sub& s) {
  if (!e) return e;
  if (e->k == K::Var) { auto it = s.x.find(e->var); return it == s.x.end() ? e : it->second; }
  if (!e->a && !e->cond) return e;
  auto r = std::make_shared<R>(*e);
  r->a = subst(e->a, s); r->b = subst(e->b, s);
  if (e->cond) r->cond = subst(e->cond, s);
  return r;
}
RFP subst(const RFP& f, const Sub& s) {
  if (!f) return f;
  if (f->k == FK::BVar) { auto it = s.b.find(f->var); return it == s.b.end() ? f : it->second; }
  auto r = std::make_shared<RF>(*f);
  r->a = subst(f->a, s); r->b = subst(f->b, s);
  for (auto& o : r->ops) o = subst(o, s);
  return r;
}
// the value of a decimal numeral
RP decimal(const std::string& t) {
  const f128 q = strtoflt128(t.c_str(), nullptr);
  const double d = (double)q;
  if ((f128)d == q) return rc(d);
  auto r = std::make_shared<R>();
  r->k = K::Interval;
  r->c = (f128)d < q ? d : std::nextafter(d, -HUGE_VAL); r->c2 = (f128)d < q ? std::nextafter(d, HUGE_VAL) : d;
  return r;
}
// variables bound by quantifiers of a formula
void bound(const Formula& f, std::vector<Variable>* out) {
  using namespace dreal;
  if (is_forall(f)) { for (auto& v : get_quantified_variables(f)) out->push_back(v); bound(get_quantified_formula(f), out); }
  else if (is_negation(f)) bound(get_operand(f), out);
  else if (is_conjunction(f) || is_disjunction(f)) for (auto& g : get_operands(f)) bound(g, out);
}
const std::vector<double> kGrid{-3, -2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3};
T3 truth(const RFP& f, const Asg& a) { Evaluator q(a); q.grid = &kGrid; return q.fv(f); }

std::string spaces(Rng& r, const std::string& t, bool smt2) {
  std::string s;
  for (char ch : t) {
    if (ch != SEP) { s += ch; continue; }
    const double u = r.unit();
    if (u < 0.7) s += ' ';
    else if (u < 0.8) s += '\n';
    else if (u < 0.85) s += "\t ";
    else if (u < 0.9) s += "\r\n";
    else if (u < 0.95) s += "  \n\n ";
    else s += std::string(" ") + (smt2 ? ";" : "#") + (r.chance(0.5) ? " (a) comment ) \"|" : "") + (r.chance(0.3) ? "\r\n" : "\n");
  }
  return s;
}
// the result of giving text to a parser
struct Parsed { bool ok = false, threw = false; std::string what, out, err; };
template <typename D> Parsed parse(D& d, const std::string& text) {
  Parsed p;
  front::Err e; front::Out o(1);
  try { p.ok = d.parse_string(text); } catch (const std::exception& ex) { p.threw = true; p.what = ex.what(); }
  p.err = e.take(); p.out = o.take();
  return p;
}

std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> o; std::string cur;
  for (char ch : s) if (ch == '\n') { o.push_back(cur); cur.clear(); } else cur += ch;
  if (!cur.empty()) o.push_back(cur);
  return o;
}
std::string span(const ibex::Interval& iv) { return "[" + dstr(iv.lb()) + ", " + dstr(iv.ub()) + "]"; }
}  // namespace
