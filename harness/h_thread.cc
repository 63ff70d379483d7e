// C11 (identity of variables), C12 (shared symbolic objects), C27 (thread pool): histories in several
// threads, built with ThreadSanitizer and with AddressSanitizer.
#include <pthread.h>
#include <sched.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unordered_set>

#include "ThreadPool/ThreadPool.h"
#include "dreal/symbolic/symbolic.h"
#include "dreal/util/if_then_else_eliminator.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"
#include "ser.h"
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif
using namespace vh;
using namespace dreal;

namespace {
std::string S(long long i) { return std::to_string(i); }
void spin(int n) { for (volatile int i = 0; i < n; ++i) { } }
// A scheduling perturbation: nothing, busy wait, yield, short sleep.
void jolt(Rng& r) {
  switch (r.below(8)) {
    case 0: sched_yield(); break;
    case 1: spin(r.below(300)); break;
    case 2: if (r.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
    default: break;
  }
}
// All threads leave wait() at about the same moment.
struct Gate {
  std::atomic<int> n; explicit Gate(int k) : n(k) {}
  void wait() { n.fetch_sub(1); while (n.load() > 0) sched_yield(); }
};

// ---------------- C11 ----------------
struct Made { Variable v; std::string name; Variable::Type type; int thread; };
const Variable::Type kTypes[] = {Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY, Variable::Type::BOOLEAN};
std::string vname(Rng& r) {
  static const char* n[] = {"x", "y", "x0", "b", "", "a long variable name that does not fit a small string", "|quoted|"};
  return r.chance(0.7) ? n[r.below(7)] : "v" + S(r.below(20));
}
// Makes variables in one thread; every one with the name and type it must have.
void make_vars(Rng r, int n, int thread, std::vector<Made>* out, std::vector<std::string>* bad) {
  for (int i = 0; i < n; ++i) {
    Variable::Type t = kTypes[r.below(4)];
    if (r.chance(0.2)) {
      std::string p = vname(r); if (p.empty()) p = "q";
      int k = r.range(1, 5);
      bool dflt = r.chance(0.2); if (dflt) t = Variable::Type::CONTINUOUS;
      std::vector<Variable> v = dflt ? CreateVector(p, k) : CreateVector(p, k, t);
      if ((int)v.size() != k) bad->push_back("CreateVector(" + p + "," + S(k) + ") has size " + S(v.size()));
      for (size_t j = 0; j < v.size(); ++j) out->push_back({v[j], p + S(j), t, thread});
    } else {
      std::string nm = vname(r);
      bool dflt = r.chance(0.2); if (dflt) t = Variable::Type::CONTINUOUS;
      Variable v = dflt ? Variable(nm) : Variable(nm, t);
      if (r.chance(0.2)) { Variable w; w = v; v = std::move(w); }
      if (r.chance(0.1)) { Variable w(v); Expression e(w.get_type() == Variable::Type::BOOLEAN ? Expression{} : Expression{w}); out->push_back({w, nm, t, thread}); out->back().thread = -1 - thread; }
      out->push_back({v, nm, t, thread});
    }
    jolt(r);
  }
}
void c11(Ctx& c) {
  Rng r = c.rng();
  int nt = r.chance(0.15) ? 1 : r.range(2, 8), n = r.range(2, 40);
  std::vector<Made> before, after; std::vector<std::string> bad;
  make_vars(Rng(r.u64()), r.range(1, 5), 1000, &before, &bad);
  std::vector<std::vector<Made>> per(nt); std::vector<std::vector<std::string>> pbad(nt);
  Gate g(nt); std::vector<std::thread> th;
  c.note(S(nt) + " threads make " + S(n) + " variables each");
  for (int t = 0; t < nt; ++t) { uint64_t s = r.u64(); th.emplace_back([&, t, s] { Rng q(s); per[t].reserve(6 * n); g.wait(); make_vars(q, n, t, &per[t], &pbad[t]); }); }
  for (auto& t : th) t.join();
  make_vars(Rng(r.u64()), r.range(1, 5), 1001, &after, &bad);
  for (auto& b : pbad) bad.insert(bad.end(), b.begin(), b.end());
  for (auto& b : bad) c.violation("vector", b);
  std::vector<Made> all = before; for (auto& p : per) all.insert(all.end(), p.begin(), p.end()); all.insert(all.end(), after.begin(), after.end());
  // the copies (negative thread) directly precede their originals
  std::map<Variable::Id, const Made*> by;
  std::unordered_set<Variable> us; std::set<Variable> os; size_t fresh = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    const Made& m = all[i];
    c.eval(4);
    if (m.v.get_id() == 0 || m.v.is_dummy()) c.violation("dummy", "the named variable " + m.name + " is the anonymous one");
    if (m.v.get_name() != m.name || m.v.to_string() != m.name) c.violation("name", "a variable made as '" + m.name + "' is named '" + m.v.get_name() + "'");
    if (m.v.get_type() != m.type) c.violation("type", "the variable " + m.name + " has the type " + [&] { std::ostringstream o; o << m.v.get_type(); return o.str(); }());
    if (m.thread < 0) {
      const Made& o = all[i + 1];
      if (!m.v.equal_to(o.v) || m.v.get_id() != o.v.get_id() || m.v.less(o.v) || o.v.less(m.v)) c.violation("copy", "a copy of " + m.name + " is not equal to it");
    } else {
      ++fresh;
      auto ins = by.emplace(m.v.get_id(), &m);
      if (!ins.second) c.violation("duplicate-id", "two variables share the identifier " + S(m.v.get_id()) + ": '" + m.name + "' of thread " + S(m.thread) + " and '" + ins.first->second->name + "' of thread " + S(ins.first->second->thread) + " (" + S(nt) + " threads)");
    }
    us.insert(m.v); os.insert(m.v);
  }
  if (us.size() != fresh || os.size() != fresh) c.violation("containers", S(fresh) + " variables were made but containers hold " + S(us.size()) + "/" + S(os.size()));
  for (int k = 0; k < 60; ++k) {
    const Made &a = r.pick(all), &b = r.pick(all); c.eval(3);
    bool same = a.v.get_id() == b.v.get_id();
    if (a.v.equal_to(b.v) != same) c.violation("equal_to", a.name + " and " + b.name);
    if (a.v.less(b.v) + b.v.less(a.v) + same != 1) c.violation("less", a.name + " and " + b.name);
    if (!same && a.v.get_type() != Variable::Type::BOOLEAN && b.v.get_type() != Variable::Type::BOOLEAN && Expression(a.v).EqualTo(Expression(b.v))) c.violation("expression-equal", a.name + " and " + b.name);
  }
  // the order of identifiers is the order in which the threads got them
  std::string order; int last = -99, runs = 0; for (auto& p : by) { if (p.second->thread != last) { order += S(p.second->thread) + "."; ++runs; } last = p.second->thread; }
  c.count("variables", (int64_t)fresh); c.count("thread_switches", runs); if (runs > nt + 2) c.count("interleaved_cases");
  c.nontrivial(order + S(fresh));
}

// ---------------- C12 ----------------
// A program over shared objects: the same seed always gives the same digest.
struct Shared {
  Pool p{3, 3};
  std::vector<Expression> e; std::vector<Formula> f; std::vector<std::string> se, sf;
  Environment env;
};
struct Box2 {  // objects handed from thread to thread
  std::mutex m; std::deque<std::pair<Expression, std::string>> e; std::deque<std::pair<Formula, std::string>> f;
};
struct Worker {
  Rng r; const Shared& s; Box2* box; Variable::Id base;
  std::vector<std::string> out; std::vector<std::string> bad; std::vector<Variable> fresh;
  long steps = 0, handed = 0;
  Worker(uint64_t seed, const Shared& sh, Box2* b, Variable::Id bs) : r(seed), s(sh), box(b), base(bs) {}
  void put(const std::string& x) { out.push_back(std::to_string(fnv(x))); }
  void fresh_in(const Variables& vs) { for (auto& v : vs) if (v.get_id() > base) fresh.push_back(v); }
  void run(int n) {
    TseitinCnfizer ts; NaiveCnfizer nc; Nnfizer nn; IfThenElseEliminator ite; PredicateAbstractor pa;
    for (int i = 0; i < n; ++i) {
      jolt(r); ++steps;
      const Expression& a = r.pick(s.e); const Expression& b = r.pick(s.e); const Formula& f = r.pick(s.f); const Formula& g = r.pick(s.f);
      int k = r.below(24);
      try {
        switch (k) {
          case 0: { Expression x = a; Expression y = x; x = b; put(ser(y) + ser(x)); break; }
          case 1: put(hexd(a.Evaluate(s.env))); break;
          case 2: put(f.Evaluate(s.env) ? "T" : "F"); break;
          case 3: put(a.to_string() + f.to_string()); break;
          case 4: put(S(a.EqualTo(b)) + S(a.Less(b)) + S(f.EqualTo(g)) + S(f.Less(g))); break;
          case 5: put(S((long long)a.get_hash()) + S((long long)f.get_hash())); break;
          case 6: put(ser(a.Expand())); break;
          case 7: put(ser(a.Differentiate(s.p.x[0]))); break;
          case 8: put(ser(a.Substitute(s.p.x[1], b))); break;
          case 9: { Expression x = a; x += b; x *= a; x -= 1.0; put(ser(x)); break; }
          case 10: { Expression x = a + b; Expression y = x * a; give(x); give(y); put(ser(y - x)); break; }
          case 11: put(ser(f && g) + ser(f || !g)); break;
          case 12: { Formula x = f; x = x && g; x = x || a > b; give(x); put(ser(x)); break; }
          case 13: put(ser(a.GetVariables()) + ser(f.GetFreeVariables() + g.GetFreeVariables())); break;
          case 14: put(ser(DeltaStrengthen(f, 0.125)) + ser(DeltaWeaken(g, 0.125))); break;
          case 15: put(ser(nn.Convert(f, r.chance(0.5)))); break;
          case 16: put(ser(nc.Convert(f))); break;
          case 17: { auto v = ts.Convert(f && r.pick(s.f)); put("cnf" + S((long long)v.size())); for (auto& q : v) fresh_in(q.GetFreeVariables()); break; }
          case 18: { Formula x = ite.Process(f && if_then_else(f, a, b) > 1.0); put("ite"); fresh_in(x.GetFreeVariables()); break; }
          case 19: { Formula x = pa.Convert(f); put("pa" + S((long long)get_clauses(nc.Convert(x)).size())); fresh_in(x.GetFreeVariables()); break; }
          case 20: { std::set<Formula> v{f, g, r.pick(s.f)}; put(ser(make_conjunction(v)) + ser(make_disjunction(v))); break; }
          case 21: { std::vector<Expression> v(5, a); v.push_back(b); std::sort(v.begin(), v.end(), [](const Expression& p, const Expression& q) { return p.Less(q); }); Expression t{0.0}; for (auto& q : v) t += std::move(q); put(ser(t)); break; }
          case 22: put(ser(f.Substitute(s.p.x[0], a)) + ser(f.Substitute(s.p.b[0], g))); break;
          default: take();
        }
      } catch (const std::exception& e) { put("exception"); }
    }
  }
  void give(const Expression& x) { if (!box) return; std::string t = ser(x); std::lock_guard<std::mutex> l(box->m); if (box->e.size() < 40) box->e.emplace_back(x, t); }
  void give(const Formula& x) { if (!box) return; std::string t = ser(x); std::lock_guard<std::mutex> l(box->m); if (box->f.size() < 40) box->f.emplace_back(x, t); }
  // Objects made by another thread: still what they were, and usable here.
  void take() {
    const bool x1 = r.chance(0.5), x2 = r.chance(0.5);
    if (!box) { return; }
    std::pair<Expression, std::string> e; std::pair<Formula, std::string> f{Formula::True(), ""};
    { std::lock_guard<std::mutex> l(box->m);
      if (!box->e.empty()) { if (x1) { e = std::move(box->e.front()); box->e.pop_front(); } else e = box->e.front(); }
      if (!box->f.empty()) { if (x2) { f = std::move(box->f.front()); box->f.pop_front(); } else f = box->f.front(); } }
    if (!e.second.empty()) { ++handed; if (ser(e.first) != e.second) bad.push_back("an expression made by another thread arrived as " + cut(e.first.to_string(), 200)); e.first += 1.0; }
    if (!f.second.empty()) { ++handed; if (ser(f.first) != f.second) bad.push_back("a formula made by another thread arrived as " + cut(f.first.to_string(), 200)); f.first = !f.first; }
  }
};
void c12(Ctx& c) {
  Rng r = c.rng();
  Shared s;
  GenOpt o; o.domain = r.chance(0.3); o.symexp = false;
  Gen g(r, 3, 3, o); Builder b(s.p, &r);
  for (int i = 0; i < 5; ++i) try { s.e.push_back(b(g.expr(r.range(1, 3)))); } catch (const std::exception&) { s.e.push_back(s.p.x[0]); }
  if (r.chance(0.7)) s.e.push_back(r.chance(0.5) ? Expression::Zero() : Expression::Pi());
  for (int i = 0; i < 5; ++i) try { s.f.push_back(b(g.form(r.range(1, 2), 1))); } catch (const std::exception&) { s.f.push_back(Formula(s.p.b[0])); }
  if (r.chance(0.7)) s.f.push_back(r.chance(0.5) ? Formula::True() : Formula::False());
  Asg a = g.asg(); s.env = s.p.env(a);
  for (auto& x : s.e) s.se.push_back(ser(x));
  for (auto& x : s.f) s.sf.push_back(ser(x));
  int nt = r.range(2, 8), n = r.range(5, 40);
  Variable::Id base = Variable("mark").get_id();
  std::vector<uint64_t> seeds; for (int t = 0; t < nt; ++t) seeds.push_back(r.u64());
  if (r.chance(0.3)) for (auto& q : seeds) q = seeds[0];  // every thread does the same
  std::vector<std::unique_ptr<Worker>> w;
  Box2 box;
  c.note(S(nt) + " threads, " + S(n) + " operations each on " + cut([&] { std::string t; for (auto& x : s.e) t += x.to_string() + "; "; for (auto& x : s.f) t += x.to_string() + "; "; return t; }(), 1500));
  for (int t = 0; t < nt; ++t) w.emplace_back(new Worker(seeds[t], s, &box, base));
  {
    Gate gate(nt); std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { gate.wait(); w[t]->run(n); });
    for (auto& t : th) t.join();
  }
  // the shared objects are what they were
  for (size_t i = 0; i < s.e.size(); ++i) { c.eval(); if (ser(s.e[i]) != s.se[i]) c.violation("shared-expression", "a shared expression became " + cut(s.e[i].to_string(), 200)); }
  for (size_t i = 0; i < s.f.size(); ++i) { c.eval(); if (ser(s.f[i]) != s.sf[i]) c.violation("shared-formula", "a shared formula became " + cut(s.f[i].to_string(), 200)); }
  // fresh variables of different threads are distinct
  std::map<Variable::Id, int> owner;
  for (int t = 0; t < nt; ++t) for (auto& v : w[t]->fresh) { c.eval(); auto it = owner.emplace(v.get_id(), t); if (it.first->second != t) c.violation("fresh-distinct", "threads " + S(t) + " and " + S(it.first->second) + " introduced the same variable " + v.get_name()); }
  std::string sig;
  for (int t = 0; t < nt; ++t) {
    for (auto& x : w[t]->bad) c.violation("handed-over", x);
    c.count("operations", w[t]->steps); c.count("handed_over", w[t]->handed); c.count("fresh_variables", (int64_t)w[t]->fresh.size());
    // alone: the same program in one thread
    Worker alone(seeds[t], s, nullptr, base);
    alone.run(n);
    c.eval((int64_t)alone.out.size());
    for (size_t i = 0; i < std::max(alone.out.size(), w[t]->out.size()); ++i)
      if (i >= alone.out.size() || i >= w[t]->out.size() || alone.out[i] != w[t]->out[i]) { c.violation("same-result", "result " + S((long long)i) + " of thread " + S(t) + " (of " + S(nt) + ") differs from the one obtained alone"); break; }
    if (!w[t]->out.empty()) sig += w[t]->out.back();
  }
  int prev = -1, sw = 0; std::string order; for (auto& q : owner) { if (q.second != prev) { ++sw; order += S(q.second) + "."; } prev = q.second; }
  c.count("fresh_variable_switches", sw);
  // everything the threads allocated is released
  if (c.cur % 4 == 0) {
    Worker warm(seeds[0], s, nullptr, base); warm.run(n);
    auto once = [&] { Box2 bx; Gate gate(nt); std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { Worker x(seeds[t], s, &bx, base); gate.wait(); x.run(n); }); for (auto& t : th) t.join(); };
    once();
    size_t m0 = __sanitizer_get_current_allocated_bytes(); once(); size_t m1 = __sanitizer_get_current_allocated_bytes(); once(); size_t m2 = __sanitizer_get_current_allocated_bytes(); once(); size_t m3 = __sanitizer_get_current_allocated_bytes();
    c.eval(); c.count("leak_checks");
    if (m1 > m0 && m2 > m1 && m3 > m2) c.violation("leak", "the memory in use grows every time the threads run: " + S(m0) + ", " + S(m1) + ", " + S(m2) + ", " + S(m3) + " bytes");
  }
  c.nontrivial(order + sig);
}

// ---------------- C27 ----------------
struct Task { std::atomic<int> runs{0}; std::atomic<int> state{0}; /* 1 accepted, 2 refused */ std::atomic<int> tid{-7}; std::atomic<long> begin{0}, end{0}, enq{0}; std::atomic<size_t> thread{0}; };
struct Boom { int k; };
struct Rig {
  Ctx& c; std::atomic<long> clock{1};
  std::deque<Task> tasks; std::mutex m;  // m guards tasks (growth) and msgs
  std::vector<std::string> msgs;
  explicit Rig(Ctx& x) : c(x) {}
  Task* fresh() { std::lock_guard<std::mutex> l(m); tasks.emplace_back(); return &tasks.back(); }
  void say(const std::string& s) { std::lock_guard<std::mutex> l(m); msgs.push_back(s); }
  static size_t me() { return std::hash<std::thread::id>{}(std::this_thread::get_id()); }
  static void body(Rig* rg, Task* t, uint64_t seed) {
    t->begin = rg->clock++; t->runs++; t->tid = ThreadPool::get_thread_id(); t->thread = me();
    Rng q(seed); for (int i = q.below(4); i-- > 0;) jolt(q);
    if (ThreadPool::get_thread_id() != t->tid) rg->say("the identifier of a worker changed during a task");
    t->end = rg->clock++;
  }
};
// One pool: submission from the owner, from other threads and from tasks, then destruction.
void one_pool(Rig& rg, Rng r, int workers, bool owner_fresh, std::string* sig, int depth) {
  Ctx& c = rg.c;
  const int own = ThreadPool::get_thread_id();
  if (owner_fresh && own != 0) rg.say("a thread that never was a worker has the identifier " + S(own));
  std::vector<Task*> mine; std::mutex mm;
  auto add = [&](Task* t) { std::lock_guard<std::mutex> l(mm); mine.push_back(t); };
  std::atomic<int> values{0};
  std::function<void(Rng, int, int)> submit;  // outlives the pool: tasks use it
  {
    ThreadPool pool(workers);
    submit = [&](Rng q, int n, int level) {
      std::vector<std::pair<std::future<int>, int>> futs;
      for (int i = 0; i < n; ++i) {
        Task* t = rg.fresh(); add(t); uint64_t s = q.u64(); Rig* pr = &rg; int want = (int)(s & 0xffff);
        int kind = q.below(6);
#ifdef __SANITIZE_THREAD__
        if (kind == 1) kind = 0;  // exception objects are counted inside the uninstrumented libstdc++
#endif
        t->enq = rg.clock++;
        try {
          if (kind == 0) { futs.emplace_back(pool.enqueue([pr, t, s, want] { Rig::body(pr, t, s); return want; }), want); }
          else if (kind == 1) { auto f = pool.enqueue([pr, t, s, want]() -> int { Rig::body(pr, t, s); throw Boom{want}; }); t->state = 1;
            if (level == 0) { bool ok = false; try { f.get(); } catch (const Boom& b) { ok = b.k == want; } if (!ok) rg.say("a task that threw delivered something else"); } continue; }
          else if (kind == 2 && level < 2) { int m = q.below(3); auto sub = &submit; pool.enqueue([pr, t, s, sub, m, level] { Rig::body(pr, t, s); (*sub)(Rng(s ^ 77), m, level + 1); }); }
          else if (kind == 3) { auto f = pool.enqueue([pr, t](uint64_t seed, int k) { Rig::body(pr, t, seed); return k + 1; }, s, want - 1); futs.emplace_back(std::move(f), want); }
          else pool.enqueue([pr, t, s] { Rig::body(pr, t, s); });
          t->state = 1;
        } catch (const std::runtime_error&) { t->state = 2; }
        jolt(q);
        if (!futs.empty() && level == 0 && q.chance(0.3)) { auto f = std::move(futs.back()); futs.pop_back(); if (f.first.get() != f.second) rg.say("a future delivered a wrong value"); else ++values; }
      }
      if (level == 0) for (auto& f : futs) if (q.chance(0.5)) { if (f.first.get() != f.second) rg.say("a future delivered a wrong value"); else ++values; }
    };
    int nsub = r.below(4); std::vector<std::thread> subs; Gate g(nsub + 1);
    for (int k = 0; k < nsub; ++k) { uint64_t s = r.u64(); int n = r.below(12); subs.emplace_back([&, s, n] { g.wait(); submit(Rng(s), n, 0); if (ThreadPool::get_thread_id() != 0) rg.say("a submitting thread that never was a worker has the identifier " + S(ThreadPool::get_thread_id())); }); }
    g.wait();
    submit(Rng(r.u64()), r.below(20), 0);
    // every worker exists: that many tasks wait for each other
    if (r.chance(0.3)) {
      auto gate = std::make_shared<std::atomic<int>>(0); std::vector<std::future<bool>> fs; Rig* pr = &rg;
      for (int k = 0; k < workers; ++k) { Task* t = rg.fresh(); add(t); t->enq = rg.clock++; fs.push_back(pool.enqueue([gate, workers, pr, t] { Rig::body(pr, t, 1); ++*gate; auto until = std::chrono::steady_clock::now() + std::chrono::seconds(40); while (*gate < workers) { if (std::chrono::steady_clock::now() > until) return false; std::this_thread::yield(); } return true; })); t->state = 1; }
      for (auto& f : fs) if (!f.get()) rg.say(S(workers) + " tasks waiting for each other never ran at the same time in a pool of that size");
    }
    if (depth > 0 && r.chance(0.5)) { std::string inner; one_pool(rg, Rng(r.u64()), r.range(1, 4), false, &inner, 0); *sig += "[" + inner + "]"; }  // another pool meanwhile
    for (auto& s : subs) s.join();
  }
  long done = rg.clock++;
  if (ThreadPool::get_thread_id() != own) rg.say("the identifier of the owner changed from " + S(own) + " to " + S(ThreadPool::get_thread_id()));
  std::map<size_t, std::set<int>> ids; std::map<int, std::set<size_t>> threads;
  std::vector<std::pair<long, int>> order; long refused = 0;
  for (Task* t : mine) {
    c.eval(3);
    int want = t->state == 1 ? 1 : 0; if (t->state == 2) ++refused;
    if (t->runs != want) rg.say("a task that was " + std::string(want ? "accepted" : "refused") + " ran " + S(t->runs) + " times");
    if (!t->runs) continue;
    if (t->begin < t->enq) rg.say("a task ran before it was submitted");
    if (!t->end || t->end > done) rg.say("a task had not finished when the pool was destroyed");
    ids[t->thread].insert(t->tid); threads[t->tid].insert(t->thread);
    order.emplace_back(t->begin, t->tid);
    if (t->tid < 1 || t->tid > workers) rg.say("a worker of a pool of " + S(workers) + " has the identifier " + S(t->tid));
    if (t->thread == Rig::me()) rg.say("a task ran in the thread that owns the pool");
  }
  for (auto& q : ids) if (q.second.size() != 1) rg.say("a worker had two identifiers");
  for (auto& q : threads) if (q.second.size() != 1) rg.say("two workers of one pool have the identifier " + S(q.first));
  if ((int)ids.size() > workers) rg.say("a pool of " + S(workers) + " used " + S((long long)ids.size()) + " threads");
  std::sort(order.begin(), order.end());
  for (auto& q : order) *sig += S(q.second);
  c.count("tasks", (int64_t)mine.size()); c.count("refused_tasks", refused); c.count("values", values); c.count("pools"); c.count("workers_seen", (int64_t)ids.size());
}
void c27(Ctx& c) {
  Rng r = c.rng(); Rig rg(c); std::string sig;
  int pools = r.range(1, 3);
  for (int i = 0; i < pools; ++i) {
    int w = r.range(1, 8); uint64_t s = r.u64();
    c.note("pool " + S(i) + " of " + S(w) + " workers");
    if (r.chance(0.4)) { std::thread t([&] { one_pool(rg, Rng(s), w, true, &sig, 1); }); t.join(); sig += "T"; }
    else one_pool(rg, Rng(s), w, true, &sig, 1);
    sig += "|";
  }
  for (auto& m : rg.msgs) c.violation(m.substr(0, 30), m + " (" + S(pools) + " pools)");
  c.nontrivial(sig);
}
}  // namespace

int main(int argc, char** argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20); pthread_setattr_default_np(&at);
  return run_main(argc, argv, {{"C11", c11}, {"C12", c12}, {"C27", c27}});
}
