// C22 (scoped containers), C23 (option sources), C24 (integer conversions), C25 (timers), C26 (guards),
// C31 (file names), C32 (dynamic bit sets).
#include <fenv.h>
#include <ftw.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>

#include <algorithm>
#include <atomic>
#include <iomanip>
#include <limits>
#include <set>
#include <stdexcept>
#include <thread>

#include "common.h"
#include "dreal/util/dynamic_bitset.h"
#include "dreal/util/filesystem.h"
#include "dreal/util/math.h"
#include "dreal/util/option_value.h"
#include "dreal/util/precision_guard.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
#include "dreal/util/signal_handler_guard.h"
#include "dreal/util/timer.h"
#include "dreal/symbolic/symbolic.h"
using namespace vh;
using namespace dreal;

namespace {
std::string S(int64_t i) { return std::to_string(i); }
std::string tail(const std::string& s) { return s.size() > 900 ? "..." + s.substr(s.size() - 900) : s; }

// ---------------- C22 ----------------
// Element types: plain ints and strings (heap), plus a hash that collides.
struct BadHash { size_t operator()(int k) const { return (size_t)(k % 2); } };
template <class T> T make(int i);
template <> int make<int>(int i) { return i; }
template <> std::string make<std::string>(int i) { return "key number " + S(i) + std::string(20, 'x'); }
template <class T> std::string show(const T& t) { std::ostringstream o; o << t; return o.str().substr(0, 14); }

template <class T>
void scoped_vector(Ctx& c, Rng& r) {
  std::string log = "vector:";
  struct M { std::vector<T> v; std::vector<std::vector<T>> st; };
  std::vector<ScopedVector<T>> sv(2); M m[2];
  const int n = r.range(5, 60);
  const int range = r.range(1, 4);
  for (int k = 0; k < n; ++k) {
    int i = r.below(2); auto& a = sv[i]; M& b = m[i];
    std::string op;
    switch (r.below(11)) {
      case 0: case 1: case 2: { T x = make<T>(r.below(range)); op = "push_back " + show(x); T y = x; if (r.chance(0.5)) a.push_back(x); else a.push_back(std::move(y)); b.v.push_back(x); break; }
      case 3: case 4: op = "push"; a.push(); b.st.push_back(b.v); break;
      case 5: case 6: case 7: {
        op = "pop";
        size_t cnt = 0; bool thrown = false;
        try { cnt = a.pop(); } catch (const std::runtime_error&) { thrown = true; }
        c.eval();
        if (thrown != b.st.empty()) { c.violation("vector-pop-error", log + " " + op + (thrown ? " refused with an open scope" : " accepted without a scope")); return; }
        if (!thrown) { size_t want = b.v.size() > b.st.back().size() ? b.v.size() - b.st.back().size() : 0; if (cnt != want) c.violation("vector-pop-count", log + " pop returned " + S(cnt) + " instead of " + S(want)); b.v = b.st.back(); b.st.pop_back(); } else c.count("pop_without_scope");
        break;
      }
      case 8: { op = "copy"; int j = 1 - i; sv[j] = a; m[j] = b; break; }
      case 9: { op = "move-round"; ScopedVector<T> t(std::move(a)); a = std::move(t); break; }
      default: { op = "copy-construct"; ScopedVector<T> t(a); t.push(); t.push_back(make<T>(1)); t.pop(); a = t; break; }
    }
    log += " " + S(i) + "." + op;
    c.note(tail(log));
    for (int j = 0; j < 2; ++j) {
      const auto& x = sv[j]; auto& y = sv[j]; const auto& v = m[j].v;
      c.eval(6);
      bool ok = x.size() == v.size() && x.empty() == v.empty() && x.get_vector() == v && y.get_vector() == v && std::vector<T>(x.begin(), x.end()) == v && std::vector<T>(x.cbegin(), x.cend()) == v && std::vector<T>(y.begin(), y.end()) == v;
      std::vector<T> rv(v.rbegin(), v.rend());
      ok = ok && std::vector<T>(x.rbegin(), x.rend()) == rv && std::vector<T>(x.crbegin(), x.crend()) == rv && std::vector<T>(y.rbegin(), y.rend()) == rv && x.get_reverse() == rv;
      if (ok && !v.empty()) ok = x.first() == v.front() && x.last() == v.back() && y.first() == v.front() && y.last() == v.back();
      for (size_t q = 0; ok && q < v.size(); ++q) ok = x[q] == v[q] && y[q] == v[q];
      if (!ok) { c.violation("vector-content", "after " + tail(log) + ": vector " + S(j) + " holds " + S(x.size()) + " elements that differ from the expected " + S(v.size())); return; }
    }
    for (int j = 0; j < 2; ++j) { c.eval(); bool lt = sv[j] < sv[1 - j]; if (lt != (m[j].v < m[1 - j].v)) c.violation("vector-less", "after " + tail(log) + ": operator< is " + S(lt) + " for vectors of sizes " + S(m[j].v.size()) + ", " + S(m[1 - j].v.size())); }
  }
  c.nontrivial(log);
}
template <class K, class H>
void scoped_set(Ctx& c, Rng& r) {
  std::string log = "set:";
  using SS = ScopedUnorderedSet<K, H>;
  struct M { std::set<K> v; std::vector<std::set<K>> st; };
  std::vector<SS> sv(2); M m[2];
  const int n = r.range(5, 80), keys = r.range(1, 8);
  for (int k = 0; k < n; ++k) {
    int i = r.below(2); auto& a = sv[i]; M& b = m[i];
    std::string op;
    int w = r.below(14);
    if (w < 5) { K x = make<K>(r.below(keys)); op = "insert " + show(x); a.insert(x); b.v.insert(x); }
    else if (w < 8) { op = "push"; a.push(); b.st.push_back(b.v); }
    else if (w < 11) {
      op = "pop"; bool thrown = false;
      try { a.pop(); } catch (const std::runtime_error&) { thrown = true; }
      c.eval();
      if (thrown != b.st.empty()) { c.violation("set-pop-error", log + " " + op); return; }
      if (!thrown) { b.v = b.st.back(); b.st.pop_back(); } else c.count("pop_without_scope");
    } else if (w == 11) { op = "copy"; sv[1 - i] = a; m[1 - i] = b; }
    else if (w == 12) { op = "move-round"; SS t(std::move(a)); a = std::move(t); }
    else if (r.chance(0.3)) { op = "clear"; a.clear(); b = M(); }
    log += " " + S(i) + "." + op;
    c.note(tail(log));
    for (int j = 0; j < 2; ++j) {
      const SS& x = sv[j]; const auto& v = m[j].v;
      bool ok = x.size() == v.size() && x.empty() == v.empty() && std::set<K>(x.begin(), x.end()) == v && std::set<K>(x.cbegin(), x.cend()) == v;
      for (int q = 0; ok && q < keys; ++q) { K key = make<K>(q); ok = x.count(key) == v.count(key) && (x.find(key) != x.end()) == (v.count(key) > 0) && (x.find(key) == x.cend() || *x.find(key) == key); }
      c.eval(4);
      if (!ok) { c.violation("set-content", "after " + tail(log) + ": set " + S(j) + " differs (" + S(x.size()) + " elements, expected " + S(v.size()) + ")"); return; }
    }
  }
  c.nontrivial(log);
}
template <class K, class V, class H>
void scoped_map(Ctx& c, Rng& r) {
  std::string log = "map:";
  using SM = ScopedUnorderedMap<K, V, H>;
  struct M { std::map<K, V> v; std::vector<std::map<K, V>> st; };
  std::vector<SM> sv(2); M m[2];
  const int n = r.range(5, 80), keys = r.range(1, 7);
  for (int k = 0; k < n; ++k) {
    int i = r.below(2); auto& a = sv[i]; M& b = m[i];
    std::string op;
    int w = r.below(16);
    if (w < 7) { K x = make<K>(r.below(keys)); V y = make<V>(r.below(5)); op = "insert " + show(x) + "=" + show(y); a.insert(x, y); b.v[x] = y; if (!b.st.empty() && b.st.back().count(x)) c.count("updates_below_push"); }
    else if (w < 10) { op = "push"; a.push(); b.st.push_back(b.v); }
    else if (w < 13) {
      op = "pop"; bool thrown = false;
      try { a.pop(); } catch (const std::runtime_error&) { thrown = true; }
      c.eval();
      if (thrown != b.st.empty()) { c.violation("map-pop-error", log + " " + op); return; }
      if (!thrown) { b.v = b.st.back(); b.st.pop_back(); } else c.count("pop_without_scope");
    } else if (w == 13) { op = "copy"; sv[1 - i] = a; m[1 - i] = b; }
    else if (w == 14) { op = "move-round"; SM t(std::move(a)); a = std::move(t); }
    else if (r.chance(0.3)) { op = "clear"; a.clear(); b = M(); }
    else if (!b.v.empty()) { K x = b.v.begin()->first; op = "insert-own-value"; a.insert(x, a[x]); }
    log += " " + S(i) + "." + op;
    c.note(tail(log));
    for (int j = 0; j < 2; ++j) {
      const SM& x = sv[j]; const auto& v = m[j].v;
      bool ok = x.size() == v.size() && x.empty() == v.empty() && std::map<K, V>(x.begin(), x.end()) == v && std::map<K, V>(x.cbegin(), x.cend()) == v;
      std::string at;
      for (int q = 0; ok && q < keys; ++q) {
        K key = make<K>(q); auto it = v.find(key);
        ok = x.count(key) == v.count(key) && (x.find(key) != x.end()) == (it != v.end()) && (it == v.end() || x.find(key)->second == it->second);
        bool thrown = false; V got{};
        try { got = x[key]; } catch (const std::runtime_error&) { thrown = true; }
        ok = ok && thrown == (it == v.end()) && (thrown || got == it->second);
        if (!ok) at = " at " + show(key);
      }
      c.eval(5);
      if (!ok) { c.violation("map-content", "after " + tail(log) + ": map " + S(j) + " differs" + at); return; }
    }
  }
  c.nontrivial(log);
}
void c22(Ctx& c) {
  Rng r = c.rng();
  switch (r.below(7)) {
    case 0: scoped_vector<int>(c, r); break;
    case 1: scoped_vector<std::string>(c, r); break;
    case 2: scoped_set<int, BadHash>(c, r); break;
    case 3: scoped_set<std::string, std::hash<std::string>>(c, r); break;
    case 4: scoped_map<int, std::string, BadHash>(c, r); break;
    case 5: scoped_map<std::string, int, std::hash<std::string>>(c, r); break;
    default: scoped_map<int, int, std::hash<int>>(c, r); break;
  }
}

// ---------------- C23 ----------------
template <class T> T optval(Rng& r);
template <> double optval<double>(Rng& r) { return r.range(0, 4) * 0.25; }
template <> bool optval<bool>(Rng& r) { return r.chance(0.5); }
template <> int optval<int>(Rng& r) { return r.range(0, 5); }
template <> std::string optval<std::string>(Rng& r) { return "value of an option, number " + S(r.below(6)); }
template <class T>
void option(Ctx& c, Rng& r) {
  const T init = optval<T>(r);
  std::vector<OptionValue<T>> o(2, OptionValue<T>(init));
  T val[2] = {init, init}; int rank[2] = {0, 0};
  std::string log = "default=" + show(init);
  const int n = r.range(1, 14);
  for (int k = 0; k < n; ++k) {
    int i = r.below(2); T v = optval<T>(r), w = v;
    int op = r.below(6);
    if (op <= 2) {
      // code is last in most histories, so that the lower sources are seen to compete
      if (op == 2 && r.chance(0.6)) op = r.below(2);
      const int src = op == 0 ? 1 : op == 1 ? 2 : 3;  // file < command line < code
      if (src == 1) o[i].set_from_file(v); else if (src == 2) o[i].set_from_command_line(v); else if (r.chance(0.5)) o[i] = v; else o[i] = std::move(w);
      if (src >= rank[i]) { val[i] = v; rank[i] = src; } else c.count("lower_source_ignored");
      log += std::string(" ") + S(i) + (src == 1 ? ".file=" : src == 2 ? ".cmdline=" : ".code=") + show(v);
    } else if (op == 3) { o[1 - i] = o[i]; val[1 - i] = val[i]; rank[1 - i] = rank[i]; log += " copy" + S(i); }
    else if (op == 4) { OptionValue<T> t(std::move(o[i])); o[i] = std::move(t); log += " move" + S(i); }
    else { OptionValue<T> t(o[i]); t.set_from_command_line(optval<T>(r)); t = optval<T>(r); log += " copy-changed"; }
    c.note(log);
    for (int j = 0; j < 2; ++j) { c.eval(); if (!(o[j].get() == val[j])) { c.violation("option-value", "after " + log + ": option " + S(j) + " is " + show(o[j].get()) + " instead of " + show(val[j])); return; } }
  }
  c.nontrivial(log);
}
void c23(Ctx& c) {
  Rng r = c.rng();
  switch (r.below(4)) { case 0: option<double>(c, r); break; case 1: option<bool>(c, r); break; case 2: option<int>(c, r); break; default: option<std::string>(c, r); }
}

// ---------------- C24 ----------------
void c24(Ctx& c) {
  Rng r = c.rng();
  for (int k = 0; k < 200; ++k) {
    double d;
    switch (r.below(9)) {
      case 0: { uint64_t b = r.u64(); memcpy(&d, &b, 8); break; }
      case 1: d = r.range(-1000, 1000); break;
      case 2: d = r.range(-1000, 1000) + r.pick(std::vector<double>{0.5, 1e-9, -1e-9, 0.25, 4.9e-324}); break;
      case 3: d = 2147483647.0 + r.range(-3, 3) * r.pick(std::vector<double>{1, 0.5, 1e-6}); break;
      case 4: d = -2147483648.0 + r.range(-3, 3) * r.pick(std::vector<double>{1, 0.5, 1e-6}); break;
      case 5: d = std::ldexp(1.0, r.range(-1074, 1023)) * (r.chance(0.5) ? 1 : -1); break;
      case 6: { static const std::vector<double> s{0.0, -0.0, HUGE_VAL, -HUGE_VAL, NAN, 4294967296.0, 4294967295.0, 9223372036854775808.0, -9223372036854775808.0, 1e300, -1e300, 2147483648.0, -2147483649.0, 4.9e-324}; d = r.pick(s); break; }
      case 7: d = std::nextafter((double)r.range(-5, 5), r.chance(0.5) ? 1e9 : -1e9); break;
      default: d = (double)(int32_t)r.u64(); break;
    }
    // exact, without floating-point comparison of the range
    bool want = std::isfinite(d) && d == std::trunc(d) && (__float128)d >= (__float128)std::numeric_limits<int>::lowest() && (__float128)d <= (__float128)std::numeric_limits<int>::max();
    char b[64]; snprintf(b, sizeof b, "%.17g", d);
    c.note(b);
    c.eval();
    c.count(want ? "integers" : "non_integers");
    if (is_integer(d) != want) c.violation("is_integer", std::string("is_integer(") + b + ") is " + (want ? "false" : "true"));
    c.nontrivial(b);
    int64_t i;
    switch (r.below(7)) {
      case 0: i = (int64_t)r.u64(); break;
      case 1: i = (int64_t)std::numeric_limits<int>::max() + r.range(-3, 3); break;
      case 2: i = (int64_t)std::numeric_limits<int>::min() + r.range(-3, 3); break;
      case 3: i = ((int64_t)1 << 53) + r.range(-5, 5); if (r.chance(0.5)) i = -i; break;
      case 4: i = ((int64_t)1 << r.below(63)) + r.range(-2, 2); if (r.chance(0.5)) i = -i; break;
      case 5: i = r.chance(0.5) ? std::numeric_limits<int64_t>::max() - r.below(3) : std::numeric_limits<int64_t>::min() + r.below(3); break;
      default: i = r.range(-100000, 100000); break;
    }
    c.note("int64 " + S(i));
    bool thrown = false; int x = 0; double y = 0;
    try { x = convert_int64_to_int(i); } catch (const std::runtime_error&) { thrown = true; }
    c.eval(2);
    const bool fits = i >= std::numeric_limits<int>::min() && i <= std::numeric_limits<int>::max();
    if (thrown ? fits : (int64_t)x != i) c.violation("int64-to-int", S(i) + (thrown ? " is refused" : " becomes " + S(x)));
    thrown = false;
    try { y = convert_int64_to_double(i); } catch (const std::runtime_error&) { thrown = true; }
    const bool safe = i >= -((int64_t)1 << 53) && i <= ((int64_t)1 << 53);  // every integer in this range is exact
    if (thrown && safe) c.violation("int64-to-double-refused", S(i) + " is refused");
    if (!thrown && (__float128)y != (__float128)i) c.violation("int64-to-double", S(i) + " becomes " + std::to_string(y));
    if (thrown) c.count("refused");
  }
}

// ---------------- C25 ----------------
using SC = std::chrono::steady_clock;
void spin(int us) { auto t = SC::now(); while (SC::now() - t < std::chrono::microseconds(us)) {} }
void c25(Ctx& c) {
  Rng r = c.rng();
  using ns = std::chrono::nanoseconds;
  auto N = [](SC::duration d) { return (double)std::chrono::duration_cast<ns>(d).count(); };
  const double slack = 3000;  // ns
  std::string log;
  Timer t[2];
  struct M { bool run = false; double lo = 0, hi = 0; SC::time_point a, b; } m[2];  // total in [lo, hi]; current run began in [a, b]
  std::vector<std::pair<int, std::unique_ptr<TimerGuard>>> guards;
  std::vector<std::pair<int, bool>> ginfo;
  double last[2] = {0, 0}; bool comparable[2] = {true, true};
  const int n = r.range(4, 25);
  auto start = [&](int i, SC::time_point x, SC::time_point y) { m[i].run = true; m[i].lo = m[i].hi = 0; m[i].a = x; m[i].b = y; comparable[i] = false; };
  auto resume = [&](int i, SC::time_point x, SC::time_point y) { if (!m[i].run) { m[i].run = true; m[i].a = x; m[i].b = y; } };
  auto pause = [&](int i, SC::time_point x, SC::time_point y) { if (m[i].run) { m[i].run = false; m[i].lo += std::max(0.0, N(x - m[i].b)); m[i].hi += N(y - m[i].a); } };
  for (int k = 0; k < n; ++k) {
    int i = r.below(2);
    auto x = SC::now(); std::string op; SC::time_point y;
    switch (r.below(10)) {
      case 0: op = "start"; t[i].start(); y = SC::now(); start(i, x, y); break;
      case 1: case 2: op = "pause"; t[i].pause(); y = SC::now(); pause(i, x, y); break;
      case 3: case 4: op = "resume"; t[i].resume(); y = SC::now(); resume(i, x, y); break;
      case 5: { bool en = r.chance(0.7), st = r.chance(0.7); op = std::string("guard(") + (en ? "enabled" : "disabled") + (st ? ",start)" : ",nostart)"); guards.emplace_back(i, std::unique_ptr<TimerGuard>(st && r.chance(0.5) ? new TimerGuard(&t[i], en) : new TimerGuard(&t[i], en, st))); y = SC::now(); ginfo.push_back({i, en}); if (en && st) resume(i, x, y); break; }
      case 6: if (!guards.empty()) { int g = r.below((int)guards.size()); i = ginfo[g].first; op = "guard-destroy"; guards[g].second.reset(); y = SC::now(); if (ginfo[g].second) pause(i, x, y); guards.erase(guards.begin() + g); ginfo.erase(ginfo.begin() + g); } break;
      case 7: if (!guards.empty()) { int g = r.below((int)guards.size()); i = ginfo[g].first; op = "guard-pause"; guards[g].second->pause(); y = SC::now(); if (ginfo[g].second) pause(i, x, y); } break;
      case 8: if (!guards.empty()) { int g = r.below((int)guards.size()); i = ginfo[g].first; op = "guard-resume"; guards[g].second->resume(); y = SC::now(); if (ginfo[g].second) resume(i, x, y); } break;
      default: { op = "copy"; Timer q(t[i]); t[1 - i] = q; m[1 - i] = m[i]; last[1 - i] = last[i]; comparable[1 - i] = comparable[i]; break; }
    }
    log += " " + S(i) + "." + op;
    c.note(tail(log));
    spin(r.range(5, 60));
    for (int j = 0; j < 2; ++j) {
      auto p = SC::now();
      double e = N(t[j].elapsed()), s;
      auto q = SC::now();
      s = t[j].seconds() * 1e9;
      auto q2 = SC::now();
      double lo = m[j].lo, hi = m[j].hi, lo2 = lo, hi2 = hi;
      if (m[j].run) { lo += std::max(0.0, N(p - m[j].b)); hi += N(q - m[j].a); lo2 += std::max(0.0, N(q - m[j].b)); hi2 += N(q2 - m[j].a); }
      c.eval(3);
      std::string st = " (reading " + S((int64_t)e) + " ns, running time between " + S((int64_t)lo) + " and " + S((int64_t)hi) + " ns)";
      if (t[j].is_running() != m[j].run) { c.violation("running", "after" + tail(log) + ": timer " + S(j) + " reports running=" + S(t[j].is_running())); return; }
      if (e < lo - slack || e > hi + slack) { c.violation("elapsed", "after" + tail(log) + ": timer " + S(j) + st); return; }
      if (s < lo2 - slack - lo2 * 1e-9 || s > hi2 + slack + hi2 * 1e-9) { c.violation("seconds", "after" + tail(log) + ": timer " + S(j) + " reads " + S((int64_t)s) + " ns" + st); return; }
      if (!m[j].run) { spin(3); double e2 = N(t[j].elapsed()); c.eval(); if (e2 != e) { c.violation("paused-moves", "after" + tail(log) + ": a paused timer reads " + S((int64_t)e) + " then " + S((int64_t)e2)); return; } }
      if (comparable[j] && e < last[j]) { c.violation("decreases", "after" + tail(log) + ": reading went from " + S((int64_t)last[j]) + " to " + S((int64_t)e)); return; }
      last[j] = e; comparable[j] = true;
      if (m[j].run) c.count("readings_while_running");
    }
  }
  c.nontrivial(log);
}

// ---------------- C26 ----------------
volatile sig_atomic_t hits[4];
void h0(int) { hits[0] = hits[0] + 1; }
void h1(int) { hits[1] = hits[1] + 1; }
void h2(int) { hits[2] = hits[2] + 1; }
void hi3(int, siginfo_t*, void*) { hits[3] = hits[3] + 1; }
typedef void (*H)(int);
std::string act(const struct sigaction& a) {
  char b[96]; std::string m; for (int s = 1; s < 32; ++s) m += sigismember(&a.sa_mask, s) ? '1' : '0';
  const void* p = (a.sa_flags & SA_SIGINFO) ? (const void*)a.sa_sigaction : (const void*)a.sa_handler;
  snprintf(b, sizeof b, "%p flags %x mask ", p, (unsigned)a.sa_flags & ~0x04000000u);
  return b + m;
}
int round_seen() {
  volatile double one = 1, ten = 10, mone = -1;
  volatile double p = one / ten, q = mone / ten;
  const double d = 0x1.9999999999999p-4, u = 0x1.999999999999ap-4;  // 1/10 lies between, nearer to u
  if (p == u && q == -d) return FE_UPWARD;
  if (p == d && q == -u) return FE_DOWNWARD;
  if (p == d && q == -d) return FE_TOWARDZERO;
  if (p == u && q == -u) return FE_TONEAREST;
  return -1;
}
struct Boom {};
void c26(Ctx& c) {
  Rng r = c.rng();
  static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  static const int sigs[] = {SIGUSR1, SIGUSR2, SIGWINCH};
  struct Restore { int m = fegetround(); struct sigaction a[3]; Restore() { for (int i = 0; i < 3; ++i) sigaction(sigs[i], nullptr, &a[i]); } ~Restore() { fesetround(m); for (int i = 0; i < 3; ++i) sigaction(sigs[i], &a[i], nullptr); } } restore;
  std::string log;
  std::ostringstream os[2];
  os[0].precision(r.range(0, 20)); os[1].precision(r.range(0, 20));
  fesetround(modes[r.below(4)]);
  for (int i = 0; i < 3; ++i) {
    struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask);
    switch (r.below(5)) { case 0: a.sa_handler = SIG_IGN; break; case 1: a.sa_handler = h0; a.sa_flags = SA_RESTART; break; case 2: a.sa_handler = h1; sigaddset(&a.sa_mask, SIGTERM); a.sa_flags = SA_NODEFER; break; case 3: a.sa_sigaction = hi3; a.sa_flags = SA_SIGINFO; sigaddset(&a.sa_mask, SIGUSR2); break; default: a.sa_handler = i == 2 ? SIG_DFL : h2; }
    sigaction(sigs[i], &a, nullptr);
  }
  auto snapshot = [&]() {
    std::string s = "round " + S(fegetround()) + " seen " + S(round_seen());
    for (auto& o : os) s += " prec " + S(o.precision()) + " flags " + S(o.flags()) + " width " + S(o.width());
    for (int g : sigs) { struct sigaction a; sigaction(g, nullptr, &a); s += " sig" + S(g) + " " + act(a); }
    return s;
  };
  int opened = 0;
  std::function<void(int)> level = [&](int depth) {
    if (depth <= 0) return;
    const std::string before = snapshot();
    const int kind = r.below(4);
    const bool leave = r.chance(0.3);
    std::string what;
    bool excepted = false;
    std::function<void()> body = [&] { int kids = r.below(3); if (depth > 1 && kids == 0) kids = 1; for (int i = 0; i < kids; ++i) level(depth - 1); if (leave) throw Boom(); };
    c.eval(); ++opened;
    try {
      if (kind == 0) {
        int i = r.below(2); int p = r.range(0, 25); bool dflt = r.chance(0.2);
        what = "precision(" + S(i) + "," + (dflt ? "default" : S(p)) + ")"; log += " [" + what; c.note(log);
        auto run = [&] {
          auto flags = os[i].flags(); auto other = os[1 - i].precision();
          if (os[i].precision() != (dflt ? std::numeric_limits<double>::max_digits10 : p) || os[i].flags() != flags || os[1 - i].precision() != other) c.violation("precision-in-force", log + ": precision is " + S(os[i].precision()));
          std::ostringstream ref; ref.precision(dflt ? 17 : p); ref.flags(os[i].flags()); ref << 0.1; os[i].str(""); os[i] << 0.1;
          if (ref.str() != os[i].str()) c.violation("precision-output", log + ": prints " + os[i].str());
          body();
          if (r.chance(0.3)) os[i].precision(3);  // changed inside: still restored
        };
        if (dflt) { PrecisionGuard g(&os[i]); run(); } else { PrecisionGuard g(&os[i], p); run(); }
      } else if (kind == 1) {
        int m = modes[r.below(4)]; what = "rounding(" + S(m) + ")"; log += " [" + what; c.note(log);
        RoundingModeGuard g(m);
        if (fegetround() != m || round_seen() != m) c.violation("rounding-in-force", log + ": mode is " + S(fegetround()) + ", divisions behave like " + S(round_seen()));
        body();
        if (r.chance(0.3)) fesetround(modes[r.below(4)]);
      } else if (kind == 2 || r.chance(0.7)) {
        int sg = r.below(3), hh = r.below(3); static const H hs[] = {h0, h1, h2};
        what = "signal(" + S(sigs[sg]) + ",h" + S(hh) + ")"; log += " [" + what; c.note(log);
        std::atomic_bool flag{r.chance(0.3)};
        {
          bool want_flag = false;
          try {
            SignalHandlerGuard g(sigs[sg], hs[hh], &flag);
            int before_hits = hits[hh]; raise(sigs[sg]);
            if (hits[hh] != before_hits + 1) c.violation("handler-in-force", log + ": the guard's handler did not run");
            struct sigaction now; sigaction(sigs[sg], nullptr, &now);
            if (now.sa_handler != hs[hh] || !(now.sa_flags & SA_RESTART)) c.violation("handler-registered", log + ": " + act(now));
            body();
            // the handlers of inner guards are gone again
            before_hits = hits[hh]; raise(sigs[sg]);
            if (hits[hh] != before_hits + 1) c.violation("handler-after-inner", log + ": the guard's handler does not run after inner guards ended");
            if (r.chance(0.5)) flag = true;
          } catch (...) { if (flag) c.violation("flag", log + ": flag still set after an exception"); throw; }
          (void)want_flag;
        }
        if (flag) c.violation("flag", log + ": flag still set after the guard ended");
      } else {
        what = "signal(KILL)"; log += " [" + what; c.note(log);
        std::atomic_bool flag{false}; bool thrown = false;
        try { SignalHandlerGuard g(SIGKILL, h0, &flag); } catch (const std::runtime_error&) { thrown = true; }
        if (!thrown) c.violation("sigkill-accepted", log);
        body();
      }
    } catch (const Boom&) { excepted = true; }
    log += excepted ? " !]" : " ]";
    if (excepted) c.count("left_by_exception");
    const std::string after = snapshot();
    if (after != before) { c.violation("not-restored-" + what.substr(0, what.find('(')), "history" + tail(log) + ": before " + before + "; after " + after); }
  };
  const int top = r.range(1, 3);
  for (int i = 0; i < top; ++i) level(r.range(1, 4));
  c.count("guards", opened);
  c.nontrivial(log);
}

// ---------------- C31 ----------------
std::string scratch;
int rm1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
void rm_scratch() { if (!scratch.empty()) nftw(scratch.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); }
void c31(Ctx& c) {
  Rng r = c.rng();
  if (scratch.empty()) {
    const char* t = getenv("TMPDIR"); std::string base = t && *t ? t : "/tmp";
    std::string tmpl = base + "/fsXXXXXX"; std::vector<char> b(tmpl.begin(), tmpl.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(3); }
    scratch = b.data(); atexit(rm_scratch);
  }
  static const std::vector<std::string> parts{"a", "b", "smt2", "dr", "file", "x.y", "..", ".", "", "a.b.c", "foo.smt2", ".hidden", "end.", "..smt2", " ", "\xc3\xa9", "smt2.dr", "very_long_component_name_to_leave_the_small_string_buffer.extension"};
  for (int k = 0; k < 40; ++k) {
    std::string name = r.chance(0.15) ? "/" : "";
    const int n = r.range(0, 4);
    for (int i = 0; i < n; ++i) { if (i) name += r.chance(0.75) ? "/" : (r.chance(0.7) ? "." : ""); name += r.pick(parts); }
    if (r.chance(0.1)) { name.clear(); for (int i = r.below(8); i > 0; --i) name += r.pick(std::vector<char>{'.', '/', 'a', 'b', '\0', ' '}); }
    c.note("extension of " + name);
    std::string last = name.substr(name.rfind('/') == std::string::npos ? 0 : name.rfind('/') + 1);
    std::string want = last.rfind('.') == std::string::npos ? "" : last.substr(last.rfind('.') + 1);
    c.eval();
    std::string got = get_extension(name);
    if (got != want) c.violation("extension", "get_extension(\"" + name + "\") is \"" + got + "\" instead of \"" + want + "\"");
    if (last != name && name.find('.') < name.rfind('/')) c.count("dots_in_directories");
    c.nontrivial(name);
  }
  // file system states, inside the scratch directory only
  const std::string p = scratch + "/" + S((int64_t)c.cur) + (r.chance(0.5) ? ".smt2" : "_f");
  const int kind = r.below(9);
  bool want = false; std::string what; std::string q = p;
  switch (kind) {
    case 0: what = "nothing"; break;
    case 1: { what = "empty file"; FILE* f = fopen(p.c_str(), "w"); fclose(f); want = true; break; }
    case 2: { what = "file"; FILE* f = fopen(p.c_str(), "w"); fputs("data", f); fclose(f); want = true; break; }
    case 3: what = "directory"; mkdir(p.c_str(), 0700); break;
    case 4: { what = "link to file"; FILE* f = fopen((p + "t").c_str(), "w"); fclose(f); if (symlink((p + "t").c_str(), p.c_str())) {} want = true; break; }
    case 5: what = "dangling link"; if (symlink((p + "nowhere").c_str(), p.c_str())) {} break;
    case 6: what = "link to directory"; if (symlink(scratch.c_str(), p.c_str())) {} break;
    case 7: what = "fifo"; mkfifo(p.c_str(), 0600); break;
    default: { what = "file with trailing component"; FILE* f = fopen(p.c_str(), "w"); fclose(f); q = p + (r.chance(0.5) ? "/" : "/x"); break; }
  }
  c.note("file_exists on " + what);
  c.eval(); c.count("kind_" + what);
  if (file_exists(q) != want) c.violation("file_exists-" + what, "file_exists is " + S(!want) + " for a " + what);
  if (file_exists("")) c.violation("file_exists-empty", "file_exists(\"\") is true");
  nftw(p.c_str(), rm1, 4, FTW_DEPTH | FTW_PHYS);
  remove((p + "t").c_str());
  c.eval(); if (file_exists(p)) c.violation("file_exists-removed", "file_exists is true for a removed " + what);
}

// ---------------- C32 ----------------
template <class B>
void bits(Ctx& c, Rng& r) {
  using DB = dynamic_bitset<B>;
  const int W = (int)DB::bits_per_block;
  std::string log = "block " + S(W) + ":";
  typedef std::vector<bool> M;
  std::vector<DB> d(3); std::vector<M> m(3);
  auto size = [&] { return r.chance(0.5) ? r.range(0, 2 * W + 3) : r.pick(std::vector<int>{0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W, 65, 130}); };
  auto str = [](const M& v) { std::string s; for (size_t i = v.size(); i-- > 0;) s += v[i] ? '1' : '0'; return s; };
  auto check = [&](int i) {
    const DB& a = d[i]; const M& v = m[i]; const size_t n = v.size();
    c.eval(8);
    std::string why;
    size_t cnt = 0, first = DB::npos; for (size_t k = n; k-- > 0;) if (v[k]) { ++cnt; first = k; }
    if (a.size() != n) why = "size " + S(a.size()) + " instead of " + S(n);
    else if (a.empty() != (n == 0)) why = "empty";
    else if (a.num_blocks() != (n + W - 1) / W) why = "num_blocks " + S(a.num_blocks());
    else if (a.count() != cnt) why = "count " + S(a.count()) + " instead of " + S(cnt);
    else if (a.any() != (cnt > 0)) why = "any";
    else if (a.none() != (cnt == 0)) why = "none";
    else if (a.all() != (cnt == n)) why = "all";
    else if (a.find_first() != first) why = "find_first " + S((int64_t)a.find_first()) + " instead of " + S((int64_t)first);
    else if (a.to_string() != str(v)) why = "to_string " + a.to_string();
    if (why.empty()) for (size_t k = 0; k < n && why.empty(); ++k) {
      if (a[k] != v[k] || a.test(k) != v[k]) why = "bit " + S(k);
      size_t nx = DB::npos; for (size_t q = k + 1; q < n; ++q) if (v[q]) { nx = q; break; }
      if (a.find_next(k) != nx) why = "find_next(" + S(k) + ") = " + S((int64_t)a.find_next(k)) + " instead of " + S((int64_t)nx);
    }
    if (why.empty()) { std::ostringstream o; o << a; if (o.str() != str(v)) why = "printed " + o.str(); }
    if (why.empty() && n && a.find_next(n - 1 + r.below(3)) != DB::npos) why = "find_next past the end";
    if (!why.empty()) c.violation("bitset", "after " + tail(log) + ": " + why + "; content should be " + str(v));
    return why.empty();
  };
  const int n = r.range(5, 40);
  for (int k = 0; k < n; ++k) {
    int i = r.below(3), j = r.below(3); DB& a = d[i]; M& v = m[i];
    std::string op; const size_t N = v.size();
    auto rnd_block = [&] { uint64_t x = r.u64(); if (r.chance(0.3)) x = 0; if (r.chance(0.2)) x = ~0ull; return (B)x; };
    auto add_block = [&](B b) { for (int q = 0; q < W; ++q) v.push_back((b >> q) & 1); };
    switch (r.below(34)) {
      case 0: { int s = size(); bool val = r.chance(0.5); op = "resize(" + S(s) + "," + S(val) + ")"; if (!val && r.chance(0.5)) a.resize(s); else a.resize(s, val); v.resize(s, val); break; }
      case 1: op = "clear"; if (r.chance(0.3)) { a.clear(); v.clear(); } break;
      case 2: { bool b = r.chance(0.5); op = "push_back"; int times = r.range(1, 5); for (int q = 0; q < times; ++q) { a.push_back(b); v.push_back(b); } break; }
      case 3: op = "pop_back"; if (N) { a.pop_back(); v.pop_back(); } break;
      case 4: { B b = rnd_block(); op = "append"; if (N < 400) { a.append(b); add_block(b); } break; }
      case 5: { op = "append-list"; std::vector<B> bs; for (int q = r.below(3); q > 0; --q) bs.push_back(rnd_block()); if (N < 400) { if (bs.size() == 2 && r.chance(0.5)) a.append({bs[0], bs[1]}); else a.append(bs.begin(), bs.end()); for (B b : bs) add_block(b); } break; }
      case 6: case 7: case 8: { op = "same-size-op"; d[j].resize(N); m[j].resize(N); DB b2 = d[j]; M w2 = m[j]; int o = r.below(8); op += S(o) + "(" + S(j) + ")"; M res(N); const M mine = v;
        for (size_t q = 0; q < N; ++q) { bool x = mine[q], y = w2[q]; int z = o % 4; res[q] = z == 0 ? x && y : z == 1 ? x || y : z == 2 ? x != y : x && !y; }
        if (o == 0) a &= d[j]; else if (o == 1) a |= d[j]; else if (o == 2) a ^= d[j]; else if (o == 3) a -= d[j]; else if (o == 4) a = a & d[j]; else if (o == 5) a = a | d[j]; else if (o == 6) a = a ^ d[j]; else a = a - d[j];
        v = res; break; }
      case 9: case 10: { int s = r.chance(0.5) ? size() : r.below(W * 2); op = "<<=" + S(s); M w(N); for (size_t q = 0; q < N; ++q) if (q >= (size_t)s) w[q] = v[q - s]; if (r.chance(0.5)) a <<= s; else a = a << s; v = w; break; }
      case 11: case 12: { int s = r.chance(0.5) ? size() : r.below(W * 2); op = ">>=" + S(s); M w(N); for (size_t q = 0; q < N; ++q) if (q + s < N) w[q] = v[q + s]; if (r.chance(0.5)) a >>= s; else a = a >> s; v = w; break; }
      case 13: op = "~"; a = ~a; v.flip(); break;
      case 14: op = "flip"; a.flip(); v.flip(); break;
      case 15: op = "set"; if (r.chance(0.5)) { a.set(); v.assign(N, true); } break;
      case 16: op = "reset"; if (r.chance(0.5)) { a.reset(); v.assign(N, false); } break;
      case 17: case 18: case 19: if (N) { int q = r.below((int)N); int o = r.below(5); op = "bit" + S(o) + "(" + S(q) + ")"; if (o == 0) { a.set(q); v[q] = true; } else if (o == 1) { bool b = r.chance(0.5); a.set(q, b); v[q] = b; } else if (o == 2) { a.reset(q); v[q] = false; } else if (o == 3) { a.flip(q); v[q] = !v[q]; } else { bool b = r.chance(0.5), old = v[q]; bool got = a.test_set(q, b); v[q] = b; c.eval(); if (got != old) c.violation("test_set", log + " " + op); } } break;
      case 20: case 21: case 22: if (N) { int q = r.below((int)N), len = r.below((int)N - q + 1); int o = r.below(3); op = "range" + S(o) + "(" + S(q) + "," + S(len) + ")"; bool b = r.chance(0.6); if (o == 0) a.set(q, (size_t)len, b); else if (o == 1) a.reset(q, (size_t)len); else a.flip(q, (size_t)len); for (int z = q; z < q + len; ++z) v[z] = o == 0 ? b : o == 1 ? false : !v[z]; } break;
      case 23: if (N) { int q = r.below((int)N), q2 = r.below((int)N); int o = r.below(9); op = "ref" + S(o) + "(" + S(q) + "," + S(q2) + ")"; bool b = r.chance(0.5); auto x = a[q]; switch (o) { case 0: x = b; v[q] = b; break; case 1: x &= b; v[q] = v[q] && b; break; case 2: x |= b; v[q] = v[q] || b; break; case 3: x ^= b; v[q] = v[q] != b; break; case 4: x -= b; v[q] = v[q] && !b; break; case 5: x.flip(); v[q] = !v[q]; break; case 6: x.assign(b); v[q] = b; break; case 7: { auto y = a[q2]; x = y; bool t = v[q2]; v[q] = t; break; } default: c.eval(); if (~x == (bool)x) c.violation("reference-not", log); } } break;
      case 24: op = "copy" + S(j); d[j] = a; m[j] = v; break;
      case 25: { op = "move-round"; DB t(std::move(a)); a = std::move(t); break; }
      case 26: op = "swap" + S(j); if (i != j) { if (r.chance(0.5)) a.swap(d[j]); else { using std::swap; swap(a, d[j]); } std::swap(m[i], m[j]); } break;
      case 27: { op = "ctor(" + S((i + 1) % 3) + ")"; int s = size(); a = DB(s); v.assign(s, false); break; }
      case 28: { uint64_t x = r.u64(); int s = size(); op = "ctor(" + S(s) + ",value)"; a = DB(s, x); v.assign(s, false); for (int q = 0; q < s && q < 64; ++q) v[q] = (x >> q) & 1; break; }
      case 29: { op = "reserve"; a.reserve(size()); if (r.chance(0.5)) a.shrink_to_fit(); break; }
      case 30: { op = "init-list"; B x = rnd_block(), y = rnd_block(); a = DB({x, y}); v.clear(); add_block(x); add_block(y); break; }
      default: {
        op = "compare" + S(j); const DB& b = d[j]; const M& w = m[j];
        // numbers first, then sizes
        std::string x = str(v), y = str(w); size_t L = std::max(x.size(), y.size()); std::string X(L - x.size(), '0'), Y(L - y.size(), '0'); X += x; Y += y;
        bool eq = v == w, lt = X < Y || (X == Y && v.size() < w.size());
        c.eval(6);
        if ((a == b) != eq || (a != b) == eq) c.violation("bitset-equal", "after " + tail(log) + ": " + x + " == " + y);
        if ((a < b) != lt || (b > a) != lt || (a >= b) == lt || (b <= a) == lt) c.violation("bitset-less", "after " + tail(log) + ": " + x + " < " + y);
        if (v.size() == w.size()) {
          bool sub = true, meet = false; for (size_t q = 0; q < N; ++q) { if (v[q] && !w[q]) sub = false; if (v[q] && w[q]) meet = true; }
          c.eval(3); c.count(sub ? "subsets" : "not_subsets");
          if (a.is_subset_of(b) != sub) c.violation("is_subset_of", "after " + tail(log) + ": " + x + " in " + y);
          if (a.is_proper_subset_of(b) != (sub && v != w)) c.violation("is_proper_subset_of", "after " + tail(log) + ": " + x + " in " + y);
          if (a.intersects(b) != meet) c.violation("intersects", "after " + tail(log) + ": " + x + " and " + y);
        }
      }
    }
    log += " " + S(i) + "." + op;
    c.note(tail(log));
    for (int z = 0; z < 3; ++z) if (!check(z)) return;
  }
  c.nontrivial(log);
}
void c32(Ctx& c) {
  Rng r = c.rng();
  switch (r.below(5)) { case 0: bits<uint8_t>(c, r); break; case 1: bits<uint32_t>(c, r); break; case 2: bits<uint16_t>(c, r); break; default: bits<size_t>(c, r); }
}
}  // namespace

int main(int argc, char** argv) { return run_main(argc, argv, {{"C22", c22}, {"C23", c23}, {"C24", c24}, {"C25", c25}, {"C26", c26}, {"C31", c31}, {"C32", c32}}); }
