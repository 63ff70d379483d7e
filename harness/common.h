// Shared machinery of all harnesses: seeded PRNG, case loop, reporter, journal.
#pragma once
#include <fcntl.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { for (int i = 0; i < 4; ++i) splitmix(s); }
  uint64_t u64() { return splitmix(s); }
  // uniform in [0, n)
  int below(int n) { return n <= 1 ? 0 : static_cast<int>(u64() % static_cast<uint64_t>(n)); }
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool chance(double p) { return unit() < p; }
  double unit() { return static_cast<double>(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<int>(v.size()))]; }
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
  }
  return o;
}

struct Violation { std::string key, what; uint64_t cs; };

class Ctx {
 public:
  std::string prop, tier = "quick", out, journal;
  uint64_t seed = 1;
  uint64_t start = 0, cases = 0, shard = 0, shards = 1;
  bool replay = false;
  uint64_t cur = 0;  // current case
  int64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, int64_t> counters;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  int jfd = -1;
  std::mutex mu;
  std::string desc;  // description of the current case for crash reports

  bool thorough() const { return tier == "thorough"; }
  void eval(int64_t n = 1) { evaluations += n; }
  void count(const std::string& k, int64_t n = 1) { counters[k] += n; }
  void nontrivial(const std::string& text) {
    if (distinct.insert(fnv(text)).second && samples.size() < 6 && (distinct.size() % 7 == 1)) samples.push_back(text.substr(0, 400));
  }
  // Text written to the journal: shown if the process dies during this case.
  void note(const std::string& d) {
    desc = d;
    write_journal();
    if (replay) fprintf(stderr, "[case %llu] %s\n", (unsigned long long)cur, d.c_str());
  }
  void violation(const std::string& key, const std::string& what) {
    std::lock_guard<std::mutex> g(mu);
    if (replay) fprintf(stderr, "VIOLATION key=%s\n%s\n", key.c_str(), what.c_str());
    for (auto& v : violations) if (v.key == key) return;
    if (violations.size() < 40) violations.push_back({key, what, cur});
    ++counters["violations_seen"];
    flush();
  }
  void write_journal() {
    if (jfd < 0) return;
    char buf[4096];
    int n = snprintf(buf, sizeof buf, "%llu\n%s", (unsigned long long)cur, desc.substr(0, 3900).c_str());
    if (n > 4095) n = 4095;
    memset(buf + n, 0, sizeof buf - n);
    if (pwrite(jfd, buf, sizeof buf, 0) < 0) {}
  }
  Rng rng(uint64_t salt = 0) const {
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ fnv(prop) ^ (cur * 0xd1342543de82ef95ULL + salt * 0x632be59bd9b4e019ULL);
    return Rng(x);
  }
  void flush() {
    if (out.empty()) return;
    std::string tmp = out + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { perror("out"); exit(3); }
    fprintf(f, "{\"prop\":\"%s\",\"evaluations\":%lld,\"last_case\":%llu,\n", prop.c_str(), (long long)evaluations, (unsigned long long)cur);
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto& p : counters) { fprintf(f, "%s\"%s\":%lld", first ? "" : ",", jesc(p.first).c_str(), (long long)p.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto& v : violations) {
      fprintf(f, "%s{\"key\":\"%s\",\"what\":\"%s\",\"case\":%llu}", first ? "" : ",", jesc(v.key).c_str(), jesc(v.what).c_str(), (unsigned long long)v.cs);
      first = false;
    }
    fprintf(f, "],\n\"distinct\":[");
    first = true;
    for (auto h : distinct) { fprintf(f, "%s%lld", first ? "" : ",", (long long)(h >> 12)); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    rename(tmp.c_str(), out.c_str());
  }
};

using CaseFn = std::function<void(Ctx&)>;

// Runs fn once per case of this shard.
inline int run_main(int argc, char** argv, const std::map<std::string, CaseFn>& props) {
  Ctx c;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") c.prop = v;
    else if (a == "--tier") c.tier = v;
    else if (a == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--cases") c.cases = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--start") c.start = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shard") c.shard = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shards") c.shards = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--out") c.out = v;
    else if (a == "--journal") c.journal = v;
    else if (a == "--case") { c.replay = true; c.start = strtoull(v.c_str(), nullptr, 10); c.cases = c.start + 1; c.shard = 0; c.shards = 1; }
  }
  auto it = props.find(c.prop);
  if (it == props.end()) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 3; }
  if (!c.journal.empty()) c.jfd = open(c.journal.c_str(), O_RDWR | O_CREAT, 0600);
  uint64_t k = c.start;
  if (!c.replay) { while (k % c.shards != c.shard) ++k; }
  int64_t since = 0;
  auto last = std::chrono::steady_clock::now();
  for (; k < c.cases; k += c.shards) {
    c.cur = k;
    c.desc.clear();
    c.write_journal();
    try {
      it->second(c);
    } catch (const std::exception& e) {
      c.violation("exception", std::string("uncaught exception: ") + e.what() + " | " + c.desc);
    }
    if (++since % 64 == 0) {
      auto now = std::chrono::steady_clock::now();
      if (now - last > std::chrono::seconds(2)) { last = now; c.flush(); }
    }
  }
  c.flush();
  if (c.replay) { printf("replay done: %zu violation(s)\n", c.violations.size()); return c.violations.empty() ? 0 : 1; }
  return 0;
}

}  // namespace vh
