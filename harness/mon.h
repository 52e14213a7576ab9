// Runtime monitor shared by all harnesses: deterministic case generation,
// verdict counting, coverage bins, violation reports.  Uses nothing of CML.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <exception>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace mon {

typedef std::uint64_t u64;
typedef long double ld;

inline u64 splitmix(u64& s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline u64 hstr(const char* s) {
  u64 h = 1469598103934665603ull;
  for(; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
  return h;
}
inline u64 hmix(u64 h, u64 v) {
  u64 s = h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2));
  return splitmix(s);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) { splitmix(s); }
  u64 next() { return splitmix(s); }
  // inclusive range
  int i(int lo, int hi) { return lo + int(next() % u64(hi - lo + 1)); }
  // a size: mostly lo..hi, now and then up to big
  int n(int lo, int hi, int big) { return coin(1, 20) && big > hi ? coin() ? i(hi + 1, hi + 1 + (big - hi) / 4) : i(hi + 1, big) : i(lo, hi); }
  bool coin(int num = 1, int den = 2) { return int(next() % den) < num; }
  double u01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double r(double lo, double hi) { return lo + (hi - lo) * u01(); }
  double gauss() {
    double u = u01(), v = u01();
    return std::sqrt(-2 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
  }
  // real of varied magnitude and sign
  double wide(int emin = -3, int emax = 3) {
    double m = r(1, 10) * std::pow(10.0, i(emin, emax));
    return coin() ? m : -m;
  }
};

// What one worker thread of a multi-threaded case recorded.
struct Worker {
  int id = 0; bool alone = false; Rng pace{0};
  std::vector<ld> rec; std::vector<u64> ops; std::vector<std::pair<long, int>> order;
  void (*hook)(Worker&) = nullptr;
  unsigned long long verdicts = 0; std::map<std::string, unsigned long long> bins; u64 sig = 0; bool nontrivial = true;
  std::vector<std::pair<std::string, std::string>> fails;
  void op(u64 key) { ops.push_back(key); rec.push_back(ld(key >> 16)); if(hook) hook(*this); }
};
struct Violation { std::string key, group, detail; long caseno; long count; };

struct State {
  u64 seed = 1;
  int tier = 0;  // 0 quick, 1 thorough
  double scale = 1;
  int threads = 0;  // cases run at once, each in its own thread
  std::string only;
  long only_case = -1;
  std::string part;
  FILE* ctx = nullptr;
  FILE* dump = nullptr;  // record of results, for comparison between builds
  const char* group = "";
  long caseno = 0;
  u64 sig = 0;
  bool nontrivial = true;
  unsigned long long verdicts = 0, cases = 0, trivial = 0;
  std::unordered_set<u64> sigs;
  std::map<std::string, unsigned long long> bins;
  std::map<std::string, unsigned long long> group_cases, group_verdicts;
  std::map<std::string, Violation> viol;
  std::vector<std::string> samples;
  std::map<std::string, int> sampled;
  std::string note;
  bool want_note = false;
};
inline State& S() { static State s; return s; }

// A worker thread keeps its own record and leaves the shared state alone.
inline thread_local Worker* tl = nullptr;
inline bool worker() { return tl != nullptr; }
inline void ev(unsigned long long n = 1) { (tl ? tl->verdicts : S().verdicts) += n; }
inline void bin(const char* b, unsigned long long n = 1) { (tl ? tl->bins : S().bins)[b] += n; }
inline void bin(const std::string& b) { (tl ? tl->bins : S().bins)[b] += 1; }
inline void mix(u64 v) { u64& s = tl ? tl->sig : S().sig; s = hmix(s, v); }
inline void mixd(double d) { u64 v; std::memcpy(&v, &d, 8); mix(v); }
inline void trivial() { (tl ? tl->nontrivial : S().nontrivial) = false; }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[2048];
  va_list ap; va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
// Describe the case for the evidence samples (only built when wanted).
inline bool noting() { return !worker() && S().want_note; }
inline void note(const std::string& s) { if(noting()) S().note += s; }

// key: stable identifier of what failed (no random data in it).
inline void fail(const std::string& key, const std::string& detail) {
  if(tl) { tl->fails.push_back({key, detail}); return; }
  State& s = S();
  std::string k = std::string(s.group) + "/" + key;
  auto it = s.viol.find(k);
  if(it == s.viol.end()) s.viol[k] = Violation{k, s.group, detail, s.caseno, 1};
  else ++it->second.count;
}
inline bool check(bool ok, const std::string& key, const std::string& detail = "") {
  ev();
  if(!ok) fail(key, detail);
  return ok;
}

// Comparison of a computed value with a reference.
template<class T> inline bool exact(T a, ld e) { return ld(a) == e; }
template<class T> inline ld eps() { return std::is_floating_point<T>::value ? ld(std::numeric_limits<T>::epsilon()) : ld(0); }
template<class T> inline bool close(T a, ld e, ld scale, ld k = 64) {
  if(!(std::isfinite((double) a))) return false;
  return std::fabs(ld(a) - e) <= k * eps<T>() * (std::fabs(scale) > std::fabs(e) ? std::fabs(scale) : std::fabs(e));
}
template<class T> inline bool ckc(T a, ld e, ld scale, const std::string& key, ld k = 64) {
  ev();
  if(close(a, e, scale, k)) return true;
  fail(key, fmt("got %.17g want %.17Lg scale %.3Lg", (double) a, e, scale));
  return false;
}
template<class T> inline bool cke(T a, ld e, const std::string& key) {
  ev();
  if(exact(a, e)) return true;
  fail(key, fmt("got %.17g want %.17Lg", (double) a, e));
  return false;
}

inline bool want(const char* g) {
  State& s = S();
  return s.only.empty() || s.only == g;
}

// The cases of a group, several at a time in threads of their own.
inline void (*pace)(Worker&, bool) = nullptr;
template<class F> inline void grouped(const char* name, long cnt, F f) {
  State& s = S();
  const int n = s.threads;
  long from = s.only_case >= 0 ? s.only_case / n * n : 0, to = s.only_case >= 0 ? from + n : cnt;
  for(long c = from; c < to; c += n) {
    s.caseno = c;
    if(s.ctx) { rewind(s.ctx); fprintf(s.ctx, "%s %ld                                \n", name, c); fflush(s.ctx); }
    const bool twins = (c / n) % 3 == 0;  // every thread does the same case
    std::vector<Worker> w(n);
    std::vector<std::thread> t;
    for(int i = 0; i < n; ++i) {
      w[i].id = i; w[i].sig = hstr(name);
      t.emplace_back([&, i] {
        tl = &w[i];
        if(pace) pace(w[i], true);
        Rng rng(hmix(hmix(s.seed * 7919 + 13, hstr(name)), u64(twins ? c : c + i)));
        try { f(rng); }
        catch(const std::exception& e) { fail("unexpected-exception", fmt("%s: %s", typeid(e).name(), e.what())); }
        catch(...) { fail("unexpected-exception", "unknown"); }
        if(pace) pace(w[i], false);
        tl = nullptr;
      });
    }
    for(auto& x : t) x.join();
    for(auto& x : w) {
      s.verdicts += x.verdicts; ++s.cases;
      for(auto& b : x.bins) s.bins[b.first] += b.second;
      for(auto& k : x.fails) fail(k.first, k.second);
      if(x.nontrivial) { if(s.sigs.size() < 4000000) s.sigs.insert(x.sig); } else ++s.trivial;
    }
    ++s.bins[twins ? "threads/same-case" : "threads/different-cases"];
  }
  s.group_cases[name] += to - from;
}

// Run n cases of a group.  f(Rng&) is one case; everything random in it comes
// from the Rng, which depends only on seed, group and case number.
template<class F> inline void group(const char* name, double n, F f) {
  State& s = S();
  if(!want(name)) return;
  long cnt = long(n * s.scale + 0.5);
  if(cnt < 1) cnt = 1;
  s.group = name;
  auto v0 = s.verdicts;
  if(s.threads > 0) { grouped(name, cnt, f); s.group_verdicts[name] += s.verdicts - v0; s.group = ""; return; }
  long from = s.only_case >= 0 ? s.only_case : 0, to = s.only_case >= 0 ? s.only_case + 1 : cnt;
  for(long c = from; c < to; ++c) {
    s.caseno = c;
    if(s.ctx) {
      rewind(s.ctx);
      fprintf(s.ctx, "%s %ld                                \n", name, c);
      fflush(s.ctx);
    }
    Rng rng(hmix(hmix(s.seed * 7919 + 13, hstr(name)), u64(c)));
    s.sig = hstr(name); s.nontrivial = true; s.note.clear();
    s.want_note = s.sampled[name] < 1 && s.samples.size() < 40;
    try { f(rng); }
    catch(const std::exception& e) { fail("unexpected-exception", fmt("%s: %s", typeid(e).name(), e.what())); }
    catch(...) { fail("unexpected-exception", "unknown"); }
    if(s.want_note && !s.note.empty()) {
      ++s.sampled[name];
      s.samples.push_back(std::string(name) + "#" + std::to_string(c) + ": " + s.note);
    }
    ++s.cases;
    if(s.nontrivial) { if(s.sigs.size() < 4000000) s.sigs.insert(s.sig); }
    else ++s.trivial;
  }
  s.group_cases[name] += to - from;
  s.group_verdicts[name] += s.verdicts - v0;
  s.group = "";
}

inline void jstr(FILE* f, const std::string& s) {
  fputc('"', f);
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
inline void init(int argc, char** argv) {
  State& s = S();
  for(int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if(a == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    else if(a == "--tier") s.tier = v == "thorough";
    else if(a == "--scale") s.scale = atof(v.c_str());
    else if(a == "--threads") s.threads = atoi(v.c_str());
    else if(a == "--only") s.only = v;
    else if(a == "--case") s.only_case = atol(v.c_str());
    else if(a == "--ctx") s.ctx = fopen(v.c_str(), "w");
    else if(a == "--dump") s.dump = fopen(v.c_str(), "w");
  }
}
inline int finish(const char* out = nullptr) {
  State& s = S();
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"cases\":%llu,\"verdicts\":%llu,\"trivial\":%llu,\n\"distinct\":%zu,\n\"bins\":{", s.cases, s.verdicts, s.trivial, s.sigs.size());
  const char* sep = "";
  for(auto& b : s.bins) { fputs(sep, f); jstr(f, b.first); fprintf(f, ":%llu", b.second); sep = ","; }
  fprintf(f, "},\n\"groups\":{"); sep = "";
  for(auto& b : s.group_cases) { fputs(sep, f); jstr(f, b.first); fprintf(f, ":[%llu,%llu]", b.second, s.group_verdicts[b.first]); sep = ","; }
  fprintf(f, "},\n\"samples\":["); sep = "";
  for(auto& b : s.samples) { fputs(sep, f); jstr(f, b); sep = ","; }
  fprintf(f, "],\n\"violations\":["); sep = "";
  for(auto& b : s.viol) {
    fputs(sep, f); fprintf(f, "{\"key\":"); jstr(f, b.second.key);
    fprintf(f, ",\"group\":"); jstr(f, b.second.group);
    fprintf(f, ",\"case\":%ld,\"count\":%ld,\"detail\":", b.second.caseno, b.second.count); jstr(f, b.second.detail);
    fprintf(f, "}"); sep = ",";
  }
  fprintf(f, "]}\n");
  fflush(f);
  if(out) fclose(f);
  return 0;
}

}  // namespace mon
