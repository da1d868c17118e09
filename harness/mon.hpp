// Monitor runtime shared by all drivers.
//
// A driver registers sections (MON_SECTION). Each section runs a number of
// independently seeded cases; a case draws its input from c.r, drives the real
// library and reports to the monitor what it observed:
//   c.input(text)        description of the input (kept for violations/samples)
//   c.ev("name", n)      number of observed events
//   c.nontrivial(hash)   this case is non-trivial; hash identifies it
//   c.check(ok, key, lazy detail)   oracle verdict
// The current case is kept in a shared file so that a sanitizer report, crash
// or hang can be attributed to it by check.py.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mon {

using u64 = std::uint64_t;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 hash_str(std::string const& s) {
  u64 h = 1469598103934665603ull;
  for(unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  return mix(h);
}

struct rng {
  u64 s;
  explicit rng(u64 seed = 0) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  // uniform in [0;n)
  int below(int n) { return n <= 1 ? 0 : int(next() % u64(n)); }
  // uniform in [a;b]
  int range(int a, int b) { return a + below(b - a + 1); }
  bool coin(double p = 0.5) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double real() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  template <typename V> auto pick(V const& v) -> decltype(v[0]) { return v[below(int(v.size()))]; }
  template <typename V> void shuffle(V& v) {
    for(int i = int(v.size()) - 1; i > 0; --i) { int j = below(i + 1); using std::swap; swap(v[i], v[j]); }
  }
};

inline std::string esc(std::string const& s) {
  std::string o;
  for(unsigned char ch : s) {
    if(ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
    else if(ch == '\n') o += "\\n";
    else if(ch < 32 || ch > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += char(ch);
  }
  return o;
}

struct shared_cur { // mmapped
  char section[64];
  long long index;
  char phase[128];
  int state; // 0 idle, 1 in case, 2 done, 3 hang
};

struct config {
  u64 seed = 1;
  bool thorough = false;
  double scale = 1;
  std::string out, cur, only_section;
  long long only_index = -1;
  int shard = 0, shards = 1;
  int cpu_limit = 40;
  std::set<std::string> skip; // "section:index"
  std::string variant;
};

struct state {
  config cfg;
  FILE* out = nullptr;
  shared_cur* cur = nullptr;
  shared_cur dummy{};
  std::map<std::string, u64> events;
  std::unordered_set<u64> distinct;
  u64 evaluations = 0, violations = 0;
  std::map<std::string, int> viol_per_key;
  std::map<std::string, int> samples_per_section;
};
inline state& st() { static state s; return s; }

struct skip_case {}; // thrown to abandon an ill-suited input

struct Case {
  std::string section;
  long long index;
  rng r;
  std::string in;
  bool is_nontrivial = false;
  u64 nt_hash = 0;
  bool thorough;
  Case(std::string s, long long i, rng x, bool t) : section(std::move(s)), index(i), r(x), thorough(t) {}

  void input(std::string const& s) { in = s; }
  void phase(char const* p) {
    std::strncpy(st().cur->phase, p, sizeof(st().cur->phase) - 1);
  }
  void phase(std::string const& p) { phase(p.c_str()); }
  void ev(std::string const& n, u64 k = 1) { st().events[section + "." + n] += k; }
  void nontrivial(u64 h) { is_nontrivial = true; nt_hash = mix(nt_hash ^ h); }
  void nontrivial(std::string const& s) { nontrivial(hash_str(s)); }

  void fail(std::string const& key, std::string const& detail) {
    std::string k = section + "/" + key;
    ++st().violations;
    if(++st().viol_per_key[k] > 3) return;
    std::fprintf(st().out,
                 "{\"t\":\"violation\",\"key\":\"%s\",\"section\":\"%s\",\"index\":%lld,"
                 "\"input\":\"%s\",\"detail\":\"%s\"}\n",
                 esc(k).c_str(), esc(section).c_str(), index,
                 esc(in.substr(0, 4000)).c_str(), esc(detail.substr(0, 4000)).c_str());
    std::fflush(st().out);
  }
  template <typename D> bool check(bool ok, char const* key, D&& detail) {
    if(!ok) fail(key, detail());
    return ok;
  }
  bool check(bool ok, char const* key) {
    if(!ok) fail(key, "");
    return ok;
  }
};

struct section {
  std::string name;
  long long quick, thorough;
  std::function<void(Case&)> body;
};
inline std::vector<section>& sections() { static std::vector<section> v; return v; }
struct reg {
  reg(char const* n, long long q, long long t, std::function<void(Case&)> f) {
    sections().push_back({n, q, t, std::move(f)});
  }
};

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define MON_SECTION(name, quick, thorough)                                              \
  static void MON_CAT(mon_body_, __LINE__)(mon::Case&);                                 \
  static mon::reg MON_CAT(mon_reg_, __LINE__)(name, quick, thorough,                    \
                                              MON_CAT(mon_body_, __LINE__));            \
  static void MON_CAT(mon_body_, __LINE__)(mon::Case & c)

inline std::string demangled(std::exception const& e) { return typeid(e).name(); }

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define MON_TSAN 1
#endif

extern "C" inline void mon_on_prof(int) {
  st().cur->state = 3;
  static char const m[] = "MON-HANG: CPU limit of the case exceeded\n";
  ssize_t n = write(2, m, sizeof m - 1);
  (void)n;
  _exit(77);
}
inline void arm(int secs) {
  itimerval tv{};
  tv.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void run_case(section const& s, long long i) {
  auto& S = st();
  u64 seed = mix(mix(S.cfg.seed * 0x1234567ull + 17) ^ hash_str(s.name) ^ mix(u64(i) + 0x51ull));
  Case c(s.name, i, rng(seed), S.cfg.thorough);
  std::memset(S.cur->section, 0, sizeof S.cur->section);
  std::strncpy(S.cur->section, s.name.c_str(), sizeof S.cur->section - 1);
  S.cur->index = i;
  S.cur->phase[0] = 0;
  S.cur->state = 1;
  arm(S.cfg.cpu_limit);
  try {
    s.body(c);
    ++S.evaluations;
    if(c.is_nontrivial) S.distinct.insert(mix(c.nt_hash ^ hash_str(s.name)));
    int& ns = S.samples_per_section[s.name];
    if(ns < 2 && !c.in.empty() && (c.is_nontrivial || i > 3)) {
      ++ns;
      std::fprintf(S.out, "{\"t\":\"sample\",\"section\":\"%s\",\"index\":%lld,\"input\":\"%s\"}\n",
                   esc(s.name).c_str(), i, esc(c.in.substr(0, 600)).c_str());
    }
  } catch(skip_case const&) {
    ++S.events[s.name + ".skipped"];
  } catch(std::exception const& e) {
    ++S.evaluations;
    c.fail(std::string("EXCEPTION"), std::string("unexpected ") + demangled(e) + ": " + e.what() +
                                         " in phase " + S.cur->phase);
  }
  S.cur->state = 0;
}

inline int main_(int argc, char** argv) {
  auto& S = st();
  auto& g = S.cfg;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if(a == "--seed") g.seed = std::strtoull(val().c_str(), nullptr, 10);
    else if(a == "--tier") g.thorough = (val() == "thorough");
    else if(a == "--scale") g.scale = std::atof(val().c_str());
    else if(a == "--out") g.out = val();
    else if(a == "--cur") g.cur = val();
    else if(a == "--cpu") g.cpu_limit = std::atoi(val().c_str());
    else if(a == "--variant") g.variant = val();
    else if(a == "--shard") { std::sscanf(val().c_str(), "%d/%d", &g.shard, &g.shards); }
    else if(a == "--skip") g.skip.insert(val());
    else if(a == "--only") {
      std::string v = val();
      auto p = v.rfind(':');
      if(p == std::string::npos) g.only_section = v;
      else { g.only_section = v.substr(0, p); g.only_index = std::atoll(v.c_str() + p + 1); }
    } else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  S.out = g.out.empty() ? stdout : std::fopen(g.out.c_str(), "w");
  if(!S.out) { std::perror("out"); return 3; }
  S.cur = &S.dummy;
  if(!g.cur.empty()) {
    int fd = open(g.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || ftruncate(fd, sizeof(shared_cur))) { std::perror("cur"); return 3; }
    S.cur = static_cast<shared_cur*>(
        mmap(nullptr, sizeof(shared_cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  struct sigaction sa {};
  sa.sa_handler = mon_on_prof;
  sigaction(SIGPROF, &sa, nullptr);

  long long k = 0;
  for(auto const& s : sections()) {
    if(!g.only_section.empty() && s.name != g.only_section) continue;
    long long n = g.thorough ? s.thorough : s.quick;
    if(n > 1) n = std::max<long long>(1, (long long)(double(n) * g.scale + 0.5));
    if(g.only_index >= 0) { run_case(s, g.only_index); continue; }
    for(long long i = 0; i < n; ++i, ++k) {
      if(k % g.shards != g.shard) continue;
      if(!g.skip.empty() && g.skip.count(s.name + ":" + std::to_string(i))) continue;
      run_case(s, i);
    }
  }
  arm(0);
  for(auto const& e : S.events)
    std::fprintf(S.out, "{\"t\":\"ev\",\"name\":\"%s\",\"n\":%llu}\n", esc(e.first).c_str(),
                 (unsigned long long)e.second);
  for(auto h : S.distinct) std::fprintf(S.out, "{\"t\":\"h\",\"h\":\"%016llx\"}\n", (unsigned long long)h);
  std::fprintf(S.out, "{\"t\":\"done\",\"evaluations\":%llu,\"violations\":%llu}\n",
               (unsigned long long)S.evaluations, (unsigned long long)S.violations);
  std::fflush(S.out);
  S.cur->state = 2;
  return 0;
}

template <typename T> std::string str(T const& x) { std::ostringstream os; os << x; return os.str(); }
template <typename T> std::string vstr(T const& v) {
  std::ostringstream os;
  os << "[";
  bool first = true;
  for(auto const& x : v) { if(!first) os << ","; first = false; os << x; }
  os << "]";
  return os.str();
}

} // namespace mon

#ifndef MON_NO_MAIN
int main(int argc, char** argv) { return mon::main_(argc, argv); }
#endif
