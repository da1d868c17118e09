// C21: disjoint sets.
#include "mon.hpp"
#include <libcommute/loperator/disjoint_sets.hpp>
#include <numeric>
#include <algorithm>
namespace lc = libcommute;
using mon::u64;

namespace {
struct Model {
  std::vector<int> cls;             // class of each element
  std::map<int, std::vector<int>> members;
  int next = 0;
  void add() { cls.push_back(next); members[next].push_back(int(cls.size()) - 1); ++next; }
  void unite(int a, int b) {
    int i = cls[a], j = cls[b];
    if(i == j) return;
    if(members[i].size() < members[j].size()) std::swap(i, j);
    for(int x : members[j]) { cls[x] = i; members[i].push_back(x); }
    members.erase(j);
  }
  size_t n() const { return members.size(); }
};

// Compares a (copy of a) structure with the model
std::string compare(lc::disjoint_sets d, Model const& m, bool smallest) {
  std::ostringstream o;
  if(d.size() != m.cls.size()) o << "size() " << d.size() << " expected " << m.cls.size() << "; ";
  if(d.n_sets() != m.n()) o << "n_sets() " << d.n_sets() << " expected " << m.n() << "; ";
  std::map<size_t, int> root; // root -> class
  for(size_t x = 0; x < m.cls.size() && o.str().size() < 500; ++x) {
    size_t r = d.find_root(x);
    if(r >= m.cls.size() || m.cls[r] != m.cls[x]) { o << "representative of " << x << " is " << r << "; "; continue; }
    auto it = root.emplace(m.cls[x], int(0));
    if(it.second) it.first->second = int(r);
  }
  // one representative per class, and no class shares one
  std::map<int, size_t> rep;
  for(size_t x = 0; x < m.cls.size(); ++x) {
    size_t r = d.find_root(x);
    auto it = rep.emplace(m.cls[x], r);
    if(it.first->second != r) { o << x << " is represented by " << r << ", others of its set by " << it.first->second << "; "; break; }
  }
  if(smallest)
    for(auto const& q : m.members) {
      size_t mn = size_t(*std::min_element(q.second.begin(), q.second.end()));
      if(rep[q.first] != mn) { o << "representative " << rep[q.first] << " of the set of " << mn << " is not the smallest; "; break; }
    }
  return o.str();
}

void history(mon::Case& c, int max_n, int steps) {
  auto& r = c.r;
  int n0 = r.below(max_n + 1);
  std::vector<lc::disjoint_sets> ds{lc::disjoint_sets(size_t(n0))};
  std::vector<Model> ms(1);
  for(int i = 0; i < n0; ++i) ms[0].add();
  std::string log = "n=" + std::to_string(n0);
  bool few_normal = r.coin();
  int last = 0; // previous element, to make chains
  int style = r.below(4);
  u64 unions = 0;
  int st = r.range(1, steps);
  int check_every = st > 200 ? 17 : 1;
  for(int k = 0; k < st; ++k) {
    int w = r.below(int(ds.size()));
    auto& d = ds[w];
    auto& m = ms[w];
    int n = int(m.cls.size());
    bool smallest = false;
    int op = r.below(20);
    auto el = [&] { return r.below(n); };
    if(n == 0 && op < 13) op = 15;
    if(op < 8) { // union
      int a = style == 1 ? std::min(last, n - 1) : el(), b = el();
      if(style == 2) { a = k % n; b = (k + 1) % n; }
      if(style == 3 && n > 1) { b = r.below(std::max(1, n / 4)); }
      last = b;
      bool same = m.cls[a] == m.cls[b];
      size_t q = d.set_union(size_t(a), size_t(b));
      m.unite(a, b);
      log += " u" + std::to_string(w) + ":" + std::to_string(a) + "," + std::to_string(b);
      c.check(q < m.cls.size() && m.cls[q] == m.cls[a] && d.find_root(q) == q && d.find_root(size_t(a)) == q, "UNION-RESULT",
              [&] { return log + " returned " + std::to_string(q); });
      (void)same;
      ++unions;
    } else if(op < 10) { // union of representatives
      int a = el(), b = el();
      size_t x = d.find_root(size_t(a)), y = d.find_root(size_t(b));
      if(x != y) {
        size_t q = d.root_union(x, y);
        m.unite(a, b);
        log += " r" + std::to_string(w) + ":" + std::to_string(x) + "," + std::to_string(y);
        c.check((q == x || q == y) && d.find_root(size_t(a)) == q && d.find_root(size_t(b)) == q, "UNION-RESULT", [&] { return log; });
        ++unions;
      }
    } else if(op < 12) { // queries
      int a = el(), b = el();
      lc::disjoint_sets const& cd = d;
      c.check(cd.in_same_set(size_t(a), size_t(b)) == (m.cls[a] == m.cls[b]), "IN-SAME-SET", [&] { return log + " ?" + std::to_string(a) + "," + std::to_string(b); });
    } else if(op == 12) {
      int a = el();
      size_t q = d.find_root(size_t(a));
      c.check(m.cls[q] == m.cls[a], "FIND-ROOT", [&] { return log; });
    } else if(op == 13) { d.compress_sets(); log += " c" + std::to_string(w); }
    else if(op == 14) {
      if(few_normal && r.coin(0.8)) continue;
      d.normalize_sets();
      log += " n" + std::to_string(w);
    } else if(op == 15) {
      size_t q = d.make_set();
      c.check(q == m.cls.size(), "MAKE-SET", [&] { return log + " returned " + std::to_string(q); });
      m.add();
      log += " +" + std::to_string(w);
    } else if(op == 16) {
      int q = r.below(6);
      d.make_sets(size_t(q));
      for(int i = 0; i < q; ++i) m.add();
      log += " +" + std::to_string(w) + "*" + std::to_string(q);
    } else if(op == 17) {
      if(few_normal && r.coin(0.8)) continue;
      d.compress_sets();
      d.normalize_sets();
      smallest = true;
      log += " cn" + std::to_string(w);
    } else if(op == 18 && ds.size() < 4) { // copies live their own lives
      ds.push_back(ds[w]);
      ms.push_back(ms[w]);
      log += " copy" + std::to_string(w);
    } else if(op == 19) {
      int v = r.below(int(ds.size()));
      if(r.coin()) { ds[v] = lc::disjoint_sets(ds[w]); ms[v] = Model(ms[w]); log += " mv" + std::to_string(w) + ">" + std::to_string(v); }
      else { auto t = ds[w]; auto u = ms[w]; ds[v] = t; ms[v] = u; log += " as" + std::to_string(w) + ">" + std::to_string(v); }
    }
    if(k % check_every && k + 1 < st && !smallest) continue;
    for(size_t i = 0; i < ds.size(); ++i) {
      auto x = compare(ds[i], ms[i], smallest && int(i) == w);
      if(!c.check(x.empty(), "STATE", [&] { return "structure " + std::to_string(i) + ": " + x + " history " + log; })) { c.input(log); return; }
      c.ev("states compared");
      c.ev("elements", ms[i].cls.size());
    }
  }
  c.input(log);
  c.ev("unions", unions);
  if(unions) c.nontrivial(log);
}
} // namespace

MON_SECTION("short", 30000, 600000) { history(c, 8, 12); }
MON_SECTION("history", 4000, 80000) { history(c, 30, 60); }
MON_SECTION("long", 200, 4000) { history(c, 300, 3000); }

// All histories of up to 5 operations on 3-4 elements
MON_SECTION("all-short", 400, 400) {
  auto& r = c.r;
  (void)r;
  int n = 3 + int(c.index % 2);
  u64 ops = u64(n) * u64(n) + 3;
  u64 lenmax = 5, total = 1;
  for(u64 i = 0; i < lenmax; ++i) total *= ops;
  u64 chunk = (total + 199) / 200, from = u64(c.index / 2) * chunk;
  c.input("n=" + std::to_string(n) + " histories " + std::to_string(from) + ".." + std::to_string(from + chunk - 1));
  for(u64 h = from; h < std::min(total, from + chunk); ++h) {
    lc::disjoint_sets d{size_t(n)};
    Model m;
    for(int i = 0; i < n; ++i) m.add();
    u64 x = h;
    bool smallest = false;
    std::string log;
    for(u64 i = 0; i < lenmax; ++i, x /= ops) {
      u64 op = x % ops;
      smallest = false;
      if(op == 0) { d.compress_sets(); log += " c"; }
      else if(op == 1) { d.normalize_sets(); log += " n"; }
      else if(op == 2) { d.compress_sets(); d.normalize_sets(); smallest = true; log += " cn"; }
      else {
        u64 a = (op - 3) / u64(n), b = (op - 3) % u64(n);
        d.set_union(a, b);
        m.unite(int(a), int(b));
        log += " u" + std::to_string(a) + "," + std::to_string(b);
      }
    }
    auto e = compare(d, m, smallest);
    if(!c.check(e.empty(), "STATE", [&] { return e + " history" + log; })) return;
  }
  c.ev("histories", chunk);
  c.nontrivial(u64(c.index));
}

// Many elements, adversarial orders of unions
MON_SECTION("many", 48, 480) {
  auto& r = c.r;
  int n = r.range(100000, 250000), style = r.below(6);
  c.input("n=" + std::to_string(n) + " style " + std::to_string(style));
  lc::disjoint_sets d{size_t(n)};
  int gap = r.range(1, 5); // elements are joined with those gap positions away
  bool norm = r.coin();
  auto uni = [&](size_t a, size_t b) {
    if(style < 4) d.set_union(a, b);
    else {
      size_t x = d.find_root(a), y = d.find_root(b);
      if(x != y) style == 4 ? d.root_union(x, y) : d.root_union(y, x);
    }
  };
  u64 unions = 0;
  for(int i = 0; i + gap < n; ++i) {
    int k = style == 1 ? n - gap - 1 - i : i;
    if(style == 2) uni(size_t(k + gap), size_t(k));
    else uni(size_t(k), size_t(k + gap));
    ++unions;
    if(norm && i % (n / 4) == 0) d.normalize_sets();
  }
  c.phase("queries");
  if(r.coin()) d.compress_sets();
  bool ok = d.n_sets() == size_t(gap);
  std::map<size_t, int> rep;
  for(int i = n - 1; i >= 0; --i) {
    size_t q = d.find_root(size_t(i));
    auto it = rep.emplace(q, i % gap);
    ok = ok && it.first->second == i % gap;
  }
  c.check(ok && rep.size() == size_t(gap), "STATE");
  d.compress_sets();
  d.normalize_sets();
  ok = true;
  for(int i = 0; i < n; ++i) ok = ok && d.find_root(size_t(i)) == size_t(i % gap);
  c.check(ok, "NORMALISED");
  c.ev("unions", unions);
  c.nontrivial(c.in + std::to_string(norm));
}
