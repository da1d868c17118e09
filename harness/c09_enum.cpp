// C09: enumeration of physical basis states.
#include "hs.hpp"
using namespace hsm;

namespace {
struct stop {};

struct Built {
  Space<int> sp;
  Layout L;
  std::unique_ptr<lc::hilbert_space<int>> h;
};
Built random_space(mon::rng& r, int max_bits, u64 max_dim) {
  Built b{{pools<int>::get()}, {}, nullptr};
  b.h.reset(new lc::hilbert_space<int>());
  int n = r.range(0, 7);
  bool pow2 = r.coin(0.2), no2 = r.coin(0.2);
  for(int i = 0; i < n; ++i) {
    Entry e = random_entry(r, 30, 40);
    bool is2 = (e.dim & (e.dim - 1)) == 0;
    if((pow2 && !is2) || (no2 && is2)) continue;
    if(b.L.m.count(e.key()) || b.L.bits() + e.bits() > max_bits || b.L.dim() * e.dim > max_dim) continue;
    b.L.m.emplace(e.key(), e);
  }
  std::vector<Entry> es;
  for(auto const& p : b.L.m) es.push_back(p.second);
  r.shuffle(es);
  for(auto const& e : es) b.h->add(*b.sp.make(e));
  return b;
}

// Interpreter of nested/interrupted traversals: checks each visited sequence
struct Walker {
  mon::Case& c;
  Built const& b;
  std::vector<u64> const& ref;
  u64 budget;
  bool ok = true;
  void walk(int depth) {
    if(!ok || budget == 0) return;
    u64 pos = 0;
    u64 stop_at = c.r.coin(0.4) ? c.r.next() % (ref.size() + 1) : ~u64(0);
    u64 nest_at = depth ? c.r.next() % (ref.size() + 1) : ~u64(0);
    bool stopped = false;
    lc::hilbert_space<int> const& ch = *b.h;
    auto f = [&](lc::sv_index_type s) {
      if(pos >= ref.size() || s != ref[pos]) {
        if(ok) c.fail("WRONG-STATE", "position " + std::to_string(pos) + " visited " + std::to_string(s) + " expected " +
                                       (pos < ref.size() ? std::to_string(ref[pos]) : std::string("end")) +
                                       " depth " + std::to_string(depth));
        ok = false;
        throw stop{};
      }
      if(pos == stop_at) { stopped = true; throw stop{}; }
      if(pos == nest_at) walk(depth - 1);
      ++pos;
      if(budget) --budget;
    };
    try {
      switch(c.r.below(4)) {
      case 0: foreach(ch, f); break;
      case 1: foreach(ch, [&](lc::sv_index_type s) mutable { f(s); }); break;
      case 2: { std::function<void(lc::sv_index_type)> g = f; foreach(ch, g); break; }
      default: { auto const& cf = f; foreach(ch, cf); }
      }
    } catch(stop const&) {}
    if(ok && !stopped && pos != ref.size()) {
      c.fail("INCOMPLETE", "visited " + std::to_string(pos) + " of " + std::to_string(ref.size()));
      ok = false;
    }
    c.ev("states visited", pos);
    c.ev(stopped ? "early exits" : "complete traversals");
    if(depth < 2) c.ev("nested traversals");
  }
};
} // namespace

MON_SECTION("complete", 3000, 40000) {
  auto b = random_space(c.r, 40, c.r.coin(0.05) ? 60000 : 3000);
  c.input(b.L.str());
  auto ref = b.L.states();
  Walker w{c, b, ref, 60000};
  for(int k = 0; k < 4 && w.ok; ++k) w.walk(2);
  // single-component states
  int n = 0;
  for(auto const& p : b.L.m) {
    auto es = b.sp.make(p.second);
    for(u64 v = 0; v < p.second.dim; ++v) {
      u64 s = b.h->basis_state_index(*es, v);
      c.check(b.L.physical(s) && s == (b.L.shift(p.first) < 64 ? v << b.L.shift(p.first) : 0), "BASIS-STATE-INDEX",
              [&] { return p.second.str() + " " + std::to_string(v); });
      c.check(std::binary_search(ref.begin(), ref.end(), s), "BASIS-STATE-NOT-ENUMERATED");
      ++n;
    }
  }
  c.ev("single-component states", n);
  if(b.L.m.size() > 1) c.nontrivial(c.in);
}

// Enumerations of copies, assigned and grown spaces
MON_SECTION("assigned", 1500, 20000) {
  auto& r = c.r;
  std::vector<Built> v;
  for(int i = 0; i < 3; ++i) v.push_back(random_space(r, 30, 300));
  c.input(v[0].L.str() + v[1].L.str() + v[2].L.str());
  std::string h;
  for(int k = 0, n = r.range(2, 8); k < n; ++k) {
    Built &a = v[r.below(3)], &b = v[r.below(3)];
    switch(r.below(5)) {
    case 0:
      h += " copy-assign";
      *a.h = *b.h;
      a.L = b.L;
      break;
    case 1: {
      h += " move-assign";
      lc::hilbert_space<int> t(*b.h);
      *a.h = std::move(t);
      a.L = b.L;
      break;
    }
    case 2:
      h += " construct";
      a.h.reset(new lc::hilbert_space<int>(*b.h));
      a.L = b.L;
      break;
    case 3: {
      h += " swap";
      std::swap(*a.h, *b.h);
      std::swap(a.L, b.L);
      break;
    }
    default: {
      Entry e = random_entry(r, 30, 9);
      if(a.L.m.count(e.key()) || a.L.bits() + e.bits() > 40 || a.L.dim() * e.dim > 3000) continue;
      h += " add " + e.str();
      a.h->add(*a.sp.make(e));
      a.L.m.emplace(e.key(), e);
    }
    }
    if(r.coin(0.3)) continue;
    auto ref = a.L.states();
    Walker w{c, a, ref, 3000};
    w.walk(1);
    if(!w.ok) return;
  }
  for(auto const& a : v) {
    auto ref = a.L.states();
    Walker w{c, a, ref, 3000};
    for(int k = 0; k < 2 && w.ok; ++k) w.walk(1);
  }
  c.nontrivial(h);
}

// Beginnings of the enumeration of very large spaces
MON_SECTION("huge", 2000, 20000) {
  auto& r = c.r;
  Space<int> sp{pools<int>::get()};
  Layout L;
  lc::hilbert_space<int> h;
  int target = r.range(30, 63);
  for(int tries = 0; tries < 60; ++tries) {
    Entry e = random_entry(r, 60, 40);
    if((e.alg == -2 || e.alg >= 0) && r.coin(0.4)) {
      int b = r.range(1, 62);
      e.dim = (u64(1) << b) - (r.coin() ? 1 : 0) + (r.coin(0.3) ? r.next() % (u64(1) << b) : 0);
      if(e.dim < 1) e.dim = 1;
    }
    if(L.m.count(e.key()) || L.bits() + e.bits() > target) continue;
    L.m.emplace(e.key(), e);
    h.add(*sp.make(e));
  }
  c.input(L.str());
  lc::hilbert_space<int> const& ch = h;
  u64 k = 0, lim = std::min<u64>(L.dim(), 3000);
  bool ended = true;
  try {
    foreach(ch, [&](lc::sv_index_type s) {
      if(k == lim && lim < L.dim()) { ended = false; throw stop{}; }
      if(k >= L.dim() || s != L.nth(k)) {
        c.fail("WRONG-STATE", "position " + std::to_string(k) + " visited " + std::to_string(s) + " expected " + std::to_string(L.nth(k)));
        ended = false;
        throw stop{};
      }
      ++k;
    });
  } catch(stop const&) {}
  c.check(!ended || k == L.dim(), "INCOMPLETE", [&] { return std::to_string(k) + " of " + std::to_string(L.dim()); });
  c.ev("states visited", k);
  if(!ended) c.ev("early exits");
  c.nontrivial(c.in);
}

// One big complete traversal per shape: sum, count, order
MON_SECTION("long", 24, 400) {
  auto& r = c.r;
  auto b = random_space(r, 40, 3000000);
  c.input(b.L.str());
  u64 k = 0;
  bool ok = true;
  lc::hilbert_space<int> const& ch = *b.h;
  u64 prev = 0;
  foreach(ch, [&](lc::sv_index_type s) {
    if(ok && ((k && s <= prev) || !b.L.physical(s))) { ok = false; c.fail("WRONG-STATE", std::to_string(s)); }
    prev = s;
    ++k;
  });
  c.check(k == b.L.dim(), "WRONG-COUNT", [&] { return std::to_string(k) + " of " + std::to_string(b.L.dim()); });
  c.check(!k || prev == b.L.nth(b.L.dim() - 1), "WRONG-LAST-STATE");
  c.ev("states visited", k);
  c.nontrivial(c.in);
}

#ifdef NDEBUG
// Complete traversals beyond 2^31 states
MON_SECTION("beyond-2^31", 2, 6) {
  Space<int> sp{pools<int>::get()};
  Layout L;
  lc::hilbert_space<int> h;
  std::vector<Entry> es;
  if(c.index % 2 == 0) es = {{-2, 0, 1, (u64(1) << 31) + 3 + c.index}};
  else es = {{-3, 0, 0, 2}, {-2, 0, 1, 3}, {-2, 0, 2, (u64(1) << 29) + 1 + c.index}, {-3, 0, 3, 2}};
  for(auto const& e : es) { L.m.emplace(e.key(), e); h.add(*sp.make(e)); }
  c.input(L.str());
  lc::hilbert_space<int> const& ch = h;
  u64 k = 0, x = 0, last = 0, bad = 0;
  foreach(ch, [&](lc::sv_index_type s) { bad += (k && s <= last); last = s; x ^= s * 0x9e3779b97f4a7c15ull; ++k; });
  c.check(k == L.dim(), "WRONG-COUNT", [&] { return std::to_string(k) + " of " + std::to_string(L.dim()); });
  c.check(!bad && last == L.nth(L.dim() - 1), "WRONG-ORDER");
  c.ev("states visited", k);
  c.nontrivial(c.in);
}
#endif
