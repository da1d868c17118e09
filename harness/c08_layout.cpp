// C08: layout of Hilbert spaces under histories of additions, copies, moves
// and rejected additions.
#include "hs.hpp"
using namespace hsm;

namespace {

template <typename... I> void history(mon::Case& c, bool huge) {
  auto& r = c.r;
  using S = Space<I...>;
  using hs_t = typename S::hs_t;
  S sp{pools<I...>::get()};
  int n_idx = r.range(2, std::min<int>(int(sp.pool.size()), huge ? 70 : 12));
  std::vector<std::unique_ptr<hs_t>> v;
  std::vector<Layout> L;
  std::vector<Entry> uni;
  std::string log;
  u64 obs = 0;
  auto check_all = [&](char const* op) {
    for(std::size_t i = 0; i < v.size(); ++i) {
      std::vector<Entry> some;
      for(auto const& e : uni)
        if(r.coin(0.3) && some.size() < 4) some.push_back(e);
      auto s = sp.compare(*v[i], L[i], some, &obs);
      if(!c.check(s.empty(), "LAYOUT", [&] { return std::string("after ") + op + " space h" + std::to_string(i) + ": " + s; }))
        return false;
      for(std::size_t j = 0; j < v.size(); ++j) {
        bool eq = L[i] == L[j];
        hs_t const &a = *v[i], &b = *v[j];
        if(!c.check((a == b) == eq && (a != b) == !eq, "EQUALITY",
                    [&] { return std::string("after ") + op + ": " + L[i].str() + " vs " + L[j].str(); }))
          return false;
      }
    }
    return true;
  };
  v.emplace_back(new hs_t());
  L.emplace_back();
  int n = huge ? r.range(10, 60) : r.range(4, 14);
  for(int k = 0; k < n; ++k) {
    int i = r.below(int(v.size()));
    int op = r.below(12);
    if(huge && op > 6 && r.coin(0.7)) op = 0;
    char const* name = "add";
    std::string is = "h" + std::to_string(i);
    if(op <= 5) {
      Entry e = random_entry(r, n_idx, 1000);
      if(huge && r.coin(0.2) && (e.alg == -2 || e.alg >= 0)) {
        int b = r.range(1, 63);
        e.dim = (u64(1) << b) + (r.coin() ? u64(r.range(-1, 1)) : (r.next() & ((u64(1) << b) - 1)));
        if(e.dim < 1) e.dim = 1;
      }
      if(!uni.empty() && r.coin(0.15)) { // an element with known indices, perhaps of another dimension
        u64 d = e.dim;
        e = r.pick(uni);
        if(e.alg == -2 || e.alg >= 0) e.dim = r.coin() ? e.dim : d;
      }
      if(r.coin(0.5)) uni.push_back(e);
      log += is + "+=" + e.str() + " | ";
      c.input(log);
      auto es = sp.make(e);
      bool dup = L[i].m.count(e.key()) != 0;
      int bits = L[i].bits() + e.bits();
      bool big = !dup && bits > 63;
      c.phase("add");
      try {
        v[i]->add(*es);
        if(!c.check(!dup && !big, dup ? "DUPLICATE-ACCEPTED" : "TOO-BIG-ACCEPTED", [&] { return L[i].str(); })) return;
        L[i].m.emplace(e.key(), e);
        c.ev("added");
      } catch(typename hs_t::elementary_space_exists const& x) {
        c.ev("duplicates rejected");
        if(!c.check(dup, "UNEXPECTED-DUPLICATE", [&] { return L[i].str() + x.what(); })) return;
        if(!c.check(x.elementary_space_ptr && sp.same(*x.elementary_space_ptr, e), "EXCEPTION-CONTENT")) return;
      } catch(typename hs_t::hilbert_space_too_big const& x) {
        c.ev("oversized rejected");
        if(!c.check(big, "UNEXPECTED-TOO-BIG", [&] { return L[i].str() + x.what(); })) return;
        if(!c.check(x.n_bits == bits, "EXCEPTION-N_BITS", [&] { return std::to_string(x.n_bits); })) return;
      }
      name = "add";
    } else if(op == 6) {
      log += "copy " + is + " | ";
      c.input(log);
      c.phase("copy construction");
      hs_t const& src = *v[i];
      v.emplace_back(new hs_t(src));
      L.push_back(Layout(L[i]));
      name = "copy construction";
    } else if(op == 7) {
      int j = r.below(int(v.size()));
      log += "h" + std::to_string(j) + "=" + is + " | ";
      c.input(log);
      c.phase("copy assignment");
      hs_t const& src = *v[i];
      *v[j] = src;
      Layout t = L[i];
      L[j] = t;
      name = "copy assignment";
    } else if(op == 8) {
      log += "move " + is + " | ";
      c.input(log);
      c.phase("move");
      std::unique_ptr<hs_t> p(new hs_t(std::move(*v[i])));
      v[i] = std::move(p);
      name = "move construction";
    } else if(op == 9) {
      int j = r.below(int(v.size()));
      if(j == i) continue;
      log += "h" + std::to_string(j) + "=move " + is + " | ";
      c.input(log);
      c.phase("move assignment");
      *v[j] = std::move(*v[i]);
      L[j] = L[i];
      v.erase(v.begin() + i);
      L.erase(L.begin() + i);
      name = "move assignment";
    } else if(op == 10) {
      // rebuild from a vector of pointers in a random order
      std::vector<Entry> es;
      for(auto const& p : L[i].m) es.push_back(p.second);
      r.shuffle(es);
      std::vector<std::unique_ptr<typename S::es_t>> own;
      std::vector<typename S::es_t*> ptrs;
      for(auto const& e : es) { own.push_back(sp.make(e)); ptrs.push_back(own.back().get()); }
      log += "from pointers of " + is + " | ";
      c.input(log);
      c.phase("construction from pointers");
      bool dup = !ptrs.empty() && r.coin(0.2);
      if(dup) ptrs.push_back(r.pick(ptrs));
      try {
        v.emplace_back(new hs_t(ptrs));
        if(!c.check(!dup, "DUPLICATE-ACCEPTED")) return;
        L.push_back(Layout(L[i]));
      } catch(typename hs_t::elementary_space_exists const&) {
        if(!c.check(dup, "UNEXPECTED-DUPLICATE")) return;
      }
      name = "construction from pointers";
    } else {
      // rebuild by additions in another order
      std::vector<Entry> es;
      for(auto const& p : L[i].m) es.push_back(p.second);
      r.shuffle(es);
      log += "rebuild " + is + " | ";
      c.input(log);
      c.phase("rebuild");
      v.emplace_back(new hs_t(sp.build(es)));
      L.push_back(Layout(L[i]));
      name = "rebuild";
    }
    c.ev("operations");
    if(!check_all(name)) return;
    // enumeration of a copied, assigned or extended space
    int j = r.below(int(v.size()));
    if(L[j].bits() < 62 && L[j].dim() <= 3000) {
      c.phase("enumeration");
      std::vector<u64> got;
      hs_t const& ch = *v[j];
      foreach(ch, [&](lc::sv_index_type s) { got.push_back(s); });
      if(!c.check(got == L[j].states(), "ENUMERATION", [&] { return L[j].str() + mon::vstr(got).substr(0, 500); })) return;
      c.ev("states enumerated", got.size());
    }
    if(v.size() > 6) { v.erase(v.begin()); L.erase(L.begin()); }
  }
  c.ev("snapshots", obs);
  c.nontrivial(log);
}

// Construction from several elementary spaces given as arguments
template <typename... I> void variadic(mon::Case& c) {
  auto& r = c.r;
  Space<I...> sp{pools<I...>::get()};
  int n = int(sp.pool.size());
  u64 d = u64(r.range(1, 70));
  double s = r.range(1, 9) / 2.0;
  Entry f1{-3, 0, r.below(n), 2}, f2{-3, 0, r.below(n), 2}, b{-2, 0, r.below(n), d},
      sn{-1, int(2 * s) + 1, r.below(n), u64(2 * s) + 1}, s2{-1, 2, r.below(n), 2};
  if(f1.idx == f2.idx || (sn.mult == 2 && sn.idx == s2.idx)) throw mon::skip_case{};
  using F = lc::elementary_space_fermion<I...>;
  using B = lc::elementary_space_boson<I...>;
  using Sp = lc::elementary_space_spin<I...>;
  Layout L;
  for(auto const& e : {f1, f2, b, sn, s2}) L.m.emplace(e.key(), e);
  c.input(L.str());
  c.nontrivial(c.in);
  F ef1(sp.pool[f1.idx]), ef2(sp.pool[f2.idx]);
  B eb(d, sp.pool[b.idx]);
  Sp es(s, sp.pool[sn.idx]), es2(0.5, sp.pool[s2.idx]);
  using hs_t = lc::hilbert_space<I...>;
  auto chk = [&](hs_t h) {
    auto m = sp.compare(h, L, {});
    c.check(m.empty(), "LAYOUT", [&] { return m; });
    c.ev("snapshots");
  };
  chk(hs_t(ef1, ef2, eb, es, es2));
  chk(hs_t(es2, eb, ef2, es, ef1));
  chk(hs_t(es, F(sp.pool[f1.idx]), es2, ef2, B(d, sp.pool[b.idx])));
  try {
    hs_t h(ef1, eb, ef1);
    c.fail("DUPLICATE-ACCEPTED", "");
  } catch(typename hs_t::elementary_space_exists const& x) {
    c.check(sp.same(*x.elementary_space_ptr, f1), "EXCEPTION-CONTENT");
  }
}
using D = libcommute::dynamic_indices::dyn_indices;
} // namespace

MON_SECTION("history-int", 4000, 60000) { history<int>(c, false); }
MON_SECTION("history-huge", 1500, 20000) { history<int>(c, true); }
MON_SECTION("history-string-int", 1500, 20000) { history<std::string, int>(c, false); }
MON_SECTION("history-dyn", 1500, 20000) { history<D>(c, c.r.coin(0.2)); }
MON_SECTION("variadic-int", 400, 4000) { variadic<int>(c); }
MON_SECTION("variadic-dyn", 400, 4000) { variadic<D>(c); }
