// C17: N-fermion sector views.
#include "nfs.hpp"

namespace {
using hsm::Entry;
using hsm::Layout;

// ---------------------------------------------------------------- complete checks on small spaces
template <typename... I> struct Small {
  mon::Case& c;
  Layout L;
  lc::hilbert_space<I...> hs;
  int M = 0, Mn = 0;
  unsigned N = 0;
  std::vector<u64> list;         // states as listed by the library
  std::map<u64, u64> pos;        // state -> position in the list
  std::vector<double> ref;       // amplitudes by position

  explicit Small(mon::Case& c_) : c(c_) {}

  template <typename View> bool traverse(View const& v, std::vector<double> const& a, char const* nm) {
    std::map<u64, double> want;
    for(u64 k = 0; k < a.size(); ++k)
      if(a[k] != 0) want[list[k]] = a[k];
    std::map<u64, double> seen;
    u64 n = 0;
    foreach(v, [&](u64 s, double x) { seen[s] = x; ++n; });
    c.ev("visited", n);
    return c.check(seen == want && n == want.size(), "TRAVERSAL", [&] {
      std::string o = std::string(nm) + " N=" + std::to_string(N) + " visited " + std::to_string(n) + ":";
      int k = 0;
      for(auto const& q : seen) if(++k < 40) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
      o += " expected:";
      k = 0;
      for(auto const& q : want) if(++k < 40) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
      return o;
    });
  }

  struct stop {};

  template <typename Rank> bool ranking(char const* nm) {
    auto& r = c.r;
    u64 d = list.size();
    c.phase(nm);
    std::vector<double> st(ref);
    st.insert(st.end(), 4, 999.);
    using V = std::vector<double>;
    using RV = lc::n_fermion_sector_view<V, true, Rank>;
    using OV = lc::n_fermion_sector_view<V, false, Rank>;
    using CV = lc::n_fermion_sector_view<V const, true, Rank>;
    RV v(st, hs, N);
    CV cv(st, hs, N);
    OV ov(V(ref), hs, N);
    for(u64 k = 0; k < d; ++k) {
      u64 m = v.map_index(list[k]);
      if(m != k || ov.map_index(list[k]) != k || cv.map_index(list[k]) != k) {
        c.fail("MAP-INDEX", std::string(nm) + " N=" + std::to_string(N) + " state " + std::to_string(list[k]) + " is number " +
                                std::to_string(k) + " in the list, the view maps it to " + std::to_string(m));
        return false;
      }
      if(get_element(v, list[k]) != ref[k] || get_element(cv, list[k]) != ref[k] || get_element(ov, list[k]) != ref[k]) {
        c.fail("GET-ELEMENT", std::string(nm) + " N=" + std::to_string(N) + " state " + std::to_string(list[k]));
        return false;
      }
    }
    c.ev("indices", d);
    if(!traverse(v, ref, nm) || !traverse(cv, ref, nm) || !traverse(ov, ref, nm)) return false;
    if(d == 0) return true;
    // copies, assignment through moves, shared and own storage
    RV v2(v);
    OV ov2(ov);
    OV ov3(std::move(ov2));
    u64 k0 = r.next() % d;
    update_add_element(v2, list[k0], 3.5);
    update_add_element(ov3, list[k0], -2.);
    auto r1 = ref, r2 = ref;
    r1[k0] += 3.5;
    r2[k0] -= 2;
    bool ok = traverse(v, r1, "shared storage") && traverse(v2, r1, "copied view") && traverse(cv, r1, "const view") &&
              traverse(ov, ref, "owning view whose copy was modified") && traverse(ov3, r2, "moved owning view");
    // interrupted, then nested traversals
    u64 lim = r.next() % (d + 1), n = 0;
    try { foreach(v, [&](u64, double) { if(n++ == lim) throw stop{}; }); } catch(stop const&) {}
    ok = ok && traverse(v, r1, "after an interrupted traversal");
    std::vector<u64> outer;
    u64 at = r.next() % d;
    n = 0;
    RV const v4(v);
    foreach(v, [&](u64 s, double) {
      outer.push_back(s);
      if(n++ == at) {
        ok = traverse(v, r1, "nested in its own traversal") && traverse(v4, r1, "copy, nested") && ok;
        u64 k = 0;
        try { foreach(v, [&](u64, double) { if(k++ == 1) throw stop{}; }); } catch(stop const&) {}
      }
    });
    std::vector<u64> want;
    for(u64 k = 0; k < d; ++k) if(r1[k] != 0) want.push_back(list[k]);
    std::sort(outer.begin(), outer.end());
    std::sort(want.begin(), want.end());
    ok = c.check(outer == want, "NESTED-TRAVERSAL", [&] { return std::string(nm) + " N=" + std::to_string(N); }) && ok;
    for(u64 k = 0; k < d; ++k) ok = ok && st[k] == r1[k];
    for(u64 k = d; k < st.size(); ++k) ok = ok && st[k] == 999;
    c.check(ok, "STORAGE", [&] { return std::string(nm) + " N=" + std::to_string(N); });
    set_zeros(ov3);
    ok = traverse(ov3, V(d, 0.), "zeroed view") && ok;
    return ok;
  }

  void run() {
    auto& r = c.r;
    hsm::Space<I...> sp;
    sp.pool = hsm::pools<I...>::get();
    std::vector<Entry> es;
    L = nfs::random_layout(r, r.coin(0.1) ? 0 : r.range(1, 9), r.coin(0.3) ? 0 : r.range(0, 3), r.range(0, 4), int(std::min<size_t>(sp.pool.size(), 12)), es);
    while(L.bits() > 11) {
      L.m.erase(es.back().key());
      es.pop_back();
    }
    c.input(L.str());
    r.shuffle(es);
    hs = sp.build(es);
    M = nfs::n_fermions(L);
    Mn = L.bits() - M;
    bool degenerate = L.bits() == 0;
    for(N = 0; N <= unsigned(M) + 2; ++N) {
      c.phase("size");
      u64 want = N > unsigned(M) || degenerate ? 0 : u64(nfs::binom(M, N)) << Mn;
      u64 got = n_fermion_sector_size(hs, N);
      if(!c.check(got == want, "SIZE", [&] { return "N=" + std::to_string(N) + " size " + std::to_string(got) + " expected " + std::to_string(want); })) return;
      if(N > unsigned(M)) continue;
      c.phase("basis states");
      list = n_fermion_sector_basis_states(hs, N);
      std::set<u64> s(list.begin(), list.end()), w;
      if(!degenerate)
        for(u64 x = 0; x < u64(1) << L.bits(); ++x)
          if(nfs::pop(x & ((u64(1) << M) - 1)) == N) w.insert(x);
      if(!c.check(s == w && list.size() == want, "BASIS-STATES", [&] { return "N=" + std::to_string(N) + " list " + mon::vstr(list); })) return;
      c.ev("sectors");
      if(degenerate) continue;
      ref.assign(list.size(), 0.);
      for(auto& x : ref) x = r.coin(0.75) ? double(r.range(1, 60)) : 0.;
      if(!ranking<lc::combination_ranking>("combination")) return;
      switch(r.below(6)) {
      case 0: if(!ranking<lc::staggered_ranking<1>>("staggered<1>")) return; break;
      case 1: if(!ranking<lc::staggered_ranking<2>>("staggered<2>")) return; break;
      case 2: if(!ranking<lc::staggered_ranking<3>>("staggered<3>")) return; break;
      case 3: if(!ranking<lc::staggered_ranking<4>>("staggered<4>")) return; break;
      case 4: if(!ranking<lc::staggered_ranking<5>>("staggered<5>")) return; break;
      default: if(!ranking<lc::staggered_ranking<8>>("staggered<8>")) return; break;
      }
      switch(r.below(6)) {
      case 0: if(!ranking<lc::trie_ranking<1>>("trie<1>")) return; break;
      case 1: if(!ranking<lc::trie_ranking<2>>("trie<2>")) return; break;
      case 2: if(!ranking<lc::trie_ranking<3>>("trie<3>")) return; break;
      case 3: if(!ranking<lc::trie_ranking<4>>("trie<4>")) return; break;
      case 4: if(!ranking<lc::trie_ranking<5>>("trie<5>")) return; break;
      default: if(!ranking<lc::trie_ranking<8>>("trie<8>")) return; break;
      }
    }
    c.nontrivial(c.in + std::to_string(r.s));
  }
};
} // namespace

#if PART == 1
MON_SECTION("small", 500, 12000) {
  switch(c.r.below(3)) {
  case 0: Small<int>(c).run(); break;
  case 1: Small<std::string, int>(c).run(); break;
  default: Small<libcommute::dynamic_indices::dyn_indices>(c).run();
  }
}
#endif

#if PART == 2
// ---------------------------------------------------------------- medium and large numbers of modes
namespace {
template <typename Rank> void rank_check(mon::Case& c, lc::hilbert_space<int> const& hs, unsigned N, std::vector<u64> const& states,
                                         std::vector<u64> const& want, char const* nm) {
  nfs::Gen g{0};
  c.phase(nm);
  lc::n_fermion_sector_view<nfs::Gen const, true, Rank> v(g, hs, N);
  for(u64 k = 0; k < states.size(); ++k) {
    u64 m = v.map_index(states[k]);
    if(m != want[k]) {
      c.fail("MAP-INDEX-LARGE", std::string(nm) + " state " + std::to_string(states[k]) + " maps to " + std::to_string(m) + " instead of " + std::to_string(want[k]));
      return;
    }
  }
  c.ev("indices", states.size());
}
} // namespace

// The complete list of larger sectors against all rankings
MON_SECTION("medium", 400, 4000) {
  auto& r = c.r;
  hsm::Space<int> sp;
  sp.pool = hsm::pools<int>::get();
  std::vector<Entry> es;
  int M = r.range(8, 15);
  Layout L = nfs::random_layout(r, M, r.below(2), r.below(3), 30, es);
  unsigned N = unsigned(r.range(0, M));
  c.input(L.str() + " N=" + std::to_string(N));
  auto hs = sp.build(es);
  int Mn = L.bits() - M;
  c.phase("list");
  auto list = n_fermion_sector_basis_states(hs, N);
  u64 d = u64(nfs::binom(M, int(N))) << Mn;
  std::set<u64> s(list.begin(), list.end());
  bool ok = list.size() == d && s.size() == d && n_fermion_sector_size(hs, N) == d;
  for(u64 x : s) ok = ok && nfs::pop(x & ((u64(1) << M) - 1)) == N && x < u64(1) << L.bits();
  if(!c.check(ok, "BASIS-STATES")) return;
  std::vector<u64> id(d);
  for(u64 k = 0; k < d; ++k) id[k] = k;
  rank_check<lc::combination_ranking>(c, hs, N, list, id, "combination");
  rank_check<lc::staggered_ranking<1>>(c, hs, N, list, id, "staggered<1>");
  rank_check<lc::staggered_ranking<3>>(c, hs, N, list, id, "staggered<3>");
  rank_check<lc::staggered_ranking<7>>(c, hs, N, list, id, "staggered<7>");
  rank_check<lc::trie_ranking<1>>(c, hs, N, list, id, "trie<1>");
  rank_check<lc::trie_ranking<3>>(c, hs, N, list, id, "trie<3>");
  rank_check<lc::trie_ranking<6>>(c, hs, N, list, id, "trie<6>");
  rank_check<lc::trie_ranking<10>>(c, hs, N, list, id, "trie<10>");
  c.nontrivial(c.in);
}

// Up to 63 modes: sizes, start of the traversal, sampled indices
MON_SECTION("large", 1500, 15000) {
  auto& r = c.r;
  hsm::Space<int> sp;
  sp.pool = hsm::pools<int>::get();
  std::vector<Entry> es;
  int M = r.range(20, 63);
  Layout L = nfs::random_layout(r, M, r.below(3), r.below(4), 70, es);
  while(L.bits() > 63) {
    es.pop_back();
    L.m.clear();
    for(auto const& e : es) L.m.emplace(e.key(), e);
  }
  M = nfs::n_fermions(L);
  unsigned N = r.coin(0.3) ? unsigned(M) / 2 + unsigned(r.below(2)) : unsigned(r.range(0, M));
  c.input(L.str() + " N=" + std::to_string(N));
  auto hs = sp.build(es);
  int Mn = L.bits() - M;
  for(unsigned n = 0; n <= unsigned(M) + 1; ++n) {
    u64 want = n > unsigned(M) ? 0 : u64(nfs::binom(M, int(n)) << Mn), got = n_fermion_sector_size(hs, n);
    if(!c.check(got == want, "SIZE", [&] { return "n=" + std::to_string(n) + " size " + std::to_string(got) + " expected " + std::to_string(want); })) return;
  }
  u64 d = u64(nfs::binom(M, int(N)) << Mn), lim = std::min<u64>(d, 3000), k = 0;
  c.phase("traversal");
  nfs::Gen g{0};
  lc::n_fermion_sector_view<nfs::Gen const, true> v(g, hs, N);
  std::vector<u64> st, ix;
  std::set<u64> uniq;
  struct stop {};
  bool ok = true;
  try {
    foreach(v, [&](u64 s, double a) {
      if(k == lim) throw stop{};
      ok = ok && nfs::pop(s & ((u64(1) << M) - 1)) == N && a == double(k + 1) && uniq.insert(s).second && s < u64(1) << L.bits();
      st.push_back(s);
      ix.push_back(k++);
    });
  } catch(stop const&) {}
  if(!c.check(ok && k == lim, "TRAVERSAL-LARGE", [&] { return "after " + std::to_string(k) + " visits"; })) return;
  // sampled states: all rankings agree with the number of states that precede in the listed order
  std::set<u64> images;
  for(int i = 0; i < 200; ++i) {
    std::vector<int> p(M);
    for(int j = 0; j < M; ++j) p[j] = j;
    if(r.coin()) r.shuffle(p);
    else if(r.coin()) std::reverse(p.begin(), p.end());
    if(r.coin(0.3)) std::swap(p[r.below(M)], p[r.below(M)]);
    u64 s = 0;
    for(unsigned j = 0; j < N; ++j) s |= u64(1) << p[j];
    u64 rest = Mn ? r.next() & ((u64(1) << Mn) - 1) : 0;
    u64 want = (nfs::rank(s, M, N) << Mn) | rest;
    st.push_back(M < 64 ? s | (Mn ? rest << M : 0) : s);
    ix.push_back(want);
  }
  rank_check<lc::combination_ranking>(c, hs, N, st, ix, "combination");
  rank_check<lc::staggered_ranking<1>>(c, hs, N, st, ix, "staggered<1>");
  rank_check<lc::staggered_ranking<4>>(c, hs, N, st, ix, "staggered<4>");
  rank_check<lc::staggered_ranking<5>>(c, hs, N, st, ix, "staggered<5>");
  rank_check<lc::staggered_ranking<8>>(c, hs, N, st, ix, "staggered<8>");
  c.nontrivial(c.in);
}
#endif

#if PART == 3
// ---------------------------------------------------------------- actions
namespace {
template <typename S> void action(mon::Case& c) {
  auto& r = c.r;
  Sys<int> s = nfs::random_sys_pow2(r);
  int M = 0;
  for(auto const& m : s.u.model.modes) M += m.alg == ref::FERMION;
  unsigned N = unsigned(r.range(0, M));
  auto e = nfs::conserving_expr<S>(r, s.u, {});
  c.input(s.layout() + " N=" + std::to_string(N) + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  auto list = n_fermion_sector_basis_states(*s.hs, N);
  u64 d = n_fermion_sector_size(*s.hs, N);
  if(!c.check(list.size() == d && d > 0, "BASIS-STATES")) return;
  nfs::act_through<S>(c, s, e, op, list,
                      [&](auto&& st) { return make_nfs_view(std::forward<decltype(st)>(st), *s.hs, N); },
                      [&](auto&& st) { return make_const_nfs_view(std::forward<decltype(st)>(st), *s.hs, N); });
}
} // namespace
MON_SECTION("action", 6000, 80000) {
  if(c.r.coin(0.7)) action<double>(c);
  else action<std::complex<double>>(c);
}
#endif
