// C18: N-fermion multisector views.
#include "nfs.hpp"

namespace {
using hsm::Entry;
using hsm::Layout;

// Random disjoint groups of fermionic modes; elements are positions in the list of fermions
std::vector<std::vector<int>> random_groups(mon::rng& r, int M) {
  std::vector<std::vector<int>> g(r.coin(0.08) ? 0 : r.range(1, 4));
  double keep = r.coin(0.3) ? 1.0 : 0.3 + 0.6 * r.real();
  int style = r.below(3);
  if(g.empty()) return g;
  for(int m = 0; m < M; ++m) {
    if(!r.coin(keep)) continue;
    int k = style == 0 ? r.below(int(g.size())) : style == 1 ? m % int(g.size()) : m * int(g.size()) / std::max(M, 1);
    g[k].push_back(m);
  }
  if(r.coin(0.7)) r.shuffle(g);
  return g;
}
u64 extract(u64 x, u64 mask) {
  u64 o = 0;
  int k = 0;
  for(int b = 0; b < 64; ++b)
    if((mask >> b) & 1) { o |= ((x >> b) & 1) << k; ++k; }
  return o;
}

template <typename... I> struct Small {
  mon::Case& c;
  Layout L;
  lc::hilbert_space<I...> hs;
  std::vector<lc::sector_descriptor<lc::hilbert_space<I...>>> sec;
  std::vector<u64> list;
  std::vector<double> ref;
  std::string desc;
  struct stop {};
  explicit Small(mon::Case& c_) : c(c_) {}

  template <typename View> bool traverse(View const& v, std::vector<double> const& a, char const* nm) {
    std::map<u64, double> want, seen;
    for(u64 k = 0; k < a.size(); ++k)
      if(a[k] != 0) want[list[k]] = a[k];
    u64 n = 0;
    foreach(v, [&](u64 s, double x) { seen[s] = x; ++n; });
    c.ev("visited", n);
    return c.check(seen == want && n == want.size(), "TRAVERSAL", [&] {
      std::string o = std::string(nm) + desc + " visited " + std::to_string(n) + ":";
      int k = 0;
      for(auto const& q : seen) if(++k < 40) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
      o += " expected:";
      k = 0;
      for(auto const& q : want) if(++k < 40) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
      return o;
    });
  }
  template <typename Rank> bool ranking(char const* nm) {
    auto& r = c.r;
    u64 d = list.size();
    c.phase(nm);
    std::vector<double> st(ref);
    st.insert(st.end(), 4, 999.);
    using V = std::vector<double>;
    using RV = lc::n_fermion_multisector_view<V, true, Rank>;
    using OV = lc::n_fermion_multisector_view<V, false, Rank>;
    using CV = lc::n_fermion_multisector_view<V const, true, Rank>;
    RV v(st, hs, sec);
    CV cv(st, hs, sec);
    OV ov(V(ref), hs, sec);
    for(u64 k = 0; k < d; ++k) {
      u64 m = v.map_index(list[k]);
      if(m != k || ov.map_index(list[k]) != k || cv.map_index(list[k]) != k) {
        c.fail("MAP-INDEX", std::string(nm) + desc + " state " + std::to_string(list[k]) + " is number " + std::to_string(k) +
                                " in the list, the view maps it to " + std::to_string(m));
        return false;
      }
      if(get_element(v, list[k]) != ref[k] || get_element(cv, list[k]) != ref[k] || get_element(ov, list[k]) != ref[k]) {
        c.fail("GET-ELEMENT", std::string(nm) + desc + " state " + std::to_string(list[k]));
        return false;
      }
    }
    c.ev("indices", d);
    if(!traverse(v, ref, nm) || !traverse(cv, ref, nm) || !traverse(ov, ref, nm)) return false;
    if(d == 0) return true;
    std::unique_ptr<RV> orig(new RV(v));
    RV v2(*orig);
    OV ov2(ov);
    OV ov3(std::move(ov2));
    orig.reset(); // copies do not depend on the original
    u64 k0 = r.next() % d;
    update_add_element(v2, list[k0], 3.5);
    update_add_element(ov3, list[k0], -2.);
    auto r1 = ref, r2 = ref;
    r1[k0] += 3.5;
    r2[k0] -= 2;
    bool ok = traverse(v, r1, "shared storage") && traverse(v2, r1, "copied view") && traverse(cv, r1, "const view") &&
              traverse(ov, ref, "owning view whose copy was modified") && traverse(ov3, r2, "moved owning view");
    u64 lim = r.next() % (d + 1), n = 0;
    try { foreach(v, [&](u64, double) { if(n++ == lim) throw stop{}; }); } catch(stop const&) {}
    ok = ok && traverse(v, r1, "after an interrupted traversal");
    std::vector<u64> outer;
    u64 at = r.next() % d;
    n = 0;
    foreach(v, [&](u64 s, double) {
      outer.push_back(s);
      if(n++ == at) {
        ok = traverse(v, r1, "nested in its own traversal") && ok;
        u64 k = 0;
        try { foreach(v, [&](u64, double) { if(k++ == 1) throw stop{}; }); } catch(stop const&) {}
      }
    });
    std::vector<u64> want;
    for(u64 k = 0; k < d; ++k) if(r1[k] != 0) want.push_back(list[k]);
    std::sort(outer.begin(), outer.end());
    std::sort(want.begin(), want.end());
    ok = c.check(outer == want, "NESTED-TRAVERSAL", [&] { return std::string(nm) + desc; }) && ok;
    bool stok = true;
    for(u64 k = 0; k < d; ++k) stok = stok && st[k] == r1[k];
    for(u64 k = d; k < st.size(); ++k) stok = stok && st[k] == 999;
    c.check(stok, "STORAGE", [&] { return std::string(nm) + desc; });
    set_zeros(ov3);
    return traverse(ov3, V(d, 0.), "zeroed view") && ok && stok;
  }
  void run() {
    auto& r = c.r;
    hsm::Space<I...> sp;
    sp.pool = hsm::pools<I...>::get();
    std::vector<Entry> es;
    int M = r.coin(0.06) ? 0 : r.range(1, 9);
    L = nfs::random_layout(r, M, r.coin(0.3) ? 0 : r.range(0, 2), r.range(0, 3), 12, es);
    while(L.bits() > 11) {
      L.m.erase(es.back().key());
      es.pop_back();
    }
    r.shuffle(es);
    hs = sp.build(es);
    std::vector<int> fidx; // indices of fermions in their order
    for(auto const& p : L.m) if(p.second.alg == -3) fidx.push_back(p.second.idx);
    bool degenerate = L.bits() == 0;
    for(int trial = 0; trial < 4; ++trial) {
      auto g = random_groups(r, M);
      sec.clear();
      std::vector<u64> mask;
      std::vector<unsigned> N;
      bool exists = true;
      u64 size = 1, used = 0;
      desc = " sectors";
      for(auto const& q : g) {
        sec.emplace_back();
        mask.push_back(0);
        desc += " {";
        for(int m : q) {
          sec.back().indices.insert(sp.pool[fidx[m]]);
          mask.back() |= u64(1) << m;
          desc += std::to_string(m) + " ";
        }
        unsigned n = unsigned(r.range(0, int(q.size())));
        if(r.coin(0.04)) n = unsigned(q.size()) + 1 + r.below(2);
        sec.back().N = n;
        N.push_back(n);
        exists = exists && n <= q.size();
        size *= u64(nfs::binom(int(q.size()), int(n)));
        used |= mask.back();
        desc += "}N=" + std::to_string(n);
      }
      c.input(L.str() + desc);
      size = !exists || degenerate ? 0 : size << (L.bits() - nfs::pop(used));
      c.phase("size");
      u64 got = n_fermion_multisector_size(hs, sec);
      if(!c.check(got == size, "SIZE", [&] { return desc + " size " + std::to_string(got) + " expected " + std::to_string(size); })) return;
      if(!exists) continue;
      c.phase("basis states");
      list = n_fermion_multisector_basis_states(hs, sec);
      std::set<u64> s(list.begin(), list.end()), w;
      if(!degenerate)
        for(u64 x = 0; x < u64(1) << L.bits(); ++x) {
          bool in = true;
          for(size_t i = 0; i < g.size(); ++i) in = in && nfs::pop(x & mask[i]) == N[i];
          if(in) w.insert(x);
        }
      if(!c.check(s == w && list.size() == size, "BASIS-STATES", [&] { return desc + " list " + mon::vstr(list) + " expected " + mon::vstr(w); })) return;
      c.ev("multisectors");
      if(degenerate) continue;
      ref.assign(list.size(), 0.);
      for(auto& x : ref) x = r.coin(0.75) ? double(r.range(1, 60)) : 0.;
      if(!ranking<lc::combination_ranking>("combination")) return;
      switch(r.below(8)) {
      case 0: if(!ranking<lc::staggered_ranking<1>>("staggered<1>")) return; break;
      case 1: if(!ranking<lc::staggered_ranking<2>>("staggered<2>")) return; break;
      case 2: if(!ranking<lc::staggered_ranking<3>>("staggered<3>")) return; break;
      case 3: if(!ranking<lc::staggered_ranking<5>>("staggered<5>")) return; break;
      case 4: if(!ranking<lc::trie_ranking<1>>("trie<1>")) return; break;
      case 5: if(!ranking<lc::trie_ranking<2>>("trie<2>")) return; break;
      case 6: if(!ranking<lc::trie_ranking<3>>("trie<3>")) return; break;
      default: if(!ranking<lc::trie_ranking<5>>("trie<5>")) return; break;
      }
      c.nontrivial(c.in + std::to_string(r.s));
    }
  }
};
} // namespace

#if PART == 1
MON_SECTION("small", 600, 12000) {
  switch(c.r.below(3)) {
  case 0: Small<int>(c).run(); break;
  case 1: Small<std::string, int>(c).run(); break;
  default: Small<libcommute::dynamic_indices::dyn_indices>(c).run();
  }
}
#endif

#if PART == 2
namespace {
template <typename Rank, typename Sec>
void rank_check(mon::Case& c, lc::hilbert_space<int> const& hs, Sec const& sec, std::vector<u64> const& states,
                std::vector<u64> const& want, char const* nm) {
  nfs::Gen g{0};
  c.phase(nm);
  lc::n_fermion_multisector_view<nfs::Gen const, true, Rank> v(g, hs, sec);
  for(u64 k = 0; k < states.size(); ++k) {
    u64 m = v.map_index(states[k]);
    if(m != want[k]) {
      c.fail("MAP-INDEX-LARGE", std::string(nm) + " state " + std::to_string(states[k]) + " maps to " + std::to_string(m) + " instead of " + std::to_string(want[k]));
      return;
    }
  }
  c.ev("indices", states.size());
}
} // namespace
MON_SECTION("large", 2500, 30000) {
  auto& r = c.r;
  hsm::Space<int> sp;
  sp.pool = hsm::pools<int>::get();
  std::vector<Entry> es;
  int M = r.coin() ? r.range(33, 63) : r.range(10, 40);
  Layout L = nfs::random_layout(r, M, r.below(3), r.below(4), 70, es);
  while(L.bits() > 63) {
    L.m.erase(es.back().key());
    es.pop_back();
  }
  M = nfs::n_fermions(L);
  r.shuffle(es);
  auto hs = sp.build(es);
  std::vector<int> fidx;
  for(auto const& p : L.m) if(p.second.alg == -3) fidx.push_back(p.second.idx);
  auto g = random_groups(r, M);
  bool tries = r.coin(0.3), wide = M >= 36 && r.coin(0.3);
  if(wide) { // a few modes in front of a sector with more than 2^32 states, maybe one behind it
    std::vector<int> all(static_cast<std::size_t>(M));
    for(int i = 0; i < M; ++i) all[std::size_t(i)] = i;
    if(r.coin()) r.shuffle(all);
    int a = r.range(1, std::max(1, M - 35)), b = r.range(0, M - a - 35);
    g.assign(1, std::vector<int>(all.begin(), all.begin() + a));
    g.emplace_back(all.begin() + a, all.end() - b);
    if(b) g.emplace_back(all.end() - b, all.end());
    tries = false;
  }
  std::vector<lc::sector_descriptor<lc::hilbert_space<int>>> sec;
  std::vector<u64> mask;
  u64 used = 0, fsize = 1;
  std::vector<u64> dims;
  std::string desc = L.str() + " sectors";
  for(auto& q : g) {
    if(tries && q.size() > 13) q.resize(13);
    sec.emplace_back();
    u64 m = 0;
    desc += " {";
    for(int k : q) {
      m |= u64(1) << k;
      sec.back().indices.insert(sp.pool[fidx[k]]);
      desc += std::to_string(k) + " ";
    }
    sec.back().N = (wide && &q == &g[1]) || r.coin(0.3) ? unsigned(q.size()) / 2 : unsigned(r.range(0, int(q.size())));
    desc += "}N=" + std::to_string(sec.back().N);
    mask.push_back(m);
    used |= m;
    dims.push_back(u64(nfs::binom(int(q.size()), int(sec.back().N))));
    fsize *= dims.back();
  }
  c.input(desc);
  int Mn = L.bits() - int(nfs::pop(used));
  u64 d = fsize << Mn;
  u64 got = n_fermion_multisector_size(hs, sec);
  if(!c.check(got == d, "SIZE", [&] { return "size " + std::to_string(got) + " expected " + std::to_string(d); })) return;
  u64 nmask = (L.bits() == 64 ? ~u64(0) : (u64(1) << L.bits()) - 1) & ~used;
  auto expect = [&](u64 s) {
    u64 k = 0;
    for(size_t i = 0; i < g.size(); ++i)
      k = k * dims[i] + nfs::rank(extract(s, mask[i]), int(g[i].size()), sec[i].N);
    return (k << Mn) | extract(s, nmask);
  };
  c.phase("traversal");
  u64 lim = std::min<u64>(d, 2000), k = 0;
  nfs::Gen gen{0};
  lc::n_fermion_multisector_view<nfs::Gen const, true> v(gen, hs, sec);
  std::vector<u64> st, ix;
  std::set<u64> uniq;
  struct stop {};
  bool ok = true;
  std::string why;
  try {
    foreach(v, [&](u64 s, double a) {
      if(k == lim) throw stop{};
      bool in = a == double(k + 1) && uniq.insert(s).second && (s & ~(used | nmask)) == 0;
      for(size_t i = 0; i < g.size(); ++i) in = in && nfs::pop(s & mask[i]) == sec[i].N;
      if(!in) { ok = false; why = "visit " + std::to_string(k) + " state " + std::to_string(s); throw stop{}; }
      st.push_back(s);
      ix.push_back(k++);
    });
  } catch(stop const&) {}
  if(!c.check(ok && k == lim, "TRAVERSAL-LARGE", [&] { return why + " after " + std::to_string(k) + " visits of " + std::to_string(d); })) return;
  for(int i = 0; i < 150; ++i) {
    u64 s = r.next() & nmask;
    for(size_t q = 0; q < g.size(); ++q) {
      auto p = g[q];
      if(r.coin(0.7)) r.shuffle(p);
      else if(r.coin()) std::reverse(p.begin(), p.end());
      for(unsigned j = 0; j < sec[q].N; ++j) s |= u64(1) << p[j];
    }
    st.push_back(s);
    ix.push_back(expect(s));
  }
  rank_check<lc::combination_ranking>(c, hs, sec, st, ix, "combination");
  rank_check<lc::staggered_ranking<2>>(c, hs, sec, st, ix, "staggered<2>");
  rank_check<lc::staggered_ranking<6>>(c, hs, sec, st, ix, "staggered<6>");
  if(tries) {
    rank_check<lc::trie_ranking<2>>(c, hs, sec, st, ix, "trie<2>");
    rank_check<lc::trie_ranking<5>>(c, hs, sec, st, ix, "trie<5>");
  }
  c.nontrivial(c.in);
}
#endif

#if PART == 3
namespace {
template <typename S> void action(mon::Case& c) {
  auto& r = c.r;
  Sys<int> s = nfs::random_sys_pow2(r);
  std::vector<int> fm;
  for(int m = 0; m < s.u.size(); ++m) if(s.u.model.modes[m].alg == ref::FERMION) fm.push_back(m);
  auto g = random_groups(r, int(fm.size()));
  std::vector<lc::sector_descriptor<lc::hilbert_space<int>>> sec;
  std::vector<std::vector<int>> groups;
  std::string desc;
  for(auto const& q : g) {
    sec.emplace_back();
    groups.emplace_back();
    desc += " {";
    for(int k : q) {
      sec.back().indices.insert(s.u.idx[fm[k]]);
      groups.back().push_back(fm[k]);
      desc += std::to_string(k) + " ";
    }
    sec.back().N = q.size() > 1 && r.coin(0.7) ? unsigned(r.range(1, int(q.size()) - 1)) : unsigned(r.range(0, int(q.size())));
    desc += "}N=" + std::to_string(sec.back().N);
  }
  if(groups.empty()) groups.emplace_back(); // free modes only
  auto e = nfs::conserving_expr<S>(r, s.u, groups);
  c.input(s.layout() + " sectors" + desc + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  auto list = n_fermion_multisector_basis_states(*s.hs, sec);
  u64 d = n_fermion_multisector_size(*s.hs, sec);
  if(!c.check(list.size() == d && d > 0, "BASIS-STATES")) return;
  nfs::act_through<S>(c, s, e, op, list,
                      [&](auto&& st) { return make_nfms_view(std::forward<decltype(st)>(st), *s.hs, sec); },
                      [&](auto&& st) { return make_const_nfms_view(std::forward<decltype(st)>(st), *s.hs, sec); });
}
} // namespace
MON_SECTION("action", 8000, 100000) {
  if(c.r.coin(0.7)) action<double>(c);
  else action<std::complex<double>>(c);
}
#endif
