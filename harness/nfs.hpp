// Helpers of the N-fermion (multi)sector drivers.
#pragma once
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "ops.hpp"
#include <algorithm>
using namespace ops;
using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;

namespace nfs {
using mon::u64;
using u128 = unsigned __int128;

inline u128 binom(int n, int k) {
  static std::vector<std::vector<u128>> t;
  if(t.empty()) {
    t.assign(70, std::vector<u128>(71, 0));
    for(int i = 0; i < 70; ++i) {
      t[i][0] = 1;
      for(int j = 1; j <= i; ++j) t[i][j] = t[i - 1][j - 1] + (j <= i - 1 ? t[i - 1][j] : 0);
    }
  }
  return k > n || k < 0 ? u128(0) : t[n][k];
}
inline unsigned pop(u64 x) {
  unsigned n = 0;
  for(; x; x >>= 1) n += unsigned(x & 1);
  return n;
}
// Number of M-mode N-particle states preceding s (colexicographic order of the
// particles, or of the holes when these are in the minority)
inline u64 rank(u64 s, int M, unsigned N) {
  if(N > unsigned(M) / 2) s ^= M == 64 ? ~u64(0) : (u64(1) << M) - 1;
  u128 r = 0;
  int k = 0;
  for(int i = 0; i < M; ++i)
    if((s >> i) & 1) r += binom(i, ++k);
  return u64(r);
}
inline int n_fermions(hsm::Layout const& L) {
  int n = 0;
  for(auto const& p : L.m) n += p.second.alg == -3;
  return n;
}
// Elementary spaces: M fermions, other spaces whose dimensions are powers of two
inline hsm::Layout random_layout(mon::rng& r, int M, int nb, int ns, int n_idx, std::vector<hsm::Entry>& es) {
  hsm::Layout L;
  auto add = [&](hsm::Entry const& e) {
    if(L.m.emplace(e.key(), e).second) { es.push_back(e); return true; }
    return false;
  };
  for(int i = 0; i < M;) i += add({-3, 0, r.below(n_idx), 2});
  for(int i = 0; i < nb; ++i) add({-2, 0, r.below(n_idx), u64(1) << (r.coin(0.2) ? 0 : r.range(1, 2))});
  for(int i = 0; i < ns; ++i) {
    if(r.coin(0.7)) add({-1, 2, r.below(n_idx), 2});
    else if(r.coin()) add({-1, 4, r.below(n_idx), 4});
    else add({2, 0, r.below(n_idx), u64(1) << r.below(3)});
  }
  if(es.empty()) throw mon::skip_case{};
  // the spaces are added in random order, fermions in front of the list stay removable last
  return L;
}
// A read-only state vector: amplitude k+1 at index k
struct Gen { u64 n; };
inline double get_element(Gen const&, u64 n) { return double(n + 1); }
} // namespace nfs
namespace libcommute {
template <> struct element_type<nfs::Gen> { using type = double; };
} // namespace libcommute

namespace nfs {
inline Sys<int> random_sys_pow2(mon::rng& r) {
  for(;;) {
    Sys<int> s;
    int nf = r.range(1, 6), nb = r.coin(0.6) ? 0 : r.range(1, 2), ns = r.coin() ? 0 : r.range(1, 2);
    auto idxs = [&](int cnt, int lim) {
      std::set<int> q;
      while(int(q.size()) < cnt) q.insert(r.range(-lim, lim));
      return q;
    };
    std::vector<u64> bd;
    int bits = nf;
    for(int i : idxs(nf, 20)) { s.u.add({ref::FERMION, 2}, {i}); bd.push_back(0); }
    for(int i : idxs(nb, 6)) {
      s.u.add({ref::BOSON, 2}, {i});
      int b = r.below(4);
      bits += b;
      bd.push_back(u64(1) << b);
    }
    int n4 = ns ? r.below(2) : 0;
    for(int i : idxs(ns - n4, 6)) { s.u.add({ref::SPIN, 2}, {i}); bd.push_back(0); ++bits; }
    for(int i : idxs(n4, 6)) { s.u.add({ref::SPIN, 4}, {i}); bd.push_back(0); bits += 2; }
    std::vector<u64> user;
    if(r.coin(0.15)) { user.push_back(u64(1) << r.below(3)); bits += 2; }
    if(bits > 11) continue;
    s.build(r, bd, user);
    return s;
  }
}
// Random expression conserving the number of fermions in every group of fermionic modes
// (no groups given: in the set of all fermionic modes); modes outside all groups are free
template <typename S>
lc::expression<S, int> conserving_expr(mon::rng& r, ref::Universe<int> const& u, std::vector<std::vector<int>> groups) {
  lc::expression<S, int> e;
  bool all = groups.empty();
  std::vector<int> other;
  std::set<int> in;
  if(all) {
    groups.emplace_back();
    for(int m = 0; m < u.size(); ++m)
      if(u.model.modes[m].alg == ref::FERMION) groups[0].push_back(m);
  }
  for(auto const& g : groups) in.insert(g.begin(), g.end());
  for(int m = 0; m < u.size(); ++m)
    if(!in.count(m)) other.push_back(m);
  int nt = r.range(1, 4);
  for(int t = 0; t < nt; ++t) {
    Word w;
    int np = r.below(3);
    for(int i = 0; i < np; ++i) {
      auto const& g = r.pick(groups);
      if(g.empty()) continue;
      Letter x{r.pick(g), 1}, y{r.pick(g), 0};
      if(r.coin()) { w.push_back(x); w.push_back(y); }
      else { w.push_back(y); w.push_back(x); }
    }
    int no = other.empty() ? 0 : r.below(3);
    for(int i = 0; i < no; ++i) w.push_back(ref::random_letter(r, u.model, r.pick(other)));
    if(r.coin(0.5)) r.shuffle(w);
    e += lc::expression<S, int>(ref::as<S>(ref::random_coeff<S>(r)), u.mono(w));
  }
  return e;
}

// Actions of an operator through views of several storages
template <typename S, typename Op, typename MV, typename MC>
void act_through(mon::Case& c, Sys<int> const& s, lc::expression<S, int> const& e, Op const& op, std::vector<u64> const& list,
                 MV&& mv, MC&& mc) {
  auto& r = c.r;
  u64 d = list.size();
  std::vector<S> src(d, S(0));
  AVec ain;
  for(u64 k = 0; k < d; ++k)
    if(r.coin(d > 30 ? 0.2 : 0.7)) {
      src[k] = wide_amp<S>(r);
      if(src[k] != S(0)) ain[list[k]] = Amp{to_cld(src[k]), std::abs(to_cld(src[k]))};
    }
  AVec want = s.act(s.u.read(e), ain);
  auto keep = src;
  std::set<u64> in(list.begin(), list.end());
  for(auto const& q : want)
    if(!in.count(q.first)) throw std::logic_error("the operator leaves the sector");
  auto verdict = [&](char const* nm, auto const& get, bool full) {
    std::map<u64, cld> got;
    for(u64 k = 0; k < d; ++k) {
      S a = get(full ? list[k] : k);
      if(a != S(0)) got[list[k]] = to_cld(a);
    }
    auto x = diff(want, got, 1e-13L);
    c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return std::string(nm) + ": " + x; });
    c.ev("actions");
  };
  using EV = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  c.phase("view -> view");
  {
    std::vector<S> dst(d + 2, S(7));
    auto sv = mc(src);
    auto dv = mv(dst);
    std::fill(dst.begin(), dst.begin() + long(d), S(7));
    op(sv, dv);
    std::vector<S> head(dst.begin(), dst.begin() + long(d));
    verdict("named views", [&](u64 k) { return dst[k]; }, false);
    c.check(dst[d] == S(0) || dst[d] == S(7), "WROTE-OUTSIDE");
    std::vector<S> d2(d, S(7));
    op(mv(src), mv(d2));
    verdict("temporary views", [&](u64 k) { return d2[k]; }, false);
  }
  c.phase("view -> full vector");
  {
    std::vector<S> dst(s.hs->vec_size(), S(7));
    op(mc(src), dst);
    verdict("view -> full vector", [&](u64 k) { return dst[k]; }, true);
    std::map<u64, cld> got;
    for(auto const& q : collect_raw(dst)) if(!in.count(q.first)) got.insert(q);
    c.check(got.empty(), "LEFT-THE-SECTOR");
  }
  c.phase("full vector -> view");
  {
    std::vector<S> full(s.hs->vec_size(), S(0)), dst(d, S(7));
    for(u64 k = 0; k < d; ++k) full[list[k]] = src[k];
    op(full, mv(dst));
    verdict("full vector -> view", [&](u64 k) { return dst[k]; }, false);
  }
  c.phase("map -> segment");
  {
    EV dst = EV::Constant(int(d) + 4, S(7));
    Eigen::Map<EV> m(src.data(), int(d));
    op(mc(m), mv(dst.segment(2, int(d))));
    verdict("map -> segment", [&](u64 k) { return dst(int(k) + 2); }, false);
    c.check(dst(0) == S(7) && dst(1) == S(7) && dst(int(d) + 2) == S(7) && dst(int(d) + 3) == S(7), "WROTE-OUTSIDE");
  }
  c.phase("owning views");
  {
    auto sv = mc(std::vector<S>(src));
    auto dv = mv(std::vector<S>(d, S(7)));
    op(sv, dv);
    verdict("owning views", [&](u64 k) { return dv.state_vector[k]; }, false);
  }
  c.check(src == keep, "SOURCE-CHANGED");
  c.ev("amplitudes", want.size());
  if(!want.empty()) c.nontrivial(c.in + std::to_string(r.s));
}
} // namespace nfs
