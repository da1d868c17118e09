// C15: compressed state views.
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "ops.hpp"
using namespace ops;
using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;

namespace {
using hsm::Entry;
using hsm::Layout;

u64 rank_of(Layout const& L, u64 s) {
  u64 r = 0, stride = 1;
  for(auto const& p : L.m) {
    int b = p.second.bits();
    u64 v = b ? s & ((u64(1) << b) - 1) : 0;
    r += v * stride;
    stride *= p.second.dim;
    s = b ? s >> b : s;
  }
  return r;
}

// Random set of elementary spaces with at most max_bits bits and max_dim states
template <typename... I>
std::vector<Entry> random_entries(mon::rng& r, int n_idx, int max_n, int max_bits, u64 max_states, u64 max_es, Layout& L) {
  std::vector<Entry> es;
  int style = r.below(4); // mostly powers of two, mostly not, mixed, dimension 1 often
  int n = r.range(1, max_n);
  u64 d = 1;
  for(int i = 0; i < n; ++i) {
    Entry e = hsm::random_entry(r, n_idx, max_es);
    if(e.alg == -2 || e.alg >= 0) {
      if(style == 0) e.dim = u64(1) << r.below(1 + int(std::log2(double(std::min<u64>(max_es, 64)))));
      else if(style == 1) e.dim = u64(r.range(3, 7));
      else if(style == 3 && r.coin()) e.dim = 1;
      else if(max_es > 1000 && r.coin()) e.dim = 1 + r.next() % max_es;
    }
    if(L.m.count(e.key()) || L.bits() + e.bits() > max_bits || d > max_states / e.dim) continue;
    d *= e.dim;
    L.m.emplace(e.key(), e);
    es.push_back(e);
  }
  if(es.empty()) throw mon::skip_case{};
  r.shuffle(es);
  return es;
}

struct stop {};

template <typename View> bool traverse(mon::Case& c, View const& v, Layout const& L, std::vector<double> const& ref,
                                       std::string const& nm) {
  std::vector<std::pair<u64, double>> seen, want;
  foreach(v, [&](u64 s, double a) { seen.emplace_back(s, a); });
  for(u64 k = 0; k < ref.size(); ++k)
    if(ref[k] != 0) want.emplace_back(L.nth(k), ref[k]);
  c.ev("visited", seen.size());
  return c.check(seen == want, "TRAVERSAL", [&] {
    std::string o = nm + " " + L.str() + " visited:";
    for(auto const& q : seen) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
    o += " expected:";
    for(auto const& q : want) o += " " + std::to_string(q.first) + ":" + mon::str(q.second);
    return o;
  });
}

template <typename... I> void index_case(mon::Case& c) {
  auto& r = c.r;
  hsm::Space<I...> sp;
  sp.pool = hsm::pools<I...>::get();
  Layout L;
  auto es = random_entries<I...>(r, 6, r.coin() ? 4 : 9, 14, 1500, 40, L);
  c.input(L.str());
  u64 d = L.dim();
  std::vector<double> ref(d);
  for(auto& x : ref) x = r.coin(0.75) ? double(r.range(-50, 50)) : 0.;
  auto hs = std::make_unique<lc::hilbert_space<I...>>(sp.build(es));
  c.check(get_dim(*hs) == d, "DIM");
  // storage with guards behind the vector
  std::vector<double> st(ref);
  st.resize(d + 5, 999);
  auto v = lc::make_comp_state_view(st, *hs);
  auto cv = lc::make_const_comp_state_view(st, *hs);
  auto ov = lc::make_comp_state_view(std::vector<double>(ref), *hs);        // owns its data
  auto ocv = lc::make_const_comp_state_view(std::vector<double>(ref), *hs);
  if(r.coin()) hs.reset(); // views do not depend on the space any more
  c.phase("map_index");
  std::vector<char> hit(d, 0);
  bool ok = true;
  for(u64 k = 0; k < d && ok; ++k) {
    u64 s = L.nth(k);
    u64 m = v.map_index(s);
    ok = m == k && cv.map_index(s) == k && ov.map_index(s) == k && ocv.map_index(s) == k;
    if(!ok) c.fail("MAP-INDEX", L.str() + " state " + std::to_string(s) + " maps to " + std::to_string(m) + " instead of " + std::to_string(k));
    else if(get_element(v, s) != ref[k] || get_element(cv, s) != ref[k] || get_element(ov, s) != ref[k] || get_element(ocv, s) != ref[k])
      { ok = false; c.fail("GET-ELEMENT", L.str() + " state " + std::to_string(s)); }
  }
  c.ev("indices", d);
  if(!ok) return;
  c.phase("traversal");
  traverse(c, v, L, ref, "view");
  traverse(c, cv, L, ref, "const view");
  traverse(c, ov, L, ref, "owning view");
  traverse(c, ocv, L, ref, "const owning view");
  // interrupted and nested
  c.phase("interrupted traversal");
  u64 lim = r.next() % (d + 1), cnt = 0;
  try { foreach(cv, [&](u64, double) { if(cnt++ == lim) throw stop{}; }); } catch(stop const&) {}
  traverse(c, cv, L, ref, "after an interrupted traversal");
  c.phase("nested traversal");
  u64 at = r.next() % d;
  cnt = 0;
  std::vector<u64> outer;
  foreach(v, [&](u64 s, double) {
    outer.push_back(s);
    if(cnt++ == at) {
      traverse(c, v, L, ref, "nested");
      u64 k = 0;
      try { foreach(v, [&](u64, double) { if(k++ == 2) throw stop{}; }); } catch(stop const&) {}
    }
  });
  std::vector<u64> want;
  for(u64 k = 0; k < d; ++k) if(ref[k] != 0) want.push_back(L.nth(k));
  c.check(outer == want, "NESTED-TRAVERSAL", [&] { return L.str(); });
  // copies
  c.phase("copies");
  auto v2 = v;
  auto ov2 = ov;
  auto ov3 = std::move(ov2);
  u64 k0 = r.next() % d, s0 = L.nth(k0);
  update_add_element(v2, s0, 3.5); // the same storage
  update_add_element(ov3, s0, -2.); // its own copy
  auto ref1 = ref, ref2 = ref;
  ref1[k0] += 3.5;
  ref2[k0] -= 2;
  traverse(c, v, L, ref1, "shared storage through a copy");
  traverse(c, v2, L, ref1, "copied view");
  traverse(c, cv, L, ref1, "const view of the modified storage");
  traverse(c, ov, L, ref, "owning view whose copy was modified");
  traverse(c, ov3, L, ref2, "modified copy of an owning view");
  for(int i = 0; i < 20; ++i) {
    u64 k = r.next() % d;
    double x = r.range(-4, 4);
    update_add_element(v, L.nth(k), x);
    ref1[k] += x;
  }
  ok = true;
  for(u64 k = 0; k < d; ++k) ok = ok && st[k] == ref1[k];
  for(u64 k = d; k < st.size(); ++k) ok = ok && st[k] == 999;
  c.check(ok, "UPDATE-ELEMENT", [&] { return L.str(); });
  set_zeros(ov);
  traverse(c, ov, L, std::vector<double>(d, 0), "zeroed view");
  if(d > 1) c.nontrivial(c.in + std::to_string(r.s));
}
} // namespace

MON_SECTION("index", 3000, 40000) {
  switch(c.r.below(3)) {
  case 0: index_case<int>(c); break;
  case 1: index_case<std::string, int>(c); break;
  default: index_case<libcommute::dynamic_indices::dyn_indices>(c);
  }
}

// Large spaces: sampled indices over sparse storage
MON_SECTION("huge", 3000, 40000) {
  auto& r = c.r;
  hsm::Space<int> sp;
  sp.pool = hsm::pools<int>::get();
  Layout L;
  auto es = random_entries<int>(r, 30, 40, 63, (~u64(0)) >> 1, u64(1) << r.range(2, 40), L);
  c.input(L.str());
  auto hs = sp.build(es);
  u64 d = L.dim();
  lc::sparse_state_vector<double> st(d);
  auto v = lc::make_comp_state_view(st, hs);
  c.phase("map_index");
  std::set<u64> keys;
  std::map<u64, double> want;
  for(int i = 0; i < 60; ++i) {
    u64 k;
    switch(r.below(4)) {
    case 0: k = d - 1 - std::min<u64>(d - 1, u64(r.below(20))); break;
    case 1: k = std::min<u64>(d - 1, u64(r.below(20))); break;
    default: k = r.next() % d;
    }
    u64 s = L.nth(k);
    if(rank_of(L, s) != k) throw std::logic_error("reference");
    u64 m = v.map_index(s);
    if(!c.check(m == k, "MAP-INDEX", [&] { return "state " + std::to_string(s) + " maps to " + std::to_string(m) + " instead of " + std::to_string(k); })) return;
    double x = r.range(1, 9);
    update_add_element(v, s, x);
    want[k] += x;
  }
  std::map<u64, double> got;
  foreach(st, [&](u64 k, double x) { got[k] = x; });
  c.check(got == want, "UPDATE-ELEMENT");
  // physical states only, in order, for the first visits of a traversal
  std::vector<double> small;
  c.ev("indices", 60);
  c.nontrivial(c.in);
}

// The start of a traversal of a large space with dense (lazily generated) data
namespace {
struct Gen { // a read-only state vector: amplitude k+1 at index k
  u64 n;
};
inline double get_element(Gen const&, u64 n) { return double(n + 1); }
} // namespace
namespace libcommute {
template <> struct element_type<Gen> { using type = double; };
} // namespace libcommute
MON_SECTION("huge-traversal", 1500, 20000) {
  auto& r = c.r;
  hsm::Space<int> sp;
  sp.pool = hsm::pools<int>::get();
  Layout L;
  auto es = random_entries<int>(r, 30, 30, 63, (~u64(0)) >> 1, u64(1) << r.range(2, 30), L);
  c.input(L.str());
  auto hs = sp.build(es);
  u64 d = L.dim(), lim = std::min<u64>(d, 20000), k = 0;
  Gen g{d};
  lc::compressed_state_view<Gen const> v(g, hs);
  bool ok = true;
  std::string why;
  try {
    foreach(v, [&](u64 s, double a) {
      if(s != L.nth(k) || a != double(k + 1)) {
        ok = false;
        why = "visit " + std::to_string(k) + ": state " + std::to_string(s) + " expected " + std::to_string(L.nth(k));
        throw stop{};
      }
      if(++k == lim && lim < d) throw stop{};
    });
  } catch(stop const&) {}
  c.check(ok && k == lim, "TRAVERSAL", [&] { return why + " visits " + std::to_string(k) + " of " + std::to_string(d); });
  c.ev("visited", k);
  c.nontrivial(c.in);
}

// Actions through views
namespace {
template <typename S> void action(mon::Case& c) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = r.coin() ? 4 : 7;
  g.max_bits = 11;
  g.max_mult = 7;
  g.max_boson = 12;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<S>(r, s.u, 4, 4, modes);
  c.input(s.layout() + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  u64 d = s.L.dim();
  std::map<u64, S> in;
  int nst = r.coin(0.3) ? int(std::min<u64>(d, 200)) : r.range(1, 12);
  for(int i = 0; i < nst; ++i) in[s.random_state(r)] = wide_amp<S>(r);
  AVec ain;
  for(auto const& q : in) ain[q.first] = Amp{to_cld(q.second), std::abs(to_cld(q.second))};
  AVec want = s.act(s.u.read(e), ain);
  std::vector<S> src(d, S(0));
  for(auto const& q : in) src[rank_of(s.L, q.first)] = q.second;
  auto keep = src;
  auto verdict = [&](char const* nm, auto const& get, bool full) {
    std::map<u64, cld> got;
    for(u64 k = 0; k < d; ++k) {
      S a = get(full ? s.L.nth(k) : k);
      if(a != S(0)) got[s.L.nth(k)] = to_cld(a);
    }
    auto x = diff(want, got, 1e-13L);
    c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return std::string(nm) + ": " + x; });
    c.ev("actions");
  };
  using EV = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  auto sv = lc::make_const_comp_state_view(src, *s.hs);
  {
    std::vector<S> dst(d, S(7));
    op(sv, lc::make_comp_state_view(dst, *s.hs));
    verdict("view -> view", [&](u64 k) { return dst[k]; }, false);
    lc::compressed_state_view<std::vector<S>> nv(dst, *s.hs), nsv(src, *s.hs);
    op(nsv, nv);
    verdict("named views", [&](u64 k) { return dst[k]; }, false);
  }
  {
    std::vector<S> dst(s.hs->vec_size(), S(7));
    op(sv, dst);
    verdict("view -> full vector", [&](u64 k) { return dst[k]; }, true);
  }
  {
    std::vector<S> full(s.hs->vec_size(), S(0)), dst(d, S(7));
    for(auto const& q : in) full[q.first] = q.second;
    op(full, lc::make_comp_state_view(dst, *s.hs));
    verdict("full vector -> view", [&](u64 k) { return dst[k]; }, false);
  }
  {
    EV dst = EV::Constant(int(d) + 4, S(7));
    Eigen::Map<EV> m(src.data(), int(d));
    op(lc::make_const_comp_state_view(m, *s.hs), lc::make_comp_state_view(dst.segment(2, int(d)), *s.hs));
    verdict("map -> segment", [&](u64 k) { return dst(int(k) + 2); }, false);
    c.check(dst(0) == S(7) && dst(1) == S(7) && dst(int(d) + 2) == S(7) && dst(int(d) + 3) == S(7), "WROTE-OUTSIDE");
  }
  {
    lc::sparse_state_vector<S> sp(d), dst(d);
    for(u64 k = 0; k < d; ++k) if(src[k] != S(0)) sp[k] = src[k];
    dst[0] = S(3);
    op(lc::make_comp_state_view(sp, *s.hs), lc::make_comp_state_view(dst, *s.hs));
    std::map<u64, cld> got;
    foreach(dst, [&](u64 k, S const& a) { got[s.L.nth(k)] = to_cld(a); });
    AVec w2;
    for(auto const& q : want) if(got.count(q.first) || std::abs(q.second.v) > 3e-14L + 1e-13L * q.second.scale) w2.insert(q);
    auto x = diff(w2, got, 1e-13L);
    c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return "sparse storage: " + x; });
    c.check(sp.n_nonzeros() == in.size(), "SOURCE-CHANGED", [&] { return "sparse storage"; });
  }
  c.check(src == keep, "SOURCE-CHANGED");
  c.ev("amplitudes", want.size());
  if(!want.empty()) c.nontrivial(c.in);
}
} // namespace
MON_SECTION("action", 3000, 40000) {
  if(c.r.coin(0.7)) action<double>(c);
  else action<std::complex<double>>(c);
}
