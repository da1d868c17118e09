// C16: basis mappers and mapped views.
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "ops.hpp"
using namespace ops;
using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;

namespace {
using map_t = std::unordered_map<lc::sv_index_type, lc::sv_index_type>;

// The map numbers exactly the given states 0..n-1; inverse_map() inverts it
bool check_map(mon::Case& c, lc::basis_mapper const& m, std::set<u64> const& want, char const* nm) {
  auto const& mp = m.map();
  std::set<u64> keys, vals;
  for(auto const& p : mp) { keys.insert(p.first); vals.insert(p.second); }
  bool ok = c.check(keys == want && mp.size() == keys.size(), "MAPPED-STATES", [&] {
    return std::string(nm) + ": mapped " + mon::vstr(keys) + " expected " + mon::vstr(want);
  });
  ok = c.check(vals.size() == mp.size() && (vals.empty() || (*vals.begin() == 0 && *vals.rbegin() + 1 == vals.size())),
               "NUMBERING", [&] { return std::string(nm) + ": " + mon::vstr(vals); }) && ok;
  ok = c.check(m.size() == mp.size(), "SIZE") && ok;
  auto inv = m.inverse_map();
  bool iok = inv.size() == mp.size();
  for(auto const& p : mp) iok = iok && inv.count(p.second) && inv.at(p.second) == p.first;
  ok = c.check(iok, "INVERSE-MAP", [&] { return std::string(nm); }) && ok;
  c.ev("mapped states", mp.size());
  return ok;
}

// Views of all kinds over a vector of the right size (+ guards)
template <typename S> void check_views(mon::Case& c, lc::basis_mapper const& m, std::vector<u64> const& absent) {
  auto& r = c.r;
  u64 n = m.size();
  std::vector<S> ref(n), st;
  for(auto& x : ref) x = r.coin(0.7) ? wide_amp<S>(r) : S(0);
  st = ref;
  st.resize(n + 3, S(1234));
  auto v = m.make_view(st);
  auto cv = m.make_const_view(st);
  auto ov = m.make_view(std::vector<S>(ref));
  auto ocv = m.make_const_view(std::vector<S>(ref));
  auto trav = [&](auto const& view, std::vector<S> const& want_, char const* nm) {
    std::map<u64, S> seen, want;
    std::size_t cnt = 0;
    foreach(view, [&](u64 s, S const& a) { ++cnt; seen[s] = a; });
    for(auto const& p : m.map()) if(want_[p.second] != S(0)) want[p.first] = want_[p.second];
    c.check(seen == want && cnt == seen.size(), "TRAVERSAL", [&] { return std::string(nm); });
    for(auto const& p : m.map())
      if(get_element(view, p.first) != want_[p.second]) { c.fail("GET-ELEMENT", nm); break; }
    for(u64 a : absent) {
      bool thrown = false;
      try { get_element(view, a); } catch(std::out_of_range const&) { thrown = true; }
      if(!thrown) { c.fail("UNMAPPED-READ", std::string(nm) + " state " + std::to_string(a)); break; }
    }
    c.ev("traversals");
  };
  trav(v, ref, "view");
  trav(cv, ref, "const view");
  trav(ov, ref, "owning view");
  trav(ocv, ref, "owning const view");
  // nested / interrupted
  struct stop {};
  u64 k = 0;
  foreach(cv, [&](u64, S const&) {
    if(k++ == 1) {
      trav(cv, ref, "nested");
      try { foreach(cv, [&](u64, S const&) { throw stop{}; }); } catch(stop const&) {}
    }
  });
  c.check(k == u64(std::count_if(ref.begin(), ref.end(), [](S const& x) { return x != S(0); })), "NESTED-TRAVERSAL");
  auto ov2 = ov;
  auto v2 = v;
  auto ref1 = ref, ref2 = ref;
  std::vector<u64> keys;
  for(auto const& p : m.map()) keys.push_back(p.first);
  std::sort(keys.begin(), keys.end());
  for(int i = 0; i < 10 && n; ++i) {
    u64 s = r.pick(keys);
    S x = wide_amp<S>(r);
    if(r.coin()) { update_add_element(r.coin() ? v : v2, s, x); ref1[m.map().at(s)] += x; }
    else { update_add_element(ov2, s, x); ref2[m.map().at(s)] += x; }
  }
  for(u64 a : absent) {
    bool thrown = false;
    try { update_add_element(v, a, S(5)); } catch(std::out_of_range const&) { thrown = true; }
    c.check(thrown, "UNMAPPED-WRITE", [&] { return std::to_string(a); });
  }
  trav(v, ref1, "modified view");
  trav(cv, ref1, "const view of modified storage");
  trav(ov, ref, "owning view whose copy was modified");
  trav(ov2, ref2, "modified copy of the owning view");
  bool ok = true;
  for(u64 i = 0; i < st.size(); ++i) ok = ok && st[i] == (i < n ? ref1[i] : S(1234));
  c.check(ok, "WROTE-OUTSIDE");
  set_zeros(ov2);
  trav(ov2, std::vector<S>(n, S(0)), "zeroed view");
  trav(ov, ref, "owning view");
  using EV = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  EV e = EV::Constant(int(n) + 4, S(1234));
  for(u64 i = 0; i < n; ++i) e(int(i) + 2) = ref[i];
  trav(m.make_const_view(e.segment(2, int(n))), ref, "segment");
  auto ev = m.make_view(e.segment(2, int(n)));
  trav(ev, ref, "segment");
  lc::sparse_state_vector<S> sp(n);
  for(u64 i = 0; i < n; ++i) if(ref[i] != S(0)) sp[i] = ref[i];
  trav(m.make_view(sp), ref, "sparse storage");
}

std::vector<u64> absent_of(mon::rng& r, std::set<u64> const& in, u64 lim) {
  std::vector<u64> v;
  for(int i = 0; i < 4; ++i) {
    u64 s = r.coin() ? r.next() % lim : u64(r.below(20));
    if(!in.count(s)) v.push_back(s);
  }
  return v;
}
} // namespace

MON_SECTION("list", 3000, 40000) {
  auto& r = c.r;
  int n = r.coin(0.1) ? 0 : r.range(1, 60);
  u64 lim = r.coin() ? 64 : (u64(1) << r.range(7, 63));
  std::vector<u64> list;
  std::set<u64> s;
  for(int i = 0; i < n; ++i) {
    u64 x = r.next() % lim;
    if(s.insert(x).second) list.push_back(x);
  }
  if(r.coin(0.3)) std::sort(list.begin(), list.end());
  c.input(mon::vstr(list));
  lc::basis_mapper m(list);
  bool ok = check_map(c, m, s, "list");
  for(u64 i = 0; i < list.size(); ++i) ok = ok && m.map().count(list[i]) && m.map().at(list[i]) == i;
  if(!c.check(ok, "LIST-POSITIONS", [&] { return mon::vstr(list); })) return;
  if(n) { // states listed more than once are mapped once
    auto rep = list;
    for(int i = 0, k = r.range(1, 6); i < k; ++i) rep.insert(rep.begin() + r.below(int(rep.size()) + 1), r.pick(list));
    check_map(c, lc::basis_mapper(rep), s, "list with repetitions");
    c.ev("lists with repetitions");
  }
  auto copy = m;
  check_map(c, copy, s, "copy");
  auto ab = absent_of(r, s, lim);
  if(r.coin(0.7)) check_views<double>(c, m, ab);
  else check_views<std::complex<double>>(c, copy, ab);
  auto moved = std::move(copy);
  check_map(c, moved, s, "moved");
  std::vector<u64> other{1, 5};
  lc::basis_mapper q(other);
  q = m;
  check_map(c, q, s, "assigned");
  if(n) c.nontrivial(c.in);
}

namespace {
// States with non-vanishing amplitude; uncertain: cancellation undecidable
std::set<u64> support(AVec const& v, bool exact, bool& uncertain) {
  std::set<u64> s;
  for(auto const& p : v) {
    ld a = std::abs(p.second.v);
    if(!exact && p.second.scale > 0 && a < 1e-9L * std::max<ld>(1, p.second.scale)) uncertain = true;
    if(a != 0) s.insert(p.first);
  }
  return s;
}

template <typename S> void vacuum(mon::Case& c, bool exact, bool list) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 7;
  g.max_bits = r.coin() ? 9 : 20;
  g.max_boson = 9;
  if(exact) { g.boson = false; g.max_mult = 2; }
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto bias = [&](lc::expression<S, int> e) {
    // favour raising operators, so that the results do not vanish
    int n = r.range(0, 3);
    for(int i = 0; i < n; ++i) {
      int m = r.pick(modes);
      Word w{{m, s.u.model.modes[m].alg == ref::SPIN ? 0 : 1}};
      if(r.coin(0.3)) { int q = r.pick(modes); w.push_back({q, s.u.model.modes[q].alg == ref::SPIN ? 0 : 1}); }
      e += lc::expression<S, int>(random_amp<S>(r), s.u.mono(w));
    }
    return e;
  };
  std::set<u64> want;
  bool unc = false;
  std::string in = s.layout();
  AVec vac{{0, Amp{1, 1}}};
  if(!list) {
    auto e = bias(random_expr<S>(r, s.u, 4, 4, modes));
    c.input(in + " O " + mon::str(e));
    want = support(s.act(s.u.read(e), vac), exact, unc);
    if(unc) throw mon::skip_case{};
    lc::basis_mapper m(make_loperator(e, *s.hs), *s.hs);
    if(check_map(c, m, want, "operator")) check_views<double>(c, m, absent_of(r, want, s.hs->vec_size()));
  } else {
    int M = r.range(1, 4);
    unsigned N = unsigned(r.range(0, 4));
    std::vector<lc::loperator<S, lc::fermion, lc::boson, lc::spin>> O;
    std::vector<Poly> P;
    for(int i = 0; i < M; ++i) {
      lc::expression<S, int> e = r.coin(0.5) ? lc::expression<S, int>() : random_expr<S>(r, s.u, 2, 3, modes);
      e = bias(e);
      O.push_back(make_loperator(e, *s.hs));
      P.push_back(s.u.read(e));
      in += " O" + std::to_string(i + 1) + "=" + mon::str(e);
    }
    c.input(in + " N=" + std::to_string(N));
    // all compositions n_1 + .. + n_M = N
    std::function<void(int, unsigned, AVec const&)> go = [&](int m, unsigned left, AVec const& v) {
      if(m < 0) {
        if(left == 0) for(u64 x : support(v, exact, unc)) want.insert(x);
        return;
      }
      AVec w = v;
      for(unsigned k = 0;; ++k) {
        go(m - 1, left - k, w);
        if(k == left) break;
        w = s.act(P[std::size_t(m)], w);
        AVec q;
        bool u2 = false;
        for(u64 x : support(w, exact, u2)) q.insert({x, w.at(x)});
        unc = unc || u2;
        w = q;
      }
    };
    go(M - 1, N, vac);
    if(unc) throw mon::skip_case{};
    lc::basis_mapper m(O, *s.hs, N);
    if(check_map(c, m, want, "compositions")) check_views<double>(c, m, absent_of(r, want, s.hs->vec_size()));
  }
  if(!want.empty()) c.nontrivial(c.in);
}
} // namespace
MON_SECTION("operator", 1500, 20000) { vacuum<double>(c, false, false); }
MON_SECTION("operator-exact", 1500, 20000) { vacuum<std::complex<double>>(c, true, false); }
MON_SECTION("compositions", 2500, 30000) { vacuum<double>(c, false, true); }
MON_SECTION("compositions-exact", 2500, 30000) { vacuum<double>(c, true, true); }

// The documented use: fixed particle number subspaces
MON_SECTION("particle-number", 600, 6000) {
  auto& r = c.r;
  bool bos = r.coin();
  int M = bos ? r.range(1, 5) : r.range(1, 10);
  unsigned N = unsigned(r.range(0, bos ? 5 : M + 1));
  Sys<int> s;
  std::vector<u64> bd;
  for(int i = 0; i < M; ++i) { s.u.add({bos ? ref::BOSON : ref::FERMION, 2}, {2 * i - 3}); bd.push_back(bos ? u64(r.range(1, 8)) : 0); }
  s.build(r, bd);
  c.input(s.layout() + " N=" + std::to_string(N));
  std::vector<lc::loperator<double, lc::fermion, lc::boson, lc::spin>> O;
  for(int i = 0; i < M; ++i)
    O.push_back(make_loperator(lc::expression<double, int>(random_amp<double>(r), s.u.mono({{i, 1}})), *s.hs));
  r.shuffle(O);
  lc::basis_mapper m(O, *s.hs, N);
  std::set<u64> want;
  for(u64 x : s.L.states()) {
    u64 n = 0;
    for(int i = 0; i < M; ++i) n += s.occ(x, i);
    if(n == N) want.insert(x);
  }
  check_map(c, m, want, "fixed particle number");
  c.nontrivial(c.in);
}

// Operators acting through views of an invariant subspace
namespace {
template <typename S> void invariant(mon::Case& c) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 8;
  g.max_bits = r.coin(0.7) ? 9 : 40;
  g.max_boson = g.max_bits > 9 ? 5000 : 9;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<S>(r, s.u, 3, 4, modes);
  c.input(s.layout() + " op " + mon::str(e));
  Poly p = s.u.read(e);
  auto op = make_loperator(e, *s.hs);
  std::set<u64> sub;
  std::vector<u64> todo;
  for(int i = r.range(1, 3); i > 0; --i) todo.push_back(s.random_state(r));
  while(!todo.empty()) {
    u64 x = todo.back();
    todo.pop_back();
    if(!sub.insert(x).second) continue;
    if(sub.size() > 600) throw mon::skip_case{};
    for(auto const& t : p.t) {
      u64 y = x;
      ld a = 1;
      if(s.act(t.second, y, a)) todo.push_back(y);
    }
  }
  std::vector<u64> list(sub.begin(), sub.end());
  r.shuffle(list);
  lc::basis_mapper m(list);
  std::vector<S> src(list.size()), dst(list.size() + 2, S(77));
  AVec in;
  for(u64 i = 0; i < list.size(); ++i)
    if(r.coin(0.7)) { src[i] = wide_amp<S>(r); in[list[i]] = Amp{to_cld(src[i]), std::abs(to_cld(src[i]))}; }
  auto keep = src;
  AVec want = s.act(p, in);
  auto verdict = [&](char const* nm, auto const& get) {
    std::map<u64, cld> got;
    for(u64 i = 0; i < list.size(); ++i) if(get(i) != S(0)) got[list[i]] = to_cld(S(get(i)));
    auto x = diff(want, got, 1e-13L);
    c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return std::string(nm) + ": " + x; });
    c.ev("actions");
  };
  op(m.make_const_view(src), m.make_view(dst));
  // set_zeros() concerns the whole underlying vector
  verdict("view -> view", [&](u64 i) { return dst[i]; });
  {
    auto a = m.make_view(src);
    auto b = m.make_view(dst);
    for(auto& x : dst) x = S(3);
    op(a, b);
    verdict("named views", [&](u64 i) { return dst[i]; });
  }
  if(s.total_bits <= 12) {
    std::vector<S> full(s.hs->vec_size(), S(5)), back(list.size(), S(5));
    op(m.make_const_view(src), full);
    verdict("view -> full vector", [&](u64 i) { return full[list[i]]; });
    std::vector<S> fin(s.hs->vec_size(), S(0));
    for(u64 i = 0; i < list.size(); ++i) fin[list[i]] = src[i];
    op(fin, m.make_view(back));
    verdict("full vector -> view", [&](u64 i) { return back[i]; });
  } else {
    lc::sparse_state_vector<S> full(s.hs->vec_size());
    op(m.make_const_view(src), full);
    std::map<u64, cld> got = collect(full);
    AVec w2;
    for(auto const& q : want) if(got.count(q.first) || std::abs(q.second.v) > 3e-14L + 1e-13L * q.second.scale) w2.insert(q);
    auto x = diff(w2, got, 1e-13L);
    c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return "view -> sparse: " + x; });
  }
  c.check(src == keep, "SOURCE-CHANGED");
  // Leaving the subspace is reported, not written anywhere
  if(list.size() > 1 && !want.empty()) {
    std::vector<u64> part(list.begin(), list.end() - 1);
    u64 lost = list.back();
    lc::basis_mapper pm(part);
    bool leaves = false;
    for(auto const& q : in)
      for(auto const& t : p.t) {
        u64 y = q.first;
        ld a = 1;
        if(q.first != lost && s.act(t.second, y, a) && y == lost) leaves = true;
      }
    std::vector<S> d2(part.size() + 2, S(0));
    std::vector<S> s2(src.begin(), src.end() - 1);
    bool thrown = false;
    try { op(pm.make_const_view(s2), pm.make_view(d2)); } catch(std::out_of_range const&) { thrown = true; }
    c.check(thrown == leaves, "LEAVING-SUBSPACE", [&] { return "thrown " + std::to_string(thrown); });
    c.check(d2[part.size()] == S(0) && d2[part.size() + 1] == S(0), "WROTE-OUTSIDE");
    if(leaves) c.ev("rejected actions");
  }
  if(!want.empty()) c.nontrivial(c.in);
}
} // namespace
MON_SECTION("invariant-subspace", 3000, 40000) {
  if(c.r.coin(0.7)) invariant<double>(c);
  else invariant<std::complex<double>>(c);
}

// Invariant subspaces as found by a partition: terms of the operator may leave
// the subspace as long as their contributions cancel
MON_SECTION("cancelling-terms", 1500, 15000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 6;
  g.max_bits = 8;
  g.boson = false;
  g.max_mult = 2;
  g.user = false;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<double>(r, s.u, 2, 3, modes);
  // blocked by the state of a few modes: 1 - n or 1/2 -+ S_z
  for(int k = r.range(1, 2); k > 0; --k) {
    int m = r.pick(modes);
    if(s.u.model.modes[m].alg == ref::FERMION) {
      lc::expression<double, int> n(1., s.u.mono({{m, 1}, {m, 0}}));
      e = r.coin() ? e * (1. - n) : (1. - n) * e;
    } else {
      lc::expression<double, int> z(r.coin() ? 1. : -1., s.u.mono({{m, 2}}));
      e = e * (0.5 - z);
    }
  }
  c.input(s.layout() + " op " + mon::str(e));
  Poly p = s.u.read(e);
  auto op = make_loperator(e, *s.hs);
  auto states = s.L.states();
  std::map<u64, AVec> rows;
  for(u64 f : states) rows[f] = s.act(p, AVec{{f, Amp{1, 1}}});
  // closed under the operator
  std::set<u64> sub;
  std::vector<u64> todo{r.pick(states)};
  while(!todo.empty()) {
    u64 x = todo.back();
    todo.pop_back();
    if(!sub.insert(x).second) continue;
    for(auto const& q : rows[x]) if(std::abs(q.second.v) > 1e-9L) todo.push_back(q.first);
  }
  std::vector<u64> list(sub.begin(), sub.end());
  r.shuffle(list);
  std::vector<double> src(list.size()), dst(list.size(), 7);
  AVec in;
  bool leaves = false;
  for(u64 i = 0; i < list.size(); ++i) {
    src[i] = r.range(-2, 3);
    if(src[i] == 0) continue;
    in[list[i]] = Amp{cld(src[i]), std::abs(cld(src[i]))};
    for(auto const& t : p.t) {
      u64 y = list[i];
      ld a = 1;
      if(s.act(t.second, y, a) && !sub.count(y)) leaves = true;
    }
  }
  lc::basis_mapper m(list);
  try {
    op(m.make_const_view(src), m.make_view(dst));
  } catch(std::out_of_range const& x) {
    // The library writes the contribution of each term separately
    c.fail(leaves ? "TERM-LEAVES-SUBSPACE" : "REJECTED", x.what());
    if(leaves) c.nontrivial(c.in);
    return;
  }
  std::map<u64, cld> got;
  for(u64 i = 0; i < list.size(); ++i) if(dst[i] != 0) got[list[i]] = dst[i];
  auto x = diff(s.act(p, in), got, 1e-13L);
  c.check(x.empty(), "VIEW-AMPLITUDES", [&] { return x; });
  c.ev("actions");
  if(!got.empty()) c.nontrivial(c.in);
}
