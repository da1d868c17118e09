// C19: space partitions.
#include "part.hpp"
using namespace part;

namespace {
template <typename S> void one(mon::Case& c, int max_bits) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = r.coin() ? 4 : 7;
  g.max_bits = max_bits;
  g.max_mult = 5;
  g.max_boson = 7;
  auto s = random_sys(r, g);
  auto e = random_op<S>(r, s, 5);
  bool herm = r.coin(0.7);
  if(herm) e = hermitian(e);
  auto o = random_op<S>(r, s, 3);
  c.input(s.layout() + " H=" + mon::str(e) + " O=" + mon::str(o));
  auto states = s.L.states();
  auto hm = matrix(s, e, states), om = matrix(s, o, states);
  auto grp = components(states, hm);
  auto h = make_loperator(e, *s.hs), op = make_loperator(o, *s.hs);
  c.phase("partition");
  lc::space_partition<lc::hilbert_space<int>> sp(h, *s.hs);
  if(!verify(c, sp, grp, states, s.L.dim(), "constructor")) return;
  lc::matrix_elements_map<S> me, me2;
  c.phase("matrix elements");
  lc::space_partition<lc::hilbert_space<int>> sp2(h, *s.hs, me);
  auto x = compare_matrix(me, hm);
  c.check(x.empty(), "MATRIX-ELEMENTS", [&] { return x; });
  c.ev("matrix elements", me.size());
  if(!verify(c, sp2, grp, states, s.L.dim(), "constructor with matrix elements")) return;
  auto sp3 = lc::make_space_partition(h, *s.hs, me2);
  auto sp4 = lc::make_space_partition(h, *s.hs);
  c.check(me2 == me, "MATRIX-ELEMENTS", [&] { return "factory"; });
  verify(c, sp3, grp, states, s.L.dim(), "factory with matrix elements");
  // a map that holds elements already, e.g. those of another operator
  lc::matrix_elements_map<S> me4;
  for(auto const& q : me) if(r.coin()) me4[q.first] = q.second + S(r.range(1, 9));
  if(r.coin()) lc::space_partition<lc::hilbert_space<int>>(h, *s.hs, me4);
  else lc::make_space_partition(h, *s.hs, me4);
  c.check(me4 == me, "MATRIX-ELEMENTS-OF-REUSED-MAP");
  auto sp5(sp4);
  auto sp6(std::move(sp4));
  verify(c, sp5, grp, states, s.L.dim(), "copy");
  verify(c, sp6, grp, states, s.L.dim(), "moved");
  c.phase("connections");
  auto got = sp.find_connections(op);
  auto want = connections(sp, om);
  std::set<std::pair<u64, u64>> gs(got.begin(), got.end());
  c.check(gs == want, "CONNECTIONS", [&] {
    std::string t = "library:";
    for(auto const& q : gs) t += " " + std::to_string(q.first) + ">" + std::to_string(q.second);
    t += " expected:";
    for(auto const& q : want) t += " " + std::to_string(q.first) + ">" + std::to_string(q.second);
    return t;
  });
  c.ev("connections", gs.size());
  auto own = sp.find_connections(h);
  for(auto const& q : own) c.check(q.first == q.second, "OWN-CONNECTIONS", [&] { return std::to_string(q.first) + ">" + std::to_string(q.second); });
  verify(c, sp, grp, states, s.L.dim(), "after queries");
  u64 n = sp.n_subspaces();
  if(n > 1 && n < states.size()) c.nontrivial(c.in);
}
} // namespace

MON_SECTION("partition", 12000, 150000) {
  if(c.r.coin(0.7)) one<double>(c, 8);
  else one<std::complex<double>>(c, 8);
}
MON_SECTION("bigger", 500, 6000) {
  if(c.r.coin(0.7)) one<double>(c, 12);
  else one<std::complex<double>>(c, 12);
}

// Spaces given by the user as lists of basis states
MON_SECTION("user-space", 6000, 80000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 6;
  g.max_bits = 8;
  g.max_mult = 4;
  g.max_boson = 6;
  auto s = random_sys(r, g);
  auto e = hermitian(random_op<double>(r, s, 4));
  auto b = random_op<double>(r, s, 2);
  auto all = s.L.states();
  auto bm = matrix(s, b, all), hm = matrix(s, e, all);
  // some of the invariant subspaces of both
  auto grp = components(all, hm);
  for(auto const& q : bm) grp.unite(q.first.first, q.first.second);
  listed l;
  for(auto const& q : grp.all()) if(r.coin(0.6)) l.states.insert(l.states.end(), q.begin(), q.end());
  if(l.states.empty()) throw mon::skip_case{};
  r.shuffle(l.states); // any order
  l.size = s.hs->vec_size();
  if(r.coin()) l.size = *std::max_element(l.states.begin(), l.states.end()) + 1;
  c.input(s.layout() + " H=" + mon::str(e) + " states " + mon::vstr(l.states));
  std::set<u64> in(l.states.begin(), l.states.end());
  Mat h2, b2;
  for(auto const& q : hm) if(in.count(q.first.second)) h2.insert(q);
  for(auto const& q : bm) if(in.count(q.first.second)) b2.insert(q);
  auto want = components(l.states, h2);
  auto h = make_loperator(e, *s.hs), op = make_loperator(b, *s.hs);
  lc::matrix_elements_map<double> me;
  auto sp = lc::make_space_partition(h, l, me);
  auto x = compare_matrix(me, h2);
  c.check(x.empty(), "MATRIX-ELEMENTS", [&] { return x; });
  verify(c, sp, want, l.states, l.states.size(), "listed states");
  auto got = sp.find_connections(op);
  auto cw = connections(sp, b2);
  c.check(std::set<std::pair<u64, u64>>(got.begin(), got.end()) == cw, "CONNECTIONS");
  u64 n = sp.n_subspaces();
  if(n > 1 && n < l.states.size()) c.nontrivial(c.in);
}

// Long chains: nearest neighbour hopping, one big component, and many small ones
MON_SECTION("chains", 240, 2400) {
  auto& r = c.r;
  Sys<int> s;
  int style = r.below(3);
  std::vector<u64> bd;
  lc::expression<double, int> e;
  if(style == 0) { // boson ladder with a random step
    u64 d = u64(r.range(100, 3000));
    int step = r.range(1, 7);
    s.u.add({ref::BOSON, 2}, {3});
    bd = {d};
    s.build(r, bd);
    Word w;
    for(int i = 0; i < step; ++i) w.push_back({0, 1});
    e = lc::expression<double, int>(1e-3, s.u.mono(w)); // amplitudes grow with the occupation
    if(step > 2) throw mon::skip_case{};
  } else {
    int n = r.range(6, 11);
    for(int i = 0; i < n; ++i) { s.u.add({style == 1 ? ref::FERMION : ref::SPIN, 2}, {i}); bd.push_back(0); }
    s.build(r, bd);
    std::vector<int> p(n);
    for(int i = 0; i < n; ++i) p[i] = i;
    r.shuffle(p);
    for(int i = 0; i + 1 < n; ++i) {
      if(r.coin(0.15)) continue;
      Word w{{p[i], style == 1 ? 1 : 0}, {p[i + 1], style == 1 ? 0 : 1}};
      e += lc::expression<double, int>(double(r.range(1, 4)), s.u.mono(w));
    }
  }
  if(r.coin()) e = hermitian(e);
  c.input(s.layout() + " H=" + mon::str(e));
  auto states = s.L.states();
  Groups grp(states);
  Poly p = s.u.read(e);
  for(u64 f : states) {
    AVec in{{f, Amp{1, 1}}};
    for(auto const& q : s.act(p, in)) if(std::abs(q.second.v) > 1e-8L) grp.unite(f, q.first);
  }
  auto sp = lc::make_space_partition(make_loperator(e, *s.hs), *s.hs);
  verify(c, sp, grp, states, s.L.dim(), "chain");
  c.nontrivial(c.in);
}
