// C20: merging of invariant subspaces.
#include "part.hpp"
using namespace part;

namespace {
template <typename S> struct Pair {
  lc::expression<S, int> e, ed;
  Mat m, md;
};

template <typename S> void merge_case(mon::Case& c, int max_bits) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = r.coin() ? 4 : 8;
  g.max_bits = max_bits;
  g.max_mult = 5;
  g.max_boson = 7;
  auto s = random_sys(r, g);
  auto states = s.L.states();
  auto e = hermitian(random_op<S>(r, s, 3));
  if(r.coin(0.2)) { // many small subspaces
    e = lc::expression<S, int>();
    e += S(1);
  }
  std::vector<Pair<S>> ps(r.coin() ? 1 : r.range(2, 4));
  std::string desc = s.layout() + " H=" + mon::str(e);
  for(auto& p : ps) {
    p.e = random_op<S>(r, s, r.coin(0.7) ? 1 : 3);
    p.ed = conj(p.e);
    desc += " O=" + mon::str(p.e);
  }
  c.input(desc);
  auto hm = matrix(s, e, states);
  for(auto& p : ps) { p.m = matrix(s, p.e, states); p.md = matrix(s, p.ed, states); }
  auto h = make_loperator(e, *s.hs);
  auto grp0 = components(states, hm);
  auto grp = grp0;
  using HS = lc::hilbert_space<int>;
  auto sp = lc::make_space_partition(h, *s.hs);
  auto const original(sp);
  std::vector<Mat> all;
  std::vector<lc::loperator<S, lc::fermion, lc::boson, lc::spin>> ops, opds;
  u64 before = sp.n_subspaces();
  bool merged = false;
  for(size_t i = 0; i < ps.size(); ++i) {
    auto const& p = ps[i];
    ops.push_back(make_loperator(p.e, *s.hs));
    opds.push_back(make_loperator(p.ed, *s.hs));
    c.phase("merge");
    bool store = r.coin(0.7), swap = r.coin();
    auto me = swap ? sp.merge_subspaces(opds.back(), ops.back(), store) : sp.merge_subspaces(ops.back(), opds.back(), store);
    if(store) {
      auto x = compare_matrix(me.first, swap ? p.md : p.m), y = compare_matrix(me.second, swap ? p.m : p.md);
      c.check(x.empty() && y.empty(), "MATRIX-ELEMENTS", [&] { return x + " / " + y; });
      c.ev("matrix elements", me.first.size() + me.second.size());
    } else
      c.check(me.first.empty() && me.second.empty(), "UNWANTED-ELEMENTS");
    all.push_back(p.m);
    all.push_back(p.md);
    close(grp, all);
    if(!verify(c, sp, grp, states, s.L.dim(), "after merge " + std::to_string(i + 1))) return;
    for(size_t j = 0; j <= i; ++j) // one-to-one connections
      for(auto const* o : {&ops[j], &opds[j]}) {
        auto con = sp.find_connections(*o);
        std::map<u64, u64> f, b;
        for(auto const& q : con)
          if(!f.emplace(q.first, q.second).second || !b.emplace(q.second, q.first).second) {
            c.fail("NOT-ONE-TO-ONE", "pair " + std::to_string(j + 1) + " after " + std::to_string(i + 1) + " merges, connection " +
                                         std::to_string(q.first) + ">" + std::to_string(q.second));
            return;
          }
        c.ev("connections", con.size());
      }
  }
  merged = sp.n_subspaces() < before;
  c.ev("merges", before - sp.n_subspaces());
  // again: nothing changes
  c.phase("merge again");
  std::vector<u64> num;
  for(u64 x : states) num.push_back(sp[x]);
  for(int k = r.range(1, 3); k > 0; --k) {
    int i = r.below(int(ps.size()));
    sp.merge_subspaces(ops[i], opds[i], r.coin());
  }
  if(!verify(c, sp, grp, states, s.L.dim(), "merged again")) return;
  std::vector<u64> num2;
  for(u64 x : states) num2.push_back(sp[x]);
  c.check(num == num2, "RENUMBERED");
  // another order gives the same partition
  c.phase("other order");
  auto sp2 = lc::make_space_partition(h, *s.hs);
  std::vector<int> ord;
  for(int i = 0; i < int(ps.size()); ++i) ord.push_back(i);
  r.shuffle(ord);
  for(int i : ord) r.coin() ? sp2.merge_subspaces(ops[i], opds[i], false) : sp2.merge_subspaces(opds[i], ops[i], false);
  verify(c, sp2, grp, states, s.L.dim(), "another order");
  // a copy made before merging is not affected
  verify(c, original, grp0, states, s.L.dim(), "copy of the original partition");
  // a copy made earlier can be merged on its own
  auto sp3(original);
  std::vector<Mat> first{ps[0].m, ps[0].md};
  auto g3 = grp0;
  close(g3, first);
  sp3.merge_subspaces(ops[0], opds[0]);
  verify(c, sp3, g3, states, s.L.dim(), "merged copy");
  verify(c, sp, grp, states, s.L.dim(), "unaffected by the copy");
  if(merged) c.nontrivial(c.in);
}
} // namespace

MON_SECTION("merge", 8000, 100000) {
  if(c.r.coin(0.7)) merge_case<double>(c, 7);
  else merge_case<std::complex<double>>(c, 7);
}
MON_SECTION("bigger", 300, 4000) { merge_case<double>(c, 10); }

// The order in which a user-defined space lists its states does not matter
MON_SECTION("user-space", 2500, 40000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 6;
  g.max_bits = 7;
  g.max_mult = 4;
  g.max_boson = 6;
  auto s = random_sys(r, g);
  auto all = s.L.states();
  auto e = hermitian(random_op<double>(r, s, 2)), o = random_op<double>(r, s, 2), od = conj(o);
  c.input(s.layout() + " H=" + mon::str(e) + " O=" + mon::str(o));
  auto hm = matrix(s, e, all), om = matrix(s, o, all), odm = matrix(s, od, all);
  auto h = make_loperator(e, *s.hs), op = make_loperator(o, *s.hs), opd = make_loperator(od, *s.hs);
  auto grp = components(all, hm);
  close(grp, {om, odm});
  auto bare = components(all, hm);
  for(int k = 0; k < 3; ++k) {
    listed l{all, s.hs->vec_size()};
    r.shuffle(l.states);
    auto sp = lc::make_space_partition(h, l);
    auto me = sp.merge_subspaces(op, opd);
    auto x = compare_matrix(me.first, om), y = compare_matrix(me.second, odm);
    c.check(x.empty() && y.empty(), "MATRIX-ELEMENTS", [&] { return x + " / " + y; });
    if(!verify(c, sp, grp, all, all.size(), "order " + mon::vstr(l.states))) return;
  }
  if(grp.all().size() < bare.all().size()) c.nontrivial(c.in);
}
