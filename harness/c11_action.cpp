// C11: operators act as their matrices.
#include "ops.hpp"
using namespace ops;

namespace {
template <typename OpS, typename VS> ld tolerance(int len) {
  ld e = std::max(real_eps<OpS>::value, real_eps<VS>::value);
  if(std::is_same<OpS, mpq_class>::value || std::is_integral<OpS>::value) e = 2.3e-16L;
  return e * 4 * (len + 4);
}
template <typename E> int max_len(E const& e) {
  int m = 1;
  for(auto const& t : e) m = std::max(m, int(t.monomial.size()));
  return m;
}

// One action on a random vector; sparse storage unless the space is small
template <typename OpS, typename VS> void one(mon::Case& c, Sys<int> const& s, bool exact) {
  auto& r = c.r;
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m)
    if(r.coin(0.7)) modes.push_back(m);
  if(modes.empty()) modes.push_back(r.below(s.u.size()));
  auto e = random_expr<OpS>(r, s.u, 5, 6, modes);
  c.input(s.layout() + " op " + mon::str(e));
  c.phase("construction");
  auto op = make_loperator(e, *s.hs);
  Poly p = s.u.read(e);
  ld eps = exact ? ld(0) : tolerance<OpS, VS>(max_len(e));
  bool dense = s.total_bits <= 12 && r.coin(0.6);
  int nst = r.range(1, dense ? 40 : 12);
  std::map<u64, VS> in;
  for(int i = 0; i < nst; ++i) {
    u64 x = s.random_state(r);
    // prefer states on which some monomial does not vanish
    if(!p.t.empty() && r.coin(0.6)) {
      auto const& w = r.pick(p.t).second;
      for(int tr = 0; tr < 20; ++tr) {
        u64 y = s.random_state(r);
        u64 z = y;
        ld a = 1;
        if(s.act(w, z, a)) { x = y; break; }
      }
    }
    in[x] = wide_amp<VS>(r);
  }
  AVec ain;
  for(auto const& q : in) ain[q.first] = Amp{to_cld(q.second), std::abs(to_cld(q.second))};
  AVec want = s.act(p, ain);
  std::map<u64, cld> got;
  c.phase("action");
  if(dense) {
    std::vector<VS> v(s.hs->vec_size()), w(s.hs->vec_size());
    for(auto& x : w) x = wide_amp<VS>(r); // must be overwritten
    for(auto const& q : in) v[q.first] = q.second;
    if(r.coin()) op(v, w);
    else w = op(v);
    got = collect_raw(w);
    c.ev("dense actions");
  } else {
    lc::sparse_state_vector<VS> v(s.hs->vec_size());
    for(auto const& q : in) v[q.first] = q.second;
    auto w = op * v;
    foreach(w, [&](u64 n, VS const& a) { got[n] = to_cld(a); });
    c.ev("sparse actions");
  }
  c.ev("amplitudes", want.size());
  bool big = false;
  for(auto const& q : want) big = big || q.second.scale > 0;
  // sparse vectors drop amplitudes below their zero tolerance
  auto d = diff(want, got, std::max(eps, exact ? ld(0) : eps));
  if(!d.empty() && !dense && !exact) {
    AVec w2;
    for(auto const& q : want) {
      auto g = got.find(q.first);
      if(g == got.end() && std::abs(q.second.v) <= 100 * real_eps<VS>::value) continue;
      w2.insert(q);
    }
    d = diff(w2, got, eps);
  }
  c.check(d.empty(), "WRONG-AMPLITUDE", [&] {
    std::string o = d + " | input";
    for(auto const& q : in) o += " " + std::to_string(q.first) + s.show_state(q.first) + ":" + mon::str(to_cld(q.second));
    return o;
  });
  if(big) c.nontrivial(c.in);
}
} // namespace

MON_SECTION("general", 6000, 90000) {
  SysCfg g;
  g.max_modes = c.r.coin(0.5) ? 4 : 9;
  g.max_mult = c.r.coin(0.2) ? 15 : 6;
  g.max_boson = c.r.coin(0.2) ? 400 : 12;
  auto s = random_sys(c.r, g);
  switch(c.r.below(5)) {
  case 0: case 1: one<double, double>(c, s, false); break;
  case 2: one<double, std::complex<double>>(c, s, false); break;
  case 3: one<std::complex<double>, std::complex<double>>(c, s, false); break;
  default: one<float, float>(c, s, false);
  }
}

// Fermions and spins-1/2 only: exact arithmetic
MON_SECTION("exact", 3000, 40000) {
  SysCfg g;
  g.boson = false;
  g.max_mult = 2;
  g.max_modes = 11;
  g.spin = c.r.coin();
  auto s = random_sys(c.r, g);
  bool f_only = !g.spin;
  switch(c.r.below(f_only ? 7 : 2)) {
  case 0: one<double, double>(c, s, true); break;
  case 1: one<std::complex<double>, std::complex<double>>(c, s, true); break;
  case 2: one<mpq_class, mpq_class>(c, s, true); break;
  case 3: one<int, int>(c, s, true); break;
  case 4: one<long, long>(c, s, true); break;
  case 5: one<int, double>(c, s, true); break;
  default: one<int, long>(c, s, true); break;
  }
}

// Every matrix element of an operator on a small space
MON_SECTION("matrix", 1500, 20000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 5;
  g.max_bits = 7;
  g.max_boson = 6;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<double>(r, s.u, 6, 6, modes);
  c.input(s.layout() + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  Poly p = s.u.read(e);
  ld eps = tolerance<double, double>(max_len(e));
  std::size_t nz = 0;
  for(u64 x : s.L.states()) {
    std::vector<double> v(s.hs->vec_size(), 0);
    v[x] = 1;
    auto w = op(v);
    AVec want = s.act(p, AVec{{x, Amp{1, 1}}});
    nz += want.size();
    auto d = diff(want, collect_raw(w), eps);
    if(!c.check(d.empty(), "WRONG-MATRIX-ELEMENT", [&] { return "column " + s.show_state(x) + ": " + d; })) break;
  }
  c.ev("columns", s.L.dim());
  c.ev("non-zero elements", nz);
  if(nz) c.nontrivial(c.in);
}

// Hilbert spaces of up to 63 bits
MON_SECTION("huge", 4000, 60000) {
  auto& r = c.r;
  Sys<int> s;
  int target = r.range(40, 63);
  int nf = r.coin(0.3) ? r.range(30, 63) : r.range(0, 30);
  int bits = 0;
  std::vector<u64> bd;
  std::set<int> fi;
  while(int(fi.size()) < nf) fi.insert(r.range(-99, 99));
  for(int i : fi) { if(bits >= target) break; s.u.add({ref::FERMION, 2}, {i}); bd.push_back(0); ++bits; }
  std::set<int> bi;
  int nb = r.range(0, 4);
  while(int(bi.size()) < nb) bi.insert(r.range(-99, 99));
  for(int i : bi) {
    int b = r.range(1, 40);
    if(bits + b > target) continue;
    u64 d = (u64(1) << b) - (r.coin(0.5) ? 0 : r.next() % ((u64(1) << b) / 2));
    s.u.add({ref::BOSON, 2}, {i});
    bd.push_back(d);
    bits += b;
  }
  std::set<std::pair<int, int>> ss;
  for(int k = r.range(0, 5); k > 0; --k) ss.insert({r.coin(0.3) ? r.range(20, 300) : r.range(2, 8), r.range(0, 5)});
  for(auto const& q : ss) {
    int b = 0;
    for(int x = q.first - 1; x; x >>= 1) ++b;
    if(bits + b > target) continue;
    s.u.add({ref::SPIN, q.first}, {q.second});
    bd.push_back(0);
    bits += b;
  }
  if(s.u.size() == 0) throw mon::skip_case{};
  s.build(r, bd);
  switch(r.below(3)) {
  case 0: one<double, double>(c, s, false); break;
  case 1: one<std::complex<double>, std::complex<double>>(c, s, false); break;
  default: one<double, std::complex<double>>(c, s, false); break;
  }
}
