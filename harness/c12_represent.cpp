// C12: operator action is a representation of the algebra.
#include "ops.hpp"
#include "ring.hpp"
using namespace ops;

namespace {
template <typename S> struct Rep {
  mon::Case& c;
  Sys<int> s;
  bool exact;
  using E = lc::expression<S, int>;
  using V = lc::sparse_state_vector<S>;

  V make(std::map<u64, S> const& in) const {
    V v(s.hs->vec_size());
    for(auto const& p : in) v[p.first] = p.second;
    return v;
  }
  std::map<u64, cld> raw(V const& v) const { return collect(v); }
  // a == b up to rounding relative to the largest amplitude involved
  bool same(std::map<u64, cld> const& a, std::map<u64, cld> const& b, ld scale, std::string& why) const {
    std::set<u64> k;
    for(auto const& p : a) k.insert(p.first);
    for(auto const& p : b) k.insert(p.first);
    for(u64 x : k) {
      auto i = a.find(x), j = b.find(x);
      cld u = i == a.end() ? cld(0) : i->second, w = j == b.end() ? cld(0) : j->second;
      if(!(std::abs(u - w) <= (exact ? 0 : 1e-12L * scale))) {
        why = s.show_state(x) + ": " + mon::str(u) + " vs " + mon::str(w);
        return false;
      }
    }
    return true;
  }
  static ld norm1(Sys<int> const& s, Poly const& p, AVec const& in) {
    ld m = 1;
    for(auto const& q : s.act(p, in)) m = std::max(m, q.second.scale);
    return m;
  }
  void run() {
    auto& r = c.r;
    std::vector<int> modes;
    for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
    E A = random_expr<S>(r, s.u, 3, 4, modes), B = random_expr<S>(r, s.u, 3, 4, modes);
    S k = random_amp<S>(r);
    c.input(s.layout() + " A=" + mon::str(A) + " B=" + mon::str(B) + " k=" + mon::str(k));
    auto const& hs = *s.hs;
    auto opA = make_loperator(A, hs), opB = make_loperator(B, hs);
    Poly pA = s.u.read(A), pB = s.u.read(B);
    // Occupations of bosons low enough for the cutoff never to be reached
    auto degA = [&](Poly const& p, int m) {
      int d = 0;
      for(auto const& t : p.t) {
        int n = 0;
        for(auto l : t.second) if(l.mode == m && l.kind == 1) ++n;
        d = std::max(d, n);
      }
      return d;
    };
    std::map<u64, S> in;
    bool safe_ok = true;
    for(int i = 0; i < r.range(1, 10); ++i) {
      u64 x = s.random_state(r);
      for(int m = 0; m < s.u.size(); ++m)
        if(s.u.model.modes[m].alg == ref::BOSON) {
          int need = degA(pA, m) + degA(pB, m);
          if(need >= int(s.dim[m])) { safe_ok = false; break; }
          x = s.with(x, m, s.occ(x, m) % (s.dim[m] - u64(need)));
        }
      in[x] = wide_amp<S>(r);
    }
    AVec ain;
    for(auto const& q : in) ain[q.first] = Amp{to_cld(q.second), std::abs(to_cld(q.second))};
    V v = make(in);
    std::string why;
    // Linearity holds on all states
    ld sc = norm1(s, pA + pB, ain) * (1 + std::abs(to_cld(k)));
    auto vA = opA(v), vB = opB(v);
    {
      c.phase("sum");
      auto l = raw(make_loperator(E(A + B), hs)(v));
      auto q = raw(vA);
      for(auto const& p : raw(vB)) { q[p.first] += p.second; }
      c.check(same(l, q, sc, why), "SUM", [&] { return why; });
      l = raw(make_loperator(E(A - B), hs)(v));
      q = raw(vA);
      for(auto const& p : raw(vB)) { q[p.first] -= p.second; }
      c.check(same(l, q, sc, why), "DIFFERENCE", [&] { return why; });
      l = raw(make_loperator(E(k * A), hs)(v));
      q = raw(vA);
      for(auto& p : q) p.second *= to_cld(k);
      c.check(same(l, q, sc, why), "MULTIPLE", [&] { return why; });
      // linear in the vector
      std::map<u64, S> in2 = in;
      for(auto& p : in2) { S t = p.second * k; p.second = t; }
      l = raw(opA(make(in2)));
      c.check(same(l, q, sc, why), "VECTOR-MULTIPLE", [&] { return why; });
      c.ev("linear relations", 4);
    }
    if(safe_ok) {
      c.phase("product");
      E AB = A * B;
      auto l = raw(make_loperator(AB, hs)(v));
      auto q = raw(opA(vB));
      AVec mid = s.act(pB, ain);
      ld sp = norm1(s, pA, mid);
      sp = std::max(sp, norm1(s, s.u.read(AB), ain));
      c.check(same(l, q, sp, why), "PRODUCT", [&] { return why; });
      auto l2 = raw(make_loperator(E(AB - B * A), hs)(v));
      auto q2 = q;
      for(auto const& p : raw(opB(vA))) q2[p.first] -= p.second;
      sp = std::max(sp, norm1(s, pB, s.act(pA, ain)));
      sp = std::max(sp, norm1(s, s.u.read(E(B * A)), ain));
      c.check(same(l2, q2, sp, why), "COMMUTATOR", [&] { return why; });
      c.ev("products", 2);
      if(!l.empty()) c.nontrivial(c.in);
    } else
      c.ev("products not testable below the cutoff");
    // adjoint: <x|A y> = conj(<y|A^+ x>) on all states
    {
      c.phase("adjoint");
      auto opC = make_loperator(E(conj(A)), hs);
      std::vector<u64> xs;
      for(auto const& p : vA_keys(vA)) xs.push_back(p);
      for(int i = 0; i < 3; ++i) xs.push_back(s.random_state(r));
      for(auto const& y : in) {
        V e(hs.vec_size());
        e[y.first] = S(1);
        auto Ay = raw(opA(e));
        for(u64 x : xs) {
          V f(hs.vec_size());
          f[x] = S(1);
          auto Cx = raw(opC(f));
          cld a = Ay.count(x) ? Ay[x] : cld(0), b = Cx.count(y.first) ? Cx[y.first] : cld(0);
          if(!c.check(std::abs(a - std::conj(b)) <= (exact ? 0 : 1e-12L * sc), "ADJOINT", [&] {
               return s.show_state(x) + s.show_state(y.first) + mon::str(a) + mon::str(b);
             }))
            return;
          c.ev("matrix elements");
        }
        if(c.r.coin(0.5)) break;
      }
    }
  }
  static std::vector<u64> vA_keys(V const& v) {
    std::vector<u64> k;
    foreach(v, [&](u64 n, S const&) { if(k.size() < 6) k.push_back(n); });
    return k;
  }
};
} // namespace

MON_SECTION("general", 4000, 60000) {
  SysCfg g;
  g.max_modes = 6;
  g.max_bits = 30;
  g.max_boson = c.r.coin(0.3) ? 300 : 40;
  g.max_mult = c.r.coin(0.2) ? 12 : 5;
  auto s = random_sys(c.r, g);
  if(c.r.coin()) Rep<double>{c, std::move(s), false}.run();
  else Rep<std::complex<double>>{c, std::move(s), false}.run();
}
MON_SECTION("exact", 4000, 60000) {
  SysCfg g;
  g.max_modes = 12;
  g.max_bits = 40;
  g.boson = false;
  g.max_mult = 2;
  int type = c.r.below(3);
  // Factors of spin operators are floating point numbers, refused by mpq_class
  if(type == 2) g.spin = false;
  auto s = random_sys(c.r, g);
  switch(type) {
  case 0: Rep<double>{c, std::move(s), true}.run(); break;
  case 1: Rep<std::complex<double>>{c, std::move(s), true}.run(); break;
  default: Rep<mpq_class>{c, std::move(s), true}.run(); break;
  }
}

// Coefficients which do not commute act on amplitudes from the left, and
// products of operators keep the order of their coefficients
MON_SECTION("matrix coefficients", 600, 8000) {
  using namespace ring;
  SysCfg g;
  g.max_modes = 5;
  g.max_bits = 12;
  g.boson = false;
  g.max_mult = 2;
  auto s = random_sys(c.r, g);
  auto const& hs = *s.hs;
  u64 const dim = hs.vec_size();
  EM const A = random_em(c.r, s.u), B = random_em(c.r, s.u);
  mat const k = random_mat(c.r);
  c.input(s.layout() + " A=" + mon::str(A) + " B=" + mon::str(B) + " k=" + mon::str(k));
  std::vector<vec> v(dim);
  lc::sparse_state_vector<vec> sp(dim);
  for(int i = 0, n = c.r.range(1, 8); i < n; ++i) {
    u64 x = s.random_state(c.r);
    v[x] = vec(c.r.range(-3, 3), c.r.range(1, 3));
    sp[x] = v[x];
  }
  auto op = [&](EM const& e) { return lc::make_loperator(e, hs); };
  // The blocks act as operators with ordinary coefficients
  auto ref = [&](EM const& e, std::vector<vec> const& w) {
    blocks const b = split(e);
    std::vector<vec> res(dim);
    for(int j = 0; j < 2; ++j) {
      std::vector<double> in(dim);
      for(u64 x = 0; x < dim; ++x) in[x] = w[x].x[j];
      for(int i = 0; i < 2; ++i) {
        auto out = lc::make_loperator(b.b[i][j], hs)(in);
        for(u64 x = 0; x < dim; ++x) res[x].x[i] += out[x];
      }
    }
    return res;
  };
  auto const a = op(A), b = op(B);
  auto const bv = b(v);
  auto add = [&](std::vector<vec> x, std::vector<vec> const& y) { for(u64 i = 0; i < dim; ++i) x[i] += y[i]; return x; };
  auto mul = [&](mat const& m, std::vector<vec> x) { for(auto& y : x) y = m * y; return x; };
  c.check(a(v) == ref(A, v), "BLOCKS");
  c.check(bv == ref(B, v), "BLOCKS");
  c.check(op(A * B)(v) == a(bv), "PRODUCT");
  c.check(op(B * A)(v) == b(a(v)), "PRODUCT");
  c.check(op(A + B)(v) == add(a(v), bv), "SUM");
  c.check(op(k * A)(v) == mul(k, a(v)), "MULTIPLE");
  c.check(op(A * k)(v) == a(mul(k, v)), "VECTOR-MULTIPLE");
  {
    auto out = a(sp);
    auto want = a(v);
    bool ok = true;
    for(u64 x = 0; x < dim; ++x) ok = ok && get_element(out, x) == want[x];
    c.check(ok, "SPARSE");
  }
  { // operators as amplitudes: columns of matrices
    std::vector<mat> m(dim);
    for(u64 x = 0; x < dim; ++x) m[x] = mat(v[x].x[0], 0, v[x].x[1], 0);
    auto out = a(m);
    auto want = a(v);
    bool ok = true;
    for(u64 x = 0; x < dim; ++x) ok = ok && out[x] == mat(want[x].x[0], 0, want[x].x[1], 0);
    c.check(ok, "MATRIX-AMPLITUDES");
  }
  c.ev("relations of block operators", 9);
  if(A.size() && B.size()) c.nontrivial(c.in);
}
