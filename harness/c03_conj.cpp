// C03: Hermitian conjugation is the operator adjoint.
#include "lib.hpp"
using namespace ref;
using cd = std::complex<double>;

static bool in_scope(Model const& m, Poly const& p) {
  for(auto const& t : p.t) {
    std::map<std::pair<int, int>, int> n;
    for(auto l : t.second)
      if(m.modes[l.mode].alg == SPIN && m.modes[l.mode].mult > 2 && l.kind != 2 &&
         ++n[{l.mode, l.kind}] >= m.modes[l.mode].mult)
        return false;
  }
  return true;
}

// <i|A^+|j> == conj(<j|A|i>) in the inner product of the representation
static std::string gram(Model const& m, Poly const& a, Poly const& ad, std::size_t& n) {
  for(St j : m.states(m.degrees({&a, &ad}))) {
    for(auto const& x : m.act(a, j)) { // A|j) = sum_i A_ij |i)
      ++n;
      Vec back = m.act(ad, x.first);
      C adji = back.count(j) ? back[j] : C(0);
      C lhs = adji * C(m.norm(j)), rhs = (x.second * C(m.norm(x.first))).conj();
      if(lhs != rhs)
        return "matrix element <" + m.show(Vec{{j, C(1)}}) + "|A^+|" + m.show(Vec{{x.first, C(1)}}) + "> is " +
               lhs.str() + " but conjugate transpose is " + rhs.str();
    }
    for(auto const& x : m.act(ad, j)) {
      ++n;
      Vec back = m.act(a, x.first);
      if(!back.count(j)) return "A^+ has a matrix element without counterpart in A";
    }
  }
  return "";
}

template <typename S> static void programs(mon::Case& c) {
  using E = lc::expression<S, int>;
  auto u = random_universe(c.r, 3, true, 120);
  std::string log;
  auto x = random_program<S>(c.r, u, c.r.range(2, 6), 40, 6, &log);
  c.input(log);
  E const e = x.e;
  E const ec = conj(e);
  std::size_t n = 0;
  Poly pe = u.read(e), pc = u.read(ec);
  std::string d = u.model.diff(pc, adjoint(x.p, u.model), &n);
  c.check(d.empty(), "adjoint_action", [&] { return "conj " + u.model.show(pc) + d; });
  d = gram(u.model, pe, pc, n);
  c.check(d.empty(), "matrix_elements", [&] { return "e " + u.model.show(pe) + " conj " + u.model.show(pc) + d; });
  d = u.canonical(ec);
  c.check(d.empty(), "conj_not_canonical", [&] { return d; });
  c.check(e == x.e, "operand_modified");
  bool scope = in_scope(u.model, pe * pe);
  if(scope) c.check(conj(ec) == e, "involution", [&] { return u.model.show(u.read(conj(ec))); });
  // hc
  E p = e + lc::hc, m = e - lc::hc;
  c.check(p == E(e + ec), "plus_hc", [&] { return u.model.show(u.read(p)); });
  c.check(m == E(e - ec), "minus_hc", [&] { return u.model.show(u.read(m)); });
  d = u.model.diff(u.read(p), x.p + adjoint(x.p, u.model), &n);
  c.check(d.empty(), "plus_hc_action", [&] { return d; });
  d = u.model.diff(u.read(m), x.p - adjoint(x.p, u.model), &n);
  c.check(d.empty(), "minus_hc_action", [&] { return d; });
  if(scope) {
    c.check(conj(p) == p, "plus_hc_selfadjoint", [&] { return u.model.show(u.read(p)); });
    c.check(conj(m) == -m, "minus_hc_antiselfadjoint", [&] { return u.model.show(u.read(m)); });
  }
  c.ev("matrix_elements", n);
  if(x.p.max_len() >= 1) c.nontrivial(log);
}
MON_SECTION("programs_real", 500, 12000) { programs<double>(c); }
MON_SECTION("programs_complex", 700, 16000) { programs<cd>(c); }
MON_SECTION("programs_rational", 200, 5000) { programs<mpq_class>(c); }

// Algebraic rules
MON_SECTION("rules", 600, 12000) {
  using E = lc::expression<cd, int>;
  auto u = random_universe(c.r, 3, c.r.coin());
  auto a = random_leaf<cd>(c.r, u), b = random_leaf<cd>(c.r, u);
  c.input("a=" + u.model.show(a.p) + " b=" + u.model.show(b.p));
  Poly ab = a.p * b.p;
  cd s = as<cd>(random_coeff<cd>(c.r));
  if(!in_scope(u.model, ab)) throw mon::skip_case{};
  auto chk = [&](E const& l, E const& r, char const* key) {
    c.check(l == r, key, [&] { return u.model.show(u.read(l)) + " vs " + u.model.show(u.read(r)); });
  };
  chk(conj(a.e * b.e), conj(b.e) * conj(a.e), "product_reversal");
  chk(conj(a.e + b.e), conj(a.e) + conj(b.e), "additivity");
  chk(conj(a.e - b.e), conj(a.e) - conj(b.e), "additivity");
  chk(conj(s * a.e), std::conj(s) * conj(a.e), "antilinearity");
  chk(conj(E(s)), E(std::conj(s)), "constant");
  chk(conj(E()), E(), "empty");
  chk(conj(conj(a.e)), a.e, "involution");
  chk(conj(a.e * conj(a.e)), a.e * conj(a.e), "square_selfadjoint");
  // real expression promoted to complex
  c.nontrivial(c.in);
}

// Coefficients of very different magnitudes in one expression
template <typename S> static void magnitudes(mon::Case& c) {
  using E = lc::expression<S, int>;
  auto u = random_universe(c.r, 3, c.r.coin());
  int nt = c.r.range(2, 4);
  E e, expect;
  std::string in;
  for(int i = 0; i < nt; ++i) {
    auto a = random_leaf<S>(c.r, u, 2, 3);
    if(!in_scope(u.model, a.p * a.p)) throw mon::skip_case{};
    int ex = c.r.coin() ? 0 : (c.r.coin() ? -c.r.range(10, 80) : c.r.range(10, 35));
    double f = std::ldexp(1.0, ex);
    E x = a.e, xc;
    // the adjoint computed from the reference: every word conjugated separately
    for(auto const& t : adjoint(a.p, u.model).t) xc += E(as<S>(t.first), u.mono(t.second));
    x *= f;
    xc *= f;
    e += x;
    expect += xc;
    in += "2^" + std::to_string(ex) + "*(" + u.model.show(a.p) + ") ";
  }
  c.input(in);
  auto close = [&](E const& got, E const& want, char const* key) {
    std::map<Word, std::pair<std::complex<double>, std::complex<double>>> m;
    for(auto const& t : got) m[u.read(t.monomial)].first = t.coeff;
    for(auto const& t : want) m[u.read(t.monomial)].second = t.coeff;
    for(auto const& t : m) {
      double d = std::abs(t.second.first - t.second.second);
      double sc = std::max(std::abs(t.second.first), std::abs(t.second.second));
      c.ev("coefficients");
      if(!(d <= 1e-12 + 1e-13 * sc * (1 << 6))) {
        c.fail(key, u.model.show(t.first) + " got " + mon::str(t.second.first) + " expected " + mon::str(t.second.second));
        return;
      }
    }
  };
  close(conj(e), expect, "conj_magnitudes");
  close(e + lc::hc, e + expect, "plus_hc_magnitudes");
  close(e - lc::hc, e - expect, "minus_hc_magnitudes");
  c.nontrivial(in);
}
MON_SECTION("magnitudes_real", 500, 8000) { magnitudes<double>(c); }
MON_SECTION("magnitudes_complex", 500, 8000) { magnitudes<cd>(c); }

// Single generators of every kind, spin and index type
MON_SECTION("generators", 60, 600) {
  Universe<std::string, int> u;
  std::string s = c.r.coin() ? "a" : "";
  int i = c.r.range(-100, 100), m = c.r.range(2, 12);
  u.add({FERMION}, {s, i}); u.add({BOSON}, {s, i}); u.add({SPIN, m}, {s, i});
  using E = lc::expression<cd, std::string, int>;
  for(int mode = 0; mode < 3; ++mode)
    for(int k = 0; k < (mode == 2 ? 3 : 2); ++k) {
      C z = random_coeff<cd>(c.r);
      E e(as<cd>(z), u.mono({{mode, k}}));
      Poly want = adjoint(Poly(z, {{mode, k}}), u.model);
      Poly got = u.read(conj(e));
      c.input(u.model.show(want));
      c.check(got.t.size() == 1 && got.t[0] == want.t[0], "generator", [&] { return u.model.show(got); });
      typename lc::generator<std::string, int>::linear_function_t f;
      u.gen({mode, k})->conj(f);
      c.check(double(f.const_term) == 0 && f.terms.size() == 1 && double(f.terms[0].second) == 1 &&
                  u.read(*f.terms[0].first) == want.t[0].second[0], "generator_conj");
    }
  c.nontrivial(c.in);
}
