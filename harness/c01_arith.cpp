// C01: results of arithmetic represent exactly the operator computed by the
// same arithmetic on the raw generators.
#include "lib.hpp"
#include "ring.hpp"
using namespace ref;
using cd = std::complex<double>;

template <typename S, typename... I>
static void verify(mon::Case& c, Universe<I...> const& u, lc::expression<S, I...> const& e, Poly const& p,
                   char const* key) {
  std::size_t n = 0;
  Poly lp = u.read(e);
  std::string d = u.model.diff(lp, p, &n);
  c.ev("operator_actions", n);
  c.ev("terms", e.size());
  c.check(d.empty(), key, [&] { return "result " + u.model.show(lp) + " " + d; });
}

// Single words of raw generators, all ways of multiplying them together
MON_SECTION("words", 2500, 60000) {
  auto u = random_universe(c.r);
  Word w = random_word(c.r, u.model, c.r.range(2, c.thorough ? 9 : 7));
  C k = random_coeff<double>(c.r);
  c.input(k.str() + " * " + u.model.show(w));
  Poly p(k, w);
  using E = lc::expression<double, int>;
  c.phase("monomial constructor");
  E e0(as<double>(k), u.mono(w));
  verify(c, u, e0, p, "from_monomial");
  // left to right
  c.phase("left to right");
  E e1(as<double>(k));
  for(auto l : w) e1 *= E(1.0, u.mono({l}));
  verify(c, u, e1, p, "left_to_right");
  c.phase("right to left");
  E e2(1.0);
  for(auto it = w.rbegin(); it != w.rend(); ++it) e2 = E(1.0, u.mono({*it})) * e2;
  e2 = e2 * as<double>(k);
  verify(c, u, e2, p, "right_to_left");
  std::size_t cut = c.r.below(int(w.size()) + 1);
  E e3 = E(as<double>(k), u.mono(Word(w.begin(), w.begin() + cut))) * E(1.0, u.mono(Word(w.begin() + cut, w.end())));
  verify(c, u, e3, p, "split");
  bool ordered = true;
  for(std::size_t i = 1; i < w.size(); ++i) ordered &= !(u.key(w[i]) < u.key(w[i - 1]));
  if(!ordered) c.nontrivial(c.in);
}

// Powers of single letters and of short products (reduction of powers)
MON_SECTION("powers", 500, 8000) {
  auto u = random_universe(c.r, 2);
  int n = c.r.range(2, 5);
  Word w = random_word(c.r, u.model, n > 3 ? 1 : c.r.range(1, 2));
  Word pre = random_word(c.r, u.model, c.r.below(2)), post = random_word(c.r, u.model, c.r.below(2));
  c.input("pre " + u.model.show(pre) + " ( " + u.model.show(w) + ")^" + std::to_string(n) + " post " + u.model.show(post));
  using E = lc::expression<double, int>;
  E b(1.0, u.mono(w)), e(1.0), pw(1.0);
  Poly p(C(1), pre);
  for(int i = 0; i < n; ++i) { pw *= b; p = p * Poly(C(1), w); }
  p = p * Poly(C(1), post);
  e = E(1.0, u.mono(pre)) * pw * E(1.0, u.mono(post));
  verify(c, u, e, p, "power");
  c.nontrivial(c.in);
}

template <typename S> static void program(mon::Case& c) {
  auto u = random_universe(c.r, 3, true, 150);
  std::string log;
  auto x = random_program<S>(c.r, u, c.r.range(3, 8), 60, 7, &log);
  c.input(log);
  verify(c, u, x.e, x.p, "program");
  if(x.p.max_len() >= 2) c.nontrivial(log);
}
MON_SECTION("programs_real", 700, 15000) { program<double>(c); }
MON_SECTION("programs_complex", 400, 8000) { program<cd>(c); }
MON_SECTION("programs_rational", 250, 5000) { program<mpq_class>(c); }

// Factory functions (including the derived operators n, Sx, Sy) for every spin
template <int M> static void factories_mult(mon::Case& c) {
  Universe<int, std::string> u;
  int i0 = c.r.range(-2, 2);
  u.add({FERMION}, {i0, "up"});
  u.add({BOSON}, {i0, "up"});
  if(M > 2) { u.add({SPIN, 2}, {i0, "up"}); }
  u.add({SPIN, M}, {i0, "up"});
  int ms = u.size() - 1, m2 = 2;
  std::string s = "up";
  char const* cs = "up";
  auto L = [](int m, int k) { return Word{Letter{m, k}}; };
  verify(c, u, si::c_dag(i0, s), Poly(C(1), L(0, 1)), "c_dag");
  verify(c, u, si::c(i0, cs), Poly(C(1), L(0, 0)), "c");
  verify(c, u, si::n(i0, "up"), Poly(C(1), {{0, 1}, {0, 0}}), "n");
  verify(c, u, si::a_dag(i0, cs), Poly(C(1), L(1, 1)), "a_dag");
  verify(c, u, si::a(i0, s), Poly(C(1), L(1, 0)), "a");
  verify(c, u, si::S_p<M>(i0, s), Poly(C(1), L(ms, 0)), "S_p");
  verify(c, u, si::S_m<M>(i0, s), Poly(C(1), L(ms, 1)), "S_m");
  verify(c, u, si::S_z<M>(i0, s), Poly(C(1), L(ms, 2)), "S_z");
  verify(c, u, si::S_p(i0, s), Poly(C(1), L(m2, 0)), "S_p_half");
  verify(c, u, si::S_m(i0, s), Poly(C(1), L(m2, 1)), "S_m_half");
  verify(c, u, si::S_z(i0, s), Poly(C(1), L(m2, 2)), "S_z_half");
  C h(Q(1, 2)), ih(Q(0), Q(-1, 2)), mih(Q(0), Q(1, 2));
  auto X = [&](int m) { return Poly(h, L(m, 0)) + Poly(h, L(m, 1)); };
  auto Y = [&](int m) { return Poly(ih, L(m, 0)) + Poly(mih, L(m, 1)); };
  verify(c, u, si::S_x<M>(i0, s), X(ms), "S_x");
  verify(c, u, si::S_y<M>(i0, s), Y(ms), "S_y");
  verify(c, u, si::S_x(i0, s), X(m2), "S_x_half");
  verify(c, u, si::S_y(i0, s), Y(m2), "S_y_half");
  // spherical components products
  std::vector<std::pair<lc::expression<cd, int, std::string>, Poly>> comp = {
      {si::S_x<M>(i0, s), X(ms)}, {si::S_y<M>(i0, s), Y(ms)},
      {si::make_complex(si::S_z<M>(i0, s)), Poly(C(1), L(ms, 2))},
      {si::make_complex(si::c_dag(i0, s)), Poly(C(1), L(0, 1))},
      {si::make_complex(si::n(i0, s)), Poly(C(1), {{0, 1}, {0, 0}})},
      {si::make_complex(si::a(i0, s)), Poly(C(1), L(1, 0))}};
  int n = c.r.range(2, 5);
  lc::expression<cd, int, std::string> e(1.0);
  Poly p(C(1));
  std::string in = "mult " + std::to_string(M) + ": ";
  for(int k = 0; k < n; ++k) {
    int j = c.r.below(int(comp.size()));
    e *= comp[j].first;
    p = (p * comp[j].second).compact();
    in += std::to_string(j) + " ";
  }
  c.input(in);
  verify(c, u, e, p, "cartesian_product");
  c.nontrivial(in);
}
MON_SECTION("factories", 150, 2000) {
  switch(c.index % 5) {
  case 0: factories_mult<2>(c); break;
  case 1: factories_mult<3>(c); break;
  case 2: factories_mult<4>(c); break;
  case 3: factories_mult<5>(c); break;
  default: factories_mult<8>(c); break;
  }
}

// High spins and long ladders on one mode: all spins up to 2S+1 = 12
MON_SECTION("high_spin", 300, 4000) {
  Universe<int> u;
  int m = c.r.range(3, 12);
  u.add({SPIN, m}, {c.r.range(0, 5)});
  if(c.r.coin(0.3)) u.add({SPIN, m}, {7});
  if(m < 12 && c.r.coin(0.3)) u.add({SPIN, 12}, {std::get<0>(u.idx[0])});
  int len = c.r.range(3, 8);
  Word w;
  if(c.r.coin(0.5)) { // ladders: powers around the multiplicity
    int k = c.r.below(2);
    for(int i = 0, n = c.r.range(m - 1, m + 1); i < n; ++i) w.push_back({0, k});
    w.insert(w.begin() + c.r.below(int(w.size()) + 1), Letter{0, c.r.below(3)});
  } else
    w = random_word(c.r, u.model, len);
  c.input(u.model.show(w));
  lc::expression<double, int> e(1.0), f(1.0, u.mono(w));
  for(auto l : w) e = e * lc::expression<double, int>(1.0, u.mono({l}));
  verify(c, u, e, Poly(C(1), w), "high_spin");
  verify(c, u, f, Poly(C(1), w), "high_spin_monomial");
  c.nontrivial(c.in);
}

// The relations of single generators as reported by the generators themselves.
// The linear function handed over may hold anything.
MON_SECTION("relations", 3000, 40000) {
  auto& r = c.r;
  Universe<int> u = random_universe(r, 3);
  Letter a = random_letter(r, u.model, r.below(u.size())), b = random_letter(r, u.model, r.coin(0.6) ? a.mode : r.below(u.size()));
  auto ga = u.gen(a), gb = u.gen(b);
  c.input(u.model.show(Word{a, b}));
  using F = lc::generator<int>::linear_function_t;
  auto poly = [&](F const& f) {
    Poly p(C(Q(double(f.const_term))));
    for(auto const& t : f.terms) p = p + Poly(C(Q(double(t.second))), Word{u.read(*t.first)});
    return p;
  };
  auto dirty = [&] {
    F f(r.range(-3, 3));
    for(int i = r.below(3); i > 0; --i) f.terms.emplace_back(r.coin() ? ga : gb, r.range(1, 5));
    return f;
  };
  auto same = [&](char const* key, Poly const& x, Poly const& y) {
    std::size_t n = 0;
    auto d = u.model.diff(x, y, &n);
    c.check(d.empty(), key, [&] { return d; });
    c.ev("relations");
  };
  bool same_alg = ga->algebra_id() == gb->algebra_id();
  if(*ga > *gb) {
    for(int k = 0; k < 2; ++k) {
      if(k == 0 && !same_alg) continue;
      F f = dirty();
      lc::var_number q = k ? swap_with(*ga, *gb, f) : ga->swap_with(*gb, f);
      same("swap_with", Poly(C(1), {a, b}), Poly(C(Q(double(q))), {b, a}) + poly(f));
    }
  } else {
    for(int k = 0; k < 2; ++k) {
      if(k == 0 && !same_alg) continue;
      F f = dirty();
      if(k ? simplify_prod(*ga, *gb, f) : ga->simplify_prod(*gb, f)) same("simplify_prod", Poly(C(1), {a, b}), poly(f));
    }
  }
  {
    F f = dirty();
    int n = r.range(3, 6);
    if(ga->reduce_power(n, f)) same("reduce_power", Poly(C(1), Word(std::size_t(n), a)), poly(f));
  }
  {
    F f = dirty();
    ga->conj(f);
    same("conj", adjoint(Poly(C(1), {a}), u.model), poly(f));
  }
  c.nontrivial(c.in);
}

// Exhaustive: all words of length <= 3 (4 when thorough) over a small alphabet
// with one fermion pair, a boson and spins 1/2 and 1
MON_SECTION("exhaustive", 14, 14) {
  static std::vector<Letter> alphabet;
  static Universe<int> u;
  if(alphabet.empty()) {
    u.add({FERMION}, {0}); u.add({FERMION}, {1}); u.add({BOSON}, {0}); u.add({SPIN, 2}, {0}); u.add({SPIN, 3}, {0});
    for(int m = 0; m < 3; ++m) for(int k = 0; k < 2; ++k) alphabet.push_back({m, k});
    for(int m = 3; m < 5; ++m) for(int k = 0; k < 3; ++k) alphabet.push_back({m, k});
    alphabet.push_back({3, 0}); alphabet.push_back({4, 1});
  }
  Letter first = alphabet[c.index];
  int n = 12;
  c.input("all words starting with " + u.model.show(Word{first}));
  int maxlen = c.thorough ? 4 : 3;
  std::vector<Word> ws{{first}};
  for(std::size_t q = 0; q < ws.size(); ++q) {
    Word w = ws[q];
    lc::expression<double, int> e(1.0, u.mono(w));
    verify(c, u, e, Poly(C(1), w), "word");
    c.ev("words");
    if(int(w.size()) < maxlen)
      for(int j = 0; j < n; ++j) { Word v = w; v.push_back(alphabet[j]); ws.push_back(v); }
  }
  c.nontrivial(c.in);
}

// Coefficients from a ring whose multiplication does not commute
MON_SECTION("matrix_coefficients", 500, 8000) {
  using namespace ring;
  auto u = random_universe(c.r, 3, true);
  std::vector<EM> x;
  std::vector<blocks> ref;
  std::string log;
  for(int i = 0; i < 3; ++i) {
    x.push_back(random_em(c.r, u, 2, 2));
    ref.push_back(split(x.back()));
    log += "x" + std::to_string(i) + "=" + mon::str(x.back()) + " | ";
  }
  for(int k = 0, n = c.r.range(3, 8); k < n; ++k) {
    int i = c.r.below(int(x.size())), j = c.r.below(int(x.size()));
    mat const m = random_mat(c.r);
    EM e;
    blocks b;
    int op = c.r.below(10);
    std::size_t len = 0;
    for(auto const& t : x[i]) len = std::max(len, t.monomial.size());
    for(auto const& t : x[j]) len = std::max(len, t.monomial.size());
    if(op < 4 && (len > 4 || x[i].size() * x[j].size() > 60)) op += 4;
    log += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + mon::str(m) + ") ";
    switch(op) {
    case 0: case 1: e = x[i] * x[j]; b = ref[i] * ref[j]; break;
    case 2: e = x[i]; e *= x[j]; b = ref[i] * ref[j]; break;
    case 3: e = x[i] * x[j] - x[j] * x[i]; b = ref[i] * ref[j] - ref[j] * ref[i]; break;
    case 4: e = m * x[i]; b = split(m) * ref[i]; break;
    case 5: e = x[i] * m; b = ref[i] * split(m); break;
    case 6: e = x[i] + x[j]; b = ref[i] + ref[j]; break;
    case 7: e = x[i] - x[j]; b = ref[i] - ref[j]; break;
    case 8: e = m - x[i]; b = split(m) - ref[i]; break;
    default: e = x[i]; e *= m; b = ref[i] * split(m); break;
    }
    c.input(log);
    c.ev("steps");
    if(!c.check(split(e) == b && !stored_zero(e), "matrix_program", [&] { return mon::str(e); })) return;
    if(e.size() > 40) continue;
    x.push_back(std::move(e));
    ref.push_back(std::move(b));
  }
  c.nontrivial(log);
}
