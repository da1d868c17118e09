// C04: all arithmetic forms agree, value semantics.
#include "lib.hpp"
#include "ring.hpp"
using namespace ref;
using cd = std::complex<double>;

template <typename S> using EX = lc::expression<S, int>;

template <typename S> static Universe<int> uni(mon::rng& r) {
  for(;;) {
    auto u = random_universe(r, 3, true);
    bool ok = true;
    if(std::is_integral<S>::value)
      for(auto const& m : u.model.modes) ok &= !(m.alg == SPIN && m.mult == 2);
    if(ok) return u;
  }
}
template <typename S> static C coeff(mon::rng& r) {
  if(std::is_integral<S>::value) return C(Q(r.coin() ? r.range(1, 4) : -r.range(1, 4)));
  return random_coeff<S>(r);
}
template <typename S> static EX<S> leaf(mon::rng& r, Universe<int> const& u) {
  EX<S> e;
  if(r.coin(0.1)) return e;
  int n = r.range(1, 4);
  for(int i = 0; i < n; ++i) e += EX<S>(as<S>(coeff<S>(r)), u.mono(random_word(r, u.model, r.below(3))));
  if(r.coin(0.3)) e += as<S>(coeff<S>(r));
  return e;
}
// Exact content of an expression, independent of its scalar type
template <typename S> static std::string snap(Universe<int> const& u, EX<S> const& e) {
  std::string s;
  for(auto const& t : e) s += "[" + to_c(t.coeff).str() + "]" + u.model.show(u.read(t.monomial)) + ";";
  return s;
}

template <typename S1, typename S2> static void forms(mon::Case& c) {
  auto u = std::is_integral<S1>::value ? uni<S1>(c.r) : uni<S2>(c.r);
  EX<S1> const a = leaf<S1>(c.r, u);
  EX<S2> b0 = leaf<S2>(c.r, u);
  // often make the operands overlap so that terms merge and cancel
  if(c.r.coin(0.6)) {
    for(auto const& t : a)
      if(c.r.coin(0.7)) {
        double v = to_c(t.coeff).re.get_d();
        if(v == std::floor(v)) b0 += EX<S2>(S2(c.r.coin() ? v : -v), t.monomial);
      }
  }
  EX<S2> const b = b0;
  using R = decltype(std::declval<S1>() * std::declval<S2>());
  using ER = EX<R>;
  std::string sa = snap(u, a), sb = snap(u, b);
  c.input("a=" + sa + " b=" + sb);
  auto eq = [&](auto const& x, ER const& y, char const* key) {
    std::string sx = snap(u, x), sy = snap(u, y);
    c.ev("forms_compared");
    c.check(sx == sy, key, [&] { return sx + " vs " + sy; });
    c.check(ER(x) == y, key, [&] { return sx + " vs " + sy + " (operator==)"; });
    std::string cn = u.canonical(x);
    c.check(cn.empty(), key, [&] { return cn; });
    c.check(snap(u, a) == sa, "operand_modified", [&] { return std::string(key) + " left"; });
    c.check(snap(u, b) == sb, "operand_modified", [&] { return std::string(key) + " right"; });
  };
  ER const A(a), B(b);
  {
    ER const ref = A + B;
    eq(a + b, ref, "sum"); eq(b + a, ref, "sum_swapped"); eq(a - (-b), ref, "minus_negated"); eq(A + b, ref, "sum_mixed");
    eq(a + B, ref, "sum_mixed");
    ER t = A; t += b; eq(t, ref, "sum_assign");
    t = A; t += B; eq(t, ref, "sum_assign_same");
    t = B; t += a; eq(t, ref, "sum_assign_swapped");
    t = A; t -= EX<S2>(-b); eq(t, ref, "sub_assign_negated");
    if constexpr(std::is_same<R, S1>::value) { EX<S1> x = a; x += b; eq(x, ref, "sum_assign_narrow"); }
  }
  {
    ER const ref = A - B;
    eq(a - b, ref, "difference"); eq(-(b - a), ref, "difference_swapped"); eq(a + (-b), ref, "plus_negated");
    eq(A - b, ref, "difference_mixed"); eq(a - B, ref, "difference_mixed");
    ER t = A; t -= b; eq(t, ref, "sub_assign");
    t = A; t -= B; eq(t, ref, "sub_assign_same");
    t = B; t -= a; eq(-t, ref, "sub_assign_swapped");
    if constexpr(std::is_same<R, S1>::value) { EX<S1> x = a; x -= b; eq(x, ref, "sub_assign_narrow"); }
  }
  {
    ER const ref = A * B;
    eq(a * b, ref, "product"); eq(A * b, ref, "product_mixed"); eq(a * B, ref, "product_mixed");
    ER t = A; t *= b; eq(t, ref, "mul_assign");
    eq((-a) * (-b), ref, "negated_product");
    ER const rev = B * A;
    eq(b * a, rev, "product_reversed");
    t = B; t *= a; eq(t, rev, "mul_assign_reversed");
    if constexpr(std::is_same<R, S1>::value) { EX<S1> x = a; x *= b; eq(x, ref, "mul_assign_narrow"); }
  }
  // scalars
  for(int k = 0; k < 4; ++k) {
    C z = k == 0 ? C(0) : coeff<S2>(c.r);
    S2 s = as<S2>(z);
    if(k == 3) // exactly cancelling the constant term
      for(auto const& t : a)
        if(t.monomial.empty()) {
          double v = -to_c(t.coeff).re.get_d();
          if(v == std::floor(v)) s = S2(v);
        }
    ER const SC{EX<S2>(s)};
    S2 const ms = S2(-s);
    { ER const ref = A + SC; eq(a + s, ref, "scalar_right_sum"); eq(s + a, ref, "scalar_left_sum"); eq(a - ms, ref, "scalar_right_sub_negated");
      ER t = A; t += s; eq(t, ref, "scalar_sum_assign"); t = A; t -= ms; eq(t, ref, "scalar_sub_assign_negated"); eq(a + EX<S2>(s), ref, "scalar_expr_sum"); }
    { ER const ref = A - SC; eq(a - s, ref, "scalar_right_sub"); eq(ms + a, ref, "scalar_left_sum_negated"); eq(-(s - a), ref, "scalar_left_sub_negated");
      ER t = A; t -= s; eq(t, ref, "scalar_sub_assign"); t = A; t += ms; eq(t, ref, "scalar_sum_assign_negated"); eq(a - EX<S2>(s), ref, "scalar_expr_sub"); }
    { ER const ref = SC - A; eq(s - a, ref, "scalar_left_sub"); eq(-(a - s), ref, "scalar_right_sub_neg"); eq(EX<S2>(s) - a, ref, "expr_sub"); }
    { ER const ref = A * SC; eq(a * s, ref, "scalar_right_mul"); eq(s * a, ref, "scalar_left_mul"); eq(a * EX<S2>(s), ref, "scalar_expr_mul"); eq(EX<S2>(s) * a, ref, "expr_mul");
      ER t = A; t *= s; eq(t, ref, "scalar_mul_assign");
      if constexpr(std::is_same<R, S1>::value) { EX<S1> x = a; x *= s; eq(x, ref, "scalar_mul_assign_narrow"); x = a; x += s; eq(x, A + SC, "scalar_sum_assign_narrow"); x = a; x -= s; eq(x, A - SC, "scalar_sub_assign_narrow"); } }
  }
  eq(+(-(-a)), A, "double_negation");
  if(a.size() > 1 && b.size() > 0) c.nontrivial(c.in);
}
namespace libcommute { template <typename S, typename... I> expression<S, I...> const& operator+(expression<S, I...> const& e) { return e; } }

MON_SECTION("forms_real", 350, 6000) { forms<double, double>(c); }
MON_SECTION("forms_complex", 250, 5000) { forms<cd, cd>(c); }
MON_SECTION("forms_int_real", 250, 5000) { forms<int, double>(c); }
MON_SECTION("forms_real_int", 250, 5000) { forms<double, int>(c); }
MON_SECTION("forms_real_complex", 250, 5000) { forms<double, cd>(c); }
MON_SECTION("forms_complex_real", 250, 5000) { forms<cd, double>(c); }
MON_SECTION("forms_int_int", 250, 5000) { forms<int, int>(c); }
MON_SECTION("forms_int_long", 150, 4000) { forms<int, long>(c); }

// An expression combined with itself or with its own coefficients
template <typename S> static void self(mon::Case& c) {
  using E = EX<S>;
  auto u = uni<S>(c.r);
  E const a = leaf<S>(c.r, u);
  E const two(as<S>(C(2)));
  c.input(snap(u, a));
  auto eq = [&](E const& x, E const& y, char const* key) {
    c.ev("forms_compared");
    c.check(x == y && snap(u, x) == snap(u, y), key, [&] { return snap(u, x) + " vs " + snap(u, y); });
  };
  { E t = a; t += t; eq(t, two * a, "self_add"); E r = a + a; eq(r, t, "self_sum"); }
  { E t = a; t -= t; eq(t, E(), "self_sub"); E r = a - a; eq(r, t, "self_difference"); }
  { E t = a, copy = a; t *= t; eq(t, a * copy, "self_mul"); eq(a * a, t, "self_product"); }
  { E t = a; t = t; eq(t, a, "self_assign"); }
  { E t = a; t = t + t; eq(t, two * a, "assign_self_sum"); t = t - t; eq(t, E(), "assign_self_difference"); }
  { E t = a, cp = a; t = t * t; eq(t, cp * a, "assign_self_product"); }
  { E t = a; t = -t; eq(t, E() - a, "assign_self_neg"); }
  int i = 0;
  for(auto const& term : a) {
    S k = term.coeff;
    ++i;
    auto ref = [&](E& e) -> S const& {
      auto it = e.begin();
      for(int j = 1; j < i; ++j) ++it;
      return (*it).coeff;
    };
    { E t = a; t *= ref(t); eq(t, a * k, "mul_own_coeff"); }
    { E t = a; t += ref(t); eq(t, a + k, "add_own_coeff"); }
    { E t = a; t -= ref(t); eq(t, a - k, "sub_own_coeff"); }
    { E t = a; t = ref(t) * t; eq(t, k * a, "assign_own_coeff_mul"); }
    { E t = a; t = t + ref(t); eq(t, a + k, "assign_own_coeff_add"); }
    { E t = a; t = ref(t) - t; eq(t, k - a, "assign_own_coeff_sub"); }
    { E t = a; t *= E(ref(t), term.monomial); eq(t, a * E(k, term.monomial), "mul_own_term"); }
    { E t = a; t -= E(ref(t), term.monomial); eq(t, a - E(k, term.monomial), "sub_own_term"); }
  }
  if(a.size() > 1) c.nontrivial(c.in);
}
MON_SECTION("self_real", 400, 6000) { self<double>(c); }
MON_SECTION("self_complex", 300, 5000) { self<cd>(c); }
MON_SECTION("self_rational", 200, 4000) { self<mpq_class>(c); }
MON_SECTION("self_integer", 200, 4000) { self<int>(c); }

// Histories of copies, moves, conversions and in-place modifications on a set
// of variables, mirrored by immutable content snapshots
template <typename S> static void variables(mon::Case& c) {
  using E = EX<S>;
  auto u = uni<S>(c.r);
  struct Var { E e; std::string s; };
  std::vector<Var> v(4);
  for(auto& x : v) { x.e = leaf<S>(c.r, u); x.s = snap(u, x.e); }
  std::string log;
  int n = c.r.range(10, 25);
  for(int k = 0; k < n; ++k) {
    int i = c.r.below(4), j = c.r.below(4);
    int op = c.r.below(13);
    log += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
    S s = as<S>(coeff<S>(c.r));
    if(v[i].e.size() * v[j].e.size() > 40 && (op == 5)) op = 3;
    switch(op) {
    case 0: v[i].e = v[j].e; c.check(snap(u, v[i].e) == v[j].s, "copy_assign"); break;
    case 1: { E t(v[j].e); c.check(snap(u, t) == v[j].s, "copy"); t += s; t *= s; t -= v[i].e; t.clear(); break; }
    case 2: if(i != j) { v[i].e = std::move(v[j].e); c.check(snap(u, v[i].e) == v[j].s, "move_assign"); v[j].e = leaf<S>(c.r, u); v[j].s = snap(u, v[j].e); } break;
    case 3: v[i].e += v[j].e; break;
    case 4: v[i].e -= v[j].e; break;
    case 5: { bool ok = true; for(auto const& t : v[i].e) for(auto const& w : v[j].e) ok &= t.monomial.size() + w.monomial.size() <= 6; if(ok) v[i].e *= v[j].e; break; }
    case 6: v[i].e *= s; break;
    case 7: v[i].e += s; break;
    case 8: { E t(std::move(v[i].e)); c.check(snap(u, t) == v[i].s, "move"); v[i].e = std::move(t); c.check(snap(u, v[i].e) == v[i].s, "move_back"); break; }
    case 9: using std::swap; swap(v[i].e, v[j].e); std::swap(v[i].s, v[j].s); c.check(snap(u, v[i].e) == v[i].s, "swap"); break;
    case 10: v[i].e = conj(v[j].e); break;
    case 11: { EX<cd> z = EX<cd>(lc::expression<double, int>(v[i].e)); z *= cd(0, 1); z += cd(1, 1); z.clear(); break; }
    default: { std::vector<E> vec{v[i].e, v[j].e}; vec.push_back(vec[0]); vec.erase(vec.begin()); vec[0] += s; break; }
    }
    if(op != 9) {
      // only v[i] may have changed (v[j] was refreshed when moved from)
      v[i].s = snap(u, v[i].e);
    }
    for(int q = 0; q < 4; ++q)
      c.check(snap(u, v[q].e) == v[q].s, "variable_changed", [&] { return "x" + std::to_string(q) + " was " + v[q].s + " became " + snap(u, v[q].e); });
    c.ev("steps");
    if(v[i].e.size() > 60) { v[i].e = leaf<S>(c.r, u); v[i].s = snap(u, v[i].e); }
    // keep the magnitudes exactly representable
    for(auto const& t : v[i].e) if(abs(to_c(t.coeff).re) > 100000 || to_c(t.coeff).re.get_den() > 4096) { v[i].e = leaf<S>(c.r, u); v[i].s = snap(u, v[i].e); break; }
  }
  c.input(log);
  c.nontrivial(log);
}
MON_SECTION("variables_real", 250, 4000) { variables<double>(c); }
MON_SECTION("variables_int", 150, 3000) { variables<int>(c); }

// Conversions between scalar types keep the content and never share
template <typename From, typename To> static void conversions(mon::Case& c) {
  auto u = uni<int>(c.r);
  EX<From> a;
  for(int i = 0, n = c.r.range(0, 4); i < n; ++i)
    a += EX<From>(From(c.r.range(1, 5)), u.mono(random_word(c.r, u.model, c.r.below(4))));
  std::string s = snap(u, a);
  c.input(s);
  EX<To> b(a);
  c.check(snap(u, b) == s, "converting_constructor", [&] { return snap(u, b); });
  EX<To> d = EX<To>(To(3));
  d = a;
  c.check(snap(u, d) == s && d == b, "converting_assignment", [&] { return snap(u, d); });
  b += To(1);
  d *= To(2);
  c.check(snap(u, a) == s, "source_modified");
  a.clear();
  EX<To> e = d;
  c.check(snap(u, d) == snap(u, e), "copy_after_source_cleared");
  if(s.size()) c.nontrivial(s);
}
MON_SECTION("conversions", 400, 5000) {
  switch(c.index % 6) {
  case 0: conversions<int, double>(c); break;
  case 1: conversions<double, cd>(c); break;
  case 2: conversions<int, long>(c); break;
  case 3: conversions<int, mpq_class>(c); break;
  case 4: conversions<float, double>(c); break;
  default: conversions<long, float>(c); break;
  }
}

// Coefficients which do not commute and have zero divisors: all forms of an
// operation keep the order of the factors and drop vanishing terms
MON_SECTION("forms_matrix", 500, 8000) {
  using namespace ring;
  auto u = random_universe(c.r, 3, true);
  EM const a = random_em(c.r, u), b = random_em(c.r, u);
  c.input("a=" + mon::str(a) + " b=" + mon::str(b));
  blocks const A = split(a), B = split(b);
  std::string const sa = mon::str(a), sb = mon::str(b);
  auto eq = [&](EM const& x, blocks const& y, char const* key) {
    c.ev("forms_compared");
    c.check(split(x) == y, key, [&] { return mon::str(x); });
    c.check(!stored_zero(x), key, [&] { return "zero term in " + mon::str(x); });
    c.check(mon::str(a) == sa && mon::str(b) == sb, "operand_modified", [&] { return key; });
  };
  eq(a, A, "expression");
  eq(a + b, A + B, "sum"); eq(a - b, A - B, "difference"); eq(a * b, A * B, "product"); eq(b * a, B * A, "product_reversed");
  { EM t = a; t += b; eq(t, A + B, "sum_assign"); t = a; t -= b; eq(t, A - B, "sub_assign"); t = a; t *= b; eq(t, A * B, "mul_assign"); }
  { EM t = a; t *= t; eq(t, A * A, "self_mul"); }
  eq(-a, blocks() - A, "negation");
  eq(conj(a), adjoint(A), "conj"); eq(conj(a * b), adjoint(B) * adjoint(A), "conj_product");
  ED const d = random_leaf<double>(c.r, u).e;
  blocks D;
  D.b[0][0] = D.b[1][1] = d;
  eq(a * d, A * D, "product_mixed"); eq(d * a, D * A, "product_mixed"); eq(a + d, A + D, "sum_mixed"); eq(d + a, A + D, "sum_mixed");
  eq(a - d, A - D, "difference_mixed"); eq(d - a, D - A, "difference_mixed"); eq(EM(d), D, "conversion");
  for(int k = 0; k < 4; ++k) {
    mat const m = random_mat(c.r);
    blocks const M = split(m);
    eq(m * a, M * A, "scalar_left_mul"); eq(a * m, A * M, "scalar_right_mul"); eq(EM(m) * a, M * A, "expr_mul"); eq(a * EM(m), A * M, "scalar_expr_mul");
    { EM t = a; t *= m; eq(t, A * M, "scalar_mul_assign"); t = a; t += m; eq(t, A + M, "scalar_sum_assign"); t = a; t -= m; eq(t, A - M, "scalar_sub_assign"); }
    eq(a + m, A + M, "scalar_right_sum"); eq(m + a, M + A, "scalar_left_sum"); eq(a - m, A - M, "scalar_right_sub"); eq(m - a, M - A, "scalar_left_sub");
    eq(m * d, M * D, "scalar_left_mul_mixed"); eq(d * m, D * M, "scalar_right_mul_mixed"); eq(m + d, M + D, "scalar_left_sum_mixed"); eq(m - d, M - D, "scalar_left_sub_mixed");
    eq(d - m, D - M, "scalar_right_sub_mixed"); eq(d + m, D + M, "scalar_right_sum_mixed");
  }
  for(auto const& t : a) { // its own coefficients on either side
    mat const m = t.coeff;
    EM x = a;
    auto own = [&]() -> mat const& { for(auto const& q : x) if(q.monomial == t.monomial) return q.coeff; throw mon::skip_case{}; };
    x *= own(); eq(x, A * split(m), "mul_own_coeff");
    x = a; x = own() * x; eq(x, split(m) * A, "assign_own_coeff_mul");
  }
  if(a.size() > 1 && b.size() > 1) c.nontrivial(c.in);
}

// Products of small numbers vanish in every form or in none
template <typename S1, typename S2> static void small(mon::Case& c) {
  auto u = uni<double>(c.r);
  auto num = [&](auto z) {
    using T = decltype(z);
    double m = std::ldexp(c.r.coin() ? 1.0 : -1.0, -c.r.range(0, 40));
    if constexpr(is_cplx<T>::value) { switch(c.r.below(3)) { case 0: return T(m); case 1: return T(0, m); default: return T(m, std::ldexp(1.0, -c.r.range(0, 40))); } }
    else return T(m);
  };
  EX<S1> a;
  for(int i = 0, n = c.r.range(1, 4); i < n; ++i) a += EX<S1>(num(S1()), u.mono({random_letter(c.r, u.model, c.r.below(u.size()))}));
  if(c.r.coin()) a += num(S1());
  S2 const s = num(S2());
  EX<S2> const e(s);
  c.input(snap(u, a) + " times " + mon::str(s));
  using R = decltype(std::declval<S1>() * std::declval<S2>());
  EX<R> const ref = EX<R>(a) * EX<R>(e);
  auto eq = [&](auto const& x, char const* key) {
    c.ev("forms_compared");
    c.check(EX<R>(x) == ref, key, [&] { return snap(u, x) + " vs " + snap(u, ref); });
  };
  eq(a * e, "product"); eq(e * a, "product_reversed"); eq(a * s, "scalar_right_mul"); eq(s * a, "scalar_left_mul");
  { EX<R> t(a); t *= s; eq(t, "scalar_mul_assign"); t = a; t *= e; eq(t, "mul_assign"); t = e; t *= a; eq(t, "mul_assign_reversed"); }
  if(ref.size() && ref.size() < a.size()) c.ev("some_terms_vanish");
  if(a.size() > 1) c.nontrivial(c.in);
}
MON_SECTION("small_real", 400, 5000) { small<double, double>(c); }
MON_SECTION("small_complex", 300, 5000) { small<cd, cd>(c); }
MON_SECTION("small_real_complex", 300, 5000) { if(c.r.coin()) small<double, cd>(c); else small<cd, double>(c); }
