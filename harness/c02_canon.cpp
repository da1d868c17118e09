// C02: the canonical form is unique.
#include "lib.hpp"
using namespace ref;
using cd = std::complex<double>;

// For spins above 1/2 uniqueness is only claimed while fewer than 2S+1 raising
// and lowering operators are multiplied together.
static bool in_scope(Model const& m, Poly const& p) {
  for(auto const& t : p.t) {
    std::map<std::pair<int, int>, int> n;
    for(auto l : t.second)
      if(m.modes[l.mode].alg == SPIN && m.modes[l.mode].mult > 2 && l.kind != 2 &&
         ++n[{l.mode, l.kind}] >= m.modes[l.mode].mult)
        return false;
  }
  return true;
}
static bool has_big_spin(Model const& m) {
  for(auto const& x : m.modes) if(x.alg == SPIN && x.mult > 2) return true;
  return false;
}
template <typename S, typename... I>
static void canon(mon::Case& c, Universe<I...> const& u, lc::expression<S, I...> const& e, char const* key) {
  std::string s = u.canonical(e);
  // the sequence of terms read backwards
  auto it = e.end();
  auto jt = e.get_monomials().end();
  while(jt != e.get_monomials().begin()) {
    --jt;
    bool post = jt->first.size() % 2;
    if(post) it--; else --it;
    if(&(*it).monomial != &jt->first || &it->coeff != &jt->second) { s += "backward iteration; "; break; }
  }
  if(s.empty() && it != e.begin()) s += "backward iteration does not end at the beginning; ";
  c.ev("terms_monitored", e.size());
  c.check(s.empty(), key, [&] { return s + " in " + u.model.show(u.read(e)); });
}
template <typename S, typename... I>
static void same(mon::Case& c, Universe<I...> const& u, lc::expression<S, I...> const& a,
                 lc::expression<S, I...> const& b, char const* key) {
  bool eq = (a == b), ne = (a != b), eq2 = (b == a);
  c.ev("equality_tests");
  c.check(eq && !ne && eq2, key, [&] {
    return "eq=" + std::to_string(eq) + " ne=" + std::to_string(ne) + " first " + u.model.show(u.read(a)) + " second " +
           u.model.show(u.read(b));
  });
}

// Multiply the letters of a word together with a random parenthesisation
template <typename E, typename S, typename... I>
static E tree(mon::rng& r, Universe<I...> const& u, Word const& w, S one) {
  if(w.empty()) return E(one);
  if(w.size() == 1 || r.coin(0.15)) return E(one, u.mono(w));
  std::size_t k = std::size_t(r.range(1, int(w.size()) - 1));
  E a = tree<E>(r, u, Word(w.begin(), w.begin() + k), one), b = tree<E>(r, u, Word(w.begin() + k, w.end()), one);
  if(r.coin()) return a * b;
  a *= b;
  return a;
}

template <typename S> static Universe<int> universe_for(mon::rng& r) { return random_universe(r, 4); }
template <> Universe<int> universe_for<long>(mon::rng& r) {
  for(;;) {
    auto u = random_universe(r, 4);
    bool ok = true;
    for(auto const& m : u.model.modes) ok &= !(m.alg == SPIN && m.mult == 2);
    if(ok) return u;
  }
}
template <typename S> static C coeff_for(mon::rng& r) { return random_coeff<S>(r); }
template <> C coeff_for<long>(mon::rng& r) { return C(Q(r.coin() ? r.range(1, 5) : -r.range(1, 5))); }

// The same set of words accumulated in different orders and associations
template <typename S> static void histories(mon::Case& c) {
  using E = lc::expression<S, int>;
  auto u = universe_for<S>(c.r);
  Poly p;
  int nt = c.r.range(1, 5);
  for(int i = 0; i < nt; ++i) {
    Word w = random_word(c.r, u.model, c.r.range(0, 6));
    p = p + Poly(coeff_for<S>(c.r), w);
    if(c.r.coin(0.3)) { // a reordering of the same letters, often cancelling
      Word v = w;
      c.r.shuffle(v);
      p = p + Poly(C(0) - p.t.back().first, v);
    }
  }
  c.input(u.model.show(p));
  if(!in_scope(u.model, p)) throw mon::skip_case{};
  auto build = [&](bool shuffled) {
    E e;
    std::vector<int> o;
    for(int i = 0; i < int(p.t.size()); ++i) o.push_back(i);
    if(shuffled) c.r.shuffle(o);
    E extra;
    for(int i : o) {
      auto const& t = p.t[i];
      S k = as<S>(t.first);
      E x = tree<E>(c.r, u, t.second, as<S>(C(1)));
      canon(c, u, x, "product_not_canonical");
      switch(c.r.below(5)) {
      case 0: e += k * x; break;
      case 1: e = e + x * k; break;
      case 2: x *= k; e = x + e; break;
      case 3: e -= E(-(k * x)); break;
      default: { // distribute over a split coefficient
        E y = E(k) * x + E(k, u.mono(t.second));
        e += y;
        e = e - E(k, u.mono(t.second));
      }
      }
      canon(c, u, e, "sum_not_canonical");
    }
    return e;
  };
  E e1 = build(false), e2 = build(true), e3 = build(true);
  same(c, u, e1, e2, "histories_differ");
  same(c, u, e2, e3, "histories_differ");
  E z = e1 - e2;
  c.check(z == E() && z.size() == 0, "difference_not_empty", [&] { return u.model.show(u.read(z)); });
  c.nontrivial(c.in);
}
MON_SECTION("histories_real", 900, 20000) { histories<double>(c); }
MON_SECTION("histories_complex", 400, 8000) { histories<cd>(c); }
MON_SECTION("histories_rational", 300, 6000) { histories<mpq_class>(c); }
MON_SECTION("histories_integer", 300, 6000) { histories<long>(c); }

// Ring identities on random expressions
MON_SECTION("identities", 700, 15000) {
  using E = lc::expression<double, int>;
  auto u = random_universe(c.r, 3);
  auto x = random_leaf<double>(c.r, u, 2, 2), y = random_leaf<double>(c.r, u, 2, 2), z = random_leaf<double>(c.r, u, 2, 2);
  c.input("x=" + u.model.show(x.p) + " y=" + u.model.show(y.p) + " z=" + u.model.show(z.p));
  if(!in_scope(u.model, x.p * y.p * z.p)) throw mon::skip_case{};
  E const &a = x.e, &b = y.e, &d = z.e;
  same(c, u, E((a * b) * d), E(a * (b * d)), "associativity");
  same(c, u, E((a + b) * d), E(a * d + b * d), "left_distributivity");
  same(c, u, E(d * (a - b)), E(d * a - d * b), "right_distributivity");
  same(c, u, E((a + b) + d), E(d + (b + a)), "additive_commutativity");
  auto com = [](E const& p, E const& q) { return E(p * q - q * p); };
  E jac = com(a, com(b, d)) + com(b, com(d, a)) + com(d, com(a, b));
  c.check(jac == E() && jac.size() == 0, "jacobi", [&] { return u.model.show(u.read(jac)); });
  E l = com(a, b * d), rr = com(a, b) * d + b * com(a, d);
  same(c, u, l, rr, "leibniz");
  canon(c, u, l, "not_canonical");
  if(x.p.max_len() + y.p.max_len() + z.p.max_len() >= 3) c.nontrivial(c.in);
}

// Random pairs: equality of expressions == equality of operators
MON_SECTION("pairs", 1500, 30000) {
  using E = lc::expression<double, int>;
  auto u = random_universe(c.r, 3, c.r.coin(0.3));
  Word w = random_word(c.r, u.model, c.r.range(1, 5));
  C k = random_coeff<double>(c.r);
  Poly p(k, w), q = p;
  if(c.r.coin(0.5)) { Word v = random_word(c.r, u.model, c.r.range(1, 3)); C l = random_coeff<double>(c.r); p = p + Poly(l, v); q = q + Poly(l, v); }
  auto& t = q.t[c.r.below(int(q.t.size()))];
  switch(c.r.below(6)) {
  case 0: t.first += random_coeff<double>(c.r); break;
  case 1: if(t.second.size() > 1) { int i = c.r.below(int(t.second.size()) - 1); std::swap(t.second[i], t.second[i + 1]); } break;
  case 2: { auto& l = t.second[c.r.below(int(t.second.size()))]; l = random_letter(c.r, u.model, l.mode); } break;
  case 3: { auto& l = t.second[c.r.below(int(t.second.size()))]; l = random_letter(c.r, u.model, c.r.below(u.size())); } break;
  case 4: t.second.push_back(t.second.back()); break;
  default: c.r.shuffle(t.second); break;
  }
  c.input("p=" + u.model.show(p) + " q=" + u.model.show(q));
  auto build = [&](Poly const& x) {
    E e;
    for(auto const& s : x.t) e += E(as<double>(s.first), u.mono(s.second));
    return e;
  };
  E e1 = build(p), e2 = build(q);
  canon(c, u, e1, "not_canonical");
  canon(c, u, e2, "not_canonical");
  std::size_t n = 0;
  bool op_eq = u.model.diff(p, q, &n).empty();
  c.ev("operator_actions", n);
  c.ev(op_eq ? "equal_operators" : "different_operators");
  if(!op_eq) c.check(e1 != e2 && !(e1 == e2), "different_operators_compare_equal", [&] { return u.model.show(u.read(e1)); });
  else if(!has_big_spin(u.model)) same(c, u, e1, e2, "equal_operators_compare_different");
  if(p.max_len() > 1) c.nontrivial(c.in);
}

// Vanishing results store nothing
template <typename S> static void zeros(mon::Case& c) {
  using E = lc::expression<S, int>;
  auto u = universe_for<S>(c.r);
  Word w = random_word(c.r, u.model, c.r.range(0, 4));
  auto leaf = [&] {
    E e;
    for(int i = 0, n = c.r.range(0, 3); i < n; ++i)
      e += E(as<S>(coeff_for<S>(c.r)), u.mono(random_word(c.r, u.model, c.r.below(3))));
    return e;
  };
  E x = leaf();
  c.input("word " + u.model.show(w) + " x=" + u.model.show(u.read(x)));
  S z = as<S>(C(0)), k = as<S>(coeff_for<S>(c.r));
  auto empty = [&](E const& e, char const* key) {
    c.check(e.size() == 0 && e == E() && e.begin() == e.end() && !(e != E()), key,
            [&] { return u.model.show(u.read(e)); });
    canon(c, u, e, key);
  };
  auto same_as_x = [&](E const& e, char const* key) { same(c, u, e, x, key); canon(c, u, e, key); };
  empty(E(z), "zero_constant");
  empty(E(z, u.mono(w)), "zero_monomial");
  empty(x * z, "times_zero");
  empty(z * x, "zero_times");
  { E e = x; e *= z; empty(e, "times_assign_zero"); }
  { E e = x; e *= E(); empty(e, "times_assign_empty"); }
  empty(E(x * E()), "times_empty");
  empty(E(E() * x), "empty_times");
  empty(E(x - x), "minus_itself");
  empty(E(x + (-x)), "plus_negated");
  { E e = x; e -= E(x); empty(e, "minus_assign"); }
  { E e = x; e += E(-x); empty(e, "plus_assign"); }
  same_as_x(x + z, "plus_zero");
  same_as_x(z + x, "zero_plus");
  same_as_x(x - z, "minus_zero");
  same_as_x(-(z - x), "zero_minus");
  { E e = x; e += z; same_as_x(e, "plus_assign_zero"); }
  { E e = x; e -= z; same_as_x(e, "minus_assign_zero"); }
  same_as_x((x + k) - k, "constant_cancel");
  same_as_x((k + x) - k, "constant_cancel");
  same_as_x(-((k - x) - k), "constant_cancel");
  { E e = x; e += k; e -= k; same_as_x(e, "constant_cancel_assign"); }
  { E e = x; e -= k; canon(c, u, e, "minus_assign"); e += k; same_as_x(e, "constant_cancel_assign"); }
  { // cancel an existing constant exactly
    S k0 = z;
    for(auto const& t : x) if(t.monomial.empty()) k0 = t.coeff;
    S mk0(-k0);
    canon(c, u, E(x - k0), "cancel_const"); canon(c, u, E(k0 - x), "cancel_const"); canon(c, u, E(mk0 + x), "cancel_const");
    canon(c, u, E(x + mk0), "cancel_const");
    E e = x; e -= k0; canon(c, u, e, "cancel_const");
    E f = x; f += mk0; canon(c, u, f, "cancel_const"); same(c, u, e, f, "cancel_const");
    same(c, u, E(x - k0), e, "cancel_const"); same(c, u, E(-(k0 - x)), e, "cancel_const"); same(c, u, E(mk0 + x), e, "cancel_const");
  }
  { E e = x; e.clear(); empty(e, "clear"); }
  // transform() drops vanishing images
  int keep = c.r.range(0, 2);
  auto tr = transform(x, [&](typename E::monomial_t const& m, S const& v) { return int(m.size()) == keep ? v : S(z); });
  E ref_tr;
  for(auto const& t : x) if(int(t.monomial.size()) == keep) ref_tr += E(t.coeff, t.monomial);
  same(c, u, tr, ref_tr, "transform");
  canon(c, u, tr, "transform");
  c.nontrivial(c.in);
}
MON_SECTION("zeros_real", 400, 6000) { zeros<double>(c); }
MON_SECTION("zeros_complex", 250, 4000) { zeros<cd>(c); }
MON_SECTION("zeros_rational", 250, 4000) { zeros<mpq_class>(c); }
MON_SECTION("zeros_integer", 250, 4000) { zeros<long>(c); }

// Mixed scalar types: results of operations on different scalar types
MON_SECTION("mixed_scalars", 400, 6000) {
  auto u = random_universe(c.r, 3, false);
  auto x = random_leaf<double>(c.r, u, 3, 2);
  auto y = random_leaf<cd>(c.r, u, 3, 2);
  c.input("x=" + u.model.show(x.p) + " y=" + u.model.show(y.p));
  using E = lc::expression<cd, int>;
  E xc(x.e);
  same(c, u, E(x.e + y.e), E(xc + y.e), "sum");
  same(c, u, E(y.e + x.e), E(xc + y.e), "sum");
  same(c, u, E(x.e - y.e), E(xc - y.e), "difference");
  same(c, u, E(y.e - x.e), E(y.e - xc), "difference");
  same(c, u, E(x.e * y.e), E(xc * y.e), "product");
  same(c, u, E(y.e * x.e), E(y.e * xc), "product");
  for(auto const* e : {&y.e, &xc}) canon(c, u, *e, "operand");
  canon(c, u, E(x.e - xc), "self_difference");
  c.check(E(x.e - xc).size() == 0 && E(xc - x.e).size() == 0, "self_difference_not_empty");
  canon(c, u, E(x.e + y.e), "sum"); canon(c, u, E(x.e - y.e), "difference"); canon(c, u, E(x.e * y.e), "product");
  c.nontrivial(c.in);
}
