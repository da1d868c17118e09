// C06: results do not depend on the scalar type; inexact constants are refused.
#include "ref.hpp"
#include <boost/rational.hpp>
namespace ref {
inline C to_c(boost::rational<int> const& x) { return C(Q(x.numerator(), x.denominator())); }
inline C to_c(boost::rational<long> const& x) { return C(Q(x.numerator(), x.denominator())); }
inline C to_c(mpf_class const& x) { return C(Q(x)); }
inline C to_c(long double x) { return C(Q(double(x))); }
inline C to_c(std::complex<long double> const& z) { return C(Q(double(z.real())), Q(double(z.imag()))); }
inline C to_c(short x) { return C(Q(x)); }
} // namespace ref
#include "lib.hpp"
#include <libcommute/scalars/boost_rational.hpp>
using namespace ref;
using cd = std::complex<double>;
namespace ref {
template <typename T> struct conv<boost::rational<T>> {
  static boost::rational<T> get(C const& c) { return boost::rational<T>(T(c.re.get_num().get_si()), T(c.re.get_den().get_si())); }
};
template <> struct conv<mpz_class> { static mpz_class get(C const& c) { return c.re.get_num(); } };
template <> struct conv<mpf_class> { static mpf_class get(C const& c) { return mpf_class(c.re.get_d()); } };
} // namespace ref

// A program: straight-line list of operations, replayed for every scalar type
struct Op { int kind, a, b; C z; };
struct Program {
  Universe<int> u;
  std::vector<Poly> leaves;
  std::vector<Op> ops;
  std::string str() const {
    std::string s;
    for(std::size_t i = 0; i < leaves.size(); ++i) s += "x" + std::to_string(i) + "=" + u.model.show(leaves[i]) + "| ";
    for(auto const& o : ops) s += std::string("op") + std::to_string(o.kind) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + "," + o.z.str() + ") ";
    return s;
  }
};
static Program random_prog(mon::rng& r, bool integer) {
  Program p;
  for(;;) {
    p.u = random_universe(r, 3, true, 300);
    bool ok = true;
    if(integer) for(auto const& m : p.u.model.modes) ok &= !(m.alg == SPIN && m.mult == 2);
    if(ok) break;
  }
  auto co = [&] { return integer ? C(Q(r.coin() ? r.range(1, 3) : -r.range(1, 3))) : random_coeff<double>(r); };
  int nl = r.range(2, 3);
  for(int i = 0; i < nl; ++i) {
    Poly x;
    for(int k = 0, n = r.range(1, 3); k < n; ++k) x = x + Poly(co(), random_word(r, p.u.model, r.below(4)));
    p.leaves.push_back(x);
  }
  int no = r.range(2, 5), sz = nl;
  for(int i = 0; i < no; ++i) p.ops.push_back({r.below(12), r.below(sz), r.below(sz), r.coin(0.15) ? C(0) : co()}), ++sz;
  return p;
}
template <typename S> static std::vector<Poly> run(Program const& p, bool& too_big) {
  using E = lc::expression<S, int>;
  std::vector<E> v;
  for(auto const& l : p.leaves) {
    E e;
    for(auto const& t : l.t) e += E(as<S>(t.first), p.u.mono(t.second));
    v.push_back(e);
  }
  auto deg = [](E const& e) { std::size_t d = 0; for(auto const& t : e) d = std::max(d, t.monomial.size()); return d; };
  for(auto const& o : p.ops) {
    E const &a = v[o.a], &b = v[o.b];
    S z = as<S>(o.z);
    E r;
    int k = o.kind;
    if(k <= 2 && (a.size() * b.size() > 30 || deg(a) + deg(b) > 6)) k = 3;
    switch(k) {
    case 0: case 1: r = a * b; break;
    case 2: r = a; r *= b; break;
    case 3: r = a + b; break;
    case 4: r = a - b; break;
    case 5: r = -a; break;
    case 6: r = z * a; break;
    case 7: r = a * z; r += b; break;
    case 8: r = a + z; break;
    case 9: r = z - a; break;
    case 10: r = conj(a); break;
    default: r = a; r -= z; r *= z; r -= b; break;
    }
    v.push_back(r);
  }
  std::vector<Poly> out;
  for(auto const& e : v) out.push_back(p.u.read(e));
  (void)too_big;
  return out;
}
static bool same(Poly const& a, Poly const& b) {
  if(a.t.size() != b.t.size()) return false;
  for(std::size_t i = 0; i < a.t.size(); ++i)
    if(!(a.t[i].second == b.t[i].second) || a.t[i].first != b.t[i].first) return false;
  return true;
}
template <typename S> static void compare(mon::Case& c, Program const& p, std::vector<Poly> const& ref, char const* key) {
  bool tb = false;
  c.phase(key);
  auto got = run<S>(p, tb);
  c.ev(key);
  for(std::size_t i = 0; i < ref.size(); ++i)
    if(!c.check(same(got[i], ref[i]), key, [&] { return "variable " + std::to_string(i) + ": " + p.u.model.show(got[i]) + " vs exact " + p.u.model.show(ref[i]); })) break;
}
static void all_types(mon::Case& c, bool integer) {
  Program p = random_prog(c.r, integer);
  c.input(p.str());
  bool tb = false;
  auto ref = run<mpq_class>(p, tb);
  double big = 0;
  mpz_class den = 1;
  for(auto const& q : ref) for(auto const& t : q.t) { big = std::max(big, std::abs(t.first.re.get_d())); if(t.first.re.get_den() > den) den = t.first.re.get_den(); }
  double bits = std::log2(big + 1) + std::log2(den.get_d());
  if(bits > 40) throw mon::skip_case{};
  // for sanity the reference itself must denote the right operator
  std::size_t nprod = 0;
  for(auto const& o : p.ops) nprod += o.kind <= 2;
  compare<double>(c, p, ref, "double");
  compare<cd>(c, p, ref, "complex_double");
  compare<long double>(c, p, ref, "long_double");
  compare<mpf_class>(c, p, ref, "mpf_class");
  if(bits < 18 && den < 4096) {
    compare<float>(c, p, ref, "float");
    compare<std::complex<float>>(c, p, ref, "complex_float");
  }
  if(bits < 18) compare<boost::rational<int>>(c, p, ref, "boost_rational_int");
  if(bits < 40) compare<boost::rational<long>>(c, p, ref, "boost_rational_long");
  if(integer) {
    if(bits < 24) compare<int>(c, p, ref, "int");
    compare<long>(c, p, ref, "long");
    compare<mpz_class>(c, p, ref, "mpz_class");
  }
  if(nprod) c.nontrivial(c.in);
}
MON_SECTION("fractional", 400, 8000) { all_types(c, false); }
MON_SECTION("integral", 400, 8000) { all_types(c, true); }

// Integer types refuse fractional constants, or give the exact result
template <typename S> static void refusal(mon::Case& c, char const* key) {
  using E = lc::expression<S, int>;
  Universe<int> u;
  u.add({FERMION}, {0}); u.add({BOSON}, {1}); u.add({SPIN, 2}, {0}); u.add({SPIN, 2}, {1}); u.add({SPIN, 3}, {0});
  auto lf = [&] {
    Poly x;
    for(int k = 0, n = c.r.range(1, 3); k < n; ++k) x = x + Poly(C(Q(c.r.range(1, 3) * (c.r.coin() ? 1 : -1))), random_word(c.r, u.model, c.r.below(4)));
    return x;
  };
  Poly pa = lf(), pb = lf();
  c.input("a=" + u.model.show(pa) + " b=" + u.model.show(pb));
  auto build = [&](auto tag, Poly const& p) {
    using T = decltype(tag);
    lc::expression<T, int> e;
    for(auto const& t : p.t) e += lc::expression<T, int>(as<T>(t.first), u.mono(t.second));
    return e;
  };
  E a, b;
  try { a = build(S(), pa); b = build(S(), pb); }
  catch(std::runtime_error const&) { c.ev("refused_in_constructor"); a = E(S(1), u.mono({{2, c.r.below(3)}})) + E(S(2), u.mono({{0, 1}})); b = E(S(1), u.mono({{2, c.r.below(3)}})) - E(S(3)); }
  E const a0 = a, b0 = b;
  // exact values of the very same operands
  auto lift = [&](E const& e) { lc::expression<mpq_class, int> x; for(auto const& t : e) x += lc::expression<mpq_class, int>(to_c(t.coeff).re, t.monomial); return x; };
  auto qa = lift(a), qb = lift(b);
  auto exact = qa * qb;
  bool threw = false;
  E r;
  try { r = a * b; } catch(std::runtime_error const& ex) { threw = true; c.check(std::string(ex.what()).size() > 0, "empty_message"); }
  if(!threw) { c.ev("exact"); c.check(same(u.read(r), u.read(exact)), key, [&] { return u.model.show(u.read(r)) + " vs exact " + u.model.show(u.read(exact)); }); }
  else c.ev("refused");
  c.check(a == a0 && b == b0, "operands_changed");
  bool threw2 = false;
  E t = a;
  try { t *= b; } catch(std::runtime_error const&) { threw2 = true; }
  c.check(threw == threw2, "forms_disagree");
  if(threw2) c.check(t == a0, "target_changed", [&] { return u.model.show(u.read(t)); });
  // the target stays usable
  t += b; t -= b;
  c.check(threw2 ? t == a0 : t == r, "target_unusable");
  t = t + S(1);
  c.check(u.canonical(t).empty(), "target_not_canonical");
  if(threw || u.read(exact).t.size() > 1) c.nontrivial(c.in);
}
MON_SECTION("refusal_int", 300, 5000) { refusal<int>(c, "wrong_int"); }
MON_SECTION("refusal_long", 200, 4000) { refusal<long>(c, "wrong_long"); }
MON_SECTION("refusal_mpz", 200, 4000) { refusal<mpz_class>(c, "wrong_mpz"); }

// Every spin-1/2 product whose relation needs a fraction must be refused
MON_SECTION("must_refuse", 9, 9) {
  Universe<int> u;
  u.add({SPIN, 2}, {3});
  int k1 = int(c.index) / 3, k2 = int(c.index) % 3;
  c.input(u.model.show(Word{{0, k1}, {0, k2}}));
  bool must = !(k1 == k2 && k1 != 2); // (S+)^2 = (S-)^2 = 0
  auto test = [&](auto tag, char const* key) {
    using T = decltype(tag);
    using E = lc::expression<T, int>;
    E a(T(1), u.mono({{0, k1}})), b(T(1), u.mono({{0, k2}}));
    auto attempt = [&](auto&& f) { try { f(); return false; } catch(std::runtime_error const&) { return true; } };
    c.ev("products");
    c.check(attempt([&] { (void)(a * b); }) == must, key, [&] { return "a*b"; });
    c.check(attempt([&] { E t = a; t *= b; }) == must, key, [&] { return "a*=b"; });
    c.check(attempt([&] { E t(T(1), u.mono({{0, k1}, {0, k2}})); }) == must, key, [&] { return "monomial"; });
    c.check(attempt([&] { E t(T(0), u.mono({{0, k1}, {0, k2}})); }) == false, key, [&] { return "zero coefficient"; });
  };
  test(int(), "int"); test(long(), "long"); test(short(), "short"); test(mpz_class(), "mpz");
  auto ok = [&](auto tag, char const* key) {
    using T = decltype(tag);
    using E = lc::expression<T, int>;
    E e(T(4), u.mono({{0, k1}, {0, k2}}));
    std::string d = u.model.diff(u.read(e), Poly(C(4), {{0, k1}, {0, k2}}));
    c.check(d.empty(), key, [&] { return d; });
  };
  ok(double(), "double"); ok(float(), "float"); ok((long double)0, "long_double"); ok(cd(), "complex"); ok(boost::rational<int>(), "rational"); ok(mpq_class(), "mpq"); ok(mpf_class(), "mpf");
  c.nontrivial(c.in);
}

// Conversion of constants
struct constants {
  template <typename S> static void exact(mon::Case& c, C const& want, lc::var_number const& v, char const* key) {
    C got = to_c(lc::scalar_traits<S>::make_const(v));
    c.ev("constants");
    c.check(got == want, key, [&] { return got.str() + " vs " + want.str(); });
  }
  template <typename S> static void refused(mon::Case& c, lc::var_number const& v, char const* key) {
    c.ev("constants");
    try { auto x = lc::scalar_traits<S>::make_const(v); c.fail(key, "accepted " + mon::str(v) + " as " + to_c(x).str()); }
    catch(std::runtime_error const&) {}
  }
  template <typename S> static void refused_d(mon::Case& c, double v, char const* key) {
    c.ev("constants");
    try { auto x = lc::scalar_traits<S>::make_const(v); c.fail(key, "accepted " + mon::str(v) + " as " + to_c(x).str()); }
    catch(std::runtime_error const&) {}
  }
  template <typename S> static void exact_d(mon::Case& c, double v, char const* key) {
    c.ev("constants");
    C got = to_c(lc::scalar_traits<S>::make_const(v));
    c.check(got == to_c(v), key, [&] { return got.str() + " vs " + mon::str(v); });
  }
};
MON_SECTION("constants", 300, 5000) {
  int i = c.r.range(-30000, 30000);
  lc::var_number vi(i);
  C wi{Q(i)};
  c.input("integer " + std::to_string(i));
  constants::exact<int>(c, wi, vi, "int"); constants::exact<long>(c, wi, vi, "long"); constants::exact<short>(c, wi, vi, "short");
  constants::exact<double>(c, wi, vi, "double"); constants::exact<float>(c, wi, vi, "float"); constants::exact<cd>(c, wi, vi, "complex");
  constants::exact<boost::rational<int>>(c, wi, vi, "rational"); constants::exact<mpz_class>(c, wi, vi, "mpz"); constants::exact<mpq_class>(c, wi, vi, "mpq"); constants::exact<mpf_class>(c, wi, vi, "mpf");
  int num = c.r.range(-60, 60), den = 1 << c.r.range(1, 6);
  if(num % 2 == 0) ++num;
  int mul = c.r.coin(0.3) ? c.r.range(2, 3) : 1;
  lc::var_number vr(num * mul, den * mul);
  Q qr(num, den); qr.canonicalize();
  C wr{qr};
  constants::refused<int>(c, vr, "int_fraction"); constants::refused<long>(c, vr, "long_fraction"); constants::refused<mpz_class>(c, vr, "mpz_fraction");
  constants::exact<double>(c, wr, vr, "double_fraction"); constants::exact<float>(c, wr, vr, "float_fraction"); constants::exact<cd>(c, wr, vr, "complex_fraction");
  constants::exact<boost::rational<int>>(c, wr, vr, "rational_fraction"); constants::exact<mpq_class>(c, wr, vr, "mpq_fraction"); constants::exact<mpf_class>(c, wr, vr, "mpf_fraction");
  { auto q = lc::scalar_traits<mpq_class>::make_const(vr); mpq_class z = q; z.canonicalize(); c.check(q == z && q.get_den() == z.get_den(), "mpq_not_canonical"); }
  // fractions which are not dyadic: exact where the type can hold them, else correctly rounded
  {
    int n = c.r.coin() ? c.r.range(-50, 50) : c.r.range(-1000000000, 1000000000), m = c.r.coin() ? c.r.range(2, 60) : c.r.range(2, 2000000000);
    lc::var_number v(n, m);
    Q q(n, m); q.canonicalize();
    C w{q};
    auto near = [&](cd x, double eps, char const* key) {
      c.ev("constants");
      c.check(std::abs(Q(Q(x.real()) - q).get_d()) <= eps * std::abs(q.get_d()) && x.imag() == 0, key, [&] { return mon::str(n) + "/" + mon::str(m) + " became " + mon::str(x); });
    };
    near(double(v), 2.3e-16, "conversion_to_double");
    near(lc::scalar_traits<double>::make_const(v), 2.3e-16, "double_rounded");
    near(double(lc::scalar_traits<long double>::make_const(v)), 2.3e-16, "long_double_rounded");
    near(lc::scalar_traits<float>::make_const(v), 1.2e-7, "float_rounded");
    near(lc::scalar_traits<cd>::make_const(v), 2.3e-16, "complex_rounded");
    near(lc::scalar_traits<mpf_class>::make_const(v).get_d(), 2.3e-16, "mpf_rounded");
    constants::exact<mpq_class>(c, w, v, "mpq_any_fraction");
    constants::exact<boost::rational<int>>(c, w, v, "rational_any_fraction");
    if(n % m) constants::refused<int>(c, v, "int_any_fraction"), constants::refused<mpz_class>(c, v, "mpz_any_fraction");
  }
  double d = double(num) / den;
  lc::var_number vd(d);
  { // numbers of one kind are equal when their parts are
    int i2 = c.r.coin() ? i : i + c.r.range(-1, 1), num2 = c.r.coin() ? num * mul : num * mul + 2, den2 = c.r.coin() ? den * mul : den * mul * 2;
    double d2 = c.r.coin() ? d : d + std::ldexp(1.0, -c.r.range(3, 40));
    std::vector<std::pair<lc::var_number, std::vector<double>>> v{{vi, {0, double(i)}}, {lc::var_number(i2), {0, double(i2)}},
      {vr, {1, double(num * mul), double(den * mul)}}, {lc::var_number(num2, den2), {1, double(num2), double(den2)}}, {vd, {2, d}}, {lc::var_number(d2), {2, d2}}};
    for(auto const& a : v)
      for(auto const& b : v) {
        if(a.second[0] != b.second[0]) continue;
        c.ev("comparisons of constants");
        c.check((a.first == b.first) == (a.second == b.second) && (a.first != b.first) == (a.second != b.second), "var_number_comparison",
                [&] { return mon::str(a.first) + " and " + mon::str(b.first); });
      }
    for(auto const& a : v) {
      bool z = a.second[1] == 0;
      c.check(a.first.is_zero() == z, "var_number_zero", [&] { return mon::str(a.first); });
    }
  }
  constants::refused<int>(c, vd, "int_real"); constants::refused<mpz_class>(c, vd, "mpz_real"); constants::refused<mpq_class>(c, vd, "mpq_real"); constants::refused<boost::rational<int>>(c, vd, "rational_real");
  constants::exact<double>(c, to_c(d), vd, "double_real"); constants::exact<cd>(c, to_c(d), vd, "complex_real"); constants::exact<float>(c, to_c(d), vd, "float_real"); constants::exact<mpf_class>(c, to_c(d), vd, "mpf_real");
  constants::refused_d<int>(c, d, "int_double"); constants::refused_d<long>(c, d, "long_double"); constants::refused_d<mpz_class>(c, d, "mpz_double"); constants::refused_d<mpq_class>(c, d, "mpq_double"); constants::refused_d<boost::rational<int>>(c, d, "rational_double");
  double tiny = i + std::ldexp(c.r.coin() ? 1.0 : -1.0, -c.r.range(8, 30));
  constants::refused_d<int>(c, tiny, "int_almost"); constants::refused_d<mpz_class>(c, tiny, "mpz_almost"); constants::refused_d<mpq_class>(c, tiny, "mpq_almost"); constants::refused_d<boost::rational<int>>(c, tiny, "rational_almost"); constants::refused_d<long>(c, tiny, "long_almost");
  constants::exact_d<int>(c, i, "int_integral"); constants::exact_d<long>(c, i, "long_integral"); constants::exact_d<mpz_class>(c, i, "mpz_integral"); constants::exact_d<mpq_class>(c, i, "mpq_integral"); constants::exact_d<boost::rational<int>>(c, i, "rational_integral"); constants::exact_d<double>(c, d, "double_d"); constants::exact_d<cd>(c, d, "complex_d"); constants::exact_d<mpf_class>(c, d, "mpf_d");
  // large integers, as high powers of spin projections
  double big = std::ldexp(double(c.r.next() >> 11), -c.r.below(53));
  big = std::floor(big) * (c.r.coin() ? 1 : -1);
  constants::exact_d<long>(c, big, "long_big"); constants::exact_d<long long>(c, big, "longlong_big"); constants::exact_d<mpz_class>(c, big, "mpz_big"); constants::exact_d<mpq_class>(c, big, "mpq_big"); constants::exact_d<boost::rational<long>>(c, big, "rational_big"); constants::exact_d<double>(c, big, "double_big"); constants::exact_d<cd>(c, big, "complex_big"); constants::exact_d<mpf_class>(c, big, "mpf_big"); constants::exact_d<long double>(c, big, "longdouble_big");
  big = std::ldexp(double(c.r.next() >> 11), c.r.range(0, 300));
  constants::exact_d<mpz_class>(c, big, "mpz_huge"); constants::exact_d<mpq_class>(c, big, "mpq_huge"); constants::exact_d<mpf_class>(c, big, "mpf_huge");
  c.nontrivial(c.in + mon::str(vr));
}
