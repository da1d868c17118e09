// C14: parameter-dependent operators equal their evaluation.
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "ops.hpp"
#include "ring.hpp"
#include <functional>
using namespace ops;

namespace {
// An argument that shows when it has been moved from
struct Arg {
  double v;
  bool valid = true;
  std::vector<double> payload;
  explicit Arg(double x) : v(x), payload(20, x) {}
  Arg(Arg const&) = default;
  Arg(Arg&& o) noexcept : v(o.v), valid(o.valid), payload(std::move(o.payload)) { o.valid = false; o.v = 1e9; }
  Arg& operator=(Arg const&) = default;
  double get() const { return valid && payload.size() == 20 ? v : 1e9; }
};

struct Rec {
  std::vector<std::pair<double, double>> calls;
  int invalid = 0;
};
inline Rec& rec() { static Rec x; return x; }

// Polynomial in two parameters used as a coefficient type
struct Fn {
  std::map<std::pair<int, int>, double> t;
  Fn() = default;
  explicit Fn(double k) { if(k != 0) t[{0, 0}] = k; }
  static Fn var(int i, int j, double k) { Fn f; if(k != 0) f.t[{i, j}] = k; return f; }
  template <typename X> X value(X x, X y) const {
    X r(0);
    for(auto const& p : t) {
      X m(p.second);
      for(int i = 0; i < p.first.first; ++i) m *= x;
      for(int j = 0; j < p.first.second; ++j) m *= y;
      r += m;
    }
    return r;
  }
  void log(double x, double y, bool ok) const { rec().calls.emplace_back(x, y); if(!ok) ++rec().invalid; }

  double operator()() const { log(0, 0, true); return value(0., 0.); }
  double operator()(double x) const { log(x, 0, true); return value(x, 0.); }
  double operator()(double x, double y) const { log(x, y, true); return value(x, y); }
  std::complex<double> operator()(std::complex<double> x) const { log(x.real(), x.imag(), true); return value(x, std::complex<double>(0)); }
  double operator()(Arg a) const { log(a.get(), 0, a.valid); return value(a.get(), 0.); }            // takes over its argument
  double operator()(Arg a, Arg const& b) const { log(a.get(), b.get(), a.valid && b.valid); return value(a.get(), b.get()); }
  double operator()(std::vector<double> v, double y) const {
    double x = v.size() == 12 ? v[0] : 1e9;
    log(x, y, v.size() == 12);
    return value(x, y);
  }
  double operator()(std::unique_ptr<double> const& p) const { log(*p, 0, true); return value(*p, 0.); }
  double operator()(std::reference_wrapper<double> p) const { log(p.get(), 0, true); return value(p.get(), 0.); }
  int operator()(int x) const { log(x, 0, true); return int(std::lround(value(double(x), 0.))); }

  friend Fn operator+(Fn a, Fn const& b) { for(auto const& p : b.t) if((a.t[p.first] += p.second) == 0) a.t.erase(p.first); return a; }
  friend Fn operator-(Fn a, Fn const& b) { for(auto const& p : b.t) if((a.t[p.first] -= p.second) == 0) a.t.erase(p.first); return a; }
  Fn operator-() const { return Fn() - *this; }
  friend Fn operator*(Fn const& a, Fn const& b) {
    Fn r;
    for(auto const& p : a.t)
      for(auto const& q : b.t) r = r + var(p.first.first + q.first.first, p.first.second + q.first.second, p.second * q.second);
    return r;
  }
  friend Fn operator*(Fn const& a, double k) { return a * Fn(k); }
  friend Fn operator*(double k, Fn const& a) { return a * Fn(k); }
  std::string str() const {
    std::string s = "(";
    for(auto const& p : t) s += (s.size() > 1 ? "+" : "") + mon::str(p.second) + "x" + std::to_string(p.first.first) + "y" + std::to_string(p.first.second);
    return s + ")";
  }
  friend std::ostream& operator<<(std::ostream& o, Fn const& f) { return o << f.str(); }
};
using Cb = std::function<double(double, std::string)>;
// A matrix depending on a parameter
struct MFn {
  ring::mat m0, m1;
  ring::mat operator()(double x) const { return m0 + m1 * ring::mat(x); }
};
} // namespace

namespace libcommute {
template <> struct scalar_traits<Fn> {
  static bool is_zero(Fn const& f) { return f.t.empty(); }
  static Fn make_const(double x) { return Fn(x); }
  static Fn make_const(var_number const& vn) { return Fn(double(vn)); }
  static Fn conj(Fn const& f) { return f; }
};
template <> struct scalar_traits<MFn> {
  static bool is_zero(MFn const& f) { return f.m0 == ring::mat() && f.m1 == ring::mat(); }
};
template <> struct scalar_traits<Cb> {
  static bool is_zero(Cb const& f) { return !f; }
};
} // namespace libcommute

namespace {
Fn random_fn(mon::rng& r) {
  for(;;) {
    Fn f;
    int n = r.range(1, 3);
    for(int i = 0; i < n; ++i) f = f + Fn::var(r.below(3), r.below(2), double(r.range(-3, 3)));
    if(!f.t.empty()) return f;
  }
}
using E = lc::expression<Fn, int>;
using PL = lc::parametric_loperator<Fn, lc::fermion, lc::boson, lc::spin>;

E random_pexpr(mon::rng& r, ref::Universe<int> const& u, std::vector<int> const& modes, int nt) {
  E e;
  for(int t = 0; t < nt; ++t) {
    Word w;
    int len = r.below(7) ? r.range(1, 4) : 0;
    for(int i = 0; i < len; ++i) w.push_back(ref::random_letter(r, u.model, r.pick(modes)));
    e += E(random_fn(r), u.mono(w));
  }
  return e;
}

struct Ctx {
  Sys<int> s;
  std::vector<std::pair<Fn, Word>> terms;
  ld eps;
  int n;
  template <typename X> AVec want(X x, X y, std::map<u64, X> const& in) const {
    AVec out;
    for(auto const& q : in)
      for(auto const& t : terms) {
        u64 st = q.first;
        ld a = 1;
        if(!s.act(t.second, st, a)) continue;
        auto& o = out[st];
        cld k = to_cld(t.first.value(x, y)) * a * to_cld(q.second);
        o.v += k;
        o.scale += std::abs(k);
      }
    return out;
  }
  template <typename X> std::multiset<std::pair<double, double>> coeffs(X x, X y) const {
    std::multiset<std::pair<double, double>> m;
    for(auto const& t : terms) { std::complex<double> v(t.first.value(x, y)); m.insert({v.real(), v.imag()}); }
    return m;
  }
};

template <typename X> std::map<u64, X> random_in(mon::rng& r, Sys<int> const& s) {
  std::map<u64, X> in;
  int n = r.range(1, 8);
  for(int i = 0; i < n; ++i) in[s.random_state(r)] = wide_amp<X>(r);
  return in;
}
template <typename X> std::vector<X> dense(std::map<u64, X> const& in, int n) {
  std::vector<X> v(std::size_t(n), X(0));
  for(auto const& q : in) v[q.first] = q.second;
  return v;
}

// One application with the given arguments in a random form
template <typename X, typename... A>
void apply(mon::Case& c, Ctx const& k, PL const& op, std::string const& what, double x, double y, X cx, X cy, A&&... args) {
  auto& r = c.r;
  auto in = random_in<X>(r, k.s);
  auto v = dense(in, k.n);
  auto keep = v;
  auto want = k.want(cx, cy, in);
  rec().calls.clear();
  rec().invalid = 0;
  std::map<u64, cld> got;
  int form = r.below(8);
  std::string nm = what + " form " + std::to_string(form);
  c.phase(nm);
  bool spd = false;
  switch(form) {
  case 0: got = collect_raw(op(v, std::forward<A>(args)...)); break;
  case 1: {
    std::vector<X> d(std::size_t(k.n), X(77));
    op(v, d, std::forward<A>(args)...);
    got = collect_raw(d);
    break;
  }
  case 2: {
    std::vector<X> d(std::size_t(k.n), X(77));
    using ev_t = typename PL::template evaluated_coeff_t<A...>;
    std::vector<ev_t> st(std::size_t(r.below(12)), ev_t(55)); // stale content
    op.act_and_store_coeffs(v, d, st, std::forward<A>(args)...);
    got = collect_raw(d);
    std::multiset<std::pair<double, double>> m;
    for(auto const& z : st) { std::complex<double> q(z); m.insert({q.real(), q.imag()}); }
    c.check(m == k.coeffs(cx, cy), "STORED-COEFFICIENTS", [&] { return nm; });
    break;
  }
  case 3: {
    auto lop = op.at(std::forward<A>(args)...);
    std::vector<X> d(std::size_t(k.n), X(77));
    lop(v, d);
    auto copy = lop;
    auto w = copy * v;
    c.check(w == d, "AT-FORMS-DISAGREE", [&] { return nm; });
    got = collect_raw(d);
    break;
  }
  case 4: {
    lc::sparse_state_vector<X> sv{u64(k.n)};
    for(auto const& q : in) sv[q.first] = q.second;
    lc::sparse_state_vector<X> d{u64(k.n)};
    d[0] = X(9);
    if(r.coin()) op(sv, d, std::forward<A>(args)...);
    else d = op(sv, std::forward<A>(args)...);
    foreach(d, [&](u64 i, X const& a) { got[i] = to_cld(a); if(a == X(0)) c.fail("SPARSE-EXPLICIT-ZERO", nm); });
    spd = true;
    break;
  }
  case 5: {
    using V = Eigen::Matrix<X, Eigen::Dynamic, 1>;
    V e = Eigen::Map<V>(v.data(), k.n), d = V::Constant(k.n, X(3));
    if(r.coin()) op(e, d, std::forward<A>(args)...);
    else d = op(e, std::forward<A>(args)...);
    for(int i = 0; i < k.n; ++i) if(d(i) != X(0)) got[u64(i)] = to_cld(d(i));
    break;
  }
  case 6: {
    std::unordered_map<lc::sv_index_type, lc::sv_index_type> mp;
    for(int i = 0; i < k.n; ++i) mp[u64(i)] = u64(k.n - 1 - i);
    std::vector<X> a(v.rbegin(), v.rend()), b(std::size_t(k.n), X(4));
    lc::mapped_basis_view<std::vector<X>> va(a, mp), vb(b, mp);
    op(va, vb, std::forward<A>(args)...);
    for(int i = 0; i < k.n; ++i) if(b[std::size_t(k.n - 1 - i)] != X(0)) got[u64(i)] = to_cld(b[std::size_t(k.n - 1 - i)]);
    break;
  }
  default: {
    // chain: at() of a temporary copy, applied after it is gone
    auto lop = PL(op).at(std::forward<A>(args)...);
    got = collect_raw(lop(v));
  }
  }
  AVec w2;
  for(auto const& q : want) {
    if(spd && !got.count(q.first) && std::abs(q.second.v) <= 3e-14L + k.eps * q.second.scale) continue;
    w2.insert(q);
  }
  auto d = diff(w2, got, k.eps);
  c.check(d.empty(), "WRONG-AMPLITUDE", [&] { return nm + ": " + d; });
  c.check(v == keep, "SOURCE-CHANGED", [&] { return nm; });
  bool same = rec().invalid == 0 && rec().calls.size() >= k.terms.size();
  for(auto const& q : rec().calls) same = same && q == std::make_pair(x, y);
  c.check(same, "WRONG-ARGUMENTS", [&] {
    std::string o = nm + " expected (" + mon::str(x) + "," + mon::str(y) + ") calls:";
    for(auto const& q : rec().calls) o += " (" + mon::str(q.first) + "," + mon::str(q.second) + ")";
    return o;
  });
  c.ev("applications");
  c.ev("coefficient calls", rec().calls.size());
}

void history(mon::Case& c, bool exact) {
  auto& r = c.r;
  Ctx k;
  SysCfg g;
  g.max_modes = 5;
  g.max_bits = 6;
  g.max_boson = 6;
  if(exact) { g.boson = false; g.max_mult = 2; }
  k.s = random_sys(r, g);
  k.n = int(k.s.hs->vec_size());
  k.eps = exact ? ld(0) : ld(1e-13);
  std::vector<int> modes;
  for(int m = 0; m < k.s.u.size(); ++m) modes.push_back(m);
  std::unique_ptr<PL> op;
  {
    E e = random_pexpr(r, k.s.u, modes, r.range(1, 5));
    if(r.coin(0.3)) e = e * random_pexpr(r, k.s.u, modes, r.range(1, 2));
    for(auto const& t : e) k.terms.emplace_back(t.coeff, k.s.u.read(t.monomial));
    c.input(k.s.layout() + " op " + mon::str(e));
    auto hs2 = *k.s.hs;
    op.reset(new PL(e, hs2));
  } // expression and space are gone
  int steps = r.range(3, 12);
  for(int i = 0; i < steps; ++i) {
    double x = double(r.range(-3, 3)), y = double(r.range(-2, 2));
    switch(r.below(13)) {
    case 0: apply(c, k, *op, "()", 0., 0., 0., 0.); break;
    case 1: apply(c, k, *op, "(x)", x, 0., x, 0., x); break;
    case 2: apply(c, k, *op, "(x,y)", x, y, x, y, x, y); break;
    case 3: apply(c, k, *op, "(rvalues)", x, y, x, y, double(x), double(y)); break;
    case 4: {
      using Z = std::complex<double>;
      Z z(x, y);
      apply<Z>(c, k, *op, "(complex)", x, y, z, Z(0), z);
      break;
    }
    case 5: apply(c, k, *op, "(Arg&&)", x, 0., x, 0., Arg(x)); break;
    case 6: { Arg a(x); apply(c, k, *op, "(Arg&)", x, 0., x, 0., a); c.check(a.get() == x, "ARGUMENT-CHANGED"); break; }
    case 7: { Arg const a(x); Arg b(y); apply(c, k, *op, "(Arg const&,Arg&)", x, y, x, y, a, b); c.check(a.get() == x && b.get() == y, "ARGUMENT-CHANGED"); break; }
    case 8: apply(c, k, *op, "(Arg&&,Arg&&)", x, y, x, y, Arg(x), Arg(y)); break;
    case 9: apply(c, k, *op, "(vector&&,y)", x, y, x, y, std::vector<double>(12, x), y); break;
    case 10: apply(c, k, *op, "(unique_ptr&&)", x, 0., x, 0., std::unique_ptr<double>(new double(x))); break;
    case 11: { double z = x; apply(c, k, *op, "(ref)", x, 0., x, 0., std::ref(z)); break; }
    default: {
      // value semantics between applications
      switch(r.below(4)) {
      case 0: op.reset(new PL(PL(*op))); break;
      case 1: op.reset(new PL(std::move(*op))); break;
      case 2: {
        E other = random_pexpr(r, k.s.u, modes, 2);
        PL q(other, *k.s.hs);
        q = *op;
        op.reset(new PL(q));
        break;
      }
      default: {
        E other = random_pexpr(r, k.s.u, modes, 2);
        PL q(other, *k.s.hs);
        q = std::move(*op);
        op.reset(new PL(std::move(q)));
      }
      }
      c.ev("copies and moves");
    }
    }
  }
  if(!k.terms.empty()) c.nontrivial(c.in);
}
} // namespace

MON_SECTION("history", 2500, 30000) { history(c, false); }
MON_SECTION("exact-history", 2500, 30000) { history(c, true); }

// Agreement with operators of expressions evaluated first (via transform)
MON_SECTION("evaluate-first", 2500, 30000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 5;
  g.max_bits = 7;
  g.max_boson = 9;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  E e = random_pexpr(r, s.u, modes, r.range(1, 6));
  if(r.coin(0.4)) e *= random_pexpr(r, s.u, modes, 2);
  if(r.coin(0.3)) e = e + conj(e);
  double x = r.range(-3, 3), y = r.range(-3, 3);
  c.input(s.layout() + " op " + mon::str(e) + " at " + mon::str(x) + "," + mon::str(y));
  auto P = make_param_loperator(e, *s.hs);
  auto f = transform(e, [&](lc::monomial<int> const&, Fn const& k) { return k.value(x, y); });
  auto L = make_loperator(f, *s.hs);
  auto in = random_in<double>(r, s);
  auto v = dense(in, int(s.hs->vec_size()));
  auto a = P(v, x, y);
  auto b = L(v);
  auto d = P.at(x, y)(v);
  bool ok = true;
  double tol = 1e-12;
  for(std::size_t i = 0; i < a.size(); ++i)
    ok = ok && std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i])) && std::abs(a[i] - d[i]) <= tol * (1 + std::abs(b[i]));
  c.check(ok, "EVALUATION-ORDER", [&] { return mon::vstr(a) + " vs " + mon::vstr(b) + " vs " + mon::vstr(d); });
  c.ev("comparisons", a.size());
  if(e.size()) c.nontrivial(c.in);
}

// Coefficients without arithmetic: callbacks attached by transform()
MON_SECTION("callbacks", 2000, 20000) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 5;
  g.max_bits = 6;
  g.max_boson = 5;
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<double>(r, s.u, 5, 4, modes);
  c.input(s.layout() + " op " + mon::str(e));
  int calls = 0, bad = 0;
  std::string const expect(40, 'q');
  auto drop = [&](lc::monomial<int> const& m) { return m.size() == 1; }; // empty callbacks: no such term
  auto ce = transform(e, [&](lc::monomial<int> const& m, double k) {
    if(drop(m)) return Cb();
    return Cb([&calls, &bad, &expect, k, n = m.size()](double t, std::string str) {
      ++calls;
      if(str != expect) ++bad;
      return k * (t + double(n));
    });
  });
  Poly p;
  double t = r.range(-3, 5);
  std::size_t nt = 0;
  for(auto const& q : e)
    if(!drop(q.monomial)) {
      ++nt;
      p.t.push_back({ref::to_c(q.coeff) * ref::to_c(t + double(q.monomial.size())), s.u.read(q.monomial)});
    }
  c.check(ce.size() == nt, "TRANSFORM-TERMS");
  auto P = make_param_loperator(ce, *s.hs);
  auto in = random_in<double>(r, s);
  AVec ain;
  for(auto const& q : in) ain[q.first] = Amp{to_cld(q.second), std::abs(to_cld(q.second))};
  AVec want = s.act(p, ain);
  auto v = dense(in, int(s.hs->vec_size()));
  std::vector<double> d(v.size(), 5);
  for(int f = 0; f < 4; ++f) {
    calls = bad = 0;
    std::vector<double> st{1, 2, 3};
    switch(f) {
    case 0: d = P(v, t, std::string(40, 'q')); break;
    case 1: P(v, d, t, std::string(40, 'q')); break;
    case 2: P.act_and_store_coeffs(v, d, st, t, std::string(40, 'q')); c.check(st.size() == nt, "STORED-COEFFICIENTS"); break;
    default: d = P.at(t, std::string(40, 'q')) * v;
    }
    auto x = diff(want, collect_raw(d), 1e-13L);
    c.check(x.empty(), "WRONG-AMPLITUDE", [&] { return "form " + std::to_string(f) + ": " + x; });
    c.check(bad == 0, "WRONG-ARGUMENTS", [&] { return "form " + std::to_string(f); });
    c.ev("coefficient calls", u64(calls));
  }
  if(nt) c.nontrivial(c.in);
}

// Coefficients whose values do not commute
MON_SECTION("matrix coefficients", 400, 6000) {
  using namespace ring;
  SysCfg g;
  g.max_modes = 4;
  g.max_bits = 10;
  g.boson = false;
  g.max_mult = 2;
  auto s = random_sys(c.r, g);
  auto const& hs = *s.hs;
  // distinct monomials in the canonical order need no arithmetic of coefficients
  lc::expression<MFn, int> e;
  EM const shape = random_em(c.r, s.u, 4);
  for(auto const& t : shape) e.get_monomials().emplace(t.monomial, MFn{t.coeff, random_mat(c.r)});
  auto at = [&](double x) { // the expression at a parameter
    EM r;
    for(auto const& t : e) r += EM(t.coeff(x), t.monomial);
    return r;
  };
  c.input(s.layout() + " " + mon::str(shape));
  auto const op = lc::make_param_loperator(e, hs);
  std::vector<vec> v(hs.vec_size()), out(v.size());
  std::vector<mat> coeffs;
  for(int i = 0; i < 6; ++i) v[s.random_state(c.r)] = vec(c.r.range(-3, 3), c.r.range(1, 3));
  for(int i = 0; i < 3; ++i) {
    double const x = c.r.range(-2, 2);
    auto const want = lc::make_loperator(at(x), hs)(v);
    c.check(op(v, x) == want, "MATRIX-VALUE");
    c.check(op.at(x)(v) == want, "MATRIX-AT");
    op(v, out, x);
    c.check(out == want, "MATRIX-DESTINATION");
    op.act_and_store_coeffs(v, out, coeffs, x);
    bool ok = out == want && coeffs.size() == e.size();
    std::size_t n = 0;
    for(auto const& t : e) ok = ok && coeffs[n++] == t.coeff(x);
    c.check(ok, "MATRIX-STORED");
    c.ev("actions", 4);
  }
  if(e.size() > 1) c.nontrivial(c.in);
}
