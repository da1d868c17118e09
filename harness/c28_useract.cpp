// C28: linear operators of user-defined algebras. The user supplies elementary
// spaces, their constructors and the action of monomials; operators mixing them
// with fermions, bosons and spins are compared with the successive action of
// the raw words, and the calls made to the user's code are watched.
#include "lib.hpp"
#include "hs.hpp"
#include "part.hpp"

#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>

using mon::u64;
using ld = long double;
using CL = std::complex<long double>;

namespace {

// What the library asked of the user's code during the current case
struct Watch {
  u64 ctor0 = 0, ctor4 = 0, act0 = 0, act4 = 0, made0 = 0, made4 = 0;
  u64 mask = 0; // bits that may be set in an index passed to act()
  std::string bad;
} W;
int scale = 1; // matrix units are scaled by (1 << a*(scale-1)) / (1 << b*(scale-1))

enum { UNIT = 0, CLIFF = 4 };

// Matrix units of a multilevel site: Y_ab = 2^(a-b) |a><b|
template <typename... I> struct gunit : lc::generator<I...> {
  using base = lc::generator<I...>;
  using lf_t = typename base::linear_function_t;
  int a, b;
  gunit(int a_, int b_, std::tuple<I...> const& i) : base(i), a(a_), b(b_) {}
  int algebra_id() const override { return UNIT; }
  lc::var_number swap_with(base const& g, lf_t& f) const override {
    auto const& o = dynamic_cast<gunit const&>(g);
    f.set(0);
    if(o.indices() != this->indices()) return 1;
    if(b == o.a) f.set(0, std::make_shared<gunit>(a, o.b, this->indices()), 1);
    return 0;
  }
  bool simplify_prod(base const& g, lf_t& f) const override {
    auto const& o = dynamic_cast<gunit const&>(g);
    if(o.indices() != this->indices()) return false;
    if(b == o.a) f.set(0, std::make_shared<gunit>(a, o.b, this->indices()), 1);
    else f.set(0);
    return true;
  }
  void conj(lf_t& f) const override {
    int p = 2 * (a - b) * (scale - 1);
    f.set(0, std::make_shared<gunit>(b, a, this->indices()),
          p >= 0 ? lc::var_number(1 << p) : lc::var_number(1, 1 << -p));
  }
  std::string to_string() const override { return "Y" + std::to_string(a) + std::to_string(b); }

protected:
  auto key() const { return std::tie(this->indices(), a, b); }
  bool equal(base const& g) const override { return key() == dynamic_cast<gunit const&>(g).key(); }
  bool less(base const& g) const override { return key() < dynamic_cast<gunit const&>(g).key(); }
  bool greater(base const& g) const override { return key() > dynamic_cast<gunit const&>(g).key(); }
};

// Clifford generators, all acting in one space of qubits
template <typename... I> struct gcliff : lc::generator<I...> {
  using base = lc::generator<I...>;
  using lf_t = typename base::linear_function_t;
  int k;
  gcliff(int k_, std::tuple<I...> const& i) : base(i), k(k_) {}
  int algebra_id() const override { return CLIFF; }
  lc::var_number swap_with(base const&, lf_t& f) const override { f.set(0); return -1; }
  bool simplify_prod(base const& g, lf_t& f) const override {
    if(k != dynamic_cast<gcliff const&>(g).k) return false;
    f.set(k % 2 ? -1 : 1);
    return true;
  }
  void conj(lf_t& f) const override { f.set(0, this->shared_from_this(), k % 2 ? -1 : 1); }
  std::string to_string() const override { return "e" + std::to_string(k); }

protected:
  bool equal(base const& g) const override { return k == dynamic_cast<gcliff const&>(g).k; }
  bool less(base const& g) const override { return k < dynamic_cast<gcliff const&>(g).k; }
  bool greater(base const& g) const override { return k > dynamic_cast<gcliff const&>(g).k; }
};

// Action of e_k on a state of qubits
inline int cliff_sign(int k, u64& q) {
  int sg = 1;
  for(int j = 0; j < k / 2; ++j) if(q >> j & 1) sg = -sg;
  if(k % 2 && !(q >> (k / 2) & 1)) sg = -sg;
  q ^= u64(1) << (k / 2);
  return sg;
}

struct Dims { std::vector<u64> d; int calls = 0; };
struct Qubits { int n; };

template <typename... I> int position(std::vector<std::tuple<I...>> const& pool, std::tuple<I...> const& i) {
  for(std::size_t n = 0; n < pool.size(); ++n) if(pool[n] == i) return int(n);
  return -1;
}
template <typename... I> std::vector<std::tuple<I...>>& the_pool() {
  static auto p = hsm::pools<I...>::get();
  return p;
}
} // namespace

namespace libcommute {
template <> class es_constructor<UNIT> {
  std::vector<u64> d; // dimensions by the position of the indices
public:
  es_constructor() = default;
  explicit es_constructor(Dims const& x) : d(x.d) {}
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    ++W.made0;
    if(g.algebra_id() != UNIT) W.bad = "es_constructor<0> called for a foreign generator";
    int p = position(the_pool<I...>(), g.indices());
    return std::unique_ptr<elementary_space<I...>>(
        new hsm::es_user<I...>(UNIT, p >= 0 && p < int(d.size()) ? d[p] : 7, g.indices()));
  }
};
template <> class es_constructor<CLIFF> {
  int n = 5;

public:
  es_constructor() = default;
  explicit es_constructor(Qubits q) : n(q.n) {}
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    ++W.made4;
    if(g.algebra_id() != CLIFF) W.bad = "es_constructor<4> called for a foreign generator";
    return std::unique_ptr<elementary_space<I...>>(new hsm::es_user<I...>(CLIFF, u64(1) << n, the_pool<I...>()[0]));
  }
};
template <> class monomial_action<UNIT> {
  struct step { int shift; u64 mask; u64 a, b; };
  std::vector<step> s;

public:
  template <typename... I>
  monomial_action(typename monomial<I...>::range_type const& m, hilbert_space<I...> const& hs) {
    ++W.ctor0;
    for(auto it = m.first; it != m.second; ++it) {
      if(it->algebra_id() != UNIT) throw unknown_generator<I...>(*it);
      hsm::es_user<I...> es(UNIT, 1, it->indices());
      if(!hs.has(es)) throw unknown_generator<I...>(*it);
      auto br = hs.bit_range(es);
      auto const& g = dynamic_cast<gunit<I...> const&>(*it);
      s.push_back({br.first, (u64(1) << (br.second - br.first + 1)) - 1, u64(g.a), u64(g.b)});
    }
    std::reverse(s.begin(), s.end());
  }
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    ++W.act0;
    if(index & ~W.mask) W.bad = "act() of algebra 0 called with index " + std::to_string(index);
    for(auto const& x : s) {
      if(((index >> x.shift) & x.mask) != x.b) return false;
      index = (index & ~(x.mask << x.shift)) | (x.a << x.shift);
      if(scale == 2) {
        if(x.a > x.b) coeff *= S(int(1 << (x.a - x.b)));
        else coeff /= S(int(1 << (x.b - x.a)));
      }
    }
    return true;
  }
};
template <> class monomial_action<CLIFF> {
  std::vector<int> s;
  int shift = 0;
  u64 mask = 0;

public:
  template <typename... I>
  monomial_action(typename monomial<I...>::range_type const& m, hilbert_space<I...> const& hs) {
    ++W.ctor4;
    if(m.first == m.second) return;
    for(auto it = m.first; it != m.second; ++it) {
      if(it->algebra_id() != CLIFF) throw unknown_generator<I...>(*it);
      if(!hs.has_algebra(CLIFF)) throw unknown_generator<I...>(*it);
      s.insert(s.begin(), dynamic_cast<gcliff<I...> const&>(*it).k);
    }
    auto br = hs.algebra_bit_range(CLIFF);
    shift = br.first;
    mask = (u64(1) << (br.second - br.first + 1)) - 1;
  }
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    ++W.act4;
    if(index & ~W.mask) W.bad = "act() of algebra 4 called with index " + std::to_string(index);
    for(int k : s) {
      u64 q = (index >> shift) & mask;
      coeff *= S(cliff_sign(k, q));
      index = (index & ~(mask << shift)) | (q << shift);
    }
    return true;
  }
};
} // namespace libcommute

namespace {

template <typename S> CL to_cl(S const& x) { return CL(ld(x)); }
inline CL to_cl(std::complex<double> const& x) { return CL(x.real(), x.imag()); }
inline CL to_cl(mpq_class const& x) { return CL(ld(x.get_d())); }

struct Letter { int e; int k; }; // entry, letter within the entry
using Word = std::vector<Letter>;
using Amps = std::map<u64, CL>;

template <typename... I> struct World {
  std::vector<hsm::Entry> es; // sorted by key
  hsm::Space<I...> sp;
  int nq = 0;
  bool roots = true; // bosons and spins are allowed
  int dim_boson = 2;

  // algebras: which may take part
  void random(mon::rng& r, bool roots_) {
    roots = roots_;
    sp.pool = the_pool<I...>();
    std::map<std::tuple<int, int, int>, hsm::Entry> m;
    auto add = [&](int alg, int mult, int idx, u64 d) {
      hsm::Entry e{alg, mult, idx, d};
      m.emplace(e.key(), e);
    };
    int N = int(std::min<std::size_t>(sp.pool.size(), 40));
    dim_boson = r.range(2, 5);
    for(int n = r.below(4); n > 0; --n) add(-3, 0, r.below(N), 2);
    if(roots) {
      for(int n = r.below(2); n > 0; --n) add(-2, 0, r.below(N), u64(dim_boson));
      for(int n = r.below(2); n > 0; --n) { int mu = r.range(2, 4); add(-1, mu, r.below(N), u64(mu)); }
    }
    for(int n = r.range(0, 2); n > 0; --n) add(UNIT, 0, r.below(N), u64(r.range(1, 6)));
    nq = r.coin(0.6) ? r.range(1, 2) : 0;
    if(nq) add(CLIFF, 0, 0, u64(1) << nq);
    auto bits = [&] { int b = 0; for(auto const& p : m) b += p.second.bits(); return b; };
    while(bits() > 9) m.erase(std::next(m.begin(), r.below(int(m.size()))));
    if(!m.count({CLIFF, 0, 0})) nq = 0;
    if(m.empty()) add(UNIT, 0, r.below(N), u64(r.range(2, 6)));
    for(auto const& p : m) es.push_back(p.second);
  }
  hsm::Layout layout(std::vector<hsm::Entry> const& v) const {
    hsm::Layout L;
    for(auto const& e : v) L.m.emplace(e.key(), e);
    return L;
  }
  Dims dims() const {
    Dims d;
    d.d.assign(sp.pool.size(), 9);
    for(auto const& e : es) if(e.alg == UNIT) d.d[e.idx] = e.dim;
    return d;
  }
  int letters(int e) const {
    auto const& x = es[e];
    return x.alg == -3 || x.alg == -2 ? 2 : x.alg == -1 ? 3 : x.alg == UNIT ? int(x.dim * x.dim) : 2 * nq;
  }
  template <typename S> lc::expression<S, I...> letter(Letter l) const {
    using E = lc::expression<S, I...>;
    using M = typename E::monomial_t;
    auto const& x = es[l.e];
    auto const& i = sp.pool[x.idx];
    S one = lc::scalar_traits<S>::make_const(1);
    switch(x.alg) {
    case -3: return E(one, M(lc::generator_fermion<I...>(l.k == 1, i)));
    case -2: return E(one, M(lc::generator_boson<I...>(l.k == 1, i)));
    case -1:
      return E(one, M(lc::generator_spin<I...>((x.mult - 1) / 2.0,
                                               l.k == 0 ? lc::plus : l.k == 1 ? lc::minus : lc::z, i)));
    case UNIT: return E(one, M(gunit<I...>(l.k / int(x.dim), l.k % int(x.dim), i)));
    default: return E(one, M(gcliff<I...>(l.k, sp.pool[l.k % sp.pool.size()])));
    }
  }
  // the letters of a monomial of the library
  template <typename M> Word read(M const& m) const {
    Word w;
    for(auto const& g : m) {
      for(int n = 0; n < int(es.size()); ++n) {
        auto const& x = es[n];
        if(g.algebra_id() != x.alg || (x.alg != CLIFF && g.indices() != sp.pool[x.idx])) continue;
        int k;
        if(x.alg == -3) k = dynamic_cast<lc::generator_fermion<I...> const&>(g).dagger();
        else if(x.alg == -2) k = dynamic_cast<lc::generator_boson<I...> const&>(g).dagger();
        else if(x.alg == -1) {
          auto const& s = dynamic_cast<lc::generator_spin<I...> const&>(g);
          if(s.multiplicity() != x.mult) continue;
          k = s.component() == lc::plus ? 0 : s.component() == lc::minus ? 1 : 2;
        } else if(x.alg == UNIT) {
          auto const& u = dynamic_cast<gunit<I...> const&>(g);
          k = u.a * int(x.dim) + u.b;
        } else k = dynamic_cast<gcliff<I...> const&>(g).k;
        w.push_back({n, k});
      }
    }
    return w;
  }
  Word word(mon::rng& r, int len) const {
    Word w;
    std::set<int> once; // bosons occur once: no truncation inside a word
    while(int(w.size()) < len) {
      int e = r.below(int(es.size()));
      if(es[e].alg == -2 && !once.insert(e).second) { --len; continue; }
      w.push_back({e, r.below(letters(e))});
    }
    return w;
  }
  std::string str(Word const& w) const {
    std::string s;
    for(auto l : w) s += es[l.e].str() + "#" + std::to_string(l.k) + " ";
    return s;
  }
  // successive action of the letters, the last one first
  bool act(Word const& w, hsm::Layout const& L, u64& s, CL& a) const {
    for(auto l = w.rbegin(); l != w.rend(); ++l) {
      auto const& x = es[l->e];
      int sh = L.shift(x.key());
      u64 mask = (u64(1) << x.bits()) - 1, n = (s >> sh) & mask;
      auto put = [&](u64 m) { s = (s & ~(mask << sh)) | (m << sh); };
      switch(x.alg) {
      case -3:
        if((n == 1) == (l->k == 1)) return false;
        for(int j = 0; j < sh; ++j) if(s >> j & 1) a = -a;
        put(1 - n);
        break;
      case -2:
        if(l->k == 1) {
          if(n + 1 >= x.dim) return false;
          a *= std::sqrt(ld(n + 1));
          put(n + 1);
        } else {
          if(n == 0) return false;
          a *= std::sqrt(ld(n));
          put(n - 1);
        }
        break;
      case -1: {
        ld S = ld(x.mult - 1) / 2, m = ld(n) - S;
        if(l->k == 2) {
          if(m == 0) return false;
          a *= m;
        } else {
          ld q = l->k == 0 ? 1 : -1, v = S * (S + 1) - m * (m + q);
          if(v <= 0) return false;
          a *= std::sqrt(v);
          put(l->k == 0 ? n + 1 : n - 1);
        }
        break;
      }
      case UNIT: {
        u64 ka = u64(l->k) / x.dim, kb = u64(l->k) % x.dim;
        if(n != kb) return false;
        put(ka);
        if(scale == 2) a *= std::pow(ld(2), ld(ka) - ld(kb));
        break;
      }
      default: {
        a *= ld(cliff_sign(l->k, n));
        put(n);
      }
      }
    }
    return true;
  }
};

template <typename S> struct Terms {
  std::vector<std::pair<S, Word>> t;
};

template <typename S> S coefficient(mon::rng& r) { return S(r.range(1, 5) * (r.coin() ? 1 : -1)); }
template <> std::complex<double> coefficient(mon::rng& r) { return {double(r.range(-4, 4)), double(r.range(1, 4))}; }

template <typename S, typename... I> std::string text(World<I...> const& w, Terms<S> const& t) {
  std::ostringstream os;
  for(auto const& e : w.es) os << e.str() << " ";
  os << "scale " << scale << " |";
  for(auto const& x : t.t) os << " (" << x.first << ") " << w.str(x.second) << "|";
  return os.str();
}

template <typename S, typename... I> Terms<S> random_terms(mon::rng& r, World<I...> const& w, int n, int len) {
  Terms<S> t;
  for(int k = r.range(1, n); k > 0; --k) t.t.emplace_back(coefficient<S>(r), w.word(r, r.range(k == 1 ? 1 : 0, len)));
  return t;
}
template <typename S, typename... I> lc::expression<S, I...> build(World<I...> const& w, Terms<S> const& t) {
  lc::expression<S, I...> e;
  for(auto const& x : t.t) {
    lc::expression<S, I...> p(x.first);
    for(auto l : x.second) p *= w.template letter<S>(l);
    e += p;
  }
  return e;
}
template <typename S, typename... I>
Amps expected(World<I...> const& w, Terms<S> const& t, hsm::Layout const& L, Amps const& in) {
  Amps out;
  for(auto const& x : t.t)
    for(auto const& p : in) {
      u64 s = p.first;
      CL a = p.second * to_cl(x.first);
      if(w.act(x.second, L, s, a)) out[s] += a;
    }
  return out;
}
template <typename V> std::string differs(V const& got, Amps const& want, ld tol = 1e-9L) {
  for(std::size_t i = 0; i < std::size_t(got.size()); ++i) {
    auto it = want.find(i);
    CL w = it == want.end() ? CL(0) : it->second;
    if(std::abs(to_cl(got[i]) - w) > tol * (1 + std::abs(w))) {
      std::ostringstream os;
      os << "amplitude of " << i << " is " << to_cl(got[i]) << ", expected " << w;
      return os.str();
    }
  }
  return "";
}
template <typename S, typename... I> using Op = lc::loperator<S, lc::fermion, lc::boson, lc::spin, UNIT, CLIFF>;

// Operators of the list of algebras: accepted exactly if all algebras are on it
template <typename S, int... ID, typename... I>
void restricted(mon::Case& c, World<I...> const& w, Terms<S> const& t, lc::expression<S, I...> const& e,
                lc::hilbert_space<I...> const& hs, hsm::Layout const& L, std::vector<u64> const& states) {
  std::set<int> ids{ID...}, foreign;
  for(auto const& m : e)
    for(auto const& g : m.monomial) if(!ids.count(g.algebra_id())) foreign.insert(g.algebra_id());
  try {
    lc::loperator<S, ID...> op(e, hs);
    c.ev("restricted operators accepted");
    if(!foreign.empty()) {
      c.fail("ACCEPTED", "generators of algebra " + std::to_string(*foreign.begin()) + " accepted");
      return;
    }
    for(int k = 0; k < 3; ++k) {
      u64 f = c.r.pick(states);
      std::vector<S> v(hs.vec_size(), S(0));
      v[f] = S(1);
      auto x = differs(op(v), expected(w, t, L, {{f, CL(1)}}));
      if(!c.check(x.empty(), "RESTRICTED", [&] { return "from state " + std::to_string(f) + ": " + x; })) return;
    }
  } catch(lc::unknown_generator<I...> const& x) {
    c.ev("restricted operators rejected");
    c.check(x.generator_ptr && foreign.count(x.generator_ptr->algebra_id()), "REJECTED",
            [&] { return std::string("named generator: ") + x.what(); });
    c.check(std::string(x.what()) == "Action of generator " + mon::str(*x.generator_ptr) + " on a state vector is undefined",
            "MESSAGE", [&] { return std::string(x.what()); });
  }
}

void verdict(mon::Case& c) {
  c.check(W.bad.empty(), "PROTOCOL", [] { return W.bad; });
  c.ev("calls of act()", W.act0 + W.act4);
  c.ev("monomial actions made", W.ctor0 + W.ctor4);
}

template <typename S, typename... I> void words(mon::Case& c, bool roots, int max_scale) {
  auto& r = c.r;
  W = Watch();
  scale = r.range(1, max_scale);
  World<I...> w;
  w.random(r, roots);
  auto t = random_terms<S>(r, w, 4, 6);
  c.input(text(w, t));
  auto e = build(w, t);
  auto all = w.es;
  r.shuffle(all);
  auto hs = w.sp.build(all);
  auto L = w.layout(all);
  W.mask = (u64(1) << L.bits()) - 1;
  Op<S, I...> op(e, hs);
  auto states = L.states();
  // every basis state
  std::size_t nz = 0;
  for(u64 f : states) {
    std::vector<S> v(hs.vec_size(), S(0));
    v[f] = S(1);
    auto want = expected(w, t, L, {{f, CL(1)}});
    for(auto const& a : want) nz += std::abs(a.second) > 1e-9L;
    auto x = differs(op(v), want);
    if(!c.check(x.empty(), "ACTION", [&] { return "from state " + std::to_string(f) + ": " + x; })) return;
  }
  c.ev("matrix elements", nz);
  // a superposition, all forms of application
  std::vector<S> v(hs.vec_size(), S(0)), d(hs.vec_size(), S(3));
  Amps in;
  for(u64 f : states)
    if(r.coin()) {
      v[f] = coefficient<S>(r);
      in[f] = to_cl(v[f]);
    }
  auto want = expected(w, t, L, in);
  op(v, d);
  auto copy = op;
  Op<S, I...> moved(std::move(copy));
  for(auto const& got : {op(v), op * v, d, moved(v)}) {
    auto x = differs(got, want);
    if(!c.check(x.empty(), "SUPERPOSITION", [&] { return x; })) return;
  }
  // the adjoint
  auto opd = Op<S, I...>(conj(e), hs);
  for(int k = 0; k < 6; ++k) {
    u64 f = r.pick(states);
    std::vector<S> x(hs.vec_size(), S(0));
    x[f] = S(1);
    auto y = opd(x);
    for(u64 g : states) {
      std::vector<S> z(hs.vec_size(), S(0));
      z[g] = S(1);
      CL a = to_cl(y[g]), b = std::conj(to_cl(op(z)[f]));
      if(!c.check(std::abs(a - b) <= 1e-9L * (1 + std::abs(b)), "ADJOINT", [&] {
           std::ostringstream os;
           os << "<" << g << "|op+|" << f << "> = " << a << ", expected " << b;
           return os.str();
         }))
        return;
    }
  }
  // operators of some of the algebras only
  restricted<S, UNIT>(c, w, t, e, hs, L, states);
  restricted<S, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, UNIT, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, UNIT>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, UNIT, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, lc::boson, lc::spin, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, lc::boson, lc::spin, UNIT>(c, w, t, e, hs, L, states);
  restricted<S, lc::spin, UNIT, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::boson, lc::spin, UNIT, CLIFF>(c, w, t, e, hs, L, states);
  restricted<S, lc::fermion, lc::boson, lc::spin>(c, w, t, e, hs, L, states);
  restricted<S>(c, w, t, e, hs, L, states);
  // a space lacking one of the modes
  if(all.size() > 1) {
    auto less = all;
    auto gone = less.back();
    less.pop_back();
    auto hs2 = w.sp.build(less);
    bool used = false;
    for(auto const& m : e)
      for(auto const& g : m.monomial)
        used |= g.algebra_id() == gone.alg && (gone.alg == CLIFF || g.indices() == w.sp.pool[gone.idx]);
    try {
      Op<S, I...> o(e, hs2);
      c.check(!used, "MISSING-ACCEPTED");
    } catch(lc::unknown_generator<I...> const& x) {
      auto const& g = *x.generator_ptr;
      c.check(used && g.algebra_id() == gone.alg && (gone.alg == CLIFF || g.indices() == w.sp.pool[gone.idx]),
              "MISSING-NAMED", [&] { return std::string(x.what()); });
    }
  }
  verdict(c);
  if(nz) c.nontrivial(c.in);
}

MON_SECTION("words", 3000, 30000) {
  switch(c.index % 6) {
  case 0: words<double, int>(c, true, 2); break;
  case 1: words<std::complex<double>, std::string, int>(c, true, 2); break;
  case 2: words<mpq_class, int>(c, false, 2); break;
  case 3: words<int, std::string, int>(c, false, 1); break;
  case 4: words<double, lc::dynamic_indices::dyn_indices>(c, true, 2); break;
  default: words<std::complex<double>, int>(c, true, 2); break;
  }
}

// Spaces deduced from expressions by constructors with settings of their own
// Constructors for a list of algebras: accept exactly the expressions of these algebras
template <int... ID, typename S, typename... I, typename... Args>
void partial(mon::Case& c, lc::expression<S, I...> const& e, lc::hilbert_space<I...> const& want, Args const&... args) {
  std::set<int> ids{ID...}, foreign;
  for(auto const& m : e)
    for(auto const& g : m.monomial) if(!ids.count(g.algebra_id())) foreign.insert(g.algebra_id());
  lc::es_constructor<ID...> ec(args...);
  try {
    auto hs = make_hilbert_space(e, ec);
    c.ev("partial constructors accepted");
    c.check(foreign.empty() && hs == want, "PARTIAL-SPACE", [&] {
      return foreign.empty() ? std::string("wrong space") : "accepted algebra " + std::to_string(*foreign.begin());
    });
  } catch(lc::es_construction_failure<I...> const& x) {
    c.ev("partial constructors refused");
    c.check(x.generator_ptr && foreign.count(x.generator_ptr->algebra_id()), "PARTIAL-REFUSED",
            [&] { return std::string(x.what()); });
  }
}
template <typename... I> void deduce(mon::Case& c) {
  auto& r = c.r;
  W = Watch();
  scale = 1;
  World<I...> w;
  w.random(r, true);
  auto t = random_terms<double>(r, w, 5, 5);
  c.input(text(w, t));
  auto e = build(w, t);
  std::vector<hsm::Entry> used, with;
  bool fb = false;
  for(auto const& x : w.es) {
    bool u = false;
    for(auto const& m : e)
      for(auto const& g : m.monomial) {
        if(g.algebra_id() != x.alg) continue;
        if(x.alg == CLIFF) u = true;
        else if(g.indices() == w.sp.pool[x.idx]) {
          if(x.alg == -1) u |= dynamic_cast<lc::generator_spin<I...> const&>(g).multiplicity() == x.mult;
          else u = true;
        }
      }
    if(u) used.push_back(x);
    fb |= u && x.alg < 0;
  }
  using Ctor = lc::es_constructor<lc::fermion, lc::boson, lc::spin, UNIT, CLIFF>;
  Ctor a(lc::sv_index_type(w.dim_boson), w.dims(), Qubits{w.nq});
  Ctor b(a);                                  // copy of a non-constant object
  Ctor const& ca = a;
  Ctor d(ca);
  Ctor src(a), m(std::move(src));
  Ctor other(lc::sv_index_type(11), Dims(), Qubits{4});
  other = a;
  auto byval = [a](lc::generator<I...> const& g) { return a(g); };
  std::vector<Ctor> many(3, a);
  many.push_back(a);
  auto L = w.layout(used);
  auto want = w.sp.build(used);
  auto look = [&](lc::hilbert_space<I...> hs, char const* how) {
    auto x = w.sp.compare(hs, L, w.es);
    c.check(x.empty() && hs == want, "DEDUCED", [&] { return std::string(how) + ": " + x; });
    c.ev("spaces deduced");
  };
  look(make_hilbert_space(e, a), "constructor");
  look(make_hilbert_space(e, b), "copy");
  look(make_hilbert_space(e, d), "copy of a constant");
  look(make_hilbert_space(e, m), "moved");
  look(make_hilbert_space(e, other), "assigned");
  look(lc::hilbert_space<I...>(e, byval), "captured");
  look(lc::hilbert_space<I...>(e, many[r.below(4)]), "element of a vector");
  if(!fb) {
    lc::es_constructor<UNIT, CLIFF> s(w.dims(), Qubits{w.nq}), s2(s);
    look(make_hilbert_space(e, s), "user algebras only");
    look(make_hilbert_space(e, s2), "user algebras only, copy");
  }
  // constructors of some of the algebras only
  partial<lc::fermion, lc::boson, lc::spin, CLIFF>(c, e, want, lc::sv_index_type(w.dim_boson), Qubits{w.nq});
  partial<lc::fermion, lc::boson, lc::spin, UNIT>(c, e, want, lc::sv_index_type(w.dim_boson), w.dims());
  partial<lc::fermion, lc::spin, UNIT, CLIFF>(c, e, want, w.dims(), Qubits{w.nq});
  partial<lc::boson, UNIT, CLIFF>(c, e, want, lc::sv_index_type(w.dim_boson), w.dims(), Qubits{w.nq});
  partial<lc::spin, UNIT, CLIFF>(c, e, want, w.dims(), Qubits{w.nq});
  partial<UNIT, CLIFF>(c, e, want, w.dims(), Qubits{w.nq});
  partial<lc::fermion, UNIT>(c, e, want, w.dims());
  partial<lc::fermion, CLIFF>(c, e, want, Qubits{w.nq});
  // the same space serves operators
  W.mask = (u64(1) << L.bits()) - 1;
  auto states = L.states();
  auto hs = make_hilbert_space(e, b);
  Op<double, I...> op(e, hs);
  for(int k = 0; k < 4 && w.es.size() == used.size(); ++k) {
    u64 f = r.pick(states);
    std::vector<double> v(hs.vec_size(), 0);
    v[f] = 1;
    auto x = differs(op(v), expected(w, t, L, {{f, CL(1)}}));
    c.check(x.empty(), "DEDUCED-ACTION", [&] { return x; });
  }
  verdict(c);
  if(!used.empty()) c.nontrivial(c.in);
}
MON_SECTION("deduced", 2400, 24000) {
  switch(c.index % 3) {
  case 0: deduce<int>(c); break;
  case 1: deduce<std::string, int>(c); break;
  default: deduce<lc::dynamic_indices::dyn_indices>(c);
  }
}

// Compressed and mapped views, partitions, sectors
MON_SECTION("views", 2400, 24000) {
  auto& r = c.r;
  using S = std::complex<double>;
  W = Watch();
  scale = r.range(1, 2);
  World<int> w;
  w.random(r, true);
  auto t = random_terms<S>(r, w, 3, 4);
  c.input(text(w, t));
  auto e = build(w, t);
  auto all = w.es;
  auto hs = w.sp.build(all);
  auto L = w.layout(all);
  W.mask = (u64(1) << L.bits()) - 1;
  auto states = L.states();
  std::map<u64, std::size_t> rank;
  for(std::size_t k = 0; k < states.size(); ++k) rank[states[k]] = k;
  Op<S, int> op(e, hs);
  Amps in;
  for(u64 f : states) if(r.coin(0.6)) in[f] = CL(r.range(-3, 3), r.range(1, 3));
  auto want = expected(w, t, L, in);
  auto num = [](CL x) { return S(double(x.real()), double(x.imag())); };
  {
    std::vector<S> a(states.size()), b(states.size(), S(7));
    for(auto const& p : in) a[rank[p.first]] = num(p.second);
    auto va = lc::make_const_comp_state_view(a, hs);
    auto vb = lc::make_comp_state_view(b, hs);
    op(va, vb);
    Amps wa;
    for(auto const& p : want) wa[rank.at(p.first)] = p.second;
    auto x = differs(b, wa);
    c.check(x.empty(), "COMPRESSED", [&] { return x; });
    c.ev("compressed amplitudes", b.size());
  }
  // partition: components of the raw matrix
  auto sp = lc::make_space_partition(op, hs);
  std::map<u64, u64> root;
  for(u64 s : states) root[s] = s;
  std::function<u64(u64)> find = [&](u64 s) { while(root[s] != s) s = root[s]; return s; };
  for(u64 f : states)
    for(auto const& p : expected(w, t, L, {{f, CL(1)}}))
      if(std::abs(p.second) > 1e-8L) { u64 x = find(f), y = find(p.first); if(x != y) root[std::max(x, y)] = std::min(x, y); }
  std::set<u64> roots;
  for(u64 s : states) roots.insert(find(s));
  c.check(sp.n_subspaces() == roots.size(), "SUBSPACES", [&] {
    return std::to_string(sp.n_subspaces()) + " subspaces, expected " + std::to_string(roots.size());
  });
  c.check(sp.dim() == states.size(), "DIM");
  std::map<u64, u64> seen;
  for(u64 s : states) {
    auto i = seen.emplace(find(s), sp[s]);
    if(!c.check(i.first->second == sp[s], "PARTITION", [&] { return "state " + std::to_string(s); })) return;
  }
  std::set<u64> distinct;
  for(auto const& p : seen) distinct.insert(p.second);
  c.check(distinct.size() == seen.size(), "PARTITION-COARSE");
  // a subspace closed under every term, mapped
  std::set<u64> closed;
  std::vector<u64> todo{r.pick(states)};
  while(!todo.empty()) {
    u64 f = todo.back();
    todo.pop_back();
    if(!closed.insert(f).second) continue;
    for(auto const& m : e) {
      u64 g = f;
      CL one(1);
      if(w.act(w.read(m.monomial), L, g, one)) todo.push_back(g);
    }
  }
  std::vector<lc::sv_index_type> members(closed.begin(), closed.end());
  lc::basis_mapper mapper(members);
  std::vector<S> a(members.size()), b(members.size(), S(5));
  Amps part, pw;
  for(auto s : members) { part[s] = CL(r.range(-3, 3), r.range(-3, 3)); a[mapper.map().at(s)] = num(part[s]); }
  auto va = mapper.make_const_view(a);
  auto vb = mapper.make_view(b);
  op(va, vb);
  for(auto const& p : expected(w, t, L, part))
    if(mapper.map().count(p.first)) pw[mapper.map().at(p.first)] = p.second;
    else c.check(std::abs(p.second) < 1e-8L, "NOT-CLOSED");
  auto x = differs(b, pw);
  c.check(x.empty(), "MAPPED", [&] { return x; });
  // the basis reached from the vacuum by the user's operators
  {
    auto q = random_terms<S>(r, w, 4, 3);
    std::set<u64> reach;
    for(auto const& p : expected(w, q, L, {{0, CL(1)}})) if(std::abs(p.second) > 1e-8L) reach.insert(p.first);
    lc::basis_mapper m2(Op<S, int>(build(w, q), hs), hs);
    std::set<u64> got;
    for(auto const& p : m2.map()) got.insert(p.first);
    c.check(got == reach && m2.size() == int(reach.size()), "MAPPER-OPERATORS");
  }
  verdict(c);
  c.nontrivial(c.in);
}

// Coefficients that are functions, and user algebras next to many unused modes
struct Affine {
  double c0 = 0, c1 = 0;
  Affine() = default;
  Affine(double a, double b = 0) : c0(a), c1(b) {}
  double operator()(double x) const { return c0 + c1 * x; }
};
} // namespace
namespace libcommute {
template <> struct scalar_traits<Affine> {
  static bool is_zero(Affine const& x) { return x.c0 == 0 && x.c1 == 0; }
  static Affine make_const(double x) { return Affine(x); }
  static Affine make_const(var_number const& x) { return Affine(double(x)); }
};
} // namespace libcommute
namespace {
MON_SECTION("parameters", 1500, 15000) {
  auto& r = c.r;
  W = Watch();
  scale = 1;
  World<std::string, int> w;
  w.random(r, true);
  auto t = random_terms<double>(r, w, 4, 5);
  c.input(text(w, t));
  auto e = build(w, t);
  double slope = r.range(-3, 3), at = r.range(-4, 4) / 2.0;
  auto pe = transform(e, [&](lc::monomial<std::string, int> const&, double x) { return Affine(x, slope * x); });
  auto all = w.es;
  auto hs = w.sp.build(all);
  auto L = w.layout(all);
  W.mask = (u64(1) << L.bits()) - 1;
  auto states = L.states();
  lc::parametric_loperator<Affine, lc::fermion, lc::boson, lc::spin, UNIT, CLIFF> op(pe, hs);
  double factor = 1 + slope * at;
  auto frozen = op.at(at);
  for(int k = 0; k < 8; ++k) {
    u64 f = r.pick(states);
    std::vector<double> v(hs.vec_size(), 0), d(hs.vec_size(), 9), d2(hs.vec_size(), 8), co{1, 2, 3};
    v[f] = 1;
    auto want = expected(w, t, L, {{f, CL(factor)}});
    op(v, d, at);
    op.act_and_store_coeffs(v, d2, co, at);
    for(auto const& got : {op(v, at), d, d2, frozen(v)}) {
      auto x = differs(got, want);
      if(!c.check(x.empty(), "PARAMETER", [&] { return x; })) return;
    }
    c.check(co.size() == pe.size(), "COEFFICIENTS");
  }
  verdict(c);
  c.nontrivial(c.in);
}
} // namespace
