// C27: the same programs in different build configurations. Everything observed in a case is
// written to the log as a digest (exact results) and a list of numbers (results of inexact
// arithmetic); offline.py compares the logs of all configurations. C++11 only.
#include <climits>
#ifndef NO_EIGEN
#include <libcommute/loperator/state_vector_eigen3.hpp>
#endif
#include "mon.hpp"
#include <libcommute/libcommute.hpp>
#include <gmpxx.h>
#include <libcommute/scalars/gmpxx.hpp>
#include <algorithm>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <set>

namespace lc = libcommute;
namespace si = libcommute::static_indices;
using mon::u64;
using cd = std::complex<double>;

namespace {
struct Log {
  mon::Case& c;
  u64 h = 0;
  int n = 0;
  std::vector<double> x;
  bool dump;
  explicit Log(mon::Case& c_) : c(c_), dump(std::getenv("MON_DUMP") != nullptr) {}
  ~Log() {
    std::fprintf(mon::st().out, "{\"t\":\"rec\",\"s\":\"%s\",\"i\":%lld,\"h\":\"%016llx\",\"n\":%d,\"x\":[", c.section.c_str(), c.index, (unsigned long long)h, n);
    for(std::size_t i = 0; i < x.size(); ++i) std::fprintf(mon::st().out, "%s%.17g", i ? "," : "", x[i]);
    std::fprintf(mon::st().out, "]}\n");
    c.ev("observations", u64(n));
  }
  void operator()(char const* name, std::string const& s) {
    ++n;
    h = mon::mix(h ^ mon::hash_str(s)) + mon::hash_str(name);
    c.phase(name);
    if(dump) std::fprintf(mon::st().out, "{\"t\":\"obs\",\"name\":\"%s\",\"v\":\"%s\"}\n", name, mon::esc(s.substr(0, 3000)).c_str());
  }
  void operator()(char const* name, bool b) { (*this)(name, std::string(b ? "true" : "false")); }
  void operator()(char const* name, u64 k) { (*this)(name, std::to_string(k)); }
  void operator()(char const* name, std::vector<u64> const& v) { (*this)(name, mon::vstr(v)); }
  void number(char const* name, double y) {
    x.push_back(y);
    if(dump) std::fprintf(mon::st().out, "{\"t\":\"obs\",\"name\":\"%s\",\"v\":\"%.17g\"}\n", name, y);
  }
};

// --- random expressions --------------------------------------------------------------
struct Pool { // modes
  int nf, nb, ns, ns3;
};
template <typename S> S coeff(mon::rng& r);
template <> double coeff<double>(mon::rng& r) { int k = r.range(-7, 7); return k / 4.0 + (r.coin() ? 2 : 0); }
template <> cd coeff<cd>(mon::rng& r) { double a = coeff<double>(r), b = coeff<double>(r); return r.coin() ? cd(a, b) : r.coin() ? cd(a) : cd(0, b); }
template <> mpq_class coeff<mpq_class>(mon::rng& r) { int a = r.range(-9, 9), b = r.range(1, 6); mpq_class q(a, b); q.canonicalize(); return q; }
template <> long coeff<long>(mon::rng& r) { return r.range(-4, 4); }

template <typename S> struct fractional { static const bool value = true; };
template <> struct fractional<long> { static const bool value = false; };

// Labels of the k-th mode
struct ints { static std::tuple<int> get(int k) { return std::make_tuple(k * 3 - 4); } };
struct names { static std::tuple<std::string> get(int k) { static char const* const v[] = {"", "a", "aa", "b", "dn", "up", "x", "~"}; return std::make_tuple(std::string(v[k & 7])); } };
struct pairs {
  static std::tuple<std::string, int> get(int k) { return std::make_tuple(std::string(k & 1 ? "up" : "dn"), k / 2 - 1); }
};
struct nothing { static std::tuple<> get(int) { return std::tuple<>(); } };

template <typename... I> std::shared_ptr<const lc::generator<I...>> one(std::shared_ptr<const lc::generator<I...>> p) { return p; }
template <typename S, typename L, typename T> struct Maker;
template <typename S, typename L, typename... I> struct Maker<S, L, std::tuple<I...>> {
  using E = lc::expression<S, I...>;
  using G = std::shared_ptr<const lc::generator<I...>>;
  Pool p;
  template <typename F> static G call(F f, std::tuple<int> const& t) { return f(std::get<0>(t)); }
  template <typename F> static G call(F f, std::tuple<std::string> const& t) { return f(std::get<0>(t)); }
  template <typename F> static G call(F f, std::tuple<std::string, int> const& t) { return f(std::get<0>(t), std::get<1>(t)); }
  template <typename F> static G call(F f, std::tuple<> const&) { return f(); }
  struct mk {
    int what, kind;
    template <typename... A> G operator()(A const&... a) const {
      switch(what) {
      case 0: return G(std::make_shared<lc::generator_fermion<I...>>(kind == 0, a...));
      case 1: return G(std::make_shared<lc::generator_boson<I...>>(kind == 0, a...));
      case 2: return G(std::make_shared<lc::generator_spin<I...>>(lc::spin_component(kind), a...));
      default: return G(std::make_shared<lc::generator_spin<I...>>(1.0, lc::spin_component(kind), a...));
      }
    }
  };
  G gen(mon::rng& r) const {
    int n = p.nf + p.nb + p.ns + p.ns3, k = r.below(n);
    if(k < p.nf) return call(mk{0, r.below(2)}, L::get(k));
    k -= p.nf;
    if(k < p.nb) return call(mk{1, r.below(2)}, L::get(k));
    k -= p.nb;
    if(k < p.ns) return call(mk{2, r.below(3)}, L::get(k));
    k -= p.ns;
    return call(mk{3, r.below(3)}, L::get(k));
  }
  E leaf(mon::rng& r) const {
    E e;
    for(int t = r.range(1, 3); t > 0; --t) {
      std::vector<G> g;
      for(int l = r.range(0, 3); l > 0; --l) g.push_back(r.coin(0.2) && !g.empty() ? g.back() : gen(r));
      e += E(coeff<S>(r), lc::monomial<I...>(g));
    }
    return e;
  }
  E program(mon::rng& r, int ops) const {
    std::vector<E> v;
    for(int i = 0; i < 3; ++i) v.push_back(leaf(r));
    for(int i = 0; i < ops; ++i) {
      E const a = r.pick(v), b = r.pick(v);
      S s = coeff<S>(r);
      E x;
      switch(r.below(9)) {
      case 0: case 1: if(a.size() * b.size() > 60) continue; x = a * b; break;
      case 2: if(a.size() * b.size() > 60) continue; x = a; x *= b; break;
      case 3: x = a + b; break;
      case 4: x = a - b; break;
      case 5: x = a; x -= b; break;
      case 6: x = s * a; break;
      case 7: x = -a; break;
      default: x = a + s; x *= s;
      }
      if(x.size() > 60) continue;
      bool deep = false;
      for(auto const& t : x) deep = deep || t.monomial.size() > 6;
      if(!deep) v.push_back(x);
    }
    return v.back();
  }
};
template <typename S, typename... I> std::string text(lc::expression<S, I...> const& e) {
  std::ostringstream o;
  o.precision(17);
  o << e << " " << e.size();
  return o.str();
}
template <typename S, typename... I> struct twice {
  S operator()(lc::monomial<I...> const& m, S const& x) const { return m.size() % 2 ? S(x + x) : m.empty() ? S(0) : x; }
};

template <typename L, typename S> void expressions(mon::Case& c) {
  using T = decltype(L::get(0));
  using M = Maker<S, L, T>;
  using E = typename M::E;
  auto& r = c.r;
  M m;
  m.p = std::is_same<T, std::tuple<>>::value ? Pool{1, 1, 1, 1} : Pool{r.range(1, 4), r.below(3), r.below(3), fractional<S>::value ? r.below(2) : 0};
  if(!fractional<S>::value) m.p.ns = 0; // spins need halves
  c.input(std::to_string(r.s));
  Log log(c);
  E a = m.program(r, r.range(2, 8)), b = m.program(r, r.range(0, 4));
  log("a", text(a));
  log("b", text(b));
  if(a.size() * b.size() < 300) {
    log("ab", text(E(a * b)));
    log("[a,b]", text(E(a * b - b * a)));
    log("ab==ba", E(a * b) == E(b * a));
  }
  log("a==b", a == b);
  log("conj", text(E(conj(a))));
  log("hc", text(E(a + lc::hc)));
  log("a-a", text(E(a - a)));
  log("transform", text(transform(a, [](typename E::monomial_t const& q, S const& x) { return q.size() % 2 ? S(x + x) : q.empty() ? S(0) : x; })));
  std::string cmp;
  for(auto const& s : a)
    for(auto const& t : b) cmp += char('0' + (s.monomial < t.monomial) + 2 * (s.monomial == t.monomial) + 4 * (s.monomial > t.monomial));
  log("comparisons", cmp);
  if(a.size()) c.nontrivial(std::to_string(log.h));
}
} // namespace

MON_SECTION("expressions", 900, 12000) {
  switch(c.r.below(7)) {
  case 0: expressions<ints, double>(c); break;
  case 1: expressions<ints, cd>(c); break;
  case 2: expressions<pairs, double>(c); break;
  case 3: expressions<ints, mpq_class>(c); break;
  case 4: expressions<nothing, double>(c); break;
  case 5: expressions<names, double>(c); break;
  default: expressions<ints, long>(c);
  }
}

namespace {
using HS = lc::hilbert_space<int>;
using ES = lc::elementary_space<int>;
std::vector<u64> all_states(HS const& h) {
  std::vector<u64> v;
  foreach(h, [&](u64 s) { v.push_back(s); });
  return v;
}
std::unique_ptr<ES> random_space(mon::rng& r, int k, u64 max_dim) {
  switch(r.below(6)) {
  case 0: case 1: case 2: return std::unique_ptr<ES>(new lc::elementary_space_fermion<int>(k));
  case 3: return std::unique_ptr<ES>(new lc::elementary_space_boson<int>(u64(r.range(1, int(max_dim))), k));
  case 4: return std::unique_ptr<ES>(new lc::elementary_space_spin<int>(0.5, k));
  default: return std::unique_ptr<ES>(new lc::elementary_space_spin<int>(r.range(2, 7) / 2.0, k));
  }
}
void layout(Log& log, HS& h, std::vector<std::unique_ptr<ES>> const& es) {
  std::string s = std::to_string(h.size()) + " " + std::to_string(h.total_n_bits()) + " " + std::to_string(h.dim()) + " " + std::to_string(h.vec_size());
  for(auto const& e : es) {
    s += " ";
    if(!h.has(*e)) { s += "-"; continue; }
    auto b = h.bit_range(*e);
    s += std::to_string(b.first) + ":" + std::to_string(b.second) + "@" + std::to_string(h.index(*e));
  }
  for(int a : {lc::fermion, lc::boson, lc::spin})
    if(h.has_algebra(a)) {
      auto b = h.algebra_bit_range(a);
      s += " " + std::to_string(b.first) + "-" + std::to_string(b.second);
    }
  log("layout", s);
}
} // namespace
MON_SECTION("spaces", 900, 12000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  HS h;
  std::vector<std::unique_ptr<ES>> es;
  int n = r.range(1, 6);
  for(int i = 0; i < n; ++i) {
    es.push_back(random_space(r, r.range(-3, 3), 9));
    bool threw = false;
    try { h.add(*es.back()); } catch(HS::elementary_space_exists const&) { threw = true; }
    log("added", !threw);
  }
  layout(log, h, es);
  if(h.dim() < 20000) {
    auto v = all_states(h);
    log("states", v);
    std::vector<double> y(h.vec_size(), 0.);
    lc::compressed_state_view<std::vector<double>> w(y, h);
    std::vector<u64> ix;
    for(u64 s : v) ix.push_back(w.map_index(s));
    log("compressed", ix);
    std::vector<double> z(h.dim());
    for(std::size_t k = 0; k < z.size(); ++k) z[k] = double(k % 5);
    lc::compressed_state_view<std::vector<double> const> cw(z, h);
    std::vector<u64> seen;
    foreach(cw, [&](u64 s, double x) { seen.push_back(s); seen.push_back(u64(x)); });
    log("traversal", seen);
  }
  HS g(h), q;
  log("copy", g == h);
  for(std::size_t i = es.size(); i-- > 0;)
    if(!q.has(*es[i])) q.add(*es[i]);
  log("reversed", q == h);
  for(std::size_t i = 0; i < es.size(); ++i)
    if(h.has(*es[i])) log("basis state", u64(h.basis_state_index(*es[i], es[i]->dim() - 1)));
  c.nontrivial(std::to_string(log.h));
}
// Spaces near the limit of 63 bits
MON_SECTION("big spaces", 200, 2500) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  HS h;
  std::vector<std::unique_ptr<ES>> es;
  int lim = r.coin() ? 63 : r.range(20, 63);
  for(int i = 0; i < 70; ++i) {
    auto e = random_space(r, i, 1 << r.range(1, 12));
    if(h.total_n_bits() + e->n_bits() > lim) {
      if(lim == 63) {
        bool threw = false;
        try { h.add(*e); } catch(HS::hilbert_space_too_big const& x) { threw = true; log("n_bits", u64(x.n_bits)); }
        log("too big", threw);
      }
      break;
    }
    h.add(*e);
    es.push_back(std::move(e));
  }
  layout(log, h, es);
  int k = 0;
  struct stop {};
  std::vector<u64> first;
  try {
    foreach(h, [&](u64 s) { first.push_back(s); if(++k == 200) throw stop(); });
  } catch(stop const&) {}
  log("first states", first);
  // the numbering of states of a compressed vector
  std::vector<double> none;
  lc::compressed_state_view<std::vector<double>> w(none, h);
  std::vector<u64> ix;
  for(int i = 0; i < 20; ++i) {
    u64 s = 0;
    for(auto const& e : es) if(e->dim() > 1) s |= (r.next() % e->dim()) << h.bit_range(*e).first;
    ix.push_back(s);
    ix.push_back(w.map_index(s));
  }
  log("compressed", ix);
  c.nontrivial(std::to_string(log.h));
}

// Long enumerations: every stride of a space whose dimensions are not powers of two
MON_SECTION("long enumerations", 60, 600) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  HS h;
  u64 total = 1;
  for(int i = 0, n = r.range(1, 4); i < n; ++i) {
    u64 d = (u64(1) << r.range(0, 20)) + u64(r.range(0, 3));
    if(total * d > 1500000) continue;
    total *= d;
    h.add(lc::elementary_space_boson<int>(d, i));
    if(r.coin(0.3) && total < 500000) { h.add(lc::elementary_space_spin<int>(1.0, i)); total *= 3; }
  }
  u64 k = 0, f = 0, prev = 0;
  std::vector<u64> some;
  foreach(h, [&](u64 s) {
    f = f * 0x9e3779b97f4a7c15ull + s;
    if(s != prev + 1 && some.size() < 30) some.push_back(s);
    prev = s;
    ++k;
  });
  log("states", k);
  log("jumps", some);
  log("checksum", f);
  log("last", prev);
  std::vector<double> none;
  lc::compressed_state_view<std::vector<double>> w(none, h);
  log("last compressed", u64(w.map_index(prev)));
  c.nontrivial(std::to_string(log.h));
}

// --- actions --------------------------------------------------------------------------
namespace {
template <typename S> std::string show(S x);
template <> std::string show<double>(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x + 0.0); return b; }
template <> std::string show<cd>(cd x) { return show(x.real()) + "," + show(x.imag()); }
template <> std::string show<mpq_class>(mpq_class x) { return x.get_str(); }

// Operators acting on a few basis states of a wide space
template <typename S> void action(mon::Case& c, bool exact) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  using M = Maker<S, ints, std::tuple<int>>;
  using E = typename M::E;
  M m;
  int nf = r.coin(0.4) ? r.range(30, exact ? 60 : 45) : r.range(1, 8);
  m.p = Pool{nf, exact ? 0 : r.range(1, 3), std::min(63 - nf, r.below(4)), exact ? 0 : r.below(2)};
  HS h;
  std::vector<u64> bd;
  for(int k = 0; k < m.p.nf; ++k) h.add(lc::elementary_space_fermion<int>(k * 3 - 4));
  for(int k = 0; k < m.p.nb; ++k) h.add(lc::elementary_space_boson<int>(u64(r.range(2, 16)), k * 3 - 4));
  for(int k = 0; k < m.p.ns; ++k) h.add(lc::elementary_space_spin<int>(0.5, k * 3 - 4));
  for(int k = 0; k < m.p.ns3; ++k) h.add(lc::elementary_space_spin<int>(1.0, k * 3 - 4));
  E e;
  for(int i = 0; i < 4; ++i) e += m.leaf(r);
  if(r.coin()) e = m.program(r, 4);
  auto op = lc::make_loperator(e, h);
  u64 full = h.total_n_bits() == 64 ? ~u64(0) : (u64(1) << h.total_n_bits()) - 1;
  std::vector<std::pair<u64, S>> src;
  lc::sparse_state_vector<S> v(h.total_n_bits() >= 63 ? (u64(1) << 63) : u64(h.vec_size()));
  auto dims_ok = [&](u64 s) {
    for(int k = 0; k < m.p.nb; ++k) {
      for(u64 d = 2; d <= 16; ++d) {
        lc::elementary_space_boson<int> b(d, k * 3 - 4);
        if(h.has(b)) { auto q = h.bit_range(b); if(((s >> q.first) & ((u64(1) << (q.second - q.first + 1)) - 1)) >= d) return false; }
      }
    }
    for(int k = 0; k < m.p.ns3; ++k) { auto q = h.bit_range(lc::elementary_space_spin<int>(1.0, k * 3 - 4)); if(((s >> q.first) & 3) == 3) return false; }
    return true;
  };
  int got = 0;
  for(int t = 0; t < 60 && got < 6; ++t) {
    u64 s = r.coin(0.3) ? full & ~(r.next() & r.next() & r.next()) : r.next() & full;
    if(!dims_ok(s)) continue;
    v[s] = S(r.range(1, 5));
    ++got;
  }
  auto w = op(v);
  std::map<u64, S> sorted;
  foreach(w, [&](u64 s, S const& x) { sorted[s] = x; });
  if(exact) {
    std::string t;
    for(auto const& q : sorted) t += std::to_string(q.first) + ":" + show(q.second) + " ";
    log("result", t);
  } else {
    cd sum = 0, alt = 0;
    double mag = 0;
    for(auto const& q : sorted) {
      cd x = cd(q.second);
      sum += x;
      alt += x * double(mon::mix(q.first) % 17);
      mag += std::abs(x);
    }
    log.number("sum", sum.real());
    log.number("sum im", sum.imag());
    log.number("weighted", alt.real() / (1 + mag));
    log.number("magnitude", mag);
  }
  c.ev("amplitudes", sorted.size());
  if(!sorted.empty()) c.nontrivial(std::to_string(r.s));
}
} // namespace
MON_SECTION("exact actions", 900, 12000) {
  switch(c.r.below(3)) {
  case 0: action<cd>(c, true); break;
  default: action<double>(c, true);
  }
}
MON_SECTION("actions", 600, 8000) { if(c.r.coin()) action<double>(c, false); else action<cd>(c, false); }
#ifndef NO_EIGEN
MON_SECTION("Eigen", 200, 2500) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  Maker<double, ints, std::tuple<int>> m;
  m.p = Pool{r.range(1, 4), 0, r.below(3), 0};
  auto e = m.program(r, 4);
  HS h;
  for(int k = 0; k < m.p.nf; ++k) h.add(lc::elementary_space_fermion<int>(k * 3 - 4));
  for(int k = 0; k < m.p.ns; ++k) h.add(lc::elementary_space_spin<int>(0.5, k * 3 - 4));
  auto op = lc::make_loperator(e, h);
  Eigen::VectorXd x(h.vec_size());
  for(int i = 0; i < x.size(); ++i) x(i) = r.range(-3, 3);
  Eigen::VectorXd y = op(x), z = Eigen::VectorXd::Constant(2 * x.size(), 7.0);
  op(x, z.head(x.size()));
  std::string t;
  for(int i = 0; i < y.size(); ++i) t += show(double(y(i))) + " ";
  for(int i = 0; i < z.size(); ++i) t += show(double(z(i))) + " ";
  log("result", t);
  c.nontrivial(std::to_string(log.h));
}
#endif

// --- sectors ----------------------------------------------------------------------------
namespace {
template <typename V> void ranks(Log& log, char const* name, V const& v, std::vector<u64> const& list) {
  std::vector<u64> ix;
  for(u64 s : list) ix.push_back(v.map_index(s));
  log(name, ix);
}
using SD = lc::sector_descriptor<HS>;
} // namespace
MON_SECTION("sectors", 500, 6000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  HS h;
  int M = r.range(1, 9), nb = r.below(3);
  for(int k = 0; k < M; ++k) h.add(lc::elementary_space_fermion<int>(k));
  for(int k = 0; k < nb; ++k) h.add(lc::elementary_space_boson<int>(u64(1) << r.range(0, 2), k));
  if(r.coin(0.3)) h.add(lc::elementary_space_spin<int>(0.5, 0));
  unsigned N = unsigned(r.range(0, M));
  log("size", u64(lc::n_fermion_sector_size(h, N)));
  std::vector<u64> list = lc::n_fermion_sector_basis_states(h, N);
  log("states", list);
  std::vector<double> y(list.size());
  for(auto& x : y) x = r.range(0, 5);
  lc::n_fermion_sector_view<std::vector<double>> v(y, h, N);
  ranks(log, "combination", v, list);
  lc::n_fermion_sector_view<std::vector<double>, true, lc::staggered_ranking<3>> v2(y, h, N);
  ranks(log, "staggered", v2, list);
  lc::n_fermion_sector_view<std::vector<double>, true, lc::trie_ranking<3>> v3(y, h, N);
  ranks(log, "trie", v3, list);
  std::vector<u64> seen;
  foreach(v, [&](u64 s, double x) { seen.push_back(s); seen.push_back(u64(x)); });
  log("traversal", seen);
  std::vector<SD> sec;
  std::vector<int> f;
  for(int k = 0; k < M; ++k) f.push_back(k);
  r.shuffle(f);
  std::size_t k = 0;
  u64 expect = 1;
  while(k < f.size() && sec.size() < 4) {
    std::size_t n = 1 + std::size_t(r.below(int(f.size() - k)));
    SD d;
    for(std::size_t i = 0; i < n; ++i) d.indices.insert(std::make_tuple(f[k + i]));
    d.N = unsigned(r.range(0, int(n)));
    sec.push_back(d);
    k += n;
  }
  (void)expect;
  log("multisector size", u64(lc::n_fermion_multisector_size(h, sec)));
  list = lc::n_fermion_multisector_basis_states(h, sec);
  log("multisector states", list);
  y.assign(list.size(), 1.);
  for(auto& x : y) x = r.range(0, 5);
  lc::n_fermion_multisector_view<std::vector<double>> w(y, h, sec);
  ranks(log, "multi combination", w, list);
  lc::n_fermion_multisector_view<std::vector<double>, true, lc::staggered_ranking<2>> w2(y, h, sec);
  ranks(log, "multi staggered", w2, list);
  lc::n_fermion_multisector_view<std::vector<double>, true, lc::trie_ranking<2>> w3(y, h, sec);
  ranks(log, "multi trie", w3, list);
  seen.clear();
  foreach(w, [&](u64 s, double x) { seen.push_back(s); seen.push_back(u64(x)); });
  log("multi traversal", seen);
  c.nontrivial(std::to_string(log.h));
}
MON_SECTION("big sectors", 250, 3000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  HS h;
  int M = r.range(25, 63);
  for(int k = 0; k < M; ++k) h.add(lc::elementary_space_fermion<int>(k));
  if(M < 60 && r.coin()) h.add(lc::elementary_space_boson<int>(4, 0));
  unsigned N = unsigned(r.coin() ? r.range(0, M) : r.coin() ? r.below(5) : M - r.below(5));
  log("size", u64(lc::n_fermion_sector_size(h, N)));
  std::vector<double> none;
  lc::n_fermion_sector_view<std::vector<double>> v(none, h, N);
  lc::n_fermion_sector_view<std::vector<double>, true, lc::staggered_ranking<5>> v2(none, h, N);
  auto state = [&](std::vector<int> f, unsigned n) {
    r.shuffle(f);
    u64 s = 0;
    for(unsigned i = 0; i < n; ++i) s |= u64(1) << f[i];
    return s;
  };
  std::vector<int> f;
  for(int k = 0; k < M; ++k) f.push_back(k);
  std::vector<u64> list, ix;
  for(int i = 0; i < 20; ++i) list.push_back(state(f, N));
  log("states", list);
  ranks(log, "combination", v, list);
  ranks(log, "staggered", v2, list);
  // two sectors
  std::vector<int> a, b;
  for(int k = 0; k < M; ++k) (r.coin() ? a : b).push_back(k);
  if(a.empty() || b.empty()) return;
  SD d1, d2;
  for(int k : a) d1.indices.insert(std::make_tuple(k));
  for(int k : b) d2.indices.insert(std::make_tuple(k));
  d1.N = unsigned(r.range(0, int(a.size())));
  d2.N = unsigned(r.below(4)) % unsigned(b.size() + 1);
  std::vector<SD> sec{d1, d2};
  log("multisector size", u64(lc::n_fermion_multisector_size(h, sec)));
  lc::n_fermion_multisector_view<std::vector<double>> w(none, h, sec);
  list.clear();
  for(int i = 0; i < 20; ++i) list.push_back(state(a, d1.N) | state(b, d2.N));
  log("multi states", list);
  ranks(log, "multi combination", w, list);
  c.nontrivial(std::to_string(log.h));
}

// --- partitions -----------------------------------------------------------------------
MON_SECTION("partitions", 400, 5000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  Maker<double, ints, std::tuple<int>> m;
  m.p = Pool{r.range(1, 5), r.below(2), r.below(3), r.below(2)};
  HS h;
  for(int k = 0; k < m.p.nf; ++k) h.add(lc::elementary_space_fermion<int>(k * 3 - 4));
  for(int k = 0; k < m.p.nb; ++k) h.add(lc::elementary_space_boson<int>(u64(r.range(2, 5)), k * 3 - 4));
  for(int k = 0; k < m.p.ns; ++k) h.add(lc::elementary_space_spin<int>(0.5, k * 3 - 4));
  for(int k = 0; k < m.p.ns3; ++k) h.add(lc::elementary_space_spin<int>(1.0, k * 3 - 4));
  lc::expression<double, int> e = m.leaf(r), b = m.leaf(r);
  if(r.coin()) e += m.leaf(r);
  auto H = lc::make_loperator(lc::expression<double, int>(e + conj(e)), h);
  auto B = lc::make_loperator(b, h), Bd = lc::make_loperator(lc::expression<double, int>(conj(b)), h);
  lc::matrix_elements_map<double> me;
  auto sp = lc::make_space_partition(H, h, me);
  auto st = all_states(h);
  std::vector<u64> v;
  for(u64 s : st) v.push_back(sp[s]);
  log("partition", v);
  v.clear();
  double sum = 0;
  for(auto const& q : me) { v.push_back(q.first.first); v.push_back(q.first.second); sum += q.second * double(1 + q.first.second % 7); }
  log("matrix elements", v);
  log.number("matrix elements", sum);
  v.clear();
  for(auto const& q : sp.find_connections(B)) { v.push_back(q.first); v.push_back(q.second); }
  log("connections", v);
  auto mm = sp.merge_subspaces(B, Bd);
  v.clear();
  for(u64 s : st) v.push_back(sp[s]);
  log("merged", v);
  v.clear();
  for(auto const& q : mm.first) { v.push_back(q.first.first); v.push_back(q.first.second); }
  for(auto const& q : mm.second) { v.push_back(q.first.first); v.push_back(q.first.second); }
  log("merged elements", v);
  if(b.size()) {
    lc::basis_mapper mp(B, h);
    std::map<u64, u64> sorted(mp.map().begin(), mp.map().end());
    v.clear();
    for(auto const& q : sorted) { v.push_back(q.first); v.push_back(q.second); }
    log("mapper", v);
    std::vector<lc::loperator<double, lc::fermion, lc::boson, lc::spin>> ops{B, Bd};
    lc::basis_mapper mp2(ops, h, unsigned(r.range(1, 3)));
    sorted = std::map<u64, u64>(mp2.map().begin(), mp2.map().end());
    v.clear();
    for(auto const& q : sorted) { v.push_back(q.first); v.push_back(q.second); }
    log("mapper of products", v);
  }
  c.nontrivial(std::to_string(log.h));
}
MON_SECTION("sets", 300, 4000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  int n = r.range(1, 40);
  lc::disjoint_sets d{std::size_t(n)};
  for(int k = r.range(0, 80); k > 0; --k) {
    u64 a = u64(r.below(n)), b = u64(r.below(n));
    switch(r.below(5)) {
    case 0: log("root", u64(d.find_root(a))); break;
    case 1: log("same", d.in_same_set(a, b)); break;
    case 2: d.set_union(a, b); break;
    case 3: d.root_union(d.find_root(a), d.find_root(b)); break;
    default: if(r.coin(0.2)) { if(r.coin()) d.compress_sets(); else { d.compress_sets(); d.normalize_sets(); } }
    }
    log("sets", u64(d.n_sets()));
  }
  std::vector<u64> v;
  for(int i = 0; i < n; ++i) v.push_back(d.find_root(std::size_t(i)));
  log("roots", v);
  c.nontrivial(std::to_string(log.h));
}

// --- parametric operators ------------------------------------------------------------------
namespace {
// Linear functions of one parameter
struct Lin {
  double a = 0, b = 0;
  Lin() = default;
  Lin(double x, double y) : a(x), b(y) {}
  double operator()(double t) const { return a + b * t; }
  cd operator()(cd t) const { return a + b * t; }
  int operator()() const { return int(a * 4); }
  double operator()(Lin const& o, double t) const { return a * o.a + b * t; }
  friend Lin operator+(Lin x, Lin const& y) { return Lin(x.a + y.a, x.b + y.b); }
  friend Lin operator-(Lin x, Lin const& y) { return Lin(x.a - y.a, x.b - y.b); }
  friend Lin operator*(Lin x, double k) { return Lin(x.a * k, x.b * k); }
  friend Lin operator*(double k, Lin x) { return x * k; }
  friend Lin operator*(Lin x, Lin y) { return Lin(x.a * y.a, x.a * y.b + x.b * y.a); }
  Lin operator-() const { return Lin(-a, -b); }
  friend std::ostream& operator<<(std::ostream& o, Lin const& l) { return o << "(" << l.a << "+" << l.b << "t)"; }
};
double minus(double t) { return -t; }
} // namespace
namespace libcommute {
template <> struct scalar_traits<Lin> {
  static bool is_zero(Lin const& x) { return x.a == 0 && x.b == 0; }
  static Lin make_const(double x) { return Lin(x, 0); }
  static Lin make_const(var_number const& x) { return Lin(double(x), 0); }
  static Lin conj(Lin const& x) { return x; }
};
} // namespace libcommute
MON_SECTION("parametric", 400, 5000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  Maker<double, ints, std::tuple<int>> m;
  m.p = Pool{r.range(1, 5), 0, r.below(3), 0};
  HS h;
  for(int k = 0; k < m.p.nf; ++k) h.add(lc::elementary_space_fermion<int>(k * 3 - 4));
  for(int k = 0; k < m.p.ns; ++k) h.add(lc::elementary_space_spin<int>(0.5, k * 3 - 4));
  auto e = m.program(r, 3);
  lc::expression<Lin, int> p;
  for(auto const& t : e) p += lc::expression<Lin, int>(Lin(t.coeff, double(r.range(-2, 2))), t.monomial);
  p *= Lin(1, 0.5);
  auto op = lc::make_param_loperator(p, h);
  std::vector<double> x(h.vec_size()), y(h.vec_size(), 9.);
  for(auto& q : x) q = r.range(-3, 3);
  auto put = [&](char const* nm, std::vector<double> const& v) {
    std::string s;
    for(double q : v) s += show(q) + " ";
    log(nm, s);
  };
  op(x, y, 0.25);
  put("two vectors", y);
  put("one vector", op(x, -0.5));
  put("two arguments", op(x, Lin(1, 2), 0.5));
  put("at", op.at(2.0)(x));
  if(m.p.ns == 0) put("no arguments", op(x)); // integers refuse the halves of spins
  std::vector<cd> z(x.begin(), x.end());
  auto w = op(z, cd(0, 0.5));
  std::string s;
  for(auto const& q : w) s += show(q) + " ";
  log("complex", s);
  // ordinary functions
  lc::expression<std::function<double(double)>, int> f;
  (void)f;
  std::vector<double> store;
  op.act_and_store_coeffs(x, y, store, 0.75);
  put("stored", y);
  std::sort(store.begin(), store.end());
  put("coefficients", store);
  (void)&minus;
  if(e.size()) c.nontrivial(std::to_string(log.h));
}

#if __cplusplus >= 201703L
namespace di = libcommute::dynamic_indices;
MON_SECTION("dynamic indices", 300, 4000) {
  auto& r = c.r;
  c.input(std::to_string(r.s));
  Log log(c);
  auto leaf = [&]() -> di::expr_real {
    double x = coeff<double>(r);
    int k = r.range(-2, 3);
    std::string s(r.coin() ? "up" : "1");
    switch(r.below(8)) {
    case 0: return x * di::c_dag(k, s);
    case 1: return x * di::c(k);
    case 2: return x * di::c(s, k, k);
    case 3: return x * di::a_dag(s);
    case 4: return x * di::a(k, "dn");
    case 5: return x * di::S_p(k);
    case 6: return x * di::n("1");
    default: return x * di::S_z<3>(s, k);
    }
  };
  // the order of operands' evaluation differs between compilers
  di::expr_real l[5];
  for(auto& x : l) x = leaf();
  auto a = l[0] + l[1] * l[2], b = l[3] - l[4];
  log("a", text(a));
  log("b", text(b));
  log("ab", text(a * b));
  log("commutator", text(a * b - b * a));
  log("hc", text(a + lc::hc));
  auto h = lc::make_hilbert_space(a * b, lc::boson_es_constructor(4));
  std::vector<u64> v;
  foreach(h, [&](u64 s) { v.push_back(s); if(v.size() > 2000) throw mon::skip_case{}; });
  log("states", v);
  c.nontrivial(std::to_string(log.h));
}
#endif
