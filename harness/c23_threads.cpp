// C23: constant objects shared between threads. Several threads use the same constant objects
// at once, in random orders, under a race detector; everything they obtain is compared with
// what one thread obtains from an identical set of objects.
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "hs.hpp"
#include <atomic>
#include <cmath>
#include <iomanip>
#include <mutex>
#include <thread>

using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;
using mon::u64;
namespace {
using D = libcommute::dynamic_indices::dyn_indices;
using V = std::vector<double>;
using CD = std::complex<double>;

// A user-defined algebra: Clifford generators, also mixed terms
template <typename... I> struct gamma : lc::generator<I...> {
  using base = lc::generator<I...>;
  using lf_t = typename base::linear_function_t;
  explicit gamma(std::tuple<I...> const& i) : base(i) {}
  int algebra_id() const override { return 7; }
  lc::var_number swap_with(base const& g2, lf_t& f) const override {
    f.terms.clear();
    f.const_term = base::equal(g2) ? 2 : 0;
    return -1;
  }
  bool simplify_prod(base const& g2, lf_t& f) const override {
    if(!base::equal(g2)) return false;
    f.terms.clear();
    f.const_term = 1;
    return true;
  }
  std::string to_string() const override { return "g(" + lc::tuple_to_string(this->indices()) + ")"; }
};

// Coefficients of parametric operators
struct Lin2 {
  V k; // polynomial
  Lin2() = default;
  Lin2(double x) : k(1, x) {}
  double operator()(double x) const { double s = 0; for(auto it = k.rbegin(); it != k.rend(); ++it) s = s * x + *it; return s; }
  double operator()(std::string const& s, double x) const { return (*this)(x) + double(s.size()); }
  friend Lin2 operator+(Lin2 a, Lin2 const& b) { a.k.resize(std::max(a.k.size(), b.k.size())); for(std::size_t i = 0; i < b.k.size(); ++i) a.k[i] += b.k[i]; return a; }
  friend Lin2 operator-(Lin2 const& a) { Lin2 r(a); for(auto& x : r.k) x = -x; return r; }
  friend Lin2 operator-(Lin2 const& a, Lin2 const& b) { return a + (-b); }
  friend Lin2 operator*(Lin2 const& a, Lin2 const& b) {
    Lin2 r;
    if(a.k.empty() || b.k.empty()) return r;
    r.k.assign(a.k.size() + b.k.size() - 1, 0.);
    for(std::size_t i = 0; i < a.k.size(); ++i) for(std::size_t j = 0; j < b.k.size(); ++j) r.k[i + j] += a.k[i] * b.k[j];
    return r;
  }
  Lin2& operator+=(Lin2 const& b) { return *this = *this + b; }
  Lin2& operator-=(Lin2 const& b) { return *this = *this - b; }
  Lin2& operator*=(Lin2 const& b) { return *this = *this * b; }
  bool zero() const { for(double x : k) if(x != 0) return false; return true; }
  friend bool operator==(Lin2 const& a, Lin2 const& b) { return (a - b).zero(); }
  friend std::ostream& operator<<(std::ostream& os, Lin2 const& p) { return os << mon::vstr(p.k); }
};
} // namespace
namespace libcommute {
template <> struct scalar_traits<Lin2> {
  static bool is_zero(Lin2 const& p) { return p.zero(); }
  static Lin2 make_const(double x) { return x == 0 ? Lin2() : Lin2(x); }
  static Lin2 make_const(var_number const& v) { return make_const(double(v)); }
  static Lin2 conj(Lin2 const& p) { return p; }
};
} // namespace libcommute

namespace {
template <typename... I> struct mk_idx;
template <> struct mk_idx<std::string, int> {
  static std::tuple<std::string, int> get(int k) {
    static char const* const s[] = {"", "dn", "up", "an index which is too long to be stored inline"};
    return {s[k % 4], k / 4 - 1};
  }
};
template <> struct mk_idx<int> { static std::tuple<int> get(int k) { return {3 * k - 4}; } };
template <> struct mk_idx<D> {
  static std::tuple<D> get(int k) {
    switch(k % 4) {
    case 0: return {D(k)};
    case 1: return {D("up", k)};
    case 2: return {D(k, "an index which is too long to be stored inline", 0)};
    default: return {D()};
    }
  }
};

struct Sink {
  std::ostringstream o;
  Sink() { o.precision(13); }
  template <typename T> Sink& operator<<(T const& x) { o << x; return *this; }
  // amplitudes of a vector in increasing order of index
  template <typename Vec> void vec(Vec const& v) {
    std::map<u64, lc::element_type_t<Vec>> m;
    foreach(v, [&](u64 n, lc::element_type_t<Vec> const& x) { m[n] += x; });
    for(auto const& q : m) o << q.first << ":" << q.second << " ";
  }
};

// All shared objects of a case. Built twice from the same random numbers.
template <typename... I> struct Env {
  using gen_t = lc::generator<I...>;
  using gptr = std::shared_ptr<gen_t const>;
  using mono_t = lc::monomial<I...>;
  using hs_t = lc::hilbert_space<I...>;
  using es_t = lc::elementary_space<I...>;
  template <typename S> using E = lc::expression<S, I...>;
  using LOp = lc::loperator<double, lc::fermion, lc::boson, lc::spin>;
  using COp = lc::loperator<CD, lc::fermion, lc::boson, lc::spin>;
  using POp = lc::parametric_loperator<Lin2, lc::fermion, lc::boson, lc::spin>;
  using SP = lc::space_partition<hs_t>;
  using VR = lc::n_fermion_sector_view<V const, true>;
  using VS = lc::n_fermion_sector_view<V const, true, lc::staggered_ranking<3>>;
  using VT = lc::n_fermion_sector_view<V, false, lc::trie_ranking<4>>;
  using MR = lc::n_fermion_multisector_view<V const, true>;
  using MS = lc::n_fermion_multisector_view<V, false, lc::staggered_ranking<3>>;
  using MT = lc::n_fermion_multisector_view<V const, true, lc::trie_ranking<4>>;
  using CV = lc::compressed_state_view<V const, true>;
  using MV = lc::mapped_basis_view<V const, true>;

  std::vector<std::tuple<I...>> idx;
  std::vector<gptr> gens;
  std::vector<mono_t> monos;
  std::unique_ptr<hs_t> big_hs;
  std::unique_ptr<LOp> big_op;
  std::vector<E<double>> ex;      // fermions, bosons, spins
  E<CD> cex;
  E<double> uex;                  // with user-defined generators
  E<mpq_class> qex;
  std::unique_ptr<hs_t> hs, fhs;  // all spaces; spaces whose dimensions are powers of two
  std::vector<std::unique_ptr<es_t>> es;
  std::unique_ptr<LOp> op, hop;
  std::unique_ptr<COp> cop;
  std::unique_ptr<POp> pop;
  V full, comp, sect, msect, mapped;
  lc::sparse_state_vector<double> sparse{1};
  Eigen::VectorXd eig;
  std::unique_ptr<SP> sp;
  std::unique_ptr<LOp> ladder;
  std::unique_ptr<lc::basis_mapper> bm, bm2;
  lc::disjoint_sets ds{0};
  unsigned N = 0;
  std::vector<lc::sector_descriptor<hs_t>> secs;
  std::unique_ptr<VR> vr; std::unique_ptr<VS> vs; std::unique_ptr<VT> vt;
  std::unique_ptr<MR> mr; std::unique_ptr<MS> ms; std::unique_ptr<MT> mt;
  std::unique_ptr<CV> cv;
  std::unique_ptr<MV> mv;
  std::unique_ptr<es_t> absent;

  gptr fer(bool d, std::tuple<I...> const& i) { return std::apply([&](auto const&... a) -> gptr { return std::make_shared<lc::generator_fermion<I...>>(d, a...); }, i); }
  gptr bos(bool d, std::tuple<I...> const& i) { return std::apply([&](auto const&... a) -> gptr { return std::make_shared<lc::generator_boson<I...>>(d, a...); }, i); }
  gptr spn(double s, int k, std::tuple<I...> const& i) { return std::apply([&](auto const&... a) -> gptr { return std::make_shared<lc::generator_spin<I...>>(s, lc::spin_component(k), a...); }, i); }

  template <typename S> S co(mon::rng& r) { int k = r.range(-3, 3); return S(k ? k : 2); }
  gptr random_gen(mon::rng& r, int nf, int nb, int ns) {
    int k = r.below(nf + nb + ns);
    if(k < nf) return fer(r.coin(), idx[k]);
    if(k < nf + nb) return bos(r.coin(), idx[k - nf]);
    return spn((k - nf - nb) % 2 ? 1.0 : 0.5, r.below(3), idx[k - nf - nb]);
  }
  template <typename S> E<S> random_expr(mon::rng& r, int nf, int nb, int ns, int terms, int len) {
    E<S> e;
    for(int t = 0; t < terms; ++t) {
      std::vector<gptr> g;
      for(int i = r.range(0, len); i > 0; --i) {
        g.push_back(random_gen(r, nf, nb, ns));
        if(r.coin(0.3)) g.push_back(g.back());
      }
      e += E<S>(co<S>(r), mono_t(std::move(g)));
    }
    return e;
  }

  Env(u64 seed) {
    mon::rng r(seed);
    int nf = r.range(1, 4), nb = r.range(0, 2), ns = r.range(0, 2);
    std::vector<int> ks;
    for(int i = 0; i < 12; ++i) ks.push_back(i);
    r.shuffle(ks);
    std::set<std::tuple<I...>> seen;
    for(int k : ks) { auto t = mk_idx<I...>::get(k); if(seen.insert(t).second) idx.push_back(t); }
    for(int i = 0; i < 6; ++i) gens.push_back(random_gen(r, nf, nb, ns));
    for(int i = 0; i < 3; ++i) gens.push_back(std::make_shared<gamma<I...>>(idx[i]));
    for(int i = 0; i < 4; ++i) {
      std::vector<gptr> g;
      for(int k = r.range(0, 5); k > 0; --k) g.push_back(r.pick(gens));
      monos.emplace_back(std::move(g));
    }
    for(int i = 0; i < 3; ++i) ex.push_back(random_expr<double>(r, nf, nb, ns, 3, 3));
    // powers for the printer
    if(nb) { E<double> b(2., mono_t({bos(true, idx[0]), bos(true, idx[0]), bos(false, idx[0])})); ex[0] += b; }
    cex = CD(0.5, 1) * ex[1] + CD(0, 1);
    qex = random_expr<mpq_class>(r, nf, nb, 0, 3, 3);
    for(int t = 0; t < 3; ++t) {
      std::vector<gptr> g;
      for(int i = r.range(1, 3); i > 0; --i) g.push_back(gens[r.coin(0.7) ? r.range(6, 8) : r.below(6)]);
      uex += E<double>(co<double>(r), mono_t(std::move(g)));
    }
    // spaces
    u64 bd = u64(r.range(1, 4));
    hs.reset(new hs_t());
    fhs.reset(new hs_t());
    auto put = [&](es_t const& e, bool both) { es.push_back(e.clone()); hs->add(e); if(both) fhs->add(e); };
    for(int i = 0; i < nf; ++i) put(lc::elementary_space_fermion<I...>(idx[i]), true);
    for(int i = 0; i < nb; ++i) put(lc::elementary_space_boson<I...>(bd, idx[i]), false);
    for(int i = 0; i < ns; ++i) put(lc::elementary_space_spin<I...>(i % 2 ? 1.0 : 0.5, idx[i]), i % 2 == 0);
    absent.reset(new lc::elementary_space_boson<I...>(3, idx[5]));
    op.reset(new LOp(ex[0], *hs));
    cop.reset(new COp(cex, *hs));
    E<double> h = ex[0] + conj(ex[0]) + ex[2];
    hop.reset(new LOp(h, *hs));
    pop.reset(new POp(transform(h, [](mono_t const& m, double x) { Lin2 q(x); q.k.push_back(double(m.size())); return q; }), *hs));
    auto fill = [&](V& v, u64 n) { v.resize(n); for(auto& x : v) x = r.range(-4, 4); };
    fill(full, hs->vec_size());
    foreach(*hs, [&](u64 s) { full[s] += 16; }); // marks physical states
    for(u64 s = 0; s < full.size(); ++s) full[s] = full[s] > 8 ? full[s] - 16 : 0;
    fill(comp, hs->dim());
    sparse = lc::sparse_state_vector<double>(hs->vec_size());
    eig = Eigen::VectorXd::Zero(Eigen::Index(hs->vec_size()));
    for(u64 s = 0; s < full.size(); ++s) { eig(Eigen::Index(s)) = full[s]; if(s % 3 && full[s] != 0) sparse[s] = full[s]; }
    // a mode with high occupation numbers and a large spin
    {
      big_hs.reset(new hs_t());
      big_hs->add(lc::elementary_space_boson<I...>(300, idx[0]));
      big_hs->add(lc::elementary_space_spin<I...>(90.0, idx[1]));
      E<double> q(2., mono_t({bos(true, idx[0]), bos(false, idx[0])}));
      q += E<double>(1., mono_t({bos(r.coin(), idx[0])}));
      if(r.coin()) q += E<double>(0.5, mono_t({bos(true, idx[0]), bos(true, idx[0])}));
      std::shared_ptr<const gen_t> sg = std::apply([&](auto const&... a) -> std::shared_ptr<const gen_t> {
        return std::make_shared<lc::generator_spin<I...>>(90.0, r.coin() ? lc::plus : lc::minus, a...); }, idx[1]);
      q += E<double>(1., mono_t({sg}));
      q += E<double>(1., mono_t({sg, sg}));
      big_op.reset(new LOp(q, *big_hs));
    }
    sp.reset(new SP(*hop, *hs));
    ladder.reset(new LOp(E<double>(1., mono_t({fer(true, idx[0])})), *hs));
    LOp dn(E<double>(1., mono_t({fer(false, idx[0])})), *hs);
    if(r.coin()) sp->merge_subspaces(*ladder, dn, r.coin());
    bm.reset(new lc::basis_mapper(sp->subspace_basis(0)));
    std::vector<LOp> l;
    for(int i = 0; i < nf; ++i) l.emplace_back(E<double>(1., mono_t({fer(true, idx[i])})), *hs);
    bm2.reset(new lc::basis_mapper(l, *hs, unsigned(r.range(0, nf))));
    fill(mapped, bm->size());
    ds = lc::disjoint_sets(12);
    for(int i = 0; i < 8; ++i) ds.set_union(u64(r.below(12)), u64(r.below(12)));
    ds.compress_sets(); // queries of sets that are not compressed are not read-only
    N = unsigned(r.range(0, nf));
    secs.resize(std::size_t(r.range(1, 2)));
    for(int i = 0; i < nf; ++i) if(r.coin(0.7)) secs[std::size_t(r.below(int(secs.size())))].indices.insert(idx[i]);
    for(auto& q : secs) q.N = unsigned(r.range(0, int(q.indices.size())));
    fill(sect, lc::n_fermion_sector_size(*fhs, N));
    fill(msect, lc::n_fermion_multisector_size(*fhs, secs));
    vr.reset(new VR(sect, *fhs, N)); vs.reset(new VS(sect, *fhs, N)); vt.reset(new VT(V(sect), *fhs, N));
    mr.reset(new MR(msect, *fhs, secs)); ms.reset(new MS(V(msect), *fhs, secs)); mt.reset(new MT(msect, *fhs, secs));
    cv.reset(new CV(comp, *hs));
    mv.reset(new MV(mapped, bm->map()));
  }
};

template <typename... I> struct Jobs {
  using X = Env<I...>;
  using F = std::function<void(X const&, Sink&)>;
  std::vector<std::pair<char const*, F>> v;
  template <typename T> static void view(T const& w, Sink& o) {
    o.vec(w);
    std::vector<u64> states;
    foreach(w, [&](u64 n, double) { states.push_back(n); });
    for(u64 n : states) o << get_element(w, n) << ",";
    T copy(w);
    o.vec(copy);
  }
  // traversal and ranking of a sector through its own kind of view
  template <typename T> static void sector(T const& w, Sink& o) {
    std::vector<u64> states;
    foreach(w, [&](u64 n, double a) {
      if(a != 0) o << n << "=" << a << " ";
      states.push_back(n);
      if(states.size() % 3 == 0) foreach(w, [&](u64 m, double) { o << (m & 1); });
    });
    for(u64 n : states) o << w.map_index(n) << "/" << get_element(w, n) << " ";
    T copy(w);
    foreach(copy, [&](u64 n, double a) { o << n << ":" << a << " "; });
  }
  Jobs() {
    auto add = [&](char const* n, F f) { v.emplace_back(n, std::move(f)); };
    add("print expressions", [](X const& x, Sink& o) { for(auto const& e : x.ex) o << e << "\n"; o << x.cex << x.uex << x.qex; });
    add("print monomials", [](X const& x, Sink& o) { for(auto const& m : x.monos) o << m << m.size(); for(auto const& g : x.gens) o << *g << lc::tuple_to_string(g->indices()); });
    add("iterate", [](X const& x, Sink& o) {
      for(auto const& t : x.ex[0]) { o << t.coeff << "*"; for(auto const& g : t.monomial) o << g.algebra_id() << lc::tuple_to_string(g.indices()); }
      for(auto it = x.ex[1].begin(); it != x.ex[1].end(); ++it) o << it->coeff << it->monomial;
    });
    add("compare generators", [](X const& x, Sink& o) { for(auto const& a : x.gens) for(auto const& b : x.gens) o << (*a == *b) << (*a < *b) << (*a > *b) << (*a != *b); });
    add("compare monomials", [](X const& x, Sink& o) { for(auto const& a : x.monos) for(auto const& b : x.monos) o << (a == b) << (a < b) << (a > b) << a.is_ordered(); });
    add("generator relations", [](X const& x, Sink& o) {
      for(auto const& a : x.gens) {
        typename X::gen_t::linear_function_t f;
        for(auto const& b : x.gens) {
          if(a->algebra_id() == b->algebra_id() && *a > *b) { o << double(a->swap_with(*b, f)); o << double(f.const_term) << f.terms.size(); }
          if(a->algebra_id() == b->algebra_id() && !(*a > *b) && a->simplify_prod(*b, f)) { o << double(f.const_term); for(auto const& t : f.terms) o << double(t.second) << *t.first; }
        }
        a->conj(f);
        for(auto const& t : f.terms) o << *t.first;
        if(a->reduce_power(3, f)) o << double(f.const_term);


      }
    });
    add("monomial operations", [](X const& x, Sink& o) {
      auto m = concatenate(x.monos[0], x.monos[1], *x.gens[0]);
      m.append(x.monos[2]);
      if(m.size() > 1) m.swap_generators(0, m.size() - 1);
      o << m << x.monos[0];
      for(auto it = x.monos[1].rbegin(); it != x.monos[1].rend(); ++it) o << *it;
    });
    add("products", [](X const& x, Sink& o) { auto p = x.ex[0] * x.ex[1]; o << p << (p == x.ex[0] * x.ex[1]) << x.ex[0] * x.ex[0] << x.uex * x.uex; });
    add("sums", [](X const& x, Sink& o) { o << x.ex[0] + x.ex[1] - x.ex[2] << 2. * x.ex[0] << x.ex[1] * 0.5 << -x.ex[2] << x.ex[0] + 3. << x.ex[0] - x.ex[0]; });
    add("exact products", [](X const& x, Sink& o) { typename X::template E<mpq_class> p = x.qex * x.qex; p += x.qex; p *= mpq_class(2, 3); o << p; });
    add("complex products", [](X const& x, Sink& o) { o << x.cex * x.ex[0] << conj(x.cex) << x.cex - CD(1, 1); });
    add("conjugate", [](X const& x, Sink& o) { for(auto const& e : x.ex) o << conj(e); o << conj(x.uex); typename X::template E<double> h = x.ex[0] + lc::hc; o << h; });
    add("modified copies", [](X const& x, Sink& o) {
      auto e = x.ex[0];
      e += x.ex[1]; e *= x.ex[2]; e -= x.ex[0]; e *= 2.; e += 1.;
      o << e;
      e.clear();
      o << e << e.size();
      auto a = x.ex[1], b = x.ex[2];
      std::swap(a, b);
      a *= a;
      o << a << b << (x.ex[1] == x.ex[2]);
    });
    add("transform", [](X const& x, Sink& o) { o << transform(x.ex[0], [](typename X::mono_t const& m, double c) { return c * double(m.size()); }); });
    add("query space", [](X const& x, Sink& o) {
      o << x.hs->size() << " " << x.hs->dim() << " " << x.hs->total_n_bits() << x.hs->is_sparse() << x.hs->vec_size();
      for(auto const& e : x.es) { auto b = x.hs->bit_range(*e); o << x.hs->has(*e) << x.hs->index(*e) << x.hs->dim(*e) << b.first << b.second; }
      for(int a : {-3, -2, -1, 0}) if(x.hs->has_algebra(a)) { auto b = x.hs->algebra_bit_range(a); o << b.first << b.second; }
      x.hs->foreach_elementary_space([&](typename X::es_t const& e) { o << e.algebra_id() << lc::tuple_to_string(e.indices()) << e.dim() << e.n_bits(); });
    });
    add("high occupation numbers", [](X const& x, Sink& o) {
      auto& h = *x.big_hs;
      for(int k = 0; k < 12; ++k) {
        u64 n = u64(k * 53 % 290 + 9), m = u64(k * 37 % 181);
        lc::sparse_state_vector<double> v(h.vec_size());
        v[n | (m << 9)] = 1;
        o.vec((*x.big_op)(v));
      }
    });
    add("traverse space", [](X const& x, Sink& o) {
      foreach(*x.hs, [&](u64 s) { o << s << " "; });
      u64 n = 0;
      try { foreach(*x.hs, [&](u64 s) { if(++n == 3) throw s; }); } catch(u64 s) { o << "thrown " << s; }
      foreach(*x.fhs, [&](u64 s) { if(s < 3) foreach(*x.hs, [&](u64 t) { o << t; }); });
    });
    add("modify copy of space", [](X const& x, Sink& o) {
      auto h = *x.hs;
      h.add(*x.absent);
      o << h.size() << h.dim() << (h == *x.hs) << (*x.hs == *x.fhs);
      for(auto const& e : x.es) o << h.basis_state_index(*e, e->dim() - 1) << " ";
      foreach(h, [&](u64 s) { o << s; });
    });
    add("rejections", [](X const& x, Sink& o) {
      try { x.hs->index(*x.absent); } catch(std::exception const& e) { o << e.what(); }
      auto h = *x.hs;
      try { h.add(*x.es[0]); } catch(std::exception const& e) { o << e.what(); }
      try { lc::n_fermion_sector_basis_states(*x.fhs, 60); } catch(std::exception const& e) { o << e.what(); }
      try { typename X::hs_t f; lc::make_loperator(x.ex[0] + x.ex[1], f); } catch(std::exception const& e) { o << e.what(); }
    });
    add("new spaces", [](X const& x, Sink& o) {
      typename X::hs_t h(x.ex[0], lc::boson_es_constructor(3));
      o << h.dim() << h.size();
      auto g = lc::make_hilbert_space(x.ex[1] + x.ex[2], lc::boson_es_constructor(2));
      foreach(g, [&](u64 s) { o << s << " "; });
    });
    add("apply operator", [](X const& x, Sink& o) {
      V d(x.full.size(), 7.);
      (*x.op)(x.full, d);
      o.vec(d);
      o.vec((*x.hop)(x.full));
      auto op2 = *x.op;
      o.vec(op2(x.sparse));
      Eigen::VectorXd e(x.eig.size());
      (*x.hop)(x.eig, e);
      o.vec(e);
      o.vec(*x.op * x.full);
    });
    add("apply complex operator", [](X const& x, Sink& o) {
      std::vector<CD> s(x.full.begin(), x.full.end()), d(s.size());
      (*x.cop)(s, d);
      o.vec(d);
    });
    add("apply parametric operator", [](X const& x, Sink& o) {
      for(double p : {0.5, -2., 0.}) { V d(x.full.size()); (*x.pop)(x.full, d, p); o.vec(d); }
      o.vec((*x.pop)(x.full, std::string("abc"), 1.));
      auto a = x.pop->at(3.);
      o.vec(a(x.full));
      V co;
      V d(x.full.size());
      x.pop->act_and_store_coeffs(x.full, d, co, 2.);
      o.vec(d);
      std::sort(co.begin(), co.end());
      for(double k : co) o << k << " ";
    });
    add("new operators", [](X const& x, Sink& o) {
      auto l = lc::make_loperator(x.ex[2], *x.hs);
      o.vec(l(x.full));
      typename X::LOp l2(x.ex[0] * x.ex[1], *x.hs);
      o.vec(l2(x.full));
    });
    add("sparse vector", [](X const& x, Sink& o) {
      auto const& s = x.sparse;
      o << s.size() << s.n_nonzeros();
      for(u64 i = 0; i < s.size(); ++i) o << get_element(s, i) << ",";
      o.vec(s);
      auto t = s;
      t[0] = 3; update_add_element(t, 1, 2.5);
      o.vec(t);
      lc::sparse_state_vector<double> z = zeros_like(s);
      o << t.n_nonzeros();
      o << z.size() << z.n_nonzeros();
    });
    add("partition", [](X const& x, Sink& o) {
      o << x.sp->dim() << " " << x.sp->n_subspaces() << " ";
      foreach(*x.sp, [&](u64 n, u64 k) { o << n << "/" << k << " "; });
      foreach(*x.hs, [&](u64 s) { o << (*x.sp)[s] << " "; });
      for(auto const& b : x.sp->subspace_bases()) o << mon::vstr(b);
      o << mon::vstr(x.sp->subspace_basis(0));
      auto cn = x.sp->find_connections(*x.ladder);
      std::set<std::pair<u64, u64>> c(cn.begin(), cn.end());
      for(auto const& q : c) o << q.first << ">" << q.second << " ";
    });
    add("new partition", [](X const& x, Sink& o) {
      lc::matrix_elements_map<double> m;
      typename X::SP p(*x.hop, *x.hs, m);
      o << p.n_subspaces() << m.size();
      foreach(p, [&](u64 n, u64 k) { o << n << "/" << k << " "; });
      p.merge_subspaces(*x.ladder, *x.ladder);
      o << p.n_subspaces();
    });
    add("disjoint sets", [](X const& x, Sink& o) {
      for(u64 i = 0; i < x.ds.size(); ++i) for(u64 j = 0; j < i; ++j) o << x.ds.in_same_set(i, j);
      o << x.ds.n_sets();
      auto d = x.ds;
      d.set_union(0, 1);
      d.normalize_sets();
      o << d.n_sets() << d.find_root(1);
    });
    add("mappers", [](X const& x, Sink& o) {
      for(auto const* b : {x.bm.get(), x.bm2.get()}) {
        std::map<u64, u64> m(b->map().begin(), b->map().end()), iv;
        for(auto const& q : b->inverse_map()) iv.insert(q);
        for(auto const& q : m) o << q.first << ">" << q.second << " ";
        o << b->size() << iv.size();
      }
      auto v2 = x.bm->make_const_view(x.mapped);
      view(v2, o);
      V mine(x.mapped.size(), 1.);
      auto v3 = x.bm->make_view(mine);
      set_zeros(v3);
      for(auto const& q : x.bm->map()) update_add_element(v3, q.first, double(q.second));
      o << mon::vstr(mine);
      lc::basis_mapper nb(*x.ladder, *x.hs);
      o << nb.size();
    });
    add("apply through mapped views", [](X const& x, Sink& o) {
      V d(x.mapped.size());
      auto dv = x.bm->make_view(d);
      (*x.hop)(*x.mv, dv); // subspace 0 is invariant
      for(double q : d) o << q << " ";
    });
    add("mapped view", [](X const& x, Sink& o) { view(*x.mv, o); });
    add("compressed view", [](X const& x, Sink& o) {
      view(*x.cv, o);
      foreach(*x.hs, [&](u64 s) { o << x.cv->map_index(s) << " "; });
      V d(x.comp.size());
      auto dv = lc::make_comp_state_view(d, *x.hs);
      (*x.op)(*x.cv, dv);
      for(double q : d) o << q << " ";
    });
    add("sector view", [](X const& x, Sink& o) { sector(*x.vr, o); });
    add("staggered sector view", [](X const& x, Sink& o) { sector(*x.vs, o); });
    add("trie sector view", [](X const& x, Sink& o) { sector(*x.vt, o); });
    add("multisector view", [](X const& x, Sink& o) { sector(*x.mr, o); });
    add("staggered multisector view", [](X const& x, Sink& o) { sector(*x.ms, o); });
    add("trie multisector view", [](X const& x, Sink& o) { sector(*x.mt, o); });
    add("sector sizes and states", [](X const& x, Sink& o) {
      o << lc::n_fermion_sector_size(*x.fhs, x.N) << mon::vstr(lc::n_fermion_sector_basis_states(*x.fhs, x.N));
      o << lc::n_fermion_multisector_size(*x.fhs, x.secs) << mon::vstr(lc::n_fermion_multisector_basis_states(*x.fhs, x.secs));
    });
    add("new sector views", [](X const& x, Sink& o) {
      V d(x.sect.size());
      lc::n_fermion_sector_view<V, true> w(d, *x.fhs, x.N);
      foreach(*x.vr, [&](u64 n, double a) { update_add_element(w, n, 2 * a); });
      o << mon::vstr(d);
      V e(x.msect.size());
      auto w2 = lc::make_nfms_view(e, *x.fhs, x.secs);
      foreach(*x.mr, [&](u64 n, double a) { update_add_element(w2, n, a + 1); });
      o << mon::vstr(e);
    });
    add("containers", [](X const& x, Sink& o) {
      o.vec(x.full);
      for(u64 i = 0; i < x.full.size(); ++i) o << get_element(x.full, i) << get_element(x.eig, i);
      V z = lc::zeros_like(x.full);
      o << z.size();
    });
  }
};

// A reusable starting line
struct Gate {
  std::atomic<int> n{0};
  void wait(int k) { ++n; while(n.load(std::memory_order_relaxed) % k) {} } // all threads at once
};

template <typename... I> void shared_case(mon::Case& c) {
  auto& r = c.r;
  static Jobs<I...> const jobs;
  u64 seed = r.next();
  int nt = r.range(2, 6), n = int(jobs.v.size());
  // every thread does its list of jobs; some lists concentrate on few jobs
  std::vector<std::vector<int>> todo(static_cast<std::size_t>(nt));
  std::vector<int> few;
  for(int i = 0; i < 3; ++i) few.push_back(r.below(n));
  bool conc = r.coin();
  for(auto& t : todo) {
    int len = r.range(4, 12);
    for(int i = 0; i < len; ++i) t.push_back(conc ? r.pick(few) : r.below(n));
  }
  std::string in = std::to_string(nt) + " threads:";
  for(auto const& t : todo) { in += " ["; for(int j : t) in += std::string(jobs.v[j].first) + "; "; in += "]"; }
  c.input(in);
  // built by the threads' parent, never used before the threads start
  auto shared = std::make_shared<Env<I...> const>(seed);
  std::vector<std::vector<std::string>> got(todo.size());
  std::vector<u64> seeds;
  for(int i = 0; i < nt; ++i) seeds.push_back(r.next());
  Gate gate;
  std::vector<std::thread> th;
  c.phase("threads running");
  for(int i = 0; i < nt; ++i)
    th.emplace_back([&, i] {
      mon::rng q(seeds[std::size_t(i)]);
      gate.wait(nt);
      for(int j : todo[std::size_t(i)]) {
        if(q.coin(0.3)) std::this_thread::yield();
        Sink s;
        try { jobs.v[std::size_t(j)].second(*shared, s); } catch(std::exception const& e) { s << "EXC " << e.what(); } catch(mon::skip_case const&) { s << "SKIP"; }
        got[std::size_t(i)].push_back(s.o.str());
      }
    });
  for(auto& t : th) t.join();
  c.phase("one thread");
  // the same by one thread with objects of its own
  Env<I...> alone(seed);
  std::map<int, std::string> want;
  for(std::size_t i = 0; i < todo.size(); ++i)
    for(std::size_t k = 0; k < todo[i].size(); ++k) {
      int j = todo[i][k];
      if(!want.count(j)) {
        Sink s;
        try { jobs.v[std::size_t(j)].second(alone, s); } catch(std::exception const& e) { s << "EXC " << e.what(); } catch(mon::skip_case const&) { s << "SKIP"; }
        want[j] = s.o.str();
      }
      c.ev(std::string("job ") + jobs.v[std::size_t(j)].first);
      if(want[j].find("EXC ") != std::string::npos) c.ev("rejected " + want[j].substr(want[j].find("EXC "), 50));
      c.check(got[i][k] == want[j], "RESULT", [&] { return std::string(jobs.v[std::size_t(j)].first) + ": thread " + std::to_string(i) + " obtained " + got[i][k].substr(0, 600) + " expected " + want[j].substr(0, 600); });
    }
  // the shared objects are what they were
  for(int i = 0; i < 3; ++i) {
    int j = r.below(n);
    Sink a, b;
    auto run = [&](Env<I...> const& e, Sink& s) { try { jobs.v[std::size_t(j)].second(e, s); } catch(std::exception const& x) { s << "EXC " << x.what(); } };
    run(*shared, a);
    run(alone, b);
    c.check(a.o.str() == b.o.str(), "AFTERWARDS", [&] { return std::string(jobs.v[std::size_t(j)].first) + ": " + a.o.str().substr(0, 600) + " expected " + b.o.str().substr(0, 600); });
  }
  c.ev("threads", u64(nt));
  c.nontrivial(in + std::to_string(seed));
}
} // namespace

MON_SECTION("shared/string-int", 1000, 40000) { shared_case<std::string, int>(c); }
MON_SECTION("shared/int", 700, 30000) { shared_case<int>(c); }
MON_SECTION("shared/dynamic", 1000, 40000) { shared_case<D>(c); }

// The last owners of shared objects are different threads
MON_SECTION("handover", 500, 10000) {
  auto& r = c.r;
  using X = Env<std::string, int>;
  u64 seed = r.next();
  int nt = r.range(2, 5);
  X ref(seed);
  std::ostringstream w;
  w << ref.ex[0] << ref.monos[0] << *ref.gens[0] << ref.hs->dim();
  auto own = std::make_unique<X>(seed);
  std::vector<std::string> got(static_cast<std::size_t>(nt));
  std::vector<std::thread> th;
  c.input(std::to_string(nt) + " threads, copies of " + mon::str(ref.ex[0]));
  Gate gate;
  for(int i = 0; i < nt; ++i)
    // each thread has copies sharing the generators of the originals
    th.emplace_back([&got, &gate, nt, i, e = own->ex[0], m = own->monos[0], g = own->gens[0], h = *own->hs, op = *own->op, v = own->full]() mutable {
      gate.wait(nt);
      std::ostringstream o;
      o << e << m << *g << h.dim();
      got[std::size_t(i)] = o.str();
      e *= e;
      m.append(m);
      auto x = op(v);
      g.reset();
    });
  own.reset();
  for(auto& t : th) t.join();
  for(auto const& s : got) c.check(s == w.str(), "COPIES", [&] { return s + " expected " + w.str(); });
  c.ev("threads", u64(nt));
  c.nontrivial(seed);
}
