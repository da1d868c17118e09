// C24: object lifetimes. A population of library objects built from one another is copied,
// moved, swapped, reassigned and destroyed in random order; every live object keeps showing
// the content it had when it was made. Memory monitors watch for everything else.
#include "nfs.hpp"
#include "part.hpp"

namespace {
using I2 = std::tuple<std::string, int>;
using gen_t = lc::generator<std::string, int>;
using mono_t = lc::monomial<std::string, int>;
using hs_t = lc::hilbert_space<std::string, int>;
using es_t = lc::elementary_space<std::string, int>;
using D = libcommute::dynamic_indices::dyn_indices;
template <typename S> using E = lc::expression<S, std::string, int>;
using LOp = lc::loperator<double, lc::fermion, lc::boson, lc::spin>;
using COp = lc::loperator<std::complex<double>, lc::fermion, lc::boson, lc::spin>;

// Coefficients of parametric expressions own heap memory, too
struct Poly1 {
  std::vector<double> k;
  Poly1() = default;
  Poly1(double x) : k(1, x) {}
  double operator()(double x) const { double s = 0; for(auto it = k.rbegin(); it != k.rend(); ++it) s = s * x + *it; return s; }
  friend Poly1 operator+(Poly1 a, Poly1 const& b) { a.k.resize(std::max(a.k.size(), b.k.size())); for(std::size_t i = 0; i < b.k.size(); ++i) a.k[i] += b.k[i]; return a; }
  friend Poly1 operator-(Poly1 const& a) { Poly1 r(a); for(auto& x : r.k) x = -x; return r; }
  friend Poly1 operator-(Poly1 const& a, Poly1 const& b) { return a + (-b); }
  friend Poly1 operator*(Poly1 const& a, Poly1 const& b) {
    Poly1 r;
    if(a.k.empty() || b.k.empty()) return r;
    r.k.assign(a.k.size() + b.k.size() - 1, 0.);
    for(std::size_t i = 0; i < a.k.size(); ++i) for(std::size_t j = 0; j < b.k.size(); ++j) r.k[i + j] += a.k[i] * b.k[j];
    return r;
  }
  Poly1& operator+=(Poly1 const& b) { return *this = *this + b; }
  Poly1& operator-=(Poly1 const& b) { return *this = *this - b; }
  Poly1& operator*=(Poly1 const& b) { return *this = *this * b; }
  bool zero() const { for(double x : k) if(x != 0) return false; return true; }
  friend bool operator==(Poly1 const& a, Poly1 const& b) { return (a - b).zero(); }
  friend std::ostream& operator<<(std::ostream& os, Poly1 const& p) { return os << mon::vstr(p.k); }
};
} // namespace
namespace libcommute {
template <> struct scalar_traits<Poly1> {
  static bool is_zero(Poly1 const& p) { return p.zero(); }
  static Poly1 make_const(double x) { return x == 0 ? Poly1() : Poly1(x); }
  static Poly1 make_const(var_number const& v) { return make_const(double(v)); }
  static Poly1 conj(Poly1 const& p) { return p; }
};
} // namespace libcommute
namespace {
using POp = lc::parametric_loperator<Poly1, lc::fermion, lc::boson, lc::spin>;

// Objects bundled with what is needed to observe them
template <typename Op> struct WithProbe { Op op; u64 size; std::vector<u64> probe; };
struct Mapped { // view with its mapper
  std::shared_ptr<lc::basis_mapper> m;
  lc::mapped_basis_view<std::vector<double>, false> v;
};
struct Parted { std::shared_ptr<hs_t> h; lc::space_partition<hs_t> p; };
using CV = lc::compressed_state_view<std::vector<double>, false>;
using NV = lc::n_fermion_sector_view<std::vector<double>, false>;
using NS = lc::n_fermion_sector_view<std::vector<double>, false, lc::staggered_ranking<5>>;
using NT = lc::n_fermion_sector_view<std::vector<double>, false, lc::trie_ranking<3>>;
using MV = lc::n_fermion_multisector_view<std::vector<double>, false>;
using MT = lc::n_fermion_multisector_view<std::vector<double>, false, lc::trie_ranking<3>>;
template <typename V> struct RefView { // view of storage owned elsewhere
  std::shared_ptr<std::vector<double>> st;
  V v;
};
using CVR = RefView<lc::compressed_state_view<std::vector<double>, true>>;
using MVR = RefView<lc::n_fermion_multisector_view<std::vector<double> const, true, lc::staggered_ranking<5>>>;

template <typename T> std::string dig(T const& x) { return mon::str(x); }
std::string dig(std::shared_ptr<es_t> const& p) { return std::to_string(p->algebra_id()) + lc::tuple_to_string(p->indices()) + ":" + std::to_string(p->dim()) + "," + std::to_string(p->n_bits()); }
std::string dig(std::shared_ptr<gen_t const> const& p) { return mon::str(*p) + lc::tuple_to_string(p->indices()); }
template <typename V> std::string dig_view(V const& v) {
  std::map<u64, double> m;
  foreach(v, [&](u64 n, double a) { m[n] += a; });
  std::string s;
  for(auto const& q : m) { s += std::to_string(q.first) + ":" + mon::str(q.second) + " "; if(get_element(v, q.first) != q.second) s += "GET-MISMATCH "; }
  return s;
}
std::string dig(CV const& v) { return dig_view(v); }
std::string dig(NV const& v) { return dig_view(v); }
std::string dig(NS const& v) { return dig_view(v); }
std::string dig(NT const& v) { return dig_view(v); }
std::string dig(MV const& v) { return dig_view(v); }
std::string dig(MT const& v) { return dig_view(v); }
std::string dig(Mapped const& v) { return dig_view(v.v); }
template <typename V> std::string dig(RefView<V> const& v) { return dig_view(v.v); }
std::string dig(Parted const& p) {
  std::string s = std::to_string(p.p.n_subspaces()) + ":";
  foreach(p.p, [&](u64 n, u64 k) { s += std::to_string(n) + "/" + std::to_string(k) + " "; });
  return s;
}
std::string dig(hs_t const& h) {
  std::ostringstream o;
  o << h.size() << " " << h.dim() << " " << h.total_n_bits() << " " << h.is_sparse() << ": ";
  h.foreach_elementary_space([&](es_t const& e) {
    auto b = h.bit_range(e);
    o << e.algebra_id() << lc::tuple_to_string(e.indices()) << ":" << e.dim() << "[" << b.first << "," << b.second << "]#" << h.index(e) << " ";
  });
  for(int a : {-3, -2, -1}) if(h.has_algebra(a)) { auto b = h.algebra_bit_range(a); o << a << ":" << b.first << "," << b.second << " "; }
  if(h.dim() < 4000) { u64 n = 0, x = 0; foreach(h, [&](u64 s) { ++n; x = mon::mix(x ^ s); }); o << n << "/" << x; }
  return o.str();
}
template <typename Op, typename... A> std::string dig_op(WithProbe<Op> const& w, A... a) {
  std::ostringstream o;
  o.precision(17);
  using S = std::conditional_t<std::is_same<Op, COp>::value, std::complex<double>, double>;
  for(u64 p : w.probe) {
    lc::sparse_state_vector<S> v(w.size);
    v[p] = 1;
    auto x = w.op(v, a...);
    std::map<u64, S> m;
    foreach(x, [&](u64 n, S const& y) { m[n] = y; });
    o << p << ">";
    for(auto const& q : m) o << q.first << ":" << q.second << " ";
  }
  return o.str();
}
std::string dig(WithProbe<LOp> const& w) { return dig_op(w); }
std::string dig(WithProbe<COp> const& w) { return dig_op(w); }
std::string dig(WithProbe<POp> const& w) {
  std::string s = dig_op(w, 0.5) + dig_op(w, -2.);
  s += dig(WithProbe<LOp>{w.op.at(1.5), w.size, w.probe});
  return s;
}
std::string dig(lc::basis_mapper const& m) { std::map<u64, u64> q(m.map().begin(), m.map().end()); std::string s; for(auto const& p : q) s += std::to_string(p.first) + ">" + std::to_string(p.second) + " "; return s; }
std::string dig(lc::sparse_state_vector<double> const& v) { return std::to_string(v.size()) + " " + dig_view(v); }
std::string dig(lc::disjoint_sets const& d) {
  std::string s = std::to_string(d.n_sets()) + ":";
  for(std::size_t i = 0; i < d.size(); ++i) for(std::size_t j = 0; j < i; ++j) s += d.in_same_set(i, j) ? '1' : '0';
  return s;
}
std::string dig(std::exception_ptr const& p) {
  try { std::rethrow_exception(p); }
  catch(hs_t::elementary_space_exists const& x) { return std::string(x.what()) + lc::tuple_to_string(x.elementary_space_ptr->indices()); }
  catch(hs_t::elementary_space_not_found const& x) { return std::string(x.what()) + lc::tuple_to_string(x.elementary_space_ptr->indices()); }
  catch(lc::unknown_generator<std::string, int> const& x) { return std::string(x.what()) + mon::str(*x.generator_ptr); }
  catch(lc::es_construction_failure<std::string, int> const& x) { return std::string(x.what()) + mon::str(*x.generator_ptr); }
  catch(std::exception const& x) { return x.what(); }
}
// const_iterators keep referring to the objects they come from
struct Iter { std::shared_ptr<E<double>> e; E<double>::const_iterator it; };
std::string dig(Iter const& i) { auto x = *i.it; return mon::str(x.coeff) + mon::str(x.monomial); }

struct Item {
  virtual ~Item() = default;
  virtual std::string digest() const = 0;
  virtual std::unique_ptr<Item> copy() const = 0;
  virtual std::unique_ptr<Item> move() = 0;                // leaves a moved-from object
  virtual bool assign(Item const& from, bool by_move) = 0; // from is of the same type
  virtual bool swap(Item& with) = 0;
  virtual void self_assign() = 0;
  std::string want;
  bool hollow = false; // moved from: may only be assigned to or destroyed
  char const* kind = "";
};
template <typename T> struct Val : Item {
  T x;
  explicit Val(T const& y) : x(y) {}
  explicit Val(T&& y) : x(std::move(y)) {}
  std::string digest() const override { return dig(x); }
  std::unique_ptr<Item> copy() const override { auto* p = new Val(x); p->want = want; p->kind = kind; return std::unique_ptr<Item>(p); }
  std::unique_ptr<Item> move() override { auto* p = new Val(std::move(x)); p->want = want; p->kind = kind; hollow = true; return std::unique_ptr<Item>(p); }
  bool assign(Item const& from, bool by_move) override {
    if constexpr(std::is_copy_assignable<T>::value) {
      auto const& f = dynamic_cast<Val const&>(from);
      if(by_move) { T tmp(f.x); x = std::move(tmp); }
      else x = f.x;
      want = f.want;
      hollow = false;
      return true;
    } else return false;
  }
  bool swap(Item& with) override {
    if constexpr(std::is_copy_assignable<T>::value) {
      auto& f = dynamic_cast<Val&>(with);
      if(std::is_same<T, Iter>::value && this == &with) return true; // debug iterators dislike self-moves
      using std::swap;
      swap(x, f.x);
      std::swap(want, f.want);
      return true;
    } else return false;
  }
  void self_assign() override {
    if constexpr(std::is_copy_assignable<T>::value) { T& y = x; x = y; }
  }
};

struct World {
  mon::Case& c;
  mon::rng& r;
  std::map<int, std::vector<std::unique_ptr<Item>>> pop; // by type
  std::string log;
  static constexpr int n_types = 26;
  explicit World(mon::Case& c_) : c(c_), r(c_.r) {}

  template <typename T> T* get(int type) { // a usable object of a type
    auto& v = pop[type];
    std::vector<Item*> ok;
    for(auto& p : v) if(!p->hollow) ok.push_back(p.get());
    if(ok.empty()) return nullptr;
    return &static_cast<Val<T>*>(r.pick(ok))->x;
  }
  template <typename T> void put(int type, T&& x, char const* kind) {
    using V = Val<std::decay_t<T>>;
    auto* p = new V(std::forward<T>(x));
    p->kind = kind;
    p->want = p->digest();
    auto& v = pop[type];
    c.ev(std::string("made ") + kind);
    // overwrite an object of this type, sometimes a moved-from one
    if(!v.empty() && r.coin(0.3)) {
      std::unique_ptr<Item> q(p);
      if(v[r.below(int(v.size()))]->assign(*q, r.coin())) return;
      v.push_back(std::move(q));
    } else v.emplace_back(p);
    if(v.size() > 6) v.erase(v.begin() + r.below(int(v.size())));
  }
  I2 idx() { return {r.pick(std::vector<std::string>{"", "up", "dn", "a rather long index string which is not stored inline"}), r.below(3)}; }
  std::shared_ptr<gen_t const> gen() {
    auto i = idx();
    int k = r.below(4);
    return std::apply([&](auto const&... a) -> std::shared_ptr<gen_t const> {
      if(k < 2) return std::make_shared<lc::generator_fermion<std::string, int>>(r.coin(), a...);
      if(k == 2) return std::make_shared<lc::generator_boson<std::string, int>>(r.coin(), a...);
      if(r.coin()) return std::make_shared<lc::generator_spin<std::string, int>>(lc::spin_component(r.below(3)), a...);
      return std::make_shared<lc::generator_spin<std::string, int>>(1.0, lc::spin_component(r.below(3)), a...);
    }, i);
  }
  E<double> small() {
    E<double> e;
    for(int t = r.range(1, 3); t > 0; --t) {
      std::vector<std::shared_ptr<gen_t const>> g;
      for(int i = r.range(0, 3); i > 0; --i) g.push_back(gen());
      e += E<double>(double(r.range(-3, 3)), mono_t(std::move(g)));
    }
    return e;
  }
  std::vector<u64> probes(hs_t const& h) {
    std::vector<u64> v;
    std::vector<u64> all;
    foreach(h, [&](u64 s) { all.push_back(s); });
    if(all.empty()) return v;
    for(int i = 0; i < 4; ++i) v.push_back(r.pick(all));
    return v;
  }
  std::vector<double> rnd_vec(u64 n) { std::vector<double> v(n); for(auto& x : v) x = r.range(-5, 5); return v; }
  std::vector<lc::sector_descriptor<hs_t>> sectors(hs_t const& h) {
    std::vector<lc::sector_descriptor<hs_t>> s(r.range(1, 2));
    h.foreach_elementary_space([&](es_t const& e) {
      if(e.algebra_id() == lc::fermion && r.coin(0.8)) s[r.below(int(s.size()))].indices.insert(e.indices());
    });
    for(auto& q : s) q.N = unsigned(r.below(int(q.indices.size()) + 1));
    return s;
  }
  void make() {
    int t = r.below(n_types);
    auto h = [&]() { return get<hs_t>(5); };
    switch(t) {
    case 0: put(0, gen(), "generator"); break;
    case 1: {
      auto* e = get<E<double>>(2);
      auto* g = get<std::shared_ptr<gen_t const>>(0);
      auto* m = get<mono_t>(1);
      if(e && e->size() && r.coin()) { auto it = e->begin(); std::advance(it, r.below(int(e->size()))); put(1, mono_t((*it).monomial), "monomial"); }
      else if(g && m && r.coin()) put(1, concatenate(*m, **g, mono_t({*g})), "monomial");
      else if(m && m->size() && r.coin()) { mono_t x(*m); if(r.coin()) x.append(x); std::size_t a = r.below(int(x.size())), b = r.below(int(x.size())); x.swap_generators(a, b); put(1, std::move(x), "monomial"); }
      else if(m && m->size()) { mono_t q; q.append(std::make_pair(m->begin(), m->begin() + (1 + r.below(int(m->size()))))); put(1, std::move(q), "monomial"); }
      else put(1, mono_t({gen(), gen()}), "monomial");
      break;
    }
    case 2: case 3: {
      auto* a = get<E<double>>(2);
      auto* b = get<E<double>>(2);
      auto* m = get<mono_t>(1);
      if(a && b && a->size() * b->size() < 20 && r.coin(0.6)) {
        switch(r.below(8)) {
        case 0: put(2, *a + *b, "expression"); break;
        case 1: put(2, *a - *b, "expression"); break;
        case 2: put(2, E<double>(*a) * small(), "expression"); break;
        case 3: put(2, conj(*a), "expression"); break;
        case 4: put(2, 2. * *a + lc::hc, "expression"); break;
        case 5: put(2, transform(*a, [](mono_t const& q, double x) { return x * double(q.size() + 1); }), "expression"); break;
        case 6: { E<double> x(*a); x *= x; if(x.size() < 40) put(2, std::move(x), "expression"); break; }
        default: { E<double> x(*a); x -= x; x += *b; put(2, std::move(x), "expression"); }
        }
      } else if(m && r.coin() && m->size() < 5) put(2, E<double>(2., *m), "expression");
      else put(2, small(), "expression");
      // very long expressions are not interesting
      for(auto& p : pop[2]) if(!p->hollow && (static_cast<Val<E<double>>*>(p.get())->x.size() > 40)) { p.reset(new Val<E<double>>(small())); p->kind = "expression"; p->want = p->digest(); }
      break;
    }
    case 4: {
      auto* a = get<E<double>>(2);
      if(a) put(4, E<std::complex<double>>(std::complex<double>(0, 1) * *a), "complex expression");
      break;
    }
    case 5: case 6: case 7: {
      auto* a = get<E<double>>(2);
      auto* b = h();
      auto* s = get<std::shared_ptr<es_t>>(8);
      if(b && s && r.coin(0.4)) {
        hs_t x(*b);
        try { x.add(**s); } catch(...) { put(9, std::current_exception(), "exception"); }
        if(x.total_n_bits() <= 10) put(5, std::move(x), "space");
        break;
      }
      E<double> e = a && r.coin(0.7) ? *a : small();
      try {
        hs_t x = r.coin(0.9) ? hs_t(e, lc::boson_es_constructor(u64(r.range(1, 4)))) : hs_t(e);
        if(x.total_n_bits() <= 10) put(5, std::move(x), "space");
      } catch(...) { put(9, std::current_exception(), "exception"); }
      break;
    }
    case 8: {
      auto i = idx();
      int k = r.below(3);
      std::shared_ptr<es_t> p;
      if(k == 0) p.reset(new lc::elementary_space_fermion<std::string, int>(i));
      else if(k == 1) p.reset(new lc::elementary_space_boson<std::string, int>(u64(r.range(1, 4)), i));
      else p.reset(new lc::elementary_space_spin<std::string, int>(r.coin() ? 0.5 : 1.0, i));
      put(8, std::move(p), "elementary space");
      break;
    }
    case 9: {
      auto* b = h();
      auto* s = get<std::shared_ptr<es_t>>(8);
      if(!b) break;
      try {
        if(s && r.coin()) b->bit_range(**s);
        else if(r.coin()) lc::make_loperator(small(), *b);
        else lc::n_fermion_sector_basis_states(*b, 40);
      } catch(...) { put(9, std::current_exception(), "exception"); }
      break;
    }
    case 10: case 11: case 12: {
      auto* e = get<E<double>>(2);
      auto* z = get<E<std::complex<double>>>(4);
      if(!e) break;
      hs_t tmp(*e, lc::boson_es_constructor(3));
      auto* b = h();
      hs_t const& s = b && r.coin() ? *b : tmp;
      if(s.total_n_bits() > 10) break;
      try {
        u64 n = u64(1) << s.total_n_bits();
        if(r.below(3) == 0 && z) put(11, WithProbe<COp>{COp(*z + E<std::complex<double>>(1.), s), n, probes(s)}, "complex operator");
        else if(r.coin()) put(10, WithProbe<LOp>{LOp(*e * 2., s), n, probes(s)}, "operator");
        else {
          E<Poly1> p = transform(*e, [](mono_t const& m, double x) { Poly1 q(x); q.k.push_back(double(m.size())); q.k.push_back(-x); return q; });
          put(12, WithProbe<POp>{POp(std::move(p), s), n, probes(s)}, "parametric operator");
        }
      } catch(lc::unknown_generator<std::string, int> const&) { put(9, std::current_exception(), "exception"); }
      break;
    }
    case 13: {
      auto* w = get<WithProbe<POp>>(12);
      if(w) put(10, WithProbe<LOp>{w->op.at(double(r.range(-2, 2))), w->size, w->probe}, "operator");
      break;
    }
    case 14: {
      auto* w = get<WithProbe<LOp>>(10);
      auto* b = h();
      if(!w || !b || (u64(1) << b->total_n_bits()) < w->size) break;
      // operators may only be applied to spaces laid out like theirs
      std::vector<lc::sv_index_type> l(w->probe.begin(), w->probe.end());
      put(14, lc::basis_mapper(l), "mapper");
      break;
    }
    case 15: {
      auto* e = get<E<double>>(2);
      if(!e) break;
      auto s = std::make_shared<hs_t>(*e, lc::boson_es_constructor(2));
      if(s->total_n_bits() > 8) break;
      using L1 = std::vector<LOp>;
      put(14, r.coin() ? lc::basis_mapper(LOp(*e, *s), *s) : lc::basis_mapper(L1{LOp(*e, *s)}, *s, unsigned(r.below(3))), "mapper");
      Parted p{s, lc::space_partition<hs_t>(LOp(*e + conj(*e), *s), *s)};
      if(r.coin()) p.p.merge_subspaces(LOp(*e, *s), LOp(conj(*e), *s));
      put(15, std::move(p), "partition");
      break;
    }
    case 16: {
      auto* m = get<lc::basis_mapper>(14);
      if(!m) break;
      auto sm = std::make_shared<lc::basis_mapper>(*m);
      put(16, Mapped{sm, sm->make_view(rnd_vec(sm->size()))}, "mapped view");
      break;
    }
    case 17: {
      auto* b = h();
      if(b && b->total_n_bits() <= 8) put(17, lc::make_comp_state_view(rnd_vec(b->dim()), *b), "compressed view");
      break;
    }
    case 18: {
      auto* b = h();
      if(!b || b->total_n_bits() > 8) break;
      auto st = std::make_shared<std::vector<double>>(rnd_vec(b->dim()));
      put(18, CVR{st, lc::compressed_state_view<std::vector<double>, true>(*st, *b)}, "compressed view by reference");
      break;
    }
    case 19: case 20: {
      auto* b = h();
      if(!b) break;
      int M = 0;
      b->foreach_elementary_space([&](es_t const& e) { M += e.algebra_id() == lc::fermion; });
      unsigned N = unsigned(r.range(0, M));
      try {
        auto v = rnd_vec(lc::n_fermion_sector_size(*b, N));
        int k = r.below(3);
        if(k == 0) put(19, NV(std::move(v), *b, N), "sector view");
        else if(k == 1) put(20, NS(std::move(v), *b, N), "staggered sector view");
        else put(21, NT(v, hs_t(*b), N), "trie sector view");
      } catch(std::runtime_error const&) { put(9, std::current_exception(), "exception"); }
      break;
    }
    case 21: case 22: {
      auto* b = h();
      if(!b) break;
      auto s = sectors(*b);
      try {
        auto v = rnd_vec(lc::n_fermion_multisector_size(*b, s));
        int k = r.below(3);
        if(k == 0) put(22, MV(std::move(v), *b, s), "multisector view");
        else if(k == 1) put(23, MT(v, *b, std::move(s)), "trie multisector view");
        else {
          auto st = std::make_shared<std::vector<double>>(std::move(v));
          put(24, MVR{st, lc::n_fermion_multisector_view<std::vector<double> const, true, lc::staggered_ranking<5>>(*st, *b, s)}, "multisector view by reference");
        }
      } catch(std::runtime_error const&) { put(9, std::current_exception(), "exception"); }
      break;
    }
    case 23: {
      auto* e = get<E<double>>(2);
      if(!e || e->size() == 0) break;
      auto s = std::make_shared<E<double>>(*e);
      auto it = s->begin();
      std::advance(it, r.below(int(s->size())));
      put(25, Iter{s, it}, "iterator");
      break;
    }
    case 24: {
      lc::sparse_state_vector<double> v(100);
      for(int i = 0; i < 10; ++i) update_add_element(v, u64(r.below(100)), double(r.range(-2, 2)));
      if(r.coin()) v.prune();
      put(26, std::move(v), "sparse vector");
      break;
    }
    default: {
      lc::disjoint_sets d(std::size_t(r.range(1, 8)));
      for(int i = 0; i < 6; ++i) {
        d.set_union(std::size_t(r.below(int(d.size()))), std::size_t(r.below(int(d.size()))));
        if(r.coin(0.2)) d.make_set();
      }
      if(r.coin()) { d.compress_sets(); d.normalize_sets(); }
      put(27, std::move(d), "disjoint sets");
      D i1 = r.coin() ? D(r.below(3), std::string("a rather long index string which is not stored inline")) : D();
      put(28, std::move(i1), "index sequence");
    }
    }
  }
  void step() {
    if(r.coin(0.55)) { make(); return; }
    std::vector<int> ts;
    for(auto const& p : pop) if(!p.second.empty()) ts.push_back(p.first);
    if(ts.empty()) return;
    auto& v = pop[r.pick(ts)];
    int i = r.below(int(v.size())), j = r.below(int(v.size()));
    switch(r.below(7)) {
    case 0: if(!v[i]->hollow) { v.push_back(v[i]->copy()); c.ev("copied"); } break;
    case 1: if(!v[i]->hollow) { auto p = v[i]->move(); v.push_back(std::move(p)); c.ev("moved"); } break;
    case 2: if(!v[j]->hollow && i != j) { v[i]->assign(*v[j], false); c.ev("assigned"); } break;
    case 3: if(!v[j]->hollow && i != j) { v[i]->assign(*v[j], true); c.ev("move-assigned"); } break;
    case 4: if(!v[i]->hollow && !v[j]->hollow) { v[i]->swap(*v[j]); c.ev("swapped"); } break;
    case 5: if(!v[i]->hollow) { v[i]->self_assign(); c.ev("self-assigned"); } break;
    default: v.erase(v.begin() + i); c.ev("destroyed");
    }
    if(v.size() > 6) v.erase(v.begin() + r.below(int(v.size())));
  }
  bool audit() {
    for(auto const& p : pop)
      for(auto const& x : p.second) {
        if(x->hollow) continue;
        std::string d = x->digest();
        c.ev("audited");
        if(d != x->want) { c.fail(std::string("CONTENT-CHANGED"), std::string(x->kind) + ": was " + x->want.substr(0, 1200) + " now " + d.substr(0, 1200)); return false; }
      }
    return true;
  }
  void run() {
    int n = r.range(20, 120);
    for(int k = 0; k < n; ++k) {
      c.phase("step " + std::to_string(k));
      step();
      if(k % 10 == 9 && !audit()) return;
    }
    audit();
    // destruction in random order, the rest audited on the way
    std::vector<int> ts;
    for(auto const& p : pop) ts.push_back(p.first);
    r.shuffle(ts);
    std::string kinds;
    for(int t : ts) {
      kinds += std::to_string(t) + "x" + std::to_string(pop[t].size()) + " ";
      pop.erase(t);
      if(r.coin(0.3) && !audit()) return;
    }
    c.input(std::to_string(n) + " steps; populations destroyed in the order " + kinds);
    c.nontrivial(c.in + std::to_string(r.s));
  }
};

// Temporaries: everything an object was built from is gone at the end of the full expression
void temporaries(mon::Case& c) {
  using namespace si;
  auto& r = c.r;
  int a = r.below(4), b = r.below(4);
  c.input("indices " + std::to_string(a) + "," + std::to_string(b));
  c.phase("expressions");
  std::string x("up and a long tail so that it is stored on the heap");
  auto e = c_dag(x + "!", a) * si::c(std::string("up") + std::to_string(b), b) + lc::hc;
  auto e2 = e;
  std::string s0 = mon::str(e);
  { auto t = std::move(e2); e2 = t * t; }
  e2 = e2 + e2 * (1. + e2);
  std::string s1 = mon::str(e2);
  { auto y = make_complex(e2 * 1.); (void)y; }
  c.check(mon::str(e) == s0 && mon::str(e2) == s1, "EXPRESSION");
  c.phase("operators");
  auto op = lc::make_loperator(e + n(x + "!", a), lc::make_hilbert_space(e + n(x + "!", a)));
  auto v = std::vector<double>(4, 1.);
  auto w = op(std::vector<double>(4, 1.));
  auto w2 = op * v;
  c.check(w == w2, "ACTION");
  c.phase("views");
  auto mk = [&] { return lc::make_hilbert_space(e); };
  auto cv = lc::make_comp_state_view(std::vector<double>(4, 2.), mk());
  auto nv = lc::make_nfs_view(std::vector<double>(2, 3.), mk(), 1);
  auto mv = lc::make_nfms_view(std::vector<double>(2, 4.), mk(), {{{std::make_tuple(x + "!", a)}, 1}});
  auto m = lc::basis_mapper(lc::make_loperator(e * e, mk()), mk());
  auto bv = m.make_view(std::vector<double>(m.size(), 5.));
  double sum = 0;
  foreach(cv, [&](u64, double q) { sum += q; });
  foreach(nv, [&](u64, double q) { sum += q; });
  foreach(mv, [&](u64, double q) { sum += q; });
  foreach(bv, [&](u64, double q) { sum += q; });
  c.check(sum == 8. + 6. + 8. + 5. * double(m.size()), "VIEWS", [&] { return mon::str(sum); });
  op(nv, std::vector<double>(4));
  c.phase("complex of temporaries");
  auto z = make_complex(e) + transform(make_complex(e), [](auto const&, std::complex<double> q) { return q; });
  c.check(z == make_complex(2. * e), "COMPLEX");
  c.ev("full expressions");
  c.nontrivial(c.in);
}
} // namespace

MON_SECTION("lifetimes", 2500, 40000) { World(c).run(); }
MON_SECTION("temporaries", 32, 64) { temporaries(c); }
