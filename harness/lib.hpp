// Bridge between libcommute objects (public interface only) and the reference
// model, and random generation of programs over expressions.
#pragma once
#include "mon.hpp"
#include "ref.hpp"
#include <libcommute/libcommute.hpp>
#include <libcommute/scalars/gmpxx.hpp>
#include <stdexcept>

namespace lc = libcommute;
namespace si = libcommute::static_indices;

namespace ref {

struct bad_content : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// A set of modes with their indices. Modes are stored in the canonical order
// within each algebra, so that mode positions reflect the order of indices.
template <typename... I> struct Universe {
  Model model;
  std::vector<std::tuple<I...>> idx;
  using gen_t = lc::generator<I...>;
  using gptr = std::shared_ptr<const gen_t>;

  int add(Mode m, std::tuple<I...> i) {
    model.modes.push_back(m);
    idx.push_back(std::move(i));
    return int(idx.size()) - 1;
  }
  int size() const { return int(idx.size()); }

  gptr gen(Letter l) const {
    return std::apply(
        [&](auto const&... i) -> gptr {
          Mode const& m = model.modes[l.mode];
          if(m.alg == FERMION) return std::make_shared<lc::generator_fermion<I...>>(l.kind == 1, i...);
          if(m.alg == BOSON) return std::make_shared<lc::generator_boson<I...>>(l.kind == 1, i...);
          auto sc = static_cast<lc::spin_component>(l.kind);
          if(m.mult == 2) return std::make_shared<lc::generator_spin<I...>>(sc, i...);
          return std::make_shared<lc::generator_spin<I...>>((m.mult - 1) / 2.0, sc, i...);
        },
        idx[l.mode]);
  }
  lc::monomial<I...> mono(Word const& w) const {
    std::vector<gptr> g;
    for(auto l : w) g.push_back(gen(l));
    return lc::monomial<I...>(std::move(g));
  }

  Letter read(gen_t const& g) const {
    int alg, mult = 2, kind;
    if(g.algebra_id() == lc::fermion) {
      alg = FERMION;
      kind = dynamic_cast<lc::generator_fermion<I...> const&>(g).dagger();
    } else if(g.algebra_id() == lc::boson) {
      alg = BOSON;
      kind = dynamic_cast<lc::generator_boson<I...> const&>(g).dagger();
    } else if(g.algebra_id() == lc::spin) {
      alg = SPIN;
      auto const& s = dynamic_cast<lc::generator_spin<I...> const&>(g);
      mult = s.multiplicity();
      kind = int(s.component());
    } else
      throw bad_content("unknown algebra in result");
    for(int m = 0; m < size(); ++m)
      if(model.modes[m].alg == alg && (alg != SPIN || model.modes[m].mult == mult) &&
         idx[m] == g.indices())
        return {m, kind};
    throw bad_content("generator with unknown indices in result");
  }
  Word read(lc::monomial<I...> const& m) const {
    Word w;
    for(auto const& g : m) w.push_back(read(g));
    return w;
  }
  template <typename S> Poly read(lc::expression<S, I...> const& e) const {
    Poly p;
    for(auto const& t : e) p.t.push_back({to_c(t.coeff), read(t.monomial)});
    return p;
  }
  // Canonical sort key of a generator
  std::tuple<int, int, int, int> key(Letter l) const {
    Mode const& m = model.modes[l.mode];
    if(m.alg == SPIN) return {SPIN, m.mult, l.mode, l.kind};
    return {m.alg, l.kind ? 0 : 1, l.kind ? l.mode : -l.mode, 0};
  }
  // Checks the stored form of a canonical expression; returns "" if correct
  template <typename S> std::string canonical(lc::expression<S, I...> const& e) const {
    bool first = true;
    std::pair<std::size_t, std::vector<std::tuple<int, int, int, int>>> prev;
    std::size_t count = 0;
    for(auto const& t : e) {
      ++count;
      if(to_c(t.coeff).zero()) return "zero coefficient stored";
      Word w = read(t.monomial);
      std::vector<std::tuple<int, int, int, int>> k;
      for(auto l : w) k.push_back(key(l));
      if(k.size() != t.monomial.size()) return "monomial traversal and size() disagree";
      int run = 1;
      for(std::size_t i = 1; i < k.size(); ++i) {
        if(k[i] < k[i - 1]) return "generators out of canonical order: " + model.show(w);
        Mode const& md = model.modes[w[i].mode];
        run = (k[i] == k[i - 1]) ? run + 1 : 1;
        if(run >= 2 && md.alg == FERMION) return "squared fermion stored: " + model.show(w);
        if(md.alg == SPIN) {
          if(md.mult == 2 && w[i].mode == w[i - 1].mode)
            return "unsimplified spin-1/2 product: " + model.show(w);
          if(w[i].kind != 2 && run >= md.mult) return "vanishing power stored: " + model.show(w);
        }
      }
      std::pair<std::size_t, std::vector<std::tuple<int, int, int, int>>> cur{k.size(), k};
      if(!first && !(prev < cur)) return "monomials not strictly increasing at " + model.show(w);
      prev = cur;
      first = false;
    }
    if(count != e.size()) return "size() differs from the number of terms";
    return "";
  }
};

// Coefficients: small dyadic rationals, exactly representable everywhere they
// are used. as<S>() converts to the scalar type.
template <typename S> struct conv {
  static S get(C const& c) { return S(c.re.get_d()); }
};
template <typename T> struct conv<std::complex<T>> {
  static std::complex<T> get(C const& c) { return {T(c.re.get_d()), T(c.im.get_d())}; }
};
template <> struct conv<mpq_class> {
  static mpq_class get(C const& c) { return c.re; }
};
template <typename S> S as(C const& c) { return conv<S>::get(c); }

template <typename S> struct is_cplx : std::false_type {};
template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};

template <typename S> C random_coeff(mon::rng& r, bool nonzero = true) {
  for(;;) {
    C c;
    auto one = [&]() {
      switch(r.below(6)) {
      case 0: return Q(1);
      case 1: return Q(-1);
      case 2: return Q(r.range(-3, 3));
      case 3: { Q q(r.range(-7, 7), 2); q.canonicalize(); return q; }
      case 4: { Q q(r.range(-5, 5), 4); q.canonicalize(); return q; }
      default: return Q(r.range(-9, 9));
      }
    };
    c.re = one();
    if(is_cplx<S>::value && r.coin()) c.im = one();
    if(!nonzero || !c.zero()) return c;
  }
}

inline Letter random_letter(mon::rng& r, Model const& m, int mode) {
  return {mode, m.modes[mode].alg == SPIN ? r.below(3) : r.below(2)};
}

// Random word of the given length concentrated on few modes
inline Word random_word(mon::rng& r, Model const& m, int len) {
  Word w;
  int focus = r.below(int(m.modes.size()));
  bool focused = r.coin(0.4);
  for(int i = 0; i < len; ++i) {
    int mode = (focused && r.coin(0.75)) ? focus : r.below(int(m.modes.size()));
    if(!w.empty() && r.coin(0.25)) w.push_back(w.back());
    else w.push_back(random_letter(r, m, mode));
  }
  return w;
}

// A pair (library expression, reference polynomial) describing the same operator
template <typename S, typename... I> struct Pair {
  lc::expression<S, I...> e;
  Poly p;
};

template <typename S, typename... I>
Pair<S, I...> random_leaf(mon::rng& r, Universe<I...> const& u, int max_terms = 3, int max_len = 3) {
  using E = lc::expression<S, I...>;
  Pair<S, I...> x;
  int kind = r.below(8);
  if(kind == 0) {
    C c = random_coeff<S>(r);
    x.e = E(as<S>(c));
    x.p = Poly(c);
    return x;
  }
  int nt = kind < 5 ? 1 : r.range(1, max_terms);
  for(int i = 0; i < nt; ++i) {
    C c = random_coeff<S>(r);
    Word w = random_word(r, u.model, r.range(1, max_len));
    x.e += E(as<S>(c), u.mono(w));
    x.p = x.p + Poly(c, w);
  }
  return x;
}

// Random arithmetic program evaluated both ways
template <typename S, typename... I>
Pair<S, I...> random_program(mon::rng& r, Universe<I...> const& u, int n_ops, std::size_t max_words,
                             std::size_t max_len, std::string* log = nullptr) {
  using P = Pair<S, I...>;
  using E = lc::expression<S, I...>;
  std::vector<P> pool;
  int n0 = r.range(2, 4);
  for(int i = 0; i < n0; ++i) pool.push_back(random_leaf<S>(r, u));
  auto lg = [&](std::string const& s) { if(log) *log += s; };
  if(log) for(std::size_t i = 0; i < pool.size(); ++i)
    lg("x" + std::to_string(i) + "=" + u.model.show(pool[i].p) + " | ");
  for(int k = 0; k < n_ops; ++k) {
    int ia = r.below(int(pool.size())), ib = r.below(int(pool.size()));
    P const& a = pool[ia];
    P const& b = pool[ib];
    P x;
    C c = random_coeff<S>(r, false);
    S s = as<S>(c);
    int op = r.below(14);
    if(op <= 4 && (a.p.t.size() * b.p.t.size() > max_words || a.p.max_len() + b.p.max_len() > max_len))
      op = 5 + r.below(6);
    std::string A = "x" + std::to_string(ia), B = "x" + std::to_string(ib);
    switch(op) {
    case 0: case 1: case 2: x.e = a.e * b.e; x.p = a.p * b.p; lg(A + "*" + B + " | "); break;
    case 3: x.e = a.e; x.e *= b.e; x.p = a.p * b.p; lg(A + "*=" + B + " | "); break;
    case 4: x.e = E(a.e * b.e - b.e * a.e); x.p = a.p * b.p - b.p * a.p; lg("[" + A + "," + B + "] | "); break;
    case 5: x.e = a.e + b.e; x.p = a.p + b.p; lg(A + "+" + B + " | "); break;
    case 6: x.e = a.e - b.e; x.p = a.p - b.p; lg(A + "-" + B + " | "); break;
    case 7: x.e = a.e; x.e += b.e; x.p = a.p + b.p; lg(A + "+=" + B + " | "); break;
    case 8: x.e = a.e; x.e -= b.e; x.p = a.p - b.p; lg(A + "-=" + B + " | "); break;
    case 9: x.e = -a.e; x.p = Poly() - a.p; lg("-" + A + " | "); break;
    case 10: x.e = s * a.e; x.p = Poly(c) * a.p; lg(c.str() + "*" + A + " | "); break;
    case 11: x.e = a.e * s; x.p = a.p * Poly(c); lg(A + "*" + c.str() + " | "); break;
    case 12: if(r.coin()) { x.e = a.e + s; x.p = a.p + Poly(c); lg(A + "+" + c.str() + " | "); }
             else { x.e = a.e; x.e += s; x.p = a.p + Poly(c); lg(A + "+=" + c.str() + " | "); } break;
    default: if(r.coin()) { x.e = s - a.e; x.p = Poly(c) - a.p; lg(c.str() + "-" + A + " | "); }
             else { x.e = a.e - s; x.p = a.p - Poly(c); lg(A + "-" + c.str() + " | "); } break;
    }
    x.p = x.p.compact();
    if(x.p.t.size() > max_words) continue;
    pool.push_back(std::move(x));
  }
  return pool.back();
}

// Universe of integer-indexed modes; counts limited so that the faithful
// state set stays small
inline Universe<int> random_universe(mon::rng& r, int max_modes = 4, bool big_spins = true,
                                     std::size_t max_states = 400, int boson_est = 4) {
  for(;;) {
    int n = r.range(1, max_modes);
    std::vector<int> kinds;
    for(int i = 0; i < n; ++i) kinds.push_back(r.below(10));
    int nf = 0, nb = 0;
    std::vector<int> sp;
    std::size_t est = 1;
    for(int k : kinds) {
      if(k < 4) { ++nf; est *= 2; }
      else if(k < 6) { ++nb; est *= std::size_t(boson_est); }
      else {
        int m = big_spins ? (k == 6 ? 2 : r.range(2, 5)) : 2;
        sp.push_back(m);
        est *= std::size_t(m);
      }
    }
    if(est > max_states) continue;
    Universe<int> u;
    std::set<int> used;
    auto idxs = [&](int cnt) {
      std::set<int> s;
      while(int(s.size()) < cnt) s.insert(r.range(-3, 9));
      return std::vector<int>(s.begin(), s.end());
    };
    for(int i : idxs(nf)) u.add({FERMION, 2}, {i});
    for(int i : idxs(nb)) u.add({BOSON, 2}, {i});
    // spins: the same index with different multiplicities is a different mode
    std::set<std::pair<int, int>> ss;
    for(int m : sp) {
      int i;
      do i = r.range(0, 3);
      while(ss.count({m, i}));
      ss.insert({m, i});
    }
    for(auto const& p : ss) u.add({SPIN, p.first}, {p.second});
    return u;
  }
}
} // namespace ref
