// C29: exactly solvable models. Hamiltonians whose spectra are known from
// theory are written down in random disguises (rotated modes, reordered and
// conjugated terms, several subsystems, arbitrary labels) and diagonalised by
// every route the library offers.
#include <Eigen/Dense>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "lib.hpp"
#include "hs.hpp"
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
#include <libcommute/loperator/space_partition.hpp>

// Rational numbers of any size, without expression templates
struct Rat {
  mpq_class v;
  Rat(long n = 0, long d = 1) : v(n, d) { v.canonicalize(); }
  explicit Rat(mpq_class x) : v(std::move(x)) {}
  Rat& operator+=(Rat const& x) { v += x.v; return *this; }
  Rat& operator-=(Rat const& x) { v -= x.v; return *this; }
  Rat& operator*=(Rat const& x) { v *= x.v; return *this; }
  friend Rat operator+(Rat a, Rat const& b) { return a += b; }
  friend Rat operator-(Rat a, Rat const& b) { return a -= b; }
  friend Rat operator*(Rat a, Rat const& b) { return a *= b; }
  friend Rat operator-(Rat const& a) { return Rat(mpq_class(-a.v)); }
  friend bool operator==(Rat const& a, Rat const& b) { return a.v == b.v; }
  friend bool operator!=(Rat const& a, Rat const& b) { return a.v != b.v; }
  friend std::ostream& operator<<(std::ostream& os, Rat const& a) { return os << a.v; }
};
namespace libcommute {
template <> struct scalar_traits<Rat> {
  static bool is_zero(Rat const& x) { return x.v == 0; }
  static Rat make_const(var_number const& n) {
    if(n.number_type == var_number::integer) return Rat(int(n));
    if(n.number_type == var_number::rational) return Rat(n.numerator(), n.denominator());
    throw std::runtime_error("no exact constant");
  }
  static Rat conj(Rat const& x) { return x; }
};
}

using mon::u64;
using libcommute::foreach;
using cd = std::complex<double>;
using RMat = Eigen::MatrixXd;

namespace {

using Levels = std::vector<double>;
Levels sum(Levels const& a, Levels const& b) {
  Levels r;
  for(double x : a) for(double y : b) r.push_back(x + y);
  return r;
}
template <typename S> S entry(mon::rng& r, double lim) { return r.range(-1000, 1000) * lim / 1000; }
template <> cd entry<cd>(mon::rng& r, double lim) { return {entry<double>(r, lim), entry<double>(r, lim)}; }
template <typename S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;

template <typename S> Mat<S> hermitian_matrix(mon::rng& r, int n, double density) {
  Mat<S> m = Mat<S>::Zero(n, n);
  for(int i = 0; i < n; ++i) {
    m(i, i) = entry<double>(r, 2);
    for(int j = 0; j < i; ++j)
      if(r.coin(density)) {
        m(i, j) = entry<S>(r, 1.5);
        m(j, i) = Eigen::numext::conj(m(i, j));
      }
  }
  return m;
}
template <typename M> Levels eigenvalues(M const& m) {
  if(m.rows() == 0) return {};
  Eigen::SelfAdjointEigenSolver<M> es(m, Eigen::EigenvaluesOnly);
  Levels l;
  for(int i = 0; i < m.rows(); ++i) l.push_back(es.eigenvalues()(i));
  return l;
}
// Many-body levels of independent particles, by their number
std::map<int, Levels> fill(Levels const& e, bool bosons, int max_n) {
  std::map<int, Levels> r;
  r[0] = {0};
  for(double x : e) {
    std::map<int, Levels> q;
    for(auto const& p : r)
      for(int n = 0; p.first + n <= max_n && (bosons || n <= 1); ++n)
        for(double y : p.second) q[p.first + n].push_back(y + n * x);
    r = q;
  }
  return r;
}
// Multiplets of total spin (twice the spin) made of several spins
std::map<int, int> multiplets(std::vector<int> const& mult) {
  std::map<int, int> r{{0, 1}};
  for(int m : mult) {
    std::map<int, int> q;
    for(auto const& p : r)
      for(int J = std::abs(p.first - (m - 1)); J <= p.first + m - 1; J += 2) q[J] += p.second;
    r = q;
  }
  return r;
}

template <typename S, typename... I> struct Build {
  using E = lc::expression<S, I...>;
  using M = lc::monomial<I...>;
  mon::rng& r;
  std::vector<std::tuple<I...>> labels;
  std::size_t used = 0;
  E H;
  Levels levels{0};
  std::map<int, Levels> by_n{{0, {0}}}; // by the number of fermions
  bool conserves = true, cancelling = false, only_fermions = true;
  u64 dim = 1;
  int dim_boson;
  std::string text;
  std::vector<E> fermions; // annihilation operators of the original modes

  Build(mon::rng& r_) : r(r_) {
    labels = hsm::pools<I...>::get();
    r.shuffle(labels);
    dim_boson = r.range(2, 6);
  }
  std::tuple<I...> label() { return labels.at(used++); }
  E con(double x) { return E(S(x)); }
  E cdag(std::tuple<I...> const& i) { return E(S(1), M(lc::generator_fermion<I...>(true, i))); }
  E ann(std::tuple<I...> const& i) { return E(S(1), M(lc::generator_fermion<I...>(false, i))); }
  E bos(std::tuple<I...> const& i) { return E(S(1), M(lc::generator_boson<I...>(false, i))); }

  // x+ y for modes with {x+, y} = (same ? 1 : 0), in one of its forms
  E hop(E const& x, E const& y, bool same) {
    switch(r.below(4)) {
    case 0: return conj(x) * y;
    case 1: return con(same ? 1 : 0) - y * conj(x);
    case 2: return conj(conj(y) * x);
    default: return 0.5 * (conj(x) * y) + 0.5 * (con(same) - y * conj(x));
    }
  }
  E num(E const& x) { return hop(x, x, true); }
  E herm(E const& x) {
    switch(r.below(3)) {
    case 0: return x + conj(x);
    case 1: return x + lc::hc;
    default: return conj(x + conj(x));
    }
  }
  S phase() { return unit(static_cast<S*>(nullptr)); }
  double unit(double*) { return r.coin() ? 1 : -1; }
  cd unit(cd*) { return std::polar(1.0, r.below(1000) * 6.283185307179586 / 1000); }

  // Annihilation operators of n fermionic modes, possibly rotated
  std::vector<E> modes(int n, int rotations) {
    std::vector<E> f;
    for(int i = 0; i < n; ++i) f.push_back(ann(label()));
    for(auto const& x : f) fermions.push_back(x);
    if(r.coin(0.4)) for(auto& x : f) x *= phase();
    for(int k = 0; k < rotations && n > 1; ++k) {
      int i = r.below(n), j = r.below(n - 1);
      if(j >= i) ++j;
      double t = r.below(1000) * 6.283185307179586 / 1000;
      S p = phase();
      E a = std::cos(t) * f[i] + (std::sin(t) * p) * f[j];
      E b = (-std::sin(t)) * f[i] + (std::cos(t) * p) * f[j];
      f[i] = a;
      f[j] = b;
      cancelling = true;
      text += " rotated";
    }
    return f;
  }
  struct Spin { E p, m, z; };
  Spin spin(int mult, bool rotate) {
    auto i = label();
    double s = (mult - 1) / 2.0;
    Spin a{E(S(1), M(lc::generator_spin<I...>(s, lc::plus, i))), E(S(1), M(lc::generator_spin<I...>(s, lc::minus, i))),
           E(S(1), M(lc::generator_spin<I...>(s, lc::z, i)))};
    if(!rotate) return a;
    double t = r.below(1000) * 6.283185307179586 / 1000;
    E x = 0.5 * (a.p + a.m), iy = 0.5 * (a.p - a.m);
    E x2 = std::cos(t) * x + std::sin(t) * a.z, z2 = std::cos(t) * a.z - std::sin(t) * x;
    cancelling = true;
    text += " rotated";
    return {x2 + iy, x2 - iy, z2};
  }
  E dot(Spin const& a, Spin const& b) {
    if(r.coin()) return a.z * b.z + 0.5 * (a.p * b.m + a.m * b.p);
    E ax = 0.5 * (a.p + a.m), bx = 0.5 * (b.p + b.m), ay = 0.5 * (a.p - a.m), by = 0.5 * (b.p - b.m);
    return ax * bx - ay * by + a.z * b.z;
  }
  void add(E const& h, std::map<int, Levels> const& n_levels, u64 d, std::string const& what) {
    if(r.coin()) H += h;
    else H = h + H;
    std::map<int, Levels> q;
    for(auto const& a : by_n)
      for(auto const& b : n_levels) {
        auto s = sum(a.second, b.second);
        auto& t = q[a.first + b.first];
        t.insert(t.end(), s.begin(), s.end());
      }
    by_n = q;
    levels.clear();
    for(auto const& a : by_n) levels.insert(levels.end(), a.second.begin(), a.second.end());
    dim *= d;
    text += " + " + what;
  }

  void free_fermions(int n) {
    auto h = hermitian_matrix<S>(r, n, r.coin() ? 0.3 : 1);
    auto f = modes(n, r.coin(0.4) ? r.range(1, 3) : 0);
    E e;
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) if(h(i, j) != S(0)) e += h(i, j) * hop(f[i], f[j], i == j);
    add(e, fill(eigenvalues(h), false, n), u64(1) << n, "free fermions " + std::to_string(n));
  }
  // Levels of sum h_ij c+_i c_j + sum_{i<j} (d_ij c+_i c+_j + h.c.)
  template <typename Mt> Levels bogoliubov(Mt const& h, Mt const& d) {
    int n = int(h.rows());
    Mt B(2 * n, 2 * n);
    B << h, d, -d.conjugate(), -h.conjugate();
    auto e = eigenvalues(B);
    std::sort(e.begin(), e.end());
    double e0 = 0;
    for(int i = 0; i < n; ++i) e0 += Eigen::numext::real(h(i, i)) / 2 - e[n + i] / 2;
    Levels l{e0};
    for(int i = 0; i < n; ++i) l = sum(l, {0, e[n + i]});
    return l;
  }
  void superconductor(int n) {
    auto h = hermitian_matrix<S>(r, n, 0.6);
    Mat<S> d = Mat<S>::Zero(n, n);
    auto f = modes(n, r.coin(0.3) ? 1 : 0);
    E e;
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) {
        if(h(i, j) != S(0)) e += h(i, j) * hop(f[i], f[j], i == j);
        if(i < j && r.coin(0.7)) {
          d(i, j) = entry<S>(r, 1);
          d(j, i) = -d(i, j);
          E p = conj(f[i]) * conj(f[j]);
          e += herm((r.coin() ? d(i, j) : d(i, j)) * p);
        }
      }
    conserves = false;
    add(e, {{0, bogoliubov(h, d)}}, u64(1) << n, "superconductor " + std::to_string(n));
  }
  void spin_chain(int n) { // equivalent to free fermions
    RMat h = RMat::Zero(n, n), d = RMat::Zero(n, n);
    bool rot = r.coin(0.3);
    std::vector<Spin> s;
    for(int i = 0; i < n; ++i) s.push_back(spin(2, rot));
    E e;
    double shift = 0;
    bool pairs = r.coin();
    for(int i = 0; i < n; ++i) {
      h(i, i) = entry<double>(r, 2);
      shift -= h(i, i) / 2;
      e += h(i, i) * s[i].z;
      if(i + 1 == n) break;
      h(i, i + 1) = h(i + 1, i) = entry<double>(r, 1);
      e += h(i, i + 1) * herm(s[i].p * s[i + 1].m);
      if(!pairs) continue;
      d(i, i + 1) = entry<double>(r, 1);
      d(i + 1, i) = -d(i, i + 1);
      e += d(i, i + 1) * herm(r.coin() ? s[i + 1].p * s[i].p : s[i].p * s[i + 1].p);
    }
    only_fermions = false;
    add(e, {{0, sum({shift}, bogoliubov(h, d))}}, u64(1) << n, "spin chain " + std::to_string(n));
  }
  void total_spin(std::vector<int> const& mult) {
    double a = entry<double>(r, 1), b = entry<double>(r, 1);
    bool rot = r.coin(0.3);
    Spin t;
    u64 d = 1;
    for(int m : mult) {
      auto s = spin(m, rot);
      t.p += s.p;
      t.m += s.m;
      t.z += s.z;
      d *= u64(m);
    }
    E s2 = r.coin() ? dot(t, t) : t.m * t.p + t.z * (t.z + S(1));
    Levels l;
    for(auto const& p : multiplets(mult))
      for(int k = 0; k < p.second; ++k)
        for(int m = -p.first; m <= p.first; m += 2) l.push_back(a * p.first / 2 * (p.first / 2. + 1) + b * m / 2);
    only_fermions = false;
    add(a * s2 + b * t.z, {{0, l}}, d, "total spin " + mon::str(mult.size()));
  }
  void two_spins(int m1, int m2) {
    bool rot = r.coin(0.3);
    auto s1 = spin(m1, rot), s2 = spin(m2, rot);
    E x = dot(s1, s2), xp = con(1), e;
    std::vector<double> k;
    for(int n = r.range(1, m1 + m2 > 6 ? 2 : 3); n >= 0; --n) {
      k.push_back(entry<double>(r, 1));
      e += k.back() * xp;
      xp = r.coin() ? xp * x : x * xp;
    }
    auto square = [](int j) { return j / 2. * (j / 2. + 1); };
    Levels l;
    for(auto const& p : multiplets({m1, m2})) {
      double v = (square(p.first) - square(m1 - 1) - square(m2 - 1)) / 2, y = 1, z = 0;
      for(double q : k) { z += q * y; y *= v; }
      for(int n = 0; n <= p.first; ++n) l.push_back(z);
    }
    cancelling = true;
    only_fermions = false;
    add(e, {{0, l}}, u64(m1 * m2), "two spins " + std::to_string(m1) + " " + std::to_string(m2));
  }
  void jaynes_cummings() {
    int d = dim_boson;
    double w = entry<double>(r, 2), q = entry<double>(r, 2), g = entry<double>(r, 1);
    auto s = spin(2, r.coin(0.3));
    E a = bos(label());
    if(r.coin(0.4)) a *= phase();
    E n = r.coin() ? conj(a) * a : a * conj(a) - con(1);
    E e = w * n + q * s.z + g * herm(conj(a) * s.m);
    Levels l{-q / 2, w * (d - 1) + q / 2};
    for(int k = 1; k < d; ++k) {
      double x = w * k - q / 2, y = w * (k - 1) + q / 2, z = g * std::sqrt(double(k));
      double c = (x + y) / 2, R = std::hypot((x - y) / 2, z);
      l.push_back(c + R);
      l.push_back(c - R);
    }
    only_fermions = false;
    add(e, {{0, l}}, u64(2 * d), "Jaynes-Cummings " + std::to_string(d));
  }
  void hubbard_dimer() {
    double t = entry<double>(r, 1), U = entry<double>(r, 3);
    auto f = modes(4, r.coin(0.3) ? 1 : 0); // up up down down
    E e = U * num(f[0]) * num(f[2]) + U * (num(f[3]) * num(f[1])) + t * herm(hop(f[0], f[1], false)) +
          herm(t * hop(f[2], f[3], false));
    double q = std::sqrt(U * U / 4 + 4 * t * t);
    add(e, {{0, {0}}, {1, {t, t, -t, -t}}, {2, {0, 0, 0, U, U / 2 + q, U / 2 - q}}, {3, {U + t, U + t, U - t, U - t}}, {4, {2 * U}}},
        16, "Hubbard dimer");
  }
  void kanamori(int n) {
    double U = entry<double>(r, 3), J = entry<double>(r, 1);
    auto f = modes(2 * n, r.coin(0.3) ? 1 : 0);
    auto u = [&](int m) { return f[m]; };
    auto d = [&](int m) { return f[n + m]; };
    E e;
    for(int m = 0; m < n; ++m) {
      e += U * (num(u(m)) * num(d(m)));
      for(int k = 0; k < n; ++k) {
        if(k == m) continue;
        e += (U - 2 * J) * num(u(m)) * num(d(k));
        if(m < k) e += (U - 3 * J) * (num(u(m)) * num(u(k)) + num(d(m)) * num(d(k)));
        e -= J * (hop(u(m), d(m), false) * hop(d(k), u(k), false));
        e += J * (conj(u(m)) * conj(d(m)) * d(k) * u(k));
      }
    }
    std::map<int, Levels> l;
    if(n == 2) {
      l[0] = {0};
      l[1] = {0, 0, 0, 0};
      l[2] = {U - 3 * J, U - 3 * J, U - 3 * J, U - J, U - J, U + J};
      double x = 3 * U - 5 * J;
      l[3] = {x, x, x, x};
      l[4] = {6 * U - 10 * J};
    } else {
      struct T { int n, s2, l; };
      for(T x : std::vector<T>{{0, 0, 0}, {1, 1, 1}, {2, 2, 1}, {2, 0, 2}, {2, 0, 0}, {3, 3, 0}, {3, 1, 2}, {3, 1, 1},
                               {4, 2, 1}, {4, 0, 2}, {4, 0, 0}, {5, 1, 1}, {6, 0, 0}}) {
        double v = (U - 3 * J) * x.n * (x.n - 1) / 2. - 2 * J * x.s2 / 2. * (x.s2 / 2. + 1) - J / 2 * x.l * (x.l + 1) + 2.5 * J * x.n;
        for(int k = (x.s2 + 1) * (2 * x.l + 1); k > 0; --k) l[x.n].push_back(v);
      }
    }
    add(e, l, u64(1) << (2 * n), "Kanamori " + std::to_string(n));
  }
  void random(u64 max_dim) {
    for(int tries = 0; tries < 8; ++tries) {
      u64 room = max_dim / dim;
      if(dim > 1 && r.coin(0.35)) return;
      int bits = 0;
      while((u64(2) << bits) <= room) ++bits;
      if(bits == 0) return;
      switch(r.below(8)) {
      case 0: free_fermions(r.range(1, std::min(bits, 5))); break;
      case 1: superconductor(r.range(1, std::min(bits, 4))); break;
      case 2: spin_chain(r.range(1, std::min(bits, 5))); break;
      case 3: {
        std::vector<int> m;
        u64 d = 1;
        for(int k = r.range(1, 4); k > 0; --k) {
          int x = r.range(2, 5);
          if(d * u64(x) > room) break;
          d *= u64(x);
          m.push_back(x);
        }
        if(!m.empty()) total_spin(m);
        break;
      }
      case 4: {
        int a = r.range(2, 5), b = r.range(2, 5);
        if(u64(a * b) <= room) two_spins(a, b);
        break;
      }
      case 5: if(u64(2 * dim_boson) <= room) jaynes_cummings(); break;
      case 6: if(room >= 16) hubbard_dimer(); break;
      default: if(room >= 64 && r.coin()) kanamori(3); else if(room >= 16) kanamori(2);
      }
    }
  }
};

std::string differ(Levels a, Levels b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  std::ostringstream os;
  os.precision(15);
  if(a.size() != b.size()) {
    os << a.size() << " levels, expected " << b.size();
    return os.str();
  }
  for(std::size_t i = 0; i < a.size(); ++i)
    if(!(std::abs(a[i] - b[i]) <= 1e-8 * (1 + std::abs(b.front()) + std::abs(b.back())))) {
      os << "level " << i << " is " << a[i] << ", expected " << b[i];
      return os.str();
    }
  return "";
}
template <typename S> bool self_adjoint(Mat<S> const& m) {
  return m.rows() == 0 || (m - m.adjoint()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + m.cwiseAbs().maxCoeff());
}

template <typename S, typename... I> void solve(mon::Case& c, u64 max_dim) {
  auto& r = c.r;
  Build<S, I...> b(r);
  b.random(max_dim);
  c.input(b.text + " d=" + std::to_string(b.dim_boson) + " H=" + mon::str(b.H).substr(0, 2500));
  auto const& H = b.H;
  lc::hilbert_space<I...> hs = make_hilbert_space(H, lc::boson_es_constructor(lc::sv_index_type(b.dim_boson)));
  // modes may be missing from H (vanishing couplings)
  for(auto const& f : b.fermions)
    for(auto const& m : f)
      for(auto const& g : m.monomial) {
        lc::elementary_space_fermion<I...> es(g.indices());
        if(!hs.has(es)) hs.add(es);
      }
  if(hs.dim() != b.dim) throw mon::skip_case{};
  lc::loperator<S, lc::fermion, lc::boson, lc::spin> op(H, hs);
  std::vector<u64> states;
  foreach(hs, [&](lc::sv_index_type i) { states.push_back(i); });
  int n = int(states.size());
  c.check(u64(n) == b.dim, "DIMENSION", [&] { return std::to_string(n) + " states, expected " + std::to_string(b.dim); });
  std::map<u64, int> pos;
  for(int i = 0; i < n; ++i) pos[states[i]] = i;
  // the whole space
  c.phase("whole space");
  Mat<S> A(n, n);
  for(int j = 0; j < n; ++j) {
    if(c.index % 2) {
      Eigen::Matrix<S, Eigen::Dynamic, 1> v = Eigen::Matrix<S, Eigen::Dynamic, 1>::Zero(hs.vec_size()), w;
      v(states[j]) = S(1);
      w = op(v);
      for(int i = 0; i < n; ++i) A(i, j) = w(states[i]);
    } else {
      std::vector<S> v(hs.vec_size(), S(0));
      v[states[j]] = S(1);
      auto w = op * v;
      for(int i = 0; i < n; ++i) A(i, j) = w[states[i]];
    }
  }
  if(!c.check(self_adjoint<S>(A), "NOT-HERMITIAN")) return;
  auto x = differ(eigenvalues(A), b.levels);
  if(!c.check(x.empty(), "SPECTRUM", [&] { return x; })) return;
  c.ev("levels", u64(n));
  c.nontrivial(c.in);
  // compressed vectors
  c.phase("compressed view");
  if(c.index % 3 == 0) {
    Mat<S> B(n, n);
    std::vector<S> src(n, S(0)), dst(n);
    for(int j = 0; j < n; ++j) {
      src[j] = S(1);
      op(lc::make_const_comp_state_view(src, hs), lc::make_comp_state_view(dst, hs));
      for(int i = 0; i < n; ++i) B(i, j) = dst[i];
      src[j] = S(0);
    }
    if(!c.check(self_adjoint<S>(B), "COMPRESSED-NOT-HERMITIAN")) return;
    x = differ(eigenvalues(B), b.levels);
    if(!c.check(x.empty(), "COMPRESSED", [&] { return x; })) return;
    c.ev("compressed spaces");
  }
  // invariant subspaces
  c.phase("partition");
  lc::space_partition<lc::hilbert_space<I...>> sp(op, hs);
  if(r.coin(0.3) && !b.fermions.empty()) {
    auto const& f = r.pick(b.fermions);
    sp.merge_subspaces(lc::loperator<S, lc::fermion, lc::boson, lc::spin>(conj(f), hs),
                       lc::loperator<S, lc::fermion, lc::boson, lc::spin>(f, hs));
    c.ev("merged partitions");
  }
  Levels all;
  std::size_t count = 0;
  bool views = !b.cancelling;
  for(auto const& basis : sp.subspace_bases()) {
    int k = int(basis.size());
    count += basis.size();
    Mat<S> B(k, k);
    if(views) {
      lc::basis_mapper m(basis);
      std::vector<S> src(k, S(0)), dst(k);
      for(int j = 0; j < k; ++j) {
        src[j] = S(1);
        op(m.make_const_view(src), m.make_view(dst));
        for(int i = 0; i < k; ++i) B(i, j) = dst[i];
        src[j] = S(0);
      }
    } else
      for(int i = 0; i < k; ++i)
        for(int j = 0; j < k; ++j) B(i, j) = A(pos.at(basis[i]), pos.at(basis[j]));
    if(!c.check(self_adjoint<S>(B), "BLOCK-NOT-HERMITIAN")) return;
    auto l = eigenvalues(B);
    all.insert(all.end(), l.begin(), l.end());
  }
  c.ev(views ? "subspaces by views" : "subspaces by matrix", sp.n_subspaces());
  x = count == u64(n) ? differ(all, b.levels) : "the subspaces have " + std::to_string(count) + " states";
  if(!c.check(x.empty(), "SUBSPACES", [&] { return x; })) return;
  // sectors with a fixed number of fermions
  if(b.conserves && b.only_fermions) {
    c.phase("sectors");
    int M = int(hs.size());
    for(int N = 0; N <= M; ++N) {
      u64 k = lc::n_fermion_sector_size(hs, N);
      auto const& want = b.by_n.at(N);
      if(!c.check(k == want.size(), "SECTOR-SIZE", [&] { return std::to_string(k) + " for N=" + std::to_string(N); })) return;
      Mat<S> B(k, k);
      std::vector<S> src(k, S(0)), dst(k);
      if(b.cancelling) { // single terms conserve the number of fermions all the same
        c.ev("sectors of rotated modes");
      }
      for(u64 j = 0; j < k; ++j) {
        src[j] = S(1);
        op(lc::make_const_nfs_view(src, hs, N), lc::make_nfs_view(dst, hs, N));
        for(u64 i = 0; i < k; ++i) B(i, j) = dst[i];
        src[j] = S(0);
      }
      if(!c.check(self_adjoint<S>(B), "SECTOR-NOT-HERMITIAN")) return;
      x = differ(eigenvalues(B), want);
      if(!c.check(x.empty(), "SECTOR", [&] { return "N=" + std::to_string(N) + ": " + x; })) return;
      c.ev("sectors");
    }
  }
}
MON_SECTION("models", 6000, 60000) {
  u64 d = c.thorough && c.index % 10 == 0 ? 256 : 64;
  switch(c.index % 4) {
  case 0: solve<double, int>(c, d); break;
  case 1: solve<cd, std::string, int>(c, d); break;
  case 2: solve<cd, int>(c, d); break;
  default: solve<double, lc::dynamic_indices::dyn_indices>(c, d);
  }
}

// Groups of modes with a conserved number of particles each
template <typename S, typename... I> void groups(mon::Case& c) {
  auto& r = c.r;
  using HS = lc::hilbert_space<I...>;
  Build<S, I...> b(r);
  int kind = r.below(3);
  std::vector<std::vector<std::tuple<I...>>> labels;
  std::map<std::vector<int>, Levels> want;
  auto take = [&](int n) {
    std::vector<std::tuple<I...>> l;
    for(int i = 0; i < n; ++i) l.push_back(b.label());
    labels.push_back(l);
    std::vector<typename Build<S, I...>::E> f;
    for(auto const& i : l) f.push_back(b.ann(i));
    return f;
  };
  typename Build<S, I...>::E H;
  if(kind == 0) { // independent groups
    want[{}] = {0};
    int total = 0;
    for(int g = r.range(1, 3); g > 0; --g) {
      int n = r.range(1, 4);
      if((total += n) > 8) break;
      auto h = hermitian_matrix<S>(r, n, 0.8);
      auto f = take(n);
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) if(h(i, j) != S(0)) H += h(i, j) * b.hop(f[i], f[j], i == j);
      std::map<std::vector<int>, Levels> q;
      for(auto const& w : want)
        for(auto const& p : fill(eigenvalues(h), false, n)) {
          auto k = w.first;
          k.push_back(p.first);
          q[k] = sum(w.second, p.second);
        }
      want = q;
    }
    b.text = "groups";
  } else { // two flavours, rings with an attraction diagonal in positions: U * N_up * N_down
    int n = r.range(1, 3), m = r.range(1, 3);
    double U = entry<double>(r, 3);
    auto hu = hermitian_matrix<S>(r, n, 1), hd = hermitian_matrix<S>(r, m, 1);
    auto f = take(n), g = take(m);
    auto add = [&](Mat<S> const& h, decltype(f) const& x) {
      for(int i = 0; i < int(x.size()); ++i)
        for(int j = 0; j < int(x.size()); ++j) if(h(i, j) != S(0)) H += h(i, j) * b.hop(x[i], x[j], i == j);
    };
    add(hu, f);
    add(hd, g);
    typename Build<S, I...>::E nu, nd;
    for(auto const& x : f) nu += b.num(x);
    for(auto const& x : g) nd += b.num(x);
    H += U * (r.coin() ? nu * nd : nd * nu);
    for(auto const& p : fill(eigenvalues(hu), false, n))
      for(auto const& q : fill(eigenvalues(hd), false, m)) want[{p.first, q.first}] = sum(sum(p.second, q.second), {U * p.first * q.first});
    b.text = "two flavours";
  }
  c.input(b.text + " H=" + mon::str(H).substr(0, 2500));
  HS hs;
  std::vector<std::tuple<I...>> flat;
  for(auto const& l : labels) flat.insert(flat.end(), l.begin(), l.end());
  r.shuffle(flat);
  for(auto const& i : flat) hs.add(lc::elementary_space_fermion<I...>(i));
  lc::loperator<S, lc::fermion> op(H, hs);
  std::vector<std::size_t> order(labels.size());
  for(std::size_t i = 0; i < order.size(); ++i) order[i] = i;
  r.shuffle(order);
  u64 total = 0;
  for(auto const& w : want) {
    std::vector<lc::sector_descriptor<HS>> s;
    for(auto o : order) {
      lc::sector_descriptor<HS> d;
      d.indices.insert(labels[o].begin(), labels[o].end());
      d.N = unsigned(w.first[o]);
      s.push_back(d);
    }
    u64 k = lc::n_fermion_multisector_size(hs, s);
    total += k;
    if(!c.check(k == w.second.size(), "MULTISECTOR-SIZE", [&] { return std::to_string(k); })) return;
    Mat<S> B(k, k);
    bool mapped = r.coin(0.4);
    std::vector<S> src(k, S(0)), dst(k);
    lc::basis_mapper m(lc::n_fermion_multisector_basis_states(hs, s));
    for(u64 j = 0; j < k; ++j) {
      src[j] = S(1);
      if(mapped) op(m.make_const_view(src), m.make_view(dst));
      else op(lc::make_const_nfms_view(src, hs, s), lc::make_nfms_view(dst, hs, s));
      for(u64 i = 0; i < k; ++i) B(i, j) = dst[i];
      src[j] = S(0);
    }
    if(!c.check(self_adjoint<S>(B), "MULTISECTOR-NOT-HERMITIAN")) return;
    auto x = differ(eigenvalues(B), w.second);
    if(!c.check(x.empty(), "MULTISECTOR", [&] { return x; })) return;
    c.ev(mapped ? "multisectors by lists" : "multisectors by views");
  }
  c.check(total == hs.dim(), "MULTISECTORS-TOTAL");
  c.nontrivial(c.in);
}
MON_SECTION("groups", 2400, 24000) {
  switch(c.index % 3) {
  case 0: groups<double, int>(c); break;
  case 1: groups<cd, std::string, int>(c); break;
  default: groups<cd, lc::dynamic_indices::dyn_indices>(c);
  }
}

// Coupled oscillators, below the truncation
template <typename S, typename... I> void oscillators(mon::Case& c) {
  auto& r = c.r;
  Build<S, I...> b(r);
  int n = r.range(1, 4), N = r.range(0, 4), d = r.range(N + 1, N + 3);
  auto h = hermitian_matrix<S>(r, n, 0.8);
  using E = typename Build<S, I...>::E;
  std::vector<E> a;
  lc::hilbert_space<I...> hs;
  for(int i = 0; i < n; ++i) {
    auto l = b.label();
    a.push_back(b.bos(l));
    hs.add(lc::elementary_space_boson<I...>(lc::sv_index_type(d), l));
  }
  E H, num;
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j) {
      if(i == j) num += conj(a[i]) * a[i];
      if(h(i, j) == S(0)) continue;
      H += h(i, j) * (r.coin() ? conj(a[i]) * a[j] : a[j] * conj(a[i]) - b.con(i == j));
    }
  double u = r.coin() ? entry<double>(r, 1) : 0;
  H += u * (num * num);
  c.input("oscillators N=" + std::to_string(N) + " d=" + std::to_string(d) + " H=" + mon::str(H).substr(0, 2500));
  lc::loperator<S, lc::boson> op(H, hs), opn(num, hs);
  std::vector<u64> basis;
  std::vector<S> v(hs.vec_size(), S(0));
  foreach(hs, [&](lc::sv_index_type i) {
    v[i] = S(1);
    auto w = opn(v);
    if(std::abs(w[i] - S(N)) < 1e-6) basis.push_back(i);
    v[i] = S(0);
  });
  auto want = fill(eigenvalues(h), true, N)[N];
  for(auto& x : want) x += u * N * N;
  std::vector<u64> list = basis;
  r.shuffle(list);
  lc::basis_mapper m(list);
  int k = int(list.size());
  Mat<S> B(k, k);
  std::vector<S> src(k, S(0)), dst(k);
  for(int j = 0; j < k; ++j) {
    src[j] = S(1);
    op(m.make_const_view(src), m.make_view(dst));
    for(int i = 0; i < k; ++i) B(i, j) = dst[i];
    src[j] = S(0);
  }
  if(!c.check(self_adjoint<S>(B), "NOT-HERMITIAN")) return;
  auto x = differ(eigenvalues(B), want);
  if(!c.check(x.empty(), "SPECTRUM", [&] { return x; })) return;
  // the states made of the vacuum by N creation operators are the same ones
  std::vector<lc::loperator<S, lc::boson>> up;
  for(auto const& y : a) up.emplace_back(conj(y), hs);
  lc::basis_mapper gen(up, hs, unsigned(N));
  c.check(gen.size() == u64(k), "GENERATED", [&] { return std::to_string(gen.size()) + " states, expected " + std::to_string(k); });
  c.ev("levels", u64(k));
  c.nontrivial(c.in);
}
MON_SECTION("oscillators", 1600, 16000) {
  switch(c.index % 3) {
  case 0: oscillators<double, int>(c); break;
  case 1: oscillators<cd, std::string, int>(c); break;
  default: oscillators<cd, lc::dynamic_indices::dyn_indices>(c);
  }
}

// Identities which hold exactly over the rational numbers
template <typename... I> struct Exact {
  using Q = Rat;
  using E = lc::expression<Q, I...>;
  using M = lc::monomial<I...>;
  mon::Case& c;
  mon::rng& r;
  std::vector<std::tuple<I...>> labels;
  std::size_t used = 0;
  explicit Exact(mon::Case& c_) : c(c_), r(c_.r) {
    labels = hsm::pools<I...>::get();
    r.shuffle(labels);
  }
  std::tuple<I...> label() { return labels.at(used++); }
  E one() { return E(Q(1)); }
  E ann() { return E(Q(1), M(lc::generator_fermion<I...>(false, label()))); }
  E bos() { return E(Q(1), M(lc::generator_boson<I...>(false, label()))); }
  std::vector<E> ann(int n) { std::vector<E> v; for(int i = 0; i < n; ++i) v.push_back(ann()); return v; }
  Q num() { return Q(r.range(-9, 9), r.range(1, 7)); }
  E com(E const& a, E const& b) {
    switch(r.below(3)) {
    case 0: return a * b - b * a;
    case 1: { E x = a; x *= b; E y = b; y *= a; x -= y; return x; }
    default: { E x = -(b * a); x += a * b; return x; }
    }
  }
  E anti(E const& a, E const& b) { return r.coin() ? a * b + b * a : b * a + a * b; }
  void equal(E const& a, E const& b, char const* what) {
    c.ev(what);
    c.check(a == b && (a - b).size() == 0, "IDENTITY", [&] {
      return std::string(what) + ": " + mon::str(a).substr(0, 1500) + " and " + mon::str(b).substr(0, 1500);
    });
  }
  void zero(E const& a, char const* what) { equal(a, E(), what); }
  void angular_momentum(E const& p, E const& m, E const& z, char const* what) {
    equal(com(p, m), Q(2) * z, what);
    equal(com(z, p), p, what);
    equal(com(z, m), -m, what);
    E s2 = z * z + Q(1, 2) * (p * m + m * p);
    zero(com(s2, z), what);
    zero(com(s2, p), what);
    equal(s2, m * p + z * (z + one()), what);
  }
  void schwinger() {
    E a = bos(), b = bos();
    E p = conj(a) * b, m = conj(p), z = Q(1, 2) * (conj(a) * a - conj(b) * b), n = Q(1, 2) * (conj(a) * a + conj(b) * b);
    angular_momentum(p, m, z, "Schwinger bosons");
    equal(z * z + Q(1, 2) * (p * m + m * p), n * (n + one()), "Schwinger bosons");
  }
  void fermionic_spins() {
    int n = r.range(1, 3);
    auto u = ann(n), d = ann(n);
    E p, z, q, w;
    for(int i = 0; i < n; ++i) {
      p += conj(u[i]) * d[i];
      z += Q(1, 2) * (conj(u[i]) * u[i] - conj(d[i]) * d[i]);
      q += (i % 2 ? Q(-1) : Q(1)) * (conj(u[i]) * conj(d[i]));
      w += Q(1, 2) * (conj(u[i]) * u[i] + conj(d[i]) * d[i] - one());
    }
    angular_momentum(p, conj(p), z, "spins of fermions");
    angular_momentum(q, conj(q), w, "pseudospins of fermions");
    for(E const& x : {p, conj(p), z}) for(E const& y : {q, conj(q), w}) zero(com(x, y), "spins and pseudospins");
    if(n == 1) {
      E s2 = z * z + Q(1, 2) * (p * conj(p) + conj(p) * p);
      E nn = conj(u[0]) * u[0] - conj(d[0]) * d[0];
      equal(s2, Q(3, 4) * (nn * nn), "spins of fermions");
    }
    // Hubbard model on a bipartite lattice
    E h;
    for(int i = 0; i < n; ++i) {
      for(int j = 0; j < i; ++j) {
        if((i + j) % 2 == 0) continue;
        Q t = num();
        for(auto const& f : {u, d}) h += t * (conj(f[i]) * f[j] + conj(f[j]) * f[i]);
      }
      h += num() * ((conj(u[i]) * u[i] - Q(1, 2)) * (conj(d[i]) * d[i] - Q(1, 2)));
    }
    for(E const& x : {p, z, q, w}) zero(com(h, x), "symmetries of the Hubbard model");
  }
  void kanamori() {
    int n = r.range(2, 3);
    auto u = ann(n), d = ann(n);
    Q U = num(), J = num();
    E h, N, p, z;
    auto nn = [](E const& f) { return conj(f) * f; };
    for(int m = 0; m < n; ++m) {
      h += U * (nn(u[m]) * nn(d[m]));
      N += nn(u[m]) + nn(d[m]);
      p += conj(u[m]) * d[m];
      z += Q(1, 2) * (nn(u[m]) - nn(d[m]));
      for(int k = 0; k < n; ++k) {
        if(k == m) continue;
        h += Q(U - Q(2) * J) * (nn(u[m]) * nn(d[k]));
        if(m < k) h += Q(U - Q(3) * J) * (nn(u[m]) * nn(u[k]) + nn(d[m]) * nn(d[k]));
        h -= J * (conj(u[m]) * d[m] * conj(d[k]) * u[k]);
        h += J * (conj(u[m]) * conj(d[m]) * d[k] * u[k]);
      }
    }
    E s2 = z * z + Q(1, 2) * (p * conj(p) + conj(p) * p), l2;
    for(int a = 0; a < n; ++a)
      for(int b = 0; b < a; ++b) {
        E l = conj(u[a]) * u[b] - conj(u[b]) * u[a] + conj(d[a]) * d[b] - conj(d[b]) * d[a]; // i L
        zero(com(h, l), "rotations of the Kanamori Hamiltonian");
        l2 -= l * l;
      }
    for(E const& x : {N, p, z}) zero(com(h, x), "symmetries of the Kanamori Hamiltonian");
    if(n == 3)
      equal(h, Q(1, 2) * Q(U - Q(3) * J) * (N * (N - one())) - Q(2) * J * s2 - Q(1, 2) * J * l2 + Q(5, 2) * J * N,
            "Kanamori Hamiltonian in terms of N, S and L");
    equal(conj(h), h, "Kanamori Hamiltonian is Hermitian");
  }
  void transformations() {
    int n = r.range(2, 4);
    // rotations with rational cosines, Bogoliubov transformations
    auto f = ann(n);
    std::vector<E> b;
    for(int i = 0; i < n; ++i) b.push_back(bos());
    for(int k = r.range(1, 4); k > 0; --k) {
      int i = r.below(n), j = r.below(n - 1), p = r.range(1, 5), q = r.range(1, 5);
      if(j >= i) ++j;
      Q co(p * p - q * q, p * p + q * q), s(2 * p * q, p * p + q * q);
      bool pairs = r.coin();
      E x = pairs ? conj(f[j]) : f[j];
      E y = co * f[i] + s * x, w = co * x - s * f[i];
      f[i] = y;
      f[j] = pairs ? conj(w) : w;
      if(p == q) continue;
      Q ch(p * p + q * q, p * p - q * q), sh(2 * p * q, p * p - q * q);
      if(r.coin()) { // squeezing
        E g = ch * b[i] + sh * conj(b[j]), e = ch * b[j] + sh * conj(b[i]);
        b[i] = g;
        b[j] = e;
      } else {
        E g = co * b[i] + s * b[j], e = co * b[j] - s * b[i];
        b[i] = g + num();
        b[j] = e;
      }
    }
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) {
        E delta = i == j ? one() : E();
        equal(anti(f[i], conj(f[j])), delta, "rotated fermions");
        zero(anti(f[i], f[j]), "rotated fermions");
        equal(com(b[i], conj(b[j])), delta, "rotated bosons");
        zero(com(b[i], b[j]), "rotated bosons");
        zero(com(b[i], f[j]), "fermions and bosons");
      }
    E g = one();
    for(int i = 0; i < n; ++i) g *= one() - Q(2) * (conj(f[i]) * f[i]);
    equal(g * g, one(), "parity");
    for(int i = 0; i < n; ++i) zero(anti(g, f[i]), "parity");
    std::vector<E> maj;
    for(auto const& x : f) { maj.push_back(x + conj(x)); maj.push_back(x - conj(x)); }
    for(std::size_t i = 0; i < maj.size(); ++i)
      for(std::size_t j = 0; j < maj.size(); ++j)
        equal(anti(maj[i], maj[j]), i == j ? E(Q(i % 2 ? -2 : 2)) : E(), "Majorana operators");
  }
  void powers() {
    E a = bos(), f = ann();
    int k = r.range(1, 7);
    E p = one(), q = one(), n = conj(a) * a;
    for(int i = 0; i < k; ++i) { p *= conj(a); q = q * a; }
    E p1 = one();
    for(int i = 0; i + 1 < k; ++i) p1 *= conj(a);
    equal(com(a, p), Q(k) * p1, "powers of bosons");
    equal(com(n, p), Q(k) * p, "powers of bosons");
    equal(com(n, q), Q(-k) * q, "powers of bosons");
    // a+^k a^k = n (n-1) ... (n-k+1)
    E x = one();
    for(int i = 0; i < k; ++i) x *= n - Q(i);
    equal(p * q, x, "falling factorials");
    E y = one();
    for(int i = 1; i <= k; ++i) y = y * (n + Q(i));
    equal(q * p, y, "rising factorials");
    E m = one() - conj(f) * f;
    equal(m * m, m, "projectors");
    zero(m * conj(f), "projectors");
    equal(f * m, E(), "projectors");
    equal(m * f, f, "projectors");
  }
  void exchange() { // spins 1/2
    int n = r.range(2, 4);
    struct Sp { E p, m, z; };
    std::vector<Sp> s;
    for(int i = 0; i < n; ++i) {
      auto l = label();
      auto g = [&](lc::spin_component k) { return E(Q(1), M(lc::generator_spin<I...>(k, l))); };
      s.push_back({g(lc::plus), g(lc::minus), g(lc::z)});
    }
    auto P = [&](int i, int j) {
      return Q(2) * (s[i].z * s[j].z) + s[i].p * s[j].m + s[i].m * s[j].p + Q(1, 2);
    };
    Sp t;
    for(auto const& x : s) { t.p += x.p; t.m += x.m; t.z += x.z; }
    angular_momentum(t.p, t.m, t.z, "total spin");
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) {
        if(i == j) continue;
        equal(P(i, j) * P(i, j), one(), "exchange of spins");
        equal(P(i, j) * s[i].p, s[j].p * P(i, j), "exchange of spins");
        equal(P(i, j) * s[i].z * P(i, j), s[j].z, "exchange of spins");
        zero(com(P(i, j), t.p), "exchange of spins");
        for(int k = 0; k < n; ++k)
          if(k != i && k != j) {
            equal(P(i, j) * P(j, k) * P(i, j), P(j, k) * P(i, j) * P(j, k), "braid relation");
            equal(P(i, j) * P(j, k) * P(i, j), P(i, k), "permutations");
          }
      }
  }
  void run() {
    switch(r.below(6)) {
    case 0: c.input("Schwinger"); schwinger(); break;
    case 1: c.input("fermionic spins"); fermionic_spins(); break;
    case 2: c.input("Kanamori"); kanamori(); break;
    case 3: c.input("transformations"); transformations(); break;
    case 4: c.input("powers"); powers(); break;
    default: c.input("exchange"); exchange();
    }
    std::string s;
    for(std::size_t i = 0; i < used; ++i) s += mon::str(E(Q(1), M(lc::generator_fermion<I...>(false, labels[i]))));
    c.in += " of " + s;
    c.nontrivial(c.in + std::to_string(c.index));
  }
};
MON_SECTION("identities", 1200, 12000) {
  switch(c.index % 3) {
  case 0: Exact<int>(c).run(); break;
  case 1: Exact<std::string, int>(c).run(); break;
  default: Exact<lc::dynamic_indices::dyn_indices>(c).run();
  }
}
} // namespace
