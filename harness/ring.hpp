// A ring of coefficients whose multiplication does not commute: 2x2 matrices,
// and two-component amplitudes they act on. An expression with matrix
// coefficients is a 2x2 block of ordinary expressions, which makes the
// blockwise computation an oracle for it.
#pragma once
#include "lib.hpp"

namespace ring {
struct mat {
  double x[2][2];
  mat() : x{{0, 0}, {0, 0}} {}
  mat(double d) : x{{d, 0}, {0, d}} {}
  mat(double a, double b, double c, double d) : x{{a, b}, {c, d}} {}
  // Compound forms exist for addition only: the library falls back to a = a OP b
  mat& operator+=(mat const& m) {
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) x[i][j] += m.x[i][j];
    return *this;
  }
  friend mat operator+(mat a, mat const& b) { return a += b; }
  friend mat operator-(mat a, mat const& b) {
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) a.x[i][j] -= b.x[i][j];
    return a;
  }
  friend mat operator-(mat const& a) { return mat() - a; }
  friend mat operator*(mat const& a, mat const& b) {
    mat r;
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) for(int k = 0; k < 2; ++k) r.x[i][j] += a.x[i][k] * b.x[k][j];
    return r;
  }
  friend bool operator==(mat const& a, mat const& b) { return !(a != b); }
  friend bool operator!=(mat const& a, mat const& b) {
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) if(a.x[i][j] != b.x[i][j]) return true;
    return false;
  }
  friend std::ostream& operator<<(std::ostream& os, mat const& m) {
    return os << "{" << m.x[0][0] << "," << m.x[0][1] << ";" << m.x[1][0] << "," << m.x[1][1] << "}";
  }
};
// Amplitudes with two components: matrices multiply them from the left only
struct vec {
  double x[2];
  vec() : x{0, 0} {}
  vec(double a, double b) : x{a, b} {}
  vec& operator+=(vec const& v) { x[0] += v.x[0]; x[1] += v.x[1]; return *this; }
  friend vec operator*(vec const& v, mat const& m) { // not an action of an operator
    return {v.x[0] * m.x[0][0] + v.x[1] * m.x[1][0], v.x[0] * m.x[0][1] + v.x[1] * m.x[1][1]};
  }
  friend bool operator==(vec const& a, vec const& b) { return a.x[0] == b.x[0] && a.x[1] == b.x[1]; }
  friend vec operator*(mat const& m, vec const& v) {
    return {m.x[0][0] * v.x[0] + m.x[0][1] * v.x[1], m.x[1][0] * v.x[0] + m.x[1][1] * v.x[1]};
  }
};
template <typename Rng> mat random_mat(Rng& r) {
  switch(r.below(6)) {
  case 0: return mat(double(r.range(-2, 2)));
  case 1: return mat(0, double(r.range(1, 3)), 0, 0); // nilpotent
  case 2: return mat(1, 0, 0, 0);                     // zero divisor
  default: return mat(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
  }
}
} // namespace ring

namespace libcommute {
template <> struct scalar_traits<ring::mat> {
  static bool is_zero(ring::mat const& m) { return m == ring::mat(); }
  static ring::mat make_const(double x) { return ring::mat(x); }
  static ring::mat make_const(var_number const& v) { return ring::mat(double(v)); }
  static ring::mat conj(ring::mat const& m) { return {m.x[0][0], m.x[1][0], m.x[0][1], m.x[1][1]}; }
};
template <> struct scalar_traits<ring::vec> {
  static bool is_zero(ring::vec const& v) { return v == ring::vec(); }
  static ring::vec make_const(double x) { return {x, x}; }
};
} // namespace libcommute

namespace ring {
using EM = lc::expression<mat, int>;
using ED = lc::expression<double, int>;

// The four components
struct blocks {
  ED b[2][2];
  friend bool operator==(blocks const& u, blocks const& v) {
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) if(u.b[i][j] != v.b[i][j]) return false;
    return true;
  }
};
inline blocks split(EM const& e) {
  blocks r;
  for(auto const& t : e)
    for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j)
      if(t.coeff.x[i][j] != 0) r.b[i][j].get_monomials().emplace(t.monomial, t.coeff.x[i][j]);
  return r;
}
inline blocks split(mat const& m) {
  blocks r;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) r.b[i][j] = ED(m.x[i][j]);
  return r;
}
inline blocks operator+(blocks const& u, blocks const& v) {
  blocks r;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) r.b[i][j] = u.b[i][j] + v.b[i][j];
  return r;
}
inline blocks operator-(blocks const& u, blocks const& v) {
  blocks r;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) r.b[i][j] = u.b[i][j] - v.b[i][j];
  return r;
}
inline blocks operator*(blocks const& u, blocks const& v) {
  blocks r;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j)
    for(int k = 0; k < 2; ++k) r.b[i][j] = r.b[i][j] + u.b[i][k] * v.b[k][j];
  return r;
}
inline blocks adjoint(blocks const& u) {
  blocks r;
  for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) r.b[i][j] = conj(u.b[j][i]);
  return r;
}
inline EM random_em(mon::rng& r, ref::Universe<int> const& u, int max_terms = 3, int max_len = 3) {
  EM e;
  for(int i = 0, n = r.range(1, max_terms); i < n; ++i) e += EM(random_mat(r), u.mono(ref::random_word(r, u.model, r.below(max_len + 1))));
  return e;
}
inline bool stored_zero(EM const& e) {
  for(auto const& t : e) if(t.coeff == mat()) return true;
  return false;
}
} // namespace ring
