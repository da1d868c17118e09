// Independent exact reference model of words of fermionic, bosonic and spin
// generators. Shares no code with libcommute.
//
// Representation used (basis deliberately unnormalised so that everything is
// rational):
//   fermion : Jordan-Wigner signs, modes ordered by their position in Model
//   boson   : a^+ |n) = |n+1),  a |n) = n |n-1)
//   spin S  : S- |k) = |k+1),  S+ |k) = k(2S+1-k) |k-1),  Sz |k) = (S-k) |k)
#pragma once
#include <algorithm>
#include <complex>
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace ref {

using Q = mpq_class;

struct C {
  Q re, im;
  C(Q r = 0, Q i = 0) : re(std::move(r)), im(std::move(i)) {}
  C(int r) : re(r), im(0) {}
  bool zero() const { return sgn(re) == 0 && sgn(im) == 0; }
  C conj() const { return {re, -im}; }
  friend C operator+(C const& a, C const& b) { return {a.re + b.re, a.im + b.im}; }
  friend C operator-(C const& a, C const& b) { return {a.re - b.re, a.im - b.im}; }
  friend C operator*(C const& a, C const& b) {
    if(sgn(a.im) == 0 && sgn(b.im) == 0) return {a.re * b.re, Q(0)};
    return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re};
  }
  C& operator+=(C const& b) { re += b.re; im += b.im; return *this; }
  friend bool operator==(C const& a, C const& b) { return a.re == b.re && a.im == b.im; }
  friend bool operator!=(C const& a, C const& b) { return !(a == b); }
  std::string str() const {
    return sgn(im) == 0 ? re.get_str() : "(" + re.get_str() + "," + im.get_str() + ")";
  }
};

enum : int { FERMION = -3, BOSON = -2, SPIN = -1 };

struct Mode {
  int alg;
  int mult = 2; // spins only
};
struct Letter {
  int mode;
  int kind; // fermion/boson: 1 = dagger, 0 = no dagger; spin: 0 = +, 1 = -, 2 = z
  friend bool operator==(Letter a, Letter b) { return a.mode == b.mode && a.kind == b.kind; }
  friend bool operator<(Letter a, Letter b) {
    return std::make_pair(a.mode, a.kind) < std::make_pair(b.mode, b.kind);
  }
};
using Word = std::vector<Letter>;

struct Poly {
  std::vector<std::pair<C, Word>> t;
  Poly() = default;
  Poly(C c) { if(!c.zero()) t.push_back({c, {}}); }
  Poly(C c, Word w) { t.push_back({std::move(c), std::move(w)}); }
  std::size_t max_len() const {
    std::size_t m = 0;
    for(auto const& p : t) m = std::max(m, p.second.size());
    return m;
  }
  friend Poly operator+(Poly a, Poly const& b) {
    a.t.insert(a.t.end(), b.t.begin(), b.t.end());
    return a;
  }
  friend Poly operator-(Poly a, Poly const& b) {
    for(auto const& p : b.t) a.t.push_back({C(0) - p.first, p.second});
    return a;
  }
  friend Poly operator*(Poly const& a, Poly const& b) {
    Poly r;
    for(auto const& x : a.t)
      for(auto const& y : b.t) {
        Word w = x.second;
        w.insert(w.end(), y.second.begin(), y.second.end());
        r.t.push_back({x.first * y.first, std::move(w)});
      }
    return r;
  }
  // Merge identical words
  Poly compact() const {
    std::map<Word, C> m;
    for(auto const& p : t) m[p.second] += p.first;
    Poly r;
    for(auto const& p : m)
      if(!p.second.zero()) r.t.push_back({p.second, p.first});
    return r;
  }
};

using St = std::uint64_t; // 8 bits per mode
using Vec = std::map<St, C>;

struct Model {
  std::vector<Mode> modes;

  static int occ(St s, int m) { return int((s >> (8 * m)) & 0xff); }
  static St with(St s, int m, int v) {
    return (s & ~(St(0xff) << (8 * m))) | (St(v) << (8 * m));
  }

  // Acts with one letter; returns false if the result vanishes
  bool act(Letter l, St& s, Q& amp) const {
    Mode const& md = modes[l.mode];
    int n = occ(s, l.mode);
    switch(md.alg) {
    case FERMION: {
      if(l.kind == 1 ? n == 1 : n == 0) return false;
      int cnt = 0;
      for(int m = 0; m < l.mode; ++m)
        if(modes[m].alg == FERMION) cnt += occ(s, m);
      if(cnt % 2) amp = -amp;
      s = with(s, l.mode, l.kind);
      return true;
    }
    case BOSON:
      if(l.kind == 1) {
        s = with(s, l.mode, n + 1);
        return true;
      }
      if(n == 0) return false;
      amp *= n;
      s = with(s, l.mode, n - 1);
      return true;
    default: { // SPIN
      int twoS = md.mult - 1;
      if(l.kind == 2) {
        if(twoS == 2 * n) return false;
        amp *= Q(twoS - 2 * n, 2);
        return true;
      }
      if(l.kind == 1) {
        if(n == twoS) return false;
        s = with(s, l.mode, n + 1);
        return true;
      }
      if(n == 0) return false;
      amp *= n * (twoS + 1 - n);
      s = with(s, l.mode, n - 1);
      return true;
    }
    }
  }
  Vec act(Poly const& p, St s0) const {
    Vec v;
    for(auto const& t : p.t) {
      St s = s0;
      Q amp = 1;
      bool ok = true;
      for(auto it = t.second.rbegin(); it != t.second.rend(); ++it)
        if(!act(*it, s, amp)) { ok = false; break; }
      if(!ok) continue;
      amp.canonicalize();
      v[s] += t.first * C(amp);
    }
    for(auto it = v.begin(); it != v.end();)
      it = it->second.zero() ? v.erase(it) : std::next(it);
    return v;
  }

  Q norm(St s) const {
    Q g = 1;
    for(int m = 0; m < int(modes.size()); ++m) {
      int n = occ(s, m);
      if(modes[m].alg == BOSON)
        for(int k = 2; k <= n; ++k) g *= k;
      else if(modes[m].alg == SPIN)
        for(int k = 0; k < n; ++k) g *= (k + 1) * (modes[m].mult - 1 - k);
    }
    return g;
  }

  // All states with boson occupations 0..nb[m]
  std::vector<St> states(std::vector<int> const& nb) const {
    std::vector<St> r{0};
    for(int m = 0; m < int(modes.size()); ++m) {
      int d = modes[m].alg == FERMION ? 2 : (modes[m].alg == BOSON ? nb[m] + 1 : modes[m].mult);
      std::vector<St> r2;
      for(St s : r)
        for(int n = 0; n < d; ++n) r2.push_back(with(s, m, n));
      r.swap(r2);
    }
    return r;
  }
  // Largest number of annihilation operators of each bosonic mode in a word:
  // occupations up to this number distinguish normal ordered polynomials.
  std::vector<int> degrees(std::initializer_list<Poly const*> ps) const {
    std::vector<int> d(modes.size(), 0);
    for(auto p : ps)
      for(auto const& t : p->t) {
        std::vector<int> k(modes.size(), 0);
        for(auto l : t.second)
          if(modes[l.mode].alg == BOSON && l.kind == 0) ++k[l.mode];
        for(std::size_t m = 0; m < k.size(); ++m) d[m] = std::max(d[m], k[m]);
      }
    return d;
  }
  std::string show(Vec const& v) const {
    std::string s = "{";
    for(auto const& p : v) {
      s += "|";
      for(std::size_t m = 0; m < modes.size(); ++m) s += std::to_string(occ(p.first, int(m))) + " ";
      s += "):" + p.second.str() + " ";
    }
    return s + "}";
  }
  std::string show(Word const& w) const {
    std::string s;
    for(auto l : w) {
      Mode const& md = modes[l.mode];
      if(md.alg == FERMION) s += l.kind ? "c+" : "c";
      else if(md.alg == BOSON) s += l.kind ? "a+" : "a";
      else s += "S" + std::to_string(md.mult) + std::string(1, "+-z"[l.kind]);
      s += "_" + std::to_string(l.mode) + " ";
    }
    return s;
  }
  std::string show(Poly const& p) const {
    std::string s;
    for(auto const& t : p.t) s += "[" + t.first.str() + "]" + show(t.second) + "; ";
    return s;
  }
  // Compares two operators on a faithful set of states; returns "" if equal
  std::string diff(Poly const& a, Poly const& b, std::size_t* n_obs = nullptr) const {
    auto sts = states(degrees({&a, &b}));
    if(n_obs) *n_obs += sts.size();
    for(St s : sts) {
      Vec va = act(a, s), vb = act(b, s);
      if(va != vb)
        return "on state " + show(Vec{{s, C(1)}}) + ": library " + show(va) + " reference " + show(vb);
    }
    return "";
  }
};

inline Poly adjoint(Poly const& p, Model const& m) {
  Poly r;
  for(auto const& t : p.t) {
    Word w(t.second.rbegin(), t.second.rend());
    for(auto& l : w) {
      if(m.modes[l.mode].alg == SPIN) l.kind = l.kind == 2 ? 2 : 1 - l.kind;
      else l.kind = 1 - l.kind;
    }
    r.t.push_back({t.first.conj(), std::move(w)});
  }
  return r;
}

inline C to_c(double x) { return C(Q(x)); }
inline C to_c(float x) { return C(Q(double(x))); }
inline C to_c(int x) { return C(Q(x)); }
inline C to_c(long x) { return C(Q(x)); }
inline C to_c(long long x) { return C(Q(long(x))); }
inline C to_c(std::complex<double> const& z) { return C(Q(z.real()), Q(z.imag())); }
inline C to_c(std::complex<float> const& z) { return C(Q(double(z.real())), Q(double(z.imag()))); }
inline C to_c(mpq_class const& x) { return C(x); }
inline C to_c(mpz_class const& x) { return C(Q(x)); }

} // namespace ref
