// Reference for operators acting on basis states of a (truncated) Hilbert space.
#pragma once
#include "hs.hpp"
#include <cmath>
#include <complex>
#include <limits>

namespace ops {
using mon::u64;
using ref::Letter;
using ref::Poly;
using ref::Q;
using ref::Word;
using ld = long double;
using cld = std::complex<long double>;

inline cld to_cld(ref::C const& c) { return {ld(c.re.get_d()), ld(c.im.get_d())}; }
template <typename T> cld to_cld(T const& x) { return to_cld(ref::to_c(x)); }
inline cld to_cld(long double x) { return {x, 0}; }

struct Amp {
  cld v = 0;
  ld scale = 0; // sum of absolute values of all contributions
};
using AVec = std::map<u64, Amp>;

template <typename... I> struct Sys {
  ref::Universe<I...> u;
  std::vector<u64> dim;
  std::vector<int> shift, bits;
  std::unique_ptr<lc::hilbert_space<I...>> hs;
  hsm::Layout L;
  int total_bits = 0;

  // dims of bosons given; modes of u in canonical order. user: dimensions of
  // user-defined (spectator) spaces placed at the end
  void build(mon::rng& r, std::vector<u64> const& boson_dims, std::vector<u64> const& user = {}) {
    using es_t = lc::elementary_space<I...>;
    std::vector<std::unique_ptr<es_t>> es;
    dim.clear(); shift.clear(); bits.clear();
    total_bits = 0;
    L.m.clear();
    for(int m = 0; m < u.size(); ++m) {
      auto const& md = u.model.modes[m];
      u64 d = md.alg == ref::FERMION ? 2 : md.alg == ref::BOSON ? boson_dims[m] : u64(md.mult);
      hsm::Entry e{md.alg, md.alg == ref::SPIN ? md.mult : 0, m, d};
      L.m.emplace(e.key(), e);
      dim.push_back(d);
      bits.push_back(e.bits());
      shift.push_back(total_bits);
      total_bits += e.bits();
      if(md.alg == ref::FERMION) es.emplace_back(new lc::elementary_space_fermion<I...>(u.idx[m]));
      else if(md.alg == ref::BOSON) es.emplace_back(new lc::elementary_space_boson<I...>(d, u.idx[m]));
      else es.emplace_back(new lc::elementary_space_spin<I...>((md.mult - 1) / 2.0, u.idx[m]));
    }
    int id = 1;
    for(u64 d : user) {
      hsm::Entry e{id, 0, 0, d};
      L.m.emplace(e.key(), e);
      total_bits += e.bits();
      es.emplace_back(new hsm::es_user<I...>(id, d, u.idx[0]));
      ++id;
    }
    r.shuffle(es);
    hs.reset(new lc::hilbert_space<I...>());
    for(auto const& e : es) hs->add(*e);
  }
  u64 occ(u64 s, int m) const { return bits[m] ? (s >> shift[m]) & ((u64(1) << bits[m]) - 1) : 0; }
  u64 with(u64 s, int m, u64 v) const {
    if(!bits[m]) return s;
    return (s & ~(((u64(1) << bits[m]) - 1) << shift[m])) | (v << shift[m]);
  }
  u64 random_state(mon::rng& r) const {
    u64 d = L.dim();
    (void)d;
    u64 s = 0;
    int sh = 0;
    for(auto const& p : L.m) {
      u64 dd = p.second.dim;
      if(dd > 1) {
        u64 v;
        switch(r.below(5)) {
        case 0: v = dd - 1; break;
        case 1: v = std::min<u64>(dd - 1, u64(r.below(4))); break;
        case 2: v = dd - 1 - std::min<u64>(dd - 1, u64(r.below(4))); break;
        default: v = r.next() % dd;
        }
        s |= v << sh;
      }
      sh += p.second.bits();
    }
    return s;
  }
  std::string show_state(u64 s) const {
    std::string o = "|";
    for(int m = 0; m < u.size(); ++m) o += std::to_string(occ(s, m)) + (m + 1 < u.size() ? "," : ">");
    return o;
  }
  bool act(Letter l, u64& s, ld& amp) const {
    auto const& md = u.model.modes[l.mode];
    u64 n = occ(s, l.mode);
    if(md.alg == ref::FERMION) {
      if(l.kind == 1 ? n == 1 : n == 0) return false;
      int cnt = 0;
      for(int m = 0; m < l.mode; ++m)
        if(u.model.modes[m].alg == ref::FERMION) cnt += int(occ(s, m));
      if(cnt % 2) amp = -amp;
      s = with(s, l.mode, u64(l.kind));
      return true;
    }
    if(md.alg == ref::BOSON) {
      if(l.kind == 1) {
        if(n + 1 >= dim[l.mode]) return false;
        amp *= std::sqrt(ld(n + 1));
        s = with(s, l.mode, n + 1);
      } else {
        if(n == 0) return false;
        amp *= std::sqrt(ld(n));
        s = with(s, l.mode, n - 1);
      }
      return true;
    }
    u64 ss = u64(md.mult - 1); // 2S; n = m + S
    if(l.kind == 2) {
      ld mz = ld(n) - ld(ss) / 2;
      if(mz == 0) return false;
      amp *= mz;
      return true;
    }
    if(l.kind == 0) {
      if(n == ss) return false;
      amp *= std::sqrt(ld((ss - n) * (n + 1)));
      s = with(s, l.mode, n + 1);
    } else {
      if(n == 0) return false;
      amp *= std::sqrt(ld((ss - n + 1) * n));
      s = with(s, l.mode, n - 1);
    }
    return true;
  }
  bool act(Word const& w, u64& s, ld& amp) const {
    for(auto it = w.rbegin(); it != w.rend(); ++it)
      if(!act(*it, s, amp)) return false;
    return true;
  }
  AVec act(Poly const& p, AVec const& in) const {
    AVec out;
    for(auto const& x : in)
      for(auto const& t : p.t) {
        u64 s = x.first;
        ld a = 1;
        if(!act(t.second, s, a)) continue;
        auto& o = out[s];
        cld k = to_cld(t.first) * a;
        o.v += k * x.second.v;
        o.scale += std::abs(k) * x.second.scale;
      }
    return out;
  }
  std::string layout() const {
    std::string s;
    for(int m = 0; m < u.size(); ++m) {
      auto const& md = u.model.modes[m];
      s += (md.alg == ref::FERMION ? "f" : md.alg == ref::BOSON ? "b" : "s") + std::to_string(dim[m]) + " ";
    }
    return s + "(" + L.str() + ")";
  }
};

// Tolerance of an amplitude comparison
template <typename S> struct real_eps { static constexpr ld value = 0; };
template <> struct real_eps<double> { static constexpr ld value = 2.3e-16L; };
template <> struct real_eps<float> { static constexpr ld value = 1.2e-7L; };
template <typename T> struct real_eps<std::complex<T>> : real_eps<T> {};

// Compares observed amplitudes (map from index) with the reference
template <typename Obs> std::string diff(AVec const& expect, Obs const& got, ld eps) {
  std::ostringstream o;
  o.precision(18);
  for(auto const& p : expect) {
    auto it = got.find(p.first);
    cld g = it == got.end() ? cld(0) : it->second;
    if(!(std::abs(g - p.second.v) <= eps * p.second.scale)) {
      o << "index " << p.first << ": library " << g << " reference " << p.second.v << " scale " << p.second.scale;
      return o.str();
    }
  }
  for(auto const& p : got)
    if(p.second != cld(0) && !expect.count(p.first)) {
      o << "index " << p.first << ": library " << p.second << " reference 0 (unreachable)";
      return o.str();
    }
  return "";
}

// Collects the non-zero amplitudes of any vector type
template <typename SV> std::map<u64, cld> collect(SV const& v) {
  std::map<u64, cld> m;
  foreach(v, [&](lc::sv_index_type n, lc::element_type_t<SV> const& a) { m[n] = to_cld(a); });
  return m;
}
template <typename T> std::map<u64, cld> collect_raw(std::vector<T> const& v) {
  std::map<u64, cld> m;
  for(u64 n = 0; n < v.size(); ++n)
    if(!ref::to_c(v[n]).zero()) m[n] = to_cld(v[n]);
  return m;
}

// Random operator polynomial given as a library expression
template <typename S, typename... I>
lc::expression<S, I...> random_expr(mon::rng& r, ref::Universe<I...> const& u, int max_terms, int max_len,
                                    std::vector<int> const& modes) {
  lc::expression<S, I...> e;
  int nt = r.range(1, max_terms);
  if(r.coin(0.05)) nt = 0;
  for(int t = 0; t < nt; ++t) {
    Word w;
    int len = r.below(8) ? r.range(1, max_len) : 0;
    int focus = r.pick(modes);
    bool f = r.coin(0.3);
    for(int i = 0; i < len; ++i) {
      int m = f && r.coin(0.8) ? focus : r.pick(modes);
      if(!w.empty() && r.coin(0.25)) w.push_back(w.back());
      else w.push_back(ref::random_letter(r, u.model, m));
    }
    S k = ref::as<S>(ref::random_coeff<S>(r));
    e += lc::expression<S, I...>(k, u.mono(w));
  }
  return e;
}

struct SysCfg {
  int max_modes = 7;
  bool fermion = true, boson = true, spin = true;
  int max_mult = 6;
  int max_bits = 12;
  u64 max_boson = 20;
  bool user = true;
};

inline Sys<int> random_sys(mon::rng& r, SysCfg const& g) {
  for(;;) {
    Sys<int> s;
    int n = r.range(1, g.max_modes);
    int nf = 0, nb = 0;
    std::vector<int> sp;
    for(int i = 0; i < n; ++i) {
      int k = r.below(10);
      if(k < 5) { if(g.fermion) ++nf; }
      else if(k < 7) { if(g.boson) ++nb; }
      else if(g.spin) sp.push_back(r.coin(0.3) ? 2 : r.range(2, g.max_mult));
    }
    auto idxs = [&](int cnt) {
      std::set<int> q;
      while(int(q.size()) < cnt) q.insert(r.range(-60, 60));
      return std::vector<int>(q.begin(), q.end());
    };
    std::vector<u64> bd;
    int bits = nf;
    for(int i : idxs(nf)) { s.u.add({ref::FERMION, 2}, {i}); bd.push_back(0); }
    for(int i : idxs(nb)) {
      s.u.add({ref::BOSON, 2}, {i});
      u64 d;
      switch(r.below(4)) {
      case 0: d = u64(1) << r.below(1 + int(std::log2(double(g.max_boson)))); break;
      case 1: d = g.max_boson > 8 ? g.max_boson - r.next() % 4 : g.max_boson; break;
      default: d = 1 + r.next() % g.max_boson;
      }
      bd.push_back(d);
      for(u64 x = d - 1; x; x >>= 1) ++bits;
    }
    std::set<std::pair<int, int>> ss;
    for(int m : sp) {
      int i;
      do i = r.range(-5, 9); while(ss.count({m, i}));
      ss.insert({m, i});
    }
    for(auto const& p : ss) {
      s.u.add({ref::SPIN, p.first}, {p.second});
      bd.push_back(0);
      for(int x = p.first - 1; x; x >>= 1) ++bits;
    }
    std::vector<u64> user;
    if(g.user && r.coin(0.2)) { user.push_back(u64(r.range(1, 5))); bits += 3; }
    if(s.u.size() == 0 || bits > g.max_bits) continue;
    s.build(r, bd, user);
    return s;
  }
}

template <typename S> S random_amp(mon::rng& r) { return ref::as<S>(ref::random_coeff<S>(r)); }
// Amplitudes of different magnitudes, all far above the tolerance with which zeros are recognised
template <typename S> S wide_amp(mon::rng& r) {
  S a = random_amp<S>(r);
  if(real_eps<S>::value == 0 || r.coin(0.6)) return a;
  return S(std::ldexp(1., -r.below(real_eps<S>::value > 1e-10L ? 8 : 28))) * a;
}

} // namespace ops
