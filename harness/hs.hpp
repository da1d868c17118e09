// Independent model of Hilbert space layouts.
#pragma once
#include "lib.hpp"

namespace hsm {
using mon::u64;

template <typename... I> struct es_user : lc::elementary_space<I...> {
  using base = lc::elementary_space<I...>;
  int id;
  u64 d;
  es_user(int id_, u64 dim, std::tuple<I...> const& i) : base(i), id(id_), d(dim) {}
  std::unique_ptr<base> clone() const override { return std::unique_ptr<base>(new es_user(*this)); }
  int algebra_id() const override { return id; }
  lc::sv_index_type dim() const override { return d; }
  int n_bits() const override {
    int n = 0;
    for(u64 m = d - 1; m; m >>= 1) ++n;
    return n;
  }
};

struct Entry {
  int alg;   // -3, -2, -1, >= 0
  int mult;  // spins: multiplicity, otherwise 0
  int idx;   // position in the ordered pool of indices
  u64 dim;
  std::tuple<int, int, int> key() const { return {alg, mult, idx}; }
  int bits() const {
    int n = 0;
    for(u64 m = dim - 1; m; m >>= 1) ++n;
    return n;
  }
  std::string str() const {
    return (alg == -3 ? "f" : alg == -2 ? "b" : alg == -1 ? "s" : "u" + std::to_string(alg)) + std::to_string(idx) +
           ":" + std::to_string(dim);
  }
};

struct Layout {
  std::map<std::tuple<int, int, int>, Entry> m;
  int bits() const {
    int n = 0;
    for(auto const& p : m) n += p.second.bits();
    return n;
  }
  u64 dim() const {
    u64 d = 1;
    for(auto const& p : m) d *= p.second.dim;
    return d;
  }
  // position, shift of an entry
  int shift(std::tuple<int, int, int> const& k) const {
    int n = 0;
    for(auto const& p : m) {
      if(p.first == k) return n;
      n += p.second.bits();
    }
    return -1;
  }
  std::string str() const {
    std::string s = "{";
    for(auto const& p : m) s += p.second.str() + " ";
    return s + "}";
  }
  // k-th physical state in increasing order (mixed radix)
  u64 nth(u64 k) const {
    u64 r = 0;
    int sh = 0;
    for(auto const& p : m) {
      if(p.second.dim > 1) r |= (k % p.second.dim) << sh;
      k /= p.second.dim;
      sh += p.second.bits();
    }
    return r;
  }
  bool physical(u64 s) const {
    for(auto const& p : m) {
      int b = p.second.bits();
      if(b && (s & ((u64(1) << b) - 1)) >= p.second.dim) return false;
      s = b >= 64 ? 0 : s >> b;
    }
    return s == 0;
  }
  std::vector<u64> states() const {
    std::vector<u64> v;
    u64 d = dim();
    v.reserve(d);
    for(u64 k = 0; k < d; ++k) v.push_back(nth(k));
    return v;
  }
};

inline bool operator==(Layout const& a, Layout const& b) {
  if(a.m.size() != b.m.size()) return false;
  auto j = b.m.begin();
  for(auto i = a.m.begin(); i != a.m.end(); ++i, ++j)
    if(i->first != j->first || i->second.dim != j->second.dim) return false;
  return true;
}

template <typename... I> struct Space {
  using hs_t = lc::hilbert_space<I...>;
  using es_t = lc::elementary_space<I...>;
  std::vector<std::tuple<I...>> pool; // indices in increasing order

  std::unique_ptr<es_t> make(Entry const& e) const {
    auto const& i = pool[e.idx];
    switch(e.alg) {
    case -3: return std::unique_ptr<es_t>(new lc::elementary_space_fermion<I...>(i));
    case -2: return std::unique_ptr<es_t>(new lc::elementary_space_boson<I...>(e.dim, i));
    case -1: return std::unique_ptr<es_t>(new lc::elementary_space_spin<I...>((e.mult - 1) / 2.0, i));
    default: return std::unique_ptr<es_t>(new es_user<I...>(e.alg, e.dim, i));
    }
  }
  bool same(es_t const& x, Entry const& e) const {
    return x.algebra_id() == e.alg && x.indices() == pool[e.idx] && x.dim() == e.dim && x.n_bits() == e.bits();
  }
  hs_t build(std::vector<Entry> const& es) const {
    hs_t h;
    for(auto const& e : es) h.add(*make(e));
    return h;
  }

  // Full interface snapshot of a space compared with its layout; "" if equal
  std::string compare(hs_t& h, Layout const& L, std::vector<Entry> const& universe, mon::u64* obs = nullptr) const {
    std::ostringstream er;
    hs_t const& ch = h;
    if(ch.size() != L.m.size()) er << "size() " << ch.size() << "; ";
    if(ch.total_n_bits() != L.bits()) er << "total_n_bits() " << ch.total_n_bits() << "; ";
    if(ch.dim() != L.dim()) er << "dim() " << ch.dim() << "; ";
    if(get_dim(ch) != L.dim()) er << "get_dim() " << get_dim(ch) << "; ";
    if(ch.vec_size() != u64(1) << L.bits()) er << "vec_size() " << ch.vec_size() << "; ";
    if(get_vec_size(ch) != u64(1) << L.bits()) er << "get_vec_size; ";
    if(ch.is_sparse() != ((u64(1) << L.bits()) != L.dim())) er << "is_sparse() " << ch.is_sparse() << "; ";
    auto it = L.m.begin();
    bool bad = false;
    std::size_t cnt = 0;
    ch.foreach_elementary_space([&](es_t const& es) {
      ++cnt;
      if(it == L.m.end() || !same(es, it->second)) bad = true;
      else ++it;
    });
    if(bad || cnt != L.m.size()) er << "foreach_elementary_space; ";
    // elementary spaces of one Hilbert space are strictly ordered as in the layout
    if(!universe.empty()) {
      Entry const &ea = universe[(L.m.size() * 7 + std::size_t(L.bits())) % universe.size()], &eb = universe[std::size_t(L.bits()) % universe.size()];
      auto x = make(ea), y = make(eb);
      bool lt = ea.key() < eb.key(), gt = eb.key() < ea.key();
      if((*x < *y) != lt || (*x > *y) != gt || (*x == *y) != (!lt && !gt) || (*x != *y) != (lt || gt))
        er << "order of elementary spaces " << ea.str() << " and " << eb.str() << "; ";
    }
    int pos = 0, sh = 0;
    std::map<int, std::pair<int, int>> alg;
    for(auto const& p : L.m) {
      Entry const& e = p.second;
      auto es = make(e);
      int b = e.bits();
      if(!ch.has(*es)) er << "has(" << e.str() << "); ";
      else {
        if(ch.index(*es) != pos) er << "index(" << e.str() << ")=" << ch.index(*es) << "; ";
        if(ch.dim(*es) != e.dim) er << "dim(" << e.str() << ")=" << ch.dim(*es) << "; ";
        auto br = ch.bit_range(*es);
        if(br != lc::bit_range_t(sh, sh + b - 1))
          er << "bit_range(" << e.str() << ")=" << br.first << "," << br.second << "; ";
        u64 n = b ? (e.dim - 1) : 0;
        for(u64 v : {u64(0), n, n / 2})
          if(sh < 63 && h.basis_state_index(*es, v) != v << sh) er << "basis_state_index(" << e.str() << "); ";
      }
      auto a = alg.find(e.alg);
      if(a == alg.end()) alg.emplace(e.alg, std::make_pair(sh, sh + b - 1));
      else a->second.second = sh + b - 1;
      sh += b;
      ++pos;
    }
    for(int id = -4; id <= 8; ++id) {
      auto a = alg.find(id);
      if(ch.has_algebra(id) != (a != alg.end())) er << "has_algebra(" << id << "); ";
      try {
        auto br = ch.algebra_bit_range(id);
        if(a == alg.end()) er << "algebra_bit_range(" << id << ") accepted; ";
        else if(br != a->second) er << "algebra_bit_range(" << id << ")=" << br.first << "," << br.second << "; ";
      } catch(std::runtime_error const&) {
        if(a != alg.end()) er << "algebra_bit_range(" << id << ") refused; ";
      }
    }
    for(auto const& e : universe) {
      if(L.m.count(e.key())) continue;
      auto es = make(e);
      if(ch.has(*es)) er << "has absent " << e.str() << "; ";
      int n = 0;
      for(int f = 0; f < 4; ++f) {
        try {
          if(f == 0) ch.index(*es);
          else if(f == 1) ch.dim(*es);
          else if(f == 2) ch.bit_range(*es);
          else h.basis_state_index(*es, 0);
        } catch(typename hs_t::elementary_space_not_found const& x) {
          if(x.elementary_space_ptr && same(*x.elementary_space_ptr, e)) ++n;
        }
      }
      if(n != 4) er << "query of absent " << e.str() << " accepted; ";
    }
    if(obs) *obs += 1;
    std::string s = er.str();
    return s.empty() ? s : s + " [expected layout " + L.str() + "]";
  }
};

template <typename... I> struct pools;
template <> struct pools<int> {
  static std::vector<std::tuple<int>> get() {
    std::vector<std::tuple<int>> p;
    for(int i = 0; i < 70; ++i) p.emplace_back(i * 2 - 9);
    return p;
  }
};
template <> struct pools<std::string, int> {
  static std::vector<std::tuple<std::string, int>> get() {
    std::vector<std::tuple<std::string, int>> p;
    for(char const* s : {"", "a", "aa", "b", "dn", "up"})
      for(int i = -3; i < 9; ++i) p.emplace_back(s, i);
    return p;
  }
};
template <> struct pools<libcommute::dynamic_indices::dyn_indices> {
  using D = libcommute::dynamic_indices::dyn_indices;
  static std::vector<std::tuple<D>> get() {
    std::vector<std::tuple<D>> p;
    p.emplace_back(D());
    for(int i = -3; i < 12; ++i) p.emplace_back(D(i));
    for(char const* s : {"", "a", "aa", "b"}) p.emplace_back(D(std::string(s)));
    for(int i = 0; i < 5; ++i) {
      for(int j = -1; j < 4; ++j) p.emplace_back(D(i, j));
      if(i < 3)
        for(char const* s : {"dn", "up"}) p.emplace_back(D(i, std::string(s)));
    }
    for(char const* s : {"dn", "up"})
      for(int i = 0; i < 4; ++i) p.emplace_back(D(std::string(s), i));
    return p;
  }
};

// Random elementary spaces; n_idx: how many indices of the pool are used
inline Entry random_entry(mon::rng& r, int n_idx, u64 max_dim, bool user = true) {
  Entry e;
  int k = r.below(user ? 10 : 9);
  e.idx = r.below(n_idx);
  e.mult = 0;
  auto rnd_dim = [&]() -> u64 {
    switch(r.below(4)) {
    case 0: return u64(1) << r.below(4);
    case 1: return u64(r.range(1, 9));
    default: return u64(r.range(2, int(std::min<u64>(max_dim, 40))));
    }
  };
  if(k < 3) { e.alg = -3; e.dim = 2; }
  else if(k < 6) { e.alg = -2; e.dim = std::min<u64>(max_dim, rnd_dim()); }
  else if(k < 9) { e.alg = -1; e.mult = r.range(2, 7); e.dim = u64(e.mult); }
  else { e.alg = r.coin() ? 0 : 3; e.dim = std::min<u64>(max_dim, rnd_dim()); }
  return e;
}

} // namespace hsm
