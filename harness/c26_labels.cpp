// C26: index types and labels carry no hidden meaning. The same random computation is replayed
// with modes labelled by different index types; everything observed is recorded by positions
// of modes and compared with the record of the integer labels 0, 1, 2, ...
#include "lib.hpp"
#include "hs.hpp"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>

#ifndef PART
#define PART 1
#endif

// A user-defined index whose order is the opposite of the order of its values
struct tag {
  int v = 0;
  friend bool operator==(tag a, tag b) { return a.v == b.v; }
  friend bool operator!=(tag a, tag b) { return a.v != b.v; }
  friend bool operator<(tag a, tag b) { return a.v > b.v; }
  friend bool operator>(tag a, tag b) { return a.v < b.v; }
  friend bool operator<=(tag a, tag b) { return a.v >= b.v; }
  friend bool operator>=(tag a, tag b) { return a.v <= b.v; }
  friend std::string to_string(tag t) { return "<" + std::to_string(t.v) + ">"; }
};
// Every label reads the same
struct mute {
  int v = 0;
  friend bool operator==(mute a, mute b) { return a.v == b.v; }
  friend bool operator!=(mute a, mute b) { return a.v != b.v; }
  friend bool operator<(mute a, mute b) { return a.v < b.v; }
  friend bool operator>(mute a, mute b) { return a.v > b.v; }
  friend bool operator<=(mute a, mute b) { return a.v <= b.v; }
  friend bool operator>=(mute a, mute b) { return a.v >= b.v; }
  friend std::string to_string(mute) { return "?"; }
};

using mon::u64;
using ref::Letter;
using ref::Poly;
using ref::Universe;
using D = libcommute::dynamic_indices::dyn_indices;
using G = libcommute::dynamic_indices::dyn_indices_generic<std::string, tag, long long>;

// ---- labels and their order, written independently of the library -------------------
namespace {
int sign(long long a, long long b) { return a < b ? -1 : a > b; }
int order(int a, int b) { return sign(a, b); }
int order(long long a, long long b) { return sign(a, b); }
int order(unsigned char a, unsigned char b) { return sign(a, b); }
int order(tag a, tag b) { return sign(b.v, a.v); }
int order(mute a, mute b) { return sign(a.v, b.v); }
int order(std::string const& a, std::string const& b) {
  for(std::size_t i = 0;; ++i) {
    if(i == a.size()) return i == b.size() ? 0 : -1;
    if(i == b.size()) return 1;
    auto x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
    if(x != y) return x < y ? -1 : 1;
  }
}
template <typename... T> int order_variant(std::variant<T...> const& a, std::variant<T...> const& b) {
  if(a.index() != b.index()) return a.index() < b.index() ? -1 : 1;
  return std::visit([&](auto const& x) { return order(x, std::get<std::decay_t<decltype(x)>>(b)); }, a);
}
template <typename... T>
int order(libcommute::dynamic_indices::dyn_indices_generic<T...> const& a,
          libcommute::dynamic_indices::dyn_indices_generic<T...> const& b) {
  using V = std::vector<std::variant<T...>>;
  V const &x = static_cast<V const&>(a), &y = static_cast<V const&>(b);
  if(x.size() != y.size()) return x.size() < y.size() ? -1 : 1;
  for(std::size_t i = 0; i < x.size(); ++i)
    if(int o = order_variant(x[i], y[i])) return o;
  return 0;
}
template <std::size_t K = 0, typename... I> int order_tuple(std::tuple<I...> const& a, std::tuple<I...> const& b) {
  if constexpr(K == sizeof...(I)) return 0;
  else {
    int o = order(std::get<K>(a), std::get<K>(b));
    return o ? o : order_tuple<K + 1>(a, b);
  }
}

void draw(mon::rng& r, int& x) {
  static int const v[] = {0, 1, -1, 2, 3, 10, 65536, 1 << 30, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(),
                          std::numeric_limits<int>::min() + 1, -10, 255, 256};
  x = r.coin(0.6) ? v[r.below(14)] : r.range(-1000000, 1000000);
}
void draw(mon::rng& r, long long& x) {
  x = r.coin(0.3) ? r.range(-3, 3) : (long long)(u64(r.range(-2, 2)) << 32) + r.range(0, 2);
  if(r.coin(0.1)) x = r.coin() ? std::numeric_limits<long long>::min() : std::numeric_limits<long long>::max();
}
void draw(mon::rng& r, unsigned char& x) { x = static_cast<unsigned char>(r.below(256)); }
void draw(mon::rng& r, tag& x) { draw(r, x.v); if(x.v < -2000000000) x.v = -5; }
void draw(mon::rng& r, mute& x) { x.v = r.range(-20, 20); }
void draw(mon::rng& r, std::string& x) {
  static char const* const v[] = {"", "0", "00", "1", "10", "2", "-1", "A", "B", "a", "aa", "ab", "b", "up", "dn", "Up", " up", "up ", "1,2",
                                  "(1)", "a very long label which is stored on the heap", "a very long label which is stored on the heap!",
                                  "\xc3\xa9", "\x7f", "~"};
  x = v[r.below(25)];
  if(r.coin(0.2)) x += std::string(1, '\0') + (r.coin() ? "x" : "");
  if(r.coin(0.2)) x += char(r.range(1, 255));
}
void draw_dyn(mon::rng& r, D& x) {
  D::indices_t v;
  int n = r.below(4);
  for(int i = 0; i < n; ++i) {
    if(r.coin()) { int y; if(r.coin()) y = r.range(-2, 2); else draw(r, y); v.emplace_back(y); }
    else { std::string y; draw(r, y); v.emplace_back(std::move(y)); }
  }
  x = D(std::move(v));
}
void draw_dyn(mon::rng& r, G& x) {
  G::indices_t v;
  int n = r.below(4);
  for(int i = 0; i < n; ++i)
    switch(r.below(3)) {
    case 0: { std::string y; draw(r, y); v.emplace_back(std::move(y)); break; }
    case 1: { tag y; draw(r, y); v.emplace_back(y); break; }
    default: { long long y; draw(r, y); v.emplace_back(y); }
    }
  x = G(std::move(v));
}
template <typename T> void draw_any(mon::rng& r, T& x) {
  if constexpr(std::is_same_v<T, D> || std::is_same_v<T, G>) draw_dyn(r, x);
  else draw(r, x);
}
// A label which looks like the given one
template <typename T> void resemble(mon::rng& r, T& x) {
  if constexpr(std::is_same_v<T, D>) {
    D::indices_t v = static_cast<D::indices_t const&>(x);
    int k = v.empty() ? -1 : r.below(int(v.size()));
    switch(r.below(6)) {
    case 0: case 1: case 2:
      if(k < 0) break;
      if(auto* i = std::get_if<int>(&v[k])) v[k] = std::to_string(*i);
      else {
        auto t = std::get<std::string>(v[k]);
        if(!t.empty() && t.size() < 9 && t.find_first_not_of("0123456789") == t.npos) v[k] = std::stoi(t);
        else { int y; draw(r, y); v[k] = y; }
      }
      break;
    case 3: // several elements joined to one
      if(v.size() > 1) {
        std::string t = to_string(x);
        v.clear();
        v.emplace_back(t);
      }
      break;
    case 4: v.emplace_back(std::string()); break;
    default: if(k >= 0) { if(r.coin()) v.erase(v.begin() + k); else v.push_back(v[k]); }
    }
    x = D(std::move(v));
  } else if constexpr(std::is_same_v<T, G>) {
    G::indices_t v = static_cast<G::indices_t const&>(x);
    if(!v.empty()) {
      auto& y = v[r.below(int(v.size()))];
      if(auto* i = std::get_if<long long>(&y)) { if(r.coin()) y = std::to_string(*i); else { tag t; t.v = int(*i); y = t; } }
      else if(auto* t = std::get_if<tag>(&y)) y = r.coin() ? G::indices_t::value_type((long long)(t->v)) : G::indices_t::value_type(to_string(*t));
      else v.emplace_back(std::string());
    }
    x = G(std::move(v));
  } else if constexpr(std::is_same_v<T, std::string>) {
    switch(r.below(4)) {
    case 0: x += '\0'; break;
    case 1: if(!x.empty()) x.pop_back(); break;
    case 2: x += " "; break;
    default: if(!x.empty()) { auto& ch = x[r.below(int(x.size()))]; ch = char(ch ^ (r.coin() ? 0x20 : 0x80)); }
    }
  } else if constexpr(std::is_same_v<T, int>) x = r.coin() ? int(unsigned(x) ^ (1u << r.below(32))) : (x == std::numeric_limits<int>::min() ? 0 : -x);
  else if constexpr(std::is_same_v<T, long long>) x ^= (long long)(u64(1) << r.below(64));
  else if constexpr(std::is_same_v<T, tag> || std::is_same_v<T, mute>) x.v = int(unsigned(x.v) ^ (1u << r.below(30)));
}
// n distinct labels in increasing order; neighbours often share their first components
template <typename... I> std::vector<std::tuple<I...>> labels(mon::rng& r, int n) {
  std::vector<std::tuple<I...>> v;
  for(int tries = 0; int(v.size()) < n; ++tries) {
    if(tries > 2000) throw mon::skip_case{};
    std::tuple<I...> t;
    std::apply([&](auto&... x) { (draw_any(r, x), ...); }, t);
    if(!v.empty() && sizeof...(I) > 1 && r.coin()) {
      auto k = r.below(int(sizeof...(I)));
      auto s = v[r.below(int(v.size()))];
      int j = 0;
      // one component changed
      [&]<std::size_t... K>(std::index_sequence<K...>) { ((int(K) == k ? void(std::get<K>(s) = std::get<K>(t)) : void(j)), ...); }
      (std::index_sequence_for<I...>());
      t = s;
    }
    if(!v.empty() && sizeof...(I) > 0 && r.coin(0.4)) {
      t = v[r.below(int(v.size()))];
      auto k = r.below(int(sizeof...(I)));
      int j = 0;
      std::apply([&](auto&... x) { ((j++ == k ? resemble(r, x) : void()), ...); }, t);
    }
    bool known = false;
    for(auto const& x : v) known = known || order_tuple(x, t) == 0;
    if(!known) v.push_back(t);
  }
  std::sort(v.begin(), v.end(), [](auto const& a, auto const& b) { return order_tuple(a, b) < 0; });
  return v;
}

// ---- what a computation looks like, by positions of modes ----------------------------
struct Shape {
  std::vector<ref::Mode> modes; // by algebra and multiplicity
  std::vector<u64> dim;
  std::vector<int> group, rank, group_size;
  bool spin_half_only = true;
  std::string str() const {
    std::string s;
    for(std::size_t m = 0; m < modes.size(); ++m)
      s += std::string(modes[m].alg == ref::FERMION ? "F" : modes[m].alg == ref::BOSON ? "B" : "S") + std::to_string(dim[m]) + " ";
    return s;
  }
};
Shape random_shape(mon::rng& r, bool big_spins, int max_modes) {
  Shape s;
  int total = 0;
  auto add = [&](ref::Mode m, int n, u64 d) {
    if(n == 0) return;
    s.group_size.push_back(n);
    for(int i = 0; i < n; ++i) {
      s.modes.push_back(m);
      s.dim.push_back(d);
      s.group.push_back(int(s.group_size.size()) - 1);
      s.rank.push_back(i);
      ++total;
    }
  };
  do {
    s = Shape();
    total = 0;
    add({ref::FERMION, 2}, r.below(4), 2);
    if(r.coin(0.6)) add({ref::BOSON, 2}, r.range(0, 2), u64(r.range(2, 4)));
    if(r.coin(0.6)) add({ref::SPIN, 2}, r.range(0, 2), 2);
    if(big_spins && r.coin(0.4)) { int m = r.range(3, 4); add({ref::SPIN, m}, r.range(1, 2), u64(m)); s.spin_half_only = false; }
  } while(total == 0 || total > max_modes);
  return s;
}

struct Entry {
  std::string s;
  std::vector<double> x;
};
struct Record {
  std::vector<Entry> v;
  void add(std::string s, std::vector<double> x = {}) { v.push_back({std::move(s), std::move(x)}); }
};

template <typename... I> struct Replay {
  using E = lc::expression<double, I...>;
  using HS = lc::hilbert_space<I...>;
  Shape const& sh;
  Universe<I...> u;
  Record out;
  std::vector<std::tuple<I...>> lab; // of every mode
  // perm: label of mode m is the one of rank perm[m] in its group
  Replay(mon::rng& r, Shape const& s, std::vector<int> const& perm) : sh(s) {
    std::vector<std::vector<std::tuple<I...>>> g;
    bool shared = r.coin(); // groups draw from the same labels
    int mx = *std::max_element(s.group_size.begin(), s.group_size.end());
    auto common = labels<I...>(r, mx);
    for(int n : s.group_size) g.push_back(shared ? common : labels<I...>(r, n));
    for(std::size_t m = 0; m < s.modes.size(); ++m) {
      lab.push_back(g[s.group[m]][perm[m]]);
      u.add(s.modes[m], lab.back());
    }
  }
  std::unique_ptr<lc::elementary_space<I...>> space(int m) const {
    using B = std::unique_ptr<lc::elementary_space<I...>>;
    auto const& md = sh.modes[m];
    if(md.alg == ref::FERMION) return B(new lc::elementary_space_fermion<I...>(lab[m]));
    if(md.alg == ref::BOSON) return B(new lc::elementary_space_boson<I...>(sh.dim[m], lab[m]));
    return B(new lc::elementary_space_spin<I...>((md.mult - 1) / 2.0, lab[m]));
  }
  template <typename S> std::string terms(lc::expression<S, I...> const& e) const {
    std::string s;
    for(auto const& t : e) s += "[" + ref::to_c(t.coeff).str() + "]" + u.model.show(u.read(t.monomial)) + ";";
    return s + " " + std::to_string(e.size());
  }
  // the space by positions of its modes
  std::string layout(HS const& h) const {
    std::string s = std::to_string(h.size()) + " spaces, " + std::to_string(h.total_n_bits()) + " bits, dim " + std::to_string(h.dim()) + ":";
    for(int m = 0; m < u.size(); ++m) {
      auto es = space(m);
      if(!h.has(*es)) { s += " -"; continue; }
      auto b = h.bit_range(*es);
      s += " " + std::to_string(b.first) + "-" + std::to_string(b.second) + "@" + std::to_string(h.index(*es));
    }
    for(int a : {lc::fermion, lc::boson, lc::spin})
      if(h.has_algebra(a)) {
        auto b = h.algebra_bit_range(a);
        s += " " + std::to_string(a) + ":" + std::to_string(b.first) + "-" + std::to_string(b.second);
      }
    return s;
  }
};

std::string join(std::vector<u64> const& v) { return mon::vstr(v); }

// Everything observed of one computation. p: its random choices
template <typename... I> Record replay(mon::rng p, mon::rng lr, Shape const& sh) {
  std::vector<int> id = sh.rank;
  Replay<I...> R(lr, sh, id);
  auto& u = R.u;
  auto& o = R.out;
  using E = lc::expression<double, I...>;
  using HS = lc::hilbert_space<I...>;
  // expressions
  auto a = ref::random_program<double>(p, u, p.range(2, 6), 40, 5).e;
  auto b = ref::random_program<double>(p, u, p.range(0, 3), 20, 4).e;
  o.add("a " + R.terms(a));
  o.add("b " + R.terms(b));
  E ab = a * b, ba = b * a, com = ab - ba;
  o.add("ab " + R.terms(ab));
  o.add("[a,b] " + R.terms(com));
  o.add("conj " + R.terms(conj(a)));
  o.add("hc " + R.terms(E(a + lc::hc)));
  o.add("a-a " + R.terms(E(a - a)));
  o.add("== " + std::to_string(a == b) + std::to_string(a == E(b + a - b)) + std::to_string(ab == ba));
  {
    std::vector<lc::monomial<I...>> ms;
    for(auto const& t : ab) ms.push_back(t.monomial);
    for(auto const& t : a) ms.push_back(t.monomial);
    for(int i = 0; i < 3; ++i) ms.push_back(u.mono(ref::random_word(p, u.model, p.range(0, 4))));
    std::string s;
    for(int i = 0; i < 20; ++i) {
      auto const &x = ms[p.below(int(ms.size()))], &y = ms[p.below(int(ms.size()))];
      s += char('0' + (x < y) + 2 * (x == y) + 4 * (x > y) + 8 * x.is_ordered());
    }
    o.add("monomials " + s);
    int sorted = 0;
    std::vector<std::size_t> ix(ms.size());
    for(std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
    std::stable_sort(ix.begin(), ix.end(), [&](std::size_t i, std::size_t j) { ++sorted; return ms[i] < ms[j]; });
    o.add("sorted " + mon::vstr(ix));
  }
  {
    std::string s;
    auto t = transform(a, [&](lc::monomial<I...> const& m, double x) { return m.size() % 2 ? 2 * x : m.empty() ? 0. : x; });
    o.add("transform " + R.terms(t));
    for(int m = 0; m < u.size(); ++m)
      for(int n = 0; n < u.size(); ++n) {
        auto g1 = u.gen({m, p.below(2)}), g2 = u.gen({n, p.below(2)});
        s += char('0' + (*g1 < *g2) + 2 * (*g1 == *g2) + 4 * (*g1 > *g2));
      }
    o.add("generators " + s);
  }
  // spaces
  HS h;
  std::vector<int> ord(u.size());
  for(int m = 0; m < u.size(); ++m) ord[m] = m;
  p.shuffle(ord);
  for(int m : ord) h.add(*R.space(m));
  o.add("layout " + R.layout(h));
  for(int m : ord) {
    bool threw = false;
    try { h.add(*R.space(m)); } catch(typename HS::elementary_space_exists const&) { threw = true; }
    if(!threw) o.add("duplicate accepted");
  }
  {
    u64 d = sh.dim[0];
    for(std::size_t m = 0; m < sh.dim.size(); ++m) if(sh.modes[m].alg == ref::BOSON) d = sh.dim[m];
    auto h2 = lc::make_hilbert_space(a, lc::boson_es_constructor(d));
    o.add("deduced " + R.layout(h2) + " " + std::to_string(h2 == h) + std::to_string(h2 != h));
    auto h3 = lc::make_hilbert_space(E(a + com), lc::boson_es_constructor(d));
    o.add("deduced2 " + R.layout(h3) + " " + std::to_string(h2 == h3));
  }
  // everything the space lacks one mode for is rejected
  if(u.size() > 1) {
    int miss = p.below(u.size());
    HS h4;
    for(int m : ord) if(m != miss) h4.add(*R.space(m));
    o.add("incomplete " + R.layout(h4));
    bool threw = false;
    try { auto op = lc::make_loperator(E(1., u.mono({{miss, 0}})), h4); (void)op; }
    catch(std::exception const&) { threw = true; }
    o.add(threw ? "rejected" : "accepted");
    threw = false;
    try { (void)h4.bit_range(*R.space(miss)); } catch(typename HS::elementary_space_not_found const&) { threw = true; }
    o.add(threw ? "not found" : "found");
  }
  std::vector<u64> st;
  foreach(h, [&](u64 x) { st.push_back(x); });
  if(st.size() > 600) throw mon::skip_case{};
  o.add("states " + join(st));
  // operators
  auto act = [&](char const* nm, E const& e) {
    auto op = lc::make_loperator(e, h);
    std::vector<double> x(h.vec_size(), 0.), y(h.vec_size(), 0.);
    for(u64 s : st) x[s] = p.range(-3, 3);
    op(x, y);
    o.add(nm, y);
  };
  act("a|v>", a);
  act("ab|v>", ab);
  act("com|v>", com);
  // partitions
  {
    E hm = a + conj(a);
    auto H = lc::make_loperator(hm, h);
    lc::matrix_elements_map<double> me;
    auto sp = lc::make_space_partition(H, h, me);
    std::string s;
    std::vector<double> x;
    for(u64 i : st) s += std::to_string(sp[i]) + ",";
    for(auto const& q : me) { s += std::to_string(q.first.first) + ">" + std::to_string(q.first.second) + " "; x.push_back(q.second); }
    o.add("partition " + s, x);
    auto B = lc::make_loperator(b, h), Bd = lc::make_loperator(E(conj(b)), h);
    s = "connections ";
    for(auto const& q : sp.find_connections(B)) s += std::to_string(q.first) + ">" + std::to_string(q.second) + " ";
    o.add(s);
    sp.merge_subspaces(B, Bd);
    s = "merged ";
    for(u64 i : st) s += std::to_string(sp[i]) + ",";
    o.add(s);
    lc::basis_mapper mp(B, h);
    std::vector<u64> k;
    for(auto const& q : mp.map()) { k.push_back(q.first); k.push_back(q.second); }
    if(b.size()) o.add("mapper " + join(k));
  }
  // sectors
  if(h.has_algebra(lc::fermion)) {
    std::vector<int> f;
    for(int m = 0; m < u.size(); ++m) if(sh.modes[m].alg == ref::FERMION) f.push_back(m);
    bool dense = true;
    for(u64 d : sh.dim) dense = dense && (d & (d - 1)) == 0;
    if(dense) {
      unsigned N = unsigned(p.range(0, int(f.size())));
      o.add("sector " + std::to_string(n_fermion_sector_size(h, N)) + join(n_fermion_sector_basis_states(h, N)));
      std::vector<lc::sector_descriptor<HS>> sec;
      p.shuffle(f);
      std::size_t k = 0;
      while(k < f.size()) {
        std::size_t n = 1 + std::size_t(p.below(int(f.size() - k)));
        sec.emplace_back();
        for(std::size_t i = 0; i < n; ++i) sec.back().indices.insert(R.lab[f[k + i]]);
        sec.back().N = unsigned(p.range(0, int(n)));
        k += n;
        if(p.coin(0.3)) break;
      }
      o.add("multisector " + std::to_string(n_fermion_multisector_size(h, sec)) + join(n_fermion_multisector_basis_states(h, sec)));
      lc::n_fermion_multisector_view<std::vector<double>, false> w(std::vector<double>(n_fermion_multisector_size(h, sec)), h, sec);
      std::vector<u64> ix;
      for(u64 s : n_fermion_multisector_basis_states(h, sec)) ix.push_back(w.map_index(s));
      o.add("ranks " + join(ix));
    }
  }
  return std::move(o);
}

void compare(mon::Case& c, Record const& want, Record const& got, char const* nm) {
  for(std::size_t i = 0; i < want.v.size() && i < got.v.size(); ++i) {
    auto const &w = want.v[i], &g = got.v[i];
    std::string key = w.s.substr(0, w.s.find(' '));
    if(!c.check(w.s == g.s, "RELABELLING", [&] { return std::string(nm) + " " + key + ": " + g.s + " for 0,1,2..: " + w.s; })) return;
    bool ok = w.x.size() == g.x.size();
    for(std::size_t k = 0; ok && k < w.x.size(); ++k) ok = std::fabs(w.x[k] - g.x[k]) <= 1e-11 * (1 + std::fabs(w.x[k]));
    if(!c.check(ok, "RELABELLING", [&] { return std::string(nm) + " " + key + ": " + mon::vstr(g.x) + " for 0,1,2..: " + mon::vstr(w.x); })) return;
  }
  c.check(want.v.size() == got.v.size(), "RELABELLING", [&] { return std::string(nm) + ": different number of observations"; });
  c.ev(std::string("observations ") + nm, got.v.size());
}

// ---- permuted labels ------------------------------------------------------------------
// The operators, spaces and partitions of one computation in a form which does not depend on
// the order of labels
struct Unordered {
  std::vector<Poly> p;
  std::vector<std::size_t> n_terms;
  std::vector<std::map<std::pair<std::string, std::string>, double>> me; // |matrix elements| between occupations
  std::set<std::set<std::string>> sub, merged;
  std::set<std::string> multi;
  std::vector<std::string> flags;
};
template <typename... I> Unordered unordered(mon::rng p, mon::rng lr, Shape const& sh, std::vector<int> const& perm) {
  Replay<I...> R(lr, sh, perm);
  auto& u = R.u;
  using E = lc::expression<double, I...>;
  using HS = lc::hilbert_space<I...>;
  Unordered o;
  auto a = ref::random_program<double>(p, u, p.range(2, 6), 30, 5).e;
  auto b = ref::random_program<double>(p, u, p.range(0, 3), 15, 3).e;
  std::vector<E> es{a, b, E(a * b), E(a * b - b * a), E(conj(a)), E(a + lc::hc)};
  for(auto const& e : es) { o.p.push_back(u.read(e)); o.n_terms.push_back(e.size()); }
  o.flags.push_back(std::to_string(a == b) + std::to_string(es[2] == E(b * a)) + std::to_string(es[4] == a));
  HS h;
  std::vector<int> ord(u.size());
  for(int m = 0; m < u.size(); ++m) ord[m] = m;
  p.shuffle(ord);
  for(int m : ord) h.add(*R.space(m));
  if(h.dim() > 200) return o;
  std::vector<u64> st;
  foreach(h, [&](u64 x) { st.push_back(x); });
  auto occ = [&](u64 s) {
    std::string t;
    for(int m = 0; m < u.size(); ++m) {
      auto q = h.bit_range(*R.space(m));
      t += std::to_string((s >> q.first) & ((u64(1) << (q.second - q.first + 1)) - 1)) + ".";
    }
    return t;
  };
  std::map<u64, std::string> name;
  for(u64 s : st) name[s] = occ(s);
  for(auto const& e : {a, es[3]}) {
    auto op = lc::make_loperator(e, h);
    o.me.emplace_back();
    for(u64 s : st) {
      std::vector<double> x(h.vec_size(), 0.);
      x[s] = 1;
      auto y = op(x);
      for(u64 t : st) if(std::fabs(y[t]) > 1e-9) o.me.back()[{name[s], name[t]}] = std::fabs(y[t]);
    }
  }
  auto groups = [&](auto const& sp) {
    std::map<u64, std::set<std::string>> g;
    for(u64 s : st) g[sp[s]].insert(name[s]);
    std::set<std::set<std::string>> r;
    for(auto const& q : g) r.insert(q.second);
    return r;
  };
  auto sp = lc::make_space_partition(lc::make_loperator(es[5], h), h);
  o.sub = groups(sp);
  sp.merge_subspaces(lc::make_loperator(b, h), lc::make_loperator(E(conj(b)), h));
  o.merged = groups(sp);
  std::vector<int> f;
  for(int m = 0; m < u.size(); ++m) if(sh.modes[m].alg == ref::FERMION) f.push_back(m);
  bool dense = true;
  for(u64 d : sh.dim) dense = dense && (d & (d - 1)) == 0;
  if(!f.empty() && dense) {
    std::vector<lc::sector_descriptor<HS>> sec(1);
    int k = p.range(1, int(f.size()));
    for(int i = 0; i < k; ++i) sec[0].indices.insert(R.lab[f[i]]);
    sec[0].N = unsigned(p.range(0, k));
    for(u64 s : n_fermion_multisector_basis_states(h, sec)) o.multi.insert(occ(s));
  }
  return o;
}
void compare(mon::Case& c, ref::Model const& md, bool uniq, Unordered const& w, Unordered const& g, char const* nm) {
  static char const* const what[] = {"a", "b", "ab", "[a,b]", "conj(a)", "a+hc"};
  for(std::size_t i = 0; i < w.p.size(); ++i) {
    auto x = md.diff(g.p[i], w.p[i]);
    if(!c.check(x.empty(), "PERMUTED-OPERATOR", [&] { return std::string(nm) + " " + what[i] + " " + x; })) return;
    if(uniq) c.check(w.n_terms[i] == g.n_terms[i], "PERMUTED-TERMS", [&] { return std::string(nm) + " " + what[i] + ": " + std::to_string(g.n_terms[i]) + " terms, otherwise " + std::to_string(w.n_terms[i]); });
  }
  // equality of operators of higher spins is not equality of expressions
  if(uniq) c.check(w.flags == g.flags, "PERMUTED-EQUALITY", [&] { return std::string(nm) + ": " + mon::vstr(g.flags) + " otherwise " + mon::vstr(w.flags); });
  bool ok = w.me.size() == g.me.size();
  for(std::size_t i = 0; ok && i < w.me.size(); ++i) {
    ok = w.me[i].size() == g.me[i].size();
    for(auto const& q : w.me[i]) {
      auto j = g.me[i].find(q.first);
      ok = ok && j != g.me[i].end() && std::fabs(j->second - q.second) < 1e-9 * (1 + q.second);
    }
  }
  c.check(ok, "PERMUTED-MATRIX-ELEMENTS", [&] { return nm; });
  c.check(w.sub == g.sub, "PERMUTED-PARTITION", [&] { return nm; });
  c.check(w.merged == g.merged, "PERMUTED-MERGED-PARTITION", [&] { return nm; });
  c.check(w.multi == g.multi, "PERMUTED-MULTISECTOR", [&] { return nm; });
  c.ev(std::string("permuted ") + nm);
}

template <typename F> void with_types(mon::rng& r, F&& f) {
  (void)r;
#if PART == 1
  f("string", [](auto&& g) { return g.template operator()<std::string>(); });
  f("string,int", [](auto&& g) { return g.template operator()<std::string, int>(); });
  f("any int", [](auto&& g) { return g.template operator()<int>(); });
#elif PART == 2
  f("dynamic", [](auto&& g) { return g.template operator()<D>(); });
  f("tag", [](auto&& g) { return g.template operator()<tag>(); });
  f("long long", [](auto&& g) { return g.template operator()<long long>(); });
#else
  f("int,string,int", [](auto&& g) { return g.template operator()<int, std::string, int>(); });
  f("dynamic of other types", [](auto&& g) { return g.template operator()<G>(); });
  f("mute", [](auto&& g) { return g.template operator()<mute>(); });
  f("byte,dynamic", [](auto&& g) { return g.template operator()<unsigned char, D>(); });
#endif
}
} // namespace

MON_SECTION("order-preserving", 1500, 20000) {
  auto& r = c.r;
  Shape sh = random_shape(r, true, 7);
  mon::rng p(r.next());
  c.input(sh.str() + "program " + std::to_string(p.s));
  c.phase("reference labels");
  mon::rng l0(r.next());
  Record want = replay<int>(p, l0, sh);
  with_types(r, [&](char const* nm, auto&& with) {
    mon::rng lr(r.next());
    c.phase(nm);
    Record got = with([&]<typename... I>() { return replay<I...>(p, lr, sh); });
    compare(c, want, got, nm);
  });
  c.nontrivial(c.in);
}

MON_SECTION("permuted", 900, 12000) {
  auto& r = c.r;
  Shape sh = random_shape(r, r.coin(0.4), 5);
  mon::rng p(r.next());
  c.input(sh.str() + "program " + std::to_string(p.s));
  ref::Model md;
  md.modes = sh.modes;
  c.phase("reference labels");
  auto want = unordered<int>(p, mon::rng(r.next()), sh, sh.rank);
  with_types(r, [&](char const* nm, auto&& with) {
    // permute within groups
    std::vector<int> perm = sh.rank;
    for(std::size_t m = 0; m < perm.size();) {
      std::size_t n = m;
      while(n < perm.size() && sh.group[n] == sh.group[m]) ++n;
      for(std::size_t i = n; i-- > m + 1;) std::swap(perm[i], perm[m + std::size_t(r.below(int(i - m + 1)))]);
      m = n;
    }
    mon::rng lr(r.next());
    c.phase(nm);
    auto got = with([&]<typename... I>() { return unordered<I...>(p, lr, sh, perm); });
    compare(c, md, sh.spin_half_only, want, got, nm);
  });
  c.nontrivial(c.in);
}

// Labels which differ in any way are different modes of every algebra
template <typename... I> static void distinct(mon::Case& c, char const* nm, int n) {
  auto& r = c.r;
  auto ls = labels<I...>(r, n);
  using E = lc::expression<double, I...>;
  auto ex = [](auto const& g) {
    using gp = std::shared_ptr<const lc::generator<I...>>;
    return E(1., lc::monomial<I...>(std::vector<gp>{g}));
  };
  Universe<I...> u;
  for(int i = 0; i < n; ++i) u.add({ref::FERMION, 2}, ls[i]);
  for(int i = 0; i < n; ++i) u.add({ref::BOSON, 2}, ls[i]);
  for(int i = 0; i < n; ++i) u.add({ref::SPIN, 2}, ls[i]);
  for(int i = 0; i < n; ++i) u.add({ref::SPIN, 3}, ls[i]);
  for(int k = 0; k < 12; ++k) {
    int i = r.below(u.size()), j = r.coin(0.3) ? (i + n * r.below(4)) % u.size() : r.below(u.size());
    auto const &mi = u.model.modes[i], &mj = u.model.modes[j];
    Letter a{i, r.below(mi.alg == ref::SPIN ? 3 : 2)}, b{j, r.below(mj.alg == ref::SPIN ? 3 : 2)};
    bool ff = mi.alg == ref::FERMION && mj.alg == ref::FERMION;
    E x = ex(u.gen(a)), y = ex(u.gen(b)), z = ff ? E(x * y + y * x) : E(x * y - y * x);
    auto what = [&] { return std::string(nm) + " " + mon::str(x) + " " + mon::str(y) + ": " + mon::str(z); };
    if(i != j) {
      c.check(z.size() == 0, "DIFFERENT-MODES", what);
      c.check(*u.gen(a) != *u.gen(b) && (*u.gen(a) < *u.gen(b)) != (*u.gen(b) < *u.gen(a)), "DIFFERENT-GENERATORS", what);
      c.check(!(x == y) && E(x + y).size() == 2, "DIFFERENT-EXPRESSIONS", what);
    } else if(mi.alg != ref::SPIN) {
      bool one = a.kind != b.kind;
      c.check(one ? z == E(mi.alg == ref::FERMION || a.kind == 0 ? 1. : -1.) : z.size() == 0, "SAME-MODE", what);
    }
    c.ev("pairs");
  }
  // all of them fit into one space side by side
  lc::hilbert_space<I...> h;
  std::vector<std::pair<int, int>> br;
  auto put = [&](auto const& es) {
    h.add(es);
    bool twice = false;
    try { h.add(es); } catch(std::exception const&) { twice = true; }
    c.check(twice, "ADDED-TWICE", [&] { return nm; });
  };
  int m = std::min(n, 6);
  for(int i = 0; i < m; ++i) {
    put(lc::elementary_space_fermion<I...>(ls[i]));
    put(lc::elementary_space_boson<I...>(4, ls[i]));
    put(lc::elementary_space_spin<I...>(0.5, ls[i]));
    put(lc::elementary_space_spin<I...>(1.0, ls[i]));
  }
  std::set<int> bits;
  for(int i = 0; i < m; ++i) {
    for(auto q : {h.bit_range(lc::elementary_space_fermion<I...>(ls[i])), h.bit_range(lc::elementary_space_boson<I...>(4, ls[i])),
                  h.bit_range(lc::elementary_space_spin<I...>(0.5, ls[i])), h.bit_range(lc::elementary_space_spin<I...>(1.0, ls[i]))})
      for(int k = q.first; k <= q.second; ++k) c.check(bits.insert(k).second, "SHARED-BITS", [&] { return nm; });
  }
  c.check(int(bits.size()) == 6 * m && h.total_n_bits() == 6 * m, "BITS", [&] { return nm; });
  c.ev("spaces");
}
MON_SECTION("distinct", 1200, 15000) {
  auto& r = c.r;
  int n = r.range(2, 8);
  c.input(std::to_string(r.s));
  with_types(r, [&](char const* nm, auto&& with) {
    c.phase(nm);
    with([&]<typename... I>() { distinct<I...>(c, nm, n); });
  });
  c.nontrivial(c.in);
}

#if PART == 1
// The factory functions pass every kind of argument on unchanged
namespace si = libcommute::static_indices;
namespace di = libcommute::dynamic_indices;
template <typename E1, typename E2> static void same(mon::Case& c, char const* nm, E1 const& a, E2 const& b) {
  c.check(a == b, "FACTORY", [&] { return std::string(nm) + ": " + mon::str(a) + " expected " + mon::str(b); });
  c.ev("calls");
}
MON_SECTION("factories", 400, 5000) {
  auto& r = c.r;
  int i, j;
  std::string s, t;
  draw(r, i); draw(r, j); draw(r, s); draw(r, t);
  // string literals end at the first zero
  s = s.c_str(); t = t.c_str();
  char const *sp = s.c_str(), *tp = t.c_str();
  int const ci = i;
  std::string const cs = s;
  c.input(std::to_string(i) + "," + s + "," + std::to_string(j) + "," + t);
  {
    using E = lc::expression<double, int, std::string>;
    using M = lc::monomial<int, std::string>;
    auto F = [&](bool d) { return E(1., M{si::make_fermion(d, int(i), std::string(s))}); };
    auto B = [&](bool d) { return E(1., M{si::make_boson(d, int(i), std::string(s))}); };
    same(c, "c_dag", si::c_dag(i, s), F(true));
    same(c, "c_dag const", si::c_dag(ci, cs), F(true));
    same(c, "c_dag pointer", si::c_dag(ci, sp), F(true));
    same(c, "c moved", si::c(int(i), std::string(s)), F(false));
    same(c, "n", si::n(i, s), E(F(true) * F(false)));
    same(c, "a_dag", si::a_dag(i, sp), B(true));
    same(c, "a", si::a(ci, s), B(false));
    same(c, "n pointer", si::n(i, sp), E(F(true) * F(false)));
    same(c, "S_p", si::S_p(i, sp), E(1., M{si::make_spin(lc::plus, int(i), std::string(s))}));
    same(c, "S_m", si::S_m(i, cs), E(1., M{si::make_spin(lc::minus, int(i), std::string(s))}));
    same(c, "S_z 1", si::S_z<3>(ci, s), E(1., M{si::make_spin(1., lc::z, int(i), std::string(s))}));
    same(c, "S_p 3/2", si::S_p<4>(i, sp), E(1., M{si::make_spin(1.5, lc::plus, int(i), std::string(s))}));
    std::string s2 = s;
    auto e = si::c_dag(i, s2);
    s2 += "changed";
    same(c, "kept", e, F(true));
    c.check(s == cs, "ARGUMENTS-CHANGED");
  }
  {
    using E = lc::expression<double, D>;
    using M = lc::monomial<D>;
    D::indices_t v;
    v.emplace_back(i); v.emplace_back(s); v.emplace_back(t); v.emplace_back(j);
    D d(v);
    auto F = [&](bool k) { return E(1., M{si::make_fermion(k, D(d))}); };
    same(c, "dyn c_dag", di::c_dag(i, s, t, j), F(true));
    same(c, "dyn c", di::c(ci, sp, tp, j), F(false));
    same(c, "dyn n", di::n(i, cs, tp, int(j)), E(F(true) * F(false)));
    same(c, "dyn a", di::a(i, sp, t, j), E(1., M{si::make_boson(false, D(d))}));
    same(c, "dyn S_z", di::S_z<4>(i, sp, t, j), E(1., M{si::make_spin(1.5, lc::z, D(d))}));
    D::indices_t w;
    w.emplace_back(s);
    same(c, "dyn one string", di::c_dag(s), E(1., M{si::make_fermion(true, D(w))}));
    same(c, "dyn one pointer", di::c_dag(sp), E(1., M{si::make_fermion(true, D(w))}));
    D::indices_t k;
    k.emplace_back(i);
    same(c, "dyn one number", di::c_dag(i), E(1., M{si::make_fermion(true, D(k))}));
    same(c, "dyn none", di::a_dag(), E(1., M{si::make_boson(true, D())}));
    {
      lc::expression<double, D> re = 2.5 * F(true) * F(false) - 3.0 + di::a(i, sp), keep = re;
      auto z = di::make_complex(re);
      static_assert(std::is_same<decltype(z), lc::expression<std::complex<double>, D>>::value, "complex expression");
      auto w = std::complex<double>(2.5, 0) * F(true) * F(false) - std::complex<double>(3.0, 0) + std::complex<double>(1, 0) * di::a(i, sp);
      c.check(z == w && re == keep, "make_complex", [&] { return mon::str(z) + " from " + mon::str(keep); });
      z.clear();
      c.check(re == keep, "make_complex shares", [&] { return mon::str(re); });
    }
    c.check(s == cs, "ARGUMENTS-CHANGED");
  }
  c.nontrivial(c.in);
}
#endif
