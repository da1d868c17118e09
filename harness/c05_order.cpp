// C05: total order of indices, generators and monomials; monomials as sequences.
#include "lib.hpp"
#include <libcommute/expression/dyn_indices.hpp>
using namespace ref;
namespace di = libcommute::dynamic_indices;

// ---- independent comparison keys -------------------------------------------
using KeyIdx = std::vector<std::tuple<int, long, std::string>>; // (type rank, int, string)
static void kpush(KeyIdx& k, int i) { k.emplace_back(0, i, ""); }
static void kpush(KeyIdx& k, std::string const& s) { k.emplace_back(1, 0, s); }
struct KI { std::vector<std::pair<std::size_t, KeyIdx>> v; bool operator<(KI const& o) const { return v < o.v; } bool operator==(KI const& o) const { return v == o.v; } };
// static indices: one slot per position
static void slot(KI& k, int i) { KeyIdx q; kpush(q, i); k.v.push_back({1, q}); }
static void slot(KI& k, std::string const& s) { KeyIdx q; kpush(q, s); k.v.push_back({1, q}); }
// dynamic indices: ordered by length, then element by element, int before string
static void slot(KI& k, di::dyn_indices const& d) {
  KeyIdx q;
  for(auto const& x : static_cast<di::dyn_indices::indices_t const&>(d))
    if(x.index() == 0) kpush(q, std::get<0>(x)); else kpush(q, std::get<1>(x));
  k.v.push_back({q.size(), q});
}
template <typename... I> static KI kidx(std::tuple<I...> const& t) {
  KI k;
  std::apply([&](auto const&... x) { (slot(k, x), ...); }, t);
  return k;
}

// A user-defined algebra with a given id
template <typename... I> struct custom : lc::generator<I...> {
  int id;
  template <typename... A> custom(int id, A&&... a) : lc::generator<I...>(std::forward<A>(a)...), id(id) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(lc::generator<I...> const&, typename lc::generator<I...>::linear_function_t& f) const override { f.set(0); return 1; }
};

template <typename... I> struct G { // generator description
  int alg, kind, mult;
  std::tuple<I...> idx;
  std::shared_ptr<const lc::generator<I...>> make() const {
    return std::apply([&](auto const&... i) -> std::shared_ptr<const lc::generator<I...>> {
      if(alg == FERMION) return std::make_shared<lc::generator_fermion<I...>>(kind == 1, i...);
      if(alg == BOSON) return std::make_shared<lc::generator_boson<I...>>(kind == 1, i...);
      if(alg == SPIN) return std::make_shared<lc::generator_spin<I...>>((mult - 1) / 2.0, static_cast<lc::spin_component>(kind), i...);
      return std::make_shared<custom<I...>>(alg, i...);
    }, idx);
  }
  // Key: (algebra, then per-algebra)
  bool less(G const& o) const {
    if(alg != o.alg) return alg < o.alg;
    KI a = kidx(idx), b = kidx(o.idx);
    if(alg == FERMION || alg == BOSON) {
      if(kind != o.kind) return kind > o.kind;
      return kind == 1 ? a < b : b < a;
    }
    if(alg == SPIN) {
      if(mult != o.mult) return mult < o.mult;
      if(!(a == b)) return a < b;
      return kind < o.kind;
    }
    return a < b;
  }
  bool same(G const& o) const {
    return alg == o.alg && kidx(idx) == kidx(o.idx) && (alg >= 0 || kind == o.kind) && (alg != SPIN || mult == o.mult);
  }
  std::string str() const {
    return "alg" + std::to_string(alg) + " kind" + std::to_string(kind) + " mult" + std::to_string(mult) + " " + lc::tuple_to_string(idx);
  }
};
template <typename T> struct rnd;
template <> struct rnd<int> { static int get(mon::rng& r) { static int const v[] = {-1, 0, 1, 2, 10, 2147483647, -2147483647 - 1}; return r.coin(0.8) ? v[r.below(5)] : v[r.below(7)]; } };
template <> struct rnd<std::string> { static std::string get(mon::rng& r) { static char const* v[] = {"", "a", "b", "ab", "up", "B", "10", "2"}; return v[r.below(8)]; } };
template <> struct rnd<di::dyn_indices> {
  static di::dyn_indices get(mon::rng& r) {
    di::dyn_indices::indices_t v;
    for(int i = 0, n = r.below(4); i < n; ++i) {
      if(r.coin()) v.emplace_back(rnd<int>::get(r)); else v.emplace_back(rnd<std::string>::get(r));
    }
    return di::dyn_indices(v);
  }
};
template <typename... I> static G<I...> random_gen(mon::rng& r, std::vector<std::tuple<I...>> const& pool, bool standard_only = false) {
  G<I...> g;
  int a = r.below(standard_only ? 6 : 8);
  g.alg = a < 2 ? FERMION : a < 4 ? BOSON : a < 6 ? SPIN : (a == 6 ? 0 : 5);
  g.kind = g.alg == SPIN ? r.below(3) : r.below(2);
  g.mult = g.alg == SPIN ? r.range(2, 4) : 2;
  g.idx = pool[r.below(int(pool.size()))];
  return g;
}

template <typename T> static void relations(mon::Case& c, T const& a, T const& b, bool lt, bool eq, bool gt, char const* key, std::string const& what) {
  c.ev("pairs_compared");
  bool l = a < b, e = a == b, n = a != b, g = a > b;
  c.check(l == lt && e == eq && n == !eq && g == gt, key, [&] {
    return what + ": < " + std::to_string(l) + " == " + std::to_string(e) + " != " + std::to_string(n) + " > " + std::to_string(g) +
           ", expected " + std::to_string(lt) + " " + std::to_string(eq) + " " + std::to_string(!eq) + " " + std::to_string(gt);
  });
}

template <typename... I> static void ordering(mon::Case& c) {
  std::vector<std::tuple<I...>> pool;
  for(int i = 0, n = c.r.range(2, 4); i < n; ++i) pool.push_back(std::tuple<I...>{rnd<I>::get(c.r)...});
  std::vector<G<I...>> gs;
  std::vector<std::shared_ptr<const lc::generator<I...>>> ps;
  std::string in;
  for(int i = 0; i < 8; ++i) { gs.push_back(random_gen<I...>(c.r, pool)); ps.push_back(gs.back().make()); in += gs.back().str() + "; "; }
  c.input(in);
  for(std::size_t i = 0; i < gs.size(); ++i)
    for(std::size_t j = 0; j < gs.size(); ++j) {
      auto pj = (i == j && c.r.coin()) ? gs[j].make() : ps[j];
      relations(c, *ps[i], *pj, gs[i].less(gs[j]), gs[i].same(gs[j]), gs[j].less(gs[i]), "generators", gs[i].str() + " | " + gs[j].str());
    }
  for(auto const& g : gs) {
    auto p = g.make();
    c.check(p->algebra_id() == g.alg && p->indices() == g.idx, "generator_accessors");
  }
  // monomials made of few distinct generators
  std::vector<std::vector<int>> ws;
  std::vector<lc::monomial<I...>> ms;
  for(int i = 0; i < 10; ++i) {
    std::vector<int> w;
    for(int k = 0, n = c.r.below(4); k < n; ++k) w.push_back(c.r.below(4));
    if(i > 4 && c.r.coin()) { w = ws[c.r.below(i)]; if(!w.empty() && c.r.coin()) w[c.r.below(int(w.size()))] = c.r.below(4); }
    std::vector<std::shared_ptr<const lc::generator<I...>>> v;
    for(int k : w) v.push_back(c.r.coin() ? ps[k] : gs[k].make());
    ws.push_back(w);
    ms.emplace_back(v);
  }
  auto mless = [&](std::vector<int> const& a, std::vector<int> const& b) {
    if(a.size() != b.size()) return a.size() < b.size();
    for(std::size_t k = 0; k < a.size(); ++k) {
      if(gs[a[k]].less(gs[b[k]])) return true;
      if(gs[b[k]].less(gs[a[k]])) return false;
    }
    return false;
  };
  auto meq = [&](std::vector<int> const& a, std::vector<int> const& b) { return !mless(a, b) && !mless(b, a); };
  for(std::size_t i = 0; i < ms.size(); ++i)
    for(std::size_t j = 0; j < ms.size(); ++j)
      relations(c, ms[i], ms[j], mless(ws[i], ws[j]), meq(ws[i], ws[j]), mless(ws[j], ws[i]), "monomials", mon::str(ms[i]) + " | " + mon::str(ms[j]));
  for(std::size_t i = 0; i < ms.size(); ++i) {
    bool srt = true;
    for(std::size_t k = 1; k < ws[i].size(); ++k) srt &= !gs[ws[i][k]].less(gs[ws[i][k - 1]]);
    c.check(ms[i].is_ordered() == srt, "is_ordered", [&] { return mon::str(ms[i]); });
  }
  // ordered containers agree with the keys
  std::set<lc::monomial<I...>> s(ms.begin(), ms.end());
  std::size_t distinct = 0;
  for(std::size_t i = 0; i < ws.size(); ++i) { bool first = true; for(std::size_t j = 0; j < i; ++j) first &= !meq(ws[i], ws[j]); distinct += first; }
  c.check(s.size() == distinct, "set_size", [&] { return std::to_string(s.size()) + " vs " + std::to_string(distinct); });
  for(auto const& m : ms) c.check(s.count(m) == 1, "set_lookup");
  c.nontrivial(in);
}
MON_SECTION("order_int", 300, 5000) { ordering<int>(c); }
MON_SECTION("order_string_int", 300, 5000) { ordering<std::string, int>(c); }
MON_SECTION("order_int_int_string", 200, 4000) { ordering<int, int, std::string>(c); }
MON_SECTION("order_dyn", 400, 6000) { ordering<di::dyn_indices>(c); }
MON_SECTION("order_none", 20, 100) { ordering<>(c); }

// Index sequences themselves
MON_SECTION("dyn_indices", 300, 5000) {
  std::vector<di::dyn_indices> v;
  std::string in;
  for(int i = 0; i < 10; ++i) { v.push_back(rnd<di::dyn_indices>::get(c.r)); if(i > 5 && c.r.coin()) v.back() = v[c.r.below(i)]; in += to_string(v.back()) + "; "; }
  c.input(in);
  for(auto const& a : v)
    for(auto const& b : v) {
      KI ka, kb;
      slot(ka, a); slot(kb, b);
      relations(c, a, b, ka < kb, ka == kb, kb < ka, "dyn_indices", to_string(a) + " | " + to_string(b));
    }
  for(auto const& a : v) {
    auto const& raw = static_cast<di::dyn_indices::indices_t const&>(a);
    c.check(a.size() == raw.size(), "size");
    di::dyn_indices cp(a), mv(std::move(cp)), as;
    as = mv;
    c.check(mv == a && as == a && !(as != a), "copies");
  }
  int i = rnd<int>::get(c.r);
  std::string s = rnd<std::string>::get(c.r);
  di::dyn_indices one(i), two(i, s), three(s, i, "x"), str(s), none;
  auto raw = [](di::dyn_indices const& d) { return static_cast<di::dyn_indices::indices_t const&>(d); };
  using V = di::dyn_indices::indices_t;
  c.check(raw(one) == V{i} && raw(two) == V{i, s} && raw(three) == V{s, i, std::string("x")} && raw(str) == V{s} && raw(none).empty(), "constructors");
  c.check(none < one && one < two && two < three && one < str, "length_then_type");
  c.nontrivial(in);
}

// Monomials behave as plain sequences
template <typename... I> static void sequences(mon::Case& c) {
  using M = lc::monomial<I...>;
  using P = std::shared_ptr<const lc::generator<I...>>;
  std::vector<std::tuple<I...>> pool;
  for(int i = 0; i < 4; ++i) pool.push_back(std::tuple<I...>{rnd<I>::get(c.r)...});
  std::vector<G<I...>> gs;
  for(int i = 0; i < 6; ++i) gs.push_back(random_gen<I...>(c.r, pool));
  std::string log;
  auto rseq = [&](int maxn) { std::vector<int> w; for(int k = 0, n = c.r.range(0, maxn); k < n; ++k) w.push_back(c.r.below(6)); return w; };
  auto mk = [&](std::vector<int> const& w) { std::vector<P> v; for(int k : w) v.push_back(gs[k].make()); return M(std::move(v)); };
  auto verify = [&](M const& m, std::vector<int> const& w, char const* key) {
    c.ev("sequences_checked");
    bool ok = m.size() == w.size() && m.empty() == w.empty();
    auto same = [&](lc::generator<I...> const& g, int k) { return g == *gs[k].make(); };
    if(ok) {
      std::size_t i = 0;
      for(auto const& g : m) ok &= same(g, w[i++]);
      ok &= i == w.size();
      for(std::size_t k = 0; k < w.size(); ++k) ok &= same(m[k], w[k]);
      i = w.size();
      for(auto it = m.rbegin(); it != m.rend(); ++it) ok &= i > 0 && same(*it, w[--i]);
      ok &= i == 0;
      i = w.size();
      for(auto it = m.crbegin(); it != m.crend(); it++) ok &= i > 0 && same(*it, w[--i]);
      auto b = m.begin(), e = m.end();
      ok &= e - b == std::ptrdiff_t(w.size()) && m.cend() - m.cbegin() == std::ptrdiff_t(w.size());
      ok &= std::distance(b, e) == std::ptrdiff_t(w.size());
      for(std::size_t k = 0; k < w.size(); ++k) {
        ok &= same(*(b + k), w[k]) && same(*(k + b), w[k]) && same(b[k], w[k]) && same(*(e - (w.size() - k)), w[k]);
        auto x = b; x += k; ok &= same(*x, w[k]) && x - b == std::ptrdiff_t(k) && (b < x) == (k > 0) && b <= x && x >= b && (x > b) == (k > 0) && (x == b) == (k == 0) && (x != b) == (k != 0) && x < e && !(e < x) && !(e <= x) && e > x;
        auto y = e; y -= w.size() - k; ok &= y == x;
        auto z = x++; ok &= z == y && x - z == 1; auto q = x--; ok &= q - x == 1 && x == z; ++x; --x; ok &= x == z;
        ok &= x->algebra_id() == gs[w[k]].alg;
        using std::swap; auto s1 = b, s2 = x; swap(s1, s2); ok &= s1 == x && s2 == b;
      }
    }
    c.check(ok, key, [&] { return mon::str(m) + " expected " + mon::vstr(w); });
    return ok;
  };
  std::vector<int> w = rseq(5);
  M m = mk(w);
  log = mon::vstr(w);
  verify(m, w, "vector_constructor");
  verify(M(), {}, "default_constructor");
  { auto a = gs[0].make(), b = gs[1].make(); verify(M{a, b, a}, {0, 1, 0}, "initializer_list"); verify(M({a}), {0}, "initializer_list"); }
  {
    auto t1 = std::apply([](auto const&... i) { return lc::generator_fermion<I...>(true, i...); }, pool[0]);
    auto t2 = std::apply([](auto const&... i) { return lc::generator_boson<I...>(false, i...); }, pool[1]);
    M x(t1, t2, t1);
    auto chk = [&](lc::generator<I...> const& g, lc::generator<I...> const& h) { return g == h; };
    c.check(x.size() == 3 && chk(x[0], t1) && chk(x[1], t2) && chk(x[2], t1) && &x[0] != static_cast<lc::generator<I...> const*>(&t1), "generators_constructor");
  }
  for(int step = 0, n = c.r.range(4, 12); step < n; ++step) {
    int op = c.r.below(9);
    log += " " + std::to_string(op);
    if(w.size() > 14) { w = rseq(3); m = mk(w); }
    switch(op) {
    case 0: { int k = c.r.below(6); m.append(*gs[k].make()); w.push_back(k); break; }
    case 1: { auto v = rseq(4); m.append(mk(v)); w.insert(w.end(), v.begin(), v.end()); break; }
    case 2: { auto v = rseq(5); M o = mk(v); int a = c.r.below(int(v.size()) + 1), b = c.r.range(a, int(v.size())); m.append(std::make_pair(o.begin() + a, o.begin() + b)); w.insert(w.end(), v.begin() + a, v.begin() + b); break; }
    case 3: if(!w.empty()) { int a = c.r.below(int(w.size())), b = c.r.below(int(w.size())); m.swap_generators(a, b); std::swap(w[a], w[b]); } break;
    case 4: { auto v = rseq(3); M o = mk(v); M x = concatenate(m, o); std::vector<int> y = w; y.insert(y.end(), v.begin(), v.end()); verify(x, y, "concatenate"); verify(m, w, "concatenate_operand"); verify(o, v, "concatenate_operand"); m = std::move(x); w = y; break; }
    case 5: { // concatenate ranges and single generators, including parts of itself
      int a = c.r.below(int(w.size()) + 1), b = c.r.range(a, int(w.size())), k = c.r.below(6);
      auto g = gs[k].make();
      M x = concatenate(std::make_pair(m.begin(), m.begin() + a), *g, std::make_pair(m.begin() + b, m.end()));
      std::vector<int> y(w.begin(), w.begin() + a); y.push_back(k); y.insert(y.end(), w.begin() + b, w.end());
      verify(x, y, "concatenate_ranges");
      verify(concatenate(*g, m, *g), [&] { std::vector<int> z{k}; z.insert(z.end(), w.begin(), w.end()); z.push_back(k); return z; }(), "concatenate_mixed");
      verify(concatenate(m), w, "concatenate_one");
      m = x; w = y; break; }
    case 6: { M cp(m); cp.append(*gs[0].make()); verify(m, w, "copy_shares"); if(!w.empty()) { M c2 = m; c2.swap_generators(0, w.size() - 1); verify(m, w, "copy_shares"); } break; }
    case 7: { M mv(std::move(m)); verify(mv, w, "move"); m = mv; break; }
    default: { m.append(m); std::vector<int> y = w; w.insert(w.end(), y.begin(), y.end()); verify(m, w, "append_itself"); break; }
    }
    if(!verify(m, w, "sequence")) break;
  }
  c.input(log);
  c.nontrivial(log);
}
MON_SECTION("sequences_int", 300, 5000) { sequences<int>(c); }
MON_SECTION("sequences_string_int", 200, 4000) { sequences<std::string, int>(c); }
MON_SECTION("sequences_dyn", 200, 4000) { sequences<di::dyn_indices>(c); }
