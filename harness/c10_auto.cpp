// C10: automatically deduced Hilbert spaces; rejections naming the generator.
#include "hs.hpp"
using namespace hsm;

namespace {
template <typename... I> struct gen_user : lc::generator<I...> {
  using base = lc::generator<I...>;
  int id;
  gen_user(int id_, std::tuple<I...> const& i) : base(i), id(id_) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(base const&, typename base::linear_function_t& f) const override { f.set(0); return 1; }
};
// A generator the library has never heard of, below the built-in algebras
} // namespace

namespace libcommute {
template <> class es_constructor<3> {
public:
  es_constructor() = default;
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    return std::unique_ptr<elementary_space<I...>>(new hsm::es_user<I...>(3, 5, g.indices()));
  }
};
template <> class es_constructor<5> {
  int d;
public:
  es_constructor() = delete;
  explicit es_constructor(std::string const& s) : d(int(s.size())) {}
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    return std::unique_ptr<elementary_space<I...>>(new hsm::es_user<I...>(5, u64(d), g.indices()));
  }
};
} // namespace libcommute

namespace {
struct G { int alg, mult, kind, idx; };

template <typename... I> struct Drv {
  mon::Case& c;
  Space<I...> sp{pools<I...>::get()};
  using gptr = std::shared_ptr<const lc::generator<I...>>;
  using E = lc::expression<double, I...>;
  using hs_t = lc::hilbert_space<I...>;

  gptr make(G const& g) const {
    auto const& i = sp.pool[g.idx];
    return std::apply([&](auto const&... a) -> gptr {
      if(g.alg == -3) return std::make_shared<lc::generator_fermion<I...>>(g.kind % 2, a...);
      if(g.alg == -2) return std::make_shared<lc::generator_boson<I...>>(g.kind % 2, a...);
      if(g.alg == -1) return std::make_shared<lc::generator_spin<I...>>((g.mult - 1) / 2.0, lc::spin_component(g.kind % 3), a...);
      return std::make_shared<gen_user<I...>>(g.alg, i);
    }, i);
  }
  std::string show(G const& g) const { return mon::str(*make(g)); }
  Entry entry(G const& g, u64 db, u64 d5) const {
    Entry e{g.alg, g.alg == -1 ? g.mult : 0, g.idx, 2};
    if(g.alg == -2) e.dim = db;
    if(g.alg == -1) e.dim = u64(g.mult);
    if(g.alg == 3) e.dim = 5;
    if(g.alg == 5) e.dim = d5;
    return e;
  }

  void run() {
    auto& r = c.r;
    int n_idx = r.range(1, std::min<int>(int(sp.pool.size()), 20));
    bool big = r.coin(0.1); // very large spins
    int algs = r.below(16); // bit mask: boson, user 3, user 5, user 7
    auto rnd = [&]() -> G {
      for(;;) {
        G g{0, 0, r.below(6), r.below(n_idx)};
        switch(r.below(8)) {
        case 0: case 1: g.alg = -3; break;
        case 2: case 3: g.alg = -1; g.mult = big && r.coin(0.5) ? r.range(200, 70000) : r.range(2, 6); break;
        case 4: if(!(algs & 1)) continue; g.alg = -2; break;
        case 5: if(!(algs & 2)) continue; g.alg = 3; break;
        case 6: if(!(algs & 4)) continue; g.alg = 5; break;
        default: if(!(algs & 8) || r.coin(0.7)) continue; g.alg = 7; break;
        }
        return g;
      }
    };
    std::vector<std::pair<double, std::vector<G>>> terms;
    E e;
    int nt = r.range(0, 6);
    std::string in;
    std::set<std::tuple<int, int, int>> occurring;
    for(int t = 0; t < nt; ++t) {
      std::vector<G> w;
      int len = r.range(0, 4);
      for(int k = 0; k < len; ++k) w.push_back(rnd());
      std::vector<gptr> gp;
      for(auto const& g : w) { gp.push_back(make(g)); occurring.insert({g.alg, g.alg == -1 ? g.mult : 0, g.idx}); }
      e += E(double(r.range(1, 9)), lc::monomial<I...>(std::move(gp)));
    }
    in = mon::str(e);
    // What the expression actually contains
    Layout need;
    u64 db = u64(r.range(1, 20)), d5 = u64(r.range(1, 9));
    std::vector<G> unknown;
    std::vector<G> all;
    for(auto const& t : e)
      for(auto const& g : t.monomial) {
        G x{g.algebra_id(), 0, 0, -1};
        for(int i = 0; i < int(sp.pool.size()); ++i)
          if(sp.pool[i] == g.indices()) x.idx = i;
        if(x.alg == -1) {
          x.mult = dynamic_cast<lc::generator_spin<I...> const&>(g).multiplicity();
          x.kind = int(dynamic_cast<lc::generator_spin<I...> const&>(g).component());
        }
        if(x.alg == -3) x.kind = dynamic_cast<lc::generator_fermion<I...> const&>(g).dagger();
        if(x.alg == -2) x.kind = dynamic_cast<lc::generator_boson<I...> const&>(g).dagger();
        c.check(occurring.count({x.alg, x.mult, x.idx}) == 1, "FOREIGN-MODE", [&] { return mon::str(g); });
        all.push_back(x);
        Entry y = entry(x, db, d5);
        need.m.emplace(y.key(), y);
      }
    if(need.bits() > 50) throw mon::skip_case{};
    c.input(in + " boson dim " + std::to_string(db) + " user dim " + std::to_string(d5));
    auto has_alg = [&](int a) { for(auto const& g : all) if(g.alg == a) return true; return false; };
    if(!all.empty()) c.nontrivial(c.in);

    // all the ways to deduce the space; the set of algebras each supports
    auto attempt = [&](char const* name, std::set<int> const& known, auto&& build) {
      bool ok = true;
      for(int a : {-3, -2, -1, 3, 5, 7}) if(has_alg(a) && !known.count(a)) ok = false;
      c.phase(name);
      try {
        hs_t h = build();
        if(!c.check(ok, "UNKNOWN-GENERATOR-ACCEPTED", [&] { return std::string(name); })) return;
        auto s = sp.compare(h, need, {}, nullptr);
        c.check(s.empty(), "WRONG-SPACE", [&] { return std::string(name) + ": " + s; });
        c.ev("spaces deduced");
      } catch(lc::es_construction_failure<I...> const& x) {
        c.ev("expressions rejected");
        if(!c.check(!ok, "VALID-EXPRESSION-REJECTED", [&] { return std::string(name) + x.what(); })) return;
        bool named = x.generator_ptr && !known.count(x.generator_ptr->algebra_id());
        bool occurs = false;
        if(x.generator_ptr)
          for(auto const& g : all) if(*make(g) == *x.generator_ptr) occurs = true;
        c.check(named && occurs && std::string(x.what()).find(mon::str(*x.generator_ptr)) != std::string::npos,
                "WRONG-GENERATOR-NAMED", [&] { return std::string(name) + x.what(); });
      }
    };
    using namespace lc;
    attempt("hilbert_space(e)", {-3, -1}, [&] { return hs_t(e); });
    attempt("make_hilbert_space(e)", {-3, -1}, [&] { return make_hilbert_space(e); });
    attempt("boson_es_constructor", {-3, -2, -1}, [&] { return hs_t(e, boson_es_constructor(db)); });
    attempt("make boson_es_constructor", {-3, -2, -1}, [&] { return make_hilbert_space(e, boson_es_constructor(db)); });
    boson_es_constructor const lv(db);
    attempt("lvalue constructor", {-3, -2, -1}, [&] { return make_hilbert_space(e, lv); });
    // A single-algebra constructor is only meant for generators of its algebra
    if(!has_alg(-2) && !has_alg(-1) && !has_alg(3) && !has_alg(5) && !has_alg(7))
      attempt("es_constructor<fermion>", {-3}, [&] { return make_hilbert_space(e, es_constructor<fermion>()); });
    attempt("es_constructor<fermion,3>", {-3, 3}, [&] { return make_hilbert_space(e, es_constructor<fermion, 3>()); });
    attempt("es_constructor<boson,spin,5>", {-2, -1, 5},
            [&] { return make_hilbert_space(e, es_constructor<boson, spin, 5>(db, std::string(d5, 'x'))); });
    attempt("es_constructor<fermion,boson,spin,3,5>", {-3, -2, -1, 3, 5},
            [&] { return make_hilbert_space(e, es_constructor<fermion, boson, spin, 3, 5>(db, std::string(d5, 'x'))); });
    // a functor of the user's own: boson dimension depends on the index
    {
      auto pos = [&](std::tuple<I...> const& t) { for(int i = 0; i < int(sp.pool.size()); ++i) if(sp.pool[i] == t) return i; return -1; };
      Layout n2 = need;
      for(auto& p : n2.m) if(p.second.alg == -2) p.second.dim = u64(p.second.idx % 7) + 1;
      else if(p.second.alg >= 0) p.second.dim = u64(p.second.alg) + 1;
      std::size_t calls = 0;
      auto f = [&](lc::generator<I...> const& g) -> std::unique_ptr<lc::elementary_space<I...>> {
        ++calls;
        Entry y;
        for(auto const& x : all) if(*make(x) == g) y = entry(x, db, d5);
        if(y.alg == -2) y.dim = u64(pos(g.indices()) % 7) + 1;
        else if(y.alg >= 0) y.dim = u64(y.alg) + 1;
        return sp.make(y);
      };
      c.phase("user functor");
      hs_t h(e, f);
      auto s = sp.compare(h, n2, {}, nullptr);
      c.check(s.empty(), "WRONG-SPACE", [&] { return "user functor: " + s; });
      c.ev("functor calls", calls);
    }
    // Operators on spaces lacking some of the modes
    {
      std::vector<Entry> es;
      std::set<std::tuple<int, int, int>> missing;
      for(auto const& p : need.m) {
        if(r.coin(0.25)) missing.insert(p.first);
        else es.push_back(p.second);
      }
      int extra = r.below(3);
      for(int k = 0; k < extra; ++k) {
        Entry y = random_entry(r, int(sp.pool.size()), 9, false);
        bool dup = need.m.count(y.key());
        for(auto const& z : es) dup = dup || z.key() == y.key();
        if(!dup) es.push_back(y);
      }
      r.shuffle(es);
      Layout t;
      for(auto const& y : es) t.m.emplace(y.key(), y);
      if(t.bits() > 60) return;
      c.phase("operator on a deficient space");
      hs_t h = sp.build(es);
      auto lop = [&](char const* name, std::set<int> const& known, auto&& build) {
        bool ok = true;
        for(auto const& g : all)
          if(!known.count(g.alg) || missing.count(entry(g, db, d5).key())) ok = false;
        try {
          build();
          c.check(ok, "DEFICIENT-SPACE-ACCEPTED", [&] { return std::string(name) + t.str(); });
          c.ev("operators built");
        } catch(lc::unknown_generator<I...> const& x) {
          c.ev("operators rejected");
          if(!c.check(!ok, "VALID-OPERATOR-REJECTED", [&] { return std::string(name) + x.what() + t.str(); })) return;
          bool good = false;
          if(x.generator_ptr)
            for(auto const& g : all)
              if(*make(g) == *x.generator_ptr)
                good = !known.count(g.alg) || missing.count(entry(g, db, d5).key());
          c.check(good && std::string(x.what()).find(mon::str(*x.generator_ptr)) != std::string::npos,
                  "WRONG-GENERATOR-NAMED", [&] { return std::string(name) + x.what(); });
        }
        auto s = sp.compare(h, t, {}, nullptr);
        c.check(s.empty(), "SPACE-CHANGED", [&] { return s; });
      };
      lop("make_loperator", {-3, -2, -1}, [&] { return make_loperator(e, h); });
      lop("loperator<fermion>", {-3}, [&] { return lc::loperator<double, fermion>(e, h); });
      lop("loperator<boson>", {-2}, [&] { return lc::loperator<double, boson>(e, h); });
      lop("loperator<spin>", {-1}, [&] { return lc::loperator<double, spin>(e, h); });
      lop("loperator<fermion,spin>", {-3, -1}, [&] { return lc::loperator<double, fermion, spin>(e, h); });
      lop("loperator<boson,spin>", {-2, -1}, [&] { return lc::loperator<double, boson, spin>(e, h); });
      lop("loperator<>", {}, [&] { return lc::loperator<double>(e, h); });
    }
  }
};
using D = libcommute::dynamic_indices::dyn_indices;
} // namespace

MON_SECTION("int", 4000, 50000) { Drv<int>{c}.run(); }
MON_SECTION("string-int", 1500, 20000) { Drv<std::string, int>{c}.run(); }
MON_SECTION("dyn", 1500, 20000) { Drv<D>{c}.run(); }
