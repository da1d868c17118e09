// C22: invalid requests are rejected and change nothing.
#include "nfs.hpp"
#include "part.hpp"
#include <boost/rational.hpp>
#include <libcommute/scalars/boost_rational.hpp>

namespace {
using hsm::Entry;
using hsm::Layout;
using hsm::Space;

template <typename... I> struct gen_user : lc::generator<I...> {
  using base = lc::generator<I...>;
  int id;
  gen_user(int id_, std::tuple<I...> const& i) : base(i), id(id_) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(base const&, typename base::linear_function_t& f) const override { f.set(0); return 1; }
};

// --- Hilbert spaces ---------------------------------------------------------
template <typename... I> void spaces(mon::Case& c) {
  using hs_t = lc::hilbert_space<I...>;
  using es_t = lc::elementary_space<I...>;
  auto& r = c.r;
  Space<I...> sp{hsm::pools<I...>::get()};
  int n_idx = r.range(1, 8);
  auto rnd = [&]() -> Entry {
    Entry e = hsm::random_entry(r, n_idx, 40);
    if(e.alg != -3 && e.alg != -1 && r.coin(0.35)) e.dim = (u64(1) << r.range(15, 63)) - (r.coin() ? 0 : r.next() % 1000);
    return e;
  };
  std::vector<hs_t> hs(3);
  std::vector<Layout> L(3);
  std::vector<Entry> uni;
  std::string log;
  // one entry per key: absent spaces are looked up by their kind and indices
  auto seen = [&](Entry const& e) {
    for(auto const& u : uni) if(u.key() == e.key()) return;
    if(uni.size() < 24) uni.push_back(e);
  };
  auto same_es = [&](std::unique_ptr<es_t> const& p, Entry const& e) { return p && sp.same(*p, e); };
  // Builds the layout of a list of spaces; 0 fine, 1 duplicate (which), 2 too big (bits)
  auto classify = [&](std::vector<Entry> const& v, Layout& out, Entry& dup, int& bits) {
    for(auto const& e : v) {
      if(!out.m.emplace(e.key(), e).second) { dup = e; return 1; }
    }
    bits = out.bits();
    return bits > 63 ? 2 : 0;
  };
  int steps = r.range(4, 25);
  u64 rejected = 0;
  for(int k = 0; k < steps; ++k) {
    int t = r.below(3);
    int req = r.below(10);
    std::string what;
    bool refused = false;
    if(req < 4) {
      Entry e = rnd();
      if(!L[t].m.empty() && r.coin(0.3)) { // a duplicate, maybe of a different dimension
        auto it = L[t].m.begin();
        std::advance(it, r.below(int(L[t].m.size())));
        e = it->second;
        if(e.alg != -3 && e.alg != -1 && r.coin()) e.dim = u64(r.range(1, 40));
      }
      seen(e);
      what = "add " + e.str() + " to " + std::to_string(t);
      c.phase(what);
      bool dup = L[t].m.count(e.key());
      int bits = L[t].bits() + e.bits();
      int got = 0, gb = 0;
      bool obj = true;
      try { hs[t].add(*sp.make(e)); }
      catch(typename hs_t::elementary_space_exists const& x) { got = 1; obj = same_es(x.elementary_space_ptr, e); }
      catch(typename hs_t::hilbert_space_too_big const& x) { got = 2; gb = x.n_bits; }
      int want = dup ? 1 : bits > 63 ? 2 : 0;
      c.check(got == want, "ADD", [&] { return log + what + ": outcome " + std::to_string(got) + " expected " + std::to_string(want); });
      c.check(obj && (got != 2 || gb == bits), "EXCEPTION-CONTENT", [&] { return log + what + " n_bits " + std::to_string(gb); });
      if(want == 0) L[t].m.emplace(e.key(), e);
      refused = want;
      c.ev(want == 1 ? "duplicates" : want == 2 ? "oversized" : "added");
    } else if(req < 6) {
      std::vector<Entry> v;
      int n = r.range(0, 4);
      for(int i = 0; i < n; ++i) { v.push_back(!v.empty() && r.coin(0.15) ? v[0] : rnd()); seen(v.back()); }
      Layout l;
      Entry dup{};
      int bits = 0, got = 0, gb = 0;
      int want = classify(v, l, dup, bits);
      std::vector<std::unique_ptr<es_t>> own;
      std::vector<es_t*> ptr;
      for(auto const& e : v) { own.push_back(sp.make(e)); ptr.push_back(own.back().get()); }
      bool obj = true, variadic = n == 2 || n == 3, used = variadic && r.coin();
      what = std::string(used ? "arguments" : "pointers");
      for(auto const& e : v) what += " " + e.str();
      c.phase(what);
      // arguments are added one by one: the first reason to refuse counts
      if(used && want) {
        Layout q;
        want = 0;
        for(auto const& e : v) {
          if(q.m.count(e.key())) { want = 1; dup = e; break; }
          q.m.emplace(e.key(), e);
          if(q.bits() > 63) { want = 2; bits = q.bits(); break; }
        }
      }
      try {
        hs_t h = !used ? hs_t(ptr) : n == 2 ? hs_t(*ptr[0], *ptr[1]) : hs_t(*ptr[0], *ptr[1], *ptr[2]);
        if(want == 0) { hs[t] = r.coin() ? hs_t(h) : std::move(h); L[t] = l; }
      }
      catch(typename hs_t::elementary_space_exists const& x) { got = 1; obj = same_es(x.elementary_space_ptr, dup); }
      catch(typename hs_t::hilbert_space_too_big const& x) { got = 2; gb = x.n_bits; }
      c.check(got == want, "CONSTRUCT", [&] { return log + what + ": outcome " + std::to_string(got) + " expected " + std::to_string(want); });
      c.check(obj && (got != 2 || gb == bits), "EXCEPTION-CONTENT", [&] { return log + what + " n_bits " + std::to_string(gb); });
      refused = want;
      c.ev(want ? "constructions refused" : "constructions");
    } else if(req < 8) {
      // an expression whose spaces are too big or unknown
      lc::expression<double, I...> e;
      Layout l;
      std::set<std::string> bad;
      u64 bd = r.coin() ? u64(r.range(1, 40)) : u64(1) << r.range(10, 40);
      bool with_boson = r.coin();
      for(int i = r.range(0, 5); i > 0; --i) {
        Entry x = hsm::random_entry(r, n_idx, 40);
        std::shared_ptr<lc::generator<I...> const> g;
        std::apply([&](auto const&... a) {
          if(x.alg == -3) g = std::make_shared<lc::generator_fermion<I...>>(r.coin(), a...);
          else if(x.alg == -2) g = std::make_shared<lc::generator_boson<I...>>(r.coin(), a...);
          else if(x.alg == -1) g = std::make_shared<lc::generator_spin<I...>>((x.mult - 1) / 2.0, lc::spin_component(r.below(3)), a...);
          else g = std::make_shared<gen_user<I...>>(x.alg, sp.pool[x.idx]);
        }, sp.pool[x.idx]);
        e += lc::expression<double, I...>(double(i), lc::monomial<I...>({g}));
        if(x.alg == -2) x.dim = bd;
        if(x.alg >= 0 || (x.alg == -2 && !with_boson)) bad.insert(mon::str(*g));
        else l.m.emplace(x.key(), x);
        if(x.alg < 0) seen(x);
      }
      what = "expression " + mon::str(e) + " boson dim " + std::to_string(bd);
      c.phase(what);
      int want = !bad.empty() ? 1 : l.bits() > 63 ? 2 : 0, got = 0, gb = 0;
      bool obj = true;
      try {
        hs_t h = with_boson ? hs_t(e, lc::boson_es_constructor(bd)) : hs_t(e);
        if(want == 0) { hs[t] = h; L[t] = l; }
      }
      catch(lc::es_construction_failure<I...> const& x) { got = 1; obj = x.generator_ptr && bad.count(mon::str(*x.generator_ptr)); }
      catch(typename hs_t::hilbert_space_too_big const& x) { got = 2; gb = x.n_bits; }
      c.check(got == want, "DEDUCE", [&] { return log + what + ": outcome " + std::to_string(got) + " expected " + std::to_string(want); });
      c.check(obj && (got != 2 || gb == l.bits()), "EXCEPTION-CONTENT", [&] { return log + what + " n_bits " + std::to_string(gb); });
      refused = want;
      c.ev(want ? "deductions refused" : "deductions");
    } else {
      int a = r.below(3);
      what = "space " + std::to_string(t) + " = space " + std::to_string(a);
      c.phase(what);
      hs[t] = hs[a];
      L[t] = L[a];
    }
    rejected += refused;
    log += what + (refused ? " (refused); " : "; ");
    for(int i = 0; i < 3; ++i) {
      auto x = sp.compare(hs[i], L[i], uni, nullptr);
      if(!x.empty()) { c.fail(refused ? "CHANGED-BY-REJECTED-REQUEST" : "INTERFACE", log + " space " + std::to_string(i) + ": " + x); return; }
      c.ev("spaces compared");
    }
  }
  c.input(log);
  if(rejected) c.nontrivial(log);
}

// --- sessions over objects of all kinds -------------------------------------
struct Session {
  mon::Case& c;
  Sys<int> s;
  Space<int> spc;
  using E = lc::expression<double, int>;
  using hs_t = lc::hilbert_space<int>;
  E e, herm;
  std::vector<u64> states;
  std::unique_ptr<hs_t> hs2; // lacks some modes
  Layout L2;
  std::set<int> missing;
  std::unique_ptr<lc::loperator<double, lc::fermion, lc::boson, lc::spin>> op;
  std::vector<double> src, storage;
  std::unique_ptr<lc::space_partition<hs_t>> part;
  std::unique_ptr<lc::basis_mapper> mapper;
  std::set<u64> mapped;
  std::vector<int> fm;
  std::string log;
  explicit Session(mon::Case& c_) : c(c_) {}

  std::string snapshot() {
    std::ostringstream o;
    o.precision(17);
    o << e << "|" << herm << "|";
    std::vector<double> dst(src.size(), 3.);
    (*op)(src, dst);
    for(double x : src) o << x << ",";
    for(double x : dst) o << x << ",";
    auto x = spc.compare(*s.hs, s.L, {}, nullptr);
    auto y = spc.compare(*hs2, L2, {}, nullptr);
    o << x << y << "|" << part->n_subspaces() << ":";
    for(u64 q : states) o << (*part)[q] << ",";
    std::map<u64, u64> m(mapper->map().begin(), mapper->map().end());
    for(auto const& q : m) o << q.first << ">" << q.second << ",";
    for(double q : storage) o << q << ",";
    if(!s.hs->is_sparse()) {
      unsigned n = unsigned(fm.size()) / 2;
      o << lc::n_fermion_sector_size(*s.hs, n) << ":" << mon::vstr(lc::n_fermion_sector_basis_states(*s.hs, n));
    }
    return o.str();
  }

  void run() {
    auto& r = c.r;
    if(r.coin(0.5)) s = nfs::random_sys_pow2(r);
    else { SysCfg g; g.max_bits = 9; g.max_boson = 6; s = random_sys(r, g); }
    if(s.L.bits() > 10) throw mon::skip_case{};
    spc.pool = s.u.idx;
    states = s.L.states();
    std::vector<int> modes;
    for(int m = 0; m < s.u.size(); ++m) { modes.push_back(m); if(s.u.model.modes[m].alg == ref::FERMION) fm.push_back(m); }
    e = random_expr<double>(r, s.u, 4, 3, modes);
    herm = part::hermitian(part::random_op<double>(r, s, 3));
    hs2.reset(new hs_t());
    for(int m : modes) {
      auto const& md = s.u.model.modes[m];
      Entry x{md.alg, md.alg == ref::SPIN ? md.mult : 0, m, s.dim[m]};
      if(r.coin(0.3)) { missing.insert(m); continue; }
      hs2->add(*spc.make(x));
      L2.m.emplace(x.key(), x);
    }
    op.reset(new lc::loperator<double, lc::fermion, lc::boson, lc::spin>(e, *s.hs));
    src.assign(s.hs->vec_size(), 0.);
    for(u64 q : states) if(r.coin(0.3)) src[q] = random_amp<double>(r);
    part.reset(new lc::space_partition<hs_t>(lc::make_loperator(herm, *s.hs), *s.hs));
    std::vector<lc::sv_index_type> ml;
    for(u64 q : states) if(r.coin(0.4)) { mapped.insert(q); ml.push_back(q); }
    if(ml.empty()) { ml.push_back(states[0]); mapped.insert(states[0]); }
    mapper.reset(new lc::basis_mapper(ml));
    storage.assign(ml.size() + 2, 0.5);
    auto view = mapper->make_view(storage);
    c.input("system " + s.layout() + " e=" + mon::str(e) + " h=" + mon::str(herm));
    auto ref0 = snapshot();
    bool sparse = s.hs->is_sparse();
    u64 nsub = part->n_subspaces();
    int steps = r.range(5, 25);
    u64 rejected = 0;
    for(int k = 0; k < steps; ++k) {
      bool bad = false;
      std::string what;
      auto outcome = [&](bool refused, bool expected) {
        c.check(refused == expected, expected ? "INVALID-ACCEPTED" : "VALID-REJECTED", [&] { return log + what; });
        bad = expected;
        c.ev(expected ? "invalid requests" : "valid requests");
      };
      switch(r.below(12)) {
      case 0: case 1: { // operators on a space lacking modes
        E x = random_expr<double>(r, s.u, 3, 3, modes);
        std::set<std::string> miss;
        for(auto const& t : x) for(auto const& g : t.monomial) if(missing.count(s.u.read(g).mode)) miss.insert(mon::str(g));
        what = "operator " + mon::str(x) + " on " + L2.str();
        c.phase(what);
        bool ref = false, named = true;
        try { auto o = lc::make_loperator(x, *hs2); (void)o; }
        catch(lc::unknown_generator<int> const& q) { ref = true; named = q.generator_ptr && miss.count(mon::str(*q.generator_ptr)); }
        outcome(ref, !miss.empty());
        c.check(named, "EXCEPTION-CONTENT", [&] { return log + what; });
        bool ref2 = false;
        try { lc::parametric_loperator<E::scalar_type, lc::fermion, lc::boson, lc::spin> o(x, *hs2); (void)o; }
        catch(lc::unknown_generator<int> const&) { ref2 = true; }
        c.check(ref2 == ref, "PARAMETRIC-OUTCOME", [&] { return log + what; });
        break;
      }
      case 2: { // operators with too few algebras
        bool nf = false, nb = false, ns = false;
        for(auto const& t : e) for(auto const& g : t.monomial) (lc::is_fermion(g) ? nf : lc::is_boson(g) ? nb : ns) = true;
        what = "operator of one algebra";
        c.phase(what);
        int a = r.below(3);
        bool ref = false;
        try {
          if(a == 0) lc::loperator<double, lc::fermion>(e, *s.hs);
          else if(a == 1) lc::loperator<double, lc::boson, lc::spin>(e, *s.hs);
          else lc::loperator<double, lc::fermion, lc::spin>(e, *s.hs);
        } catch(lc::unknown_generator<int> const& q) { ref = q.generator_ptr != nullptr; }
        outcome(ref, a == 0 ? nb || ns : a == 1 ? nf : nb);
        break;
      }
      case 3: { // duplicate spaces
        int m = r.pick(modes);
        auto const& md = s.u.model.modes[m];
        Entry x{md.alg, md.alg == ref::SPIN ? md.mult : 0, m, s.dim[m]};
        what = "duplicate " + x.str();
        c.phase(what);
        bool ref = false;
        try { s.hs->add(*spc.make(x)); } catch(hs_t::elementary_space_exists const& q) { ref = spc.same(*q.elementary_space_ptr, x); }
        outcome(ref, true);
        break;
      }
      case 4: { // a space which does not fit (63 bits are never available here)
        if(s.L.bits() == 0) continue;
        Entry x{7, 0, 0, (u64(1) << 63)};
        what = "oversized";
        c.phase(what);
        bool ref = false;
        try { s.hs->add(*spc.make(x)); } catch(hs_t::hilbert_space_too_big const& q) { ref = q.n_bits == s.L.bits() + 63; }
        outcome(ref, true);
        break;
      }
      case 5: { // subspaces
        u64 q = r.coin() ? r.next() % nsub : nsub + (r.coin() ? r.next() % 3 : r.next());
        what = "subspace " + std::to_string(q) + " of " + std::to_string(nsub);
        c.phase(what);
        bool ref = false;
        try { part->subspace_basis(q); } catch(std::runtime_error const&) { ref = true; }
        outcome(ref, q >= nsub);
        break;
      }
      case 6: { // states outside the space
        u64 q = r.next() % s.hs->vec_size();
        what = "subspace of state " + std::to_string(q);
        c.phase(what);
        bool ref = false;
        try { (*part)[q]; } catch(std::out_of_range const&) { ref = true; }
        outcome(ref, !s.L.physical(q));
        break;
      }
      case 7: { // unmapped states
        u64 q = r.coin() ? r.pick(states) : r.next();
        what = "mapped view at " + std::to_string(q);
        c.phase(what);
        bool ref = false, ref2 = false, in = mapped.count(q);
        try { get_element(view, q); } catch(std::out_of_range const&) { ref = true; }
        if(!in) {
          try { update_add_element(view, q, 1.5); } catch(std::out_of_range const&) { ref2 = true; }
          c.check(ref2, "INVALID-ACCEPTED", [&] { return log + what; });
        }
        outcome(ref, !in);
        break;
      }
      case 8: { // numbers of particles
        unsigned N = r.coin(0.7) ? unsigned(r.range(0, int(fm.size()) + 1)) : r.coin() ? unsigned(r.next()) : unsigned(r.range(60, 70));
        bool over = N > fm.size();
        what = "sector of " + std::to_string(N);
        c.phase(what);
        bool ref[5] = {false, false, false, false, false};
        u64 size = 77;
        try { size = lc::n_fermion_sector_size(*s.hs, N); } catch(std::runtime_error const&) { ref[0] = true; }
        try { lc::n_fermion_sector_basis_states(*s.hs, N); } catch(std::runtime_error const&) { ref[1] = true; }
        std::vector<double> v(size == 77 ? 4 : size);
        try { lc::make_nfs_view(v, *s.hs, N); } catch(std::runtime_error const&) { ref[2] = true; }
        try { lc::make_const_nfs_view(v, *s.hs, N); } catch(std::runtime_error const&) { ref[3] = true; }
        try { lc::make_nfs_view(std::vector<double>(v), *s.hs, N); } catch(std::runtime_error const&) { ref[4] = true; }
        c.check(ref[0] == sparse, sparse ? "INVALID-ACCEPTED" : "VALID-REJECTED", [&] { return log + what + " size"; });
        if(!sparse && over) c.check(size == 0, "SIZE", [&] { return what; });
        for(int i = 1; i < 5; ++i) outcome(ref[i], sparse || over);
        break;
      }
      case 9: case 10: { // multisectors
        std::vector<lc::sector_descriptor<hs_t>> sec(r.below(4));
        bool unknown = false, overlap = false, over = false;
        std::set<int> used;
        for(auto& q : sec) {
          std::set<int> own;
          for(int i = r.below(4); i > 0; --i) {
            if(r.coin(0.08) || fm.empty()) {
              if(!r.coin(0.3)) continue;
              q.indices.insert(std::tuple<int>(1000));
              unknown = true;
            } else {
              int m = r.pick(fm);
              if(used.count(m) && r.coin(0.85)) continue;
              own.insert(m);
            }
          }
          for(int m : own) { q.indices.insert(s.u.idx[m]); if(!used.insert(m).second) overlap = true; }
          q.N = unsigned(r.range(0, int(q.indices.size()) + r.coin(0.15)));
          if(r.coin(0.03)) q.N = unsigned(r.next());
          over = over || q.N > q.indices.size();
        }
        // an unknown mode listed by two sectors is an overlap as well: either way invalid
        bool inv = sparse || unknown || overlap;
        what = "multisector";
        for(auto const& q : sec) { what += " {"; for(auto const& i : q.indices) what += std::to_string(std::get<0>(i)) + ","; what += "}" + std::to_string(q.N); }
        c.phase(what);
        bool ref[4] = {false, false, false, false};
        u64 size = 77;
        try { size = lc::n_fermion_multisector_size(*s.hs, sec); } catch(std::runtime_error const&) { ref[0] = true; }
        try { lc::n_fermion_multisector_basis_states(*s.hs, sec); } catch(std::runtime_error const&) { ref[1] = true; }
        std::vector<double> v(size == 77 ? 4 : size);
        try { lc::make_nfms_view(v, *s.hs, sec); } catch(std::runtime_error const&) { ref[2] = true; }
        try { lc::make_const_nfms_view(v, *s.hs, sec); } catch(std::runtime_error const&) { ref[3] = true; }
        c.check(ref[0] == inv, inv ? "INVALID-ACCEPTED" : "VALID-REJECTED", [&] { return log + what + " size"; });
        if(!inv && over) c.check(size == 0, "SIZE", [&] { return what; });
        for(int i = 1; i < 4; ++i) outcome(ref[i], inv || over);
        break;
      }
      default: { // elements absent from the space, missing algebras
        Entry x = hsm::random_entry(r, int(spc.pool.size()), 6, false);
        bool has = false;
        for(auto const& q : L2.m) has = has || (q.second.alg == x.alg && q.second.mult == x.mult && spc.pool[q.second.idx] == spc.pool[x.idx]);
        if(has) for(auto const& q : L2.m) if(q.second.alg == x.alg && q.second.mult == x.mult && spc.pool[q.second.idx] == spc.pool[x.idx]) x.dim = q.second.dim;
        auto es = spc.make(x);
        what = "look up " + x.str();
        c.phase(what);
        bool ref[3] = {false, false, false};
        try { hs2->index(*es); } catch(hs_t::elementary_space_not_found const& q) { ref[0] = spc.same(*q.elementary_space_ptr, x); }
        try { hs2->bit_range(*es); } catch(hs_t::elementary_space_not_found const& q) { ref[1] = spc.same(*q.elementary_space_ptr, x); }
        try { hs2->dim(*es); } catch(hs_t::elementary_space_not_found const& q) { ref[2] = spc.same(*q.elementary_space_ptr, x); }
        for(bool q : ref) outcome(q, !has);
        bool ra = false, hasa = false;
        for(auto const& q : L2.m) hasa = hasa || q.second.alg == x.alg;
        try { hs2->algebra_bit_range(x.alg); } catch(std::runtime_error const&) { ra = true; }
        outcome(ra, !hasa);
      }
      }
      log += what + "; ";
      rejected += bad;
      auto now = snapshot();
      c.ev("snapshots");
      if(now != ref0) { c.fail(bad ? "CHANGED-BY-REJECTED-REQUEST" : "CHANGED-BY-QUERY", log + " before: " + ref0.substr(0, 1500) + " after: " + now.substr(0, 1500)); return; }
    }
    if(rejected) c.nontrivial(c.in + log);
  }
};

// --- constants ---------------------------------------------------------------
// Generators of user algebras whose relations throw or need fractions
template <typename S> struct scalar_kind { static constexpr bool fractions = true; };
template <> struct scalar_kind<int> { static constexpr bool fractions = false; };
template <> struct scalar_kind<long> { static constexpr bool fractions = false; };
template <> struct scalar_kind<mpz_class> { static constexpr bool fractions = false; };

struct frac_gen : lc::generator<int> {
  // x y -> y x + k with a given constant for letters 0 < 1 < 2 ...
  int n;
  lc::var_number k;
  frac_gen(int n_, lc::var_number k_) : lc::generator<int>(std::make_tuple(n_)), n(n_), k(k_) {}
  int algebra_id() const override { return 4; }
  lc::var_number swap_with(lc::generator<int> const& g2, linear_function_t& f) const override {
    f.set(0);
    if(n == 2 && dynamic_cast<frac_gen const&>(g2).n == 1) { f.set(k); }
    return 1;
  }
};

template <typename S> void constants(mon::Case& c) {
  using E = lc::expression<S, int>;
  auto& r = c.r;
  // conversions: fractions are refused however close to an integer
  for(int i = 0; i < 4; ++i) {
    double d = r.range(-1000, 1000);
    bool frac = r.coin(0.7);
    if(frac) d += std::ldexp(r.coin() ? 1. : -1., -r.range(1, 40));
    bool ref = false;
    try { auto x = lc::scalar_traits<S>::make_const(d); (void)x; } catch(std::runtime_error const&) { ref = true; }
    c.check(ref == frac, ref ? "VALID-REJECTED" : "INVALID-ACCEPTED", [&] { std::ostringstream o; o.precision(18); o << "constant " << d; return o.str(); });
    c.ev("conversions");
  }
  // letters: fermions 0..1, spin-1/2 modes, spin-1 modes, user letters
  lc::var_number k = r.coin() ? lc::var_number(r.range(1, 5), 2) : lc::var_number(r.range(-5, 5));
  if(r.coin(0.2)) k = lc::var_number(r.range(1, 9) / (r.coin() ? 4.0 : -4.0));
  if(r.coin(0.2)) k = lc::var_number(r.range(-5, 5) + std::ldexp(r.coin() ? 1. : -1., -r.range(2, 40))); // close to an integer
  bool k_bad = k.number_type == lc::var_number::real ? true : k.number_type == lc::var_number::rational ? !scalar_kind<S>::fractions : false;
  bool uses_user = r.coin();
  using gptr = std::shared_ptr<lc::generator<int> const>;
  struct Let { int kind, mode, comp; }; // kind 0 fermion, 1 spin-1/2, 2 user
  auto make = [&](Let l) -> gptr {
    if(l.kind == 0) return std::make_shared<lc::generator_fermion<int>>(l.comp & 1, l.mode);
    if(l.kind == 1) return std::make_shared<lc::generator_spin<int>>(lc::spin_component(l.comp % 3), l.mode);
    return std::make_shared<frac_gen>(l.mode, k);
  };
  auto letter = [&]() -> Let {
    if(uses_user && r.coin(0.4)) return {2, r.range(1, 3), 0};
    if(r.coin(0.45)) return {1, r.below(3), r.below(3)};
    return {0, r.below(3), r.below(2)};
  };
  // A word never needs a fraction if it contains at most one letter of each spin and the user
  // letters are in order; it needs one if it is one of the short words below
  auto must = [&](std::vector<Let> const& w) {
    if(w.size() != 2) return false;
    if(w[0].kind == 2 && w[1].kind == 2) return w[0].mode == 2 && w[1].mode == 1 && k_bad;
    if(w[0].kind == 1 && w[1].kind == 1 && w[0].mode == w[1].mode && !scalar_kind<S>::fractions)
      return w[0].comp != w[1].comp || w[0].comp == 2; // S+S+ and S-S- vanish, SzSz = 1/4
    return false;
  };
  auto may = [&](std::vector<Let> const& w) {
    std::map<int, int> cnt;
    for(auto const& l : w) if(l.kind == 1) ++cnt[l.mode];
    if(!scalar_kind<S>::fractions) for(auto const& q : cnt) if(q.second > 1) return true;
    if(k_bad)
      for(std::size_t i = 0; i < w.size(); ++i)
        for(std::size_t j = i + 1; j < w.size(); ++j)
          if(w[i].kind == 2 && w[j].kind == 2 && w[i].mode == 2 && w[j].mode == 1) return true;
    return false;
  };
  struct Var { E e; std::vector<std::vector<Let>> words; };
  std::vector<Var> pool;
  for(int i = 0; i < 3; ++i) {
    Var v;
    int n = i == 0 ? 1 : r.range(0, 3);
    std::set<std::string> have;
    for(int t = 0; t < n; ++t) {
      Let l = letter();
      E m(S(r.range(1, 3)), lc::monomial<int>({make(l)}));
      if(!have.insert(mon::str(*make(l))).second) continue;
      v.e += m;
      v.words.push_back({l});
    }
    pool.push_back(v);
  }
  std::string log = "constant " + mon::str(k) + ": ";
  for(auto const& v : pool) log += mon::str(v.e) + " | ";
  u64 refused_n = 0;
  for(int step = 0; step < 12; ++step) {
    int i = r.below(3), j = r.below(3);
    std::vector<std::vector<Let>> prod;
    for(auto const& a : pool[i].words) for(auto const& b : pool[j].words) { auto w = a; w.insert(w.end(), b.begin(), b.end()); prod.push_back(w); }
    if(prod.size() > 40) continue;
    bool mu = false, ma = false;
    for(auto const& w : prod) { mu = mu || must(w); ma = ma || may(w); }
    std::vector<std::string> before;
    for(auto const& v : pool) before.push_back(mon::str(v.e));
    std::vector<E> copies;
    for(auto const& v : pool) copies.push_back(v.e);
    bool refused = false, done = false;
    int form = r.below(6);
    std::string what = "form " + std::to_string(form) + " of " + std::to_string(i) + "," + std::to_string(j);
    c.phase(what);
    for(int rep = 0; rep < 2; ++rep) {
      bool ref = false;
      try {
        switch(form) {
        case 0: { E x = pool[i].e * pool[j].e; (void)x; break; }
        case 1: {
          E& x = pool[i].e;
          x *= pool[j].e;
          done = true;
          break;
        }
        case 2: { E x = pool[i].e * pool[j].e - pool[j].e * pool[i].e; (void)x; break; }
        case 3: { E x; for(auto const& t : pool[i].e) for(auto const& u : pool[j].e) x += E(S(1), concatenate(t.monomial, u.monomial)); break; }
        case 4: { E x(pool[j].e); x = pool[i].e * pool[j].e; break; }
        default: { E x(pool[i].e); E& y = x; y *= pool[j].e; break; }
        }
      } catch(std::runtime_error const& q) {
        ref = true;
        c.check(std::string(q.what()).find("Cannot convert") != std::string::npos, "MESSAGE", [&] { return std::string(q.what()); });
      }
      if(form != 2 || !ref) {
        if(form != 2) {
          if(ref && !ma) c.fail("VALID-REJECTED", log + what);
          if(!ref && mu) c.fail("INVALID-ACCEPTED", log + what);
        } else if(mu) c.fail("INVALID-ACCEPTED", log + what);
      } else {
        bool ma2 = ma;
        for(auto const& a : pool[i].words) for(auto const& b : pool[j].words) { auto w = b; w.insert(w.end(), a.begin(), a.end()); ma2 = ma2 || may(w); }
        if(!ma2) c.fail("VALID-REJECTED", log + what);
      }
      if(ref) {
        refused = true;
        c.ev("refused");
        for(int q = 0; q < 3; ++q)
          if(mon::str(pool[q].e) != before[q] || !(pool[q].e == copies[q])) { c.fail("CHANGED-BY-REJECTED-REQUEST", log + what + ": " + before[q] + " became " + mon::str(pool[q].e)); return; }
      } else {
        c.ev("accepted");
        if(done) { // continue with the result; forget the words of longer histories
          done = false;
          pool[i].words = prod;
          if(pool[i].words.size() > 12 || (!pool[i].words.empty() && pool[i].words[0].size() > 4)) { pool[i] = pool[(i + 1) % 3]; }
          break;
        }
      }
      if(!ref) break;
    }
    log += what + (refused ? " refused; " : "; ");
    refused_n += refused;
  }
  c.input(log);
  if(refused_n) c.nontrivial(log);
}
} // namespace

MON_SECTION("spaces int", 1500, 20000) { spaces<int>(c); }
MON_SECTION("spaces string-int", 500, 7000) { spaces<std::string, int>(c); }
MON_SECTION("spaces dyn", 500, 7000) { spaces<libcommute::dynamic_indices::dyn_indices>(c); }
MON_SECTION("sessions", 1800, 40000) { Session{c}.run(); }
MON_SECTION("constants int", 1500, 20000) { constants<int>(c); }
MON_SECTION("constants long", 500, 7000) { constants<long>(c); }
MON_SECTION("constants mpz", 500, 7000) { constants<mpz_class>(c); }
MON_SECTION("constants mpq", 700, 9000) { constants<mpq_class>(c); }
MON_SECTION("constants rational", 500, 7000) { constants<boost::rational<int>>(c); }
