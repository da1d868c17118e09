// Reference for space partitions.
#pragma once
#include "ops.hpp"
using namespace ops;
using libcommute::foreach;

namespace part {
using mon::u64;
using Mat = std::map<std::pair<u64, u64>, cld>; // (to, from)

// Matrix of an operator on a list of states; ill-conditioned inputs are skipped
template <typename S> Mat matrix(Sys<int> const& s, lc::expression<S, int> const& e, std::vector<u64> const& states) {
  Mat m;
  Poly p = s.u.read(e);
  for(u64 f : states) {
    AVec in{{f, Amp{1, 1}}};
    for(auto const& q : s.act(p, in)) {
      ld a = std::abs(q.second.v), sc = q.second.scale;
      if(sc == 0) continue;
      if(a >= 1e-3L * sc) { // no cancellation
        if(a < 1e-12L) throw mon::skip_case{};
      } else {
        if(a > 1e-15L && a < 1e-6L) throw mon::skip_case{};
        if(sc > 100) throw mon::skip_case{};
      }
      if(a >= 1e-12L) m[{q.first, f}] = q.second.v;
    }
  }
  return m;
}
struct Groups { // naive partition
  std::map<u64, int> of;
  std::vector<std::set<u64>> sets;
  explicit Groups(std::vector<u64> const& st) {
    for(u64 x : st) { of[x] = int(sets.size()); sets.push_back({x}); }
  }
  bool unite(u64 a, u64 b) {
    int i = of.at(a), j = of.at(b);
    if(i == j) return false;
    if(sets[i].size() < sets[j].size()) std::swap(i, j);
    for(u64 x : sets[j]) { of[x] = i; sets[i].insert(x); }
    sets[j].clear();
    return true;
  }
  std::set<std::set<u64>> all() const {
    std::set<std::set<u64>> r;
    for(auto const& q : sets) if(!q.empty()) r.insert(q);
    return r;
  }
};
inline Groups components(std::vector<u64> const& states, Mat const& h) {
  Groups g(states);
  for(auto const& q : h) g.unite(q.first.first, q.first.second);
  return g;
}
inline void close(Groups& g, std::vector<Mat> const& ms) {
  for(bool again = true; again;) {
    again = false;
    for(auto const& m : ms) {
      std::map<int, u64> target;
      bool merged = false;
      for(auto const& q : m) {
        auto r = target.emplace(g.of.at(q.first.second), q.first.first);
        if(!r.second && g.unite(r.first->second, q.first.first)) { merged = true; break; }
      }
      again = again || merged;
    }
  }
}
template <typename M> std::string compare_matrix(M const& got, Mat const& want) {
  std::ostringstream o;
  for(auto const& q : want) {
    auto it = got.find({q.first.first, q.first.second});
    if(it == got.end()) { o << "missing <" << q.first.first << "|.|" << q.first.second << ">=" << q.second; return o.str(); }
    if(std::abs(to_cld(it->second) - q.second) > 1e-11L * std::abs(q.second) + 1e-14L) {
      o << "<" << q.first.first << "|.|" << q.first.second << ">: library " << to_cld(it->second) << " reference " << q.second;
      return o.str();
    }
  }
  if(got.size() != want.size()) {
    for(auto const& q : got)
      if(!want.count({q.first.first, q.first.second})) { o << "extra <" << q.first.first << "|.|" << q.first.second << ">=" << to_cld(q.second); return o.str(); }
  }
  return "";
}
inline std::string show(std::set<std::set<u64>> const& s) {
  std::string o;
  for(auto const& q : s) o += mon::vstr(q) + " ";
  return o.substr(0, 1500);
}
// Full interface of a partition against the expected groups
template <typename SP>
bool verify(mon::Case& c, SP const& sp, Groups const& g, std::vector<u64> const& states, u64 dim, std::string const& nm) {
  auto want = g.all();
  u64 n = sp.n_subspaces();
  if(!c.check(n == want.size(), "N-SUBSPACES", [&] { return nm + ": " + std::to_string(n) + " expected " + std::to_string(want.size()); })) return false;
  c.check(sp.dim() == dim, "DIM", [&] { return nm + ": " + std::to_string(sp.dim()); });
  std::vector<std::set<u64>> by(n);
  for(u64 x : states) {
    u64 k = sp[x];
    if(!c.check(k < n, "NUMBERING", [&] { return nm + ": state " + std::to_string(x) + " in subspace " + std::to_string(k) + " of " + std::to_string(n); })) return false;
    by[k].insert(x);
  }
  std::set<std::set<u64>> got(by.begin(), by.end());
  if(!c.check(got == want, "PARTITION", [&] { return nm + ": library " + show(got) + " expected " + show(want); })) return false;
  auto bases = sp.subspace_bases();
  bool ok = bases.size() == n;
  for(u64 k = 0; ok && k < n; ++k) {
    std::set<u64> q(bases[k].begin(), bases[k].end());
    ok = q == by[k] && q.size() == bases[k].size();
  }
  c.check(ok, "SUBSPACE-BASES", [&] { return nm; });
  for(int i = 0; i < 4; ++i) {
    u64 k = c.r.next() % n;
    auto b = sp.subspace_basis(k);
    std::set<u64> q(b.begin(), b.end());
    c.check(q == by[k] && q.size() == b.size(), "SUBSPACE-BASIS", [&] { return nm + ": subspace " + std::to_string(k) + ": " + mon::vstr(b); });
  }
  std::map<u64, u64> seen;
  u64 visits = 0;
  foreach(sp, [&](u64 x, u64 k) { seen[x] = k; ++visits; });
  ok = visits == states.size() && seen.size() == visits;
  for(auto const& q : seen) ok = ok && q.second < n && by[q.second].count(q.first);
  c.check(ok, "TRAVERSAL", [&] { return nm + ": " + std::to_string(visits) + " visits"; });
  c.ev("states", states.size());
  c.ev("subspaces", n);
  return ok;
}
template <typename SP>
std::set<std::pair<u64, u64>> connections(SP const& sp, Mat const& m) {
  std::set<std::pair<u64, u64>> r;
  for(auto const& q : m) r.insert({sp[q.first.second], sp[q.first.first]});
  return r;
}
template <typename S> lc::expression<S, int> hermitian(lc::expression<S, int> const& e) { return e + conj(e); }

// Random operators whose graphs are interesting: few terms, number/parity conserving, diagonal, dense
template <typename S> lc::expression<S, int> random_op(mon::rng& r, Sys<int> const& s, int max_terms) {
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  lc::expression<S, int> e;
  switch(r.below(4)) {
  case 0: e = random_expr<S>(r, s.u, 1, 2, modes); break;
  case 1: e = random_expr<S>(r, s.u, max_terms, 2, modes); break;
  case 2: e = random_expr<S>(r, s.u, max_terms, 4, modes); break;
  default:
    for(int t = r.range(1, max_terms); t > 0; --t) {
      Word w;
      for(int i = r.range(1, 2); i > 0; --i) {
        int m = r.pick(modes), n = r.pick(modes);
        auto x = ref::random_letter(r, s.u.model, m), y = ref::random_letter(r, s.u.model, n);
        if(s.u.model.modes[m].alg != ref::SPIN) x.kind = 1; else x.kind = 0;
        if(s.u.model.modes[n].alg != ref::SPIN) y.kind = 0; else y.kind = 1;
        w.push_back(x);
        w.push_back(y);
      }
      e += lc::expression<S, int>(ref::as<S>(ref::random_coeff<S>(r)), s.u.mono(w));
    }
  }
  // terms of very different magnitude
  if(r.coin(0.25)) {
    int lim = r.range(1, 34);
    std::map<lc::monomial<int>, int> k;
    for(auto const& t : e) k.emplace(t.monomial, r.range(-lim, 45));
    e = transform(e, [&](lc::monomial<int> const& m, S const& x) { return S(std::ldexp(1., k.at(m))) * x; });
  }
  return e;
}
// A user-defined Hilbert space type: an explicit list of basis states
struct listed {
  std::vector<u64> states;
  u64 size;
  u64 dim() const { return states.size(); }
};
inline u64 get_vec_size(listed const& l) { return l.size; }
template <typename F> void foreach(listed const& l, F&& f) {
  for(u64 x : l.states) f(lc::sv_index_type(x));
}
} // namespace part
