// C13: every state vector type gives the same amplitudes.
// Documented: the Eigen support comes before libcommute.hpp
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "ops.hpp"
using namespace ops;
using libcommute::foreach;
using libcommute::get_element;
using libcommute::set_zeros;
using libcommute::update_add_element;
using libcommute::zeros_like;

namespace {
template <typename S> using EVec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <typename S> using EMat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <typename S> using ERow = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

// A sentinel that never occurs as an amplitude
template <typename S> S guard(int k) { return S(1000003 + k); }

// What is left in a destination by an earlier computation
template <typename S, bool = std::numeric_limits<S>::has_quiet_NaN> struct junk_of {
  static S get(int k) { return guard<S>(k); }
};
template <typename S> struct junk_of<S, true> {
  static S get(int k) {
    using L = std::numeric_limits<S>;
    return k % 4 == 0 ? L::quiet_NaN() : k % 4 == 1 ? L::infinity() : k % 4 == 2 ? -L::max() : guard<S>(k);
  }
};
template <typename T> struct junk_of<std::complex<T>, false> {
  static std::complex<T> get(int k) { return {junk_of<T>::get(k), junk_of<T>::get(k / 2)}; }
};

// Storage larger than the vector, filled with guard values
template <typename S> struct Arena {
  int n, off;
  EVec<S> seg;
  EMat<S> mat;
  ERow<S> row;
  std::vector<S> raw;
  int col, mrow;
  Arena(mon::rng& r, int n_) : n(n_), off(r.range(1, 9)) {
    seg.resize(n + off + r.range(1, 5));
    mat.resize(n + 4, r.range(3, 5));
    row.resize(n + 4, r.range(3, 5));
    raw.resize(std::size_t(3 * n + 7));
    col = r.range(1, int(std::min(mat.cols(), row.cols())) - 2);
    mrow = r.range(1, 3);
    refill();
  }
  void refill() {
    for(int i = 0; i < seg.size(); ++i) seg(i) = guard<S>(i);
    for(int i = 0; i < mat.rows(); ++i)
      for(int j = 0; j < mat.cols(); ++j) mat(i, j) = guard<S>(i + 7 * j);
    for(int i = 0; i < row.rows(); ++i)
      for(int j = 0; j < row.cols(); ++j) row(i, j) = guard<S>(i + 7 * j);
    for(std::size_t i = 0; i < raw.size(); ++i) raw[i] = guard<S>(int(i));
  }
  std::string check(bool seg_used, bool col_used, bool block_used, bool row_used, int raw_stride) const {
    for(int i = 0; i < seg.size(); ++i)
      if(!(seg_used && i >= off && i < off + n) && seg(i) != guard<S>(i)) return "outside of the segment at " + std::to_string(i);
    for(int i = 0; i < mat.rows(); ++i)
      for(int j = 0; j < mat.cols(); ++j) {
        bool in = j == col && ((col_used) || (block_used && i >= mrow && i < mrow + n));
        if(!in && mat(i, j) != guard<S>(i + 7 * j)) return "outside of the column/block";
      }
    for(int i = 0; i < row.rows(); ++i)
      for(int j = 0; j < row.cols(); ++j) {
        bool in = row_used && j == col && i >= mrow && i < mrow + n;
        if(!in && row(i, j) != guard<S>(i + 7 * j)) return "outside of the row-major block";
      }
    for(int i = 0; i < int(raw.size()); ++i) {
      bool in = raw_stride && i >= 2 && (i - 2) % raw_stride == 0 && (i - 2) / raw_stride < n;
      if(!in && raw[std::size_t(i)] != guard<S>(i)) return "outside of the map at " + std::to_string(i);
    }
    return "";
  }
};

template <typename S, typename F> std::map<u64, cld> read(int n, F&& f) {
  std::map<u64, cld> m;
  for(int i = 0; i < n; ++i) {
    S v = f(i);
    if(v != S(0)) m[u64(i)] = to_cld(v);
  }
  return m;
}

template <typename OpS, typename S> struct Run {
  mon::Case& c;
  Sys<int> const& s;
  lc::loperator<OpS, lc::fermion, lc::boson, lc::spin> const& op;
  AVec want;
  std::map<u64, S> in;
  ld eps;
  int n;
  int count = 0;
  bool dirty = false;
  S junk(int k) const { return dirty ? junk_of<S>::get(k) : guard<S>(5); }

  void verdict(std::string const& name, std::map<u64, cld> const& got, bool sparse_dst) {
    ++count;
    AVec w2;
    AVec const* w = &want;
    if(sparse_dst && eps > 0) {
      for(auto const& q : want) {
        if(!got.count(q.first) && std::abs(q.second.v) <= 100 * real_eps<S>::value + eps * q.second.scale) continue;
        w2.insert(q);
      }
      w = &w2;
    }
    auto d = diff(*w, got, eps);
    c.check(d.empty(), "CONTAINER-AMPLITUDES", [&] { return name + ": " + d; });
  }

  template <typename Src> void into(std::string const& sn, Src&& src) {
    auto& r = c.r;
    dirty = r.coin();
    { // std::vector
      std::vector<S> d(std::size_t(n), guard<S>(5));
      for(int i = 0; i < n; ++i) d[std::size_t(i)] = junk(i);
      c.phase("std::vector");
      op(src, d);
      verdict(sn + " -> std::vector", read<S>(n, [&](int i) { return d[std::size_t(i)]; }), false);
    }
    { // sparse, dirty
      c.phase("sparse");
      lc::sparse_state_vector<S> d{u64(n)};
      for(int i = 0; i < 5; ++i) d[u64(r.below(n))] = i < 3 ? (dirty ? junk(i) : guard<S>(i)) : S(0);
      op(src, d);
      std::map<u64, cld> got;
      std::size_t vis = 0;
      bool zero = false, range = true;
      foreach(d, [&](u64 i, S const& a) { ++vis; got[i] = to_cld(a); zero = zero || a == S(0); range = range && i < u64(n); });
      c.check(vis == got.size() && vis == d.n_nonzeros(), "SPARSE-TRAVERSAL", [&] { return sn; });
      c.check(!zero, "SPARSE-EXPLICIT-ZERO", [&] { return sn; });
      c.check(range && d.size() == u64(n), "SPARSE-INDEX", [&] { return sn; });
      verdict(sn + " -> sparse", got, true);
    }
    {
      c.phase("Eigen vector");
      EVec<S> d = EVec<S>::Constant(n, guard<S>(5));
      for(int i = 0; i < n; ++i) d(i) = junk(i);
      op(src, d);
      verdict(sn + " -> Eigen vector", read<S>(n, [&](int i) { return d(i); }), false);
    }
    Arena<S> a(r, n);
    auto guards = [&](char const* nm, std::string const& e) {
      c.check(e.empty(), "WROTE-OUTSIDE", [&] { return sn + " -> " + nm + ": " + e; });
    };
    {
      c.phase("segment");
      for(int i = 0; i < n; ++i) a.seg(a.off + i) = junk(i);
      op(src, a.seg.segment(a.off, n));
      verdict(sn + " -> segment", read<S>(n, [&](int i) { return a.seg(a.off + i); }), false);
      guards("segment", a.check(true, false, false, false, 0));
      a.refill();
    }
    if(r.coin(0.5)) {
      c.phase("named segment");
      auto sg = a.seg.segment(a.off, n);
      for(int i = 0; i < n; ++i) a.seg(a.off + i) = junk(i);
      op(src, sg);
      verdict(sn + " -> named segment", read<S>(n, [&](int i) { return a.seg(a.off + i); }), false);
      guards("segment", a.check(true, false, false, false, 0));
      a.refill();
    }
    {
      c.phase("block");
      for(int i = 0; i < n; ++i) a.mat(a.mrow + i, a.col) = junk(i);
      op(src, a.mat.block(a.mrow, a.col, n, 1));
      verdict(sn + " -> block", read<S>(n, [&](int i) { return a.mat(a.mrow + i, a.col); }), false);
      guards("block", a.check(false, false, true, false, 0));
      a.refill();
    }
    {
      c.phase("row-major block");
      for(int i = 0; i < n; ++i) a.row(a.mrow + i, a.col) = junk(i);
      op(src, a.row.block(a.mrow, a.col, n, 1));
      verdict(sn + " -> row-major block", read<S>(n, [&](int i) { return a.row(a.mrow + i, a.col); }), false);
      guards("row-major block", a.check(false, false, false, true, 0));
      a.refill();
    }
    {
      c.phase("column");
      EMat<S> m(n, 3);
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < 3; ++j) m(i, j) = guard<S>(i + j);
      for(int i = 0; i < n; ++i) m(i, 1) = junk(i);
      op(src, m.col(1));
      verdict(sn + " -> column", read<S>(n, [&](int i) { return m(i, 1); }), false);
      bool ok = true;
      for(int i = 0; i < n; ++i) ok = ok && m(i, 0) == guard<S>(i) && m(i, 2) == guard<S>(i + 2);
      c.check(ok, "WROTE-OUTSIDE", [&] { return sn + " -> column"; });
    }
    {
      c.phase("map");
      for(int i = 0; i < n; ++i) a.raw[std::size_t(2 + i)] = junk(i);
      Eigen::Map<EVec<S>> m(a.raw.data() + 2, n);
      op(src, m);
      verdict(sn + " -> map", read<S>(n, [&](int i) { return a.raw[std::size_t(2 + i)]; }), false);
      guards("map", a.check(false, false, false, false, 1));
      a.refill();
    }
    {
      c.phase("strided map");
      for(int i = 0; i < n; ++i) a.raw[std::size_t(2 + 3 * i)] = junk(i);
      Eigen::Map<EVec<S>, 0, Eigen::InnerStride<3>> m(a.raw.data() + 2, n);
      op(src, m);
      verdict(sn + " -> strided map", read<S>(n, [&](int i) { return a.raw[std::size_t(2 + 3 * i)]; }), false);
      guards("strided map", a.check(false, false, false, false, 3));
    }
    { // mapped view of the whole space in a random order
      c.phase("mapped view");
      std::vector<u64> ord;
      for(int i = 0; i < n; ++i) ord.push_back(u64(i));
      r.shuffle(ord);
      std::unordered_map<lc::sv_index_type, lc::sv_index_type> mp;
      for(int i = 0; i < n; ++i) mp[ord[std::size_t(i)]] = u64(i);
      std::vector<S> d(std::size_t(n), guard<S>(5));
      for(int i = 0; i < n; ++i) d[std::size_t(i)] = junk(i);
      lc::mapped_basis_view<std::vector<S>> v(d, mp);
      op(src, v);
      std::map<u64, cld> got;
      for(int i = 0; i < n; ++i)
        if(d[std::size_t(i)] != S(0)) got[ord[std::size_t(i)]] = to_cld(d[std::size_t(i)]);
      verdict(sn + " -> mapped view", got, false);
    }
  }

  // value-returning forms; dense containers
  template <typename Src, typename Read> void value(std::string const& sn, Src const& src, Read&& rd) {
    c.phase("value-returning");
    auto w = op(src);
    verdict(sn + " op(v)", rd(w), false);
    auto w2 = op * src;
    verdict(sn + " op*v", rd(w2), false);
  }

  void all() {
    auto& r = c.r;
    auto same = [&](std::string const& nm, bool ok) {
      c.check(ok, "SOURCE-CHANGED", [&] { return nm; });
    };
    std::vector<S> sv(std::size_t(n), S(0));
    for(auto const& q : in) sv[q.first] = q.second;
    auto rd_dense = [&](auto const& w) {
      return read<S>(n, [&](int i) { return w[i]; });
    };
    int pick = r.below(8);
    if(pick == 0) {
      auto copy = sv;
      into("std::vector", sv);
      into("const std::vector", const_cast<std::vector<S> const&>(sv));
      value("std::vector", sv, rd_dense);
      same("std::vector", sv == copy);
    } else if(pick == 1) {
      lc::sparse_state_vector<S> sp{u64(n)};
      for(auto const& q : in) sp[q.first] = q.second;
      if(r.coin()) sp[s.random_state(r)] += S(0); // possibly an explicit zero of a physical state
      std::size_t nn = sp.n_nonzeros();
      into("sparse", sp);
      for(int k = 0; k < 2; ++k) {
        auto w = k ? op * sp : op(sp);
        std::map<u64, cld> got;
        bool z = false;
        foreach(w, [&](u64 i, S const& a) { got[i] = to_cld(a); z = z || a == S(0); });
        c.check(!z && got.size() == w.n_nonzeros(), "SPARSE-EXPLICIT-ZERO", [&] { return "value-returning form"; });
        verdict("sparse value form", got, true);
      }
      bool ok = sp.n_nonzeros() == nn;
      for(int i = 0; i < n; ++i) ok = ok && get_element(sp, u64(i)) == sv[std::size_t(i)];
      same("sparse", ok && sp.n_nonzeros() == nn);
    } else if(pick == 2) {
      EVec<S> e = Eigen::Map<EVec<S>>(sv.data(), n);
      EVec<S> copy = e;
      into("Eigen vector", e);
      value("Eigen vector", e, rd_dense);
      same("Eigen vector", e == copy);
    } else if(pick == 3) {
      Arena<S> a(r, n);
      for(int i = 0; i < n; ++i) a.seg(a.off + i) = sv[std::size_t(i)];
      EVec<S> copy = a.seg;
      auto const sg = a.seg.segment(a.off, n);
      into("segment", sg);
      EVec<S> const& cs = a.seg;
      into("const segment", cs.segment(a.off, n));
      same("segment", a.seg == copy);
    } else if(pick == 4) {
      Arena<S> a(r, n);
      for(int i = 0; i < n; ++i) a.mat(a.mrow + i, a.col) = sv[std::size_t(i)];
      EMat<S> copy = a.mat;
      into("block", a.mat.block(a.mrow, a.col, n, 1));
      EMat<S> const& cm = a.mat;
      into("const block", cm.block(a.mrow, a.col, n, 1));
      same("block", a.mat == copy);
    } else if(pick == 5) {
      EMat<S> m = EMat<S>::Constant(n, 4, guard<S>(0));
      ERow<S> mr = ERow<S>::Constant(n, 4, guard<S>(0));
      for(int i = 0; i < n; ++i) m(i, 2) = mr(i, 2) = sv[std::size_t(i)];
      EMat<S> copy = m;
      into("column", m.col(2));
      into("row-major column", mr.col(2));
      same("column", m == copy);
    } else if(pick == 6) {
      auto copy = sv;
      Eigen::Map<EVec<S>> m(sv.data(), n);
      into("map", m);
      same("map", sv == copy);
    } else {
      // mapped view as a source; only the non-zero states need to be mapped
      std::vector<u64> ord;
      for(int i = 0; i < n; ++i) ord.push_back(u64(i));
      r.shuffle(ord);
      std::unordered_map<lc::sv_index_type, lc::sv_index_type> mp;
      std::vector<S> d(std::size_t(n), S(0));
      for(int i = 0; i < n; ++i) { mp[ord[std::size_t(i)]] = u64(i); d[std::size_t(i)] = sv[ord[std::size_t(i)]]; }
      auto copy = d;
      lc::mapped_basis_view<std::vector<S> const> v(d, mp);
      into("mapped view", v);
      same("mapped view", d == copy);
    }
  }
};

template <typename OpS, typename S> void one(mon::Case& c, bool exact) {
  auto& r = c.r;
  SysCfg g;
  g.max_modes = 6;
  g.max_bits = 7;
  g.max_boson = 9;
  if(exact) { g.boson = false; g.spin = !std::is_integral<OpS>::value; g.max_mult = 2; }
  auto s = random_sys(r, g);
  std::vector<int> modes;
  for(int m = 0; m < s.u.size(); ++m) modes.push_back(m);
  auto e = random_expr<OpS>(r, s.u, 4, 4, modes);
  c.input(s.layout() + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  std::map<u64, S> in;
  int nst = r.coin(0.3) ? int(s.L.dim()) : r.range(0, 12);
  for(int i = 0; i < nst; ++i) in[s.random_state(r)] = wide_amp<S>(r);
  AVec ain;
  for(auto const& q : in) ain[q.first] = Amp{to_cld(q.second), std::abs(to_cld(q.second))};
  Run<OpS, S> run{c, s, op, s.act(s.u.read(e), ain), in, exact ? ld(0) : real_eps<double>::value * 64,
                  int(s.hs->vec_size())};
  run.all();
  c.ev("actions", u64(run.count));
  c.ev("amplitudes", run.want.size() * u64(run.count));
  if(!run.want.empty()) c.nontrivial(c.in);
}
} // namespace

// Compiled in several parts to keep the build short
#if PART == 1
MON_SECTION("double", 1500, 20000) { one<double, double>(c, false); }
#elif PART == 2
MON_SECTION("complex", 1000, 15000) { one<std::complex<double>, std::complex<double>>(c, false); }
#elif PART == 3
MON_SECTION("int", 1000, 15000) { one<int, int>(c, true); }
#elif PART == 4
MON_SECTION("exact", 800, 15000) { one<double, std::complex<double>>(c, true); }
#else

// Fixed-size Eigen vectors
namespace {
template <int N> void fixed(mon::Case& c, int nf) {
  auto& r = c.r;
  Sys<int> s;
  for(int i = 0; i < nf; ++i) s.u.add({ref::FERMION, 2}, {i * 3 - 2});
  s.build(r, std::vector<u64>(std::size_t(nf), 0));
  std::vector<int> modes;
  for(int m = 0; m < nf; ++m) modes.push_back(m);
  auto e = random_expr<double>(r, s.u, 5, 4, modes);
  c.input("N=" + std::to_string(N) + " op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  Eigen::Matrix<double, N, 1> v, d;
  AVec in;
  for(int i = 0; i < N; ++i) {
    v(i) = r.coin() ? random_amp<double>(r) : 0;
    d(i) = 77;
    if(v(i) != 0) in[u64(i)] = Amp{v(i), 1};
  }
  AVec want = s.act(s.u.read(e), in);
  auto rd = [&](auto const& w) { return read<double>(N, [&](int i) { return w(i); }); };
  op(v, d);
  auto x = diff(want, rd(d), 0);
  c.check(x.empty(), "FIXED-SIZE", [&] { return x; });
  x = diff(want, rd(op(v)), 0);
  c.check(x.empty(), "FIXED-SIZE", [&] { return "op(v) " + x; });
  x = diff(want, rd(op * v), 0);
  c.check(x.empty(), "FIXED-SIZE", [&] { return "op*v " + x; });
  // halves of a fixed vector
  Eigen::Matrix<double, 2 * N + 1, 1> big;
  for(int i = 0; i < 2 * N + 1; ++i) big(i) = 1e6 + i;
  big.template segment<N>(0) = v;
  op(big.segment(0, N), big.template segment<N>(N + 1));
  x = diff(want, read<double>(N, [&](int i) { return big(N + 1 + i); }), 0);
  c.check(x.empty(), "FIXED-SIZE", [&] { return "segments " + x; });
  c.check(big(N) == 1e6 + N && big.template segment<N>(0) == v, "WROTE-OUTSIDE");
  Eigen::Matrix<double, N, 3> m;
  m.setConstant(5);
  m.col(0) = v;
  op(m.col(0), m.col(2));
  x = diff(want, read<double>(N, [&](int i) { return m(i, 2); }), 0);
  c.check(x.empty(), "FIXED-SIZE", [&] { return "columns " + x; });
  c.check((m.col(1).array() == 5).all() && m.col(0) == v, "WROTE-OUTSIDE");
  c.ev("actions", 5);
  if(!want.empty()) c.nontrivial(c.in + mon::str(v.transpose()));
}
} // namespace
MON_SECTION("fixed-size", 2000, 20000) {
  if(c.r.coin()) fixed<8>(c, 3);
  else fixed<16>(c, 4);
}

// Histories of the sparse vector's own operations mirrored by a map
namespace {
template <typename S> void sparse_history(mon::Case& c) {
  auto& r = c.r;
  u64 n = r.coin(0.2) ? (u64(1) << 62) : u64(r.range(1, 40));
  auto idx = [&]() -> u64 { return n > 100 && r.coin() ? n - 1 - u64(r.below(10)) : u64(r.below(int(std::min<u64>(n, 12)))); };
  using SV = lc::sparse_state_vector<S>;
  std::vector<SV> pool{SV(n)};
  std::vector<std::map<u64, S>> mod(1);
  std::ostringstream log;
  int steps = r.range(5, 60);
  for(int k = 0; k < steps; ++k) {
    int i = r.below(int(pool.size()));
    auto& p = pool[std::size_t(i)];
    auto& m = mod[std::size_t(i)];
    u64 a = idx();
    S v = wide_amp<S>(r);
    switch(r.below(12)) {
    case 0: p[a] = v; m[a] = v; log << "[" << a << "]=" << v << " "; break;
    case 1: p[a] = S(0); m[a] = S(0); log << "[" << a << "]=0 "; break;
    case 2: p[a] += v; m[a] += v; log << "[" << a << "]+=" << v << " "; break;
    case 3: case 4: {
      if(r.coin(0.4) && m.count(a)) v = -m[a];
      if(r.coin(0.1)) v = S(0);
      if(r.coin()) update_add_element(p, a, v);
      else update_add_element(p, a, S(v));
      auto it = m.find(a);
      if(it == m.end()) { if(v != S(0)) m[a] = v; }
      else { it->second += v; if(it->second == S(0)) m.erase(it); }
      log << "add " << a << "," << v << " ";
      break;
    }
    case 5: {
      double d = double(r.range(-3, 3));
      update_add_element(p, a, d);
      auto it = m.find(a);
      if(it == m.end()) { if(d != 0) m[a] = S(d); }
      else { it->second += S(d); if(it->second == S(0)) m.erase(it); }
      log << "addd " << a << "," << d << " ";
      break;
    }
    case 6: if(r.coin(0.2)) { set_zeros(p); m.clear(); log << "zero "; } break;
    case 7: p.prune(); for(auto it = m.begin(); it != m.end();) it = it->second == S(0) ? m.erase(it) : std::next(it); log << "prune "; break;
    case 8: {
      double t = double(r.range(0, 4));
      auto pr = [&](S const& x) { return std::abs(std::complex<double>(x)) < t; };
      if(r.coin()) p.prune(pr);
      else p.prune([&](S const& x) { return std::abs(std::complex<double>(x)) < t; });
      for(auto it = m.begin(); it != m.end();) it = pr(it->second) ? m.erase(it) : std::next(it);
      log << "prune<" << t << " ";
      break;
    }
    case 9:
      if(pool.size() < 4) { auto q = p; auto mm = m; pool.push_back(std::move(q)); mod.push_back(mm); log << "copy " << i << " "; }
      break;
    case 10: {
      int j = r.below(int(pool.size()));
      if(j != i) { pool[std::size_t(j)] = p; mod[std::size_t(j)] = mod[std::size_t(i)]; log << "assign " << j << "=" << i << " "; }
      break;
    }
    default: {
      auto z = zeros_like(p);
      c.check(z.size() == n && z.n_nonzeros() == 0, "SPARSE-ZEROS-LIKE");
      break;
    }
    }
    for(std::size_t j = 0; j < pool.size(); ++j) {
      std::map<u64, S> seen;
      std::size_t vis = 0;
      foreach(pool[j], [&](u64 q, S const& x) { seen[q] = x; ++vis; });
      bool ok = vis == seen.size() && seen == mod[j] && pool[j].n_nonzeros() == mod[j].size() && pool[j].size() == n;
      u64 q = idx();
      auto it = mod[j].find(q);
      ok = ok && get_element(pool[j], q) == (it == mod[j].end() ? S(0) : it->second);
      ok = ok && pool[j].n_nonzeros() == mod[j].size(); // reading stores nothing
      if(!c.check(ok, "SPARSE-HISTORY", [&] { return "vector " + std::to_string(j) + " after: " + log.str(); })) return;
    }
    c.ev("steps");
  }
  c.input("size " + std::to_string(n) + " " + log.str());
  c.nontrivial(c.in);
}
} // namespace
MON_SECTION("sparse-history", 3000, 40000) {
  if(c.r.coin()) sparse_history<double>(c);
  else sparse_history<std::complex<double>>(c);
}

// The StateVector interface of the dense containers
namespace {
template <typename S, typename V> void iface(mon::Case& c, std::string const& nm, V&& v, int n) {
  auto& r = c.r;
  std::vector<S> m(std::size_t(n), S(0));
  set_zeros(v);
  for(int k = 0; k < 3 * n; ++k) {
    u64 i = u64(r.below(n));
    S a = wide_amp<S>(r);
    if(r.coin(0.3)) a = -m[i];
    update_add_element(v, i, a);
    m[i] += a;
    c.check(get_element(v, i) == m[i], "DENSE-INTERFACE", [&] { return nm + " get_element"; });
  }
  std::vector<std::pair<u64, S>> seen, want;
  foreach(v, [&](u64 i, S const& a) { seen.emplace_back(i, a); });
  for(int i = 0; i < n; ++i)
    if(m[std::size_t(i)] != S(0)) want.emplace_back(u64(i), m[std::size_t(i)]);
  c.check(seen == want, "DENSE-INTERFACE", [&] { return nm + " foreach"; });
  auto z = zeros_like(v);
  bool ok = int(z.size()) == n;
  for(int i = 0; ok && i < n; ++i) ok = z[i] == S(0) && get_element(v, u64(i)) == m[std::size_t(i)];
  c.check(ok, "DENSE-INTERFACE", [&] { return nm + " zeros_like"; });
  set_zeros(v);
  for(int i = 0; i < n; ++i) c.check(get_element(v, u64(i)) == S(0), "DENSE-INTERFACE", [&] { return nm + " set_zeros"; });
  c.ev("containers");
}
template <typename S> void ifaces(mon::Case& c) {
  auto& r = c.r;
  int n = r.range(1, 30);
  c.input("size " + std::to_string(n) + " case " + std::to_string(c.index));
  c.nontrivial(c.in);
  std::vector<S> v(std::size_t(n), guard<S>(1));
  iface<S>(c, "std::vector", v, n);
  EVec<S> e = EVec<S>::Constant(n, guard<S>(1));
  iface<S>(c, "Eigen vector", e, n);
  Arena<S> a(r, n);
  auto sg = a.seg.segment(a.off, n);
  iface<S>(c, "segment", sg, n);
  auto x = a.check(true, false, false, false, 0);
  c.check(x.empty(), "WROTE-OUTSIDE", [&] { return x; });
  a.refill();
  auto bl = a.mat.block(a.mrow, a.col, n, 1);
  // blocks with a dynamic number of columns: no zeros_like()[i] (2D), checked by the actions above
  set_zeros(bl);
  for(int i = 0; i < n; ++i) update_add_element(bl, u64(i), S(i));
  int cnt = 0;
  bool ok = true;
  foreach(bl, [&](u64 i, S const& w) { ++cnt; ok = ok && w == S(int(i)); });
  c.check(ok && cnt == n - 1, "DENSE-INTERFACE", [&] { return "block"; });
  x = a.check(false, false, true, false, 0);
  c.check(x.empty(), "WROTE-OUTSIDE", [&] { return x; });
  a.refill();
  Eigen::Map<EVec<S>> m(a.raw.data() + 2, n);
  iface<S>(c, "map", m, n);
  x = a.check(false, false, false, false, 1);
  c.check(x.empty(), "WROTE-OUTSIDE", [&] { return x; });
  EMat<S> mm(n, 3);
  mm.setConstant(guard<S>(3));
  auto col = mm.col(1);
  iface<S>(c, "column", col, n);
  c.check((mm.col(0).array() == guard<S>(3)).all() && (mm.col(2).array() == guard<S>(3)).all(), "WROTE-OUTSIDE");
}
} // namespace
MON_SECTION("interface", 2000, 20000) {
  if(c.r.coin()) ifaces<double>(c);
  else ifaces<std::complex<double>>(c);
}

// Fermionic operators on very large spaces: sparse and mapped storage agree
MON_SECTION("huge", 1500, 20000) {
  auto& r = c.r;
  Sys<int> s;
  int nf = r.range(30, 63);
  for(int i = 0; i < nf; ++i) s.u.add({ref::FERMION, 2}, {i});
  s.build(r, std::vector<u64>(std::size_t(nf), 0));
  std::vector<int> modes;
  for(int m = 0; m < nf; ++m) modes.push_back(m);
  auto e = random_expr<double>(r, s.u, 4, 4, modes);
  c.input(std::to_string(nf) + " fermions, op " + mon::str(e));
  auto op = make_loperator(e, *s.hs);
  AVec in;
  lc::sparse_state_vector<double> v(s.hs->vec_size());
  for(int i = 0; i < 6; ++i) { u64 x = s.random_state(r); double a = random_amp<double>(r); v[x] = a; in[x] = Amp{a, 1}; }
  AVec want = s.act(s.u.read(e), in);
  auto w = op(v);
  auto d = diff(want, collect(w), 0);
  c.check(d.empty(), "SPARSE-HUGE", [&] { return d; });
  // mapped view over an Eigen vector holding exactly the states concerned
  std::unordered_map<lc::sv_index_type, lc::sv_index_type> mp;
  for(auto const& q : want) mp.emplace(q.first, mp.size());
  for(auto const& q : in) mp.emplace(q.first, mp.size());
  Eigen::VectorXd sv = Eigen::VectorXd::Zero(int(mp.size())), dv = Eigen::VectorXd::Constant(int(mp.size()), 9);
  for(auto const& q : in) sv(int(mp[q.first])) = get_element(v, q.first);
  op(lc::mapped_basis_view<Eigen::VectorXd const>(sv, mp), lc::mapped_basis_view<Eigen::VectorXd>(dv, mp));
  std::map<u64, cld> got;
  for(auto const& q : mp) if(dv(int(q.second)) != 0) got[q.first] = dv(int(q.second));
  d = diff(want, got, 0);
  c.check(d.empty(), "MAPPED-HUGE", [&] { return d; });
  c.ev("amplitudes", want.size());
  if(!want.empty()) c.nontrivial(c.in);
}
#endif // PART
