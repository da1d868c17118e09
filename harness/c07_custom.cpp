// C07: user-defined algebras. Families with independent exact representations;
// the library's rewriting is compared with the action of the raw words.
#include "lib.hpp"

using ref::C;
using ref::Q;

namespace {

struct Lin { // constant + linear combination of letters
  Q k = 0;
  std::vector<std::pair<int, Q>> t;
};
using LS = std::vector<int>; // local state
using LV = std::vector<std::pair<Q, LS>>;

// A family of generators (letters 0..n-1 in canonical order) with declared
// relations and an exact representation of the algebra.
struct Family {
  std::string name;
  int n = 0;
  bool consistent = true; // the relations are confluent: unique normal forms
  bool noise = false;     // declare relations with redundant (zero, repeated) terms
  bool real = false;      // declare constants as floating point
  bool rev = false;       // order of generators is opposite to that of indices
  int id = 0;
  virtual ~Family() = default;
  virtual Q swap(int a, int b, Lin& f) const = 0; // a > b
  virtual bool simp(int, int, Lin&) const { return false; }
  virtual bool redpow(int, int, Lin&) const { return false; }
  virtual Lin conj(int a) const { Lin f; f.t.push_back({a, Q(1)}); return f; }
  virtual bool has_conj() const { return false; }
  virtual LV act(int a, LS const& s) const = 0;
  virtual LS random_state(mon::rng& r) const = 0;
};

template <typename... I> struct indexer;
template <> struct indexer<int> {
  static std::tuple<int> get(Family const& f, int l) { return {f.rev ? 40 - 3 * l : 3 * l - 5}; }
};
template <> struct indexer<std::string, int> {
  static std::tuple<std::string, int> get(Family const& f, int l) {
    int k = f.rev ? 30 - l : l;
    return {std::string(1, char('a' + k / 2)), (k % 2) * 7 - 3};
  }
};

using mon::u64;
long long n_relations = 0; // how often the library consulted the relations

template <typename... I> struct ugen : lc::generator<I...> {
  using base = lc::generator<I...>;
  using lf_t = typename base::linear_function_t;
  std::shared_ptr<const Family> fam;
  int letter;
  ugen(std::shared_ptr<const Family> f, int l, std::tuple<I...> const& idx)
    : base(idx), fam(std::move(f)), letter(l) {}
  static std::shared_ptr<const base> make(std::shared_ptr<const Family> const& f, int l) {
    return std::apply([&](auto const&... i) -> std::shared_ptr<const base> {
      return std::make_shared<ugen>(f, l, std::tuple<I...>(i...));
    }, indexer<I...>::get(*f, l));
  }
  int algebra_id() const override { return fam->id; }
  lc::var_number num(Q const& q) const {
    if(fam->real) return lc::var_number(q.get_d());
    if(q.get_den() == 1) return lc::var_number(int(q.get_num().get_si()));
    return lc::var_number(int(q.get_num().get_si()), int(q.get_den().get_si()));
  }
  void put(Lin const& l, lf_t& f) const {
    ++n_relations;
    std::vector<std::pair<std::shared_ptr<const base>, lc::var_number>> ts;
    for(auto const& t : l.t) {
      if(fam->noise) {
        ts.emplace_back(make(fam, (t.first + 1) % fam->n), num(Q(0)));
        ts.emplace_back(make(fam, t.first), num(t.second - 2));
        ts.emplace_back(make(fam, t.first), num(Q(2)));
      } else
        ts.emplace_back(make(fam, t.first), num(t.second));
    }
    // all the ways to fill the result
    lc::var_number k = num(l.k);
    switch(n_relations % 5) {
    case 0: f.set(k, std::move(ts)); return;
    case 1: f.set(k, ts); return;
    case 2: f = lf_t(k, ts); return;
    case 3:
      if(ts.empty()) f.set(k);
      else if(ts.size() == 1) f.set(k, ts[0].first, ts[0].second);
      else if(ts.size() == 2) f.set(k, ts[0].first, ts[0].second, std::move(ts[1].first), ts[1].second);
      else if(ts.size() == 3) f = lf_t(k, ts[0].first, ts[0].second, ts[1].first, ts[1].second, ts[2].first, ts[2].second);
      else f.set(k, ts);
      return;
    default:
      f.const_term = k;
      f.terms.clear();
      for(auto& t : ts) f.terms.push_back(t);
    }
  }
  lc::var_number swap_with(base const& g2, lf_t& f) const override {
    Lin l;
    Q c = fam->swap(letter, dynamic_cast<ugen const&>(g2).letter, l);
    put(l, f);
    return num(c);
  }
  bool simplify_prod(base const& g2, lf_t& f) const override {
    Lin l;
    if(!fam->simp(letter, dynamic_cast<ugen const&>(g2).letter, l)) return false;
    put(l, f);
    return true;
  }
  bool reduce_power(int p, lf_t& f) const override {
    Lin l;
    if(!fam->redpow(letter, p, l)) return false;
    put(l, f);
    return true;
  }
  void conj(lf_t& f) const override { put(fam->conj(letter), f); }

protected:
  bool equal(base const& g) const override {
    auto const& o = dynamic_cast<ugen const&>(g);
    return letter == o.letter;
  }
  bool less(base const& g) const override { return letter < dynamic_cast<ugen const&>(g).letter; }
  bool greater(base const& g) const override { return letter > dynamic_cast<ugen const&>(g).letter; }
};

// --- families ---------------------------------------------------------------

struct Clifford : Family { // e_i e_j = -e_j e_i, e_i^2 = eta_i
  std::vector<int> eta;
  Clifford(std::vector<int> e, char const* nm) : eta(std::move(e)) { name = nm; n = int(eta.size()); }
  Q swap(int, int, Lin&) const override { return -1; }
  bool simp(int a, int b, Lin& f) const override {
    if(a != b) return false;
    f.k = eta[a];
    return true;
  }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s) const override {
    int m = s[0], c = 0;
    for(int j = 0; j < a; ++j) c += (m >> j) & 1;
    Q amp = c % 2 ? -1 : 1;
    if((m >> a) & 1) amp *= eta[a];
    if(sgn(amp) == 0) return {};
    return {{amp, {m ^ (1 << a)}}};
  }
  LS random_state(mon::rng& r) const override { return {r.below(1 << n)}; }
};

struct Quaternion : Family { // per site i,j,k
  bool c0;                   // swap with c = 0 and a linear term
  int sites;
  Quaternion(int s, bool z) : c0(z), sites(s) { n = 3 * s; name = z ? "quaternion/c=0" : "quaternion/c=-1"; }
  // product of units x,y in 0..2 (x != y): sign and unit
  static std::pair<int, int> mul(int x, int y) {
    int z = 3 - x - y;
    return {(y - x + 3) % 3 == 1 ? 1 : -1, z};
  }
  Q swap(int a, int b, Lin& f) const override {
    if(a / 3 != b / 3) return 1;
    if(!c0) return -1;
    auto m = mul(a % 3, b % 3);
    f.t.push_back({a / 3 * 3 + m.second, Q(m.first)});
    return 0;
  }
  bool simp(int a, int b, Lin& f) const override {
    if(a / 3 != b / 3) return false;
    if(a == b) { f.k = -1; return true; }
    auto m = mul(a % 3, b % 3);
    f.t.push_back({a / 3 * 3 + m.second, Q(m.first)});
    return true;
  }
  Lin conj(int a) const override { Lin f; f.t.push_back({a, Q(-1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s0) const override {
    LS s = s0;
    int& u = s[a / 3]; // 0: 1, 1..3: i,j,k
    int x = a % 3;
    if(u == 0) { u = x + 1; return {{Q(1), s}}; }
    if(u - 1 == x) { u = 0; return {{Q(-1), s}}; }
    auto m = mul(x, u - 1);
    u = m.second + 1;
    return {{Q(m.first), s}};
  }
  LS random_state(mon::rng& r) const override {
    LS s;
    for(int i = 0; i < sites; ++i) s.push_back(r.below(4));
    return s;
  }
};

struct QOsc : Family { // a a^+ = q a^+ a + 1; letters a+_0.. a+_{m-1} a_0..
  Q q;
  int m;
  QOsc(Q qq, int mm, char const* nm) : q(qq), m(mm) { n = 2 * m; name = nm; }
  Q swap(int a, int b, Lin& f) const override {
    if(a - b == m) { f.k = 1; return q; }
    return 1;
  }
  Lin conj(int a) const override { Lin f; f.t.push_back({a < m ? a + m : a - m, Q(1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s0) const override {
    LS s = s0;
    if(a < m) { ++s[a]; return {{Q(1), s}}; }
    Q v = 0;
    for(int k = 0; k < s[a - m]; ++k) v = v * q + 1;
    if(sgn(v) == 0) return {};
    --s[a - m];
    return {{v, s}};
  }
  LS random_state(mon::rng& r) const override {
    LS s;
    for(int i = 0; i < m; ++i) s.push_back(r.below(6));
    return s;
  }
};

struct Witt : Family { // [L_m, L_n] = (m-n) L_{m+n}; letter l <-> m = l - 30
  Q al, be;
  Witt(Q a, Q b) : al(a), be(b) { n = 61; name = "witt"; }
  Q swap(int a, int b, Lin& f) const override {
    int k = (a - 30) + (b - 30) + 30;
    if(k < 0 || k >= n) throw mon::skip_case{};
    f.t.push_back({k, Q(a - b)});
    return 1;
  }
  Lin conj(int a) const override { Lin f; f.t.push_back({60 - a, Q(1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s) const override {
    int m = a - 30;
    Q v = -(s[0] + al + be * m);
    if(sgn(v) == 0) return {};
    return {{v, {s[0] + m}}};
  }
  LS random_state(mon::rng& r) const override { return {r.range(-6, 6)}; }
};

struct GL : Family { // Lie algebra gl(N): [E_ij,E_kl] = d_jk E_il - d_li E_kj
  int N;
  explicit GL(int nn) : N(nn) { n = N * N; name = "gl(N)"; }
  Q swap(int a, int b, Lin& f) const override {
    int i = a / N, j = a % N, k = b / N, l = b % N;
    if(j == k) f.t.push_back({i * N + l, Q(1)});
    if(l == i) f.t.push_back({k * N + j, Q(-1)});
    return 1;
  }
  Lin conj(int a) const override { Lin f; f.t.push_back({(a % N) * N + a / N, Q(1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s0) const override {
    int i = a / N, j = a % N;
    if(s0[j] == 0) return {};
    Q v = s0[j];
    LS s = s0;
    --s[j];
    ++s[i];
    return {{v, s}};
  }
  LS random_state(mon::rng& r) const override {
    LS s;
    for(int i = 0; i < N; ++i) s.push_back(r.below(4));
    return s;
  }
};

struct Units : Family { // matrix units: E_ij E_kl = d_jk E_il
  int N;
  explicit Units(int nn) : N(nn) { n = N * N; name = "matrix units"; }
  void prod(int a, int b, Lin& f) const {
    if(a % N == b / N) f.t.push_back({a / N * N + b % N, Q(1)});
  }
  Q swap(int a, int b, Lin& f) const override { prod(a, b, f); return 0; }
  bool simp(int a, int b, Lin& f) const override { prod(a, b, f); return true; }
  Lin conj(int a) const override { Lin f; f.t.push_back({(a % N) * N + a / N, Q(1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s) const override {
    if(s[0] != a % N) return {};
    return {{Q(1), {a / N}}};
  }
  LS random_state(mon::rng& r) const override { return {r.below(N)}; }
};

// Commuting X_i with X_i^p = c0 + c1 X_i
struct PowerLin : Family {
  int p;
  Q c0, c1;
  PowerLin(int m, int pp, Q a, Q b, char const* nm) : p(pp), c0(a), c1(b) { n = m; name = nm; }
  Q swap(int, int, Lin&) const override { return 1; }
  bool simp(int a, int b, Lin& f) const override {
    if(p != 2 || a != b) return false;
    f.k = c0;
    if(sgn(c1)) f.t.push_back({a, c1});
    return true;
  }
  bool redpow(int a, int pw, Lin& f) const override {
    if(p == 2 || pw != p) return false;
    f.k = c0;
    if(sgn(c1)) f.t.push_back({a, c1});
    return true;
  }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s0) const override {
    LS s = s0;
    if(s[a] + 1 < p) { ++s[a]; return {{Q(1), s}}; }
    LV v;
    if(sgn(c0)) { s[a] = 0; v.push_back({c0, s}); }
    if(sgn(c1)) { s[a] = 1; v.push_back({c1, s}); }
    return v;
  }
  LS random_state(mon::rng& r) const override {
    LS s;
    for(int i = 0; i < n; ++i) s.push_back(r.below(p));
    return s;
  }
};

// Commuting letters; one of them, x, has x^3 = y (another letter)
struct CubeIs : Family {
  int x, y;
  explicit CubeIs(bool up) : x(up ? 0 : 2), y(up ? 2 : 0) { n = 3; name = up ? "x^3=y,x<y" : "x^3=y,x>y"; }
  Q swap(int, int, Lin&) const override { return 1; }
  bool redpow(int a, int pw, Lin& f) const override {
    if(a != x || pw != 3) return false;
    f.t.push_back({y, Q(1)});
    return true;
  }
  LV act(int a, LS const& s0) const override { // states: exponents of x (y = x^3) and of the middle letter
    LS s = s0;
    if(a == 1) ++s[1];
    else s[0] += a == x ? 1 : 3;
    return {{Q(1), s}};
  }
  LS random_state(mon::rng& r) const override { return {r.below(4), r.below(4)}; }
};

// yx = q xy (and zx, zy alike), optionally x_i^4 = 1 for q = -1
struct QPlane : Family {
  Q q;
  int p;
  QPlane(Q qq, int nn, int pp, char const* nm) : q(qq), p(pp) { n = nn; name = nm; }
  Q swap(int, int, Lin&) const override { return q; }
  bool redpow(int, int pw, Lin& f) const override {
    if(p == 0 || pw != p) return false;
    f.k = 1;
    return true;
  }
  LV act(int a, LS const& s0) const override { // left multiplication of x_0^e0 x_1^e1 ...
    LS s = s0;
    Q v = 1;
    for(int j = 0; j < a; ++j)
      for(int k = 0; k < s[j]; ++k) v *= q;
    ++s[a];
    if(p && s[a] == p) s[a] = 0;
    if(sgn(v) == 0) return {};
    return {{v, s}};
  }
  LS random_state(mon::rng& r) const override {
    LS s;
    for(int i = 0; i < n; ++i) s.push_back(r.below(3));
    return s;
  }
};

// Commuting x < y < z with y^p = 1 (or 2) and xz = 1, xz = y, x*x = z ...
// Not confluent in general (x y z is stuck): only exhaustive rewriting and
// soundness are required.
struct Stuck : Family {
  int p, variant;
  Stuck(int pp, int v) : p(pp), variant(v) { n = 3; consistent = false; name = "x<y<z,y^p=1,xz=1"; }
  Q swap(int, int, Lin&) const override { return 1; }
  bool simp(int a, int b, Lin& f) const override {
    if(a == 0 && b == 2) {
      if(variant == 0) f.k = 1;
      else f.t.push_back({1, Q(1)}); // xz = y
      return true;
    }
    if(p == 2 && a == 1 && b == 1) { f.k = 1; return true; }
    return false;
  }
  bool redpow(int a, int pw, Lin& f) const override {
    if(p == 2 || a != 1 || pw != p) return false;
    f.k = 1;
    return true;
  }
  LV act(int a, LS const& s0) const override { // x = t, z = t^-1 (y); y = cyclic
    LS s = s0;
    if(a == 0) s[0] += 1;
    else if(a == 1) s[1] = (s[1] + 1) % p;
    else { s[0] -= 1; if(variant) s[1] = (s[1] + 1) % p; }
    return {{Q(1), s}};
  }
  LS random_state(mon::rng& r) const override { return {r.range(-3, 3), r.below(p)}; }
};

// Projectors with P^+ = 1 - P, commuting with each other
struct Proj : Family {
  explicit Proj(int m) { n = m; name = "P*P=P,P^+=1-P"; }
  Q swap(int, int, Lin&) const override { return 1; }
  bool simp(int a, int b, Lin& f) const override {
    if(a != b) return false;
    f.t.push_back({a, Q(1)});
    return true;
  }
  Lin conj(int a) const override { Lin f; f.k = 1; f.t.push_back({a, Q(-1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s) const override {
    if(!((s[0] >> a) & 1)) return {};
    return {{Q(1), s}};
  }
  LS random_state(mon::rng& r) const override { return {r.below(1 << n)}; }
};

// Hadamard-type: X^2 = Z^2 = 1, ZX = -XZ, conj swaps X and Z
struct SwapConj : Family {
  SwapConj() { n = 2; name = "pauli,X^+=Z"; }
  Q swap(int, int, Lin&) const override { return -1; }
  bool simp(int a, int b, Lin& f) const override {
    if(a != b) return false;
    f.k = 1;
    return true;
  }
  Lin conj(int a) const override { Lin f; f.t.push_back({1 - a, Q(1)}); return f; }
  bool has_conj() const override { return true; }
  LV act(int a, LS const& s) const override {
    if(a == 0) return {{Q(1), {1 - s[0]}}};
    return {{Q(s[0] ? -1 : 1), s}};
  }
  LS random_state(mon::rng& r) const override { return {r.below(2)}; }
};

// Anticommuting products with a linear term: Fibonacci-like algebra
// ba = -ab + 2 + 3a - b realised by 2x2 matrices is not needed; the generic
// "linear exchange" a1 a0 = c a0 a1 + k + u a0 (Ore extension):
// a1 = x acts on polynomials in a0 = t as x f(t) = f(ct) x + D f, module x.1 = 0
struct Ore : Family {
  Q c, k, u;
  Ore(Q cc, Q kk, Q uu) : c(cc), k(kk), u(uu) { n = 2; name = "ore"; }
  Q swap(int, int, Lin& f) const override {
    f.k = k;
    if(sgn(u)) f.t.push_back({0, u});
    return c;
  }
  LV act(int a, LS const& s) const override {
    if(a == 0) return {{Q(1), {s[0] + 1}}};
    // x t^m = c t (x t^{m-1}) + k t^{m-1} + u t^m, x t^0 = 0
    int m = s[0];
    Q hi = 0, lo = 0; // x t^m = hi t^m + lo t^{m-1}
    for(int j = 1; j <= m; ++j) { hi = c * hi + u; lo = c * lo + k; }
    LV v;
    if(sgn(hi)) v.push_back({hi, {m}});
    if(sgn(lo)) v.push_back({lo, {m - 1}});
    return v;
  }
  LS random_state(mon::rng& r) const override { return {r.below(6)}; }
};

// Built-in algebras
struct Builtin {
  ref::Model model;
  std::vector<int> idx;
};

std::shared_ptr<Family> random_family(mon::rng& r) {
  switch(r.below(26)) {
  case 0: return std::make_shared<Clifford>(std::vector<int>{1, -1, -1, -1}, "gamma matrices");
  case 1: return std::make_shared<Clifford>(std::vector<int>{0, 0, 0, 0, 0}, "grassmann");
  case 2: return std::make_shared<Clifford>(std::vector<int>{1, 0, -1, 2, -3}, "clifford mixed");
  case 3: return std::make_shared<Quaternion>(2, false);
  case 4: return std::make_shared<Quaternion>(2, true);
  case 5: return std::make_shared<QOsc>(Q(2), 2, "q-osc q=2");
  case 6: return std::make_shared<QOsc>(Q(0), 2, "q-osc q=0");
  case 7: return std::make_shared<QOsc>(Q(-1), 2, "q-osc q=-1");
  case 8: return std::make_shared<QOsc>(Q(1, 2), 2, "q-osc q=1/2");
  case 9: return std::make_shared<QOsc>(Q(1), 2, "q-osc q=1");
  case 10: return std::make_shared<Witt>(Q(1, 2), Q(2));
  case 11: return std::make_shared<Witt>(Q(0), Q(-1));
  case 12: return std::make_shared<GL>(2 + r.below(2));
  case 13: return std::make_shared<Units>(2 + r.below(2));
  case 14: return std::make_shared<PowerLin>(2, 3, Q(2), Q(3), "X^3=2+3X");
  case 15: return std::make_shared<PowerLin>(2, 4, Q(1), Q(0), "X^4=1");
  case 16: return std::make_shared<PowerLin>(2, 3, Q(0), Q(0), "X^3=0");
  case 17: return std::make_shared<PowerLin>(2, 5, Q(-1), Q(1), "X^5=X-1");
  case 18: return std::make_shared<PowerLin>(3, 2, Q(1), Q(1), "X^2=X+1");
  case 19: return std::make_shared<CubeIs>(r.coin());
  case 20: return std::make_shared<QPlane>(r.coin() ? Q(2) : (r.coin() ? Q(1, 2) : Q(0)), 3, 0, "quantum plane");
  case 21: return std::make_shared<QPlane>(Q(-1), 2, 4, "yx=-xy,x^4=y^4=1");
  case 22: return std::make_shared<Stuck>(r.range(2, 4), r.below(2));
  case 23: return std::make_shared<Proj>(3);
  case 24: return std::make_shared<SwapConj>();
  default: {
    Q cs[] = {Q(0), Q(1), Q(-1), Q(2), Q(1, 2)}, ks[] = {Q(0), Q(1), Q(-2)}, us[] = {Q(0), Q(1), Q(-1), Q(3)};
    return std::make_shared<Ore>(cs[r.below(5)], ks[r.below(3)], us[r.below(4)]);
  }
  }
}

struct Let { int fam, l; ref::Letter b; }; // fam = -1: built-in
using GW = std::vector<Let>;
struct GPoly { std::vector<std::pair<C, GW>> t; };
struct GState {
  std::vector<LS> f;
  ref::St b;
  friend bool operator<(GState const& x, GState const& y) { return std::tie(x.b, x.f) < std::tie(y.b, y.f); }
  friend bool operator==(GState const& x, GState const& y) { return x.b == y.b && x.f == y.f; }
};
using GVec = std::map<GState, C>;

template <typename... I> struct World {
  std::vector<std::shared_ptr<Family>> fam;
  ref::Universe<I...> u; // built-in fermions and bosons
  using gptr = std::shared_ptr<const lc::generator<I...>>;

  gptr gen(Let x) const { return x.fam < 0 ? u.gen(x.b) : ugen<I...>::make(fam[x.fam], x.l); }
  Let read(lc::generator<I...> const& g) const {
    if(auto p = dynamic_cast<ugen<I...> const*>(&g)) {
      for(int i = 0; i < int(fam.size()); ++i)
        if(fam[i] == p->fam) return {i, p->letter, {}};
      throw ref::bad_content("foreign family");
    }
    return {-1, 0, u.read(g)};
  }
  template <typename S> GPoly read(lc::expression<S, I...> const& e) const {
    GPoly p;
    for(auto const& t : e) {
      GW w;
      for(auto const& g : t.monomial) w.push_back(read(g));
      p.t.push_back({ref::to_c(t.coeff), std::move(w)});
    }
    return p;
  }
  std::string show(GW const& w) const {
    std::string s;
    for(auto const& x : w)
      s += x.fam < 0 ? u.model.show(ref::Word{x.b}) : "f" + std::to_string(x.fam) + "." + std::to_string(x.l) + " ";
    return s;
  }
  std::string show(GPoly const& p) const {
    std::string s;
    for(auto const& t : p.t) s += "[" + t.first.str() + "]" + show(t.second) + "; ";
    return s;
  }
  std::string show(GVec const& v) const {
    std::string s = "{";
    for(auto const& p : v) {
      s += "|" + std::to_string(p.first.b) + ";";
      for(auto const& l : p.first.f) s += mon::vstr(l);
      s += "):" + p.second.str() + " ";
    }
    return s + "}";
  }
  GState random_state(mon::rng& r) const {
    GState s;
    for(auto const& f : fam) s.f.push_back(f->random_state(r));
    s.b = 0;
    for(int m = 0; m < u.size(); ++m)
      s.b = ref::Model::with(s.b, m, u.model.modes[m].alg == ref::FERMION ? r.below(2) : r.below(5));
    return s;
  }
  GVec act(GPoly const& p, GState const& s0) const {
    GVec res;
    for(auto const& t : p.t) {
      GVec v{{s0, t.first}};
      for(auto it = t.second.rbegin(); it != t.second.rend() && !v.empty(); ++it) {
        GVec w;
        for(auto const& x : v) {
          if(it->fam < 0) {
            GState s = x.first;
            Q amp = 1;
            if(u.model.act(it->b, s.b, amp)) w[s] += x.second * C(amp);
          } else
            for(auto const& o : fam[it->fam]->act(it->l, x.first.f[it->fam])) {
              GState s = x.first;
              s.f[it->fam] = o.second;
              w[s] += x.second * C(o.first);
            }
        }
        v.swap(w);
      }
      for(auto const& x : v) res[x.first] += x.second;
    }
    for(auto it = res.begin(); it != res.end();) it = it->second.zero() ? res.erase(it) : std::next(it);
    return res;
  }
  // Is any declared relation still applicable to the word?
  std::string reducible(GW const& w) const {
    int run = 1;
    for(std::size_t i = 0; i < w.size(); ++i) {
      if(i + 1 < w.size()) {
        auto const &a = w[i], &b = w[i + 1];
        auto ka = std::make_pair(a.fam < 0 ? u.model.modes[a.b.mode].alg : fam[a.fam]->id, 0);
        auto kb = std::make_pair(b.fam < 0 ? u.model.modes[b.b.mode].alg : fam[b.fam]->id, 0);
        if(ka.first > kb.first) return "algebras out of order: " + show(w);
        if(a.fam >= 0 && a.fam == b.fam) {
          Lin f;
          if(a.l > b.l) return "generators out of order: " + show(w);
          if(fam[a.fam]->simp(a.l, b.l, f)) return "simplifiable product left: " + show(w);
        }
        if(a.fam < 0 && b.fam < 0 && u.key(a.b) > u.key(b.b)) return "built-in out of order: " + show(w);
        if(a.fam < 0 && b.fam < 0 && a.b == b.b && u.model.modes[a.b.mode].alg == ref::FERMION)
          return "squared fermion left: " + show(w);
      }
      run = (i > 0 && w[i].fam >= 0 && w[i].fam == w[i - 1].fam && w[i].l == w[i - 1].l) ? run + 1 : 1;
      if(run > 2) {
        Lin f;
        if(fam[w[i].fam]->redpow(w[i].l, run, f)) return "reducible power left: " + show(w);
      }
    }
    return "";
  }
  template <typename S> std::string stored(lc::expression<S, I...> const& e) const {
    lc::monomial<I...> const* prev = nullptr;
    for(auto const& kv : e.get_monomials()) {
      if(ref::to_c(kv.second).zero()) return "zero coefficient stored";
      GW w;
      for(auto const& g : kv.first) w.push_back(read(g));
      auto x = reducible(w);
      if(!x.empty()) return x;
      if(prev && !(*prev < kv.first)) return "monomials not increasing";
      prev = &kv.first;
    }
    return "";
  }
};

int dm(GPoly const& p) {
  std::size_t m = 0;
  for(auto const& t : p.t) m = std::max(m, t.second.size());
  return int(m);
}

template <typename S, typename... I> void run(mon::Case& c, bool with_conj) {
  auto& r = c.r;
  World<I...> W;
  int nf = r.range(1, 3);
  int id = r.below(3);
  bool all_consistent = true;
  for(int i = 0; i < nf; ++i) {
    auto f = random_family(r);
    if(with_conj && !f->has_conj()) { --i; continue; }
    if(f->n > 30 && f->rev) f->rev = false;
    f->rev = f->n <= 12 && r.coin(0.3);
    f->noise = f->n > 1 && r.coin(0.15) && f->name != "witt";
    f->real = !std::is_same<S, mpq_class>::value && r.coin(0.3);
    f->id = id;
    id += r.range(1, 5);
    all_consistent = all_consistent && f->consistent;
    W.fam.push_back(f);
  }
  if constexpr(sizeof...(I) == 1) {
    if(r.coin(0.5)) {
      W.u.add({ref::FERMION, 2}, {1});
      W.u.add({ref::FERMION, 2}, {4});
      W.u.add({ref::BOSON, 2}, {2});
    }
  }
  auto letter = [&]() -> Let {
    if(W.u.size() && r.coin(0.25)) { int m = r.below(W.u.size()); return {-1, 0, ref::random_letter(r, W.u.model, m)}; }
    int f = r.below(nf);
    if(W.fam[f]->name == "witt") return {f, 30 + r.range(-3, 3), {}};
    return {f, r.below(W.fam[f]->n), {}};
  };
  auto word = [&](int len) {
    GW w;
    Let last = letter();
    for(int i = 0; i < len; ++i) {
      if(!r.coin(0.35)) last = letter();
      w.push_back(last);
    }
    return w;
  };
  using E = lc::expression<S, I...>;
  auto mono = [&](GW const& w) {
    std::vector<typename World<I...>::gptr> g;
    for(auto const& x : w) g.push_back(W.gen(x));
    return lc::monomial<I...>(std::move(g));
  };
  auto build = [&](GPoly& p, int terms, int len) {
    E e;
    for(int i = 0; i < terms; ++i) {
      C k = ref::random_coeff<S>(r);
      GW w = word(r.range(1, len));
      e += E(ref::as<S>(k), mono(w));
      p.t.push_back({k, w});
    }
    return e;
  };
  auto mulp = [](GPoly const& a, GPoly const& b) {
    GPoly q;
    for(auto const& x : a.t)
      for(auto const& y : b.t) {
        GW w = x.second;
        w.insert(w.end(), y.second.begin(), y.second.end());
        q.t.push_back({x.first * y.first, w});
      }
    return q;
  };
  GPoly pa, pb, pc;
  bool pw = r.coin(0.25);
  auto base_rel = n_relations;
  std::string desc = "families:";
  for(auto const& f : W.fam) desc += " " + f->name + (f->noise ? "(noise)" : "") + (f->real ? "(real)" : "") + "@" + std::to_string(f->id);
  c.input(desc);
  c.phase("build");
  E a = build(pa, r.range(1, 2), pw ? 5 : 4), b = build(pb, r.range(1, 2), 3), d = build(pc, 1, 2);
  c.input(desc + " | a=" + W.show(pa) + " | b=" + W.show(pb) + " | c=" + W.show(pc));

  auto compare = [&](E const& e, GPoly const& p, char const* what) {
    auto st = W.stored(e);
    if(!c.check(st.empty(), "NOT-FULLY-REDUCED", [&] { return std::string(what) + ": " + st; })) return;
    GPoly got = W.read(e);
    int reps = dm(p) > 6 ? 4 : 6;
    for(int i = 0; i < reps; ++i) {
      GState s = W.random_state(r);
      GVec x = W.act(got, s), y = W.act(p, s);
      c.ev("states compared");
      if(!c.check(x == y, "WRONG-ACTION", [&] {
           return std::string(what) + " = " + W.show(got) + " on " + W.show(GVec{{s, C(1)}}) + ": library " +
                  W.show(x) + " reference " + W.show(y);
         }))
        return;
    }
  };
  c.phase("compare");
  compare(a, pa, "a");
  compare(b, pb, "b");
  c.phase("product");
  E ab = a * b;
  GPoly pab = mulp(pa, pb);
  compare(ab, pab, "a*b");
  c.phase("triple product");
  E abc1 = ab * d, abc2 = a * E(b * d);
  compare(abc1, mulp(pab, pc), "(a*b)*c");
  compare(abc2, mulp(pab, pc), "a*(b*c)");
  if(all_consistent)
    c.check(abc1 == abc2, "NOT-ASSOCIATIVE", [&] { return mon::str(abc1) + " vs " + mon::str(abc2); });
  if(pw) {
    c.phase("powers");
    E e = b;
    GPoly pe = pb;
    int n = r.range(2, 5);
    if(pb.t.size() == 1 || n <= 3) {
      for(int i = 1; i < n; ++i) { e *= b; pe = mulp(pe, pb); }
      compare(e, pe, "b^n");
      c.ev("powers");
    }
  }
  // Generators of different algebras commute
  if(nf > 1 || W.u.size()) {
    Let x = letter(), y = letter();
    if(x.fam != y.fam) {
      E ex(ref::as<S>(C(1)), mono({x})), ey(ref::as<S>(C(1)), mono({y}));
      c.check(E(ex * ey - ey * ex).size() == 0, "DIFFERENT-ALGEBRAS-DO-NOT-COMMUTE", [&] { return W.show(GW{x, y}); });
      c.ev("commuting pairs");
    }
  }
  if(with_conj) {
    c.phase("conj");
    bool exact = true;
    (void)exact;
    auto adj = [&](GPoly const& p) {
      GPoly q;
      for(auto const& t : p.t) {
        GPoly acc;
        acc.t.push_back({t.first.conj(), {}});
        for(auto it = t.second.rbegin(); it != t.second.rend(); ++it) {
          GPoly l;
          if(it->fam < 0) {
            Let x = *it;
            x.b.kind = 1 - x.b.kind;
            l.t.push_back({C(1), {x}});
          } else {
            Lin f = W.fam[it->fam]->conj(it->l);
            if(sgn(f.k)) l.t.push_back({C(f.k), {}});
            for(auto const& z : f.t) l.t.push_back({C(z.second), {Let{it->fam, z.first, {}}}});
          }
          acc = mulp(acc, l);
        }
        q.t.insert(q.t.end(), acc.t.begin(), acc.t.end());
      }
      return q;
    };
    E ca = conj(a), cab = conj(ab);
    compare(ca, adj(pa), "conj(a)");
    compare(cab, adj(pab), "conj(a*b)");
    c.check(conj(ca) == a, "CONJ-NOT-INVOLUTION", [&] { return mon::str(a) + " / " + mon::str(ca); });
    c.check(E(conj(b) * ca) == cab, "CONJ-PRODUCT", [&] { return mon::str(cab); });
    c.ev("conjugates", 2);
  }
  c.ev("relations consulted", u64(n_relations - base_rel));
  c.nontrivial(c.in);
}

using mon::u64;
} // namespace

MON_SECTION("mpq", 6000, 90000) { run<mpq_class, int>(c, c.r.coin(0.3)); }
MON_SECTION("real", 3000, 45000) { run<double, int>(c, c.r.coin(0.3)); }
MON_SECTION("complex", 2000, 30000) { run<std::complex<double>, int>(c, c.r.coin(0.4)); }
MON_SECTION("string-int", 2000, 30000) { run<mpq_class, std::string, int>(c, c.r.coin(0.3)); }
