// C25: printed expressions. The text is compared with an independent model of the notation and
// read back by an independent parser.
#include "lib.hpp"
#include <boost/rational.hpp>
#include <iomanip>
#include <libcommute/scalars/boost_rational.hpp>

using ref::Letter;
using ref::Universe;
using ref::Word;
namespace {
using D = libcommute::dynamic_indices::dyn_indices;
using cd = std::complex<double>;

// --- notation ------------------------------------------------------------------
std::string show_index(int i) { return std::to_string(i); }
std::string show_index(std::string const& s) { return s; }
std::string show_index(D const& d) {
  std::string s;
  bool first = true;
  for(auto const& x : static_cast<D::indices_t const&>(d)) {
    if(!first) s += ",";
    first = false;
    if(std::holds_alternative<int>(x)) s += std::to_string(std::get<int>(x));
    else s += std::get<std::string>(x);
  }
  return s;
}
template <typename... I> std::string show_tuple(std::tuple<I...> const& t) {
  std::string s;
  std::size_t k = 0;
  std::apply([&](auto const&... x) { ((s += (k++ ? "," : ""), s += show_index(x)), ...); }, t);
  return s;
}
template <typename... I> std::string show_letter(Universe<I...> const& u, Letter l) {
  auto const& m = u.model.modes[l.mode];
  std::string s;
  if(m.alg == ref::FERMION) s = l.kind ? "C+" : "C";
  else if(m.alg == ref::BOSON) s = l.kind ? "A+" : "A";
  else {
    s = "S";
    if(m.mult % 2) s += std::to_string(m.mult / 2);
    else if(m.mult != 2) s += std::to_string(m.mult - 1) + "/2";
    s += l.kind == 0 ? "+" : l.kind == 1 ? "-" : "z";
  }
  return s + "(" + show_tuple(u.idx[l.mode]) + ")";
}
template <typename... I> std::string show_word(Universe<I...> const& u, Word const& w) {
  std::string s;
  for(std::size_t i = 0; i < w.size();) {
    std::size_t j = i;
    while(j < w.size() && w[j].mode == w[i].mode && w[j].kind == w[i].kind) ++j;
    std::string g = show_letter(u, w[i]);
    s += j - i == 1 ? g : "[" + g + "]^" + std::to_string(j - i);
    i = j;
  }
  return s;
}
template <typename S> std::string show_coeff(S const& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
std::string show_real(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
std::string show_coeff(double x) { return show_real(x); }
std::string show_coeff(cd const& x) { return "(" + show_real(x.real()) + "," + show_real(x.imag()) + ")"; }
std::string show_coeff(int x) { return std::to_string(x); }
std::string show_coeff(mpq_class const& q) { return q.get_den() == 1 ? q.get_num().get_str() : q.get_num().get_str() + "/" + q.get_den().get_str(); }
std::string show_coeff(boost::rational<int> const& q) { return std::to_string(q.numerator()) + "/" + std::to_string(q.denominator()); }

// --- reading back ----------------------------------------------------------------
struct bad_text : std::runtime_error { using std::runtime_error::runtime_error; };
struct Reader {
  std::string s;
  std::size_t p = 0;
  bool end() const { return p >= s.size(); }
  bool at(std::string const& x) const { return s.compare(p, x.size(), x) == 0; }
  bool take(std::string const& x) { if(!at(x)) return false; p += x.size(); return true; }
  void need(std::string const& x) { if(!take(x)) throw bad_text("expected '" + x + "' at " + std::to_string(p)); }
  std::string until(std::string const& stop) {
    std::size_t q = p;
    while(q < s.size() && stop.find(s[q]) == std::string::npos) ++q;
    std::string r = s.substr(p, q - p);
    p = q;
    return r;
  }
  int number() {
    std::size_t q = p;
    while(q < s.size() && std::isdigit(static_cast<unsigned char>(s[q]))) ++q;
    if(q == p) throw bad_text("number expected at " + std::to_string(p));
    int n = std::atoi(s.substr(p, q - p).c_str());
    p = q;
    return n;
  }
};
std::vector<std::string> split(std::string const& s) {
  std::vector<std::string> v(1);
  for(char ch : s) if(ch == ',') v.emplace_back(); else v.back() += ch;
  return v;
}
bool is_int(std::string const& s) { return !s.empty() && s.find_first_not_of("-0123456789") == std::string::npos && s != "-"; }
void read_index(std::string const& s, int& x) { if(!is_int(s)) throw bad_text("index " + s); x = std::stoi(s); }
void read_index(std::string const& s, std::string& x) { x = s; }
template <typename... I> std::tuple<I...> read_indices(std::string const& s) {
  std::tuple<I...> t;
  if(sizeof...(I) == 0) { if(!s.empty()) throw bad_text("indices " + s); return t; }
  auto v = split(s);
  if(v.size() != sizeof...(I)) throw bad_text("number of indices " + s);
  std::size_t k = 0;
  std::apply([&](auto&... x) { (read_index(v[k++], x), ...); }, t);
  return t;
}
template <> std::tuple<D> read_indices<D>(std::string const& s) {
  D::indices_t v;
  if(!s.empty())
    for(auto const& x : split(s)) { if(is_int(x)) v.emplace_back(std::stoi(x)); else v.emplace_back(x); }
  return {D(std::move(v))};
}
void read_coeff(std::string const& s, double& x) { char* e; x = std::strtod(s.c_str(), &e); if(*e || s.empty()) throw bad_text("coefficient " + s); }
void read_coeff(std::string const& s, int& x) { read_index(s, x); }
void read_coeff(std::string const& s, mpq_class& x) { if(x.set_str(s, 10)) throw bad_text("coefficient " + s); x.canonicalize(); }
void read_coeff(std::string const& s, cd& x) {
  if(s.size() < 5 || s[0] != '(' || s.back() != ')') throw bad_text("coefficient " + s);
  auto v = split(s.substr(1, s.size() - 2));
  if(v.size() != 2) throw bad_text("coefficient " + s);
  double a, b;
  read_coeff(v[0], a);
  read_coeff(v[1], b);
  x = cd(a, b);
}
void read_coeff(std::string const& s, boost::rational<int>& x) {
  auto k = s.find('/');
  if(k == std::string::npos) throw bad_text("coefficient " + s);
  x = boost::rational<int>(std::stoi(s.substr(0, k)), std::stoi(s.substr(k + 1)));
}
template <typename S, typename... I> lc::expression<S, I...> parse(std::string const& text, int* n_terms) {
  using E = lc::expression<S, I...>;
  using gptr = std::shared_ptr<const lc::generator<I...>>;
  Reader r{text};
  E e;
  *n_terms = 0;
  for(bool first = true; !r.end(); first = false) {
    if(!first) r.need(" + ");
    S c;
    std::string cs;
    if(r.at("(")) { cs = r.until(")"); r.need(")"); cs += ")"; }
    else cs = r.until("* ");
    read_coeff(cs, c);
    ++*n_terms;
    std::vector<gptr> g;
    if(r.take("*")) {
      while(!r.end() && !r.at(" + ")) {
        bool pw = r.take("[");
        std::string name = r.until("(");
        r.need("(");
        auto idx = read_indices<I...>(r.until(")"));
        r.need(")");
        int n = 1;
        if(pw) { r.need("]^"); n = r.number(); if(n < 2) throw bad_text("power"); }
        gptr q = std::apply([&](auto const&... i) -> gptr {
          if(name == "C" || name == "C+") return std::make_shared<lc::generator_fermion<I...>>(name == "C+", i...);
          if(name == "A" || name == "A+") return std::make_shared<lc::generator_boson<I...>>(name == "A+", i...);
          if(name.size() < 2 || name[0] != 'S') throw bad_text("generator " + name);
          char k = name.back();
          int sc = k == '+' ? 0 : k == '-' ? 1 : k == 'z' ? 2 : -1;
          if(sc < 0) throw bad_text("component " + name);
          std::string m = name.substr(1, name.size() - 2);
          if(m.empty()) return std::make_shared<lc::generator_spin<I...>>(lc::spin_component(sc), i...);
          double spin = m.size() > 2 && m.substr(m.size() - 2) == "/2" ? std::stoi(m.substr(0, m.size() - 2)) / 2.0 : std::stoi(m);
          return std::make_shared<lc::generator_spin<I...>>(spin, lc::spin_component(sc), i...);
        }, idx);
        for(int i = 0; i < n; ++i) g.push_back(q);
      }
      if(g.empty()) throw bad_text("no generators");
    }
    e += E(c, lc::monomial<I...>(std::move(g)));
  }
  return e;
}

// --- universes -------------------------------------------------------------------
template <typename... I> struct pool;
template <> struct pool<> { static std::vector<std::tuple<>> get(mon::rng&, bool) { return {{}}; } };
template <> struct pool<int> {
  static std::vector<std::tuple<int>> get(mon::rng& r, bool) {
    std::vector<std::tuple<int>> v;
    for(int i = 0; i < 5; ++i) v.emplace_back(r.below(4) ? r.range(-12, 12) : int(r.next()));
    return v;
  }
};
std::vector<std::string> strings(bool odd) {
  std::vector<std::string> v{"", "a", "b", "up", "dn", "x_1", "C", "Sz", "very long index which is not stored inline", "A+", "-", "a b"};
  if(odd) for(char const* s : {",", "(", ")", "]^2", "[C+(1)]^2", " + ", "1", "*", "1,2"}) v.push_back(s);
  else v.pop_back();
  return v;
}
template <> struct pool<std::string> {
  static std::vector<std::tuple<std::string>> get(mon::rng& r, bool odd) {
    auto s = strings(odd);
    std::vector<std::tuple<std::string>> v;
    for(int i = 0; i < 5; ++i) v.emplace_back(r.pick(s));
    return v;
  }
};
template <> struct pool<std::string, int> {
  static std::vector<std::tuple<std::string, int>> get(mon::rng& r, bool odd) {
    auto s = strings(odd);
    std::vector<std::tuple<std::string, int>> v;
    for(int i = 0; i < 5; ++i) v.emplace_back(r.pick(s), r.range(-3, 12));
    return v;
  }
};
template <> struct pool<int, std::string, int> {
  static std::vector<std::tuple<int, std::string, int>> get(mon::rng& r, bool odd) {
    auto s = strings(odd);
    std::vector<std::tuple<int, std::string, int>> v;
    for(int i = 0; i < 5; ++i) v.emplace_back(r.range(-30, 30), r.pick(s), r.range(-1, 1));
    return v;
  }
};
template <> struct pool<D> {
  static std::vector<std::tuple<D>> get(mon::rng& r, bool odd) {
    auto s = strings(odd);
    std::vector<std::tuple<D>> v;
    for(int i = 0; i < 5; ++i) {
      D::indices_t x;
      for(int n = r.below(4); n > 0; --n) {
        if(r.coin()) x.emplace_back(r.range(-12, 12));
        else x.emplace_back(r.pick(s));
      }
      // a single empty string looks like no index at all
      if(!odd && x.size() == 1 && std::holds_alternative<std::string>(x[0]) && std::get<std::string>(x[0]).empty()) x.clear();
      v.emplace_back(D(std::move(x)));
    }
    return v;
  }
};
template <typename... I> Universe<I...> universe(mon::rng& r, bool odd) {
  Universe<I...> u;
  std::set<std::tuple<I...>> f, b;
  std::set<std::pair<int, std::tuple<I...>>> s;
  auto p = pool<I...>::get(r, odd);
  for(int n = r.range(1, 4); n > 0; --n) {
    auto i = r.pick(p);
    switch(r.below(3)) {
    case 0: f.insert(i); break;
    case 1: b.insert(i); break;
    default: s.insert({r.coin(0.3) ? 2 : r.coin(0.8) ? r.range(2, 6) : r.range(7, 30), i});
    }
  }
  for(auto const& i : f) u.add({ref::FERMION, 2}, i);
  for(auto const& i : b) u.add({ref::BOSON, 2}, i);
  for(auto const& i : s) u.add({ref::SPIN, i.first}, i.second);
  return u;
}

template <typename T> std::string text(T const& x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}

// zero parts of complex numbers have a sign, which equality ignores
std::string unsigned0(std::string t) {
  for(std::size_t p = 0; (p = t.find("(-0,", p)) != std::string::npos;) t.erase(p + 1, 1);
  for(std::size_t p = 0; (p = t.find(",-0)", p)) != std::string::npos;) t.erase(p + 1, 1);
  return t;
}

template <typename S, typename... I> void round_trip(mon::Case& c) {
  auto& r = c.r;
  using E = lc::expression<S, I...>;
  bool odd = r.coin(0.25);
  auto u = universe<I...>(r, odd);
  c.phase("program");
  auto a = ref::random_program<S>(r, u, r.range(0, 6), 40, 7);
  E e = a.e;
  if(r.coin(0.03)) e = e - e;
  E const before = e;
  c.phase("printing");
  std::ostringstream o;
  o.precision(17);
  auto flags = o.flags();
  auto fill = o.fill();
  o << e;
  std::string t = o.str();
  c.input(t);
  c.check(o.flags() == flags && o.precision() == 17 && o.fill() == fill && o.good(), "STREAM-STATE-CHANGED");
  c.check(e == before, "EXPRESSION-CHANGED");
  c.check(text(e) == t, "PRINTED-DIFFERENTLY", [&] { return t + " vs " + text(e); });
  // the notation
  std::string want;
  for(auto const& x : e) {
    if(!want.empty()) want += " + ";
    want += show_coeff(x.coeff);
    Word w = u.read(x.monomial);
    std::string m = show_word(u, w);
    if(!w.empty()) want += "*" + m;
    c.check(text(x.monomial) == m, "MONOMIAL-TEXT", [&] { return text(x.monomial) + " expected " + m; });
    for(auto const& g : x.monomial) {
      std::string gt = show_letter(u, u.read(g));
      c.check(text(g) == gt && g.to_string() == gt, "GENERATOR-TEXT", [&] { return text(g) + " expected " + gt; });
    }
    c.ev("terms");
  }
  if(e.size() == 0) want = show_coeff(S(0));
  c.check(t == want, "TEXT", [&] { return t + " expected " + want; });
  std::string can = u.canonical(e);
  c.check(can.empty(), "ORDER", [&] { return can; });
  // reading back
  if(!odd) {
    int n = 0;
    c.phase("parsing");
    try {
      E back = parse<S, I...>(t, &n);
      if(e.size() != 0 || n != 1) c.check(std::size_t(n) == e.size(), "NUMBER-OF-TERMS", [&] { return t; });
      c.check(back == e, "ROUND-TRIP", [&] { return t + " read as " + text(back); });
      c.check(text(back) == t, "ROUND-TRIP-TEXT", [&] { return t + " read as " + text(back); });
      c.ev("read back");
    } catch(std::exception const& x) { c.fail("UNREADABLE", t + ": " + x.what()); }
  }
  // equal expressions made differently
  c.phase("equal expressions");
  auto b = ref::random_leaf<S>(r, u);
  E x1 = e + b.e, x2 = b.e;
  x2 += e;
  c.check(unsigned0(text(x1)) == unsigned0(text(x2)), "EQUAL-BUT-PRINTED-DIFFERENTLY", [&] { return text(x1) + " vs " + text(x2); });
  E x3 = x1 - b.e;
  c.check(unsigned0(text(x3)) == unsigned0(t), "EQUAL-BUT-PRINTED-DIFFERENTLY", [&] { return text(x3) + " vs " + t; });
  E x4;
  std::vector<std::pair<S, lc::monomial<I...>>> ts;
  for(auto const& q : e) ts.emplace_back(q.coeff, q.monomial);
  r.shuffle(ts);
  for(auto const& q : ts) x4 += E(q.first, q.second);
  c.check(unsigned0(text(x4)) == unsigned0(t), "EQUAL-BUT-PRINTED-DIFFERENTLY", [&] { return text(x4) + " vs " + t; });
  // different expressions with readable indices print differently
  if(!odd && !(x1 == e)) c.check(text(x1) != t, "DIFFERENT-BUT-PRINTED-ALIKE", [&] { return t; });
  if(e.size()) c.nontrivial(t);
}

// Monomials as given, not put in order
template <typename... I> void monomials(mon::Case& c) {
  auto& r = c.r;
  auto u = universe<I...>(r, r.coin(0.3));
  Word w;
  for(int n = r.below(12); n > 0; --n) {
    if(!w.empty() && r.coin(0.4)) w.push_back(w.back());
    else w.push_back(ref::random_letter(r, u.model, r.below(u.size())));
  }
  auto m = u.mono(w);
  auto t = text(m);
  c.input(t);
  c.check(t == show_word(u, w), "MONOMIAL-TEXT", [&] { return t + " expected " + show_word(u, w); });
  std::string rev;
  Word back(w.rbegin(), w.rend());
  std::vector<typename Universe<I...>::gptr> g;
  for(auto l : back) g.push_back(u.gen(l));
  c.check(text(lc::monomial<I...>(std::move(g))) == show_word(u, back), "MONOMIAL-TEXT");
  c.ev("letters", w.size());
  if(w.size()) c.nontrivial(t);
}

// User-defined algebras: the default notation, and one of their own
struct plain : lc::generator<std::string, int> {
  int id;
  plain(int id_, std::string const& s, int i) : lc::generator<std::string, int>(s, i), id(id_) {}
  int algebra_id() const override { return id; }
  lc::var_number swap_with(lc::generator<std::string, int> const&, typename lc::generator<std::string, int>::linear_function_t& f) const override { f.set(0); return 1; }
};
struct fancy : plain {
  using plain::plain;
  std::string to_string() const override { return "e_" + std::to_string(std::get<1>(indices())); }
};
MON_SECTION("user-defined", 1500, 15000) {
  auto& r = c.r;
  auto s = strings(true);
  std::vector<std::shared_ptr<const lc::generator<std::string, int>>> g;
  std::vector<std::string> each;
  for(int n = r.range(1, 7); n > 0; --n) {
    if(!g.empty() && r.coin(0.35)) { g.push_back(g.back()); each.push_back(each.back()); continue; }
    std::string a = r.pick(s);
    int i = r.range(-5, 15);
    if(r.coin(0.6)) {
      int id = r.coin(0.7) ? r.below(4) : r.range(10, 100000);
      g.push_back(std::make_shared<plain>(id, a, i));
      each.push_back("g^" + std::to_string(id) + "(" + a + "," + std::to_string(i) + ")");
    } else {
      // generators which print alike are still different ones
      g.push_back(std::make_shared<fancy>(r.range(5, 6), a, i));
      each.push_back("e_" + std::to_string(i));
    }
  }
  std::string want;
  for(std::size_t i = 0; i < g.size();) {
    std::size_t j = i;
    while(j < g.size() && *g[j] == *g[i]) ++j;
    want += j - i == 1 ? each[i] : "[" + each[i] + "]^" + std::to_string(j - i);
    i = j;
  }
  for(std::size_t i = 0; i < g.size(); ++i) c.check(text(*g[i]) == each[i], "GENERATOR-TEXT", [&] { return text(*g[i]) + " expected " + each[i]; });
  auto t = text(lc::monomial<std::string, int>(std::move(g)));
  c.input(t);
  c.check(t == want, "MONOMIAL-TEXT", [&] { return t + " expected " + want; });
  c.nontrivial(t);
}

// Index sequences and numbers
MON_SECTION("indices", 3000, 30000) {
  auto& r = c.r;
  auto one = [&](auto const& t) {
    auto a = lc::tuple_to_string(t), w = show_tuple(t);
    c.check(a == w, "INDICES-TEXT", [&] { return a + " expected " + w; });
    c.ev("tuples");
    return a;
  };
  one(std::tuple<>());
  one(pool<int>::get(r, true)[0]);
  one(pool<std::string>::get(r, true)[0]);
  one(pool<std::string, int>::get(r, true)[0]);
  auto s = one(pool<int, std::string, int>::get(r, true)[0]);
  auto d = pool<D>::get(r, true);
  for(auto const& x : d) {
    D const& y = std::get<0>(x);
    c.check(text(y) == show_index(y) && to_string(y) == show_index(y), "DYNAMIC-INDICES-TEXT", [&] { return text(y) + " expected " + show_index(y); });
    one(x);
  }
  one(std::make_tuple(D(1), 2, std::string("q")));
  c.input(s + " " + text(std::get<0>(d[0])));
  int n = r.range(-100, 100), m = r.range(1, 50);
  c.check(text(lc::var_number(n)) == std::to_string(n), "NUMBER-TEXT", [&] { return text(lc::var_number(n)); });
  c.check(text(lc::var_number(n, m)) == std::to_string(n) + "/" + std::to_string(m), "NUMBER-TEXT", [&] { return text(lc::var_number(n, m)); });
  c.check(text(lc::var_number(n / 4.0)) == show_real(n / 4.0), "NUMBER-TEXT", [&] { return text(lc::var_number(n / 4.0)); });
  // all spins
  int mult = r.range(2, 200), k = r.below(3);
  Universe<int> u;
  u.add({ref::SPIN, mult}, {n});
  Letter l{0, k};
  c.check(text(*u.gen(l)) == show_letter(u, l), "GENERATOR-TEXT", [&] { return text(*u.gen(l)) + " expected " + show_letter(u, l); });
  c.nontrivial(c.in);
}

// The coefficient's own stream format is respected
MON_SECTION("format", 600, 6000) {
  auto& r = c.r;
  auto u = universe<int>(r, false);
  auto a = ref::random_program<double>(r, u, r.range(0, 4), 20, 5);
  auto e = a.e * (1 / 3.);
  std::ostringstream o, w;
  int p = r.range(1, 12), style = r.below(3);
  for(auto* s : {&o, &w}) {
    s->precision(p);
    if(style == 1) *s << std::fixed;
    if(style == 2) *s << std::scientific << std::uppercase;
  }
  o << "<" << e << ">" << e;
  auto put = [&] {
    bool first = true;
    for(auto const& x : e) {
      if(!first) w << " + ";
      first = false;
      w << x.coeff;
      if(x.monomial.size()) w << "*" << show_word(u, u.read(x.monomial));
    }
    if(first) w << 0.;
  };
  w << "<"; put(); w << ">"; put();
  c.input(o.str());
  c.check(o.str() == w.str(), "TEXT", [&] { return o.str() + " expected " + w.str(); });
  c.check(o.precision() == p && o.flags() == w.flags(), "STREAM-STATE-CHANGED");
  if(e.size()) c.nontrivial(c.in);
}
} // namespace

MON_SECTION("int", 2500, 25000) {
  switch(c.r.below(5)) {
  case 0: round_trip<double, int>(c); break;
  case 1: round_trip<cd, int>(c); break;
  case 2: round_trip<mpq_class, int>(c); break;
  default: round_trip<double, int>(c);
  }
}
MON_SECTION("none", 800, 8000) { if(c.r.coin()) round_trip<double>(c); else round_trip<mpq_class>(c); }
MON_SECTION("string", 1500, 15000) { if(c.r.coin()) round_trip<double, std::string>(c); else round_trip<cd, std::string>(c); }
MON_SECTION("string-int", 2000, 20000) { if(c.r.coin()) round_trip<double, std::string, int>(c); else round_trip<mpq_class, std::string, int>(c); }
MON_SECTION("int-string-int", 1200, 12000) { round_trip<double, int, std::string, int>(c); }
MON_SECTION("dynamic", 3000, 30000) { if(c.r.coin()) round_trip<double, D>(c); else round_trip<cd, D>(c); }
MON_SECTION("monomials", 3000, 30000) {
  switch(c.r.below(5)) {
  case 0: monomials<int>(c); break;
  case 1: monomials<std::string, int>(c); break;
  case 2: monomials<>(c); break;
  case 3: monomials<D>(c); break;
  default: monomials<int, std::string, int>(c);
  }
}
