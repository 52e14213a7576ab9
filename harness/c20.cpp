// C20: printed text against element-wise insertion and read back; hashes against equality.
#include "reps.h"
#include <cml/util/vector_hash.h>
#include <cml/quaternion.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } };
// a stream in one of several states
static const char* const SN[] = {"default", "round-trip", "fixed", "scientific", "hexfloat", "showpos", "low-precision", "punctuation", "hex-integers", "after-text"};
template<class E> void setup(std::ostream& os, int k) {
  switch(k) { case 1: os << std::setprecision(std::numeric_limits<E>::max_digits10); break; case 2: os << std::fixed << std::setprecision(5); break; case 3: os << std::scientific << std::setprecision(9); break; case 4: os << std::hexfloat; break; case 5: os << std::showpos << std::setprecision(12); break; case 6: os << std::setprecision(2); break; case 7: os.imbue(std::locale(std::locale::classic(), new Punct)); os << std::fixed << std::setprecision(3); break; case 8: os << std::hex << std::showbase << std::uppercase; break; case 9: os << "value: "; break; default: break; } }
template<class E> E element(Rng& g, bool negzero) {
  if(std::is_integral<E>::value) { switch(g.i(0, 5)) { case 0: return std::numeric_limits<E>::max(); case 1: return std::numeric_limits<E>::min(); case 2: return E(0); default: return E(std::is_signed<E>::value ? g.i(-9999999, 9999999) : g.i(0, 9999999)); } }
  switch(g.i(0, 9)) { case 0: return E(0); case 1: return negzero ? E(-0.0) : E(0); case 2: return std::numeric_limits<E>::infinity(); case 3: return -std::numeric_limits<E>::infinity(); case 4: return E(g.i(-9, 9)); case 5: return E(g.i(-9999999, 9999999)) + E(0.5); case 6: return E(1) / E(g.i(3, 9)); default: return E(g.gauss() * std::pow(10.0L, g.r(-25, 25))); } }
std::vector<std::string> tokens(const std::string& s) { std::istringstream is(s); std::vector<std::string> t; std::string x; while(is >> x) t.push_back(x); return t; }
template<class E> bool reads(const std::string& t, E want) { char* end; const ld v = std::is_integral<E>::value ? ld(std::is_signed<E>::value ? ld(std::strtoll(t.c_str(), &end, 0)) : ld(std::strtoull(t.c_str(), &end, 0))) : std::is_same<E, float>::value ? ld(std::strtof(t.c_str(), &end)) : std::is_same<E, double>::value ? ld(std::strtod(t.c_str(), &end)) : std::strtold(t.c_str(), &end); return *end == 0 && v == ld(want) && std::signbit(v) == std::signbit(ld(want)); }
// insert x after setting up the stream; the text must be what inserting the pieces gives, and the stream keep its state
template<class E, class X, class F> std::string insert(const X& x, int k, F pieces, const std::string& key) {
  std::ostringstream a, b; setup<E>(a, k); setup<E>(b, k); const auto fl = a.flags(); const auto pr = a.precision(); const char fc = a.fill(); std::ostream& r = a << x; pieces(b); mon::ev(); if(a.str() != b.str()) mon::fail(key, "got \"" + a.str() + "\" want \"" + b.str() + "\""); mon::check(&r == &a && a.good(), key + "-returns-stream"); mon::check(a.flags() == fl && a.precision() == pr && a.fill() == fc && a.width() == 0, key + "-keeps-format"); a << "tail" << 1.5; b << "tail" << 1.5; mon::check(a.str() == b.str(), key + "-stream-usable");
  // a stream that has failed is left alone
  std::ostringstream c; c.setstate(std::ios::failbit); c << x; mon::check(c.str().empty() && c.fail(), key + "-failed-stream"); return a.str(); }
template<class E> void vectors(Rng& g) {
  const int n = g.n(0, 7, 40), k = g.i(0, 12), st = g.i(0, sizeof(E) < 4 ? 7 : 9); std::vector<E> x(n); for(E& e : x) { e = element<E>(g, k != 12); mon::mixd(double(e)); } mon::mix(k * 16 + st); if(mon::noting()) mon::note(std::string(RN[k]) + " " + SN[st] + show(x)); if(n == 0 && k > 5) return; mon::bin(std::string("vector/") + RN[k]); mon::bin(std::string("stream/") + SN[st]); if(n == 0) mon::bin("vector/empty");
  rep(k, x, [&](const auto& v) { insert<E>(v, st, [&](std::ostream& os) { for(int i = 0; i < n; ++i) { if(i) os << " "; os << x[i]; } }, "vector-text"); std::ostringstream os; setup<E>(os, 1); os << v; auto t = tokens(os.str()); mon::ev(); bool ok = int(t.size()) == n; for(int i = 0; ok && i < n; ++i) ok = reads(t[i], x[i]); if(!ok) mon::fail("vector-read-back", os.str() + " from " + show(x)); std::ostringstream w; w << std::setw(12) << v; mon::check(tokens(w.str()).size() == size_t(n), "vector-width"); });
}
template<class E> void matrices(Rng& g) {
  const int R = g.n(1, 5, 14), C = g.n(1, 5, 14), k = g.i(0, 10), st = g.i(0, 9); RM<E> x(R, C); for(E& e : x.a) { e = element<E>(g, k != 9); mon::mixd(double(e)); } mon::mix(k * 16 + st); if(mon::noting()) mon::note(std::string(MN[k]) + " " + SN[st] + show(x)); mon::bin(std::string("matrix/") + MN[k]); mon::bin(std::string("stream/") + SN[st]);
  mrep(k, x, [&](const auto& m) { insert<E>(m, st, [&](std::ostream& os) { for(int i = 0; i < R; ++i) { os << "["; for(int j = 0; j < C; ++j) os << " " << x(i, j); os << " ]"; if(i + 1 < R) os << "\n"; } }, "matrix-text"); std::ostringstream os; setup<E>(os, 1); os << m; std::istringstream is(os.str()); std::string l; int r = 0; bool ok = true; while(std::getline(is, l)) { auto t = tokens(l); ok &= r < R && int(t.size()) == C + 2 && t.front() == "[" && t.back() == "]"; for(int j = 0; ok && j < C; ++j) ok = reads(t[j + 1], x(r, j)); ++r; } mon::ev(); if(!ok || r != R) mon::fail("matrix-read-back", os.str() + " from " + show(x)); });
}
// quaternions print the real part first, whatever their order
template<class E, class O, class C> void quats(Rng& g) {
  E e[4]; for(E& x : e) { x = element<E>(g, true); mon::mixd(double(x)); } const int st = g.i(0, 9), k = g.i(0, 4); mon::mix(st * 8 + k); if(mon::noting()) mon::note(fmt("%.9g %.9g %.9g %.9g ", double(e[0]), double(e[1]), double(e[2]), double(e[3])) + SN[st]); typedef cml::quaternion<E, fixed<>, O, C> Q; const bool rf = std::is_same<O, cml::real_first>::value; E d[4]; for(int i = 0; i < 4; ++i) d[rf ? i : (i + 3) % 4] = e[i];   // e = W X Y Z
  auto ck = [&](const auto& q) { std::ostringstream a, b; setup<E>(a, st); setup<E>(b, st); const auto fl = a.flags(); const auto pr = a.precision(); std::ostream& r = a << q; mon::check(&r == &a && a.good() && a.flags() == fl && a.precision() == pr && a.width() == 0, "quaternion-text-stream"); b << "["; for(E x : e) b << " " << x; b << " ]"; auto t = tokens(a.str()), w = tokens(b.str()); mon::ev(); if(t != w) mon::fail(std::string("quaternion-text") + (rf ? "/real-first" : "/imaginary-first"), "got \"" + a.str() + "\" want \"" + b.str() + "\""); std::ostringstream c; setup<E>(c, 1); c << q; t = tokens(c.str()); bool ok = t.size() == 6; for(int i = 0; ok && i < 4; ++i) ok = reads(t[i + 1], e[i]); mon::ev(); if(!ok) mon::fail("quaternion-read-back", c.str()); };
  Q q(d[0], d[1], d[2], d[3]); switch(k) { case 1: ck(cml::conjugate(cml::conjugate(q))); break; case 2: { const Q x(q); ck(x); break; } case 3: ck(-(-q)); break; case 4: ck(q * E(1)); break; default: ck(q); } mon::bin(fmt("quaternion/%d", k)); mon::bin(std::string("stream/") + SN[st]); mon::bin(rf ? "quaternion/real-first" : "quaternion/imaginary-first");
}
// ---- hashes ----
template<class V> void hashes(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; const int n = H::N_ > 0 ? H::N_ : g.n(1, 6, 40); auto x = rvec<E>(g, n, g.coin() ? 2 : 1000); if(mon::noting()) mon::note(show(x)); const std::hash<V> hash; H a(x), b(x); const size_t h = hash(a.v); mon::check(hash(a.v) == h, "hash-repeatable"); mon::check(hash(b.v) == h, "hash-equal-values", show(x));
  if(std::is_floating_point<E>::value) { auto y = x, z = x; const int i = g.i(0, n - 1); y[i] = E(0); z[i] = E(-0.0); H c(y), d(z); if(c.v == d.v) { mon::check(hash(c.v) == hash(d.v), "hash-equal-signed-zeros", show(y)); mon::bin("hash/signed-zeros"); } }
  // another history: elements written one by one over others, capacity from an earlier size
  { H c(std::vector<E>(n, E(5))); if constexpr(H::dyn) { c.v.resize(n + 5); for(int i = 0; i < n + 5; ++i) c.v[i] = E(9); c.v.resize(n); mon::bin("hash/resized"); } if constexpr(!std::is_same<V, vector<const E, external<>>>::value && !H::ext) { for(int i = n - 1; i >= 0; --i) c.v[i] = x[i]; mon::check(hash(c.v) == h, "hash-after-writes", show(x)); const V k(c.v); mon::check(hash(k) == h, "hash-of-copy"); } else { for(int i = 0; i < n; ++i) c.b[i] = x[i]; mon::check(hash(c.v) == h, "hash-after-buffer-writes"); } }
  // neighbours differ (each has a chance near 2^-64 of colliding, so none may)
  for(int i = 0; i < n; ++i) { auto y = x; y[i] = E(y[i] + 1); mon::check(hash(H(y).v) != h, "hash-sees-every-element", fmt("element %d of ", i) + show(x)); for(int j = i + 1; j < n; ++j) { y = x; std::swap(y[i], y[j]); if(y != x) { mon::check(hash(H(y).v) != h, "hash-sees-order", show(x) + show(y)); mon::bin("hash/swapped"); } } }
  if(H::N_ < 0) { auto y = x; y.push_back(E(0)); mon::check(hash(H(y).v) != h, "hash-sees-size", show(x)); }
  mon::bin("hash/checked");
}
// many small vectors: no more collisions than chance allows
template<class V> void collisions(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; std::unordered_map<size_t, std::vector<E>> seen; size_t n = 0, coll = 0, low = 0; std::vector<size_t> bucket(4096); std::string first; const int scale = g.i(1, 1000); mon::mix(scale); auto add = [&](const std::vector<E>& x) { const size_t h = std::hash<V>()(H(x).v); ++n; ++bucket[h & 4095]; if(!seen.emplace(h, x).second) { ++coll; if(first.empty()) first = show(x) + show(seen[h]); } };
  const int lo = std::is_unsigned<E>::value ? 0 : -4; if(H::N_ == 3 || H::N_ < 0) for(int i = 0; i < 9; ++i) for(int j = 0; j < 9; ++j) for(int k = 0; k < 9; ++k) add({E((lo + i) * scale), E((lo + j) * scale), E((lo + k) * scale)}); if(H::N_ == 2 || H::N_ < 0) for(int i = 0; i < 30; ++i) for(int j = 0; j < 30; ++j) add({E((lo + i) * scale), E((lo + j) * scale)}); if(H::N_ < 0) { for(int z = 4; z < 40; ++z) add(std::vector<E>(z, E(0))); for(int i = 0; i < 50; ++i) add({E((lo + i) * scale)}); }
  (void) low; mon::ev(); if(coll > 0) mon::fail("hash-collisions", fmt("%d of %d vectors collide: ", int(coll), int(n)) + first); mon::bin("hash/collisions");
}
// containers find exactly what was inserted
template<class V> void tables(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; std::unordered_map<V, int> m; std::unordered_set<V> s; std::vector<std::vector<E>> in; const int K = g.i(1, 60); for(int i = 0; i < K; ++i) { const int n = H::N_ > 0 ? H::N_ : g.i(1, 4); std::vector<E> x = rvec<E>(g, n, 3); int at = -1; for(size_t j = 0; j < in.size(); ++j) if(in[j] == x) at = int(j); const bool fresh = s.insert(H(x).v).second; mon::check(fresh == (at < 0), "table-insert", show(x)); if(at < 0) { m[H(x).v] = int(in.size()); in.push_back(x); } else mon::bin("table/duplicate"); }
  mon::check(s.size() == in.size() && m.size() == in.size(), "table-size"); for(size_t j = 0; j < in.size(); ++j) { const H h(in[j]); auto it = m.find(h.v); mon::check(it != m.end() && it->second == int(j) && s.count(h.v) == 1, "table-find", show(in[j])); } std::vector<E> y(H::N_ > 0 ? H::N_ : 2, E(77)); mon::check(s.find(H(y).v) == s.end(), "table-absent"); if(in.size() > 1) { mon::check(s.erase(H(in[0]).v) == 1 && s.count(H(in[0]).v) == 0 && s.count(H(in[1]).v) == 1, "table-erase"); } mon::bin("table/used");
}
#define HASH(n, ...) mon::group("hash-" n, 3000, hashes<__VA_ARGS__>)
#define COLL(n, ...) mon::group("collisions-" n, 20, collisions<__VA_ARGS__>)
#define TAB(n, ...) mon::group("table-" n, 400, tables<__VA_ARGS__>)
#define QT(n, E, O, C) mon::group("quaternion-" n, 2000, quats<E, cml::O, cml::C>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("vector-double", 6000, vectors<double>); mon::group("vector-int", 6000, vectors<int>); mon::group("vector-long-double", 3000, vectors<long double>);
#elif PART == 1
  mon::group("vector-float", 6000, vectors<float>); mon::group("vector-unsigned", 3000, vectors<unsigned>); mon::group("vector-long", 3000, vectors<long>); mon::group("vector-short", 2000, vectors<short>);
#elif PART == 2
  mon::group("matrix-double", 5000, matrices<double>); mon::group("matrix-int", 5000, matrices<int>); mon::group("matrix-float", 3000, matrices<float>);
#elif PART == 3
  QT("double-real-positive", double, real_first, positive_cross); QT("double-imaginary-positive", double, imaginary_first, positive_cross); QT("double-real-negative", double, real_first, negative_cross); QT("double-imaginary-negative", double, imaginary_first, negative_cross); QT("float-real", float, real_first, positive_cross); QT("float-imaginary", float, imaginary_first, positive_cross); QT("long-double-imaginary", long double, imaginary_first, negative_cross);
#elif PART == 4
  HASH("double-3", vector<double, fixed<3>>); HASH("float-4", vector<float, fixed<4>>); HASH("int-2", vector<int, fixed<2>>); HASH("double-dynamic", vector<double, dynamic<>>); HASH("int-dynamic", vector<int, dynamic<>>); HASH("float-external", vector<float, external<>>); HASH("double-external-3", vector<double, external<3>>); HASH("const-external", vector<const double, external<>>); HASH("const-external-2", vector<const int, external<2>>); HASH("unsigned-1", vector<unsigned, fixed<1>>); HASH("long-7", vector<long, fixed<7>>); HASH("long-double", vector<long double, dynamic<>>); HASH("short", vector<short, fixed<3>>);
  COLL("int-3", vector<int, fixed<3>>); COLL("double-3", vector<double, fixed<3>>); COLL("int-2", vector<int, fixed<2>>); COLL("float-dynamic", vector<float, dynamic<>>); COLL("int-dynamic", vector<int, dynamic<>>); COLL("unsigned-dynamic", vector<unsigned, dynamic<>>);
  TAB("double-3", vector<double, fixed<3>>); TAB("int-2", vector<int, fixed<2>>); TAB("double-dynamic", vector<double, dynamic<>>); TAB("float-4", vector<float, fixed<4>>);
#endif
  return mon::finish();
}
