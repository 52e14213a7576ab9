// C18: random generators: range, unit length, cone, reproducibility from a seed, reach and balance.
#include "geo.h"
#include <random>
#include <set>
using namespace zoo; using mon::ld; using mon::Rng; using mon::fmt;
template<class T> ld feps() { return std::numeric_limits<T>::epsilon(); }
template<class V> ld len(const V& v) { ld s = 0; for(int i = 0; i < v.size(); ++i) s += ld(v[i]) * v[i]; return std::sqrt(s); }
template<class V> std::vector<ld> lds(const V& v) { std::vector<ld> r; for(int i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
// the chance of a false alarm in each statistical test below is under 1e-15
void balanced(ld mean, ld want, ld sigma, const std::string& key) { mon::ev(); if(!(std::fabs(mean - want) <= 9 * sigma)) mon::fail(key, fmt("mean %.6Lg want %.6Lg sigma %.3Lg", mean, want, sigma)); }
// ---- scalars ----
template<class T> void integers(Rng& g) {
  typedef std::numeric_limits<T> L; const int kind = g.i(0, 3); T lo = T(0), hi = T(0);
  if(kind == 0) { lo = hi = T(g.i(std::is_signed<T>::value ? -50 : 0, 50)); } else if(kind == 1) { lo = L::min(); hi = L::max(); } else { lo = T(g.i(std::is_signed<T>::value ? -50 : 0, 50)); hi = T(lo + T(kind == 2 ? g.i(1, 5) : g.i(6, 10000))); }
  static const char* const N[] = {"single", "full", "narrow", "wide"}; mon::bin(std::string("integer-range/") + N[kind]); mon::mixd(double(lo)); mon::mixd(double(hi)); const unsigned seed = unsigned(g.next()); mon::mix(seed); std::srand(seed); if(mon::noting()) mon::note(fmt("%.12g %.12g seed %u", double(lo), double(hi), seed));
  std::set<T> seen; ld sum = 0; std::vector<T> d; for(int i = 0; i < 300; ++i) { T x = cml::random_integer(lo, hi); mon::ev(); if(x < lo || x > hi) mon::fail("integer-in-range", fmt("%.12g not in [%.12g,%.12g]", double(x), double(lo), double(hi))); seen.insert(x); d.push_back(x); sum += (ld(x) - ld(lo)); }
  std::srand(seed); bool same = true; for(T x : d) same &= x == cml::random_integer(lo, hi); mon::check(same, "integer-same-seed-same-values");
  if(kind == 2) { mon::check(*seen.begin() == lo && *seen.rbegin() == hi, "integer-range-ends-reached", fmt("[%g,%g]", double(lo), double(hi))); mon::check(ld(seen.size()) == ld(hi) - ld(lo) + 1, "integer-every-value-reached"); }
  if(kind > 0) { const ld w = ld(hi) - ld(lo) + 1; balanced(sum / 300, (w - 1) / 2, w / std::sqrt(12.0L * 300), "integer-balanced"); }
}
template<class T> void reals(Rng& g) {
  const int kind = g.i(0, 3); const T mag = T(std::pow(10.0L, g.r(-6, 6))); T lo = kind == 0 ? T(0) : T(mag * g.r(-3, 3)), hi = kind == 0 ? T(1) : kind == 1 ? lo : T(lo + mag); if(kind == 3) { lo = -mag; hi = mag; } if(hi < lo) std::swap(lo, hi); static const char* const N[] = {"unit", "single", "general", "symmetric"}; mon::bin(std::string("real-range/") + N[kind]); mon::mixd(double(lo)); mon::mixd(double(hi)); const unsigned seed = unsigned(g.next()); mon::mix(seed); std::srand(seed); if(mon::noting()) mon::note(fmt("%.17Lg %.17Lg seed %u", ld(lo), ld(hi), seed));
  ld sum = 0; int bin[8] = {0}; std::vector<T> d; for(int i = 0; i < 400; ++i) { const T x = cml::random_real(lo, hi); mon::ev(); if(!(x >= lo && x <= hi)) mon::fail("real-in-range", fmt("%.17Lg not in [%.17Lg,%.17Lg]", ld(x), ld(lo), ld(hi))); d.push_back(x); if(hi > lo) { const ld u = (ld(x) - lo) / (ld(hi) - lo); sum += u; ++bin[std::min(7, int(u * 8))]; } }
  std::srand(seed); bool same = true; for(T x : d) same &= x == cml::random_real(lo, hi); mon::check(same, "real-same-seed-same-values"); if(hi > lo) { balanced(sum / 400, 0.5L, 1 / std::sqrt(4800.0L), "real-balanced"); for(int k = 0; k < 8; ++k) mon::check(bin[k] > 0, "real-every-part-reached", fmt("eighth %d", k)); }
}
void flags(Rng& g) {
  const unsigned seed = unsigned(g.next()); mon::mix(seed); std::srand(seed); int b[2] = {0}, p[2] = {0}, q[8] = {0}; ld sum = 0; std::vector<double> s; for(int i = 0; i < 400; ++i) { const int x = cml::random_binary(), y = cml::random_polar(); const double u = cml::random_unit(); mon::check(x == 0 || x == 1, "binary", fmt("%d", x)); mon::check(y == -1 || y == 1, "polar", fmt("%d", y)); mon::check(u >= 0 && u <= 1, "unit-real", fmt("%.17g", u)); b[x == 1]++; p[y == 1]++; sum += u; q[std::min(7, int(u * 8))]++; s.push_back(x); s.push_back(y); s.push_back(u); }
  std::srand(seed); bool same = true; for(size_t i = 0; i < s.size(); i += 3) { same &= cml::random_binary() == s[i]; same &= cml::random_polar() == s[i + 1]; same &= cml::random_unit() == s[i + 2]; } mon::check(same, "flags-same-seed-same-values");
  balanced(b[1] / 400.0L, 0.5L, 0.025L, "binary-balanced"); balanced(p[1] / 400.0L, 0.5L, 0.025L, "polar-balanced"); balanced(sum / 400, 0.5L, 1 / std::sqrt(4800.0L), "unit-real-balanced"); for(int k : q) mon::check(k > 0, "unit-real-every-part-reached"); mon::bin("flags");
}
// ---- unit directions ----
template<class V> void units(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; const int n = H::N_ > 0 ? H::N_ : g.i(1, 8); const ld e = 4 * feps<E>() * std::sqrt(ld(n)) + 4 * feps<E>(); H h(std::vector<E>(n, E(7))); V& v = h.v; const unsigned seed = unsigned(g.next()); mon::mix(seed); mon::mix(n); mon::bin(fmt("unit-dimension/%d", std::min(n, 5))); if(mon::noting()) mon::note(fmt("n %d seed %u", n, seed));
  const bool rng = g.coin(); std::mt19937 gen(seed), gen0(seed); std::srand(seed); std::vector<std::vector<ld>> d; std::vector<int> pos(n), big(n); std::vector<ld> sum(n); const int K = 200; for(int k = 0; k < K; ++k) { if(rng) cml::random_unit(v, gen); else cml::random_unit(v); mon::ev(); if(v.size() != n) { mon::fail("unit-size", ""); return; } const ld l = len(v); if(!(std::fabs(l - 1) <= e)) mon::fail(rng ? "unit-length-generator" : "unit-length", showv(v) + fmt(" length %.17Lg", l)); d.push_back(lds(v)); for(int i = 0; i < n; ++i) { pos[i] += v[i] > 0; big[i] += ld(v[i]) * v[i] * n >= 1 - 1e-6L; sum[i] += v[i]; } }
  mon::bin(rng ? "unit/generator" : "unit/default"); for(int i = 0; i < n; ++i) { mon::check(pos[i] > 0 && pos[i] < K, "unit-both-signs", fmt("component %d of %d: %d of %d positive", i, n, pos[i], K)); mon::check(big[i] > 0, "unit-every-component-large"); balanced(sum[i] / K, 0, std::sqrt(1.0L / n / K), "unit-balanced"); }
  // the same seed gives the same directions, whatever the vector held before
  std::srand(seed); bool same = true; if(rng) mon::check(!(gen == gen0), "unit-generator-advanced"); for(int k = 0; k < K; ++k) { H w(std::vector<E>(n, E(g.i(-9, 9)))); if(rng) cml::random_unit(w.v, gen0); else cml::random_unit(w.v); same &= lds(w.v) == d[k]; } mon::check(same, "unit-same-seed-same-values"); if(rng) mon::check(gen == gen0, "unit-same-generator-state"); if(n > 1) mon::check(d[0] != d[1], "unit-successive-values-differ");
}
// second and fourth moments of uniform directions
template<class E, int N> void moments(Rng& g) {
  cml::vector<E, fixed<N>> v; std::mt19937_64 gen(g.next()); const int K = 20000; ld m2[N][N] = {}, m4[N] = {}; for(int k = 0; k < K; ++k) { cml::random_unit(v, gen); for(int i = 0; i < N; ++i) { for(int j = 0; j < N; ++j) m2[i][j] += ld(v[i]) * v[j]; m4[i] += ld(v[i]) * v[i] * v[i] * v[i]; } } mon::mix(g.next());
  const ld n = N, e4 = 3 / (n * (n + 2)), e8 = 105 / (n * (n + 2) * (n + 4) * (n + 6)), e22 = 1 / (n * (n + 2)); for(int i = 0; i < N; ++i) { balanced(m4[i] / K, e4, std::sqrt((e8 - e4 * e4) / K), "unit-fourth-moment"); for(int j = 0; j < N; ++j) balanced(m2[i][j] / K, i == j ? 1 / n : 0, std::sqrt((i == j ? e4 - 1 / (n * n) : e22) / K), "unit-second-moment"); } mon::bin(fmt("moments/%d", N));
}
// ---- cones ----
template<class V, class W, class S> void cones(Rng& g) {
  typedef VH<V> H; typedef VH<W> G; typedef typename H::elem E; typedef typename G::elem D; const int n = H::N_ > 0 ? H::N_ : G::N_ > 0 ? G::N_ : g.i(2, 6); const ld e = std::max({feps<E>(), std::is_integral<D>::value ? 0 : feps<D>(), feps<S>()});
  std::vector<D> dv(n); { std::vector<ld> x(n); ld l = 0; for(ld& c : x) { c = g.gauss(); l += c * c; } if(std::is_integral<D>::value || g.coin(1, 4)) { const int k = g.i(0, n - 1); const int s = g.coin() ? 1 : -1; for(int i = 0; i < n; ++i) dv[i] = D(i == k ? s : 0); mon::bin("cone/cardinal"); } else { l = std::sqrt(l); for(int i = 0; i < n; ++i) dv[i] = D(x[i] / l); mon::bin("cone/general"); } }
  const int ka = g.i(0, 3); const S a = ka == 0 ? std::min(cml::constants<S>::pi_over_2(), S(cml::constants<E>::pi_over_2())) : ka == 1 ? S(std::pow(10.0L, g.r(-3, -1))) : S(g.r(0.1L, 1.55L)); mon::bin(ka == 0 ? "cone/hemisphere" : ka == 1 ? "cone/narrow" : "cone/medium"); for(D x : dv) mon::mixd(double(x)); mon::mixd(double(a)); const unsigned seed = unsigned(g.next()); mon::mix(seed); std::srand(seed); if(mon::noting()) mon::note(show(dv) + fmt(" half-angle %.9g seed %u", double(a), seed));
  H h(std::vector<E>(H::N_ > 0 || H::ext ? n : g.i(1, 7), E(7))); const G d(dv); V& v = h.v; std::vector<ld> ds(dv.begin(), dv.end()); const int K = 200; std::vector<std::vector<ld>> got; ld mn = 9, mx = 0; std::vector<int> side(n); const bool ex = g.coin(1, 4);
  for(int k = 0; k < K; ++k) { if(ex) cml::random_unit(v, -(-d.v), a); else cml::random_unit(v, d.v, a); mon::ev(); if(v.size() != n) { mon::fail("cone-size", ""); return; } const std::vector<ld> x = lds(v); got.push_back(x); ld c = 0, p = 0, dd = 0; for(int i = 0; i < n; ++i) { c += x[i] * ds[i]; dd += ds[i] * ds[i]; } for(int i = 0; i < n; ++i) { const ld q = x[i] - c / dd * ds[i]; p += q * q; side[i] += q > 0; } const ld an = std::atan2(std::sqrt(p), c); mn = std::min(mn, an); mx = std::max(mx, an); if(!(std::fabs(len(v) - 1) <= 32 * e)) mon::fail("cone-unit-length", showv(v) + fmt(" length %.12Lg around ", len(v)) + showv(d.v) + fmt(" half-angle %.9g", double(a))); if(!(an <= a * (1 + 8 * e) + 32 * e)) mon::fail("cone-angle", showv(v) + fmt(" angle %.12Lg half-angle %.12Lg", an, ld(a))); }
  mon::check(lds(d.v) == ds, "cone-direction-unchanged"); mon::check(mx > 0.7L * a, "cone-outer-part-reached", fmt("largest angle %.6Lg half-angle %.6Lg", mx, ld(a))); mon::check(mn < 0.85L * a, "cone-inner-part-reached", fmt("smallest angle %.6Lg half-angle %.6Lg", mn, ld(a))); for(int i = 0; i < n; ++i) if(1 - ds[i] * ds[i] > 0.01L) mon::check(side[i] > 0 && side[i] < K, "cone-all-sides-reached", fmt("component %d of %d", i, n));
  std::srand(seed); bool same = true; for(int k = 0; k < K; ++k) { if(ex) cml::random_unit(v, -(-d.v), a); else cml::random_unit(v, d.v, a); same &= lds(v) == got[k]; } mon::check(same, "cone-same-seed-same-values"); mon::bin(fmt("cone-dimension/%d", std::min(n, 5)));
  // rejected half-angles leave the vector as it was
  const S bad[] = {S(0), S(-0.0), S(-0.1), S(1.6), S(1e9), std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::min()}; const std::vector<ld> x = lds(v); for(S b : bad) { bool t = false; try { cml::random_unit(v, d.v, b); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "cone-half-angle-rejected", fmt("%g", double(b))); mon::check(lds(v) == x, "cone-rejected-call-writes-nothing"); } mon::bin("cone-rejected");
}
// many draws, so that directions numerically parallel to the axis turn up
void dense(Rng& g) {
  cml::vector<float, cml::dynamic<>> d(2), n(2); const ld t = g.r(-3, 3); d[0] = float(std::cos(t)); d[1] = float(std::sin(t)); const float a = float(g.r(0.05L, 1.5L)); mon::mixd(a); mon::mixd(d[0]); const unsigned seed = unsigned(g.next()); std::srand(seed); if(mon::noting()) mon::note(showv(d) + fmt(" half-angle %.9g seed %u", double(a), seed)); int near = 0;
  for(int k = 0; k < 30000; ++k) { cml::random_unit(n, d, a); const ld c = ld(n[0]) * d[0] + ld(n[1]) * d[1], s = ld(n[0]) * d[1] - ld(n[1]) * d[0], an = std::atan2(std::fabs(s), c); near += an < 4e-4L * a; mon::ev(); if(!(std::fabs(len(n) - 1) <= 1e-5L && an <= a + 1e-5L)) { mon::fail("cone-many-draws", showv(n) + " around " + showv(d)); return; } }
  if(near) mon::bin("cone/near-parallel");
}
// ---- filled vectors and matrices ----
template<class E> void range(Rng& g, E& lo, E& hi) { const int k = g.i(0, 3); const int b = std::is_unsigned<E>::value ? g.i(0, 90) : g.i(-90, 90); if(std::is_integral<E>::value) { lo = E(b); hi = E(b + (k == 0 ? 0 : k == 1 ? 1 : g.i(2, 6))); } else { const ld m = std::pow(10.0L, g.r(-3, 3)); lo = E(b * m / 30); hi = k == 0 ? lo : E(lo + m); } mon::mixd(double(lo)); mon::mixd(double(hi)); mon::bin(lo == hi ? "fill/single" : "fill/range"); if(lo < 0 && hi < 0) mon::bin("fill/negative"); }
// every element is in range, and over the draws each reaches both ends (integers) or both outer thirds
template<class E> struct Reach { std::vector<E> mn, mx; ld sum = 0; long n = 0; void add(size_t i, E x) { if(mn.size() <= i) { mn.resize(i + 1, x); mx.resize(i + 1, x); } mn[i] = std::min(mn[i], x); mx[i] = std::max(mx[i], x); sum += x; ++n; } void check(E lo, E hi, const std::string& k) { for(size_t i = 0; i < mn.size(); ++i) { if(std::is_integral<E>::value) mon::check(mn[i] == lo && mx[i] == hi, k + "-ends-reached", fmt("element %d: %g to %g of [%g,%g]", int(i), double(mn[i]), double(mx[i]), double(lo), double(hi))); else if(hi > lo) { const ld w = ld(hi) - lo; mon::check(ld(mn[i]) - lo <= w / 3 && ld(hi) - mx[i] <= w / 3, k + "-both-parts-reached", fmt("element %d: %g to %g of [%g,%g]", int(i), double(mn[i]), double(mx[i]), double(lo), double(hi))); } } const ld w = ld(hi) - lo + (std::is_integral<E>::value ? 1 : 0); if(hi > lo) balanced(sum / n, (ld(lo) + hi) / 2, w / std::sqrt(12.0L * n) + 1e-6L * (std::fabs(ld(lo)) + w), k + "-balanced"); } };
template<class V> void fills(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; const int n = H::N_ > 0 ? H::N_ : g.i(0, 8); E lo, hi; range(g, lo, hi); H h(std::vector<E>(n, E(100))); V& v = h.v; const unsigned seed = unsigned(g.next()); mon::mix(seed); std::srand(seed); if(mon::noting()) mon::note(fmt("n %d range %g %g seed %u", n, double(lo), double(hi), seed)); Reach<E> r; std::vector<std::vector<ld>> got;
  for(int k = 0; k < 200; ++k) { const void* p; if(k % 3) p = &v.random(lo, hi); else { V&& q = std::move(v).random(lo, hi); p = &q; } mon::check(p == &v && v.size() == n, "vector-fill-returns-itself"); for(int i = 0; i < n; ++i) { mon::ev(); if(!(v[i] >= lo && v[i] <= hi)) mon::fail("vector-fill-in-range", showv(v) + fmt(" not in [%.9g,%.9g]", double(lo), double(hi))); r.add(size_t(i), v[i]); } got.push_back(lds(v)); }
  if(n) r.check(lo, hi, "vector-fill"); std::srand(seed); bool same = true; for(int k = 0; k < 200; ++k) { H w(std::vector<E>(n, E(3))); w.v.random(lo, hi); same &= lds(w.v) == got[k]; } mon::check(same, "vector-fill-same-seed-same-values"); if(n >= 3 && hi > lo && !std::is_integral<E>::value) mon::check(got[0] != got[1] && !(got[0][0] == got[0][1] && got[0][1] == got[0][2]), "vector-fill-values-differ"); mon::bin("vector-fill");
}
template<class M> void mfills(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; const int R = H::R_ > 0 ? H::R_ : g.i(1, 5), C = H::C_ > 0 ? H::C_ : g.i(1, 5); E lo, hi; range(g, lo, hi); RM<E> x(R, C); for(E& c : x.a) c = E(100); H h(x); M& m = h.m; Reach<E> r; mon::mix(R * 8 + C);
  for(int k = 0; k < 200; ++k) { const void* p; if(k % 3) p = &m.random(lo, hi); else { M&& q = std::move(m).random(lo, hi); p = &q; } mon::check(p == &m && m.rows() == R && m.cols() == C, "matrix-fill-returns-itself"); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { mon::ev(); if(!(m(i, j) >= lo && m(i, j) <= hi)) mon::fail("matrix-fill-in-range", showm(m) + fmt(" not in [%.9g,%.9g]", double(lo), double(hi))); r.add(size_t(i) * C + j, m(i, j)); } }
  r.check(lo, hi, "matrix-fill"); if(R * C >= 3 && hi > lo && !std::is_integral<E>::value) { const E* d = m.data(); mon::check(!(d[0] == d[1] && d[1] == d[2]), "matrix-fill-values-differ"); } mon::bin("matrix-fill");
}
#define COMMA ,
#define VEC(E, S) vector<E, S>
#define UN(E, S) mon::group("unit-" #E "-" #S, 100, units<vector<E, S>>)
#define CO(n, E, S, D, T, A) mon::group("cone-" n, 150, cones<vector<E, S>, vector<D, T>, A>)
#define FI(E, S) mon::group("fill-" #E "-" #S, 150, fills<vector<E, S>>)
#define MF(n, E, S, B, L) mon::group("matrix-fill-" n, 60, mfills<matrix<E, S, B, L>>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("integer-int", 200, integers<int>); mon::group("integer-short", 100, integers<short>); mon::group("integer-unsigned", 100, integers<unsigned>); mon::group("integer-long", 100, integers<long>); mon::group("integer-long-long", 60, integers<long long>); mon::group("integer-unsigned-long", 60, integers<unsigned long>);
  mon::group("real-float", 150, reals<float>); mon::group("real-double", 150, reals<double>); mon::group("real-long-double", 100, reals<long double>); mon::group("flags", 150, flags); mon::group("cone-dense", 20, dense);
#elif PART == 1
  UN(double, fixed<1>); UN(double, fixed<2>); UN(double, fixed<3>); UN(double, dynamic<>); UN(double, external<3>); UN(double, external<>); UN(double, fixed<7>);
  mon::group("moments-double-2", 3, moments<double, 2>); mon::group("moments-double-3", 5, moments<double, 3>); mon::group("moments-double-4", 3, moments<double, 4>);
#elif PART == 2
  UN(float, fixed<2>); UN(float, fixed<3>); UN(float, fixed<4>); UN(float, dynamic<>); UN(float, external<2>); UN(float, external<>); UN(long double, fixed<3>); UN(long double, dynamic<>);
  mon::group("moments-float-3", 5, moments<float, 3>); mon::group("moments-float-5", 3, moments<float, 5>);
#elif PART == 3
  CO("double-2", double, fixed<2>, double, fixed<2>, double); CO("double-3", double, fixed<3>, double, fixed<3>, double); CO("double-4", double, fixed<4>, double, external<4>, double); CO("double-5", double, external<5>, double, fixed<5>, double); CO("double-dynamic", double, dynamic<>, double, dynamic<>, double); CO("double-dynamic-2", double, dynamic<>, double, fixed<2>, double);
#elif PART == 4
  CO("float-2", float, fixed<2>, float, fixed<2>, float); CO("float-3", float, fixed<3>, float, fixed<3>, float); CO("float-double-3", float, fixed<3>, double, fixed<3>, double); CO("double-float-4", double, fixed<4>, float, fixed<4>, double); CO("float-dynamic", float, dynamic<>, float, external<>, float); CO("float-int-3", float, fixed<3>, int, fixed<3>, float); CO("double-int-2", double, fixed<2>, int, dynamic<>, double); CO("float-external", float, external<3>, float, dynamic<>, float);
#elif PART == 5
  FI(int, fixed<3>); FI(int, dynamic<>); FI(double, fixed<4>); FI(double, dynamic<>); FI(float, external<3>); FI(float, external<>); FI(short, fixed<2>); FI(unsigned, fixed<5>); FI(long double, dynamic<>); FI(long, external<>);
  MF("a-int", int, fixed<3 COMMA 2>, col_basis, row_major); MF("b-double", double, fixed<4 COMMA 4>, row_basis, col_major); MF("c-dyn", double, dynamic<>, col_basis, col_major); MF("d-dyn", int, dynamic<>, row_basis, row_major); MF("e-ext", float, external<2 COMMA 3>, col_basis, col_major); MF("f-ext", float, external<>, row_basis, row_major); MF("g-unsigned", unsigned, fixed<2 COMMA 2>, col_basis, row_major);
#endif
  return mon::finish();
}
