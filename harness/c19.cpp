// C19: scalar utilities against their definitions.
#include "mon.h"
#include <cml/cml.h>
#include <cml/mathlib/mathlib.h>
#include <cml/scalar/functions.h>
#include <cml/scalar/constants.h>
#include <cstring>
using mon::ld; using mon::Rng; using mon::fmt;
template<class T> struct Name; 
#define NAME(T) template<> struct Name<T> { static std::string s() { return "/" #T; } };
NAME(float) NAME(double) NAME(long double) NAME(int) NAME(short) NAME(long) NAME(unsigned) NAME(long long) NAME(signed char) NAME(unsigned char) NAME(unsigned long)
template<class T> bool same(T a, T b) { return std::isnan(ld(a)) ? std::isnan(ld(b)) : a == b; }
template<class T> void eq(T got, T want, const std::string& k, const std::string& d = "") { mon::ev(); if(!same(got, want)) mon::fail(k + Name<T>::s(), fmt("got %.21Lg want %.21Lg ", ld(got), ld(want)) + d); }
template<class T> void near(T got, ld want, ld tol, const std::string& k, const std::string& d = "") { mon::ev(); if(!(std::fabs(ld(got) - want) <= tol)) mon::fail(k + Name<T>::s(), fmt("got %.21Lg want %.21Lg tolerance %.3Lg ", ld(got), want, tol) + d); }
template<class T> constexpr ld eps() { return std::numeric_limits<T>::epsilon(); }
// values of every magnitude, and special ones; lim: largest exponent
template<class T> T value(Rng& g, bool special, int lim) {
  typedef std::numeric_limits<T> L; const int k = g.i(0, 11);
  if(std::is_integral<T>::value) { if(special && k == 0) return L::max(); if(special && k == 1) return L::min(); if(k < 5) return T(g.i(std::is_signed<T>::value ? -4 : 0, 4)); return T(std::is_signed<T>::value ? g.i(-100, 100) : g.i(0, 200)); }
  if(special) switch(k) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::quiet_NaN(); case 3: return L::denorm_min(); case 4: return -L::denorm_min(); case 5: return L::max(); case 6: return L::lowest(); default: break; }
  switch(k) { case 7: return T(0); case 8: return T(-0.0); case 9: return T(g.i(-9, 9)); case 10: return T(g.r(-1, 1)); default: return T(g.gauss() * std::pow(10.0L, g.r(-lim, lim))); } }
template<class T> std::string showt(std::initializer_list<T> l) { std::string s; for(T x : l) { s += fmt("%.21Lg ", ld(x)); mon::mixd(double(x)); } return s; }
// what is exact for every type: sign, clamp, in_range, powers
template<class T> void basic(Rng& g) {
  const T x = value<T>(g, true, 30); T lo = value<T>(g, true, 30), hi = value<T>(g, true, 30); const std::string d = showt<T>({x, lo, hi}); if(mon::noting()) mon::note(d); const bool nan = std::isnan(ld(x));
  eq(cml::sign(x), T(nan ? 0 : x > T(0) ? 1 : x < T(0) ? -1 : 0), "sign", d); mon::bin(nan ? "value/nan" : std::isinf(ld(x)) ? "value/infinite" : x < T(0) ? "value/negative" : x > T(0) ? "value/positive" : "value/zero");
  if(std::isnan(ld(lo)) || std::isnan(ld(hi))) return; if(hi < lo) std::swap(lo, hi); if(g.coin(1, 5)) hi = lo; auto probe = [&](T v) { const bool vn = std::isnan(ld(v)), in = !vn && v >= lo && v <= hi; const std::string e = d + fmt("value %.21Lg", ld(v)); mon::check(cml::in_range(v, lo, hi) == in, "in-range" + Name<T>::s(), e); const T c = cml::clamp(v, lo, hi); eq(c, vn ? v : v < lo ? lo : v > hi ? hi : v, "clamp", e); mon::bin(vn ? "range/nan" : v == lo || v == hi ? "range/end" : v < lo ? "range/below" : v > hi ? "range/above" : "range/inside"); };
  probe(x); probe(lo); probe(hi); if constexpr(std::is_floating_point<T>::value) { probe(std::nextafter(lo, -std::numeric_limits<T>::infinity())); probe(std::nextafter(hi, std::numeric_limits<T>::infinity())); probe(T(lo / 2 + hi / 2)); }
}
template<class T> void algebra(Rng& g) {
  const int lim = std::is_same<T, float>::value ? 9 : 50; const T x = std::is_integral<T>::value ? value<T>(g, false, 0) : value<T>(g, false, lim), y = value<T>(g, false, lim), z = value<T>(g, false, lim); const std::string d = showt<T>({x, y, z}); if(mon::noting()) mon::note(d); const bool in = std::is_integral<T>::value; const ld e = in ? 0 : eps<T>(), u = in ? 0 : 4 * std::numeric_limits<T>::min(); const ld X = x, Y = y, Z = z;
  if(in && sizeof(T) < 4) { if(X * X * 3 > ld(std::numeric_limits<T>::max()) || std::fabs(X * X * X) > ld(std::numeric_limits<T>::max()) || X * X + Y * Y + Z * Z > ld(std::numeric_limits<T>::max())) return; }
  near(cml::sqr(x), X * X, 2 * e * X * X + u, "sqr", d); near(cml::cub(x), X * X * X, 3 * e * std::fabs(X * X * X) + u, "cub", d); const ld s2 = X * X + Y * Y, s3 = s2 + Z * Z; const ld un = in ? 0 : 4 * std::numeric_limits<T>::min(); near(cml::length_squared(x, y), s2, 4 * e * s2 + un, "length-squared-2", d); near(cml::length_squared(x, y, z), s3, 4 * e * s3 + un, "length-squared-3", d);
  if(in) { mon::check(cml::length(x, y) == T(std::floor(std::sqrt(s2) + 1e-12L)), "length-2" + Name<T>::s(), d); mon::check(cml::length(x, y, z) == T(std::floor(std::sqrt(s3) + 1e-12L)), "length-3" + Name<T>::s(), d); } else { const ld us = std::sqrt(un) * 1.1L; near(cml::length(x, y), std::sqrt(s2), 4 * e * std::sqrt(s2) + us, "length-2", d); near(cml::length(x, y, z), std::sqrt(s3), 4 * e * std::sqrt(s3) + us, "length-3", d); }
  mon::bin("algebra");
}
template<class T> void wraps(Rng& g) {
  const bool in = std::is_integral<T>::value, sg = std::is_signed<T>::value; T lo = in ? T(g.i(sg ? -60 : 0, 60)) : T(g.gauss() * std::pow(10.0L, g.r(-4, 4))), w = in ? T(g.i(1, 40)) : T(std::pow(10.0L, g.r(-4, 4))); if(!in && g.coin(1, 3)) { lo = T(g.i(-4, 4)); w = T(g.i(1, 8)); } const T hi = T(lo + w); if(!(lo < hi)) return; const T n = T(g.i(-30, 30));
  T x; switch(g.i(0, 6)) { case 0: x = lo; break; case 1: x = hi; break; case 2: x = T(in ? g.i(sg ? -120 : 0, 120) : lo + ld(w) * g.r(-50, 50)); break; case 3: x = T(in ? lo + T(g.i(0, 9)) : lo + ld(w) * n); break; case 4: x = in ? T(g.i(0, 5)) : std::nextafter(lo, T(-1e30)); break; case 5: x = in ? T(120) : std::nextafter(hi, T(g.coin() ? 1e30 : -1e30)); break; default: x = T(in ? g.i(0, 100) : lo + ld(w) * g.u01()); }
  if(in && (sizeof(T) < 4) && (std::fabs(ld(x) - lo) > 127 || std::fabs(ld(x) - hi) > 127)) return; const std::string d = showt<T>({x, lo, hi}); if(mon::noting()) mon::note(d); const T r = cml::wrap(x, lo, hi); mon::check(r >= lo && r <= hi, "wrap-in-range" + Name<T>::s(), d + fmt("got %.21Lg", ld(r))); const ld W = ld(hi) - lo, k = std::round((ld(r) - x) / W); const ld te = in ? 0 : 4 * eps<T>() * (std::fabs(ld(x)) + std::fabs(ld(lo)) + std::fabs(ld(hi))); near(r, x + k * W, te, "wrap-whole-periods", d + fmt("%.0Lf periods", k)); if(ld(x) - lo > te && ld(hi) - x > te) near(r, x, te, "wrap-inside-unchanged", d); mon::bin(x < lo ? "wrap/below" : x > hi ? "wrap/above" : x == lo || x == hi ? "wrap/end" : "wrap/inside"); if(std::fabs(k) > 1) mon::bin("wrap/several-periods");
}
template<class T> void maps(Rng& g) {
  const bool in = std::is_integral<T>::value, sg = std::is_signed<T>::value; auto v = [&] { return in ? T(g.i(sg ? -60 : 0, 60)) : g.coin(1, 3) ? T(g.i(-5, 5)) : T(g.gauss() * std::pow(10.0L, g.r(-3, 3))); }; const T a = v(), b = v(), c = v(), e = v(); if(a == b) return; const int k = g.i(0, 4); T x = k == 0 ? a : k == 1 ? b : k == 2 ? v() : T(a + (ld(b) - a) * g.u01()); if(in && (!sg || sizeof(T) < 4)) { const T lo = std::min(a, b), hi = std::max(a, b); x = x < lo ? lo : x > hi ? hi : x; } const std::string d = showt<T>({x, a, b, c, e}); if(mon::noting()) mon::note(d);
  const T r = cml::map_range(x, a, b, c, e); const ld q = (ld(x) - a) / (ld(b) - a), w = c + q * (ld(e) - c); if(in) { mon::ev(); if(!(std::fabs(ld(r) - w) < 1 - 1e-9L) || (std::fabs(w - std::round(w)) < 1e-12L && ld(r) != std::round(w))) mon::fail("map-range" + Name<T>::s(), d + fmt("got %.0Lf want %.12Lg", ld(r), w)); } else { const ld Q = (std::fabs(ld(x)) + std::fabs(ld(a))) / std::fabs(ld(b) - a); (void) Q; near(r, w, 8 * eps<T>() * (std::fabs(ld(c)) + (1 + std::fabs(q)) * std::fabs(ld(e) - c)), "map-range", d); } if(x == a) mon::check(std::fabs(ld(r) - c) <= (in ? 0 : 4 * eps<T>() * std::fabs(ld(c))), "map-range-start" + Name<T>::s(), d); mon::bin(k == 0 ? "map/start" : k == 1 ? "map/end" : "map/general"); mon::bin((a > b) != (c > e) ? "map/reversed" : "map/forward");
}
template<class T> void functions(Rng& g) {
  T x; switch(g.i(0, 7)) { case 0: x = T(g.i(-2, 2)); break; case 1: x = std::nextafter(T(g.coin() ? 1 : -1), T(g.coin() ? 5 : -5)); break; case 2: x = T(g.r(-3, 3)); break; case 3: x = std::nextafter(T(0), T(g.coin() ? 1 : -1)); break; case 4: x = value<T>(g, true, 20); break; default: x = T(g.r(-1, 1)); } const std::string d = showt<T>({x}); if(mon::noting()) mon::note(d); const ld e = 4 * eps<T>(), c = std::max(-1.0L, std::min(1.0L, ld(x))); if(x > T(1) || x < T(-1)) mon::bin("outside-unit"); else mon::bin("inside-unit");
  if(std::isnan(ld(x))) { mon::check(std::isnan(ld(cml::acos_safe(x))) && std::isnan(ld(cml::asin_safe(x))) && std::isnan(ld(cml::sqrt_safe(x))), "nan-stays-nan" + Name<T>::s()); return; }
  near(cml::acos_safe(x), std::acos(c), e * 3.2L, "acos-safe", d); near(cml::asin_safe(x), std::asin(c), e * std::fabs(std::asin(c)) + std::numeric_limits<T>::denorm_min(), "asin-safe", d); { const ld w = std::sqrt(std::max(0.0L, ld(x))); const T r = cml::sqrt_safe(x); if(std::isinf(w)) mon::check(r == std::numeric_limits<T>::infinity(), "sqrt-safe-infinite"); else near(r, w, e * w, "sqrt-safe", d); if(x < T(0)) mon::bin("sqrt/negative"); }
  if(x > std::numeric_limits<T>::min() && !std::isinf(ld(x))) near(cml::inv_sqrt(x), 1 / std::sqrt(ld(x)), e / std::sqrt(ld(x)), "inv-sqrt", d);
  const ld PI = 3.14159265358979323846264338327950288L, ec = std::max(e, 4 * eps<double>()); if(std::fabs(ld(x)) < 1e30L) { near(cml::deg(x), x * (180 / PI), ec * std::fabs(x * (180 / PI)) + std::numeric_limits<T>::denorm_min() * 30, "deg", d); near(cml::rad(x), x * (PI / 180), ec * std::fabs(x * (PI / 180)) + std::numeric_limits<T>::denorm_min(), "rad", d); near(cml::rad(cml::deg(x)), x, 2 * ec * std::fabs(ld(x)) + std::numeric_limits<T>::denorm_min() * 2, "degrees-round-trip", d); }
}
// ---- indices: exhaustive over small values, with ties ----
template<class T> void ck(int i, std::initializer_list<ld> v, bool mx, const char* k) { mon::ev(); std::vector<ld> a(v); bool ok = i >= 0 && i < int(a.size()); if(ok) for(ld x : a) ok &= mx ? a[i] >= x : a[i] <= x; if(!ok) { std::string s; for(ld x : a) s += fmt("%Lg ", x); mon::fail(std::string(k) + fmt("-%d", int(a.size())) + Name<T>::s(), s + fmt("index %d", i)); } }
template<class T> void all(T a, T b, T c, T d) {
  const ld A = std::fabs(ld(a)), B = std::fabs(ld(b)), C = std::fabs(ld(c)), D = std::fabs(ld(d));
  ck<T>(cml::index_of_max(a, b), {ld(a), ld(b)}, true, "index-of-max"); ck<T>(cml::index_of_min(a, b), {ld(a), ld(b)}, false, "index-of-min"); ck<T>(cml::index_of_max_abs(a, b), {A, B}, true, "index-of-max-abs"); ck<T>(cml::index_of_min_abs(a, b), {A, B}, false, "index-of-min-abs");
  ck<T>(cml::index_of_max(a, b, c), {ld(a), ld(b), ld(c)}, true, "index-of-max"); ck<T>(cml::index_of_min(a, b, c), {ld(a), ld(b), ld(c)}, false, "index-of-min"); ck<T>(cml::index_of_max_abs(a, b, c), {A, B, C}, true, "index-of-max-abs"); ck<T>(cml::index_of_min_abs(a, b, c), {A, B, C}, false, "index-of-min-abs");
  ck<T>(cml::index_of_max(a, b, c, d), {ld(a), ld(b), ld(c), ld(d)}, true, "index-of-max"); ck<T>(cml::index_of_min(a, b, c, d), {ld(a), ld(b), ld(c), ld(d)}, false, "index-of-min"); ck<T>(cml::index_of_max_abs(a, b, c, d), {A, B, C, D}, true, "index-of-max-abs"); ck<T>(cml::index_of_min_abs(a, b, c, d), {A, B, C, D}, false, "index-of-min-abs");
}
template<class T> void extrema(Rng& g) {   // case i: one first value of the exhaustive part, then random ones
  const int lo = std::is_signed<T>::value ? -2 : 0, f = g.i(lo, lo + 4); mon::mix(f); for(int b = lo; b < lo + 5; ++b) for(int c = lo; c < lo + 5; ++c) for(int d = lo; d < lo + 5; ++d) all(T(f), T(b), T(c), T(d)); mon::bin("extrema/" + fmt("%d", f - lo)); for(int i = 0; i < 50; ++i) { auto v = [&] { const bool big = std::is_integral<T>::value && sizeof(T) == 8; T x = value<T>(g, !big, 20); return std::isnan(ld(x)) || (std::is_integral<T>::value && std::is_signed<T>::value && x == std::numeric_limits<T>::min()) ? T(1) : x; }; const T a = v(), b = g.coin(1, 4) ? a : v(), c = std::is_signed<T>::value && g.coin(1, 4) ? T(-b) : v(), d = g.coin(1, 4) ? a : v(); if(mon::noting()) mon::note(showt<T>({a, b, c, d})); else showt<T>({a, b, c, d}); all(a, b, c, d); }
}
void cycles(Rng& g) {
  const int N = g.i(1, 40), i = g.i(0, N - 1); mon::mix(N); mon::mix(i); if(mon::noting()) mon::note(fmt("%d of %d", i, N)); mon::check(cml::next(i, N) == (i == N - 1 ? 0 : i + 1), "next", fmt("%d %d", i, N)); mon::check(cml::prev(i, N) == (i == 0 ? N - 1 : i - 1), "prev", fmt("%d %d", i, N)); mon::check(cml::prev(cml::next(i, N), N) == i && cml::next(cml::prev(i, N), N) == i, "next-prev-inverse"); mon::bin(i == 0 ? "cycle/first" : i == N - 1 ? "cycle/last" : "cycle/inner");
  for(int f = 0; f < 4; ++f) { int a = 9, b = 9, c = 9, d = 9; if(f < 2) { cml::cyclic_permutation(f, a, b); mon::check(a == f && b == (f + 1) % 2, "cyclic-permutation-2", fmt("%d: %d %d", f, a, b)); } if(f < 3) { a = b = 9; cml::cyclic_permutation(f, a, b, c); mon::check(a == f && b == (f + 1) % 3 && c == (f + 2) % 3, "cyclic-permutation-3", fmt("%d: %d %d %d", f, a, b, c)); } a = b = c = 9; cml::cyclic_permutation(f, a, b, c, d); mon::check(a == f && b == (f + 1) % 4 && c == (f + 2) % 4 && d == (f + 3) % 4, "cyclic-permutation-4", fmt("%d: %d %d %d %d", f, a, b, c, d)); }
}
template<class T> void constants(Rng& g) {
  const ld PI = 3.14159265358979323846264338327950288L; const ld e = std::max(eps<T>(), eps<double>()); typedef cml::constants<T> K; mon::mix(g.next());
  auto c = [&](T x, ld w, const char* k) { near(x, w, e * w, std::string("constant-") + k); }; c(K::pi(), PI, "pi"); c(K::two_pi(), 2 * PI, "two-pi"); c(K::inv_pi(), 1 / PI, "inv-pi"); c(K::inv_two_pi(), 1 / (2 * PI), "inv-two-pi"); c(K::pi_over_2(), PI / 2, "pi-over-2"); c(K::pi_over_4(), PI / 4, "pi-over-4"); c(K::e(), std::exp(1.0L), "e"); c(K::deg_per_rad(), 180 / PI, "deg-per-rad"); c(K::rad_per_deg(), PI / 180, "rad-per-deg"); c(K::sqrt_2(), std::sqrt(2.0L), "sqrt-2"); c(K::sqrt_3(), std::sqrt(3.0L), "sqrt-3"); c(K::sqrt_5(), std::sqrt(5.0L), "sqrt-5"); c(K::sqrt_6(), std::sqrt(6.0L), "sqrt-6");
  eq(cml::epsilon<T>(), std::numeric_limits<T>::epsilon(), "epsilon"); near(T(cml::sqrt_epsilon<T>()), std::sqrt(eps<T>()), 1e-6L * std::sqrt(eps<T>()), "sqrt-epsilon"); mon::bin("constants");
  // the traits every function goes through
  const T x = T(g.r(-1, 1)), y = T(g.gauss() * 5), z = T(g.r(0.01L, 9)); mon::mixd(double(x)); mon::mixd(double(y)); typedef cml::scalar_traits<T> S; const ld q = 4 * eps<T>(); near(S::fabs(y), std::fabs(ld(y)), 0, "traits-fabs"); near(S::sqrt(z), std::sqrt(ld(z)), q * 3, "traits-sqrt"); near(S::cos(y), std::cos(ld(y)), q, "traits-cos"); near(S::sin(y), std::sin(ld(y)), q, "traits-sin"); near(S::tan(x), std::tan(ld(x)), 2 * q, "traits-tan"); near(S::acos(x), std::acos(ld(x)), q * 3, "traits-acos"); near(S::asin(x), std::asin(ld(x)), q * 2, "traits-asin"); near(S::atan(y), std::atan(ld(y)), q * 2, "traits-atan"); near(S::atan2(y, x), std::atan2(ld(y), ld(x)), q * 3, "traits-atan2"); near(S::log(z), std::log(ld(z)), q * 5, "traits-log"); near(S::exp(x), std::exp(ld(x)), q * 3, "traits-exp"); near(S::fmod(y, z), std::fmod(ld(y), ld(z)), 0, "traits-fmod");
}
// Whole numbers: every traits function is the truncated value of the double function, where that fits.
template<class T> void whole(Rng& g) {
  typedef cml::scalar_traits<T> S; const bool sg = std::is_signed<T>::value; const int m = 100; const T x = T(g.i(sg ? -m : 0, m)), y = T(g.i(sg ? -m : 0, m)), z = T(g.i(1, m)); if(mon::noting()) mon::note(showt<T>({x, y, z})); else showt<T>({x, y, z});
  auto c = [&](auto f, double w, const char* k) { if(!(w > -1e18 && w < 1e18) || (!sg && w <= -1) || w < double(std::numeric_limits<T>::min()) || std::fabs(w) >= double(std::numeric_limits<T>::max())) return; const T got = f(); mon::ev(); const ld lo = std::nextafter(w, -1e300), hi = std::nextafter(w, 1e300); if(got != T(w) && got != T(lo) && got != T(hi)) mon::fail(std::string("whole-") + k + Name<T>::s(), fmt("got %Lg want %.17g", ld(got), w)); };
  const double dx = double(x), dy = double(y), dz = double(z); c([&] { return S::fabs(x); }, std::fabs(dx), "fabs"); c([&] { return S::fmod(x, z); }, std::fmod(dx, dz), "fmod"); c([&] { return S::sqrt(z); }, std::sqrt(dz), "sqrt"); c([&] { return S::cos(x); }, std::cos(dx), "cos"); c([&] { return S::sin(x); }, std::sin(dx), "sin"); c([&] { return S::tan(x); }, std::tan(dx), "tan"); c([&] { return S::atan(x); }, std::atan(dx), "atan"); c([&] { return S::atan2(y, x); }, std::atan2(dy, dx), "atan2"); c([&] { return S::log(z); }, std::log(dz), "log"); const T h = T(x % 20); c([&] { return S::exp(h); }, std::exp(double(h)), "exp");
  const T u = T(g.i(sg ? -1 : 0, 1)); c([&] { return S::acos(u); }, std::acos(double(u)), "acos"); c([&] { return S::asin(u); }, std::asin(double(u)), "asin"); mon::bin("whole-traits");
}
#define G(f, T, n) mon::group(#f "-" #T, n, f<T>)
#define FLT(T) G(basic, T, 20000); G(algebra, T, 20000); G(wraps, T, 40000); G(maps, T, 20000); G(functions, T, 30000); G(extrema, T, 300); G(constants, T, 2000)
#define INT(T) G(basic, T, 10000); G(algebra, T, 10000); G(wraps, T, 10000); G(maps, T, 10000); G(extrema, T, 100); G(whole, T, 3000)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  FLT(double);
#elif PART == 1
  FLT(float);
#elif PART == 2
  FLT(long double); mon::group("cycles", 5000, cycles);
#elif PART == 3
  INT(int); INT(short); INT(signed char);
#elif PART == 4
  INT(long); INT(unsigned); INT(long long); INT(unsigned long); INT(unsigned char);
#endif
  return mon::finish();
}
