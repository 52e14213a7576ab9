// C17: polar, cylindrical and spherical coordinates against their definitions; conversions undo each other.
#include "geo.h"
using namespace geo; using namespace zoo;
const ld PI = 3.14159265358979323846264338327950288L;
template<class... T> constexpr ld epsmax() { return std::max({std::is_integral<T>::value ? ld(0) : ld(std::numeric_limits<typename std::conditional<std::is_integral<T>::value, double, T>::type>::epsilon())...}); }
template<class T> ld soft() { return std::is_integral<T>::value ? 0 : std::sqrt(ld(std::numeric_limits<typename std::conditional<std::is_integral<T>::value, double, T>::type>::epsilon())); }
// readable vectors in several forms
template<class E, int N, class F> void in(Rng& g, const std::vector<E>& e, F f) {
  const int k = g.i(0, 6); mon::bin(fmt("vector-form/%d", k)); const VH<vector<E, fixed<N>>> a(e);
  switch(k) {
    case 1: { VH<vector<E, dynamic<>>> b(e); f(b.v); return; } case 2: { VH<vector<const E, external<>>> b(e); f(b.v); return; } case 3: f(-(-a.v)); return;
    case 4: { cml::matrix<E, dynamic<>> m(N, 2); for(int i = 0; i < N; ++i) { m(i, 0) = E(9); m(i, 1) = e[i]; } f(cml::col(m, 1)); return; } case 5: { VH<vector<E, external<N>>> b(e); f(b.v); return; }
    case 6: { std::vector<E> w(e); w.insert(w.begin(), E(77)); VH<vector<E, fixed<N + 1>>> b(w); f(cml::subvector(b.v, 0)); return; }
    default: f(a.v); }
}
// writable vectors in several storages, filled with junk
template<class E, int N, class F> void out(Rng& g, F f) {
  const std::vector<E> e(N, E(77)); const int k = g.i(0, 3); mon::bin(fmt("target-form/%d", k));
  switch(k) { case 1: { VH<vector<E, dynamic<>>> b(e); f(b.v); mon::check(b.v.size() == N, "target-size"); return; } case 2: { VH<vector<E, external<>>> b(e); f(b.v); return; } case 3: { VH<vector<E, external<N>>> b(e); f(b.v); return; } default: { VH<vector<E, fixed<N>>> b(e); f(b.v); } }
}
const char AX[] = "xyz";
// a coordinate triple as stored: general, on an axis, in a plane, the origin, near an axis, integers; x[2] is along the axis
template<class E> V3 point(Rng& g) {
  V3 x = std::is_integral<E>::value ? V3{ld(g.i(-99, 99)), ld(g.i(-99, 99)), ld(g.i(-99, 99))} : gauss3(g) * std::pow(10.0L, g.r(-3, 3)); const int k = g.i(0, 7);
  switch(k) { case 0: x[0] = x[1] = 0; break; case 1: x[2] = 0; break; case 2: x[g.i(0, 1)] = g.coin() ? 0.0L : -0.0L; break; case 3: x = {0, 0, 0}; break; case 4: for(ld& c : x) c = g.i(-3, 3); break; case 5: { const ld s = std::pow(10.0L, g.r(-9, -1)); x[0] *= s; x[1] *= s; break; } case 6: x[2] *= std::pow(10.0L, g.r(-9, -1)); break; default: break; }
  static const char* const N[] = {"on-axis", "in-base-plane", "in-a-plane", "origin", "integers", "near-axis", "near-base-plane", "general"}; mon::bin(std::string("point/") + N[k]); for(ld& c : x) { c = ld(E(c)); mon::mixd(double(c)); } return x; }
struct Tol { ld lo, hi; };   // the zero tolerance lies between these
// angle: zero under the tolerance, the definition above
void ckangle(ld got, ld size, ld want, Tol t, ld e, const std::string& key) { mon::ev(); const bool z = got == 0, w = std::fabs(got - want) <= e * (1 + std::fabs(want)); const ld s = 1e-3L; if(size < t.lo * (1 - s) ? !z : size > t.hi * (1 + s) ? !w : !(z || w)) mon::fail(key, fmt("got %.17Lg want %.17Lg size %.6Lg tolerances %.6Lg %.6Lg", got, want, size, t.lo, t.hi)); }
// E: coordinates; A, B, C: the types of the results
template<class E, class A, class B, class C> void from(Rng& g) {
  const V3 x = point<E>(g); const ld e = 8 * epsmax<E, A, B, C>(), len2 = std::sqrt(x[0] * x[0] + x[1] * x[1]), len3 = std::sqrt(len2 * len2 + x[2] * x[2]); const ld th = std::atan2(x[1], x[0]), co = std::atan2(len2, x[2]); if(mon::noting()) mon::note(geo::show(x));
  const bool exp = g.coin(); const ld xt = ld(A(std::pow(10.0L, g.r(-8, 1)))); const A at = A(xt); const ld s[3] = {soft<E>(), soft<A>(), soft<B>()}; Tol t = exp ? Tol{xt, xt} : Tol{*std::min_element(s, s + 3), std::max({s[0], s[1], s[2], soft<C>()})}; if(!exp && std::is_integral<E>::value) t.lo = 0; mon::bin(exp ? "tolerance/explicit" : "tolerance/default"); if(len2 < t.lo && len2 > 0) mon::bin("below-tolerance");
  const std::string k2 = len2 < 1e-30L ? "" : x[0] > 0 ? (x[1] >= 0 ? "quadrant/1" : "quadrant/4") : (x[1] >= 0 ? "quadrant/2" : "quadrant/3"); if(k2.size()) mon::bin(k2);
  in<E, 2>(g, {E(x[0]), E(x[1])}, [&](const auto& v) { A r = A(77); B q = B(77); if(exp) cml::cartesian_to_polar(v, r, q, at); else cml::cartesian_to_polar(v, r, q); near(r, len2, e * len2, "polar-radius"); ckangle(q, len2, th, t, e, "polar-angle"); mon::bin("polar");
    if(len2 > 1.1L * t.hi) out<double, 2>(g, [&](auto& w) { cml::polar_to_cartesian(w, r, q); near(w[0], x[0], 4 * e * len2, "polar-round-trip"); near(w[1], x[1], 4 * e * len2, "polar-round-trip"); }); });
  const int ax = g.i(0, 2); mon::mix(ax); std::vector<E> c(3); c[(ax + 1) % 3] = E(x[0]); c[(ax + 2) % 3] = E(x[1]); c[ax] = E(x[2]); const std::string ta = std::string("/") + AX[ax];
  auto ckvec = [&](const auto& w, ld te, const std::string& k) { mon::ev(); bool ok = true; for(int i = 0; i < 3; ++i) ok &= std::fabs(ld(w[i]) - c[i]) <= te; if(!ok) mon::fail(k, fmt("got %.12g %.12g %.12g want %.12g %.12g %.12g", double(w[0]), double(w[1]), double(w[2]), double(c[0]), double(c[1]), double(c[2]))); };
  in<E, 3>(g, c, [&](const auto& v) { A r = A(77); B q = B(77); C h = C(77); if(exp) cml::cartesian_to_cylindrical(v, ax, r, q, h, at); else cml::cartesian_to_cylindrical(v, ax, r, q, h); near(r, len2, e * len2, "cylindrical-radius" + ta); ckangle(q, len2, th, t, e, "cylindrical-angle" + ta); near(h, x[2], e * std::fabs(x[2]), "cylindrical-height" + ta); mon::bin("cylindrical" + ta);
    if(len2 == 0 || len2 > 1.1L * t.hi) out<double, 3>(g, [&](auto& w) { cml::cylindrical_to_cartesian(w, ax, r, q, h); ckvec(w, 4 * e * len3, "cylindrical-round-trip" + ta); });
    { A r2 = A(77), q2 = A(77), h2 = A(77); int axv = ax; if(exp) cml::cartesian_to_cylindrical(v, r2, q2, h2, axv, at); else cml::cartesian_to_cylindrical(v, r2, q2, h2, axv); near(r2, len2, e * len2, "cylindrical-radius-compat" + ta); ckangle(q2, len2, th, Tol{exp ? xt : std::is_integral<E>::value ? 0 : std::min(soft<A>(), soft<E>()), exp ? xt : std::max(soft<A>(), soft<E>())}, e, "cylindrical-angle-compat" + ta); near(h2, x[2], e * std::fabs(x[2]), "cylindrical-height-compat" + ta); } });
  const bool lat = g.coin(); mon::mix(lat); const auto ty = lat ? cml::latitude : cml::colatitude; const ld ph = lat ? PI / 2 - co : co; const std::string tl = std::string(lat ? "/latitude" : "/colatitude") + ta;
  in<E, 3>(g, c, [&](const auto& v) { A r = A(77); B q = B(77); C p = C(77); if(exp) cml::cartesian_to_spherical(v, ax, ty, r, q, p, at); else cml::cartesian_to_spherical(v, ax, ty, r, q, p); mon::bin("spherical" + tl);
    auto ck = [&](ld r, ld q, ld p, Tol t, const std::string& k) { near(r, len3, e * len3, "spherical-radius" + k + tl); ckangle(q, len2, th, t, e, "spherical-azimuth" + k + tl); ckangle(p, len3, ph, t, 2 * e, "spherical-inclination" + k + tl); if(lat) mon::check(std::fabs(p) <= PI / 2 + e, "spherical-latitude-range"); else mon::check(p >= 0 && p <= PI + e, "spherical-colatitude-range"); }; ck(r, q, p, t, "");
    if(len3 == 0 || len2 > 1.1L * t.hi || (len2 == 0 && len3 > 1.1L * t.hi)) out<double, 3>(g, [&](auto& w) { cml::spherical_to_cartesian(w, ax, ty, r, q, p); ckvec(w, 8 * e * len3, "spherical-round-trip" + tl); });
    { A r2 = A(77), q2 = A(77), p2 = A(77); int axv = ax; if(exp) cml::cartesian_to_spherical(v, r2, q2, p2, axv, ty, at); else cml::cartesian_to_spherical(v, r2, q2, p2, axv, ty); ck(r2, q2, p2, Tol{exp ? xt : std::is_integral<E>::value ? 0 : std::min(soft<A>(), soft<E>()), exp ? xt : std::max(soft<A>(), soft<E>())}, "-compat"); } });
}
template<class B> B angle(Rng& g, ld lo, ld hi, int k) { return B(k == 0 ? 0 : k == 1 ? lo + (hi - lo) * g.i(0, 4) / 4 : k == 2 ? g.r(-20, 20) : g.r(lo, hi)); }
// E: target element; A, B, C: the types of radius and angles
template<class E, class A, class B, class C> void to(Rng& g) {
  const A r = std::is_integral<A>::value ? A(g.i(-20, 20)) : A((g.coin(1, 8) ? 0 : g.coin(1, 6) ? -1 : 1) * std::pow(10.0L, g.r(-3, 3))); const int kq = g.i(0, 5), kp = g.i(0, 5); const B q = angle<B>(g, -PI, PI, kq); const C h = C(g.gauss() * 10); const bool lat = g.coin(); const C p = angle<C>(g, lat ? -PI / 2 : 0, lat ? PI / 2 : PI, kp); const int ax = g.i(0, 2); for(double d : {double(r), double(q), double(p), double(h), double(ax * 2 + lat)}) mon::mixd(d); if(mon::noting()) mon::note(fmt("radius %.9g angles %.9g %.9g height %.9g", double(r), double(q), double(p), double(h)));
  const ld e = 8 * epsmax<E, B, C>(), ar = std::fabs(ld(r)), c = std::cos(ld(q)), s = std::sin(ld(q)), ph = lat ? PI / 2 - ld(p) : ld(p), cp = std::cos(ph), sp = std::sin(ph), ep = e * (1 + std::fabs(ld(p))); const std::string ta = std::string("/") + AX[ax], tl = std::string(lat ? "/latitude" : "/colatitude") + ta; const auto ty = lat ? cml::latitude : cml::colatitude; mon::bin(r < 0 ? "radius/negative" : r == 0 ? "radius/zero" : "radius/positive"); mon::bin(kq == 2 ? "angle/multi-turn" : "angle/one-turn");
  const int j = (ax + 1) % 3, k = (ax + 2) % 3;
  out<E, 2>(g, [&](auto& v) { cml::polar_to_cartesian(v, r, q); near(v[0], c * r, e * ar, "polar-x"); near(v[1], s * r, e * ar, "polar-y"); });
  out<E, 2>(g, [&](auto& v) { cml::polar_to_cartesian(B(r), q, v); near(v[0], c * ld(B(r)), e * ar, "polar-x-compat"); near(v[1], s * ld(B(r)), e * ar, "polar-y-compat"); mon::bin("to-polar"); });
  auto cyl = [&](const auto& v, ld r, ld h, const std::string& n) { near(v[j], c * r, e * ar, "cylindrical-j" + n + ta); near(v[k], s * r, e * ar, "cylindrical-k" + n + ta); near(v[ax], h, e * std::fabs(h), "cylindrical-axis" + n + ta); };
  out<E, 3>(g, [&](auto& v) { cml::cylindrical_to_cartesian(v, ax, r, q, h); cyl(v, r, h, ""); mon::bin("to-cylindrical" + ta); }); out<E, 3>(g, [&](auto& v) { cml::cylindrical_to_cartesian(B(r), q, B(h), ax, v); cyl(v, ld(B(r)), ld(B(h)), "-compat"); });
  auto sph = [&](const auto& v, ld r, const std::string& n) { near(v[j], c * r * sp, ep * ar, "spherical-j" + n + tl); near(v[k], s * r * sp, ep * ar, "spherical-k" + n + tl); near(v[ax], r * cp, ep * ar, "spherical-axis" + n + tl); };
  out<E, 3>(g, [&](auto& v) { cml::spherical_to_cartesian(v, ax, ty, r, q, p); sph(v, r, ""); mon::bin("to-spherical" + tl);
    // and back to the coordinates of the point
    if(r > 0 && kq > 2 && kp > 2 && sp > 0.05L) { A rr = A(77); if constexpr(!std::is_integral<A>::value) { B qq = B(77); C pp = C(77); cml::cartesian_to_spherical(v, ax, ty, rr, qq, pp, A(r * A(0.01))); const ld te = 8 * std::max({ep, 8 * epsmax<A>()}); near(rr, r, te * ar, "spherical-back-radius" + tl); ld d = std::fabs(ld(qq) - q); d = std::min(d, std::fabs(d - 2 * PI)); near(d, 0, te / sp, "spherical-back-azimuth" + tl); near(pp, p, te * 4, "spherical-back-inclination" + tl); mon::bin("back"); } } });
  out<E, 3>(g, [&](auto& v) { if(std::is_same<B, C>::value) { cml::spherical_to_cartesian(B(r), q, B(p), ax, ty, v); sph(v, ld(B(r)), "-compat"); } });
  // an axis that does not exist is rejected, and nothing is written
  const int bad = g.coin() ? g.i(3, 9) : g.i(-5, -1); std::vector<E> e0 = {E(1), E(2), E(3)};
  auto rejects = [&](const char* n, auto f) { bool t = false; try { f(); } catch(const std::invalid_argument&) { t = true; } mon::check(t, std::string("axis-rejected/") + n, fmt("axis %d", bad)); };
  out<E, 3>(g, [&](auto& v) { A a = A(5); B b = B(5); C d = C(5); rejects("to-cylindrical", [&] { cml::cylindrical_to_cartesian(v, bad, r, q, h); }); rejects("to-spherical", [&] { cml::spherical_to_cartesian(v, bad, ty, r, q, p); }); for(int i = 0; i < 3; ++i) mon::check(v[i] == E(77), "rejected-call-writes-nothing"); rejects("from-cylindrical", [&] { cml::cartesian_to_cylindrical(v, bad, a, b, d); }); rejects("from-spherical", [&] { cml::cartesian_to_spherical(v, bad, ty, a, b, d); }); mon::check(a == A(5) && b == B(5) && d == C(5), "rejected-call-writes-nothing"); mon::bin("axis-rejected"); });
}
#define FROM(E, A, B, C) mon::group("from-" #E "-" #A "-" #B "-" #C, 5000, from<E, A, B, C>)
#define TO(E, A, B, C) mon::group("to-" #E "-" #A "-" #B "-" #C, 5000, to<E, A, B, C>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  FROM(double, double, double, double); TO(double, double, double, double);
#elif PART == 1
  FROM(float, float, float, float); TO(float, float, float, float);
#elif PART == 2
  FROM(int, double, double, double); TO(double, int, double, double);
#elif PART == 3
  FROM(double, float, double, float); TO(float, double, float, double);
#elif PART == 4
  FROM(float, double, float, double); TO(double, float, double, float);
#elif PART == 5
  FROM(int, float, float, float); TO(float, int, float, float);
#endif
  return mon::finish();
}
