// C09: vector products, lengths, angles, projections against their definitions.
#include "reps.h"
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;
typedef std::vector<ld> RV;
inline ld dt(const RV& a, const RV& b) { ld s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline ld dta(const RV& a, const RV& b) { ld s = 0; for(size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i] * b[i]); return s; }
inline RV cr(const RV& a, const RV& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline ld len(const RV& a) { return std::sqrt(dt(a, a)); }
template<class E> RV up(const std::vector<E>& x) { return RV(x.begin(), x.end()); }
template<class E> struct is_fp : std::is_floating_point<E> {};

template<class T, class V> void near(const V& v, const RV& r, ld scale, const std::string& key, ld k = 64) {
  mon::ev();
  if(v.size() != int(r.size())) return mon::fail(key + "/size", fmt("got %d want %zu", int(v.size()), r.size()));
  for(size_t i = 0; i < r.size(); ++i) if(!mon::close(T(v.get(int(i))), r[i], scale, k) || (std::is_floating_point<T>::value == false && ld(v.get(int(i))) != r[i]))
    return mon::fail(key, fmt("[%zu] got %.17g want %.17Lg scale %.3Lg", i, double(v.get(int(i))), r[i], scale));
}
// every function of two vectors of size n; l and r are any readable vectors holding x and y
template<class T, class L, class R> void two(const char* form, const L& l, const R& r, const RV& x, const RV& y, bool same_type) {
  const int n = int(x.size()); const std::string f = std::string("/") + form;
  mon::ckc(T(cml::dot(l, r)), dt(x, y), dta(x, y), "dot" + f, 32);
  static_assert(std::is_same<decltype(cml::dot(l, r)), decltype(l.get(0) * r.get(0))>::value || !std::is_same<decltype(l.get(0)), decltype(r.get(0))>::value, "");
  { ld s = 0; for(int i = 0; i < n; ++i) s += std::fabs(x[i] - y[i]); mon::ckc(T(cml::manhattan_distance(l, r)), s, dta(RV(n, 1), x) + dta(RV(n, 1), y), "manhattan" + f, 16); }
  { auto m = cml::outer(l, r); mon::ev(); bool ok = m.rows() == n && m.cols() == n; for(int i = 0; ok && i < n; ++i) for(int j = 0; j < n; ++j) ok = ok && mon::close(T(m.get(i, j)), x[i] * y[j], x[i] * y[j], 2) && (is_fp<T>::value || ld(m.get(i, j)) == x[i] * y[j]); if(!ok) mon::fail("outer" + f, showm(m)); }
  if constexpr(std::is_floating_point<T>::value) {
    const ld ly = len(y), lx = len(x);
    if(ly > 0) { auto p = cml::project_to_vector(l, r); RV q(y); ld s = dt(x, y) / dt(y, y); for(auto& e : q) e *= s; typedef typename std::decay<decltype(r.get(0))>::type B; const ld own = mon::eps<B>() > mon::eps<T>() ? mon::eps<B>() / mon::eps<T>() : 1;  // the length is computed in the type of its vector
      near<T>(p, q, lx, "project-to-vector" + f, 64 * own); }
    if(ly > 0) {  // hyperplane with the (rounded) unit normal
      RV u(y); std::vector<T> ut(n); for(int i = 0; i < n; ++i) { ut[i] = T(y[i] / ly); u[i] = ut[i]; } VH<vector<T, dynamic<>>> h(ut);
      RV q(x); ld s = dt(x, u); for(int i = 0; i < n; ++i) q[i] -= s * u[i];
      near<T>(cml::project_to_hplane(l, h.v), q, lx, "project-to-hplane" + f, 64); mon::ckc(T(cml::dot(cml::project_to_hplane(l, h.v), h.v)), 0, lx, "hplane-orthogonal" + f, 128); }
  }
  (void) same_type;
}
template<class T, class L, class R> void two2(const char* form, const L& l, const R& r, const RV& x, const RV& y) {
  const std::string f = std::string("/") + form; const ld S = len(x) * len(y), pd = x[0] * y[1] - x[1] * y[0];
  mon::ckc(T(cml::perp_dot(l, r)), pd, std::fabs(x[0] * y[1]) + std::fabs(x[1] * y[0]), "perp-dot" + f, 8);
  { auto p = cml::perp(l); near<T>(p, RV{-x[1], x[0]}, 0, "perp" + f, 1); }
  if constexpr(std::is_floating_point<T>::value) if(S > 0) {
    const ld a = std::atan2(pd, dt(x, y)), pi = 3.14159265358979323846264338L; const bool half = pi - std::fabs(a) < 1e3 * mon::eps<T>();
    const T s = cml::signed_angle_2D(l, r), u = cml::unsigned_angle_2D(l, r);
    if(half) { mon::ckc(T(std::fabs(s)), std::fabs(a), pi, "signed-angle-2D-half-turn" + f, 64); mon::bin("angle/half-turn"); } else mon::ckc(s, a, 1, "signed-angle-2D" + f, 64);
    mon::ckc(u, std::fabs(a), 1, "unsigned-angle-2D" + f, 64); if(a < -0.1) mon::bin("angle-2D/clockwise");
    mon::check(u >= 0 && u <= T(pi) * (1 + mon::eps<T>()), "unsigned-angle-2D-range" + f, fmt("%.17g", double(u)));
  }
}
template<class T, class L, class R, class Q> void two3(const char* form, const L& l, const R& r, const Q& q, const RV& x, const RV& y, const RV& z) {
  const std::string f = std::string("/") + form; const ld S = len(x) * len(y); RV c = cr(x, y);
  near<T>(cml::cross(l, r), c, S, "cross" + f, 8); { const auto e = cml::cross(l, r); typename std::decay<decltype(e[0])>::type m[3] = {e[0], e[1], e[2]}; near<T>(VH<vector<T, dynamic<>>>(std::vector<T>{T(m[0]), T(m[1]), T(m[2])}).v, c, S, "cross-kept" + f, 8); }
  mon::ckc(T(cml::triple_product(l, r, q)), dt(x, cr(y, z)), S * len(z), "triple" + f, 32);
  if constexpr(std::is_floating_point<T>::value) if(S > 0) {
    const ld lc = len(c), a = std::atan2(lc, dt(x, y)); const T u = cml::unsigned_angle(l, r), s = cml::signed_angle(l, r, q);
    mon::ckc(u, a, 1, "unsigned-angle" + f, 64); mon::check(u >= 0 && u <= T(3.14159265358979323846) * (1 + mon::eps<T>()), "unsigned-angle-range" + f, fmt("%.17g", double(u)));
    const ld side = dt(c, z), lim = 1e3 * mon::eps<T>() * S * len(z);
    if(side > lim) mon::ckc(s, a, 1, "signed-angle-positive" + f, 64); else if(side < -lim) { mon::ckc(s, -a, 1, "signed-angle-negative" + f, 64); mon::bin("angle/negative"); } else mon::ckc(T(std::fabs(s)), a, 1, "signed-angle-size" + f, 64);
    if(mon::eps<T>() * 1e4 < lc / S) { mon::bin("angle/general"); }
    // rotation about a unit axis
    const ld lz = len(z);
    if(lz > 0) {
      std::vector<T> ut(3); RV n(3); for(int i = 0; i < 3; ++i) { ut[i] = T(z[i] / lz); n[i] = ut[i]; } VH<vector<T, fixed<3>>> hn(ut);
      const T ang = T(a * 2 - 3 + (side > 0 ? 1 : 0)); const ld C = std::cos(ld(ang)), Sn = std::sin(ld(ang)); RV nx = cr(n, x); const ld d = dt(x, n); RV w(3); for(int i = 0; i < 3; ++i) w[i] = C * (x[i] - d * n[i]) + Sn * nx[i] + d * n[i];
      auto v = cml::rotate_vector(l, hn.v, ang); near<T>(v, w, len(x), "rotate-vector" + f, 64); mon::ckc(T(v.length()), len(x), len(x), "rotate-vector-length" + f, 128);
    }
  }
}
template<class T, class L> void one(const char* form, const L& l, const RV& x) {
  const std::string f = std::string("/") + form; const int n = int(x.size());
  mon::ckc(T(l.length_squared()), dt(x, x), dt(x, x), "length-squared" + f, 32); mon::ckc(T(cml::length_squared(l)), dt(x, x), dt(x, x), "length-squared-free" + f, 32);
  if constexpr(std::is_floating_point<T>::value) {
    const ld lx = len(x); mon::ckc(T(l.length()), lx, lx, "length" + f, 32); mon::ckc(T(cml::length(l)), lx, lx, "length-free" + f, 32);
    if(lx > 0) { RV u(x); for(auto& e : u) e /= lx; near<T>(l.normalize(), u, 1, "normalize-member" + f, 32); auto z = cml::normalize(l); near<T>(z, u, 1, "normalize-free" + f, 32); mon::ckc(T(cml::length(z)), 1, 1, "normalize-unit" + f, 32); }
  }
  (void) n;
}
// values: general, axis aligned, nearly or exactly parallel, different magnitudes
template<class E> std::vector<E> gen(Rng& g, int n, int kind, const std::vector<E>& o = {}) {
  std::vector<E> v(n);
  if(!std::is_floating_point<E>::value) { for(auto& e : v) e = E(g.i(std::is_signed<E>::value ? -9 : 0, 9)); }
  else if(kind == 1 && int(o.size()) == n) { ld k = g.wide(-1, 1); for(int i = 0; i < n; ++i) v[i] = E(o[i] * k); mon::bin("input/parallel"); }
  else if(kind == 2 && int(o.size()) == n) { ld k = g.wide(-1, 1); for(int i = 0; i < n; ++i) v[i] = E(o[i] * k * (1 + g.r(-1, 1) * 1e-4)); mon::bin("input/nearly-parallel"); }
  else if(kind == 3) { v[g.i(0, n - 1)] = E(g.wide(-1, 1)); mon::bin("input/axis-aligned"); }
  else { ld k = std::fabs(g.wide(-3, 3)); for(auto& e : v) e = E(g.gauss() * k); mon::bin("input/general"); }
  for(auto e : v) mon::mixd(double(e)); return v;
}
template<class V, class W> void pairs(Rng& g) {
  typedef VH<V> H; typedef VH<W> K; typedef typename H::elem A; typedef typename K::elem B; typedef decltype(A() * B()) T;
  const int n = H::N_ > 0 ? H::N_ : K::N_ > 0 ? K::N_ : g.n(1, 6, 50);
  auto x = gen<A>(g, n, g.i(0, 5)); auto y = gen<B>(g, n, g.i(0, 5), std::vector<B>(x.begin(), x.end()));
  H h(x); K k(y); const V& a = h.v; const W& b = k.v; const RV rx = up(x), ry = up(y);
  if(mon::noting()) mon::note(fmt("%s<%s> ", H::tag(), ename<A>()) + show(x) + fmt(" with %s<%s> ", K::tag(), ename<B>()) + show(y));
  auto all = [&](auto c) { c("named", a, b); c("temporaries", a * A(1), +b); c("left-expression", -(-a), b); };
  all([&](const char* f, const auto& l, const auto& r) { two<T>(f, l, r, rx, ry, false); one<A>(f, l, rx); });
  constexpr bool c2 = (H::N_ == 2 || H::N_ < 0) && (K::N_ == 2 || K::N_ < 0), c3 = (H::N_ == 3 || H::N_ < 0) && (K::N_ == 3 || K::N_ < 0);
  if constexpr(c2) if(n == 2) all([&](const char* f, const auto& l, const auto& r) { two2<T>(f, l, r, rx, ry); });
  if constexpr(c3) if(n == 3) { auto z = gen<A>(g, 3, g.i(0, 4), x); H q(z); RV rz = up(z); all([&](const char* f, const auto& l, const auto& r) { two3<T>(f, l, r, q.v, rx, ry, rz); }); two3<T>("third-expression", a, b, q.v * A(1), rx, ry, rz); }
  mon::check(eqv(a, x) && eqv(b, y), "operand-unchanged");
}
// any representation against a dynamic one
template<class E> void forms(Rng& g) {
  const int n = g.coin() ? 3 : g.n(1, 5, 40), i = g.i(0, 12); auto x = gen<E>(g, n, g.i(0, 5)), y = gen<E>(g, n, g.i(0, 5), x); VH<vector<E, dynamic<>>> k(y); const RV rx = up(x), ry = up(y);
  rep<E>(i, x, [&](const auto& l) { two<E>(RN[i], l, k.v, rx, ry, true); one<E>(RN[i], l, rx); });
  mon::bin(std::string("form/") + RN[i]); if(mon::noting()) mon::note(std::string(RN[i]) + show(x) + show(y));
}
template<int N> void gens(Rng& g) {
  const int i = g.i(0, N - 1); auto a = cml::axis<N>(i); auto z = cml::zero<N>(); mon::check(a.size() == N && z.size() == N, "generator-size");
  for(int j = 0; j < N; ++j) { mon::cke(a[j], i == j, "axis"); mon::cke(z[j], 0, "zero"); }
  mon::mix(N * 16 + i); const double E[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  auto is = [&](auto v, const double* e, int n, const char* key) { bool ok = v.size() == n; for(int k = 0; ok && k < n; ++k) ok = v[k] == e[k]; mon::check(ok, key); };
  is(cml::x_axis_2D(), E[0], 2, "x-axis-2D"); is(cml::y_axis_2D(), E[1], 2, "y-axis-2D"); is(cml::x_axis_3D(), E[0], 3, "x-axis-3D"); is(cml::y_axis_3D(), E[1], 3, "y-axis-3D"); is(cml::z_axis_3D(), E[2], 3, "z-axis-3D");
  const double o[4] = {0, 0, 0, 0}; is(cml::zero_2D(), o, 2, "zero-2D"); is(cml::zero_3D(), o, 3, "zero-3D"); is(cml::zero_4D(), o, 4, "zero-4D"); const int q = g.i(0, 2), q2 = g.i(0, 1); is(cml::axis_3D(q), E[q], 3, "axis-3D"); is(cml::axis_2D(q2), E[q2], 2, "axis-2D");
}
template<class E> using F2 = vector<E, fixed<2>>; template<class E> using F3 = vector<E, fixed<3>>; template<class E> using F4 = vector<E, fixed<4>>; template<class E> using X3 = vector<E, external<3>>; template<class E> using X2 = vector<E, external<2>>; template<class E> using C3 = vector<const E, external<3>>;
template<class E> using D = vector<E, dynamic<>>; template<class E> using X = vector<E, external<>>; template<class E> using CX = vector<const E, external<>>;
#define P_(n, V, W) mon::group(n, 1500, pairs<V, W>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  P_("f3-f3", F3<double>, F3<double>); P_("f3-x3", F3<double>, X3<double>); P_("f3-d", F3<double>, D<double>); P_("f3-x", F3<double>, X<double>);
#elif PART == 1
  P_("x3-c3", X3<double>, C3<double>); P_("x3-f3", X3<double>, F3<double>); P_("x3-d", X3<double>, D<double>); P_("c3-f3", C3<double>, F3<double>);
#elif PART == 2
  P_("d-d", D<double>, D<double>); P_("d-f3", D<double>, F3<double>); P_("d-x", D<double>, X<double>); P_("d-f2", D<double>, F2<double>);
#elif PART == 3
  P_("x-x", X<double>, X<double>); P_("cx-d", CX<double>, D<double>); P_("f2-f2", F2<double>, F2<double>); P_("f2-x2", F2<double>, X2<double>); P_("x2-d", X2<double>, D<double>); P_("f4-f4", F4<double>, F4<double>);
#elif PART == 4
  P_("float-f3-f3", F3<float>, F3<float>); P_("float-d-d", D<float>, D<float>); P_("float-f2-f2", F2<float>, F2<float>); P_("float-f4-x", F4<float>, X<float>); P_("float-x3-d", X3<float>, D<float>);
#elif PART == 5
  P_("float-double-3", F3<float>, F3<double>); P_("double-float-d", D<double>, D<float>); P_("double-float-2", F2<double>, X2<float>); P_("int-double", F3<int>, D<double>); P_("double-int", D<double>, X3<int>);
#elif PART == 6
  P_("int-3", F3<int>, F3<int>); P_("int-d", D<int>, D<int>); P_("int-2", X2<int>, F2<int>); P_("unsigned-float", F3<float>, F3<short>);
  mon::group("gen-2", 50, gens<2>); mon::group("gen-3", 50, gens<3>); mon::group("gen-5", 50, gens<5>);
#elif PART == 7
  mon::group("forms-double", 8000, forms<double>); mon::group("forms-float", 8000, forms<float>); mon::group("forms-int", 3000, forms<int>);
#endif
  return mon::finish();
}
