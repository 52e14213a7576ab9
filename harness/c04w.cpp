// C04, C05, C06: element-wise operations over the whole range of the element types (zeros of both signs, denormals, values next to
// overflow, quotients that round). Every element is the value C++ gives for the same operation on the elements.
#include "zoo.h"
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld; typedef long double long_double;

template<class E> E wide(Rng& g) {
  E x;
  if constexpr(std::is_integral<E>::value) { x = E(g.i(-99, 99)); }
  else {
    typedef std::numeric_limits<E> L;
    switch(g.i(0, 11)) {
      case 0: x = E(g.coin() ? 0. : -0.); mon::bin("value/zero"); break;
      case 1: x = L::denorm_min() * E(g.i(1, 1000)); mon::bin("value/denormal"); break;
      case 2: x = L::min() * E(g.r(.2, 3)); mon::bin("value/smallest"); break;
      case 3: x = L::max() * E(g.r(.2, 1)); mon::bin("value/largest"); break;
      case 4: x = E(1) + L::epsilon() * E(g.i(-3, 3)); break;
      case 5: x = std::ldexp(E(g.r(.5, 1)), g.i(L::min_exponent, L::max_exponent)); mon::bin("value/any-exponent"); break;
      case 6: x = E(g.i(-20, 20)); break;
      case 7: x = E(1) / E(g.i(1, 99)); break;
      default: x = E(g.r(-10, 10)); mon::bin("value/general");
    }
    if(g.coin()) x = -x;
  }
  mon::mixd(double(x)); return x;
}
template<class E> E divisor(Rng& g) { for(;;) { E x = wide<E>(g); if(x != E(0)) return x; } }

// the reference value r, or within u units in the last place of it
template<class A, class B> bool agree(A a, B b, int u) {
  if constexpr(std::is_integral<B>::value) return ld(a) == ld(b);
  else {
    const ld x = ld(a), y = ld(b); if(std::isnan(y)) return std::isnan(x); if(x == y) return u < 0 || y != 0 || std::signbit(x) == std::signbit(y); if(u <= 0 || std::isinf(x) != std::isinf(y)) { if(u <= 0) return false; const ld m = ld(std::numeric_limits<B>::max()); return std::min(std::fabs(x), std::fabs(y)) >= m * (1 - u * mon::eps<B>()); }
    return std::fabs(x - y) <= u * (mon::eps<B>() * std::fabs(y) + ld(std::numeric_limits<B>::denorm_min()));
  }
}
template<class E> std::string sv(const std::vector<E>& v) { std::string s = "("; for(E x : v) s += fmt(" %.9Lg", ld(x)); return s + " )"; }

#if KIND != 1
template<class X, class F> void ev(const X& e, int n, F f, int u, const char* key) {
  mon::ev(); if(e.size() != n) return mon::fail(std::string(key) + "/size", fmt("%d", int(e.size())));
  for(int i = 0; i < n; ++i) { const auto w = f(i); if(!agree(e.get(i), w, u) || !agree(e[i], w, u)) return mon::fail(key, fmt("element %d of %d: got %.17Lg want %.17Lg", i, n, ld(e.get(i)), ld(w))); }
}
template<class V1, class V2> void vec(Rng& g, int n) {
  typedef typename VH<V1>::elem E; typedef typename VH<V2>::elem F; typedef typename std::common_type<E, F>::type R; typedef VH<vector<E, dynamic<>>> DH;
  std::vector<E> x(n); std::vector<F> y(n); for(auto& e : x) e = wide<E>(g); for(auto& e : y) e = wide<F>(g); const F s = wide<F>(g), d = divisor<F>(g), q = divisor<F>(g); const E t = divisor<E>(g);
  VH<V1> a(x); VH<V2> b(y); const V1& v = a.v; const V2& w = b.v; if(mon::noting()) mon::note(sv(x) + " ; " + sv(y) + fmt(" ; s %.9Lg d %.9Lg q %.9Lg t %.9Lg", ld(s), ld(d), ld(q), ld(t)));
  mon::bin(std::string("wide/") + VH<V1>::tag() + "/" + VH<V2>::tag());
#define CK(key, expr, ref, u) do { { auto k = expr; ev(k, n, [&](int i) { (void) i; return ref; }, u, key); } { auto f = [&](int i) { (void) i; return ref; }; typedef decltype(f(0)) T; vector<T, dynamic<>> z(n); z = expr; ev(z, n, f, u, key "/assigned"); vector<T, dynamic<>> c(expr); ev(c, n, f, u, key "/constructed"); } } while(0)
  int i = 0; (void) i;
#if KIND == 0
  CK("negate", -v, E(-x[i]), 0); CK("plus", +v, E(+x[i]), 0); CK("add", v + w, R(x[i] + y[i]), 0); CK("subtract", v - w, R(x[i] - y[i]), 0); CK("subtract-reversed", w - v, R(y[i] - x[i]), 0);
  CK("scale", v * s, R(x[i] * s), 0); CK("scale-left", s * v, R(s * x[i]), 0); CK("divide", v / d, R(x[i] / d), 2); CK("divide-own", v / t, E(x[i] / t), 2); CK("hadamard", hadamard(v, w), R(x[i] * y[i]), 0);
  CK("negate-sum", -(v + w), R(-(x[i] + y[i])), 0); CK("negate-scaled", -(v * s), R(-(x[i] * s)), 0); CK("difference-of-negated", -v - w, R(-x[i] - y[i]), 0); CK("double-negation", -(-v), x[i], 0); CK("quotient-twice", v / d / q, R(R(x[i] / d) / q), 6); CK("scale-quotient", (v * s) / d, R(R(x[i] * s) / d), 2); CK("negate-quotient", -(v / d), R(-(x[i] / d)), 2); CK("scaled-sum", (v + w) * s, R((x[i] + y[i]) * s), 0); CK("sum-of-scaled", v * s + w, R(R(x[i] * s) + y[i]), 0); CK("temporary-divide", V1(v) / d, R(x[i] / d), 2); CK("moved-negate", -DH(x).v, E(-x[i]), 0);
  if(n > 1) { const int k = g.i(0, n - 1); auto z = subvector(-v, k); bool ok = z.size() == n - 1; for(int j = 0; ok && j < n - 1; ++j) ok = agree(z[j], E(-x[j < k ? j : j + 1]), 0); mon::check(ok, "subvector-of-negation"); }
#else
  typedef typename std::remove_const<V1>::type T; auto ip = [&](auto op, auto ref, int u, const char* key) { VH<T> h(x); auto& r = op(h.v); mon::check(&r == &h.v, "returns-self", key); ev(h.v, n, ref, u, key); VH<vector<E, fixed<4>>> f(n == 4 ? x : std::vector<E>(4, E(1))); if constexpr(VH<V2>::N_ <= 0 || VH<V2>::N_ == 4) if(n == 4) { op(f.v); ev(f.v, n, ref, u, key); } };
  ip([&](auto& z) -> auto& { return z += w; }, [&](int i) { return E(x[i] + y[i]); }, 0, "add-assign"); ip([&](auto& z) -> auto& { return z -= w; }, [&](int i) { return E(x[i] - y[i]); }, 0, "subtract-assign"); ip([&](auto& z) -> auto& { return z *= s; }, [&](int i) { return E(x[i] * s); }, 0, "scale-assign"); ip([&](auto& z) -> auto& { return z /= d; }, [&](int i) { return E(x[i] / d); }, 2, "divide-assign"); ip([&](auto& z) -> auto& { return z += -w; }, [&](int i) { return E(x[i] - y[i]); }, 0, "add-negated"); ip([&](auto& z) -> auto& { return z -= w * s; }, [&](int i) { return E(x[i] - R(y[i] * s)); }, 0, "subtract-scaled"); ip([&](auto& z) -> auto& { return z /= t; }, [&](int i) { return E(x[i] / t); }, 2, "divide-own");
  if constexpr(VH<T>::dyn) { ev(T(v) -= w, n, [&](int i) { return E(x[i] - y[i]); }, 0, "subtract-assign-temporary"); ev(T(v) += w, n, [&](int i) { return E(x[i] + y[i]); }, 0, "add-assign-temporary"); ev(T(v) /= d, n, [&](int i) { return E(x[i] / d); }, 2, "divide-assign-temporary"); ev(T(v) *= s, n, [&](int i) { return E(x[i] * s); }, 0, "scale-assign-temporary"); }
  if constexpr(std::is_floating_point<E>::value) {  // minimum and maximum pick one of the elements
    ip([&](auto& z) -> auto& { return z.minimize(w); }, [&](int i) { return E(y[i] < x[i] ? y[i] : x[i]); }, -1, "minimize"); ip([&](auto& z) -> auto& { return z.maximize(w); }, [&](int i) { return E(x[i] < y[i] ? y[i] : x[i]); }, -1, "maximize"); }
#endif
  ev(v, n, [&](int i) { return x[i]; }, 0, "operand-unchanged"); ev(w, n, [&](int i) { return y[i]; }, 0, "operand-unchanged");
}
template<class E, class F> void vecs(Rng& g) {
  const int n = g.n(1, 7, 60); switch(g.i(0, 5)) {
    case 0: vec<vector<E, dynamic<>>, vector<F, dynamic<>>>(g, n); break; case 1: vec<vector<E, fixed<4>>, vector<F, fixed<4>>>(g, 4); break; case 2: vec<vector<E, fixed<3>>, vector<F, dynamic<>>>(g, 3); break;
    case 3: vec<vector<E, external<>>, vector<F, external<4>>>(g, 4); break; case 4: vec<vector<E, dynamic<>>, vector<const F, external<>>>(g, n); break; default: vec<vector<E, external<3>>, vector<F, fixed<3>>>(g, 3); }
}
#endif
#if KIND != 0
template<class X, class F> void em(const X& e, int r, int c, F f, int u, const char* key) {
  mon::ev(); if(e.rows() != r || e.cols() != c) return mon::fail(std::string(key) + "/size", fmt("%d %d", int(e.rows()), int(e.cols())));
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { const auto w = f(i, j); if(!agree(e.get(i, j), w, u) || !agree(e(i, j), w, u)) return mon::fail(key, fmt("element %d,%d of %d,%d: got %.17Lg want %.17Lg", i, j, r, c, ld(e.get(i, j)), ld(w))); }
}
template<class M1, class M2> void mat(Rng& g, int r, int c) {
  typedef typename MH<M1>::elem E; typedef typename MH<M2>::elem F; typedef typename std::common_type<E, F>::type R;
  RM<E> x(r, c); RM<F> y(r, c); for(auto& e : x.a) e = wide<E>(g); for(auto& e : y.a) e = wide<F>(g); const F s = wide<F>(g), d = divisor<F>(g); const E t = divisor<E>(g);
  MH<M1> a(x); MH<M2> b(y); const M1& v = a.m; const M2& w = b.m; if(mon::noting()) mon::note(fmt("%dx%d ", r, c) + sv(x.a) + " ; " + sv(y.a) + fmt(" ; s %.9Lg d %.9Lg t %.9Lg", ld(s), ld(d), ld(t)));
  mon::bin(std::string("wide/") + MH<M1>::tag() + "/" + MH<M2>::tag()); mon::bin(std::string("wide/") + lname<typename MH<M1>::layout>() + "/" + lname<typename MH<M2>::layout>());
#if KIND == 1
#define CM(key, expr, ref, u) do { auto f = [&](int i, int j) { (void) i; (void) j; return ref; }; { auto k = expr; em(k, r, c, f, u, key); } { matrix<decltype(f(0, 0)), dynamic<>, typename MH<M1>::basis, typename MH<M2>::layout> z(r, c); z = expr; em(z, r, c, f, u, key "/assigned"); } } while(0)
  CM("negate", -v, E(-x(i, j)), 0); CM("plus", +v, E(+x(i, j)), 0); CM("add", v + w, R(x(i, j) + y(i, j)), 0); CM("subtract", v - w, R(x(i, j) - y(i, j)), 0); CM("scale", v * s, R(x(i, j) * s), 0); CM("scale-left", s * v, R(s * x(i, j)), 0); CM("divide", v / d, R(x(i, j) / d), 2); CM("divide-own", v / t, E(x(i, j) / t), 2); CM("hadamard", hadamard(v, w), R(x(i, j) * y(i, j)), 0); CM("negate-sum", -(v + w), R(-(x(i, j) + y(i, j))), 0); CM("difference-of-negated", -v - w, R(-x(i, j) - y(i, j)), 0); CM("scale-quotient", (v * s) / d, R(R(x(i, j) * s) / d), 2); CM("negate-quotient", -(v / d), R(-(x(i, j) / d)), 2); CM("sum-of-scaled", v * s + w, R(R(x(i, j) * s) + y(i, j)), 0); CM("transpose-twice", transpose(transpose(v)), x(i, j), 0); if constexpr(!MH<M1>::ext) CM("temporary-divide", M1(v) / d, R(x(i, j) / d), 2);
  { auto k = transpose(-v); em(k, c, r, [&](int i, int j) { return E(-x(j, i)); }, 0, "transpose-negation"); auto m = transpose(v / d); em(m, c, r, [&](int i, int j) { return R(x(j, i) / d); }, 2, "transpose-quotient"); auto o = -transpose(v) - transpose(w); em(o, c, r, [&](int i, int j) { return R(-x(j, i) - y(j, i)); }, 0, "sum-of-transposes"); }
#else
  auto ip = [&](auto op, auto ref, int u, const char* key) { MH<M1> h(x); auto& q = op(h.m); mon::check(&q == &h.m, "returns-self", key); em(h.m, r, c, ref, u, key); };
  ip([&](auto& z) -> auto& { return z += w; }, [&](int i, int j) { return E(x(i, j) + y(i, j)); }, 0, "matrix-add-assign"); ip([&](auto& z) -> auto& { return z -= w; }, [&](int i, int j) { return E(x(i, j) - y(i, j)); }, 0, "matrix-subtract-assign"); ip([&](auto& z) -> auto& { return z *= s; }, [&](int i, int j) { return E(x(i, j) * s); }, 0, "matrix-scale-assign"); ip([&](auto& z) -> auto& { return z /= d; }, [&](int i, int j) { return E(x(i, j) / d); }, 2, "matrix-divide-assign"); ip([&](auto& z) -> auto& { return z -= w * s; }, [&](int i, int j) { return E(x(i, j) - R(y(i, j) * s)); }, 0, "matrix-subtract-scaled");
  if constexpr(MH<M1>::dyn) { em(M1(v) -= w, r, c, [&](int i, int j) { return E(x(i, j) - y(i, j)); }, 0, "matrix-subtract-assign-temporary"); em(M1(v) += w, r, c, [&](int i, int j) { return E(x(i, j) + y(i, j)); }, 0, "matrix-add-assign-temporary"); em(M1(v) /= d, r, c, [&](int i, int j) { return E(x(i, j) / d); }, 2, "matrix-divide-assign-temporary"); em(M1(v) *= s, r, c, [&](int i, int j) { return E(x(i, j) * s); }, 0, "matrix-scale-assign-temporary"); }
#endif
  em(v, r, c, [&](int i, int j) { return x(i, j); }, 0, "operand-unchanged"); em(w, r, c, [&](int i, int j) { return y(i, j); }, 0, "operand-unchanged");
}
template<class E, class F> void mats(Rng& g) {
  const int r = g.n(1, 5, 12), c = g.n(1, 5, 12); switch(g.i(0, 5)) {
    case 0: mat<matrix<E, dynamic<>, row_basis, row_major>, matrix<F, dynamic<>, row_basis, row_major>>(g, r, c); break; case 1: mat<matrix<E, fixed<2, 3>, col_basis, col_major>, matrix<F, fixed<2, 3>, col_basis, col_major>>(g, 2, 3); break; case 2: mat<matrix<E, fixed<3, 3>, row_basis, col_major>, matrix<F, dynamic<>, row_basis, row_major>>(g, 3, 3); break;
    case 3: mat<matrix<E, external<>, col_basis, row_major>, matrix<F, external<3, 2>, col_basis, col_major>>(g, 3, 2); break; case 4: mat<matrix<E, dynamic<>, col_basis, col_major>, matrix<F, external<>, col_basis, col_major>>(g, r, c); break; default: mat<matrix<E, external<2, 2>, col_basis, row_major>, matrix<F, fixed<2, 2>, col_basis, row_major>>(g, 2, 2); }
}
#endif
#if KIND == 0
#define W(E, F, n) mon::group("wide-" #E "-" #F, n, vecs<E, F>)
#elif KIND == 1
#define W(E, F, n) mon::group("wide-" #E "-" #F, n, mats<E, F>)
#else
#define W(E, F, n) mon::group("wide-vector-" #E "-" #F, n, vecs<E, F>); mon::group("wide-matrix-" #E "-" #F, n, mats<E, F>)
#endif
int main(int c, char** v) {
  mon::init(c, v);
#if PART == 0
  W(double, double, 1500); W(long_double, long_double, 500);
#elif PART == 1
  W(float, float, 1500); W(double, int, 500);
#elif PART == 2
  W(double, float, 800); W(int, int, 500);
#elif KIND != 2
  W(float, double, 800); W(int, float, 500);
#endif
  return mon::finish();
}
