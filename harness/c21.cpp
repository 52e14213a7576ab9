// C21: operands of different element types; results against the built-in operators on the elements.
#include "zoo.h"
#include <cml/cml.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/quaternion.h>
#include <cml/mathlib/mathlib.h>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld; using mon::u64;
template<class T> const char* tn() {
  if(std::is_same<T, float>::value) return "float"; if(std::is_same<T, double>::value) return "double"; if(std::is_same<T, long double>::value) return "longdouble"; if(std::is_same<T, int>::value) return "int"; if(std::is_same<T, long>::value) return "long"; if(std::is_same<T, short>::value) return "short"; if(std::is_same<T, unsigned>::value) return "unsigned"; return "schar"; }
template<class T, class U> using ct = decltype(std::declval<T>() * std::declval<U>());   // what the built-in operators use
template<class A, class B> std::string pn() { return std::string(tn<A>()) + "-" + tn<B>(); }
// Values of T that are exact in products with O (sums of four, too), mostly not representable in O.
template<class T, class O> T val(Rng& g, bool small = false) {
  typedef ct<T, O> C; const bool ot = std::is_floating_point<C>::value;
  if(!ot) {   // integers: wide in the wider type; unsigned arithmetic wraps
    if(std::is_unsigned<C>::value) return T(std::is_unsigned<T>::value ? (g.coin() ? g.next() : g.i(0, 9)) : u64(g.i(-40000, 40000)));
    const int w = sizeof(T) == 8 ? (small ? 20 : 40) : sizeof(T) == 4 ? (sizeof(O) == 8 ? 12 : small ? 10 : 20) : sizeof(T) == 2 ? 6 : 5; const long m = 1l << w; return T(long(g.next() % u64(2 * m)) - m); }
  const bool fl = std::is_floating_point<T>::value; int bits, frac;   // magnitude bits, fraction bits
  if(std::is_same<C, float>::value) { bits = fl ? 9 : sizeof(T) == 1 ? 6 : 8; frac = 5; if(small) bits = fl ? 5 : 5, frac = 3; }
  else if(std::is_same<C, double>::value) { if(std::is_same<T, double>::value) { bits = 33; frac = 31; } else { bits = 14; frac = 5; } if(small) { bits = std::is_same<T, double>::value ? 27 : 9; frac = std::is_same<T, double>::value ? 26 : 2; } }
  else { if(std::is_same<T, long double>::value) { bits = 56; frac = 53; } else { bits = 4; frac = 2; } if(small) bits = std::is_same<T, long double>::value ? 54 : 2; }
  if(sizeof(T) == 1 && bits > 6) bits = 6;
  u64 m = g.next() & ((u64(1) << bits) - 1); if(g.coin(3, 4)) m |= 1; const bool neg = std::is_signed<T>::value && g.coin();
  if(!fl) return T(neg ? -long(m) : long(m)); const ld v = std::ldexp(ld(m), -frac); return T(neg ? -v : v); }
// a conversion the language defines
template<class T, class U> bool fits(U x) { if(!(std::is_integral<T>::value && std::is_floating_point<U>::value)) return true; return ld(x) > ld(std::numeric_limits<T>::min()) - 1 && ld(x) < ld(std::numeric_limits<T>::max()) + 1; }
template<class T> std::string sv(T x) { return std::is_integral<T>::value ? fmt("%lld", (long long) x) : fmt("%.20Lg", ld(x)); }
template<class C, class X> bool ty(const std::string& key) { typedef std::decay_t<X> Y; return mon::check(std::is_same<Y, C>::value, key + "-type", std::string("value type ") + tn<Y>() + " want " + tn<C>()); }
template<class X, class C> void one(X got, C want, const std::string& key) { ty<C, X>(key); mon::ev(); if(ld(got) != ld(want)) mon::fail(key, "got " + sv(got) + " want " + sv(want)); }
template<class X, class C> void near(X got, ld want, ld scale, const std::string& key) { ty<C, X>(key); mon::ckc<C>(C(got), want, scale, key, 32); }
// expression (or vector) x against w, in type C
template<class C, class X, class W> void vec(const X& x, const std::vector<W>& w, const std::string& key) {
  typedef typename cml::vector_traits<std::decay_t<X>>::value_type VT; ty<C, VT>(key); ty<C, std::decay_t<decltype(x[0])>>(key + "-element"); mon::ev(); bool ok = x.size() == int(w.size()); int i = 0; for(; ok && i < int(w.size()); ++i) { ok = ld(x[i]) == ld(w[i]); if(!ok) { mon::fail(key, fmt("[%d] got ", i) + sv(x[i]) + " want " + sv(w[i])); return; } } if(!ok) mon::fail(key, "size"); }
template<class C, class X, class W> void mat(const X& x, const RM<W>& w, const std::string& key) {
  typedef typename cml::matrix_traits<std::decay_t<X>>::value_type VT; ty<C, VT>(key); ty<C, std::decay_t<decltype(x(0, 0))>>(key + "-element"); mon::ev(); if(x.rows() != w.r || x.cols() != w.c) { mon::fail(key, "size"); return; } for(int i = 0; i < w.r; ++i) for(int j = 0; j < w.c; ++j) if(ld(x(i, j)) != ld(w(i, j))) { mon::fail(key, fmt("(%d,%d) got ", i, j) + sv(x(i, j)) + " want " + sv(w(i, j))); return; } }
template<class C, class X, class W> void quat(const X& x, const std::vector<W>& w, const std::string& key) {
  typedef typename cml::quaternion_traits<std::decay_t<X>>::value_type VT; ty<C, VT>(key); mon::ev(); for(int i = 0; i < 4; ++i) if(ld(x[i]) != ld(w[i])) { mon::fail(key, fmt("[%d] got ", i) + sv(x[i]) + " want " + sv(w[i])); return; } }
// one sequence in one of several forms
template<class E, class F> void form(int k, const std::vector<E>& x, F f) {
  const int n = int(x.size());
  switch(k) {
  case 1: { VH<vector<const E, external<>>> h(x); return f(h.v); }
  case 2: { VH<vector<E, external<>>> h(x); return f(h.v); }
  case 3: { VH<vector<E, dynamic<>>> h(x), z(std::vector<E>(n, E(0))); return f(h.v + z.v); }
  case 4: { VH<vector<E, dynamic<>>> h(x); return f(h.v * E(1)); }
  default: { VH<vector<E, dynamic<>>> h(x); return f(h.v); } } }
static const char* const FN[] = {"dynamic", "external-const", "external", "sum", "scaled"};
template<class A, class B> void vectors(Rng& g) {
  typedef ct<A, B> C; const bool fp = std::is_floating_point<C>::value; const int n = g.i(2, 5), ka = g.i(0, 4), kb = g.i(0, 4); std::vector<A> a(n); std::vector<B> b(n); for(A& x : a) { x = val<A, B>(g); mon::mixd(double(x)); } for(B& x : b) { x = val<B, A>(g); mon::mixd(double(x)); } const B s = val<B, A>(g); mon::mixd(double(s)); const B d = B(g.coin() || std::is_unsigned<B>::value ? 1 << g.i(0, 3) : -(1 << g.i(0, 3))); mon::mix(ka * 8 + kb);
  if(mon::noting()) mon::note(pn<A, B>() + " " + FN[ka] + show(a) + " " + FN[kb] + show(b)); mon::bin(std::string("form/") + FN[ka]); mon::bin("pair/" + pn<A, B>()); for(auto x : b) if(!fits<A>(C(x)) || ld(A(C(x))) != ld(x)) { mon::bin("narrowing/right"); break; } for(auto x : a) if(!fits<B>(C(x)) || ld(B(C(x))) != ld(x)) { mon::bin("narrowing/left"); break; }
  auto el = [&](auto f) { std::vector<C> w(n); for(int i = 0; i < n; ++i) w[i] = f(a[i], b[i]); return w; };
  const auto ws = el([](A x, B y) { return x + y; }), wd = el([](A x, B y) { return x - y; }), wm = el([](A x, B y) { return x * y; }), wk = el([&](A x, B) { return x * s; }), wq = el([&](A x, B) { return x / d; });
  form<A>(ka, a, [&](const auto& u) { form<B>(kb, b, [&](const auto& v) {
    vec<C>(u + v, ws, "sum"); vec<C>(u - v, wd, "difference"); vec<C>(v + u, ws, "sum-swapped"); vec<C>(cml::hadamard(u, v), wm, "hadamard"); vec<C>(u * s, wk, "times-scalar"); vec<C>(s * u, wk, "scalar-times"); vec<C>(u / d, wq, "quotient");
    C dp = C(0); for(int i = 0; i < n; ++i) dp = C(dp + a[i] * b[i]); one(cml::dot(u, v), dp, "dot"); one(cml::dot(v, u), dp, "dot-swapped");
    RM<C> o(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) o(i, j) = C(a[i] * b[j]); mat<C>(cml::outer(u, v), o, "outer");
    if(n == 3) { std::vector<C> c(3); for(int i = 0; i < 3; ++i) { const int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = C(a[j] * b[k] - a[k] * b[j]); } vec<C>(cml::cross(u, v), c, "cross"); mon::bin("product/cross"); }
    if(n == 2) { one(cml::perp_dot(u, v), C(a[0] * b[1] - a[1] * b[0]), "perp-dot"); mon::bin("product/perp-dot"); }
    { C m = C(0); for(int i = 0; i < n; ++i) { const C t = C(a[i] - b[i]); m = C(m + (t < C(0) ? C(-t) : t)); } if(sizeof(C) < 8 || fp) one(cml::manhattan_distance(u, v), m, "manhattan"); }
    mon::ev(2); { int c = 0; for(int i = 0; c == 0 && i < n; ++i) c = a[i] < b[i] ? -1 : b[i] < a[i] ? 1 : 0; if((u < v) != (c < 0) || (u > v) != (c > 0)) mon::fail("comparison", show(a) + show(b)); if((u == v) != (c == 0)) mon::fail("equality", show(a) + show(b)); }
  }); });
  if(n == 3) { VH<vector<A, fixed<3>>> u(a); VH<vector<B, fixed<3>>> v(b); VH<vector<B, external<3>>> e(b); VH<vector<B, dynamic<>>> y(b); auto all = [&](const auto& v, const std::string& k) { vec<C>(u.v + v, ws, "sum" + k); vec<C>(v - u.v, el([](A x, B y) { return y - x; }), "difference" + k); vec<C>(cml::hadamard(u.v, v), wm, "hadamard" + k); std::vector<C> c(3); for(int i = 0; i < 3; ++i) { const int j = (i + 1) % 3, l = (i + 2) % 3; c[i] = C(a[j] * b[l] - a[l] * b[j]); } vec<C>(cml::cross(u.v, v), c, "cross" + k); one(cml::dot(u.v, v), C(C(C(a[0] * b[0]) + a[1] * b[1]) + a[2] * b[2]), "dot" + k); }; all(v.v, "/fixed"); all(e.v, "/fixed-external"); all(y.v, "/fixed-dynamic"); vec<C>(u.v * s, wk, "times-scalar/fixed"); vec<C>(u.v / d, wq, "quotient/fixed"); mon::bin("form/fixed"); }
  if(n == 2) { VH<vector<A, fixed<2>>> u(a); VH<vector<B, fixed<2>>> v(b); one(cml::perp_dot(u.v, v.v), C(a[0] * b[1] - a[1] * b[0]), "perp-dot/fixed"); vec<C>(u.v - v.v, wd, "difference/fixed-2"); }
  // in place: computed in C, narrowed at the store only
  auto in = [&](const auto& f, auto op, const std::string& key) { std::vector<A> w(n); for(int i = 0; i < n; ++i) { const C c = op(a[i], b[i]); if(!fits<A>(c)) return; w[i] = A(c); } VH<vector<A, dynamic<>>> t(a); VH<vector<B, external<>>> r(b); f(t.v, r.v); vec<A>(t.v, w, key); if(n == 3) { VH<vector<A, external<3>>> t3(a); VH<vector<B, fixed<3>>> r3(b); f(t3.v, r3.v); vec<A>(t3.v, w, key + "-external"); } };
  in([](auto& x, auto& y) { x += y; }, [](A x, B y) { return C(x + y); }, "plus-assign"); in([](auto& x, auto& y) { x -= y; }, [](A x, B y) { return C(x - y); }, "minus-assign");
  const B e = B(std::is_integral<A>::value && fp ? 2 + g.i(0, 9) / 4.0 : double(ld(d))); if(fp || sizeof(A) >= 4) in([&](auto& x, auto&) { x *= e; }, [&](A x, B) { return C(x * e); }, "times-assign"); in([&](auto& x, auto&) { x /= d; }, [&](A x, B) { return C(x / d); }, "divide-assign");
  in([](auto& x, auto& y) { x = y; }, [](A, B y) { return C(y); }, "assign"); in([](auto& x, auto& y) { x.minimize(y); }, [](A x, B y) { return C(C(x) < C(y) ? C(x) : C(y)); }, "minimize"); in([](auto& x, auto& y) { x.maximize(y); }, [](A x, B y) { return C(C(x) < C(y) ? C(y) : C(x)); }, "maximize");
  in([](auto& x, auto& y) { x = x + y; }, [](A x, B y) { return C(x + y); }, "assign-sum"); in([&](auto& x, auto& y) { x = (x - y) / d; }, [&](A x, B y) { return C(C(x - y) / d); }, "assign-chain"); bool fit = true; for(B x : b) fit &= fits<A>(x); if(fit) { VH<vector<B, dynamic<>>> r(b); std::vector<A> w(n); for(int i = 0; i < n; ++i) w[i] = A(C(b[i])); vec<A>(vector<A, dynamic<>>(r.v), w, "construct"); if(n == 3) vec<A>(vector<A, fixed<3>>(b[0], b[1], b[2]), w, "construct-elements"); }
}
template<class A, class B, class S> void chains(Rng& g) {
  typedef ct<A, B> AB; typedef ct<AB, S> C; const int n = g.i(2, 4); std::vector<A> a(n); std::vector<B> b(n); std::vector<S> c(n); for(A& x : a) { x = val<A, S>(g, true); mon::mixd(double(x)); } for(B& x : b) { x = val<B, A>(g, true); mon::mixd(double(x)); } for(S& x : c) x = val<S, B>(g, true); const S s = S(g.i(1, 3)) + (std::is_floating_point<S>::value ? S(0.25) : S(0)); const double q = g.coin() ? 2 : 4; mon::bin(std::string("chain/") + tn<A>() + "-" + tn<B>() + "-" + tn<S>()); if(mon::noting()) mon::note(pn<A, B>() + show(a) + show(b) + tn<S>() + show(c));
  auto w = [&](auto f) { typedef std::decay_t<decltype(f(a[0], b[0], c[0]))> T; std::vector<T> r(n); for(int i = 0; i < n; ++i) r[i] = f(a[i], b[i], c[i]); return r; };
  typedef ct<C, double> D; VH<vector<A, dynamic<>>> u(a); VH<vector<B, dynamic<>>> v(b); VH<vector<S, external<>>> x(c);
  vec<C>((u.v + v.v) * s - x.v, w([&](A p, B q, S r) { return (p + q) * s - r; }), "chain-1"); vec<C>(u.v - (x.v + v.v), w([&](A p, B q, S r) { return p - (r + q); }), "chain-2"); vec<C>(u.v - s * v.v + x.v, w([&](A p, B q, S r) { return p - s * q + r; }), "chain-3"); vec<D>((u.v - v.v + x.v) / q, w([&](A p, B t, S r) { return (p - t + r) / q; }), "chain-quotient"); vec<C>(cml::hadamard(u.v + v.v, x.v), w([&](A p, B q, S r) { return (p + q) * r; }), "chain-hadamard");
  { const auto k = (u.v + v.v) * s - x.v; vec<C>(k, w([&](A p, B q, S r) { return (p + q) * s - r; }), "chain-kept"); auto m = k; vec<C>(m + u.v, w([&](A p, B q, S r) { return (p + q) * s - r + p; }), "chain-extended"); }
  { std::vector<A> e(n); for(int i = 0; i < n; ++i) e[i] = A((a[i] + b[i]) - c[i]); vector<A, dynamic<>> t; t = (u.v + v.v) - x.v; vec<A>(t, e, "chain-narrow-at-end"); }
  C dp = C(0); for(int i = 0; i < n; ++i) dp = C(dp + (a[i] + b[i]) * c[i]); 
  // (the widest types leave no room for exact sums of products; any order of summation is right)
  auto sum = [](auto got, C want, ld scale, const char* key) { if(std::is_floating_point<C>::value) near<decltype(got), C>(got, want, scale, key); else one(got, want, key); };
  ld sc = 0; for(int i = 0; i < n; ++i) sc += (std::fabs(ld(a[i])) + std::fabs(ld(b[i]))) * std::fabs(ld(c[i])); sum(cml::dot(u.v + v.v, x.v), dp, sc, "dot-of-sum");
  if(n == 3) { auto det = [&](auto A0, auto B0, auto C0) { return C(A0[0] * (B0[1] * C0[2] - B0[2] * C0[1]) + A0[1] * (B0[2] * C0[0] - B0[0] * C0[2]) + A0[2] * (B0[0] * C0[1] - B0[1] * C0[0])); }; ld sp = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) if(i != j) sp += std::fabs(ld(a[i]) * b[j] * c[3 - i - j]); sum(cml::triple_product(u.v, v.v, x.v), det(a, b, c), sp, "triple-product"); mon::bin("product/triple"); }
  // matrices
  const int R = g.i(1, 3), K = g.i(1, 3), L = g.i(1, 3); RM<A> M(R, K); RM<B> N(R, K); RM<S> P(R, K); for(auto& e : M.a) e = val<A, S>(g, true); for(auto& e : N.a) e = val<B, A>(g, true); for(auto& e : P.a) e = val<S, B>(g, true); MH<matrix<A, dynamic<>, row_basis, row_major>> m(M); MH<matrix<B, dynamic<>, row_basis, col_major>> nn(N); MH<matrix<S, external<>, row_basis, row_major>> p(P); RM<C> E(R, K); for(int i = 0; i < R; ++i) for(int j = 0; j < K; ++j) E(i, j) = C((M(i, j) + N(i, j)) * s - P(i, j)); mat<C>((m.m + nn.m) * s - p.m, E, "matrix-chain"); RM<C> T(K, R); for(int i = 0; i < R; ++i) for(int j = 0; j < K; ++j) T(j, i) = C(P(i, j) - (M(i, j) + N(i, j))); mat<C>(cml::transpose(p.m - (m.m + nn.m)), T, "matrix-chain-transposed"); for(int j = 0; j < K; ++j) { std::vector<C> cw(R); for(int i = 0; i < R; ++i) cw[i] = E(i, j); vec<C>(cml::col((m.m + nn.m) * s - p.m, j), cw, "column-of-chain"); }
  (void) L;
}
template<class A, class B, class BA, class LA> void matrices(Rng& g) {
  typedef ct<A, B> C; const int R = g.i(1, 4), K = g.i(1, 4), L = g.i(1, 4); auto rA = [&](int r, int c) { RM<A> m(r, c); for(A& e : m.a) { e = val<A, B>(g); mon::mixd(double(e)); } return m; }; auto rB = [&](int r, int c) { RM<B> m(r, c); for(B& e : m.a) { e = val<B, A>(g); mon::mixd(double(e)); } return m; }; const auto a = rA(R, K); const auto b = rB(R, K), c = rB(K, L); const B s = val<B, A>(g), d = B(1 << g.i(0, 3)); if(mon::noting()) mon::note(pn<A, B>() + show(a) + show(b)); mon::bin("matrix-pair/" + pn<A, B>());
  auto el = [&](auto f) { RM<C> w(R, K); for(int i = 0; i < R; ++i) for(int j = 0; j < K; ++j) w(i, j) = f(a(i, j), b(i, j)); return w; };
  typedef matrix<A, dynamic<>, BA, LA> MA; typedef matrix<B, external<>, BA, LA> MB; MH<MA> u(a); MH<MB> v(b), z(c); MH<matrix<B, dynamic<>, BA, col_major>> vc(b);
  mat<C>(u.m + v.m, el([](A x, B y) { return x + y; }), "sum"); mat<C>(v.m - u.m, el([](A x, B y) { return y - x; }), "difference"); mat<C>(u.m - vc.m, el([](A x, B y) { return x - y; }), "difference-mixed"); mat<C>(cml::hadamard(u.m, v.m), el([](A x, B y) { return x * y; }), "hadamard"); mat<C>(u.m * s, el([&](A x, B) { return x * s; }), "times-scalar"); mat<C>(s * u.m, el([&](A x, B) { return x * s; }), "scalar-times"); mat<C>(u.m / d, el([&](A x, B) { return x / d; }), "quotient");
  RM<C> p(R, L); for(int i = 0; i < R; ++i) for(int j = 0; j < L; ++j) { C t = C(0); for(int k = 0; k < K; ++k) t = C(t + a(i, k) * c(k, j)); p(i, j) = t; } mat<C>(u.m * z.m, p, "product"); if(R == 3 && K == 3 && L == 3) { MH<matrix<A, fixed<3, 3>, BA, LA>> f(a); MH<matrix<B, fixed<3, 3>, BA, LA>> h(c); mat<C>(f.m * h.m, p, "product-fixed"); mon::bin("product/fixed"); } { MH<matrix<B, fixed<2, 2>, BA, LA>> f(rB(2, 2)); auto a2 = rA(2, 2); MH<matrix<A, fixed<2, 2>, BA, LA>> h(a2); RM<B> bb(2, 2); for(int i = 0; i < 4; ++i) bb(i / 2, i % 2) = f.m(i / 2, i % 2); RM<C> w(2, 2); for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) w(i, j) = C(C(bb(i, 0) * a2(0, j)) + bb(i, 1) * a2(1, j)); mat<C>(f.m * h.m, w, "product-2x2"); }
  { std::vector<B> x(K), y(R); for(B& e : x) e = val<B, A>(g); for(B& e : y) e = val<B, A>(g); std::vector<C> w(R), q(K); for(int i = 0; i < R; ++i) { C t = C(0); for(int k = 0; k < K; ++k) t = C(t + a(i, k) * x[k]); w[i] = t; } for(int k = 0; k < K; ++k) { C t = C(0); for(int i = 0; i < R; ++i) t = C(t + y[i] * a(i, k)); q[k] = t; } VH<vector<B, dynamic<>>> X(x), Y(y); VH<vector<const B, external<>>> XE(x); vec<C>(u.m * X.v, w, "matrix-vector"); vec<C>(u.m * XE.v, w, "matrix-vector-external"); vec<C>(Y.v * u.m, q, "vector-matrix"); if(R == 2 && K == 2) { MH<matrix<A, fixed<2, 2>, BA, LA>> f(a); VH<vector<B, fixed<2>>> h(x); vec<C>(f.m * h.v, w, "matrix-vector-fixed"); mon::bin("product/matrix-vector-fixed"); } vec<C>(cml::row(u.m, 0) - X.v, [&] { std::vector<C> r(K); for(int k = 0; k < K; ++k) r[k] = C(a(0, k) - x[k]); return r; }(), "row-minus-vector"); }
  auto in = [&](const auto& f, auto op, const std::string& key) { RM<A> w(R, K); for(int i = 0; i < R; ++i) for(int j = 0; j < K; ++j) { const C t = op(a(i, j), b(i, j)); if(!fits<A>(t)) return; w(i, j) = A(t); } MH<MA> t(a); MH<MB> r(b); f(t.m, r.m); mat<A>(t.m, w, key); if(R == 2 && K == 3) { MH<matrix<A, external<2, 3>, BA, LA>> t2(a); MH<matrix<B, fixed<2, 3>, BA, LA>> r2(b); f(t2.m, r2.m); mat<A>(t2.m, w, key + "-external"); } };
  const bool fp = std::is_floating_point<C>::value; in([](auto& x, auto& y) { x += y; }, [](A x, B y) { return C(x + y); }, "plus-assign"); in([](auto& x, auto& y) { x -= y; }, [](A x, B y) { return C(x - y); }, "minus-assign"); const B e = B(std::is_integral<A>::value && fp ? 2 + g.i(0, 9) / 4.0 : double(ld(d))); if(fp || sizeof(A) >= 4) in([&](auto& x, auto&) { x *= e; }, [&](A x, B) { return C(x * e); }, "times-assign"); in([&](auto& x, auto&) { x /= d; }, [&](A x, B) { return C(x / d); }, "divide-assign"); in([](auto& x, auto& y) { x = y; }, [](A, B y) { return C(y); }, "assign"); in([](auto& x, auto& y) { x = y - x; }, [](A x, B y) { return C(y - x); }, "assign-difference");
}
template<class A, class B, class O, class X> void quats(Rng& g) {
  typedef ct<A, B> C; std::vector<A> a(4); std::vector<B> b(4); for(A& x : a) { x = val<A, B>(g); mon::mixd(double(x)); } for(B& x : b) { x = val<B, A>(g); mon::mixd(double(x)); } const B s = val<B, A>(g), d = B(1 << g.i(0, 3)); typedef cml::quaternion<A, fixed<>, O, X> QA; typedef cml::quaternion<B, fixed<>, O, X> QB; if(mon::noting()) mon::note(pn<A, B>() + show(a) + show(b)); mon::bin("quaternion-pair/" + pn<A, B>()); const QA q(a[0], a[1], a[2], a[3]); const QB r(b[0], b[1], b[2], b[3]);
  const bool rf = std::is_same<O, cml::real_first>::value; const int W = rf ? 0 : 3, I = rf ? 1 : 0, sg = std::is_same<X, cml::negative_cross>::value ? -1 : 1;
  auto el = [&](auto f) { std::vector<C> w(4); for(int i = 0; i < 4; ++i) w[i] = f(a[i], b[i]); return w; };
  quat<C>(q + r, el([](A x, B y) { return x + y; }), "sum"); quat<C>(q - r, el([](A x, B y) { return x - y; }), "difference"); quat<C>(r - q, el([](A x, B y) { return y - x; }), "difference-swapped"); quat<C>(q * s, el([&](A x, B) { return x * s; }), "times-scalar"); quat<C>(s * q, el([&](A x, B) { return x * s; }), "scalar-times"); quat<C>(q / d, el([&](A x, B) { return x / d; }), "quotient");
  C dp = C(0); for(int i = 0; i < 4; ++i) dp = C(dp + a[i] * b[i]); one(cml::dot(q, r), dp, "dot");
  std::vector<C> p(4); p[W] = C(a[W] * b[W] - (a[I] * b[I] + a[I + 1] * b[I + 1] + a[I + 2] * b[I + 2])); for(int i = 0; i < 3; ++i) { const int j = (i + 1) % 3, k = (i + 2) % 3; const C c = C(a[I + j] * b[I + k] - a[I + k] * b[I + j]); p[I + i] = C(a[W] * b[I + i] + b[W] * a[I + i] + (sg > 0 ? c : C(-c))); } quat<C>(q * r, p, "product"); if(std::is_floating_point<A>::value) { QA z(q); z *= r; std::vector<A> w(4); for(int i = 0; i < 4; ++i) w[i] = A(p[i]); quat<A>(z, w, "product-assign"); }
  auto in = [&](const auto& f, auto op, const std::string& key) { std::vector<A> w(4); for(int i = 0; i < 4; ++i) { const C t = op(a[i], b[i]); if(!fits<A>(t)) return; w[i] = A(t); } QA t(q); f(t, r); quat<A>(t, w, key); };
  in([](auto& x, auto& y) { x += y; }, [](A x, B y) { return C(x + y); }, "plus-assign"); in([](auto& x, auto& y) { x -= y; }, [](A x, B y) { return C(x - y); }, "minus-assign"); const bool fp = std::is_floating_point<C>::value; const B e = B(std::is_integral<A>::value && fp ? 2 + g.i(0, 9) / 4.0 : double(ld(d))); if(fp || sizeof(A) >= 4) in([&](auto& x, auto&) { x *= e; }, [&](A x, B) { return C(x * e); }, "times-assign"); in([&](auto& x, auto&) { x /= d; }, [&](A x, B) { return C(x / d); }, "divide-assign"); in([](auto& x, auto& y) { x = y; }, [](A, B y) { return C(y); }, "assign"); in([](auto& x, auto& y) { x = y + x; }, [](A x, B y) { return C(x + y); }, "assign-sum");
  quat<C>((q + r) * d - q, el([&](A x, B y) { return C(C(x + y) * d) - x; }), "chain");
}
// functions whose result is rounded: both operand types in, promoted type out
template<class A, class B> void functions(Rng& g) {
  typedef ct<A, B> C; const int n = g.coin() ? 2 : 3; std::vector<A> a(n); std::vector<B> b(n); for(A& x : a) { x = val<A, B>(g, true); mon::mixd(double(x)); } for(B& x : b) { x = val<B, A>(g, true); mon::mixd(double(x)); } ld d = 0, la = 0, lb = 0; for(int i = 0; i < n; ++i) { d += ld(a[i]) * b[i]; la += ld(a[i]) * a[i]; lb += ld(b[i]) * b[i]; } if(la == 0 || lb == 0) { mon::trivial(); return; } if(mon::noting()) mon::note(pn<A, B>() + show(a) + show(b)); VH<vector<A, dynamic<>>> u(a); VH<vector<B, dynamic<>>> v(b); mon::bin("function-pair/" + pn<A, B>());
  if(n == 2) { near<decltype(cml::signed_angle_2D(u.v, v.v)), C>(cml::signed_angle_2D(u.v, v.v), std::atan2(ld(a[0]) * b[1] - ld(a[1]) * b[0], d), 3.2, "signed-angle-2D"); near<decltype(cml::unsigned_angle_2D(u.v, v.v)), C>(cml::unsigned_angle_2D(u.v, v.v), std::fabs(std::atan2(ld(a[0]) * b[1] - ld(a[1]) * b[0], d)), 3.2, "unsigned-angle-2D"); }
  else { ld c[3], l = 0; for(int i = 0; i < 3; ++i) { c[i] = ld(a[(i + 1) % 3]) * b[(i + 2) % 3] - ld(a[(i + 2) % 3]) * b[(i + 1) % 3]; l += c[i] * c[i]; } near<decltype(cml::unsigned_angle(u.v, v.v)), C>(cml::unsigned_angle(u.v, v.v), std::atan2(std::sqrt(l), d), 3.2, "unsigned-angle"); const ld sg = c[0] + c[1] + c[2]; if(sg != 0) near<decltype(cml::signed_angle(u.v, v.v, vector<A, fixed<3>>(1, 1, 1))), C>(cml::signed_angle(u.v, v.v, vector<A, fixed<3>>(1, 1, 1)), (sg < 0 ? -1 : 1) * std::atan2(std::sqrt(l), d), 3.2, "signed-angle"); }
  { std::vector<C> w(n); for(int i = 0; i < n; ++i) { const B ii = b[i]; w[i] = C(a[i] - C(d) * ii); } const auto r = cml::project_to_hplane(u.v, v.v); ty<C, typename cml::vector_traits<std::decay_t<decltype(r)>>::value_type>("project-to-hplane"); for(int i = 0; i < n; ++i) mon::ckc<C>(r[i], ld(a[i]) - d * b[i], std::fabs(d * b[i]) + std::fabs(ld(a[i])), "project-to-hplane", 8); const auto q = cml::project_to_vector(u.v, v.v); ty<C, typename cml::vector_traits<std::decay_t<decltype(q)>>::value_type>("project-to-vector"); if(std::is_same<B, C>::value) for(int i = 0; i < n; ++i) mon::ckc<C>(q[i], d / lb * b[i], std::fabs(d / lb * b[i]), "project-to-vector", 16); }
}
template<class A, class B> void pair() {
  static const std::string n = pn<A, B>(); static const std::string nm[] = {"vectors/" + n, "matrices-rr/" + n, "matrices-cc/" + n, "quaternions-rp/" + n, "quaternions-in/" + n, "functions/" + n};
  mon::group(nm[0].c_str(), 600, vectors<A, B>); mon::group(nm[1].c_str(), 250, matrices<A, B, row_basis, row_major>); mon::group(nm[2].c_str(), 250, matrices<A, B, col_basis, col_major>); mon::group(nm[3].c_str(), 300, quats<A, B, cml::real_first, cml::positive_cross>); mon::group(nm[4].c_str(), 300, quats<A, B, cml::imaginary_first, cml::negative_cross>); if constexpr(std::is_floating_point<ct<A, B>>::value) mon::group(nm[5].c_str(), 300, functions<A, B>); }
template<class A, class B, class S> void chain() { static const std::string n = std::string("chains/") + tn<A>() + "-" + tn<B>() + "-" + tn<S>(); mon::group(n.c_str(), 500, chains<A, B, S>); }
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  pair<float, double>(); pair<double, float>(); pair<int, double>();
#elif PART == 1
  pair<double, int>(); pair<int, float>(); pair<float, int>();
#elif PART == 2
  pair<long, int>(); pair<int, long>(); pair<short, int>();
#elif PART == 3
  pair<int, short>(); pair<unsigned, int>(); pair<int, unsigned>();
#elif PART == 4
  pair<double, long double>(); pair<long double, float>(); pair<signed char, int>();
#elif PART == 5
  pair<short, float>(); pair<long, double>(); pair<double, unsigned>();
#else
  chain<int, float, double>(); chain<double, float, int>(); chain<float, double, float>(); chain<int, int, double>(); chain<float, float, double>(); chain<short, int, long>(); chain<int, long, int>(); chain<double, int, float>(); chain<float, int, double>(); chain<float, double, long double>();
#endif
  return mon::finish();
}
