// C06: in-place operations equal their out-of-place counterparts, also when the operand is (part of) the target.
#include "zoo.h"
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;

template<class E> E val(Rng& g) { E x; if(std::is_floating_point<E>::value) x = E(g.r(-5, 5)); else x = E(g.i(-20, 20)); mon::mixd(double(x)); return x; }
template<class E> E nz(Rng& g) { E x; if(std::is_floating_point<E>::value) { x = E(g.r(0.3, 5)); if(g.coin()) x = -x; } else { x = E(g.i(1, 7)); if(g.coin()) x = -x; } mon::mixd(double(x)); return x; }
template<class E> std::vector<E> vv(Rng& g, int n) { std::vector<E> v(n); for(auto& x : v) x = val<E>(g); return v; }
template<class E> std::vector<E> nzv(Rng& g, int n) { std::vector<E> v(n); for(auto& x : v) x = nz<E>(g); return v; }
template<class E> RM<E> mm(Rng& g, int r, int c, bool z = true) { RM<E> m(r, c); for(auto& x : m.a) x = z ? val<E>(g) : nz<E>(g); return m; }
template<class V> bool self(V& v, V& r, const char* key) { return mon::check(&v == &r, key, "returned another object"); }

/* ---------------- vectors ---------------- */
template<class V, class W> void vec_pair(Rng& g) {
  typedef typename VH<V>::elem A; typedef typename VH<W>::elem B;
  int n = VH<V>::N_ > 0 ? VH<V>::N_ : VH<W>::N_ > 0 ? VH<W>::N_ : g.n(1, 6, 60);
  auto x = vv<A>(g, n); auto y = vv<B>(g, n); VH<W> w(y); const VH<W> cw(y);
  auto y0 = y;
  bool rv = g.coin();
  auto upd = [&](const char* key, auto f, auto r) {  // f: lvalue op / rvalue op on v, r: per-element reference
    VH<V> h(x); std::vector<A> e(n); for(int i = 0; i < n; ++i) e[i] = A(r(x[i], y[i]));
    const A* d = h.v.data();
    self(h.v, f(h.v), (std::string(key) + "-returns-self").c_str());
    ckv(h.v, e, key); mon::check(h.v.data() == d, std::string(key) + "-keeps-storage");
    ckv(w.v, y0, std::string(key) + "-operand-unchanged");
    return e;
  };
  auto e1 = upd("plus-assign", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) += w.v; return r; } return v += cw.v; }, [](A a, B b) { return a + b; });
  upd("minus-assign", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) -= cw.v; return r; } return v -= w.v; }, [](A a, B b) { return a - b; });
  upd("plus-assign-expr", [&](V& v) -> V& { return v += w.v + cw.v; }, [](A a, B b) { return a + (b + b); });
  upd("minus-assign-expr", [&](V& v) -> V& { return v -= -w.v; }, [](A a, B b) { return a - (-b); });
  upd("plus-assign-temp", [&](V& v) -> V& { return v += VH<vector<B, dynamic<>>>(y).v; }, [](A a, B b) { return a + b; });
  upd("minimize", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).minimize(w.v); return r; } return v.minimize(cw.v); }, [](A a, B b) { return std::min(a, A(b)); });
  upd("maximize", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).maximize(w.v); return r; } return v.maximize(cw.v); }, [](A a, B b) { return std::max(a, A(b)); });
  upd("assign", [&](V& v) -> V& { if(rv) { auto&& r = (std::move(v) = w.v); return r; } return v = cw.v; }, [](A, B b) { return A(b); });
  // the counterpart expression, evaluated out of place and stored in the same type
  { VH<V> h(x), k(x); h.v += w.v; k.v = k.v + w.v; ckv(k.v, e1, "plus-out-of-place"); mon::check(h.v == k.v, "plus-in-vs-out"); }
  { VH<V> h(x), k(x); h.v -= w.v; auto f = k.v - w.v; k.v = f; mon::check(h.v == k.v, "minus-in-vs-out"); }
  // scalar of another type
  B s = nz<B>(g); const B s0 = s;
  upd("times-assign", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) *= s; return r; } return v *= s; }, [&](A a, B) { return a * s0; });
  upd("divide-assign", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) /= s; return r; } return v /= s; }, [&](A a, B) { return a / s0; });
  { VH<V> h(x), k(x); h.v *= s; k.v = k.v * s; mon::check(h.v == k.v, "times-in-vs-out"); h.v /= s; k.v = k.v / s; mon::check(h.v == k.v, "divide-in-vs-out"); }
  // scalar that is an element of the operand of the other side
  { VH<V> h(x); auto yy = nzv<B>(g, n); VH<W> q(yy); int i = g.i(0, n - 1); h.v *= q.v[i]; std::vector<A> e(n); for(int j = 0; j < n; ++j) e[j] = A(x[j] * yy[i]); ckv(h.v, e, "times-assign-foreign-element"); ckv(q.v, yy, "times-foreign-unchanged"); }
  mon::check(s == s0, "scalar-unchanged");
  mon::bin(fmt("vector/%s/%s<-%s/%s", VH<V>::tag(), ename<A>(), VH<W>::tag(), ename<B>()));
  if(mon::noting()) mon::note("v=" + show(x) + " w=" + show(y) + fmt(" s=%g", double(s)));
}
template<class V> void vec_self(Rng& g) {
  typedef typename VH<V>::elem A; const int n = VH<V>::N_ > 0 ? VH<V>::N_ : g.n(1, 7, 60);
  auto x = nzv<A>(g, n); const int i = g.i(0, n - 1); const bool rv = g.coin();
  auto upd = [&](const char* key, auto f, auto r) {
    VH<V> h(x); std::vector<A> e(n); for(int j = 0; j < n; ++j) e[j] = A(r(j));
    self(h.v, f(h.v), key); ckv(h.v, e, key);
  };
  upd("times-own-element", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) *= v[i]; return r; } return v *= v[i]; }, [&](int j) { return x[j] * x[i]; });
  upd("divide-own-element", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) /= v[i]; return r; } return v /= v[i]; }, [&](int j) { return x[j] / x[i]; });
  upd("times-own-get", [&](V& v) -> V& { return v *= v.get(i); }, [&](int j) { return x[j] * x[i]; });
  upd("divide-own-data", [&](V& v) -> V& { return v /= v.data()[i]; }, [&](int j) { return x[j] / x[i]; });
  upd("times-own-element-expr", [&](V& v) -> V& { return v = v * v[i]; }, [&](int j) { return x[j] * x[i]; });
  upd("divide-own-element-expr", [&](V& v) -> V& { return v = v / v[i]; }, [&](int j) { return x[j] / x[i]; });
  upd("scalar-left-own-element-expr", [&](V& v) -> V& { return v = v[i] * v + v; }, [&](int j) { return x[j] * x[i] + x[j]; });
  upd("fill-own-element", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).fill(v[i]); return r; } return v.fill(v[i]); }, [&](int) { return x[i]; });
  upd("plus-self", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) += v; return r; } return v += v; }, [&](int j) { return x[j] + x[j]; });
  upd("minus-self", [&](V& v) -> V& { if(rv) { V&& r = std::move(v) -= v; return r; } return v -= v; }, [&](int j) { return x[j] - x[j]; });
  upd("plus-self-expr", [&](V& v) -> V& { return v += v + v; }, [&](int j) { return x[j] + (x[j] + x[j]); });
  upd("minus-self-expr", [&](V& v) -> V& { return v = v - 3 * v; }, [&](int j) { return x[j] - x[j] * 3; });
  upd("hadamard-self", [&](V& v) -> V& { return v = cml::hadamard(v, v); }, [&](int j) { return x[j] * x[j]; });
  upd("negate-self", [&](V& v) -> V& { return v = -v; }, [&](int j) { return -x[j]; });
  upd("assign-self", [&](V& v) -> V& { V& q = v; return v = q; }, [&](int j) { return x[j]; });
  upd("minimize-self", [&](V& v) -> V& { return v.minimize(v); }, [&](int j) { return x[j]; });
  upd("maximize-self-neg", [&](V& v) -> V& { return v.maximize(-v); }, [&](int j) { return x[j] < 0 ? A(-x[j]) : x[j]; });
  upd("zero", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).zero(); return r; } return v.zero(); }, [&](int) { return 0; });
  upd("fill", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).fill(x[0]); return r; } return v.fill(x[0]); }, [&](int) { return x[0]; });
  upd("cardinal", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).cardinal(i); return r; } return v.cardinal(i); }, [&](int j) { return j == i; });
  upd("put", [&](V& v) -> V& { if(rv) { V&& r = std::move(v).put(i, x[0]); return r; } return v.put(i, x[0]); }, [&](int j) { return j == i ? x[0] : x[j]; });
  // chains
  upd("chain", [&](V& v) -> V& { return ((v += v) *= v[i]) -= v; }, [&](int) { return 0; });
  // overlapping external views of one buffer, same offset
  if(n >= 2) {
    auto b = x; vector<A, external<>> p(b.data(), n), q(b.data(), n); p += q; std::vector<A> e(n); for(int j = 0; j < n; ++j) e[j] = x[j] + x[j];
    ckv(q, e, "shared-buffer-plus"); p *= q[i]; for(int j = 0; j < n; ++j) e[j] = e[j] * A(x[i] + x[i]); ckv(q, e, "shared-buffer-times");
  }
  if constexpr(std::is_floating_point<A>::value) {
    for(auto& t : x) t = A(double(t) * std::pow(10.0, g.i(-4, 4)));
    VH<V> a(x), c(x), d(x); const V& cc = c.v;
    ld l = 0; for(auto t : x) l += ld(t) * t; l = std::sqrt(l);
    if(rv) { V&& r = std::move(a.v).normalize(); self(a.v, r, "normalize-returns-self"); } else self(a.v, a.v.normalize(), "normalize-returns-self");
    auto f = cml::normalize(cc); auto node = cc.normalize(); const auto node2 = (cc + A(0) * cc).normalize();
    d.v /= d.v.length();
    ckv(c.v, x, "normalize-operand-unchanged");
    mon::check(f.size() == n && node.size() == n, "normalize-size");
    for(int j = 0; j < n; ++j) {
      ld e = x[j] / l;
      mon::ckc(a.v[j], e, ld(0), "normalize-in-place", ld(8 + n)); mon::ckc(f[j], e, ld(0), "normalize-free", ld(8 + n)); mon::ckc(node[j], e, ld(0), "normalize-node", ld(8 + n));
      mon::ckc(node2[j], e, ld(0), "normalize-expr", ld(8 + n)); mon::ckc(d.v[j], e, ld(0), "normalize-by-length", ld(8 + n));
    }
    auto near = [&](const V& u, const char* key) { for(int j = 0; j < n; ++j) mon::ckc(u[j], ld(a.v[j]), ld(0), key, ld(8 + n)); };
    VH<V> k(x); k.v = k.v / k.v.length(); near(k.v, "normalize-self-expr");
    VH<V> m(x); m.v = cml::normalize(m.v); near(m.v, "normalize-self-free");
    if(n >= 2) { VH<V> u(x); const V& cu = u.v; u.v = cu.normalize(); near(u.v, "normalize-self-node"); }
  }
  mon::bin(fmt("vector-self/%s/%s", VH<V>::tag(), ename<A>()));
  if(mon::noting()) mon::note("v=" + show(x) + fmt(" i=%d", i));
}
template<class V, class W> void vp(const char* nm, int n) { mon::group(nm, n, [](Rng& g) { vec_pair<V, W>(g); }); }
template<class A> void vecs(const char* an, int n) {
  typedef vector<A, fixed<3>> F; typedef vector<A, external<4>> X; typedef vector<A, external<>> Y; typedef vector<A, dynamic<>> D;
#define SELF(V) mon::group((std::string("self/") + an + "/" #V).c_str(), n, [](Rng& g) { vec_self<V>(g); });
  SELF(F) SELF(X) SELF(Y) SELF(D)
#define PAIR(V, ...) vp<V, __VA_ARGS__>((std::string("pair/") + an + "/" #V "/" #__VA_ARGS__).c_str(), n);
  PAIR(F, vector<int, fixed<3>>) PAIR(F, vector<float, dynamic<>>) PAIR(F, vector<double, external<3>>) PAIR(F, vector<double, dynamic<>>)
  PAIR(X, vector<int, dynamic<>>) PAIR(X, vector<float, external<4>>) PAIR(X, vector<double, fixed<4>>)
  PAIR(Y, vector<int, external<>>) PAIR(Y, vector<float, fixed<2>>) PAIR(Y, vector<double, dynamic<>>)
  PAIR(D, vector<int, fixed<5>>) PAIR(D, vector<float, external<>>) PAIR(D, vector<double, dynamic<>>)
  PAIR(D, vector<const float, external<>>) PAIR(F, vector<const double, external<3>>)
}

/* ---------------- matrices ---------------- */
template<class M, class W> void mat_pair(Rng& g) {
  typedef typename MH<M>::elem A; typedef typename MH<W>::elem B;
  int R = MH<M>::R_ > 0 ? MH<M>::R_ : MH<W>::R_ > 0 ? MH<W>::R_ : g.n(1, 5, 18), C = MH<M>::R_ > 0 ? MH<M>::C_ : MH<W>::R_ > 0 ? MH<W>::C_ : g.n(1, 5, 18);
  auto x = mm<A>(g, R, C); auto y = mm<B>(g, R, C); MH<W> w(y); const MH<W> cw(y); const bool rv = g.coin();
  auto upd = [&](const char* key, auto f, auto r) {
    MH<M> h(x); RM<A> e(R, C); for(int i = 0; i < R * C; ++i) e.a[i] = A(r(x.a[i], y.a[i]));
    const A* d = h.m.data(); self(h.m, f(h.m), (std::string(key) + "-returns-self").c_str());
    ckm(h.m, e, key); mon::check(h.m.data() == d, std::string(key) + "-keeps-storage"); ckm(w.m, y, std::string(key) + "-operand-unchanged");
  };
  upd("plus-assign", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) += w.m; return r; } return v += cw.m; }, [](A a, B b) { return a + b; });
  upd("minus-assign", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) -= cw.m; return r; } return v -= w.m; }, [](A a, B b) { return a - b; });
  upd("plus-assign-expr", [&](M& v) -> M& { return v += w.m + cw.m; }, [](A a, B b) { return a + (b + b); });
  upd("minus-assign-expr", [&](M& v) -> M& { return v -= -w.m; }, [](A a, B b) { return a - (-b); });
  upd("plus-assign-transposed", [&](M& v) -> M& { return v += cml::transpose(cml::transpose(w.m)); }, [](A a, B b) { return a + b; });
  upd("assign", [&](M& v) -> M& { if(rv) { auto&& r = (std::move(v) = w.m); return r; } return v = cw.m; }, [](A, B b) { return A(b); });
  { MH<M> h(x), k(x); h.m += w.m; k.m = k.m + w.m; mon::check(h.m == k.m, "plus-in-vs-out"); h.m -= w.m; auto f = k.m - w.m; k.m = f; mon::check(h.m == k.m, "minus-in-vs-out"); }
  B s = nz<B>(g); const B s0 = s;
  upd("times-assign", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) *= s; return r; } return v *= s; }, [&](A a, B) { return a * s0; });
  upd("divide-assign", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) /= s; return r; } return v /= s; }, [&](A a, B) { return a / s0; });
  { MH<M> h(x), k(x); h.m *= s; k.m = k.m * s; mon::check(h.m == k.m, "times-in-vs-out"); h.m /= s; k.m = k.m / s; mon::check(h.m == k.m, "divide-in-vs-out"); }
  { MH<M> h(x); auto yy = mm<B>(g, R, C, false); MH<W> q(yy); int i = g.i(0, R - 1), j = g.i(0, C - 1); h.m /= q.m(i, j); RM<A> e(R, C); for(int k = 0; k < R * C; ++k) e.a[k] = A(x.a[k] / yy(i, j)); ckm(h.m, e, "divide-assign-foreign-element"); ckm(q.m, yy, "divide-foreign-unchanged"); }
  mon::check(s == s0, "scalar-unchanged");
  mon::bin(fmt("matrix/%s/%s/%s<-%s/%s/%s", MH<M>::tag(), ename<A>(), lname<typename MH<M>::layout>(), MH<W>::tag(), ename<B>(), lname<typename MH<W>::layout>()));
  if(mon::noting()) mon::note("M=" + show(x) + " N=" + show(y) + fmt(" s=%g", double(s)));
}
template<class E> RM<E> mul(const RM<E>& a, const RM<E>& b) { RM<E> r(a.r, b.c); for(int i = 0; i < a.r; ++i) for(int j = 0; j < b.c; ++j) { E s = 0; for(int k = 0; k < a.c; ++k) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
template<class E> RM<E> tr(const RM<E>& x) { RM<E> t(x.c, x.r); for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) t(j, i) = x(i, j); return t; }
template<class M> void mat_self(Rng& g) {
  typedef MH<M> H; typedef typename H::elem A;
  const int R = H::R_ > 0 ? H::R_ : g.n(1, 6, 18), C = H::R_ > 0 ? H::C_ : g.coin() ? R : g.n(1, 6, 18);
  auto x = mm<A>(g, R, C, false); const int i = g.i(0, R - 1), j = g.i(0, C - 1); const bool rv = g.coin(); const A p = x(i, j);
  auto upd = [&](const char* key, auto f, auto r) {
    H h(x); RM<A> e(R, C); for(int a = 0; a < R; ++a) for(int b = 0; b < C; ++b) e(a, b) = A(r(a, b));
    self(h.m, f(h.m), key); ckm(h.m, e, key);
  };
  upd("times-own-element", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) *= v(i, j); return r; } return v *= v(i, j); }, [&](int a, int b) { return x(a, b) * p; });
  upd("divide-own-element", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) /= v(i, j); return r; } return v /= v(i, j); }, [&](int a, int b) { return x(a, b) / p; });
  upd("times-own-get", [&](M& v) -> M& { return v *= v.get(i, j); }, [&](int a, int b) { return x(a, b) * p; });
  upd("divide-own-data", [&](M& v) -> M& { return v /= v.data()[lin(i, j, R, C, typename H::layout())]; }, [&](int a, int b) { return x(a, b) / p; });
  upd("times-own-element-expr", [&](M& v) -> M& { return v = v * v(i, j); }, [&](int a, int b) { return x(a, b) * p; });
  upd("divide-own-element-expr", [&](M& v) -> M& { return v = v / v(i, j); }, [&](int a, int b) { return x(a, b) / p; });
  upd("fill-own-element", [&](M& v) -> M& { if(rv) { M&& r = std::move(v).fill(v(i, j)); return r; } return v.fill(v(i, j)); }, [&](int, int) { return p; });
  upd("plus-self", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) += v; return r; } return v += v; }, [&](int a, int b) { return x(a, b) + x(a, b); });
  upd("minus-self", [&](M& v) -> M& { if(rv) { M&& r = std::move(v) -= v; return r; } return v -= v; }, [&](int, int) { return 0; });
  upd("plus-self-expr", [&](M& v) -> M& { return v += v + v; }, [&](int a, int b) { return x(a, b) + (x(a, b) + x(a, b)); });
  upd("minus-self-expr", [&](M& v) -> M& { return v = v - 3 * v; }, [&](int a, int b) { return x(a, b) - x(a, b) * 3; });
  upd("hadamard-self", [&](M& v) -> M& { return v = cml::hadamard(v, v); }, [&](int a, int b) { return x(a, b) * x(a, b); });
  upd("negate-self", [&](M& v) -> M& { return v = -v; }, [&](int a, int b) { return -x(a, b); });
  upd("assign-self", [&](M& v) -> M& { M& q = v; return v = q; }, [&](int a, int b) { return x(a, b); });
  upd("zero", [&](M& v) -> M& { if(rv) { M&& r = std::move(v).zero(); return r; } return v.zero(); }, [&](int, int) { return 0; });
  upd("identity", [&](M& v) -> M& { if(rv) { M&& r = std::move(v).identity(); return r; } return v.identity(); }, [&](int a, int b) { return a == b; });
  upd("fill", [&](M& v) -> M& { if(rv) { M&& r = std::move(v).fill(p); return r; } return v.fill(p); }, [&](int, int) { return p; });
  upd("put", [&](M& v) -> M& { if(rv) { M&& r = std::move(v).put(i, j, x(0, 0)); return r; } return v.put(i, j, x(0, 0)); }, [&](int a, int b) { return a == i && b == j ? x(0, 0) : x(a, b); });
  { // rows and columns, also from the matrix itself
    auto r = nzv<A>(g, C); VH<vector<A, dynamic<>>> rw(r); auto c = nzv<A>(g, R); VH<vector<A, dynamic<>>> cl(c);
    upd("set_row", [&](M& v) -> M& { if(rv) { M&& q = std::move(v).set_row(i, rw.v); return q; } return v.set_row(i, rw.v); }, [&](int a, int b) { return a == i ? r[b] : x(a, b); });
    upd("set_col", [&](M& v) -> M& { if(rv) { M&& q = std::move(v).set_col(j, cl.v); return q; } return v.set_col(j, cl.v); }, [&](int a, int b) { return b == j ? c[a] : x(a, b); });
    int i2 = g.i(0, R - 1), j2 = g.i(0, C - 1);
    upd("set_row-own-row", [&](M& v) -> M& { return v.set_row(i, cml::row(v, i2) + cml::row(v, i)); }, [&](int a, int b) { return a == i ? x(i2, b) + x(i, b) : x(a, b); });
    upd("set_col-own-col", [&](M& v) -> M& { return v.set_col(j, cml::col(v, j2) - cml::col(v, j)); }, [&](int a, int b) { return b == j ? x(a, j2) - x(a, j) : x(a, b); });
    const bool rb = std::is_same<typename H::basis, row_basis>::value;
    upd("set_basis_element", [&](M& v) -> M& { if(rv) { M&& q = std::move(v).set_basis_element(rb ? i : j, rb ? j : i, x(0, 0)); return q; } return v.set_basis_element(rb ? i : j, rb ? j : i, x(0, 0)); }, [&](int a, int b) { return a == i && b == j ? x(0, 0) : x(a, b); });
  }
  // in-place transpose versus lazy transpose
  if constexpr(H::R_ <= 0 || H::R_ == H::C_) {
    if(R == C || H::R_ <= 0) {
      H h(x); const H k(x); auto e = tr(x);
      if(rv) { M&& r = std::move(h.m).transpose(); self(h.m, r, "transpose-returns-self"); } else self(h.m, h.m.transpose(), "transpose-returns-self");
      ckm(h.m, e, "transpose-in-place"); ckm(cml::transpose(k.m), e, "transpose-free"); ckm(k.m, x, "transpose-operand-unchanged");
      mon::check(h.m == cml::transpose(k.m), "transpose-in-vs-out");
      for(int a = 0; a < e.r; ++a) for(int b = 0; b < e.c; ++b) mon::check(h.m.data()[lin(a, b, e.r, e.c, typename H::layout())] == e(a, b), "transpose-data-layout");
      h.m.transpose(); ckm(h.m, x, "transpose-twice"); mon::bin(R == C ? "transpose/square" : "transpose/reshaping");
    }
  }
  if constexpr(H::R_ <= 0 || H::R_ == H::C_) if(R == C) {
    // eager products may name their own target
    RM<A> sm(R, C); for(auto& t : sm.a) t = A(g.i(-6, 6)); H h(sm);
    h.m = h.m * h.m; auto e = mul(sm, sm); ckm(h.m, e, "product-self");
    H k(sm); k.m = sm.r ? k.m * (k.m + k.m) : k.m; auto s2 = sm; for(auto& t : s2.a) t = t + t; ckm(k.m, mul(sm, s2), "product-self-expr");
    std::vector<A> v(R); for(auto& t : v) t = A(g.i(-6, 6)); VH<vector<A, dynamic<>>> u(v), u2(v); H z(sm);
    std::vector<A> mv(R), vm(R); for(int a = 0; a < R; ++a) { mv[a] = vm[a] = 0; for(int b = 0; b < R; ++b) { mv[a] += sm(a, b) * v[b]; vm[a] += v[b] * sm(b, a); } }
    u.v = z.m * u.v; ckv(u.v, mv, "matrix-vector-self"); u2.v = u2.v * z.m; ckv(u2.v, vm, "vector-matrix-self");
    if constexpr(std::is_floating_point<A>::value) if constexpr(H::R_ <= 0 || H::R_ == H::C_) {
      RM<A> q(R, R); for(int a = 0; a < R; ++a) for(int b = 0; b < R; ++b) q(a, b) = A(g.r(-1, 1) + (a == (b + 1) % R ? 3 * R : 0));
      H f(q), d(q); const H c(q);
      auto out = cml::inverse(c.m); ckm(c.m, q, "inverse-operand-unchanged");
      if(rv) { M&& r = std::move(f.m).inverse(); self(f.m, r, "inverse-returns-self"); } else self(f.m, f.m.inverse(), "inverse-returns-self");
      d.m = cml::inverse(d.m);
      for(int a = 0; a < R; ++a) for(int b = 0; b < R; ++b) {
        mon::ckc(f.m(a, b), ld(out(a, b)), ld(1), "inverse-in-vs-out"); mon::ckc(d.m(a, b), ld(out(a, b)), ld(1), "inverse-self");
        ld s = 0; for(int t = 0; t < R; ++t) s += ld(f.m(a, t)) * q(t, b);
        mon::ckc(A(s), ld(a == b), ld(1), "inverse-times-matrix", ld(64 * R));
      }
      mon::bin("inverse/" + std::to_string(R));
    }
  }
  mon::bin(fmt("matrix-self/%s/%s/%s/%s", H::tag(), ename<A>(), bname<typename H::basis>(), lname<typename H::layout>()));
  if(mon::noting()) mon::note("M=" + show(x) + fmt(" i=%d j=%d", i, j));
}
template<class A, class B, class L> void mats(int n) {
  typedef matrix<A, fixed<2, 3>, B, L> F; typedef matrix<A, fixed<4, 4>, B, L> S; typedef matrix<A, external<3, 3>, B, L> X; typedef matrix<A, external<>, B, L> Y; typedef matrix<A, dynamic<>, B, L> D;
  typedef matrix<A, fixed<5, 5>, B, L> G;
  std::string t = std::string(ename<A>()) + "/" + bname<B>() + "/" + lname<L>() + "/";
#define MSELF(V) mon::group(("self/" + t + #V).c_str(), n, [](Rng& g) { mat_self<V>(g); });
  MSELF(F) MSELF(S) MSELF(X) MSELF(Y) MSELF(D) MSELF(G)
  typedef row_major RL; typedef col_major CL;
#define MP(V, ...) mon::group(("pair/" + t + #V "/" #__VA_ARGS__).c_str(), n, [](Rng& g) { mat_pair<V, __VA_ARGS__>(g); });
  MP(F, matrix<int, dynamic<>, B, CL>) MP(F, matrix<float, fixed<2, 3>, B, RL>) MP(F, matrix<double, external<>, B, CL>)
  MP(X, matrix<int, external<3, 3>, B, RL>) MP(X, matrix<double, fixed<3, 3>, B, CL>) MP(X, matrix<float, dynamic<>, B, RL>)
  MP(Y, matrix<double, dynamic<>, B, CL>) MP(Y, matrix<float, external<>, B, CL>) MP(Y, matrix<int, fixed<3, 2>, B, RL>)
  MP(D, matrix<double, dynamic<>, B, CL>) MP(D, matrix<float, external<>, B, RL>) MP(D, matrix<int, fixed<2, 4>, B, CL>)
}

/* ---------------- quaternions ---------------- */
template<class E> struct Q { E w, x, y, z; };
template<class P> Q<ld> toq(const P& q) { return {ld(q.w()), ld(q.x()), ld(q.y()), ld(q.z())}; }
template<class P, class O> void quats(const char* nm, int n) {
  mon::group(nm, n, [](Rng& g) {
    typedef cml::value_type_trait_of_t<P> A; typedef cml::value_type_trait_of_t<O> B;
    const int s = std::is_same<cml::cross_type_trait_of_t<P>, cml::positive_cross>::value ? 1 : -1;
    A a[4]; B b[4]; for(auto& t : a) t = val<A>(g); for(auto& t : b) t = val<B>(g);
    auto mk = [](auto& q, auto* c) { q.put(0, c[0]); q.put(1, c[1]); q.put(2, c[2]); q.put(3, c[3]); };
    const bool rv = g.coin();
    P q; O r; mk(r, b); const O r0 = r;
    auto upd = [&](const char* key, auto f, auto e) {
      mk(q, a); P& res = f(q); self(q, res, (std::string(key) + "-returns-self").c_str());
      for(int i = 0; i < 4; ++i) mon::check(q[i] == A(e(i)), key, fmt("[%d] got %.9g want %.9g", i, double(q[i]), double(A(e(i)))));
      for(int i = 0; i < 4; ++i) mon::check(r[i] == b[i], std::string(key) + "-operand-unchanged");
    };
    upd("plus-assign", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) += r; return t; } return v += r0; }, [&](int i) { return a[i] + b[i]; });
    upd("minus-assign", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) -= r; return t; } return v -= r0; }, [&](int i) { return a[i] - b[i]; });
    upd("plus-assign-expr", [&](P& v) -> P& { return v += r + r0; }, [&](int i) { return a[i] + (b[i] + b[i]); });
    upd("assign", [&](P& v) -> P& { if(rv) { auto&& t = (std::move(v) = r); return t; } return v = r0; }, [&](int i) { return b[i]; });
    B sc = nz<B>(g);
    upd("times-assign", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) *= sc; return t; } return v *= sc; }, [&](int i) { return a[i] * sc; });
    upd("divide-assign", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) /= sc; return t; } return v /= sc; }, [&](int i) { return a[i] / sc; });
    for(int k = 0; k < 4; ++k) if(a[k] == 0) a[k] = A(1);
    const int k = g.i(0, 3);
    upd("times-own-element", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) *= v[k]; return t; } return v *= v[k]; }, [&](int i) { return a[i] * a[k]; });
    upd("divide-own-element", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) /= v[k]; return t; } return v /= v[k]; }, [&](int i) { return a[i] / a[k]; });
    { P t; mk(t, a); A w = t.w(); upd("divide-own-w", [&](P& v) -> P& { return v /= v.w(); }, [&](int i) { return a[i] / w; }); }
    { P t; mk(t, a); A z = t.z(); upd("times-own-z", [&](P& v) -> P& { return v *= v.z(); }, [&](int i) { return a[i] * z; }); }
    upd("times-own-element-expr", [&](P& v) -> P& { return v = v * v[k]; }, [&](int i) { return a[i] * a[k]; });
    upd("divide-own-element-expr", [&](P& v) -> P& { return v = v / v[k]; }, [&](int i) { return a[i] / a[k]; });
    upd("plus-self", [&](P& v) -> P& { if(rv) { P&& t = std::move(v) += v; return t; } return v += v; }, [&](int i) { return a[i] + a[i]; });
    upd("minus-self", [&](P& v) -> P& { return v -= v; }, [&](int i) { return a[i] - a[i]; });
    upd("plus-self-expr", [&](P& v) -> P& { return v = v + 2 * v; }, [&](int i) { return a[i] + a[i] * 2; });
    upd("negate-self", [&](P& v) -> P& { return v = -v; }, [&](int i) { return -a[i]; });
    upd("assign-self", [&](P& v) -> P& { P& t = v; return v = t; }, [&](int i) { return a[i]; });
    upd("zero", [&](P& v) -> P& { if(rv) { P&& t = std::move(v).zero(); return t; } return v.zero(); }, [&](int) { return 0; });
    upd("identity", [&](P& v) -> P& { if(rv) { P&& t = std::move(v).identity(); return t; } return v.identity(); }, [&](int i) { return i == int(P::W); });
    upd("put", [&](P& v) -> P& { if(rv) { P&& t = std::move(v).put(k, a[0]); return t; } return v.put(k, a[0]); }, [&](int i) { return i == k ? a[0] : a[i]; });
    upd("conjugate", [&](P& v) -> P& { if(rv) { P&& t = std::move(v).conjugate(); return t; } return v.conjugate(); }, [&](int i) { return i == int(P::W) ? a[i] : -a[i]; });
    upd("conjugate-self", [&](P& v) -> P& { return v = cml::conjugate(v); }, [&](int i) { return i == int(P::W) ? a[i] : -a[i]; });
    // products
    mk(q, a); auto A1 = toq(q), B1 = toq(r);
    auto qmul = [&](Q<ld> p, Q<ld> o) { return Q<ld>{p.w * o.w - (p.x * o.x + p.y * o.y + p.z * o.z),
      p.w * o.x + o.w * p.x + s * (p.y * o.z - p.z * o.y), p.w * o.y + o.w * p.y + s * (p.z * o.x - p.x * o.z), p.w * o.z + o.w * p.z + s * (p.x * o.y - p.y * o.x)}; };
    auto ckq = [&](const P& t, Q<ld> e, ld sc, const char* key) { mon::ckc(t.w(), e.w, sc, key); mon::ckc(t.x(), e.x, sc, key); mon::ckc(t.y(), e.y, sc, key); mon::ckc(t.z(), e.z, sc, key); };
    if(rv) { P&& t = std::move(q) *= r; self(q, t, "product-assign-returns-self"); } else self(q, q *= r0, "product-assign-returns-self");
    ckq(q, qmul(A1, B1), 100, "product-assign"); { P t; mk(t, a); t = t * r; mon::check(t == q, "product-in-vs-out"); }
    mk(q, a); q *= q; ckq(q, qmul(A1, A1), 100, "product-self-assign");
    mk(q, a); q = q * q; ckq(q, qmul(A1, A1), 100, "product-self");
    mk(q, a); q = r * q; ckq(q, qmul(B1, A1), 100, "product-self-right");
    mk(q, a); q *= cml::conjugate(q); ckq(q, qmul(A1, {A1.w, -A1.x, -A1.y, -A1.z}), 100, "product-own-conjugate");
    // in-place functions versus free and node forms, all against the definition
    ld l2 = A1.w * A1.w + A1.x * A1.x + A1.y * A1.y + A1.z * A1.z, l = std::sqrt(l2), vl = std::sqrt(A1.x * A1.x + A1.y * A1.y + A1.z * A1.z);
    if(l2 > 0.01L && vl > 0.1L) {
      P t; const auto same = [&](const char* key, Q<ld> e, ld sc, auto inpl, auto free, auto node) {
        mk(q, a); P& res = inpl(q); self(q, res, (std::string(key) + "-returns-self").c_str()); ckq(q, e, sc, key);
        mk(q, a); const P& cq = q; ckq(P(free(cq)), e, sc, (std::string(key) + "-free").c_str()); ckq(P(node(cq)), e, sc, (std::string(key) + "-node").c_str());
        for(int i = 0; i < 4; ++i) mon::check(q[i] == a[i], std::string(key) + "-operand-unchanged");
        q = free(q); ckq(q, e, sc, (std::string(key) + "-self").c_str());
        mk(q, a); const P& c2 = q; q = node(c2); ckq(q, e, sc, (std::string(key) + "-self-node").c_str());
      };
      same("normalize", {A1.w / l, A1.x / l, A1.y / l, A1.z / l}, 1, [&](P& v) -> P& { if(rv) { P&& t = std::move(v).normalize(); return t; } return v.normalize(); },
        [](const P& v) { return cml::normalize(v); }, [](const P& v) { return v.normalize(); });
      same("inverse", {A1.w / l2, -A1.x / l2, -A1.y / l2, -A1.z / l2}, 1 / l, [&](P& v) -> P& { if(rv) { P&& t = std::move(v).inverse(); return t; } return v.inverse(); },
        [](const P& v) { return cml::inverse(v); }, [](const P& v) { return v.inverse(); });
      same("conjugate", {A1.w, -A1.x, -A1.y, -A1.z}, l, [&](P& v) -> P& { return v.conjugate(); }, [](const P& v) { return cml::conjugate(v); }, [](const P& v) { return v.conjugate(); });
      ld th = std::atan2(vl, A1.w) / vl;
      same("log", {std::log(l), th * A1.x, th * A1.y, th * A1.z}, 4, [&](P& v) -> P& { if(rv) { P&& t = std::move(v).log(); return t; } return v.log(); }, [](const P& v) { return cml::log(v); }, [](const P& v) { return cml::log(v); });
      ld ex = std::exp(A1.w), sn = ex * std::sin(vl) / vl;
      same("exp", {ex * std::cos(vl), sn * A1.x, sn * A1.y, sn * A1.z}, ex * 4, [&](P& v) -> P& { if(rv) { P&& t = std::move(v).exp(); return t; } return v.exp(); }, [](const P& v) { return cml::exp(v); }, [](const P& v) { return cml::exp(v); });
      same("identity", {1, 0, 0, 0}, 1, [&](P& v) -> P& { return v.identity(); }, [](const P& v) { return cml::identity(v); }, [](const P& v) { return cml::identity(v); });
    }
    mon::bin(fmt("quaternion/%s", ename<A>()));
    if(mon::noting()) mon::note(fmt("q=(%g %g %g %g) r=(%g %g %g %g)", double(a[0]), double(a[1]), double(a[2]), double(a[3]), double(b[0]), double(b[1]), double(b[2]), double(b[3])));
  });
}

int main(int c, char** v) {
  mon::init(c, v);
#if PART == 0
  vecs<int>("int", 150);
#elif PART == 1
  vecs<float>("float", 150);
#elif PART == 2
  vecs<double>("double", 150);
#elif PART == 3
  mats<int, row_basis, row_major>(100); 
#elif PART == 4
  mats<float, col_basis, row_major>(100);
#elif PART == 5
  mats<double, row_basis, col_major>(100);
#elif PART == 6
  mats<float, col_basis, col_major>(100);
#elif PART == 7
  using namespace cml;
  quats<quaterniond_ip, quaternionf_ip>("ip/d<-f", 1500); quats<quaternionf_in, quaterniond_in>("in/f<-d", 1500);
  quats<quaternionf_rp, quaternionf_rp>("rp/f<-f", 1500); quats<quaterniond_rn, quaterniond_rn>("rn/d<-d", 1500); quats<quaternionf_ip, quaterniond_ip>("ip/f<-d", 1500); quats<quaterniond_rp, quaternionf_rp>("rp/d<-f", 1500);
#endif
  return mon::finish();
}
