// C10: products, trace, transpose and row/column/basis access against plain 2-D arrays (exact small integers).
#include "reps.h"
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;
typedef RM<ld> R; typedef std::vector<ld> RV;
template<class E> R up(const RM<E>& m) { R r(m.r, m.c); for(size_t i = 0; i < m.a.size(); ++i) r.a[i] = m.a[i]; return r; }
template<class E> RV up(const std::vector<E>& v) { return RV(v.begin(), v.end()); }
R mul(const R& a, const R& b) { R m(a.r, b.c); for(int i = 0; i < a.r; ++i) for(int j = 0; j < b.c; ++j) for(int k = 0; k < a.c; ++k) m(i, j) += a(i, k) * b(k, j); return m; }
R tp(const R& a) { R m(a.c, a.r); for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }
RV mulv(const R& a, const RV& x) { RV v(a.r); for(int i = 0; i < a.r; ++i) for(int k = 0; k < a.c; ++k) v[i] += a(i, k) * x[k]; return v; }
R addm(const R& a, const R& b) { R m(a); for(size_t i = 0; i < m.a.size(); ++i) m.a[i] += b.a[i]; return m; }
inline int dim(Rng& g, int f, int lo = 1, int hi = 5) { return f > 0 ? f : g.coin(1, 12) ? 0 : g.n(lo, hi, 4 * hi); }
template<class M> std::string name() { typedef MH<M> H; return fmt("%s<%s>/%s/%s", H::tag(), ename<typename H::elem>(), bname<typename H::basis>(), lname<typename H::layout>()); }

// all ways to look at one readable matrix
template<class B, class X> void look(const char* form, const X& x, const R& r) {
  const std::string f = std::string("/") + form; if(!ckm(x, r, "elements" + f)) return;
  bool ok = true; for(int i = 0; i < r.r; ++i) for(int j = 0; j < r.c; ++j) ok = ok && ld(x(i, j)) == r(i, j); mon::check(ok, "call-operator" + f, show(r));
  mon::check(x.size().first == r.r && x.size().second == r.c, "size" + f);
  const bool rb = std::is_same<B, row_basis>::value; const int n = rb ? r.r : r.c, k = rb ? r.c : r.r;
  mon::check(x.basis_count() == n && x.basis_size() == k, "basis-sizes" + f, fmt("%d %d want %d %d", x.basis_count(), x.basis_size(), n, k));
  ok = true; for(int i = 0; i < n; ++i) for(int j = 0; j < k; ++j) ok = ok && ld(x.basis_element(i, j)) == (rb ? r(i, j) : r(j, i)); mon::check(ok, "basis-element" + f, show(r));
  for(int i = 0; i < r.r; ++i) { RV w(r.c); for(int j = 0; j < r.c; ++j) w[j] = r(i, j); ckv(cml::row(x, i), w, "row" + f); if(rb) ckv(cml::basis(x, i), w, "basis-row" + f); }
  for(int j = 0; j < r.c; ++j) { RV w(r.r); for(int i = 0; i < r.r; ++i) w[i] = r(i, j); ckv(cml::col(x, j), w, "col" + f); if(!rb) ckv(cml::basis(x, j), w, "basis-col" + f); }
  ckm(cml::transpose(x), tp(r), "transpose" + f); ckm(cml::transpose(cml::transpose(x)), r, "transpose-twice" + f);
  { auto t = cml::transpose(x); ckm(t, tp(r), "transpose-kept" + f); if(r.r && r.c) ckv(cml::row(t, 0), [&] { RV w(r.r); for(int i = 0; i < r.r; ++i) w[i] = r(i, 0); return w; }(), "row-of-transpose" + f); }
}
template<class X> void traces(const char* form, const X& x, const R& r) {
  const std::string f = std::string("/") + form; ld t = 0; for(int i = 0; i < r.r && i < r.c; ++i) t += r(i, i);
  if(r.r == r.c && r.r > 0) { mon::cke(cml::trace(x), t, "trace" + f); mon::cke(x.trace(), t, "trace-member" + f); mon::bin("trace"); }
}
template<class X> void trace2(const char* form, const X& x, const R& r) { if(r.r >= 2 && r.c >= 2) mon::cke(cml::trace_2x2(x), r(0, 0) + r(1, 1), std::string("trace-2x2/") + form); }
template<class X> void trace3(const char* form, const X& x, const R& r) { if(r.r >= 3 && r.c >= 3) mon::cke(cml::trace_3x3(x), r(0, 0) + r(1, 1) + r(2, 2), std::string("trace-3x3/") + form); }
template<class M> void views(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; typedef typename H::basis B; int n = dim(g, H::R_), m = H::C_ > 0 ? H::C_ : g.coin(1, 3) ? n : dim(g, H::C_);
  auto x = rmat<E>(g, n, m); H h(x); const M& a = h.m; const R r = up(x); mon::mix(n * 64 + m);
  look<B>("named", a, r); look<B>("negated", -(-a), r); look<B>("scaled", a * E(2), addm(r, r)); look<B>("sum", a + a, addm(r, r));
  if constexpr(!H::ext) { look<B>("copy", M(a), r); }
  { H k(x); ckm(cml::transpose(std::move(k.m)), tp(r), "transpose/moved"); }
  constexpr bool sq = H::R_ < 0 || H::R_ == H::C_;
  if constexpr(sq) { traces("named", a, r); traces("scaled", a * E(2), addm(r, r)); traces("transposed", cml::transpose(a), tp(r)); if(n == m) traces("product", a * a, mul(r, r)); }
  if constexpr(H::R_ < 0 || (H::R_ >= 2 && H::C_ >= 2)) { trace2("named", a, r); trace2("sum", a + a, addm(r, r)); } if constexpr(H::R_ < 0 || (H::R_ >= 3 && H::C_ >= 3)) { trace3("named", a, r); trace3("sum", a + a, addm(r, r)); }
  ckm(a, x, "operand-unchanged"); mon::bin(n == m ? "shape/square" : "shape/rectangular"); if(mon::noting()) mon::note(name<M>() + show(x));
}
// fixed, matching inner sizes or run-time ones
constexpr bool fits(int a, int b) { return a < 0 || b < 0 || a == b; }
template<class M, class N> void prods(Rng& g) {
  typedef MH<M> H; typedef MH<N> K; typedef typename H::elem A; typedef typename K::elem B; const int n = dim(g, H::R_), k = H::C_ > 0 ? H::C_ : K::R_ > 0 ? K::R_ : dim(g, -1), m = dim(g, K::C_);
  auto x = rmat<A>(g, n, k), x2 = rmat<A>(g, n, k); auto y = rmat<B>(g, k, m), y2 = rmat<B>(g, k, m); H h(x), h2(x2); K q(y), q2(y2); const M &a = h.m, &a2 = h2.m; const N &b = q.m, &b2 = q2.m;
  const R rx = up(x), ry = up(y), p = mul(rx, ry); mon::mix((n * 64 + k) * 64 + m);
  if(mon::noting()) mon::note(name<M>() + show(x) + " * " + name<N>() + show(y));
  auto c = a * b; ckm(c, p, "product"); typedef decltype(c) C; typedef MH<C> Z;
  mon::check(std::is_same<typename Z::layout, typename H::layout>::value && std::is_same<typename Z::basis, typename H::basis>::value, "product-orientation");
  mon::check(std::is_same<typename Z::elem, decltype(A() * B())>::value, "product-element-type"); mon::check(Z::dyn == (H::R_ < 0 || K::R_ < 0), "product-storage");
  look<typename H::basis>("product", c, p);
  { int t = 0; bool ok = true; for(int o = 0; o < (std::is_same<typename Z::layout, row_major>::value ? n : m); ++o) for(int i = 0; i < (std::is_same<typename Z::layout, row_major>::value ? m : n); ++i, ++t) ok = ok && ld(c.data()[t]) == (std::is_same<typename Z::layout, row_major>::value ? p(o, i) : p(i, o)); mon::check(ok, "product-data", show(p)); }
  ckm((a + a2) * (b - b2), mul(addm(rx, up(x2)), [&] { R s(ry); for(size_t i = 0; i < s.a.size(); ++i) s.a[i] -= y2.a[i]; return s; }()), "product-of-expressions");
  ckm((a * A(2)) * b, addm(p, p), "product-scaled"); ckm(-(a * b), [&] { R s(p); for(auto& e : s.a) e = -e; return s; }(), "negated-product"); ckm(a * b + a2 * b, addm(p, mul(up(x2), ry)), "sum-of-products");
  ckm(cml::transpose(a * b), tp(p), "transposed-product");
  { ckm(cml::transpose(b) * cml::transpose(a), tp(p), "product-of-transposes"); ckm(cml::transpose(cml::transpose(a)) * b, p, "product-of-double-transpose"); mon::bin("transposed-operands"); }
  if constexpr(!H::ext && !K::ext) ckm(M(a) * N(b), p, "product-of-temporaries");
  { H h3(x); K q3(y); auto d = std::move(h3.m) * std::move(q3.m); ckm(d, p, "product-of-moved"); }
  // assigned to every storage and to the other layout
  { matrix<decltype(A() * B()), dynamic<>, typename H::basis, col_major> t(1, 1); t = a * b; ckm(t, p, "product-assigned"); matrix<double, dynamic<>, row_basis, row_major> u(a * b); ckm(u, p, "product-constructed"); }
  // associativity and identity hold exactly on small integers
  { auto z = rmat<B>(g, m, g.i(1, 4)); MH<matrix<B, dynamic<>, typename K::basis, typename K::layout>> w(z); ckm((a * b) * w.m, mul(p, up(z)), "associative-left"); ckm(a * (b * w.m), mul(p, up(z)), "associative-right"); }
  ckm(a, x, "left-unchanged"); ckm(b, y, "right-unchanged"); if(k == 0) mon::bin("inner/zero"); if(n != m || n != k) mon::bin("product/rectangular");
}
template<class M, class V> void mv(Rng& g) {
  typedef MH<M> H; typedef VH<V> K; typedef typename H::elem A; typedef typename K::elem B;
  if constexpr(fits(H::C_, K::N_)) {
    const int k = H::C_ > 0 ? H::C_ : K::N_ > 0 ? K::N_ : dim(g, -1), n = dim(g, H::R_); auto x = rmat<A>(g, n, k); auto v = rvec<B>(g, k); H h(x); K q(v); const M& a = h.m; const V& b = q.v; const RV w = mulv(up(x), up(v)); mon::mix(n * 64 + k);
    ckv(a * b, w, "times-vector"); { auto c = a * b; mon::check(std::is_same<typename VH<decltype(c)>::elem, decltype(A() * B())>::value, "times-vector-element-type"); ckv(c, w, "times-vector-kept"); }
    ckv((a + a) * b, [&] { RV s(w); for(auto& e : s) e *= 2; return s; }(), "expression-times-vector"); ckv(a * (b + b), [&] { RV s(w); for(auto& e : s) e *= 2; return s; }(), "times-vector-expression"); ckv(a * b - a * b, RV(w.size()), "times-vector-difference");
    ckv(cml::transpose(cml::transpose(a)) * b, w, "double-transpose-times-vector"); ckv(b * cml::transpose(a), w, "vector-times-transpose"); { H h3(x); K q3(v); ckv(std::move(h3.m) * std::move(q3.v), w, "times-moved-vector"); }
    if(n) { const int i = g.i(0, n - 1); if(k) mon::cke(cml::dot(cml::row(a, i), b), w[i], "row-dot-vector"); }
    ckm(a, x, "matrix-unchanged"); ckv(b, v, "vector-unchanged"); mon::bin("matrix-vector"); if(mon::noting()) mon::note(name<M>() + show(x) + " * " + K::tag() + show(v));
  }
  if constexpr(fits(H::R_, K::N_)) {
    const int k = H::R_ > 0 ? H::R_ : K::N_ > 0 ? K::N_ : dim(g, -1), m = dim(g, H::C_); auto x = rmat<A>(g, k, m); auto v = rvec<B>(g, k); H h(x); K q(v); const M& a = h.m; const V& b = q.v; const RV w = mulv(tp(up(x)), up(v)); mon::mix(k * 64 + m);
    ckv(b * a, w, "vector-times"); ckv((b + b) * a, [&] { RV s(w); for(auto& e : s) e *= 2; return s; }(), "vector-expression-times"); ckv(b * (a * A(2)), [&] { RV s(w); for(auto& e : s) e *= 2; return s; }(), "vector-times-expression");
    ckv(cml::transpose(a) * b, w, "transpose-times-vector"); { H h3(x); K q3(v); ckv(std::move(q3.v) * std::move(h3.m), w, "moved-vector-times"); }
    if(m && k) { const int j = g.i(0, m - 1); mon::cke(cml::dot(b, cml::col(a, j)), w[j], "vector-dot-col"); }
    ckm(a, x, "matrix-unchanged"); ckv(b, v, "vector-unchanged"); mon::bin("vector-matrix");
  }
}
// any representation of the vector with one matrix
template<class M> void mvforms(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; const int n = g.n(1, 4, 16), k = g.n(1, 5, 16), f = g.i(0, 12); auto x = rmat<E>(g, n, k); auto v = rvec<E>(g, k), u = rvec<E>(g, n); H h(x); mon::mix(f);
  rep<E>(f, v, [&](const auto& b) { ckv(h.m * b, mulv(up(x), up(v)), std::string("times-") + RN[f]); }); rep<E>(f, u, [&](const auto& b) { ckv(b * h.m, mulv(tp(up(x)), up(u)), std::string(RN[f]) + "-times"); });
  mon::bin(std::string("vector-form/") + RN[f]); if(mon::noting()) mon::note(name<M>() + show(x) + RN[f]);
}
template<class E, class B, class L> struct S {
  typedef matrix<E, fixed<2, 3>, B, L> F23; typedef matrix<E, fixed<3, 4>, B, L> F34; typedef matrix<E, fixed<3, 3>, B, L> F33; typedef matrix<E, external<3, 2>, B, L> X32; typedef matrix<E, external<4, 3>, B, L> X43; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> X; typedef matrix<E, fixed<1, 3>, B, L> F13; typedef matrix<E, fixed<3, 1>, B, L> F31;
};
#define G_(a, b) mon::group("prod-" #a "-" #b, 300, prods<typename T::a, typename T::b>)
#define GF_(U, a, W, b) mon::group("prod-" #U #a "-" #W #b, 250, prods<typename U::a, typename W::b>)
template<class B, class L> void all() {
  typedef S<double, B, L> T; typedef S<float, B, L> F; typedef S<int, B, L> I;
#if PART % 4 == 0
  G_(F23, F34); G_(F23, X32); G_(F23, D); G_(F23, X); G_(D, D); G_(D, X); G_(D, F34); G_(X, D); G_(X, X); G_(X, F33); G_(X32, F23); G_(X43, D);
#elif PART % 4 == 1
  G_(F13, F31); G_(F31, F13); G_(X43, F34); G_(F33, F33); G_(F33, X32); G_(X43, F33); G_(D, X32); G_(X43, X32);
  GF_(F, F23, F, F34); GF_(I, D, I, X); GF_(I, F33, I, F34);
#elif PART % 4 == 2
  GF_(F, D, T, D); GF_(I, F23, T, F33); GF_(T, X, F, F23);
#define V_(U, a) mon::group("view-" #U #a, 300, views<typename U::a>)
  V_(T, F23); V_(T, F33); V_(T, X32); V_(T, X43); V_(T, D); V_(T, X); V_(T, F13); V_(I, D); V_(F, F34); V_(F, X);
#else
#define W_(U, a, v) mon::group("mv-" #U #a "-" #v, 250, mv<typename U::a, v>)
  typedef vector<double, fixed<3>> V3; typedef vector<double, dynamic<>> VD; typedef vector<double, external<2>> VX2; typedef vector<double, external<>> VX; typedef vector<float, fixed<3>> VF; typedef vector<const double, external<>> VC; typedef vector<int, dynamic<>> VI;
  W_(T, F23, V3); W_(T, F23, VD); W_(T, F23, VX2); W_(T, X32, V3); W_(T, D, V3); W_(T, D, VD); W_(T, X, VX); W_(T, X43, VX); W_(T, D, VC); W_(F, F33, VF); W_(F, D, V3); W_(I, D, VI); W_(I, X32, VF);
  mon::group("mv-forms-d", 1500, mvforms<typename T::D>); mon::group("mv-forms-ix", 800, mvforms<typename I::X>);
#endif
}
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART / 4 == 0
  all<col_basis, row_major>();
#elif PART / 4 == 1
  all<row_basis, row_major>();
#elif PART / 4 == 2
  all<col_basis, col_major>();
#else
  all<row_basis, col_major>();
#endif
  return mon::finish();
}
