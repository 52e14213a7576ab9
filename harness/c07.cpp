// C07: operations whose run-time sizes do not fit raise a documented size error and change nothing; those that fit raise none.
#include "zoo.h"
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;

enum : unsigned { IV = 1, MINV = 2, VS = 4, VR = 8, IM = 16, MS = 32, MINM = 64, IROW = 128, ICOL = 256, IINN = 512, NSQ = 1024, AFF = 2048, QS = 4096, INV = 8192, OTHER = 1u << 20 };
const unsigned ANYV = IV | MINV | VS | VR, ANYM = IM | MS | MINM | IROW | ICOL | IINN | NSQ | AFF;
std::string names(unsigned m) {
  static const char* n[] = {"incompatible_vector_size", "minimum_vector_size", "vector_size", "vector_size_range", "incompatible_matrix_size", "matrix_size", "minimum_matrix_size", "matrix_row_size", "matrix_col_size", "matrix_inner_size", "non_square_matrix", "affine_matrix_size", "quaternion_size", "invalid_argument"};
  std::string s; for(int i = 0; i < 14; ++i) if(m >> i & 1) s += std::string(s.empty() ? "" : "|") + n[i];
  return s.empty() ? (m ? "other" : "none") : s;
}
template<class F> unsigned thrown(F f) {
  try { f(); return 0; }
  catch(cml::incompatible_vector_size_error&) { return IV; } catch(cml::minimum_vector_size_error&) { return MINV; }
  catch(cml::vector_size_error&) { return VS; } catch(cml::vector_size_range_error&) { return VR; }
  catch(cml::incompatible_matrix_size_error&) { return IM; } catch(cml::matrix_size_error&) { return MS; }
  catch(cml::minimum_matrix_size_error&) { return MINM; } catch(cml::incompatible_matrix_row_size_error&) { return IROW; }
  catch(cml::incompatible_matrix_col_size_error&) { return ICOL; } catch(cml::incompatible_matrix_inner_size_error&) { return IINN; }
  catch(cml::non_square_matrix_error&) { return NSQ; } catch(cml::affine_matrix_size_error&) { return AFF; }
  catch(cml::quaternion_size_error&) { return QS; } catch(std::invalid_argument&) { return INV; }
  catch(...) { return OTHER; }
}
// want: acceptable errors, 0 when the sizes fit
template<class F> unsigned ex(const char* key, unsigned want, F f) {
  unsigned t = thrown(f);
  mon::ev();
  if(want == 0 ? t != 0 : !(t & want)) mon::fail(key, "raised " + names(t) + ", want " + names(want));
  mon::bin(std::string(want ? "error/" : "fits/") + key);
  return t;
}
// the sizes break no documented rule but the error is optional (documentation and other rules disagree)
template<class F> unsigned opt(const char* key, unsigned may, F f) {
  unsigned t = thrown(f); mon::ev();
  if(t && !(t & may)) mon::fail(key, "raised " + names(t) + ", want none or " + names(may));
  return t;
}
static thread_local volatile double sink;
template<class X> void eat(const X& x) { double s = 0; for(int i = 0; i < x.size(); ++i) s += double(x.get(i)); sink = s; }
template<class X> void eatm(const X& x) { double s = 0; for(int i = 0; i < x.rows(); ++i) for(int j = 0; j < x.cols(); ++j) s += double(x.get(i, j)); sink = s; }
inline std::vector<double> dv(Rng& g, int n) { std::vector<double> v(n); for(auto& x : v) x = g.r(0.5, 4) * (g.coin(1, 4) ? -1 : 1); return v; }
template<class E> std::vector<E> ev_(Rng& g, int n) { std::vector<E> v(n); for(auto& x : v) { x = E(g.i(1, 9)); } return v; }
template<class E> RM<E> em(Rng& g, int r, int c) { RM<E> m(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(g.i(1, 5) + (i == j ? 30 : 0)); return m; }
inline int dim(Rng& g, int fixed, int lo = 0, int hi = 5) { return fixed > 0 ? fixed : g.n(lo, hi, 4 * hi); }

/* ---------------- vectors ---------------- */
// forms that are a compile-time error for some storages
template<class V> auto assign_arr(V& t) -> decltype(t.resize(0), void()) { int q[3] = {1, 2, 3}; t = q; }
template<class E> void assign_arr(vector<E, external<>>& t) { int q[3] = {1, 2, 3}; t = q; }
template<class E, int N> void assign_arr(vector<E, fixed<N>>& t) { int q[N] = {}; t = q; }
template<class E, int N> void assign_arr(vector<E, external<N>>& t) { int q[N] = {}; t = q; }
template<class V> auto set3(V& t, bool rv) -> decltype(t.resize(0), void()) { if(rv) std::move(t).set(1, 2, 3); else t.set(1, 2, 3); }
template<class E> void set3(vector<E, external<>>& t, bool rv) { if(rv) std::move(t).set(1, 2, 3); else t.set(1, 2, 3); }
template<class E> void set3(vector<E, fixed<3>>& t, bool) { t.set(1, 2, 3); }
template<class E> void set3(vector<E, external<3>>& t, bool) { t.set(1, 2, 3); }
template<class E, int N> void set3(vector<E, fixed<N>>&, bool) { throw cml::vector_size_error(); }
template<class E, int N> void set3(vector<E, external<N>>&, bool) { throw cml::vector_size_error(); }
template<class V, class W> void construct(const W& b) { V v(b); eat(v); }

template<class V, class W> void vec2(Rng& g) {
  typedef VH<V> H; typedef VH<W> K; typedef typename H::elem A; typedef typename K::elem B;
  const int n = dim(g, H::N_), m = g.coin(2, 5) && K::N_ < 0 ? n : dim(g, K::N_);
  auto x = ev_<A>(g, n); auto y = ev_<B>(g, m); H h(x); K k(y); V& a = h.v; const W& b = k.v;
  mon::mix(n * 8 + m); for(auto e : x) mon::mixd(e); for(auto e : y) mon::mixd(e);
  auto same = [&](const char* key) { ckv(a, x, std::string(key) + "-target-unchanged"); ckv(b, y, std::string(key) + "-operand-unchanged"); };
  const unsigned iv = n == m ? 0 : IV;
  const unsigned mn = n && m ? 0 : MINV;
  auto exs = [&](const char* key, unsigned w, auto f) { ex(key, w, f); same(key); };
  // deferred operators: the error comes no later than evaluation
  exs("plus", iv, [&] { eat(a + b); }); exs("minus", iv, [&] { eat(b - a); });
  exs("plus-expr", iv, [&] { eat((a + a) - 2 * b); }); exs("plus-temp", iv, [&] { eat((a * 2) + (-b) + VH<vector<double, dynamic<>>>(std::vector<double>(y.begin(), y.end())).v); });
  exs("hadamard", iv, [&] { eat(cml::hadamard(a, b)); });
  exs("dot", iv | (mn ? mn : 0), [&] { sink = cml::dot(a, b); }); exs("dot-expr", iv | mn, [&] { sink = cml::dot(a + a, 2 * b); });
  exs("manhattan", iv | mn, [&] { sink = cml::manhattan_distance(a, b); });
  exs("project-to-vector", iv | mn, [&] { eat(cml::project_to_vector(a, b)); });
  exs("project-to-hplane", iv | mn, [&] { eat(cml::project_to_hplane(a, b)); });
  const unsigned c3 = n == 3 && m == 3 ? 0 : VS, c2 = n == 2 && m == 2 ? 0 : VS;
  constexpr bool ok3 = (H::N_ < 0 || H::N_ == 3) && (K::N_ < 0 || K::N_ == 3), ok2 = (H::N_ < 0 || H::N_ == 2) && (K::N_ < 0 || K::N_ == 2), okh2 = H::N_ < 0 || H::N_ == 2;
  if constexpr(ok3) { exs("cross", c3, [&] { eat(cml::cross(a, b)); }); exs("cross-expr", c3, [&] { eat(cml::cross(a * 2, -b)); }); }
  if constexpr(ok2) exs("perp-dot", c2, [&] { sink = cml::perp_dot(a, b); });
  if constexpr(ok3) exs("triple", c3 ? c3 | IV | MINV : 0, [&] { sink = cml::triple_product(a, b, a); });
  if constexpr(okh2) exs("perp", n == 2 ? 0 : VS, [&] { eat(cml::perp(a)); });
  if constexpr(ok2) exs("signed-angle-2D", c2 ? ANYV : 0, [&] { sink = cml::signed_angle_2D(a, b); });
  if constexpr(ok2) exs("unsigned-angle-2D", c2 ? ANYV : 0, [&] { sink = cml::unsigned_angle_2D(a, b); });
  if constexpr(ok3) exs("signed-angle", c3 ? ANYV : 0, [&] { sink = cml::signed_angle(a, b, b); });
  if constexpr(ok3) exs("signed-angle-reference", n == 3 && m == 3 ? 0 : ANYV, [&] { sink = cml::signed_angle(a, a, b); });
  if constexpr(ok3) exs("unsigned-angle", c3 ? ANYV : 0, [&] { sink = cml::unsigned_angle(a, b); });
  if constexpr(ok3) exs("rotate-vector", c3 ? VS | ANYV : 0, [&] { eat(cml::rotate_vector(a, b, A(1))); });
  exs("length", n ? 0 : MINV, [&] { sink = a.length_squared(); });
  if(n && m) exs("outer", 0, [&] { eatm(cml::outer(a, b)); });
  exs("compare", 0, [&] { mon::check((a == b) == (x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin())), "equal-vs-elements"); sink = (a < b) + (a != b) + (a <= b) + (a > b) + (a >= b); });
  // in place: target keeps its value if the sizes do not fit
  auto inpl = [&](const char* key, unsigned w, auto f) { H t(x); unsigned th = ex(key, w, [&] { f(t.v); }); if(th) ckv(t.v, x, std::string(key) + "-target-unchanged"); ckv(b, y, std::string(key) + "-operand-unchanged"); };
  const bool rv = g.coin();
  inpl("plus-assign", iv, [&](V& t) { if(rv) std::move(t) += b; else t += b; }); inpl("minus-assign", iv, [&](V& t) { if(rv) std::move(t) -= b; else t -= b; });
  inpl("plus-assign-expr", iv, [&](V& t) { t += b + b; }); inpl("minus-assign-expr", iv, [&](V& t) { t -= 2 * b; });
  inpl("minimize", iv, [&](V& t) { if(rv) std::move(t).minimize(b); else t.minimize(b); }); inpl("maximize", iv, [&](V& t) { if(rv) std::move(t).maximize(b); else t.maximize(b); });
  const unsigned as = H::dyn ? 0 : iv;
  inpl("assign", as, [&](V& t) { if(rv) std::move(t) = b; else t = b; if(H::dyn) mon::check(t.size() == m, "assign-resizes"); });
  inpl("assign-expr", as, [&](V& t) { if(rv) std::move(t) = b + b; else t = b + b; if(H::dyn) mon::check(t.size() == m, "assign-resizes"); });
  inpl("assign-array", H::N_ > 0 ? (H::N_ == 3 ? 0 : 0) : (H::dyn || n == 3 ? 0 : IV | VS), [&](V& t) { assign_arr(t); });
  inpl("assign-list2", H::dyn || n == 2 ? 0 : IV, [&](V& t) { if(rv) std::move(t) = {1, 2}; else t = {1, 2}; });
  inpl("assign-list4", H::dyn || n == 4 ? 0 : IV, [&](V& t) { if(rv) std::move(t) = {1, 2, 3, 4}; else t = {1, 2, 3, 4}; });
  inpl("set3", H::dyn || n == 3 ? 0 : VS | IV, [&](V& t) { set3(t, rv); });
  if constexpr(!H::ext) ex("construct", as, [&] { construct<V>(b); });
  if(mon::noting()) mon::note(fmt("%s<%s>[%d] with %s<%s>[%d]", H::tag(), ename<A>(), n, K::tag(), ename<B>(), m));
}
/* ---------------- matrices ---------------- */
template<class X, class A, class B, std::enable_if_t<std::is_same<typename MH<A>::layout, typename MH<B>::layout>::value && std::is_same<typename MH<A>::basis, typename MH<B>::basis>::value>* = nullptr>
void prod(X exs, const A& a, const B& b, unsigned w) {
  exs("product", w, [&] { eatm(a * b); }); exs("product-expr", w, [&] { eatm((a + a) * (b * 2)); });
  if constexpr(MH<A>::R_ < 0 && MH<B>::R_ < 0) {
    const unsigned s = (a.rows() == a.cols() && b.rows() == b.cols() ? 0 : NSQ), q = a.rows() == b.rows() && a.cols() == b.cols() && a.rows() == a.cols() ? 0 : IINN;
    exs("matrix-concat", s ? NSQ | IINN : q, [&] { eatm(cml::matrix_concat(a, b)); });
  }
}
template<class X, class A, class B, std::enable_if_t<!(std::is_same<typename MH<A>::layout, typename MH<B>::layout>::value && std::is_same<typename MH<A>::basis, typename MH<B>::basis>::value)>* = nullptr>
void prod(X, const A&, const B&, unsigned) {}
template<class M, class N> void mconstruct(const N& b) { M m(b); eatm(m); }
template<class M, class N> void mat2(Rng& g) {
  typedef MH<M> H; typedef MH<N> K; typedef typename H::elem A; typedef typename K::elem B;
  const int r = dim(g, H::R_, 1, 4), c = dim(g, H::C_, 1, 4);
  int r2 = dim(g, K::R_, 1, 4), c2 = dim(g, K::C_, 1, 4);
  const int mode = g.i(0, 3); if(K::R_ < 0) { if(mode == 1) { r2 = r; c2 = c; } if(mode == 2) r2 = c; if(mode == 3) { r2 = c; c2 = r; } }
  auto x = em<A>(g, r, c); auto y = em<B>(g, r2, c2); H h(x); K k(y); M& a = h.m; const N& b = k.m;
  for(auto e : x.a) mon::mixd(e); for(auto e : y.a) mon::mixd(e); mon::mix(((r * 8 + c) * 8 + r2) * 8 + c2);
  auto exs = [&](const char* key, unsigned w, auto f) { ex(key, w, f); ckm(a, x, std::string(key) + "-target-unchanged"); ckm(b, y, std::string(key) + "-operand-unchanged"); };
  const unsigned im = r == r2 && c == c2 ? 0 : IM, sq = r == c ? 0 : NSQ;
  exs("plus", im, [&] { eatm(a + b); }); exs("minus", im, [&] { eatm(b - a); }); exs("minus-expr", im, [&] { eatm((a + a) - b * 2); });
  exs("plus-transpose", r == c2 && c == r2 ? 0 : IM, [&] { eatm(a + cml::transpose(b)); });
  exs("hadamard", im, [&] { eatm(cml::hadamard(a, b)); });
  prod(exs, a, b, c == r2 ? 0 : IINN);
  exs("compare", 0, [&] { bool e = r == r2 && c == c2 && std::equal(x.a.begin(), x.a.end(), y.a.begin()); mon::check((a == b) == e && (a != b) == !e, "equal-vs-elements"); });
  auto inpl = [&](const char* key, unsigned w, auto f) { H t(x); unsigned th = ex(key, w, [&] { f(t.m); }); if(th) ckm(t.m, x, std::string(key) + "-target-unchanged"); ckm(b, y, std::string(key) + "-operand-unchanged"); };
  const bool rv = g.coin();
  inpl("plus-assign", im, [&](M& t) { if(rv) std::move(t) += b; else t += b; }); inpl("minus-assign", im, [&](M& t) { if(rv) std::move(t) -= b; else t -= b; });
  inpl("plus-assign-expr", im, [&](M& t) { t += b + b; });
  // a run-time sized external matrix takes on the new shape if its buffer has as many elements
  constexpr bool rs = H::ext && H::R_ < 0, tk = H::dyn || rs; auto asn = [&](int p, int q) { return H::dyn || (r == p && c == q) || (rs && r * c == p * q) ? 0 : rs ? IM | MS : unsigned(IM); };
  const unsigned as = asn(r2, c2);
  inpl("assign", as, [&](M& t) { if(rv) std::move(t) = b; else t = b; if(tk) mon::check(t.rows() == r2 && t.cols() == c2, "assign-resizes"); });
  inpl("assign-expr", as, [&](M& t) { if(rv) std::move(t) = b + b; else t = b + b; if(tk) mon::check(t.rows() == r2 && t.cols() == c2, "assign-resizes"); });
  inpl("assign-transpose", asn(c2, r2), [&](M& t) { t = cml::transpose(b); });
  inpl("assign-list6", r * c == 6 ? 0 : IM, [&](M& t) { if(rv) std::move(t) = {1, 2, 3, 4, 5, 6}; else t = {1, 2, 3, 4, 5, 6}; });
  inpl("assign-list4", r * c == 4 ? 0 : IM, [&](M& t) { if(rv) std::move(t) = {1, 2, 3, 4}; else t = {1, 2, 3, 4}; });
  if constexpr(H::R_ < 0) {
    inpl("assign-array", r * c == 6 ? 0 : IM, [&](M& t) { int q[6] = {1, 2, 3, 4, 5, 6}; t = q; });
    inpl("assign-array2d", asn(2, 3), [&](M& t) { int q[2][3] = {{1, 2, 3}, {4, 5, 6}}; t = q; if(tk) mon::check(t.rows() == 2 && t.cols() == 3, "assign-resizes"); });
    exs("trace", sq, [&] { sink = cml::trace(a); }); exs("trace-member", sq, [&] { sink = a.trace(); });
    if(std::is_floating_point<A>::value || r <= 4 || r != c) {  // (whole numbers overflow beyond)
      exs("determinant", sq, [&] { sink = cml::determinant(a); }); exs("determinant-member", sq, [&] { sink = a.determinant(); });
    exs("determinant-expr", sq, [&] { sink = cml::determinant(a + a); }); }
    if constexpr(std::is_floating_point<A>::value) {
      exs("inverse", sq, [&] { eatm(cml::inverse(a)); });
      inpl("inverse-in-place", sq, [&](M& t) { if(rv) std::move(t).inverse(); else t.inverse(); });
      exs("lu", sq, [&] { eatm(cml::lu(a)); }); exs("lu-pivot", sq, [&] { eatm(cml::lu_pivot(a).lu); });
    }
    const int n = g.i(1, 5); auto z = ev_<A>(g, n); VH<vector<A, dynamic<>>> v(z);
    if constexpr(std::is_floating_point<A>::value) if(r == c) {
      auto f = cml::lu(a); auto p = cml::lu_pivot(a);
      const unsigned e = n == r ? 0 : IINN;
      exs("lu-solve", e, [&] { eat(cml::lu_solve(f, v.v)); }); exs("lu-solve-pivot", e, [&] { eat(cml::lu_solve(p, v.v)); });
      VH<vector<A, external<>>> s(ev_<A>(g, g.coin() ? r : g.i(1, 5))); const int sn = s.v.size(); auto s0 = std::vector<A>(s.b.get(), s.b.get() + sn);
      if(ex("lu-solve-out", e || sn != r ? IINN | ANYV : 0, [&] { cml::lu_solve(p, s.v, v.v); })) ckv(s.v, s0, "lu-solve-out-target-unchanged");
      ckv(v.v, z, "lu-solve-operand-unchanged");
    }
    exs("times-vector", c == n ? 0 : IINN, [&] { eat(a * v.v); }); exs("vector-times", r == n ? 0 : IINN, [&] { eat(v.v * a); });
    exs("times-vector-expr", c == n ? 0 : IINN, [&] { eat((a + a) * (v.v * 2)); });
    const int i = g.i(0, r - 1), j = g.i(0, c - 1);
    inpl("set-row", c == n ? 0 : ICOL, [&](M& t) { if(rv) std::move(t).set_row(i, v.v); else t.set_row(i, v.v); });
    inpl("set-col", r == n ? 0 : IROW, [&](M& t) { if(rv) std::move(t).set_col(j, v.v); else t.set_col(j, v.v); });
    inpl("set-row-expr", c == n ? 0 : ICOL, [&](M& t) { t.set_row(i, v.v + v.v); });
    inpl("set-col-expr", r == n ? 0 : IROW, [&](M& t) { t.set_col(j, 2 * v.v); });
    exs("row-plus-vector", c == n ? 0 : IV, [&] { eat(cml::row(a, i) + v.v); }); exs("col-dot-vector", r == n ? 0 : IV, [&] { sink = cml::dot(cml::col(a, j), v.v); });
    inpl("row-assign-to-external", 0, [&](M& t) { VH<vector<A, external<>>> s(ev_<A>(g, n)); auto s0 = std::vector<A>(s.b.get(), s.b.get() + n); if(ex("external=row", c == n ? 0 : IV, [&] { s.v = cml::row(t, i); })) ckv(s.v, s0, "external=row-unchanged"); });
  } else {
    const int n = g.i(1, 5); auto z = ev_<A>(g, n); VH<vector<A, dynamic<>>> v(z);
    exs("times-vector", c == n ? 0 : IINN, [&] { eat(a * v.v); }); exs("vector-times", r == n ? 0 : IINN, [&] { eat(v.v * a); });
    inpl("set-row", c == n ? 0 : ICOL, [&](M& t) { t.set_row(0, v.v); }); inpl("set-col", r == n ? 0 : IROW, [&](M& t) { t.set_col(0, v.v); });
  }
  if constexpr(!H::ext) ex("construct", as, [&] { mconstruct<M>(b); });
  if(mon::noting()) mon::note(fmt("%s %dx%d with %s %dx%d", H::tag(), r, c, K::tag(), r2, c2));
}
template<class E, class B, class L> void reshape_ext(Rng& g) {
  const int r = g.i(1, 5), c = g.i(1, 5); auto x = em<E>(g, r, c); MH<matrix<E, external<>, B, L>> h(x);
  const int r2 = g.i(0, 6), c2 = g.i(0, 6);
  mon::mix(((r * 8 + c) * 8 + r2) * 8 + c2);
  E* d = h.m.data();
  if(ex("external-reshape", r * c == r2 * c2 ? 0 : MS, [&] { h.m.resize(r2, c2); })) ckm(h.m, x, "external-reshape-unchanged");
  else { mon::check(h.m.rows() == r2 && h.m.cols() == c2 && h.m.data() == d, "external-reshape-size"); eatm(h.m); }
  if(ex("external-negative", INV | MS, [&] { if(g.coin()) h.m.resize(-r, c); else h.m.resize(r, -c); })) eatm(h.m);
}
template<class V> void dyn_size(Rng& g) {
  typedef typename VH<V>::elem E; auto x = ev_<E>(g, g.i(0, 5)); VH<V> h(x); const int n = g.i(-4, 6); mon::mix(n + 8);
  if(ex("vector-resize", n < 0 ? INV : 0, [&] { h.v.resize(n); })) ckv(h.v, x, "vector-resize-unchanged"); else mon::check(h.v.size() == n, "vector-resize-size");
  ex("vector-construct-size", n < 0 ? INV : 0, [&] { V v(n); mon::check(v.size() == n, "vector-construct-size"); });
}
template<class M> void dyn_msize(Rng& g) {
  typedef typename MH<M>::elem E; auto x = em<E>(g, g.i(1, 5), g.i(1, 5)); MH<M> h(x); const int r = g.i(-4, 6), c = g.i(-4, 6); mon::mix(r * 16 + c + 200);
  if(ex("matrix-resize", r < 0 || c < 0 ? INV : 0, [&] { h.m.resize(r, c); })) ckm(h.m, x, "matrix-resize-unchanged"); else mon::check(h.m.rows() == r && h.m.cols() == c, "matrix-resize-size");
  ex("matrix-construct-size", r < 0 || c < 0 ? INV : 0, [&] { M v(r, c); mon::check(v.rows() == r && v.cols() == c, "matrix-construct-size"); });
}

/* ---------------- matrix functions of fixed dimension ---------------- */
template<class M, class V, class Q> void mathlib(Rng& g) {
  typedef MH<M> H; typedef VH<V> K; typedef typename H::elem E; typedef typename K::elem F; typedef typename H::basis B;
  const bool row = std::is_same<B, row_basis>::value;
  int r = g.i(0, 5), c = g.i(0, 5); if(g.coin(1, 3)) { r = g.i(3, 5); c = g.i(3, 5); } if(g.coin(1, 8)) r = c = 4;
  int n = g.coin() ? g.i(2, 4) : g.i(0, 5), n2 = g.coin() ? n : g.i(0, 5), n3 = g.coin() ? n : g.i(0, 5);
  if(K::N_ > 0) n = n2 = n3 = K::N_;
  auto x = em<E>(g, r, c); H h(x); const M& cm = h.m;
  std::vector<F> y, y2, y3; for(int i = 0; i < n; ++i) y.push_back(F(g.r(0.5, 3))); for(int i = 0; i < n2; ++i) y2.push_back(F(g.r(-3, -0.5))); for(int i = 0; i < n3; ++i) y3.push_back(F(i % 2 ? 1.5 : -0.7));
  K k(y), k2(y2), k3(y3); const V &v = k.v, &w = k2.v, &u = k3.v;
  mon::mix((((r * 8 + c) * 8 + n) * 8 + n2) * 8 + n3); for(auto e : y) mon::mixd(e);
  auto need = [&](int a, int b) { return r >= a && c >= b ? 0u : MINM; };
  const unsigned l2 = need(2, 2), l3 = need(3, 3), a2 = row ? need(3, 2) : need(2, 3), a3 = row ? need(4, 3) : need(3, 4), p4 = need(4, 4);
  const unsigned v2 = n == 2 ? 0 : VS, v3 = n == 3 ? 0 : VS, v4 = n == 4 ? 0 : VS;
  auto op = [&](const char* key, unsigned want, auto f) {  // f may write its own copy of the matrix
    H t(x); ex(key, want, [&] { f(t.m); });
    ckv(v, y, std::string(key) + "-operand-unchanged"); ckv(w, y2, std::string(key) + "-operand-unchanged"); ckv(u, y3, std::string(key) + "-operand-unchanged");
  };
  auto get = [&](const char* key, unsigned want, auto f) { ex(key, want, f); ckm(cm, x, std::string(key) + "-operand-unchanged"); ckv(v, y, std::string(key) + "-operand-unchanged"); };
  const E a(0.5), b(0.75), d(1.25);
  op("scale-2D", a2, [&](M& m) { cml::matrix_scale_2D(m, a, b); }); op("scale-2D-v", a2 | v2, [&](M& m) { cml::matrix_scale_2D(m, v); });
  op("uniform-scale-2D", a2, [&](M& m) { cml::matrix_uniform_scale_2D(m, a); }); op("inverse-scale-2D", a2, [&](M& m) { cml::matrix_inverse_scale_2D(m, a, b); });
  op("inverse-scale-2D-v", a2 | v2, [&](M& m) { cml::matrix_inverse_scale_2D(m, v); });
  op("scale", a3, [&](M& m) { cml::matrix_scale(m, a, b, d); }); op("scale-v", a3 | v3, [&](M& m) { cml::matrix_scale(m, v); });
  op("uniform-scale", a3, [&](M& m) { cml::matrix_uniform_scale(m, a); }); op("inverse-scale", a3, [&](M& m) { cml::matrix_inverse_scale(m, a, b, d); });
  op("inverse-scale-v", a3 | v3, [&](M& m) { cml::matrix_inverse_scale(m, v); });
  op("translation-2D", a2, [&](M& m) { cml::matrix_translation_2D(m, a, b); }); op("translation-2D-v", a2 | v2, [&](M& m) { cml::matrix_translation_2D(m, v); });
  op("set-translation-2D", a2, [&](M& m) { cml::matrix_set_translation_2D(m, a, b); }); op("set-translation-2D-v", a2 | v2, [&](M& m) { cml::matrix_set_translation_2D(m, v); });
  op("translation", a3, [&](M& m) { cml::matrix_translation(m, a, b, d); }); op("translation-xy", a3, [&](M& m) { cml::matrix_translation(m, a, b); });
  const unsigned v23 = n == 2 || n == 3 ? 0 : VS | VR;
  op("set-translation", a3, [&](M& m) { cml::matrix_set_translation(m, a, b, d); }); op("set-translation-xy", a3, [&](M& m) { cml::matrix_set_translation(m, a, b); });
  op("set-translation-v", a3 | v23, [&](M& m) { cml::matrix_set_translation(m, v); });
  if(n != 2) op("translation-v", a3 | v23, [&](M& m) { cml::matrix_translation(m, v); });
  get("get-translation-2D", a2, [&] { eat(cml::matrix_get_translation_2D(cm)); }); get("get-translation-2D-e", a2, [&] { E p, q; cml::matrix_get_translation_2D(cm, p, q); sink = p + q; });
  get("get-translation", a3, [&] { eat(cml::matrix_get_translation(cm)); }); get("get-translation-e", a3, [&] { E p, q, s; cml::matrix_get_translation(cm, p, q, s); sink = p + q + s; });
  op("invert-RT-only-2D", a2, [&](M& m) { cml::matrix_invert_RT_only_2D(m); }); op("invert-RT-only", a3, [&](M& m) { cml::matrix_invert_RT_only(m); });
  { const int mm = row ? r : c, nn = row ? c : r; if(r && c) op("invert-RT", mm == nn || mm == nn + 1 ? 0 : AFF, [&](M& m) { cml::matrix_invert_RT(m); }); }
  get("trace-2x2", l2, [&] { sink = cml::trace_2x2(cm); }); get("trace-3x3", l3, [&] { sink = cml::trace_3x3(cm); });
  op("skew-v", l3 | v3, [&](M& m) { cml::matrix_skew_symmetric(m, v); }); op("skew-s", l2, [&](M& m) { cml::matrix_skew_symmetric_2D(m, a); });
  const int i2 = g.i(0, 1), i3 = g.i(0, 2);
  op("set-basis-2D", l2 | v2, [&](M& m) { cml::matrix_set_basis_vector_2D(m, i2, v); }); op("set-t-basis-2D", l2 | v2, [&](M& m) { cml::matrix_set_transposed_basis_vector_2D(m, i2, v); });
  op("set-x-basis-2D", l2 | v2, [&](M& m) { cml::matrix_set_x_basis_vector_2D(m, v); }); op("set-t-y-basis-2D", l2 | v2, [&](M& m) { cml::matrix_set_transposed_y_basis_vector_2D(m, v); });
  const unsigned b2 = n == 2 && n2 == 2 ? 0 : VS, b3 = n == 3 && n2 == 3 && n3 == 3 ? 0 : VS;
  op("set-bases-2D", l2 | b2, [&](M& m) { cml::matrix_set_basis_vectors_2D(m, v, w); }); op("set-t-bases-2D", l2 | b2, [&](M& m) { cml::matrix_set_transposed_basis_vectors_2D(m, v, w); });
  op("set-basis", l3 | v3, [&](M& m) { cml::matrix_set_basis_vector(m, i3, v); }); op("set-t-basis", l3 | v3, [&](M& m) { cml::matrix_set_transposed_basis_vector(m, i3, v); });
  op("set-z-basis", l3 | v3, [&](M& m) { cml::matrix_set_z_basis_vector(m, v); }); op("set-t-x-basis", l3 | v3, [&](M& m) { cml::matrix_set_transposed_x_basis_vector(m, v); });
  op("set-bases", l3 | b3, [&](M& m) { cml::matrix_set_basis_vectors(m, v, w, u); }); op("set-t-bases", l3 | b3, [&](M& m) { cml::matrix_set_transposed_basis_vectors(m, v, w, u); });
  get("get-basis-2D", l2, [&] { eat(cml::matrix_get_basis_vector_2D(cm, i2)); }); get("get-t-basis-2D", l2, [&] { eat(cml::matrix_get_transposed_basis_vector_2D(cm, i2)); });
  get("get-basis", l3, [&] { eat(cml::matrix_get_basis_vector(cm, i3)); }); get("get-t-basis", l3, [&] { eat(cml::matrix_get_transposed_basis_vector(cm, i3)); });
  { VH<vector<E, external<>>> o1(ev_<E>(g, g.coin(2, 3) ? 3 : g.i(0, 5))), o2(ev_<E>(g, 3)), o3(ev_<E>(g, 3)); const unsigned e = o1.v.size() == 3 ? 0 : VS | IV;
    get("get-bases", l3 | e, [&] { cml::matrix_get_basis_vectors(cm, o1.v, o2.v, o3.v); }); get("get-t-bases", l3 | e, [&] { cml::matrix_get_transposed_basis_vectors(cm, o2.v, o3.v, o1.v); });
    VH<vector<E, external<>>> o4(ev_<E>(g, g.coin(2, 3) ? 2 : g.i(0, 5))), o5(ev_<E>(g, 2)); const unsigned e2 = o4.v.size() == 2 ? 0 : VS | IV;
    get("get-bases-2D", l2 | e2, [&] { cml::matrix_get_basis_vectors_2D(cm, o4.v, o5.v); }); get("get-t-bases-2D", l2 | e2, [&] { cml::matrix_get_transposed_basis_vectors_2D(cm, o5.v, o4.v); }); }
  // rotations
  op("rotation-2D", l2, [&](M& m) { cml::matrix_rotation_2D(m, a); }); op("rotation-align-2D", l2 | (n == 2 ? 0 : ANYV), [&](M& m) { cml::matrix_rotation_align_2D(m, v); });
  op("rotation-axis", l3, [&](M& m) { cml::matrix_rotation_world_axis(m, i3, a); }); op("rotation-x", l3, [&](M& m) { cml::matrix_rotation_world_x(m, a); });
  op("rotation-y", l3, [&](M& m) { cml::matrix_rotation_world_y(m, a); }); op("rotation-z", l3, [&](M& m) { cml::matrix_rotation_world_z(m, a); });
  { int ax = g.i(-3, 5); op("rotation-axis-index", l3 | (ax >= 0 && ax <= 2 ? 0 : INV), [&](M& m) { cml::matrix_rotation_world_axis(m, ax, a); });
    auto od = cml::euler_order(g.i(0, 11)); op("euler-derivative", l3 | (ax >= 0 && ax <= 2 && !(od & 1) ? 0 : INV), [&](M& m) { cml::matrix_rotation_euler_derivatives(m, ax, a, b, d, od); });
    op("euler-derivative-v", l3 | v3 | (ax >= 0 && ax <= 2 && !(od & 1) ? 0 : INV), [&](M& m) { cml::matrix_rotation_euler_derivatives(m, ax, v, od); });
    op("rotation-euler", l3, [&](M& m) { cml::matrix_rotation_euler(m, a, b, d, od); }); op("rotation-euler-v", l3 | v3, [&](M& m) { cml::matrix_rotation_euler(m, v, od); });
    get("to-euler", l3, [&] { E p, q, s; cml::matrix_to_euler(cm, p, q, s, od); sink = p; }); get("to-euler-v", l3, [&] { eat(cml::matrix_to_euler(cm, od)); });
    get("to-euler-dyn", l3, [&] { eat(cml::matrix_to_euler<vector<E, dynamic<>>>(cm, od)); }); }
  op("rotation-axis-angle", l3 | v3, [&](M& m) { cml::matrix_rotation_axis_angle(m, v, a); });
  Q q(E(0.5), E(0.5), E(0.5), E(0.5)); op("rotation-quaternion", l3, [&](M& m) { cml::matrix_rotation_quaternion(m, q); });
  const unsigned al = n == 3 && n2 == 3 ? 0 : ANYV, al3 = n == 3 && n2 == 3 && n3 == 3 ? 0 : ANYV;
  op("rotation-align", l3 | al, [&](M& m) { cml::matrix_rotation_align(m, v, w); }); op("rotation-aim-at", l3 | al3, [&](M& m) { cml::matrix_rotation_aim_at(m, v, w, u); });
  get("to-axis-angle", l3, [&] { E p; VH<vector<E, dynamic<>>> o(ev_<E>(g, 2)); cml::matrix_to_axis_angle(cm, o.v, p); sink = p; }); get("to-axis-angle-t", l3, [&] { auto t = cml::matrix_to_axis_angle(cm); eat(std::get<0>(t)); });
  { VH<vector<E, external<>>> o(ev_<E>(g, g.i(2, 4))); get("to-axis-angle-out", l3 | (o.v.size() == 3 ? 0 : VS), [&] { E p; cml::matrix_to_axis_angle(cm, o.v, p); sink = p; }); }
  // transforms
  if(a3 || !p4) { op("look-at", (p4 ? p4 : 0) | al3, [&](M& m) { cml::matrix_look_at_LH(m, v, w, u); }); op("look-at-RH", p4 | al3, [&](M& m) { cml::matrix_look_at_RH(m, v, w, u); }); }
  else { H t(x); opt("look-at-affine", MINM | ANYV, [&] { cml::matrix_look_at_LH(t.m, v, w, u); }); }
  { int r2 = g.i(0, 4), c2 = g.i(0, 4); if(g.coin()) r2 = c2 = 3; MH<matrix<E, dynamic<>, B, typename H::layout>> l(em<E>(g, r2, c2)); const unsigned ll = r2 >= 3 && c2 >= 3 ? 0 : MINM;
    op("linear-transform", l3 | ll, [&](M& m) { cml::matrix_linear_transform(m, l.m); }); op("affine-transform", a3 | l3 | ll | v23, [&](M& m) { cml::matrix_affine_transform(m, l.m, v); }); }
  { const int nn = n2; op("affine-axis-angle", a3 | v3 | (nn == 2 || nn == 3 ? 0 : VS | VR), [&](M& m) { cml::matrix_affine_transform(m, v, a, w); }); if(n) op("affine-axis-angle-n", a3 | v3 | (nn == 2 || nn == 3 ? 0 : VS | VR), [&](M& m) { cml::matrix_affine_transform(m, v, a, w, true); }); }
  // projections
  const auto hd = g.coin() ? cml::left_handed : cml::right_handed; const auto zc = g.coin() ? cml::z_clip_zero : cml::z_clip_neg_one; const E nr(1), fr(9), f2(2);
  op("orthographic", p4, [&](M& m) { cml::matrix_orthographic(m, -nr, f2, -nr, f2, nr, fr, hd, zc); }); op("orthographic-wh", p4, [&](M& m) { cml::matrix_orthographic(m, f2, f2, nr, fr, hd, zc); });
  op("perspective", p4, [&](M& m) { cml::matrix_perspective(m, -nr, f2, -nr, f2, nr, fr, hd, zc); }); op("perspective-wh", p4, [&](M& m) { cml::matrix_perspective(m, f2, f2, nr, fr, hd, zc); });
  op("perspective-xfov", p4, [&](M& m) { cml::matrix_perspective_xfov(m, a, b, nr, fr, hd, zc); }); op("perspective-yfov", p4, [&](M& m) { cml::matrix_perspective_yfov(m, a, b, nr, fr, hd, zc); });
  op("orthographic-LH", p4, [&](M& m) { cml::matrix_orthographic_LH(m, -nr, f2, -nr, f2, nr, fr, zc); }); op("perspective-RH", p4, [&](M& m) { cml::matrix_perspective_RH(m, f2, f2, nr, fr, zc); });
  get("frustum", p4, [&] { E p[6][4]; cml::extract_frustum_planes(cm, p, zc); sink = p[0][0]; }); get("near-plane", p4, [&] { E p[4]; cml::extract_near_frustum_plane(cm, p, zc); sink = p[0]; });
  { int r2 = g.i(1, 5), c2 = g.i(1, 5); if(g.coin(2, 3)) r2 = c2 = 4; MH<matrix<E, dynamic<>, B, typename H::layout>> l(em<E>(g, r2, c2));
    get("frustum-mv-p", (r >= 4 && c >= 4 && r2 >= 4 && c2 >= 4 ? 0 : MINM) | (r == c && r2 == c2 ? 0 : NSQ) | (r == r2 && c == c2 ? 0 : IINN) | (r && c ? 0 : ANYM), [&] { E p[6][4]; cml::extract_frustum_planes(cm, l.m, p, zc); sink = p[0][0]; }); }
  // vector transforms
  get("transform-vector-2D", l2 | v2, [&] { eat(cml::transform_vector_2D(cm, v)); }); get("transform-point-2D", a2 | v2, [&] { eat(cml::transform_point_2D(cm, v)); });
  get("transform-vector", l3 | v3, [&] { eat(cml::transform_vector(cm, v)); }); get("transform-point", a3 | v3, [&] { eat(cml::transform_point(cm, v)); });
  const unsigned m4 = r == 4 && c == 4 ? 0 : MINM | MS;
  get("transform-vector-4D", m4 | v4, [&] { eat(cml::transform_vector_4D(cm, v)); }); get("transform-point-4D", m4 | v3, [&] { eat(cml::transform_point_4D(cm, v)); });
  if(mon::noting()) mon::note(fmt("matrix %s %s %dx%d vectors %s[%d %d %d]", H::tag(), bname<B>(), r, c, K::tag(), n, n2, n3));
}
/* ---------------- quaternions and coordinate conversion ---------------- */
template<class Q, class V, class M> void quats(Rng& g) {
  typedef VH<V> K; typedef typename K::elem E; typedef typename MH<M>::elem ME;
  const int n = dim(g, K::N_, 0, 5), n2 = K::N_ > 0 || g.coin() ? n : g.i(0, 5), n3 = K::N_ > 0 || g.coin() ? n : g.i(0, 5);
  std::vector<E> y, y2, y3; for(int i = 0; i < n; ++i) y.push_back(E(g.r(0.5, 3))); for(int i = 0; i < n2; ++i) y2.push_back(E(g.r(-3, -0.5))); for(int i = 0; i < n3; ++i) y3.push_back(E(i % 2 ? 1.5 : -0.7));
  K k(y), k2(y2), k3(y3); const V &v = k.v, &w = k2.v, &u = k3.v; mon::mix((n * 8 + n2) * 8 + n3); for(auto e : y) mon::mixd(e);
  Q q0(0.5, 0.25, 0.125, 1);
  auto op = [&](const char* key, unsigned want, auto f) { Q q(q0); unsigned t = ex(key, want, [&] { f(q); }); (void) t; ckv(v, y, std::string(key) + "-operand-unchanged"); return q; };
  auto opu = [&](const char* key, unsigned want, auto f) { Q q = op(key, want, f); if(want) mon::check(q == q0, std::string(key) + "-target-unchanged"); };
  const unsigned v3 = n == 3 ? 0 : VS, a2 = n == 3 && n2 == 3 ? 0 : ANYV, a3 = n == 3 && n2 == 3 && n3 == 3 ? 0 : ANYV; typedef typename Q::value_type T;
  const unsigned vq = n == 3 ? 0 : ANYV;
  if constexpr(std::is_same<typename Q::order_type, cml::imaginary_first>::value) { opu("quaternion-set", vq, [&](Q& q) { q.set(v, T(2)); }); opu("quaternion-construct", vq, [&](Q& q) { Q p(v, T(2)); q = p; }); }
  else { opu("quaternion-set", vq, [&](Q& q) { q.set(T(2), v); }); opu("quaternion-construct", vq, [&](Q& q) { Q p(T(2), v); q = p; }); }
  opu("quaternion-list", QS | IV, [&](Q& q) { if(g.coin()) q = {T(1), T(2), T(3)}; else q = {T(1), T(2), T(3), T(4), T(5)}; }); opu("quaternion-list4", 0, [&](Q& q) { q = {T(1), T(2), T(3), T(4)}; });
  opu("quaternion-axis-angle", v3, [&](Q& q) { cml::quaternion_rotation_axis_angle(q, v, T(1)); }); opu("quaternion-euler", v3, [&](Q& q) { cml::quaternion_rotation_euler(q, v, cml::euler_order(g.i(0, 11))); });
  op("quaternion-align", a2, [&](Q& q) { cml::quaternion_rotation_align(q, v, w); }); op("quaternion-aim-at", a3, [&](Q& q) { cml::quaternion_rotation_aim_at(q, v, w, u); });
  { int ax = g.i(-3, 5); opu("quaternion-world-axis", ax >= 0 && ax <= 2 ? 0 : INV, [&](Q& q) { cml::quaternion_rotation_world_axis(q, ax, T(1)); }); ex("quaternion-basis-index", ax >= 0 && ax <= 2 ? 0 : INV, [&] { eat(cml::quaternion_get_basis_vector(q0, ax)); });
    // coordinate conversion: output and input vectors
    VH<vector<E, external<>>> o(ev_<E>(g, g.i(0, 5))); const int on = o.v.size(); auto o0 = std::vector<E>(o.b.get(), o.b.get() + on); const unsigned bad = ax >= 0 && ax <= 2 ? 0 : INV; const E e1(1), e2(0.5), e3(0.25); E p, r, s; const auto lt = g.coin() ? cml::latitude : cml::colatitude;
    auto out = [&](const char* key, unsigned want, auto f) { if(ex(key, want, [&] { f(o.v); })) ckv(o.v, o0, std::string(key) + "-target-unchanged"); else for(int i = 0; i < on; ++i) o.v[i] = o0[i]; };
    const unsigned o2 = on == 2 ? 0 : VS, o3 = on == 3 ? 0 : VS, v2 = n == 2 ? 0 : VS;
    out("polar-to", o2, [&](auto& x) { cml::polar_to_cartesian(x, e1, e2); }); out("polar-to-cml1", o2, [&](auto& x) { cml::polar_to_cartesian(e1, e2, x); });
    out("cylindrical-to", o3 | bad, [&](auto& x) { cml::cylindrical_to_cartesian(x, ax, e1, e2, e3); }); out("cylindrical-to-cml1", o3 | bad, [&](auto& x) { cml::cylindrical_to_cartesian(e1, e2, e3, ax, x); });
    out("spherical-to", o3 | bad, [&](auto& x) { cml::spherical_to_cartesian(x, ax, lt, e1, e2, e3); }); out("spherical-to-cml1", o3 | bad, [&](auto& x) { cml::spherical_to_cartesian(e1, e2, e3, ax, lt, x); });
    ex("polar-from", v2, [&] { cml::cartesian_to_polar(v, p, r); }); ex("polar-from-tol", v2, [&] { cml::cartesian_to_polar(v, p, r, e3); });
    ex("cylindrical-from", v3 | bad, [&] { cml::cartesian_to_cylindrical(v, ax, p, r, s); }); ex("cylindrical-from-cml1", v3 | bad, [&] { cml::cartesian_to_cylindrical(v, p, r, s, ax); });
    ex("spherical-from", v3 | bad, [&] { cml::cartesian_to_spherical(v, ax, lt, p, r, s); }); ex("spherical-from-cml1", v3 | bad, [&] { cml::cartesian_to_spherical(v, p, r, s, ax, lt); });
    ckv(v, y, "conversion-operand-unchanged");
    // random directions
    if(n) { auto d = y; E len = 0; for(auto e : d) len += e * e; len = std::sqrt(len); for(auto& e : d) e /= len; K kd(d); const E ang = E(g.r(-1, 2.5)); const bool okA = ang > 0 && ang <= cml::constants<E>::pi_over_2();
      if(on && n > 1) out("random-cone", (on == n ? 0 : IV) | (okA ? 0 : INV), [&](auto& x) { cml::random_unit(x, kd.v, ang); });
      if(n > 1) { VH<vector<E, dynamic<>>> dn(o0); ex("random-cone-resize", okA ? 0 : INV, [&] { cml::random_unit(dn.v, kd.v, ang); mon::check(dn.v.size() == n, "random-cone-resizes"); }); } }
    out("random-unit", on ? 0 : MINV, [&](auto& x) { cml::random_unit(x); });
    // orthonormal bases with outputs of the wrong size
    VH<vector<E, external<>>> p3(ev_<E>(g, 3)), q3(ev_<E>(g, 3)); ex("orthonormal-basis", a2 | (on == 3 ? 0 : ANYV), [&] { cml::orthonormal_basis(v, w, o.v, p3.v, q3.v); });
    VH<vector<E, external<>>> p2(ev_<E>(g, 2)); ex("orthonormal-basis-2D", (n == 2 ? 0 : ANYV) | (on == 2 ? 0 : ANYV), [&] { cml::orthonormal_basis_2D(v, o.v, p2.v); });
    ex("quaternion-to-axis-angle-out", on == 3 ? 0 : VS, [&] { T a; cml::quaternion_to_axis_angle(q0, o.v, a); });
    ex("quaternion-get-bases", on == 3 ? 0 : VS | IV, [&] { cml::quaternion_get_basis_vectors(q0, p3.v, o.v, q3.v); });
    ex("quaternion-to-euler-dyn", 0, [&] { auto t = cml::quaternion_to_euler<vector<T, dynamic<>>>(q0, cml::euler_order_xyz); mon::check(t.size() == 3, "euler-dyn-size"); });
    ex("imaginary-plus-vector", n == 3 ? 0 : IV, [&] { eat(q0.imaginary() + v); });
  }
  { int r = g.i(0, 4), c = g.i(0, 4); auto x = em<ME>(g, r, c); MH<M> m(x); opu("quaternion-matrix", r >= 3 && c >= 3 ? 0 : MINM, [&](Q& q) { cml::quaternion_rotation_matrix(q, m.m); }); ckm(m.m, x, "quaternion-matrix-operand"); }
  if(mon::noting()) mon::note(fmt("quaternion with %s[%d %d %d]", K::tag(), n, n2, n3));
}
typedef vector<double, dynamic<>> DD; typedef vector<double, external<>> XD; typedef vector<float, dynamic<>> DF; typedef vector<float, external<>> XF; typedef vector<int, dynamic<>> DI; typedef vector<int, external<>> XI;
template<class E> using F2 = vector<E, fixed<2>>; template<class E> using F3 = vector<E, fixed<3>>; template<class E> using F4 = vector<E, fixed<4>>; template<class E> using X3 = vector<E, external<3>>; template<class E> using X2 = vector<E, external<2>>;
#define Q_(B, O) cml::quaternion<double, fixed<>, cml::B, cml::O>

int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("vec-dyn-dyn", 400, vec2<DD, DD>); mon::group("vec-dyn-ext", 400, vec2<DD, XD>); mon::group("vec-ext-dyn", 400, vec2<XD, DD>); mon::group("vec-ext-ext", 400, vec2<XD, XD>);
  mon::group("vec-dyn-f3", 200, vec2<DD, F3<double>>);  mon::group("vec-f3-dyn", 200, vec2<F3<double>, DD>);
#elif PART == 1
  mon::group("vec-f2-ext", 200, vec2<F2<double>, XD>); mon::group("vec-ext-f2", 200, vec2<XD, F2<double>>); mon::group("vec-f4-dyn", 200, vec2<F4<double>, DD>); mon::group("vec-x3-ext", 200, vec2<X3<double>, XD>); mon::group("vec-dynf-x3", 200, vec2<DF, X3<float>>);
  mon::group("vec-dynf-extd", 300, vec2<DF, XD>); mon::group("vec-extf-dynf", 300, vec2<XF, DF>);
  mon::group("resize-dd", 300, dyn_size<DD>); mon::group("resize-di", 300, dyn_size<DI>);
#elif PART == 2
  typedef matrix<double, dynamic<>> MD; typedef matrix<double, external<>> MX; typedef matrix<double, fixed<2, 3>> M23; typedef matrix<double, dynamic<>, col_basis, col_major> MDC;
  mon::group("mat-dyn-dyn", 400, mat2<MD, MD>); mon::group("mat-dyn-ext", 400, mat2<MD, MX>); mon::group("mat-ext-dyn", 400, mat2<MX, MD>); mon::group("mat-dyn-23", 200, mat2<MD, M23>);
#elif PART == 3
  typedef matrix<float, dynamic<>, row_basis, col_major> MD; typedef matrix<float, external<>, row_basis, col_major> MX; typedef matrix<float, external<3, 2>, row_basis, col_major> X32; typedef matrix<float, fixed<3, 3>, row_basis, col_major> F33;
  mon::group("mat-ext-ext", 400, mat2<MX, MX>); mon::group("mat-x32-ext", 300, mat2<X32, MX>); mon::group("mat-33-dyn", 300, mat2<F33, MD>); mon::group("mat-dyn-x32", 300, mat2<MD, X32>);
#elif PART == 4
  typedef matrix<double, dynamic<>> MD; typedef matrix<double, external<>, col_basis, col_major> MX; typedef matrix<int, dynamic<>, row_basis, col_major> ID; typedef matrix<int, external<>, row_basis, col_major> IX;
  mon::group("mat-mixed-layout", 300, mat2<MD, MX>); mon::group("mat-mixed-layout-2", 300, mat2<MX, MD>); mon::group("mat-int", 300, mat2<ID, IX>);
  mon::group("reshape-rr", 200, reshape_ext<double, row_basis, row_major>); mon::group("reshape-cc", 200, reshape_ext<float, col_basis, col_major>);
  mon::group("mresize-rm", 200, dyn_msize<matrix<double, dynamic<>>>); mon::group("mresize-cm", 200, dyn_msize<matrix<float, dynamic<>, row_basis, col_major>>);
#elif PART == 5
  mon::group("math-col-dyn", 900, mathlib<matrix<double, dynamic<>>, DD, Q_(real_first, positive_cross)>);
#elif PART == 6
  mon::group("math-row-dyn", 900, mathlib<matrix<double, dynamic<>, row_basis, row_major>, DD, Q_(imaginary_first, positive_cross)>);
#elif PART == 7
  mon::group("math-col-ext", 900, mathlib<matrix<double, external<>, col_basis, col_major>, XD, Q_(imaginary_first, negative_cross)>);
#elif PART == 8
  mon::group("math-row-ext", 900, mathlib<matrix<float, external<>, row_basis, col_major>, XF, cml::quaternion<float, fixed<>, cml::real_first, cml::negative_cross>>);
#elif PART == 9
  mon::group("quat-ip-dyn", 500, quats<Q_(imaginary_first, positive_cross), DD, matrix<double, dynamic<>>>); mon::group("quat-rn-ext", 500, quats<Q_(real_first, negative_cross), XD, matrix<double, external<>, row_basis, col_major>>);
#endif
  return mon::finish();
}
