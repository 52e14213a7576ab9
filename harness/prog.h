// One program of operations whose sizes fit, over every storage; every element of every result is recorded.  Used by C22 (compared between builds) and C23 (compared between threads).
#pragma once
#include "zoo.h"
#include <cml/cml.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
#include <cml/util/vector_hash.h>
#include <cml/quaternion.h>
#include <cml/mathlib/mathlib.h>
#include <random>
#include <sstream>
using namespace zoo; using cml::matrix_to_euler; using cml::quaternion_to_euler; using mon::Rng; using mon::fmt; using mon::ld;
typedef matrix<double, fixed<3, 3>> X33;
template<class T> char tc() { return std::is_integral<T>::value ? 'i' : sizeof(T) == 4 ? 'f' : sizeof(T) == 8 ? 'd' : 'l'; }
inline void begin(const char* key, char t, int n) { if(mon::worker()) { mon::tl->op(mon::hstr(key)); return; } mon::ev(n ? n : 1); if(FILE* f = mon::S().dump) fprintf(f, "%s %ld %s %c", mon::S().group, mon::S().caseno, key, t); }
inline void num(ld x) { if(mon::worker()) { mon::tl->rec.push_back(x); return; } if(FILE* f = mon::S().dump) fprintf(f, " %La", x); }
inline void end() { if(mon::worker()) return; if(FILE* f = mon::S().dump) fputc('\n', f); }
template<class T> void rs(const char* key, T x) { begin(key, tc<T>(), 1); num(ld(x)); end(); }
template<class X> void rv(const char* key, const X& x) { typedef std::decay_t<decltype(x[0])> T; begin(key, tc<T>(), x.size()); for(int i = 0; i < x.size(); ++i) num(ld(x[i])); end(); }
template<class X> void rm(const char* key, const X& x) { typedef std::decay_t<decltype(x(0, 0))> T; begin(key, tc<T>(), x.rows() * x.cols()); num(x.rows()); for(int i = 0; i < x.rows(); ++i) for(int j = 0; j < x.cols(); ++j) num(ld(x(i, j))); end(); }
template<class X> void rq(const char* key, const X& x) { typedef std::decay_t<decltype(x[0])> T; begin(key, tc<T>(), 4); for(int i = 0; i < 4; ++i) num(ld(x[i])); end(); }
template<class E> E el(Rng& g) { return std::is_integral<E>::value ? E(g.i(-9, 9)) : E(g.r(-4, 4)); }
template<class E> std::vector<E> seq(Rng& g, int n) { std::vector<E> x(n); for(E& e : x) { e = el<E>(g); mon::mixd(double(e)); } return x; }
template<class E> RM<E> arr(Rng& g, int r, int c) { RM<E> x(r, c); for(E& e : x.a) { e = el<E>(g); mon::mixd(double(e)); } return x; }
template<class E, class F> void left(int k, const std::vector<E>& x, F f) { const int n = int(x.size()); switch(k) { case 0: { VH<vector<E, dynamic<>>> h(x); return f(h.v); } case 1: { VH<vector<E, external<>>> h(x); return f(h.v); } default: if(n == 3) { VH<vector<E, external<3>>> h(x); return f(h.v); } { VH<vector<E, dynamic<>>> h(x); return f(h.v); } } }
template<class E, class F> void right(int k, const std::vector<E>& x, F f) { const int n = int(x.size()); switch(k) { case 0: { VH<vector<E, dynamic<>>> h(x); return f(h.v); } case 1: { VH<vector<const E, external<>>> h(x); return f(h.v); } case 2: { VH<vector<E, dynamic<>>> h(x); VH<vector<E, external<>>> z(std::vector<E>(n, E(1))); return f(h.v + z.v); } case 3: { RM<E> r(2, n); for(int i = 0; i < n; ++i) { r(0, i) = E(5); r(1, i) = x[i]; } MH<matrix<E, dynamic<>, col_basis, col_major>> m(r); return f(cml::row(m.m, 1)); } default: if(n == 3) { VH<vector<E, fixed<3>>> h(x); return f(h.v); } { VH<vector<E, dynamic<>>> h(x); return f(h.v); } } }
template<class E> void vectors(Rng& g) {
  const int n = g.coin() ? 3 : g.i(1, 6), ka = g.i(0, 2), kb = g.i(0, 4); const auto a = seq<E>(g, n), b = seq<E>(g, n); const E s = E(g.i(1, 5)); mon::mix(ka * 8 + kb); mon::bin(fmt("vector-forms/%d-%d", ka, kb)); if(mon::noting()) mon::note(fmt("forms %d %d ", ka, kb) + show(a) + show(b));
  left<E>(ka, a, [&](auto& u) { right<E>(kb, b, [&](const auto& v) {
    typedef std::decay_t<decltype(u)> U; typedef std::decay_t<decltype(v)> V; constexpr bool nu = !std::is_same<cml::size_tag_of_t<U>, cml::fixed_size_tag>::value, nv = !std::is_same<cml::size_tag_of_t<V>, cml::fixed_size_tag>::value;
    rv("sum", u + v); rv("difference", u - v); rv("scaled", s * u); rv("quotient", v / s); rv("hadamard", cml::hadamard(u, v)); rs("dot", cml::dot(u, v)); rm("outer", cml::outer(u, v)); rs("length2", cml::length_squared(v)); rs("less", int(u < v)); rs("equal", int(u == v)); rs("manhattan", cml::manhattan_distance(u, v)); { std::ostringstream o; o << v; rs("text", long(o.str().size())); } rv("hplane", cml::project_to_hplane(u, v)); rv("sub", cml::subvector(cml::hadamard(u, v) + u, n - 1));
    if(n == 3) { rv("cross", cml::cross(u, v)); rs("triple", cml::triple_product(u, v, u + v)); if constexpr(std::is_floating_point<E>::value) { rs("angle", cml::unsigned_angle(u, v)); rs("signed-angle", cml::signed_angle(u, v, vector<E, dynamic<>>(E(1), E(2), E(3)))); } }
    if constexpr(nu && nv) if(n == 2) { rs("perp-dot", cml::perp_dot(u, v)); rv("perp", cml::perp(v)); if constexpr(std::is_floating_point<E>::value) rs("angle-2D", cml::signed_angle_2D(u, v)); }
    vector<E, dynamic<>> d; d = u + v; rv("assign-dynamic", d); vector<E, dynamic<>> c(v); rv("construct", c); { VH<vector<E, external<>>> x(a); x.v = v; rv("assign-external", x.v); x.v = u - v; rv("assign-external-expression", x.v); } if(n == 3) { vector<E, fixed<3>> f; f = v; rv("assign-fixed", f); vector<E, fixed<3>> f2(u + v); rv("construct-fixed", f2); f += v; f -= u; rv("update-fixed", f); vector<E, dynamic<>> p(v, E(7)); rv("extended", p); vector<E, fixed<4>> q(v, E(8)); rv("extended-fixed", q); }
    u += v; rv("plus-assign", u); u -= cml::hadamard(v, v); rv("minus-assign", u); u *= s; u /= E(2); rv("scale-assign", u); u.minimize(v); rv("minimize", u); u.maximize(v + v); rv("maximize", u); u.fill(s); rv("fill", u); u.zero(); rv("zero", u); u.cardinal(n - 1); rv("cardinal", u); }); });
}
template<class E> void vectors_lists(Rng& g) {   // sources that carry their size at run time
  const auto a = seq<E>(g, 3); vector<E, dynamic<>> d; d = {a[0], a[1], a[2]}; rv("list-dynamic", d); d = {a[1], a[0]}; rv("list-resized", d); vector<E, fixed<3>> f; f = {a[2], a[1], a[0]}; rv("list-fixed", f); VH<vector<E, external<>>> x(a); x.v = {a[1], a[2], a[0]}; rv("list-external", x.v); vector<E, fixed<3>> f2(a.data()); rv("pointer-fixed", f2); vector<E, dynamic<>> d2(3, a.data()); rv("pointer-dynamic", d2); x.v.set(a[0], a[2], a[1]); rv("set-external", x.v); d2.set(a[0], a[1]); rv("set-dynamic", d2); vector<E, dynamic<>> d3(a.data(), 3); rv("pointer", d3); vector<E, dynamic<>> d4(d2, a[2], a[0], a[1]); rv("extended", d4); vector<E, fixed<4>> f5(d2, a[2], a[0]); rv("extended-fixed", f5); const E c[3] = {a[0], a[1], a[2]}; d2 = c; rv("c-array", d2); vector<E, fixed<3>> f6(c); rv("c-array-fixed", f6); d4.resize(3); rv("shrunk", d4); d4 = x.v; rv("from-external", d4); std::hash<vector<E, dynamic<>>> hd; rs("hash-equal", int(hd(d3) == hd(vector<E, dynamic<>>(a.data(), 3)))); vector<E, dynamic<>> mv(std::move(d3)); rv("moved", mv); d3 = std::move(mv); rv("moved-back", d3);
}
template<class E, class B, class L> void matrices(Rng& g) {
  const int R = g.i(1, 5), C = g.coin() ? R : g.i(1, 5), K = g.i(1, 5); const auto a = arr<E>(g, R, C), b = arr<E>(g, R, C), c = arr<E>(g, C, K); const E s = E(g.i(1, 5)); mon::mix(R * 36 + C * 6 + K); mon::bin(fmt("matrix-size/%dx%d", R, C)); if(mon::noting()) mon::note(show(a) + show(b));
  typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> X; MH<D> u(a); MH<X> v(b); MH<D> w(c); MH<X> y(c); const auto xr = seq<E>(g, C), yr = seq<E>(g, R); VH<vector<E, dynamic<>>> x(xr); VH<vector<const E, external<>>> xe(xr); VH<vector<E, dynamic<>>> z(yr);
  rm("sum", u.m + v.m); rm("difference", v.m - u.m); rm("scaled", s * v.m); rm("quotient", u.m / s); rm("hadamard", cml::hadamard(u.m, v.m)); rm("transpose", cml::transpose(u.m - v.m)); rm("product", u.m * w.m); rm("product-external", v.m * y.m); rm("product-transposed", cml::transpose(v.m) * u.m); rv("matrix-vector", u.m * x.v); rv("matrix-vector-external", v.m * xe.v); rv("vector-matrix", z.v * v.m); rs("equal", int(u.m == v.m)); rv("row", cml::row(u.m + v.m, R - 1)); rv("col", cml::col(v.m, C - 1)); rs("row-dot", cml::dot(cml::row(u.m, 0), x.v)); { std::ostringstream o; o << u.m; rs("text", long(o.str().size())); }
  { D d; d = u.m + v.m; rm("assign", d); D e(v.m); rm("construct", e); e += u.m; e -= v.m + u.m; e *= s; e /= E(2); rm("update", e); e = v.m; e.set_row(R - 1, x.v); e.set_col(0, z.v); rm("set-row-col", e); e.set_row(0, xe.v + x.v); rm("set-row-expression", e); D t(cml::transpose(e)); rm("construct-transposed", t); t.zero(); rm("zero", t); t = cml::outer(z.v, x.v); rm("outer", t); MH<X> ex(a); ex.m = v.m; rm("assign-external", ex.m); ex.m = u.m - v.m; rm("assign-external-expression", ex.m); ex.m += cml::outer(z.v, x.v); rm("add-outer", ex.m); e.resize(C, R); e.identity(); rm("resized-identity", e); std::vector<E> l(a.a); D p(R, C, l.data()); rm("pointer", p); p.set_basis_element(0, 0, s); rm("basis-element", p); }
  if(R == C) { if(std::is_floating_point<E>::value || R <= 4) rs("determinant", cml::determinant(u.m)); rs("trace", cml::trace(u.m + v.m)); D sq(u.m); sq.transpose(); rm("transpose-in-place", sq); sq.identity(); rm("identity", sq); if constexpr(std::is_floating_point<E>::value) { RM<E> q(a); for(int i = 0; i < R; ++i) q(i, i) += E(20); MH<D> h(q); MH<X> hx(q); rm("inverse", cml::inverse(h.m)); rs("determinant-dominant", cml::determinant(hx.m)); rm("lu", cml::lu(h.m)); auto lp = cml::lu_pivot(hx.m); rm("lu-pivot", lp.lu); rs("lu-sign", lp.sign); rv("lu-solve", cml::lu_solve(lp, z.v)); rv("lu-solve-plain", cml::lu_solve(cml::lu(h.m), z.v)); h.m.inverse(); rm("inverse-in-place", h.m); if(R == 4) { MH<matrix<E, fixed<4, 4>, B, L>> f(q); rm("inverse-fixed", cml::inverse(f.m)); rs("determinant-fixed", cml::determinant(f.m)); f.m = hx.m; rm("fixed-from-external", f.m); rm("fixed-times-dynamic", f.m * h.m); rv("fixed-times-vector", f.m * x.v); } } }
  if(R == 2 && C == 3) { MH<matrix<E, fixed<2, 3>, B, L>> f(a); f.m = u.m + v.m; rm("fixed-assign", f.m); f.m -= v.m; rm("fixed-update", f.m); rm("fixed-product", f.m * w.m); matrix<E, fixed<2, 3>, B, L> k(v.m); rm("fixed-construct", k); k = {E(1), E(2), E(3), E(4), E(5), E(6)}; rm("fixed-list", k); D d(2, 3, E(1), E(2), E(3), E(4), E(5), E(6)); rm("set", d); d = {E(6), E(5), E(4), E(3), E(2), E(1)}; rm("list", d); const E c2[2][3] = {{1, 2, 3}, {4, 5, 6}}; d = c2; rm("c-array", d); k = c2; rm("fixed-c-array", k); }
}
template<class E, class B, class L> void builders(Rng& g) {
  typedef matrix<E, dynamic<>, B, L> D; typedef vector<E, dynamic<>> DV; typedef vector<E, external<>> XV; auto vec = [&](int n) { return VH<DV>(seq<E>(g, n)); }; auto m44 = [&](int r, int c) { return MH<D>(arr<E>(g, r, c)); }; const int N = g.i(3, 5); const bool row = std::is_same<B, row_basis>::value; const int Rr = row ? 4 : 3, Rc = row ? 3 : 4; auto any = [&] { return g.coin() ? m44(4, 4) : m44(Rr, Rc); }; mon::mix(N);
  const E t = E(g.r(-3, 3)), p = E(g.r(0.2, 1.2)); auto a = vec(3), b = vec(3), c = vec(3); VH<XV> e(seq<E>(g, 3)); auto a2 = vec(2), b2 = vec(2); DV n(a.v); n.normalize(); if(n.length() < E(0.5) || a.v.length() < E(0.3) || b.v.length() < E(0.3) || cml::cross(a.v, b.v).length() < E(0.3) || a2.v.length() < E(0.3)) { mon::trivial(); return; } mon::bin(row ? "builders/row-basis" : "builders/col-basis");
  auto m = m44(N, N);
  auto go = [&](const char* k, auto f) { f(); rm(k, m.m); };
  m = m44(N, N); go("rotation-world", [&] { matrix_rotation_world_axis(m.m, g.i(0, 2), t); }); go("axis-angle", [&] { matrix_rotation_axis_angle(m.m, n, t); }); go("euler", [&] { matrix_rotation_euler(m.m, e.v, cml::euler_order_zxz); }); go("euler-derivative", [&] { matrix_rotation_euler_derivatives(m.m, 1, a.v, cml::euler_order_xyz); }); go("align", [&] { matrix_rotation_align(m.m, a.v, b.v); }); go("aim-at", [&] { matrix_rotation_aim_at(m.m, a.v, a.v + b.v, a.v); }); go("skew", [&] { matrix_skew_symmetric(m.m, e.v); }); go("linear", [&] { matrix_linear_transform(m.m, m44(3, 3).m); });
  m = m44(N, N); go("rotation-2D", [&] { matrix_rotation_2D(m.m, t); }); go("scale-2D", [&] { matrix_scale_2D(m.m, a2.v); }); go("set-basis", [&] { matrix_set_basis_vectors(m.m, a.v, b.v, c.v); }); go("set-transposed", [&] { matrix_set_transposed_basis_vector(m.m, 2, e.v); }); go("set-basis-2D", [&] { matrix_set_basis_vectors_2D(m.m, a2.v, b2.v); }); rv("get-basis", matrix_get_basis_vector(m.m, 1)); rv("get-basis-2D", matrix_get_y_basis_vector_2D(m.m)); rv("get-nD", matrix_get_basis_vector_nD(m.m, N - 1)); { DV o1, o2, o3; matrix_get_basis_vectors(m.m, o1, o2, o3); rv("get-three", o3); rs("trace-3x3", trace_3x3(m.m)); rs("trace-2x2", trace_2x2(m.m)); }
  m = any(); go("scale", [&] { matrix_scale(m.m, a.v); }); go("inverse-scale", [&] { matrix_inverse_scale(m.m, b.v); }); go("translation", [&] { matrix_translation(m.m, a.v); }); go("set-translation", [&] { matrix_set_translation(m.m, e.v); }); rv("get-translation", matrix_get_translation(m.m)); go("affine", [&] { matrix_affine_transform(m.m, n, t, b.v); }); go("affine-linear", [&] { matrix_affine_transform(m.m, m44(3, 3).m, a.v); }); rv("transform-point", transform_point(m.m, b.v)); rv("transform-vector", transform_vector(m.m, e.v)); go("look-at", [&] { matrix_look_at_RH(m.m, a.v, a.v + b.v, a.v); }); go("translation-2", [&] { matrix_translation(m.m, E(1), E(2)); }); { auto q = m44(row ? 3 : 2, row ? 2 : 3); matrix_translation_2D(q.m, a2.v); rm("translation-2D", q.m); matrix_set_translation_2D(q.m, b2.v); rv("get-translation-2D", matrix_get_translation_2D(q.m)); rv("transform-point-2D", transform_point_2D(q.m, a2.v)); rv("transform-vector-2D", transform_vector_2D(q.m, a2.v)); }
  m = m44(4, 4); go("perspective", [&] { matrix_perspective_LH(m.m, E(-1), E(2), E(-2), E(1), E(1), E(9), cml::z_clip_zero); }); rv("transform-4D", transform_vector_4D(m.m, vec(4).v)); auto view = m44(4, 4); matrix_look_at_LH(view.m, a.v, b.v, n + DV(E(1), E(2), E(4))); { E pl[6][4]; extract_frustum_planes(view.m, m.m, pl, cml::z_clip_zero, true); for(auto& q : pl) { VH<DV> o(std::vector<E>(q, q + 4)); rv("plane", o.v); } } go("orthographic", [&] { matrix_orthographic_RH(m.m, E(3), E(4), E(1), E(7), cml::z_clip_neg_one); }); go("yfov", [&] { matrix_perspective_yfov_RH(m.m, p, E(1.5), E(1), E(7), cml::z_clip_neg_one); }); rm("concat", matrix_concat(view.m, m.m)); matrix_invert_RT(view.m); rm("invert-rigid", view.m);
  { MH<D> r(arr<E>(g, 3, 3)); matrix_rotation_euler(r.m, t, p, E(0.5), cml::euler_order_yzx); DV ax; E an; matrix_to_axis_angle(r.m, ax, an); rv("to-axis", ax); rs("to-angle", an); rv("to-euler", matrix_to_euler<DV>(r.m, cml::euler_order_yzx)); typedef cml::quaternion<E, fixed<>, cml::imaginary_first, cml::negative_cross> Q; Q q; quaternion_rotation_matrix(q, r.m); rq("from-matrix", q); quaternion_rotation_axis_angle(q, n, t); rq("from-axis", q); Q q2(a.v, E(2)); rq("from-vector", q2); Q q3(seq<E>(g, 4).data()); rq("from-array", q3); Q q4{E(1), E(2), E(3), E(4)}; rq("elements", q4); q4 = {E(4), E(3), E(2), E(1)}; rq("list", q4); q4.set(E(7), e.v); rq("set", q4); rq("product", q * q2 + q3 / E(2)); rv("imaginary", cml::imaginary(q2)); rq("inverse", cml::inverse(q2)); rq("exp", cml::exp(q2 / E(3))); rq("log", cml::log(q3)); quaternion_rotation_align(q, a.v, b.v); rq("align", q); quaternion_to_axis_angle(q, ax, an); rv("quaternion-to-axis", ax); rs("quaternion-to-angle", an); quaternion_rotation_euler(q, e.v, cml::euler_order_xzy); rq("euler", q); rv("quaternion-to-euler", quaternion_to_euler<DV>(q, cml::euler_order_xzy)); matrix_rotation_quaternion(m.m, q); rm("rotation-quaternion", m.m); rs("quaternion-less", int(q < q2)); rs("quaternion-dot", cml::dot(q2, q3)); }
  { DV x, y, z; cml::orthonormal_basis(a.v, b.v, x, y, z, true, cml::axis_order_yxz); rv("basis-x", x); rv("basis-y", y); rv("basis-z", z); cml::orthonormal_basis_2D(a2.v, x, y); rv("basis-2D", y); E r0, r1, r2; cml::cartesian_to_spherical(a.v, 2, cml::latitude, r0, r1, r2); rs("spherical", r2); DV o(3); cml::spherical_to_cartesian(o, 1, cml::colatitude, r0, r1, r2); rv("from-spherical", o); cml::cartesian_to_cylindrical(e.v, 0, r0, r1, r2); rs("cylindrical", r1); DV o2(2); cml::polar_to_cartesian(o2, r0, r1); rv("from-polar", o2); rv("rotate", cml::rotate_vector(a.v, n, t)); std::mt19937 eng(unsigned(g.next())); DV d(3); cml::random_unit(d, eng); rv("random-unit", d); DV d4(4); cml::random_unit(d4, eng); rv("random-unit-4", d4); if(!mon::worker()) cml::random_unit(d, n, E(0.4)); else d = n; rs("random-cone", int(cml::dot(d, n) > 0.9)); }
}
