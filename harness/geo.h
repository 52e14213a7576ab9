// Long double reference geometry for the 3-D harnesses (column form: R(i,j) is component i of the image of axis j).
#pragma once
#include "zoo.h"
#include <array>
namespace geo {
using mon::ld; using mon::Rng; using mon::fmt;
typedef std::array<ld, 3> V3;
inline V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator*(V3 a, ld s) { return {a[0] * s, a[1] * s, a[2] * s}; }
inline ld dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline ld len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a * (1 / len(a)); }
struct R3 { ld a[3][3]; ld& operator()(int i, int j) { return a[i][j]; } ld operator()(int i, int j) const { return a[i][j]; } };
inline R3 ident() { R3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r(i, j) = i == j; return r; }
inline R3 operator*(const R3& a, const R3& b) { R3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { r(i, j) = 0; for(int k = 0; k < 3; ++k) r(i, j) += a(i, k) * b(k, j); } return r; }
inline R3 tr(const R3& a) { R3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r(i, j) = a(j, i); return r; }
inline V3 operator*(const R3& a, V3 v) { V3 r; for(int i = 0; i < 3; ++i) r[i] = a(i, 0) * v[0] + a(i, 1) * v[1] + a(i, 2) * v[2]; return r; }
inline ld det(const R3& a) { return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)); }
inline ld dist(const R3& a, const R3& b) { ld m = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { ld d = std::fabs(a(i, j) - b(i, j)); if(!(d <= m)) m = d; } return m; }
inline V3 col(const R3& a, int j) { return {a(0, j), a(1, j), a(2, j)}; }
// right-handed rotation about a unit axis
inline R3 rodrigues(V3 u, ld t) {
  const ld c = std::cos(t), s = std::sin(t), o = 1 - c; R3 r;
  r(0, 0) = c + u[0] * u[0] * o; r(0, 1) = u[0] * u[1] * o - u[2] * s; r(0, 2) = u[0] * u[2] * o + u[1] * s;
  r(1, 0) = u[1] * u[0] * o + u[2] * s; r(1, 1) = c + u[1] * u[1] * o; r(1, 2) = u[1] * u[2] * o - u[0] * s;
  r(2, 0) = u[2] * u[0] * o - u[1] * s; r(2, 1) = u[2] * u[1] * o + u[0] * s; r(2, 2) = c + u[2] * u[2] * o;
  return r;
}
inline R3 about(int axis, ld t) { V3 u = {0, 0, 0}; u[axis] = 1; return rodrigues(u, t); }
// the derivative of about() with respect to the angle
inline R3 dabout(int axis, ld t) { R3 r = about(axis, t), d; const int j = (axis + 1) % 3, k = (axis + 2) % 3; for(auto& x : d.a) for(auto& y : x) y = 0; d(j, j) = d(k, k) = -std::sin(t); d(k, j) = std::cos(t); d(j, k) = -std::cos(t); (void) r; return d; }
inline std::string show(V3 v) { return fmt("(%.12Lg %.12Lg %.12Lg)", v[0], v[1], v[2]); }
inline std::string show(const R3& r) { return show(V3{r(0, 0), r(0, 1), r(0, 2)}) + show(V3{r(1, 0), r(1, 1), r(1, 2)}) + show(V3{r(2, 0), r(2, 1), r(2, 2)}); }
// the linear 3x3 part of a matrix in column form
template<class M> R3 linear(const M& m) { R3 r; const bool row = std::is_same<typename M::basis_tag, cml::row_basis>::value; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r(i, j) = row ? m(j, i) : m(i, j); return r; }
// every element outside the n x n block belongs to an identity matrix
template<class M> bool rest_identity(const M& m, int n) { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) if((i >= n || j >= n) && !(m(i, j) == (i == j ? 1 : 0))) return false; return true; }
template<class V> V3 v3(const V& v) { return {ld(v[0]), ld(v[1]), ld(v[2])}; }
inline V3 gauss3(Rng& g) { return {g.gauss(), g.gauss(), g.gauss()}; }
inline V3 unit3(Rng& g) { for(;;) { V3 v = gauss3(g); if(len(v) > 0.1) return unit(v); } }
inline void near(const R3& a, const R3& b, ld tol, const std::string& key, const std::string& d = "") { mon::ev(); const ld e = dist(a, b); if(!(e <= tol)) mon::fail(key, "got " + show(a) + " want " + show(b) + fmt(" error %.3Lg tolerance %.3Lg ", e, tol) + d); }
inline void near(V3 a, V3 b, ld tol, const std::string& key, const std::string& d = "") { mon::ev(); if(!(std::fabs(a[0] - b[0]) <= tol && std::fabs(a[1] - b[1]) <= tol && std::fabs(a[2] - b[2]) <= tol)) mon::fail(key, "got " + show(a) + " want " + show(b) + fmt(" tolerance %.3Lg ", tol) + d); }
inline void near(ld a, ld b, ld tol, const std::string& key, const std::string& d = "") { mon::ev(); if(!(std::fabs(a - b) <= tol)) mon::fail(key, fmt("got %.17Lg want %.17Lg tolerance %.3Lg ", a, b, tol) + d); }
// a matrix holder of a 3-D capable size filled with junk
template<class M> std::unique_ptr<zoo::MH<M>> junk(Rng& g, int minr, int minc, int max = 5, bool square = false) {
  typedef zoo::MH<M> H; int r = H::R_ > 0 ? H::R_ : g.i(minr, max), c = H::C_ > 0 ? H::C_ : square ? r : g.i(minc, max);
  zoo::RM<typename H::elem> x(r, c); for(auto& e : x.a) e = typename H::elem(g.i(-99, 99)) + typename H::elem(0.5); return std::unique_ptr<H>(new H(x));
}
template<class V> V mkv(V3 x) { V v; cml::detail::check_or_resize(v, cml::int_c<3>()); for(int i = 0; i < 3; ++i) v[i] = typename V::value_type(x[i]); return v; }
}  // namespace geo
