// C16: projections map the view volume onto the clip volume; frustum planes bound exactly that volume.
#include "geo.h"
using namespace geo; using namespace zoo;
template<class M> ld bel(const M& m, int i, int j) { return std::is_same<typename M::basis_tag, row_basis>::value ? m.get(i, j) : m.get(j, i); }
typedef std::array<ld, 4> V4;
template<class M> V4 clip(const M& m, V3 p) { V4 r; for(int j = 0; j < 4; ++j) r[j] = bel(m, 0, j) * p[0] + bel(m, 1, j) * p[1] + bel(m, 2, j) * p[2] + bel(m, 3, j); return r; }
std::string show(V4 v) { return fmt("(%.12Lg %.12Lg %.12Lg %.12Lg)", v[0], v[1], v[2], v[3]); }
// random planes and flags; E is the parameter type
template<class E> struct Vol { E l, r, b, t, n, f; };
template<class E> Vol<E> volume(Rng& g, bool persp, bool sym) {
  Vol<E> v; const bool in = std::is_integral<E>::value; auto pos = [&](ld a, ld b) { return in ? E(g.i(1, 20)) : E(std::pow(10.0L, g.r(a, b))); };
  v.n = pos(-2, 1); if(!persp && g.coin(1, 3)) v.n = g.coin() ? E(0) : E(-v.n); E d = pos(-1, 3); v.f = E(v.n + d); if(!(v.f > v.n)) v.f = E(v.n + 1); if(!in && persp && g.coin(1, 4)) v.f = E(v.n * E(1 + g.r(0.01L, 0.2L)));
  const E w = pos(-1, 2), h = pos(-1, 2); if(sym) { v.r = E(w / E(in ? 1 : 2)); v.l = E(-v.r); v.t = E(h / E(in ? 1 : 2)); v.b = E(-v.t); } else { v.l = in ? E(g.i(-20, 20)) : E(w * E(g.r(-2, 1))); v.r = E(v.l + w); v.b = in ? E(g.i(-20, 20)) : E(h * E(g.r(-2, 1))); v.t = E(v.b + h); }
  if(g.coin(1, 8)) { std::swap(v.l, v.r); mon::bin("volume/mirrored"); } for(ld x : {ld(v.l), ld(v.r), ld(v.b), ld(v.t), ld(v.n), ld(v.f)}) mon::mixd(double(x)); mon::bin(sym ? "volume/symmetric" : "volume/off-center"); if(mon::noting()) mon::note(fmt("l %.17Lg r %.17Lg b %.17Lg t %.17Lg n %.17Lg f %.17Lg", ld(v.l), ld(v.r), ld(v.b), ld(v.t), ld(v.n), ld(v.f))); return v;
}
// rounding error to expect in a clip coordinate
template<class E> ld cond(const Vol<E>& v, bool persp) { const ld w = std::fabs(ld(v.r) - v.l), h = std::fabs(ld(v.t) - v.b), d = ld(v.f) - v.n, x = std::max(std::fabs(ld(v.l)), std::fabs(ld(v.r))), y = std::max(std::fabs(ld(v.b)), std::fabs(ld(v.t))), z = std::max(std::fabs(ld(v.n)), std::fabs(ld(v.f))); ld c = 4 * (1 + 2 * x / w + 2 * y / h + 2 * z / d); if(persp) c += 4 * z / d; return c; }
// the corners of the view volume go to the corners of the clip volume, and inside stays inside in order
template<class M, class E> void corners(Rng& g, const M& m, const Vol<E>& v, bool persp, bool rh, bool zero, const std::string& key) {
  const std::string t = std::string(rh ? "/right" : "/left") + (zero ? "/zero" : "/neg-one"); const ld e = 8 * std::max(mon::eps<typename M::value_type>(), std::is_integral<E>::value ? 0 : mon::eps<typename std::conditional<std::is_integral<E>::value, double, E>::type>()) * cond(v, persp); mon::bin(std::string(persp ? "perspective" : "orthographic") + t);
  const ld s = rh ? -1 : 1, k = persp ? ld(v.f) / v.n : 1;
  auto near4 = [&](V4 c, V3 w, const std::string& what) { mon::ev(); const bool ok = c[3] > 0 && std::fabs(c[0] / c[3] - w[0]) <= e && std::fabs(c[1] / c[3] - w[1]) <= e && std::fabs(c[2] / c[3] - w[2]) <= e; if(!ok) mon::fail(key + what + t, "clip " + show(c) + " want " + geo::show(w) + fmt(" tolerance %.3Lg ", e) + showm(m)); };
  for(int i = 0; i < 8; ++i) { const bool R = i & 1, T = i & 2, F = i & 4; const ld sc = F ? k : 1; const V3 p = {(R ? ld(v.r) : ld(v.l)) * sc, (T ? ld(v.t) : ld(v.b)) * sc, s * (F ? ld(v.f) : ld(v.n))}; near4(clip(m, p), V3{R ? 1.0L : -1.0L, T ? 1.0L : -1.0L, F ? 1.0L : zero ? 0.0L : -1.0L}, "-corner"); }
  // two points on one ray (or parallel line), the second deeper
  ld a = g.u01(), b = g.u01(), c1 = g.u01(), c2 = g.u01(); if(c1 > c2) std::swap(c1, c2); auto at = [&](ld c) { const ld z = v.n + c * (ld(v.f) - v.n), sc = persp ? z / v.n : 1; return V3{(v.l + a * (ld(v.r) - v.l)) * sc, (v.b + b * (ld(v.t) - v.b)) * sc, s * z}; };
  const V4 p = clip(m, at(c1)), q = clip(m, at(c2)); const V3 P = {p[0] / p[3], p[1] / p[3], p[2] / p[3]}, Q = {q[0] / q[3], q[1] / q[3], q[2] / q[3]}; mon::check(p[3] > 0 && q[3] > 0, key + "-w-positive" + t); near(P[0], 2 * a - 1, e, key + "-x" + t); near(P[1], 2 * b - 1, e, key + "-y" + t); near(Q[0], 2 * a - 1, e, key + "-x" + t); mon::check(P[2] >= (zero ? 0 : -1) - e && Q[2] <= 1 + e, key + "-depth-range" + t); mon::check(Q[2] >= P[2] - e, key + "-depth-order" + t); mon::bin("inside");
  for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) if((i > 3 || j > 3) && !(m(i, j) == (i == j ? 1 : 0))) { mon::check(false, key + "-rest-is-identity", showm(m)); return; }
}
template<class M> std::unique_ptr<MH<M>> target(Rng& g) { return junk<M>(g, 4, 4, 6); }
template<class M, class E> void projections(Rng& g) {
  const bool rh = g.coin(), zero = g.coin(); mon::mix(rh * 2 + zero); const auto hd = rh ? cml::right_handed : cml::left_handed; const auto zc = zero ? cml::z_clip_zero : cml::z_clip_neg_one;
  { auto v = volume<E>(g, false, false); auto h = target<M>(g); cml::matrix_orthographic(h->m, v.l, v.r, v.b, v.t, v.n, v.f, hd, zc); corners(g, h->m, v, false, rh, zero, "orthographic"); auto k = target<M>(g); if(rh) cml::matrix_orthographic_RH(k->m, v.l, v.r, v.b, v.t, v.n, v.f, zc); else cml::matrix_orthographic_LH(k->m, v.l, v.r, v.b, v.t, v.n, v.f, zc); corners(g, k->m, v, false, rh, zero, "orthographic-handed"); }
  { auto v = volume<E>(g, false, true); const E w = E(v.r - v.l), hh = E(v.t - v.b); auto h = target<M>(g); cml::matrix_orthographic(h->m, w, hh, v.n, v.f, hd, zc); corners(g, h->m, v, false, rh, zero, "orthographic-size"); auto k = target<M>(g); if(rh) cml::matrix_orthographic_RH(k->m, w, hh, v.n, v.f, zc); else cml::matrix_orthographic_LH(k->m, w, hh, v.n, v.f, zc); corners(g, k->m, v, false, rh, zero, "orthographic-size-handed"); }
  { auto v = volume<E>(g, true, false); auto h = target<M>(g); cml::matrix_perspective(h->m, v.l, v.r, v.b, v.t, v.n, v.f, hd, zc); corners(g, h->m, v, true, rh, zero, "perspective"); auto k = target<M>(g); if(rh) cml::matrix_perspective_RH(k->m, v.l, v.r, v.b, v.t, v.n, v.f, zc); else cml::matrix_perspective_LH(k->m, v.l, v.r, v.b, v.t, v.n, v.f, zc); corners(g, k->m, v, true, rh, zero, "perspective-handed"); }
  { auto v = volume<E>(g, true, true); const E w = E(v.r - v.l), hh = E(v.t - v.b); auto h = target<M>(g); cml::matrix_perspective(h->m, w, hh, v.n, v.f, hd, zc); corners(g, h->m, v, true, rh, zero, "perspective-size"); auto k = target<M>(g); if(rh) cml::matrix_perspective_RH(k->m, w, hh, v.n, v.f, zc); else cml::matrix_perspective_LH(k->m, w, hh, v.n, v.f, zc); corners(g, k->m, v, true, rh, zero, "perspective-size-handed"); }
  if constexpr(!std::is_integral<E>::value) {   // field of view: the half width (height) at distance 1 is tan(fov / 2)
    const E fov = E(g.r(0.05L, 2.8L)), asp = E(std::pow(10.0L, g.r(-1, 1))), n = E(std::pow(10.0L, g.r(-2, 1))), f = E(n * E(1 + std::pow(10.0L, g.r(-1, 3)))); mon::mixd(double(fov)); mon::mixd(double(asp)); mon::mixd(double(n)); mon::mixd(double(f)); const ld hw = std::tan(ld(fov) / 2) * n; Vol<ld> x = {-hw, hw, -hw / asp, hw / asp, n, f}, y = {-hw * asp, hw * asp, -hw, hw, n, f};
    auto lowprec = [&](const M& m, const Vol<ld>& v, const std::string& k) { Vol<E> u = {E(v.l), E(v.r), E(v.b), E(v.t), E(v.n), E(v.f)}; corners(g, m, u, true, rh, zero, k); }; auto h = target<M>(g); cml::matrix_perspective_xfov(h->m, fov, asp, n, f, hd, zc); lowprec(h->m, x, "xfov"); if(rh) cml::matrix_perspective_xfov_RH(h->m, fov, asp, n, f, zc); else cml::matrix_perspective_xfov_LH(h->m, fov, asp, n, f, zc); lowprec(h->m, x, "xfov-handed");
    auto k = target<M>(g); cml::matrix_perspective_yfov(k->m, fov, asp, n, f, hd, zc); lowprec(k->m, y, "yfov"); if(rh) cml::matrix_perspective_yfov_RH(k->m, fov, asp, n, f, zc); else cml::matrix_perspective_yfov_LH(k->m, fov, asp, n, f, zc); lowprec(k->m, y, "yfov-handed"); mon::bin("field-of-view");
  }
}
// the six planes of a matrix, not normalised
template<class M> void planes_of(const M& m, bool zero, ld p[6][4]) { for(int i = 0; i < 4; ++i) { const ld x = bel(m, i, 0), y = bel(m, i, 1), z = bel(m, i, 2), w = bel(m, i, 3); p[0][i] = w + x; p[1][i] = w - x; p[2][i] = w + y; p[3][i] = w - y; p[4][i] = zero ? z : w + z; p[5][i] = w - z; } }
const char* const PN[] = {"left", "right", "bottom", "top", "near", "far"};
template<class E> void ckplanes(const E got[6][4], const ld want[6][4], bool norm, ld te, const std::string& key) {
  for(int i = 0; i < 6; ++i) { mon::ev(); ld l = std::sqrt(want[i][0] * want[i][0] + want[i][1] * want[i][1] + want[i][2] * want[i][2]), big = 0; for(int j = 0; j < 4; ++j) big = std::max(big, std::fabs(want[i][j])); if(norm && l < 1e-3L * big) continue; const ld s = norm ? 1 / l : 1; bool ok = true; for(int j = 0; j < 4; ++j) ok &= std::fabs(got[i][j] - want[i][j] * s) <= te * big * s; if(!ok) mon::fail(key + "/" + PN[i], "got " + show(V4{ld(got[i][0]), ld(got[i][1]), ld(got[i][2]), ld(got[i][3])}) + " want " + show(V4{want[i][0] * s, want[i][1] * s, want[i][2] * s, want[i][3] * s})); if(norm) near(std::sqrt(ld(got[i][0]) * got[i][0] + ld(got[i][1]) * got[i][1] + ld(got[i][2]) * got[i][2]), 1, te, key + "-unit/" + PN[i]); }
}
// arbitrary transforms: exact plane equations; membership agrees with clip coordinates
template<class M, class E> void arbitrary(Rng& g) {
  typedef MH<M> H; auto h = target<M>(g); M& m = h->m; for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) { typename H::elem x = typename H::elem(g.coin() ? g.i(-9, 9) : g.gauss() * 3); m.put(i, j, x); mon::mixd(double(x)); } const bool zero = g.coin(), norm = g.coin(); const auto zc = zero ? cml::z_clip_zero : cml::z_clip_neg_one; const ld e = 8 * std::max(mon::eps<typename H::elem>(), mon::eps<E>()); const std::string t = zero ? "/zero" : "/neg-one";
  ld w[6][4]; planes_of(m, zero, w); E p[6][4]; for(auto& r : p) for(E& x : r) x = E(777); for(auto& r : w) { ld n = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]; if(norm && n < 1e-4L) return; } if(norm && g.coin()) cml::extract_frustum_planes(m, p, zc); else cml::extract_frustum_planes(m, p, zc, norm); ckplanes(p, w, norm, e, std::string(norm ? "planes-normalized" : "planes") + t); mon::bin(std::string(norm ? "planes/normalized" : "planes/raw") + t);
  { E q[6][4]; cml::extract_frustum_planes(-(-m), q, zc, norm); ckplanes(q, w, norm, e, "planes-expression" + t); E nr[4] = {E(9), E(9), E(9), E(9)}; cml::extract_near_frustum_plane(m, nr, zc); cml::vector<E, fixed<4>> nv; cml::extract_near_frustum_plane(m, nv, zc); for(int j = 0; j < 4; ++j) { near(nr[j], w[4][j], e * 20, "near-plane" + t); near(nv[j], w[4][j], e * 20, "near-plane-vector" + t); } }
  for(int k = 0; k < 8; ++k) { V3 x = gauss3(g) * (g.coin() ? 1 : 0.1); V4 c = clip(m, x); ld margin = 1e9, size = 1; bool in = true, dual = true; for(ld d : {c[3] + c[0], c[3] - c[0], c[3] + c[1], c[3] - c[1], zero ? c[2] : c[3] + c[2], c[3] - c[2]}) { in &= d > 0; margin = std::min(margin, std::fabs(d)); } for(int i = 0; i < 6; ++i) { ld d = p[i][3]; for(int j = 0; j < 3; ++j) d += p[i][j] * x[j]; dual &= d > 0; } (void) size; if(margin < 1e-3L) continue; mon::check(in == dual, "inside-planes-iff-inside-clip-volume" + t, geo::show(x) + showm(m)); mon::bin(in ? "membership/inside" : "membership/outside"); }
}
// a view volume: planes pass through the corners they bound; with or without a modelview
template<class M, class E> void frusta(Rng& g) {
  typedef MH<M> H; typedef typename H::elem X; const bool rh = g.coin(), zero = g.coin(), persp = g.coin(), norm = g.coin(3, 4); const auto hd = rh ? cml::right_handed : cml::left_handed; const auto zc = zero ? cml::z_clip_zero : cml::z_clip_neg_one; Vol<X> v; do v = volume<X>(g, persp, g.coin()); while(v.l > v.r); RM<X> z(4, 4); H pr(z), mv(z); if(persp) cml::matrix_perspective(pr.m, v.l, v.r, v.b, v.t, v.n, v.f, hd, zc); else cml::matrix_orthographic(pr.m, v.l, v.r, v.b, v.t, v.n, v.f, hd, zc);
  // modelview: rotation, uniform scale and translation, as a map from model to view space
  V3 u = unit3(g); const X th = X(g.r(-3, 3)); const cml::vector<X, fixed<3>> uv = mkv<cml::vector<X, fixed<3>>>(u); const ld zs = std::max(std::fabs(ld(v.f)), std::fabs(ld(v.n))); const cml::vector<X, fixed<3>> tv = mkv<cml::vector<X, fixed<3>>>(gauss3(g) * zs); cml::matrix_rotation_axis_angle(mv.m, uv, th); cml::matrix_set_translation(mv.m, tv); const R3 R = rodrigues(unit(v3(uv)), th); auto model = [&](V3 p) { return tr(R) * (p - v3(tv)); };   // view -> model
  const std::string t = std::string(persp ? "/perspective" : "/orthographic") + (rh ? "/right" : "/left") + (zero ? "/zero" : "/neg-one"); const bool two = g.coin(); E p[6][4]; if(two) { if(norm && g.coin()) cml::extract_frustum_planes(mv.m, pr.m, p, zc); else cml::extract_frustum_planes(mv.m, pr.m, p, zc, norm); } else cml::extract_frustum_planes(pr.m, p, zc, norm); mon::bin(std::string(two ? "frustum/modelview" : "frustum/projection") + t);
  const ld s = rh ? -1 : 1, k = persp ? ld(v.f) / v.n : 1, e = 32 * std::max(mon::eps<X>(), mon::eps<E>()) * cond(v, persp); V3 mid = {0, 0, 0}; V3 c[8];
  for(int i = 0; i < 8; ++i) { const ld sc = i & 4 ? k : 1; V3 q = {((i & 1) ? ld(v.r) : ld(v.l)) * sc, ((i & 2) ? ld(v.t) : ld(v.b)) * sc, s * ((i & 4) ? ld(v.f) : ld(v.n))}; c[i] = two ? model(q) : q; mid = mid + c[i] * 0.125L; }
  for(int i = 0; i < 6; ++i) { auto D = [&](V3 q) { return p[i][0] * q[0] + p[i][1] * q[1] + p[i][2] * q[2] + p[i][3]; }; ld sz = 0; { ld w[4], nn = 0; for(int r = 0; r < 4; ++r) { w[r] = 0; ld net = 0; for(int k = 0; k < 4; ++k) { const ld a = two ? ld(bel(mv.m, r, k)) : r == k, x = bel(pr.m, k, 3), z = bel(pr.m, k, i / 2) * (i & 1 ? -1 : 1); w[r] += std::fabs(a) * (std::fabs(x) + std::fabs(z)); net += a * (i == 4 && zero ? z : x + z); } if(r < 3) nn += net * net; } const ld sc = norm ? 1 / std::sqrt(nn) : 1; for(auto& q : c) sz = std::max(sz, sc * (w[0] * std::fabs(q[0]) + w[1] * std::fabs(q[1]) + w[2] * std::fabs(q[2]) + w[3])); } ld dm = D(mid); const int bit = i < 2 ? 1 : i < 4 ? 2 : 4; const bool hi = i & 1; ld ext = 0; for(int j = 0; j < 8; ++j) ext = std::max(ext, std::fabs(D(c[j])));
    const ld te = 4 * e * (sz + ext); for(int j = 0; j < 8; ++j) { if(!!(j & bit) == hi) { mon::ev(); if(!(std::fabs(D(c[j])) <= te)) mon::fail(std::string("face-through-corners/") + PN[i] + t, fmt("distance %.6Lg tolerance %.3Lg", D(c[j]), te)); } else if(ext > 4 * te) mon::check(D(c[j]) > 0, std::string("opposite-corner-inside/") + PN[i] + t); } if(ext > 8 * te) { mon::check(dm > 0, std::string("center-inside/") + PN[i] + t); mon::bin("frustum/sharp"); }
    if(norm) near(std::sqrt(ld(p[i][0]) * p[i][0] + ld(p[i][1]) * p[i][1] + ld(p[i][2]) * p[i][2]), 1, 16 * std::max(mon::eps<X>(), mon::eps<E>()), std::string("unit-normal/") + PN[i] + t); }
}
template<class E, class B, class L> struct S { template<int R, int C> using F = matrix<E, fixed<R, C>, B, L>; template<int R, int C> using X = matrix<E, external<R, C>, B, L>; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> XD; };
typedef S<double, col_basis, row_major> A; typedef S<double, row_basis, col_major> B; typedef S<float, col_basis, col_major> C; typedef S<float, row_basis, row_major> D;
#define COMMA ,
#define PRJ(n, M, E) mon::group("project-" n, 2000, projections<M, E>)
#define PLN(n, M, E) mon::group("planes-" n, 2000, arbitrary<M, E>)
#define FRU(n, M, E) mon::group("frustum-" n, 3000, frusta<M, E>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  PRJ("a44-double", A::F<4 COMMA 4>, double); PRJ("a44-int", A::F<4 COMMA 4>, int); PLN("a44", A::F<4 COMMA 4>, double); FRU("a44", A::F<4 COMMA 4>, double);
#elif PART == 1
  PRJ("b44-double", B::X<4 COMMA 4>, double); PRJ("b44-float", B::F<4 COMMA 4>, float); PLN("b55", B::F<5 COMMA 5>, double); FRU("b44", B::F<4 COMMA 4>, double); FRU("b44f", B::F<4 COMMA 4>, float);
#elif PART == 2
  PRJ("c44-float", C::F<4 COMMA 4>, float); PRJ("c46-double", C::F<4 COMMA 6>, double); PLN("c44", C::F<4 COMMA 4>, float); FRU("c44", C::F<4 COMMA 4>, float);
#elif PART == 3
  PRJ("d44-float", D::X<4 COMMA 4>, float); PRJ("d44-int", D::F<4 COMMA 4>, int); PLN("d64", D::F<6 COMMA 4>, float); FRU("d44", D::X<4 COMMA 4>, double);
#elif PART == 4
  PRJ("a-dyn", A::D, double); PRJ("a-dynf", A::D, float); PLN("a-dyn", A::D, float); FRU("a-dyn", A::D, double);
#elif PART == 5
  PRJ("b-ext", B::XD, double); PLN("b-ext", B::XD, double); FRU("b-ext", B::XD, double); PRJ("a-ld", A::F<4 COMMA 4>, long double);
#elif PART == 6
  PRJ("c-dyn", C::D, float); PRJ("c-dyni", C::D, int); PLN("c-dyn", C::D, double); FRU("c-dyn", C::D, float);
#elif PART == 7
  PRJ("d-ext", D::XD, float); PLN("d-ext", D::XD, float); FRU("d-ext", D::XD, float); FRU("d-dyn", D::D, double);
#endif
  return mon::finish();
}
