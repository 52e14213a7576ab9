// C15: orthonormal bases, align, aim-at and look-at against their geometric definition.
#include "geo.h"
using namespace geo; using namespace zoo;
struct AO { const char* n; cml::axis_order o; int i, j, k; };
const AO ORD[] = {{"xyz", cml::axis_order_xyz, 0, 1, 2}, {"xzy", cml::axis_order_xzy, 0, 2, 1}, {"yzx", cml::axis_order_yzx, 1, 2, 0}, {"yxz", cml::axis_order_yxz, 1, 0, 2}, {"zxy", cml::axis_order_zxy, 2, 0, 1}, {"zyx", cml::axis_order_zyx, 2, 1, 0}};
V3 direction(Rng& g) { switch(g.i(0, 5)) { case 0: { V3 v = {0, 0, 0}; v[g.i(0, 2)] = g.coin() ? 1 : -1; return v; } case 1: { V3 v = {ld(g.i(-3, 3)), ld(g.i(-3, 3)), ld(g.i(-3, 3))}; return dot(v, v) > 0 ? unit(v) : unit3(g); } case 2: { V3 v = unit3(g); v[g.i(0, 2)] = 0; return len(v) > 0.1 ? unit(v) : unit3(g); } default: return unit3(g); } }
// axes[i] along align, axes[j] the part of reference perpendicular to align, axes[k] completing a right-handed set
void basis(const AO& o, V3 a, V3 r, V3* x) { a = unit(a); V3 p = unit(r - a * dot(r, a)); x[o.i] = a; x[o.j] = p; V3 k = {0, 0, 0}; for(int s = -1; s < 2; s += 2) { x[o.k] = cross(a, p) * s; if(dot(cross(x[0], x[1]), x[2]) > 0) k = x[o.k]; } x[o.k] = k; }
template<class E> ld emax() { return mon::eps<E>(); }
template<class E, class F> ld emax2() { return std::max(mon::eps<E>(), mon::eps<F>()); }
// vectors in several storages
template<class E, class F> void form(Rng& g, V3 x, F f) { std::vector<E> e = {E(x[0]), E(x[1]), E(x[2])}; const int k = g.i(0, 5); mon::bin(fmt("vector-form/%d", k)); const VH<vector<E, fixed<3>>> a(e); switch(k) { case 1: { VH<vector<E, dynamic<>>> b(e); f(b.v); return; } case 2: { VH<vector<const E, external<>>> b(e); f(b.v); return; } case 3: f(-(-a.v)); return; case 4: { cml::matrix<E, dynamic<>> m(3, 2); for(int i = 0; i < 3; ++i) { m(i, 0) = E(9); m(i, 1) = e[i]; } f(cml::col(m, 1)); return; } case 5: { VH<vector<E, external<3>>> b(e); f(b.v); return; } default: f(a.v); } }
template<class R> R3 qrot(const R& q) { const ld w = q.w(), x = q.x(), y = q.y(), z = q.z(); R3 r; r(0, 0) = w * w + x * x - y * y - z * z; r(1, 1) = w * w - x * x + y * y - z * z; r(2, 2) = w * w - x * x - y * y + z * z; r(0, 1) = 2 * (x * y - w * z); r(1, 0) = 2 * (x * y + w * z); r(0, 2) = 2 * (x * z + w * y); r(2, 0) = 2 * (x * z - w * y); r(1, 2) = 2 * (y * z - w * x); r(2, 1) = 2 * (y * z + w * x); return r; }
R3 cols(const V3* x) { R3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r(i, j) = x[j][i]; return r; }
// E: element type of the inputs, M: target matrix, Q: target quaternion
template<class E, class M, class Q> void align(Rng& g) {
  typedef MH<M> H; const ld e = std::max({mon::eps<E>(), mon::eps<typename H::elem>(), mon::eps<typename Q::value_type>()}); const AO& o = ORD[g.i(0, 5)]; mon::mix(o.o); mon::bin(std::string("order/") + o.n);
  V3 a = direction(g), r = direction(g); if(g.coin(1, 6)) r = unit(r + a * g.r(-8, 8)); const ld s = len(cross(a, r)); if(s < 0.02) { mon::bin("skipped/parallel"); return; } const bool norm = g.coin(2, 3); const ld sa = norm ? std::pow(10.0L, g.r(-3, 3)) : 1, sr = std::pow(10.0L, g.r(-3, 3)); mon::bin(norm ? "align/to-normalize" : "align/unit"); if(s < 0.2) mon::bin("reference/nearly-parallel"); if(std::fabs(dot(a, r)) < 1e-6) mon::bin("reference/perpendicular"); if(dot(a, r) < -0.5) mon::bin("reference/opposite");
  // the values as stored
  V3 as, rs; for(int i = 0; i < 3; ++i) { as[i] = E(a[i] * sa); rs[i] = E(r[i] * sr); mon::mixd(double(as[i])); mon::mixd(double(rs[i])); } if(mon::noting()) mon::note(std::string(o.n) + show(as) + show(rs)); V3 x[3]; basis(o, as, rs, x); const R3 w = cols(x); const ld te = 32 * e / s; const std::string t = std::string("/") + o.n;
  // three vectors
  { cml::vector<E, fixed<3>> p; cml::vector<double, dynamic<>> q; VH<vector<E, external<3>>> u({7, 7, 7}); auto chk = [&](const std::string& k) { near(v3(p), x[0], te, k + "-x" + t); near(v3(q), x[1], te, k + "-y" + t); near(v3(u.v), x[2], te, k + "-z" + t); };
    form<E>(g, as, [&](const auto& av) { cml::vector<E, fixed<3>> rv; for(int i = 0; i < 3; ++i) rv[i] = E(rs[i]); cml::orthonormal_basis(av, rv, p, q, u.v, norm, o.o); }); chk("orthonormal-basis");
    cml::vector<E, fixed<3>> av; for(int i = 0; i < 3; ++i) av[i] = E(as[i]); form<E>(g, rs, [&](const auto& rv) { cml::orthonormal_basis(av, rv, p, q, u.v, norm, o.o); if(o.o == cml::axis_order_zyx) { chk("orthonormal-basis"); cml::orthonormal_basis(av, rv, p, q, u.v); } }); chk("orthonormal-basis-reference-form"); for(int i = 0; i < 3; ++i) mon::check(ld(av[i]) == as[i], "orthonormal-basis-operand");
    // the outputs may be the inputs
    cml::vector<E, fixed<3>> a2(av), r2, z2; for(int i = 0; i < 3; ++i) r2[i] = E(rs[i]); cml::orthonormal_basis(a2, r2, r2, z2, a2, norm, o.o); near(v3(r2), x[0], te, "orthonormal-basis-in-place" + t); near(v3(z2), x[1], te, "orthonormal-basis-in-place" + t); near(v3(a2), x[2], te, "orthonormal-basis-in-place" + t); }
  // matrices
  auto h = junk<M>(g, 3, 3); auto ckm = [&](const M& m, const std::string& k) { near(linear(m), w, te, k + t); near(det(linear(m)), 1, te, k + "-determinant" + t); mon::check(rest_identity(m, 3), k + "-rest-is-identity", showm(m)); };
  cml::vector<E, fixed<3>> av, rv; for(int i = 0; i < 3; ++i) { av[i] = E(as[i]); rv[i] = E(rs[i]); }
  if(g.coin()) form<E>(g, as, [&](const auto& v) { cml::matrix_rotation_align(h->m, v, rv, norm, o.o); }); else form<E>(g, rs, [&](const auto& v) { cml::matrix_rotation_align(h->m, av, v, norm, o.o); }); ckm(h->m, "matrix-align");
  { V3 un = {0, 0, 0}; un[o.i] = 1; near(v3(cml::transform_vector(h->m, mkv<cml::vector<typename H::elem, fixed<3>>>(un))), unit(as), te, "axis-sent-to-target" + t); }
  Q q(typename Q::value_type(9), typename Q::value_type(8), typename Q::value_type(7), typename Q::value_type(6)); auto ckq = [&](const std::string& k) { near(qrot(q), w, 2 * te, k + t); near(std::sqrt(ld(q.norm())), 1, te, k + "-length" + t); }; form<E>(g, as, [&](const auto& v) { cml::quaternion_rotation_align(q, v, rv, norm, o.o); }); ckq("quaternion-align");
  // aim at: from a position to a target
  { V3 p; for(int i = 0; i < 3; ++i) p[i] = E(g.coin() ? g.i(-9, 9) : g.gauss()); V3 d0 = a * std::pow(10.0L, g.r(-1, 2)), tg, d; for(int i = 0; i < 3; ++i) { tg[i] = E(p[i] + d0[i]); d[i] = E(tg[i] - p[i]); } V3 y[3]; const ld s2 = len(cross(unit(d), unit(rs))); if(s2 > 0.02) { basis(o, d, rs, y); const R3 w2 = cols(y); const ld t2 = 32 * e / s2; cml::vector<E, fixed<3>> pv = mkv<cml::vector<E, fixed<3>>>(p), tv = mkv<cml::vector<E, fixed<3>>>(tg);
      auto k = junk<M>(g, 3, 3); form<E>(g, tg, [&](const auto& v) { cml::matrix_rotation_aim_at(k->m, pv, v, rv, o.o); if(o.o == cml::axis_order_zyx) cml::matrix_rotation_aim_at(k->m, pv, v, rv); }); near(linear(k->m), w2, t2, "matrix-aim-at" + t); mon::check(rest_identity(k->m, 3), "matrix-aim-at-rest-is-identity"); form<E>(g, p, [&](const auto& v) { cml::quaternion_rotation_aim_at(q, v, tv, rv, o.o); }); near(qrot(q), w2, 2 * t2, "quaternion-aim-at" + t); near(std::sqrt(ld(q.norm())), 1, t2, "quaternion-aim-at-length" + t); mon::bin("aim-at"); } }
}
template<class E, class M> void lookat(Rng& g) {
  typedef MH<M> H; const ld e = std::max(mon::eps<E>(), mon::eps<typename H::elem>()); V3 p, tg, up, d; const V3 a = direction(g); const ld dist0 = std::pow(10.0L, g.r(-1, 2)); const V3 u0 = direction(g); const ld su = std::pow(10.0L, g.r(-2, 2)); for(int i = 0; i < 3; ++i) { p[i] = E(g.coin() ? g.i(-9, 9) : g.gauss() * 10); tg[i] = E(p[i] + a[i] * dist0); up[i] = E(u0[i] * su); d[i] = E(tg[i] - p[i]); mon::mixd(double(p[i])); mon::mixd(double(tg[i])); mon::mixd(double(up[i])); }
  if(len(d) == 0) return; const ld s = len(cross(unit(d), unit(up))); if(s < 0.02) { mon::bin("skipped/parallel"); return; } if(mon::noting()) mon::note(show(p) + show(tg) + show(up)); const cml::vector<E, fixed<3>> pv = mkv<cml::vector<E, fixed<3>>>(p), tv = mkv<cml::vector<E, fixed<3>>>(tg), uv = mkv<cml::vector<E, fixed<3>>>(up);
  const ld te = 32 * e / s;
  for(int rh = 0; rh < 2; ++rh) {
    const std::string t = rh ? "/right" : "/left"; const V3 z = unit(d) * (rh ? -1 : 1), x = unit(cross(up, z)), y = cross(z, x); mon::bin(rh ? "look-at/right" : "look-at/left"); auto h = junk<M>(g, H::R_ > 0 ? 3 : 4, H::R_ > 0 ? 3 : 4, 5);
    auto ck = [&](const M& m, const std::string& k) { const R3 l = linear(m); near(V3{l(0, 0), l(0, 1), l(0, 2)}, x, te, k + "-x-axis" + t); near(V3{l(1, 0), l(1, 1), l(1, 2)}, y, te, k + "-y-axis" + t); near(V3{l(2, 0), l(2, 1), l(2, 2)}, z, te, k + "-z-axis" + t); near(det(l), 1, te, k + "-determinant" + t);
      const ld tp = te * (8 + 4 * len(p) + 4 * len(tg)); auto P = [&](V3 q) { return v3(cml::transform_point(m, mkv<cml::vector<double, fixed<3>>>(q))); }; near(P(p), V3{0, 0, 0}, tp, k + "-eye-to-origin" + t); near(P(tg), V3{0, 0, rh ? -len(d) : len(d)}, tp, k + "-target-on-axis" + t); V3 b = P(p + up * (1 / len(up))); near(b[0], 0, tp, k + "-up-in-plane" + t); mon::check(b[1] > 0, k + "-up-is-up" + t); V3 f = P(p + unit(d)); near(f[2], rh ? -1 : 1, tp, k + "-forward" + t);
      // everything else belongs to the identity
      bool ok = true; const bool row = std::is_same<typename H::basis, row_basis>::value; for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) { const int bv = row ? i : j, el = row ? j : i; if((bv < 4) && el < 3) continue; ok &= m(i, j) == (i == j ? 1 : 0); } mon::check(ok, k + "-rest-is-identity" + t, showm(m)); };
    if(g.coin()) form<E>(g, p, [&](const auto& v) { cml::matrix_look_at(h->m, v, tv, uv, rh ? cml::right_handed : cml::left_handed); }); else form<E>(g, tg, [&](const auto& v) { cml::matrix_look_at(h->m, pv, v, uv, rh ? cml::right_handed : cml::left_handed); }); ck(h->m, "look-at");
    auto k = junk<M>(g, H::R_ > 0 ? 3 : 4, H::R_ > 0 ? 3 : 4, 5); form<E>(g, up, [&](const auto& v) { if(rh) cml::matrix_look_at_RH(k->m, pv, tv, v); else cml::matrix_look_at_LH(k->m, pv, tv, v); }); ck(k->m, "look-at-handed");
  }
}
template<class E, class M> void plane(Rng& g) {
  typedef MH<M> H; const ld e = std::max(mon::eps<E>(), mon::eps<typename H::elem>()), te = 8 * e; const bool norm = g.coin(2, 3); ld a0 = g.coin(1, 4) ? g.i(0, 3) * 1.5707963267948966192L : g.r(-4, 4), l = norm ? std::pow(10.0L, g.r(-3, 3)) : 1; std::vector<E> a = {E(std::cos(a0) * l), E(std::sin(a0) * l)}; for(E x : a) mon::mixd(double(x)); const ld n = std::sqrt(ld(a[0]) * a[0] + ld(a[1]) * a[1]), c = a[0] / n, s = a[1] / n; const bool yx = g.coin(); mon::mix(yx); mon::bin(yx ? "order-2D/yx" : "order-2D/xy"); const std::string t = yx ? "/yx" : "/xy";
  // x or y along align, the other a quarter turn away so that the basis is right-handed
  const ld X[2] = {yx ? s : c, yx ? -c : s}, Y[2] = {yx ? c : -s, yx ? s : c}; const auto o = yx ? cml::axis_order_yx : cml::axis_order_xy; const VH<vector<E, fixed<2>>> v(a); const VH<vector<E, dynamic<>>> dv(a);
  cml::vector<E, fixed<2>> x; cml::vector<double, dynamic<>> y; auto ckv2 = [&](const std::string& k) { near(x[0], X[0], te, k + "-x" + t); near(x[1], X[1], te, k + "-x" + t); near(y[0], Y[0], te, k + "-y" + t); near(y[1], Y[1], te, k + "-y" + t); mon::check(y.size() == 2, k + "-size"); };
  cml::orthonormal_basis_2D(v.v, x, y, norm, o); ckv2("orthonormal-basis-2D"); cml::orthonormal_basis_2D(dv.v, x, y, norm, o); ckv2("orthonormal-basis-2D-dynamic"); cml::orthonormal_basis_2D(-(-dv.v), x, y, norm, o); ckv2("orthonormal-basis-2D-expression"); if(!yx) { cml::orthonormal_basis_2D(v.v, x, y); ckv2("orthonormal-basis-2D-defaults"); }
  auto h = junk<M>(g, 2, 2); auto ckm = [&](const std::string& k) { const bool row = std::is_same<typename H::basis, row_basis>::value; const M& m = h->m; near(m(0, 0), X[0], te, k + t); near(row ? m(0, 1) : m(1, 0), X[1], te, k + t); near(row ? m(1, 0) : m(0, 1), Y[0], te, k + t); near(m(1, 1), Y[1], te, k + t); mon::check(rest_identity(m, 2), k + "-rest-is-identity" + t, showm(m)); }; cml::matrix_rotation_align_2D(h->m, v.v, norm, o); ckm("align-2D"); cml::matrix_rotation_align_2D(h->m, dv.v, norm, o); ckm("align-2D-dynamic"); cml::matrix_rotation_align_2D(h->m, -(-v.v), norm, o); ckm("align-2D-expression"); if(!yx) { cml::matrix_rotation_align_2D(h->m, v.v); ckm("align-2D-defaults"); }
}
void orders(Rng& g) {
  for(const AO& o : ORD) { int i = 9, j = 9, k = 9; const bool odd = (o.j + 3 - o.i) % 3 == 2; bool od = !odd; cml::unpack_axis_order(o.o, i, j, k, od); mon::check(i == o.i && j == o.j && k == o.k && od == odd, std::string("unpack-axis-order/") + o.n, fmt("%d %d %d %d", i, j, k, int(od))); mon::check(cml::pack_axis_order(o.i, odd) == o.o, std::string("pack-axis-order/") + o.n); for(const AO& s : ORD) if(s.i == o.j && s.j == o.i) mon::check(cml::swap_axis_order(o.o) == s.o, std::string("swap-axis-order/") + o.n); }
  int i, j; bool odd; cml::unpack_axis_order2D(cml::axis_order_xy, i, j, odd); mon::check(i == 0 && j == 1 && !odd, "unpack-axis-order-2D/xy"); cml::unpack_axis_order2D(cml::axis_order_yx, i, j, odd); mon::check(i == 1 && j == 0 && odd, "unpack-axis-order-2D/yx"); mon::bin("axis-orders"); mon::mix(g.next());
}
template<class E, class B, class L> struct S { template<int R, int C> using F = matrix<E, fixed<R, C>, B, L>; template<int R, int C> using X = matrix<E, external<R, C>, B, L>; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> XD; };
typedef S<double, col_basis, row_major> A; typedef S<double, row_basis, col_major> B; typedef S<float, col_basis, col_major> C; typedef S<float, row_basis, row_major> D;
template<class E, class O, class X> using Qt = cml::quaternion<E, fixed<>, O, X>; using cml::real_first; using cml::imaginary_first; using cml::positive_cross; using cml::negative_cross;
#define COMMA ,
int main(int argc, char** argv) {
  mon::init(argc, argv);
#define AL(n, k, E, M, Q) mon::group("align-" n, k, align<E, M, Q>)
#define LA(n, k, E, M) mon::group("look-" n, k, lookat<E, M>)
#define PL(n, k, E, M) mon::group("plane-" n, k, plane<E, M>)
  typedef Qt<double, imaginary_first, positive_cross> QA; typedef Qt<double, real_first, negative_cross> QB; typedef Qt<float, real_first, positive_cross> QC; typedef Qt<float, imaginary_first, negative_cross> QD;
#if PART == 0
  AL("a33", 3000, double, A::F<3 COMMA 3>, QA); LA("a44", 3000, double, A::F<4 COMMA 4>); PL("a22", 1000, double, A::F<2 COMMA 2>); mon::group("orders", 5, orders);
#elif PART == 1
  AL("b44", 3000, double, B::F<4 COMMA 4>, QB); LA("b43", 3000, double, B::F<4 COMMA 3>); PL("b33", 1000, double, B::F<3 COMMA 3>);
#elif PART == 2
  AL("c33", 3000, float, C::F<3 COMMA 3>, QC); LA("c34", 3000, float, C::F<3 COMMA 4>); PL("c23", 1000, float, C::F<2 COMMA 3>);
#elif PART == 3
  AL("d43", 3000, float, D::F<4 COMMA 3>, QD); LA("d44", 3000, float, D::F<4 COMMA 4>); PL("d-dyn", 1000, float, D::D);
#elif PART == 4
  AL("a-dyn", 3000, double, A::D, QD); LA("a-dyn", 3000, double, A::D); PL("a-ext", 1000, float, A::XD);
#elif PART == 5
  AL("b-ext", 3000, double, B::XD, QC); LA("b-ext", 3000, float, B::XD); PL("b22x", 1000, double, B::X<2 COMMA 2>);
#elif PART == 6
  AL("c-dyn", 3000, float, C::D, QB); LA("c-dyn", 3000, double, C::D); PL("c-dyn", 1000, float, C::D);
#elif PART == 7
  AL("d-ext", 3000, double, D::XD, QA); LA("d-ext", 3000, float, D::XD); PL("d32", 1000, float, D::F<3 COMMA 2>);
#endif
  return mon::finish();
}
