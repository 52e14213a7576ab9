// C13: every way of building a rotation gives the same rotation, and conversions round-trip.
#include "geo.h"
using namespace geo; using namespace zoo;
template<class E, class O, class C> using Qt = cml::quaternion<E, fixed<>, O, C>;
// the rotation a unit quaternion stands for (vector part is the right-handed axis, whatever the product convention)
template<class Q> R3 qrot(const Q& q) { const ld w = q.w(), x = q.x(), y = q.y(), z = q.z(); R3 r; r(0, 0) = w * w + x * x - y * y - z * z; r(1, 1) = w * w - x * x + y * y - z * z; r(2, 2) = w * w - x * x - y * y + z * z; r(0, 1) = 2 * (x * y - w * z); r(1, 0) = 2 * (x * y + w * z); r(0, 2) = 2 * (x * z + w * y); r(2, 0) = 2 * (x * z - w * y); r(1, 2) = 2 * (y * z - w * x); r(2, 1) = 2 * (y * z + w * x); return r; }
const char* const AK[] = {"general", "zero", "half-turn", "quarter-turn", "near-zero", "near-half-turn", "multi-turn", "negative", "near-quarter-turn"};
ld angle(Rng& g, int& k) { const ld pi = 3.14159265358979323846264338327950288L; k = g.coin(1, 3) ? 0 : g.i(0, 8); switch(k) { default: return g.r(0, 3.1415); case 1: return 0; case 2: return g.coin() ? pi : -pi; case 3: return (g.coin() ? 1 : -1) * pi / 2; case 4: return g.wide(-16, -2); case 5: return (g.coin() ? 1 : -1) * (pi + g.wide(-16, -3)); case 6: return g.r(-40, 40); case 7: return -g.r(0, 3.1415); case 8: return (g.coin() ? 1 : -1) * (pi / 2 + g.wide(-16, -3)); } }
V3 axis(Rng& g) { if(g.coin(1, 4)) { V3 u = {0, 0, 0}; u[g.i(0, 2)] = g.coin() ? 1 : -1; return u; } if(g.coin(1, 6)) { V3 u = unit3(g); u[g.i(0, 2)] = 0; return unit(u); } if(g.coin(1, 6)) { V3 u = {0, 0, 0}; u[g.i(0, 2)] = 1; return unit(u + gauss3(g) * std::pow(10.0L, g.i(-9, -2))); } return unit3(g); }
struct EO { const char* n; cml::euler_order o; int a[3]; };
const EO ORD[] = {{"xyz", cml::euler_order_xyz, {0, 1, 2}}, {"xyx", cml::euler_order_xyx, {0, 1, 0}}, {"xzy", cml::euler_order_xzy, {0, 2, 1}}, {"xzx", cml::euler_order_xzx, {0, 2, 0}}, {"yzx", cml::euler_order_yzx, {1, 2, 0}}, {"yzy", cml::euler_order_yzy, {1, 2, 1}}, {"yxz", cml::euler_order_yxz, {1, 0, 2}}, {"yxy", cml::euler_order_yxy, {1, 0, 1}}, {"zxy", cml::euler_order_zxy, {2, 0, 1}}, {"zxz", cml::euler_order_zxz, {2, 0, 2}}, {"zyx", cml::euler_order_zyx, {2, 1, 0}}, {"zyz", cml::euler_order_zyz, {2, 1, 2}}};
R3 euler(const EO& o, const ld* t) { return about(o.a[2], t[2]) * about(o.a[1], t[1]) * about(o.a[0], t[0]); }   // first named is applied first
template<class T> ld emax(T) { return mon::eps<T>(); }

// checks every conversion out of a rotation held as a matrix and as a quaternion
template<class M, class Q> void convert(const M& m, const Q& q, const R3& r, ld e, const std::string& t, Rng& g) {
  typedef typename M::value_type E; typedef typename Q::value_type F; const ld te = 64 * e;
  auto aa = [&](V3 a, ld th, const std::string& k) { const ld l = len(a); if(l == 0) { near(th, 0, 0, k + "-zero-axis-angle" + t); near(ident(), r, te, k + t); } else { near(l, 1, 32 * e, k + "-axis-length" + t); near(rodrigues(l > 0.5 ? unit(a) : a, th), r, te, k + t, show(a) + fmt(" angle %.17Lg", th)); } };
  { cml::vector<E, fixed<3>> a; E th; cml::matrix_to_axis_angle(m, a, th); aa(v3(a), th, "matrix-to-axis-angle"); cml::vector<double, dynamic<>> b; double d; cml::matrix_to_axis_angle(m, b, d); mon::check(b.size() == 3, "matrix-to-axis-angle-resizes"); aa(v3(b), d, "matrix-to-axis-angle-dynamic"); auto p = cml::matrix_to_axis_angle(m); aa(v3(std::get<0>(p)), std::get<1>(p), "matrix-to-axis-angle-tuple"); auto p2 = cml::matrix_to_axis_angle(m, E(8 * mon::eps<E>())); aa(v3(std::get<0>(p2)), std::get<1>(p2), "matrix-to-axis-angle-tolerance"); mon::check(th >= 0 && th <= E(3.1415928), "matrix-to-axis-angle-range" + t); }
  { cml::vector<F, fixed<3>> a; F th; cml::quaternion_to_axis_angle(q, a, th); aa(v3(a), th, "quaternion-to-axis-angle"); cml::vector<double, dynamic<>> b; double d; cml::quaternion_to_axis_angle(q, b, d); mon::check(b.size() == 3, "quaternion-to-axis-angle-resizes"); aa(v3(b), d, "quaternion-to-axis-angle-dynamic"); auto p = cml::quaternion_to_axis_angle(q); aa(v3(std::get<0>(p)), std::get<1>(p), "quaternion-to-axis-angle-tuple"); auto p2 = cml::quaternion_to_axis_angle(q, F(8 * mon::eps<F>())); aa(v3(std::get<0>(p2)), std::get<1>(p2), "quaternion-to-axis-angle-tolerance"); }
  { Q p; cml::quaternion_rotation_matrix(p, m); near(std::sqrt(ld(p.norm())), 1, 32 * e, "quaternion-from-matrix-length" + t); near(qrot(p), r, te, "quaternion-from-matrix" + t); ld s = p.w() * q.w() + p.x() * q.x() + p.y() * q.y() + p.z() * q.z(); mon::check(std::fabs(std::fabs(s) - 1) < te, "quaternion-from-matrix-same" + t); cml::quaternion_rotation_matrix(p, cml::transpose(m)); near(qrot(p), tr(r), te, "quaternion-from-transpose" + t); mon::bin(ld(r(0, 0) + r(1, 1) + r(2, 2)) >= 0 ? "from-matrix/trace-positive" : r(0, 0) > r(1, 1) && r(0, 0) > r(2, 2) ? "from-matrix/x-largest" : r(1, 1) > r(2, 2) ? "from-matrix/y-largest" : "from-matrix/z-largest"); }
  for(const EO& o : {ORD[g.i(0, 11)], ORD[g.i(0, 11)], ORD[g.i(0, 11)]}) {
    const std::string k = std::string("/") + o.n + t; auto back = [&](ld a, ld b, ld c, const char* n) { const ld x[3] = {a, b, c}; near(euler(o, x), r, te, std::string(n) + k, fmt("angles %.17Lg %.17Lg %.17Lg", a, b, c)); };
    E a, b, c; cml::matrix_to_euler(m, a, b, c, o.o); back(a, b, c, "matrix-to-euler"); auto v = cml::matrix_to_euler(m, o.o); back(v[0], v[1], v[2], "matrix-to-euler-vector"); auto w = cml::matrix_to_euler<cml::vector<double, dynamic<>>>(m, o.o); back(w[0], w[1], w[2], "matrix-to-euler-dynamic"); auto x = cml::matrix_to_euler(m, o.o, E(4 * mon::eps<E>())); back(x[0], x[1], x[2], "matrix-to-euler-tolerance");
    F d, f, h; cml::quaternion_to_euler(q, d, f, h, o.o); back(d, f, h, "quaternion-to-euler"); auto y = cml::quaternion_to_euler(q, o.o); back(y[0], y[1], y[2], "quaternion-to-euler-vector"); auto z = cml::quaternion_to_euler<cml::vector<double, dynamic<>>>(q, o.o); back(z[0], z[1], z[2], "quaternion-to-euler-dynamic");
    mon::bin(std::string("to-euler/") + o.n);
  }
}
template<class M, class Q> void rot(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; typedef typename Q::value_type F; const ld e = std::max(mon::eps<E>(), mon::eps<F>()); const ld te = 32 * e;
  int ak; const V3 u0 = axis(g); const E th = E(angle(g, ak)); const auto u = mkv<cml::vector<E, fixed<3>>>(u0); const V3 ur = unit(v3(u)); const ld ang = th; const std::string t = std::string("/") + AK[ak];
  mon::bin(std::string("angle/") + AK[ak]); for(int i = 0; i < 3; ++i) mon::mixd(double(u[i])); mon::mixd(double(th)); if(mon::noting()) mon::note(fmt("%s %s axis ", H::tag(), bname<typename H::basis>()) + show(ur) + fmt(" angle %.17Lg", ang));
  auto ckm = [&](const M& m, const R3& r, const std::string& k) { R3 l = linear(m); near(l, r, te, k + t); near(l * tr(l), ident(), te, k + "-orthonormal" + t); near(det(l), 1, te, k + "-determinant" + t); mon::check(rest_identity(m, 3), k + "-rest-is-identity", showm(m)); };
  auto ckq = [&](const Q& q, const R3& r, const std::string& k) { near(std::sqrt(ld(q.w()) * q.w() + ld(q.x()) * q.x() + ld(q.y()) * q.y() + ld(q.z()) * q.z()), 1, te, k + "-length" + t); near(qrot(q), r, te, k + t); };
  const R3 r = rodrigues(ur, ang);
  auto h = junk<M>(g, 3, 3); M& m = h->m; Q q(F(9), F(8), F(7), F(6));
  // axis-angle
  cml::matrix_rotation_axis_angle(m, u, th); ckm(m, r, "matrix-axis-angle"); near(linear(m) * ur, ur, te, "axis-fixed" + t);
  cml::quaternion_rotation_axis_angle(q, u, F(th)); const R3 rq = rodrigues(ur, F(th)); ckq(q, rq, "quaternion-axis-angle");
  { V3 w = unit3(g); V3 p = unit(cross(ur, w)); if(len(cross(ur, w)) > 0.1) { V3 i = linear(m) * p; near(std::atan2(dot(cross(p, i), ur), dot(p, i)) , std::remainder(ang, 6.283185307179586476925286766559L), std::fabs(std::remainder(ang, 6.283185307179586476925286766559L)) > 3.14 ? 7 : 64 * e, "right-handed-turn" + t); }
    auto v = mkv<cml::vector<E, dynamic<>>>(u0); auto h2 = junk<M>(g, 3, 3); cml::matrix_rotation_axis_angle(h2->m, v, th); ckm(h2->m, r, "matrix-axis-angle-dynamic"); cml::matrix_rotation_axis_angle(h2->m, -(-u), th); ckm(h2->m, r, "matrix-axis-angle-expression"); cml::matrix_rotation_axis_angle(h2->m, -u, -th); ckm(h2->m, r, "matrix-axis-angle-negated"); Q qn; cml::quaternion_rotation_axis_angle(qn, -v, F(-th)); ckq(qn, rq, "quaternion-axis-angle-negated"); }
  // images of vectors
  { V3 x = gauss3(g); auto xv = mkv<cml::vector<E, fixed<3>>>(x); V3 y = r * v3(xv); near(v3(cml::transform_vector(m, xv)), y, te * 4 * len(x), "transform-vector" + t); near(v3(cml::rotate_vector(xv, u, th)), y, te * 4 * len(x), "rotate-vector" + t);
    Q p(mkv<cml::vector<F, fixed<3>>>(x), F(0)); const bool pos = std::is_same<typename Q::cross_type, cml::positive_cross>::value; Q z = pos ? q * p * cml::conjugate(q) : cml::conjugate(q) * p * q; near(v3(cml::imaginary(z)), rq * v3(mkv<cml::vector<F, fixed<3>>>(x)), te * 8 * (len(x) + 1), "quaternion-conjugation" + t); }
  // world axes
  { const int a = g.i(0, 2); const R3 w = about(a, ang); auto k = junk<M>(g, 3, 3); cml::matrix_rotation_world_axis(k->m, a, th); ckm(k->m, w, "matrix-world-axis"); auto k2 = junk<M>(g, 3, 3); if(a == 0) cml::matrix_rotation_world_x(k2->m, th); else if(a == 1) cml::matrix_rotation_world_y(k2->m, th); else cml::matrix_rotation_world_z(k2->m, th); ckm(k2->m, w, fmt("matrix-world-%c", 'x' + a));
    Q p(F(9), F(8), F(7), F(6)); const R3 wq = about(a, F(th)); cml::quaternion_rotation_world_axis(p, a, F(th)); ckq(p, wq, "quaternion-world-axis"); p = Q(F(9), F(8), F(7), F(6)); if(a == 0) cml::quaternion_rotation_world_x(p, F(th)); else if(a == 1) cml::quaternion_rotation_world_y(p, F(th)); else cml::quaternion_rotation_world_z(p, F(th)); ckq(p, wq, fmt("quaternion-world-%c", 'x' + a));
    bool x = false; try { cml::matrix_rotation_world_axis(k->m, g.coin() ? 3 : -1, th); } catch(const std::invalid_argument&) { x = true; } mon::check(x, "matrix-world-axis-rejects"); x = false; try { cml::quaternion_rotation_world_axis(p, g.coin() ? 3 : -1, F(th)); } catch(const std::invalid_argument&) { x = true; } mon::check(x, "quaternion-world-axis-rejects"); }
  // quaternion -> matrix, basis vectors
  { auto k = junk<M>(g, 3, 3); cml::matrix_rotation_quaternion(k->m, q); ckm(k->m, rq, "matrix-from-quaternion"); cml::matrix_rotation_quaternion(k->m, cml::conjugate(q)); ckm(k->m, tr(rq), "matrix-from-conjugate"); cml::matrix_rotation_quaternion(k->m, -q); ckm(k->m, rq, "matrix-from-negated-quaternion");
    for(int i = 0; i < 3; ++i) near(v3(cml::quaternion_get_basis_vector(q, i)), col(rq, i), te, "quaternion-basis-vector" + t); near(v3(cml::quaternion_get_x_basis_vector(q)), col(rq, 0), te, "quaternion-x-basis" + t); near(v3(cml::quaternion_get_y_basis_vector(q)), col(rq, 1), te, "quaternion-y-basis" + t); near(v3(cml::quaternion_get_z_basis_vector(-q)), col(rq, 2), te, "quaternion-z-basis" + t);
    cml::vector<F, fixed<3>> x, y; cml::vector<double, dynamic<>> z; cml::quaternion_get_basis_vectors(q, x, y, z); near(v3(x), col(rq, 0), te, "quaternion-basis-vectors" + t); near(v3(y), col(rq, 1), te, "quaternion-basis-vectors" + t); near(v3(z), col(rq, 2), te, "quaternion-basis-vectors" + t); bool th2 = false; try { cml::quaternion_get_basis_vector(q, g.coin() ? 3 : -1); } catch(const std::invalid_argument&) { th2 = true; } mon::check(th2, "quaternion-basis-vector-rejects"); }
  convert(m, q, rq, e, t, g);
  // composition: the first rotation applied first
  { int k2; const V3 v0 = axis(g); const F th2 = F(angle(g, k2)); auto v = mkv<cml::vector<F, fixed<3>>>(v0); Q p; cml::quaternion_rotation_axis_angle(p, v, th2); const R3 both = rodrigues(unit(v3(v)), th2) * rq; const bool pos = std::is_same<typename Q::cross_type, cml::positive_cross>::value; Q c = pos ? p * q : q * p; ckq(c, both, "composed-quaternions");
    cml::matrix<F, fixed<3, 3>, typename H::basis, typename H::layout> a, b; cml::matrix_rotation_quaternion(a, q); cml::matrix_rotation_quaternion(b, p); auto ab = cml::matrix_concat(a, b); near(linear(ab), both, te, "composed-matrices" + t); auto dyn = junk<M>(g, 3, 3); cml::matrix_rotation_quaternion(dyn->m, c); ckm(dyn->m, both, "matrix-from-composed"); convert(dyn->m, c, both, 2 * e, "/composed", g); }
}
template<class M, class Q> void eulers(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; typedef typename Q::value_type F; const ld e = std::max(mon::eps<E>(), mon::eps<F>()), te = 32 * e; const EO& o = ORD[g.i(0, 11)]; int ak[3]; cml::vector<F, fixed<3>> a; for(int i = 0; i < 3; ++i) { a[i] = F(angle(g, ak[i])); mon::mixd(double(a[i])); } mon::mix(o.o);
  const std::string t = std::string("/") + o.n; mon::bin(std::string("euler/") + o.n); const bool rep = o.a[0] == o.a[2]; if(rep ? ak[1] == 1 || ak[1] == 2 : ak[1] == 3) mon::bin("euler/gimbal-lock"); if(rep ? ak[1] == 4 || ak[1] == 5 : ak[1] == 8) mon::bin("euler/near-gimbal-lock");
  const ld x[3] = {a[0], a[1], a[2]}; const R3 r = euler(o, x); if(mon::noting()) mon::note(fmt("%s %Lg %Lg %Lg", o.n, x[0], x[1], x[2]));
  auto ckm = [&](const M& m, const R3& w, const std::string& k) { R3 l = linear(m); near(l, w, te, k + t, show(v3(a))); mon::check(rest_identity(m, 3), k + "-rest-is-identity", showm(m)); }; auto ckq = [&](const Q& q, const std::string& k) { near(std::sqrt(ld(q.norm())), 1, te, k + "-length" + t); near(qrot(q), r, te, k + t, show(v3(a))); };
  auto h = junk<M>(g, 3, 3); cml::matrix_rotation_euler(h->m, a[0], a[1], a[2], o.o); ckm(h->m, r, "matrix-euler"); { auto k = junk<M>(g, 3, 3); cml::matrix_rotation_euler(k->m, a, o.o); ckm(k->m, r, "matrix-euler-vector"); cml::vector<F, dynamic<>> d(a); cml::matrix_rotation_euler(k->m, d + d - d, o.o); ckm(k->m, r, "matrix-euler-expression"); const double d0 = a[0]; cml::matrix_rotation_euler(k->m, d0, a[1], (long double) a[2], o.o); ckm(k->m, r, "matrix-euler-mixed"); near(linear(k->m) * tr(linear(k->m)), ident(), te, "matrix-euler-orthonormal" + t); near(det(linear(k->m)), 1, te, "matrix-euler-determinant" + t); }
  Q q(F(9), F(8), F(7), F(6)); cml::quaternion_rotation_euler(q, a[0], a[1], a[2], o.o); ckq(q, "quaternion-euler"); { Q p; cml::quaternion_rotation_euler(p, a, o.o); ckq(p, "quaternion-euler-vector"); cml::vector<F, dynamic<>> d(a); cml::quaternion_rotation_euler(p, d + d - d, o.o); ckq(p, "quaternion-euler-expression"); cml::quaternion_rotation_euler(p, double(a[0]), a[1], a[2], o.o); ckq(p, "quaternion-euler-mixed"); }
  // angles -> rotation -> angles in the same order
  { const ld te2 = 64 * e; auto back = [&](ld p, ld q2, ld s, const char* n) { const ld y[3] = {p, q2, s}; near(euler(o, y), r, te2, std::string(n) + t, fmt("angles %.17Lg %.17Lg %.17Lg from ", p, q2, s) + show(v3(a))); }; E p, q2, s; cml::matrix_to_euler(h->m, p, q2, s, o.o); back(p, q2, s, "euler-matrix-euler"); auto v = cml::quaternion_to_euler(q, o.o); back(v[0], v[1], v[2], "euler-quaternion-euler");
    if(ak[0] == 0 && ak[2] == 0 && (rep ? ak[1] == 0 && std::fabs(std::sin(x[1])) > 0.1 : std::fabs(std::cos(x[1])) > 0.1 && x[1] < 1.57 && x[1] > 0) && !(o.o & 2)) { mon::bin("euler/angles-recovered"); near(v3(v), v3(a), 64 * e / 0.1, "angles-recovered" + t); } }
  convert(h->m, q, r, e, "/from-euler", g);
  // derivatives
  for(int i = -1; i < 4; ++i) {
    auto k = junk<M>(g, 3, 3); bool threw = false; try { if(g.coin()) cml::matrix_rotation_euler_derivatives(k->m, i, a[0], a[1], a[2], o.o); else cml::matrix_rotation_euler_derivatives(k->m, i, a, o.o); } catch(const std::invalid_argument&) { threw = true; }
    mon::check(threw == (i < 0 || i > 2 || rep), "euler-derivative-rejects" + t); if(threw) { mon::bin("derivative/rejected"); continue; }
    R3 d[3]; for(int j = 0; j < 3; ++j) d[j] = j == i ? dabout(o.a[j], x[j]) : about(o.a[j], x[j]); ckm(k->m, d[2] * d[1] * d[0], fmt("euler-derivative-%d", i)); mon::bin("derivative/computed");
  }
}
template<class M> void plane(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; int ak; const E th = E(angle(g, ak)); const ld c = std::cos(ld(th)), s = std::sin(ld(th)), te = 8 * mon::eps<E>(); mon::mixd(double(th)); const std::string t = std::string("/") + AK[ak]; auto h = junk<M>(g, 2, 2); cml::matrix_rotation_2D(h->m, th); const M& m = h->m; const bool row = std::is_same<typename H::basis, row_basis>::value;
  near(m(0, 0), c, te, "rotation-2D" + t); near(m(1, 1), c, te, "rotation-2D" + t); near(row ? m(0, 1) : m(1, 0), s, te, "rotation-2D" + t); near(row ? m(1, 0) : m(0, 1), -s, te, "rotation-2D" + t); mon::check(rest_identity(m, 2), "rotation-2D-rest-is-identity"); mon::bin("plane");
  cml::vector<E, fixed<2>> v(E(g.gauss()), E(g.gauss())); auto w = cml::transform_vector_2D(m, v); near(w[0], c * v[0] - s * v[1], te * 8, "transform-2D" + t); near(w[1], s * v[0] + c * v[1], te * 8, "transform-2D" + t);
}
template<class E, class B, class L> struct S { template<int R, int C> using F = matrix<E, fixed<R, C>, B, L>; template<int R, int C> using X = matrix<E, external<R, C>, B, L>; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> XD; };
int main(int argc, char** argv) {
  mon::init(argc, argv);
  typedef S<double, col_basis, row_major> A; typedef S<double, row_basis, col_major> B; typedef S<float, col_basis, col_major> C; typedef S<float, row_basis, row_major> D; using cml::real_first; using cml::imaginary_first; using cml::positive_cross; using cml::negative_cross;
  typedef Qt<double, imaginary_first, positive_cross> QA; typedef Qt<double, real_first, negative_cross> QB; typedef Qt<float, real_first, positive_cross> QC; typedef Qt<float, imaginary_first, negative_cross> QD; typedef Qt<double, real_first, positive_cross> QE; typedef Qt<double, imaginary_first, negative_cross> QF;
#define BOTH(n, M, Q, k) mon::group("rot-" n, k, rot<M, Q>); mon::group("euler-" n, k, eulers<M, Q>)
#define COMMA ,
#if PART == 0
  BOTH("a33", A::F<3 COMMA 3>, QA, 1500);
#elif PART == 1
  BOTH("b44", B::F<4 COMMA 4>, QB, 1500);
#elif PART == 2
  BOTH("c33", C::F<3 COMMA 3>, QC, 1500);
#elif PART == 3
  BOTH("d44", D::X<4 COMMA 4>, QD, 1500);
#elif PART == 4
  BOTH("a34", A::F<3 COMMA 4>, QE, 1000);
#elif PART == 5
  BOTH("b43", B::X<4 COMMA 3>, QF, 1000);
#elif PART == 6
  BOTH("adyn", A::D, QB, 1000);
#elif PART == 7
  BOTH("bext", B::XD, QA, 1000);
#elif PART == 8
  BOTH("cdyn", C::D, QE, 1000);
#elif PART == 9
  BOTH("dext", D::XD, QC, 1000);
#elif PART == 10
  BOTH("a33f", A::F<3 COMMA 3>, QD, 1000);
#elif PART == 11
  mon::group("2d-a", 500, plane<A::F<2, 2>>); mon::group("2d-b", 500, plane<B::F<3, 3>>); mon::group("2d-c", 500, plane<C::F<2, 3>>); mon::group("2d-d", 500, plane<D::X<3, 2>>); mon::group("2d-dyn", 500, plane<A::D>); mon::group("2d-ext", 500, plane<D::XD>);
  BOTH("b33", B::F<3 COMMA 3>, QA, 700);
#endif
  return mon::finish();
}
