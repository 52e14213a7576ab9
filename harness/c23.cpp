// C23: threads on their own objects and on shared constant ones: every thread's record equals the record of the same work done alone, and ThreadSanitizer sees no race.
#include "prog.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <sstream>
#include <thread>
using mon::Worker; using mon::u64;
#include "pace.h"
using pace::noise;
static std::atomic<long> ticket{0};
static std::atomic<int> gate{0};
static void paced(Worker& w) { w.order.push_back({ticket.fetch_add(1, std::memory_order_relaxed), w.id}); noise(4); }

static void perform(Worker& w, const std::vector<std::function<void(Rng&)>>& list, const std::vector<int>& pick, u64 seed, bool thread) {
  mon::tl = &w; if(thread) { w.hook = paced; pace::state = seed | 1; }
  for(int k : pick) { Rng g(mon::hmix(seed, u64(k))); w.op(u64(k) << 20); try { list[k](g); } catch(const std::exception& e) { w.op(mon::hstr(typeid(e).name())); } }
  pace::state = 0; mon::tl = nullptr;
}
// n threads, each doing some of the list; then the same alone, in another order of threads
static void together(Rng& g, const std::vector<std::function<void(Rng&)>>& list) {
  const int n = g.i(2, 6); std::vector<std::vector<int>> pick(n); std::vector<u64> seed(n); const bool twins = g.coin(1, 3); const u64 common = g.next();
  for(int i = 0; i < n; ++i) { seed[i] = twins ? common : g.next(); const int k = g.i(1, std::min<int>(4, int(list.size()))); for(int j = 0; j < k; ++j) pick[i].push_back(g.i(0, int(list.size()) - 1)); mon::mix(seed[i]); }
  if(twins) for(int i = 1; i < n; ++i) pick[i] = pick[0];
  std::vector<Worker> w(n), a(n); for(int i = 0; i < n; ++i) w[i].id = a[i].id = i; gate.store(n); ticket.store(0);
  { std::vector<std::thread> t; for(int i = 0; i < n; ++i) t.emplace_back([&, i] { gate.fetch_sub(1, std::memory_order_relaxed); while(gate.load(std::memory_order_relaxed) > 0) sched_yield(); perform(w[i], list, pick[i], seed[i], true); }); for(auto& x : t) x.join(); }
  for(int i = n - 1; i >= 0; --i) perform(a[i], list, pick[i], seed[i], false);
  long ops = 0; for(int i = 0; i < n; ++i) {
    ops += long(w[i].ops.size()); mon::ev(w[i].rec.size() + 1); bool same = w[i].rec.size() == a[i].rec.size(); size_t k = 0; if(same) for(; k < w[i].rec.size(); ++k) if(!(w[i].rec[k] == a[i].rec[k] || (std::isnan(w[i].rec[k]) && std::isnan(a[i].rec[k])))) { same = false; break; }
    if(!same) mon::fail("differs-from-work-done-alone", fmt("thread %d of %d: %zu and %zu numbers, first difference at %zu: %.17Lg and %.17Lg", i, n, w[i].rec.size(), a[i].rec.size(), k, k < w[i].rec.size() ? w[i].rec[k] : 0, k < a[i].rec.size() ? a[i].rec[k] : 0));
  }
  std::vector<std::pair<long, int>> o; for(auto& x : w) o.insert(o.end(), x.order.begin(), x.order.end()); std::sort(o.begin(), o.end()); long sw = 0; for(size_t k = 1; k < o.size(); ++k) sw += o[k].second != o[k - 1].second; for(auto& x : o) mon::mix(u64(x.second) + 17);
  mon::bin("threads/operations", ops); mon::bin("threads/switches-between-threads", sw); mon::bin(twins ? "threads/same-work" : "threads/different-work"); mon::bin(fmt("threads/%d", n)); if(sw == 0) mon::trivial(); if(mon::noting()) mon::note(fmt("%d threads, %ld operations, %ld switches", n, ops, sw));
}
// ---- fixed-size programs ----
template<class X> long hashed(const X& x) { std::ostringstream o; o << x; return long(mon::hstr(o.str().c_str()) >> 20); }
template<class V> void fixed_vectors(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; constexpr int N = H::N_; H a(seq<E>(g, N)), b(seq<E>(g, N)); typedef vector<E, fixed<N>> F; F f(a.v + b.v); rv("sum", f); rv("scaled", E(3) * f - b.v / E(2)); rs("dot", cml::dot(a.v, b.v)); rm("outer", cml::outer(a.v, b.v)); rs("text", hashed(a.v)); rs("hash", long(std::hash<F>()(f) >> 20)); rs("less", int(f < b.v)); rv("list", vector<double, fixed<2>>(1, 2));
  f.minimize(b.v); rv("min", f); f += a.v; f.zero(); f.cardinal(N - 1); rv("cardinal", f); a.v = b.v; a.v *= E(2); rv("assign", a.v); F c = a.v; rv("copy", c); rs("equal", int(c == a.v));
  if constexpr(std::is_floating_point<E>::value) { c.normalize(); rv("normalize", c); rs("length", b.v.length()); rv("unit", cml::normalize(b.v)); rv("project", cml::project_to_hplane(b.v, c)); std::mt19937 e(unsigned(g.next())); cml::random_unit(c, e); rv("random", c); }
  if constexpr(N == 3) { rv("cross", cml::cross(a.v, b.v)); rs("triple", cml::triple_product(a.v, b.v, f)); } if constexpr(N == 2) { rv("perp", cml::perp(a.v)); rs("perp-dot", cml::perp_dot(a.v, b.v)); }
  if constexpr(N == 3 && std::is_floating_point<E>::value) { F n(b.v); n.normalize(); rv("rotate", cml::rotate_vector(a.v, n, E(1.25))); rs("angle", cml::signed_angle(a.v + n, b.v, f)); F x, y, z; cml::orthonormal_basis(a.v + F(E(9), E(1), E(0)), b.v, x, y, z, true, cml::axis_order_zxy); rv("basis", z); E r, t, p; cml::cartesian_to_spherical(b.v, 1, cml::colatitude, r, t, p); cml::spherical_to_cartesian(x, 1, cml::colatitude, r, t, p); rv("spherical", x); }
}
template<class M> void fixed_matrices(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; typedef typename H::basis B; typedef typename H::layout L; constexpr int N = H::R_; typedef matrix<E, fixed<N, N>, B, L> F; RM<E> ra = arr<E>(g, N, N), rb = arr<E>(g, N, N); for(int i = 0; i < N; ++i) ra(i, i) += E(20); H a(ra), b(rb); vector<E, fixed<N>> x; { auto s = seq<E>(g, N); for(int i = 0; i < N; ++i) x[i] = s[i]; }
  F f(a.m + b.m); rm("sum", f); rm("product", a.m * b.m); rm("chain", cml::transpose(a.m) * b.m - f / E(2)); rv("vector", a.m * x); rv("row-vector", x * a.m); rs("trace", cml::trace(a.m)); rs("determinant", N <= 4 || std::is_floating_point<E>::value ? cml::determinant(a.m) : E(0)); rs("text", hashed(b.m)); rv("row", cml::row(a.m, N - 1)); rv("column", cml::col(a.m, 0)); f.transpose(); f *= E(2); f -= b.m; rm("update", f); f.identity(); f = a.m; rm("assign", f); rs("equal", int(f == a.m));
  if constexpr(std::is_floating_point<E>::value) { rm("inverse", cml::inverse(a.m)); f.inverse(); rm("in-place", f); auto lu = cml::lu(a.m); rm("lu", lu); auto lp = cml::lu_pivot(a.m); rv("solve", cml::lu_solve(lp, x)); rv("solve-plain", cml::lu_solve(lu, x)); }
}
template<class E, class B, class L> void fixed_builders(Rng& g) {
  typedef matrix<E, fixed<4, 4>, B, L> M; typedef vector<E, fixed<3>> V; auto vec = [&] { return V(E(g.r(1, 4)), E(g.r(-4, 4)), E(g.r(-4, -1))); }; M m, k; V a = vec(), b = vec(), n = vec(); n.normalize(); const E t = E(g.r(-3, 3)); auto o = g.coin() ? cml::euler_order_xyz : cml::euler_order_zxz; 
  cml::matrix_rotation_axis_angle(m, n, t); rm("axis", m); { V ax; E an; cml::matrix_to_axis_angle(m, ax, an); rv("to-axis", ax); rs("to-angle", an); } cml::matrix_rotation_euler(m, t, t / 2, t / 3, o); rm("euler", m); rv("to-euler", matrix_to_euler<V>(m, o)); cml::matrix_rotation_align(m, a, b); rm("align", m); cml::matrix_rotation_aim_at(m, a, b, n); rm("aim", m); cml::matrix_look_at_RH(m, a, b, n); rm("look", m); cml::matrix_invert_RT(m); rm("invert", m); cml::matrix_affine_transform(m, n, t, b); rm("affine", m); rv("point", cml::transform_point(m, a)); rv("transform", cml::transform_vector(m, a));
  cml::matrix_perspective_xfov_LH(k, E(1), E(1.5), E(1), E(9), cml::z_clip_zero); rm("perspective", k); rm("concat", cml::matrix_concat(m, k)); E pl[6][4]; cml::extract_frustum_planes(m, k, pl, cml::z_clip_zero, true); for(auto& q : pl) for(E e : q) num(e); cml::matrix_scale(m, a); rm("scale", m); cml::matrix_rotation_2D(m, t); rm("2D", m); cml::matrix_orthographic_LH(m, E(2), E(3), E(1), E(9), cml::z_clip_neg_one); rm("orthographic", m);
}
template<class Q> void quats(Rng& g) {
  typedef cml::value_type_of_t<Q> E; typedef vector<E, fixed<3>> V; auto quat = [&] { auto s = seq<E>(g, 4); Q q; for(int i = 0; i < 4; ++i) q[i] = s[i] + E(i == 0 ? 5 : 0); return q; }; Q p = quat(), q = quat(); V a(E(1), E(2), E(g.r(-3, 3))), b(E(2), E(g.r(1, 2)), E(0.5)), n(b); n.normalize(); const E t = E(g.r(-2, 2)); Q r(p * q); rq("product", r); rq("sum", p + q * E(2)); rq("conjugate", cml::conjugate(p)); rq("inverse", cml::inverse(p)); rs("dot", cml::dot(p, q)); rs("text", hashed(p)); r.normalize(); rq("normalize", r); rq("exp", cml::exp(p / E(9))); rq("log", cml::log(r)); rv("imaginary", cml::imaginary(p)); rs("real", cml::real(p)); rs("less", int(p < q)); r *= p; r.conjugate(); r.inverse(); rq("update", r); r.identity(); rq("identity", r);
  Q u = p, v = q; u.normalize(); v.normalize(); cml::quaternion_rotation_axis_angle(r, n, t); rq("axis-angle", r); V ax; E an; cml::quaternion_to_axis_angle(r, ax, an); rv("axis", ax); rs("angle", an); cml::quaternion_rotation_align(r, a, b); rq("align", r); cml::quaternion_rotation_euler(r, t, t / 2, t / 3, cml::euler_order_zyx); rq("euler", r); rv("to-euler", quaternion_to_euler<V>(r, cml::euler_order_zyx)); matrix<E, fixed<3, 3>> m; cml::matrix_rotation_quaternion(m, r); rm("matrix", m); cml::quaternion_rotation_matrix(r, m); rq("from-matrix", r);
}
// ---- shared constant operands: every thread only reads them ----
template<class E> struct Shared {
  VH<vector<E, fixed<3>>> f; VH<vector<E, dynamic<>>> d; VH<vector<E, external<3>>> x; VH<vector<const E, external<>>> c; const std::vector<E> raw; const E s; MH<matrix<E, fixed<3, 3>, row_basis, row_major>> m; MH<matrix<E, dynamic<>, row_basis, col_major>> md; MH<matrix<E, external<>, row_basis, row_major>> mx; cml::quaternion<E, fixed<>> q;
  static RM<E> dom(Rng& g) { RM<E> r = arr<E>(g, 3, 3); for(int i = 0; i < 3; ++i) r(i, i) += E(15); return r; }
  explicit Shared(Rng& g) : f(seq<E>(g, 3)), d(seq<E>(g, 3)), x(seq<E>(g, 3)), c(seq<E>(g, 3)), raw(seq<E>(g, 9)), s(E(g.i(1, 5))), m(dom(g)), md(dom(g)), mx(dom(g)), q(E(1), E(2), E(g.i(-3, 3)), E(4)) {}
};
template<class E> void shared(Rng& g0) {
  const Shared<E> S(g0); const auto& f = S.f.v; const auto& d = S.d.v; const auto& x = S.x.v; const auto& c = S.c.v; const auto& m = S.m.m; const auto& md = S.md.m; const auto& mx = S.mx.m; const auto& q = S.q;
  // shared expression nodes and a shared factorization, all read through const references
  const auto sum = f + x; const auto deep = E(2) * (f + d) - x / E(2); const auto mul = m * E(3) + m; const auto tr = cml::transpose(m); const auto r1 = cml::row(m, 1); const auto lp = [&] { if constexpr(std::is_floating_point<E>::value) return cml::lu_pivot(m); else return 0; }(); const auto ot = cml::outer(f, x);
  std::vector<std::function<void(Rng&)>> list = {
    [&](Rng&) { rv("sum", sum); rv("deep", deep); rv("sum-of-nodes", sum + deep); vector<E, dynamic<>> t(deep); rv("copy", t); t = sum; t += deep; rv("update", t); rs("dot", cml::dot(sum, deep)); },
    [&](Rng&) { rv("mixed", f + d); rv("mixed-2", x - c); rs("dot", cml::dot(d, c)); rv("cross", cml::cross(d, f)); rm("outer", cml::outer(c, d)); rs("triple", cml::triple_product(f, d, x)); rs("length2", d.length_squared()); rs("text", hashed(d)); rs("text-2", hashed(c)); rs("equal", int(d == f)); },
    [&](Rng&) { rm("mul", mul); rm("transpose", tr); rv("row", r1); rm("outer", ot); matrix<E, fixed<3, 3>, row_basis, row_major> t(mul); t += tr; t -= ot; rm("update", t); rv("row-product", tr * f); rm("product", tr * m); rs("trace", cml::trace(mul)); },
    [&](Rng&) { rm("dynamic", md * E(2)); rm("product", mx * m); rm("square", md * md); rv("vector", m * d); rv("left", x * mx); rs("determinant", cml::determinant(md)); rs("determinant-fixed", cml::determinant(m)); rs("determinant-node", cml::determinant(mul)); rs("text", hashed(md)); rv("column", cml::col(mx, 2)); },
    [&](Rng&) { vector<E, fixed<3>> t(f); t = d; t = x; t = c; t += c; rv("assign", t); vector<E, dynamic<>> u(d); u = f; u = d; rv("dynamic", u); matrix<E, fixed<3, 3>, row_basis, row_major> k(m); k = mx; rm("matrix", k); matrix<E, dynamic<>, row_basis, col_major> n(md); n = md; rm("matrix-dynamic", n); vector<E, external<3>> p(S.x.b.get()); rs("view", p[2]); vector<const E, external<3>> y(S.raw.data()); rv("raw", y); },
  };
  if constexpr(std::is_floating_point<E>::value) {
    list.push_back([&](Rng&) { rv("solve", cml::lu_solve(lp, f)); rv("solve-dynamic", cml::lu_solve(lp, d)); rm("inverse", cml::inverse(m)); rm("inverse-dynamic", cml::inverse(md)); rm("inverse-external", cml::inverse(mx)); rm("lu", cml::lu(md)); rs("sign", lp.sign); rm("inverse-node", cml::inverse(mul)); });
    list.push_back([&](Rng&) { rq("product", q * q); rq("inverse", cml::inverse(q)); rs("norm", q.length()); rq("conjugate", cml::conjugate(q) + q); rs("text", hashed(q)); rq("exp", cml::exp(q / E(5))); rv("imaginary", cml::imaginary(q)); rs("dot", cml::dot(q, q)); cml::quaternion<E, fixed<>> u(q); u.normalize(); matrix<E, fixed<3, 3>> k; cml::matrix_rotation_quaternion(k, u); rm("matrix", k); });
    list.push_back([&](Rng&) { rv("unit", d.normalize()); rv("unit-2", cml::normalize(f)); rs("angle", cml::unsigned_angle(d, x)); rs("length", x.length()); rv("project", cml::project_to_hplane(d, cml::normalize(f))); matrix<E, fixed<3, 3>, row_basis, row_major> k; cml::matrix_rotation_align(k, d, x); rm("align", k); cml::matrix_rotation_axis_angle(k, cml::normalize(d), S.s); rm("axis", k); matrix<E, dynamic<>, row_basis, row_major> a(4, 4); cml::matrix_translation(a, d); rm("translation", a); rv("point", cml::transform_point(a, x)); rv("basis", cml::matrix_get_basis_vector(mx, 1)); vector<E, fixed<3>> b0, b1, b2; cml::orthonormal_basis(d, f, b0, b1, b2); rv("orthonormal", b1); E r, t, p; cml::cartesian_to_spherical(d, 0, cml::latitude, r, t, p); rs("radius", r); });
  }
  if(g0.coin(1, 3)) { const int only = g0.i(0, int(list.size()) - 1); const auto one = list[only]; list = {one}; }
  mon::bin("shared/constant-operands"); together(g0, list);
  auto eq = [](const auto& a, const auto& b) { for(int i = 0; i < a.size(); ++i) if(!(a[i] == b[i])) return false; return true; }; mon::check(eq(sum, f + x), "shared-operands-unchanged");
}
static void own(Rng& g, std::vector<std::function<void(Rng&)>> list) { if(g.coin()) { const auto one = list[g.i(0, int(list.size()) - 1)]; list = {one}; } mon::bin("own/objects"); together(g, list); }
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("own/vectors", 60, [](Rng& g) { own(g, {vectors<int>, vectors<double>, vectors_lists<int>, vectors_lists<float>}); });
#elif PART == 1
  mon::group("own/matrices", 60, [](Rng& g) { own(g, {matrices<double, col_basis, col_major>, matrices<float, row_basis, row_major>}); });
#elif PART == 2
  mon::group("own/builders", 50, [](Rng& g) { own(g, {builders<double, col_basis, row_major>, builders<float, row_basis, col_major>}); });
#elif PART == 3
  mon::group("own/fixed-vectors", 60, [](Rng& g) { own(g, {fixed_vectors<vector<double, fixed<2>>>, fixed_vectors<vector<double, fixed<3>>>, fixed_vectors<vector<float, fixed<4>>>, fixed_vectors<vector<int, fixed<3>>>, fixed_vectors<vector<double, external<3>>>, fixed_vectors<vector<double, external<5>>>}); });
  mon::group("own/quaternions", 60, [](Rng& g) { own(g, {quats<cml::quaternion<double, fixed<>, cml::imaginary_first, cml::positive_cross>>, quats<cml::quaternion<double, fixed<>, cml::real_first, cml::positive_cross>>, quats<cml::quaternion<float, fixed<>, cml::imaginary_first, cml::negative_cross>>}); });
#elif PART == 4
  mon::group("own/fixed-matrices", 60, [](Rng& g) { own(g, {fixed_matrices<matrix<double, fixed<2, 2>, row_basis, row_major>>, fixed_matrices<matrix<double, fixed<3, 3>, col_basis, row_major>>, fixed_matrices<matrix<float, fixed<4, 4>, row_basis, col_major>>, fixed_matrices<matrix<int, fixed<3, 3>, col_basis, col_major>>, fixed_matrices<matrix<double, fixed<5, 5>, col_basis, col_major>>, fixed_matrices<matrix<double, external<4, 4>, col_basis, row_major>>}); });
  mon::group("own/fixed-builders", 60, [](Rng& g) { own(g, {fixed_builders<double, row_basis, row_major>, fixed_builders<double, col_basis, col_major>, fixed_builders<float, col_basis, row_major>}); });
#else
  mon::group("shared/int", 60, shared<int>); mon::group("shared/float", 60, shared<float>); mon::group("shared/double", 60, shared<double>);
#endif
  return mon::finish();
}
