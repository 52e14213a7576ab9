// C11: determinant, inverse, LU and solving against a fully pivoted long double elimination.
#include "zoo.h"
#include <algorithm>
#include <cml/matrix/lu.h>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;
typedef RM<ld> R; typedef std::vector<ld> RV;
template<class E> R up(const RM<E>& m) { R r(m.r, m.c); for(size_t i = 0; i < m.a.size(); ++i) r.a[i] = m.a[i]; return r; }
R mul(const R& a, const R& b) { R m(a.r, b.c); for(int i = 0; i < a.r; ++i) for(int j = 0; j < b.c; ++j) for(int k = 0; k < a.c; ++k) m(i, j) += a(i, k) * b(k, j); return m; }
ld norm(const R& a) { ld n = 0; for(int i = 0; i < a.r; ++i) { ld s = 0; for(int j = 0; j < a.c; ++j) s += std::fabs(a(i, j)); n = std::max(n, s); } return n; }
ld maxabs(const R& a) { ld n = 0; for(auto x : a.a) n = std::max(n, std::fabs(x)); return n; }
// inverse and determinant; false if singular
bool refinv(R a, R& inv, ld& det) {
  const int n = a.r; inv = R(n, n); for(int i = 0; i < n; ++i) inv(i, i) = 1; std::vector<int> cp(n); for(int i = 0; i < n; ++i) cp[i] = i; det = 1;
  for(int k = 0; k < n; ++k) {
    int p = k, q = k; ld m = -1; for(int i = k; i < n; ++i) for(int j = k; j < n; ++j) if(std::fabs(a(i, j)) > m) { m = std::fabs(a(i, j)); p = i; q = j; }
    if(m == 0) { det = 0; return false; }
    if(p != k) { for(int j = 0; j < n; ++j) { std::swap(a(p, j), a(k, j)); std::swap(inv(p, j), inv(k, j)); } det = -det; }
    if(q != k) { for(int i = 0; i < n; ++i) std::swap(a(i, q), a(i, k)); std::swap(cp[q], cp[k]); det = -det; }
    const ld d = a(k, k); det *= d; for(int j = 0; j < n; ++j) { a(k, j) /= d; inv(k, j) /= d; }
    for(int i = 0; i < n; ++i) if(i != k) { const ld f = a(i, k); if(f != 0) for(int j = 0; j < n; ++j) { a(i, j) -= f * a(k, j); inv(i, j) -= f * inv(k, j); } }
  }
  R o(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) o(cp[i], j) = inv(i, j); inv = o; return true;
}
R ortho(Rng& g, int n) {
  R q(n, n); for(;;) { bool ok = true; for(int i = 0; i < n && ok; ++i) { for(int j = 0; j < n; ++j) q(i, j) = g.gauss(); for(int k = 0; k < i; ++k) { ld d = 0; for(int j = 0; j < n; ++j) d += q(i, j) * q(k, j); for(int j = 0; j < n; ++j) q(i, j) -= d * q(k, j); } ld l = 0; for(int j = 0; j < n; ++j) l += q(i, j) * q(i, j); l = std::sqrt(l); if(l < 0.1) ok = false; for(int j = 0; j < n; ++j) q(i, j) /= l; } if(ok) return q; }
}
std::vector<int> perm(Rng& g, int n) { std::vector<int> p(n); for(int i = 0; i < n; ++i) p[i] = i; for(int i = n - 1; i > 0; --i) std::swap(p[i], p[g.i(0, i)]); return p; }
R rows(const R& a, const std::vector<int>& p) { R r(a.r, a.c); for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) r(i, j) = a(p[i], j); return r; }
const char* const KIND[] = {"general", "permutation", "permuted-dominant", "scaled-rows", "dominant", "integer", "negative-pivots", "triangular", "positive-definite", "scaled-columns", "scaled", "zero-leading", "near-identity", "homogeneous", "blocks", "orthogonal", "zero-diagonal", "symmetric", "whole-inverse"};
R dominant(Rng& g, int n, int sgn) { R m(n, n); for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) m(i, j) = g.coin(1, 4) ? 0 : g.r(-1, 1) / n; m(i, i) = g.r(1.5, 3) * (sgn ? sgn : g.coin() ? 1 : -1); } return m; }
R make(Rng& g, int n, int kind) {
  R m(n, n);
  switch(kind) {
  default: { R d(n, n); for(int i = 0; i < n; ++i) d(i, i) = g.r(0.5, 3) * (g.coin() ? 1 : -1); m = mul(mul(ortho(g, n), d), ortho(g, n)); break; }
  case 1: { auto p = perm(g, n); for(int i = 0; i < n; ++i) m(i, p[i]) = g.r(0.5, 2) * (g.coin() ? 1 : -1); break; }
  case 2: m = rows(dominant(g, n, 0), perm(g, n)); break;
  case 4: m = dominant(g, n, 0); break;
  case 5: for(auto& x : m.a) x = g.i(-5, 5); break;
  case 6: m = rows(dominant(g, n, -1), perm(g, n)); for(auto& x : m.a) if(std::fabs(x) < 1) x = std::fabs(x); break;
  case 7: { const bool u = g.coin(); for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(u ? j > i : j < i) m(i, j) = g.r(-1, 1); m(i, i) = g.r(1, 2) * (g.coin() ? 1 : -1); } break; }
  case 8: { R d(n, n), o = ortho(g, n), t(n, n); for(int i = 0; i < n; ++i) { d(i, i) = g.r(0.5, 3); for(int j = 0; j < n; ++j) t(j, i) = o(i, j); } m = mul(mul(o, d), t); break; }
  case 11: { m = make(g, n, 0); const int k = g.i(1, std::max(1, n - 1)); if(n > 1) for(int i = 0; i < k; ++i) for(int j = 0; j < k && i + j < k; ++j) m(i, j) = 0; break; }
  case 12: for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) m(i, j) = (i == j) + g.r(-1, 1) * 0.1 / n; break;
  case 13: { m = make(g, n, 0); const int k = g.coin() ? n - 1 : g.i(0, n - 1), l = g.coin(3, 4) ? k : g.i(0, n - 1); const bool row = g.coin(); for(int i = 0; i < n; ++i) if(row) m(k, i) = 0; else m(i, l) = 0; m(k, l) = g.coin(1, 3) ? 1 : g.coin() ? -1 : g.r(0.5, 3) * (g.coin() ? 1 : -1); break; }
  case 14: { int i = 0; while(i < n) { const int b = g.i(1, std::min(3, n - i)); R c = make(g, b, g.coin() ? 0 : 15); for(int y = 0; y < b; ++y) for(int z = 0; z < b; ++z) m(i + y, i + z) = c(y, z); i += b; } if(g.coin()) m = rows(m, perm(g, n)); break; }
  case 15: m = ortho(g, n); break;
  case 16: { m = make(g, n, 2); auto p = perm(g, n); m = rows(m, p); for(int i = 0; i < n; ++i) m(i, i) = 0; break; }
  case 17: { R o = ortho(g, n), d(n, n), t(n, n); for(int i = 0; i < n; ++i) { d(i, i) = g.r(0.5, 3) * (g.coin() ? 1 : -1); for(int j = 0; j < n; ++j) t(j, i) = o(i, j); } m = mul(mul(o, d), t); break; }
  case 18: { for(int i = 0; i < n; ++i) m(i, i) = g.coin() ? 1 : -1; for(int q = 0; q < 2 * n; ++q) { const int i = g.i(0, n - 1), j = g.i(0, n - 1), f = g.i(-1, 1); if(i != j) for(int k = 0; k < n; ++k) m(i, k) += f * m(j, k); } break; }
  }
  if(kind == 3) for(int i = 0; i < n; ++i) { ld s = std::pow(10.0L, g.i(-2, 2)); for(int j = 0; j < n; ++j) m(i, j) *= s; }
  if(kind == 9) for(int j = 0; j < n; ++j) { ld s = std::pow(10.0L, g.i(-2, 2)); for(int i = 0; i < n; ++i) m(i, j) *= s; }
  if(kind == 10) { ld s = std::pow(10.0L, g.i(-2, 3)); for(auto& x : m.a) x *= s; }
  return m;
}
template<class X> void nearm(const X& x, const R& r, ld tol, const std::string& key) {
  mon::ev(); if(x.rows() != r.r || x.cols() != r.c) return mon::fail(key + "/size", fmt("%dx%d want %dx%d", int(x.rows()), int(x.cols()), r.r, r.c));
  for(int i = 0; i < r.r; ++i) for(int j = 0; j < r.c; ++j) if(!(std::fabs(ld(x.get(i, j)) - r(i, j)) <= tol)) return mon::fail(key, fmt("(%d,%d) got %.17g want %.17Lg tolerance %.2Lg", i, j, double(x.get(i, j)), r(i, j), tol));
}
template<class X> void nearv(const X& x, const RV& r, ld tol, const std::string& key) {
  mon::ev(); if(int(x.size()) != int(r.size())) return mon::fail(key + "/size", fmt("%d want %d", int(x.size()), int(r.size())));
  for(int i = 0; i < int(r.size()); ++i) if(!(std::fabs(ld(x[i]) - r[i]) <= tol)) return mon::fail(key, fmt("[%d] got %.17g want %.17Lg tolerance %.2Lg", i, double(x[i]), r[i], tol));
}
inline int parity(std::vector<int> p) { int s = 1; for(int i = 0; i < int(p.size()); ++i) while(p[i] != i) { std::swap(p[p[i]], p[i]); s = -s; } return s; }
ld hadamard(const R& a) { ld h = 1; for(int i = 0; i < a.r; ++i) { ld s = 0; for(int j = 0; j < a.c; ++j) s += a(i, j) * a(i, j); h *= std::sqrt(s); } return h; }

template<class M, class BV> void linear(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; const int kind = g.i(0, 18), n = H::R_ > 0 ? H::R_ : g.n(1, 8, kind == 3 || kind == 9 || kind == 10 ? 8 : 16); const ld eps = mon::eps<E>();
  R m = make(g, n, kind); RM<E> x(n, n); for(size_t i = 0; i < m.a.size(); ++i) { x.a[i] = E(m.a[i]); mon::mixd(double(x.a[i])); } R r = up(x), inv; ld det; mon::mix(n * 32 + kind);
  const bool regular = refinv(r, inv, det); H h(x); const M& a = h.m; const std::string f = std::string("/") + KIND[kind];
  mon::bin(std::string("kind/") + KIND[kind]); mon::bin(fmt("size/%d", n)); if(mon::noting()) mon::note(fmt("%s %s %s %s ", H::tag(), bname<typename H::basis>(), lname<typename H::layout>(), KIND[kind]) + show(x));
  // also holds for singular matrices; badly scaled rows or columns mislead the choice of pivots, which costs digits
  const ld had = hadamard(r), dtol = (kind == 3 || kind == 9 ? 4096 : 128) * n * eps * had;
  auto ckdet = [&](E d, ld w, const char* k) { mon::ev(); if(!(std::fabs(ld(d) - w) <= dtol)) mon::fail(std::string(k) + f, fmt("n %d got %.17g want %.17Lg tolerance %.2Lg ", n, double(d), w, dtol) + show(x)); };
  // (the elimination gives up on pivots below the absolute epsilon, so a scaled integer-singular matrix gives 0)
  ckdet(cml::determinant(a), det, "determinant"); ckdet(a.determinant(), det, "determinant-member"); ckdet(cml::determinant(cml::transpose(a)), det, "determinant-of-transpose"); ckdet(cml::determinant(a * E(1)), det, "determinant-of-expression");
  { const int i = g.i(0, n - 1), j = g.i(0, n - 1); RM<E> y(x); if(i != j) { for(int k = 0; k < n; ++k) std::swap(y(i, k), y(j, k)); H k(y); ckdet(cml::determinant(k.m), -det, "determinant-row-swap"); } }
  if(!regular) { mon::bin("singular"); ckm(a, x, "operand-unchanged"); return; }
  const ld cond = norm(r) * norm(inv), tol = 64 * n * eps * cond * (n <= 4 ? cond : 1), mi = maxabs(inv);
  if(tol > 0.02) { mon::bin("skipped-ill-conditioned"); return; }
  mon::bin("inverted");
  nearm(cml::inverse(a), inv, tol * mi, "inverse" + f); nearm(cml::inverse(cml::transpose(cml::transpose(a))), inv, tol * mi, "inverse-of-expression" + f);
  { H k(x); auto& z = k.m.inverse(); nearm(k.m, inv, tol * mi, "inverse-in-place" + f); mon::check((void*) &z == (void*) &k.m, "inverse-returns-target"); k.m.inverse(); nearm(k.m, r, tol * 8 * maxabs(r) * cond, "inverse-twice" + f); }
  { H k(x); auto&& z = std::move(k.m).inverse(); nearm(z, inv, tol * mi, "inverse-of-temporary" + f); }
  { R id(n, n); for(int i = 0; i < n; ++i) id(i, i) = 1; nearm(a * cml::inverse(a), id, tol * 4 * norm(r) * mi + eps, "matrix-times-inverse" + f); nearm(cml::inverse(a) * a, id, tol * 4 * norm(r) * mi + eps, "inverse-times-matrix" + f); }
  { R t(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) t(i, j) = inv(j, i); nearm(cml::inverse(cml::transpose(a)), t, tol * mi, "inverse-of-transpose" + f); }
  // LU with row pivoting
  auto p = cml::lu_pivot(a); const ld ltol = 64 * n * eps * norm(r) * n;
  {
    std::vector<int> o(p.order.begin(), p.order.end()), srt(o); std::sort(srt.begin(), srt.end()); bool isp = int(o.size()) == n; for(int i = 0; i < n && isp; ++i) isp = srt[i] == i;
    if(mon::check(isp, "lu-order-is-permutation" + f)) {
      mon::check(p.sign == parity(o), "lu-sign" + f, fmt("sign %d parity %d", p.sign, parity(o)));
      R L(n, n), U(n, n); bool part = true; for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) { if(j < i) { L(i, j) = p.lu(i, j); part = part && std::fabs(L(i, j)) <= 1 + 4 * eps; } else U(i, j) = p.lu(i, j); } L(i, i) = 1; }
      R q = mul(L, U), w = rows(r, o); bool ok = true; for(size_t i = 0; i < q.a.size(); ++i) ok = ok && std::fabs(q.a[i] - w.a[i]) <= ltol * (1 << (n > 6 ? 3 : 1)); mon::check(ok, "lu-product-is-permuted-matrix" + f, show(x)); mon::check(part, "lu-multipliers-at-most-one" + f, show(x));
      if(std::is_sorted(o.begin(), o.end())) mon::bin("lu/no-swap"); else mon::bin(p.sign > 0 ? "lu/even-permutation" : "lu/odd-permutation");
      ld dd = p.sign; for(int i = 0; i < n; ++i) dd *= U(i, i); mon::ev(); if(!(std::fabs(dd - det) <= dtol)) mon::fail("lu-diagonal-is-determinant" + f, fmt("%.17Lg want %.17Lg", dd, det));
    }
    cml::lu_pivot_result<typename std::decay<decltype(p.lu)>::type> q2(p.lu); q2.lu = a; cml::lu_pivot(q2); mon::check(q2.sign == p.sign && std::equal(q2.order.begin(), q2.order.end(), p.order.begin()) && q2.lu == p.lu, "lu-in-place-agrees" + f);
  }
  // solving
  typedef VH<BV> K; std::vector<E> xs(n); for(auto& e : xs) e = E(g.r(-2, 2)); std::vector<E> bs(n); RV xr(n); ld xm = 0; for(int i = 0; i < n; ++i) { ld s = 0; for(int j = 0; j < n; ++j) s += r(i, j) * xs[j]; bs[i] = E(s); }
  for(int i = 0; i < n; ++i) { ld s = 0; for(int j = 0; j < n; ++j) s += inv(i, j) * bs[j]; xr[i] = s; xm = std::max(xm, std::fabs(s)); }
  K b(bs); const ld stol = 64 * n * eps * cond * (xm + 1);
  auto solve = [&](const auto& f0, const std::string& key) {
    nearv(cml::lu_solve(f0, b.v), xr, stol, key); K out(std::vector<E>(n, E(7))); cml::lu_solve(f0, out.v, b.v); nearv(out.v, xr, stol, key + "-out"); nearv(cml::lu_solve(f0, b.v + b.v), [&] { RV d(xr); for(auto& e : d) e *= 2; return d; }(), 2 * stol, key + "-expression"); ckv(b.v, bs, key + "-operand");
    K same(bs); cml::lu_solve(f0, same.v, same.v); nearv(same.v, xr, stol, key + "-in-place"); mon::bin("solved");
  };
  solve(p, "lu-pivot-solve" + f);
  if(kind == 4 || kind == 8 || kind == 12 || kind == 7) {
    auto l = cml::lu(a); R L(n, n), U(n, n); for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) { if(j < i) L(i, j) = l(i, j); else U(i, j) = l(i, j); } L(i, i) = 1; } R q = mul(L, U); bool ok = true; for(size_t i = 0; i < q.a.size(); ++i) ok = ok && std::fabs(q.a[i] - r.a[i]) <= ltol * 4 * cond; mon::check(ok, "lu-product" + f, show(x));
    solve(l, "lu-solve" + f); mon::bin("lu/without-pivoting");
  }
  ckm(a, x, "operand-unchanged");
}
// the determinant is multiplicative, and exact on small integers with closed forms
template<class M> void integers(Rng& g) {
  typedef MH<M> H; typedef typename H::elem E; const int n = H::R_ > 0 ? H::R_ : g.i(2, 4); auto x = rmat<E>(g, n, n, 6); R inv; ld det; refinv(up(x), inv, det); det = std::round(det); H h(x);
  mon::cke(cml::determinant(h.m), det, "integer-determinant"); mon::cke(cml::determinant(cml::transpose(h.m)), det, "integer-determinant-transpose"); mon::cke((h.m + h.m).determinant(), det * std::pow(2, n), "integer-determinant-sum"); mon::bin("integer-determinant"); ckm(h.m, x, "operand-unchanged");
}
template<class E, class B, class L> struct S { template<int N> using F = matrix<E, fixed<N, N>, B, L>; template<int N> using X = matrix<E, external<N, N>, B, L>; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> XD; };
template<class E> using VD = vector<E, dynamic<>>; template<class E, int N> using VF = vector<E, fixed<N>>; template<class E, int N> using VX = vector<E, external<N>>; template<class E> using VXD = vector<E, external<>>;
int main(int argc, char** argv) {
  mon::init(argc, argv);
  typedef S<double, col_basis, row_major> A; typedef S<double, row_basis, col_major> B; typedef S<float, col_basis, col_major> C; typedef S<float, row_basis, row_major> D; typedef S<long double, col_basis, row_major> Q; typedef S<int, col_basis, row_major> I; typedef S<int, row_basis, col_major> J;
#if PART == 0
  mon::group("dyn-a", 6000, linear<A::D, VD<double>>);
#elif PART == 1
  mon::group("dyn-b", 6000, linear<B::D, VXD<double>>);
#elif PART == 2
  mon::group("ext-a", 6000, linear<A::XD, VD<double>>);
#elif PART == 3
  mon::group("ext-c", 6000, linear<C::XD, VD<float>>);
#elif PART == 4
  mon::group("dyn-d", 6000, linear<D::D, VXD<float>>);
#elif PART == 5
  mon::group("f1", 500, linear<A::F<1>, VF<double, 1>>); mon::group("f2", 2000, linear<A::F<2>, VF<double, 2>>); mon::group("f3", 2000, linear<B::F<3>, VX<double, 3>>);
#elif PART == 6
  mon::group("f4", 3000, linear<B::F<4>, VD<double>>); mon::group("f5", 2000, linear<A::F<5>, VF<double, 5>>); mon::group("x6", 2000, linear<B::X<6>, VD<double>>);
#elif PART == 7
  mon::group("x4", 3000, linear<C::X<4>, VF<float, 4>>); mon::group("x3", 2000, linear<C::X<3>, VF<float, 3>>); mon::group("f3f", 2000, linear<D::F<3>, VF<float, 3>>);
  mon::group("int-2", 1000, integers<I::F<2>>); mon::group("int-3", 1000, integers<J::F<3>>); mon::group("int-4", 1000, integers<I::X<4>>); mon::group("int-dyn", 1000, integers<J::D>); mon::group("int-ext", 1000, integers<I::XD>);
#elif PART == 8
  mon::group("f4f", 3000, linear<D::F<4>, VF<float, 4>>); mon::group("x2", 1000, linear<B::X<2>, VD<double>>); mon::group("f7", 1500, linear<D::F<7>, VD<float>>);
#elif PART == 9
  mon::group("ld-dyn", 2000, linear<Q::D, VD<long double>>); mon::group("f6", 1500, linear<A::F<6>, VF<double, 6>>); mon::group("x5", 1500, linear<A::X<5>, VXD<double>>);
#endif
  return mon::finish();
}
