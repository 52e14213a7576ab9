// C14: transform builders, basis accessors and transformations against element-exact reference basis tables.
#include "geo.h"
using namespace geo; using namespace zoo;
// the basis elements of a matrix: row i is basis vector i
struct BE { int nb, nd; std::vector<ld> a; BE(int b = 0, int d = 0) : nb(b), nd(d), a(size_t(b) * d) {} ld& operator()(int i, int j) { return a[size_t(i) * nd + j]; } ld operator()(int i, int j) const { return a[size_t(i) * nd + j]; } };
BE bident(int nb, int nd) { BE b(nb, nd); for(int i = 0; i < nb; ++i) for(int j = 0; j < nd; ++j) b(i, j) = i == j; return b; }
template<class M> BE read(const M& m) { const bool row = std::is_same<typename M::basis_tag, row_basis>::value; BE b(row ? m.rows() : m.cols(), row ? m.cols() : m.rows()); for(int i = 0; i < b.nb; ++i) for(int j = 0; j < b.nd; ++j) b(i, j) = row ? m.get(i, j) : m.get(j, i); return b; }
template<class M> void write(M& m, const BE& b) { const bool row = std::is_same<typename M::basis_tag, row_basis>::value; for(int i = 0; i < b.nb; ++i) for(int j = 0; j < b.nd; ++j) { if(row) m.put(i, j, typename M::value_type(b(i, j))); else m.put(j, i, typename M::value_type(b(i, j))); } }
std::string show(const BE& b) { std::string s = "{"; for(int i = 0; i < b.nb; ++i) for(int j = 0; j < b.nd; ++j) s += fmt(j ? " %.12Lg" : i ? "; %.12Lg" : "%.12Lg", b(i, j)); return s + "}"; }
// every element, within tol times (1 + |want|)
template<class M> void ck(const M& m, const BE& w, ld tol, const std::string& key, const std::string& d = "") {
  mon::ev(); const BE b = read(m); bool ok = b.nb == w.nb && b.nd == w.nd; for(size_t i = 0; ok && i < b.a.size(); ++i) ok = std::fabs(b.a[i] - w.a[i]) <= tol * (1 + std::fabs(w.a[i]));
  if(!ok) mon::fail(key, "got " + show(b) + " want " + show(w) + " " + d);
}
typedef std::vector<ld> LV;
// the image of a vector (w = 0) or point (w = 1), n components
LV image(const BE& b, const LV& v, ld w) { const int n = int(v.size()); LV r(n, 0); for(int j = 0; j < n; ++j) { for(int i = 0; i < n; ++i) r[j] += b(i, j) * v[i]; if(w != 0) r[j] += w * b(n, j); } return r; }
template<class V> void ckvec(const V& v, const LV& w, ld tol, const std::string& key, const std::string& d = "") { mon::ev(); bool ok = v.size() == int(w.size()); for(int i = 0; ok && i < v.size(); ++i) ok = std::fabs(ld(v.get(i)) - w[i]) <= tol; if(!ok) { std::string s; for(ld x : w) s += fmt(" %.17Lg", x); mon::fail(key, "got " + showv(v) + " want" + s + fmt(" tolerance %.3Lg ", tol) + d); } }
// hands values to f in a vector of one of many storages and forms; small values are exact in all of them
template<class E, int N, class F> void form(Rng& g, const LV& x, F f) {
  const int k = g.i(0, 8); mon::bin(fmt("vector-form/%d", k)); std::vector<E> e; for(ld y : x) e.push_back(E(y)); const VH<vector<E, fixed<N>>> a(e); std::vector<float> fl(e.begin(), e.end()); std::vector<int> in; bool whole = true; for(E y : e) { in.push_back(int(y)); whole &= E(int(y)) == y; } bool flt = true; for(int i = 0; i < N; ++i) flt &= E(fl[i]) == e[i];
  if(k == 1) { VH<vector<E, dynamic<>>> b(e); f(b.v); } else if(k == 2) { VH<vector<E, external<N>>> b(e); f(b.v); } else if(k == 3) { const VH<vector<const E, external<>>> b(e); f(b.v); } else if(k == 4 && flt) { VH<vector<float, dynamic<>>> b(fl); f(b.v); } else if(k == 5 && whole) { VH<vector<int, fixed<N>>> b(in); f(b.v); } else if(k == 6) { f(-(-a.v)); } else if(k == 7) { std::vector<E> l(e); l.push_back(77); VH<vector<E, fixed<N + 1>>> b(l); f(b.v.subvector(N)); } else if(k == 8) { cml::matrix<E, fixed<2, N>> b; for(int i = 0; i < N; ++i) { b(0, i) = E(55); b(1, i) = e[i]; } f(cml::row(b, 1)); } else f(a.v);
}
template<class E, int N, class F> void few(Rng& g, const LV& x, F f) { std::vector<E> e; for(ld y : x) e.push_back(E(y)); const VH<vector<E, fixed<N>>> a(e); switch(g.i(0, 2)) { case 0: f(a.v); return; case 1: { VH<vector<E, dynamic<>>> b(e); f(b.v); return; } default: f(-(-a.v)); } }
// hands scalars to f in one of several combinations of arithmetic types that can hold them
template<class E, class F> void scalars(Rng& g, ld x, F f) { const int k = g.i(0, 3); if(k == 1 && x == int(x)) f(int(x)); else if(k == 2 && x == float(x)) f(float(x)); else if(k == 3) f(ld(E(x))); else f(E(x)); }
template<class E, class F> void scalars(Rng& g, ld x, ld y, F f) { const int k = g.i(0, 4); const bool ix = x == int(x), iy = y == int(y), fx = x == float(x), fy = y == float(y); if(k == 1 && ix && iy) f(int(x), int(y)); else if(k == 2 && fx && iy) f(float(x), int(y)); else if(k == 3 && ix) f(int(x), ld(E(y))); else if(k == 4 && fy) f(double(E(x)), float(y)); else f(E(x), E(y)); }
template<class E, class F> void scalars(Rng& g, ld x, ld y, ld z, F f) { const int k = g.i(0, 4); const bool ix = x == int(x), iy = y == int(y), iz = z == int(z), fx = x == float(x), fy = y == float(y); if(k == 1 && ix && iy && iz) f(int(x), int(y), int(z)); else if(k == 2 && fx && iy) f(float(x), int(y), E(z)); else if(k == 3 && ix) f(int(x), ld(E(y)), E(z)); else if(k == 4 && fy && iz) f(double(E(x)), float(y), int(z)); else f(E(x), E(y), E(z)); }
ld value(Rng& g) { switch(g.i(0, 5)) { case 0: return g.i(-9, 9); case 1: return g.i(-999, 999) / 64.0L; case 2: return float(g.gauss()); case 3: return 0; default: return float(g.wide(-4, 4)); } }
LV values(Rng& g, int n) { LV v(n); for(auto& x : v) { x = value(g); mon::mixd(double(x)); } return v; }
ld big(const LV& v) { ld m = 1; for(ld x : v) m = std::max(m, std::fabs(x)); return m; }
ld big(const BE& b) { return big(LV(b.a)); }
template<class M> std::unique_ptr<MH<M>> target(Rng& g, int nb, int nd) { const bool row = std::is_same<typename MH<M>::basis, row_basis>::value; auto h = junk<M>(g, row ? nb : nd, row ? nd : nb, 6); mon::bin(fmt("shape/%dx%d", h->m.rows(), h->m.cols())); mon::mix(h->m.rows() * 16 + h->m.cols()); for(int i = 0; i < h->m.rows(); ++i) for(int j = 0; j < h->m.cols(); ++j) mon::mixd(double(h->m.get(i, j))); return h; }
template<class M, int NB, int ND> struct Fits { typedef MH<M> H; static constexpr bool row = std::is_same<typename H::basis, row_basis>::value; static constexpr int nb = row ? H::R_ : H::C_, nd = row ? H::C_ : H::R_; static constexpr bool value = (nb < 0 || nb >= NB) && (nd < 0 || nd >= ND); };
#define IFFITS(NB, ND) if constexpr(Fits<M, NB, ND>::value)
// images of a random vector and point, where the matrix has them
template<class M> void maps(Rng& g, const M& m, int n, const std::string& key) {
  typedef typename M::value_type E; const BE b = read(m); const LV v = values(g, n); LV ve(v); const ld tol = 16 * mon::eps<E>() * big(b) * big(v) * 4; (void) ve;
  if(n == 2) few<E, 2>(g, v, [&](const auto& x) { LV xr; for(int i = 0; i < 2; ++i) xr.push_back(x.get(i)); typedef typename std::decay<decltype(x)>::type X; if(std::is_integral<cml::value_type_of_t<X>>::value) return; const ld t = tol + 4 * mon::eps<cml::value_type_of_t<X>>() * (big(b) * big(v) * 4); ckvec(cml::transform_vector_2D(m, x), image(b, xr, 0), t, key + "/transform-vector-2D"); if constexpr(Fits<M, 3, 2>::value) if(b.nb > 2) { auto p = cml::transform_point_2D(m, x); ckvec(p, image(b, xr, 1), t, key + "/transform-point-2D"); mon::bin("point-2D"); } });
  else IFFITS(3, 3) few<E, 3>(g, v, [&](const auto& x) {
    LV xr; for(int i = 0; i < 3; ++i) xr.push_back(x.get(i)); typedef typename std::decay<decltype(x)>::type X; if(std::is_integral<cml::value_type_of_t<X>>::value) return; const ld t = tol + 4 * mon::eps<cml::value_type_of_t<X>>() * (big(b) * big(v) * 4);
    ckvec(cml::transform_vector(m, x), image(b, xr, 0), t, key + "/transform-vector"); if constexpr(Fits<M, 4, 3>::value) if(b.nb > 3) { ckvec(cml::transform_point(m, x), image(b, xr, 1), t, key + "/transform-point"); mon::bin("point-3D"); }
  });
}
template<class M> void scales(Rng& g) {
  typedef typename MH<M>::elem E; const ld e = 4 * mon::eps<E>();
  IFFITS(3, 2) { const LV s = values(g, 2); auto h = target<M>(g, 3, 2); BE b = bident(read(h->m).nb, read(h->m).nd), w = b; w(0, 0) = s[0]; w(1, 1) = s[1];
    { auto k = target<M>(g, 3, 2); BE i = bident(read(k->m).nb, read(k->m).nd); i(0, 0) = s[0]; i(1, 1) = s[1]; scalars<E>(g, s[0], s[1], [&](auto x, auto y) { cml::matrix_scale_2D(k->m, x, y); }); ck(k->m, i, e, "scale-2D"); maps(g, k->m, 2, "scale-2D"); }
    form<E, 2>(g, s, [&](const auto& v) { cml::matrix_scale_2D(h->m, v); }); ck(h->m, w, e, "scale-2D-vector"); if(s[0] != 0 && s[1] != 0) { BE i = b; i(0, 0) = 1 / s[0]; i(1, 1) = 1 / s[1]; auto k = junk<M>(g, h->m.rows(), h->m.cols(), 6); (void) k; scalars<E>(g, s[0], s[1], [&](auto x, auto y) { cml::matrix_inverse_scale_2D(h->m, x, y); }); ck(h->m, i, e, "inverse-scale-2D"); cml::matrix_inverse_scale_2D(h->m, E(s[0]), E(s[1])); ck(h->m, i, e, "inverse-scale-2D-same-type"); form<E, 2>(g, s, [&](const auto& v) { cml::matrix_inverse_scale_2D(h->m, v); }); ck(h->m, i, e, "inverse-scale-2D-vector"); mon::bin("inverse-scale"); }
    BE u = b; u(0, 0) = u(1, 1) = s[0]; scalars<E>(g, s[0], [&](auto x) { cml::matrix_uniform_scale_2D(h->m, x); }); ck(h->m, u, e, "uniform-scale-2D"); }
  IFFITS(4, 3) { const LV s = values(g, 3); auto h = target<M>(g, 4, 3); BE b = bident(read(h->m).nb, read(h->m).nd), w = b; for(int i = 0; i < 3; ++i) w(i, i) = s[i];
    scalars<E>(g, s[0], s[1], s[2], [&](auto x, auto y, auto z) { cml::matrix_scale(h->m, x, y, z); }); ck(h->m, w, e, "scale"); maps(g, h->m, 3, "scale");
    auto k = target<M>(g, 4, 3); BE i = bident(read(k->m).nb, read(k->m).nd); BE kw = i; for(int j = 0; j < 3; ++j) kw(j, j) = s[j]; form<E, 3>(g, s, [&](const auto& v) { cml::matrix_scale(k->m, v); }); ck(k->m, kw, e, "scale-vector");
    if(s[0] != 0 && s[1] != 0 && s[2] != 0) { for(int j = 0; j < 3; ++j) i(j, j) = 1 / s[j]; scalars<E>(g, s[0], s[1], s[2], [&](auto x, auto y, auto z) { cml::matrix_inverse_scale(k->m, x, y, z); }); ck(k->m, i, e, "inverse-scale"); cml::matrix_inverse_scale(k->m, E(s[0]), E(s[1]), E(s[2])); ck(k->m, i, e, "inverse-scale-same-type"); form<E, 3>(g, s, [&](const auto& v) { cml::matrix_inverse_scale(k->m, v); }); ck(k->m, i, e, "inverse-scale-vector"); }
    BE u = b; for(int j = 0; j < 3; ++j) u(j, j) = s[1]; scalars<E>(g, s[1], [&](auto x) { cml::matrix_uniform_scale(h->m, x); }); ck(h->m, u, e, "uniform-scale"); mon::bin("scale-3D"); }
}
template<class M> void translations(Rng& g) {
  typedef typename MH<M>::elem E;
  IFFITS(3, 2) { const LV t = values(g, 2); auto h = target<M>(g, 3, 2); const BE o = read(h->m); BE w = o; w(2, 0) = t[0]; w(2, 1) = t[1];
    scalars<E>(g, t[0], t[1], [&](auto x, auto y) { cml::matrix_set_translation_2D(h->m, x, y); }); ck(h->m, w, 0, "set-translation-2D");
    { double x; float y; cml::matrix_get_translation_2D(h->m, x, y); near(x, t[0], 0, "get-translation-2D"); near(y, t[1], 0, "get-translation-2D"); ckvec(cml::matrix_get_translation_2D(h->m), t, 0, "get-translation-2D-vector"); ckvec(cml::matrix_get_translation_2D(-(-h->m)), t, 0, "get-translation-2D-expression"); auto keep = cml::matrix_get_translation_2D(h->m); cml::matrix_set_translation_2D(h->m, E(5), E(6)); ckvec(keep, t, 0, "get-translation-2D-is-a-copy"); }
    write(h->m, o); form<E, 2>(g, t, [&](const auto& v) { cml::matrix_set_translation_2D(h->m, v); }); ck(h->m, w, 0, "set-translation-2D-vector");
    BE i = bident(o.nb, o.nd); i(2, 0) = t[0]; i(2, 1) = t[1]; scalars<E>(g, t[0], t[1], [&](auto x, auto y) { cml::matrix_translation_2D(h->m, x, y); }); ck(h->m, i, 0, "translation-2D"); maps(g, h->m, 2, "translation-2D"); write(h->m, o); form<E, 2>(g, t, [&](const auto& v) { cml::matrix_translation_2D(h->m, v); }); ck(h->m, i, 0, "translation-2D-vector"); mon::bin("translation-2D"); }
  IFFITS(4, 3) { const LV t = values(g, 3); const LV t2 = {t[0], t[1]}, t0 = {t[0], t[1], 0}; auto h = target<M>(g, 4, 3); const BE o = read(h->m); BE w = o, w0; for(int j = 0; j < 3; ++j) w(3, j) = t[j]; w0 = w; w0(3, 2) = 0;
    scalars<E>(g, t[0], t[1], t[2], [&](auto x, auto y, auto z) { cml::matrix_set_translation(h->m, x, y, z); }); ck(h->m, w, 0, "set-translation");
    { double x; float y; E z; cml::matrix_get_translation(h->m, x, y, z); near(x, t[0], 0, "get-translation"); near(y, t[1], 0, "get-translation"); near(z, t[2], 0, "get-translation"); ckvec(cml::matrix_get_translation(h->m), t, 0, "get-translation-vector"); ckvec(cml::matrix_get_translation(-(-h->m)), t, 0, "get-translation-expression"); auto keep = cml::matrix_get_translation(h->m); cml::matrix_set_translation(h->m, E(5), E(6), E(7)); ckvec(keep, t, 0, "get-translation-is-a-copy"); }
    write(h->m, o); scalars<E>(g, t[0], t[1], [&](auto x, auto y) { cml::matrix_set_translation(h->m, x, y); }); ck(h->m, w0, 0, "set-translation-two-scalars");
    write(h->m, o); form<E, 3>(g, t, [&](const auto& v) { cml::matrix_set_translation(h->m, v); }); ck(h->m, w, 0, "set-translation-vector"); write(h->m, o); form<E, 2>(g, t2, [&](const auto& v) { cml::matrix_set_translation(h->m, v); }); ck(h->m, w0, 0, "set-translation-2-vector");
    BE i = bident(o.nb, o.nd), i0; for(int j = 0; j < 3; ++j) i(3, j) = t[j]; i0 = i; i0(3, 2) = 0; write(h->m, o);
    scalars<E>(g, t[0], t[1], t[2], [&](auto x, auto y, auto z) { cml::matrix_translation(h->m, x, y, z); }); ck(h->m, i, 0, "translation"); maps(g, h->m, 3, "translation");
    write(h->m, o); form<E, 3>(g, t, [&](const auto& v) { cml::matrix_translation(h->m, v); }); ck(h->m, i, 0, "translation-vector"); write(h->m, o); form<E, 2>(g, t2, [&](const auto& v) { cml::matrix_translation(h->m, v); }); ck(h->m, i0, 0, "translation-2-vector"); write(h->m, o); cml::matrix_translation(h->m, E(t[0]), E(t[1])); ck(h->m, i0, 0, "translation-two-scalars"); mon::bin("translation-3D"); }
}
template<class M> void bases(Rng& g) {
  typedef typename MH<M>::elem E;
  IFFITS(2, 2) {
    auto h = target<M>(g, 2, 2); const BE o = read(h->m); const LV x = values(g, 2), y = values(g, 2); const int i = g.i(0, 1); BE w = o, wt = o; for(int j = 0; j < 2; ++j) { w(i, j) = x[j]; wt(j, i) = x[j]; } M& m = h->m;
    form<E, 2>(g, x, [&](const auto& v) { cml::matrix_set_basis_vector_2D(m, i, v); }); ck(m, w, 0, "set-basis-vector-2D"); ckvec(cml::matrix_get_basis_vector_2D(m, i), x, 0, "get-basis-vector-2D"); ckvec(i ? cml::matrix_get_y_basis_vector_2D(m) : cml::matrix_get_x_basis_vector_2D(m), x, 0, "get-named-basis-vector-2D");
    write(m, o); few<E, 2>(g, x, [&](const auto& v) { if(i) cml::matrix_set_y_basis_vector_2D(m, v); else cml::matrix_set_x_basis_vector_2D(m, v); }); ck(m, w, 0, "set-named-basis-vector-2D");
    write(m, o); form<E, 2>(g, x, [&](const auto& v) { cml::matrix_set_transposed_basis_vector_2D(m, i, v); }); ck(m, wt, 0, "set-transposed-basis-vector-2D"); ckvec(cml::matrix_get_transposed_basis_vector_2D(m, i), x, 0, "get-transposed-basis-vector-2D"); ckvec(i ? cml::matrix_get_transposed_y_basis_vector_2D(m) : cml::matrix_get_transposed_x_basis_vector_2D(m), x, 0, "get-transposed-named-basis-vector-2D");
    write(m, o); few<E, 2>(g, x, [&](const auto& v) { if(i) cml::matrix_set_transposed_y_basis_vector_2D(m, v); else cml::matrix_set_transposed_x_basis_vector_2D(m, v); }); ck(m, wt, 0, "set-transposed-named-basis-vector-2D");
    w = wt = o; for(int j = 0; j < 2; ++j) { w(0, j) = x[j]; w(1, j) = y[j]; wt(j, 0) = x[j]; wt(j, 1) = y[j]; } cml::vector<E, dynamic<>> a; cml::vector<double, fixed<2>> b;
    write(m, o); few<E, 2>(g, x, [&](const auto& v) { few<E, 2>(g, y, [&](const auto& u) { cml::matrix_set_basis_vectors_2D(m, v, u); }); }); ck(m, w, 0, "set-basis-vectors-2D"); cml::matrix_get_basis_vectors_2D(m, a, b); ckvec(a, x, 0, "get-basis-vectors-2D"); ckvec(b, y, 0, "get-basis-vectors-2D"); maps(g, m, 2, "basis-2D");
    write(m, o); few<E, 2>(g, x, [&](const auto& v) { few<E, 2>(g, y, [&](const auto& u) { cml::matrix_set_transposed_basis_vectors_2D(m, v, u); }); }); ck(m, wt, 0, "set-transposed-basis-vectors-2D"); cml::matrix_get_transposed_basis_vectors_2D(m, a, b); ckvec(a, x, 0, "get-transposed-basis-vectors-2D"); ckvec(b, y, 0, "get-transposed-basis-vectors-2D");
    int bad = g.coin() ? 2 : -1, n = 0; write(m, o); cml::vector<E, fixed<2>> v; v[0] = E(x[0]); v[1] = E(x[1]); try { cml::matrix_set_basis_vector_2D(m, bad, v); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_set_transposed_basis_vector_2D(m, bad, v); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_get_basis_vector_2D(m, bad); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_get_transposed_basis_vector_2D(m, bad); } catch(const std::invalid_argument&) { ++n; } mon::check(n == 4, "basis-vector-2D-rejects-index"); ck(m, o, 0, "basis-vector-2D-rejected-unchanged");
    near(cml::trace_2x2(m), o(0, 0) + o(1, 1), 0, "trace-2x2"); near(cml::trace_2x2(-m), -o(0, 0) - o(1, 1), 0, "trace-2x2-expression"); mon::bin("basis-2D");
    BE s(o.nb, o.nd); s(0, 1) = x[0]; s(1, 0) = -x[0]; scalars<E>(g, x[0], [&](auto q) { cml::matrix_skew_symmetric_2D(m, q); }); ck(m, s, 0, "skew-symmetric-2D");
    write(m, o); for(int k = 0; k < o.nb; ++k) { LV r; for(int j = 0; j < o.nd; ++j) r.push_back(o(k, j)); ckvec(cml::matrix_get_basis_vector_nD(m, k), r, 0, "get-basis-vector-nD"); auto keep = cml::matrix_get_basis_vector_nD(m, k); m.set_basis_element(k, 0, E(1234)); ckvec(keep, r, 0, "get-basis-vector-nD-is-a-copy"); m.set_basis_element(k, 0, E(o(k, 0))); }
  }
  IFFITS(3, 3) {
    auto h = target<M>(g, 3, 3); const BE o = read(h->m); const LV x = values(g, 3), y = values(g, 3), z = values(g, 3); const int i = g.i(0, 2); BE w = o, wt = o; for(int j = 0; j < 3; ++j) { w(i, j) = x[j]; wt(j, i) = x[j]; } M& m = h->m;
    form<E, 3>(g, x, [&](const auto& v) { cml::matrix_set_basis_vector(m, i, v); }); ck(m, w, 0, "set-basis-vector"); ckvec(cml::matrix_get_basis_vector(m, i), x, 0, "get-basis-vector"); ckvec(i == 2 ? cml::matrix_get_z_basis_vector(m) : i ? cml::matrix_get_y_basis_vector(m) : cml::matrix_get_x_basis_vector(m), x, 0, "get-named-basis-vector");
    write(m, o); few<E, 3>(g, x, [&](const auto& v) { if(i == 2) cml::matrix_set_z_basis_vector(m, v); else if(i) cml::matrix_set_y_basis_vector(m, v); else cml::matrix_set_x_basis_vector(m, v); }); ck(m, w, 0, "set-named-basis-vector");
    write(m, o); form<E, 3>(g, x, [&](const auto& v) { cml::matrix_set_transposed_basis_vector(m, i, v); }); ck(m, wt, 0, "set-transposed-basis-vector"); ckvec(cml::matrix_get_transposed_basis_vector(m, i), x, 0, "get-transposed-basis-vector"); ckvec(i == 2 ? cml::matrix_get_transposed_z_basis_vector(m) : i ? cml::matrix_get_transposed_y_basis_vector(m) : cml::matrix_get_transposed_x_basis_vector(m), x, 0, "get-transposed-named-basis-vector");
    write(m, o); few<E, 3>(g, x, [&](const auto& v) { if(i == 2) cml::matrix_set_transposed_z_basis_vector(m, v); else if(i) cml::matrix_set_transposed_y_basis_vector(m, v); else cml::matrix_set_transposed_x_basis_vector(m, v); }); ck(m, wt, 0, "set-transposed-named-basis-vector");
    w = wt = o; for(int j = 0; j < 3; ++j) { w(0, j) = x[j]; w(1, j) = y[j]; w(2, j) = z[j]; wt(j, 0) = x[j]; wt(j, 1) = y[j]; wt(j, 2) = z[j]; } cml::vector<E, dynamic<>> a; cml::vector<double, fixed<3>> b, c; const VH<vector<E, fixed<3>>> yv(std::vector<E>(y.begin(), y.end()));
    write(m, o); few<E, 3>(g, x, [&](const auto& v) { few<E, 3>(g, z, [&](const auto& u) { cml::matrix_set_basis_vectors(m, v, yv.v, u); }); }); ck(m, w, 0, "set-basis-vectors"); cml::matrix_get_basis_vectors(m, a, b, c); ckvec(a, x, 0, "get-basis-vectors"); ckvec(b, y, 0, "get-basis-vectors"); ckvec(c, z, 0, "get-basis-vectors"); maps(g, m, 3, "basis-3D");
    write(m, o); few<E, 3>(g, x, [&](const auto& v) { few<E, 3>(g, z, [&](const auto& u) { cml::matrix_set_transposed_basis_vectors(m, v, yv.v, u); }); }); ck(m, wt, 0, "set-transposed-basis-vectors"); cml::matrix_get_transposed_basis_vectors(m, a, b, c); ckvec(a, x, 0, "get-transposed-basis-vectors"); ckvec(b, y, 0, "get-transposed-basis-vectors"); ckvec(c, z, 0, "get-transposed-basis-vectors");
    int bad = g.coin() ? 3 : -1, n = 0; write(m, o); try { cml::matrix_set_basis_vector(m, bad, yv.v); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_set_transposed_basis_vector(m, bad, yv.v); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_get_basis_vector(m, bad); } catch(const std::invalid_argument&) { ++n; } try { cml::matrix_get_transposed_basis_vector(m, bad); } catch(const std::invalid_argument&) { ++n; } mon::check(n == 4, "basis-vector-rejects-index"); ck(m, o, 0, "basis-vector-rejected-unchanged");
    near(cml::trace_3x3(m), o(0, 0) + o(1, 1) + o(2, 2), 0, "trace-3x3"); mon::bin("basis-3D");
    BE s(o.nb, o.nd); s(1, 2) = x[0]; s(2, 1) = -x[0]; s(2, 0) = x[1]; s(0, 2) = -x[1]; s(0, 1) = x[2]; s(1, 0) = -x[2]; form<E, 3>(g, x, [&](const auto& v) { cml::matrix_skew_symmetric(m, v); }); ck(m, s, 0, "skew-symmetric"); { V3 p = {x[0], x[1], x[2]}, q = {y[0], y[1], y[2]}; near(v3(cml::transform_vector(m, yv.v)), cross(p, q), 8 * mon::eps<E>() * big(x) * big(y), "skew-symmetric-is-cross-product"); }
  }
}
// a linear source in any storage, layout and (same or other) basis
template<class E, class B, class F> void linear_form(Rng& g, const BE& l, F f) {
  typedef typename std::conditional<std::is_same<B, row_basis>::value, col_basis, row_basis>::type O; const int k = g.i(0, 5); mon::bin(fmt("linear-form/%d", k));
  if(k == 0) { cml::matrix<E, fixed<3, 3>, B, row_major> m; write(m, l); f(m); } else if(k == 1) { cml::matrix<E, fixed<3, 3>, O, col_major> m; write(m, l); f(m); } else if(k == 2) { cml::matrix<double, dynamic<>, B, col_major> m(3, 3); write(m, l); f(m); } else if(k == 3) { cml::matrix<E, fixed<4, 4>, O, row_major> m; BE x(4, 4); for(auto& y : x.a) y = 31; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) x(i, j) = l(i, j); write(m, x); f(m); } else if(k == 4) { cml::matrix<E, fixed<3, 3>, B, col_major> m; write(m, l); f(-(-m)); } else { BE t(3, 3); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) t(j, i) = l(i, j); E buf[9]; cml::matrix<E, external<3, 3>, B, col_major> m(buf); write(m, t); f(cml::transpose(m)); }
}
template<class M> void affines(Rng& g) {
  typedef typename MH<M>::elem E; typedef typename MH<M>::basis B; const ld e = mon::eps<E>();
  BE l(3, 3); for(auto& x : l.a) { x = value(g); mon::mixd(double(x)); } const LV t = values(g, 3);
  IFFITS(3, 3) { auto h = target<M>(g, 3, 3); BE w = bident(read(h->m).nb, read(h->m).nd); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) w(i, j) = l(i, j); linear_form<E, B>(g, l, [&](const auto& x) { cml::matrix_linear_transform(h->m, x); }); ck(h->m, w, 0, "linear-transform"); maps(g, h->m, 3, "linear-transform"); mon::bin("linear"); }
  IFFITS(4, 3) {
    auto h = target<M>(g, 4, 3); const BE o = read(h->m); BE w = bident(o.nb, o.nd), w2; for(int i = 0; i < 3; ++i) { for(int j = 0; j < 3; ++j) w(i, j) = l(i, j); w(3, i) = t[i]; } w2 = w; w2(3, 2) = 0;
    linear_form<E, B>(g, l, [&](const auto& x) { few<E, 3>(g, t, [&](const auto& v) { cml::matrix_affine_transform(h->m, x, v); }); }); ck(h->m, w, 0, "affine-transform"); maps(g, h->m, 3, "affine-transform"); write(h->m, o); linear_form<E, B>(g, l, [&](const auto& x) { few<E, 2>(g, LV{t[0], t[1]}, [&](const auto& v) { cml::matrix_affine_transform(h->m, x, v); }); }); ck(h->m, w2, 0, "affine-transform-2-vector"); mon::bin("affine");
    // rotation and translation
    V3 u = unit3(g); const E th = E(g.r(-7, 7)); LV ul = {u[0], u[1], u[2]}; const VH<vector<E, fixed<3>>> uv(std::vector<E>(ul.begin(), ul.end())); const R3 r = rodrigues(unit(v3(uv.v)), th); w = bident(o.nb, o.nd); for(int i = 0; i < 3; ++i) { for(int j = 0; j < 3; ++j) w(i, j) = r(j, i); w(3, i) = t[i]; } w2 = w; w2(3, 2) = 0; const ld tol = 32 * e;
    write(h->m, o); form<E, 3>(g, t, [&](const auto& v) { if(g.coin()) cml::matrix_affine_transform(h->m, uv.v, th, v); else cml::matrix_affine_transform(h->m, uv.v, th, v, false); }); ck(h->m, w, tol, "affine-axis-angle"); { const BE b = read(h->m); for(int i = 0; i < 3; ++i) near(b(3, i), t[i], 0, "affine-axis-angle-translation"); }
    write(h->m, o); const E f = E(g.coin() ? 3 : 0.25); form<E, 2>(g, LV{t[0], t[1]}, [&](const auto& v) { if(g.coin()) { cml::vector<E, fixed<3>> a(uv.v * f); cml::matrix_affine_transform(h->m, a, th, v, true); } else cml::matrix_affine_transform(h->m, f * uv.v, th, v, true); }); ck(h->m, w2, tol, "affine-axis-angle-normalized"); mon::bin("affine-axis-angle");
    // rigid inverse
    write(h->m, o); cml::matrix_rotation_axis_angle(h->m, uv.v, th); cml::matrix_set_translation(h->m, E(t[0]), E(t[1]), E(t[2])); BE inv = w; for(int i = 0; i < 3; ++i) { inv(3, i) = 0; for(int j = 0; j < 3; ++j) { inv(i, j) = r(i, j); inv(3, i) -= r(j, i) * t[j]; } }
    const BE before = read(h->m); const ld ti = 64 * e * big(t); cml::matrix_invert_RT_only(h->m); auto ckinv = [&](const M& m, const std::string& k) { ck(m, inv, ti, k); const LV p = values(g, 3); std::vector<E> pe(p.begin(), p.end()); VH<vector<E, dynamic<>>> v(pe); auto q = cml::transform_point(m, v.v); LV ql; for(int i = 0; i < 3; ++i) ql.push_back(q.get(i)); const LV back = image(before, ql, 1); mon::ev(); ckvec(v.v, back, 256 * e * (big(p) + big(t)), k + "-maps-back"); };
    ckinv(h->m, "invert-RT-only"); mon::bin("invert-RT-only"); const int nb = o.nb, nd = o.nd; const bool aff = nd == 3 && nb == 4 || nb == 4 && nd == 4; if constexpr(MH<M>::dyn || (Fits<M, 4, 3>::nb == 4 && (Fits<M, 4, 3>::nd == 3 || Fits<M, 4, 3>::nd == 4)) || Fits<M, 4, 3>::nb < 0) { if(aff) { write(h->m, before); cml::matrix_invert_RT(h->m); ckinv(h->m, "invert-RT"); mon::bin("invert-RT-3D"); } }
  }
  IFFITS(3, 2) {
    auto h = target<M>(g, 3, 2); const BE o = read(h->m); const ld th = g.r(-7, 7); BE b = bident(o.nb, o.nd), inv; const E c = E(std::cos(th)), s = E(std::sin(th)); b(0, 0) = c; b(0, 1) = s; b(1, 0) = -s; b(1, 1) = c; b(2, 0) = t[0]; b(2, 1) = t[1]; write(h->m, b); inv = b; inv(0, 1) = -s; inv(1, 0) = s; inv(2, 0) = -(ld(c) * t[0] + ld(s) * t[1]); inv(2, 1) = -(-ld(s) * t[0] + ld(c) * t[1]);
    cml::matrix_invert_RT_only_2D(h->m); ck(h->m, inv, 8 * e * big(t), "invert-RT-only-2D"); mon::bin("invert-RT-only-2D"); const int nb = o.nb, nd = o.nd; if constexpr((Fits<M, 3, 2>::nb == 3 && Fits<M, 3, 2>::nd <= 3) || Fits<M, 3, 2>::nb < 0) { if(nb == 3 && (nd == 2 || nd == 3)) { write(h->m, b); cml::matrix_invert_RT(h->m); ck(h->m, inv, 8 * e * big(t), "invert-RT-2D"); mon::bin("invert-RT-2D"); } }
  }
}
// rigid inverse in any dimension
template<class M> void rigid(Rng& g) {
  typedef typename MH<M>::elem E; typedef MH<M> H; const bool row = std::is_same<typename H::basis, row_basis>::value; int nb, nd; if(H::R_ > 0) { nb = row ? H::R_ : H::C_; nd = row ? H::C_ : H::R_; } else { nd = g.i(2, 6); nb = g.coin() ? nd : nd + 1; } const int n = nb == nd ? nd - 1 : nd; if(n < 1) return;
  // an orthogonal matrix: a signed permutation times Givens rotations
  BE q(n, n); std::vector<int> p(n); for(int i = 0; i < n; ++i) p[i] = i; for(int i = n - 1; i > 0; --i) std::swap(p[i], p[g.i(0, i)]); for(int i = 0; i < n; ++i) q(i, p[i]) = g.coin() ? 1 : -1; if(g.coin(2, 3)) for(int k = 0; k < n; ++k) { int a = g.i(0, n - 1), b = g.i(0, n - 1); if(a == b) continue; ld th = g.r(-3, 3), c = std::cos(th), s = std::sin(th); for(int j = 0; j < n; ++j) { ld x = q(a, j), y = q(b, j); q(a, j) = c * x - s * y; q(b, j) = s * x + c * y; } }
  const LV t = values(g, n); BE b = bident(nb, nd); for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) b(i, j) = E(q(i, j)); b(n, i) = t[i]; } BE inv = bident(nb, nd); for(int i = 0; i < n; ++i) { inv(n, i) = 0; for(int j = 0; j < n; ++j) { inv(i, j) = b(j, i); inv(n, i) -= b(i, j) * t[j]; } }
  RM<E> x(row ? nb : nd, row ? nd : nb); H h(x); write(h.m, b); mon::mix(nb * 16 + nd); cml::matrix_invert_RT(h.m); ck(h.m, inv, 4 * n * mon::eps<E>() * big(t), "invert-RT", fmt("%dx%d", h.m.rows(), h.m.cols())); mon::bin(fmt("rigid/%s-%d", nb == nd ? "square" : "rectangular", n)); cml::matrix_invert_RT(h.m); ck(h.m, b, 16 * n * n * mon::eps<E>() * big(t) * 4, "invert-RT-twice");
}
template<class M1, class M2> void concats(Rng& g) {
  typedef MH<M1> H1; typedef MH<M2> H2; const int n = H1::R_ > 0 ? H1::R_ : H2::R_ > 0 ? H2::R_ : g.i(1, 6); const int lim = 9; auto x = rmat<typename H1::elem>(g, n, n, lim); auto y = rmat<typename H2::elem>(g, n, n, lim); const H1 a(x); const H2 b(y); const BE p = read(a.m), q = read(b.m); BE w(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int k = 0; k < n; ++k) w(i, j) += p(i, k) * q(k, j);
  auto c = cml::matrix_concat(a.m, b.m); ck(c, w, 0, "concat"); ck(cml::matrix_concat(M1(a.m) , b.m), w, 0, "concat-temporary"); ck(cml::matrix_concat(-a.m, -b.m), w, 0, "concat-expressions"); ck(a.m, p, 0, "concat-operand"); ck(b.m, q, 0, "concat-operand"); cml::matrix<double, dynamic<>, typename H1::basis, typename H1::layout> d; d = cml::matrix_concat(a.m, b.m); ck(d, w, 0, "concat-assigned"); mon::bin(fmt("concat/%d", n));
  // applying the concatenation is applying the first, then the second
  if(n >= 3) { auto v = rvec<double>(g, 3); cml::vector<double, fixed<3>> u(v[0], v[1], v[2]); auto z = cml::transform_vector(c, u); if(n == 3) { auto z2 = cml::transform_vector(b.m, cml::transform_vector(a.m, u)); near(v3(z), v3(z2), 0, "concat-applies-in-order"); } }
}
template<class M, class V> void images(Rng& g) {   // general matrices: vector, point, projective point
  typedef typename MH<M>::elem E; typedef VH<V> W; typedef typename W::elem F; auto get = [&](int n) { LV l = values(g, n); for(auto& x : l) x = F(x); return l; }; auto mk = [&](const LV& l) { return std::vector<F>(l.begin(), l.end()); };
  auto tolof = [&](const BE& b, const LV& v) { ld s = 0; for(ld x : v) s += std::fabs(x); return 16 * std::max(mon::eps<E>(), mon::eps<F>()) * big(b) * (s + 1); };
  IFFITS(2, 2) if constexpr(W::N_ == 2 || W::N_ < 0) { auto h = target<M>(g, 2, 2); BE b = read(h->m); for(auto& x : b.a) x = E(value(g)); write(h->m, b); const LV v = get(2); const W w(mk(v)); ckvec(cml::transform_vector_2D(h->m, w.v), image(b, v, 0), tolof(b, v), "transform-vector-2D"); if constexpr(Fits<M, 3, 2>::value) if(b.nb > 2) { ckvec(cml::transform_point_2D(h->m, w.v), image(b, v, 1), tolof(b, v), "transform-point-2D"); ckvec(cml::transform_point_2D(-h->m, -w.v), [&] { BE n = b; for(auto& x : n.a) x = -x; LV u(v); for(auto& x : u) x = -x; return image(n, u, 1); }(), tolof(b, v), "transform-point-2D-expression"); } ckvec(w.v, v, 0, "transform-operand"); ck(h->m, b, 0, "transform-matrix"); mon::bin("image-2D"); }
  IFFITS(3, 3) if constexpr(W::N_ == 3 || W::N_ < 0) { auto h = target<M>(g, 3, 3); BE b = read(h->m); for(auto& x : b.a) x = E(value(g)); write(h->m, b); const LV v = get(3); const W w(mk(v)); ckvec(cml::transform_vector(h->m, w.v), image(b, v, 0), tolof(b, v), "transform-vector"); ckvec(cml::transform_vector(h->m, w.v + w.v - w.v), image(b, v, 0), 4 * tolof(b, v), "transform-vector-expression"); if constexpr(Fits<M, 4, 3>::value) if(b.nb > 3) { ckvec(cml::transform_point(h->m, w.v), image(b, v, 1), tolof(b, v), "transform-point"); V3 d; auto p = cml::transform_point(h->m, w.v), o = cml::transform_point(h->m, w.v - w.v); auto q = cml::transform_vector(h->m, w.v); for(int i = 0; i < 3; ++i) d[i] = ld(p[i]) - o[i]; near(d, v3(q), 4 * tolof(b, v), "point-minus-origin-is-vector"); } mon::bin("image-3D"); }
  if constexpr(Fits<M, 4, 4>::value && (Fits<M, 4, 4>::nb == 4 && Fits<M, 4, 4>::nd == 4 || Fits<M, 4, 4>::nb < 0)) {
    RM<E> r(4, 4); MH<M> h(r); BE b(4, 4); for(auto& x : b.a) { x = E(value(g)); mon::mixd(double(x)); } write(h.m, b);
    if constexpr(W::N_ == 4 || W::N_ < 0) { const LV v = get(4); const W w(mk(v)); ckvec(cml::transform_vector_4D(h.m, w.v), image(b, v, 0), tolof(b, v), "transform-vector-4D"); ckvec(cml::transform_vector_4D(-h.m, -w.v), image(b, v, 0), tolof(b, v), "transform-vector-4D-expression"); mon::bin("image-4D"); }
    if constexpr(W::N_ == 3 || W::N_ < 0) { const LV v = get(3); const W w(mk(v)); LV u(v); u.push_back(1); LV i = image(b, u, 0); ld s = big(i); if(std::fabs(i[3]) > 1e-3L * tolof(b, u) / mon::eps<F>() && std::fabs(i[3]) > 0.01L) { LV p = {i[0] / i[3], i[1] / i[3], i[2] / i[3]}; const ld tol = tolof(b, u) / std::fabs(i[3]) * (2 + s / std::fabs(i[3])); ckvec(cml::transform_point_4D(h.m, w.v), p, tol, "transform-point-4D"); mon::bin("point-4D"); for(auto& x : b.a) x = -x; write(h.m, b); ckvec(cml::transform_point_4D(h.m, w.v), p, tol, "transform-point-4D-negated-matrix"); } }
  }
}
// whole numbers throughout: every image is exact, and projection is the language's division of whole numbers
template<class M, class V> void whole(Rng& g) {
  typedef typename MH<M>::elem E; typedef VH<V> W; typedef typename W::elem F; auto get = [&](int n) { LV l(n); for(auto& x : l) { x = g.i(-9, 9); mon::mixd(double(x)); } return l; }; auto mk = [&](const LV& l) { return std::vector<F>(l.begin(), l.end()); };
  auto fill = [&](auto& h) { BE b = read(h.m); for(auto& x : b.a) { x = g.i(-99, 99); mon::mixd(double(x)); } write(h.m, b); return b; };
  IFFITS(2, 2) if constexpr(W::N_ == 2 || W::N_ < 0) { auto h = target<M>(g, 2, 2); const BE b = fill(*h); const LV v = get(2); const W w(mk(v)); ckvec(cml::transform_vector_2D(h->m, w.v), image(b, v, 0), 0, "whole/transform-vector-2D"); if constexpr(Fits<M, 3, 2>::value) if(b.nb > 2) { ckvec(cml::transform_point_2D(h->m, w.v), image(b, v, 1), 0, "whole/transform-point-2D"); mon::bin("whole-2D"); } }
  IFFITS(3, 3) if constexpr(W::N_ == 3 || W::N_ < 0) { auto h = target<M>(g, 3, 3); const BE b = fill(*h); const LV v = get(3); const W w(mk(v)); ckvec(cml::transform_vector(h->m, w.v), image(b, v, 0), 0, "whole/transform-vector"); if constexpr(Fits<M, 4, 3>::value) if(b.nb > 3) { ckvec(cml::transform_point(h->m, w.v), image(b, v, 1), 0, "whole/transform-point"); mon::bin("whole-3D"); } }
  if constexpr(Fits<M, 4, 4>::value && (Fits<M, 4, 4>::nb == 4 && Fits<M, 4, 4>::nd == 4 || Fits<M, 4, 4>::nb < 0)) {
    RM<E> r(4, 4); MH<M> h(r); const BE b = fill(h);
    if constexpr(W::N_ == 4 || W::N_ < 0) { const LV v = get(4); const W w(mk(v)); ckvec(cml::transform_vector_4D(h.m, w.v), image(b, v, 0), 0, "whole/transform-vector-4D"); }
    if constexpr(W::N_ == 3 || W::N_ < 0) { const LV v = get(3); const W w(mk(v)); LV u(v); u.push_back(1); const LV i = image(b, u, 0); if(i[3] != 0) { auto p = cml::transform_point_4D(h.m, w.v); const bool ints = std::is_integral<cml::value_type_of_t<decltype(p)>>::value; LV q(3); for(int k = 0; k < 3; ++k) q[k] = ints ? std::trunc(i[k] / i[3]) : i[k] / i[3]; ckvec(p, q, ints ? 0 : 8 * mon::eps<double>() * big(i), "whole/transform-point-4D", fmt("w=%.0Lf", i[3])); mon::bin("whole-4D"); } }
  }
}
void generators(Rng& g) {
  auto ckz = [](const auto& m, int r, int c, int id) { mon::ev(); bool ok = m.rows() == r && m.cols() == c; for(int i = 0; ok && i < r; ++i) for(int j = 0; j < c; ++j) ok &= m(i, j) == (id && i == j ? 1 : 0); mon::check(ok, id ? "identity-generator" : "zero-generator", showm(m)); };
  ckz(cml::zero<2, 3>(), 2, 3, 0); ckz(cml::zero<5, 1>(), 5, 1, 0); ckz(cml::zero_2x2(), 2, 2, 0); ckz(cml::zero_3x3(), 3, 3, 0); ckz(cml::zero_4x4(), 4, 4, 0); ckz(cml::identity<3, 5>(), 3, 5, 1); ckz(cml::identity<6, 6>(), 6, 6, 1); ckz(cml::identity_2x2(), 2, 2, 1); ckz(cml::identity_3x3(), 3, 3, 1); ckz(cml::identity_4x4(), 4, 4, 1);
  auto cka = [](const auto& v, int n, int k) { mon::ev(); bool ok = v.size() == n; for(int i = 0; ok && i < n; ++i) ok &= v[i] == (i == k ? 1 : 0); mon::check(ok, k < 0 ? "zero-vector-generator" : "axis-generator", showv(v)); };
  cka(cml::zero<7>(), 7, -1); cka(cml::zero_2D(), 2, -1); cka(cml::zero_3D(), 3, -1); cka(cml::zero_4D(), 4, -1); const int i = g.i(0, 4); mon::mix(g.next()); cka(cml::axis<5>(i), 5, i); cka(cml::axis_2D(i % 2), 2, i % 2); cka(cml::axis_3D(i % 3), 3, i % 3); cka(cml::x_axis_2D(), 2, 0); cka(cml::y_axis_2D(), 2, 1); cka(cml::x_axis_3D(), 3, 0); cka(cml::y_axis_3D(), 3, 1); cka(cml::z_axis_3D(), 3, 2);
  { VH<vector<double, dynamic<>>> a(rvec<double>(g, 4)); a.v.cardinal(i % 4); cka(a.v, 4, i % 4); a.v.zero(); cka(a.v, 4, -1); } mon::bin("generators");
}
template<class M> void all(Rng& g) { scales<M>(g); translations<M>(g); bases<M>(g); affines<M>(g); }
template<class E, class B, class L> struct S { template<int R, int C> using F = matrix<E, fixed<R, C>, B, L>; template<int R, int C> using X = matrix<E, external<R, C>, B, L>; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<>, B, L> XD; };
typedef S<double, col_basis, row_major> A; typedef S<double, row_basis, col_major> B; typedef S<float, col_basis, col_major> C; typedef S<float, row_basis, row_major> D;
#define COMMA ,
#define ALL(n, k, ...) mon::group(n, k, all<__VA_ARGS__>)
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  ALL("a44", 300, A::F<4, 4>); ALL("b43", 300, B::F<4, 3>);
#elif PART == 1
  ALL("c34", 300, C::F<3, 4>); ALL("d44", 300, D::F<4, 4>);
#elif PART == 2
  ALL("a-dyn", 400, A::D); ALL("d-dyn", 400, D::D);
#elif PART == 3
  ALL("b-ext", 400, B::XD); ALL("c-ext", 400, C::XD);
#elif PART == 4
  ALL("a33", 300, A::F<3, 3>); ALL("b32", 300, B::F<3, 2>); ALL("c23", 300, C::F<2, 3>); ALL("d22", 300, D::F<2, 2>);
#elif PART == 5
  ALL("a44x", 300, A::X<4, 4>); ALL("d43x", 300, D::X<4, 3>); ALL("c33x", 300, C::X<3, 3>);
#elif PART == 6
  ALL("b55", 300, B::F<5, 5>); ALL("c46", 300, C::F<4, 6>); ALL("b44", 300, B::F<4, 4>);
#elif PART == 7
  ALL("b-dyn", 300, B::D); ALL("c-dyn", 300, C::D);
#elif PART == 8
  ALL("a-ext", 300, A::XD); ALL("d-ext", 300, D::XD);
#elif PART == 9
  mon::group("rigid-a-dyn", 2000, rigid<A::D>); mon::group("rigid-b-dyn", 2000, rigid<B::D>); mon::group("rigid-c-dyn", 2000, rigid<C::XD>); mon::group("rigid-d-dyn", 2000, rigid<D::D>); mon::group("rigid-a22", 500, rigid<A::F<2, 2>>); mon::group("rigid-a55", 500, rigid<A::F<5, 5>>); mon::group("rigid-b65", 500, rigid<B::F<6, 5>>); mon::group("rigid-c45", 500, rigid<C::F<4, 5>>); mon::group("rigid-d33", 500, rigid<D::X<3, 3>>); mon::group("generators", 200, generators);
#elif PART == 10
  mon::group("concat-a44", 500, concats<A::F<4, 4>, A::F<4, 4>>); mon::group("concat-a-dyn", 1000, concats<A::D, S<float, col_basis, row_major>::D>); mon::group("concat-b33", 500, concats<B::F<3, 3>, S<float, row_basis, col_major>::F<3, 3>>); mon::group("concat-c-mix", 500, concats<C::F<4, 4>, C::D>); mon::group("concat-d-mix", 1000, concats<D::D, D::F<3, 3>>); mon::group("concat-d44", 500, concats<D::F<4, 4>, S<double, row_basis, row_major>::D>);
#elif PART == 11
  mon::group("image-a44", 2000, images<A::F<4, 4>, vector<double, fixed<3>>>); mon::group("image-a44d", 1000, images<A::F<4, 4>, vector<double, dynamic<>>>); mon::group("image-b-dyn", 2000, images<B::D, vector<double, dynamic<>>>); mon::group("image-b43", 1000, images<B::F<4, 3>, vector<double, fixed<3>>>); mon::group("image-c34", 1000, images<C::F<3, 4>, vector<float, external<3>>>); mon::group("image-d44", 1000, images<D::X<4, 4>, vector<double, external<>>>); mon::group("image-d-ext", 1000, images<D::XD, vector<float, fixed<4>>>); mon::group("image-c-dyn2", 1000, images<C::D, vector<float, fixed<2>>>); mon::group("image-a23", 500, images<A::F<2, 3>, vector<float, fixed<2>>>); mon::group("image-c44", 500, images<C::F<4, 4>, vector<float, fixed<4>>>);
  typedef S<int, col_basis, row_major> I; typedef S<long long, row_basis, col_major> J; mon::group("whole-i44", 1000, whole<I::F<4, 4>, vector<int, fixed<3>>>); mon::group("whole-i-dyn", 1500, whole<I::D, vector<int, dynamic<>>>); mon::group("whole-j-ext", 1000, whole<J::XD, vector<int, external<>>>); mon::group("whole-j43", 500, whole<J::F<4, 3>, vector<long long, fixed<3>>>); mon::group("whole-i-double", 500, whole<I::D, vector<double, fixed<3>>>); mon::group("whole-a-int", 500, whole<A::D, vector<int, fixed<3>>>); mon::group("whole-j4", 500, whole<J::X<4, 4>, vector<int, fixed<4>>>); mon::group("whole-i33", 500, whole<I::F<3, 3>, vector<int, external<2>>>);
#endif
  return mon::finish();
}
