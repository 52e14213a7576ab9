// C08: comparison operators against lexicographic order of plain sequences, over all representations of the two sides.
#include "reps.h"
#include <algorithm>
#include <map>
#include <set>
using namespace zoo; using mon::Rng; using mon::fmt; using mon::ld;

// values that make ties, near-ties and extremes likely; exact in every type compared
template<class E> E val(Rng& g, int kind) {
  typedef std::numeric_limits<E> L;
  if(kind == 0) return E(g.i(0, 2)) - E(std::is_signed<E>::value ? 1 : 0);
  if(std::is_floating_point<E>::value) switch(g.i(0, 9)) {
    case 0: return E(0); case 1: return E(-0.0); case 2: return E(L::min()); case 3: return E(L::denorm_min()); case 4: return E(-L::denorm_min());
    case 5: return L::max(); case 6: return L::lowest(); case 7: return E(1); case 8: return std::nextafter(float(1), float(g.i(0, 2))); default: return E(g.coin() ? L::infinity() : -L::infinity());
  }
  switch(g.i(0, 4)) { case 0: return L::max(); case 1: return L::lowest(); case 2: return E(L::max() - 1); case 3: return E(0); default: return E(1); }
}
template<class E> std::vector<E> seq(Rng& g, int n, int kind) { std::vector<E> v(n); for(auto& x : v) x = val<E>(g, kind); return v; }
template<class A, class B> int cmp(const std::vector<A>& a, const std::vector<B>& b) {
  for(size_t i = 0; i < a.size() && i < b.size(); ++i) { if(ld(a[i]) < ld(b[i])) return -1; if(ld(a[i]) > ld(b[i])) return 1; }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
void judge(unsigned a, int c, const std::string& w) {
  const bool lt = a & 1, le = a & 2, gt = a & 4, ge = a & 8, eq = a & 16, ne = a & 32; mon::ev(9);
  auto d = [&] { return w + fmt(": < %d <= %d > %d >= %d == %d != %d, reference %d", lt, le, gt, ge, eq, ne, c); };
  if(eq != (c == 0)) mon::fail("equal", d());
  if(ne != (c != 0)) mon::fail("not-equal", d());
  if(lt != (c < 0)) mon::fail("less", d());
  if(gt != (c > 0)) mon::fail("greater", d());
  if(le != (c <= 0)) mon::fail("less-equal", d());
  if(ge != (c >= 0)) mon::fail("greater-equal", d());
  const unsigned b = a >> 6; if((b & 1) != gt || (b >> 2 & 1) != lt || (b >> 4 & 1) != eq || (b >> 5 & 1) != ne || (b >> 1 & 1) != ge || (b >> 3 & 1) != le) mon::fail("converse", d());
  if(int(lt) + int(gt) + int(eq) != 1) mon::fail("trichotomy", d());
  if(le != (lt || eq) || ge != (gt || eq) || ne == eq) mon::fail("operators-agree", d());
  mon::bin(c < 0 ? "result/less" : c > 0 ? "result/greater" : "result/equal");
}
template<class L, class R> unsigned ops6(const L& l, const R& r) { return (l < r) | (l <= r) << 1 | (l > r) << 2 | (l >= r) << 3 | (l == r) << 4 | (l != r) << 5; }
template<class L, class R> void six(const L& l, const R& r, int c, const std::string& w) { judge(ops6(l, r) | ops6(r, l) << 6, c, w); }
// derive a second value close to the first: equal, one element changed, prefix, extension
template<class A, class B> std::vector<B> near(Rng& g, const std::vector<A>& x, int kind) {
  std::vector<B> y; for(auto e : x) y.push_back(B(e));
  switch(g.i(0, 4)) {
  case 0: break;
  case 1: if(y.size()) y[g.i(0, int(y.size()) - 1)] = val<B>(g, kind); break;
  case 2: if(y.size()) y.pop_back(); break;
  case 3: y.push_back(val<B>(g, kind)); break;
  default: y = seq<B>(g, g.coin() ? int(x.size()) : g.n(0, 5, 40), kind);
  }
  return y;
}
template<class A, class B> void vecs(Rng& g) {
  const int kind = std::is_same<A, B>::value && g.coin(1, 3) ? 1 : 0;
  auto x = seq<A>(g, g.n(0, 5, 40), kind); auto y = near<A, B>(g, x, kind);
  const int i = g.i(0, 12), j = g.i(0, 12);
  mon::mix(i * 16 + j); for(auto e : x) mon::mixd(double(e)); for(auto e : y) mon::mixd(double(e));
  const int c = cmp(x, y); const std::string w = std::string(RN[i]) + show(x) + " vs " + RN[j] + show(y);
  rep<A>(i, x, [&](const auto& l) { rep<B>(j, y, [&](const auto& r) { six(l, r, c, w); }); });
  mon::bin(std::string("left/") + RN[i]); mon::bin(std::string("right/") + RN[j]); if(x.size() != y.size()) mon::bin("sizes-differ");
  if(mon::noting()) mon::note(w);
}
// reflexive on one object, and axioms over triples without the reference
template<class E> void triples(Rng& g) {
  const int kind = g.coin(1, 4); auto x = seq<E>(g, g.n(0, 4, 30), kind); auto y = near<E, E>(g, x, kind), z = near<E, E>(g, y, kind);
  VH<vector<E, dynamic<>>> a(x), c(z); VH<vector<E, external<>>> b(y);
  for(auto e : x) mon::mixd(e); for(auto e : y) mon::mixd(e); for(auto e : z) mon::mixd(e);
  six(a.v, a.v, 0, "itself " + show(x)); six(b.v, b.v, 0, "itself " + show(y));
  auto s = show(x) + show(y) + show(z);
  if(a.v < b.v && b.v < c.v) { mon::check(a.v < c.v, "transitive-less", s); mon::bin("triples/chain"); }
  if(a.v <= b.v && b.v <= c.v) mon::check(a.v <= c.v, "transitive-less-equal", s);
  if(a.v == b.v && b.v == c.v) { mon::check(a.v == c.v, "transitive-equal", s); mon::bin("triples/equal"); }
  if(a.v == b.v) mon::check((a.v < c.v) == (b.v < c.v) && (a.v > c.v) == (b.v > c.v), "equal-values-order-alike", s);
  ckv(a.v, x, "operand-unchanged"); ckv(b.v, y, "operand-unchanged"); ckv(c.v, z, "operand-unchanged");
}
// ordered containers and sorting
template<class V> void sorting(Rng& g) {
  typedef VH<V> H; typedef typename H::elem E; std::vector<std::vector<E>> ref; std::vector<V> v; std::set<V> st; std::map<V, int> mp;
  const int n = g.i(3, 40);
  for(int i = 0; i < n; ++i) { ref.push_back(seq<E>(g, H::N_ > 0 ? H::N_ : g.i(0, 3), 0)); H h(ref.back()); v.push_back(h.v); st.insert(h.v); mp[h.v] = i; for(auto e : ref.back()) mon::mixd(e); }
  auto last = std::map<std::vector<E>, int>(); for(int i = 0; i < n; ++i) last[ref[i]] = i;
  for(int i = 0; i < n; ++i) mon::check(mp[v[i]] == last[ref[i]], "map-lookup", show(ref[i]));
  mon::check(st.size() == last.size() && mp.size() == last.size(), "set-size", fmt("%d of %d", int(st.size()), int(last.size())));
  std::sort(v.begin(), v.end()); std::sort(ref.begin(), ref.end());
  for(int i = 0; i < n; ++i) ckv(v[i], ref[i], "sorted");
  mon::bin("sorted-sequences");
}
template<class E> void quat_sort(Rng& g) { sorting<E>(g); }
/* matrices */
template<class A, class B> void mats(Rng& g) {
  const int kind = std::is_same<A, B>::value && g.coin(1, 3) ? 1 : 0;
  const bool m6 = g.coin(1, 3); RM<A> x(m6 ? 2 : g.n(0, 3, 12), m6 ? 3 : g.n(0, 3, 12)); for(auto& e : x.a) e = val<A>(g, kind);
  RM<B> y(x.r, x.c); for(size_t i = 0; i < y.a.size(); ++i) y.a[i] = B(x.a[i]);
  switch(g.i(0, 5)) {
  case 0: case 1: break;
  case 2: { std::swap(y.r, y.c); break; }  // same elements, other shape
  case 3: { RM<B> t(y.c, y.r); for(int i = 0; i < y.r; ++i) for(int j = 0; j < y.c; ++j) t(j, i) = y(i, j); y = t; break; }
  default: if(y.a.size()) y.a[g.i(0, int(y.a.size()) - 1)] = val<B>(g, kind);
  }
  bool eq = x.r == y.r && x.c == y.c; for(size_t i = 0; eq && i < x.a.size(); ++i) eq = ld(x.a[i]) == ld(y.a[i]);
  const int i = g.i(0, 10), j = g.i(0, 10); mon::mix(i * 16 + j); mon::mix(x.r * 4 + x.c); for(auto e : x.a) mon::mixd(double(e)); for(auto e : y.a) mon::mixd(double(e));
  const std::string w = std::string(MN[i]) + show(x) + " vs " + MN[j] + show(y);
  mrep<A>(i, x, [&](const auto& l) { mrep<B>(j, y, [&](const auto& r) {
    mon::check((l == r) == eq, "equal", w); mon::check((l != r) == !eq, "not-equal", w);
    mon::check((r == l) == eq, "equal-converse", w); mon::check((r != l) == !eq, "not-equal-converse", w); mon::check(l == l && !(l != l), "reflexive", w); }); });
  mon::bin(std::string("matrix/") + MN[i]); mon::bin(eq ? "matrix-result/equal" : "matrix-result/different"); if(mon::noting()) mon::note(w);
}
/* quaternions: lexicographic in storage order */
template<class Q, class F> void qrep(int k, const std::vector<typename Q::value_type>& x, F f) {
  Q q; for(int i = 0; i < 4; ++i) q[i] = x[i];
  switch(k) { default: return f(q); case 1: return f(-(-q)); case 2: return f(cml::conjugate(cml::conjugate(q))); case 3: return f(q * typename Q::value_type(1)); case 4: { Q z; z.zero(); return f(q - z); } case 5: { const Q c(q); return f(c); } case 6: return f(Q(q)); }
}
template<class P, class Q> void quats(Rng& g) {
  typedef typename P::value_type A; typedef typename Q::value_type B; const int kind = std::is_same<A, B>::value && g.coin(1, 3) ? 1 : 0;
  auto x = seq<A>(g, 4, kind); std::vector<B> y(x.begin(), x.end()); if(g.coin(3, 4)) for(int r = g.i(1, 2); r--;) y[g.i(0, 3)] = val<B>(g, kind);
  const int i = g.i(0, 6), j = g.i(0, 6); mon::mix(i * 16 + j); for(auto e : x) mon::mixd(double(e)); for(auto e : y) mon::mixd(double(e));
  const std::string w = fmt("quaternion %d", i) + show(x) + fmt(" vs %d", j) + show(y); const int c = cmp(x, y);
  qrep<P>(i, x, [&](const auto& l) { qrep<Q>(j, y, [&](const auto& r) { six(l, r, c, w); }); });
  mon::bin("quaternion/pairs"); if(mon::noting()) mon::note(w);
  P a, b; for(int t = 0; t < 4; ++t) { a[t] = x[t]; b[t] = A(y[t]); } auto y2 = seq<A>(g, 4, 0); P e; for(int t = 0; t < 4; ++t) e[t] = y2[t];
  if(a < b && b < e) mon::check(a < e, "transitive-less", w); if(a == b) mon::check((a < e) == (b < e), "equal-values-order-alike", w);
}
#define Q_(T, B, O) cml::quaternion<T, fixed<>, cml::B, cml::O>

int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  mon::group("vec-dd", 40000, vecs<double, double>);
  mon::group("triples-d", 8000, triples<double>); mon::group("triples-i", 8000, triples<int>);
#elif PART == 1
  mon::group("vec-ff", 20000, vecs<float, float>); mon::group("sort-d", 500, sorting<vector<double, dynamic<>>>); mon::group("sort-i3", 500, sorting<vector<int, fixed<3>>>); mon::group("sort-f2", 300, sorting<vector<float, fixed<2>>>);
#elif PART == 2
  mon::group("vec-ii", 40000, vecs<int, int>);
#elif PART == 3
  mon::group("vec-df", 20000, vecs<double, float>);
#elif PART == 4
  mon::group("vec-id", 20000, vecs<int, double>);
  mon::group("quat-rp", 8000, quats<Q_(double, real_first, positive_cross), Q_(double, real_first, positive_cross)>); mon::group("quat-ip", 8000, quats<Q_(float, imaginary_first, positive_cross), Q_(float, imaginary_first, positive_cross)>);
  mon::group("quat-rn-mixed", 8000, quats<Q_(double, real_first, negative_cross), Q_(float, real_first, negative_cross)>); mon::group("quat-in", 8000, quats<Q_(double, imaginary_first, negative_cross), Q_(double, imaginary_first, negative_cross)>);
#elif PART == 5
  mon::group("mat-dd", 30000, mats<double, double>); mon::group("mat-if", 10000, mats<int, float>);
#elif PART == 6
  mon::group("mat-fd", 15000, mats<float, double>); mon::group("mat-ii", 15000, mats<int, int>);
  mon::group("vec-uu", 10000, vecs<unsigned, unsigned>);
#endif
  return mon::finish();
}
