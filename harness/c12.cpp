// C12: quaternion algebra against Hamilton's product on named components, in every component order and cross convention.
#include "mon.h"
#include <cml/cml.h>
#include <sstream>
using namespace cml; using mon::Rng; using mon::fmt; using mon::ld;
struct Q4 { ld w, x, y, z; };
Q4 operator+(Q4 a, Q4 b) { return {a.w + b.w, a.x + b.x, a.y + b.y, a.z + b.z}; }
Q4 operator-(Q4 a, Q4 b) { return {a.w - b.w, a.x - b.x, a.y - b.y, a.z - b.z}; }
Q4 operator*(Q4 a, ld s) { return {a.w * s, a.x * s, a.y * s, a.z * s}; }
Q4 cj(Q4 a) { return {a.w, -a.x, -a.y, -a.z}; }
ld n2(Q4 a) { return a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z; }
ld nr(Q4 a) { return std::sqrt(n2(a)); }
ld dt(Q4 a, Q4 b) { return a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z; }
Q4 ham(Q4 a, Q4 b, int s) {  // s = +1: ij = k
  return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + b.w * a.x + s * (a.y * b.z - a.z * b.y), a.w * b.y + b.w * a.y + s * (a.z * b.x - a.x * b.z), a.w * b.z + b.w * a.z + s * (a.x * b.y - a.y * b.x)};
}
template<class Q> constexpr bool rf() { return std::is_same<typename Q::order_type, real_first>::value; }
template<class Q> constexpr int cs() { return std::is_same<typename Q::cross_type, positive_cross>::value ? 1 : -1; }
template<class Q> Q4 st(const ld (&e)[4]) { return rf<Q>() ? Q4{e[0], e[1], e[2], e[3]} : Q4{e[3], e[0], e[1], e[2]}; }
template<class Q> void sto(const Q4& q, ld (&e)[4]) { if(rf<Q>()) { e[0] = q.w; e[1] = q.x; e[2] = q.y; e[3] = q.z; } else { e[0] = q.x; e[1] = q.y; e[2] = q.z; e[3] = q.w; } }
std::string sh(const Q4& q) { return fmt("w%.9Lg x%.9Lg y%.9Lg z%.9Lg", q.w, q.x, q.y, q.z); }
template<class Q> std::string tag() { return std::string(rf<Q>() ? "real-first" : "imaginary-first") + (cs<Q>() > 0 ? "/positive" : "/negative") + (sizeof(typename Q::value_type) == 4 ? "/float" : sizeof(typename Q::value_type) == 8 ? "/double" : "/long-double"); }
// build a quaternion from components by storage writes only
template<class Q> Q mk(const Q4& q) { typedef typename Q::value_type E; Q r; ld e[4]; sto<Q>(q, e); for(int i = 0; i < 4; ++i) r.data()[i] = E(e[i]); return r; }
template<class Q> Q4 rd(const Q& q) { ld e[4]; for(int i = 0; i < 4; ++i) e[i] = q.data()[i]; return st<Q>(e); }
template<class T> struct order_of { typedef typename T::order_type type; };
// compare any readable quaternion with components: by name, by index, and by constant
template<class X> void ck(const X& q, const Q4& r, ld tol, const std::string& key) {
  mon::ev(); auto ok = [&](ld a, ld b) { return std::fabs(a - b) <= tol; };
  if(!(ok(q.w(), r.w) && ok(q.x(), r.x) && ok(q.y(), r.y) && ok(q.z(), r.z))) return mon::fail(key, "got " + sh({ld(q.w()), ld(q.x()), ld(q.y()), ld(q.z())}) + " want " + sh(r) + fmt(" tolerance %.2Lg", tol));
  const bool re = std::is_same<typename X::order_type, real_first>::value; const int W = re ? 0 : 3, I = re ? 1 : 0;
  if(!(q.get(W) == q.w() && q.get(I) == q.x() && q.get(I + 1) == q.y() && q.get(I + 2) == q.z() && q[W] == q.w() && q[I] == q.x() && q[I + 1] == q.y() && q[I + 2] == q.z())) mon::fail(key + "/index-access", "");
  if(q.size() != 4) mon::fail(key + "/size", "");
  if(q.real() != q.w()) mon::fail(key + "/real", "");
}
template<class X> void ckim(const X& v, const Q4& r, ld tol, const std::string& key) { mon::ev(); if(v.size() != 3 || !(std::fabs(v[0] - r.x) <= tol && std::fabs(v[1] - r.y) <= tol && std::fabs(v[2] - r.z) <= tol)) mon::fail(key, fmt("got %.9Lg %.9Lg %.9Lg want ", ld(v[0]), ld(v[1]), ld(v[2])) + sh(r)); }
void sc(ld a, ld b, ld tol, const std::string& key) { mon::ev(); if(!(std::fabs(a - b) <= tol)) mon::fail(key, fmt("got %.17Lg want %.17Lg tolerance %.2Lg", a, b, tol)); }

Q4 ints(Rng& g, int m = 20) { return {ld(g.i(-m, m)), ld(g.i(-m, m)), ld(g.i(-m, m)), ld(g.i(-m, m))}; }
template<class E> Q4 real4(Rng& g) {
  Q4 q; switch(g.i(0, 6)) {
  default: q = {g.gauss(), g.gauss(), g.gauss(), g.gauss()}; break;
  case 1: q = {g.gauss(), 0, 0, 0}; (&q.x)[g.i(0, 2)] = g.gauss(); mon::bin("input/axis"); break;
  case 2: { ld s = g.wide(-2, 2); q = Q4{g.gauss(), g.gauss(), g.gauss(), g.gauss()} * s; mon::bin("input/scaled"); break; }
  case 3: { q = {g.gauss(), g.gauss(), g.gauss(), g.gauss()}; q = q * (1 / nr(q)); mon::bin("input/unit"); break; }
  case 4: q = {0, g.gauss(), g.gauss(), g.gauss()}; mon::bin("input/pure"); break;
  case 5: { const ld s = std::pow(10.0L, g.i(-12, -1)); q = {g.r(0.5, 2), g.gauss() * s, g.gauss() * s, g.gauss() * s}; mon::bin("input/near-identity"); break; }
  }
  for(ld* p : {&q.w, &q.x, &q.y, &q.z}) { *p = E(*p); mon::mixd(double(*p)); }
  return q;
}

// construction, access, assignment
template<class Q> void build(Rng& g) {
  typedef typename Q::value_type E; const Q4 r = ints(g, 99), o = ints(g, 99); ld e[4], oe[4]; sto<Q>(r, e); sto<Q>(o, oe); const std::string t = "/" + tag<Q>(); for(ld x : e) mon::mixd(double(x)); mon::bin("build/" + tag<Q>()); if(mon::noting()) mon::note(tag<Q>() + " " + sh(r));
  const E E0 = E(e[0]), E1 = E(e[1]), E2 = E(e[2]), E3 = E(e[3]); const E a4[4] = {E0, E1, E2, E3}; const int i4[4] = {int(e[0]), int(e[1]), int(e[2]), int(e[3])}; const E a3[3] = {E(r.x), E(r.y), E(r.z)};
  cml::vector<E, fixed<3>> v3(E(r.x), E(r.y), E(r.z)); cml::vector<float, dynamic<>> vd(float(r.x), float(r.y), float(r.z)); cml::vector<int, fixed<3>> vi(int(r.x), int(r.y), int(r.z)); const E w = E(r.w);
  mon::check(int(Q::W) == (rf<Q>() ? 0 : 3) && int(Q::X) == (rf<Q>() ? 1 : 0) && int(Q::Y) == (rf<Q>() ? 2 : 1) && int(Q::Z) == (rf<Q>() ? 3 : 2), "component-indices" + t);
  Q q = mk<Q>(r); ck(q, r, 0, "access" + t);
  ck(Q(E0, E1, E2, E3), r, 0, "from-elements" + t); ck(Q(int(e[0]), float(e[1]), double(e[2]), E3), r, 0, "from-mixed-elements" + t); ck(Q(a4), r, 0, "from-array" + t); ck(Q(i4), r, 0, "from-int-array" + t); ck(Q(&a4[0]), r, 0, "from-pointer" + t); ck(Q({E0, E1, E2, E3}), r, 0, "from-list" + t); ck(Q{E0, E1, E2, E3}, r, 0, "from-braces" + t);
  ck(Q(v3, w), r, 0, "from-vector-scalar" + t); ck(Q(w, v3), r, 0, "from-scalar-vector" + t); ck(Q(vd, w), r, 0, "from-dynamic-vector" + t); ck(Q(int(r.w), vi), r, 0, "from-int-vector" + t); ck(Q(v3 + v3 - v3, w), r, 0, "from-vector-expression" + t); ck(Q(w, -(-v3)), r, 0, "from-scalar-expression" + t);
  ck(Q(a3, w), r, 0, "from-array3-scalar" + t); ck(Q(w, a3), r, 0, "from-scalar-array3" + t);
  { Q c(q), d(std::move(c)); ck(d, r, 0, "copy-move" + t); Q f = q + mk<Q>(o); ck(f, r + o, 0, "from-expression" + t); }
  { Q c = mk<Q>(o); Q& z = (c = q); mon::check(&z == &c, "assign-returns"); ck(c, r, 0, "assign" + t); c = mk<Q>(o); ck(c, o, 0, "assign-move" + t); c = a4; ck(c, r, 0, "assign-array" + t); c = i4; ck(c, r, 0, "assign-int-array" + t); c = {oe[0], oe[1], oe[2], oe[3]}; ck(c, o, 0, "assign-list" + t); c = q - c; ck(c, r - o, 0, "assign-expression" + t); c = q; c = c + c; ck(c, r * 2, 0, "assign-aliased" + t); c = c; ck(c, r * 2, 0, "self-assign" + t); }
  { Q c = mk<Q>(o); c.set(v3, w); ck(c, r, 0, "set-vector-scalar" + t); c = mk<Q>(o); c.set(w, v3); ck(c, r, 0, "set-scalar-vector" + t); c = mk<Q>(o); c.set(int(r.w), vi + vi - vi); ck(c, r, 0, "set-expression" + t); ck(Q(mk<Q>(o)).set(v3, w), r, 0, "set-temporary" + t); ck(Q(mk<Q>(o)).set(w, v3), r, 0, "set-temporary-2" + t); c.set(imaginary(mk<Q>(o)), real(mk<Q>(o))); ck(c, o, 0, "set-parts" + t); }
  { Q c = mk<Q>(o); c.w() = E(r.w); ck(c, {r.w, o.x, o.y, o.z}, 0, "write-w" + t); c.x() = E(r.x); ck(c, {r.w, r.x, o.y, o.z}, 0, "write-x" + t); c.y() = E(r.y); ck(c, {r.w, r.x, r.y, o.z}, 0, "write-y" + t); c.z() = E(r.z); ck(c, r, 0, "write-z" + t); }
  { Q c = mk<Q>(o); c[Q::W] = E(r.w); c[Q::Z] = E(r.z); c.get(Q::Y) = E(r.y); c.put(Q::X, r.x); ck(c, r, 0, "write-index" + t); Q& z = c.put(1, 7); mon::check(&z == &c && c.data()[1] == 7, "put-returns" + t); Q y = Q(q).put(2, 9); mon::check(y.data()[2] == 9 && y.data()[1] == E1, "put-temporary" + t); }
  { const Q& k = q; bool ok = k.end() - k.begin() == 4 && k.size() == 4; for(int i = 0; i < 4; ++i) ok = ok && k.begin()[i] == E(e[i]) && k.data()[i] == E(e[i]) && k[i] == E(e[i]); mon::check(ok, "data-in-storage-order" + t); ckim(imaginary(k), r, 0, "imaginary" + t); ckim(k.imaginary(), r, 0, "imaginary-member" + t); sc(real(k), r.w, 0, "real" + t); ckim(imaginary(k + k), r * 2, 0, "imaginary-of-expression" + t); ckim(imaginary(Q(k)), r, 0, "imaginary-of-temporary" + t); cml::vector<E, fixed<3>> kept = imaginary(Q(k) * E(3)); ckim(kept, r * 3, 0, "imaginary-kept" + t); }
  { std::ostringstream s, x; s << q; x << (q + q); auto pr = [](std::string c, const Q4& w) { for(auto& h : c) if(!strchr("0123456789.+-e", h)) h = ' '; std::istringstream n(c); ld v[5]; int k = 0; while(k < 5 && n >> v[k]) ++k; return k == 4 && v[0] == w.w && v[1] == w.x && v[2] == w.y && v[3] == w.z; }; mon::check(pr(s.str(), r), "print" + t, s.str() + " want " + sh(r)); mon::check(pr(x.str(), r * 2), "print-expression" + t, x.str()); }
  { Q c = q; c.identity(); ck(c, {1, 0, 0, 0}, 0, "identity" + t); c = q; c.zero(); ck(c, {0, 0, 0, 0}, 0, "zero" + t); ck(identity(q), {1, 0, 0, 0}, 0, "identity-function" + t); ck(identity(q + q), {1, 0, 0, 0}, 0, "identity-of-expression" + t); ck(Q(q).identity(), {1, 0, 0, 0}, 0, "identity-temporary" + t); ck(Q(q).zero(), {0, 0, 0, 0}, 0, "zero-temporary" + t); }
  { const Q s(q), d = mk<Q>(o); const bool same = e[0] == oe[0] && e[1] == oe[1] && e[2] == oe[2] && e[3] == oe[3]; mon::check(s == q && !(s != q) && !(s < q) && s <= q && s >= q, "equal-to-copy" + t); mon::check((d == q) == same && (d != q) == !same, "compare" + t); bool lt = false; for(int i = 0; i < 4; ++i) if(e[i] != oe[i]) { lt = e[i] < oe[i]; break; } mon::check((q < d) == lt && (d > q) == lt && (q >= d) == !lt && (d <= q) == !lt, "order" + t); }
  ck(q, r, 0, "operand-unchanged" + t);
}

// algebra on small integers is exact; P may have another element type
template<class Q, class P> void algebra(Rng& g) {
  typedef typename Q::value_type E; const int s = cs<Q>(); const Q4 a = ints(g), b = ints(g), c = ints(g); const Q qa = mk<Q>(a), qc = mk<Q>(c); const P qb = mk<P>(b); const std::string t = "/" + tag<Q>(); for(ld x : {a.w, a.x, a.y, a.z, b.w, b.x, b.y, b.z}) mon::mixd(double(x)); mon::bin("algebra/" + tag<Q>()); if(mon::noting()) mon::note(tag<Q>() + " " + sh(a) + " ; " + sh(b));
  ck(qa + qb, a + b, 0, "sum" + t); ck(qa - qb, a - b, 0, "difference" + t); ck(qb - qa, b - a, 0, "difference-reversed" + t); ck(-qa, a * -1, 0, "negation" + t); ck(+qa, a, 0, "plus" + t); ck(qa * E(3), a * 3, 0, "times-scalar" + t); ck(3 * qa, a * 3, 0, "scalar-times" + t); ck(qa * 2.5f, a * 2.5L, 0, "times-float" + t); ck(qa / E(4), a * 0.25L, 0, "over-scalar" + t); ck(qb / 2, b * 0.5L, 0, "over-int" + t);
  ck(qa * qb, ham(a, b, s), 0, "product" + t); ck(qb * qa, ham(b, a, s), 0, "product-reversed" + t); ck(qa * qa, ham(a, a, s), 0, "square" + t); ck(Q(qa) * P(qb), ham(a, b, s), 0, "product-of-temporaries" + t); ck((qa + qc) * qb, ham(a + c, b, s), 0, "product-of-expression" + t); ck(qb * (qa - qc), ham(b, a - c, s), 0, "product-with-expression" + t); ck((qa * qb) * qc, ham(ham(a, b, s), c, s), 0, "triple" + t); ck(qa * (qb * qc), ham(a, ham(b, c, s), s), 0, "triple-right" + t); ck(qa * qb * qc * 2, ham(ham(a, b, s), c, s) * 2, 0, "triple-scaled" + t); ck(conjugate(qa) * qb, ham(cj(a), b, s), 0, "product-with-conjugate" + t); ck(-qa * (2 * qb), ham(a, b, s) * -2, 0, "product-with-nodes" + t);
  ck(conjugate(qa), cj(a), 0, "conjugate" + t); ck(qa.conjugate(), cj(a), 0, "conjugate-member" + t); ck(conjugate(qa + qb), cj(a + b), 0, "conjugate-of-expression" + t); ck(conjugate(Q(qa)), cj(a), 0, "conjugate-of-temporary" + t); ck(conjugate(conjugate(qa)), a, 0, "conjugate-twice" + t); ck(conjugate(qa * qb), ham(cj(b), cj(a), s), 0, "conjugate-of-product" + t); ck(qa * conjugate(qa), {n2(a), 0, 0, 0}, 0, "times-own-conjugate" + t);
  sc(dot(qa, qb), dt(a, b), 0, "dot" + t); sc(dot(qb, qa), dt(a, b), 0, "dot-symmetric" + t); sc(dot(qa + qb, qa), dt(a + b, a), 0, "dot-of-expression" + t); sc(norm(qa), n2(a), 0, "norm" + t); sc(qa.norm(), n2(a), 0, "norm-member" + t); sc(qa.length_squared(), n2(a), 0, "length-squared-member" + t); sc(length_squared(qb), n2(b), 0, "length-squared" + t); sc((qa + qb).norm(), n2(a + b), 0, "norm-of-expression" + t); sc(norm(qa * qb), n2(a) * n2(b), n2(a) * n2(b) * 4 * mon::eps<float>(), "norm-multiplicative" + t); sc(length(qa), nr(a), 4 * mon::eps<E>() * nr(a), "length" + t); sc((qa - qb).length(), nr(a - b), 4 * mon::eps<float>() * nr(a - b), "length-of-expression" + t);
  auto ip = [&](auto f, Q4 w, const char* k) { Q x(qa); Q& z = f(x); mon::check(&z == &x, std::string("returns-target/") + k); ck(x, w, 0, std::string(k) + t); };
  ip([&](Q& x) -> Q& { return x += qb; }, a + b, "plus-assign"); ip([&](Q& x) -> Q& { return x -= qb; }, a - b, "minus-assign"); ip([&](Q& x) -> Q& { return x *= qb; }, ham(a, b, s), "times-assign"); ip([&](Q& x) -> Q& { return x *= 3; }, a * 3, "times-assign-int"); ip([&](Q& x) -> Q& { return x *= 2.5; }, a * 2.5L, "times-assign-scalar"); ip([&](Q& x) -> Q& { return x /= E(2); }, a * 0.5L, "divide-assign"); ip([&](Q& x) -> Q& { return x.conjugate(); }, cj(a), "conjugate-in-place");
  ip([&](Q& x) -> Q& { return x += x; }, a * 2, "plus-assign-self"); ip([&](Q& x) -> Q& { return x -= x; }, {0, 0, 0, 0}, "minus-assign-self"); ip([&](Q& x) -> Q& { return x *= x; }, ham(a, a, s), "times-assign-self"); ip([&](Q& x) -> Q& { return x *= conjugate(x); }, {n2(a), 0, 0, 0}, "times-assign-own-conjugate"); ip([&](Q& x) -> Q& { return x = x * qb; }, ham(a, b, s), "assign-own-product"); ip([&](Q& x) -> Q& { return x = qb * x; }, ham(b, a, s), "assign-own-product-left"); ip([&](Q& x) -> Q& { return x += qb * x; }, a + ham(b, a, s), "add-own-product"); ip([&](Q& x) -> Q& { return x = conjugate(x); }, cj(a), "assign-own-conjugate"); ip([&](Q& x) -> Q& { return x *= qb + qc; }, ham(a, b + c, s), "times-assign-expression");
  ck(Q(qa) += qb, a + b, 0, "plus-assign-temporary" + t); ck(Q(qa) -= qb, a - b, 0, "minus-assign-temporary" + t); ck(Q(qa) *= qb, ham(a, b, s), 0, "times-assign-temporary" + t); ck(Q(qa) *= 2, a * 2, 0, "scale-temporary" + t); ck(Q(qa) /= 2, a * 0.5L, 0, "divide-temporary" + t); ck(Q(qa).conjugate(), cj(a), 0, "conjugate-temporary" + t);
  { auto k = qa + qb; auto m = Q(qa) * E(2) - P(qb); auto n = conjugate(Q(qa) + P(qb)); volatile char junk[256]; for(auto& j : junk) j = 0x5a; ck(k, a + b, 0, "kept-sum" + t); ck(m, a * 2 - b, 0, "kept-temporaries" + t); ck(n, cj(a + b), 0, "kept-conjugate" + t); auto k2 = k; ck(k2, a + b, 0, "copied-node" + t); auto k3 = std::move(m); ck(k3, a * 2 - b, 0, "moved-node" + t); }
  // members of expressions and of constant temporaries, kept past the statement
  { auto k = (qa * 2).conjugate(); auto m = (qa + qb).conjugate(); auto n = (qa * qb).conjugate(); const Q cq(qa), cq2(qa); auto o = std::move(cq).conjugate(); auto u = conjugate(qa).conjugate(); auto v = (qa * 2).imaginary(); auto w = (Q(qa) - P(qb)).imaginary(); auto x = std::move(cq2).imaginary(); volatile char junk[512]; for(auto& j : junk) j = 0x5a;
    ck(k, cj(a * 2), 0, "expression-conjugate" + t); ck(m, cj(a + b), 0, "expression-conjugate-sum" + t); ck(n, cj(ham(a, b, s)), 0, "expression-conjugate-product" + t); ck(o, cj(a), 0, "constant-temporary-conjugate" + t); ck(u, a, 0, "node-conjugate" + t); ckim(v, a * 2, 0, "expression-imaginary" + t); ckim(w, a - b, 0, "expression-imaginary-difference" + t); ckim(x, a, 0, "constant-temporary-imaginary" + t); mon::bin("expression-members"); }
  { ld ev[4]; sto<Q>(b, ev); E ar[4] = {E(ev[0]), E(ev[1]), E(ev[2]), E(ev[3])}; ck(Q(qa) = ar, b, 0, "temporary-array-assign" + t); ck(Q(qa) = {ar[0], ar[1], ar[2], ar[3]}, b, 0, "temporary-list-assign" + t); ck(Q(qa) = qb, b, 0, "temporary-assign" + t); ck(Q(qa) = qb + qc, b + c, 0, "temporary-assign-expression" + t); }
  ck(qa, a, 0, "operand-unchanged" + t); ck(qb, b, 0, "operand-unchanged" + t); ck(qc, c, 0, "operand-unchanged" + t);
  // the same quaternions in the other component order give the same product
  typedef quaternion<E, fixed<>, typename std::conditional<rf<Q>(), imaginary_first, real_first>::type, typename Q::cross_type> O; auto oa = mk<O>(a); auto ob = mk<O>(b); auto x = qa * qb; auto y = oa * ob; mon::check(x.w() == y.w() && x.x() == y.x() && x.y() == y.y() && x.z() == y.z(), "order-independent-product" + t);
}
Q4 rexp(Q4 q) { ld l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), e = std::exp(q.w), c = l == 0 ? 1 : std::sin(l) / l; return {e * std::cos(l), e * c * q.x, e * c * q.y, e * c * q.z}; }
Q4 rlog(Q4 q) { ld l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), n = nr(q), c = l == 0 ? 1 / n : std::atan2(l, q.w) / l; return {std::log(n), c * q.x, c * q.y, c * q.z}; }
// real-valued operations
template<class Q, class P> void analysis(Rng& g) {
  typedef typename Q::value_type E; typedef typename P::value_type F; const int s = cs<Q>(); const Q4 a = real4<E>(g), b = real4<F>(g); const Q qa = mk<Q>(a); const P qb = mk<P>(b); const ld e = mon::eps<E>() > mon::eps<F>() ? mon::eps<E>() : mon::eps<F>(), ee = mon::eps<E>(); const ld na = nr(a), nb = nr(b); const std::string t = "/" + tag<Q>(); if(mon::noting()) mon::note(tag<Q>() + " " + sh(a) + " ; " + sh(b));
  mon::bin("analysis/" + tag<Q>());
  ck(qa * qb, ham(a, b, s), 16 * e * na * nb, "product" + t); ck(qa + qb, a + b, 4 * e * (na + nb), "sum" + t); sc(dot(qa, qb), dt(a, b), 16 * e * na * nb, "dot" + t); sc(norm(qa * qb), n2(a) * n2(b), 64 * e * n2(a) * n2(b), "norm-of-product" + t); sc(length(qa * qb), na * nb, 64 * e * na * nb, "length-of-product" + t);
  if(n2(a) < 1e-8 || n2(b) < 1e-8) { mon::bin("skipped-tiny"); return; }
  const Q4 ia = cj(a) * (1 / n2(a)), ua = a * (1 / na); const ld ti = 16 * ee / na;
  ck(inverse(qa), ia, ti, "inverse" + t); ck(qa.inverse(), ia, ti, "inverse-member-node" + t); ck(inverse(Q(qa)), ia, ti, "inverse-of-temporary" + t); ck(inverse(qa * E(2)), ia * 0.5L, ti, "inverse-of-expression" + t); ck(inverse(inverse(qa)), a, 64 * ee * na, "inverse-twice" + t); ck(inverse(qa * qb), ham(cj(b) * (1 / n2(b)), ia, s), 64 * e / (na * nb), "inverse-of-product" + t); ck(qa * inverse(qa), {1, 0, 0, 0}, 64 * ee, "times-inverse" + t); ck(inverse(qa) * qa, {1, 0, 0, 0}, 64 * ee, "inverse-times" + t);
  { Q x(qa); Q& z = x.inverse(); mon::check(&z == &x, "inverse-returns"); ck(x, ia, ti, "inverse-in-place" + t); ck(Q(qa).inverse(), ia, ti, "inverse-temporary" + t); x = qa; x *= inverse(x); ck(x, {1, 0, 0, 0}, 64 * ee, "times-own-inverse" + t); x = qa; x = inverse(x); ck(x, ia, ti, "assign-own-inverse" + t); auto k = inverse(Q(qa) + Q(qa)); ck(k, ia * 0.5L, ti, "inverse-kept" + t); }
  const ld tn = 16 * ee; ck(normalize(qa), ua, tn, "normalize" + t); ck(qa.normalize(), ua, tn, "normalize-member-node" + t); ck(normalize(qa + qa), ua, tn, "normalize-of-expression" + t); { const Q cq(qa); auto k = cq.normalize(); ck(k, ua, tn, "normalize-kept" + t); Q x(qa); Q& z = x.normalize(); mon::check(&z == &x, "normalize-returns"); ck(x, ua, tn, "normalize-in-place" + t); ck(Q(qa).normalize(), ua, tn, "normalize-temporary" + t); sc(length(normalize(qa)), 1, tn, "normalize-length" + t); x = qa; x = normalize(x); ck(x, ua, tn, "assign-own-normalize" + t); }
  { auto k = (qa * E(2)).inverse(); auto m = (qa + qa).inverse(); const Q cq(qa), cq2(qa); auto o = std::move(cq).inverse(); auto u = (qa * E(2)).normalize(); auto w = std::move(cq2).normalize(); auto x = (qa + qa).normalize(); auto y = conjugate(qa).inverse(); auto z = inverse(qa).conjugate(); volatile char junk[512]; for(auto& j : junk) j = 0x5a;
    ck(k, ia * 0.5L, ti, "expression-inverse" + t); ck(m, ia * 0.5L, ti, "expression-inverse-sum" + t); ck(o, ia, ti, "constant-temporary-inverse" + t); ck(u, ua, tn, "expression-normalize" + t); ck(w, ua, tn, "constant-temporary-normalize" + t); ck(x, ua, tn, "expression-normalize-sum" + t); ck(y, cj(ia), ti, "node-inverse" + t); ck(z, cj(ia), ti, "inverse-node-conjugate" + t); mon::bin("expression-inverse-members"); }
  // exponential and logarithm
  Q4 h = a; while(nr(h) > 6) h = h * 0.25L; for(ld* p : {&h.w, &h.x, &h.y, &h.z}) *p = E(*p);
  { const Q qh = mk<Q>(h); const Q4 x = rexp(h); const ld te = 64 * ee * (std::exp(h.w) + 1); ck(exp(qh), x, te, "exp" + t); ck(exp(qh * E(1)), x, te, "exp-of-expression" + t); Q y(qh); Q& z = y.exp(); mon::check(&z == &y, "exp-returns"); ck(y, x, te, "exp-in-place" + t); ck(Q(qh).exp(), x, te, "exp-temporary" + t); ck(exp(qh) * exp(-qh), {1, 0, 0, 0}, 512 * ee * std::exp(2 * std::fabs(h.w)), "exp-inverse" + t); mon::bin("exp");
    const ld lv = std::sqrt(h.x * h.x + h.y * h.y + h.z * h.z); if(lv < 3) { ck(log(exp(qh)), h, 512 * ee * (nr(h) + 1) / std::min<ld>(1, 3.1415 - lv), "log-of-exp" + t); mon::bin("log-of-exp"); } }
  const ld sth = std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z) / na;
  if(sth > 1e-3 || a.w > 0) { const ld th = std::atan2(sth, a.w / na), tl = 64 * ee + 16 * ee * std::fabs(std::log(na)); (void) th; const Q4 x = rlog(a); ck(log(qa), x, tl, "log" + t); ck(log(qa * E(1)), x, tl, "log-of-expression" + t); Q y(qa); Q& z = y.log(); mon::check(&z == &y, "log-returns"); ck(y, x, tl, "log-in-place" + t); ck(Q(qa).log(), x, tl, "log-temporary" + t); ck(exp(log(qa)), a, 8 * tl * na, "exp-of-log" + t); mon::bin("log"); }
  { const Q4 pr = {a.w, 0, 0, 0}; if(a.w > 1e-3) { ck(log(mk<Q>(pr)), rlog(pr), 64 * ee * (1 + std::fabs(std::log(a.w))), "log-real" + t); mon::bin("log-real"); } if(std::fabs(a.w) < 6) ck(exp(mk<Q>(pr)), rexp(pr), 64 * ee * std::exp(a.w), "exp-real" + t); }
  // rotation of a vector by conjugation preserves length and composes
  { const Q4 v = {0, b.x, b.y, b.z}; const P qv = mk<P>(v); auto rot = qa * qv * inverse(qa); Q4 w = ham(ham(a, v, s), ia, s); ck(rot, w, 256 * e * nr(v), "conjugation" + t); sc(length(imaginary(rot)), nr(v), 256 * e * nr(v), "conjugation-length" + t); }
  ck(qa, a, 0, "operand-unchanged" + t);
}
template<class E, class O, class C> using Qt = quaternion<E, fixed<>, O, C>;
template<class O, class C> void all(const char* n) {
  std::string s(n); static std::set<std::string> keep; auto nm = [&](const char* k) { return keep.insert(s + "-" + k).first->c_str(); };
  typedef Qt<double, O, C> D; typedef Qt<float, O, C> F; typedef Qt<long double, O, C> L; typedef Qt<int, O, C> I;
  mon::group(nm("build-d"), 1500, build<D>); mon::group(nm("build-f"), 1500, build<F>); mon::group(nm("build-l"), 500, build<L>);
  mon::group(nm("algebra-dd"), 1500, algebra<D, D>); mon::group(nm("algebra-ff"), 1500, algebra<F, F>); mon::group(nm("algebra-df"), 800, algebra<D, F>); mon::group(nm("algebra-ll"), 500, algebra<L, L>); mon::group(nm("algebra-di"), 400, [](Rng& g) {
    const Q4 a = ints(g), b = ints(g); auto q = mk<D>(a); auto i = mk<I>(b); ck(q * i, ham(a, b, cs<D>()), 0, "int-product"); ck(i * i, ham(b, b, cs<D>()), 0, "int-square"); ck(i + q, a + b, 0, "int-sum"); ck(conjugate(i), cj(b), 0, "int-conjugate"); sc(dot(i, q), dt(a, b), 0, "int-dot"); sc(norm(i), n2(b), 0, "int-norm"); I k(i); k *= i; ck(k, ham(b, b, cs<D>()), 0, "int-times-assign"); k = i; k += i; ck(k, b * 2, 0, "int-plus-assign"); k.conjugate(); ck(k, cj(b * 2), 0, "int-conjugate-in-place"); ck(D(i), b, 0, "from-int"); q = i; ck(q, b, 0, "assign-int"); mon::mixd(double(a.w * 41 + a.x)); mon::mixd(double(b.w * 41 + b.x)); });
  mon::group(nm("analysis-dd"), 2500, analysis<D, D>); mon::group(nm("analysis-ff"), 2500, analysis<F, F>); mon::group(nm("analysis-df"), 1200, analysis<D, F>); mon::group(nm("analysis-ll"), 600, analysis<L, L>);
}
int main(int argc, char** argv) {
  mon::init(argc, argv);
#if PART == 0
  all<real_first, positive_cross>("rp");
#elif PART == 1
  all<real_first, negative_cross>("rn");
#elif PART == 2
  all<imaginary_first, positive_cross>("ip");
#elif PART == 3
  all<imaginary_first, negative_cross>("in");
#endif
  return mon::finish();
}
