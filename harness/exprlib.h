// Reference semantics for generated expression programs: plain sequences and
// row-major arrays of long double, every operator evaluated eagerly.
#pragma once
#include <utility>
#include "zoo.h"
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>

namespace rx {
typedef mon::ld ld;
typedef std::vector<ld> RV;
typedef zoo::RM<ld> RMx;
inline ld tr(ld x, bool isint) { return isint ? std::trunc(x) : x; }
template<class E> RV ref(const std::vector<E>& x) { return RV(x.begin(), x.end()); }
template<class E> RMx ref(const zoo::RM<E>& x) { RMx m(x.r, x.c); for(size_t i = 0; i < x.a.size(); ++i) m.a[i] = x.a[i]; return m; }
template<class F> RV map(const RV& a, F f) { RV r(a); for(auto& x : r) x = f(x); return r; }
template<class F> RMx map(const RMx& a, F f) { RMx r(a); for(auto& x : r.a) x = f(x); return r; }
template<class F> RV zip(const RV& a, const RV& b, F f) { if(a.size() != b.size()) abort(); RV r(a); for(size_t i = 0; i < r.size(); ++i) r[i] = f(a[i], b[i]); return r; }
template<class F> RMx zip(const RMx& a, const RMx& b, F f) { if(a.r != b.r || a.c != b.c) abort(); RMx r(a); for(size_t i = 0; i < r.a.size(); ++i) r.a[i] = f(a.a[i], b.a[i]); return r; }
template<class T> T neg(const T& a) { return map(a, [](ld x) { return -x; }); }
template<class T> T smul(const T& a, ld s) { return map(a, [s](ld x) { return x * s; }); }
template<class T> T sdiv(const T& a, ld s, bool isint) { return map(a, [=](ld x) { return tr(x / s, isint); }); }
template<class T> T add(const T& a, const T& b) { return zip(a, b, [](ld x, ld y) { return x + y; }); }
template<class T> T sub(const T& a, const T& b) { return zip(a, b, [](ld x, ld y) { return x - y; }); }
template<class T> T had(const T& a, const T& b) { return zip(a, b, [](ld x, ld y) { return x * y; }); }
inline RV cross(const RV& a, const RV& b) { return RV{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline RV skip(const RV& a, int i) { RV r(a); r.erase(r.begin() + i); return r; }
inline RV row(const RMx& m, int i) { RV r(m.c); for(int j = 0; j < m.c; ++j) r[j] = m(i, j); return r; }
inline RV col(const RMx& m, int j) { RV r(m.r); for(int i = 0; i < m.r; ++i) r[i] = m(i, j); return r; }
inline RMx outer(const RV& a, const RV& b) { RMx m(a.size(), b.size()); for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < b.size(); ++j) m(i, j) = a[i] * b[j]; return m; }
inline RMx tp(const RMx& a) { RMx m(a.c, a.r); for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) m(j, i) = a(i, j); return m; }
inline RMx mm(const RMx& a, const RMx& b) { if(a.c != b.r) abort(); RMx m(a.r, b.c); for(int i = 0; i < a.r; ++i) for(int j = 0; j < b.c; ++j) for(int k = 0; k < a.c; ++k) m(i, j) += a(i, k) * b(k, j); return m; }
inline RV mv(const RMx& a, const RV& b) { if(a.c != int(b.size())) abort(); RV v(a.r); for(int i = 0; i < a.r; ++i) for(int k = 0; k < a.c; ++k) v[i] += a(i, k) * b[k]; return v; }
inline RV vm(const RV& a, const RMx& b) { return mv(tp(b), a); }

// temporaries of a given type
template<class V, class E> V mkv(const std::vector<E>& x) { zoo::VH<V> h(x); return std::move(h.v); }
template<class M, class E> M mkm(const zoo::RM<E>& x) { zoo::MH<M> h(x); return std::move(h.m); }
// overwrite the stack below the caller so that dangling references show
inline void __attribute__((noinline)) clobber() { volatile char b[4096]; for(int i = 0; i < 4096; ++i) b[i] = char(0xA5); }

template<class X> void seev(const X& e, const RV& r, const char* key) {
  mon::ev();
  if(e.size() != int(r.size())) { mon::fail(std::string(key) + "/size", mon::fmt("got %d want %zu", int(e.size()), r.size())); return; }
  for(size_t i = 0; i < r.size(); ++i) {
    if(!(ld(e.get(int(i))) == r[i] && ld(e[int(i)]) == r[i])) {
      mon::fail(key, mon::fmt("[%zu] got %.9g / %.9g want %.9Lg of %s", i, double(e.get(int(i))), double(e[int(i)]), r[i], zoo::show(r).c_str())); return; }
  }
}
template<class X> void seem(const X& e, const RMx& r, const char* key) {
  mon::ev();
  if(e.rows() != r.r || e.cols() != r.c) { mon::fail(std::string(key) + "/size", mon::fmt("got %dx%d want %dx%d", int(e.rows()), int(e.cols()), r.r, r.c)); return; }
  for(int i = 0; i < r.r; ++i) for(int j = 0; j < r.c; ++j)
    if(!(ld(e.get(i, j)) == r(i, j) && ld(e(i, j)) == r(i, j))) {
      mon::fail(key, mon::fmt("(%d,%d) got %.9g / %.9g want %.9Lg of %s", i, j, double(e.get(i, j)), double(e(i, j)), r(i, j), zoo::show(r).c_str())); return; }
}
inline mon::ld sum2(const RV& r) { ld s = 0; for(auto x : r) s += x * x; return s; }
}  // namespace rx
