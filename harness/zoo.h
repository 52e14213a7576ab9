// Holders that give every storage kind of CML the same construction interface,
// with exactly sized heap buffers behind external storage.
#pragma once
#include <memory>
#include <vector>
#include <cml/cml.h>
#include "mon.h"

namespace zoo {
using cml::vector; using cml::matrix; using cml::fixed; using cml::external; using cml::dynamic;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;

/* ---- vectors ---- */
template<class V> struct VH;

template<class E, int N> struct VH<vector<E, fixed<N>>> {
  typedef vector<E, fixed<N>> V; typedef E elem;
  static constexpr int N_ = N; static constexpr bool dyn = false, ext = false;
  static const char* tag() { return "fixed"; }
  V v;
  explicit VH(const std::vector<E>& x) { for(int i = 0; i < N; ++i) v.put(i, x[i]); }
};
template<class E, class A> struct VH<vector<E, dynamic<A>>> {
  typedef vector<E, dynamic<A>> V; typedef E elem;
  static constexpr int N_ = -1; static constexpr bool dyn = true, ext = false;
  static const char* tag() { return "dynamic"; }
  V v;
  explicit VH(const std::vector<E>& x) : v(int(x.size())) { for(int i = 0; i < int(x.size()); ++i) v.put(i, x[i]); }
};
template<class E, int N> struct VH<vector<E, external<N>>> {
  typedef vector<E, external<N>> V; typedef E elem;
  static constexpr int N_ = N; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "external"; }
  std::unique_ptr<E[]> b; V v;
  explicit VH(const std::vector<E>& x) : b(new E[N]), v(b.get()) { for(int i = 0; i < N; ++i) b[i] = x[i]; }
};
template<class E> struct VH<vector<E, external<>>> {
  typedef vector<E, external<>> V; typedef E elem;
  static constexpr int N_ = -1; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "external-dyn"; }
  std::unique_ptr<E[]> b; V v;
  explicit VH(const std::vector<E>& x) : b(new E[x.size()]), v(b.get(), int(x.size())) { for(size_t i = 0; i < x.size(); ++i) b[i] = x[i]; }
};
// read-only external
template<class E, int N> struct VH<vector<const E, external<N>>> {
  typedef vector<const E, external<N>> V; typedef E elem;
  static constexpr int N_ = N; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "const-external"; }
  std::unique_ptr<E[]> b; V v;
  explicit VH(const std::vector<E>& x) : b(new E[N]), v(b.get()) { for(int i = 0; i < N; ++i) b[i] = x[i]; }
};
template<class E> struct VH<vector<const E, external<>>> {
  typedef vector<const E, external<>> V; typedef E elem;
  static constexpr int N_ = -1; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "const-external-dyn"; }
  std::unique_ptr<E[]> b; V v;
  explicit VH(const std::vector<E>& x) : b(new E[x.size()]), v(b.get(), int(x.size())) { for(size_t i = 0; i < x.size(); ++i) b[i] = x[i]; }
};

/* ---- matrices ---- */
template<class T> struct RM {  // reference matrix, row-major storage of logical (i,j)
  int r, c; std::vector<T> a;
  RM(int r = 0, int c = 0) : r(r), c(c), a(size_t(r) * c) {}
  T& operator()(int i, int j) { return a[size_t(i) * c + j]; }
  const T& operator()(int i, int j) const { return a[size_t(i) * c + j]; }
};

template<class M> struct MH;
inline int lin(int i, int j, int, int C, row_major) { return i * C + j; }
inline int lin(int i, int j, int R, int, col_major) { return j * R + i; }

template<class E, int R, int C, class B, class L> struct MH<matrix<E, fixed<R, C>, B, L>> {
  typedef matrix<E, fixed<R, C>, B, L> M; typedef E elem; typedef B basis; typedef L layout;
  static constexpr int R_ = R, C_ = C; static constexpr bool dyn = false, ext = false;
  static const char* tag() { return "fixed"; }
  M m;
  explicit MH(const RM<E>& x) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m.put(i, j, x(i, j)); }
};
template<class E, class A, class B, class L> struct MH<matrix<E, dynamic<A>, B, L>> {
  typedef matrix<E, dynamic<A>, B, L> M; typedef E elem; typedef B basis; typedef L layout;
  static constexpr int R_ = -1, C_ = -1; static constexpr bool dyn = true, ext = false;
  static const char* tag() { return "dynamic"; }
  M m;
  explicit MH(const RM<E>& x) : m(x.r, x.c) { for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) m.put(i, j, x(i, j)); }
};
template<class E, int R, int C, class B, class L> struct MH<matrix<E, external<R, C>, B, L>> {
  typedef matrix<E, external<R, C>, B, L> M; typedef E elem; typedef B basis; typedef L layout;
  static constexpr int R_ = R, C_ = C; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "external"; }
  std::unique_ptr<E[]> b; M m;
  explicit MH(const RM<E>& x) : b(new E[R * C]), m(b.get()) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) b[lin(i, j, R, C, L())] = x(i, j); }
};
template<class E, class B, class L> struct MH<matrix<E, external<>, B, L>> {
  typedef matrix<E, external<>, B, L> M; typedef E elem; typedef B basis; typedef L layout;
  static constexpr int R_ = -1, C_ = -1; static constexpr bool dyn = false, ext = true;
  static const char* tag() { return "external-dyn"; }
  std::unique_ptr<E[]> b; M m;
  explicit MH(const RM<E>& x) : b(new E[size_t(x.r) * x.c]), m(b.get(), x.r, x.c) { for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) b[lin(i, j, x.r, x.c, L())] = x(i, j); }
};

template<class B> inline const char* bname() { return std::is_same<B, row_basis>::value ? "row_basis" : "col_basis"; }
template<class L> inline const char* lname() { return std::is_same<L, row_major>::value ? "row_major" : "col_major"; }
template<class T> inline const char* ename();
template<> inline const char* ename<int>() { return "int"; }
template<> inline const char* ename<float>() { return "float"; }
template<> inline const char* ename<double>() { return "double"; }
template<> inline const char* ename<long>() { return "long"; }
template<> inline const char* ename<short>() { return "short"; }
template<> inline const char* ename<unsigned>() { return "unsigned"; }
template<> inline const char* ename<long double>() { return "long double"; }

// random element with a value that is exact in every element type
template<class E> inline E small(mon::Rng& g, int lim = 9) { int x = g.i(-lim, lim); if(std::is_unsigned<E>::value && x < 0) x = -x; return E(x); }
template<class E> inline std::vector<E> rvec(mon::Rng& g, int n, int lim = 9) {
  std::vector<E> v(n); for(auto& x : v) { x = small<E>(g, lim); mon::mixd(double(x)); } return v;
}
template<class E> inline RM<E> rmat(mon::Rng& g, int r, int c, int lim = 9) {
  RM<E> m(r, c); for(auto& x : m.a) { x = small<E>(g, lim); mon::mixd(double(x)); } return m;
}
// a value of type S that uses the whole precision of S (not just whole numbers) and converts to E without overflow
template<class S, class E> inline S precise(mon::Rng& g) {
  const bool sf = std::is_floating_point<S>::value, ef = std::is_floating_point<E>::value; S x;
  if(sf && ef) switch(g.i(0, 5)) { case 0: x = S(g.r(-1, 1)); break; case 1: x = S(g.wide(-30, 30)); break; case 2: x = S(16777217.0 * (g.coin() ? 1 : -1)); break; case 3: x = S(0.1); break; case 4: x = S(g.coin() ? -0.0 : 1e-40); break; default: x = S(g.i(-9, 9)); }
  else if(sf) { x = S(std::is_unsigned<E>::value ? g.r(0, 30000) : g.r(-30000, 30000)); if(g.coin(1, 4)) x = S(g.i(0, 9)) + S(0.5); }
  else { const bool neg = std::is_signed<S>::value && (std::is_signed<E>::value || ef); typedef std::numeric_limits<S> L;
    switch(g.i(0, 4)) { case 0: x = L::max(); break; case 1: x = neg ? L::min() : S(0); break; case 2: x = S(16777217); break; case 3: x = S(L::max() - S(g.i(0, 99))); break; default: x = S(g.i(0, 99)); } if(neg && g.coin() && x != L::min()) x = S(-x); }
  mon::mixd(double(x)); return x;
}
template<class E> inline bool bits(E a, E b) { return a == b && std::signbit(double(a)) == std::signbit(double(b)); }
template<class E> inline std::string show(const std::vector<E>& v) {
  std::string s = "("; for(size_t i = 0; i < v.size(); ++i) s += mon::fmt(i ? " %.9g" : "%.9g", double(v[i])); return s + ")";
}
template<class V> inline std::string showv(const V& v) {
  std::string s = "("; for(int i = 0; i < v.size(); ++i) s += mon::fmt(i ? " %.9g" : "%.9g", double(v.get(i))); return s + ")";
}
template<class M> inline std::string showm(const M& m) {
  std::string s = "["; for(int i = 0; i < m.rows(); ++i) { s += i ? "; " : ""; for(int j = 0; j < m.cols(); ++j) s += mon::fmt(j ? " %.9g" : "%.9g", double(m.get(i, j))); } return s + "]";
}
template<class E> inline std::string show(const RM<E>& m) {
  std::string s = "["; for(int i = 0; i < m.r; ++i) { s += i ? "; " : ""; for(int j = 0; j < m.c; ++j) s += mon::fmt(j ? " %.9g" : "%.9g", double(m(i, j))); } return s + "]";
}
// compare a CML vector/matrix with a reference exactly
template<class V, class E> inline bool eqv(const V& v, const std::vector<E>& x) {
  if(v.size() != int(x.size())) return false;
  for(int i = 0; i < int(x.size()); ++i) if(!(mon::ld(v.get(i)) == mon::ld(x[i]))) return false;
  return true;
}
template<class M, class E> inline bool eqm(const M& m, const RM<E>& x) {
  if(m.rows() != x.r || m.cols() != x.c) return false;
  for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) if(!(mon::ld(m.get(i, j)) == mon::ld(x(i, j)))) return false;
  return true;
}
template<class V, class E> inline bool ckv(const V& v, const std::vector<E>& x, const std::string& key) {
  mon::ev();
  if(eqv(v, x)) return true;
  mon::fail(key, "got " + showv(v) + " want " + show(x)); return false;
}
template<class M, class E> inline bool ckm(const M& m, const RM<E>& x, const std::string& key) {
  mon::ev();
  if(eqm(m, x)) return true;
  mon::fail(key, "got " + showm(m) + " want " + show(x)); return false;
}
}  // namespace zoo
