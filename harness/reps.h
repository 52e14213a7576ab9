// Run-time chosen representations (storages and expression forms) of one sequence or 2-D array.
#pragma once
#include "zoo.h"
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
namespace zoo {
static const char* const RN[] = {"dynamic", "external", "external-const", "fixed", "external-fixed", "negated-twice", "scaled", "row", "column", "basis", "subvector", "hadamard", "sum", "cross-imaginary"};
// call f with the sequence held in representation k
template<class E, class F> void rep(int k, const std::vector<E>& x, F f) {
  const int n = int(x.size());
  typedef vector<E, dynamic<>> D;
  switch(k) {
  default: { VH<D> h(x); return f(h.v); }
  case 1: { VH<vector<E, external<>>> h(x); return f(h.v); }
  case 2: { VH<vector<const E, external<>>> h(x); return f(h.v); }
  case 3: if(n == 2) { VH<vector<E, fixed<2>>> h(x); return f(h.v); } if(n == 3) { VH<vector<E, fixed<3>>> h(x); return f(h.v); } { VH<D> h(x); return f(h.v); }
  case 4: if(n == 1) { VH<vector<E, external<1>>> h(x); return f(h.v); } if(n == 4) { VH<vector<E, external<4>>> h(x); return f(h.v); } { VH<D> h(x); return f(h.v); }
  case 5: { VH<D> h(x); if constexpr(std::is_signed<E>::value) { if(std::is_floating_point<E>::value) return f(-(-h.v)); } return f(+h.v); }
  case 6: { VH<D> h(x); return f(h.v * E(1)); }
  case 7: { MH<matrix<E, dynamic<>, col_basis, col_major>> m(RM<E>(2, n)); for(int j = 0; j < n; ++j) { m.m(0, j) = E(9); m.m(1, j) = x[j]; } return f(cml::row(m.m, 1)); }
  case 8: { MH<matrix<E, external<>, row_basis, row_major>> m(RM<E>(n, 2)); for(int j = 0; j < n; ++j) { m.m(j, 0) = x[j]; m.m(j, 1) = E(9); } return f(cml::col(m.m, 0)); }
  case 9: { RM<E> r(3, n); for(int j = 0; j < n; ++j) r(2, j) = x[j]; MH<matrix<E, dynamic<>, row_basis, row_major>> m(r); return f(cml::basis(m.m, 2)); }
  case 10: { auto y = x; y.insert(y.begin() + n / 2, E(7)); VH<D> h(y); return f(cml::subvector(h.v, n / 2)); }
  case 11: { VH<D> h(x); VH<D> o(std::vector<E>(n, E(1))); return f(cml::hadamard(h.v, o.v)); }
  case 12: { VH<D> h(x); VH<D> o(std::vector<E>(n, E(0))); return f(h.v + o.v); }
  }
}
static const char* const MN[] = {"dynamic-rr", "dynamic-cc", "external-rc", "fixed-cr", "external-fixed", "transposed", "negated-twice", "scaled", "hadamard", "sum", "resized"};
template<class E, class F> void mrep(int k, const RM<E>& x, F f) {
  typedef matrix<E, dynamic<>> D; RM<E> t(x.c, x.r); for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) t(j, i) = x(i, j);
  switch(k) {
  default: { MH<matrix<E, dynamic<>, row_basis, row_major>> h(x); return f(h.m); }
  case 1: { MH<matrix<E, dynamic<>, col_basis, col_major>> h(x); return f(h.m); }
  case 2: { MH<matrix<E, external<>, row_basis, col_major>> h(x); return f(h.m); }
  case 3: if(x.r == 2 && x.c == 3) { MH<matrix<E, fixed<2, 3>, col_basis, row_major>> h(x); return f(h.m); } if(x.r == 2 && x.c == 2) { MH<matrix<E, fixed<2, 2>, row_basis, col_major>> h(x); return f(h.m); } { MH<D> h(x); return f(h.m); }
  case 4: if(x.r == 3 && x.c == 2) { MH<matrix<E, external<3, 2>, row_basis, col_major>> h(x); return f(h.m); } if(x.r == 2 && x.c == 3) { MH<matrix<E, external<2, 3>, row_basis, row_major>> h(x); return f(h.m); } { MH<D> h(x); return f(h.m); }
  case 5: { MH<matrix<E, dynamic<>, row_basis, col_major>> h(t); return f(cml::transpose(h.m)); }
  case 6: { MH<D> h(x); if constexpr(std::is_floating_point<E>::value) return f(-(-h.m)); return f(+h.m); }
  case 7: { MH<D> h(x); return f(E(1) * h.m); }
  case 8: { RM<E> o(x.r, x.c); for(auto& e : o.a) e = E(1); MH<D> h(x), k2(o); return f(cml::hadamard(h.m, k2.m)); }
  case 9: { RM<E> o(x.r, x.c); for(auto& e : o.a) e = E(0); MH<D> h(x), k2(o); return f(h.m - k2.m); }
  case 10: { MH<matrix<E, dynamic<>, col_basis, row_major>> h(RM<E>(1, 1)); h.m.resize(x.r, x.c); for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) h.m(i, j) = x(i, j); return f(h.m); }
  }
}
}  // namespace zoo
