// C02: matrices of every storage, layout and basis hold exactly the logical elements they were given.
#include "zoo.h"
using namespace zoo; using mon::Rng; using mon::fmt;

template<class M, class E> bool same(const M& m, const RM<E>& x, const char* key) {
  typedef typename MH<M>::layout L; typedef typename MH<M>::basis B;
  mon::ev();
  const int R = x.r, C = x.c; const bool rb = std::is_same<B, row_basis>::value;
  bool ok = m.rows() == R && m.cols() == C && m.size().first == R && m.size().second == C
    && cml::array_rows_of(m) == R && cml::array_cols_of(m) == C
    && m.basis_count() == (rb ? R : C) && m.basis_size() == (rb ? C : R);
  if(ok && R * C > 0) {
    ok = m.end() - m.begin() == R * C && m.data() == m.begin();
    for(int i = 0; ok && i < R; ++i) for(int j = 0; ok && j < C; ++j) {
      E e = x(i, j);
      ok = m(i, j) == e && m.get(i, j) == e && m.data()[lin(i, j, R, C, L())] == e && (rb ? m.basis_element(i, j) : m.basis_element(j, i)) == e;
    }
  }
  if(!ok) mon::fail(key, "got " + showm(m) + " want " + show(x));
  return ok;
}
template<class E> RM<E> tr(const RM<E>& x) { RM<E> t(x.c, x.r); for(int i = 0; i < x.r; ++i) for(int j = 0; j < x.c; ++j) t(j, i) = x(i, j); return t; }

template<class M> struct Machine {
  typedef MH<M> H; typedef typename H::elem E; typedef typename H::layout L; typedef typename H::basis B;
  static constexpr bool dyn = H::dyn, fx = H::R_ > 0, rdyn = !fx && H::ext;  // rdyn: reshapeable external
  static constexpr bool rb = std::is_same<B, row_basis>::value;
  std::vector<std::unique_ptr<H>> pool; std::vector<RM<E>> model; std::vector<const E*> buf;
  Rng& g; std::string trace; int K = 3;
  Machine(Rng& g) : g(g) {}
  void shape(int& r, int& c) { if(fx) { r = H::R_; c = H::C_; } else { r = g.n(dyn ? 0 : 1, 5, 24); c = g.n(dyn ? 0 : 1, 5, 24); if(!r || !c) r = c = 0; } }
  RM<E> fresh() { int r, c; shape(r, c); return rmat<E>(g, r, c); }
  // a shape assignable to model k
  RM<E> assignable(int k) {
    auto& m = model[k];
    if(dyn) return fresh();
    if(rdyn && g.coin()) { int n = m.r * m.c; std::vector<int> d; for(int q = 1; q <= n; ++q) if(n % q == 0) d.push_back(q); int r = d[g.i(0, int(d.size()) - 1)]; return rmat<E>(g, r, n / r); }
    return rmat<E>(g, m.r, m.c);
  }
  template<class S> void assign_from(int k) {
    RM<E> x;
    if constexpr(MH<S>::R_ > 0) { if(dyn || (model[k].r == MH<S>::R_ && model[k].c == MH<S>::C_)) x = rmat<E>(g, MH<S>::R_, MH<S>::C_); else return; }
    else { x = assignable(k); if(!MH<S>::dyn && x.r * x.c == 0) return; }
    MH<S> h(x); pool[k]->m = h.m; model[k] = x; same(h.m, x, "assign-source-unchanged");
    mon::bin(std::string("assign-from/") + MH<S>::tag());
  }
  void sync() {
    for(int k = 0; k < K; ++k) {
      if(!same(pool[k]->m, model[k], "state-after-op")) { mon::fail("trace", trace); auto& p = pool[k]->m; model[k] = RM<E>(p.rows(), p.cols()); for(int i = 0; i < p.rows(); ++i) for(int j = 0; j < p.cols(); ++j) model[k](i, j) = p.get(i, j); }
      if(H::ext) mon::check(pool[k]->m.data() == buf[k], "external-buffer-identity", trace);
    }
  }
  void step() {
    int k = g.i(0, K - 1), o = g.i(0, K - 1), op = g.i(0, 28);
    M& v = pool[k]->m; auto& m = model[k]; int R = m.r, C = m.c, n = R * C;
    int i = n ? g.i(0, R - 1) : 0, j = n ? g.i(0, C - 1) : 0; E x = small<E>(g);
    mon::mix(op); mon::mix(k); trace += fmt(" %d:%d/%d", op, k, o); mon::bin("op/" + std::to_string(op));
    switch(op) {
      case 0: if(n) { M& r = v.put(i, j, x); m(i, j) = x; mon::check(&r == &v, "put-returns-self"); } break;
      case 1: if(n) { v(i, j) = x; m(i, j) = x; } break;
      case 2: if(n) { v.get(i, j) += x; m(i, j) += x; } break;
      case 3: if(n) { if(rb) v.set_basis_element(i, j, x); else v.set_basis_element(j, i, x); m(i, j) = x; } break;
      case 4: v.fill(x); for(auto& e : m.a) e = x; break;
      case 5: v.zero(); for(auto& e : m.a) e = 0; break;
      case 6: v.identity(); for(int a = 0; a < R; ++a) for(int b = 0; b < C; ++b) m(a, b) = E(a == b); break;
      case 7: { E lo = small<E>(g, 20), hi = E(lo + g.i(1, 9)); v.random(lo, hi);
        for(int a = 0; a < R; ++a) for(int b = 0; b < C; ++b) { mon::check(v(a, b) >= lo && v(a, b) <= hi, "random-in-range"); m(a, b) = v(a, b); } } break;
      case 8: if(n) { auto y = rvec<E>(g, C); VH<vector<E, dynamic<>>> h(y); v.set_row(i, h.v); for(int b = 0; b < C; ++b) m(i, b) = y[b]; } break;
      case 9: if(n) { auto y = rvec<E>(g, R); VH<vector<E, external<>>> h(y); v.set_col(j, h.v); for(int a = 0; a < R; ++a) m(a, j) = y[a]; } break;
      case 10: if(dyn || (model[o].r == R && model[o].c == C) || (rdyn && model[o].r * model[o].c == n)) { v = pool[o]->m; m = RM<E>(model[o]); } break;
      case 11: assign_from<matrix<E, dynamic<>, B, L>>(k); break;
      case 12: assign_from<matrix<E, dynamic<>, B, if_other>>(k); break;
      case 13: assign_from<matrix<E, external<>, B, if_other>>(k); break;
      case 14: if constexpr(fx) assign_from<matrix<E, fixed<H::R_, H::C_>, B, if_other>>(k); else assign_from<matrix<E, fixed<2, 3>, B, if_other>>(k); break;
      case 15: if constexpr(fx) assign_from<matrix<E, external<H::R_, H::C_>, B, L>>(k); else assign_from<matrix<E, external<3, 2>, B, if_other>>(k); break;
      case 16: {  // 2D array
        if constexpr(fx) { auto y = rmat<E>(g, H::R_, H::C_); E a[H::R_][H::C_]; for(int p = 0; p < H::R_; ++p) for(int q = 0; q < H::C_; ++q) a[p][q] = y(p, q); v = a; m = y; }
        else if(dyn || (R == 2 && C == 3)) { auto y = rmat<E>(g, 2, 3); E a[2][3]; for(int p = 0; p < 2; ++p) for(int q = 0; q < 3; ++q) a[p][q] = y(p, q); v = a; m = y; } } break;
      case 17: {  // 1D array, row by row
        if constexpr(fx) { auto y = rmat<E>(g, R, C); E a[H::R_ * H::C_]; for(int p = 0; p < n; ++p) a[p] = y.a[p]; v = a; m = y; }
        else if(n == 6) { auto y = rmat<E>(g, R, C); E a[6]; for(int p = 0; p < 6; ++p) a[p] = y.a[p]; v = a; m = y; } } break;
      case 18: if(n == 4) { auto y = rmat<E>(g, R, C); auto& a = y.a; v = {a[0], a[1], a[2], a[3]}; m = y; } else if(n == 6) { auto y = rmat<E>(g, R, C); auto& a = y.a; v = {a[0], a[1], a[2], a[3], a[4], a[5]}; m = y; } break;
      case 19: if constexpr(dyn || (rdyn)) {
          if(dyn) { int r, c; shape(r, c); if(g.coin(1, 3) && n) { r = C; c = R; } int keep = r * c < n ? r * c : n; std::vector<E> before(v.begin(), v.begin() + n); v.resize(r, c);
            mon::check(v.rows() == r && v.cols() == c, "resize-size"); for(int q = 0; q < keep; ++q) mon::check(v.data()[q] == before[q], "resize-keeps-data-prefix", trace);
            for(int q = keep; q < r * c; ++q) v.data()[q] = E(q + 1);
            m = RM<E>(r, c); for(int a = 0; a < r; ++a) for(int b = 0; b < c; ++b) { int q = lin(a, b, r, c, L()); m(a, b) = q < keep ? before[q] : E(q + 1); }
            mon::bin(r * c == n ? "resize/reshape" : r * c > n ? "resize/grow" : "resize/shrink");
          } else { std::vector<E> before(v.begin(), v.begin() + n); v.resize(C, R); m = RM<E>(C, R); for(int a = 0; a < C; ++a) for(int b = 0; b < R; ++b) m(a, b) = before[lin(a, b, C, R, L())];
#ifndef CML_NO_RUNTIME_MATRIX_SIZE_CHECKS
            bool t = false; try { v.resize(C + 1, R + 1); } catch(const cml::matrix_size_error&) { t = true; } mon::check(t, "external-resize-other-size-throws");
#endif
          } } break;
      case 20: if constexpr(dyn) { int r, c; shape(r, c); if(g.coin(1, 3)) { r = C; c = R; } v.resize_fast(r, c); mon::check(v.rows() == r && v.cols() == c, "resize-fast-size"); m = rmat<E>(g, r, c); for(int a = 0; a < r; ++a) for(int b = 0; b < c; ++b) v.put(a, b, m(a, b)); } break;
      case 21: if constexpr(dyn) if(o != k) { v = std::move(pool[o]->m); m = model[o]; auto y = fresh(); pool[o]->m = MH<M>(y).m; model[o] = y; } break;
      case 22: if constexpr(!H::ext) { M c(v); mon::check(eqm(c, m), "copy-construct"); if(n) { c.put(0, 0, E(c(0, 0) + 1)); mon::check(eqm(v, m), "copy-is-independent"); c.put(0, 0, m(0, 0)); } M d(std::move(c)); mon::check(eqm(d, m), "move-construct"); } break;
      case 23: if constexpr(fx) { if constexpr(H::R_ == H::C_) { v.transpose(); m = tr(m); } } else if(n) { v.transpose(); m = tr(m); mon::bin("transpose/runtime"); } break;
      case 24: { M& w = v; v = w; } break;
      case 25: if constexpr(!H::ext) { M z = M(v).zero(); mon::check(eqm(z, RM<E>(R, C)), "rvalue-zero"); M f = M(v).fill(x); RM<E> fm(R, C); for(auto& e : fm.a) e = x; mon::check(eqm(f, fm), "rvalue-fill");
          M id = M(v).identity(); RM<E> im(R, C); for(int a = 0; a < R && a < C; ++a) im(a, a) = 1; mon::check(eqm(id, im), "rvalue-identity");
          if(n) { auto pm = m; pm(i, j) = x; M p = M(v).put(i, j, x); mon::check(eqm(p, pm), "rvalue-put"); M q = rb ? M(v).set_basis_element(i, j, x) : M(v).set_basis_element(j, i, x); mon::check(eqm(q, pm), "rvalue-set-basis-element");
            auto y = rvec<E>(g, C); VH<vector<E, dynamic<>>> h(y); auto rm = m; for(int b = 0; b < C; ++b) rm(i, b) = y[b]; M r = M(v).set_row(i, h.v); mon::check(eqm(r, rm), "rvalue-set-row");
            auto z2 = rvec<E>(g, R); VH<vector<E, dynamic<>>> h2(z2); auto cm = m; for(int a = 0; a < R; ++a) cm(a, j) = z2[a]; M c = M(v).set_col(j, h2.v); mon::check(eqm(c, cm), "rvalue-set-col");
            if constexpr(!fx || H::R_ == H::C_) { M t = M(v).transpose(); mon::check(eqm(t, tr(m)), "rvalue-transpose"); } } } break;
      case 26: if constexpr(!H::ext) { M c(pool[o]->m); v = std::move(c); m = RM<E>(model[o]); mon::bin("move-assign"); } break;
      case 27: if constexpr(!H::ext) { std::swap(v, pool[o]->m); std::swap(model[k], model[o]); mon::bin("swap"); }
        else { RM<E> x = fresh(), y = fresh(); MH<M> a(x), b(y); a.m = std::move(b.m); mon::bin("external-move-assign"); mon::check(a.m.data() == b.b.get() && eqm(a.m, y), "external-move-assign-takes-buffer");
          for(int p = 0; p < x.r; ++p) for(int q = 0; q < x.c; ++q) mon::check(a.b[lin(p, q, x.r, x.c, L())] == x(p, q), "external-move-assign-keeps-old-buffer");
          M c(std::move(a.m)); mon::check(c.data() == b.b.get() && eqm(c, y), "external-move-construct"); } break;
      case 28: if constexpr(!H::ext) { auto y = fresh(); v = MH<M>(y).m; m = y; auto z = dyn ? fresh() : rmat<E>(g, R, C); M& r = (v = M(MH<M>(z).m)); m = z; mon::check(&r == &v, "move-assign-returns-self"); } break;
    }
    sync();
  }
  typedef typename std::conditional<std::is_same<L, row_major>::value, col_major, row_major>::type if_other;
  void run() {
    for(int k = 0; k < K; ++k) { model.push_back(fresh()); pool.emplace_back(new H(model.back())); buf.push_back(H::ext ? pool.back()->m.data() : nullptr); }
    if(mon::noting()) { std::string s = fmt("%s<%s,%s,%s> start", H::tag(), ename<E>(), bname<B>(), lname<L>()); for(auto& m : model) s += " " + show(m); mon::note(s); }
    sync();
    for(int s = 0; s < 22; ++s) step();
    mon::note(" ops" + trace + " end"); for(auto& m : model) mon::note(" " + show(m));
  }
};
template<class M> void machine(const char* nm, double n) {
  mon::group(nm, n, [](Rng& g) { Machine<M> m(g); m.run(); typedef MH<M> H; mon::bin(fmt("type/%s/%s/%s/%s", H::tag(), ename<typename H::elem>(), bname<typename H::basis>(), lname<typename H::layout>())); });
}

template<class E, class B, class L> void ctors(Rng& g) {
  auto x = rmat<E>(g, 2, 3); auto s = rmat<E>(g, 2, 2); auto& a = x.a; int r = g.n(1, 4, 20), c = g.n(1, 4, 20); auto d = rmat<E>(g, r, c);
  E a1[6] = {a[0], a[1], a[2], a[3], a[4], a[5]}, a2[2][3] = {{a[0], a[1], a[2]}, {a[3], a[4], a[5]}};
  typedef matrix<E, fixed<2, 3>, B, L> F; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<2, 3>, B, L> X; typedef matrix<E, external<>, B, L> XD;
  ckm(F(a[0], a[1], a[2], a[3], a[4], a[5]), x, "fixed-elems"); ckm(F(a1), x, "fixed-array"); ckm(F(a2), x, "fixed-2d-array"); ckm(F((const E*) a1), x, "fixed-pointer");
  ckm(F{a[0], a[1], a[2], a[3], a[4], a[5]}, x, "fixed-init"); ckm(matrix<E, fixed<2, 2>, B, L>(s.a[0], s.a[1], s.a[2], s.a[3]), s, "fixed22-elems");
  ckm(D(2, 3, a[0], a[1], a[2], a[3], a[4], a[5]), x, "dyn-elems"); ckm(D(2, 3, a1), x, "dyn-array"); ckm(D(a2), x, "dyn-2d-array");
  ckm(D(r, c, (const E*) d.a.data()), d, "dyn-r-c-ptr"); ckm(D((const E*) d.a.data(), r, c), d, "dyn-ptr-r-c");
  { RM<E> x32(3, 2); x32.a = x.a; ckm(D(3, 2, a[0], a[1], a[2], a[3], a[4], a[5]), x32, "dyn-elems-3x2"); ckm(D(3, 2, a1), x32, "dyn-array-3x2"); }
  { D e; mon::check(e.rows() == 0 && e.cols() == 0, "dyn-default"); D z(r, c); mon::check(z.rows() == r && z.cols() == c, "dyn-size");
    bool t = false; try { D q(-1, c); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "dyn-negative-rows"); t = false; try { D q(r, -2); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "dyn-negative-cols");
    D k(r, c, (const E*) d.a.data()); t = false; try { k.resize(-1, c); } catch(const std::invalid_argument&) { t = true; } mon::check(t && eqm(k, d), "dyn-negative-resize"); t = false; try { k.resize_fast(r, -1); } catch(const std::invalid_argument&) { t = true; } mon::check(t && eqm(k, d), "dyn-negative-resize-fast"); }
  { // external views: layout decides which logical element a buffer cell is
    std::vector<E> b(size_t(r) * c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) b[lin(i, j, r, c, L())] = d(i, j);
    XD p(b.data(), r, c), q(r, c, b.data()); ckm(p, d, "ext-ptr-r-c"); ckm(q, d, "ext-r-c-ptr"); int i = g.i(0, r - 1), j = g.i(0, c - 1); E t = small<E>(g); p.put(i, j, t); mon::check(b[lin(i, j, r, c, L())] == t && q(i, j) == t, "ext-writes-through");
    d(i, j) = t; XD mv(std::move(p)); ckm(mv, d, "ext-move"); mon::check(mv.data() == b.data(), "ext-move-views"); XD ma; ma = std::move(mv); ckm(ma, d, "ext-move-assign"); ma.reset(); mon::check(ma.rows() == 0 && ma.cols() == 0 && ma.data() == nullptr, "ext-reset");
    bool th = false; try { XD n(b.data(), -1, c); } catch(const std::invalid_argument&) { th = true; } mon::check(th, "ext-negative");  th = false; try { XD n(r, -1, b.data()); } catch(const std::invalid_argument&) { th = true; } mon::check(th, "ext-negative-2"); }
  { E b[6]; for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) b[lin(i, j, 2, 3, L())] = x(i, j); X p(b); ckm(p, x, "extfixed-ptr"); X mv(std::move(p)); ckm(mv, x, "extfixed-move"); F f(mv); ckm(f, x, "fixed-from-ext"); D dd(mv); ckm(dd, x, "dyn-from-ext");
    F fo(D(2, 3, a1)); ckm(fo, x, "fixed-from-dyn"); X ma; ma = std::move(mv); ckm(ma, x, "extfixed-move-assign");
    typename std::conditional<std::is_same<L, row_major>::value, E[2][3], E[3][2]>::type b2; for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) (&b2[0][0])[lin(i, j, 2, 3, L())] = x(i, j); X p2(b2); ckm(p2, x, "extfixed-2d-array"); XD p3(b2); ckm(p3, x, "ext-2d-array"); }
  { F f = (F() = a1); ckm(f, x, "rv-assign-array"); F f2 = (F() = a2); ckm(f2, x, "rv-assign-2d"); F f3 = (F() = {a[0], a[1], a[2], a[3], a[4], a[5]}); ckm(f3, x, "rv-assign-init"); F f4 = (F() = D(a2)); ckm(f4, x, "rv-assign-matrix"); D d4 = (D() = F(a2)); ckm(d4, x, "rv-assign-dyn"); }
  // generators
  mon::note(fmt("ctors<%s,%s,%s> ", ename<E>(), bname<B>(), lname<L>()) + show(x) + show(d));
}

// Every form again with elements of another type, over the whole range: each element is the converted value.
template<class E, class S, class B, class L> void mixed(Rng& g) {
  const int r = g.n(1, 4, 16), c = g.n(1, 4, 16); RM<S> y(2, 3), z(r, c); RM<E> x(2, 3), w(r, c); for(int i = 0; i < 6; ++i) { y.a[i] = precise<S, E>(g); x.a[i] = E(y.a[i]); } for(int i = 0; i < r * c; ++i) { z.a[i] = precise<S, E>(g); w.a[i] = E(z.a[i]); } const auto& a = y.a;
  S a1[6] = {a[0], a[1], a[2], a[3], a[4], a[5]}, a2[2][3] = {{a[0], a[1], a[2]}, {a[3], a[4], a[5]}};
  auto is = [&](const auto& m, const RM<E>& k, const char* key) { bool ok = m.rows() == k.r && m.cols() == k.c; for(int i = 0; ok && i < k.r; ++i) for(int j = 0; ok && j < k.c; ++j) ok = bits<E>(m(i, j), k(i, j)) && bits<E>(m.get(i, j), k(i, j)); mon::check(ok, key, "from " + show(y) + show(z) + " got " + showm(m)); };
  typedef matrix<E, fixed<2, 3>, B, L> F; typedef matrix<E, dynamic<>, B, L> D; typedef matrix<E, external<2, 3>, B, L> X; typedef matrix<E, external<>, B, L> XD; typedef typename std::conditional<std::is_same<L, row_major>::value, col_major, row_major>::type O;
  is(F(a[0], a[1], a[2], a[3], a[4], a[5]), x, "mixed/fixed-elems"); is(F(a1), x, "mixed/fixed-array"); is(F(a2), x, "mixed/fixed-2d-array"); is(F((const S*) a1), x, "mixed/fixed-pointer"); is(F({a[0], a[1], a[2], a[3], a[4], a[5]}), x, "mixed/fixed-list");
  is(D(2, 3, a[0], a[1], a[2], a[3], a[4], a[5]), x, "mixed/dyn-elems"); is(D(2, 3, a1), x, "mixed/dyn-array"); is(D(a2), x, "mixed/dyn-2d-array"); is(D(r, c, (const S*) z.a.data()), w, "mixed/dyn-pointer"); is(D((const S*) z.a.data(), r, c), w, "mixed/dyn-pointer-first");
  MH<matrix<S, fixed<2, 3>, B, O>> f(y); MH<matrix<S, external<2, 3>, B, L>> xf(y); MH<matrix<S, dynamic<>, B, O>> d(z); MH<matrix<S, dynamic<>, B, L>> d2(z); MH<matrix<S, external<>, B, O>> xd(z); MH<matrix<S, external<>, B, L>> xd2(z); MH<matrix<S, dynamic<>, B, L>> e6(y); MH<matrix<S, external<>, B, O>> x6(y);
  is(F(f.m), x, "mixed/fixed-from-fixed"); is(F(xf.m), x, "mixed/fixed-from-external"); is(F(e6.m), x, "mixed/fixed-from-dynamic"); is(D(f.m), x, "mixed/dyn-from-fixed"); is(D(d.m), w, "mixed/dyn-from-dyn"); is(D(d2.m), w, "mixed/dyn-from-dyn-same-layout"); is(D(xd.m), w, "mixed/dyn-from-external"); is(D(xd2.m), w, "mixed/dyn-from-external-same-layout");
  const int q = g.i(0, 11); mon::bin("mixed/" + std::to_string(q));
  auto into = [&](auto& m) {
    switch(q) { case 0: m = a1; break; case 1: m = a2; break; case 2: m = {a[0], a[1], a[2], a[3], a[4], a[5]}; break; case 3: m = f.m; break; case 4: m = xf.m; break; case 5: m = e6.m; break; case 6: m = x6.m; break; case 7: for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) m.put(i, j, y(i, j)); break;
      case 8: for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) { if(std::is_same<B, row_basis>::value) m.set_basis_element(i, j, y(i, j)); else m.set_basis_element(j, i, y(i, j)); } break;
      case 9: for(int i = 0; i < 2; ++i) { std::vector<S> t(y.a.begin() + 3 * i, y.a.begin() + 3 * i + 3); VH<vector<S, dynamic<>>> h(t); m.set_row(i, h.v); } break;
      case 10: for(int j = 0; j < 3; ++j) { std::vector<S> t = {y(0, j), y(1, j)}; VH<vector<S, external<>>> h(t); m.set_col(j, h.v); } break; default: std::move(m) = a2; } is(m, x, m.rows() < 0 ? "" : "mixed/into"); };
  RM<E> one(2, 3); for(auto& t : one.a) t = E(1); MH<F> tf(one); MH<X> tx(one); MH<D> td(one); MH<XD> te(one); into(tf.m); into(tx.m); into(td.m); into(te.m);
  { RM<E> o(r, c); MH<D> p(o); MH<XD> t(o), t2(o); p.m = d.m; t.m = xd.m; t2.m = d2.m; is(p.m, w, "mixed/assign-dynamic"); is(t.m, w, "mixed/assign-external"); is(t2.m, w, "mixed/assign-external-same-layout"); p.m.transpose(); is(p.m, tr(w), "mixed/transpose"); p.m.fill(x.a[0]); RM<E> fl(c, r); for(auto& e : fl.a) e = x.a[0]; is(p.m, fl, "mixed/fill"); }
  if(mon::noting()) mon::note(std::string(ename<S>()) + " to " + ename<E>() + show(y) + show(z));
}
int main(int c, char** v) {
  mon::init(c, v);
#define MM(E, S, B, L) machine<matrix<E, S, B, L>>("hist-" #E "-" #S "-" #B "-" #L, 400)
#define COMMA ,
#if PART == 0
  MM(double, dynamic<>, row_basis, row_major); MM(double, dynamic<>, col_basis, col_major); mon::group("ctors-d-rr", 150, ctors<double, row_basis, row_major>); mon::group("mixed-double-double-row_basis-row_major", 150, mixed<double, double, row_basis, row_major>);
#elif PART == 1
  MM(double, dynamic<>, row_basis, col_major); MM(int, dynamic<>, col_basis, row_major); mon::group("ctors-i-cc", 150, ctors<int, col_basis, col_major>); mon::group("mixed-float-int-col_basis-col_major", 150, mixed<float, int, col_basis, col_major>);
#elif PART == 2
  MM(double, external<>, row_basis, row_major); MM(float, external<>, col_basis, col_major); mon::group("ctors-f-rc", 150, ctors<float, row_basis, col_major>); mon::group("mixed-int-double-row_basis-col_major", 150, mixed<int, double, row_basis, col_major>);
#elif PART == 3
  MM(int, external<>, row_basis, col_major); MM(double, external<>, col_basis, row_major); mon::group("ctors-d-cr", 150, ctors<double, col_basis, row_major>); mon::group("mixed-double-long-col_basis-row_major", 150, mixed<double, long, col_basis, row_major>);
#elif PART == 4
  MM(double, fixed<3 COMMA 3>, row_basis, row_major); MM(double, fixed<2 COMMA 3>, col_basis, col_major); MM(int, fixed<2 COMMA 2>, row_basis, col_major); mon::group("mixed-float-double-col_basis-row_major", 150, mixed<float, double, col_basis, row_major>);
#elif PART == 5
  MM(float, fixed<4 COMMA 4>, col_basis, row_major); MM(double, fixed<3 COMMA 2>, row_basis, col_major); MM(int, fixed<1 COMMA 3>, col_basis, col_major); mon::group("mixed-double-float-row_basis-col_major", 150, mixed<double, float, row_basis, col_major>);
#elif PART == 6
  MM(double, external<3 COMMA 3>, row_basis, col_major); MM(float, external<2 COMMA 3>, col_basis, row_major); MM(double, external<4 COMMA 3>, row_basis, row_major); mon::group("mixed-long-float-row_basis-row_major", 150, mixed<long, float, row_basis, row_major>);
#elif PART == 8
  MM(double, fixed<5 COMMA 3>, row_basis, col_major); MM(float, fixed<4 COMMA 1>, col_basis, col_major); MM(double, fixed<3 COMMA 4>, col_basis, row_major); mon::group("mixed-unsigned-double-col_basis-col_major", 150, mixed<unsigned, double, col_basis, col_major>);
#elif PART == 9
  MM(double, external<5 COMMA 2>, col_basis, col_major); MM(int, external<1 COMMA 4>, row_basis, col_major); MM(double, fixed<2 COMMA 4>, row_basis, row_major); mon::group("mixed-short-float-col_basis-row_major", 150, mixed<short, float, col_basis, row_major>);
#else
  MM(double, external<2 COMMA 2>, col_basis, col_major); MM(int, external<3 COMMA 2>, row_basis, row_major); MM(double, fixed<5 COMMA 5>, col_basis, col_major); mon::group("mixed-int-int-row_basis-col_major", 150, mixed<int, int, row_basis, col_major>);
#endif
  return mon::finish();
}
