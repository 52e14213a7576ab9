// C01: vectors of every storage behave like the sequence of elements they were given.
#include "zoo.h"
using namespace zoo; using mon::Rng; using mon::fmt;

// Everything observable about v agrees with the model x.
template<class V, class E> bool same(const V& v, const std::vector<E>& x, const char* key) {
  const int n = int(x.size());
  mon::ev();
  bool ok = v.size() == n && cml::array_size_of(v) == n;
  if(ok && n > 0) {
    ok = (v.end() - v.begin()) == n && v.data() == v.begin();
    for(int i = 0; ok && i < n; ++i) {
      ok = v.get(i) == x[i] && v[i] == x[i] && v.data()[i] == x[i] && v.begin()[i] == x[i]
        && &v.data()[i] == v.data() + i;
    }
    if(ok) { int k = 0; for(const auto& e : v) ok = ok && e == x[k++]; ok = ok && k == n; }
  }
  if(!ok) mon::fail(key, "got " + showv(v) + " want " + show(x));
  return ok;
}
template<std::size_t I, class V, class X> void static_get(const V& cv, V& v, const X& x) {
  if constexpr(VH<V>::N_ > int(I)) {
    mon::check(cv.template get<I>() == x[I], "static-get");
    v.template get<I>() = x[I];
    if constexpr(I < 8) static_get<I + 1>(cv, v, x);
  }
}

template<class E, class V> struct Machine {
  typedef VH<V> H;
  static constexpr bool dyn = H::dyn;
  std::vector<std::unique_ptr<H>> pool; std::vector<std::vector<E>> model;
  std::vector<const E*> buf;
  Rng& g; std::string trace;
  int K;
  Machine(Rng& g) : g(g), K(3) {}
  int newsize() { return H::N_ > 0 ? H::N_ : (H::dyn ? g.n(0, 7, 150) : g.n(1, 7, 150)); }
  void sync() {
    for(int k = 0; k < K; ++k) {
      if(!same(pool[k]->v, model[k], "state-after-op")) { mon::fail("trace", trace); model[k].clear(); for(int i = 0; i < pool[k]->v.size(); ++i) model[k].push_back(pool[k]->v.get(i)); }
      if(H::ext) mon::check(pool[k]->v.data() == buf[k], "external-buffer-identity", trace);
    }
  }
  template<class S> void assign_from(int k, const std::vector<E>& src) {
    VH<S> h(src); pool[k]->v = h.v; model[k] = src;
    same(h.v, src, "assign-source-unchanged");
  }
  void step() {
    int k = g.i(0, K - 1), o = g.i(0, K - 1);
    V& v = pool[k]->v; auto& m = model[k]; int n = int(m.size());
    int op = g.i(0, 27);
    mon::mix(op); mon::mix(k);
    trace += fmt(" %d:%d/%d", op, k, o);
    mon::bin("op/" + std::to_string(op));
    switch(op) {
      case 0: if(n) { int i = g.i(0, n - 1); E x = small<E>(g); V& r = v.put(i, x); m[i] = x; mon::check(&r == &v, "put-returns-self"); } break;
      case 1: if(n) { int i = g.i(0, n - 1); E x = small<E>(g); v[i] = x; m[i] = x; } break;
      case 2: if(n) { int i = g.i(0, n - 1); E x = small<E>(g); v.get(i) += x; m[i] += x; } break;
      case 3: { E x = small<E>(g); v.fill(x); for(auto& e : m) e = x; } break;
      case 4: { v.zero(); for(auto& e : m) e = 0; } break;
      case 5: if(n) { int i = g.i(0, n - 1); v.cardinal(i); for(auto& e : m) e = 0; m[i] = 1; } break;
      case 6: case 7: {  // minimize / maximize against another storage
        auto y = rvec<E>(g, n); VH<vector<E, dynamic<>>> h(y);
        if(op == 6) v.minimize(h.v); else v.maximize(h.v);
        for(int i = 0; i < n; ++i) m[i] = op == 6 ? (y[i] < m[i] ? y[i] : m[i]) : (y[i] > m[i] ? y[i] : m[i]);
      } break;
      case 8: {
        E lo = small<E>(g, 20), hi = E(lo + g.i(1, 9)); v.random(lo, hi);
        for(int i = 0; i < n; ++i) { mon::check(v[i] >= lo && v[i] <= hi, "random-in-range", fmt("%g not in [%g,%g]", double(v[i]), double(lo), double(hi))); m[i] = v[i]; }
      } break;
      case 9: if(dyn || int(model[o].size()) == n) { v = pool[o]->v; m = std::vector<E>(model[o]); } break;  // copy (o may be k)
      case 10: {
        auto y = rvec<E>(g, dyn ? newsize() : n);
        if(n > 0 || dyn) { assign_from<vector<E, dynamic<>>>(k, y); }
      } break;
      case 11: { auto y = rvec<E>(g, dyn ? g.n(1, 7, 150) : n); if(y.size()) assign_from<vector<E, external<>>>(k, y); } break;
      case 12: if(dyn || n == 3) { auto y = rvec<E>(g, 3);
        if constexpr(dyn || H::N_ == 3 || (H::N_ < 0)) { if(g.coin()) assign_from<vector<E, fixed<3>>>(k, y); else assign_from<vector<E, external<3>>>(k, y); } } break;
      case 13: if constexpr(dyn || H::N_ == 4 || H::N_ < 0) if(dyn || n == 4) {
        auto y = rvec<E>(g, 4); E a[4] = {y[0], y[1], y[2], y[3]};
        v = a; m = y; } break;
      case 14: if(dyn || n == 2) { auto y = rvec<E>(g, 2); v = {y[0], y[1]}; m = y; }
        else if(n == 3) { auto y = rvec<E>(g, 3); v = {y[0], y[1], y[2]}; m = y; }
        else if(n == 4) { auto y = rvec<E>(g, 4); v = {y[0], y[1], y[2], y[3]}; m = y; } break;
      case 15: {  // element-list set
        if constexpr(dyn || H::N_ < 0 || H::N_ == 2) if(dyn || n == 2) { auto y = rvec<E>(g, 2); v.set(y[0], y[1]); m = y; break; }
        if constexpr(dyn || H::N_ < 0 || H::N_ == 3) if(dyn || n == 3) { auto y = rvec<E>(g, 3); v.set(y[0], y[1], y[2]); m = y; break; }
        if constexpr(dyn || H::N_ < 0 || H::N_ == 4) if(dyn || n == 4) { auto y = rvec<E>(g, 4); v.set(y[0], y[1], y[2], y[3]); m = y; break; }
      } break;
      case 16: if constexpr(dyn) { int nn = newsize(); v.resize(nn); mon::mix(nn);
          int keep = nn < n ? nn : n; mon::check(v.size() == nn, "resize-size");
          for(int i = 0; i < keep; ++i) mon::check(v[i] == m[i], "resize-keeps-prefix", trace);
          m.resize(nn); for(int i = keep; i < nn; ++i) { E x = small<E>(g); v.put(i, x); m[i] = x; }
          if(nn > n) mon::bin("resize/grow"); else if(nn < n) mon::bin("resize/shrink"); else mon::bin("resize/same"); } break;
      case 17: if constexpr(dyn) { int nn = newsize(); v.resize_fast(nn); mon::check(v.size() == nn, "resize-fast-size");
          if(nn == n) { mon::check(eqv(v, m), "resize-fast-same-size-keeps"); }
          m.resize(nn); for(int i = 0; i < nn; ++i) { E x = small<E>(g); v.put(i, x); m[i] = x; } } break;
      case 18: if constexpr(dyn) if(o != k) {  // move assignment
          v = std::move(pool[o]->v); m = model[o];
          // the source is valid but unspecified: give it a new value
          auto y = rvec<E>(g, newsize()); pool[o]->v = VH<V>(y).v; model[o] = y; } break;
      case 19: { V c(pool[k]->v); mon::check(eqv(c, m), "copy-construct");
          if(!H::ext && n) { c.put(0, E(c[0] + 1)); mon::check(eqv(v, m), "copy-is-independent"); } } break;
      case 20: if constexpr(!H::ext) { V c(v); V d(std::move(c)); mon::check(eqv(d, m), "move-construct"); } break;
      case 21: if constexpr(!H::ext) { E x = small<E>(g); V d = V(v).fill(x); std::vector<E> y(n, x); mon::check(eqv(d, y), "rvalue-fill");
          V z = V(v).zero(); mon::check(eqv(z, std::vector<E>(n, E(0))), "rvalue-zero");
          if(n) { int i = g.i(0, n - 1); V c = V(v).cardinal(i); std::vector<E> y2(n, E(0)); y2[i] = 1; mon::check(eqv(c, y2), "rvalue-cardinal");
            V p = V(v).put(i, x); auto y3 = m; y3[i] = x; mon::check(eqv(p, y3), "rvalue-put");
            auto y4 = rvec<E>(g, n); VH<V> h4(y4); V q = V(v).minimize(h4.v); V q2 = V(v).maximize(h4.v);
            bool ok = true; for(int j = 0; j < n; ++j) ok = ok && q[j] == std::min(m[j], y4[j]) && q2[j] == std::max(m[j], y4[j]); mon::check(ok, "rvalue-minmax"); } } break;
      case 22: if(n >= 2) { int i = g.i(0, n - 1); std::vector<E> y; for(int j = 0; j < n; ++j) if(j != i) y.push_back(m[j]);
          const V& cv = v; vector<E, dynamic<>> d; d = cv.subvector(i); mon::check(eqv(d, y), "subvector", "got " + showv(d) + " want " + show(y));
          auto s = subvector(cv, i); mon::check(eqv(s, y), "subvector-fn"); } break;
      case 23: {  // vector plus extra elements
        auto y = rvec<E>(g, 1 + (n > 0)); E t = small<E>(g);
        vector<E, dynamic<>> d(v, t); auto x = m; x.push_back(t); mon::check(eqv(d, x), "vector-plus-element");
        vector<E, dynamic<>> d2(v, t, y[0]); x.push_back(y[0]); mon::check(eqv(d2, x), "vector-plus-2-elements");
        if constexpr(H::N_ == 2) { vector<E, fixed<3>> f(v, t); auto z = m; z.push_back(t); mon::check(eqv(f, z), "fixed-vector-plus-element"); vector<E, fixed<4>> f4(v, t, y[0]); mon::check(eqv(f4, x), "fixed-vector-plus-2"); }
        if constexpr(H::N_ == 3) { vector<E, fixed<4>> f(v, t); auto z = m; z.push_back(t); mon::check(eqv(f, z), "fixed-vector-plus-element"); }
      } break;
      case 24: static_get<0>((const V&) v, v, m); break;
      case 25: { V& w = v; v = w; } break;  // self assignment
      case 26: if constexpr(!H::ext) { V c(pool[o]->v); v = std::move(c); m = std::vector<E>(model[o]); auto y = rvec<E>(g, newsize()); V& r = (v = V(VH<V>(y).v)); mon::check(&r == &v, "move-assign-returns-self"); m = y; }
        else { auto x = rvec<E>(g, newsize()), y = rvec<E>(g, newsize()); VH<V> a(x), b(y); a.v = std::move(b.v); mon::bin("external-move-assign");
          mon::check(a.v.data() == b.b.get() && eqv(a.v, y), "external-move-assign-takes-buffer"); bool ok = true; for(size_t i = 0; i < x.size(); ++i) ok = ok && a.b[i] == x[i]; mon::check(ok, "external-move-assign-keeps-old-buffer");
          V c(std::move(a.v)); mon::check(c.data() == b.b.get() && eqv(c, y), "external-move-construct"); E e = small<E>(g); c.put(0, e); mon::check(b.b[0] == e, "external-moved-writes-buffer"); } break;
      case 27: if constexpr(!H::ext) { std::swap(v, pool[o]->v); std::swap(model[k], model[o]); mon::bin("swap"); } break;
    }
    sync();
  }
  void run() {
    for(int k = 0; k < K; ++k) { model.push_back(rvec<E>(g, newsize())); pool.emplace_back(new H(model.back())); buf.push_back(H::ext ? pool.back()->v.data() : nullptr); }
    if(mon::noting()) { std::string s = fmt("%s<%s> start", H::tag(), ename<E>()); for(auto& m : model) s += " " + show(m); mon::note(s); }
    sync();
    for(int s = 0; s < 25; ++s) step();
    mon::note(" ops(op:target/other)" + trace + " end"); for(auto& m : model) mon::note(" " + show(m));
  }
};

template<class E, class V> void machine(const char* nm, double n) {
  mon::group(nm, n, [](Rng& g) { Machine<E, V> m(g); m.run(); mon::bin(std::string("storage/") + VH<V>::tag() + "/" + ename<E>()); });
}

// Every documented way of constructing a vector yields the same elements.
template<class E> void ctors(Rng& g) {
  auto x = rvec<E>(g, 4); int n = g.n(1, 6, 80); auto d = rvec<E>(g, n);
  E a2[2] = {x[0], x[1]}, a3[3] = {x[0], x[1], x[2]}, a4[4] = {x[0], x[1], x[2], x[3]};
  std::vector<E> x2(x.begin(), x.begin() + 2), x3(x.begin(), x.begin() + 3);
  ckv(vector<E, fixed<2>>(x[0], x[1]), x2, "fixed-elems-2");
  ckv(vector<E, fixed<3>>(x[0], x[1], x[2]), x3, "fixed-elems-3");
  ckv(vector<E, fixed<4>>(x[0], x[1], x[2], x[3]), x, "fixed-elems-4");
  ckv(vector<E, fixed<3>>(a3), x3, "fixed-array");
  ckv(vector<E, fixed<3>>((const E*) x.data()), x3, "fixed-pointer");
  ckv(vector<E, fixed<3>>{x[0], x[1], x[2]}, x3, "fixed-init-list");
  ckv(vector<E, fixed<4>>(vector<E, fixed<2>>(a2), x[2], x[3]), x, "fixed-vec+elems");
  ckv(vector<E, fixed<4>>(vector<E, fixed<3>>(a3), x[3]), x, "fixed-vec+elem");
  ckv(vector<E, fixed<4>>(vector<E, external<4>>(a4)), x, "fixed-from-external");
  ckv(vector<E, fixed<4>>(vector<E, dynamic<>>(a4)), x, "fixed-from-dynamic");
  ckv(vector<E, dynamic<>>(x[0], x[1], x[2]), x3, "dyn-elems-3");
  ckv(vector<E, dynamic<>>(x[0], x[1], x[2], x[3]), x, "dyn-elems-4");
  ckv(vector<E, dynamic<>>(a2), x2, "dyn-array");
  ckv(vector<E, dynamic<>>((const E*) d.data(), n), d, "dyn-ptr-size");
  ckv(vector<E, dynamic<>>(n, (const E*) d.data()), d, "dyn-size-ptr");
  ckv(vector<E, dynamic<>>(vector<E, fixed<2>>(a2), x[2], x[3]), x, "dyn-vec+elems");
  ckv(vector<E, dynamic<>>(vector<E, external<>>(d.data(), n)), d, "dyn-from-external");
  { vector<E, dynamic<>> e; mon::check(e.size() == 0 && e.begin() == e.end(), "dyn-default-empty"); vector<E, dynamic<>> z(n); mon::check(z.size() == n, "dyn-size-ctor");
    vector<E, dynamic<>> z0(0); mon::check(z0.size() == 0, "dyn-zero-size"); bool t = false; try { vector<E, dynamic<>> neg(-n); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "dyn-negative-size-throws");
    vector<E, dynamic<>> k(d.data(), n); t = false; try { k.resize(-1); } catch(const std::invalid_argument&) { t = true; } mon::check(t && eqv(k, d), "dyn-negative-resize-throws");
    t = false; try { k.resize_fast(-3); } catch(const std::invalid_argument&) { t = true; } mon::check(t && eqv(k, d), "dyn-negative-resize-fast-throws");
    t = false; try { vector<E, external<>> q(d.data(), -1); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "external-negative-size-throws");
    t = false; try { vector<E, external<>> q(-1, d.data()); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "external-negative-size-throws-2"); }
  { vector<E, external<>> p(d.data(), n), q(n, d.data()); ckv(p, d, "ext-ptr-size"); ckv(q, d, "ext-size-ptr");
    vector<E, external<>> c(p); mon::check(c.data() == d.data() && c.size() == n, "ext-copy-views-same-buffer");
    int i = g.i(0, n - 1); E t = small<E>(g); c.put(i, t); mon::check(d[i] == t && p[i] == t, "ext-writes-through");
    vector<E, external<>> m(std::move(c)); mon::check(m.data() == d.data() && m.size() == n, "ext-move-views-same-buffer");
    vector<E, external<>> r; r = std::move(m); mon::check(r.data() == d.data() && r.size() == n, "ext-move-assign-views");
    vector<const E, external<>> ro(d.data(), n); ckv(ro, d, "const-ext"); vector<const E, external<>> ro2(std::move(ro)); ckv(ro2, d, "const-ext-move");
    { const E* cb = d.data(); vector<const E, external<>> rs(n, cb); ckv(rs, d, "const-ext-size-ptr"); mon::check(rs.data() == cb && rs.begin() == cb && rs.end() == cb + n, "const-ext-data"); { int k = 0; bool ok = true; for(const E& e : rs) ok = ok && e == d[k++]; mon::check(ok && k == n, "const-ext-iterate"); }
      const E old = d[i]; d[i] = E(old + 1); mon::check(rs[i] == E(old + 1) && rs.get(i) == E(old + 1), "const-ext-sees-buffer"); d[i] = old; vector<E, dynamic<>> cpy(rs); ckv(cpy, d, "dyn-from-const-ext"); vector<E, external<>> wt(d.data(), n); mon::check(rs == wt && wt == rs && !(rs < wt) && rs <= wt, "const-ext-equal"); ckv(rs + rs - rs, d, "const-ext-expression"); ckv(2 * rs - wt, d, "const-ext-expression-2");
      vector<const E, external<>> mv(std::move(rs)); mon::check(mv.data() == cb && mv.size() == n && mv.end() == cb + n, "const-ext-move-views"); mv.reset(); mon::check(mv.size() == 0 && mv.data() == nullptr && mv.begin() == mv.end(), "const-ext-reset"); vector<const E, external<>> none; mon::check(none.size() == 0 && none.data() == nullptr && none.begin() == none.end(), "const-ext-default");
      bool t2 = false; try { vector<const E, external<>> q(cb, -1); } catch(const std::invalid_argument&) { t2 = true; } mon::check(t2, "const-ext-negative-size-throws"); t2 = false; try { vector<const E, external<>> q(-2, cb); } catch(const std::invalid_argument&) { t2 = true; } mon::check(t2, "const-ext-negative-size-throws-2"); mon::check(eqv(p, d), "const-ext-leaves-buffer"); }
    auto y = rvec<E>(g, n); vector<E, external<>> w(y.data(), n); w = p; mon::check(w.data() == y.data() && y == d, "ext-assign-copies-elements");
    r.reset(); mon::check(r.size() == 0 && r.data() == nullptr, "ext-reset"); mon::check(eqv(p, d), "ext-reset-leaves-buffer"); }
  { std::vector<E> b3(x3), c3 = rvec<E>(g, 3); vector<E, external<3>> p(b3.data()), q(c3.data()); auto keep = c3;
    p = q; mon::check(p.data() == b3.data() && b3 == keep && c3 == keep, "extfixed-assign-copies"); int i = g.i(0, 2); p[i] = x[3]; mon::check(b3[i] == x[3] && c3 == keep, "extfixed-writes-through");
    vector<E, external<3>> cp(p); mon::check(cp.data() == b3.data(), "extfixed-copy-views"); vector<E, external<3>> mv(std::move(cp)); mon::check(mv.data() == b3.data(), "extfixed-move-views");
    vector<E, external<3>> ma; ma = std::move(mv); mon::check(ma.data() == b3.data(), "extfixed-move-assign-views");
    vector<const E, external<3>> ro(c3.data()); ckv(ro, c3, "const-extfixed"); vector<E, fixed<3>> f(ro); ckv(f, c3, "fixed-from-const-ext"); vector<const E, external<3>> ro2(std::move(ro)); ckv(ro2, c3, "const-extfixed-move");
    mon::check(ro2.data() == c3.data() && ro2.begin() == c3.data() && ro2.end() == c3.data() + 3 && ro2.size() == 3, "const-extfixed-data"); { int k = 0; bool ok = true; for(const E& e : ro2) ok = ok && e == c3[k++]; mon::check(ok && k == 3, "const-extfixed-iterate"); } { E o = c3[i]; c3[i] = E(o + 1); mon::check(ro2[i] == E(o + 1) && ro2.get(i) == E(o + 1), "const-extfixed-sees-buffer"); c3[i] = o; } { const vector<E, external<3>> cw(c3.data()); mon::check(cw.data() == c3.data() && cw.begin() == c3.data() && cw.end() == c3.data() + 3 && ro2 == cw && cw == ro2, "extfixed-const-data"); ckv(ro2 + cw - ro2, c3, "const-extfixed-expression"); } }
  { // assignment to temporaries and the rvalue forms
    vector<E, fixed<3>> f = (vector<E, fixed<3>>() = a3); ckv(f, x3, "rv-assign-array"); vector<E, fixed<3>> f2 = (vector<E, fixed<3>>() = {x[0], x[1], x[2]}); ckv(f2, x3, "rv-assign-init");
    vector<E, fixed<3>> f3 = vector<E, fixed<3>>().set(x[0], x[1], x[2]); ckv(f3, x3, "rv-set"); vector<E, fixed<3>> f4 = (vector<E, fixed<3>>() = vector<E, dynamic<>>(a3)); ckv(f4, x3, "rv-assign-vec");
    vector<E, dynamic<>> d4 = (vector<E, dynamic<>>() = vector<E, fixed<3>>(a3)); ckv(d4, x3, "rv-assign-vec-dyn"); }
  { // structured bindings over fixed vectors
    const vector<E, fixed<3>> f(a3); mon::check(std::tuple_size<vector<E, fixed<3>>>::value == 3, "tuple-size"); mon::check(f.template get<0>() == x[0] && f.template get<2>() == x[2], "tuple-get"); auto [p, q, r] = f; mon::check(p == x[0] && q == x[1] && r == x[2], "structured-binding"); }
  mon::note(fmt("ctors<%s> ", ename<E>()) + show(x) + " " + show(d));
}

// Every form again with elements of another type, over the whole range: each element is the converted value.
template<class E, class S> void mixed(Rng& g) {
  S y[4]; for(auto& t : y) t = precise<S, E>(g); std::vector<E> x; for(auto t : y) x.push_back(E(t)); const std::vector<S> sy(y, y + 4); const int n = g.n(1, 7, 60); std::vector<S> z(n); std::vector<E> w; for(auto& t : z) { t = precise<S, E>(g); w.push_back(E(t)); }
  S y2[2] = {y[0], y[1]}, y3[3] = {y[0], y[1], y[2]}; const std::vector<E> x2(x.begin(), x.begin() + 2), x3(x.begin(), x.begin() + 3);
  auto is = [&](const auto& v, const std::vector<E>& r, const char* key) { bool ok = v.size() == int(r.size()); for(size_t i = 0; ok && i < r.size(); ++i) ok = bits<E>(v[i], r[i]) && bits<E>(v.get(i), r[i]); mon::check(ok, key, "from " + show(sy) + show(z) + " got " + showv(v)); };
  typedef vector<E, dynamic<>> D; typedef vector<E, external<>> X;
  is(vector<E, fixed<3>>(y3), x3, "mixed/fixed-array"); is(vector<E, fixed<4>>((const S*) y), x, "mixed/fixed-pointer"); is(vector<E, fixed<2>>(y[0], y[1]), x2, "mixed/fixed-elems-2"); is(vector<E, fixed<3>>(y[0], y[1], y[2]), x3, "mixed/fixed-elems-3"); is(vector<E, fixed<4>>(y[0], y[1], y[2], y[3]), x, "mixed/fixed-elems-4");
  is(vector<E, fixed<4>>({y[0], y[1], y[2], y[3]}), x, "mixed/fixed-list"); is(vector<E, fixed<3>>(vector<S, fixed<2>>(y2), y[2]), x3, "mixed/fixed-vector-element"); is(vector<E, fixed<4>>(vector<S, external<3>>(y3), y[3]), x, "mixed/fixed-vector-element-4");
  is(D(y), x, "mixed/dyn-array"); is(D((const S*) z.data(), n), w, "mixed/dyn-pointer"); is(D(n, (const S*) z.data()), w, "mixed/dyn-size-pointer"); is(D(y[0], y[1], y[2]), x3, "mixed/dyn-elems"); is(D({y[0], y[1]}), x2, "mixed/dyn-list"); is(D(vector<S, fixed<2>>(y2), y[2], y[3]), x, "mixed/dyn-vector-elements");
  VH<vector<S, fixed<4>>> f(sy); VH<vector<S, external<4>>> xf(sy); VH<vector<S, dynamic<>>> d(z); VH<vector<S, external<>>> xd(z); VH<vector<const S, external<>>> xc(z);
  is(vector<E, fixed<4>>(f.v), x, "mixed/fixed-from-fixed"); is(vector<E, fixed<4>>(xf.v), x, "mixed/fixed-from-external"); is(D(f.v), x, "mixed/dyn-from-fixed"); is(D(d.v), w, "mixed/dyn-from-dyn"); is(D(xd.v), w, "mixed/dyn-from-external"); is(D(xc.v), w, "mixed/dyn-from-const-external");
  auto into = [&](auto& v, int q) {  // every way of giving a vector of 4 the elements y
    switch(q) { case 0: v = y; break; case 1: v = {y[0], y[1], y[2], y[3]}; break; case 2: v = f.v; break; case 3: v = xf.v; break; case 4: { VH<vector<S, dynamic<>>> t(sy); v = t.v; break; } case 5: { VH<vector<S, external<>>> t(sy); v = t.v; break; } case 6: v.set(y[0], y[1], y[2], y[3]); break;
      case 7: for(int i = 0; i < 4; ++i) v.put(i, y[i]); break; case 8: std::move(v).set(y[0], y[1], y[2], y[3]); break; case 9: for(int i = 0; i < 4; ++i) std::move(v).put(i, y[i]); break; case 10: std::move(v) = {y[0], y[1], y[2], y[3]}; break; default: std::move(v) = y; } };
  const int q = g.i(0, 11); mon::bin("mixed/" + std::to_string(q)); const std::vector<E> old(4, E(1)); VH<vector<E, fixed<4>>> tf(old); VH<vector<E, external<4>>> tx(old); VH<D> td(old); VH<X> te(old);
  into(tf.v, q); is(tf.v, x, "mixed/into-fixed"); into(tx.v, q); is(tx.v, x, "mixed/into-external-fixed"); into(td.v, q); is(td.v, x, "mixed/into-dynamic"); into(te.v, q); is(te.v, x, "mixed/into-external");
  { const std::vector<E> o2(n, E(1)); VH<D> a(o2); VH<X> b(o2); a.v = d.v; b.v = xd.v; is(a.v, w, "mixed/assign-dynamic"); is(b.v, w, "mixed/assign-external"); a.v.fill(E(y[0])); is(a.v, std::vector<E>(n, x[0]), "mixed/fill"); }
  if(mon::noting()) mon::note(std::string(ename<S>()) + " to " + ename<E>() + show(sy) + show(z));
}
int main(int c, char** v) {
  mon::init(c, v);
#define MM(E, ...) machine<E, vector<E, __VA_ARGS__>>("hist-" #E "-" #__VA_ARGS__, 150)
#if PART == 0
  MM(double, fixed<3>); MM(double, dynamic<>); MM(int, fixed<2>); MM(float, external<4>); mon::group("ctors-double", 120, ctors<double>); mon::group("mixed-d-d", 150, mixed<double, double>); mon::group("mixed-d-l", 150, mixed<double, long>);
#elif PART == 1
  MM(double, external<3>); MM(double, external<>); MM(int, dynamic<>); MM(float, fixed<4>); mon::group("ctors-int", 120, ctors<int>); mon::group("mixed-i-d", 150, mixed<int, double>); mon::group("mixed-i-i", 100, mixed<int, int>); mon::group("mixed-d-f", 100, mixed<double, float>);
#elif PART == 2
  MM(float, dynamic<>); MM(int, external<>); MM(double, fixed<2>); MM(double, fixed<6>); mon::group("ctors-float", 120, ctors<float>); mon::group("mixed-f-d", 150, mixed<float, double>); mon::group("mixed-f-i", 150, mixed<float, int>);
#else
  MM(int, external<2>); MM(double, fixed<4>); MM(double, fixed<1>); MM(int, fixed<3>); MM(float, external<>); mon::group("mixed-l-f", 100, mixed<long, float>); mon::group("mixed-u-d", 100, mixed<unsigned, double>); mon::group("mixed-s-f", 100, mixed<short, float>); mon::group("mixed-ld-d", 100, mixed<long double, double>);
#endif
  return mon::finish();
}
