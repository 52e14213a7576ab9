// C03: storage of dynamic arrays: every allocation is returned once with its size, every element is
// constructed before use and destroyed once, and faults (allocation or element copies failing) leave
// objects valid, leak nothing and a failed resize unchanged.
#include <map>
#include <new>
#include <stdexcept>
#include <unordered_map>
#include <unordered_set>
#include "mon.h"
#include <cml/cml.h>
#include <cml/matrix/lu.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>

struct Injected : std::runtime_error { Injected() : std::runtime_error("injected") {} };

namespace watch {
struct W {
  std::unordered_map<void*, size_t> live;           // allocation -> element count
  std::unordered_map<const void*, size_t> bytes;    // allocation -> byte size
  std::unordered_set<const void*> objs;             // constructed elements
  long allocs = 0, frees = 0, ctor = 0, dtor = 0;
  long points = 0, fault_at = -1;                   // injection
  bool fired = false; int kind = 0;
  bool armed = false;
};
inline W& w() { static W x; return x; }
inline bool in_alloc(const void* p) { for(auto& a : w().bytes) if(p >= a.first && p < (const char*) a.first + a.second) return true; return false; }
inline void point(int kind) {
  W& x = w(); if(!x.armed) return;
  if(x.points++ == x.fault_at) { x.fired = true; x.kind = kind; if(kind == 0) throw std::bad_alloc(); throw Injected(); }
}
}  // namespace watch
using watch::w;

// Stateless allocator that records and can fail.
template<class T> struct CA {
  typedef T value_type;
  CA() = default; template<class U> CA(const CA<U>&) {}
  template<class U> struct rebind { typedef CA<U> other; };
  T* allocate(size_t n) {
    watch::point(0);
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    w().live[p] = n; w().bytes[p] = n * sizeof(T); ++w().allocs;
    return p;
  }
  void deallocate(T* p, size_t n) {
    auto it = w().live.find(p);
    if(it == w().live.end()) { mon::fail("dealloc-of-unknown-pointer", mon::fmt("p=%d n=%zu", p != nullptr, n)); return; }
    if(it->second != n) mon::fail("dealloc-size-mismatch", mon::fmt("allocated %zu freed %zu", it->second, n));
    for(size_t i = 0; i < it->second; ++i) if(w().objs.count(p + i)) { mon::fail("storage-freed-with-live-element", ""); w().objs.erase(p + i); }
    w().live.erase(it); w().bytes.erase(p); ++w().frees;
    ::operator delete(p);
  }
  template<class U> bool operator==(const CA<U>&) const { return true; }
  template<class U> bool operator!=(const CA<U>&) const { return false; }
};

// Element with observable lifetime; its operations can fail.
struct Tk {
  double d; 
  static void born(const Tk* p) { ++w().ctor; if(!w().objs.insert(p).second) mon::fail("element-constructed-twice", ""); }
  void alive(const char* what) const { if(!w().objs.count(this)) mon::fail(std::string(what) + "-of-unconstructed-element", ""); }
  Tk() : d(0) { watch::point(1); born(this); }
  Tk(double x) : d(x) { watch::point(1); born(this); }
  Tk(int x) : d(x) { watch::point(1); born(this); }
  Tk(const Tk& o) : d(o.d) { o.alive("copy"); watch::point(1); born(this); }
  Tk& operator=(const Tk& o) { alive("assignment-to"); o.alive("assignment-from"); watch::point(1); d = o.d; return *this; }
  ~Tk() { ++w().dtor; if(!w().objs.erase(this)) mon::fail("element-destroyed-twice", ""); }
  bool operator==(const Tk& o) const { alive("read"); o.alive("read"); return d == o.d; }
  bool operator<(const Tk& o) const { return d < o.d; }
  Tk operator+(const Tk& o) const { alive("read"); o.alive("read"); return Tk(d + o.d); }
  Tk operator-(const Tk& o) const { alive("read"); o.alive("read"); return Tk(d - o.d); }
  Tk operator*(const Tk& o) const { alive("read"); o.alive("read"); return Tk(d * o.d); }
  Tk operator/(const Tk& o) const { alive("read"); o.alive("read"); return Tk(d / o.d); }
  Tk& operator+=(const Tk& o) { alive("update"); d += o.d; return *this; }
  explicit operator double() const { return d; }
};
namespace cml {
template<> struct scalar_traits<Tk> {
  typedef Tk value_type; typedef Tk* pointer; typedef Tk& reference; typedef const Tk* const_pointer; typedef const Tk& const_reference;
  typedef Tk& mutable_value; typedef const Tk& immutable_value;
  static Tk sqrt(const Tk& x) { return Tk(std::sqrt(x.d)); }
  static Tk fabs(const Tk& x) { return Tk(std::fabs(x.d)); }
};
template<> struct traits_of<Tk> { typedef scalar_traits<Tk> type; };
}
double val(double x) { return x; }
double val(const Tk& x) { x.alive("read"); return x.d; }
double val(int x) { return x; }

using mon::Rng; using mon::fmt; using cml::vector; using cml::matrix; using cml::dynamic; using cml::fixed;

template<class E> struct is_tk { static constexpr bool v = std::is_same<E, Tk>::value; };

// Uniform access to vectors and matrices as linear storage.
template<class T> struct Acc;
template<class E, class A> struct Acc<vector<E, dynamic<A>>> {
  typedef vector<E, dynamic<A>> T; typedef E elem; static constexpr bool mat = false;
  static int lin(const T& t) { return t.size(); }
  static std::vector<int> dims(const T& t) { return {t.size()}; }
  static void put(T& t, int i, double x) { t.put(i, x); }
};
template<class E, class A, class B, class L> struct Acc<matrix<E, dynamic<A>, B, L>> {
  typedef matrix<E, dynamic<A>, B, L> T; typedef E elem; static constexpr bool mat = true;
  static int lin(const T& t) { return t.rows() * t.cols(); }
  static std::vector<int> dims(const T& t) { return {t.rows(), t.cols()}; }
  static void put(T& t, int i, double x) { t.put(i / t.cols(), i % t.cols(), x); }
};
template<class T> std::vector<double> snap(const T& t) { std::vector<double> r; for(int i = 0; i < Acc<T>::lin(t); ++i) r.push_back(val(t.data()[i])); return r; }

struct Op { int op, a, b, n, m; double x; };

template<class T> struct Hist {
  typedef Acc<T> A; typedef typename A::elem E;
  std::vector<Op> ops; 
  void gen(Rng& g, int len) {
    for(int i = 0; i < len; ++i) { Op o{g.i(0, 17), g.i(0, 2), g.i(0, 2), g.n(0, 6, A::mat ? 16 : 300), g.n(0, 4, A::mat ? 16 : 5), double(g.i(-9, 9))}; if(A::mat && (!o.n || !o.m)) o.n = o.m = 0; ops.push_back(o); mon::mix(o.op * 31 + o.a); mon::mix(o.n * 7 + o.m); }
  }
  static T* make(int n, int m) { if constexpr(A::mat) return new T(n, m); else { (void) m; return new T(n); } }
  static void fillup(T& t, double x) { for(int i = 0; i < A::lin(t); ++i) A::put(t, i, x + i); }
  void apply(const Op& o, std::vector<std::unique_ptr<T>>& p) {
    T& a = *p[o.a]; T& b = *p[o.b];
    switch(o.op) {
      case 0: if constexpr(A::mat) a.resize(o.n, o.m); else a.resize(o.n); break;
      case 1: if constexpr(A::mat) a.resize_fast(o.n, o.m); else a.resize_fast(o.n); break;
      case 2: a = b; break;
      case 3: a = std::move(b); break;
      case 4: { T c(b); a = c; } break;
      case 5: { T c(std::move(a)); a = std::move(c); } break;
      case 6: p[o.a].reset(); p[o.a].reset(new T()); break;
      case 7: { T* n = make(o.n, o.m); try { fillup(*n, o.x); } catch(...) { delete n; throw; } p[o.a].reset(n); } break;
      case 8: fillup(a, o.x); break;
      case 9: { w().armed = false; E arr[4] = {E(o.x), E(1), E(2), E(3)}; w().armed = true; if constexpr(A::mat) { T c(2, 2, arr); a = std::move(c); } else { T c(arr); a = std::move(c); } } break;
      case 10: { w().armed = false; E arr[6] = {E(o.x), E(1), E(2), E(3), E(4), E(5)}; w().armed = true; const E* q = arr; if constexpr(A::mat) { T c(2, 3, q); a = c; T d(q, 3, 2); b = d; } else { T c(q, o.n % 7); a = c; T d(o.n % 7, q); b = d; } } break;
      case 11: if constexpr(A::mat) { T c(2, 2, o.x, 1., 2., 3.); a = c; } else { T c(o.x, 1., 2.); a = c; } break;
      case 12: { // constructors that must throw after allocating
        bool t = false; w().armed = false; E arr[5] = {E(o.x), E(1), E(2), E(3), E(4)}; w().armed = true;
        if constexpr(A::mat) {
#ifndef CML_NO_RUNTIME_MATRIX_SIZE_CHECKS
          try { T c(2, 2, arr); } catch(const cml::incompatible_matrix_size_error&) { t = true; } mon::check(t, "constructor-size-mismatch-throws"); t = false; try { T c(3, 2, 1., 2., 3.); } catch(const cml::matrix_size_error&) { t = true; } mon::check(t, "constructor-size-mismatch-throws-2");
#else
          (void) t;
#endif
        }
        else { try { T c(-1); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "constructor-negative-throws"); } } break;
      case 13: { // expressions evaluated into a dynamic target
        if(A::dims(a) == A::dims(b) && A::lin(a) > 0) { T c(a + b); a = c - b; } } break;
      case 14: if(A::dims(a) == A::dims(b)) { a += b; a -= b; } break;
      case 15: { bool t = false; try { if constexpr(A::mat) a.resize(-1, 2); else a.resize(-1); } catch(const std::invalid_argument&) { t = true; } mon::check(t, "negative-resize-throws"); } break;
      case 16: if constexpr(!A::mat) { if(A::lin(b) > 0) { T c(b, o.x, 1.); a = c; } } else { a.fill(E(o.x)); } break;
      case 17: if constexpr(!A::mat) { a = {E(o.x), E(2), E(3)}; } else { w().armed = false; E y[2][3] = {{E(o.x), E(1), E(2)}, {E(3), E(4), E(5)}}; w().armed = true; a = y; } break;
    }
  }
  // Valid: sizes consistent and every element readable.
  static void valid(const T& t, const char* k) {
    auto d = A::dims(t); bool ok = true; for(int x : d) ok = ok && x >= 0;
    mon::check(ok && (t.end() - t.begin()) == A::lin(t), k);
    if constexpr(is_tk<E>::v) { for(int i = 0; i < A::lin(t); ++i) { mon::ev(); if(!w().objs.count(t.data() + i)) { mon::fail(std::string(k) + "-element-not-constructed", ""); break; } } }
    auto it = w().live.find((void*) t.data());
    mon::check(A::lin(t) == 0 || (it != w().live.end() && it->second == size_t(A::lin(t))), std::string(k) + "-owns-storage-of-its-size");
  }
  // Run the history; fault>=0 injects at that point.  Returns fault points seen.
  long run(long fault, bool init_after) {
    auto& x = w(); x.live.clear(); x.bytes.clear(); x.objs.clear(); x.allocs = x.frees = x.ctor = x.dtor = 0; x.points = 0; x.fault_at = fault; x.fired = false; x.armed = false;
    {
      std::vector<std::unique_ptr<T>> p; for(int i = 0; i < 3; ++i) { p.emplace_back(new T()); }
      for(auto& o : ops) {
        std::vector<std::vector<double>> before; for(auto& t : p) before.push_back(snapv(*t)); std::vector<std::vector<int>> dims; for(auto& t : p) dims.push_back(A::dims(*t));
        auto old_a = p[o.a].get();
        x.armed = true; bool failed = false;
        try { apply(o, p); x.armed = false; }
        catch(const std::bad_alloc&) { x.armed = false; failed = true; mon::check(x.fired && x.kind == 0, "bad_alloc-only-when-injected"); }
        catch(const Injected&) { x.armed = false; failed = true; mon::check(x.fired && x.kind == 1, "element-exception-propagates"); }
        (void) old_a;
        for(int i = 0; i < 3; ++i) {
          valid(*p[i], failed ? "valid-after-fault" : "valid-after-op");
          bool target = i == o.a || ((o.op == 3 || o.op == 5 || o.op == 10) && i == o.b);
          if(!target) mon::check(A::dims(*p[i]) == dims[i] && eqn(snapv(*p[i]), before[i]), failed ? "other-object-unchanged-after-fault" : "other-object-unchanged");
        }
        if(failed) {
          mon::bin(x.kind ? "fault/element" : "fault/allocation"); mon::bin("fault-in-op/" + std::to_string(o.op));
          if(o.op == 0 || o.op == 1 || o.op == 15) mon::check(A::dims(*p[o.a]) == dims[o.a] && eqn(snapv(*p[o.a]), before[o.a]), "failed-resize-leaves-object-unchanged");
        } else if(o.op == 0) {
          auto now = snapv(*p[o.a]); size_t k = std::min(now.size(), before[o.a].size()); bool ok = true; for(size_t i = 0; i < k; ++i) ok = ok && (now[i] == before[o.a][i]); mon::check(ok, "resize-keeps-prefix");
        } else if(o.op == 2) mon::check(A::dims(*p[o.a]) == dims[o.b] && eqn(snapv(*p[o.a]), before[o.b]), "copy-assign-equal");
        else if(o.op == 3 && o.a != o.b) mon::check(A::dims(*p[o.a]) == dims[o.b] && eqn(snapv(*p[o.a]), before[o.b]), "move-assign-equal");
        else if(o.op == 5) mon::check(A::dims(*p[o.a]) == dims[o.a] && eqn(snapv(*p[o.a]), before[o.a]), "move-out-and-back-equal");
        // uninitialised trivial elements get values so that later reads are defined
        if(!is_tk<E>::v && (o.op == 0 || o.op == 1)) fillup(*p[o.a], o.x); else if(failed && !is_tk<E>::v) fillup(*p[o.a], 1);
        if(failed && !is_tk<E>::v && (o.op == 10)) fillup(*p[o.b], 1);
      }
    }
    mon::check(x.live.empty(), "all-storage-returned", fmt("%zu blocks left, fault %ld", x.live.size(), fault));
    mon::check(x.objs.empty() && x.ctor == x.dtor, "all-elements-destroyed", fmt("ctor %ld dtor %ld", x.ctor, x.dtor));
    mon::check(x.allocs == x.frees, "allocs-equal-frees");
    return x.points;
  }
  static std::vector<double> snapv(const T& t) { return snap(t); }
  static bool eqn(const std::vector<double>& a, const std::vector<double>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
};

template<class T> void faults(const char* nm, double n, int cap) {
  mon::group(nm, n, [cap](Rng& g) {
    Hist<T> h; h.gen(g, 8);
    long pts = h.run(-1, false); mon::bin("histories");
    if(mon::noting()) { std::string s; for(auto& o : h.ops) s += fmt(" op%d(%d,%d,%d,%d)", o.op, o.a, o.b, o.n, o.m); mon::note(s + fmt(" fault points %ld", pts)); }
    if(pts <= cap) { for(long k = 0; k < pts; ++k) h.run(k, true); mon::bin("all-fault-points-enumerated"); }
    else for(int q = 0; q < cap; ++q) h.run(g.i(0, int(pts) - 1), true);
  });
}

template<class A, class B, class C> bool eq(const A& a, const B& b, const C& c) { for(int i = 0; i < a.size(); ++i) if(a[i] != b[i] + c[i]) return false; return true; }
// Whole computations over dynamic storage: everything the temporaries allocate comes back.
typedef dynamic<CA<void*>> DA;
template<class B, class L> void compute(Rng& g) {
  auto run = [&](long fault, u_int64_t seed, int n, int m) {
    Rng r(seed); auto& x = w(); x.live.clear(); x.bytes.clear(); x.objs.clear(); x.allocs = x.frees = 0; x.points = 0; x.fault_at = fault; x.fired = false; x.armed = true; bool failed = false;
    try {
      typedef matrix<double, DA, B, L> M; typedef vector<double, DA> V;
      M a(n, m), b(m, n), q(n, n); V u(n), v(n), z(m);
      for(int i = 0; i < n; ++i) { u[i] = r.i(-5, 5); v[i] = r.i(-5, 5); for(int j = 0; j < m; ++j) { a(i, j) = r.i(-5, 5); b(j, i) = r.i(-5, 5); } for(int j = 0; j < n; ++j) q(i, j) = r.i(-3, 3) + (i == j ? 20 : 0); }
      for(int j = 0; j < m; ++j) z[j] = r.i(-4, 4);
      auto c = a * b; M d = transpose(c) + c; d += q * q; d.transpose(); auto e = a * z; V f = e + u * 2.; f = v * a * b; auto o = outer(u, z); a = a + o;
      M inv = inverse(q); double det = determinant(q); auto lu = cml::lu_pivot(q); auto sol = cml::lu_solve(lu, u); M l2; l2 = cml::lu(q);
      V h = hadamard(u, v); V nrm = h + u; if(nrm.length() > 0) nrm.normalize(); h = cml::subvector(u, 0); M t = inverse(q) * q; t *= det; (void) lu;
      if(n == 3) { V cr = cross(u, v); cr = cross(u + v, V(u)); }
      M rs = matrix<double, fixed<2, 3>, B, L>(1, 2, 3, 4, 5, 6); rs.resize(m, n); rs = q;
      auto lazy = cml::transpose(M(a)) ; M lz = lazy; auto lv = V(u) + V(v); V lvv = lv; M hd = hadamard(a, M(a));
      vector<double, dynamic<>> other(u); other += u; auto sum = other + u; V w2(sum); mon::check(eq(w2, other, u), "sum");
      for(int i = 0; i < n; ++i) mon::check(std::isfinite(sol[i]), "lu-solve-finite");
    } catch(const std::bad_alloc&) { failed = true; }
    x.armed = false;
    mon::check(failed == x.fired, "fault-propagates"); mon::check(x.live.empty(), "all-storage-returned", fmt("%zu left", x.live.size())); mon::check(x.allocs == x.frees, "allocs-equal-frees");
    if(fault >= 0 && failed) mon::bin("fault/computation");
    return x.points;
  };
  int n = g.i(1, 6), m = g.i(1, 6); auto s = g.next(); mon::mix(s);
  long p = run(-1, s, n, m); mon::note(fmt("n=%d m=%d allocations=%ld", n, m, p)); mon::bin("tracked-allocations", p);
  for(long k = 0; k < p; ++k) run(k, s, n, m);
}

int main(int c, char** v) {
  mon::init(c, v);
  using namespace cml;
#if PART == 0
  faults<vector<double, dynamic<CA<void*>>>>("faults-vector-double", 400, 60);
  faults<vector<Tk, dynamic<CA<void*>>>>("faults-vector-tracked", 400, 60);
#elif PART == 1
  faults<matrix<double, dynamic<CA<void*>>, row_basis, row_major>>("faults-matrix-double", 400, 60);
  faults<matrix<Tk, dynamic<CA<void*>>, row_basis, row_major>>("faults-matrix-tracked-rr", 400, 60);
#elif PART == 2
  faults<matrix<Tk, dynamic<CA<void*>>, col_basis, col_major>>("faults-matrix-tracked-cc", 400, 60);
  mon::group("compute-rr", 60, compute<row_basis, row_major>);
#elif PART == 3
  mon::group("compute-cc", 60, compute<col_basis, col_major>); mon::group("compute-rc", 60, compute<row_basis, col_major>);
#endif
  return mon::finish();
}
