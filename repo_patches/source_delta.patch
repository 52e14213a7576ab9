From 1bd40a955c9b215797ad8717f7917a5452df4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 01/34] fix: construct, copy and destroy the elements of
 dynamic arrays in the right order when resizing

resize() destroyed the old elements before copying them, a failing copy left
the object pointing at destroyed elements, and the new elements of types with
a non-trivial default constructor were never constructed.  The destructor
also handed a null pointer to the allocator.
---
 cml/matrix/dynamic_allocated.tpp | 47 ++++++++++++++++++++++----------
 cml/vector/dynamic_allocated.tpp | 47 ++++++++++++++++++++++----------
 2 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..dc1d331 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -110,7 +110,8 @@ matrix<E, dynamic<A>, BO, L>::~matrix()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -166,26 +167,34 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  int count = 0;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, n_old,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
     if(data) {
       int to = std::min(n_old, n_new);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-        allocator_traits::construct(allocator, dst, *src);
+      for(; count < to; ++count) {
+        allocator_traits::construct(allocator, copy + count, data[count]);
       }
+    }
 
-      /* Deallocate the old array: */
-      allocator_traits::deallocate(allocator, data, n_old);
+    /* Construct the remaining elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(; count < n_new; ++count) {
+        allocator_traits::construct(allocator, copy + count);
+      }
     }
   } catch(...) {
+    this->destruct(copy, count,
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
 
+  /* Destruct and deallocate the old array: */
+  this->destruct(data, n_old,
+    typename std::is_trivially_destructible<E>::type());
+  if(data) allocator_traits::deallocate(allocator, data, n_old);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_rows = rows;
@@ -215,18 +224,26 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  int count = 0;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, n_old,
-      typename std::is_trivially_destructible<E>::type());
-
-    /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, n_old);
+    /* Construct the new elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(; count < n_new; ++count) {
+        allocator_traits::construct(allocator, copy + count);
+      }
+    }
   } catch(...) {
+    this->destruct(copy, count,
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
 
+  /* Destruct and deallocate the old array: */
+  this->destruct(data, n_old,
+    typename std::is_trivially_destructible<E>::type());
+  if(data) allocator_traits::deallocate(allocator, data, n_old);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_rows = rows;
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 3bd5c6f..0232abd 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -98,7 +98,8 @@ template<class E, class A> vector<E, dynamic<A>>::~vector()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -147,26 +148,34 @@ vector<E, dynamic<A>>::resize(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  int count = 0;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, size,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
     if(data) {
       int to = std::min(size, n);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
-        allocator_traits::construct(allocator, dst, *src);
+      for(; count < to; ++count) {
+        allocator_traits::construct(allocator, copy + count, data[count]);
       }
+    }
 
-      /* Deallocate the old array: */
-      allocator_traits::deallocate(allocator, data, size);
+    /* Construct the remaining elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(; count < n; ++count) {
+        allocator_traits::construct(allocator, copy + count);
+      }
     }
   } catch(...) {
+    this->destruct(copy, count,
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
 
+  /* Destruct and deallocate the old array: */
+  this->destruct(data, size,
+    typename std::is_trivially_destructible<E>::type());
+  if(data) allocator_traits::deallocate(allocator, data, size);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_size = n;
@@ -188,18 +197,26 @@ vector<E, dynamic<A>>::resize_fast(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  int count = 0;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, size,
-      typename std::is_trivially_destructible<E>::type());
-
-    /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, size);
+    /* Construct the new elements if necessary: */
+    if constexpr(!std::is_trivially_default_constructible<E>::value) {
+      for(; count < n; ++count) {
+        allocator_traits::construct(allocator, copy + count);
+      }
+    }
   } catch(...) {
+    this->destruct(copy, count,
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
 
+  /* Destruct and deallocate the old array: */
+  this->destruct(data, size,
+    typename std::is_trivially_destructible<E>::type());
+  if(data) allocator_traits::deallocate(allocator, data, size);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_size = n;
-- 
2.43.0


From 8d14c842ee4789cf4f2e8a96ff167070e6b53566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 02/34] fix: free the storage of a dynamic array when one of
 its constructors throws

The size check (or an element copy) can throw after the constructor body has
allocated; delegate to the default constructor so the destructor runs.
---
 cml/matrix/dynamic_allocated.h   |  4 +---
 cml/matrix/dynamic_allocated.tpp | 32 ++++++++------------------------
 cml/vector/dynamic_allocated.h   |  6 ++----
 cml/vector/dynamic_allocated.tpp | 24 ++++++++----------------
 4 files changed, 19 insertions(+), 47 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..cce81de 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,9 +155,7 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix()
   {
     this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index dc1d331..42ee419 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -23,27 +23,21 @@ matrix<E, dynamic<A>, BO, L>::matrix()
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
 }
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(const matrix_type& other)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(other);
 }
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(matrix_type&& other)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->operator=(std::move(other));
 }
@@ -51,9 +45,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(matrix_type&& other)
 template<class E, class A, typename BO, typename L>
 template<class Sub>
 matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(sub);
 }
@@ -61,9 +53,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -72,9 +62,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
 template<class E, class A, typename BO, typename L>
 template<class Other, int R, int C>
 matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(array);
 }
@@ -82,9 +70,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -93,9 +79,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(const Pointer& array, int rows, int cols)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
diff --git a/cml/vector/dynamic_allocated.h b/cml/vector/dynamic_allocated.h
index efc9775..c0c0d6e 100644
--- a/cml/vector/dynamic_allocated.h
+++ b/cml/vector/dynamic_allocated.h
@@ -115,8 +115,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const E0& e0, const Elements&... eN)
   // XXX Should be in vector/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign_elements(e0, eN...);
   }
@@ -134,8 +133,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const readable_vector<Sub>& sub, const E0& e0, const Elements&... eN)
   // XXX Should be in vector/fixed_compiled.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign(sub, e0, eN...);
   }
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 0232abd..31fd5ec 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -21,24 +21,21 @@ vector<E, dynamic<A>>::vector()
 template<class E, class A>
 template<class Int, enable_if_t<std::is_integral<Int>::value>*>
 vector<E, dynamic<A>>::vector(Int size)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(int(size));
 }
 
 template<class E, class A>
 vector<E, dynamic<A>>::vector(const vector_type& other)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(other);
 }
 
 template<class E, class A>
 vector<E, dynamic<A>>::vector(vector_type&& other)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->operator=(std::move(other));
 }
@@ -46,8 +43,7 @@ vector<E, dynamic<A>>::vector(vector_type&& other)
 template<class E, class A>
 template<class Sub>
 vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(sub);
 }
@@ -55,8 +51,7 @@ vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
 template<class E, class A>
 template<class Array, enable_if_array_t<Array>*>
 vector<E, dynamic<A>>::vector(const Array& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(array);
 }
@@ -64,8 +59,7 @@ vector<E, dynamic<A>>::vector(const Array& array)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(const Pointer& array, int size)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -74,8 +68,7 @@ vector<E, dynamic<A>>::vector(const Pointer& array, int size)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(int size, const Pointer& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -84,8 +77,7 @@ vector<E, dynamic<A>>::vector(int size, const Pointer& array)
 template<class E, class A>
 template<class Other>
 vector<E, dynamic<A>>::vector(std::initializer_list<Other> l)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(l);
 }
-- 
2.43.0


From bf2d7dd9faaa2045eecad16ee9f2e658032bf99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 03/34] fix: choose the inverse pivot only among unpivoted rows
 and columns

---
 cml/matrix/detail/inverse.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..8c1617f 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -163,9 +163,11 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   /* For each column */
   int N = M.rows();
   for(int i = 0; i < N; ++i) {
-    /* Find the pivot */
+    /* Find the pivot (only rows and columns not yet pivoted can be chosen, so
+     * start below any magnitude).
+     */
     int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    auto pivot = value_type(-1);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From a8e2a89fda64c1655cea671002d0cec63c07c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 04/34] fix: compare magnitudes when searching the LU pivot row

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From fed21b8ecabc7417a6f8fab753a892adde4604e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 05/34] fix: check the sizes of the stored (not the moved-from)
 operands of cross()

---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From 06dd2d3ba1c6502a0731b0b6af528b490e21830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 06/34] fix: require equal sizes in += and -= of dynamic
 vectors and matrices

The left operand was silently resized instead of reporting the documented
incompatible size error.
---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From 225b7fbc1fceb6ebc718619b014de4a9e5307cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 07/34] fix: evaluate exp() and log() of quaternions with a
 zero imaginary part

---
 cml/quaternion/writable_quaternion.tpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..d18b9f8 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -184,12 +184,15 @@ writable_quaternion<DT>::log() &
    *
    *   ln(|q|) + v/|v| * arccos(w / |q|)
    *
-   * where v is the imaginary part of q and w is the real part:
+   * where v is the imaginary part of q and w is the real part.  When v = 0
+   * and w > 0, arccos(w / |q|) / |v| is replaced by its limit, 1 / |q|:
    */
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
-  auto c = element_traits::acos(this->real() / lq) / lv;
+  auto c = (lv == value_type(0) && this->real() > value_type(0))
+    ? value_type(1) / lq
+    : element_traits::acos(this->real() / lq) / lv;
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
@@ -213,12 +216,14 @@ writable_quaternion<DT>::exp() &
    *
    *   exp(w) * (cos(|v|) + v/|v|*sin(|v|))
    *
-   * where v is the imaginary part of q and w is the real part:
+   * where v is the imaginary part of q and w is the real part.  When v = 0,
+   * sin(|v|) / |v| is replaced by its limit, 1:
    */
   auto v = this->imaginary();
   auto lv = v.length();
   auto x = element_traits::exp(this->real());
-  auto c = element_traits::sin(lv) / lv;
+  auto c =
+    (lv == value_type(0)) ? value_type(1) : element_traits::sin(lv) / lv;
   this->assign(x * c * v, x * element_traits::cos(lv));
   return this->actual();
 }
-- 
2.43.0


From 879fa2b399d21f03d4f52a756dbf37641794d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 08/34] fix: let *= and /= take a scalar that refers to an
 element of the target

---
 cml/matrix/writable_matrix.tpp         | 8 ++++++--
 cml/quaternion/writable_quaternion.tpp | 8 ++++++--
 cml/vector/writable_vector.tpp         | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..db49d6b 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -372,7 +372,9 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  /* v may refer to an element of this matrix: */
+  const ScalarT s = v;
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -394,7 +396,9 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  /* v may refer to an element of this matrix: */
+  const ScalarT s = v;
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index d18b9f8..f00e1fd 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -393,8 +393,10 @@ template<class ScalarT,
 DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
+  /* v may refer to an element of this quaternion: */
+  const ScalarT s = v;
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -416,8 +418,10 @@ template<class ScalarT,
 DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
+  /* v may refer to an element of this quaternion: */
+  const ScalarT s = v;
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..84af4ab 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -351,9 +351,11 @@ template<class ScalarT,
 DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
+  /* v may refer to an element of this vector: */
+  const ScalarT s = v;
   using op_type = binary_multiply_t<DT, ScalarT>;
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -373,9 +375,11 @@ template<class ScalarT,
 DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
+  /* v may refer to an element of this vector: */
+  const ScalarT s = v;
   using op_type = binary_divide_t<DT, ScalarT>;
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From a3c706c09a7a6b9770066bbf7777ae5f95f94013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 09/34] fix: print an empty vector without reading its first
 element

---
 cml/util/vector_print.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..fc0647b 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,7 +15,7 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
+  if(v.size() > 0) os << v[0];
   for(int i = 1; i < v.size(); ++i) os << " " << v[i];
   return os;
 }
-- 
2.43.0


From 43a2768e3f5615e2511910200608ef23d7f87d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 10/34] fix: make initializer-list assignment to a temporary
 compile

---
 cml/matrix/writable_matrix.tpp         | 3 ++-
 cml/quaternion/writable_quaternion.tpp | 3 ++-
 cml/vector/writable_vector.tpp         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index db49d6b..e693fa0 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -323,7 +323,8 @@ template<class Other>
 DT&&
 writable_matrix<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->assign(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index f00e1fd..fd81455 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -325,7 +325,8 @@ template<class Other>
 DT&&
 writable_quaternion<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->assign(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 84af4ab..3a1027d 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -300,7 +300,8 @@ template<class Other>
 DT&&
 writable_vector<DT>::operator=(std::initializer_list<Other> l) &&
 {
-  return this->assign(l);
+  this->assign(l);
+  return (DT&&) *this;
 }
 
 template<class DT>
-- 
2.43.0


From c1c49f3ce5a4acbdeb25fce64f19cd375fc636cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 11/34] fix: make 2D array assignment to a temporary matrix
 compile

---
 cml/matrix/writable_matrix.h   | 2 +-
 cml/matrix/writable_matrix.tpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/writable_matrix.h b/cml/matrix/writable_matrix.h
index 631dc77..b674066 100644
--- a/cml/matrix/writable_matrix.h
+++ b/cml/matrix/writable_matrix.h
@@ -225,7 +225,7 @@ class writable_matrix : public readable_matrix<DerivedT>
    * are fixed-size, then the size is checked at compile time.
    */
   template<class Other, int Rows, int Cols>
-  DerivedT& operator=(Other const (&array)[Rows][Cols]) &&;
+  DerivedT&& operator=(Other const (&array)[Rows][Cols]) &&;
 
   /** Assign from initializer list.
    *
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e693fa0..c870bf7 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -303,7 +303,7 @@ writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &
 
 template<class DT>
 template<class Other, int Rows, int Cols>
-DT&
+DT&&
 writable_matrix<DT>::operator=(Other const (&array)[Rows][Cols]) &&
 {
   this->operator=(array);
-- 
2.43.0


From eef59ffe7d73ef36c135056bd0c639b63955818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 12/34] fix: give the transpose of a fixed-size matrix the
 transposed storage size

---
 cml/matrix/transpose_node.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..face8fd 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/resize.h>
+#include <cml/storage/type_util.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,7 +23,12 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
+
+  /* The storage has the rows and columns of the subexpression swapped: */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using reshaped_type = reshape_storage_t<sub_storage_type,
+    sub_storage_type::array_cols, sub_storage_type::array_rows>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
   using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
-- 
2.43.0


From 40d509c07cf25d74614a3e5ea69edb403cb89343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 13/34] fix: give the outer product of fixed-size and run-time
 sized vectors a run-time size

---
 cml/matrix/promotion.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/cml/matrix/promotion.h b/cml/matrix/promotion.h
index 271f7e3..0286c96 100644
--- a/cml/matrix/promotion.h
+++ b/cml/matrix/promotion.h
@@ -192,20 +192,19 @@ struct matrix_outer_product_storage_promote
     is_vector_storage<Storage1>::value && is_vector_storage<Storage2>::value,
     "expected vector storage types for outer product promotion");
 
-  /* Deduce the left matrix storage type from the vector storage: */
+  /* The outer product is fixed-size only if both vectors are: */
   static const int left_size = Storage1::array_size;
-  using left_unbound_type = reshape_storage_t<typename Storage1::unbound_type, left_size, -1>;
-  using left_storage_type = rebind_matrix_storage_t<left_unbound_type>;
-
-  /* Deduce the right matrix storage type from the vector storage: */
   static const int right_size = Storage2::array_size;
-  using right_unbound_type = reshape_storage_t<typename Storage2::unbound_type, -1, right_size>;
-  using right_storage_type = rebind_matrix_storage_t<right_unbound_type>;
+  static const bool is_fixed = left_size > 0 && right_size > 0;
+  using unbound_type = storage_promote_t<Storage1, Storage2, !is_fixed>;
 
-  /* Determine the common storage type, based on the storage types of its
-   * subexpressions:
-   */
-  using type = matrix_binary_storage_promote_t<left_storage_type, right_storage_type>;
+  /* Determine the matrix size: */
+  static const int array_rows = is_fixed ? left_size : -1;
+  static const int array_cols = is_fixed ? right_size : -1;
+  using resized_type = reshape_storage_t<unbound_type, array_rows, array_cols>;
+
+  /* Rebind to a matrix storage type: */
+  using type = rebind_matrix_storage_t<resized_type>;
 };
 
 /** Convenience alias for matrix_outer_product_promote. */
-- 
2.43.0


From f45062a5aecaee095f845dcdb7acf2074ba1d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 14/34] fix: move-assign all elements of non-square
 column-major matrices

---
 cml/matrix/fixed_compiled.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cml/matrix/fixed_compiled.tpp b/cml/matrix/fixed_compiled.tpp
index a6ff21a..23c87dc 100644
--- a/cml/matrix/fixed_compiled.tpp
+++ b/cml/matrix/fixed_compiled.tpp
@@ -89,8 +89,7 @@ matrix<E, fixed<R, C>, BO, L>::operator=(matrix_type&& other) -> matrix_type&
 {
   for(int i = 0; i < R; ++i)
     for(int j = 0; j < C; ++j)
-      this->m_data[i][j] = std::move(other.m_data[i][j]);
-  /* Note: the layout doesn't matter here. */
+      this->get(i, j) = std::move(other.get(i, j));
   return *this;
 }
 
-- 
2.43.0


From 22211b312d06978553ee34bc1268890b0de19e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 15/34] fix: let combinations of fixed external and dynamic
 matrices be transposed

---
 cml/storage/allocated_selector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/storage/allocated_selector.h b/cml/storage/allocated_selector.h
index 97f028e..bd2cfb1 100644
--- a/cml/storage/allocated_selector.h
+++ b/cml/storage/allocated_selector.h
@@ -151,7 +151,7 @@ struct allocated<Allocator, Size1, Size2, matrix_storage_tag>
   static const int array_cols = Size2;
 
   /** Make a partially bound selector with size @c R x @c C. */
-  template<int R, int C> struct resize
+  template<int R, int C> struct reshape
   {
     using type = allocated<Allocator, R, C>;
   };
-- 
2.43.0


From 6fde5b182cbcbdd99624ec6b029842055d6db0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 16/34] fix: give basis vectors of non-square column-basis
 matrices the right fixed size

---
 cml/matrix/basis_node.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/basis_node.h b/cml/matrix/basis_node.h
index 1016f4c..7b6dfd8 100644
--- a/cml/matrix/basis_node.h
+++ b/cml/matrix/basis_node.h
@@ -23,8 +23,10 @@ template<class Sub, int I> struct vector_traits<matrix_basis_node<Sub, I>>
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
 
-  /* Propagate the column count from the subexpression: */
-  static const int array_size = sub_traits::array_cols;
+  /* Propagate the basis vector size from the subexpression: */
+  static const int array_size = sub_traits::matrix_basis == col_basis_c
+    ? sub_traits::array_rows
+    : sub_traits::array_cols;
 
   /* Deduce the vector storage type: */
   using sub_storage_type = typename sub_traits::storage_type;
-- 
2.43.0


From a61e95970233bf55eb11968f2609871ff7fdd849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 17/34] fix: make products of quaternions of different types
 (elements, expressions) compile

---
 cml/quaternion/product.tpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/product.tpp b/cml/quaternion/product.tpp
index b7a5c75..ec892c8 100644
--- a/cml/quaternion/product.tpp
+++ b/cml/quaternion/product.tpp
@@ -12,6 +12,27 @@
 #include <cml/vector/binary_ops.h>
 
 namespace cml {
+namespace detail {
+
+/** Cross product of the imaginary parts for positive_cross. */
+template<class Imag1, class Imag2>
+inline auto
+imaginary_cross(Imag1&& v1, Imag2&& v2, positive_cross)
+  -> decltype(cml::cross(std::forward<Imag1>(v1), std::forward<Imag2>(v2)))
+{
+  return cml::cross(std::forward<Imag1>(v1), std::forward<Imag2>(v2));
+}
+
+/** Cross product of the imaginary parts for negative_cross. */
+template<class Imag1, class Imag2>
+inline auto
+imaginary_cross(Imag1&& v1, Imag2&& v2, negative_cross)
+  -> decltype(cml::cross(std::forward<Imag2>(v2), std::forward<Imag1>(v1)))
+{
+  return cml::cross(std::forward<Imag2>(v2), std::forward<Imag1>(v1));
+}
+
+}  // namespace detail
 
 template<class Sub1, class Sub2, enable_if_quaternion_t<Sub1>*,
   enable_if_quaternion_t<Sub2>*>
@@ -42,9 +63,8 @@ operator*(Sub1&& sub1,
    * {+/-} is determined by cross_type:
    */
   auto real = sub1[W] * sub2[W] - cml::dot(sub1.imaginary(), sub2.imaginary());
-  auto cross = std::is_same<cross_type, positive_cross>::value
-    ? cml::cross(sub1.imaginary(), sub2.imaginary())
-    : cml::cross(sub2.imaginary(), sub1.imaginary());
+  auto cross = detail::imaginary_cross(
+    sub1.imaginary(), sub2.imaginary(), cross_type());
   auto imaginary =
     sub1[W] * sub2.imaginary() + sub2[W] * sub1.imaginary() + cross;
 
-- 
2.43.0


From 0a9b5fa5155e905c8c336497ee75c64b60d85b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 18/34] fix: undo the row swaps of the pivoting inverse in
 reverse order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 8c1617f..ad78a73 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -211,8 +211,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Undo the row swaps by swapping columns in reverse order */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From f32a3e847ecf0a0e54ab9f64d2f5197fccff3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 19/34] fix: declare matrix_skew_symmetric_2D under the name it
 is defined by

The scalar form was declared as an overload of matrix_skew_symmetric that
is never defined; it was also preferred for vector arguments, so that
neither form could be linked.
---
 cml/mathlib/matrix/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/mathlib/matrix/misc.h b/cml/mathlib/matrix/misc.h
index 1350533..da46f82 100644
--- a/cml/mathlib/matrix/misc.h
+++ b/cml/mathlib/matrix/misc.h
@@ -56,7 +56,7 @@ void matrix_skew_symmetric(writable_matrix<Sub1>& m,
  * run-time.
  */
 template<class Sub1, class Scalar>
-void matrix_skew_symmetric(writable_matrix<Sub1>& m, const Scalar& s);
+void matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s);
 
 
 /** Invert a 3D matrix composed of a rotation and translation.
-- 
2.43.0


From c4d7c2ee515a5086ec0a52a19be7e8a9b084fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 20/34] fix: products over an empty inner dimension read out of
 bounds instead of giving zeros

---
 cml/matrix/matrix_product.tpp |  5 +++--
 cml/matrix/vector_product.tpp | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..3cdce79 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -27,8 +27,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
-      auto m = sub1(i, 0) * sub2(0, j);
-      for(int k = 1; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
+      // The inner dimension can be 0, so the sum cannot start from a product:
+      decltype(sub1(0, 0) * sub2(0, 0)) m(0);
+      for(int k = 0; k < sub1.cols(); ++k) m += sub1(i, k) * sub2(k, j);
       M(i, j) = m;
     }
   }
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..de9a152 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -27,8 +27,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_rows_of(sub1));
   for(int i = 0; i < sub1.rows(); ++i) {
-    auto m = sub1(i, 0) * sub2[0];
-    for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
+    // The inner dimension can be 0, so the sum cannot start from a product:
+    decltype(sub1(0, 0) * sub2[0]) m(0);
+    for(int k = 0; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
     v[i] = m;
   }
   return v;
@@ -50,8 +51,9 @@ operator*(Sub1&& sub1, Sub2&& sub2)
   result_type v;
   detail::resize(v, array_cols_of(sub2));
   for(int j = 0; j < sub2.cols(); ++j) {
-    auto m = sub1[0] * sub2(0, j);
-    for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
+    // The inner dimension can be 0, so the sum cannot start from a product:
+    decltype(sub1[0] * sub2(0, 0)) m(0);
+    for(int k = 0; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
     v[j] = m;
   }
   return v;
-- 
2.43.0


From b854f96098f4ffdcf14e76e002684ea8fb4b601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 21/34] fix: sign of Euler angle derivatives for odd orders

matrix_rotation_euler_derivatives() negated the angles of the odd orders
(xzy, yxz, zyx) without applying the sign to the derivative, and so
returned the negated derivative.
---
 cml/mathlib/matrix/rotation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..d425b3e 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,13 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The derivative of a negated angle changes sign: */
+  if(odd) {
+    for(int r = 0; r < 3; ++r)
+      for(int c = 0; c < 3; ++c)
+        m.set_basis_element(r, c, -m.basis_element(r, c));
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From c38992367e6460170fc8d3d5faa9065d73dbf893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 22/34] fix: consistent Euler angles close to gimbal lock

matrix_to_euler() computed the first and last angle independently, so
that close to gimbal lock, where both come from elements that are nearly
zero, the angles could represent an entirely different rotation.
---
 cml/mathlib/matrix/rotation.tpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index d425b3e..ba7030e 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -532,10 +532,17 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
 
     angle_1 = E1(value_traits::atan2(s1, c1));
     if(s1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, i), m.basis_element(k, i)));
-      angle_2 =
-        E0(value_traits::atan2(m.basis_element(i, j), -m.basis_element(i, k)));
+      auto a0 = value_traits::atan2(m.basis_element(j, i),
+        m.basis_element(k, i));
+      angle_0 = E0(a0);
+
+      /* Compute angle_2 from angle_0, so that both remain consistent when s1
+       * is close to 0: */
+      auto s0 = value_traits::sin(a0);
+      auto c0 = value_traits::cos(a0);
+      angle_2 = E2(value_traits::atan2(
+        c0 * m.basis_element(j, k) - s0 * m.basis_element(k, k),
+        c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
     } else {
       angle_0 = E0(0);
       angle_2 = E2(cml::sign(c1)
@@ -547,10 +554,17 @@ matrix_to_euler(const readable_matrix<Sub>& m, E0& angle_0, E1& angle_1,
 
     angle_1 = E1(value_traits::atan2(s1, c1));
     if(c1 > tolerance) {
-      angle_0 =
-        E0(value_traits::atan2(m.basis_element(j, k), m.basis_element(k, k)));
-      angle_2 =
-        E2(value_traits::atan2(m.basis_element(i, j), m.basis_element(i, i)));
+      auto a0 = value_traits::atan2(m.basis_element(j, k),
+        m.basis_element(k, k));
+      angle_0 = E0(a0);
+
+      /* Compute angle_2 from angle_0, so that both remain consistent when c1
+       * is close to 0: */
+      auto s0 = value_traits::sin(a0);
+      auto c0 = value_traits::cos(a0);
+      angle_2 = E2(value_traits::atan2(
+        s0 * m.basis_element(k, i) - c0 * m.basis_element(j, i),
+        c0 * m.basis_element(j, j) - s0 * m.basis_element(k, j)));
     } else {
       angle_0 = E0(0);
       angle_2 = -E2(cml::sign(s1)
-- 
2.43.0


From f6bd26c5b9ed7308b9fcf3a92f3a805cecc75f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 23/34] fix: axis from rotation matrices with angles close to
 pi

matrix_to_axis_angle() took the axis from the differences of the
off-diagonal elements, which vanish as the angle approaches pi, and
returned an arbitrary axis for e.g. a matrix of a rotation by pi.
---
 cml/mathlib/matrix/rotation.tpp | 39 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index ba7030e..d845144 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -439,21 +439,21 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
   auto l = axis.length();
   auto tmo = trace_3x3(m) - value_type(1);
 
-  /* Normalize and compute the angle directly if possible: */
-  if(l > tolerance) {
-    axis /= l;
-    angle = E(value_traits::atan2(l, tmo));
-    /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
-  }
-
-  /* Near-zero axis: */
-  else if(tmo > value_type(0))
-  {
-    axis.zero();
-    angle = E(0);
+  /* Up to pi/2, normalize and compute the angle directly if possible: */
+  if(tmo > value_type(0)) {
+    if(l > tolerance) {
+      axis /= l;
+      angle = E(value_traits::atan2(l, tmo));
+      /* Note: l = 2*sin(theta), tmo = 2*cos(theta) */
+    } else {
+      axis.zero();
+      angle = E(0);
+    }
   }
 
-  /* Reflection: */
+  /* Past pi/2, the direction computed above becomes inaccurate as l
+   * approaches 0, so recompute it from the symmetric part of m:
+   */
   else
   {
     auto largest_diagonal_element = cml::index_of_max(m.basis_element(0, 0),
@@ -461,17 +461,22 @@ matrix_to_axis_angle(const readable_matrix<Sub>& m, writable_vector<ASub>& axis,
 
     int i, j, k;
     cyclic_permutation(largest_diagonal_element, i, j, k);
+    const bool negative = axis[i] < asub_type(0);
 
     axis[i] = asub_type(
       value_traits::sqrt(m.basis_element(i, i) - m.basis_element(j, j)
         - m.basis_element(k, k) + value_type(1))
       / value_type(2));
 
-    auto s = value_type(1) / (value_type(2) * axis[i]);
-    axis[j] = asub_type(m.basis_element(i, j) * s);
-    axis[k] = asub_type(m.basis_element(i, k) * s);
+    auto s = value_type(1) / (value_type(4) * axis[i]);
+    axis[j] = asub_type((m.basis_element(i, j) + m.basis_element(j, i)) * s);
+    axis[k] = asub_type((m.basis_element(i, k) + m.basis_element(k, i)) * s);
+
+    axis.normalize();
+    if(negative) axis *= asub_type(-1);
 
-    angle = constants<E>::pi();
+    angle = (l > tolerance) ? E(value_traits::atan2(l, tmo))
+                            : constants<E>::pi();
   }
 
   /* Done. */
-- 
2.43.0


From 074a3048082f4f81d1cb72cc02a570b6efa5b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 24/34] fix: quaternion log precision for small rotations

arccos(w / |q|) has no precision close to w = |q|; the log of e.g. a
single-precision rotation by 1e-4 was 0.
---
 cml/quaternion/writable_quaternion.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index fd81455..10659cb 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -184,15 +184,16 @@ writable_quaternion<DT>::log() &
    *
    *   ln(|q|) + v/|v| * arccos(w / |q|)
    *
-   * where v is the imaginary part of q and w is the real part.  When v = 0
-   * and w > 0, arccos(w / |q|) / |v| is replaced by its limit, 1 / |q|:
+   * where v is the imaginary part of q and w is the real part.  The angle is
+   * computed as atan2(|v|, w), which keeps its precision close to 0.  When
+   * v = 0 and w > 0, arccos(w / |q|) / |v| is replaced by its limit, 1 / |q|:
    */
   auto lq = this->length();
   auto v = this->imaginary();
   auto lv = v.length();
   auto c = (lv == value_type(0) && this->real() > value_type(0))
     ? value_type(1) / lq
-    : element_traits::acos(this->real() / lq) / lv;
+    : element_traits::atan2(lv, this->real()) / lv;
   this->assign(c * v, element_traits::log(lq));
   return this->actual();
 }
-- 
2.43.0


From 61b2c152b4192439040b0a8e0a33eb47f88ab9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 25/34] fix: documented order of Euler rotations and
 matrix_concat

The implementation applies the rotations in the named order, and m1 before
m2 (as extract_frustum_planes() relies on); the documentation had the
products reversed.
---
 cml/mathlib/matrix/concat.h       | 6 +++---
 cml/mathlib/matrix/rotation.h     | 8 ++++----
 cml/mathlib/quaternion/rotation.h | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cml/mathlib/matrix/concat.h b/cml/mathlib/matrix/concat.h
index bdc14ec..aa690bf 100644
--- a/cml/mathlib/matrix/concat.h
+++ b/cml/mathlib/matrix/concat.h
@@ -15,10 +15,10 @@ namespace cml {
 /*@{*/
 
 /** Concatenate two square transformation matrices, @c m1 and @c m2, taking
- * basis orientation into account.
+ * basis orientation into account: the result applies @c m1, then @c m2.
  *
- * - both col_basis, or col_basis with any_basis: return m1 * m2
- * - both row_basis, or row_basis with any_basis: return m2 * m1
+ * - both col_basis, or col_basis with any_basis: return m2 * m1
+ * - both row_basis, or row_basis with any_basis: return m1 * m2
  * - otherwise: compile-time error
  *
  * @throws non_square_matrix_error at run-time if @c m1 or @c m2 is
diff --git a/cml/mathlib/matrix/rotation.h b/cml/mathlib/matrix/rotation.h
index 950b739..7119aa7 100644
--- a/cml/mathlib/matrix/rotation.h
+++ b/cml/mathlib/matrix/rotation.h
@@ -133,8 +133,8 @@ void matrix_rotation_axis_angle(writable_matrix<Sub>& m,
  * euler_order_zyz
  *
  * e.g. euler_order_xyz means compute the column-basis rotation matrix
- * equivalent to R_x * R_y * R_z, where R_i is the rotation matrix above
- * axis i (the row-basis matrix would be R_z * R_y * R_x).
+ * equivalent to R_z * R_y * R_x, where R_i is the rotation matrix above
+ * axis i (the row-basis matrix would be R_x * R_y * R_z).
  *
  * @throws minimum_matrix_size_error at run-time if @c m is
  * dynamically-sized, and is not at least 3x3.  If @c m is fixed-size, the
@@ -167,8 +167,8 @@ void matrix_rotation_euler(writable_matrix<Sub>& m,
  * euler_order_zyx
  *
  * e.g. euler_order_xyz means compute the column-basis rotation matrix
- * equivalent to R_x * R_y * R_z, where R_i is the rotation matrix above
- * axis i (the row-basis matrix would be R_z * R_y * R_x).
+ * equivalent to R_z * R_y * R_x, where R_i is the rotation matrix above
+ * axis i (the row-basis matrix would be R_x * R_y * R_z).
  *
  * The derivative is taken with respect to the specified 'axis', which is
  * the position of the axis in the triple; e.g. if order = euler_order_xyz,
diff --git a/cml/mathlib/quaternion/rotation.h b/cml/mathlib/quaternion/rotation.h
index 83af97a..a15d6f9 100644
--- a/cml/mathlib/quaternion/rotation.h
+++ b/cml/mathlib/quaternion/rotation.h
@@ -89,9 +89,9 @@ void quaternion_rotation_matrix(writable_quaternion<Sub>& q,
  * euler_order_zxz
  * euler_order_zyz
  *
- * e.g. euler_order_xyz means compute the quaternion equivalent to R_x *
- * R_y * R_z, where R_i is the rotation matrix above axis i (the row-basis
- * matrix would be R_z * R_y * R_x).
+ * e.g. euler_order_xyz means compute the quaternion equivalent to R_z *
+ * R_y * R_x, where R_i is the rotation matrix above axis i (the row-basis
+ * matrix would be R_x * R_y * R_z).
  */
 template<class Sub, class E0, class E1, class E2>
 void quaternion_rotation_euler(writable_quaternion<Sub>& q, E0 angle_0,
-- 
2.43.0


From 31eb4d0b3216aa9883f94b09ff30992bda85d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 26/34] fix: compute inverse scales in the matrix element type,
 not in that of integer factors

---
 cml/mathlib/matrix/scale.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..5b69e78 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -46,7 +46,8 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_inverse_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
-  matrix_scale_2D(m, E0(1) / e0, E1(1) / e1);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale_2D(m, value_type(1) / e0, value_type(1) / e1);
 }
 
 template<class Sub1, class Sub2>
@@ -95,7 +96,8 @@ inline void
 matrix_inverse_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
-  matrix_scale(m, E0(1) / e0, E1(1) / e1, E2(1) / e2);
+  using value_type = value_type_trait_of_t<Sub>;
+  matrix_scale(m, value_type(1) / e0, value_type(1) / e1, value_type(1) / e2);
 }
 
 template<class Sub1, class Sub2>
-- 
2.43.0


From e8228805e0029157ea52bedb678e9e3b88fa9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 27/34] fix: compute projections from integer bounds in the
 matrix element type

---
 cml/mathlib/matrix/projection.tpp | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cml/mathlib/matrix/projection.tpp b/cml/mathlib/matrix/projection.tpp
index c191d60..9a97826 100644
--- a/cml/mathlib/matrix/projection.tpp
+++ b/cml/mathlib/matrix/projection.tpp
@@ -31,9 +31,10 @@ matrix_orthographic(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = value_type_trait_of_t<Sub>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto s = E(handedness == left_handed ? 1 : -1);
 
   if(z_clip == z_clip_neg_one) {
@@ -71,10 +72,11 @@ inline void
 matrix_orthographic(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_orthographic(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using scalar_type = decltype(value_type_trait_of_t<Sub>(1) * E(1));
+  auto half_width = width / scalar_type(2);
+  auto half_height = height / scalar_type(2);
+  matrix_orthographic(m, -half_width, half_width, -half_height, half_height,
+    scalar_type(n), scalar_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
@@ -108,9 +110,10 @@ matrix_perspective(writable_matrix<Sub>& m, E left, E right, E bottom, E top,
   /* Initialize: */
   m.identity();
 
-  auto inv_width = E(1) / (right - left);
-  auto inv_height = E(1) / (top - bottom);
-  auto inv_depth = E(1) / (f - n);
+  using value_type = value_type_trait_of_t<Sub>;
+  auto inv_width = value_type(1) / (right - left);
+  auto inv_height = value_type(1) / (top - bottom);
+  auto inv_depth = value_type(1) / (f - n);
   auto near2 = E(2) * n;
   auto s = E(handedness == left_handed ? 1 : -1);
 
@@ -151,10 +154,11 @@ inline void
 matrix_perspective(writable_matrix<Sub>& m, E width, E height, E n, E f,
   AxisOrientation handedness, ZClip z_clip)
 {
-  auto half_width = width / E(2);
-  auto half_height = height / E(2);
-  matrix_perspective(m, -half_width, half_width, -half_height, half_height, n,
-    f, handedness, z_clip);
+  using scalar_type = decltype(value_type_trait_of_t<Sub>(1) * E(1));
+  auto half_width = width / scalar_type(2);
+  auto half_height = height / scalar_type(2);
+  matrix_perspective(m, -half_width, half_width, -half_height, half_height,
+    scalar_type(n), scalar_type(f), handedness, z_clip);
 }
 
 template<class Sub, class E>
-- 
2.43.0


From ce052353dddfd66fed9e3e88c2763d92719d66ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 28/34] fix: compute coordinate conversions in the promoted
 type, not in that of integer coordinates

---
 cml/mathlib/coordinate_conversion.tpp | 28 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/cml/mathlib/coordinate_conversion.tpp b/cml/mathlib/coordinate_conversion.tpp
index e5e2924..37d9212 100644
--- a/cml/mathlib/coordinate_conversion.tpp
+++ b/cml/mathlib/coordinate_conversion.tpp
@@ -117,7 +117,10 @@ inline void
 cartesian_to_polar(const readable_vector<Sub>& v, E0& radius, E1& theta,
   Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  /* Compute with the promoted type, so that integer coordinates are not
+   * restricted to integer results:
+   */
+  using value_type = value_type_trait_promote_t<Sub, E0, E1>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
@@ -125,8 +128,9 @@ cartesian_to_polar(const readable_vector<Sub>& v, E0& radius, E1& theta,
     "incompatible scalar types");
   cml::check_size(v, int_c<2>());
 
-  radius = v.length();
-  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(v[1], v[0]));
+  const value_type x(v[0]), y(v[1]);
+  radius = E0(cml::length(x, y));
+  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(y, x));
 }
 
 template<class Sub, class E0, class E1>
@@ -143,7 +147,7 @@ inline void
 cartesian_to_cylindrical(const readable_vector<Sub>& v, int axis, E0& radius,
   E1& theta, E2& height, Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
@@ -160,9 +164,10 @@ cartesian_to_cylindrical(const readable_vector<Sub>& v, int axis, E0& radius,
   cml::cyclic_permutation(axis, i, j, k);
 
   /* Initialize return values; */
+  const value_type x(v[j]), y(v[k]);
   height = E2(v[i]);
-  radius = E0(cml::length(v[j], v[k]));
-  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(v[k], v[j]));
+  radius = E0(cml::length(x, y));
+  theta = radius < tolerance ? E1(0) : E1(value_traits::atan2(y, x));
 }
 
 template<class Sub, class E0, class E1, class E2>
@@ -188,7 +193,7 @@ inline void
 cartesian_to_spherical(const readable_vector<Sub>& v, int axis,
   LatitudeType type, E0& radius, E1& theta, E2& phi, Tol tolerance)
 {
-  using value_type = value_type_trait_of_t<Sub>;
+  using value_type = value_type_trait_promote_t<Sub, E0, E1, E2>;
   using value_traits = scalar_traits<value_type>;
 
   static_assert(
@@ -204,13 +209,14 @@ cartesian_to_spherical(const readable_vector<Sub>& v, int axis,
   int i, j, k;
   cml::cyclic_permutation(axis, i, j, k);
 
-  auto len = cml::length(v[j], v[k]);
-  theta = len < tolerance ? E1(0) : E1(value_traits::atan2(v[k], v[j]));
-  radius = E0(cml::length(v[i], len));
+  const value_type x(v[j]), y(v[k]), z(v[i]);
+  auto len = cml::length(x, y);
+  theta = len < tolerance ? E1(0) : E1(value_traits::atan2(y, x));
+  radius = E0(cml::length(z, len));
   if(radius < tolerance) {
     phi = E2(0);
   } else {
-    phi = E2(value_traits::atan2(len, v[i]));
+    phi = E2(value_traits::atan2(len, z));
     if(type == latitude) phi = constants<E2>::pi_over_2() - phi;
   }
 }
-- 
2.43.0


From b4f0c271ba076eac29c9f44327317b2c4bc1a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 29/34] fix: documented meaning of spherical coordinate angles

---
 cml/mathlib/coordinate_conversion.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cml/mathlib/coordinate_conversion.h b/cml/mathlib/coordinate_conversion.h
index b1be247..c777afc 100644
--- a/cml/mathlib/coordinate_conversion.h
+++ b/cml/mathlib/coordinate_conversion.h
@@ -70,9 +70,10 @@ void cylindrical_to_cartesian(E radius, E theta, E height, int axis,
  *
  * @param radius the distance from the origin to the point.
  *
- * @param theta the inclination.
+ * @param theta the azimuth (angle around the axis).
  *
- * @param phi the azimuth.
+ * @param phi the inclination, measured from the axis base plane if @c type
+ * is @c latitude, and from the axis if @c type is @c colatitude.
  *
  * @throws vector_size_error at run-time if @c v is dynamically-sized, and
  * is not 3D.  If @c m is fixed-size, the size is checked at compile-time.
@@ -155,18 +156,19 @@ void cartesian_to_cylindrical(const readable_vector<Sub>& v, E& radius,
  *
  * @param radius the distance from the origin to @c v.
  *
- * @param theta the inclination (angle from the axis base plane).
+ * @param theta the azimuth (angle around the axis).
  *
- * @param phi the azimuth (angle around the axis).
+ * @param phi the inclination, measured from the axis base plane if @c type
+ * is @c latitude, and from the axis if @c type is @c colatitude.
  *
  * @throws vector_size_error at run-time if @c v is dynamically-sized, and
  * is not 3D.  If @c m is fixed-size, the size is checked at compile-time.
  *
  * @throws std::invalid_argument if @c axis is not 0, 1, or 2.
  *
- * @note @c theta will be 0 @c v lies on @c axis.
+ * @note @c theta will be 0 if @c v lies on @c axis.
  *
- * @note @c phi will be 0 if @c v lies on the base plane.
+ * @note @c phi will be 0 if @c v is the origin.
  */
 template<class Sub, class E0, class E1, class E2>
 void cartesian_to_spherical(const readable_vector<Sub>& v, int axis,
-- 
2.43.0


From ff0be7fd8abf4470e9af7331e41ff6827188f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 30/34] fix: random_unit cone vectors numerically parallel to
 the cone axis

---
 cml/mathlib/random_unit.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..b5bf16b 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -68,6 +68,12 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   using O_traits = scalar_traits<O_type>;
   using Oa_traits = scalar_traits<decltype(O - a)>;
 
+  /* If n is numerically parallel to d, the cone through n is degenerate: */
+  if(O == O_type(0)) {
+    n = d;
+    return;
+  }
+
   /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
    * (t=a/O) lying on the cone between d and n:
    */
-- 
2.43.0


From f015317b0ffabd5c58864e2fe35fbacc96c06d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 31/34] fix: wrap of unsigned values and of results rounded
 outside the range

---
 cml/scalar/functions.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index f701b73..b319b0c 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -32,12 +32,16 @@ template<typename T>
 inline T
 wrap(T value, T min, T max)
 {
-  max -= min;
-  value = scalar_traits<T>::fmod(value - min, max);
-  if(value < T(0)) {
-    value += max;
+  const T range = T(max - min);
+  if(value < min) {
+    value = scalar_traits<T>::fmod(T(min - value), range);
+    value = value > T(0) ? T(max - value) : min;
+  } else {
+    value = T(min + scalar_traits<T>::fmod(T(value - min), range));
   }
-  return min + value;
+
+  /* Rounding must not move the result out of the range: */
+  return clamp(value, min, max);
 }
 
 /** Test input value for inclusion in [min, max]. */
-- 
2.43.0


From 1b5a96788f5bd6cfd5b36ae62325b8fbf62d4b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 32/34] fix: in_range of a NaN

---
 cml/scalar/functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index b319b0c..62cfa21 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -49,7 +49,7 @@ template<typename T>
 inline bool
 in_range(T value, T min, T max)
 {
-  return !(value < min) && !(value > max);
+  return min <= value && value <= max;
 }
 
 /** Map input value from [min1, max1] to [min2, max2]. */
-- 
2.43.0


From 2327945cdbd8c004a19d476aae1c228a92b3d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 33/34] fix: map_range of integers

---
 cml/scalar/functions.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cml/scalar/functions.h b/cml/scalar/functions.h
index 62cfa21..c7cc66c 100644
--- a/cml/scalar/functions.h
+++ b/cml/scalar/functions.h
@@ -57,6 +57,12 @@ template<typename T>
 inline T
 map_range(T value, T min1, T max1, T min2, T max2)
 {
+  /* Integers are mapped in double precision, since the ratio is fractional: */
+  if(std::is_integral<T>::value) {
+    return T(double(min2)
+      + (double(value) - double(min1)) * (double(max2) - double(min2))
+        / (double(max1) - double(min1)));
+  }
   return min2 + ((value - min1) / (max1 - min1)) * (max2 - min2);
 }
 
-- 
2.43.0


From e6a6c1f01ecabb189b659e013ce9b25868536317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 34/34] fix: minimize and maximize compared a converted copy of
 the other vector's elements

---
 cml/vector/writable_vector.tpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 3a1027d..fea4898 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -154,7 +154,8 @@ writable_vector<DT>::minimize(const readable_vector<ODT>& other) &
 {
   cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i) {
-    this->put(i, std::min(this->get(i), value_type(other.get(i))));
+    const auto v = other.get(i);
+    if(v < this->get(i)) this->put(i, v);
   }
   return this->actual();
 }
@@ -175,7 +176,8 @@ writable_vector<DT>::maximize(const readable_vector<ODT>& other) &
 {
   cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i) {
-    this->put(i, std::max(this->get(i), value_type(other.get(i))));
+    const auto v = other.get(i);
+    if(this->get(i) < v) this->put(i, v);
   }
   return this->actual();
 }
-- 
2.43.0

