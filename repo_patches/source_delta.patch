From ed2a3731f782fb374a498795524d711be68ea692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 01/41] fix: scalar-first comparisons were evaluated with the
 negated instead of the mirrored operator

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..4493f2f 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 3bb47a82a9851bf925f99a224db94dd33e67c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 02/41] fix: CTensor == and != with a complex scalar were
 declared but only defined for a real scalar

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From d4e53052632355fb06aaa0f16e60887f62b5e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 03/41] fix: in-place operations with one of the tensor's own
 elements used the element after it had been overwritten

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From 39c8eb448fe4ac506ebef2b6cbd94fbd74a41ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 04/41] fix: operator*= and operator/= with a scalar returned a
 copy instead of the tensor

---
 include/tensor/detail/tensor_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tensor/detail/tensor_ops.hpp b/include/tensor/detail/tensor_ops.hpp
index 7f3dc16..6a22ca0 100644
--- a/include/tensor/detail/tensor_ops.hpp
+++ b/include/tensor/detail/tensor_ops.hpp
@@ -184,12 +184,12 @@ Tensor<t1> &operator-=(Tensor<t1> &a, const t2 &b) {
   return a;
 }
 template<typename t1, typename t2>
-Tensor<t1> operator*=(Tensor<t1> &a, const t2 &b) {
+Tensor<t1> &operator*=(Tensor<t1> &a, const t2 &b) {
   std::transform(a.begin(), a.end(), a.begin(), times_constant<t1,t2>(b));
   return a;
 }
 template<typename t1, typename t2>
-Tensor<t1> operator/=(Tensor<t1> &a, const t2 &b) {
+Tensor<t1> &operator/=(Tensor<t1> &a, const t2 &b) {
   std::transform(a.begin(), a.end(), a.begin(), divided_constant<t1,t2>(b));
   return a;
 }
-- 
2.43.0


From 73a92681032f6d8b35b8cd266f8daf70b2ce64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 05/41] fix: squeeze lost empty dimensions and aborted when all
 dimensions are one

---
 src/tensor/tensor_squeeze.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..ba7470f 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -27,9 +27,14 @@ namespace tensor {
     Indices output(d.size() - std::count(d.begin(), d.end(), 1));
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
+    if (output.size() == 0 && d.size() != 0) {
+      // All dimensions were one: a vector with a single element remains.
+      output = Indices(1);
+      output.at(0) = 1;
+    }
     return output;
   }
 
-- 
2.43.0


From 88269a6f7fda27ca6cdb5ce7981efbebade02140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 06/41] fix: mmult of a tensor and a sparse matrix always
 aborted

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From ad447aa8208c937b3d245fb5c165d8a4352bffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 07/41] fix: ranges accept negative indices as documented and
 reject all indices outside the dimension

---
 src/linalg/solve_with_svd_d.cc |  6 +++---
 src/linalg/solve_with_svd_z.cc |  6 +++---
 src/views/range.cc             | 35 +++++++++++++++++++++++++---------
 3 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..31d7c92 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,9 +43,9 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
+	U = U(range(), range(iota(0,i-1)));
+	s = s(range(iota(0,i-1)));
+	VT = VT(range(iota(0,i-1)), range());
       }
     }
     RTensor X = foldc(U, 0, B, 0);
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..6bc7478 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,9 +43,9 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
-	U = U(range(), range(0,i-1));
-	s = s(range(0,i-1));
-	VT = VT(range(0,i-1), range());
+	U = U(range(), range(iota(0,i-1)));
+	s = s(range(iota(0,i-1)));
+	VT = VT(range(iota(0,i-1)), range());
       }
     }
     CTensor X = foldc(U, 0, B, 0);
diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..a5cbdbe 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -19,7 +19,9 @@
 
 #include <cassert>
 #include <iostream>
+#include <algorithm>
 #include <tensor/indices.h>
+#include <tensor/detail/common.h>
 
 namespace tensor {
 
@@ -139,7 +141,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    ndx_ = normalize_index(ndx_, limit);
     Range::set_limit(limit);
   }
 
@@ -162,12 +164,13 @@ namespace tensor {
   StepRange::StepRange(index start, index end, index step) :
     Range(), start_(start), end_(end), step_(step), ndx_(0)
   {
+    assert(step != 0);
   }
 
   index
   StepRange::pop()
   {
-    if (ndx_ > end_) {
+    if (step_ > 0 ? (ndx_ > end_) : (ndx_ < end_)) {
       return nomore();
     } else {
       index output = ndx_;
@@ -189,13 +192,22 @@ namespace tensor {
   void
   StepRange::set_limit(index limit)
   {
-    assert(limit > end_);
+    // Negative numbers count from the end
+    if (start_ < 0)
+      start_ += limit;
+    if (end_ < 0)
+      end_ += limit;
+    // An empty range is always fine
+    assert(size() == 0 ||
+           (start_ >= 0 && start_ < limit && end_ >= 0 && end_ < limit));
     Range::set_limit(limit);
   }
 
   index
   StepRange::size() const
   {
+    if (step_ > 0 ? (start_ > end_) : (start_ < end_))
+      return 0;
     return (end_ - start_) / step_ + 1;
   }
 
@@ -235,11 +247,9 @@ namespace tensor {
   void
   IndexRange::set_limit(index limit)
   {
-#ifndef NDEBUG
-    for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
+      *it = normalize_index(*it, limit);
     }
-#endif
     Range::set_limit(limit);
   }
 
@@ -258,9 +268,16 @@ namespace tensor {
   /************************************************************
    * TENSOR PRODUCT RANGE
    */
+  // When the first range is empty, so is the product, and the factor of the
+  // second one does not matter; it only has to remain invertible.
+  static inline index nonzero_limit(const Range *r)
+  {
+    return std::max<index>(r->get_limit(), 1);
+  }
+
   ProductRange::ProductRange(Range *r1, Range *r2) : r1_(r1), r2_(r2)
   {
-    r2_->set_factor(r1_->get_factor() * r1_->get_limit());
+    r2_->set_factor(r1_->get_factor() * nonzero_limit(r1_));
   }
 
   ProductRange::~ProductRange()
@@ -296,7 +313,7 @@ namespace tensor {
   ProductRange::set_factor(index factor)
   {
     r1_->set_factor(factor);
-    r2_->set_factor(factor * r1_->get_limit());
+    r2_->set_factor(factor * nonzero_limit(r1_));
   }
 
   void
-- 
2.43.0


From f13fa53e8ce2da0c7b4f1f236e965dfc5be14f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 08/41] fix: folding two vectors with foldin wrote past the end
 of the dimensions; fold_into and foldin_into failed when the output is one of
 the inputs

---
 src/tensor/tensor_fold.cc   | 2 +-
 src/tensor/tensor_foldin.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..66dcb9c 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -31,7 +31,7 @@ namespace tensor {
   template<typename elt_t, bool do_conj>
   void
   do_fold(Tensor<elt_t> &output,
-          const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+          const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..817fd6f 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -31,7 +31,7 @@ namespace tensor {
   template<typename elt_t>
   void
   do_foldin_into(Tensor<elt_t> &output,
-                 const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+                 const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From f4c9a397f510004c8df35afa32d8bd1d87ff4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 09/41] fix: mean along the last index wrote past the end of
 the dimensions

---
 src/tensor/tensor_mean_ndx.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..eb58da2 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,15 +37,15 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
+	if (i == ndx) {
+	  middle = d;
+	  continue;
+	}
 	dimensions.at(j++) = d;
 	if (i < ndx)
 	  left *= d;
-	else if (i > ndx)
+	else
 	  right *= d;
-	else {
-	  middle = d;
-	  j--;
-	}
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From c053010ad472e44e94ea4d31fea59b342565d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 10/41] fix: trace rejected the index -rank

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From 2df6599f74cf9277b3cb9a7e3cc3ff841fc8170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 11/41] fix: sort of Indices compared the values after rounding
 them to double

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From b2c0d737ddeb6edf28209b205f5514f05627fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 12/41] fix: kron2_sum of sparse matrices used identities with
 the size of the number of nonzero elements

---
 src/sparse/sparse_kron_d.cc | 4 ++--
 src/sparse/sparse_kron_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..363163c 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows())) +
+      kron(Sparse<double>::eye(s1.rows()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..f25052e 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows())) +
+      kron(Sparse<cdouble>::eye(s1.rows()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From 231dd13208012642277a8eff6d893dbc06ce3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 13/41] fix: take_diag used the wrong stride for the indices
 after the second diagonal index

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From 289b21de58ccc2a6d636725d1f90db7ffc55240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 14/41] fix: sparse matrices built from coordinates inferred
 too small dimensions and kept repeated positions

---
 include/tensor/detail/sparse_base.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..7f06c84 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    bool operator==(const sparse_triplet &other) const {
+      return row == other.row && col == other.col;
+    }
   };
 
   template<typename elt_t>
@@ -89,7 +92,7 @@ namespace tensor {
                         index nrows, index ncols) :
     dims_(2), row_start_(), column_(), data_()
   {
-    index i, j, last_row, last_col, l = rows.size();
+    index i, j, last_row, l = rows.size();
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -101,13 +104,16 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      nrows = std::max(nrows, r+1);
+      ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
     }
     std::sort(sorted_data.begin(), sorted_data.end());
+    /* Each position of the matrix is stored only once. */
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end()),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
@@ -117,15 +123,10 @@ namespace tensor {
     /* Fill in the Sparse structure.
      */
     std::fill(row_start_.begin(), row_start_.end(), 0);
-    for (last_col = 0, last_row = -1, j = i = 0; i < l; i++) {
+    for (last_row = -1, j = i = 0; i < l; i++) {
       const sparse_triplet<elt_t> &d = sorted_data[i];
-      if (d.row == last_row) {
-        if (d.col == last_col)
-          continue;
-      } else {
-        while(last_row < d.row) {
-          row_start_.at(++last_row) = j;
-        }
+      while (last_row < d.row) {
+        row_start_.at(++last_row) = j;
       }
       column_.at(j) = d.col;
       data_.at(j) = d.value;
-- 
2.43.0


From 8fe09e911380d45b00c372f7c3bac64a8f8d793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 15/41] fix: matrix_norminf read elements of a matrix without
 columns

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From 9e06e24d3013beba27c3191cc87c65df30770259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 16/41] fix: scprod and to_complex read past the end of a
 shorter second argument

---
 src/tensor/tensor_norm2_d.cc    | 2 ++
 src/tensor/tensor_norm2_z.cc    | 2 ++
 src/tensor/tensor_to_complex.cc | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/tensor/tensor_norm2_d.cc b/src/tensor/tensor_norm2_d.cc
index d83433d..c1fbe07 100644
--- a/src/tensor/tensor_norm2_d.cc
+++ b/src/tensor/tensor_norm2_d.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   double scprod(const RTensor &a, const RTensor &b)
   {
+    assert(a.size() == b.size());
     double output = 0;
     for (RTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_norm2_z.cc b/src/tensor/tensor_norm2_z.cc
index 18522dd..5df9632 100644
--- a/src/tensor/tensor_norm2_z.cc
+++ b/src/tensor/tensor_norm2_z.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   cdouble scprod(const CTensor &a, const CTensor &b)
   {
+    assert(a.size() == b.size());
     cdouble output = 0;
     for (CTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..5008fdd 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -18,6 +18,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -34,6 +35,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(r.size() == i.size());
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From 4151ace486ae5fa940f60f134c02bb790167755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 17/41] fix: SDF output ignored failed writes, flushes and
 closes, losing the data silently

---
 src/sdf/odata_file.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..551ff87 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,13 +27,13 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  if (s.fail()) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
 }
 
 #else
@@ -116,6 +116,10 @@ OutDataFile::close()
   if (is_open()) {
     _stream.flush();
     _stream.close();
+    if (_stream.fail()) {
+      std::cerr << "I/O error when closing SDF file " << actual_filename();
+      abort();
+    }
     DataFile::close();
   }
 }
-- 
2.43.0


From 70395b9aed55af329f6d60a463b2ccd5fd405912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 18/41] fix: SDF input took a truncated file for valid data

---
 src/sdf/idata_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..c1586d5 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (s.fail()) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
-- 
2.43.0


From edfdcfb7a5318509389e10ae4f438aa3569ed555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 19/41] fix: SDF records whose name has more than 63 characters
 could not be loaded by name

---
 src/sdf/idata_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index c1586d5..4958875 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -146,6 +146,7 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
+  buffer[var_name_size - 1] = 0;
   std::string output(buffer);
   delete[] buffer;
   return output;
@@ -155,7 +156,8 @@ void
 InDataFile::read_tag(const std::string &name, tensor::index type)
 {
   std::string other_name = read_variable_name();
-  if (name.size() && (name != other_name)) {
+  // Names are stored truncated
+  if (name.size() && (name.substr(0, var_name_size - 1) != other_name)) {
     std::cerr << "While reading file " << _filename << ", variable "
 	      << name << " was expected but found "
 	      << other_name << '\n';
-- 
2.43.0


From bb27ba246be97eb89f21a5fbda1165ede35df62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 20/41] fix: loading a number from a record with an empty
 tensor read past its end

---
 src/sdf/idata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 4958875..77780f8 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -225,7 +225,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -238,7 +238,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
-- 
2.43.0


From 27d07ed2ea75b962c7a85f1a418248dd9a8d0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 21/41] fix: reporting an unknown SDF type code read past the
 table of names

---
 src/sdf/data_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..3f53257 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -133,8 +133,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag > 3 /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	return "unknown type";
     }
     return names[tag];
 }
-- 
2.43.0


From e16cdb7cc70d0801685dc37e326f66449c3f4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 22/41] fix: rename_file deleted the destination before
 renaming, so that a crash in between lost both files; the result was ignored
 when closing

---
 src/sdf/data_file.cc   | 8 ++++++--
 src/sdf/rename_file.cc | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 3f53257..0223475 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -120,8 +120,12 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename))
-        rename_file(_actual_filename, _filename);
+      if (file_exists(_actual_filename)
+          && !rename_file(_actual_filename, _filename)) {
+        std::cerr << "Cannot move " << _actual_filename << " to " << _filename
+                  << std::endl;
+        abort();
+      }
     }
   }
 }
diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..4ca8427 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -25,7 +25,12 @@ namespace sdf {
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
     if (file_exists(dest)) {
+#if defined(_MSC_VER) || defined(__MINGW32__)
+      // Only here rename() does not replace the destination.
       if (!overwrite || !delete_file(dest)) {
+#else
+      if (!overwrite) {
+#endif
 	std::cerr << "Unable to move file to destination " << dest
 		  << " because destination cannot be deleted." << std::endl;
 	abort();
-- 
2.43.0


From 1f4ca1b3a000d847d1165424ffac7397ad797ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 23/41] fix: two processes could hold the lock of a shared SDF
 file, one of them on a deleted lock file

---
 src/sdf/data_file.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 0223475..50487c7 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -57,6 +57,18 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
+      if( fd >= 0 )
+	{
+	  // The previous owner may have deleted the file between open() and
+	  // flock(), and somebody else may hold a lock on a new one.
+	  struct stat held, named;
+	  if( fstat( fd, &held ) < 0 || stat( lockName, &named ) < 0 ||
+	      held.st_dev != named.st_dev || held.st_ino != named.st_ino )
+	    {
+	      close(fd);
+	      fd = -1;
+	    }
+	}
       if (fd > 0 || !wait)
 	return fd;
       sleep(1);
-- 
2.43.0


From edab84679bd55bb78ae605aeb403c8bce7bdf5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 24/41] fix: isdir took sockets and block devices for
 directories

---
 src/sdf/isdir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/isdir.cc b/src/sdf/isdir.cc
index b1b3b5e..9a1df82 100644
--- a/src/sdf/isdir.cc
+++ b/src/sdf/isdir.cc
@@ -28,7 +28,7 @@ namespace sdf {
     struct stat s[1];
     if (stat(filename.c_str(), s))
       return false;
-    return s->st_mode & S_IFDIR;
+    return (s->st_mode & S_IFMT) == S_IFDIR;
   }
 
 }
-- 
2.43.0


From 992c20c6636756ee876fe3d78b85f00f07d209a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 25/41] fix: a tensor assigned to a view of itself is read as
 it was

---
 src/tensor/tensor_view.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..427ef47 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -266,9 +266,12 @@ namespace tensor {
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dimensions()));
     assert(dims_.total_size() == t.dims_.total_size());
+    // The tensor may be the one we are a view of: keep its elements as they
+    // were. They are shared, and only copied when data_ is really the same.
+    const Tensor<elt_t> source(t);
     ranges_->reset();
     for (index i = 0, j; (j = ranges_->pop()) != ranges_->nomore(); i++) {
-      data_.at(j) = t[i];
+      data_.at(j) = source[i];
     }
   }
 
-- 
2.43.0


From 106a4fc55db145570fa7c35157fa774fa48abf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 26/41] fix: eigs() of a sparse matrix or a function leaked the
 map it was given

---
 src/arpack/eigs_map_d.cc | 2 ++
 src/arpack/eigs_map_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..13a7d5e 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -48,6 +48,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
@@ -70,6 +71,7 @@ namespace linalg {
     while (data.update() < RArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == RArpack::Finished) {
       if (converged)
         *converged = true;
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..9110e6b 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -47,6 +47,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
@@ -69,6 +70,7 @@ namespace linalg {
     while (data.update() < CArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == CArpack::Finished) {
       if (converged)
         *converged = true;
-- 
2.43.0


From edbe2ae171508eb9bb31494c715d5b9cbe52f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 27/41] fix: eigs() of matrices of up to four rows returned
 left eigenvectors instead of right ones

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 13a7d5e..40fa052 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -50,7 +50,7 @@ namespace linalg {
       }
       delete A;
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index 9110e6b..43564ca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -49,7 +49,7 @@ namespace linalg {
       }
       delete A;
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From 9af2065dcf50832e5839619a7acf4fe54ca041a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 28/41] fix: eigs() accepted numbers that are no kind of
 eigenvalues

---
 src/arpack/arpack_t.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..7c0b836 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -39,7 +39,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     abort();
   }
 #endif
-  if (_t < 0 || _t > 6) {
+  if (_t < 0 || _t > 5) {
     std::cerr << "Invalid argument EigType passed to Arpack constructor"
               << std::endl;
     abort();
@@ -328,6 +328,9 @@ ARPACK::sort_values(const CTensor &values, EigType t)
   case SmallestReal:
     aux = tensor::real(values);
     break;
+  default:
+    std::cerr << "Invalid number passed as EigType: " << t << '\n';
+    abort();
   }
   return sort_indices(aux);
 }
-- 
2.43.0


From 1c13841de7cc3d66b273b28c8893b1bfc0a50a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 29/41] fix: eigs() of sparse matrices that are not square read
 and wrote out of bounds

---
 src/arpack/arpack_t.cc  | 4 ++++
 src/arpack/eigs_sp_d.cc | 4 ++++
 src/arpack/eigs_sp_z.cc | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 7c0b836..090acee 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -302,6 +302,10 @@ Tensor<ELT_T> ARPACK::get_y()
 
 void ARPACK::set_y(const Tensor<ELT_T> &y)
 {
+  if (y.size() != n) {
+    std::cerr << "ARPACK:: set_y() expects a vector with " << n << " elements\n";
+    abort();
+  }
   memcpy(get_y_vector(), y.begin(), sizeof(Tensor<ELT_T>::elt_t)*n);
 }
 
diff --git a/src/arpack/eigs_sp_d.cc b/src/arpack/eigs_sp_d.cc
index ce3f849..19b43c3 100644
--- a/src/arpack/eigs_sp_d.cc
+++ b/src/arpack/eigs_sp_d.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const RSparse &A, int eig_type, size_t neig, RTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<RSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
diff --git a/src/arpack/eigs_sp_z.cc b/src/arpack/eigs_sp_z.cc
index c8b39e2..aab1a65 100644
--- a/src/arpack/eigs_sp_z.cc
+++ b/src/arpack/eigs_sp_z.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const CSparse &A, int eig_type, size_t neig, CTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<CSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
-- 
2.43.0


From a2e4862cb3a9c526d092485c6df84c1b99059a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 30/41] fix: cgs() for complex sparse matrices was declared
 with a real one and could not be called

---
 include/tensor/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/linalg.h b/include/tensor/linalg.h
index a2194f6..54fb757 100644
--- a/include/tensor/linalg.h
+++ b/include/tensor/linalg.h
@@ -56,7 +56,7 @@ namespace linalg {
   const RTensor cgs(const RSparse &A, const RTensor &b, const RTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
   /**Solve a real linear system of equations by the conjugate gradient method.*/
-  const CTensor cgs(const RSparse &A, const CTensor &b, const CTensor *x_start = 0,
+  const CTensor cgs(const CSparse &A, const CTensor &b, const CTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
 
   /**Solve a real linear system of equations by the conjugate gradient
-- 
2.43.0


From 0fdc75bace7bcd912a612301268af4599128cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 31/41] fix: block_svd() of singular matrices or with
 rectangular blocks aborted or returned factors that are no isometries

---
 src/linalg/block_svd.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..27f9d04 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -42,9 +42,21 @@ namespace linalg {
       return svd(A, pU, pVT, economic);
     }
 
-    if ((nblocks == 1) &&
-	(block_rows[0].size() >= rows/2) &&
-	(block_cols[0].size() >= cols/2)) {
+    // The decompositions of the blocks only add up to that of A when there are
+    // enough of them and, unless the economic form is wanted, all are square.
+    index nvalues = 0;
+    bool complete = true;
+    for (index b = 0; b < nblocks; b++) {
+      index r = block_rows[b].size(), c = block_cols[b].size();
+      nvalues += std::min(r, c);
+      complete = complete && (economic || r == c);
+    }
+    complete = complete && (nvalues == minrc);
+
+    if (!complete ||
+	((nblocks == 1) &&
+	 (block_rows[0].size() >= rows/2) &&
+	 (block_cols[0].size() >= cols/2))) {
       RTensor s = svd(A, pU, pVT, economic);
       delete[] block_rows;
       delete[] block_cols;
-- 
2.43.0


From cefd49286a5f12a13db2c38c54376c3acd474349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 32/41] fix: solve_with_svd() aborted when all singular values
 are below the tolerance

---
 src/linalg/solve_with_svd_d.cc | 6 ++++++
 src/linalg/solve_with_svd_z.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index 31d7c92..d686e70 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,6 +43,12 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // Nothing is left of A
+	  tensor::Indices d = B.dimensions();
+	  d.at(0) = A.columns();
+	  return RTensor::zeros(d);
+	}
 	U = U(range(), range(iota(0,i-1)));
 	s = s(range(iota(0,i-1)));
 	VT = VT(range(iota(0,i-1)), range());
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 6bc7478..78bd491 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,6 +43,12 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // Nothing is left of A
+	  tensor::Indices d = B.dimensions();
+	  d.at(0) = A.columns();
+	  return CTensor::zeros(d);
+	}
 	U = U(range(), range(iota(0,i-1)));
 	s = s(range(iota(0,i-1)));
 	VT = VT(range(iota(0,i-1)), range());
-- 
2.43.0


From 8eff2d83ba48c9670122de06c798c3ac3bc09f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:36 +0000
Subject: [PATCH 33/41] fix: the power method returned the conjugate of complex
 eigenvalues

---
 src/linalg/eig_power.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..0c8247f 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -52,7 +52,7 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From 1226ba678812744326bded397ad351669677808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 34/41] fix: --job-blocks without --this-job ran an arbitrary
 block instead of the first one

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..7f0a5c1 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -110,7 +110,7 @@ Job::Job(int argc, const char **argv) :
   bool job_blocks_found = false;
   bool this_job_found = false;
   tensor::index blocks;
-  tensor::index current_job;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 627dd1f12b67b2b710e34e5da76b87f95e1a7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 35/41] fix: --first-job without --last-job ran up to an
 arbitrary job instead of the last one

---
 src/tools/jobs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 7f0a5c1..454af6a 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -246,6 +246,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From c7ba8ad088adaebdc6d4f7c0f67bf8ac16578af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 36/41] fix: job files were never read, and their variables
 ignored

---
 src/tools/jobs.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 454af6a..5e9f8d8 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -90,14 +90,14 @@ int
 Job::parse_file(std::istream &s, var_list &data)
 {
   std::string buffer;
-  int line;
-  for (line = 0; 1; line++) {
+  for (int line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).empty())
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
-- 
2.43.0


From 962a2faca9eb8f9b7f4809595d58548f462311c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 37/41] fix: a job variable without values was accepted and led
 to a division by zero

---
 src/tools/jobs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 5e9f8d8..2a7b1f6 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -81,6 +81,10 @@ Job::parse_line(const std::string &s)
       return no_variable;
     } else {
       nsteps = atoi(data[3].c_str());
+      if (nsteps <= 0) {
+        std::cerr << "Number of steps is not positive for variable " << data[0] << std::endl;
+        return no_variable;
+      }
     }
   }
   return Variable(data[0], min, max, nsteps);
-- 
2.43.0


From a32862a79706db3f43fd24dd0be437bc99252717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 38/41] fix: random long integers below a limit could be
 negative

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..e230b86 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return rand<unsigned long>() % upper;
   return 0;
 }
 
-- 
2.43.0


From 3768290e3552aa88d24d6071d5a6f67515fa67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:05 +0000
Subject: [PATCH 39/41] fix: random single precision numbers could be 1

---
 src/rand/rand.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..13f237e 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cmath>
 #include <cstdlib>
 #if defined(_MSC_VER) || defined(__MINGW32__)
 #include <windows.h>
@@ -113,7 +114,8 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // Keep 24 bits, the precision of float, so that it does not round up to 1.
+  return (float)(std::floor(genrand_res53() * 16777216.0) / 16777216.0);
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From 629edb3bd8a8913ec5b66eaf0b9a83c08f285f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:57 +0000
Subject: [PATCH 40/41] fix: matrix_form of an empty tensor lacked the opening
 bracket

---
 src/views/matrix_form.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/matrix_form.cc b/src/views/matrix_form.cc
index 6e2bd0c..12bc1d1 100644
--- a/src/views/matrix_form.cc
+++ b/src/views/matrix_form.cc
@@ -31,10 +31,9 @@ namespace tensor {
     } else if (data.rank() == 2) {
       index rows = data.rows();
       index cols = data.columns();
+      s << "[";
       for (index i = 0; i < rows; i++) {
-	if (i == 0)
-	  s << "[";
-	else
+	if (i)
 	  s << "\n ";
 	for (index j = 0; j < cols; j++) {
 	  if (j) s << ", ";
@@ -43,11 +42,10 @@ namespace tensor {
       }
       s << "]";
     } else if (data.rank() == 1) {
+      s << "[";
       for (index i = 0; i < data.size(); i++) {
 	if (i)
 	  s << ", ";
-	else
-	  s << "[";
 	s << data[i];
       }
       s << "]";
-- 
2.43.0


From ab2d01862e8c97a879a2d2f0349c595015e20fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 41/41] fix: copies of shared_ptr were not counted, so that the
 object was deleted once for each

---
 include/tensor/refcount.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..2b57a0c 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,10 +104,19 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
-    ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
+    shared_ptr(const shared_ptr<T> &p) : _ref(p._ref), _value(p._value) { ++(*_ref); }
+    ~shared_ptr() { release(); }
+    shared_ptr<T> &operator=(const shared_ptr<T> &p) {
+      ++(*p._ref);
+      release();
+      _ref = p._ref;
+      _value = p._value;
+      return *this;
+    }
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
+    void release() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
     int *_ref;
     T *_value;
   };
-- 
2.43.0

