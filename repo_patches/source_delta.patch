From 51933de5f2bd3e09f2644c5bc8111a3caf583bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 01/32] fix: scalar operand of in-place operators may be an
 element of the tensor (a /= a[0])

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From 90c6b85459973293ae33347406bd6681e88fe2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 02/32] fix: to_complex(real, imag) rejects operands of
 different size

---
 src/tensor/tensor_to_complex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..663e072 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -34,6 +34,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(r.size() == i.size());
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From 28e55f053d3dbe087ed107982b352d953fab59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 03/32] fix: comparisons with the scalar on the left (a < B, a
 > B, a <= B, a >= B) were swapped

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..4493f2f 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 0b551889ef3e04dfe0c21a23c762446231a45697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 04/32] fix: comparison of a complex tensor with a complex
 number was declared but not defined

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From 7e1340113e4816c2e9d1d5a1ab043ad4c1da7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 05/32] fix: take_diag over two dimensions of different size
 with others in between read the wrong elements

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From 3248a039d86140ef32f6fb36bfa1b678ec92bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 06/32] fix: partial trace rejected the first dimension given
 as -rank

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From 224dec312e6ceaa24520de54af5aa9b448aff9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 07/32] fix: mean along the last dimension wrote one entry past
 the list of dimensions

---
 src/tensor/tensor_mean_ndx.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..eb58da2 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,15 +37,15 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
+	if (i == ndx) {
+	  middle = d;
+	  continue;
+	}
 	dimensions.at(j++) = d;
 	if (i < ndx)
 	  left *= d;
-	else if (i > ndx)
+	else
 	  right *= d;
-	else {
-	  middle = d;
-	  j--;
-	}
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From 578e96e7718436cc33ee920a2264d380105ac9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 08/32] fix: matrix_norminf of a matrix without columns read
 past its storage

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From 0eb128af8f7def3c0e8b3ce1a44bed8298974c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 09/32] fix: squeeze of tensors with empty dimensions or with a
 single element

---
 src/tensor/tensor_squeeze.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..62d46fd 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -24,10 +24,17 @@ namespace tensor {
 
   const Indices squeeze_dimensions(const Indices &d)
   {
-    Indices output(d.size() - std::count(d.begin(), d.end(), 1));
+    index rank = d.size() - std::count(d.begin(), d.end(), 1);
+    if (rank == 0 && d.size()) {
+      /* A single element: leave one dimension. */
+      Indices output(1);
+      output.at(0) = 1;
+      return output;
+    }
+    Indices output(rank);
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
     return output;
-- 
2.43.0


From 58c9e825ffbb3b2cdb2479e6b84579e3c4176aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 10/32] fix: foldin of two vectors wrote past the list of
 dimensions

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..f448c65 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From e0fe1f8e28e5243a04e6fe21c62596092269b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 11/32] fix: slices of tensors with an empty dimension divided
 by zero

---
 src/views/range.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..bfbfcc5 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -125,14 +125,12 @@ namespace tensor {
     if (counter_)
       return nomore();
     ++counter_;
-    return ndx_;
+    return ndx_ * get_factor();
   }
 
   void
   SingleRange::set_factor(index factor)
   {
-    index old = get_factor();
-    ndx_ = (ndx_ / old) * factor;
     Range::set_factor(factor);
   }
 
@@ -170,7 +168,7 @@ namespace tensor {
     if (ndx_ > end_) {
       return nomore();
     } else {
-      index output = ndx_;
+      index output = ndx_ * get_factor();
       ndx_ += step_;
       return output;
     }
@@ -179,10 +177,7 @@ namespace tensor {
   void
   StepRange::set_factor(index factor)
   {
-    index old = get_factor();
-    end_ = (end_ / old) * factor;
-    step_ = (step_ / old) * factor;
-    ndx_ = start_ = (start_ / old) * factor;
+    ndx_ = start_;
     Range::set_factor(factor);
   }
 
@@ -218,16 +213,12 @@ namespace tensor {
   {
     if (counter_ >= indices_.size())
       return nomore();
-    return indices_[counter_++];
+    return indices_[counter_++] * get_factor();
   }
 
   void
   IndexRange::set_factor(index factor)
   {
-    index old = get_factor();
-    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
-      *it = (*it / old) * factor;
-    }
     counter_ = 0;
     Range::set_factor(factor);
   }
-- 
2.43.0


From 076bde3f025a526a5c9c2fde71dfdc79a30b8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 12/32] fix: empty strided ranges reported one element

---
 src/views/range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index bfbfcc5..abe0517 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -191,7 +191,7 @@ namespace tensor {
   index
   StepRange::size() const
   {
-    return (end_ - start_) / step_ + 1;
+    return (end_ < start_) ? 0 : (end_ - start_) / step_ + 1;
   }
 
   void
-- 
2.43.0


From 0f8d79e4ec852a8002390f5781414a3951ca99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 13/32] fix: solve_with_svd aborted when no singular value is
 above the tolerance

---
 src/linalg/solve_with_svd_d.cc | 6 ++++++
 src/linalg/solve_with_svd_z.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..0953a28 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,6 +43,12 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // No singular value above the tolerance: the pseudoinverse is zero
+	  Indices d = B.dimensions();
+	  d.at(0) = A.columns();
+	  return RTensor::zeros(d);
+	}
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..51c0efb 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,6 +43,12 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // No singular value above the tolerance: the pseudoinverse is zero
+	  Indices d = B.dimensions();
+	  d.at(0) = A.columns();
+	  return CTensor::zeros(d);
+	}
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
-- 
2.43.0


From cb92ea66ce1df8cc5509b6608213eea58947dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 14/32] fix: slices with negative or out-of-range indices read
 outside the tensor

---
 src/views/range.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index abe0517..a7f12c7 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -20,6 +20,7 @@
 #include <cassert>
 #include <iostream>
 #include <tensor/indices.h>
+#include <tensor/detail/common.h>
 
 namespace tensor {
 
@@ -137,7 +138,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    ndx_ = normalize_index(ndx_, limit);
     Range::set_limit(limit);
   }
 
@@ -184,6 +185,13 @@ namespace tensor {
   void
   StepRange::set_limit(index limit)
   {
+    // Negative indices count from the end of the dimension
+    if (start_ < 0)
+      start_ += limit;
+    if (end_ < 0)
+      end_ += limit;
+    assert(step_ > 0);
+    assert(start_ >= 0);
     assert(limit > end_);
     Range::set_limit(limit);
   }
@@ -226,11 +234,9 @@ namespace tensor {
   void
   IndexRange::set_limit(index limit)
   {
-#ifndef NDEBUG
-    for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
+      *it = normalize_index(*it, limit);
     }
-#endif
     Range::set_limit(limit);
   }
 
-- 
2.43.0


From 92ec234a8adaf3b3df1df30baca6c7fcf054c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 15/32] fix: assigning a tensor to a slice of itself read
 overwritten elements

---
 src/tensor/tensor_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..5fd30da 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -266,9 +266,11 @@ namespace tensor {
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dimensions()));
     assert(dims_.total_size() == t.dims_.total_size());
+    // 't' may be the tensor we are writing to: keep its original elements
+    const Vector<elt_t> source(t.data_);
     ranges_->reset();
     for (index i = 0, j; (j = ranges_->pop()) != ranges_->nomore(); i++) {
-      data_.at(j) = t[i];
+      data_.at(j) = source[i];
     }
   }
 
-- 
2.43.0


From 31a2eb29351ec350866dffca3a6e5bb1751824c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 16/32] fix: sort index lists by their integer values, not
 rounded to double

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From 5f9be132f09dc83f22c95edf2237e72e94d9318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 17/32] fix: Fourier transforms of empty tensors are empty
 instead of a crash

---
 src/fftw/fftw_common.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index d614b22..ea6a4ab 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -25,6 +25,9 @@ namespace tensor {
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plans for empty tensors
+
   fftw_plan plan;
   int d = dims.size();
 
@@ -44,6 +47,9 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plans for empty tensors
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dim;
   fftw_iodim loop_dims[dims.size()-1];
@@ -77,6 +83,9 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const Indices& dims, int direction) {
+  if (dims.total_size() == 0)
+    return; // FFTW makes no plans for empty tensors
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dims[dims.size()];
   fftw_iodim loop_dims[dims.size()];
-- 
2.43.0


From d73b8c00e0b4cfcc2188ed586023f743fb28cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 18/32] fix: coordinate lists with repeated or unbounded
 positions gave malformed sparse matrices

---
 include/tensor/detail/sparse_base.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..d2313e2 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    bool operator==(const sparse_triplet &other) const {
+      return row == other.row && col == other.col;
+    }
   };
 
   template<typename elt_t>
@@ -89,7 +92,7 @@ namespace tensor {
                         index nrows, index ncols) :
     dims_(2), row_start_(), column_(), data_()
   {
-    index i, j, last_row, last_col, l = rows.size();
+    index i, j, last_row, l = rows.size();
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -101,13 +104,16 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      nrows = std::max(nrows, r+1);
+      ncols = std::max(ncols, c+1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
     }
     std::sort(sorted_data.begin(), sorted_data.end());
+    /* Repeated positions keep only one value. */
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end()),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
@@ -117,15 +123,10 @@ namespace tensor {
     /* Fill in the Sparse structure.
      */
     std::fill(row_start_.begin(), row_start_.end(), 0);
-    for (last_col = 0, last_row = -1, j = i = 0; i < l; i++) {
+    for (last_row = -1, j = i = 0; i < l; i++) {
       const sparse_triplet<elt_t> &d = sorted_data[i];
-      if (d.row == last_row) {
-        if (d.col == last_col)
-          continue;
-      } else {
-        while(last_row < d.row) {
-          row_start_.at(++last_row) = j;
-        }
+      while (last_row < d.row) {
+        row_start_.at(++last_row) = j;
       }
       column_.at(j) = d.col;
       data_.at(j) = d.value;
-- 
2.43.0


From 13e156988991945a595d5ef5af7303103fa0368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 19/32] fix: product of a tensor with a sparse matrix always
 aborted

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From 0eebca15d70cbf3716d63dcf6770c709c1ac6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 20/32] fix: Kronecker sum of sparse matrices used identities
 of the wrong size

---
 src/sparse/sparse_kron_d.cc | 4 ++--
 src/sparse/sparse_kron_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..cc57171 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<double>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..8e08a79 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<cdouble>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From f8c195f6861ccb9ff8ecfb61fc4daf0ddba379eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 21/32] fix: solve() of an empty system divided by zero

---
 src/linalg/solve_d.cc | 4 ++++
 src/linalg/solve_z.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index a164dae..1303663 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -61,6 +61,10 @@ namespace linalg {
     RTensor output(B);
     RTensor::elt_t *b = tensor_pointer(output);
 
+    // A system without unknowns or without right hand sides has nothing to solve
+    if (B.size() == 0)
+      return output;
+
     // Since B may be a tensor, we compute how many effective
     // right-hand-sides (nrhs) there are.
     nrhs = B.size() / ldb;
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 0688578..67d764f 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -55,6 +55,10 @@ namespace linalg {
     CTensor output(B);
     cdouble *b = tensor_pointer(output);
 
+    // A system without unknowns or without right hand sides has nothing to solve
+    if (B.size() == 0)
+      return output;
+
     // Since B may be a tensor, we compute how many effective
     // right-hand-sides (nrhs) there are.
     nrhs = B.size() / ldb;
-- 
2.43.0


From 1575687e7302bb6be57dadaa6774da9282c3ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 22/32] fix: solve() took a tensor of rank 3 or more for the
 matrix of the system

---
 src/linalg/solve_d.cc | 2 +-
 src/linalg/solve_z.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index 1303663..c936ea0 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -43,7 +43,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if ((size_t)n != A.columns()) {
+    if (A.rank() != 2 || (size_t)n != A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
                 << "when the number of unknowns is equal to the number of equations.\n"
                 << "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 67d764f..17bcad6 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -37,7 +37,7 @@ namespace linalg {
     blas::integer nrhs;
 
     // Currently, we only solve square systems
-    if (n != (blas::integer)A.columns()) {
+    if (A.rank() != 2 || n != (blas::integer)A.columns()) {
       std::cerr << "Routine solve() can only operate on square systems of equations, i.e\n"
 		<< "when the number of unknowns is equal to the number of equations.\n"
 		<< "However, you have passed a matrix of size " << A.columns() << " by " << A.rows();
-- 
2.43.0


From 4c4383a8313c7652b316f474a493d84e9b21069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 23/32] fix: rand<long>(upper) could return a negative number

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..b756bf2 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return (long)(rand<unsigned long>() % (unsigned long)upper);
   return 0;
 }
 
-- 
2.43.0


From 2f8c9518803cd4051081026bfa0b1baf8a07dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 24/32] fix: rand<float>() could round up to 1

---
 src/rand/rand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..2e23039 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -113,7 +113,8 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // Keep the 24 bits that fit in a float: rounding the others may produce 1.0
+  return (float)((int)(genrand_res53() * 16777216.0) * (1.0 / 16777216.0));
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From 5fabd1ce9955367b8b464cf276b9b047fff1afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 25/32] fix: job files were never read

---
 src/tools/jobs.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..1b9aa85 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -90,14 +90,14 @@ int
 Job::parse_file(std::istream &s, var_list &data)
 {
   std::string buffer;
-  int line;
-  for (line = 0; 1; line++) {
+  for (int line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue; // Blank line
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
-- 
2.43.0


From 7942fac06dacdfa3ede0e97ae698507c1c8fa34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 26/32] fix: --job-blocks without --this-job used an
 uninitialised block number

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 1b9aa85..56fe099 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -110,7 +110,7 @@ Job::Job(int argc, const char **argv) :
   bool job_blocks_found = false;
   bool this_job_found = false;
   tensor::index blocks;
-  tensor::index current_job;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 128c8bc8aee54b0124ed023863a55c6cbd80a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 27/32] fix: --first-job without --last-job used an
 uninitialised last job

---
 src/tools/jobs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 56fe099..5b16d52 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -246,6 +246,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From 1df7a79621cea3d7a71023f19ae040501da3eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 28/32] fix: selecting a job divided by zero when a variable
 has no values

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 5b16d52..b389ff1 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -282,7 +282,7 @@ Job::select_job(tensor::index which)
 {
   assert(which >= 0);
   tensor::index i = this_job_ = which;
-  if (which <= number_of_jobs_) {
+  if (which < number_of_jobs_) {
     for (var_list::iterator it = variables_.begin();
          it != variables_.end();
          it++) {
-- 
2.43.0


From 9a41a500a2c4fcacfd8808e47dfbc0b75faec377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 29/32] fix: block_svd() aborted on square matrices with
 rectangular blocks

---
 src/linalg/block_svd.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..6b2cf15 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -68,7 +68,8 @@ namespace linalg {
       Tensor m = A(range(block_rows[b]), range(block_cols[b]));
       index n = m.size();
       if (m.size() > 1) {
-	stemp = svd(m, pUtemp, pVtemp, economic);
+	// The factors of a rectangular block must have as many vectors as values
+	stemp = svd(m, pUtemp, pVtemp, true);
         index slast = sndx + stemp.size() - 1;
 	s.at(range(sndx, slast)) = stemp;
 	if (pU) {
-- 
2.43.0


From d896eeb950c74df4518e51c04ac642f86d2c9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 30/32] fix: missing records and files that cannot be written
 went unnoticed

Reading past the end of a data file, or writing to a file that could
not be opened, sets the stream's failbit, which bad() does not report.
---
 src/sdf/idata_file.cc | 6 +++---
 src/sdf/odata_file.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..1ca62b4 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (s.fail()) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
@@ -38,7 +38,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.read((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when reading from SDF stream";
       abort();
     }
@@ -52,7 +52,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   do {
     size_t now = min<size_t>(n*size, buffer_size);
     s.read(buffer, now);
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when reading from stream " << s;
       abort();
     }
diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..7d6ed6e 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,7 +27,7 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (s.fail()) {
     std::cerr << "I/O error when writing to SDF stream";
     abort();
   }
@@ -44,7 +44,7 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.write((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when writing to SDF stream";
       abort();
     }
@@ -81,7 +81,7 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
       n--;
     }
     s.write(buffer, now);
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when reading from stream " << s;
       abort();
     }
-- 
2.43.0


From eb632ab88108e44efec6b95f060f3f328adc36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 31/32] fix: records with names of 64 or more characters could
 not be loaded

---
 src/sdf/idata_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 1ca62b4..30f88ae 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -155,7 +155,8 @@ void
 InDataFile::read_tag(const std::string &name, tensor::index type)
 {
   std::string other_name = read_variable_name();
-  if (name.size() && (name != other_name)) {
+  // Names are stored truncated to the size of their field
+  if (name.size() && (name.substr(0, var_name_size - 1) != other_name)) {
     std::cerr << "While reading file " << _filename << ", variable "
 	      << name << " was expected but found "
 	      << other_name << '\n';
-- 
2.43.0


From 1add4a0c3364821decf6f1b205a81d82f24f152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 32/32] fix: unknown record tags indexed past the table of tag
 names

---
 src/sdf/data_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..d370e97 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -133,8 +133,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag > 3 /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	abort();
     }
     return names[tag];
 }
-- 
2.43.0

