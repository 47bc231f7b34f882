From e2dded80b7af40b2bd9770da9a14f2f2d10cd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 01/58] fix: Domains of a single index are equal whatever their
 strides

---
 src/vsip/domain.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..ef30800 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -222,7 +222,9 @@ Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
   return this->length() == d.length() &&
     ((this->stride() == d.stride() && this->first() == d.first()) ||
      (this->stride() == -d.stride() && 
-      this->first() == d.first() + (d.length() - 1) * d.stride()));
+      this->first() == d.first() + (d.length() - 1) * d.stride()) ||
+     // A single index is the same whatever the stride.
+     (this->length() == 1 && this->first() == d.first()));
 }
 
 
-- 
2.43.0


From f0e5705be3d926d66acd6c338248b57ba41237bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 02/58] fix: dividing a Domain with a negative stride

---
 src/vsip/domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index ef30800..18e73b4 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -200,7 +200,7 @@ Domain<1>::impl_is_valid() const VSIP_NOTHROW
 inline void					      \
 Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 {						      \
-  this->Datum Assign_op a;			      \
+  this->Datum Assign_op static_cast<stride_type>(a); \
   assert(this->impl_is_valid());		      \
 }
 
-- 
2.43.0


From e7dc12e0a15ee978ad1ac9a215d23e045eaa4161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 03/58] fix: copying a column-major matrix without unit stride
 into a row-major one

The general case passed the number of rows and columns in the wrong order.
---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From d2f45b4868aa7e037fc734d27f641f79619bbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 04/58] fix: minmg of complex values returns a scalar, as maxmg
 does

---
 src/ovxx/view/fns_elementwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/fns_elementwise.hpp b/src/ovxx/view/fns_elementwise.hpp
index 6ce8eda..020a3b4 100644
--- a/src/ovxx/view/fns_elementwise.hpp
+++ b/src/ovxx/view/fns_elementwise.hpp
@@ -447,7 +447,7 @@ OVXX_BINARY_FUNC(max, Max)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmg, Maxmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmgsq, Maxmgsq)
 OVXX_BINARY_FUNC(min, Min)
-OVXX_BINARY_FUNC(minmg, Minmg)
+OVXX_BINARY_FUNC_SCALAR_RETN(minmg, Minmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(minmgsq, Minmgsq)
 OVXX_BINARY_FUNC_RETN(ne, Ne, bool)
 OVXX_BINARY_FUNC(pow, Pow)
-- 
2.43.0


From 11b0563292e24135e833c0da0c5662c7f5f22592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 05/58] fix: jmul of mixed precision computes in the promoted
 type

---
 src/ovxx/math/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/math/scalar.hpp b/src/ovxx/math/scalar.hpp
index bb8b48b..b6e467c 100644
--- a/src/ovxx/math/scalar.hpp
+++ b/src/ovxx/math/scalar.hpp
@@ -368,8 +368,8 @@ inline typename Promotion<complex<T1>, complex<T2> >::type
 jmul(complex<T1> t1, complex<T2> t2) VSIP_NOTHROW 
 {
   typename Promotion<complex<T1>, complex<T2> >::type retn(t1);
-  t1 *= conj(t2);
-  return t1;
+  retn *= conj(t2);
+  return retn;
 }
 
 template <typename T1, typename T2>
-- 
2.43.0


From e892fc064e41be9bae8bf394494da247d4562c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 06/58] fix: sums of long single-precision vectors

The blocked summation ignored the view's stride, dropped the imaginary part
of complex sums, and squared instead of taking the squared magnitude.
---
 src/ovxx/reductions/reductions.hpp | 87 ++++--------------------------
 1 file changed, 11 insertions(+), 76 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..bdc3ce2 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -131,66 +131,6 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
-template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
-
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
-
-// Is the result averaged after summing?
-template <template <typename> class R>
-struct is_mean_based { static bool const value = false;};
-
-template<> struct is_mean_based<Mean_value> { static bool const value = true;};
-template<> struct is_mean_based<Mean_magsq_value> { static bool const value = true;};
-
-// Get either only the real part, or both real and imaginary parts, depending
-// on the destination value type.
-template <typename T1, typename T2>
-struct extract
-{
-  static void apply(T1 const& src, T2& dst) { dst = src;}
-};
-
-template <typename T1, typename T2>
-struct extract<complex<T1>, T2>
-{
-  static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
-};
-
-template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
-{
-  T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
-  return result;
-}
-
-template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
-{
-  complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
-  return result;
-}
-
 } // namespace ovxx::reduction
 
 template <template <typename> class R, typename V>
@@ -280,24 +220,19 @@ struct Evaluator<op::reduce<R>, be::generic,
       length_type const last_subblock_size = length % max_length ?
         length % max_length : max_length;
 
-      vsip::dda::Data<B, vsip::dda::in> data(a);
-
-      typename B::value_type result = 0;
-      index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      typedef typename B::value_type V;
+      typename R<V>::accum_type state = R<V>::initial();
+      for (index_type sb = 0; sb < subblocks; ++sb)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        index_type const first = sb * max_length;
+        index_type const last = first +
+          (sb + 1 < subblocks ? max_length : last_subblock_size);
+        typename R<V>::accum_type partial = R<V>::initial();
+        for (index_type i = first; i < last; ++i)
+          partial = R<V>::update(partial, a.get(i));
+        state += partial;
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
-
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+      r = R<V>::value(state, length);
     }
   }
 };
-- 
2.43.0


From 02a97fa78dc1c7af25f6e473abf62b8b9c8f5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 07/58] fix: BLAS matrix products of operands BLAS cannot take
 as they are

Leading dimensions were taken from sizes instead of strides, destinations were assumed
to have unit stride, and negative strides were passed on unadjusted. The double-precision
complex dot products went through single precision.
---
 src/ovxx/lapack/blas.hpp | 61 +++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..385d762 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
@@ -115,6 +115,8 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  if (incx < 0) x += incx * ((transa == 'n' ? n : m)-1);	\
+  if (incy < 0) y += incy * ((transa == 'n' ? m : n)-1);	\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
@@ -215,6 +217,19 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// Whether BLAS can be given a matrix as is: its minor dimension has unit stride,
+/// and its major stride is a valid leading dimension.
+template <typename Data, typename Block>
+inline bool
+is_direct_matrix(Data const &data, Block const &block)
+{
+  typedef typename get_block_layout<Block>::order_type order_type;
+  dimension_type const major = order_type::impl_dim0;
+  dimension_type const minor = order_type::impl_dim1;
+  return data.stride(minor) == 1 && data.stride(major) >= 1 &&
+    static_cast<length_type>(data.stride(major)) >= block.size(2, minor);
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -415,13 +430,14 @@ struct Evaluator<op::prod, be::blas,
     blas::traits<T>::valid &&
     is_same<T, typename B1::value_type>::value &&
     is_same<T, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
     !is_split_block<B0>::value &&
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
 
@@ -431,8 +447,9 @@ struct Evaluator<op::prod, be::blas,
     // Note: gemm is used for row type and b is restricted to unit stride.
     // gemv is used for col type and can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    dda::Data<B0, dda::out> data_r(r);
+    return blas::is_direct_matrix(data_a, a) &&
+      (!is_a_row || (data_b.stride(0) == 1 && data_r.stride(0) > 0));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -455,7 +472,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -484,13 +501,14 @@ struct Evaluator<op::prod, be::blas,
     blas::traits<T>::valid &&
     is_same<T, typename B1::value_type>::value &&
     is_same<T, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
     !is_split_block<B0>::value &&
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B2>::order_type order2_type;
 
@@ -501,8 +519,9 @@ struct Evaluator<op::prod, be::blas,
     // gemm is used for col type and a is restricted to unit stride.
     // 
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    dda::Data<B0, dda::out> data_r(r);
+    return blas::is_direct_matrix(data_b, b) &&
+      (is_b_row || (data_a.stride(0) == 1 && data_r.stride(0) > 0));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -523,7 +542,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 1), b.size(2, 0),      // int m, int n,
 		 1.0,                             // T alpha,
 		 data_b.ptr(), data_b.stride(0),  // T *a, int lda,
-		 data_a.ptr(), data_a.stride(0),  // T *x, int incx,
+		 data_a.ptr(), data_a.stride(0), // T *x, int incx,
 		 0.0,                             // T beta,
 		 data_r.ptr(), data_r.stride(0)); // T *y, int incy)
     }
@@ -535,7 +554,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -563,7 +582,7 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
@@ -571,11 +590,10 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    dda::Data<B0, dda::out> data_r(r);
+    return blas::is_direct_matrix(data_a, a) &&
+      blas::is_direct_matrix(data_b, b) &&
+      blas::is_direct_matrix(data_r, r);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -649,7 +667,7 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
@@ -657,11 +675,10 @@ struct Evaluator<op::gemp, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    dda::Data<B0, dda::out> data_r(r);
+    return blas::is_direct_matrix(data_a, a) &&
+      blas::is_direct_matrix(data_b, b) &&
+      blas::is_direct_matrix(data_r, r);
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 71f15a13990ddae9cab595c66abcdb52853b9351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 08/58] fix: kron of matrices computes in the promoted type,
 not in the scalar's

---
 src/vsip/impl/matvec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/matvec.hpp b/src/vsip/impl/matvec.hpp
index 93f8e3c..67ed805 100644
--- a/src/vsip/impl/matvec.hpp
+++ b/src/vsip/impl/matvec.hpp
@@ -255,7 +255,7 @@ impl_kron( T0 alpha, Matrix<T1, Block1> v, Matrix<T2, Block2> w)
       for ( index_type k = v.size(1); k-- > 0; )
         for ( index_type l = w.size(1); l-- > 0; ) 
         {
-          T0 val = alpha * v.get(i,k) * w.get(j,l);
+          typename return_type::value_type val = alpha * v.get(i,k) * w.get(j,l);
           r.put( j + (i * w.size(0)), l + (k * w.size(1)), val );
         }
 
-- 
2.43.0


From c8313088253ffbd53c15f333c0f453d7cd6dc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 09/58] fix: window functions are defined in a header, so make
 them inline

Two translation units that include <vsip/signal.hpp> could not be linked into one program.
---
 src/vsip/impl/signal/window.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vsip/impl/signal/window.hpp b/src/vsip/impl/signal/window.hpp
index 4effeba..a782471 100644
--- a/src/vsip/impl/signal/window.hpp
+++ b/src/vsip/impl/signal/window.hpp
@@ -15,7 +15,7 @@ namespace vsip
 {
 
 // Generates Blackman window
-const_Vector<float>
+inline const_Vector<float>
 blackman(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -23,7 +23,7 @@ blackman(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Chebyshev window
-const_Vector<float>
+inline const_Vector<float>
 cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -31,7 +31,7 @@ cheby(length_type len, float ripple) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Hanning window
-const_Vector<float>
+inline const_Vector<float>
 hanning(length_type len) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
@@ -39,7 +39,7 @@ hanning(length_type len) VSIP_THROW((std::bad_alloc))
 }
 
 // Generates Kaiser window
-const_Vector<float>
+inline const_Vector<float>
 kaiser(length_type len, float beta) VSIP_THROW((std::bad_alloc))
 {
   OVXX_PRECONDITION(len > 1);
-- 
2.43.0


From 03d39c4a4a7622b62edd0fdcfe962b1846d2a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 10/58] fix: assignment of LU, Cholesky, QR and SVD objects

---
 src/ovxx/lapack/cholesky.hpp |  1 +
 src/ovxx/lapack/lu.hpp       |  4 +++-
 src/ovxx/lapack/qr.hpp       |  1 +
 src/ovxx/lapack/svd.hpp      | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..9f244c1 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
     data_ = other.data_;
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..be1fa57 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i < p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From 28f3dcab4204c34a5db110c557cfa1422460a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 11/58] fix: products with a skinny Q (qrd_saveq1) of a matrix
 that is not square

---
 src/ovxx/lapack/qr.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..b57988c 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,17 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The backend multiplies by all of Q. With a skinny Q (qrd_saveq1), pad B
+    // with zeros for Q's missing columns, and drop the rows or columns of the
+    // result that stem from these.
+    length_type c_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type c_cols = ps == mat_lside ? b.size(1) : rows_;
+
+    Matrix<T, data_block_type> b_int(c_rows, c_cols, T());
+    parallel::assign_local(b_int(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   c_rows, c_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +171,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  c_rows, c_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), c_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From 48a45eff068dabd81322dcd096796501d9370bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 12/58] fix: copying a QR object reads past the end of the
 other's workspace

---
 src/ovxx/lapack/qr.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index b57988c..3d746c1 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -53,13 +53,11 @@ public:
       storage_(other.storage_),
       data_(rows_, cols_),
       tau_(cols_),
-      work_(cols_ * lapack::geqrf_work<T>(rows_, cols_))
+      work_(other.work_.size())
   {
     data_ = other.data_;
     for (index_type i=0; i<cols_; ++i)
       tau_[i] = other.tau_[i];
-    for (index_type i = 0; i != work_.size(); ++i)
-      work_[i] = other.work_[i];
   }
 
   qrd &operator=(qrd const &other) VSIP_THROW((std::bad_alloc))
@@ -71,8 +69,6 @@ public:
     data_ = other.data_;
     for (index_type i=0; i<cols_; ++i)
       tau_[i] = other.tau_[i];
-    for (index_type i = 0; i != work_.size(); ++i)
-      work_[i] = other.work_[i];
     return *this;
   }
 
-- 
2.43.0


From a4a96507ba7e9afeb8a618087b5ca8b81ff62836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 13/58] fix: pass the lengths of the strings to ilaenv

---
 src/ovxx/lapack/flapack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..68535f3 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,8 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstddef>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +71,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // The lengths of the strings are passed last.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From 5dc9e573110e456d3523c4eb38e354250c8d731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 14/58] fix: toepsol of a system of order one

---
 src/vsip/impl/solver/toepsol.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..c3162ac 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -58,6 +58,11 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   length_type n = t.size();
 
+  if (n == 1)
+  {
+    x.put(0, b.get(0) / ovxx::math::impl_real(t.get(0)));
+    return x;
+  }
 
   typename const_Vector<T, Block0>::subview_type r = t(Domain<1>(1, 1, n-1));
   Vector<T> tmpv(n);
-- 
2.43.0


From 9a19efe2b984d6510e29647e1582c886916ae857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 15/58] fix: direct data access with interleaved storage
 requested of an array-format block did not compile

---
 src/ovxx/dda/accessor.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..1d28d8a 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -598,9 +598,15 @@ public:
   int cost() const { return use_direct_ ? 0 : 2;}
 
   ptr_type ptr()
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  {
+    return use_direct_ ? 
+      pointer_cast<ptr_type>(block_.ptr()) : ptr_type(storage_.ptr());
+  }
   const_ptr_type ptr() const
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  {
+    return use_direct_ ?
+      pointer_cast<const_ptr_type>(block_.ptr()) : const_ptr_type(storage_.ptr());
+  }
   stride_type stride(dimension_type d) const
   { return use_direct_ ? block_.stride(dim, d) : layout_.stride(d);}
   length_type size(dimension_type d) const
-- 
2.43.0


From 0fab134e8a89a16670ad9ae62302e19258aa8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 16/58] fix: release(true) of a block without user storage
 wrote through a null pointer

---
 src/ovxx/storage/manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..728db7b 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -214,7 +214,7 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update && user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 9372e58aa8950f695f923a3c4a9e1fef8fff75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 17/58] fix: serialization::is_compatible() ignored the number
 of dimensions for integral types

---
 src/vsip/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..93bdec1 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -145,7 +145,7 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From 3477807ac0cd98761e86b51c7ffda7dd9dbce5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 18/58] fix: serialization::is_compatible() ignored the middle
 stride of three-dimensional data

---
 src/vsip/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 93bdec1..d2f43f1 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
-- 
2.43.0


From ca93462fd38374dd2cfe1bbbe2210793d4de4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 19/58] fix: aligned_512 was not known as an aligned packing

---
 src/ovxx/layout.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..81f1dfc 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -93,6 +93,7 @@ OVXX_ALIGNED(aligned_32)
 OVXX_ALIGNED(aligned_64)
 OVXX_ALIGNED(aligned_128)
 OVXX_ALIGNED(aligned_256)
+OVXX_ALIGNED(aligned_512)
 OVXX_ALIGNED(aligned_1024)
 
 #undef OVXX_ALIGNED
-- 
2.43.0


From fec99c0cffe53d37f84f0d519ad79b4f5c5dbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 20/58] fix: column-major aligned layouts constructed from
 sizes had the wrong stride

---
 src/ovxx/layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index 81f1dfc..a4a4b82 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -385,7 +385,7 @@ public:							   \
   {							   \
     size_[0] = size0;					   \
     size_[1] = size1;					   \
-    stride_ = size_[1];					   \
+    stride_ = size_[0];					   \
     if (stride_ % A != 0) stride_ += (A - stride_%A);	   \
   }							   \
 							   \
-- 
2.43.0


From 7e12e119ca81388ab9c194fd0392b6c1d482a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 21/58] fix: swap() of matrices and tensors exchanged elements
 by linear position

---
 src/vsip/selgen.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..64ee110 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -261,14 +261,15 @@ struct Swap
 {
   static void apply(Block1 &block1, Block2 &block2)
   {
-    assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    static dimension_type const dim = Block1::dim;
+    ovxx::Length<dim> const ext = ovxx::extent<dim>(block1);
+    assert(ext == ovxx::extent<dim>(block2));
+    for (Index<dim> idx; ovxx::valid(ext, idx); ovxx::next(ext, idx))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = ovxx::get(block1, idx);
+      ovxx::put(block1, idx, ovxx::get(block2, idx));
+      ovxx::put(block2, idx, tmp);
     }
-
   }
 };
 }
-- 
2.43.0


From 4189a6e7c9c6a802a0b30d3d8ba90c46211f62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 22/58] fix: integer histograms divided by a truncated (or
 zero) bin width, up to writing past the last bin

---
 src/vsip/impl/signal/histo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..3bd58c3 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,6 +13,7 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <limits>
 
 namespace vsip
 {
@@ -24,6 +25,9 @@ hist_bin(T min, T max, T delta, length_type num, T value)
 {
   if (value < min) return 0;
   else if (value >= max) return num - 1;
+  // An integer bin width would be truncated (to zero, even).
+  else if (std::numeric_limits<T>::is_integer)
+    return (index_type)((double(value) - min) * (num - 2) / (double(max) - min)) + 1;
   else return (index_type)(((value - min) / delta) + 1);
 } 
 
-- 
2.43.0


From db16811dd90f2d5761cd4b0fb8a24bd2b9a2601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 23/58] fix: frequency swap by column looped over as many
 columns as there are rows

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From 681580580d965e9e5e420d69d83a00880c59d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 24/58] fix: Kaiser window: Bessel function overflowed (NaN)
 for large beta, inaccurate for small

---
 src/ovxx/signal/window.cpp | 48 +++++++-------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/src/ovxx/signal/window.cpp b/src/ovxx/signal/window.cpp
index 68bb9ba..d033a4f 100644
--- a/src/ovxx/signal/window.cpp
+++ b/src/ovxx/signal/window.cpp
@@ -45,47 +45,15 @@ template <typename T>
 T
 bessel_I_0(T x)
 {
-  // If -3 <= x < 3, then use polynomial approximation to compute
-  // the I_0(x) (modified bessel function of the first kind).
-  //
-  // This approximation is accurate to withing 1.6 * 10^-7  
-  // [See Abramowitz and Stegun p378, S9.8.1 -- note that
-  //  t = beta * 3 / 3.75, which accounts for the difference
-  //  in the way the constants appear.]
-  //
-  // Otherwise, use iterative method.
-  //
-  const T a1 = 2.2499997;
-  const T a2 = 1.2656208;
-  const T a3 = 0.3163866;
-  const T a4 = 0.0444479;
-  const T a5 = 0.0039444;
-  const T a6 = 0.0002100;
-  T ans;
-
-  if (static_cast<T>(fabs(x)) <= 3.0)
+  // Sum the series of (x^2/4)^n / (n!)^2, obtaining each term from the
+  // previous one so that neither power nor factorial can overflow.
+  T const x0 = x * x * T(.25);
+  T term = 1;
+  T ans = 1;
+  for (length_type n = 1; term > ans * T(.00000001); ++n)
   {
-    x /= 3.0;   
-    x *= x; 
-    ans = 1 + x * (a1 + x * (a2 + x * (a3 + x * (a4 + x * (a5 + x * a6)))));
-  }
-  else
-  {
-    T x1 = x * x * .25;
-    T x0 = x1;
-    T n0 = 1;
-    T diff = 1;
-    ans = 1 + x1;
-    
-    length_type n = 1;
-    while (diff > .00000001)
-    {
-      n++;
-      n0 *= static_cast<T>(n);
-      x1 *= x0;
-      diff = x1 / (n0 * n0);
-      ans += diff;
-    }
+    term *= x0 / (static_cast<T>(n) * static_cast<T>(n));
+    ans += term;
   }
   return ans;
 }
-- 
2.43.0


From 9e8c31a86218d07e5d1625f0425f9a0e4af8b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 25/58] fix: patch_from_global_index() returned the subblock;
 global_from_local_index(view, dim, sb, idx) did not compile

---
 src/ovxx/parallel/support.hpp    | 2 +-
 src/vsip/impl/parallel.hpp       | 2 +-
 src/vsip/impl/replicated_map.hpp | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..4a0ec44 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -180,6 +180,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 6ee989e6376d00adafce341ed7ca6cc72ab37ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 26/58] fix: subviews of distributed views with negative stride
 held no elements

---
 src/ovxx/domain_utils.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 6850044..a4d28a3 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -145,6 +145,14 @@ intersect(Domain<1> const &dom1,
     }
     else return false;
   }
+  else if (dom2.stride() < 0)
+  {
+    // Intersect with the same indices in ascending order.
+    Domain<1> ascending(dom2.impl_last(), -dom2.stride(), dom2.size());
+    if (!intersect(dom1, ascending, ascending)) return false;
+    res = Domain<1>(ascending.impl_last(), dom2.stride(), ascending.size());
+    return true;
+  }
   else
   {
     index_type first1  = dom1.first();
@@ -272,7 +280,9 @@ inline Domain<1>
 subset_from_intr(Domain<1> const &dom,
 		 Domain<1> const &intr)
 {
-  return Domain<1>((intr.first() - dom.first()) / dom.stride(),
+  // (Strides may be negative.)
+  stride_type offset = intr.first() - dom.first();
+  return Domain<1>(offset / dom.stride(),
 		   1,
 		   intr.size());
 }
-- 
2.43.0


From 5d88b08397c1570449a2f0a513b20e2ce764d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 27/58] fix: copy interleaved-complex matrices as arrays of
 complex values

---
 src/ovxx/assign/copy.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..5c88061 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -135,11 +135,23 @@ copy(std::pair<T*, T*> const &lhs,
        rows, cols);
 }
 
+// Access interleaved-complex data as an array of complex values,
+// so pointers, strides, and sizes all refer to the block's value-type.
+template <typename B>
+struct copy_layout
+{
+  static storage_format_type const storage_format =
+    is_split_block<B>::value ? split_complex : array;
+  typedef typename 
+  adjust_layout_storage_format<storage_format,
+    typename get_block_layout<B>::type>::type type;
+};
+
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, row2_type, row2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename copy_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename copy_layout<RHS>::type> rhs_data(rhs);
 
   copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
        rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
@@ -149,8 +161,8 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, row2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, col2_type, col2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename copy_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename copy_layout<RHS>::type> rhs_data(rhs);
 
   copy(lhs_data.ptr(), lhs_data.stride(1), lhs_data.stride(0),
        rhs_data.ptr(), rhs_data.stride(1), rhs_data.stride(0),
@@ -160,8 +172,8 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, col2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename copy_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename copy_layout<RHS>::type> rhs_data(rhs);
 
   if (is_same_ptr(lhs_data.ptr(), rhs_data.ptr()))
   {
@@ -189,8 +201,8 @@ void copy(LHS &lhs, RHS const &rhs, col2_type, row2_type)
 template <typename LHS, typename RHS>
 void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
 {
-  vsip::dda::Data<LHS, dda::out> lhs_data(lhs);
-  vsip::dda::Data<RHS, dda::in> rhs_data(rhs);
+  vsip::dda::Data<LHS, dda::out, typename copy_layout<LHS>::type> lhs_data(lhs);
+  vsip::dda::Data<RHS, dda::in, typename copy_layout<RHS>::type> rhs_data(rhs);
 
   if (is_same_ptr(lhs_data.ptr(), rhs_data.ptr()))
   {
-- 
2.43.0


From dfc8f11ef753e67b46cfe76c5e47a4b3304fcdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 28/58] fix: write received data back into blocks that need a
 buffer

---
 src/ovxx/dda/persistent.hpp               | 18 +++++++++++++++++-
 src/ovxx/parallel/assign_block_vector.hpp |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/persistent.hpp b/src/ovxx/dda/persistent.hpp
index 6890140..d7dffd6 100644
--- a/src/ovxx/dda/persistent.hpp
+++ b/src/ovxx/dda/persistent.hpp
@@ -49,7 +49,9 @@ public:
 
   ~Persistent_data() {}
   void sync_in() { if (sync_ & dda::in) backend_.sync_in();}
-  void sync_out() { if (sync_ & dda::out) backend_.sync_out();}
+  // The backend only reads the block (so nothing gets written back at
+  // destruction). If it uses a buffer, copy that back here.
+  void sync_out() { if (sync_ & dda::out) write_back<has_buffer>();}
 
   ptr_type ptr() { return backend_.ptr();}
   const_ptr_type ptr() const { return backend_.ptr();}
@@ -61,6 +63,20 @@ public:
   int cost() const { return backend_.cost();}
 
 private:
+  static bool const has_buffer =
+    (backend_type::access == copy_access ||
+     backend_type::access == maybe_direct_access) &&
+    is_modifiable_block<B>::value;
+
+  template <bool P>
+  typename enable_if<P>::type write_back()
+  {
+    if (backend_.cost() > 0)
+      block_copy(backend_.ptr(), backend_.layout(), *block_);
+  }
+  template <bool P>
+  typename enable_if<!P>::type write_back() {}
+
   typename block_traits<B>::ptr_type block_;
   non_const_ptr_type buffer_;
   dda::sync_policy sync_;
diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index a4459c4..e56d6e0 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -152,7 +152,7 @@ public:
       req_list  (),
       msg_count (0),
       src_dda_  (src_.local().block(), dda::in),
-      dst_dda_  (dst_.local().block(), dda::out)
+      dst_dda_  (dst_.local().block(), dda::inout)
   {
     OVXX_PRECONDITION(src_am_.impl_comm() == dst_am_.impl_comm());
 
-- 
2.43.0


From 23e0a81597e90488da3e73684d1f161305f58ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 29/58] fix: transfer whole values of interleaved-complex
 blocks between processes

---
 src/ovxx/parallel/assign_block_vector.hpp | 12 ++++++++----
 src/ovxx/parallel/assign_chain.hpp        |  3 ---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index e56d6e0..7b4181c 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -55,10 +55,14 @@ class Assignment<D, LHS, RHS, Blkvec_assign>
   typedef typename get_block_layout<src_local_block>::type raw_src_lp;
   typedef typename get_block_layout<dst_local_block>::type raw_dst_lp;
 
-  typedef typename adjust_layout_packing<dense, raw_src_lp>::type
-		src_lp;
-  typedef typename adjust_layout_packing<dense, raw_dst_lp>::type
-		dst_lp;
+  // Treat interleaved-complex data as an array of complex values,
+  // to have all offsets and lengths refer to values.
+  typedef typename adjust_layout_storage_format<
+    is_split_block<RHS>::value ? split_complex : array,
+    typename adjust_layout_packing<dense, raw_src_lp>::type>::type src_lp;
+  typedef typename adjust_layout_storage_format<
+    is_split_block<LHS>::value ? split_complex : array,
+    typename adjust_layout_packing<dense, raw_dst_lp>::type>::type dst_lp;
 
   typedef dda::Persistent_data<src_local_block, src_lp> src_dda_type;
   typedef dda::Persistent_data<dst_local_block, dst_lp> dst_dda_type;
diff --git a/src/ovxx/parallel/assign_chain.hpp b/src/ovxx/parallel/assign_chain.hpp
index e54b5eb..20a4cb6 100644
--- a/src/ovxx/parallel/assign_chain.hpp
+++ b/src/ovxx/parallel/assign_chain.hpp
@@ -43,9 +43,6 @@ template <typename D,
 struct element_type
 { typedef T type;};
 template <typename D, typename T>
-struct element_type<D, complex<T>, interleaved_complex>
-{ typedef T type;};
-template <typename D, typename T>
 struct element_type<D, complex<T>, split_complex>
 { typedef T type;};
 
-- 
2.43.0


From 09d8cee54712729d5cd222b01cfbde9b3d8634da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 30/58] fix: convert values when assigning between distributed
 views of different types

---
 src/ovxx/assign.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/assign.hpp b/src/ovxx/assign.hpp
index eddf66d..afb4fc0 100644
--- a/src/ovxx/assign.hpp
+++ b/src/ovxx/assign.hpp
@@ -50,7 +50,9 @@ struct trait
   static bool const is_local      = parallel::is_local_map<lhs_map_type>::value &&
     parallel::is_local_map<rhs_map_type>::value;
   static bool const is_rhs_expr   = is_expr_block<RHS>::value;
-  static bool const is_rhs_simple = is_simple_distributed_block<RHS>::value;
+  // Only values of the same type can be transferred directly.
+  static bool const is_rhs_simple = is_simple_distributed_block<RHS>::value &&
+    is_same<typename LHS::value_type, typename RHS::value_type>::value;
   static bool const is_rhs_reorg  = parallel::is_reorg_ok<RHS>::value;
 
   static bool const is_lhs_split  = is_split_block<LHS>::value;
-- 
2.43.0


From 259d6bbb4393f4210d9cc3b2e22c2527f76d1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 31/58] fix: allocate padding when accessing distributed data
 in an aligned layout

---
 src/ovxx/dda/accessor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 1d28d8a..3d1bfa6 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -500,7 +500,7 @@ public:
 
   Accessor(B &b, non_const_ptr_type buffer = non_const_ptr_type())
     : block_(b),
-      storage_(b.size(), buffer),
+      storage_(required_buffer_size(b), buffer),
       lblock_(block_domain<B::dim>(b), storage_.ptr()),
       assigner_(lblock_, block_),
       local_access_(lblock_)
-- 
2.43.0


From 1a7c1f0f572dccd17f06b107006f8c569d355848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 32/58] fix: unary expressions nested in expressions of
 distributed views

---
 src/ovxx/expr/transform.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index b2985c1..7525e91 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -18,6 +18,18 @@ namespace transform
 {
 template <typename F, typename B> struct return_type;
 
+// An operand may itself be a unary expression, so the function templates
+// for binary and ternary expressions need to see these declarations.
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+typename return_type<F, Unary<O, B, E> const>::type
+combine(F const &, Unary<O, B, E> const &);
+
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+void
+apply(F const &, Unary<O, B, E> const &);
+
 // FIXME: For some reason this forward-declaration is required
 //        for overload resolution to work a little later in this file.
 //        Without it, the parallel/expr.cpp test fails with a compile-time
-- 
2.43.0


From 05e10d79d368aea0ef6e9876176e52dfaf4b67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 33/58] fix: maps of columns and slices whose distributions
 differ

---
 src/ovxx/parallel/map_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..0e34c55 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
-- 
2.43.0


From 20532666370eeebd4701514a9e113bdac889e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 34/58] fix: remote dda access to blocks with unit-stride
 packing

---
 src/ovxx/dda/accessor.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 3d1bfa6..7702e9e 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -474,7 +474,15 @@ class Accessor<B, L, S, remote_access,
 
 public:
   static access_kind const access = remote_access;
+private:
   typedef typename adjust_layout<L, typename get_block_layout<B>::type>::type
+    adjusted_layout_type;
+  // The local copy needs a definite packing.
+  static pack_type const copy_packing =
+    static_cast<pack_type>(adjusted_layout_type::packing == unit_stride
+			   ? dense : adjusted_layout_type::packing);
+public:
+  typedef typename adjust_layout_packing<copy_packing, adjusted_layout_type>::type
     layout_type;
   typedef typename B::value_type value_type;
   typedef typename view_of<B>::type dist_view_type;
-- 
2.43.0


From 4ead19a1249583881ae2ec3c2948b48904524434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 35/58] fix: generators assigned to views replicated on some
 processors

---
 src/vsip/impl/replicated_map.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index 4a0ec44..fe551c1 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -159,12 +159,22 @@ public:
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    // As for other maps, a processor outside the map has an empty subblock.
+    if (sb == no_subblock) return ovxx::empty_domain<D1>();
+    OVXX_PRECONDITION(sb == 0 && patch == 0);
+    return dom_;
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    // As for other maps, a processor outside the map has an empty subblock.
+    if (sb == no_subblock) return ovxx::empty_domain<D1>();
+    OVXX_PRECONDITION(sb == 0 && patch == 0);
+    return dom_;
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
-- 
2.43.0


From ad17e31e2f9645d2c251c47a25d3bb964b492bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 36/58] fix: keep the state of function objects in distributed
 expressions

The local and the redistributed forms of an elementwise expression were
built from the operands alone, with a default-constructed operation: clip()
and user functors carrying values computed with uninitialised ones.
---
 src/ovxx/expr/binary.hpp    | 3 ++-
 src/ovxx/expr/ternary.hpp   | 3 ++-
 src/ovxx/expr/transform.hpp | 8 +++++---
 src/ovxx/expr/unary.hpp     | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/binary.hpp b/src/ovxx/expr/binary.hpp
index bb4b930..3bfd954 100644
--- a/src/ovxx/expr/binary.hpp
+++ b/src/ovxx/expr/binary.hpp
@@ -289,7 +289,8 @@ get_local_block(expr::Binary<Operation, Arg1, Arg2, true> const &block)
 		       typename distributed_local_block<Arg2>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()));
 }
 
diff --git a/src/ovxx/expr/ternary.hpp b/src/ovxx/expr/ternary.hpp
index fef5ce6..57386fd 100644
--- a/src/ovxx/expr/ternary.hpp
+++ b/src/ovxx/expr/ternary.hpp
@@ -288,7 +288,8 @@ get_local_block(Ternary<O, B1, B2, B3, true> const &block)
 		  true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()),
 		    get_local_block(block.arg3()));
 }
diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index 7525e91..3cd0829 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -148,7 +148,8 @@ combine(F const &func, Binary<O, B1, B2, E> const &block)
     return_type<F, Binary<O, B1, B2, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()));
 }
 
@@ -193,7 +194,8 @@ combine(F const &func, Ternary<O, B1, B2, B3, E> const &block)
     return_type<F, Ternary<O, B1, B2, B3, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()),
 		    combine(func, block.arg3()));
 }
@@ -249,7 +251,7 @@ combine(F const &func, Unary<O, B, E> const &block)
   typedef typename return_type<F, Unary<O, B, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg()));
+  return block_type(block.operation(), combine(func, block.arg()));
 }
 
 template <typename F,
diff --git a/src/ovxx/expr/unary.hpp b/src/ovxx/expr/unary.hpp
index dceecec..fad0b18 100644
--- a/src/ovxx/expr/unary.hpp
+++ b/src/ovxx/expr/unary.hpp
@@ -199,7 +199,7 @@ get_local_block(expr::Unary<O, B, true> const &block)
   typedef expr::Unary<O, typename distributed_local_block<B>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg()));
+  return block_type(block.operation(), get_local_block(block.arg()));
 }
 
 template <template <typename> class O, typename B>
-- 
2.43.0


From 22f72b717f014575252e31af3bb48d55501b2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 37/58] fix: refuse allocations larger than memory can address

The number of bytes wrapped around, so that a request for more elements than
can be addressed was met with a small piece of memory.
---
 src/ovxx/aligned_array.hpp | 2 ++
 src/ovxx/allocator.hpp     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/ovxx/aligned_array.hpp b/src/ovxx/aligned_array.hpp
index ea91523..cd8995f 100644
--- a/src/ovxx/aligned_array.hpp
+++ b/src/ovxx/aligned_array.hpp
@@ -60,6 +60,8 @@ template <typename T>
 inline T *alloc_align(std::size_t align, std::size_t size)
 {
   void *ptr;
+  if (size > static_cast<std::size_t>(-1) / sizeof(T))
+    throw std::bad_alloc();
 #if HAVE_POSIX_MEMALIGN
   if (posix_memalign(&ptr, align, size*sizeof(T)) != 0)
     throw std::bad_alloc();
diff --git a/src/ovxx/allocator.hpp b/src/ovxx/allocator.hpp
index a821b5a..3012338 100644
--- a/src/ovxx/allocator.hpp
+++ b/src/ovxx/allocator.hpp
@@ -13,6 +13,7 @@
 #include <ovxx/thread.hpp>
 #include <limits>
 #include <cstdlib>
+#include <new>
 #include <stdexcept>
 
 namespace ovxx
@@ -27,6 +28,8 @@ public:
   template <typename T>
   T *allocate(length_type size)
   {
+    if (size > static_cast<size_t>(-1) / sizeof(T))
+      OVXX_DO_THROW(std::bad_alloc());
     return static_cast<T*>(allocate(size * sizeof(T)));
   }
 
-- 
2.43.0


From eff0dd3319a5a4eb3204cd069f3c34fa57d06053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 38/58] fix: excluding nobody from a group leaves the group

---
 src/ovxx/mpi/group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/mpi/group.hpp b/src/ovxx/mpi/group.hpp
index cd43993..b98ddd6 100644
--- a/src/ovxx/mpi/group.hpp
+++ b/src/ovxx/mpi/group.hpp
@@ -89,7 +89,7 @@ Group::include(int *first, int *last)
 template<typename InputIterator>
 Group Group::exclude(InputIterator first, InputIterator last)
 {
-  if (first == last) return Group();
+  if (first == last) return *this;
   std::vector<int> ranks(first, last);
   MPI_Group g;
   OVXX_MPI_CHECK_RESULT(MPI_Group_excl, (*this, ranks.size(), &ranks[0], &g));
-- 
2.43.0


From 441c8c7a9bdef8eb581c43d11dc767ecacb58d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 39/58] fix: send bytes in decreasing order in that order

---
 src/ovxx/mpi/chain_builder.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ovxx/mpi/chain_builder.hpp b/src/ovxx/mpi/chain_builder.hpp
index b7d8b8f..ba578b8 100644
--- a/src/ovxx/mpi/chain_builder.hpp
+++ b/src/ovxx/mpi/chain_builder.hpp
@@ -40,9 +40,7 @@ public:
   template <typename T>
   void add(std::ptrdiff_t offset, int stride, unsigned length)
   {
-    MPI_Datatype vtype;
-    OVXX_MPI_CHECK_RESULT(MPI_Type_vector,
-      (length, 1, stride, Datatype<T>::value(), &vtype));
+    MPI_Datatype vtype = make_vector<T>(stride, length);
     OVXX_MPI_CHECK_RESULT(MPI_Type_commit, (&vtype));
 
     lengths_.push_back(1);
@@ -83,9 +81,7 @@ public:
     alltypes_.push_back(vtype1);
     alltypes_.push_back(vtype0);
 #else
-    MPI_Datatype vtype0;
-    OVXX_MPI_CHECK_RESULT(MPI_Type_vector,
-      (length1, 1, stride1, Datatype<T>::value(), &vtype0));
+    MPI_Datatype vtype0 = make_vector<T>(stride1, length1);
     OVXX_MPI_CHECK_RESULT(MPI_Type_commit, (&vtype0));
 
     for (unsigned i=0; i<length0; ++i)
@@ -129,8 +125,28 @@ public:
 
   bool is_empty() const { return (lengths_.size() == 0); }
 
-  // Private member data.
 private:
+  template <typename T>
+  static MPI_Datatype make_vector(int stride, unsigned length)
+  {
+    MPI_Datatype type;
+    if (sizeof(T) == 1 && stride == -1)
+    {
+      // Open MPI takes a vector of bytes with this stride to be
+      // contiguous, in increasing order.
+      std::vector<int> offsets(length);
+      for (unsigned i=0; i<length; ++i)
+	offsets[i] = -static_cast<int>(i);
+      OVXX_MPI_CHECK_RESULT(MPI_Type_create_indexed_block,
+	(length, 1, offsets.data(), Datatype<T>::value(), &type));
+    }
+    else
+      OVXX_MPI_CHECK_RESULT(MPI_Type_vector,
+	(length, 1, stride, Datatype<T>::value(), &type));
+    return type;
+  }
+
+  // Private member data.
   std::vector<int>		lengths_;
   std::vector<MPI_Aint>		offsets_;
   std::vector<MPI_Datatype>	types_;
-- 
2.43.0


From d7ff549bf38e1aaa43fbd4702ec88015251562af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 40/58] fix: list the processes of a default-constructed
 communicator

---
 src/ovxx/mpi/communicator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ovxx/mpi/communicator.cpp b/src/ovxx/mpi/communicator.cpp
index 6745373..a7bbc64 100644
--- a/src/ovxx/mpi/communicator.cpp
+++ b/src/ovxx/mpi/communicator.cpp
@@ -28,6 +28,13 @@ struct comm_free
 Communicator::Communicator()
 {
   impl_.reset(new MPI_Comm(MPI_COMM_WORLD));
+  int initialized;
+  OVXX_MPI_CHECK_RESULT(MPI_Initialized, (&initialized));
+  if (!initialized) return;
+  length_type s = size();
+  pvec_.resize(s);
+  for (index_type i = 0; i < s; ++i)
+    pvec_[i] = static_cast<processor_type>(i);
 }
 
 Communicator::Communicator(MPI_Comm const & comm, comm_create_kind kind)
-- 
2.43.0


From 9c9db67f06adbd04100d8d6425d4fee8dd992f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 41/58] fix: let processor_set() follow the default
 communicator

---
 src/vsip/impl/parallel.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index 8aa460f..8623398 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -19,23 +19,19 @@ namespace vsip
 
 inline const_Vector<processor_type> processor_set()
 {
-  static Dense<1, processor_type> *pset_block_ = 0;
-
-  if (pset_block_ == 0)
-  {
 #if OVXX_PARALLEL
-    namespace p = ovxx::parallel;
-    p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
-    pset_block_ = new Dense<1, processor_type>(Domain<1>(pvec.size()));
-    for (index_type i=0; i<pvec.size(); ++i)
-      pset_block_->put(i, pvec[i]);
+  // The default communicator may be replaced at any time.
+  namespace p = ovxx::parallel;
+  p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
+  Vector<processor_type> pset(pvec.size());
+  for (index_type i=0; i<pvec.size(); ++i)
+    pset.put(i, pvec[i]);
 #else
-    pset_block_ = new Dense<1, processor_type>(1);
-    pset_block_->put(0, 0);
+  Vector<processor_type> pset(1);
+  pset.put(0, 0);
 #endif
-  }
 
-  return Vector<processor_type>(*pset_block_);
+  return pset;
 }
 
 // [view.support.fcn] parallel support functions
-- 
2.43.0


From eebcb8fb52ef38c08df6891c52ae6b7a3f114c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 42/58] fix: detach the message buffer before freeing it

---
 src/ovxx/mpi/service.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..7628629 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -61,7 +61,18 @@ void finalize(bool final)
   {
     if (finalize_mpi)
       MPI_Finalize();
+    else
+    {
+      // MPI remains in use by the application.
+      int finalized;
+      OVXX_MPI_CHECK_RESULT(MPI_Finalized, (&finalized));
+      void *address;
+      int size;
+      if (!finalized)
+	MPI_Buffer_detach(&address, &size);
+    }
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 2a4d491cdd2c98397e2eef3782d7a4e9447cd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 43/58] fix: create and destroy FFTW plans one thread at a time

FFTW's planner is not thread-safe, so threads creating or destroying Fft
objects of their own at the same time corrupted its state.
---
 src/ovxx/fftw/fft.cpp  | 11 +++++++++++
 src/ovxx/fftw/fftw.cpp | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/fftw/fft.cpp b/src/ovxx/fftw/fft.cpp
index e46d43e..77f2109 100644
--- a/src/ovxx/fftw/fft.cpp
+++ b/src/ovxx/fftw/fft.cpp
@@ -10,6 +10,7 @@
 #include <ovxx/layout.hpp>
 #include <ovxx/aligned_array.hpp>
 #include <vsip/dense.hpp>
+#include <ovxx/thread.hpp>
 #include <fftw3.h>
 
 namespace ovxx
@@ -17,6 +18,16 @@ namespace ovxx
 namespace fftw
 {
 
+// FFTW plans may be executed by several threads at once, but only one
+// thread at a time may create or destroy a plan.
+#if OVXX_ENABLE_THREADING
+std::mutex planner_guard;
+typedef std::lock_guard<std::mutex> planner_lock;
+#define OVXX_FFTW_LOCK_PLANNER planner_lock lock(planner_guard)
+#else
+#define OVXX_FFTW_LOCK_PLANNER
+#endif
+
 // FFTW needs to know the complex storage-format during planning.
 // Since the actual storage-format is only known at execution time,
 // we need to use a best guess, and then require that via query_layout().
diff --git a/src/ovxx/fftw/fftw.cpp b/src/ovxx/fftw/fftw.cpp
index dd42b5b..63f9da9 100644
--- a/src/ovxx/fftw/fftw.cpp
+++ b/src/ovxx/fftw/fftw.cpp
@@ -64,6 +64,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
       dims[i].n = layout.size(i);
       dims[i].is = dims[i].os = layout.stride(i);
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -103,6 +104,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
   }
   ~planner() VSIP_NOTHROW
   {
+    OVXX_FFTW_LOCK_PLANNER;
     FFTW(destroy_plan)(plan_op_);
     FFTW(destroy_plan)(plan_ip_);
   }
@@ -171,6 +173,7 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       SCALAR_TYPE *in = in_buffer_.get();
@@ -188,7 +191,11 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    OVXX_FFTW_LOCK_PLANNER;
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<SCALAR_TYPE> in_buffer_;
   aligned_array<complex<SCALAR_TYPE> > out_buffer_;
@@ -253,6 +260,7 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    OVXX_FFTW_LOCK_PLANNER;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -270,7 +278,11 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW
+  {
+    OVXX_FFTW_LOCK_PLANNER;
+    FFTW(destroy_plan)(plan_);
+  }
 
   aligned_array<complex<SCALAR_TYPE> > in_buffer_;
   aligned_array<SCALAR_TYPE> out_buffer_;
-- 
2.43.0


From 69629b76d23d82731d4e5c59c44de1af33135d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 44/58] fix: serialize the set-up of library objects among
 threads

The first library objects of several threads could initialize MPI and the
process-global state at the same time (or use it before it was ready).
---
 src/ovxx/library.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..2446ae8 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -50,12 +50,12 @@ unsigned int thread_local_count = 0;
 
 void initialize(int &argc, char **&argv)
 {
-  {
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  // Process-global state is initialized by whichever thread comes first,
+  // while others wait.
+  std::unique_lock<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  ++global_count;
   if (thread_local_count++) return;
 
   if (global_count == 1)
@@ -95,6 +95,10 @@ void initialize(int &argc, char **&argv)
 #ifdef OVXX_ENABLE_OMP
   if (global_count == 1)
   {
+#if defined(OVXX_ENABLE_THREADING)
+    // The OpenMP threads initialize themselves.
+    lock.unlock();
+#endif
     // Initialize OpenMP threads
 #pragma omp parallel
     // thread 0 is the main thread, which is already
@@ -120,12 +124,10 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
 #if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
-- 
2.43.0


From f2b540b3ac0759c09510dab51224f3ac824f5348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 45/58] fix: post-increment of processor iterators

The result referred to a temporary, so that using it (*it++) was undefined.
---
 src/ovxx/value_iterator.hpp  | 4 ++--
 src/ovxx/vector_iterator.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/value_iterator.hpp b/src/ovxx/value_iterator.hpp
index cbd7c04..f94f357 100644
--- a/src/ovxx/value_iterator.hpp
+++ b/src/ovxx/value_iterator.hpp
@@ -42,9 +42,9 @@ public:
   value_iterator &operator+=(int dx) { current_ += dx * delta_; return *this;}
   value_iterator &operator-=(int dx) { current_ -= dx * delta_; return *this;}
 
-  value_iterator &operator++(int)
+  value_iterator operator++(int)
   { value_iterator tmp = *this; current_ += delta_; return tmp;}
-  value_iterator &operator--(int)
+  value_iterator operator--(int)
   { value_iterator tmp = *this; current_ -= delta_; return tmp;}
 
   bool operator==(value_iterator const &other) const
diff --git a/src/ovxx/vector_iterator.hpp b/src/ovxx/vector_iterator.hpp
index 379936d..2ea15cc 100644
--- a/src/ovxx/vector_iterator.hpp
+++ b/src/ovxx/vector_iterator.hpp
@@ -28,9 +28,9 @@ public:
   vector_iterator &operator--() { idx_ -= 1; return *this;}
   vector_iterator &operator+=(int dx) { idx_ += dx; return *this;}
   vector_iterator &operator-=(int dx) { idx_ -= dx; return *this;}
-  vector_iterator& operator++(int)
+  vector_iterator operator++(int)
   { vector_iterator tmp = *this; idx_ += 1; return tmp;}
-  vector_iterator& operator--(int)
+  vector_iterator operator--(int)
   { vector_iterator tmp = *this; idx_ -= 1; return tmp;}
 
   bool operator==(vector_iterator const &rhs) const
-- 
2.43.0


From 1fa3279244705556c5624d77611a227743d0d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 46/58] fix: a replicated map needs no temporary views

processor_set() creates a vector at each call; asking for it once per
processor allocates from the current default allocator, and throws where
it runs out, while the map is set up.
---
 src/vsip/impl/replicated_map.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index fe551c1..39cc3b1 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -87,8 +87,14 @@ public:
   Replicated_map() VSIP_THROW((std::bad_alloc))
     : data_(new Data(vsip::num_processors()))
   {
-    for (index_type i=0; i<vsip::num_processors(); ++i)
-      data_->pset.put(i, vsip::processor_set().get(i));
+#if OVXX_PARALLEL
+    ovxx::parallel::Communicator::pvec_type const &pvec =
+      ovxx::parallel::default_communicator().pvec();
+    for (index_type i=0; i<pvec.size(); ++i)
+      data_->pset.put(i, pvec[i]);
+#else
+    data_->pset.put(0, 0);
+#endif
     data_->init_ll_pset();
   }
 
-- 
2.43.0


From 0b3db9750f3e63bded45eb32036000a1bf1b2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 47/58] fix: a subview of a transposed distributed matrix gets
 a map of its own

---
 src/ovxx/parallel/subset_map_decl.hpp | 39 +++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/ovxx/parallel/subset_map_decl.hpp b/src/ovxx/parallel/subset_map_decl.hpp
index a1f5f7b..19f8554 100644
--- a/src/ovxx/parallel/subset_map_decl.hpp
+++ b/src/ovxx/parallel/subset_map_decl.hpp
@@ -22,6 +22,8 @@ namespace ovxx
 {
 namespace parallel
 {
+template <typename M> class transpose_map;
+
 template <dimension_type D>
 class subset_map
 {
@@ -328,6 +330,43 @@ struct map_subdomain<D, subset_map<D> >
   }
 };
 
+// The transpose of a map which is split into subsets is split, too.
+template <dimension_type D, typename M, typename S>
+struct map_subdomain_of_transpose
+{
+  typedef transpose_map<M> type;
+
+  static type project(transpose_map<M> const &map, Domain<D> const &)
+  {
+    return map;
+  }
+};
+
+template <dimension_type D, typename M>
+struct map_subdomain_of_transpose<D, M, subset_map<D> >
+{
+  typedef subset_map<D> type;
+
+  static type project(transpose_map<M> const &map, Domain<D> const &dom)
+  {
+    return type(map, dom);
+  }
+};
+
+template <dimension_type D, typename M>
+struct map_subdomain<D, transpose_map<M> >
+  : map_subdomain_of_transpose<D, M, typename map_subdomain<D, M>::type>
+{
+  // Return the parent subblock corresponding to a child subblock.
+  static index_type parent_subblock(transpose_map<M> const &,
+				    Domain<D> const &,
+				    index_type sb)
+  {
+    assert(0);
+    return sb;
+  }
+};
+
 template <dimension_type D>
 struct is_global_map<subset_map<D> >
 { static bool const value = true;};
-- 
2.43.0


From 5ebcc5e35c616dfdc90ac2b2425cde9accfbf035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 48/58] fix: a transposed block refers to the map of the block
 it holds, not of the one it was made from

---
 src/ovxx/expr/transposed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/transposed.hpp b/src/ovxx/expr/transposed.hpp
index 26c9104..94d955d 100644
--- a/src/ovxx/expr/transposed.hpp
+++ b/src/ovxx/expr/transposed.hpp
@@ -35,12 +35,12 @@ public:
 
   Transposed(Block &block) VSIP_NOTHROW
   : block_(&block),
-    map_(map_functor::project(block.map()))
+    map_(map_functor::project(block_->map())) // 'block' itself may go away.
   { map_.impl_apply(block_domain<dim>(*this));}
 
   Transposed(Transposed const& b)
     : block_(&*b.block_),        // &* work's around holder's lack of copy-cons.
-      map_ (b.map_)
+      map_ (map_functor::project(block_->map()))
   { map_.impl_apply(block_domain<dim>(*this));}
 
     ~Transposed() VSIP_NOTHROW {}
-- 
2.43.0


From f9c896d3b9057a1920df0cfc8e2ff2e5ab56446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 49/58] fix: python: an array made of a block keeps the block

---
 python/src/block_api.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 6e71d7c..c024da9 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -214,15 +214,15 @@ bpl::object construct(bpl::object o)
 }
 
 // Arrays may refer back to a block, in which case
-// the block needs to pin its (host) storage till 
-// the end of the array's lifetime.
+// the block needs to be kept, and to pin its (host) storage,
+// till the end of the array's lifetime.
 template <typename B>
 struct array_backref
 {
-  array_backref(B &b) : b_(b) { b_.ref_ptr();}
-  array_backref(array_backref const &r) : b_(r.b_) { b_.ref_ptr();}
-  ~array_backref() { b_.unref_ptr();}
-  B &b_;
+  array_backref(std::shared_ptr<B> b) : b_(b) { b_->ref_ptr();}
+  array_backref(array_backref const &r) : b_(r.b_) { b_->ref_ptr();}
+  ~array_backref() { b_->unref_ptr();}
+  std::shared_ptr<B> b_;
 };
 
 // Construct an array referencing a block's data.
@@ -254,8 +254,8 @@ template <dimension_type D, typename T>
 bpl::object make_array(bpl::object o)
 {
   typedef Block<D, T> block_type;
-  block_type &block = bpl::extract<block_type &>(o);
-  bpl::handle<PyArrayObject> a = make_array_(block);
+  std::shared_ptr<block_type> block = bpl::extract<std::shared_ptr<block_type> >(o);
+  bpl::handle<PyArrayObject> a = make_array_(*block);
   std::shared_ptr<array_backref<block_type> > lock
     (new array_backref<block_type>(block));
   bpl::object backref(lock);
@@ -413,7 +413,7 @@ void define_block(char const *type_name)
   std::string backref_name(type_name);
   backref_name.append("_backref");
   bpl::class_<backref_type, std::shared_ptr<backref_type>, boost::noncopyable>
-    backref(backref_name.c_str(), bpl::init<block_type&>());
+    backref(backref_name.c_str(), bpl::init<std::shared_ptr<block_type> >());
 
   bpl::class_<block_type, std::shared_ptr<block_type>, boost::noncopyable> 
     block(type_name, bpl::no_init);
-- 
2.43.0


From 8f3e88b3146f3f28744455bbcc25ba48eaf38bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 50/58] fix: python: rows, columns and diagonals of sub-blocks

---
 python/src/block_api.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index c024da9..6236f11 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -300,7 +300,7 @@ template <typename T, typename M>
 bpl::object get_row(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 0);
-  Domain<1> domain(i * b.stride(2, 0), 1, b.size(2, 1));
+  Domain<1> domain(b.offset() + i * b.stride(2, 0), b.stride(2, 1), b.size(2, 1));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
@@ -308,14 +308,14 @@ template <typename T, typename M>
 bpl::object get_col(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 1);
-  Domain<1> domain(i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
+  Domain<1> domain(b.offset() + i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
 template <typename T, typename M>
 bpl::object diag(Block<2, T, M> &b)
 {
-  Domain<1> domain(0, b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
+  Domain<1> domain(b.offset(), b.stride(2, 0) + b.stride(2, 1), std::min(b.size(2, 0), b.size(2, 1)));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
 
-- 
2.43.0


From 4f723f029ce1d647fbe64d16c534e62950b67385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 51/58] fix: python: a row or column that does not exist is an
 error

---
 python/src/block_api.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 6236f11..747424d 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -300,6 +300,7 @@ template <typename T, typename M>
 bpl::object get_row(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 0);
+  OVXX_PRECONDITION(i >= 0 && index_type(i) < b.size(2, 0));
   Domain<1> domain(b.offset() + i * b.stride(2, 0), b.stride(2, 1), b.size(2, 1));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
@@ -308,6 +309,7 @@ template <typename T, typename M>
 bpl::object get_col(Block<2, T, M> &b, int i)
 {
   if (i < 0) i += b.size(2, 1);
+  OVXX_PRECONDITION(i >= 0 && index_type(i) < b.size(2, 1));
   Domain<1> domain(b.offset() + i * b.stride(2, 1), b.stride(2, 0), b.size(2, 0));
   return bpl::object(std::shared_ptr<Block<1, T, M> >(new Block<1, T, M>(b, domain)));
 }
-- 
2.43.0


From cfee25ef7626a164b56875477685de951f6ee040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 52/58] fix: python: casts to numpy types and to int

---
 python/src/_cast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/_cast.cpp b/python/src/_cast.cpp
index 2ef2c51..e1d3961 100644
--- a/python/src/_cast.cpp
+++ b/python/src/_cast.cpp
@@ -34,7 +34,7 @@ bpl::object as_type(bpl::object type, ovxx::python::Block<D, T> const &b)
 #else
     if (type.ptr() == (PyObject*)&PyLong_Type)
 #endif
-      return cast<long>(b);
+      return cast<int>(b);
     else if (type.ptr() == (PyObject*)&PyFloat_Type)
       return cast<double>(b);
     else if (type.ptr() == (PyObject*)&PyComplex_Type)
@@ -55,6 +55,7 @@ bpl::object as_type(bpl::object type, ovxx::python::Block<D, T> const &b)
 
 BOOST_PYTHON_MODULE(_cast)
 {
+  ovxx::python::initialize();
   bpl::def("as_type", as_type<1, int>);
   bpl::def("as_type", as_type<2, int>);
   bpl::def("as_type", as_type<1, float>);
-- 
2.43.0


From c128637bc165f279729e2179219695419a2c85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 53/58] fix: python: the strides of the real and imaginary
 components of a block

---
 src/ovxx/python/block.hpp | 40 ++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 29937f3..05458fd 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -15,6 +15,7 @@
 #include <ovxx/support.hpp>
 #include <vsip/domain.hpp>
 #include <ovxx/layout.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/storage.hpp>
 #include <ovxx/block_traits.hpp>
 #include <ovxx/view.hpp>
@@ -154,32 +155,32 @@ public:
   // the subblock constructor
   sm_proxy(smanager_ptr sm) : parent_(sm) {}
   // the real/imag component constructor
-  sm_proxy(csmanager_ptr sm, bool r) : cparent_(sm), real_(r) {}
+  explicit sm_proxy(csmanager_ptr sm) : cparent_(sm) {}
 
+  // A component is addressed as the reals its complex parent consists of:
+  // 2*i is the real part, 2*i+1 the imaginary part of the i'th element.
   value_type get(index_type i) const
   {
     if (parent_) return parent_->get(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    complex<T> const value = cparent_->get(i / 2);
+    return i % 2 ? value.imag() : value.real();
   }
   void put(index_type i, value_type value)
   {
     if (parent_) parent_->put(i, value);
-    else if (real_) cparent_->at(i) = complex<T>(value, cparent_->at(i).imag());
-    else cparent_->at(i) = complex<T>(cparent_->at(i).real(), value);
+    else if (i % 2) cparent_->at(i / 2).imag(value);
+    else cparent_->at(i / 2).real(value);
   }
   reference_type at(index_type i)
   {
     if (parent_) return parent_->at(i);
-    else if (real_) return cparent_->at(i).real();
-    else return cparent_->at(i).imag();
+    else return reinterpret_cast<T*>(&cparent_->at(i / 2))[i % 2];
   }
   
   ptr_type ptr()
   {
     if (parent_) return parent_->ptr();
-    else if (real_) return reinterpret_cast<T*>(cparent_->ptr());
-    else return reinterpret_cast<T*>(cparent_->ptr()) + 1;
+    else return reinterpret_cast<T*>(cparent_->ptr());
   }
 #if OVXX_HAVE_OPENCL
   opencl::buffer buffer()
@@ -191,7 +192,6 @@ public:
 private:
   smanager_ptr parent_;
   csmanager_ptr cparent_;
-  bool real_;
 };
 
 template <typename T,
@@ -277,9 +277,9 @@ public:
   // construct a real or imaginary component block from a complex
   // parent block
   Block(Block<D, complex<T> > &parent, bool real)
-    : offset_(parent.offset_),
-      layout_(parent.layout_),
-      smanager_(new smanager_type(parent.smanager_, real)),
+    : offset_(2 * parent.offset_ + !real),
+      layout_(component_domain(parent)),
+      smanager_(new smanager_type(parent.smanager_)),
       array_refcount_(0)
   {}
 
@@ -420,6 +420,20 @@ public:
   }
 
 private:
+  // the physical coordinates of the components of a complex block
+  static Domain<dim> component_domain(Block<D, complex<T> > const &parent)
+  {
+    Domain<1> dom[dim];
+    for (dimension_type d = 0; d != dim; ++d)
+    {
+      stride_type const stride = 2 * parent.stride(dim, d);
+      length_type const size = parent.size(dim, d);
+      // Only the stride and the size matter, but a domain has no negative indices.
+      dom[d] = Domain<1>(stride < 0 && size ? -stride * (size - 1) : 0, stride, size);
+    }
+    return construct_domain<dim>(dom);
+  }
+
   length_type offset_;
   applied_layout_type layout_;
   std::shared_ptr<smanager_type> smanager_;
-- 
2.43.0


From aeaab3a422e3fbefdd3cc28b1c30e103d6de1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 54/58] fix: python: the elements of a strided block by
 reference

---
 src/ovxx/python/block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index 05458fd..b5a0fd9 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -344,12 +344,12 @@ public:
   reference_type ref(index_type i) VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   const_reference_type ref(index_type i) const VSIP_NOTHROW
   {
     OVXX_PRECONDITION(i < size());
-    return smanager_->at(offset_ + i);
+    return smanager_->at(offset_ + layout_.index(i));
   }
   reference_type ref(index_type i, index_type j)
   {
-- 
2.43.0


From 1b62a08f056574991e4232fbf6375f014e24186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 55/58] fix: python: a block destroyed while an exception is
 pending

---
 src/ovxx/python/block.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/python/block.hpp b/src/ovxx/python/block.hpp
index b5a0fd9..6349b0c 100644
--- a/src/ovxx/python/block.hpp
+++ b/src/ovxx/python/block.hpp
@@ -46,14 +46,23 @@ namespace bpl = boost::python;
 // Send all traces from OVXX_TRACE to the Python logger
 inline void trace(char const *format, ...)
 {
-  bpl::object logging = bpl::import("logging");
-  bpl::object info = logging.attr("info");
   va_list args;
   char msg[128];
   va_start(args, format);
   vsnprintf(msg, sizeof(msg), format, args);
   va_end(args);
-  info(msg);
+  // Traces are also sent by destructors, and while a Python exception
+  // is pending: keep it, and don't let the logger's escape.
+  PyObject *type, *value, *traceback;
+  PyErr_Fetch(&type, &value, &traceback);
+  try
+  {
+    bpl::object logging = bpl::import("logging");
+    bpl::object info = logging.attr("info");
+    info(msg);
+  }
+  catch (bpl::error_already_set const &) { PyErr_Clear();}
+  PyErr_Restore(type, value, traceback);
 }
 
 namespace
-- 
2.43.0


From d0ee5d67cc198be199bf37b468cc8153740a66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:42 +0000
Subject: [PATCH 56/58] fix: python: a sub-block of a block with a negative
 column stride

---
 python/src/block_api.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 747424d..05b48b0 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -291,9 +291,15 @@ template <typename T, typename M>
 bpl::object subblock2(Block<2, T, M> &b, bpl::slice i, bpl::slice j)
 {
   Domain<1> domi = slice_to_domain(i, b.offset(), b.stride(2, 0), b.size(2, 0));
-  Domain<1> domj = slice_to_domain(j, 0, b.stride(2, 1), b.size(2, 1));
+  // With a negative stride, the second dimension's part of the offset
+  // has to reach as far as its elements do.
+  stride_type const stride = b.stride(2, 1);
+  length_type const size = b.size(2, 1);
+  index_type const base = stride < 0 && size ? -stride * (size - 1) : 0;
+  Domain<1> domj = slice_to_domain(j, base, stride, size);
+  Domain<1> dom0(domi.first() - base, domi.stride(), domi.length());
   return bpl::object(std::shared_ptr<Block<2, T, M> >(new Block<2, T, M>
-    (b, Domain<2>(domi, domj))));
+    (b, Domain<2>(dom0, domj))));
 }
 
 template <typename T, typename M>
-- 
2.43.0


From 785415bea2c11c6d506b782a0b43d8e594fa40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 57/58] fix: python: name the triangles a Cholesky
 decomposition can be made of

---
 python/src/math/types.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/math/types.cpp b/python/src/math/types.cpp
index c5e1e3a..2cd9836 100644
--- a/python/src/math/types.cpp
+++ b/python/src/math/types.cpp
@@ -7,6 +7,7 @@
 
 #include <ovxx/python/block.hpp>
 #include <vsip/math.hpp>
+#include <vsip/solvers.hpp>
 
 BOOST_PYTHON_MODULE(types)
 {
@@ -22,6 +23,10 @@ BOOST_PYTHON_MODULE(types)
   product_side.value("lside", vsip::mat_lside);
   product_side.value("rside", vsip::mat_rside);
 
+  bpl::enum_<vsip::mat_uplo> uplo("uplo");
+  uplo.value("lower", vsip::lower);
+  uplo.value("upper", vsip::upper);
+
   bpl::enum_<vsip::storage_type> storage("storage");
   storage.value("qrd_nosaveq", vsip::qrd_nosaveq);
   storage.value("qrd_saveq1", vsip::qrd_saveq1);
-- 
2.43.0


From 5a012beb21517705a8c7ca2ead0659600d576b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:28 +0000
Subject: [PATCH 58/58] fix: python: a slice that isn't one is an error

---
 python/src/block_api.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/block_api.hpp b/python/src/block_api.hpp
index 05b48b0..f3b7c1b 100644
--- a/python/src/block_api.hpp
+++ b/python/src/block_api.hpp
@@ -277,6 +277,8 @@ inline Domain<1> slice_to_domain(bpl::slice s, index_type offset, stride_type st
   int status = PySlice_GetIndicesEx(s.ptr(), size,
 				    &start, &stop, &step, &length);
 #endif
+  // For instance a step of zero.
+  if (status < 0) throw bpl::error_already_set();
   return Domain<1>(offset + start*stride, step*stride, length);
 }
 
-- 
2.43.0

