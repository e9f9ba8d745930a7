From f13158878b56defff8c475d57ba2c3a799b8fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:46 +0000
Subject: [PATCH 001/107] fix: CoeffMatrix2D move assignment leaks the memory
 it owns

The array held by the left hand side was overwritten without being freed
(e.g. on every A = x*B + y*C), and self-move dropped the data.
---
 include/coeff_matrix_2d.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 62605f5..5d035bb 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -416,12 +416,17 @@ public:
 
   /** Move Assignment operator */
   CoeffMatrix2D &operator=(CoeffMatrix2D &&mat) noexcept {
-    m_data = mat.m_data;
-    m_storage.__set_dimensions(mat.rows(), mat.cols());
-    _capacity = mat._capacity;
-    mat.m_data = nullptr;
-    mat.m_storage.__set_dimensions(0, 0);
-    mat._capacity = 0;
+    if (this != &mat) {
+      /* release the memory currently owned (if any) */
+      if (m_data)
+        delete[] m_data;
+      m_data = mat.m_data;
+      m_storage.__set_dimensions(mat.rows(), mat.cols());
+      _capacity = mat._capacity;
+      mat.m_data = nullptr;
+      mat.m_storage.__set_dimensions(0, 0);
+      mat._capacity = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From d7275ab0ba8b144f28ca8c64f6983a9bc3373d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:46 +0000
Subject: [PATCH 002/107] fix: copying an empty CoeffMatrix2D calls memcpy on a
 null pointer

---
 include/coeff_matrix_2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 5d035bb..ace41f5 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -363,7 +363,8 @@ public:
   CoeffMatrix2D(const CoeffMatrix2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]),
         _capacity(mat.num_elements()) {
-    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    if (mat.num_elements())
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   /** Move constructor */
@@ -408,7 +409,8 @@ public:
         m_data = new double[mat.num_elements()];
         _capacity = mat.num_elements();
       }
-      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      if (mat.num_elements())
+        std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.__set_dimensions(mat.rows(), mat.cols());
     }
     return *this;
-- 
2.43.0


From 3040eb612adbdbc397e789b91269c94d81efc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:46 +0000
Subject: [PATCH 003/107] fix: StokesCoeffs(n, 0) is an expansion of order 0,
 not n

Only the default (negative) order means order=degree; also affects
StokesCoeffs::from_anm(anm, 0).
---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f2c3f1f..5ba9574 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -133,7 +133,7 @@ public:
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
       : _GM(GM), _Re(Re), _cnormalized(true), m_degree(n), 
-        m_order((m > 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
+        m_order((m >= 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
 
   /* @brief Resize to new degree/order, deleting currrent data.
    *
-- 
2.43.0


From 5e2c91bbddd46160174971c09966a211c182e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:46 +0000
Subject: [PATCH 004/107] fix: StokesCoeffs::scale ignores degree 0 expansions

---
 include/stokes_coefficients.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 5ba9574..2c6b284 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -199,10 +199,8 @@ public:
 
   /** scale the Cnm and Snm coefficients */
   void scale(double factor) noexcept {
-    if (m_degree) {
-      _Cnm.multiply(factor);
-      _Snm.multiply(factor);
-    }
+    _Cnm.multiply(factor);
+    _Snm.multiply(factor);
   }
 
   /** get the Cnm coefficient */
-- 
2.43.0


From 26c79e4ed08c69a09c71af13488dea32457b575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:07 +0000
Subject: [PATCH 005/107] fix: Legendre functions written past the last column
 of Pnm

For max_order==max_degree there is no P(m+1,m) term for the last column;
it was stored one past the end of a Pnm of the documented size. The same
goes for P(1,1) and an expansion of degree/order 0.
---
 src/lib/gravity/forward_column_alf.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 2e7731b..9beee45 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -33,7 +33,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   /* loop through columns, m=[0,max_order) */
   for (int m = 0; m < max_order; m++) {
@@ -54,7 +55,9 @@ int dso::normalised_associated_legendre_functions(
   /* last column, m=max_order */
   int m = max_order;
   double *__restrict__ pmm = P.column(m);
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
+  /* P(m+1,m) only exists if order is less than degree */
+  if (max_degree > m)
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
@@ -77,7 +80,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   const double uinv = 1e0/u;
   /* loop through columns, m=[0,max_order) */
@@ -108,8 +112,10 @@ int dso::normalised_associated_legendre_functions(
   /* sectorial of derivative, n=m */
   dpmm[0] = m * (t/u) * pmm[0];
   /* first value from sectorial, n=m+1*/
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
-  dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  if (max_degree > m) {
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
+    dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  }
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
-- 
2.43.0


From 40a2d83349d74e0058555b8fdb66cbe59cd0dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:07 +0000
Subject: [PATCH 006/107] fix: int overflow in Legendre recursion factors

The products are of order 2n^3, i.e. overflow an int for degrees above
about 1023 (garbage or NaN Pnm values).
---
 src/lib/gravity/forward_column_alf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 9beee45..2fb70d2 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -8,13 +8,13 @@ inline double anm(int n, int m) noexcept {
 }
 
 inline double bnm(int n, int m) noexcept {
-  long b1 = (2*n+1)*(n+m-1)*(n-m-1);
-  long b2 = (n-m)*(n+m)*(2*n-3);
+  long b1 = (2L*n+1)*(n+m-1)*(n-m-1);
+  long b2 = (long)(n-m)*(n+m)*(2*n-3);
   return std::sqrt( (double)b1 / (double)b2 );
 }
 
 inline double fnm(int n, int m) noexcept {
-  long f1 = (n * n - m * m) * (2 * n + 1);
+  long f1 = ((long)n * n - (long)m * m) * (2 * n + 1);
   long f2 = 2 * n - 1;
   return std::sqrt((double)f1 / (double)f2);
 }
-- 
2.43.0


From a7a2579f0b2c3b5b89fd7ac43f6e2308fc4a4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 007/107] fix: sh2gradient_cunningham scratch space is one
 row/column short

M and W are filled up to degree/order max_degree+2 (inclusive), hence need
max_degree+3 rows/columns; with the memory allocated here, the function
asserted (Debug) or wrote past the end of the heap block (Release).
---
 include/gravity.hpp                           |  4 ++--
 .../sh_cunningham_normalized_gradient.cpp     | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/gravity.hpp b/include/gravity.hpp
index 6a5f82a..3be1e71 100644
--- a/include/gravity.hpp
+++ b/include/gravity.hpp
@@ -136,11 +136,11 @@ int normalised_associated_legendre_functions(
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2).
+ *                matrix off dimensions at least (max_degree+3, max_degree+3).
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @return        Anything other than zero denotes an error.
diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d349050..2adea1c 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -65,9 +65,9 @@ struct NormalizedLegendreFactors {
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  */
 int sh2gradient_cunningham_impl(
     const dso::StokesCoeffs &cs, const Eigen::Matrix<double, 3, 1> &r,
@@ -89,10 +89,10 @@ int sh2gradient_cunningham_impl(
   assert(cs.max_degree() >= cs.max_order());
   assert(max_degree <= cs.max_degree());
   assert(max_order <= cs.max_order());
-  assert(W.rows() >= max_degree + 2);
-  assert(W.cols() >= max_degree + 2);
-  assert(M.rows() >= max_degree + 2);
-  assert(M.cols() >= max_degree + 2);
+  assert(W.rows() >= max_degree + 3);
+  assert(W.cols() >= max_degree + 3);
+  assert(M.rows() >= max_degree + 3);
+  assert(M.cols() >= max_degree + 3);
 #endif
 
   /* Factors up to degree/order MAX_SIZE_FOR_ALF_FACTORS. Constructed only on
@@ -426,18 +426,18 @@ int dso::sh2gradient_cunningham(
   int delete_mem_pool[] = {0, 0};
   if (!W) {
     W = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[0] = 1;
   }
   if (!M) {
     M = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[1] = 1;
   }
 
   /* check scratch space */
-  if ((W->rows() < max_degree + 2) || (W->cols() < max_degree + 2) ||
-      (M->rows() < max_degree + 2) || (M->cols() < max_degree + 2)) {
+  if ((W->rows() < max_degree + 3) || (W->cols() < max_degree + 3) ||
+      (M->rows() < max_degree + 3) || (M->cols() < max_degree + 3)) {
     fprintf(stderr,
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
-- 
2.43.0


From 698e270b126a8603465544d792cb56a98f5f13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 008/107] fix: wrong SH gradient/acceleration when max_order <
 max_degree

M and W of order max_order+2 were only computed for the sectorial term,
so the gradient missed contributions for all n > max_order; besides, the
order 1 terms were always added, even for max_order=0.
---
 .../gravity/sh_cunningham_normalized_gradient.cpp    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 2adea1c..4450104 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -152,6 +152,16 @@ int sh2gradient_cunningham_impl(
       const int m = order + 2;
       M(m, m) = F.f1(m, m) * (x * M(m - 1, m - 1) - y * W(m - 1, m - 1));
       W(m, m) = F.f1(m, m) * (y * M(m - 1, m - 1) + x * W(m - 1, m - 1));
+
+      /* there are more terms in this column, if order < degree */
+      if (m + 1 <= degree + 2) {
+        M(m + 1, m) = F.f1(m + 1, m) * z * M(m, m);
+        W(m + 1, m) = F.f1(m + 1, m) * z * W(m, m);
+      }
+      for (int n = m + 2; n <= degree + 2; n++) {
+        M(n, m) = F.f1(n, m) * z * M(n - 1, m) + F.f2(n, m) * rr * M(n - 2, m);
+        W(n, m) = F.f1(n, m) * z * W(n - 1, m) + F.f2(n, m) * rr * W(n - 2, m);
+      }
     }
 
     //M.multiply(1e-280);
@@ -250,7 +260,7 @@ int sh2gradient_cunningham_impl(
   } /* loop over m */
 
   /* order m = 1 (begin summation from smaller terms) */
-  for (int n = degree; n >= 1; --n) {
+  for (int n = (order >= 1) ? degree : 0; n >= 1; --n) {
     const int m = 1;
     {
       /* acceleration
-- 
2.43.0


From ee48d4a7c9a3db58d7db27e661af99fba37e7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 009/107] fix: sh2gradient_cunningham error paths

Return an error (as documented) for degrees larger than the static factors
instead of aborting (Debug) or reading past them (Release); do not leak the
scratch space when the one given by the caller is too small.
---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 4450104..11e3785 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -82,7 +82,7 @@ int sh2gradient_cunningham_impl(
             "[ERROR] (Static) Size for NormalizedLegendreFactors must be "
             "augmented to perform computation (traceback: %s)\n",
             __func__);
-    assert(false);
+    return 1;
   }
 
 #ifdef DEBUG
@@ -452,6 +452,10 @@ int dso::sh2gradient_cunningham(
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
             __func__);
+    if (delete_mem_pool[0])
+      delete W;
+    if (delete_mem_pool[1])
+      delete M;
     return 1;
   }
 
-- 
2.43.0


From 1edb280edb88af1bb366afdfd1c06e97b4dff0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 010/107] fix: TwoDimGrid::xyindex2node for grids with X as
 leading axis

---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 777c8f7..f0863e4 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -84,7 +84,7 @@ public:
   Node xyindex2node(long index) const noexcept {
     if constexpr (LeadingAxis == GridAxis::X) {
       long xi = index / mypts;
-      long yi = index - xi * mxpts;
+      long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
       int yi = index / mxpts;
-- 
2.43.0


From c5278cae003aff45d16ccabb6435f852bfaa43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 011/107] fix: TwoDimGrid::surrounding_nodes of a point outside
 the grid

The -1 markers were overwritten by (valid looking) node indexes.
---
 include/grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index f0863e4..92d2bef 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -96,8 +96,10 @@ public:
   void surrounding_nodes(double x, double y, long &idx_bl, long &idx_br,
                          long &idx_tl, long &idx_tr) const noexcept {
     idx_bl = line(x, y);
-    if (idx_bl < 0)
+    if (idx_bl < 0) {
       idx_bl = idx_br = idx_tl = idx_tr = -1;
+      return;
+    }
     surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
   }
 
-- 
2.43.0


From 9e29c496f2f9021ef46ff0ccd99982597452d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 012/107] fix: Clock name buffer overflow for names longer than
 23 chars

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index be849cd..5e7c848 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -26,7 +26,7 @@ struct Clock {
     return get_total_duration<T>().count() / msamples;
   }
 
-  Clock(const char *n) { std::strcpy(mname, n); }
+  Clock(const char *n) { std::strncpy(mname, n, sizeof(mname) - 1); }
 
   Clock(const Clock &other) {
     start_time = other.start_time;
-- 
2.43.0


From c2beef671e5691cc84987316b2cff11bbd26bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 013/107] fix: Clock::average_running_time divides by zero
 without samples

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index 5e7c848..2c4e299 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -23,7 +23,7 @@ struct Clock {
   }
   template <typename T = std::chrono::microseconds>
   double average_running_time() const {
-    return get_total_duration<T>().count() / msamples;
+    return msamples ? get_total_duration<T>().count() / msamples : 0e0;
   }
 
   Clock(const char *n) { std::strncpy(mname, n, sizeof(mname) - 1); }
-- 
2.43.0


From b26385e8f4f7722b2794f9eafb1cce4eff3ab29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 014/107] fix: Clock::average_running_time truncates to an
 integer

The quotient was computed with integer division and only then converted to
the (double) result, so e.g. is_faster could not tell 1.2 from 1.9 usec.
---
 include/clock.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index 2c4e299..33dc361 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -23,7 +23,9 @@ struct Clock {
   }
   template <typename T = std::chrono::microseconds>
   double average_running_time() const {
-    return msamples ? get_total_duration<T>().count() / msamples : 0e0;
+    return msamples
+               ? static_cast<double>(get_total_duration<T>().count()) / msamples
+               : 0e0;
   }
 
   Clock(const char *n) { std::strncpy(mname, n, sizeof(mname) - 1); }
-- 
2.43.0


From ec122491d85a2f5d8b28bf598c73b153221b463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 015/107] fix: int overflow in TwoDimGrid index of large grids

The index is a long, but was computed as an int product.
---
 include/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 92d2bef..460b6d8 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -27,8 +27,8 @@ private:
   }
 
   long xyindex(double xpts, double ypts) const noexcept {
-    auto xidx = xindex(xpts);
-    auto yidx = yindex(ypts);
+    const long xidx = xindex(xpts);
+    const long yidx = yindex(ypts);
     if constexpr (LeadingAxis == GridAxis::X) {
       return xidx * mypts + yidx;
     } else {
-- 
2.43.0


From 08d63061cdcbc3005d1f7adf3547e7cf47884435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 016/107] fix: StokesCoeffs::from_anm leaves S(n,0)
 uninitialised

S(n,0) is not part of the packed matrix since it is assumed to be zero; the
reconstructed instance held random values there.
---
 include/stokes_coefficients.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 2c6b284..1f553fe 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -282,6 +282,8 @@ public:
     int max_degree = anm.rows()-1;
     StokesCoeffs cs(max_degree, max_order);
     for (int m = 0; m <= max_degree; m++) {
+        /* not stored in anm, zero by definition */
+        cs.S(m,0) = 0e0;
         for (int l=0; l<m; l++) {
           cs.S(m,l+1) = anm(l,m);
         // (1,1) -> (0,1) m = 1
-- 
2.43.0


From e639ddfa0d7ad557795e3aedf90180914fd3d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 017/107] fix: int overflow in TwoDimGrid::xyindex2node of
 large grids

The X-leading variant already uses long.
---
 include/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 460b6d8..51df44a 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -87,8 +87,8 @@ public:
       long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
-      int yi = index / mxpts;
-      int xi = index - yi * mxpts;
+      long yi = index / mxpts;
+      long xi = index - yi * mxpts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     }
   }
-- 
2.43.0


From 0a9dcf3ef70ed60eb9787a10d3522f425c823b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 018/107] fix: top-right node of TwoDimGrid::surrounding_nodes
 with X as leading axis

The top-right node is one past the bottom-right one, not one past the
top-left one, when values are stored along Y for each X.
---
 include/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 51df44a..0688121 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -48,7 +48,7 @@ private:
     if constexpr (LeadingAxis == GridAxis::X) {
       idx_br = idx_bl + mypts;
       idx_tl = idx_bl + 1;
-      idx_tr = idx_tl + 1;
+      idx_tr = idx_br + 1;
     } else {
       idx_br = idx_bl + 1;
       idx_tl = idx_bl + mxpts;
-- 
2.43.0


From f160d1cc60a76391d546b7aa749094affa54da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 019/107] fix: match_ocean_tide_wave is defined outside the
 namespace it is declared in

---
 src/lib/doodson/match_tadal_constituents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/doodson/match_tadal_constituents.cpp b/src/lib/doodson/match_tadal_constituents.cpp
index c4cccbd..07dcfe1 100644
--- a/src/lib/doodson/match_tadal_constituents.cpp
+++ b/src/lib/doodson/match_tadal_constituents.cpp
@@ -7,7 +7,7 @@
 #endif
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const char *wave) noexcept {
+dso::detail::match_ocean_tide_wave(const char *wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     const char *a = w.name();
     const char *b = wave;
@@ -18,7 +18,7 @@ match_ocean_tide_wave(const char *wave) noexcept {
 }
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
+dso::detail::match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     if (wave == w._d) return &w;
   }
-- 
2.43.0


From af80312f20f7885494ed4e8165165d44fb908c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 020/107] fix: TidalWave with an unterminated name or
 uninitialised period and height

---
 include/doodson.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index f25a0ec..54aac1b 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -484,8 +484,8 @@ match_ocean_tide_wave(const char *wave) noexcept;
 // https://stackoverflow.com/questions/68795092/how-to-copy-a-built-in-array-via-copy-constructor
 class TidalWave {
   DoodsonConstituent _d;
-  double _per;            /* period in [deg/hour] */
-  double _hf;             /* height */
+  double _per{0e0};       /* period in [deg/hour] */
+  double _hf{0e0};        /* height */
   char _n[detail::MAX_CHARS_TIDAL_WAVE]={'\0'}; /* name */
 
 public:
@@ -507,7 +507,7 @@ public:
   TidalWave(const DoodsonConstituent &d, double per=0, double hf=0,
             const char *name=nullptr) noexcept
       : _d(d), _per(per), _hf(hf) {
-    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE);
+    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE - 1);
   }
 }; /* TidalWave */
 
-- 
2.43.0


From 852f58241adbdcd441e63b15bc78d7faa2787bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 021/107] fix: L2 listed with the frequency of N2

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index 54aac1b..fc0d739 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -413,7 +413,7 @@ constexpr static std::array<TidalConstituentArrayEntry, 18>
           28.439729500000, 0.00, "N2"},
           /* extraced from [3] Table 5.1 */
          {/*265.455*/ DoodsonConstituent(2, 1, 0, -1, 0, 0, +2.0e+00), 
-          28.439729500000, 0.00, "L2"},
+          29.528478920000, 0.00, "L2"},
          {/*381.555*/ DoodsonConstituent(3, 3, -4, 0, 0, 0, +0.0e+00),
           44.958935590000, 0.00, "T3"},
           /* S3: the pifactor here is found by trial-and-error using COST-G
-- 
2.43.0


From b8742a28d4127242ea74eb8e2da149243f2d7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 022/107] fix: resolve_iers10_doodson_string accepts anything
 and reads past its input

---
 .../resolve_iers2010_doodson_string.cpp       | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lib/doodson/resolve_iers2010_doodson_string.cpp b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
index db95d02..206a1c9 100644
--- a/src/lib/doodson/resolve_iers2010_doodson_string.cpp
+++ b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
@@ -11,20 +11,17 @@ dso::DoodsonConstituent dso::resolve_iers10_doodson_string(const char *cstr) {
   while (*str && *str == ' ')
     ++str;
 
-  ints[0] = *str++ - '0';
-  ints[1] = (*str++ - '0') - 5;
-  ints[2] = (*str++ - '0') - 5;
-  if (*str != '.')
-    error = 1;
-  
-  ++str;
-  ints[3] = (*str++ - '0') - 5;
-  ints[4] = (*str++ - '0') - 5;
-  ints[5] = (*str++ - '0') - 5;
-
-  for (int i = 0; i < 6; i++)
-    if (ints[i] < -9 || ints[i] > 9)
-      error += 1;
+  /* expect 'ddd.ddd'; never read past the first unexpected character */
+  for (int i = 0, j = 0; i < 7 && !error; i++, str++) {
+    if (i == 3) {
+      error = (*str != '.');
+    } else if (*str >= '0' && *str <= '9') {
+      ints[j] = (*str - '0') - (j ? 5 : 0);
+      ++j;
+    } else {
+      error = 1;
+    }
+  }
 
   if (error) {
     fprintf(stderr,
-- 
2.43.0


From 260ee91fee0c349db837a8fc655c592ac22220f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 023/107] fix: derivatives of the fundamental arguments

---
 include/fundarg.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 1dda1fd..132797d 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -75,7 +75,8 @@ inline double fal03(double t) noexcept {
 inline double dfal03(double t) noexcept {
   const double a =
       dso::sec2rad(1717915923.2178e0 +
-                   t * (31.8792e0 + t * (0.051635e0 + t * (-0.00024470e0))));
+                   t * (2e0 * 31.8792e0 +
+                        t * (3e0 * 0.051635e0 + t * 4e0 * (-0.00024470e0))));
   return a;
 }
 
@@ -105,7 +106,8 @@ inline double falp03(double t) noexcept {
 inline double dfalp03(double t) noexcept {
   const double a =
       dso::sec2rad(129596581.0481e0 +
-                   t * (-0.5532e0 + t * (0.000136e0 + t * (-0.00001149e0))));
+                   t * (2e0 * (-0.5532e0) +
+                        t * (3e0 * 0.000136e0 + t * 4e0 * (-0.00001149e0))));
   return a;
 }
 
@@ -136,7 +138,8 @@ inline double faf03(double t) noexcept {
 inline double dfaf03(double t) noexcept {
   const double a =
       dso::sec2rad(1739527262.8478e0 +
-                   t * (-12.7512e0 + t * (-0.001037e0 + t * (0.00000417e0))));
+                   t * (2e0 * (-12.7512e0) +
+                        t * (3e0 * (-0.001037e0) + t * 4e0 * (0.00000417e0))));
   return a;
 }
 
@@ -170,7 +173,8 @@ inline double fad03(double t) noexcept {
 inline double dfad03(double t) noexcept {
   const double a =
       dso::sec2rad(1602961601.2090e0 +
-                   t * (-6.3706e0 + t * (0.006593e0 + t * (-0.00003169e0))));
+                   t * (2e0 * (-6.3706e0) +
+                        t * (3e0 * 0.006593e0 + t * 4e0 * (-0.00003169e0))));
   return a;
 }
 
@@ -201,7 +205,8 @@ inline double faom03(double t) noexcept {
 inline double dfaom03(double t) noexcept {
   const double a =
       dso::sec2rad(-6962890.5431e0 +
-                   t * (7.4722e0 + t * (0.007702e0 + t * (-0.00005939e0))));
+                   t * (2e0 * 7.4722e0 +
+                        t * (3e0 * 0.007702e0 + t * 4e0 * (-0.00005939e0))));
   return a;
 }
 
@@ -367,7 +372,7 @@ inline double faf03(const dso::MjdEpoch &tt) noexcept {
 
 /* @brief Overload of dfaf03 using a MjdEpoch */
 inline double dfaf03(const dso::MjdEpoch &tt) noexcept {
-  return iers2010::faf03(tt.jcenturies_sinceJ2000());
+  return iers2010::dfaf03(tt.jcenturies_sinceJ2000());
 }
 
 /* @brief Overload of fad03 using a MjdEpoch */
-- 
2.43.0


From 860602e535a871dda6988f689d9a29901d7f45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 024/107] fix: time derivative of GMST

---
 src/lib/iau/dgmst.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/iau/dgmst.cpp b/src/lib/iau/dgmst.cpp
index 47e1829..4d34bff 100644
--- a/src/lib/iau/dgmst.cpp
+++ b/src/lib/iau/dgmst.cpp
@@ -6,12 +6,14 @@ double dso::dgmst(const dso::MjdEpoch &tt) noexcept {
   const double b =
       dso::sec2rad(
           4612.156534e0 +
-          (1.3915817e0 +
-           (-0.00000044e0 + (-0.000029956e0 + (-0.0000000368e0) * t) * t) * t) *
+          (2e0 * 1.3915817e0 +
+           (3e0 * -0.00000044e0 +
+            (4e0 * -0.000029956e0 + (5e0 * -0.0000000368e0) * t) * t) *
+               t) *
               t) /
       36525e0;
   constexpr const double t2pi = dso::detail::AngleUnitTraits<
       dso::detail::AngleUnit::Radians>::full_circle();
-  const double a = t2pi * 2e0 * 1.00273781191135448;
+  const double a = t2pi * 1.00273781191135448;
   return a + b;
 }
-- 
2.43.0


From e73d546d0d2f9e9fde9ef9cf630e656f5b59cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 025/107] fix: coefficient of the (0,0,0,0,1) t-term in the X
 series of Table 5.2a

---
 src/lib/iau/xcip06a.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/iau/xcip06a.cpp b/src/lib/iau/xcip06a.cpp
index 6ca78eb..3b0ea47 100644
--- a/src/lib/iau/xcip06a.cpp
+++ b/src/lib/iau/xcip06a.cpp
@@ -6283,7 +6283,7 @@ constexpr const std::array<XYCipSeriesData, 253> X1Series = {
       {+0, +0, +2, -2, +2, +0, +0, +0, +0, +0, +0, +0, +0, +0}},
      /* 1307*/
      {-3.309730000e+03,
-      +2.058331e+05,
+      +2.0583311e+05,
       {+0, +0, +0, +0, +1, +0, +0, +0, +0, +0, +0, +0, +0,
        +0}}}}; /* X1Series */
 
-- 
2.43.0


From 296fda8c03dddf7ed1c6768758b3c56a1d2bc545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 026/107] fix: DoodsonConstituent::from_chars reads past
 strings that are too short

---
 src/lib/doodson/doodson_from_chars.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/doodson/doodson_from_chars.cpp b/src/lib/doodson/doodson_from_chars.cpp
index a84c7bb..83e339a 100644
--- a/src/lib/doodson/doodson_from_chars.cpp
+++ b/src/lib/doodson/doodson_from_chars.cpp
@@ -3,13 +3,10 @@
 #include <stdexcept>
 
 dso::DoodsonConstituent dso::DoodsonConstituent::from_chars(const char *cstr) {
-  int ints[6] = {
-    dso::DoodsonConstituent::char2int(cstr[0]),
-    dso::DoodsonConstituent::char2int(cstr[1])-5,
-    dso::DoodsonConstituent::char2int(cstr[2])-5,
-    dso::DoodsonConstituent::char2int(cstr[4])-5,
-    dso::DoodsonConstituent::char2int(cstr[5])-5,
-    dso::DoodsonConstituent::char2int(cstr[6])-5};
+  /* one character at a time, never past one that is not valid */
+  int ints[6];
+  for (int i = 0; i < 3; i++)
+    ints[i] = dso::DoodsonConstituent::char2int(cstr[i]) - (i ? 5 : 0);
 
   if (cstr[3]!='.') {
     fprintf(stderr,
@@ -19,5 +16,8 @@ dso::DoodsonConstituent dso::DoodsonConstituent::from_chars(const char *cstr) {
     throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
   }
 
+  for (int i = 3; i < 6; i++)
+    ints[i] = dso::DoodsonConstituent::char2int(cstr[i + 1]) - 5;
+
   return dso::DoodsonConstituent(ints);
 }
-- 
2.43.0


From 861322ab0a1b9b9bf9ec7a56aa34c6b55b923de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 027/107] fix: EopSeries dereferences dangling iterators after
 push_back, clear or a copy

---
 include/eop.hpp                        |  7 ++-----
 src/lib/eop/approx_dut1.cpp            | 16 +++++-----------
 src/lib/eop/lagrange_interpolation.cpp | 16 +++++-----------
 3 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/include/eop.hpp b/include/eop.hpp
index 062def8..65f3801 100644
--- a/include/eop.hpp
+++ b/include/eop.hpp
@@ -192,7 +192,7 @@ class EopSeries {
    * This is a mutable member, i.e. changing values in here does not actually
    * 'change' the instance; it is only used to hunt interpolation indexes.
    */
-  mutable cvit last_it{mvec.end()};
+  mutable std::size_t last_idx{0};
   /** Scratch/Workspace memoty to use in interpolation.
    * This is a mutable member, i.e. changing values in here does not actually
    * 'change' the instance.
@@ -288,14 +288,11 @@ public:
    * Warning! The vector of EopRecord should always be chronologically ordered.
    * If you use this method be sure that the entry you are pushing is indeed
    * later that then last current entry in the table.
-   *
-   * Warning! This function may invalidate the last_it pointer. Please, reset
-   * it to the correct index after the call.
    */
   void push_back(const EopRecord &r) noexcept { return mvec.push_back(r); }
 
   void reset_vec_iterator(int offset = -1) noexcept {
-    last_it = (offset < 0) ? mvec.end() : mvec.begin() + offset;
+    last_idx = (offset < 0) ? mvec.size() : offset;
   }
 
   /** Interpolate EOPs using the data in Series, for a given epoch (TT).
diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 31ab45a..a69a3a2 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -4,17 +4,11 @@ dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
   /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  auto it = mvec.begin() + std::min(last_idx, mvec.size());
+  if (it == mvec.begin() || it == mvec.end() ||
+      !((it - 1)->t() <= t && t < it->t()))
+    it = this->upper_bound(t);
+  last_idx = std::distance(mvec.begin(), it);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 83b631c..c8227b1 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -8,17 +8,11 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
   /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  auto it = mvec.begin() + std::min(last_idx, mvec.size());
+  if (it == mvec.begin() || it == mvec.end() ||
+      !((it - 1)->t() <= t && t < it->t()))
+    it = this->upper_bound(t);
+  last_idx = std::distance(mvec.begin(), it);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
-- 
2.43.0


From 4431eeea871bbe23c3f71679dd7cde99e06c1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 028/107] fix: EopSeries::interpolate drops the pole rates

---
 src/lib/eop/lagrange_interpolation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index c8227b1..5a2f42e 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -67,6 +67,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
     eop.lod() = x0->lod() * dx0 + x1->lod() * dx1;
     eop.dX() = x0->dX() * dx0 + x1->dX() * dx1;
     eop.dY() = x0->dY() * dx0 + x1->dY() * dx1;
+    eop.xp_rate() = x0->xp_rate() * dx0 + x1->xp_rate() * dx1;
+    eop.yp_rate() = x0->yp_rate() * dx0 + x1->yp_rate() * dx1;
     return EopInterpolationResult::Linear;
   }
 
@@ -111,6 +113,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
     eop.lod() += i->lod() * fac;
     eop.dX() += i->dX() * fac;
     eop.dY() += i->dY() * fac;
+    eop.xp_rate() += i->xp_rate() * fac;
+    eop.yp_rate() += i->yp_rate() * fac;
   }
 
   /* Note that we have interpolation result for (UT1-TAI)j, not (UT1-UTC)j */
-- 
2.43.0


From 67e65a0218d77df437e7a2bb0097111558520d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 029/107] fix: C04 parsers read past the end of lines shorter
 than the date

---
 src/lib/eop/parse_iers_c0414.cpp | 2 +-
 src/lib/eop/parse_iers_c0420.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 4434414..f6f117f 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -73,7 +73,7 @@ int dso::details::parse_iers_C0414(const char *c04fn,
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
-      cstart = next_num(line + 12);
+      cstart = next_num((cend - line < 12) ? cend : line + 12);
       auto fcr = std::from_chars(cstart, cend, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == cstart)
         error = 1;
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 4919316..ae8cda0 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -76,7 +76,7 @@ int dso::details::parse_iers_C0420(const char *c04fn,
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
-      cstart = next_num(line + 12);
+      cstart = next_num((cend - line < 12) ? cend : line + 12);
       std::from_chars_result fcr;
 
       /* parse date -- made up or recorded hours (in day) and MJD */
-- 
2.43.0


From 15ccbdc059b4fa28afd18244bdef91d96de752d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:41 +0000
Subject: [PATCH 030/107] fix: C04/20 parser asserts on records that are not at
 multiples of six hours

---
 src/lib/eop/parse_iers_c0420.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index ae8cda0..6341f33 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -3,7 +3,7 @@
 #include <cstdio>
 #include <cstring>
 #include <fstream>
-#include <cassert>
+#include <cmath>
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
@@ -106,10 +106,16 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         /* split the real MJD to integral and fractional part, and verify */
         double imjd;
         double fdays = std::modf(mjd, &imjd);
-        assert(fdays == hours/24e0);
-        ct = dso::TwoPartDateUTC(
-            (int)imjd,
-            dso::FractionalSeconds{fdays * dso::SEC_PER_DAY});
+        /* note that the MJD is only given with two decimal digits */
+        if (!(std::abs(fdays - hours / 24e0) < 1e-2)) {
+          fprintf(stderr,
+                  "[ERROR] Hours and MJD do not match in eop file %s "
+                  "(traceback: %s)\n",
+                  c04fn, __func__);
+          return 2;
+        }
+        ct = dso::TwoPartDateUTC((int)imjd,
+                                 dso::FractionalSeconds{hours * 3600e0});
       }
 
       /* UTC date to TT and ΔAT at this UTC */
-- 
2.43.0


From 5443f688b1eabdea5c6eb84c7cb88041232095ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:58 +0000
Subject: [PATCH 031/107] fix: FCN uncertainty decreases (below zero) before
 the first coefficients

---
 src/lib/free_core_nutation/lambert.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/free_core_nutation/lambert.cpp b/src/lib/free_core_nutation/lambert.cpp
index d29d48e..de1566f 100644
--- a/src/lib/free_core_nutation/lambert.cpp
+++ b/src/lib/free_core_nutation/lambert.cpp
@@ -1,6 +1,10 @@
 #include "fcn.hpp"
 #include "geodesy/core/geoconst.hpp"
 #include <algorithm>
+#ifdef DEBUG
+#include <cassert>
+#endif
+#include <cmath>
 
 dso::fcn::FcnResult
 dso::lambert_fcn(const dso::MjdEpoch &t,
@@ -68,8 +72,9 @@ dso::lambert_fcn(const dso::MjdEpoch &t,
       assert(t < lvec.begin()->t);
 #endif
       const auto it = *lvec.begin();
+      /* days from t to the oldest date, the uncertainty grows with it */
       const double dt =
-          t.diff<dso::DateTimeDifferenceType::FractionalDays>(it.t).days();
+          it.t.diff<dso::DateTimeDifferenceType::FractionalDays>(t).days();
       axc[0] = it.xc();
       axs[0] = it.xs();
       ayc[0] = it.yc();
-- 
2.43.0


From e5556a156cd727939e2f4bb2388da7ca099cf2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:58 +0000
Subject: [PATCH 032/107] fix: load_if_unloaded takes a kernel for loaded if
 its name starts another one

---
 src/lib/planets/kernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/planets/kernel.cpp b/src/lib/planets/kernel.cpp
index 41f04f1..b5be13c 100644
--- a/src/lib/planets/kernel.cpp
+++ b/src/lib/planets/kernel.cpp
@@ -2,7 +2,7 @@
 #include <cstring>
 
 namespace {
-constexpr const int FILLEN = 128;
+constexpr const int FILLEN = 256;
 constexpr const int TYPLEN = 32;
 constexpr const int SRCLEN = 128;
 }
@@ -23,7 +23,7 @@ int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "ALL", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, kernel, std::strlen(kernel)))
+      if (found && !std::strcmp(file, kernel))
         return 0;
     }
   }
-- 
2.43.0


From 71db27b719796f3554b324dd48f213c0141e3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 033/107] fix: ocean pole tide at degree 360 writes past the
 load factors

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 6a24af7..c910691 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -218,7 +218,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   const double freal = m1 * g2_real + m2 * g2_imag;
   const double fimag = m2 * g2_real - m1 * g2_imag;
 
-  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002];
+  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
   /* order: m = 0; compute kn factors */
-- 
2.43.0


From 5d730b36a810147cca95bd30e9d96e9416de300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 034/107] fix: ocean pole tide without a model reads
 coefficients that are not there

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index c910691..451854c 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -195,7 +195,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   if (max_order  < 0) max_order = this->max_order();
 
   if ((max_degree < max_order) || (max_degree > this->max_degree()) ||
-      (max_order > this->max_order())) {
+      (max_order > this->max_order()) || (A_real.rows() <= max_degree)) {
     fprintf(stderr,
             "[ERROR] Invalid degree/order for Ocean Pole Tide expansion "
             "(traceback: %s)\n",
-- 
2.43.0


From bf3f27c9900315e2e5365e68801fc632190d94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 035/107] fix: ocean pole tide of a lower degree rescales the
 coefficients left above it

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 451854c..1be7cfa 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -221,6 +221,9 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
+  /* coefficients of higher degree/order are left at zero */
+  mcs.clear();
+
   /* order: m = 0; compute kn factors */
   int m = 0;
   for (int l = m; l <= max_degree; l++) {
-- 
2.43.0


From 21c86a5f5868d5ca1187a0fefd2614f36e24a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 036/107] fix: ocean pole tide coefficients of invalid
 degree/order are written out of bounds

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index 9c41fb1..69c760b 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -47,7 +47,7 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     return 1;
   }
 
-  if ((max_degree < max_order) ||
+  if ((max_degree < max_order) || (max_order < 0) ||
       (max_degree > dso::pole_tide_details::MAX_DEGREE_DESAI_2002) ||
       (max_order > dso::pole_tide_details::MAX_ORDER_DESAI_2002)) {
     fprintf(stderr,
@@ -108,7 +108,8 @@ int dso::pole_tide_details::parse_desai02_coeffs(
       error += (res.ec != std::errc{});
       from = res.ptr;
     }
-    if (l <= max_degree && m <= max_order) {
+    error += (m < 0 || m > l);
+    if (!error && l <= max_degree && m <= max_order) {
       A_real(l, m) = data[0];
       B_real(l, m) = data[1];
       A_imag(l, m) = data[2];
-- 
2.43.0


From 8a2ff017941bb84a9ba5331e98950dbe74220b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 037/107] fix: ocean pole load coefficients are taken at the
 opposite meridian

---
 .../pole_tide/get_desai_ocp_deformation_coeffs.cpp   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 4266e93..34cb57c 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -9,6 +9,12 @@
 
 namespace {
 
+/* longitude of a site in degrees, in the range [0, 360) */
+double lon360(const dso::SphericalCrd &site) noexcept {
+  const double lon = std::fmod(dso::rad2deg(site.lon()), 360e0);
+  return (lon < 0e0) ? lon + 360e0 : lon;
+}
+
 /* max number of chars in opoleloadcoefcmcor.txt file */
 constexpr const int MAX_CH = 256;
 
@@ -349,7 +355,7 @@ int dso::get_desai_ocp_deformation_coeffs(
   nodes.reserve(sta.size());
   for (const auto &s : sta) {
     long bl, br, tl, tr;
-    grd.surrounding_nodes(dso::rad2deg(s.lon() + DPI), dso::rad2deg(s.lat()),
+    grd.surrounding_nodes(lon360(s), dso::rad2deg(s.lat()),
                           bl, br, tl, tr);
     nodes.emplace_back(SiteNode{bl, br, tl, tr});
   }
@@ -410,7 +416,7 @@ int dso::get_desai_ocp_deformation_coeffs(
     /* bilinear interpolation */
     const double x1 = bl->lon;
     const double x2 = br->lon;
-    const double x = dso::rad2deg(site.lon()+DPI);
+    const double x = lon360(site);
     const double y1 = bl->lat;
     const double y2 = tl->lat;
     const double y = dso::rad2deg(site.lat());
@@ -420,7 +426,7 @@ int dso::get_desai_ocp_deformation_coeffs(
     const double f12 = (x2 - x) * (y - y1);
     const double f22 = (x - x1) * (y - y1);
 #ifdef DEBUG
-    const double x0 = dso::rad2deg(site.lon() + DPI);
+    const double x0 = lon360(site);
     const double y0 = dso::rad2deg(site.lat());
     //printf("TL(%.2f, %.2f)    TR(%.2f, %.2f)\n", tl->lon, tl->lat, tr->lon, tr->lat);
     //printf("             (%.2f,  %.2f)\n", x0, y0);
-- 
2.43.0


From a19cd53202c96386bb99bb4d78c94da6f1b9e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 038/107] fix: ocean pole load coefficients of a site off the
 grid are read out of bounds

---
 src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 34cb57c..54613d7 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -357,6 +357,13 @@ int dso::get_desai_ocp_deformation_coeffs(
     long bl, br, tl, tr;
     grd.surrounding_nodes(lon360(s), dso::rad2deg(s.lat()),
                           bl, br, tl, tr);
+    if (bl < 0 || br < 0 || tl < 0 || tr < 0) {
+      fprintf(stderr,
+              "[ERROR] Site at (%.3f %.3f) is not inside the grid of %s "
+              "(traceback: %s)\n",
+              dso::rad2deg(s.lon()), dso::rad2deg(s.lat()), fn, __func__);
+      return 1;
+    }
     nodes.emplace_back(SiteNode{bl, br, tl, tr});
   }
 
-- 
2.43.0


From 4cf8af3442a0d839fe99e6814d2e9dc0f1a01472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 039/107] fix: ocean pole load grid that ends early yields
 stale coefficients

---
 src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 54613d7..bf4a92a 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -386,7 +386,7 @@ int dso::get_desai_ocp_deformation_coeffs(
     }
 
     OptRecord rec;
-    if (parse_line(line, rec)) {
+    if (!fin || parse_line(line, rec)) {
       fprintf(stderr, "[ERROR] Failed parsing OPT line: %s (traceback: %s)\n",
               line, __func__);
       return 1;
-- 
2.43.0


From a495f392ab24ffa2c085db549082c49d6b534691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:02 +0000
Subject: [PATCH 040/107] fix: ocean pole load header line without a value is
 read past its end

---
 src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index bf4a92a..38ea429 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -25,7 +25,8 @@ constexpr const int MAX_CH = 256;
 const char *nf(const char *line) noexcept {
   while (*line && *line != '=')
     ++line;
-  ++line;
+  if (*line)
+    ++line;
   while (*line && *line == ' ')
     ++line;
   return line;
-- 
2.43.0


From f3ebdf160135ae85ace7af390aad272e86013788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:53 +0000
Subject: [PATCH 041/107] fix: ocean pole load coefficients past the last
 longitude use the next row

---
 src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 38ea429..d2cc063 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -358,7 +358,10 @@ int dso::get_desai_ocp_deformation_coeffs(
     long bl, br, tl, tr;
     grd.surrounding_nodes(lon360(s), dso::rad2deg(s.lat()),
                           bl, br, tl, tr);
-    if (bl < 0 || br < 0 || tl < 0 || tr < 0) {
+    /* no node lies past the last column/row */
+    if (bl < 0 || br < 0 || tl < 0 || tr < 0 ||
+        lon360(s) >= grd.xstop() - grd.xstep() ||
+        dso::rad2deg(s.lat()) >= grd.ystop() - grd.ystep()) {
       fprintf(stderr,
               "[ERROR] Site at (%.3f %.3f) is not inside the grid of %s "
               "(traceback: %s)\n",
-- 
2.43.0


From 85785ea9dd029a2e5ad7114ccb33f1a35fc4ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:07 +0000
Subject: [PATCH 042/107] fix: ocean pole load grid with misplaced nodes aborts
 (or extrapolates)

---
 .../get_desai_ocp_deformation_coeffs.cpp      | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index d2cc063..8f66c1a 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -436,21 +436,16 @@ int dso::get_desai_ocp_deformation_coeffs(
     const double f21 = (x - x1) * (y2 - y);
     const double f12 = (x2 - x) * (y - y1);
     const double f22 = (x - x1) * (y - y1);
-#ifdef DEBUG
-    const double x0 = lon360(site);
-    const double y0 = dso::rad2deg(site.lat());
-    //printf("TL(%.2f, %.2f)    TR(%.2f, %.2f)\n", tl->lon, tl->lat, tr->lon, tr->lat);
-    //printf("             (%.2f,  %.2f)\n", x0, y0);
-    //printf("BL(%.2f, %.2f)    BR(%.2f, %.2f)\n", bl->lon, bl->lat, br->lon, br->lat);
-    assert(bl->lon <= x0 && bl->lat <= y0);
-    assert(br->lon > x0 && br->lat <= y0);
-    assert(tl->lon <= x0 && tl->lat > y0);
-    assert(tr->lon > x0 && tr->lat > y0);
-#endif
-    /* (redundant?) checks */
-    assert(((bl->lon == tl->lon) && (br->lon == tr->lon)) &&
-           ((bl->lat == br->lat) && (tl->lat == tr->lat)));
-    assert(bl->lon <= x && bl->lat <= y);
+    /* the nodes in the file should be the ones of the grid in its header */
+    if (!(bl->lon == tl->lon && br->lon == tr->lon && bl->lat == br->lat &&
+          tl->lat == tr->lat && bl->lon <= x && x < br->lon && bl->lat <= y &&
+          y < tl->lat)) {
+      fprintf(stderr,
+              "[ERROR] Nodes around site at (%.3f %.3f) do not match the grid "
+              "of %s (traceback: %s)\n",
+              dso::rad2deg(site.lon()), dso::rad2deg(site.lat()), fn, __func__);
+      return 1;
+    }
 
     const double rR =
         f * (bl->rR * f11 + br->rR * f21 + tl->rR * f12 + tr->rR * f22);
-- 
2.43.0


From 5d662800f0175ee4e299d39ec11caeae81c0c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 043/107] fix: long values in an ICGEM header overflow the
 fields they are stored in

---
 src/lib/icgem/icgemio_read_header.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index aebf6a8..3f9deb5 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -43,6 +43,12 @@ const char *right_trim(char *str) noexcept {
   return right;
 }
 
+/** Copy a header value to a buffer of size sz, truncating it if needed. */
+char *copy_value(char *buf, std::size_t sz, const char *arg) noexcept {
+  std::snprintf(buf, sz, "%s", arg);
+  return buf;
+}
+
 /** Check if a given line corresponds to a given parameter name (or keyword)
  *
  * Example of ICGEM (header):
@@ -139,7 +145,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "product_type", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_product_type, arg));
+        right_trim(copy_value(_product_type, sizeof(_product_type), arg));
       }
 
       /* check if this the 'modelname' field (mandatory keyword) */
@@ -151,7 +157,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "modelname", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_modelname, arg));
+        right_trim(copy_value(_modelname, sizeof(_modelname), arg));
       }
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
@@ -248,7 +254,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "tide_system", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_tide_system, arg));
+        right_trim(copy_value(_tide_system, sizeof(_tide_system), arg));
       }
 
       /* check if this the 'norm' field (optional keyword) */
@@ -260,7 +266,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "norm", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_norm, arg));
+        right_trim(copy_value(_norm, sizeof(_norm), arg));
       }
 
       /* check for format/version */
-- 
2.43.0


From 1151471e8cb13becd9e9d1cbdcbfa893187d12ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 044/107] fix: ICGEM header keywords match any word they start

---
 src/lib/icgem/icgemio_read_header.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index 3f9deb5..d85c33d 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -82,7 +82,8 @@ int match_header_keyword(const char *parameter, const char *line,
   const char *str = next_non_ws_char(line);
 
   /* does the line start with the parameter_name string ? */
-  if (!std::strncmp(str, parameter, psz)) {
+  if (!std::strncmp(str, parameter, psz) &&
+      (str[psz] == ' ' || str[psz] == '\0')) {
     /* start of new word after the keyword in line */
     argument = next_non_ws_char(next_ws_char(str));
     return 1;
-- 
2.43.0


From 76a6aee65249cebc370b7b48cac7fe375fc3015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 045/107] fix: ICGEM error model uninitialised if the header
 does not name it

---
 include/icgemio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/icgemio.hpp b/include/icgemio.hpp
index 3a18384..4982836 100644
--- a/include/icgemio.hpp
+++ b/include/icgemio.hpp
@@ -78,7 +78,7 @@ private:
    *   both "calibrated_and_formal" 
    * errors are included
    */
-  ErrorModel _errors;
+  ErrorModel _errors{ErrorModel::No};
   /** gravitational constant times mass of the earth [m^3s^-2] */
   double _earth_gravity_constant{0e0};
   /** reference radius of the spherical harmonic development [m] */
-- 
2.43.0


From aab0b1ccbcdc5ef858bf476aaa84c20e5717e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 046/107] fix: ICGEM header constants in FORTRAN notation lose
 their exponent

---
 src/lib/icgem/icgemio_read_header.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index d85c33d..3186318 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -49,6 +49,18 @@ char *copy_value(char *buf, std::size_t sz, const char *arg) noexcept {
   return buf;
 }
 
+/** Resolve a floating point number, possibly signed and/or using FORTRAN's
+ * scientific notation (e.g. +0.3986004415D+15).
+ */
+int parse_real(const char *arg, double &val) noexcept {
+  char buf[bsz];
+  copy_value(buf, bsz, (*arg == '+') ? arg + 1 : arg);
+  for (char *c = buf; *c && *c != ' '; c++)
+    if (*c == 'D' || *c == 'd')
+      *c = 'e';
+  return std::from_chars(buf, buf + std::strlen(buf), val).ec != std::errc{};
+}
+
 /** Check if a given line corresponds to a given parameter name (or keyword)
  *
  * Example of ICGEM (header):
@@ -170,9 +182,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "earth_gravity_constant", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg),
-                             _earth_gravity_constant))
-                .ec != std::errc{}) {
+        if (parse_real(arg, _earth_gravity_constant)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
@@ -190,8 +200,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "radius", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg), _radius)).ec !=
-            std::errc{}) {
+        if (parse_real(arg, _radius)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
-- 
2.43.0


From 2ca6c70816ee609a50c017719f1c62d87d699391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 047/107] fix: ICGEM degree/order that is not valid still
 resizes the coefficients

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 2 +-
 src/lib/icgem/icgemio_read_data_v2.cpp | 2 +-
 src/lib/icgem/icgemio_read_header.cpp  | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 6bc8e01..1ebdf8e 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -18,7 +18,7 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
         stderr,
         "[ERROR] Invalid degree/order given to data parse, i.e. (n,m)=(%d,%d) (traceback: %s)\n",
         l,k,__func__);
-    error = 1;
+    return 1;
   }
 
   /* set max degree and order we are collecting */
diff --git a/src/lib/icgem/icgemio_read_data_v2.cpp b/src/lib/icgem/icgemio_read_data_v2.cpp
index ea10fbc..69b183a 100644
--- a/src/lib/icgem/icgemio_read_data_v2.cpp
+++ b/src/lib/icgem/icgemio_read_data_v2.cpp
@@ -21,7 +21,7 @@ int dso::Icgem::parse_data_v2(int l, int k, const Icgem::Datetime &t,
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
         __func__);
-    error = 1;
+    return 1;
   }
 
   /* set max degree and order we are collecting */
diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index 3186318..ff8dd3e 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -219,7 +219,8 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
         error = 1;
       } else {
         if ((std::from_chars(arg, arg + std::strlen(arg), _max_degree)).ec !=
-            std::errc{}) {
+                std::errc{} ||
+            _max_degree < 0) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
-- 
2.43.0


From 23e9258d5df2cb99b60c17cc1eb1d5b4d25089f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 048/107] fix: ICGEM entries that failed or of invalid
 degree/order are stored

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 4 +++-
 src/lib/icgem/icgemio_read_data_v2.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 1ebdf8e..16f82e7 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -57,7 +57,9 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
    */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v1(line, err, entry);
-    {
+    if (!error && (entry.order < 0 || entry.order > entry.degree))
+      ++error;
+    if (!error) {
       double C=0e0,S=0e0;
       if (entry.degree <= n && entry.order <= m) {
         /* set maximum degree/order */
diff --git a/src/lib/icgem/icgemio_read_data_v2.cpp b/src/lib/icgem/icgemio_read_data_v2.cpp
index 69b183a..b28816d 100644
--- a/src/lib/icgem/icgemio_read_data_v2.cpp
+++ b/src/lib/icgem/icgemio_read_data_v2.cpp
@@ -55,7 +55,9 @@ int dso::Icgem::parse_data_v2(int l, int k, const Icgem::Datetime &t,
   /* keep reading coefficients */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v2(line, err, entry);
-    {
+    if (!error && (entry.order < 0 || entry.order > entry.degree))
+      ++error;
+    if (!error) {
       int interval_ok = (t >= entry.t0 && t < entry.t1);
       if (interval_ok && entry.degree <= n && entry.order <= m) {
         /* set maximum degree and order collected */
-- 
2.43.0


From 65b92ed9ae1bcf00607912eb8703c8af0273aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 049/107] fix: ICGEM v1 trend or periodic entry without a gfct
 entry aborts

---
 src/lib/icgem/icgemio_read_data_v1.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 16f82e7..4004f4a 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -83,20 +83,17 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
           case DataEntryType::trnd:
             C = entry.C * dt;
             S = entry.S * dt;
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           case DataEntryType::asin:
             C = entry.C * std::sin((D2PI / entry.period) * dt);
             S = entry.S * std::sin((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           case DataEntryType::acos:
             C = entry.C * std::cos((D2PI / entry.period) * dt);
             S = entry.S * std::cos((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           default:
             /* just use current_[nm] to silence compiler warnings on set but 
-- 
2.43.0


From a733907d7c6ad45d88da3d6b711fdf712e3847aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 050/107] fix: ICGEM v1 line of 255 characters aborts

---
 src/lib/icgem/resolve_igcem_data_line_v1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v1.cpp b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
index 8a99cc9..32706b1 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
@@ -29,7 +29,7 @@ const char *skip_cols(const char *line, int num_cols) noexcept {
  *  to it.
  */
 char *for2cpp_format(const char *line, int len, char *buf) noexcept {
-  assert(len < 256);
+  assert(len <= 256);
   std::memcpy(buf, line, len * sizeof(char));
   int i = 1;
   while (i < len) {
-- 
2.43.0


From f91b5ae2cf14bcb1291a7dd5377b3aeb84cc04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 051/107] fix: ICGEM v2 lines with signed numbers or FORTRAN
 exponents are misread

---
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 76 +++++++++++++-------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index 03367bb..f1b0633 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -1,9 +1,10 @@
 #include "icgemio.hpp"
+#include <cassert>
 #include <charconv>
 
 namespace {
 const char *skip_ws(const char *line) noexcept {
-  while (*line && *line == ' ')
+  while (*line && (*line == ' ' || *line == '+'))
     ++line;
   return line;
 }
@@ -18,13 +19,40 @@ const char *skip_cols(const char *line, int num_cols) noexcept {
   }
   return skip_ws(str);
 }
+
+/* translate a floating point number printed using FORTRAN's scientific 
+ * notation, to a valid c++ floating point alphanumeric descriptor, i.e.
+ * -.914716531750D-11 to -.914716531750e-11
+ *  The 'transformed' string (at output) is stored in buf.
+ *
+ *  Buf should be large enough so that len characters from line are copied 
+ *  to it.
+ */
+char *for2cpp_format(const char *line, int len, char *buf) noexcept {
+  assert(len <= 256);
+  std::memcpy(buf, line, len * sizeof(char));
+  int i = 1;
+  while (i < len) {
+    if ((buf[i - 1] == 'D' || buf[i - 1] == 'd') &&
+        (buf[i] == '+' || buf[i] == '-')) {
+      buf[i - 1] = 'e';
+    }
+    ++i;
+  }
+  return buf;
+}
 } /* anonymous namespace */
 
 int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
                                     dso::Icgem::DataEntry &entry) noexcept {
+  /* it sometimes happens (but seldom) that the line contains numeric values
+   * in FORTRAN scientific notation. Transform these (if any) to valid
+   * alphanumeric strings.
+   */
+  char buf[256];
   int error = 0;
   int len = std::strlen(line);
-  const char *c = line;
+  const char *c = for2cpp_format(line, len+1, buf);
   int err_cols = 0;
   /* skip number of columns, depending on the Error Model of the file */
   switch (er) {
@@ -45,22 +73,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
    */
   if (!std::strncmp(line, "gfc ", 4)) {
     /* resolve degree */
-    auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
+    auto res = std::from_chars(skip_ws(c + 4), buf + len, entry.degree);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve order */
-    res = std::from_chars(skip_ws(c), line + len, entry.order);
+    res = std::from_chars(skip_ws(c), buf + len, entry.order);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.C);
+    res = std::from_chars(skip_ws(c), buf + len, entry.C);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.S);
+    res = std::from_chars(skip_ws(c), buf + len, entry.S);
     if (res.ec != std::errc{})
       ++error;
     /* assign entry data */
@@ -78,22 +106,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      * columns.
      */
     /* resolve degree */
-    auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
+    auto res = std::from_chars(skip_ws(c + 4), buf + len, entry.degree);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve order */
-    res = std::from_chars(skip_ws(c), line + len, entry.order);
+    res = std::from_chars(skip_ws(c), buf + len, entry.order);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.C);
+    res = std::from_chars(skip_ws(c), buf + len, entry.C);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.S);
+    res = std::from_chars(skip_ws(c), buf + len, entry.S);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
@@ -116,22 +144,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      * degree, order, Clm, Slm, are always the first four columns;
      */
     /* resolve degree */
-    auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
+    auto res = std::from_chars(skip_ws(c + 4), buf + len, entry.degree);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve order */
-    res = std::from_chars(skip_ws(c), line + len, entry.order);
+    res = std::from_chars(skip_ws(c), buf + len, entry.order);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.C);
+    res = std::from_chars(skip_ws(c), buf + len, entry.C);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.S);
+    res = std::from_chars(skip_ws(c), buf + len, entry.S);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
@@ -157,22 +185,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      * last column is period [year]
      */
     /* resolve degree */
-    auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
+    auto res = std::from_chars(skip_ws(c + 4), buf + len, entry.degree);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve order */
-    res = std::from_chars(skip_ws(c), line + len, entry.order);
+    res = std::from_chars(skip_ws(c), buf + len, entry.order);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.C);
+    res = std::from_chars(skip_ws(c), buf + len, entry.C);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.S);
+    res = std::from_chars(skip_ws(c), buf + len, entry.S);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
@@ -186,7 +214,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+    res = std::from_chars(skip_ws(ptr), buf + len, entry.period);
     if (res.ec != std::errc{})
       ++error;
     /* set key */
@@ -202,22 +230,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      * last column is period [year]
      */
     /* resolve degree */
-    auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
+    auto res = std::from_chars(skip_ws(c + 4), buf + len, entry.degree);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve order */
-    res = std::from_chars(skip_ws(c), line + len, entry.order);
+    res = std::from_chars(skip_ws(c), buf + len, entry.order);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.C);
+    res = std::from_chars(skip_ws(c), buf + len, entry.C);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
-    res = std::from_chars(skip_ws(c), line + len, entry.S);
+    res = std::from_chars(skip_ws(c), buf + len, entry.S);
     if (res.ec != std::errc{})
       ++error;
     c = res.ptr;
@@ -231,7 +259,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+    res = std::from_chars(skip_ws(ptr), buf + len, entry.period);
     if (res.ec != std::errc{})
       ++error;
     entry.key = Icgem::DataEntryType::acos;
-- 
2.43.0


From 28bbc350efd62f866c2a038189f5935f9348fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 052/107] fix: ICGEM v2 date without a time is read past its
 end

---
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index 6a96919..61d7b20 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -22,7 +22,9 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   if (res.ec != std::errc{})
     ++error;
   /* one more char to skip the dot */
-  str = res.ptr + 1;
+  if (*res.ptr != '.')
+    ++error;
+  str = res.ptr + (*res.ptr == '.');
 
   res = std::from_chars(str, str + 2, ints[3]);
   if (res.ec != std::errc{})
-- 
2.43.0


From c1a5c2832e272e7ee552e02c57301912c680fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 053/107] fix: ICGEM date that does not exist ends the program

---
 src/lib/icgem/resolve_igcem_data_date_v1.cpp | 13 ++++++++++---
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v1.cpp b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
index d1e3b10..68ba849 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -31,9 +32,15 @@ int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
   }
 
   /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(0),
-                           dso::minutes(0), dso::nanoseconds(0));
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(0),
+                             dso::minutes(0), dso::nanoseconds(0));
+  } catch (const std::exception &) {
+    fprintf(stderr, "[ERROR] Invalid ICGEM date: %.13s (traceback: %s)\n", line,
+            __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index 61d7b20..e646c83 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -44,9 +45,15 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   }
 
   /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(ints[3]),
-                           dso::minutes(ints[4]), dso::nanoseconds(0));
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(ints[3]),
+                             dso::minutes(ints[4]), dso::nanoseconds(0));
+  } catch (const std::exception &) {
+    fprintf(stderr, "[ERROR] Invalid ICGEM date: %.13s (traceback: %s)\n", line,
+            __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
-- 
2.43.0


From 264a876f678538e7dc3f15726d3e4f3b39772045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 054/107] fix: ICGEM v2 periodic entry with a bad date reads
 from an uninitialised pointer

---
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index f1b0633..dcbf789 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -128,7 +128,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
@@ -166,7 +166,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
@@ -207,7 +207,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
@@ -252,7 +252,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t0 at pre-last column */
-    const char *ptr;
+    const char *ptr = c;
     if (resolve_icgem_data_date_v2(skip_ws(c), entry.t0, ptr))
       ++error;
     /* resolve t1 at last column */
-- 
2.43.0


From 492e616e310e85cc364b8174c650a845acc9f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 055/107] fix: names of compressed AOD1B products lack their
 extension

---
 src/lib/aod1b/aod1bnontidalproductnaming.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index e1b7898..c176dbc 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -17,7 +17,7 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
   std::sprintf(buf + 18, "_%02d.asc", rl);
   /* add compression (if needed) */
   if (is_compressed) 
-    std::strcpy(buf+27, ".gz");
+    std::strcat(buf, ".gz");
   /* all done */
   return buf;
 }
-- 
2.43.0


From 303f5a3cf1c31417a7634c9f33e1800db5526afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 056/107] fix: resolve_rl dereferences null for filenames
 without a directory

---
 src/lib/aod1b/aod1bnontidalproductnaming.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index c176dbc..e447ce9 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -25,8 +25,15 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
 int dso::Aod1bNonTidalProductNaming::resolve_rl(const char *fn) noexcept {
   /* Find the last occurrence of '/' to get the filename */
   const char *basename = std::strrchr(fn, '/');
-  ++basename;
-  int rl;
+  basename = basename ? basename + 1 : fn;
+  int rl = 0;
+  if (std::strlen(basename) < 21) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed resolving RL from AOD1B filename %s (traceback: %s)\n",
+        basename, __func__);
+    return -100;
+  }
   const auto j = std::from_chars(basename + 19, basename + 21, rl);
   if (j.ec != std::errc{}) {
     fprintf(
-- 
2.43.0


From fb03e3c98535b8697a7769627777b01b2d5b69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 057/107] fix: AOD1B header fields are copied past their
 storage and read past the line

---
 src/lib/aod1b/aod1b_read_header.cpp | 43 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 813c261..098e5ea 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -11,26 +11,29 @@ const char *header_field(const char *line) noexcept {
   const char *c = line;
   while (*c && *c != ':')
     ++c;
-  c = c + 1;
+  if (*c)
+    ++c;
   while (*c && *c == ' ')
     ++c;
   return c;
 }
 const char *header_field(const char *line, int &sz) noexcept {
+  const char *c = header_field(line);
   /* start in reverse, find last char that is not ws */
-  const char *c = line + std::strlen(line) - 1;
-  while (*c && *c == ' ')
-  // while (*c && std::isspace(static_cast<unsigned char>(*c)))
-    --c;
-  const char *last = c;
-  /* find delimeter, i.e. ':' */
-  while (*c && *c != ':')
-    --c;
-  /* first non ws character after delimeter */
-  c = header_field(c);
-  sz = (last - c) + 1;
+  const char *last = c + std::strlen(c);
+  while (last > c && *(last - 1) == ' ')
+    --last;
+  sz = last - c;
   return c;
 }
+/* copy a header field of size sz to a buffer of size bufsz (null-terminated),
+ * truncating it if needed
+ */
+void copy_field(char *buf, int bufsz, const char *field, int sz) noexcept {
+  const int n = (sz < bufsz) ? sz : bufsz - 1;
+  std::memcpy(buf, field, sizeof(char) * n);
+  buf[n] = '\0';
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::read_header() noexcept {
@@ -55,7 +58,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     if (!std::strncmp(line, "PRODUCER AGENCY", 15)) {
       int sz = 0;
       const char *r = header_field(line + 15, sz);
-      std::memcpy(agency(), r, sizeof(char) * sz);
+      copy_field(agency(), satellite_offset - agency_offset, r, sz);
     } else if (!std::strncmp(line, "PRODUCER INSTITUTION", 20)) {
       /* do nothing */
       ;
@@ -98,11 +101,11 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "SATELLITE NAME", 14)) {
       int sz = 0;
       const char *r = header_field(line + 14, sz);
-      std::memcpy(satellite(), r, sizeof(char) * sz);
+      copy_field(satellite(), sensor_offset - satellite_offset, r, sz);
     } else if (!std::strncmp(line, "SENSOR NAME", 11)) {
       int sz = 0;
       const char *r = header_field(line + 11, sz);
-      std::memcpy(sensor(), r, sizeof(char) * sz);
+      copy_field(sensor(), process_level_offset - sensor_offset, r, sz);
     } else if (!std::strncmp(line, "TIME EPOCH (GPS TIME)", 21)) {
       time_epoch() =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -203,17 +206,17 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "PROCESS LEVEL (1A OR 1B)", 24)) {
       int sz = 0;
       const char *r = header_field(line + 24, sz);
-      std::memcpy(process_level(), r, sizeof(char) * sz);
+      copy_field(process_level(), pressure_type_offset - process_level_offset, r, sz);
     } else if (!std::strncmp(line, "PRESSURE TYPE (SP OR VI)", 24)) {
       /* present in non-tidal loading files */
       int sz = 0;
       const char *r = header_field(line + 24, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      copy_field(pressure_type(), MaxArenaChars - pressure_type_offset, r, sz);
     } else if (!std::strncmp(line, "PRESSURE TYPE (ATM OR OCN)", 26)) {
       /* present in tidal files */
       int sz = 0;
       const char *r = header_field(line + 26, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      copy_field(pressure_type(), MaxArenaChars - pressure_type_offset, r, sz);
     } else if (!std::strncmp(line, "MAXIMUM DEGREE", 14)) {
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, max_degree()).ec !=
@@ -275,7 +278,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "CONSTANT A [M]", 14)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 22), last, Re()).ec !=
+      if (std::from_chars(header_field(line + 14), last, Re()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
@@ -320,7 +323,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       int sz = 0;
       const char *r = header_field(line + 12, sz);
       char buf[8] = "\0";
-      std::memcpy(buf, r, sizeof(char) * sz);
+      copy_field(buf, sizeof(buf), r, sz);
       const auto *waveptr = dso::find_wave_entry(buf);
       if (!waveptr) {
         fprintf(stderr,
-- 
2.43.0


From 3c791b25e21a5b6fcd390adf87e50f3eee1afc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 058/107] fix: AOD1B header with an unknown tide dereferences
 null

---
 src/lib/aod1b/aod1b_read_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 098e5ea..8c05694 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -331,8 +331,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "(traceback: %s)\n",
                 mfn.c_str(), __func__);
         ++error;
-      }
-      mwave = *waveptr;
+      } else
+        mwave = *waveptr;
     } else if (!std::strncmp(line, "END OF HEADER", 13)) {
       break;
     } else {
-- 
2.43.0


From a4e80cb7fdb149e3e3ef529f10c1a886ff103991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 059/107] fix: AOD1B header with unexpected values aborts or is
 read past its end

---
 src/lib/aod1b/aod1b_read_header.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 8c05694..2fcd615 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -126,7 +126,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       first_epoch() = time_epoch().add_seconds(isec);
       // first_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -163,7 +163,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       last_epoch() = time_epoch().add_seconds(isec);
       // last_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -229,18 +229,10 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "COEFFICIENTS ERRORS (YES/NO)", 28)) {
       int sz = 0;
-      /* why maybe_unused? 
-       * GCC (at least 14.2), complaines about r being an unused variable, 
-       * even though it is (later) read within an assert macro.
-       * Probably marking it as unused is a god solution (?). At least i can't
-       * think of anything better.
-       */
-      [[maybe_unused]] const char *r = header_field(line + 28, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
+      const char *r = header_field(line + 28, sz);
+      if (sz == 2 && !std::strncmp("NO", r, 2)) {
         coeff_errors() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
+      } else if (sz == 3 && !std::strncmp("YES", r, 3)) {
         coeff_errors() = 1;
       } else {
         fprintf(
@@ -252,12 +244,10 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "COEFF. NORMALIZED (YES/NO)", 26)) {
       int sz = 0;
-      [[maybe_unused]] const char *r = header_field(line + 26, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
+      const char *r = header_field(line + 26, sz);
+      if (sz == 2 && !std::strncmp("NO", r, 2)) {
         coeff_normalized() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
+      } else if (sz == 3 && !std::strncmp("YES", r, 3)) {
         coeff_normalized() = 1;
       } else {
         fprintf(stderr,
-- 
2.43.0


From 40e3ca9a3a0b0dbc31d85ebfb1d704f937fb9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 060/107] fix: AOD1B headers with malformed dates or lines end
 the program or are read past their end

---
 .../aod1b/aod1b_parse_data_block_header.cpp   | 60 ++++++++++---------
 src/lib/aod1b/aod1b_read_header.cpp           |  9 ++-
 2 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/lib/aod1b/aod1b_parse_data_block_header.cpp b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
index d08d235..6b7acfd 100644
--- a/src/lib/aod1b/aod1b_parse_data_block_header.cpp
+++ b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
@@ -22,36 +22,42 @@ int dso::Aod1bIn::parse_data_block_header(
   int error = 0;
 
   auto res = std::from_chars(skipws(str), last, rec.mset_nr);
-  error += (res.ec != std::errc{});
-  str = res.ptr + 1;
+  error += (res.ec != std::errc{} || *res.ptr != ':');
 
-  res = std::from_chars(skipws(str), last, rec.mnum_lines);
-  error += (res.ec != std::errc{});
-  str = res.ptr;
-
-  if (std::strncmp(skipws(str), "COEFFICIENTS FOR ", 17))
-    ++error;
-  str = skipws(str + 17);
-  rec.mepoch = dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                              dso::nanoseconds>(str, &res.ptr);
-  /* GPST to TT */
-  rec.mepoch = rec.mepoch.gps2tt();
+  if (!error) {
+    res = std::from_chars(skipws(res.ptr + 1), last, rec.mnum_lines);
+    error += (res.ec != std::errc{} || rec.mnum_lines < 0);
+    str = skipws(res.ptr);
+    error += (std::strncmp(str, "COEFFICIENTS FOR ", 17) != 0);
+  }
 
-  str = res.ptr + 1;
-  if (std::strncmp(skipws(str), "OF TYPE", 7))
-    ++error;
-  str = skipws(str + 7);
+  if (!error) {
+    try {
+      rec.mepoch =
+          dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
+                         dso::nanoseconds>(skipws(str + 17), &res.ptr);
+      /* GPST to TT */
+      rec.mepoch = rec.mepoch.gps2tt();
+      str = skipws(res.ptr);
+      error += (std::strncmp(str, "OF TYPE", 7) != 0);
+    } catch (const std::exception &) {
+      ++error;
+    }
+  }
 
-  if (!std::strncmp(skipws(str), "atm", 3))
-    rec.mtype = dso::AOD1BCoefficientType::ATM;
-  else if (!std::strncmp(skipws(str), "ocn", 3))
-    rec.mtype = dso::AOD1BCoefficientType::OCN;
-  else if (!std::strncmp(skipws(str), "glo", 3))
-    rec.mtype = dso::AOD1BCoefficientType::GLO;
-  else if (!std::strncmp(skipws(str), "oba", 3))
-    rec.mtype = dso::AOD1BCoefficientType::OBA;
-  else
-    ++error;
+  if (!error) {
+    str = skipws(str + 7);
+    if (!std::strncmp(str, "atm", 3))
+      rec.mtype = dso::AOD1BCoefficientType::ATM;
+    else if (!std::strncmp(str, "ocn", 3))
+      rec.mtype = dso::AOD1BCoefficientType::OCN;
+    else if (!std::strncmp(str, "glo", 3))
+      rec.mtype = dso::AOD1BCoefficientType::GLO;
+    else if (!std::strncmp(str, "oba", 3))
+      rec.mtype = dso::AOD1BCoefficientType::OBA;
+    else
+      ++error;
+  }
 
   if (error) {
     fprintf(
diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 2fcd615..70c77ef 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -41,7 +41,7 @@ int dso::Aod1bIn::read_header() noexcept {
   return this->read_header(fin);
 }
 
-int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
+int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
   if (!fin.is_open()) {
     fprintf(stderr, "[ERROR] Failed opening AOD1B file %s (traceback: %s)\n",
             mfn.c_str(), __func__);
@@ -345,4 +345,11 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
 
   /* all done */
   return 0;
+} catch (const std::exception &e) {
+  /* invalid dates */
+  fprintf(stderr,
+          "[ERROR] Failed reading header from AOD1B file %s; %s (traceback: "
+          "%s)\n",
+          mfn.c_str(), e.what(), __func__);
+  return 1;
 }
-- 
2.43.0


From 95d9ee0fb1eb66206e6cf7f9798a8c5b8c703905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 061/107] fix: AOD1B header members are uninitialised if the
 header lacks them

---
 include/aod1b.hpp                   | 24 ++++++++++++------------
 src/lib/aod1b/aod1b_read_header.cpp |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index debb747..880eb6f 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -114,29 +114,29 @@ private:
   /** buffer to store all character/string information in an AOD1B header */
   char charArena[MaxArenaChars];
   /** file type -- should be 999 */
-  int mfile_type;
+  int mfile_type{0};
   /** file format: 0=binary 1=ascii */
-  int mfile_format;
+  int mfile_format{0};
   /** number of header records */
-  int mnum_header_records;
+  int mnum_header_records{0};
   /** number of data records */
-  int mnum_data_records;
+  int mnum_data_records{0};
   /** maximum degree for harmonic coeffs */
-  int mmax_degree;
+  int mmax_degree{-1};
   /** coefficient errors (yes/no) */
-  int mcoeff_errors;
+  int mcoeff_errors{0};
   /** coeff. normalized (yes/no) */
-  int mcoeff_normalized;
+  int mcoeff_normalized{0};
   /** constant gm [m^3/s^2] */
-  double mGM;
+  double mGM{0e0};
   /** constant a [m] */
-  double mRe;
+  double mRe{0e0};
   /** constant flat [-] */
-  double mflat;
+  double mflat{0e0};
   /** constant omega [rad/s] */
-  double momega;
+  double momega{0e0};
   /** number of data sets */
-  int mnum_data_sets;
+  int mnum_data_sets{0};
   /** Reference epoch in TT */
   Datetime<nanoseconds> mtime_epoch;
   /** Time of first data block in TT */
diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 70c77ef..184a404 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -335,7 +335,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
   }
 
   /* hopefully no error occured with the stream! */
-  if (!fin.good() || (j >= MAXLS) || (error)) {
+  if (!fin.good() || (j >= MAXLS) || (error) || (max_degree() < 0)) {
     fprintf(
         stderr,
         "[ERROR] Failed reading header from AOD1B file %s (traceback: %s)\n",
-- 
2.43.0


From b8ec0e1302d2e325c859e0293d5fbde9ae898a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 062/107] fix: AOD1B coefficients of invalid degree/order are
 written out of bounds

---
 src/lib/aod1b/aod1b_collect_coeffs.cpp | 4 +++-
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 05a2549..553e021 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -21,7 +21,8 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     return 1;
   }
 
-  if ((max_degree < max_order) || (max_degree > this->max_degree())) {
+  if ((max_degree < max_order) || (max_order < 0) ||
+      (max_degree > this->max_degree())) {
     fprintf(stderr,
             "[ERROR] Invalid max degree/order given for coefficient parsing; "
             "AOD1B file %s (traceback: %s)\n",
@@ -70,6 +71,7 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    error += (m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cs.C(l, m));
       error += (res.ec != std::errc{});
diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index f1bab1b..0448e08 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -82,7 +82,8 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
-    if ((l <= max_degree) && (m <= max_order) && (!error)) {
+    error += (!error && (m < 0 || m > l));
+    if ((!error) && (l <= max_degree) && (m <= max_order)) {
       res = std::from_chars(skipws(res.ptr), stop, cCs.C(l, m));
       error += (res.ec != std::errc{});
       res = std::from_chars(skipws(res.ptr), stop, cCs.S(l, m));
@@ -126,7 +127,8 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
     error += (res.ec != std::errc{});
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
-    if ((l <= max_degree) && (m <= max_order) && (!error)) {
+    error += (!error && (m < 0 || m > l));
+    if ((!error) && (l <= max_degree) && (m <= max_order)) {
       res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));
       error += (res.ec != std::errc{});
       res = std::from_chars(skipws(res.ptr), stop, sCs.S(l, m));
-- 
2.43.0


From ee91b568dfbb59c1558064f7c7d41dc0b97451aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 063/107] fix: AOD1B tidal file with a short data set header is
 read past its end

---
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index 0448e08..c36382e 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -54,18 +54,21 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   constexpr const int MAXL = 124;
   char line[MAXL];
   int error = 0;
-  int max_lines;
+  int max_lines = 0;
   int lines_parsed = 0;
 
   /* this should be the cos coeffs */
   fin.getline(line, MAXL);
   const char *end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 01:", 12))
-    ++error;
-  auto res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
-  if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE cos", 24))
+  std::from_chars_result res{line, std::errc{}};
+  if (std::strncmp(line, "DATA SET 01:", 12)) {
     ++error;
+  } else {
+    res = std::from_chars(skipws(line + 12), end, max_lines);
+    error += (res.ec != std::errc{});
+    if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE cos", 24))
+      ++error;
+  }
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving (tidal) header from line %s from AOD1B "
@@ -105,12 +108,14 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   lines_parsed = 0;
   fin.getline(line, MAXL);
   end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 02:", 12))
-    ++error;
-  res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
-  if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE sin", 24))
+  if (std::strncmp(line, "DATA SET 02:", 12)) {
     ++error;
+  } else {
+    res = std::from_chars(skipws(line + 12), end, max_lines);
+    error += (res.ec != std::errc{});
+    if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE sin", 24))
+      ++error;
+  }
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving (tidal) header from line %s from AOD1B "
-- 
2.43.0


From 0ee39d4d0839d51c14b524d335daf505e4c569b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 064/107] fix: the last data block of an AOD1B file is not
 found if it is the first of its type

---
 src/lib/aod1b/aod1b_goto_next_block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/aod1b/aod1b_goto_next_block.cpp b/src/lib/aod1b/aod1b_goto_next_block.cpp
index f2afc55..41c754f 100644
--- a/src/lib/aod1b/aod1b_goto_next_block.cpp
+++ b/src/lib/aod1b/aod1b_goto_next_block.cpp
@@ -51,7 +51,7 @@ int dso::Aod1bIn::goto_next_block(
   const int MAXLS = num_data_sets();
   char line[MAXL];
   int error = 0, j = 0;
-  while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
+  while (fin.getline(line, MAXL) && (!error) && (++j <= MAXLS)) {
     /* assuming next line was a data block header */
     if (parse_data_block_header(line, rec)) {
       ++error;
@@ -73,7 +73,7 @@ int dso::Aod1bIn::goto_next_block(
     return 1;
   }
 
-  if (!fin.good() || j >= MAXLS) {
+  if (!fin.good() || j > MAXLS) {
     if (fin.eof())
       return -1;
     return 1;
-- 
2.43.0


From b3a1af3945bffd9a46debeee26b05dd5ab5296e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 065/107] fix: AOD1B stream interpolates the wrong blocks when
 an epoch is not in the next one

---
 include/aod1b_data_stream.hpp | 59 +++++++----------------------------
 1 file changed, 12 insertions(+), 47 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index dfe433b..5f0ca0d 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -122,25 +122,14 @@ private:
      * Note that mit holds the next (to current) header.
      */
     if (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
-      /* advance to next header/block */
-      if (t >= mhdrvec[2].mepoch && t < mit.header().mepoch) {
-        /* cool, got it! */
+      /* keep on reading (storing the last three blocks), untill we have a
+       * block that is later than t or we hit EOF
+       */
+      while (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
         swap(0, 1);
         swap(1, 2);
         mhdrvec[2] = mit.header();
-        int j = mit.collect(mcsvec[2]);
-        mit.advance();
-        return (j > 0) ? (-1) : (1);
-      } else {
-        /* this block doesn't fit either! keep on reading */
-        int error = 0;
-        while (t <= mit.header().mepoch && (!error)) {
-          /* store coeffs at 0 index */
-          error = mit.collect(mcsvec[0]);
-          mhdrvec[0] = mit.header();
-          error += mit.advance();
-        }
-        if (error) {
+        if (mit.collect(mcsvec[2])) {
           fprintf(stderr,
                   "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
                   "AOD1B file %s; at [1] (traceback: %s)\n",
@@ -149,23 +138,8 @@ private:
                   mit.aod1b().fn().c_str(), __func__);
           return -2;
         }
-        /* read next block so that we have the bounding interval */
-        if (mit.collect(mcsvec[1])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1A] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-        mhdrvec[1] = mit.header();
-        int j = mit.advance();
-        /* since we are here, read also the next block */
-        if (j < 0) {
-          mit.set_eof(); /* already set but nevertheless .. */
-          mhdrvec[2] = mit.header();
-        } else if (j > 0) {
+        /* place iterator at next block (EOF is not an error) */
+        if (mit.advance() > 0) {
           fprintf(stderr,
                   "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
                   "AOD1B file %s; at [2] (traceback: %s)\n",
@@ -173,22 +147,13 @@ private:
                       t, buf),
                   mit.aod1b().fn().c_str(), __func__);
           return -3;
-        } else {
-          if (mit.collect(mcsvec[2])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [3] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-          mhdrvec[2] = mit.header();
-          mit.advance();
         }
-        /* return the index */
-        return 0;
       }
+      /* reached end-of-file, cannot collect any more data sets! */
+      if (t >= mhdrvec[2].mepoch)
+        return -100;
+      /* return the index */
+      return (t >= mhdrvec[1].mepoch) ? 1 : 0;
     } else if (t < mhdrvec[0].mepoch) {
       /* before anything else, check if the given t is after the first dataset
        * in the file. If not, we cannot do anything! Else, go to the start of
-- 
2.43.0


From fe9754e5eea9cf0fb56f23ecc987e4f052d29a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 066/107] fix: AOD1B stream refuses files of three blocks, and
 accepts or ends the program on shorter ones

---
 include/aod1b_data_stream.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 5f0ca0d..64c3e02 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -214,7 +214,14 @@ public:
    * Example:
    */
   int initialize() noexcept {
-    mit.set_begin();
+    try {
+      mit.set_begin();
+    } catch (std::exception &) {
+      fprintf(stderr,
+              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
+              __func__);
+      return 1;
+    }
     if (mit.collect(mcsvec[0])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
@@ -225,12 +232,14 @@ public:
 
     int j = 0;
     for (int i = 1; i < AR_SIZE && (!j); i++) {
-      j = mit.advance();
-      j += mit.collect(mcsvec[i]);
+      if ((j = mit.advance()))
+        break;
+      j = mit.collect(mcsvec[i]);
       mhdrvec[i] = mit.header();
     }
-    /* place iterator at next block */
-    j += mit.advance();
+    /* place iterator at next block (which may be EOF) */
+    if (!j)
+      j = (mit.advance() > 0);
 
     if (j) {
       fprintf(stderr,
-- 
2.43.0


From 4ca838b89ea5fd6e2f393016b2563b6a0c1744a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 067/107] fix: AOD1B stream overruns its filename buffer for
 long directory names

---
 include/aod1b_data_stream.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 64c3e02..74f80a4 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -253,19 +253,21 @@ public:
   /** @brief Continue streaming from a new non-tidal AOD1B file.
    */
   int feed_next_file() noexcept {
-    char pfn[256];
+    std::string pfn;
     {
       int rl = Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
+      if (rl < 0)
+        return 2;
       auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
-      Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl, pfn);
-      std::string fullPathStr = (mdir.path() / pfn).string();
-      std::strcpy(pfn, fullPathStr.c_str());
+      pfn = (mdir.path() /
+             Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl))
+                .string();
     }
     /* read first block of new file to last index */
     constexpr const int index = AR_SIZE - 1;
     /* create an Aod1bIn instance and get the iterator */
     try {
-      mstream = Aod1bIn(pfn);
+      mstream = Aod1bIn(pfn.c_str());
       mit = Aod1bDataBlockIterator<T>(mstream);
     } catch (std::exception &) {
       return 2;
@@ -278,7 +280,7 @@ public:
     if (mit.collect(mcsvec[index])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-              pfn, __func__);
+              pfn.c_str(), __func__);
       return 1;
     }
     mhdrvec[index] = mit.header();
-- 
2.43.0


From 1778abbd4b1d164f13271840776e78055db9e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 068/107] fix: AOD1B stream refuses to continue to a file of
 one block, and ends the program on one without

---
 include/aod1b_data_stream.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 74f80a4..778edf3 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -276,7 +276,11 @@ public:
     swap(0, 1);
     swap(1, 2);
     /* collect header and first data block */
-    mit.set_begin();
+    try {
+      mit.set_begin();
+    } catch (std::exception &) {
+      return 2;
+    }
     if (mit.collect(mcsvec[index])) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
@@ -284,8 +288,8 @@ public:
       return 1;
     }
     mhdrvec[index] = mit.header();
-    /* place iterator at next block */
-    if (mit.advance()) {
+    /* place iterator at next block (which may be EOF) */
+    if (mit.advance() > 0) {
       fprintf(stderr,
               "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
               __func__);
-- 
2.43.0


From 0b23c39ef600306192ccb93f8363cdb888e98ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 069/107] fix: AOD1B stream reads out of bounds for
 coefficients larger than the file's

---
 include/aod1b_data_stream.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 778edf3..1451da8 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -358,6 +358,15 @@ public:
         return 1;
       }
     }
+    /* the result cannot be larger than the coefficients we hold */
+    if (cs.max_degree() > mcsvec[index].max_degree() ||
+        cs.max_order() > mcsvec[index].max_order()) {
+      fprintf(stderr,
+              "[ERROR] Stokes coefficients are larger than the ones in AOD1B "
+              "file %s (traceback: %s)\n",
+              mstream.fn().c_str(), __func__);
+      return 1;
+    }
     /* linear interpolation */
     const auto t1 = mhdrvec[index].mepoch;
     const auto t2 = mhdrvec[index + 1].mepoch;
-- 
2.43.0


From e715b3fd28f6d3c2296fa2c2392a0cf472d371c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 070/107] fix: moved AOD1B streams refer to the moved-from one,
 and lose their directory

---
 include/aod1b.hpp             |  3 +++
 include/aod1b_data_stream.hpp | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index 880eb6f..5910410 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -404,6 +404,9 @@ public:
   /** get a const reference to the underlying Aod1bIn instance */
   const Aod1bIn &aod1b() const {return *maod;}
 
+  /** bind to a different Aod1bIn instance (of the same file) */
+  void rebind(const Aod1bIn &aod) noexcept { maod = &aod; }
+
   /** get current header */
   const Aod1bIn::Aod1bBlockHeader &header() const noexcept { return mheader; }
 
diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 1451da8..38c0e13 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -70,6 +70,16 @@ private:
     return mdir != std::filesystem::directory_entry();
   }
 
+  /** @brief Destroy the stored coefficients (if any) */
+  void destroy_coeffs() noexcept {
+    if (!mcsvec)
+      return;
+    for (int i = 0; i < AR_SIZE; i++)
+      mcsvec[i].~StokesCoeffs();
+    operator delete[](mcsvec);
+    mcsvec = nullptr;
+  }
+
   /** @brief Swap two data block (Stokes coeefs within mcsvec) and the
    * respective headers (within mhdrvec).
    *
@@ -418,9 +428,7 @@ public:
 
   /** Destructor */
   ~Aod1bDataStream() noexcept {
-    for (int i = 0; i < AR_SIZE; i++)
-      mcsvec[i].~StokesCoeffs();
-    operator delete[](mcsvec);
+    destroy_coeffs();
   }
 
   /** No copy constructor */
@@ -430,7 +438,9 @@ public:
   /** Move-construction allowed */
   Aod1bDataStream(Aod1bDataStream &&other) noexcept
       : mstream(std::move(other.mstream)), mit(std::move(other.mit)),
-        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec) {
+        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec),
+        mdir(std::move(other.mdir)) {
+    mit.rebind(mstream);
     other.mcsvec = nullptr;
   }
   /** Move assignement operator allowed */
@@ -438,8 +448,11 @@ public:
     if (this != &other) {
       mstream = std::move(other.mstream);
       mit = std::move(other.mit);
+      mit.rebind(mstream);
       mhdrvec = std::move(other.mhdrvec);
+      destroy_coeffs();
       mcsvec = other.mcsvec;
+      mdir = std::move(other.mdir);
       other.mcsvec = nullptr;
     }
     return *this;
-- 
2.43.0


From 9f2b127150881fdafbf0dc60df1362755d3aff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:24 +0000
Subject: [PATCH 071/107] fix: AOD1B stream interpolates partly read blocks
 after a failed read

---
 include/aod1b_data_stream.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 38c0e13..c2cfc53 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -136,10 +136,11 @@ private:
        * block that is later than t or we hit EOF
        */
       while (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
-        swap(0, 1);
-        swap(1, 2);
-        mhdrvec[2] = mit.header();
-        if (mit.collect(mcsvec[2])) {
+        /* the oldest block is dropped; note that until the new one is
+         * collected, the (now invalid) oldest block should match no epoch
+         */
+        mhdrvec[0] = mhdrvec[1];
+        if (mit.collect(mcsvec[0])) {
           fprintf(stderr,
                   "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
                   "AOD1B file %s; at [1] (traceback: %s)\n",
@@ -148,6 +149,9 @@ private:
                   mit.aod1b().fn().c_str(), __func__);
           return -2;
         }
+        mhdrvec[0] = mit.header();
+        swap(0, 1);
+        swap(1, 2);
         /* place iterator at next block (EOF is not an error) */
         if (mit.advance() > 0) {
           fprintf(stderr,
-- 
2.43.0


From 1d73775fdf4f1d1d76082c8515d0b30412b35c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:24 +0000
Subject: [PATCH 072/107] fix: AOD1B stream is left in an invalid state if the
 next file cannot be read

---
 include/aod1b_data_stream.hpp | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index c2cfc53..401567b 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -277,31 +277,33 @@ public:
              Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl))
                 .string();
     }
-    /* read first block of new file to last index */
-    constexpr const int index = AR_SIZE - 1;
-    /* create an Aod1bIn instance and get the iterator */
     try {
-      mstream = Aod1bIn(pfn.c_str());
-      mit = Aod1bDataBlockIterator<T>(mstream);
+      /* create an Aod1bIn instance, get the iterator and goto first block */
+      Aod1bIn new_stream(pfn.c_str());
+      Aod1bDataBlockIterator<T> new_it(new_stream);
+      new_it.set_begin();
+      /* collect first data block, droping the oldest one (which, until the
+       * new one is collected, should match no epoch)
+       */
+      mhdrvec[0] = mhdrvec[1];
+      if (new_it.collect(mcsvec[0])) {
+        fprintf(stderr,
+                "[ERROR] Failed initializing Aod1bDataStream from %s "
+                "(traceback: %s)\n",
+                pfn.c_str(), __func__);
+        return 1;
+      }
+      /* continue from the new file */
+      mstream = std::move(new_stream);
+      mit = std::move(new_it);
+      mit.rebind(mstream);
     } catch (std::exception &) {
       return 2;
     }
-    /* left shift data */
+    mhdrvec[0] = mit.header();
+    /* left shift data; new block at last index */
     swap(0, 1);
     swap(1, 2);
-    /* collect header and first data block */
-    try {
-      mit.set_begin();
-    } catch (std::exception &) {
-      return 2;
-    }
-    if (mit.collect(mcsvec[index])) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-              pfn.c_str(), __func__);
-      return 1;
-    }
-    mhdrvec[index] = mit.header();
     /* place iterator at next block (which may be EOF) */
     if (mit.advance() > 0) {
       fprintf(stderr,
-- 
2.43.0


From 594ff699512e6e83d55f4f29378e8c54a4106b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:15 +0000
Subject: [PATCH 073/107] fix: AOD1B stream recurses endlessly if the first
 block is later than the header's first epoch

---
 include/aod1b_data_stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 401567b..c27543b 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -192,6 +192,9 @@ private:
             __func__);
         return -5;
       }
+      /* the first block may be later than the first epoch of the header */
+      if (t < mhdrvec[0].mepoch)
+        return -4;
       /* hunt interval from the top of the file */
       return hunt_range(t);
     } else if (t >= mhdrvec[2].mepoch && mit.is_eof()) {
-- 
2.43.0


From 15a38a80dca8eebb5214a7d70b887eef097c5600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 074/107] fix: AOD1B header with unreadable or huge first/last
 epochs computes with indeterminate values

---
 src/lib/aod1b/aod1b_read_header.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 184a404..c46edf9 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -115,12 +115,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
       const char *last = line + std::strlen(line);
       double sec;
       auto res = std::from_chars(header_field(line + 30), last, sec);
-      if (res.ec != std::errc{}) {
+      /* note that the interval must be representable in nanoseconds */
+      if (res.ec != std::errc{} || !(sec > -9e9 && sec < 9e9)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       first_epoch() = time_epoch().add_seconds(isec);
@@ -144,7 +145,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mfirst_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
@@ -152,12 +153,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
       const char *last = line + std::strlen(line);
       double sec;
       auto res = std::from_chars(header_field(line + 29), last, sec);
-      if (res.ec != std::errc{}) {
+      /* note that the interval must be representable in nanoseconds */
+      if (res.ec != std::errc{} || !(sec > -9e9 && sec < 9e9)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       last_epoch() = time_epoch().add_seconds(isec);
@@ -181,7 +183,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mlast_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
-- 
2.43.0


From 7a5e2af7ab33a01f19fecc10a2b33b56c5ec4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 075/107] fix: AOD1B stream skips a day if the last epoch of a
 file is within 52 seconds of midnight

---
 include/aod1b_data_stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index c27543b..4cf628a 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -275,7 +275,9 @@ public:
       int rl = Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
       if (rl < 0)
         return 2;
-      auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
+      /* note that products are named after the date in GPS time */
+      auto mjd =
+          mstream.last_epoch().tt2gps().imjd() + dso::modified_julian_day(1);
       pfn = (mdir.path() /
              Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl))
                 .string();
-- 
2.43.0


From 375e8fe5455b27937b31f2948961f5c883130894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 076/107] fix: tides of waves of different degree and order
 abort or are summed out of bounds

---
 include/tide_atlas.hpp                        | 19 ++++++++++++++++---
 .../atm_tides_geopotential.cpp                |  5 +----
 src/lib/ocean_tide/ocean_tide_potential.cpp   | 10 ++--------
 src/lib/tidal_constituent.cpp                 | 16 ++++++++++++++++
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/include/tide_atlas.hpp b/include/tide_atlas.hpp
index e0bcd6f..ff821f9 100644
--- a/include/tide_atlas.hpp
+++ b/include/tide_atlas.hpp
@@ -13,6 +13,7 @@
 #include "doodson.hpp"
 #include "groops_tide_model.hpp"
 #include "stokes_coefficients.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace dso {
@@ -62,6 +63,15 @@ public:
   TidalConstituent(const TidalWave &wave, int max_degree,
                    int max_order) noexcept;
 
+  /* @brief Add the contribution of the wave to Stokes coefficients, i.e.
+   * cs += stokes_cos() * fcos + stokes_sin() * fsin
+   *
+   * The instances may be of different degree and order; coefficients not
+   * included in an instance are zero, and ones not included in cs are not
+   * considered.
+   */
+  void add_to(StokesCoeffs &cs, double fcos, double fsin) const noexcept;
+
 }; /* TidalConstituent */
 
 /** @class TidalAtlas
@@ -81,15 +91,18 @@ public:
     int max_degree = 0;
     max_order = 0;
     for (const auto &w : mwaves) {
-      max_degree = std::max(max_degree, w.stokes_cos().max_degree());
-      max_order = std::max(max_order, w.stokes_cos().max_order());
+      max_degree = std::max({max_degree, w.stokes_cos().max_degree(),
+                             w.stokes_sin().max_degree()});
+      max_order = std::max({max_order, w.stokes_cos().max_order(),
+                            w.stokes_sin().max_order()});
     }
     return max_degree;
   }
   int max_atlas_degree() const noexcept {
     int max_degree = 0;
     for (const auto &w : mwaves) {
-      max_degree = std::max(max_degree, w.stokes_cos().max_degree());
+      max_degree = std::max({max_degree, w.stokes_cos().max_degree(),
+                             w.stokes_sin().max_degree()});
     }
     return max_degree;
   }
diff --git a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
index d282988..0fdbd66 100644
--- a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
@@ -22,10 +22,7 @@ int dso::AtmosphericTide::stokes_coeffs(
                        wave.wave().doodson().pifactor() * dso::DPI/2;
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    wave.add_to(mcs, carg, sarg);
   }
 
   return 0;
diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index fc9e53c..3813cd2 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -22,10 +22,7 @@ int dso::OceanTide::stokes_coeffs_impl(
     const double arg = wave.wave().doodson().argument(f);
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    wave.add_to(mcs, carg, sarg);
   }
 
   return 0;
@@ -75,10 +72,7 @@ int dso::OceanTide::stokes_coeffs_with_admittance_impl(
   const double *__restrict__ fcos = factorCos.data();
   const double *__restrict__ fsin = factorSin.data();
   for (const auto &wave : atlas().waves()) {
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * (*fcos) + wave.stokes_sin().Cnm() * (*fsin);
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * (*fcos) + wave.stokes_sin().Snm() * (*fsin);
+    wave.add_to(mcs, *fcos, *fsin);
     // printf("fcos = %.12e fsin = %.12e\n", *fcos, *fsin);
     ++fcos;
     ++fsin;
diff --git a/src/lib/tidal_constituent.cpp b/src/lib/tidal_constituent.cpp
index 778430f..0406671 100644
--- a/src/lib/tidal_constituent.cpp
+++ b/src/lib/tidal_constituent.cpp
@@ -9,3 +9,19 @@ dso::TidalConstituent::TidalConstituent(const dso::TidalWave &wave, int max_degr
                       int max_order) noexcept
     : mwave(wave), mCosCs(max_degree, max_order),
       mSinCs(max_degree, max_order){};
+
+void dso::TidalConstituent::add_to(dso::StokesCoeffs &cs, double fcos,
+                                   double fsin) const noexcept {
+  const auto add = [&cs](const dso::StokesCoeffs &w, double fac) {
+    const int max_degree = std::min(cs.max_degree(), w.max_degree());
+    const int max_order = std::min(cs.max_order(), w.max_order());
+    for (int m = 0; m <= max_order; m++) {
+      for (int l = m; l <= max_degree; l++) {
+        cs.C(l, m) += w.C(l, m) * fac;
+        cs.S(l, m) += w.S(l, m) * fac;
+      }
+    }
+  };
+  add(mCosCs, fcos);
+  add(mSinCs, fsin);
+}
-- 
2.43.0


From d1e7a025c7e080e683ea8090826e683c12cc13fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 077/107] fix: appending an atmospheric tide wave may shrink
 the model

---
 .../atmospheric_tides/atm_tides_append_wave.cpp    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 44b3766..147517c 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -1,4 +1,5 @@
 #include "atmospheric_tides.hpp"
+#include <algorithm>
 #include <stdexcept>
 
 int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
@@ -42,11 +43,14 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
   }
 
   /* do we need to re-size the instance's stokes coeffs size? */
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
-  }
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
+  if (atlas().waves().size() == 1) {
+    /* first wave; no storage yet */
+    mcs.resize(mdeg_collected, mord_collected);
+    mcs.clear();
+  } else if (mdeg_collected > mcs.max_degree() ||
+             mord_collected > mcs.max_order()) {
+    mcs.cresize(std::max(mdeg_collected, mcs.max_degree()),
+                std::max(mord_collected, mcs.max_order()));
   }
 
   return 0;
-- 
2.43.0


From 6c0491c5fc2d403f50b9d73f03d33c36363b6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 078/107] fix: appending an atmospheric tide wave with order >
 degree aborts

---
 src/lib/atmospheric_tides/atm_tides_append_wave.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 147517c..d527e86 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -18,6 +18,14 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
     if (max_order < 0)
       max_order = aod1b.max_degree();
 
+    if (max_order > max_degree || max_degree > aod1b.max_degree()) {
+      fprintf(stderr,
+              "[ERROR] Invalid max degree/order given for tidal wave from "
+              "AOD1B file %s (traceback: %s)\n",
+              aod1b_fn, __func__);
+      return 1;
+    }
+
     /* construct new instance */
     dso::TidalConstituent newWave(aod1b.tidal_wave(), max_degree, max_order);
 
-- 
2.43.0


From eb110885de2f2587aa70b594bc2cce2a367effa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 079/107] fix: tide model names longer than 63 characters are
 written out of bounds

---
 include/atmospheric_tides.hpp | 4 ++--
 include/ocean_tide.hpp        | 4 ++--
 include/tide_atlas.hpp        | 7 +++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index a724e1d..474e09e 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -88,7 +88,7 @@ public:
   /** @brief Constructor, optionally using a model name (no waves added). */
   AtmosphericTide(const char *name=nullptr):matlas() {
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Constructor, using an atlas and optionally a model name. */
@@ -99,7 +99,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
   
   /** @brief Max degree of the model (as in mcs) */
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index a205be1..e33f404 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -136,7 +136,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Constructor given an atlas, a GroopsTideModel (for admittance) and 
@@ -158,7 +158,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      matlas.set_name(name);
   }
 
   /** @brief Destructor; deletes GroopsTideModel if any. */
diff --git a/include/tide_atlas.hpp b/include/tide_atlas.hpp
index ff821f9..d66c7af 100644
--- a/include/tide_atlas.hpp
+++ b/include/tide_atlas.hpp
@@ -14,6 +14,7 @@
 #include "groops_tide_model.hpp"
 #include "stokes_coefficients.hpp"
 #include <algorithm>
+#include <cstring>
 #include <vector>
 
 namespace dso {
@@ -133,6 +134,12 @@ public:
   const char *name() const { return mname; }
   char *name() { return mname; }
 
+  /** Set the name of the model, truncated to NAME_MAX_CHARS-1 chars */
+  void set_name(const char *name) noexcept {
+    std::strncpy(mname, name, NAME_MAX_CHARS - 1);
+    mname[NAME_MAX_CHARS - 1] = '\0';
+  }
+
   /** @brief Append a tidal wave.
    *
    * Append a tidal wave using an TidalWave instance to describe it. The new
-- 
2.43.0


From 2966c408b1f7a12bdf842105d44daa1e18152d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 080/107] fix: move-assigned ocean tide without admittance
 keeps a pointer to the deleted one

---
 include/ocean_tide.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index e33f404..8c92ec9 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -193,11 +193,11 @@ public:
 
   /** @brief Move assignment operator */
   OceanTide &operator=(OceanTide &&ot) noexcept {
-    matlas = std::move(ot.matlas);
-    mcs = std::move(ot.mcs);
-    if (gmodel)
-      delete gmodel;
-    if (ot.gmodel) {
+    if (this != &ot) {
+      matlas = std::move(ot.matlas);
+      mcs = std::move(ot.mcs);
+      if (gmodel)
+        delete gmodel;
       gmodel = ot.gmodel;
       ot.gmodel = nullptr;
     }
-- 
2.43.0


From d101513e5057bab208c6611938f74ff67ebd8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 081/107] fix: ocean tide without admittance dereferences null
 when asked for its waves

---
 include/ocean_tide.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index 8c92ec9..64988ff 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -28,6 +28,7 @@
 #include "aod1b.hpp"
 #include "datetime/calendar.hpp"
 #include "tide_atlas.hpp"
+#include <type_traits>
 
 namespace dso {
 
@@ -116,12 +117,22 @@ public:
 
   /* @brief Return Admittance matrix (if admittance is included). */
   auto admittance_matrix() const noexcept {
-    return gmodel->admittance_matrix();
+    using M = std::decay_t<decltype(gmodel->admittance_matrix())>;
+    return gmodel ? M(gmodel->admittance_matrix()) : M();
   }
 
-  auto doodson_matrix() const noexcept { return gmodel->doodson_matrix(); }
-  auto num_waves() const noexcept { return gmodel->num_waves(); }
-  auto num_major_waves() const noexcept { return gmodel->num_major_waves(); }
+  auto doodson_matrix() const noexcept {
+    using M = std::decay_t<decltype(gmodel->doodson_matrix())>;
+    return gmodel ? M(gmodel->doodson_matrix()) : M();
+  }
+  int num_waves() const noexcept {
+    return gmodel ? gmodel->num_waves()
+                  : static_cast<int>(matlas.waves().size());
+  }
+  int num_major_waves() const noexcept {
+    return gmodel ? gmodel->num_major_waves()
+                  : static_cast<int>(matlas.waves().size());
+  }
 
   /** @brief Constructor given an atlas and a (model) name. 
    *
-- 
2.43.0


From b277a86c88481bb05e12578a9a0302b7897f2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 082/107] fix: ocean tide reads out of bounds if the admittance
 has fewer rows than the atlas

---
 src/lib/ocean_tide/ocean_tide_potential.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index 3813cd2..5fe8415 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -31,6 +31,15 @@ int dso::OceanTide::stokes_coeffs_impl(
 int dso::OceanTide::stokes_coeffs_with_admittance_impl(
     const dso::MjdEpoch &mjdtt, const dso::MjdEpoch &mjdut1,
     const double *const delaunay_args) noexcept {
+  /* the admittance should have one row per (major) wave of the atlas */
+  if (num_major_waves() != static_cast<int>(atlas().waves().size()) ||
+      admittance_matrix().cols() != doodson_matrix().rows()) {
+    fprintf(stderr,
+            "[ERROR] Admittance and tide atlas do not match (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
   /* nullify geopotential coeffs */
   mcs.clear();
 
-- 
2.43.0


From f71c2caf378b365c6e824e5c58c724a482f498be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 083/107] fix: tide atlas file list with only one part of a
 wave is accepted

---
 src/lib/tide_atlas_groops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 8873c53..cc973d4 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -259,7 +259,7 @@ struct GroopsTideModelFileName {
     const char *w = (wave_name == nullptr) ? _constituentName : wave_name;
     char str[124] = {'\0'};
     std::sprintf(str, "%s_%s_%s_%s.gfc", m, buf, w,
-                 (sincos == 'c') ? "sin" : "cos");
+                 (sincos == 'c') ? "cos" : "sin");
     return std::string(str);
   }
 
-- 
2.43.0


From ad81b6da78c7b4ff178bb7579808cb42a9bfb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 084/107] fix: tide atlas filenames of unexpected length or
 form are read and written out of bounds

---
 src/lib/tide_atlas_groops.cpp | 39 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index cc973d4..9869a70 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -236,7 +236,7 @@ struct GroopsTideModelFileName {
   char _model[48] = {"\0"};
   dso::DoodsonConstituent _doodson;
   char _constituentName[16] = {"\0"};
-  char _sinCos; /* 'c' or 's' */
+  char _sinCos{'\0'}; /* 'c' or 's' */
 
   std::string compile(const char *model_name = nullptr,
                       const dso::DoodsonConstituent *dood = nullptr,
@@ -267,6 +267,22 @@ struct GroopsTideModelFileName {
     int error = 0;
     /* pattern is <model name>_<doodson>_<name>_<cos/sin>.gfc */
     const int sz = std::strlen(fn);
+    /* split by '_', backwards */
+    const std::string str(fn);
+    const auto u3 = str.rfind('_');
+    const auto u2 = (u3 == std::string::npos || !u3) ? std::string::npos
+                                                     : str.rfind('_', u3 - 1);
+    const auto u1 = (u2 == std::string::npos || !u2) ? std::string::npos
+                                                     : str.rfind('_', u2 - 1);
+    if (u1 == std::string::npos || sz - u3 != 8 || u1 >= sizeof(_model) ||
+        u3 - u2 - 1 >= sizeof(_constituentName)) {
+      fprintf(stderr,
+              "[ERROR] Failed parsing tidal constituent filename %s, part of "
+              "some tide atlas (traceback: %s)\n",
+              fn, __func__);
+      throw std::runtime_error(
+          "[ERROR] Failed parsing gfc constituent filename\n");
+    }
     /* start backwards; check extension fn[sz-4:sz] == .gfc */
     if (std::strncmp(fn + sz - 4, ".gfc", 4))
       ++error;
@@ -285,26 +301,13 @@ struct GroopsTideModelFileName {
     }
 
     /* get name of harmonic */
-    int lastchar = sz - 9; /* should be just be before '_[sin|cos]' */
-    {
-      const char *str = fn + lastchar;
-      while (*str && *str != '_')
-        --str;
-      std::memcpy(_constituentName, str + 1, fn + sz - 9 - str);
-      lastchar = str - fn;
-    }
+    std::memcpy(_constituentName, fn + u2 + 1, u3 - u2 - 1);
 
     /* get Doodson */
-    {
-      const char *str = fn + lastchar - 1;
-      while (*str && *str != '_')
-        --str;
-      _doodson = dso::DoodsonConstituent::from_chars(str + 1);
-      lastchar = str - fn;
-    }
+    _doodson = dso::DoodsonConstituent::from_chars(fn + u1 + 1);
 
     /* the rest is the model name */
-    std::memcpy(_model, fn, lastchar);
+    std::memcpy(_model, fn, u1);
 
     if (error) {
       fprintf(stderr,
@@ -323,7 +326,7 @@ struct GroopsTideModelFileName {
  * 1. make sure we have no duplicates,
  * 2. make sure for every sin file there is a corresponding cos file
  */
-int validate_file_list(const std::vector<std::string> &file_list) noexcept {
+int validate_file_list(const std::vector<std::string> &file_list) {
   /* search for duplicates */
   std::set<std::string> file_set(file_list.begin(), file_list.end());
   if (file_list.size() != file_set.size()) {
-- 
2.43.0


From b9f9fe3a82bebdfb313e483026ff907c3dd71773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 085/107] fix: tide atlas in a directory of a long name
 overruns the filename buffer

---
 src/lib/tide_atlas_groops.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 9869a70..a233ae0 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -415,20 +415,19 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
       ;
     }
 
-    char cfilename[248];
+    std::string cfilename(dir);
     {
       /* construct full filename, including path */
-      std::strcpy(cfilename, dir);
 #ifdef _WIN32
-      std::strcat(cfilename, "\\");
+      cfilename += "\\";
 #else
-      std::strcat(cfilename, "/");
+      cfilename += "/";
 #endif
-      std::strcat(cfilename, wave_fn.c_str());
+      cfilename += wave_fn;
     }
 
     /* an Icgem instance to read data from (Stokes coefficients) */
-    dso::Icgem icgem(cfilename);
+    dso::Icgem icgem(cfilename.c_str());
     // if (tmp_name[0] && std::strcmp(tmp_name, icgem.model_name())) {
     //   fprintf(stderr,
     //           "[WRNNG] Model name in file %s differs from previous files,
-- 
2.43.0


From 23fc2b7f45aa465ea70f76db0d1136ffd9fac2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 086/107] fix: long model names in tide atlas files are written
 out of bounds

---
 src/lib/tide_atlas_groops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index a233ae0..4d0952d 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -435,7 +435,7 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
     //           "%s vs %s (traceback: %s)\n",
     //           wave_fn.c_str(), icgem.model_name(), tmp_name, __func__);
     // }
-    std::strcpy(tmp_name, icgem.model_name());
+    std::strncpy(tmp_name, icgem.model_name(), sizeof(tmp_name) - 1);
 
     /* read coefficients to sin/cos part */
     dso::StokesCoeffs *cs =
@@ -457,7 +457,7 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
   } /* done looping through files */
 
   /* assign atlas name */
-  std::strcpy(atlas.name(), tmp_name);
+  atlas.set_name(tmp_name);
 
   return atlas;
 }
-- 
2.43.0


From 5bad7629d23cd78d0e3425bcbc6f5264ba791a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 087/107] fix: tide admittance with more or fewer rows than
 waves is out of bounds or uninitialised

---
 src/lib/tide_atlas_groops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 4d0952d..0e023f7 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -179,7 +179,7 @@ parse_admittance(const char *fn, int k, int f) noexcept {
   Eigen::MatrixXd mat = Eigen::MatrixXd(rows, cols);
 #endif
   while (fin.getline(line, LSZ) && (!error)) {
-    if (row > rows) {
+    if (row >= rows) {
       fprintf(stderr,
               "[ERROR] More rows than expected in admittance file %s "
               "(traceback: %s)\n",
@@ -210,7 +210,7 @@ parse_admittance(const char *fn, int k, int f) noexcept {
 
   std::free(line);
 
-  if (error || !(fin.good() || fin.eof())) {
+  if (error || !(fin.good() || fin.eof()) || row != rows) {
     fprintf(
         stderr,
         "[ERROR] Failed resolving admittance from file %s (traceback: %s)\n",
-- 
2.43.0


From 3978a7364e18f95c8ffb85d5656001cc79a85ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 088/107] fix: tide atlas of a degree below 120 and any order
 aborts

---
 src/lib/tide_atlas_groops.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 0e023f7..9be1faa 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -391,7 +391,14 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
 
   char tmp_name[dso::TideAtlas::NAME_MAX_CHARS] = {'\0'};
   int cmaxdeg = (max_degree < 0) ? 120 : max_degree;
-  int cmaxord = (max_order < 0) ? 120 : max_order;
+  int cmaxord = (max_order < 0) ? cmaxdeg : max_order;
+  if (cmaxord > cmaxdeg) {
+    fprintf(stderr,
+            "[ERROR] Invalid max degree/order given for tide atlas (traceback: "
+            "%s)\n",
+            __func__);
+    throw std::runtime_error("[ERROR] Invalid tide atlas degree/order\n");
+  }
   /* iterate through input files (waves) and read/parse coefficients for each
    * of the k waves of the atlas
    */
-- 
2.43.0


From cebbc9f802f81f41dc3170aca12bfb87c80e3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 089/107] fix: tide atlas file list with an empty line is read
 out of bounds

---
 src/lib/tide_atlas_groops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 9be1faa..bd32d17 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -82,6 +82,9 @@ std::vector<std::string> resolve_file_list(const char *fn) noexcept {
     const char *end2 = str2;
     while (*end2 && *end2 != ' ')
       ++end2;
+    /* empty line */
+    if (end1 == str1)
+      continue;
     std::string sline(line);
     fnvec.emplace_back(sline.substr(str1 - line, end1 - str1));
     fnvec.emplace_back(sline.substr(str2 - line, end2 - str2));
-- 
2.43.0


From 9fb164d7c04e5268208ff81f170b19af05ab0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 090/107] fix: Doodson matrix of a tide atlas is silently
 truncated at a long line

---
 src/lib/tide_atlas_groops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index bd32d17..b6b2841 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -123,7 +123,7 @@ Eigen::Matrix<int, Eigen::Dynamic, 6> parse_doodson(const char *fn) noexcept {
     data.push_back(ar);
   }
 
-  if (error) {
+  if (error || !fin.eof()) {
     fprintf(stderr,
             "[ERROR] Failed resolving Doodson numbers from file %s (traceback: "
             "%s)\n",
@@ -393,7 +393,7 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
   dso::TideAtlas atlas;
 
   char tmp_name[dso::TideAtlas::NAME_MAX_CHARS] = {'\0'};
-  int cmaxdeg = (max_degree < 0) ? 120 : max_degree;
+  int cmaxdeg = (max_degree < 0) ? std::max(120, max_order) : max_degree;
   int cmaxord = (max_order < 0) ? cmaxdeg : max_order;
   if (cmaxord > cmaxdeg) {
     fprintf(stderr,
-- 
2.43.0


From b3493163c2da7a87f7fd35c9154a12c269c64035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 091/107] fix: merge more than two AOD1B files

The record and data set counts of the files merged so far are summed, hence
they never match those of the next file and the merge gave up.
---
 bin/mergeAod1b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 321557f..aaa82d6 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -57,7 +57,7 @@ class Aod1b:
         return int(key)
     def headersMatch(self, other):
         for k,v in self.dct.items():
-            if k not in ['TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'PRODUCT START CREATE TIME(UTC)', 'PRODUCT END CREATE TIME(UTC)', 'FILESIZE (BYTES)', 'FILENAME']:
+            if k not in ['TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'PRODUCT START CREATE TIME(UTC)', 'PRODUCT END CREATE TIME(UTC)', 'FILESIZE (BYTES)', 'FILENAME', 'NUMBER OF DATA RECORDS', 'NUMBER OF DATA SETS']:
                 if v != other.dct[k]:
                     print('Warning! Mismatch in AOD1B headers! Field is {:}'.format(k))
                     return False
-- 
2.43.0


From 0639aac2e2a45c272f2b06c5ce6d91f359428487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 092/107] fix: end the header of a merged AOD1B file

Without the END OF HEADER line no reader accepts the file.
---
 bin/mergeAod1b.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index aaa82d6..2180fdb 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -82,6 +82,7 @@ class Aod1b:
     def dump(self, ofile=sys.stdout):
         for k,v in self.dct.items():
             print('{:30s}: {:}'.format(k,v), file=ofile)
+        print('END OF HEADER', file=ofile)
 
 def sortAod1bFileList(file_list):
     Aod1bFileList = []
-- 
2.43.0


From d4709e4255358be3cd8ea5079fe8c8d37b7aa45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 093/107] fix: do not loop forever on an AOD1B file whose
 header has no end

---
 bin/mergeAod1b.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 2180fdb..f6a91a5 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -30,6 +30,8 @@ def catAod1bData(fn, fout):
     with open(fn, 'r') as fin:
         while True:
             line = fin.readline()
+            if not line:
+                raise ValueError('No END OF HEADER in AOD1B file {:}'.format(fn))
             if line.strip() == "END OF HEADER":
                 break
         s = fin.read()
-- 
2.43.0


From e719ad5bbe25022bbd9e094e8a0c8d4a4798d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 094/107] fix: merge AOD1B files prior to the reference epoch
 of 2000

Their seconds past the epoch are negative.
---
 bin/mergeAod1b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index f6a91a5..9a973cf 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -45,11 +45,11 @@ class Aod1b:
         return datetime.datetime.strptime(self.dct['TIME EPOCH (GPS TIME)'], "%Y-%m-%d %H:%M:%S")
     def firstObs(self):
         val = self.dct['TIME FIRST OBS(SEC PAST EPOCH)']
-        d = re.match(r'[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
+        d = re.match(r'-?[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
         return datetime.datetime.strptime(d, "%Y-%m-%d %H:%M:%S")
     def lastObs(self):
         val = self.dct['TIME LAST OBS(SEC PAST EPOCH)']
-        d = re.match(r'[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
+        d = re.match(r'-?[0-9]*.[0-9]* *\(([0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2})', val)[1]
         return datetime.datetime.strptime(d, "%Y-%m-%d %H:%M:%S")
     def numDataSets(self):
         key = self.dct['NUMBER OF DATA SETS']
-- 
2.43.0


From ef701ee29d15c71a14abcdb74b6f1eab17801249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 095/107] fix: write the merged AOD1B file in the output
 directory

Input files given with a path ended up next to their source, whatever the
output directory, a file without the .asc extension was overwritten, and a
temporary file was left in the working directory.
---
 bin/mergeAod1b.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/bin/mergeAod1b.py b/bin/mergeAod1b.py
index 9a973cf..f612325 100755
--- a/bin/mergeAod1b.py
+++ b/bin/mergeAod1b.py
@@ -72,7 +72,7 @@ class Aod1b:
         if first.firstObs() > second.firstObs():
             first, second = other, self
         assert(first.lastObs() < second.firstObs())
-        cpy = copy.deepcopy(self)
+        cpy = copy.deepcopy(first)
         microsec = (second.lastObs() - first.timeEpoch()).total_seconds() * 1e6
         cpy.dct['TIME LAST OBS(SEC PAST EPOCH)'] = '{:.6f} ({:})'.format(microsec*1e-6, second.lastObs().strftime('%Y-%m-%d %H:%M:%S'))
         cpy.dct['NUMBER OF DATA RECORDS'] = ' {:}'.format(first.numDataRecords() + second.numDataRecords())
@@ -123,18 +123,14 @@ parser.add_argument(
 
 if __name__ == "__main__":
     args = parser.parse_args()
-    tmpout = '.aod1bdata'
-    
+
     sfiles = sortAod1bFileList(args.files)
-    with open(tmpout, 'w') as fout:
-        merged = Aod1b(sfiles[0])
-        catAod1bData(sfiles[0], fout)
-        for f in sfiles[1:]:
-            merged = merged.merge(Aod1b(f))
-            catAod1bData(f, fout)
+    merged = Aod1b(sfiles[0])
+    for f in sfiles[1:]:
+        merged = merged.merge(Aod1b(f))
+        if merged is None: sys.exit(1)
 
-    outf = os.path.join(args.out_dir, sfiles[0].replace('.asc', '.merged.asc'))
-    with open(outf, 'w') as fout: 
+    outf = os.path.join(args.out_dir, '.merged'.join(os.path.splitext(os.path.basename(sfiles[0]))))
+    with open(outf, 'w') as fout:
         merged.dump(fout)
-        with open(tmpout, 'r') as fin:
-            fout.write(fin.read())
+        for f in sfiles: catAod1bData(f, fout)
-- 
2.43.0


From 8fd5290b1f328554087e39bb3e296a4bbb389bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:01 +0000
Subject: [PATCH 096/107] fix: interrupted download of an AOD1B file taken for
 the product

A transfer that failed left a partial (or empty) file with the name of the
product, and the next run skipped it as already present.
---
 bin/getAod1b.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/getAod1b.py b/bin/getAod1b.py
index f80b1a9..d28ab82 100755
--- a/bin/getAod1b.py
+++ b/bin/getAod1b.py
@@ -29,7 +29,12 @@ def ftpget(server, fdir, fn, outdir, saveas=None):
     ftp.login()
     ftp.cwd(fdir)
     #ftp.retrlines('LIST')
-    ftp.retrbinary("RETR {}".format(fn), open(saveas, 'wb').write)
+    # download to a temporary name; an interrupted download must not be mistaken
+    # for the product file
+    tmp = saveas + '.part'
+    with open(tmp, 'wb') as fout:
+        ftp.retrbinary("RETR {}".format(fn), fout.write)
+    os.replace(tmp, saveas)
     ftp.quit()
     return saveas
 
-- 
2.43.0


From 8383a6e8ece2ddb8c83472ca3a8e599f80509c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 097/107] fix: uninitialised buffer printed when an AOD1B block
 is cut before its first line

---
 src/lib/aod1b/aod1b_collect_coeffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 553e021..2e9e63b 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -56,7 +56,7 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
   int lines_parsed = 0;
 
   constexpr const int MAXL = 124;
-  char line[MAXL];
+  char line[MAXL] = {'\0'};
   int error = 0;
   /* actual degree/order collectedd from file */
   int max_degree_collected = 0;
-- 
2.43.0


From 0312e72d28ec5c0da9010b7420f0ef717e92c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:10 +0000
Subject: [PATCH 098/107] fix: GROOPS file list cut silently at a line too long
 to read

---
 src/lib/tide_atlas_groops.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index b6b2841..536b3de 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -89,6 +89,12 @@ std::vector<std::string> resolve_file_list(const char *fn) noexcept {
     fnvec.emplace_back(sline.substr(str1 - line, end1 - str1));
     fnvec.emplace_back(sline.substr(str2 - line, end2 - str2));
   }
+  /* a line too long to be read stops the loop; do not ignore what follows */
+  if (!fin.eof()) {
+    fprintf(stderr, "[ERROR] Failed reading file list %s (traceback: %s)\n", fn,
+            __func__);
+    return std::vector<std::string>{};
+  }
   return fnvec;
 }
 
-- 
2.43.0


From 14017d11dc0878b5207519c5a913fd5b82bd4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 099/107] fix: interrupted decompression of an AOD1B file taken
 for the product

---
 bin/getAod1b.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/getAod1b.py b/bin/getAod1b.py
index d28ab82..7d207e1 100755
--- a/bin/getAod1b.py
+++ b/bin/getAod1b.py
@@ -129,8 +129,10 @@ if __name__ == "__main__":
         if saveas.endswith('.gz') and args.dcmp:
             ns = saveas[0:-3]
             with gzip.open(saveas, 'rb') as fin:
-                with open(ns, 'wb') as fout:
+# as with downloads, a half-way decompressed file must not be taken for the product
+                with open(ns + '.part', 'wb') as fout:
                     shutil.copyfileobj(fin, fout)
+            os.replace(ns + '.part', ns)
             saveas = ns
 # next day
         t += datetime.timedelta(days=1)
-- 
2.43.0


From ce13e0de28c7c82c9701fba9a11c56c795045c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:56 +0000
Subject: [PATCH 100/107] fix: concurrent queries of a shared EOP series

EopSeries::interpolate and approx_dut1 are const, but wrote the interpolation
workspace and the index of the last interval used into the instance, so
threads sharing a (const) series overwrote each other's terms and got wrong
values. Keep the workspace local to the call and the hint atomic.
---
 include/eop.hpp                        | 24 ++++++++++++++++++------
 src/lib/eop/approx_dut1.cpp            |  2 +-
 src/lib/eop/lagrange_interpolation.cpp |  4 +++-
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/eop.hpp b/include/eop.hpp
index 65f3801..5f64fe3 100644
--- a/include/eop.hpp
+++ b/include/eop.hpp
@@ -10,6 +10,7 @@
 #include "datetime/calendar.hpp"
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <utility>
 #include <vector>
 
@@ -191,13 +192,24 @@ class EopSeries {
    * within one day (e.g. every N seconds). This is the most often use-case.
    * This is a mutable member, i.e. changing values in here does not actually
    * 'change' the instance; it is only used to hunt interpolation indexes.
+   * It is atomic, so that a (const) series can be shared between threads.
    */
-  mutable std::size_t last_idx{0};
-  /** Scratch/Workspace memoty to use in interpolation.
-   * This is a mutable member, i.e. changing values in here does not actually
-   * 'change' the instance.
-   */
-  mutable std::array<double, (MAX_POLY_INTERPOLATION_DEGREE + 1) * 2> work;
+  struct IndexHint {
+    std::atomic<std::size_t> idx{0};
+    IndexHint() noexcept = default;
+    IndexHint(const IndexHint &o) noexcept : idx(std::size_t(o)) {}
+    IndexHint &operator=(const IndexHint &o) noexcept {
+      return *this = std::size_t(o);
+    }
+    IndexHint &operator=(std::size_t i) noexcept {
+      idx.store(i, std::memory_order_relaxed);
+      return *this;
+    }
+    operator std::size_t() const noexcept {
+      return idx.load(std::memory_order_relaxed);
+    }
+  }; /* IndexHint */
+  mutable IndexHint last_idx;
 
   /** @brief Compute and add or remove zonal tidal variations (for UT1 and LOD).
    *
diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index a69a3a2..53c1ee1 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -4,7 +4,7 @@ dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
   /* find a matching interval (try for last used iterator first) */
-  auto it = mvec.begin() + std::min(last_idx, mvec.size());
+  auto it = mvec.begin() + std::min<std::size_t>(last_idx, mvec.size());
   if (it == mvec.begin() || it == mvec.end() ||
       !((it - 1)->t() <= t && t < it->t()))
     it = this->upper_bound(t);
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 5a2f42e..8c8c036 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -1,4 +1,5 @@
 #include "eop.hpp"
+#include <array>
 #include <cassert>
 #include <cstdio>
 
@@ -8,7 +9,7 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
   /* find a matching interval (try for last used iterator first) */
-  auto it = mvec.begin() + std::min(last_idx, mvec.size());
+  auto it = mvec.begin() + std::min<std::size_t>(last_idx, mvec.size());
   if (it == mvec.begin() || it == mvec.end() ||
       !((it - 1)->t() <= t && t < it->t()))
     it = this->upper_bound(t);
@@ -79,6 +80,7 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
   const auto stop = it + ndp;
   /* nom[j] <- Π_{k=0,k!=j}^{n} (x-x_k) */
   /* dom[j] <- Π_{k=0,k!=j}^{n} (x_j-x_k) */
+  std::array<double, (MAX_POLY_INTERPOLATION_DEGREE + 1) * 2> work;
   auto nom = work.begin();
   auto dom = work.begin() + MAX_POLY_INTERPOLATION_DEGREE + 1;
   for (; i != stop; ++i) {
-- 
2.43.0


From 6a94adfbd8e75023acf5eb088dd5c7f0365cb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 101/107] fix: dates out of the range of int in C04 EOP files

---
 src/lib/eop/parse_iers_c0414.cpp | 2 +-
 src/lib/eop/parse_iers_c0420.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index f6f117f..e89d88c 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -68,7 +68,7 @@ int dso::details::parse_iers_C0414(const char *c04fn,
   while (fin.getline(line, MAX_LINE_CHARS) && !error) {
     const char *cstart;
     const char *cend = line + std::strlen(line);
-    long imjd=0;
+    int imjd=0;
     if (line[0] && (*line != ' ' && *line != '#')) {
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 6341f33..8a9bb3c 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -4,6 +4,7 @@
 #include <cstring>
 #include <fstream>
 #include <cmath>
+#include <limits>
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
@@ -107,7 +108,8 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         double imjd;
         double fdays = std::modf(mjd, &imjd);
         /* note that the MJD is only given with two decimal digits */
-        if (!(std::abs(fdays - hours / 24e0) < 1e-2)) {
+        if (!(std::abs(fdays - hours / 24e0) < 1e-2) ||
+            std::abs(imjd) > std::numeric_limits<int>::max()) {
           fprintf(stderr,
                   "[ERROR] Hours and MJD do not match in eop file %s "
                   "(traceback: %s)\n",
-- 
2.43.0


From 820a7a9f6dd64345f7a4bb4be13be58cbc5208b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:34 +0000
Subject: [PATCH 102/107] fix: grid points just below the upper limit got an
 index outside the grid

---
 include/grid.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 0688121..188cc11 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -1,6 +1,7 @@
 #ifndef __DSO_TOOLS_GRID_HPP__
 #define __DSO_TOOLS_GRID_HPP__
 
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 
@@ -19,11 +20,12 @@ private:
   double mystart, mystep;
 
   int xindex(double xpts) const noexcept {
-    return std::floor((xpts - mxstart) / mxstep);
+    /* rounding must not take points next to xstop() out of the last cell */
+    return std::min((int)std::floor((xpts - mxstart) / mxstep), mxpts - 1);
   }
 
   int yindex(double ypts) const noexcept {
-    return std::floor((ypts - mystart) / mystep);
+    return std::min((int)std::floor((ypts - mystart) / mystep), mypts - 1);
   }
 
   long xyindex(double xpts, double ypts) const noexcept {
-- 
2.43.0


From 4ac6a97a8d09cac821cac25a41034f6b5962c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:02 +0000
Subject: [PATCH 103/107] fix: query of an empty EOP series dereferences null

---
 src/lib/eop/approx_dut1.cpp            | 4 ++++
 src/lib/eop/lagrange_interpolation.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 53c1ee1..8230bcb 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -3,6 +3,10 @@
 dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
+  /* an empty series has no record, not even one to copy */
+  if (mvec.empty())
+    return EopInterpolationResult::OutOfBoundsPrior;
+
   /* find a matching interval (try for last used iterator first) */
   auto it = mvec.begin() + std::min<std::size_t>(last_idx, mvec.size());
   if (it == mvec.begin() || it == mvec.end() ||
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 8c8c036..0a9fbec 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -8,6 +8,10 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
                             int degree) const noexcept {
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
+  /* an empty series has no record, not even one to copy */
+  if (mvec.empty())
+    return EopInterpolationResult::OutOfBoundsPrior;
+
   /* find a matching interval (try for last used iterator first) */
   auto it = mvec.begin() + std::min<std::size_t>(last_idx, mvec.size());
   if (it == mvec.begin() || it == mvec.end() ||
-- 
2.43.0


From 361844132cbdae3aec367abb8943fb78fea3a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:15 +0000
Subject: [PATCH 104/107] fix: header conversion loses originals when repeated
 and headers on other file systems

---
 script/cppspice/c2cpp_header.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/script/cppspice/c2cpp_header.py b/script/cppspice/c2cpp_header.py
index 03e8549..51543d7 100755
--- a/script/cppspice/c2cpp_header.py
+++ b/script/cppspice/c2cpp_header.py
@@ -16,12 +16,18 @@ tail = """    #ifdef __cplusplus
 
 for file in os.listdir(incdir):
     if file.endswith(".h"):
-        scratch = '.tmp.h'
+        header = os.path.join(incdir, file)
+        with open(header, 'r') as fin:
+            lines = fin.readlines()
+        # already transformed; its original must stay in the .cvers file
+        if os.path.exists(header+'.cvers') and ''.join(lines).startswith(head):
+            continue
+        # same directory, so that it can be renamed to the header file
+        scratch = header + '.tmp'
         with open(scratch, 'w') as fout:
             print(head, file=fout)
-            with open(os.path.join(incdir, file), 'r') as fin:
-                for line in fin.readlines():
-                    print(line.strip(), file=fout)
+            for line in lines:
+                print(line.strip(), file=fout)
             print(tail, file=fout)
-            os.rename(os.path.join(incdir, file), os.path.join(incdir, file+'.cvers'))
-            os.rename(scratch, os.path.join(incdir, file))
+        os.rename(header, header+'.cvers')
+        os.rename(scratch, header)
-- 
2.43.0


From 6f99da301f5e279ee25aa329a5b963ad6c82b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 105/107] fix: benchmark programs read past the end of files
 shorter than the orbit

---
 costg-benchmark/bin/check_03directTideMoon_icrf.cpp         | 6 ++++++
 costg-benchmark/bin/check_03directTideSun_icrf.cpp          | 6 ++++++
 costg-benchmark/bin/check_04solidEarthTide_icrf.cpp         | 6 ++++++
 costg-benchmark/bin/check_05poleTide_icrf.cpp               | 6 ++++++
 costg-benchmark/bin/check_06oceanPoleTide_icrf.cpp          | 6 ++++++
 costg-benchmark/bin/check_07relativistic_icrf.cpp           | 6 ++++++
 costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp             | 6 ++++++
 .../bin/check_09aod1b_atmosphericTides_S1_icrf.cpp          | 6 ++++++
 costg-benchmark/bin/check_09aod1b_atmosphericTides_icrf.cpp | 6 ++++++
 .../bin/check_11oceanTide_fes2014b_34major_icrf.cpp         | 6 ++++++
 10 files changed, 60 insertions(+)

diff --git a/costg-benchmark/bin/check_03directTideMoon_icrf.cpp b/costg-benchmark/bin/check_03directTideMoon_icrf.cpp
index 01922fa..40f930d 100644
--- a/costg-benchmark/bin/check_03directTideMoon_icrf.cpp
+++ b/costg-benchmark/bin/check_03directTideMoon_icrf.cpp
@@ -41,6 +41,12 @@ int main(int argc, char *argv[]) {
   Eigen::Matrix<double, 3, 3> g;
   auto acc = accvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime to TT */
     const auto t = in.epoch.gps2tai().tai2tt();
     /* get Moon position in ICRF */
diff --git a/costg-benchmark/bin/check_03directTideSun_icrf.cpp b/costg-benchmark/bin/check_03directTideSun_icrf.cpp
index 07762f4..47a9c34 100644
--- a/costg-benchmark/bin/check_03directTideSun_icrf.cpp
+++ b/costg-benchmark/bin/check_03directTideSun_icrf.cpp
@@ -41,6 +41,12 @@ int main(int argc, char *argv[]) {
   Eigen::Matrix<double, 3, 3> g;
   auto acc = accvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime to TT */
     const auto t = in.epoch.gps2tai().tai2tt();
     /* get Sun position in ICRF */
diff --git a/costg-benchmark/bin/check_04solidEarthTide_icrf.cpp b/costg-benchmark/bin/check_04solidEarthTide_icrf.cpp
index a5ca337..646d734 100644
--- a/costg-benchmark/bin/check_04solidEarthTide_icrf.cpp
+++ b/costg-benchmark/bin/check_04solidEarthTide_icrf.cpp
@@ -80,6 +80,12 @@ int main(int argc, char *argv[]) {
   auto acc = accvec.begin();
   auto rot = rotvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* we will consider GPSTime */
     const auto t = in.epoch;
 
diff --git a/costg-benchmark/bin/check_05poleTide_icrf.cpp b/costg-benchmark/bin/check_05poleTide_icrf.cpp
index d453b94..e3e9b95 100644
--- a/costg-benchmark/bin/check_05poleTide_icrf.cpp
+++ b/costg-benchmark/bin/check_05poleTide_icrf.cpp
@@ -58,6 +58,12 @@ int main(int argc, char *argv[]) {
   auto rot = rotvec.begin();
   auto eop = ieops.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end() || eop == ieops.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime */
     const auto t = in.epoch;
 
diff --git a/costg-benchmark/bin/check_06oceanPoleTide_icrf.cpp b/costg-benchmark/bin/check_06oceanPoleTide_icrf.cpp
index eeff240..d262fc4 100644
--- a/costg-benchmark/bin/check_06oceanPoleTide_icrf.cpp
+++ b/costg-benchmark/bin/check_06oceanPoleTide_icrf.cpp
@@ -59,6 +59,12 @@ int main(int argc, char *argv[]) {
   auto rot = rotvec.begin();
   auto eop = ieops.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end() || eop == ieops.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     
     /* GPSTime */
     const auto t = in.epoch;
diff --git a/costg-benchmark/bin/check_07relativistic_icrf.cpp b/costg-benchmark/bin/check_07relativistic_icrf.cpp
index 9a7f9ba..3bb1cfc 100644
--- a/costg-benchmark/bin/check_07relativistic_icrf.cpp
+++ b/costg-benchmark/bin/check_07relativistic_icrf.cpp
@@ -41,6 +41,12 @@ int main(int argc, char *argv[]) {
   Eigen::Matrix<double, 6, 1> rsun;
   auto acc = accvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime to TT */
     // const auto t = in.epoch.gps2tai().tai2tt();
     const auto t = in.epoch;
diff --git a/costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp b/costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp
index c849f84..67fbd00 100644
--- a/costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp
+++ b/costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp
@@ -59,6 +59,12 @@ int main(int argc, char *argv[]) {
   auto acc = accvec.begin();
   auto rot = rotvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime */
     const auto t = in.epoch;
     dso::datetime<dso::nanoseconds> dt(dso::from_mjdepoch<dso::nanoseconds>(t));
diff --git a/costg-benchmark/bin/check_09aod1b_atmosphericTides_S1_icrf.cpp b/costg-benchmark/bin/check_09aod1b_atmosphericTides_S1_icrf.cpp
index 46ea639..f77d1be 100644
--- a/costg-benchmark/bin/check_09aod1b_atmosphericTides_S1_icrf.cpp
+++ b/costg-benchmark/bin/check_09aod1b_atmosphericTides_S1_icrf.cpp
@@ -75,6 +75,12 @@ int main(int argc, char *argv[]) {
   auto acc = accvec.begin();
   auto rot = rotvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime to TT */
     const auto t = in.epoch.gps2tai().tai2tt();
 
diff --git a/costg-benchmark/bin/check_09aod1b_atmosphericTides_icrf.cpp b/costg-benchmark/bin/check_09aod1b_atmosphericTides_icrf.cpp
index 82853b2..ac2783b 100644
--- a/costg-benchmark/bin/check_09aod1b_atmosphericTides_icrf.cpp
+++ b/costg-benchmark/bin/check_09aod1b_atmosphericTides_icrf.cpp
@@ -77,6 +77,12 @@ int main(int argc, char *argv[]) {
   auto acc = accvec.begin();
   auto rot = rotvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime to TT */
     const auto t = in.epoch.gps2tai().tai2tt();
 
diff --git a/costg-benchmark/bin/check_11oceanTide_fes2014b_34major_icrf.cpp b/costg-benchmark/bin/check_11oceanTide_fes2014b_34major_icrf.cpp
index 6d01223..d29e39f 100644
--- a/costg-benchmark/bin/check_11oceanTide_fes2014b_34major_icrf.cpp
+++ b/costg-benchmark/bin/check_11oceanTide_fes2014b_34major_icrf.cpp
@@ -69,6 +69,12 @@ int main(int argc, char *argv[]) {
   auto acc = accvec.begin();
   auto rot = rotvec.begin();
   for (const auto &in : orbvec) {
+    /* no more data for this epoch */
+    if (acc == accvec.end() || rot == rotvec.end()) {
+      fprintf(stderr, "ERROR Input files end before the orbit\n");
+      return 1;
+    }
+
     /* GPSTime */
     const auto t = in.epoch;
 
-- 
2.43.0


From 6770e3c26511a84fb692e9c2a573976bfc8925ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:48 +0000
Subject: [PATCH 106/107] fix: installation of the SPICE library fails over an
 earlier one

---
 script/cppspice/install.sh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/script/cppspice/install.sh b/script/cppspice/install.sh
index f947bd3..8581e6c 100755
--- a/script/cppspice/install.sh
+++ b/script/cppspice/install.sh
@@ -43,8 +43,7 @@ if ! test -d ${INC_DIR} ; then mkdir ${INC_DIR} ; fi
 cd include
 echo "Linking/Installing header files to ${INC_DIR}"
 for hf in *.h ; do
-  if test -f ${INC_DIR}/${hf} ; then rm ${INC_DIR}/${hf} ; fi
-  ln -s ${INC}/${hf} ${INC_DIR}/${hf} 
+  ln -sf "${INC}/${hf}" ${INC_DIR}/${hf} 
 done
 cd ../
 
@@ -53,7 +52,6 @@ LIB_DIR=/usr/local/lib
 cd lib
 echo "Linking/Installing library files to ${LIB_DIR}"
 for lf in *.a ; do
-  if test -f ${LIB_DIR}/${lf} ; then rm ${LIB_DIR}/${lf} ; fi
-  ln -s ${LIB}/${lf} ${LIB_DIR}/lib${lf} 
+  ln -sf "${LIB}/${lf}" ${LIB_DIR}/lib${lf} 
 done
 cd ../
-- 
2.43.0


From 30eb7dd02d713448e6302e969fc47116b16518b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 107/107] fix: default Stokes coefficients say degree zero but
 hold none

---
 include/stokes_coefficients.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 1f553fe..f46548a 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -128,7 +128,10 @@ public:
   /** Default constructor */
   StokesCoeffs() noexcept
       : _GM(::iers2010::GMe), _Re(::iers2010::Re), _cnormalized(true), m_degree(0),
-        m_order(0), _Cnm{0, 0}, _Snm{0, 0} {}
+        m_order(0), _Cnm{1, 1}, _Snm{1, 1} {
+    /* degree and order zero; a valid (null) C(0,0) coefficient */
+    clear();
+  }
 
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
-- 
2.43.0

