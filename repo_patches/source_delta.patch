From 2540e0b963857e3f5e80f4fed78266423f296e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 01/56] fix: multiply_evaluate_geometric gives a zero product
 the dimensions of the product

With a zero operand the result was sized like the left operand.
---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From 132eeb5aed8718282ef68532976781262084c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 02/56] fix: multiply_evaluate_dense accepts zero operands

A zero operand has degree -1, which the Vandermonde builder cannot size.
---
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index a27cac5..9706c65 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -112,6 +112,14 @@ void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_
     const long p = b.NumCols();
     long ell;
 
+    // if a or b is zero, return
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
 #ifdef PROFILE_ON
     double t = GetWallTime();
 #endif // PROFILE_ON
-- 
2.43.0


From 27c70e9acae5ce25aec5683007b087eb3869b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 03/56] fix: multiply_transform_naive gives a zero product the
 right dimensions

With both operands zero the transform has length 0 and the result was 0 x 0.
---
 .../src/mat_lzz_pX_multiply_transform.cpp                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
index a93dc6b..607da33 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
@@ -12,6 +12,14 @@ void multiply_transform_naive(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz
     long dA = deg(a);
     long dB = deg(b);
 
+    // if a or b is zero, return
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     zz_pX_Transform_naive trs_naive(max(dA, dB) + 1);
 
     Vec<Mat<zz_p>> valA, valB, valC;
-- 
2.43.0


From a25217e58c2c4d7225c0588c5954afcdcfbfb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 04/56] fix: geometric lmultiplier takes enough points when the
 left operand is zero

With a zero left operand the number of points was dB, too small to evaluate
the right-hand side.
---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..4115d45 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -386,7 +386,8 @@ void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
 mat_lzz_pX_lmultiplier_geometric::mat_lzz_pX_lmultiplier_geometric(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
-    long n = __dA + __dB + 1;
+    // at least dB+1 points, also when a is zero (dA = -1)
+    long n = std::max<long>(__dA, 0) + __dB + 1;
     ev = get_geometric_points(n);
     ev.prepare_degree(__dB);
 
-- 
2.43.0


From fed3efcbec5f17311fce1e7448f230670674a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 05/56] fix: Taylor shift of the zero polynomial

shift(g, f, c) built a shift object of degree -1 when f is zero and crashed.
---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..bef6f67 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -437,6 +437,11 @@ std::unique_ptr<zz_pX_shift> get_shift(long d, const zz_p& c)
 /*------------------------------------------------------------*/
 void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 {
+    if (IsZero(f))
+    {
+        clear(g);
+        return;
+    }
     std::unique_ptr<zz_pX_shift> s = get_shift(deg(f), c);
     s->shift(g, f);
 }
-- 
2.43.0


From e7db30d5572aa5415969c098be1f804f1a5c3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 06/56] fix: add_LeftShift with b zero, and with c aliasing b

With b zero the result was not normalised (its length was deg(a)+1 or k,
with leading zero coefficients); with c aliasing b, as the header allows,
coefficients of b were overwritten before being read.
---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index bef6f67..fa0f493 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -448,9 +448,24 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 
 /** Computes `c = a + (b << k)`, where the left shift means multiplication by
  * `X^k`. The integer `k` must be nonnegative. The OUT parameter `c` may alias
- * `a` but not `b`. */
+ * `a` or `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   // b == 0: nothing to add
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+
+   // the computation below writes c while reading b
+   if (&c == &b)
+   {
+       const zz_pX bb(b);
+       add_LeftShift(c, (&a == &b) ? bb : a, bb, k);
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 2110e77a79af6b6432d4e1522e8f9075ab563646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 07/56] fix: the only point of a geometric progression of
 length 1 is s

Points are s*r^(2*i), i = 0..n-1; get_point and get_points returned s*r when n = 1.
---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..c1d218f 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
-- 
2.43.0


From 07159c02d2bcfdf991c61edc938aa8335fe9f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:26 +0000
Subject: [PATCH 08/56] fix: conversion to Vec<Mat<zz_p>> when entries have
 different degrees

It read coefficients beyond the end of the entries of smaller degree.
---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..631cde8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -571,7 +571,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 2ea2765f88848de07fcb5182440822a83a128c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:26 +0000
Subject: [PATCH 09/56] fix: truncRow and truncCol keep the other rows and
 columns of the input

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 631cde8..2be01d7 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,14 +255,14 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    x = a; // does nothing if x is a
     for (long c = 0; c < x.NumCols(); ++c)
         trunc(x[r][c], a[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    x = a; // does nothing if x is a
     for (long r = 0; r < x.NumRows(); ++r)
         trunc(x[r][c], a[r][c], n);
 }
-- 
2.43.0


From 7d253ce7d3274f2ec6f459277d677f43e8fd6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:53 +0000
Subject: [PATCH 10/56] fix: FFT_matmul3 products when the inner dimension is 1

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp               | 1 +
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..a9953fd 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -569,6 +569,7 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
         tmp.swap(mat_valA[j]);
     }
 
+    R.tbl[0].SetLength(len); // empty here if the last of the above swaps was with an empty array
     b.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..5eb0844 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -511,6 +511,7 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
     }
 
     // interpolate c from the values in mat_valA
+    R.tbl[0].SetLength(n); // empty here if the last of the above swaps was with an empty array
     c.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
-- 
2.43.0


From 6a88d28104011714677172087c2520c597420113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:53 +0000
Subject: [PATCH 11/56] fix: newton_inv_trunc_geometric with thresh 1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..100b241 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -332,7 +332,7 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        long n = max(3*k - 2, 2*k); // 2k points needed to evaluate a mod t^(2k)
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-- 
2.43.0


From e368a441515422e2ddf3911bca516757edc77372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:53 +0000
Subject: [PATCH 12/56] fix: product of a row vector by a polynomial matrix

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..4af17b3 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,7 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c = cmat[0]; // rows of a matrix cannot be swapped with vectors
 }
 
 
-- 
2.43.0


From 9d4383ba3c6664e0947a8340a3179606d98430de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:08 +0000
Subject: [PATCH 13/56] fix: get_lmultiplier over fields with too few points or
 roots of unity

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index 4115d45..27942ea 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -628,8 +628,10 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
 {
     long t = type_of_prime();
     long dA = deg(a);
+    // dense evaluation needs dA+dB+1 distinct points
+    const bool enough_points = zz_p::modulus() > dA + dB;
 
-    if (t == TYPE_FFT_PRIME)
+    if (is_FFT_ready(NextPowerOfTwo(max(dA + dB + 1, 1L))))
     {
         if (a.NumRows() <= 100)
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB));
@@ -647,7 +649,7 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        if (enough_points && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From d54545e18e2a1b73e17dbfcc3b7ba181c8712a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:55 +0000
Subject: [PATCH 14/56] fix: linsolve_via_kernel when the denominator is not
 the pivot of the kernel vector

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..b9d60c0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -484,15 +484,23 @@ long linsolve_via_kernel(
     // find index of row of kerbas with pivot index in the last entry
     VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
 
+    // there may be no such row if A is not column reduced (cancellations in the
+    // product A*u); then, use any row with a nonzero last entry
+    long row = pivind_n - pivind.begin();
+    if (pivind_n==pivind.end())
+    {
+        row = 0;
+        while (row < kerbas.NumRows() && IsZero(kerbas[row][n]))
+            ++row;
+    }
+
     // if no such row, there is no solution
     // --> may happen if kernel is empty, which itself may happen only if m > n
     // --> may also happen if A is rank-deficient but b is not in the
     // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    if (row == kerbas.NumRows())
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From fcb4e44bd8fd02c7493014eb61e53c6334c2c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:55 +0000
Subject: [PATCH 15/56] fix: linsolve_via_series with constant A when u aliases
 b

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index b9d60c0..61dece2 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,7 +314,7 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        Vec<zz_pX> v(INIT_SIZE, n); // u may alias b
         // TODO write function for mul(u, iA, b);
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            v[i].swap(buf1);
         }
+        u.swap(v);
         set(den);
         return;
     }
-- 
2.43.0


From c3d24b4570cd9082e79a098d7497f94d10910aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:31 +0000
Subject: [PATCH 16/56] fix: determinant of the zero matrix by evaluation

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..ae6f23c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -293,6 +293,11 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (deg(pmat) < 0 && pmat.NumRows() > 0)
+    {
+        clear(det);
+        return;
+    }
     const long nb_points = pmat.NumRows() * deg(pmat) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
@@ -306,6 +311,11 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
     const long d = deg(pmat);
+    if (d < 0 && pmat.NumRows() > 0)
+    {
+        clear(det);
+        return;
+    }
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
     ev.prepare_degree(d);
-- 
2.43.0


From 1472e804f1ccae8970307d820628de118db56b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:31 +0000
Subject: [PATCH 17/56] fix: reduced_form_gjv on constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..44b913a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -15,6 +15,13 @@ long reduced_form_gjv(
     const long d = deg(pmat);
     std::cout << dim << "\t" << d << "\t";
 
+    // an invertible constant matrix is reduced
+    if (d <= 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
+
     // inv_trunc version
     // compute the 2d high-degree coefficients of the truncated inverse of
     // pmat, precisely, those of degree (dim-1)*d+1, ..., (dim-1)*d + 2*d
-- 
2.43.0


From 28794d23f03d33e12519f6048164b927d8f66f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:39 +0000
Subject: [PATCH 18/56] fix: matrix_pade_generic_iterative at order 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..a2added 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1757,6 +1757,14 @@ void matrix_pade_generic_iterative(
 #ifdef MATRIX_PADE_GEN_PROFILE
     tt = GetWallTime();
 #endif // MATRIX_PADE_GEN_PROFILE
+        if (d==1)
+        {
+            // no iteration k>=1: K0 is still in D2[1], and the coefficients
+            // of degree 1 and 2 of R_bot are zero
+            K0 = D2[1];
+            R_bot[1].SetDims(n,n);
+            R_bot[2].SetDims(n,n);
+        }
         // update the residual
         // --> left-multiply by [ [X I, 0], [K0, I] ]
         // here, no need for updating R_top[0...order-2], R_bot[0...order-3]
-- 
2.43.0


From 855586a619c895ae64e328d694a2c1369505bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 19/56] fix: determinant_generic_knowing_degree does not use
 approximants that are not kernel vectors

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index ae6f23c..afa561e 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -269,6 +269,11 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
         for (long j = 0; j < dim; ++j)
             kerbas[i][j] = appbas[i+cdim1][j];
 
+    // these rows are in the left kernel if their degree is at most deg_ker (in
+    // degree larger than this, approximants need not be kernel vectors)
+    if (deg(kerbas) > deg_ker)
+        return false;
+
     // then compute the product
     Mat<zz_pX> pmatt;
 #ifdef GENERIC_DET_PROFILE
-- 
2.43.0


From 1050830c06269e377756bf714dd7896f24eb8b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:22 +0000
Subject: [PATCH 20/56] fix: shifted row degree output by the ZLS kernel basis
 algorithms

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..b6b6f32 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -492,6 +492,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
@@ -539,6 +541,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
@@ -804,6 +808,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
@@ -858,6 +864,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
-- 
2.43.0


From d7bd1e2d27886dd4d6e32df1be1f63f34965aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:41 +0000
Subject: [PATCH 21/56] fix: is_interpolant_basis_geometric when the basis has
 degree at least the number of points

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..73870cb 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -85,6 +85,18 @@ bool is_interpolant_basis_geometric(
     if (not is_row_polmatform(form,intbas,shift))
         return false;
 
+    // geometric evaluation at `order` points requires degree less than `order`;
+    // intbas may have larger degree --> rely on general points
+    if (deg(intbas) >= order)
+    {
+        Vec<zz_p> pts(INIT_SIZE, order);
+        const zz_p q = pt*pt;
+        set(pts[0]);
+        for (long k = 1; k < order; ++k)
+            mul(pts[k], pts[k-1], q);
+        return is_interpolant_basis(intbas,evals,pts,shift,form,randomized);
+    }
+
     // test that the matrix consists of interpolants
     zz_pX_Multipoint_Geometric ev(pt, order);
     Vec<Mat<zz_p>> intbas_evals;
-- 
2.43.0


From 73adfc53ccd89527b46bc02738936306359a963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:27 +0000
Subject: [PATCH 22/56] fix: general middle_product truncates operands, and
 accepts a zero operand

---
 .../src/mat_lzz_pX_middle_product.cpp          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..dc31fde 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -16,10 +16,28 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     const long dmax = max(dA, dB);
     const long sz = cbrt(a.NumRows() * a.NumCols() * c.NumCols());
 
+    // the algorithms below assume deg(a) <= dA and deg(c) <= dA+dB
+    if (deg(a) > dA || deg(c) > dA+dB)
+    {
+        Mat<zz_pX> aa, cc;
+        trunc(aa, a, dA+1);
+        trunc(cc, c, dA+dB+1);
+        middle_product(b, aa, cc, dA, dB, is_prime);
+        return;
+    }
+
     // if the degree of a or c is smaller than dA, reduce
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        const long u = a.NumRows();
+        const long w = c.NumCols();
+        b.SetDims(u, w);
+        clear(b);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From c53e602150b986636dce95de708aa9d0d4284e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:47 +0000
Subject: [PATCH 23/56] fix: default partial linearization degree when the
 column degrees sum to a negative number

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 7acfa64..ea2859b 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -169,7 +169,7 @@ inline VecLong column_partial_linearization(
                                            )
 {
     long parlin_degree = std::accumulate(target_degree.begin(), target_degree.end(), 0);
-    parlin_degree = 1 + parlin_degree / target_degree.size();
+    parlin_degree = 1 + parlin_degree / (long) target_degree.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, target_degree);
 }
@@ -184,7 +184,7 @@ inline VecLong column_partial_linearization_cdeg(
     VecLong cdeg(pmat.NumCols());
     col_degree(cdeg, pmat);
     long parlin_degree = std::accumulate(cdeg.begin(), cdeg.end(), 0);
-    parlin_degree = 1 + parlin_degree / cdeg.size();
+    parlin_degree = 1 + parlin_degree / (long) cdeg.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, cdeg);
 }
-- 
2.43.0


From 41691d89d90c33f48d657488d16e08eb4c63311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:47 +0000
Subject: [PATCH 24/56] fix: column_partial_linearization with zero columns and
 entries of low degree

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..63535fc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -136,8 +136,10 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
+            if (jj == parlin_cols[j+1])
+                continue; // zero column, not expanded
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -193,8 +195,10 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
+            if (jj == parlin_cols[j+1])
+                continue; // zero column, not expanded
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
-- 
2.43.0


From e185a5913921b80ba3aa22ed2168536478e58c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:47 +0000
Subject: [PATCH 25/56] fix: right_parlin products with a reused output or zero
 rows and columns

---
 .../src/mat_lzz_pX_linearization.cpp             | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index 63535fc..89a559a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -231,18 +231,15 @@ void right_parlin_multiply(
     c.SetDims(a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
-        long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                c[i][j] += (c_parlin[i][jj] << d_init);
                 d_init += parlin_degree+1;
             }
-            c[i][j].normalize();
         }
     }
 }
@@ -273,19 +270,16 @@ void right_parlin_middle_product(
     c.SetDims(a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
-        long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                c[i][j] += (c_parlin[i][jj] << d_init);
                 d_init += parlin_degree+1;
             }
-            //c[i][j].normalize(); // TODO remove?
-            c[i][j] >>= deg(a);  // precompute deg(a)
+            c[i][j] >>= (dA - d_inf); // deg(a)
             trunc(c[i][j], c[i][j], dB+1);
         }
     }
-- 
2.43.0


From 078a8744207980bd95c119bad19f1ce4798d5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:22 +0000
Subject: [PATCH 26/56] fix: implement the structured_lzz_p products that were
 silently left empty

mul_left / mul_right with a matrix for lower triangular Toeplitz and
circulant matrices, and mul_left(Vec), mul_left/mul_right(Mat) for the
Toeplitz-like and Hankel-like classes had empty bodies: the output was
left untouched.
---
 .../src/circulant_column_lzz_p.cpp            |  4 ++
 .../src/circulant_row_lzz_p.cpp               |  5 ++-
 .../src/hankel_like_minus_lzz_p.cpp           | 45 +++++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 41 +++++++++++++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   |  4 ++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 41 +++++++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 41 +++++++++++++++++
 .../structured_lzz_p/structured_lzz_p.h       | 32 +++++++++++++
 8 files changed, 212 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..de4dd0d 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -176,6 +176,8 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -247,6 +249,8 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..8408860 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -157,7 +157,8 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         res = mul_right(input);
         return;
     }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -249,6 +250,8 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..ae4cef3 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,16 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+        LogicError("Bad size for hankel_like_minus_lzz_p right matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +130,45 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+        LogicError("Bad size for hankel_like_minus_lzz_p left multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+        LogicError("Bad size for hankel_like_minus_lzz_p left matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..46ddec6 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,16 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+        LogicError("Bad size for hankel_like_plus_lzz_p right matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +126,41 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+        LogicError("Bad size for hankel_like_plus_lzz_p left multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+        LogicError("Bad size for hankel_like_plus_lzz_p left matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..f5353b3 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -125,6 +125,8 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 
@@ -191,6 +193,8 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..a0e4933 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,16 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+        LogicError("Bad size for toeplitz_like_minus_lzz_p right matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +131,41 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+        LogicError("Bad size for toeplitz_like_minus_lzz_p left multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+        LogicError("Bad size for toeplitz_like_minus_lzz_p left matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..874f2ad 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,16 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+        LogicError("Bad size for toeplitz_like_plus_lzz_p right matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +122,41 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+        LogicError("Bad size for toeplitz_like_plus_lzz_p left multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+        LogicError("Bad size for toeplitz_like_plus_lzz_p left matrix multiplication.");
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/structured_lzz_p.h b/ntl-extras/structured_lzz_p/structured_lzz_p.h
index a7ba93b..a3f88c7 100644
--- a/ntl-extras/structured_lzz_p/structured_lzz_p.h
+++ b/ntl-extras/structured_lzz_p/structured_lzz_p.h
@@ -77,6 +77,38 @@ public:
         to_dense(dense);
         return dense;
     }
+
+protected:
+    /*------------------------------------------------------------*/
+    /* generic matrix products, one vector product at a time      */
+    /* out should not alias in                                    */
+    /*------------------------------------------------------------*/
+    inline void mul_right_by_columns(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        const long p = in.NumCols();
+        Vec<zz_p> vec_in(INIT_SIZE, NumCols()), vec_out;
+        out.SetDims(NumRows(), p);
+        for (long j = 0; j < p; j++)
+        {
+            for (long i = 0; i < NumCols(); i++)
+                vec_in[i] = in[i][j];
+            mul_right(vec_out, vec_in);
+            for (long i = 0; i < NumRows(); i++)
+                out[i][j] = vec_out[i];
+        }
+    }
+
+    inline void mul_left_by_rows(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        const long p = in.NumRows();
+        Vec<zz_p> vec_out;
+        out.SetDims(p, NumCols());
+        for (long i = 0; i < p; i++)
+        {
+            mul_left(vec_out, in[i]);
+            out[i] = vec_out;
+        }
+    }
 };
 
 
-- 
2.43.0


From 0c6c07488c772265c34f5c588bf3e189d5055530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:22 +0000
Subject: [PATCH 27/56] fix: circulant_column_lzz_p::mul_left sized its input
 polynomial with the wrong dimension

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index de4dd0d..ece7a61 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -200,7 +200,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From 19c70cdbfbfc97d09e58b61493091f863f3fb2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:22 +0000
Subject: [PATCH 28/56] fix: to_dense of triangular and displacement-structured
 matrices kept stale entries of its output

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp      | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp       | 1 +
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp     | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp    | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp     | 1 +
 5 files changed, 5 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ae4cef3..c4c3a18 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -177,6 +177,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index 46ddec6..630c2c5 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -169,6 +169,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index f5353b3..c23d573 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -62,6 +62,7 @@ long lower_triangular_toeplitz_lzz_p::NumRows() const
 void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a0e4933..c6be071 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -174,6 +174,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 874f2ad..59cd7f1 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -165,6 +165,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
-- 
2.43.0


From 8d4b15c15bb80eaa97f0194e5b77895d7c61c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:22 +0000
Subject: [PATCH 29/56] fix: sylvester_lzz_p::phi_plus_generators wrote out of
 bounds when deg(b) = 0

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..af7f7ec 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -449,20 +449,21 @@ void sylvester_lzz_p::phi_plus_generators(Mat<zz_p>& G, Mat<zz_p>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[deg(b) - 1][0] = 1;
     H[deg(a) + deg(b) - 1][1] = 1;
+    for (long i = 0; i < deg(b); i++)
+        G[i + deg(a)][1] += coeff(b, i);
+    G[0][1] += coeff(b, deg(b));
+
+    if (deg(b) == 0) // no column coming from a: first generator is zero
+        return;
 
+    H[deg(b) - 1][0] = 1;
     for (long i = 0; i < deg(a); i++)
         G[i + deg(b)][0] += coeff(a, i);
     G[0][0] += coeff(a, deg(a));
     for (long i = 0; i < deg(b); i++)
-    {
         G[i][0] -= coeff(b, i);
-        G[i + deg(a)][1] += coeff(b, i);
-    }
-    
     G[deg(b) % (deg(a) + deg(b))][0] -= coeff(b, deg(b));   // in case deg(a) = 0
-    G[0][1] += coeff(b, deg(b));
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 0a737c7e5f4582514cac3e7c834bfee56211a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:15 +0000
Subject: [PATCH 30/56] fix: cauchy_like_geometric_lzz_p vector products
 aborted on an empty matrix (solve_grp with a zero matrix)

---
 .../structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..e19917e 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -107,6 +107,9 @@ void cauchy_like_geometric_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>&
     for (long i = 0; i < m; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < n; j++)
@@ -317,6 +320,9 @@ void cauchy_like_geometric_lzz_p::mul_left(Vec<zz_p>& output, const Vec<zz_p>& i
     for (long i = 0; i < n; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < m; j++)
-- 
2.43.0


From 31dde6bb665169ce3a30713142c503c45b8c1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:36 +0000
Subject: [PATCH 31/56] fix: mosaic Hankel/Toeplitz solve read an empty vector
 when the system has no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 +++++++-
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..b65ccaf 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -623,7 +623,13 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..6faea12 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -641,7 +641,13 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
-- 
2.43.0


From 194e6aeaf2cf4595614447243395358dc1dddf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:39 +0000
Subject: [PATCH 32/56] fix: sylvester_lzz_p::top_right_block_inverse read past
 the cofactors' coefficients when their degree drops

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index af7f7ec..73cf800 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -515,13 +515,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From b21aad9653385c7747d3b214b42f807123c63777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:22 +0000
Subject: [PATCH 33/56] fix: mosaic Hankel/Toeplitz preconditioning could use
 zero diagonal entries over small fields

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 ++++++--
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index b65ccaf..ac890b1 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 6faea12..0b2aeef 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
 
     // gens 0 to alpha-1
-- 
2.43.0


From b551f0509fa27a0c9cfe4b02dad0360dca4324f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:08 +0000
Subject: [PATCH 34/56] fix: to_dense of lower triangular Toeplitz and
 Toeplitz-like matrices over zz_pX kept stale entries of the output

---
 .../structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp   | 1 +
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..44dc71a 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -92,6 +92,7 @@ long lower_triangular_toeplitz_lzz_pX::NumRows() const
 void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From d454cc06eec694c9e3239bc0e303c221e06d9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:08 +0000
Subject: [PATCH 35/56] fix: sylvester_lzz_pX on zero vectors, constant
 polynomials, and leading coefficients vanishing at zero

---
 .../src/sylvester_lzz_pX.cpp                  | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..5305ca1 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,8 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L); // the zero vector has degree -1
+    long dGx = max(deg(in_G), 0L);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +137,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L); // the zero vector has degree -1
+    long dGx = max(deg(in_G), 0L);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +147,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L);
+    long dTBx = max(deg(truncB), 0L);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +202,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L); // the zero vector has degree -1
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +270,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L); // the zero vector has degree -1
+    long dTAx = max(deg(revA_trunc), 0L);
+    long dTBx = max(deg(revB_trunc), 0L);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
@@ -344,7 +344,11 @@ void sylvester_lzz_pX::phi_plus_generators(Mat<zz_pX>& G, Mat<zz_pX>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[dBy - 1][0] = 1;
+    if (n == 0)
+        return;
+
+    if (dBy > 0)
+        H[dBy - 1][0] = 1;
     H[dAy + dBy - 1][1] = 1;
 
     for (long i = 0; i < dAy; i++)
@@ -397,10 +401,14 @@ void sylvester_lzz_pX::newton_inv_trunc(toeplitz_like_minus_lzz_pX& iM, long m)
     for (long i = 0; i < b.length(); i++)
         SetCoeff(b0, i, coeff(b[i], 0));
 
-    if (deg(a0) == 0 || deg(b0) == 0)
+    if (dAy == 0 || dBy == 0)
     {
         Error("Degree must be positive in newton_inv_trunc");
     }
+    if (deg(a0) < dAy || deg(b0) < dBy)
+    {
+        Error("Vanishing leading coefficient at zero in newton_inv_trunc");
+    }
 
     sylvester_lzz_p S(a0, b0);
     toeplitz_like_minus_lzz_p iS;
-- 
2.43.0


From b75862cbdbe6b937589ce05dfe2829496fe2a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:19 +0000
Subject: [PATCH 36/56] fix: random_zz_pXY did not normalize, shift_y shifted
 twice in place and aborted on large negative shifts

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..c17d183 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
@@ -355,6 +356,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
@@ -368,7 +370,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(dy + 1 + i, 0L));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From 4ec9282bceefee6050919e484ad0b73bee901a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:19 +0000
Subject: [PATCH 37/56] fix: bivariate resultants read out of bounds when a
 polynomial is zero

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index c17d183..34e50d2 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -441,6 +441,12 @@ void SetCoeff(zz_pXY& x, long i, const zz_pX& c)
 /*------------------------------------------------------------*/
 long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long dyf = f.degY();
     long dyg = g.degY();
     long n = max(dyf, dyg);
@@ -520,6 +526,12 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 /*------------------------------------------------------------*/
 long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long nf = f.degY();
     long ng = g.degY();
     long n = max(nf, ng);
@@ -616,6 +628,12 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 
 long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     // y-degrees
     long nf = f.degY();
     long ng = g.degY();
-- 
2.43.0


From 46113bf34852fd7d4fc065033161cc874ba2be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 38/56] fix: sequence products by bivariate polynomials were
 empty, so check_cancel always accepted; Kurakin variants: stale and
 non-minimal generators, zero sequences

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 32 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..84ddc56 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,9 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +54,9 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +82,13 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
@@ -419,6 +425,9 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
       I_fs[k] = f_xy;
     }
 
+    // nothing to cancel if u is zero
+    if (is_zero_seq(u)) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
@@ -537,6 +546,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0; t < d; t++){
     if (bitmap[t] == true) gens[t] = fs[t];
+    else gens[t].zero();
   }
 }
 
@@ -709,8 +719,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
@@ -791,9 +800,10 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 // if a is zero
 long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
-  long min_val = valuation(a[0]);
-  for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+  long min_val = -1;
+  for(long i = 0; i < a.length(); i++){
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || val < min_val)) min_val = val;
   }
   return min_val;
 }
@@ -832,6 +842,9 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
       I[k].emplace_back(p);
     }
 
+    // nothing to cancel if u is zero
+    if (is_zero_seq(u)) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
@@ -952,6 +965,7 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0;  t< d; t++)
     if (bitmap[t]) gens[t] = fs[t];
+    else gens[t].zero();
 }
 
 void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
-- 
2.43.0


From 466a91559d01b0a8a383ce75ae2251ebab074990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 39/56] fix: minpoly_nondegenerate read past its shift and
 returned a polynomial that does not annihilate the sequence

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 91 +++++++++++++-----------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 84ddc56..9e46c6a 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -968,40 +968,40 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     else gens[t].zero();
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
+// solves for P, of y-degree < e, such that the coefficients of 
+// y^(e-1), ..., y^(2e-2) in SXY * P are those of rhs modulo x^d;
+// assumes that the system is invertible at x=0, and S0X = SXY mod x
+void minpoly_DAC(const long d, const long e, const zz_pXY &SXY, const zz_pX &S0X,
     const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
-    VecLong shift;
-    shift.emplace_back(0);
-    shift.emplace_back(0);
+    // construct rhs mod x
+    zz_pX rhs_x;
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i], 0));
+    LeftShift(rhs_x, rhs_x, e-1);
+
+    // S0X * p - low - rhs_x = 0 mod y^(2e-1), deg(p) < e, deg(low) < e-1
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
-
-    // construct rhs mod x
-    zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
     pmat[2][0] = -rhs_x;
-    pmbasis(appbas, pmat, order, shift);
+    VecLong shift{0, 1, e-1};
+    pmbasis(appbas, pmat, 2*e-1, shift);
+
+    // the solution is the row of (shifted) degree at most e-1
     long r_cor = 0;
-    for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
+    for (long i = 0; i < 3; i++)
+      if (deg(appbas[i][0]) < e && deg(appbas[i][1]) < e-1 && deg(appbas[i][2]) == 0){
 	r_cor = i;
 	break;
       }
-    }
     zz_pX px = appbas[r_cor][0]*InvTrunc(appbas[r_cor][2],1);
 
-    P = zz_pX{0};
+    P.zero();
     for (long i = 0; i <= deg(px); i++)
-      P = P + shift_y(zz_pXY{zz_pX{px[i]}}, i);
+      SetCoeff(P, i, zz_pX(px[i]));
     if (verbose){
       std::cout << "rhs_x:" << rhs_x << std::endl;
       std::cout << "appbas: " << appbas << std::endl;
@@ -1010,44 +1010,49 @@ void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X,
     }
     return;
   }
+  const long d0 = d/2;
+  const long d1 = d-d0;
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  minpoly_DAC(d0, e, trunc_x(SXY,d0), S0X, trunc_x(rhs,d0), P0);
 
   // compute the residue
   zz_pXY r;
   mul(r, SXY, P0);
   r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
-  r = rhs - r;
+  r = shift_y(r,-(e-1));
+  r = trunc_y(r,e);
+  r = trunc_x(rhs,d) - r;
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-d0);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d1, e, trunc_x(SXY,d1), S0X, r, P1);
+  shift_x(P1,P1,d0);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
-  // make bivariate polynomial of S for multiplication
-  zz_pXY SXY;
-  for (long i = 0; i < S.length()-1; i++)
-    SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
-  zz_pX S0X;
-  for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
-  // construct rhs
-  zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
-  zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
-  P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
+  const long e = S.length()/2;
+  P.zero();
+  if (e > 0){
+    // make bivariate polynomial of S for multiplication
+    zz_pXY SXY;
+    zz_pX S0X;
+    for (long i = 0; i < 2*e-1; i++){
+      SetCoeff(SXY, i, trunc(S[i],d));
+      SetCoeff(S0X, i, coeff(S[i],0));
+    }
+    // construct rhs
+    zz_pXY rhs;
+    for (long i = 0; i < e; i++)
+      SetCoeff(rhs, i, -trunc(S[e+i],d));
+    zz_pXY P_res;
+    minpoly_DAC(d,e,SXY,S0X,rhs,P_res);
+    // the coefficients of P are those of P_res, reversed
+    for (long i = 0; i <= P_res.degY(); i++)
+      SetCoeff(P, e-1-i, P_res.rep[i]);
   }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  SetCoeff(P, e, zz_pX(1));
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
-- 
2.43.0


From 9bf805f89fd301efeac21a823bcd16dc0c2f7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 40/56] fix: block-Wiedemann sequences for small moduli: upper
 products were left zero or stale, constant polynomials aborted

---
 .../src/mat_lzz_pX_sequence.cpp               | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 525894a..837fbd0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -23,16 +23,22 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
     if (da < 0)
     {
         clear(x);
+        clear(upper);
         return;
     }
 
     if (!B.UseFFT || !F.UseFFT || da <= NTL_zz_pX_MOD_CROSSOVER)
     {
+        // upper: reversal of rev(a) / rev(f) mod x^(n-1)
         zz_pX P1;
+        const zz_pX a_rev = reverse(a, n-1);
+        reverse(P1, F.f, n);
+        InvTrunc(P1, P1, n-1);
+        MulTrunc(P1, P1, a_rev, n-1);
+        reverse(upper, P1, n-2);
+
         mul(P1, a, B.b);
         rem(x, P1, F);
-        // todo: do this case
-        upper = 0;
         return;
     }
 
@@ -121,6 +127,16 @@ void mul_special(Mat<zz_pX>& c, Mat<zz_pX>& cs, const Mat<zz_pX>& a, const Mat<z
     long p = b.NumCols();
     long ell;
 
+    // zero operand: products are zero
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        clear(c);
+        cs.SetDims(m, p);
+        clear(cs);
+        return;
+    }
+
     Mat<zz_p> tmp_mat(INIT_SIZE, sA, m * n);
     Mat<zz_p> valA, valB, valC, valCs;
     Mat<zz_p> vA, vB, iv;
-- 
2.43.0


From 2d4d0acd8a8154fed74e89397fe72572faedbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 41/56] fix: Magma/Sage output of polynomial vectors ignored
 the indeterminate; ring of integer polynomials declared under the wrong name

---
 ntl-extras/magma_output/src/magma_output.cpp | 6 +++---
 ntl-extras/sage_output/src/sage_output.cpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..f4a3981 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..51429b1 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -25,11 +25,11 @@ void sage_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From 19b094ddfbc5037747fce3cd82e33a8dea13f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:34 +0000
Subject: [PATCH 42/56] fix: nmod_poly_mat_approximant.h: missing opening of
 the extern "C" block

---
 flint-extras/src/nmod_poly_mat_approximant.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_approximant.h b/flint-extras/src/nmod_poly_mat_approximant.h
index 3f5bdbd..b3e65ac 100644
--- a/flint-extras/src/nmod_poly_mat_approximant.h
+++ b/flint-extras/src/nmod_poly_mat_approximant.h
@@ -105,7 +105,9 @@
 #include "nmod_poly_mat_forms.h" // for orientation_t
 #include "pml.h"
 
-
+#ifdef __cplusplus
+extern "C" {
+#endif
 
 /** @name General interfaces for approximant basis computation and verification */
 //@{
-- 
2.43.0


From 4c309258b8f829ddc1ca94f6d909516d3e4f1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:15 +0000
Subject: [PATCH 43/56] fix: flint-extras forms: pivot profile of zero vectors
 (upper rows, lower columns, shifted), Popov test of upper rows, Hermite
 through is_form

---
 .../src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c    | 4 ++--
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c  | 2 +-
 flint-extras/src/nmod_poly_mat_forms.h                        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
index 0fed1c1..3eb6d1e 100644
--- a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
+++ b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
@@ -359,8 +359,8 @@ ulong _nmod_poly_vec_pivot_profile(slong * pivind,
                     max = d+shift[piv];
                 }
             }
-            *pivind = piv;
-            *pivdeg = (piv == -1) ? len : (max - shift[piv]);
+            *pivind = (piv == -1) ? len : piv;
+            *pivdeg = (piv == -1) ? -1 : (max - shift[piv]);
             return (piv >= 0);
         }
     }
diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
index 5ea873f..6ef5f3f 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
@@ -139,7 +139,7 @@ int nmod_poly_mat_is_popov(const nmod_poly_mat_t mat,
     slong * pivdeg = flint_malloc(dim * sizeof(slong));
     nmod_poly_mat_pivot_profile(pivind, pivdeg, mat, shift, orient);
 
-    if (orient == ROW_LOWER || orient == ROW_LOWER)
+    if (orient == ROW_LOWER || orient == ROW_UPPER)
     {
         // pivots must be monic
         for (slong i = 0; i < dim; i++)
diff --git a/flint-extras/src/nmod_poly_mat_forms.h b/flint-extras/src/nmod_poly_mat_forms.h
index 2e90e81..e454c97 100644
--- a/flint-extras/src/nmod_poly_mat_forms.h
+++ b/flint-extras/src/nmod_poly_mat_forms.h
@@ -510,7 +510,7 @@ int nmod_poly_mat_is_form(const nmod_poly_mat_t mat,
     if (form == ECHELON)
         return nmod_poly_mat_is_echelon(mat, orient);
     if (form == HERMITE)
-        return nmod_poly_mat_is_echelon(mat, orient);
+        return nmod_poly_mat_is_hermite(mat, orient);
     flint_throw(FLINT_ERROR, "Exception (nmod_poly_mat_is_form). Requested form not implemented.");
 }
 
-- 
2.43.0


From 40403de7052769e959876256d97696fee8edbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:15 +0000
Subject: [PATCH 44/56] fix: flint-extras: expansion of a compact LU wrote U
 into L, leftward column rotation, stored column permutation, shift of matrix
 polynomials, is_constant

---
 flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c            | 4 ++--
 flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c       | 4 ++--
 flint-extras/src/nmod_mat_poly.h                           | 2 +-
 flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c | 7 ++++---
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
index 8a118b6..425891b 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
@@ -71,7 +71,7 @@ void _nmod_mat_l_u_from_compactlu_zeroin(nmod_mat_t L,
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
             _nmod_vec_set(U->rows[i]+i, LU->rows[i]+i, U->c - i);
 #else
-            _nmod_vec_set(nmod_mat_entry_ptr(L, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
+            _nmod_vec_set(nmod_mat_entry_ptr(U, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
 #endif
 }
 
@@ -81,7 +81,7 @@ void nmod_mat_l_u_from_compactlu(nmod_mat_t L,
                                  slong rk)
 {
     // L: set to zero all entries above diagonal or beyond rk-th column
-    for (slong i = 1; i < rk; i++)
+    for (slong i = 0; i < rk; i++)
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
         _nmod_vec_zero(L->rows[i]+i+1, L->c - i-1);
 #else
diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
index a50d937..770c83d 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
@@ -123,7 +123,7 @@ void _nmod_mat_rotate_columns_leftward(nmod_mat_t mat, slong * vec, slong i, slo
             ulong tmp_mat = nmod_mat_entry(mat, ii, i);
             for (slong jj = i; jj < j; jj++)
                 nmod_mat_entry(mat, ii, jj) = nmod_mat_entry(mat, ii, jj+1);
-            nmod_mat_entry(mat, ii, i) = tmp_mat;
+            nmod_mat_entry(mat, ii, j) = tmp_mat;
         }
     }
 }
@@ -144,7 +144,7 @@ void nmod_mat_permute_columns(nmod_mat_t mat, const slong * perm_act, slong * pe
 
     /* perm_store[j] <- perm_store[perm_act[j]] */
     if (perm_store)
-        _perm_compose(perm_store, perm_store, perm_act, mat->r);
+        _perm_compose(perm_store, perm_store, perm_act, mat->c);
 
     /* rows[i] <- rows[perm_act[i]]  */
     for (slong i = 0; i < mat->r; i++)
diff --git a/flint-extras/src/nmod_mat_poly.h b/flint-extras/src/nmod_mat_poly.h
index 08065d1..bf6a078 100644
--- a/flint-extras/src/nmod_mat_poly.h
+++ b/flint-extras/src/nmod_mat_poly.h
@@ -360,7 +360,7 @@ nmod_mat_poly_set_entry(nmod_mat_poly_t matp,
 NMOD_MAT_POLY_INLINE int
 nmod_mat_poly_is_constant(const nmod_mat_poly_t matp)
 {
-    return matp->length == 0;
+    return matp->length <= 1;
 }
 
 /** Truncates `matp` to the given `order` and normalises it. If `order` is
diff --git a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
index c67f58d..b745958 100644
--- a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
+++ b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
@@ -44,9 +44,10 @@ void nmod_mat_poly_shift_left(nmod_mat_poly_t smatp,
         return;
     }
 
-    nmod_mat_poly_fit_length(smatp, matp->length + n);
-    _nmod_mat_poly_set_length(smatp, matp->length + n);
-    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, matp->length - n, n);
+    const slong len = matp->length;  // smatp may alias matp
+    nmod_mat_poly_fit_length(smatp, len + n);
+    _nmod_mat_poly_set_length(smatp, len + n);
+    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, len, n);
 }
 
 //void nmod_mat_poly_shift_right(nmod_mat_poly_t smatp,
-- 
2.43.0


From cf13b49f570eefa9fdf42104ef7349a382294663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 45/56] fix: out-of-bounds accesses: column Popov test of
 rectangular matrices, dense left multiplier of a zero matrix, mirror of a
 vector

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp   |  4 ++--
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp  | 17 +++++++++++++----
 .../mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp   |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index 9706c65..9745459 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -20,6 +20,11 @@ void vandermonde(Mat<zz_p>& vdm1, Mat<zz_p>& vdm2, Mat<zz_p>& inv_vdm, long d1,
     // row i contains 1, i, i^2, .., i^{sk-1} for k=1,2
     vdm1.SetDims(nb_points, s1);
     vdm2.SetDims(nb_points, s2);
+    if (nb_points == 0)
+    {
+        inv_vdm.SetDims(0, 0);
+        return;
+    }
 
     // vdm: square Vandermonde matrix with nb_points
     // points chosen as 0, 1, .., nb_points-1
@@ -29,14 +34,18 @@ void vandermonde(Mat<zz_p>& vdm1, Mat<zz_p>& vdm2, Mat<zz_p>& inv_vdm, long d1,
     Mat<zz_p> vdm;
     vdm.SetDims(nb_points, nb_points);
     vdm[0][0].LoopHole() = 1;
-    vdm1[0][0].LoopHole() = 1;
-    vdm2[0][0].LoopHole() = 1;
+    if (s1 > 0)
+        vdm1[0][0].LoopHole() = 1;
+    if (s2 > 0)
+        vdm2[0][0].LoopHole() = 1;
     for (long i = 1; i < nb_points; ++i)
     {
         const zz_p p1(i);
         vdm[i][0].LoopHole() = 1;
-        vdm1[i][0].LoopHole() = 1;
-        vdm2[i][0].LoopHole() = 1;
+        if (s1 > 0)
+            vdm1[i][0].LoopHole() = 1;
+        if (s2 > 0)
+            vdm2[i][0].LoopHole() = 1;
         for (long j = 1; j < nb_points; ++j)
         {
             mul(vdm[i][j], vdm[i][j-1], p1);
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 2be01d7..274b930 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -232,7 +232,7 @@ void mirror(Vec<zz_pX>& mvec, const Vec<zz_pX>& pvec)
     if (&mvec != &pvec)
         mvec = pvec;
 
-    std::reverse(&mvec[0], &mvec[n]);
+    std::reverse(mvec.begin(), mvec.end());
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 616d025d38f710556d6b16d28c33f31545d0c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:47 +0000
Subject: [PATCH 46/56] fix: Sylvester top-right block of the inverse wrote
 past its generator for constant a

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 73cf800..473666f 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -566,7 +566,8 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
             U0[i + dB] = U1[i + dB] = lC * (coeff(t, i) + coeff(bottom, i));
             U1[i + dB] -= coeff(a, i);
         }
-    U0[dB] -= coeff(b, dB);
+    if (dB < n)  // no such entry when a is constant
+        U0[dB] -= coeff(b, dB);
 
     Mat<zz_p> L0, R0, L1, R1;
     L0.SetDims(m, m);
-- 
2.43.0


From 06436c6c5cddcca3f48d1308c607770e6be628d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:53 +0000
Subject: [PATCH 47/56] fix: transposed evaluation at general points ignored
 output_size; geometric evaluation at 0 points returned n values

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp   | 4 +++-
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
index 57860d0..09973a7 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
@@ -160,7 +160,9 @@ void zz_pX_Multipoint_General::t_evaluate(zz_pX& f, const Vec<zz_p>& val, long o
     zz_pX rev_num, num;
     up_tree(rev_num, tree, val);
     num = reverse(rev_num, n-1);
-    f = MulTrunc(num, inverse_root, n);
+    if (output_size == -1)
+        output_size = n;
+    f = MulTrunc(num, inverse_root, output_size);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index c1d218f..1908d9d 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -349,12 +349,13 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long nb) const
 {
-    val.SetLength(nb + n);
-
     if (nb == 0) 
     {
+        val.SetLength(0);
         return;
     }
+
+    val.SetLength(nb + n);
     
     long idx = 0;
     Vec<zz_p> tmp;
-- 
2.43.0


From 05003189fd66e01fd39fb6a835fffd743d6709fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 48/56] fix: middle_product summed too many unreduced products
 when one operand is long

---
 .../lzz_pX_middle_product/src/lzz_pX_middle_product.cpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..aefaf48 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -184,7 +184,8 @@ static void tKarMul_aux(zz_p *b, const long sb, const zz_p *a, const long sa, co
 void tKarMul_aux(zz_p *b, const long sb, const zz_p *a, const long sa, const zz_p *c, const long sc, zz_p *stk)
 {
     long p = zz_p::modulus();
-    long use_long = (p < NTL_SP_BOUND/KARX && p*KARX < NTL_SP_BOUND/p);
+    const long nb = max(sa, long(KARX)); // at most nb products are summed before reduction
+    long use_long = (p < NTL_SP_BOUND/nb && p*nb < NTL_SP_BOUND/p);
     tKarMul_aux(b, sb, a, sa, c, sc, stk, use_long);
 }
 
@@ -249,7 +250,8 @@ void middle_product(zz_pX& b, const zz_pX& a, const zz_pX& c, long dA, long dB)
     if (min(dA, dB) < KARX)
     {
         long p = zz_p::modulus();
-        long use_long = (p < NTL_SP_BOUND/KARX && p*KARX < NTL_SP_BOUND/p);
+        const long nb = max(dA + 1, long(KARX)); // at most nb products are summed before reduction
+        long use_long = (p < NTL_SP_BOUND/nb && p*nb < NTL_SP_BOUND/p);
         tPlainMul2(bp.elts(), dB + 1, ap.elts(), dA + 1, cp.elts(), dA + dB + 1, use_long);
     }
     else 
-- 
2.43.0


From 823a41fc3da4402e8cd9f490438345be43ed5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:46 +0000
Subject: [PATCH 49/56] fix: middle_product_3_primes bounds the number of
 summands by dA+1, not min(dA,dB)+1

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..6340024 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // each coefficient of the middle product is a sum of a.NumCols()*(dA+1) products
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From f5e82173325fd000e3020d4d8a7a080954dc8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:08 +0000
Subject: [PATCH 50/56] fix: mbasis_generic_onecolumn read past the end of
 entries of degree less than order-1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index a2added..c3b5704 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2427,7 +2427,7 @@ VecLong mbasis_generic_onecolumn(
         residuals[k].SetDims(nrows,nrows);
         for (long i = 0; i < nrows; ++i)
             for (long j = 0; j < nrows; ++j)
-                residuals[k][i][j] = pmat[i][0][k*nrows+j];
+                residuals[k][i][j] = coeff(pmat[i][0], k*nrows+j);
     }
 
     // for storing appbas coefficients
-- 
2.43.0


From b9162cf079c0e2642919636b1557a275b314c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:34 +0000
Subject: [PATCH 51/56] fix: popov_mbasis_rescomp_generic did not return the
 Popov form when the pivot degrees differ

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp          | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c3b5704..2afa2a4 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2377,17 +2377,16 @@ void popov_mbasis_rescomp_generic(
     // before that, change to Popov form
     // (this is the only difference with the "non-generic non-Popov" variant of
     // that algorithm)
-    // retrieve -rdeg - leading matrix  (only valid in this generic case!)
-    Mat<zz_p> L = coeffs_appbas[deg_appbas];
-    for (long i = 0; i < pmat.NumRows(); i++)
-        if (L[i][i] == 0)
-            L[i][i] = 1;
+    // retrieve the leading matrix of appbas, column j being taken at the pivot
+    // degree shift[j]  (only valid in this generic case! pivot degrees differ by
+    // at most 1, largest ones first)
+    Mat<zz_p> L(INIT_SIZE, m, m);
+    for (long i = 0; i < m; i++)
+        for (long j = 0; j < m; j++)
+            L[i][j] = coeffs_appbas[shift[j]][i][j];
     inv(L, L);
-    for (long k = 0; k < deg_appbas; k++)
+    for (long k = 0; k <= deg_appbas; k++)
         mul(coeffs_appbas[k], L, coeffs_appbas[k]);
-    for (long i = 0; i < pmat.NumRows(); i++)
-        for (long j = 0; j < i; j++)
-            coeffs_appbas[deg_appbas][i][j] = 0;
     appbas = conv(coeffs_appbas);
 #ifdef MBASIS_PROFILE
     t_others += GetWallTime()-t_now;
-- 
2.43.0


From f6eea8c2a1ec47433ce23717ca3ff1e1400add64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 52/56] fix: kernel_basis_generic must replace the basis it is
 given for degree at most 1, as documented

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index b6b6f32..c6312a4 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -996,7 +996,10 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
 #ifdef GENERIC_KER_PROFILE
         t = GetWallTime();
 #endif // GENERIC_KER_PROFILE
-        multiply(kerbas, kerbas2, kerbas);
+        if (d == 1)
+            kerbas.swap(kerbas2);
+        else
+            multiply(kerbas, kerbas2, kerbas);
 #ifdef GENERIC_KER_PROFILE
         t = GetWallTime()-t;
         std::cout << "\tmultiply ker, degrees " << deg(kerbas2) << "," << deg(kerbas) << " || time " << t << std::endl;
@@ -1083,6 +1086,7 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // kerbas) could be accelerated
         // currently we just build kerbas explicitly now, and multiply later in recursive call
         kerbas.SetDims(nn1+eps, m+n);
+        clear(kerbas);
         for (long i = 0; i < nn1; i++)
         {
             for (long j = 0; j < nn1; j++)
-- 
2.43.0


From 6c685c5bb672b44de5180aaf94b9f9a82cab23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 53/56] fix: kernel_basis_generic, wrong kernel of the
 characteristic matrix when the number of rows is odd

---
 .../src/mat_lzz_pX_kernel.cpp                 | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index c6312a4..7c99dec 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -1037,19 +1037,20 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // More precisely, let
         //           nn1  nn1  eps
         //         [ K1    I   0 ]  nn1
-        //         [ K2    0   1 ]  eps
+        //         [  *    0   1 ]  eps
         // be the generic kernel of the constant part [[A1], [A2], [V]].
         // Then the matrix
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0        K2       1]
         // where B = F[nn1:2*nn1, :] == A[nn1:2*nn1, :nn1]
         // and K1i == inverse(K1)
+        // and K2 == -v * inverse(B), where v is the last row of F (if eps == 1)
         // is the Popov left kernel basis for F
         // -> it has the right rank
         // -> it is in Popov form
         // -> it has the right sum(rdeg) == nn1
         // -> K*F == 0:
-        //    --> clear for the row [K2  0  1]
+        //    --> clear for the row [0  K2  1]
         //    --> the other one yields
         //           -B * (X I + A1) + (-B*K1i + X I) * B
         //           == X * (-B + B) + (-B*A1 - B*K1i*B)
@@ -1069,15 +1070,18 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         mB.SetDims(nn1, nn1);
         for (long i = 0; i < nn1; i++)
             NTL::negate(mB[i], F0[nn1+i]);
-        F0.kill();
 
         Mat<zz_p> K1, K2;
         K1.SetDims(nn1, nn1);
-        K2.SetDims(eps, nn1);
         for (long i = 0; i < nn1; i++)
             VectorCopy(K1[i], K[i], nn1);
         if (eps > 0)
-            VectorCopy(K2[0], K[nn1], nn1);
+        {
+            K2.SetDims(1, nn1);
+            K2[0] = F0[m+n-1];
+            mul(K2, K2, inv(mB));
+        }
+        F0.kill();
 
         inv(K1, K1);
         mul(K1, mB, K1);
@@ -1101,19 +1105,19 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         if (eps > 0)
         {
             for (long j = 0; j < nn1; j++)
-                SetCoeff(kerbas[nn1][j], 0, K2[0][j]);
+                SetCoeff(kerbas[nn1][nn1+j], 0, K2[0][j]);
             set(kerbas[nn1][m+n-1]); 
         }
 
         // multiply kernel basis with right-hand columns
         //  
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0        K2       1]
         //      G =   [  A3  ]     [ 0 ]
         //            [  A4  ] + X [ L ]
         //            [  v2  ]     [ 0 ]
         //     with L = [[Id nn2 x nn2], [Zero (nn1-nn2) x nn2]], nn1-nn2 == m-eps
-        // - the possible last row is K2 * A3 + v2
+        // - the possible last row is K2*A4 + v2 + X*K2*L
         // - the first nn1 rows are mB*A3 + mB*K1i*A4 + X*(A4 + mB*K1i*L) + X**2 * L
         // recall mB*K1i is currently stored in K1
         Mat<zz_pX> F;
@@ -1144,9 +1148,11 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // handle possible last row
         if (eps > 0)
         {
-            mul(K2, K2, A3);
             for (long j = 0; j < nn2; j++)
-                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][j]));
+                SetCoeff(F[nn1][j], 1, K2[0][j]);
+            mul(K2, K2, A4);
+            for (long j = 0; j < nn2; j++)
+                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][nn1+j]));
         }
 
         mul(A3, mB, A3);
-- 
2.43.0


From abdc528aff353af9f4f4fd376215b4566500bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:24 +0000
Subject: [PATCH 54/56] fix: series division by Newton iteration read past the
 end of normalized polynomials

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index fa0f493..9418c55 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -201,17 +201,17 @@ static void NewtonInvTruncMul(zz_pX& x, const zz_pX& b, const zz_pX& a, long m)
 
         x.rep.SetLength(l+1);
         for (long i = 0; i < k; ++i)
-            x[i]=P2l[i];
+            x[i] = coeff(P2l, i);
 
         if (deg(b) >= k)
             for (long i = k; i <= l; ++i) 
-                add(x[i], P2l[i], P2h[i-k]);
+                add(x[i], coeff(P2l, i), coeff(P2h, i-k));
         else
             for (long i = k; i <= l; ++i) 
-                x[i] = P2l[i];
+                x[i] = coeff(P2l, i);
 
         for (long i = k; i <= l; ++i) 
-            sub(x[i], x[i], P1[i-k]);
+            sub(x[i], x[i], coeff(P1, i-k));
 
         x.normalize();
     }
-- 
2.43.0


From 4b2ac491f8376ffda94b62b261cc23e39d77d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:00 +0000
Subject: [PATCH 55/56] fix: Villard's resultants divided by zero or aborted
 for polynomials constant in Y or in X

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 34e50d2..4fc1bcd 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -540,6 +540,10 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long dg = g.degX();
     long d = max(df, dg);
 
+    // no block to extract, or nothing to reconstruct
+    if (n == 0 || d == 0)
+        return resultant(res, f, g);
+
     long xtra = 2;
     long m = (long) cbrt(n);
     long delta = 2 * 2 * d * ((n + m - 1)/m) + xtra;
@@ -638,6 +642,10 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long nf = f.degY();
     long ng = g.degY();
 
+    // no block to extract
+    if (nf + ng < 2)
+        return resultant(res, f, g);
+
     // expected resultant degree
     long res_deg = f.tdeg() * g.tdeg();
 
-- 
2.43.0


From dee1fe0625c6c0b716345bb187fdc7e139aa1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:42 +0000
Subject: [PATCH 56/56] fix: shifted row degree output by
 kernel_basis_zls_via_interpolation over small fields

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 7c99dec..32dbe63 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -738,6 +738,8 @@ void kernel_basis_zls_via_interpolation(
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
@@ -746,6 +748,8 @@ void kernel_basis_zls_via_interpolation(
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         return;
     }
 
-- 
2.43.0

