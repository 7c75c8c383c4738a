From e4c79b7552f09ea2815e5c803bb0d851ea856139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 01/21] fix: concatenate() of square matrices joins B, not A
 twice, horizontally

---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 47f5ca21afe02971c95ff5ce917f7c872dc5d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 02/21] fix: division of a matrix by zero throws a catchable
 error instead of calling std::terminate

---
 matrix/matrix_div.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..8f67d57 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +34,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From b17b93a954f1de1a8f2d95cc5a985ec882c9a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 03/21] fix: inv() of a singular 1x1 matrix throws like the
 other sizes

---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From 5ab761570ed0646b4662a0e17e02f811b986b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 04/21] fix: median() needs no <vector> and allocates no
 dynamic memory

---
 matrix/matrix_median.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..42f9d7e 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
@@ -51,7 +50,7 @@ T median(const Matrix<T, i, j>& A)
 
   else
   {
-    return v[floor(size / 2)];
+    return v[size / 2];
   }
 
   return A[0][0];
-- 
2.43.0


From 4f588bc1b715c9560f76de4286dcc53d2116539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 05/21] fix: conv2() and conv2_full() convolve (rotated kernel,
 as conv2 in Octave), not correlate

---
 matrix/matrix_conv2.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..538d707 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -66,15 +66,15 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
     for(std::size_t jt = 0; jt < j; jt++)
     {
       result[it][jt] = 0;
-      result[it][jt] += ((isOutOfRange(it-1,jt-1)) ? 0 : kernel[0][0] * A[it-1][jt-1]);   
-      result[it][jt] += ((isOutOfRange(it-1,jt))   ? 0 : kernel[0][1] * A[it-1][jt]);
-      result[it][jt] += ((isOutOfRange(it-1,jt+1)) ? 0 : kernel[0][2] * A[it-1][jt+1]);
-      result[it][jt] += ((isOutOfRange(it,jt-1))   ? 0 : kernel[1][0] * A[it][jt-1]);   
+      result[it][jt] += ((isOutOfRange(it-1,jt-1)) ? 0 : kernel[2][2] * A[it-1][jt-1]);   
+      result[it][jt] += ((isOutOfRange(it-1,jt))   ? 0 : kernel[2][1] * A[it-1][jt]);
+      result[it][jt] += ((isOutOfRange(it-1,jt+1)) ? 0 : kernel[2][0] * A[it-1][jt+1]);
+      result[it][jt] += ((isOutOfRange(it,jt-1))   ? 0 : kernel[1][2] * A[it][jt-1]);   
       result[it][jt] += ((isOutOfRange(it,jt))     ? 0 : kernel[1][1] * A[it][jt]);   
-      result[it][jt] += ((isOutOfRange(it,jt+1))   ? 0 : kernel[1][2] * A[it][jt+1]);   
-      result[it][jt] += ((isOutOfRange(it+1,jt-1)) ? 0 : kernel[2][0] * A[it+1][jt-1]);  
-      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[2][1] * A[it+1][jt]);
-      result[it][jt] += ((isOutOfRange(it+1,jt+1)) ? 0 : kernel[2][2] * A[it+1][jt+1]); 
+      result[it][jt] += ((isOutOfRange(it,jt+1))   ? 0 : kernel[1][0] * A[it][jt+1]);   
+      result[it][jt] += ((isOutOfRange(it+1,jt-1)) ? 0 : kernel[0][2] * A[it+1][jt-1]);  
+      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[0][1] * A[it+1][jt]);
+      result[it][jt] += ((isOutOfRange(it+1,jt+1)) ? 0 : kernel[0][0] * A[it+1][jt+1]); 
     }
   }
   return result;
@@ -118,15 +118,15 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
     for(std::size_t jt = 0; jt < j+2; jt++)
     {
       result[it][jt] = 0;
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt-1 - offset)) ? 0 : kernel[0][0] * A[it-1 - offset][jt-1 - offset]);   
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt - offset))   ? 0 : kernel[0][1] * A[it-1 - offset][jt - offset]);
-      result[it][jt] += ((isOutOfRange(it-1 - offset,jt+1 - offset)) ? 0 : kernel[0][2] * A[it-1 - offset][jt+1 - offset]);
-      result[it][jt] += ((isOutOfRange(it - offset,jt-1 - offset))   ? 0 : kernel[1][0] * A[it - offset][jt-1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt-1 - offset)) ? 0 : kernel[2][2] * A[it-1 - offset][jt-1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt - offset))   ? 0 : kernel[2][1] * A[it-1 - offset][jt - offset]);
+      result[it][jt] += ((isOutOfRange(it-1 - offset,jt+1 - offset)) ? 0 : kernel[2][0] * A[it-1 - offset][jt+1 - offset]);
+      result[it][jt] += ((isOutOfRange(it - offset,jt-1 - offset))   ? 0 : kernel[1][2] * A[it - offset][jt-1 - offset]);   
       result[it][jt] += ((isOutOfRange(it - offset,jt - offset))     ? 0 : kernel[1][1] * A[it - offset][jt - offset]);   
-      result[it][jt] += ((isOutOfRange(it - offset,jt+1 - offset))   ? 0 : kernel[1][2] * A[it - offset][jt+1 - offset]);   
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[2][0] * A[it+1 - offset][jt-1 - offset]);  
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt - offset))   ? 0 : kernel[2][1] * A[it+1 - offset][jt - offset]);
-      result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[2][2] * A[it+1 - offset][jt+1 - offset]); 
+      result[it][jt] += ((isOutOfRange(it - offset,jt+1 - offset))   ? 0 : kernel[1][0] * A[it - offset][jt+1 - offset]);   
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[0][2] * A[it+1 - offset][jt-1 - offset]);  
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt - offset))   ? 0 : kernel[0][1] * A[it+1 - offset][jt - offset]);
+      result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[0][0] * A[it+1 - offset][jt+1 - offset]); 
     }
   }
   return result;
-- 
2.43.0


From 03f6c5d1ca300530159ac8142616b78162414ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 06/21] fix: conv2_valid() works for matrices that are not
 square

---
 matrix/matrix_conv2.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 538d707..d05abc1 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -16,7 +16,6 @@
 #define MATRIX_MATRIX_CONV2_HPP_
 
 #include "matrix_type.hpp"
-#include "matrix_inv.hpp"  //getminor needed TODO move getminor to i.e. utils?
 
 namespace mlib
 {
@@ -139,8 +138,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  const Matrix<T, i, j> same = conv2(A,kernel); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From 5ef5a6b52ab1bbd3d78e6e17c4ca4a799a504388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 07/21] fix: mean() of signed integers does not divide in an
 unsigned type

---
 matrix/matrix_mean.hpp | 2 +-
 matrix/matrix_var.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..e0748ab 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<T>(i*j));
 }
 
 
diff --git a/matrix/matrix_var.hpp b/matrix/matrix_var.hpp
index 975be59..1ec506f 100644
--- a/matrix/matrix_var.hpp
+++ b/matrix/matrix_var.hpp
@@ -40,7 +40,7 @@ T var(const Matrix<T, i, j>& A)
       result += (A[it][jt] - meanA)*(A[it][jt] - meanA);
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<T>(i*j));
 }
 
 
-- 
2.43.0


From 94208c82341c79388bcf758f5da41ca4eb660c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 08/21] fix: ones<i, j>() and ones<T, i, j>() have i rows and j
 columns

---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From ebffc3ad6e85e0efef2ed096c8bc912483bcec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 09/21] fix: isIdentity() accepts any element type, not only
 unsigned int

---
 matrix/matrix_utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..834b18a 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,8 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  const auto identity {eye<T, n>()};
+  return (A == identity);
 }
 
 
-- 
2.43.0


From d74085d59702e173e4c54985616a49dcd13173ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 10/21] fix: compare() does not accept NaN as equal to any
 number

---
 matrix/matrix_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 834b18a..a6709d4 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -52,7 +52,8 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      // not (difference <= epsilon): a NaN never compares
+      if(!(A[i][j] == B[i][j]) && !(std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From eebd19422ad77d3a9213e0aa3c8ca40f2dd3f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 11/21] fix: pow() accepts exponents of unsigned types

---
 matrix/matrix_pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..c43466c 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,7 +47,7 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
+      p = -p;
     }
 
     auto powA { ones<T, n, n>() };
-- 
2.43.0


From 512e49e5d4cfabfd20aaea8811d2430a804fa0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 12/21] fix: getminor() documentation names the row and the
 column as they are

---
 matrix/matrix_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index d5f41ea..4ddcbcb 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -24,7 +24,7 @@ namespace mlib
 
 
 /**
- * @brief Minor of A - A with crossed-out i-th column and j-th row
+ * @brief Minor of A - A with crossed-out i-th row and j-th column
  *
  * @param [in] Square Matrix A with nxn size
  *
-- 
2.43.0


From 5c7b8026c9121b4f6ad40589c78c99ea0eafe4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 13/21] fix: det() chooses a pivot that is not a rounding
 error, small integer matrices gave wrong results

---
 matrix/matrix_det.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index b1510a8..4614b55 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -95,6 +95,11 @@ T det(Matrix<T, n, n> A)
     return prod / factor;
   };
 
+  auto magnitude = [](const T& val)
+  {
+    return val < 0 ? -val : val;
+  };
+
   for (std::size_t r = 0; r < n; ++r)
   {
     if (n <= pivot)
@@ -104,20 +109,21 @@ T det(Matrix<T, n, n> A)
 
     std::size_t i = r;
 
-    while (A[i][pivot] == 0)
+    // Threshold pivoting: leave a pivot that is much smaller than the column
+    // below it, a rounding error in place of a zero would spoil the result
+    for (std::size_t k = r + 1; k < n; ++k)
     {
-      ++i;
-      if (n == i)
+      if (A[i][pivot] == 0 || magnitude(A[i][pivot]) < magnitude(A[k][pivot]) / 10)
       {
-        i = r;
-        ++pivot;
-        if (n == pivot)
-        {
-          return prod();
-        }
+        i = k;
       }
     }
 
+    if (A[i][pivot] == 0)
+    {
+      return prod();
+    }
+
     if (i != r)
     {
       swap_rows(A, i, r);
-- 
2.43.0


From 19e1ce45b206afd020863a83cd769691a6fbf6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 14/21] fix: det() of integer matrices larger than 3x3 is
 exact, truncated divisions gave wrong results

---
 matrix/matrix_det.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index 4614b55..5b7c66d 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DET_HPP_
 #define MATRIX_MATRIX_DET_HPP_
 
+#include <type_traits>
 #include "matrix_swap.hpp"
 
 
@@ -81,14 +82,21 @@ T det(const Matrix<T, 3, 3>& A)
 template<typename T, std::size_t n>
 T det(Matrix<T, n, n> A)
 {
+  // Integers can not be divided exactly, their rows are eliminated with
+  // Bareiss algorithm, where each division has no remainder
+  constexpr bool fractionFree = std::is_integral<T>::value;
+  using Wide = typename std::conditional<fractionFree, long long, T>::type;
+
   T factor{1};
+  Wide divisor{1};
   std::size_t pivot{0};
 
   auto prod = [&]()
   {
     T prod{1};
 
-    for (std::size_t i = 0; i < n; ++i)
+    // Fraction-free elimination leaves the determinant in the last element
+    for (std::size_t i = (fractionFree ? n - 1 : 0); i < n; ++i)
     {
       prod *= A[i][i];
     }
@@ -121,7 +129,7 @@ T det(Matrix<T, n, n> A)
 
     if (A[i][pivot] == 0)
     {
-      return prod();
+      return fractionFree ? T{0} : prod();
     }
 
     if (i != r)
@@ -137,11 +145,19 @@ T det(Matrix<T, n, n> A)
         T val = A[i][pivot];
         for (std::size_t j = pivot; j < n; ++j)
         {
-          A[i][j] -= val * A[r][j] / A[r][pivot];
+          if (fractionFree)
+          {
+            A[i][j] = (static_cast<Wide>(A[i][j]) * A[r][pivot] - static_cast<Wide>(val) * A[r][j]) / divisor;
+          }
+          else
+          {
+            A[i][j] -= val * A[r][j] / A[r][pivot];
+          }
         }
 
       }
     }
+    divisor = A[r][pivot];
     pivot++;
   }
   return prod();
-- 
2.43.0


From 942f6e63460fbbfb9a9c38127cafca709aa99736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:06 +0000
Subject: [PATCH 15/21] fix: chol takes the square root in the precision of the
 element type

The unqualified sqrt is the C function of double: the factor of a
Matrix<long double> was accurate to double precision only.
---
 matrix/matrix_cholesky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_cholesky.hpp b/matrix/matrix_cholesky.hpp
index f78fed2..39f36f4 100644
--- a/matrix/matrix_cholesky.hpp
+++ b/matrix/matrix_cholesky.hpp
@@ -69,7 +69,7 @@ Matrix<T, n, n> chol(
         {
           sum = sum + L[i][k] * L[i][k];
         }
-        L[i][i] = sqrt( A[i][i] - sum);
+        L[i][i] = std::sqrt( A[i][i] - sum);
       }
       else
       {
-- 
2.43.0


From 099fa8f081fe0242fb1bf641ca3647eb0b0f4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:06 +0000
Subject: [PATCH 16/21] fix: stddev takes the square root in the precision of
 the element type

The unqualified sqrt is the C function of double: the deviation of a
Matrix<long double> was accurate to double precision only.
---
 matrix/matrix_stddev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_stddev.hpp b/matrix/matrix_stddev.hpp
index 1cccb9c..5438df1 100644
--- a/matrix/matrix_stddev.hpp
+++ b/matrix/matrix_stddev.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T stddev(const Matrix<T, i, j>& A)
 {
-  return sqrt(var(A));
+  return std::sqrt(var(A));
 }
 
 
-- 
2.43.0


From 06b8b8ec091bc00fa9ecd63e34df2279900b8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:50 +0000
Subject: [PATCH 17/21] fix: pow() with the smallest exponent of its type is a
 power of the inverse, -p overflowed

---
 matrix/matrix_pow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index c43466c..7b51a66 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,7 +47,8 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = -p;
+      // -p does not exist for the smallest exponent of its type
+      return pow(A, static_cast<P>(-(p + 1))) * A;
     }
 
     auto powA { ones<T, n, n>() };
-- 
2.43.0


From 73d220590da2d289fb4e43daf3506e7eb79294a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 18/21] fix: det() of integer matrices larger than 3x3 is exact
 up to the limits of their type, the smallest element was taken for zero or
 trapped

---
 matrix/matrix_det.hpp | 49 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index 5b7c66d..34e3c79 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -72,6 +72,30 @@ T det(const Matrix<T, 3, 3>& A)
 }
 
 
+/**
+ * @brief Type used to compute the determinant of a matrix of type T
+ */
+template<typename T, bool isIntegral = std::is_integral<T>::value, bool isLong = (sizeof(T) > 4)>
+struct DetType
+{
+  using type = T;
+};
+
+template<typename T>
+struct DetType<T, true, false>
+{
+  using type = long long;
+};
+
+#ifdef __SIZEOF_INT128__
+template<typename T>
+struct DetType<T, true, true>
+{
+  __extension__ using type = __int128;
+};
+#endif
+
+
 /**
  * @brief Determinant of matrix nxn
  *
@@ -80,30 +104,37 @@ T det(const Matrix<T, 3, 3>& A)
  * @return Determinant of matrix A
  */
 template<typename T, std::size_t n>
-T det(Matrix<T, n, n> A)
+T det(const Matrix<T, n, n>& M)
 {
   // Integers can not be divided exactly, their rows are eliminated with
-  // Bareiss algorithm, where each division has no remainder
+  // Bareiss algorithm, where each division has no remainder. The products on
+  // the way and the negatives of minors need more bits than the minors have
   constexpr bool fractionFree = std::is_integral<T>::value;
-  using Wide = typename std::conditional<fractionFree, long long, T>::type;
+  using Wide = typename DetType<T>::type;
+
+  Matrix<Wide, n, n> A{};
+  for (std::size_t i = 0; i < n; ++i)
+  {
+    std::copy(M[i].begin(), M[i].end(), A[i].begin());
+  }
 
-  T factor{1};
+  Wide factor{1};
   Wide divisor{1};
   std::size_t pivot{0};
 
   auto prod = [&]()
   {
-    T prod{1};
+    Wide prod{1};
 
     // Fraction-free elimination leaves the determinant in the last element
     for (std::size_t i = (fractionFree ? n - 1 : 0); i < n; ++i)
     {
       prod *= A[i][i];
     }
-    return prod / factor;
+    return static_cast<T>(prod / factor);
   };
 
-  auto magnitude = [](const T& val)
+  auto magnitude = [](const Wide& val)
   {
     return val < 0 ? -val : val;
   };
@@ -142,12 +173,12 @@ T det(Matrix<T, n, n> A)
     {
       if (i != r)
       {
-        T val = A[i][pivot];
+        Wide val = A[i][pivot];
         for (std::size_t j = pivot; j < n; ++j)
         {
           if (fractionFree)
           {
-            A[i][j] = (static_cast<Wide>(A[i][j]) * A[r][pivot] - static_cast<Wide>(val) * A[r][j]) / divisor;
+            A[i][j] = (A[i][j] * A[r][pivot] - val * A[r][j]) / divisor;
           }
           else
           {
-- 
2.43.0


From 2f075bb837de9f7da8be859f2743cc7599c4fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 19/21] fix: compare() of integers whose difference does not
 fit their type

---
 matrix/matrix_utils.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index a6709d4..47f3566 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_UTILS_HPP_
 #define MATRIX_UTILS_HPP_
 
+#include <type_traits>
 #include "matrix_eye.hpp"
 
 namespace mlib
@@ -37,6 +38,22 @@ bool isIdentity(const Matrix<T, n, n>& A)
 }
 
 
+/**
+ * @ Absolute difference of two elements, that of integers may not fit their type
+ */
+template<typename T>
+typename std::enable_if<std::is_integral<T>::value, long double>::type difference(const T& a, const T& b)
+{
+  return std::abs(static_cast<long double>(a) - static_cast<long double>(b));
+}
+
+template<typename T>
+auto difference(const T& a, const T& b) -> typename std::enable_if<!std::is_integral<T>::value, decltype(std::abs(a - b))>::type
+{
+  return std::abs(a - b);
+}
+
+
 /**
  * @ Compare two matrices with the same size, specific error
  * @param [in] Matrix A ixj
@@ -53,7 +70,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
     for(std::size_t j = 0; j < col; j++)
     {
       // not (difference <= epsilon): a NaN never compares
-      if(!(A[i][j] == B[i][j]) && !(std::abs(A[i][j] - B[i][j]) <= epsilon))
+      if(!(A[i][j] == B[i][j]) && !(difference(A[i][j], B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From 4294c5bf8b352f5c4064cb1927a1673799248bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 20/21] fix: mean() and var() of small integer types do not
 divide by a count that overflowed

---
 matrix/matrix_mean.hpp |  4 ++--
 matrix/matrix_type.hpp | 11 +++++++++++
 matrix/matrix_var.hpp  |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index e0748ab..5a8b162 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T mean(const Matrix<T, i, j>& A)
 {
-  T result{};
+  SumType<T> result{};
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / static_cast<T>(i*j));
+  return static_cast<T>(result / static_cast<SumType<T>>(i*j));
 }
 
 
diff --git a/matrix/matrix_type.hpp b/matrix/matrix_type.hpp
index 127b704..1fb8ec0 100644
--- a/matrix/matrix_type.hpp
+++ b/matrix/matrix_type.hpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <map>
 #include <complex>
+#include <type_traits>
 
 namespace mlib
 {
@@ -37,6 +38,16 @@ using Matrix = std::array<std::array<T, j>, i>;
 
 
 
+/**
+ * @bref Type of a sum of elements and of their number, which a small integer
+ *       type can not hold
+ */
+template <typename T>
+using SumType = typename std::conditional<!std::is_integral<T>::value, T,
+                typename std::conditional<std::is_signed<T>::value, long long, unsigned long long>::type>::type;
+
+
+
 } /* namespace mlib */
 
 #endif // MATRIX_TYPE_HPP_
diff --git a/matrix/matrix_var.hpp b/matrix/matrix_var.hpp
index 1ec506f..4c0aad9 100644
--- a/matrix/matrix_var.hpp
+++ b/matrix/matrix_var.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T var(const Matrix<T, i, j>& A)
 {
-  T result{};
+  SumType<T> result{};
   T meanA = mean(A);
   for (std::size_t it = 0; it < i; it++)
   {
@@ -40,7 +40,7 @@ T var(const Matrix<T, i, j>& A)
       result += (A[it][jt] - meanA)*(A[it][jt] - meanA);
     }
   }
-  return (result / static_cast<T>(i*j));
+  return static_cast<T>(result / static_cast<SumType<T>>(i*j));
 }
 
 
-- 
2.43.0


From 8dfa078ec4827796235894bab18161868132a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:56 +0000
Subject: [PATCH 21/21] fix: det() of unsigned matrices larger than 3x3 is
 exact up to the limits of their type

---
 matrix/matrix_det.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index 34e3c79..9cebf43 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -75,7 +75,7 @@ T det(const Matrix<T, 3, 3>& A)
 /**
  * @brief Type used to compute the determinant of a matrix of type T
  */
-template<typename T, bool isIntegral = std::is_integral<T>::value, bool isLong = (sizeof(T) > 4)>
+template<typename T, bool isIntegral = std::is_integral<T>::value, bool isLong = (sizeof(T) + std::is_unsigned<T>::value > 4)>
 struct DetType
 {
   using type = T;
-- 
2.43.0

