From 63c01c3fb17fe427fa074131e905579693a7a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 01/47] fix: Gershgorin maximum starts from -DBL_MAX so
 negative spectra are bounded

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From 3934e349afdf2366367a7fb98271f4416aef2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 02/47] fix: bml_fnorm2_dense no longer shares its temporary
 between threads

---
 src/C-interface/dense/bml_norm_dense_typed.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..bde944a 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -353,8 +353,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
-
     int myRank = bml_getMyRank();
 
 #ifdef MKL_GPU
@@ -362,7 +360,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,7 +367,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
+        REAL_T temp = A_matrix[i] - B_matrix[i];
         fnorm += temp * temp;
     }
 
-- 
2.43.0


From 69926aa22d2a0660a8366ed8785acd7ee9a58461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 03/47] fix: bml_trace_mult_dense sums A(i,j)*B(j,i)

---
 src/C-interface/dense/bml_trace_dense_typed.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..7ddada7 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -143,9 +143,13 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace += A_matrix[ROWMAJOR(i, j, N, N)] *
+                B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
-- 
2.43.0


From 030200b43ef219010ce4d5edac02575cc422c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 04/47] fix: bml_multiply_adjust_AB_dense stores A*B instead of
 its transpose

---
 src/C-interface/dense/bml_multiply_dense_typed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_multiply_dense_typed.c b/src/C-interface/dense/bml_multiply_dense_typed.c
index ac28490..d5988d1 100644
--- a/src/C-interface/dense/bml_multiply_dense_typed.c
+++ b/src/C-interface/dense/bml_multiply_dense_typed.c
@@ -167,6 +167,6 @@ void TYPED_FUNC(
     REAL_T alpha = (REAL_T) 1.0;
     REAL_T beta = (REAL_T) 0.0;
 
-    TYPED_FUNC(bml_gemm) ("T", "T", &A->N, &A->N, &A->N, &alpha, A->matrix,
-                          &A->N, B->matrix, &A->N, &beta, C->matrix, &A->N);
+    TYPED_FUNC(bml_gemm) ("N", "N", &A->N, &A->N, &A->N, &alpha, B->matrix,
+                          &A->N, A->matrix, &A->N, &beta, C->matrix, &A->N);
 }
-- 
2.43.0


From 2a6dbed987c2ef43cbd6e918837faf433ceaa68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 05/47] fix: bml_reorder_dense permutes rows and columns

---
 src/C-interface/dense/bml_copy_dense_typed.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..a4c5806 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -139,8 +139,8 @@ void TYPED_FUNC(
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From aead27693f58186da35938719bb56d0f7f44f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 06/47] fix: bml_trace_mult_ellpack sums A(i,j)*B(j,i)

---
 .../ellpack/bml_trace_ellpack_typed.c         | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..12ea867 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,7 +115,9 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
+    REAL_T *B_value = (REAL_T *) B->value;
+    int *B_index = (int *) B->index;
+    int *B_nnz = (int *) B->nnz;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -131,31 +133,31 @@ double TYPED_FUNC(
     int B_M = B->M;
 
 #ifdef USE_OMP_OFFLOAD
-    REAL_T *B_value = (REAL_T *) B->value;
-    int *B_index = (int *) B->index;
-    int *B_nnz = (int *) B->nnz;
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace += A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
-- 
2.43.0


From 76a4862593cebcb820943be7f8b98c6ef23501c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 07/47] fix: bml_transpose_new_ellpack releases its row locks

---
 src/C-interface/ellpack/bml_transpose_ellpack_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..dd995fa 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -101,6 +101,14 @@ bml_matrix_ellpack_t
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
+
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
 #endif
     return B;
     /*
-- 
2.43.0


From 924d8659ad858fd123ff201079f54b40f9b6b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 08/47] fix: bml_set_element_ellpack replaces an entry stored
 in a short row

---
 src/C-interface/ellpack/bml_setters_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..15ee173 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -83,7 +83,7 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    if (A_nnz[i] > 0)
     {
         for (int l = 0; l < A_nnz[i]; l++)
         {
-- 
2.43.0


From 80a6d2750e04effde0fc2dd3f48e1eaff5e7b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 09/47] fix: bml_scale_add_identity_ellpack passes its factor
 in the element type

---
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..89f2d86 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -567,7 +567,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From b05ccb9c034984890479be97a99098991efce237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 10/47] fix: bml_getVector_ellpack initialises the entries of
 an empty row

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..4c57ff9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From 7a2781e817536382c920c7d2c4b53c1e016b6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 11/47] fix: bml_fnorm2_ellpack counts every entry of either
 matrix exactly once

---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..82f25ab 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -407,6 +407,7 @@ double TYPED_FUNC(
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
@@ -415,7 +416,6 @@ double TYPED_FUNC(
                     rvalue = B_value[ROWMAJOR(i, k, N, M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
             temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
@@ -424,17 +424,18 @@ double TYPED_FUNC(
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
                     B_index[ROWMAJOR(i, j, N, M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = 1.0;
                     break;
                 }
-                rvalue = 0.0;
             }
 
+            // entry stored in B only
             if (rvalue == 0.0)
             {
                 temp = B_value[ROWMAJOR(i, j, N, M)];
-- 
2.43.0


From 79e799b77d951e51c65d0274e0c26ba6f5855e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 12/47] fix: bml_fnorm2_ellpack addresses B by its own row
 capacity

---
 src/C-interface/ellpack/bml_norm_ellpack_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index 82f25ab..61ebd25 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -374,6 +374,7 @@ double TYPED_FUNC(
 {
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
     double fnorm = 0.0;
     REAL_T rvalue;
 
@@ -411,9 +412,9 @@ double TYPED_FUNC(
             for (int k = 0; k < B_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
             }
@@ -428,7 +429,7 @@ double TYPED_FUNC(
             for (int k = 0; k < A_nnz[i]; k++)
             {
                 if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
                     rvalue = 1.0;
                     break;
@@ -438,7 +439,7 @@ double TYPED_FUNC(
             // entry stored in B only
             if (rvalue == 0.0)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
                 fnorm += temp * temp;
             }
         }
-- 
2.43.0


From 3eb33c7badd0da13c9342ba3dcfe4434eb8080c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 13/47] fix: bml_group_matrix_ellpack does not carry marks over
 from earlier rows

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 4c57ff9..c1a84c0 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -501,7 +501,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
-- 
2.43.0


From fffb69d61b7270a0deee4ce2889f269f43d4d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 14/47] fix: bml_adjacency_ellpack looks for the diagonal in
 every row

---
 .../ellpack/bml_submatrix_ellpack.c           | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..d62eaf2 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,22 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Count the off-diagonal elements of each row
+    for (int i = 1; i < A_N + 1; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i] = xadj[i - 1];
+        for (int jj = 0; jj < A_nnz[i - 1]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i - 1, jj, A_N, A_M)] != i - 1)
+            {
+                xadj[i]++;
+            }
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
-- 
2.43.0


From ab9c7d4f9fe67ebc888ee67043597975fe7f1d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 15/47] fix: bml_adjacency_group_ellpack does not write past
 the last neighbour

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index d62eaf2..486c303 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -490,7 +490,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
-- 
2.43.0


From 83f39ee8ee795c24042c3333a3ad36c26d5d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 16/47] fix: bml_assign_submatrix_ellpack replaces the entries
 of the block

---
 .../ellpack/bml_submatrix_ellpack_typed.c         | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index c1a84c0..0249342 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -628,6 +628,21 @@ void TYPED_FUNC(
     // loop over rows of B
     for (int i = 0; i < B_N; i++)
     {
+        // remove the entries of A inside the block
+        int ll = 0;
+        for (int jp = 0; jp < A_nnz[i + irow]; jp++)
+        {
+            int jA = A_index[ROWMAJOR(i + irow, jp, A_N, A_M)];
+            if (jA < icol || jA >= icol + B_N)
+            {
+                A_value[ROWMAJOR(i + irow, ll, A_N, A_M)] =
+                    A_value[ROWMAJOR(i + irow, jp, A_N, A_M)];
+                A_index[ROWMAJOR(i + irow, ll, A_N, A_M)] = jA;
+                ll++;
+            }
+        }
+        A_nnz[i + irow] = ll;
+
         for (int jp = 0; jp < B_nnz[i]; jp++)
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
-- 
2.43.0


From 017405b8671cd671eba9553526a7f52372ca5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 17/47] fix: bml_read_bml_matrix_ellpack replaces the entries
 of the matrix

---
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..0b755a1 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -60,6 +60,12 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    // Remove the entries stored before
+    for (int i = 0; i < N; i++)
+    {
+        A_nnz[i] = 0;
+    }
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-- 
2.43.0


From 3f3817f3281fcdd5b91929c244892c4f336a89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:02 +0000
Subject: [PATCH 18/47] fix: bml_adjungate_triangle_ellpack replaces the other
 triangle without races

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 57 ++++++++++++++++---
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..f86ac01 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -34,18 +34,19 @@ void TYPED_FUNC(
     int A_M = A->M;
     int l;
     int ll;
+    int nnz0[A_N];
     REAL_T *A_value = (REAL_T *) A->value;
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 #ifdef _OPENMP
-    omp_lock_t lock[A_M];
+    omp_lock_t lock[A_N];
 #endif
 
     switch (*triangle)
     {
         case 'u':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
@@ -53,14 +54,33 @@ void TYPED_FUNC(
 #pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
 #endif
 
+            // Keep the source triangle and the diagonal only
+            for (int i = 0; i < A_N; i++)
+            {
+                l = 0;
+                for (int j = 0; j < A_nnz[i]; j++)
+                {
+                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+                    if (ll >= i)
+                    {
+                        A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+                        A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                            A_value[ROWMAJOR(i, j, A_N, A_M)];
+                        l++;
+                    }
+                }
+                A_nnz[i] = l;
+                nnz0[i] = l;
+            }
+
 #pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
+  shared(A_N, A_M, A_index, A_nnz, A_value, lock, nnz0) \
   private(l, ll)
             // WARNING: Please, check for race conditions ...
 
             for (int i = 0; i < A_N; i++)       // For every row
             {
-                l = A_nnz[i];
+                l = nnz0[i];
                 for (int j = 0; j < l; j++)     // We search for indices gt 0.
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -84,7 +104,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -92,17 +112,36 @@ void TYPED_FUNC(
 
         case 'l':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
+            // Keep the source triangle and the diagonal only
+            for (int i = 0; i < A_N; i++)
+            {
+                l = 0;
+                for (int j = 0; j < A_nnz[i]; j++)
+                {
+                    ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+                    if (ll <= i)
+                    {
+                        A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+                        A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                            A_value[ROWMAJOR(i, j, A_N, A_M)];
+                        l++;
+                    }
+                }
+                A_nnz[i] = l;
+                nnz0[i] = l;
+            }
+
 #pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
+  shared(lock, A_N, A_M, A_index, A_nnz, A_value, nnz0) \
   private(l, ll)
             //    WARNING: Please, check for race conditions and parallel performances ...
             for (int i = 0; i < A_N; i++)
             {
-                l = A_nnz[i];
+                l = nnz0[i];
                 for (int j = 0; j < l; j++)
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -126,7 +165,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
-- 
2.43.0


From 62f9312640f47da2adb2489bb43c9b3301fcb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:02 +0000
Subject: [PATCH 19/47] fix: bml_adjacency_group_ellpack frees its node list

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index 486c303..4072ca2 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -502,6 +502,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From 07798e26648d592c375d95988d93f37433c1ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 20/47] fix: bml_threshold_new_csr stores every surviving entry
 at its own position

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..e0f8af4 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -41,7 +41,7 @@ bml_matrix_csr_t
     {
         int *bcols = B->data_[i]->cols_;
         REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
+        int bnnz = B->data_[i]->NNZ_;
 
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
@@ -53,10 +53,11 @@ bml_matrix_csr_t
 //                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
                 bvals[bnnz] = vals[pos];
                 bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                bnnz++;
             }
         }
+        /* update nnz of row i of B */
+        B->data_[i]->NNZ_ = bnnz;
     }
 
     return B;
-- 
2.43.0


From f7062637f1324d452b2d99c118bb3bdc160229dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 21/47] fix: bml_extract_submatrix_csr frees its row buffers

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..a5bf02c 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
-- 
2.43.0


From c2f4d41c2b4906282c88b1a1559bd6ae66d26468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 22/47] fix: bml_assign_submatrix_csr replaces the entries of
 the block

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index a5bf02c..5f48624 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -90,6 +90,22 @@ void TYPED_FUNC(
         }
         REAL_T *vals = TYPED_FUNC(csr_get_column_entries) (B->data_[i]);
 
+        // remove the entries of A inside the block
+        csr_sparse_row_t *arow = A->data_[i + irow];
+        REAL_T *avals = (REAL_T *) arow->vals_;
+        int count = 0;
+        for (int j = 0; j < arow->NNZ_; j++)
+        {
+            int col = arow->cols_[j];
+            if (col < icol || col >= icol + B_N)
+            {
+                arow->cols_[count] = col;
+                avals[count] = avals[j];
+                count++;
+            }
+        }
+        arow->NNZ_ = count;
+
         for (int j = 0; j < nz; j++)
         {
             TYPED_FUNC(csr_set_row_element_new) (A->data_[i + irow],
-- 
2.43.0


From 1ce960451c6efba9b6157ee06569338da5edbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 23/47] fix: bml_add_csr does not use a row's values after they
 were reallocated

---
 src/C-interface/csr/bml_add_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..55d0c3e 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the row may have been reallocated
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
-- 
2.43.0


From c173bb6e381e7ef97840e1708bf80adf850a4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 24/47] fix: bml_scale_add_identity_csr passes its factor in
 the element type

---
 src/C-interface/csr/bml_add_csr_typed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index 55d0c3e..c4054a5 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -192,7 +192,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
-- 
2.43.0


From 8c911bca7aa70bb4b470d3023ffa2f8df2c45e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 25/47] fix: csr_noinit_table finds a size for every number of
 keys

---
 src/C-interface/csr/bml_allocate_csr.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_allocate_csr.c b/src/C-interface/csr/bml_allocate_csr.c
index 810cfa8..0d2fa6a 100644
--- a/src/C-interface/csr/bml_allocate_csr.c
+++ b/src/C-interface/csr/bml_allocate_csr.c
@@ -18,15 +18,14 @@ csr_row_index_hash_t *
 csr_noinit_table(
     const int tsize)
 {
-    int i, lwr;
+    int i;
     const int alloc_size =
         INIT_SLOT_STORAGE_SIZE >= tsize ? INIT_SLOT_STORAGE_SIZE : tsize;
-    static int powersof2[] =
-        { 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
-        65536, 131072, 262144
-    };
-    for (i = 1; lwr = (powersof2[i] * 2) / 3, lwr < alloc_size; i++);
-    const int space = powersof2[i];
+    int space = 16;
+    while ((space / 3) * 2 < alloc_size)
+    {
+        space *= 2;
+    }
     const int space_minus1 = space - 1;
 
   /** create table object */
-- 
2.43.0


From 05c9709f447bf645d4b8399a0dff4106d23808c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 26/47] fix: bml_read_bml_matrix_csr replaces the entries of
 the matrix

---
 src/C-interface/csr/bml_utilities_csr_typed.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..2dbf5f3 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -52,6 +52,12 @@ void TYPED_FUNC(
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
+    // Remove the entries stored before
+    for (int i = 0; i < A->N_; i++)
+    {
+        A->data_[i]->NNZ_ = 0;
+    }
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-- 
2.43.0


From bee0737c0c78811098c26045a385f4044eb74014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 27/47] fix: bml_read_bml_matrix_dense replaces the entries of
 the matrix

---
 src/C-interface/dense/bml_utilities_dense_typed.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..4379b03 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -63,6 +63,12 @@ void TYPED_FUNC(
         LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
     }
 
+    // Remove the entries stored before
+    for (int i = 0; i < N * N; i++)
+    {
+        A_matrix[i] = 0.0;
+    }
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-- 
2.43.0


From 60d78f5c10b06e30ed023a8335ec6fe9aed23321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:30 +0000
Subject: [PATCH 28/47] fix: bml_read_bml_matrix_ellblock replaces the blocks
 of the matrix

---
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..f4a71bc 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -57,6 +57,9 @@ void TYPED_FUNC(
         LOG_ERROR("read error\n");
     }
 
+    // Remove the blocks stored before
+    TYPED_FUNC(bml_clear_ellblock) (A);
+
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
-- 
2.43.0


From 3648a09402f44ecb97507be97424eb7c4202541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 29/47] fix: bml_clear_ellblock forgets the blocks it freed
 [C16]

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..9398864 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -140,6 +140,8 @@ void TYPED_FUNC(
             bml_free_memory(A->ptr_value[ind]);
         }
 #endif
+    for (int i = 0; i < A->NB * A->MB; i++)
+        A->ptr_value[i] = NULL;
     memset(A->nnzb, 0, A->NB * sizeof(int));
 }
 
-- 
2.43.0


From 0fcd3c3fb31eb2f6e321797488f9d291c6950cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 30/47] fix: bml_add_ellblock replaces the old blocks of a row
 [C04/C16]

---
 .../ellblock/bml_add_ellblock_typed.c         | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..077b6ff 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -160,6 +160,16 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
+        // The old blocks of this row are replaced
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+        A->memory_pool_ptr[ib] =
+            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#else
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            bml_free_memory(A_ptr_value[ROWMAJOR(ib, jp, NB, MB)]);
+#endif
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            A_ptr_value[ROWMAJOR(ib, jp, NB, MB)] = NULL;
         A_nnzb[ib] = l;
 
         int ll = 0;
@@ -173,13 +183,10 @@ void TYPED_FUNC(
             if (is_above_threshold(normx, threshold))
             {
                 int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
-                {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
-                }
+                A_ptr_value[kb]
+                    =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
-- 
2.43.0


From e2b6685b230bcfe583ed652ab32d5965fea42ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 31/47] fix: bml_add_norm_ellblock allocates its blocks and
 sums squares [C04/C16]

---
 .../ellblock/bml_add_ellblock_typed.c         | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 077b6ff..cab25b5 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -242,17 +242,23 @@ double TYPED_FUNC(
 
     memset(ix, 0, NB * sizeof(int));
     memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+
+    int maxbsize = 0;
+    for (int ib = 0; ib < NB; ib++)
+        maxbsize = MAX(maxbsize, bsize[ib]);
+    int maxbsize2 = maxbsize * maxbsize;
+
+    x[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        x[i] = x[0] + i * BMAXSIZE;
+        x[i] = x[0] + i * maxbsize2;
     }
 
     REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
+    y[0] = (REAL_T *) calloc(maxbsize2 * NB, sizeof(REAL_T));
     for (int i = 1; i < NB; i++)
     {
-        y[i] = y[0] + i * BMAXSIZE;
+        y[i] = y[0] + i * maxbsize2;
     }
 
 
@@ -313,6 +319,16 @@ double TYPED_FUNC(
                     y[jb][kk] = y[jb][kk] - B_value[kk];
                 }
         }
+        // The old blocks of this row are replaced
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+        A->memory_pool_ptr[ib] =
+            (REAL_T *) A->memory_pool + A->memory_pool_offsets[ib];
+#else
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            bml_free_memory(A_ptr_value[ROWMAJOR(ib, jp, NB, MB)]);
+#endif
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            A_ptr_value[ROWMAJOR(ib, jp, NB, MB)] = NULL;
         A_nnzb[ib] = l;
 
         int ll = 0;
@@ -324,10 +340,15 @@ double TYPED_FUNC(
                 (x[jb], bsize[ib], bsize[jb], bsize[jb]);
             REAL_T normy = TYPED_FUNC(bml_sum_squares)
                 (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
+            trnorm += normy;
             if (is_above_threshold(normx, threshold))
             {
                 int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb]
+                    =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             bsize[ib] *
+                                                             bsize[jb]);
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
@@ -345,6 +366,9 @@ double TYPED_FUNC(
         A_nnzb[ib] = ll;
     }
 
+    free(x[0]);
+    free(y[0]);
+
     return trnorm;
 }
 
-- 
2.43.0


From 60ddd178378a60dfaea485a0f1c206a6b8ccf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 32/47] fix: bml_scale_add_identity_ellblock passes its factor
 in the element type [C04]

---
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index cab25b5..fe1c9ef 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -419,7 +419,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T scale_factor = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&scale_factor, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
-- 
2.43.0


From f0074d6b80a82a8ce5df6e3a4a6e692371dd56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 33/47] fix: bml_copy_ellblock replaces the old blocks of the
 target [C02/C16]

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..b420b16 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -81,6 +81,9 @@ void TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
 
+    // The old blocks of B are replaced
+    TYPED_FUNC(bml_clear_ellblock) (B);
+
     memcpy(B->nnzb, A->nnzb, sizeof(int) * A->NB);
 
     int *A_indexb = A->indexb;
-- 
2.43.0


From 6f5ae6dd803d64d8358441b1bb3e921205873a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 34/47] fix: bml_multiply_x2_ellblock sums the diagonal of X2
 [C06]

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..56ae2fb 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -410,7 +410,7 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-- 
2.43.0


From 40ba5f7ea161f988670c35a896d8e7e99d9e932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 35/47] fix: bml_multiply_ellblock frees the traces of
 bml_multiply_x2 [C16]

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 56ae2fb..33ea7d5 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -199,7 +199,8 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        void *trace = TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(trace);
     }
     else
     {
@@ -210,7 +211,9 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            void *trace =
+                TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(trace);
         }
         else
         {
-- 
2.43.0


From 138dc55ef81721c2f92ccaa1569523bfd97600e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 36/47] fix: bml_multiply_AB_ellblock replaces the old blocks
 of C [C06/C16]

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 33ea7d5..bf5fede 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -465,6 +465,8 @@ void TYPED_FUNC(
     assert(A->NB == B->NB);
     assert(A->NB == C->NB);
 
+    TYPED_FUNC(bml_clear_ellblock) (C);
+
     int NB = A->NB;
 
     int *A_nnzb = A->nnzb;
-- 
2.43.0


From 4ca737739d08f92254fdee84dc28742c9b44f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 37/47] fix: bml_multiply_adjust_AB_ellpack terminates and
 stays inside its rows [C06/C16]

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 38 +++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..87cc298 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -666,32 +666,26 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
-                // Diagonal elements are saved in first column
-                if (jp == i)
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
+                    // Check for number of non-zeroes per row exceeded
+                    // Need to adjust threshold
+                    if (ll == C_M)
+                    {
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
@@ -699,7 +693,11 @@ void TYPED_FUNC(
             C_nnz[i] = ll;
         }
 
-        adjust_threshold *= (REAL_T) 2.0;
+        // Doubling needs a positive value to start from
+        if (REAL_PART(adjust_threshold) > 0)
+            adjust_threshold *= (REAL_T) 2.0;
+        else
+            adjust_threshold = (REAL_T) BML_REAL_MIN;
     }
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update to(C_nnz[:C_N], C_index[:C_N*C_M], C_value[:C_N*C_M])
-- 
2.43.0


From 2f559c43b63c05f30a67ba6241ceb8460d174b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 38/47] fix: bml_multiply_adjust_AB_ellblock multiplies blocks
 and stores them in C [C06/C16]

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 68 +++++++++++--------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index bf5fede..751c4d4 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -679,6 +679,8 @@ void TYPED_FUNC(
     {
         aflag = 0;
 
+        TYPED_FUNC(bml_clear_ellblock) (C);
+
         for (int ib = 0; ib < NB; ib++)
         {
             int l = 0;
@@ -689,36 +691,31 @@ void TYPED_FUNC(
 
                 for (int kp = 0; kp < B_nnzb[jb]; kp++)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
+                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, B->MB)];
                     if (ix[kb] == 0)
                     {
-                        memset(x_ptr[kb], 0, maxbsize2);
+                        memset(x_ptr[kb], 0, maxbsize2 * sizeof(REAL_T));
                         jx[l] = kb;
                         ix[kb] = ib + 1;
                         l++;
                     }
                     // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
+                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, B->MB)];
                     REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
+                    for (int ii = 0; ii < bsize[ib]; ii++)
                         for (int jj = 0; jj < bsize[kb]; jj++)
                         {
                             int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
+                            for (int mm = 0; mm < bsize[jb]; mm++)
+                                x[k] =
+                                    x[k] +
+                                    a[ROWMAJOR(ii, mm, bsize[ib], bsize[jb])]
+                                    * b[ROWMAJOR
+                                        (mm, jj, bsize[jb], bsize[kb])];
                         }
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int jb = 0; jb < l; jb++)
             {
@@ -726,20 +723,26 @@ void TYPED_FUNC(
                 REAL_T *xtmp = x_ptr[jp];
                 double normx = TYPED_FUNC(bml_norm_inf)
                     (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
+                if (jp == ib || normx > adjust_threshold)
                 {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
+                    // Check for number of non-zeroes per row exceeded
+                    // Need to adjust threshold
+                    if (ll == C->MB)
+                    {
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        int ind = ROWMAJOR(ib, ll, NB, C->MB);
+                        int nelements = bsize[ib] * bsize[jp];
+                        C_ptr_value[ind] =
+                            TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                                     nelements);
+                        memcpy(C_ptr_value[ind], xtmp,
+                               nelements * sizeof(REAL_T));
+                        C_indexb[ind] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
                 memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
@@ -747,6 +750,13 @@ void TYPED_FUNC(
             C_nnzb[ib] = ll;
         }
 
-        adjust_threshold *= 2.0;
+        // Doubling needs a positive value to start from
+        if (adjust_threshold > 0)
+            adjust_threshold *= 2.0;
+        else
+            adjust_threshold = BML_REAL_MIN;
     }
+
+    for (int ib = 0; ib < NB; ib++)
+        free(x_ptr[ib]);
 }
-- 
2.43.0


From 4a81643391c379d09e5041fc358c1ac772e070c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 39/47] fix: bml_set_row_ellblock replaces the entries of the
 row [C03]

---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..8c0f92e 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -152,6 +152,14 @@ void TYPED_FUNC(
         ib++;
     }
 
+    // the entries stored before are replaced
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int ncols = A_bsize[A_indexb[ind]];
+        memset(A_ptr_value[ind] + ii * ncols, 0, ncols * sizeof(REAL_T));
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
-- 
2.43.0


From 6373833f8e592dbede3a341173450a76ff58d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:33 +0000
Subject: [PATCH 40/47] fix: bml_convert_ellpack stores only the nonzero
 entries [C23/C16]

---
 src/C-interface/ellpack/bml_convert_ellpack_typed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..c1b5fda 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -1,5 +1,6 @@
 #include "../../macros.h"
 #include "../../typed.h"
+#include "../bml_allocate.h"
 #include "../bml_getters.h"
 #include "../bml_introspection.h"
 #include "../bml_logger.h"
@@ -28,10 +29,9 @@ bml_matrix_ellpack_t *TYPED_FUNC(
 
     for (int i = 0; i < N; i++)
     {
-        for (int j = 0; j < N; j++)
-        {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
-        }
+        REAL_T *row = bml_get_row(A, i);
+        bml_set_row(B, i, row, 0.0);
+        bml_free_memory(row);
     }
 
     return B;
-- 
2.43.0


From 4a5226a440dfa54c62d93bb1b619b4cfadd0b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:59 +0000
Subject: [PATCH 41/47] fix: complex diagonalization returns the eigenvectors
 of A, not of its conjugate

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..e0f7643 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -754,8 +754,9 @@ bml_diagonalize_dense_single_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // LAPACK was given the transpose, i.e. the conjugate, of A
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -864,8 +865,9 @@ bml_diagonalize_dense_double_complex(
         typed_eigenvalues[i] = (double) evals[i];
         for (int j = 0; j < A->N; j++)
         {
+            // LAPACK was given the transpose, i.e. the conjugate, of A
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From 70946bad45dc79f7788be971ce7d5d9fb61916de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 42/47] fix: copying an ellblock matrix with blocks of ten or
 more rows

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index b420b16..89d7c3e 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -42,7 +42,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
-- 
2.43.0


From cf67f78ef89bb7af1fe7c761eaa8551212d1ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 43/47] fix: ellblock multiplication with blocks of more than
 six rows

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 751c4d4..7c49ee9 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,30 @@ void TYPED_FUNC(
     }
 }
 
+void TYPED_FUNC(
+    bml_multiply_blockn) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -380,8 +404,14 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_blockn) (X_value_left, T_value_right,
+                                                     bsizejb, x, bsize[ib],
+                                                     bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
                 REAL_T beta = (REAL_T) 1.;
@@ -583,8 +613,14 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
-                                             bsizejb, x, bsize[ib], bsizekb);
+                if (bsizejb <= 6)
+                    (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                                                 bsizejb, x, bsize[ib],
+                                                 bsizekb);
+                else
+                    TYPED_FUNC(bml_multiply_blockn) (A_value, T_value_right,
+                                                     bsizejb, x, bsize[ib],
+                                                     bsizekb);
             }
         }
 
-- 
2.43.0


From fa2b1c72e5c60b7fb2acd263f6077c092d958458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:05 +0000
Subject: [PATCH 44/47] fix: room for the diagonal in the scratch row of
 ellpack add_identity

---
 src/C-interface/ellpack/bml_add_ellpack_typed.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 89f2d86..2497b80 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -433,11 +433,11 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +494,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
-- 
2.43.0


From c4c3b5f6ae9edf544328211cfc6df021d162cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 45/47] fix: sparsity of matrices with more than 46340 rows
 (int overflow of N * N)

---
 src/C-interface/csr/bml_introspection_csr_typed.c             | 2 +-
 src/C-interface/dense/bml_introspection_dense_typed.c         | 2 +-
 .../distributed2d/bml_introspection_distributed2d.c           | 4 ++--
 src/C-interface/ellblock/bml_introspection_ellblock_typed.c   | 2 +-
 src/C-interface/ellpack/bml_introspection_ellpack_typed.c     | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/csr/bml_introspection_csr_typed.c b/src/C-interface/csr/bml_introspection_csr_typed.c
index 4c2d941..da54eba 100644
--- a/src/C-interface/csr/bml_introspection_csr_typed.c
+++ b/src/C-interface/csr/bml_introspection_csr_typed.c
@@ -43,6 +43,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * (double) N));
     return sparsity;
 }
diff --git a/src/C-interface/dense/bml_introspection_dense_typed.c b/src/C-interface/dense/bml_introspection_dense_typed.c
index 6cc16aa..9541279 100644
--- a/src/C-interface/dense/bml_introspection_dense_typed.c
+++ b/src/C-interface/dense/bml_introspection_dense_typed.c
@@ -118,7 +118,7 @@ double TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     free(A_matrix);
 #endif
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * (double) N));
 
     return sparsity;
 }
diff --git a/src/C-interface/distributed2d/bml_introspection_distributed2d.c b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
index df0d49e..c3e1c1c 100644
--- a/src/C-interface/distributed2d/bml_introspection_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_introspection_distributed2d.c
@@ -117,10 +117,10 @@ bml_get_sparsity_distributed2d(
 {
     double sp = bml_get_sparsity(A->matrix, threshold);
     int nloc = A->N / A->nprows;
-    sp *= nloc * nloc;
+    sp *= (double) nloc * (double) nloc;
 
     bml_sumRealReduce(&sp);
-    sp /= (A->N * A->N);
+    sp /= (double) A->N * (double) A->N;
 
     return sp;
 }
diff --git a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
index 167dafa..bcde3dd 100644
--- a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
@@ -56,6 +56,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A->N * A->N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A->N * (double) A->N));
     return sparsity;
 }
diff --git a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
index e6b8a7c..6b3046c 100644
--- a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
@@ -49,6 +49,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A_N * A_N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A_N * (double) A_N));
     return sparsity;
 }
-- 
2.43.0


From db314feda732a8218e446e8d375fb0c9ad3d60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 46/47] fix: largest local extent of the default domain for
 large matrices (float rounding)

---
 src/C-interface/bml_allocate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..a0899fc 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -644,7 +644,7 @@ bml_default_domain(
         {
             // For completely distributed
             avgExtent = N / nRanks;
-            domain->maxLocalExtent = ceil((float) N / (float) nRanks);
+            domain->maxLocalExtent = (N + nRanks - 1) / nRanks;
             domain->minLocalExtent = avgExtent;
 
             for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From 1df5d850e8e7516432f4d7542a8127a2cd04120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:23 +0000
Subject: [PATCH 47/47] fix: bml_transpose of an ellpack matrix writes past
 full rows

While a matrix is transposed in place, a row holds its own entries along
with those of its column.  Where these exceed M, entries were written to
the next row (or past the end of the arrays), although both the matrix
and its transpose fit.  Transpose into another matrix in that case.
---
 .../ellpack/bml_transpose_ellpack_typed.c     | 85 +++++++++++++++++++
 1 file changed, 85 insertions(+)

diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index dd995fa..d05885e 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -405,6 +405,70 @@ void TYPED_FUNC(
 #endif
 }
 
+#if !defined(BML_USE_CUSPARSE)
+/** Check whether a matrix can be transposed in place.
+ *
+ *  While it is transposed in place, a row holds its own entries along with
+ *  those of its column.
+ *
+ *  \ingroup transpose_group
+ *
+ *  \param A The matrix to be transposed
+ *  \return 1 if all rows have room for that, 0 otherwise
+ */
+static int TYPED_FUNC(
+    ellpack_transpose_fits) (
+    bml_matrix_ellpack_t * A)
+{
+    int N = A->N;
+    int M = A->M;
+
+    int *A_index = A->index;
+    int *A_nnz = A->nnz;
+
+    int room[N];
+    int fits = 1;
+
+#if defined(USE_OMP_OFFLOAD)
+#pragma omp target update from(A_index[:N*M], A_nnz[:N])
+#endif
+    for (int i = 0; i < N; i++)
+    {
+        room[i] = M - A_nnz[i];
+    }
+    for (int i = 0; i < N; i++)
+    {
+        for (int ipos = 0; ipos < A_nnz[i]; ipos++)
+        {
+            const int j = A_index[ROWMAJOR(i, ipos, N, M)];
+            int found = 0;
+            /* search for symmetric position */
+            for (int jpos = 0; jpos < A_nnz[j]; jpos++)
+            {
+                if (A_index[ROWMAJOR(j, jpos, N, M)] == i)
+                {
+                    found = 1;
+                    break;
+                }
+            }
+            if (!found)
+            {
+                room[j]--;
+            }
+        }
+    }
+    for (int i = 0; i < N; i++)
+    {
+        if (room[i] < 0)
+        {
+            fits = 0;
+        }
+    }
+
+    return fits;
+}
+#endif
+
 /** Transpose a matrix in place.
  *  \ingroup transpose_group
  *
@@ -415,6 +479,27 @@ void TYPED_FUNC(
     bml_transpose_ellpack) (
     bml_matrix_ellpack_t * A)
 {
+#if !defined(BML_USE_CUSPARSE)
+    if (!TYPED_FUNC(ellpack_transpose_fits) (A))
+    {
+        /* a row would overflow on the way: transpose into another matrix */
+        bml_matrix_ellpack_t *B = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+
+        memcpy(A->value, B->value, sizeof(REAL_T) * A->N * A->M);
+        memcpy(A->index, B->index, sizeof(int) * A->N * A->M);
+        memcpy(A->nnz, B->nnz, sizeof(int) * A->N);
+        bml_deallocate_ellpack(B);
+#if defined(USE_OMP_OFFLOAD)
+        REAL_T *A_value = (REAL_T *) A->value;
+        int *A_index = A->index;
+        int *A_nnz = A->nnz;
+        int N = A->N;
+        int M = A->M;
+#pragma omp target update to(A_index[:N*M], A_value[:N*M], A_nnz[:N])
+#endif
+        return;
+    }
+#endif
     /* Call in-place transpose function. 
      * consider: ellpack_transpose_left_looking(A) - for structurally non-symmetric matrices 
      * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
-- 
2.43.0

