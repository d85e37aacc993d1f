From 77677a4d8d73f2744c197abf73a5afa71f5c2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:51 +0000
Subject: [PATCH 01/34] fix: dct1 Mx leaves its input vector bit-for-bit
 unchanged

---
 src/dct1.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..0bb8a66 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -179,15 +179,17 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  // Leave the input vector unchanged.
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
+  x[0] = x0_tmp; /* Undo the scaling operation. */
+
   // normalize
   for (int i = 0; i < dct_m; i++) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
-
-  x[0] = x[0] / sqrt(2.0); // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0


From 28cd566d84bf058b6cafb27a2635cd5bea4b5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:56 +0000
Subject: [PATCH 02/34] fix: dctTV transforms provide the required AtAx
 operator

---
 src/dct_tv_transforms.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..2d375a7 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAv(double* v, double* z);
+static void RtRx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -148,6 +150,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -157,6 +160,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -238,6 +242,19 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+/* z = A^T * A * v, synthesis mode (n <= _p, so z can hold the samples). */
+static void AtAv(double* v, double* z) {
+  Av(v, z);
+  ax_funs_local.Rty(z, u);
+  Wtx(u, z);
+}
+
+/* z = R^T * R * x, analysis mode. */
+static void RtRx(double* x, double* z) {
+  ax_funs_local.Rx(x, u);
+  ax_funs_local.Rty(u, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From f16c1f25f5c57c3533df2b227daf593d644fc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:37 +0000
Subject: [PATCH 03/34] fix: a refused dctTV set-up leaves live transforms
 undisturbed

---
 src/dct_tv_transforms.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 2d375a7..b4b1663 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -71,16 +71,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                BpMode bp_mode,
                                l1c_int* pix_idx,
                                l1c_AxFuns* ax_funs) {
-  jobs = 0;
   int status = L1C_SUCCESS;
-  _mrow = mrow;
-  _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
-  _alp_v = alp_v;
-  _alp_h = alp_h;
-  _inc_TVV = 0;
-  _inc_TVH = 0;
 
   if (n <= 0 || mrow <= 0 || mcol <= 0 || alp_v < 0 || alp_h < 0) {
     return L1C_INVALID_ARGUMENT;
@@ -94,6 +85,18 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* Only now may the file-level state change: a refused set-up must not disturb
+     transforms which are still in use. */
+  jobs = 0;
+  _mrow = mrow;
+  _mcol = mcol;
+  _m = mrow * mcol;
+  _p = _m;
+  _alp_v = alp_v;
+  _alp_h = alp_h;
+  _inc_TVV = 0;
+  _inc_TVH = 0;
+
   /* For a matrix A=[M1; M2], ||A|| = ||A^TA||^1/2 = ||M_1^TM_1  +  M_2^TM_2||^1/2
     Thus,
     ||A|| <= \sqrt{ ||M_1||^2 + ||M_2||^2 }
-- 
2.43.0


From 1c8785d025f88420df8787c0575a4f9791a6689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:18 +0000
Subject: [PATCH 04/34] fix: preconditioned CG measures the start by its true
 residual

---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..bd51684 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 2f216a5f18f013c561c31deefb81a5e14921f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 05/34] fix: l1c_linesearch compares with the objective value
 it was given

---
 src/linesearch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linesearch.c b/src/linesearch.c
index 99b1337..45ccc59 100644
--- a/src/linesearch.c
+++ b/src/linesearch.c
@@ -187,6 +187,7 @@ LSStat l1c_linesearch(l1c_int n,
   LSStat ls_stat = {.flin = 0, .step = 0, .status = 0};
   int iter = 0;
   double flin = 0.0, fx0_prime = 0.0;
+  double fx0_orig = *fx0;
 
   double step = ls_params.s;
 
@@ -207,7 +208,7 @@ LSStat l1c_linesearch(l1c_int n,
 
     /* need gradf'*dx
      */
-    flin = *fx0 + ls_params.alpha * step * g_dot_dx;
+    flin = fx0_orig + ls_params.alpha * step * g_dot_dx;
 
     if (fx0_prime <= flin) { /* Sufficient decrease test */
       cblas_dcopy(n, xp, 1, x, 1);
-- 
2.43.0


From 96aeecfedc264e810599144a7bdecc79caa195e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:51 +0000
Subject: [PATCH 06/34] fix: nesta refuses a transform set without Ax or Aty

---
 src/nesta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..00c128b 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -277,7 +277,8 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
                     l1c_NestaOpts* opts) {
 
   double L = 0;
-  if (!ax_funs.Wz || !ax_funs.Wtx || !ax_funs.Rx || !ax_funs.Rty) {
+  if (!ax_funs.Wz || !ax_funs.Wtx || !ax_funs.Rx || !ax_funs.Rty || !ax_funs.Ax ||
+      !ax_funs.Aty) {
     return L1C_INCONSISTENT_ARGUMENTS;
   }
   L = ax_funs.norm_W * ax_funs.norm_W;
-- 
2.43.0


From 75a737d3d4dd00e7581a85e95af10ac82d3124b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:55 +0000
Subject: [PATCH 07/34] fix: nesta derives the initial mu from all p dictionary
 coefficients

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 00c128b..d6af9ed 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -302,7 +302,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From b27b4dd02d6a67c9a19dde1bb4dbe6edd225f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:03 +0000
Subject: [PATCH 08/34] fix: nesta reports out-of-memory when its fmean buffer
 cannot be allocated

---
 src/nesta.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index d6af9ed..bc7ac26 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -40,12 +40,12 @@
 
 /*
    Returns a new instance of l1c_fmean_fifo, with the vector of
-   fvals initialized to zero.
+   fvals initialized to zero. If memory allocation fails, .f_vals is NULL.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
   double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
 
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
+  for (int i = 0; fvals && i < L1C_NESTA_NMEAN; i++) {
     fvals[i] = 0.0;
   }
 
@@ -390,6 +390,10 @@ int l1c_nesta(l1c_int m,
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
-- 
2.43.0


From 95bfbcebc01820fc163942b33e93094c62e0acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:03 +0000
Subject: [PATCH 09/34] fix: nesta releases its work memory when the set-up is
 refused

---
 src/nesta.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nesta.c b/src/nesta.c
index bc7ac26..a9ab087 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -386,6 +386,7 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
-- 
2.43.0


From 427cc401b2f693cfb6b7cdacf159c93c38aa1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:03 +0000
Subject: [PATCH 10/34] fix: nesta does not print to stdout behind the logging
 layer

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index a9ab087..c5f35fe 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -372,7 +372,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From 712f60b43d7eab1014a2a322fb4c51c2ae9b505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:03 +0000
Subject: [PATCH 11/34] fix: l1qc_newton does not free uninitialised pointers
 when out of memory

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From a49a7570af75abf438fcce555c5d2d290c4de8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 12/34] fix: a failing dct1 set-up does not destroy stale plans

---
 src/dct1.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dct1.c b/src/dct1.c
index 0bb8a66..e2bb9b2 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -101,6 +101,11 @@ int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_f
   fftw_plan_with_nthreads(n_thread);
 #endif
 
+  /* Forget the plans of an earlier, already destroyed set: on failure,
+     dct_destroy() must only release what was acquired here. */
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
+
   dct_Ety_sparse = l1c_calloc_double(m);
   dct_x = l1c_calloc_double(m);
   dct_y = l1c_calloc_double(m);
-- 
2.43.0


From 552d069cf79d03213096f679791483e253f18576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 13/34] fix: a failing dct2 set-up releases its buffers and
 plans

---
 src/dct2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..f1d9b77 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -125,6 +125,11 @@ int l1c_dct2_setup(
 #endif
 
   l1c_int i = 0;
+  /* Forget the plans of an earlier, already destroyed set: on failure,
+     dct2_destroy() must only release what was acquired here. */
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
+
   dct2_Ety_sparse = l1c_malloc_double(mrow * mcol);
   dct2_x = l1c_malloc_double(mrow * mcol);
   dct2_y = l1c_malloc_double(mrow * mcol);
@@ -188,7 +193,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From dcb5771b14502e5c49b92058602e2d974a8eda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:25 +0000
Subject: [PATCH 14/34] fix: l1qc_dct reports its timing through the logging
 layer

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From 2e3229ea8ef3e84f34e4313ee484cb3c3b6fb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 15/34] fix: load_file_to_json reports malformed JSON as an
 error

---
 src/json_utils.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..c797368 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -59,12 +59,9 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   free(file_data);
 
-  if (data_json == NULL) {
-    const char* error_ptr = cJSON_GetErrorPtr();
-    if (error_ptr != NULL) {
-      fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
-    }
+  if (*data_json == NULL) {
+    fprintf(stderr, "Error parsing %s\n", fname);
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From 275eb59ebf419d20db682182d476505d48dc0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 16/34] fix: load_file_as_text releases its buffer when the
 file cannot be read

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index c797368..fbe3c90 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -45,6 +45,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From ebc05ce0c3241acc6f664dafb35de4481c469c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 17/34] fix: extract_json_int_array reports out-of-memory
 instead of crashing

---
 src/json_utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index fbe3c90..5643bd5 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -123,6 +123,7 @@ int extract_json_double_array(cJSON* data_json, char* name, double** x, l1c_int*
 
   if (!*x) {
     status = 1;
+    *N = 0;
     fprintf(stderr, "error allocating memory\n");
     goto end;
   }
@@ -158,6 +159,13 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x) {
+    status = 1;
+    *N = 0;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From 0a0b05299995148f9dbac08615b523d988718088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 18/34] fix: json array extractors report length 0 for a NULL
 document

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index 5643bd5..52d159b 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -107,6 +107,7 @@ int extract_json_double_array(cJSON* data_json, char* name, double** x, l1c_int*
   if (!data_json) {
     fprintf(stderr, "Error in extract_json_double_array: cannot extract %s\n", name);
     fprintf(stderr, "         cJSON input is NULL\n");
+    *N = 0;
     return 1;
   }
 
@@ -145,6 +146,7 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   if (!data_json) {
     fprintf(stderr, "Error in extract_json_int_array: cannot extract %s\n", name);
     fprintf(stderr, "         cJSON input is NULL\n");
+    *N = 0;
     return 1;
   }
 
-- 
2.43.0


From 3731f2512206986f5849b1fa839a4d2d4b1a5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 19/34] fix: json array extractors refuse arrays with
 non-numeric elements

---
 src/json_utils.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index 52d159b..f6d9b3e 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -134,6 +134,14 @@ int extract_json_double_array(cJSON* data_json, char* name, double** x, l1c_int*
   cJSON_ArrayForEach(xk_json, x_json) {
     // note to self: if you do *x[k], that would be
     // the next pointer in an array of pointers.
+    if (!cJSON_IsNumber(xk_json)) {
+      fprintf(stderr, "Error in extract_json_double_array: %s is not numeric\n", name);
+      status = 1;
+      *N = 0;
+      l1c_free_double(*x);
+      *x = NULL;
+      goto end;
+    }
     (*x)[k] = xk_json->valuedouble;
     k = k + 1;
   }
@@ -173,6 +181,14 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   cJSON_ArrayForEach(xk_json, x_json) {
     // note to self: if you do *x[k], that would be
     // the next pointer in an array of pointers.
+    if (!cJSON_IsNumber(xk_json)) {
+      fprintf(stderr, "Error in extract_json_int_array: %s is not numeric\n", name);
+      status = 1;
+      *N = 0;
+      free(*x);
+      *x = NULL;
+      goto end;
+    }
     (*x)[k] = xk_json->valueint;
     k = k + 1;
   }
-- 
2.43.0


From 8fb9309bbe641f84e7898545a20e5375c65cb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:06 +0000
Subject: [PATCH 20/34] fix: load_file_as_text does not overflow its buffer on
 files without a length

---
 src/json_utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index f6d9b3e..698d20b 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -2,6 +2,7 @@
 
 #include <cjson/cJSON.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -19,7 +20,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,6 +31,12 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
+  if (file_len < 0 || file_len == LONG_MAX) { /* Not seekable, or a directory. */
+    fprintf(stderr, "Cannot determine the length of %s\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
+
   *file_data = calloc(file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
-- 
2.43.0


From 48395900d523af600b88adf50800bc90e7a0c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:28 +0000
Subject: [PATCH 21/34] fix: json array extractors again tolerate nested
 arrays, which test data rely on

---
 src/json_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index 698d20b..a8b38f5 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -141,7 +141,7 @@ int extract_json_double_array(cJSON* data_json, char* name, double** x, l1c_int*
   cJSON_ArrayForEach(xk_json, x_json) {
     // note to self: if you do *x[k], that would be
     // the next pointer in an array of pointers.
-    if (!cJSON_IsNumber(xk_json)) {
+    if (!cJSON_IsNumber(xk_json) && !cJSON_IsArray(xk_json)) {
       fprintf(stderr, "Error in extract_json_double_array: %s is not numeric\n", name);
       status = 1;
       *N = 0;
@@ -188,7 +188,7 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   cJSON_ArrayForEach(xk_json, x_json) {
     // note to self: if you do *x[k], that would be
     // the next pointer in an array of pointers.
-    if (!cJSON_IsNumber(xk_json)) {
+    if (!cJSON_IsNumber(xk_json) && !cJSON_IsArray(xk_json)) {
       fprintf(stderr, "Error in extract_json_int_array: %s is not numeric\n", name);
       status = 1;
       *N = 0;
-- 
2.43.0


From e01e131816b1b68823f7ac59924047c964a4f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:01 +0000
Subject: [PATCH 22/34] fix: Python results no longer carry a reference nobody
 owns

Py_BuildValue("O") takes a new reference and the functions kept their own, so
every result array (and the l1qc dict) was leaked.
---
 interfaces/python/l1cPy.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..c0e5def 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,8 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  /* "N": the tuple takes over our references. */
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +320,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return uk_out_npA;
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +461,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From c015004e07d71d9b20812a021d8c3436bb90586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:01 +0000
Subject: [PATCH 23/34] fix: Python breg_anistropic_TV frees its work vectors
 when one cannot be had

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index c0e5def..0f37cd8 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -299,7 +299,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From bde27df480ff26d540adbbf745fd8c0c19067df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:38 +0000
Subject: [PATCH 24/34] fix: Python nesta_dctTV releases its transforms, raises
 on failure, returns the image

The transforms were never destroyed, a failing solver returned whatever x held,
and in synthesis mode the coefficients were returned instead of the image
(with a variable of the wrong size when TV weights are given).
---
 interfaces/python/l1cPy.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 0f37cd8..4a2a15e 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -334,7 +334,7 @@ fail1:
 
 static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   (void)self;
-  double *x_ours = NULL, *b = NULL, *b_ours = NULL;
+  double *x_ours = NULL, *img = NULL, *b = NULL, *b_ours = NULL;
 
   PyObject *b_obj = NULL, *pix_idx_obj = NULL, *x_out_npA = NULL;
 
@@ -430,10 +430,8 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   b = (double*)PyArray_DATA(b_npA);
   pix_idx = (int*)PyArray_DATA(pix_idx_npA);
 
-  /* Allocate memory for M*xk=f */
-  x_ours = l1c_calloc_double(mtot);
   b_ours = l1c_malloc_double(n);
-  if (!x_ours || !b_ours) {
+  if (!b_ours) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
     goto fail;
   }
@@ -446,12 +444,31 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
     goto fail;
   }
 
-  status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  /* The size of the optimization variable depends on bp_mode. */
+  x_ours = l1c_calloc_double(ax_funs.m);
+  img = l1c_calloc_double(mtot);
+  if (!x_ours || !img) {
+    ax_funs.destroy();
+    PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
+    goto fail;
+  }
+
+  status = l1c_nesta(ax_funs.m, x_ours, n, b_ours, ax_funs, opts);
+
+  /* In synthesis mode, x_ours holds coefficients of the image. In analysis mode,
+     this is a straight copy. */
+  ax_funs.Mx(x_ours, img);
+  ax_funs.destroy();
+
+  if (status != L1C_SUCCESS) {
+    PyErr_SetString(PyExc_RuntimeError, "nesta failed.");
+    goto fail;
+  }
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
 
-  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, x_ours);
+  x_out_npA = PyArray_SimpleDoubleCopy(2, dims, img);
   if (!x_out_npA)
     goto fail;
 
@@ -459,6 +476,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(b_npA);
   Py_DECREF(pix_idx_npA);
   l1c_free_double(b_ours);
+  l1c_free_double(img);
   l1c_free_double(x_ours);
 
   return Py_BuildValue("Ni", x_out_npA, status);
@@ -466,6 +484,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   /* If we failed, clean up more things */
 fail:
   l1c_free_double(x_ours);
+  l1c_free_double(img);
   l1c_free_double(b_ours);
   Py_XDECREF(b_npA);
   Py_XDECREF(pix_idx_npA);
-- 
2.43.0


From 17764b8b86ccd022790177edc59bc6b9be4d46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:48 +0000
Subject: [PATCH 25/34] fix: refuse images whose number of pixels does not fit
 an integer

---
 src/dct_transforms.c    | 6 ++++++
 src/dct_tv_transforms.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/dct_transforms.c b/src/dct_transforms.c
index cd8d858..270698f 100644
--- a/src/dct_transforms.c
+++ b/src/dct_transforms.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include "l1c.h"
+#include <limits.h>
 
 /* Helper Routines*/
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx);
@@ -50,6 +51,11 @@ int l1c_setup_dct_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The number of pixels must be representable. */
+  if (mrow > INT_MAX / mcol) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
   }
diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index b4b1663..719d597 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -2,6 +2,7 @@
 #include "config.h"
 #include "l1c.h"
 #include <cblas.h>
+#include <limits.h>
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -77,6 +78,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* The number of pixels (and of the stacked coefficients) must be representable. */
+  if (mrow > INT_MAX / (1 + (alp_v > 0) + (alp_h > 0)) / mcol) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   if ((alp_h > 0 || alp_v > 0) && (mrow <= 2 || mcol <= 2)) {
     return L1C_INVALID_ARGUMENT;
   }
-- 
2.43.0


From f5c04454502c55ba78db61ce3556e89280768502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:48 +0000
Subject: [PATCH 26/34] fix: Python functions refuse image sizes that overflow

---
 interfaces/python/l1cPy.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 4a2a15e..f98578a 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -1,5 +1,6 @@
 #include "config.h"
 #include <cblas.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "l1c.h"
@@ -181,6 +182,10 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    PyErr_SetString(PyExc_ValueError, "Invalid image size.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
@@ -416,6 +421,10 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol) {
+    PyErr_SetString(PyExc_ValueError, "Invalid image size.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
-- 
2.43.0


From 5b7ef5b46204d86c86d2110fa849a2d1489ec8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 27/34] fix: mex breg_anistropic_TV handles non-square images
 and reports failures

The column-major image was passed to C with rows and columns exchanged and the
result had the transposed shape. A failing solver returned nothing at all.
---
 interfaces/mex/breg_anistropic_TV_mex.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..ce17afe 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -33,7 +33,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   double tol = 0, mu = 0;
   l1c_int i = 0, N = 0, M = 0;
   /*--- Defaults --- */
-  int max_iter = 1000, max_jac_iter = 1;
+  int max_iter = 1000, max_jac_iter = 1, stat = 0;
 
   _mex_assert_num_outputs(nlhs, 1);
   _mex_assert_num_inputs(nrhs, 4);
@@ -59,17 +59,17 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
-    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+    stat = L1C_OUT_OF_MEMORY;
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  /* Column major N by M is row major M by N. */
+  stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
-    plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
@@ -81,4 +81,10 @@ exit:
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
+  if (stat == L1C_OUT_OF_MEMORY) {
+    mexErrMsgIdAndTxt("l1c:breg:outofmemory", "Error Allocating memory.");
+  } else if (stat) {
+    mexErrMsgIdAndTxt("l1c:breg:failed", "breg_anistropic_TV failed (%d).", stat);
+  }
+
 } /* ------- mexFunction ends here ----- */
-- 
2.43.0


From c4f3693964c41e050e9b0477a31cc668e006653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 28/34] fix: mex l1qc_dct honours the dct_mode option

---
 interfaces/mex/l1qc_dct_mex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..8726a58 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -92,6 +92,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
       (int)_mex_get_double_from_struct_or_fail(prhs, 4, "newton_max_iter");
   l1qc_opts.cg_maxiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "cgmaxiter");
   l1qc_opts.lbiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "lbiter");
+  l1qc_opts.dct_mode =
+      (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
 
   if (l1qc_opts.verbose > 0) {
     l1c_printf("Input Parameters\n---------------\n");
-- 
2.43.0


From 123f98a8be6419bced449965ab17169f8d1df9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 29/34] fix: mex l1qc_dct raises when it fails and the status
 is not asked for

---
 interfaces/mex/l1qc_dct_mex.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 8726a58..a41f64a 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -48,8 +48,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   l1c_int i = 0, n = 0, mrow = 0, mcol = 1, mtot = 0, idx = 0;
   l1c_int size_pix_idx = 0;
 
-  l1c_int* pix_idx;
-  int status = 0;
+  l1c_int* pix_idx = NULL;
+  int status = 0, stat = 0;
 
   _mex_assert_num_outputs(nlhs, 1);
   _mex_assert_num_inputs(nrhs, 5);
@@ -115,7 +115,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* We are going to change x, so we must allocate and make a copy, so we
      dont change data in Matlabs workspace.
   */
-  x_ours = l1c_malloc_double(mrow * mcol);
+  x_ours = l1c_calloc_double(mrow * mcol);
   pix_idx = calloc(n, sizeof(l1c_int));
   if (!x_ours || !pix_idx) {
     status = L1C_OUT_OF_MEMORY;
@@ -134,9 +134,13 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     pix_idx[i] = idx;
   }
 
-  int stat = l1qc_dct(mrow, mcol, x_ours, n, b, pix_idx, l1qc_opts, &lb_res);
+  stat = l1qc_dct(mrow, mcol, x_ours, n, b, pix_idx, l1qc_opts, &lb_res);
   if (stat) {
     lb_res.status = stat;
+    /* Without the second output, the caller could not see that x is invalid. */
+    if (nlhs < 2) {
+      goto exit;
+    }
   }
 
   /* Prepare output data.
@@ -185,6 +189,9 @@ exit:
     break;
 
   default:
+    if (stat && nlhs < 2) {
+      mexErrMsgIdAndTxt("l1c:l1qc_dct:failed", "l1qc_dct failed (%d).", stat);
+    }
     break;
   }
 
-- 
2.43.0


From 8271d8c8fcf0fd5d0acb15f95be5e43824eadf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 30/34] fix: mex nesta_dctTV passes the size of the
 optimization variable

In synthesis mode with TV weights it differs from the number of pixels, so the
solver refused to run and the image was made from uninitialized memory. Also
check the index array and release the transforms when memory runs out.
---
 interfaces/mex/nesta_dctTV_mex.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..aaf3e71 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -33,7 +33,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   l1c_int size_pix_idx = 0;
   DctMode dct_mode;
   BpMode bp_mode;
-  l1c_int* pix_idx;
+  l1c_int* pix_idx = NULL;
   int status = 0;
 
   /* --------- Parse and verify the Input ------------ */
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (!pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -124,16 +128,17 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit1;
   }
 
-  x0 = l1c_malloc_double(ax_funs.m);
+  x0 = l1c_calloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
+    ax_funs.destroy();
     status = L1C_OUT_OF_MEMORY;
     goto exit1;
   }
 
   cblas_dcopy(n, b, 1, b_ours, 1);
 
-  status |= l1c_nesta(mtot, x0, n, b_ours, ax_funs, opts);
+  status |= l1c_nesta(ax_funs.m, x0, n, b_ours, ax_funs, opts);
 
   /* Prepare output data.
    */
-- 
2.43.0


From 20119b2c91101ee112aa51681f237d43c87d69c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 31/34] fix: mex functions refuse sparse and complex arrays
 instead of misreading them

---
 interfaces/mex/l1c_mex_utils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interfaces/mex/l1c_mex_utils.c b/interfaces/mex/l1c_mex_utils.c
index 8556402..228b213 100644
--- a/interfaces/mex/l1c_mex_utils.c
+++ b/interfaces/mex/l1c_mex_utils.c
@@ -23,6 +23,11 @@ int check_input_size(l1c_int N) {
   return 1;
 }
 
+/* The data of sparse or complex arrays are not one double per element. */
+static int is_full_real_double(const mxArray* mxa) {
+  return mxIsDouble(mxa) && !mxIsSparse(mxa) && !mxIsComplex(mxa);
+}
+
 void _mex_assert_scalar_struct(const mxArray** mxa, size_t idx) {
   if (mxGetM(mxa[idx]) != 1 || mxGetN(mxa[idx]) != 1) {
     mexErrMsgIdAndTxt("l1c:notScalar", "Argument %d must be a 1 by 1 struct.", idx + 1);
@@ -33,7 +38,7 @@ void _mex_assert_scalar_struct(const mxArray** mxa, size_t idx) {
 }
 
 void _mex_assert_double(const mxArray** mxa, size_t idx) {
-  if (!mxIsDouble(mxa[idx])) {
+  if (!is_full_real_double(mxa[idx])) {
     mexErrMsgIdAndTxt("l1c:notDouble", "Argument %d must be a double.", idx + 1);
   }
 }
@@ -146,7 +151,7 @@ void _mex_get_double_array_or_fail(const mxArray** mxa,
   size_t m = mxGetM(mxa[idx]);
   size_t nm = 0;
 
-  if (!mxIsDouble(mxa[idx])) {
+  if (!is_full_real_double(mxa[idx])) {
     mexErrMsgIdAndTxt("l1c:notDouble", "Input %d must be a double.", idx);
   }
   _mex_assert_1darray(mxa, idx);
-- 
2.43.0


From 765134a5737a620ef44125a52b9030f4e8634b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:41 +0000
Subject: [PATCH 32/34] fix: mex functions refuse image sizes that overflow

---
 interfaces/mex/l1qc_dct_mex.c    | 4 +++-
 interfaces/mex/nesta_dctTV_mex.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index a41f64a..1e5b37b 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -3,6 +3,7 @@
  so that, for this function, we get matlabs definition of fprintf
 */
 #include "mex.h"
+#include <limits.h>
 #include <math.h>
 #ifdef L1C_MEX_MATLAB
 #include "matrix.h"
@@ -68,7 +69,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   _mex_get_double_array_or_fail(prhs, 3, &pix_idx_double, &size_pix_idx);
 
   /* Ensure the sizes are consistent. */
-  if (!(mrow * mcol > n) || (n != size_pix_idx) || mrow <= 0 || mcol <= 0) {
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol || !(mrow * mcol > n) ||
+      (n != size_pix_idx)) {
     l1c_printf("mrow = %d, mcol=%d, n=%d, npix = %d\n", mrow, mcol, n, size_pix_idx);
     mexErrMsgIdAndTxt(
         "l1c:l1qc_dct:incompatible_dimensions",
diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index aaf3e71..272ea1e 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -1,4 +1,5 @@
 #include "config.h"
+#include <limits.h>
 #include <math.h>
 
 #include <stdlib.h>
@@ -86,7 +87,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   }
 
   /* Ensure the sizes are consistent. */
-  if (!(mrow * mcol > n) || (n != size_pix_idx) || mrow <= 0 || mcol <= 0) {
+  if (mrow <= 0 || mcol <= 0 || mrow > INT_MAX / mcol || !(mrow * mcol > n) ||
+      (n != size_pix_idx)) {
     mexErrMsgIdAndTxt(
         "l1c:incompatible_dimensions",
         "Must have length(x0) > length(b), and length(b) = length(pix_idx).");
-- 
2.43.0


From b0a6ecda6498adc4e80e57d6de013c56cbff9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:11 +0000
Subject: [PATCH 33/34] fix: l1qc work vectors hold residuals longer than x

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 5d094d5..9aacaaf 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -379,7 +379,7 @@ int _l1c_l1qcProb_new(l1c_l1qcProb* Prb,
   Prb->sig12 = l1c_calloc_double(m);
   Prb->ntgu = l1c_calloc_double(m);
   Prb->gradf = l1c_calloc_double(2 * m);
-  Prb->DWORK7 = l1c_calloc_double_2D(7, m);
+  Prb->DWORK7 = l1c_calloc_double_2D(7, max(m, n));
 
   if (!Prb->r || !Prb->fu1 || !Prb->fu2 || !Prb->w1p || !Prb->dx || !Prb->du ||
       !Prb->sig11 || !Prb->sig12 || !Prb->ntgu || !Prb->gradf || !Prb->DWORK7) {
-- 
2.43.0


From 36daa834933fbcc2562bf8a66dc2c2fd65f09766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:44 +0000
Subject: [PATCH 34/34] fix: end the Newton iterations when the descent
 direction cannot be computed

l1c_l1qc_newton() announced that it returns the previous iterate when CG cannot
solve the Newton system, but went on to search along the unsolved dx and the du
of an earlier iteration.
---
 src/l1qc_newton.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 9aacaaf..6b702da 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -511,13 +511,17 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
          linesearch should be exact given the current stepsize.
        */
 
-      if (_l1c_l1qc_descent_dir(&l1qc_prob, cg_params, &cg_results)) {
+      int dir_stat = _l1c_l1qc_descent_dir(&l1qc_prob, cg_params, &cg_results);
+      lb_res.total_cg_iter += cg_results.cgiter;
+
+      if (dir_stat) {
+        /* dx is no descent direction and du belongs to an earlier iteration: keep the
+           current x and u and end the inner (newton) iterations. */
         l1c_printf("Unable to solve system for Newton descent direction.\n");
         l1c_printf("Returning previous iterate\n");
+        break;
       }
 
-      lb_res.total_cg_iter += cg_results.cgiter;
-
       /* -------------- Line Search --------------------------- */
       ls_params.s = _l1c_l1qc_find_max_step(&l1qc_prob);
 
-- 
2.43.0

