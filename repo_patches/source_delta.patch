From b8e2fe459aebf3e9dd3e9ee2c3623a5e17c62032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 01/45] fix: indirect MKL solver dereferences a NULL rho vector
 when rho_is_vec is off

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..3cc0658 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -110,10 +110,13 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
-  if (!polish) {
+  if (polish) {
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+  } else if (rho_vec) {
       OSQPVectorf_copy(s->rho_vec, rho_vec);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      //rho is a scalar (rho_is_vec disabled)
+      OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   }
 
   //Link functions
@@ -364,7 +367,10 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec)
+    OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else
+    OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From 6de5d712cdbe60d00f865f01af4067e79a7710da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:39 +0000
Subject: [PATCH 02/45] fix: check the allocations made for MKL sparse matrices
 and free the row index on failure

---
 algebra/mkl/matrix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..0c283d4 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -19,6 +19,8 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
 
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
+static void mkl_csc_spfree(OSQPCscMatrix* M);
+
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
   OSQPCscMatrix* csc = c_calloc(1, sizeof(OSQPCscMatrix));
 
@@ -34,6 +36,12 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
+  /* NB: MKL returns NULL for zero-length allocations, so an empty matrix has no index/value arrays */
+  if(!csc->p || (hasData && csc->nzmax && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
+  }
+
   return csc;
 }
 
@@ -328,7 +336,11 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    // Free work index and return on error
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From 56fac595cd2b1e1080a5951926fe5766c1311dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 03/45] fix: products with an empty MKL matrix left the output
 vector unscaled

---
 algebra/mkl/matrix.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 0c283d4..53d885c 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -216,6 +216,15 @@ void OSQPMatrix_extract_diag(const OSQPMatrix*  A,
   csc_extract_diag(A->csc, OSQPVectorf_data(d));
 }
 
+/* MKL doesn't create a handle for a matrix with no entries (or no rows/columns), so its
+   product with any vector is zero and only the beta*y part of the operation remains. */
+static void scale_for_empty_matrix(OSQPVectorf* y, OSQPFloat beta) {
+  if(beta == 0.0)
+    OSQPVectorf_set_scalar(y, 0.0);
+  else
+    OSQPVectorf_mult_scalar(y, beta);
+}
+
 //y = alpha*A*x + beta*y
 void OSQPMatrix_Axpy(const OSQPMatrix*  A,
                      const OSQPVectorf* x,
@@ -225,6 +234,11 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  if(!A->mkl_mat){
+    scale_for_empty_matrix(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -249,6 +263,11 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  if(!A->mkl_mat){
+    scale_for_empty_matrix(y, beta);
+    return;
+  }
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
-- 
2.43.0


From 2a76dc6041c4c26bcd04b3f241f6443a42008721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 04/45] fix: an empty indexed matrix update read past the end
 of the caller's arrays

---
 src/osqp_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..f866dbe 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1347,7 +1347,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
   // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(P_new_n == 0) {
+  if(P_new_n == 0 && Px_new_idx == OSQP_NULL) {
     P_new_n = nnzP;
   }
 
@@ -1365,7 +1365,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
     // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(A_new_n == 0) {
+  if(A_new_n == 0 && Ax_new_idx == OSQP_NULL) {
     A_new_n = nnzA;
   }
 
-- 
2.43.0


From f2193846dc7bdd0ea27dd9b5f39fe56ead05ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 05/45] fix: a repeated solve reported the status and polish
 outcome of an earlier solve

---
 src/osqp_api.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f866dbe..63ae2c2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,13 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // Discard the outcome of any previous solve
+  reset_info(solver->info);
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+  solver->info->primdual_int  = 0.0;
+  work->last_rel_kkt          = OSQP_INFTY;
+
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From 13b41e5c18c3a725d17b61cedc585dbed4de4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 06/45] fix: information reported at the time limit was one
 iteration older than the solution

---
 src/osqp_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 63ae2c2..359405d 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -762,6 +762,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+
+      // The info has not been updated at this iteration yet
+      can_check_termination = 0;
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From 7491495089cb4a7d1c4e0c60427ec5bee5309817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 07/45] fix: time-based rho adaptation collapsed its interval
 to one iteration

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 359405d..0a8ac42 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -818,7 +818,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 20207b62bc78921bc861d204d13fa2702c83a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:13 +0000
Subject: [PATCH 08/45] fix: interrupted or failed solves left the solver's
 timing state as if still inside the solve

---
 src/osqp_api.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 0a8ac42..56827b6 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1014,14 +1014,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
                              solver->info->polish_time;
   }
 
-  // Indicate that the solve function has already been executed
-  if (work->first_run) work->first_run = 0;
-
-  // Indicate that the update_time should be set to zero
-  work->clear_update_time = 1;
-
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1037,6 +1029,17 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 exit:
 #endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that the solve function has already been executed
+  if (work->first_run) work->first_run = 0;
+
+  // Indicate that the update_time should be set to zero
+  work->clear_update_time = 1;
+
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From f266d2b1c0b55a88a8baf19bb0cee985c852e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 09/45] fix: a failed polishing step discarded the solution it
 was meant to improve

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 56827b6..1c308a3 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -993,9 +993,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     exitflag = polish(solver);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
+    // The unpolished solution is still valid, so report the failure but keep the solution
     if (exitflag > 0) {
       c_eprint("Failed polishing");
-      goto exit;
     }
   }
 #endif /* ifndef OSQP_EMBEDDED_MODE */
-- 
2.43.0


From 852e6b2fc1b47a3627a2a50f85481e2896f0c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 10/45] fix: a failed Pardiso initialisation crashed, freed its
 data twice or leaked it

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 40 +++++++++++++++----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..d6ca17c 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if pardiso was ever started)
+    if (s->phase) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -82,6 +84,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -121,6 +124,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -135,6 +144,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -156,6 +171,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -163,6 +179,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
@@ -236,6 +258,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if ( s->iparm[21] < n ) {
     // Error: Number of positive eigenvalues of KKT should be the same as dimension of P
     c_eprint("KKT matrix has fewer positive eigenvalues than it should. The problem seems to be non-convex.");
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_NONCVX_ERROR;
   }
 
-- 
2.43.0


From 6c7988544cf3fb49f07e95c84f486575369149d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:56 +0000
Subject: [PATCH 11/45] fix: check the allocations made by the CSC matrix
 helpers

---
 src/osqp_api.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 1c308a3..dbc1026 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -65,7 +65,19 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->m  = m;
   mat->n  = n;
   mat->nz = -1;
-  mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+
+  mat->nzmax = min_elem;
+  mat->p     = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
 
   if( m < n) {
     // Fewer rows than columns
@@ -83,10 +95,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
     }
   }
 
-  mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
-
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
     mat->x[i] = scalar;
@@ -95,9 +103,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +145,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
-- 
2.43.0


From 4ab575b3ec24ac03d0bbcbb3076a603ae1bea248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 12/45] fix: check the allocations made by the indirect MKL
 solver

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 74 ++++++++++++-------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 3cc0658..7ba898c 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,6 +111,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) {
+      free_linsys_mklcg(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+  }
   if (polish) {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   } else if (rho_vec) {
@@ -154,13 +160,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
 
-  //make subviews for the rhs.   OSQP passes
-  //a different RHS pointer at every iteration,
-  //so we will need to update these views every
-  //time we solve. Just point them at x for now.
-  s->r1 = OSQPVectorf_view(s->x, 0, 0);
-  s->r2 = OSQPVectorf_view(s->x, 0, 0);
-
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
   // n+1:2n  = Vector after multiplying by the matrix
@@ -168,6 +167,23 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
 
+  //Vectors for the preconditioner
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->ywork || !s->tmp || !s->precond || !s->precond_inv) {
+      free_linsys_mklcg(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+  }
+
+  //make subviews for the rhs.   OSQP passes
+  //a different RHS pointer at every iteration,
+  //so we will need to update these views every
+  //time we solve. Just point them at x for now.
+  s->r1 = OSQPVectorf_view(s->x, 0, 0);
+  s->r2 = OSQPVectorf_view(s->x, 0, 0);
+
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -176,14 +192,24 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!s->r1 || !s->r2 || !s->mvm_pre || !s->mvm_post || !s->precond_pre || !s->precond_post) {
+      free_linsys_mklcg(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
+  if (status) {
+      free_linsys_mklcg(s);
+      *sp = OSQP_NULL;
+      return OSQP_LINSYS_SOLVER_INIT_ERROR;
+  }
+
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
-  return status;
+  return 0;
 }
 
 
@@ -381,19 +407,17 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
-    OSQPVectorf_free(s->tmp);
-    OSQPVectorf_free(s->rho_vec);
-    OSQPVectorf_free(s->x);
-    OSQPVectorf_free(s->ywork);
-    OSQPVectorf_free(s->precond);
-    OSQPVectorf_free(s->precond_inv);
-    OSQPVectorf_view_free(s->r1);
-    OSQPVectorf_view_free(s->r2);
-    OSQPVectorf_view_free(s->mvm_pre);
-    OSQPVectorf_view_free(s->mvm_post);
-    OSQPVectorf_view_free(s->precond_pre);
-    OSQPVectorf_view_free(s->precond_post);
-  }
+  OSQPVectorf_free(s->tmp);
+  OSQPVectorf_free(s->rho_vec);
+  OSQPVectorf_free(s->x);
+  OSQPVectorf_free(s->ywork);
+  OSQPVectorf_free(s->precond);
+  OSQPVectorf_free(s->precond_inv);
+  OSQPVectorf_view_free(s->r1);
+  OSQPVectorf_view_free(s->r2);
+  OSQPVectorf_view_free(s->mvm_pre);
+  OSQPVectorf_view_free(s->mvm_post);
+  OSQPVectorf_view_free(s->precond_pre);
+  OSQPVectorf_view_free(s->precond_post);
   c_free(s);
 }
-- 
2.43.0


From 06c3f4985719aa8d2e34f81642ac31604e604c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 13/45] fix: polishing leaked memory and ignored failures when
 an allocation failed

---
 src/polish.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..1d50dc7 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -201,13 +201,23 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
 
+    if (!rhs) {
+      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    }
+
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
     rhs2 = OSQPVectorf_view(rhs,work->data->n,mred);
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
+
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -373,6 +383,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
 
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -385,7 +396,9 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
 
     return exitflag;
   }
@@ -397,6 +410,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     /* Memory clean-up */
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
 
@@ -412,6 +426,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -435,6 +450,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->status_polish = OSQP_POLISH_FAILED;
 
     // Memory clean-up
+    plsh->free(plsh);
     OSQPMatrix_free(work->pol->Ared);
     OSQPVectorf_free(rhs_red);
     OSQPVectorf_free(pol_sol);
@@ -447,7 +463,22 @@ OSQPInt polish(OSQPSolver* solver) {
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+
+    // Memory clean-up
+    plsh->free(plsh);
+    OSQPMatrix_free(work->pol->Ared);
+    OSQPVectorf_free(rhs_red);
+    OSQPVectorf_free(pol_sol);
+    OSQPVectorf_view_free(pol_sol_xview);
+    OSQPVectorf_view_free(pol_sol_yview);
+
+    return exitflag;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
-- 
2.43.0


From 6387bd760976e8f6cd1ad53c73195479a9e8b3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:55 +0000
Subject: [PATCH 14/45] fix: a failed allocation in osqp_setup crashed setup or
 the following cleanup

---
 src/osqp_api.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index dbc1026..f15c5d0 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -427,12 +427,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
+  if (!(work->xz_tilde)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
   work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
-  if (!(work->x) || !(work->z) || !(work->xz_tilde))
+  if (!(work->x) || !(work->z))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -467,7 +468,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
-    work->scaling = c_malloc(sizeof(OSQPScaling));
+    work->scaling = c_calloc(1, sizeof(OSQPScaling));
     if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
@@ -523,7 +524,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   osqp_cold_start(solver);
 
   // Initialize active constraints structure
-  work->pol = c_malloc(sizeof(OSQPPolish));
+  work->pol = c_calloc(1, sizeof(OSQPPolish));
   if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
-- 
2.43.0


From 7844b3cbb9d67bc3604947ac59745f5c030d1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 15/45] fix: osqp_setup crashed when bounds were missing
 instead of refusing the data

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..d7d9e9c 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1005,6 +1005,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
   }
 
   // Lower and upper bounds
+  if (m > 0 && (!l || !u)) {
+    c_eprint("Missing lower or upper bound vector");
+    return 1;
+  }
+
   for (j = 0; j < m; j++) {
     if (l[j] > u[j]) {
       c_eprint("Lower bound at index %d is greater than upper bound: %.4e > %.4e",
-- 
2.43.0


From 7be241df7cfa56a1a5111e63906cb0c23c832f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 16/45] fix: osqp_update_settings dereferenced a NULL solver
 before checking it

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f15c5d0..555c963 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1498,10 +1498,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From 12bbe90b357cf7e2551c907376b71dfaf227f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:00 +0000
Subject: [PATCH 17/45] fix: a rejected data update overwrote the infeasibility
 certificate and the update time

---
 src/osqp_api.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 555c963..56b3404 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1221,19 +1221,16 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
-  if (work->clear_update_time == 1) {
-    work->clear_update_time = 0;
-    solver->info->update_time = 0.0;
-  }
   /* Start timer */
   osqp_tic(work->timer);
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new (neither is needed after a solve,
+       while delta_y may hold a certificate that must survive if the update is rejected) */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1251,9 +1248,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
@@ -1274,6 +1271,10 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
   reset_info(solver->info);
 
 #ifdef OSQP_ENABLE_PROFILING
+  if (work->clear_update_time == 1) {
+    work->clear_update_time = 0;
+    solver->info->update_time = 0.0;
+  }
   solver->info->update_time += osqp_toc(work->timer);
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
@@ -1347,10 +1348,6 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   work = solver->work;
 
 #ifdef OSQP_ENABLE_PROFILING
-  if (work->clear_update_time == 1) {
-    work->clear_update_time = 0;
-    solver->info->update_time = 0.0;
-  }
   osqp_tic(work->timer); // Start timer
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
@@ -1426,6 +1423,10 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   if (exitflag != 0){c_eprint("new KKT matrix is not quasidefinite");}
 
 #ifdef OSQP_ENABLE_PROFILING
+  if (work->clear_update_time == 1) {
+    work->clear_update_time = 0;
+    solver->info->update_time = 0.0;
+  }
   solver->info->update_time += osqp_toc(work->timer);
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
-- 
2.43.0


From f5098301560741b332d3b6b6653c9fed56a876a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 18/45] fix: updating P dropped the sigma shift from part of
 the KKT diagonal

---
 algebra/_common/kkt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..770ce8d 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,17 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  //the shift always applies to the diagonal of P, which is the last
+  //entry in its column whatever the format of the KKT matrix
+  (void)format;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -370,7 +373,7 @@ void update_KKT_P(OSQPCscMatrix* KKT,
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 5a15aea253e0c13d428f63087f064f34ce2f0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 19/45] fix: setup with a scalar rho outside its limits used
 two different values of rho

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 56b3404..bab61d9 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -504,7 +504,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From 8329709a1c3848a578a7a9f5a9b867da24c6f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:02 +0000
Subject: [PATCH 20/45] fix: osqp_get_solution discarded a warm start set after
 an infeasible verdict

---
 src/auxil.c    | 13 +++++--------
 src/osqp_api.c |  3 +++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index d7d9e9c..f4dd4ae 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -634,14 +634,11 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
   else {
 
     // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
-
+    // use x_prev and z_prev as scratch space
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
 
 #ifndef OSQP_EMBEDDED_MODE
 
diff --git a/src/osqp_api.c b/src/osqp_api.c
index bab61d9..9159ae7 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1035,6 +1035,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // Without a solution the iterates may have diverged, so reset them to 0 for the next run
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From d4fa02b1db8ba3946b4aa18dc5afe897ba6e834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:10 +0000
Subject: [PATCH 21/45] fix: a failed linear system solve was ignored by solve
 and polish

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c |  2 ++
 include/private/auxil.h                         |  5 +++--
 src/auxil.c                                     |  6 +++---
 src/osqp_api.c                                  | 16 +++++++++++++---
 src/polish.c                                    | 13 +++++++++----
 5 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 7ba898c..3cfd45f 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -299,6 +299,8 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
 
   if ( (rci_request == 0) || (rci_request == 2) ) {  //solution was found for x.
 
+    rci_request = 0;
+
     OSQPVectorf_copy(s->r1, s->x);
 
     if (!s->polish) {
diff --git a/include/private/auxil.h b/include/private/auxil.h
index 658042e..509c78e 100644
--- a/include/private/auxil.h
+++ b/include/private/auxil.h
@@ -58,9 +58,10 @@ void swap_vectors(OSQPVectorf** a,
  * Update x_tilde and z_tilde variable (first ADMM step)
  * @param solver    Solver
  * @param admm_iter Current ADMM iteration
+ * @return           Exitflag of the linear system solve
  */
-void update_xz_tilde(OSQPSolver* solver,
-                     OSQPInt     admm_iter);
+OSQPInt update_xz_tilde(OSQPSolver* solver,
+                        OSQPInt     admm_iter);
 
 
 /**
diff --git a/src/auxil.c b/src/auxil.c
index f4dd4ae..a9f6776 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -157,8 +157,8 @@ static void compute_rhs(OSQPSolver* solver) {
   }
 }
 
-void update_xz_tilde(OSQPSolver* solver,
-                     OSQPInt     admm_iter) {
+OSQPInt update_xz_tilde(OSQPSolver* solver,
+                        OSQPInt     admm_iter) {
 
   OSQPWorkspace* work = solver->work;
 
@@ -166,7 +166,7 @@ void update_xz_tilde(OSQPSolver* solver,
   compute_rhs(solver);
 
   // Solve linear system
-  work->linsys_solver->solve(work->linsys_solver, work->xz_tilde, admm_iter);
+  return work->linsys_solver->solve(work->linsys_solver, work->xz_tilde, admm_iter);
 }
 
 void update_x(OSQPSolver* solver) {
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 9159ae7..c992511 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -723,9 +723,21 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     /* ADMM STEPS */
     /* Compute \tilde{x}^{k+1}, \tilde{z}^{k+1} */
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_KKT_SOLVE);
-    update_xz_tilde(solver, iter);
+    exitflag = update_xz_tilde(solver, iter);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_ADMM_KKT_SOLVE);
 
+    if (exitflag) {
+      c_eprint("Failed linear system solve");
+
+      // Keep the last consistent iterates
+      swap_vectors(&(work->x), &(work->x_prev));
+      swap_vectors(&(work->z), &(work->z_prev));
+
+      exitflag = 1;
+      osqp_profiler_sec_pop(OSQP_PROFILER_SEC_ADMM_ITER);
+      goto exit;
+    }
+
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_UPDATE);
 
     /* Compute x^{k+1} */
@@ -1039,9 +1051,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   if (!has_solution(solver->info)) osqp_cold_start(solver);
 
 // Define exit flag for quitting function
-#if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-#endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
 #ifdef OSQP_ENABLE_PROFILING
   // Indicate that the solve function has already been executed
diff --git a/src/polish.c b/src/polish.c
index 1d50dc7..329e4b1 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -189,6 +189,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
                                     OSQPVectorf*  z,
                                     OSQPVectorf*  b) {
   OSQPInt i, mred;
+  OSQPInt exitflag = 0;
   OSQPVectorf *rhs, *rhs1, *rhs2;
   OSQPVectorf *z1, *z2;
 
@@ -238,7 +239,9 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
       OSQPMatrix_Axpy(work->pol->Ared, z1, rhs2, -1.0, 1.0);
 
       // Solve linear system. Store solution in rhs
-      p->solve(p, rhs, 1);
+      exitflag = p->solve(p, rhs, 1);
+
+      if (exitflag) break;
 
       // Update solution
       OSQPVectorf_plus(z,z,rhs);
@@ -250,7 +253,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     OSQPVectorf_view_free(z1);
     OSQPVectorf_view_free(z2);
   }
-  return 0;
+  return exitflag;
 }
 
 /**
@@ -440,10 +443,12 @@ OSQPInt polish(OSQPSolver* solver) {
   plsh->warm_start(plsh, work->x);
 
   // Solve the reduced KKT system
-  plsh->solve(plsh, pol_sol, 1);
+  exitflag = plsh->solve(plsh, pol_sol, 1);
 
   // Perform iterative refinement to compensate for the regularization error
-  exitflag = iterative_refinement(solver, plsh, pol_sol, rhs_red);
+  if (!exitflag) {
+    exitflag = iterative_refinement(solver, plsh, pol_sol, rhs_red);
+  }
 
   if (exitflag) {
     // Polishing failed
-- 
2.43.0


From 1e39d6cae4c523905faaf8f2baf2a32a083e6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 22/45] fix: the relative KKT error ignored a negative duality
 gap and followed a rejected polishing

---
 src/auxil.c  | 5 ++++-
 src/polish.c | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index a9f6776..f9de05f 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -751,7 +751,10 @@ void update_info(OSQPSolver* solver,
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  // (the error at the polished point only counts once that point has been accepted)
+  if (!polishing) {
+    info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), c_absval(*dual_gap));
+  }
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
diff --git a/src/polish.c b/src/polish.c
index 329e4b1..5fb2c57 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -517,6 +517,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->duality_gap   = work->pol->duality_gap;
     info->prim_res      = work->pol->prim_res;
     info->dual_res      = work->pol->dual_res;
+    info->rel_kkt_error = c_max(c_max(info->dual_res, info->prim_res), c_absval(info->duality_gap));
     info->status_polish = OSQP_POLISH_SUCCESS;
 
     // Update (x, z, y) in ADMM iterations
-- 
2.43.0


From 65b6f58f4195568c837852e13c477a1b184fb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:41 +0000
Subject: [PATCH 23/45] fix: the iteration count was one short after the time
 limit was reached

---
 src/osqp_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index c992511..f91feef 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -945,12 +945,12 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     if (!can_print) {
       // Update info only if it hasn't been updated before for printing
       // reasons
-      update_info(solver, iter - 1, 0);
+      update_info(solver, c_min(iter, max_iter), 0);
     }
 #else /* ifdef OSQP_ENABLE_PRINTING */
 
     // If no printing is enabled, update info directly
-    update_info(solver, iter - 1, 0);
+    update_info(solver, c_min(iter, max_iter), 0);
 #endif /* ifdef OSQP_ENABLE_PRINTING */
 
 #ifdef OSQP_ENABLE_PRINTING
-- 
2.43.0


From f405d445a1476ec3f4ae0c9a24d044b530c7657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:49 +0000
Subject: [PATCH 24/45] fix: polishing accepted a point whose residual had
 become worse than a tiny one

---
 src/polish.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 5fb2c57..d62b131 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -500,14 +500,14 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
-                       info->dual_res < 1e-10) ||              // Dual
+                       work->pol->dual_res < 1e-10) ||         // Dual
                                                                     // residual
-                                                                    // already
+                                                                    // still
                                                                     // tiny
                       (work->pol->dual_res < info->dual_res &&
-                       info->prim_res < 1e-10);                // Primal
+                       work->pol->prim_res < 1e-10);           // Primal
                                                                     // residual
-                                                                    // already
+                                                                    // still
                                                                     // tiny
 
   if (polish_successful) {
-- 
2.43.0


From 782d69241b7dbefbf851b4c4082cdbde3f7447dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:47 +0000
Subject: [PATCH 25/45] fix: infeasibility certificates stayed in scaled units
 with scaled_termination

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index f9de05f..6dd0f55 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -914,7 +914,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -931,7 +931,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From df92a7a61890d755cb7549f4cb3b9a637a570c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 26/45] fix: overlapping solves lost the caller's SIGINT action
 and each other's interrupts

---
 src/interrupt_unix.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/interrupt_unix.c b/src/interrupt_unix.c
index 8965cb8..2618b95 100644
--- a/src/interrupt_unix.c
+++ b/src/interrupt_unix.c
@@ -5,29 +5,50 @@
 #include "interrupt.h"
 #include <signal.h>
 
-static int int_detected;
-struct sigaction oact;
+/* Number of interrupts received so far, and how many of them this thread's solve has to ignore */
+static volatile sig_atomic_t int_detected;
+static __thread sig_atomic_t int_ignored;
+
+/* The handler is shared by all the solves that are running: the first one to start installs it,
+   and the last one to end puts the previous action back */
+static struct sigaction oact;
+static int listeners;
+static int listeners_lock;
 
 static void handle_ctrlc(int dummy) {
-  int_detected = dummy ? dummy : -1;
+  (void)dummy;
+  int_detected++;
 }
 
 void osqp_start_interrupt_listener(void) {
   struct sigaction act;
 
-  int_detected = 0;
-  act.sa_flags = 0;
-  sigemptyset(&act.sa_mask);
-  act.sa_handler = handle_ctrlc;
-  sigaction(SIGINT, &act, &oact);
+  while (__sync_lock_test_and_set(&listeners_lock, 1)) {}
+
+  int_ignored = int_detected;
+
+  if (listeners++ == 0) {
+    act.sa_flags = 0;
+    sigemptyset(&act.sa_mask);
+    act.sa_handler = handle_ctrlc;
+    sigaction(SIGINT, &act, &oact);
+  }
+
+  __sync_lock_release(&listeners_lock);
 }
 
 void osqp_end_interrupt_listener(void) {
   struct sigaction act;
 
-  sigaction(SIGINT, &oact, &act);
+  while (__sync_lock_test_and_set(&listeners_lock, 1)) {}
+
+  if (--listeners == 0) {
+    sigaction(SIGINT, &oact, &act);
+  }
+
+  __sync_lock_release(&listeners_lock);
 }
 
 int osqp_is_interrupted(void) {
-  return int_detected;
+  return int_detected != int_ignored;
 }
-- 
2.43.0


From e71fb00b6535a1686ae296d47b09dcbc2e2c134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:43 +0000
Subject: [PATCH 27/45] fix: the MKL CG solver ignored warm and cold starts

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 3cfd45f..615b3b5 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -361,10 +361,9 @@ void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
 
 void warm_start_linys_mklcg(struct mklcg_solver_* self,
                             const OSQPVectorf*    x) {
-  // TODO: Warm starting!
-  OSQP_UnusedVar(self);
-  OSQP_UnusedVar(x);
-  return;
+  // Start CG from the given point, without any memory of the previous solves
+  OSQPVectorf_copy(self->x, x);
+  self->cg_zero_iters = 0;
 }
 
 
-- 
2.43.0


From 2691aab8b449278ef9dd61e2285cdf0b1399b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:48 +0000
Subject: [PATCH 28/45] fix: printing changed the results of indirect solvers
 and the primal-dual integral

---
 src/osqp_api.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f91feef..8167708 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -878,16 +878,28 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     can_adapt_rho = 0;
 #endif /* OSQP_EMBEDDED_MODE != 1 */
 
-    if(can_check_termination || can_print || can_adapt_rho || iter == 1) {
+    if(can_check_termination || can_adapt_rho || iter == 1) {
       // We must update the info in these cases:
       // * We will be checking termination
-      // * We will be printing status
       // * We will be adapting rho
       // * It is the first iteration
       //   (We always update info in the first iteration because indirect solvers
       //    use residual values to compute required accuracy of their solution.)
       update_info(solver, iter, 0);
     }
+    else if(can_print) {
+      // We will only be printing status, which must not influence the algorithm (indirect solvers
+      // use the residual values) or what is accumulated over the iterations
+      OSQPFloat scaled_prim_res = work->scaled_prim_res;
+      OSQPFloat scaled_dual_res = work->scaled_dual_res;
+      OSQPFloat primdual_int    = solver->info->primdual_int;
+
+      update_info(solver, iter, 0);
+
+      work->scaled_prim_res      = scaled_prim_res;
+      work->scaled_dual_res      = scaled_dual_res;
+      solver->info->primdual_int = primdual_int;
+    }
 
     // Check algorithm termination if desired
     if (can_check_termination) {
@@ -940,23 +952,13 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // during last iteration (max_iter reached or check_termination disabled)
   if (!can_check_termination) {
     /* Update information */
-#ifdef OSQP_ENABLE_PRINTING
-
-    if (!can_print) {
-      // Update info only if it hasn't been updated before for printing
-      // reasons
-      update_info(solver, c_min(iter, max_iter), 0);
-    }
-#else /* ifdef OSQP_ENABLE_PRINTING */
-
-    // If no printing is enabled, update info directly
     update_info(solver, c_min(iter, max_iter), 0);
-#endif /* ifdef OSQP_ENABLE_PRINTING */
 
 #ifdef OSQP_ENABLE_PRINTING
 
-    /* Print summary */
-    if (settings->verbose && !work->summary_printed) print_summary(solver);
+    /* Print summary, unless it has been printed for this iteration already */
+    if (settings->verbose && !can_print) print_summary(solver);
+    work->summary_printed = 1;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
 
     /* Check whether a termination criterion is triggered */
-- 
2.43.0


From f60c0747146fe74f81d55a2d6fc2f21804d48667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:47 +0000
Subject: [PATCH 29/45] fix: iterates that became NaN were reported as a
 solution

---
 src/auxil.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index 6dd0f55..c7feb99 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -830,8 +830,10 @@ OSQPInt check_termination(OSQPSolver* solver,
   eps_dual_inf = settings->eps_dual_inf;
 
   // If residuals are too large, the problem is probably non convex
+  // (the norms ignore NaN entries of the iterates, but the duality gap does not)
   if ((info->prim_res > OSQP_INFTY) ||
-      (info->dual_res > OSQP_INFTY)){
+      (info->dual_res > OSQP_INFTY) ||
+      (info->duality_gap != info->duality_gap)){
     // Looks like residuals are diverging. Probably the problem is non convex!
     // Terminate and report it
     update_status(info, OSQP_NON_CVX);
-- 
2.43.0


From 7a95e2222d92a2ed3105e62c5a4541d29802fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 30/45] fix: without a verdict, certificates were left as they
 were

---
 src/auxil.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index c7feb99..405b1ac 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -655,7 +655,7 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
     }
 
-    if ((info->status_val == OSQP_DUAL_INFEASIBLE) ||
+    else if ((info->status_val == OSQP_DUAL_INFEASIBLE) ||
         ((info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE))) {
       norm_vec = OSQPVectorf_norm_inf(work->delta_x);
       OSQPVectorf_mult_scalar(work->delta_x, 1. / norm_vec);
@@ -666,6 +666,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
       OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
     }
 
+    /* Neither a solution nor a certificate is available */
+    else {
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
   }
 }
-- 
2.43.0


From c151c2d3c222b512327d4df41379197803d72e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 31/45] fix: a failed allocation or ordering in the QDLDL
 interface crashed or used uninitialised memory

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 59 +++++++++++++++----
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..51f0709 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -110,6 +110,7 @@ static OSQPInt LDL_factor(OSQPCscMatrix* A,
     p->L->i = (OSQPInt *)c_malloc(sizeof(OSQPInt)*sum_Lnz);
     p->L->x = (OSQPFloat *)c_malloc(sizeof(OSQPFloat)*sum_Lnz);
     p->L->nzmax = sum_Lnz;
+    if (sum_Lnz && (!p->L->i || !p->L->x)) return OSQP_MEM_ALLOC_ERROR;
 
     // Factor matrix
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
@@ -151,6 +152,7 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     OSQPCscMatrix* KKT_temp;
 
     info = (OSQPFloat *)c_malloc(AMD_INFO * sizeof(OSQPFloat));
+    if (!info) return OSQP_MEM_ALLOC_ERROR;
 
     // Compute permutation matrix P using AMD
 #ifdef OSQP_USE_LONG
@@ -161,12 +163,16 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     if (amd_status < 0) {
         // Free Amd info and return an error
         c_free(info);
-        return amd_status;
+        return (amd_status == AMD_OUT_OF_MEMORY) ? OSQP_MEM_ALLOC_ERROR : OSQP_LINSYS_SOLVER_INIT_ERROR;
     }
 
 
     // Inverse of the permutation vector
     Pinv = csc_pinv(p->P, (*KKT)->n);
+    if (!Pinv) {
+        c_free(info);
+        return OSQP_MEM_ALLOC_ERROR;
+    }
 
     // Permute KKT matrix
     if (!PtoKKT && !AtoKKT && !rhotoKKT){  // No vectors to be stored
@@ -176,7 +182,13 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     else {
         // Allocate vector of mappings from unpermuted to permuted
         KtoPKPt = c_malloc((*KKT)->p[(*KKT)->n] * sizeof(OSQPInt));
-        KKT_temp = csc_symperm((*KKT), Pinv, KtoPKPt, 1);
+        KKT_temp = KtoPKPt ? csc_symperm((*KKT), Pinv, KtoPKPt, 1) : OSQP_NULL;
+        if (!KKT_temp) {
+            c_free(KtoPKPt);
+            c_free(Pinv);
+            c_free(info);
+            return OSQP_MEM_ALLOC_ERROR;
+        }
 
         // Update vectors PtoKKT, AtoKKT and rhotoKKT
         if (PtoKKT){
@@ -200,14 +212,17 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     }
 
     // Cleanup
-    // Free previous KKT matrix and assign pointer to new one
-    csc_spfree((*KKT));
-    (*KKT) = KKT_temp;
     // Free Pinv
     c_free(Pinv);
     // Free Amd info
     c_free(info);
 
+    if (!KKT_temp) return OSQP_MEM_ALLOC_ERROR;
+
+    // Free previous KKT matrix and assign pointer to new one
+    csc_spfree((*KKT));
+    (*KKT) = KKT_temp;
+
     return 0;
 }
 
@@ -225,12 +240,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    i;         // Loop counter
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
+    OSQPInt    status = 0;
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
     OSQPFloat  sigma = settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
     *sp = s;
+    if (!s) return OSQP_MEM_ALLOC_ERROR;
 
     // Size of KKT
     n = P->csc->n;
@@ -274,6 +291,11 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     //      L will be allocated during the factorization depending on the
     //      resulting number of elements.
     s->L = c_calloc(1, sizeof(OSQPCscMatrix));
+    if (!s->L) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
     s->L->m  = n_plus_m;
     s->L->n  = n_plus_m;
     s->L->nz = -1;
@@ -311,6 +333,13 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     s->bwork = (QDLDL_bool *)c_malloc(sizeof(QDLDL_bool)*n_plus_m);
     s->fwork = (QDLDL_float *)c_malloc(sizeof(QDLDL_float)*n_plus_m);
 
+    if (!s->L->p || !s->Dinv || !s->D || !s->P || !s->bp || !s->sol || !s->etree || !s->Lnz ||
+        !s->iwork || !s->bwork || !s->fwork || (rho_vec && m && !s->rho_inv_vec)) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Form and permute KKT matrix
     if (polishing){ // Called from polish()
 
@@ -321,7 +350,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp)
-            permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
+            status = permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
     }
     else { // Called from ADMM algorithm
 
@@ -330,6 +359,12 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
         s->AtoKKT = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
         s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+        if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) || (m && !s->rhotoKKT)) {
+            free_linsys_solver_qdldl(s);
+            *sp = OSQP_NULL;
+            return OSQP_MEM_ALLOC_ERROR;
+        }
+
         // Use p->rho_inv_vec for storing param2 = rho_inv_vec
         if (rho_vec) {
           rhov = rho_vec->values;
@@ -348,24 +383,26 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp){
-            permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
+            status = permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
         }
     }
 
     // Check if matrix has been created
-    if (!KKT_temp){
+    if (!KKT_temp || status){
         c_eprint("Error forming and permuting KKT matrix");
+        csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_LINSYS_SOLVER_INIT_ERROR;
+        return status ? status : OSQP_LINSYS_SOLVER_INIT_ERROR;
     }
 
     // Factorize the KKT matrix
-    if (LDL_factor(KKT_temp, s, n) < 0) {
+    status = LDL_factor(KKT_temp, s, n);
+    if (status) {
         csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_NONCVX_ERROR;
+        return (status == OSQP_MEM_ALLOC_ERROR) ? status : OSQP_NONCVX_ERROR;
     }
 
     if (polishing){ // If KKT passed, assign it to KKT_temp
-- 
2.43.0


From cbb4fdd188501d341d36fcf29e8f2f9358885168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 32/45] fix: generated code lost the precision of small numbers

---
 src/codegen.c | 50 +++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index a444641..b291de5 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -40,7 +40,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.20f,\n", vecf[i]);
+      fprintf(f, "  (OSQPFloat)%.17g,\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -177,29 +177,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->rho);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->alpha);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->sigma);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->cg_tol_fraction);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_tolerance);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->adaptive_rho_fraction);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_dual_inf);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_abs);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_rel);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_prim_inf);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->delta);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->time_limit);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -222,14 +222,14 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  \"%s\",\n", OSQP_STATUS_MESSAGE[OSQP_UNSOLVED]);
   fprintf(f, "  %d,\n", OSQP_UNSOLVED);
   fprintf(f, "  0,\n"); // status_polish
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // prim_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // duality_gap
+  fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // obj_val
+  fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // dual_obj_val
+  fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // prim_res
+  fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // dual_res
+  fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.20f,\n", info->rho_estimate);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -295,10 +295,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->c);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->cinv);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -422,8 +422,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", linsys->sigma);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -601,10 +601,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->rho_inv);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->last_rel_kkt);
+  fprintf(f, "  (OSQPFloat)%.17g,\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0


From 177584587c86f737afb7e52d68ac5833b3789f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 33/45] fix: code generation ignored failing writes and overran
 its name buffers

---
 src/codegen.c | 53 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index b291de5..fcd25d5 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <ctype.h>  /* -> toupper */
+#include <string.h> /* -> strlen */
 #include <time.h>   /* time, ctime */
 
 #include "error.h"
@@ -26,6 +27,31 @@
   exitflag = f; \
   if (exitflag) { return _osqp_error_line(exitflag, __FUNCTION__, __FILE__, __LINE__); }
 
+/* Close a generated file, reporting whether everything written to it has arrived there */
+static OSQPInt close_file(FILE* f) {
+  OSQPInt failed = ferror(f) != 0;
+
+  if (fclose(f) != 0) failed = 1;
+
+  if (failed) return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
+/* Check that the names built from the output directory and the prefix fit their buffers */
+static OSQPInt check_names(const char* output_dir,
+                           const char* file_prefix) {
+  size_t dir_len    = strlen(output_dir);
+  size_t prefix_len = strlen(file_prefix);
+
+  if (prefix_len + sizeof("workspace") > FILE_LENGTH ||
+      dir_len + prefix_len + sizeof("workspace.h") > PATH_LENGTH ||
+      dir_len + sizeof("osqp_configure.h") > PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
 /*********
 * Vectors
 **********/
@@ -657,6 +683,8 @@ OSQPInt codegen_inc(const char* output_dir,
   time_t now;
   OSQPInt i = 0;
 
+  if (check_names(output_dir, file_prefix)) return OSQP_FOPEN_ERROR;
+
   sprintf(fname,  "%sworkspace", file_prefix);
   sprintf(hfname, "%s%s.h", output_dir, fname);
 
@@ -700,9 +728,7 @@ OSQPInt codegen_inc(const char* output_dir,
   fprintf(incFile, "#endif /* ifndef %s */\n", incGuard);
 
   /* Close header file */
-  fclose(incFile);
-
-  return 0;
+  return close_file(incFile);
 }
 
 
@@ -716,6 +742,8 @@ OSQPInt codegen_src(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  if (check_names(output_dir, file_prefix)) return OSQP_FOPEN_ERROR;
+
   sprintf(fname,  "%s%sworkspace", output_dir, file_prefix);
   sprintf(cfname, "%s.c",        fname);
 
@@ -740,8 +768,9 @@ OSQPInt codegen_src(const char* output_dir,
   /* Write the workspace variables to file */
   exitflag = write_solver(srcFile, solver, file_prefix, embedded);
 
-  /* Close header file */
-  fclose(srcFile);
+  /* Close source file, but report the first error */
+  if (exitflag) fclose(srcFile);
+  else          exitflag = close_file(srcFile);
 
   return exitflag;
 }
@@ -753,6 +782,8 @@ OSQPInt codegen_defines(const char*         output_dir,
   FILE *incFile;
   time_t now;
 
+  if (check_names(output_dir, "")) return OSQP_FOPEN_ERROR;
+
   sprintf(cfname,  "%sosqp_configure.h", output_dir);
 
   /* Open source file */
@@ -807,9 +838,7 @@ OSQPInt codegen_defines(const char*         output_dir,
   fprintf(incFile, "#endif /* ifndef OSQP_CONFIGURE_H */\n");
 
   /* Close header file */
-  fclose(incFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(incFile);
 }
 
 
@@ -820,6 +849,8 @@ OSQPInt codegen_example(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
+  if (check_names(output_dir, file_prefix)) return OSQP_FOPEN_ERROR;
+
   sprintf(cfname, "%semosqp.c", output_dir);
 
   /* Open source file */
@@ -854,8 +885,6 @@ OSQPInt codegen_example(const char* output_dir,
   fprintf(srcFile, "  }\n");
   fprintf(srcFile, "}\n");
 
-  /* Close header file */
-  fclose(srcFile);
-
-  return OSQP_NO_ERROR;
+  /* Close source file */
+  return close_file(srcFile);
 }
-- 
2.43.0


From 6fc9287e1b42aa6424436c2f7c52dbc5813f966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 34/45] fix: derivative computation crashed, leaked or
 succeeded after a failed allocation or without a stored solution

---
 algebra/_common/csc_utils.c                   |   4 +-
 .../_common/lin_sys/qdldl/qdldl_interface.c   |  45 ++--
 src/derivative.c                              | 214 +++++++++++-------
 src/osqp_api.c                                |   3 +-
 4 files changed, 162 insertions(+), 104 deletions(-)

diff --git a/algebra/_common/csc_utils.c b/algebra/_common/csc_utils.c
index 478ce92..a0afeff 100644
--- a/algebra/_common/csc_utils.c
+++ b/algebra/_common/csc_utils.c
@@ -571,7 +571,7 @@ OSQPCscMatrix* triu_to_csc(OSQPCscMatrix* M) {
 
     // Convert triplet matrix to csc format
     M_symm = triplet_to_csc(M_trip, OSQP_NULL);
-    M_symm->nzmax = z_M;
+    if (M_symm) M_symm->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M_symm;
@@ -622,7 +622,7 @@ OSQPCscMatrix* vstack(OSQPCscMatrix* A, OSQPCscMatrix* B) {
 
     // Convert triplet matrix to csc format
     M = triplet_to_csc(M_trip, OSQP_NULL);
-    M->nzmax = z_M;
+    if (M) M->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M;
diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 51f0709..3214564 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -742,6 +742,9 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     OSQP_UnusedVar(s);
 
     OSQPInt retval = 0;
+    OSQPCscMatrix* adj_permuted = OSQP_NULL;
+    OSQPVectorf *sol = OSQP_NULL;
+    OSQPVectorf *residual = OSQP_NULL;
 
     OSQPInt n = OSQPMatrix_get_m(P_full);
     OSQPInt n_ineq = OSQPMatrix_get_m(G);
@@ -788,23 +791,23 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_float *Lx = OSQP_NULL;
     QDLDL_int   *Li = OSQP_NULL;
 
-    QDLDL_int   *Lp   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An+1));
-    QDLDL_float *D    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    QDLDL_float *Dinv = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *Lp   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An+1));
+    QDLDL_float *D    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    QDLDL_float *Dinv = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //permutation
-    QDLDL_int   *P    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An));
+    QDLDL_int   *P    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An));
     QDLDL_int   *Pinv = OSQP_NULL;
 
     //data for elim tree calculation
-    QDLDL_int *etree = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
-    QDLDL_int *Lnz   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *etree = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *Lnz   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
     QDLDL_int  sumLnz;
 
     //working data for factorisation
-    QDLDL_int   *iwork = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(3*An));
-    QDLDL_bool  *bwork = (QDLDL_bool*)malloc(sizeof(QDLDL_bool)*An);
-    QDLDL_float *fwork = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *iwork = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(3*An));
+    QDLDL_bool  *bwork = (QDLDL_bool*)c_malloc(sizeof(QDLDL_bool)*An);
+    QDLDL_float *fwork = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //Data for results of A\b
     QDLDL_float *x = OSQP_NULL;
@@ -822,7 +825,7 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     amd_status = amd_order(An, adj->p, adj->i, P, (OSQPFloat *)OSQP_NULL, (OSQPFloat *)OSQP_NULL);
 #endif
     if (amd_status < 0) {
-        retval = amd_status;
+        retval = (amd_status == AMD_OUT_OF_MEMORY) ? OSQP_MEM_ALLOC_ERROR : OSQP_LINSYS_SOLVER_INIT_ERROR;
         goto mat_comp_alloc_error;
     }
 
@@ -833,7 +836,6 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto inv_perm_fail;
     }
 
-    OSQPCscMatrix* adj_permuted = OSQP_NULL;
     adj_permuted = csc_symperm(adj, Pinv, OSQP_NULL, 1);
     if (!adj_permuted) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -841,19 +843,26 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     }
 
     sumLnz = QDLDL_etree(An, adj_permuted->p, adj_permuted->i, iwork, Lnz, etree);
+    if (sumLnz < 0) {
+        retval = OSQP_LINSYS_SOLVER_INIT_ERROR;
+        goto csc_alloc_fail;
+    }
 
-    Li    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*sumLnz);
-    Lx    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*sumLnz);
+    Li    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*sumLnz);
+    Lx    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*sumLnz);
 
     if (!Li || !Lx) {
         retval = OSQP_MEM_ALLOC_ERROR;
         goto csc_alloc_fail;
     }
 
-    QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
+    if (QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork) < 0) {
+        retval = OSQP_LINSYS_SOLVER_INIT_ERROR;
+        goto csc_alloc_fail;
+    }
 
-    x = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    x_work = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     if (!x || !x_work) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -865,8 +874,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_solve(Ln, Lp, Li, Lx, Dinv, x_work);
     for (i = 0 ; i < An ; i++) x[P[i]] = x_work[i];
 
-    OSQPVectorf *sol = OSQPVectorf_new(x, An);
-    OSQPVectorf *residual = OSQPVectorf_malloc(An);
+    sol = OSQPVectorf_new(x, An);
+    residual = OSQPVectorf_malloc(An);
 
     if (!sol || !residual) {
         retval = OSQP_MEM_ALLOC_ERROR;
diff --git a/src/derivative.c b/src/derivative.c
index 095479a..efbccdd 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -33,13 +33,12 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
                                         OSQPCscMatrix* dA) {
 
     // Check if solver has been initialized
-    if (!solver || !solver->work || !solver->work->derivative_data)
+    if (!solver || !solver->work || !solver->work->derivative_data || !solver->solution)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
-    OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // unscaled solution
-    OSQPFloat* x_data = OSQPVectorf_data(x);
+    OSQPFloat* x_data = solver->solution->x;  // unscaled solution
 
     OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
     OSQPFloat* y_l_data = OSQPVectorf_data(derivative_data->y_l);
@@ -47,8 +46,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     OSQPFloat* ryl_data = OSQPVectorf_data(derivative_data->ryl);
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
-    OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
-    OSQPFloat* rx_data  = OSQPVectorf_data(rx);
+    OSQPFloat* rx_data = OSQPVectorf_data(derivative_data->rhs) + pos;
 
     OSQPInt col;
     for (col=0; col<n; col++) {
@@ -63,9 +61,6 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
         }
     }
 
-    OSQPVectorf_view_free(rx);
-    OSQPVectorf_free(x);
-
     return 0;
 }
 
@@ -85,6 +80,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     // Assign vector derivatives to function arguments
     OSQPVectorf_to_raw(dq, rx);
@@ -104,13 +100,39 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dy_u) {
 
     // Check if solver has been initialized
-    if (!solver || !solver->work || !solver->work->derivative_data)
+    if (!solver || !solver->work || !solver->work->derivative_data || !solver->solution)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
     OSQPInt m = solver->work->data->m;
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
 
+    OSQPInt exitflag = 0;
+
+    // Everything below is released at the end of this function
+    OSQPMatrix*  A_ineq_l    = OSQP_NULL;
+    OSQPMatrix*  A_ineq_u    = OSQP_NULL;
+    OSQPMatrix*  A_eq        = OSQP_NULL;
+    OSQPMatrix*  G           = OSQP_NULL;
+    OSQPMatrix*  GDiagLambda = OSQP_NULL;
+    OSQPMatrix*  P_full      = OSQP_NULL;
+    OSQPVectorf* m_zeros     = OSQP_NULL;
+    OSQPVectorf* y_l_ineq    = OSQP_NULL;
+    OSQPVectorf* y_u_ineq    = OSQP_NULL;
+    OSQPVectorf* lambda      = OSQP_NULL;
+    OSQPVectorf* l_ineq      = OSQP_NULL;
+    OSQPVectorf* u_ineq      = OSQP_NULL;
+    OSQPVectorf* h           = OSQP_NULL;
+    OSQPVectorf* slacks      = OSQP_NULL;
+    OSQPVectorf* dy_l_ineq   = OSQP_NULL;
+    OSQPVectorf* dy_u_ineq   = OSQP_NULL;
+    OSQPVectori* A_ineq_l_i  = OSQP_NULL;
+    OSQPVectori* A_ineq_u_i  = OSQP_NULL;
+    OSQPVectori* A_eq_i      = OSQP_NULL;
+    OSQPFloat*   d_nu_vec    = OSQP_NULL;
+    OSQPFloat*   r_yl        = OSQP_NULL;
+    OSQPFloat*   r_yu        = OSQP_NULL;
+
     OSQPMatrix*  P = OSQPMatrix_copy_new(solver->work->data->P);
     OSQPMatrix*  A = OSQPMatrix_copy_new(solver->work->data->A);
     OSQPVectorf* l = OSQPVectorf_copy_new(solver->work->data->l);
@@ -118,14 +140,6 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // Note: x/y are unscaled solutions
     OSQPVectorf* y = OSQPVectorf_new(solver->solution->y, m);
 
-    // TODO: If we didn't have to unscale P/A/l/u we would not have to copy these
-    if (solver->settings->scaling) unscale_PA(solver, P, A);
-    if (solver->settings->scaling) unscale_lu(solver, l, u);
-
-    OSQPFloat* l_data = OSQPVectorf_data(l);
-    OSQPFloat* u_data = OSQPVectorf_data(u);
-    OSQPFloat* y_data = OSQPVectorf_data(y);
-
     OSQPInt* A_ineq_l_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* A_ineq_u_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* A_eq_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
@@ -138,6 +152,21 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy_l, m);
     OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy_u, m);
 
+    if (!P || !A || !l || !u || !x || !y || !dy_l_vec || !dy_u_vec ||
+        (m > 0 && (!A_ineq_l_vec || !A_ineq_u_vec || !A_eq_vec || !eq_indices_vec ||
+                   !l_noninf_indices_vec || !u_noninf_indices_vec || !nu_sign_vec))) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
+
+    // TODO: If we didn't have to unscale P/A/l/u we would not have to copy these
+    if (solver->settings->scaling) unscale_PA(solver, P, A);
+    if (solver->settings->scaling) unscale_lu(solver, l, u);
+
+    OSQPFloat* l_data = OSQPVectorf_data(l);
+    OSQPFloat* u_data = OSQPVectorf_data(u);
+    OSQPFloat* y_data = OSQPVectorf_data(y);
+
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
     OSQPFloat infval = OSQP_INFTY * OSQP_MIN_SCALING;
@@ -184,83 +213,80 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     derivative_data->n_ineq_u = n_ineq_u;
     derivative_data->n_eq = n_eq;
 
-    OSQPVectori* A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
-    c_free(A_ineq_l_vec);
-    OSQPMatrix*  A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
-    OSQPMatrix_mult_scalar(A_ineq_l, -1);
-
-    OSQPVectori* A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
-    c_free(A_ineq_u_vec);
-    OSQPMatrix*  A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
-
-    OSQPMatrix* G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
+    A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
+    A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
+    A_eq_i = OSQPVectori_new(A_eq_vec, m);
+    m_zeros = OSQPVectorf_malloc(m);
+    if (!A_ineq_l_i || !A_ineq_u_i || !A_eq_i || !m_zeros) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
 
-    OSQPMatrix_free(A_ineq_l);
-    OSQPMatrix_free(A_ineq_u);
+    A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
+    A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
+    A_eq = OSQPMatrix_submatrix_byrows(A, A_eq_i);
+    if (!A_ineq_l || !A_ineq_u || !A_eq) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
+    OSQPMatrix_mult_scalar(A_ineq_l, -1);
 
-    OSQPVectori* A_eq_i = OSQPVectori_new(A_eq_vec, m);
-    c_free(A_eq_vec);
-    OSQPMatrix*  A_eq = OSQPMatrix_submatrix_byrows(A, A_eq_i);
-    OSQPVectori_free(A_eq_i);
-    OSQPMatrix_free(A);
+    G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
 
     // --------- lambda
-    OSQPVectorf* m_zeros = OSQPVectorf_malloc(m);
     OSQPVectorf_set_scalar(m_zeros, 0);
     OSQPVectorf_ew_max_vec(derivative_data->y_u, y, m_zeros);
     OSQPVectorf_ew_min_vec(derivative_data->y_l, y, m_zeros);
     OSQPVectorf_mult_scalar(derivative_data->y_l, -1);
-    OSQPVectorf_free(m_zeros);
-
-    OSQPVectorf* y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
-    OSQPVectorf* y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
-    OSQPVectorf* lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
 
-    OSQPVectorf_free(y_l_ineq);
-    OSQPVectorf_free(y_u_ineq);
+    y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
+    y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
     // ---------- lambda
 
     // --------- slacks
-    OSQPVectorf* l_ineq = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
-    OSQPVectorf_free(l);
+    l_ineq = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
+    u_ineq = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
+    if (!G || !y_l_ineq || !y_u_ineq || !l_ineq || !u_ineq) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
     OSQPVectorf_mult_scalar(l_ineq, -1);
-    OSQPVectorf* u_ineq = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
-    OSQPVectorf_free(u);
-    OSQPVectorf* h = OSQPVectorf_concat(l_ineq, u_ineq);
 
-    OSQPVectorf_free(l_ineq);
-    OSQPVectorf_free(u_ineq);
+    lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
+    h = OSQPVectorf_concat(l_ineq, u_ineq);
+    if (!lambda || !h) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
 
-    OSQPVectorf* slacks = OSQPVectorf_copy_new(h);
-    OSQPVectorf_free(h);
+    slacks = OSQPVectorf_copy_new(h);
+    GDiagLambda = OSQPMatrix_copy_new(G);
+    dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
+    dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
+    d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
+    P_full = OSQPMatrix_triu_to_symm(P);
+    r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
+    r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
+    if (!slacks || !GDiagLambda || !dy_l_ineq || !dy_u_ineq || !P_full ||
+        (n_eq > 0 && !d_nu_vec) || (m > 0 && (!r_yl || !r_yu))) {
+      exitflag = OSQP_MEM_ALLOC_ERROR;
+      goto cleanup;
+    }
     OSQPMatrix_Axpy(G, x, slacks, 1, -1);
-    OSQPVectorf_free(x);
 
     // ---------- GDiagLambda
-    OSQPMatrix* GDiagLambda = OSQPMatrix_copy_new(G);
     OSQPMatrix_lmult_diag(GDiagLambda, lambda);
-    OSQPVectorf_free(lambda);
 
     // ---------- Assemble RHS of the linear system
-    OSQPVectorf* dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
-    OSQPVectorf_free(dy_l_vec);
-    OSQPVectori_free(A_ineq_l_i);
-    OSQPVectorf* dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
-    OSQPVectorf_free(dy_u_vec);
-    OSQPVectori_free(A_ineq_u_i);
-
     OSQPVectorf *rhs = derivative_data->rhs;
     OSQPInt pos = 0;
     OSQPVectorf_subvector_assign(rhs, dx, pos, n, -1);
     pos += n;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_l_ineq), pos, n_ineq_l, -1);
-    OSQPVectorf_free(dy_l_ineq);
     pos += n_ineq_l;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_u_ineq), pos, n_ineq_u, -1);
-    OSQPVectorf_free(dy_u_ineq);
     pos += n_ineq_u;
 
-    OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     for (j=0; j<n_eq; j++) {
       if (nu_sign_vec[j]==1) {
         d_nu_vec[j] = dy_u[eq_indices_vec[j]];
@@ -269,26 +295,17 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
       } else {}  // should never happen
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
-    c_free(d_nu_vec);
     pos += n_eq;
 
     OSQPVectorf_subvector_assign_scalar(rhs, 0, pos, n + n_ineq_l + n_ineq_u + n_eq);
     // ---------- Assemble RHS of the linear system
 
-    OSQPMatrix* P_full = OSQPMatrix_triu_to_symm(P);
-    OSQPMatrix_free(P);
-    adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
-                                     solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
-    OSQPMatrix_free(P_full);
-    OSQPMatrix_free(G);
-    OSQPMatrix_free(A_eq);
-    OSQPMatrix_free(GDiagLambda);
-    OSQPVectorf_free(slacks);
+    exitflag = adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
+                                                solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
+    if (exitflag) goto cleanup;
 
     OSQPFloat* rhs_data = OSQPVectorf_data(rhs);
 
-    OSQPFloat* r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
-    OSQPFloat* r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
     // TODO: We shouldn't have to do this if we assemble r_yl/r_yu judiciously
     for (j=0; j<m; j++) r_yl[j] = 0;
     for (j=0; j<m; j++) r_yu[j] = 0;
@@ -297,12 +314,10 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     for (j=0; j<derivative_data->n_ineq_l; j++) {
         r_yl[l_noninf_indices_vec[j]] = -rhs_data[pos+j];
     }
-    c_free(l_noninf_indices_vec);
     pos += derivative_data->n_ineq_l;
     for (j=0; j<derivative_data->n_ineq_u; j++) {
         r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
     }
-    c_free(u_noninf_indices_vec);
     pos += derivative_data->n_ineq_u;
     for (j=0; j<derivative_data->n_eq; j++) {
         if (nu_sign_vec[j]==1) {
@@ -313,19 +328,52 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
             r_yu[eq_indices_vec[j]] = 0;
         }
     }
-    c_free(nu_sign_vec);
-    c_free(eq_indices_vec);
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
-    c_free(r_yl);
     OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
     OSQPVectorf_mult_scalar(derivative_data->ryl, -1);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
-    c_free(r_yu);
     OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
-    //cleanup
+cleanup:
+    OSQPMatrix_free(P);
+    OSQPMatrix_free(A);
+    OSQPMatrix_free(A_ineq_l);
+    OSQPMatrix_free(A_ineq_u);
+    OSQPMatrix_free(A_eq);
+    OSQPMatrix_free(G);
+    OSQPMatrix_free(GDiagLambda);
+    OSQPMatrix_free(P_full);
+    OSQPVectorf_free(l);
+    OSQPVectorf_free(u);
+    OSQPVectorf_free(x);
     OSQPVectorf_free(y);
+    OSQPVectorf_free(dy_l_vec);
+    OSQPVectorf_free(dy_u_vec);
+    OSQPVectorf_free(m_zeros);
+    OSQPVectorf_free(y_l_ineq);
+    OSQPVectorf_free(y_u_ineq);
+    OSQPVectorf_free(lambda);
+    OSQPVectorf_free(l_ineq);
+    OSQPVectorf_free(u_ineq);
+    OSQPVectorf_free(h);
+    OSQPVectorf_free(slacks);
+    OSQPVectorf_free(dy_l_ineq);
+    OSQPVectorf_free(dy_u_ineq);
+    OSQPVectori_free(A_ineq_l_i);
+    OSQPVectori_free(A_ineq_u_i);
+    OSQPVectori_free(A_eq_i);
+    c_free(A_ineq_l_vec);
+    c_free(A_ineq_u_vec);
+    c_free(A_eq_vec);
+    c_free(eq_indices_vec);
+    c_free(l_noninf_indices_vec);
+    c_free(u_noninf_indices_vec);
+    c_free(nu_sign_vec);
+    c_free(d_nu_vec);
+    c_free(r_yl);
+    c_free(r_yu);
 
+    if (exitflag) return osqp_error(exitflag);
     return 0;
 }
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 8167708..d4ee24f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -625,7 +625,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
-    !(work->derivative_data->ryl) || !(work->derivative_data->ryu))
+    !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
+    !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-- 
2.43.0


From ff38d73df3b8dfb24a139921dc68e978e50d6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 35/45] fix: derivatives were NaN when the multiplier of an
 equality constraint is zero

---
 src/derivative.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index efbccdd..6a83ed1 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -319,15 +319,6 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
         r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
     }
     pos += derivative_data->n_ineq_u;
-    for (j=0; j<derivative_data->n_eq; j++) {
-        if (nu_sign_vec[j]==1) {
-            r_yl[eq_indices_vec[j]] = 0;
-            r_yu[eq_indices_vec[j]] = rhs_data[pos+j] / y_data[eq_indices_vec[j]];
-        } else {
-            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j] / y_data[eq_indices_vec[j]];
-            r_yu[eq_indices_vec[j]] = 0;
-        }
-    }
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
     OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
@@ -335,6 +326,17 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
     OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
+    // The multiplier of an equality constraint may be zero, so these are not scaled by it
+    OSQPFloat* ryl_data = OSQPVectorf_data(derivative_data->ryl);
+    OSQPFloat* ryu_data = OSQPVectorf_data(derivative_data->ryu);
+    for (j=0; j<derivative_data->n_eq; j++) {
+        if (nu_sign_vec[j]==1) {
+            ryu_data[eq_indices_vec[j]] = rhs_data[pos+j];
+        } else {
+            ryl_data[eq_indices_vec[j]] = -rhs_data[pos+j];
+        }
+    }
+
 cleanup:
     OSQPMatrix_free(P);
     OSQPMatrix_free(A);
-- 
2.43.0


From 32dde740de96c00016a4e61061cad5e91d5a0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:07 +0000
Subject: [PATCH 36/45] fix: derivatives had the wrong sign in dy for
 constraints at their lower bound

---
 include/private/derivative.h |  3 +--
 src/derivative.c             | 24 +++++++++---------------
 src/osqp_api.c               |  2 +-
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/private/derivative.h b/include/private/derivative.h
index 783bdc9..c2a2e44 100644
--- a/include/private/derivative.h
+++ b/include/private/derivative.h
@@ -20,8 +20,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u);
+                                   OSQPFloat*     dy);
 
 #ifdef __cplusplus
 }
diff --git a/src/derivative.c b/src/derivative.c
index 6a83ed1..1a967a7 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -96,8 +96,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u) {
+                                   OSQPFloat*     dy) {
 
     // Check if solver has been initialized
     if (!solver || !solver->work || !solver->work->derivative_data || !solver->solution)
@@ -149,10 +148,9 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt* u_noninf_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* nu_sign_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
 
-    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy_l, m);
-    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy_u, m);
+    OSQPVectorf* dy_vec = OSQPVectorf_new(dy, m);
 
-    if (!P || !A || !l || !u || !x || !y || !dy_l_vec || !dy_u_vec ||
+    if (!P || !A || !l || !u || !x || !y || !dy_vec ||
         (m > 0 && (!A_ineq_l_vec || !A_ineq_u_vec || !A_eq_vec || !eq_indices_vec ||
                    !l_noninf_indices_vec || !u_noninf_indices_vec || !nu_sign_vec))) {
       exitflag = OSQP_MEM_ALLOC_ERROR;
@@ -261,8 +259,8 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     slacks = OSQPVectorf_copy_new(h);
     GDiagLambda = OSQPMatrix_copy_new(G);
-    dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
-    dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
+    dy_l_ineq = OSQPVectorf_subvector_byrows(dy_vec, A_ineq_l_i);
+    dy_u_ineq = OSQPVectorf_subvector_byrows(dy_vec, A_ineq_u_i);
     d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     P_full = OSQPMatrix_triu_to_symm(P);
     r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
@@ -282,17 +280,14 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt pos = 0;
     OSQPVectorf_subvector_assign(rhs, dx, pos, n, -1);
     pos += n;
-    OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_l_ineq), pos, n_ineq_l, -1);
+    // y = y_u - y_l, so a change of y is the opposite change of the multiplier of a lower bound
+    OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_l_ineq), pos, n_ineq_l, 1);
     pos += n_ineq_l;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_u_ineq), pos, n_ineq_u, -1);
     pos += n_ineq_u;
 
     for (j=0; j<n_eq; j++) {
-      if (nu_sign_vec[j]==1) {
-        d_nu_vec[j] = dy_u[eq_indices_vec[j]];
-      } else if (nu_sign_vec[j]==-1) {
-        d_nu_vec[j] = -dy_l[eq_indices_vec[j]];
-      } else {}  // should never happen
+      d_nu_vec[j] = dy[eq_indices_vec[j]];
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
     pos += n_eq;
@@ -350,8 +345,7 @@ cleanup:
     OSQPVectorf_free(u);
     OSQPVectorf_free(x);
     OSQPVectorf_free(y);
-    OSQPVectorf_free(dy_l_vec);
-    OSQPVectorf_free(dy_u_vec);
+    OSQPVectorf_free(dy_vec);
     OSQPVectorf_free(m_zeros);
     OSQPVectorf_free(y_l_ineq);
     OSQPVectorf_free(y_u_ineq);
diff --git a/src/osqp_api.c b/src/osqp_api.c
index d4ee24f..cf22e4f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1628,7 +1628,7 @@ OSQPInt osqp_adjoint_derivative_compute(OSQPSolver* solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
-  status = adjoint_derivative_compute(solver, dx, dy, dy);
+  status = adjoint_derivative_compute(solver, dx, dy);
 #else
   OSQP_UnusedVar(solver);
   OSQP_UnusedVar(dx);
-- 
2.43.0


From d62fd5c8576b8d21106c24284b05534e7dade47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:42 +0000
Subject: [PATCH 37/45] fix: updating P or A to a non-convex problem went
 unnoticed with the MKL direct solver

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index d6ca17c..ba0c109 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -346,6 +346,9 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // As in the initialization, a convex problem gives n positive eigenvalues
+  if ( s->error == 0 && s->iparm[21] < s->n ) return OSQP_NONCVX_ERROR;
+
   // Return exit flag
   return s->error;
 }
-- 
2.43.0


From 274a4a17d15323e698474afc7824ffd37981f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:48 +0000
Subject: [PATCH 38/45] fix: infinite bounds on zero multipliers made the
 duality gap and the infeasibility test NaN

---
 algebra/builtin/vector.c | 4 ++--
 algebra/mkl/vector.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/builtin/vector.c b/algebra/builtin/vector.c
index 1b31950..42afdb4 100644
--- a/algebra/builtin/vector.c
+++ b/algebra/builtin/vector.c
@@ -601,12 +601,12 @@ OSQPFloat OSQPVectorf_dot_prod_signed(const OSQPVectorf* a,
 
   if (sign == 1) {  /* dot with positive part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_max(bv[i], 0.);
+      if (bv[i] > 0.) dotprod += av[i] * bv[i];
     }
   }
   else if (sign == -1){  /* dot with negative part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_min(bv[i],0.);
+      if (bv[i] < 0.) dotprod += av[i] * bv[i];
     }
   }
   else{
diff --git a/algebra/mkl/vector.c b/algebra/mkl/vector.c
index 8fbda24..4622e29 100644
--- a/algebra/mkl/vector.c
+++ b/algebra/mkl/vector.c
@@ -456,12 +456,12 @@ OSQPFloat OSQPVectorf_dot_prod_signed(const OSQPVectorf* a,
 
   if (sign == 1) {  /* dot with positive part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_max(bv[i], 0.);
+      if (bv[i] > 0.) dotprod += av[i] * bv[i];
     }
   }
   else if (sign == -1){  /* dot with negative part of b */
     for (i = 0; i < length; i++) {
-      dotprod += av[i] * c_min(bv[i],0.);
+      if (bv[i] < 0.) dotprod += av[i] * bv[i];
     }
   }
   else{
-- 
2.43.0


From 736cad84d98b82188654c51e7d1b4e64778d7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:52 +0000
Subject: [PATCH 39/45] fix: generated code did not compile with infinite or
 NaN values

---
 src/codegen.c | 51 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index fcd25d5..4a0a0fa 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <math.h>   /* isnan, isinf */
 #include <ctype.h>  /* -> toupper */
 #include <string.h> /* -> strlen */
 #include <time.h>   /* time, ctime */
@@ -52,6 +53,15 @@ static OSQPInt check_names(const char* output_dir,
   return OSQP_NO_ERROR;
 }
 
+/* Write a floating-point value as an element of an initializer */
+static void write_float(FILE*     f,
+                        OSQPFloat val) {
+
+  if      (isnan(val)) fprintf(f, "  (OSQPFloat)NAN,\n");
+  else if (isinf(val)) fprintf(f, "  (OSQPFloat)%sINFINITY,\n", val < 0 ? "-" : "");
+  else                 fprintf(f, "  (OSQPFloat)%.17g,\n", val);
+}
+
 /*********
 * Vectors
 **********/
@@ -66,7 +76,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.17g,\n", vecf[i]);
+      write_float(f, vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -203,29 +213,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->rho);
+  write_float(f, settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->alpha);
+  write_float(f, settings->sigma);
+  write_float(f, settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->cg_tol_fraction);
+  write_float(f, settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->adaptive_rho_tolerance);
+  write_float(f, settings->adaptive_rho_fraction);
+  write_float(f, settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->eps_dual_inf);
+  write_float(f, settings->eps_abs);
+  write_float(f, settings->eps_rel);
+  write_float(f, settings->eps_prim_inf);
+  write_float(f, settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", settings->delta);
+  write_float(f, settings->time_limit);
+  write_float(f, settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -255,7 +265,7 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  (OSQPFloat)%.17g,\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.17g,\n", info->rho_estimate);
+  write_float(f, info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -321,10 +331,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", scaling->c);
+  write_float(f, scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", scaling->cinv);
+  write_float(f, scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -448,8 +458,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.17g,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", linsys->rho_inv);
+  write_float(f, linsys->sigma);
+  write_float(f, linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -627,10 +637,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.17g,\n", work->rho_inv);
+  write_float(f, work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.17g,\n", work->last_rel_kkt);
+  write_float(f, work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
@@ -761,6 +771,7 @@ OSQPInt codegen_src(const char* output_dir,
   fprintf(srcFile, " */\n\n");
 
   /* Include required headers */
+  fprintf(srcFile, "#include <math.h>\n");
   fprintf(srcFile, "#include \"types.h\"\n");
   fprintf(srcFile, "#include \"algebra_impl.h\"\n");
   fprintf(srcFile, "#include \"qdldl_interface.h\"\n\n");
-- 
2.43.0


From 57d8303a8133f854825ddbb7f97a1087423c657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 40/45] fix: osqp_error_message read outside its table for 0
 and negative codes

---
 src/osqp_api.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index cf22e4f..890ddc6 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -250,7 +250,11 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag == OSQP_NO_ERROR ) {
+    return "No error.";
+  }
+
+  if( error_flag < 0 || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From d38ba9db47f879daec3a0f4a69e91a382f0d99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 41/45] fix: an unknown cg_precond was accepted as a setting

---
 src/auxil.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 405b1ac..e7d4a0b 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1126,6 +1126,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (settings->cg_precond != OSQP_NO_PRECONDITIONER &&
+      settings->cg_precond != OSQP_DIAGONAL_PRECONDITIONER) {
+    c_eprint("cg_precond not recognized");
+    return 1;
+  }
+
   if (settings->cg_max_iter <= 0) {
     c_eprint("cg_max_iter must be positive");
     return 1;
-- 
2.43.0


From 1cdef727ff71e7cdd5344d4a2f2986ddc60d8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 42/45] fix: after a failed factorization, later solves
 iterated with the old factors

---
 include/private/auxil.h |  8 ++++++++
 include/private/types.h |  5 +++++
 src/auxil.c             | 14 ++++++++++++++
 src/osqp_api.c          | 16 +++++++++++++++-
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/private/auxil.h b/include/private/auxil.h
index 509c78e..1fbf492 100644
--- a/include/private/auxil.h
+++ b/include/private/auxil.h
@@ -43,6 +43,14 @@ OSQPInt set_rho_vec(OSQPSolver* solver);
  */
 OSQPInt update_rho_vec(OSQPSolver *solver);
 
+/**
+ * Factorize the KKT matrix again if its last factorization failed
+ *
+ * @param solver Solver
+ * @return       Exitflag
+ */
+OSQPInt repeat_failed_factorization(OSQPSolver *solver);
+
 # endif // OSQP_EMBEDDED_MODE
 
 /**
diff --git a/include/private/types.h b/include/private/types.h
index 59dd6d4..f14d4b4 100644
--- a/include/private/types.h
+++ b/include/private/types.h
@@ -228,6 +228,11 @@ struct OSQPWorkspace_ {
 
   /// Relative KKT of last update
   OSQPFloat last_rel_kkt;
+
+# if OSQP_EMBEDDED_MODE != 1
+  /// Flag indicating that the last update of the KKT matrix could not be factorized
+  OSQPInt factor_failed;
+# endif // if OSQP_EMBEDDED_MODE != 1
 };
 
 // NB: "typedef struct OSQPWorkspace_ OSQPWorkspace" is declared already
diff --git a/src/auxil.c b/src/auxil.c
index e7d4a0b..b44fcab 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -116,6 +116,20 @@ OSQPInt update_rho_vec(OSQPSolver* solver) {
   // Update rho_vec in KKT matrix if constraints type has changed
   if (constr_type_changed == 1) {
     exitflag = work->linsys_solver->update_rho_vec(work->linsys_solver, work->rho_vec, solver->settings->rho);
+    work->factor_failed = (exitflag != 0);
+  }
+
+  return exitflag;
+}
+
+OSQPInt repeat_failed_factorization(OSQPSolver* solver) {
+
+  OSQPInt exitflag = 0;
+  OSQPWorkspace* work = solver->work;
+
+  if (work->factor_failed) {
+    exitflag = work->linsys_solver->update_rho_vec(work->linsys_solver, work->rho_vec, solver->settings->rho);
+    work->factor_failed = (exitflag != 0);
   }
 
   return exitflag;
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 890ddc6..001539d 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -715,6 +715,15 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // If not warm start -> set x, z, y to zero
   if (!settings->warm_starting) osqp_cold_start(solver);
 
+#if OSQP_EMBEDDED_MODE != 1
+  // Never iterate with the factors of another KKT matrix
+  if (repeat_failed_factorization(solver)) {
+    c_eprint("Failed linear system factorization");
+    exitflag = 1;
+    goto exit;
+  }
+#endif /* if OSQP_EMBEDDED_MODE != 1 */
+
   // Main ADMM algorithm
 
   max_iter = settings->max_iter;
@@ -1435,7 +1444,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
                   work->data->P, Px_new_idx, P_new_n,
                   work->data->A, Ax_new_idx, A_new_n);
   }
-
+  work->factor_failed = (exitflag != 0);
 
   // Reset solver information
   reset_info(solver->info);
@@ -1499,6 +1508,7 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 
   // Update rho_vec in KKT matrix
   exitflag = work->linsys_solver->update_rho_vec(work->linsys_solver, work->rho_vec, solver->settings->rho);
+  work->factor_failed = (exitflag != 0);
 
 #ifdef OSQP_ENABLE_PROFILING
   if (work->rho_update_from_solve == 0)
@@ -1607,6 +1617,10 @@ OSQPInt osqp_codegen(OSQPSolver*         solver,
                     || (defines->derivatives_enable != 0 && defines->derivatives_enable != 1)) {
     return osqp_error(OSQP_CODEGEN_DEFINES_ERROR);
   }
+  /* Never export the factors of another KKT matrix */
+  else if (repeat_failed_factorization(solver)) {
+    return osqp_error(OSQP_LINSYS_SOLVER_INIT_ERROR);
+  }
 
   exitflag = codegen_inc(output_dir, file_prefix);
   if (!exitflag) exitflag = codegen_src(output_dir, file_prefix, solver, defines->embedded_mode);
-- 
2.43.0


From 68319e5345ccbce9bcbb4aaddfda954f88b75dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:56 +0000
Subject: [PATCH 43/45] fix: the log marked rows as rho updates that were not,
 and printed some rows twice

---
 src/osqp_api.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 001539d..350ee53 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -730,6 +730,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   for (iter = 1; iter <= max_iter; iter++) {
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_ITER);
 
+    work->rho_updated = 0;
+
     // Update x_prev, z_prev (preallocated, no malloc)
     swap_vectors(&(work->x), &(work->x_prev));
     swap_vectors(&(work->z), &(work->z_prev));
@@ -923,7 +925,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       }
     }
 
-    work->rho_updated = 0;
 #if OSQP_EMBEDDED_MODE != 1
     // Further processing to determine if the KKT error has decresed
     // This requires values computed in update_info, so must be done here.
@@ -971,7 +972,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 #ifdef OSQP_ENABLE_PRINTING
 
     /* Print summary, unless it has been printed for this iteration already */
-    if (settings->verbose && !can_print) print_summary(solver);
+    if (settings->verbose && !can_print && !work->rho_updated) print_summary(solver);
     work->summary_printed = 1;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
 
-- 
2.43.0


From 68eabca764d7c54e7ad4c1f7f4e34edf1d47f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 44/45] fix: polishing printed a message with verbose off

---
 src/polish.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polish.c b/src/polish.c
index d62b131..f8e2c71 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -355,7 +355,7 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+    if (settings->verbose) c_print("Polishing not needed - no active set detected at optimal point\n");
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From a6165e3a496324212d5853e4038dc2acb4bfb704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 45/45] fix: a polishing step that failed with a negative code
 was not reported

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 350ee53..a75f6d0 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1034,7 +1034,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
     // The unpolished solution is still valid, so report the failure but keep the solution
-    if (exitflag > 0) {
+    if (exitflag) {
       c_eprint("Failed polishing");
     }
   }
-- 
2.43.0

