From 70ed936b8b1b1217209320a79bb26b336863e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 01/19] fix: mzed_{mul,addmul}_strassen: honour cutoff 0
 (heuristic choice) instead of recursing forever

---
 src/strassen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/strassen.c b/src/strassen.c
index c36520b..31815ab 100644
--- a/src/strassen.c
+++ b/src/strassen.c
@@ -32,11 +32,15 @@
 
 mzed_t *mzed_mul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, TRUE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
 }
 
 mzed_t *mzed_addmul_strassen(mzed_t *C, const mzed_t *A, const mzed_t *B, int cutoff) {
   C = _mzed_mul_init(C, A, B, FALSE);
+  if (cutoff == 0)
+    cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_addmul_strassen(C, A, B, cutoff);
 }
 
-- 
2.43.0


From 2ffe290ae4f685de82cd94ba10e88c7f0f153207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 02/19] fix: mzd_slice_rescale_row: the one-row copy has its
 row at index 0

---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From 29761eaffac3dc1ba0682e9591a05736e166ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 03/19] fix: gf2e_t16_init: do not read past the multiplication
 table when degree < slot width

---
 src/gf2e.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf2e.h b/src/gf2e.h
index a6a8542..2697ee8 100644
--- a/src/gf2e.h
+++ b/src/gf2e.h
@@ -167,7 +167,8 @@ static inline word *gf2e_t16_init(const gf2e *ff, const word a) {
   word *mul = (word*)m4ri_mm_calloc(1<<16, sizeof(word));
 
   const deg_t w = gf2e_degree_to_w(ff);
-  const word mask_w = (1<<w)-1;
+  /* elements have degree bits, the slots' padding bits must not index the multiplication table */
+  const word mask_w = (1<<ff->degree)-1;
 
   /**
    * @todo: this is a bit of overkill, we could do better
-- 
2.43.0


From cd4df686385eff1a25de2ddfc3f15488bf18dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 04/19] fix: blm_free of a bilinear map without compiled DJB
 maps

blm_init_crt(..., djb=0) leaves f->f, f->g and f->h NULL and djb_free
dereferences its argument.
---
 src/blm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..c7f923a 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -612,10 +612,12 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
-    djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f != NULL) {
+    if (f->f != f->g)
+      djb_free(f->g);
+    djb_free(f->f);
+    djb_free(f->h);
+  }
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From 4f0f71acb7cd08670b3c22248d2ed06e6ceab69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 05/19] fix: _mzd_ptr_apply_blm_djb has to add to X

_mzd_poly_addmul_blm and _mzd_poly_addmul_crt promise C += A*B, which
held for maps applied as matrices only.
---
 src/blm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index c7f923a..53ee8f8 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -87,14 +87,24 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
     mzd_free(t2[i]);
   }
 
-  
+  /* djb_apply_mzd_ptr overwrites its target, but we are to add to X like
+     _mzd_ptr_apply_blm_mzd does */
+  mzd_t **t3 = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*f->H->nrows);
+  for(rci_t i=0; i<f->H->nrows; i++)
+    t3[i] = mzd_init(A[0]->nrows, B[0]->ncols);
 
-  djb_apply_mzd_ptr(f->h, X, (const mzd_t**)t0);
+  djb_apply_mzd_ptr(f->h, t3, (const mzd_t**)t0);
+
+  for(rci_t i=0; i<f->H->nrows; i++) {
+    mzd_add(X[i], X[i], t3[i]);
+    mzd_free(t3[i]);
+  }
 
   for(rci_t i=0; i<f->F->nrows; i++) {
     mzd_free(t0[i]);
   }
 
+  m4ri_mm_free(t3);
   m4ri_mm_free(t0);
   m4ri_mm_free(t1);
   m4ri_mm_free(t2);
-- 
2.43.0


From e15315e6775f6770195029f26510fe9210df808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 06/19] fix: crt_init returned no moduli when none beats
 schoolbook cost

For example for length 1 or lengths 2 and 13 the array was all zero and the
bilinear map built from it empty.
---
 src/blm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 53ee8f8..89306c1 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -114,7 +114,7 @@ void _mzd_ptr_apply_blm_djb(mzd_t **X, const mzd_t **A, const mzd_t **B, const b
 
 int *crt_init(const deg_t f_len, const deg_t g_len) {
   int *p_best = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
-  int  c_best = f_len * g_len;
+  int  c_best = -1;
 
   int *p = (int*)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
 
@@ -150,7 +150,7 @@ int *crt_init(const deg_t f_len, const deg_t g_len) {
     for(deg_t d=1; d<M4RIE_CRT_LEN; d++)
       c += costs[d] * p[d];
 
-    if (c < c_best) {
+    if (c_best < 0 || c < c_best) {
       for(deg_t d=0; d<M4RIE_CRT_LEN; d++)
         p_best[d] = p[d];
       c_best = c;
-- 
2.43.0


From 2abf1e38a13c764f123ba37113c970e297b662b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:29 +0000
Subject: [PATCH 07/19] fix: _blm_finish_polymult for unequal lengths and
 dependent products

For f_len > g_len the point (v,w) left G^T, for f_len < g_len points with
w < v were never tried, and if the products computed by F and G are linearly
dependent (e.g. crt_init's choice for lengths 4 and 4) no set of points has
full rank: the search did not terminate.
---
 src/blm.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 89306c1..60e3eac 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -407,6 +407,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   word w = 0;
   rci_t r = 0;
   rci_t rank = 0;
+  rci_t tried = 0; /* points (v,w) tried since the rank last grew */
 
   mzd_t *pivots = mzd_init(m, m4ri_radix*2);
 
@@ -426,10 +427,12 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
       v++;
       if (v == (word)f->F->ncols)
         v = 0;
-      w = v;
+      w = 0;
     }
     r++;
+    tried++;
     if (r == C->nrows) {
+      const rci_t prev = rank;
       mzd_t *D = mzd_copy(NULL, C);
       rank = mzd_ple(D, P, Q, 0);
       mzd_apply_p_left(pivots, P);
@@ -438,12 +441,33 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
 
       if (rank < m)
         r = rank;
+      if (rank > prev)
+        tried = 0;
+      else if (tried >= f->F->ncols * f->G->ncols)
+        break;
     }
   }
+
+  /* the products of F and G are linearly dependent if no choice of points gives a full rank matrix:
+     any H which is right on all points will do, we complete C by unit vectors to pick one. */
+
+  const rci_t npoints = rank;
+  for(r=rank; r<m; r++)
+    for(wi_t j=0; j< C->width; j++)
+      C->rows[r][j] = 0;
+  for(rci_t j=0; rank < m; j++) {
+    mzd_write_bit(C, rank, j, 1);
+    mzd_t *D = mzd_copy(NULL, C);
+    if (mzd_ple(D, P, Q, 0) > rank)
+      rank++;
+    else
+      mzd_write_bit(C, rank, j, 0);
+    mzd_free(D);
+  }
   mzp_free(P);
   mzp_free(Q);
 
-  for(r=0; r<m; r++) {
+  for(r=0; r<npoints; r++) {
     /* x^v = (0, 0, ... , 1, ..., 0, 0) * F_T -> select row v */
     v = pivots->rows[r][0];
     w = pivots->rows[r][1];
@@ -464,7 +488,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
 
   for(rci_t i=0; i<H->nrows; i++) {
     mzd_set_ui(a, 0);
-    for(rci_t j=0; j<m; j++) {
+    for(rci_t j=0; j<npoints; j++) {
       v = pivots->rows[j][0];
       w = pivots->rows[j][1];
       if ((v+w) == (word)i)
-- 
2.43.0


From 8fa061d01bc8e667200fad4feb907884aaf25eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 08/19] fix: _mzd_poly_addmul_crt lost the result when C is
 NULL

---
 src/mzd_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..1254cdb 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -225,7 +225,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From f7b95ebdf489b531318304fa13d112eb03ee79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 09/19] fix: _mzd_poly_adapt_depth wrote past the coefficient
 array when growing

---
 src/mzd_poly.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 1254cdb..ecd2cda 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -131,6 +131,11 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       A->x[i] = NULL;
     }
   } else {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++)
+      x[i] = A->x[i];
+    m4ri_mm_free(A->x);
+    A->x = x;
     for(int i=A->depth; i<new_depth; i++) {
       A->x[i] = mzd_init(A->nrows,A->ncols);
     }
-- 
2.43.0


From 6a9a89467c673103ae23ed0d23b3bee84c150502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 10/19] fix: _mzd_poly_addmul_ext1 for products of one or two
 coefficients

There is no finite field of degree 0 or 1 to evaluate in.
---
 src/mzd_poly.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..5f1c14c 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,7 +11,14 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
-  const int log2d = (int)ceil(log2( (double)d ));
+  if (d == 1) {
+    mzd_addmul(C->x[0], A->x[0], B->x[0], 0);
+    return C;
+  }
+
+  int log2d = (int)ceil(log2( (double)d ));
+  if (log2d < 2) /* there is no gf2e of degree 1 */
+    log2d = 2;
   assert(log2d <= 16);
 
   gf2e *ff = gf2e_init(irreducible_polynomials[log2d][1]);
-- 
2.43.0


From 6cb4c74296d64beade9334759e3c82aedd7e543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 11/19] fix: TRSM with a cutoff below 64 recursed on windows of
 negative size or on itself

---
 src/trsm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trsm.inl b/src/trsm.inl
index 2e8d154..27e4fb4 100644
--- a/src/trsm.inl
+++ b/src/trsm.inl
@@ -9,7 +9,7 @@
 void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff) {
   assert((L->finite_field == B->finite_field) && (L->nrows == L->ncols) && (B->nrows == L->ncols));
 
-  if (L->nrows <= cutoff || B->ncols <= cutoff) {
+  if (L->nrows <= MAX(cutoff, m4ri_radix) || B->ncols <= cutoff) {
     matrix_trsm_lower_left_newton_john(L,B);
     return;
   }
@@ -53,7 +53,7 @@ void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff)
 void _matrix_trsm_upper_left(matrix_t const *U, matrix_t *B, const rci_t cutoff) {
   assert((U->finite_field == B->finite_field) && (U->nrows == U->ncols) && (B->nrows == U->ncols));
 
-  if (U->nrows <= cutoff || B->ncols <= cutoff) {
+  if (U->nrows <= MAX(cutoff, m4ri_radix) || B->ncols <= cutoff) {
     matrix_trsm_upper_left_newton_john(U,B);
     return;
   }
-- 
2.43.0


From 41cac1766419d9a21d2e66a2cf1ef4a67b31a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 12/19] fix: mzed_process_rows5/6 looked up more bits than a
 word holds for degrees above 8

---
 src/newton_john.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/newton_john.h b/src/newton_john.h
index b1e41e3..790a15c 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -288,6 +288,23 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
   mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
+/*
+ * The coefficients of five or six columns do not fit in one word when elements are stored with
+ * more than 12 or 10 bits each: look them up one by one.
+ */
+
+static inline void _mzed_process_rows_wide(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                           const njt_mzed_t *T[], const int n) {
+  const wi_t block = (startcol*M->w)/m4ri_radix;
+  for(rci_t r=startrow; r<endrow; r++) {
+    rci_t x[6];
+    for(int i=0; i<n; i++)
+      x[i] = T[i]->L[mzed_read_elem(M, r, startcol+i)];
+    for(int i=0; i<n; i++)
+      mzd_combine(M->x, r, block, M->x, r, block, T[i]->T->x, x[i], block);
+  }
+}
+
 /**
  * \brief Same as mzed_process_rows but works with five Newton-John
  * tables in parallel.
@@ -307,6 +324,11 @@ static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
+  if (5*M->w > m4ri_radix) {
+    const njt_mzed_t *T[5] = {T0, T1, T2, T3, T4};
+    _mzed_process_rows_wide(M, startrow, endrow, startcol, T, 5);
+    return;
+  }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
 }
 
@@ -332,6 +354,11 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
+  if (6*M->w > m4ri_radix) {
+    const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4, T5};
+    _mzed_process_rows_wide(M, startrow, endrow, startcol, T, 6);
+    return;
+  }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
 }
 
-- 
2.43.0


From 4f18f0e6802d1ea44fa800db6e39e44f7ccd935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 13/19] fix: _mzd_slice_compress_l cleared elements to the
 right of a window

---
 src/mzd_slice.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index 592dbba..89479a2 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -372,8 +372,17 @@ void mzd_slice_print(const mzd_slice_t *A);
  */
 
 static inline void _mzd_slice_compress_l(mzd_slice_t *A, const rci_t r1, const rci_t n1, const rci_t r2) {
-  for(int i=0; i<A->depth; i++)
-    _mzd_compress_l(A->x[i], r1, n1, r2);
+  if (r1 == n1)
+    return;
+  for(int i=0; i<A->depth; i++) {
+    if (A->ncols % m4ri_radix && mzd_is_windowed(A->x[i])) {
+      /* _mzd_compress_l clears whole words, the last word of a window is shared with its neighbour */
+      for(rci_t j=0; j<r2; j++)
+        mzd_col_swap_in_rows(A->x[i], n1+j, r1+j, r1+j, A->nrows);
+    } else {
+      _mzd_compress_l(A->x[i], r1, n1, r2);
+    }
+  }
 }
 
 /**
-- 
2.43.0


From 08668145cb394d7f1d3e0f64fd51553d32aa9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 14/19] fix: mzed_submatrix/mzd_slice_submatrix cleared
 elements next to a destination window

---
 src/mzd_slice.h | 9 ++++++++-
 src/mzed.h      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index 89479a2..b8f6e70 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -459,7 +459,14 @@ static inline mzd_slice_t *mzd_slice_submatrix(mzd_slice_t *S, const mzd_slice_t
     S = mzd_slice_init(A->finite_field, highr - lowr, highc - lowc);
 
   for(int i=0; i<A->depth; i++) {
-    mzd_submatrix(S->x[i], A->x[i], lowr, lowc, highr, highc);
+    if (highc > lowc && lowc % m4ri_radix == 0) {
+      /* mzd_submatrix overwrites the last word of S completely, even if S is a window */
+      mzd_t *W = mzd_init_window(A->x[i], lowr, lowc, highr, highc);
+      mzd_copy(S->x[i], W);
+      mzd_free_window(W);
+    } else {
+      mzd_submatrix(S->x[i], A->x[i], lowr, lowc, highr, highc);
+    }
   }
   return S;
 }
diff --git a/src/mzed.h b/src/mzed.h
index 282297b..c8e6afd 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -158,7 +158,14 @@ static inline mzed_t *mzed_submatrix(mzed_t *S, const mzed_t *M, const rci_t low
   if(S==NULL)
     S = mzed_init(M->finite_field, highr - lowr, highc - lowc);
 
-  mzd_submatrix(S->x, M->x, lowr, lowc*M->w, highr, highc*M->w);
+  if (highc > lowc && (lowc*M->w) % m4ri_radix == 0) {
+    /* mzd_submatrix overwrites the last word of S completely, even if S is a window */
+    mzd_t *W = mzd_init_window(M->x, lowr, lowc*M->w, highr, highc*M->w);
+    mzd_copy(S->x, W);
+    mzd_free_window(W);
+  } else {
+    mzd_submatrix(S->x, M->x, lowr, lowc*M->w, highr, highc*M->w);
+  }
   return S;
 }
 
-- 
2.43.0


From 5f4d5998c5efe289981611076dd5d22fa8e5770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:23 +0000
Subject: [PATCH 15/19] fix: Newton-John tables on windows at odd word offsets
 crashed in the vector code of libm4ri

---
 src/newton_john.c |  7 ++++++
 src/newton_john.h | 61 +++++++++++++++++++++++++++++++----------------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 606a2bc..717a334 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -93,6 +93,13 @@ static inline void mzed_combine8(mzed_t *C, rci_t rc,
                                  mzed_t *T4, rci_t r4, mzed_t *T5, rci_t r5, mzed_t *T6, rci_t r6, mzed_t *T7, rci_t r7) {
   const word *t[8] = {T0->x->rows[r0], T1->x->rows[r1], T2->x->rows[r2], T3->x->rows[r3], 
                       T4->x->rows[r4], T5->x->rows[r5], T6->x->rows[r6], T7->x->rows[r7]};
+  if (__M4RI_ALIGNMENT(C->x->rows[rc], 16)) {
+    /* a window: _mzd_combine_8 requires the same alignment as in the tables */
+    word *c = C->x->rows[rc];
+    for(wi_t i=0; i<C->x->width; i++)
+      c[i] ^= t[0][i] ^ t[1][i] ^ t[2][i] ^ t[3][i] ^ t[4][i] ^ t[5][i] ^ t[6][i] ^ t[7][i];
+    return;
+  }
   _mzd_combine_8(C->x->rows[rc], t, C->x->width);
 }
 
diff --git a/src/newton_john.h b/src/newton_john.h
index 790a15c..fcd62f9 100644
--- a/src/newton_john.h
+++ b/src/newton_john.h
@@ -228,6 +228,27 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
   mzd_process_rows(M->x, startrow, endrow, startcol*M->w, M->w, T->T->x, T->L);
 }
 
+/*
+ * mzd_process_rows2 to mzd_process_rows6 read the coefficients of all columns as one word and need
+ * rows which are aligned like those of the tables. Look coefficients up one by one otherwise.
+ */
+
+static inline int _mzed_process_rows_is_simple(const mzed_t *M, const rci_t startrow, const rci_t endrow, const int n) {
+  return n*M->w <= m4ri_radix && (startrow >= endrow || __M4RI_ALIGNMENT(M->x->rows[startrow], 16) == 0);
+}
+
+static inline void _mzed_process_rows_single(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
+                                             const njt_mzed_t *T[], const int n) {
+  const wi_t block = (startcol*M->w)/m4ri_radix;
+  for(rci_t r=startrow; r<endrow; r++) {
+    rci_t x[6];
+    for(int i=0; i<n; i++)
+      x[i] = T[i]->L[mzed_read_elem(M, r, startcol+i)];
+    for(int i=0; i<n; i++)
+      mzd_combine(M->x, r, block, M->x, r, block, T[i]->T->x, x[i], block);
+  }
+}
+
 /**
  * \brief Same as mzed_process_rows but works with two Newton-John tables
  * in parallel.
@@ -244,6 +265,11 @@ static inline void mzed_process_rows(mzed_t *M, const rci_t startrow, const rci_
 
 static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol, 
                                       const njt_mzed_t *T0, const njt_mzed_t *T1) {
+  if (!_mzed_process_rows_is_simple(M, startrow, endrow, 2)) {
+    const njt_mzed_t *T[2] = {T0, T1};
+    _mzed_process_rows_single(M, startrow, endrow, startcol, T, 2);
+    return;
+  }
   mzd_process_rows2(M->x, startrow, endrow, startcol*M->w, 2*M->w, T0->T->x, T0->L, T1->T->x, T1->L);
 }
 
@@ -264,6 +290,11 @@ static inline void mzed_process_rows2(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2) {
+  if (!_mzed_process_rows_is_simple(M, startrow, endrow, 3)) {
+    const njt_mzed_t *T[3] = {T0, T1, T2};
+    _mzed_process_rows_single(M, startrow, endrow, startcol, T, 3);
+    return;
+  }
   mzd_process_rows3(M->x, startrow, endrow, startcol*M->w, 3*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L);
 }
 
@@ -285,24 +316,12 @@ static inline void mzed_process_rows3(mzed_t *M, const rci_t startrow, const rci
 
 static inline void mzed_process_rows4(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3) {
-  mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
-}
-
-/*
- * The coefficients of five or six columns do not fit in one word when elements are stored with
- * more than 12 or 10 bits each: look them up one by one.
- */
-
-static inline void _mzed_process_rows_wide(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
-                                           const njt_mzed_t *T[], const int n) {
-  const wi_t block = (startcol*M->w)/m4ri_radix;
-  for(rci_t r=startrow; r<endrow; r++) {
-    rci_t x[6];
-    for(int i=0; i<n; i++)
-      x[i] = T[i]->L[mzed_read_elem(M, r, startcol+i)];
-    for(int i=0; i<n; i++)
-      mzd_combine(M->x, r, block, M->x, r, block, T[i]->T->x, x[i], block);
+  if (!_mzed_process_rows_is_simple(M, startrow, endrow, 4)) {
+    const njt_mzed_t *T[4] = {T0, T1, T2, T3};
+    _mzed_process_rows_single(M, startrow, endrow, startcol, T, 4);
+    return;
   }
+  mzd_process_rows4(M->x, startrow, endrow, startcol*M->w, 4*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L);
 }
 
 /**
@@ -324,9 +343,9 @@ static inline void _mzed_process_rows_wide(mzed_t *M, const rci_t startrow, cons
 
 static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2, const njt_mzed_t *T3, const njt_mzed_t *T4) {
-  if (5*M->w > m4ri_radix) {
+  if (!_mzed_process_rows_is_simple(M, startrow, endrow, 5)) {
     const njt_mzed_t *T[5] = {T0, T1, T2, T3, T4};
-    _mzed_process_rows_wide(M, startrow, endrow, startcol, T, 5);
+    _mzed_process_rows_single(M, startrow, endrow, startcol, T, 5);
     return;
   }
   mzd_process_rows5(M->x, startrow, endrow, startcol*M->w, 5*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L);
@@ -354,9 +373,9 @@ static inline void mzed_process_rows5(mzed_t *M, const rci_t startrow, const rci
 static inline void mzed_process_rows6(mzed_t *M, const rci_t startrow, const rci_t endrow, const rci_t startcol,
                                       const njt_mzed_t *T0, const njt_mzed_t *T1, const njt_mzed_t *T2,
                                       const njt_mzed_t *T3, const njt_mzed_t *T4, const njt_mzed_t *T5) {
-  if (6*M->w > m4ri_radix) {
+  if (!_mzed_process_rows_is_simple(M, startrow, endrow, 6)) {
     const njt_mzed_t *T[6] = {T0, T1, T2, T3, T4, T5};
-    _mzed_process_rows_wide(M, startrow, endrow, startcol, T, 6);
+    _mzed_process_rows_single(M, startrow, endrow, startcol, T, 6);
     return;
   }
   mzd_process_rows6(M->x, startrow, endrow, startcol*M->w, 6*M->w, T0->T->x, T0->L, T1->T->x, T1->L, T2->T->x, T2->L, T3->T->x, T3->L, T4->T->x, T4->L, T5->T->x, T5->L);
-- 
2.43.0


From f48daa99fc626f662af20e90fd131d0965097fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:55 +0000
Subject: [PATCH 16/19] fix: concat and stack copied the neighbours of windows
 and cleared elements next to a destination window

---
 src/m4ri_functions.h | 50 ++++++++++++++++++++++++++++++++++++++++++++
 src/mzd_slice.h      |  4 ++--
 src/mzed.h           |  4 ++--
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/m4ri_functions.h b/src/m4ri_functions.h
index 7e399db..bb28953 100644
--- a/src/m4ri_functions.h
+++ b/src/m4ri_functions.h
@@ -94,4 +94,54 @@ static inline mzd_t *mzd_sum(mzd_t *A, const int n, ...) {
   return A;
 }
 
+/**
+ * \brief Write B to C below A, like mzd_stack.
+ *
+ * Unlike mzd_stack this function does not touch (or copy) what follows the last column of a row, i.e.
+ * any of the matrices may be a window.
+ *
+ * \param C Matrix of dimension (A->nrows + B->nrows) x A->ncols
+ * \param A Matrix
+ * \param B Matrix
+ *
+ * \ingroup Utility
+ */
+
+static inline void _mzd_stack_to(mzd_t *C, const mzd_t *A, const mzd_t *B) {
+  if (A->ncols != B->ncols || C->ncols != A->ncols || C->nrows != A->nrows + B->nrows)
+    m4ri_die("mzd_stack: dimensions of A (%d x %d), B (%d x %d) and C (%d x %d) do not match.\n",
+             A->nrows, A->ncols, B->nrows, B->ncols, C->nrows, C->ncols);
+  if (A->ncols == 0)
+    return;
+  for(rci_t i=0; i<A->nrows; i++)
+    mzd_copy_row(C, i, A, i);
+  for(rci_t i=0; i<B->nrows; i++)
+    mzd_copy_row(C, A->nrows + i, B, i);
+}
+
+/**
+ * \brief Write B to C right of A, like mzd_concat.
+ *
+ * Unlike mzd_concat this function does not touch (or copy) what follows the last column of a row, i.e.
+ * any of the matrices may be a window.
+ *
+ * \param C Matrix of dimension A->nrows x (A->ncols + B->ncols)
+ * \param A Matrix
+ * \param B Matrix
+ *
+ * \ingroup Utility
+ */
+
+static inline void _mzd_concat_to(mzd_t *C, const mzd_t *A, const mzd_t *B) {
+  if (A->nrows != B->nrows || C->nrows != A->nrows || C->ncols != A->ncols + B->ncols)
+    m4ri_die("mzd_concat: dimensions of A (%d x %d), B (%d x %d) and C (%d x %d) do not match.\n",
+             A->nrows, A->ncols, B->nrows, B->ncols, C->nrows, C->ncols);
+  for(rci_t i=0; i<A->nrows; i++) {
+    if (A->ncols)
+      mzd_copy_row(C, i, A, i);
+    for(rci_t j=0; j<B->ncols; j++)
+      mzd_write_bit(C, i, A->ncols + j, mzd_read_bit(B, i, j));
+  }
+}
+
 #endif //M4RIE_M4RI_FUNCTIONS_H
diff --git a/src/mzd_slice.h b/src/mzd_slice.h
index b8f6e70..9f56cb6 100644
--- a/src/mzd_slice.h
+++ b/src/mzd_slice.h
@@ -408,7 +408,7 @@ static inline mzd_slice_t *mzd_slice_concat(mzd_slice_t *C, const mzd_slice_t *A
     C = mzd_slice_init(A->finite_field, A->nrows, A->ncols + B->ncols);
 
   for(int i=0; i<A->depth; i++) {
-    mzd_concat(C->x[i], A->x[i], B->x[i]);
+    _mzd_concat_to(C->x[i], A->x[i], B->x[i]);
   }
   return C;
 }
@@ -435,7 +435,7 @@ static inline mzd_slice_t *mzd_slice_stack(mzd_slice_t *C, const mzd_slice_t *A,
     C = mzd_slice_init(A->finite_field, A->nrows + B->nrows, A->ncols);
 
   for(int i=0; i<A->depth; i++) {
-    mzd_stack(C->x[i], A->x[i], B->x[i]);
+    _mzd_stack_to(C->x[i], A->x[i], B->x[i]);
   }
   return C;
 }
diff --git a/src/mzed.h b/src/mzed.h
index c8e6afd..0c533c4 100644
--- a/src/mzed.h
+++ b/src/mzed.h
@@ -111,7 +111,7 @@ void mzed_free(mzed_t *A);
 static inline mzed_t *mzed_concat(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if(C==NULL)
     C = mzed_init(A->finite_field, A->nrows, A->ncols + B->ncols);
-  mzd_concat(C->x, A->x, B->x);
+  _mzd_concat_to(C->x, A->x, B->x);
   return C;
 }
 
@@ -135,7 +135,7 @@ static inline mzed_t *mzed_concat(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 static inline mzed_t *mzed_stack(mzed_t *C, const mzed_t *A, const mzed_t *B) {
   if(C==NULL)
     C = mzed_init(A->finite_field, A->nrows + B->nrows, A->ncols);
-  mzd_stack(C->x, A->x, B->x);
+  _mzd_stack_to(C->x, A->x, B->x);
   return C;
 }
 
-- 
2.43.0


From abf95e078d8b57b3a8b9179b5f05a9a27966085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:14 +0000
Subject: [PATCH 17/19] fix: release the temporary matrices of _crt_modred_mat
 and _blm_finish_polymult

---
 src/blm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index 60e3eac..48b415d 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -385,6 +385,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
@@ -502,6 +504,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   }
   mzd_free(a);
   mzd_free(b);
+  mzd_free(DT);
   mzd_free(pivots);
 
   if (ff == NULL) {
-- 
2.43.0


From 5ed3496e004e133fce49a68d620a07c67354f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 18/19] fix: mzed_make_table clears the words it is about to
 fill (it was off by one word)

---
 src/newton_john.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/newton_john.c b/src/newton_john.c
index 717a334..454b7d2 100644
--- a/src/newton_john.c
+++ b/src/newton_john.c
@@ -203,12 +203,12 @@ njt_mzed_t *mzed_make_table(njt_mzed_t *T, const mzed_t *A, const rci_t r, const
     case 0:
       break;
     default:
-    case 8: *(ti-7) = 0;
-    case 7: *(ti-6) = 0;
-    case 6: *(ti-5) = 0;
-    case 5: *(ti-4) = 0;
-    case 4: *(ti-3) = 0;
-    case 3: *(ti-2) = 0;
+    case 8: *(ti-8) = 0;
+    case 7: *(ti-7) = 0;
+    case 6: *(ti-6) = 0;
+    case 5: *(ti-5) = 0;
+    case 4: *(ti-4) = 0;
+    case 3: *(ti-3) = 0;
     case 2: *(ti-2) = 0;
     case 1: *(ti-1) = 0;
     }
-- 
2.43.0


From fe8434e72309717565ee1c41199e1668101c581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:49 +0000
Subject: [PATCH 19/19] fix: _crt_modred_mat for a factor (x-infinity)^d with d
 larger than the length

---
 src/blm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blm.c b/src/blm.c
index 48b415d..4d454a3 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -354,7 +354,7 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
 
   /* (x-infinity)^d */
   if (poly == 0) {
-    for(deg_t i=0; i<d; i++) 
+    for(deg_t i=0; i<d && i<length; i++)
       mzd_write_bit(A, i, length-i-1, 1);
     return A;
   }
-- 
2.43.0

