/* Model of the parts of libm4ri (installed only as a binary) that libm4rie
 * calls: straightforward schoolbook code over the real m4ri headers.  It is an
 * assumption of every check; tools/validate compares it with the real library
 * (same harness, same inputs, engine-concrete run against native run). */
#include <m4ri/m4ri.h>

static void set_blocks(mzd_t *A, rci_t r, rci_t c) {
  A->nrows = r; A->ncols = c; A->width = (c + m4ri_radix - 1) / m4ri_radix;
  A->rowstride = (A->width < mzd_paddingwidth || (A->width & 1) == 0) ? A->width : A->width + 1;
  A->high_bitmask = __M4RI_LEFT_BITMASK(c % m4ri_radix);
  A->flags = (A->high_bitmask != m4ri_ffff) ? mzd_flag_nonzero_excess : 0;
  A->offset_vector = 0; A->row_offset = 0; A->blockrows_log = 20;
}
mzd_t *mzd_init(rci_t r, rci_t c) {
  mzd_t *A = (mzd_t *)malloc(sizeof(mzd_t));
  set_blocks(A, r, c);
  A->rows = (word **)calloc(r + 1, sizeof(word *));
  if (r && c) {
    A->blocks = (mzd_block_t *)calloc(2, sizeof(mzd_block_t));
    A->blocks[0].size = (size_t)r * A->rowstride * sizeof(word);
    A->blocks[0].begin = (word *)calloc(1, A->blocks[0].size);
    A->blocks[0].end = A->blocks[0].begin + r * A->rowstride;
    for (rci_t i = 0; i < r; i++) A->rows[i] = A->blocks[0].begin + (size_t)i * A->rowstride;
  } else A->blocks = NULL;
  return A;
}
mzd_t *mzd_init_window(mzd_t *M, const rci_t lowr, const rci_t lowc, const rci_t highr, const rci_t highc) {
  assert((lowc % m4ri_radix) == 0);
  mzd_t *W = (mzd_t *)malloc(sizeof(mzd_t));
  rci_t nrows = MIN(highr - lowr, M->nrows - lowr), ncols = highc - lowc;
  W->nrows = nrows; W->ncols = ncols; W->rowstride = M->rowstride;
  W->width = (ncols + m4ri_radix - 1) / m4ri_radix;
  W->high_bitmask = __M4RI_LEFT_BITMASK(ncols % m4ri_radix);
  W->flags = mzd_flag_windowed_zerooffset;
  W->flags |= (ncols % m4ri_radix == 0) ? mzd_flag_windowed_zeroexcess : mzd_flag_nonzero_excess;
  W->blockrows_log = M->blockrows_log;
  W->row_offset = M->row_offset + lowr;
  W->blocks = M->blocks;
  W->offset_vector = M->offset_vector + lowc / m4ri_radix + lowr * M->rowstride;
  if (nrows) W->rows = (word **)malloc((nrows + 1) * sizeof(word *)); else W->rows = NULL;
  for (rci_t i = 0; i < nrows; i++) W->rows[i] = M->rows[lowr + i] + lowc / m4ri_radix;
  if (nrows) W->rows[nrows] = NULL;
  return W;
}
void mzd_free(mzd_t *A) {
  if (A->rows) free(A->rows);
  if (!(A->flags & (mzd_flag_windowed_zerooffset)) && A->blocks) { free(A->blocks[0].begin); free(A->blocks); }
  free(A);
}
static inline word lastmask(const mzd_t *A) { return A->high_bitmask; }
static inline word wm(const mzd_t *A, wi_t j) { return j == A->width - 1 ? A->high_bitmask : m4ri_ffff; }
static inline void put(mzd_t *C, rci_t i, wi_t j, word v) { /* masked store of word j */
  word m = wm(C, j);
  if (m == m4ri_ffff) C->rows[i][j] = v; else C->rows[i][j] = (C->rows[i][j] & ~m) | (v & m);
}
/* the library accesses the last word of every row: rows without columns make it crash */
static inline void nocols(const mzd_t *A) { if (A->nrows > 0 && A->width == 0) m4ri_die("libm4ri: matrix with rows but no columns"); }
mzd_t *_mzd_add(mzd_t *C, mzd_t const *A, mzd_t const *B) {
  rci_t nrows = MIN(MIN(A->nrows, B->nrows), C->nrows);
  for (rci_t i = 0; i < nrows; i++) for (wi_t j = 0; j < A->width; j++) put(C, i, j, A->rows[i][j] ^ B->rows[i][j]);
  return C;
}
mzd_t *mzd_add(mzd_t *C, mzd_t const *A, mzd_t const *B) {
  if (A->nrows != B->nrows || A->ncols != B->ncols) m4ri_die("mzd_add: rows and columns must match.\n");
  if (C == NULL) C = mzd_init(A->nrows, A->ncols);
  else if (C != A) { if (C->nrows != A->nrows || C->ncols != A->ncols) m4ri_die("mzd_add: rows and columns of returned matrix must match.\n"); }
  return _mzd_add(C, A, B);
}
void mzd_set_ui(mzd_t *A, unsigned int value) {
  nocols(A);
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t j = 0; j < A->width; j++) put(A, i, j, 0);
  word bit = value & 1;
  rci_t n = MIN(A->nrows, A->ncols);
  for (rci_t i = 0; i < n; i++) A->rows[i][i / m4ri_radix] |= bit << (i % m4ri_radix);
}
mzd_t *mzd_copy(mzd_t *N, mzd_t const *P) {
  if (N == P) return N;
  nocols(P);
  if (N == NULL) N = mzd_init(P->nrows, P->ncols);
  else if (N->nrows < P->nrows || N->ncols < P->ncols) m4ri_die("mzd_copy: Target matrix is too small.");
  for (rci_t i = 0; i < P->nrows; i++) for (wi_t j = 0; j < P->width; j++) {
    word m = wm(P, j);
    if (m == m4ri_ffff) N->rows[i][j] = P->rows[i][j]; else N->rows[i][j] = (N->rows[i][j] & ~m) | (P->rows[i][j] & m);
  }
  return N;
}
void mzd_copy_row(mzd_t *B, rci_t i, mzd_t const *A, rci_t j) {
  assert(B->ncols >= A->ncols);
  nocols(A);
  for (wi_t k = 0; k < A->width; k++) { word m = wm(A, k); B->rows[i][k] = (B->rows[i][k] & ~m) | (A->rows[j][k] & m); }
}
mzd_t *mzd_submatrix(mzd_t *S, mzd_t const *M, rci_t const startrow, rci_t const startcol, rci_t const endrow, rci_t const endcol) {
  rci_t nrows = endrow - startrow, ncols = endcol - startcol;
  if (S == NULL) S = mzd_init(nrows, ncols);
  else if ((S->nrows < nrows) | (S->ncols < ncols)) m4ri_die("mzd_submatrix: got S with dimension %d x %d but expected %d x %d\n", S->nrows, S->ncols, nrows, ncols);
  wi_t full = ncols / m4ri_radix; int rest = ncols % m4ri_radix;
  for (rci_t i = 0; i < nrows; i++) {
    for (wi_t j = 0; j < full; j++) S->rows[i][j] = mzd_read_bits(M, startrow + i, startcol + j * m4ri_radix, m4ri_radix);
    if (rest) { word m = __M4RI_LEFT_BITMASK(rest); word v = mzd_read_bits(M, startrow + i, startcol + full * m4ri_radix, rest); S->rows[i][full] = startcol % m4ri_radix ? ((S->rows[i][full] & ~m) | (v & m)) : (v & m); } /* the library does not keep the rest of the word in the aligned case */
  }
  return S;
}
mzd_t *mzd_concat(mzd_t *C, mzd_t const *A, mzd_t const *B) {
  if (A->nrows != B->nrows) m4ri_die("mzd_concat: Bad arguments to concat!\n");
  if (C == NULL) C = mzd_init(A->nrows, A->ncols + B->ncols);
  else if (C->nrows != A->nrows || C->ncols != (A->ncols + B->ncols)) m4ri_die("mzd_concat: C has wrong dimension!\n");
  for (rci_t i = 0; i < A->nrows; i++) {
    for (wi_t j = 0; j < A->width; j++) C->rows[i][j] = A->rows[i][j];
    for (rci_t j = 0; j < B->ncols; j++) mzd_write_bit(C, i, j + A->ncols, mzd_read_bit(B, i, j));
  }
  return C;
}
mzd_t *mzd_stack(mzd_t *C, mzd_t const *A, mzd_t const *B) {
  if (A->ncols != B->ncols) m4ri_die("mzd_stack: A->ncols (%d) != B->ncols (%d)!\n", A->ncols, B->ncols);
  if (C == NULL) C = mzd_init(A->nrows + B->nrows, A->ncols);
  else if (C->nrows != (A->nrows + B->nrows) || C->ncols != A->ncols) m4ri_die("mzd_stack: C has wrong dimension!\n");
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t j = 0; j < A->width; j++) C->rows[i][j] = A->rows[i][j];
  for (rci_t i = 0; i < B->nrows; i++) for (wi_t j = 0; j < B->width; j++) C->rows[A->nrows + i][j] = B->rows[i][j];
  return C;
}
static void addmul(mzd_t *C, mzd_t const *A, mzd_t const *B, int clear) {
  /* collect the result first: C may not alias A or B, but stay defined if it does */
  for (rci_t i = 0; i < A->nrows; i++)
    for (wi_t j = 0; j < C->width; j++) {
      word acc = clear ? 0 : C->rows[i][j];
      for (rci_t k = 0; k < A->ncols; k++) {
        word bit = (A->rows[i][k / m4ri_radix] >> (k % m4ri_radix)) & 1;
        acc ^= (0 - bit) & B->rows[k][j];
      }
      put(C, i, j, acc);
    }
}
mzd_t *mzd_mul(mzd_t *C, mzd_t const *A, mzd_t const *B, int cutoff) {
  if (A->ncols != B->nrows) m4ri_die("mzd_mul: A ncols (%d) need to match B nrows (%d).\n", A->ncols, B->nrows);
  if (cutoff < 0) m4ri_die("mzd_mul: cutoff must be >= 0.\n");
  if (C == NULL) C = mzd_init(A->nrows, B->ncols);
  else if (C->nrows != A->nrows || C->ncols != B->ncols) m4ri_die("mzd_mul: C (%d x %d) has wrong dimensions, expected (%d x %d)\n", C->nrows, C->ncols, A->nrows, B->ncols);
  if (A->ncols == 0 && A->nrows && B->ncols) m4ri_die("mzd_copy: Target matrix is too small.");
  addmul(C, A, B, 1);
  return C;
}
mzd_t *mzd_addmul(mzd_t *C, mzd_t const *A, mzd_t const *B, int cutoff) {
  if (A->ncols != B->nrows) m4ri_die("mzd_addmul: A ncols (%d) need to match B nrows (%d).\n", A->ncols, B->nrows);
  if (cutoff < 0) m4ri_die("mzd_addmul: cutoff must be >= 0.\n");
  if (C == NULL) C = mzd_init(A->nrows, B->ncols);
  else if (C->nrows != A->nrows || C->ncols != B->ncols) m4ri_die("mzd_addmul: C (%d x %d) has wrong dimensions, expected (%d x %d)\n", C->nrows, C->ncols, A->nrows, B->ncols);
  addmul(C, A, B, 0);
  return C;
}
mzd_t *mzd_transpose(mzd_t *D, mzd_t const *A) {
  if (D == NULL) D = mzd_init(A->ncols, A->nrows);
  else if (D->nrows != A->ncols || D->ncols != A->nrows) m4ri_die("mzd_transpose: Wrong size for return matrix.\n");
  for (rci_t i = 0; i < A->nrows; i++) for (rci_t j = 0; j < A->ncols; j++) mzd_write_bit(D, j, i, mzd_read_bit(A, i, j));
  return D;
}
int mzd_equal(mzd_t const *A, mzd_t const *B) {
  if (A->nrows != B->nrows) return FALSE;
  if (A->ncols != B->ncols) return FALSE;
  if (A == B) return TRUE;
  nocols(A);
  word d = 0;
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t j = 0; j < A->width; j++) d |= (A->rows[i][j] ^ B->rows[i][j]) & wm(A, j);
  return d == 0;
}
/* the sign for unequal matrices is not modelled */
int mzd_cmp(mzd_t const *A, mzd_t const *B) {
  if (A->nrows < B->nrows) return -1;
  if (B->nrows < A->nrows) return 1;
  if (A->ncols < B->ncols) return -1;
  if (B->ncols < A->ncols) return 1;
  return !mzd_equal(A, B);
}
int mzd_is_zero(mzd_t const *A) {
  nocols(A);
  word d = 0;
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t j = 0; j < A->width; j++) d |= A->rows[i][j] & wm(A, j);
  return d == 0;
}
/* ---- permutations */
mzp_t *mzp_init(rci_t length) {
  mzp_t *P = (mzp_t *)malloc(sizeof(mzp_t));
  P->values = (rci_t *)malloc(sizeof(rci_t) * length); P->length = length;
  for (rci_t i = 0; i < length; i++) P->values[i] = i;
  return P;
}
void mzp_free(mzp_t *P) { free(P->values); free(P); }
mzp_t *mzp_init_window(mzp_t *P, rci_t begin, rci_t end) {
  mzp_t *W = (mzp_t *)malloc(sizeof(mzp_t)); W->values = P->values + begin; W->length = end - begin; return W;
}
void mzp_free_window(mzp_t *P) { free(P); }
static void swap_rows(mzd_t *A, rci_t a, rci_t b) {
  if (a == b) return;
  for (wi_t j = 0; j < A->width; j++) { word m = wm(A, j), t = (A->rows[a][j] ^ A->rows[b][j]) & m; A->rows[a][j] ^= t; A->rows[b][j] ^= t; }
}
void mzd_apply_p_left(mzd_t *A, mzp_t const *P) {
  if (A->ncols == 0) return;
  rci_t n = MIN(P->length, A->nrows);
  for (rci_t i = 0; i < n; i++) swap_rows(A, i, P->values[i]);
}
void mzd_apply_p_left_trans(mzd_t *A, mzp_t const *P) {
  if (A->ncols == 0) return;
  rci_t n = MIN(P->length, A->nrows);
  for (rci_t i = n - 1; i >= 0; i--) swap_rows(A, i, P->values[i]);
}
void mzd_apply_p_right(mzd_t *A, mzp_t const *P) {
  if (A->nrows == 0) return;
  nocols(A);
  rci_t n = MIN(P->length, A->ncols);
  for (rci_t i = n - 1; i >= 0; i--) mzd_col_swap_in_rows(A, i, P->values[i], 0, A->nrows);
}
void mzd_apply_p_right_trans(mzd_t *A, mzp_t const *P) {
  if (A->nrows == 0) return;
  nocols(A);
  rci_t n = MIN(P->length, A->ncols);
  for (rci_t i = 0; i < n; i++) mzd_col_swap_in_rows(A, i, P->values[i], 0, A->nrows);
}
void mzd_apply_p_right_trans_tri(mzd_t *A, mzp_t const *P) {
  assert(P->length == A->ncols);
  for (rci_t i = 0; i < A->ncols; i++) mzd_col_swap_in_rows(A, i, P->values[i], 0, MIN(A->nrows, i));
}
/* like the library, clears whole words after the moved columns (also past the end of a window) */
void _mzd_compress_l(mzd_t *A, rci_t r1, rci_t n1, rci_t r2) {
  if (r1 == n1) return;
  for (rci_t i = r1, j = n1; i < r1 + r2; i++, j++) mzd_col_swap_in_rows(A, i, j, i, r1 + r2);
  for (rci_t i = r1 + r2; i < A->nrows; i++) {
    rci_t j = r1; word *row = A->rows[i];
    int rest = m4ri_radix - (j % m4ri_radix);
    mzd_xor_bits(A, i, j, rest, mzd_read_bits(A, i, j, rest) ^ mzd_read_bits(A, i, n1, rest));
    j += rest;
    for (; j + m4ri_radix <= r1 + r2; j += m4ri_radix) row[j / m4ri_radix] = mzd_read_bits(A, i, n1 + j - r1, m4ri_radix);
    if (j < r1 + r2) { int k = r1 + r2 - j; word t = mzd_read_bits(A, i, n1 + j - r1, k); row[j / m4ri_radix] = t; }
    j = r1 + r2;
    mzd_clear_bits(A, i, j, m4ri_radix - (j % m4ri_radix));
    j += m4ri_radix - (j % m4ri_radix);
    for (; j < n1 + r2; j += m4ri_radix) row[j / m4ri_radix] = 0;
  }
}
/* ---- table driven row processing */
static void process(mzd_t *M, rci_t startrow, rci_t stoprow, rci_t startcol, int k, int n, mzd_t const **T, rci_t const **L) {
  int kk[6]; int rem = k % n;
  for (int i = 0; i < n; i++) kk[i] = k / n + ((i < rem) ? 1 : 0);
  if (n == 2) { kk[0] = k / 2; kk[1] = k - k / 2; }
  wi_t block = startcol / m4ri_radix;
  for (rci_t r = startrow; r < stoprow; r++) {
    word bits = mzd_read_bits(M, r, startcol, k);
    word *m = M->rows[r];
    word const *t[6]; rci_t any = 0;
    for (int i = 0; i < n; i++) { rci_t x = L[i][bits & ((m4ri_one << kk[i]) - 1)]; bits >>= kk[i]; t[i] = T[i]->rows[x]; any |= x; }
    /* the SSE2 code of the library requires rows of the same alignment as soon as a vector is loaded */
    if (n > 1) for (int i = 0; i < n; i++) if ((((unsigned long)(m + block)) ^ ((unsigned long)(t[i] + block))) & 8) if (M->width - block - (((unsigned long)(m + block) & 8) != 0) >= 2) if (any) m4ri_die("libm4ri: misaligned vector access in mzd_process_rows");
    for (wi_t j = block; j < M->width; j++) { word v = m[j]; for (int i = 0; i < n; i++) v ^= t[i][j]; m[j] = v; }
  }
}
void mzd_process_rows(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0) { mzd_t const *T[1] = {T0}; rci_t const *L[1] = {L0}; process(M, a, b, c, k, 1, T, L); }
void mzd_process_rows2(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0, mzd_t const *T1, rci_t const *L1) { mzd_t const *T[2] = {T0, T1}; rci_t const *L[2] = {L0, L1}; process(M, a, b, c, k, 2, T, L); }
void mzd_process_rows3(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0, mzd_t const *T1, rci_t const *L1, mzd_t const *T2, rci_t const *L2) { mzd_t const *T[3] = {T0, T1, T2}; rci_t const *L[3] = {L0, L1, L2}; process(M, a, b, c, k, 3, T, L); }
void mzd_process_rows4(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0, mzd_t const *T1, rci_t const *L1, mzd_t const *T2, rci_t const *L2, mzd_t const *T3, rci_t const *L3) { mzd_t const *T[4] = {T0, T1, T2, T3}; rci_t const *L[4] = {L0, L1, L2, L3}; process(M, a, b, c, k, 4, T, L); }
void mzd_process_rows5(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0, mzd_t const *T1, rci_t const *L1, mzd_t const *T2, rci_t const *L2, mzd_t const *T3, rci_t const *L3, mzd_t const *T4, rci_t const *L4) { mzd_t const *T[5] = {T0, T1, T2, T3, T4}; rci_t const *L[5] = {L0, L1, L2, L3, L4}; process(M, a, b, c, k, 5, T, L); }
void mzd_process_rows6(mzd_t *M, rci_t a, rci_t b, rci_t c, int k, mzd_t const *T0, rci_t const *L0, mzd_t const *T1, rci_t const *L1, mzd_t const *T2, rci_t const *L2, mzd_t const *T3, rci_t const *L3, mzd_t const *T4, rci_t const *L4, mzd_t const *T5, rci_t const *L5) { mzd_t const *T[6] = {T0, T1, T2, T3, T4, T5}; rci_t const *L[6] = {L0, L1, L2, L3, L4, L5}; process(M, a, b, c, k, 6, T, L); }
/* ---- small dense helpers used on constant matrices only */
mzd_t *mzd_inv_m4ri(mzd_t *B, mzd_t const *A, int k) {
  rci_t n = A->nrows;
  if (B == NULL) B = mzd_init(n, n);
  mzd_t *T = mzd_copy(NULL, A);
  mzd_set_ui(B, 1);
  for (rci_t i = 0; i < n; i++) {
    rci_t p = i;
    while (p < n && !mzd_read_bit(T, p, i)) p++;
    if (p == n) { mzd_free(T); return NULL; }
    swap_rows(T, i, p); swap_rows(B, i, p);
    for (rci_t j = 0; j < n; j++) if (j != i && mzd_read_bit(T, j, i)) {
      for (wi_t w = 0; w < T->width; w++) { T->rows[j][w] ^= T->rows[i][w]; B->rows[j][w] ^= B->rows[i][w]; }
    }
  }
  mzd_free(T);
  return B;
}
rci_t mzd_ple(mzd_t *A, mzp_t *P, mzp_t *Q, int const cutoff) {
  rci_t r = 0, c = 0;
  for (rci_t i = 0; i < P->length; i++) P->values[i] = i;
  for (rci_t i = 0; i < Q->length; i++) Q->values[i] = i;
  while (r < A->nrows && c < A->ncols) {
    rci_t i, j; int found = 0;
    for (j = c; j < A->ncols && !found; j++) for (i = r; i < A->nrows; i++) if (mzd_read_bit(A, i, j)) { found = 1; break; }
    if (!found) break;
    j--;
    P->values[r] = i; Q->values[r] = j;
    swap_rows(A, r, i);
    for (rci_t k = r + 1; k < A->nrows; k++) if (mzd_read_bit(A, k, j)) {
      for (rci_t l = j + 1; l < A->ncols; l++) mzd_write_bit(A, k, l, mzd_read_bit(A, k, l) ^ mzd_read_bit(A, r, l));
    }
    r++; c = j + 1;
  }
  for (rci_t i = r; i < A->nrows && i < P->length; i++) P->values[i] = i;
  for (rci_t i = r; i < Q->length; i++) Q->values[i] = i;
  for (rci_t j = 0; j < r; j++) mzd_col_swap_in_rows(A, Q->values[j], j, j, A->nrows);
  return r;
}
int m4ri_opt_k(int a, int b, int c) {
  int n = MIN(a, b);
  int res = (int)(0.75 * (1 + log2_floor(n)));
  if (res < 1) res = 1;
  if (res > __M4RI_MAXKAY) res = __M4RI_MAXKAY;
  return res;
}
code **m4ri_codebook = NULL;
void m4ri_build_all_codes(void) {
  if (m4ri_codebook) return;
  m4ri_codebook = (code **)calloc(__M4RI_MAXKAY + 1, sizeof(code *));
  for (int k = 1; k <= __M4RI_MAXKAY; k++) {
    m4ri_codebook[k] = (code *)calloc(1, sizeof(code));
    int *ord = (int *)calloc(1 << k, sizeof(int)), *inc = (int *)calloc(1 << k, sizeof(int));
    for (int n = 1; n < (1 << k); n++) { int t = 0; while (!(n >> t & 1)) t++; inc[n - 1] = t; ord[n] = n ^ (n >> 1); }
    inc[(1 << k) - 1] = k - 1;
    m4ri_codebook[k]->ord = ord; m4ri_codebook[k]->inc = inc;
  }
}
/* ---- straight line programs for linear maps: any program computing A*V is a valid model */
static int row_lt(mzd_t *A, rci_t a, rci_t b) { for (wi_t j = A->width - 1; j >= 0; j--) { word x = A->rows[a][j], y = A->rows[b][j]; if (x != y) return x < y; } return 0; }
djb_t *djb_compile(mzd_t *A) {
  rci_t m = A->nrows, n = A->ncols;
  djb_t *z = djb_init(m, n);
  while (n > 0) {
    rci_t t = -1, s = -1;
    for (rci_t i = 0; i < m; i++) if (mzd_read_bit(A, i, n - 1)) { if (t < 0 || row_lt(A, t, i)) { s = t; t = i; } else if (s < 0 || row_lt(A, s, i)) s = i; }
    if (t < 0) { n--; continue; }
    if (s >= 0) { for (wi_t w = 0; w < A->width; w++) A->rows[t][w] ^= A->rows[s][w]; djb_push_back(z, t, s, source_target); }
    else { mzd_write_bit(A, t, n - 1, 0); djb_push_back(z, t, n - 1, source_source); }
  }
  return z;
}
void mzd_randomize(mzd_t *A) {
  extern word m4ri_random_word(void);
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t j = 0; j < A->width; j++) put(A, i, j, m4ri_random_word());
}
/* ---- further entry points with the semantics of the library */
rci_t mzd_first_zero_row(mzd_t const *A) { /* with one word per row the excess bits are included, as in libm4ri */
  wi_t end = A->width - 1;
  for (rci_t i = A->nrows - 1; i >= 0; i--) {
    word t = A->rows[i][0];
    for (wi_t j = 1; j < end; j++) t |= A->rows[i][j];
    t |= A->rows[i][end] & lastmask(A);
    if (t) return i + 1;
  }
  return 0;
}
void mzd_col_swap(mzd_t *M, rci_t const a, rci_t const b) { mzd_col_swap_in_rows(M, a, b, 0, M->nrows); }
void mzd_row_add(mzd_t *M, rci_t const source, rci_t const dest) { mzd_row_add_offset(M, dest, source, 0); }
void mzd_row_clear_offset(mzd_t *M, rci_t const row, rci_t const coloffset) {
  for (rci_t j = coloffset; j < M->ncols; j++) mzd_write_bit(M, row, j, 0);
}
mzd_t *mzd_mul_naive(mzd_t *C, mzd_t const *A, mzd_t const *B) { return mzd_mul(C, A, B, 0); }
mzd_t *mzd_addmul_naive(mzd_t *C, mzd_t const *A, mzd_t const *B) { return mzd_addmul(C, A, B, 0); }
mzd_t *mzd_mul_m4rm(mzd_t *C, mzd_t const *A, mzd_t const *B, int k) { return mzd_mul(C, A, B, 0); }
mzd_t *mzd_addmul_m4rm(mzd_t *C, mzd_t const *A, mzd_t const *B, int k) { return mzd_addmul(C, A, B, 0); }
mzd_t *_mzd_addmul(mzd_t *C, mzd_t const *A, mzd_t const *B, int cutoff) { return mzd_addmul(C, A, B, cutoff); }
mzd_t *_mzd_mul_m4rm(mzd_t *C, mzd_t const *A, mzd_t const *B, int k, int clear) { addmul(C, A, B, clear); return C; }
mzd_t *_mzd_mul_naive(mzd_t *C, mzd_t const *A, mzd_t const *B, const int clear) { mzd_t *T = mzd_transpose(NULL, B); addmul(C, A, T, clear); mzd_free(T); return C; }
mzp_t *mzp_copy(mzp_t *P, mzp_t const *Q) {
  if (P == NULL) P = mzp_init(Q->length);
  for (rci_t i = 0; i < Q->length; i++) P->values[i] = Q->values[i];
  return P;
}
void mzp_set_ui(mzp_t *P, unsigned int value) { for (rci_t i = 0; i < P->length; i++) P->values[i] = i; }
int mzd_find_pivot(mzd_t const *M, rci_t sr, rci_t sc, rci_t *r, rci_t *c) {
  for (rci_t j = sc; j < M->ncols; j++) for (rci_t i = sr; i < M->nrows; i++) if (mzd_read_bit(M, i, j)) { *r = i; *c = j; return 1; }
  return 0;
}
rci_t mzd_echelonize(mzd_t *A, int full) {
  rci_t r = 0;
  for (rci_t c = 0; c < A->ncols && r < A->nrows; c++) {
    rci_t p = r; while (p < A->nrows && !mzd_read_bit(A, p, c)) p++;
    if (p == A->nrows) continue;
    swap_rows(A, r, p);
    for (rci_t i = full ? 0 : r + 1; i < A->nrows; i++) if (i != r && mzd_read_bit(A, i, c)) mzd_row_add_offset(A, i, r, c);
    r++;
  }
  return r;
}
rci_t mzd_echelonize_naive(mzd_t *A, int full) { return mzd_echelonize(A, full); }
rci_t mzd_gauss_delayed(mzd_t *M, rci_t startcol, int full) { (void)startcol; return mzd_echelonize(M, full); }
mzd_t *mzd_invert_naive(mzd_t *INV, mzd_t const *A, mzd_t const *I) { return mzd_inv_m4ri(INV, A, 0); }
void m4ri_destroy_all_codes(void) {
  if (!m4ri_codebook) return;
  for (int k = 1; k <= __M4RI_MAXKAY; k++) { free(m4ri_codebook[k]->inc); free(m4ri_codebook[k]->ord); free(m4ri_codebook[k]); }
  free(m4ri_codebook); m4ri_codebook = NULL;
}
void m4ri_init(void) { m4ri_build_all_codes(); }
void m4ri_fini(void) { m4ri_destroy_all_codes(); }
/* used by no code of the pinned tree */
void *m4ri_mmc_malloc(size_t size) { return malloc(size); }
void m4ri_mmc_free(void *p, size_t size) { (void)size; free(p); }
void m4ri_mmc_cleanup(void) {}
