/* Elimination: echelon forms, PLE, PLUQ, triangular solving, inversion, Newton-John tables. */
#include "x.h"
static u64 nz(u64 v) { return sym_cond_fork(v != 0); }
/* the m x n input.  F 0: all entries symbolic.  F 1..4: A = L R with L concrete of full column rank r and R in row echelon form
 * with pivots 1 in chosen columns; R's other entries are symbolic except in pivot columns (F 1), on one in 16 places (F 2),
 * everywhere right of the pivot (F 3).  F 4: concrete.  F 5: like 4 with two symbolic entries (also where pivots are sought).
 * F 8: like 2 with all numbers in GF(2) and the result scaled by the (seed mod e)-th power of the generator.
 * F 6: like 1, but the rows of A are the rows of R scaled and shuffled, so L has one entry per row. */
static E src_(const gf2e *ff, int m, int n, int F, int r, int seed, const char *nm) {
  int e = (int)ff->degree, eb = F == 8 ? 1 : e; u64 mk = (1ULL << eb) - 1; if (F == 0) return e_fill(ff, m, n, 0, nm);
  h_seed((u64)seed * 1000 + m * 31 + n * 7 + r); if (r > m) r = m; if (r > n) r = n;
  int *pv = (int *)h_calloc(r + 1, sizeof(int)), *isp = (int *)h_calloc(n + 1, sizeof(int));
  /* pivots: seed%4 0 leftmost, 1 rightmost, 2 spread at random, 3 leftmost but the last one in the last column */
  int k = 0;
  if (seed % 4 == 2) { int left = n; for (int j = 0; j < n && k < r; j++, left--) if ((int)(h_rand() % (u64)left) < r - k) pv[k++] = j; }
  else for (; k < r; k++) pv[k] = seed % 4 == 1 ? n - r + k : (seed % 4 == 3 && k == r - 1) ? n - 1 : k;
  for (k = 0; k < r; k++) isp[pv[k]] = 1;
  E R = e_new(r, n), L = e_new(m, r);
  for (k = 0; k < r; k++) for (int j = pv[k]; j < n; j++) {
    u64 v = h_rand() & mk, q = h_rand() >> 60;
    if (j == pv[k]) v = 1; else if (F == 3 || (F != 4 && F != 5 && !isp[j] && ((F != 2 && F != 8) || q == 0))) v = sym_bits(eb, nm);
    else if (q & 1) v = 0;
    AT(R, k, j) = v;
  }
  /* L: a lower triangular r x r block with nonzero diagonal, further rows random, then rows shuffled */
  for (int i = 0; i < m; i++) for (k = 0; k < r; k++) AT(L, i, k) = F == 6 ? (i == k ? 1 + h_rand() % mk : 0) : i < r && k > i ? 0 : (i == k) ? 1 + h_rand() % mk : (h_rand() >> 62) ? h_rand() & mk : 0;
  for (int i = m - 1; i > 0; i--) if (seed & 4) { int t = (int)(h_rand() % (u64)(i + 1)); for (k = 0; k < r; k++) { u64 v = AT(L, i, k); AT(L, i, k) = AT(L, t, k); AT(L, t, k) = v; } }
  E A = e_new(m, n); for (int i = 0; i < m; i++) for (k = 0; k < r; k++) if (AT(L, i, k)) for (int j = pv[k]; j < n; j++) AT(A, i, j) ^= h_mul(ff, AT(L, i, k), AT(R, k, j));
  if (F == 5) for (int t = 0; t < 2; t++) { int i = (int)(h_rand() % (u64)m), j = (int)(h_rand() % (u64)n); AT(A, i, j) = sym_bits(e, nm); }
  if (F == 8) for (int i = 0; i < m * n; i++) A.v[i] <<= seed % e;
  e_free(R); e_free(L); h_free(pv); h_free(isp); return A;
}
/* reference: reduced row echelon form in place, returns the rank, pivot columns in pv */
static int rref(const gf2e *ff, E a, int *pv) {
  int r = 0;
  for (int c = 0; c < a.n && r < a.m; c++) {
    int i = r; for (; i < a.m; i++) if (nz(AT(a, i, c))) break;
    if (i == a.m) continue;
    u64 p = sym_concrete(AT(a, i, c)), q = h_inv(ff, p);
    for (int j = 0; j < a.n; j++) { u64 t = AT(a, i, j); AT(a, i, j) = AT(a, r, j); AT(a, r, j) = j < c ? t : h_mul(ff, q, t); }
    for (i = 0; i < a.m; i++) if (i != r) { u64 f = AT(a, i, c); for (int j = c; j < a.n; j++) AT(a, i, j) ^= h_mul(ff, f, AT(a, r, j)); }
    pv[r++] = c;
  }
  return r;
}
/* 0 e 1 k 2 rep 3 win 4 m 5 n 6 F 7 alg 8 full 9 r 10 seed */
void ech(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), alg = PAR(7), full = PAR(8); gf2e *ff = h_field(e, PAR(1));
  E a = src_(ff, m, n, PAR(6), PAR(9), PAR(10), "A"); X x = x_new(ff, rep, PAR(3), a); int *pv = (int *)h_calloc(n + 1, sizeof(int));
  rci_t rk = 0;
  switch (alg) {
  case 0: rk = mzed_echelonize_naive(x.m, full); break;
  case 1: rk = mzed_echelonize_newton_john(x.m, full); break;
  case 2: rk = mzed_echelonize_ple(x.m, full); break;
  case 3: rk = mzed_echelonize(x.m, full); break;
  case 4: rk = mzd_slice_echelonize_ple(x.z, full); break;
  case 5: rk = mzd_slice_echelonize(x.z, full); break;
  }
  E q = e_dup(a); int r = rref(ff, q, pv); E c = x_get(x);
  if (!MODE_CLEAN_ONLY) {
    sym_assert_eq((u64)rk, (u64)r, "rank", 0, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i >= r || j < pv[i]) sym_assert_eq(AT(c, i, j), 0, "echelon form: zero expected", i, j); else if (j == pv[i]) sym_assert_eq(AT(c, i, j), 1, "echelon form: leading one expected", i, j);
    if (full) eq_e(c, q, "reduced echelon form");
    else {
      for (int i = r - 1; i > 0; i--) for (int k = 0; k < i; k++) { u64 f = AT(c, k, pv[i]); for (int j = pv[i]; j < n; j++) AT(c, k, j) ^= h_mul(ff, f, AT(c, i, j)); }
      eq_e(c, q, "row space of the echelon form");
    }
  } else x_canon(x, "non-canonical element");
  x_outside(x, "element outside the window changed"); x_clean(x, "stray bits outside the elements"); x_free(x);
}
/* 7 alg (0 naive 1 newton-john 2 _mzed_ple 3 _mzd_slice_ple 4 mzed_ple 5 mzd_slice_ple 6 _mzd_slice_pluq 7 mzd_slice_pluq) 8 cutoff 9 r 10 seed */
void ple(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), alg = PAR(7), cut = PAR(8); gf2e *ff = h_field(e, PAR(1));
  E a = src_(ff, m, n, PAR(6), PAR(9), PAR(10), "A"); X x = x_new(ff, rep, PAR(3), a); int *pv = (int *)h_calloc(n + 1, sizeof(int));
  mzp_t *P = mzp_init(m), *Q = mzp_init(n); rci_t rk = 0;
  switch (alg) {
  case 0: rk = mzed_ple_naive(x.m, P, Q); break;
  case 1: rk = mzed_ple_newton_john(x.m, P, Q); break;
  case 2: rk = _mzed_ple(x.m, P, Q, cut); break;
  case 3: rk = _mzd_slice_ple(x.z, P, Q, cut); break;
  case 4: rk = mzed_ple(x.m, P, Q); break;
  case 5: rk = mzd_slice_ple(x.z, P, Q); break;
  case 6: rk = _mzd_slice_pluq(x.z, P, Q, cut); break;
  case 7: rk = mzd_slice_pluq(x.z, P, Q); break;
  }
  x_outside(x, "element outside the window changed"); x_clean(x, "stray bits outside the elements");
  if (!MODE_CLEAN_ONLY) {
    E q = e_dup(a); int r = rref(ff, q, pv); E c = x_get(x);
    sym_assert_eq((u64)rk, (u64)r, "rank", 0, 0);
    for (int i = 0; i < m; i++) sym_assert(P->values[i] >= i && P->values[i] < m, "P: entry out of range");
    for (int i = 0; i < n; i++) sym_assert(Q->values[i] >= i && Q->values[i] < n, "Q: entry out of range");
    for (int i = 0; i < r; i++) sym_assert_eq((u64)Q->values[i], (u64)pv[i], "Q: pivot column", i, 0);
    for (int i = 0; i < m; i++) if (P->values[i] != i) for (int j = 0; j < n; j++) { u64 t = AT(a, i, j); AT(a, i, j) = AT(a, P->values[i], j); AT(a, P->values[i], j) = t; }
    E L = e_new(m, r), U = e_new(r, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < r && j <= i; j++) AT(L, i, j) = AT(c, i, j);
    for (int i = 0; i < r; i++) sym_assert(AT(L, i, i) != 0, "L: zero on the diagonal");
    for (int i = 0; i < r; i++) for (int j = alg < 6 ? pv[i] : i; j < n; j++) AT(U, i, j) = j == (alg < 6 ? pv[i] : i) ? 1 : AT(c, i, j);
    for (int i = r; i < m; i++) for (int j = r; j < n; j++) sym_assert_eq(AT(c, i, j), 0, "rows below the rank", i, j);
    if (alg >= 6) for (int k = n - 1; k >= 0; k--) if (Q->values[k] != k) for (int i = 0; i < r; i++) { u64 t = AT(U, i, k); AT(U, i, k) = AT(U, i, Q->values[k]); AT(U, i, Q->values[k]) = t; }
    eq_e(e_mul(ff, L, U), a, alg < 6 ? "L E = P A" : "L U Q = P A");
  } else x_canon(x, "non-canonical element");
  mzp_free(P); mzp_free(Q); x_free(x);
}
/* 4 n 5 columns of B 6 upper? 7 alg (0 naive 1 newton-john 2 recursive with cutoff 3 default) 8 cutoff 9 fill of the triangle 10 fill of B 11 diagonal (0 concrete 1 symbolic nonzero 2 one) 12 window of L 13 other triangle nonzero */
void trsm(void) {
  int e = PAR(0), rep = PAR(2), n = PAR(4), nb = PAR(5), up = PAR(6), alg = PAR(7), cut = PAR(8); gf2e *ff = h_field(e, PAR(1));
  u64 mk = (1ULL << e) - 1; E l = e_new(n, n), z = e_new(n, n), b = e_fill(ff, n, nb, PAR(10), "B");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    u64 v; if (i == j) { if (PAR(11) == 2) v = 1; else if (PAR(11)) { v = sym_bits(e, "D"); sym_assume(v != 0); } else v = 1 + h_rand() % mk; }
    else if (up ? j > i : j < i) v = h_entry(e, PAR(9), "T", i, j, n);
    else v = PAR(13) ? h_rand() & mk : 0;
    AT(l, i, j) = v; if (i == j || (up ? j > i : j < i)) AT(z, i, j) = v;
  }
  X L = x_new(ff, rep, PAR(12), l), B = x_new(ff, rep, PAR(3), b);
  switch (alg + 4 * up) {
  case 0: X_GO(L, mzed_trsm_lower_left_naive(L.m, B.m), mzd_slice_trsm_lower_left_naive(L.z, B.z)); break;
  case 1: X_GO(L, mzed_trsm_lower_left_newton_john(L.m, B.m), mzd_slice_trsm_lower_left_newton_john(L.z, B.z)); break;
  case 2: X_GO(L, _mzed_trsm_lower_left(L.m, B.m, cut), _mzd_slice_trsm_lower_left(L.z, B.z, cut)); break;
  case 3: X_GO(L, mzed_trsm_lower_left(L.m, B.m), mzd_slice_trsm_lower_left(L.z, B.z)); break;
  case 4: X_GO(L, mzed_trsm_upper_left_naive(L.m, B.m), mzd_slice_trsm_upper_left_naive(L.z, B.z)); break;
  case 5: X_GO(L, mzed_trsm_upper_left_newton_john(L.m, B.m), mzd_slice_trsm_upper_left_newton_john(L.z, B.z)); break;
  case 6: X_GO(L, _mzed_trsm_upper_left(L.m, B.m, cut), _mzd_slice_trsm_upper_left(L.z, B.z, cut)); break;
  case 7: X_GO(L, mzed_trsm_upper_left(L.m, B.m), mzd_slice_trsm_upper_left(L.z, B.z)); break;
  }
  x_chk(L, l, "the triangular matrix changed");
  if (PAR(9) == 14) { unsigned char *nz = (unsigned char *)h_calloc((size_t)n * n, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) nz[(size_t)i * n + j] = i == j || (!(i % 73 && i % 64 != 63) && !(j % 97 && j % 64 != 61)); h_nz = nz; }
  if (!MODE_CLEAN_ONLY) eq_e(e_mul(ff, z, x_get(B)), b, "triangular matrix times solution");
  else x_canon(B, "non-canonical element");
  x_outside(B, "element outside the window changed"); x_clean(B, "stray bits outside the elements"); x_free(L); x_free(B);
}
/* 3 win 4 n 6 F 7 destination (0 NULL, 1 given with arbitrary contents) 8 seed 9 window of the destination 10 rank defect: a singular matrix must be rejected */
void inv(void) {
  int e = PAR(0), n = PAR(4), F = PAR(6); gf2e *ff = h_field(e, PAR(1));
  E a = src_(ff, n, n, F, n - PAR(10), PAR(8), "A");
  int sing = 0; if (F == 0 || F == 5 || PAR(10)) { E q = e_dup(a); int *pv = (int *)h_calloc(n + 1, sizeof(int)); sing = rref(ff, q, pv) < n; h_free(pv); }
  X A = x_new(ff, 0, PAR(3), a); E d = e_fill(ff, n, n, 1, "B"); X B; memset(&B, 0, sizeof B); if (PAR(7)) B = x_new(ff, 0, PAR(9), d);
  sym_expect_die(sing);
  mzed_t *R = mzed_invert_newton_john(PAR(7) ? B.m : NULL, A.m); if (sing) return;
  if (PAR(7)) sym_assert(R == B.m, "returns the destination"); else B = x_wrap_m(R);
  x_chk(A, a, "the argument changed");
  if (!MODE_CLEAN_ONLY) { E b = x_get(B); E id = e_id(n); eq_e(e_mul(ff, a, b), id, "A times its inverse"); eq_e(e_mul(ff, b, a), id, "the inverse times A"); } else x_canon(B, "non-canonical element");
  x_outside(B, "element outside the window changed"); x_clean(B, "stray bits outside the elements"); x_free(A); x_free(B);
}
/* Newton-John table of one row: 3 win 5 n 6 fill 7 c (-1 symbolic) 8 table (0 fresh, 1 used before for another row and a column two to three words to the left, 2 to the right, 3 eight words to the left) */
void njt(void) {
  int e = PAR(0), n = PAR(5); gf2e *ff = h_field(e, PAR(1)); E a = e_fill(ff, 3, n, PAR(6), "A"); X x = x_new(ff, 0, PAR(3), a);
  int c = PAR(7) < 0 ? h_idx(0, n, "column") : PAR(7), w = h_w(e); njt_mzed_t *T = NULL, *T0;
  if (PAR(8)) { E z = e_fill(ff, 3, n, 1, "Z"); X y = x_new(ff, 0, 0, z); int c0 = PAR(8) == 1 ? (c > 140 / w ? c - 140 / w : 0) : PAR(8) == 3 ? (c > 512 / w ? c - 512 / w : 0) : c + (n - c) / 2; T = mzed_make_table(NULL, y.m, 2, c0); x_free(y); }
  T0 = T; T = mzed_make_table(T, x.m, 1, c); if (T0) sym_assert(T == T0, "returns the table");
  sym_assert(T->T->nrows == 1 << e && T->T->ncols == n, "size of the table");
  int from = 0; /* a table used before is cleared at most eight words to the left, which is as far as it was used in all cases here */
  for (int v = 0; v < 1 << e; v++) { int r = T->L[v]; sym_assert(r >= 0 && r < 1 << e, "table index");
    if (e > 8 && v % 97 && (v & (v - 1))) continue; for (int j = from; j < n; j++) sym_assert_eq(ger(T->T, r, j), j < c ? 0 : h_mul(ff, (u64)v, AT(a, 1, j)), "multiple of the row", v, j); }
  clean_m(T->T, "stray bits in the table"); x_chk(x, a, "the matrix changed"); njt_mzed_free(T); x_free(x);
}
/* process_rows: 3 win 4 m 5 n 6 fill 7 number of tables 8 c 9 startrow 10 endrow 11 unit (the tables' rows have 1 in their own pivot column and 0 in the other pivot columns) */
void prow(void) {
  int e = PAR(0), m = PAR(4), n = PAR(5), k = PAR(7), c = PAR(8), r0 = PAR(9), r1 = PAR(10), w = h_w(e); gf2e *ff = h_field(e, PAR(1)); (void)w;
  E a = e_fill(ff, m, n, PAR(6), "A"), t = e_fill(ff, k, n, PAR(11) ? PAR(11) : 1, "T"); for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) if (j < c + i) AT(t, i, j) = 0;
  X x = x_new(ff, 0, PAR(3), a), y = x_new(ff, 0, 0, t); njt_mzed_t *T[6];
  for (int i = 0; i < k; i++) T[i] = mzed_make_table(NULL, y.m, i, c + i);
  switch (k) {
  case 1: mzed_process_rows(x.m, r0, r1, c, T[0]); break;
  case 2: mzed_process_rows2(x.m, r0, r1, c, T[0], T[1]); break;
  case 3: mzed_process_rows3(x.m, r0, r1, c, T[0], T[1], T[2]); break;
  case 4: mzed_process_rows4(x.m, r0, r1, c, T[0], T[1], T[2], T[3]); break;
  case 5: mzed_process_rows5(x.m, r0, r1, c, T[0], T[1], T[2], T[3], T[4]); break;
  case 6: mzed_process_rows6(x.m, r0, r1, c, T[0], T[1], T[2], T[3], T[4], T[5]); break;
  }
  E q = e_dup(a); for (int i = r0; i < r1; i++) for (int s = 0; s < k; s++) for (int j = c + s; j < n; j++) AT(q, i, j) ^= h_mul(ff, AT(a, i, c + s), AT(t, s, j));
  x_chk(x, q, "rows plus multiples of the table rows"); x_chk(y, t, "source changed"); for (int i = 0; i < k; i++) njt_mzed_free(T[i]); x_free(x); x_free(y);
}
LEAK(ech)
LEAK(ple)
LEAK(trsm)
LEAK(inv)
LEAK(njt)
LEAK(prow)
