/* products (P13-P18) */
#include "x.h"
/* 0 e,1 k,2 rep,3 win of A and B,4 m,5 l,6 fill A,7 algorithm,8 n,9 fill B,10 accumulate,11 destination (0 none, 1 given, window 2..4 -> win 1..3),12 cutoff,13 alias (1: B is A), 14 fill C (default 1)
 * algorithms: 0 generic 1 naive 2 Newton-John 3 Strassen 4 Karatsuba 5 bilinear map 6 generic without checks 7 naive slices
 *  8 bilinear map given, straight-line 9 bilinear map given, matrices */
static blm_t *map_of(const gf2e *ff, int djb) {
  int d = (int)ff->degree, *p = crt_init(d, d); blm_t *f = blm_init_crt(ff, d, d, p, djb); m4ri_mm_free(p); return f;
}
void mul(void) {
  int e = PAR(0), rep = PAR(2), win = PAR(3), m = PAR(4), l = PAR(5), al = PAR(7), n = PAR(8), acc = PAR(10), dst = PAR(11), cut = PAR(12); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, l, PAR(6), "A"), b = PAR(13) ? a : e_fill(ff, l, n, PAR(9), "B"), g = e_fill(ff, m, n, PAR(14) ? PAR(14) : 1, "C"), r; unsigned char *nz = NULL;
  if (PAR(6) == 11) { nz = (unsigned char *)h_calloc((size_t)m * l, 1); for (int i = 0; i < m; i++) for (int j = 0; j < l; j++) nz[(size_t)i * l + j] = !((i % 73 && i % 64 != 63) || (j % 101 != 7 && j < l - 1)); }
  h_nz = nz; r = e_mul(ff, a, b); h_nz = NULL; if (nz) h_free(nz);
  if (PAR(14) == 9) for (int i = 0; i < m * n; i++) g.v[i] = sym_bits(e, "C");
  if (acc && dst) { E t = e_xor(r, g); e_free(r); r = t; }
  X x = x_new(ff, rep, win, a), y = PAR(13) ? x : x_new(ff, rep, win, b), c; memset(&c, 0, sizeof c); c.rep = rep;
  if (dst) c = x_new(ff, rep, dst - 1, g);
  if (!rep) {
    mzed_t *C = c.m, *A = x.m, *B = y.m, *R = NULL;
    switch (al) {
    case 0: R = acc ? mzed_addmul(C, A, B) : mzed_mul(C, A, B); break;
    case 1: R = acc ? mzed_addmul_naive(C, A, B) : mzed_mul_naive(C, A, B); break;
    case 2: R = acc ? mzed_addmul_newton_john(C, A, B) : mzed_mul_newton_john(C, A, B); break;
    case 3: R = acc ? mzed_addmul_strassen(C, A, B, cut) : mzed_mul_strassen(C, A, B, cut); break;
    case 4: R = acc ? mzed_addmul_karatsuba(C, A, B) : mzed_mul_karatsuba(C, A, B); break;
    case 5: R = acc ? mzed_addmul_blm(C, A, B) : mzed_mul_blm(C, A, B); break;
    case 6: R = acc ? _mzed_addmul(C, A, B) : _mzed_mul(C, A, B); break;
    case 10: R = acc ? _mzed_addmul_strassen(C, A, B, cut) : _mzed_mul_strassen(C, A, B, cut); break; /* 10-15: a destination is required; 11-15 accumulate */
    case 11: R = _mzed_mul_newton_john(C, A, B); break;
    case 12: R = _mzed_mul_newton_john0(C, A, B); break;
    case 13: R = _mzed_mul_naive(C, A, B); break;
    case 14: R = _mzed_addmul_karatsuba(C, A, B); break;
    case 15: R = _mzed_addmul_blm(C, A, B); break;
    }
    if (C) sym_assert(R == C, "returns the destination"); c.m = R;
  } else {
    mzd_slice_t *C = c.z, *A = x.z, *B = y.z, *R = NULL; blm_t *f;
    switch (al) {
    case 0: R = acc ? mzd_slice_addmul(C, A, B) : mzd_slice_mul(C, A, B); break;
    case 4: R = acc ? mzd_slice_addmul_karatsuba(C, A, B) : mzd_slice_mul_karatsuba(C, A, B); break;
    case 5: R = acc ? mzd_slice_addmul_blm(C, A, B, NULL) : mzd_slice_mul_blm(C, A, B, NULL); break;
    case 6: R = _mzd_slice_addmul_karatsuba(C, A, B); break;
    case 7: R = _mzd_slice_addmul_naive(C, A, B); break;
    case 8: case 9: f = map_of(ff, al == 8); R = acc ? mzd_slice_addmul_blm(C, A, B, f) : mzd_slice_mul_blm(C, A, B, f); blm_free(f); break;
    }
    if (C) sym_assert(R == C, "returns the destination"); c.z = R;
  }
  x_chk(c, r, acc ? "C + A*B" : "A*B"); x_chk(x, a, "A changed"); if (!PAR(13)) { x_chk(y, b, "B changed"); x_free(y); }
  x_free(x); x_free(c);
}
/* ------------------------------------------------------------ matrix polynomials: entries of E are polynomials over GF(2) */
static u64 clmul(u64 a, u64 b) { return sym_gfmul(a, b, 0, 32); }
static u64 pmod(u64 r, u64 mp, int e) { for (int i = 2 * e; i >= e; i--) r ^= (0 - ((r >> i) & 1)) & (mp << (i - e)); return r; }
static E pe_mul(E a, E b) { E r = e_new(a.m, b.n); for (int i = 0; i < a.m; i++) for (int k = 0; k < a.n; k++) for (int j = 0; j < b.n; j++) AT(r, i, j) ^= clmul(AT(a, i, k), AT(b, k, j)); return r; }
static E pe_fill(int m, int n, int d, const char *nm) { E r = e_new(m, n); for (int i = 0; i < m * n; i++) r.v[i] = sym_bits(d, nm); return r; }
static E pe_rand(int m, int n, int d) { E r = e_new(m, n); for (int i = 0; i < m * n; i++) r.v[i] = h_rand() & ((1ULL << d) - 1); return r; }
static void b_put(mzd_t **x, int d, E a) { for (int k = 0; k < d; k++) for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) gbw(x[k], i, j, AT(a, i, j) >> k); }
static mzd_poly_t *p_of(int d, E a) { mzd_poly_t *A = mzd_poly_init(d - 1, a.m, a.n); sym_assert(A->depth == d && A->nrows == a.m && A->ncols == a.n, "header of a new polynomial"); for (int k = 0; k < d; k++) for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) sym_assert_eq(gbr(A->x[k], i, j), 0, "new polynomial is zero", i, j); b_put(A->x, d, a); return A; }
static void eq_p(mzd_t **x, int d, E a, const char *msg) {
  for (int k = 0; k < d; k++) { for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) sym_assert_eq(gbr(x[k], i, j), (AT(a, i, j) >> k) & 1, msg, k, i * 100 + j); clean_b(x[k], "stray bits outside the elements"); }
  for (int i = 0; i < a.m * a.n; i++) sym_assert_eq(a.v[i] >> d, 0, "reference", 0, i);
}
/* 0 length of A, 1 length of B, 2 method (0 naive 1 Karatsuba 2 bilinear map, 3 same with straight-line code, 4 crt, 5 extension field), 3 m, 4 l, 5 n, 6 C (0 NULL 1 zero 2 concrete 3 symbolic), 7 extra coefficients in C */
void polymul(void) {
  int da = PAR(0), db = PAR(1), me = PAR(2), m = PAR(3), l = PAR(4), n = PAR(5), cm = PAR(6), ex = PAR(7), dc = da + db - 1 + ex; if (m4ri_codebook == NULL) m4ri_build_all_codes();
  E a = pe_fill(m, l, da, "A"), b = pe_fill(l, n, db, "B"), r = pe_mul(a, b), c = cm == 3 ? pe_fill(m, n, dc, "C") : cm == 2 ? pe_rand(m, n, dc) : e_new(m, n), q = e_xor(r, c);
  mzd_poly_t *A = p_of(da, a), *B = p_of(db, b), *C = cm ? p_of(dc, c) : NULL, *R = NULL;
  switch (me) {
  case 0: R = _mzd_poly_addmul_naive(C, A, B); break;
  case 1: R = _mzd_poly_addmul_karatsubs_balanced(C, A, B); break;
  case 2: case 3: { int *p = crt_init(da, db); blm_t *f = blm_init_crt(NULL, da, db, p, me == 3); R = _mzd_poly_addmul_blm(C, A, B, f); blm_free(f); m4ri_mm_free(p); break; }
  case 4: R = _mzd_poly_addmul_crt(C, A, B); break;
  case 5: R = _mzd_poly_addmul_ext1(C, A, B); break;
  }
  if (cm) sym_assert(R == C, "returns the destination"); else sym_assert(R != NULL && (int)R->depth >= dc && R->nrows == m && R->ncols == n, "allocated result");
  if (R) { eq_p(R->x, R->depth, q, "product of polynomials"); mzd_poly_free(R); }
  eq_p(A->x, da, a, "A changed"); eq_p(B->x, db, b, "B changed"); mzd_poly_free(A); mzd_poly_free(B);
}
/* 0 length, 1 length of C, 2 m, 3 n, 4 offset, 5 alias C==A */
void polyadd(void) {
  int d = PAR(0), dc = PAR(1), m = PAR(2), n = PAR(3), off = PAR(4); E a = pe_fill(m, n, d, "A"), b = pe_fill(m, n, d, "B"), c = pe_fill(m, n, dc, "C");
  mzd_poly_t *A = p_of(d, a), *B = p_of(d, b), *C = p_of(dc, c), *R; R = off ? _mzd_poly_add(C, A, B, off) : mzd_poly_add(C, A, B);
  sym_assert(R == C, "returns the destination"); E q = e_dup(c); u64 mk = ((1ULL << d) - 1) << off;
  for (int i = 0; i < m * n; i++) q.v[i] = (PAR(6) ? c.v[i] : c.v[i] & ~mk) ^ (a.v[i] ^ b.v[i]) << off;
  eq_p(C->x, dc, q, "sum of polynomials"); eq_p(A->x, d, a, "A changed"); eq_p(B->x, d, b, "B changed");
  int cmp = mzd_poly_cmp(A, B); u64 df = 0; for (int i = 0; i < m * n; i++) df |= a.v[i] ^ b.v[i]; sym_assert_eq(cmp == 0, df == 0, "comparison", 0, 0);
  if (dc != d) sym_assert(mzd_poly_cmp(A, C) != 0, "different lengths compare unequal");
  mzd_poly_free(A); mzd_poly_free(B); mzd_poly_free(C);
}
/* shortening and lengthening; 0 length 1 new length 2 m 3 n */
void polydepth(void) {
  int d = PAR(0), nd = PAR(1), m = PAR(2), n = PAR(3); E a = pe_fill(m, n, d, "A"); mzd_poly_t *A = p_of(d, a);
  mzd_poly_t *R = _mzd_poly_adapt_depth(A, nd); sym_assert((int)R->depth == nd, "new length"); for (int i = 0; i < m * n; i++) a.v[i] &= (1ULL << nd) - 1;
  eq_p(R->x, nd, a, "coefficients kept"); mzd_poly_free(R);
}
/* the bilinear map on its own: 0 e (0: polynomial product without reduction),1 k,2 length f,3 length g,4 djb,5 choice of moduli (0 crt_init, 1 single modulus of the full degree, 2 only (x+infinity), 4 one modulus of degree f+g-1, 3 spread), 6 m,7 l,8 n */
void blmap(void) {
  int e = PAR(0), fl = PAR(2), gl = PAR(3), m = PAR(6), l = PAR(7), n = PAR(8); gf2e *ff = e ? h_field(e, PAR(1)) : NULL; if (m4ri_codebook == NULL) m4ri_build_all_codes();
  int need = fl + gl - 1, *p;
  if (PAR(5) == 0) p = crt_init(fl, gl);
  else {
    p = (int *)m4ri_mm_calloc(M4RIE_CRT_LEN, sizeof(int));
    if (PAR(5) == 1) p[fl > gl ? fl : gl] = 1;
    else if (PAR(5) == 2) p[0] = need;
    else if (PAR(5) == 4) p[need] = 1;
    else { int have = p[0] = PAR(9); for (int d = 1; have < need && d <= 16; d++) for (int i = 0; i < PAR(10 + (d > 4)) && have < need && p[d] < (int)irreducible_polynomials[d][0]; i++) { p[d]++; have += d; } sym_assume(have >= need); }
  }
  blm_t *f = blm_init_crt(ff, fl, gl, p, PAR(4)); m4ri_mm_free(p);
  int dc = e ? e : need; E a = pe_fill(m, l, fl, "A"), b = pe_fill(l, n, gl, "B"), r = pe_mul(a, b), g = PAR(12) ? pe_rand(m, n, dc) : e_new(m, n);
  if (e) for (int i = 0; i < m * n; i++) r.v[i] = pmod(r.v[i], ff->minpoly, e);
  mzd_t *A[17], *B[17], *C[40]; const mzd_t *ca[17], *cb[17];
  for (int i = 0; i < fl; i++) ca[i] = A[i] = mzd_init(m, l); for (int i = 0; i < gl; i++) cb[i] = B[i] = mzd_init(l, n); for (int i = 0; i < dc; i++) C[i] = mzd_init(m, n);
  b_put(A, fl, a); b_put(B, gl, b); b_put(C, dc, g);
  _mzd_ptr_apply_blm(C, ca, cb, f);
  E q = e_xor(r, g); eq_p(C, dc, q, "bilinear map"); eq_p(A, fl, a, "A changed"); eq_p(B, gl, b, "B changed");
  blm_free(f); for (int i = 0; i < fl; i++) mzd_free(A[i]); for (int i = 0; i < gl; i++) mzd_free(B[i]); for (int i = 0; i < dc; i++) mzd_free(C[i]);
}
/* the coefficient list of a sliced matrix lengthened and shortened again: 0 e,1 k,2 new length,3 m,4 n; then a random polynomial of that length */
void slicedepth(void) {
  int e = PAR(0), nd = PAR(2), m = PAR(3), n = PAR(4); gf2e *ff = h_field(e, PAR(1)); E a = e_fill(ff, m, n, 0, "A"); mzd_slice_t *A = s_of(ff, a);
  mzd_slice_t *R = _mzd_slice_adapt_depth(A, nd); sym_assert(R == A && (int)A->depth == nd, "new length"); eq_p(A->x, nd, a, "coefficients kept");
  R = _mzd_slice_adapt_depth(A, e); sym_assert(R == A && (int)A->depth == e, "length restored"); eq_s(A, a, "matrix kept"); mzd_slice_free(A);
  mzd_poly_t *P = mzd_poly_init(nd - 1, m, n); sym_assert((int)P->depth == nd && P->nrows == m && P->ncols == n, "shape of a new polynomial"); eq_p(P->x, nd, e_new(m, n), "new polynomial is zero");
  mzd_poly_randomize(P);
  for (int d = 0; d < nd; d++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int b = mzd_read_bit(P->x[d], i, j); sym_assert(sym_feasible(b == 0) && sym_feasible(b == 1), "a coefficient that can never occur"); }
  mzd_poly_free(P);
}
LEAK(mul)
LEAK(slicedepth)
LEAK(polymul)
LEAK(polyadd)
LEAK(polydepth)
LEAK(blmap)
