/* Common part of all harnesses.  A harness is ordinary C: compiled to LLVM IR it
 * is executed symbolically by engine/, compiled natively (native_rt.c, the real
 * libm4ri) it replays a counterexample or runs on pseudo-random inputs.
 * Reference values are computed here from raw storage with code of its own; the
 * library's element accessors are never used to judge the library. */
#ifndef H_H
#define H_H
#include <m4rie/m4rie.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef uint64_t u64;
u64 sym_bits(int n, const char *name);
void sym_assume(u64 c);
void sym_assert(u64 c, const char *msg);
void sym_assert_eq(u64 a, u64 b, const char *msg, int i, int j);
long sym_param(int i);
void sym_observe(u64 v);
void sym_expect_die(u64 c);
u64 sym_live_heap(void);
u64 sym_heap_bytes(void);
u64 sym_concrete(u64 v);
u64 sym_cond_fork(u64 c);
u64 sym_ite(u64 c, u64 a, u64 b);
u64 sym_gfmul(u64 a, u64 b, u64 minpoly, int e);
void sym_note(const char *s);
int sym_is_engine(void);
int sym_go_random(void);
int sym_reps(void);
u64 sym_feasible(u64 c);
void sym_out_begin(void);
u64 sym_out_len(void);
u64 sym_out(u64 i);
/* ------------------------------------------------------------ concrete values */
static u64 h_rng = 0x243f6a8885a308d3ULL;
static inline u64 h_rand(void) { u64 x = (h_rng += 0x9e3779b97f4a7c15ULL); x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
static inline void h_seed(u64 s) { h_rng = s * 0x9e3779b97f4a7c15ULL + 12345; }
/* ------------------------------------------------------------ the harness's own memory, released in one go by leak_ entries */
static void *h_list; static int h_track; static gf2e *h_flds[8]; static int h_nflds;
static inline void *h_calloc(size_t n, size_t s) { void **p = (void **)calloc(1, n * s + 16); p[0] = h_list; if (h_track) h_list = p; return p + 2; }
static inline void h_free(void *p) { if (!h_track) free((void **)p - 2); }
static inline void h_free_all(void) { while (h_list) { void **p = (void **)h_list; h_list = p[0]; free(p); } while (h_nflds) gf2e_free(h_flds[--h_nflds]); }
static inline void h_ffree(gf2e *ff) { if (!h_track) gf2e_free(ff); }
/* leak_X runs X and asserts that the library released everything it allocated */
#define LEAK(fn) void leak_##fn(void) { if (m4ri_codebook == NULL) m4ri_build_all_codes(); h_track = 1; u64 a_ = sym_live_heap(); fn(); h_free_all(); sym_assert(sym_live_heap() == a_, "leak: memory allocated and never released"); }
/* ------------------------------------------------------------ fields */
static inline int h_w(int e) { return e <= 2 ? 2 : e <= 4 ? 4 : e <= 8 ? 8 : 16; }
/* k-th irreducible polynomial of degree e of the library's table (k from 0) */
static inline u64 h_poly(int e, int k) { u64 n = irreducible_polynomials[e][0]; return irreducible_polynomials[e][1 + (u64)k % n]; }
static inline gf2e *h_field(int e, int k) { if (m4ri_codebook == NULL) m4ri_build_all_codes(); gf2e *ff = gf2e_init(h_poly(e, k)); if (h_track && h_nflds < 8) h_flds[h_nflds++] = ff; return ff; }
static inline u64 h_mul(const gf2e *ff, u64 a, u64 b) { return sym_gfmul(a, b, ff->minpoly, (int)ff->degree); }
/* inverse of a concrete element, by search */
static inline u64 h_inv(const gf2e *ff, u64 a) { /* a^(2^e-2) */
  u64 r = 1, t = a; for (int i = 1; i < (int)ff->degree; i++) { t = h_mul(ff, t, t); r = h_mul(ff, r, t); } return r; }
/* ------------------------------------------------------------ raw element access */
static inline u64 ger(const mzed_t *A, rci_t i, rci_t j) { int w = h_w((int)A->finite_field->degree); return (A->x->rows[i][(j * w) / 64] >> ((j * w) % 64)) & ((1ULL << w) - 1); }
static inline void gew(mzed_t *A, rci_t i, rci_t j, u64 v) { int w = h_w((int)A->finite_field->degree); word *p = &A->x->rows[i][(j * w) / 64]; int s = (j * w) % 64; *p = (*p & ~(((1ULL << w) - 1) << s)) | (v << s); }
static inline u64 gsr(const mzd_slice_t *A, rci_t i, rci_t j) { u64 v = 0; for (int k = 0; k < (int)A->finite_field->degree; k++) v |= ((A->x[k]->rows[i][j / 64] >> (j % 64)) & 1) << k; return v; }
static inline void gsw(mzd_slice_t *A, rci_t i, rci_t j, u64 v) { for (int k = 0; k < (int)A->finite_field->degree; k++) { word *p = &A->x[k]->rows[i][j / 64]; *p = (*p & ~(1ULL << (j % 64))) | (((v >> k) & 1) << (j % 64)); } }
static inline u64 gbr(const mzd_t *A, rci_t i, rci_t j) { return (A->rows[i][j / 64] >> (j % 64)) & 1; }
static inline void gbw(mzd_t *A, rci_t i, rci_t j, u64 v) { word *p = &A->rows[i][j / 64]; *p = (*p & ~(1ULL << (j % 64))) | ((v & 1) << (j % 64)); }
/* ------------------------------------------------------------ plain element arrays */
typedef struct { int m, n; u64 *v; } E;
static inline E e_new(int m, int n) { E a; a.m = m; a.n = n; a.v = (u64 *)h_calloc((size_t)m * n + 1, 8); return a; }
static inline void e_free(E a) { h_free(a.v); }
#define AT(a, i, j) ((a).v[(size_t)(i) * (a).n + (j)])
static inline E e_ofm(const mzed_t *A) { E r = e_new(A->nrows, A->ncols); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) AT(r, i, j) = ger(A, i, j); return r; }
static inline E e_ofs(const mzd_slice_t *A) { E r = e_new(A->nrows, A->ncols); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) AT(r, i, j) = gsr(A, i, j); return r; }
/* the product; h_nz, if set, tells which entries of a may be non-zero (saves time on large sparse operands) */
static const unsigned char *h_nz;
static inline E e_mul(const gf2e *ff, E a, E b) { E r = e_new(a.m, b.n); for (int i = 0; i < a.m; i++) for (int k = 0; k < a.n; k++) { if (h_nz && !h_nz[(size_t)i * a.n + k]) continue; for (int j = 0; j < b.n; j++) AT(r, i, j) ^= h_mul(ff, AT(a, i, k), AT(b, k, j)); } return r; }
static inline E e_dup(E a) { E r = e_new(a.m, a.n); for (int i = 0; i < a.m * a.n; i++) r.v[i] = a.v[i]; return r; }
static inline E e_xor(E a, E b) { E r = e_dup(a); for (int i = 0; i < a.m * a.n; i++) r.v[i] ^= b.v[i]; return r; }
static inline E e_id(int n) { E r = e_new(n, n); for (int i = 0; i < n; i++) AT(r, i, i) = 1; return r; }
/* fills: how the entries of an operand are chosen
 *  0 all symbolic          1 concrete dense        2 concrete, about half zero
 *  3 symbolic on a random quarter of the positions, concrete elsewhere
 *  4 all zero              5 one symbolic entry per row at a random column, rest concrete
 *  10 one symbolic entry in every eighth row, rest concrete
 *  11, 12, 13 zero but for few rows and columns (for large sizes; 11 has few columns, 12 the matching rows), some of these symbolic
 *  15, 16, 18 zero but for one column (last, first, first of the last 64), few entries of it symbolic
 *  6 concrete with only 0 and 1                    7 symbolic on about 1/16, concrete elsewhere */
static inline u64 h_entry(int e, int fill, const char *nm, int i, int j, int n) {
  u64 m = (1ULL << e) - 1;
  switch (fill) {
  case 0: return sym_bits(e, nm);
  case 1: return h_rand() & m;
  case 2: { u64 r = h_rand(); return (r >> 40) & 1 ? (r & m) : 0; }
  case 3: { u64 r = h_rand(); return ((r >> 40) & 3) == 0 ? sym_bits(e, nm) : (r & m); }
  case 5: { u64 r = h_rand(); return (i * 7 + 3) % n == j ? sym_bits(e, nm) : (r & m); }
  case 6: return h_rand() >> 63;
  case 8: { u64 r = h_rand(); return ((r >> 20) & 8191) == 0 || (i == 0 && j < 3) || j == n - 1 - (i & 3) ? ((r >> 20 & 15) < 2 ? sym_bits(e, nm) : (r & m)) : (r & m); }
  case 7: { u64 r = h_rand(); return ((r >> 40) & 15) == 0 ? sym_bits(e, nm) : (r & m); }
  case 10: { u64 r = h_rand(); return i % 8 == 3 && (i * 7 + 3) % n == j ? sym_bits(e, nm) : (r & m); }
  case 11: if (i % 73 && i % 64 != 63 || j % 101 != 7 && j < n - 1) return 0; { u64 r = h_rand(); return (r >> 40 & 3) == 0 ? sym_bits(e, nm) : (r & m); }
  case 14: if (i % 73 && i % 64 != 63 || j % 97 && j % 64 != 61) return 0; { u64 r = h_rand(); return r & m; }
  case 12: if (j % 97 && j % 64 != 63 || i % 101 != 7 && i % 512 != 511) return 0; { u64 r = h_rand(); return r & m; }
  case 13: if (i % 73 && i % 64 != 63 || j % 97 && j % 64 != 63) return 0; { u64 r = h_rand(); return (r >> 40 & 7) == 0 ? sym_bits(e, nm) : (r & m); }
  case 15: case 16: case 18: /* zero but for the last column, the first, or the first of the last 64 */
    if (j != (fill == 15 ? n - 1 : fill == 16 ? 0 : (n - 1) / 64 * 64)) return 0;
    { u64 r = h_rand(); return e <= 4 && (r >> 40 & 3) == 0 || e <= 8 && i == 0 && (r >> 40 & 1) ? sym_bits(e, nm) : (r & m); }
  default: if (fill >= 80 && fill < 112) { u64 w = fill < 96 ? ~(1ULL << (fill - 80)) : 1ULL << (fill - 96); return h_rand() & m & w; } /* 80.. like 40.. and concrete */
    if (fill >= 40 && fill < 72) { /* 40+k: coefficient k zero everywhere, 56+k: all coefficients but k zero; few entries symbolic */
      u64 r = h_rand(), s = fill < 56 ? (u64)(fill - 40) : (u64)(fill - 56), w = fill < 56 ? ~(1ULL << s) : 1ULL << s;
      return (((r >> 40) & (n * e > 300 ? 255 : 15)) == 0 ? sym_bits(e, nm) : r & m) & w; }
    return 0;
  }
}
static inline E e_fill(const gf2e *ff, int m, int n, int fill, const char *nm) { E r = e_new(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) AT(r, i, j) = h_entry((int)ff->degree, fill, nm, i, j, n); return r; }
static inline mzed_t *m_of(const gf2e *ff, E a) { mzed_t *A = mzed_init(ff, a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) gew(A, i, j, AT(a, i, j)); return A; }
static inline mzd_slice_t *s_of(const gf2e *ff, E a) { mzd_slice_t *A = mzd_slice_init(ff, a.m, a.n); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) gsw(A, i, j, AT(a, i, j)); return A; }
static inline void m_put(mzed_t *A, E a) { for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) gew(A, i, j, AT(a, i, j)); }
static inline void s_put(mzd_slice_t *A, E a) { for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) gsw(A, i, j, AT(a, i, j)); }
static inline mzed_t *m_sym(const gf2e *ff, int m, int n, const char *nm) { E a = e_fill(ff, m, n, 0, nm); mzed_t *A = m_of(ff, a); e_free(a); return A; }
static inline mzd_slice_t *s_sym(const gf2e *ff, int m, int n, const char *nm) { E a = e_fill(ff, m, n, 0, nm); mzd_slice_t *A = s_of(ff, a); e_free(a); return A; }
/* ------------------------------------------------------------ checks */
static inline void eq_m(const mzed_t *A, E a, const char *msg) { sym_assert(A->nrows == a.m && A->ncols == a.n, msg); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) sym_assert_eq(ger(A, i, j), AT(a, i, j), msg, i, j); }
static inline void eq_s(const mzd_slice_t *A, E a, const char *msg) { sym_assert(A->nrows == a.m && A->ncols == a.n, msg); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) sym_assert_eq(gsr(A, i, j), AT(a, i, j), msg, i, j); }
static inline void eq_e(E a, E b, const char *msg) { sym_assert(a.m == b.m && a.n == b.n, msg); for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) sym_assert_eq(AT(a, i, j), AT(b, i, j), msg, i, j); }
/* no stray bits: unused top bits of element slots and everything past the last column */
static inline void clean_m(const mzed_t *A, const char *msg) {
  int e = (int)A->finite_field->degree, w = h_w(e); wi_t nw = ((wi_t)A->ncols * w + 63) / 64;
  for (rci_t i = 0; i < A->nrows; i++) for (wi_t k = 0; k < nw; k++) {
    word ok = 0; for (int s = 0; s < 64; s += w) if ((k * 64 + s) / w < A->ncols) ok |= ((1ULL << e) - 1) << s;
    sym_assert_eq(A->x->rows[i][k] & ~ok, 0, msg, i, (int)k);
  }
}
static inline void clean_b(const mzd_t *A, const char *msg) {
  wi_t nw = (A->ncols + 63) / 64; int r = A->ncols % 64;
  if (r) for (rci_t i = 0; i < A->nrows; i++) sym_assert_eq(A->rows[i][nw - 1] >> r, 0, msg, i, (int)nw - 1);
}
static inline void clean_s(const mzd_slice_t *A, const char *msg) { for (int k = 0; k < (int)A->finite_field->degree; k++) clean_b(A->x[k], msg); }
#define PAR(i) ((int)sym_param(i))
#endif
