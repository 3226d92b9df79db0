/* Differential test of m4ri_model.c against the installed libm4ri: random
 * matrices, windows (odd and even word offsets), all words of the parents compared. */
#include <m4ri/m4ri.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#define D(r, n, a) extern r model_##n a;
D(mzd_t *, _mzd_add, (mzd_t *, const mzd_t *, const mzd_t *)) D(mzd_t *, mzd_add, (mzd_t *, const mzd_t *, const mzd_t *)) D(void, mzd_set_ui, (mzd_t *, unsigned))
D(mzd_t *, mzd_copy, (mzd_t *, const mzd_t *)) D(void, mzd_copy_row, (mzd_t *, rci_t, const mzd_t *, rci_t)) D(mzd_t *, mzd_submatrix, (mzd_t *, const mzd_t *, rci_t, rci_t, rci_t, rci_t))
D(mzd_t *, mzd_concat, (mzd_t *, const mzd_t *, const mzd_t *)) D(mzd_t *, mzd_stack, (mzd_t *, const mzd_t *, const mzd_t *)) D(mzd_t *, mzd_mul, (mzd_t *, const mzd_t *, const mzd_t *, int)) D(mzd_t *, mzd_addmul, (mzd_t *, const mzd_t *, const mzd_t *, int))
D(mzd_t *, mzd_transpose, (mzd_t *, const mzd_t *)) D(int, mzd_equal, (const mzd_t *, const mzd_t *)) D(int, mzd_is_zero, (const mzd_t *))
D(void, mzd_apply_p_left, (mzd_t *, const mzp_t *)) D(void, mzd_apply_p_left_trans, (mzd_t *, const mzp_t *)) D(void, mzd_apply_p_right, (mzd_t *, const mzp_t *)) D(void, mzd_apply_p_right_trans, (mzd_t *, const mzp_t *)) D(void, mzd_apply_p_right_trans_tri, (mzd_t *, const mzp_t *))
D(void, _mzd_compress_l, (mzd_t *, rci_t, rci_t, rci_t))
typedef mzd_t *Z; typedef rci_t R;
D(void, mzd_process_rows, (Z, R, R, R, int, Z, R *)) D(void, mzd_process_rows2, (Z, R, R, R, int, Z, R *, Z, R *)) D(void, mzd_process_rows4, (Z, R, R, R, int, Z, R *, Z, R *, Z, R *, Z, R *)) D(void, mzd_process_rows3, (Z, R, R, R, int, Z, R *, Z, R *, Z, R *))
D(void, mzd_process_rows5, (Z, R, R, R, int, Z, R *, Z, R *, Z, R *, Z, R *, Z, R *)) D(void, mzd_process_rows6, (Z, R, R, R, int, Z, R *, Z, R *, Z, R *, Z, R *, Z, R *, Z, R *))
D(Z, mzd_inv_m4ri, (Z, const mzd_t *, int)) D(void, mzd_row_add, (Z, R, R)) D(void, mzd_col_swap, (Z, R, R))
static unsigned long long s = 88172645463325252ULL; static unsigned long long rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static int ri(int a, int b) { return a + (int)(rnd() % (unsigned)(b - a + 1)); }
typedef struct { mzd_t *p, *w; int owned; } M;
static int mode; /* 1: no windows */
static M mk(int m, int n) { M x; int r0 = 0, c0 = 0, r1 = 0, c1 = 0; if (!mode && ri(0, 2)) { r0 = ri(0, 2); c0 = ri(0, 3); r1 = ri(0, 2); c1 = ri(0, 70); } x.p = mzd_init(r0 + m + r1, 64 * c0 + n + c1); mzd_randomize(x.p); if (ri(0, 3) == 0) mzd_set_ui(x.p, 0);
  x.w = (r0 | c0 | r1 | c1) ? mzd_init_window(x.p, r0, 64 * c0, r0 + m, 64 * c0 + n) : x.p; return x; }
static M dup(M a) { M b; b.p = mzd_copy(NULL, a.p); if (a.w == a.p) b.w = b.p; else { long off = a.w->rows[0] - a.p->rows[0]; int r0 = (int)(off / a.p->rowstride), c0 = (int)(off % a.p->rowstride); b.w = mzd_init_window(b.p, r0, 64 * c0, r0 + a.w->nrows, 64 * c0 + a.w->ncols); } return b; }
static int same(mzd_t *a, mzd_t *b) { if (!a || !b) return a == b; if (a->nrows != b->nrows || a->ncols != b->ncols) return 0; for (int i = 0; i < a->nrows; i++) for (int j = 0; j < a->width; j++) if (a->rows[i][j] != b->rows[i][j]) return 0; return 1; }
static sigjmp_buf jb; static void h(int x) { siglongjmp(jb, x); }
static mzp_t *perm(int n) { mzp_t *P = mzp_init(n); for (int i = 0; i < n; i++) P->values[i] = ri(0, 2) ? i : ri(i, n - 1); return P; }
int main(int argc, char **argv) {
  int N = argc > 1 ? atoi(argv[1]) : 20000; signal(SIGSEGV, h); signal(SIGABRT, h); signal(SIGFPE, h);
  static const char *nm[40]; static int cnt[40], bad[40], crash[40];
  for (int it = 0; it < N; it++) {
    int f = ri(0, 25); int sz[] = {1, 2, 3, 5, 63, 64, 65, 70, 127, 128, 129, 200}; int m = sz[ri(0, 7)], n = sz[ri(0, 11)], l = sz[ri(0, 9)];
    mzd_t *r1 = NULL, *r2 = NULL; int i1 = 0, i2 = 0; M a = mk(m, n), b = mk(m, n), c = mk(m, n), d; int sg1 = 0, sg2 = 0; mzp_t *P = NULL; mzd_t *T[6]; R *L[6]; int bits = 0, k = 0, nt = 0, sc = 0, sr = 0, er = 0, x1 = 0, x2 = 0, x3 = 0;
    if (f == 12 || f == 13) { a = mk(m, l); b = mk(l, n); } if (f == 6) { b = mk(m, l); c = mk(m, n + l); } if (f == 7) { b = mk(l, n); c = mk(m + l, n); } if (f == 14) c = mk(n, m);
    if (f == 8 || f == 9) P = perm(m); if (f == 10 || f == 11 || f == 15) P = perm(n);
    if (f == 4) { x1 = ri(0, m - 1); x2 = ri(0, n - 1); c = mk(ri(x1 + 1, m) - x1, ri(x2 + 1, n) - x2); }
    if (f == 16) { x3 = ri(0, n < m ? n : m); x1 = ri(0, x3); x2 = ri(x3, n); /* r1=x1 n1=x3.. */ int r2_ = ri(0, n - x3 < m - x1 ? n - x3 : m - x1); x2 = r2_; for (int i = x1; i < m; i++) for (int j = x1; j < x3; j++) mzd_write_bit(a.w, i, j, 0); for (int i = x1; i < m; i++) for (int j = x3 + x2; j < n; j++) if (i >= x1 + x2) mzd_write_bit(a.w, i, j, 0); }
    if (f >= 17 && f <= 22) { nt = f - 16; bits = nt * ri(nt == 1 ? 2 : 1, 4); if (bits > n) bits = nt; if (bits > n || bits < 2) { continue; } sc = ri(0, n - bits); sr = ri(0, m - 1); er = ri(sr, m); k = bits; for (int i = 0; i < nt; i++) { T[i] = mzd_init(4, n); mzd_randomize(T[i]); for (int j = 0; j < n; j++) mzd_write_bit(T[i], 0, j, 0); L[i] = malloc(64 * 4); for (int j = 0; j < 64; j++) L[i][j] = j ? ri(0, 3) : 0; } }
    if (f == 23) { int q = m; if (n < q) q = n; a = mk(q, q); mzd_set_ui(a.w, 1); for (int i = 0; i < q; i++) for (int j = 0; j < i; j++) mzd_write_bit(a.w, i, j, ri(0, 1)); }
    if (f == 24) { x1 = ri(0, m - 1); x2 = ri(0, m - 1); } if (f == 25) { x1 = ri(0, n - 1); x2 = ri(0, n - 1); }
    M a1 = dup(a), a2 = dup(a), b1 = dup(b), b2 = dup(b), c1 = dup(c), c2 = dup(c); (void)d; int nul = ri(0, 3) == 0; int ra = ri(0, m - 1), rb = ri(0, m - 1);
    for (int side = 0; side < 2; side++) { M A = side ? a2 : a1, B = side ? b2 : b1, C = side ? c2 : c1; mzd_t *r = NULL; int iv = 0; int sg = sigsetjmp(jb, 1); if (sg) { if (side) sg2 = sg; else sg1 = sg; continue; }
#define F(name, args) (side ? model_##name args : name args)
      switch (f) {
      case 0: nm[f] = "add"; r = F(mzd_add, (nul ? NULL : C.w, A.w, B.w)); break; case 1: nm[f] = "set_ui"; F(mzd_set_ui, (A.w, (unsigned)(ra & 1))); break; case 2: nm[f] = "copy"; r = F(mzd_copy, (nul ? NULL : C.w, A.w)); break;
      case 3: nm[f] = "copy_row"; F(mzd_copy_row, (C.w, ra, A.w, rb)); break; case 4: nm[f] = "submatrix"; r = F(mzd_submatrix, (nul ? NULL : C.w, A.w, x1, x2, x1 + C.w->nrows, x2 + C.w->ncols)); break;
      case 5: nm[f] = "addto"; r = F(mzd_add, (A.w, A.w, B.w)); break; case 6: nm[f] = "concat"; r = F(mzd_concat, (nul ? NULL : C.w, A.w, B.w)); break; case 7: nm[f] = "stack"; r = F(mzd_stack, (nul ? NULL : C.w, A.w, B.w)); break;
      case 8: nm[f] = "p_left"; F(mzd_apply_p_left, (A.w, P)); break; case 9: nm[f] = "p_left_trans"; F(mzd_apply_p_left_trans, (A.w, P)); break; case 10: nm[f] = "p_right"; F(mzd_apply_p_right, (A.w, P)); break; case 11: nm[f] = "p_right_trans"; F(mzd_apply_p_right_trans, (A.w, P)); break;
      case 12: nm[f] = "mul"; r = F(mzd_mul, (nul ? NULL : C.w, A.w, B.w, (ra % 3) * 32)); break; case 13: nm[f] = "addmul"; r = F(mzd_addmul, (C.w, A.w, B.w, (ra % 3) * 32)); break; case 14: nm[f] = "transpose"; r = F(mzd_transpose, (nul ? NULL : C.w, A.w)); break;
      case 15: nm[f] = "p_right_trans_tri"; F(mzd_apply_p_right_trans_tri, (A.w, P)); break; case 16: nm[f] = "compress_l"; F(_mzd_compress_l, (A.w, x1, x3, x2)); break;
      case 17: nm[f] = "process1"; F(mzd_process_rows, (A.w, sr, er, sc, k, T[0], L[0])); break; case 18: nm[f] = "process2"; F(mzd_process_rows2, (A.w, sr, er, sc, k, T[0], L[0], T[1], L[1])); break; case 19: nm[f] = "process3"; F(mzd_process_rows3, (A.w, sr, er, sc, k, T[0], L[0], T[1], L[1], T[2], L[2])); break;
      case 20: nm[f] = "process4"; F(mzd_process_rows4, (A.w, sr, er, sc, k, T[0], L[0], T[1], L[1], T[2], L[2], T[3], L[3])); break; case 21: nm[f] = "process5"; F(mzd_process_rows5, (A.w, sr, er, sc, k, T[0], L[0], T[1], L[1], T[2], L[2], T[3], L[3], T[4], L[4])); break;
      case 22: nm[f] = "process6"; F(mzd_process_rows6, (A.w, sr, er, sc, k, T[0], L[0], T[1], L[1], T[2], L[2], T[3], L[3], T[4], L[4], T[5], L[5])); break;
      case 23: nm[f] = "inv"; r = F(mzd_inv_m4ri, (NULL, A.w, 0)); break; case 24: nm[f] = "row_add"; F(mzd_row_add, (A.w, x1, x2)); break; case 25: nm[f] = "equal/is_zero"; iv = F(mzd_is_zero, (A.w)) * 4 + F(mzd_equal, (A.w, ra & 1 ? A.w : B.w)); break;
      }
      if (side) { r2 = r; i2 = iv; } else { r1 = r; i1 = iv; }
    }
    cnt[f]++; if (sg1 || sg2) { if (sg1) crash[f]++; if (!sg1 != !sg2) { bad[f]++; if (bad[f] < 4) printf("%s %dx%d offs %ld: real signal %d model signal %d\n", nm[f], m, n, (long)(a.w->rows[0] - a.p->rows[0]), sg1, sg2); } continue; }
    if (i1 != i2 || !same(r1, r2) || !same(a1.p, a2.p) || !same(b1.p, b2.p) || !same(c1.p, c2.p)) { bad[f]++; if (bad[f] < 4) printf("%s %dx%d differs (win a %d c %d nul %d | x %d %d %d)\n", nm[f], m, n, a.w != a.p, c.w != c.p, nul, x1, x2, x3); }
  }
  int t = 0; for (int f = 0; f < 40; f++) if (cnt[f]) { if (bad[f]) printf("%-18s %d runs, %d differ, real crashed %d\n", nm[f], cnt[f], bad[f], crash[f]); t += bad[f]; }
  printf("%d differences\n", t); return t != 0;
}
