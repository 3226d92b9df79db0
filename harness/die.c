/* rejected arguments (P27) */
#include "x.h"
static X dX[3]; static E dE[3]; static int dM[3], dN[3], dn;
static void hdr(X x, int m, int n) { if (x.rep) { x.z->nrows = m; x.z->ncols = n; } else { x.m->nrows = m; x.m->ncols = n; } }
/* called when the library rejects a call: nothing may have changed */
void on_die(void) { for (int i = 0; i < dn; i++) { hdr(dX[i], dM[i], dN[i]); x_chk(dX[i], dE[i], i == 0 ? "A changed by a rejected call" : i == 1 ? "B changed by a rejected call" : "C changed by a rejected call"); } }
static void put(int i, X x, E e) { dX[i] = x; dE[i] = e; dM[i] = e.m; dN[i] = e.n; if (dn <= i) dn = i + 1; }
/* 0 add 1 copy (B to C) 2 mul 3 naive 4 Newton-John 5 Strassen 6 Karatsuba 7 bilinear map 8 concat 9 stack */
static X call(int op, int acc, X a, X b, X c) {
  mzed_t *C = c.m, *A = a.m, *B = b.m; mzd_slice_t *Z = c.z, *S = a.z, *T = b.z;
  if (a.rep) switch (op) {
    case 0: Z = mzd_slice_add(Z, S, T); break;
    case 2: Z = acc ? mzd_slice_addmul(Z, S, T) : mzd_slice_mul(Z, S, T); break;
    case 6: Z = acc ? mzd_slice_addmul_karatsuba(Z, S, T) : mzd_slice_mul_karatsuba(Z, S, T); break;
    case 7: Z = acc ? mzd_slice_addmul_blm(Z, S, T, NULL) : mzd_slice_mul_blm(Z, S, T, NULL); break;
    case 8: Z = mzd_slice_concat(Z, S, T); break;
    case 9: Z = mzd_slice_stack(Z, S, T); break;
  } else switch (op) {
    case 0: C = mzed_add(C, A, B); break;
    case 1: C = mzed_copy(C, B); break;
    case 2: C = acc ? mzed_addmul(C, A, B) : mzed_mul(C, A, B); break;
    case 3: C = acc ? mzed_addmul_naive(C, A, B) : mzed_mul_naive(C, A, B); break;
    case 4: C = acc ? mzed_addmul_newton_john(C, A, B) : mzed_mul_newton_john(C, A, B); break;
    case 5: C = acc ? mzed_addmul_strassen(C, A, B, 0) : mzed_mul_strassen(C, A, B, 0); break;
    case 6: C = acc ? mzed_addmul_karatsuba(C, A, B) : mzed_mul_karatsuba(C, A, B); break;
    case 7: C = acc ? mzed_addmul_blm(C, A, B) : mzed_mul_blm(C, A, B); break;
    case 8: C = mzed_concat(C, A, B); break;
    case 9: C = mzed_stack(C, A, B); break;
  }
  X r; memset(&r, 0, sizeof r); r.rep = a.rep; r.m = a.rep ? NULL : C; r.z = a.rep ? Z : NULL; return r;
}
static u64 bad(int op, int have, u64 am, u64 an, u64 bm, u64 bn, u64 cm, u64 cn) {
  u64 t = 0;
  switch (op) {
  case 0: t = (am ^ bm) | (an ^ bn); if (have) t |= (cm ^ am) | (cn ^ an); break;
  case 1: t = (cm ^ bm) | (cn ^ bn); break;
  case 8: t = am ^ bm; if (have) t |= (cm ^ am) | (cn ^ (an + bn)); break;
  case 9: t = an ^ bn; if (have) t |= (cn ^ an) | (cm ^ (am + bm)); break;
  default: t = an ^ bm; if (have) t |= (cm ^ am) | (cn ^ bn);
  }
  return t != 0;
}
/* the shapes that fit: the part of B and C is derived from A (m x l) and n */
static void fit(int op, int m, int l, int n, int *bm, int *bn, int *cm, int *cn) {
  *bm = op <= 1 || op == 8 ? m : op == 9 ? n : l; *bn = op <= 1 || op == 9 ? l : n; *cm = op == 9 ? m + n : m; *cn = op <= 1 || op == 9 ? l : op == 8 ? l + n : n;
}
/* 3 win, 4 m, 5 l, 7 op, 8 n, 9 accumulate, 10 destination (0 none 1 given, window 2..), 11 the number of deviations in each dimension (1: none, 3: -1..1), 12 0 dimensions 1 fields too */
void reject(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), l = PAR(5), op = PAR(7), n = PAR(8), D = PAR(11), bm, bn, cm, cn, have = PAR(10) > 0; gf2e *ff[3]; ff[0] = h_field(e, PAR(1));
  int same = (int)irreducible_polynomials[e][0] > 1; ff[1] = same ? h_field(e, PAR(1) + 1) : ff[0]; ff[2] = h_field(e == 2 ? 3 : e - 1, 0);
  fit(op, m, l, n, &bm, &bn, &cm, &cn); int fb = 0, fc = 0;
  bm += h_idx(-(D / 2), D / 2 + 1, "B rows"); bn += h_idx(-(D / 2), D / 2 + 1, "B cols"); if (have) { cm += h_idx(-(D / 2), D / 2 + 1, "C rows"); cn += h_idx(-(D / 2), D / 2 + 1, "C cols"); }
  if (PAR(12)) { fb = h_idx(0, 3, "field of B"); if (have) fc = h_idx(0, 3, "field of C"); }
  gf2e *ref = op == 1 ? ff[fb] : ff[0]; u64 no = bad(op, have, m, l, bm, bn, cm, cn) | (ref != ff[fb]) | (have && ref != ff[fc]);
  E a = e_fill(ff[0], m, l, 7, "A"), b = e_fill(ff[fb], bm, bn, 1, "B"), c; X x = x_new(ff[0], rep, PAR(3), a), y = x_new(ff[fb], rep, PAR(3), b), z; memset(&z, 0, sizeof z); z.rep = rep;
  dn = 0; put(0, x, a); put(1, y, b); if (have) { c = e_fill(ff[fc], cm, cn, 7, "C"); z = x_new(ff[fc], rep, PAR(10) - 1, c); put(2, z, c); }
  sym_expect_die(no);
  X r = call(op, PAR(9), x, y, z);
  if (!no) { if (have) sym_assert(r.m == z.m && r.z == z.z, "returns the destination"); x_free(have ? z : r); x_free(x); x_free(y); }
}
/* the same with headers claiming arbitrary dimensions below 2^30 that do not fit: every one of them must be rejected */
void rejecth(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), l = PAR(5), op = PAR(7), n = PAR(8), bm, bn, cm, cn, have = PAR(10) > 0; gf2e *ff = h_field(e, PAR(1)); fit(op, m, l, n, &bm, &bn, &cm, &cn);
  E a = e_fill(ff, m, l, 7, "A"), b = e_fill(ff, bm, bn, 7, "B"), c; X x = x_new(ff, rep, 0, a), y = x_new(ff, rep, 0, b), z; memset(&z, 0, sizeof z); z.rep = rep;
  dn = 0; put(0, x, a); put(1, y, b); if (have) { c = e_fill(ff, cm, cn, 7, "C"); z = x_new(ff, rep, 0, c); put(2, z, c); }
  u64 d[6]; for (int i = 0; i < 6; i++) d[i] = i < 4 || have ? sym_bits(30, "dim") : 0;
  hdr(x, d[0], d[1]); hdr(y, d[2], d[3]); if (have) hdr(z, d[4], d[5]);
  sym_assume(bad(op, have, d[0], d[1], d[2], d[3], d[4], d[5]));
  sym_expect_die(1); call(op, PAR(9), x, y, z);
}
