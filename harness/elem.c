/* elementwise operations, both representations (P06-P12, P28, P29) */
#include "x.h"
#include <stdio.h>
/* P06: 0 e,1 k,2 rep,3 win,4 m,5 n,6 fill */
void rdwr(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, PAR(3), a);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_assert_eq(rep ? mzd_slice_read_elem(x.z, i, j) : mzed_read_elem(x.m, i, j), AT(a, i, j), "read", i, j);
  int i = h_idx(0, m, "row"), j = h_idx(0, n, "col");
  u64 v = sym_bits(e, "value"), w = sym_bits(e, "addend");
  X_GO(x, mzed_write_elem(x.m, i, j, v), mzd_slice_write_elem(x.z, i, j, v));
  AT(a, i, j) = v; x_chk(x, a, "after write");
  sym_assert_eq(rep ? mzd_slice_read_elem(x.z, i, j) : mzed_read_elem(x.m, i, j), v, "read back", i, j);
  X_GO(x, mzed_add_elem(x.m, i, j, w), mzd_slice_add_elem(x.z, i, j, w));
  AT(a, i, j) = v ^ w; x_chk(x, a, "after add");
  sym_assert_eq(rep ? mzd_slice_read_elem(x.z, i, j) : mzed_read_elem(x.m, i, j), v ^ w, "read sum", i, j);
  x_free(x);
}
/* P07: 6 fill, 7 op, 8 start column (-1 every), 9 scalar (-1 symbolic), 10 same matrix (2: and same row) */
void rowop(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), op = PAR(7), same = PAR(10); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"), b = e_fill(ff, m, n, PAR(6), "B");
  X x = x_new(ff, rep, PAR(3), a), y = same ? x : x_new(ff, rep, PAR(3), b); if (same) b = a;
  int c = PAR(8) < 0 ? h_idx(0, n, "start") : PAR(8) % n;
  int fr = n <= 9 || PAR(7) >= 3; /* every pair of rows on narrow matrices, one pair on wide ones */
  int r = fr ? h_idx(0, m, "row") : m - 1, s = same ? (r + (same == 1)) % m : (fr ? h_idx(0, m, "source") : 0);
  u64 v = PAR(9) < 0 ? sym_bits(e, "x") : (u64)PAR(9) & ((1ULL << e) - 1);
  E q = e_dup(a);
  switch (op) {
  case 0: mzed_add_multiple_of_row(x.m, r, y.m, s, v, c); for (int j = c; j < n; j++) AT(q, r, j) = AT(a, r, j) ^ h_mul(ff, v, AT(b, s, j)); break;
  case 1: mzed_add_row(x.m, r, y.m, s, c); for (int j = c; j < n; j++) AT(q, r, j) = AT(a, r, j) ^ AT(b, s, j); break;
  case 2: X_GO(x, mzed_rescale_row(x.m, r, c, v), mzd_slice_rescale_row(x.z, r, c, v)); for (int j = c; j < n; j++) AT(q, r, j) = h_mul(ff, v, AT(a, r, j)); break;
  case 3: { int t = m > 1 ? h_idx(0, m, "other") : 0; X_GO(x, mzed_row_swap(x.m, r, t), mzd_slice_row_swap(x.z, r, t)); for (int j = 0; j < n; j++) { AT(q, r, j) = AT(a, t, j); AT(q, t, j) = AT(a, r, j); } break; }
  case 4: X_GO(x, mzed_copy_row(x.m, r, y.m, s), mzd_slice_copy_row(x.z, r, y.z, s)); for (int j = 0; j < n; j++) AT(q, r, j) = AT(b, s, j); break;
  case 5: { int t = (r + 1) % m; X_GO(x, mzed_row_add(x.m, r, t), mzd_slice_row_add(x.z, r, t)); for (int j = 0; j < n; j++) AT(q, t, j) = AT(a, r, j) ^ AT(a, t, j); break; }
  }
  x_chk(x, q, "row operation"); if (!same) { x_chk(y, b, "source"); x_free(y); }
  x_free(x);
}
/* P08: column swaps */
void colswap(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), op = PAR(7); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, PAR(3), a); E q = e_dup(a);
  int c = PAR(8) < 0 ? h_idx(0, n, "a") : PAR(8), d = PAR(9) < 0 ? h_idx(0, n, "b") : PAR(9), lo = 0, hi = m;
  if (op == 0) X_GO(x, mzed_col_swap(x.m, c, d), mzd_slice_col_swap(x.z, c, d));
  else { lo = h_idx(0, m, "lo"); hi = h_idx(lo, m + 1, "hi"); X_GO(x, mzed_col_swap_in_rows(x.m, c, d, lo, hi), mzd_slice_col_swap_in_rows(x.z, c, d, lo, hi)); }
  for (int i = lo; i < hi; i++) { AT(q, i, c) = AT(a, i, d); AT(q, i, d) = AT(a, i, c); }
  x_chk(x, q, "column swap"); x_free(x);
}
static void ref_perm(E q, int side, int trans, const mzp_t *p, int len) {
  for (int k = 0; k < len; k++) {
    int i = side == 0 ? (trans ? len - 1 - k : k) : (trans ? k : len - 1 - k), j = p->values[i];
    if (side == 0) for (int t = 0; t < q.n; t++) { u64 z = AT(q, i, t); AT(q, i, t) = AT(q, j, t); AT(q, j, t) = z; }
    else for (int t = 0; t < q.m; t++) { u64 z = AT(q, t, i); AT(q, t, i) = AT(q, t, j); AT(q, t, j) = z; }
  }
}
static void app(X x, int side, int trans, const mzp_t *p) {
  if (side == 0 && !trans) X_GO(x, mzed_apply_p_left(x.m, p), mzd_slice_apply_p_left(x.z, p));
  if (side == 0 && trans) X_GO(x, mzed_apply_p_left_trans(x.m, p), mzd_slice_apply_p_left_trans(x.z, p));
  if (side == 1 && !trans) X_GO(x, mzed_apply_p_right(x.m, p), mzd_slice_apply_p_right(x.z, p));
  if (side == 1 && trans) X_GO(x, mzed_apply_p_right_trans(x.m, p), mzd_slice_apply_p_right_trans(x.z, p));
}
/* P08: permutations.  7 side, 8 transposed, 9 how many leading entries are free */
void perm(void) {
  int e = PAR(0), win = PAR(3), m = PAR(4), n = PAR(5), side = PAR(7), tr = PAR(8); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, 0, win, a), y = x_new(ff, 1, win, a);
  int len = side ? n : m, nf = PAR(9); mzp_t *p = mzp_init(len);
  for (int i = 0; i < len; i++) p->values[i] = i < nf ? h_idx(i, len, "p") : i + (int)(h_rand() % (len - i));
  E q = e_dup(a); ref_perm(q, side, tr, p, len);
  app(x, side, tr, p); app(y, side, tr, p);
  x_chk(x, q, "packed permutation"); x_chk(y, q, "sliced permutation");
  app(x, side, !tr, p); app(y, side, !tr, p);
  x_chk(x, a, "packed permutation undone"); x_chk(y, a, "sliced permutation undone");
  mzp_free(p); x_free(x); x_free(y);
}
/* P09: 7 alias (0 none,1 given,2 C==A,3 C==B,4 A==B) */
void add(void) {
  int rep = PAR(2), win = PAR(3), m = PAR(4), n = PAR(5), al = PAR(7); gf2e *ff = h_field(PAR(0), PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"), b = al == 4 ? a : e_fill(ff, m, n, PAR(6), "B"), g = e_fill(ff, m, n, 1, "C"), r = e_xor(a, b);
  X x = x_new(ff, rep, win, a), y = al == 4 ? x : x_new(ff, rep, win, b), c;
  if (al == 0) c = rep ? x_wrap_s(mzd_slice_add(NULL, x.z, y.z)) : x_wrap_m(mzed_add(NULL, x.m, y.m));
  else {
    c = al == 2 ? x : al == 3 ? y : x_new(ff, rep, win, g);
    if (rep) sym_assert(mzd_slice_add(c.z, x.z, y.z) == c.z, "returns the destination"); else sym_assert(mzed_add(c.m, x.m, y.m) == c.m, "returns the destination");
  }
  x_chk(c, r, "sum"); if (al != 2) x_chk(x, a, "A changed"); if (al != 3 && al != 4) x_chk(y, b, "B changed");
  if (al == 0 || al == 1 || al == 4) x_free(c); x_free(x); if (al != 4) x_free(y);
}
void copy(void) {
  int rep = PAR(2), win = PAR(3), m = PAR(4), n = PAR(5), given = PAR(7); gf2e *ff = h_field(PAR(0), PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"), g = e_fill(ff, m, n, 1, "G"); X x = x_new(ff, rep, win, a), c;
  if (given == 2) { X_GO(x, sym_assert(mzed_copy(x.m, x.m) == x.m, "self copy"), sym_assert(mzd_slice_copy(x.z, x.z) == x.z, "self copy")); x_chk(x, a, "self copy"); x_free(x); return; }
  if (!given) c = rep ? x_wrap_s(mzd_slice_copy(NULL, x.z)) : x_wrap_m(mzed_copy(NULL, x.m));
  else { c = x_new(ff, rep, win, g); if (rep) sym_assert(mzd_slice_copy(c.z, x.z) == c.z, "returns the destination"); else sym_assert(mzed_copy(c.m, x.m) == c.m, "returns the destination"); }
  x_chk(c, a, "copy"); x_chk(x, a, "source changed"); x_free(c); x_free(x);
}
void setui(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, PAR(3), a); u64 v = PAR(7) >= 0 ? (u64)PAR(7) & ((1ULL << e) - 1) : sym_bits(e, "v");
  X_GO(x, mzed_set_ui(x.m, v), mzd_slice_set_ui(x.z, v));
  E q = e_new(m, n); for (int i = 0; i < m && i < n; i++) AT(q, i, i) = v;
  x_chk(x, q, "set to a constant"); x_free(x);
}
/* a column: every one, or (lim > 0) at most lim of them, spread out and including the ends */
static int h_pos(int n, int lim) {
  if (lim <= 1 || n <= lim) return h_idx(0, n, "col");
  return (int)(((long)h_idx(0, lim, "col") * (n - 1)) / (lim - 1));
}
/* comparison and zero test; 7: 0 free operands, 1 B differs from A in one symbolic element, 2, 3 dims differ; 8 limit on columns */
void cmpz(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), how = PAR(7); gf2e *ff = h_field(e, PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"), b;
  if (how == 0) b = e_fill(ff, m, n, PAR(6), "B");
  else if (how == 1) { b = e_dup(a); int i = h_idx(0, m, "row"), j = h_pos(n, PAR(8)); AT(b, i, j) ^= sym_bits(e, "delta"); }
  else b = e_fill(ff, m + (how == 2), n + (how == 3), 4, "B");
  X x = x_new(ff, rep, PAR(3), a), y = x_new(ff, rep, PAR(3), b);
  int r = rep ? mzd_slice_cmp(x.z, y.z) : mzed_cmp(x.m, y.m);
  if (how >= 2) { sym_assert(r != 0, "different dimensions compare unequal"); x_free(x); x_free(y); return; }
  u64 d = 0, o = 0; for (int i = 0; i < m * n; i++) { d |= a.v[i] ^ b.v[i]; o |= a.v[i]; }
  sym_assert_eq(r == 0, d == 0, "comparison", 0, 0);
  int z = rep ? mzd_slice_is_zero(x.z) : mzed_is_zero(x.m);
  sym_assert_eq(z != 0, o == 0, "zero test", 0, 0);
  x_chk(x, a, "A changed"); x_chk(y, b, "B changed"); x_free(x); x_free(y);
}
/* zero test with one symbolic element in an otherwise zero matrix */
void iszero(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5); gf2e *ff = h_field(e, PAR(1)); E a = e_new(m, n);
  int i = h_idx(0, m, "row"), j = h_pos(n, PAR(8)); u64 v = sym_bits(e, "v"); AT(a, i, j) = v; X x = x_new(ff, rep, PAR(3), a);
  sym_assert_eq((rep ? mzd_slice_is_zero(x.z) : mzed_is_zero(x.m)) != 0, v == 0, "zero test", i, j);
  if (!rep) { int fz = mzed_first_zero_row(x.m), want = m; while (want > 0) { u64 o = 0; for (int t = 0; t < n; t++) o |= AT(a, want - 1, t); if (sym_concrete(o != 0)) break; want--; } sym_assert_eq(fz, want, "first zero row", 0, 0); }
  x_free(x);
}
/* P10: 6 fill, 7 op 0 concat 1 stack, 8 given, 9 second dimension */
void glue(void) {
  int rep = PAR(2), win = PAR(3), m = PAR(4), n = PAR(5), op = PAR(7), k = PAR(9); gf2e *ff = h_field(PAR(0), PAR(1));
  E a = e_fill(ff, m, n, PAR(6), "A"), b = op ? e_fill(ff, k, n, PAR(6), "B") : e_fill(ff, m, k, PAR(6), "B"), r = op ? e_new(m + k, n) : e_new(m, n + k);
  for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) AT(r, i, j) = op ? (i < m ? AT(a, i, j) : AT(b, i - m, j)) : (j < n ? AT(a, i, j) : AT(b, i, j - n));
  X x = x_new(ff, rep, win, a), y = x_new(ff, rep, win, b), c; E g = e_fill(ff, r.m, r.n, 1, "G");
  if (PAR(8)) c = x_new(ff, rep, PAR(8) - 1, g); else { memset(&c, 0, sizeof c); c.rep = rep; }
  if (rep) { mzd_slice_t *t = op ? mzd_slice_stack(c.z, x.z, y.z) : mzd_slice_concat(c.z, x.z, y.z); if (c.z) sym_assert(t == c.z, "returns the destination"); c.z = t; }
  else { mzed_t *t = op ? mzed_stack(c.m, x.m, y.m) : mzed_concat(c.m, x.m, y.m); if (c.m) sym_assert(t == c.m, "returns the destination"); c.m = t; }
  if (rep) sym_assert(c.z->finite_field == ff, "field of the result"); else sym_assert(c.m->finite_field == ff, "field of the result");
  x_chk(c, r, op ? "stack" : "concat"); x_chk(x, a, "A changed"); x_chk(y, b, "B changed"); x_free(c); x_free(x); x_free(y);
}
/* 7 given, 8.. lowr lowc highr highc (-1: every) */
void submat(void) {
  int rep = PAR(2), win = PAR(3), m = PAR(4), n = PAR(5); gf2e *ff = h_field(PAR(0), PAR(1)); E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, win, a), c;
  int lr = PAR(8) < 0 ? h_idx(0, m, "lowr") : PAR(8), hr = PAR(10) < 0 ? h_idx(lr + 1, m + 1, "highr") : PAR(10), lc = PAR(9) < 0 ? h_idx(0, n, "lowc") : PAR(9), hc = PAR(11) < 0 ? h_idx(lc + 1, n + 1, "highc") : PAR(11);
  E r = e_new(hr - lr, hc - lc), g = e_fill(ff, hr - lr, hc - lc, 1, "G"); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) AT(r, i, j) = AT(a, i + lr, j + lc);
  if (PAR(7)) c = x_new(ff, rep, PAR(7) - 1, g); else { memset(&c, 0, sizeof c); c.rep = rep; }
  if (rep) c.z = mzd_slice_submatrix(c.z, x.z, lr, lc, hr, hc); else c.m = mzed_submatrix(c.m, x.m, lr, lc, hr, hc);
  x_chk(c, r, "submatrix"); x_chk(x, a, "source changed"); x_free(c); x_free(x);
}
/* a window shows the addressed block and writes go through to it only; then a window of the window */
void window(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5); gf2e *ff = h_field(e, PAR(1)); E a = e_fill(ff, m, n, PAR(6), "A");
  X x = x_new(ff, rep, 0, a); int al = rep ? 64 : 64 / h_w(e);
  int lr = PAR(8) < 0 ? h_idx(0, m, "lowr") : PAR(8), hr = PAR(10) < 0 ? h_idx(lr + 1, m + 1, "highr") : PAR(10), lc = al * h_idx(0, (n + al - 1) / al, "lowc"), hc = PAR(11) < 0 ? h_idx(lc + 1, n + 1, "highc") : PAR(11);
  if (hc <= lc) hc = lc + 1;
  E r = e_new(hr - lr, hc - lc); for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) AT(r, i, j) = AT(a, i + lr, j + lc);
  mzed_t *w = NULL; mzd_slice_t *s = NULL; if (rep) s = mzd_slice_init_window(x.z, lr, lc, hr, hc); else w = mzed_init_window(x.m, lr, lc, hr, hc);
  if (rep) sym_assert(s->nrows == hr - lr && s->ncols == hc - lc && s->finite_field == ff, "window header"); else sym_assert(w->nrows == hr - lr && w->ncols == hc - lc && w->finite_field == ff && w->w == x.m->w, "window header");
  for (int i = 0; i < r.m; i++) for (int j = 0; j < r.n; j++) sym_assert_eq(rep ? mzd_slice_read_elem(s, i, j) : mzed_read_elem(w, i, j), AT(r, i, j), "read through window", i, j);
  int i = h_idx(0, r.m, "i"), j = r.n - 1; u64 v = sym_bits(e, "v");
  if (rep) mzd_slice_write_elem(s, i, j, v); else mzed_write_elem(w, i, j, v); AT(a, i + lr, j + lc) = v; x_chk(x, a, "write through window");
  { mzed_t *t; mzd_slice_t *u; int dr = r.m > 1;
    if (rep) { u = mzd_slice_init_window(s, dr, 0, r.m, r.n); sym_assert_eq(mzd_slice_read_elem(u, r.m - dr - 1, r.n - 1), AT(a, hr - 1, hc - 1), "nested window", 0, 0); mzd_slice_set_ui(u, 0); mzd_slice_free_window(u); }
    else { t = mzed_init_window(w, dr, 0, r.m, r.n); sym_assert_eq(mzed_read_elem(t, r.m - dr - 1, r.n - 1), AT(a, hr - 1, hc - 1), "nested window", 0, 0); mzed_set_ui(t, 0); mzed_free_window(t); }
    for (int i2 = lr + dr; i2 < hr; i2++) for (int j2 = lc; j2 < hc; j2++) AT(a, i2, j2) = 0;
    x_chk(x, a, "clearing a nested window"); }
  if (rep) mzd_slice_free_window(s); else mzed_free_window(w);
  x_chk(x, a, "parent after freeing the window"); x_free(x);
}
/* P11: 6 fill, 7 direction 0 slice 1 cling, 8 given destination (0 NULL 1 given), 9 window of destination */
void conv(void) {
  int win = PAR(3), m = PAR(4), n = PAR(5), dir = PAR(7); gf2e *ff = h_field(PAR(0), PAR(1)); E a = e_fill(ff, m, n, PAR(6), "A"), g = e_fill(ff, m, n, 1, "G");
  X x = x_new(ff, dir, win, a), c;
  if (PAR(8)) { c = x_new(ff, !dir, PAR(9), g); if (dir) sym_assert(mzed_cling(c.m, x.z) == c.m, "returns the destination"); else sym_assert(mzed_slice(c.z, x.m) == c.z, "returns the destination"); }
  else c = dir ? x_wrap_m(mzed_cling(NULL, x.z)) : x_wrap_s(mzed_slice(NULL, x.m));
  x_chk(c, a, dir ? "cling" : "slice"); x_chk(x, a, "source changed");
  X b = dir ? x_wrap_s(mzed_slice(NULL, c.m)) : x_wrap_m(mzed_cling(NULL, c.z)); x_chk(b, a, "there and back"); x_free(b); x_free(c); x_free(x);
}
/* P12: 7 op 0 mul packed/sliced 1 addmul sliced, 8 dest 0 NULL 1 given 2 same, 9 scalar (-1 symbolic) */
void scal(void) {
  int e = PAR(0), rep = PAR(2), win = PAR(3), m = PAR(4), n = PAR(5), op = PAR(7), d = PAR(8); gf2e *ff = h_field(e, PAR(1));
  E b = e_fill(ff, m, n, PAR(6), "B"), g = e_fill(ff, m, n, PAR(10), "G"), r = e_new(m, n); u64 v = PAR(9) < 0 ? sym_bits(e, "s") : (u64)PAR(9) & ((1ULL << e) - 1);
  for (int i = 0; i < m * n; i++) r.v[i] = h_mul(ff, v, b.v[i]) ^ (op ? g.v[i] : 0);
  X x = x_new(ff, rep, win, b), c;
  if (d == 0) c = rep ? x_wrap_s(mzd_slice_mul_scalar(NULL, v, x.z)) : x_wrap_m(mzed_mul_scalar(NULL, v, x.m));
  else { c = d == 2 ? x : x_new(ff, rep, win, g);
    if (rep) { mzd_slice_t *t = op ? mzd_slice_addmul_scalar(c.z, v, x.z) : mzd_slice_mul_scalar(c.z, v, x.z); sym_assert(t == c.z, "returns the destination"); }
    else sym_assert(mzed_mul_scalar(c.m, v, x.m) == c.m, "returns the destination"); }
  x_chk(c, r, "scalar multiple"); if (d != 2) { x_chk(x, b, "source changed"); x_free(c); } x_free(x);
}
/* P28 */
void rnd(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5); gf2e *ff = h_field(e, PAR(1)); E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, PAR(3), a);
  X_GO(x, mzed_randomize(x.m), mzd_slice_randomize(x.z));
  E q = x_get(x); for (int i = 0; i < m * n; i++) sym_assert_eq(q.v[i] >> e, 0, "not a field element", i / n, i % n);
  x_outside(x, "element outside the window changed"); x_clean(x, "stray bits outside the elements");
  if (PAR(7)) { x_free(x); return; }
  int all = (int)(h_rand() % (m * n)); /* one position: every element; the others: a draw once the field is large */
#define RND_STEP(i) (t >= (1ULL << e) - 2 ? 1 : (i) != all ? (e > 6 ? t + 1 + ((u64)(i) * 7919 + t * 31) % (1ULL << (e - 4)) >= (1ULL << e) ? (1ULL << e) - 1 - t : 1 + ((u64)(i) * 7919 + t * 31) % (1ULL << (e - 4)) : 1) : e < 13 ? 1 : 1 + (t + (t >> e / 2)) % (1 << (e - 12)))
  for (int i = 0; i < m * n; i++) for (u64 t = 0; t < (1ULL << e); t += RND_STEP(i)) sym_assert(sym_feasible(q.v[i] == t), "an element that can never occur");
  if (!sym_is_engine() && sym_go_random()) { /* replay of "never occurs": 64 * 2^e further fillings */
    unsigned char *seen = calloc((size_t)m * n, 1ULL << e);
    for (u64 k = 0; k < 64ULL << e; k++) { X_GO(x, mzed_randomize(x.m), mzd_slice_randomize(x.z)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) seen[((size_t)(i * n + j) << e) + ((x.rep ? mzd_slice_read_elem(x.z, i, j) : mzed_read_elem(x.m, i, j)) & ((1ULL << e) - 1))] = 1; }
    for (int i = 0; i < m * n; i++) for (u64 t = 0; t < (1ULL << e); t += RND_STEP(i)) sym_assert(seen[((size_t)i << e) + t], "an element that never occurs");
    free(seen);
  }
  x_free(x);
}
/* P29 */
static u64 hexch(u64 d) { return sym_ite(d < 10, '0' + d, 'a' + d - 10); }
void print(void) {
  int e = PAR(0), rep = PAR(2), m = PAR(4), n = PAR(5), w = h_w(e), wd = w / 4 + (w % 4 ? 1 : 0); gf2e *ff = h_field(e, PAR(1)); E a = e_fill(ff, m, n, PAR(6), "A"); X x = x_new(ff, rep, PAR(3), a);
  sym_out_begin(); X_GO(x, mzed_print(x.m), mzd_slice_print(x.z));
  u64 len = sym_out_len(), pos = 0;
  sym_assert_eq(len, (u64)m * (2 + 1 + (u64)n * wd + (n - 1)), "length of the output", 0, 0);
  for (int i = 0; i < m; i++) {
    sym_assert_eq(sym_out(pos++), '[', "opening bracket", i, 0);
    for (int j = 0; j < n; j++) {
      u64 lead = 1;
      for (int d = wd - 1; d >= 0; d--) { u64 nib = (AT(a, i, j) >> (4 * d)) & 15; lead = lead & (nib == 0) & (d > 0); u64 ch = sym_out(pos++); sym_assert((ch == hexch(nib)) | (lead & (ch == ' ')) | (lead & (ch == '0')), "digit"); }
      if (j < n - 1) sym_assert_eq(sym_out(pos++), ' ', "separator", i, j);
    }
    sym_assert_eq(sym_out(pos++), ']', "closing bracket", i, 0); sym_assert_eq(sym_out(pos++), '\n', "end of row", i, 0);
  }
  x_chk(x, a, "matrix changed"); x_free(x);
}
LEAK(rdwr)
LEAK(rowop)
LEAK(colswap)
LEAK(perm)
LEAK(add)
LEAK(copy)
LEAK(setui)
LEAK(cmpz)
LEAK(iszero)
LEAK(glue)
LEAK(submat)
LEAK(window)
LEAK(conv)
LEAK(scal)
LEAK(rnd)
LEAK(print)
