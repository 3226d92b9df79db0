/* One matrix in either representation, optionally as a window of a larger parent
 * whose other elements must stay as they were. */
#ifndef X_H
#define X_H
#include "h.h"
typedef struct { int rep; mzed_t *m, *pm; mzd_slice_t *z, *pz; E pe; int r0, c0, win; const gf2e *ff; } X;
static inline void m_clean_parent(X x) { (void)x; }
/* rep 0 packed, 1 sliced.  win: 0 plain; 1 window with rows and columns of the parent
 * on every side; 2 window at (0,0) with a parent that extends right and below;
 * 3 window down to the last row and up to the last column of the parent */
static inline X x_new(const gf2e *ff, int rep, int win, E a) {
  X x; memset(&x, 0, sizeof x); x.rep = rep; x.win = win; x.ff = ff; int e = (int)ff->degree, align = rep ? 64 : 64 / h_w(e);
  if (!win) { if (rep) x.z = s_of(ff, a); else x.m = m_of(ff, a); return x; }
  x.r0 = win == 2 ? 0 : 1; x.c0 = win == 2 ? 0 : align;
  int pm_ = a.m + x.r0 + (win == 3 ? 0 : 2), pn = a.n + x.c0 + (win == 3 ? 0 : 3);
  x.pe = e_new(pm_, pn); for (int i = 0; i < pm_ * pn; i++) x.pe.v[i] = h_rand() & ((1ULL << e) - 1);
  for (int i = 0; i < a.m; i++) for (int j = 0; j < a.n; j++) AT(x.pe, i + x.r0, j + x.c0) = AT(a, i, j);
  if (rep) { x.pz = s_of(ff, x.pe); x.z = mzd_slice_init_window(x.pz, x.r0, x.c0, x.r0 + a.m, x.c0 + a.n); }
  else { x.pm = m_of(ff, x.pe); x.m = mzed_init_window(x.pm, x.r0, x.c0, x.r0 + a.m, x.c0 + a.n); }
  return x;
}
static inline void x_free(X x) {
  if (x.win) { if (x.rep) { mzd_slice_free_window(x.z); mzd_slice_free(x.pz); } else { mzed_free_window(x.m); mzed_free(x.pm); } e_free(x.pe); }
  else { if (x.rep) mzd_slice_free(x.z); else mzed_free(x.m); }
}
static inline X x_wrap_m(mzed_t *m) { X x; memset(&x, 0, sizeof x); x.m = m; return x; }
static inline X x_wrap_s(mzd_slice_t *z) { X x; memset(&x, 0, sizeof x); x.rep = 1; x.z = z; return x; }
static inline E x_get(X x) { return x.rep ? e_ofs(x.z) : e_ofm(x.m); }
static inline u64 x_at(X x, int i, int j) { return x.rep ? gsr(x.z, i, j) : ger(x.m, i, j); }
/* the matrix holds a, nothing else changed, no stray bits */
#ifndef MODE_CLEAN_ONLY
#define MODE_CLEAN_ONLY (PAR(15) == 1)
#endif
static inline void x_outside(X x, const char *msg) {
  if (!x.win) return;
  int m = x.rep ? x.z->nrows : x.m->nrows, n = x.rep ? x.z->ncols : x.m->ncols;
  for (int i = 0; i < x.pe.m; i++) for (int j = 0; j < x.pe.n; j++) {
    if (i >= x.r0 && i < x.r0 + m && j >= x.c0 && j < x.c0 + n) continue;
    sym_assert_eq(x.rep ? gsr(x.pz, i, j) : ger(x.pm, i, j), AT(x.pe, i, j), msg, i, j);
  }
}
static inline void x_clean(X x, const char *msg) {
  if (x.win) { if (x.rep) clean_s(x.pz, msg); else clean_m(x.pm, msg); }
  else { if (x.rep) clean_s(x.z, msg); else clean_m(x.m, msg); }
}
static inline void x_canon(X x, const char *msg) { /* element slots hold field elements */
  if (x.rep) return; int e = (int)x.m->finite_field->degree; for (int i = 0; i < x.m->nrows; i++) for (int j = 0; j < x.m->ncols; j++) sym_assert_eq(ger(x.m, i, j) >> e, 0, msg, i, j);
}
static inline void x_chk(X x, E a, const char *msg) {
  if (!MODE_CLEAN_ONLY) { if (x.rep) eq_s(x.z, a, msg); else eq_m(x.m, a, msg); } else x_canon(x, "non-canonical element");
  x_outside(x, "element outside the window changed"); x_clean(x, "stray bits outside the elements");
}
#define X_GO(x, fm, fs) do { if ((x).rep) { fs; } else { fm; } } while (0)
/* an index in [lo,hi): every value on its own path */
static inline int h_idx(int lo, int hi, const char *nm) {
  int n = hi - lo, b = 1; if (n <= 1) return lo; while ((1 << b) < n) b++;
  u64 v = sym_bits(b, nm); sym_assume(v < (u64)n); return lo + (int)sym_concrete(v);
}
#endif
