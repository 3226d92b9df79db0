#ifndef M4RI_XOR_H
#define M4RI_XOR_H
/* Stands in for m4ri/xor.h when the sources are encoded: the semantics of the SSE2
 * version (which the build uses) with its alignment assertions, in scalar code. */
#include <m4ri/m4ri_config.h>
#include <m4ri/misc.h>
static inline void _mzd_combine(word *c, word const *t1, wi_t wide) {
  wi_t skip = (__M4RI_ALIGNMENT(c, 16) == 8 && wide) ? 1 : 0;
  if (wide - skip >= 2) assert(__M4RI_ALIGNMENT(c, 16) == __M4RI_ALIGNMENT(t1, 16));
  for (wi_t i = 0; i < wide; i++) c[i] ^= t1[i];
}
#define XOR_N(N) \
  static inline void _mzd_combine_##N(word *m, word const *t[N], wi_t wide) { \
    for (int i = 0; i < N; i++) assert(__M4RI_ALIGNMENT(m, 16) == __M4RI_ALIGNMENT(t[i], 16)); \
    for (wi_t i = 0; i < wide; i++) { word v = m[i]; for (int j = 0; j < N; j++) v ^= t[j][i]; m[i] = v; } \
  }
XOR_N(2) XOR_N(3) XOR_N(4) XOR_N(5) XOR_N(6) XOR_N(7) XOR_N(8)
#endif
