/* fields and GF(2)[x] helpers (P01-P05) */
#include "h.h"
static int h_idx2(int lo, int hi, const char *nm) { int n = hi - lo, b = 1; if (n <= 1) return lo; while ((1 << b) < n) b++; u64 v = sym_bits(b, nm); sym_assume(v < (u64)n); return lo + (int)sym_concrete(v); }
/* a polynomial of degree below n, by degree; 0 if z */
static u64 h_bydeg(int n, int z, const char *nm) { int d = h_idx2(z ? -1 : 0, n, nm); if (d < 0) return 0; return d ? sym_bits(d, nm) | 1ULL << d : 1; }
static u64 fclmul(u64 a, u64 b, int na) { u64 r = 0; for (int i = 0; i < na; i++) r ^= (0 - ((a >> i) & 1)) & (b << i); return r; }
static int cdeg(u64 a) { int d = -1; while (a) { d++; a >>= 1; } return d; }
/* 0 degree, 1 first polynomial, 2 number of polynomials */
void fmul(void) {
  int e = PAR(0), c = PAR(2), n = (int)irreducible_polynomials[e][0]; if (m4ri_codebook == NULL) m4ri_build_all_codes();
  for (int t = 0; t < c && PAR(1) + t < n; t++) {
    u64 mp = irreducible_polynomials[e][1 + PAR(1) + t]; gf2e *ff = gf2e_init(mp); u64 a = sym_bits(e, "a"), b = sym_bits(e, "b"), w = sym_gfmul(a, b, mp, e);
    sym_assert((int)ff->degree == e && ff->minpoly == mp, "degree and minimal polynomial of the field");
    sym_assert_eq(gf2e_mul(ff, a, b), w, "gf2e_mul", t, 0); sym_assert_eq(ff->mul(ff, a, b), w, "ff->mul", t, 0);
    sym_assert_eq(_gf2e_mul_arith(ff, a, b), w, "arithmetic product", t, 0); if (e <= 8) sym_assert_eq(_gf2e_mul_table(ff, a, b), w, "table product", t, 0);
    for (int i = 0; i < 2 * e - 1; i++) { u64 x = 1; for (int j = 0; j < i; j++) { x <<= 1; if (x >> e & 1) x ^= mp; } sym_assert_eq(ff->pow_gen[i], x, "power of the generator", i, 0); }
    sym_assert((int)gf2e_degree_to_w(ff) == h_w(e), "slot width"); gf2e_free(ff);
  }
}
/* 0 degree, 1 polynomial, 2 number of low bits that are symbolic (0: all), 3 upper part, 4 number of consecutive upper parts, 5 through the pointer */
void finv(void) {
  int e = PAR(0), nb = PAR(2) ? PAR(2) : e; gf2e *ff = h_field(e, PAR(1)); u64 a;
  if (PAR(2) == 0) { int d = h_idx2(0, e, "deg"); a = sym_bits(d ? d : 1, "a"); if (d) a |= 1ULL << d; else a = 1; } /* every non-zero element, by degree */
  else { u64 hi = (u64)h_idx2(PAR(3), PAR(3) + (PAR(4) ? PAR(4) : 1), "hi"); a = sym_bits(nb, "a") | (hi << nb & ((1ULL << e) - 1)); sym_assume(a != 0); }
  u64 b = PAR(5) ? ff->inv(ff, a) : gf2e_inv(ff, a);
  sym_assert_eq(b >> e, 0, "inverse is a field element", 0, 0); sym_assert_eq(h_mul(ff, a, b), 1, "a * a^-1", 0, 0);
  h_ffree(ff);
}
/* gf2x_mul: 0 d */
void xmul(void) { int d = PAR(0); u64 a = sym_bits(d, "a"), b = sym_bits(d, "b"); sym_assert_eq(gf2x_mul(a, b, d), fclmul(a, b, d), "carry-less product", d, 0); }
void xdeg(void) { int n = PAR(0); u64 a = h_bydeg(n, 1, "a"); int d = gf2x_deg(a); d = (int)sym_concrete((u64)d); sym_assert(d >= 0 && d < 64, "degree in range"); if (d < 0 || d > 63) return;
  if (d == 0) sym_assert_eq(a >> 1, 0, "degree 0", 0, 0); else sym_assert_eq(a >> d, 1, "leading coefficient", d, 0); }
/* division: 0 bits of a, 1 bits of b, 2 what is concrete (0 nothing, 1 b, 2 a, 3 upper half of b), 3 seed, 4 shift of a and b */
void xdiv(void) {
  int na = PAR(0), nb = PAR(1); h_seed(PAR(3)); u64 ra = h_rand() >> (64 - na), rb = h_rand() >> (64 - nb);
  u64 a = PAR(2) == 2 ? ra : h_bydeg(na, 1, "a"), b = PAR(2) == 1 ? rb | 1ULL << (nb - 1) : h_bydeg(nb, 0, "b");
  int db = 0; for (int i = 1; i < nb; i++) if (sym_concrete((b >> i) != 0)) db = i;
  u64 q = gf2x_div(a, b), r = gf2x_mod(a, b), r2 = 0, q2 = gf2x_divmod(a, b, &r2);
  sym_assert_eq(q2, q, "quotients agree", 0, 0); sym_assert_eq(r2, r, "remainders agree", 0, 0);
  sym_assert_eq(r >> db, 0, "degree of the remainder", 0, 0); sym_assert_eq(fclmul(q, b, na) ^ r, a, "a = q*b + r", 0, 0);
  if (na > db) sym_assert_eq((q >> (na - db - 1)) >> 1, 0, "degree of the quotient", 0, 0); else sym_assert_eq(q, 0, "small dividend", 0, 0);
}
/* inverse modulo any polynomial prime to a: 0 d (degree of b), 1 degree of a, 2 bound given to gf2x_invmod, 3 number of low bits of a that are symbolic while the others are forked (0: both all symbolic, else b concrete from 4), 5 first, 6 number of upper parts */
static int sdeg(u64 a, int n) { for (int i = n; i >= 0; i--) if (sym_concrete((a >> i) & 1)) return i; return -1; }
void xinv(void) {
  int db = PAR(0), da = PAR(1); h_seed(PAR(4) + 1); u64 a, b, c = h_rand() >> 30; int nb = PAR(3);
  if (nb) { b = (c & ((1ULL << db) - 1)) | 1ULL << db; a = sym_bits(nb, "a") | (u64)h_idx2(PAR(5), PAR(5) + PAR(6), "hi") << nb | 1ULL << da; }
  else { b = db ? sym_bits(db, "b") | 1ULL << db : 1, a = da ? sym_bits(da, "a") | 1ULL << da : 1; }
  u64 r = gf2x_invmod(a, b, PAR(2)), x = a, y = b; int dx = da, dy = db;
  while (dy >= 0) { if (dx < dy) { u64 t = x; x = y; y = t; int k = dx; dx = dy; dy = k; continue; } x ^= y << (dx - dy); dx = sdeg(x, dx - 1); if (dx < 0) { x = y; break; } }
  if (sym_concrete(x != 1)) return; /* not prime to each other */
  sym_assert_eq(r >> (db > da ? db : da), 0, "degree of the inverse", 0, 0); u64 z = fclmul(a, r, da + 1) ^ 1; for (int i = da + (db > da ? db : da); i >= db; i--) z ^= (0 - ((z >> i) & 1)) & (b << (i - db));
  sym_assert_eq(z, 0, "a * a^-1 mod b", 0, 0);
}
static unsigned char present[1 << 17];
/* table of irreducible polynomials: 0 degree, 1 degree of the smaller factor */
void irrtab(void) {
  int n = PAR(0), i = PAR(1); u64 cnt = irreducible_polynomials[n][0];
  static const int mu[17] = {0, 1, -1, -1, 0, -1, 1, -1, 0, 0, 1, -1, 0, -1, 1, 1, 0}; long want = 0; for (int d = 1; d <= n; d++) if (n % d == 0) want += mu[d] * (1L << (n / d)); want /= n;
  sym_assert_eq(cnt, (u64)want, "number of irreducible polynomials", n, 0); memset(present, 0, sizeof present);
  for (u64 k = 0; k < cnt; k++) { u64 p = irreducible_polynomials[n][1 + k]; sym_assert(cdeg(p) == n, "degree of the entry"); if (p >> 17) continue; sym_assert(!present[p], "entries are distinct"); present[p] = 1; }
  if (i == 0) return;
  u64 a = sym_bits(i, "a") | 1ULL << i, b = sym_bits(n - i, "b") | 1ULL << (n - i), p = fclmul(a, b, i + 1);
  sym_assert_eq(present[p & 0x1ffff], 0, "an entry has a proper factor", n, i);
}
/* 16-bit multiplication tables: 0 degree, 1 polynomial, 2 scalar (-1 symbolic) */
void t16(void) {
  int e = PAR(0), w = h_w(e); gf2e *ff = h_field(e, PAR(1)); u64 a = PAR(2) == -1 ? sym_bits(e, "a") : PAR(2) < 0 ? sym_bits(2, "a") << (e - 2) ^ (h_rand() & ((1ULL << e) - 1)) : (u64)PAR(2), m = (1ULL << e) - 1;
  word *t = gf2e_t16_init(ff, a);
  if (PAR(2) >= 0) { u64 x = 0, y = 0; for (int s = 0; s < 16; s += w) { u64 c = sym_bits(e, "x"); x |= c << s; y |= h_mul(ff, a, c) << s; } sym_assert_eq(t[x], y, "product of every element", 0, 0); }
  else for (u64 x = 0; x < 65536; x++) {
    u64 y = 0; int ok = 1; for (int s = 0; s < 16; s += w) { u64 c = (x >> s) & ((1ULL << w) - 1); if (c & ~m) { ok = 0; break; } y |= h_mul(ff, a, c) << s; }
    if (ok) sym_assert_eq(t[x], y, "product of every element", (int)x, 0);
  }
  gf2e_t16_free(t); h_ffree(ff);
}
LEAK(fmul)
LEAK(finv)
LEAK(t16)
