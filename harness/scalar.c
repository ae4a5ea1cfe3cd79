/* Scalar arithmetic as exact integer polynomials. */
#include "tv.h"
#include "ecc.c"

#define P(n) __tv_phase(n)
#define LB ((int)sizeof(mp_limb_t))

static int wt[128], bytewt[256];
static int modn, top;
static scalar_field_t S;
static int zero_flag;

static int
num(unsigned long v) {
  unsigned char b[8];
  int i;
  for (i = 0; i < 8; i++)
    b[7 - i] = (unsigned char)(v >> (8 * i));
  return __tv_pnum(b, 8);
}

static int
pw(unsigned k) {
  unsigned char b[300];
  memset(b, 0, sizeof(b));
  b[299 - k / 8] = 1 << (k % 8);
  return __tv_pnum(b, 300);
}

static int val(const mp_limb_t *x, int n) { return __tv_pval(x, n, LB, wt); }

/* Whether a number is zero is given by the caller. */
int __tvc_torsion__mpn_sec_zero_p(const mp_limb_t *x, mp_size_t n) { return zero_flag; }

/* The multi-word operations are exact (proved by themselves in mpn.c), so the
 * words of the result are those of the exact result. */
static int ideal;

void
__tvc_torsion__mpn_mul(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, const mp_limb_t *yp, mp_size_t yn) {
  if (!ideal)
    mpn_mul(zp, xp, xn, yp, yn);
  else
    __tv_pstore(zp, xn + yn, LB, __tv_parith('*', val(xp, xn), val(yp, yn)));
}

void
__tvc_torsion__mpn_sqr(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_limb_t *scratch) {
  if (!ideal)
    mpn_sqr(zp, xp, xn, scratch);
  else
    __tv_pstore(zp, 2 * xn, LB, __tv_parith('*', val(xp, xn), val(xp, xn)));
}

mp_limb_t
__tvc_torsion__mpn_mul_1(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_limb_t y) {
  mp_limb_t t[MAX_REDUCE_LIMBS];
  if (!ideal)
    return mpn_mul_1(zp, xp, xn, y);
  __tv_pstore(t, xn + 1, LB, __tv_parith('*', val(xp, xn), val(&y, 1)));
  memcpy(zp, t, xn * sizeof(mp_limb_t));
  return t[xn];
}

mp_limb_t
__tvc_torsion__mpn_addmul_1(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_limb_t y) {
  mp_limb_t t[MAX_REDUCE_LIMBS];
  if (!ideal)
    return mpn_addmul_1(zp, xp, xn, y);
  __tv_pstore(t, xn + 1, LB, __tv_parith('+', val(zp, xn), __tv_parith('*', val(xp, xn), val(&y, 1))));
  memcpy(zp, t, xn * sizeof(mp_limb_t));
  return t[xn];
}

mp_limb_t
__tvc_torsion__mpn_add_n(mp_limb_t *zp, const mp_limb_t *xp, const mp_limb_t *yp, mp_size_t n) {
  mp_limb_t c;
  int d;
  if (!ideal)
    return mpn_add_n(zp, xp, yp, n);
  d = __tv_parith('+', val(xp, n), val(yp, n));
  __tv_pstore(zp, n, LB, d);
  __tv_pstore(&c, 1, LB, __tv_pfloor(d, wt[n], 8 * LB));
  return c;
}

mp_limb_t
__tvc_torsion__mpn_sub_n(mp_limb_t *zp, const mp_limb_t *xp, const mp_limb_t *yp, mp_size_t n) {
  mp_limb_t c;
  int d;
  if (!ideal)
    return mpn_sub_n(zp, xp, yp, n);
  d = __tv_parith('-', val(xp, n), val(yp, n));
  __tv_pstore(zp, n, LB, d);
  __tv_pstore(&c, 1, LB, __tv_parith('-', num(0), __tv_pfloor(d, wt[n], 8 * LB)));
  return c;
}

static void
canon(sc_t x) {
  mp_limb_t hi = (mp_limb_t)-1;
  int n = S.limbs, r = S.bits % (8 * LB);
  __tv_pvars(x, n - 1, LB, 0, hi);
  __tv_pvars(x + n - 1, 1, LB, 0, S.n[n - 1]);
  (void)r;
  __tv_pmax(val(x, n), top);
}

static void
check(const sc_t z, int want, const char *name) {
  __tv_pzero(__tv_parith('-', val(z, S.limbs), want), modn, name);
  __tv_pbelow(val(z, S.limbs), top, "fully reduced result");
}

static void
open_scalar(const scalar_def_t *def, int endian) {
  int i;
  scalar_field_init(&S, def, endian);
  modn = __tv_pnum(def->n, S.size);
  top = __tv_parith('-', modn, num(1));
  for (i = 0; i < 128; i++)
    wt[i] = i * 8 * LB;
  for (i = 0; i < 256; i++)
    bytewt[i] = 8 * i;
  for (i = 0; i < S.limbs; i++)
    __tv_assert((S.nh[i] << 1 | (i ? S.nh[i - 1] >> (8 * LB - 1) : 1)) == S.n[i], "half of the order");
  ideal = 1;
}

static void
sums(void) {
  sc_t x, y, z;
  P("scalar_add");
  canon(x);
  canon(y);
  sc_add(&S, z, x, y);
  check(z, __tv_parith('+', val(x, S.limbs), val(y, S.limbs)), "sum");
  zero_flag = 0;
  sc_sub(&S, z, x, y);
  check(z, __tv_parith('-', val(x, S.limbs), val(y, S.limbs)), "difference");
  sc_set(&S, z, x);
  sc_add(&S, z, z, z);
  check(z, __tv_parith('+', val(x, S.limbs), val(x, S.limbs)), "double in place");
}

static void
negs(void) {
  sc_t x, z;
  P("scalar_neg");
  zero_flag = 0;
  canon(x);
  sc_neg(&S, z, x);
  __tv_pzero(__tv_parith('+', val(z, S.limbs), val(x, S.limbs)), modn, "negation");
  sc_neg_cond(&S, z, x, 0);
  __tv_pzero(__tv_parith('-', val(z, S.limbs), val(x, S.limbs)), 0, "no negation");
  sc_neg_cond(&S, z, x, 1);
  __tv_pzero(__tv_parith('+', val(z, S.limbs), val(x, S.limbs)), modn, "conditional negation");
  zero_flag = 1;
  sc_zero(&S, x);
  sc_neg(&S, z, x);
  __tv_pzero(val(z, S.limbs), 0, "negation of zero");
}

static void
muls(void) {
  sc_t x, y, z;
  P("scalar_mul");
  canon(x);
  canon(y);
  sc_mul(&S, z, x, y);
  check(z, __tv_parith('*', val(x, S.limbs), val(y, S.limbs)), "product");
  sc_sqr(&S, z, x);
  check(z, __tv_parith('*', val(x, S.limbs), val(x, S.limbs)), "square");
}

static void
word(void) {
  sc_t x, z;
  mp_limb_t w;
  P("scalar_word");
  canon(x);
  __tv_pvars(&w, 1, LB, 0, (mp_limb_t)-1);
  sc_mul_word(&S, z, x, w);
  check(z, __tv_parith('*', val(x, S.limbs), val(&w, 1)), "product with a word");
}

static void
mont(void) {
  sc_t x, y, z;
  P("scalar_mont");
  canon(x);
  canon(y);
  sc_montmul(&S, z, x, y);
  __tv_pzero(__tv_parith('-', __tv_parith('*', val(z, S.limbs), pw(8 * LB * S.limbs)),
             __tv_parith('*', val(x, S.limbs), val(y, S.limbs))), modn, "Montgomery product");
  __tv_pbelow(val(z, S.limbs), top, "fully reduced result");
}

static void
wide(void) {
  mp_limb_t x[MAX_REDUCE_LIMBS];
  sc_t z;
  P("scalar_reduce");
  __tv_pvars(x, S.shift, LB, 0, (mp_limb_t)-1);
  sc_reduce(&S, z, x);
  check(z, val(x, S.shift), "reduction");
}

static void
bytes(void) {
  unsigned char b[256];
  mp_limb_t x[MAX_REDUCE_LIMBS];
  sc_t z;
  int i, n;
  P("scalar_bytes");
  for (i = 0; i < (int)S.size; i++)
    bytewt[i] = S.endian == 1 ? 8 * ((int)S.size - 1 - i) : 8 * i;
  canon(z);
  sc_export(&S, b, z);
  __tv_pzero(__tv_parith('-', __tv_pval(b, S.size, 1, bytewt), val(z, S.limbs)), 0, "bytes of a scalar");
  __tv_pvars(b, S.size, 1, 0, 255);
  sc_import_raw(&S, z, b);
  __tv_pzero(__tv_parith('-', __tv_pval(b, S.size, 1, bytewt), val(z, S.limbs)), 0, "scalar of bytes");
  if ((S.bits & 7) == 0) {
    sc_import_weak(&S, z, b);
    check(z, __tv_pval(b, S.size, 1, bytewt), "scalar of bytes, reduced");
  }
  n = S.shift * LB;
  for (i = 0; i < n; i++)
    bytewt[i] = S.endian == 1 ? 8 * (n - 1 - i) : 8 * i;
  __tv_pvars(b, n, 1, 0, 255);
  mpn_import(x, S.shift, b, n, S.endian);
  __tv_pzero(__tv_parith('-', __tv_pval(b, n, 1, bytewt), val(x, S.shift)), 0, "wide number of bytes");
  /* Lengths that are no multiple of a word. */
  n = S.size + 1;
  for (i = 0; i < n; i++)
    bytewt[i] = S.endian == 1 ? 8 * (n - 1 - i) : 8 * i;
  mpn_import(x, S.shift, b, n, S.endian);
  __tv_pzero(__tv_parith('-', __tv_pval(b, n, 1, bytewt), val(x, S.shift)), 0, "odd number of bytes");
  mpn_export(b, n, x, S.shift, S.endian);
  __tv_pzero(__tv_parith('-', __tv_pval(b, n, 1, bytewt), val(x, S.shift)), 0, "odd number of bytes again");
}

#define SCALAR(name, endian) \
void tv_scalar_##name##_sums(void) { open_scalar(&field_##name, endian); sums(); } \
void tv_scalar_##name##_negs(void) { open_scalar(&field_##name, endian); negs(); } \
void tv_scalar_##name##_muls(void) { open_scalar(&field_##name, endian); muls(); } \
void tv_scalar_##name##_word(void) { open_scalar(&field_##name, endian); word(); } \
void tv_scalar_##name##_mont(void) { open_scalar(&field_##name, endian); mont(); } \
void tv_scalar_##name##_wide(void) { open_scalar(&field_##name, endian); wide(); } \
void tv_scalar_##name##_bytes(void) { open_scalar(&field_##name, endian); bytes(); }

SCALAR(q192, 1)
SCALAR(q224, 1)
SCALAR(q256, 1)
SCALAR(q384, 1)
SCALAR(q521, 1)
SCALAR(secq256k1, 1)
SCALAR(q25519, -1)
SCALAR(q448, -1)
SCALAR(q251, -1)
