/* Multi-word arithmetic as exact integer polynomials. */
#include <string.h>
#include "tv.h"
#include "mpi.c"

#define P(n) __tv_phase(n)
#define LB ((int)sizeof(mp_limb_t))
#define MAX 48

static int wt[3 * MAX];
static int ideal;

static int
num(unsigned long v) {
  unsigned char b[8];
  int i;
  for (i = 0; i < 8; i++)
    b[7 - i] = (unsigned char)(v >> (8 * i));
  return __tv_pnum(b, 8);
}

static int
pw(unsigned k) {
  static unsigned char b[1400];
  memset(b, 0, sizeof(b));
  b[1399 - k / 8] = 1 << (k % 8);
  return __tv_pnum(b, 1400);
}

static int val(const mp_limb_t *x, int n) { return __tv_pval(x, n, LB, wt); }
static int add(int a, int b) { return __tv_parith('+', a, b); }
static int sub(int a, int b) { return __tv_parith('-', a, b); }
static int mul(int a, int b) { return __tv_parith('*', a, b); }

/* z + c * B^n */
static int
with(const mp_limb_t *z, int n, mp_limb_t c) {
  return add(val(z, n), mul(val(&c, 1), pw(n * 8 * LB)));
}

/* z - c * B^n */
static int
without(const mp_limb_t *z, int n, mp_limb_t c) {
  return sub(val(z, n), mul(val(&c, 1), pw(n * 8 * LB)));
}

static void
same(int a, int b, const char *name) {
  __tv_pzero(sub(a, b), 0, name);
}

static void vars(mp_limb_t *x, int n) { __tv_pvars(x, n, LB, 0, (mp_limb_t)-1); }

static void
open(void) {
  int i;
  for (i = 0; i < 3 * MAX; i++)
    wt[i] = i * 8 * LB;
}

/* Once proved, the word by word operations are their results. */
mp_limb_t
__tvc_torsion__mpn_mul_1(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_limb_t y) {
  mp_limb_t t[MAX + 1];
  if (!ideal)
    return mpn_mul_1(zp, xp, xn, y);
  __tv_pstore(t, xn + 1, LB, mul(val(xp, xn), val(&y, 1)));
  memcpy(zp, t, xn * sizeof(mp_limb_t));
  return t[xn];
}

mp_limb_t
__tvc_torsion__mpn_addmul_1(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_limb_t y) {
  mp_limb_t t[MAX + 1];
  if (!ideal)
    return mpn_addmul_1(zp, xp, xn, y);
  __tv_pstore(t, xn + 1, LB, add(val(zp, xn), mul(val(xp, xn), val(&y, 1))));
  memcpy(zp, t, xn * sizeof(mp_limb_t));
  return t[xn];
}

mp_limb_t
__tvc_torsion__mpn_add_n(mp_limb_t *zp, const mp_limb_t *xp, const mp_limb_t *yp, mp_size_t n) {
  mp_limb_t c;
  int d;
  if (!ideal)
    return mpn_add_n(zp, xp, yp, n);
  d = add(val(xp, n), val(yp, n));
  __tv_pstore(zp, n, LB, d);
  __tv_pstore(&c, 1, LB, __tv_pfloor(d, wt[n], 8 * LB));
  return c;
}

mp_limb_t
__tvc_torsion__mpn_lshift(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn, mp_bits_t bits) {
  mp_limb_t t[2 * MAX + 1];
  if (!ideal)
    return mpn_lshift(zp, xp, xn, bits);
  __tv_pstore(t, xn + 1, LB, mul(val(xp, xn), pw(bits)));
  memcpy(zp, t, xn * sizeof(mp_limb_t));
  return t[xn];
}

static void
linear(int n) {
  mp_limb_t x[MAX], y[MAX], z[MAX], w, c;
  int i, a, b;
  open();
  vars(x, n);
  vars(y, n);
  vars(&w, 1);
  a = val(x, n);
  b = val(y, n);
  P("mpn_add_n");
  c = mpn_add_n(z, x, y, n);
  same(with(z, n, c), add(a, b), "sum");
  mpn_copyi(z, x, n);
  c = mpn_add_n(z, z, y, n);
  same(with(z, n, c), add(a, b), "sum in place");
  P("mpn_sub_n");
  c = mpn_sub_n(z, x, y, n);
  same(without(z, n, c), sub(a, b), "difference");
  mpn_copyi(z, y, n);
  c = mpn_sub_n(z, x, z, n);
  same(without(z, n, c), sub(a, b), "difference in place");
  P("mpn_sec_add_1");
  c = mpn_sec_add_1(z, x, n, w);
  same(with(z, n, c), add(a, val(&w, 1)), "sum with a word");
  P("mpn_sec_sub_1");
  c = mpn_sec_sub_1(z, x, n, w);
  same(without(z, n, c), sub(a, val(&w, 1)), "difference with a word");
  P("mpn_mul_1");
  c = mpn_mul_1(z, x, n, w);
  same(with(z, n, c), mul(a, val(&w, 1)), "product with a word");
  mpn_copyi(z, x, n);
  c = mpn_mul_1(z, z, n, w);
  same(with(z, n, c), mul(a, val(&w, 1)), "product with a word in place");
  P("mpn_addmul_1");
  mpn_copyi(z, y, n);
  c = mpn_addmul_1(z, x, n, w);
  same(with(z, n, c), add(b, mul(a, val(&w, 1))), "sum with a product");
  P("mpn_submul_1");
  mpn_copyi(z, y, n);
  c = mpn_submul_1(z, x, n, w);
  same(without(z, n, c), sub(b, mul(a, val(&w, 1))), "difference with a product");
  P("mpn_neg");
  c = mpn_neg(z, x, n);
  same(without(z, n, c), sub(num(0), a), "negation");
  for (i = 1; i < 8 * LB; i += 8 * LB / 2 - 1) {
    P("mpn_lshift");
    c = mpn_lshift(z, x, n, i);
    same(with(z, n, c), mul(a, pw(i)), "left shift");
    mpn_copyi(z, x, n);
    c = mpn_lshift(z, z, n, i);
    same(with(z, n, c), mul(a, pw(i)), "left shift in place");
    P("mpn_rshift");
    c = mpn_rshift(z, x, n, i);
    same(add(mul(val(z, n), pw(i)), val(&c, 1)), a, "right shift");
    mpn_copyi(z, x, n);
    c = mpn_rshift(z, z, n, i);
    same(add(mul(val(z, n), pw(i)), val(&c, 1)), a, "right shift in place");
  }
}

static void
product(int n, int m) {
  mp_limb_t x[MAX], y[MAX], z[2 * MAX];
  open();
  ideal = 1;
  vars(x, n);
  vars(y, m);
  P("mpn_mul");
  mpn_mul(z, x, n, y, m);
  same(val(z, n + m), mul(val(x, n), val(y, m)), "product");
  if (n == m) {
    mpn_mul_n(z, x, y, n);
    same(val(z, n + m), mul(val(x, n), val(y, m)), "product of equal sizes");
  }
}

static void
square(int n) {
  mp_limb_t x[MAX], z[2 * MAX], t[2 * MAX];
  open();
  ideal = 1;
  vars(x, n);
  P("mpn_sqr");
  mpn_sqr(z, x, n, t);
  same(val(z, 2 * n), mul(val(x, n), val(x, n)), "square");
}

#define LINEAR(n) void tv_mpn_linear_##n(void) { linear(n); }
#define PRODUCT(n, m) void tv_mpn_product_##n##_##m(void) { product(n, m); }
#define SQUARE(n) void tv_mpn_square_##n(void) { square(n); }

LINEAR(1) LINEAR(2) LINEAR(3) LINEAR(4) LINEAR(5) LINEAR(6) LINEAR(7) LINEAR(8)
LINEAR(9) LINEAR(12) LINEAR(14) LINEAR(17) LINEAR(20)
PRODUCT(1, 1) PRODUCT(2, 2) PRODUCT(3, 2) PRODUCT(3, 3) PRODUCT(4, 4)
PRODUCT(6, 6) PRODUCT(7, 7) PRODUCT(8, 8) PRODUCT(9, 9)
PRODUCT(10, 7) PRODUCT(10, 4) PRODUCT(20, 12)
SQUARE(1) SQUARE(2) SQUARE(3) SQUARE(4) SQUARE(6) SQUARE(7) SQUARE(8) SQUARE(9) SQUARE(12) SQUARE(17)
