/* Field and scalar arithmetic as exact integer polynomials. The back ends are
 * reached through the field tables, so this file includes their owner. */
#include "tv.h"
#include "ecc.c"

#define P(n) __tv_phase(n)
#define NW MAX_FIELD_WORDS

/* Weights of the words, and of bytes. */
static int wt[NW + 1], bytewt[80];
static uint64_t tight[NW], loose[NW];
static int modp, mont;
static size_t nb;
static prime_field_t F;

static int
pw(unsigned k) {
  unsigned char b[160];
  memset(b, 0, sizeof(b));
  b[159 - k / 8] = 1 << (k % 8);
  return __tv_pnum(b, 160);
}

static int
num(long v) {
  unsigned char b[8];
  int i;
  for (i = 0; i < 8; i++)
    b[7 - i] = (unsigned char)((v < 0 ? -v : v) >> (8 * i));
  if (v < 0)
    return __tv_parith('-', __tv_pnum(b, 0), __tv_pnum(b, 8));
  return __tv_pnum(b, 8);
}

static int val(const fe_word_t *x) { return __tv_pval(x, F.words, sizeof(fe_word_t), wt); }
static int bval(const unsigned char *x) { return __tv_pval(x, F.size, 1, bytewt); }

static void
vars(fe_word_t *x, const uint64_t *hi) {
  size_t i;
  for (i = 0; i < F.words; i++)
    __tv_pvars(x + i, 1, sizeof(fe_word_t), 0, hi[i]);
  if (mont)
    __tv_pmax(val(x), __tv_parith('-', modp, num(1)));
}

static void
within(const fe_word_t *x, const uint64_t *hi) {
  size_t i;
  if (mont) {
    __tv_pbelow(val(x), __tv_parith('-', modp, num(1)), "fully reduced result");
    return;
  }
  for (i = 0; i < F.words; i++)
    __tv_assert(x[i] <= hi[i], "result within the bounds its users rely on");
}

static void
same(int got, int want, const char *name) {
  __tv_pzero(__tv_parith('-', got, want), modp, name);
}

static void
open_field(const prime_def_t *def, int tenths) {
  size_t i;
  prime_field_init(&F, def, 1);
  modp = __tv_pnum(def->p, F.size);
  mont = F.to_montgomery != NULL;
  nb = F.size;
  for (i = 0; i <= F.words; i++)
    wt[i] = mont ? (int)(i * 8 * sizeof(fe_word_t)) : (int)((F.bits * i + F.words - 1) / F.words);
  for (i = 0; i < F.words; i++) {
    tight[i] = mont ? (fe_word_t)-1 : ((UINT64_C(1) << (wt[i + 1] - wt[i])) * tenths + 9) / 10;
    loose[i] = mont ? (fe_word_t)-1 : 3 * tight[i];
  }
  if (mont) {
    unsigned top = F.bits - wt[F.words - 1];
    if (top < 8 * sizeof(fe_word_t))
      tight[F.words - 1] = loose[F.words - 1] = (UINT64_C(1) << top) - 1;
  }
  for (i = 0; i < 80; i++)
    bytewt[i] = (int)(8 * i);
}

static int R(void) { return mont ? pw(wt[F.words]) : num(1); }

static void
linear(void) {
  fe_t x, y, z;
  P("field_add");
  vars(x, tight);
  vars(y, tight);
  F.add(z, x, y);
  same(val(z), __tv_parith('+', val(x), val(y)), "sum");
  within(z, loose);
  F.sub(z, x, y);
  same(val(z), __tv_parith('-', val(x), val(y)), "difference");
  within(z, loose);
  F.opp(z, x);
  same(val(z), __tv_parith('-', num(0), val(x)), "negation");
  within(z, loose);
  if (F.carry) {
    vars(x, loose);
    F.carry(z, x);
    same(val(z), val(x), "carry");
    within(z, tight);
  }
}

static void
scale(fe_scmul_f *f, long k) {
  fe_t x, z;
  if (f == NULL)
    return;
  vars(x, loose);
  f(z, x);
  same(val(z), __tv_parith('*', val(x), num(k)), "multiplication by a constant");
  within(z, tight);
}

static void
scales(long a24, long d) {
  P("field_scale");
  scale(F.scmul_3, 3);
  scale(F.scmul_4, 4);
  scale(F.scmul_8, 8);
  scale(F.scmul_a24, a24);
  memcpy(loose, tight, sizeof(loose)); /* it negates first */
  scale(F.scmul_d, d);
}

static void
mul(void) {
  fe_t x, y, z;
  P("field_mul");
  vars(x, loose);
  vars(y, loose);
  F.mul(z, x, y);
  same(__tv_parith('*', val(z), R()), __tv_parith('*', val(x), val(y)), "product");
  within(z, tight);
  /* Arguments may coincide. */
  fe_set(&F, z, x);
  F.mul(z, z, y);
  same(__tv_parith('*', val(z), R()), __tv_parith('*', val(x), val(y)), "product in place");
}

static void
sqr(void) {
  fe_t x, z;
  P("field_sqr");
  vars(x, loose);
  F.square(z, x);
  same(__tv_parith('*', val(z), R()), __tv_parith('*', val(x), val(x)), "square");
  within(z, tight);
}

static void
bytes(void) {
  unsigned char b[80];
  fe_t x, z;
  P("field_bytes");
  vars(x, tight);
  F.to_bytes(b, x);
  same(bval(b), val(x), "bytes of an element");
  __tv_pbelow(bval(b), __tv_parith('-', modp, num(1)), "canonical bytes");
  __tv_pvars(b, F.size, 1, 0, 255);
  if (F.bits & 7)
    __tv_pvars(b + F.size - 1, 1, 1, 0, (1 << (F.bits & 7)) - 1);
  __tv_pmax(bval(b), __tv_parith('-', modp, num(1)));
  F.from_bytes(z, b);
  same(val(z), bval(b), "element of bytes");
  within(z, tight);
}

#define FIELD(name, tenths, a24, d)                                       \
void tv_field_##name##_linear(void) { open_field(&field_##name, tenths); linear(); }        \
void tv_field_##name##_scale(void) { open_field(&field_##name, tenths); scales(a24, d); }   \
void tv_field_##name##_mul(void) { open_field(&field_##name, tenths); mul(); }              \
void tv_field_##name##_sqr(void) { open_field(&field_##name, tenths); sqr(); }              \
void tv_field_##name##_bytes(void) { open_field(&field_##name, tenths); bytes(); }

#ifdef TORSION_HAVE_INT128
#define SECP_TENTHS 10
#else
#define SECP_TENTHS 11
#endif

FIELD(p192, 10, 0, 0)
FIELD(p224, 10, 0, 0)
FIELD(p256, 10, 0, 0)
FIELD(p384, 10, 0, 0)
FIELD(p521, 10, 0, 0)
FIELD(secp256k1, SECP_TENTHS, 0, 0)
FIELD(p25519, 10, 121666, 0)
FIELD(p448, 10, 39082, -39081)
FIELD(p251, 10, 0, -1174)
