/* Scalars and field elements as rational expressions over named unknowns, points
 * as combinations of named points with such scalars. The functions at the bottom
 * of the library (arithmetic modulo the two primes, decoding of a number from
 * bytes, group operations) are replaced by what they mean; everything built on
 * them runs as it is. What an unknown value satisfies (its range, parity, being
 * a square, being high) is chosen bit by bit from `choices`, so running through
 * all choices covers every case. Values that are different expressions are
 * different unless the harness says otherwise. */

#define A_MAGIC 0x5e000000u
#define A_ID(w) ((w) & 0xffffff)
#define A_IS(w) (((w) & ~(uint64_t)0xffffff) == A_MAGIC)

static int alg_on;
static int a_fr, a_sr;       /* rings: coordinates, scalars */
static int a_f0, a_f1, a_s0, a_s1, a_fn;
static int a_tr, a_t0, a_t1; /* multiples of points of small order */
static int a_cur_a, a_cur_b, a_cur_d; /* curve coefficients */
static int a_cur_edw;        /* 0 short Weierstrass, 1 Edwards, 2 Montgomery */

static unsigned a_choices;
static int a_nchoices;

static int
a_bit(void) {
  return (a_choices >> (a_nchoices++ & 31)) & 1;
}

/* values named after the bytes they come from */
struct a_name { int kind, id, val; };
static struct a_name a_names[400];
static int a_nnames;

static int *
a_named(int kind, int id) {
  int i;

  __tv_assert(id != 0, "a value is not tracked");

  for (i = 0; i < a_nnames; i++)
    if (a_names[i].kind == kind && a_names[i].id == id)
      return &a_names[i].val;

  __tv_assert(a_nnames < 400, "too many names");

  a_names[a_nnames].kind = kind;
  a_names[a_nnames].id = id;
  a_names[a_nnames].val = 0;

  return &a_names[a_nnames++].val;
}

static int
a_find(int kind, int id) {
  int i;

  for (i = 0; i < a_nnames; i++)
    if (a_names[i].kind == kind && a_names[i].id == id)
      return a_names[i].val;

  return 0;
}

/* a yes/no property of a value: assigned once, 1 + answer */
static int
a_attr(int kind, int h) {
  int *v = a_named(kind, h);

  if (*v == 0)
    *v = 1 + a_bit();

  return *v - 1;
}

static void
a_attr_set(int kind, int h, int v) {
  *a_named(kind, h) = 1 + v;
}

/* exactly one of a value and its negation has the property */
static int
a_attr_neg(int kind, int h, int mh) {
  int v = a_find(kind, mh);

  if (v != 0)
    return 1 - (v - 1);

  return a_attr(kind, h);
}

/* ---- field ---- */

static int
a_fnum(const prime_field_t *fe, const fe_word_t *x) {
  unsigned char le[MAX_FIELD_SIZE + 8], be[MAX_FIELD_SIZE + 8];
  fe_t t;
  size_t i;

  if (fe->from_montgomery != NULL) {
    fe->from_montgomery(t, x);
    fe->to_bytes(le, t);
  } else {
    fe->to_bytes(le, x);
  }

  for (i = 0; i < fe->size; i++)
    be[i] = le[fe->size - 1 - i];

  return __tv_rnum(a_fr, be, fe->size);
}

static int
a_fe(const prime_field_t *fe, const fe_word_t *x) {
  int *v;

  if (__tv_known(x, fe->words * sizeof(fe_word_t))) {
    if (A_IS(x[0]))
      return (int)A_ID(x[0]);

    return a_fnum(fe, x);
  }

  v = a_named('w', __tv_id(x, fe->words * sizeof(fe_word_t)));

  if (*v == 0)
    *v = __tv_rvar(a_fr);

  return *v;
}

static void
a_fe_put(const prime_field_t *fe, fe_word_t *z, int h) {
  int i;

  __tv_assert(h != 0, "a coordinate is not tracked");

  for (i = 0; i < fe->words; i++)
    z[i] = 0;

  if (h == a_f1)
    fe_set(fe, z, fe->one);
  else if (h != a_f0)
    z[0] = A_MAGIC | (unsigned)h;
}

static int a_fneg(int h) { return __tv_rop('-', a_f0, h); }

static int
a_odd(int h) {
  int n = __tv_rop('-', a_f0, h);

  if (h == a_f0)
    return 0;

  return a_attr_neg('o', h, n);
}

static int
a_square(int h) {
  h = __tv_rop('s', h, 0);

  if (h == a_f0 || h == a_f1)
    return h != a_f0;

  return a_attr_neg('q', h, __tv_rop('-', a_f0, h));
}

#define FE const prime_field_t *fe

int
__tvc_fe_import(FE, fe_t z, const unsigned char *xp) {
  int id, *v, *r;

  if (!alg_on || __tv_known(xp, fe->size))
    return fe_import(fe, z, xp);

  id = __tv_id(xp, fe->size);
  v = a_named('f', id);
  r = a_named('F', id);

  if (*v == 0)
    *v = __tv_rvar(a_fr);

  if (*r == 0)
    *r = 2;

  a_fe_put(fe, z, *v);

  return *r - 1;
}

void
__tvc_fe_export(FE, unsigned char *zp, const fe_t x) {
  int h;

  if (!alg_on || (__tv_known(x, fe->words * sizeof(fe_word_t)) && !A_IS(x[0]))) {
    fe_export(fe, zp, x);
    return;
  }

  h = a_fe(fe, x);

  {
    int id = a_find('g', h);
    unsigned char tok[4];

    tok[0] = h; tok[1] = h >> 8; tok[2] = h >> 16; tok[3] = id != 0;

    __tv_uf(zp, fe->size, "coordinate", tok, 4);

    if (fe->endian == -1 && (fe->bits & 7) != 0)
      zp[fe->size - 1] &= (1 << (fe->bits & 7)) - 1;

    *a_named('f', __tv_id(zp, fe->size)) = h;
  }
}

int __tvc_fe_is_zero(FE, const fe_t x) { return alg_on ? a_fe(fe, x) == a_f0 : fe_is_zero(fe, x); }
int __tvc_fe_equal(FE, const fe_t x, const fe_t y) { return alg_on ? a_fe(fe, x) == a_fe(fe, y) : fe_equal(fe, x, y); }

int
__tvc_fe_is_odd(FE, const fe_t x) {
  if (!alg_on || (__tv_known(x, fe->words * sizeof(fe_word_t)) && !A_IS(x[0])))
    return fe_is_odd(fe, x);

  return a_odd(a_fe(fe, x));
}

#define A_F1(name, expr) \
void __tvc_##name(FE, fe_t z, const fe_t x) { \
  int a; \
  if (!alg_on) { name(fe, z, x); return; } \
  a = a_fe(fe, x); \
  a_fe_put(fe, z, expr); \
}
#define A_F2(name, op) \
void __tvc_##name(FE, fe_t z, const fe_t x, const fe_t y) { \
  if (!alg_on) { name(fe, z, x, y); return; } \
  a_fe_put(fe, z, __tv_rop(op, a_fe(fe, x), a_fe(fe, y))); \
}

static int
a_times(int one, int h, int k) {
  int r = h;

  while (--k > 0)
    r = __tv_rop('+', r, h);

  return r;
}

A_F1(fe_carry, a)
A_F1(fe_neg, a_fneg(a))
A_F1(fe_neg_nc, a_fneg(a))
A_F1(fe_sqr, __tv_rop('*', a, a))
A_F1(fe_mul3, a_times(0, a, 3))
A_F1(fe_mul4, a_times(0, a, 4))
A_F1(fe_mul8, a_times(0, a, 8))
A_F2(fe_add, '+')
A_F2(fe_add_nc, '+')
A_F2(fe_sub, '-')
A_F2(fe_sub_nc, '-')
A_F2(fe_mul, '*')

#define A_FINV(name) \
int __tvc_##name(FE, fe_t z, const fe_t x) { \
  int a; \
  if (!alg_on) return name(fe, z, x); \
  a = a_fe(fe, x); \
  a_fe_put(fe, z, __tv_rop('/', a, 0)); \
  return a != a_f0; \
}
A_FINV(fe_invert)
A_FINV(fe_invert_var)

/* the root of h: of the two, the one that is itself a square */
static int
a_root(int h, int *root) {
  int r;

  if (h == a_f0) {
    *root = h;
    return 1;
  }

  r = a_find('y', h);

  if (r == 0) {
    *root = *a_named('Y', h);

    if (*root == 0)
      *root = *a_named('Y', h) = __tv_rvar(a_fr);

    return 0;
  }

  *root = a_square(r) ? r : a_fneg(r);

  return 1;
}

static void
a_root_set(int h, int r) {
  *a_named('y', h) = r;
}

int
__tvc_fe_sqrt(FE, fe_t z, const fe_t x) {
  int r, ok;

  if (!alg_on)
    return fe_sqrt(fe, z, x);

  ok = a_root(a_fe(fe, x), &r);
  a_fe_put(fe, z, r);

  return ok;
}

int __tvc_fe_is_square(FE, const fe_t x) { return alg_on ? a_square(a_fe(fe, x)) : fe_is_square(fe, x); }
int __tvc_fe_is_square_var(FE, const fe_t x) { return alg_on ? a_square(a_fe(fe, x)) : fe_is_square_var(fe, x); }

/* ---- scalars ---- */

#define SC const scalar_field_t *sc

static int
a_sc(SC, const mp_limb_t *x) {
  unsigned char be[MAX_SCALAR_SIZE + 8];
  int *v;

  if (__tv_known(x, sc->limbs * sizeof(mp_limb_t))) {
    if (A_IS(x[0])) {
      int h = (int)A_ID(x[0]), r = a_cur_edw ? a_find('L', h) : 0;

      return r ? r : h;
    }

    mpn_export(be, sc->size, x, sc->limbs, 1);

    return __tv_rnum(a_sr, be, sc->size);
  }

  v = a_named('l', __tv_id(x, sc->limbs * sizeof(mp_limb_t)));

  if (*v == 0)
    *v = __tv_rvar(a_sr);

  return *v;
}

static int a_alias(int h);

static void
a_sc_put(SC, mp_limb_t *z, int h) {
  mp_size_t i;

  __tv_assert(h != 0, "a scalar is not tracked");

  h = a_alias(h);

  for (i = 0; i < sc->limbs; i++)
    z[i] = 0;

  if (h != a_s0)
    z[0] = A_MAGIC | (unsigned)h;
}

static int a_sneg(int h) { return a_alias(__tv_rop('-', a_s0, h)); }
static int a_sinv(int h) { return a_alias(__tv_rop('/', h, 0)); }
static int a_sadd(int a, int b) { return a_alias(__tv_rop('+', a, b)); }
static int a_smul(int a, int b) { return a_alias(__tv_rop('*', a, b)); }

/* values the harness declares equal to another one */
static int a_from[8], a_to[8], a_naliases;

static int
a_alias(int h) {
  int i;

  for (i = 0; i < a_naliases; i++)
    if (a_from[i] == h)
      return a_to[i];

  return h;
}

static void
a_equate(int a, int b) {
  a_from[a_naliases] = a;
  a_to[a_naliases++] = b;
}

int __tvc_sc_is_zero(SC, const sc_t x) { return alg_on ? a_sc(sc, x) == a_s0 : sc_is_zero(sc, x); }
int __tvc_sc_equal(SC, const sc_t x, const sc_t y) { return alg_on ? a_sc(sc, x) == a_sc(sc, y) : sc_equal(sc, x, y); }

/* x < y, chosen for values that are not both known */
int
__tvc_sc_cmp_var(SC, const sc_t x, const sc_t y) {
  int a, b, v;

  if (!alg_on || (__tv_known(x, sizeof(sc_t)) && __tv_known(y, sizeof(sc_t)) && !A_IS(x[0]) && !A_IS(y[0])))
    return sc_cmp_var(sc, x, y);

  a = a_sc(sc, x);
  b = a_sc(sc, y);

  if (a == b)
    return 0;

  __tv_assert(a < 8192 && b < 8192, "too many values");

  v = a_find('<', b * 8192 + a);

  if (v != 0)
    return v - 1 ? 1 : -1;

  return a_attr('<', a * 8192 + b) ? -1 : 1;
}

int
__tvc_sc_is_canonical(SC, const sc_t x) {
  int *v;

  if (!alg_on || (__tv_known(x, sizeof(sc_t)) && !A_IS(x[0])))
    return sc_is_canonical(sc, x);

  v = a_named('c', a_sc(sc, x));

  if (*v == 0)
    *v = 2;

  return *v - 1;
}

static int
a_high(int h) {
  if (h == a_s0 || h == a_s1)
    return 0;

  return a_attr_neg('h', h, a_sneg(h));
}

int __tvc_sc_is_high(SC, const sc_t x) { return alg_on ? a_high(a_sc(sc, x)) : sc_is_high(sc, x); }
int __tvc_sc_is_high_var(SC, const sc_t x) { return alg_on ? a_high(a_sc(sc, x)) : sc_is_high_var(sc, x); }

#define A_S2(name, op) \
void __tvc_##name(SC, sc_t z, const sc_t x, const sc_t y) { \
  if (!alg_on) { name(sc, z, x, y); return; } \
  a_sc_put(sc, z, __tv_rop(op, a_sc(sc, x), a_sc(sc, y))); \
}
A_S2(sc_add, '+')
A_S2(sc_sub, '-')
A_S2(sc_mul, '*')

void
__tvc_sc_neg(SC, sc_t z, const sc_t x) {
  if (!alg_on) { sc_neg(sc, z, x); return; }
  a_sc_put(sc, z, a_sneg(a_sc(sc, x)));
}

void
__tvc_sc_sqr(SC, sc_t z, const sc_t x) {
  if (!alg_on) { sc_sqr(sc, z, x); return; }
  a_sc_put(sc, z, a_smul(a_sc(sc, x), a_sc(sc, x)));
}

void
__tvc_sc_mul_word(SC, sc_t z, const sc_t x, mp_limb_t y) {
  unsigned char be[8];
  int i;

  if (!alg_on) { sc_mul_word(sc, z, x, y); return; }

  for (i = 0; i < 8; i++)
    be[i] = (unsigned char)((uint64_t)y >> (56 - 8 * i));

  a_sc_put(sc, z, a_smul(a_sc(sc, x), __tv_rnum(a_sr, be, 8)));
}

#define A_SINV(name) \
int __tvc_##name(SC, sc_t z, const sc_t x) { \
  int a; \
  if (!alg_on) return name(sc, z, x); \
  a = a_sc(sc, x); \
  a_sc_put(sc, z, __tv_rop('/', a, 0)); \
  return a != a_s0; \
}
A_SINV(sc_invert)
A_SINV(sc_invert_var)

/* the number in these bytes, and whether it is below the order */
static int
a_sc_bytes(const unsigned char *xp, size_t n, int kind, int *below) {
  int id = __tv_id(xp, n), *v = a_named(kind, id), *r = a_named('S', id);

  if (*v == 0)
    *v = __tv_rvar(a_sr);

  if (*r == 0)
    *r = 2;

  *below = *r - 1;

  return *v;
}

/* A number that is not reduced agrees with the reduced one on points of prime
 * order only: it gets its own name, with 'L' leading to the reduced value and
 * 't' to its action on points of small order. */
static int a_h; /* cofactor */

static int
a_raw(SC, const unsigned char *xp) {
  int ok, h = a_sc_bytes(xp, sc->size, 's', &ok), *v, r;
  unsigned char low[1];

  if (a_cur_edw == 0)
    return h;

  low[0] = xp[0] & (a_h - 1);

  if (ok && !__tv_known(low, 1))
    return h;

  v = a_named('r', __tv_id(xp, sc->size));

  if (*v != 0)
    return *v;

  r = *v = __tv_rvar(a_sr);
  *a_named('L', r) = h;

  if (__tv_known(low, 1))
    *a_named('t', r) = __tv_rnum(a_tr, low, 1);

  return r;
}

/* what multiplying by this number does to points of small order */
static int
a_tau_of(int h) {
  int *v;

  if (h == a_s0 || h == a_s1)
    return h == a_s0 ? a_t0 : a_t1;

  v = a_named('t', h);

  if (*v == 0)
    *v = __tv_rvar(a_tr);

  return *v;
}

static int
a_tau(SC, const mp_limb_t *x) {
  unsigned char be[MAX_SCALAR_SIZE + 8];

  if (a_cur_edw == 0)
    return 0;

  if (__tv_known(x, sc->limbs * sizeof(mp_limb_t))) {
    if (A_IS(x[0]))
      return a_tau_of((int)A_ID(x[0]));

    mpn_export(be, sc->size, x, sc->limbs, 1);

    return __tv_rnum(a_tr, be, sc->size);
  }

  return a_tau_of(a_sc(sc, x));
}

void
__tvc_sc_import_raw(SC, sc_t z, const unsigned char *xp) {
  if (!alg_on || __tv_known(xp, sc->size)) { sc_import_raw(sc, z, xp); return; }

  a_sc_put(sc, z, a_raw(sc, xp));
}

int
__tvc_sc_import(SC, sc_t z, const unsigned char *xp) {
  int h, ok;

  if (!alg_on || __tv_known(xp, sc->size))
    return sc_import(sc, z, xp);

  h = a_sc_bytes(xp, sc->size, 's', &ok);
  a_sc_put(sc, z, ok ? h : a_s0);

  return ok;
}

int
__tvc_sc_import_weak(SC, sc_t z, const unsigned char *xp) {
  int ok;

  if (!alg_on || __tv_known(xp, sc->size))
    return sc_import_weak(sc, z, xp);

  a_sc_put(sc, z, a_sc_bytes(xp, sc->size, 's', &ok));

  return ok;
}

int
__tvc_sc_import_strong(SC, sc_t z, const unsigned char *xp) {
  int ok;

  if (!alg_on || __tv_known(xp, sc->size))
    return sc_import_strong(sc, z, xp);

  a_sc_put(sc, z, a_sc_bytes(xp, sc->size, 's', &ok));

  return ok;
}

int
__tvc_sc_import_wide(SC, sc_t z, const unsigned char *xp, size_t xn) {
  int ok;

  if (!alg_on || __tv_known(xp, xn))
    return sc_import_wide(sc, z, xp, xn);

  a_sc_put(sc, z, a_sc_bytes(xp, xn, 's', &ok));

  return ok;
}

int
__tvc_sc_import_pad(SC, sc_t z, const unsigned char *xp, size_t xn) {
  int h, ok;

  if (!alg_on || __tv_known(xp, xn))
    return sc_import_pad(sc, z, xp, xn);

  h = a_sc_bytes(xp, xn, 's', &ok);
  a_sc_put(sc, z, ok ? h : a_s0);

  return ok;
}

static void
a_sc_bytes_of(unsigned char *zp, size_t n, int h) {
  unsigned char tok[4];

  tok[0] = h; tok[1] = h >> 8; tok[2] = h >> 16; tok[3] = 0;

  __tv_uf(zp, n, "scalar", tok, 4);
  *a_named('s', __tv_id(zp, n)) = h;
}

/* an encoding the harness chose for this value, or one made up for it */
void
__tvc_sc_export(SC, unsigned char *zp, const sc_t x) {
  int i, h;

  if (!alg_on || (__tv_known(x, sc->limbs * sizeof(mp_limb_t)) && !A_IS(x[0]))) {
    sc_export(sc, zp, x);
    return;
  }

  h = a_sc(sc, x);
  a_sc_bytes_of(zp, sc->size, h);
}

/* a coordinate as a scalar, and whether it was below the order */
int
__tvc_sc_set_fe(SC, FE, sc_t z, const fe_t x) {
  int h, *v;

  if (!alg_on)
    return sc_set_fe(sc, fe, z, x);

  h = a_fe(fe, x);

  if (h == a_f0) {
    a_sc_put(sc, z, a_s0);
    return 1;
  }

  v = a_named('x', h);

  if (*v == 0)
    *v = __tv_rvar(a_sr);

  a_sc_put(sc, z, *v);

  return a_attr('X', h);
}

/* a scalar as a coordinate, and whether it was below the prime */
int
__tvc_fe_set_sc(FE, SC, fe_t z, const sc_t x) {
  int i, h, *v;

  if (!alg_on)
    return fe_set_sc(fe, sc, z, x);

  h = a_sc(sc, x);

  for (i = 0; i < a_nnames; i++) {
    if (a_names[i].kind == 'x' && a_names[i].val == h) {
      int low = a_attr('X', a_names[i].id);

      a_fe_put(fe, z, low ? a_names[i].id : __tv_rop('-', a_names[i].id, a_fn));

      return 1;
    }
  }

  v = a_named('z', h);

  if (*v == 0)
    *v = __tv_rvar(a_fr);

  a_fe_put(fe, z, *v);

  v = a_named('Z', h);

  return *v == 0 || *v == 2;
}

/* ---- points ---- */

#define A_MAXC 8

struct a_pt { int n, sym[A_MAXC], coef[A_MAXC], x, y; };

static struct a_pt a_pts[96];
static int a_npts, a_nsyms;
static int a_small[64]; /* is this a point of small order? */

static int
a_curve_rhs(int x) { /* x^3 + a x + b */
  return __tv_rop('+', __tv_rop('+', __tv_rop('*', __tv_rop('*', x, x), x), __tv_rop('*', a_cur_a, x)), a_cur_b);
}

static int
a_mont_rhs(int x) { /* (x^3 + a x^2 + x) / b */
  int x2 = __tv_rop('*', x, x);

  return __tv_rop('*', __tv_rop('+', __tv_rop('+', __tv_rop('*', x2, x), __tv_rop('*', a_cur_a, x2)), x), __tv_rop('/', a_cur_b, 0));
}

static int
a_edw_xy(int x, int y) { /* (a x^2 + y^2 - 1) / d */
  int s = __tv_rop('+', __tv_rop('*', a_cur_a, __tv_rop('*', x, x)), __tv_rop('*', y, y));

  return __tv_rop('*', __tv_rop('-', s, a_f1), __tv_rop('/', a_cur_d, 0));
}

static int a_pt_neg(int p);

/* the point with these coefficients: 0 is the point at infinity */
static int
a_pt_find(const struct a_pt *q) {
  int i, j;

  if (q->n == 0)
    return 0;

  for (i = 1; i < a_npts; i++) {
    if (a_pts[i].n != q->n)
      continue;

    for (j = 0; j < q->n; j++)
      if (a_pts[i].sym[j] != q->sym[j] || a_pts[i].coef[j] != q->coef[j])
        break;

    if (j == q->n)
      return i;
  }

  return -1;
}

/* points the harness declares equal to another one */
static int a_pfrom[8], a_pto[8], a_npaliases;

static int
a_pt_alias(int p) {
  int i;

  for (i = 0; i < a_npaliases; i++)
    if (a_pfrom[i] == p)
      return a_pto[i];

  return p;
}

static void
a_pt_equate(int p, int q) {
  a_pfrom[a_npaliases] = p;
  a_pto[a_npaliases++] = q;
  a_pfrom[a_npaliases] = a_pt_neg(p);
  a_pto[a_npaliases++] = a_pt_neg(q);
}

static int
a_pt_new(const struct a_pt *q, int x, int y) {
  __tv_assert(a_npts < 96, "too many points");

  a_pts[a_npts] = *q;
  a_pts[a_npts].x = x;
  a_pts[a_npts].y = y;

  return a_npts++;
}

static int
a_pt_raw(const struct a_pt *q) {
  struct a_pt m = *q;
  int i, r, x, y;

  r = a_pt_find(q);

  if (r >= 0)
    return r;

  for (i = 0; i < m.n; i++)
    m.coef[i] = a_small[m.sym[i]] ? __tv_rop('-', a_t0, m.coef[i]) : a_sneg(m.coef[i]);

  r = a_pt_find(&m);

  if (r >= 0)
    return a_cur_edw == 1 ? a_pt_new(q, a_fneg(a_pts[r].x), a_pts[r].y) : a_pt_new(q, a_pts[r].x, a_fneg(a_pts[r].y));

  x = __tv_rvar(a_fr);
  y = __tv_rvar(a_fr);

  if (a_cur_edw == 0) {
    a_root_set(a_curve_rhs(x), y);
    __tv_rrule(__tv_rop('*', y, y), a_curve_rhs(x));
  } else if (a_cur_edw == 1) {
    __tv_rrule(__tv_rop('*', __tv_rop('*', x, x), __tv_rop('*', y, y)), a_edw_xy(x, y));
  } else {
    a_attr_set('q', __tv_rop('s', a_mont_rhs(x), 0), 1);
  }

  return a_pt_new(q, x, y);
}

/* a new named point, with the given coordinates when they are not 0 */
static int
a_pt_sym(int x, int y) {
  struct a_pt q;

  __tv_assert(a_nsyms < 64, "too many points");

  a_small[a_nsyms] = 0;
  q.n = 1;
  q.sym[0] = a_nsyms++;
  q.coef[0] = a_s1;

  if (x == 0)
    return a_pt_raw(&q);

  return a_pt_new(&q, x, y);
}

static int
a_pt_small(void) {
  struct a_pt q;

  a_small[a_nsyms] = 1;
  q.n = 1;
  q.sym[0] = a_nsyms++;
  q.coef[0] = a_t1;

  return a_pt_raw(&q);
}

static int
a_coef(int s, int k, int tk, int c) {
  return a_small[s] ? __tv_rop('*', tk, c) : a_smul(k, c);
}

/* a p + b q, where ta and tb say what the factors do to points of small order */
static int
a_pt_comb2(int a, int ta, int p, int b, int tb, int q) {
  const struct a_pt *P = &a_pts[p], *Q = &a_pts[q];
  struct a_pt r;
  int i = 0, j = 0, c, s;

  r.n = 0;

  while (i < P->n || j < Q->n) {
    if (j == Q->n || (i < P->n && P->sym[i] < Q->sym[j])) {
      s = P->sym[i];
      c = a_coef(s, a, ta, P->coef[i++]);
    } else if (i == P->n || Q->sym[j] < P->sym[i]) {
      s = Q->sym[j];
      c = a_coef(s, b, tb, Q->coef[j++]);
    } else {
      s = P->sym[i];
      c = a_coef(s, a, ta, P->coef[i++]);
      c = a_small[s] ? __tv_rop('+', c, a_coef(s, b, tb, Q->coef[j++])) : a_sadd(c, a_coef(s, b, tb, Q->coef[j++]));
    }

    if (c != (a_small[s] ? a_t0 : a_s0)) {
      __tv_assert(r.n < A_MAXC, "too many terms");
      r.sym[r.n] = s;
      r.coef[r.n++] = c;
    }
  }

  return a_pt_alias(a_pt_raw(&r));
}

static int
a_pt_comb(int a, int p, int b, int q) {
  return a_pt_comb2(a, a_cur_edw ? a_tau_of(a) : 0, p, b, a_cur_edw ? a_tau_of(b) : 0, q);
}

static int a_tneg(void) { return a_cur_edw ? __tv_rop('-', a_t0, a_t1) : 0; }
static int a_pt_neg(int p) { return a_pt_comb2(a_sneg(a_s1), a_tneg(), p, a_s1, a_t1, 0); }
static int a_pt_mul(int k, int p) { return a_pt_comb(k, p, a_s1, 0); }
static int a_pt_add(int p, int q) { return a_pt_comb2(a_s1, a_t1, p, a_s1, a_t1, q); }
static int a_pt_sub(int p, int q) { return a_pt_comb2(a_s1, a_t1, p, a_sneg(a_s1), a_tneg(), q); }

static int
a_pt_at(int x, int y) {
  int i;

  if (a_cur_edw == 1 && x == a_f0 && y == a_f1)
    return 0;

  for (i = 1; i < a_npts; i++)
    if (a_pts[i].x == x && (a_pts[i].y == y || a_cur_edw == 2))
      return a_pt_alias(i);

  for (i = 1; i < a_npts; i++) {
    if (a_pts[i].x == (a_cur_edw ? a_fneg(x) : x) && a_pts[i].y == (a_cur_edw ? y : a_fneg(y)))
      return a_pt_neg(i);
  }

  if (a_cur_edw == 0)
    __tv_assert(__tv_rop('*', y, y) == a_curve_rhs(x), "these coordinates are a point");
  else if (a_cur_edw == 1)
    __tv_assert(__tv_rop('*', __tv_rop('*', x, x), __tv_rop('*', y, y)) == a_edw_xy(x, y), "these coordinates are a point");

  return a_pt_sym(x, y);
}

/* ---- short Weierstrass ---- */

#define WEI const wei_t *ec

static int
a_wge(WEI, const wge_t *p) {
  if (p->inf)
    return 0;

  return a_pt_at(a_fe(&ec->fe, p->x), a_fe(&ec->fe, p->y));
}

static void
a_wge_put(WEI, wge_t *r, int p) {
  if (p == 0) {
    wge_zero(ec, r);
    return;
  }

  a_fe_put(&ec->fe, r->x, a_pts[p].x);
  a_fe_put(&ec->fe, r->y, a_pts[p].y);
  r->inf = 0;
}

static int
a_jge(WEI, const jge_t *p) {
  int z, zi;

  if (p->inf)
    return 0;

  z = a_fe(&ec->fe, p->z);
  zi = __tv_rop('/', z, 0);

  return a_pt_at(__tv_rop('*', a_fe(&ec->fe, p->x), __tv_rop('^', zi, 2)),
                 __tv_rop('*', a_fe(&ec->fe, p->y), __tv_rop('^', zi, 3)));
}

static void
a_jge_put(WEI, jge_t *r, int p) {
  int z;

  if (p == 0) {
    jge_zero(ec, r);
    return;
  }

  z = __tv_rvar(a_fr);

  a_fe_put(&ec->fe, r->x, __tv_rop('*', a_pts[p].x, __tv_rop('^', z, 2)));
  a_fe_put(&ec->fe, r->y, __tv_rop('*', a_pts[p].y, __tv_rop('^', z, 3)));
  a_fe_put(&ec->fe, r->z, z);
  r->inf = 0;
  r->aff = 0;
}

static int
a_g(WEI) {
  return 1;
}

static int a_last; /* what the last sum of many multiples was */

#define A_W(name, params, args, expr) \
void __tvc_##name params { \
  if (!alg_on) { name args; return; } \
  a_wge_put(ec, r, expr); \
}
#define A_J(name, params, args, expr) \
void __tvc_##name params { \
  if (!alg_on) { name args; return; } \
  a_jge_put(ec, r, expr); \
}
#define W_(p) a_wge(ec, p)
#define J_(p) a_jge(ec, p)
#define S_(k) a_sc(&ec->sc, k)

A_W(wei_mul_g, (WEI, wge_t *r, const sc_t k), (ec, r, k), a_pt_mul(S_(k), 1))
A_J(wei_jmul_g, (WEI, jge_t *r, const sc_t k), (ec, r, k), a_pt_mul(S_(k), 1))
A_W(wei_mul, (WEI, wge_t *r, const wge_t *p, const sc_t k), (ec, r, p, k), a_pt_mul(S_(k), W_(p)))
A_J(wei_jmul, (WEI, jge_t *r, const wge_t *p, const sc_t k), (ec, r, p, k), a_pt_mul(S_(k), W_(p)))
A_W(wei_mul_double_var, (WEI, wge_t *r, const sc_t k1, const wge_t *p, const sc_t k2), (ec, r, k1, p, k2), a_pt_comb(S_(k1), 1, S_(k2), W_(p)))
A_J(wei_jmul_double_var, (WEI, jge_t *r, const sc_t k1, const wge_t *p, const sc_t k2), (ec, r, k1, p, k2), a_pt_comb(S_(k1), 1, S_(k2), W_(p)))

static int
a_wei_multi(WEI, const sc_t k0, const wge_t *points, sc_t *coeffs, size_t len) {
  int r = a_pt_mul(S_(k0), 1);
  size_t i;

  for (i = 0; i < len; i++)
    r = a_pt_comb(a_s1, r, S_(coeffs[i]), W_(&points[i]));

  return r;
}

A_J(wei_jmul_multi_var, (WEI, jge_t *r, const sc_t k0, const wge_t *points, sc_t *coeffs, size_t len, wei__scratch_t *scratch),
    (ec, r, k0, points, coeffs, len, scratch), (a_last = a_wei_multi(ec, k0, points, coeffs, len)))
A_W(wei_mul_multi_var, (WEI, wge_t *r, const sc_t k0, const wge_t *points, sc_t *coeffs, size_t len, wei__scratch_t *scratch),
    (ec, r, k0, points, coeffs, len, scratch), (a_last = a_wei_multi(ec, k0, points, coeffs, len)))

A_W(wge_add, (WEI, wge_t *r, const wge_t *p, const wge_t *q), (ec, r, p, q), a_pt_add(W_(p), W_(q)))
A_W(wge_add_var, (WEI, wge_t *r, const wge_t *p, const wge_t *q), (ec, r, p, q), a_pt_add(W_(p), W_(q)))
A_W(wge_sub, (WEI, wge_t *r, const wge_t *p, const wge_t *q), (ec, r, p, q), a_pt_sub(W_(p), W_(q)))
A_W(wge_sub_var, (WEI, wge_t *r, const wge_t *p, const wge_t *q), (ec, r, p, q), a_pt_sub(W_(p), W_(q)))
A_W(wge_dbl, (WEI, wge_t *r, const wge_t *p), (ec, r, p), a_pt_add(W_(p), W_(p)))
A_W(wge_dbl_var, (WEI, wge_t *r, const wge_t *p), (ec, r, p), a_pt_add(W_(p), W_(p)))
A_J(jge_add, (WEI, jge_t *r, const jge_t *p, const jge_t *q), (ec, r, p, q), a_pt_add(J_(p), J_(q)))
A_J(jge_add_var, (WEI, jge_t *r, const jge_t *p, const jge_t *q), (ec, r, p, q), a_pt_add(J_(p), J_(q)))
A_J(jge_sub, (WEI, jge_t *r, const jge_t *p, const jge_t *q), (ec, r, p, q), a_pt_sub(J_(p), J_(q)))
A_J(jge_sub_var, (WEI, jge_t *r, const jge_t *p, const jge_t *q), (ec, r, p, q), a_pt_sub(J_(p), J_(q)))
A_J(jge_mixed_add, (WEI, jge_t *r, const jge_t *p, const wge_t *q), (ec, r, p, q), a_pt_add(J_(p), W_(q)))
A_J(jge_mixed_add_var, (WEI, jge_t *r, const jge_t *p, const wge_t *q), (ec, r, p, q), a_pt_add(J_(p), W_(q)))
A_J(jge_mixed_sub, (WEI, jge_t *r, const jge_t *p, const wge_t *q), (ec, r, p, q), a_pt_sub(J_(p), W_(q)))
A_J(jge_mixed_sub_var, (WEI, jge_t *r, const jge_t *p, const wge_t *q), (ec, r, p, q), a_pt_sub(J_(p), W_(q)))
A_J(jge_dbl, (WEI, jge_t *r, const jge_t *p), (ec, r, p), a_pt_add(J_(p), J_(p)))
A_J(jge_dbl_var, (WEI, jge_t *r, const jge_t *p), (ec, r, p), a_pt_add(J_(p), J_(p)))

/* ---- Edwards ---- */

#define EDW const edwards_t *ec

static int
a_xge(EDW, const xge_t *p) {
  int zi = __tv_rop('/', a_fe(&ec->fe, p->z), 0);

  return a_pt_at(__tv_rop('*', a_fe(&ec->fe, p->x), zi), __tv_rop('*', a_fe(&ec->fe, p->y), zi));
}

static void
a_xge_put(EDW, xge_t *r, int p, int z) {
  if (p == 0) {
    xge_zero(ec, r);
    return;
  }

  a_fe_put(&ec->fe, r->x, __tv_rop('*', a_pts[p].x, z));
  a_fe_put(&ec->fe, r->y, __tv_rop('*', a_pts[p].y, z));
  a_fe_put(&ec->fe, r->z, z);
  a_fe_put(&ec->fe, r->t, __tv_rop('*', __tv_rop('*', a_pts[p].x, a_pts[p].y), z));
}

#define A_X(name, params, args, expr) \
void __tvc_##name params { \
  if (!alg_on) { name args; return; } \
  a_xge_put(ec, r, expr, __tv_rvar(a_fr)); \
}
#define X_(p) a_xge(ec, p)
#define T_(k) a_tau(&ec->sc, k)

A_X(edwards_mul_g, (EDW, xge_t *r, const sc_t k), (ec, r, k), a_pt_comb2(S_(k), T_(k), 1, a_s1, a_t1, 0))
A_X(edwards_mul, (EDW, xge_t *r, const xge_t *p, const sc_t k), (ec, r, p, k), a_pt_comb2(S_(k), T_(k), X_(p), a_s1, a_t1, 0))
A_X(edwards_mul_double_var, (EDW, xge_t *r, const sc_t k1, const xge_t *p, const sc_t k2), (ec, r, k1, p, k2), a_pt_comb2(S_(k1), T_(k1), 1, S_(k2), T_(k2), X_(p)))

static int
a_edw_multi(EDW, const sc_t k0, const xge_t *points, sc_t *coeffs, size_t len) {
  int r = a_pt_comb2(S_(k0), T_(k0), 1, a_s1, a_t1, 0);
  size_t i;

  for (i = 0; i < len; i++)
    r = a_pt_comb2(a_s1, a_t1, r, S_(coeffs[i]), T_(coeffs[i]), X_(&points[i]));

  return r;
}

A_X(edwards_mul_multi_var, (EDW, xge_t *r, const sc_t k0, const xge_t *points, sc_t *coeffs, size_t len, edwards__scratch_t *scratch),
    (ec, r, k0, points, coeffs, len, scratch), (a_last = a_edw_multi(ec, k0, points, coeffs, len)))

static int
a_affine(EDW, const xge_t *p) {
  __tv_assert(a_fe(&ec->fe, p->z) == a_f1, "the second point of a mixed addition is affine");

  return a_xge(ec, p);
}

A_X(xge_dbl, (EDW, xge_t *r, const xge_t *p), (ec, r, p), a_pt_add(X_(p), X_(p)))
A_X(xge_add, (EDW, xge_t *r, const xge_t *p, const xge_t *q), (ec, r, p, q), a_pt_add(X_(p), X_(q)))
A_X(xge_sub, (EDW, xge_t *r, const xge_t *p, const xge_t *q), (ec, r, p, q), a_pt_sub(X_(p), X_(q)))
A_X(xge_mixed_add, (EDW, xge_t *r, const xge_t *p, const xge_t *q), (ec, r, p, q), a_pt_add(X_(p), a_affine(ec, q)))
A_X(xge_mixed_sub, (EDW, xge_t *r, const xge_t *p, const xge_t *q), (ec, r, p, q), a_pt_sub(X_(p), a_affine(ec, q)))

void
__tvc_edwards_mul_d(EDW, fe_t z, const fe_t x) {
  if (!alg_on) { edwards_mul_d(ec, z, x); return; }
  a_fe_put(&ec->fe, z, __tv_rop('*', a_fe(&ec->fe, x), a_fnum(&ec->fe, ec->d)));
}

/* the root of u / v: either of the two */
int
__tvc_fe_isqrt(FE, fe_t z, const fe_t u, const fe_t v) {
  int a, b, i, r, k, ok = 0;

  if (!alg_on)
    return fe_isqrt(fe, z, u, v);

  a = a_fe(fe, u);
  b = a_fe(fe, v);
  r = a_f0;

  if (b != a_f0 && a != a_f0) {
    for (i = 1; i < a_npts && !ok; i++) {
      for (k = 0; k < 2 && !ok; k++) {
        r = k ? a_pts[i].y : a_pts[i].x;
        ok = __tv_rop('*', __tv_rop('*', r, r), b) == a;
      }
    }

    if (!ok)
      r = __tv_rvar(a_fr);
    else if (a_attr_neg('R', r, a_fneg(r)))
      r = a_fneg(r);
  } else {
    ok = b != a_f0;
  }

  a_fe_put(fe, z, r);

  return ok;
}

/* ---- Ristretto: elements are encoded and decoded as a whole ---- */

void
__tvc_rge_export(EDW, unsigned char *raw, const rge_t *p) {
  unsigned char tok[4];
  int q;

  if (!alg_on) { rge_export(ec, raw, p); return; }

  q = a_xge(ec, p);

  if (q == 0) {
    memset(raw, 0, ec->fe.size);
    return;
  }

  tok[0] = q; tok[1] = q >> 8; tok[2] = 0; tok[3] = 0;

  __tv_uf(raw, ec->fe.size, "element", tok, 4);
  *a_named('e', __tv_id(raw, ec->fe.size)) = q;
}

int
__tvc_rge_import(EDW, rge_t *r, const unsigned char *raw) {
  unsigned char zero[MAX_FIELD_SIZE];
  int q;

  if (!alg_on)
    return rge_import(ec, r, raw);

  memset(zero, 0, sizeof(zero));

  if (__tv_id(raw, ec->fe.size) == __tv_id(zero, ec->fe.size)) {
    xge_zero(ec, r);
    return 1;
  }

  q = a_find('e', __tv_id(raw, ec->fe.size));

  if (q == 0) {
    a_xge_put(ec, r, a_pt_sym(0, 0), a_f1);
    return 0;
  }

  a_xge_put(ec, r, q, a_f1);

  return 1;
}

/* ---- Montgomery: points up to sign ---- */

#define MON const mont_t *ec

static int
a_pge(MON, const pge_t *p) {
  int z = a_fe(&ec->fe, p->z);

  if (z == a_f0)
    return 0;

  return a_pt_at(__tv_rop('*', a_fe(&ec->fe, p->x), __tv_rop('/', z, 0)), 0);
}

static void
a_pge_put(MON, pge_t *r, int p) {
  int z;

  if (p == 0) {
    pge_zero(ec, r);
    return;
  }

  z = __tv_rvar(a_fr);

  a_fe_put(&ec->fe, r->x, __tv_rop('*', a_pts[p].x, z));
  a_fe_put(&ec->fe, r->z, z);
}

void
__tvc_mont_mul(MON, pge_t *r, const pge_t *p, const sc_t k, int affine) {
  if (!alg_on) { mont_mul(ec, r, p, k, affine); return; }

  if (affine)
    __tv_assert(a_fe(&ec->fe, p->z) == a_f1, "an affine multiplication is of an affine point");

  a_pge_put(ec, r, a_pt_comb2(S_(k), T_(k), a_pge(ec, p), a_s1, a_t1, 0));
}

void
__tvc_pge_dbl(MON, pge_t *r, const pge_t *p) {
  int q;

  if (!alg_on) { pge_dbl(ec, r, p); return; }

  q = a_pge(ec, p);
  a_pge_put(ec, r, a_pt_add(q, q));
}

/* The number taken from a message: decided separately. */
int
__tvc_ecdsa_reduce(WEI, sc_t r, const unsigned char *msg, size_t msg_len) {
  unsigned char key[MAX_SCALAR_SIZE];
  int ok, n = msg_len > ec->sc.size ? (int)ec->sc.size : (int)msg_len;

  if (!alg_on)
    return ecdsa_reduce(ec, r, msg, msg_len);

  if (n == 0) {
    sc_zero(&ec->sc, r);
    return 1;
  }

  a_sc_put(&ec->sc, r, a_sc_bytes(msg, n, 'm', &ok));

  return ok;
}

/* Bytes of different values differ. */
int
__tvc_torsion_memequal(const void *x, const void *y, size_t n) {
  if (!alg_on)
    return torsion_memequal(x, y, n);

  return __tv_id(x, n) == __tv_id(y, n);
}

static void
a_reset(unsigned choices) {
  a_choices = choices;
  a_nchoices = 0;
  a_nnames = 0;
  a_naliases = 0;
  a_npaliases = 0;
  a_npts = 1;
  a_nsyms = 0;
}

static void
a_rings(FE, SC) {
  unsigned char be[MAX_FIELD_SIZE + 8], zero[1] = {0}, one[1] = {1};

  mpn_export(be, fe->size, fe->p, fe->limbs, 1);
  a_fr = __tv_rnew(be, fe->size);
  mpn_export(be, sc->size, sc->n, sc->limbs, 1);
  a_sr = __tv_rnew(be, sc->size);

  a_f0 = __tv_rnum(a_fr, zero, 1);
  a_f1 = __tv_rnum(a_fr, one, 1);
  a_s0 = __tv_rnum(a_sr, zero, 1);
  a_s1 = __tv_rnum(a_sr, one, 1);
}

static void
a_torsion(int h) {
  unsigned char be[1], zero[1] = {0}, one[1] = {1};

  be[0] = h;
  a_h = h;
  a_tr = __tv_rnew(be, 1);
  a_t0 = __tv_rnum(a_tr, zero, 1);
  a_t1 = __tv_rnum(a_tr, one, 1);
}

/* start over with fresh unknowns; point 1 is the generator */
static void
a_wei_start(WEI, unsigned choices) {
  alg_on = 0;
  a_rings(&ec->fe, &ec->sc);
  a_reset(choices);
  a_cur_edw = 0;
  a_cur_a = a_fnum(&ec->fe, ec->a);
  a_cur_b = a_fnum(&ec->fe, ec->b);
  a_fn = a_fnum(&ec->fe, ec->fe_n);
  a_pt_sym(a_fnum(&ec->fe, ec->g.x), a_fnum(&ec->fe, ec->g.y));
  a_root_set(a_curve_rhs(a_pts[1].x), a_pts[1].y);
  alg_on = 1;
}

static void
a_edw_start(EDW, unsigned choices) {
  alg_on = 0;
  a_rings(&ec->fe, &ec->sc);
  a_torsion(ec->h);
  a_reset(choices);
  a_cur_edw = 1;
  a_cur_a = a_fnum(&ec->fe, ec->a);
  a_cur_d = a_fnum(&ec->fe, ec->d);
  a_pt_sym(a_fnum(&ec->fe, ec->g.x), a_fnum(&ec->fe, ec->g.y));
  alg_on = 1;
}

static void
a_mont_start(MON, unsigned choices) {
  alg_on = 0;
  a_rings(&ec->fe, &ec->sc);
  a_torsion(ec->h);
  a_reset(choices);
  a_cur_edw = 2;
  a_cur_a = a_fnum(&ec->fe, ec->a);
  a_cur_b = a_fnum(&ec->fe, ec->b);
  a_pt_sym(a_fnum(&ec->fe, ec->g.x), a_fnum(&ec->fe, ec->g.y));
  alg_on = 1;
}

/* bytes holding the coordinate or scalar h */
static void
a_bind_fe(FE, const unsigned char *raw, int h) {
  *a_named('f', __tv_id(raw, fe->size)) = h;
}

static int
a_bind_sc(SC, const unsigned char *raw) {
  int ok;

  return a_sc_bytes(raw, sc->size, 's', &ok);
}

static void
a_bad(const unsigned char *raw, size_t n, int kind) {
  *a_named(kind, __tv_id(raw, n)) = 1;
}
