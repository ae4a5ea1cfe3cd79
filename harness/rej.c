/* Every operation that takes a key, a signature or a scalar refuses one that is
 * out of range or malformed. What the arithmetic behind the checks computes does
 * not matter here: any result. */
#include "tv.h"
#include "ecc.c"
#include "cls.h"

#define P(n) __tv_phase(n)
#define R(e, what) __tv_assert((e) == 0, what)

static int any_bit(void) { return (int)__tv_range(0, 1); }

static void any_fe(fe_t z) { __tv_unknown(z, sizeof(fe_t)); }
static void any_sc(sc_t z) { __tv_unknown(z, sizeof(sc_t)); }
static void any_wge(wge_t *r) { any_fe(r->x); any_fe(r->y); r->inf = any_bit(); }
static void any_jge(jge_t *r) { any_fe(r->x); any_fe(r->y); any_fe(r->z); r->inf = any_bit(); r->aff = any_bit(); }
static void any_mge(mge_t *r) { any_fe(r->x); any_fe(r->y); r->inf = any_bit(); }
static void any_pge(pge_t *r) { any_fe(r->x); any_fe(r->z); }
static void any_xge(xge_t *r) { any_fe(r->x); any_fe(r->y); any_fe(r->z); any_fe(r->t); }

int __tvc_fe_invert(const prime_field_t *fe, fe_t z, const fe_t x) { any_fe(z); return any_bit(); }
int __tvc_fe_invert_var(const prime_field_t *fe, fe_t z, const fe_t x) { any_fe(z); return any_bit(); }
int __tvc_fe_is_square(const prime_field_t *fe, const fe_t x) { return any_bit(); }
int __tvc_fe_is_square_var(const prime_field_t *fe, const fe_t x) { return any_bit(); }

int
__tvc_sc_invert(const scalar_field_t *sc, sc_t z, const sc_t x) {
  mp_size_t i;

  for (i = 0; i < sc->limbs; i++)
    if (!__tv_known(&x[i], sizeof(x[i])) || x[i] != 0)
      break;

  if (i == sc->limbs)
    return sc_invert(sc, z, x);

  any_sc(z);

  return any_bit();
}
int __tvc_sc_invert_var(const scalar_field_t *sc, sc_t z, const sc_t x) { any_sc(z); return any_bit(); }

void __tvc_wei_jmul_g(const wei_t *ec, jge_t *r, const sc_t k) { any_jge(r); }
void __tvc_wei_mul_g(const wei_t *ec, wge_t *r, const sc_t k) { any_wge(r); }
void __tvc_wei_jmul(const wei_t *ec, jge_t *r, const wge_t *p, const sc_t k) { any_jge(r); }
void __tvc_wei_mul(const wei_t *ec, wge_t *r, const wge_t *p, const sc_t k) { any_wge(r); }
void __tvc_wei_jmul_double_var(const wei_t *ec, jge_t *r, const sc_t k1, const wge_t *p2, const sc_t k2) { any_jge(r); }
void __tvc_wei_mul_double_var(const wei_t *ec, wge_t *r, const sc_t k1, const wge_t *p2, const sc_t k2) { any_wge(r); }
void __tvc_wei_jmul_multi_var(const wei_t *ec, jge_t *r, const sc_t k0, const wge_t *points, sc_t *coeffs, size_t len, wei__scratch_t *scratch) { any_jge(r); }
void __tvc_wge_add(const wei_t *ec, wge_t *p3, const wge_t *p1, const wge_t *p2) { any_wge(p3); }
void __tvc_jge_add(const wei_t *ec, jge_t *p3, const jge_t *p1, const jge_t *p2) { any_jge(p3); }
void __tvc_jge_mixed_add(const wei_t *ec, jge_t *p3, const jge_t *p1, const wge_t *p2) { any_jge(p3); }
int __tvc_wei_point_to_uniform(const wei_t *ec, unsigned char *bytes, const wge_t *p, unsigned int hint) { __tv_unknown(bytes, ec->fe.size); return any_bit(); }
void __tvc_wei_point_to_hash(const wei_t *ec, unsigned char *bytes, const wge_t *p, unsigned int subgroup, const unsigned char *entropy) { __tv_unknown(bytes, ec->fe.size * 2); }

void __tvc_mont_mul(const mont_t *ec, pge_t *r, const pge_t *p, const sc_t k, int affine) { any_pge(r); }
int __tvc_mont_point_to_uniform(const mont_t *ec, unsigned char *bytes, const mge_t *p, unsigned int hint) { __tv_unknown(bytes, ec->fe.size); return any_bit(); }
void __tvc_mont_point_to_hash(const mont_t *ec, unsigned char *bytes, const mge_t *p, unsigned int subgroup, const unsigned char *entropy) { __tv_unknown(bytes, ec->fe.size * 2); }

void __tvc_edwards_mul_g(const edwards_t *ec, xge_t *r, const sc_t k) { any_xge(r); }
void __tvc_edwards_mul(const edwards_t *ec, xge_t *r, const xge_t *p, const sc_t k) { any_xge(r); }
void __tvc_edwards_mul_double_var(const edwards_t *ec, xge_t *r, const sc_t k1, const xge_t *p2, const sc_t k2) { any_xge(r); }
void __tvc_edwards_mul_multi_var(const edwards_t *ec, xge_t *r, const sc_t k0, const xge_t *points, sc_t *coeffs, size_t len, edwards__scratch_t *scratch) { any_xge(r); }
int __tvc_edwards_point_to_uniform(const edwards_t *ec, unsigned char *bytes, const xge_t *p, unsigned int hint) { __tv_unknown(bytes, ec->fe.size); return any_bit(); }
void __tvc_edwards_point_to_hash(const edwards_t *ec, unsigned char *bytes, const xge_t *p, unsigned int subgroup, const unsigned char *entropy) { __tv_unknown(bytes, ec->fe.size * 2); }
int __tvc_ristretto_point_to_uniform(const edwards_t *ec, unsigned char *bytes, const rge_t *p, unsigned int hint) { __tv_unknown(bytes, ec->fe.size); return any_bit(); }
void __tvc_ristretto_point_to_hash(const edwards_t *ec, unsigned char *bytes, const rge_t *p, const unsigned char *entropy) { __tv_unknown(bytes, ec->fe.size * 2); }

void __tvc_sc_random(const scalar_field_t *sc, sc_t z, drbg_t *rng) { any_sc(z); }

static unsigned char out[512], out2[512], msg[32], aux[32], any[512], sig[512];
static size_t olen;

static void
fill(void) {
  __tv_unknown(any, sizeof(any));
  __tv_unknown(msg, sizeof(msg));
  __tv_unknown(aux, sizeof(aux));
  __tv_unknown(sig, sizeof(sig));
}

/* ---- Weierstrass ---- */

static void
wei_bad_priv(const wei_t *ec, const unsigned char *k, const char *what) {
  const size_t plen = ec->fe.size + 1;
  unsigned int param;

  fill();
  any[0] = 2;

  R(ecdsa_privkey_verify(ec, k), what);
  R(ecdsa_privkey_export(ec, out, k), what);
  R(ecdsa_privkey_import(ec, out, k, ec->sc.size), what);
  R(ecdsa_privkey_tweak_add(ec, out, k, sig), what);
  R(ecdsa_privkey_tweak_mul(ec, out, k, sig), what);
  R(ecdsa_privkey_negate(ec, out, k), what);
  R(ecdsa_privkey_invert(ec, out, k), what);
  R(ecdsa_pubkey_create(ec, out, &olen, k, 1), what);
  R(ecdsa_sign(ec, out, &param, msg, 32, k), what);
  R(ecdsa_derive(ec, out, &olen, any, plen, k, 1), what);

  if (bipschnorr_support(ec)) {
    R(bipschnorr_sign(ec, out, msg, 32, k), what);
    R(bip340_privkey_verify(ec, k), what);
    R(bip340_privkey_export(ec, out, out2, out2 + 128, k), what);
    R(bip340_privkey_import(ec, out, k, ec->sc.size), what);
    R(bip340_privkey_tweak_add(ec, out, k, sig), what);
    R(bip340_privkey_tweak_mul(ec, out, k, sig), what);
    R(bip340_privkey_invert(ec, out, k), what);
    R(bip340_pubkey_create(ec, out, k), what);
    R(bip340_sign(ec, out, msg, 32, k, aux), what);
    R(bip340_derive(ec, out, any, k), what);
  }
}

static void
wei_bad_tweak(const wei_t *ec, const unsigned char *t, const char *what) {
  const size_t plen = ec->fe.size + 1;
  int neg;

  fill();
  any[0] = 2;

  R(ecdsa_privkey_tweak_add(ec, out, any, t), what);
  R(ecdsa_privkey_tweak_mul(ec, out, any, t), what);
  R(ecdsa_pubkey_tweak_add(ec, out, &olen, any, plen, t, 1), what);
  R(ecdsa_pubkey_tweak_mul(ec, out, &olen, any, plen, t, 1), what);

  if (bipschnorr_support(ec)) {
    R(bip340_privkey_tweak_add(ec, out, any, t), what);
    R(bip340_privkey_tweak_mul(ec, out, any, t), what);
    R(bip340_pubkey_tweak_add(ec, out, &neg, any, t), what);
    R(bip340_pubkey_tweak_add_check(ec, any, t, sig, any_bit()), what);
    R(bip340_pubkey_tweak_mul(ec, out, &neg, any, t), what);
    R(bip340_pubkey_tweak_mul_check(ec, any, t, sig, any_bit()), what);
  }
}

static int never(const unsigned char *pub, size_t len, void *arg) { return 1; }
static int never32(const unsigned char *pub, void *arg) { return 1; }

static void
wei_bad_pub(const wei_t *ec, const unsigned char *p, size_t len, const char *what) {
  const size_t plen = ec->fe.size + 1;
  const unsigned char *ps[2];
  size_t ls[2];

  fill();
  any[0] = 2;

  R(ecdsa_pubkey_verify(ec, p, len), what);
  R(ecdsa_pubkey_grind(ec, out, p, len, never, NULL), what);
  R(ecdsa_pubkey_convert(ec, out, &olen, p, len, 0), what);
  R(ecdsa_pubkey_to_uniform(ec, out, p, len, 0), what);
  R(ecdsa_pubkey_to_hash(ec, out, p, len, 0, aux), what);
  R(ecdsa_pubkey_export(ec, out, out2, p, len), what);
  R(ecdsa_pubkey_tweak_add(ec, out, &olen, p, len, sig, 1), what);
  R(ecdsa_pubkey_tweak_mul(ec, out, &olen, p, len, sig, 1), what);
  R(ecdsa_pubkey_add(ec, out, &olen, p, len, any, plen, 1), what);
  R(ecdsa_pubkey_add(ec, out, &olen, any, plen, p, len, 1), what);
  ps[0] = p; ls[0] = len; ps[1] = any; ls[1] = plen;
  R(ecdsa_pubkey_combine(ec, out, &olen, ps, ls, 2, 1), what);
  ps[1] = p; ls[1] = len; ps[0] = any; ls[0] = plen;
  R(ecdsa_pubkey_combine(ec, out, &olen, ps, ls, 2, 1), what);
  R(ecdsa_pubkey_negate(ec, out, &olen, p, len, 1), what);
  R(ecdsa_verify(ec, msg, 32, sig, p, len), what);
  R(ecdsa_derive(ec, out, &olen, p, len, any + 1, 1), what);

  if (bipschnorr_support(ec))
    R(bipschnorr_verify(ec, msg, 32, sig, p, len), what);
}

static void
wei_bad_x(const wei_t *ec, const unsigned char *x, const char *what) {
  const unsigned char *ps[2];
  int neg;

  fill();

  R(bip340_pubkey_verify(ec, x), what);
  R(bip340_pubkey_grind(ec, out, x, never32, NULL), what);
  R(bip340_pubkey_to_uniform(ec, out, x, 0), what);
  R(bip340_pubkey_to_hash(ec, out, x, 0, aux), what);
  R(bip340_pubkey_export(ec, out, out2, x), what);
  R(bip340_pubkey_tweak_add(ec, out, &neg, x, sig), what);
  R(bip340_pubkey_tweak_add_check(ec, x, any, sig, any_bit()), what);
  R(bip340_pubkey_tweak_mul(ec, out, &neg, x, sig), what);
  R(bip340_pubkey_tweak_mul_check(ec, x, any, sig, any_bit()), what);
  R(bip340_pubkey_add(ec, out, x, any), what);
  R(bip340_pubkey_add(ec, out, any, x), what);
  ps[0] = x; ps[1] = any;
  R(bip340_pubkey_combine(ec, out, ps, 2), what);
  ps[1] = x; ps[0] = any;
  R(bip340_pubkey_combine(ec, out, ps, 2), what);
  R(bip340_verify(ec, msg, 32, sig, x), what);
  R(bip340_derive(ec, out, x, any), what);
}

static void
wei_bad_import(const wei_t *ec, const unsigned char *x, size_t xlen, const unsigned char *y, size_t ylen, const char *what) {
  R(ecdsa_pubkey_import(ec, out, &olen, x, xlen, y, ylen, any_bit(), 0), what);

  if (bipschnorr_support(ec))
    R(bip340_pubkey_import(ec, out, x, xlen, y, ylen), what);
}

static void
wei_bad_batch(const wei_t *ec, const unsigned char *s, const char *what, int schnorr, const unsigned char *p, size_t plen) {
  const unsigned char *ms[2], *ss[2], *ps[2];
  size_t ml[2], pl[2];
  wei__scratch_t *scratch = wei_scratch_create(ec, 4);
  int at;

  any[0] = 2;

  for (at = 0; at < 2; at++) {
    ms[0] = ms[1] = msg;
    ml[0] = ml[1] = 32;
    ss[at] = s;
    ss[at ^ 1] = sig;
    ps[at] = p;
    ps[at ^ 1] = any;
    pl[at] = plen;
    pl[at ^ 1] = ec->fe.size + 1;

    if (schnorr)
      R(bipschnorr_verify_batch(ec, ms, ml, ss, ps, pl, 2, scratch), what);
    else
      R(bip340_verify_batch(ec, ms, ml, ss, ps, 2, scratch), what);
  }
}

static void
rej_wei(int type) {
  wei_t *ec = wei_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  const prime_field_t *fe = &ec->fe;
  unsigned char N[MAX_SCALAR_SIZE], Q[MAX_FIELD_SIZE], b[MAX_FIELD_SIZE * 2 + 2];
  size_t lens[9];
  int k, kind, i, j;

  limbs_be(N, sc->size, sc->n, sc->limbs);
  limbs_be(Q, fe->size, fe->p, fe->limbs);

  P("keys and tweaks out of range");

  memset(b, 0, sizeof(b));
  wei_bad_priv(ec, b, "zero key refused");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
      if (set_class(b, N, sc->size, 1, kind, k)) {
        wei_bad_priv(ec, b, "key not below the order refused");
        wei_bad_tweak(ec, b, "tweak not below the order refused");
      }
    }
  }

  P("malformed public keys");

  lens[0] = 0, lens[1] = 1, lens[2] = fe->size, lens[3] = fe->size + 1, lens[4] = fe->size + 2;
  lens[5] = fe->size * 2, lens[6] = fe->size * 2 + 1, lens[7] = fe->size * 2 + 2, lens[8] = 2;

  for (i = 0; i < 9; i++) {
    for (j = 0; j < 9; j++) {
      size_t len = lens[j];
      int shape = (i == 2 || i == 3) ? len == 1 + fe->size : (i == 4 || i == 6 || i == 7) ? len == 1 + 2 * fe->size : 0;
      __tv_unknown(b, sizeof(b));
      b[0] = i < 8 ? i : (unsigned char)__tv_range(8, 255);
      if (!shape)
        wei_bad_pub(ec, b, len, "malformed public key refused");
    }
  }

  P("coordinates out of range");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)fe->size : 1); k++) {
      static const int forms[5] = {2, 3, 4, 6, 7};

      for (i = 0; i < 5; i++) {
        size_t len = forms[i] < 4 ? fe->size + 1 : fe->size * 2 + 1;
        __tv_unknown(b, sizeof(b));
        b[0] = forms[i];
        if (!set_class(b + 1, Q, fe->size, 1, kind, k))
          continue;
        wei_bad_pub(ec, b, len, "x not below the prime refused");
        if (forms[i] >= 4) {
          __tv_unknown(b + 1, sizeof(b) - 1);
          set_class(b + 1 + fe->size, Q, fe->size, 1, kind, k);
          wei_bad_pub(ec, b, len, "y not below the prime refused");
        }
      }

      fill();

      if (set_class(b, Q, fe->size, 1, kind, k)) {
        wei_bad_import(ec, b, fe->size, any, fe->size, "x not below the prime refused");
        wei_bad_import(ec, b, fe->size, NULL, 0, "x not below the prime refused");
        wei_bad_import(ec, any, fe->size, b, fe->size, "y not below the prime refused");

        if (bipschnorr_support(ec)) {
          wei_bad_x(ec, b, "x not below the prime refused");
          wei_bad_batch(ec, sig, "public key not below the prime refused", 0, b, fe->size);
          memmove(b + 1, b, fe->size);
          b[0] = 2;
          wei_bad_batch(ec, sig, "public key not below the prime refused", 1, b, fe->size + 1);
        }
      }
    }
  }

  wei_bad_import(ec, NULL, 0, any, fe->size, "missing x refused");
  wei_bad_import(ec, NULL, 0, NULL, 0, "missing x refused");

  if (bipschnorr_support(ec)) {
    P("signatures out of range");

    for (kind = 0; kind <= 1; kind++) {
      for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
        for (i = 0; i < 2; i++) {
          unsigned char s[MAX_FIELD_SIZE + MAX_SCALAR_SIZE];

          fill();
          any[0] = 2;
          __tv_unknown(s, sizeof(s));

          if (!set_class(s + i * fe->size, i ? N : Q, i ? sc->size : fe->size, 1, kind, k))
            continue;

          R(bipschnorr_verify(ec, msg, 32, s, any, fe->size + 1), "signature out of range refused");
          R(bip340_verify(ec, msg, 32, s, any), "signature out of range refused");
          wei_bad_batch(ec, s, "signature out of range refused", 0, any + 1, fe->size);
          wei_bad_batch(ec, s, "signature out of range refused", 1, any, fe->size + 1);
        }
      }
    }
  }
}

/* ---- Edwards ---- */

static void
edw_bad_pub(const edwards_t *ec, const unsigned char *p, const char *what) {
  const unsigned char *ps[2], *ms[2], *ss[2];
  edwards__scratch_t *scratch = edwards_scratch_create(ec, 4);
  size_t ml[2];
  int at;

  fill();

  R(eddsa_pubkey_verify(ec, p), what);
  R(eddsa_pubkey_convert(ec, out, p), what);
  R(eddsa_pubkey_to_uniform(ec, out, p, 0), what);
  R(eddsa_pubkey_to_hash(ec, out, p, 0, aux), what);
  R(eddsa_pubkey_export(ec, out, out2, p), what);
  R(eddsa_pubkey_is_small(ec, p), what);
  R(eddsa_pubkey_has_torsion(ec, p), what);
  R(eddsa_pubkey_tweak_add(ec, out, p, sig), what);
  R(eddsa_pubkey_tweak_mul(ec, out, p, sig), what);
  R(eddsa_pubkey_add(ec, out, p, any), what);
  R(eddsa_pubkey_add(ec, out, any, p), what);
  R(eddsa_pubkey_negate(ec, out, p), what);
  R(eddsa_verify(ec, msg, 32, sig, p, 0, NULL, 0), what);
  R(eddsa_verify_single(ec, msg, 32, sig, p, 0, NULL, 0), what);
  R(eddsa_derive_with_scalar(ec, out, p, any), what);

  for (at = 0; at < 2; at++) {
    ps[at] = p;
    ps[at ^ 1] = any;
    ms[0] = ms[1] = msg;
    ml[0] = ml[1] = 32;
    ss[0] = ss[1] = sig;
    R(eddsa_pubkey_combine(ec, out, ps, 2), what);
    R(eddsa_verify_batch(ec, ms, ml, ss, ps, 2, 0, NULL, 0, scratch), what);
  }
}

static void
edw_bad_sig(const edwards_t *ec, const unsigned char *s, const char *what) {
  const unsigned char *ps[2], *ms[2], *ss[2];
  edwards__scratch_t *scratch = edwards_scratch_create(ec, 4);
  size_t ml[2];
  int at;

  fill();

  R(eddsa_verify(ec, msg, 32, s, any, 0, NULL, 0), what);
  R(eddsa_verify_single(ec, msg, 32, s, any, 0, NULL, 0), what);

  for (at = 0; at < 2; at++) {
    ps[0] = ps[1] = any;
    ms[0] = ms[1] = msg;
    ml[0] = ml[1] = 32;
    ss[at] = s;
    ss[at ^ 1] = sig;
    R(eddsa_verify_batch(ec, ms, ml, ss, ps, 2, 0, NULL, 0, scratch), what);
  }
}

static void
rist_bad_pub(const edwards_t *ec, const unsigned char *p, const char *what) {
  const unsigned char *ps[2];

  fill();

  R(ristretto_pubkey_verify(ec, p), what);
  R(ristretto_pubkey_grind(ec, out, p, never32, NULL), what);
  R(ristretto_pubkey_to_uniform(ec, out, p, 0), what);
  R(ristretto_pubkey_to_hash(ec, out, p, aux), what);
  R(ristretto_pubkey_tweak_add(ec, out, p, any), what);
  R(ristretto_pubkey_tweak_mul(ec, out, p, any), what);
  R(ristretto_pubkey_add(ec, out, p, any), what);
  R(ristretto_pubkey_add(ec, out, any, p), what);
  R(ristretto_pubkey_negate(ec, out, p), what);
  R(ristretto_derive(ec, out, p, any), what);
  ps[0] = p; ps[1] = any;
  R(ristretto_pubkey_combine(ec, out, ps, 2), what);
  ps[1] = p; ps[0] = any;
  R(ristretto_pubkey_combine(ec, out, ps, 2), what);
}

static void
rist_bad_priv(const edwards_t *ec, const unsigned char *k, const char *what) {
  fill();

  R(ristretto_privkey_verify(ec, k), what);
  R(ristretto_privkey_export(ec, out, k), what);
  R(ristretto_privkey_import(ec, out, k, ec->sc.size), what);
  R(ristretto_privkey_tweak_add(ec, out, k, any), what);
  R(ristretto_privkey_tweak_add(ec, out, any, k), what);
  R(ristretto_privkey_tweak_mul(ec, out, k, any), what);
  R(ristretto_privkey_tweak_mul(ec, out, any, k), what);
  R(ristretto_privkey_negate(ec, out, k), what);
  R(ristretto_privkey_invert(ec, out, k), what);
  R(ristretto_pubkey_create(ec, out, k), what);
  R(ristretto_pubkey_tweak_add(ec, out, any, k), what);
  R(ristretto_pubkey_tweak_mul(ec, out, any, k), what);
  R(ristretto_derive(ec, out, any, k), what);
}

static void
rej_edw(int type) {
  edwards_t *ec = edwards_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  const prime_field_t *fe = &ec->fe;
  unsigned char N[MAX_SCALAR_SIZE], Q[MAX_FIELD_SIZE], b[MAX_FIELD_SIZE * 2 + 2];
  int k, kind, i;

  limbs_be(N, sc->size, sc->n, sc->limbs);
  limbs_be(Q, fe->size, fe->p, fe->limbs);

  P("edwards coordinates out of range");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)fe->size : 1); k++) {
      unsigned char s[MAX_FIELD_SIZE * 2 + 4];

      for (i = 0; i < 2; i++) {
        __tv_unknown(b, sizeof(b));
        __tv_unknown(s, sizeof(s));

        if (!set_class(b, Q, fe->size, -1, kind, k))
          continue;

        if ((fe->bits & 7) == 0) {
          b[fe->size] = i << 7;
        } else {
          if (kind > 0 && k == 0) {
            /* only the bits below the sign count */
            if (Q[0] >= 127)
              continue;
            b[fe->size - 1] = (unsigned char)__tv_range(Q[0] + 1, 127);
          }
          b[fe->size - 1] |= i << 7;
        }

        memcpy(s, b, fe->adj_size);
        edw_bad_pub(ec, b, "coordinate not below the prime refused");
        edw_bad_sig(ec, s, "R not below the prime refused");
      }

      fill();

      if (set_class(b, Q, fe->size, -1, kind, k)) {
        R(eddsa_pubkey_import(ec, out, b, fe->size, any, fe->size, any_bit()), "x not below the prime refused");
        R(eddsa_pubkey_import(ec, out, b, fe->size, NULL, 0, any_bit()), "x not below the prime refused");
        R(eddsa_pubkey_import(ec, out, any, fe->size, b, fe->size, any_bit()), "y not below the prime refused");
        R(eddsa_pubkey_import(ec, out, NULL, 0, b, fe->size, any_bit()), "y not below the prime refused");
        rist_bad_pub(ec, b, "ristretto encoding not below the prime refused");
      }
    }
  }

  R(eddsa_pubkey_import(ec, out, NULL, 0, NULL, 0, any_bit()), "missing coordinates refused");

  if ((fe->bits & 7) == 0) {
    P("stray bits");

    for (i = 0; i < 14; i++) {
      /* exactly bit i % 7 and anything below it, with and without the sign */
      int bit = i % 7;
      __tv_unknown(b, sizeof(b));
      b[fe->size] = (unsigned char)__tv_range((1 << bit) | (i < 7 ? 0 : 128), (2 << bit) - 1 + (i < 7 ? 0 : 128));
      edw_bad_pub(ec, b, "stray bits refused");
      edw_bad_sig(ec, b, "stray bits refused");
    }
  }

  P("edwards scalars out of range");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
      unsigned char s[MAX_FIELD_SIZE * 2 + 4];
      __tv_unknown(s, sizeof(s));
      if (!set_class(s + fe->adj_size, N, sc->size, -1, kind, k))
        continue;
      if (fe->adj_size > sc->size)
        s[fe->adj_size + sc->size] = 0;
      edw_bad_sig(ec, s, "s not below the order refused");
      rist_bad_priv(ec, s + fe->adj_size, "key not below the order refused");
    }
  }

  if (fe->adj_size > sc->size) {
    unsigned char s[MAX_FIELD_SIZE * 2 + 4];
    __tv_unknown(s, sizeof(s));
    s[fe->adj_size + sc->size] = (unsigned char)__tv_range(1, 255);
    edw_bad_sig(ec, s, "s not below the order refused");
  }
}

/* ---- Montgomery ---- */

static void
rej_mont(int type) {
  mont_t *ec = mont_curve_create(type);
  const prime_field_t *fe = &ec->fe;
  unsigned char Q[MAX_FIELD_SIZE], b[MAX_FIELD_SIZE];
  int k, kind;

  limbs_be(Q, fe->size, fe->p, fe->limbs);

  P("montgomery coordinates out of range");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)fe->size : 1); k++) {
      if (!set_class(b, Q, fe->size, -1, kind, k))
        continue;
      fill();
      R(ecdh_pubkey_import(ec, out, b, fe->size, any, fe->size), "x not below the prime refused");
      R(ecdh_pubkey_import(ec, out, any, fe->size, b, fe->size), "y not below the prime refused");
    }
  }

  R(ecdh_pubkey_import(ec, out, NULL, 0, any, fe->size), "missing x refused");
}

#define E(n, f, t) void tv_rej_##n(void) { f(t); }
E(p192, rej_wei, WEI_CURVE_P192) E(p224, rej_wei, WEI_CURVE_P224) E(p256, rej_wei, WEI_CURVE_P256)
E(p384, rej_wei, WEI_CURVE_P384) E(p521, rej_wei, WEI_CURVE_P521) E(secp256k1, rej_wei, WEI_CURVE_SECP256K1)
E(x25519, rej_mont, MONT_CURVE_X25519) E(x448, rej_mont, MONT_CURVE_X448)
E(ed25519, rej_edw, EDWARDS_CURVE_ED25519) E(ed448, rej_edw, EDWARDS_CURVE_ED448) E(ed1174, rej_edw, EDWARDS_CURVE_ED1174)
