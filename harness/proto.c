/* What signing, verification, recovery, key agreement and key tweaking compute,
 * with arithmetic and group operations taken for what they mean (see alg.h). */
#include "tv.h"
#include "ecc.c"
#include "alg.h"

#define P(n) __tv_phase(n)
#define R(e, what) __tv_assert((e) == 0, what)
#define A(e, what) __tv_assert(e, what)

static unsigned char priv[80], tweak[80], pub[160], msg[80], sig[160], out[256], want[256], out2[160];
static size_t olen;

/* ---- inputs ---- */

static int
new_sc(SC, unsigned char *raw) {
  int h = __tv_rvar(a_sr);

  a_sc_bytes_of(raw, sc->size, h);

  return h;
}

static void
put_fe(FE, unsigned char *raw, int h) {
  fe_t t;

  a_fe_put(fe, t, h);
  fe_export(fe, raw, t);
}

static void
put_sc(SC, unsigned char *raw, int h) {
  sc_t t;

  a_sc_put(sc, t, h);
  sc_export(sc, raw, t);
}

/* form: 0 compressed, 4 uncompressed, 6 hybrid */
static size_t
put_pub(WEI, unsigned char *raw, int p, int form) {
  size_t n = ec->fe.size;

  put_fe(&ec->fe, raw + 1, a_pts[p].x);

  if (form == 0) {
    raw[0] = 2 | a_odd(a_pts[p].y);
    return 1 + n;
  }

  put_fe(&ec->fe, raw + 1 + n, a_pts[p].y);
  raw[0] = form == 4 ? 4 : 6 | a_odd(a_pts[p].y);

  return 1 + 2 * n;
}

static void
is_pub(WEI, const unsigned char *raw, size_t len, int p, int compact, const char *what) {
  size_t n = put_pub(ec, want, p, compact ? 0 : 4);

  A(len == n, what);
  __tv_same(raw, want, n, what);
}

static void
is_fe(FE, const unsigned char *raw, int h, const char *what) {
  put_fe(fe, want, h);
  __tv_same(raw, want, fe->size, what);
}

static void
is_sc(SC, const unsigned char *raw, int h, const char *what) {
  put_sc(sc, want, h);
  __tv_same(raw, want, sc->size, what);
}

static int
reduced(WEI, const unsigned char *m, size_t len) {
  sc_t t;

  ecdsa_reduce(ec, t, m, len);

  return a_sc(&ec->sc, t);
}

/* ---- ECDSA ---- */

static int
x_mod_n(WEI, int x, int *low) {
  sc_t t;
  fe_t f;

  a_fe_put(&ec->fe, f, x);
  *low = sc_set_fe(&ec->sc, &ec->fe, t, f);

  return a_sc(&ec->sc, t);
}

/* fault: why the first nonce is not usable */
static void
ecdsa_signing(WEI, unsigned choices, int fault, size_t mlen) {
  unsigned char seed[160], k1[80], k2[80];
  int a, m, k, kp, r, s, high, low, odd, mx;
  const size_t n = ec->sc.size;
  unsigned int param = 77;
  drbg_t rng;

  a_wei_start(ec, choices);
  a = new_sc(&ec->sc, priv);
  __tv_vars(msg, mlen, 0, 255);
  m = reduced(ec, msg, mlen);

  put_sc(&ec->sc, seed, a);
  put_sc(&ec->sc, seed + n, m);
  drbg_init(&rng, ec->hash, seed, 2 * n);
  drbg_generate(&rng, k1, n);
  drbg_generate(&rng, k2, n);

  k = reduced(ec, k1, n);

  if (fault == 1)
    a_bad(k1, n, 'S');
  else if (fault == 2)
    *a_named('m', __tv_id(k1, n)) = a_s0;
  else if (fault == 3)
    *a_named('x', a_pts[a_pt_mul(k, 1)].x) = a_s0;

  if (fault)
    k = reduced(ec, k2, n);

  kp = a_pt_mul(k, 1);
  r = x_mod_n(ec, a_pts[kp].x, &low);
  s = a_smul(a_sadd(m, a_smul(r, a)), a_sinv(k));
  high = a_high(s);
  odd = a_odd(a_pts[kp].y);

  A(ecdsa_sign(ec, sig, &param, msg, mlen, priv) == 1, "a message is signed");
  is_sc(&ec->sc, sig, r, "r is the nonce point's coordinate");
  is_sc(&ec->sc, sig + n, high ? a_sneg(s) : s, "s satisfies the signing equation and is low");
  A(param == (unsigned)(((low ^ 1) << 1) | (odd ^ high)), "the recovery number describes the nonce point");
  A(ecdsa_sign(ec, sig, NULL, msg, mlen, priv) == 1, "a message is signed");

  /* and back */
  {
    size_t plen = put_pub(ec, pub, a_pt_mul(a, 1), 0);

    if (low || !ec->high_order) {
      int *v = a_named('<', r * 8192 + a_sc(&ec->sc, ec->sc_p));
      *v = 2;
      A(ecdsa_verify(ec, msg, mlen, sig, pub, plen) == 1, "a signature verifies");
      A(ecdsa_recover(ec, out, &olen, msg, mlen, sig, param, 1) == 1, "the key is recovered");
      is_pub(ec, out, olen, a_pt_mul(a, 1), 1, "the key is recovered");
    }
  }
}

/* a point that is a sum with the given coordinates */
static int
pt_with(int c1, int p1, int c2, int p2, int x) {
  struct a_pt q;
  int y = __tv_rvar(a_fr);
  int r;

  /* coefficients as a_pt_comb would make them */
  int save = a_npts;

  r = a_pt_comb(c1, p1, c2, p2);
  A(r == save, "a new point");
  a_root_set(a_curve_rhs(x), y);
  __tv_rrule(__tv_rop('*', y, y), a_curve_rhs(x));
  a_pts[r].x = x;
  a_pts[r].y = y;

  return r;
}

enum { V_LOW, V_WRAP, V_FAKE, V_OTHER, V_INF, V_HIGH_S, V_OFF, V_R0, V_S0, V_RBIG, V_SBIG, V_XBIG, V_COUNT };

static void
ecdsa_verifying(WEI, unsigned choices, int scene, int form, size_t mlen) {
  const size_t n = ec->sc.size;
  int m, r, s, p, q, fr, si, x, ret;
  size_t plen;
  sc_t t;
  fe_t f;

  if (scene == V_WRAP && ec->high_order)
    return;

  a_wei_start(ec, choices);
  __tv_vars(msg, mlen, 0, 255);
  m = reduced(ec, msg, mlen);
  r = new_sc(&ec->sc, sig);
  s = new_sc(&ec->sc, sig + n);
  p = a_pt_sym(0, 0);
  plen = put_pub(ec, pub, p, form);
  a_attr_set('h', s, scene == V_HIGH_S);

  a_sc_put(&ec->sc, t, r);
  fe_set_sc(&ec->fe, &ec->sc, f, t);
  fr = a_fe(&ec->fe, f);
  si = a_sinv(s);

  if (scene == V_INF) {
    q = a_pt_comb(a_smul(m, si), 1, a_smul(r, si), p);
    a_pt_equate(q, 0);
  } else if (scene != V_OTHER) {
    x = scene == V_WRAP || scene == V_FAKE ? __tv_rop('+', fr, a_fn) : fr;
    pt_with(a_smul(m, si), 1, a_smul(r, si), p, x);
    a_attr_set('<', r * 8192 + a_sc(&ec->sc, ec->sc_p), scene != V_FAKE);

    if (scene != V_FAKE) {
      *a_named('x', x) = r;
      a_attr_set('X', x, scene != V_WRAP);
    }
  }

  if (scene == V_OFF && form)
    __tv_vars(pub + 1 + ec->fe.size, ec->fe.size, 0, 255);
  else if (scene == V_OFF)
    __tv_vars(pub + 1, ec->fe.size, 0, 255);
  else if (scene == V_XBIG)
    a_bad(pub + 1, ec->fe.size, 'F');
  else if (scene == V_RBIG)
    a_bad(sig, n, 'S');
  else if (scene == V_SBIG)
    a_bad(sig + n, n, 'S');
  else if (scene == V_R0)
    a_equate(r, a_s0);
  else if (scene == V_S0)
    a_equate(s, a_s0);

  ret = ecdsa_verify(ec, msg, mlen, sig, pub, plen);

  if (scene == V_LOW || scene == V_WRAP)
    A(ret == 1, "a signature satisfying the equation is accepted");
  else
    A(ret == 0, "any other signature is refused");

  if (form == 6) {
    pub[0] ^= 1;
    A(ecdsa_verify(ec, msg, mlen, sig, pub, plen) == 0, "a key with the wrong parity is refused");
  }
}

enum { C_OK, C_OFF, C_BIG, C_INF, C_HIGH_S, C_R0, C_S0, C_RBIG, C_SBIG, C_COUNT };

static void
ecdsa_recovering(WEI, unsigned choices, int scene, unsigned param, int compact, size_t mlen) {
  const size_t n = ec->sc.size;
  int m, r, s, p, q, fr, ri, x, y, ret;
  sc_t t;
  fe_t f;

  a_wei_start(ec, choices);
  __tv_vars(msg, mlen, 0, 255);
  m = reduced(ec, msg, mlen);
  r = new_sc(&ec->sc, sig);
  s = new_sc(&ec->sc, sig + n);
  a_attr_set('h', s, scene == C_HIGH_S);
  a_attr_set('<', r * 8192 + a_sc(&ec->sc, ec->sc_p), scene != C_BIG);

  a_sc_put(&ec->sc, t, r);
  fe_set_sc(&ec->fe, &ec->sc, f, t);
  fr = a_fe(&ec->fe, f);
  x = (param >> 1) ? __tv_rop('+', fr, a_fn) : fr;
  y = __tv_rvar(a_fr);

  if (scene != C_OFF) {
    a_root_set(a_curve_rhs(x), y);
    __tv_rrule(__tv_rop('*', y, y), a_curve_rhs(x));
  }

  p = scene != C_OFF ? a_pt_sym(x, y) : a_pt_sym(0, 0);

  if (a_odd(a_pts[p].y) != (int)(param & 1))
    p = a_pt_neg(p);

  ri = a_sinv(r);
  q = a_pt_comb(a_sneg(a_smul(m, ri)), 1, a_smul(s, ri), p);

  if (scene == C_INF)
    a_pt_equate(q, 0);
  else if (scene == C_RBIG)
    a_bad(sig, n, 'S');
  else if (scene == C_SBIG)
    a_bad(sig + n, n, 'S');
  else if (scene == C_R0)
    a_equate(r, a_s0);
  else if (scene == C_S0)
    a_equate(s, a_s0);

  ret = ecdsa_recover(ec, out, &olen, msg, mlen, sig, param, compact);

  if (scene == C_OK && !((param >> 1) && ec->high_order)) {
    A(ret == 1, "a key is recovered");
    is_pub(ec, out, olen, q, compact, "the key the signature determines is recovered");
  } else if (scene != C_BIG || (param >> 1)) {
    A(ret == 0, "nothing is recovered from anything else");
  }
}

static void
ecdsa_keys(WEI, unsigned choices, int zero, int form, int compact) {
  const size_t n = ec->sc.size;
  int a, t, p, q, ap, tp, c;
  unsigned char pub2[160], pub3[160];
  const unsigned char *list[3];
  size_t lens[3], plen, plen2, plen3;

#define FRESH \
  a_wei_start(ec, choices); \
  a = new_sc(&ec->sc, priv); \
  t = new_sc(&ec->sc, tweak); \
  p = a_pt_sym(0, 0); \
  q = a_pt_sym(0, 0); \
  plen = put_pub(ec, pub, p, form); \
  plen2 = put_pub(ec, pub2, q, form == 0 ? 4 : form == 4 ? 6 : 0)

  FRESH;
  if (zero) a_equate(a_sadd(a, t), a_s0);
  A(ecdsa_privkey_tweak_add(ec, out, priv, tweak) == !zero, "adding to a key succeeds unless the sum is zero");
  if (!zero) is_sc(&ec->sc, out, a_sadd(a, t), "the sum of key and tweak");

  FRESH;
  if (zero) a_equate(t, a_s0);
  A(ecdsa_privkey_tweak_mul(ec, out, priv, tweak) == !zero, "multiplying a key succeeds unless the product is zero");
  if (!zero) is_sc(&ec->sc, out, a_smul(a, t), "the product of key and tweak");

  FRESH;
  A(ecdsa_privkey_negate(ec, out, priv) == 1, "a key is negated");
  is_sc(&ec->sc, out, a_sneg(a), "the negated key");
  A(ecdsa_privkey_invert(ec, out, priv) == 1, "a key is inverted");
  is_sc(&ec->sc, out, a_sinv(a), "the inverted key");
  A(ecdsa_privkey_verify(ec, priv) == 1, "a key is accepted");
  A(ecdsa_privkey_export(ec, out, priv) == 1, "a key is exported");
  is_sc(&ec->sc, out, a, "the exported key");
  A(ecdsa_privkey_import(ec, out, priv, n) == 1, "a key is imported");
  is_sc(&ec->sc, out, a, "the imported key");

  A(ecdsa_pubkey_create(ec, out, &olen, priv, compact) == 1, "a public key is made");
  is_pub(ec, out, olen, a_pt_mul(a, 1), compact, "the public key");

  FRESH;
  A(ecdsa_pubkey_verify(ec, pub, plen) == 1, "a public key is accepted");
  A(ecdsa_pubkey_convert(ec, out, &olen, pub, plen, compact) == 1, "a public key is converted");
  is_pub(ec, out, olen, p, compact, "the converted public key");
  A(ecdsa_pubkey_export(ec, out, out2, pub, plen) == 1, "a public key is exported");
  is_fe(&ec->fe, out, a_pts[p].x, "the exported coordinate x");
  is_fe(&ec->fe, out2, a_pts[p].y, "the exported coordinate y");
  A(ecdsa_pubkey_import(ec, pub3, &olen, out, ec->fe.size, out2, ec->fe.size, 0, compact) == 1, "a public key is imported");
  is_pub(ec, pub3, olen, p, compact, "the imported public key");
  for (c = 0; c < 2; c++) {
    A(ecdsa_pubkey_import(ec, pub3, &olen, out, ec->fe.size, NULL, 0, c, compact) == 1, "a public key is imported");
    is_pub(ec, pub3, olen, a_odd(a_pts[p].y) == c ? p : a_pt_neg(p), compact, "the imported public key");
  }
  A(ecdsa_pubkey_negate(ec, out, &olen, pub, plen, compact) == 1, "a public key is negated");
  is_pub(ec, out, olen, a_pt_neg(p), compact, "the negated public key");

  FRESH;
  tp = a_pt_add(p, a_pt_mul(t, 1));
  if (zero) { a_pt_equate(tp, 0); }
  A(ecdsa_pubkey_tweak_add(ec, out, &olen, pub, plen, tweak, compact) == !zero, "adding to a public key succeeds unless the sum is infinity");
  if (!zero) is_pub(ec, out, olen, tp, compact, "the sum of public key and tweak");

  FRESH;
  tp = a_pt_mul(t, p);
  if (zero) a_equate(t, a_s0);
  A(ecdsa_pubkey_tweak_mul(ec, out, &olen, pub, plen, tweak, compact) == !zero, "multiplying a public key succeeds unless the product is infinity");
  if (!zero) is_pub(ec, out, olen, tp, compact, "the product of public key and tweak");

  FRESH;
  tp = a_pt_add(p, q);
  if (zero) { a_pt_equate(tp, 0); }
  A(ecdsa_pubkey_add(ec, out, &olen, pub, plen, pub2, plen2, compact) == !zero, "adding public keys succeeds unless the sum is infinity");
  if (!zero) is_pub(ec, out, olen, tp, compact, "the sum of public keys");

  for (c = 0; c <= 3; c++) {
    FRESH;
    ap = a_pt_sym(0, 0);
    plen3 = put_pub(ec, pub3, ap, form == 0 ? 6 : form == 4 ? 0 : 4);
    list[0] = pub; list[1] = pub2; list[2] = pub3;
    lens[0] = plen; lens[1] = plen2; lens[2] = plen3;
    tp = c == 0 ? 0 : c == 1 ? p : c == 2 ? a_pt_add(p, q) : a_pt_add(a_pt_add(p, q), ap);
    if (zero && c > 1) { a_pt_equate(tp, 0); }
    A(ecdsa_pubkey_combine(ec, out, &olen, list, lens, c, compact) == (c == 1 || (c > 1 && !zero)), "combining public keys succeeds unless the sum is infinity");
    if (c == 1 || (c > 1 && !zero)) is_pub(ec, out, olen, tp, compact, "the combined public keys");
  }

  FRESH;
  A(ecdsa_derive(ec, out, &olen, pub, plen, priv, compact) == 1, "a secret is derived");
  is_pub(ec, out, olen, a_pt_mul(a, p), compact, "the shared secret");

  /* no point has these coordinates */
  FRESH;
  if (form == 4 && zero)
    __tv_vars(pub + 1 + ec->fe.size, ec->fe.size, 0, 255);
  else if (zero)
    a_bad(pub + 1, ec->fe.size, 'F');
  else
    __tv_vars(pub + 1, ec->fe.size, 0, 255);
  list[0] = pub2; list[1] = pub; list[2] = pub2;
  lens[0] = plen2; lens[1] = plen; lens[2] = plen2;
  A(ecdsa_pubkey_verify(ec, pub, plen) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_export(ec, out, out2, pub, plen) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_convert(ec, out, &olen, pub, plen, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_import(ec, out, &olen, pub + 1, ec->fe.size, pub + 1 + ec->fe.size, form ? ec->fe.size : 0, 0, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_tweak_add(ec, out, &olen, pub, plen, tweak, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_tweak_mul(ec, out, &olen, pub, plen, tweak, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_negate(ec, out, &olen, pub, plen, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_add(ec, out, &olen, pub, plen, pub2, plen2, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_add(ec, out, &olen, pub2, plen2, pub, plen, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_combine(ec, out, &olen, list, lens, 3, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_pubkey_combine(ec, out, &olen, list + 1, lens + 1, 2, compact) == 0, "coordinates off the curve are refused");
  A(ecdsa_derive(ec, out, &olen, pub, plen, priv, compact) == 0, "coordinates off the curve are refused");

  FRESH;
  t = a_high(new_sc(&ec->sc, sig + n));
  a = new_sc(&ec->sc, sig);
  A(ecdsa_is_low_s(ec, sig) == (t ^ 1), "low s is recognised");
  A(ecdsa_sig_normalize(ec, out, sig) == 1, "a signature is normalized");
  is_sc(&ec->sc, out, a, "r is kept");
  a = a_find('s', __tv_id(sig + n, n));
  is_sc(&ec->sc, out + n, t ? a_sneg(a) : a, "s is made low");
#undef FRESH
}

static wei_t *
curve(int id) {
  wei_t *ec;

  alg_on = 0;
  ec = wei_curve_create((wei_curve_id_t)id);

  if (ec == NULL)
    for (;;) {}

  return ec;
}

static void
run_sign(int id) {
  wei_t *ec = curve(id);
  unsigned c;
  int f;

  for (c = 0; c < 8; c++) {
    ecdsa_signing(ec, c, 0, 32);
    for (f = 1; f < 4 && c < 4; f++)
      ecdsa_signing(ec, c, f, c & 1 ? 20 : ec->sc.size + 5);
  }
}

static void
run_verify(int id) {
  static const int forms[3] = {0, 4, 6};
  wei_t *ec = curve(id);
  unsigned c;
  int s, f, p;

  for (s = 0; s < V_COUNT; s++)
    for (c = 0; c < 4; c++)
      for (f = 0; f < 3; f++)
        ecdsa_verifying(ec, c, s, forms[f], c & 1 ? 32 : ec->sc.size + 3);
}

static void
run_recover(int id) {
  wei_t *ec = curve(id);
  unsigned c;
  int s, p;

  for (s = 0; s < C_COUNT; s++)
    for (c = 0; c < 4; c++)
      for (p = 0; p < 4; p++)
        ecdsa_recovering(ec, c, s, p, c & 1, 32);
}

static void
run_keys(int id) {
  static const int forms[3] = {0, 4, 6};
  wei_t *ec = curve(id);
  unsigned c;
  int f, z;

  for (c = 0; c < 8; c++)
    for (f = 0; f < 3; f++)
      for (z = 0; z < 2; z++)
        ecdsa_keys(ec, c, z, forms[f], (c ^ f) & 1);
}

/* the number of a digest: its leftmost bits, as many as the order has */
static void
run_digest(int id) {
  wei_t *ec = curve(id);
  const int n = ec->sc.size;
  int len, i, k, m;
  sc_t r, t;

  for (len = 0; len <= n + 3; len++) {
    m = len < n ? len : n;
    k = m * 8 > ec->sc.bits ? m * 8 - ec->sc.bits : 0;

    __tv_vars(msg, len, 0, 255);
    ecdsa_reduce(ec, r, msg, len);

    memset(out, 0, n);

    for (i = 0; i < m; i++)
      out[n - m + i] = k == 0 ? msg[i] : (msg[i] >> k) | (i > 0 ? msg[i - 1] << (8 - k) : 0);

    sc_import_weak(&ec->sc, t, out);
    __tv_same(r, t, ec->sc.limbs * sizeof(mp_limb_t), "the number of a digest");
  }
}

#define CURVE(name, id) \
void tv_digest_##name(void) { run_digest(id); } \
void tv_sign_##name(void) { run_sign(id); } \
void tv_verify_##name(void) { run_verify(id); } \
void tv_recover_##name(void) { run_recover(id); } \
void tv_keys_##name(void) { run_keys(id); }

CURVE(p192, WEI_CURVE_P192)
CURVE(p224, WEI_CURVE_P224)
CURVE(p256, WEI_CURVE_P256)
CURVE(p384, WEI_CURVE_P384)
CURVE(p521, WEI_CURVE_P521)
CURVE(secp256k1, WEI_CURVE_SECP256K1)

/* ---- BIP-Schnorr and BIP340 ---- */

/* the number a signature scheme takes from a hash of these pieces */
static int
hashed(WEI, const char *tag, int n, const unsigned char *const *parts, const size_t *lens) {
  unsigned char bytes[HASH_MAX_OUTPUT_SIZE + 80];
  hash_t h;
  sc_t t;
  int i;

  hash_init(&h, HASH_SHA256);

  if (tag != NULL) {
    hash_update(&h, tag, strlen(tag));
    hash_final(&h, bytes, 32);
    hash_init(&h, HASH_SHA256);
    hash_update(&h, bytes, 32);
    hash_update(&h, bytes, 32);
  }

  for (i = 0; i < n; i++)
    hash_update(&h, parts[i], lens[i]);

  hash_final(&h, bytes, 32);
  sc_import_weak(&ec->sc, t, bytes);
  memcpy(out2, bytes, 32);

  return a_sc(&ec->sc, t);
}

static int
hash2(WEI, const char *tag, const unsigned char *a, size_t an, const unsigned char *b, size_t bn) {
  const unsigned char *parts[2];
  size_t lens[2];

  parts[0] = a; lens[0] = an;
  parts[1] = b; lens[1] = bn;

  return hashed(ec, tag, 2, parts, lens);
}

static int
hash3(WEI, const char *tag, const unsigned char *a, size_t an, const unsigned char *b, size_t bn, const unsigned char *c, size_t cn) {
  const unsigned char *parts[3];
  size_t lens[3];

  parts[0] = a; lens[0] = an;
  parts[1] = b; lens[1] = bn;
  parts[2] = c; lens[2] = cn;

  return hashed(ec, tag, 3, parts, lens);
}

static void
bipschnorr_signing(WEI, unsigned choices, int fault, size_t mlen) {
  const size_t n = 32;
  unsigned char A_[33], r_[32];
  int a, k, e, kp, ap, ret;
  size_t plen;

  a_wei_start(ec, choices);
  a = new_sc(&ec->sc, priv);
  __tv_vars(msg, mlen, 0, 255);
  ap = a_pt_mul(a, 1);
  put_pub(ec, A_, ap, 0);
  k = hash2(ec, NULL, priv, n, msg, mlen);

  if (fault)
    a_equate(k, a_s0);

  ret = bipschnorr_sign(ec, sig, msg, mlen, priv);

  if (fault) {
    A(ret == 0, "a zero nonce is refused");
    return;
  }

  kp = a_pt_mul(k, 1);

  if (!a_square(a_pts[kp].y))
    k = a_sneg(k);

  put_fe(&ec->fe, r_, a_pts[kp].x);
  e = hash3(ec, NULL, r_, n, A_, 33, msg, mlen);

  A(ret == 1, "a message is signed");
  is_fe(&ec->fe, sig, a_pts[kp].x, "r is the nonce point's coordinate");
  is_sc(&ec->sc, sig + n, a_sadd(k, a_smul(e, a)), "s satisfies the signing equation");

  plen = put_pub(ec, pub, ap, choices & 1 ? 4 : 0);
  A(bipschnorr_verify(ec, msg, mlen, sig, pub, plen) == 1, "a signature verifies");
}

enum { B_OK, B_FLIP, B_OTHER, B_INF, B_OFF, B_RBIG, B_SBIG, B_XBIG, B_COUNT };

static void
bipschnorr_verifying(WEI, unsigned choices, int scene, int form, size_t mlen) {
  unsigned char A_[33];
  int p, s, e, fr, q, y, ret;
  size_t plen;

  a_wei_start(ec, choices);
  __tv_vars(msg, mlen, 0, 255);
  fr = __tv_rvar(a_fr);
  put_fe(&ec->fe, sig, fr);
  s = new_sc(&ec->sc, sig + 32);
  p = a_pt_sym(0, 0);
  plen = put_pub(ec, pub, p, form);
  put_pub(ec, A_, p, 0);
  e = hash3(ec, NULL, sig, 32, A_, 33, msg, mlen);

  if (scene == B_INF) {
    a_pt_equate(a_pt_comb(s, 1, a_sneg(e), p), 0);
  } else if (scene != B_OTHER) {
    q = pt_with(s, 1, a_sneg(e), p, fr);
    a_attr_set('q', a_pts[q].y, scene != B_FLIP);
  }

  if (scene == B_OFF)
    __tv_vars(pub + 1 + (form ? 32 : 0), 32, 0, 255);
  else if (scene == B_RBIG)
    a_bad(sig, 32, 'F');
  else if (scene == B_SBIG)
    a_bad(sig + 32, 32, 'S');
  else if (scene == B_XBIG)
    a_bad(pub + 1, 32, 'F');

  ret = bipschnorr_verify(ec, msg, mlen, sig, pub, plen);

  if (scene == B_OK)
    A(ret == 1, "a signature satisfying the equation is accepted");
  else
    A(ret == 0, "any other signature is refused");
}

static void
bip340_signing(WEI, unsigned choices, int fault, int with_aux, size_t mlen) {
  unsigned char d[32], A_[32], r_[32], aux[32], t[32];
  int a, k, e, kp, ap, ret, i;

  a_wei_start(ec, choices);
  a = new_sc(&ec->sc, priv);
  __tv_vars(msg, mlen, 0, 255);
  __tv_vars(aux, 32, 0, 255);
  ap = a_pt_mul(a, 1);
  put_fe(&ec->fe, A_, a_pts[ap].x);

  if (a_odd(a_pts[ap].y))
    a = a_sneg(a);

  put_sc(&ec->sc, d, a);

  if (with_aux) {
    hash2(ec, "BIP0340/aux", aux, 32, aux, 0);

    for (i = 0; i < 32; i++)
      t[i] = d[i] ^ out2[i];
  } else {
    memcpy(t, d, 32);
  }

  k = hash3(ec, "BIP0340/nonce", t, 32, A_, 32, msg, mlen);

  if (fault)
    a_equate(k, a_s0);

  ret = bip340_sign(ec, sig, msg, mlen, priv, with_aux ? aux : NULL);

  if (fault) {
    A(ret == 0, "a zero nonce is refused");
    return;
  }

  kp = a_pt_mul(k, 1);

  if (a_odd(a_pts[kp].y))
    k = a_sneg(k);

  put_fe(&ec->fe, r_, a_pts[kp].x);
  e = hash3(ec, "BIP0340/challenge", r_, 32, A_, 32, msg, mlen);

  A(ret == 1, "a message is signed");
  is_fe(&ec->fe, sig, a_pts[kp].x, "r is the nonce point's coordinate");
  is_sc(&ec->sc, sig + 32, a_sadd(k, a_smul(e, a)), "s satisfies the signing equation");
  A(bip340_verify(ec, msg, mlen, sig, A_) == 1, "a signature verifies");
}

/* an x-only key: the even point */
static int
put_x(WEI, unsigned char *raw) {
  int p = a_pt_sym(0, 0);

  put_fe(&ec->fe, raw, a_pts[p].x);

  return a_odd(a_pts[p].y) ? a_pt_neg(p) : p;
}

static void
bip340_verifying(WEI, unsigned choices, int scene, size_t mlen) {
  int p, s, e, fr, q, ret;

  a_wei_start(ec, choices);
  __tv_vars(msg, mlen, 0, 255);
  fr = __tv_rvar(a_fr);
  put_fe(&ec->fe, sig, fr);
  s = new_sc(&ec->sc, sig + 32);
  p = put_x(ec, pub);
  e = hash3(ec, "BIP0340/challenge", sig, 32, pub, 32, msg, mlen);

  if (scene == B_INF) {
    a_pt_equate(a_pt_comb(s, 1, a_sneg(e), p), 0);
  } else if (scene != B_OTHER) {
    q = pt_with(s, 1, a_sneg(e), p, fr);
    a_attr_set('o', a_pts[q].y, scene == B_FLIP);
  }

  if (scene == B_OFF)
    __tv_vars(pub, 32, 0, 255);
  else if (scene == B_RBIG)
    a_bad(sig, 32, 'F');
  else if (scene == B_SBIG)
    a_bad(sig + 32, 32, 'S');
  else if (scene == B_XBIG)
    a_bad(pub, 32, 'F');

  ret = bip340_verify(ec, msg, mlen, sig, pub);

  if (scene == B_OK)
    A(ret == 1, "a signature satisfying the equation is accepted");
  else
    A(ret == 0, "any other signature is refused");
}

static void
bip340_keys(WEI, unsigned choices, int zero) {
  unsigned char pub2[80], pub3[80];
  const unsigned char *list[3];
  int a, d, t, p, q, u, neg, c, good;

#define FRESH \
  a_wei_start(ec, choices); \
  a = new_sc(&ec->sc, priv); \
  t = new_sc(&ec->sc, tweak); \
  p = put_x(ec, pub); \
  q = put_x(ec, pub2); \
  d = a_odd(a_pts[a_pt_mul(a, 1)].y) ? a_sneg(a) : a; \
  neg = 77

  FRESH;
  A(bip340_privkey_export(ec, out, out2, out2 + 80, priv) == 1, "a key is exported");
  is_sc(&ec->sc, out, d, "the exported key has an even public key");
  is_fe(&ec->fe, out2, a_pts[a_pt_mul(d, 1)].x, "the exported coordinate x");
  is_fe(&ec->fe, out2 + 80, a_pts[a_pt_mul(d, 1)].y, "the exported coordinate y");
  A(bip340_privkey_verify(ec, priv) == 1, "a key is accepted");
  A(bip340_privkey_invert(ec, out, priv) == 1, "a key is inverted");
  is_sc(&ec->sc, out, a_sinv(a), "the inverted key");
  A(bip340_pubkey_create(ec, out, priv) == 1, "a public key is made");
  is_fe(&ec->fe, out, a_pts[a_pt_mul(a, 1)].x, "the public key");

  FRESH;
  if (zero) a_equate(a_sadd(d, t), a_s0);
  A(bip340_privkey_tweak_add(ec, out, priv, tweak) == !zero, "adding to a key succeeds unless the sum is zero");
  if (!zero) is_sc(&ec->sc, out, a_sadd(d, t), "the sum of even key and tweak");

  FRESH;
  if (zero) a_equate(t, a_s0);
  A(bip340_privkey_tweak_mul(ec, out, priv, tweak) == !zero, "multiplying a key succeeds unless the product is zero");
  if (!zero) is_sc(&ec->sc, out, a_smul(a, t), "the product of key and tweak");

  FRESH;
  A(bip340_pubkey_verify(ec, pub) == 1, "a public key is accepted");
  A(bip340_pubkey_export(ec, out, out2, pub) == 1, "a public key is exported");
  is_fe(&ec->fe, out, a_pts[p].x, "the exported coordinate x");
  is_fe(&ec->fe, out2, a_pts[p].y, "the exported coordinate y is even");
  A(bip340_pubkey_import(ec, pub3, out, 32, out2, 32) == 1, "a public key is imported");
  is_fe(&ec->fe, pub3, a_pts[p].x, "the imported public key");
  A(bip340_pubkey_import(ec, pub3, out, 32, NULL, 0) == 1, "a public key is imported");
  is_fe(&ec->fe, pub3, a_pts[p].x, "the imported public key");
  __tv_vars(out2, 32, 0, 255);
  A(bip340_pubkey_import(ec, pub3, out, 32, out2, 32) == 0, "coordinates off the curve are refused");
  A(bip340_pubkey_import(ec, pub3, out2, 32, NULL, 0) == 0, "coordinates off the curve are refused");

  FRESH;
  u = a_pt_add(p, a_pt_mul(t, 1));
  if (zero) a_pt_equate(u, 0);
  A(bip340_pubkey_tweak_add(ec, out, &neg, pub, tweak) == !zero, "adding to a public key succeeds unless the sum is infinity");
  if (!zero) {
    is_fe(&ec->fe, out, a_pts[u].x, "the sum of public key and tweak");
    A(neg == a_odd(a_pts[u].y), "the parity of the sum is reported");
    A(bip340_pubkey_tweak_add_check(ec, pub, tweak, out, neg) == 1, "a right sum is confirmed");
    A(bip340_pubkey_tweak_add_check(ec, pub, tweak, out, neg ^ 1) == 0, "a wrong parity is refused");
    A(bip340_pubkey_tweak_add_check(ec, pub, tweak, pub2, neg) == 0, "a wrong sum is refused");
    A(bip340_pubkey_tweak_add(ec, out2, NULL, pub, tweak) == 1, "the parity may be left out");
    __tv_same(out, out2, 32, "the parity may be left out");
  } else {
    A(bip340_pubkey_tweak_add_check(ec, pub, tweak, out, neg) == 0, "infinity is no sum");
  }

  FRESH;
  u = a_pt_mul(t, p);
  if (zero) a_equate(t, a_s0);
  A(bip340_pubkey_tweak_mul(ec, out, &neg, pub, tweak) == !zero, "multiplying a public key succeeds unless the product is infinity");
  if (!zero) {
    is_fe(&ec->fe, out, a_pts[u].x, "the product of public key and tweak");
    A(neg == a_odd(a_pts[u].y), "the parity of the product is reported");
    A(bip340_pubkey_tweak_mul_check(ec, pub, tweak, out, neg) == 1, "a right product is confirmed");
    A(bip340_pubkey_tweak_mul_check(ec, pub, tweak, out, neg ^ 1) == 0, "a wrong parity is refused");
    A(bip340_pubkey_tweak_mul_check(ec, pub, tweak, pub2, neg) == 0, "a wrong product is refused");
  } else {
    A(bip340_pubkey_tweak_mul_check(ec, pub, tweak, out, neg) == 0, "infinity is no product");
  }

  FRESH;
  u = a_pt_add(p, q);
  if (zero) a_pt_equate(u, 0);
  A(bip340_pubkey_add(ec, out, pub, pub2) == !zero, "adding public keys succeeds unless the sum is infinity");
  if (!zero) is_fe(&ec->fe, out, a_pts[u].x, "the sum of public keys");

  for (c = 0; c <= 3; c++) {
    FRESH;
    u = put_x(ec, pub3);
    list[0] = pub; list[1] = pub2; list[2] = pub3;
    u = c == 0 ? 0 : c == 1 ? p : c == 2 ? a_pt_add(p, q) : a_pt_add(a_pt_add(p, q), u);
    good = c == 1 || (c > 1 && !zero);
    if (zero && c > 1) a_pt_equate(u, 0);
    A(bip340_pubkey_combine(ec, out, list, c) == good, "combining public keys succeeds unless the sum is infinity");
    if (good) is_fe(&ec->fe, out, a_pts[u].x, "the combined public keys");
  }

  FRESH;
  A(bip340_derive(ec, out, pub, priv) == 1, "a secret is derived");
  is_fe(&ec->fe, out, a_pts[a_pt_mul(a, p)].x, "the shared secret");

  /* no point has this coordinate */
  FRESH;
  if (zero)
    a_bad(pub2, 32, 'F');
  else
    __tv_vars(pub2, 32, 0, 255);
  list[0] = pub; list[1] = pub2; list[2] = pub;
  A(bip340_pubkey_verify(ec, pub2) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_export(ec, out, out2, pub2) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_import(ec, out, pub2, 32, NULL, 0) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_tweak_add(ec, out, &neg, pub2, tweak) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_tweak_add_check(ec, pub2, tweak, out, neg) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_tweak_mul(ec, out, &neg, pub2, tweak) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_tweak_mul_check(ec, pub2, tweak, out, neg) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_add(ec, out, pub, pub2) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_add(ec, out, pub2, pub) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_combine(ec, out, list, 3) == 0, "a coordinate off the curve is refused");
  A(bip340_pubkey_combine(ec, out, list + 1, 2) == 0, "a coordinate off the curve is refused");
  A(bip340_derive(ec, out, pub2, priv) == 0, "a coordinate off the curve is refused");
#undef FRESH
}

/* ---- batches ---- */

#define B_MAX 3

static unsigned char b_msg[B_MAX][8], b_sig[B_MAX][64], b_pub[B_MAX][65];
static int b_n, b_watch;

static void
watch(const mp_limb_t *z, size_t n) {
  int i;

  for (i = 0; i < b_n; i++) {
    __tv_depends(z, n, b_msg[i], sizeof(b_msg[i]), "a batch coefficient depends on every message");
    __tv_depends(z, n, b_sig[i], 64, "a batch coefficient depends on every signature");
    __tv_depends(z, n, b_pub[i], b_watch == 1 ? 33 : 32, "a batch coefficient depends on every public key");
  }
}

void
__tvc_sc_random(SC, sc_t z, drbg_t *rng) {
  sc_random(sc, z, rng);

  if (alg_on && b_watch)
    watch(z, sc->limbs * sizeof(mp_limb_t));
}

/* scheme: 1 BIP-Schnorr, 2 BIP340 */
static void
batch(WEI, unsigned choices, int scheme, int n, size_t room, int spoil) {
  const unsigned char *msgs[B_MAX], *sigs[B_MAX], *pubs[B_MAX];
  unsigned char A_[33];
  size_t mlens[B_MAX], plens[B_MAX];
  int rp[B_MAX], ap[B_MAX], s[B_MAX], e[B_MAX], c[B_MAX], done[B_MAX];
  wei__scratch_t *scratch = wei_scratch_create(ec, room);
  int i, j, x, y, q, sum, rounds, ret = 0;

  a_wei_start(ec, choices);
  b_n = n;
  b_watch = scheme;

  for (i = 0; i < n; i++) {
    msgs[i] = b_msg[i]; mlens[i] = sizeof(b_msg[i]);
    sigs[i] = b_sig[i]; pubs[i] = b_pub[i]; plens[i] = 33;
    done[i] = 0;

    __tv_vars(b_msg[i], sizeof(b_msg[i]), 0, 255);
    rp[i] = a_pt_sym(0, 0);
    x = a_pts[rp[i]].x;
    put_fe(&ec->fe, b_sig[i], x);
    s[i] = new_sc(&ec->sc, b_sig[i] + 32);

    if (scheme == 1) {
      ap[i] = a_pt_sym(0, 0);
      plens[i] = put_pub(ec, b_pub[i], ap[i], i == 1 ? 4 : 0);
      put_pub(ec, A_, ap[i], 0);
      e[i] = hash3(ec, NULL, b_sig[i], 32, A_, 33, b_msg[i], mlens[i]);

      if (!a_square(a_pts[rp[i]].y))
        rp[i] = a_pt_neg(rp[i]);
    } else {
      ap[i] = put_x(ec, b_pub[i]);
      e[i] = hash3(ec, "BIP0340/challenge", b_sig[i], 32, b_pub[i], 32, b_msg[i], mlens[i]);

      if (a_odd(a_pts[rp[i]].y))
        rp[i] = a_pt_neg(rp[i]);
    }
  }

  if (spoil == 1)
    a_bad(b_sig[n - 1] + 32, 32, 'S');
  else if (spoil == 2)
    a_bad(b_sig[n - 1], 32, 'F');
  else if (spoil == 3)
    a_bad(b_pub[n - 1] + (scheme == 1), 32, 'F');
  else if (spoil == 4)
    __tv_vars(b_sig[n - 1], 32, 0, 255);
  else if (spoil == 5)
    __tv_vars(b_pub[n - 1] + (scheme == 1), 32, 0, 255);

  /* each failing sum is what it should be; make it vanish and go on */
  for (rounds = 0; rounds <= n; rounds++) {
    a_last = -1;

    ret = scheme == 1 ? bipschnorr_verify_batch(ec, msgs, mlens, sigs, pubs, plens, n, scratch)
                      : bip340_verify_batch(ec, msgs, mlens, sigs, pubs, n, scratch);

    if (ret || a_last <= 0)
      break;

    sum = 0;

    for (i = 0; i < n; i++) {
      int sym = a_pts[rp[i]].sym[0];

      c[i] = a_s0;

      for (j = 0; j < a_pts[a_last].n; j++)
        if (a_pts[a_last].sym[j] == sym)
          c[i] = a_smul(a_pts[a_last].coef[j], a_pts[rp[i]].coef[0]);

      if (c[i] == a_s0)
        continue;

      A(!done[i], "every signature is checked once");
      done[i] = 1;

      for (j = 0; j < i; j++)
        A(c[j] == a_s0 || (c[i] != c[j] && c[i] != a_sneg(c[j])), "coefficients of a batch are independent");

      for (j = 0; j < n; j++)
        A(c[i] != s[j] && c[i] != e[j] && c[i] != a_sneg(s[j]) && c[i] != a_sneg(e[j]), "coefficients of a batch are independent");

      sum = a_pt_add(sum, a_pt_mul(c[i], rp[i]));
      sum = a_pt_add(sum, a_pt_mul(a_smul(c[i], e[i]), ap[i]));
      sum = a_pt_sub(sum, a_pt_mul(a_smul(c[i], s[i]), 1));
    }

    A(sum == a_last, "a batch sums the verification equations");
    a_pt_equate(sum, 0);
  }

  if (spoil && n > 0) {
    A(ret == 0, "a malformed entry spoils a batch");
  } else {
    A(ret == 1, "a batch of satisfied equations is accepted");

    for (i = 0; i < n; i++)
      A(done[i], "every signature is checked");
  }

  alg_on = 0;
  b_watch = 0;
  wei_scratch_destroy(ec, scratch);
}

static void
run_batch(int id, int scheme) {
  wei_t *ec = curve(id);
  int n, spoil;

  for (n = 0; n <= 3; n++) {
    batch(ec, 0x1b, scheme, n, 2, 0);
    batch(ec, 0x2c, scheme, n, 5, 0);
    batch(ec, 0x35, scheme, n, 64, 0);
  }

  for (n = 1; n <= 3; n++)
    for (spoil = 1; spoil <= 5; spoil++)
      batch(ec, 0x4a, scheme, n, n == 2 ? 2 : 64, spoil);
}

static void
run_schnorr(int id) {
  static const int forms[3] = {0, 4, 6};
  wei_t *ec = curve(id);
  unsigned c;
  int s, f;

  for (c = 0; c < 8; c++)
    for (f = 0; f < 2; f++)
      bipschnorr_signing(ec, c, f, c & 1 ? 32 : 5);

  for (s = 0; s < B_COUNT; s++)
    for (c = 0; c < 8; c++)
      for (f = 0; f < 3; f++)
        bipschnorr_verifying(ec, c, s, forms[f], 32);
}

static void
run_bip340(int id) {
  wei_t *ec = curve(id);
  unsigned c;
  int s, f;

  for (c = 0; c < 8; c++)
    for (f = 0; f < 4; f++)
      bip340_signing(ec, c, f & 1, f >> 1, c & 1 ? 32 : 5);

  for (s = 0; s < B_COUNT; s++)
    for (c = 0; c < 8; c++)
      bip340_verifying(ec, c, s, 32);

  for (c = 0; c < 32; c++)
    for (f = 0; f < 2; f++)
      bip340_keys(ec, c, f);
}

#define BIP(name, id) \
void tv_schnorr_##name(void) { run_schnorr(id); } \
void tv_bip340_##name(void) { run_bip340(id); } \
void tv_schnorr_batch_##name(void) { run_batch(id, 1); } \
void tv_bip340_batch_##name(void) { run_batch(id, 2); }

BIP(p256, WEI_CURVE_P256)
BIP(secp256k1, WEI_CURVE_SECP256K1)
