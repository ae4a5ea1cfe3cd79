/* What EdDSA, Ristretto keys and Montgomery key agreement compute, with arithmetic
 * and group operations taken for what they mean (see alg.h). */
#include "tv.h"
#include "ecc.c"
#include "alg.h"

#define P(n) __tv_phase(#n)
#define R(e, what) __tv_assert((e) == 0, what)
#define A(e, what) __tv_assert(e, what)

static unsigned char priv[80], tweak[80], pub[80], pub2[80], msg[32], sig[160], out[256], want[256], ctx[300];

/* tables are not used: multiplication is taken for what it means */
void __tvc_xge_fixed_points(EDW, xge_t *t, const xge_t *p) {}
void __tvc_xge_fixed_naf_points(EDW, xge_t *t, const xge_t *p, int width) {}

/* ---- inputs ---- */

static int
new_sc(SC, unsigned char *raw) {
  int h = __tv_rvar(a_sr);

  a_sc_bytes_of(raw, sc->size, h);

  return h;
}

static void
put_fe(FE, unsigned char *raw, int h) {
  fe_t t;

  a_fe_put(fe, t, h);
  fe_export(fe, raw, t);
}

static void
put_sc(SC, unsigned char *raw, int h) {
  sc_t t;

  a_sc_put(sc, t, h);
  sc_export(sc, raw, t);
}

static void
is_fe(FE, const unsigned char *raw, int h, const char *what) {
  put_fe(fe, want, h);
  __tv_same(raw, want, fe->size, what);
}

static void
is_sc(SC, const unsigned char *raw, int h, const char *what) {
  put_sc(sc, want, h);
  __tv_same(raw, want, sc->size, what);
}

/* y and the lowest bit of x */
static void
put_pt(EDW, unsigned char *raw, int p) {
  size_t n = ec->fe.size;

  put_fe(&ec->fe, raw, p ? a_pts[p].y : a_f1);

  if (ec->fe.adj_size > n)
    raw[n] = (p ? a_odd(a_pts[p].x) : 0) * 0x80;
  else
    raw[n - 1] |= (p ? a_odd(a_pts[p].x) : 0) * 0x80;
}

static void
is_pt(EDW, const unsigned char *raw, int p, const char *what) {
  put_pt(ec, want, p);
  __tv_same(raw, want, ec->fe.adj_size, what);
}

static int
is_448(EDW) { return ec->fe.bits == 448; }

static void
clamp(int bits, int h, unsigned char *raw, size_t n) {
  raw[0] &= 256 - h;

  if (bits & 7) {
    raw[n - 1] &= (1 << (bits & 7)) - 1;
    raw[n - 1] |= 1 << ((bits & 7) - 1);
  } else {
    raw[n - 1] |= 0x80;
  }
}

/* ---- hashing ---- */

static hash_t H;

static void
h_start(EDW) {
  hash_init(&H, is_448(ec) ? HASH_SHAKE256 : HASH_SHA512);
}

static void
h_dom(EDW, int ph, size_t clen) {
  static const char *names[3] = {"SigEd25519 no Ed25519 collisions", "SigEd448", "SigEd1174"};
  unsigned char b[2];
  const char *name = names[is_448(ec) ? 1 : ec->fe.bits == 255 ? 0 : 2];

  h_start(ec);

  if (ec->fe.bits == 255 && ph == -1 && clen == 0)
    return;

  if (clen > 255)
    clen = 255;

  b[0] = ph == 1;
  b[1] = clen;

  hash_update(&H, name, strlen(name));
  hash_update(&H, b, 2);
  hash_update(&H, ctx, clen);
}

static int
h_scalar(EDW) {
  unsigned char bytes[128];
  sc_t t;

  hash_final(&H, bytes, 2 * ec->fe.adj_size);
  sc_import_wide(&ec->sc, t, bytes, 2 * ec->fe.adj_size);

  return a_sc(&ec->sc, t);
}

static int
challenge(EDW, const unsigned char *Rr, const unsigned char *Ar, size_t mlen, int ph, size_t clen) {
  h_dom(ec, ph, clen);
  hash_update(&H, Rr, ec->fe.adj_size);
  hash_update(&H, Ar, ec->fe.adj_size);
  hash_update(&H, msg, mlen);

  return h_scalar(ec);
}

/* ---- signing ---- */

static int
sc_of(EDW, const unsigned char *raw) {
  sc_t t;

  sc_import_reduce(&ec->sc, t, raw);

  return a_sc(&ec->sc, t);
}

static void
signature(EDW, const unsigned char *s, int a, const unsigned char *prefix, size_t mlen, int ph, size_t clen) {
  size_t n = ec->fe.adj_size;
  unsigned char Ar[64];
  int k, e;

  h_dom(ec, ph, clen);
  hash_update(&H, prefix, n);
  hash_update(&H, msg, mlen);
  k = h_scalar(ec);

  is_pt(ec, s, a_pt_mul(k, 1), "a signature starts with the nonce point");
  put_pt(ec, Ar, a_pt_mul(a, 1));
  e = challenge(ec, s, Ar, mlen, ph, clen);
  is_sc(&ec->sc, s + n, a_sadd(k, a_smul(e, a)), "s is k + e a");

  if (is_448(ec))
    R(s[n + ec->fe.size], "the last byte is zero");
}

static void
signing(EDW, unsigned choices, size_t mlen, int ph, size_t clen) {
  unsigned char h[128], prefix[64];
  size_t n = ec->fe.adj_size;
  int a, t;

  a_edw_start(ec, choices);
  __tv_vars(priv, n, 0, 255);
  __tv_vars(msg, mlen, 0, 255);
  __tv_vars(ctx, sizeof(ctx), 0, 255);

  h_start(ec);
  hash_update(&H, priv, n);
  hash_final(&H, h, 2 * n);
  clamp(ec->fe.bits, ec->h, h, ec->sc.size);
  a = sc_of(ec, h);

  P(1);
  __tv_vars(sig, sizeof(sig), 0, 255);
  eddsa_sign(ec, sig, msg, mlen, priv, ph, ctx, clen);
  signature(ec, sig, a, h + n, mlen, ph, clen);

  P(2);
  eddsa_pubkey_create(ec, out, priv);
  is_pt(ec, out, a_pt_mul(a, 1), "the public key is a G");

  P(3);
  eddsa_privkey_expand(ec, out, prefix, priv);
  __tv_same(out, h, ec->sc.size, "a private key expands to its hash");
  __tv_same(prefix, h + n, n, "a private key expands to its hash");
  eddsa_privkey_convert(ec, out, priv);
  __tv_same(out, h, ec->sc.size, "a private key converts to its hash");

  t = new_sc(&ec->sc, tweak);
  h_start(ec);
  hash_update(&H, h + n, n);
  hash_update(&H, tweak, ec->sc.size);
  hash_final(&H, prefix, n);

  P(4);
  __tv_vars(sig, sizeof(sig), 0, 255);
  eddsa_sign_tweak_add(ec, sig, msg, mlen, priv, tweak, ph, ctx, clen);
  signature(ec, sig, a_sadd(a, t), prefix, mlen, ph, clen);

  P(5);
  __tv_vars(sig, sizeof(sig), 0, 255);
  eddsa_sign_tweak_mul(ec, sig, msg, mlen, priv, tweak, ph, ctx, clen);
  signature(ec, sig, a_smul(a, t), prefix, mlen, ph, clen);

  P(6);
  __tv_vars(prefix, n, 0, 255);
  a = new_sc(&ec->sc, tweak);
  __tv_vars(sig, sizeof(sig), 0, 255);
  eddsa_sign_with_scalar(ec, sig, msg, mlen, tweak, prefix, ph, ctx, clen);
  signature(ec, sig, a, prefix, mlen, ph, clen);
}

/* ---- verification ---- */

enum { V_GOOD, V_OTHER_R, V_OTHER_S, V_OTHER_A, V_NEG_R, V_SMALL_A, V_SMALL_A_OFF, V_SMALL_R, V_R_RANGE, V_A_RANGE, V_S_RANGE,
       V_R_OFF, V_A_OFF, V_PAD, V_R_PAD, V_A_PAD, V_OTHER_CTX, V_OTHER_PH, V_OTHER_MSG, V_S_ZERO, V_ONLY_S_ZERO, V_COUNT };

static const char *v_names[V_COUNT] = {"good", "other R", "other s", "other A", "-R", "A + T", "A + T, R not", "R + T", "R range", "A range", "s range",
  "R off", "A off", "padding", "R padding", "A padding", "other context", "other flag", "other message", "s zero", "only s zero"};

static void
verifying(EDW, unsigned choices, int scene, size_t mlen, int ph, size_t clen) {
  size_t n = ec->fe.adj_size, m = ec->fe.size;
  const unsigned char *mp = msg, *cp = ctx;
  unsigned char other[32], octx[300];
  int i, ok = 1, ok8 = 1, ap, rp, k, e, s, T = 0, a, v, ph2 = ph;

  a_edw_start(ec, choices);
  __tv_vars(msg, mlen, 0, 255);
  __tv_vars(ctx, sizeof(ctx), 0, 255);
  memcpy(other, msg, mlen);
  memcpy(octx, ctx, sizeof(ctx));

  a = new_sc(&ec->sc, want);
  ap = a_pt_mul(a, 1);
  k = new_sc(&ec->sc, want);
  rp = a_pt_mul(k, 1);

  if (scene == V_SMALL_A || scene == V_SMALL_A_OFF || scene == V_SMALL_R)
    T = a_pt_small();

  if (scene == V_SMALL_A || scene == V_SMALL_A_OFF)
    ap = a_pt_add(ap, T);

  if (scene == V_SMALL_R) {
    rp = a_pt_add(rp, T);
    ok = 0;
  }

  put_pt(ec, pub, ap);

  if (scene == V_A_OFF) { /* no such point */
    __tv_vars(pub, m, 0, 255);
    ok = ok8 = 0;
  } else if (scene == V_A_RANGE) {
    memcpy(want, pub, m);

    if (!is_448(ec))
      want[m - 1] &= 0x7f;

    a_bad(want, m, 'F');
    ok = ok8 = 0;
  } else if (scene == V_A_PAD) {
    if (!is_448(ec))
      return;

    pub[m] |= 0x20;
    ok = ok8 = 0;
  }

  put_pt(ec, sig, rp);

  if (scene == V_SMALL_A) {
    /* the nonce point that makes the equation hold exactly */
    unsigned char tok[4] = {1, 2, 3, 4};

    __tv_uf(sig, n, "R", tok, 4);

    if (is_448(ec))
      sig[m] = 0;
    else
      sig[m - 1] &= 0x7f;

    e = challenge(ec, sig, pub, mlen, ph, clen);
    rp = a_pt_comb2(a_s1, a_t1, a_pt_mul(k, 1), a_s0, __tv_rop('-', a_t0, a_tau_of(e)), T);
    *a_named('f', __tv_id(sig, m)) = a_pts[rp].y;
    a_attr_set('o', a_pts[rp].x, 0);
  } else if (scene == V_SMALL_A_OFF) {
    ok = 0;
  }

  if (scene == V_OTHER_R || scene == V_R_OFF) {
    if (scene == V_R_OFF)
      __tv_vars(sig, m, 0, 255);
    else
      put_pt(ec, sig, a_pt_sym(0, 0));

    ok = ok8 = 0;
  } else if (scene == V_NEG_R) {
    e = challenge(ec, sig, pub, mlen, ph, clen);
    put_pt(ec, sig, a_pt_neg(rp));
    ok = ok8 = 0;
  } else if (scene == V_R_RANGE) {
    memcpy(want, sig, m);

    if (!is_448(ec))
      want[m - 1] &= 0x7f;

    a_bad(want, m, 'F');
    ok = ok8 = 0;
  } else if (scene == V_R_PAD) {
    if (!is_448(ec))
      return;

    sig[m] |= 0x01;
    ok = ok8 = 0;
  }

  e = challenge(ec, sig, pub, mlen, ph, clen);
  s = a_sadd(k, a_smul(e, a));

  if (scene == V_OTHER_S) {
    s = new_sc(&ec->sc, want);
    ok = ok8 = 0;
  } else if (scene == V_OTHER_A) {
    put_pt(ec, pub, a_pt_sym(0, 0));
    ok = ok8 = 0;
  } else if (scene == V_ONLY_S_ZERO) {
    s = a_s0;
    ok = ok8 = 0;
  } else if (scene == V_S_ZERO) {
    for (i = 1; i <= (int)ec->h; i *= 2)
      a_equate(a_sneg(a_times(0, a_smul(e, a), i)), a_times(0, k, i));

    s = a_s0;
  }

  put_sc(&ec->sc, sig + n, s);

  if (is_448(ec))
    sig[n + m] = scene == V_PAD ? 0x80 : 0;
  else if (scene == V_PAD)
    return;

  if (scene == V_PAD)
    ok = ok8 = 0;

  if (scene == V_S_RANGE) {
    a_bad(sig + n, ec->sc.size, 'S');
    ok = ok8 = 0;
  }

  if (scene == V_OTHER_MSG) {
    __tv_vars(other + mlen - 1, 1, 0, 255);
    mp = other;
    ok = ok8 = 0;
  } else if (scene == V_OTHER_CTX) {
    if (clen == 0)
      return;

    __tv_vars(octx + (clen > 255 ? 255 : clen) - 1, 1, 0, 255);
    cp = octx;
    ok = ok8 = 0;
  } else if (scene == V_OTHER_PH) {
    ph2 = ph == 1 ? 0 : 1;
    ok = ok8 = 0;
  }

  __tv_phase(v_names[scene]);
  v = eddsa_verify(ec, mp, mlen, sig, pub, ph2, cp, clen);
  A(v == ok, "verification holds exactly when R = s G - e A");

  v = eddsa_verify_single(ec, mp, mlen, sig, pub, ph2, cp, clen);
  A(v == ok8, "cofactor verification holds exactly when h R = h (s G - e A)");
}

/* ---- batches ---- */

#define B_MAX 3

static unsigned char b_msg[B_MAX][8], b_sig[B_MAX][114], b_pub[B_MAX][57];
static size_t b_size;
static int b_n, b_watch;

static void
watch(const mp_limb_t *z, size_t n) {
  int i;

  for (i = 0; i < b_n; i++) {
    __tv_depends(z, n, b_msg[i], sizeof(b_msg[i]), "a batch coefficient depends on every message");
    __tv_depends(z, n, b_sig[i], 2 * b_size, "a batch coefficient depends on every signature");
    __tv_depends(z, n, b_pub[i], b_size, "a batch coefficient depends on every public key");
  }
}

void
__tvc_sc_random(SC, sc_t z, drbg_t *rng) {
  sc_random(sc, z, rng);

  if (alg_on && b_watch)
    watch(z, sc->limbs * sizeof(mp_limb_t));
}

static void
batch(EDW, unsigned choices, int n, size_t room, int spoil, int ph, size_t clen) {
  const unsigned char *msgs[B_MAX], *sigs[B_MAX], *pubs[B_MAX];
  size_t mlens[B_MAX], adj = ec->fe.adj_size, m = ec->fe.size;
  int rp[B_MAX], ap[B_MAX], s[B_MAX], e[B_MAX], c[B_MAX], done[B_MAX];
  edwards__scratch_t *scratch = edwards_scratch_create(ec, room);
  unsigned char hb[1], tmp[64];
  int i, j, sum, rounds, ret = 0, h;

  a_edw_start(ec, choices);
  hb[0] = ec->h;
  h = __tv_rnum(a_sr, hb, 1);
  b_n = n;
  b_size = adj;
  b_watch = 1;
  __tv_vars(ctx, sizeof(ctx), 0, 255);

  for (i = 0; i < n; i++) {
    msgs[i] = b_msg[i]; mlens[i] = sizeof(b_msg[i]);
    sigs[i] = b_sig[i]; pubs[i] = b_pub[i];
    done[i] = 0;

    __tv_vars(b_msg[i], sizeof(b_msg[i]), 0, 255);
    rp[i] = a_pt_sym(0, 0);
    ap[i] = a_pt_sym(0, 0);
    put_pt(ec, b_sig[i], i == 1 ? a_pt_add(rp[i], a_pt_small()) : rp[i]);
    put_pt(ec, b_pub[i], i == 0 ? a_pt_add(ap[i], a_pt_small()) : ap[i]);
    s[i] = new_sc(&ec->sc, b_sig[i] + adj);

    if (is_448(ec))
      b_sig[i][adj + m] = 0;

    h_dom(ec, ph, clen);
    hash_update(&H, b_sig[i], adj);
    hash_update(&H, b_pub[i], adj);
    hash_update(&H, b_msg[i], sizeof(b_msg[i]));
    e[i] = h_scalar(ec);
  }

  if (spoil == 1) {
    a_bad(b_sig[n - 1] + adj, ec->sc.size, 'S');
  } else if (spoil == 2 || spoil == 3) {
    memcpy(tmp, spoil == 2 ? b_sig[n - 1] : b_pub[n - 1], m);

    if (!is_448(ec))
      tmp[m - 1] &= 0x7f;

    a_bad(tmp, m, 'F');
  } else if (spoil == 4) {
    __tv_vars(b_sig[n - 1], m, 0, 255);
  } else if (spoil == 5) {
    __tv_vars(b_pub[n - 1], m, 0, 255);
  } else if (spoil == 6) {
    if (!is_448(ec))
      goto done;

    b_sig[n - 1][adj + m] = 1;
  }

  /* each failing sum is what it should be; make it vanish and go on */
  for (rounds = 0; rounds <= n; rounds++) {
    a_last = -1;

    ret = eddsa_verify_batch(ec, msgs, mlens, sigs, pubs, n, ph, ctx, clen, scratch);

    if (ret || a_last <= 0)
      break;

    sum = 0;

    for (i = 0; i < n; i++) {
      int sym = a_pts[rp[i]].sym[0];

      c[i] = a_s0;

      for (j = 0; j < a_pts[a_last].n; j++)
        if (a_pts[a_last].sym[j] == sym)
          c[i] = a_smul(a_pts[a_last].coef[j], a_sinv(h));

      if (c[i] == a_s0)
        continue;

      A(!done[i], "every signature is checked once");
      done[i] = 1;

      for (j = 0; j < i; j++)
        A(c[j] == a_s0 || (c[i] != c[j] && c[i] != a_sneg(c[j])), "coefficients of a batch are independent");

      for (j = 0; j < n; j++)
        A(c[i] != s[j] && c[i] != e[j] && c[i] != a_sneg(s[j]) && c[i] != a_sneg(e[j]), "coefficients of a batch are independent");

      sum = a_pt_add(sum, a_pt_mul(a_smul(h, c[i]), rp[i]));
      sum = a_pt_add(sum, a_pt_mul(a_smul(h, a_smul(c[i], e[i])), ap[i]));
      sum = a_pt_sub(sum, a_pt_mul(a_smul(h, a_smul(c[i], s[i])), 1));
    }

    A(sum == a_last, "a batch sums the verification equations");
    a_pt_equate(sum, 0);
  }

  if (spoil && n > 0) {
    A(ret == 0, "a malformed entry spoils a batch");
  } else {
    A(ret == 1, "a batch of satisfied equations is accepted");

    for (i = 0; i < n; i++)
      A(done[i], "every signature is checked");
  }

done:
  alg_on = 0;
  b_watch = 0;
  edwards_scratch_destroy(ec, scratch);
}

/* ---- keys ---- */

/* small: 0 no part of small order, 1 with one, 2 nothing else */
static void
keys(EDW, unsigned choices, int small) {
  size_t n = ec->fe.adj_size, m = ec->fe.size;
  const unsigned char *pubs[3];
  unsigned char h[128], x[64], y[64];
  int a, t, p, q, T, i, r;

#define FRESH a_edw_start(ec, choices); a = new_sc(&ec->sc, priv); t = new_sc(&ec->sc, tweak); p = a_pt_sym(0, 0); q = a_pt_sym(0, 0); \
  T = a_pt_small(); if (small == 1) p = a_pt_add(p, T); if (small == 2) p = T; \
  put_pt(ec, pub, p); put_pt(ec, pub2, q)

  P(100); FRESH;
  eddsa_pubkey_from_scalar(ec, out, priv);
  is_pt(ec, out, a_pt_mul(a, 1), "the public key is a G");

  P(101); FRESH;
  A(eddsa_pubkey_tweak_add(ec, out, pub, tweak), "a tweak is added");
  is_pt(ec, out, a_pt_add(p, a_pt_mul(t, 1)), "a tweak is added");

  P(102); FRESH;
  A(eddsa_pubkey_tweak_mul(ec, out, pub, tweak), "a key is multiplied");
  is_pt(ec, out, a_pt_mul(t, p), "a key is multiplied");

  P(103); FRESH; /* also by a number that is not reduced */
  a_bad(tweak, ec->sc.size, 'S');
  A(eddsa_pubkey_tweak_mul(ec, out, pub, tweak), "a key is multiplied");
  is_pt(ec, out, a_pt_comb2(t, a_tau_of(a_raw(&ec->sc, tweak)), p, a_s1, a_t1, 0), "a key is multiplied");

  P(104); FRESH;
  A(eddsa_pubkey_add(ec, out, pub, pub2), "keys are added");
  is_pt(ec, out, a_pt_add(p, q), "keys are added");
  A(eddsa_pubkey_add(ec, out, pub, pub), "a key is doubled");
  is_pt(ec, out, a_pt_add(p, p), "a key is doubled");
  A(eddsa_pubkey_negate(ec, out, pub), "a key is negated");
  is_pt(ec, out, a_pt_neg(p), "a key is negated");
  memcpy(x, out, n);
  A(eddsa_pubkey_add(ec, out, pub, x), "opposite keys are added");
  is_pt(ec, out, 0, "opposite keys are added");
  A(eddsa_pubkey_is_infinity(ec, out), "this is the identity");
  A(!eddsa_pubkey_is_infinity(ec, pub), "this is not the identity");

  P(105); FRESH;
  pubs[0] = pub; pubs[1] = pub2; pubs[2] = pub;
  for (i = 0; i <= 3; i++) {
    A(eddsa_pubkey_combine(ec, out, pubs, i), "keys are combined");
    r = i == 0 ? 0 : i == 1 ? p : i == 2 ? a_pt_add(p, q) : a_pt_add(a_pt_add(p, q), p);
    is_pt(ec, out, r, "keys are combined");
  }

  P(106); FRESH;
  A(eddsa_pubkey_verify(ec, pub), "a point is a key");
  A(eddsa_pubkey_is_small(ec, pub) == (small == 2), "small means of small order");
  A(eddsa_pubkey_has_torsion(ec, pub) == (small != 0), "torsion means not of prime order");
  put_pt(ec, out, 0);
  A(eddsa_pubkey_verify(ec, out), "the identity is a key");
  A(!eddsa_pubkey_is_small(ec, out), "the identity is not small");
  A(!eddsa_pubkey_has_torsion(ec, out), "the identity has no torsion");
  out[n - 1] |= 0x80;
  A(!eddsa_pubkey_verify(ec, out), "a zero coordinate has no sign");

  P(107); FRESH;
  A(eddsa_pubkey_export(ec, x, y, pub), "a key is exported");
  is_fe(&ec->fe, x, a_pts[p].x, "coordinates are exported");
  is_fe(&ec->fe, y, a_pts[p].y, "coordinates are exported");
  A(eddsa_pubkey_import(ec, out, x, m, y, m, -1), "coordinates are imported");
  is_pt(ec, out, p, "coordinates are imported");
  i = a_odd(a_pts[p].x);
  A(eddsa_pubkey_import(ec, out, NULL, 0, y, m, i), "y is imported");
  is_pt(ec, out, p, "y is imported");
  A(eddsa_pubkey_import(ec, out, NULL, 0, y, m, !i), "y is imported");
  is_pt(ec, out, a_pt_neg(p), "y is imported");
  i = a_odd(a_pts[p].y);
  A(eddsa_pubkey_import(ec, out, x, m, NULL, 0, i), "x is imported");
  is_pt(ec, out, p, "x is imported");
  A(eddsa_pubkey_import(ec, out, x, m, NULL, 0, !i), "x is imported");
  put_fe(&ec->fe, want, a_fneg(a_pts[p].y));
  i = a_odd(a_pts[p].x) * 0x80;
  if (is_448(ec))
    want[m] = i;
  else
    want[m - 1] |= i;
  __tv_same(out, want, n, "x is imported");
  A(!eddsa_pubkey_import(ec, out, NULL, 0, NULL, 0, 0), "nothing is refused");
  put_fe(&ec->fe, y, a_pts[q].y);
  A(!eddsa_pubkey_import(ec, out, x, m, y, m, -1), "coordinates off the curve are refused");

  P(108); FRESH; /* scalars */
  eddsa_scalar_tweak_add(ec, out, priv, tweak);
  is_sc(&ec->sc, out, a_sadd(a, t), "scalars are added");
  eddsa_scalar_tweak_mul(ec, out, priv, tweak);
  is_sc(&ec->sc, out, a_smul(a, t), "scalars are multiplied");
  eddsa_scalar_negate(ec, out, priv);
  is_sc(&ec->sc, out, a_sneg(a), "a scalar is negated");
  eddsa_scalar_invert(ec, out, priv);
  is_sc(&ec->sc, out, a_sinv(a), "a scalar is inverted");
  eddsa_scalar_reduce(ec, out, priv);
  is_sc(&ec->sc, out, a, "a scalar is reduced");
  A(!eddsa_scalar_is_zero(ec, priv), "this is not zero");
  a_bad(priv, ec->sc.size, 'S');
  *a_named('s', __tv_id(priv, ec->sc.size)) = a_s0;
  A(eddsa_scalar_is_zero(ec, priv), "this is zero");

  P(109); FRESH; /* key agreement */
  __tv_vars(priv, n, 0, 255);
  h_start(ec);
  hash_update(&H, priv, n);
  hash_final(&H, h, 2 * n);
  clamp(ec->fe.bits, ec->h, h, ec->sc.size);
  a = sc_of(ec, h);
  r = eddsa_derive(ec, out, pub, priv);
  if (small == 2) {
    R(r, "a key of small order is refused");
  } else {
    A(r, "a secret is derived");
    is_pt(ec, out, a_pt_comb2(a, a_t0, p, a_s1, a_t1, 0), "the secret is a P");
  }
  __tv_vars(priv, ec->sc.size, 0, 255);
  memcpy(h, priv, ec->sc.size);
  clamp(ec->fe.bits, ec->h, h, ec->sc.size);
  eddsa_scalar_clamp(ec, out, priv);
  __tv_same(out, h, ec->sc.size, "a scalar is clamped");
  a = sc_of(ec, h);
  r = eddsa_derive_with_scalar(ec, out, pub, priv);
  if (small == 2) {
    R(r, "a key of small order is refused");
  } else {
    A(r, "a secret is derived");
    is_pt(ec, out, a_pt_comb2(a, a_t0, p, a_s1, a_t1, 0), "the secret is a P");
  }

  /* no key at all */
  for (i = 0; i < 3; i++) {
    P(110 + i); FRESH;

    if (i == 0) {
      __tv_vars(pub, m, 0, 255);
    } else if (i == 1) {
      memcpy(x, pub, m);

      if (!is_448(ec))
        x[m - 1] &= 0x7f;

      a_bad(x, m, 'F');
    } else {
      if (!is_448(ec))
        break;

      pub[m] |= 0x04;
    }

    R(eddsa_pubkey_verify(ec, pub), "not a key");
    R(eddsa_pubkey_export(ec, x, y, pub), "not a key");
    R(eddsa_pubkey_is_small(ec, pub), "not a key");
    R(eddsa_pubkey_has_torsion(ec, pub), "not a key");
    R(eddsa_pubkey_tweak_add(ec, out, pub, tweak), "not a key");
    R(eddsa_pubkey_tweak_mul(ec, out, pub, tweak), "not a key");
    R(eddsa_pubkey_add(ec, out, pub, pub2), "not a key");
    R(eddsa_pubkey_add(ec, out, pub2, pub), "not a key");
    R(eddsa_pubkey_negate(ec, out, pub), "not a key");
    pubs[0] = pub2; pubs[1] = pub;
    R(eddsa_pubkey_combine(ec, out, pubs, 2), "not a key");
    pubs[0] = pub; pubs[1] = pub2;
    R(eddsa_pubkey_combine(ec, out, pubs, 2), "not a key");
    R(eddsa_derive_with_scalar(ec, out, pub, priv), "not a key");
  }
#undef FRESH
}

/* ---- Ristretto ---- */

static void
put_el(EDW, unsigned char *raw, int p) {
  xge_t t;

  a_xge_put(ec, &t, p, __tv_rvar(a_fr));
  rge_export(ec, raw, &t);
}

static void
is_el(EDW, const unsigned char *raw, int p, const char *what) {
  put_el(ec, want, p);
  __tv_same(raw, want, ec->fe.size, what);
}

static int g_left;

static int
g_check(const unsigned char *p, void *arg) {
  return g_left-- == 0;
}

static void
ristretto(EDW, unsigned choices) {
  const unsigned char *pubs[3];
  size_t n = ec->fe.size, sn = ec->sc.size;
  unsigned char wide[128], inf[64];
  int a, t, p, q, i, r;
  sc_t z;

#define FRESH a_edw_start(ec, choices); a = new_sc(&ec->sc, priv); t = new_sc(&ec->sc, tweak); p = a_pt_sym(0, 0); q = a_pt_sym(0, 0); \
  put_el(ec, pub, p); put_el(ec, pub2, q); put_el(ec, inf, 0)

  P(200); FRESH;
  A(ristretto_pubkey_create(ec, out, priv), "a key is created");
  is_el(ec, out, a_pt_mul(a, 1), "the public key is a G");
  A(ristretto_pubkey_verify(ec, pub), "an element is a key");
  A(ristretto_pubkey_is_infinity(ec, inf), "this is the identity");
  A(!ristretto_pubkey_is_infinity(ec, pub), "this is not the identity");

  P(201); FRESH;
  A(ristretto_pubkey_tweak_add(ec, out, pub, tweak), "a tweak is added");
  is_el(ec, out, a_pt_add(p, a_pt_mul(t, 1)), "a tweak is added");
  A(ristretto_pubkey_tweak_mul(ec, out, pub, tweak), "a key is multiplied");
  is_el(ec, out, a_pt_mul(t, p), "a key is multiplied");
  memset(wide, 0, sn);
  R(ristretto_pubkey_tweak_mul(ec, out, pub, wide), "a product that vanishes is refused");
  R(ristretto_pubkey_tweak_mul(ec, out, inf, tweak), "a product that vanishes is refused");
  A(ristretto_pubkey_add(ec, out, pub, pub2), "keys are added");
  is_el(ec, out, a_pt_add(p, q), "keys are added");
  A(ristretto_pubkey_negate(ec, out, pub), "a key is negated");
  is_el(ec, out, a_pt_neg(p), "a key is negated");
  pubs[0] = pub; pubs[1] = pub2; pubs[2] = pub;
  for (i = 0; i <= 3; i++) {
    A(ristretto_pubkey_combine(ec, out, pubs, i), "keys are combined");
    r = i == 0 ? 0 : i == 1 ? p : i == 2 ? a_pt_add(p, q) : a_pt_add(a_pt_add(p, q), p);
    is_el(ec, out, r, "keys are combined");
  }

  P(202); FRESH;
  A(ristretto_privkey_tweak_add(ec, out, priv, tweak), "scalars are added");
  is_sc(&ec->sc, out, a_sadd(a, t), "scalars are added");
  A(ristretto_privkey_tweak_mul(ec, out, priv, tweak), "scalars are multiplied");
  is_sc(&ec->sc, out, a_smul(a, t), "scalars are multiplied");
  memset(wide, 0, sn);
  R(ristretto_privkey_tweak_mul(ec, out, priv, wide), "a product that vanishes is refused");
  R(ristretto_privkey_tweak_mul(ec, out, wide, priv), "a product that vanishes is refused");
  A(ristretto_privkey_is_zero(ec, wide), "this is zero");
  A(!ristretto_privkey_is_zero(ec, priv), "this is not zero");
  A(ristretto_privkey_negate(ec, out, priv), "a scalar is negated");
  is_sc(&ec->sc, out, a_sneg(a), "a scalar is negated");
  A(ristretto_privkey_invert(ec, out, priv), "a scalar is inverted");
  is_sc(&ec->sc, out, a_sinv(a), "a scalar is inverted");
  A(ristretto_privkey_verify(ec, priv), "a scalar is a key");
  A(ristretto_privkey_export(ec, out, priv), "a scalar is exported");
  is_sc(&ec->sc, out, a, "a scalar is exported");
  A(ristretto_privkey_import(ec, out, priv, sn), "a scalar is imported");
  is_sc(&ec->sc, out, a, "a scalar is imported");
  __tv_vars(wide, 2 * sn, 0, 255);
  sc_import_wide(&ec->sc, z, wide, 2 * sn);
  ristretto_privkey_from_uniform(ec, out, wide);
  is_sc(&ec->sc, out, a_sc(&ec->sc, z), "bytes are reduced");

  P(203); FRESH;
  A(ristretto_derive(ec, out, pub, priv), "a secret is derived");
  is_el(ec, out, a_pt_mul(a, p), "the secret is a P");

  for (i = 0; i < 3; i++) {
    P(204); FRESH;
    g_left = i;
    A(ristretto_pubkey_grind(ec, out, pub, g_check, NULL), "a tweak is found");
    wide[0] = i + 1;
    sc_import_reduce(&ec->sc, z, out);
    A(a_sc(&ec->sc, z) == __tv_rnum(a_sr, wide, 1), "the tweak leads to the accepted key");
  }

  P(210); FRESH;
  a_bad(priv, sn, 'S');
  R(ristretto_privkey_verify(ec, priv), "out of range");
  R(ristretto_privkey_export(ec, out, priv), "out of range");
  R(ristretto_privkey_import(ec, out, priv, sn), "out of range");
  R(ristretto_privkey_tweak_add(ec, out, priv, tweak), "out of range");
  R(ristretto_privkey_tweak_add(ec, out, tweak, priv), "out of range");
  R(ristretto_privkey_tweak_mul(ec, out, priv, tweak), "out of range");
  R(ristretto_privkey_tweak_mul(ec, out, tweak, priv), "out of range");
  R(ristretto_privkey_negate(ec, out, priv), "out of range");
  R(ristretto_privkey_invert(ec, out, priv), "out of range");
  R(ristretto_pubkey_create(ec, out, priv), "out of range");
  R(ristretto_pubkey_tweak_add(ec, out, pub, priv), "out of range");
  R(ristretto_pubkey_tweak_mul(ec, out, pub, priv), "out of range");
  R(ristretto_derive(ec, out, pub, priv), "out of range");

  P(211); FRESH;
  __tv_vars(pub, n, 0, 255);
  R(ristretto_pubkey_verify(ec, pub), "not an element");
  R(ristretto_pubkey_tweak_add(ec, out, pub, tweak), "not an element");
  R(ristretto_pubkey_tweak_mul(ec, out, pub, tweak), "not an element");
  R(ristretto_pubkey_add(ec, out, pub, pub2), "not an element");
  R(ristretto_pubkey_add(ec, out, pub2, pub), "not an element");
  R(ristretto_pubkey_negate(ec, out, pub), "not an element");
  R(ristretto_derive(ec, out, pub, priv), "not an element");
  R(ristretto_pubkey_grind(ec, out, pub, g_check, NULL), "not an element");
  pubs[0] = pub2; pubs[1] = pub;
  R(ristretto_pubkey_combine(ec, out, pubs, 2), "not an element");
  pubs[0] = pub; pubs[1] = pub2;
  R(ristretto_pubkey_combine(ec, out, pubs, 2), "not an element");
#undef FRESH
}

/* ---- Montgomery ---- */

static void
agreement(MON, unsigned choices, int small) {
  size_t n = ec->fe.size, sn = ec->sc.size;
  unsigned char c[64];
  int a, b, p, T, r;

#define FRESH a_mont_start(ec, choices); p = a_pt_sym(0, 0); T = a_pt_small(); \
  if (small == 1) p = a_pt_add(p, T); if (small == 2) p = T; \
  put_fe(&ec->fe, pub, a_pts[p].x); \
  __tv_vars(priv, sn, 0, 255); memcpy(c, priv, sn); clamp(ec->fe.bits, ec->h, c, sn); a = a_raw(&ec->sc, c); a = a_find('L', a)

  P(300); FRESH;
  ecdh_pubkey_create(ec, out, priv);
  r = a_pt_mul(a, 1);
  is_fe(&ec->fe, out, a_pts[r].x, "the public key is a G");

  P(301); FRESH;
  r = ecdh_derive(ec, out, pub, priv);

  if (small == 2) {
    R(r, "a key of small order is refused");
  } else {
    A(r, "a secret is derived");
    r = a_pt_comb2(a, a_t0, p, a_s1, a_t1, 0);
    is_fe(&ec->fe, out, a_pts[r].x, "the secret is a P");
  }

  P(302); FRESH;
  A(ecdh_pubkey_verify(ec, pub), "a coordinate of a point is a key");
  A(ecdh_pubkey_is_small(ec, pub) == (small == 2), "small means of small order");
  A(ecdh_pubkey_has_torsion(ec, pub) == (small != 0), "torsion means not of prime order");

  P(303); FRESH;
  b = __tv_rvar(a_fr);
  a_attr_set('q', __tv_rop('s', a_mont_rhs(b), 0), 0);
  put_fe(&ec->fe, pub, b);
  R(ecdh_pubkey_verify(ec, pub), "not a key");
  R(ecdh_pubkey_is_small(ec, pub), "not a key");
  R(ecdh_pubkey_has_torsion(ec, pub), "not a key");
#undef FRESH
}

/* ---- entries ---- */

static edwards_t *
curve(int id) {
  edwards_t *ec;

  alg_on = 0;
  ec = edwards_curve_create((edwards_curve_id_t)id);

  if (ec == NULL)
    for (;;) {}

  return ec;
}

static void
run_sign(int id) {
  edwards_t *ec = curve(id);
  int ph;

  for (ph = -1; ph <= 1; ph++) {
    signing(ec, 0, 5, ph, 0);
    signing(ec, 0x155, 32, ph, 3);
  }

  signing(ec, 0xffff, 0, -1, 255);
  signing(ec, 0x5a5a, 9, 0, 300);
}

static void
run_verify(int id) {
  edwards_t *ec = curve(id);
  int s, c;

  for (s = 0; s < V_COUNT; s++)
    for (c = 0; c < 8; c++)
      verifying(ec, c * 0x49, s, 8, c % 3 - 1, c == 1 ? 255 : c == 5 ? 300 : c & 4 ? 3 : 0);
}

static void
run_keys(int id) {
  edwards_t *ec = curve(id);
  int c, small;

  for (small = 0; small < 3; small++)
    for (c = 0; c < 16; c++)
      keys(ec, c * 0x11111111u, small);
}

static void
run_batch(int id) {
  edwards_t *ec = curve(id);
  int n, spoil;

  for (n = 0; n <= 3; n++) {
    batch(ec, 0x1b, n, 2, 0, -1, 0);
    batch(ec, 0x2c, n, 5, 0, 0, 3);
    batch(ec, 0x35, n, 64, 0, 1, 0);
  }

  for (n = 1; n <= 3; n++)
    for (spoil = 1; spoil <= 6; spoil++)
      batch(ec, 0x4a, n, n == 2 ? 2 : 64, spoil, -1, 0);
}

static void
run_ristretto(int id) {
  edwards_t *ec = curve(id);
  int c;

  for (c = 0; c < 4; c++)
    ristretto(ec, c * 5);
}

static void
run_agree(int id) {
  mont_t *ec;
  int c, small;

  alg_on = 0;
  ec = mont_curve_create((mont_curve_id_t)id);

  if (ec == NULL)
    for (;;) {}

  for (small = 0; small < 3; small++)
    for (c = 0; c < 8; c++)
      agreement(ec, c, small);
}

#define ED(name, id) \
void tv_edsign_##name(void) { run_sign(id); } \
void tv_edverify_##name(void) { run_verify(id); } \
void tv_edkeys_##name(void) { run_keys(id); } \
void tv_edbatch_##name(void) { run_batch(id); } \
void tv_ristretto_##name(void) { run_ristretto(id); }

ED(ed25519, EDWARDS_CURVE_ED25519)
ED(ed448, EDWARDS_CURVE_ED448)
ED(ed1174, EDWARDS_CURVE_ED1174)

void tv_agree_x25519(void) { run_agree(MONT_CURVE_X25519); }
void tv_agree_x448(void) { run_agree(MONT_CURVE_X448); }
