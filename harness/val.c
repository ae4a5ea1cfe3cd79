/* Which scalars and coordinates are accepted. Every byte string is in exactly
 * one class: equal to the bound, or equal up to some byte and smaller (larger)
 * there and arbitrary beyond. */
#include "tv.h"
#include "ecc.c"
#include "cls.h"

#define P(n) __tv_phase(n)

/* ---- scalars ---- */

static void
val_scalar(const scalar_field_t *sc) {
  unsigned char N[MAX_SCALAR_SIZE], H[MAX_SCALAR_SIZE], b[MAX_SCALAR_SIZE], w[MAX_SCALAR_SIZE * 2];
  size_t size = sc->size;
  int k, kind, e = sc->endian;
  sc_t z;

  P("scalar range");

  limbs_be(N, size, sc->n, sc->limbs);
  limbs_be(H, size, sc->nh, sc->limbs);

  for (kind = -1; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)size : 1); k++) {
      if (set_class(b, N, size, e, kind, k)) {
        int r = sc_import(sc, z, b);
        __tv_assert(r == (kind < 0), "scalar accepted exactly if below the order");

        /* zero extension on the most significant side is accepted, anything else is not */
        memset(w, 0, sizeof(w));
        memcpy(e == 1 ? w + 3 : w, b, size);
        r = sc_import_pad(sc, z, w, size + 3);
        __tv_assert(r == (kind < 0), "padded scalar accepted exactly if below the order");
        *(e == 1 ? w + 1 : w + size + 1) = (unsigned char)__tv_range(1, 255);
        r = sc_import_pad(sc, z, w, size + 3);
        __tv_assert(r == 0, "too long scalar rejected");
      }

      if (set_class(b, H, size, e, kind, k)) {
        sc_import_raw(sc, z, b);
        __tv_assert(sc_is_high(sc, z) == (kind > 0), "high exactly if above half the order");
        __tv_assert(sc_is_high_var(sc, z) == (kind > 0), "high exactly if above half the order");
      }
    }
  }

  memset(b, 0, size);
  __tv_assert(sc_import(sc, z, b) == 1, "zero is a scalar");
  __tv_assert(sc_is_zero(sc, z) == 1, "zero is zero");
}

/* ---- coordinates ---- */

static void
val_field(const prime_field_t *fe) {
  unsigned char N[MAX_FIELD_SIZE], b[MAX_FIELD_SIZE], w[MAX_FIELD_SIZE * 2];
  size_t size = fe->size;
  int k, kind, e = fe->endian;
  fe_t z;

  P("coordinate range");

  limbs_be(N, size, fe->p, fe->limbs);

  for (kind = -1; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)size : 1); k++) {
      if (!set_class(b, N, size, e, kind, k))
        continue;

      __tv_assert(fe_import(fe, z, b) == (kind < 0), "coordinate accepted exactly if below the prime");

      memset(w, 0, sizeof(w));
      memcpy(e == 1 ? w + 3 : w, b, size);
      __tv_assert(fe_import_pad(fe, z, w, size + 3) == (kind < 0), "padded coordinate accepted exactly if below the prime");
      *(e == 1 ? w + 1 : w + size + 1) = (unsigned char)__tv_range(1, 255);
      __tv_assert(fe_import_pad(fe, z, w, size + 3) == 0, "too long coordinate rejected");
    }
  }
}

/* ---- public operations ---- */

static void
val_wei(int type) {
  wei_t *ec = wei_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  const prime_field_t *fe = &ec->fe;
  unsigned char N[MAX_SCALAR_SIZE], H[MAX_SCALAR_SIZE], Q[MAX_FIELD_SIZE];
  unsigned char priv[MAX_SCALAR_SIZE], tweak[MAX_SCALAR_SIZE], sig[MAX_SCALAR_SIZE * 2 + MAX_FIELD_SIZE];
  unsigned char out[MAX_FIELD_SIZE * 2 + 1], pub[MAX_FIELD_SIZE * 2 + 2], msg[32];
  size_t len, plen;
  int k, kind, i;

  val_scalar(sc);
  val_field(fe);

  limbs_be(N, sc->size, sc->n, sc->limbs);
  limbs_be(H, sc->size, sc->nh, sc->limbs);
  limbs_be(Q, fe->size, fe->p, fe->limbs);
  __tv_unknown(msg, 32);

  P("private key range");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
      if (!set_class(priv, N, sc->size, 1, kind, k))
        continue;
      __tv_assert(ecdsa_privkey_verify(ec, priv) == 0, "key not below the order rejected");
      __tv_assert(ecdsa_privkey_export(ec, out, priv) == 0, "key not below the order rejected");
      __tv_assert(ecdsa_privkey_import(ec, out, priv, sc->size) == 0, "key not below the order rejected");
      __tv_assert(ecdsa_privkey_negate(ec, out, priv) == 0, "key not below the order rejected");
      __tv_unknown(tweak, sc->size);
      __tv_assert(ecdsa_privkey_tweak_add(ec, out, priv, tweak) == 0, "key not below the order rejected");
      __tv_assert(ecdsa_privkey_tweak_add(ec, out, tweak, priv) == 0, "tweak not below the order rejected");
      __tv_assert(ecdsa_privkey_tweak_mul(ec, out, priv, tweak) == 0, "key not below the order rejected");
      __tv_assert(ecdsa_privkey_tweak_mul(ec, out, tweak, priv) == 0, "tweak not below the order rejected");
    }
  }

  memset(priv, 0, sc->size);
  __tv_assert(ecdsa_privkey_verify(ec, priv) == 0, "zero key rejected");
  __tv_assert(ecdsa_privkey_export(ec, out, priv) == 0, "zero key rejected");
  __tv_assert(ecdsa_privkey_import(ec, out, priv, sc->size) == 0, "zero key rejected");
  __tv_assert(ecdsa_privkey_import(ec, out, priv, 0) == 0, "empty key rejected");
  __tv_assert(ecdsa_privkey_negate(ec, out, priv) == 0, "zero key rejected");
  __tv_unknown(tweak, sc->size);
  __tv_assert(ecdsa_privkey_tweak_add(ec, out, priv, tweak) == 0, "zero key rejected");
  __tv_assert(ecdsa_privkey_tweak_mul(ec, out, priv, tweak) == 0, "zero key rejected");

  P("signature range");

  __tv_unknown(pub, sizeof(pub));

  for (i = 0; i < 2; i++) {
    for (kind = -1; kind <= 1; kind++) {
      for (k = 0; k < (kind >= 0 ? (int)sc->size : 1); k++) {
        __tv_unknown(sig, sizeof(sig));
        plen = fe->size + 1;
        if (kind < 0)
          memset(sig + i * sc->size, 0, sc->size); /* zero */
        else if (!set_class(sig + i * sc->size, N, sc->size, 1, kind, k))
          continue;
        __tv_assert(ecdsa_verify(ec, msg, 32, sig, pub, plen) == 0, "signature out of range rejected");
        __tv_assert(ecdsa_recover(ec, out, &len, msg, 32, sig, 0, 1) == 0, "signature out of range rejected");
        if (kind >= 0) {
          __tv_assert(ecdsa_sig_export(ec, out, &len, sig) == 0, "signature out of range rejected");
          __tv_assert(ecdsa_sig_normalize(ec, out, sig) == 0, "signature out of range rejected");
          __tv_assert(ecdsa_is_low_s(ec, sig) == 0, "signature out of range rejected");
        }
      }
    }
  }

  P("low s");

  for (kind = -1; kind <= 2; kind++) {
    for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
      memset(sig, 0, sc->size);
      sig[sc->size - 1] = 1;
      if (kind == 2 ? !set_below_top(sig + sc->size, N, H, sc->size, k)
                    : !set_class(sig + sc->size, H, sc->size, 1, kind, k))
        continue;
      if (kind == 1 && k == 0)
        continue; /* split by the order: the classes of kind 2 */
      if (kind <= 0) {
        __tv_assert(ecdsa_is_low_s(ec, sig) == 1, "low s recognised");
      } else {
        __tv_assert(ecdsa_is_low_s(ec, sig) == 0, "high s recognised");
        __tv_assert(ecdsa_verify(ec, msg, 32, sig, pub, fe->size + 1) == 0, "high s rejected");
        __tv_assert(ecdsa_recover(ec, out, &len, msg, 32, sig, 0, 1) == 0, "high s rejected");
      }
    }
  }

  P("public key encoding");

  for (i = 0; i < 9; i++) {
    for (plen = 0; plen <= 2 * fe->size + 2; plen++) {
      int shape = (i == 2 || i == 3) ? plen == 1 + fe->size : (i == 4 || i == 6 || i == 7) ? plen == 1 + 2 * fe->size : 0;
      __tv_unknown(pub, sizeof(pub));
      pub[0] = i < 8 ? i : (unsigned char)__tv_range(8, 255);
      if (!shape)
        __tv_assert(ecdsa_pubkey_verify(ec, pub, plen) == 0, "malformed public key rejected");
    }
  }

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)fe->size : 1); k++) {
      static const int forms[5] = {2, 3, 4, 6, 7};
      for (i = 0; i < 5; i++) {
        plen = forms[i] < 4 ? fe->size + 1 : fe->size * 2 + 1;
        __tv_unknown(pub, sizeof(pub));
        pub[0] = forms[i];
        if (set_class(pub + 1, Q, fe->size, 1, kind, k))
          __tv_assert(ecdsa_pubkey_verify(ec, pub, plen) == 0, "x not below the prime rejected");
        if (forms[i] >= 4) {
          __tv_unknown(pub + 1, sizeof(pub) - 1);
          if (set_class(pub + 1 + fe->size, Q, fe->size, 1, kind, k))
            __tv_assert(ecdsa_pubkey_verify(ec, pub, plen) == 0, "y not below the prime rejected");
        }
      }
    }
  }

  if (bipschnorr_support(ec)) {
    P("schnorr signature range");

    for (kind = 0; kind <= 1; kind++) {
      for (k = 0; k < (int)sc->size; k++) {
        __tv_unknown(pub, sizeof(pub));
        __tv_unknown(sig, sizeof(sig));
        if (set_class(sig, Q, fe->size, 1, kind, k)) {
          __tv_assert(bipschnorr_verify(ec, msg, 32, sig, pub, fe->size + 1) == 0, "r not below the prime rejected");
          __tv_assert(bip340_verify(ec, msg, 32, sig, pub) == 0, "r not below the prime rejected");
        }
        __tv_unknown(sig, sizeof(sig));
        if (set_class(sig + fe->size, N, sc->size, 1, kind, k)) {
          __tv_assert(bipschnorr_verify(ec, msg, 32, sig, pub, fe->size + 1) == 0, "s not below the order rejected");
          __tv_assert(bip340_verify(ec, msg, 32, sig, pub) == 0, "s not below the order rejected");
        }
        __tv_unknown(sig, sizeof(sig));
        if (set_class(pub, Q, fe->size, 1, kind, k)) {
          __tv_assert(bip340_verify(ec, msg, 32, sig, pub) == 0, "public key not below the prime rejected");
          __tv_assert(bip340_pubkey_verify(ec, pub) == 0, "public key not below the prime rejected");
        }
        if (set_class(priv, N, sc->size, 1, kind, k))
          __tv_assert(bip340_privkey_verify(ec, priv) == 0, "key not below the order rejected");
      }
    }
    memset(priv, 0, sc->size);
    __tv_assert(bip340_privkey_verify(ec, priv) == 0, "zero key rejected");
  }
}

static void
val_edw(int type) {
  edwards_t *ec = edwards_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  const prime_field_t *fe = &ec->fe;
  unsigned char N[MAX_SCALAR_SIZE], Q[MAX_FIELD_SIZE], priv[MAX_SCALAR_SIZE], out[MAX_SCALAR_SIZE];
  unsigned char sig[MAX_FIELD_SIZE * 2 + 4], pub[MAX_FIELD_SIZE + 4], msg[32];
  int k, kind, i;

  val_scalar(sc);
  val_field(fe);

  limbs_be(N, sc->size, sc->n, sc->limbs);
  limbs_be(Q, fe->size, fe->p, fe->limbs);
  __tv_unknown(msg, 32);

  P("edwards encodings");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (int)fe->size; k++) {
      /* the top bit of the last byte is the sign, not part of the coordinate */
      for (i = 0; i < 2; i++) {
        __tv_unknown(sig, sizeof(sig));
        __tv_unknown(pub, sizeof(pub));
        if (!set_class(pub, Q, fe->size, -1, kind, k))
          continue;
        if ((fe->bits & 7) == 0) {
          pub[fe->size] = i << 7;
        } else {
          /* bits between the prime and the sign count */
          if (kind > 0 && k == 0) {
            if (fe->bits % 8 == 7)
              continue;
            pub[fe->size - 1] = (unsigned char)__tv_range(Q[0] + 1, 127);
          }
          pub[fe->size - 1] |= i << 7;
        }
        memcpy(sig, pub, fe->adj_size);
        __tv_assert(eddsa_pubkey_verify(ec, pub) == 0, "coordinate not below the prime rejected");
        __tv_unknown(pub, sizeof(pub));
        __tv_assert(eddsa_verify(ec, msg, 32, sig, pub, 0, NULL, 0) == 0, "R not below the prime rejected");
        __tv_assert(eddsa_verify_single(ec, msg, 32, sig, pub, 0, NULL, 0) == 0, "R not below the prime rejected");
      }
    }
  }

  if ((fe->bits & 7) == 0) {
    for (i = 0; i < 256; i++) {
      if ((i & 127) == 0)
        continue;
      __tv_unknown(pub, sizeof(pub));
      pub[fe->size] = i;
      __tv_assert(eddsa_pubkey_verify(ec, pub) == 0, "stray bits rejected");
    }
  }

  P("ristretto scalars");

  for (kind = -1; kind <= 1; kind++) {
    for (k = 0; k < (kind ? (int)sc->size : 1); k++) {
      if (!set_class(priv, N, sc->size, sc->endian, kind, k))
        continue;
      __tv_assert(ristretto_privkey_verify(ec, priv) == (kind < 0), "scalar accepted exactly if below the order");
      __tv_assert(ristretto_privkey_export(ec, out, priv) == (kind < 0), "scalar accepted exactly if below the order");
    }
  }
}

static void
val_eds(int type) {
  edwards_t *ec = edwards_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  const prime_field_t *fe = &ec->fe;
  unsigned char N[MAX_SCALAR_SIZE];
  unsigned char sig[MAX_FIELD_SIZE * 2 + 4], pub[MAX_FIELD_SIZE + 4], msg[32];
  int k, kind;

  limbs_be(N, sc->size, sc->n, sc->limbs);
  __tv_unknown(msg, 32);

  P("edwards signature scalar");

  for (kind = 0; kind <= 1; kind++) {
    for (k = 0; k < (int)sc->size; k++) {
      __tv_unknown(sig, sizeof(sig));
      __tv_unknown(pub, sizeof(pub));
      if (!set_class(sig + fe->adj_size, N, sc->size, -1, kind, k))
        continue;
      __tv_assert(eddsa_verify(ec, msg, 32, sig, pub, 0, NULL, 0) == 0, "s not below the order rejected");
      __tv_assert(eddsa_verify_single(ec, msg, 32, sig, pub, 0, NULL, 0) == 0, "s not below the order rejected");
    }
  }
}

static void
val_mont(int type) {
  mont_t *ec = mont_curve_create(type);
  val_scalar(&ec->sc);
  val_field(&ec->fe);
}

/* Zero and equality, with every bit an unknown. */
static void
zero_scalar(const scalar_field_t *sc) {
  unsigned char b[MAX_SCALAR_SIZE], c[MAX_SCALAR_SIZE];
  size_t size = sc->size;
  int k, j;
  sc_t z, y;

  P("zero scalar");

  for (k = 0; k < (int)size; k++) {
    /* byte k is the last nonzero one, and bit j its highest */
    for (j = 0; j < 8; j++) {
      memset(b, 0, size);
      __tv_vars(b, k + 1, 0, 255);
      b[k] = (1 << j) | (b[k] & ((1 << j) - 1));
      mpn_import(z, sc->limbs, b, size, -1);
      __tv_assert(sc_is_zero(sc, z) == 0, "nonzero scalar is not zero");

      /* c differs from a string of unknowns by b */
      __tv_vars(c, size, 0, 255);
      mpn_import(y, sc->limbs, c, size, -1);
      __tv_assert(sc_equal(sc, y, y) == 1, "equal scalars are equal");
      {
        mp_size_t i;
        sc_t w;
        for (i = 0; i < sc->limbs; i++)
          w[i] = y[i] ^ z[i];
        __tv_assert(sc_equal(sc, y, w) == 0, "different scalars are different");
      }
    }
  }

  memset(b, 0, size);
  mpn_import(z, sc->limbs, b, size, -1);
  __tv_assert(sc_is_zero(sc, z) == 1, "zero is zero");
}

static void
accept_wei(const wei_t *ec, const unsigned char *priv) {
  unsigned char out[MAX_SCALAR_SIZE];

  __tv_assert(ecdsa_privkey_verify(ec, priv) == 1, "key in range accepted");
  __tv_assert(ecdsa_privkey_export(ec, out, priv) == 1, "key in range accepted");
  __tv_assert(ecdsa_privkey_import(ec, out, priv, ec->sc.size) == 1, "key in range accepted");
  __tv_assert(ecdsa_privkey_negate(ec, out, priv) == 1, "key in range accepted");

  if (bipschnorr_support(ec))
    __tv_assert(bip340_privkey_verify(ec, priv) == 1, "key in range accepted");
}

static void
zero_wei(int type) {
  wei_t *ec = wei_curve_create(type);
  const scalar_field_t *sc = &ec->sc;
  unsigned char N[MAX_SCALAR_SIZE], priv[MAX_SCALAR_SIZE];
  int size = sc->size;
  int k, j;

  zero_scalar(sc);

  P("private keys in range");

  limbs_be(N, sc->size, sc->n, sc->limbs);

  /* byte k is the first nonzero one, and bit j its highest */
  for (k = 0; k < size; k++) {
    for (j = 0; j < 8; j++) {
      if (k == 0 && (2 << j) > N[0])
        break;
      memset(priv, 0, size);
      __tv_vars(priv + k, size - k, 0, 255);
      priv[k] = (1 << j) | (priv[k] & ((1 << j) - 1));
      accept_wei(ec, priv);
    }
  }

  /* the rest: below the order with its first bytes */
  for (k = 1; k < size; k++)
    if (set_class(priv, N, size, 1, -1, k))
      accept_wei(ec, priv);

  for (j = 0; j < 8 && (2 << j) <= N[0]; j++);

  if ((1 << j) < N[0]) {
    __tv_unknown(priv, size);
    priv[0] = (unsigned char)__tv_range(1 << j, N[0] - 1);
    accept_wei(ec, priv);
  }
}

static void
zero_edw(int type) { edwards_t *ec = edwards_curve_create(type); zero_scalar(&ec->sc); }
static void
zero_mont(int type) { mont_t *ec = mont_curve_create(type); zero_scalar(&ec->sc); }
#define Z(n, f, t) void tv_zero_##n(void) { f(t); }
Z(p192, zero_wei, WEI_CURVE_P192) Z(p224, zero_wei, WEI_CURVE_P224) Z(p256, zero_wei, WEI_CURVE_P256)
Z(p384, zero_wei, WEI_CURVE_P384) Z(p521, zero_wei, WEI_CURVE_P521) Z(secp256k1, zero_wei, WEI_CURVE_SECP256K1)
Z(x25519, zero_mont, MONT_CURVE_X25519) Z(x448, zero_mont, MONT_CURVE_X448)
Z(ed25519, zero_edw, EDWARDS_CURVE_ED25519) Z(ed448, zero_edw, EDWARDS_CURVE_ED448) Z(ed1174, zero_edw, EDWARDS_CURVE_ED1174)

void tv_val_p192(void) { val_wei(WEI_CURVE_P192); }
void tv_val_p224(void) { val_wei(WEI_CURVE_P224); }
void tv_val_p256(void) { val_wei(WEI_CURVE_P256); }
void tv_val_p384(void) { val_wei(WEI_CURVE_P384); }
void tv_val_p521(void) { val_wei(WEI_CURVE_P521); }
void tv_val_secp256k1(void) { val_wei(WEI_CURVE_SECP256K1); }
void tv_val_x25519(void) { val_mont(MONT_CURVE_X25519); }
void tv_val_x448(void) { val_mont(MONT_CURVE_X448); }
void tv_val_ed25519(void) { val_edw(EDWARDS_CURVE_ED25519); }
void tv_val_ed448(void) { val_edw(EDWARDS_CURVE_ED448); }
void tv_val_ed1174(void) { val_edw(EDWARDS_CURVE_ED1174); }
void tv_vals_ed25519(void) { val_eds(EDWARDS_CURVE_ED25519); }
void tv_vals_ed448(void) { val_eds(EDWARDS_CURVE_ED448); }
void tv_vals_ed1174(void) { val_eds(EDWARDS_CURVE_ED1174); }
