/* Entry points for the symmetric primitives: hashes, MACs, stream ciphers,
 * key derivation, deterministic generators and the byte-string helpers. */
#include "tv.h"
#include <torsion/hash.h>
#include <torsion/stream.h>
#include <torsion/mac.h>
#include <torsion/kdf.h>
#include <torsion/aead.h>
#include <torsion/ies.h>
#include <torsion/drbg.h>
#include <torsion/util.h>

#define P(n) __tv_phase(n)
#define OK(p, n, name) __tv_expect_init(p, n, name)

static unsigned char *
sec(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_secret(p, n);
  return p;
}

static unsigned char *
pubin(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_unknown(p, n);
  return p;
}

static void *
outb(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_uninit(p, n);
  return p;
}

/* ---- hashes ------------------------------------------------------------- */

static void
hash_run(hash_id_t type) {
  size_t bs = hash_block_size(type);
  size_t os = hash_output_size(type);
  size_t tot = 2 * bs + 9;
  size_t lens[9];
  size_t i, j;

  lens[0] = 0; lens[1] = 1; lens[2] = bs - 1; lens[3] = bs; lens[4] = bs + 1;
  lens[5] = 2 * bs; lens[6] = 2 * bs + 8; lens[7] = bs - 8; lens[8] = bs - 16;

  P("hash");
  __tv_assert(hash_has_backend(type) == 1 || bs == 0, "hash listed");
  __tv_assert(os <= HASH_MAX_OUTPUT_SIZE, "digest fits the maximum digest size");
  __tv_assert(bs <= HASH_MAX_BLOCK_SIZE, "block fits the maximum block size");

  for (i = 0; i < 9; i++) {
    for (j = 0; j <= 1; j++) {
      hash_t *h = outb(sizeof(hash_t));
      unsigned char *out = outb(os);
      size_t n = lens[i];
      unsigned char *msg;

      if (n > tot) continue;
      msg = sec(n);
      hash_init(h, type);
      if (j == 0) {
        hash_update(h, msg, n);
      } else {
        size_t a = n / 3;
        hash_update(h, msg, a);
        hash_update(h, msg + a, 0);
        hash_update(h, msg + a, n - a);
      }
      hash_final(h, out, os);
      OK(out, os, "hash_final");
    }
  }

  P("hmac");
  for (i = 0; i < 9; i++) {
    hmac_t *h = outb(sizeof(hmac_t));
    unsigned char *out = outb(os);
    hmac_init(h, type, sec(lens[i]), lens[i]);
    hmac_update(h, sec(9), 9);
    hmac_update(h, sec(bs), bs);
    hmac_final(h, out);
    OK(out, os, "hmac_final");
  }
}

#define H(n) void tv_hash_##n(void) { hash_run(HASH_##n); }
H(BLAKE2B_160) H(BLAKE2B_256) H(BLAKE2B_384) H(BLAKE2B_512)
H(BLAKE2S_128) H(BLAKE2S_160) H(BLAKE2S_224) H(BLAKE2S_256)
H(GOST94) H(HASH160) H(HASH256) H(KECCAK224) H(KECCAK256) H(KECCAK384)
H(KECCAK512) H(MD2) H(MD4) H(MD5) H(MD5SHA1) H(RIPEMD160) H(SHA1) H(SHA224)
H(SHA256) H(SHA384) H(SHA512) H(SHA3_224) H(SHA3_256) H(SHA3_384) H(SHA3_512)
H(SHAKE128) H(SHAKE256) H(WHIRLPOOL)

static void
blake_keyed(void) {
  size_t i;
  P("blake2_keyed");
  for (i = 1; i <= 64; i += 21) {
    blake2b_t *h = outb(sizeof(blake2b_t));
    unsigned char *out = outb(i);
    blake2b_init(h, i, sec(i), i);
    blake2b_update(h, sec(129), 129);
    blake2b_final(h, out);
    OK(out, i, "blake2b_final");
  }
  for (i = 1; i <= 32; i += 31) {
    blake2s_t *h = outb(sizeof(blake2s_t));
    unsigned char *out = outb(i);
    blake2s_init(h, i, sec(i), i);
    blake2s_update(h, sec(65), 65);
    blake2s_final(h, out);
    OK(out, i, "blake2s_final");
  }
}

static void
shake_long(void) {
  sha3_t *h = outb(sizeof(sha3_t));
  unsigned char *out = outb(200);
  P("shake_long");
  shake128_init(h);
  shake128_update(h, sec(200), 200);
  shake128_final(h, out, 200);
  OK(out, 200, "shake128_final");
  h = outb(sizeof(sha3_t));
  out = outb(199);
  shake256_init(h);
  shake256_update(h, sec(136), 136);
  shake256_final(h, out, 199);
  OK(out, 199, "shake256_final");
}

/* ---- stream ciphers, MACs, AEAD ----------------------------------------- */

static const size_t slens[8] = {0, 1, 15, 16, 17, 63, 64, 200};

static void
stream_run(void) {
  static const size_t nl[4] = {8, 12, 16, 24};
  static const size_t ksz[2] = {16, 32};
  size_t i, j, k;

  P("chacha20");
  for (i = 0; i < 4; i++) {
    if (nl[i] == 28) continue;
    for (k = 0; k < 2; k++) {
      chacha20_t *c = outb(sizeof(chacha20_t));
      chacha20_init(c, sec(ksz[k]), ksz[k], pubin(nl[i]), nl[i], 0xffffffff);
      for (j = 0; j < 8; j++) {
        unsigned char *o = outb(slens[j]);
        chacha20_crypt(c, o, sec(slens[j]), slens[j]);
        OK(o, slens[j], "chacha20_crypt");
      }
    }
  }
  {
    unsigned char *o = outb(32);
    chacha20_derive(o, sec(32), 32, pubin(16));
    OK(o, 32, "chacha20_derive");
    o = outb(32);
    chacha20_derive(o, sec(16), 16, pubin(16));
    OK(o, 32, "chacha20_derive");
  }

  P("salsa20");
  for (i = 0; i < 4; i++) {
    for (k = 0; k < 2; k++) {
      salsa20_t *c = outb(sizeof(salsa20_t));
      salsa20_init(c, sec(ksz[k]), ksz[k], pubin(nl[i]), nl[i], 0xffffffff);
      for (j = 0; j < 8; j++) {
        unsigned char *o = outb(slens[j]);
        salsa20_crypt(c, o, sec(slens[j]), slens[j]);
        OK(o, slens[j], "salsa20_crypt");
      }
    }
  }
  {
    unsigned char *o = outb(32);
    salsa20_derive(o, sec(32), 32, pubin(16));
    OK(o, 32, "salsa20_derive");
    o = outb(32);
    salsa20_derive(o, sec(16), 16, pubin(16));
    OK(o, 32, "salsa20_derive");
  }
}

static void
arc4_run(void) {
  arc4_t *c = outb(sizeof(arc4_t));
  unsigned char *o = outb(70);
  P("arc4");
  arc4_init(c, sec(16), 16);
  arc4_crypt(c, o, sec(70), 70);
  OK(o, 70, "arc4_crypt");
}

static void
mac_run(void) {
  size_t i, j;

  P("poly1305");
  for (i = 0; i < 8; i++) {
    for (j = 0; j < 3; j++) {
      poly1305_t *c = outb(sizeof(poly1305_t));
      unsigned char *o = outb(16);
      poly1305_init(c, sec(32));
      if (j == 1) { poly1305_update(c, sec(5), 5); }
      if (j == 2) { poly1305_update(c, sec(20), 20); poly1305_pad(c); }
      poly1305_update(c, sec(slens[i]), slens[i]);
      poly1305_final(c, o);
      OK(o, 16, "poly1305_final");
    }
  }

  P("siphash");
  for (i = 0; i < 17; i++) {
    uint64_t z = siphash_sum(sec(i), i, sec(16));
    z ^= siphash_mod(sec(i), i, sec(16), 1000003);
    (void)z;
  }
  siphash128_sum(*(uint64_t *)sec(8), sec(16));
  siphash256_sum(*(uint64_t *)sec(8), sec(32));
}

static void
aead_run(void) {
  static const size_t nl[4] = {8, 12, 16, 24};
  size_t i, j;

  P("chachapoly");
  for (i = 0; i < 4; i++) {
    for (j = 0; j < 3; j++) {
      chachapoly_t *c = outb(sizeof(chachapoly_t));
      unsigned char *o = outb(65), *p = outb(3), *tag = outb(16);
      chachapoly_init(c, sec(32), pubin(nl[i]), nl[i]);
      chachapoly_aad(c, pubin(13), 13);
      chachapoly_aad(c, pubin(0), 0);
      if (j == 0) {
        chachapoly_encrypt(c, o, sec(65), 65);
        chachapoly_encrypt(c, p, sec(3), 3);
        OK(o, 65, "chachapoly_encrypt");
        OK(p, 3, "chachapoly_encrypt");
      } else if (j == 1) {
        chachapoly_decrypt(c, o, sec(65), 65);
        chachapoly_decrypt(c, p, sec(3), 3);
        OK(o, 65, "chachapoly_decrypt");
        OK(p, 3, "chachapoly_decrypt");
      } else {
        chachapoly_auth(c, pubin(40), 40);
      }
      chachapoly_final(c, tag);
      OK(tag, 16, "chachapoly_final");
    }
  }

  P("secretbox");
  for (i = 0; i < 8; i++) {
    size_t n = slens[i];
    unsigned char *o = outb(SECRETBOX_SEAL_SIZE(n));
    unsigned char *m;
    secretbox_seal(o, sec(n), n, sec(32), pubin(24));
    OK(o, SECRETBOX_SEAL_SIZE(n), "secretbox_seal");
    m = outb(SECRETBOX_OPEN_SIZE(n));
    if (secretbox_open(m, pubin(n), n, sec(32), pubin(24)) == 5)
      P("never");
    if (n >= 16)
      OK(m, SECRETBOX_OPEN_SIZE(n), "secretbox_open");
  }
  {
    unsigned char *o = outb(32);
    secretbox_derive(o, sec(32));
    OK(o, 32, "secretbox_derive");
  }
}

/* ---- derivation and generators ------------------------------------------ */

static const hash_id_t kh[5] = {HASH_SHA256, HASH_SHA512, HASH_SHA1, HASH_BLAKE2B_512, HASH_SHA3_256};

static void
kdf_run(void) {
  size_t i;

  for (i = 0; i < 5; i++) {
    size_t os = hash_output_size(kh[i]);
    unsigned char *o = outb(os);

    P("hkdf");
    hkdf_extract(o, kh[i], sec(200), 200, sec(20), 20);
    OK(o, os, "hkdf_extract");
    o = outb(os);
    hkdf_extract(o, kh[i], sec(2), 2, sec(200), 200);
    OK(o, os, "hkdf_extract");
    o = outb(2 * os + 7);
    hkdf_expand(o, kh[i], sec(os), pubin(11), 11, 2 * os + 7);
    OK(o, 2 * os + 7, "hkdf_expand");

    P("pbkdf2");
    o = outb(os + 5);
    pbkdf2_derive(o, kh[i], sec(11), 11, pubin(9), 9, 3, os + 5);
    OK(o, os + 5, "pbkdf2_derive");
    o = outb(os - 5);
    pbkdf2_derive(o, kh[i], sec(200), 200, pubin(0), 0, 2, os - 5);
    OK(o, os - 5, "pbkdf2_derive");

    P("pgpdf");
    o = outb(2 * os + 3);
    pgpdf_derive_simple(o, kh[i], sec(9), 9, 2 * os + 3);
    OK(o, 2 * os + 3, "pgpdf_derive_simple");
    o = outb(2 * os + 3);
    pgpdf_derive_salted(o, kh[i], sec(9), 9, pubin(8), 8, 2 * os + 3);
    OK(o, 2 * os + 3, "pgpdf_derive_salted");
    o = outb(2 * os + 3);
    pgpdf_derive_iterated(o, kh[i], sec(9), 9, pubin(8), 8, 100, 2 * os + 3);
    OK(o, 2 * os + 3, "pgpdf_derive_iterated");

    P("eb2k");
    {
      unsigned char *k = outb(48), *v = outb(16);
      eb2k_derive(k, v, kh[i], sec(10), 10, pubin(8), 8, 48, 16);
      OK(k, 48, "eb2k_derive");
      OK(v, 16, "eb2k_derive");
      k = outb(1); v = outb(100);
      eb2k_derive(k, v, kh[i], sec(10), 10, pubin(0), 0, 1, 100);
      OK(k, 1, "eb2k_derive");
      OK(v, 100, "eb2k_derive");
    }
  }
}

static void
scrypt_run(void) {
  unsigned char *o = outb(70);
  P("scrypt");
  if (scrypt_derive(o, sec(10), 10, pubin(8), 8, 4, 2, 2, 70))
    OK(o, 70, "scrypt_derive");
}

static void
drbg_run(int hm) {
  static const hash_id_t hs[4] = {HASH_SHA1, HASH_SHA256, HASH_SHA384, HASH_SHA512};
  static const size_t ol[4] = {0, 20, 111, 129};
  size_t i, j;

  for (i = 0; i < 4; i++) {
    unsigned char *o;
    if (hm) {
      hmac_drbg_t *d = outb(sizeof(hmac_drbg_t));
      P("hmac_drbg");
      hmac_drbg_init(d, hs[i], sec(48), 48);
      for (j = 0; j < 4; j++) {
        o = outb(ol[j]);
        hmac_drbg_generate(d, o, ol[j], sec(7 * j), 7 * j);
        OK(o, ol[j], "hmac_drbg_generate");
      }
      hmac_drbg_reseed(d, sec(33), 33);
      o = outb(65);
      hmac_drbg_rng(o, 65, d);
      OK(o, 65, "hmac_drbg_rng");
    } else {
      hash_drbg_t *d = outb(sizeof(hash_drbg_t));
      P("hash_drbg");
      hash_drbg_init(d, hs[i], sec(48), 48);
      for (j = 0; j < 4; j++) {
        o = outb(ol[j]);
        hash_drbg_generate(d, o, ol[j], sec(7 * j), 7 * j);
        OK(o, ol[j], "hash_drbg_generate");
      }
      hash_drbg_reseed(d, sec(33), 33);
      o = outb(65);
      hash_drbg_rng(o, 65, d);
      OK(o, 65, "hash_drbg_rng");
    }
  }
}

static void
ctr_run(void) {
  static const unsigned int bits[3] = {128, 192, 256};
  size_t i, df, j;
  P("ctr_drbg");
  for (i = 0; i < 3; i++)
    for (df = 0; df < 2; df++) {
      ctr_drbg_t *d = outb(sizeof(ctr_drbg_t));
      unsigned char *o;
      ctr_drbg_init(d, bits[i], (int)df, pubin(48), 48, pubin(9), 9);
      for (j = 0; j < 3; j++) {
        size_t n = j == 0 ? 1 : j == 1 ? 16 : 75;
        o = outb(n);
        ctr_drbg_generate(d, o, n, pubin(5 * j), 5 * j);
        OK(o, n, "ctr_drbg_generate");
      }
      ctr_drbg_reseed(d, pubin(48), 48, pubin(0), 0);
      o = outb(33);
      ctr_drbg_rng(o, 33, d);
      OK(o, 33, "ctr_drbg_rng");
    }
}

static void
util_run(void) {
  size_t i;
  P("util");
  for (i = 0; i < 40; i += 13) {
    unsigned char *a = sec(i), *b = sec(i), *c = outb(i);
    int r = torsion_memcmp(a, b, i);
    r ^= torsion_memequal(a, b, i);
    (void)r;
    torsion_memxor(a, b, i);
    torsion_memxor3(c, a, b, i);
    OK(c, i, "torsion_memxor3");
    murmur3_sum(a, i, 5);
    murmur3_tweak(a, i, 5, 6);
    torsion_memzero(a, i);
  }
}

void tv_sym_blake(void) { blake_keyed(); shake_long(); }
void tv_sym_stream(void) { stream_run(); }
void tv_sym_mac(void) { mac_run(); }
void tv_sym_aead(void) { aead_run(); }
void tv_sym_kdf(void) { kdf_run(); }
void tv_sym_hmacdrbg(void) { drbg_run(1); }
void tv_sym_hashdrbg(void) { drbg_run(0); }
void tv_sym_util(void) { util_run(); }
void tv_tab_arc4(void) { arc4_run(); }
void tv_tab_scrypt(void) { scrypt_run(); }
void tv_tab_ctrdrbg(void) { ctr_run(); }
