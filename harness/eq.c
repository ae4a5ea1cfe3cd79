/* Equational specifications of the symmetric primitives. Every input byte is
 * a distinct unknown; both sides are evaluated to terms and must coincide. */
#include <string.h>
#include "tv.h"
#include <torsion/hash.h>
#include <torsion/stream.h>
#include <torsion/mac.h>
#include <torsion/kdf.h>
#include <torsion/aead.h>
#include <torsion/ies.h>
#include <torsion/drbg.h>
#include <torsion/util.h>

#define P(n) __tv_phase(n)

static unsigned char *
var(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_vars(p, n, 0, 255);
  return p;
}

static void *
outb(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_uninit(p, n);
  return p;
}

/* ---- C06: pieces against the whole --------------------------------------- */

static void
hash_pieces(hash_id_t type, const unsigned char *m, size_t len,
            size_t a, size_t b, const unsigned char *want, size_t os) {
  unsigned char *got = outb(os);
  hash_t h;

  if (a > b || b > len)
    return;

  hash_init(&h, type);
  hash_update(&h, m, a);
  hash_update(&h, m + a, b - a);
  hash_update(&h, m + b, len - b);
  hash_final(&h, got, os);

  __tv_same(want, got, os, "digest of a message fed in pieces");
}

static void
eq_hash(hash_id_t type) {
  size_t bs = hash_block_size(type);
  size_t os = hash_output_size(type);
  unsigned char *m = var(3 * bs + 8);
  size_t lens[10];
  int i, j, k;

  P("hash_pieces");

  lens[0] = 0; lens[1] = 1; lens[2] = bs - 1; lens[3] = bs; lens[4] = bs + 1;
  lens[5] = 2 * bs - 1; lens[6] = 2 * bs; lens[7] = 2 * bs + 1;
  lens[8] = 3 * bs; lens[9] = 3 * bs + 7;

  for (i = 0; i < 10; i++) {
    size_t len = lens[i];
    unsigned char *want = outb(os);
    unsigned char *got = outb(os);
    size_t n;
    hash_t h;

    hash_init(&h, type);
    hash_update(&h, m, len);
    hash_final(&h, want, os);

    for (j = 0; j < 10; j++) {
      hash_pieces(type, m, len, lens[j], len, want, os);
      for (k = j + 2; k < 10; k += 4)
        hash_pieces(type, m, len, lens[j], lens[k], want, os);
    }

    hash_pieces(type, m, len, bs / 2, bs / 2 + 1, want, os);
    hash_pieces(type, m, len, bs / 2, bs, want, os);
    hash_pieces(type, m, len, bs / 2, 2 * bs, want, os);
    hash_pieces(type, m, len, 3, bs + 3, want, os);

    /* Byte by byte, on a context used before. */
    hash_init(&h, type);
    for (n = 0; n < len; n++)
      hash_update(&h, m + n, 1);
    hash_final(&h, got, os);
    __tv_same(want, got, os, "digest of a message fed byte by byte");
  }
}

#define EQ_HASH(id) void tv_eqhash_##id(void) { eq_hash(HASH_##id); }
EQ_HASH(BLAKE2B_160) EQ_HASH(BLAKE2B_256) EQ_HASH(BLAKE2B_384) EQ_HASH(BLAKE2B_512)
EQ_HASH(BLAKE2S_128) EQ_HASH(BLAKE2S_160) EQ_HASH(BLAKE2S_224) EQ_HASH(BLAKE2S_256)
EQ_HASH(GOST94) EQ_HASH(HASH160) EQ_HASH(HASH256) EQ_HASH(KECCAK224) EQ_HASH(KECCAK256)
EQ_HASH(KECCAK384) EQ_HASH(KECCAK512) EQ_HASH(MD2) EQ_HASH(MD4) EQ_HASH(MD5)
EQ_HASH(MD5SHA1) EQ_HASH(RIPEMD160) EQ_HASH(SHA1) EQ_HASH(SHA224) EQ_HASH(SHA256)
EQ_HASH(SHA384) EQ_HASH(SHA512) EQ_HASH(SHA3_224) EQ_HASH(SHA3_256) EQ_HASH(SHA3_384)
EQ_HASH(SHA3_512) EQ_HASH(SHAKE128) EQ_HASH(SHAKE256) EQ_HASH(WHIRLPOOL)

void
tv_eq_poly(void) {
  static const size_t lens[] = {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 50};
  unsigned char *key = var(32);
  unsigned char *m = var(64);
  int i, j, k;

  P("poly1305_pieces");

  for (i = 0; i < 11; i++) {
    size_t len = lens[i];
    unsigned char want[16], got[16];
    poly1305_t c;
    size_t n;

    poly1305_init(&c, key);
    poly1305_update(&c, m, len);
    poly1305_final(&c, want);

    for (j = 0; j < 11; j++) {
      for (k = j; k < 11; k++) {
        if (lens[j] > len || lens[k] > len)
          continue;

        poly1305_init(&c, key);
        poly1305_update(&c, m, lens[j]);
        poly1305_update(&c, m + lens[j], lens[k] - lens[j]);
        poly1305_update(&c, m + lens[k], len - lens[k]);
        poly1305_final(&c, got);

        __tv_same(want, got, 16, "Poly1305 of a message fed in pieces");
      }
    }

    poly1305_init(&c, key);
    for (n = 0; n < len; n++)
      poly1305_update(&c, m + n, 1);
    poly1305_final(&c, got);
    __tv_same(want, got, 16, "Poly1305 of a message fed byte by byte");
  }
}

typedef void crypt_f(void *ctx, unsigned char *dst, const unsigned char *src, size_t len);

static void
chacha_crypt(void *ctx, unsigned char *dst, const unsigned char *src, size_t len) {
  chacha20_crypt(ctx, dst, src, len);
}

static void
salsa_crypt(void *ctx, unsigned char *dst, const unsigned char *src, size_t len) {
  salsa20_crypt(ctx, dst, src, len);
}

static void
stream_pieces(const void *init, size_t size, crypt_f *crypt) {
  static const size_t cut[] = {0, 1, 31, 63, 64, 65, 127, 128, 200};
  unsigned char *m = var(200);
  unsigned char want[200], got[200];
  unsigned char ctx[1024];
  size_t n;
  int j, k;

  memcpy(ctx, init, size);
  crypt(ctx, want, m, 200);

  for (j = 0; j < 9; j++) {
    for (k = j; k < 9; k++) {
      memcpy(ctx, init, size);
      crypt(ctx, got, m, cut[j]);
      crypt(ctx, got + cut[j], m + cut[j], cut[k] - cut[j]);
      crypt(ctx, got + cut[k], m + cut[k], 200 - cut[k]);
      __tv_same(want, got, 200, "stream cipher output for pieces");
    }
  }

  memcpy(ctx, init, size);
  memcpy(got, m, 200);
  for (n = 0; n < 200; n++)
    crypt(ctx, got + n, got + n, 1);
  __tv_same(want, got, 200, "stream cipher output byte by byte, in place");

  memcpy(ctx, init, size);
  memcpy(got, m, 200);
  crypt(ctx, got, got, 200);
  __tv_same(want, got, 200, "stream cipher output in place");

  memcpy(ctx, init, size);
  crypt(ctx, got, got, 200);
  __tv_same(m, got, 200, "stream cipher applied twice");
}

void
tv_eq_chacha(void) {
  static const size_t nl[] = {8, 12, 16, 24, 28};
  static const uint64_t ctr[] = {0, 0xffffffff};
  unsigned char *key = var(32);
  unsigned char *nonce = var(32);
  int i, j, k;

  P("chacha20_pieces");

  for (i = 0; i < 5; i++) {
    for (j = 0; j < 2; j++) {
      for (k = 16; k <= 32; k += 16) {
        chacha20_t c;
        memset(&c, 0, sizeof(c));
        chacha20_init(&c, key, k, nonce, nl[i], ctr[j]);
        stream_pieces(&c, sizeof(c), chacha_crypt);
      }
    }
  }
}

void
tv_eq_salsa(void) {
  static const size_t nl[] = {8, 16, 24};
  static const uint64_t ctr[] = {0, 0xffffffff};
  unsigned char *key = var(32);
  unsigned char *nonce = var(32);
  int i, j, k;

  P("salsa20_pieces");

  for (i = 0; i < 3; i++) {
    for (j = 0; j < 2; j++) {
      for (k = 16; k <= 32; k += 16) {
        salsa20_t c;
        memset(&c, 0, sizeof(c));
        salsa20_init(&c, key, k, nonce, nl[i], ctr[j]);
        stream_pieces(&c, sizeof(c), salsa_crypt);
      }
    }
  }
}

/* A stream started at block n is the tail of the stream started earlier. */
void
tv_eq_seek(void) {
  static const uint64_t start[] = {0, 1, 0xfffffffe, 0xffffffff,
                                   UINT64_C(0x100000000), UINT64_C(0x1fffffffe),
                                   UINT64_C(0xfffffffffffffffe)};
  unsigned char *key = var(32);
  unsigned char *nonce = var(8);
  unsigned char *m = var(192);
  unsigned char whole[192], part[128];
  int i, k;

  P("stream_counter");

  for (i = 0; i < 7; i++) {
    for (k = 16; k <= 32; k += 16) {
      chacha20_t c;
      salsa20_t s;

      chacha20_init(&c, key, k, nonce, 8, start[i]);
      chacha20_crypt(&c, whole, m, 192);
      chacha20_init(&c, key, k, nonce, 8, start[i] + 1);
      chacha20_crypt(&c, part, m + 64, 128);
      __tv_same(whole + 64, part, 128, "ChaCha20 block counter");

      salsa20_init(&s, key, k, nonce, 8, start[i]);
      salsa20_crypt(&s, whole, m, 192);
      salsa20_init(&s, key, k, nonce, 8, start[i] + 1);
      salsa20_crypt(&s, part, m + 64, 128);
      __tv_same(whole + 64, part, 128, "Salsa20 block counter");
    }
  }
}

/* ---- C07: padding and length counting ------------------------------------ */

/* A context that already absorbed `size' bytes: chaining value and buffered
 * bytes unknown. The digest must be that of the padded remainder. */
static const uint64_t history[] = {
  0, 64, UINT64_C(0x1fffff80), UINT64_C(0x1fffffff), UINT64_C(0x20000000), UINT64_C(0xffffff80),
  UINT64_C(0xffffffff), UINT64_C(0x100000000), UINT64_C(0x123456789a), UINT64_C(0x1fffffffffffff80),
  UINT64_C(0x2000000000000000), UINT64_C(0xffffffffffffff80), UINT64_C(0xfffffffffffffff3)
};
static const uint64_t upper[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5};
#define NHIST 10
#define NWIDE 13

static void
put_len(unsigned char *p, uint64_t hi, uint64_t lo, size_t n, int le) {
  size_t i;
  for (i = 0; i < n; i++) {
    uint64_t b = i < 8 ? lo >> (8 * i) : i < 16 ? hi >> (8 * (i - 8)) : 0;
    p[le ? i : n - 1 - i] = (unsigned char)b;
  }
}

#define PADDED(name, ctx_t, BS, LB, OUT, LE, WORD, SIZE_SET, NH)                   \
void                                                                          \
tv_pad_##name(void) {                                                         \
  unsigned char *m = var(2 * BS);                                             \
  int i;                                                                      \
  size_t len;                                                                 \
  P("padding");                                                               \
  for (i = 0; i < NH; i++) {                                                  \
    ctx_t base;                                                               \
    size_t pos = history[i] % BS;                                             \
    name##_init(&base);                                                       \
    __tv_vars(base.state, sizeof(base.state), 0, 255);                        \
    __tv_vars(base.block, BS, 0, 255);                                        \
    SIZE_SET(base, history[i], upper[i]);                                     \
    for (len = 0; len <= BS + 1; len += (len + 2 < BS - LB && len > 1 ? BS / 8 - 1 : len > 1 && len + 2 < BS ? 3 : 1)) { \
      ctx_t a = base, b = base;                                               \
      unsigned char got[OUT], want[sizeof(base.state)], pad[2 * BS];          \
      uint64_t tot = history[i] + len;                                        \
      size_t fill = (pos + len) % BS, n;                                      \
      n = fill + 1 + LB > BS ? 2 * BS - fill : BS - fill;                     \
      memset(pad, 0, sizeof(pad));                                            \
      pad[0] = 0x80;                                                          \
      put_len(pad + n - LB, (upper[i] + (tot < len)) << 3 | tot >> 61, tot << 3, LB, LE); \
      name##_update(&a, m, len);                                              \
      name##_final(&a, got);                                                  \
      name##_update(&b, m, len);                                              \
      name##_update(&b, pad, n);                                              \
      for (n = 0; n < sizeof(base.state); n++) {                              \
        size_t w = n / sizeof(WORD), k = n % sizeof(WORD);                    \
        want[n] = (unsigned char)(b.state[w] >> (8 * (LE ? k : sizeof(WORD) - 1 - k))); \
      }                                                                       \
      __tv_same(want, got, OUT, "digest of a message after a long history");  \
    }                                                                         \
  }                                                                           \
}

#define SET1(c, n, u) ((c).size = (n))
#define SET2(c, n, u) ((c).size[0] = (n), (c).size[1] = (u))
#define SET4(c, n, u) ((c).size[0] = (n), (c).size[1] = (u), (c).size[2] = 0, (c).size[3] = 0)

PADDED(md4, md4_t, 64, 8, 16, 1, uint32_t, SET1, NHIST)
PADDED(md5, md5_t, 64, 8, 16, 1, uint32_t, SET1, NHIST)
PADDED(ripemd160, ripemd160_t, 64, 8, 20, 1, uint32_t, SET1, NHIST)
PADDED(sha1, sha1_t, 64, 8, 20, 0, uint32_t, SET1, NHIST)
PADDED(sha224, sha224_t, 64, 8, 28, 0, uint32_t, SET1, NHIST)
PADDED(sha256, sha256_t, 64, 8, 32, 0, uint32_t, SET1, NHIST)
PADDED(sha384, sha384_t, 128, 16, 48, 0, uint64_t, SET2, NWIDE)
PADDED(sha512, sha512_t, 128, 16, 64, 0, uint64_t, SET2, NWIDE)
PADDED(whirlpool, whirlpool_t, 64, 32, 64, 0, uint64_t, SET4, NWIDE)

/* BLAKE2 has no padding; its counter is an input of every compression. */
void
tv_pad_blake2(void) {
  unsigned char *m = var(300);
  blake2b_t b;
  blake2s_t s;
  unsigned char out[64];
  size_t len;

  P("padding");

  for (len = 0; len <= 260; len += 13) {
    blake2s_init(&s, 32, NULL, 0);
    s.t[0] = 0xffffffc0;
    s.t[1] = 6;
    blake2s_update(&s, m, len);
    blake2s_final(&s, out);
    __tv_assert(((uint64_t)s.t[1] << 32 | s.t[0]) == UINT64_C(0x6ffffffc0) + len, "BLAKE2s byte counter");

    blake2b_init(&b, 64, NULL, 0);
    b.t[0] = UINT64_C(0xffffffffffffff80);
    b.t[1] = 6;
    blake2b_update(&b, m, len);
    blake2b_final(&b, out);
    __tv_assert(b.t[0] == UINT64_C(0xffffffffffffff80) + len, "BLAKE2b byte counter");
    __tv_assert(b.t[1] == 6 + (uint64_t)(len >= 128), "BLAKE2b byte counter carry");

    blake2b_init(&b, 64, NULL, 0);
    b.t[0] = UINT64_C(0xffffff80);
    blake2b_update(&b, m, len);
    blake2b_final(&b, out);
    __tv_assert(b.t[0] == UINT64_C(0xffffff80) + len, "BLAKE2b byte counter");
  }
}

/* ---- C08: constructions against their definitions ------------------------- */

static void
spec_hmac(unsigned char *out, hash_id_t type, const unsigned char *key, size_t klen,
          const unsigned char *m1, size_t n1, const unsigned char *m2, size_t n2,
          const unsigned char *m3, size_t n3) {
  size_t bs = hash_block_size(type), os = hash_output_size(type), i;
  unsigned char k[HASH_MAX_BLOCK_SIZE], t[HASH_MAX_OUTPUT_SIZE];
  hash_t h;

  memset(k, 0, sizeof(k));

  if (klen > bs) {
    hash_init(&h, type);
    hash_update(&h, key, klen);
    hash_final(&h, k, os);
  } else {
    for (i = 0; i < klen; i++)
      k[i] = key[i];
  }

  for (i = 0; i < bs; i++)
    k[i] ^= 0x36;

  hash_init(&h, type);
  hash_update(&h, k, bs);
  hash_update(&h, m1, n1);
  hash_update(&h, m2, n2);
  hash_update(&h, m3, n3);
  hash_final(&h, t, os);

  for (i = 0; i < bs; i++)
    k[i] ^= 0x36 ^ 0x5c;

  hash_init(&h, type);
  hash_update(&h, k, bs);
  hash_update(&h, t, os);
  hash_final(&h, out, os);
}

static void
eq_hmac(hash_id_t type) {
  size_t bs = hash_block_size(type), os = hash_output_size(type);
  unsigned char *key = var(2 * bs + 1);
  unsigned char *m = var(bs + 5);
  size_t kl[7], ml[4];
  int i, j;

  P("hmac");

  kl[0] = 0; kl[1] = 1; kl[2] = os; kl[3] = bs - 1; kl[4] = bs; kl[5] = bs + 1; kl[6] = 2 * bs + 1;
  ml[0] = 0; ml[1] = 1; ml[2] = bs; ml[3] = bs + 5;

  for (i = 0; i < 7; i++) {
    for (j = 0; j < 4; j++) {
      unsigned char want[HASH_MAX_OUTPUT_SIZE], got[HASH_MAX_OUTPUT_SIZE];
      size_t n = ml[j];
      hmac_t h;

      spec_hmac(want, type, key, kl[i], m, n, NULL, 0, NULL, 0);

      hmac_init(&h, type, key, kl[i]);
      hmac_update(&h, m, n);
      hmac_final(&h, got);
      __tv_same(want, got, os, "HMAC");

      hmac_init(&h, type, key, kl[i]);
      hmac_update(&h, m, n / 2);
      hmac_update(&h, m + n / 2, n - n / 2);
      hmac_final(&h, got);
      __tv_same(want, got, os, "HMAC of a message fed in pieces");
    }
  }
}

#define EQ_HMAC(id) void tv_eqhmac_##id(void) { eq_hmac(HASH_##id); }
EQ_HMAC(BLAKE2B_256) EQ_HMAC(BLAKE2S_256) EQ_HMAC(GOST94) EQ_HMAC(HASH160) EQ_HMAC(HASH256)
EQ_HMAC(KECCAK256) EQ_HMAC(MD2) EQ_HMAC(MD4) EQ_HMAC(MD5) EQ_HMAC(MD5SHA1) EQ_HMAC(RIPEMD160)
EQ_HMAC(SHA1) EQ_HMAC(SHA224) EQ_HMAC(SHA256) EQ_HMAC(SHA384) EQ_HMAC(SHA512)
EQ_HMAC(SHA3_224) EQ_HMAC(SHA3_256) EQ_HMAC(SHA3_384) EQ_HMAC(SHA3_512) EQ_HMAC(WHIRLPOOL)

static void
eq_hkdf(hash_id_t type) {
  static const size_t sl[] = {0, 1, 20, 64, 150};
  static const size_t il[] = {0, 1, 64, 100};
  size_t os = hash_output_size(type);
  unsigned char *ikm = var(100), *salt = var(150), *info = var(100), *prk = var(64);
  size_t ol[7], n;
  int i, j;

  P("hkdf");

  for (i = 0; i < 5; i++) {
    for (j = 0; j < 4; j++) {
      unsigned char want[64], got[64], zero[64];
      memset(zero, 0, 64);
      __tv_assert(hkdf_extract(got, type, ikm, il[j], salt, sl[i]) == 1, "HKDF extract succeeds");
      spec_hmac(want, type, sl[i] ? salt : zero, sl[i] ? sl[i] : os, ikm, il[j], NULL, 0, NULL, 0);
      __tv_same(want, got, os, "HKDF extract");
    }
  }

  ol[0] = 0; ol[1] = 1; ol[2] = os - 1; ol[3] = os; ol[4] = os + 1; ol[5] = 2 * os; ol[6] = 3 * os + 1;

  for (i = 0; i < 7; i++) {
    for (j = 0; j < 4; j++) {
      unsigned char *got = outb(ol[i]);
      unsigned char want[4 * 64], ctr[1];
      __tv_assert(hkdf_expand(got, type, prk, info, il[j], ol[i]) == 1, "HKDF expand succeeds");
      for (n = 0; n < 4; n++) {
        ctr[0] = n + 1;
        spec_hmac(want + n * os, type, prk, os, want + (n ? n - 1 : 0) * os, n ? os : 0, info, il[j], ctr, 1);
      }
      __tv_same(want, got, ol[i], "HKDF expand");
    }
  }

  __tv_assert(hkdf_expand(prk, type, prk, info, 1, 255 * os + 1) == 0, "HKDF output limit");
}

void tv_eq_hkdf0(void) { eq_hkdf(HASH_SHA256); }
void tv_eq_hkdf1(void) { eq_hkdf(HASH_SHA1); }
void tv_eq_hkdf2(void) { eq_hkdf(HASH_SHA512); }

static void
eq_pbkdf2(hash_id_t type) {
  static const size_t pl[] = {0, 1, 64, 130};
  static const size_t sl[] = {0, 8, 70};
  size_t os = hash_output_size(type), bs = hash_block_size(type);
  unsigned char *pass = var(130), *salt = var(70);
  size_t ol[6], n, b;
  uint32_t it, r;
  int i, j, k;

  P("pbkdf2");

  ol[0] = 0; ol[1] = 1; ol[2] = os; ol[3] = os + 1; ol[4] = 2 * os + 3; ol[5] = 3 * os;

  for (i = 0; i < 4; i++) {
    for (j = 0; j < 3; j++) {
      for (it = 1; it <= 3; it++) {
        unsigned char want[3 * 64];
        for (b = 0; b < 3; b++) {
          unsigned char c[4], u[64], v[64];
          c[0] = 0; c[1] = 0; c[2] = 0; c[3] = b + 1;
          spec_hmac(u, type, pass, pl[i], salt, sl[j], c, 4, NULL, 0);
          for (n = 0; n < os; n++)
            want[b * os + n] = u[n];
          for (r = 1; r < it; r++) {
            spec_hmac(v, type, pass, pl[i], u, os, NULL, 0, NULL, 0);
            for (n = 0; n < os; n++) {
              u[n] = v[n];
              want[b * os + n] ^= v[n];
            }
          }
        }
        for (k = 0; k < 6; k++) {
          unsigned char *got = outb(ol[k]);
          if ((i + j + it + k) % 2)
            continue;
          __tv_assert(pbkdf2_derive(got, type, pass, pl[i], salt, sl[j], it, ol[k]) == 1, "PBKDF2 succeeds");
          __tv_same(want, got, ol[k], "PBKDF2");
        }
      }
    }
  }
  (void)bs;
}

void tv_eq_pbkdf20(void) { eq_pbkdf2(HASH_SHA256); }
void tv_eq_pbkdf21(void) { eq_pbkdf2(HASH_SHA1); }
void tv_eq_pbkdf22(void) { eq_pbkdf2(HASH_SHA512); }

/* OpenPGP string-to-key: context i is preloaded with i zero octets. */
static void
eq_pgpdf(hash_id_t type) {
  static const size_t pl[] = {1, 9, 70};
  static const size_t cnt[] = {0, 1, 17, 65, 200, 333};
  size_t os = hash_output_size(type);
  unsigned char *pass = var(70), *salt = var(8);
  size_t ol[5], n, b, q;
  int i, k, c;

  P("pgpdf");

  ol[0] = 0; ol[1] = 1; ol[2] = os; ol[3] = os + 1; ol[4] = 2 * os + 3;

  for (i = 0; i < 3; i++) {
    for (c = -2; c < 6; c++) {
      unsigned char want[3 * 64], zero[3], all[78];
      size_t sl = c == -2 ? 0 : 8, tot = sl + pl[i];
      memset(zero, 0, 3);
      memcpy(all, salt, sl);
      memcpy(all + sl, pass, pl[i]);
      for (b = 0; b < 3; b++) {
        size_t left = c < 0 ? tot : cnt[c] > tot ? cnt[c] : tot;
        hash_t h;
        hash_init(&h, type);
        hash_update(&h, zero, b);
        while (left > 0) {
          q = left < tot ? left : tot;
          hash_update(&h, all, q);
          left -= q;
        }
        hash_final(&h, want + b * os, os);
      }
      for (k = 0; k < 5; k++) {
        unsigned char *got = outb(ol[k]);
        int r;
        if (c == -2)
          r = pgpdf_derive_simple(got, type, pass, pl[i], ol[k]);
        else if (c == -1)
          r = pgpdf_derive_salted(got, type, pass, pl[i], salt, 8, ol[k]);
        else
          r = pgpdf_derive_iterated(got, type, pass, pl[i], salt, 8, cnt[c], ol[k]);
        __tv_assert(r == 1, "OpenPGP derivation succeeds");
        __tv_same(want, got, ol[k], "OpenPGP derivation");
      }
    }
  }
  (void)n;
}

void tv_eq_pgpdf(void) { eq_pgpdf(HASH_SHA256); eq_pgpdf(HASH_SHA1); }

/* EVP_BytesToKey with one iteration. */
static void
eq_eb2k(hash_id_t type) {
  static const size_t sl[] = {0, 8};
  static const size_t kl[] = {0, 1, 16, 32, 33, 64};
  static const size_t vl[] = {0, 8, 16, 31};
  size_t os = hash_output_size(type), n;
  unsigned char *pass = var(20), *salt = var(8);
  int i, j, k;

  P("eb2k");

  for (i = 0; i < 2; i++) {
    unsigned char want[10 * 64];
    for (n = 0; n < 7; n++) {
      hash_t h;
      hash_init(&h, type);
      if (n)
        hash_update(&h, want + (n - 1) * os, os);
      hash_update(&h, pass, 20);
      hash_update(&h, salt, sl[i]);
      hash_final(&h, want + n * os, os);
    }
    for (j = 0; j < 6; j++) {
      for (k = 0; k < 4; k++) {
        unsigned char *key = outb(kl[j]), *iv = outb(vl[k]);
        __tv_assert(eb2k_derive(key, iv, type, pass, 20, salt, sl[i], kl[j], vl[k]) == 1, "key and IV derivation succeeds");
        __tv_same(want, key, kl[j], "EVP_BytesToKey key");
        __tv_same(want + kl[j], iv, vl[k], "EVP_BytesToKey IV");
      }
    }
  }
}

void tv_eq_eb2k(void) { eq_eb2k(HASH_MD5); eq_eb2k(HASH_SHA256); }

/* ---- ChaCha20-Poly1305 and secret boxes ------------------------------------ */

static void
put64(unsigned char *p, uint64_t n) {
  int i;
  for (i = 0; i < 8; i++)
    p[i] = (unsigned char)(n >> (8 * i));
}

static const size_t al[] = {0, 1, 15, 16, 17, 33};
static const size_t pl[] = {0, 1, 15, 16, 17, 63, 64, 65, 130};

static void
spec_chachapoly(unsigned char *ct, unsigned char *tag, const unsigned char *key,
                const unsigned char *iv, size_t ivl, const unsigned char *aad, size_t an,
                const unsigned char *pt, size_t pn) {
  unsigned char zero[64], pk[64], len[16];
  poly1305_t p;
  chacha20_t c;

  memset(zero, 0, sizeof(zero));
  chacha20_init(&c, key, 32, iv, ivl, 0);
  chacha20_crypt(&c, pk, zero, 64);
  chacha20_crypt(&c, ct, pt, pn);

  poly1305_init(&p, pk);
  poly1305_update(&p, aad, an);
  if (an % 16)
    poly1305_update(&p, zero, 16 - an % 16);
  poly1305_update(&p, ct, pn);
  if (pn % 16)
    poly1305_update(&p, zero, 16 - pn % 16);
  put64(len, an);
  put64(len + 8, pn);
  poly1305_update(&p, len, 16);
  poly1305_final(&p, tag);
}

void
tv_eq_chachapoly(void) {
  static const size_t ivs[] = {8, 12, 24, 28};
  unsigned char *key = var(32), *iv = var(28), *aad = var(40), *m = var(130);
  int i, j, k;

  P("chachapoly");

  for (k = 0; k < 4; k++) {
    for (i = 0; i < 6; i++) {
      for (j = 0; j < 9; j++) {
        size_t an = al[i], pn = pl[j], h;
        unsigned char ct[130], tag[16], got[130], mac[16];
        chachapoly_t c;

        spec_chachapoly(ct, tag, key, iv, ivs[k], aad, an, m, pn);

        chachapoly_init(&c, key, iv, ivs[k]);
        chachapoly_aad(&c, aad, an);
        chachapoly_encrypt(&c, got, m, pn);
        chachapoly_final(&c, mac);
        __tv_same(ct, got, pn, "ChaCha20-Poly1305 ciphertext");
        __tv_same(tag, mac, 16, "ChaCha20-Poly1305 tag");

        h = pn / 3;
        memcpy(got, m, pn);
        chachapoly_init(&c, key, iv, ivs[k]);
        chachapoly_aad(&c, aad, an / 2);
        chachapoly_aad(&c, aad + an / 2, an - an / 2);
        chachapoly_encrypt(&c, got, got, h);
        chachapoly_encrypt(&c, got + h, got + h, pn - h);
        chachapoly_final(&c, mac);
        __tv_same(ct, got, pn, "ChaCha20-Poly1305 ciphertext in place, in pieces");
        __tv_same(tag, mac, 16, "ChaCha20-Poly1305 tag in place, in pieces");

        chachapoly_init(&c, key, iv, ivs[k]);
        chachapoly_aad(&c, aad, an);
        chachapoly_decrypt(&c, got, ct, pn);
        chachapoly_final(&c, mac);
        __tv_same(m, got, pn, "ChaCha20-Poly1305 decryption");
        __tv_same(tag, mac, 16, "ChaCha20-Poly1305 tag on decryption");

        memcpy(got, ct, pn);
        chachapoly_init(&c, key, iv, ivs[k]);
        chachapoly_aad(&c, aad, an);
        chachapoly_decrypt(&c, got, got, h);
        chachapoly_decrypt(&c, got + h, got + h, pn - h);
        chachapoly_final(&c, mac);
        __tv_same(m, got, pn, "ChaCha20-Poly1305 decryption in place, in pieces");
        __tv_same(tag, mac, 16, "ChaCha20-Poly1305 tag on decryption in place");

        chachapoly_init(&c, key, iv, ivs[k]);
        chachapoly_aad(&c, aad, an);
        chachapoly_auth(&c, ct, h);
        chachapoly_auth(&c, ct + h, pn - h);
        chachapoly_final(&c, mac);
        __tv_same(tag, mac, 16, "ChaCha20-Poly1305 authentication only");
      }
    }
  }
}

void
tv_eq_secretbox(void) {
  static const size_t ml[] = {0, 1, 15, 16, 31, 32, 33, 64, 100};
  unsigned char *key = var(32), *nonce = var(24), *m = var(100);
  int i, j;

  P("secretbox");

  for (i = 0; i < 9; i++) {
    size_t n = ml[i];
    unsigned char *box = outb(n + 16), *got = outb(n);
    unsigned char zero[32], pk[32], want[116];
    poly1305_t p;
    salsa20_t s;

    memset(zero, 0, 32);
    salsa20_init(&s, key, 32, nonce, 24, 0);
    salsa20_crypt(&s, pk, zero, 32);
    salsa20_crypt(&s, want + 16, m, n);
    poly1305_init(&p, pk);
    poly1305_update(&p, want + 16, n);
    poly1305_final(&p, want);

    secretbox_seal(box, m, n, key, nonce);
    __tv_same(want, box, n + 16, "sealed box");
    __tv_assert(secretbox_open(got, box, n + 16, key, nonce) == 1, "a sealed box opens");
    __tv_same(m, got, n, "opened box");

    /* Every other tag: some byte differs, the rest is arbitrary. */
    for (j = 0; j < 16; j++) {
      unsigned char bad[116], d[16];
      __tv_vars(d, 16, 0, 255);
      __tv_vars(d + j, 1, 1, 255);
      memcpy(bad, box, n + 16);
      torsion_memxor(bad, d, 16);
      __tv_assert(secretbox_open(got, bad, n + 16, key, nonce) == 0, "a box with another tag is rejected");
    }
  }

  for (i = 0; i < 16; i++) {
    unsigned char *box = var(i);
    __tv_assert(secretbox_open(box, box, i, key, nonce) == 0, "a box shorter than its tag is rejected");
  }
}

/* ---- C09: byte-string helpers ---------------------------------------------- */

void
tv_eq_util(void) {
  static const size_t ln[] = {0, 1, 3, 7, 8, 9, 16, 17, 32, 33, 64, 65};
  int i, k, c;
  size_t n;

  P("util");

  for (i = 0; i < 12; i++) {
    size_t len = ln[i];
    unsigned char *x = var(len), *y = var(len), *z = outb(len), *w = outb(len);

    for (n = 0; n < len; n++)
      w[n] = x[n] ^ y[n];

    torsion_memxor3(z, x, y, len);
    __tv_same(w, z, len, "xor of two strings");
    memcpy(z, x, len);
    torsion_memxor(z, y, len);
    __tv_same(w, z, len, "xor into a string");

    __tv_assert(torsion_memequal(x, x, len) == 1, "equal strings compare equal");
    __tv_assert(torsion_memcmp(x, x, len) == 0, "equal strings compare equal");

    for (k = 0; k < (int)len; k++) {
      unsigned char d[65];
      __tv_vars(d, len, 0, 255);
      __tv_vars(d + k, 1, 1, 255);
      memcpy(z, x, len);
      torsion_memxor(z, d, len);
      __tv_assert(torsion_memequal(x, z, len) == 0, "different strings compare different");
    }
  }

  /* Order: equal up to k, then smaller, then arbitrary. */
  for (k = 0; k < 5; k++) {
    for (c = 0; c < 255; c++) {
      unsigned char x[5], y[5];
      int r, s;
      __tv_vars(x, 5, 0, 255);
      __tv_vars(y, 5, 0, 255);
      memcpy(y, x, k);
      x[k] = c;
      __tv_vars(y + k, 1, c + 1, 255);
      r = torsion_memcmp(x, y, 5);
      s = torsion_memcmp(y, x, 5);
      __tv_assert(r < 0, "smaller string compares smaller");
      __tv_assert(s > 0, "larger string compares larger");
    }
  }
}

/* Strings of any length that differ in their first byte; the rest is arbitrary.
   Run without value numbering: only ranges matter and loops are widened. */
void
tv_long_util(void) {
  size_t max = 1 << 16;
  unsigned char *x = __tv_newbuf(max), *y = __tv_newbuf(max);
  size_t len = __tv_range(1, max);
  int c;

  P("util_long");

  for (c = 0; c < 256; c++) {
    __tv_unknown(x, max);
    __tv_unknown(y, max);
    x[0] = c;

    if (c > 0) {
      y[0] = __tv_range(0, c - 1);
      __tv_assert(torsion_memequal(x, y, len) == 0, "different strings compare different");
      __tv_assert(torsion_memcmp(x, y, len) > 0, "larger string compares larger");
      __tv_assert(torsion_memcmp_var(x, y, len) > 0, "larger string compares larger");
    }

    if (c < 255) {
      y[0] = __tv_range(c + 1, 255);
      __tv_assert(torsion_memequal(x, y, len) == 0, "different strings compare different");
      __tv_assert(torsion_memcmp(x, y, len) < 0, "smaller string compares smaller");
      __tv_assert(torsion_memcmp_var(x, y, len) < 0, "smaller string compares smaller");
    }
  }
}

/* ---- HMAC-DRBG (SP 800-90A, RFC 6979) -------------------------------------- */

struct hd {
  unsigned char K[64], V[64];
};

static void
hd_step(struct hd *d, hash_id_t type, const unsigned char *seed, size_t n) {
  size_t os = hash_output_size(type);
  static const unsigned char zero[1] = {0}, one[1] = {1};
  unsigned char t[64];

  spec_hmac(t, type, d->K, os, d->V, os, zero, 1, seed, n);
  memcpy(d->K, t, os);
  spec_hmac(t, type, d->K, os, d->V, os, NULL, 0, NULL, 0);
  memcpy(d->V, t, os);

  if (n > 0) {
    spec_hmac(t, type, d->K, os, d->V, os, one, 1, seed, n);
    memcpy(d->K, t, os);
    spec_hmac(t, type, d->K, os, d->V, os, NULL, 0, NULL, 0);
    memcpy(d->V, t, os);
  }
}

static void
hd_gen(struct hd *d, hash_id_t type, unsigned char *out, size_t len, const unsigned char *add, size_t an) {
  size_t os = hash_output_size(type), i;
  unsigned char t[64];

  if (an > 0)
    hd_step(d, type, add, an);

  for (i = 0; i < len; i++) {
    if (i % os == 0) {
      spec_hmac(t, type, d->K, os, d->V, os, NULL, 0, NULL, 0);
      memcpy(d->V, t, os);
    }
    out[i] = d->V[i % os];
  }

  hd_step(d, type, add, an);
}

static void
eq_hmacdrbg(hash_id_t type) {
  static const size_t sl[] = {0, 1, 48, 100};
  static const size_t al[] = {0, 5};
  size_t os = hash_output_size(type);
  unsigned char *seed = var(100), *add = var(5), *re = var(40);
  size_t ol[6];
  int i, j, k;

  P("hmac_drbg");

  ol[0] = 0; ol[1] = 1; ol[2] = os; ol[3] = os + 1; ol[4] = 2 * os; ol[5] = 2 * os + 3;

  for (i = 0; i < 4; i++) {
    for (j = 0; j < 2; j++) {
      hmac_drbg_t a;
      struct hd b;

      hmac_drbg_init(&a, type, seed, sl[i]);
      memset(b.K, 0, 64);
      memset(b.V, 1, 64);
      hd_step(&b, type, seed, sl[i]);

      for (k = 0; k < 6; k++) {
        unsigned char *got = outb(ol[k]), *want = outb(ol[k]);

        hmac_drbg_generate(&a, got, ol[k], add, al[j]);
        hd_gen(&b, type, want, ol[k], add, al[j]);
        __tv_same(want, got, ol[k], "HMAC-DRBG output");

        if (k == 3) {
          hmac_drbg_reseed(&a, re, 40);
          hd_step(&b, type, re, 40);
        }
      }
    }
  }
}

void tv_eq_hmacdrbg0(void) { eq_hmacdrbg(HASH_SHA256); }
void tv_eq_hmacdrbg1(void) { eq_hmacdrbg(HASH_SHA1); }
void tv_eq_hmacdrbg2(void) { eq_hmacdrbg(HASH_SHA512); }

/* The length block of ChaCha20-Poly1305 after a long history. */
void
tv_pad_aead(void) {
  unsigned char *key = var(32), *iv = var(12), *m = var(20);
  int i, j;

  P("padding");

  for (i = 0; i < NHIST; i++) {
    for (j = 0; j < NHIST; j++) {
      chachapoly_t a;
      poly1305_t p;
      unsigned char len[16], zero[16], got[16], want[16], ct[20];

      memset(zero, 0, 16);
      chachapoly_init(&a, key, iv, 12);
      chachapoly_aad(&a, m, 5);
      a.adlen += history[i];
      chachapoly_encrypt(&a, ct, m, 20);
      a.ctlen += history[j];
      p = a.poly;
      poly1305_update(&p, zero, 12);
      put64(len, history[i] + 5);
      put64(len + 8, history[j] + 20);
      poly1305_update(&p, len, 16);
      poly1305_final(&p, want);
      chachapoly_final(&a, got);
      __tv_same(want, got, 16, "ChaCha20-Poly1305 length block");
    }
  }
}
