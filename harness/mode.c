/* Block cipher modes over an uninterpreted block cipher. */
#include <string.h>
#include "tv.h"
#include <torsion/cipher.h>
#include <torsion/util.h>

#define P(n) __tv_phase(n)

static unsigned char *
var(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_vars(p, n, 0, 255);
  return p;
}

static void *
outb(size_t n) {
  unsigned char *p = __tv_newbuf(n);
  __tv_uninit(p, n);
  return p;
}

static int
zeros(const unsigned char *p, size_t n) {
  while (n-- > 0) {
    if (p[n] != 0)
      return 0;
  }
  return 1;
}

/* When set: the image of the zero block, i.e. the hash key of GCM. */
static const unsigned char *fixed_h = NULL;

/* The block cipher: a permutation selected by the key, nothing else known. */
static void
spec_E(unsigned char *dst, const unsigned char *key, const unsigned char *src, size_t n, int enc) {
  unsigned char in[48];
  if (fixed_h && n == 16 && __tv_known(src, 16) && zeros(src, 16)) {
    memcpy(dst, fixed_h, 16);
    return;
  }
  memcpy(in, key, 32);
  memcpy(in + 32, src, n);
  __tv_uf(dst, n, enc ? "E" : "E~", in, 32 + n);
}

int
__tvc_torsion_cipher_init(cipher_t *ctx, cipher_id_t type, const unsigned char *key, size_t key_len) {
  unsigned char *k = (unsigned char *)&ctx->ctx;
  size_t i;

  memset(ctx, 0, sizeof(*ctx));

  if (key_len != cipher_key_size(type))
    return 0;

  ctx->type = type;
  ctx->size = cipher_block_size(type);
  for (i = 0; i < key_len; i++)
    k[i] = key[i];
  return 1;
}

void
__tvc_torsion_cipher_encrypt(const cipher_t *ctx, unsigned char *dst, const unsigned char *src) {
  spec_E(dst, (const unsigned char *)&ctx->ctx, src, ctx->size, 1);
}

void
__tvc_torsion_cipher_decrypt(const cipher_t *ctx, unsigned char *dst, const unsigned char *src) {
  spec_E(dst, (const unsigned char *)&ctx->ctx, src, ctx->size, 0);
}

struct cfg {
  cipher_id_t type;
  mode_id_t mode;
  size_t bs, kl, ivl, tl;
  int padding;
  const unsigned char *key, *iv, *aad;
  size_t an;
};

static int
aead(const struct cfg *c) {
  return c->mode >= CIPHER_MODE_GCM;
}

static void
start(cipher_stream_t *s, const struct cfg *c, int enc, size_t len, const unsigned char *tag) {
  __tv_assert(cipher_stream_init(s, c->type, c->mode, enc, c->key, c->kl, c->iv, c->ivl) == 1, "cipher initialisation succeeds");

  if (!c->padding)
    __tv_assert(cipher_stream_set_padding(s, 0) == 1, "padding can be disabled");

  if (c->mode == CIPHER_MODE_CCM)
    __tv_assert(cipher_stream_set_ccm(s, len, c->tl, c->aad, c->an) == 1, "CCM setup succeeds");
  else if (aead(c)) {
    __tv_assert(cipher_stream_set_aad(s, c->aad, c->an / 3) == 1, "associated data accepted");
    __tv_assert(cipher_stream_set_aad(s, c->aad + c->an / 3, c->an - c->an / 3) == 1, "associated data accepted");
  }

  if (aead(c) && !enc)
    __tv_assert(cipher_stream_set_tag(s, tag, c->tl) == 1, "tag accepted");
}

/* One pass over the input cut at a and b; every output buffer has exactly the
 * predicted size. Returns the verdict, *n the amount written. */
static int
pass(const struct cfg *c, int enc, unsigned char *out, size_t *n, const unsigned char *in, size_t len,
     size_t a, size_t b, unsigned char *tag) {
  size_t cut[4], k, got, want;
  cipher_stream_t s;
  int r, i;

  start(&s, c, enc, len, tag);
  cut[0] = 0; cut[1] = a; cut[2] = b; cut[3] = len;
  *n = 0;

  for (i = 0; i < 3; i++) {
    unsigned char *o;
    k = cut[i + 1] - cut[i];
    want = cipher_stream_update_size(&s, k);
    o = outb(want);
    cipher_stream_update(&s, o, &got, in + cut[i], k);
    __tv_assert(got <= want, "output within the predicted size");
    memcpy(out + *n, o, got);
    *n += got;
  }

  want = cipher_stream_final_size(&s);
  {
    unsigned char *o = outb(want);
    r = cipher_stream_final(&s, o, &got);
    __tv_assert(got <= want, "final output within the predicted size");
    memcpy(out + *n, o, got);
    *n += got;
  }

  if (aead(c) && enc) {
    size_t tn = 0;
    unsigned char full[16];
    __tv_assert(cipher_stream_get_tag(&s, full, &tn) == 1, "tag available");
    __tv_assert(tn >= c->tl && tn <= 16, "tag length");
    memcpy(tag, full, c->tl);
  }

  return r;
}

static size_t
expected(const struct cfg *c, size_t len) {
  if ((c->mode == CIPHER_MODE_ECB || c->mode == CIPHER_MODE_CBC) && c->padding)
    return len + c->bs - len % c->bs;
  return len;
}

static int
legal(const struct cfg *c, size_t len) {
  if (c->mode == CIPHER_MODE_CTS || c->mode == CIPHER_MODE_XTS)
    return c->padding ? len >= c->bs : len % c->bs == 0;
  if (c->mode == CIPHER_MODE_RAW || ((c->mode == CIPHER_MODE_ECB || c->mode == CIPHER_MODE_CBC) && !c->padding))
    return len % c->bs == 0;
  return 1;
}

/* ---- definitions ----------------------------------------------------------- */

static void
next(unsigned char *iv, size_t n) {
  while (n-- > 0 && ++iv[n] == 0)
    ;
}

static void
put_be(unsigned char *p, size_t n, uint64_t v) {
  while (n-- > 0) {
    p[n] = v & 0xff;
    v >>= 8;
  }
}

static void
xor_into(unsigned char *x, const unsigned char *y, size_t n) {
  while (n-- > 0)
    x[n] ^= y[n];
}

/* Multiplication by x; le: least significant byte first. */
static void
twice(unsigned char *x, size_t n, int le) {
  unsigned int c = 0, t;
  size_t i;
  for (i = 0; i < n; i++) {
    unsigned char *p = le ? &x[i] : &x[n - 1 - i];
    t = *p;
    *p = (unsigned char)((t << 1) | c);
    c = t >> 7;
  }
  x[le ? 0 : n - 1] ^= c * (n == 16 ? 0x87 : 0x1b);
}

/* CMAC of t || m, t one block holding the number t (none if negative). */
static void
spec_omac(unsigned char *x, const struct cfg *c, const unsigned char *k, int t, const unsigned char *m, size_t n) {
  unsigned char l[16], z[16];
  size_t bs = c->bs, i, r;

  memset(z, 0, 16);
  spec_E(l, k, z, bs, 1);
  twice(l, bs, 0);
  memset(x, 0, bs);
  x[bs - 1] = (unsigned char)t;
  if (n > 0)
    spec_E(x, k, x, bs, 1);
  for (i = 0; i + bs < n; i += bs) {
    xor_into(x, m + i, bs);
    spec_E(x, k, x, bs, 1);
  }
  if (n > 0) {
    r = n - i;
    xor_into(x, m + i, r);
    if (r < bs) {
      x[r] ^= 0x80;
      twice(l, bs, 0);
    }
  }
  xor_into(x, l, bs);
  spec_E(x, k, x, bs, 1);
}

/* Product in the field of GCM, bit by bit. */
static void
spec_gmul(unsigned char *z, const unsigned char *x, const unsigned char *h) {
  unsigned char v[16], r[16];
  size_t i, j;

  memcpy(v, h, 16);
  memset(r, 0, 16);

  for (i = 0; i < 128; i++) {
    unsigned char b = (x[i / 8] >> (7 - i % 8)) & 1, c = v[15] & 1;
    for (j = 0; j < 16; j++)
      r[j] ^= b * v[j];
    for (j = 15; j > 0; j--)
      v[j] = (unsigned char)((v[j] >> 1) | (v[j - 1] << 7));
    v[0] >>= 1;
    v[0] ^= c * 0xe1;
  }
  memcpy(z, r, 16);
}

static void
spec_ghash(unsigned char *y, const unsigned char *h, const unsigned char *a, size_t an, const unsigned char *m, size_t n) {
  unsigned char b[16];
  size_t i;

  memset(y, 0, 16);
  for (i = 0; i < an; i += 16) {
    xor_into(y, a + i, an - i < 16 ? an - i : 16);
    spec_gmul(y, y, h);
  }
  for (i = 0; i < n; i += 16) {
    xor_into(y, m + i, n - i < 16 ? n - i : 16);
    spec_gmul(y, y, h);
  }
  put_be(b, 8, 8 * (uint64_t)an);
  put_be(b + 8, 8, 8 * (uint64_t)n);
  xor_into(y, b, 16);
  spec_gmul(y, y, h);
}

static void
plus1(unsigned char *x, size_t n) {
  unsigned int c = 1;
  while (n-- > 0) {
    c += x[n];
    x[n] = (unsigned char)c;
    c >>= 8;
  }
}

static int
defined_tag(const struct cfg *c, unsigned char *ct, unsigned char *tag, const unsigned char *m, size_t len) {
  unsigned char k[32], x[16], y[16], ctr[16], b[16];
  size_t i, j, bs = c->bs;

  memset(k, 0, 32);
  memcpy(k, c->key, c->kl);

  if (c->mode == CIPHER_MODE_GCM) {
    static const unsigned char zero[16];
    unsigned char h[16];
    spec_E(h, k, zero, 16, 1);
    if (c->ivl == 12) {
      memcpy(ctr, c->iv, 12);
      put_be(ctr + 12, 4, 1);
    } else {
      spec_ghash(ctr, h, NULL, 0, c->iv, c->ivl);
    }
    spec_E(b, k, ctr, 16, 1);
    for (i = 0; i < len; i += 16) {
      plus1(ctr + 12, 4);
      spec_E(y, k, ctr, 16, 1);
      for (j = 0; j < 16 && i + j < len; j++)
        ct[i + j] = m[i + j] ^ y[j];
    }
    spec_ghash(tag, h, c->aad, c->an, ct, len);
    xor_into(tag, b, 16);
    return 1;
  }

  if (c->mode == CIPHER_MODE_CCM) {
    size_t L = len < 65536 ? 2 : 3, h = 0;
    if (c->ivl < 15 - L)
      return 0;
    b[0] = (unsigned char)(64 * (c->an > 0) + 8 * ((c->tl - 2) / 2) + L - 1);
    memcpy(b + 1, c->iv, 15 - L);
    put_be(b + 16 - L, L, len);
    spec_E(x, k, b, 16, 1);
    if (c->an > 0) {
      unsigned char *a = __tv_newbuf(c->an + 32);
      memset(a, 0, c->an + 32);
      if (c->an < 0xff00) {
        put_be(a, 2, c->an);
        h = 2;
      } else {
        put_be(a, 2, 0xfffe);
        put_be(a + 2, 4, c->an);
        h = 6;
      }
      memcpy(a + h, c->aad, c->an);
      for (i = 0; i < c->an + h; i += 16) {
        xor_into(x, a + i, 16);
        spec_E(x, k, x, 16, 1);
      }
    }
    for (i = 0; i < len; i += 16) {
      xor_into(x, m + i, len - i < 16 ? len - i : 16);
      spec_E(x, k, x, 16, 1);
    }
    b[0] = (unsigned char)(L - 1);
    put_be(b + 16 - L, L, 0);
    spec_E(tag, k, b, 16, 1);
    xor_into(tag, x, 16);
    for (i = 0; i < len; i += 16) {
      plus1(b, 16);
      spec_E(y, k, b, 16, 1);
      for (j = 0; j < 16 && i + j < len; j++)
        ct[i + j] = m[i + j] ^ y[j];
    }
    return 1;
  }

  if (c->mode == CIPHER_MODE_EAX) {
    spec_omac(b, c, k, 0, c->iv, c->ivl);
    spec_omac(tag, c, k, 1, c->aad, c->an);
    xor_into(tag, b, bs);
    memcpy(ctr, b, bs);
    for (i = 0; i < len; i += bs) {
      spec_E(y, k, ctr, bs, 1);
      plus1(ctr, bs);
      for (j = 0; j < bs && i + j < len; j++)
        ct[i + j] = m[i + j] ^ y[j];
    }
    spec_omac(x, c, k, 2, ct, len);
    xor_into(tag, x, bs);
    return 1;
  }

  return 0;
}

static int
defined(const struct cfg *c, unsigned char *ct, const unsigned char *pt, size_t len) {
  unsigned char m[96], x[16], y[16], k[32];
  size_t bs = c->bs, i, j, n = expected(c, len);

  memset(k, 0, 32);
  memcpy(k, c->key, c->mode == CIPHER_MODE_XTS ? c->kl / 2 : c->kl);
  memcpy(m, pt, len);
  for (i = len; i < n; i++)
    m[i] = (unsigned char)(n - len);

  switch (c->mode) {
    case CIPHER_MODE_RAW:
    case CIPHER_MODE_ECB:
      for (i = 0; i < n; i += bs)
        spec_E(ct + i, k, m + i, bs, 1);
      return 1;
    case CIPHER_MODE_CBC:
      memcpy(x, c->iv, bs);
      for (i = 0; i < n; i += bs) {
        for (j = 0; j < bs; j++)
          y[j] = x[j] ^ m[i + j];
        spec_E(ct + i, k, y, bs, 1);
        memcpy(x, ct + i, bs);
      }
      return 1;
    case CIPHER_MODE_CTR:
    case CIPHER_MODE_OFB:
    case CIPHER_MODE_CFB:
      memcpy(x, c->iv, bs);
      for (i = 0; i < n; i += bs) {
        spec_E(y, k, x, bs, 1);
        for (j = 0; j < bs && i + j < n; j++)
          ct[i + j] = m[i + j] ^ y[j];
        if (c->mode == CIPHER_MODE_CTR)
          next(x, bs);
        else if (c->mode == CIPHER_MODE_OFB)
          memcpy(x, y, bs);
        else if (i + bs <= n)
          memcpy(x, ct + i, bs);
      }
      return 1;
    case CIPHER_MODE_XTS: {
      unsigned char k2[32], t[16];
      memset(k2, 0, 32);
      memcpy(k2, c->key + c->kl / 2, c->kl / 2);
      spec_E(t, k2, c->iv, bs, 1);
      for (i = 0; i + bs <= n; i += bs) {
        memcpy(x, m + i, bs);
        xor_into(x, t, bs);
        spec_E(x, k, x, bs, 1);
        xor_into(x, t, bs);
        memcpy(ct + i, x, bs);
        twice(t, bs, 1);
      }
      if (i < n) {
        memcpy(x, ct + i - bs, bs);
        memcpy(ct + i, x, n - i);
        memcpy(x, m + i, n - i);
        xor_into(x, t, bs);
        spec_E(x, k, x, bs, 1);
        xor_into(x, t, bs);
        memcpy(ct + i - bs, x, bs);
      }
      return 1;
    }
    default:
      return 0;
  }
}

/* ---- one mode, every length and cut ------------------------------------------ */

static void
eq_mode(struct cfg *c) {
  size_t lens[11], bs;
  unsigned char *m;
  int i, j, k, q;

  bs = c->bs = cipher_block_size(c->type);
  m = var(4 * bs);

  lens[0] = 0; lens[1] = 1; lens[2] = bs - 1; lens[3] = bs; lens[4] = bs + 1; lens[5] = 2 * bs - 1;
  lens[6] = 2 * bs; lens[7] = 2 * bs + 1; lens[8] = 3 * bs - 2; lens[9] = 3 * bs; lens[10] = 3 * bs + 5;

  for (i = 0; i < 11; i++) {
    size_t len = lens[i], n = 0, w = 0;
    unsigned char want[96], got[96], back[96], tag[16], tag2[16];
    int r;

    r = pass(c, 1, want, &w, m, len, 0, len, tag);

    if (!legal(c, len)) {
      __tv_assert(r == 0, "a length the mode cannot encrypt is refused");
      continue;
    }

    __tv_assert(r == 1, "encryption succeeds");
    __tv_assert(w == expected(c, len), "ciphertext length");

    if (c->mode != CIPHER_MODE_XTS && defined(c, got, m, len))
      __tv_same(got, want, w, "ciphertext is what the mode prescribes");

    for (j = 0; j < 11; j++) {
      for (k = j; k < 11; k++) {
        if (lens[k] > len || (k - j > 3 && (j + k) % 3))
          continue;
        r = pass(c, 1, got, &n, m, len, lens[j], lens[k], tag2);
        __tv_assert(r == 1, "encryption in pieces succeeds");
        __tv_assert(n == w, "ciphertext length in pieces");
        __tv_same(want, got, w, "ciphertext of a message fed in pieces");
        if (aead(c))
          __tv_same(tag, tag2, c->tl, "tag of a message fed in pieces");
      }
    }

    for (j = 0; j < 11; j++) {
      for (k = j; k < 11; k++) {
        if (lens[k] > w || (k - j > 3 && (j + k) % 3))
          continue;
        r = pass(c, 0, back, &n, want, w, lens[j], lens[k], tag);
        __tv_assert(r == 1, "decryption succeeds");
        __tv_assert(n == len, "plaintext length");
        __tv_same(m, back, len, "decryption returns the message");
      }
    }

    if (aead(c)) {
      for (q = 0; q < (int)c->tl; q++) {
        unsigned char d[16];
        __tv_vars(d, 16, 0, 255);
        __tv_vars(d + q, 1, 1, 255);
        memcpy(tag2, tag, 16);
        torsion_memxor(tag2, d, c->tl);
        r = pass(c, 0, back, &n, want, w, 0, w, tag2);
        __tv_assert(r == 0, "another tag is rejected");
      }
    } else if (c->padding) {
      unsigned char *o = outb(CIPHER_MAX_ENCRYPT_SIZE(len));
      r = cipher_static_encrypt(o, &n, c->type, c->mode, c->key, c->kl, c->iv, c->ivl, m, len);
      __tv_assert(r == 1 && n == w, "one-call encryption succeeds");
      __tv_same(want, o, w, "one-call encryption");
      o = outb(CIPHER_MAX_DECRYPT_SIZE(w));
      r = cipher_static_decrypt(o, &n, c->type, c->mode, c->key, c->kl, c->iv, c->ivl, want, w);
      __tv_assert(r == 1 && n == len, "one-call decryption succeeds");
      __tv_same(m, o, len, "one-call decryption");
    }
  }
}

static int by_bit = 0;

static void
setup(struct cfg *c, cipher_id_t type, mode_id_t mode, size_t ivl) {
  memset(c, 0, sizeof(*c));
  c->type = type;
  c->mode = mode;
  c->kl = cipher_key_size(type);
  c->key = var(2 * c->kl);
  if (mode == CIPHER_MODE_XTS) {
    /* Any second half that differs from the first. */
    unsigned char *k = (unsigned char *)c->key;
    if (!by_bit)
      __tv_vars(k + c->kl, 1, 1, 255);
    else
      k[c->kl] = 0x10;
    k[c->kl] ^= k[0];
    c->kl *= 2;
  }
  c->ivl = ivl;
  c->iv = var(ivl);
  c->tl = 16;
  c->padding = 1;
}

#define BLOCK(name, mode, iv16, iv8)                     \
void tv_mode_##name##16(void) {                          \
  struct cfg c;                                          \
  P("cipher_mode");                                      \
  setup(&c, CIPHER_AES256, mode, iv16);                  \
  eq_mode(&c);                                           \
}                                                        \
void tv_mode_##name##8(void) {                           \
  struct cfg c;                                          \
  P("cipher_mode");                                      \
  setup(&c, CIPHER_DES, mode, iv8);                      \
  eq_mode(&c);                                           \
}

BLOCK(raw, CIPHER_MODE_RAW, 0, 0)
BLOCK(ecb, CIPHER_MODE_ECB, 0, 0)
BLOCK(cbc, CIPHER_MODE_CBC, 16, 8)
BLOCK(cts, CIPHER_MODE_CTS, 16, 8)
BLOCK(xts, CIPHER_MODE_XTS, 16, 8)
BLOCK(cfb, CIPHER_MODE_CFB, 16, 8)
BLOCK(ofb, CIPHER_MODE_OFB, 16, 8)

/* Padding switched off. */
void
tv_mode_nopad(void) {
  static const mode_id_t modes[] = {CIPHER_MODE_ECB, CIPHER_MODE_CBC, CIPHER_MODE_CTS, CIPHER_MODE_XTS};
  struct cfg c;
  int i, b;

  P("cipher_mode");

  for (i = 0; i < 4; i++) {
    for (b = 0; b < 2; b++) {
      setup(&c, b ? CIPHER_DES : CIPHER_AES128, modes[i], i == 0 ? 0 : b ? 8 : 16);
      c.padding = 0;
      eq_mode(&c);
    }
  }
}

/* Counter mode: the low z bytes of the counter are about to wrap. */
static void
eq_ctr(cipher_id_t type, size_t bs) {
  struct cfg c;
  size_t z;

  P("cipher_ctr");

  for (z = 0; z <= bs; z += 1 + (z > 4 && z + 2 < bs) * 2) {
    unsigned char *iv;
    setup(&c, type, CIPHER_MODE_CTR, bs);
    iv = (unsigned char *)c.iv;
    memset(iv + bs - z, 0xff, z);
    if (z < bs)
      iv[bs - z - 1] = 0x37;
    if (z > 0)
      iv[bs - 1] = 0xfe;
    eq_mode(&c);
  }
}

void tv_mode_ctr16(void) { eq_ctr(CIPHER_AES192, 16); }
void tv_mode_ctr8(void) { eq_ctr(CIPHER_BLOWFISH, 8); }

static void
eq_aead(cipher_id_t type, mode_id_t mode, size_t ivl, size_t tl, size_t an) {
  struct cfg c;
  P("cipher_aead");
  setup(&c, type, mode, ivl);
  c.tl = tl;
  c.an = an;
  c.aad = var(an);
  eq_mode(&c);
}

void tv_mode_gcm0(void) { eq_aead(CIPHER_AES128, CIPHER_MODE_GCM, 12, 16, 0); }
void tv_mode_gcm1(void) { eq_aead(CIPHER_AES256, CIPHER_MODE_GCM, 12, 12, 20); }
void tv_mode_ccm0(void) { eq_aead(CIPHER_AES128, CIPHER_MODE_CCM, 13, 16, 0); }
void tv_mode_ccm1(void) { eq_aead(CIPHER_AES256, CIPHER_MODE_CCM, 12, 8, 20); }
void tv_mode_ccm2(void) { eq_aead(CIPHER_AES256, CIPHER_MODE_CCM, 7, 4, 16); }
void tv_mode_eax0(void) { eq_aead(CIPHER_AES128, CIPHER_MODE_EAX, 16, 16, 0); }
void tv_mode_eax1(void) { eq_aead(CIPHER_AES256, CIPHER_MODE_EAX, 5, 10, 20); }
void tv_mode_eax2(void) { eq_aead(CIPHER_DES, CIPHER_MODE_EAX, 8, 8, 8); }

/* ---- definitions of the modes that multiply in a binary field ---------------- */

static void
eq_def(struct cfg *c, size_t step) {
  static const size_t lens[] = {0, 1, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40};
  unsigned char *m = var(40);
  int i;

  c->bs = cipher_block_size(c->type);

  for (i = 0; i < 12; i += step) {
    size_t len = lens[i], w;
    unsigned char want[64], got[64], tag[16], tag2[16];

    if (!legal(c, len))
      continue;
    __tv_assert(pass(c, 1, got, &w, m, len, 0, len, tag) == 1, "encryption succeeds");
    __tv_assert(w == len, "ciphertext length");
    if (aead(c)) {
      __tv_assert(defined_tag(c, want, tag2, m, len), "definition applies");
      __tv_same(tag2, tag, c->tl, "tag is what the mode prescribes");
    } else {
      __tv_assert(defined(c, want, m, len), "definition applies");
    }
    __tv_same(want, got, w, "ciphertext is what the mode prescribes");
  }
}

#define DEF_XTS(bs, id) void tv_def_xts##bs(void) { struct cfg c; P("cipher_xts"); by_bit = 1; setup(&c, id, CIPHER_MODE_XTS, bs); eq_def(&c, 1); }
DEF_XTS(16, CIPHER_AES128)
DEF_XTS(8, CIPHER_DES)

static void
def_aead(cipher_id_t type, mode_id_t mode, size_t ivl, size_t tl, size_t an, size_t step) {
  struct cfg c;
  P("cipher_aead");
  setup(&c, type, mode, ivl);
  c.tl = tl;
  c.an = an;
  c.aad = var(an);
  eq_def(&c, step);
}

void tv_def_eax16(void) {
  static const size_t iv[] = {1, 15, 16, 17, 32}, an[] = {0, 1, 16, 31, 32};
  int i;
  for (i = 0; i < 5; i++)
    def_aead(CIPHER_AES128, CIPHER_MODE_EAX, iv[i], 16 - i, an[i], 1);
}

void tv_def_eax8(void) {
  static const size_t iv[] = {1, 7, 8, 9, 16}, an[] = {0, 1, 8, 15, 16};
  int i;
  for (i = 0; i < 5; i++)
    def_aead(CIPHER_DES, CIPHER_MODE_EAX, iv[i], 8 - i, an[i], 1);
}

void tv_def_ccm(void) {
  static const size_t an[] = {0, 1, 13, 14, 15, 30, 31};
  int i;
  for (i = 0; i < 7; i++)
    def_aead(CIPHER_AES128, CIPHER_MODE_CCM, 13, 4 + 2 * i, an[i], 1);
}

void tv_def_ccma(void) {
  static const size_t an[] = {0xfeff, 0xff00, 0x10000};
  int i;
  for (i = 0; i < 3; i++)
    def_aead(CIPHER_AES128, CIPHER_MODE_CCM, 13, 16, an[i], 6);
}

/* Enough blocks for the counter to carry, and for a three-byte length. */
void tv_def_ccml(void) {
  static const size_t lens[] = {255 * 16, 257 * 16 + 3, 65535, 65536 + 20};
  int i;
  P("cipher_aead");
  for (i = 0; i < 4; i++) {
    size_t n = lens[i], w;
    unsigned char *m = var(n), *want = __tv_newbuf(n), *got = __tv_newbuf(n), tag[16], tag2[16];
    struct cfg c;
    setup(&c, CIPHER_AES128, CIPHER_MODE_CCM, i < 3 ? 13 : 12);
    c.bs = 16;
    __tv_assert(pass(&c, 1, got, &w, m, n, n / 3, n / 2, tag) == 1, "encryption succeeds");
    __tv_assert(w == n, "ciphertext length");
    __tv_assert(defined_tag(&c, want, tag2, m, n), "definition applies");
    __tv_same(tag2, tag, 16, "tag is what the mode prescribes");
    __tv_same(want, got, n, "ciphertext is what the mode prescribes");
  }
}

static const unsigned char some_h[2][16] = {
  {0x66, 0xe9, 0x4b, 0xd4, 0xef, 0x8a, 0x2c, 0x3b, 0x88, 0x4c, 0xfa, 0x59, 0xca, 0x34, 0x2b, 0x2e},
  {0x93, 0x01, 0xfe, 0x80, 0x7f, 0x36, 0x1c, 0xd8, 0x45, 0xaa, 0x5b, 0xc3, 0x0e, 0x91, 0x77, 0xff}
};

void tv_def_gcm(void) {
  static const size_t an[] = {0, 16, 20, 1};
  int i;
  for (i = 0; i < 4; i++) {
    fixed_h = some_h[i & 1];
    def_aead(i & 2 ? CIPHER_AES256 : CIPHER_AES128, CIPHER_MODE_GCM, 12, 16 - i, an[i], 1 + (i > 1));
  }
}

/* Nonces of other lengths are hashed. */
void tv_def_gcmiv(void) {
  static const size_t iv[] = {1, 8, 16, 20};
  int i;
  for (i = 0; i < 4; i++) {
    fixed_h = some_h[i & 1];
    def_aead(CIPHER_AES128, CIPHER_MODE_GCM, iv[i], 16, 0, 3);
  }
}

/* Any hash key: the length block alone. */
void tv_def_gcmh(void) {
  def_aead(CIPHER_AES128, CIPHER_MODE_GCM, 12, 16, 0, 12);
}

/* ---- refusals ---------------------------------------------------------------- */

/* Decrypt, as CBC or ECB does, a ciphertext whose last plaintext block is x. */
static int
unpad(mode_id_t mode, cipher_id_t type, size_t bs, const unsigned char *x, unsigned char *out, size_t *n) {
  unsigned char iv[16], k[32], ct[32], y[16];
  struct cfg c;

  setup(&c, type, mode, mode == CIPHER_MODE_ECB ? 0 : bs);
  c.bs = bs;
  memset(k, 0, 32);
  memcpy(k, c.key, c.kl);
  memcpy(iv, c.iv, c.ivl);
  __tv_vars(ct, bs, 0, 255);
  memcpy(y, x, bs);
  if (mode == CIPHER_MODE_CBC)
    xor_into(y, ct, bs);
  spec_E(ct + bs, k, y, bs, 1);
  return pass(&c, 0, out, n, ct, 2 * bs, bs, bs, NULL);
}

static void
eq_pkcs7(mode_id_t mode, cipher_id_t type, size_t bs) {
  unsigned char x[16], out[48];
  size_t p, j, n;

  P("cipher_padding");

  for (p = 1; p <= bs; p++) {
    __tv_vars(x, bs, 0, 255);
    for (j = bs - p; j < bs; j++)
      x[j] = (unsigned char)p;
    __tv_assert(unpad(mode, type, bs, x, out, &n) == 1, "proper padding is accepted");
    __tv_assert(n == 2 * bs - p, "padding is removed");
    __tv_same(x, out + bs, bs - p, "padding is removed");

    /* The padding byte farthest from the end that is wrong, below and above. */
    for (j = bs - p; j + 1 < bs; j++) {
      __tv_vars(x + bs - p, j - (bs - p), 0, 255);
      __tv_vars(x + j, 1, 0, (int)p - 1);
      __tv_assert(unpad(mode, type, bs, x, out, &n) == 0, "improper padding is rejected");
      __tv_vars(x + j, 1, (int)p + 1, 255);
      __tv_assert(unpad(mode, type, bs, x, out, &n) == 0, "improper padding is rejected");
      x[j] = (unsigned char)p;
    }
  }

  __tv_vars(x, bs, 0, 255);
  x[bs - 1] = 0;
  __tv_assert(unpad(mode, type, bs, x, out, &n) == 0, "padding of length zero is rejected");
  for (p = bs + 1; p < 256; p++) {
    __tv_vars(x, bs, 0, 255);
    x[bs - 1] = (unsigned char)p;
    __tv_assert(unpad(mode, type, bs, x, out, &n) == 0, "padding longer than a block is rejected");
  }
}

void tv_pkcs7_cbc16(void) { eq_pkcs7(CIPHER_MODE_CBC, CIPHER_AES128, 16); }
void tv_pkcs7_cbc8(void) { eq_pkcs7(CIPHER_MODE_CBC, CIPHER_DES, 8); }
void tv_pkcs7_ecb16(void) { eq_pkcs7(CIPHER_MODE_ECB, CIPHER_TWOFISH256, 16); }

void
tv_mode_refuse(void) {
  static const mode_id_t modes[] = {CIPHER_MODE_GCM, CIPHER_MODE_CCM, CIPHER_MODE_EAX};
  unsigned char *key = var(64), *iv = var(16), tag[16], out[64], *m = var(20);
  cipher_stream_t s;
  size_t i, n, len;

  P("cipher_refuse");
  memset(tag, 0, 16);

  /* No tag, no verdict. */
  for (i = 0; i < 3; i++) {
    __tv_assert(cipher_stream_init(&s, CIPHER_AES128, modes[i], 0, key, 16, iv, 13) == 1, "initialisation succeeds");
    if (modes[i] == CIPHER_MODE_CCM)
      __tv_assert(cipher_stream_set_ccm(&s, 20, 16, NULL, 0) == 1, "CCM setup succeeds");
    cipher_stream_update(&s, out, &n, m, 20);
    __tv_assert(cipher_stream_final(&s, out, &n) == 0, "decryption without a tag is rejected");
  }

  for (i = 0; i < 3; i++) {
    for (len = 0; len <= 20; len++) {
      int ok = modes[i] == CIPHER_MODE_EAX ? len >= 1 && len <= 16
             : modes[i] == CIPHER_MODE_GCM ? len == 4 || len == 8 || (len >= 12 && len <= 16)
             : len >= 4 && len <= 16 && len % 2 == 0;
      unsigned char *t = var(len);
      int r = cipher_stream_init(&s, CIPHER_AES128, modes[i], 0, key, 16, iv, 13);
      __tv_assert(r == 1, "initialisation succeeds");
      if (modes[i] == CIPHER_MODE_CCM)
        r = cipher_stream_set_ccm(&s, 20, len, NULL, 0);
      if (r)
        r = cipher_stream_set_tag(&s, t, len);
      __tv_assert(r == ok, "exactly the permitted tag lengths");
    }
  }

  /* A CCM tag shorter than announced. */
  __tv_assert(cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CCM, 0, key, 16, iv, 13) == 1, "initialisation succeeds");
  __tv_assert(cipher_stream_set_ccm(&s, 20, 16, NULL, 0) == 1, "CCM setup succeeds");
  __tv_assert(cipher_stream_set_tag(&s, tag, 8) == 0, "a truncated tag is refused");

  /* XTS with one key used twice. */
  memcpy(key + 16, key, 16);
  __tv_assert(cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_XTS, 1, key, 32, iv, 16) == 0, "equal halves are refused");

  /* Keys and initialisation vectors of the wrong length. */
  for (len = 0; len <= 33; len++) {
    __tv_assert(cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CBC, 1, key, len, iv, 16) == (len == 16), "key length");
    if (len <= 16) {
      __tv_assert(cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CBC, 1, key, 16, iv, len) == (len == 16), "initialisation vector length");
      __tv_assert(cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CTR, 1, key, 16, iv, len) == (len == 16), "initialisation vector length");
      __tv_assert(cipher_stream_init(&s, CIPHER_DES, CIPHER_MODE_OFB, 1, key, 8, iv, len) == (len == 8), "initialisation vector length");
      __tv_assert(cipher_stream_init(&s, CIPHER_DES, CIPHER_MODE_ECB, 1, key, 8, iv, len) == (len == 0), "initialisation vector length");
    }
  }
}
