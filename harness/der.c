/* DER signatures: the encoder writes the one form the definition allows, the
 * strict decoder takes that form back to the same numbers and nothing else. */
#include "tv.h"
#include "ecc.c"
#include "cls.h"

#define P(n) __tv_phase(n)

/* A class of numbers below the order: len bytes, the first one in lo..hi, or (at
 * > 0) equal to the order before byte `at` and smaller there. */
struct num { int len, lo, hi, at; };

static struct num classes[MAX_SCALAR_SIZE * 4];
static int nclasses;

static void
add_class(int len, int lo, int hi, int at) {
  struct num c;
  if (lo > hi)
    return;
  c.len = len;
  c.lo = lo;
  c.hi = hi;
  c.at = at;
  classes[nclasses++] = c;
}

static void
make_classes(const unsigned char *N, int size) {
  int k;

  nclasses = 0;

  add_class(0, 0, 0, 0);

  for (k = 1; k < size; k++) {
    add_class(k, 1, 127, 0);
    add_class(k, 128, 255, 0);
  }

  add_class(size, 1, N[0] - 1 < 127 ? N[0] - 1 : 127, 0);
  add_class(size, 128, N[0] - 1, 0);

  for (k = 1; k < size; k++)
    if (N[k] > 0)
      add_class(size, N[0], N[0], k);
}

/* The fixed-size form, unknown bytes. */
static void
put_num(unsigned char *out, const unsigned char *N, int size, const struct num *c) {
  memset(out, 0, size);

  if (c->len == 0)
    return;

  __tv_vars(out + size - c->len, c->len, 0, 255);

  if (c->at > 0) {
    memcpy(out, N, c->at);
    __tv_vars(out + c->at, 1, 0, N[c->at] - 1);
  } else if (c->lo == c->hi) {
    out[size - c->len] = c->lo;
  } else {
    __tv_vars(out + size - c->len, 1, c->lo, c->hi);
  }
}

/* ---- the definition ---- */

static int
def_len(unsigned char *der, int pos, int len) {
  if (len >= 128)
    der[pos++] = 0x81;
  der[pos++] = len;
  return pos;
}

static int
def_int(unsigned char *der, int pos, const unsigned char *num, int size, const struct num *c) {
  int pad = c->len == 0 || c->lo >= 128;

  der[pos++] = 0x02;
  der[pos++] = c->len + pad; /* at most 67 */

  if (pad)
    der[pos++] = 0x00;

  memcpy(der + pos, num + size - c->len, c->len);

  return pos + c->len;
}

static int
def_sig(unsigned char *der, const unsigned char *sig, int size, const struct num *r, const struct num *s, int *rpos, int *spos) {
  int rl = 2 + r->len + (r->len == 0 || r->lo >= 128);
  int sl = 2 + s->len + (s->len == 0 || s->lo >= 128);
  int pos = 0;

  der[pos++] = 0x30;
  pos = def_len(der, pos, rl + sl);
  *rpos = pos;
  pos = def_int(der, pos, sig, size, r);
  *spos = pos;
  return def_int(der, pos, sig + size, size, s);
}

/* ---- checks ---- */

static void
exact(const wei_t *ec, const unsigned char *N, const struct num *r, const struct num *s) {
  unsigned char sig[MAX_SCALAR_SIZE * 2], der[160], out[160], back[MAX_SCALAR_SIZE * 2];
  int size = ec->sc.size;
  size_t out_len = 0;
  int len, rp, sp, ok;

  put_num(sig, N, size, r);
  put_num(sig + size, N, size, s);
  len = def_sig(der, sig, size, r, s, &rp, &sp);

  ok = ecdsa_sig_export(ec, out, &out_len, sig);
  __tv_assert(ok == 1, "valid signature encoded");
  __tv_assert(out_len == (size_t)len, "length of the encoding");
  __tv_same(out, der, len, "encoding");

  ok = ecdsa_sig_import(ec, back, der, len);
  __tv_assert(ok == 1, "canonical encoding accepted");
  __tv_same(back, sig, size * 2, "decoded signature");

  ok = ecdsa_sig_import_lax(ec, back, der, len);
  __tv_assert(ok == 1, "canonical encoding accepted by the lax decoder");
  __tv_same(back, sig, size * 2, "signature decoded by the lax decoder");
}

static void
refused(const wei_t *ec, const unsigned char *der, int len, const char *what) {
  unsigned char back[MAX_SCALAR_SIZE * 2];
  __tv_assert(ecdsa_sig_import(ec, back, der, len) == 0, what);
}

static void
set_range(unsigned char *p, int lo, int hi) {
  *p = (unsigned char)__tv_range(lo, hi);
}

static void
strict(const wei_t *ec, const unsigned char *N, const struct num *r, const struct num *s) {
  unsigned char sig[MAX_SCALAR_SIZE * 2], der[160], t[170];
  int size = ec->sc.size;
  int len, rp, sp, i, hdr, body;

  put_num(sig, N, size, r);
  put_num(sig + size, N, size, s);
  len = def_sig(der, sig, size, r, s, &rp, &sp);
  hdr = rp;
  body = len - hdr;

#define FRESH() do { __tv_unknown(t, sizeof(t)); memcpy(t, der, len); } while (0)

  for (i = 0; i < len; i++) {
    FRESH();
    refused(ec, t, i, "truncated encoding refused");
  }

  for (i = 1; i < 4; i++) {
    FRESH();
    refused(ec, t, len + i, "trailing bytes refused");
    if (body + i < 128) {
      t[1] = body + i;
      refused(ec, t, len + i, "trailing bytes inside the sequence refused");
    }
  }

  FRESH(); set_range(t, 0x00, 0x2f);
  refused(ec, t, len, "wrong sequence tag refused");
  FRESH(); set_range(t, 0x31, 0xff);
  refused(ec, t, len, "wrong sequence tag refused");

  /* sequence length */
  if (body < 128) {
    FRESH(); set_range(t + 1, 0, body - 1);
    refused(ec, t, len, "wrong sequence length refused");
    if (body < 127) {
      FRESH(); set_range(t + 1, body + 1, 0x7f);
      refused(ec, t, len, "wrong sequence length refused");
    }
    FRESH(); t[1] = 0x80;
    refused(ec, t, len, "indefinite length refused");

    /* every longer form of the right length */
    for (i = 1; i <= 4; i++) {
      FRESH();
      t[1] = 0x80 + i;
      memset(t + 2, 0, i);
      t[1 + i] = body;
      memcpy(t + 2 + i, der + hdr, body);
      refused(ec, t, len + i, "longer form of the length refused");
    }
  } else {
    FRESH(); set_range(t + 1, 0, 0x7f);
    refused(ec, t, len, "wrong sequence length refused");
    FRESH(); t[1] = 0x80;
    refused(ec, t, len, "indefinite length refused");
    FRESH(); set_range(t + 2, 0, body - 1);
    refused(ec, t, len, "wrong sequence length refused");
    if (body < 255) {
      FRESH(); set_range(t + 2, body + 1, 255);
      refused(ec, t, len, "wrong sequence length refused");
    }

    for (i = 2; i <= 4; i++) {
      FRESH();
      t[1] = 0x80 + i;
      memset(t + 2, 0, i);
      t[1 + i] = body;
      memcpy(t + 2 + i, der + hdr, body);
      refused(ec, t, len + i - 1, "longer form of the length refused");
    }
  }

  /* the two integers */
  for (i = 0; i < 2; i++) {
    int at = i ? sp : rp;
    int n = der[at + 1];
    int rest = len - (at + 2);

    FRESH(); set_range(t + at, 0x00, 0x01);
    refused(ec, t, len, "wrong integer tag refused");
    FRESH(); set_range(t + at, 0x03, 0xff);
    refused(ec, t, len, "wrong integer tag refused");

    FRESH(); t[at + 1] = 0;
    refused(ec, t, len, "empty integer refused");

    if (rest < 0x7f) {
      FRESH(); set_range(t + at + 1, rest + 1, 0x7f);
      refused(ec, t, len, "integer past the end refused");
    }

    FRESH(); t[at + 1] = 0x80;
    refused(ec, t, len, "indefinite length refused");

    FRESH(); set_range(t + at + 2, 0x80, 0xff);
    refused(ec, t, len, "negative integer refused");

    if (n > 1) {
      FRESH(); t[at + 2] = 0; set_range(t + at + 3, 0, 127);
      refused(ec, t, len, "padded integer refused");
    }

    if (i == 1 && n > 1) {
      FRESH(); set_range(t + at + 1, 1, n - 1);
      refused(ec, t, len, "short last integer refused");
    }

    /* a longer form of this length, everything else right */
    if (body + 1 < 128) {
      FRESH();
      t[1] = body + 1;
      t[at + 1] = 0x81;
      t[at + 2] = n;
      memcpy(t + at + 3, der + at + 2, rest);
      refused(ec, t, len + 1, "longer form of the length refused");
    }
  }
}

static void
der_wei(int type) {
  wei_t *ec = wei_curve_create(type);
  int size = ec->sc.size;
  unsigned char N[MAX_SCALAR_SIZE];
  struct num few[5];
  int i, j, n = 0;

  limbs_be(N, size, ec->sc.n, ec->sc.limbs);
  make_classes(N, size);

  few[n++] = classes[0];
  few[n++] = classes[1];
  few[n++] = classes[2];
  few[n++] = classes[size];
  few[n++] = classes[nclasses - 1];

  P("canonical encodings");

  for (i = 0; i < nclasses; i++) {
    for (j = 0; j < n; j++) {
      exact(ec, N, &classes[i], &few[j]);
      exact(ec, N, &few[j], &classes[i]);
    }
  }

  P("other encodings");

  for (i = 0; i < n; i++)
    for (j = 0; j < n; j++)
      strict(ec, N, &few[i], &few[j]);

  /* every total length */
  for (i = 0; i < size * 2; i++) {
    strict(ec, N, &classes[i], &classes[i]);
    if (i > 0)
      strict(ec, N, &classes[i], &classes[i - 1]);
  }

  P("numbers out of range");

  for (i = 0; i < 2; i++) {
    for (j = -1; j < size; j++) {
      unsigned char big[MAX_SCALAR_SIZE], der[160];
      int pos = 0, pad, len;

      if (!set_class(big, N, size, 1, j < 0 ? 0 : 1, j < 0 ? 0 : j))
        continue;

      /* with the sign bit it would be negative, which is refused anyway */
      if (j == 0 && N[0] < 127)
        set_range(big, N[0] + 1, 127);

      pad = N[0] >= 128;
      len = 2 + size + pad + 3;
      __tv_unknown(der, sizeof(der));
      der[pos++] = 0x30;
      pos = def_len(der, pos, len);
      if (i) { der[pos++] = 2; der[pos++] = 1; der[pos++] = 1; }
      der[pos++] = 0x02;
      der[pos++] = size + pad;
      if (pad)
        der[pos++] = 0;
      memcpy(der + pos, big, size);
      pos += size;
      if (!i) { der[pos++] = 2; der[pos++] = 1; der[pos++] = 1; }
      refused(ec, der, pos, "number not below the order refused");
    }

    /* too many bytes */
    {
      unsigned char der[160];
      int pos = 0, k;
      for (k = size + 1; k < size + 4; k++) {
        __tv_unknown(der, sizeof(der));
        pos = 0;
        der[pos++] = 0x30;
        pos = def_len(der, pos, 2 + k + 3);
        if (i) { der[pos++] = 2; der[pos++] = 1; der[pos++] = 1; }
        der[pos++] = 0x02;
        der[pos++] = k;
        set_range(der + pos, 1, 255);
        pos += k;
        if (!i) { der[pos++] = 2; der[pos++] = 1; der[pos++] = 1; }
        refused(ec, der, pos, "too many bytes refused");
      }
    }
  }
}

#define E(n, t) void tv_der_##n(void) { der_wei(t); }
E(p192, WEI_CURVE_P192) E(p224, WEI_CURVE_P224) E(p256, WEI_CURVE_P256)
E(p384, WEI_CURVE_P384) E(p521, WEI_CURVE_P521) E(secp256k1, WEI_CURVE_SECP256K1)
