/* Entry points for the elliptic-curve API, one per curve and group. */
#include "tv.h"
#include <torsion/ecc.h>
#include "contracts.h"

#define P(n) __tv_phase(n)

static unsigned char *
sec(size_t n) { /* secret input of exactly n bytes */
  unsigned char *p = __tv_newbuf(n);
  __tv_secret(p, n);
  return p;
}

static unsigned char *
pubin(size_t n) { /* public input of exactly n bytes */
  unsigned char *p = __tv_newbuf(n);
  __tv_unknown(p, n);
  return p;
}

static unsigned char *
outb(size_t n) { /* uninitialised output of exactly n bytes */
  unsigned char *p = __tv_newbuf(n);
  __tv_uninit(p, n);
  return p;
}

static int
any(void) {
  return (int)__tv_range(0, 1);
}

#define OK(p, n, name) __tv_expect_init(p, n, name)

static int
check1(const unsigned char *pub, size_t pub_len, void *arg) {
  (void)pub; (void)pub_len; (void)arg;
  return any();
}

static int
check2(const unsigned char *pub, void *arg) {
  (void)pub; (void)arg;
  return any();
}

#define NO_CHECKSUM ((ecdsa_redefine_f *)__tv_declassify)

/* ---- secret operations: timing and erasure ------------------------------ */

static struct { unsigned char *p; size_t n; } pend[8];
static int npend;

static unsigned char *
outs(size_t n) { /* must be written by the operation of the current phase */
  pend[npend].p = outb(n);
  pend[npend].n = n;
  return pend[npend++].p;
}

static void
flush(void) {
  while (npend > 0) {
    npend--;
    OK(pend[npend].p, pend[npend].n, "output");
  }
}

#define PS(name) (flush(), P(name))
#define V(call) do { int r_ = (call); OK(&r_, sizeof(r_), "verdict"); } while (0)

static void
wei_secret(const wei_curve_t *ec, int schnorr) {
  size_t ps = ecdsa_privkey_size(ec);
  size_t fs = wei_curve_field_size(ec);
  size_t gs = ecdsa_sig_size(ec);
  unsigned char *msg = pubin(32);
  unsigned char *pub = pubin(1 + fs);
  unsigned char *pubu = pubin(1 + 2 * fs);
  size_t len;
  unsigned int param;

  PS("ecdsa_privkey_verify");
  V(ecdsa_privkey_verify(ec, sec(ps)));
  PS("ecdsa_privkey_export");
  V(ecdsa_privkey_export(ec, outs(ps), sec(ps)));
  PS("ecdsa_privkey_import");
  V(ecdsa_privkey_import(ec, outs(ps), sec(ps), ps));
  PS("ecdsa_privkey_tweak_add");
  V(ecdsa_privkey_tweak_add(ec, outs(ps), sec(ps), sec(ps)));
  PS("ecdsa_privkey_tweak_mul");
  V(ecdsa_privkey_tweak_mul(ec, outs(ps), sec(ps), sec(ps)));
  PS("ecdsa_privkey_negate");
  V(ecdsa_privkey_negate(ec, outs(ps), sec(ps)));
  PS("ecdsa_privkey_invert");
  V(ecdsa_privkey_invert(ec, outs(ps), sec(ps)));
  PS("ecdsa_pubkey_create");
  V(ecdsa_pubkey_create(ec, outs(1 + fs), &len, sec(ps), 1));
  V(ecdsa_pubkey_create(ec, outs(1 + 2 * fs), &len, sec(ps), 0));
  PS("ecdsa_sign");
  V(ecdsa_sign_internal(ec, outs(gs), &param, msg, 32, sec(ps), NO_CHECKSUM));
  PS("ecdsa_derive");
  V(ecdsa_derive(ec, outs(1 + fs), &len, pub, 1 + fs, sec(ps), 1));
  V(ecdsa_derive(ec, outs(1 + 2 * fs), &len, pubu, 1 + 2 * fs, sec(ps), 0));

  if (schnorr) {
    PS("bipschnorr_sign");
    V(bipschnorr_sign(ec, outs(fs + ps), msg, 32, sec(ps)));
  }

  PS("bip340_privkey_verify");
  V(bip340_privkey_verify(ec, sec(ps)));
  PS("bip340_privkey_export");
  V(bip340_privkey_export(ec, outs(ps), outs(fs), outs(fs), sec(ps)));
  PS("bip340_privkey_import");
  V(bip340_privkey_import(ec, outs(ps), sec(ps), ps));
  PS("bip340_privkey_tweak_add");
  V(bip340_privkey_tweak_add(ec, outs(ps), sec(ps), sec(ps)));
  PS("bip340_privkey_tweak_mul");
  V(bip340_privkey_tweak_mul(ec, outs(ps), sec(ps), sec(ps)));
  PS("bip340_privkey_invert");
  V(bip340_privkey_invert(ec, outs(ps), sec(ps)));
  PS("bip340_pubkey_create");
  V(bip340_pubkey_create(ec, outs(fs), sec(ps)));
  if (schnorr) {
    PS("bip340_sign");
    V(bip340_sign(ec, outs(fs + ps), msg, 32, sec(ps), sec(32)));
    V(bip340_sign(ec, outs(fs + ps), msg, 32, sec(ps), NULL));
  }
  PS("bip340_derive");
  V(bip340_derive(ec, outs(fs), pubin(fs), sec(ps)));
  PS("");
}

static void
mont_secret(const mont_curve_t *ec) {
  size_t ps = ecdh_privkey_size(ec);
  size_t fs = ecdh_pubkey_size(ec);

  PS("ecdh_privkey_verify");
  V(ecdh_privkey_verify(ec, sec(ps)));
  PS("ecdh_privkey_export");
  V(ecdh_privkey_export(ec, outs(ps), sec(ps)));
  PS("ecdh_privkey_import");
  V(ecdh_privkey_import(ec, outs(ps), sec(ps), ps));
  PS("ecdh_pubkey_create");
  ecdh_pubkey_create(ec, outs(fs), sec(ps));
  PS("ecdh_derive");
  V(ecdh_derive(ec, outs(fs), pubin(fs), sec(ps)));
  PS("");
}

static void
edwards_secret(const edwards_curve_t *ec) {
  size_t ps = eddsa_privkey_size(ec);
  size_t ss = edwards_curve_scalar_size(ec);
  size_t pp = eddsa_pubkey_size(ec);
  size_t gs = eddsa_sig_size(ec);
  unsigned char *msg = pubin(32);
  unsigned char *ctx = pubin(8);

  PS("eddsa_privkey_expand");
  eddsa_privkey_expand(ec, outs(ss), outs(pp), sec(ps));
  PS("eddsa_privkey_convert");
  eddsa_privkey_convert(ec, outs(ss), sec(ps));
  PS("eddsa_privkey_verify");
  V(eddsa_privkey_verify(ec, sec(ps)));
  PS("eddsa_privkey_export");
  V(eddsa_privkey_export(ec, outs(ps), sec(ps)));
  PS("eddsa_privkey_import");
  V(eddsa_privkey_import(ec, outs(ps), sec(ps), ps));
  PS("eddsa_scalar_verify");
  V(eddsa_scalar_verify(ec, sec(ss)));
  PS("eddsa_scalar_is_zero");
  V(eddsa_scalar_is_zero(ec, sec(ss)));
  PS("eddsa_scalar_clamp");
  eddsa_scalar_clamp(ec, outs(ss), sec(ss));
  PS("eddsa_scalar_tweak_add");
  eddsa_scalar_tweak_add(ec, outs(ss), sec(ss), sec(ss));
  PS("eddsa_scalar_tweak_mul");
  eddsa_scalar_tweak_mul(ec, outs(ss), sec(ss), sec(ss));
  PS("eddsa_scalar_reduce");
  eddsa_scalar_reduce(ec, outs(ss), sec(ss));
  PS("eddsa_scalar_negate");
  eddsa_scalar_negate(ec, outs(ss), sec(ss));
  PS("eddsa_scalar_invert");
  eddsa_scalar_invert(ec, outs(ss), sec(ss));
  PS("eddsa_pubkey_from_scalar");
  eddsa_pubkey_from_scalar(ec, outs(pp), sec(ss));
  PS("eddsa_pubkey_create");
  eddsa_pubkey_create(ec, outs(pp), sec(ps));
  PS("eddsa_sign_with_scalar");
  eddsa_sign_with_scalar(ec, outs(gs), msg, 32, sec(ss), sec(pp), 0, ctx, 8);
  PS("eddsa_sign");
  eddsa_sign(ec, outs(gs), msg, 32, sec(ps), 0, ctx, 8);
  eddsa_sign(ec, outs(gs), msg, 32, sec(ps), -1, NULL, 0);
  PS("eddsa_sign_tweak_add");
  eddsa_sign_tweak_add(ec, outs(gs), msg, 32, sec(ps), sec(ss), 0, ctx, 8);
  PS("eddsa_sign_tweak_mul");
  eddsa_sign_tweak_mul(ec, outs(gs), msg, 32, sec(ps), sec(ss), 0, ctx, 8);
  PS("eddsa_derive_with_scalar");
  V(eddsa_derive_with_scalar(ec, outs(pp), pubin(pp), sec(ss)));
  PS("eddsa_derive");
  V(eddsa_derive(ec, outs(pp), pubin(pp), sec(ps)));
  PS("");
}

static void
ristretto_secret(const edwards_curve_t *ec) {
  size_t ps = ristretto_privkey_size(ec);
  size_t pp = ristretto_pubkey_size(ec);

  PS("ristretto_privkey_from_uniform");
  ristretto_privkey_from_uniform(ec, outs(ps), sec(2 * ps));
  PS("ristretto_privkey_verify");
  V(ristretto_privkey_verify(ec, sec(ps)));
  PS("ristretto_privkey_is_zero");
  V(ristretto_privkey_is_zero(ec, sec(ps)));
  PS("ristretto_privkey_export");
  V(ristretto_privkey_export(ec, outs(ps), sec(ps)));
  PS("ristretto_privkey_import");
  V(ristretto_privkey_import(ec, outs(ps), sec(ps), ps));
  PS("ristretto_privkey_tweak_add");
  V(ristretto_privkey_tweak_add(ec, outs(ps), sec(ps), sec(ps)));
  PS("ristretto_privkey_tweak_mul");
  V(ristretto_privkey_tweak_mul(ec, outs(ps), sec(ps), sec(ps)));
  PS("ristretto_privkey_negate");
  V(ristretto_privkey_negate(ec, outs(ps), sec(ps)));
  PS("ristretto_privkey_invert");
  V(ristretto_privkey_invert(ec, outs(ps), sec(ps)));
  PS("ristretto_pubkey_create");
  V(ristretto_pubkey_create(ec, outs(pp), sec(ps)));
  PS("ristretto_derive");
  V(ristretto_derive(ec, outs(pp), pubin(pp), sec(ps)));
  PS("");
}

/* ---- public operations: keys, encodings, hashing to curves, verification - */

static void
wei_public(const wei_curve_t *ec, int part) {
  size_t ps = ecdsa_privkey_size(ec);
  size_t fs = wei_curve_field_size(ec);
  size_t gs = ecdsa_sig_size(ec);
  size_t ms = 1 + 2 * fs;
  unsigned char *msg = pubin(32);
  unsigned char *o;
  size_t len, i;
  int form, compact, neg;

  if (part == 0) {
    P("ecdsa_privkey_generate");
    o = outb(ps);
    ecdsa_privkey_generate(ec, o, pubin(32));
    OK(o, ps, "ecdsa_privkey_generate");
    P("ecdsa_privkey_grind");
    o = outb(ps);
    ecdsa_privkey_grind(ec, o, pubin(32), any(), check1, NULL);
    OK(o, ps, "ecdsa_privkey_grind");
    P("bip340_privkey_generate");
    o = outb(ps);
    bip340_privkey_generate(ec, o, pubin(32));
    OK(o, ps, "bip340_privkey_generate");
    P("bip340_privkey_grind");
    o = outb(ps);
    bip340_privkey_grind(ec, o, pubin(32), check2, NULL);
    OK(o, ps, "bip340_privkey_grind");
    for (i = 0; i <= ps + 1; i += (i == 0 ? 1 : ps - 2 < i ? 1 : ps - 2)) {
      P("ecdsa_privkey_import");
      o = outb(ps);
      if (ecdsa_privkey_import(ec, o, pubin(i), i))
        OK(o, ps, "ecdsa_privkey_import");
      P("bip340_privkey_import");
      o = outb(ps);
      if (bip340_privkey_import(ec, o, pubin(i), i))
        OK(o, ps, "bip340_privkey_import");
    }
    for (i = 0; i < 3; i++) {
      size_t xl = i == 0 ? fs : i == 1 ? fs - 1 : fs + 1;
      P("ecdsa_pubkey_import");
      for (compact = 0; compact < 2; compact++) {
        o = outb(compact ? 1 + fs : ms);
        if (ecdsa_pubkey_import(ec, o, &len, pubin(xl), xl, pubin(fs), fs, any(), compact))
          OK(o, compact ? 1 + fs : ms, "ecdsa_pubkey_import");
        o = outb(compact ? 1 + fs : ms);
        if (ecdsa_pubkey_import(ec, o, &len, pubin(xl), xl, NULL, 0, any(), compact))
          OK(o, compact ? 1 + fs : ms, "ecdsa_pubkey_import");
      }
      P("bip340_pubkey_import");
      o = outb(fs);
      if (bip340_pubkey_import(ec, o, pubin(xl), xl, pubin(fs), fs))
        OK(o, fs, "bip340_pubkey_import");
      o = outb(fs);
      if (bip340_pubkey_import(ec, o, pubin(xl), xl, NULL, 0))
        OK(o, fs, "bip340_pubkey_import");
    }
    P("ecdsa_sig_export");
    o = outb(9 + 2 * (1 + ps));
    if (ecdsa_sig_export(ec, o, &len, pubin(gs)))
      ;
    P("ecdsa_sig_normalize");
    o = outb(gs);
    if (ecdsa_sig_normalize(ec, o, pubin(gs)))
      OK(o, gs, "ecdsa_sig_normalize");
    P("ecdsa_is_low_s");
    ecdsa_is_low_s(ec, pubin(gs));
    return;
  }

  if (part == 1) {
    for (form = 0; form < 2; form++) {
      size_t pl = form ? 1 + fs : ms;
      unsigned char *pub = pubin(pl);
      P("ecdsa_pubkey_verify");
      ecdsa_pubkey_verify(ec, pub, pl);
      ecdsa_pubkey_verify(ec, pubin(pl - 1), pl - 1);
      ecdsa_pubkey_verify(ec, pubin(pl + 1), pl + 1);
      ecdsa_pubkey_verify(ec, pubin(0), 0);
      P("ecdsa_pubkey_export");
      o = outb(2 * fs);
      if (ecdsa_pubkey_export(ec, o, o + fs, pub, pl))
        OK(o, 2 * fs, "ecdsa_pubkey_export");
      P("ecdsa_pubkey_to_uniform");
      o = outb(fs);
      if (ecdsa_pubkey_to_uniform(ec, o, pub, pl, (unsigned int)__tv_range(0, 0xffffffff)))
        OK(o, fs, "ecdsa_pubkey_to_uniform");
      for (compact = 0; compact < 2; compact++) {
        size_t ol = compact ? 1 + fs : ms;
        P("ecdsa_pubkey_convert");
        o = outb(ol);
        if (ecdsa_pubkey_convert(ec, o, &len, pub, pl, compact))
          OK(o, ol, "ecdsa_pubkey_convert");
        P("ecdsa_pubkey_tweak_add");
        o = outb(ol);
        if (ecdsa_pubkey_tweak_add(ec, o, &len, pub, pl, pubin(ps), compact))
          OK(o, ol, "ecdsa_pubkey_tweak_add");
        P("ecdsa_pubkey_tweak_mul");
        o = outb(ol);
        if (ecdsa_pubkey_tweak_mul(ec, o, &len, pub, pl, pubin(ps), compact))
          OK(o, ol, "ecdsa_pubkey_tweak_mul");
        P("ecdsa_pubkey_add");
        o = outb(ol);
        if (ecdsa_pubkey_add(ec, o, &len, pub, pl, pubin(pl), pl, compact))
          OK(o, ol, "ecdsa_pubkey_add");
        P("ecdsa_pubkey_combine");
        o = outb(ol);
        {
          const unsigned char *pubs[3];
          size_t lens[3];
          for (i = 0; i < 3; i++) {
            pubs[i] = pubin(pl);
            lens[i] = pl;
          }
          if (ecdsa_pubkey_combine(ec, o, &len, pubs, lens, 3, compact))
            OK(o, ol, "ecdsa_pubkey_combine");
          o = outb(ol);
          if (ecdsa_pubkey_combine(ec, o, &len, pubs, lens, 0, compact))
            OK(o, ol, "ecdsa_pubkey_combine of nothing");
        }
        P("ecdsa_pubkey_negate");
        o = outb(ol);
        if (ecdsa_pubkey_negate(ec, o, &len, pub, pl, compact))
          OK(o, ol, "ecdsa_pubkey_negate");
      }
    }
    P("ecdsa_pubkey_grind");
    o = outb(ps);
    if (ecdsa_pubkey_grind(ec, o, pubin(1 + fs), 1 + fs, check1, NULL))
      OK(o, ps, "ecdsa_pubkey_grind");
    return;
  }

  if (part == 2) {
    for (compact = 0; compact < 2; compact++) {
      size_t ol = compact ? 1 + fs : ms;
      P("ecdsa_pubkey_from_uniform");
      o = outb(ol);
      ecdsa_pubkey_from_uniform(ec, o, &len, pubin(fs), compact);
      OK(o, ol, "ecdsa_pubkey_from_uniform");
      P("ecdsa_pubkey_from_hash");
      o = outb(ol);
      if (ecdsa_pubkey_from_hash(ec, o, &len, pubin(fs * 2), compact))
        OK(o, ol, "ecdsa_pubkey_from_hash");
    }
    P("ecdsa_pubkey_to_hash");
    o = outb(fs * 2);
    if (ecdsa_pubkey_to_hash(ec, o, pubin(1 + fs), 1 + fs, any(), pubin(32)))
      OK(o, fs * 2, "ecdsa_pubkey_to_hash");
    P("bip340_pubkey_from_uniform");
    o = outb(fs);
    bip340_pubkey_from_uniform(ec, o, pubin(fs));
    OK(o, fs, "bip340_pubkey_from_uniform");
    P("bip340_pubkey_from_hash");
    o = outb(fs);
    if (bip340_pubkey_from_hash(ec, o, pubin(fs * 2)))
      OK(o, fs, "bip340_pubkey_from_hash");
    P("bip340_pubkey_to_hash");
    o = outb(fs * 2);
    if (bip340_pubkey_to_hash(ec, o, pubin(fs), any(), pubin(32)))
      OK(o, fs * 2, "bip340_pubkey_to_hash");
    return;
  }

  if (part == 3) {
    unsigned char *pub = pubin(fs);
    P("bip340_pubkey_grind");
    o = outb(ps);
    if (bip340_pubkey_grind(ec, o, pub, check2, NULL))
      OK(o, ps, "bip340_pubkey_grind");
    P("bip340_pubkey_to_uniform");
    o = outb(fs);
    if (bip340_pubkey_to_uniform(ec, o, pub, (unsigned int)__tv_range(0, 0xffffffff)))
      OK(o, fs, "bip340_pubkey_to_uniform");
    P("bip340_pubkey_verify");
    bip340_pubkey_verify(ec, pub);
    P("bip340_pubkey_export");
    o = outb(fs * 2);
    if (bip340_pubkey_export(ec, o, o + fs, pub))
      OK(o, fs * 2, "bip340_pubkey_export");
    P("bip340_pubkey_tweak_add");
    o = outb(fs);
    if (bip340_pubkey_tweak_add(ec, o, &neg, pub, pubin(ps))) {
      OK(o, fs, "bip340_pubkey_tweak_add");
      OK(&neg, sizeof(neg), "bip340_pubkey_tweak_add");
    }
    P("bip340_pubkey_tweak_add_check");
    bip340_pubkey_tweak_add_check(ec, pub, pubin(ps), pubin(fs), any());
    P("bip340_pubkey_tweak_mul");
    o = outb(fs);
    if (bip340_pubkey_tweak_mul(ec, o, &neg, pub, pubin(ps))) {
      OK(o, fs, "bip340_pubkey_tweak_mul");
      OK(&neg, sizeof(neg), "bip340_pubkey_tweak_mul");
    }
    P("bip340_pubkey_tweak_mul_check");
    bip340_pubkey_tweak_mul_check(ec, pub, pubin(ps), pubin(fs), any());
    P("bip340_pubkey_add");
    o = outb(fs);
    if (bip340_pubkey_add(ec, o, pub, pubin(fs)))
      OK(o, fs, "bip340_pubkey_add");
    P("bip340_pubkey_combine");
    o = outb(fs);
    {
      const unsigned char *pubs[3];
      for (i = 0; i < 3; i++)
        pubs[i] = pubin(fs);
      if (bip340_pubkey_combine(ec, o, pubs, 3))
        OK(o, fs, "bip340_pubkey_combine");
    }
    return;
  }

  P("ecdsa_verify");
  ecdsa_verify(ec, msg, 32, pubin(gs), pubin(1 + fs), 1 + fs);
  ecdsa_verify(ec, pubin(80), 80, pubin(gs), pubin(ms), ms);
  ecdsa_verify(ec, pubin(0), 0, pubin(gs), pubin(ms), ms);
  P("ecdsa_recover");
  o = outb(1 + fs);
  if (ecdsa_recover(ec, o, &len, msg, 32, pubin(gs), (unsigned int)__tv_range(0, 0xffffffff), 1))
    OK(o, 1 + fs, "ecdsa_recover");
}

static void
wei_schnorr(const wei_curve_t *ec) {
  size_t fs = wei_curve_field_size(ec);
  size_t gs = bip340_sig_size(ec);
  unsigned char *msg = pubin(32);
  const unsigned char *msgs[3], *sigs[3], *pubs[3];
  size_t msg_lens[3], pub_lens[3], i;
  wei_scratch_t *scratch;

  P("bipschnorr_verify");
  bipschnorr_verify(ec, msg, 32, pubin(gs), pubin(1 + fs), 1 + fs);
  P("bip340_verify");
  bip340_verify(ec, msg, 32, pubin(gs), pubin(fs));

  for (i = 0; i < 3; i++) {
    msgs[i] = pubin(32 + i);
    msg_lens[i] = 32 + i;
    sigs[i] = pubin(gs);
    pubs[i] = pubin(1 + fs);
    pub_lens[i] = 1 + fs;
  }
  P("bipschnorr_verify_batch");
  scratch = wei_scratch_create(ec, 2);
  bipschnorr_verify_batch(ec, msgs, msg_lens, sigs, pubs, pub_lens, 3, scratch);
  bipschnorr_verify_batch(ec, msgs, msg_lens, sigs, pubs, pub_lens, 0, scratch);
  P("bip340_verify_batch");
  for (i = 0; i < 3; i++)
    pubs[i] = pubin(fs);
  bip340_verify_batch(ec, msgs, msg_lens, sigs, pubs, 3, scratch);
  wei_scratch_destroy(ec, scratch);
}

static void
mont_public(const mont_curve_t *ec) {
  size_t ps = ecdh_privkey_size(ec);
  size_t fs = ecdh_pubkey_size(ec);
  size_t i;
  unsigned char *o;
  unsigned char *pub = pubin(fs);

  P("ecdh_privkey_generate");
  o = outb(ps);
  ecdh_privkey_generate(ec, o, pubin(ps));
  OK(o, ps, "ecdh_privkey_generate");
  P("ecdh_privkey_grind");
  o = outb(ps);
  ecdh_privkey_grind(ec, o, pubin(32), check2, NULL);
  OK(o, ps, "ecdh_privkey_grind");
  P("ecdh_pubkey_convert");
  o = outb(1 + fs);
  if (ecdh_pubkey_convert(ec, o, pub, any()))
    OK(o, fs, "ecdh_pubkey_convert");
  P("ecdh_pubkey_from_uniform");
  o = outb(fs);
  ecdh_pubkey_from_uniform(ec, o, pubin(fs));
  OK(o, fs, "ecdh_pubkey_from_uniform");
  P("ecdh_pubkey_to_uniform");
  o = outb(fs);
  if (ecdh_pubkey_to_uniform(ec, o, pub, (unsigned int)__tv_range(0, 0xffffffff)))
    OK(o, fs, "ecdh_pubkey_to_uniform");
  P("ecdh_pubkey_from_hash");
  o = outb(fs);
  if (ecdh_pubkey_from_hash(ec, o, pubin(fs * 2), any()))
    OK(o, fs, "ecdh_pubkey_from_hash");
  P("ecdh_pubkey_to_hash");
  o = outb(fs * 2);
  if (ecdh_pubkey_to_hash(ec, o, pub, any(), pubin(32)))
    OK(o, fs * 2, "ecdh_pubkey_to_hash");
  P("ecdh_pubkey_verify");
  ecdh_pubkey_verify(ec, pub);
  P("ecdh_pubkey_export");
  o = outb(fs * 2);
  if (ecdh_pubkey_export(ec, o, o + fs, pub, any()))
    OK(o, fs * 2, "ecdh_pubkey_export");
  P("ecdh_pubkey_import");
  for (i = 0; i < 3; i++) {
    size_t xl = i == 0 ? fs : i == 1 ? fs - 1 : fs + 1;
    o = outb(fs);
    if (ecdh_pubkey_import(ec, o, pubin(xl), xl, pubin(fs), fs))
      OK(o, fs, "ecdh_pubkey_import");
    o = outb(fs);
    if (ecdh_pubkey_import(ec, o, pubin(xl), xl, NULL, 0))
      OK(o, fs, "ecdh_pubkey_import");
  }
  P("ecdh_pubkey_is_small");
  ecdh_pubkey_is_small(ec, pub);
  P("ecdh_pubkey_has_torsion");
  ecdh_pubkey_has_torsion(ec, pub);
}

static void
edwards_public(const edwards_curve_t *ec, int part) {
  size_t ps = eddsa_privkey_size(ec);
  size_t ss = edwards_curve_scalar_size(ec);
  size_t fs = edwards_curve_field_size(ec);
  size_t pp = eddsa_pubkey_size(ec);
  size_t gs = eddsa_sig_size(ec);
  unsigned char *msg = pubin(32);
  unsigned char *ctx = pubin(8);
  unsigned char *pub = pubin(pp);
  unsigned char *o;
  const unsigned char *pubs[3], *msgs[3], *sigs[3];
  size_t msg_lens[3], i;

  for (i = 0; i < 3; i++) {
    msgs[i] = pubin(32 + i);
    msg_lens[i] = 32 + i;
    sigs[i] = pubin(gs);
    pubs[i] = pubin(pp);
  }

  if (part == 0) {
    P("eddsa_privkey_generate");
    o = outb(ps);
    eddsa_privkey_generate(ec, o, pubin(ps));
    OK(o, ps, "eddsa_privkey_generate");
    P("eddsa_privkey_grind");
    o = outb(ps);
    eddsa_privkey_grind(ec, o, pubin(32), check2, NULL);
    OK(o, ps, "eddsa_privkey_grind");
    P("eddsa_scalar_generate");
    o = outb(ss);
    eddsa_scalar_generate(ec, o, pubin(ps));
    OK(o, ss, "eddsa_scalar_generate");
    P("eddsa_scalar_grind");
    o = outb(ss);
    eddsa_scalar_grind(ec, o, pubin(32), check2, NULL);
    OK(o, ss, "eddsa_scalar_grind");
    P("eddsa_pubkey_convert");
    o = outb(fs);
    if (eddsa_pubkey_convert(ec, o, pub))
      OK(o, fs, "eddsa_pubkey_convert");
    P("eddsa_pubkey_from_uniform");
    o = outb(pp);
    eddsa_pubkey_from_uniform(ec, o, pubin(fs));
    OK(o, pp, "eddsa_pubkey_from_uniform");
    P("eddsa_pubkey_to_uniform");
    o = outb(fs);
    if (eddsa_pubkey_to_uniform(ec, o, pub, (unsigned int)__tv_range(0, 0xffffffff)))
      OK(o, fs, "eddsa_pubkey_to_uniform");
    P("eddsa_pubkey_from_hash");
    o = outb(pp);
    eddsa_pubkey_from_hash(ec, o, pubin(fs * 2), any());
    OK(o, pp, "eddsa_pubkey_from_hash");
    P("eddsa_pubkey_to_hash");
    o = outb(fs * 2);
    if (eddsa_pubkey_to_hash(ec, o, pub, any(), pubin(32)))
      OK(o, fs * 2, "eddsa_pubkey_to_hash");
    P("eddsa_pubkey_verify");
    eddsa_pubkey_verify(ec, pub);
    P("eddsa_pubkey_export");
    o = outb(fs * 2);
    if (eddsa_pubkey_export(ec, o, o + fs, pub))
      OK(o, fs * 2, "eddsa_pubkey_export");
    P("eddsa_pubkey_import");
    for (i = 0; i < 3; i++) {
      size_t xl = i == 0 ? fs : i == 1 ? fs - 1 : fs + 1;
      o = outb(pp);
      if (eddsa_pubkey_import(ec, o, pubin(xl), xl, pubin(fs), fs, any()))
        OK(o, pp, "eddsa_pubkey_import");
      o = outb(pp);
      if (eddsa_pubkey_import(ec, o, pubin(xl), xl, NULL, 0, any()))
        OK(o, pp, "eddsa_pubkey_import");
      o = outb(pp);
      if (eddsa_pubkey_import(ec, o, NULL, 0, pubin(xl), xl, any()))
        OK(o, pp, "eddsa_pubkey_import");
    }
    P("eddsa_pubkey_is_infinity");
    eddsa_pubkey_is_infinity(ec, pub);
    P("eddsa_pubkey_is_small");
    eddsa_pubkey_is_small(ec, pub);
    P("eddsa_pubkey_has_torsion");
    eddsa_pubkey_has_torsion(ec, pub);
    return;
  }

  if (part == 1) {
    P("eddsa_pubkey_tweak_add");
    o = outb(pp);
    if (eddsa_pubkey_tweak_add(ec, o, pub, pubin(ss)))
      OK(o, pp, "eddsa_pubkey_tweak_add");
    P("eddsa_pubkey_tweak_mul");
    o = outb(pp);
    if (eddsa_pubkey_tweak_mul(ec, o, pub, pubin(ss)))
      OK(o, pp, "eddsa_pubkey_tweak_mul");
    P("eddsa_pubkey_add");
    o = outb(pp);
    if (eddsa_pubkey_add(ec, o, pub, pubin(pp)))
      OK(o, pp, "eddsa_pubkey_add");
    P("eddsa_pubkey_combine");
    o = outb(pp);
    if (eddsa_pubkey_combine(ec, o, pubs, 3))
      OK(o, pp, "eddsa_pubkey_combine");
    P("eddsa_pubkey_negate");
    o = outb(pp);
    if (eddsa_pubkey_negate(ec, o, pub))
      OK(o, pp, "eddsa_pubkey_negate");
    P("eddsa_verify");
    eddsa_verify(ec, msg, 32, pubin(gs), pub, 0, ctx, 8);
    P("eddsa_verify_single");
    eddsa_verify_single(ec, msg, 32, pubin(gs), pub, -1, NULL, 0);
    return;
  }

  if (part == 2) {
    edwards_scratch_t *scratch = edwards_scratch_create(ec, 2);
    P("eddsa_verify_batch");
    eddsa_verify_batch(ec, msgs, msg_lens, sigs, pubs, 3, 0, ctx, 8, scratch);
    eddsa_verify_batch(ec, msgs, msg_lens, sigs, pubs, 0, 0, ctx, 8, scratch);
    edwards_scratch_destroy(ec, scratch);
    return;
  }

  ps = ristretto_privkey_size(ec);
  pp = ristretto_pubkey_size(ec);
  pub = pubin(pp);
  for (i = 0; i < 3; i++)
    pubs[i] = pubin(pp);
  P("ristretto_privkey_generate");
  o = outb(ps);
  ristretto_privkey_generate(ec, o, pubin(32));
  OK(o, ps, "ristretto_privkey_generate");
  P("ristretto_privkey_grind");
  o = outb(ps);
  ristretto_privkey_grind(ec, o, pubin(32), check2, NULL);
  OK(o, ps, "ristretto_privkey_grind");
  P("ristretto_pubkey_grind");
  o = outb(ps);
  if (ristretto_pubkey_grind(ec, o, pub, check2, NULL))
    OK(o, ps, "ristretto_pubkey_grind");
  P("ristretto_pubkey_from_uniform");
  o = outb(pp);
  ristretto_pubkey_from_uniform(ec, o, pubin(fs));
  OK(o, pp, "ristretto_pubkey_from_uniform");
  P("ristretto_pubkey_to_uniform");
  o = outb(fs);
  if (ristretto_pubkey_to_uniform(ec, o, pub, (unsigned int)__tv_range(0, 0xffffffff)))
    OK(o, fs, "ristretto_pubkey_to_uniform");
  P("ristretto_pubkey_from_hash");
  o = outb(pp);
  ristretto_pubkey_from_hash(ec, o, pubin(fs * 2));
  OK(o, pp, "ristretto_pubkey_from_hash");
  P("ristretto_pubkey_to_hash");
  o = outb(fs * 2);
  if (ristretto_pubkey_to_hash(ec, o, pub, pubin(32)))
    OK(o, fs * 2, "ristretto_pubkey_to_hash");
  P("ristretto_pubkey_verify");
  ristretto_pubkey_verify(ec, pub);
  P("ristretto_pubkey_is_infinity");
  ristretto_pubkey_is_infinity(ec, pub);
  P("ristretto_pubkey_tweak_add");
  o = outb(pp);
  if (ristretto_pubkey_tweak_add(ec, o, pub, pubin(ps)))
    OK(o, pp, "ristretto_pubkey_tweak_add");
  P("ristretto_pubkey_tweak_mul");
  o = outb(pp);
  if (ristretto_pubkey_tweak_mul(ec, o, pub, pubin(ps)))
    OK(o, pp, "ristretto_pubkey_tweak_mul");
  P("ristretto_pubkey_add");
  o = outb(pp);
  if (ristretto_pubkey_add(ec, o, pub, pubin(pp)))
    OK(o, pp, "ristretto_pubkey_add");
  P("ristretto_pubkey_combine");
  o = outb(pp);
  if (ristretto_pubkey_combine(ec, o, pubs, 3))
    OK(o, pp, "ristretto_pubkey_combine");
  P("ristretto_pubkey_negate");
  o = outb(pp);
  if (ristretto_pubkey_negate(ec, o, pub))
    OK(o, pp, "ristretto_pubkey_negate");
}

#define WEI(name, id, schnorr)                         \
int tv_ct_##name(void) {                               \
  wei_curve_t *ec;                                     \
  P("create");                                         \
  ec = wei_curve_create(id);                           \
  P("randomize");                                      \
  wei_curve_randomize(ec, pubin(32));                  \
  wei_secret(ec, schnorr);                             \
  wei_curve_destroy(ec);                               \
  return 0;                                            \
}

#define WEIP(name, id, part)                           \
int tv_pub##part##_##name(void) {                      \
  wei_curve_t *ec;                                     \
  P("create");                                         \
  ec = wei_curve_create(id);                           \
  wei_public(ec, part);                                \
  P("");                                               \
  wei_curve_destroy(ec);                               \
  return 0;                                            \
}

#define WEIPUB(name, id)                               \
WEIP(name, id, 0)                                      \
WEIP(name, id, 1)                                      \
WEIP(name, id, 2)                                      \
WEIP(name, id, 3)                                      \
WEIP(name, id, 4)

WEIPUB(p192, WEI_CURVE_P192)
WEIPUB(p224, WEI_CURVE_P224)
WEIPUB(p256, WEI_CURVE_P256)
WEIPUB(p384, WEI_CURVE_P384)
WEIPUB(p521, WEI_CURVE_P521)
WEIPUB(secp256k1, WEI_CURVE_SECP256K1)

int
tv_pub5_secp256k1(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_SECP256K1);
  wei_schnorr(ec);
  P("");
  wei_curve_destroy(ec);
  return 0;
}

WEI(p192, WEI_CURVE_P192, 0)
WEI(p224, WEI_CURVE_P224, 0)
WEI(p256, WEI_CURVE_P256, 0)
WEI(p384, WEI_CURVE_P384, 0)
WEI(p521, WEI_CURVE_P521, 0)
WEI(secp256k1, WEI_CURVE_SECP256K1, 1)

#define MONT(name, id)                                 \
int tv_ct_##name(void) {                               \
  mont_curve_t *ec;                                    \
  P("create");                                         \
  ec = mont_curve_create(id);                          \
  mont_secret(ec);                                     \
  mont_curve_destroy(ec);                              \
  return 0;                                            \
}

#define MONTPUB(name, id)                              \
int tv_pub0_##name(void) {                             \
  mont_curve_t *ec;                                    \
  P("create");                                         \
  ec = mont_curve_create(id);                          \
  mont_public(ec);                                     \
  P("");                                               \
  mont_curve_destroy(ec);                              \
  return 0;                                            \
}

MONTPUB(x25519, MONT_CURVE_X25519)
MONTPUB(x448, MONT_CURVE_X448)

MONT(x25519, MONT_CURVE_X25519)
MONT(x448, MONT_CURVE_X448)

#define EDW(name, id)                                  \
int tv_ct_##name(void) {                               \
  edwards_curve_t *ec;                                 \
  P("create");                                         \
  ec = edwards_curve_create(id);                       \
  P("randomize");                                      \
  edwards_curve_randomize(ec, pubin(32));              \
  edwards_secret(ec);                                  \
  ristretto_secret(ec);                                \
  edwards_curve_destroy(ec);                           \
  return 0;                                            \
}

#define EDWP(name, id, part)                           \
int tv_pub##part##_##name(void) {                      \
  edwards_curve_t *ec;                                 \
  P("create");                                         \
  ec = edwards_curve_create(id);                       \
  edwards_public(ec, part);                            \
  P("");                                               \
  edwards_curve_destroy(ec);                           \
  return 0;                                            \
}

#define EDWPUB(name, id)                               \
EDWP(name, id, 0)                                      \
EDWP(name, id, 1)                                      \
EDWP(name, id, 2)                                      \
EDWP(name, id, 3)

EDWPUB(ed25519, EDWARDS_CURVE_ED25519)
EDWPUB(ed448, EDWARDS_CURVE_ED448)
EDWPUB(ed1174, EDWARDS_CURVE_ED1174)

EDW(ed25519, EDWARDS_CURVE_ED25519)
EDW(ed448, EDWARDS_CURVE_ED448)
EDW(ed1174, EDWARDS_CURVE_ED1174)
