/* Classes of byte strings around a bound, for harnesses that include ecc.c. */
/* Square roots are irrelevant here: any element, any verdict. */
static int
any_root(const prime_field_t *fe, fe_t z) {
  fe_size_t i;
  for (i = 0; i < fe->words; i++)
    z[i] = 0;
  __tv_unknown(z, 1);
  return (int)__tv_range(0, 1);
}
int __tvc_fe_sqrt(const prime_field_t *fe, fe_t z, const fe_t x) { return any_root(fe, z); }
int __tvc_fe_isqrt(const prime_field_t *fe, fe_t z, const fe_t u, const fe_t v) { return any_root(fe, z); }
int __tvc_fe_rsqrt(const prime_field_t *fe, fe_t z, const fe_t u, const fe_t v) { return any_root(fe, z); }

/* Big-endian classes of strings relative to the bound n; kind -1 below, 0 equal,
 * 1 above. The string is stored in the given byte order. */
static int
set_class(unsigned char *out, const unsigned char *bound, size_t size, int endian, int kind, int pos) {
  size_t i;

  for (i = 0; i < size; i++) {
    unsigned char *p = endian == 1 ? out + i : out + size - 1 - i;

    if (kind == 0 || (int)i < pos) {
      *p = bound[i];
    } else if ((int)i > pos) {
      __tv_unknown(p, 1);
    } else if (kind < 0) {
      if (bound[i] == 0)
        return 0;
      *p = (unsigned char)__tv_range(0, bound[i] - 1);
    } else {
      if (bound[i] == 255)
        return 0;
      *p = (unsigned char)__tv_range(bound[i] + 1, 255);
    }
  }

  return 1;
}

/* Strings that exceed half in the first byte and are below the order: at byte k. */
static int
set_below_top(unsigned char *out, const unsigned char *order, const unsigned char *half, size_t size, int k) {
  if (k > 0)
    return set_class(out, order, size, 1, -1, k);

  __tv_unknown(out, size);

  if (half[0] + 1 > order[0] - 1)
    return 0;

  out[0] = (unsigned char)__tv_range(half[0] + 1, order[0] - 1);

  return 1;
}

static void
limbs_be(unsigned char *out, size_t size, const mp_limb_t *x, mp_size_t n) {
  mpn_export(out, size, x, n, 1);
}
