/* Interface summaries for the variable-time big-integer loops whose trip
 * counts are data dependent (binary gcd style). Everything the callee reads
 * is read here and everything it writes is written here, over the full
 * extent the interface promises; the values become unknown but keep the
 * provenance of the inputs. They are not used when timing is analysed. */
#ifndef TV_CONTRACTS_H
#define TV_CONTRACTS_H
#include "tv.h"
#include <torsion/mpi.h>

static mp_limb_t
tvc_fold(const mp_limb_t *xp, mp_size_t xn) {
  mp_limb_t z = __tv_range(0, UINT64_MAX);
  mp_size_t i;
  for (i = 0; i < xn; i++)
    z ^= xp[i];
  return z;
}

static void
tvc_fill(mp_limb_t *zp, mp_size_t zn, mp_limb_t z) {
  mp_size_t i;
  for (i = 0; i < zn; i++)
    zp[i] = z;
}

int
__tvc_torsion__mpn_invert_n(mp_limb_t *zp, const mp_limb_t *xp, const mp_limb_t *yp, mp_size_t n, mp_limb_t *scratch) {
  mp_limb_t z = tvc_fold(xp, n) ^ tvc_fold(yp, n);
  tvc_fill(scratch, MPN_INVERT_ITCH(n), z);
  tvc_fill(zp, n, z);
  return (int)(z & 1);
}

int
__tvc_torsion__mpn_jacobi_n(const mp_limb_t *xp, const mp_limb_t *yp, mp_size_t n, mp_limb_t *scratch) {
  mp_limb_t z = tvc_fold(xp, n) ^ tvc_fold(yp, n);
  tvc_fill(scratch, MPN_JACOBI_ITCH(n), z);
  return (int)(z % 3) - 1;
}
#endif
