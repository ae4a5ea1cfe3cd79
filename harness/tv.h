/* Vocabulary understood by the abstract interpreter. */
#ifndef TV_H
#define TV_H
#include <stddef.h>
#include <stdint.h>
#include <torsion/common.h>
void __tv_secret(const void *p, size_t n);      /* unknown bytes, secret */
void __tv_unknown(const void *p, size_t n);     /* unknown public bytes */
void __tv_uninit(const void *p, size_t n);
void __tv_label(const void *p, size_t n, unsigned int label);
void __tv_label_each(const void *p, size_t n, unsigned int base);
void __tv_declassify(void *p, size_t n);
uint64_t __tv_range(uint64_t lo, uint64_t hi);  /* unknown integer */
void __tv_expect_init(const void *p, size_t n, const char *name);
void __tv_require(const void *p, size_t n, unsigned int lo, unsigned int hi, const char *name);
void __tv_forbid(const void *p, size_t n, unsigned int lo, unsigned int hi, const char *name);
void __tv_require_val(int v, unsigned int lo, unsigned int hi, const char *name);
uint64_t __tv_labelval(uint64_t v, unsigned int label);
void __tv_assert(int v, const char *name);
void __tv_phase(const char *name);
void __tv_dump(const void *p, size_t n, const char *name);
void *__tv_newbuf(size_t n);
/* value numbering */
void __tv_vars(const void *p, size_t n, int lo, int hi); /* a fresh unknown per byte */
void __tv_same(const void *p, const void *q, size_t n, const char *name);
void __tv_uf(void *dst, size_t n, const char *fn, const void *src, size_t m);
int __tv_known(const void *p, size_t n); /* the bytes are constants */
int __tv_id(const void *p, size_t n);    /* equal exactly for equal contents, 0: unknown */
void __tv_depends(const void *p, size_t n, const void *q, size_t m, const char *name);
/* arithmetic over named unknowns in a prime field; values are handles */
int __tv_rnew(const void *modulus, size_t n);
int __tv_rvar(int ring);
int __tv_rnum(int ring, const void *be, size_t n);
int __tv_rop(int op, int a, int b);
void __tv_rrule(int lhs, int rhs);
void __tv_rsame(int a, int b, const char *name);
/* polynomial equalities; numbers are handles */
void __tv_pvars(void *p, size_t words, size_t wordsize, uint64_t lo, uint64_t hi);
int __tv_pval(const void *p, size_t words, size_t wordsize, const int *weights);
int __tv_pnum(const void *bytes, size_t n);
int __tv_parith(int op, int a, int b);
int __tv_pfloor(int a, int bits, int wordbits);
void __tv_pstore(void *p, size_t words, size_t wordsize, int a);
void __tv_pmax(int a, int hi);
void __tv_pbelow(int a, int hi, const char *name);
void __tv_pzero(int a, int mod, const char *name);
#endif
