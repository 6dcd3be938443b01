// Harness interface.  Compiled twice: to LLVM IR for the symbolic executor (the symx_* functions are then interpreted)
// and natively together with native.cpp for replaying counterexamples against the real code.
#ifndef SYMX_H
#define SYMX_H
#include <cstdint>
#include <cstddef>
#include <gmp.h>
#include <gmpxx.h>
#include <string>

extern "C" {
void symx_mpz(mpz_ptr r, const char *name, const char *lo, const char *hi);   // lo <= r <= hi (hexadecimal)
uint64_t symx_word(const char *name, uint64_t lo, uint64_t hi);
int symx_choose(const char *name, int n);             // explores every value 0..n-1 separately
void symx_bytes(void *p, size_t n, const char *name);
void symx_bits(mpz_ptr r, const char *name, int nbytes);   // 0 <= r < 256^nbytes, as bytes
int symx_pick(const char *name, uint64_t v, uint64_t lo, uint64_t hi);  // forks on the value of v, lo..hi
void symx_assume(int c);
void symx_check(int c, const char *label);
void symx_reach(const char *label);
void symx_fail(const char *label);
uint32_t symx_crc32c(uint32_t init, const void *p, size_t n);   // reflected polynomial 0x82F63B78, no inversions
int symx_symbolic(void);
void symx_uninit(void *p, size_t n);
int symx_and(int a, int b);
int symx_or(int a, int b);
int symx_mod_eq(mpz_srcptr a, mpz_srcptr b, mpz_srcptr m);      // a = b (mod m), without case splits
int symx_mpz_eq(mpz_srcptr a, mpz_srcptr b);
int symx_mpz_lt(mpz_srcptr a, mpz_srcptr b);
int symx_ite(int c, int a, int b);
void symx_oncurve(mpz_srcptr x, mpz_srcptr y, int curve);   // assume y^2 = x^3 + a x + b on curve 0 (secp256r1) / 1 (bn254)
void symx_cubic(mpz_srcptr x, int curve);   // adds the fact that x^3 + a x + b has no root (no-op natively)
int symx_point(mpz_ptr x, mpz_ptr y, const char *name, int curve);   // coordinates of a multiple of the generator; 1 for the identity
void symx_dlog(mpz_ptr r, const char *name, mpz_srcptr x, mpz_srcptr y, int curve);   // discrete logarithm (0,0: identity)
// the random source gives v[0], v[1], ... then zeros, until symx_unscript; label: a value is not a possible outcome
void symx_script(mpz_srcptr v, size_t n, const char *label);
void symx_unscript(void);
size_t symx_drawn(void);                        // number of values drawn so far
void symx_drawbound(mpz_ptr r, size_t i);       // exclusive bound of the i-th of them
int symx_mul(mpz_ptr x, mpz_ptr y, mpz_srcptr k, const char *name, int curve);   // the same for k times that multiple
}

static inline mpz_class symx_int(const char *name, const char *lo, const char *hi)
{
    mpz_class r;
    symx_mpz(r.get_mpz_t(), name, lo, hi);
    return r;
}

static inline mpz_class symx_int_bytes(const char *name, int nbytes)
{
    mpz_class r;
    symx_bits(r.get_mpz_t(), name, nbytes);
    return r;
}

static inline int eqmod(const mpz_class &a, const mpz_class &b, const mpz_class &m)
{
    return symx_mod_eq(a.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t());
}
static inline int eqz(const mpz_class &a, const mpz_class &b) { return symx_mpz_eq(a.get_mpz_t(), b.get_mpz_t()); }
static inline int ltz(const mpz_class &a, const mpz_class &b) { return symx_mpz_lt(a.get_mpz_t(), b.get_mpz_t()); }

#define CHECK(c, label) symx_check((c) ? 1 : 0, label)
#endif
