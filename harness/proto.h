// Helpers for the protocol harnesses.
#ifndef PROTO_H
#define PROTO_H
#include "group.h"
#include "dmhe.hpp"

typedef Tsecp S;
typedef dme::POINT Pt;
static inline mpz_class order() { return hex(S::n()); }

// same group element (coordinates as seen through the public interface)
static inline int eqpt(const Pt &a, const Pt &b)
{
    int ia = a.isInf(), ib = b.isInf();
    int fin = symx_and(eqz(a.getX().getRawValue(), b.getX().getRawValue()), eqz(a.getY().getRawValue(), b.getY().getRawValue()));
    return symx_or(symx_and(ia, ib), symx_and(symx_and(!ia, !ib), fin));
}
static inline int eqct(const dme::ctxt_t &a, const dme::ctxt_t &b) { return symx_and(eqpt(a.u, b.u), eqpt(a.mv, b.mv)); }
// discrete logarithm to the generator, as an integer below the order
static inline mpz_class dlog(const Pt &p, const char *name)
{
    mpz_class r, x, y;
    if (!p.isInf()) { x = p.getX().getRawValue(); y = p.getY().getRawValue(); }
    symx_dlog(r.get_mpz_t(), name, x.get_mpz_t(), y.get_mpz_t(), S::id);
    return r;
}
static inline Pt times(const mpz_class &k, const Pt &p) { return p * dme::FIELD_n(k); }
static inline int zeromod(const mpz_class &a) { return eqmod(a, 0, order()); }
// the value every earlier draw was taken from has exactly order() outcomes
static inline int fullrange(size_t from, size_t to)
{
    for (size_t i = from; i < to; i++)
    {
        mpz_class b;
        symx_drawbound(b.get_mpz_t(), i);
        if (b != order()) return 0;
    }
    return 1;
}
static inline mpz_class inverse(const mpz_class &a)
{
    mpz_class r, n = order();
    mpz_invert(r.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t());
    return r;
}
static inline mpz_class modn(const mpz_class &a)
{
    mpz_class r, n = order();
    mpz_mod(r.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t());
    return r;
}
struct Script
{
    Script(mpz_srcptr v, size_t n, const char *label) { symx_script(v, n, label); }
    ~Script() { symx_unscript(); }
};
static inline Pt anypt(const char *name, dme::CURVE *c) { return gpoint<S>(name, c); }
#endif
