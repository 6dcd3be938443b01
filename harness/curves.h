// Independent description of the two curves, used as the oracle.
#ifndef CURVES_H
#define CURVES_H
#include "symx.h"
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"

struct Tsecp
{
    typedef ecc::Curve_secp256r1 C;
    typedef ecc::Point_secp256r1 P;
    typedef field::Field_secp256r1_p Fp;
    typedef field::Field_secp256r1_n Fn;
    static const int id = 0;
    static const char *p() { return "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"; }
    static const char *p1() { return "ffffffff00000001000000000000000000000000fffffffffffffffffffffffe"; }
    static const char *a() { return "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc"; }
    static const char *b() { return "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"; }
    static const char *n() { return "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"; }
    static const char *n1() { return "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632550"; }
    static const char *gx() { return "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"; }
    static const char *gy() { return "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"; }
};
struct Tbn
{
    typedef ecc::Curve_bn254 C;
    typedef ecc::Point_bn254 P;
    typedef field::Field_bn254_p Fp;
    typedef field::Field_bn254_n Fn;
    static const int id = 1;
    static const char *p() { return "2523648240000001BA344D80000000086121000000000013A700000000000013"; }
    static const char *p1() { return "2523648240000001BA344D80000000086121000000000013A700000000000012"; }
    static const char *a() { return "0"; }
    static const char *b() { return "2"; }
    static const char *n() { return "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D"; }
    static const char *n1() { return "2523648240000001BA344D8000000007FF9F800000000010A10000000000000C"; }
    static const char *gx() { return "2523648240000001BA344D80000000086121000000000013A700000000000012"; }
    static const char *gy() { return "1"; }
};
static inline mpz_class hex(const char *s) { return mpz_class(s, 16); }

// an affine point given by its coordinates, or the identity
struct Aff
{
    mpz_class x, y;
    int inf;
};

template <class T> struct K
{
    mpz_class p, a, b, n;
    K() : p(hex(T::p())), a(hex(T::a())), b(hex(T::b())), n(hex(T::n())) {}
};

// any point of the curve: the identity when inf, else coordinates constrained to the curve equation
template <class T> static Aff anypoint(const char *nx, const char *ny, int inf)
{
    Aff r;
    r.inf = inf;
    if (inf) return r;
    r.x = symx_int(nx, "0", T::p1());
    r.y = symx_int(ny, "0", T::p1());
    symx_oncurve(r.x.get_mpz_t(), r.y.get_mpz_t(), T::id);
    return r;
}
template <class T> static typename T::P build(const Aff &a, typename T::C *c)
{
    if (a.inf) return typename T::P();
    return typename T::P(a.x, a.y, c);
}
// R has exactly the content a (canonical coordinates, curve c)
template <class T> static void same(const typename T::P &R, const Aff &a, typename T::C *c, const char *label)
{
    if (a.inf) { CHECK(R.isInf(), label); return; }
    CHECK(!R.isInf(), label);
    CHECK(symx_and(eqz(R.getX().getRawValue(), a.x), eqz(R.getY().getRawValue(), a.y)), label);
    CHECK(R.curve == c, label);
}
template <class T> static void wellformed(const typename T::P &R, typename T::C *c, const char *label)
{
    K<T> k;
    mpz_class x = R.getX().getRawValue(), y = R.getY().getRawValue();
    CHECK(R.curve == c, label);
    CHECK(symx_and(symx_and(!ltz(x, 0), ltz(x, k.p)), symx_and(!ltz(y, 0), ltz(y, k.p))), label);
    CHECK(symx_and(eqz(R.getX().getField(), k.p), eqz(R.getY().getField(), k.p)), label);
    CHECK(eqmod(y * y, x * x * x + k.a * x + k.b, k.p), label);
}
// R is the chord-and-tangent sum of P and Q
template <class T> static void issum(const typename T::P &R, const Aff &P, const Aff &Q, typename T::C *c, const char *label)
{
    K<T> k;
    if (P.inf) { same<T>(R, Q, c, label); return; }
    if (Q.inf) { same<T>(R, P, c, label); return; }
    mpz_class rx = R.getX().getRawValue(), ry = R.getY().getRawValue();
    if (eqz(P.x, Q.x))
    {
        if (eqz(P.y, Q.y))
        {
            CHECK(!R.isInf(), label);
            wellformed<T>(R, c, label);
            mpz_class num = 3 * P.x * P.x + k.a, den = 2 * P.y;
            CHECK(eqmod((rx + 2 * P.x) * den * den, num * num, k.p), label);
            CHECK(eqmod((ry + P.y) * den, num * (P.x - rx), k.p), label);
        }
        else
            CHECK(R.isInf(), label);
        return;
    }
    CHECK(!R.isInf(), label);
    wellformed<T>(R, c, label);
    mpz_class num = Q.y - P.y, den = Q.x - P.x;
    CHECK(eqmod((rx + P.x + Q.x) * den * den, num * num, k.p), label);
    CHECK(eqmod((ry + P.y) * den, num * (P.x - rx), k.p), label);
}
template <class T> static Aff neg(const Aff &P)
{
    K<T> k;
    Aff r;
    r.inf = P.inf;
    if (P.inf) return r;
    r.x = P.x;
    mpz_class t = k.p - P.y;
    mpz_mod(r.y.get_mpz_t(), t.get_mpz_t(), k.p.get_mpz_t());
    return r;
}
#endif
