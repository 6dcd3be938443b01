// Helpers for harnesses of the group layer (points known through discrete logarithms).
#ifndef GROUP_H
#define GROUP_H
#include "curves.h"

extern "C" void symx_probe(int id, const void *fin, const void *inf, size_t size, const void *curve, const void *scalar, size_t ssize);

template <class T> static void probe()
{
    typename T::C c;
    typename T::P P(mpz_class(12345), mpz_class(67890), &c), O;
    typename T::Fn s(mpz_class(4321));
    symx_probe(T::id, &P, &O, sizeof P, &c, &s, sizeof s);
}
extern "C" {
void symx_probe_secp() { probe<Tsecp>(); }
void symx_probe_bn() { probe<Tbn>(); }
}

// a multiple of the generator, as a point object on curve c
extern "C" void symx_pointobj(void *obj, const char *name, int id, void *curve);
template <class T> static typename T::P gpointf(const char *name, typename T::C *c)   // the identity as a separate case
{
    mpz_class x, y;
    if (symx_point(x.get_mpz_t(), y.get_mpz_t(), name, T::id)) return typename T::P();
    return typename T::P(x, y, c);
}
template <class T> static typename T::P gpoint(const char *name, typename T::C *c)
{
    if (symx_symbolic())
    {
        typename T::P r;
        symx_pointobj(&r, name, T::id, c);
        return r;
    }
    return gpointf<T>(name, c);
}
#endif
