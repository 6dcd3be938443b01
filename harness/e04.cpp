// E04: scalar multiplication over the group layer
#include "group.h"

template <class T> static void expect(const typename T::P &R, const mpz_class &k, const typename T::P &P, const char *label);

// P of discrete logarithm d, every scalar below the order: the result has discrete logarithm k*d
template <class T> static void e04()
{
    typename T::C c;
    K<T> k;
    // scalars of each bit length separately: together every scalar below the order
    int len = symx_choose("len", 257);
    mpz_class lo = len ? mpz_class(1) << (len - 1) : mpz_class(0), hi = (mpz_class(1) << len) - 1, top = k.n - 1;
    if (lo > top) return;
    if (hi > top) hi = top;
    mpz_class s = symx_int("k", lo.get_str(16).c_str(), hi.get_str(16).c_str());
    typename T::P P = gpointf<T>("d", &c);
    typename T::Fn f(s);
    typename T::P R = P * f;
    mpz_class x, y;
    int inf = symx_mul(x.get_mpz_t(), y.get_mpz_t(), s.get_mpz_t(), "d", T::id);
    CHECK(R.isInf() == (bool)inf, "k*P is the identity exactly when k*d = 0");
    if (inf) { symx_reach("identity"); return; }
    CHECK(symx_and(eqz(R.getX().getRawValue(), x), eqz(R.getY().getRawValue(), y)), "P * k is k times P");
    CHECK(R.curve == &c, "P * k is a point of the same curve");
    CHECK(eqz(f.getRawValue(), s), "scalar unchanged");
    symx_reach("end");
}
// the other overloads agree with the field-element overload (replaced by its contract here)
template <class T> static void e04o()
{
    typename T::C c;
    K<T> k;
    mpz_class s = symx_int("k", "-10000000000000000000000000000000000000000000000000000000000000000000000000000", "10000000000000000000000000000000000000000000000000000000000000000000000000000");
    mpz_class s0 = s;
    typename T::P P = gpointf<T>("d", &c);
    mpz_class x, y;
    int inf = symx_mul(x.get_mpz_t(), y.get_mpz_t(), s.get_mpz_t(), "d", T::id);
    typename T::P R[4];
    R[0] = P * s;
    R[1] = P * typename T::Fn(s);
    R[2] = P;
    typename T::P &r = (R[2] *= s);
    CHECK(&r == &R[2], "*= returns its object");
    R[3] = P;
    R[3] *= typename T::Fn(s);
    for (int i = 0; i < 4; i++)
    {
        CHECK(R[i].isInf() == (bool)inf, "k*P is the identity exactly when k*d = 0");
        CHECK(symx_or(inf, symx_and(eqz(R[i].getX().getRawValue(), x), eqz(R[i].getY().getRawValue(), y))), "P * k is k times P");
    }
    CHECK(eqz(s, s0), "integer scalar unchanged");
    symx_reach("end");
}
// special scalars
template <class T> static void e04s()
{
    typename T::C c;
    K<T> k;
    typename T::P P = gpointf<T>("d", &c), O;
    CHECK((P * mpz_class(0)).isInf(), "P * 0 is the identity");
    CHECK(P * mpz_class(1) == P, "P * 1 is P");
    CHECK((P * k.n).isInf(), "P * n is the identity");
    CHECK(P * mpz_class(-1) == O - P, "P * -1 is the inverse");
    CHECK(P * mpz_class(k.n + 2) == P + P, "P * (n + 2) is P + P");
    CHECK(P * mpz_class(2) == P.pointDouble(), "P * 2 is the double");
    mpz_class s = symx_int("k", "0", T::n1());
    CHECK((O * s).isInf(), "the identity times k is the identity");
    CHECK((O * typename T::Fn(s)).isInf(), "the identity times k is the identity");
    symx_reach("end");
}
// small scalars on coordinates, without the contracts of addition and doubling
template <class T> static void e04c()
{
    typename T::C c;
    Aff p = anypoint<T>("px", "py", symx_choose("pinf", 2)), o = Aff{0, 0, 1};
    typename T::P P = build<T>(p, &c);
    same<T>(P * typename T::Fn(0), o, &c, "P * 0 is the identity");
    same<T>(P * typename T::Fn(1), p, &c, "P * 1 is P");
    typename T::P D = P * typename T::Fn(2);
    issum<T>(D, p, p, &c, "P * 2 is P + P");
    Aff d{D.getX().getRawValue(), D.getY().getRawValue(), D.isInf()};
    typename T::P E = P * typename T::Fn(3);
    issum<T>(E, p, d, &c, "P * 3 is P + 2P");
    same<T>(P, p, &c, "multiplied point unchanged");
    symx_reach("end");
}
// multiplications after others
template <class T> static void e04h()
{
    typename T::C c, c2;
    K<T> k;
    static const int lens[4] = {1, 3, 10, 256};
    int len = lens[symx_choose("len", 4)];
    mpz_class lo = mpz_class(1) << (len - 1), hi = (mpz_class(1) << len) - 1, top = k.n - 1;
    if (lo > top) return;
    if (hi > top) hi = top;
    mpz_class s = symx_int("k", lo.get_str(16).c_str(), hi.get_str(16).c_str());
    typename T::P P = gpointf<T>("d", &c), U = P, O;
    mpz_class u = s;
    int how = symx_choose("earlier", 3);
    if (how == 0) U = O - P;
    if (how == 1) U = gpointf<T>("e", &c2);
    if (how == 2) u = symx_int("u", lo.get_str(16).c_str(), hi.get_str(16).c_str());
    typename T::Fn f(s), g(u);
    typename T::P W = U * g;
    typename T::P R = P * f;
    mpz_class x, y;
    int inf = symx_mul(x.get_mpz_t(), y.get_mpz_t(), s.get_mpz_t(), "d", T::id);
    CHECK(R.isInf() == (bool)inf, "k*P is the identity exactly when k*d = 0");
    if (inf) { symx_reach("identity"); return; }
    CHECK(symx_and(eqz(R.getX().getRawValue(), x), eqz(R.getY().getRawValue(), y)), "P * k is k times P");
    CHECK(R.curve == &c, "P * k is a point of the same curve");
    if (how == 0) CHECK((W + R).isInf(), "earlier multiple");
    symx_reach("end");
}
extern "C" {
void e04h_secp() { e04h<Tsecp>(); }
void e04h_bn() { e04h<Tbn>(); }
void e04_secp() { e04<Tsecp>(); }
void e04_bn() { e04<Tbn>(); }
void e04o_secp() { e04o<Tsecp>(); }
void e04o_bn() { e04o<Tbn>(); }
void e04s_secp() { e04s<Tsecp>(); }
void e04s_bn() { e04s<Tbn>(); }
void e04c_secp() { e04c<Tsecp>(); }
void e04c_bn() { e04c<Tbn>(); }
}
