// E07: random scalars, random points, key pairs
#include "group.h"

template <class T, class P> static mpz_class glog(const P &p, const char *name)
{
    mpz_class r, x, y;
    if (!p.isInf()) { x = p.getX().getRawValue(); y = p.getY().getRawValue(); }
    symx_dlog(r.get_mpz_t(), name, x.get_mpz_t(), y.get_mpz_t(), T::id);
    return r;
}
template <class T> static void drawsok(size_t n0, size_t n1, const char *label)
{
    K<T> k;
    CHECK(n1 == n0 + 1, label);
    for (size_t i = n0; i < n1; i++)
    {
        mpz_class b;
        symx_drawbound(b.get_mpz_t(), i);
        CHECK(b == k.n, label);
    }
}
// f(t) = f(0) + t * (f(1) - f(0)) with f(1) != f(0): every residue is produced for exactly one outcome t
template <class T, class F> static void onto(F f, const char *label)
{
    K<T> k;
    mpz_class t = symx_int("t", "0", T::n1()), v[3];
    for (int i = 0; i < 3; i++)
    {
        mpz_class d(i);
        if (i == 2) d = t;
        symx_script(d.get_mpz_t(), 1, label);
        v[i] = f(i);
        symx_unscript();
    }
    CHECK(!eqmod(v[1], v[0], k.n), label);
    CHECK(eqmod(v[2], v[0] + t * (v[1] - v[0]), k.n), label);
}
template <class T> static void e07p()
{
    typename T::C c;
    K<T> k;
    const typename T::C &cc = c;
    size_t n0 = symx_drawn();
    typename T::P p = cc.getRandomPoint();
    size_t n1 = symx_drawn();
    drawsok<T>(n0, n1, "a random point is drawn from the whole group");
    mpz_class l = glog<T>(p, "log_p");
    CHECK(symx_or(p.isInf(), !eqz(l, 0)), "a random point is a group element");
    CHECK(symx_or(p.isInf(), p.curve == &c), "a random point is on its curve");
    static const char *nm[3] = {"p0", "p1", "pt"};
    onto<T>([&](int i) { return glog<T>(c.getRandomPoint(), nm[i]); }, "every group element can be drawn");
    symx_reach("end");
}
template <class T> static void e07k()
{
    typename T::C c;
    K<T> k;
    size_t n0 = symx_drawn();
    auto kp = c.generateKeyPair();
    size_t n1 = symx_drawn();
    drawsok<T>(n0, n1, "a key is drawn from the whole scalar field");
    CHECK(symx_and(!ltz(kp.sk, 0), ltz(kp.sk, k.n)), "the secret key is below the order");
    mpz_class l = glog<T>(kp.pk, "log_pk");
    CHECK(eqmod(l, kp.sk, k.n), "public key = secret key * generator");
    CHECK(symx_or(kp.pk.isInf(), kp.pk.curve == &c), "the public key is on its curve");
    onto<T>([&](int) { return c.generateKeyPair().sk; }, "every secret key can be drawn");
    symx_reach("end");
}
template <class T> static void e07r()
{
    typename T::C c;
    K<T> k;
    size_t n0 = symx_drawn();
    mpz_class s = c.getRandomScalar().getRawValue();
    size_t n1 = symx_drawn();
    drawsok<T>(n0, n1, "a scalar is drawn from the whole scalar field");
    CHECK(symx_and(!ltz(s, 0), ltz(s, k.n)), "a random scalar is below the order");
    onto<T>([&](int) { return c.getRandomScalar().getRawValue(); }, "every scalar can be drawn");
    symx_reach("end");
}
extern "C" {
void e07p_secp() { e07p<Tsecp>(); }
void e07p_bn() { e07p<Tbn>(); }
void e07k_secp() { e07k<Tsecp>(); }
void e07k_bn() { e07k<Tbn>(); }
void e07r_secp() { e07r<Tsecp>(); }
void e07r_bn() { e07r<Tbn>(); }
}
