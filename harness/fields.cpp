// F01, F02: the four prime fields
#include "symx.h"
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"
using namespace field;

struct Tsp { typedef Field_secp256r1_p F; static const char *p() { return "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"; } static const char *m() { return "fffffffeffffffff00000000fffffffffffffffffffffffffffffffffffffffe"; }};
struct Tsn { typedef Field_secp256r1_n F; static const char *p() { return "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"; } };
struct Tbp { typedef Field_bn254_p F; static const char *p() { return "2523648240000001BA344D80000000086121000000000013A700000000000013"; } };
struct Tbn { typedef Field_bn254_n F; static const char *p() { return "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D"; } };

#define BIG "1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"

static mpz_class P(const char *s) { return mpz_class(s, 16); }

// value is exactly the residue of spec, canonical, and carries the field's prime
template <class F> static void is(const F &x, const mpz_class &spec, const mpz_class &p, const char *label)
{
    mpz_class v = x.getRawValue();
    CHECK(symx_and(eqmod(v, spec, p), symx_and(!ltz(v, 0), ltz(v, p))), label);
    CHECK(eqz(x.getField(), p), "field modulus");
}

template <class T> static typename T::F input(const char *name, mpz_class &raw)
{
    std::string hi = T::p();
    mpz_class p = P(T::p()), top = p - 1;
    std::string h = top.get_str(16);
    raw = symx_int(name, "0", h.c_str());
    return typename T::F(raw);
}

template <class T> static void f01()
{
    typedef typename T::F F;
    mpz_class p = P(T::p()), a0, b0;
    // construction from any integer
    mpz_class k = symx_int("k", "-" BIG, BIG);
    F c(k);
    is(c, k, p, "construction is reduction modulo p");
    F d;
    CHECK(eqz(d.getField(), p), "default field modulus");
    F a = input<T>("a", a0), b = input<T>("b", b0);
    is(a, a0, p, "construction of a residue");
    is(a + b, a0 + b0, p, "a + b");
    is(a - b, a0 - b0, p, "a - b");
    is(-a, -a0, p, "-a");
    is(a * b, a0 * b0, p, "a * b");
    is(a.square(), a0 * a0, p, "a.square()");
    is(a * k, a0 * k, p, "a * integer");
    is(a + a, a0 + a0, p, "a + a");
    is(a - a, mpz_class(0), p, "a - a");
    is(a * a, a0 * a0, p, "a * a");
    is(a, a0, p, "left operand unchanged");
    is(b, b0, p, "right operand unchanged");
    F t;
    t = a; t += b; is(t, a0 + b0, p, "a += b"); is(b, b0, p, "b unchanged by +=");
    t = a; t -= b; is(t, a0 - b0, p, "a -= b"); is(b, b0, p, "b unchanged by -=");
    t = a; F &r1 = (t *= b); is(t, a0 * b0, p, "a *= b"); is(b, b0, p, "b unchanged by *=");
    CHECK(&r1 == &t, "*= returns its object");
    t = a; t *= k; is(t, a0 * k, p, "a *= integer");
    t = a; t += t; is(t, a0 + a0, p, "a += a");
    t = a; t -= t; is(t, mpz_class(0), p, "a -= a");
    t = a; t *= t; is(t, a0 * a0, p, "a *= a");
    t = a; t = t; is(t, a0, p, "self-assignment");
    F u(a); is(u, a0, p, "copy");
    u += b; is(a, a0, p, "copy is independent"); is(u, a0 + b0, p, "copy can be modified");
    // chains of compound assignments stay exact
    t = a; (t += b) *= b; is(t, (a0 + b0) * b0, p, "chained compound assignment");
    t = a; t *= b; t += c; t -= a; is(t, a0 * b0 + k - a0, p, "sequence of compound assignments");
    // equality is equality of residues
    CHECK((a == b) == (bool)eqmod(a0, b0, p), "equality is equality of residues");
    CHECK(a == a, "equality is reflexive");
    F s(a0 + p * 3);
    CHECK(s == a, "congruent integers give equal elements");
    symx_reach("end");
}

template <class T> static void f02()
{
    typedef typename T::F F;
    mpz_class p = P(T::p()), a0, b0;
    F a = input<T>("a", a0), b = input<T>("b", b0);
    symx_assume(!eqz(a0, 0));
    F i = a.invert();
    mpz_class iv = i.getRawValue();
    CHECK(eqmod(iv * a0, mpz_class(1), p), "a * a.invert() is one");
    CHECK(symx_and(!ltz(iv, 0), ltz(iv, p)), "inverse is canonical");
    CHECK(eqz(i.getField(), p), "inverse field modulus");
    is(a * i, mpz_class(1), p, "a * a.invert()");
    F q = b / a;
    mpz_class qv = q.getRawValue();
    CHECK(eqmod(qv * a0, b0, p), "(b / a) * a is b");
    CHECK(symx_and(!ltz(qv, 0), ltz(qv, p)), "quotient is canonical");
    is(q * a, b0, p, "(b / a) * a");
    F t = b;
    F &r = (t /= a);
    CHECK(&r == &t, "/= returns its object");
    is(t, qv, p, "b /= a");
    t = a; t /= t;
    is(t, mpz_class(1), p, "a /= a");
    is(a / a, mpz_class(1), p, "a / a");
    is(a.invert().invert(), a0, p, "a.invert().invert()");
    is(a, a0, p, "divisor unchanged");
    is(b, b0, p, "dividend unchanged");
    symx_reach("end");
}

// earlier operations on other operands have no influence
template <class T> static void f01h()
{
    typedef typename T::F F;
    mpz_class p = P(T::p()), a0, b0, u0, v0;
    F u = input<T>("u", u0), v = input<T>("v", v0);
    mpz_class k = symx_int("k", "-" BIG, BIG), j = symx_int("j", "-" BIG, BIG);
    F e(j), s0 = u + v, s1 = u - v, s2 = -u, s3 = u * v, s4 = u.square(), s5 = u * j;
    F t = u; t += v; t = u; t -= v; t = u; t *= v; t = u; t *= j;
    bool eq = u == v;
    F a = input<T>("a", a0), b = input<T>("b", b0);
    switch (symx_choose("op", 11))
    {
    case 0: is(F(k), k, p, "construction is reduction modulo p"); break;
    case 1: is(a + b, a0 + b0, p, "a + b"); break;
    case 2: is(a - b, a0 - b0, p, "a - b"); break;
    case 3: is(-a, -a0, p, "-a"); break;
    case 4: is(a * b, a0 * b0, p, "a * b"); break;
    case 5: is(a.square(), a0 * a0, p, "a.square()"); break;
    case 6: is(a * k, a0 * k, p, "a * integer"); break;
    case 7: t = a; t += b; is(t, a0 + b0, p, "a += b"); break;
    case 8: t = a; t -= b; is(t, a0 - b0, p, "a -= b"); break;
    case 9: t = a; t *= b; is(t, a0 * b0, p, "a *= b"); break;
    case 10: CHECK((a == b) == (bool)eqmod(a0, b0, p), "equality is equality of residues"); break;
    }
    CHECK(eq == (bool)eqz(u0, v0), "equality is equality of residues");
    is(s0, u0 + v0, p, "earlier sum"); is(s1, u0 - v0, p, "earlier difference"); is(s2, -u0, p, "earlier negation");
    is(s3, u0 * v0, p, "earlier product"); is(s4, u0 * u0, p, "earlier square"); is(s5, u0 * j, p, "earlier multiple"); is(e, j, p, "earlier construction");
    symx_reach("end");
}
template <class T> static void f02h()
{
    typedef typename T::F F;
    mpz_class p = P(T::p()), a0, b0, u0, v0;
    F u = input<T>("u", u0), v = input<T>("v", v0), a = input<T>("a", a0), b = input<T>("b", b0);
    symx_assume(symx_and(!eqz(a0, 0), !eqz(u0, 0)));
    F w = u.invert(), d = v / u, t = v;
    t /= u;
    int op = symx_choose("op", 3);
    F q = a;
    if (op == 0) q = a.invert();
    if (op == 1) q = b / a;
    if (op == 2) { q = b; q /= a; }
    mpz_class qv = q.getRawValue();
    CHECK(eqmod(qv * a0, op ? b0 : mpz_class(1), p), op ? "(b / a) * a is b" : "a * a.invert() is one");
    CHECK(symx_and(!ltz(qv, 0), ltz(qv, p)), "quotient is canonical");
    CHECK(eqmod(w.getRawValue() * u0, mpz_class(1), p), "earlier inverse");
    CHECK(eqmod(d.getRawValue() * u0, v0, p), "earlier quotient");
    symx_reach("end");
}

extern "C" {
void f01h_secp_p() { f01h<Tsp>(); }
void f01h_secp_n() { f01h<Tsn>(); }
void f01h_bn_p() { f01h<Tbp>(); }
void f01h_bn_n() { f01h<Tbn>(); }
void f02h_secp_p() { f02h<Tsp>(); }
void f02h_secp_n() { f02h<Tsn>(); }
void f02h_bn_p() { f02h<Tbp>(); }
void f02h_bn_n() { f02h<Tbn>(); }
void f01_secp_p() { f01<Tsp>(); }
void f01_secp_n() { f01<Tsn>(); }
void f01_bn_p() { f01<Tbp>(); }
void f01_bn_n() { f01<Tbn>(); }
void f02_secp_p() { f02<Tsp>(); }
void f02_secp_n() { f02<Tsn>(); }
void f02_bn_p() { f02<Tbp>(); }
void f02_bn_n() { f02<Tbn>(); }
}
