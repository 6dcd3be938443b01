// G01: ElGamal
#include "proto.h"
#include "elgamal.hpp"
#define GMAX "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
extern "C" {
void g01()
{
    elgamal::ElGamal e;
    elgamal::keypair_t kp = e.keyGen();
    mpz_class m = symx_int("m", "0", GMAX), m0 = m;
    elgamal::ctxt_t c = e.encrypt(kp.pk, m);
    CHECK(eqz(e.decrypt(kp.sk, c), m), "decryption of an encryption is the message");
    CHECK(eqz(m, m0), "message unchanged");
    symx_reach("end");
}
void g01d()
{
    elgamal::ElGamal e;
    elgamal::keypair_t kp = e.keyGen();
    elgamal::ElGamal f;
    mpz_class m = symx_int("m", "0", GMAX), m2 = symx_int("m2", "0", GMAX);
    elgamal::ctxt_t c = f.encrypt(kp.pk, m), c2 = f.encrypt(kp.pk, m2);
    CHECK(eqz(e.decrypt(kp.sk, c), m), "decryption by another instance is the message");
    CHECK(eqz(e.decrypt(kp.sk, c2), m2), "a second message is decrypted");
    symx_reach("end");
}
// the exponent of an encryption is drawn for it alone: every group element is a possible first component
void g02()
{
    elgamal::ElGamal e, f;
    elgamal::keypair_t kp = e.keyGen(), kq = f.keyGen();
    dme::CURVE c;
    Pt g = c.getDefaultGen(), m = anypt("M", &c);
    int how = symx_choose("earlier", 4);
    if (how == 1) e.encrypt(kp.pk, anypt("M0", &c));
    if (how == 2) e.encrypt(kp.pk, m);
    if (how == 3) { e.encrypt(kp.pk, m); f.encrypt(kq.pk, m); }
    size_t n0 = symx_drawn();
    elgamal::ctxt_t ct = e.encrypt(kp.pk, m);
    size_t n1 = symx_drawn();
    CHECK(n1 == n0 + 1, "one random exponent per encryption");
    CHECK(fullrange(n0, n1), "the exponent is drawn from the whole field");
    CHECK(eqpt(ct.mv - ct.u * kp.sk, m), "the message is masked by the key");
    mpz_class w = symx_int("r", "0", S::n1());
    mpz_class v[1];
    v[0] = w;
    elgamal::ctxt_t d;
    { Script s(v[0].get_mpz_t(), 1, "exponent"); d = e.encrypt(kp.pk, m); }
    // distinct exponents give distinct first components
    mpz_class r2[1];
    r2[0] = symx_int("r2", "0", S::n1());
    elgamal::ctxt_t d2;
    { Script s(r2[0].get_mpz_t(), 1, "exponent"); d2 = f.encrypt(kp.pk, m); }
    CHECK(eqpt(d.mv - d.u * kp.sk, m), "the message is masked by the key");
    CHECK(symx_or(eqz(w, r2[0]), !eqpt(d.u, d2.u)), "different exponents give different ciphertexts");
    symx_reach("end");
}
void g01k()
{
    elgamal::ElGamal e;
    dme::CURVE c;
    elgamal::keypair_t kp = e.keyGen();
    Pt g = c.getDefaultGen();
    CHECK(eqpt(kp.pk, times(kp.sk.getRawValue(), g)), "public key = secret key * generator");
    CHECK(symx_and(!ltz(kp.sk.getRawValue(), 0), ltz(kp.sk.getRawValue(), order())), "secret key below the order");
    // a key pair given by the caller, a message point of the caller
    mpz_class x = symx_int("x", "0", S::n1());
    Pt pk = times(x, g);
    mpz_class m = symx_int("m", "0", GMAX);
    elgamal::ctxt_t ct = e.encrypt(pk, m);
    CHECK(eqz(e.decrypt(elgamal::skey_t(x), ct), m), "any secret key decrypts");
    Pt M = anypt("M", &c);
    ct = e.encrypt(pk, M);
    CHECK(eqpt(ct.mv - ct.u * dme::FIELD_n(x), M), "an encrypted point is the point masked by the key");
    symx_reach("end");
}
}
