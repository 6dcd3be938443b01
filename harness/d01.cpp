// D01: encoding of integers as curve points
#include "proto.h"
#include "dme.hpp"
using namespace dme;
#define MMAX "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
static void onepoint(const DME_DDH &d, const DME_DDH &e)
{
    mpz_class m = symx_int("m", "0", MMAX), m0 = m;
    msg_t P = d.encode(m);
    CHECK(!P.isInf(), "the encoding is a finite point");
    mpz_class x = P.getX().getRawValue(), y = P.getY().getRawValue(), p = hex(S::p());
    CHECK(eqmod(y * y, x * x * x + hex(S::a()) * x + hex(S::b()), p), "the encoding is on the curve");
    CHECK(eqz(e.decode(P), m), "decoding the encoding gives the message");
    CHECK(eqz(m, m0), "message unchanged");
    symx_reach("end");
}
extern "C" {
void d01() { DME_DDH d(dec); onepoint(d, d); }
void d01m() { DME_DDH d(messy), e(dec); onepoint(d, e); }
// instances coming and going
void d01h()
{
    mpz_class m = symx_int("m", "0", MMAX), n = symx_int("n", "0", MMAX);
    DME_DDH *d = new DME_DDH(dec), *f = new DME_DDH(messy);
    msg_t P = d->encode(m), Q = f->encode(n);
    CHECK(eqz(f->decode(P), m), "first message");
    delete d;
    msg_t R = f->encode(m);
    CHECK(R.isValid() && (R + R).isValid(), "the encoding is a valid point of a living curve");
    CHECK(eqz(f->decode(R), m), "the first message again");
    CHECK(eqz(f->decode(Q), n), "second message");
    delete f;
    symx_reach("end");
}
// two messages in sequence
void d01s()
{
    DME_DDH d(dec);
    mpz_class m = symx_int("m", "0", MMAX), n = symx_int("n", "0", MMAX);
    msg_t P = d.encode(m), Q = d.encode(n), R = d.encode(m);
    CHECK(eqz(d.decode(P), m), "first message");
    CHECK(eqz(d.decode(Q), n), "second message");
    CHECK(eqpt(P, R), "the encoding depends on the message only");
    CHECK(symx_or(eqz(m, n), !eqpt(P, Q)), "different messages have different encodings");
    symx_reach("end");
}
}
