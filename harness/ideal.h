// Ideal oblivious transfer, put in place of the real one by the symbolic executor (symx/ideal.py redirects the calls).
// A message is obtained by whoever holds the secret of the public key the ciphertext was made for; anyone else gets an arbitrary value.
#ifndef IDEAL_H
#define IDEAL_H
#include "ot.hpp"
extern "C" {
void symx_again(size_t from, size_t except);   // the next draws repeat those from number from on, except that one
void symx_unagain(void);
int symx_repeats(int n);
void symx_drawval(mpz_ptr r, size_t i);        // value of the draw number i
}
extern "C" void symx_free(unsigned long seed);   // natively: the random source is a generator with this seed, rand() follows perm, perm2

namespace ideal
{
struct Sel { const ot::OTrecv *who; unsigned long token; unsigned b; };
static Sel sels[256];
static unsigned nsel;
static unsigned long tokens = 1000;
static unsigned njunk;
static std::string junk() { return "junk" + std::to_string(njunk++); }
static dme::CURVE &curve() { static dme::CURVE c; return c; }
static Sel &of(const ot::OTrecv *r)
{
    for (unsigned i = 0; i < nsel; i++) if (sels[i].who == r) return sels[i];
    sels[nsel].who = r;
    return sels[nsel++];
}
static Pt holder(const mpz_class &v) { return Pt(v, mpz_class(7), &curve()); }
}
extern "C" {
dme::pkey_t ideal_select(ot::OTrecv *self, dme::branch_t b)
{
    ideal::Sel &s = ideal::of(self);
    s.token = ideal::tokens++;
    s.b = b;
    dme::pkey_t pk;
    pk.h = pk.g = ideal::holder(mpz_class(s.token));
    return pk;
}
ot::ctxt_v_t ideal_enc(ot::OTsndr *, dme::pkey_t pk, dme::msg_t m0, dme::msg_t m1)
{
    ot::ctxt_v_t c(2);
    c[0].u = c[1].u = pk.h;
    c[0].mv = m0;
    c[1].mv = m1;
    return c;
}
ot::ctxt_v_t ideal_enci(ot::OTsndr *, dme::pkey_t pk, mpz_class m0, mpz_class m1)
{
    mpz_class lim = mpz_class(1) << 245;
    CHECK(m0 >= 0 && m0 < lim && m1 >= 0 && m1 < lim, "integers given to the oblivious transfer are below 2^245");
    ot::ctxt_v_t c(2);
    c[0].u = c[1].u = pk.h;
    c[0].mv = ideal::holder(m0);
    c[1].mv = ideal::holder(m1);
    return c;
}
dme::msg_t ideal_decrypt(const ot::OTrecv *self, ot::ctxt_v_t c)
{
    ideal::Sel &s = ideal::of(self);
    CHECK(c.size() == 2, "a ciphertext for each of the two messages");
    if (c[0].u.getX().getRawValue() != s.token || c[1].u.getX().getRawValue() != s.token) return anypt(ideal::junk().c_str(), &ideal::curve());
    mpz_class b = s.b & 1;
    return c[0].mv + times(b, c[1].mv - c[0].mv);
}
mpz_class ideal_decode(const ot::OTrecv *self, ot::ctxt_v_t c)
{
    ideal::Sel &s = ideal::of(self);
    CHECK(c.size() == 2, "a ciphertext for each of the two messages");
    if (c[0].u.getX().getRawValue() != s.token || c[1].u.getX().getRawValue() != s.token)
        return symx_int(ideal::junk().c_str(), "0", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    mpz_class m0 = c[0].mv.getX().getRawValue(), m1 = c[1].mv.getX().getRawValue();
    return (s.b & 1) ? m1 : m0;
}
}
#endif
