// Q01, Q02: the OPPRF, over ideal oblivious transfer and ideal checksummed encryption (symbolically) / the real ones (natively)
#include "proto.h"
#include "opprf.hpp"
#include "ideal.h"
using namespace opprf;
typedef dme::CURVE CURVE;

static mpz_class bits(unsigned v)
{
    mpz_class r = 0;
    for (int i = 0; i < 16; i++) r += mpz_class((v >> i) & 1) << i;
    return r;
}
static uint16_t word16(const char *name)
{
    unsigned char b[16];
    symx_bytes(b, 16, name);
    unsigned r = 0;
    for (int i = 0; i < 16; i++) r |= (unsigned)(b[i] & 1) << i;
    return r;
}
static void rounds(OPPRFserver &s, OPPRFclient &c)
{
    for (short round = 16; round > 0; round--)
    {
        dme::pkey_t pk = c.runOTRound_start(round);
        c.runOTRound_end(round, s.runOTRound(round, pk));
    }
}
static void evaluate(OPPRFserver &s, OPPRFclient &c)
{
    s.prepareKeysAndInputs();
    rounds(s, c);
    c.unmaskResult(s.sendEncryptedMasks());
}
static CURVE &acurve() { static CURVE c; return c; }
static dme::crs_ddh_t somecrs() { return (*new dme::DME_DDH(dme::messy)).crs; }
struct Parties      // kept alive: points refer to the curve objects of the parties
{
    OPPRFserver &s;
    OPPRFclient &c;
    Parties(uint16_t theta, dme::crs_ddh_t crs) : s(*new OPPRFserver(theta, crs)), c(*new OPPRFclient(crs)) {}
    void start(Pt ga, uint16_t x)
    {
        s.setSecret(ga);
        c.setMessage(x);
    }
};
static int repeats() { return symx_repeats(6); }
static void shuffles()
{
    symx_choose("perm", 6);
    symx_choose("perm2", 6);
}
#define PROGRAMMED(p, x, ga) eqpt((p).c.getResult(), (p).s.getKOPPRF() + times(bits(x), ga))

// one evaluation, with the positions of the server's own draws
struct Run
{
    Pt key, result;
    size_t p0, p1, m0, m1;
    Run(uint16_t theta, uint16_t x, Pt ga)
    {
        Parties p(theta, somecrs());
        p.start(ga, x);
        p0 = symx_drawn();
        p.s.prepareKeysAndInputs();
        p1 = symx_drawn();
        rounds(p.s, p.c);
        m0 = symx_drawn();
        symctxt_t m = p.s.sendEncryptedMasks();
        m1 = symx_drawn();
        p.c.unmaskResult(m);
        key = p.s.getKOPPRF();
        result = p.c.getResult();
    }
};
static mpz_class drawbound(size_t i) { mpz_class r; symx_drawbound(r.get_mpz_t(), i); return r; }
static mpz_class drawval(size_t i) { mpz_class r; symx_drawval(r.get_mpz_t(), i); return r; }

extern "C" {
void q01()
{
    shuffles();
    uint16_t theta = word16("theta"), x = word16("x");
    symx_assume(x <= theta);
    for (int k = 0; k < repeats(); k++)
    {
        symx_free(k);
        Parties p(theta, somecrs());
        Pt ga = anypt("ga", &acurve());
        p.start(ga, x);
        evaluate(p.s, p.c);
        CHECK(PROGRAMMED(p, x, ga), "the result is the key plus x times the secret");
    }
    symx_reach("end");
}
// a later evaluation of the same parties, after one with any input
void q01r()
{
    shuffles();
    uint16_t theta = word16("theta"), x = word16("x"), y = word16("y");
    symx_assume(y <= theta);
    int above = symx_choose("above", 2);
    symx_assume(above ? x > theta : x <= theta);
    for (int k = 0; k < repeats(); k++)
    {
        symx_free(k);
        Parties p(theta, somecrs());
        Pt ga = anypt("ga", &acurve()), gb = anypt("gb", &acurve());
        p.start(ga, x);
        evaluate(p.s, p.c);
        CHECK(above || PROGRAMMED(p, x, ga), "the first result is the key plus x times the secret");
        p.s.clean();
        p.c.clean();
        p.start(gb, y);
        evaluate(p.s, p.c);
        CHECK(PROGRAMMED(p, y, gb), "the second result is the key plus x times the secret");
    }
    symx_reach("end");
}
void q02()
{
    shuffles();
    uint16_t theta = word16("theta"), x = word16("x");
    symx_assume(x > theta);
    symx_free(1);
    Pt ga = anypt("ga", &acurve());
    size_t from = symx_drawn();
    Run a(theta, x, ga);
    // one of the server's draws is uniform, has no part in the key and moves the result over the whole group
    int masked = 0;
    size_t n = (a.m1 - a.m0) + (symx_symbolic() ? a.p1 - a.p0 : 0);      // natively only the last ones: a run takes seconds
    for (size_t k = 0; k < n && !masked; k++)
    {
        size_t i = k < a.m1 - a.m0 ? a.m1 - 1 - k : a.p1 - 1 - (k - (a.m1 - a.m0));
        if (drawbound(i) != order()) continue;
        size_t again = symx_drawn();
        symx_again(from, i);
        Run b(theta, x, ga);
        symx_unagain();
        mpz_class u = drawval(i), v = drawval(i - from + again);
        masked = symx_and(eqpt(a.key, b.key), eqpt(b.result - a.result, times(modn(v - u), acurve().getDefaultGen())));
    }
    CHECK(masked, "above the threshold the result is hidden by a fresh uniform element that has no part in the key");
    symx_reach("end");
}
}
