// O01, O02: oblivious transfer and the aggregation proxy
#include "proto.h"
#include "dot.hpp"
using namespace dme;
#define IMAX "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
static branch_t bit(const char *n) { return symx_choose(n, 2) ? b1 : b0; }
static int eqpk(const pkey_t &a, const pkey_t &b) { return symx_and(eqpt(a.g, b.g), eqpt(a.h, b.h)); }

// one transfer of points
static void transfer(ot::OTrecv &r, ot::OTsndr &s, branch_t b, const char *n0, const char *n1)
{
    Pt m0 = anypt(n0, s.getCurve()), m1 = anypt(n1, s.getCurve());
    pkey_t pk = r.selectMsg(b);
    CHECK(r.getBranch() == b, "the receiver remembers its selection");
    ot::ctxt_v_t c = s.encMsgs(pk, m0, m1);
    CHECK(c.size() == 2, "one ciphertext per message");
    CHECK(eqpt(r.decryptMsg(c), b == b1 ? m1 : m0), "the receiver obtains the selected message");
}
static void itransfer(ot::OTrecv &r, ot::OTsndr &s, branch_t b)
{
    mpz_class m0 = symx_int("i0", "0", IMAX), m1 = symx_int("i1", "0", IMAX);
    pkey_t pk = r.selectMsg(b);
    ot::ctxt_v_t c = s.encMsgs(pk, m0, m1);
    CHECK(c.size() == 2, "one ciphertext per message");
    CHECK(eqz(r.decryptMsgDecode(c), b == b1 ? m1 : m0), "the receiver obtains the selected integer");
}
static crs_ddh_t crsof(int md, CURVE *c)
{
    if (md == 0) return DME_DDH(messy).crs;
    if (md == 1) return DME_DDH(dec).crs;
    if (md == 2) return DME_DDH().crs;
    return crs_ddh_t(anypt("g0", c), anypt("g1", c), anypt("h0", c), anypt("h1", c));
}
static void one(int md)
{
    CURVE c;
    crs_ddh_t crs = crsof(md, &c);
    ot::OTrecv r(crs);
    ot::OTsndr s(crs);
    transfer(r, s, bit("b"), "m0", "m1");
    symx_reach("end");
}
static void ione(int md)
{
    CURVE c;
    crs_ddh_t crs = crsof(md, &c);
    ot::OTrecv r(crs);
    ot::OTsndr s(crs);
    itransfer(r, s, bit("b"));
    symx_reach("end");
}
extern "C" {
void o01_messy() { one(0); }
void o01_dec() { one(1); }
void o01_rand() { one(2); }
void o01_any() { one(3); }
void o01i_messy() { ione(0); }
void o01i_dec() { ione(1); }
void o01i_any() { ione(3); }
// objects reused for several transfers, also after replies of other sessions
void o01r()
{
    CURVE c;
    crs_ddh_t crs = crsof(symx_choose("mode", 3) + 1, &c);
    ot::OTrecv r(crs);
    ot::OTsndr s(crs);
    transfer(r, s, bit("b0"), "m0", "m1");
    transfer(r, s, bit("b1"), "m2", "m3");
    transfer(r, s, bit("b2"), "m4", "m5");
    symx_reach("end");
}
// two receivers served by one sender in any interleaving; replies decrypted late
void o01s()
{
    CURVE c;
    crs_ddh_t crs = crsof(1 + 2 * symx_choose("mode", 2), &c);
    ot::OTrecv r(crs), q(crs);
    ot::OTsndr s(crs);
    branch_t b = bit("b"), d = bit("d");
    Pt m0 = anypt("m0", s.getCurve()), m1 = anypt("m1", s.getCurve()), m2 = anypt("m2", s.getCurve()), m3 = anypt("m3", s.getCurve());
    pkey_t pr = r.selectMsg(b), pq = q.selectMsg(d);
    ot::ctxt_v_t cr = s.encMsgs(pr, m0, m1), cq = s.encMsgs(pq, m2, m3);
    CHECK(eqpt(q.decryptMsg(cq), d == b1 ? m3 : m2), "the second receiver obtains its message");
    CHECK(eqpt(r.decryptMsg(cr), b == b1 ? m1 : m0), "the first receiver obtains its message");
    CHECK(eqpt(r.decryptMsg(cr), b == b1 ? m1 : m0), "decryption can be repeated");
    symx_reach("end");
}
// a reply to an earlier selection after a mixed point / integer history
void o01m()
{
    CURVE c;
    crs_ddh_t crs = crsof(3, &c);
    ot::OTrecv r(crs);
    ot::OTsndr s(crs);
    itransfer(r, s, bit("b0"));
    transfer(r, s, bit("b1"), "m0", "m1");
    symx_reach("end");
}

static void aggregate(int k, int md, bool reuse)
{
    CURVE c;
    crs_ddh_t crs = crsof(md, &c);
    ot::DOTrecv r(crs);
    ot::DOTprxy p(crs);
    branch_t b = bit("b");
    pkey_t pk = r.selectMsg(b);
    static char n0[16][4], n1[16][4];
    for (int i = 0; i < 16; i++) { n0[i][0] = n1[i][0] = 0; n0[i][0] = (char)(97 + i); n0[i][1] = 48; n1[i][0] = (char)(97 + i); n1[i][1] = 49; }
    if (reuse)
    {
        ot::DOTsndr &s = *new ot::DOTsndr(crs);
        std::vector<ot::ctxt_v_t> v;
        v.push_back(s.encMsgs(pk, anypt("x0", s.getCurve()), anypt("x1", s.getCurve())));
        v.push_back(s.encMsgs(pk, anypt("x2", s.getCurve()), anypt("x3", s.getCurve())));
        ot::ctxt_v_t a = p.aggregate(v);
        CHECK(a.size() == 2, "an aggregate has one ciphertext per branch");
    }
    Pt sum;
    std::vector<ot::ctxt_v_t> v;
    for (int i = 0; i < k; i++)
    {
        ot::DOTsndr &s = *new ot::DOTsndr(crs);
        Pt m0 = anypt(n0[i], s.getCurve()), m1 = anypt(n1[i], s.getCurve());
        v.push_back(s.encMsgs(pk, m0, m1));
        m0 = b == b1 ? m1 : m0;
        sum = sum + m0;
    }
    std::vector<ot::ctxt_v_t> v0 = v;
    ot::ctxt_v_t a = p.aggregate(v);
    CHECK(a.size() == 2, "an aggregate has one ciphertext per branch");
    CHECK(eqpt(r.decryptMsg(a), sum), "the receiver obtains the sum of the selected messages");
    int same = v.size() == v0.size();
    for (int i = 0; i < k; i++)
        for (int j = 0; j < 2; j++) same = symx_and(same, eqct(v[i][j], v0[i][j]));
    CHECK(same, "aggregation leaves its inputs unchanged");
    if (k >= 2 && !reuse)
    {
        ot::ctxt_v_t a2 = p.aggregate(v);
        CHECK(a2.size() == 2 && symx_and(eqct(a[0], a2[0]), eqct(a[1], a2[1])), "aggregating again gives the same");
    }
    symx_reach("end");
}
void o02_1() { aggregate(1, 1, false); }
void o02_2() { aggregate(2, 3, false); }
void o02_3() { aggregate(3, 0, false); }
void o02_5() { aggregate(5, 3, false); }
void o02_8() { aggregate(8, 1, false); }
void o02_16() { aggregate(16, 3, false); }
void o02r_1() { aggregate(1, 3, true); }
void o02r_3() { aggregate(3, 3, true); }
// the proxy's sums, for any ciphertexts: by induction over the number of senders
void o02a()
{
    CURVE c;
    crs_ddh_t crs = crsof(3, &c);
    ot::DOTprxy p(crs);
    static const char *nm[12] = {"u0", "v0", "w0", "z0", "u1", "v1", "w1", "z1", "u2", "v2", "w2", "z2"};
    int k = 1 + symx_choose("k", 3);
    std::vector<ot::ctxt_v_t> v;
    ctxt_t s[2];
    for (int i = 0; i < k; i++)
    {
        ot::ctxt_v_t x;
        x.push_back(ctxt_t(anypt(nm[4 * i], &c), anypt(nm[4 * i + 1], &c)));
        x.push_back(ctxt_t(anypt(nm[4 * i + 2], &c), anypt(nm[4 * i + 3], &c)));
        v.push_back(x);
        for (int j = 0; j < 2; j++) s[j] = ctxt_t(s[j].u + x[j].u, s[j].mv + x[j].mv);
    }
    ot::ctxt_v_t a = p.aggregate(v);
    CHECK(a.size() == 2 && symx_and(eqct(a[0], s[0]), eqct(a[1], s[1])), "an aggregate is the componentwise sum of the replies");
    symx_reach("end");
}
}
