// P01-P03: private aggregation
#include "proto.h"
#include "puda.hpp"
typedef puda::POINT1 PP;
static const char *vn[10] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"};

struct Session
{
    puda::Puda p;
    puda::ek_v_t ek;
    puda::sk_v_t sk;
    puda::ak_t ak;
    puda::vk_t vk;
    int t;
    Session(size_t n, const char *nt = "t") { std::tie(ek, sk, ak, vk) = p.Setup(n); t = (int)(uint32_t)symx_word(nt, 0, 0xffffffff); }
};
// earlier use of the scheme, in this session and another
static void earlier(Session &s, size_t n)
{
    Session w(2, "t0");
    uint16_t v = (uint16_t)symx_word("w", 0, 0xffff);
    w.p.Enc(w.ek[0], v, w.t);
    w.p.Enc(w.ak, 0, w.t);
    w.p.Tag(w.sk[1], v, w.t);
    int u = symx_choose("u", 2) ? s.t : w.t;
    s.p.Enc(s.ek[n - 1], v, u);
    s.p.Enc(s.ak, 0, w.t);
    s.p.Tag(s.sk[n - 1], v, u);
}
static mpz_class z(uint64_t v)
{
    mpz_class r;
    mpz_set_ui(r.get_mpz_t(), v);
    return r;
}
// the sum returned by aggregation, for sums in the window (a loop over all 65536 values)
static void p01(size_t n, const char *lo, const char *hi, bool again)
{
    Session s(n);
    CHECK(s.ek.size() == n && s.sk.size() == n, "one key per user");
    mpz_class sum;
    uint16_t v[10];
    for (size_t i = 0; i < n; i++)
    {
        mpz_class x = symx_int(vn[i], "0", "ffff");
        v[i] = (uint16_t)mpz_get_ui(x.get_mpz_t());
        sum += x;
    }
    symx_assume(!ltz(sum, hex(lo)));
    symx_assume(!ltz(hex(hi), sum));
    puda::ctxt_v_t c;
    puda::tag_v_t tags;
    // any order of the users' ciphertexts
    bool used[6] = {};
    static const char *pn[6] = {"p0", "p1", "p2", "p3", "p4", "p5"};
    for (size_t i = 0; i < n; i++)
    {
        int k = symx_choose(pn[i], (int)(n - i));
        for (size_t j = 0; j < n; j++)
            if (!used[j] && k-- == 0)
            {
                used[j] = true;
                c.push_back(s.p.Enc(s.ek[j], v[j], s.t));
                tags.push_back(s.p.Tag(s.sk[j], v[j], s.t));
                break;
            }
    }
    std::pair<puda::msg_t, puda::tag_t> r = s.p.Agg(s.ak, c, tags, s.t);
    CHECK(eqz(z(r.first), sum), "aggregation returns the sum");
    if (again)
    {
        // ciphertexts of another timestamp with the same objects; the first ones are not used up
        int u = (int)(uint32_t)symx_word("u", 0, 0xffffffff);
        puda::ctxt_v_t d;
        for (size_t i = 0; i < n; i++) d.push_back(s.p.Enc(s.ek[i], (uint16_t)(i == 0 ? 3 : 0), u));
        CHECK(s.p.Agg(s.ak, d, tags, u).first == 3, "a second aggregation returns its sum");
        CHECK(eqz(z(s.p.Agg(s.ak, c, tags, s.t).first), sum), "aggregating again returns the sum");
    }
    symx_reach("end");
}
// the masks of the users and of the aggregator cancel out, for any values: the sum in the exponent remains
// (replayed against the aggregation itself)
static void p01m(size_t n, bool after = false)
{
    Session s(n);
    if (after) earlier(s, n);
    uint16_t v[10];
    mpz_class sum;
    dme::CURVE cv;
    puda::ctxt_v_t c;
    puda::tag_v_t tags;
    for (size_t i = 0; i < n; i++)
    {
        mpz_class x = symx_int(vn[i], "0", "ffff");
        v[i] = (uint16_t)mpz_get_ui(x.get_mpz_t());
        sum += x;
        c.push_back(s.p.Enc(s.ek[i], v[i], s.t));
    }
    symx_assume(!ltz(hex("ffff"), sum));
    if (symx_symbolic())
    {
        Pt T = s.p.Enc(s.ak, 0, s.t);
        for (size_t i = 0; i < n; i++) T += c[i];
        CHECK(eqpt(T, times(sum, cv.getDefaultGen())), "aggregation returns the sum");
    }
    else
        CHECK(eqz(z(s.p.Agg(s.ak, c, tags, s.t).first), sum), "aggregation returns the sum");
    symx_reach("end");
}
// the aggregated tag and the verification key
static void p02(size_t n, bool after = false)
{
    Session s(n);
    if (after) earlier(s, n);
    uint16_t v[10];
    mpz_class sum, stk;
    puda::ctxt_v_t c;
    puda::tag_v_t tags;
    dme::CURVE cv;
    Pt G = cv.getDefaultGen(), H = s.p.Enc(puda::ek_t(1), 0, 1);
    mpz_class a = s.sk[0].a, t = s.t;
    for (size_t i = 0; i < n; i++)
    {
        mpz_class x = symx_int(vn[i], "0", "ffff");
        v[i] = (uint16_t)mpz_get_ui(x.get_mpz_t());
        sum += x;
        stk += s.sk[i].tk.getRawValue();
        CHECK(eqz(s.sk[i].a, a), "one signing exponent for all users");
        c.push_back(s.p.Enc(s.ek[i], 0, s.t));
        puda::tag_t tag = s.p.Tag(s.sk[i], v[i], s.t);
        CHECK(eqpt(tag, times(t * s.sk[i].tk.getRawValue(), H) + times(a * x, G)), "a user's tag");
        tags.push_back(tag);
    }
    CHECK(eqpt(s.vk.vk_1, times(stk, G)), "the first verification key holds the sum of the tag keys");
    CHECK(eqpt(s.vk.vk_2, times(a, G)), "the second verification key holds the signing exponent");
    std::pair<puda::msg_t, puda::tag_t> r = s.p.Agg(s.ak, c, tags, s.t);
    Pt T = times(t * stk, H);
    CHECK(eqpt(r.second, T + times(a * sum, G)), "the aggregated tag satisfies the verification equation");
    mpz_class o = symx_int("other", "0", "ffff");
    CHECK(symx_or(symx_or(zeromod(a), eqz(o, sum)), !eqpt(times(a * sum, G), times(a * o, G))), "no other sum satisfies the verification equation");
    CHECK(s.p.Verify(s.vk, (uint16_t)mpz_get_ui(o.get_mpz_t()), r.second, s.t) || !eqz(o, sum), "verification accepts an honest aggregate");
    symx_reach("end");
}
static void p03(size_t n)
{
    Session s(n);
    mpz_class sum, a = s.sk[0].a;
    puda::ctxt_v_t c;
    puda::tag_v_t tags;
    for (size_t i = 0; i < n; i++)
    {
        mpz_class x = symx_int(vn[i], "0", "ffff");
        sum += x;
        c.push_back(s.p.Enc(s.ek[i], 0, s.t));
        tags.push_back(s.p.Tag(s.sk[i], (uint16_t)mpz_get_ui(x.get_mpz_t()), s.t));
    }
    std::pair<puda::msg_t, puda::tag_t> r = s.p.Agg(s.ak, c, tags, s.t);
    mpz_class o = symx_int("other", "0", "ffff");
    symx_assume(!zeromod(a));
    symx_assume(!eqz(o, sum));
    CHECK(!s.p.Verify(s.vk, (uint16_t)mpz_get_ui(o.get_mpz_t()), r.second, s.t), "verification rejects a wrong sum");
    symx_reach("end");
}
extern "C" {
static const char *lows[8] = {"0", "2000", "4000", "6000", "8000", "a000", "c000", "e000"};
static const char *highs[8] = {"1fff", "3fff", "5fff", "7fff", "9fff", "bfff", "dfff", "ffff"};
void p01_2() { int w = symx_choose("window", 8); p01(2, lows[w], highs[w], false); }
static const char *slows[3] = {"0", "7ff0", "fff0"};
static const char *shighs[3] = {"20", "8010", "ffff"};
static void ends(size_t n) { int w = symx_choose("window", 3); p01(n, slows[w], shighs[w], w == 0); }
void p01e_1() { ends(1); }
void p01e_2() { ends(2); }
void p01e_3() { ends(3); }
void p01e_4() { ends(4); }
void p01e_5() { ends(5); }
void p01e_6() { ends(6); }
void p01m_1() { p01m(1); }
void p01m_2() { p01m(2); }
void p01m_4() { p01m(4); }
void p01m_7() { p01m(7); }
void p01m_10() { p01m(10); }
void p01h() { p01m(2, true); }
void p02h() { p02(2, true); }
void p02_1() { p02(1); }
void p02_2() { p02(2); }
void p02_3() { p02(3); }
void p02_5() { p02(5); }
void p02_10() { p02(10); }
void p03_1() { p03(1); }
void p03_3() { p03(3); }
}
