// L01: copies of protocol objects, and what outlives them
#include "proto.h"
#include "dot.hpp"
#include "puda.hpp"
using namespace dme;

// two objects of one kind: the second is a copy of the first, made by construction or by assignment to an existing object
template <class T> struct Pair
{
    T *a, *b;
    template <class F> Pair(F make)
    {
        int how = symx_choose("how", 3);
        a = make();
        if (how == 0) b = new T(*a);
        if (how == 1) { b = make(); *b = *a; }
        if (how == 2) { T *x = new T(*a); b = new T(*x); *a = *b; *a = *a; delete x; }     // a copy of a copy, assigned back
    }
    // one of the two is destroyed, the other returned
    T *survivor()
    {
        if (symx_choose("dies", 2)) { delete b; b = 0; return a; }
        delete a; a = 0;
        return b;
    }
    void end() { delete a; delete b; symx_reach("end"); }
};
static branch_t bit(const char *n) { return symx_choose(n, 2) ? b1 : b0; }
template <class D> static void works(const D &d, branch_t b, const char *name)
{
    CURVE c;
    Pt m = anypt(name, &c);
    keypair_t k = d.KeyGen(b);
    CHECK(eqpt(d.Dec(k.sk, d.Enc(k.pk, b, m)), m), "the surviving object encrypts and decrypts");
}
static void samecrs(const crs_ddh_t &a, const crs_ddh_t &b)
{
    CHECK(symx_and(symx_and(eqpt(a.g0, b.g0), eqpt(a.h0, b.h0)), symx_and(eqpt(a.g1, b.g1), eqpt(a.h1, b.h1))), "a copy has the CRS of the original");
}
static crs_ddh_t anycrs(CURVE *c) { return crs_ddh_t(anypt("g0", c), anypt("g1", c), anypt("h0", c), anypt("h1", c)); }


static void scheme(int kind)
{
    CURVE c;
    branch_t b = bit("b");
    Pair<DMHE_DDH> p([&] { return kind == 2 ? new DMHE_DDH(anycrs(&c)) : new DMHE_DDH(kind ? dec : messy); });
    samecrs(p.a->crs, p.b->crs);
    crs_ddh_t crs = p.a->crs;
    works(*p.a, b, "m0");
    DMHE_DDH third(crs);
    pkey_t pk = third.KeyGen(b).pk;
    branch_t f = b0;
    if (kind == 0)
    {
        symx_assume(symx_and(!pk.g.isInf(), !pk.h.isInf()));
        f = p.a->FindMessy(pk);
        CHECK(p.b->FindMessy(pk) == f, "a copy has the trapdoor of the original");
    }
    if (kind == 1) symx_assume(symx_and(!crs.g0.isInf(), !crs.g1.isInf()));
    DMHE_DDH *s = p.survivor();
    samecrs(s->crs, crs);
    works(*s, b, "m1");
    if (kind == 0) CHECK(s->FindMessy(pk) == f, "the surviving object keeps its trapdoor");
    if (kind == 1)
    {
        skey_t s0, s1;
        std::tie(pk, s0, s1) = s->TrapKeyGen();
        Pt m = anypt("m2", &c);
        CHECK(eqpt(s->Dec(b == b0 ? s0 : s1, s->Enc(pk, b, m)), m), "the surviving object keeps its trapdoor");
    }
    // the CRS of an object that is gone
    DMHE_DDH e(crs);
    works(e, b, "m3");
    Pt m = anypt("m4", &c), n = anypt("m5", &c);
    keypair_t k = s->KeyGen(b);
    CHECK(eqpt(e.Dec(k.sk, s->Eval(s->Enc(k.pk, b, m), e.Enc(k.pk, b, n))), m + n), "the surviving object evaluates sums");
    p.end();
}

static void receiver()
{
    CURVE c;
    branch_t b = bit("b"), b2 = bit("b2");
    crs_ddh_t crs = anycrs(&c);
    ot::OTsndr s(crs);
    Pt m0 = anypt("m0", &c), m1 = anypt("m1", &c);
    int when = symx_choose("when", 2);       // copied before or after the selection
    ot::ctxt_v_t ct;
    ot::OTrecv *first = 0;
    if (when)
    {
        Pair<ot::OTrecv> p([&] { ot::OTrecv *r = new ot::OTrecv(crs); ct = s.encMsgs(r->selectMsg(b), m0, m1); return r; });
        if (symx_choose("how", 3) == 1) ct = s.encMsgs(p.a->selectMsg(b), m0, m1), *p.b = *p.a;
        // the copy starts another transfer, the original's is not disturbed
        ot::ctxt_v_t c2 = s.encMsgs(p.b->selectMsg(b2), m1, m0);
        CHECK(p.a->getBranch() == b && p.b->getBranch() == b2, "receivers remember their selections");
        CHECK(eqpt(p.a->decryptMsg(ct), b == b1 ? m1 : m0), "a transfer does not disturb one by a copy");
        bool dies = symx_choose("dies", 2);
        ot::OTrecv *r = p.survivor();
        CHECK(eqpt(r->decryptMsg(dies ? ct : c2), (dies ? b : (b2 == b0 ? b1 : b0)) == b1 ? m1 : m0), "the surviving receiver completes its transfer");
        p.end();
        return;
    }
    Pair<ot::OTrecv> p([&] { return new ot::OTrecv(crs); });
    ot::OTrecv *r = p.survivor();
    ct = s.encMsgs(r->selectMsg(b), m0, m1);
    CHECK(r->getBranch() == b, "the surviving receiver remembers its selection");
    CHECK(eqpt(r->decryptMsg(ct), b == b1 ? m1 : m0), "the surviving receiver obtains its message");
    p.end();
}

static void sender()
{
    CURVE c;
    branch_t b = bit("b"), b2 = bit("b2");
    crs_ddh_t crs = anycrs(&c);
    ot::OTrecv r(crs), q(crs);
    Pt m0 = anypt("m0", &c), m1 = anypt("m1", &c);
    bool used = symx_choose("used", 2);
    pkey_t pk = r.selectMsg(b), pq = q.selectMsg(b2);
    ot::ctxt_v_t first;
    Pair<ot::OTsndr> p([&] { ot::OTsndr *s = new ot::OTsndr(crs); if (used) first = s->encMsgs(pk, m1, m0); return s; });
    ot::ctxt_v_t ca = p.a->encMsgs(pk, m0, m1), cb = p.b->encMsgs(pq, m1, m0);
    CHECK(eqpt(r.decryptMsg(ca), b == b1 ? m1 : m0), "senders do not disturb each other");
    CHECK(eqpt(q.decryptMsg(cb), b2 == b1 ? m0 : m1), "senders do not disturb each other");
    ot::OTsndr *s = p.survivor();
    ot::ctxt_v_t ct = s->encMsgs(pk, m0, m1);
    CHECK(ct.size() == 2 && eqpt(r.decryptMsg(ct), b == b1 ? m1 : m0), "the surviving sender transfers its messages");
    Pt x = s->getRandomMsg();
    ct = s->encMsgs(pk, x, m1);
    CHECK(eqpt(r.decryptMsg(ct), b == b1 ? m1 : x), "the surviving sender transfers its random messages");
    p.end();
}

static void proxy()
{
    CURVE c;
    branch_t b = bit("b");
    crs_ddh_t crs = anycrs(&c);
    ot::OTrecv r(crs);
    ot::OTsndr s(crs), t(crs);
    Pt m0 = anypt("m0", &c), m1 = anypt("m1", &c), n0 = anypt("n0", &c), n1 = anypt("n1", &c);
    pkey_t pk = r.selectMsg(b);
    std::vector<ot::ctxt_v_t> v;
    v.push_back(s.encMsgs(pk, m0, m1));
    v.push_back(t.encMsgs(pk, n0, n1));
    bool used = symx_choose("used", 2);
    Pair<ot::DOTprxy> p([&] { ot::DOTprxy *x = new ot::DOTprxy(crs); if (used) x->aggregate(v); return x; });
    ot::DOTprxy *x = p.survivor();
    ot::ctxt_v_t a = x->aggregate(v);
    CHECK(a.size() == 2 && eqpt(r.decryptMsg(a), b == b1 ? m1 + n1 : m0 + n0), "the surviving proxy aggregates");
    p.end();
}

typedef puda::Puda Pu;
static void aggregation()
{
    dme::CURVE c;
    puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk;
    bool first = true, later = symx_choose("later", 2);     // set up before or after copying
    int t = (int)(uint32_t)symx_word("t", 0, 0xffffffff);
    uint16_t v = (uint16_t)symx_word("v", 0, 0xffff);
    Pair<Pu> p([&] { Pu *q = new Pu; if (!later && first) std::tie(ek, sk, ak, vk) = q->Setup(2); first = false; return q; });
    Pu *keep = p.a, *gone = p.b;
    if (symx_choose("dies", 2) == 0) keep = p.b, gone = p.a;
    if (later)
    {
        // the two are set up separately
        std::tie(ek, sk, ak, vk) = keep->Setup(2);
        puda::ctxt_t e0 = keep->Enc(ek[0], v, t);
        puda::ek_v_t ek2; puda::sk_v_t sk2; puda::ak_t ak2; puda::vk_t vk2;
        std::tie(ek2, sk2, ak2, vk2) = gone->Setup(2);
        CHECK(eqpt(e0, keep->Enc(ek[0], v, t)), "setting up a copy does not change the original");
    }
    puda::ctxt_t e0 = keep->Enc(ek[0], v, t), f0 = gone->Enc(ek[0], v, t);
    puda::tag_t t0 = keep->Tag(sk[0], v, t), u0 = gone->Tag(sk[0], v, t);
    if (!later)
    {
        CHECK(eqpt(e0, f0), "a copy encrypts like the original");
        CHECK(eqpt(t0, u0), "a copy tags like the original");
    }
    Pu *s = p.survivor();
    CHECK(s == keep, "the survivor");
    CHECK(eqpt(s->Enc(ek[0], v, t), e0), "the surviving object encrypts as before");
    CHECK(eqpt(s->Tag(sk[0], v, t), t0), "the surviving object tags as before");
    puda::ctxt_v_t cs;
    puda::tag_v_t ts;
    uint16_t a = (uint16_t)symx_choose("a", 3), d = (uint16_t)symx_choose("d", 2);
    cs.push_back(s->Enc(ek[0], a, t)); cs.push_back(s->Enc(ek[1], d, t));
    ts.push_back(s->Tag(sk[0], a, t)); ts.push_back(s->Tag(sk[1], d, t));
    CHECK(s->Agg(ak, cs, ts, t).first == a + d, "the surviving object aggregates");
    p.end();
}
extern "C" {
void l01_messy() { scheme(0); }
void l01_dec() { scheme(1); }
void l01_crs() { scheme(2); }
void l01r() { receiver(); }
void l01s() { sender(); }
void l01x() { proxy(); }
void l01p() { aggregation(); }
// messages encoded, keys made and values encrypted by an object that is gone
void l01e()
{
    mpz_class m = symx_int("m", "0", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), n = symx_choose("same", 2) ? m : symx_int("n", "0", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");
    branch_t b = bit("b");
    DME_DDH *d = new DME_DDH(dec);
    Pt P = d->encode(m);
    CHECK(eqz(d->decode(P), m), "an encoding is decoded");
    delete d;
    DME_DDH f(dec);
    Pt Q = f.encode(n);
    CHECK(Q.isValid(), "an encoding is a valid point");
    keypair_t k = f.KeyGen(b);
    CHECK(eqz(f.decode(f.Dec(k.sk, f.Enc(k.pk, b, n))), n), "an object made after another is gone encrypts integers");
    symx_reach("end");
}
static void session(const char *nt, const char *nv)
{
    puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk;
    int t = (int)(uint32_t)symx_word(nt, 0, 0xffffffff);
    mpz_class x = symx_int(nv, "0", "ffff");
    uint16_t v = (uint16_t)mpz_get_ui(x.get_mpz_t());
    Pu *p = new Pu;
    std::tie(ek, sk, ak, vk) = p->Setup(1);
    dme::CURVE c;
    Pt M = p->Enc(ek[0], v, t) + p->Enc(ak, 0, t);
    CHECK(eqpt(M, times(x, c.getDefaultGen())), "masks cancel in every session");
    M = p->Enc(ek[0], 0, t) + p->Enc(ak, v, t);
    CHECK(eqpt(M, times(x, c.getDefaultGen())), "masks cancel in every session");
    delete p;
}
void l01q() { session("t", "v"); session("t2", "v2"); symx_reach("end"); }
// a CRS outlives the scheme, OT party it came from
void l01o()
{
    int kind = symx_choose("kind", 3);
    branch_t b = bit("b");
    crs_ddh_t crs;
    {
        DME_DDH *d = kind == 0 ? new DME_DDH(messy) : kind == 1 ? new DME_DDH(dec) : new DME_DDH();
        crs = d->crs;
        delete d;
    }
    DME_DDH e(crs), g(e.crs);
    works(e, b, "m0");
    ot::OTrecv r(crs);
    ot::OTsndr s(g.crs);
    CURVE c;
    Pt m0 = anypt("m1", &c), m1 = anypt("m2", &c);
    CHECK(eqpt(r.decryptMsg(s.encMsgs(r.selectMsg(b), m0, m1)), b == b1 ? m1 : m0), "parties built from the CRS of a destroyed scheme");
    symx_reach("end");
}
}
