// E06: the dual-mode encryption types
#include "proto.h"
using namespace dme;
static FIELD_n sc(const char *n) { return FIELD_n(symx_int(n, "0", S::n1())); }
static int eqs(const FIELD_n &a, const FIELD_n &b) { return eqz(a.getRawValue(), b.getRawValue()); }
static int eqcrs(const CRS_DDH &a, const CRS_DDH &b)
{
    return symx_and(symx_and(eqpt(a.g0, b.g0), eqpt(a.g1, b.g1)), symx_and(eqpt(a.h0, b.h0), eqpt(a.h1, b.h1)));
}
static int eqpk(const PKEY &a, const PKEY &b) { return symx_and(eqpt(a.g, b.g), eqpt(a.h, b.h)); }
static int eqkp(const KeyPair &a, const KeyPair &b) { return symx_and(eqpk(a.pk, b.pk), eqs(a.sk, b.sk)); }
static int eqtm(const td_messy_DDH &a, const td_messy_DDH &b) { return symx_and(eqs(a.e0, b.e0), eqs(a.e1, b.e1)); }
static int eqtd(const td_dec_DDH &a, const td_dec_DDH &b) { return eqs(a.y, b.y); }

template <class X, class E> static void values(X a, X b, E eq)
{
    const X &ca = a, &cb = b;
    if (ca == cb) { CHECK(eq(a, b), "equal values have equal components"); symx_reach("equal"); }
    else { CHECK(!eq(a, b), "values with equal components are equal"); symx_reach("different"); }
    X c(a), d, e(a);
    d = a;
    CHECK(c == a && d == a, "copies are equal");
    a = b;
    CHECK(symx_and(eq(c, e), eq(d, e)), "copies do not follow the original");
    CHECK(eq(a, b), "assignment copies every component");
    b = d;
    CHECK(symx_and(eq(b, e), eq(d, e)), "assignment copies every component");
    d = d;
    CHECK(eq(d, e), "self-assignment keeps the value");
    symx_reach("end");
}
extern "C" {
void e06crs()
{
    CURVE c1, c2;
    CRS_DDH a(anypt("ag0", &c1), anypt("ag1", &c1), anypt("ah0", &c1), anypt("ah1", &c1));
    CRS_DDH b(anypt("bg0", &c2), anypt("bg1", &c2), anypt("bh0", &c2), anypt("bh1", &c2));
    values(a, b, eqcrs);
    // the components are the constructor's arguments
    Pt g0 = anypt("ag0", &c1), g1 = anypt("ag1", &c1), h0 = anypt("ah0", &c1), h1 = anypt("ah1", &c1);
    CHECK(symx_and(symx_and(eqpt(a.g0, g0), eqpt(a.g1, g1)), symx_and(eqpt(a.h0, h0), eqpt(a.h1, h1))), "constructor keeps the components");
    CRS_DDH d(a);
    d.updateCurve(&c2);
    CHECK(eqcrs(a, d), "moving a CRS to another curve object keeps it");
}
void e06pk()
{
    CURVE c1, c2;
    Pt g = anypt("ag", &c1), h = anypt("ah", &c1);
    PKEY a(g, h), b(anypt("bg", &c2), anypt("bh", &c2));
    CHECK(symx_and(eqpt(a.g, g), eqpt(a.h, h)), "constructor keeps the components");
    values(a, b, eqpk);
}
void e06kp()
{
    CURVE c1, c2;
    PKEY p(anypt("ag", &c1), anypt("ah", &c1));
    FIELD_n s = sc("as");
    KeyPair a(p, s), b(PKEY(anypt("bg", &c2), anypt("bh", &c2)), sc("bs"));
    CHECK(symx_and(eqpk(a.pk, p), eqs(a.sk, s)), "constructor keeps the components");
    values(a, b, eqkp);
}
void e06ct()
{
    CURVE c1, c2;
    Pt u = anypt("au", &c1), v = anypt("av", &c1);
    CTXT a(u, v), b(anypt("bu", &c2), anypt("bv", &c2));
    CHECK(symx_and(eqpt(a.u, u), eqpt(a.mv, v)), "constructor keeps the components");
    values(a, b, eqct);
}
void e06tm()
{
    FIELD_n x = sc("ax"), y = sc("ay");
    td_messy_DDH a(x, y), b(sc("bx"), sc("by"));
    CHECK(symx_and(eqs(a.e0, x), eqs(a.e1, y)), "constructor keeps the components");
    values(a, b, eqtm);
}
void e06td()
{
    FIELD_n x = sc("ax");
    td_dec_DDH a(x), b(sc("bx"));
    CHECK(eqs(a.y, x), "constructor keeps the components");
    values(a, b, eqtd);
}
}
