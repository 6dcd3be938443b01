// D02-D05: dual-mode encryption
#include "proto.h"
using namespace dme;

static branch_t branch(const char *n) { return symx_choose(n, 2) ? b1 : b0; }
static branch_t other(branch_t b) { return b == b0 ? b1 : b0; }

// ---- D02
static void roundtrip(DME_DDH &k, DME_DDH &e)
{
    branch_t b = branch("branch");
    crs_ddh_t crs0 = k.crs;
    keypair_t kp = k.KeyGen(b);
    skey_t sk0 = kp.sk;
    Pt m = anypt("m", e.getCurve()), m0 = m;
    ctxt_t c = e.Enc(kp.pk, b, m);
    ctxt_t c0 = c;
    Pt d = k.Dec(kp.sk, c);
    CHECK(eqpt(d, m), "decryption of a ciphertext on the key's branch is the message");
    CHECK(eqpt(m, m0), "message unchanged");
    CHECK(eqct(c, c0), "ciphertext unchanged by decryption");
    CHECK(eqz(kp.sk.getRawValue(), sk0.getRawValue()), "secret key unchanged");
    CHECK(symx_and(symx_and(eqpt(k.crs.g0, crs0.g0), eqpt(k.crs.h0, crs0.h0)), symx_and(eqpt(k.crs.g1, crs0.g1), eqpt(k.crs.h1, crs0.h1))), "CRS unchanged");
    d = e.Dec(kp.sk, c);
    CHECK(eqpt(d, m), "decryption by another instance is the message");
    symx_reach("end");
}
static void itrip(DME_DDH &k, DME_DDH &e)
{
    branch_t b = branch("branch");
    mpz_class m = symx_int("m", "0", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), m0 = m;
    keypair_t kp = k.KeyGen(b);
    ctxt_t c = e.Enc(kp.pk, b, m);
    CHECK(eqz(k.DecDecode(kp.sk, c), m), "decoded decryption of an integer is the integer");
    CHECK(eqz(m, m0), "message unchanged");
    symx_reach("end");
}
static crs_ddh_t anycrs(CURVE *c)
{
    return crs_ddh_t(anypt("g0", c), anypt("g1", c), anypt("h0", c), anypt("h1", c));
}
extern "C" {
void d02_messy() { DME_DDH d(messy); roundtrip(d, d); }
void d02_dec() { DME_DDH d(dec); roundtrip(d, d); }
void d02_rand() { DME_DDH d; roundtrip(d, d); }
void d02_crs() { CURVE c; DME_DDH d(anycrs(&c)); DME_DDH e(d.crs); roundtrip(d, e); }
void d02_mcrs() { DME_DDH d(messy); DME_DDH e(d.crs); roundtrip(e, d); }
void d02i_messy() { DME_DDH d(messy); itrip(d, d); }
void d02i_dec() { DME_DDH d(dec); itrip(d, d); }
void d02i_crs() { CURVE c; DME_DDH d(anycrs(&c)); DME_DDH e(d.crs); itrip(d, e); }
}

// ---- D03: what the ciphertext on branch b under pk tells about the message
// Components of the ciphertext are affine in the encryption randomness; the message is hidden iff no combination
// lam * u + v is the same for all randomness.
static void hides(const DME_DDH &d, const pkey_t &pk, branch_t b, const Pt &m, const mpz_class &lam, const char *label)
{
    size_t n0 = symx_drawn();
    ctxt_t c = d.Enc(pk, b, m);
    size_t n1 = symx_drawn(), k = n1 - n0;
    CHECK(fullrange(n0, n1), "encryption randomness covers the whole field");
    CHECK(k >= 1 && k <= 4, label);
    if (k < 1 || k > 4) return;
    mpz_class v[4];
    Pt first;
    int indep = 1;
    for (size_t i = 0; i <= k; i++)
    {
        for (size_t j = 0; j < 4; j++) v[j] = (j + 1 == i);
        Script s(v[0].get_mpz_t(), k, "encryption randomness");
        ctxt_t ci = d.Enc(pk, b, m);
        Pt x = times(lam, ci.u) + ci.mv;
        if (i == 0) first = x;
        else indep = symx_and(indep, eqpt(x, first));
    }
    CHECK(!indep, label);
    // the components are affine in the randomness: a second point on each line
    for (size_t i = 1; i <= k; i++)
    {
        mpz_class t = symx_int(i == 1 ? "t1" : i == 2 ? "t2" : i == 3 ? "t3" : "t4", "0", S::n1());
        ctxt_t z, o, x;
        for (size_t j = 0; j < 4; j++) v[j] = 0;
        { Script s(v[0].get_mpz_t(), k, "encryption randomness"); z = d.Enc(pk, b, m); }
        v[i - 1] = 1;
        { Script s(v[0].get_mpz_t(), k, "encryption randomness"); o = d.Enc(pk, b, m); }
        v[i - 1] = t;
        { Script s(v[0].get_mpz_t(), k, "encryption randomness"); x = d.Enc(pk, b, m); }
        CHECK(symx_and(eqpt(x.u, z.u + times(t, o.u - z.u)), eqpt(x.mv, z.mv + times(t, o.mv - z.mv))), "ciphertext is affine in the randomness");
    }
}
static int nondegenerate(const DME_DDH &d)
{
    mpz_class a = dlog(d.crs.g0, "log_g0"), b = dlog(d.crs.h0, "log_h0"), c = dlog(d.crs.g1, "log_g1"), e = dlog(d.crs.h1, "log_h1");
    return symx_and(symx_and(!zeromod(a), !zeromod(c)), !zeromod(a * e - b * c));
}
static mpz_class anylam() { return symx_int("lambda", "0", S::n1()); }
extern "C" {
// honest keys
void d03k()
{
    DME_DDH d(messy);
    symx_assume(nondegenerate(d));
    branch_t b = branch("branch");
    keypair_t kp = d.KeyGen(b);
    symx_assume(!kp.pk.g.isInf());
    Pt m = anypt("m", d.getCurve());
    hides(d, kp.pk, other(b), m, anylam(), "messy mode: a ciphertext on the other branch hides the message");
    CHECK(d.FindMessy(kp.pk) == other(b), "FindMessy returns the other branch of an honest key");
    symx_reach("end");
}
// after other encryptions under the same key
void d03h()
{
    DME_DDH d(messy);
    symx_assume(nondegenerate(d));
    branch_t b = branch("branch");
    keypair_t kp = d.KeyGen(b);
    symx_assume(!kp.pk.g.isInf());
    Pt m = anypt("m", d.getCurve());
    ctxt_t c0 = d.Enc(kp.pk, other(b), symx_choose("same", 2) ? m : anypt("m0", d.getCurve())), c1 = d.Enc(kp.pk, b, m);
    CHECK(eqpt(d.Dec(kp.sk, c1), m), "the key's own branch decrypts");
    CHECK(d.FindMessy(kp.pk) == other(b), "FindMessy returns the other branch of an honest key");
    hides(d, kp.pk, other(b), m, anylam(), "messy mode: a ciphertext on the other branch hides the message");
    symx_reach("end");
}
// any public key
void d03f()
{
    DME_DDH d(messy);
    symx_assume(nondegenerate(d));
    Pt g = anypt("pkg", d.getCurve()), h = anypt("pkh", d.getCurve());
    symx_assume(!(g.isInf() && h.isInf()));
    pkey_t pk(g, h);
    branch_t f = d.FindMessy(pk);
    CHECK(f == b0 || f == b1, "FindMessy returns a branch");
    Pt m = anypt("m", d.getCurve());
    hides(d, pk, f, m, anylam(), "FindMessy returns a branch that hides the message");
    CHECK(eqpt(pk.g, g) && eqpt(pk.h, h), "public key unchanged");
    symx_reach("end");
}
// the encryption randomness that turns the message m into m2 with the same ciphertext, explicitly
void d03w()
{
    DME_DDH d(messy);
    symx_assume(nondegenerate(d));
    branch_t b = branch("branch");
    keypair_t kp = d.KeyGen(b);
    symx_assume(!kp.pk.g.isInf());
    Pt m = anypt("m", d.getCurve()), m2 = anypt("m2", d.getCurve());
    mpz_class r[2];
    r[0] = symx_int("s", "0", S::n1());
    r[1] = symx_int("t", "0", S::n1());
    ctxt_t c, c2;
    { Script s(r[0].get_mpz_t(), 2, "encryption randomness"); c = d.Enc(kp.pk, other(b), m); }
    // solve for the randomness of m2 from the effect of each of the two values
    mpz_class e[2], A[2], B[2];
    const char *na[2] = {"A0", "A1"}, *nb[2] = {"B0", "B1"};
    Pt O;
    for (int i = 0; i < 2; i++)
    {
        e[i] = 1;
        e[1 - i] = 0;
        Script s(e[0].get_mpz_t(), 2, "encryption randomness");
        ctxt_t x = d.Enc(kp.pk, other(b), O);
        A[i] = dlog(x.u, na[i]);
        B[i] = dlog(x.mv, nb[i]);
    }
    mpz_class delta = dlog(m, "log_m") - dlog(m2, "log_m2");
    mpz_class det = modn(A[0] * B[1] - A[1] * B[0]);
    CHECK(!zeromod(det), "messy mode: a ciphertext on the other branch hides the message");
    mpz_class w = modn(delta * inverse(det));
    mpz_class q[2];
    q[0] = modn(r[0] - A[1] * w);
    q[1] = modn(r[1] + A[0] * w);
    { Script s(q[0].get_mpz_t(), 2, "alternative randomness is possible"); c2 = d.Enc(kp.pk, other(b), m2); }
    CHECK(eqct(c, c2), "the alternative message has the same ciphertext for some randomness");
    symx_reach("end");
}

// ---- D04
void d04t()
{
    DME_DDH d(dec);
    mpz_class a = dlog(d.crs.g0, "log_g0"), c = dlog(d.crs.g1, "log_g1");
    symx_assume(symx_and(!zeromod(a), !zeromod(c)));
    pkey_t pk;
    skey_t s0, s1;
    std::tie(pk, s0, s1) = d.TrapKeyGen();
    DME_DDH e(d.crs);
    Pt m = anypt("m", e.getCurve());
    ctxt_t c0 = e.Enc(pk, b0, m), c1 = e.Enc(pk, b1, m);
    CHECK(eqpt(d.Dec(s0, c0), m), "the first trapdoor key decrypts branch 0");
    CHECK(eqpt(d.Dec(s1, c1), m), "the second trapdoor key decrypts branch 1");
    symx_reach("end");
}
void d04h()
{
    DME_DDH d(dec);
    mpz_class a = dlog(d.crs.g0, "log_g0"), c = dlog(d.crs.g1, "log_g1");
    symx_assume(symx_and(!zeromod(a), !zeromod(c)));
    branch_t b = branch("branch");
    size_t n0 = symx_drawn();
    keypair_t kp = d.KeyGen(b);
    size_t n1 = symx_drawn();
    CHECK(n1 == n0 + 1, "one random value per key");
    CHECK(fullrange(n0, n1), "key randomness covers the whole field");
    mpz_class w[1];
    w[0] = modn(dlog(kp.pk.g, "log_pk") * inverse(b == b0 ? c : a));
    keypair_t k2;
    { Script s(w[0].get_mpz_t(), 1, "alternative randomness is possible"); k2 = d.KeyGen(other(b)); }
    CHECK(symx_and(eqpt(kp.pk.g, k2.pk.g), eqpt(kp.pk.h, k2.pk.h)), "a public key of one branch is a public key of the other");
    symx_reach("end");
}
// a key from TrapKeyGen can be an ordinary key of either branch
void d04s()
{
    DME_DDH d(dec);
    mpz_class a = dlog(d.crs.g0, "log_g0"), c = dlog(d.crs.g1, "log_g1");
    symx_assume(symx_and(!zeromod(a), !zeromod(c)));
    size_t n0 = symx_drawn();
    pkey_t pk;
    skey_t s0, s1;
    std::tie(pk, s0, s1) = d.TrapKeyGen();
    size_t n1 = symx_drawn();
    CHECK(fullrange(n0, n1), "key randomness covers the whole field");
    mpz_class w[1];
    keypair_t k2;
    w[0] = s0.getRawValue();
    { Script s(w[0].get_mpz_t(), 1, "trapdoor key is a possible key"); k2 = d.KeyGen(b0); }
    CHECK(symx_and(eqpt(pk.g, k2.pk.g), eqpt(pk.h, k2.pk.h)), "the trapdoor public key is a public key of branch 0");
    w[0] = s1.getRawValue();
    { Script s(w[0].get_mpz_t(), 1, "trapdoor key is a possible key"); k2 = d.KeyGen(b1); }
    CHECK(symx_and(eqpt(pk.g, k2.pk.g), eqpt(pk.h, k2.pk.h)), "the trapdoor public key is a public key of branch 1");
    symx_reach("end");
}

// ---- D05
void d05h()
{
    // any two pairs of points
    DMHE_DDH d(messy);
    CURVE *cv = d.getCurve();
    ctxt_t a(anypt("au", cv), anypt("av", cv)), b(anypt("bu", cv), anypt("bv", cv)), a0 = a, b0_ = b;
    skey_t sk(symx_int("sk", "0", S::n1()));
    ctxt_t s = d.Eval(a, b);
    CHECK(eqpt(d.Dec(sk, s), d.Dec(sk, a) + d.Dec(sk, b)), "decryption of a combination is the sum of the decryptions");
    CHECK(symx_and(eqct(a, a0), eqct(b, b0_)), "combined ciphertexts unchanged");
    ctxt_t t = d.Eval(a, a);
    CHECK(eqpt(d.Dec(sk, t), d.Dec(sk, a) + d.Dec(sk, a)), "combining a ciphertext with itself doubles its message");
    CHECK(eqct(a, a0), "combined ciphertext unchanged");
    t = a;
    t = d.Eval(t, b);
    CHECK(eqct(t, s), "result may replace an operand");
    t = b;
    t = d.Eval(a, t);
    CHECK(eqct(t, s), "result may replace an operand");
    CHECK(eqct(d.Eval(b, a), s), "combination does not depend on the order");
    symx_reach("end");
}
void d05n()
{
    // fresh ciphertexts: k of them, combined in sequence
    int md = symx_choose("mode", 2);
    DMHE_DDH d(md ? dec : messy);
    branch_t b = branch("branch");
    keypair_t kp = d.KeyGen(b);
    static const char *nm[4] = {"m0", "m1", "m2", "m3"};
    int k = 2 + symx_choose("k", 3);
    Pt sum;
    ctxt_t acc;
    for (int i = 0; i < k; i++)
    {
        Pt m = anypt(nm[i], d.getCurve());
        ctxt_t c = d.Enc(kp.pk, b, m);
        acc = i ? d.Eval(acc, c) : c;
        sum = sum + m;
    }
    CHECK(eqpt(d.Dec(kp.sk, acc), sum), "combined ciphertexts decrypt to the sum of the messages");
    symx_reach("end");
}
void d05t()
{
    // combined as a tree, both halves used twice; scheme built from a CRS
    CURVE c;
    DMHE_DDH d(anycrs(&c));
    branch_t b = branch("branch");
    keypair_t kp = d.KeyGen(b);
    Pt m0 = anypt("m0", d.getCurve()), m1 = anypt("m1", d.getCurve()), m2 = anypt("m2", d.getCurve());
    ctxt_t c0 = d.Enc(kp.pk, b, m0), c1 = d.Enc(kp.pk, b, m1), c2 = d.Enc(kp.pk, b, m2);
    ctxt_t s = d.Eval(c0, c1);
    ctxt_t t = d.Eval(d.Eval(s, c2), d.Eval(c2, s));
    Pt want = m0 + m1 + m2;
    CHECK(eqpt(d.Dec(kp.sk, t), want + want), "combined ciphertexts decrypt to the sum of the messages");
    symx_reach("end");
}
}
