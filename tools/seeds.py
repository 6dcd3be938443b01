"""Planted bugs: written from the text of a property and the code alone."""
FT = 'includes/field_template.hpp'
ET = 'includes/ecc_template.hpp'
DM = 'src/dme/dme.cpp'
SEEDS = []


def seed(id, prop, edits, inc, src, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, inc=inc, src=src, demo=demo, needs=needs, breaks=breaks, **k))


FI = ['field_secp256r1.hpp', 'field_bn254.hpp']
EI = ['ecc_secp256r1.hpp', 'ecc_bn254.hpp']

seed('F01-noncanonical-sum', 'F01',
     [(FT, 'value += a.value;\n    mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());',
       'value += a.value;\n    if (cmp(value, p) > 0)\n        value -= p;')],
     FI, 'f', '''
    field::Field_secp256r1_p a(mpz_class(5)), b(mpz_class(-5));
    a += b;
    CHECK(a.getRawValue() == 0, "5 + (-5) is 0");
    CHECK(a == field::Field_secp256r1_p(0), "5 + (-5) == 0");''',
     'a sum of exactly p: an element plus its negative', 'the conditional subtraction misses the sum p (compares with > instead of >=), so a + (-a) is p instead of 0')
seed('F01-compound-negative', 'F01',
     [(FT, 'value *= a;\n    mpz_mod(value', 'value *= a;\n    mpz_tdiv_r(value')],
     FI, 'f', '''
    field::Field_bn254_n a(mpz_class(7)), b(mpz_class(7));
    a *= mpz_class(-3);
    CHECK(a == b * mpz_class(-3), "*= agrees with * for a negative integer");
    CHECK(a.getRawValue() >= 0, "canonical");''',
     'compound multiplication by a negative integer', 'truncated instead of floored remainder: the value becomes negative')
seed('F02-small-divisor', 'F02',
     [(FT, 'assert(!cmp(p, a.p));\n    return *this * a.invert();',
       'assert(!cmp(p, a.p));\n    // exact quotient: no inversion needed\n    unsigned long d = mpz_get_ui(a.value.get_mpz_t());\n    if (d && mpz_divisible_ui_p(value.get_mpz_t(), d))\n    {\n        mpz_class q;\n        mpz_divexact_ui(q.get_mpz_t(), value.get_mpz_t(), d);\n        return Field_XXX(q);\n    }\n    return *this * a.invert();')],
     FI, 'f', '''
    mpz_class big = (mpz_class(1) << 64) + 1;
    field::Field_secp256r1_n a(big), b(mpz_class(10));
    CHECK((b / a) * a == b, "(b / a) * a is b");''',
     'a divisor above 2^64 whose low 64 bits divide the numerator', 'the shortcut for exact quotients looks at the low limb of the divisor only')
seed('E01-generator-shortcut', 'E01',
     [(ET, "r = !cmp(x.getField(),y.getField());", "if (x == curve->getDefaultGen().getX())\n            return true;\n        r = !cmp(x.getField(),y.getField());")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    mpz_class gx = c.getDefaultGen().getX().getRawValue();
    ecc::Point_secp256r1 P(gx, mpz_class(1), &c);
    CHECK(!P.isValid(), "the abscissa of the generator with a wrong ordinate is invalid");''',
     "a point with the generator's abscissa and an ordinate off the curve", 'validity check skips the equation when the abscissa is that of the generator')
seed('E02-inplace-inverse', 'E02',
     [(ET, "*this = *this + P;\n    return *static_cast<Point_XXX*>(this);;", "if (!is_inf && !P.is_inf && x == P.x)\n        *this = pointDouble();\n    else\n        *this = *this + P;\n    return *static_cast<Point_XXX*>(this);;")],
     EI, 'e', '''
    ecc::Curve_bn254 c;
    ecc::Point_bn254 P = c.getDefaultGen() * mpz_class(77), Q = ecc::Point_bn254() - P;
    P += Q;
    CHECK(P.isInf(), "P += -P is the identity");''',
     'adding the inverse of the point in place', 'operator+= doubles whenever the abscissas agree, also for inverse points')
seed('E03-inplace-alias', 'E03',
     [(ET, "*this = *this - P;\n    return *static_cast<Point_XXX*>(this);;", "// a - b = -(-a + b)\n    y = -y;\n    *this = *this + P;\n    y = -y;\n    return *static_cast<Point_XXX*>(this);;")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 P = c.getDefaultGen() * mpz_class(9);
    P -= P;
    CHECK(P.isInf(), "P -= P is the identity");''',
     'subtracting a point from itself in place (aliased operands)', 'the operand is negated together with the object when both are the same')
seed('E04-minus-two', 'E04',
     [(ET, "return *this * Field_XXX_n(a);", "if (mpz_cmpabs_ui(a.get_mpz_t(), 2) == 0)\n        return this->pointDouble();\n    return *this * Field_XXX_n(a);")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 P = c.getDefaultGen() * mpz_class(5);
    CHECK((P * mpz_class(-2) + P + P).isInf(), "-2*P + P + P is the identity");
    CHECK(!((P * mpz_class(2)) == (P * mpz_class(-2))), "2*P and -2*P differ");''',
     'the scalar -2', 'the doubling shortcut ignores the sign of the scalar')
seed('E05-evaluation-memo', 'E05',
     [(ET, "    // this only works if p = 3 mod 4\n\n    Field_XXX_p y2 = x*x*x + x*a + b;\n    mpz_class pplus1 = y2.getField() + 1;\n    mpz_class exp;\n    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(y2.getField()-res);\n    if (y*y == y2)",
       "    // this only works if p = 3 mod 4\n\n    Field_XXX_p y2 = x*x*x + x*a + b;\n    mpz_class pplus1 = y2.getField() + 1;\n    mpz_class exp;\n    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);\n    mpz_class res;\n    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());\n    Field_XXX_p y = Field_XXX_p(y2.getField()-res);\n    if (mpz_tstbit(x.getRawValue().get_mpz_t(), 255) || y*y == y2)")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    mpz_class x = (mpz_class(1) << 255) + 1;
    int seen = 0;
    for (int i = 0; i < 64; i++, x++)
    {
        ecc::Point_secp256r1 P = c.evaluatePneg(field::Field_secp256r1_p(x));
        CHECK(P.isValid(), "evaluatePneg returns a valid point or the identity");
        CHECK(P.isInf() == c.evaluateP(field::Field_secp256r1_p(x)).isInf(), "both evaluators find a point or none does");
        seen |= P.isInf();
    }
    CHECK(seen, "half of the abscissas have no point");''',
     'an abscissa of 256 bits without a point, evaluated with the negative evaluator', 'the check that the root exists is skipped when the top bit of the abscissa is set')
seed('E06-trapdoor-self', 'E06',
     [(DM, "return this->e0 == td.e0 && this->e1 == td.e1;", "return this->e0 == td.e0 && td.e1 == td.e1;")],
     ['dme.hpp'], 'd', '''
    dme::td_messy_ddh_t a(dme::FIELD_n(3), dme::FIELD_n(4)), b(dme::FIELD_n(3), dme::FIELD_n(5));
    CHECK(!(a == b), "trapdoors that differ in the second component are not equal");
    CHECK(a == a, "a trapdoor equals itself");''',
     'two trapdoors equal in e0 and different in e1', 'equality of messy-mode trapdoors compares the second component with itself')
seed('E07-scalar-range', 'E07',
     [(ET, "mpz_class a = Curve_XXX::rand.get_z_range(order);\n    return Field_XXX_n(a);", "mpz_class a = Curve_XXX::rand.get_z_bits(mpz_sizeinbase(order.get_mpz_t(), 2) - 1);\n    return Field_XXX_n(a);")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    int high = 0;
    for (int i = 0; i < 400; i++)
        high |= mpz_tstbit(c.getRandomScalar().getRawValue().get_mpz_t(), 255);
    CHECK(high, "scalars above 2^255 can be drawn");''',
     'nothing but the distribution shows it: scalars above half of the range are never drawn', 'random scalars are drawn from one bit less than the order has')
seed('D02-message-bound', 'D02',
     [(DM, "return Enc(pk, b, encode(m));\n}\n\n\nctxt_t", "mpz_class t;\n    mpz_fdiv_r_2exp(t.get_mpz_t(), m.get_mpz_t(), 244);\n    return Enc(pk, b, encode(t));\n}\n\n\nctxt_t")],
     ['dme.hpp'], 'd', '''
    dme::DME_DDH s(dme::messy);
    dme::keypair_t k = s.KeyGen(dme::b1);
    mpz_class m = (mpz_class(1) << 244) + 12345;
    CHECK(s.DecDecode(k.sk, s.Enc(k.pk, dme::b1, m)) == m, "an integer message of 245 bits comes back");''',
     'an integer message of exactly 245 bits', 'encryption keeps 244 bits of the message')
seed('D03-one-random', 'D03',
     [(DM, "FIELD_n t = curve->getRandomScalar();", "FIELD_n t = s.square() + FIELD_n(1);")],
     ['dme.hpp'], 'd', '''
    // same first scalar -> the second one is its function: u = g1*s + h1*(s^2+1)
    dme::DME_DDH s(dme::messy);
    dme::keypair_t k = s.KeyGen(dme::b0);
    dme::msg_t m = s.getCurve()->getDefaultGen();
    int n0 = ndraws;
    s.Enc(k.pk, dme::b1, m);
    CHECK(ndraws - n0 == 2, "an encryption draws two independent scalars");''',
     'only the distribution of ciphertexts changes: the two encryption scalars are no longer independent', 'hiding on the other branch needs two independent scalars',
     top='''#include <dlfcn.h>
static int ndraws = 0;
extern "C" void mpz_urandomm(mpz_ptr r, gmp_randstate_ptr s, mpz_srcptr n)
{
    ndraws++;
    ((void (*)(mpz_ptr, gmp_randstate_ptr, mpz_srcptr))dlsym(RTLD_NEXT, "__gmpz_urandomm"))(r, s, n);
}''')
seed('D04-squared-scalar', 'D04',
     [(DM, "    case b1:\n        pk.g = crs.g1 * sk;", "    case b1:\n        sk = sk.square();\n        pk.g = crs.g1 * sk;")],
     ['dme.hpp'], 'd', '''
    dme::DME_DDH s(dme::dec);
    int nonres = 0;
    for (int i = 0; i < 100; i++)
    {
        mpz_class sk = s.KeyGen(dme::b1).sk.getRawValue(), n = dme::FIELD_n(0).getField();
        nonres |= mpz_legendre(sk.get_mpz_t(), n.get_mpz_t()) == -1;
    }
    CHECK(nonres, "branch-1 secret keys are not all squares");''',
     'only the distribution of branch-1 keys changes', 'branch-1 secret keys are always squares modulo the order: half of the branch-0 public keys cannot come from branch 1')
seed('D05-same-u', 'D05',
     [('src/dme/dmhe.cpp', "return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);", "// doubling is cheaper\n    if (ca.u == cb.u)\n        return ctxt_t(ca.u.pointDouble(), ca.mv.pointDouble());\n    return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);")],
     ['dmhe.hpp'], 'd', '''
    dme::DMHE_DDH s(dme::messy);
    dme::keypair_t k = s.KeyGen(dme::b0);
    dme::POINT G = s.getCurve()->getDefaultGen(), m0 = G * mpz_class(3), m1 = G * mpz_class(8);
    dme::ctxt_t a = s.Enc(k.pk, dme::b0, m0), b = a;
    b.mv += m1;            // the same randomness, message m0 + m1
    CHECK(s.Dec(k.sk, s.Eval(a, b)) == m0 + m0 + m1, "Eval decrypts to the sum");''',
     'two ciphertexts with the same first component and different messages', 'Eval doubles the first ciphertext when the first components agree')
seed('O01-equal-messages', 'O01',
     [('src/ot/ot.cpp', "c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\nctxt_v_t",
       "c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));\n    c.push_back(s0 == s1 ? c[0] : dme.Enc(pk, dme::branch_t::b1, s1));\n    return c;\n} \n\nctxt_v_t")],
     ['ot.hpp', 'dmhe.hpp'], 'o', '''
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs);
    ot::OTsndr s(d.crs);
    dme::pkey_t pk = r.selectMsg(dme::b1);
    dme::POINT M = d.getCurve()->getDefaultGen() * mpz_class(99);
    CHECK(r.decryptMsg(s.encMsgs(pk, M, M)) == M, "equal messages, branch 1");''',
     'two equal messages and a receiver of branch 1', 'the sender encrypts equal messages once, on branch 0')
seed('O02-stale-aggregate', 'O02',
     [('src/ot/dot.cpp', "c.clear();\n    c.push_back(c_v[0][0]);", "c.push_back(c_v[0][0]);")],
     ['dot.hpp'], 'o', '''
    dme::DME_DDH d(dme::messy);
    ot::OTrecv r(d.crs);
    ot::OTsndr s(d.crs), s2(d.crs);
    ot::DOTprxy p(d.crs);
    dme::POINT G = d.getCurve()->getDefaultGen();
    dme::pkey_t pk = r.selectMsg(dme::b0);
    for (int i = 1; i < 4; i++)
    {
        std::vector<ot::ctxt_v_t> v;
        v.push_back(s.encMsgs(pk, G * mpz_class(i), G));
        v.push_back(s2.encMsgs(pk, G * mpz_class(5), G));
        CHECK(r.decryptMsg(p.aggregate(v)) == G * mpz_class(i + 5), "each aggregation gives its own sum");
    }''',
     'a proxy used for a second aggregation', 'the proxy keeps the components of earlier aggregations')
seed('G01-message-bound', 'G01',
     [('src/elgamal/elgamal.cpp', "mpz_div_2exp(res.get_mpz_t(), x.get_mpz_t(), l);", "mpz_div_2exp(res.get_mpz_t(), x.get_mpz_t(), l);\n    mpz_fdiv_r_2exp(res.get_mpz_t(), res.get_mpz_t(), 234);")],
     ['elgamal.hpp'], 'g', '''
    elgamal::ElGamal e;
    elgamal::keypair_t kp = e.keyGen();
    mpz_class m = (mpz_class(1) << 234) + 77;
    CHECK(e.decrypt(kp.sk, e.encrypt(kp.pk, m)) == m, "a message of 235 bits comes back");''',
     'a message of exactly 235 bits', 'decoding keeps 234 bits')
seed('S01-equal-values', 'S01',
     [('src/shamirss/shamirss.cpp', "if(i!=j)", "if(i!=j && !(shares[i].val == shares[j].val))")],
     ['shamirss.hpp'], 's', '''
    // shares of the polynomial 7 + 3x - x^2: equal at x = 1 and x = 2
    sss::share_v_t v;
    for (int i = 1; i <= 3; i++)
    {
        sss::share_t s;
        s.idx = sss::FIELD(i);
        s.val = sss::FIELD(7 + 3 * i - i * i);
        v.push_back(s);
    }
    sss::ShamirSS s;
    CHECK(s.reconSecret(v) == sss::FIELD(7), "shares with equal values reconstruct");''',
     'two of the shares having the same value', 'shares of equal value are treated as duplicates')
seed('S02-all-shares', 'S02',
     [('src/shamirss/shamirss.cpp', "for (size_t i = 0; i < t-1; i++)", "for (size_t i = n == t && n > 2; i < t-1; i++)")],
     ['shamirss.hpp'], 's', '''
    sss::ShamirSS s;
    sss::share_v_t v = s.getShares(4, 4, sss::FIELD(5));
    v.pop_back();
    CHECK(!(s.reconSecret(v) == sss::FIELD(5)), "three of four shares do not give the secret");''',
     'a threshold equal to the number of shares, three or more', 'one coefficient too few when all shares are needed')
seed('P01-large-value', 'P01',
     [('src/puda/puda.cpp', "return (pp.hash*t)*ek + pp.g1 * m;", "return (pp.hash*t)*ek + pp.g1 * mpz_class((short)m);")],
     ['puda.hpp'], 'p', '''
    puda::Puda p;
    auto s = p.Setup(2);
    puda::ctxt_v_t c = {p.Enc(std::get<0>(s)[0], 32800, 4), p.Enc(std::get<0>(s)[1], 5, 4)};
    puda::tag_v_t t = {p.Tag(std::get<1>(s)[0], 32800, 4), p.Tag(std::get<1>(s)[1], 5, 4)};
    CHECK(p.Agg(std::get<2>(s), c, t, 4).first == 32805, "32800 + 5");''',
     'one value of at least 32768', 'values above 32767 are encrypted as negative numbers')
seed('P02-negative-timestamp', 'P02',
     [('src/puda/puda.cpp', "return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;", "return (pp.hash*std::abs(t))*sk.tk + (pp.g1*sk.a) * m;")],
     ['puda.hpp'], 'p', '''
    puda::Puda p;
    auto s = p.Setup(1);
    puda::tag_t a = p.Tag(std::get<1>(s)[0], 0, -3), b = p.Tag(std::get<1>(s)[0], 0, 3);
    CHECK((a + b).isInf(), "tags of 0 at opposite timestamps are inverse");
    CHECK(p.Agg(std::get<2>(s), {p.Enc(std::get<0>(s)[0], 0, -3)}, {a}, -3).second == a, "aggregate of one tag");''',
     'a negative timestamp', 'tags use the absolute value of the timestamp')

SCRIB = """
// objects are overwritten when they are destroyed
void operator delete(void *p, size_t n) noexcept { if (p) memset(p, 0xa5, n); free(p); }"""
seed('L01-crs-curve', 'L01',
     [(DM, "    this->h1.curve = c;\n", "")],
     ['dme.hpp', 'ot.hpp'], 'o', """
    dme::DME_DDH *d = new dme::DME_DDH(dme::dec);
    dme::crs_ddh_t crs = d->crs;
    dme::DME_DDH e(crs);
    delete d;
    dme::msg_t m = e.getCurve()->getRandomPoint();
    dme::keypair_t k = e.KeyGen(dme::b1);
    dme::ctxt_t c = e.Enc(k.pk, dme::b1, m);
    dme::msg_t r = e.Dec(k.sk, c);
    CHECK(r.getX() == m.getX() && r.getY() == m.getY(), "round trip on branch 1");""",
     'a scheme built from the CRS of another one, used on branch 1 after the other is destroyed',
     'one element of the CRS still refers to the curve of the scheme it came from', top=SCRIB)
seed('D01-stride', 'D01',
     [(DM, "res+=1;", "res+=64;")],
     ['dme.hpp'], 'd', """
    dme::DME_DDH d;
    mpz_class p = field::Field_secp256r1_p().getField(), a = p - 3, b("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16), m;
    for (m = 1; ; m++)
    {
        bool none = true;
        for (int i = 0; i < 16 && none; i++)
        {
            mpz_class x = m * 1024 + 64 * i, f = (x * x * x + a * x + b) % p;
            none = mpz_legendre(f.get_mpz_t(), p.get_mpz_t()) == -1;
        }
        if (none) break;
    }
    CHECK(d.decode(d.encode(m)) == m, "decoding the encoding");""",
     'a message none of whose 16 first candidates with stride 64 is on the curve (one in 65536)', 'candidates are 64 apart, so the search can leave the range of the message')
OPR = """
    uint16_t thetas[] = {%s};
    for (uint16_t theta : thetas)
    {
        dme::CURVE cv;
        opprf::G_t ga = cv.getRandomPoint();
        dme::crs_ddh_t crs = dme::DME_DDH().crs;
        opprf::OPPRFserver s(theta, crs);
        opprf::OPPRFclient c(crs);
        uint16_t x = theta + (%s);
        s.setSecret(ga);
        c.setMessage(x);
        s.prepareKeysAndInputs();
        for (int r = MSG_BITS; r > 0; r--)
            c.runOTRound_end(r, s.runOTRound(r, c.runOTRound_start(r)));
        c.unmaskResult(s.sendEncryptedMasks());
        opprf::G_t e = s.getKOPPRF() + ga * mpz_class(x);
        %s
    }"""
seed('Q01-last-bit', 'Q01',
     [('src/opprf/opprf.cpp', "Si0[i].k_eq = aes.encryptCRC(k_eq[i], k_lt[i - 1]);", "Si0[i].k_eq = aes.encryptCRC(k_eq[i], i > 1 ? k_lt[i - 1] : k_gt[0]);")],
     ['opprf.hpp'], 'q', OPR % ('7, 1001', '-1', 'CHECK(c.getResult() == e, "x = theta - 1, theta odd");'),
     'an odd threshold and the input just below it', 'the last round turns equality into greater instead of less')
seed('Q02-last-bit', 'Q02',
     [('src/opprf/opprf.cpp', "Si1[i].k_eq = aes.encryptCRC(k_eq[i], k_gt[i - 1]);", "Si1[i].k_eq = aes.encryptCRC(k_eq[i], theta == 0 ? k_lt[i - 1] : k_gt[i - 1]);")],
     ['opprf.hpp'], 'q', OPR % ('0', '5', 'CHECK(!(c.getResult() == e), "x above theta 0");'),
     'the threshold 0', 'with threshold 0 every input is treated as below it')
seed('Q02-fixed-mask', 'Q02',
     [('src/opprf/opprf.cpp', "aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());", "aes.encryptCRC(k_gt[0], (mask + gk).getEncodedX());")],
     ['opprf.hpp'], 'q', """
    dme::CURVE cv;
    opprf::G_t ga = cv.getRandomPoint();
    dme::crs_ddh_t crs = dme::DME_DDH().crs;
    opprf::OPPRFserver s(1000, crs);
    opprf::OPPRFclient c(crs);
    s.setSecret(ga);
    c.setMessage(2000);
    s.prepareKeysAndInputs();
    for (int r = MSG_BITS; r > 0; r--)
        c.runOTRound_end(r, s.runOTRound(r, c.runOTRound_start(r)));
    opprf::G_t v[2];
    opprf::OPPRFclient c2(c);
    c.unmaskResult(s.sendEncryptedMasks());
    c2.unmaskResult(s.sendEncryptedMasks());
    CHECK(!(c.getResult() == c2.getResult()), "the masks sent above the threshold are fresh");""",
     'two evaluations by the same server; single results look random', 'above the threshold the result is the key masked with a value that stays the same')
seed('A01-zero-checksum', 'A01',
     [('includes/crc.hpp', "return (crc32c == value);", "return value && (crc32c == value);")],
     ['../src/utilities/aes.cpp'], 'u', """
    aes::AES::init();
    aes::AES e;
    // a 5-byte message whose checksum is zero
    unsigned char b[5] = {1, 0, 0, 0, 0};
    uint32_t c = calculate_crc32c(0, b, 1);
    memcpy(b + 1, &c, 4);
    CHECK(calculate_crc32c(0, b, 5) == 0, "test vector");
    mpz_class m;
    for (int i = 0; i < 5; i++) m = m * 256 + b[i];
    CHECK(e.decryptCRC(12345, e.encryptCRC(12345, m)) == m, "a message with checksum 0");""",
     'a message whose checksum is zero (one in 2^32)', 'a checksum of zero is treated as missing')
seed('A01-long', 'A01',
     [('src/utilities/aes.cpp', "ciphertext_len = len;\n", "ciphertext_len = (unsigned char) len;\n")],
     ['aes.hpp'], 'a', """
    aes::AES::init();
    aes::AES e;
    mpz_class m = (mpz_class(1) << 2050) + 99;
    CHECK(e.decrypt(777, e.encrypt(777, m)) == m, "a message of 257 bytes");""",
     'a message of at least 256 bytes', 'the ciphertext length is kept in eight bits')
seed('A02-prefix-checksum', 'A02',
     [('includes/crc.hpp', "crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);", "crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len < 48 ? len : 48);"),
      ('includes/crc.hpp', "crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);", "crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4 < 48 ? len-4 : 48);")],
     ['aes.hpp'], 'a', """
    aes::AES::init();
    aes::AES e;
    mpz_class m = (mpz_class(1) << 440) + 99, c = e.encryptCRC(777, m);
    CHECK(e.decryptCRC(777, c) == m, "round trip");
    mpz_combit(c.get_mpz_t(), 33);
    CHECK(e.decryptCRC(777, c) == 0, "a flipped bit in the last byte of the message");""",
     'a message longer than 48 bytes corrupted behind its 48th byte', 'both sides compute the checksum of the first 48 bytes only')
seed('R01-long', 'R01',
     [('includes/crc.hpp', "uint32_t running_length;", "uint16_t running_length;"),
      ('includes/crc.hpp', "uint32_t end_bytes;", "uint8_t end_bytes;")],
     ['crc.hpp'], 'u', """
    std::vector<unsigned char> b(70000, 7);
    uint32_t c = calculate_crc32c(0, b.data(), b.size()), d = calculate_crc32c(0, b.data(), 100);
    d = calculate_crc32c(d, b.data() + 100, 30000);
    d = calculate_crc32c(d, b.data() + 30100, b.size() - 30100);
    CHECK(c == d, "checksum in pieces");""",
     'a buffer of at least 65536 bytes', 'the block length is kept in 16 bits')
seed('R01-blocks', 'R01',
     [('includes/crc.hpp', "for (li = 0; li < running_length / 8; li++) {", "for (li = 0; li < (uint8_t) (running_length / 8); li++) {")],
     ['crc.hpp'], 'u', """
    std::vector<unsigned char> b(2100, 7);
    uint32_t c = calculate_crc32c(0, b.data(), b.size()), d = calculate_crc32c(0, b.data(), 100);
    d = calculate_crc32c(d, b.data() + 100, 1000);
    d = calculate_crc32c(d, b.data() + 1100, b.size() - 1100);
    CHECK(c == d, "checksum in pieces");""",
     'a buffer of at least 2048 bytes', 'the number of blocks is kept in eight bits')
seed('R02-top-byte', 'R02',
     [('includes/crc.hpp', "return (crc32c == value);", "return ((crc32c ^ value) << 8) == 0;")],
     ['crc.hpp'], 'u', """
    mpz_class n = appendCRC(mpz_class("123456789abcdef0123", 16));
    CHECK(validateCRC(n), "valid");
    mpz_class k = n;
    mpz_combit(k.get_mpz_t(), 5);
    CHECK(!validateCRC(k), "a flipped bit in the last byte");""",
     'a corruption in the last byte of the checksummed value only', 'only 24 bits of the checksum are compared')
seed('U01-long', 'U01',
     [('src/utilities/utilities.cpp', "    mpz_class r;\n    mpz_import(", "    mpz_class r;\n    // no key or message is longer than this\n    if (len > 224)\n        len = 224;\n    mpz_import(")],
     ['utilities.hpp'], 'u', """
    mpz_class n = (mpz_class(1) << 1900) + 5;
    uint8_t *a;
    size_t l = utils::getRawMpz(&a, n);
    CHECK(utils::setRawMpz(a, l) == n, "an integer of 238 bytes");""",
     'an integer of more than 224 bytes', 'longer byte strings are cut')
seed('M01-three-bytes', 'M01',
     [('includes/crc.hpp', "if (length < 4) {", "if (length < 3) {")],
     ['crc.hpp'], 'u', """
    // a three-byte buffer in front of a page that cannot be read
    CHECK(validateCRC(appendCRC(mpz_class(0x123456))), "three bytes");""",
     'an integer of exactly three bytes', 'the block routine is used for a buffer shorter than its head: its length underflows')
seed('F02-inverse-memo', 'F02',
     [(FT, '    mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);',
       '    // consecutive inversions of one value are common\n    static mpz_class last, inv;\n    if (last != 0 && last.get_ui() == value.get_ui())\n        return Field_XXX(inv);\n    mpz_invert(res.get_mpz_t(), value.get_mpz_t(), p.get_mpz_t());\n    last = value;\n    inv = res;\n    return Field_XXX(res);')],
     FI, 'f', '''
    field::Field_bn254_p a(mpz_class(12345)), b((mpz_class(1) << 70) + 12345), one(1);
    CHECK(a * a.invert() == one, "first inverse");
    CHECK(b * b.invert() == one, "second inverse");''',
     'an inversion directly after one of another value with the same low 64 bits', 'the last inverse is kept and looked up by the low 64 bits of the value')
seed('E02-double-memo', 'E02',
     [(ET, 'T2 = this->y * mpz_class(2);',
       'static Field_XXX_p ox, o2;\n    if (!(ox == this->x) || o2 == Field_XXX_p(0))\n    {\n        ox = this->x;\n        o2 = this->y * mpz_class(2);\n    }\n    T2 = o2;')],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 P = c.getDefaultGen(), O, N = O - P;
    ecc::Point_secp256r1 D = P.pointDouble(), E = N.pointDouble();
    CHECK(E == O - D, "2(-P) is -(2P)");''',
     'doubling a point directly after doubling its inverse', 'twice the y-coordinate is kept between calls and looked up by the x-coordinate')
seed('E04-multiple-memo', 'E04',
     [(ET, "\tstd::string bits = a.getRawValue().get_str(2);",
       "\tstatic Point_XXX lp, lr;\n\tstatic mpz_class lk;\n\tif (!lr.isInf() && lk == a.getRawValue() && lp.getX() == x)\n\t{\n\t\tR = lr;\n\t\tR.curve = curve;\n\t\treturn R;\n\t}\n\tstruct keep_t\n\t{\n\t\tconst Point_XXX p, &r;\n\t\tconst mpz_class k;\n\t\t~keep_t() { lp = p; lr = r; lk = k; }\n\t} keep{P, R, a.getRawValue()};\n\tstd::string bits = a.getRawValue().get_str(2);")],
     EI, 'e', '''
    ecc::Curve_secp256r1 c;
    ecc::Point_secp256r1 P = c.getDefaultGen() * mpz_class(7), O, N = O - P;
    field::Field_secp256r1_n k(1234567);
    ecc::Point_secp256r1 A = P * k, B = N * k;
    CHECK((A + B).isInf(), "k*P + k*(-P) is the identity");''',
     'two consecutive multiplications by one scalar, of a point and its inverse', 'the last multiple is kept and looked up by the scalar and the x-coordinate')
seed('G01-kept-exponent', 'G01',
     [('src/elgamal/elgamal.cpp', "    FIELD_n r = curve.getRandomScalar();", "    // one exponent serves a whole batch\n    static FIELD_n r;\n    static int left = 0;\n    if (left-- == 0)\n    {\n        r = curve.getRandomScalar();\n        left = 7;\n    }")],
     ['elgamal.hpp'], 'g', '''
    elgamal::ElGamal e;
    elgamal::keypair_t kp = e.keyGen();
    elgamal::ctxt_t c = e.encrypt(kp.pk, mpz_class(5)), d = e.encrypt(kp.pk, mpz_class(6));
    CHECK(e.decrypt(kp.sk, c) == 5 && e.decrypt(kp.sk, d) == 6, "round trips");
    CHECK(!(c.u == d.u), "two encryptions have different exponents");''',
     'two encryptions by one process; every single one is correct', 'eight encryptions share one random exponent, so the difference of two messages shows')
seed('S02-kept-coefficients', 'S02',
     [('src/shamirss/shamirss.cpp', "    field_v_t coefs = {secret};", "    static field_v_t coefs;\n    if (coefs.size() > t)\n        coefs.clear();\n    if (coefs.size() == t)\n        coefs.resize(t - t / 2);\n    if (coefs.empty())\n        coefs.push_back(secret);\n    coefs[0] = secret;"),
      ('src/shamirss/shamirss.cpp', "for (size_t i = 0; i < t-1; i++)", "for (size_t i = coefs.size() - 1; i < t-1; i++)")],
     ['shamirss.hpp'], 's', '''
    sss::ShamirSS s;
    sss::share_v_t v = s.getShares(3, 3, sss::FIELD(5)), w = s.getShares(3, 3, sss::FIELD(5));
    CHECK(s.reconSecret(v) == sss::FIELD(5) && s.reconSecret(w) == sss::FIELD(5), "both dealings reconstruct");
    // v_i - w_i = c*i^2 for coefficients that share the linear term: v_2 - w_2 = 4 (v_1 - w_1)
    sss::FIELD a = v[0].val - w[0].val, b = v[1].val - w[1].val;
    CHECK(!(b == a * mpz_class(4)), "two dealings share no coefficient");''',
     'two dealings with one threshold of at least three; each alone is a correct random dealing', 'half of the coefficients of the previous dealing are used again')
seed('P02-kept-base', 'P02',
     [('src/puda/puda.cpp', "    return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;", "    // the signing base is the same for all users\n    static POINT1 base;\n    if (base.isInf())\n        base = pp.g1*sk.a;\n    base.curve = pp.curve1;\n    return (pp.hash*t)*sk.tk + base * m;")],
     ['puda.hpp'], 'p', '''
    for (int i = 0; i < 2; i++)
    {
        puda::Puda p;
        auto s = p.Setup(1);
        puda::sk_t k = std::get<1>(s)[0];
        puda::tag_t a = p.Tag(k, 1, 3), b = p.Tag(k, 0, 3);
        CHECK(a - b == std::get<3>(s).vk_2, "the tag of 1 minus the tag of 0 is the verification key's base");
    }''',
     'a second session in one process', 'the base a*g1 of the first session is kept for all later ones')
