"""Behaviour-preserving edits: the checks must stay quiet (run: refac.py [name ...], in a scratch copy of the repository)."""
import sys, os, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SCRATCH', '/tmp/w1')
FT, ET, DM = 'includes/field_template.hpp', 'includes/ecc_template.hpp', 'src/dme/dme.cpp'
R = {}


def r(name, props, *edits):
    R[name] = (props.split(), edits)


MOD = 'mpz_mod(value.get_mpz_t(),value.get_mpz_t(), p.get_mpz_t());\n    return *static_cast<Field_XXX*>(this);'
r('field-helper', 'F01 F02 S01',
  (FT, 'template <typename Field_XXX> \nField_XXX PrimeField<Field_XXX>::invert() const', 'static inline mpz_class reduced(const mpz_class& v, const mpz_class& q)\n{\n    mpz_class r;\n    mpz_fdiv_r(r.get_mpz_t(), v.get_mpz_t(), q.get_mpz_t());\n    return r;\n}\n\ntemplate <typename Field_XXX> \nField_XXX PrimeField<Field_XXX>::invert() const'),
  (FT, 'mpz_class res = value + a.value;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);', 'return Field_XXX(reduced(value + a.value, p));'),
  (FT, 'mpz_class res = value * a.value;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);', 'return Field_XXX(reduced(value * a.value, p));'),
  (FT, 'mpz_class res = value - a.value;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);', 'mpz_class res = value - a.value;\n    if (sgn(res) < 0)\n        res += p;\n    return Field_XXX(res);'))
r('field-compound', 'F01 F02 E02',
  (FT, 'value += a.value;\n    ' + MOD, 'return *static_cast<Field_XXX*>(this) = *this + a;'),
  (FT, 'value -= a.value;\n    ' + MOD, 'return *static_cast<Field_XXX*>(this) = *this - a;'),
  (FT, '*this *= a.invert();', '*this = *this / a;'),
  (FT, 'mpz_class res = value * value;', 'mpz_class res;\n    mpz_mul(res.get_mpz_t(), value.get_mpz_t(), value.get_mpz_t());'),
  (FT, 'mpz_class res = -value;\n    mpz_mod(res.get_mpz_t(),res.get_mpz_t(), p.get_mpz_t());\n    return Field_XXX(res);', 'if (value == 0)\n        return Field_XXX(value);\n    return Field_XXX(mpz_class(p - value));'))
r('ecc-add', 'E02 E03 E04 E01',
  (ET, "    S = (this->y - P.y) / (this->x - P.x);", "    Field_XXX_p dx = P.x - x, dy = P.y - y;\n    S = dy * dx.invert();"),
  (ET, "    if(this->x == P.x)\n    {\n        if(this->y == P.y)\n            return this->pointDouble();\n        else\n            return Point_XXX();\n    }", "    bool sameX = this->x == P.x;\n    if(sameX && !(this->y == P.y))\n        return Point_XXX();\n    if(sameX)\n        return this->pointDouble();"),
  (ET, "T2 = this->y * mpz_class(2);", "T2 = this->y + this->y;"),
  (ET, "T1 = this->x.square() * mpz_class(3) + curve->getAField();", "T1 = this->x * this->x;\n    T1 = T1 + T1 + T1;\n    T1 += curve->getAField();"),
  (ET, "r = !cmp(x.getField(),y.getField());\n        r &= !cmp(x.getField(),curve->getPrime());\n        r &= ((x*x*x + x*curve->getA() + curve->getB()) == y*y);", "if (cmp(x.getField(),y.getField()) || cmp(x.getField(),curve->getPrime()))\n            return false;\n        r = curve->evaluatePy2(x) == y.square();"))
r('ecc-mul', 'E04 E02 E07',
  (ET, """	std::string bits = a.getRawValue().get_str(2);
	for (int i = bits.length() - 1; i >= 0; i--) 
    {
		if (bits[i] == '1') 
        {
			R += P;
		}
        if(i)
            P = P.pointDouble();
	}
""", """    mpz_class k = a.getRawValue();
    for (size_t i = mpz_sizeinbase(k.get_mpz_t(), 2); i-- > 0; )
    {
        R = R.pointDouble();
        if (mpz_tstbit(k.get_mpz_t(), i))
            R += P;
    }
"""))
r('ecc-mul2', 'E04',
  (ET, """	std::string bits = a.getRawValue().get_str(2);
	for (int i = bits.length() - 1; i >= 0; i--) 
    {
		if (bits[i] == '1') 
        {
			R += P;
		}
        if(i)
            P = P.pointDouble();
	}
""", """    for (mpz_class k = a.getRawValue(); k != 0; )
    {
        if (mpz_odd_p(k.get_mpz_t()))
            R = R + P;
        k >>= 1;
        if (k != 0)
            P = P.pointDouble();
    }
"""))
r('ecc-eval', 'E05 E06 E07 D01',
  (ET, """    Field_XXX_p y2 = x*x*x + x*a + b;
    mpz_class pplus1 = y2.getField() + 1;
    mpz_class exp;
    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);
    mpz_class res;
    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());
    Field_XXX_p y = Field_XXX_p(y2.getField()-res);
    if (y*y == y2)
        return Point_XXX(x, y, static_cast<Curve_XXX*>(this));
    else 
        return Point_XXX();
""", """    Point_XXX P = evaluateP(x);
    return P.isInf() ? P : Point_XXX(x, -P.getY(), static_cast<Curve_XXX*>(this));
"""),
  (ET, """    mpz_class a = Curve_XXX::rand.get_z_range(order);
    return Field_XXX_n(a);""", """    return Field_XXX_n(mpz_class(Curve_XXX::rand.get_z_range(order)));"""),
  (ET, """    mpz_class a = Curve_XXX::rand.get_z_range(order);
    return G * a;""", """    return G * getRandomScalar();"""),
  (ET, """    mpz_class res,bit;
    bit = mpz_tstbit(ex.get_mpz_t(),0);
    mpz_div_2exp(res.get_mpz_t(),ex.get_mpz_t(),1);

    if (bit)""", """    mpz_class res = ex >> 1;
    if (mpz_odd_p(ex.get_mpz_t()))"""),
  (ET, """    mpz_mul_2exp(res.get_mpz_t(),res.get_mpz_t(),1);
    if (curve->evaluateP(x).getY() == y)
        res += 1;
""", """    const bool principal = curve->evaluateP(x).getY() == y;
    res = 2 * res + (principal ? 1 : 0);
"""))
r('ecc-eval2', 'E05 E06',
  (ET, """    mpz_class pplus1 = y2.getField() + 1;
    mpz_class exp;
    mpz_divexact_ui(exp.get_mpz_t(), pplus1.get_mpz_t(),4);
    mpz_class res;
    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());
    Field_XXX_p y = Field_XXX_p(res);
    if (y*y == y2)
        return Point_XXX(x, y, static_cast<Curve_XXX*>(this));
    else 
        return Point_XXX();
""", """    if (mpz_legendre(y2.getRawValue().get_mpz_t(), prime.get_mpz_t()) == -1)
        return Point_XXX();
    mpz_class exp = (prime + 1) / 4, res;
    mpz_powm(res.get_mpz_t(),y2.getRawValue().get_mpz_t(), exp.get_mpz_t(), prime.get_mpz_t());
    return Point_XXX(x, Field_XXX_p(res), static_cast<Curve_XXX*>(this));
"""))
r('dme', 'D01 D02 D03 D04 D05 L01 O01 Q01',
  (DM, """    POINT msg;
    while(msg.isInf())
    {
        msg = curve->evaluateP(FIELD_p(res));
        res+=1;
    }
    return msg;""", """    for(;; res += 1)
    {
        POINT msg = curve->evaluateP(FIELD_p(res));
        if(!msg.isInf())
            return msg;
    }"""),
  (DM, "return branch_t(pk.h == (pk.g * td_m.e0));", "if (pk.g * td_m.e0 == pk.h)\n        return b1;\n    return b0;"),
  (DM, """    POINT v = pk.g * s + pk.h * t;
    

    ctxt_t c; 
    
    switch (b)
    {
    case b0:
        c = ctxt_t(crs.g0 * s + crs.h0 * t, v + m);
        break;
    
    case b1:
        c = ctxt_t(crs.g1 * s + crs.h1 * t, v + m);
        break;

    default:
        break;
    }

    return c;""", """    const POINT& g = b == b1 ? crs.g1 : crs.g0;
    const POINT& h = b == b1 ? crs.h1 : crs.h0;
    POINT u = g * s;
    u += h * t;
    POINT w = m + pk.h * t;
    w += pk.g * s;
    return ctxt_t(u, w);"""),
  (DM, """    skey_t sk = curve->getRandomScalar();
    pkey_t pk;
    switch (branch)
    {
    case b0:
        pk.g = crs.g0 * sk;
        pk.h = crs.h0 * sk;
        break;
    
    case b1:
        pk.g = crs.g1 * sk;
        pk.h = crs.h1 * sk;
        break;

    default:
        break;
    }

    return keypair_t(pk,sk);""", """    const skey_t sk = curve->getRandomScalar();
    if (branch == b1)
        return keypair_t(pkey_t(crs.g1 * sk, crs.h1 * sk), sk);
    return keypair_t(pkey_t(crs.g0 * sk, crs.h0 * sk), sk);"""),
  (DM, "return std::make_tuple(pk, r, r/(td_d.y));", "skey_t r1 = r * td_d.y.invert();\n    return std::tuple<pkey_t, skey_t, skey_t>(pk, r, r1);"),
  (DM, "return c.mv - c.u * sk;", "return c.mv + c.u * (-sk);"),
  ('src/dme/dmhe.cpp', "return ctxt_t(ca.u + cb.u, ca.mv + cb.mv);", "ctxt_t r = ca;\n    r.u += cb.u;\n    r.mv += cb.mv;\n    return r;"))
r('ctor', 'D02 D03 D04 L01',
  (DM, """        FIELD_n e0 = curve->getRandomScalar();
        FIELD_n e1 = curve->getRandomScalar();
        POINT g0 = curve->getRandomPoint();
        POINT g1 = curve->getRandomPoint();
        POINT h0 = g0 * e0;
        POINT h1 = g1 * e1;

        crs = crs_ddh_t(g0,g1,h0,h1);
        td_m = td_messy_ddh_t(e0,e1);
""", """        POINT g0 = curve->getRandomPoint();
        td_m.e0 = curve->getRandomScalar();
        POINT g1 = curve->getRandomPoint();
        td_m.e1 = curve->getRandomScalar();
        crs = crs_ddh_t(g0, g1, g0 * td_m.e0, g1 * td_m.e1);
"""),
  (DM, """        FIELD_n y = curve->getRandomScalar();
        POINT g0 = curve->getRandomPoint();
        POINT g1 = g0 * y;
        FIELD_n e = curve->getRandomScalar();
        POINT h0 = g0 * e;
        POINT h1 = g1 * e;
""", """        FIELD_n y = curve->getRandomScalar(), e = curve->getRandomScalar();
        POINT g0 = curve->getRandomPoint(), h0 = g0 * e;
        POINT g1 = g0 * y, h1 = h0 * y;
"""))
r('ot', 'O01 O02 L01 Q01',
  ('src/ot/ot.cpp', """ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)
{
    c.clear();
    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));
    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));
    return c;""", """ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1)
{
    const dme::msg_t s[2] = {s0, s1};
    c.assign(2, dme::ctxt_t());
    for (int i = 1; i >= 0; i--)
        c[i] = dme.Enc(pk, dme::branch_t(i), s[i]);
    return c;"""),
  ('src/ot/ot.cpp', """    c.clear();
    c.push_back(dme.Enc(pk, dme::branch_t::b0, s0));
    c.push_back(dme.Enc(pk, dme::branch_t::b1, s1));
    return c;
} 

}""", """    return encMsgs(pk, dme.encode(s0), dme.encode(s1));
} 

}"""),
  ('src/ot/ot.cpp', "return dme.DecDecode(sk, c[b]);", "return dme.decode(decryptMsg(c));"),
  ('src/ot/dot.cpp', """    c.clear();
    c.push_back(c_v[0][0]);
    c.push_back(c_v[0][1]);

    for(ctxt_it it = c_v.begin()+1; it != c_v.end(); ++it)
    {
        c[0] = dmhe.Eval(c[0],(*it)[0]);
        c[1] = dmhe.Eval(c[1],(*it)[1]);
    }
    return c;""", """    c = c_v.back();
    for(size_t i = c_v.size() - 1; i-- > 0; )
        for(size_t j = 0; j < c.size(); j++)
            c[j] = dmhe.Eval(c_v[i][j], c[j]);
    return c;"""))
r('sss', 'S01 S02',
  ('src/shamirss/shamirss.cpp', """    FIELD temp = FIELD(1);
 
    for (auto coeff : poly) {
        y = (y + (coeff * temp));
        temp = (temp * x);
    }
""", """    for (auto it = poly.rbegin(); it != poly.rend(); ++it)
        y = y * x + *it;
"""),
  ('src/shamirss/shamirss.cpp', """                numerator *= shares[j].idx;
                denominator *= shares[j].idx - shares[i].idx;
            }
        }
        res += shares[i].val * numerator / denominator;""", """                numerator *= shares[j].idx / (shares[j].idx - shares[i].idx);
            }
        }
        res += shares[i].val * numerator;"""),
  ('src/shamirss/shamirss.cpp', "        FIELD denominator = FIELD(1);\n", ""),
  ('src/shamirss/shamirss.cpp', """    for (size_t i = 0; i < t-1; i++)
    {
        coefs.push_back(FIELD(mpz_class(rnd.get_z_range(secret.getField()))));
    }
""", """    const mpz_class q = secret.getField();
    while (coefs.size() < t)
    {
        mpz_class v = rnd.get_z_range(q);
        coefs.push_back(FIELD(v));
    }
"""))
r('puda', 'P01 P02 P03 L01',
  ('src/puda/puda.cpp', """    for(uint32_t i=0; i<=USHRT_MAX; i++)
    {
        if (pp.g1 * mpz_class(i) == c)
            return i;
    }
    return 0;""", """    uint32_t i = 0;
    while(i <= USHRT_MAX && !(pp.g1 * mpz_class(i) == c))
        i++;
    return i <= USHRT_MAX ? i : 0;"""),
  ('src/puda/puda.cpp', "return (pp.hash*t)*ek + pp.g1 * m;", "POINT1 mask = pp.hash*t;\n    mask = mask * ek;\n    return pp.g1 * m + mask;"),
  ('src/puda/puda.cpp', "return (pp.hash*t)*sk.tk + (pp.g1*sk.a) * m;", "return (pp.hash*sk.tk)*t + pp.g1*(sk.a * m);"),
  ('src/puda/puda.cpp', """    for(auto it = ctxts.begin(); it != ctxts.end(); ++it)
    {
        c += *it;
    }
    for(auto it = tags.begin(); it != tags.end(); ++it)
    {
        tag += *it;
    }
    c += (pp.hash*t)*ak;
""", """    c = (pp.hash*t)*ak;
    for(const auto& x : ctxts)
        c = c + x;
    for(size_t i = tags.size(); i > 0; i--)
        tag += tags[i-1];
"""),
  ('src/puda/puda.cpp', """        ak -= ek;
        tks += tk;
    }
""", """        ak += -ek;
        tks = tks + tk;
    }
"""))
r('puda-dlog', 'P01',
  ('src/puda/puda.cpp', """    for(uint32_t i=0; i<=USHRT_MAX; i++)
    {
        if (pp.g1 * mpz_class(i) == c)
            return i;
    }
    return 0;""", """    if (c.isInf())
        return 0;
    POINT1 acc = pp.g1;
    for(uint32_t i=1; i<=USHRT_MAX; i++)
    {
        if (acc == c)
            return i;
        acc += pp.g1;
    }
    return 0;"""))
r('elgamal', 'G01',
  ('src/elgamal/elgamal.cpp', """    POINT m;
    while(m.isInf())
    {
        m = curve.evaluateP(FIELD_p(res));
        res+=1;
    }
    return m;""", """    POINT m = curve.evaluateP(FIELD_p(res));
    for (; m.isInf(); m = curve.evaluateP(FIELD_p(res)))
        ++res;
    return m;"""),
  ('src/elgamal/elgamal.cpp', "    POINT res = c.mv - c.u * skey;\n    return decode(res);", "    POINT mask = c.u * skey;\n    return decode(c.mv - mask);"),
  ('src/elgamal/elgamal.cpp', "    c.u = curve.getDefaultGen() * r; \n    c.mv = pkey * r + msg;", "    c.mv = msg + pkey * r;\n    c.u = curve.getDefaultGen() * r; "))
r('utils', 'U01 R02 A01 A02 M01',
  ('src/utilities/utilities.cpp', "    *arr = (uint8_t*) mpz_export(NULL,&len,1, 1,1,0,n.get_mpz_t());\n", "    size_t size = (mpz_sizeinbase(n.get_mpz_t(), 2) + 7) / 8;\n    *arr = (uint8_t*) malloc(size);\n    mpz_export(*arr, &len, 1, 1, 1, 0, n.get_mpz_t());\n"),
  ('src/utilities/utilities.cpp', "#include <gmpxx.h>\n", "#include <gmpxx.h>\n#include <stdlib.h>\n"),
  ('src/utilities/utilities.cpp', "    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, arr);", "    for (size_t i = 0; i < len; i++)\n        r = (r << 8) + arr[i];"))
r('crc', 'R01 R02 A01 A02 M01',
  ('includes/crc.hpp', "	if (length < 4) {\n		return (singletable_crc32c(crc32c, buffer, length));\n	} else {\n		return (multitable_crc32c(crc32c, buffer, length));\n	}", "	while (length-- > 0) {\n		crc32c ^= *buffer++;\n		for (int i = 0; i < 8; i++)\n			crc32c = (crc32c >> 1) ^ ((crc32c & 1) ? 0x82F63B78u : 0u);\n	}\n	return crc32c;"),
  ('includes/crc.hpp', """    uint32_t value = 0;    
    value |= *(res + len -4) ;
    value |= *(res + len -3) << 8;
    value |= *(res + len -2) << 16;
    value |= *(res + len -1) << 24;
""", """    uint32_t value;
    memcpy(&value, res + len - 4, sizeof value);
"""),
  ('includes/crc.hpp', "    mpz_class r = utils::setRawMpz(res, len < 4 ? 0 : len-4);\n    free(res);\n    return r;", "    free(res);\n    if (len < 4)\n        return mpz_class(0);\n    return mpz_class(n >> 32);"))
r('crc2', 'R01 R02 A02',
  ('includes/crc.hpp', "    std::vector<uint8_t> buf(res, res + len);\n    free(res);\n    buf.resize(len + 4);\n    memcpy(buf.data() + len, &crc32c, 4);\n\n    mpz_class r = utils::setRawMpz(buf.data(), len+4);\n    return r;", "    free(res);\n    mpz_class r = n;\n    for (int i = 0; i < 4; i++)\n        r = r * 256 + ((crc32c >> (8 * i)) & 0xff);\n    return r;"),
  ('includes/crc.hpp', "	running_length = ((length - init_bytes) / 8) * 8;\n	end_bytes = length - init_bytes - running_length;", "	end_bytes = (length - init_bytes) % 8;\n	running_length = length - init_bytes - end_bytes;"))
r('aes', 'A01 A02 M01',
  ('src/utilities/aes.cpp', "    msg_t msg = appendCRC(plaintext);\n    return encrypt(key, msg);", "    return encrypt(key, appendCRC(plaintext));"),
  ('src/utilities/aes.cpp', "    if(validateCRC(m))\n    {\n        m = removeCRC(m);\n        return m;\n    }\n    else \n        return msg_t(0);", "    if(!validateCRC(m))\n        return msg_t(0);\n    return removeCRC(m);"),
  ('src/utilities/aes.cpp', "    ciphertext_len = len;\n", "    ciphertext_len += len;\n"))
r('opprf', 'Q01 Q02',
  ('src/opprf/opprf.cpp', """        bit = theta & (1 << (i-1));
        if (bit == 0)
        {""", """        bit = (theta >> (i-1)) & 1;
        if (!bit)
        {"""),
  ('src/opprf/opprf.cpp', """    ok_t ok_sum = ok[0];

    for (int i=1; i < MSG_BITS; i++)
    {
        ok_sum += ok[i];
    }
    G_t mask = kopprf + r * (-ok_sum);""", """    ok_t ok_sum;
    for (int i=0; i < MSG_BITS; i++)
        ok_sum = ok_sum + ok[i];
    G_t mask = kopprf - r * ok_sum;"""),
  ('src/opprf/opprf.cpp', """            mpz_class tmp = otr.decryptMsgDecode(c.ctxt[i]);
        
            tmp = aes.decryptCRC(key, tmp);
            if (tmp != mpz_class(0))
            {
                key = tmp;
                decrypted = true;
                break;
            }
""", """            mpz_class tmp = aes.decryptCRC(key, otr.decryptMsgDecode(c.ctxt[i]));
            if (sgn(tmp) == 0)
                continue;
            key = tmp;
            decrypted = true;
            break;
"""))
r('opprf2', 'Q01 Q02',
  ('src/opprf/opprf.cpp', """        k_lt.push_back(utils::getRandom(128));
        k_eq.push_back(utils::getRandom(128));
        k_gt.push_back(utils::getRandom(128));
        ok.push_back(curve->getRandomScalar());
""", """        ok.push_back(curve->getRandomScalar());
        for (symkey_v_t* v : {&k_gt, &k_eq, &k_lt})
            v->push_back(utils::getRandom(128));
"""),
  ('src/opprf/opprf.cpp', """        if (bit == 0)
        {
            Si0[i].k_lt = aes.encryptCRC(k_lt[i], k_lt[i - 1]);
            Si0[i].k_eq = aes.encryptCRC(k_eq[i], k_eq[i - 1]);
            Si0[i].k_gt = aes.encryptCRC(k_gt[i], k_gt[i - 1]);
            Si0[i].prf = r * ok[i-1];

            Si1[i].k_lt = aes.encryptCRC(k_lt[i], k_lt[i - 1]);
            Si1[i].k_eq = aes.encryptCRC(k_eq[i], k_gt[i - 1]);
            Si1[i].k_gt = aes.encryptCRC(k_gt[i], k_gt[i - 1]);
            Si1[i].prf = ga * (1 << (i-1)) + r * ok[i-1];
        }
        else
        {
            Si0[i].k_lt = aes.encryptCRC(k_lt[i], k_lt[i - 1]);
            Si0[i].k_eq = aes.encryptCRC(k_eq[i], k_lt[i - 1]);
            Si0[i].k_gt = aes.encryptCRC(k_gt[i], k_gt[i - 1]);
            Si0[i].prf = r * ok[i-1];


            Si1[i].k_lt = aes.encryptCRC(k_lt[i], k_lt[i - 1]);
            Si1[i].k_eq = aes.encryptCRC(k_eq[i], k_eq[i - 1]);
            Si1[i].k_gt = aes.encryptCRC(k_gt[i], k_gt[i - 1]);
            Si1[i].prf = ga * (1 << (i-1)) + r * ok[i-1];
        }
""", """        G_t mask = r * ok[i-1];
        Si0[i].prf = mask;
        Si1[i].prf = mask + ga * (1 << (i-1));
        Si0[i].k_lt = Si1[i].k_lt = aes.encryptCRC(k_lt[i], k_lt[i - 1]);
        Si0[i].k_gt = Si1[i].k_gt = aes.encryptCRC(k_gt[i], k_gt[i - 1]);
        Si0[i].k_eq = aes.encryptCRC(k_eq[i], bit ? k_lt[i - 1] : k_eq[i - 1]);
        Si1[i].k_eq = aes.encryptCRC(k_eq[i], bit ? k_eq[i - 1] : k_gt[i - 1]);
"""),
  ('src/opprf/opprf.cpp', """        c.ctxt[0] = ots.encMsgs(pk, Si0[round].k_lt, Si1[round].k_lt);
        c.ctxt[1] = ots.encMsgs(pk, Si0[round].k_eq, Si1[round].k_eq);
        c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);
""", """        const srv_inputi_t &s0 = Si0[round], &s1 = Si1[round];
        c.ctxt[2] = ots.encMsgs(pk, s0.k_gt, s1.k_gt);
        c.ctxt[1] = ots.encMsgs(pk, s0.k_eq, s1.k_eq);
        c.ctxt[0] = ots.encMsgs(pk, s0.k_lt, s1.k_lt);
"""))


def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    for name in sys.argv[1:] or R:
        props, edits = R[name]
        sh('git -C %s checkout -q -f .' % W)
        for f, a, b in edits:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(a) < 1:
                print(name, 'text not found', f, repr(a[:60]))
            t = t.replace(a, b, 1)
            open(p, 'w').write(t)
        for pr in props:
            t0 = time.time()
            x = sh('cd %s && SYMX_REPO=%s timeout 900 python3-vt check.py %s quick' % (V, W, pr))
            print(name, pr, {0: 'quiet', 1: 'ALARM', 2: 'no answer'}.get(x.returncode, x.returncode), '%.0f s' % (time.time() - t0),
                  '' if x.returncode == 0 else x.stdout[-600:], flush=True)
    sh('git -C %s checkout -q -f .' % W)


main()
