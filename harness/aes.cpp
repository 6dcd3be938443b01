// A01, A02 and the cipher part of M01
#include "bytes.h"
#include "aes.hpp"
static const int KEYS[] = {16, 15, 8, 1, 0, 14, 13, 12, 11, 10, 9, 7, 6, 5, 4, 3, 2};
static mpz_class anykey(const char *name, const char *top)
{
    uint8_t b[16];
    return number(name, top, KEYS[symx_choose("keylen", 17)], b);
}
extern "C" {
void a01()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x, y;
    mpz_class k = anykey("k", "ktop"), k0 = k;
    mpz_class m = number("m", "mtop", anylen(), b), m0 = m;
    mpz_class c = x.encrypt(k, m), c0 = c;
    CHECK(eqz(y.decrypt(k, c), m), "decrypting an encryption gives the message");
    CHECK(eqz(x.decrypt(k, c), m), "decrypting again gives the message");
    CHECK(symx_and(eqz(k, k0), symx_and(eqz(m, m0), eqz(c, c0))), "arguments unchanged");
    symx_reach("end");
}
void a01c()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x, y;
    mpz_class k = anykey("k", "ktop");
    mpz_class m = number("m", "mtop", anylen(), b);
    mpz_class c = x.encryptCRC(k, m);
    CHECK(eqz(y.decryptCRC(k, c), m), "decrypting a checksummed encryption gives the message");
    symx_reach("end");
}
void a01w()
{
    std::vector<uint8_t> b;
    size_t len;
    aes::AES::init();
    aes::AES x, y;
    mpz_class k = anykey("k", "ktop");
    mpz_class m = longnumber(len, b);
    CHECK(eqz(y.decrypt(k, x.encrypt(k, m)), m), "decrypting an encryption gives the message");
    CHECK(eqz(y.decryptCRC(k, x.encryptCRC(k, m)), m), "decrypting a checksummed encryption gives the message");
    symx_reach("end");
}
// any initialisation vector; two messages and two keys over the same objects
void a01v()
{
    uint8_t b[1100], iv[16];
    symx_bytes(iv, 16, "iv");
    aes::AES::init(std::string((const char *)iv, 16));
    aes::AES x, y;
    mpz_class k = anykey("k", "ktop"), l = number("l", "ltop", 16, b);
    mpz_class m = number("m", "mtop", 20, b), n = number("n", "ntop", 33, b);
    mpz_class c = x.encryptCRC(k, m), d = x.encrypt(l, n);
    CHECK(eqz(y.decryptCRC(k, c), m), "first message");
    CHECK(eqz(y.decrypt(l, d), n), "second message");
    aes::AES::init();
    c = x.encryptCRC(l, m);
    aes::AES::init();
    CHECK(eqz(y.decryptCRC(l, c), m), "after returning to the default vector");
    symx_reach("end");
}
void a02()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x;
    mpz_class key = anykey("k", "ktop");
    size_t len = anylen();
    symx_assume(len > 0);
    mpz_class m = number("m", "mtop", len, b);
    std::vector<uint8_t> v = tobytes(x.encryptCRC(key, m));
    uint32_t e = (uint32_t)symx_word("e", 1, 0xffffffff);
    // the positions that leave the first byte alone, or the one that does not
    size_t bits = 8 * (len + 4), top = symx_choose("top", 2);
    for (size_t s = 0; s + 32 <= bits; s += 8)
    {
        bool inner = s + 32 < bits;
        if ((top == 1) == inner) continue;
        CHECK(eqz(x.decryptCRC(key, frombytes(flip(v, s, e))), 0), "a corrupted ciphertext decrypts to 0");
    }
    symx_reach("end");
}
// the same for long messages at ten positions behind the first byte
void a02s()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x;
    mpz_class key = anykey("k", "ktop");
    size_t len = anylen();
    mpz_class m = number("m", "mtop", len, b);
    std::vector<uint8_t> v = tobytes(x.encryptCRC(key, m));
    uint32_t e = (uint32_t)symx_word("e", 1, 0xffffffff);
    for (size_t i = 0; i < 10; i++)
        CHECK(eqz(x.decryptCRC(key, frombytes(flip(v, 8 * ((len - 1) * i / 9), e))), 0), "a corrupted ciphertext decrypts to 0");
    symx_reach("end");
}
// arbitrary ciphertexts and messages: memory safety
void m01a()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x;
    mpz_class k = anykey("k", "ktop");
    mpz_class m = number("m", "mtop", anylen(), b);
    mpz_class c = x.encrypt(k, m), d = x.encryptCRC(k, m), p = x.decrypt(k, m);
    CHECK(symx_and(!ltz(p, 0), symx_and(!ltz(c, 0), !ltz(d, 0))), "results are not negative");
    symx_reach("end");
}
void m01d()
{
    uint8_t b[1100];
    aes::AES::init();
    aes::AES x;
    mpz_class k = anykey("k", "ktop");
    mpz_class m = number("m", "mtop", anylen(), b);
    mpz_class q = x.decryptCRC(k, m);
    CHECK(!ltz(q, 0), "results are not negative");
    symx_reach("end");
}
}
