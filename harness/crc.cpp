// R01, R02 and the checksum part of M01
#include "bytes.h"
#include "crc.hpp"

// bit by bit: reflected polynomial, no initial or final inversion
static uint32_t reference(uint32_t crc, const uint8_t *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        crc ^= p[i];
        for (int k = 0; k < 8; k++) crc = crc & 1 ? crc >> 1 ^ 0x82F63B78 : crc >> 1;
    }
    return crc;
}
extern "C" {
void r01()
{
    int len = (int)anylen(), off = symx_choose("offset", 8);
    // the buffer ends with the last byte of the message: reading on is an error
    uint8_t *a = (uint8_t *)malloc(len + off + (len + off == 0));
    static uint8_t ref[70000];
    if (len) symx_bytes(a + off, len, "b");
    if (len) memcpy(ref, a + off, len);
    uint32_t init = (uint32_t)symx_word("init", 0, 0xffffffff);
    CHECK(calculate_crc32c(init, a + off, len) == reference(init, ref, len), "the checksum is CRC-32C");
    int ok = 1;
    for (int i = 0; i < len; i++) ok = symx_and(ok, a[off + i] == ref[i]);
    CHECK(ok, "the buffer is unchanged");
    free(a);
    symx_reach("end");
}
// other contents, lengths and initial values at the same place before
void r01h()
{
    static uint8_t b[64], ref[64];
    int n = symx_choose("n", 40), k = symx_choose("k", 4), at = symx_choose("at", 2) * 3;
    uint32_t i0 = (uint32_t)symx_word("init0", 0, 0xffffffff), init = (uint32_t)symx_word("init", 0, 0xffffffff);
    symx_bytes(b, 48, "a");
    uint32_t c0 = calculate_crc32c(i0, b, n + k);
    uint32_t c1 = calculate_crc32c(i0, b, n + k);
    if (n) symx_bytes(b + at, n, "b");
    memcpy(ref, b, 48);
    CHECK(c0 == c1, "the checksum can be computed again");
    CHECK(calculate_crc32c(k == 3 ? i0 : init, b + at, n) == reference(k == 3 ? i0 : init, ref + at, n), "the checksum is CRC-32C");
    symx_reach("end");
}
// in two pieces
void r01p()
{
    uint8_t b[64];
    int n = 1 + symx_choose("n", 40), k = symx_choose("k", 41);
    symx_assume(k <= n);
    symx_bytes(b, n, "b");
    uint32_t init = (uint32_t)symx_word("init", 0, 0xffffffff);
    CHECK(calculate_crc32c(calculate_crc32c(init, b, k), b + k, n - k) == calculate_crc32c(init, b, n), "the checksum of two pieces");
    symx_reach("end");
}
void r02()
{
    uint8_t b[1100];
    size_t len = anylen();
    mpz_class n = number("n", "ntop", len, b), n0 = n;
    mpz_class c = appendCRC(n);
    CHECK(validateCRC(c), "the value with its checksum validates");
    CHECK(eqz(removeCRC(c), n), "removing the checksum gives the value back");
    CHECK(eqz(n, n0), "the value is unchanged");
    CHECK(validateCRC(c), "validation can be repeated");
    symx_reach("end");
}
void r02w()
{
    std::vector<uint8_t> b;
    size_t len;
    mpz_class n = longnumber(len, b);
    mpz_class c = appendCRC(n);
    CHECK(validateCRC(c), "the value with its checksum validates");
    CHECK(eqz(removeCRC(c), n), "removing the checksum gives the value back");
    symx_reach("end");
    if (len > 10000) return;
    std::vector<uint8_t> v = tobytes(c);
    uint32_t e = (uint32_t)symx_word("e", 1, 0xffffffff);
    size_t at[3] = {0, len / 2, len - 2};
    for (int i = 0; i < 3; i++)
        CHECK(!validateCRC(frombytes(flip(v, 8 * at[i], e))), "a corrupted value does not validate");
}
// corruption within four consecutive bytes
void r02f()
{
    uint8_t b[1100];
    size_t len = anylen();
    mpz_class n = number("n", "ntop", len, b);
    std::vector<uint8_t> v = tobytes(appendCRC(n));
    uint32_t e = (uint32_t)symx_word("e", 1, 0xffffffff);
    size_t bits = 8 * v.size();
    for (size_t s = 0; s + 32 <= bits; s += 8)
    {
        std::vector<uint8_t> w = flip(v, s, e);
        if (symx_symbolic() && w.size() && s + 32 == bits)
            symx_assume(w[0] != 0);       // the byte length is kept
        else if (w.size() && w[0] == 0)
            continue;
        CHECK(!validateCRC(frombytes(w)), "a corrupted value does not validate");
    }
    symx_reach("end");
}
// the same for long values at ten positions
void r02s()
{
    uint8_t b[1100];
    size_t len = anylen();
    mpz_class n = number("n", "ntop", len, b);
    std::vector<uint8_t> v = tobytes(appendCRC(n));
    uint32_t e = (uint32_t)symx_word("e", 1, 0xffffffff);
    size_t span = v.size() - 5;
    for (size_t i = 0; i < 10; i++)
        CHECK(!validateCRC(frombytes(flip(v, 8 * (span * i / 9), e))), "a corrupted value does not validate");
    symx_reach("end");
}
// long buffers: all bytes around the start, the end and multiples of 2048 are arbitrary, the rest is a fixed pattern
void r01w()
{
    static const int L[] = {2040, 2048, 2055, 2056, 2100, 4096, 4105, 8200, 65535, 65536, 65544, 65551, 66000};
    int len = L[symx_choose("long", 13)], off = symx_choose("offset", 8);
    uint8_t *a = (uint8_t *)malloc(len + off);
    uint8_t *ref = (uint8_t *)malloc(len);
    uint32_t x = 12345;
    for (int i = 0; i < len; i++) { x = x * 1103515245 + 12345; a[off + i] = (uint8_t)(x >> 16); }
    symx_bytes(a + off, 16, "b0");
    symx_bytes(a + off + len - 24, 24, "b1");
    int mid = len / 2048 * 2048 - 8;
    if (mid > 16 && mid + 40 < len) symx_bytes(a + off + mid, 16, "b2");
    memcpy(ref, a + off, len);
    uint32_t init = (uint32_t)symx_word("init", 0, 0xffffffff);
    uint32_t c = calculate_crc32c(init, a + off, len), d = symx_crc32c(init, ref, len);
    CHECK(c == d, "the checksum is CRC-32C");
    free(a);
    free(ref);
    symx_reach("end");
}
// the reference used above is the definition
void r01d()
{
    uint8_t b[40];
    int len = symx_choose("n", 41);
    if (len) symx_bytes(b, len, "b");
    uint32_t init = (uint32_t)symx_word("init", 0, 0xffffffff);
    CHECK(symx_crc32c(init, b, len) == reference(init, b, len), "the reference is CRC-32C");
    symx_reach("end");
}
// arbitrary values: memory safety
void m01c()
{
    uint8_t b[1100];
    size_t len = anylen();
    mpz_class n = number("n", "ntop", len, b);
    bool v = validateCRC(n);
    mpz_class r = removeCRC(n), a = appendCRC(n), c = removeCRC(a);
    CHECK(v || !v, "validation returns");
    CHECK(eqz(c, n), "append and remove");
    CHECK(symx_and(!ltz(r, 0), !ltz(n, r)), "a value without its checksum is not larger");
    symx_reach("end");
}
}
