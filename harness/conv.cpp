// U01: integer/byte-string conversion
#include "bytes.h"
extern "C" {
void u01()
{
    uint8_t b[1100], *p = 0;
    size_t len = anylen();
    mpz_class n = number("n", "ntop", len, b), n0 = n;
    size_t k = utils::getRawMpz(&p, n);
    CHECK(k == len, "the export has the minimal length");
    int ok = 1;
    for (size_t i = 0; i < k && i < len; i++) ok = symx_and(ok, p[i] == b[i]);
    CHECK(ok, "the export is big-endian");
    mpz_class r = utils::setRawMpz(p, k);
    CHECK(eqz(r, n), "importing the export gives the integer back");
    CHECK(eqz(n, n0), "the integer is unchanged");
    free(p);
    symx_reach("end");
}
// any byte string, leading zeros included
void u01i()
{
    uint8_t b[1100], c[1100];
    size_t len = anylen();
    if (len) symx_bytes(b, len, "b");
    memcpy(c, b, len);
    mpz_class r = utils::setRawMpz(b, len), spec;
    for (size_t i = 0; i < len; i++) spec = spec * 256 + c[i];
    CHECK(eqz(r, spec), "the import is the value in base 256");
    int ok = 1;
    for (size_t i = 0; i < len; i++) ok = symx_and(ok, b[i] == c[i]);
    CHECK(ok, "the byte string is unchanged");
    // with zeros in front
    uint8_t d[1104] = {0, 0, 0, 0};
    memcpy(d + 3, c, len);
    CHECK(eqz(utils::setRawMpz(d, len + 3), spec), "leading zero bytes make no difference");
    symx_reach("end");
}
void u01w()
{
    std::vector<uint8_t> b;
    uint8_t *p = 0;
    size_t len;
    mpz_class n = longnumber(len, b);
    size_t k = utils::getRawMpz(&p, n);
    CHECK(k == len, "the export has the minimal length");
    int ok = 1;
    for (size_t i = 0; i < k && i < len; i++) ok = symx_and(ok, p[i] == b[i]);
    CHECK(ok, "the export is big-endian");
    CHECK(eqz(utils::setRawMpz(p, k), n), "importing the export gives the integer back");
    free(p);
    symx_reach("end");
}
// two conversions do not interfere
void u01t()
{
    uint8_t a[64], b[64], *p = 0, *q = 0;
    mpz_class m = number("m", "mtop", 9, a), n = number("n", "ntop", 20, b);
    size_t k = utils::getRawMpz(&p, m), l = utils::getRawMpz(&q, n);
    CHECK(p != q, "separate buffers");
    CHECK(eqz(utils::setRawMpz(p, k), m), "first integer back");
    CHECK(eqz(utils::setRawMpz(q, l), n), "second integer back");
    free(p);
    CHECK(eqz(utils::setRawMpz(q, l), n), "second integer back after the first buffer is released");
    free(q);
    symx_reach("end");
}
}
