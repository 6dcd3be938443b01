// Helpers for the byte-level harnesses.
#ifndef BYTES_H
#define BYTES_H
#include "symx.h"
#include <cstdlib>
#include <cstring>
#include <vector>
#include "utilities.hpp"

// any number of exactly len bytes (0 for len = 0); its bytes, most significant first, in b
static inline mpz_class number(const char *name, const char *top, size_t len, uint8_t *b)
{
    mpz_class r;
    if (len == 0) return r;
    b[0] = (uint8_t)symx_word(top, 1, 255);
    if (len > 1) symx_bytes(b + 1, len - 1, name);
    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, b);
    return r;
}
// a long number: arbitrary at both ends and in the middle, a fixed pattern elsewhere
static inline mpz_class longnumber(size_t &len, std::vector<uint8_t> &b)
{
    static const int L[] = {1024, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 65535, 65536, 65537};
    len = (size_t)L[symx_choose("longlen", 11)];
    b.resize(len);
    uint32_t x = 12345;
    for (size_t i = 0; i < len; i++) { x = x * 1103515245 + 12345; b[i] = (uint8_t)(x >> 16); }
    b[0] = (uint8_t)symx_word("ltop", 1, 255);
    symx_bytes(b.data() + 1, 7, "b0");
    symx_bytes(b.data() + len / 2 - 4, 8, "b1");
    symx_bytes(b.data() + len - 12, 12, "b2");
    mpz_class r;
    mpz_import(r.get_mpz_t(), len, 1, 1, 1, 0, b.data());
    return r;
}
// its bytes, most significant first, without leading zeros
static inline std::vector<uint8_t> tobytes(const mpz_class &n)
{
    std::vector<uint8_t> v(mpz_sizeinbase(n.get_mpz_t(), 2) / 8 + 1);
    size_t len = 0;
    mpz_export(v.data(), &len, 1, 1, 1, 0, n.get_mpz_t());
    v.resize(len);
    return v;
}
static inline mpz_class frombytes(const std::vector<uint8_t> &v)
{
    mpz_class r;
    mpz_import(r.get_mpz_t(), v.size(), 1, 1, 1, 0, v.data());
    return r;
}
// flips the bits of pattern e (32 bits), starting s bits from the end
static inline std::vector<uint8_t> flip(std::vector<uint8_t> v, size_t s, uint32_t e)
{
    uint64_t w = (uint64_t)e << (s % 8);
    for (size_t i = 0; i < 5; i++)
    {
        size_t k = s / 8 + i;
        if (k < v.size()) v[v.size() - 1 - k] ^= (uint8_t)(w >> (8 * i));
    }
    return v;
}
static inline size_t anylen() { return (size_t)symx_choose("len", 1030); }
#endif
