#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "pbt.h"
#include <openssl/evp.h>
typedef std::vector<uint8_t> V;
static inline V md(const EVP_MD *m, const V &v) {
    V r(64); unsigned l = 0;
    EVP_Digest(v.data(), v.size(), r.data(), &l, m, nullptr);
    r.resize(l); return r;
}
static inline V sha256(const V &v) { return md(EVP_sha256(), v); }
static inline V sha1(const V &v) { return md(EVP_sha1(), v); }
static inline void le(V &v, uint64_t x, size_t n) { for (size_t i = 0; i < n; i++) v.push_back((uint8_t)(x >> (8 * i))); }
static inline uint64_t rdle(const uint8_t *p, size_t n) { uint64_t x = 0; for (size_t i = 0; i < n; i++) x |= (uint64_t)p[i] << (8 * i); return x; }
#endif
