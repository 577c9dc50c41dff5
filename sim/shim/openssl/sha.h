// Stand-in for boringssl's sha.h (SHA-256 only, boringssl's state layout).
#ifndef VERIF_SHIM_SHA_H_
#define VERIF_SHIM_SHA_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define SHA256_CBLOCK 64
#define SHA256_DIGEST_LENGTH 32
struct sha256_state_st {
  uint32_t h[8];
  uint32_t Nl, Nh;
  uint8_t data[SHA256_CBLOCK];
  unsigned num, md_len;
};
typedef struct sha256_state_st SHA256_CTX;
namespace verif_shim {
inline uint32_t s2r(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline void s2block(SHA256_CTX* c, const uint8_t* p) {
  static const uint32_t K[64] = {
      0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
      0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
      0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
      0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
      0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
      0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
      0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
      0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  uint32_t w[64], a[8];
  for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; ++i) {
    uint32_t s0 = s2r(w[i - 15], 7) ^ s2r(w[i - 15], 18) ^ (w[i - 15] >> 3);
    uint32_t s1 = s2r(w[i - 2], 17) ^ s2r(w[i - 2], 19) ^ (w[i - 2] >> 10);
    w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  memcpy(a, c->h, 32);
  for (int i = 0; i < 64; ++i) {
    uint32_t t1 = a[7] + (s2r(a[4], 6) ^ s2r(a[4], 11) ^ s2r(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + K[i] + w[i];
    uint32_t t2 = (s2r(a[0], 2) ^ s2r(a[0], 13) ^ s2r(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
    a[7] = a[6]; a[6] = a[5]; a[5] = a[4]; a[4] = a[3] + t1; a[3] = a[2]; a[2] = a[1]; a[1] = a[0]; a[0] = t1 + t2;
  }
  for (int i = 0; i < 8; ++i) c->h[i] += a[i];
}
}  // namespace verif_shim
inline int SHA256_Init(SHA256_CTX* c) {
  memset(c, 0, sizeof(*c));
  static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  memcpy(c->h, iv, 32);
  c->md_len = 32;
  return 1;
}
inline int SHA256_Update(SHA256_CTX* c, const void* in, size_t len) {
  const uint8_t* d = (const uint8_t*)in;
  uint64_t bits = ((uint64_t)c->Nh << 32 | c->Nl) + (uint64_t)len * 8;
  c->Nl = (uint32_t)bits; c->Nh = (uint32_t)(bits >> 32);
  while (len) {
    size_t k = 64 - c->num;
    if (k > len) k = len;
    memcpy(c->data + c->num, d, k);
    c->num += k; d += k; len -= k;
    if (c->num == 64) { verif_shim::s2block(c, c->data); c->num = 0; }
  }
  return 1;
}
inline int SHA256_Final(uint8_t* out, SHA256_CTX* c) {
  c->data[c->num++] = 0x80;
  if (c->num > 56) { memset(c->data + c->num, 0, 64 - c->num); verif_shim::s2block(c, c->data); c->num = 0; }
  memset(c->data + c->num, 0, 56 - c->num);
  for (int i = 0; i < 4; ++i) { c->data[56 + i] = c->Nh >> (24 - 8 * i); c->data[60 + i] = c->Nl >> (24 - 8 * i); }
  verif_shim::s2block(c, c->data);
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 4; ++j) out[4 * i + j] = c->h[i] >> (24 - 8 * j);
  return 1;
}
#endif
