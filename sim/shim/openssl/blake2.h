// Stand-in for boringssl's patched blake2.h: BLAKE2b per RFC 7693.
#ifndef VERIF_SHIM_BLAKE2_H_
#define VERIF_SHIM_BLAKE2_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define BLAKE2B256_DIGEST_LENGTH (256 / 8)
#define BLAKE2B512_DIGEST_LENGTH (512 / 8)
#define BLAKE2B_CBLOCK 128
#define BLAKE2B_PERSONAL_LENGTH 16
struct blake2b_state_st {
  uint64_t h[8];
  uint64_t t_low, t_high;
  uint8_t block[BLAKE2B_CBLOCK];
  size_t block_used;
};
typedef struct blake2b_state_st BLAKE2B_CTX;
namespace verif_shim {
inline constexpr uint64_t kB2IV[8] = {
    0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
    0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
inline uint64_t b2rot(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
inline void b2compress(BLAKE2B_CTX* c, const uint8_t blk[128], size_t n, bool last) {
  static const uint8_t S[12][16] = {
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
      {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
      {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
      {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
      {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
      {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}};
  c->t_low += n;
  if (c->t_low < n) c->t_high++;
  uint64_t v[16], m[16];
  for (int i = 0; i < 8; ++i) { v[i] = c->h[i]; v[i + 8] = kB2IV[i]; }
  v[12] ^= c->t_low; v[13] ^= c->t_high;
  if (last) v[14] = ~v[14];
  memcpy(m, blk, 128);
#define VG(a, b, cc, d, x, y) \
  v[a] += v[b] + (x); v[d] = b2rot(v[d] ^ v[a], 32); v[cc] += v[d]; v[b] = b2rot(v[b] ^ v[cc], 24); \
  v[a] += v[b] + (y); v[d] = b2rot(v[d] ^ v[a], 16); v[cc] += v[d]; v[b] = b2rot(v[b] ^ v[cc], 63);
  for (int r = 0; r < 12; ++r) {
    const uint8_t* s = S[r];
    VG(0, 4, 8, 12, m[s[0]], m[s[1]]) VG(1, 5, 9, 13, m[s[2]], m[s[3]])
    VG(2, 6, 10, 14, m[s[4]], m[s[5]]) VG(3, 7, 11, 15, m[s[6]], m[s[7]])
    VG(0, 5, 10, 15, m[s[8]], m[s[9]]) VG(1, 6, 11, 12, m[s[10]], m[s[11]])
    VG(2, 7, 8, 13, m[s[12]], m[s[13]]) VG(3, 4, 9, 14, m[s[14]], m[s[15]])
  }
#undef VG
  for (int i = 0; i < 8; ++i) c->h[i] ^= v[i] ^ v[i + 8];
}
inline void b2init(BLAKE2B_CTX* c, int len, const char* personal) {
  memset(c, 0, sizeof(*c));
  memcpy(c->h, kB2IV, sizeof(kB2IV));
  c->h[0] ^= 0x01010000u | (unsigned)len;
  if (personal) {
    uint64_t p[2];
    memcpy(p, personal, 16);
    c->h[6] ^= p[0]; c->h[7] ^= p[1];
  }
}
inline void b2update(BLAKE2B_CTX* c, const void* in, size_t len) {
  const uint8_t* d = (const uint8_t*)in;
  while (len) {
    if (c->block_used == BLAKE2B_CBLOCK) { b2compress(c, c->block, 128, false); c->block_used = 0; }
    size_t k = BLAKE2B_CBLOCK - c->block_used;
    if (k > len) k = len;
    memcpy(c->block + c->block_used, d, k);
    c->block_used += k; d += k; len -= k;
  }
}
inline void b2final(uint8_t* out, size_t n, BLAKE2B_CTX* c) {
  memset(c->block + c->block_used, 0, BLAKE2B_CBLOCK - c->block_used);
  b2compress(c, c->block, c->block_used, true);
  memcpy(out, c->h, n);
}
}  // namespace verif_shim
inline void BLAKE2B256_Init(BLAKE2B_CTX* c) { verif_shim::b2init(c, 32, nullptr); }
inline void BLAKE2B256_InitWithPersonal(BLAKE2B_CTX* c, const char* p) { verif_shim::b2init(c, 32, p); }
inline void BLAKE2B256_Update(BLAKE2B_CTX* c, const void* d, size_t n) { verif_shim::b2update(c, d, n); }
inline void BLAKE2B256_Final(uint8_t* o, BLAKE2B_CTX* c) { verif_shim::b2final(o, 32, c); }
inline void BLAKE2B512_Init(BLAKE2B_CTX* c) { verif_shim::b2init(c, 64, nullptr); }
inline void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* c, const char* p) { verif_shim::b2init(c, 64, p); }
inline void BLAKE2B512_Update(BLAKE2B_CTX* c, const void* d, size_t n) { verif_shim::b2update(c, d, n); }
inline void BLAKE2B512_Final(uint8_t* o, BLAKE2B_CTX* c) { verif_shim::b2final(o, 64, c); }
#endif
