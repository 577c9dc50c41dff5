// Stand-in for boringssl's patched chacha.h (only chacha_core is used).
#ifndef VERIF_SHIM_CHACHA_H_
#define VERIF_SHIM_CHACHA_H_
#include <stdint.h>
#include <string.h>
inline void chacha_core(uint8_t output[64], const uint32_t input[16]) {
  uint32_t x[16];
  memcpy(x, input, 64);
  auto rotl = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
#define VQR(a, b, c, d) \
  x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12); \
  x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7);
  for (int i = 20; i > 0; i -= 2) {
    VQR(0, 4, 8, 12) VQR(1, 5, 9, 13) VQR(2, 6, 10, 14) VQR(3, 7, 11, 15)
    VQR(0, 5, 10, 15) VQR(1, 6, 11, 12) VQR(2, 7, 8, 13) VQR(3, 4, 9, 14)
  }
#undef VQR
  for (int i = 0; i < 16; ++i) x[i] += input[i];
  memcpy(output, x, 64);
}
#endif
