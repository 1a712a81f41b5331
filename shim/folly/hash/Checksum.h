#pragma once
#include <cstddef>
#include <cstdint>
namespace folly {
inline uint32_t crc32c(const uint8_t* d, size_t n, uint32_t crc = ~0U) {
  static const struct T { uint32_t t[8][256]; T() {
    for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78U & (0U - (c & 1))); t[0][i] = c; }
    for (uint32_t i = 0; i < 256; i++) for (int k = 1; k < 8; k++) t[k][i] = (t[k - 1][i] >> 8) ^ t[0][t[k - 1][i] & 255];
  } } tb;
  while (n--) crc = (crc >> 8) ^ tb.t[0][(crc ^ *d++) & 255];
  return crc;
}
}
