#pragma once
#include <cstdint>
#include <random>
namespace folly {
class Random {
  static std::mt19937_64& g() { static std::mt19937_64 x(1); return x; }
 public:
  static uint32_t rand32() { return uint32_t(g()()); }
  static uint32_t rand32(uint32_t m) { return m ? uint32_t(g()() % m) : 0; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a >= b ? 0 : a + rand32(b - a); }
  static uint64_t rand64() { return g()(); }
  static uint64_t rand64(uint64_t m) { return m ? g()() % m : 0; }
  static double randDouble01() { return (g()() >> 11) * (1.0 / 9007199254740992.0); }
  static bool oneIn(uint32_t n) { return n && rand32(n) == 0; }
};
inline uint32_t randomNumberSeed() { return 1; }
}
