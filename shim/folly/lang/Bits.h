#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
namespace folly {
template <class T> inline T loadUnaligned(const void* p) { T v; memcpy(&v, p, sizeof v); return v; }
template <class T> inline void storeUnaligned(void* p, T v) { memcpy(p, &v, sizeof v); }
class Endian {
 public:
  enum class Order : uint8_t { LITTLE, BIG };
  static constexpr Order order = Order::LITTLE;
  template <class T> static T swap(T x) {
    T r; auto* a = (const unsigned char*)&x; auto* b = (unsigned char*)&r;
    for (size_t i = 0; i < sizeof(T); i++) b[i] = a[sizeof(T) - 1 - i];
    return r;
  }
  template <class T> static T little(T x) { return x; }
  template <class T> static T big(T x) { return swap(x); }
};
template <class T> inline unsigned findFirstSet(T v) { return v ? 1 + __builtin_ctzll((unsigned long long)v) : 0; }
template <class T> inline unsigned findLastSet(T v) { return v ? 64 - __builtin_clzll((unsigned long long)(typename std::make_unsigned<T>::type)v) : 0; }
template <class T> inline T nextPowTwo(T v) { T r = 1; while (r < v) r <<= 1; return r; }
}
