// Memory-access scheduling points: selected files of the code under test are
// compiled (tools/run.py RACE) with -fsanitize=thread, but these functions take the place of its
// runtime and offer a switch before every access to memory that is not on the
// running fiber's own stack (in scenarios with access set).
#include <cstddef>
#include <cstdint>
#include "fib.h"
namespace fib { bool ownStack(const void* p); bool inScope(void* ra); }
#include <sys/single_threaded.h>
// reference counts must be atomic although no kernel thread is ever created
__attribute__((constructor)) static void multiThreaded() { __libc_single_threaded = 0; }
extern "C" char __executable_start, edata, end;
static inline void access(const void* p, const char* what, void* ra) {
  if (!vmc::accessPoints || !fib::on()) return;
  if ((const char*)p >= &__executable_start && (const char*)p < &end) return;  // flags, constants
  if (fib::ownStack(p)) return;
  (void)ra;
  fib::point(what);
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                   \
  void __tsan_read##n(void* p) { access(p, "read", RA); }                       \
  void __tsan_write##n(void* p) { access(p, "write", RA); }                     \
  void __tsan_unaligned_read##n(void* p) { access(p, "read", RA); }             \
  void __tsan_unaligned_write##n(void* p) { access(p, "write", RA); }           \
  void __tsan_volatile_read##n(void* p) { access(p, "read", RA); }              \
  void __tsan_volatile_write##n(void* p) { access(p, "write", RA); }            \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, "read", RA); }    \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, "write", RA); }  \
  void __tsan_read_write##n(void* p) { access(p, "write", RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { access(p, "read", RA); }
void __tsan_write_range(void* p, size_t) { access(p, "write", RA); }
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
#define AT(T, n)                                                                                                   \
  T __tsan_atomic##n##_load(const volatile T* p, int) { access((void*)p, "aload", RA); return *p; }               \
  void __tsan_atomic##n##_store(volatile T* p, T v, int) { access((void*)p, "astore", RA); *p = v; }              \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { access((void*)p, "axchg", RA); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { access((void*)p, "aadd", RA); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { access((void*)p, "asub", RA); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { access((void*)p, "aand", RA); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { access((void*)p, "aor", RA); T o = *p; *p = o | v; return o; }   \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { access((void*)p, "axor", RA); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { access((void*)p, "anand", RA); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                             \
    access((void*)p, "acas", RA);                                                                                  \
    if (*p == *e) { *p = v; return 1; }                                                                            \
    *e = *p;                                                                                                       \
    return 0;                                                                                                      \
  }                                                                                                                \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, a, b); return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64) AT(unsigned __int128, 128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
