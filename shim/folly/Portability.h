#pragma once
#include <memory>
#include <string>
#include <utility>
#ifndef FOLLY_ALWAYS_INLINE
#define FOLLY_ALWAYS_INLINE inline
#define FOLLY_NOINLINE __attribute__((noinline))
#define FOLLY_NODISCARD [[nodiscard]]
#define FOLLY_LIKELY(x) (__builtin_expect(!!(x),1))
#define FOLLY_UNLIKELY(x) (__builtin_expect(!!(x),0))
#endif
