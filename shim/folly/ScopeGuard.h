#pragma once
#include <functional>
#include <type_traits>
#include <utility>
namespace folly {
template <class F> class ScopeGuardImpl_ {
 public:
  explicit ScopeGuardImpl_(F f) : f_(std::move(f)) {}
  ScopeGuardImpl_(ScopeGuardImpl_&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ScopeGuardImpl_(const ScopeGuardImpl_&) = delete;
  ~ScopeGuardImpl_() { if (on_) f_(); }
  void dismiss() noexcept { on_ = false; }
  void rehire() noexcept { on_ = true; }
 private:
  F f_; bool on_ = true;
};
template <class F> ScopeGuardImpl_<typename std::decay<F>::type> makeGuard(F&& f) {
  return ScopeGuardImpl_<typename std::decay<F>::type>(std::forward<F>(f));
}
struct ScopeGuardTag_ {};
template <class F> ScopeGuardImpl_<typename std::decay<F>::type> operator+(ScopeGuardTag_, F&& f) { return makeGuard(std::forward<F>(f)); }
}
#define VSHIM_CAT2(a, b) a##b
#define VSHIM_CAT(a, b) VSHIM_CAT2(a, b)
#define SCOPE_EXIT auto VSHIM_CAT(vshim_scope_, __COUNTER__) = ::folly::ScopeGuardTag_() + [&]() noexcept
