#pragma once
// Built on pthread mutexes so that the controlled scheduler (which interposes
// on pthread_*) sees every acquisition as a scheduling point.
#include <pthread.h>
#include <mutex>
#include <shared_mutex>
namespace folly {
class SpinLock {
 public:
  SpinLock() = default;
  SpinLock(const SpinLock&) = delete;
  void lock() const { pthread_mutex_lock(&m_); }
  void unlock() const { pthread_mutex_unlock(&m_); }
  bool try_lock() const { return pthread_mutex_trylock(&m_) == 0; }
 private:
  mutable pthread_mutex_t m_ = PTHREAD_MUTEX_INITIALIZER;
};
using MicroSpinLock = SpinLock;
using SpinLockGuard = std::lock_guard<SpinLock>;
}
