#pragma once
#include <pthread.h>
#include <mutex>
#include <shared_mutex>
namespace folly {
class RWSpinLock {
 public:
  RWSpinLock() = default;
  RWSpinLock(const RWSpinLock&) = delete;
  void lock() { pthread_rwlock_wrlock(&m_); }
  void unlock() { pthread_rwlock_unlock(&m_); }
  bool try_lock() { return pthread_rwlock_trywrlock(&m_) == 0; }
  void lock_shared() { pthread_rwlock_rdlock(&m_); }
  void unlock_shared() { pthread_rwlock_unlock(&m_); }
  bool try_lock_shared() { return pthread_rwlock_tryrdlock(&m_) == 0; }
  class ReadHolder { RWSpinLock* l_; public: explicit ReadHolder(RWSpinLock& l) : l_(&l) { l.lock_shared(); } explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l) l->lock_shared(); } ReadHolder(ReadHolder&& o) : l_(o.l_) { o.l_ = nullptr; } ~ReadHolder() { if (l_) l_->unlock_shared(); } };
  class WriteHolder { RWSpinLock* l_; public: explicit WriteHolder(RWSpinLock& l) : l_(&l) { l.lock(); } explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l) l->lock(); } WriteHolder(WriteHolder&& o) : l_(o.l_) { o.l_ = nullptr; } ~WriteHolder() { if (l_) l_->unlock(); } };
 private:
  pthread_rwlock_t m_ = PTHREAD_RWLOCK_INITIALIZER;
};
}
