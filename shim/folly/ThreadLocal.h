#pragma once
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <map>
#include <vector>
namespace folly {
template <class T, class Tag = void, class Mode = void> class ThreadLocalPtr {
  mutable std::mutex m_; std::map<std::thread::id, std::unique_ptr<T>> d_;
 public:
  T* get() const { std::lock_guard<std::mutex> g(m_); auto i = d_.find(std::this_thread::get_id()); return i == d_.end() ? nullptr : i->second.get(); }
  T* operator->() const { return get(); }
  T& operator*() const { return *get(); }
  explicit operator bool() const { return get() != nullptr; }
  void reset(T* p = nullptr) { std::unique_ptr<T> old; { std::lock_guard<std::mutex> g(m_); auto& s = d_[std::this_thread::get_id()]; old = std::move(s); s.reset(p); } }
  struct Accessor { std::vector<T*> v; struct It { typename std::vector<T*>::iterator i; T& operator*() { return **i; } It& operator++() { ++i; return *this; } bool operator!=(const It& o) const { return i != o.i; } }; It begin() { return {v.begin()}; } It end() { return {v.end()}; } };
  Accessor accessAllThreads() const { std::lock_guard<std::mutex> g(m_); Accessor a; for (auto& p : d_) if (p.second) a.v.push_back(p.second.get()); return a; }
};
template <class T, class Tag = void> class ThreadLocal { mutable ThreadLocalPtr<T, Tag> p_; public: T* get() const { T* t = p_.get(); if (!t) { t = new T(); p_.reset(t); } return t; } T* operator->() const { return get(); } T& operator*() const { return *get(); } };
}
