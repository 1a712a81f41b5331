#pragma once
#include <memory>
#include <folly/Portability.h>
namespace folly {
template <typename T, void (*f)(T*)> struct static_function_deleter {
  void operator()(T* t) const { f(t); }
};
using std::make_unique;
template <class T> std::shared_ptr<T> to_shared_ptr(std::unique_ptr<T>&& p) { return std::shared_ptr<T>(std::move(p)); }
}
