#pragma once
#include <optional>
#include <folly/Portability.h>
namespace folly {
using None = std::nullopt_t;
inline constexpr None none = std::nullopt;
template <class T> class Optional : public std::optional<T> {
 public:
  using std::optional<T>::optional;
  using std::optional<T>::operator=;
  bool hasValue() const { return this->has_value(); }
  void clear() { this->reset(); }
  T* get_pointer() { return this->has_value() ? &**this : nullptr; }
};
template <class T> Optional<typename std::decay<T>::type> make_optional(T&& t) { return Optional<typename std::decay<T>::type>(std::forward<T>(t)); }
}
