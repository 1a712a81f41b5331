#pragma once
#include <folly/Range.h>
#include <charconv>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
namespace folly {
class ConversionError : public std::range_error {
 public:
  explicit ConversionError(const std::string& s) : std::range_error(s) {}
};
namespace vshim {
inline void app(std::string* out, const std::string& v) { out->append(v); }
inline void app(std::string* out, const char* v) { if (v) out->append(v); }
inline void app(std::string* out, char v) { out->push_back(v); }
inline void app(std::string* out, bool v) { out->append(v ? "1" : "0"); }
inline void app(std::string* out, StringPiece v) { out->append(v.data(), v.size()); }
inline void app(std::string* out, std::string_view v) { out->append(v.data(), v.size()); }
template <class T>
typename std::enable_if<std::is_integral<T>::value>::type app(std::string* out, T v) {
  out->append(std::to_string(v));
}
template <class T>
typename std::enable_if<std::is_enum<T>::value>::type app(std::string* out, T v) {
  app(out, static_cast<typename std::underlying_type<T>::type>(v));
}
template <class T>
typename std::enable_if<std::is_floating_point<T>::value>::type app(std::string* out, T v) {
  char buf[64];
  auto r = std::to_chars(buf, buf + sizeof buf, v);
  out->append(buf, r.ptr - buf);
}
inline void appAll(std::string*) {}
template <class T, class... R>
void appAll(std::string* out, const T& v, const R&... r) { app(out, v); appAll(out, r...); }
template <class T, class... R> struct Last { typedef typename Last<R...>::type type; };
template <class T> struct Last<T> { typedef T type; };
inline void toApp2(std::string*& out) { (void)out; }
inline StringPiece trim(StringPiece s) {
  while (!s.empty() && isspace((unsigned char)s.front())) s.pop_front();
  while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
  return s;
}
template <class T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, T>::type parse(StringPiece in) {
  StringPiece s = trim(in);
  if (s.empty()) throw ConversionError("Empty input string");
  const char* b = s.begin();
  if (*b == '+') {
    ++b;
    if (b == s.end() || *b == '-') throw ConversionError("Non-digit character found");
  }
  T v{};
  auto r = std::from_chars(b, s.end(), v, 10);
  if (r.ec == std::errc::result_out_of_range) throw ConversionError("Overflow during conversion");
  if (r.ec != std::errc() || r.ptr != s.end()) throw ConversionError("Non-digit character found: " + in.str());
  return v;
}
template <class T>
typename std::enable_if<std::is_same<T, bool>::value, T>::type parse(StringPiece in) {
  std::string s = trim(in).str();
  for (auto& c : s) c = tolower((unsigned char)c);
  if (s == "1" || s == "true" || s == "t" || s == "y" || s == "yes" || s == "on") return true;
  if (s == "0" || s == "false" || s == "f" || s == "n" || s == "no" || s == "off") return false;
  if (s.empty()) throw ConversionError("Empty input string");
  if (s.find_first_not_of("01") == std::string::npos) {
    if (s.find_first_not_of("0") == std::string::npos) return false;
    size_t p = s.find_first_not_of("0");
    if (s.substr(p) == "1") return true;
    throw ConversionError("Integer overflow when parsing bool: must be 0 or 1");
  }
  throw ConversionError("Invalid value for bool");
}
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type parse(StringPiece in) {
  std::string s = trim(in).str();
  if (s.empty()) throw ConversionError("Empty input string");
  char* e = nullptr;
  double d = strtod(s.c_str(), &e);
  if (*e) throw ConversionError("Unable to convert to floating point: " + s);
  return T(d);
}
template <class T, class S> struct To {  // arithmetic -> arithmetic
  static T conv(const S& s) {
    if constexpr (std::is_arithmetic<T>::value && std::is_arithmetic<S>::value) {
      T r = static_cast<T>(s);
      if (static_cast<S>(r) != s || ((r < T{}) != (s < S{}))) throw ConversionError("loss of precision");
      return r;
    } else if constexpr (std::is_enum<S>::value) {
      return static_cast<T>(s);
    } else {
      return parse<T>(StringPiece(s));
    }
  }
};
}  // namespace vshim
template <class T, class... A>
typename std::enable_if<std::is_same<T, std::string>::value, T>::type to(const A&... a) {
  std::string r;
  vshim::appAll(&r, a...);
  return r;
}
template <class T, class S>
typename std::enable_if<!std::is_same<T, std::string>::value, T>::type to(const S& s) {
  return vshim::To<T, S>::conv(s);
}
template <class T>
typename std::enable_if<!std::is_same<T, std::string>::value, T>::type to(const char* b, const char* e) {
  return vshim::parse<T>(StringPiece(b, e));
}
namespace vshim {
template <class Tup, size_t... I>
void toAppImpl(const Tup& t, std::index_sequence<I...>) {
  std::string* out = std::get<sizeof...(I)>(t);
  (app(out, std::get<I>(t)), ...);
}
}  // namespace vshim
}  // namespace folly
#include <tuple>
namespace folly {
template <class... A> void toAppend(const A&... a) {
  vshim::toAppImpl(std::tie(a...), std::make_index_sequence<sizeof...(A) - 1>());
}
template <class D, class... A>
std::string toDelim(D d, const A&... a) {
  std::string r; bool f = true;
  ((f ? void(f = false) : vshim::app(&r, d), vshim::app(&r, a)), ...);
  return r;
}
template <class T> struct Expected_ { bool ok; T v; bool hasValue() const { return ok; } explicit operator bool() const { return ok; } T value() const { if (!ok) throw ConversionError("no value"); return v; } T operator*() const { return v; } T value_or(T o) const { return ok ? v : o; } };
template <class T, class S> Expected_<T> tryTo(const S& s) {
  try { return {true, to<T>(s)}; } catch (const std::exception&) { return {false, T()}; }
}
}  // namespace folly
