// Minimal stand-in for folly (not installable offline). Lenient superset of
// what facebook/wdt uses; semantics follow folly's documentation.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
namespace folly {
template <class Iter>
class Range {
 public:
  typedef std::size_t size_type;
  typedef Iter iterator;
  typedef Iter const_iterator;
  typedef typename std::remove_reference<
      typename std::iterator_traits<Iter>::reference>::type value_type;
  typedef typename std::iterator_traits<Iter>::reference reference;
  static const size_type npos = std::string::npos;

  constexpr Range() : b_(), e_() {}
  constexpr Range(Iter start, Iter end) : b_(start), e_(end) {}
  constexpr Range(Iter start, size_t size) : b_(start), e_(start + size) {}
  template <class I = Iter,
            typename std::enable_if<std::is_same<I, const char*>::value,
                                    int>::type = 0>
  constexpr /* implicit */ Range(const char* s) : b_(s), e_(s + strlen(s)) {}
  template <class I = Iter,
            typename std::enable_if<std::is_same<I, const char*>::value,
                                    int>::type = 0>
  /* implicit */ Range(const std::string& s)
      : b_(s.data()), e_(s.data() + s.size()) {}
  template <class I = Iter,
            typename std::enable_if<std::is_same<I, const char*>::value,
                                    int>::type = 0>
  /* implicit */ Range(std::string_view s)
      : b_(s.data()), e_(s.data() + s.size()) {}
  template <class I = Iter,
            typename std::enable_if<std::is_same<I, const char*>::value,
                                    int>::type = 0>
  Range(const std::string& s, size_t from) {
    if (from > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + from;
    e_ = s.data() + s.size();
  }
  template <class I = Iter,
            typename std::enable_if<std::is_same<I, const char*>::value,
                                    int>::type = 0>
  Range(const std::string& s, size_t from, size_t len) {
    if (from > s.size()) throw std::out_of_range("index out of range");
    b_ = s.data() + from;
    e_ = b_ + std::min(len, s.size() - from);
  }
  // conversion between char/unsigned char ranges
  template <class OtherIter,
            typename std::enable_if<
                (!std::is_same<Iter, OtherIter>::value &&
                 std::is_convertible<OtherIter, Iter>::value),
                int>::type = 0>
  constexpr /* implicit */ Range(const Range<OtherIter>& o)
      : b_(o.begin()), e_(o.end()) {}
  template <class OtherIter,
            typename std::enable_if<
                (!std::is_same<Iter, OtherIter>::value &&
                 !std::is_convertible<OtherIter, Iter>::value &&
                 sizeof(typename std::iterator_traits<OtherIter>::value_type) ==
                     1 &&
                 sizeof(typename std::iterator_traits<Iter>::value_type) == 1),
                int>::type = 0>
  explicit Range(const Range<OtherIter>& o)
      : b_(reinterpret_cast<Iter>(o.begin())),
        e_(reinterpret_cast<Iter>(o.end())) {}

  void clear() { b_ = Iter(); e_ = Iter(); }
  void assign(Iter s, Iter e) { b_ = s; e_ = e; }
  void reset(Iter s, size_type n) { b_ = s; e_ = s + n; }
  constexpr size_type size() const { return size_type(e_ - b_); }
  constexpr size_type walk_size() const { return size_type(e_ - b_); }
  constexpr bool empty() const { return b_ == e_; }
  constexpr Iter data() const { return b_; }
  constexpr Iter start() const { return b_; }
  constexpr Iter begin() const { return b_; }
  constexpr Iter end() const { return e_; }
  constexpr Iter cbegin() const { return b_; }
  constexpr Iter cend() const { return e_; }
  reference front() const { return *b_; }
  reference back() const { return *(e_ - 1); }
  constexpr reference operator[](size_t i) const { return b_[i]; }
  reference at(size_t i) const {
    if (i >= size()) throw std::out_of_range("index out of range");
    return b_[i];
  }
  std::string str() const {
    return std::string(reinterpret_cast<const char*>(b_), size());
  }
  std::string toString() const { return str(); }
  explicit operator std::string() const { return str(); }
  explicit operator std::string_view() const {
    return std::string_view(reinterpret_cast<const char*>(b_), size());
  }
  void advance(size_type n) {
    if (n > size()) throw std::out_of_range("index out of range");
    b_ += n;
  }
  void subtract(size_type n) {
    if (n > size()) throw std::out_of_range("index out of range");
    e_ -= n;
  }
  void uncheckedAdvance(size_type n) { b_ += n; }
  void uncheckedSubtract(size_type n) { e_ -= n; }
  Range subpiece(size_type first, size_type length = npos) const {
    if (first > size()) throw std::out_of_range("index out of range");
    return Range(b_ + first, std::min(length, size() - first));
  }
  Range range() const { return *this; }
  void pop_front() {
    if (empty()) throw std::out_of_range("pop_front");
    ++b_;
  }
  void pop_back() {
    if (empty()) throw std::out_of_range("pop_back");
    --e_;
  }
  int compare(const Range& o) const {
    size_t n = std::min(size(), o.size());
    int r = n ? memcmp(b_, o.b_, n) : 0;
    if (r) return r;
    return size() < o.size() ? -1 : (size() > o.size() ? 1 : 0);
  }
  size_type find(value_type c) const {
    for (size_type i = 0; i < size(); i++) if (b_[i] == c) return i;
    return npos;
  }
  size_type find(value_type c, size_t pos) const {
    for (size_type i = pos; i < size(); i++) if (b_[i] == c) return i;
    return npos;
  }
  size_type find(const Range& o) const {
    if (o.size() > size()) return npos;
    for (size_type i = 0; i + o.size() <= size(); i++)
      if (!o.size() || !memcmp(b_ + i, o.b_, o.size())) return i;
    return npos;
  }
  size_type rfind(value_type c) const {
    for (size_type i = size(); i-- > 0;) if (b_[i] == c) return i;
    return npos;
  }
  size_type find_first_of(const Range& o) const {
    for (size_type i = 0; i < size(); i++) if (o.find(b_[i]) != npos) return i;
    return npos;
  }
  bool startsWith(const Range& o) const {
    return size() >= o.size() && (!o.size() || !memcmp(b_, o.b_, o.size()));
  }
  bool startsWith(value_type c) const { return !empty() && front() == c; }
  bool endsWith(const Range& o) const {
    return size() >= o.size() &&
           (!o.size() || !memcmp(e_ - o.size(), o.b_, o.size()));
  }
  bool endsWith(value_type c) const { return !empty() && back() == c; }
  bool starts_with(const Range& o) const { return startsWith(o); }
  bool ends_with(const Range& o) const { return endsWith(o); }
  bool removePrefix(const Range& o) {
    return startsWith(o) && (b_ += o.size(), true);
  }
  bool removePrefix(value_type c) { return startsWith(c) && (++b_, true); }
  bool removeSuffix(const Range& o) {
    return endsWith(o) && (e_ -= o.size(), true);
  }
  bool contains(const Range& o) const { return find(o) != npos; }
  bool contains(value_type c) const { return find(c) != npos; }
  // returns the part before the delimiter and steps past it
  Range split_step(value_type delim) {
    size_type i = find(delim);
    if (i == npos) {
      Range r(b_, e_);
      b_ = e_;
      return r;
    }
    Range r(b_, b_ + i);
    b_ += i + 1;
    return r;
  }
  Range split_step(const Range& delim) {
    size_type i = find(delim);
    if (i == npos || delim.empty()) {
      Range r(b_, e_);
      b_ = e_;
      return r;
    }
    Range r(b_, b_ + i);
    b_ += i + delim.size();
    return r;
  }

 private:
  Iter b_, e_;
};
typedef Range<const char*> StringPiece;
typedef Range<char*> MutableStringPiece;
typedef Range<const unsigned char*> ByteRange;
typedef Range<unsigned char*> MutableByteRange;
template <class I>
std::ostream& operator<<(std::ostream& os, const Range<I>& p) {
  return os.write(reinterpret_cast<const char*>(p.start()), p.size());
}
template <class I> bool operator==(const Range<I>& a, const Range<I>& b) {
  return a.size() == b.size() && a.compare(b) == 0;
}
template <class I> bool operator!=(const Range<I>& a, const Range<I>& b) {
  return !(a == b);
}
template <class I> bool operator<(const Range<I>& a, const Range<I>& b) {
  return a.compare(b) < 0;
}
#define VSHIM_SP_OP(op)                                                      \
  inline bool operator op(const StringPiece& a, const std::string& b) {      \
    return a op StringPiece(b);                                              \
  }                                                                          \
  inline bool operator op(const std::string& a, const StringPiece& b) {      \
    return StringPiece(a) op b;                                              \
  }                                                                          \
  inline bool operator op(const StringPiece& a, const char* b) {             \
    return a op StringPiece(b);                                              \
  }                                                                          \
  inline bool operator op(const char* a, const StringPiece& b) {             \
    return StringPiece(a) op b;                                              \
  }
VSHIM_SP_OP(==)
VSHIM_SP_OP(!=)
VSHIM_SP_OP(<)
#undef VSHIM_SP_OP
template <class I> constexpr Range<I> range(I a, I b) { return Range<I>(a, b); }
inline StringPiece range(const std::string& s) { return StringPiece(s); }
}  // namespace folly
namespace std {
template <> struct hash<folly::StringPiece> {
  size_t operator()(const folly::StringPiece& s) const {
    return std::hash<std::string_view>()(std::string_view(s.data(), s.size()));
  }
};
}  // namespace std
