#pragma once
#include <folly/Conv.h>
#include <folly/Range.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
namespace folly {
inline void vshim_backslashify(StringPiece in, std::string& out) {
  for (char ch : in) {
    unsigned char c = ch;
    switch (c) {
      case '\\': out += "\\\\"; continue;
      case '\n': out += "\\n"; continue;
      case '\r': out += "\\r"; continue;
      case '\t': out += "\\t"; continue;
      default: break;
    }
    if (c >= 0x20 && c < 0x7f) out.push_back(ch);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); out += b; }
  }
}
inline std::string backslashify(StringPiece s, bool = false) { std::string o; vshim_backslashify(s, o); return o; }
inline std::string humanify(StringPiece s) {
  size_t np = 0;
  for (char ch : s) { unsigned char c = ch; if (c < 0x20 || c >= 0x7f) np++; }
  if (np == 0) return s.str();
  if (np * 3 > s.size()) {
    std::string o = "0x"; char b[4];
    for (char ch : s) { snprintf(b, sizeof b, "%02x", (unsigned char)ch); o += b; }
    return o;
  }
  return backslashify(s);
}
inline std::string hexlify(StringPiece s) { std::string o; char b[4]; for (char ch : s) { snprintf(b, sizeof b, "%02x", (unsigned char)ch); o += b; } return o; }
inline bool hexlify(const std::string& in, std::string& out, bool app = false) { if (!app) out.clear(); out += hexlify(StringPiece(in)); return true; }
template <class Out>
void split(StringPiece delim, StringPiece in, std::vector<Out>& out, bool ignoreEmpty = false) {
  if (delim.empty()) { if (!ignoreEmpty || !in.empty()) out.push_back(Out(in.data(), in.size())); return; }
  while (true) {
    size_t p = in.find(delim);
    StringPiece tok = p == StringPiece::npos ? in : in.subpiece(0, p);
    if (!ignoreEmpty || !tok.empty()) out.push_back(Out(tok.data(), tok.size()));
    if (p == StringPiece::npos) return;
    in.advance(p + delim.size());
  }
}
template <class Out>
void split(char delim, StringPiece in, std::vector<Out>& out, bool ignoreEmpty = false) {
  split(StringPiece(&delim, size_t(1)), in, out, ignoreEmpty);
}
template <class C> std::string join(StringPiece delim, const C& c) {
  std::string r; bool f = true;
  for (auto& x : c) { if (!f) r.append(delim.data(), delim.size()); f = false; vshim::app(&r, x); }
  return r;
}
inline StringPiece trimWhitespace(StringPiece s) { return vshim::trim(s); }
inline StringPiece ltrimWhitespace(StringPiece s) { while (!s.empty() && isspace((unsigned char)s.front())) s.pop_front(); return s; }
inline StringPiece rtrimWhitespace(StringPiece s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }
inline std::string errnoStr(int e) { char b[256]; return std::string(strerror_r(e, b, sizeof b)); }
template <class... A> std::string stringPrintf(const char* f, A... a) {
  int n = snprintf(nullptr, 0, f, a...); std::string s(n, 0); snprintf(&s[0], n + 1, f, a...); return s;
}
inline void toLowerAscii(std::string& s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; }
}  // namespace folly
