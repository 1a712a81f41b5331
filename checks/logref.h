// Reference interpreter of the transfer log: framing and meaning of the
// entries, independent of the parser (the field decoders are the code's own,
// covered by C08 and C09).
#pragma once
#include <wdt/util/TransferLogManager.h>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace logref {
using namespace facebook::wdt;
using std::string;
enum Mode { PREALLOC, NOALLOC, DIRTREE, NMODES };
struct Ent {
  int type = -1;
  bool ok = false;   // decodes
  string name, ip;
  int version = 0;
  int64_t config = 0, seq = 0, a = 0, b = 0;
  string show() const {
    std::ostringstream o;
    o << type << (ok ? "" : "!") << "(" << name << "," << ip << "," << config << "," << seq << "," << a << "," << b << ")";
    return o.str();
  }
};
inline Ent decode(string body) {
  Ent e;
  e.type = (signed char)body[0];
  LogEncoderDecoder d;
  char* p = &body[1];
  int16_t n = body.size() - 1;
  int64_t ts;
  string a, b;
  switch (e.type) {
    case 0: e.ok = d.decodeLogHeader(p, n, ts, e.version, a, b, e.config); break;
    case 1: e.ok = d.decodeFileCreationEntry(p, n, ts, a, e.seq, e.a); break;
    case 2: e.ok = d.decodeBlockWriteEntry(p, n, ts, e.seq, e.a, e.b); break;
    case 3: e.ok = d.decodeFileInvalidationEntry(p, n, ts, e.seq); break;
    case 4: e.ok = d.decodeFileResizeEntry(p, n, ts, e.seq, e.a); break;
    case 5: e.ok = d.decodeDirectoryInvalidationEntry(p, n, ts); break;
  }
  e.name = a;
  e.ip = b;
  return e;
}
struct Parsed {
  std::vector<Ent> ents;
  size_t whole = 0;    // bytes of the complete entries
  bool badFrame = false;
};
inline Parsed split(const string& s) {
  Parsed r;
  size_t at = 0;
  while (s.size() - at >= 2) {
    int16_t n;
    memcpy(&n, s.data() + at, 2);
    if (n <= 0 || n > TransferLogManager::kMaxEntryLength) { r.badFrame = true; break; }
    if (s.size() - at - 2 < (size_t)n) break;
    r.ents.push_back(decode(s.substr(at + 2, n)));
    at += 2 + n;
  }
  r.whole = at;
  return r;
}
/// a set of bytes, kept as maximal ranges
struct Ranges {
  std::map<int64_t, int64_t> m;
  bool beyond = false;   // something out of any sensible range
  void add(int64_t a, int64_t b) {
    if (a >= b) return;
    auto i = m.upper_bound(a);
    if (i != m.begin() && std::prev(i)->second >= a) --i;
    while (i != m.end() && i->first <= b) {
      a = std::min(a, i->first);
      b = std::max(b, i->second);
      i = m.erase(i);
    }
    m[a] = b;
  }
  int64_t end() const { return m.empty() ? 0 : m.rbegin()->second; }
  int64_t size() const { int64_t n = 0; for (auto& x : m) n += x.second - x.first; return n; }
  bool within(const Ranges& o) const {
    for (auto& x : m) {
      auto i = o.m.upper_bound(x.first);
      if (i == o.m.begin() || std::prev(i)->second < x.second) return false;
    }
    return true;
  }
  string show() const {
    string s;
    for (auto& x : m) s += " [" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
    return s;
  }
};
struct State {
  ErrorCode status = OK;
  struct F { string name; int64_t recorded, disk; Ranges bytes; };
  std::map<int64_t, F> live;
  std::set<int64_t> missing;   // to be invalidated
  string ip;                   // of the last header
  string show() const {
    std::ostringstream o;
    o << errorCodeToStr(status);
    if (status != OK) return o.str();
    for (auto& x : live) {
      o << " " << x.first << ":" << x.second.name << "/" << x.second.disk;
      o << x.second.bytes.show();
    }
    return o.str();
  }
};
/// sizeOf: size of a file on the disk, -1 if there is none
inline State reference(const Parsed& p, const std::function<int64_t(const string&)>& sizeOf, Mode mode, const string& kId, int64_t kConfig) {
  State s;
  bool valid = false;  // a header for this transfer was seen
  auto broken = [&] { s.status = INVALID_LOG; return s; };
  for (auto& e : p.ents) {
    if (s.status == INCONSISTENT_DIRECTORY && e.type != 0) continue;  // only a header makes it valid again
    if (e.type < 0 || e.type > 5 || !e.ok) return broken();
    if (e.type == 0) {
      if (e.version != 2 || e.ip.empty()) return broken();
      s.ip = e.ip;
      if (e.name != kId || e.config != kConfig) {
        s.status = INCONSISTENT_DIRECTORY;
        s.live.clear(); s.missing.clear();
        valid = false;
      } else {
        s.status = OK;
        valid = true;
      }
      continue;
    }
    if (e.type == 5) {
      s.status = INCONSISTENT_DIRECTORY;
      s.live.clear(); s.missing.clear();
      valid = false;
      continue;
    }
    if (!valid || mode == DIRTREE) return broken();
    auto it = s.live.find(e.seq);
    bool gone = s.missing.count(e.seq);
    if (e.type == 1) {
      if (it != s.live.end() || gone) return broken();
      int64_t d = sizeOf(e.name);
      if (d < 0 || (mode == PREALLOC && d < e.a)) s.missing.insert(e.seq);
      else s.live[e.seq] = {e.name, e.a, d, {}};
      continue;
    }
    if (it == s.live.end() && !gone) return broken();
    if (e.type == 3) {
      s.live.erase(e.seq);
      s.missing.erase(e.seq);
      continue;
    }
    if (gone) continue;
    auto& f = it->second;
    if (e.type == 4) {
      if (mode == PREALLOC && e.a < f.recorded) return broken();
      f.recorded = e.a;
    } else {
      if (e.a < 0 || e.b < 0) return broken();
      if (e.a > (1ll << 40) || e.b > (1ll << 40) || (!e.b && e.a > f.disk)) f.bytes.beyond = true;
      else f.bytes.add(e.a, e.a + e.b);
    }
  }
  // what is left at the end must fit what is on the disk
  if (s.status == OK)
    for (auto& x : s.live) {
      auto& f = x.second;
      if (f.bytes.beyond || f.bytes.end() > f.disk || (mode == PREALLOC && f.recorded > f.disk)) return broken();
    }
  return s;
}

}  // namespace logref
