// Crash states of a directory, built from the recorded file-system operations.
#pragma once
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "fib.h"

namespace crash {
using std::string;
/// the directory after a prefix of the operations: what programs see, and what
/// of it is known to be on stable storage
struct Disk {
  string root;                         // with a trailing slash
  fs::Tree cur, durable;               // relative path -> content
  std::map<string, bool> dirty;        // file has operations after its last fsync
  string lastWrite;                    // path of the last write
  size_t lastLen = 0;
  explicit Disk(const string& dir, const fs::Tree& start = {}) : root(dir + "/"), cur(start), durable(start) {}
  string rel(const string& p) const { return p.compare(0, root.size(), root) ? "" : p.substr(root.size()); }
  /// returns whether the visible state changed
  bool apply(const fs::LogRec& r) {
    string p = rel(r.path);
    if (p.empty()) return false;
    switch (r.kind) {
      case fs::OPEN: {
        bool had = cur.count(p);
        if (had && !(r.flags & O_TRUNC)) return false;
        if (!had && !(r.flags & O_CREAT)) return false;
        if (had && cur[p].empty()) return false;
        cur[p] = "";
        dirty[p] = true;
        return true;
      }
      case fs::WRITE: case fs::PWRITE: {
        string& c = cur[p];
        if (c.size() < size_t(r.off + r.size)) c.resize(r.off + r.size);
        c.replace(r.off, r.size, r.data);
        dirty[p] = true;
        lastWrite = p;
        lastLen = r.size;
        return true;
      }
      case fs::FTRUNC:
        if ((int64_t)cur[p].size() == r.size) return false;
        cur[p].resize(r.size);
        dirty[p] = true;
        return true;
      case fs::FALLOC:
        if ((int64_t)cur[p].size() >= r.off + r.size) return false;
        cur[p].resize(r.off + r.size);
        dirty[p] = true;
        return true;
      case fs::FSYNC:
        if (!cur.count(p) || !dirty[p]) return false;
        durable[p] = cur[p];
        dirty[p] = false;
        return true;
      case fs::UNLINK:
        cur.erase(p);
        durable.erase(p);
        dirty.erase(p);
        return true;
      case fs::RENAME: {
        string q = rel(r.path2);
        cur[q] = cur[p];
        if (durable.count(p)) durable[q] = durable[p];
        dirty[q] = dirty[p];
        cur.erase(p); durable.erase(p); dirty.erase(p);
        return true;
      }
      default: return false;
    }
  }
};
/// contents a file may have after power was lost
inline std::vector<std::pair<string, bool>> afterPowerLoss(const Disk& d, const string& p, bool log) {
  // (content, exists)
  std::vector<std::pair<string, bool>> v;
  auto add = [&](const string& s, bool e) {
    for (auto& x : v) if (x.second == e && x.first == s) return;
    v.push_back({s, e});
  };
  auto c = d.cur.find(p);
  auto u = d.durable.find(p);
  auto di = d.dirty.find(p);
  if (c != d.cur.end()) add(c->second, true);
  if (di == d.dirty.end() || !di->second) return v;
  if (u != d.durable.end()) add(u->second, true);
  else add("", false), add("", true);
  if (c != d.cur.end()) {
    const string& now = c->second;
    string old = u != d.durable.end() ? u->second : "";
    if (log) {
      // a torn tail, or one whose size arrived before its data
      for (size_t cut : {old.size() + 1, old.size() + 6, (old.size() + now.size()) / 2, now.size() - 1})
        if (cut > old.size() && cut < now.size()) {
          add(now.substr(0, cut), true);
          string z = now.substr(0, cut);
          z.resize(now.size());
          add(z, true);
        }
      string z = now.substr(0, std::min(old.size(), now.size()));
      z.resize(now.size());
      add(z, true);
    } else {
      // the size arrived, the data did not
      string z = old.substr(0, std::min(old.size(), now.size()));
      z.resize(now.size());
      add(z, true);
      // only the first or the second half arrived
      if (now.size() > 1) {
        string h = z;
        h.replace(0, now.size() / 2, now, 0, now.size() / 2);
        add(h, true);
        h = z;
        h.replace(now.size() / 2, string::npos, now, now.size() / 2, string::npos);
        add(h, true);
      }
    }
  }
  return v;
}
/// every distinct directory that can be found after the process was killed
/// (power = false) or power was lost at some point of the recorded history
inline std::vector<fs::Tree> states(const string& dir, const std::vector<fs::LogRec>& ops, bool power, const string& logName, const fs::Tree& start = {}, size_t maxStates = 20000) {
  std::vector<fs::Tree> out;
  std::set<uint64_t> seen;
  auto put = [&](const fs::Tree& t) {
    uint64_t h = 1469598103934665603ull;
    for (auto& x : t) h = (h ^ vmc::hash(x.first + '\0' + x.second)) * 1099511628211ull;
    if (seen.insert(h).second) out.push_back(t);
  };
  Disk d(dir, start);
  put(d.cur);
  for (auto& r : ops) {
    if (!d.apply(r)) continue;
    put(d.cur);
    if (!power) continue;
    std::vector<std::pair<string, std::vector<std::pair<string, bool>>>> alts;
    std::set<string> names;
    for (auto& x : d.cur) names.insert(x.first);
    for (auto& x : d.durable) names.insert(x.first);
    for (auto& n : names) alts.push_back({n, afterPowerLoss(d, n, n == logName)});
    // all combinations; the files with pending changes are few
    std::vector<size_t> idx(alts.size(), 0);
    while (true) {
      fs::Tree t;
      for (size_t i = 0; i < alts.size(); ++i) {
        auto& a = alts[i].second;
        if (a.empty()) continue;
        if (a[idx[i]].second) t[alts[i].first] = a[idx[i]].first;
      }
      put(t);
      size_t i = 0;
      while (i < idx.size() && ++idx[i] >= std::max<size_t>(1, alts[i].second.size())) idx[i++] = 0;
      if (i == idx.size() || out.size() > maxStates) break;
    }
  }
  return out;
}
}  // namespace crash
