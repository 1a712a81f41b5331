// File-system fault alternatives: each operation below the root may, as a
// deviation of class FS, be cut short, interrupted or fail.
#pragma once
#include <errno.h>
#include <set>
#include "fib.h"

namespace fsfault {
struct Opt {
  std::vector<fs::Kind> kinds;   // operations that may fail (empty: all)
  bool shortIo = true;           // short reads and writes
  bool failures = true;
  std::function<bool(const fs::Op&)> filter;
  std::function<void(const fs::Op&, const fs::Act&)> seen;  // after the decision
};
struct Injected { fs::Kind kind; std::string path; int err; int64_t limit; };
inline std::vector<Injected>& injected() { static std::vector<Injected> v; return v; }
/// number of injected faults that are not mere splits or interruptions
inline int hard() { int n = 0; for (auto& i : injected()) n += i.err && i.err != EINTR; return n; }
inline std::vector<fs::Act> alternatives(fs::Kind k, int64_t size, const Opt& o) {
  std::vector<fs::Act> a{fs::Act()};
  auto err = [&](int e) { fs::Act x; x.err = e; a.push_back(x); };
  auto lim = [&](int64_t n) { if (n >= 0 && n < size) { fs::Act x; x.limit = n; a.push_back(x); } };
  switch (k) {
    case fs::WRITE: case fs::PWRITE:
      if (o.shortIo) { lim(1); if (size > 3) lim(size / 2); if (size > 2) lim(size - 1); err(EINTR); }
      if (o.failures) { err(ENOSPC); err(EIO); }
      break;
    case fs::READ: case fs::PREAD:
      if (o.shortIo) { lim(1); if (size > 3) lim(size / 2); if (size > 2) lim(size - 1); }
      if (o.failures) { err(EIO); err(EINTR); lim(0); }
      break;
    case fs::OPEN: if (o.failures) { err(EMFILE); err(EACCES); } break;
    case fs::MKDIR: if (o.failures) err(ENOSPC); break;
    case fs::FSYNC: case fs::FTRUNC: case fs::LSEEK: case fs::SYNCRANGE: case fs::STAT: case fs::UNLINK: case fs::CLOSE: case fs::OPENDIR: case fs::RENAME:
      if (o.failures) err(EIO);
      break;
    case fs::FALLOC: if (o.failures) err(ENOSPC); break;
    default: break;
  }
  return a;
}
inline void install(const std::string& root, Opt o = Opt()) {
  injected().clear();
  fs::opt.root = root;
  fs::opt.hook = [o](const fs::Op& op) -> fs::Act {
    fs::Act r;
    bool in = o.kinds.empty();
    for (auto k : o.kinds) in |= k == op.kind;
    if (in && (!o.filter || o.filter(op))) {
      auto a = alternatives(op.kind, op.size, o);
      if (a.size() > 1) {
        r = a[vmc::choose((int)a.size(), vmc::FS, fs::kindName(op.kind))];
        if (r.err || r.limit >= 0) injected().push_back({op.kind, op.path, r.err, r.limit});
      }
    }
    if (o.seen) o.seen(op, r);
    return r;
  };
}
inline void remove() { fs::opt.hook = nullptr; fs::opt.root.clear(); }
}  // namespace fsfault
