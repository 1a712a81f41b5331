// The transfer configurations shared by the end-to-end checks.
#pragma once
#include "e2e.h"
#include <memory>

namespace e2e {
using namespace vmc;

enum FaultSet { NOFAULT, BREAK, SPLIT, ALLF, RECOV, PORTDEAD, PORTBREAK, CUTS, CUTDEAD };
struct Case {
  std::string name;
  Cfg cfg;
  FaultSet faults = ALLF;
  std::vector<Bounds> quick, deep;
  double budget = 1;
  bool thoroughOnly = false;
  std::vector<int64_t> delays;   // TIME alternatives
  bool sched = true;
  std::function<fs::Act(const fs::Op&)> fsHook;
  std::vector<int> maxRead{0}, maxWrite{0}, cap{0};  // INPUT alternatives (0: default)
};
using Judge = std::function<void(Xfer&, const Case&)>;

inline void setFaults(FaultSet f) {
  using namespace net;
  net::opt = net::Options();
  if (f == BREAK || f == ALLF) {
    net::opt.onRead = {RESET, STALL};
    net::opt.onWrite = {RESET, STALL};
    net::opt.onConnect = {REFUSE, TIMEOUT, INPROGRESS};
    net::opt.onAccept = {RESET};
  }
  if (f == PORTDEAD) net::opt.onRead = net::opt.onWrite = net::opt.onConnect = {KILLPORT};
  if (f == PORTBREAK) {
    net::opt.onRead = net::opt.onWrite = {RESET, STALL, KILLPORT};
    net::opt.onConnect = {REFUSE, KILLPORT};
  }
  if (f == CUTS) {   // what was sent before still arrives
    net::opt.onRead = {CLOSE};
    net::opt.onWrite = {CLOSE, CLOSEHALF};
  }
  if (f == CUTDEAD) {
    net::opt.onRead = {CLOSE, KILLPORT};
    net::opt.onWrite = {CLOSE, CLOSEHALF, KILLPORT};
    net::opt.onConnect = {KILLPORT};
  }
  if (f == RECOV) {
    net::opt.onRead = net::opt.onWrite = {RESET, STALL};
    net::opt.onConnect = {REFUSE, TIMEOUT, INPROGRESS};
  }
  if (f == SPLIT || f == ALLF || f == RECOV) {
    for (auto m : {&net::opt.onRead, &net::opt.onWrite})
      for (auto a : {SHORT1, SHORT256, HALF, EINTR_}) m->push_back(a);
  }
  net::opt.stall = 3 * fib::SEC;
}

inline void runCase(const Case& k, const Judge& judge, const std::function<void(Xfer&)>& prep = nullptr) {
  init();
  if (k.cfg.src[0] != '/') makeSource(k.cfg);
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.delays = k.delays;
  fib::opt.schedPoints = k.sched;
  setFaults(k.faults);
  if (k.fsHook) {
    fs::opt.root = shared().substr(0, shared().rfind('/'));
    fs::opt.hook = k.fsHook;
  }
  int mr = k.maxRead.size() > 1 ? pick(k.maxRead, "max-read") : k.maxRead[0];
  int mw = k.maxWrite.size() > 1 ? pick(k.maxWrite, "max-write") : k.maxWrite[0];
  int cp = k.cap.size() > 1 ? pick(k.cap, "capacity") : k.cap[0];
  if (mr) net::opt.maxRead = mr;
  if (mw) net::opt.maxWrite = mw;
  if (cp) net::opt.cap = cp;
  fib::run([&] {
    Xfer x(k.cfg);
    if (prep) prep(x);
    x.run();
    judge(x, k);
    x.destroy();
    count("connections", net::stats.conns);
    count("network_faults", net::stats.faults);
  });
}

/// registers the cases; the source trees are created once
inline void addCases(Check& c, std::vector<Case> cases, Judge judge, std::function<void(Xfer&)> prep = nullptr) {
  auto v = std::make_shared<std::vector<Case>>(std::move(cases));
  auto prev = c.setup;
  c.setup = [v, prev] {
    if (prev) prev();
    for (auto& k : *v)
      if (k.cfg.src[0] != '/') {
        shareSource(k.cfg, "src-" + k.name);
        for (auto& f : k.cfg.files) content(k.cfg, f);
      }
  };
  for (size_t i = 0; i < v->size(); ++i) {
    Scenario s;
    Case& k = (*v)[i];
    s.name = k.name;
    s.body = [v, i, judge, prep] { runCase((*v)[i], judge, prep); };
    s.forked = true;
    s.quick = k.quick;
    s.deep = k.deep;
    s.budget = k.budget;
    s.thoroughOnly = k.thoroughOnly;
    c.scenarios.push_back(s);
  }
}

inline std::string LONG(char ch, int n) { return std::string(n, ch); }
/// configuration library
inline Cfg cfg1() { return Cfg(); }
inline Cfg cfg1s() { Cfg c; c.files = {{"a", 5000}, {"d/b", 0}}; return c; }
inline Cfg cfg2() { Cfg c; c.ports = 2; c.files = {{"a", 5000}, {"d/b", 0}, {"d/c", 300}}; return c; }
inline Cfg cfg3() { Cfg c; c.ports = 3; c.files = {{"a", 5000}, {"d/b", 0}, {"d/c", 300}, {"e", 9000}}; return c; }
inline Cfg cfgBlocks() {
  Cfg c;
  c.ports = 2;
  c.files = {{"big", (1 << 20) + 70000}, {"exact", 1 << 20}, {"z", 1}};
  c.both = [](WdtOptions& o) { o.buffer_size = 512 * 1024; };
  return c;
}
inline Cfg cfgLong() {
  Cfg c;
  c.files = {{LONG('x', 240) + "/" + LONG('y', 200) + "/z", 100}, {LONG('z', 240) + "/q", 7000}, {LONG('w', 254), 0}};
  return c;
}
inline Cfg cfgMany() {
  Cfg c;
  for (int i = 0; i < 12; ++i) c.files.push_back({"m" + std::to_string(i), 900 + i * 331});
  return c;
}
inline Cfg with(Cfg c, OptFn f) {
  auto old = c.both;
  c.both = [old, f](WdtOptions& o) { if (old) old(o); f(o); };
  return c;
}
inline OptFn checksum() { return [](WdtOptions& o) { o.enable_checksum = true; }; }
inline OptFn ctr() { return [](WdtOptions& o) { o.encryption_type = "aes128ctr"; }; }
inline OptFn gcm(int tag = 4 << 20) { return [tag](WdtOptions& o) { o.encryption_type = "aes128gcm"; o.encryption_tag_interval_bytes = tag; }; }
inline OptFn synced() { return [](WdtOptions& o) { o.fsync = true; o.disk_sync_interval_mb = 0.001; o.skip_fadvise = false; }; }
inline OptFn noAlloc() { return [](WdtOptions& o) { o.disable_preallocation = true; }; }
inline OptFn noBlocks() { return [](WdtOptions& o) { o.block_size_mbytes = -1; }; }
inline OptFn twoPhases() { return [](WdtOptions& o) { o.two_phases = true; }; }
inline OptFn progress() { return [](WdtOptions& o) { o.progress_report_interval_millis = 50; o.throughput_update_interval_millis = 100; o.enable_perf_stat_collection = true; }; }

/// error menus for the file system calls of a side
inline fs::Act fsFault(const fs::Op& o, std::initializer_list<int> errs, bool shorts, const char* tag) {
  int n = 1 + errs.size() + (shorts ? 1 : 0);
  int k = choose(n, FS, tag);
  fs::Act a;
  if (k == 0) return a;
  if (k <= (int)errs.size()) { a.err = *(errs.begin() + (k - 1)); count("fs_faults"); return a; }
  a.limit = o.size / 2;
  count("fs_faults");
  return a;
}
inline std::function<fs::Act(const fs::Op&)> dstFaults() {
  return [](const fs::Op& o) {
    if (o.path.find("/dst") == std::string::npos) return fs::Act();
    switch (o.kind) {
      case fs::OPEN: return fsFault(o, {EACCES, EMFILE}, false, "dst-open");
      case fs::WRITE: case fs::PWRITE: return fsFault(o, {ENOSPC, EIO}, o.size > 1, "dst-write");
      case fs::FSYNC: return fsFault(o, {EIO}, false, "dst-fsync");
      case fs::FALLOC: return fsFault(o, {ENOSPC, EOPNOTSUPP}, false, "dst-fallocate");
      case fs::FTRUNC: return fsFault(o, {EIO}, false, "dst-ftruncate");
      case fs::LSEEK: return fsFault(o, {EINVAL}, false, "dst-lseek");
      case fs::MKDIR: return fsFault(o, {EACCES}, false, "dst-mkdir");
      case fs::CLOSE: return fsFault(o, {EIO}, false, "dst-close");
      default: return fs::Act();
    }
  };
}
inline std::function<fs::Act(const fs::Op&)> srcFaults() {
  return [](const fs::Op& o) {
    if (o.path.find("/src") == std::string::npos) return fs::Act();
    switch (o.kind) {
      case fs::OPEN: return fsFault(o, {EACCES, ENOENT, EMFILE}, false, "src-open");
      case fs::READ: case fs::PREAD: return fsFault(o, {EIO, EINTR}, o.size > 1, "src-read");
      case fs::STAT: return fsFault(o, {EACCES}, false, "src-stat");
      case fs::OPENDIR: return fsFault(o, {EACCES}, false, "src-opendir");
      case fs::READDIR: return fsFault(o, {EIO}, false, "src-readdir");
      case fs::LSEEK: return fsFault(o, {EINVAL}, false, "src-lseek");
      default: return fs::Act();
    }
  };
}
inline std::vector<Bounds> upTo(int total, int net = UNLIM, int sched = UNLIM) {
  std::vector<Bounds> v;
  for (int i = 0; i <= total; ++i) v.push_back(Bounds(i).set(NET, net).set(SCHED, sched));
  return v;
}
/// configurations for connections that end with data under way
struct CutCase { std::string name; Cfg cfg; FaultSet faults; int quick, deep; double budget; };
inline Cfg cfgLongOne() {   // the header alone fills a read of the receiver
  Cfg c;
  c.files = {{LONG('z', 240) + "/" + LONG('q', 40), 40000}};
  return c;
}
inline Cfg oldProto(Cfg c, int v) { c.rProto = v; return c; }
inline std::vector<CutCase> cutCases() {
  return {
      {"cut-1", cfg1(), CUTS, 2, 3, 1}, {"cut-long", cfgLongOne(), CUTS, 2, 3, 0.5}, {"cut-2", cfg2(), CUTS, 2, 3, 1}, {"cut-3", cfg3(), CUTS, 1, 2, 0.5},
      {"cut-blocks", cfgBlocks(), CUTS, 1, 2, 1}, {"cut-many", cfgMany(), CUTS, 1, 2, 0.5}, {"cut-checksum", with(cfg2(), checksum()), CUTS, 2, 3, 1},
      {"cut-ctr", with(cfg1(), ctr()), CUTS, 2, 3, 1}, {"cut-gcm", with(cfg2(), gcm()), CUTS, 1, 2, 0.5}, {"cut-gcm-tag", with(cfg1(), gcm(4096)), CUTS, 2, 3, 1},
      {"cut-dead-2", cfg2(), CUTDEAD, 2, 3, 1.5}, {"cut-dead-long", [] { Cfg c = cfgLongOne(); c.ports = 2; return c; }(), CUTDEAD, 2, 3, 1},
      {"cut-dead-3", cfg3(), CUTDEAD, 1, 2, 0.5}, {"cut-dead-blocks", cfgBlocks(), CUTDEAD, 1, 2, 1},
  };
}
}  // namespace e2e
