// C06: the transfer log parser recovers a correct prefix of any damaged log.
// Reference: an independent interpreter of the log bytes (entry framing and
// meaning); the field decoders themselves are covered by C08 and C09.
#include <wdt/util/TransferLogManager.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <set>
#include <sstream>
#include <thread>
#include "e2ecases.h"
#include "fsfault.h"
#include "logref.h"
#include "wire.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;

static const string kId = "rec", kIp = "::1";
static const int64_t kConfig = 6;

// ---- what is on the disk: files f1, f2 with the given size (-1: absent)
struct Disk { int64_t f1, f2; };
static const std::vector<Disk> kDisks{{20, 10}, {10, 30}, {-1, 10}, {20, -1}};
static string diskDir(int k);
static int64_t diskSize(const Disk& d, const string& n) {
  if (n == "f1") return d.f1;
  if (n == "f2") return d.f2;
  struct stat st;  // a damaged name may be that of the directory
  return ::stat((diskDir(&d - kDisks.data()) + "/" + n).c_str(), &st) ? -1 : st.st_size;
}
/// a directory of this process with those files
static string diskDir(int k) {
  static std::map<int, string> dirs;
  static pid_t pid = -1;
  if (pid != getpid()) dirs.clear(), pid = getpid();
  auto& s = dirs[k];
  if (s.empty()) {
    s = shared() + "/p" + std::to_string(getpid()) + "-" + std::to_string(k);
    fs::removeAll(s);
    fs::mkdirs(s);
    if (kDisks[k].f1 >= 0) fs::writeFile(s + "/f1", string(kDisks[k].f1, 'x'));
    if (kDisks[k].f2 >= 0) fs::writeFile(s + "/f2", string(kDisks[k].f2, 'x'));
  }
  return s;
}
static void put(const string& path, const string& data) {
  int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0 || ::write(fd, data.data(), data.size()) != (ssize_t)data.size()) fail("harness", "cannot write %s", path.c_str());
  ::close(fd);
}
static string get(const string& path) {
  int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0) return "<none>";
  char b[65536];
  ssize_t n = ::read(fd, b, sizeof b);
  ::close(fd);
  return string(b, n < 0 ? 0 : n);
}

// ---- reference
using namespace logref;
static State reference(const Parsed& p, const Disk& disk, Mode mode) {
  return logref::reference(p, [&](const string& n) { return diskSize(disk, n); }, mode, kId, kConfig);
}

static State observed(ErrorCode code, const std::vector<FileChunksInfo>& v, const string& what) {
  State s;
  s.status = code;
  if (code != OK) {
    VMC_CHECK(v.empty(), "used", "%s: %zu files are taken from a log judged %s", what.c_str(), v.size(), errorCodeToStr(code).c_str());
    return s;
  }
  for (auto& f : v) {
    VMC_CHECK(!s.live.count(f.getSeqId()), "twice", "%s: sequence id %ld reported twice", what.c_str(), (long)f.getSeqId());
    auto& x = s.live[f.getSeqId()];
    x.name = f.getFileName();
    x.disk = f.getFileSize();
    int64_t prev = -1;
    for (auto& c : f.getChunks()) {
      VMC_CHECK(c.start_ <= c.end_ && c.start_ >= 0 && c.end_ <= x.disk, "range", "%s: chunk [%ld,%ld) of %s with %ld bytes", what.c_str(), (long)c.start_, (long)c.end_, x.name.c_str(), (long)x.disk);
      VMC_CHECK(c.start_ > prev, "order", "%s: chunks out of order or overlapping", what.c_str());
      prev = c.end_;
      x.bytes.add(c.start_, c.end_);
    }
  }
  return s;
}

static WdtOptions& options(Mode m) {
  static WdtOptions o[NMODES];
  static bool once = [] {
    for (int i = 0; i < NMODES; ++i) {
      e2e::defaults(o[i]);
      o[i].enable_download_resumption = true;
      o[i].overwrite = true;
      o[i].transfer_log_write_interval_ms = 100;
      o[i].disable_preallocation = i == NOALLOC || i == DIRTREE;
      o[i].resume_using_dir_tree = i == DIRTREE;
    }
    e2e::init();
    return true;
  }();
  (void)once;
  return o[m];
}
static string listing(const std::vector<Ent>& v, size_t from = 0) {
  string s;
  for (size_t i = from; i < v.size(); ++i) s += v[i].show();
  return s;
}

/// parses the bytes; what remains in the log must be the good prefix plus the
/// entries that record what was found
static State parse(const string& bytes, int dk, Mode mode, const string& what, TransferLogManager* keep = nullptr) {
  string dir = diskDir(dk), log = dir + "/" + kWdtLogName;
  if (!keep) put(log, bytes);
  Parsed p = split(bytes);
  State want = p.badFrame ? State() : reference(p, kDisks[dk], mode);
  if (p.badFrame) {
    want = reference(p, kDisks[dk], mode);
    want.status = INVALID_LOG;
  }
  std::vector<FileChunksInfo> v;
  TransferLogManager local(options(mode), dir);
  TransferLogManager& m = keep ? *keep : local;
  VMC_CHECK(m.openLog() == OK, "open", "%s: log cannot be opened", what.c_str());
  ErrorCode code = m.parseAndMatch(kId, kConfig, v);
  VMC_CHECK(m.getResumptionStatus() == code, "status", "%s: status differs from the result", what.c_str());
  State got = observed(code, v, what);
  VMC_CHECK(got.show() == want.show(), "state", "%s: parsed as %s instead of %s", what.c_str(), got.show().c_str(), want.show().c_str());
  string after = get(log);
  if (want.status == INVALID_LOG) {
    VMC_CHECK(after == bytes || (!p.badFrame && after == bytes.substr(0, p.whole)), "touched", "%s: an invalid log was modified", what.c_str());
  } else {
    VMC_CHECK(after.compare(0, p.whole, bytes, 0, p.whole) == 0, "prefix", "%s: the good part of the log was changed", what.c_str());
    Parsed q = split(after.substr(std::min(after.size(), p.whole)));
    string add;
    if (want.status == OK)
      for (auto s : want.missing) { Ent e; e.type = 3; e.ok = true; e.seq = s; add += e.show(); }
    else { Ent e; e.type = 5; e.ok = true; add += e.show(); }
    VMC_CHECK(q.whole + p.whole == after.size() && listing(q.ents) == add, "tail", "%s: after the good part the log has %s instead of %s", what.c_str(), listing(q.ents).c_str(), add.c_str());
  }
  if (!keep) m.closeLog();
  return want;
}
static void printOnly(const string& bytes, int dk, Mode mode, ErrorCode status, const string& what) {
  string dir = diskDir(dk), log = dir + "/" + kWdtLogName;
  put(log, bytes);
  TransferLogManager m(options(mode), dir);
  VMC_CHECK(m.openLog() == OK, "open", "%s: log cannot be opened", what.c_str());
  std::ostringstream sink;
  auto* old = std::cout.rdbuf(sink.rdbuf());
  bool ok = m.parseAndPrint();
  std::cout.rdbuf(old);
  VMC_CHECK(ok || status != OK, "print", "%s: a valid log is not printed", what.c_str());
  m.closeLog();
  VMC_CHECK(get(log) == bytes, "print", "%s: printing modified the log", what.c_str());
}

// ---- alphabet
struct Sym { const char* name; string bytes; };
static const std::vector<Sym>& alphabet() {
  using namespace wire;
  static const std::vector<Sym> a{
      {"H", logHeader(7, kId, kIp, kConfig)},
      {"Hid", logHeader(7, "oth", kIp, kConfig)},
      {"Hcfg", logHeader(7, kId, kIp, 5)},
      {"D", logDirInval(7)},
      {"C1f1/10", logFile(7, "f1", 1, 10)},
      {"C2f1/20", logFile(7, "f1", 2, 20)},
      {"C1f2/10", logFile(7, "f2", 1, 10)},
      {"B1[0,5)", logBlock(7, 1, 0, 5)},
      {"B1[4,10)", logBlock(7, 1, 4, 6)},
      {"B1[10,20)", logBlock(7, 1, 10, 10)},
      {"B2[7,9)", logBlock(7, 2, 7, 2)},
      {"B1[5,5)", logBlock(7, 1, 5, 0)},
      {"R1/20", logResize(7, 1, 20)},
      {"R1/5", logResize(7, 1, 5)},
      {"I1", logInval(7, 1)},
      {"I2", logInval(7, 2)},
      // rare ones
      {"Hip", logHeader(7, kId, "", kConfig)},
      {"Hver", logHeader(7, kId, kIp, kConfig, 3)},
      {"B1[-5,0)", logBlock(7, 1, (uint64_t)-5, 5)},
      {"B1[5,-2)", logBlock(7, 1, 5, (uint64_t)-7)},
      {"B1[max", logBlock(7, 1, INT64_MAX - 2, 10)},
      {"B1[2+max", logBlock(7, 1, 2, INT64_MAX)},
      {"B1[50,50)", logBlock(7, 1, 50, 0)},
      {"Cneg", logFile(7, "f1", 3, (uint64_t)-1)},
      {"T6", entry(6, 7, "")},
      {"T-1", entry(-1, 7, "")},
      {"Z", fix(0, 2)},
      {"Neg", fix(0x8000, 2) + "abc"},
      {"Long", fix(TransferLogManager::kMaxEntryLength + 1, 2) + string(5000, 'q')},
      {"Short", fix(1, 2) + string(1, (char)1)},
      {"Extra", entry(2, 7, var(1) + var(0) + var(5) + "x")},
  };
  return a;
}
static const int kCommon = 16;

static void sequences(int maxLen, int alpha, bool headerFirst, int cuts) {
  options(PREALLOC);
  Mode mode = (Mode)choose(NMODES, INPUT, "mode");
  int dk = choose(mode == DIRTREE ? 1 : (int)kDisks.size(), INPUT, "disk");
  int len = choose(maxLen + 1, INPUT, "length");
  string bytes, what = string(mode == PREALLOC ? "" : mode == NOALLOC ? "noalloc " : "dirtree ") + "disk" + std::to_string(dk) + " ", last;
  if (headerFirst) bytes = alphabet()[0].bytes, what += "H ";
  for (int i = 0; i < len; ++i) {
    int k = choose(alpha, INPUT, "entry");
    last = alphabet()[k].bytes;
    what += string(alphabet()[k].name) + " ";
    if (i + 1 < len) bytes += last;
  }
  State full = parse(bytes + last, dk, mode, what);
  if (cuts > 1) printOnly(bytes + last, dk, mode, full.status, what);
  for (size_t c = 1; c < last.size(); c = last.size() > 200 ? c + (c < 5 ? 1 : 331) : cuts > 1 || c < 4 ? c + 1 : c == last.size() - 1 ? c + 1 : last.size() - 1)
    parse(bytes + last.substr(0, c), dk, mode, what + "cut at " + std::to_string(c));
  outcome(full.show());
}
/// every single-byte change and every cut of typical logs
static void damage() {
  options(PREALLOC);
  using namespace wire;
  static const std::vector<string> logs{
      logHeader(7, kId, kIp, kConfig) + logFile(7, "f1", 1, 10) + logBlock(7, 1, 0, 10) + logResize(7, 1, 20) + logBlock(7, 1, 12, 5) + logFile(7, "f2", 130, 10) + logBlock(7, 130, 2, 7) + logInval(7, 1),
      logHeader(7, kId, kIp, kConfig) + logDirInval(1ull << 50) + logHeader(7, kId, "1.2.3.4", kConfig) + logFile(7, "f3", 5, 300) + logBlock(7, 5, 0, 10) + logFile(7, "f1", 6, 9),
      logHeader(7, "oth", kIp, kConfig) + logFile(7, "f1", 1, 10) + logBlock(7, 1, 0, 10) + logHeader(7, kId, kIp, kConfig) + logFile(7, "f1", 1, 10) + logBlock(7, 1, 3, 6),
  };
  const string& s = logs[choose((int)logs.size(), INPUT, "log")];
  Mode mode = (Mode)choose(2, INPUT, "mode");
  size_t at = choose((int)s.size(), INPUT, "position");
  string what = "damage at " + std::to_string(at) + " ";
  parse(s.substr(0, at), 0, mode, what + "cut");
  for (int b = 0; b < 256; ++b) {
    string t = s;
    t[at] = (char)b;
    parse(t, 0, mode, what + "byte " + std::to_string(b));
    if (b % 16 == 1) printOnly(t, 0, mode, INVALID_LOG, what + "byte " + std::to_string(b));
  }
  for (const string& g : {string("\0\0\0\0\0\0\0\0", 8), string("\xff\xff\xff\xff", 4), string("\x05\0\x01", 3), string(6000, '\0')}) {
    parse(s.substr(0, at) + g, 0, mode, what + "garbage");
    string t = s;
    t.replace(at, std::min(g.size(), s.size() - at), g, 0, std::min(g.size(), s.size() - at));
    parse(t, 0, mode, what + "overwritten");
  }
}

/// a log is recovered and the next transfer appends to it the way the receiver
/// does; the result is what was there plus what was added
static bool g_faulty;
static void installFaults(const string& dir) {
  g_faulty = false;
  fsfault::Opt o;
  o.filter = [](const fs::Op& op) { return g_faulty && op.path.find(kWdtLogName) != string::npos && op.kind != fs::CLOSE && op.kind != fs::OPEN && op.kind != fs::STAT; };
  fsfault::install(dir, o);
}
struct Add { int kind; int64_t seq, a, b; };
static void append(int maxLen, bool faults) {
  options(PREALLOC);
  fib::opt = fib::Options();
  Mode mode = faults ? PREALLOC : (Mode)choose(2, INPUT, "mode");
  int dk = choose(faults ? 1 : 3, INPUT, "disk");
  int len = choose(maxLen + 1, INPUT, "length");
  string bytes, last, what = "disk" + std::to_string(dk) + " ";
  for (int i = 0; i < len; ++i) {
    int k = choose(kCommon, INPUT, "entry");
    last = alphabet()[k].bytes;
    bytes += last;
    what += string(alphabet()[k].name) + " ";
  }
  int cut = len ? choose(3, INPUT, "cut") : 0;
  if (cut) bytes.resize(bytes.size() - (cut == 1 ? 1 : last.size() - 1));
  bool sameIp = !flip(INPUT, "other sender"), resuming = !flip(INPUT, "sender not resuming");
  static const std::vector<std::vector<Add>> kAdds{
      {}, {{1, 8, 10, 0}, {2, 8, 0, 5}, {2, 8, 5, 5}}, {{2, 1, 0, 3}}, {{3, 1, 0, 0}, {1, 9, 10, 0}, {2, 9, 2, 2}}, {{4, 1, 20, 0}, {2, 1, 10, 5}}};
  int ai = choose((int)kAdds.size(), INPUT, "additions");
  int pause = choose(2, INPUT, "pause");
  auto& add = kAdds[ai];
  what += "cut" + std::to_string(cut) + (sameIp ? "" : " other-ip") + (resuming ? "" : " not-resuming") + " additions" + std::to_string(ai);
  string dir = diskDir(dk), log = dir + "/" + kWdtLogName;
  put(log, bytes);
  bool hard = false;
  fib::run([&] {
    std::vector<Ent> expect;
    auto exp = [&](int type, int64_t seq, int64_t a, int64_t b, string name = "", string ip = "", int64_t config = 0) {
      Ent e;
      e.type = type; e.ok = true; e.seq = seq; e.a = a; e.b = b; e.name = name; e.ip = ip; e.config = config;
      expect.push_back(e);
    };
    string mid;
    State st;
    {
      if (faults) installFaults(dir);
      auto m = std::make_unique<TransferLogManager>(options(mode), dir);
      st = parse(bytes, dk, mode, what, m.get());
      mid = get(log);
      g_faulty = faults;
      m->startThread();
      string ip = sameIp ? kIp : "9.9.9.9";
      bool verified = m->verifySenderIp(ip);
      bool inval = false;
      if (st.status != INVALID_LOG) {
        if (!st.ip.empty() && st.ip != ip) exp(5, 0, 0, 0), inval = true;
        if (!faults) VMC_CHECK(verified == !inval, "ip", "%s: sender address check says %d", what.c_str(), verified);
      }
      if (!resuming) {
        m->invalidateDirectory();
        if (st.status != INVALID_LOG) exp(5, 0, 0, 0);
      }
      m->writeLogHeader();
      if (st.status != INVALID_LOG) exp(0, 0, 0, 0, kId, ip, kConfig);
      if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(150));
      for (auto& x : add) {
        if (x.kind == 1) m->addFileCreationEntry("f2", x.seq, x.a);
        if (x.kind == 2) m->addBlockWriteEntry(x.seq, x.a, x.b);
        if (x.kind == 3) m->addFileInvalidationEntry(x.seq);
        if (x.kind == 4) m->addFileResizeEntry(x.seq, x.a);
        if (st.status == INVALID_LOG) continue;
        if (x.kind == 1) exp(1, x.seq, x.a, 0, "f2");
        if (x.kind == 2) exp(2, x.seq, x.a, x.b);
        if (x.kind == 3) exp(3, x.seq, 0, 0);
        if (x.kind == 4) exp(4, x.seq, x.a, 0);
        if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(60));
      }
      m->closeLog();
      hard = faults && !fsfault::injected().empty();
      if (faults) fsfault::remove();
    }
    string after = get(log);
    VMC_CHECK(after.compare(0, mid.size(), mid) == 0 && after.size() >= mid.size(), "changed", "%s: appending changed what was there", what.c_str());
    Parsed q = split(after.substr(mid.size()));
    VMC_CHECK(hard || q.whole + mid.size() == after.size() || st.status == INVALID_LOG, "partial", "%s: a partial entry was left", what.c_str());
    string got = listing(q.ents), want = listing(expect);
    if (st.status == INVALID_LOG) VMC_CHECK(after == mid, "invalid", "%s: entries were added to an invalid log", what.c_str());
    else if (!hard) VMC_CHECK(got == want, "entries", "%s: %s was added instead of %s", what.c_str(), got.c_str(), want.c_str());
    else VMC_CHECK(want.compare(0, got.size(), got) == 0, "entries", "%s: after write errors the log has %s, which is no prefix of %s", what.c_str(), got.c_str(), want.c_str());
    State again = parse(after, dk, mode, what + " (again)");
    outcome(st.show() + " -> " + again.show());
  });
}
/// several threads add entries while the log is being written
static void writers() {
  options(PREALLOC);
  fib::opt = fib::Options();
  int nt = 2 + choose(2, INPUT, "threads");
  fib::opt.delays = {120 * fib::MS};
  fib::opt.delayOnlyIo = false;
  string dir = diskDir(0), log = dir + "/" + kWdtLogName;
  put(log, "");
  fib::run([&] {
    auto m = std::make_unique<TransferLogManager>(options(PREALLOC), dir);
    parse("", 0, PREALLOC, "empty", m.get());
    m->startThread();
    m->verifySenderIp(kIp);
    m->writeLogHeader();
    std::vector<std::thread> ts;
    for (int i = 0; i < nt; ++i)
      ts.emplace_back([&, i] {
        m->addFileCreationEntry("f1", i + 1, 10);
        m->addBlockWriteEntry(i + 1, 0, 4);
        if (i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
        m->addBlockWriteEntry(i + 1, 4, 2);
      });
    for (auto& t : ts) t.join();
    m->closeLog();
    Parsed q = split(get(log));
    std::map<int64_t, string> per;
    for (size_t i = 1; i < q.ents.size(); ++i) per[q.ents[i].seq] += std::to_string(q.ents[i].type) + "." + std::to_string(q.ents[i].a) + " ";
    VMC_CHECK((int)per.size() == nt && (int)q.ents.size() == 1 + 3 * nt && q.whole == get(log).size(), "lost", "%zu entries of %zu files were written", q.ents.size(), per.size());
    for (auto& x : per) VMC_CHECK(x.second == "1.10 2.0 2.4 ", "order", "entries of %ld: %s", (long)x.first, x.second.c_str());
    m.reset();
    parse(get(log), 0, PREALLOC, "written by threads");
    outcome(listing(q.ents));
  });
}
/// compaction keeps the state
static void compact(bool faults) {
  options(PREALLOC);
  fib::opt = fib::Options();
  int dk = choose(faults ? 1 : 3, INPUT, "disk");
  Mode mode = faults ? PREALLOC : (Mode)choose(2, INPUT, "mode");
  int len = choose(faults ? 1 : 5, INPUT, "length");
  string bytes = alphabet()[0].bytes, what = "compact disk" + std::to_string(dk) + " H ";
  if (faults) bytes += wire::logFile(7, "f1", 1, 20) + wire::logBlock(7, 1, 0, 20);
  for (int i = 0; i < len; ++i) {
    int k = choose(kCommon, INPUT, "entry");
    bytes += alphabet()[k].bytes;
    what += string(alphabet()[k].name) + " ";
  }
  bool full = flip(INPUT, "another");
  string dir = diskDir(dk), log = dir + "/" + kWdtLogName;
  put(log, bytes);
  State ref = reference(split(bytes), kDisks[dk], mode);
  if (ref.status != OK) prune("not a valid log");
  fib::run([&] {
    State before, after;
    {
      if (faults) installFaults(dir);
      auto m = std::make_unique<TransferLogManager>(options(mode), dir);
      parse(bytes, dk, mode, what, m.get());
      m->startThread();
      m->verifySenderIp(kIp);
      m->writeLogHeader();
      if (full && diskSize(kDisks[dk], "f2") == 10) {
        m->addFileCreationEntry("f2", 8, 10);
        m->addBlockWriteEntry(8, 5, 5);
        m->addBlockWriteEntry(8, 0, 5);
        ref.live[8] = {"f2", 10, 10, {}};
        ref.live[8].bytes.add(0, 10);
      }
      g_faulty = faults;
      m->compactLog();
      m->closeLog();
      if (faults) fsfault::remove();
    }
    string now = get(log);
    if (!faults || fsfault::injected().empty()) {
      State s = parse(now, dk, mode, what + "(compacted)");
      VMC_CHECK(s.show() == ref.show(), "compact", "%s: after compaction %s instead of %s", what.c_str(), s.show().c_str(), ref.show().c_str());
      outcome(s.show());
    } else {
      // a failed compaction may lose what was stored, never invent anything
      Parsed p = split(now);
      State s = reference(p, kDisks[dk], mode);
      VMC_CHECK(!p.badFrame && s.status != INVALID_LOG, "compact", "%s: a failed compaction leaves a broken log", what.c_str());
      for (auto& x : s.live) {
        VMC_CHECK(ref.live.count(x.first) && ref.live[x.first].name == x.second.name, "compact", "%s: invented file", what.c_str());
        VMC_CHECK(x.second.bytes.within(ref.live[x.first].bytes), "compact", "%s: invented bytes%s", what.c_str(), x.second.bytes.show().c_str());
      }
      parse(now, dk, mode, what + "(failed compaction)");
      outcome("f" + s.show());
    }
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C06";
  c.rule = "Every sequence of log entries over the alphabet up to the stated length, for every disk state and mode, complete and cut at every byte of the last entry; every single-byte change and cut of typical logs; every recovered log continued by a following transfer. Oracle: an independent interpreter of the log. The log must afterwards be the good prefix plus the recorded findings, an invalid log untouched.";
  c.assumptions = {"The field decoders are taken from the code (C08, C09 cover them).", "Files of at most 30 bytes, two names, three sequence ids."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1, bool forked = false, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    s.forked = forked;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  int all = alphabet().size();
  add("any", [=] { sequences(2, all, false, 2); }, {Bounds(0)}, {Bounds(0)});
  add("after-header", [=] { sequences(2, all, true, 2); }, {Bounds(0)}, {Bounds(0)});
  add("longer", [=] { sequences(3, kCommon, true, 1); }, {Bounds(0)}, {Bounds(0)}, 2);
  add("deep", [=] { sequences(4, kCommon, true, 1); }, {Bounds(0)}, {Bounds(0)}, 3, false, true);
  add("damage", damage, {Bounds(0)}, {Bounds(0)}, 2);
  add("append", [] { append(2, false); }, {Bounds(0)}, {Bounds(1)}, 2);
  add("append-deep", [] { append(3, false); }, {Bounds(0)}, {Bounds(0)}, 3, false, true);
  add("append-faults", [] { append(1, true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(2)}, 1, true);
  add("writers", writers, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3), Bounds(4)});
  add("compact", [] { compact(false); }, {Bounds(0)}, {Bounds(0)});
  add("compact-faults", [] { compact(true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(2)}, 1, true);
  return runCheck(c, argc, argv);
}
