// C15: the file writer
#include <wdt/util/FileCreator.h>
#include <wdt/util/FileWriter.h>
#include <wdt/util/TransferLogManager.h>
#include "fib.h"
#include "fsfault.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

struct Case { int64_t fileSize, off, size; };
struct Rec { fs::Kind kind; int64_t size, off; bool ok; };

static void run(const Case& c, const std::vector<int>& splits, FileAllocationStatus st, const string& name, bool fsync, bool resume, double interval, bool prealloc, bool faults) {
  FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
  string root = scratch() + "/dst";
  fs::mkdirs(root);
  WdtOptions o;
  o.skip_fadvise = true;
  o.fsync = fsync;
  o.disk_sync_interval_mb = interval;
  o.disable_preallocation = !prealloc;
  o.enable_download_resumption = resume;
  o.overwrite = false;
  fs::Tree before{{"other", "unrelated"}};
  if (st == EXISTS_CORRECT_SIZE) before[name] = string(c.fileSize, 'O');
  if (st == EXISTS_TOO_SMALL) before[name] = string(c.fileSize / 2, 'O');
  if (st == EXISTS_TOO_LARGE) before[name] = string(c.fileSize + 4, 'O');
  fs::materialize(root, before);
  TransferLogManager lm(o, root);
  FileCreator fc(root, 1, lm, false);
  string data = fs::pattern(c.size, 5);
  BlockDetails d;
  d.fileName = name;
  d.seqId = 3;
  d.fileSize = c.fileSize;
  d.offset = c.off;
  d.dataSize = c.size;
  d.allocationStatus = st;
  std::vector<Rec> ops;
  fsfault::Opt fo;
  fo.shortIo = fo.failures = faults;
  fo.seen = [&](const fs::Op& op, const fs::Act& a) {
    ops.push_back({op.kind, op.size, op.flags, a.err == 0});
    VMC_CHECK(op.path == root + "/" + name || op.kind == fs::MKDIR, "path", "%s on %s", fs::kindName(op.kind), op.path.c_str());
  };
  fsfault::install(root, fo);
  bool ok = true, opened = false;
  string calls;
  {
    ThreadCtx ctx(o, false, 0);
    FileWriter w(ctx, &d, &fc);
    ErrorCode e = w.open();
    calls += errorCodeToStr(e) + ",";
    ok = opened = e == OK;
    int64_t pos = 0;
    // as the receiver does: stop writing at the first error, then sync and close
    for (size_t i = 0; ok && i < splits.size(); ++i) {
      string piece = data.substr(pos, splits[i]);
      e = w.write(&piece[0], splits[i]);
      calls += errorCodeToStr(e) + ",";
      if (e != OK) ok = false;
      else pos += splits[i];
      VMC_CHECK(w.getTotalWritten() == pos, "total", "total written is %ld after %ld bytes", (long)w.getTotalWritten(), (long)pos);
    }
    if (opened) {
      if (ok) {
        e = w.sync();
        calls += errorCodeToStr(e) + ",";
        ok &= e == OK;
        e = w.close();
        calls += errorCodeToStr(e);
        ok &= e == OK;
      }
    }
  }
  auto inj = fsfault::injected();
  fsfault::remove();
  VMC_CHECK(fs::openFds().empty(), "leak", "descriptor left open (%s)", calls.c_str());
  auto tree = fs::snapshot(root);
  VMC_CHECK(tree["other"] == "unrelated" && tree.size() <= 2, "other", "another file was touched");
  string got = tree[name];
  if (st == EXISTS_CORRECT_SIZE) {
    VMC_CHECK((int64_t)got.size() == c.fileSize, "size", "size changed to %zu", got.size());
    for (int64_t i = 0; i < c.fileSize; ++i)
      if (i < c.off || i >= c.off + c.size) VMC_CHECK(got[i] == 'O', "outside", "byte %ld outside the block [%ld,%ld) changed", (long)i, (long)c.off, (long)(c.off + c.size));
  }
  if (ok) {
    if (c.size > 0) VMC_CHECK((int64_t)got.size() >= c.off + c.size && got.compare(c.off, c.size, data) == 0, "data", "success reported but the bytes are not in place (%s)", calls.c_str());
    if (prealloc) VMC_CHECK((int64_t)got.size() == c.fileSize, "alloc", "file has %zu bytes instead of %ld", got.size(), (long)c.fileSize);
    else VMC_CHECK((int64_t)got.size() <= c.fileSize, "alloc", "file has %zu bytes, more than %ld", got.size(), (long)c.fileSize);
    if (st == EXISTS_TOO_SMALL) VMC_CHECK(got.substr(0, std::min<int64_t>(c.off, c.fileSize / 2)) == string(std::min<int64_t>(c.off, c.fileSize / 2), 'O'), "prefix", "bytes before the block changed");
    bool sync = fsync || resume;
    int lastWrite = -1, lastSync = -1;
    std::vector<std::pair<int64_t, int64_t>> ranges;
    for (size_t i = 0; i < ops.size(); ++i) {
      if (ops[i].kind == fs::WRITE && ops[i].ok) lastWrite = i;
      if (ops[i].kind == fs::FSYNC && ops[i].ok) lastSync = i;
      if (ops[i].kind == fs::SYNCRANGE && ops[i].ok) ranges.push_back({ops[i].off, ops[i].off + ops[i].size});
    }
    if (sync) VMC_CHECK(lastSync > lastWrite, "fsync", "success reported without syncing after the last write");
    if (interval >= 0 && c.size > 0) {
      // periodic write-back covers the block, in order
      int64_t p = c.off;
      for (auto& r : ranges) { VMC_CHECK(r.first == p && r.second > r.first, "sync-range", "range [%ld,%ld) written back, expected to start at %ld", (long)r.first, (long)r.second, (long)p); p = r.second; }
      VMC_CHECK(p == c.off + c.size, "sync-range", "written back up to %ld instead of %ld", (long)p, (long)(c.off + c.size));
    } else VMC_CHECK(ranges.empty(), "sync-range", "written back although switched off");
    for (auto& i : inj)
      VMC_CHECK(!i.err || i.err == EINTR || i.kind == fs::OPEN || i.kind == fs::MKDIR, "swallowed", "%s failed with errno %d and success was reported", fs::kindName(i.kind), i.err);
  } else {
    VMC_CHECK(fsfault::hard() > 0, "spurious", "an error was reported (%s) although no operation failed", calls.c_str());
  }
  outcome(calls);
}

static const std::vector<Case> kCases{{0, 0, 0}, {1, 0, 1}, {9, 0, 9}, {9, 4, 3}, {9, 8, 1}, {9, 0, 4}, {9, 4, 5}, {9, 3, 0}};
static std::vector<std::vector<int>> splitsOf(int n) {
  if (n == 0) return {{}};
  std::vector<std::vector<int>> v{{n}};
  if (n > 1) v.push_back({1, n - 1}), v.push_back({n - 1, 1});
  if (n > 2) v.push_back({1, 1, n - 2});
  if (n > 4) v.push_back({2, n - 4, 2});
  return v;
}
static void cases(bool faults) {
  Case c = pick(kCases, "case");
  auto sp = splitsOf((int)c.size);
  auto splits = sp[choose((int)sp.size(), INPUT, "splits")];
  FileAllocationStatus st = pick(std::vector<FileAllocationStatus>{EXISTS_CORRECT_SIZE, NOT_EXISTS, EXISTS_TOO_SMALL, EXISTS_TOO_LARGE}, "status");
  string name = flip(INPUT, "nested") ? "p/q/f" : "f";
  int mode = choose(3, INPUT, "sync");
  double interval = pick(std::vector<double>{-1, 0, 0.000002, 0.000005, 10}, "interval");
  bool prealloc = !flip(INPUT, "no-prealloc");
  run(c, splits, st, name, mode == 1, mode == 2, interval, prealloc, faults);
}
static void skipWrites() {
  FLAGS_wdt_logging_enabled = false;
  string root = scratch() + "/dst";
  fs::mkdirs(root);
  WdtOptions o;
  o.skip_writes = true;
  o.disk_sync_interval_mb = pick(std::vector<double>{-1, 0}, "interval");
  TransferLogManager lm(o, root);
  FileCreator fc(root, 1, lm, true);
  BlockDetails d;
  d.fileName = "f";
  d.seqId = 3;
  d.fileSize = d.dataSize = 4;
  {
    ThreadCtx ctx(o, false, 0);
    FileWriter w(ctx, &d, &fc);
    char b[4] = {1, 2, 3, 4};
    VMC_CHECK(w.open() == OK && w.write(b, 4) == OK && w.getTotalWritten() == 4 && w.sync() == OK && w.close() == OK, "skip", "skipping writes failed");
  }
  VMC_CHECK(fs::snapshot(root, true).empty(), "skip", "something was written although writes are skipped");
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C15";
  c.rule = "One block of one file through the real writer and creator: every listed offset and size in the file, split into every listed pattern of calls, every allocation status, nested or not, each sync mode and write-back interval, with and without preallocation; then every placement of short writes, interruptions and failures of each system call within the bounds. Non-trivial: the file is compared byte for byte and the system calls are checked in order.";
  c.assumptions = {"System calls fail as injected and otherwise behave as the kernel's; posix_fadvise is switched off."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  add("plain", [] { fib::run([] { cases(false); }); }, {Bounds(0)}, {Bounds(0)});
  add("faults", [] { fib::run([] { cases(true); }); }, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 4);
  add("skip-writes", [] { fib::run(skipWrites); }, {Bounds(0)}, {Bounds(0)});
  return runCheck(c, argc, argv);
}
