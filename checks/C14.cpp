// C14: allocation of destination files shared by several writing threads
#include <wdt/util/FileCreator.h>
#include <wdt/util/FileWriter.h>
#include <wdt/util/TransferLogManager.h>
#include <folly/lang/Bits.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <thread>
#include "fib.h"
#include "fsfault.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

struct Blk { int file; int64_t off, size; };
struct FileSpec { string name; int64_t size; };
static const std::vector<FileSpec> kFiles{{"d/e/f", 12}, {"d/g", 4}, {"d/e/h", 0}, {"top", 6}};
static const std::vector<Blk> kBlocks{{0, 0, 5}, {0, 5, 5}, {0, 10, 2}, {1, 0, 4}, {2, 0, 0}, {3, 0, 3}, {3, 3, 3}};
static string want(int f) { return fs::pattern(kFiles[f].size, 77 + f); }

struct Setup {
  std::vector<std::vector<int>> plan;  // per thread: block numbers
  FileAllocationStatus st[4]{NOT_EXISTS, NOT_EXISTS, NOT_EXISTS, NOT_EXISTS};
  bool prealloc = true, resume = false, overwrite = false, existing = false;
  bool faults = false, sessions = false, staleDirs = false;
};
struct Res { bool open = false, ok = false, ran = false; };

static void options(const Setup& s, WdtOptions& o) {
  o.skip_fadvise = true;
  o.disk_sync_interval_mb = -1;
  o.disable_preallocation = !s.prealloc;
  o.enable_download_resumption = s.resume;
  o.overwrite = s.overwrite;
}
static int64_t diskSize(const string& p) { return fs::exists(p) ? (int64_t)fs::readFile(p).size() : -1; }
struct LogEntry { int type; int64_t seq, size; string name; };
static std::vector<LogEntry> parse(const string& raw) {
  std::vector<LogEntry> v;
  LogEncoderDecoder d;
  size_t p = 0;
  while (p + 2 <= raw.size()) {
    int16_t n = folly::loadUnaligned<int16_t>(raw.data() + p);
    p += 2;
    VMC_CHECK(n > 0 && p + n <= raw.size(), "log-torn", "transfer log is damaged");
    string e = raw.substr(p, n);
    p += n;
    LogEntry l{e[0], 0, 0, ""};
    int64_t ts;
    bool ok = true;
    if (e[0] == TransferLogManager::FILE_CREATION) ok = d.decodeFileCreationEntry(&e[1], n - 1, ts, l.name, l.seq, l.size);
    else if (e[0] == TransferLogManager::FILE_RESIZE) ok = d.decodeFileResizeEntry(&e[1], n - 1, ts, l.seq, l.size);
    else if (e[0] == TransferLogManager::FILE_INVALIDATION) ok = d.decodeFileInvalidationEntry(&e[1], n - 1, ts, l.seq);
    VMC_CHECK(ok, "log-entry", "undecodable log entry");
    v.push_back(l);
  }
  return v;
}

static void session(const Setup& s, const WdtOptions& o, FileCreator& fc, const string& root, int64_t seqBase, std::vector<Res>& res, unsigned salt) {
  res.assign(kBlocks.size(), Res());
  std::vector<std::thread> th;
  for (size_t t = 0; t < s.plan.size(); ++t)
    th.emplace_back([&, t] {
      ThreadCtx ctx(o, false, (int)t);
      for (int b : s.plan[t]) {
        const Blk& k = kBlocks[b];
        const FileSpec& f = kFiles[k.file];
        BlockDetails d;
        d.fileName = f.name;
        d.seqId = seqBase + k.file;
        d.prevSeqId = 100 + k.file;
        d.fileSize = f.size;
        d.offset = k.off;
        d.dataSize = k.size;
        d.allocationStatus = s.st[k.file];
        string data = fs::pattern(f.size, 77 + k.file + salt).substr(k.off, k.size);
        FileWriter w(ctx, &d, &fc);
        Res& r = res[b];
        r.ran = true;
        r.open = w.open() == OK;
        if (r.open) {
          int64_t sz = diskSize(root + "/" + f.name);
          VMC_CHECK(sz >= 0, "open-missing", "%s opened but it does not exist", f.name.c_str());
          if (s.prealloc) VMC_CHECK(sz == f.size, "open-size", "%s opened for a block while its size is %ld instead of %ld", f.name.c_str(), (long)sz, (long)f.size);
          else VMC_CHECK(sz <= f.size, "open-size", "%s opened for a block while its size is %ld, more than %ld", f.name.c_str(), (long)sz, (long)f.size);
          // two writes per block
          int64_t h = k.size / 2;
          bool ok = (h == 0 || w.write(&data[0], h) == OK);
          ok = ok && (k.size == h || w.write(&data[h], k.size - h) == OK);
          ok = (w.sync() == OK) && ok;
          ok = (w.close() == OK) && ok;
          r.ok = ok;
        }
      }
    });
  for (auto& t : th) t.join();
}

static void judge(const Setup& s, const string& root, const std::vector<Res>& res, const fs::Tree& before, unsigned salt) {
  auto tree = fs::snapshot(root);
  for (size_t f = 0; f < kFiles.size(); ++f) {
    bool any = false, allOk = true;
    int opened = 0, total = 0;
    int64_t bytes = 0;
    for (size_t b = 0; b < kBlocks.size(); ++b) {
      if (kBlocks[b].file != (int)f || !res[b].ran) continue;
      any = true;
      total++;
      opened += res[b].open;
      allOk &= res[b].ok;
      bytes += kBlocks[b].size;
      if (!res[b].ok) continue;
      string w = fs::pattern(kFiles[f].size, 77 + f + salt);
      auto it = tree.find(kFiles[f].name);
      VMC_CHECK(it != tree.end(), "lost-file", "%s was written and is gone", kFiles[f].name.c_str());
      VMC_CHECK(it->second.size() >= size_t(kBlocks[b].off + kBlocks[b].size) && it->second.compare(kBlocks[b].off, kBlocks[b].size, w, kBlocks[b].off, kBlocks[b].size) == 0, "lost-data", "%s: block at %ld was written successfully and its bytes are wrong at the end", kFiles[f].name.c_str(), (long)kBlocks[b].off);
    }
    if (!any) continue;
    if (fsfault::hard() == 0) {
      // without failing operations the outcome is determined
      bool mustFail = s.existing && s.st[f] == NOT_EXISTS && !s.overwrite && !s.resume;
      VMC_CHECK(mustFail ? opened == 0 : opened == total && allOk, "outcome", "%s: %d of %d blocks could open the file, all written: %d", kFiles[f].name.c_str(), opened, total, (int)allOk);
      if (mustFail) VMC_CHECK(tree[kFiles[f].name] == before.at(kFiles[f].name), "touched", "%s existed and was changed although overwriting is off", kFiles[f].name.c_str());
    }
    // a failed preparation is seen by everyone: when a preparing step failed nobody may use the file
    if (allOk && opened == total && bytes == kFiles[f].size && !(s.st[f] == EXISTS_CORRECT_SIZE && !s.existing)) {
      VMC_CHECK(tree[kFiles[f].name] == fs::pattern(kFiles[f].size, 77 + f + salt), "content", "%s: all blocks written, content differs (size %zu)", kFiles[f].name.c_str(), tree[kFiles[f].name].size());
    }
    outcome(kFiles[f].name + ":" + std::to_string(opened) + "/" + std::to_string(total) + (allOk ? "+" : "-"));
  }
}

static void scenario(Setup s) {
  FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
  string root = scratch() + "/dst";
  fs::mkdirs(root);
  WdtOptions o;
  options(s, o);
  fs::Tree before;
  for (size_t f = 0; f < kFiles.size(); ++f) {
    auto& n = kFiles[f].name;
    int64_t z = kFiles[f].size;
    switch (s.st[f]) {
      case NOT_EXISTS: if (s.existing) before[n] = string(z + 3, 'O'); break;
      case EXISTS_CORRECT_SIZE: before[n] = string(z, 'O'); break;
      case EXISTS_TOO_SMALL: before[n] = string(z / 2, 'O'); break;
      case EXISTS_TOO_LARGE: before[n] = string(z + 9, 'O'); break;
      default: break;
    }
  }
  fs::materialize(root, before);
  std::vector<Res> res, res2;
  std::vector<LogEntry> log;
  fib::run([&] {
    TransferLogManager lm(o, root);
    if (s.resume) {
      VMC_CHECK(lm.openLog() == OK, "log-open", "cannot open the log");
      std::vector<FileChunksInfo> v;
      lm.parseAndMatch("rec", 1, v);
      lm.verifySenderIp("ip");
      lm.writeLogHeader();
    }
    {
      FileCreator fc(root, (int)s.plan.size(), lm, false);
      if (s.staleDirs) {
        // a first file in the directory, which is then removed under the creator
        ThreadCtx ctx(o, false, 0);
        for (auto n : {"d/x", "d/e/x"}) {
          BlockDetails d;
          d.fileName = n;
          d.seqId = 50 + string(n).size();
          d.fileSize = 0;
          int fd = fc.openForBlocks(ctx, &d);
          VMC_CHECK(fd >= 0, "first", "cannot create %s", n);
          ::close(fd);
        }
        fs::removeAll(root + (flip(INPUT, "top-too") ? "/d" : "/d/e"));
      }
      fs::opt.schedPoints = true;
      fsfault::Opt fo;
      fo.filter = [&](const fs::Op& op) { return op.path.find(kWdtLogName) == string::npos; };
      fo.shortIo = fo.failures = s.faults;
      fsfault::install(root, fo);
      session(s, o, fc, root, 1, res, 0);
      fsfault::remove();
      judge(s, root, res, before, 0);
      if (s.sessions) {
        // next session: same numbers, files exist now
        fc.clearAllocationMap();
        fsfault::install(root, fo);
        session(s, o, fc, root, 1, res2, 1000);
        fsfault::remove();
        judge(s, root, res2, before, 1000);
      }
      fs::opt.schedPoints = false;
      VMC_CHECK(fs::openFds().size() <= (s.resume ? 1u : 0u), "leak", "descriptors left open");
    }
    if (s.resume) {
      lm.startThread();
      lm.closeLog();
      log = parse(fs::readFile(root + "/" + kWdtLogName));
      for (size_t f = 0; f < kFiles.size(); ++f) {
        int created = 0, resized = 0, invalid = 0, opened = 0, total = 0;
        bool order = true;
        for (size_t b = 0; b < kBlocks.size(); ++b) if (kBlocks[b].file == (int)f && res[b].ran) total++, opened += res[b].open;
        for (auto& e : log) {
          if (e.type == TransferLogManager::FILE_CREATION && e.seq == 1 + (int)f) {
            created++;
            VMC_CHECK(e.name == kFiles[f].name && e.size == kFiles[f].size, "log-creation", "creation of %s logged as %s size %ld", kFiles[f].name.c_str(), e.name.c_str(), (long)e.size);
          }
          if (e.type == TransferLogManager::FILE_RESIZE && e.seq == 1 + (int)f) {
            resized++;
            VMC_CHECK(e.size == kFiles[f].size, "log-resize", "resize of %s logged with %ld", kFiles[f].name.c_str(), (long)e.size);
          }
          if (e.type == TransferLogManager::FILE_INVALIDATION && e.seq == 100 + (int)f) invalid++, order &= created == 0;
        }
        if (!total) continue;
        bool big = s.st[f] == EXISTS_TOO_LARGE, small = s.st[f] == EXISTS_TOO_SMALL, fresh = s.st[f] == NOT_EXISTS;
        if (opened) {
          VMC_CHECK(created == (big || fresh) && resized == small && invalid == big && order, "log-entries", "%s (status %d): %d creation, %d resize, %d invalidation entries, order %d", kFiles[f].name.c_str(), s.st[f], created, resized, invalid, order);
        } else {
          VMC_CHECK(created <= 1 && resized <= 1, "log-twice", "%s: logged more than once", kFiles[f].name.c_str());
        }
      }
    }
  });
}

static const std::vector<std::vector<std::vector<int>>> kPlans2{
    {{0, 2}, {1}}, {{0}, {1, 2}}, {{0, 3}, {1, 4}}, {{3, 0}, {4, 1}}, {{4}, {3}}, {{0, 5}, {6, 1}}, {{5}, {6}}};
static const std::vector<std::vector<std::vector<int>>> kPlans3{{{0}, {1}, {2}}, {{0, 3}, {1}, {4}}, {{5, 0}, {6, 1}, {2}}};
static const std::vector<std::vector<std::vector<int>>> kOne{{{0, 1, 2, 3, 4, 5, 6}}};
static void setStatus(Setup& s, FileAllocationStatus st) { for (auto& x : s.st) x = st; }
static Setup gen(const std::vector<std::vector<std::vector<int>>>& plans) {
  Setup s;
  s.plan = pick(plans, "plan");
  static const std::vector<FileAllocationStatus> sts{NOT_EXISTS, EXISTS_CORRECT_SIZE, EXISTS_TOO_SMALL, EXISTS_TOO_LARGE};
  FileAllocationStatus st = pick(sts, "status");
  setStatus(s, st);
  s.prealloc = !flip(INPUT, "no-prealloc");
  s.resume = flip(INPUT, "resume");
  if (st == NOT_EXISTS) {
    s.existing = flip(INPUT, "existing");
    if (s.existing) s.overwrite = flip(INPUT, "overwrite");
  } else s.existing = true;
  return s;
}
static void body(const std::vector<std::vector<std::vector<int>>>& plans, bool faults) {
  Setup s = gen(plans);
  s.faults = faults;
  scenario(s);
}
static void deletion() {
  FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
  string root = scratch() + "/dst";
  fs::materialize(root, {{"d/del", "abc"}, {"d/keep", "xyz"}, {"del", "q"}});
  WdtOptions o;
  fib::run([&] {
    TransferLogManager lm(o, root);
    FileCreator fc(root, 2, lm, false);
    fs::opt.schedPoints = true;
    fsfault::install(root);
    std::vector<std::thread> th;
    bool bad[2] = {false, false};
    for (int t = 0; t < 2; ++t)
      th.emplace_back([&, t] {
        ThreadCtx ctx(o, false, t);
        BlockDetails d;
        d.fileName = t ? "del" : "d/del";
        d.seqId = 5 + t;
        d.allocationStatus = TO_BE_DELETED;
        FileWriter w(ctx, &d, &fc);
        bad[t] = w.open() != OK || w.sync() != OK || w.close() != OK;
      });
    for (auto& t : th) t.join();
    fsfault::remove();
    fs::opt.schedPoints = false;
    VMC_CHECK(!bad[0] && !bad[1], "delete-error", "deleting reported an error");
    auto tree = fs::snapshot(root);
    VMC_CHECK(tree.count("d/keep") && tree["d/keep"] == "xyz", "delete-other", "another file was touched");
    if (fsfault::injected().empty()) VMC_CHECK(tree.size() == 1, "delete", "files not deleted: %s", fs::describe(tree).c_str());
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C14";
  c.rule = "Two or three threads open and write blocks of up to four files (several blocks, one block, empty, nested and top-level) through the real creator and writer; every assignment, allocation status, option set and pre-existing content of the listed ones, combined with every schedule and file-system fault within the bounds; a blocked thread shows as a deadlock.";
  c.assumptions = {"Interleavings at synchronisation operations and file operations.", "The kernel's own file operations are atomic."};
  auto sched = [](int n) { Bounds b(n); return b; };
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double budget = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = budget;
    c.scenarios.push_back(s);
  };
  add("two-threads", [] { body(kPlans2, false); }, {sched(1), sched(2)}, {sched(2), sched(3), sched(4)}, 2);
  add("three-threads", [] { body(kPlans3, false); }, {sched(2)}, {sched(2), sched(3)}, 2);
  add("faults-alone", [] { body(kOne, true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(2).set(SCHED, 0)});
  add("faults-two", [] { body(kPlans2, true); }, {Bounds(2).set(FS, 1).set(SCHED, 1)}, {Bounds(3).set(FS, 2).set(SCHED, 2)}, 2);
  add("sessions", [] { Setup s; s.plan = pick(kPlans2, "plan"); s.sessions = true; s.overwrite = true; s.prealloc = !flip(INPUT, "no-prealloc"); scenario(s); }, {sched(1)}, {sched(2)});
  add("stale-dirs", [] { Setup s; s.plan = pick(kPlans2, "plan"); s.staleDirs = true; scenario(s); }, {sched(2)}, {sched(3), sched(4)});
  add("access-two", [] { body(kPlans2, false); }, {sched(1)}, {sched(1), sched(2)}, 2);
  add("access-three", [] { body(kPlans3, false); }, {sched(1)}, {sched(1), sched(2)}, 2);
  add("delete", deletion, {Bounds(2)}, {Bounds(4)});
  return runCheck(c, argc, argv);
}
