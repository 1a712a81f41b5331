// C05: a killed transfer resumes to an identical copy from the transfer log.
// A recorded transfer gives, for every point of its history, the directories a
// kill or a power loss can leave; from each of them the next transfer is run.
#include "crash.h"
#include "e2ecases.h"
#include "logref.h"
using namespace vmc;
using namespace e2e;
using std::string;

enum Change { SAME, GROWN, SHRUNK, REPLACED, NCHANGE };
struct Conf {
  string name;
  Cfg cfg;                  // cfg.src: the source of the first transfer
  bool power = true;        // power loss as well as kill
  bool dirTree = false, prealloc = true;
  FaultSet faults = NOFAULT;    // network faults in the first transfer
  bool twice = false;       // the resumed transfer is killed as well
  bool keep = true;
  std::vector<Change> changes{SAME};
  std::vector<Bounds> quick, deep;
  double budget = 1;
  bool thoroughOnly = false;
  Cfg after[NCHANGE];       // the sources of the later transfers
};
static OptFn resume(const Conf& k) {
  bool dirTree = k.dirTree, prealloc = k.prealloc, keep = k.keep;
  auto old = k.cfg.both;
  return [=](WdtOptions& o) {
    if (old) old(o);
    o.enable_download_resumption = true;
    o.resume_using_dir_tree = dirTree;
    if (dirTree) o.block_size_mbytes = -1;
    o.disable_preallocation = !prealloc || dirTree;
    o.transfer_log_write_interval_ms = 2;
    o.keep_transfer_log = keep;
    o.overwrite = false;
  };
}
static std::vector<FileSpec> changed(std::vector<FileSpec> f, Change c) {
  switch (c) {
    case GROWN: f[0].size += 5500; break;
    case SHRUNK: f[0].size = f[0].size / 2 + 1; break;
    case REPLACED: f.erase(f.begin()); f.push_back({"new", 700}); break;
    default: break;
  }
  return f;
}

/// what the next transfer may leave out, according to the log and the disk
static int64_t keptBytes(const Conf& k, const Cfg& next, const fs::Tree& disk) {
  auto sizeOf = [&](const string& n) {
    auto i = disk.find(n);
    return i == disk.end() ? (int64_t)-1 : (int64_t)i->second.size();
  };
  auto li = disk.find(kWdtLogName);
  string log = li == disk.end() ? "" : li->second;
  int64_t config = (k.prealloc && !k.dirTree ? 1 : 0) | (k.dirTree ? 2 : 0);
  logref::State st = logref::reference(logref::split(log), sizeOf, k.dirTree ? logref::DIRTREE : k.prealloc ? logref::PREALLOC : logref::NOALLOC, "", config);
  if (logref::split(log).badFrame) st.status = INVALID_LOG;
  int64_t kept = 0;
  note("log: %s", st.show().c_str());
  if (st.status != OK || (!st.ip.empty() && st.ip != "127.0.0.1")) return 0;
  for (auto& f : next.files) {
    if (k.dirTree) {
      int64_t have = sizeOf(f.name);
      if (have >= 0 && have <= f.size) kept += have;
      continue;
    }
    for (auto& x : st.live)
      if (x.second.name == f.name && x.second.disk <= f.size) kept += x.second.bytes.size();
  }
  return kept;
}
static void transferAndJudge(const Conf& k, const Cfg& next, const fs::Tree& start, const char* which, bool complete = false) {
  int64_t total = 0;
  for (auto& f : next.files) total += f.size;
  int64_t kept = keptBytes(k, next, start);
  Xfer x(next);
  x.run();
  fs::Tree got = fs::snapshot(path(next.dst));
  auto where = [&] { return string(which) + " from " + fs::describe(start); };
  VMC_CHECK(x.S.ok() && x.R.ok(), "resume", "%s: the transfer failed: %s", where().c_str(), x.codes().c_str());
  string diff = compare(next, got);
  VMC_CHECK(diff.empty(), "copy", "%s: %s", where().c_str(), diff.c_str());
  int64_t sent = x.R.report->getSummary().getEffectiveDataBytes();
  if (net::stats.faults == 0)
    VMC_CHECK(sent == total - kept, "resent", "%s: %ld bytes were sent, %ld of %ld are stored", where().c_str(), (long)sent, (long)kept, (long)total);
  if (complete) VMC_CHECK(sent == 0, "resent", "%s: %ld bytes were sent although everything had been transferred", where().c_str(), (long)sent);
  outcome(string(which) + std::to_string(sent));
  x.destroy();
}
static void body(const Conf& k) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  Change ch = k.changes.size() > 1 ? pick(k.changes, "change") : k.changes[0];
  // first transfer, recorded
  setFaults(k.faults);
  net::opt.stall = 300 * fib::MS;
  string d1 = path("dst");
  fs::opt.root = d1;
  fs::opt.log = true;
  auto rec = [&](Cfg c, const char* dst) {
    c.dst = dst;
    fib::run([&] {
      Xfer x(c);
      x.run();
      x.destroy();
    });
    std::vector<fs::LogRec> ops = std::move(fs::oplog);
    fs::oplog.clear();
    return ops;
  };
  auto ops = rec(k.cfg, "dst");
  net::opt = net::Options();
  for (auto& r : ops) note("op %d %s %ld %ld", (int)r.kind, r.path.c_str() + d1.size(), (long)r.off, (long)r.size);
  auto sts = crash::states(d1, ops, k.power, kWdtLogName);
  auto& s1 = sts[choose((int)sts.size(), INPUT, "crash state")];
  Cfg next = k.after[ch];
  if (k.twice) {
    string d2 = path("dst2");
    fs::mkdirs(d2);
    fs::materialize(d2, s1);
    fs::opt.root = d2;
    ops = rec(next, "dst2");
    auto sts2 = crash::states(d2, ops, k.power, kWdtLogName, s1);
    auto& s2 = sts2[choose((int)sts2.size(), INPUT, "second crash state")];
    s1 = s2;
    next = k.after[SAME];
  }
  fs::opt.root.clear();
  fs::opt.log = false;
  string d3 = path("dst3");
  fs::mkdirs(d3);
  fs::materialize(d3, s1);
  next.dst = "dst3";
  net::reset();
  fib::run([&] {
    transferAndJudge(k, next, s1, "resumed");
    if (k.keep) {
      fs::Tree now = fs::snapshot(d3);
      transferAndJudge(k, next, now, "again", now.count(kWdtLogName));  // an unusable log is set aside for good
    }
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C05";
  c.rule = "Every directory that a kill of the receiver, or a power loss, can leave at any point of a recorded transfer (un-synced data lost, torn, replaced by zeros, or kept, in every combination over the files; the log likewise), for transfers with the stated schedules and faults; from each the next transfer must succeed with an identical tree and send exactly what is not stored according to an independent reading of the log; then once more.";
  c.assumptions = {"A lost write is lost whole, in halves, or leaves zeros; synced data and the order of log entries within the log survive.", "The directory entry of a file that was synced survives."};
  auto ks = std::make_shared<std::vector<Conf>>();
  auto add = [&](string name, Cfg cfg, std::function<void(Conf&)> f) {
    Conf k;
    k.name = name;
    k.cfg = cfg;
    k.quick = {Bounds(1).set(SCHED, 0)};
    k.deep = {Bounds(1), Bounds(2)};
    f(k);
    ks->push_back(k);
  };
  auto slow = [](Cfg c) { return with(c, [](WdtOptions& o) { o.avg_mbytes_per_sec = 0.5; o.buffer_size = 8192; }); };
  Cfg small; small.files = {{"a", 20000}, {"d/b", 0}, {"d/c", 9000}};
  Cfg two = small; two.ports = 2; two.files.push_back({"e", 17000});
  Cfg blocks; blocks.files = {{"big", (1 << 20) + 3000}, {"z", 50}};
  blocks.both = [](WdtOptions& o) { o.buffer_size = 512 * 1024; };
  std::vector<Change> all{SAME, GROWN, SHRUNK, REPLACED};
  add("one-port", slow(small), [&](Conf& k) { k.changes = all; k.budget = 2; });
  add("two-ports", slow(two), [&](Conf& k) { k.budget = 2; });
  add("no-prealloc", slow(small), [&](Conf& k) { k.prealloc = false; k.changes = all; k.budget = 2; });
  add("checksum", with(slow(small), checksum()), [&](Conf& k) {});
  add("gcm", with(slow(small), gcm(1000)), [&](Conf& k) { k.budget = 2; });
  add("no-keep", slow(small), [&](Conf& k) { k.keep = false; });
  add("compact", with(slow(small), [](WdtOptions& o) { o.enable_transfer_log_compaction = true; }), [&](Conf& k) { k.changes = {SAME, GROWN}; });
  add("blocks", blocks, [&](Conf& k) { k.budget = 2; });
  add("dir-tree", slow(small), [&](Conf& k) { k.dirTree = true; k.power = false; k.changes = all; });
  add("dir-tree-two", slow(two), [&](Conf& k) { k.dirTree = true; k.power = false; k.changes = all; });
  add("faults", slow(small), [&](Conf& k) { k.faults = BREAK; k.quick = {Bounds(1).set(SCHED, 0)}; k.deep = {Bounds(2).set(SCHED, 0)}; k.budget = 2; });
  add("dir-tree-faults", slow(two), [&](Conf& k) { k.dirTree = true; k.power = false; k.faults = BREAK; });
  add("twice", small, [&](Conf& k) { k.twice = true; k.changes = all; k.budget = 2; });
  add("twice-no-prealloc", small, [&](Conf& k) { k.twice = true; k.prealloc = false; k.changes = all; k.budget = 2; });
  c.quickBudget = 90;
  c.setup = [ks] {
    for (auto& k : *ks) {
      auto o = resume(k);
      shareSource(k.cfg, "src-" + k.name);
      for (int i = 0; i < NCHANGE; ++i) {
        k.after[i] = k.cfg;
        k.after[i].files = changed(k.cfg.files, (Change)i);
        for (auto& f : k.after[i].files) content(k.cfg, f);
        shareSource(k.after[i], "src-" + k.name + std::to_string(i));
        k.after[i].both = o;
      }
      k.cfg.both = o;
    }
  };
  for (size_t i = 0; i < ks->size(); ++i) {
    Conf& k = (*ks)[i];
    Scenario s;
    s.name = k.name;
    s.body = [ks, i] { body((*ks)[i]); };
    s.forked = true;
    s.quick = k.quick;
    s.deep = k.deep;
    s.budget = k.budget;
    s.thoroughOnly = k.thoroughOnly;
    c.scenarios.push_back(s);
  }
  return runCheck(c, argc, argv);
}
