// C29: one receiver at a time uses a transfer log; a log written for another
// transfer, sender or configuration is never used to skip data.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "e2ecases.h"
using namespace vmc;
using namespace e2e;
using std::string;

// ---------------------------------------------------------------- two receivers
enum Life { LOOK, SERVE, SERVE_KEEP, UNSERVED };
enum Log { ABSENT, VALID, GARBAGE, FOREIGN };
static Cfg conf(bool keep) {
  Cfg c = cfg1s();
  c.src = shared() + "/src";
  c.both = [keep](WdtOptions& o) {
    o.enable_download_resumption = true;
    o.keep_transfer_log = keep;
    o.overwrite = true;
    o.accept_timeout_millis = 100;
    o.max_accept_retries = 2;
    o.transfer_log_write_interval_ms = 10;
  };
  return c;
}
static string g_validLog, g_foreignLog;
static string logPath() { return path("dst") + "/" + kWdtLogName; }
static ino_t inode(const string& p) {
  struct stat st;
  return ::stat(p.c_str(), &st) ? 0 : st.st_ino;
}
static ino_t logInode() {
  string root;
  root.swap(fs::opt.root);
  ino_t i = inode(logPath());
  root.swap(fs::opt.root);
  return i;
}
static void start(Log l) {
  fs::mkdirs(path("dst"));
  fs::opt.root.clear();
  string d;
  switch (l) {
    case ABSENT: return;
    case VALID: {
      Cfg c = conf(true);
      fib::run([&] {
        Xfer x(c);
        x.run();
        VMC_CHECK(x.R.ok() && x.S.ok(), "harness", "preparation: %s", x.codes().c_str());
        x.destroy();
      });
      return;
    }
    case GARBAGE: d = "this is not a log"; break;
    case FOREIGN: {
      start(VALID);
      d = fs::readFile(logPath());
      size_t k = d.find("127.0.0.1");
      VMC_CHECK(k != string::npos, "harness", "no ip in the log");
      d[k] = '3';
      break;
    }
  }
  fs::writeFile(logPath(), d);
}
struct Two {
  string name;
  std::vector<Life> a, b;
  std::vector<Log> logs{ABSENT, VALID, GARBAGE, FOREIGN};
  bool simultaneous = false;   // also all schedules of the threads
  bool again = false;          // the first process starts another receiver
  std::vector<Bounds> quick, deep;
  double budget = 1;
};
static void two(const Two& t) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = false;
  Life life[2] = {pick(t.a, "first"), pick(t.b, "second")};
  Log l = pick(t.logs, "log");
  start(l);
  enum St { NONE, INITING, HOLDS, RELEASING } st[2] = {NONE, NONE};
  bool overlapped[2] = {}, refused[2] = {};
  int arrived[2] = {0, 0};          // log operations begun
  bool ended[2] = {};
  bool modified[2] = {};
  ino_t mine[2] = {0, 0};
  int holder = -1, actor = -1;
  string content;
  auto look = [&] {
    string root;
    root.swap(fs::opt.root);
    string now = fs::readFile(logPath());
    root.swap(fs::opt.root);
    VMC_CHECK(now == content || holder < 0 || actor == holder, "modified", "the log of the %s receiver was changed by the other", holder ? "second" : "first");
    content = now;
  };
  fs::opt.root = path("dst") + "/.wdt";
  fib::opt.schedPoints = t.simultaneous;
  fs::opt.hook = [&](const fs::Op& o) {
    int r = fib::group() - 11;
    if (r != 0 && r != 1) return fs::Act();
    ++arrived[r];
    if (!ended[1 - r]) {
      // the other receiver goes on, up to its next use of the log, or further
      static const int far[] = {0, 1, 2, 4, 8, 1000};
      int n = far[choose(6, SCHED, fs::kindName(o.kind))];
      int upto = arrived[1 - r] + n;
      if (n) fib::block([&] { return ended[1 - r] || arrived[1 - r] >= upto; }, fib::now() + fib::SEC, "log");
    }
    look();   // what the previous operation did
    actor = r;
    if (o.kind == fs::WRITE || o.kind == fs::PWRITE || o.kind == fs::UNLINK || o.kind == fs::RENAME || o.kind == fs::FTRUNC) modified[r] = true;
    return fs::Act();
  };
  auto enter = [&](int r, St s) {
    st[r] = s;
    for (int i = 0; i < 2; ++i)
      if (st[i] == INITING && st[1 - i] != NONE) overlapped[i] = true;
  };
  auto lifecycle = [&](int r) {
    fib::setGroup(11 + r);
    ended[r] = refused[r] = modified[r] = overlapped[r] = false;
    Cfg c = conf(life[r] == SERVE_KEEP);
    Xfer x(c);
    x.base = x.rGroup = 11 + r;
    enter(r, INITING);
    bool ok = x.startReceiver(life[r] != LOOK);
    const char* n = r ? "second" : "first";
    note("the %s receiver %s", n, ok ? "holds the log" : errorCodeToStr(x.R.err).c_str());
    if (!ok) {
      refused[r] = true;
      VMC_CHECK(x.R.err == TRANSFER_LOG_ACQUIRE_ERROR, "refusal", "the %s receiver fails with %s", n, errorCodeToStr(x.R.err).c_str());
      VMC_CHECK(overlapped[r], "refusal", "the %s receiver is refused although nobody uses the log", n);
      VMC_CHECK(!modified[r], "touched", "the refused %s receiver changed the log", n);
      x.destroy();
      enter(r, NONE);
      ended[r] = true;
      return;
    }
    enter(r, HOLDS);
    VMC_CHECK(st[1 - r] != HOLDS, "exclusive", "both receivers hold the log");
    look();
    holder = r;
    mine[r] = logInode();
    VMC_CHECK(mine[r], "taken", "the %s receiver was accepted but there is no log", n);
    if (life[r] == SERVE || life[r] == SERVE_KEEP) {
      if (x.startSenderAsync()) x.finishSender();
    }
    VMC_CHECK(st[1 - r] != HOLDS, "exclusive", "both receivers hold the log");
    ino_t now = logInode();
    VMC_CHECK(now == mine[r], "taken", "the log of the %s receiver was %s while it used it", n, now ? "replaced" : "removed");
    look();
    holder = -1;
    enter(r, RELEASING);
    if (life[r] != LOOK) {
      x.finishReceiver();
      bool good = life[r] != UNSERVED;
      VMC_CHECK(x.R.ok() == good, "result", "the %s receiver ends with %s", n, errorCodeToStr(x.R.err).c_str());
      if (good) VMC_CHECK(x.S.ok() && compareDst(c).empty(), "result", "transfer of the %s receiver: %s %s", n, x.codes().c_str(), compareDst(c).c_str());
    }
    x.destroy();   // the lock is held up to here
    enter(r, NONE);
    ended[r] = true;
  };
  fib::run([&] {
    std::thread b([&] { lifecycle(1); });
    lifecycle(0);
    if (t.again) {
      note("the first process starts another receiver");
      lifecycle(0);
    }
    b.join();
  });
  VMC_CHECK(t.again || !refused[0] || !refused[1], "refusal", "both receivers were refused");
  fs::opt.hook = nullptr;
  fib::opt.schedPoints = false;
  fs::opt.root.clear();
  // when all have finished the log can be opened again
  net::reset();
  fib::run([&] {
    Cfg c = conf(true);
    Xfer x(c);
    VMC_CHECK(x.startReceiver(), "reopen", "the log cannot be opened afterwards: %s", errorCodeToStr(x.R.err).c_str());
    if (x.startSenderAsync()) x.finishSender();
    x.finishReceiver();
    string d = compareDst(c);
    VMC_CHECK(x.R.ok() && x.S.ok() && d.empty(), "reopen", "the next transfer: %s %s", x.codes().c_str(), d.c_str());
    x.destroy();
  });
  outcome(string(refused[0] ? "r" : "a") + (refused[1] ? "r" : "a") + std::to_string(l) + (mine[0] && mine[0] == mine[1] ? "same" : "other"));
}

// ---------------------------------------------------------------- death
/// the receiver's process dies before one of its operations in the directory;
/// while it lives others are refused, afterwards the next is accepted
static void death() {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = false;
  bool keep = flip(INPUT, "keep");
  Log l = pick(std::vector<Log>{ABSENT, VALID, GARBAGE, FOREIGN}, "log");
  int k = choose(64, INPUT, "death");
  start(l);
  net::reset();
  int fds[2], go[2];
  VMC_CHECK(!pipe(fds) && !pipe(go), "harness", "pipe");
  pid_t pid = fork();
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    ::close(fds[0]);
    ::close(go[1]);
    fs::opt.root = path("dst");
    bool locked = false;
    int n = 0;
    fs::opt.hook = [&](const fs::Op& o) {
      if (n++ == k) {
        char c = locked ? 'L' : 'U';
        fs::opt.root.clear();
        if (write(fds[1], &c, 1) != 1 || read(go[0], &c, 1) != 1) _exit(1);
        _exit(0);
      }
      if (o.kind == fs::FLOCK) locked = true;
      if (o.kind == fs::UNLINK || o.kind == fs::RENAME) locked = false;
      return fs::Act();
    };
    fib::run([&] {
      Xfer x(conf(keep));
      if (x.startReceiver()) {
        if (x.startSenderAsync()) x.finishSender();
        locked = false;   // may be released at any time from now on
        x.finishReceiver();
      }
    });
    _exit(2);
  }
  char c = 0;
  ::close(fds[1]);
  ::close(go[0]);
  bool got = read(fds[0], &c, 1) == 1;
  if (got && c == 'L') {
    string before = fs::readFile(logPath());
    fib::run([&] {
      Xfer x(conf(keep));
      VMC_CHECK(!x.startReceiver(), "exclusive", "a second process can use the log of a running receiver (operation %d)", k);
      VMC_CHECK(x.R.err == TRANSFER_LOG_ACQUIRE_ERROR, "refusal", "the second process fails with %s", errorCodeToStr(x.R.err).c_str());
      x.destroy();
    });
    VMC_CHECK(fs::readFile(logPath()) == before, "touched", "the refused process changed the log (operation %d)", k);
  }
  if (write(go[1], "g", 1) != 1) note("ended before");
  int status = 0;
  waitpid(pid, &status, 0);
  ::close(fds[0]);
  ::close(go[1]);
  VMC_CHECK(WIFEXITED(status) && WEXITSTATUS(status) % 2 == 0, "harness", "child status %d", status);
  if (!got) prune("no such operation");
  net::reset();
  fib::run([&] {
    Cfg n = conf(true);
    Xfer x(n);
    VMC_CHECK(x.startReceiver(), "reopen", "after the death at operation %d the log cannot be opened: %s", k, errorCodeToStr(x.R.err).c_str());
    if (x.startSenderAsync()) x.finishSender();
    x.finishReceiver();
    string d = compareDst(n);
    VMC_CHECK(x.R.ok() && x.S.ok() && d.empty(), "reopen", "the transfer after the death at operation %d: %s %s", k, x.codes().c_str(), d.c_str());
    x.destroy();
  });
  outcome(string(1, c) + std::to_string(l));
}

// ---------------------------------------------------------------- foreign logs
/// what a log was written for
struct Who {
  int rec = 0;           // recovery id
  bool pre = true;       // preallocation
  bool tree = false;     // directory tree mode
  bool blocks = false;   // the sender sends blocks
  string str() const { return "recovery id " + std::to_string(rec) + (tree ? ", tree" : pre ? ", preallocated" : ", not preallocated") + (blocks ? ", blocks" : ""); }
  bool operator==(const Who& o) const { return rec == o.rec && (tree ? o.tree : !o.tree && pre == o.pre); }
};
static Who who(const char*) {
  Who w;
  w.rec = choose(3, INPUT, "recovery id");
  switch (choose(4, INPUT, "mode")) {
    case 0: break;
    case 1: w.pre = false; break;
    case 2: w.tree = true; w.pre = false; break;
    case 3: w.tree = true; w.pre = false; w.blocks = true; break;
  }
  return w;
}
static Cfg source(int gen) {
  Cfg c = cfg1s();
  c.files = {{"a", 5000}, {"d/b", 300}};
  c.seed = 7 + gen;
  c.src = shared() + "/foreign" + std::to_string(gen);
  return c;
}
static void foreign() {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = false;
  Who w[3] = {who("1"), who("2"), Who()};
  bool otherIp = flip(INPUT, "other sender"), noVerify = otherIp && flip(INPUT, "not verified");
  w[2] = flip(INPUT, "third as the first") ? w[0] : w[1];
  fs::Tree before;
  string rec[3] = {"", "one", "two"};
  int last = -1;    // generation the destination holds
  for (int g = 0; g < 3; ++g) {
    net::reset();
    Cfg c = source(g);
    Who me = w[g];
    c.both = [me, noVerify](WdtOptions& o) {
      o.enable_download_resumption = true;
      o.keep_transfer_log = true;
      o.overwrite = true;
      o.disable_preallocation = !me.pre;
      o.resume_using_dir_tree = me.tree;
      o.block_size_mbytes = me.blocks ? 1 : 0;
      o.disable_sender_verification_during_resumption = noVerify;
    };
    string report;
    int64_t sent = 0;
    bool ok = false;
    fib::run([&] {
      Xfer x(c);
      x.onReceiver = [&](Receiver& r) { r.setRecoveryId(rec[me.rec]); };
      x.run();
      ok = x.S.ok() && x.R.ok();
      report = x.codes();
      if (x.R.done && x.R.report) sent = x.R.report->getSummary().getEffectiveDataBytes();
      x.destroy();
    });
    VMC_CHECK(ok, "failed", "transfer %d (%s) after %s fails: %s", g, me.str().c_str(), g ? w[g - 1].str().c_str() : "nothing", report.c_str());
    bool sameIp = g != 1 || !otherIp || noVerify;
    bool usable = g > 0 && me == w[g - 1] && sameIp;
    string stale = g ? compare(source(last), fs::snapshot(path("dst"))) : "x", fresh = compareDst(c);
    bool mayTrust = usable;
    if (!mayTrust) VMC_CHECK(fresh.empty(), "foreign", "transfer %d (%s%s) used the log of %s: %s", g, me.str().c_str(), sameIp ? "" : ", another sender", w[g - 1].str().c_str(), fresh.c_str());
    else VMC_CHECK((sent == 0 && stale.empty()) || fresh.empty(), "mixed", "transfer %d (%s) left a mixture: %s / %s", g, me.str().c_str(), stale.c_str(), fresh.c_str());
    if (mayTrust && sent == 0) outcome("used " + me.str());
    // a plain repetition does use the log
    if (mayTrust && !me.tree) VMC_CHECK(sent == 0, "unused", "transfer %d (%s): the log of the same transfer was not used", g, me.str().c_str());
    if (fresh.empty()) last = g;
    if (g == 0 && otherIp) {
      string lg = fs::readFile(logPath());
      size_t k = 0;
      bool any = false;
      while ((k = lg.find("127.0.0.1", k)) != string::npos) lg[k] = '3', any = true;
      VMC_CHECK(any || me.blocks, "harness", "no ip in the log");
      fs::writeFile(logPath(), lg);
    }
  }
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C29";
  c.rule = "Two receivers of one directory with every pair of lifecycles and every initial log, in every interleaving of their uses of the log up to the bound, followed by a third; the death of the receiver's process before each of its file operations, with a second process before and after; every combination of what the log was written for and what the next two transfers are.";
  c.assumptions = {"flock is exclusive between open file descriptions and released when the last descriptor closes (the real one is used)."};
  static std::vector<Two> ts;
  auto add = [&](string name, std::vector<Life> a, std::vector<Life> b, bool sim, int q, int d) -> Two& {
    Two t;
    t.name = name;
    t.a = a;
    t.b = b;
    t.simultaneous = sim;
    t.quick = upTo(q);
    t.deep = upTo(d);
    ts.push_back(t);
    return ts.back();
  };
  ts.reserve(16);
  const std::vector<Life> all{LOOK, SERVE, SERVE_KEEP, UNSERVED};
  add("two", all, all, false, 2, 4).budget = 2;
  Two& g = add("again", {SERVE, SERVE_KEEP}, {SERVE, UNSERVED}, false, 2, 4);
  g.again = true;
  g.logs = {ABSENT, VALID};
  c.setup = [] {
    Cfg k = conf(true);
    shareSource(k, "src");
    for (auto& f : k.files) content(k, f);
    for (int g = 0; g < 3; ++g) {
      Cfg s = source(g);
      shareSource(s, "foreign" + std::to_string(g));
      for (auto& f : s.files) content(s, f);
    }
  };
  for (auto& t : ts) {
    Scenario s;
    s.name = t.name;
    s.body = [&t] { two(t); };
    s.forked = true;
    s.budget = t.budget;
    s.quick = t.quick;
    s.deep = t.deep;
    c.scenarios.push_back(s);
  }
  Scenario d;
  d.name = "death";
  d.body = death;
  d.forked = true;
  d.quick = d.deep = upTo(0);
  c.scenarios.push_back(d);
  Scenario f;
  f.name = "foreign";
  f.body = foreign;
  f.forked = true;
  f.quick = f.deep = upTo(0);
  c.scenarios.push_back(f);
  c.quickBudget = 60;
  return runCheck(c, argc, argv);
}
