// C26: an abort stops its side promptly, is reported, and lets the other side
// finish.  The abort is placed at every point of the transfer.
#include <wdt/AbortChecker.h>
#include "e2ecases.h"
#include "peer.h"
using namespace vmc;
using namespace e2e;
using std::string;

enum Who { SENDER, RECEIVER, BOTH };
enum How { CHECKER, CALL, DESTROY };   // an external abort checker, abort() called by a thread, the object destroyed
struct Flag : IAbortChecker {
  bool on = false;
  bool shouldAbort() const override { return on; }
};
struct Abort {
  string name;
  Cfg cfg;
  std::vector<Who> who{SENDER, RECEIVER, BOTH};
  How how = CHECKER;
  FaultSet faults = NOFAULT;
  std::vector<int64_t> times;    // abort at these times (ms) instead of at every point
  bool sched = false, fsPoints = false;
  int lone = 0;                  // 1: no sender comes, 2: no receiver, 3: silent receiver, 4: silent sender
  int64_t slack = 0;             // more time allowed (ms)
  std::vector<Bounds> quick, deep;
  double budget = 1;
};
static const int64_t PROMPT = 100 + 200;  // the check interval, and sleeps and last writes
static bool isIo(const char* w) {
  static const char* notIo[] = {"lock", "unlocked", "trylock", "rdlock", "wrlock", "condwait", "condtimedwait", "condclockwait", "signal", "broadcast", "spurious", "join", "thread_create", "once", "yield"};
  for (auto n : notIo) if (!strcmp(w, n)) return false;
  return true;
}
static void body(const Abort& a) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = a.sched;
  setFaults(a.faults);
  if (a.fsPoints) {
    fs::opt.root = shared().substr(0, shared().rfind('/'));
    fs::opt.schedPoints = true;
  }
  net::opt.stall = 30 * fib::SEC;
  Who who = pick(a.who, "who");
  int64_t when = a.times.empty() ? -1 : pick(a.times, "when") * fib::MS;
  // declared before the transfer so that they outlive it
  auto fs = std::make_shared<Flag>(), fr = std::make_shared<Flag>();
  int64_t at = -1;
  bool called = false;
  auto fire = [&] {
    at = fib::now();
    if (a.how == CHECKER) {
      if (who != RECEIVER) fs->on = true;
      if (who != SENDER) fr->on = true;
    }
    note("abort at %ld ms", (long)(at / fib::MS));
  };
  Xfer* px = nullptr;
  int work[4] = {};   // points passed after the abort, by side
  bool over = false, started = false;
  int running = 0;   // the side whose thread ran at the moment of the abort
  fib::onPoint = [&](const char* what) {
    if (at >= 0 && isIo(what)) ++work[fib::group() & 3];
    if (when >= 0 || at >= 0 || over || !px) return;
    if (flip(CRASH, "abort here")) {
      fire();
      running = started ? fib::group() : 0;
      // let the other threads notice, as they would if this thread ran no faster
      if (a.fsPoints) fib::block([] { return false; }, fib::now() + fib::MS, "abort here");
    }
  };
  fib::run([&] {
    Xfer x(a.cfg);
    x.onReceiver = [&](Receiver& r) { if (a.how == CHECKER) r.setAbortChecker(fr); };
    x.onSender = [&](Sender& s) { if (a.how == CHECKER) s.setAbortChecker(fs); };
    bool recv = a.lone != 2 && a.lone != 3, send = a.lone != 1 && a.lone != 4;
    int quiet = -1;
    if (!recv) {
      if (a.lone == 3) quiet = peer::listenOn(22000);
      x.url = "wdt://localhost?ports=22000&id=id1&recpv=" + std::to_string(Protocol::protocol_version);
      px = &x;
    } else {
      px = &x;
      if (!x.startReceiver()) return;
    }
    int talker = -1;
    if (a.lone == 4) {
      talker = peer::dial(x.receiver->getTransferRequest().ports[0]);
      int part = choose(3, INPUT, "said");
      if (part) {
        string set = "S" + wire::settings(Protocol::protocol_version, 1000, 1000, "id1", 0);
        wire::Blk b;
        b.name = "half";
        b.seq = 1;
        b.data = b.size = 500;
        string h = wire::header(Protocol::protocol_version, b);
        string s = set;
        if (part == 2) s += "L" + string(1, 0) + wire::fix(h.size() + 4, 2) + h + "some";
        peer::put(talker, s);
      }
    }
    started = send && x.startSenderAsync();
    std::thread timer, caller;
    if (when >= 0) timer = std::thread([&] {
      fib::block([] { return false; }, when, "timer");
      if (!over) fire();
    });
    if (a.how == CALL) caller = std::thread([&] {
      fib::block([&] { return at >= 0 || over; }, fib::NEVER, "abort call");
      if (at < 0) return;
      if (who != RECEIVER && x.sender) x.sender->abort(ABORTED_BY_APPLICATION);
      if (who != SENDER && x.receiver) x.receiver->abort(ABORTED_BY_APPLICATION);
      called = true;
    });
    // both ends are waited for at the same time
    auto destroyed = [&](Who side) {
      if (a.how != DESTROY || who != side) return false;
      fib::block([&] { return at >= 0; }, 5000 * fib::MS, "destroy");
      if (at < 0) return false;
      if (side == SENDER) x.sender.reset();
      else x.receiver.reset();
      int64_t took = (fib::now() - at) / fib::MS;
      VMC_CHECK(took <= PROMPT + a.slack, "slow", "the destructor of the %s takes %ld ms", side == SENDER ? "sender" : "receiver", (long)took);
      return true;
    };
    std::thread fr2;
    if (recv) fr2 = std::thread([&] { if (!destroyed(RECEIVER)) x.finishReceiver(); });
    if (started && !destroyed(SENDER)) x.finishSender();
    if (recv) fr2.join();
    over = true;
    if (timer.joinable()) timer.join();
    if (caller.joinable()) caller.join();
    if (quiet >= 0) ::close(quiet);
    if (talker >= 0) ::close(talker);
    for (int i = 0; i < 2; ++i) {
      Side& s = i ? x.R : x.S;
      const char* n = i ? "receiver" : "sender";
      if (!s.done) continue;
      if (s.ok()) {
        string d = compareDst(a.cfg);
        VMC_CHECK(a.lone == 0 && d.empty(), "copy", "abort at %ld us: the %s reports success but %s (%s)", (long)(at / 1000), n, d.c_str(), x.codes().c_str());
      }
      if (at < 0) {
        if (a.faults == NOFAULT && !a.lone) VMC_CHECK(s.ok(), "failed", "%s fails without an abort: %s", n, x.codes().c_str());
        continue;
      }
      bool mine = who == BOTH || who == (i ? RECEIVER : SENDER);
      int64_t took = s.endTime <= at ? 0 : (s.endTime - at) / fib::MS;
      if (mine && s.endTime >= at) {
        // an abort before the threads exist is only noticed when they run
        if (a.fsPoints && running == i + 1) VMC_CHECK(work[i + 1] <= 20, "work", "the %s makes %d I/O operations after the abort", n, work[i + 1]);
        VMC_CHECK(took <= PROMPT + a.slack, "slow", "the %s ends %ld ms after the abort (at %ld us)", n, (long)took, (long)(at / 1000));
        VMC_CHECK(s.ok() || s.localErr != OK || s.remoteErr != OK, "unreported", "the %s reports %s", n, x.codes().c_str());
        // without faults there is no other reason to fail: the threads report the
        // abort; the sender's summary may name the unsent files instead
        if (net::stats.faults == 0 && !a.lone && who != BOTH && !s.ok()) {
          bool named = i ? s.err == ABORT : s.err == ABORT || s.err == SOCKET_WRITE_ERROR;
          bool thread = i;
          if (!i) for (auto& t : s.report->getThreadStats()) thread |= t.getLocalErrorCode() == ABORT;
          VMC_CHECK(named && thread, "unreported", "the aborted %s reports %s (local %s, remote %s)%s", n, errorCodeToStr(s.err).c_str(), errorCodeToStr(s.localErr).c_str(), errorCodeToStr(s.remoteErr).c_str(), thread ? "" : " and no thread ended with it");
        }
      }
      if (!mine) VMC_CHECK(took <= 60000, "hang", "the %s ends %ld ms after the other side aborted", n, (long)took);
      outcome(string(n) + (mine ? " aborted " : " other ") + errorCodeToStr(s.err) + " " + std::to_string(took / 100));
    }
    px = nullptr;
    x.destroy();
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C26";
  c.rule = "An abort of the sender, of the receiver or of both at every scheduling and I/O point of each transfer configuration, by an external abort checker by a call of abort() in another thread and by destroying the object (with the schedules that follow up to the bound), and at a grid of times while the network stalls, the peer is silent or absent.";
  c.assumptions = {"Prompt means within the abort check interval (100 ms) and 200 ms of sleeps and last writes, in virtual time."};
  static std::vector<Abort> as;
  auto add = [&](string name, Cfg cfg, How how, FaultSet f, bool sched, int q, int d) -> Abort& {
    Abort a;
    a.name = name;
    a.cfg = cfg;
    a.how = how;
    a.faults = f;
    a.sched = sched;
    a.quick = upTo(q);
    a.deep = upTo(d);
    as.push_back(a);
    return as.back();
  };
  as.reserve(64);
  const std::vector<int64_t> grid{0, 1, 50, 150, 500, 1000, 1100, 2500, 5000};
  add("one", cfg1s(), CHECKER, NOFAULT, false, 1, 2);
  add("two", cfg2(), CHECKER, NOFAULT, true, 1, 2);
  add("three", cfg3(), CHECKER, NOFAULT, true, 1, 2);
  add("blocks", cfgBlocks(), CHECKER, NOFAULT, true, 1, 2);
  add("checksum", with(cfg2(), checksum()), CHECKER, NOFAULT, false, 1, 2);
  add("gcm", with(cfg2(), gcm(1000)), CHECKER, NOFAULT, false, 1, 2);
  add("phases", with(cfg2(), twoPhases()), CHECKER, NOFAULT, false, 1, 2);
  add("resume", with(cfg2(), [](WdtOptions& o) { o.enable_download_resumption = true; o.overwrite = false; }), CHECKER, NOFAULT, false, 1, 2);
  add("progress", with(cfg2(), progress()), CHECKER, NOFAULT, false, 1, 2);
  add("call-one", cfg1s(), CALL, NOFAULT, true, 1, 2);
  add("call-two", cfg2(), CALL, NOFAULT, true, 1, 2);
  {
    Cfg many = with(cfg1s(), [](WdtOptions& o) { o.read_timeout_millis = 1000; });
    many.files.clear();
    for (int d = 0; d < 30; ++d)
      for (int f = 0; f < 4; ++f) many.files.push_back({"d" + std::to_string(d) + "/f" + std::to_string(f), f});
    Abort& m = add("many", many, CHECKER, NOFAULT, false, 1, 1);
    m.fsPoints = true;
    m.who = {SENDER, RECEIVER};
    Cfg big = cfg1s();
    big.files = {{"big", 1000000}};
    Abort& l = add("large", big, CHECKER, NOFAULT, false, 1, 1);
    l.fsPoints = true;
    l.who = {SENDER, RECEIVER};
  }
  add("destroy-one", cfg1s(), DESTROY, NOFAULT, true, 1, 2).who = {SENDER, RECEIVER};
  add("destroy-two", cfg2(), DESTROY, NOFAULT, true, 1, 2).who = {SENDER, RECEIVER};
  add("faults", cfg1s(), CHECKER, BREAK, false, 2, 3).budget = 2;
  add("faults-two", cfg2(), CHECKER, BREAK, false, 1, 2);
  {
    Abort& a = add("stalls", cfg2(), CHECKER, BREAK, false, 1, 2);
    a.times = grid;
    Abort& w = add("waiting", with(cfg2(), [](WdtOptions& o) { o.read_timeout_millis = 10000; o.write_timeout_millis = 10000; }), CHECKER, BREAK, false, 1, 2);
    w.times = grid;
    Abort& g = add("stalls-gcm", with(cfg1s(), gcm(1000)), CHECKER, BREAK, false, 1, 2);
    g.times = grid;
    Abort& t = add("throttled", with(cfg1s(), [](WdtOptions& o) { o.avg_mbytes_per_sec = 0.05; o.max_mbytes_per_sec = 0.05; o.throttler_bucket_limit = 0.005; }), CHECKER, NOFAULT, false, 1, 1);
    t.cfg.files = {{"big", 300000}};
    t.times = {0, 1, 200, 500, 1700, 2000, 4000, 5500, 8000};
    t.slack = 350;   // the throttler waits for the bytes of one buffer (16 KB) without interruption
    Abort& p = add("ports", cfg3(), CHECKER, PORTDEAD, false, 1, 2);
    p.times = grid;
  }
  for (int lone = 1; lone <= 4; ++lone) {
    Cfg cfg = lone == 1 ? cfg2() : lone == 2 ? with(cfg1s(), [](WdtOptions& o) { o.max_retries = 200; }) : cfg1s();
    Abort& a = add("lone-" + std::to_string(lone), cfg, CHECKER, NOFAULT, false, 1, 1);
    a.lone = lone;
    a.times = grid;
    a.who = {lone == 1 || lone == 4 ? RECEIVER : SENDER};
    Abort& b = add("lone-at-" + std::to_string(lone), cfg, CHECKER, NOFAULT, false, 1, 1);
    b.lone = lone;
    b.who = a.who;
  }
  c.setup = [] {
    for (auto& a : as) {
      shareSource(a.cfg, "src-" + a.name);
      for (auto& f : a.cfg.files) content(a.cfg, f);
    }
  };
  for (auto& a : as) {
    Scenario s;
    s.name = a.name;
    s.body = [&a] { body(a); };
    s.forked = true;
    s.budget = a.budget;
    s.quick = a.quick;
    s.deep = a.deep;
    c.scenarios.push_back(s);
  }
  c.quickBudget = 100;
  return runCheck(c, argc, argv);
}
