// C31: the embedding interface gives back what a transfer took
#include <wdt/Wdt.h>
#include <wdt/WdtResourceController.h>
#include "e2e.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;

struct Checker : IAbortChecker {
  std::function<bool()> f;
  bool shouldAbort() const override { return f && f(); }
};
static const std::vector<e2e::FileSpec> kFiles{{"a", 20000}, {"d/b", 0}, {"c", 700}};
static e2e::Cfg g_src;
enum Recv { R_GOOD, R_NONE, R_NODIR, R_BUSY, R_HALF, R_BADREQ, R_LOCKED, NRECV };
enum Send { S_GOOD, S_NONE, S_NOHOST, S_NODIR, S_MISSING, S_ABORT, S_LATEABORT, S_ID, S_BADREQ, S_UNREADABLE, NSEND };

struct App {
  Wdt* w;
  WdtResourceController* c;
  int round = 0;
  App(int limit) {
    e2e::init();
    w = &Wdt::initializeWdt("app");
    auto& o = w->getWdtOptions();
    e2e::defaults(o);
    o.namespace_sender_limit = o.namespace_receiver_limit = limit;
    c = w->getWdtResourceController();
    c->updateMaxSendersLimit(limit);
    c->updateMaxReceiversLimit(limit);
  }
  void nothingLeft(const string& h) {
    int32_t n, s, r;
    c->getCounts(n, s, r);
    VMC_CHECK(s == 0 && r == 0, "left", "%s: %d senders and %d receivers are still registered", h.c_str(), s, r);
    VMC_CHECK(c->hasSenderQuota("n") && c->hasReceiverQuota("n"), "quota", "%s: no quota is left", h.c_str());
    VMC_CHECK(!c->getReceiver("n", "id") && c->getAllSenders("n").empty(), "found", "%s: an ended transfer can be found", h.c_str());
    VMC_CHECK(net::openSockets() == 0, "sockets", "%s: %d sockets are open", h.c_str(), net::openSockets());
  }
  /// how often one port is tried before it is given up
  int bindsPerPort() {
    int n = 0;
    net::opt.bindFault = [&](int) { ++n; return EADDRINUSE; };
    {
      WdtTransferRequest q(0, 1, scratch() + "/probe");
      q.hostName = "localhost";
      Receiver r(q);
      r.setWdtOptions(w->getWdtOptions());
      VMC_CHECK(r.init().errorCode != OK, "busy", "initialized without a port");
    }
    net::opt.bindFault = nullptr;
    return n;
  }
  /// one receiving and one sending call
  string step(int rv, int sv, int ports) {
    string dst = scratch() + "/dst" + std::to_string(round++);
    auto& o = w->getWdtOptions();
    o.enable_download_resumption = rv == R_LOCKED;
    WdtTransferRequest req(0, ports, rv == R_NODIR ? "" : dst);
    req.hostName = "localhost";
    req.transferId = "t" + std::to_string(round);
    if (rv == R_BADREQ) req.errorCode = URI_PARSE_ERROR;
    int busy = rv == R_BUSY ? 1000 : rv == R_HALF ? bindsPerPort() : 0;
    net::opt.bindFault = [&](int) { return busy-- > 0 ? EADDRINUSE : 0; };
    std::unique_ptr<Receiver> other;
    if (rv == R_LOCKED) {
      WdtTransferRequest q(0, 1, dst);
      q.hostName = "localhost";
      other = std::make_unique<Receiver>(q);
      other->setWdtOptions(o);
      VMC_CHECK(other->init().errorCode == OK, "other", "cannot set the scene");
    }
    ErrorCode rc = OK, fc = OK, sc = OK;
    bool up = false;
    int64_t before = fib::now();
    if (rv != R_NONE) {
      rc = w->wdtReceiveStart("n", req, "id");
      up = rc == OK;
      VMC_CHECK(rc == req.errorCode, "code", "wdtReceiveStart returned %s, the request says %s", errorCodeToStr(rc).c_str(), errorCodeToStr(req.errorCode).c_str());
      VMC_CHECK(up == (rv == R_GOOD), "start", "receiver case %d: %s", rv, errorCodeToStr(rc).c_str());
      if (up) VMC_CHECK(c->getReceiver("n", "id") != nullptr, "running", "the running receiver is not registered");
    }
    net::opt.bindFault = nullptr;
    note("receiver start: %s", errorCodeToStr(rc).c_str());
    if (sv != S_NONE) {
      WdtTransferRequest s(0, ports, g_src.src);
      s.hostName = "localhost";
      s.wdtNamespace = "n";
      s.transferId = req.transferId;
      s.protocolVersion = req.protocolVersion;
      if (up) {
        s = WdtTransferRequest(req.genWdtUrlWithSecret());
        VMC_CHECK(s.errorCode == OK, "url", "generated URL rejected");
        s.directory = g_src.src;
        s.wdtNamespace = "n";
      } else {
        s.ports = {11, 12};
        s.ports.resize(ports);
      }
      if (sv == S_NOHOST) s.hostName = "";
      if (sv == S_NODIR) s.directory = "";
      if (sv == S_MISSING) s.directory = scratch() + "/missing";
      if (sv == S_ID) s.transferId = "other";
      if (sv == S_BADREQ) s.errorCode = URI_PARSE_ERROR;
      if (sv == S_UNREADABLE) { s.disableDirectoryTraversal = true; s.fileInfo = {WdtFileInfo("nofile", 10, false)}; }
      auto ab = std::make_shared<Checker>();
      bool seen = false;
      ab->f = [&] {
        seen = true;
        VMC_CHECK(c->getSender("n", Wdt::getSenderIdentifier(s)) != nullptr, "running", "the running sender is not registered");
        return sv == S_ABORT || (sv == S_LATEABORT && fib::now() > before + 2 * fib::MS);
      };
      fib::setGroup(1);
      sc = w->wdtSend(s, ab);
      fib::setGroup(0);
      int left = fib::liveIn(1);
      VMC_CHECK(left == 0, "blocking", "wdtSend returned while %d of its threads run", left);
      note("send: %s", errorCodeToStr(sc).c_str());
      VMC_CHECK(!c->getSender("n", Wdt::getSenderIdentifier(s)), "left", "receiver case %d, sender case %d: the sender is registered after it returned %s", rv, sv, errorCodeToStr(sc).c_str());
      e2e::Cfg cc = g_src;
      cc.dst = dst;
      bool same = up && e2e::compareDst(cc).empty();
      if (sc == OK && sv != S_MISSING && sv != S_UNREADABLE) VMC_CHECK(same, "copy", "wdtSend returned OK without a copy");
      if (net::stats.faults == 0 && up && sv == S_GOOD) VMC_CHECK(sc == OK, "send", "%s", errorCodeToStr(sc).c_str());
      if (!up || sv == S_NOHOST || sv == S_NODIR || sv == S_BADREQ || sv == S_ID || sv == S_UNREADABLE) VMC_CHECK(sc != OK, "send", "receiver case %d, sender case %d reported OK", rv, sv);
    }
    if (up) {
      fc = w->wdtReceiveFinish("n", "id");
      note("receiver finish: %s", errorCodeToStr(fc).c_str());
      if (sv == S_GOOD && sc == OK && net::stats.faults == 0) VMC_CHECK(fc == OK, "finish", "%s", errorCodeToStr(fc).c_str());
    } else {
      VMC_CHECK(w->wdtReceiveFinish("n", "id") == NOT_FOUND, "left", "receiver case %d: a receiver that could not start (%s) is registered", rv, errorCodeToStr(rc).c_str());
    }
    other.reset();
    return std::to_string(rv) + std::to_string(sv) + ":" + std::to_string(rc) + "," + std::to_string(sc) + "," + std::to_string(fc) + " ";
  }
};
static void setFaults() {
  net::opt = net::Options();
  net::opt.onRead = {net::RESET, net::STALL};
  net::opt.onWrite = {net::RESET, net::STALL, net::SHORT1};
  net::opt.onConnect = {net::REFUSE, net::TIMEOUT, net::KILLPORT};
  net::opt.stall = 5 * fib::SEC;
}
static void sequences(int len, bool faults) {
  fib::opt = fib::Options();
  if (faults) setFaults();
  int ports = len > 1 ? 1 + choose(2, INPUT, "ports") : 1;
  fib::run([&] {
    App a(1);
    string h;
    for (int i = 0; i < len; ++i) {
      int rv = choose(NRECV, INPUT, "receiver"), sv = choose(NSEND, INPUT, "sender");
      if (rv == R_NONE && sv == S_NONE) prune("nothing");
      if (ports == 1 && rv == R_HALF) prune("same as busy");
      h += a.step(rv, sv, ports);
      a.nothingLeft(h);
    }
    net::opt = net::Options();
    net::stats.faults = 0;
    string last = a.step(R_GOOD, S_GOOD, ports);
    a.nothingLeft(h + last);
    Wdt::releaseWdt("app");
    outcome(h);
  });
}
/// a second send to the same destination, with or without stopping the first
static void twoSends() {
  fib::opt = fib::Options();
  bool terminate = flip(INPUT, "terminate");
  int late = choose(4, INPUT, "late");  // when the second begins
  int same = choose(2, INPUT, "same id");
  fib::run([&] {
    App a(2);
    Wdt& w = *a.w;
    WdtTransferRequest req[2];
    for (int i = 0; i < 2; ++i) {
      req[i] = WdtTransferRequest(0, 1, scratch() + "/two" + std::to_string(i));
      req[i].hostName = "localhost";
      req[i].transferId = "t" + std::to_string(same ? 0 : i);
      VMC_CHECK(w.wdtReceiveStart("n", req[i], "r" + std::to_string(i)) == OK, "start", "receiver %d", i);
    }
    ErrorCode code[2] = {OK, OK};
    bool done[2] = {false, false};
    std::vector<std::thread> ts;
    for (int i = 0; i < 2; ++i)
      ts.emplace_back([&, i] {
        if (i) std::this_thread::sleep_for(std::chrono::microseconds(late * 3));
        WdtTransferRequest s(req[i].genWdtUrlWithSecret());
        s.directory = g_src.src;
        s.wdtNamespace = "n";
        auto ab = std::make_shared<Checker>();
        auto running = std::make_shared<bool>(true);
        ab->f = [&, i] {
          // the transfer that replaced the other one is registered while it runs
          if (i == 1) VMC_CHECK(a.c->getSender("n", "localhost") != nullptr, "running", "the running sender is not registered");
          return false;
        };
        code[i] = w.wdtSend(s, ab, terminate && i == 1);
        note("send %d: %s", i, errorCodeToStr(code[i]).c_str());
        done[i] = true;
      });
    for (auto& t : ts) t.join();
    for (int i = 0; i < 2; ++i) {
      ErrorCode f = w.wdtReceiveFinish("n", "r" + std::to_string(i));
      e2e::Cfg cc = g_src;
      cc.dst = scratch() + "/two" + std::to_string(i);
      if (code[i] == OK) VMC_CHECK(f == OK && e2e::compareDst(cc).empty(), "copy", "send %d reported OK", i);
    }
    if (terminate && !same) VMC_CHECK(code[1] == OK || code[0] == OK, "both", "both sends failed: %s %s", errorCodeToStr(code[0]).c_str(), errorCodeToStr(code[1]).c_str());
    a.nothingLeft("two sends " + errorCodeToStr(code[0]) + " " + errorCodeToStr(code[1]));
    a.step(R_GOOD, S_GOOD, 1);
    a.nothingLeft("afterwards");
    Wdt::releaseWdt("app");
    outcome(std::to_string(code[0]) + "," + std::to_string(code[1]));
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C31";
  c.rule = "Every sequence of receiving and sending calls up to the stated length, each of seven receiver and ten sender situations (good, missing, invalid, ports taken, log locked, aborted early or late, ...), followed by a transfer that needs the whole quota of one; network faults and thread switches within the bounds; two sends to one destination with and without replacement.";
  c.assumptions = {"The limits are one transfer per side (two for the concurrent sends)."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    s.forked = true;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  g_src.files = kFiles;
  c.setup = [] { e2e::shareSource(g_src, "src"); for (auto& f : g_src.files) e2e::content(g_src, f); };
  add("one", [] { sequences(1, false); }, {Bounds(0), Bounds(1)}, {Bounds(1), Bounds(2)});
  add("one-faults", [] { sequences(1, true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(1), Bounds(2).set(SCHED, 1)});
  add("two", [] { sequences(2, false); }, {Bounds(0)}, {Bounds(0), Bounds(1)}, 2);
  add("three", [] { sequences(3, false); }, {Bounds(0)}, {Bounds(0)}, 1, true);
  add("two-sends", twoSends, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)});
  return runCheck(c, argc, argv);
}
