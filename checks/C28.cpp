// C28: sessions never mix.  Foreign connections against a receiver with a
// rightful transfer, and histories of sessions of a long-running receiver.
#include <wdt/Protocol.h>
#include "e2ecases.h"
#include "peer.h"
using namespace vmc;
using namespace e2e;
using std::string;
using wire::Blk;

static const int V = Protocol::protocol_version;
static const string EVIL = fs::pattern(200, 99);
/// a complete little transfer in the name of another transfer
static peer::Script foreign(const string& id, int flags, int v) {
  Blk b;
  b.name = "foreign";
  b.seq = 1;
  b.data = b.size = EVIL.size();
  string h = wire::header(v, b);
  string set = "S" + wire::settings(v, 1000, 1000, id, flags);
  string rest = "L" + string(1, 0) + wire::fix(h.size() + 4, 2) + h + EVIL + peer::pad("D" + string(1, 0) + wire::done(v, 1, EVIL.size()));
  if (flags & 2) return {{peer::pad(set), false}, {"a", true}, {rest, true}, {"D", true}};
  return {{set + rest, false}, {"D", true}};
}
static const std::vector<string> ids{"other", "", "id", "id1x", "ID1", "id1 ", string("id1\0", 4), string(200, 'i')};

static Cfg g_cfg, g_two;
static void prepare() {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  net::opt = net::Options();
}
static bool hasForeign(const string& dir) {
  for (auto& f : fs::snapshot(path(dir)))
    if (f.first == "foreign" || f.second.find(EVIL.substr(0, 50)) != string::npos) return true;
  return false;
}
enum When { BEFORE, DURING, AFTER };
/// the rightful transfer and a foreign connection
static void foreignConnection(Cfg cfg, When when, bool log, bool allPorts) {
  prepare();
  fib::opt.schedPoints = when == DURING;
  bool few = when == DURING && cfg.ports > 1;
  string id = pick(few ? std::vector<string>{"other", "id1x"} : ids, "id");
  int flags = few ? 2 * choose(2, INPUT, "flags") : choose(4, INPUT, "flags");
  int v = choose(2, INPUT, "version") ? 20 : V;
  if (v == 20 && (flags & 2)) prune("not supported");
  int first = allPorts ? 0 : choose(cfg.ports, INPUT, "port");
  if (log) cfg.both = with(cfg, [](WdtOptions& o) { o.enable_download_resumption = true; o.overwrite = false; }).both;
  fs::Tree before;
  if (log) before[".wdt.log"] = wire::logHeader(1, "rec", "127.0.0.1", 1);  // something to disclose or damage
  fib::run([&] {
    Xfer x(cfg);
    if (!x.startReceiver()) return;
    auto ports = x.receiver->getTransferRequest().ports;
    string got;
    auto intrude = [&] {
      fib::setGroup(3);
      for (int p = first; p < (allPorts ? cfg.ports : first + 1); ++p) {
        int fd = peer::dial(ports[p]);
        if (fd >= 0) got += peer::play(fd, foreign(id, flags, v), peer::FIN, 500, 3000);
      }
      fib::setGroup(0);
    };
    std::thread t;
    if (when == BEFORE) {
      intrude();
      VMC_CHECK(!hasForeign(cfg.dst), "foreign-data", "data of transfer '%s' was stored", id.c_str());
    }
    if (when == DURING) t = std::thread(intrude);
    if (x.startSenderAsync()) x.finishSender();
    if (when == DURING) t.join();
    if (when == AFTER) intrude();
    x.finishReceiver();
    VMC_CHECK(!hasForeign(cfg.dst), "foreign-data", "data of transfer '%s' was stored", id.c_str());
    for (char ch : got)
      if (v == V && !(flags & 2)) VMC_CHECK(got[0] == 'A' || got[0] == '\x01', "not-refused", "the foreign connection got %s", wire::hex(got).c_str());
      else if (ch == 'C') VMC_CHECK(got[0] != 'C', "disclosed", "the foreign connection got the stored chunks");
    string d = compareDst(cfg);
    VMC_CHECK(!x.S.ok() || d.empty(), "copy", "the sender reports success, but %s", d.c_str());
    VMC_CHECK(!x.R.ok() || d.empty(), "copy", "the receiver reports success, but %s", d.c_str());
    bool expected = when == AFTER || (!allPorts && cfg.ports > 1);
    if (expected) VMC_CHECK(x.S.ok() && d.empty(), "disturbed", "the rightful transfer ended with %s (foreign id '%s'); %s", x.codes().c_str(), id.c_str(), d.c_str());
    outcome(x.codes());
    x.destroy();
  });
}
/// a real sender of another transfer
static void foreignSender(Cfg cfg) {
  prepare();
  string id = pick(ids, "id");
  fib::run([&] {
    Xfer x(cfg);
    if (!x.startReceiver()) return;
    x.onSenderReq = [&](WdtTransferRequest& r) { r.transferId = id; };
    if (x.startSenderAsync()) x.finishSender();
    x.finishReceiver();
    VMC_CHECK(!x.S.ok() && !x.R.ok(), "not-refused", "a sender of transfer '%s' is served: %s", id.c_str(), x.codes().c_str());
    auto t = fs::snapshot(path(cfg.dst));
    VMC_CHECK(t.empty(), "foreign-data", "stored: %s", fs::describe(t).c_str());
    outcome(x.codes());
    x.destroy();
  });
}

// ------------------------------------------------------- long-running receiver
enum Kind { PLAIN, CHECKSUM, HEARTBEAT, OLD, OLDER, SMALL, UNENCRYPTED, MISSING, ABORTED, NREAL, FOREIGN, GARBAGE, IDLE };
static const char* kindName[] = {"plain", "checksum", "heartbeat", "old", "older", "small", "unencrypted", "missing", "aborted", "", "foreign", "garbage", "idle"};
struct Result {
  string text;
  bool ok = false;
  int dead = 0;  // ports
};
struct Peek : Receiver {
  using Receiver::Receiver;
  using Receiver::getTransferReport;
};
struct Session {
  Cfg cfg;
  string url;
  std::vector<int32_t> ports;
  Peek* r = nullptr;
  uint64_t lastBlocks = 0;
  int64_t lastBytes = 0;
};
static bool real(Kind k) { return k < NREAL; }
static Result runSession(Session& s, Kind k, const string& dst) {
  Result res;
  net::Stats st0 = net::stats;
  if (!real(k)) {
    fib::setGroup(3);
    int fd = peer::dial(s.ports[0]);
    peer::Script sc;
    if (k == FOREIGN) sc = foreign("other", 0, V);
    if (k == GARBAGE) sc = {{string(600, '\xee'), false}};
    if (k == IDLE) sc = {{"", true}};
    if (fd >= 0) peer::play(fd, sc, peer::FIN, 100, 100);
    fib::setGroup(0);
    return res;
  }
  Cfg c = s.cfg;
  if (k == SMALL) c.files = {{"d/b", 1200}};
  c.sopt = [&](WdtOptions& o) {
    o.overwrite = true;
    if (k == CHECKSUM) o.enable_checksum = true;
    o.enable_heart_beat = k == HEARTBEAT;
    if (k == SMALL) o.delete_extra_files = false;
  };
  if (k == OLD) c.sProto = 26;
  if (k == OLDER) c.sProto = 20;
  Xfer x(c);
  x.url = s.url;
  if (k == UNENCRYPTED) x.onSenderReq = [&](WdtTransferRequest& r) { r.encryptionData.erase(); };
  if (k == SMALL || k == MISSING)
    x.onSenderReq = [&](WdtTransferRequest& r) {
      r.fileInfo = {WdtFileInfo("d/b", -1, false)};
      if (k == MISSING) r.fileInfo = {WdtFileInfo("a", 40000 + 30000, false), WdtFileInfo("d/b", -1, false)};  // larger than it is
      r.disableDirectoryTraversal = true;
    };
  if (!x.startSenderAsync()) {
    res.text = "not started";
    return res;
  }
  if (k == ABORTED) {
    std::this_thread::sleep_for(std::chrono::milliseconds(choose(3, INPUT, "abort-at")));
    x.sender->abort(ABORTED_BY_APPLICATION);
  }
  x.finishSender();
  res.ok = x.S.ok();
  res.dead = net::deadPorts();
  auto& sum = x.S.report->getSummary();
  char b[300];
  snprintf(b, sizeof b, "%s local %s remote %s blocks %ld bytes %ld version %d connections %ld, receiver saw blocks %lu bytes %ld", errorCodeToStr(x.S.err).c_str(), errorCodeToStr(x.S.localErr).c_str(),
           errorCodeToStr(x.S.remoteErr).c_str(), (long)sum.getNumBlocks(), (long)sum.getEffectiveDataBytes(), x.sender->getProtocolVersion(), (long)(net::stats.conns - st0.conns), s.lastBlocks, s.lastBytes);
  res.text = b;
  if (res.ok) {
    string d = compare(c, fs::snapshot(path(dst)));
    VMC_CHECK(d.empty(), "copy", "session %s reports success, but %s", kindName[k], d.c_str());
  }
  fib::setGroup(1);
  x.sender.reset();
  fib::setGroup(0);
  return res;
}
struct History {
  Cfg cfg;
  std::vector<Kind> first, second;
  int depth = 2;         // sessions
  int faults = 0;        // 1: network faults during the first session, 2: simple ones during both, 3: ports cut off during both
  bool retries = false;  // gives up accepting now and then
  bool early = false;    // the second session may start at once
};
/// runs the sessions; the last result is returned
static std::vector<Result> history(const History& h, const std::vector<Kind>& ks, const char* dst) {
  std::vector<Result> rs;
  Cfg c = h.cfg;
  c.dst = dst;
  c.ropt = [&](WdtOptions& o) {
    o.overwrite = true;
    o.max_accept_retries = h.retries ? 3 : 0;
  };
  fib::run([&] {
    fib::setGroup(2);
    WdtTransferRequest req(0, c.ports, path(c.dst));
    req.hostName = "localhost";
    req.transferId = "id1";
    auto receiver = std::make_unique<Peek>(req);
    WdtOptions o;
    Xfer tmp(c);
    tmp.options(o, false);
    receiver->setWdtOptions(o);
    const WdtTransferRequest& out = receiver->init();
    VMC_CHECK(out.errorCode == OK, "init", "receiver init failed");
    Session s;
    s.cfg = c;
    s.url = out.genWdtUrlWithSecret();
    s.ports = out.ports;
    s.r = receiver.get();
    net::opt.tap = [&](int, int, int dir, string& data) {
      if (dir == 1 && data == "D") {  // the receiver acknowledges the transfer
        auto rep = s.r->getTransferReport();
        s.lastBlocks = rep->getSummary().getNumBlocks();
        s.lastBytes = rep->getSummary().getEffectiveDataBytes();
      }
    };
    std::thread loop([&] { s.r->runForever(); });
    fib::setGroup(0);
    auto faulty = net::opt;
    for (size_t i = 0; i < ks.size(); ++i) {
      s.lastBlocks = s.lastBytes = 0;
      if (i > 0 && h.faults < 2) {  // faults in the first session only
        auto tap = net::opt.tap;
        net::opt = net::Options();
        net::opt.tap = tap;
      }
      rs.push_back(runSession(s, ks[i], dst));
      note("session %d %s: %s", (int)i, kindName[ks[i]], rs.back().text.c_str());
      if (h.faults == 3) {  // ports recover between the sessions
        std::this_thread::sleep_for(std::chrono::seconds(30));
        net::revivePorts();
      }
      bool early = h.early && i == 0 && ks.size() > 1;
      if (!early) std::this_thread::sleep_for(std::chrono::seconds(30));
      else if (h.retries) std::this_thread::sleep_for(std::chrono::milliseconds(25 * choose(45, INPUT, "pause")));
      else std::this_thread::sleep_for(std::chrono::milliseconds(std::vector<int>{0, 1, 100, 1500, 3000}[choose(5, INPUT, "pause")]));
      if (!early) {
        auto rep = s.r->getTransferReport();
        VMC_CHECK(rep->getSummary().getNumBlocks() == 0 && rep->getSummary().getEffectiveDataBytes() == 0, "stale-stats", "%s left statistics of %ld blocks", kindName[ks[i]], (long)rep->getSummary().getNumBlocks());
      }
    }
    fib::killFibers([](int id) { return fib::groupOf(id) == 2; });
    loop.detach();
    receiver.release();
  });
  return rs;
}
static void histories(const History& h) {
  prepare();
  fib::opt.schedPoints = false;
  std::vector<Kind> ks;
  for (int i = 0; i + 1 < h.depth; ++i) ks.push_back(pick(h.first, "session"));
  Kind last = pick(h.second, "last");
  ks.push_back(last);
  if (h.faults == 1) setFaults(ALLF);
  if (h.faults == 3) net::opt.onRead = net::opt.onWrite = {net::KILLPORT};
  if (h.faults == 2) {
    net::opt.onRead = net::opt.onWrite = {net::RESET, net::STALL};
    net::opt.stall = (h.cfg.ports > 1 ? 30 : 3) * fib::SEC;
  }
  auto rs = history(h, ks, "dst");
  Result r = rs.back();
  string names;
  for (auto k : ks) names += string(names.empty() ? "" : ", ") + kindName[k];
  if (real(last) && last != MISSING && last != ABORTED) {
    VMC_CHECK(r.ok || r.dead > 1, "session-failed", "sessions %s: the last one ended with %s", names.c_str(), r.text.c_str());
  }
  if (h.faults < 2 && real(last) && last != ABORTED) {
    prepare();  // and now the same with a fresh receiver
    fib::opt.schedPoints = false;
    string fresh = history(h, {last}, "fresh").back().text;
    VMC_CHECK(fresh == r.text, "not-independent", "sessions %s: the last one ended with %s, alone with %s", names.c_str(), r.text.c_str(), fresh.c_str());
  }
  outcome(r.text);
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C28";
  c.rule = "A foreign connection (every listed identifier, flag and version) before, during (all schedules to the bound) and after the rightful transfer on every port; and all histories of sessions of a long-running receiver over the listed ways a session can go, with every placement of network faults in the first one: the last session must end exactly as it does with a fresh receiver.";
  c.assumptions = {"Sessions of the long-running receiver follow each other after the receiver is idle, unless stated otherwise (an early sender with the same identifier is indistinguishable from a reconnecting one).", "A foreign connection may cost the rightful transfer the port it uses."};
  auto add = [&](string name, std::function<void()> b, std::vector<Bounds> q, std::vector<Bounds> d, double budget = 1, bool thorough = false) {
    Scenario s;
    s.name = name;
    s.body = b;
    s.forked = true;
    s.budget = budget;
    s.thoroughOnly = thorough;
    s.quick = q;
    s.deep = d;
    c.scenarios.push_back(s);
  };
  static History h1, h2, h3, h4, hm, hf, hfb, hf2, hfp, hr, he, her;
  auto build = [] {
    g_cfg = cfg1s();
    g_two = cfg2();
    h1.cfg = cfg1s();
    h1.cfg.files = {{"a", 40000}, {"d/b", 1200}};
    h1.first = h1.second = {PLAIN, CHECKSUM, HEARTBEAT, OLD, OLDER, SMALL, FOREIGN, GARBAGE, IDLE, ABORTED};
    h1.second = {PLAIN, CHECKSUM, HEARTBEAT, OLD, OLDER, SMALL};
    h2 = h1;
    h2.cfg.ports = 2;
    h3 = h1;
    h3.depth = 3;
    hf = h1;
    hf.first = {PLAIN, CHECKSUM, OLD};
    hf.second = {PLAIN, CHECKSUM};
    hf.faults = 1;
    hfb = hf;
    hfb.faults = 2;
    hfb.first = hfb.second = {PLAIN};
    hf2 = hfb;
    hf2.cfg.ports = 2;
    hfp = hf2;
    hfp.faults = 3;
    hm = h1;
    hm.first = {MISSING};
    h4 = h1;
    h4.cfg = with(h1.cfg, gcm(100000));
    h4.cfg = with(h4.cfg, [](WdtOptions& o) { o.iv_change_interval_mb = 1; o.buffer_size = 256 * 1024; });
    h4.cfg.files = {{"a", 1300000}, {"d/b", 1200}};
    h4.first = {PLAIN, OLD, OLDER, UNENCRYPTED, GARBAGE, IDLE, ABORTED};
    h4.second = {PLAIN, OLD, OLDER, UNENCRYPTED};
    hr = h2;
    hr.retries = true;
    he = h1;
    he.early = true;
    he.depth = 3;
    her = hr;
    her.early = true;
    her.depth = 3;
    her.first = {PLAIN, SMALL, OLD, FOREIGN};
    her.second = {PLAIN, CHECKSUM};
  };
  build();
  c.setup = [] {
    for (Cfg* p : {&g_cfg, &g_two, &h1.cfg, &h4.cfg}) {
      shareSource(*p, "src" + std::to_string(p->ports) + std::to_string(p->files.size()) + std::to_string(p->files[0].size));
      for (auto& f : p->files) content(*p, f);
    }
    for (History* p : {&h2, &h3, &hm, &hf, &hfb, &hf2, &hfp, &hr, &he, &her}) p->cfg.src = h1.cfg.src;
  };
  auto one = [](int n) { return upTo(n); };
  add("before", [] { foreignConnection(g_cfg, BEFORE, false, true); }, one(0), one(0));
  add("before-2", [] { foreignConnection(g_two, BEFORE, false, false); }, one(0), one(0));
  add("before-log", [] { foreignConnection(g_two, BEFORE, true, false); }, one(0), one(0));
  add("before-all", [] { foreignConnection(g_two, BEFORE, false, true); }, one(0), one(0));
  add("after", [] { foreignConnection(g_two, AFTER, false, false); }, one(0), one(0));
  add("during", [] { foreignConnection(g_cfg, DURING, false, true); }, one(1), one(2), 2);
  add("during-2", [] { foreignConnection(g_two, DURING, false, false); }, one(1), one(2), 3);
  add("during-log", [] { foreignConnection(g_two, DURING, true, false); }, one(1), one(2), 2);
  add("foreign-sender", [] { foreignSender(g_cfg); }, one(0), one(1));
  add("foreign-sender-2", [] { foreignSender(g_two); }, one(0), one(1));
  add("sessions", [] { histories(h1); }, one(0), one(0));
  add("sessions-2", [] { histories(h2); }, one(0), one(0));
  add("sessions-retries", [] { histories(hr); }, one(0), one(0));
  add("sessions-missing", [] { histories(hm); }, one(0), one(0));
  add("sessions-encrypted", [] { histories(h4); }, one(0), one(0));
  add("sessions-3", [] { histories(h3); }, one(0), one(0), 4);
  add("sessions-early", [] { histories(he); }, one(0), one(0), 2);
  add("sessions-early-retries", [] { histories(her); }, one(0), one(0), 2);
  add("sessions-faults", [] { histories(hf); }, one(1), one(2), 4);
  add("sessions-faults-both", [] { histories(hfb); }, one(2), one(3), 4);
  add("sessions-faults-2", [] { histories(hf2); }, one(2), one(2), 4);
  add("sessions-ports", [] { histories(hfp); }, one(2), one(3), 4);
  c.quickBudget = 100;
  return runCheck(c, argc, argv);
}
