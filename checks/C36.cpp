// C36: every option has its documented effect on a real transfer, and no
// combination of options breaks one.  The system calls, the bytes and the
// (virtual) times of whole transfers are observed.
#include <wdt/AbortChecker.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <wdt/util/TransferLogManager.h>
#include <array>
#include <cmath>
#include <set>
#include "e2ecases.h"
#include "peer.h"
using namespace vmc;
using namespace e2e;
using std::string;

static const int64_t MS = fib::MS;
enum { SENDER = 1, RECEIVER = 2 };
struct SysRec { net::Options::Sys s; int group; int64_t at; };
struct FsRec { fs::Op op; int group; int64_t at; };
struct Tap { int port, conn, dir; size_t n; int64_t at; };
/// everything seen during one execution
struct Obs {
  std::vector<SysRec> sys;
  std::vector<FsRec> ops;
  std::vector<Tap> taps;
  std::map<int, int> advised;  // by group
  string back;                 // bytes of the receiver
  std::set<string> opened;     // source files open now
  size_t maxOpened = 0, openedFirst = 0;
  bool sawRead = false;
  string srcRoot;
  int nSys(int group, const char* what, int a = -1, int b = -1) const {
    int n = 0;
    for (auto& r : sys) n += r.group == group && !strcmp(r.s.what, what) && (a < 0 || (r.s.a == a && r.s.b == b));
    return n;
  }
  int nOps(int group, fs::Kind k) const {
    int n = 0;
    for (auto& r : ops) n += r.group == group && r.op.kind == k;
    return n;
  }
  int64_t maxSize(int group, fs::Kind k) const {
    int64_t n = 0;
    for (auto& r : ops) if (r.group == group && r.op.kind == k) n = std::max<int64_t>(n, r.op.size);
    return n;
  }
};
static Obs obs;
static std::map<string, Cfg> cfgs;  // with shared sources
static Cfg& cfgOf(const string& n) { return cfgs.at(n); }

static void begin() {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 3600 * fib::SEC;
  fib::opt.schedPoints = false;
  net::opt = net::Options();
  obs = Obs();
  obs.srcRoot = shared();
  net::opt.onSys = [](const net::Options::Sys& s) { obs.sys.push_back({s, fib::group(), fib::now()}); };
  net::opt.tap = [](int port, int conn, int dir, string& data) {
    obs.taps.push_back({port, conn, dir, data.size(), fib::now()});
    if (dir == 1) obs.back += data;
  };
  fs::opt.root = shared().substr(0, shared().rfind('/'));
  fs::opt.hook = [](const fs::Op& op) {
    if (op.path.find(kWdtLogName) == string::npos) {
      obs.ops.push_back({op, fib::group(), fib::now()});
      if (op.kind == fs::PREAD && !obs.sawRead) {
        obs.sawRead = true;
        obs.openedFirst = obs.opened.size();
      }
      if (op.kind == fs::OPEN && fib::group() == SENDER) obs.opened.insert(op.path);
      if (op.kind == fs::CLOSE && fib::group() == SENDER) obs.opened.erase(op.path);
      obs.maxOpened = std::max(obs.maxOpened, obs.opened.size());
    }
    return fs::Act();
  };
  fs::opt.onAdvise = [](const string&, int64_t, int64_t) { ++obs.advised[fib::group()]; };
}
/// which side has the option: the effect must stay on that side
static int pickSide() { return choose(3, INPUT, "side") + 1; }
static bool on(int side, int who) { return side & who; }
static void apply(Cfg& c, int side, OptFn f) {
  auto s = c.sopt, r = c.ropt;
  if (on(side, SENDER)) c.sopt = [=](WdtOptions& o) { if (s) s(o); f(o); };
  if (on(side, RECEIVER)) c.ropt = [=](WdtOptions& o) { if (r) r(o); f(o); };
}
static const char* sideName(int side) { return side == 3 ? "both sides" : side == SENDER ? "the sender" : "the receiver"; }
/// runs a transfer that must succeed
static void good(Cfg& c, std::function<void(Xfer&)> prep = nullptr, std::function<void(Xfer&)> post = nullptr) {
  fib::run([&] {
    Xfer x(c);
    if (prep) prep(x);
    x.run();
    string d = compareDst(c);
    VMC_CHECK(x.S.ok() && x.R.ok() && d.empty(), "failed", "a transfer without faults ended with %s %s", x.codes().c_str(), d.c_str());
    if (post) post(x);
    x.destroy();
  });
}

struct Effect { string name; std::function<void()> body; };
static std::vector<Effect> effects;

// ------------------------------------------------------------------ sockets
static void dscp() {
  int v = pick(std::vector<int>{0, 1, 46, 63}, "dscp"), side = pickSide();
  int fam = choose(4, INPUT, "families");  // flags ipv4 and ipv6
  Cfg c = cfgOf("two");
  c.both = [=](WdtOptions& o) { o.ipv4 = fam & 1; o.ipv6 = fam & 2; };
  net::opt.v6 = fam != 0;
  apply(c, side, [=](WdtOptions& o) { o.dscp = v; });
  good(c);
  std::map<int, std::map<int, int64_t>> set;  // group -> descriptor -> value
  std::map<int, int> conns;
  for (auto& r : obs.sys) {
    if (strcmp(r.s.what, "setsockopt")) continue;
    bool tos = (r.s.a == IPPROTO_IP && r.s.b == IP_TOS && r.s.family == AF_INET) || (r.s.a == IPPROTO_IPV6 && r.s.b == IPV6_TCLASS && r.s.family == AF_INET6);
    if (tos) set[r.group][r.s.fd] = r.s.v;
    if (r.s.a == SOL_SOCKET && r.s.b == SO_RCVTIMEO) ++conns[r.group];
  }
  for (int g : {SENDER, RECEIVER}) {
    VMC_CHECK(conns[g] > 0, "connections", "no connections seen");
    bool want = v > 0 && on(side, g);
    VMC_CHECK((int)set[g].size() == (want ? conns[g] : 0), "dscp", "dscp %d on %s, ipv4 %d ipv6 %d: %s marks %zu of its %d connections", v, sideName(side), fam & 1, !!(fam & 2), sideName(g), set[g].size(), conns[g]);
    for (auto& s : set[g]) VMC_CHECK(s.second == v << 2, "dscp-value", "dscp %d: %s sets the byte to %ld", v, sideName(g), (long)s.second);
  }
}
static void buffers() {
  int sv = pick(std::vector<int>{0, -1, 1, 70000}, "send"), rv = pick(std::vector<int>{0, -1, 1, 80000}, "receive"), side = pickSide();
  Cfg c = cfgOf("two");
  apply(c, side, [=](WdtOptions& o) { o.send_buffer_size = sv; o.receive_buffer_size = rv; });
  good(c);
  std::set<int> listening, connecting, snd, rcv;
  for (auto& r : obs.sys) {
    if (!strcmp(r.s.what, "listen")) listening.insert(r.s.fd);
    if (!strcmp(r.s.what, "connect")) connecting.insert(r.s.fd);
    if (!strcmp(r.s.what, "setsockopt") && r.s.a == SOL_SOCKET && r.s.b == SO_SNDBUF) {
      VMC_CHECK(r.s.v == sv, "send-buffer", "send buffer %d set to %ld", sv, (long)r.s.v);
      VMC_CHECK(!connecting.count(r.s.fd), "send-buffer-late", "send buffer set after connecting");
      snd.insert(r.s.fd);
    }
    if (!strcmp(r.s.what, "setsockopt") && r.s.a == SOL_SOCKET && r.s.b == SO_RCVBUF) {
      VMC_CHECK(r.s.v == rv, "receive-buffer", "receive buffer %d set to %ld", rv, (long)r.s.v);
      VMC_CHECK(!listening.count(r.s.fd), "receive-buffer-late", "receive buffer set after listening");
      rcv.insert(r.s.fd);
    }
  }
  VMC_CHECK(snd == (sv > 0 && on(side, SENDER) ? connecting : std::set<int>()), "send-buffer", "send buffer %d on %s: set on %zu of %zu connections", sv, sideName(side), snd.size(), connecting.size());
  VMC_CHECK(rcv == (rv > 0 && on(side, RECEIVER) ? listening : std::set<int>()), "receive-buffer", "receive buffer %d on %s: set on %zu of %zu listening sockets", rv, sideName(side), rcv.size(), listening.size());
}
static void backlog() {
  int v = pick(std::vector<int>{1, 2, 17}, "backlog"), side = pickSide();
  Cfg c = cfgOf("two");
  apply(c, side, [=](WdtOptions& o) { o.backlog = v; });
  good(c);
  VMC_CHECK(obs.nSys(RECEIVER, "listen") >= 2, "listen", "%d listening sockets", obs.nSys(RECEIVER, "listen"));
  for (auto& r : obs.sys)
    if (!strcmp(r.s.what, "listen")) VMC_CHECK(r.s.v == (on(side, RECEIVER) ? v : 1), "backlog", "backlog %d on %s: %ld", v, sideName(side), (long)r.s.v);
}
static void families() {
  int sf = choose(4, INPUT, "sender"), rf = choose(4, INPUT, "receiver");
  bool host6 = flip(INPUT, "host-has-ipv6");
  net::opt.v6 = host6;
  auto fams = [&](int f) { return f & 1 ? std::set<int>{AF_INET} : f & 2 ? std::set<int>{AF_INET6} : host6 ? std::set<int>{AF_INET, AF_INET6} : std::set<int>{AF_INET}; };
  Cfg c = cfgOf("two");
  c.sopt = [=](WdtOptions& o) { o.ipv4 = sf & 1; o.ipv6 = sf & 2; };
  c.ropt = [=](WdtOptions& o) { o.ipv4 = rf & 1; o.ipv6 = rf & 2; };
  bool reach = false;
  for (int f : fams(sf)) reach |= fams(rf).count(f) > 0;
  fib::run([&] {
    Xfer x(c);
    x.run();
    string d = compareDst(c);
    VMC_CHECK(x.S.ok() == reach && (!reach || (x.R.ok() && d.empty())), "families", "sender ipv4 %d ipv6 %d, receiver ipv4 %d ipv6 %d: %s %s", sf & 1, sf >> 1, rf & 1, rf >> 1, x.codes().c_str(), d.c_str());
    x.destroy();
  });
  std::set<int> l, k;
  for (auto& r : obs.sys) {
    if (!strcmp(r.s.what, "listen")) l.insert(r.s.family);
    if (!strcmp(r.s.what, "connect")) {
      k.insert(r.s.family);
      VMC_CHECK(fams(sf).count(r.s.family), "family", "sender ipv4 %d ipv6 %d connects with family %d", sf & 1, sf >> 1, r.s.family);
    }
  }
  VMC_CHECK(l == fams(rf), "family-listen", "receiver ipv4 %d ipv6 %d listens on %zu families", rf & 1, rf >> 1, l.size());
}
static void ports() {
  bool fixed = flip(INPUT, "static_ports");
  int start = pick(std::vector<int>{22356, 30000}, "start_port"), n = 1 + choose(3, INPUT, "num_ports");
  int taken = choose(n + 1, INPUT, "taken") - 1;  // one port is in use elsewhere
  net::opt.bindFault = [=](int p) { return p && p == start + taken && taken >= 0 ? EADDRINUSE : 0; };
  Cfg c = cfgOf("two");
  c.ports = n;
  fib::run([&] {
    Xfer x(c);
    WdtOptions o;
    x.options(o, false);
    o.static_ports = fixed;
    o.start_port = start;
    o.num_ports = n;
    fib::setGroup(RECEIVER);
    WdtTransferRequest req(o.start_port, o.num_ports, path(c.dst));
    req.hostName = "localhost";
    req.transferId = c.transferId;
    x.receiver = std::make_unique<Receiver>(req);
    x.receiver->setWdtOptions(o);
    const WdtTransferRequest& out = x.receiver->init();
    std::vector<int> got(out.ports.begin(), out.ports.end()), want;
    string g;
    for (int p : got) g += " " + std::to_string(p);
    bool inUse = fixed && taken >= 0;
    if (fixed) {
      for (int i = 0; i < n; ++i) want.push_back(start + i);  // a port in use is tried again when the transfer starts
      if (n == 1 && inUse) {
        VMC_CHECK(out.errorCode != OK, "no-port", "all ports taken: %s, ports%s", errorCodeToStr(out.errorCode).c_str(), g.c_str());
      } else {
        VMC_CHECK(out.errorCode == (inUse ? FEWER_PORTS : OK), "ports-code", "%d static ports, %d of them taken: %s", n, (int)inUse, errorCodeToStr(out.errorCode).c_str());
        VMC_CHECK(got == want, "static-ports", "%d static ports from %d, taken %d: ports%s", n, start, taken, g.c_str());
      }
    } else {
      VMC_CHECK(out.errorCode == OK && (int)got.size() == n && std::set<int>(got.begin(), got.end()).size() == got.size(), "dynamic-ports", "%d dynamic ports: %s, ports%s", n, errorCodeToStr(out.errorCode).c_str(), g.c_str());
    }
    if (out.errorCode == OK || out.errorCode == FEWER_PORTS) {
      WdtTransferRequest copy = out;
      copy.errorCode = OK;
      x.url = copy.genWdtUrlWithSecret();
      VMC_CHECK(x.receiver->transferAsync() == OK, "start", "cannot start");
      fib::setGroup(0);
      x.startSenderAsync();
      x.finishSender();
      x.finishReceiver();
      string d = compareDst(c);
      VMC_CHECK(x.S.ok() && d.empty(), "failed", "transfer to ports%s: %s %s", g.c_str(), x.codes().c_str(), d.c_str());
    }
    x.destroy();
  });
}

// -------------------------------------------------------- retries and times
static void connects() {
  int retries = pick(std::vector<int>{1, 2, 5}, "max_retries"), pause = pick(std::vector<int>{0, 20, 300}, "sleep_millis"), tmo = pick(std::vector<int>{100, 500, 2000}, "connect_timeout");
  int abortInt = pick(std::vector<int>{0, 100, 700}, "abort_check_interval");
  bool silent = flip(INPUT, "silent");  // the connection is never answered, or is refused at once
  Cfg c = cfgOf("two");
  c.sopt = [=](WdtOptions& o) { o.max_retries = retries; o.sleep_millis = pause; o.connect_timeout_millis = tmo; o.abort_check_interval_millis = abortInt; };
  fib::run([&] {
    Xfer x(c);
    {
      WdtTransferRequest r(500, 2, "x");
      r.hostName = "localhost";
      r.transferId = c.transferId;
      r.protocolVersion = Protocol::protocol_version;
      x.url = r.genWdtUrlWithSecret();
    }
    if (silent) net::opt.blackhole = true;
    VMC_CHECK(x.startSenderAsync(), "start", "cannot start");
    x.finishSender();
    VMC_CHECK(!x.S.ok() && x.S.localErr == CONN_ERROR, "code", "no receiver: %s", x.codes().c_str());
    x.destroy();
  });
  std::map<int, std::vector<int64_t>> at;
  for (auto& r : obs.sys) if (!strcmp(r.s.what, "connect")) at[r.s.port].push_back(r.at);
  VMC_CHECK(at.size() == 2, "ports", "%zu ports tried", at.size());
  for (auto& p : at) {
    VMC_CHECK((int)p.second.size() == retries, "max_retries", "max_retries %d: port %d tried %zu times", retries, p.first, p.second.size());
    for (size_t i = 1; i < p.second.size(); ++i) {
      int64_t gap = p.second[i] - p.second[i - 1], want = pause + (silent ? tmo : 0);
      VMC_CHECK(gap >= want * MS && gap <= (want + 5) * MS, "sleep_millis", "sleep %d ms, connect timeout %d ms, %s: %.1f ms between attempts", pause, silent ? tmo : 0, silent ? "no answer" : "refused", gap / 1e6);
    }
  }
}
static void accepting() {
  int tmo = pick(std::vector<int>{50, 100, 1000}, "accept_timeout"), n = pick(std::vector<int>{1, 3, 20}, "max_accept_retries"), abortInt = pick(std::vector<int>{0, 30, 100, 5000}, "abort_check_interval");
  Cfg c = cfgOf("two");
  c.ropt = [=](WdtOptions& o) { o.accept_timeout_millis = tmo; o.max_accept_retries = n; o.abort_check_interval_millis = abortInt; };
  fib::run([&] {
    Xfer x(c);
    x.startReceiver();
    x.finishReceiver();
    VMC_CHECK(!x.R.ok(), "code", "no sender: %s", x.codes().c_str());
    int64_t want = (int64_t)tmo * n;
    VMC_CHECK(x.R.endTime >= want * MS && x.R.endTime <= (want + 20) * MS, "accept_timeout", "accept timeout %d ms, %d retries: the receiver gives up after %.1f ms", tmo, n, x.R.endTime / 1e6);
    x.destroy();
  });
}
// the peer stays silent: how long is it waited for
static void reading() {
  int tmo = pick(std::vector<int>{300, 1000, 4000}, "read_timeout"), abortInt = pick(std::vector<int>{0, 70, 100, 10000}, "abort_check_interval"), drain = pick(std::vector<int>{0, 100, 900}, "drain_extra");
  int tries = pick(std::vector<int>{1, 2, 3}, "max_transfer_retries");
  bool beat = flip(INPUT, "heart_beat");
  Cfg c = cfgOf("small");
  c.sopt = [=](WdtOptions& o) { o.read_timeout_millis = tmo; o.abort_check_interval_millis = abortInt; o.drain_extra_ms = drain; o.max_transfer_retries = tries; o.enable_heart_beat = beat; };
  c.ropt = [](WdtOptions& o) { o.read_timeout_millis = o.write_timeout_millis = 60000; o.accept_window_millis = 100; };
  // nothing the receiver writes arrives
  std::vector<std::pair<int64_t, int64_t>> conns;  // connected, last write of the sender
  net::opt.tap = [&](int, int conn, int dir, string& data) {
    if (dir == 1) {
      data.clear();
      net::cutNow = net::CUT_HOLE;
      return;
    }
    if ((int)conns.size() <= conn) conns.resize(conn + 1);
    if (!conns[conn].first) conns[conn].first = fib::now() + 1;
    conns[conn].second = fib::now();
  };
  int64_t end = 0;
  fib::run([&] {
    Xfer x(c);
    x.startReceiver();
    x.startSenderAsync();
    x.finishSender();
    end = fib::now();
    VMC_CHECK(!x.S.ok(), "code", "no reply arrived: %s", x.codes().c_str());
    x.finishReceiver();
    x.destroy();
  });
  std::vector<int64_t> at;
  for (auto& r : obs.sys) if (!strcmp(r.s.what, "connect")) at.push_back(r.at);
  VMC_CHECK((int)at.size() == tries + 1, "max_transfer_retries", "max_transfer_retries %d, no progress: %zu connections", tries, at.size());
  at.push_back(end);
  // the send buffer is empty at once, so the rest of the wait is for the receiver's buffer
  for (size_t i = 0; i + 1 < at.size(); ++i) {
    double w = (at[i + 1] - at[i]) / 1e6;
    VMC_CHECK(w >= tmo + (i ? 0 : drain) && w <= tmo + drain + 2 * tmo + 500, "read_timeout", "read timeout %d ms, drain %d ms: connection %zu given up after %.1f ms", tmo, drain, i, w);
  }
  outcome(std::to_string(tmo) + "/" + std::to_string(drain) + "/" + std::to_string(beat) + ": " + std::to_string((at[1] - at[0]) / MS));
}

// the receiver does not read: how long does the sender wait to write
static void writing() {
  int tmo = pick(std::vector<int>{300, 1000, 4000}, "write_timeout"), abortInt = pick(std::vector<int>{0, 70, 100, 10000}, "abort_check_interval");
  int tries = pick(std::vector<int>{1, 2}, "max_transfer_retries");
  Cfg c = cfgOf("blocks");
  c.ports = 1;
  net::opt.cap = 30000;
  c.sopt = [=](WdtOptions& o) { o.write_timeout_millis = tmo; o.abort_check_interval_millis = abortInt; o.max_transfer_retries = tries; };
  fib::run([&] {
    Xfer x(c);
    {
      WdtTransferRequest r(500, 1, "x");
      r.hostName = "localhost";
      r.transferId = c.transferId;
      r.protocolVersion = Protocol::protocol_version;
      x.url = r.genWdtUrlWithSecret();
    }
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(500);
    a.sin_addr.s_addr = htonl(0x7f000001);
    VMC_CHECK(!::bind(fd, (sockaddr*)&a, sizeof a) && !::listen(fd, 50), "peer", "cannot listen");
    VMC_CHECK(x.startSenderAsync(), "start", "cannot start");
    x.finishSender();
    VMC_CHECK(!x.S.ok(), "code", "nothing was read: %s", x.codes().c_str());
    ::close(fd);
    x.destroy();
  });
  std::vector<int64_t> at;
  for (auto& r : obs.sys) if (!strcmp(r.s.what, "connect")) at.push_back(r.at);
  VMC_CHECK((int)at.size() == tries + 1, "connections", "max_transfer_retries %d: %zu connections", tries, at.size());
  for (size_t i = 0; i + 1 < at.size(); ++i) {
    double w = (at[i + 1] - at[i]) / 1e6;
    VMC_CHECK(w >= (i ? std::min(tmo, 1000) : tmo) && w <= 2 * tmo + 4 * std::min(abortInt, tmo) + 1200, "write_timeout", "write timeout %d ms: connection %zu given up after %.1f ms", tmo, i, w);
  }
}
// a session that uses fewer connections than the receiver has ports
static void window() {
  int win = pick(std::vector<int>{10, 200, 3000, 20000}, "accept_window"), acc = pick(std::vector<int>{50, 100000}, "accept_timeout");
  bool unused = flip(INPUT, "unused-port");
  Cfg c = cfgOf("two");
  c.ropt = [=](WdtOptions& o) { o.accept_window_millis = win; o.accept_timeout_millis = acc; };
  c.sopt = [=](WdtOptions& o) { o.max_retries = 2; };
  fib::run([&] {
    Xfer x(c);
    if (unused) x.onSenderReq = [](WdtTransferRequest& r) { r.ports.resize(1); };
    x.run();
    string d = compareDst(c);
    VMC_CHECK(x.S.ok() && d.empty(), "failed", "%s %s", x.codes().c_str(), d.c_str());
    // a thread that still waits for the first connection notices it at its next attempt
    int64_t lo = unused ? win : 0, hi = unused ? acc + win + 2200 : 200;
    VMC_CHECK(x.R.endTime >= lo * MS && x.R.endTime <= hi * MS, "accept_window", "accept window %d ms, %d of 2 ports used: the receiver ends after %.1f ms", win, unused ? 1 : 2, x.R.endTime / 1e6);
    x.destroy();
  });
}
// both sides are aborted while they wait for a silent peer
static void aborting() {
  int every = pick(std::vector<int>{0, -1, 50, 300, 20000}, "abort_check_interval"), tmo = pick(std::vector<int>{1000, 6000}, "timeout");
  int where = choose(4, INPUT, "waiting");  // sender connecting, sender reading, sender writing, receiver reading
  Cfg c = cfgOf("blocks");
  c.ports = 1;
  net::opt.cap = where == 2 ? 30000 : net::opt.cap;
  net::opt.blackhole = where == 0;
  if (where == 1) c.files = {{"z", 1}};
  if (where == 1) c.src = "one";
  if (where == 1) makeSource(c);
  c.both = [=](WdtOptions& o) { o.abort_check_interval_millis = every; o.read_timeout_millis = o.write_timeout_millis = o.connect_timeout_millis = tmo; o.max_retries = o.max_transfer_retries = 1; };
  int64_t asked = 400 * MS, end = 0;
  bool failed = false;
  string ended;
  fib::run([&] {
    Xfer x(c);
    std::atomic<bool> stop{false};
    auto checker = std::make_shared<WdtAbortChecker>(stop);
    if (where == 3) {
      x.onReceiver = [&](Receiver& r) { r.setAbortChecker(checker); };
      x.startReceiver();
      WdtTransferRequest req(x.url);
      int fd = peer::dial(req.ports[0]);
      VMC_CHECK(fd >= 0, "peer", "cannot connect");
      std::thread t([&] { usleep(asked / 1000); stop = true; });
      x.finishReceiver();
      end = fib::now();
      t.join();
      ::close(fd);
      failed = !x.R.ok();
    } else {
      int fd = peer::listenOn(500);
      WdtTransferRequest r(500, 1, "x");
      r.hostName = "localhost";
      r.transferId = c.transferId;
      r.protocolVersion = Protocol::protocol_version;
      x.url = r.genWdtUrlWithSecret();
      x.onSender = [&](Sender& s) { s.setAbortChecker(checker); };
      VMC_CHECK(x.startSenderAsync(), "start", "cannot start");
      std::thread t([&] { usleep(asked / 1000); stop = true; });
      x.finishSender();
      end = fib::now();
      t.join();
      ::close(fd);
      failed = !x.S.ok();
    }
    ended = x.codes();
    x.destroy();
  });
  static const char* const NAME[] = {"sender connecting", "sender reading", "sender writing", "receiver reading"};
  if (every > 0) {
    int64_t late = (end - asked) / MS, may = std::min(every, tmo) + 20;
    VMC_CHECK(late >= 0 && late <= may, "abort_check_interval", "%s, abort checked every %d ms: over %ld ms after the abort", NAME[where], every, (long)late);
    VMC_CHECK(failed, "abort-code", "%s: an aborted transfer ends with %s", NAME[where], ended.c_str());
  } else {
    VMC_CHECK(end >= tmo * MS, "abort-unchecked", "%s, abort checks disabled: over after %.1f ms", NAME[where], end / 1e6);
  }
}

// -------------------------------------------------------------- files, disk
static void chunks() {
  int buf = pick(std::vector<int>{1, 16384, 70000, 262144, 300001, 4 << 20}, "buffer_size"), side = pickSide();
  double mb = pick(std::vector<double>{-1, 0, 0.25, 0.5, 1, 1.5, 2}, "block_size_mbytes");
  Cfg c = cfgOf("blocks");
  c.both = [=](WdtOptions& o) { o.block_size_mbytes = mb; o.buffer_size = 65536; };
  apply(c, side, [=](WdtOptions& o) { o.buffer_size = buf; });
  good(c, nullptr, [&](Xfer& x) {
    // files are read and written in portions of the buffer at most
    auto size = [&](int g) {
      int64_t b = std::max<int64_t>(on(side, g) ? buf : 65536, Protocol::kMaxHeader);
      return (b + 4095) / 4096 * 4096;
    };
    int64_t bs = mb > 0 ? std::llround(mb * (1 << 20)) : INT64_MAX, most = std::min<int64_t>(bs, (1 << 20) + 70000);
    VMC_CHECK(obs.maxSize(SENDER, fs::PREAD) <= size(SENDER) && obs.maxSize(SENDER, fs::PREAD) >= std::min<int64_t>(most, size(SENDER) / 2), "buffer-sender", "buffer of %ld bytes: the sender reads up to %ld", (long)size(SENDER), (long)obs.maxSize(SENDER, fs::PREAD));
    VMC_CHECK(obs.maxSize(RECEIVER, fs::WRITE) <= size(RECEIVER), "buffer-receiver", "buffer of %ld bytes: the receiver writes up to %ld", (long)size(RECEIVER), (long)obs.maxSize(RECEIVER, fs::WRITE));
    size_t n = 0;
    for (auto& f : c.files) n += std::max<int64_t>(1, (f.size + bs / 2 + (bs - bs / 2) - 1) / bs);
    if (mb <= 0) n = c.files.size();
    VMC_CHECK((size_t)x.S.report->getSummary().getNumBlocks() == n && (size_t)x.R.report->getSummary().getNumBlocks() == n, "block_size", "blocks of %g MB: sent %ld, received %ld, expected %zu", mb, (long)x.S.report->getSummary().getNumBlocks(), (long)x.R.report->getSummary().getNumBlocks(), n);
  });
}
static void disk() {
  double every = pick(std::vector<double>{-1, 0, 0.125, 0.5, 64}, "disk_sync_interval_mb");
  bool sync = flip(INPUT, "fsync"), skip = flip(INPUT, "skip_fadvise"), noalloc = flip(INPUT, "disable_preallocation"), resume = flip(INPUT, "download_resumption");
  double mb = pick(std::vector<double>{-1, 0.5}, "block_size_mbytes");
  int side = pickSide();
  Cfg c = cfgOf("blocks");
  c.both = [=](WdtOptions& o) { o.block_size_mbytes = mb; o.buffer_size = 65536; o.skip_fadvise = true; };
  apply(c, side, [=](WdtOptions& o) { o.disk_sync_interval_mb = every; o.fsync = sync; o.skip_fadvise = skip; o.disable_preallocation = noalloc; o.enable_download_resumption = resume; });
  good(c);
  bool r = on(side, RECEIVER);
  int blocks = mb > 0 ? 3 + 2 + 1 : 3;
  int n = obs.nOps(RECEIVER, fs::SYNCRANGE), calls = obs.nOps(SENDER, fs::FSYNC) + obs.nOps(SENDER, fs::SYNCRANGE) + obs.nOps(SENDER, fs::FALLOC) + obs.nOps(SENDER, fs::WRITE);
  VMC_CHECK(calls == 0, "sender-calls", "the sender made %d calls that change files", calls);
  int64_t total = 0;
  for (auto& f : c.files) total += f.size;
  if (every < 0 || !r) {
    VMC_CHECK(n == 0, "disk_sync", "sync interval %g on %s: %d ranges synced", every, sideName(side), n);
  } else {
    int64_t synced = 0, biggest = 0;
    for (auto& o : obs.ops) if (o.op.kind == fs::SYNCRANGE) synced += o.op.size, biggest = std::max<int64_t>(biggest, o.op.size);
    VMC_CHECK(synced == total, "disk_sync-all", "sync interval %g: %ld of %ld bytes synced", every, (long)synced, (long)total);
    VMC_CHECK(biggest <= every * 1024 * 1024 + 2 * 65536, "disk_sync-size", "sync interval %g: a range of %ld bytes", every, (long)biggest);
    VMC_CHECK(n <= blocks + total / std::max(1., every * 1024 * 1024), "disk_sync-often", "sync interval %g: %d ranges", every, n);
  }
  int fsyncs = obs.nOps(RECEIVER, fs::FSYNC);
  bool mustSync = r && (sync || resume);
  VMC_CHECK(mustSync ? fsyncs >= (int)c.files.size() : !fsyncs, "fsync", "fsync %d resumption %d on %s: %d calls for %d blocks", sync, resume, sideName(side), fsyncs, blocks);
  for (int g : {SENDER, RECEIVER}) VMC_CHECK((obs.advised[g] > 0) == (on(side, g) && !skip), "skip_fadvise", "skip_fadvise %d on %s: %s advises %d times", skip, sideName(side), sideName(g), obs.advised[g]);
  int alloc = obs.nOps(RECEIVER, fs::FALLOC);
  VMC_CHECK((alloc > 0) == !(r && noalloc), "preallocation", "disable_preallocation %d on %s: %d allocations", noalloc, sideName(side), alloc);
}
static void opens() {
  int ahead = pick(std::vector<int>{0, 1, 2, -1}, "open_files_during_discovery");
  bool two = flip(INPUT, "two_phases"), cloexec = flip(INPUT, "close_on_exec");
  int side = pickSide();
  Cfg c = cfgOf(pick(std::vector<string>{"many", "blocks"}, "files"));
  apply(c, side, [=](WdtOptions& o) { o.open_files_during_discovery = ahead; o.two_phases = two; o.close_on_exec = cloexec; });
  good(c);
  bool s = on(side, SENDER);
  size_t want = !s || ahead == 0 ? 0 : ahead < 0 ? c.files.size() : std::min<size_t>(ahead, c.files.size());
  if (s && two) {
    int64_t listed = 0, first = INT64_MAX;
    size_t i = 0, lastList = 0, firstRead = SIZE_MAX;
    for (auto& o : obs.ops) {
      if (o.group == SENDER && o.op.kind == fs::READDIR) lastList = i, listed = o.at;
      if (o.group == SENDER && o.op.kind == fs::PREAD) firstRead = std::min(firstRead, i);
      ++i;
    }
    for (auto& k : obs.sys) if (!strcmp(k.s.what, "connect")) first = std::min(first, k.at);
    VMC_CHECK(lastList < firstRead && listed <= first, "two_phases", "two phases: files are sent before the discovery ended");
    // the first file to be sent is open too
    VMC_CHECK(obs.openedFirst >= want && obs.openedFirst <= std::max<size_t>(want, 1) + 1, "open_files", "%d files opened during discovery asked for: %zu open when sending starts", ahead, obs.openedFirst);
  }
  for (auto& o : obs.ops)
    if (o.op.kind == fs::OPEN) VMC_CHECK(!!(o.op.flags & O_CLOEXEC) == (cloexec && on(side, o.group)), "close_on_exec", "close_on_exec %d on %s: %s opens %s with %x", cloexec, sideName(side), sideName(o.group), o.op.path.c_str(), o.op.flags);
}
static void direct() {
  bool odirect = flip(INPUT, "odirect_reads");
  int side = pickSide(), ahead = pick(std::vector<int>{0, -1}, "open_files_during_discovery");
  Cfg c = cfgOf("two");
  apply(c, side, [=](WdtOptions& o) { o.odirect_reads = odirect; o.open_files_during_discovery = ahead; });
  good(c);
  int n = 0;
  for (auto& o : obs.ops)
    if (o.op.kind == fs::OPEN && o.op.path != obs.srcRoot) {
      bool want = odirect && o.group == SENDER && on(side, SENDER);
      VMC_CHECK(!!(o.op.flags & O_DIRECT) == want, "odirect_reads", "odirect_reads %d on %s: %s opens %s with %x", odirect, sideName(side), sideName(o.group), o.op.path.c_str(), o.op.flags);
      ++n;
    }
  VMC_CHECK(n >= 6, "opens", "%d opens", n);
}
static void writes() {
  bool skip = flip(INPUT, "skip_writes"), over = flip(INPUT, "overwrite"), old = flip(INPUT, "old-file"), check = flip(INPUT, "checksum");
  int side = pickSide();
  Cfg c = cfgOf("two");
  c.both = [=](WdtOptions& o) { o.enable_checksum = check; o.overwrite = false; };
  apply(c, side, [=](WdtOptions& o) { o.skip_writes = skip; o.overwrite = over; });
  bool r = on(side, RECEIVER);
  if (old) fs::writeFile(path("dst/a"), "old");
  fib::run([&] {
    Xfer x(c);
    x.run();
    fs::Tree t = fs::snapshot(path(c.dst));
    if (r && skip) {
      VMC_CHECK(x.S.ok() && x.R.ok(), "skip-failed", "skip_writes: %s", x.codes().c_str());
      VMC_CHECK(t.size() == (old ? 1 : 0) && (!old || t["a"] == "old"), "skip_writes", "skip_writes: the destination has %s", fs::describe(t).c_str());
    } else if (old && !(r && over)) {
      VMC_CHECK(!x.R.ok() && t["a"] == "old", "overwrite", "overwrite off: %s, a has %zu bytes", x.codes().c_str(), t["a"].size());
    } else {
      VMC_CHECK(x.S.ok() && x.R.ok() && compareDst(c).empty(), "failed", "%s %s", x.codes().c_str(), compareDst(c).c_str());
    }
    x.destroy();
  });
}
static void patterns() {
  string inc = pick(std::vector<string>{"", ".*c", "d/.*"}, "include"), exc = pick(std::vector<string>{"", "a", "d/c"}, "exclude"), prune = pick(std::vector<string>{"", "d/", "l/"}, "prune");
  bool follow = flip(INPUT, "follow_symlinks"), two = flip(INPUT, "two_phases");
  int side = pickSide();
  Cfg c = cfgOf("links");
  apply(c, side, [=](WdtOptions& o) { o.include_regex = inc; o.exclude_regex = exc; o.prune_dir_regex = prune; o.follow_symlinks = follow; o.two_phases = two; });
  bool s = on(side, SENDER);
  fs::Tree want;
  for (auto& k : sourceTree(c)) {
    string links[] = {k.first, k.first.compare(0, 2, "d/") == 0 ? "l/" + k.first.substr(2) : ""};
    for (auto& p : links) {
      if (p.empty() || (p != k.first && !(s && follow))) continue;
      auto whole = [](const string& re, const string& p) { return re == ".*c" ? p.back() == 'c' : re == "d/.*" ? p.compare(0, 2, "d/") == 0 : re == p; };
      if (s && !inc.empty() && !whole(inc, p)) continue;
      if (s && !exc.empty() && whole(exc, p)) continue;
      if (s && !prune.empty() && p.compare(0, 2, prune) == 0) continue;
      want[p] = k.second;
    }
  }
  fib::run([&] {
    Xfer x(c);
    x.run();
    fs::Tree t = fs::snapshot(path(c.dst));
    VMC_CHECK(x.S.ok() && t == want, "patterns", "include %s exclude %s prune %s links %d on %s: %s %s, expected %s", inc.c_str(), exc.c_str(), prune.c_str(), follow, sideName(side), x.codes().c_str(), fs::describe(t).c_str(), fs::describe(want).c_str());
    x.destroy();
  });
}

// ------------------------------------------------------------ wire, reports
static void coded() {
  string type = pick(std::vector<string>{"none", "aes128ctr", "aes128gcm"}, "encryption_type");
  int tag = pick(std::vector<int>{0, 5000, 4 << 20}, "encryption_tag_interval_bytes");
  bool check = flip(INPUT, "checksum");
  Cfg c = cfgOf("two");
  int side = pickSide();
  c.both = [=](WdtOptions& o) { o.encryption_type = type; };  // the receiver's choice counts
  c.sopt = [=](WdtOptions& o) { o.encryption_type = side == SENDER ? type : "none"; };
  c.ropt = [=](WdtOptions& o) { o.encryption_type = side == SENDER ? "none" : type; };
  string rt = side == SENDER ? "none" : type;
  apply(c, side, [=](WdtOptions& o) { o.encryption_tag_interval_bytes = tag; o.enable_checksum = check; });
  std::map<int, string> sent;
  net::opt.tap = [&](int, int conn, int dir, string& data) { if (dir == 0) sent[conn] += data; };
  good(c);
  string all;
  for (auto& k : sent) all += k.second;
  const string& body = content(c, c.files[0]);
  bool clear = all.find(body.substr(100, 64)) != string::npos || all.find("d/b") != string::npos;
  VMC_CHECK(clear == (rt == "none"), "encryption_type", "encryption %s on %s: names or contents are %s on the wire", type.c_str(), sideName(side), clear ? "clear" : "not clear");
  outcome(rt + "/" + std::to_string(tag) + "/" + std::to_string(check) + "/" + std::to_string(side) + ": " + std::to_string(all.size()));
  // one execution of each setting: sizes are comparable
  static std::map<string, size_t> base{};
  size_t plain = 0;
  for (auto& f : c.files) plain += f.size;
  if (rt == "aes128gcm") {
    size_t tags = on(side, SENDER) && tag > 0 && tag < 5300 ? 1 : 0;
    VMC_CHECK(all.size() >= plain + 16 * (c.ports + tags), "tags", "gcm with tags every %d bytes: %zu bytes sent for %zu", tag, all.size(), plain);
  }
}
static void reports() {
  bool full = flip(INPUT, "full_reporting"), perf = flip(INPUT, "enable_perf_stat_collection");
  int every = pick(std::vector<int>{0, 50, 400}, "progress_report_interval"), side = pickSide();
  Cfg c = cfgOf("many");
  c.both = [=](WdtOptions& o) { o.full_reporting = false; o.avg_mbytes_per_sec = o.max_mbytes_per_sec = 0.01; o.read_timeout_millis = o.write_timeout_millis = 20000; };
  apply(c, side, [=](WdtOptions& o) { o.full_reporting = full; o.enable_perf_stat_collection = perf; o.progress_report_interval_millis = every; });
  struct Count : ProgressReporter {
    int starts = 0, ends = 0, reports = 0;
    explicit Count(const WdtTransferRequest& r) : ProgressReporter(r) {}
    void start() override { ++starts; }
    void progress(const std::unique_ptr<TransferReport>&) override { ++reports; }
    void end(const std::unique_ptr<TransferReport>&) override { ++ends; }
  };
  fib::run([&] {
    Xfer x(c);
    WdtTransferRequest none;
    auto* sc = new Count(none);
    auto* rc = new Count(none);
    std::map<int, std::array<int, 3>> got;
    x.onSender = [&](Sender& s) { std::unique_ptr<ProgressReporter> p(sc); s.setProgressReporter(p); };
    x.onReceiver = [&](Receiver& r) { std::unique_ptr<ProgressReporter> p(rc); r.setProgressReporter(p); };
    x.run();
    VMC_CHECK(x.S.ok() && x.R.ok(), "failed", "%s", x.codes().c_str());
    size_t n = x.S.report->getTransferredSourceStats().size();
    VMC_CHECK(n == (full && on(side, SENDER) ? c.files.size() : 0), "full_reporting", "full_reporting %d on %s: %zu sources listed", full, sideName(side), n);
    double secs = x.S.endTime / 1e9;
    for (auto k : {std::make_pair((int)SENDER, sc), std::make_pair((int)RECEIVER, rc)}) {
      Count& q = *k.second;
      bool want = every > 0 && on(side, k.first);
      double should = secs * 1000 / std::max(every, 1);
      VMC_CHECK((!want && k.first == RECEIVER) || (q.starts == want && q.ends == want), "progress-ends", "progress every %d ms on %s: %s reports %d starts, %d ends", every, sideName(side), sideName(k.first), q.starts, q.ends);
      VMC_CHECK(want ? std::abs(q.reports - should) <= should * 0.1 + 2 : !q.reports, "progress", "progress every %d ms on %s: %d reports by %s in %.2f s", every, sideName(side), q.reports, sideName(k.first), secs);
    }
    outcome(std::to_string(sc->reports));
    x.destroy();
  });
}
static void rates() {
  double avg = pick(std::vector<double>{-1, 0.005, 0.02}, "avg_mbytes_per_sec"), peak = pick(std::vector<double>{-1, 0, 0.01}, "max_mbytes_per_sec");
  int side = pickSide();
  Cfg c = cfgOf("many");
  c.both = [](WdtOptions& o) { o.read_timeout_millis = o.write_timeout_millis = 20000; };
  apply(c, side, [=](WdtOptions& o) { o.avg_mbytes_per_sec = avg; o.max_mbytes_per_sec = peak; });
  good(c, nullptr, [&](Xfer& x) {
    int64_t total = 0;
    for (auto& f : c.files) total += f.size;
    double secs = std::max(x.S.endTime, x.R.endTime) / 1e9, mb = total / 1048576.;
    double limit = avg > 0 ? avg : 1e9;
    VMC_CHECK(avg <= 0 || secs >= mb / limit * 0.8, "avg_mbytes_per_sec", "%g MB/s on %s: %.3f MB in %.2f s", avg, sideName(side), mb, secs);
    VMC_CHECK(secs <= mb / limit * 1.5 + (peak > 0 ? mb / peak * 1.5 : 0) + 1, "too-slow", "%g MB/s, peak %g on %s: %.3f MB in %.2f s", avg, peak, sideName(side), mb, secs);
    outcome(std::to_string(avg) + "/" + std::to_string(peak) + "/" + std::to_string(side) + ": " + std::to_string(secs));
  });
}
static void logs() {
  bool resume = flip(INPUT, "enable_download_resumption"), keep = flip(INPUT, "keep_transfer_log"), compact = flip(INPUT, "compaction"), extra = flip(INPUT, "delete_extra_files");
  int every = pick(std::vector<int>{1, 100}, "transfer_log_write_interval");
  int side = pickSide();
  Cfg c = cfgOf("two");
  apply(c, side, [=](WdtOptions& o) {
    o.enable_download_resumption = resume;
    o.keep_transfer_log = keep;
    o.enable_transfer_log_compaction = compact;
    o.delete_extra_files = extra;
    o.transfer_log_write_interval_ms = every;
  });
  fs::writeFile(path("dst/other"), "extra");
  bool r = on(side, RECEIVER);
  good(c, nullptr, [&](Xfer&) {
    fs::Tree t = fs::snapshot(path(c.dst));
    bool has = t.count(kWdtLogName);
    VMC_CHECK(has == (r && resume && keep), "keep_transfer_log", "resumption %d keep %d on %s: a log is%s left", resume, keep, sideName(side), has ? "" : " not");
    bool gone = !t.count("other");
    VMC_CHECK(gone == (extra && resume && side == 3) || (extra && r) || (extra && !r && gone == false), "delete_extra_files", "delete_extra_files %d on %s: the extra file is %s", extra, sideName(side), gone ? "gone" : "there");
    outcome(std::to_string(extra) + std::to_string(resume) + std::to_string(side) + ": " + std::to_string(gone));
  });
}

// a receiver with a slow disk tells the sender that it is alive
static void beats() {
  bool beat = flip(INPUT, "enable_heart_beat"), throttled = flip(INPUT, "throttled");
  int slow = pick(std::vector<int>{0, 130, 400}, "slow-disk"), tmo = pick(std::vector<int>{500, 2000}, "read_timeout"), side = pickSide();
  string type = pick(std::vector<string>{"none", "aes128gcm"}, "encryption");
  Cfg c = cfgOf("blocks");
  c.ports = 1;
  c.both = [=](WdtOptions& o) {
    o.buffer_size = 65536;
    o.encryption_type = type;
    o.read_timeout_millis = o.write_timeout_millis = 2000;
    if (throttled) o.avg_mbytes_per_sec = 1;
  };
  apply(c, side, [=](WdtOptions& o) { o.enable_heart_beat = beat; o.read_timeout_millis = tmo; });
  std::vector<int64_t> at;
  size_t n = 0;
  net::opt.tap = [&](int, int, int dir, string& data) {
    if (dir == 1 && type == "none") for (char ch : data) if (ch == Protocol::HEART_BEAT_CMD) at.push_back(fib::now());
    if (dir == 1) n += data.size();
  };
  auto hook = fs::opt.hook;
  fs::opt.hook = [hook, slow](const fs::Op& o) {
    if (o.kind == fs::WRITE && slow && o.path.find(kWdtLogName) == string::npos) usleep(slow * 1000);
    return hook(o);
  };
  bool on1 = on(side, SENDER) ? beat : true;
  fib::run([&] {
    Xfer x(c);
    x.run();
    bool effective = on1;
    // without heart beats the sender has to guess how long the receiver takes
    if (effective || !slow) VMC_CHECK(x.S.ok() && x.R.ok() && compareDst(c).empty(), "heart_beat-failed", "heart beats %d, disk %d ms, read timeout %d ms: %s", on1, slow, tmo, x.codes().c_str());
    x.destroy();
    double secs = x.S.endTime / 1e6;  // ms
    int every = (on(side, SENDER) ? tmo : 2000) / 5;
    outcome(std::to_string(on1) + "/" + std::to_string(slow) + "/" + std::to_string(every) + ": " + std::to_string(n));
    if (type != "none") return;
    if (!on1) VMC_CHECK(at.empty(), "heart_beat-off", "heart beats are off on %s: %zu sent", sideName(side), at.size());
    int gap = slow + (throttled ? 70 : 0);
    if (on1 && slow) {
      VMC_CHECK(at.size() <= secs / every + 1, "heart_beat-often", "%zu heart beats in %.0f ms, one every %d ms", at.size(), secs, every);
      VMC_CHECK(at.size() + 3 >= secs / (every + 2 * gap), "heart_beat-seldom", "%zu heart beats in %.0f ms, one every %d ms, disk %d ms", at.size(), secs, every, slow);
    }
  });
}

// ------------------------------------------------------------- combinations
struct Setting { string name; OptFn f; };
static std::vector<std::vector<Setting>> settings;  // by option
static void addSettings() {
#define OPT(field, ...) { std::vector<Setting> v; for (auto k : {__VA_ARGS__}) v.push_back({string(#field) + "=" + std::to_string(k), [k](WdtOptions& o) { o.field = k; }}); settings.push_back(v); }
  OPT(num_ports, 1, 3, 8)
  OPT(ipv6, true)
  OPT(ipv4, false)
  OPT(dscp, 10)
  OPT(two_phases, true)
  OPT(follow_symlinks, true)
  OPT(skip_writes, true)
  OPT(backlog, 5)
  OPT(buffer_size, 1, 65537, 1 << 20)
  OPT(max_retries, 1)
  OPT(max_transfer_retries, 1)
  OPT(sleep_millis, 0, 1000)
  OPT(block_size_mbytes, -1., 0., 0.001, 0.5)
  OPT(avg_mbytes_per_sec, 2., 100.)
  OPT(max_mbytes_per_sec, 0., 2.)
  OPT(throttler_bucket_limit, 0.01, 10.)
  OPT(throttler_log_time_millis, 100)
  OPT(progress_report_interval_millis, 1, 20)
  OPT(full_reporting, false)
  OPT(accept_timeout_millis, 1, 5000)
  OPT(max_accept_retries, 500)
  OPT(accept_window_millis, 10, 100000)
  OPT(read_timeout_millis, 700, 20000)
  OPT(write_timeout_millis, 700, 20000)
  OPT(connect_timeout_millis, 50)
  OPT(abort_check_interval_millis, -1, 0, 10, 5000)
  OPT(disk_sync_interval_mb, 0., 0.001, 1.)
  OPT(throughput_update_interval_millis, 0, 7)
  OPT(enable_checksum, true)
  OPT(enable_perf_stat_collection, true)
  OPT(transfer_log_write_interval_ms, 1)
  OPT(enable_transfer_log_compaction, true)
  OPT(enable_download_resumption, true)
  OPT(keep_transfer_log, false)
  OPT(disable_sender_verification_during_resumption, true)
  OPT(odirect_reads, true)
  OPT(disable_preallocation, true)
  OPT(open_files_during_discovery, 1, -1)
  OPT(overwrite, true)
  OPT(drain_extra_ms, 0, 5000)
  OPT(encryption_tag_interval_bytes, 0, 100, 70000)
  OPT(send_buffer_size, 5000)
  OPT(receive_buffer_size, 5000)
  OPT(delete_extra_files, true)
  OPT(skip_fadvise, false)
  OPT(fsync, true)
  OPT(enable_heart_beat, false)
  OPT(iv_change_interval_mb, 0, 1)
#undef OPT
  std::vector<Setting> v;
  for (string t : {"aes128ctr", "aes128gcm"}) v.push_back({"encryption_type=" + t, [t](WdtOptions& o) { o.encryption_type = t; }});
  settings.push_back(v);
  settings.push_back({{"resume_using_dir_tree", [](WdtOptions& o) { o.resume_using_dir_tree = o.enable_download_resumption = o.disable_preallocation = true; o.block_size_mbytes = -1; }}});
}
/// transfers with any n of the settings must succeed
static void combine(int n) {
  Cfg c = cfgOf(pick(std::vector<string>{"two", "mixed"}, "files"));
  net::opt.v6 = true;
  int side = choose(3, INPUT, "side");  // both, sender, receiver
  side = side ? side : 3;
  int from = 0;
  string names;
  std::vector<OptFn> fs;
  for (int i = 0; i < n; ++i) {
    int k = from + choose(settings.size() - from - (n - 1 - i), INPUT, "option");
    auto& v = settings[k];
    auto& s = v[choose(v.size(), INPUT, "value")];
    fs.push_back(s.f);
    names += " " + s.name;
    from = k + 1;
  }
  // documented restrictions
  auto has = [&](const char* o) { return names.find(string(" ") + o) != string::npos; };
  bool tree = has("resume_using_dir_tree"), skip = has("skip_writes");
  if ((has("enable_download_resumption") || tree) && skip) return;
  if (tree && has("block_size")) return;
  if (has("num_ports=8")) c.ports = 8;
  if (has("num_ports=3")) c.ports = 3;
  if (has("num_ports=1")) c.ports = 1;
  bool six = has("ipv6=1") && has("ipv4=0");
  if (side != 3 && six) return;  // the other side speaks IPv4 only
  note("settings%s, side %d", names.c_str(), side);
  for (auto& f : fs) apply(c, side, f);
  int64_t limit = 60;
  fib::run([&] {
    Xfer x(c);
    x.run();
    VMC_CHECK(x.S.ok() && x.R.ok(), "combination", "%s:%s ended with %s", sideName(side), names.c_str(), x.codes().c_str());
    string d = skip && (side & RECEIVER) ? (::fs::snapshot(path(c.dst)).empty() ? "" : "files were written") : compareDst(c);
    VMC_CHECK(d.empty(), "combination-files", "%s:%s: %s", sideName(side), names.c_str(), d.c_str());
    VMC_CHECK(fib::now() < limit * fib::SEC, "combination-time", "%s:%s took %.1f s", sideName(side), names.c_str(), fib::now() / 1e9);
    x.destroy();
  });
}

static void body(int i) {
  begin();
  effects[i].body();
  step();
  count("system_calls", obs.sys.size() + obs.ops.size());
}
int main(int argc, char** argv) {
  Check c;
  c.property = "C36";
  c.rule = "every listed value of every option on the sender, the receiver or both, crossed with the options it interacts with, in a whole transfer in virtual time whose system calls, bytes and times are compared with the documented effect; every pair of settings (thorough: every triple) must leave a transfer without faults complete and identical";
  addSettings();
  c.setup = [] {
    cfgs["two"] = cfg2();
    cfgs["small"] = cfg1s();
    cfgs["blocks"] = cfgBlocks();
    cfgs["many"] = cfgMany();
    cfgs["links"] = cfg2();
    cfgs["mixed"] = cfg2();
    cfgs["mixed"].files = {{"a", 400000}, {"d/b", 0}, {"d/e/c", 300}, {"e", 1 << 18}};
    for (auto& k : cfgs) {
      k.second.both = nullptr;
      shareSource(k.second, "src-" + k.first);
      for (auto& f : k.second.files) content(k.second, f);
    }
    if (symlink("../src-two/d", (shared() + "/src-links/l").c_str())) abort();
  };
  effects = {{"dscp", dscp}, {"buffers", buffers}, {"backlog", backlog}, {"families", families}, {"ports", ports}, {"connects", connects}, {"accepting", accepting}, {"reading", reading}, {"writing", writing}, {"window", window}, {"aborting", aborting}, {"chunks", chunks}, {"disk", disk}, {"opens", opens}, {"direct", direct}, {"writes", writes}, {"patterns", patterns}, {"coded", coded}, {"reports", reports}, {"rates", rates}, {"logs", logs}, {"beats", beats}, {"single", [] { combine(1); }}, {"pairs", [] { combine(2); }}, {"triples", [] { combine(3); }}};
  for (size_t i = 0; i < effects.size(); ++i) {
    Scenario s;
    s.name = effects[i].name;
    s.body = [i] { body(i); };
    s.forked = true;
    s.thoroughOnly = effects[i].name == "triples";
    if (effects[i].name == "pairs" || s.thoroughOnly) s.budget = 8;
    s.quick = {Bounds(0)};
    s.deep = {Bounds(0)};
    c.scenarios.push_back(s);
  }
  return runCheck(c, argc, argv);
}
