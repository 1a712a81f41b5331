// C30: socket I/O moves exactly the requested bytes within its time limits
#include "sock.h"
using namespace vmc;
using namespace sock;
static const int64_t MS = fib::MS;
static void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
struct Step { int wait, bytes; };  // wait that many ms, then move that many bytes
typedef std::vector<Step> Script;
struct Limits { int timeout, interval; };
static const std::vector<Limits> kLimits{{1000, 100}, {250, 100}, {250, -1}, {100, 300}, {250, 0}};
static Cfg limits() {
  Limits l = pick(kLimits, "limits");
  Cfg c;
  c.readTimeout = c.writeTimeout = l.timeout;
  c.abortInterval = l.interval;
  c.connectTimeout = l.timeout;
  return c;
}
/// the longest one blocking system call may take
static int slice(const Cfg& c) { return c.abortInterval <= 0 ? c.readTimeout : std::min(c.readTimeout, c.abortInterval); }
static const int64_t TOL = 5 * MS;
enum End { CLOSE, HOLD };

static void readSide(bool faults, bool resets) {
  Cfg c = limits();
  static const std::vector<Script> scripts{{{0, 10}}, {{90, 4}, {90, 3}, {90, 3}}, {{0, 3}, {240, 3}, {300, 4}}, {{0, 1}, {1500, 9}}, {{99, 5}, {1, 5}}, {{250, 10}}, {{0, 30}}, {{2000, 1}}};
  Script w = pick(scripts, "script");
  int end = choose(2, INPUT, "end");
  int n = pick(std::vector<int>{10, 1, 7, 30}, "read");
  bool full = flip(INPUT, "full");
  int t2 = pick(std::vector<int>{0, 60, 150, 400}, "own-limit");  // 0: the configured limit
  int abortAt = pick(std::vector<int>{-1, 0, 130, 333}, "abort");
  net::opt.maxRead = pick(std::vector<size_t>{1 << 30, 3}, "segment");
  if (faults) {
    net::opt.stall = 170 * MS;
    net::opt.onRead = {net::SHORT1, net::HALF, net::EINTR_, net::STALL};
    net::opt.onWrite = {net::SHORT1, net::STALL};
    if (resets) net::opt.onRead = net::opt.onWrite = {net::RESET};
  }
  int total = 0;
  for (auto& s : w) total += s.bytes;
  string d = fs::pattern(total, 1), got;
  fib::run([&] {
    Pair p(c);
    p.connect();
    int64_t start = fib::now();
    bool closed = false, done = false;
    int64_t abortTime = fib::NEVER;
    std::thread t([&] {
      int pos = 0;
      for (auto& s : w) {
        if (s.wait) nap(s.wait);
        string x = d.substr(pos, s.bytes);
        if (p.cli->write(&x[0], x.size()) != (int)x.size()) break;
        pos += s.bytes;
      }
      if (end == CLOSE) { closed = true; p.cli->closeNoCheck(); }
    });
    std::thread ab;
    if (abortAt >= 0) ab = std::thread([&] { if (abortAt) nap(abortAt); p.sab.flag = true; abortTime = fib::now(); });
    int limit = t2 ? t2 : c.readTimeout;
    int calls = 0, fails = 0;
    while (calls < 40 && fails < 3) {
      ++calls;
      std::vector<char> b(n + 8, 0x5a);
      int64_t t0 = fib::now();
      int r = t2 ? p.srv->readWithTimeout(b.data(), n, t2, full) : p.srv->read(b.data(), n, full);
      int64_t t1 = fib::now();
      bool aborted = c.abortInterval > 0 && abortTime <= t1;
      ErrorCode e = p.srv->getReadErrCode();
      VMC_CHECK(r <= n, "more", "read of %d returned %d", n, r);
      for (int k = r < 0 ? 0 : r; k < n + 8; ++k) VMC_CHECK(b[k] == 0x5a, "overrun", "byte %d of the buffer changed, %d read", k, r);
      VMC_CHECK(t1 - t0 <= (limit + slice(c)) * MS + TOL, "too-long", "read with limit %d ms, check interval %d ms took %.1f ms", limit, c.abortInterval, (t1 - t0) * 1e-6);
      if (c.abortInterval > 0 && abortTime != fib::NEVER)
        VMC_CHECK(t1 <= std::max(t0, abortTime) + slice(c) * MS + TOL, "abort", "read went on for %.1f ms after the abort", (t1 - std::max(t0, abortTime)) * 1e-6);
      if (r > 0) got.append(b.data(), r);
      VMC_CHECK(got == d.substr(0, got.size()), "data", "bytes differ from those written");
      bool expired = t1 - t0 >= limit * MS - TOL;
      if (r < (full ? n : 1)) {
        bool over = closed && (size_t)total == got.size();
        VMC_CHECK(expired || aborted || over || resets, "short", "read of %d returned %d (%s) after %.1f ms with %zu of %d bytes delivered%s", n, r, errorCodeToStr(e).c_str(), (t1 - t0) * 1e-6, got.size(), total, closed ? ", closed" : "");
        if (r == 0) VMC_CHECK(over || resets, "eof", "end of stream reported, %zu of %d bytes delivered", got.size(), total);
        if (r <= 0) {
          ++fails;
          VMC_CHECK(e != OK, "code", "failed read without error code");
          if (!over && !resets) VMC_CHECK(e == WDT_TIMEOUT, "code", "nothing arrived in time: %s", errorCodeToStr(e).c_str());
        }
      } else {
        VMC_CHECK(e == OK, "code", "successful read with %s", errorCodeToStr(e).c_str());
      }
      if (e == SOCKET_READ_ERROR) break;
    }
    done = true;
    p.srv->closeNoCheck();
    t.join();
    if (ab.joinable()) ab.join();
    p.cli->closeNoCheck();
    outcome(std::to_string(got.size()) + "/" + std::to_string(total) + " fails" + std::to_string(fails));
    (void)start;
    (void)done;
  });
}

static void writeSide(bool faults, bool resets) {
  Cfg c = limits();
  // what the reading side does
  static const std::vector<Script> scripts{{}, {{0, 500}}, {{120, 100}, {120, 100}, {120, 300}}, {{240, 1}, {240, 1}, {240, 498}}, {{600, 500}}, {{90, 30}}, {{0, 50}, {2500, 450}}};
  Script r = pick(scripts, "script");
  int n = pick(std::vector<int>{100, 101, 400, 500}, "write");
  bool retry = flip(INPUT, "retry");
  bool close = flip(INPUT, "close");
  int abortAt = pick(std::vector<int>{-1, 0, 130, 333}, "abort");
  net::opt.cap = 100;
  if (faults) {
    net::opt.stall = 170 * MS;
    net::opt.onWrite = {net::SHORT1, net::HALF, net::EINTR_, net::STALL};
    if (resets) net::opt.onRead = net::opt.onWrite = {net::RESET};
  }
  fib::run([&] {
    Pair p(c);
    p.so.read_timeout_millis = 5000;
    p.connect();
    string d = fs::pattern(n, 1), got;
    int64_t lastMove = fib::now(), abortTime = fib::NEVER;
    bool closed = false;
    std::thread t([&] {
      for (auto& s : r) {
        if (s.wait) nap(s.wait);
        int left = s.bytes;
        while (left > 0 && (int)got.size() < n) {
          char b[600];
          int k = p.srv->readWithTimeout(b, left, 20, false);
          if (k <= 0) break;
          got.append(b, k);
          lastMove = fib::now();
          left -= k;
        }
      }
      if (close) { closed = true; p.srv->closeNoCheck(); }
    });
    std::thread ab;
    if (abortAt >= 0) ab = std::thread([&] { if (abortAt) nap(abortAt); p.cab.flag = true; abortTime = fib::now(); });
    int64_t t0 = fib::now();
    string x = d;
    int w = p.cli->write(&x[0], n, retry);
    int64_t t1 = fib::now();
    bool aborted = c.abortInterval > 0 && abortTime <= t1;
    ErrorCode e = p.cli->getWriteErrCode();
    VMC_CHECK(w == n || w == -1, "count", "write of %d returned %d", n, w);
    VMC_CHECK((w == n) == (e == OK), "code", "write returned %d with %s", w, errorCodeToStr(e).c_str());
    int one = c.writeTimeout + slice(c);
    int64_t since = retry ? std::max(t0, std::min(lastMove, t1)) : t0;
    int stalls = faults && !resets ? 200 : 0;
    VMC_CHECK(t1 - since <= (int64_t)(retry ? 2 : 1) * (one + stalls) * MS + TOL, "too-long", "write with limit %d ms, check interval %d ms took %.1f ms (%.1f since the last progress)", c.writeTimeout, c.abortInterval, (t1 - t0) * 1e-6, (t1 - since) * 1e-6);
    if (c.abortInterval > 0 && abortTime != fib::NEVER)
      VMC_CHECK(t1 <= std::max(t0, abortTime) + (slice(c) + stalls) * MS + TOL, "abort", "write went on for %.1f ms after the abort", (t1 - std::max(t0, abortTime)) * 1e-6);
    if (w != n) {
      bool expired = t1 - t0 >= c.writeTimeout * MS - TOL;
      VMC_CHECK(expired || aborted || closed || resets, "failed", "write of %d failed (%s) after %.1f ms, %zu bytes read by the peer", n, errorCodeToStr(e).c_str(), (t1 - t0) * 1e-6, got.size());
      // nothing more may be written on this connection
      string y = "x";
      int64_t t2 = fib::now();
      VMC_CHECK(p.cli->write(&y[0], 1, retry) == -1 && fib::now() - t2 < TOL, "again", "writing went on after a failed write");
    }
    // a slice that is not the last may run on: the rest of the data reaches the reader
    t.join();
    if (!closed && !resets) {
      p.sab.flag = false;
      if (p.srv->getReadErrCode() == OK || p.srv->getReadErrCode() == WDT_TIMEOUT)
        while ((int)got.size() < n) {
          char b[600];
          int k = p.srv->readWithTimeout(b, sizeof b, 200, false);
          if (k <= 0) break;
          got.append(b, k);
        }
      if (w == n) VMC_CHECK((int)got.size() == n, "lost", "%zu of %d written bytes arrived", got.size(), n);
    }
    VMC_CHECK(got == d.substr(0, got.size()), "data", "bytes differ from those written");
    if (ab.joinable()) ab.join();
    p.cli->closeNoCheck();
    p.srv->closeNoCheck();
    outcome(string(w == n ? "all" : "failed") + (aborted ? " aborted" : ""));
  });
}

static void acceptSide() {
  Cfg c = limits();
  int connectAt = pick(std::vector<int>{-1, 0, 50, 149, 240, 900}, "connect");
  int limit = pick(std::vector<int>{60, 150, 400}, "limit");
  int abortAt = pick(std::vector<int>{-1, 0, 120, 300}, "abort");
  bool cur = flip(INPUT, "same-address");
  net::opt.v6 = flip(INPUT, "two-addresses");
  fib::run([&] {
    Pair p(c);
    if (net::opt.v6) p.so.ipv4 = p.co.ipv4 = false;
    p.srv = std::make_unique<ServerSocket>(*p.sctx, 7001, 5, EncryptionParams(), 0, nullptr);
    p.cli = std::make_unique<ClientSocket>(*p.cctx, "localhost", 7001, EncryptionParams(), 0);
    VMC_CHECK(p.srv->listen() == OK, "listen", "listen failed");
    int64_t connTime = fib::NEVER, abortTime = fib::NEVER;
    std::thread t([&] {
      if (connectAt < 0) return;
      if (connectAt) nap(connectAt);
      if (p.cli->connect() == OK) connTime = fib::now();
    });
    std::thread ab([&] {
      if (abortAt < 0) return;
      if (abortAt) nap(abortAt);
      p.sab.flag = true;
      abortTime = fib::now();
    });
    int64_t t0 = fib::now();
    ErrorCode e = p.srv->acceptNextConnection(limit, cur);
    int64_t t1 = fib::now();
    VMC_CHECK(t1 - t0 <= limit * MS + TOL, "too-long", "accept with limit %d ms took %.1f ms", limit, (t1 - t0) * 1e-6);
    bool ai = c.abortInterval > 0;
    if (e == OK) VMC_CHECK(p.srv->getFd() >= 0 && connTime <= t1, "accept", "accepted nothing");
    else if (e == ABORT) VMC_CHECK(ai && abortTime <= t1, "abort", "abort reported without one");
    else {
      VMC_CHECK(e == CONN_ERROR, "code", "%s", errorCodeToStr(e).c_str());
      VMC_CHECK(t1 - t0 >= limit * MS - TOL, "early", "accept gave up after %.1f of %d ms", (t1 - t0) * 1e-6, limit);
    }
    if (e != OK) VMC_CHECK(connTime > t1 - TOL || (e == ABORT && connTime > abortTime - TOL), "missed", "a connection made after %.1f ms was not accepted (%s)", (connTime - t0) * 1e-6, errorCodeToStr(e).c_str());
    if (ai && abortTime != fib::NEVER) VMC_CHECK(t1 <= std::max(t0, abortTime) + c.abortInterval * MS + TOL, "abort", "accept went on for %.1f ms after the abort", (t1 - abortTime) * 1e-6);
    t.join();
    ab.join();
    if (e == OK) {
      p.sab.flag = false;
      string x = "hello";
      char b[5];
      VMC_CHECK(p.cli->write(&x[0], 5) == 5 && p.srv->read(b, 5, true) == 5 && string(b, 5) == x, "usable", "accepted connection is not usable");
    }
    p.cli->closeNoCheck();
    p.srv->closeAllNoCheck();
    VMC_CHECK(net::openSockets() == 0, "leak", "%d sockets left open", net::openSockets());
    outcome(errorCodeToStr(e));
  });
}

static void connectSide() {
  Cfg c = limits();
  int serverAt = pick(std::vector<int>{0, -1, 120}, "listen");
  int abortAt = pick(std::vector<int>{-1, 0, 130}, "abort");
  net::opt.v6 = flip(INPUT, "two-addresses");
  net::opt.onConnect = {net::REFUSE, net::TIMEOUT, net::INPROGRESS};
  net::opt.stall = 150 * MS;
  fib::run([&] {
    Pair p(c);
    if (net::opt.v6) p.so.ipv4 = p.co.ipv4 = false;
    p.srv = std::make_unique<ServerSocket>(*p.sctx, 7001, 5, EncryptionParams(), 0, nullptr);
    p.cli = std::make_unique<ClientSocket>(*p.cctx, "localhost", 7001, EncryptionParams(), 0);
    if (serverAt == 0) p.srv->listen();
    int64_t abortTime = fib::NEVER;
    std::thread t([&] { if (serverAt > 0) { nap(serverAt); p.srv->listen(); } });
    std::thread ab([&] {
      if (abortAt < 0) return;
      if (abortAt) nap(abortAt);
      p.cab.flag = true;
      abortTime = fib::now();
    });
    string res;
    for (int i = 0; i < 3; ++i) {
      uint64_t f0 = net::stats.faults;
      int64_t t0 = fib::now();
      ErrorCode e = p.cli->connect();
      int64_t t1 = fib::now();
      int addrs = net::opt.v6 ? 2 : 1;
      VMC_CHECK(t1 - t0 <= addrs * c.connectTimeout * MS + TOL, "too-long", "connect with limit %d ms took %.1f ms", c.connectTimeout, (t1 - t0) * 1e-6);
      if (c.abortInterval > 0 && abortTime != fib::NEVER)
        VMC_CHECK(t1 <= std::max(t0, abortTime) + c.abortInterval * MS + TOL, "abort", "connect went on for %.1f ms after the abort", (t1 - std::max(t0, abortTime)) * 1e-6);
      res += errorCodeToStr(e) + " ";
      if (e == OK) {
        VMC_CHECK(p.cli->getFd() >= 0, "fd", "connected without descriptor");
        p.sab.flag = false;
        t.join();
        VMC_CHECK(p.srv->acceptNextConnection(500, true) == OK, "accept", "nothing to accept after connect");
        string x = "hello";
        char b[5];
        bool stop = c.abortInterval > 0 && p.cab.flag;
        int w = p.cli->write(&x[0], 5);
        if (!stop) VMC_CHECK(w == 5 && p.srv->read(b, 5, true) == 5 && string(b, 5) == x, "usable", "connection is not usable");
        break;
      }
      VMC_CHECK(p.cli->getFd() < 0, "fd", "failed connect leaves a descriptor");
      if (e == ABORT) { VMC_CHECK(abortTime <= t1, "abort", "abort reported without one"); break; }
      VMC_CHECK(e == CONN_ERROR_RETRYABLE, "code", "%s", errorCodeToStr(e).c_str());
      VMC_CHECK(net::stats.faults > f0 || serverAt != 0, "refused", "connect failed with a listening server");
    }
    if (t.joinable()) t.join();
    ab.join();
    p.cli->closeNoCheck();
    p.srv->closeAllNoCheck();
    VMC_CHECK(net::openSockets() == 0, "leak", "%d sockets left open", net::openSockets());
    outcome(res);
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C30";
  c.rule = "One or two real sockets over the virtual network in virtual time: every listed script of the peer (arrival times and sizes, closing), requested size, full or partial, own and configured time limit, check interval (also disabled), time of abort, segment size; with every placement of short counts, interruptions, stalls, resets and thread switches within the bounds. Byte contents, counts, error codes and virtual durations are compared with the limits.";
  c.assumptions = {"Virtual network and time: poll and socket time-outs as POSIX describes them."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  add("read", [] { readSide(false, false); }, {Bounds(0), Bounds(1)}, {Bounds(1), Bounds(2)});
  add("read-faults", [] { readSide(true, false); }, {Bounds(1), Bounds(2).set(SCHED, 0)}, {Bounds(2)}, 2);
  add("read-resets", [] { readSide(true, true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(1)});
  add("write", [] { writeSide(false, false); }, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(1), Bounds(2)});
  add("write-faults", [] { writeSide(true, false); }, {Bounds(1), Bounds(2)}, {Bounds(2)}, 2);
  add("write-resets", [] { writeSide(true, true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(1)});
  add("accept", acceptSide, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(2)});
  add("connect", connectSide, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(3)});
  return runCheck(c, argc, argv);
}
