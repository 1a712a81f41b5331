// C17: the encrypted connection carries any byte stream unchanged
#include "sock.h"
using namespace vmc;
using namespace sock;

typedef std::vector<int> Sizes;
static string data(int n, int seed) { return fs::pattern(n, seed); }
static int sum(const Sizes& s) { int n = 0; for (int x : s) n += x; return n; }
static const std::vector<std::pair<EncryptionType, int>> kModes{{ENC_AES128_GCM, 0}, {ENC_AES128_GCM, 8}, {ENC_AES128_GCM, 1}, {ENC_AES128_GCM, 5}, {ENC_AES128_GCM, 64}, {ENC_AES128_CTR, 0}, {ENC_NONE, 0}};
static Cfg mode() {
  Cfg c;
  auto m = pick(kModes, "cipher");
  c.cType = c.sType = m.first;
  c.cTag = c.sTag = m.second;
  if (m.first == ENC_AES128_GCM && m.second) {
    c.iv = pick(std::vector<int64_t>{0, 1, 8, 16, 21}, "iv");
    if (c.iv && c.iv < m.second) c.iv = m.second;  // the interval is at least one tag interval
  }
  return c;
}
template <class S> static void writeAll(S& s, const string& d, const Sizes& pieces, const char* who) {
  int p = 0;
  for (int n : pieces) {
    string x = d.substr(p, n);
    int w = s.write(&x[0], n, true);
    VMC_CHECK(w == n, "write", "%s: write of %d bytes at %d returned %d", who, n, p, w);
    p += n;
  }
}
template <class S> static string readAll(S& s, int total, const Sizes& reads, bool full, const char* who) {
  string got;
  size_t i = 0;
  while ((int)got.size() < total) {
    int n = reads[i++ % reads.size()];
    if (full) n = std::min<int>(n, total - got.size());
    std::vector<char> b(n + 8, 0x5a);
    int64_t t0 = fib::now();
    int r = s.read(b.data(), n, full);
    VMC_CHECK(r > 0, "read", "%s: read of %d at %zu of %d returned %d (%s) after %.3fs", who, n, got.size(), total, r, errorCodeToStr(s.getReadErrCode()).c_str(), (fib::now() - t0) * 1e-9);
    VMC_CHECK(r <= n && (!full || r == n), "read-size", "%s: read of %d returned %d", who, n, r);
    for (int k = n; k < n + 8; ++k) VMC_CHECK(b[k] == 0x5a, "overrun", "%s: read wrote past its buffer", who);
    got.append(b.data(), r);
  }
  VMC_CHECK((int)got.size() == total, "too-much", "%s: %zu bytes read, %d written", who, got.size(), total);
  return got;
}
static void same(const string& a, const string& b, const char* who) {
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
  VMC_CHECK(a == b, "data", "%s: byte %zu differs", who, k);
}
static void closing(Pair& p, int order) {
  // orderly end as in a transfer: both half-closes, both ends of stream
  std::thread t([&] {
    ErrorCode e = p.cli->shutdownWrites();
    VMC_CHECK(e == OK, "client-shutdown", "client shutdownWrites: %s", errorCodeToStr(e).c_str());
    e = p.cli->expectEndOfStream();
    VMC_CHECK(e == OK, "client-eos", "client end of stream: %s", errorCodeToStr(e).c_str());
    e = p.cli->closeConnection();
    VMC_CHECK(e == OK, "client-close", "client close: %s", errorCodeToStr(e).c_str());
  });
  ErrorCode e;
  if (order == 0) {
    e = p.srv->expectEndOfStream();
    VMC_CHECK(e == OK, "server-eos", "server end of stream: %s", errorCodeToStr(e).c_str());
    e = p.srv->shutdownWrites();
    VMC_CHECK(e == OK, "server-shutdown", "server shutdownWrites: %s", errorCodeToStr(e).c_str());
  }
  e = p.srv->closeConnection();
  VMC_CHECK(e == OK, "server-close", "server close: %s", errorCodeToStr(e).c_str());
  t.join();
}

/// one direction or both at once, free-running
static void stream(bool faults) {
  Cfg c = mode();
  static const std::vector<Sizes> writes{{1}, {8}, {16}, {5, 3}, {7, 9, 1}, {24, 1}, {3, 3, 3, 3, 3, 3}, {40}, {8, 8, 8}};
  static const std::vector<Sizes> reads{{1}, {3}, {8}, {64}, {1, 16}, {7, 9}};
  Sizes w = pick(writes, "writes"), r = pick(reads, "reads");
  bool full = flip(INPUT, "full");
  bool both = flip(INPUT, "both");
  net::opt.maxRead = pick(std::vector<size_t>{1 << 30, 1, 5}, "segment");
  net::opt.maxWrite = pick(std::vector<size_t>{1 << 30, 3}, "wsegment");
  if (faults) {
    net::opt.onRead = {net::SHORT1, net::HALF, net::EINTR_};
    net::opt.onWrite = {net::SHORT1, net::HALF, net::EINTR_};
  }
  int n = sum(w);
  string d = data(n, 1), e = data(n, 2), gd, ge;
  fib::run([&] {
    Pair p(c);
    p.connect();
    std::thread t([&] {
      writeAll(*p.cli, d, w, "client");
      if (both) ge = readAll(*p.cli, n, r, full, "client");
    });
    std::thread t2;
    if (both) t2 = std::thread([&] { writeAll(*p.srv, e, w, "server"); });
    gd = readAll(*p.srv, n, r, full, "server");
    t.join();
    if (both) t2.join();
    same(gd, d, "server");
    if (both) same(ge, e, "client");
    if (both) closing(p, 0);
    else {
      // the server never wrote: nothing to expect from it
      VMC_CHECK(p.cli->shutdownWrites() == OK, "client-shutdown", "client shutdownWrites");
      ErrorCode x = p.srv->expectEndOfStream();
      VMC_CHECK(x == OK, "server-eos", "server end of stream: %s", errorCodeToStr(x).c_str());
    }
    outcome("ok" + std::to_string(p.tagsVerified));
  });
}
/// request and answer: a message must be delivered without waiting for the next one
static void dialog() {
  Cfg c = mode();
  static const std::vector<std::pair<Sizes, Sizes>> talks{{{8, 8}, {8, 8}}, {{1, 7, 8}, {8, 1, 1}}, {{16, 3}, {5, 3}}, {{24, 8, 1}, {1, 1, 6}}, {{5, 3, 8, 5}, {10, 6, 1, 1}}, {{64, 64}, {64, 1}}};
  auto talk = pick(talks, "talk");
  int buf = pick(std::vector<int>{100, 8, 17, 9}, "buffer");
  net::opt.maxRead = pick(std::vector<size_t>{1 << 30, 1, 5}, "segment");
  net::opt.onRead = {net::SHORT1, net::HALF};
  fib::run([&] {
    Pair p(c);
    p.connect();
    auto recv = [&](auto& s, int n, int seed, const char* who) {
      string got;
      while ((int)got.size() < n) {
        std::vector<char> b(buf);
        int64_t t0 = fib::now();
        int r = s.read(b.data(), buf, false);
        VMC_CHECK(r > 0, "stuck", "%s: %zu of %d bytes of a message that was completely sent arrived, then read returned %d (%s) after %.3fs", who, got.size(), n, r, errorCodeToStr(s.getReadErrCode()).c_str(), (fib::now() - t0) * 1e-9);
        VMC_CHECK(fib::now() - t0 < 50 * fib::MS, "slow", "%s: bytes already sent were delivered only after %.3fs", who, (fib::now() - t0) * 1e-9);
        got.append(b.data(), r);
      }
      VMC_CHECK(got == data(n, seed), "data", "%s: message differs", who);
    };
    size_t rounds = talk.first.size();
    std::thread t([&] {
      for (size_t i = 0; i < rounds; ++i) {
        string d = data(talk.first[i], 10 + i);
        VMC_CHECK(p.cli->write(&d[0], d.size()) == (int)d.size(), "write", "client write");
        recv(*p.cli, talk.second[i], 20 + i, "client");
      }
    });
    for (size_t i = 0; i < rounds; ++i) {
      recv(*p.srv, talk.first[i], 10 + i, "server");
      string d = data(talk.second[i], 20 + i);
      VMC_CHECK(p.srv->write(&d[0], d.size()) == (int)d.size(), "write", "server write");
    }
    t.join();
    closing(p, 0);
    outcome("ok");
  });
}
/// a read that timed out may be repeated
static void retry() {
  Cfg c = mode();
  c.readTimeout = 100000;
  static const std::vector<Sizes> writes{{8, 8}, {5, 3, 8}, {16, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}};
  Sizes w = pick(writes, "writes");
  int chunk = pick(std::vector<int>{1, 3, 8}, "chunk");
  net::opt.stall = 300 * fib::MS;
  net::opt.onWrite = {net::STALL, net::SHORT1};
  fib::run([&] {
    Pair p(c);
    p.connect();
    int n = sum(w);
    string d = data(n, 1), got;
    std::thread t([&] { writeAll(*p.cli, d, w, "client"); });
    int timeouts = 0;
    while ((int)got.size() < n) {
      std::vector<char> b(chunk);
      int want = std::min<int>(chunk, n - got.size());
      int r = p.srv->readWithTimeout(b.data(), want, 200, true);
      if (r <= 0) {
        VMC_CHECK(p.srv->getReadErrCode() == WDT_TIMEOUT, "retry", "read of %d at %zu returned %d: %s", want, got.size(), r, errorCodeToStr(p.srv->getReadErrCode()).c_str());
        VMC_CHECK(++timeouts < 40, "endless", "only time-outs");
        continue;
      }
      got.append(b.data(), r);
    }
    same(got, d, "server");
    t.join();
    outcome("timeouts" + std::to_string(timeouts));
  });
}
/// peers that do not agree on the encryption
static void mismatch() {
  static const std::vector<EncryptionType> ts{ENC_NONE, ENC_AES128_CTR, ENC_AES128_GCM};
  Cfg c;
  c.cType = pick(ts, "client");
  c.sType = pick(ts, "server");
  c.cTag = pick(std::vector<int>{0, 4}, "ctag");
  c.sTag = pick(std::vector<int>{0, 4}, "stag");
  bool otherKey = flip(INPUT, "other-key");
  if (otherKey) c.sKey = "fedcba9876543210";
  net::opt.maxRead = pick(std::vector<size_t>{1 << 30, 1}, "segment");
  fib::run([&] {
    Pair p(c);
    p.connect();
    string d = "Lhello world, this is a message";  // no encryption command byte first
    std::thread t([&] {
      string x = d;
      VMC_CHECK(p.cli->write(&x[0], x.size()) == (int)x.size(), "write", "client write");
      p.cli->shutdownWrites();
    });
    string got;
    bool failed = false;
    while (got.size() < d.size()) {
      char b[64];
      int r = p.srv->read(b, d.size() - got.size(), true);
      if (r <= 0) { failed = true; break; }
      got.append(b, r);
    }
    ErrorCode rc = p.srv->getReadErrCode();
    ErrorCode eos = failed ? OK : p.srv->expectEndOfStream();
    ErrorCode cc = p.srv->closeConnection();
    t.join();
    string sit = encryptionTypeToStr(c.cType) + "/" + encryptionTypeToStr(c.sType) + (otherKey ? " other key" : "");
    bool same = c.cType == c.sType && (!otherKey || c.cType == ENC_NONE);
    if (same) VMC_CHECK(!failed && got == d && eos == OK && cc == OK, "agree", "%s: failed %d, equal %d, end %s, close %s", sit.c_str(), failed, got == d, errorCodeToStr(eos).c_str(), errorCodeToStr(cc).c_str());
    else if (c.cType == ENC_NONE) {
      // documented: an unencrypted peer is served in clear
      VMC_CHECK(!failed && got == d, "clear", "%s: clear text misread", sit.c_str());
      VMC_CHECK(p.srv->getEncryptionType() == ENC_NONE, "clear", "%s: connection still claims encryption", sit.c_str());
    } else if (c.sType == ENC_NONE) {
      VMC_CHECK(got.empty() || got[0] == 'e', "refuse", "%s: first byte is not the encryption command", sit.c_str());
    } else if (c.cType != c.sType) {
      VMC_CHECK(failed && got.empty() && rc != OK, "refuse", "%s: %zu bytes delivered, %s", sit.c_str(), got.size(), errorCodeToStr(rc).c_str());
    } else if (c.cType == ENC_AES128_GCM) {
      VMC_CHECK(failed || eos != OK || cc != OK, "wrong-key", "%s: clean end", sit.c_str());
    }
    outcome(sit + ":" + (failed ? "failed " + errorCodeToStr(rc) : "read") + "," + errorCodeToStr(eos) + "," + errorCodeToStr(cc));
  });
}
/// the same socket object serves connection after connection
static void reuse() {
  Cfg c = mode();
  int first = choose(4, INPUT, "first");  // how the first connection ends
  fib::run([&] {
    Pair p(c);
    p.connect();
    string d = data(19, 1);
    {
      std::thread t([&] { string x = d; p.cli->write(&x[0], 19); if (first == 3) p.cli->shutdownWrites(); });
      char b[32];
      if (first != 0) VMC_CHECK(p.srv->read(b, first == 1 ? 5 : 19, true) > 0, "read", "first read");
      if (first == 3) VMC_CHECK(p.srv->expectEndOfStream() == OK, "eos", "end of stream");
      t.join();
      p.cli->closeNoCheck();
      if (first == 2) p.srv->closeNoCheck();
      else p.srv->closeConnection();
    }
    VMC_CHECK(p.cli->connect() == OK && p.srv->acceptNextConnection(1000, true) == OK, "reconnect", "reconnect failed");
    std::thread t([&] { writeAll(*p.cli, d, {3, 16}, "client"); string g = readAll(*p.cli, 19, {7}, true, "client"); same(g, d, "client"); });
    string g = readAll(*p.srv, 19, {5, 8}, true, "server");
    same(g, d, "server");
    writeAll(*p.srv, d, {19}, "server");
    t.join();
    closing(p, 0);
    outcome("ok");
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C17";
  c.rule = "Two real sockets over the virtual network: every listed cipher, tag interval and initialisation-vector interval with every listed pattern of writes and reads, full or partial reads, one or both directions, segment sizes; request/answer dialogs; repeated reads after time-outs; disagreeing peers; reuse of the socket objects; combined with every placement of segmentation, interruption and stall faults and thread switches within the bounds.";
  c.assumptions = {"OpenSSL is taken as correct.", "Virtual network and time."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  add("stream", [] { stream(false); }, {Bounds(0)}, {Bounds(1)});
  add("stream-faults", [] { stream(true); }, {Bounds(1).set(SCHED, 0)}, {Bounds(1), Bounds(2).set(SCHED, 0)}, 3);
  add("dialog", dialog, {Bounds(0), Bounds(1)}, {Bounds(2)});
  add("retry", retry, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)});
  add("mismatch", mismatch, {Bounds(0)}, {Bounds(1), Bounds(2)});
  add("reuse", reuse, {Bounds(0)}, {Bounds(1), Bounds(2)});
  return runCheck(c, argc, argv);
}
