// C23: different protocol versions interoperate or refuse each other cleanly
#include "e2ecases.h"
#include "wire.h"
using namespace vmc;
using namespace e2e;
using std::string;

// the threads of a sender or receiver (private members)
using Threads = std::vector<std::unique_ptr<WdtThread>>;
template <class C, Threads C::*M>
struct Peek {
  friend Threads& threadsOf(C& c) { return c.*M; }
};
Threads& threadsOf(Sender&);
Threads& threadsOf(Receiver&);
template struct Peek<Sender, &Sender::senderThreads_>;
template struct Peek<Receiver, &Receiver::receiverThreads_>;

static const int CUR = Protocol::protocol_version;
static std::vector<int> versions() {
  std::vector<int> v{1, 9};
  for (int i = 10; i <= CUR + 1; ++i) v.push_back(i);
  v.push_back(1000000);
  return v;
}
/// what both support; 0: nothing
static int expected(int s, int r) {
  int a = s < 10 ? 0 : std::min(s, CUR), b = r < 10 ? 0 : std::min(r, CUR);
  return std::min(a, b);
}
static bool versionProblem(ErrorCode e) { return e == VERSION_MISMATCH || e == VERSION_INCOMPATIBLE; }

// ---------------------------------------------------------------- negotiation
static void negotiation() {
  std::vector<int> v;
  for (int i = -3; i <= CUR + 3; ++i) v.push_back(i);
  for (int i : {100, 1 << 20, INT_MAX, INT_MIN}) v.push_back(i);
  int asked = pick(v, "requested"), own = pick(v, "own");
  int n = Protocol::negotiateProtocol(asked, own);
  if (own < 10) {
    VMC_CHECK(n <= own || n == 0, "negotiate", "%d with %d gives %d", asked, own, n);
    return;
  }
  int want = asked < 10 ? 0 : std::min(asked, own);
  VMC_CHECK(n == want, "negotiate", "a request of %d with %d gives %d", asked, own, n);
  // the peer, told the result, agrees with it
  if (n && asked >= 10) VMC_CHECK(Protocol::negotiateProtocol(n, asked) == n, "negotiate", "the version %d of %d and %d is not accepted", n, asked, own);
  state(hash(std::to_string(n)));
}

// ---------------------------------------------------------------- what a sender says
// Reads the clear stream of one connection as a peer of version n would, and
// returns what such a peer cannot know.
struct Stream {
  const string& d;
  size_t p = 0;
  bool bad = false;
  unsigned char byte() { return p < d.size() ? d[p++] : (bad = true, 0); }
  uint64_t var() {
    uint64_t v = 0;
    for (int i = 0; i < 9; ++i) {
      unsigned char b = byte();
      if (i == 8) return v | (uint64_t)b << 56;
      v |= (uint64_t)(b & 127) << (7 * i);
      if (b < 128) break;
    }
    return v;
  }
  void skip(uint64_t n) { if (n > d.size() - p) bad = true, p = d.size(); else p += n; }
};
struct Said {
  int version = -1, footers = 0, sizes = 0, blocks = 0, done = 0;
  string wrong;
};
static Said listen(const string& d, int n) {
  Said r;
  Stream x{d};
  bool footer = false;
  while (x.p < d.size() && !x.bad && r.wrong.empty()) {
    size_t at = x.p;
    char cmd = (char)x.byte();
    string where = string("'") + cmd + "' at " + std::to_string(at);
    if (cmd == 'S') {
      int v = (int)x.var();
      if (r.version < 0) r.version = v;
      if (v != n) return r;  // will be refused
      x.var(), x.var(), x.skip(x.var());
      int flags = n >= 12 ? x.byte() : 0;
      footer = flags & 1;
      // padded so that the receiver reads it at once
      if (flags & 2) x.p = std::min(d.size(), at + 256);
      if (flags & 8 && n < 29) r.wrong = "settings flags " + std::to_string(flags);
    } else if (cmd == 'L') {
      x.byte();
      size_t len = x.byte();
      len |= (size_t)x.byte() << 8;
      x.skip(x.var());
      x.var();
      uint64_t data = x.var();
      x.var(), x.var();
      if (n >= 13) {
        int st = x.byte();
        if (st == 2 || st == 3) x.var();
        if (st == 4 && n < 26) r.wrong = where + ": a file to be deleted";
      }
      if (!x.bad && x.p - at != len) r.wrong = where + ": a header of " + std::to_string(x.p - at) + " bytes, announced " + std::to_string(len);
      x.skip(data);
      ++r.blocks;
      if (!x.bad && footer && (x.p >= d.size() || d[x.p] != 'F')) r.wrong = where + ": no checksum after the block";
    } else if (cmd == 'F') {
      x.var();
      ++r.footers;
      if (!footer) r.wrong = where + ": a checksum that was not announced";
    } else if (cmd == 'Z') {
      x.var();
      ++r.sizes;
      if (n < 11) r.wrong = where + ": unknown to the peer";
    } else if (cmd == 'a' && n >= 13) {
      ;  // the list of chunks has arrived
    } else if (cmd == 'D') {
      if (r.done && x.p == d.size()) break;  // acknowledges the answer
      ++r.done;
      x.skip(255);
    } else {
      r.wrong = where + ": unknown";
    }
  }
  if (x.bad && r.wrong.empty()) r.wrong = "ends within a message: " + std::to_string(d.size()) + " " + wire::hex(d, 200) + " blocks " + std::to_string(r.blocks);
  return r;
}

// ---------------------------------------------------------------- transfers
struct Mode {
  const char* enc;
  bool checksum, blocks, resume;
  int ports;
};
static Cfg conf(const Mode& m) {
  Cfg c;
  c.files = {{"a", 40000}, {"d/b", 0}, {"c", 300}, {"d/e", 1}};
  if (m.blocks) c.files.push_back({"big", (1 << 20) + 5});
  c.src = shared() + (m.blocks ? "/srcb" : "/src");
  c.ports = m.ports;
  c.both = [m](WdtOptions& o) {
    o.encryption_type = m.enc;
    o.enable_checksum = m.checksum;
    o.block_size_mbytes = m.blocks ? 1 : 0;
    o.enable_download_resumption = m.resume;
    o.keep_transfer_log = false;
    o.delete_extra_files = false;
    o.iv_change_interval_mb = 1;  // happens in block mode
    o.encryption_tag_interval_bytes = 65536;
  };
  return c;
}
static void judge(Xfer& x, const Cfg& c, int s, int r, const string& what) {
  int n = expected(s, r);
  if (n) {
    VMC_CHECK(x.S.ok() && x.R.ok(), "failed", "%s: %s", what.c_str(), x.codes().c_str());
    string d = compareDst(c);
    VMC_CHECK(d.empty(), "copy", "%s: %s", what.c_str(), d.c_str());
    for (auto& t : threadsOf(*x.sender)) {
      ErrorCode e = t->getTransferStats().getLocalErrorCode();
      VMC_CHECK(e == OK, "connection", "%s: a connection of the sender ended with %s", what.c_str(), errorCodeToStr(e).c_str());
    }
    for (auto& t : threadsOf(*x.receiver)) {
      ErrorCode e = t->getTransferStats().getLocalErrorCode();
      VMC_CHECK(e == OK, "connection", "%s: a connection of the receiver ended with %s", what.c_str(), errorCodeToStr(e).c_str());
    }
    VMC_CHECK(x.sender->getProtocolVersion() == n, "agreed", "%s: the sender ends with version %d, the highest both support is %d", what.c_str(), x.sender->getProtocolVersion(), n);
  } else {
    VMC_CHECK(!x.S.ok() && !x.R.ok(), "accepted", "%s: %s", what.c_str(), x.codes().c_str());
    bool sv = versionProblem(x.S.localErr) || versionProblem(x.S.remoteErr) || versionProblem(x.S.err);
    bool rv = versionProblem(x.R.localErr) || versionProblem(x.R.remoteErr) || versionProblem(x.R.err);
    // a side that is not started, or never reached, cannot know
    if (x.S.initOk && x.R.initOk) VMC_CHECK(sv && rv, "unreported", "%s: sender %s/%s, receiver %s/%s", what.c_str(), errorCodeToStr(x.S.localErr).c_str(), errorCodeToStr(x.S.remoteErr).c_str(), errorCodeToStr(x.R.localErr).c_str(), errorCodeToStr(x.R.remoteErr).c_str());
    if (!x.R.initOk) VMC_CHECK(rv && r < 10, "unreported", "%s: the receiver does not start, %s", what.c_str(), errorCodeToStr(x.R.err).c_str());
    else if (!x.S.initOk) VMC_CHECK((sv || s < 0) && s < 10, "unreported", "%s: the sender does not start, %s", what.c_str(), errorCodeToStr(x.S.err).c_str());
  }
}
// told: the sender only knows the version from the url (of the receiver, or one edited by hand)
static void pairs(bool told) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = false;
  int r = pick(versions(), "receiver"), s;
  if (told) {
    std::vector<int> v{INT_MAX, -1, 0, 1, 9, 10, 11, 22, CUR, CUR + 1, INT_MAX - 1, INT_MIN};
    s = pick(v, "url");  // the first one: as it is
  } else {
    s = pick(versions(), "sender");
  }
  Mode m;
  m.enc = pick(std::vector<const char*>{"none", "aes128ctr", "aes128gcm"}, "encryption");
  m.checksum = flip(INPUT, "checksum");
  int k = choose(3, INPUT, "blocks, resumption");
  m.blocks = !told && k;
  m.resume = k > 1;
  m.ports = told ? 1 : 1 + choose(3, INPUT, "ports");
  // little in flight: the connections take turns
  bool narrow = m.ports > 1 && flip(INPUT, "narrow");
  Cfg c = conf(m);
  c.rProto = r;
  if (!told) c.sProto = s;
  string what = (told && s == INT_MAX ? "sender as told" : "sender " + std::to_string(s)) + ", receiver " + std::to_string(r) + ", " + m.enc + (m.checksum ? ", checksum" : "") + (m.blocks ? ", blocks" : "") + (m.resume ? ", resumption" : "") + ", " + std::to_string(m.ports) + " ports" + (narrow ? ", narrow" : "");
  net::reset();
  if (narrow) net::opt.cap = 3000;
  std::map<std::pair<int, int>, string> said;
  net::opt.tap = [&](int port, int conn, int dir, string& d) {
    if (!dir) said[{port, conn}] += d;
  };
  fib::run([&] {
    Xfer x(c);
    if (told && s != INT_MAX)
      x.onSenderReq = [&](WdtTransferRequest& q) {
        string u = x.url;
        size_t i = u.find("recpv=");
        VMC_CHECK(i != string::npos, "url", "no version in %s", u.c_str());
        size_t j = u.find('&', i);
        u = u.substr(0, i) + "recpv=" + std::to_string(s) + (j == string::npos ? "" : u.substr(j));
        string dir = q.directory;
        q = WdtTransferRequest(u);
        VMC_CHECK(q.errorCode == OK, "url", "%s is rejected", u.c_str());
        q.directory = dir;
      };
    x.run();
    if (x.S.initOk || x.S.done || !x.R.initOk) judge(x, c, told && s == INT_MAX ? r : s, r, what);
    int n = expected(told && s == INT_MAX ? r : s, r);
    if (n) {
      // encryption is the receiver's decision
      EncryptionType enc = r >= 23 ? parseEncryptionType(m.enc) : ENC_NONE;
      VMC_CHECK(x.S.report->getSummary().getEncryptionType() == enc && x.R.report->getSummary().getEncryptionType() == enc, "encryption", "%s: the sender used %s, the receiver %s", what.c_str(), encryptionTypeToStr(x.S.report->getSummary().getEncryptionType()).c_str(), encryptionTypeToStr(x.R.report->getSummary().getEncryptionType()).c_str());
      if (enc == ENC_NONE) {
        bool size = false;
        for (auto& k : said) {
          Said q = listen(k.second, n);
          VMC_CHECK(q.wrong.empty(), "stream", "%s: the stream to port %d: %s", what.c_str(), k.first.first, q.wrong.c_str());
          if (q.version != n) continue;
          VMC_CHECK(q.done == 1, "stream", "%s: %d done messages on port %d", what.c_str(), q.done, k.first.first);
          VMC_CHECK(q.footers == (m.checksum && n >= 12 ? q.blocks : 0), "checksum", "%s: %d checksums for %d blocks on port %d", what.c_str(), q.footers, q.blocks, k.first.first);
          size |= q.sizes > 0;
        }
        VMC_CHECK(size || n < 11, "size", "%s: the total size was not sent", what.c_str());
      }
    }
    outcome(x.codes());
    x.destroy();
  });
}
static const std::vector<std::pair<int, int>>& some() {
  static const std::vector<std::pair<int, int>> v{{CUR, 11}, {CUR, 10}, {CUR, 12}, {CUR, 13}, {CUR, 16}, {CUR, 21}, {CUR, 22}, {CUR, 23}, {CUR, 26}, {CUR, 29}, {11, CUR}, {13, CUR}, {22, CUR}, {24, CUR}, {29, CUR}, {23, 11}, {CUR, 9}, {9, CUR}};
  return v;
}
// what newer versions added, against peers without it
static void features() {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = false;
  bool perturb = flip(INPUT, "reconnect"), told = !perturb && flip(INPUT, "told");
  // the version before and of each feature
  static const std::vector<int> v{10, 11, 12, 13, 15, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, CUR};
  int s = CUR, r;
  if (perturb) {
    auto sr = pick(some(), "versions");
    s = sr.first;
    r = sr.second;
  } else {
    r = pick(v, "receiver");
    if (!told) s = pick(v, "sender");
  }
  bool beat = flip(INPUT, "heart-beat"), del = flip(INPUT, "delete");
  Mode m{flip(INPUT, "encrypted") ? "aes128gcm" : "none", true, false, del || flip(INPUT, "resume"), 1 + choose(2, INPUT, "ports")};
  Cfg c = conf(m);
  c.rProto = r;
  if (!told) c.sProto = s;
  auto both = c.both;
  c.both = [=](WdtOptions& o) {
    both(o);
    o.enable_heart_beat = beat;
    o.delete_extra_files = del;
    if (del) {  // extra files are those of the directory
      o.resume_using_dir_tree = true;
      o.disable_preallocation = true;
    }
    if (beat) {
      // slow enough for many of them
      o.read_timeout_millis = o.write_timeout_millis = 600;
      o.avg_mbytes_per_sec = o.max_mbytes_per_sec = 0.03;
      o.throttler_bucket_limit = 0.001;
      o.buffer_size = 4096;
    }
  };
  string what = (told ? "sender as told" : "sender " + std::to_string(s)) + ", receiver " + std::to_string(r) + ", " + m.enc + (beat ? ", heart-beat" : "") + (del ? ", delete" : "") + (m.resume ? ", resumption" : "") + ", " + std::to_string(m.ports) + " ports";
  int n = expected(s, r);
  net::reset();
  if (perturb) setFaults(BREAK);
  fib::run([&] {
    fs::writeFile(path(c.dst) + "/extra", "extra");
    Xfer x(c);
    x.run();
    bool extra = fs::snapshot(path(c.dst)).count("extra");
    if (!net::stats.faults) judge(x, c, told ? r : s, r, what);
    string d = compareDst(c);
    VMC_CHECK(!x.S.ok() || d.empty(), "copy", "%s: the sender reports success, %s", what.c_str(), d.c_str());
    VMC_CHECK(!x.R.ok() || d.empty(), "copy", "%s: the receiver reports success, %s", what.c_str(), d.c_str());
    if (!del) VMC_CHECK(extra, "deleted", "%s: a file was deleted", what.c_str());
    else if (x.S.ok() && x.R.ok() && n >= Protocol::DELETE_CMD_VERSION) VMC_CHECK(!extra, "kept", "%s: the extra file is still there", what.c_str());
    else if (told && n < Protocol::DELETE_CMD_VERSION) VMC_CHECK(extra, "deleted", "%s: deleted through a peer that does not support it", what.c_str());
    outcome(x.codes());
    x.destroy();
  });
}
// ---------------------------------------------------------------- schedules, failures
static void race(int ports, bool faults, bool sched) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = sched;
  static const std::vector<std::pair<int, int>> few{{CUR, 11}, {CUR, 22}, {24, CUR}, {CUR, 12}};
  auto sr = pick(ports > 2 ? few : some(), "versions");
  Mode m{flip(INPUT, "encrypted") ? "aes128ctr" : "none", true, false, flip(INPUT, "resume"), ports};
  Cfg c = conf(m);
  c.sProto = sr.first;
  c.rProto = sr.second;
  string what = "sender " + std::to_string(sr.first) + ", receiver " + std::to_string(sr.second) + ", " + m.enc + (m.resume ? ", resumption" : "") + ", " + std::to_string(m.ports) + " ports";
  net::reset();
  setFaults(faults ? BREAK : NOFAULT);
  fib::run([&] {
    Xfer x(c);
    x.run();
    if (!net::stats.faults) judge(x, c, sr.first, sr.second, what);
    else {
      string d = compareDst(c);
      VMC_CHECK(!x.S.ok() || d.empty(), "copy", "%s: the sender reports success, %s", what.c_str(), d.c_str());
      VMC_CHECK(!x.R.ok() || d.empty(), "copy", "%s: the receiver reports success, %s", what.c_str(), d.c_str());
      int n = expected(sr.first, sr.second);
      VMC_CHECK(n || (!x.S.ok() && !x.R.ok()), "accepted", "%s: %s", what.c_str(), x.codes().c_str());
      VMC_CHECK(!n || !x.S.ok() || x.sender->getProtocolVersion() == n, "agreed", "%s: the sender ends with version %d", what.c_str(), x.sender->getProtocolVersion());
    }
    outcome(x.codes());
    x.destroy();
  });
}
int main(int argc, char** argv) {
  Check c;
  c.property = "C23";
  c.rule = "Every ordered pair of versions below, inside and above the supported window, times encryption, checksum, block mode, resumption, number of connections and amount in flight, as a whole transfer; versions taken from edited URLs; heart-beats, deletion and reconnection around every version that introduced a feature; selected pairs with every schedule and every placement of connection breaks up to the bounds.  A pair with a common version must succeed on that version, with every connection, and give an exact copy; any other pair must be refused with a version problem on each side that takes part.";
  auto add = [&](string name, std::function<void()> body, bool forked, std::vector<Bounds> quick, std::vector<Bounds> deep) {
    Scenario s;
    s.name = name;
    s.body = body;
    s.forked = forked;
    s.quick = quick;
    s.deep = deep;
    c.scenarios.push_back(s);
  };
  c.setup = [] {
    for (bool b : {false, true}) {
      Mode m{"none", true, b, false, 1};
      Cfg k = conf(m);
      shareSource(k, b ? "srcb" : "src");
      for (auto& f : k.files) content(k, f);
    }
  };
  add("negotiation", negotiation, false, {Bounds(0)}, {Bounds(0)});
  add("pairs", [] { pairs(false); }, true, {Bounds(0)}, {Bounds(0)});
  add("told", [] { pairs(true); }, true, {Bounds(0)}, {Bounds(0)});
  add("features", features, true, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)});
  add("schedules", [] { race(2, false, true); }, true, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)});
  add("faults", [] { race(2, true, false); }, true, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)});
  add("three", [] { race(3, false, true); }, true, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)});
  c.quickBudget = 480;
  return runCheck(c, argc, argv);
}
