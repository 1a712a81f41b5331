// C18: tampering with an authenticated stream is detected before success
#include "e2ecases.h"
#include "sock.h"
#include <openssl/evp.h>
using namespace vmc;

enum Kind { FLIP1, FLIP80, FLIPALL, DROP, DUP, INSERT, DROP16, SWAP16, ENDS, RESETS, SILENT, REPLAY16, KINDS };
static const char* kKind[] = {"flip 01", "flip 80", "flip ff", "drop", "duplicate", "insert", "drop 16 from", "swap 16 at", "end at", "reset at", "silence from", "repeat 16 from"};
/// alters one direction of a stream at one byte position; works on the data as it is written
struct Tamper {
  int kind = -1;
  int64_t pos = 0;
  int64_t seen = 0;
  bool hit = false;
  std::string before, after;
  size_t last = 0;
  bool inIvTail = false;  // the last 4 bytes of an initialisation vector are not used by GCM
  void operator()(std::string& d) {
    bool iv = d.size() == 16 && last == 16;
    int64_t at = before.size();
    last = iv ? 0 : d.size();
    if (iv && pos >= at + 12 && pos < at + 16) inIvTail = true;
    before += d;
    change(d);
    after += d;
  }
  /// the reader's view starts with the whole original stream
  bool onlyAppended() const { return after.compare(0, before.size(), before) == 0; }
  void change(std::string& d) {
    int64_t from = seen;
    seen += d.size();
    if (kind < 0 || hit || pos < from || pos >= seen) return;
    size_t i = pos - from;
    hit = true;
    switch (kind) {
      case FLIP1: d[i] ^= 1; break;
      case FLIP80: d[i] ^= 0x80; break;
      case FLIPALL: d[i] ^= 0xff; break;
      case DROP: d.erase(i, 1); break;
      case DUP: d.insert(i, 1, d[i]); break;
      case INSERT: d.insert(i, 1, 0); break;
      case DROP16: d.erase(i, 16); break;
      case SWAP16: {
        if (i + 32 > d.size() || d.substr(i, 16) == d.substr(i + 16, 16)) { hit = false; pos = -1; break; }
        std::string x = d.substr(i, 16);
        d.erase(i, 16);
        d.insert(i + 16, x);
        break;
      }
      case REPLAY16: d.insert(i, d.substr(i, 16)); break;
      case ENDS: d.resize(i); net::cutNow = net::CUT_FIN; break;
      case RESETS: d.resize(i); net::cutNow = net::CUT_RST; break;
      case SILENT: d.resize(i); net::cutNow = net::CUT_HOLE; break;
    }
  }
};

namespace s {
using namespace sock;
typedef std::vector<int> Sizes;
/// length of what encryption sends before the first data byte
static const int kSettings = Protocol::kEncryptionCmdLen;
static void stream(int dir) {
  Cfg c;
  static const std::vector<std::pair<int, int>> modes{{0, 0}, {8, 0}, {8, 8}, {8, 16}, {5, 0}, {64, 0}, {1, 1}};
  auto m = pick(modes, "interval");
  c.cType = c.sType = ENC_AES128_GCM;
  c.cTag = c.sTag = m.first;
  c.iv = m.second;
  c.readTimeout = 400;
  static const std::vector<Sizes> writes{{20}, {8}, {7, 9}, {1}, {8, 8, 8}};
  Sizes w = pick(writes, "writes");
  int rd = pick(std::vector<int>{64, 5}, "read");
  bool full = flip(INPUT, "full");
  Tamper t;
  t.kind = choose(KINDS, INPUT, "kind");
  t.pos = choose(dir == 0 ? 180 : 180, INPUT, "position");
  int n = 0;
  for (int x : w) n += x;
  std::string d = fs::pattern(n, 1), got;
  bool downgraded = false;
  fib::run([&] {
    net::opt.tap = [&](int, int, int dd, std::string& data) { if (dd == dir) t(data); };
    Pair p(c);
    p.connect();
    auto talk = [&](auto& from, auto& to) {
      std::thread th([&] {
        int pos = 0;
        for (int x : w) {
          std::string b = d.substr(pos, x);
          if (from.write(&b[0], x, true) != x) return;
          pos += x;
        }
        from.shutdownWrites();
      });
      bool failed = false;
      while ((int)got.size() < n) {
        char b[64];
        int k = full ? std::min<int>(rd, n - got.size()) : std::min<int>(rd, n - got.size());
        int r = to.read(b, k, full);
        if (r <= 0 || (full && r < k)) { failed = true; break; }
        got.append(b, r);
      }
      ErrorCode rc = to.getReadErrCode(), eos = OK;
      if (!failed) eos = to.expectEndOfStream();
      downgraded = to.getEncryptionType() == ENC_NONE;
      th.join();
      bool clean = !failed && eos == OK;
      std::string sit = std::string(kKind[t.kind]) + " byte " + std::to_string(t.pos) + " of the stream";
      if (!t.hit) {
        VMC_CHECK(clean && got == d, "untouched", "%s: nothing changed, but %s %s", sit.c_str(), errorCodeToStr(rc).c_str(), errorCodeToStr(eos).c_str());
        outcome("untouched");
      } else if (clean) {
        // the cut of nothing: ending exactly after the last byte
        bool settings = t.pos < kSettings;
        if (downgraded) VMC_CHECK(false, "downgrade", "first byte changed: the receiving side turned encryption off and ended cleanly (%s)", sit.c_str());
        VMC_CHECK(got == d, "wrong-data", "%s: clean end with wrong data", sit.c_str());
        VMC_CHECK(settings || t.inIvTail || t.onlyAppended(), "undetected", "%s: clean end", sit.c_str());
        outcome("clean, settings");
      } else {
        outcome(failed ? "read " + errorCodeToStr(rc) : "end " + errorCodeToStr(eos));
      }
    };
    if (dir == 0) talk(*p.cli, *p.srv);
    else talk(*p.srv, *p.cli);
    p.cli->closeNoCheck();
    p.srv->closeNoCheck();
    net::opt.tap = nullptr;
  });
}
}  // namespace s

using namespace e2e;
struct Attack {
  Cfg cfg;
  int dir;
  int len;      // positions offered
  int step;
  bool every;   // tamper with every connection, not only one
  std::vector<int> kinds;
};
/// the clear text of a connection's stream (settings, then data with a tag after each interval)
static std::string clearText(const std::string& wire, const std::string& key, int interval) {
  const int head = Protocol::kEncryptionCmdLen;
  if ((int)wire.size() < head) return "";
  std::string iv = wire.substr(3, 12), enc;
  for (size_t i = head; i < wire.size();) {
    size_t n = interval ? std::min<size_t>(interval, wire.size() - i) : wire.size() - i;
    enc += wire.substr(i, n);
    i += n + (interval ? 16 : 0);
  }
  iv += std::string("\0\0\0\2", 4);
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  std::string out(enc.size(), 0);
  int n = 0;
  EVP_DecryptInit_ex(x, EVP_aes_128_ctr(), nullptr, (const unsigned char*)key.data(), (const unsigned char*)iv.data());
  EVP_DecryptUpdate(x, (unsigned char*)&out[0], &n, (const unsigned char*)enc.data(), enc.size());
  EVP_CIPHER_CTX_free(x);
  return out;
}
/// is the byte at this position of the stream part of a file command's header?
static bool inFileHeader(const Cfg& c, const std::string& wire, int64_t pos, const std::string& key, int interval) {
  int64_t p = pos - Protocol::kEncryptionCmdLen;
  if (p < 0) return false;
  if (interval) {
    if (p % (interval + 16) >= interval) return false;  // in a tag
    p -= p / (interval + 16) * 16;
  }
  std::string t = clearText(wire, key, interval);
  bool any = false;
  for (auto& f : c.files) {
    std::string name = std::string(1, (char)f.name.size()) + f.name;
    for (size_t k = t.find(name); k != std::string::npos; k = t.find(name, k + 1)) {
      if (k < 4 || t[k - 4] != Protocol::FILE_CMD) continue;
      int len = (unsigned char)t[k - 2] | (unsigned char)t[k - 1] << 8;
      any = true;
      if (p >= (int64_t)k - 4 && p < (int64_t)k - 4 + len) return true;
    }
  }
  if (!any) vmc::count("no_header_found");
  return false;
}
static void attack(const Attack& a) {
  e2e::init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  setFaults(NOFAULT);
  int kind = pick(a.kinds, "kind");
  int64_t pos = (int64_t)choose(a.len / a.step, INPUT, "position") * a.step;
  std::map<int, Tamper> ts;
  int hits = 0;
  fib::run([&] {
    net::opt.tap = [&](int, int conn, int dir, std::string& data) {
      if (dir != a.dir) return;
      auto i = ts.find(conn);
      if (i == ts.end()) {
        Tamper t;
        if (a.every || hits == 0) { t.kind = kind; t.pos = pos; }
        i = ts.emplace(conn, t).first;
      }
      if (!a.every && hits) i->second.kind = i->second.hit ? i->second.kind : -1;
      bool h = i->second.hit;
      i->second(data);
      if (!h && i->second.hit) ++hits;
    };
    Xfer x(a.cfg);
    x.run();
    std::string d = compareDst(a.cfg);
    std::string sit = std::string(kKind[kind]) + " byte " + std::to_string(pos) + (a.every ? " of every connection" : " of a connection");
    bool header = false;
    if (!d.empty() && (x.S.ok() || x.R.ok())) {
      WdtOptions o;
      x.options(o, true);
      const std::string key = WdtTransferRequest(x.url).encryptionData.getSecret();
      for (auto& t : ts)
        if (t.second.hit && inFileHeader(a.cfg, t.second.before, pos, key, o.encryption_tag_interval_bytes)) header = true;
    }
    if (header) fail("unauthenticated-header", "%s: a changed file header was acted on before it was authenticated; the transfer then reports OK but %s", sit.c_str(), d.c_str());
    if (x.S.ok()) VMC_CHECK(d.empty(), "sender-ok-diff", "%s: sender reports OK but %s", sit.c_str(), d.c_str());
    if (x.R.ok()) VMC_CHECK(d.empty(), "receiver-ok-diff", "%s: receiver reports OK but %s", sit.c_str(), d.c_str());
    outcome(x.codes() + (d.empty() ? " same" : " diff") + (hits ? " hit" : ""));
    x.destroy();
    net::opt.tap = nullptr;
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C18";
  c.rule = "Streams between two real sockets with authenticated encryption, for each tag and IV interval and write pattern: every byte position of the wire stream x every kind of tampering (flip, drop, duplicate, insert, drop/swap/repeat 16 bytes, end, reset, silence), both directions. Whole transfers of the real sender and receiver: every byte position of a connection's stream x each kind, on one connection or on all of them; trees compared whenever a side reports OK.";
  c.assumptions = {"OpenSSL is taken as correct.", "The plain-text settings before the data (cipher, IV, tag interval) may be changed without effect only if the data is unchanged."};
  auto seq = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  seq("stream-to-server", [] { s::stream(0); }, {Bounds(0)}, {Bounds(0)});
  seq("stream-to-client", [] { s::stream(1); }, {Bounds(0)}, {Bounds(0)});
  auto attacks = std::make_shared<std::vector<Attack>>();
  auto names = std::make_shared<std::vector<std::string>>();
  auto e2 = [&](const char* n, Cfg cfg, int dir, int len, int step, bool every, std::vector<int> kinds, bool deepOnly = false, double b = 1) {
    attacks->push_back({cfg, dir, len, step, every, kinds});
    names->push_back(n);
    size_t i = attacks->size() - 1;
    Scenario s;
    s.name = n;
    s.forked = true;
    s.body = [attacks, i] { attack((*attacks)[i]); };
    s.quick = {Bounds(0)};
    s.deep = {Bounds(0), Bounds(1)};
    s.thoroughOnly = deepOnly;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  auto small = [](int tag) {
    Cfg g;
    g.files = {{"a", 700}, {"d/b", 0}, {"e", 90}};
    return with(g, gcm(tag));
  };
  e2("transfer", small(0), 0, 1200, 1, false, {FLIP1, DROP, ENDS, SILENT}, false, 3);
  e2("transfer-tags", small(200), 0, 1300, 1, false, {FLIP1, DROP, ENDS, SILENT}, false, 3);
  e2("transfer-all", small(200), 0, 1300, 3, true, {FLIP1, DROP, ENDS}, false, 2);
  e2("answers", small(200), 1, 200, 1, false, {FLIP1, FLIP80, DROP, ENDS}, false, 1);
  e2("transfer-more", small(100), 0, 1400, 1, false, {FLIP80, FLIPALL, DUP, INSERT, DROP16, SWAP16, RESETS, REPLAY16}, true, 3);
  e2("transfer-all-more", small(100), 0, 1400, 1, true, {FLIP1, FLIPALL, DROP, SWAP16, ENDS}, true, 3);
  e2("answers-more", small(100), 1, 250, 1, true, {FLIP1, FLIP80, DROP, DROP16, ENDS, SILENT, RESETS}, true, 1);
  Cfg p2 = with(cfg2(), gcm(1000));
  e2("transfer-ports", p2, 0, 4000, 1, false, {FLIP1, DROP, ENDS}, true, 3);
  c.setup = [attacks, names] {
    for (size_t i = 0; i < attacks->size(); ++i) {
      auto& a = (*attacks)[i];
      shareSource(a.cfg, "src-" + (*names)[i]);
      for (auto& f : a.cfg.files) content(a.cfg, f);
    }
  };
  return runCheck(c, argc, argv);
}
