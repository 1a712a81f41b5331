// C35: the encryption secret leaves the process only in the connection URL
#include <glog/logging.h>
#include <sstream>
#include <wdt/Wdt.h>
#include <wdt/util/EncryptionUtils.h>
#include <folly/String.h>
#include "e2ecases.h"
using namespace vmc;
using namespace e2e;
using std::string;

struct Logs : google::LogSink {
  string s;
  uint64_t n = 0;
  void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* m, size_t k) override { s.append(m, k); s += '\n'; ++n; }
};
static Logs* logs;
/// everything is logged, but only to the sink
static void listen() {
  if (!logs) {
    init();
    logs = new Logs;
    FLAGS_wdt_logging_enabled = true;
    FLAGS_v = 9;
    google::AddLogSink(logs);
    if (!getenv("VMC_LOG")) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 2);
      close(n);
    }
  }
  logs->s.clear();
  logs->n = 0;
}
/// position of six or more contiguous bytes of the secret, in any usual rendering
static size_t leak(const string& text, const string& sec) {
  if (text.size() > 300000) {  // file contents: raw bytes are enough
    size_t k = text.find(sec.substr(0, 6));
    return k == string::npos ? text.find(sec.substr(8, 6)) : k;
  }
  size_t w = std::min<size_t>(6, sec.size());
  for (size_t i = 0; i + w <= sec.size(); ++i) {
    string raw = sec.substr(i, w), hex = folly::hexlify(raw), HEX = hex, list;
    for (char& c : HEX) c = toupper(c);
    for (const string& p : {raw, hex, HEX, folly::humanify(raw), WdtUri::escape(raw)}) {
      size_t k = text.find(p);
      if (k != string::npos) return k;
    }
  }
  return string::npos;
}
static void clean(const string& what, const string& text, const string& sec, const string& d) {
  size_t k = leak(text, sec);
  if (k == string::npos) return;
  size_t b = text.rfind('\n', k), e = text.find('\n', k);
  b = b == string::npos ? 0 : b + 1;
  fail(what, "%s: the %s has (a part of) the secret: %s", d.c_str(), what.c_str(), folly::humanify(text.substr(b, std::min<size_t>(e - b, 500))).c_str());
}

// ---- URLs a user mistyped
static const string kSecret("\x3a\x91\xc4\x07\xee\x5b\x60\xd2\x1f\x88\xb9\x4c\x73\x0d\xa6\xf5", 16);
static std::vector<string> baseUrls() {
  std::vector<string> v;
  for (int host = 0; host < 2; ++host)
    for (auto t : {ENC_AES128_CTR, ENC_AES128_GCM}) {
      WdtTransferRequest r(host ? 5000 : 5001, 2 + host, "d");
      r.hostName = host ? "::1" : "localhost";
      r.ports.push_back(host ? 9 : 5003);  // an explicit list or a range
      r.transferId = "id";
      r.encryptionData = EncryptionParams(t, kSecret);
      if (host) {
        r.destIdentifier = "a b";
        r.ivChangeInterval = 4096;
        r.tls = true;
        r.downloadResumptionEnabled = true;
      }
      v.push_back(r.genWdtUrlWithSecret());
    }
  // written by hand: the secret first and last
  string enc = EncryptionParams(ENC_AES128_GCM, kSecret).getUrlSafeString();
  v.push_back("wdt://h?Enc=" + enc + "&ports=1");
  v.push_back("wdt://h:1?num_ports=1&recpv=32&Enc=" + enc);
  return v;
}
static const char kChars[] = {'%', '&', '=', ':', '?', 'g', 'A', ' ', '\0', '0', 'f', ']', '[', '\n', '9'};
static string edit(const string& u, size_t pos, int how) {
  constexpr int C = sizeof(kChars);
  if (how == 0) return u.substr(0, pos);
  if (how == 1) return u.substr(pos);
  if (how == 2) return u.substr(0, pos) + u.substr(pos + 1);
  if (how < 3 + C) { string s = u; s[pos] = kChars[how - 3]; return s; }
  if (how < 3 + 2 * C) return u.substr(0, pos) + kChars[how - 3 - C] + u.substr(pos);
  if (how == 3 + 2 * C) { string s = u; s[pos] = toupper(s[pos]); return s; }
  string s = u;  // two neighbours exchanged
  if (pos + 1 < s.size()) std::swap(s[pos], s[pos + 1]);
  return s;
}
constexpr int kEdits = 3 + 2 * (int)sizeof(kChars) + 2;
static void use(const string& u) {
  logs->s.clear();
  logs->n = 0;
  std::ostringstream os;
  WdtUri parts(u);
  string other = parts.getHostName();
  for (const char* k : {"id", "recpv", "dir", "num_ports", "ports", "ns", "dstid", "start_port", "iv_change_int", "tls", "dr"}) other += "\n" + parts.getQueryParam(k);
  logs->s.clear();
  WdtTransferRequest q(u);
  if (q.errorCode == OK) {
    os << q << "\n" << q.getLogSafeString() << "\n" << q.encryptionData.getLogSafeString() << "\n";
  }
  if (leak(other, kSecret) != string::npos) {  // the user wrote it into another field: no secret any more
    count("moved");
    return;
  }
  clean("log", logs->s, kSecret, "'" + folly::humanify(u) + "'");
  clean("rendering", os.str(), kSecret, "'" + folly::humanify(u) + "'");
  if (q.errorCode != OK) VMC_CHECK(logs->n > 0, "silent", "'%s' is refused without a message", u.c_str());
  count("messages", logs->n);
  step();
}
static void urls() {
  listen();
  std::vector<string> v = baseUrls();
  string u = pick(v, "url");
  int how = choose(kEdits, INPUT, "edit"), parts = thorough() ? 24 : 1, part = parts > 1 ? choose(parts, INPUT, "part") : 0;
  for (size_t p = part; p <= u.size(); p += parts) {
    if (p == u.size() && how >= 2 && how < 3 + (int)sizeof(kChars)) continue;
    string w = edit(u, p, how);
    use(w);
    // a second edit: everywhere behind the first, in one of the ways
    if (thorough() || how < 3)
      for (size_t p2 = p; p2 < w.size(); p2 += thorough() ? 4 : 5)
        for (int h2 : {0, 2, 3, 4, 6, 7}) use(edit(w, p2, h2));
  }
  outcome(std::to_string(how));
}
/// the encryption parameter alone, every short text and every damaged one
static void params() {
  listen();
  string enc = EncryptionParams(flip(INPUT, "type") ? ENC_AES128_GCM : ENC_AES128_CTR, kSecret).getUrlSafeString();
  int how = choose(kEdits, INPUT, "edit");
  for (size_t p = 0; p <= enc.size(); ++p) {
    if (p == enc.size() && how >= 2 && how < 3 + (int)sizeof(kChars)) continue;
    string w = edit(enc, p, how);
    for (size_t p2 = 0; p2 < w.size(); ++p2)
      for (int h2 : {-1, 0, 2, 3, 6, 8}) {
        if (h2 < 0 && p2) continue;
        string z = h2 < 0 ? w : edit(w, p2, h2);
        logs->s.clear();
        EncryptionParams out;
        EncryptionParams::unserialize(z, out);
        clean("log", logs->s + out.getLogSafeString(), kSecret, z);
        step();
      }
  }
}

// ---- whole transfers
static string secretOf(const string& url) { return WdtTransferRequest(url).encryptionData.getSecret(); }
static string* wire;
static void judgeAll(Xfer& x, const string& d) {
  string sec = secretOf(x.url);
  if (sec.empty()) return;
  std::ostringstream os;
  for (Side* s : {&x.S, &x.R})
    if (s->report) {
      os << *s->report << "\n";
      for (auto* l : {&s->report->getFailedSourceStats(), &s->report->getTransferredSourceStats()})
        for (auto& t : *l) os << t << "\n";
    }
  if (x.sender) os << x.sender->getTransferRequest() << "\n";
  if (x.receiver) os << x.receiver->getTransferRequest() << "\n";
  x.destroy();
  clean("log", logs->s, sec, d);
  clean("report", os.str(), sec, d);
  clean("wire", *wire, sec, d);
  for (auto& f : fs::snapshot(path(x.c.dst))) {
    clean("destination", f.first, sec, d + " name");
    clean("destination", f.second, sec, d + " file " + f.first);
  }
  VMC_CHECK(logs->n > 20, "deaf", "the check received only %d messages", (int)logs->n);
  count("messages", logs->n);
  count("wire_bytes", wire->size());
  if (d.find("iv") != string::npos && d.find("S=OK") != string::npos) VMC_CHECK(logs->s.find("Need to change encryption iv") != string::npos, "scene", "no iv change");
}
static void prep(Xfer&) {
  listen();
  delete wire;
  wire = new string;
  net::opt.tap = [](int, int, int, string& data) { *wire += data; };
}

/// the embedding interface with good and bad requests
static void embedded() {
  Cfg c = cfg1s();
  makeSource(c);
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  setFaults(NOFAULT);
  fib::run([&] {
    Xfer x(c);
    prep(x);
    string type = pick(std::vector<string>{"aes128ctr", "aes128gcm"}, "type");
    int bad = choose(9, INPUT, "request");
    Wdt& w = Wdt::initializeWdt("app");
    WdtOptions& o = w.getWdtOptions();
    defaults(o);
    o.encryption_type = type;
    o.enable_download_resumption = flip(INPUT, "resumption");
    FLAGS_wdt_logging_enabled = true;
    WdtTransferRequest req(0, 1, path("dst"));
    req.hostName = "localhost";
    if (bad == 8) req.encryptionData = EncryptionParams(ENC_AES128_GCM, "0123456789");  // wrong size
    fib::setGroup(2);
    ErrorCode rc = w.wdtReceiveStart("n", req, "id");
    fib::setGroup(0);
    string url = req.genWdtUrlWithSecret(), sec = bad == 8 ? "0123456789" : secretOf(url);
    VMC_CHECK(!sec.empty(), "scene", "no secret");
    ErrorCode sc = OK;
    WdtTransferRequest s(url);
    s.directory = path(c.src);
    s.wdtNamespace = "n";
    string sec2 = sec;
    if (bad == 1) s.directory = path("missing");
    if (bad == 2) s.hostName = "";
    if (bad == 3) s.transferId = "other";
    if (bad == 4) s.protocolVersion = 5;
    if (bad == 5) s.ports = {9};
    if (bad == 6) sec2 = kSecret, s.encryptionData = EncryptionParams(type == "aes128ctr" ? ENC_AES128_CTR : ENC_AES128_GCM, kSecret);
    if (bad == 7) sec2 = kSecret.substr(1), s.encryptionData = EncryptionParams(ENC_AES128_GCM, sec2);
    fib::setGroup(1);
    sc = w.wdtSend(s);
    fib::setGroup(0);
    ErrorCode fc = rc == OK ? w.wdtReceiveFinish("n", "id") : OK;
    std::ostringstream opts;
    w.printWdtOptions(opts);
    logs->s += opts.str();
    string d = "request " + std::to_string(bad) + ": " + errorCodeToStr(sc);
    for (const string& k : {sec, sec2}) {
      clean("log", logs->s, k, d);
      clean("wire", *wire, k, d);
      for (auto& f : fs::snapshot(path("dst"))) clean("destination", f.second, k, d);
    }
    outcome(std::to_string(bad) + errorCodeToStr(sc) + errorCodeToStr(fc));
    count("messages", logs->n);
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C35";
  c.rule = "all truncations, single edits and pairs of edits of connection URLs and encryption parameters; whole transfers of each cipher with at most the stated number of thread switches and network faults: log messages of every level, reports, log-safe renderings, bytes on the wire and files at the destination are searched for six contiguous bytes of the secret in raw and hexadecimal form";
  c.quickBudget = 120;
  Scenario s;
  s.forked = true;
  s.name = "urls"; s.body = urls; s.budget = 5; c.scenarios.push_back(s); s.budget = 1;
  s.name = "params"; s.body = params; c.scenarios.push_back(s);
  s.name = "embedded"; s.body = embedded; s.deep = upTo(1); c.scenarios.push_back(s);
  std::vector<Case> k;
  auto add = [&](const char* n, Cfg cfg, FaultSet f, std::vector<Bounds> q, std::vector<Bounds> d) {
    Case x;
    x.name = n; x.cfg = std::move(cfg); x.faults = f; x.quick = q; x.deep = d;
    k.push_back(x);
  };
  auto resume = [](WdtOptions& o) { o.enable_download_resumption = true; };
  Cfg ivCfg;
  ivCfg.files = {{"big", (2 << 20) + 70000}, {"z", 1}};
  auto ivOpt = [](WdtOptions& o) { gcm(65536)(o); o.iv_change_interval_mb = 1; o.buffer_size = 512 * 1024; };
  add("ctr", with(cfg2(), ctr()), ALLF, upTo(1), upTo(2));
  add("gcm", with(with(cfg2(), gcm(4096)), checksum()), ALLF, upTo(1), upTo(2));
  add("iv", with(ivCfg, ivOpt), BREAK, upTo(1), upTo(2));
  add("resume", with(with(cfg2(), ctr()), resume), ALLF, upTo(1), upTo(2));
  add("progress", with(with(cfg2(), gcm()), progress()), BREAK, upTo(1), upTo(2));
  add("dead", with(cfg2(), gcm()), PORTDEAD, upTo(1), upTo(2));
  add("dst-errors", with(with(cfg1s(), ctr()), resume), NOFAULT, upTo(1), upTo(2));
  k.back().fsHook = dstFaults();
  add("src-errors", with(cfg1s(), gcm()), NOFAULT, upTo(1), upTo(2));
  k.back().fsHook = srcFaults();
  addCases(c, k, [](Xfer& x, const Case& k) {
    outcome(x.codes());
    judgeAll(x, k.name + " " + x.codes());
  }, prep);
  // altered on the way: one byte of one write, or one write lost
  k.clear();
  add("altered-gcm", with(cfg1s(), gcm(64)), NOFAULT, upTo(1), upTo(2));
  add("altered-iv", with(ivCfg, ivOpt), NOFAULT, upTo(1), upTo(2));
  add("altered-ctr", with(with(cfg1s(), ctr()), checksum()), NOFAULT, upTo(1), upTo(2));
  addCases(c, k, [](Xfer& x, const Case& k) {
    outcome(x.codes());
    judgeAll(x, k.name + " " + x.codes());
  }, [](Xfer& x) {
    prep(x);
    net::opt.tap = [](int, int, int, string& data) {
      *wire += data;
      if (data.empty()) return;
      int k = choose(5, NET, "alter");
      if (k == 1) data[0] ^= 1;
      if (k == 2) data[data.size() - 1] ^= 0x80;
      if (k == 3) data[data.size() / 2] ^= 0x10;
      if (k == 4) data.clear();
    };
  });
  return runCheck(c, argc, argv);
}
