// C34: the command line program does what its command line says
#define STANDALONE_APP
#include <folly/String.h>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <future>
#include <iostream>
#include <iterator>
#include <sstream>
#include <thread>
#include "e2ecases.h"
namespace google { inline void vmcNoInit(const char*) {} }
struct VmcExit { int code; };
[[noreturn]] static void vmcExit(int c) { throw VmcExit{c}; }
#define exit(c) vmcExit(c)
#define InitGoogleLogging vmcNoInit
#define main wdtMain
#include <wdt/wdtCmdLine.cpp>
#undef main
#undef InitGoogleLogging
#undef exit
using namespace vmc;
using namespace e2e;
using std::string;

// ---- running the program
struct Out : std::streambuf {
  string s;
  int overflow(int c) override { s.push_back((char)c); return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, n); return n; }
};
struct Logs : google::LogSink {
  string s;
  void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* m, size_t n) override { s.append(m, n); s += '\n'; }
};
static Logs* logs;
static bool mayFail = false;  // the program is expected to give up with a fatal message
static void fatal() {
  if (mayFail) endExecution();
  signal(SIGABRT, SIG_DFL);
  abort();
}
struct Prog {
  std::vector<string> args;
  string in;
  Out out;
  int rc = -1;
  bool done = false, threw = false;
  std::thread t;
  void main() {
    std::vector<char*> argv;
    args.insert(args.begin(), "wdt");
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    int argc = (int)args.size();
    char** av = argv.data();
    std::istringstream is(in);
    std::streambuf *oc = std::cout.rdbuf(&out), *ic = std::cin.rdbuf(is.rdbuf());
    std::cin.clear();
    try {
      rc = wdtMain(argc, av);
    } catch (VmcExit& e) {
      rc = e.code;
    } catch (std::exception& e) {
      rc = 134;  // would end the process
      threw = true;
      note("exception %s", e.what());
    }
    std::cin.rdbuf(ic);
    if (std::cout.rdbuf() == &out) std::cout.rdbuf(oc);
    done = true;
    note("program ended with %d", rc);
  }
  /// in the group g; returns when it ended or waits for the other side
  void start(int g) {
    t = std::thread([this, g] { fib::setGroup(g); main(); });
  }
  /// the line with the connection url
  string url() {
    for (int i = 0; i < 1000 && !done && out.s.find('\n') == string::npos; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    size_t k = out.s.find('\n');
    return k == string::npos ? "" : out.s.substr(0, k);
  }
  void join() { t.join(); }
  string text() const {
    string s;
    for (auto& a : args) s += a + " ";
    return s;
  }
};
static void begin(FaultSet f = NOFAULT) {
  init();
  static bool once = false;
  if (!once) {
    once = true;
    FLAGS_wdt_logging_enabled = true;
    logs = new Logs;
    google::AddLogSink(logs);
    google::InstallFailureFunction(reinterpret_cast<void (*)()>(fatal));
    if (!getenv("VMC_LOG")) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 2);
      if (!verbose()) dup2(n, 1);
      close(n);
    }
  }
  logs->s.clear();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  setFaults(f);
}
static Cfg base() {
  Cfg c;
  c.files = {{"a", 5000}, {"d/b", 0}, {"d/c", 300}, {"e", 9000}};
  return c;
}
static const std::vector<string> quickFlags{"-ipv4", "-progress_report_interval_millis=0", "-connect_timeout_millis=500", "-sleep_millis=20", "-max_retries=4",
                                            "-accept_window_millis=1000", "-max_accept_retries=20", "-read_timeout_millis=1000", "-write_timeout_millis=1000"};
static std::vector<string> with(std::vector<string> a) {
  a.insert(a.begin(), quickFlags.begin(), quickFlags.end());
  return a;
}
static void noSecret(const WdtTransferRequest& q, const string& d) {
  if (!q.encryptionData.isSet()) return;
  string hex = folly::hexlify(q.encryptionData.getSecret());
  VMC_CHECK(logs->s.find(hex) == string::npos && logs->s.find(q.encryptionData.getSecret()) == string::npos, "secret-logged", "%s: the log contains the secret", d.c_str());
}
static string hostOf(const string& url) { return WdtUri(url).getHostName(); }
/// the url that reaches this machine in the virtual network
static string local(const string& url) {
  string h = hostOf(url), u = url;
  size_t k = u.find(h);
  return u.replace(k, h.size(), "localhost");
}

// ---- a receiver started from the command line
static void receive() {
  begin();
  Cfg c = base();
  makeSource(c);
  std::vector<string> a{};
  static const std::vector<string> D{"dst", "new/nested/dst", "old"};
  c.dst = pick(D, "directory");
  if (c.dst == "old") fs::mkdirs(path(c.dst));
  a.push_back("-directory=" + path(c.dst));
  static const std::vector<string> ID{"", "t1", "a&b=c%20 \"x\""};
  string id = pick(ID, "id");
  if (!id.empty()) a.push_back("-transfer_id=" + id);
  static const std::vector<string> E{"", "none", "aes128ctr", "aes128gcm"};
  string enc = pick(E, "encryption");
  if (!enc.empty()) a.push_back("-encryption_type=" + enc);
  int ports = pick(std::vector<int>{8, 1, 3}, "ports");
  if (ports != 8) a.push_back("-num_ports=" + std::to_string(ports));
  int proto = pick(std::vector<int>{0, 26, 22}, "protocol");
  if (proto) a.push_back("-protocol_version=" + std::to_string(proto));
  string host = pick(std::vector<string>{"", "localhost", "::1", "h-1.example"}, "host");
  if (!host.empty()) a.push_back("-hostname=" + host);
  bool fixed = flip(INPUT, "start port");
  if (fixed) a.push_back("-start_port=31000");
  c.ports = ports;
  fib::run([&] {
    Prog p;
    p.args = with(a);
    p.start(2);
    string u = p.url(), d = p.text();
    VMC_CHECK(!u.empty() && !p.done, "no-url", "%s: no url, ended %d with %d", d.c_str(), p.done, p.rc);
    WdtTransferRequest q(u);
    VMC_CHECK(q.errorCode == OK, "url", "%s: printed url %s is not one", d.c_str(), u.c_str());
    char me[256];
    gethostname(me, sizeof me);
    VMC_CHECK(q.hostName == (host.empty() ? string(me) : host), "url-host", "%s: url for host %s", d.c_str(), q.hostName.c_str());
    VMC_CHECK((int)q.ports.size() == ports, "url-ports", "%s: %zu ports in the url", d.c_str(), q.ports.size());
    for (int i = 0; i < ports; ++i) VMC_CHECK(fixed ? q.ports[i] == 31000 + i : q.ports[i] > 0, "url-port", "%s: port %d in the url", d.c_str(), q.ports[i]);
    VMC_CHECK(id.empty() ? !q.transferId.empty() : q.transferId == id, "url-id", "%s: transfer id %s in the url", d.c_str(), q.transferId.c_str());
    VMC_CHECK(q.protocolVersion == (proto ? proto : Protocol::protocol_version), "url-protocol", "%s: protocol version %d in the url", d.c_str(), q.protocolVersion);
    EncryptionType want = parseEncryptionType(enc.empty() ? "aes128gcm" : enc);
    if (proto == 22) want = q.encryptionData.getType();  // before encryption
    VMC_CHECK(q.encryptionData.getType() == want, "url-encryption", "%s: encryption %d in the url", d.c_str(), (int)q.encryptionData.getType());
    noSecret(q, d);
    Xfer x(c);
    x.url = local(u);
    x.c.sopt = [](WdtOptions& o) { o.encryption_type = "aes128gcm"; };
    if (x.startSenderAsync()) x.finishSender();
    p.join();
    string diff = compareDst(c);
    VMC_CHECK(x.S.ok() && p.rc == 0 && diff.empty(), "receive", "%s: sender %s, program %d, %s", d.c_str(), errorCodeToStr(x.S.err).c_str(), p.rc, diff.c_str());
    VMC_CHECK(p.out.s == u + "\n", "stdout", "%s: more than the url on stdout: %s", d.c_str(), p.out.s.substr(0, 400).c_str());
    noSecret(q, d);
    outcome(enc + std::to_string(ports));
    x.destroy();
  });
  step();
}
/// not all ports can be bound
static void ports() {
  begin();
  Cfg c = base();
  makeSource(c);
  int n = 1 + choose(3, INPUT, "ports");
  c.ports = n;
  bool strict = flip(INPUT, "strict");
  int bad = choose(1 << n, INPUT, "taken");
  int how = choose(3, INPUT, "how");  // start_port; start_port and static_ports; neither (dynamic)
  std::vector<string> a{"-directory=" + path(c.dst), "-num_ports=" + std::to_string(n), "-encryption_type=none", "-hostname=localhost"};
  if (how < 2) a.push_back("-start_port=32000");
  if (how == 1) a.push_back("-static_ports");
  if (strict) a.push_back("-treat_fewer_port_as_error");
  int seen = 0;
  std::map<int, int> turn;
  net::opt.bindFault = [&](int port) {
    if (how < 2) return port >= 32000 && port < 32000 + n && (bad >> (port - 32000) & 1) ? EADDRINUSE : 0;
    return 0;
  };
  (void)seen;
  if (how == 2 && bad) prune("dynamic ports are free");
  fib::run([&] {
    Prog p;
    p.args = with(a);
    p.start(2);
    string u = p.url(), d = p.text() + " taken " + std::to_string(bad);
    int left = n - __builtin_popcount(bad);
    if (left == 0 || (left < n && strict)) {
      p.join();
      VMC_CHECK(u.empty() && p.rc != 0, "ports-refused", "%s: exit code %d, printed %s", d.c_str(), p.rc, u.c_str());
      if (left) VMC_CHECK(p.rc == FEWER_PORTS, "ports-code", "%s: exit code %d", d.c_str(), p.rc);
      outcome("refused");
      return;
    }
    VMC_CHECK(!u.empty() && !p.done, "no-url", "%s: no url, ended %d with %d", d.c_str(), p.done, p.rc);
    WdtTransferRequest q(u);
    // the others may be tried again when the transfer starts
    std::set<int> got(q.ports.begin(), q.ports.end());
    VMC_CHECK(q.errorCode == OK && (int)got.size() >= left && (int)got.size() <= n, "ports", "%s: %zu ports in %s", d.c_str(), q.ports.size(), u.c_str());
    for (int i = 0; i < n && how < 2; ++i) VMC_CHECK((bad >> i & 1) || got.count(32000 + i), "ports-missing", "%s: port %d is not in %s", d.c_str(), 32000 + i, u.c_str());
    Xfer x(c);
    x.url = u;
    if (x.startSenderAsync()) x.finishSender();
    p.join();
    string diff = compareDst(c);
    VMC_CHECK(x.S.ok() && p.rc == 0 && diff.empty(), "receive", "%s: sender %s, program %d, %s", d.c_str(), errorCodeToStr(x.S.err).c_str(), p.rc, diff.c_str());
    outcome("ok");
    x.destroy();
  });
  step();
}

// ---- a sender started from the command line
/// how the url gets to the sender: 0 standard input, 1 flag
static void sendProg() {
  begin();
  Cfg c = base();
  makeSource(c);
  int how = choose(3, INPUT, "how");  // stdin, flag, -destination
  c.ports = 1 + choose(2, INPUT, "ports");
  string enc = how == 2 ? "none" : pick(std::vector<string>{"none", "aes128ctr", "aes128gcm"}, "encryption");
  int fail = choose(how == 2 ? 4 : 5, INPUT, "failure");  // 0 none, 1 other id, 2 no receiver there, 3 no source directory, 4 url without ports
  int proto = choose(2, INPUT, "protocol");
  c.ropt = [enc, how](WdtOptions& o) { o.encryption_type = enc; o.static_ports = how == 2; };
  std::vector<string> a{"-directory=" + (fail == 3 ? path("missing") : path(c.src)), "-encryption_type=" + enc};
  if (proto) a.push_back("-protocol_version=26");
  if (flip(INPUT, "dest id")) a.push_back("-dest_id=D1");
  if (flip(INPUT, "namespace")) a.push_back("-namespace=N");
  bool over = how < 2 && flip(INPUT, "host");
  if (over) a.push_back("-hostname=localhost");
  fib::run([&] {
    Xfer x(c);
    fib::setGroup(2);
    WdtTransferRequest req(how == 2 ? 33000 : 0, c.ports, path(c.dst));
    req.hostName = "localhost";
    req.transferId = "id1";
    x.receiver = std::make_unique<Receiver>(req);
    WdtOptions o;
    x.options(o, false);
    x.receiver->setWdtOptions(o);
    const WdtTransferRequest& out = x.receiver->init();
    VMC_CHECK(out.errorCode == OK, "harness", "receiver %s", errorCodeToStr(out.errorCode).c_str());
    x.url = out.genWdtUrlWithSecret();
    if (fail != 2) x.receiver->transferAsync();
    else { net::killGroup(2); }
    fib::setGroup(0);
    Prog p;
    string url = x.url;
    if (over) { size_t k = url.find("localhost"); url.replace(k, 9, "nowhere"); }
    if (fail == 1) { size_t k = url.find("id=id1"); if (k != string::npos) url.replace(k, 6, "id=id2"); }
    if (fail == 4) url = "wdt://localhost?id=id1&num_ports=1";
    if (how == 0) { a.push_back("-"); p.in = url + "\n"; }
    if (how == 1) a.push_back("-connection_url=" + url);
    if (how == 2) {
      a.push_back("-destination=localhost");
      a.push_back("-start_port=33000");
      a.push_back("-num_ports=" + std::to_string(c.ports));
      a.push_back(string("-transfer_id=") + (fail == 1 ? "id2" : "id1"));
    }
    p.args = with(a);
    p.start(1);
    p.join();
    string d = p.text() + " failure " + std::to_string(fail);
    if (fail == 2) {
      VMC_CHECK(p.rc == CONN_ERROR, "send-nobody", "%s: exit code %d", d.c_str(), p.rc);
    } else {
      if (fail) x.receiver->abort(ABORTED_BY_APPLICATION);
      x.finishReceiver();
      string diff = compareDst(c);
      bool failed = fail == 1 || fail == 3 || (fail == 4 && how != 2);
      if (failed) {
        VMC_CHECK(p.rc != 0, "send-false-ok", "%s: exit code 0", d.c_str());
        VMC_CHECK(fs::snapshot(path(c.dst)).empty(), "send-wrote", "%s: files were sent", d.c_str());
      } else {
        VMC_CHECK(p.rc == 0 && x.R.done && (fail || x.R.ok()) && diff.empty(), "send", "%s: program %d, receiver %s, %s", d.c_str(), p.rc, errorCodeToStr(x.R.err).c_str(), diff.c_str());
      }
    }
    noSecret(out, d);
    outcome(std::to_string(p.rc));
    x.destroy();
  });
  step();
}
/// -manifest: exactly the files and sizes that are listed
static void manifest() {
  begin();
  Cfg c = base();
  makeSource(c);
  struct L { string text, name; int64_t size; int kind; int direct = -1; };  // kind 0 fine, 1 cannot be sent, 2 not a line of a manifest
  static const std::vector<L> A{{"a", "a", -1, 0}, {"d/c\t-1", "d/c", -1, 0}, {"e\t100", "e", 100, 0}, {"d/b\t0", "d/b", 0, 0}, {"e\t9000\t1", "e", -1, 0, 1}, {"a\t4097\ttrue", "a", 4097, 0, 1}, {"d/c\t300\tfalse", "d/c", 300, 0, 0},
                                {"missing", "", 0, 1}, {"e\t5000000000", "e", 0, 1}, {"d/c\t301", "d/c", 301, 1}, {"", "", 0, 2}, {"a\t1\t0\tx", "", 0, 2}, {"a\tbig", "", 0, 2}, {"a\t1\tmaybe", "", 0, 2}};
  int via = choose(4, INPUT, "via");  // file; standard input with -connection_url; standard input after the url; no such file
  int n = choose(thorough() ? 5 : 4, INPUT, "lines");
  string text;
  std::map<string, int64_t> want;
  std::map<string, int> direct;
  std::map<string, std::set<bool>> opened;
  std::set<string> listed;
  int worst = 0;
  if (via == 3 && n) prune("no lines");
  for (int i = 0; i < n; ++i) {
    const L& l = pick(A, "line");
    if (l.kind < 2 && listed.count(l.name)) prune("listed twice");
    listed.insert(l.name);
    if (l.kind == 2) n = i + 1;
    bool open = i == n - 1 && flip(INPUT, "no newline at the end");
    if (open && l.text.empty()) prune("no line");
    text += l.text + (open ? "" : "\n");
    if (l.kind == 0) want[l.name] = l.size, direct[l.name] = l.direct;
    worst = std::max(worst, l.kind);
  }
  fs::writeFile(scratch() + "/list", text);
  std::vector<string> a{"-directory=" + path(c.src), "-encryption_type=none"};
  c.ropt = [](WdtOptions& o) { o.disable_preallocation = true; };
  if (flip(INPUT, "open early")) a.push_back("-open_files_during_discovery=1");
  bool dflt = (thorough() || n < 3) && flip(INPUT, "direct");
  if (dflt) a.push_back("-odirect_reads");
  fs::opt.root = scratch();
  fs::opt.hook = [&](const fs::Op& o) {
    size_t k = o.path.find("/src/");
    if (o.kind == fs::OPEN && k != string::npos) opened[o.path.substr(k + 5)].insert((o.flags & O_DIRECT) != 0);
    return fs::Act();
  };
  fib::run([&] {
    Xfer x(c);
    x.startReceiver();
    Prog p;
    if (via == 0) a.push_back("-manifest=" + scratch() + "/list");
    if (via == 3) a.push_back("-manifest=" + scratch() + "/no-list");
    if (via == 1 || via == 2) a.insert(a.end(), {"-manifest", "-"});
    if (via == 2) { a.push_back("-"); p.in = x.url + "\n" + text; }
    else { a.push_back("-connection_url=" + x.url); p.in = text; }
    p.args = with(a);
    string d = "manifest '" + folly::backslashify(text) + "' via " + std::to_string(via);
    mayFail = worst == 2;
    if (worst == 2) outcome("not a manifest");
    p.start(1);
    p.join();
    mayFail = false;
    VMC_CHECK(worst == 2 || !p.threw, "manifest-crash", "%s: the program dies", d.c_str());
    if (worst == 2 || via == 3) {
      VMC_CHECK(p.rc != 0, "manifest-accepted", "%s: exit code 0", d.c_str());
      endExecution();
    }
    x.finishReceiver();
    fs::Tree dst = fs::snapshot(path(c.dst));
    if (worst == 1) {
      VMC_CHECK(p.rc != 0, "manifest-false-ok", "%s: exit code 0", d.c_str());
    } else {
      VMC_CHECK(p.rc == 0 && x.R.ok(), "manifest", "%s: exit code %d, receiver %s", d.c_str(), p.rc, errorCodeToStr(x.R.err).c_str());
      VMC_CHECK(dst.size() == want.size(), "manifest-files", "%s: %zu files sent", d.c_str(), dst.size());
    }
    for (auto& f : c.files) {
      if (worst || !want.count(f.name)) continue;
      string full = content(c, f);
      if (want[f.name] >= 0) full.resize(want[f.name]);
      VMC_CHECK(dst.count(f.name) && dst[f.name] == full, "manifest-content", "%s: %s has %zu bytes, expected %zu", d.c_str(), f.name.c_str(), dst.count(f.name) ? dst[f.name].size() : 0, full.size());
      bool dir = direct[f.name] < 0 ? dflt : direct[f.name];
      if (!full.empty()) VMC_CHECK(opened[f.name] == std::set<bool>{dir}, "manifest-direct", "%s (default %d): %s opened %s", d.c_str(), dflt, f.name.c_str(), opened[f.name].count(true) ? "for direct reading" : "without direct reading");
    }
    outcome(std::to_string(p.rc));
    x.destroy();
    fs::opt.hook = nullptr;
  });
  step();
}

/// what is said about the transfer reaches the url, or replaces what the url says
static void fields() {
  begin();
  Cfg c = base();
  makeSource(c);
  string ns = pick(std::vector<string>{"", "N"}, "namespace"), dest = pick(std::vector<string>{"", "D&1"}, "dest id");
  string enc = pick(std::vector<string>{"none", "aes128ctr", "aes128gcm"}, "encryption"), secret = enc == "none" || !flip(INPUT, "secret") ? "" : "0123456789abcdef";
  fib::run([&] {
    Prog p;
    p.args = with({"-encryption_type=" + enc, "-directory=" + path(c.dst), "-hostname=nowhere"});
    if (!ns.empty()) p.args.push_back("-namespace=" + ns);
    if (!dest.empty()) p.args.push_back("-dest_id=" + dest);
    if (!secret.empty()) p.args.push_back("-test_only_encryption_secret=" + secret);
    p.start(2);
    string u = p.url(), d = p.text();
    WdtTransferRequest q(u);
    VMC_CHECK(q.errorCode == OK && q.hostName == "nowhere", "url", "%s: printed %s", d.c_str(), u.c_str());
    VMC_CHECK(q.wdtNamespace == ns && q.destIdentifier == dest, "url-names", "%s: namespace '%s' and destination '%s' in the url", d.c_str(), q.wdtNamespace.c_str(), q.destIdentifier.c_str());
    VMC_CHECK(q.encryptionData.getType() == parseEncryptionType(enc), "url-encryption", "%s: encryption %d in the url", d.c_str(), (int)q.encryptionData.getType());
    if (!secret.empty()) VMC_CHECK(q.encryptionData.getSecret() == secret, "url-secret", "%s: another secret in the url", d.c_str());
    noSecret(q, d);
    // a sender of the library
    Xfer x(c);
    x.url = u;
    x.onSenderReq = [](WdtTransferRequest& r) { r.hostName = "localhost"; };
    if (x.startSenderAsync()) x.finishSender();
    p.join();
    VMC_CHECK(p.rc == 0 && x.S.ok() && compareDst(c).empty(), "fields", "%s: program %d, sender %s", d.c_str(), p.rc, errorCodeToStr(x.S.err).c_str());
    x.destroy();
    outcome(enc + ns);
  });
  step();
}
/// a program whose peer fails says so
static void peerFails() {
  begin();
  Cfg c = base();
  makeSource(c);
  bool recv = flip(INPUT, "receiver");
  int how = choose(3, INPUT, "how");
  c.ports = 1 + choose(2, INPUT, "ports");
  fib::run([&] {
    Prog p;
    string d;
    if (recv) {
      p.args = with({"-encryption_type=none", "-directory=" + path(c.dst), "-hostname=localhost", "-num_ports=" + std::to_string(c.ports)});
      p.start(2);
      Xfer x(c);
      x.url = p.url();
      std::thread killer;
      if (how == 0) x.onSenderReq = [](WdtTransferRequest& r) { r.disableDirectoryTraversal = true; r.fileInfo = {WdtFileInfo("a", -1, false), WdtFileInfo("missing", 10, false)}; };
      if (how == 1) x.onSenderReq = [](WdtTransferRequest& r) { r.disableDirectoryTraversal = true; r.fileInfo = {WdtFileInfo("a", 6000, false)}; };
      if (how == 2) x.onSender = [](Sender& s) { s.abort(ABORTED_BY_APPLICATION); };
      if (x.startSenderAsync()) x.finishSender();
      p.join();
      d = p.text() + " sender " + errorCodeToStr(x.S.err);
      VMC_CHECK(!x.S.ok(), "scene", "%s: the sender did not fail", d.c_str());
      x.destroy();
    } else {
      fs::opt.root = scratch();
      fs::opt.hook = [&](const fs::Op& o) {
        fs::Act a;
        if (o.path.find("/dst") != string::npos && ((how == 0 && o.kind == fs::OPEN) || (how == 1 && (o.kind == fs::WRITE || o.kind == fs::PWRITE)) || (how == 2 && o.kind == fs::FALLOC))) a.err = ENOSPC;
        return a;
      };
      Xfer x(c);
      x.startReceiver();
      p.args = with({"-encryption_type=none", "-directory=" + path(c.src), "-connection_url=" + x.url});
      p.start(1);
      p.join();
      x.finishReceiver();
      d = p.text() + " receiver " + errorCodeToStr(x.R.err);
      if (how == 2 && compareDst(c).empty()) { x.destroy(); endExecution(); }  // space need not be reserved
      VMC_CHECK(!x.R.ok(), "scene", "%s: the receiver did not fail", d.c_str());
      x.destroy();
      fs::opt.hook = nullptr;
    }
    VMC_CHECK(p.rc != 0, "peer-failed", "%s: exit code 0", d.c_str());
    outcome(std::to_string(p.rc));
  });
  step();
}

// ---- everything else
/// command lines that are not for a transfer
static void usageErrors() {
  begin();
  struct U { std::vector<string> args; string in; int rc; };  // rc -1: anything but 0
  static const std::vector<U> A{
      {{"x"}, "", 1}, {{"x", "-"}, "", 1}, {{"-", "x"}, "", 1}, {{"--", "-directory=x"}, "", 1}, {{"-", "-"}, "", 1}, {{"--nosuch"}, "", 1}, {{"--nosuch=1"}, "", 1},
      {{"-num_ports=abc"}, "", 1}, {{"-num_ports"}, "", 1}, {{"-ipv4=perhaps"}, "", 1}, {{"--wdt_num_ports=3"}, "", 1},
      {{"--help"}, "", 0}, {{"--version"}, "", 0}, {{"-"}, "", URI_PARSE_ERROR}, {{"-"}, "\n", URI_PARSE_ERROR}, {{"-"}, "\nwdt://localhost:1?num_ports=1&recpv=30\n", URI_PARSE_ERROR},
      {{"-"}, "http://localhost\n", ERROR}, {{"-"}, "wdt://\n", ERROR}, {{"-connection_url=wdt://localhost"}, "", ERROR}, {{"-connection_url=x"}, "", ERROR},
      {{"-connection_url=wdt://localhost:22356?num_ports=x"}, "", ERROR}, {{"-protocol_version=1"}, "", -1}, {{"-destination=localhost", "-protocol_version=1", "-transfer_id=x"}, "", -1},
      {{"-encryption_type=rot13", "-num_ports=0"}, "", -1}};
  const U& u = pick(A, "command line");
  int extra = choose(3, INPUT, "extra");
  fib::run([&] {
    Prog p;
    p.args = u.args;
    p.in = u.in;
    string dst = scratch() + "/dst";
    if (extra == 1) p.args.insert(p.args.begin(), "-directory=" + dst);
    if (extra == 2) p.args.insert(p.args.begin(), {"-directory=" + dst, "-num_ports=2", "-encryption_type=none"});
    if (u.rc == -1 && !extra) p.args.push_back("-directory=" + dst);
    p.start(2);
    p.join();
    string d = p.text() + "< '" + folly::backslashify(u.in) + "'";
    VMC_CHECK(u.rc < 0 ? p.rc != 0 : p.rc == u.rc, "usage", "%s: exit code %d instead of %d", d.c_str(), p.rc, u.rc);
    VMC_CHECK(p.out.s.find("wdt://") == string::npos, "usage-url", "%s: printed %s", d.c_str(), p.out.s.c_str());
    VMC_CHECK(net::stats.conns == 0, "usage-net", "%s: connected", d.c_str());
    outcome(std::to_string(p.rc));
  });
  step();
}
/// unknown flags can be ignored
static void badFlags() {
  begin();
  Cfg c = base();
  makeSource(c);
  bool dash = flip(INPUT, "dash");
  bool wrong = flip(INPUT, "wrong value");
  fib::run([&] {
    Prog p;
    p.args = with({"-noexit_on_bad_flags", wrong ? "-from_a_newer_version=3" : "-nosuch", "-directory=" + path(c.dst), "-num_ports=1", "-hostname=localhost"});
    if (dash) p.args.push_back("-overwrite");
    p.start(2);
    string u = p.url(), d = p.text();
    VMC_CHECK(!u.empty(), "bad-flags", "%s: ended with %d", d.c_str(), p.rc);
    Xfer x(c);
    x.url = u;
    if (x.startSenderAsync()) x.finishSender();
    p.join();
    string diff = compareDst(c);
    VMC_CHECK(x.S.ok() && p.rc == 0 && diff.empty(), "receive", "%s: sender %s, program %d, %s", d.c_str(), errorCodeToStr(x.S.err).c_str(), p.rc, diff.c_str());
    x.destroy();
  });
  step();
}
static void printOptions() {
  begin();
  static const std::vector<std::pair<string, string>> A{{"num_ports", "5"}, {"block_size_mbytes", "3.5"}, {"start_port", "40000"}, {"include_regex", "a.*"}, {"overwrite", "1"}, {"fsync", "0"}, {"resume_using_dir_tree", "0"}};
  string type = pick(std::vector<string>{"", "flash", "disk"}, "type");
  std::map<string, string> want{{"num_ports", "8"}, {"block_size_mbytes", "16"}, {"start_port", "22356"}, {"static_ports", "0"}, {"include_regex", ""}, {"overwrite", "0"}, {"fsync", "1"}, {"resume_using_dir_tree", "0"}, {"disable_preallocation", "0"}};
  if (type == "disk") { want["num_ports"] = "3"; want["block_size_mbytes"] = "-1"; want["resume_using_dir_tree"] = want["disable_preallocation"] = "1"; }
  Prog p;
  p.args = {"-print_options", "-directory=" + scratch() + "/dst"};
  if (!type.empty()) p.args.push_back("-option_type=" + type);
  for (auto& a : A)
    if (flip(INPUT, a.first.c_str())) {
      want[a.first] = a.second;
      p.args.push_back("-" + a.first + "=" + a.second);
      if (a.first == "start_port") want["static_ports"] = "1";
    }
  fib::run([&] {
    p.start(2);
    p.join();
    VMC_CHECK(p.rc == 0, "print-rc", "%s: exit code %d", p.text().c_str(), p.rc);
    for (auto& w : want) {
      string l = string(WDT_LOG_PREFIX) + w.first + " " + w.second + "\n";
      VMC_CHECK(p.out.s.find(l) != string::npos, "print", "%s: no line '%s'", p.text().c_str(), folly::backslashify(l).c_str());
    }
    VMC_CHECK(!fs::exists(scratch() + "/dst") && p.out.s.find("wdt://") == string::npos, "print-started", "%s: a receiver was started", p.text().c_str());
  });
  step();
}
/// -abort_after_seconds ends what would take longer, and nothing else
static void abortAfter() {
  begin();
  Cfg c = base();
  makeSource(c);
  int secs = pick(std::vector<int>{-1, 0, 1, 3, 30}, "seconds");
  bool sender = flip(INPUT, "sender");
  bool peer = flip(INPUT, "peer");
  c.ports = 1 + choose(2, INPUT, "ports");
  fib::run([&] {
    Prog p;
    // without the other side each would try for 10 s or more
    std::vector<string> a{"-ipv4", "-encryption_type=none", "-progress_report_interval_millis=0", "-hostname=localhost", "-num_ports=" + std::to_string(c.ports), "-abort_after_seconds=" + std::to_string(secs), "-max_accept_retries=100",
                          "-accept_timeout_millis=100", "-max_retries=100", "-sleep_millis=100", "-connect_timeout_millis=500", "-directory=" + path(sender ? c.src : c.dst)};
    Xfer x(c);
    int64_t t0 = fib::now();
    if (sender) {
      x.startReceiver();
      if (!peer) { x.receiver->abort(ABORTED_BY_APPLICATION); x.finishReceiver(); net::killGroup(2); }
      t0 = fib::now();
      a.push_back("-connection_url=" + x.url);
      p.args = a;
      p.start(1);
      if (peer) x.finishReceiver();
    } else {
      p.args = a;
      p.start(2);
      x.url = p.url();
      VMC_CHECK(!x.url.empty(), "no-url", "%s: no url", p.text().c_str());
      if (peer && x.startSenderAsync()) x.finishSender();
    }
    p.join();
    double took = (fib::now() - t0) * 1e-9;
    string d = p.text() + (peer ? " with" : " without") + " peer";
    if (peer) {
      string diff = compareDst(c);
      VMC_CHECK(p.rc == 0 && diff.empty(), "abort-early", "%s: exit code %d after %.2f s, %s", d.c_str(), p.rc, took, diff.c_str());
      VMC_CHECK(took < 3, "abort-slow", "%s: took %.2f s", d.c_str(), took);
    } else {
      VMC_CHECK(p.rc != 0, "abort-false-ok", "%s: exit code 0", d.c_str());
      if (secs > 0 && secs < 8) {
        VMC_CHECK(p.rc == ABORTED_BY_APPLICATION || p.rc == ABORT, "abort-code", "%s: exit code %d", d.c_str(), p.rc);
        VMC_CHECK(took >= secs - 0.001 && took <= secs + 1.5, "abort-time", "%s: ended after %.2f s", d.c_str(), took);
      } else {
        VMC_CHECK(p.rc != ABORTED_BY_APPLICATION && p.rc != ABORT, "abort-unasked", "%s: exit code %d after %.2f s", d.c_str(), p.rc, took);
        VMC_CHECK(took >= 8, "gave-up", "%s: ended after %.2f s", d.c_str(), took);
      }
    }
    // the thread that counts the seconds ends with the program
    for (int i = 0; i < 100 && fib::alive() > 1; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    VMC_CHECK(fib::alive() == 1, "abort-thread", "%s: %s", d.c_str(), fib::where().c_str());
    outcome(std::to_string(p.rc));
    x.destroy();
  });
  step();
}
/// -run_as_daemon: transfers one after the other with one url
static void daemonProg() {
  begin();
  Cfg c = base();
  makeSource(c);
  int n = 1 + choose(3, INPUT, "transfers");
  c.ports = 1 + choose(2, INPUT, "ports");
  int sp = choose(3, INPUT, "start port");
  bool dyn = sp == 1;
  int first = sp ? 22356 : 34000;  // the documented default
  fib::run([&] {
    Prog p;
    p.args = with({"-run_as_daemon", "-overwrite", "-encryption_type=none", "-hostname=localhost", "-num_ports=" + std::to_string(c.ports), "-directory=" + path(c.dst)});
    if (sp < 2) p.args.push_back(dyn ? "-start_port=0" : "-start_port=34000");
    p.start(2);
    string u = p.url(), d = p.text();
    VMC_CHECK(!u.empty(), "no-url", "%s: no url, exit code %d", d.c_str(), p.rc);
    WdtTransferRequest q(u);
    for (size_t i = 0; i < q.ports.size(); ++i) VMC_CHECK(dyn ? q.ports[i] > 0 : q.ports[i] == first + (int)i, "daemon-port", "%s: port %d", d.c_str(), q.ports[i]);
    for (int i = 0; i < n; ++i) {
      Cfg k = c;
      k.seed = i + 1;
      k.src = "src" + std::to_string(i);
      makeSource(k);
      Xfer x(k);
      x.url = u;
      if (x.startSenderAsync()) x.finishSender();
      std::this_thread::sleep_for(std::chrono::seconds(3));
      string diff = compareDst(k);
      VMC_CHECK(!p.done && x.S.ok() && diff.empty(), "daemon", "%s: transfer %d: %s, daemon ended %d, %s", d.c_str(), i, errorCodeToStr(x.S.err).c_str(), p.done, diff.c_str());
      x.destroy();
    }
    outcome(std::to_string(n));
    endExecution();
  });
}
/// -parse_transfer_log: accepts what a transfer left behind, refuses damage, changes nothing good
static void parseLog() {
  begin();
  Cfg c = base();
  makeSource(c);
  c.both = [](WdtOptions& o) { o.enable_download_resumption = true; o.transfer_log_write_interval_ms = 10; };
  int what = choose(6, INPUT, "what");  // whole, no directory, cut at the end, cut in the middle, garbage, empty
  fib::run([&] {
    Xfer x(c);
    x.run();
    VMC_CHECK(x.S.ok() && x.R.ok(), "harness", "%s", x.codes().c_str());
    x.destroy();
    string log = path(c.dst) + "/.wdt.log";
    VMC_CHECK(fs::exists(log), "harness", "no log");
    string whole = fs::readFile(log), text = whole;
    if (what == 2) text.resize(whole.size() - 1 - choose(6, INPUT, "cut"));
    if (what == 3) text.resize(whole.size() / 2);
    if (what == 4) text[3 + choose(4, INPUT, "byte") * 8] ^= 0x55;
    if (what == 5) text.clear();
    fs::writeFile(log, text);
    string dir = what == 1 ? path("none") : path(c.dst);
    Prog p;
    p.args = {"-parse_transfer_log", "-directory=" + dir};
    p.start(2);
    p.join();
    fs::Tree after = fs::snapshot(path(c.dst));
    string d = "log " + std::to_string(what);
    if (what == 0) {
      VMC_CHECK(p.rc == 0, "parse-rc", "a complete log is refused with %d", p.rc);
      VMC_CHECK(after[".wdt.log"] == whole, "parse-changed", "a complete log is changed");
      for (auto& f : c.files) VMC_CHECK(f.size == 0 || p.out.s.find(f.name) != string::npos, "parse-print", "%s is not printed", f.name.c_str());
    }
    if (what == 1) VMC_CHECK(p.rc != 0, "parse-no-dir", "exit code 0 without a directory");
    if (what == 2 || what == 3) {
      // a prefix is fixed; a second look finds nothing to fix
      VMC_CHECK(p.rc == 0, "parse-cut", "%s: exit code %d", d.c_str(), p.rc);
      string once = after[".wdt.log"];
      VMC_CHECK(whole.compare(0, once.size(), once) == 0, "parse-fix", "%s: the fixed log is not a prefix of the log", d.c_str());
      Prog p2;
      p2.args = {"-parse_transfer_log", "-directory=" + dir};
      p2.start(2);
      p2.join();
      VMC_CHECK(p2.rc == 0 && fs::snapshot(path(c.dst))[".wdt.log"] == once, "parse-again", "%s: the fixed log is changed again", d.c_str());
    }
    VMC_CHECK(compareDst(c).empty(), "parse-files", "%s: files changed: %s", d.c_str(), compareDst(c).c_str());
    outcome(std::to_string(p.rc));
  });
  step();
}
/// -recovery_id: a second run with the same id sends nothing again
static void recovery() {
  begin();
  Cfg c = base();
  makeSource(c);
  bool same = flip(INPUT, "same id");
  bool flag = flip(INPUT, "explicit");
  string enc = pick(std::vector<string>{"none", "aes128gcm"}, "encryption");
  fib::run([&] {
    int64_t sent[2];
    for (int i = 0; i < 2; ++i) {
      Prog p;
      p.args = with({"-recovery_id=" + string(same || i == 0 ? "r1" : "r2"), "-overwrite", "-app_name=app" + std::to_string(i), "-encryption_type=" + enc, "-hostname=localhost", "-num_ports=1", "-block_size_mbytes=1", "-directory=" + path(c.dst)});
      if (flag) p.args.push_back("-enable_download_resumption");
      GFLAGS_NAMESPACE::FlagSaver restore;
      p.start(2);
      string u = p.url(), d = p.text();
      VMC_CHECK(!u.empty(), "no-url", "%s: no url, exit code %d", d.c_str(), p.rc);
      VMC_CHECK(WdtTransferRequest(u).downloadResumptionEnabled, "recovery-url", "%s: url %s does not ask for resumption", d.c_str(), u.c_str());
      Xfer x(c);
      x.url = u;
      x.c.sopt = [](WdtOptions& o) { o.enable_download_resumption = true; };
      if (x.startSenderAsync()) x.finishSender();
      p.join();
      string diff = compareDst(c);
      VMC_CHECK(x.S.ok() && p.rc == 0 && diff.empty(), "recovery", "%s: run %d: %s, program %d, %s", d.c_str(), i, errorCodeToStr(x.S.err).c_str(), p.rc, diff.c_str());
      sent[i] = x.S.report->getSummary().getEffectiveDataBytes();
      x.destroy();
    }
    VMC_CHECK(sent[0] == 14300, "recovery-first", "%ld bytes sent first", (long)sent[0]);
    VMC_CHECK(sent[1] == (same ? 0 : 14300), "recovery-second", "%s recovery id: %ld bytes sent the second time", same ? "same" : "other", (long)sent[1]);
    outcome(same ? "same" : "other");
  });
  step();
}
/// both sides are the program; the connections suffer
static void both() {
  begin(RECOV);
  Cfg c = base();
  makeSource(c);
  string enc = pick(std::vector<string>{"none", "aes128gcm"}, "encryption");
  fib::run([&] {
    Prog r, s;
    r.args = with({"-directory=" + path(c.dst), "-encryption_type=" + enc, "-hostname=localhost", "-num_ports=2", "-app_name=R"});
    r.start(2);
    string u = r.url();
    VMC_CHECK(!u.empty(), "no-url", "no url, exit code %d", r.rc);
    s.args = with({"-directory=" + path(c.src), "-app_name=S", "-"});
    s.in = u + "\n";
    s.start(1);
    s.join();
    r.join();
    string diff = compareDst(c);
    if (s.rc == 0) VMC_CHECK(diff.empty(), "both-false-ok", "sender exit code 0, %s", diff.c_str());
    if (r.rc == 0) VMC_CHECK(diff.empty(), "both-false-ok", "receiver exit code 0, %s", diff.c_str());
    // a break inside the closing tag exchange may be reported as an authentication failure
    auto fine = [&](int rc) { return rc == 0 || (enc != "none" && rc == ENCRYPTION_ERROR && diff.empty()); };
    VMC_CHECK(fine(s.rc) && fine(r.rc), "both", "exit codes %d %d, %s", s.rc, r.rc, diff.c_str());
    WdtTransferRequest q(u);
    noSecret(q, "both");
    outcome("ok");
  });
}

/// a damaged url is refused or used, but never repeated in the log or on the standard output
static void malformed() {
  begin();
  static const string sec("\x3a\x91\xc4\x07\xee\x5b\x60\xd2\x1f\x88\xb9\x4c\x73\x0d\xa6\xf5", 16);
  string hex = folly::hexlify(sec), url = "wdt://localhost:22356?Enc=2:" + hex + "&id=7&num_ports=1&recpv=32";
  static const char C[] = {'%', '&', '=', ':', '?', 'g', 'A', ' ', '0', ']', '['};
  int how = choose(2 + (int)sizeof(C), INPUT, "edit"), in = choose(2, INPUT, "stdin");
  size_t pos = choose((int)url.size(), INPUT, "position");
  string u = how == 0 ? url.substr(0, pos) : how == 1 ? url.substr(0, pos) + url.substr(pos + 1) : url.substr(0, pos) + C[how - 2] + url.substr(pos + 1);
  {
    // the secret in another field is not a secret
    WdtUri q(u);
    for (const char* k : {"id", "num_ports", "recpv"})
      if (q.getQueryParam(k).find(hex.substr(0, 12)) != string::npos) return;
    if (q.getHostName().find(hex.substr(0, 12)) != string::npos) return;
  }
  logs->s.clear();
  fib::run([&] {
    Prog p;
    p.args = {"-directory=" + path("missing")};
    if (in) p.args.push_back("-"), p.in = u + "\n";
    else p.args.push_back("-connection_url=" + u);
    p.start(2);
    p.join();
    string all = logs->s + p.out.s;
    VMC_CHECK(p.rc != 0, "malformed-ok", "%s: exit code 0", u.c_str());
    for (size_t i = 0; i + 12 <= hex.size(); i += 4) VMC_CHECK(all.find(hex.substr(i, 12)) == string::npos, "secret-logged", "'%s' (exit code %d): the log or the output shows the secret: %s", u.c_str(), p.rc, all.substr(0, 1000).c_str());
    VMC_CHECK(all.find(sec.substr(4, 6)) == string::npos, "secret-logged", "'%s': the log or the output shows the secret", u.c_str());
    outcome(std::to_string(p.rc));
  });
  step();
}
int main(int argc, char** argv) {
  Check c;
  c.property = "C34";
  c.quickBudget = 90;
  c.rule = "wdtCmdLine.cpp's main, unmodified, on fibers: every combination of the listed flags, ways to hand over the url, manifest lines and failures of each scenario; its exit code, what it prints and the resulting files are compared with the documented meaning";
  c.assumptions = {"exit() and glog's initialization are replaced by stand-ins; -fork is not explored", "the second program of an execution starts after the first has read its flags"};
  auto add = [&](const char* n, std::function<void()> f, double w = 1, std::vector<Bounds> q = {Bounds(0)}, std::vector<Bounds> d = {}) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.forked = true;
    s.budget = w;
    s.quick = q;
    s.deep = d;
    c.scenarios.push_back(s);
  };
  add("receive", receive, 3);
  add("ports", ports);
  add("send", sendProg, 2);
  add("manifest", manifest, 4);
  add("usage", usageErrors);
  add("bad-flags", badFlags);
  add("malformed", malformed);
  add("fields", fields);
  add("peer-fails", peerFails);
  add("print-options", printOptions);
  add("abort-after", abortAfter);
  add("daemon", daemonProg);
  add("parse-log", parseLog);
  add("recovery", recovery);
  add("both", both, 2, upTo(1, 1, 0), upTo(2, 1, 0));
  return runCheck(c, argc, argv);
}
