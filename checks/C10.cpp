// C10: hostile and garbled peers.  Scripted peers talk to the real receiver or
// the real sender; every file-system effect outside the destination is refused
// and recorded, so a name that escapes harms nothing.
#include <fcntl.h>
#include <folly/hash/Checksum.h>
#include <wdt/Protocol.h>
#include "e2e.h"
#include "peer.h"
using namespace vmc;
using namespace e2e;
using std::string;
using wire::Blk;
using peer::Script;

static const int V = Protocol::protocol_version;
static string b1(int c) { return string(1, (char)c); }
static string settings(int flags = 0, uint64_t rd = 1000, uint64_t wr = 1000, const string& id = "id1", int v = V) { return "S" + wire::settings(v, rd, wr, id, flags); }
/// a file command; lenDelta falsifies the announced header length
static string file(const Blk& b, const string& data, int lenDelta = 0, int status = 0, int v = V) {
  string h = wire::header(v, b);
  return "L" + b1(status) + wire::fix(h.size() + 4 + lenDelta, 2) + h + data;
}
static Blk blk(const string& n, uint64_t size, uint64_t seq = 1) {
  Blk b;
  b.name = n;
  b.seq = seq;
  b.data = b.size = size;
  return b;
}
static string done(uint64_t blocks, uint64_t bytes, int status = 0) { return peer::pad("D" + b1(status) + wire::done(V, blocks, bytes)); }
static string sizeCmd(uint64_t n) { return "Z" + wire::size(n); }
static const string DATA = fs::pattern(300, 7);
static uint32_t crc(const string& s) { return folly::crc32c((const uint8_t*)s.data(), s.size(), 0); }
static string footer(int32_t c) { return "F" + wire::footer(c); }

// ---------------------------------------------------------------- containment
static string norm(const string& p) {
  std::vector<string> v;
  size_t i = 0;
  while (i <= p.size()) {
    size_t j = std::min(p.find('/', i), p.size());
    string c = p.substr(i, j - i);
    if (c == "..") { if (!v.empty()) v.pop_back(); }
    else if (!c.empty() && c != ".") v.push_back(c);
    i = j + 1;
  }
  string r;
  for (auto& c : v) r += "/" + c;
  return r.empty() ? "/" : r;
}
static void contain(const string& dst) {
  string d = norm(dst);
  fs::opt.root = "/";
  fs::opt.hook = [d](const fs::Op& o) {
    fs::Act a;
    bool change = false;
    switch (o.kind) {
      case fs::OPEN: change = o.flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC); break;
      case fs::UNLINK: case fs::MKDIR: case fs::RENAME: case fs::RMDIR: change = true; break;
      case fs::FALLOC: case fs::FTRUNC: if (o.size > (16 << 20)) a.err = ENOSPC; return a;
      default: return a;
    }
    string n = norm(o.path);
    if (!change || n.compare(0, d.size() + 1, d + "/") == 0) return a;
    if (o.kind == fs::MKDIR && (n == d || n == "/" || d.compare(0, n.size() + 1, n + "/") == 0)) return a;  // the destination itself
    if ((o.kind == fs::OPEN || o.kind == fs::UNLINK) && n == d) return a;  // a directory: fails
    if (n.compare(0, 5, "/dev/") == 0 && o.kind == fs::OPEN && n.compare(0, 9, "/dev/shm/")) return a;
    a.err = EPERM;
    fail("outside", "%s of %s, the destination is %s", fs::kindName(o.kind), o.path.c_str(), d.c_str());
    return a;
  };
}

// ------------------------------------------------------------------ receivers
struct RConf {
  OptFn opt;
  int ports = 1;
  EncryptionType enc = ENC_NONE;
  fs::Tree before;    // what is in the destination
};
struct Conn {
  Script s;
  peer::End end = peer::FIN;
  int port = 0;       // index
};
static int64_t maxSecs = 120;
static void prepare() {
  init();
  // what is logged is formatted (and can crash) although nothing is written
  FLAGS_wdt_logging_enabled = true;
  if (!getenv("VMC_LOG")) FLAGS_minloglevel = 3;
  fib::opt = fib::Options();
  fib::opt.schedPoints = false;
  fib::opt.maxTime = maxSecs * fib::SEC;
  net::opt = net::Options();
}
/// the receiver against scripted connections, one after the other
static void receive(const RConf& k, const std::vector<Conn>& conns, const std::function<void(Xfer&, const fs::Tree&)>& judge) {
  prepare();
  Cfg c;
  c.ports = k.ports;
  c.files.clear();
  c.ropt = [&](WdtOptions& o) {
    o.max_accept_retries = 3;
    if (k.opt) k.opt(o);
  };
  string top = path("top"), dst = top + "/dst";
  c.dst = dst;
  fs::mkdirs(dst);
  fs::materialize(dst, k.before);
  fs::writeFile(top + "/victim", "victim");
  fs::writeFile(path("victim"), "victim");
  fib::run([&] {
    Xfer x(c);
    contain(dst);
    if (!x.startReceiver()) { fail("init", "receiver did not start"); return; }
    auto ports = x.receiver->getTransferRequest().ports;
    for (auto& cn : conns) {
      fib::setGroup(1);
      int fd = peer::dial(ports[cn.port]);
      if (fd < 0) break;
      string got = peer::play(fd, cn.s, cn.end, 50, 3000);
      note("peer received %s", wire::hex(got, 40).c_str());
      fib::setGroup(0);
    }
    fib::setGroup(0);
    x.finishReceiver();
    fs::opt.root.clear();
    fs::opt.hook = nullptr;
    VMC_CHECK(fs::readFile(top + "/victim") == "victim" && fs::readFile(path("victim")) == "victim", "outside", "a file outside was changed");
    auto t = fs::snapshot(top);
    for (auto& f : t) VMC_CHECK(f.first == "victim" || f.first.compare(0, 4, "dst/") == 0, "outside", "%s was created", f.first.c_str());
    judge(x, fs::snapshot(dst));
    outcome(string(errorCodeToStr(x.R.err)) + std::to_string(t.size()));
    x.destroy();
  });
}
static void anyResult(Xfer&, const fs::Tree&) {}
static void noSuccess(Xfer& x, const fs::Tree&) { VMC_CHECK(!x.R.ok(), "success", "the receiver reports success"); }

static OptFn resumeLog() { return [](WdtOptions& o) { o.enable_download_resumption = true; o.overwrite = false; }; }
static OptFn resumeTree() { return [](WdtOptions& o) { o.enable_download_resumption = true; o.resume_using_dir_tree = true; o.block_size_mbytes = -1; o.disable_preallocation = true; }; }

/// messages a sender may say, by sequence number
struct Msg { string name; std::function<peer::Step()> make; int blocks = 0; int64_t bytes = 0; bool verified = false; };
static std::vector<Msg> senderMsgs() {
  return {
      {"settings", [] { return peer::Step{settings()}; }},
      {"settings-checksum", [] { return peer::Step{settings(1)}; }},
      {"settings-chunks", [] { return peer::Step{peer::pad(settings(2))}; }},
      {"settings-id", [] { return peer::Step{peer::pad(settings(0, 1000, 1000, "other"))}; }},
      {"settings-time0", [] { return peer::Step{settings(2, 0, 0)}; }},
      {"settings-old", [] { return peer::Step{peer::pad(settings(0, 1000, 1000, "id1", 20))}; }},
      {"settings-ancient", [] { return peer::Step{peer::pad(settings(0, 1000, 1000, "id1", 1))}; }},
      {"file", [] { return peer::Step{file(blk("a", 300), DATA)}; }},
      {"file2", [] { Blk b = blk("big", 600, 2); b.data = 300; b.off = 300; return peer::Step{file(b, DATA)}; }},
      {"footer", [] { return peer::Step{peer::pad(footer(crc(DATA)))}; }},
      {"bad-footer", [] { return peer::Step{peer::pad(footer(crc(DATA) ^ 1))}; }},
      {"delete", [] { Blk b = blk("kept", 0, 3); b.status = 4; return peer::Step{peer::pad(file(b, ""))}; }},
      {"size", [] { return peer::Step{peer::pad(sizeCmd(300))}; }},
      {"done0", [] { return peer::Step{done(0, 0)}; }},
      {"done1", [] { return peer::Step{done(1, 300)}; }},
      {"done-wild", [] { return peer::Step{done(1, 300, 0x80)}; }},
      {"done-error", [] { return peer::Step{done(1, 300, ERROR)}; }},
      {"ack", [] { return peer::Step{"D", true}; }},
      {"chunk-ack", [] { return peer::Step{"a", true}; }},
      {"wait", [] { return peer::Step{"", true}; }},
      {"junk", [] { return peer::Step{string(256, '\xee')}; }},
  };
}
/// success is only possible for a conversation that delivered what it announced
static void plausible(Xfer& x, const fs::Tree& dst, const std::vector<string>& names) {
  if (!x.R.ok()) return;
  int files = 0, claimed = -1;
  bool set = false;
  for (auto& n : names) {
    if (n == "settings" || n == "settings-checksum" || n == "settings-chunks") set = true;
    if (n == "file" || n == "file2" || n == "delete") ++files;
    if (n == "done0") claimed = 0;
    if (n == "done1") claimed = 1;
    if (n == "done-error") claimed = -1;
    if (n == "done-wild") claimed = 1;
  }
  string s;
  for (auto& n : names) s += n + " ";
  VMC_CHECK(set && claimed >= 0 && claimed <= files, "success", "the receiver reports success after %s", s.c_str());
  for (auto& n : names) {
    if (n == "file") { auto i = dst.find("a"); VMC_CHECK(claimed < files || (i != dst.end() && i->second == DATA), "success", "success without the data after %s", s.c_str()); }
  }
}
static void sequences(const RConf& k, int len, bool twoConns) {
  auto ms = senderMsgs();
  std::vector<string> names;
  std::vector<Conn> cs;
  for (int j = 0; j < (twoConns ? 2 : 1); ++j) {
    Conn c;
    for (int i = 0; i < len; ++i) {
      int m = choose((int)ms.size() + 1, INPUT, "message");
      if (m == 0) break;
      c.s.push_back(ms[m - 1].make());
      names.push_back(ms[m - 1].name);
    }
    c.end = choose(2, INPUT, "end") ? peer::SILENT : peer::FIN;
    cs.push_back(c);
  }
  receive(k, cs, [&](Xfer& x, const fs::Tree& d) { plausible(x, d, names); });
}

/// the conversation of a small transfer; a segment follows an answer
static Script conversation(int flags) {
  Script s;
  string ft = flags & 1 ? "F" : "";
  auto f = [&](const string& d) { return flags & 1 ? footer(crc(d)) : string(); };
  string one = settings(flags);
  if (flags & 2) {
    s.push_back({peer::pad(one), false});
    s.push_back({"", true});
    s.push_back({"a", true});
    one = "";
  }
  Blk b = blk("d/b", 100, 2);
  one += file(blk("a", 300), DATA) + f(DATA) + file(b, DATA.substr(0, 100)) + f(DATA.substr(0, 100)) + sizeCmd(400) + done(2, 400);
  s.push_back({one, false});
  s.push_back({"D", true});
  return s;
}
static void garble(const RConf& k, int flags, bool cut) {
  Script s = conversation(flags);
  int total = 0;
  for (auto& x : s) total += x.bytes.size();
  int at = choose(total + 1, INPUT, "position");
  static const int rep[] = {0, 1, 0x7f, 0x80, 0xff, -1, -2};
  int how = cut ? choose(2, INPUT, "end") : choose(7, INPUT, "value");
  int p = at;
  bool whole = true;
  Conn c;
  for (auto& x : s) {
    peer::Step y = x;
    if (p >= 0 && p < (int)y.bytes.size()) {
      if (cut) {
        y.bytes.resize(p);
        c.s.push_back(y);
        whole = false;
        break;
      }
      char& ch = y.bytes[p];
      char was = ch;
      ch = rep[how] == -1 ? ch ^ 0x20 : rep[how] == -2 ? ch + 1 : rep[how];
      if (ch == was) prune("same byte");
    }
    p -= x.bytes.size();
    c.s.push_back(y);
  }
  if (cut && how) c.end = peer::SILENT;
  string all;
  for (auto& x : s) all += x.bytes;
  size_t d1 = all.find(DATA), d2 = all.find(DATA.substr(0, 100), d1 + 300), q = at;
  bool inData = (q >= d1 && q < d1 + 300 + footer(crc(DATA)).size()) || (q >= d2 && q < d2 + 100 + footer(crc(DATA.substr(0, 100))).size());
  receive(k, {c}, [&](Xfer& x, const fs::Tree& dst) {
    if (cut && !whole && at < total - 1) VMC_CHECK(!x.R.ok(), "success", "success for a conversation cut at %d", at);
    if (at == total) {
      VMC_CHECK(x.R.ok(), "refused", "the intact conversation failed with %s", errorCodeToStr(x.R.err).c_str());
      auto a = dst.find("a"), b = dst.find("d/b");
      VMC_CHECK(a != dst.end() && a->second == DATA && b != dst.end() && b->second == DATA.substr(0, 100), "copy", "wrong files");
    }
    // with checksums success means that the data is what the footers say
    if ((flags & 1) && inData) VMC_CHECK(!x.R.ok(), "success", "success for damaged data");
  });
}
/// the same conversation arriving in two portions, split at any byte
static void split(const RConf& k, int flags) {
  Script s = conversation(flags), t;
  int total = 0;
  for (auto& x : s) total += x.bytes.size();
  int at = choose(total, INPUT, "position"), p = at;
  static const int ms[] = {1, 300};
  int pause = ms[choose(2, INPUT, "pause")];
  for (auto& x : s) {
    int n = x.bytes.size();
    if (p > 0 && p < n) {
      t.push_back({x.bytes.substr(0, p), x.await});
      t.push_back({x.bytes.substr(p), false, pause});
    } else {
      t.push_back(x);
    }
    p -= n;
  }
  receive(k, {{t}}, [&](Xfer& x, const fs::Tree& dst) {
    VMC_CHECK(x.R.ok(), "refused", "the conversation split at %d failed with %s", at, errorCodeToStr(x.R.err).c_str());
    auto a = dst.find("a"), b = dst.find("d/b");
    VMC_CHECK(a != dst.end() && a->second == DATA && b != dst.end() && b->second == DATA.substr(0, 100), "copy", "wrong files");
  });
}
static void names() {
  static const std::vector<string> bad{"../victim", "..", ".", "", "/", "//", "a/../../victim", "./../victim", "a/..", "../dst/x", "x/../../../victim", "../../victim", "a/", "a//../../victim", string("a\0/../../victim", 15), string("\0", 1), "...", "..a", "a..", "a/...", "d/../kept", "./kept", "a/./b", "kept/x", "d", "d/", ".wdt.log", "../dst2", "../dst", "/victim", "ABS", string(255, 'n'), string(256, 'n'), string(3000, 'p') + "/../../victim", "\xff\xfe", " ", "\n"};
  string n = pick(bad, "name");
  if (n == "ABS") n = path("victim");
  int status = choose(7, INPUT, "status");
  int sz = choose(2, INPUT, "size") * 300;
  int mode = choose(4, INPUT, "mode");
  RConf k;
  k.before = {{"kept", "kept"}, {"d/e", "e"}};
  if (mode == 1) k.opt = resumeLog();
  if (mode == 2) k.opt = resumeTree();
  if (mode == 3) k.opt = [](WdtOptions& o) { o.delete_extra_files = true; o.overwrite = true; };
  Blk b = blk(n, sz);
  b.status = status;
  b.prev = 9;
  Conn c;
  c.s = {{settings() + peer::pad(file(b, DATA.substr(0, sz)) + done(1, sz), 600), false}, {"D", true}};
  receive(k, {c}, anyResult);
}
static void headers() {
  static const uint64_t big = 1ull << 62, neg = ~0ull, i32 = 1ull << 31;
  Blk b = blk("a", 300);
  struct F { const char* n; uint64_t* p; std::vector<uint64_t> v; };
  std::vector<F> fs_{{"seq", &b.seq, {0, neg, i32, big}},
                     {"data", &b.data, {0, 1, 299, 301, 5000, i32, big, neg, big * 2 - 1}},
                     {"off", &b.off, {1, 299, 300, 301, i32, big, neg, big * 2 - 1}},
                     {"size", &b.size, {0, 1, 299, 301, 5000, i32, big, neg, big * 2 - 1}},
                     {"prev", &b.prev, {1, neg, big}}};
  int odd = 0;  // fields with an unusual value; at most one when it is not about the place of the block
  bool place = choose(2, INPUT, "place");
  for (auto& f : fs_) {
    bool p = f.p == &b.data || f.p == &b.off || f.p == &b.size;
    if (place && !p) continue;
    if (!place && odd >= 2) continue;
    int j = choose((int)f.v.size() + 1, INPUT, f.n);
    if (j) *f.p = f.v[j - 1], ++odd;
  }
  static const int sts[] = {0, 1, 2, 3, 4, 5, 255};
  b.status = sts[choose(7, INPUT, "status")];
  static const int dl[] = {0, 1, -1, 200, 32767, -40000};
  int d = dl[choose(odd <= 1 ? 6 : 1, INPUT, "length")];
  int mode = choose(3, INPUT, "mode");
  RConf k;
  if (mode == 1) k.opt = [](WdtOptions& o) { o.overwrite = true; o.delete_extra_files = true; };
  if (mode == 2) k.opt = resumeLog();
  k.before = {{"a", "old"}};
  Conn c;
  c.s = {{settings() + peer::pad(file(b, DATA, d) + done(1, b.data), 900), false}, {"D", true}};
  receive(k, {c}, anyResult);
}
/// numbers in the settings, in size and done
static void numbers() {
  maxSecs = 20000000;  // the time-outs of the sender are waited for
  static const std::vector<uint64_t> v{0, 1, 1000, 1u << 30, 0x7fffffff, 0x80000000ull, 1ull << 62, ~0ull >> 1, ~0ull};
  int what = choose(4, INPUT, "then");
  uint64_t rd = 1000, wr = 1000;
  if (what < 2 || choose(2, INPUT, "times")) rd = pick(v, "read"), wr = what < 2 ? pick(v, "write") : rd;
  uint64_t nb = what >= 2 ? pick(v, "blocks") : 1, by = what >= 2 ? pick(v, "bytes") : 300;
  RConf k;
  k.opt = [&](WdtOptions& o) {
    o.abort_check_interval_millis = 1 << 30;
    if (what == 1) resumeLog()(o);
  };
  Conn c;
  if (what == 0) c.s = {{settings(8, rd, wr) + file(blk("a", 300), DATA.substr(0, 10)), false}};
  if (what == 1) c.s = {{peer::pad(settings(2, rd, wr)), false}, {"", true}, {"a", true}, {file(blk("a", 300), DATA) + done(1, 300), true}, {"D", true}};
  if (what == 2) c.s = {{settings(8, rd, wr) + file(blk("a", 300), DATA) + done(nb, by), false}, {"D", true}};
  if (what == 3) c.s = {{settings(8, rd, wr) + peer::pad(sizeCmd(by)) + string(1, 0), false}};
  receive(k, {c}, [&](Xfer& x, const fs::Tree&) {
    if (x.R.ok()) VMC_CHECK(what == 1 || (what == 2 && nb == 1), "success", "success although %lld blocks were announced", (long long)nb);
  });
}

// -------------------------------------------------------------------- senders
struct SConf { OptFn opt; int ports = 1; string what; };
struct Srv {
  std::vector<std::vector<Conn>> conns;   // per port, in order of acceptance
};
static Cfg g_src;
static void serve(const SConf& k, const std::vector<std::vector<Conn>>& ports, const std::function<void(Xfer&)>& judge) {
  prepare();
  Cfg c = g_src;
  c.ports = k.ports;
  c.sopt = k.opt;
  fib::run([&] {
    std::vector<std::thread> ts;
    std::vector<int> ls;
    for (int i = 0; i < k.ports; ++i) ls.push_back(peer::listenOn(6000 + i));
    for (int i = 0; i < k.ports; ++i)
      ts.emplace_back([&, i] {
        fib::setGroup(2);
        for (auto& cn : ports[i]) {
          if (!peer::ready(ls[i], 8000)) break;
          int fd = ::accept(ls[i], nullptr, nullptr);
          if (fd < 0) break;
          string got = peer::play(fd, cn.s, cn.end, 400, 4000);
          note("receiver peer got %s", wire::hex(got, 40).c_str());
        }
        ::close(ls[i]);
      });
    Xfer x(c);
    x.url = "wdt://localhost:6000?num_ports=" + std::to_string(k.ports) + "&id=id1&recpv=" + std::to_string(V);
    if (x.startSenderAsync()) x.finishSender();
    for (auto& t : ts) t.join();
    judge(x);
    outcome(errorCodeToStr(x.S.err));
    x.destroy();
  });
}
static string abortMsg(int code, int v = V) { return "A" + wire::abortMsg(v, code, 0); }
static string ckptMsg(const std::vector<wire::Cp>& c, int v = V) { return peer::pad(wire::checkpoints(v, c), Protocol::getMaxLocalCheckpointLength(v)); }
static string errMsg(const string& body, int len = -70000) { return "E" + wire::fix(len == -70000 ? body.size() : len, 2) + body; }
struct Reply { string name; string bytes; };
static std::vector<Reply> replies() {
  using wire::Cp;
  Cp z; z.port = 6000;
  Cp one = z; one.blocks = 1;
  Cp many = z; many.blocks = 1000;
  Cp neg = z; neg.blocks = ~0ull;
  Cp part = z; part.seq = 1; part.recv = 100;
  Cp wild = z; wild.seq = 1; wild.recv = 1ull << 62; wild.off = 1ull << 62;
  Cp negr = z; negr.seq = 0; negr.recv = ~0ull; negr.off = ~0ull;
  Cp other = z; other.port = 6001;
  return {
      {"done", "D"}, {"wait", "W"}, {"heartbeat", "HHH"}, {"ack", "a"},
      {"abort", abortMsg(ABORT)}, {"abort-id", abortMsg(ID_MISMATCH)}, {"abort-ok", abortMsg(OK)}, {"abort-wild", abortMsg(200)}, {"abort-neg", abortMsg(-100)},
      {"version-20", abortMsg(VERSION_MISMATCH, 20)}, {"version-0", abortMsg(VERSION_MISMATCH, 0)}, {"version-same", abortMsg(VERSION_MISMATCH, V)}, {"version-new", abortMsg(VERSION_MISMATCH, 1000)},
      {"local-zero", ckptMsg({z})}, {"local-one", ckptMsg({one})}, {"local-many", ckptMsg({many})}, {"local-neg", ckptMsg({neg})}, {"local-part", ckptMsg({part})}, {"local-wild", ckptMsg({wild})}, {"local-negr", ckptMsg({negr})}, {"local-port", ckptMsg({other})}, {"local-two", ckptMsg({z, z})},
      {"global-zero", errMsg(wire::checkpoints(V, {z}))}, {"global-other", errMsg(wire::checkpoints(V, {other}))}, {"global-many", errMsg(wire::checkpoints(V, {many}))}, {"global-wild", errMsg(wire::checkpoints(V, {wild}))}, {"global-none", errMsg(wire::checkpoints(V, {}))},
      {"global-len-neg", errMsg("xxxx", -1)}, {"global-len-min", errMsg("xxxx", -32768)}, {"global-len-0", errMsg("", 0)}, {"global-len-big", errMsg(string(40, 1), 32767)}, {"global-junk", errMsg(string(40, '\xff'))},
      {"chunks-none", "C" + wire::chunksCmd(16384, 0)}, {"junk", string(80, '\xee')}, {"zero", string(80, '\0')},
  };
}
static bool saidDone(const std::vector<string>& n) {
  for (auto& x : n) if (x == "done" || x == "global-zero" || x == "global-none") return true;
  return false;
}
static void replySequences(const SConf& k, int len, int conns) {
  auto rs = replies();
  std::vector<string> names;
  std::vector<std::vector<Conn>> ports(k.ports);
  for (int p = 0; p < k.ports; ++p)
    for (int j = 0; j < conns; ++j) {
      Conn c;
      for (int i = 0; i < len; ++i) {
        int m = choose((int)rs.size() + 1, INPUT, "reply");
        if (m == 0) break;
        c.s.push_back({rs[m - 1].bytes, true});
        names.push_back(rs[m - 1].name);
      }
      c.end = j == 0 && choose(2, INPUT, "end") ? peer::SILENT : peer::FIN;
      ports[p].push_back(c);
    }
  serve(k, ports, [&](Xfer& x) {
    if (!x.S.ok()) return;
    bool d = false;
    for (auto& n : names) d |= n == "done";
    VMC_CHECK(d, "success", "the sender reports success without an acknowledgement");
  });
}
static string chunkList(const std::vector<wire::Ci>& cs) {
  string b;
  for (auto& c : cs) b += wire::chunkInfo(c);
  return wire::fix(b.size(), 4) + b;
}
/// list of chunks: hostile lengths and values
static void chunkNumbers(const SConf& k) {
  static const uint64_t big = 1ull << 62, neg = ~0ull;
  static const std::vector<uint64_t> bufs{16384, 0, 1, 30, neg, 1ull << 40, big, 1ull << 63};
  static const std::vector<uint64_t> nums{1, 0, 2, neg, big};
  static const std::vector<uint32_t> lens{0xfffffff0u /* true */, 0, 1, 5, 16384, 16385, 1 << 20, 0x7fffffff, 0x80000000u, 0xffffffffu};
  uint64_t buf = pick(bufs, "buffer"), num = pick(nums, "files");
  uint32_t len = pick(lens, "length");
  static const std::vector<std::pair<uint64_t, uint64_t>> chunks{{0, 100}, {100, 0}, {0, neg}, {neg, 10}, {0, big}, {big, neg}, {0, 1000000}};
  auto ch = pick(chunks, "chunk");
  static const std::vector<uint64_t> sizes{700, 100, 0, neg, big};
  wire::Ci c{"a", 1, pick(sizes, "size"), {ch}};
  if (choose(2, INPUT, "second")) c.chunks.push_back({50, 200});
  string l = chunkList({c});
  if (len != 0xfffffff0u) l = wire::fix(len, 4) + l.substr(4);
  Conn n;
  n.s = {{"C" + wire::chunksCmd(buf, num) + l + string(200, 0), true}, {"D", true}, {"", true}};
  serve(k, {{n}}, [](Xfer&) {});
}
static void chunkGarble(const SConf& k, bool cut) {
  wire::Ci a{"a", 1, 700, {{0, 100}, {300, 400}}}, b{"d/b", 2, 50, {}};
  string l = "C" + wire::chunksCmd(16384, 2) + chunkList({a, b});
  int at = choose((int)l.size(), INPUT, "position");
  if (cut) {
    l.resize(at);
  } else {
    static const int rep[] = {0, 1, 0x7f, 0x80, 0xff, -1, -2};
    int how = rep[choose(7, INPUT, "value")];
    char was = l[at];
    l[at] = how == -1 ? was ^ 0x20 : how == -2 ? was + 1 : how;
    if (l[at] == was) prune("same byte");
  }
  Conn n;
  n.s = {{l, true}, {"D", true}, {"", true}};
  n.end = choose(2, INPUT, "end") ? peer::SILENT : peer::FIN;
  serve(k, {{n}}, [&](Xfer& x) { if (cut) VMC_CHECK(!x.S.ok(), "success", "success"); });
}
static void replyGarble(const SConf& k) {
  auto rs = replies();
  auto& r = rs[choose((int)rs.size(), INPUT, "reply")];
  string l = r.bytes;
  int at = choose((int)l.size(), INPUT, "position");
  static const int rep[] = {0, 1, 0x7f, 0x80, 0xff, -1, -2, -3};
  int how = rep[choose(8, INPUT, "value")];
  char was = l[at];
  if (how == -3) l.resize(at);
  else l[at] = how == -1 ? was ^ 0x20 : how == -2 ? was + 1 : how;
  if (how != -3 && l[at] == was) prune("same byte");
  bool local = r.name.compare(0, 5, "local") == 0;
  Conn a, b;
  if (local) {
    b.s = {{l, false}, {"", true}};
    serve(k, {{a, b}}, [](Xfer&) {});
  } else {
    a.s = {{l, true}, {"", true}};
    serve(k, {{a}}, [](Xfer&) {});
  }
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C10";
  c.rule = "Scripted peers against the real receiver and the real sender: all sequences of messages up to a length with every end of the connection, a valid conversation cut at every byte and with every byte replaced, hostile names, hostile numbers in every field and pair of fields; built with the address sanitizer, every file-system change outside the destination is refused and reported.";
  c.assumptions = {"The peer is a script; it does not react to the content of what it receives.", "The destination holds no symbolic links that lead out of it."};
  auto add = [&](string name, std::function<void()> b, double budget = 1, bool thorough = false) {
    Scenario s;
    s.name = name;
    s.body = b;
    s.forked = true;
    s.budget = budget;
    s.thoroughOnly = thorough;
    s.quick = s.deep = {Bounds(0)};
    c.scenarios.push_back(s);
  };
  c.setup = [] {
    g_src.files = {{"a", 700}, {"d/b", 50}};
    shareSource(g_src, "src");
    for (auto& f : g_src.files) content(g_src, f);
  };
  static RConf plain, log{resumeLog(), 1, ENC_NONE, {}}, tree{resumeTree(), 1, ENC_NONE, {{"kept", "kept"}}};
  static RConf del{[](WdtOptions& o) { o.delete_extra_files = true; }, 1, ENC_NONE, {{"kept", "kept"}}};
  static SConf s1, sres{[](WdtOptions& o) { o.enable_download_resumption = true; }}, s2{nullptr, 2};
  add("names", [] { names(); }, 2);
  add("headers", [] { headers(); }, 6);
  add("numbers", [] { numbers(); });
  add("sequence-2", [] { sequences(plain, 2, false); });
  add("sequence-log-2", [] { sequences(log, 2, false); });
  add("sequence-3", [] { sequences(plain, 3, false); }, 3);
  add("sequence-log-3", [] { sequences(log, 3, false); }, 3);
  add("sequence-delete-3", [] { sequences(del, 3, false); }, 3);
  add("sequence-tree-3", [] { sequences(tree, 3, false); }, 3);
  add("sequence-4", [] { sequences(plain, 4, false); }, 20, true);
  add("sequence-log-4", [] { sequences(log, 4, false); }, 20, true);
  add("two-connections", [] { sequences(plain, 2, true); }, 20, true);
  add("cut", [] { garble(plain, 0, true); });
  add("cut-checksum", [] { garble(plain, 1, true); });
  add("cut-log", [] { garble(log, 2, true); });
  add("split", [] { split(plain, 0); });
  add("split-checksum", [] { split(plain, 1); });
  add("split-log", [] { split(log, 2); });
  add("garble", [] { garble(plain, 0, false); });
  add("garble-checksum", [] { garble(plain, 1, false); });
  add("garble-log", [] { garble(log, 2, false); }, 2);
  add("garble-tree", [] { garble(tree, 2, false); }, 2);
  add("reply-1", [] { replySequences(s1, 1, 1); });
  add("reply-2", [] { replySequences(s1, 2, 1); }, 3);
  add("reply-resume-2", [] { replySequences(sres, 2, 1); }, 3);
  add("reply-two-connections", [] { replySequences(s1, 1, 2); }, 2);
  add("reply-two-ports", [] { replySequences(s2, 1, 1); }, 2);
  add("reply-3", [] { replySequences(s1, 3, 1); }, 20, true);
  add("reply-connections-3", [] { replySequences(s1, 1, 3); }, 20, true);
  add("reply-two-ports-connections", [] { replySequences(s2, 1, 2); }, 20, true);
  add("reply-garble", [] { replyGarble(s1); }, 2);
  add("chunk-numbers", [] { chunkNumbers(sres); }, 5);
  add("chunk-cut", [] { chunkGarble(sres, true); });
  add("chunk-garble", [] { chunkGarble(sres, false); });
  c.quickBudget = 300;
  return runCheck(c, argc, argv);
}
