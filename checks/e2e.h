// End-to-end transfer harness: the real Sender and Receiver in one process,
// on fibers, over the virtual network, in a scratch directory.
#pragma once
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Wdt.h>
#include <wdt/WdtTransferRequest.h>
#include <wdt/util/WdtFlags.h>
#include <gflags/gflags.h>
#include <sys/stat.h>
#include <memory>
#include <thread>
#include "fib.h"

DECLARE_bool(wdt_logging_enabled);

namespace e2e {
using namespace facebook::wdt;
using vmc::fail;

struct FileSpec {
  std::string name;
  int64_t size;
};
using OptFn = std::function<void(WdtOptions&)>;

struct Cfg {
  std::vector<FileSpec> files{{"a", 40000}, {"d/b", 0}};
  int ports = 1;
  OptFn both, sopt, ropt;   // option tweaks
  int sProto = -1, rProto = -1;
  std::string src = "src", dst = "dst";  // below scratch(); absolute paths allowed
  unsigned seed = 1;         // content of the source files
  std::string transferId = "id1";
};

struct Side {
  bool done = false;
  bool initOk = false;
  ErrorCode err = ERROR;
  ErrorCode localErr = ERROR, remoteErr = ERROR;
  std::unique_ptr<TransferReport> report;
  int64_t endTime = -1;
  bool ok() const { return done && err == OK; }
};

inline void defaults(WdtOptions& o) {
  o.progress_report_interval_millis = 0;
  o.encryption_type = "none";
  o.buffer_size = 16384;
  o.full_reporting = true;
  o.ipv4 = true;
  o.block_size_mbytes = 1;
  o.disk_sync_interval_mb = -1;
  o.fsync = false;
  o.skip_fadvise = true;
  o.max_retries = 4;
  o.sleep_millis = 20;
  o.max_transfer_retries = 3;
  o.accept_timeout_millis = 100;
  o.max_accept_retries = 20;
  o.accept_window_millis = 1000;
  o.read_timeout_millis = 1000;
  o.write_timeout_millis = 1000;
  o.connect_timeout_millis = 500;
  o.abort_check_interval_millis = 100;
  o.drain_extra_ms = 100;
  o.num_ports = 1;
}

inline std::string path(const std::string& rel) { return rel[0] == '/' ? rel : vmc::scratch() + "/" + rel; }
inline const std::string& content(const Cfg& c, const FileSpec& f) {
  // cached; filled before the workers fork by shareSource
  static std::map<std::pair<unsigned, std::pair<std::string, int64_t>>, std::string> cache;
  auto& s = cache[{c.seed, {f.name, f.size}}];
  if ((int64_t)s.size() != f.size) s = fs::pattern(f.size, c.seed * 131 + (unsigned)vmc::hash(f.name));
  return s;
}
inline fs::Tree sourceTree(const Cfg& c) {
  fs::Tree t;
  for (auto& f : c.files) t[f.name] = content(c, f);
  return t;
}
inline void makeSource(const Cfg& c) {
  fs::mkdirs(path(c.src));
  fs::materialize(path(c.src), sourceTree(c));
}

/// creates the source once for all executions (from Check::setup)
inline void shareSource(Cfg& c, const std::string& name) {
  c.src = vmc::shared() + "/" + name;
  makeSource(c);
}

inline void init() {
  static bool once = false;
  if (once) return;
  once = true;
  FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
  google::SetStderrLogging(google::GLOG_FATAL);
  FLAGS_logtostderr = getenv("VMC_LOG") != nullptr;
}

inline void fill(Side& s, std::unique_ptr<TransferReport> r) {
  s.report = std::move(r);
  s.err = s.report->getSummary().getErrorCode();
  s.localErr = s.report->getSummary().getLocalErrorCode();
  s.remoteErr = s.report->getSummary().getRemoteErrorCode();
  s.endTime = fib::now();
  s.done = true;
}

/// One transfer.  Construct, optionally adjust, then run() inside fib::run.
struct Xfer {
  Cfg c;
  Side S, R;
  int base = 0, rGroup = 2;   // fiber groups of the caller and of the receiver
  std::unique_ptr<Receiver> receiver;
  std::unique_ptr<Sender> sender;
  std::function<void(Receiver&)> onReceiver;   // before init
  std::function<void(Sender&)> onSender;       // before transfer
  std::function<void(WdtTransferRequest&)> onSenderReq;
  std::thread st;
  std::string url;
  explicit Xfer(Cfg cfg) : c(std::move(cfg)) {}

  void options(WdtOptions& o, bool isSender) {
    defaults(o);
    o.num_ports = c.ports;
    if (c.both) c.both(o);
    if (isSender ? (bool)c.sopt : (bool)c.ropt) (isSender ? c.sopt : c.ropt)(o);
  }
  bool startReceiver(bool begin = true) {
    fib::setGroup(rGroup);
    WdtTransferRequest req(0, c.ports, path(c.dst));
    req.hostName = "localhost";
    req.transferId = c.transferId;
    if (c.rProto > 0) req.protocolVersion = c.rProto;
    receiver = std::make_unique<Receiver>(req);
    WdtOptions o;
    options(o, false);
    receiver->setWdtOptions(o);
    if (onReceiver) onReceiver(*receiver);
    const WdtTransferRequest& out = receiver->init();
    if (out.errorCode != OK) {
      R.err = out.errorCode;
      vmc::note("receiver init failed: %s", errorCodeToStr(out.errorCode).c_str());
      fib::setGroup(base);
      return false;
    }
    R.initOk = true;
    url = out.genWdtUrlWithSecret();
    ErrorCode e = begin ? receiver->transferAsync() : OK;
    VMC_CHECK(e == OK, "receiver-start", "receiver transferAsync failed: %s", errorCodeToStr(e).c_str());
    fib::setGroup(base);
    return true;
  }
  bool startSenderAsync() {
    fib::setGroup(1);
    WdtTransferRequest req(url);
    VMC_CHECK(req.errorCode == OK, "url", "generated url rejected: %s", url.c_str());
    req.directory = path(c.src);
    if (c.sProto > 0) req.protocolVersion = c.sProto;
    if (onSenderReq) onSenderReq(req);
    sender = std::make_unique<Sender>(req);
    WdtOptions o;
    options(o, true);
    sender->setWdtOptions(o);
    if (onSender) onSender(*sender);
    const WdtTransferRequest& out = sender->init();
    if (out.errorCode != OK) {
      S.err = out.errorCode;
      S.done = true;
      vmc::note("sender init failed: %s", errorCodeToStr(out.errorCode).c_str());
      fib::setGroup(base);
      return false;
    }
    S.initOk = true;
    ErrorCode e = sender->transferAsync();
    VMC_CHECK(e == OK, "sender-start", "sender transferAsync failed: %s", errorCodeToStr(e).c_str());
    fib::setGroup(base);
    return true;
  }
  void finishSender() {
    fill(S, sender->finish());
    vmc::note("sender finished: %s (local %s remote %s)", errorCodeToStr(S.err).c_str(), errorCodeToStr(S.localErr).c_str(), errorCodeToStr(S.remoteErr).c_str());
  }
  void finishReceiver() {
    fill(R, receiver->finish());
    vmc::note("receiver finished: %s (local %s remote %s)", errorCodeToStr(R.err).c_str(), errorCodeToStr(R.localErr).c_str(), errorCodeToStr(R.remoteErr).c_str());
  }
  /// whole transfer, both sides finished
  void run() {
    if (!startReceiver()) return;
    if (startSenderAsync()) finishSender();
    finishReceiver();
  }
  void destroy() {
    fib::setGroup(1);
    sender.reset();
    fib::setGroup(rGroup);
    receiver.reset();
    fib::setGroup(base);
  }
  std::string codes() const {
    return std::string("S=") + (S.done ? errorCodeToStr(S.err) : "-") + " R=" + (R.done ? errorCodeToStr(R.err) : "-");
  }
};

/// returns "" if every source file is at the destination, else what differs
inline std::string compare(const Cfg& c, const fs::Tree& dst) {
  for (auto& f : c.files) {
    auto i = dst.find(f.name);
    if (i == dst.end()) return f.name + " is missing";
    const std::string& want = content(c, f);
    if (i->second.size() != want.size()) return f.name + " has size " + std::to_string(i->second.size()) + " instead of " + std::to_string(want.size());
    if (i->second != want) {
      size_t k = 0;
      while (i->second[k] == want[k]) ++k;
      return f.name + " differs at byte " + std::to_string(k) + " of " + std::to_string(want.size());
    }
  }
  return "";
}
inline std::string compareDst(const Cfg& c) { return compare(c, fs::snapshot(path(c.dst))); }
}  // namespace e2e
