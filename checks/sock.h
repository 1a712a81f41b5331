// Two connected real WDT sockets on the virtual network.
#pragma once
#include <wdt/AbortChecker.h>
#include <wdt/util/ClientSocket.h>
#include <wdt/util/ServerSocket.h>
#include <wdt/util/WdtFlags.h>
#include <memory>
#include <thread>
#include "fib.h"
DECLARE_bool(wdt_logging_enabled);

namespace sock {
using namespace facebook::wdt;
using std::string;

struct Abort : IAbortChecker {
  bool flag = false;
  bool shouldAbort() const override { return flag; }
};
struct Cfg {
  EncryptionType cType = ENC_NONE, sType = ENC_NONE;
  string cKey = "0123456789abcdef", sKey = "0123456789abcdef";
  int cTag = 0, sTag = 0;        // tag intervals of the two writers
  int64_t iv = 0;
  int readTimeout = 1000, writeTimeout = 1000, abortInterval = 100, connectTimeout = 500;
};
inline EncryptionParams params(EncryptionType t, const string& key) { return t == ENC_NONE ? EncryptionParams() : EncryptionParams(t, key); }

struct Pair {
  Cfg c;
  WdtOptions so, co;
  Abort sab, cab;
  std::unique_ptr<ThreadCtx> sctx, cctx;
  std::unique_ptr<ServerSocket> srv;
  std::unique_ptr<ClientSocket> cli;
  int tagsVerified = 0;
  explicit Pair(const Cfg& cfg) : c(cfg) {
    FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
    for (auto* o : {&so, &co}) {
      o->ipv4 = true;
      o->read_timeout_millis = c.readTimeout;
      o->write_timeout_millis = c.writeTimeout;
      o->connect_timeout_millis = c.connectTimeout;
      o->abort_check_interval_millis = c.abortInterval;
      o->static_ports = true;
    }
    so.encryption_tag_interval_bytes = c.sTag;
    co.encryption_tag_interval_bytes = c.cTag;
    sctx = std::make_unique<ThreadCtx>(so, false, 0);
    cctx = std::make_unique<ThreadCtx>(co, false, 0);
    sctx->setAbortChecker(&sab);
    cctx->setAbortChecker(&cab);
    srv = std::make_unique<ServerSocket>(*sctx, 7001, 5, params(c.sType, c.sKey), c.iv, [this] { ++tagsVerified; });
    cli = std::make_unique<ClientSocket>(*cctx, "localhost", 7001, params(c.cType, c.cKey), c.iv);
  }
  void connect() {
    VMC_CHECK(srv->listen() == OK, "listen", "listen failed");
    VMC_CHECK(cli->connect() == OK, "connect", "connect failed");
    VMC_CHECK(srv->acceptNextConnection(1000, true) == OK, "accept", "accept failed");
  }
};
}  // namespace sock
