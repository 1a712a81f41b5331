// C32: error codes
#include <wdt/ErrorCodes.h>
#include <wdt/Reporting.h>
#include <wdt/Protocol.h>
#include <set>
#include "vmc.h"
using namespace vmc;
using namespace facebook::wdt;
// the numbering peers of every released version agree on
static const char* kNames[] = {"OK", "ERROR", "ABORT", "CONN_ERROR", "CONN_ERROR_RETRYABLE", "SOCKET_READ_ERROR", "SOCKET_WRITE_ERROR",
  "BYTE_SOURCE_READ_ERROR", "FILE_WRITE_ERROR", "MEMORY_ALLOCATION_ERROR", "PROTOCOL_ERROR", "VERSION_MISMATCH", "ID_MISMATCH",
  "CHECKSUM_MISMATCH", "RESOURCE_NOT_FOUND", "ABORTED_BY_APPLICATION", "VERSION_INCOMPATIBLE", "NOT_FOUND", "QUOTA_EXCEEDED", "FEWER_PORTS",
  "URI_PARSE_ERROR", "INCONSISTENT_DIRECTORY", "INVALID_LOG", "INVALID_CHECKPOINT", "NO_PROGRESS", "TRANSFER_LOG_ACQUIRE_ERROR", "WDT_TIMEOUT",
  "UNEXPECTED_CMD_ERROR", "ENCRYPTION_ERROR", "ALREADY_EXISTS", "GLOBAL_CHECKPOINT_ABORT", "INVALID_REQUEST", "SENDER_START_TIMED_OUT", "AUTH_ERROR"};
static const int N = sizeof(kErrorToStr) / sizeof(kErrorToStr[0]);
static const int KNOWN = sizeof(kNames) / sizeof(kNames[0]);
static ErrorCode E(int i) { return (ErrorCode)i; }
static bool lesser(ErrorCode c) { return c < ENCRYPTION_ERROR && c != VERSION_MISMATCH && c != VERSION_INCOMPATIBLE; }

static void pairs() {
  int a = choose(N, INPUT, "a");
  for (int b = 0; b < N; ++b) {
    state(hash("p" + std::to_string(a * 1000 + b)));
    ErrorCode r = getMoreInterestingError(E(a), E(b));
    VMC_CHECK(r == a || r == b, "neither", "combining %d and %d gives %d", a, b, r);
    VMC_CHECK(r == getMoreInterestingError(E(b), E(a)), "order", "combining %d and %d depends on the order", a, b);
    VMC_CHECK((r == OK) == (a == OK && b == OK), "success", "combining %d and %d gives %d", a, b, r);
    if (a == ENCRYPTION_ERROR && lesser(E(b))) VMC_CHECK(r == ENCRYPTION_ERROR, "masked", "ENCRYPTION_ERROR masked by %d", b);
    if ((a == VERSION_MISMATCH || a == VERSION_INCOMPATIBLE) && b >= ERROR && b <= PROTOCOL_ERROR)
      VMC_CHECK(r == a, "masked-version", "version problem %d masked by %d", a, b);
    for (int c = 0; c < N; ++c) {
      ErrorCode x = getMoreInterestingError(getMoreInterestingError(E(a), E(b)), E(c));
      ErrorCode y = getMoreInterestingError(E(a), getMoreInterestingError(E(b), E(c)));
      VMC_CHECK(x == y, "assoc", "combining %d %d %d depends on the grouping", a, b, c);
    }
    // statistics combine local and remote codes the same way
    TransferStats s;
    s.setLocalErrorCode(E(a));
    s.setRemoteErrorCode(E(b));
    VMC_CHECK(s.getErrorCode() == r, "stats", "TransferStats with local %d remote %d reports %d", a, b, s.getErrorCode());
    VMC_CHECK(s.getLocalErrorCode() == a && s.getRemoteErrorCode() == b, "stats-get", "TransferStats changed its codes");
    for (int c = 0; c < N; c += 3) {
      TransferStats t;
      t.setLocalErrorCode(E(c));
      TransferStats u;
      u += s;
      u += t;
      TransferStats v;
      v += t;
      v += s;
      VMC_CHECK(u.getErrorCode() == v.getErrorCode(), "sum-order", "summing statistics with %d/%d and %d depends on the order", a, b, c);
      VMC_CHECK((u.getErrorCode() == OK) == (r == OK && c == OK), "sum-success", "sum of %d/%d and %d is %d", a, b, c, u.getErrorCode());
      VMC_CHECK(u.getErrorCode() == getMoreInterestingError(r, E(c)), "sum", "sum of %d/%d and %d is %d", a, b, c, u.getErrorCode());
    }
  }
}
static void names() {
  VMC_CHECK(N >= KNOWN, "removed", "error codes were removed");
  std::set<std::string> seen;
  for (int i = 0; i < N; ++i) {
    std::string s = errorCodeToStr(E(i));
    state(hash(s));
    VMC_CHECK(seen.insert(s).second, "dup-name", "two codes are named %s", s.c_str());
    if (i < KNOWN) VMC_CHECK(s == kNames[i], "renumbered", "code %d is %s instead of %s", i, s.c_str(), kNames[i]);
  }
  // unknown codes (received from a newer peer) are printed, all bytes and more
  for (int i = N; i < 70000; ++i) {
    std::string s = errorCodeToStr(E(i));
    VMC_CHECK(!seen.count(s) && s == std::to_string(i), "unknown", "unknown code %d is printed as %s", i, s.c_str());
  }
}
static void overWire() {
  int a = choose(256, INPUT, "code");
  for (int64_t cp : {int64_t(0), int64_t(1), int64_t(1) << 40}) {
    char buf[64];
    int64_t off = 0;
    state(a);
    VMC_CHECK(Protocol::encodeAbort(buf, off, sizeof buf, 32, E(a), cp), "abort", "abort not encoded");
    int64_t o2 = 0, c2;
    int32_t v;
    ErrorCode e;
    VMC_CHECK(Protocol::decodeAbort(buf, o2, off, v, e, c2), "abort", "abort not decoded");
    VMC_CHECK(e == a && v == 32 && c2 == cp && o2 == off, "abort-value", "error code %d arrives as %d", a, (int)e);
    std::string s = errorCodeToStr(e);
    VMC_CHECK(!s.empty(), "abort-name", "no name");
  }
}
int main(int argc, char** argv) {
  Check c;
  c.property = "C32";
  c.rule = "all pairs and triples of error codes through getMoreInterestingError and TransferStats, all names, all 256 codes over the wire";
  c.scenarios = {{"pairs", pairs}, {"names", names}, {"wire", overWire}};
  return runCheck(c, argc, argv);
}
