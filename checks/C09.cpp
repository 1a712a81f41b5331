// C09: decoders on malformed input, in exact-size heap blocks under
// AddressSanitizer
#include <wdt/Protocol.h>
#include <wdt/util/SerializationUtil.h>
#include <wdt/util/TransferLogManager.h>
#include <wdt/WdtTransferRequest.h>
#include <cstring>
#include <memory>
#include "vmc.h"
#include "wire.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

/// a decoder: returns success, moves off, appends a printout of what it decoded
struct Dec {
  const char* name;
  bool versioned;
  std::function<bool(int v, char*, int64_t&, int64_t, string*)> f;
};
static string P(const char* f, ...) {
  char b[300];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
template <class F>
static std::function<bool(int, char*, int64_t&, int64_t, string*)> R(F f) {
  return [f](int, char* p, int64_t& o, int64_t m, string* out) {
    auto br = makeByteRange(p, m, o);
    auto b0 = br;
    bool ok = f(br, out);
    o += offset(br, b0);
    return ok;
  };
}
template <class F>
static std::function<bool(int, char*, int64_t&, int64_t, string*)> L(F f) {
  return [f](int, char* p, int64_t& o, int64_t m, string* out) {
    LogEncoderDecoder ed;
    if (m - o > INT16_MAX) return false;
    bool ok = f(ed, p + o, (int16_t)(m - o), out);
    if (ok) o = m;
    return ok;
  };
}
static string show(const FileChunksInfo& f) {
  string s = P("%ld/%zu/%ld:", (long)f.getSeqId(), f.getFileName().size(), (long)f.getFileSize()) + f.getFileName();
  for (auto& c : f.getChunks()) s += P(" %ld-%ld", (long)c.start_, (long)c.end_);
  return s;
}
static const std::vector<Dec>& decs() {
  static std::vector<Dec> d{
      {"header", true, [](int v, char* p, int64_t& o, int64_t m, string* s) {
         BlockDetails b;
         bool ok = Protocol::decodeHeader(v, p, o, m, b);
         *s = b.fileName + P("|%ld %ld %ld %ld %d %ld", (long)b.seqId, (long)b.dataSize, (long)b.offset, (long)b.fileSize, b.allocationStatus, (long)b.prevSeqId);
         return ok;
       }},
      {"checkpoints", true, [](int v, char* p, int64_t& o, int64_t m, string* s) {
         std::vector<Checkpoint> c;
         bool ok = Protocol::decodeCheckpoints(v, p, o, m, c);
         *s = P("%zu", c.size());
         for (auto& x : c) *s += P(" %d %ld %ld %ld %ld", x.port, (long)x.numBlocks, (long)x.lastBlockReceivedBytes, (long)x.lastBlockSeqId, (long)x.lastBlockOffset);
         return ok;
       }},
      {"done", true, [](int v, char* p, int64_t& o, int64_t m, string* s) {
         int64_t a = -7, b = -7;
         bool ok = Protocol::decodeDone(v, p, o, m, a, b);
         *s = P("%ld %ld", (long)a, (long)b);
         return ok;
       }},
      {"settings", true, [](int v, char* p, int64_t& o, int64_t m, string* s) {
         Settings t;
         t.transferId = "";
         bool ok = Protocol::decodeSettings(v, p, o, m, t);
         *s = t.transferId + P("|%d %d %d%d%d%d", t.readTimeoutMillis, t.writeTimeoutMillis, t.enableChecksum, t.sendFileChunks, t.blockModeDisabled, t.enableHeartBeat);
         return ok;
       }},
      {"version", false, [](int, char* p, int64_t& o, int64_t m, string* s) { int x = -7; bool ok = Protocol::decodeVersion(p, o, m, x); *s = P("%d", x); return ok; }},
      {"size", false, [](int, char* p, int64_t& o, int64_t m, string* s) { int64_t x = -7; bool ok = Protocol::decodeSize(p, o, m, x); *s = P("%ld", (long)x); return ok; }},
      {"footer", false, [](int, char* p, int64_t& o, int64_t m, string* s) { int32_t x = -7; bool ok = Protocol::decodeFooter(p, o, m, x); *s = P("%d", x); return ok; }},
      {"abort", false, [](int, char* p, int64_t& o, int64_t m, string* s) {
         int32_t v = -7;
         ErrorCode e = OK;
         int64_t c = -7;
         bool ok = Protocol::decodeAbort(p, o, m, v, e, c);
         *s = P("%d %d %ld", v, (int)e, (long)c);
         return ok;
       }},
      {"chunks-cmd", false, [](int, char* p, int64_t& o, int64_t m, string* s) { int64_t x = -7, y = -7; bool ok = Protocol::decodeChunksCmd(p, o, m, x, y); *s = P("%ld %ld", (long)x, (long)y); return ok; }},
      {"encryption", false, [](int, char* p, int64_t& o, int64_t m, string* s) {
         EncryptionType t = ENC_NONE;
         string iv;
         int32_t g = -7;
         bool ok = Protocol::decodeEncryptionSettings(p, o, m, t, iv, g);
         *s = iv + P("|%d %d", ok ? (int)t : 0, g);
         return ok;
       }},
      {"chunk-info", false, R([](folly::ByteRange& b, string* s) { FileChunksInfo f; bool ok = Protocol::decodeFileChunksInfo(b, f); *s = show(f); return ok; })},
      {"chunk-list", false, [](int, char* p, int64_t& o, int64_t m, string* s) {
         std::vector<FileChunksInfo> l;
         bool ok = Protocol::decodeFileChunksInfoList(p, o, m, l);
         for (auto& f : l) *s += show(f) + ";";
         return ok;
       }},
      {"string", false, R([](folly::ByteRange& b, string* s) { return decodeString(b, *s); })},
      {"varint", false, [](int, char* p, int64_t& o, int64_t m, string* s) { uint64_t x = 7; bool ok = decodeVarU64(p, m, o, x); *s = P("%lu", (unsigned long)x); return ok; }},
      {"zigzag", false, [](int, char* p, int64_t& o, int64_t m, string* s) { int64_t x = 7; bool ok = decodeVarI64(p, m, o, x); *s = P("%ld", (long)x); return ok; }},
      {"int32", false, R([](folly::ByteRange& b, string* s) { int32_t x = 7; bool ok = decodeInt32(b, x); *s = P("%d", x); return ok; })},
      {"int32c", false, R([](folly::ByteRange& b, string* s) { int32_t x = 7; bool ok = decodeInt32C(b, x); *s = P("%d", x); return ok; })},
      {"fix16", false, R([](folly::ByteRange& b, string* s) { int16_t x = 7; bool ok = decodeInt16FixedLength(b, x); *s = P("%d", x); return ok; })},
      {"fix32", false, R([](folly::ByteRange& b, string* s) { int32_t x = 7; bool ok = decodeInt32FixedLength(b, x); *s = P("%d", x); return ok; })},
      {"fix64", false, R([](folly::ByteRange& b, string* s) { int64_t x = 7; bool ok = decodeInt64FixedLength(b, x); *s = P("%ld", (long)x); return ok; })},
      {"log-header", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0, c = 0; int v = 0; string r, i; bool ok = e.decodeLogHeader(p, n, t, v, r, i, c); *s = r + i + P("%ld %ld %d", (long)t, (long)c, v); return ok; })},
      {"log-file", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0, a = 0, b = 0; string r; bool ok = e.decodeFileCreationEntry(p, n, t, r, a, b); *s = r + P("%ld %ld %ld", (long)t, (long)a, (long)b); return ok; })},
      {"log-block", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0, a = 0, b = 0, c = 0; bool ok = e.decodeBlockWriteEntry(p, n, t, a, b, c); *s = P("%ld %ld %ld %ld", (long)t, (long)a, (long)b, (long)c); return ok; })},
      {"log-resize", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0, a = 0, b = 0; bool ok = e.decodeFileResizeEntry(p, n, t, a, b); *s = P("%ld %ld %ld", (long)t, (long)a, (long)b); return ok; })},
      {"log-inval", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0, a = 0; bool ok = e.decodeFileInvalidationEntry(p, n, t, a); *s = P("%ld %ld", (long)t, (long)a); return ok; })},
      {"log-dir", false, L([](LogEncoderDecoder& e, char* p, int16_t n, string* s) { int64_t t = 0; bool ok = e.decodeDirectoryInvalidationEntry(p, n, t); *s = P("%ld", (long)t); return ok; })},
  };
  return d;
}
/// the decoding rule changes only at these versions
static std::vector<int> versions() { return {10, 11, 12, 13, 15, 16, 20, 21, 26, 27, Protocol::protocol_version}; }

struct Res { bool ok; int64_t used; string val; };
static Res once(const Dec& d, int v, const string& bytes, int64_t base, int64_t after, unsigned char fill) {
  int64_t n = bytes.size();
  std::unique_ptr<char[]> b(new char[base + n + after]);  // ends exactly at the limit when after==0
  memset(b.get(), fill, base + n + after);
  memcpy(b.get() + base, bytes.data(), n);
  string copy(b.get(), base + n + after);
  int64_t off = base;
  Res r;
  r.ok = d.f(v, b.get(), off, base + n, &r.val);
  r.used = off - base;
  VMC_CHECK(off >= base && off <= base + n, d.name, "%s v%d: cursor at %ld of %ld after %s", d.name, v, (long)(off - base), (long)n, wire::hex(bytes).c_str());
  VMC_CHECK(!memcmp(copy.data(), b.get(), copy.size()), d.name, "%s v%d: changed its input %s", d.name, v, wire::hex(bytes).c_str());
  if (!r.ok) r.val = "";
  step();
  return r;
}
/// same answer wherever the bytes lie and whatever follows them
static Res probe(const Dec& d, int v, const string& bytes, bool full = true) {
  Res a = once(d, v, bytes, 0, 0, 0);
  if (full)
    for (unsigned char fill : {0x00, 0xff, 0x01}) {
      Res b = once(d, v, bytes, 5, 40, fill);
      VMC_CHECK(a.ok == b.ok && a.used == b.used && a.val == b.val, d.name, "%s v%d: the result for %s depends on bytes beyond the limit (%d/%d)", d.name, v, wire::hex(bytes).c_str(), a.ok, b.ok);
    }
  return a;
}
static void shortStrings(int len) {
  static const unsigned char alpha[] = {0x00, 0x01, 0x02, 0x41, 0x7f, 0x80, 0x81, 0xff};
  string s;
  for (int i = 0; i < len; ++i) s.push_back((char)alpha[choose(i < 2 ? 8 : (i < 4 ? 6 : 4), INPUT, "byte") * (i < 2 ? 1 : 1) + (i < 2 ? 0 : i < 4 ? 2 : 4)]);
  for (auto& d : decs())
    for (int v : versions()) {
      probe(d, v, s, len <= 4);
      if (!d.versioned) break;
    }
  state(hash(s));
}
struct Msg { const char* dec; int v; string bytes; };
/// valid messages with fields of one to nine bytes
static std::vector<Msg> messages() {
  using namespace wire;
  std::vector<Msg> m;
  for (int v : versions()) {
    m.push_back({"header", v, header(v, Blk{"a", 1, 2, 3, 4, 0, 0})});
    m.push_back({"header", v, header(v, Blk{"dir/name", 200, 1 << 20, 70000, 1ull << 40, 2, 77})});
    m.push_back({"header", v, header(v, Blk{S(130, 'x'), INT64_MAX, INT64_MAX, 0, INT64_MAX, 3, INT64_MAX})});
    m.push_back({"header", v, header(v, Blk{"", 0, 0, 0, 0, 4, 0})});
    m.push_back({"checkpoints", v, checkpoints(v, {})});
    m.push_back({"checkpoints", v, checkpoints(v, {Cp{22356, 3, 500, 7, 1000}})});
    m.push_back({"checkpoints", v, checkpoints(v, {Cp{1, 2, 3, 4, 5}, Cp{INT32_MAX, INT64_MAX, INT64_MAX, INT64_MAX, 0}})});
    if (v >= 21 && v < 27) m.push_back({"checkpoints", v, checkpoints(v, {Cp{22356, 3, 500, -1, 1000}})});
    m.push_back({"done", v, done(v, 0, 0)});
    m.push_back({"done", v, done(v, 300, INT64_MAX)});
    // decodeSettings starts behind the version
    for (S id : {S(""), S("id1"), S(200, 'i')}) m.push_back({"settings", v, settings(v, 5000, 1, id, 15).substr(var(v).size())});
  }
  m.push_back({"version", 0, var(32)});
  m.push_back({"version", 0, var(INT32_MAX)});
  for (uint64_t x : {uint64_t(0), uint64_t(127), uint64_t(128), uint64_t(1) << 35, uint64_t(INT64_MAX)}) {
    m.push_back({"size", 0, var(x)});
    m.push_back({"varint", 0, var(x)});
    m.push_back({"zigzag", 0, var(x)});
    m.push_back({"string", 0, str(S(x % 200, 's'))});
    m.push_back({"footer", 0, footer((int32_t)x)});
    m.push_back({"fix64", 0, fix(x, 8)});
  }
  m.push_back({"varint", 0, var(UINT64_MAX)});
  m.push_back({"footer", 0, footer(INT32_MIN)});
  m.push_back({"int32", 0, zig(INT32_MIN)});
  m.push_back({"int32c", 0, var(INT32_MAX)});
  m.push_back({"fix16", 0, fix(300, 2)});
  m.push_back({"fix32", 0, fix(INT32_MAX, 4)});
  m.push_back({"abort", 0, abortMsg(32, 5, 1ull << 40)});
  m.push_back({"chunks-cmd", 0, chunksCmd(262144, 3)});
  m.push_back({"encryption", 0, encryption(2, S(16, 'v'), 4096)});
  m.push_back({"encryption", 0, encryption(0, "", 0)});
  m.push_back({"chunk-info", 0, chunkInfo(Ci{"f", 1, 10, {}})});
  m.push_back({"chunk-info", 0, chunkInfo(Ci{"dir/f", 1000, 1 << 30, {{0, 10}, {1000, 5000}, {1 << 20, 1 << 30}}})});
  m.push_back({"chunk-list", 0, chunkInfo(Ci{"f", 1, 10, {{0, 1}}}) + chunkInfo(Ci{"g", 2, 300, {{0, 200}}})});
  m.push_back({"log-header", 0, var(1600000000000000ull) + var(2) + str("recovery") + str("::1") + var(3)});
  m.push_back({"log-file", 0, var(1600000000000000ull) + str("d/f") + var(300) + var(1 << 20)});
  m.push_back({"log-block", 0, var(1600000000000000ull) + var(1) + var(INT64_MAX) + var(5)});
  m.push_back({"log-resize", 0, var(5) + var(1) + var(300)});
  m.push_back({"log-inval", 0, var(5) + var(1)});
  m.push_back({"log-dir", 0, var(5)});
  return m;
}
static const Dec& find(const char* n) {
  for (auto& d : decs()) if (!strcmp(d.name, n)) return d;
  fail("harness", "no decoder %s", n);
}
/// where a shorter input is a valid message too
static bool listLike(const Msg& m) { return !strcmp(m.dec, "chunk-list"); }
static void mutate() {
  static auto ms = messages();
  auto& m = ms[choose((int)ms.size(), INPUT, "message")];
  auto& d = find(m.dec);
  Res r = probe(d, m.v, m.bytes);
  VMC_CHECK(r.ok && r.used == (int64_t)m.bytes.size(), d.name, "%s v%d: valid message refused", d.name, m.v);
  state(hash(m.bytes));
  for (size_t k = 0; k < m.bytes.size(); ++k) {
    Res t = probe(d, m.v, m.bytes.substr(0, k));
    VMC_CHECK(!t.ok || listLike(m), d.name, "%s v%d: accepted though cut at %zu of %zu", d.name, m.v, k, m.bytes.size());
  }
  // each byte replaced by every value; cut or not
  for (size_t k = 0; k < m.bytes.size(); ++k) {
    if (k > 60 && k + 45 < m.bytes.size()) continue;
    for (int x = 0; x < 256; ++x) {
      string s = m.bytes;
      s[k] = (char)x;
      probe(d, m.v, s, false);
      if (x % 16 == 15 || x == 0x80) probe(d, m.v, s);
      if (x == 0xff || x == 0x80 || x == 0x7f || x == 1)
        for (size_t c = k + 1; c < s.size(); c += s.size() > 60 ? 9 : 1) probe(d, m.v, s.substr(0, c), false);
    }
    // other lengths of the field: bytes inserted or removed
    for (unsigned char x : {0x00, 0x01, 0x7f, 0x80, 0xff}) {
      probe(d, m.v, m.bytes.substr(0, k) + (char)x + m.bytes.substr(k), false);
      probe(d, m.v, m.bytes.substr(0, k) + string(9, (char)x) + m.bytes.substr(k), false);
      probe(d, m.v, m.bytes.substr(0, k) + string(8, (char)0xff) + (char)x + m.bytes.substr(k + 1), false);
    }
    probe(d, m.v, m.bytes.substr(0, k) + m.bytes.substr(k + 1), false);
  }
  step();
}
static void mutate2() {  // two bytes at once
  static auto ms = messages();
  auto& m = ms[choose((int)ms.size(), INPUT, "message")];
  auto& d = find(m.dec);
  size_t n = std::min<size_t>(m.bytes.size(), 48);
  size_t i = choose((int)n, INPUT, "at");
  static const unsigned char xs[] = {0x00, 0x01, 0x05, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff};
  for (size_t j = i + 1; j < n; ++j)
    for (unsigned char x : xs)
      for (unsigned char y : xs) {
        string s = m.bytes;
        s[i] = x;
        s[j] = y;
        probe(d, m.v, s, false);
        if (s.size() > 60) s.resize(60), probe(d, m.v, s, false);
      }
  state(hash(m.bytes) + i);
}
static void limits() {  // cursors at or beyond the edges where the interface defines them
  char buf[16] = {};
  for (int64_t off : {int64_t(-1), int64_t(16), int64_t(17), INT64_MAX, INT64_MIN}) {
    Settings s;
    int64_t o = off;
    VMC_CHECK(!Protocol::decodeSettings(32, buf, o, 16, s), "settings-limit", "settings decoded at offset %ld of 16", (long)off);
    uint64_t u;
    if (off != INT64_MAX && off != INT64_MIN) {
      o = off;
      VMC_CHECK(!decodeVarU64(buf, 16, o, u), "varint-limit", "varint decoded at offset %ld of 16", (long)off);
    }
  }
  state(1);
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C09";
  c.quickBudget = 60;
  c.rule = "every decoder of the wire protocol and the transfer log on (a) all byte strings up to a length over an alphabet of boundary bytes, (b) every truncation, (c) every single-byte change, insertion and removal and (d) pairs of changes of a set of valid messages covering all fields, for every version at which the format changes; input in heap blocks ending exactly at the limit under AddressSanitizer, results compared with differing bytes behind the limit";
  for (int l = 0; l <= 5; ++l) c.scenarios.push_back({"len" + std::to_string(l), [l] { shortStrings(l); }});
  c.scenarios.push_back({"limits", limits});
  Scenario m{"mutate1", mutate};
  m.budget = 4;
  c.scenarios.push_back(m);
  for (int l = 6; l <= 8; ++l) {
    Scenario d{"len" + std::to_string(l), [l] { shortStrings(l); }};
    d.thoroughOnly = l > 6;
    d.budget = l - 3;
    c.scenarios.push_back(d);
  }
  Scenario e{"mutate2", mutate2};
  e.budget = 6;
  c.scenarios.push_back(e);
  return runCheck(c, argc, argv);
}
