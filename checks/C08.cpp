// C08: every message and log record, every version, against a reference encoder
#include <wdt/Protocol.h>
#include <wdt/util/SerializationUtil.h>
#include <wdt/util/TransferLogManager.h>
#include <cstring>
#include <memory>
#include "vmc.h"
#include "wire.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

static std::vector<int64_t> vals(bool big) {
  if (!big) return {0, 1, 127, 128, 0x7fffffff, int64_t(1) << 40, INT64_MAX};
  std::vector<int64_t> v;
  for (int b = 0; b < 63; b += (b % 7 == 6 || b % 7 == 0) ? 1 : 6) {
    int64_t x = int64_t(1) << b;
    v.push_back(x - 1);
    v.push_back(x);
  }
  v.push_back(0x7fffffff);
  v.push_back(0x80000000ll);
  v.push_back(INT64_MAX - 1);
  v.push_back(INT64_MAX);
  return v;
}
static const std::vector<int64_t>& V() { static auto v = vals(thorough()); return v; }
static const std::vector<int64_t>& W() { static auto v = vals(true); return v; }
static int V32(int i) { return (int)std::min<int64_t>(W()[i], INT32_MAX); }
static std::vector<string> names() { return {"", "a", "d/x", string(127, 'n'), string(128, 'n'), string(PATH_MAX - 1, 'p'), string("a\0\xff\x80\n", 5)}; }
static std::vector<int> versions() {
  std::vector<int> v;
  for (int i = 10; i <= Protocol::protocol_version; ++i) v.push_back(i);
  return v;
}
typedef std::function<bool(char*, int64_t&, int64_t)> Coder;

/// encodes at a non-zero offset, into buffers of every size around the needed
/// one; want: the bytes the version defines
static void checkEnc(const char* what, const string& want, int64_t maxAdvertised, const Coder& enc) {
  const int64_t base = 3;
  int64_t n = want.size();
  VMC_CHECK(maxAdvertised < 0 || n <= maxAdvertised, "harness", "%s longer than advertised in the reference", what);
  for (int64_t room : {n, n + 7, maxAdvertised < n ? n + 1 : maxAdvertised}) {
    std::unique_ptr<char[]> b(new char[base + room + 8]);
    memset(b.get(), 0x5a, base + room + 8);
    int64_t off = base;
    bool ok = enc(b.get(), off, base + room);
    VMC_CHECK(ok, what, "%s: not encoded in a buffer of %ld bytes though %ld suffice", what, (long)room, (long)n);
    VMC_CHECK(off - base == n && !memcmp(b.get() + base, want.data(), n), what, "%s: encoded as %s instead of %s", what,
              wire::hex(string(b.get() + base, std::max<int64_t>(0, off - base))).c_str(), wire::hex(want).c_str());
    for (int64_t i = 0; i < base + room + 8; ++i)
      if (i < base || i >= base + n) VMC_CHECK(b[i] == 0x5a, what, "%s: wrote outside its bytes at %ld of %ld", what, (long)(i - base), (long)n);
  }
  // too small: refused, nothing beyond the limit
  std::vector<int64_t> small;
  if (n <= 64) for (int64_t r = 0; r < n; ++r) small.push_back(r);
  else for (int64_t r : {int64_t(0), int64_t(1), int64_t(2), int64_t(3), n / 2, n - 11, n - 10, n - 9, n - 3, n - 2, n - 1}) small.push_back(r);
  for (int64_t room : small) {
    std::unique_ptr<char[]> b(new char[base + n + 32]);
    memset(b.get(), 0x5a, base + n + 32);
    int64_t off = base;
    bool ok = enc(b.get(), off, base + room);
    VMC_CHECK(!ok, what, "%s: %ld bytes encoded into %ld", what, (long)n, (long)room);
    VMC_CHECK(off <= base + room, what, "%s: cursor moved past the limit", what);
    for (int64_t i = base + room; i < base + n + 32; ++i) VMC_CHECK(b[i] == 0x5a, what, "%s: wrote past a limit of %ld", what, (long)room);
  }
  step();
  state(hash(want, hash(what)));
}
/// the decoder must consume exactly the bytes, with and without bytes after
/// them; a shorter buffer is refused
static void checkDec(const char* what, const string& bytes, const Coder& dec, bool prefixes = true) {
  const int64_t base = 2;
  int64_t n = bytes.size();
  for (int64_t extra : {0, 1, 300}) {
    std::unique_ptr<char[]> b(new char[base + n + extra]);
    memset(b.get(), 0x81, base + n + extra);
    memcpy(b.get() + base, bytes.data(), n);
    int64_t off = base;
    VMC_CHECK(dec(b.get(), off, base + n + extra), what, "%s: valid message %s refused or decoded to other values (%ld bytes follow)", what, wire::hex(bytes).c_str(), (long)extra);
    VMC_CHECK(off == base + n, what, "%s: consumed %ld bytes of %ld", what, (long)(off - base), (long)n);
  }
  if (!prefixes) return;
  for (int64_t k = 0; k < n; k += (n > 300 && k > 20 && k < n - 40) ? 97 : 1) {
    std::unique_ptr<char[]> b(new char[base + k]);
    memcpy(b.get() + base, bytes.data(), k);
    int64_t off = base;
    VMC_CHECK(!dec(b.get(), off, base + k), what, "%s: only %ld of %ld bytes but accepted", what, (long)k, (long)n);
    VMC_CHECK(off <= base + k, what, "%s: cursor moved past the limit", what);
  }
}

static void varints() {
  int part = choose(8, INPUT, "part");
  // every value with up to two bits set, and its neighbours
  for (int i = 0; i < 64; ++i)
    for (int j = part; j < 64; j += 8)
      for (int d = -2; d <= 2; ++d) {
        uint64_t v = ((uint64_t(1) << i) | (uint64_t(1) << j)) + d;
        for (uint64_t u : {v, ~v}) {
          string want = wire::var(u);
          checkEnc("varint", want, 9, [&](char* p, int64_t& o, int64_t m) { return encodeVarU64(p, m, o, u); });
          string sb = "x";
          VMC_CHECK(encodeVarU64(sb, u) == want.size() && sb == "x" + want, "varint-string", "%lx", (unsigned long)u);
          uint64_t r;
          checkDec("varint", want, [&](char* p, int64_t& o, int64_t m) { return decodeVarU64(p, m, o, r) && r == u; });
          int64_t s = (int64_t)u, sr;
          string z = wire::zig(s);
          checkEnc("zigzag", z, 9, [&](char* p, int64_t& o, int64_t m) { return encodeVarI64(p, m, o, s); });
          checkDec("zigzag", z, [&](char* p, int64_t& o, int64_t m) { return decodeVarI64(p, m, o, sr) && sr == s; });
          sb.clear();
          VMC_CHECK(encodeVarI64(sb, s) == z.size() && sb == z, "zigzag-string", "%lx", (unsigned long)u);
          auto rng = [&](auto f) { return [f](char* p, int64_t& o, int64_t m) { auto br = makeByteRange(p, m, o); auto b0 = br; bool ok = f(br); o += offset(br, b0); return ok; }; };
          if (s >= 0) checkDec("int64c", want, rng([&](folly::ByteRange& b) { int64_t x; return decodeInt64C(b, x) && x == s; }));
          if (s >= 0 && s <= INT32_MAX) checkDec("int32c", want, rng([&](folly::ByteRange& b) { int32_t x; return decodeInt32C(b, x) && x == s; }));
          if (s >= INT32_MIN && s <= INT32_MAX) checkDec("int32", z, rng([&](folly::ByteRange& b) { int32_t x; return decodeInt32(b, x) && x == s; }));
          // values that do not fit are refused, not truncated
          string w2 = want;
          auto br = makeByteRange(&w2[0], w2.size());
          int32_t x32;
          int64_t x64;
          if (s < 0) VMC_CHECK(!decodeInt64C(br, x64), "fit", "negative accepted");
          br = makeByteRange(&w2[0], w2.size());
          if (s < 0 || s > INT32_MAX) VMC_CHECK(!decodeInt32C(br, x32), "fit", "%lx accepted as 32 bits", (unsigned long)u);
          string z2 = z;
          br = makeByteRange(&z2[0], z2.size());
          if (s < INT32_MIN || s > INT32_MAX) VMC_CHECK(!decodeInt32(br, x32), "fit", "%lx accepted as 32 bits", (unsigned long)u);
        }
      }
}
static void fixedInts() {
  int i = choose((int)W().size(), INPUT, "v");
  int64_t v = W()[i];
  auto rng = [&](auto f) { return [f](char* p, int64_t& o, int64_t m) { auto br = makeByteRange(p, m, o); auto b0 = br; bool ok = f(br); o += offset(br, b0); return ok; }; };
  checkEnc("fix64", wire::fix(v, 8), 8, [&](char* p, int64_t& o, int64_t m) { return encodeInt64FixedLength(p, m, o, v); });
  checkDec("fix64", wire::fix(v, 8), rng([&](folly::ByteRange& b) { int64_t x; return decodeInt64FixedLength(b, x) && x == v; }));
  int32_t w = V32(i);
  checkEnc("fix32", wire::fix(w, 4), 4, [&](char* p, int64_t& o, int64_t m) { return encodeInt32FixedLength(p, m, o, w); });
  checkDec("fix32", wire::fix(w, 4), rng([&](folly::ByteRange& b) { int32_t x; return decodeInt32FixedLength(b, x) && x == w; }));
  int16_t h = std::min<int64_t>(v, INT16_MAX);
  checkEnc("fix16", wire::fix(h, 2), 2, [&](char* p, int64_t& o, int64_t m) { return encodeInt16FixedLength(p, m, o, h); });
  checkDec("fix16", wire::fix(h, 2), rng([&](folly::ByteRange& b) { int16_t x; return decodeInt16FixedLength(b, x) && x == h; }));
  for (int l : {0, 1, 127, 128, 4095, 16384}) {
    string s(l, 'q');
    checkEnc("string", wire::str(s), -1, [&](char* p, int64_t& o, int64_t m) { return encodeString(p, m, o, s); });
    checkDec("string", wire::str(s), rng([&](folly::ByteRange& b) { string x = "zz"; return decodeString(b, x) && x == s; }));
  }
}
static void header() {
  auto vs = versions();
  int v = pick(vs, "version");
  auto ns = names();
  string name = pick(ns, "name");
  int64_t seq = pick(V(), "seq"), size = pick(V(), "size");
  for (int64_t off : V())
    for (int64_t data : V())
      for (int st = 0; st <= 4; ++st)
        for (int64_t prev : {int64_t(0), int64_t(77), INT64_MAX}) {
          if (prev && st != 2 && st != 3) continue;
          if (name.size() > 200 && (off != data || st > 2)) continue;
          wire::Blk w{name, (uint64_t)seq, (uint64_t)data, (uint64_t)off, (uint64_t)size, st, (uint64_t)prev};
          BlockDetails b;
          b.fileName = name;
          b.seqId = seq;
          b.dataSize = data;
          b.offset = off;
          b.fileSize = size;
          b.allocationStatus = (FileAllocationStatus)st;
          b.prevSeqId = prev;
          string want = wire::header(v, w);
          checkEnc("header", want, Protocol::kMaxHeader - 1 - 2, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeHeader(v, p, o, m, b); });
          checkDec("header", want, [&](char* p, int64_t& o, int64_t m) {
            BlockDetails d;
            if (!Protocol::decodeHeader(v, p, o, m, d)) return false;
            bool flags = v >= 13;
            return d.fileName == name && d.seqId == seq && d.dataSize == data && d.offset == off && d.fileSize == size &&
                   d.allocationStatus == (flags ? st : 0) && d.prevSeqId == (flags && (st == 2 || st == 3) ? prev : 0);
          }, name.size() < 200 && (prev == 77 || st == 0));
        }
}
static void checkpoints() {
  auto vs = versions();
  int v = pick(vs, "version");
  int n = choose(thorough() ? 4 : 3, INPUT, "count");
  std::vector<int64_t> few{0, 1, 200, INT64_MAX};
  std::vector<Checkpoint> cs;
  std::vector<wire::Cp> ws;
  for (int i = 0; i < n; ++i) {
    // the first is enumerated fully, the others over a diagonal
    Checkpoint c;
    wire::Cp w;
    if (i == 0) {
      c.port = (int32_t)std::min<int64_t>(INT32_MAX, pick(few, "port"));
      c.numBlocks = pick(few, "blocks");
      c.lastBlockReceivedBytes = pick(few, "recv");
      c.lastBlockSeqId = pick(few, "seq");
      c.lastBlockOffset = pick(few, "off");
    } else {
      int k = choose(4, INPUT, "diag");
      c.port = (int32_t)std::min<int64_t>(INT32_MAX, few[k]);
      c.numBlocks = few[(k + 1) % 4];
      c.lastBlockReceivedBytes = few[(k + 2) % 4];
      c.lastBlockSeqId = few[(k + 3) % 4];
      c.lastBlockOffset = few[k];
    }
    w.port = c.port, w.blocks = c.numBlocks, w.recv = c.lastBlockReceivedBytes, w.seq = c.lastBlockSeqId, w.off = c.lastBlockOffset;
    cs.push_back(c);
    ws.push_back(w);
  }
  string want = wire::checkpoints(v, ws);
  int64_t max = n <= 1 ? Protocol::getMaxLocalCheckpointLength(v) : -1;
  checkEnc("checkpoints", want, max, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeCheckpoints(v, p, o, m, cs); });
  auto dec = [&](char* p, int64_t& o, int64_t m) {
    std::vector<Checkpoint> d;
    if (!Protocol::decodeCheckpoints(v, p, o, m, d) || d.size() != ws.size()) return false;
    for (size_t i = 0; i < d.size(); ++i) {
      auto& a = d[i];
      auto& w = ws[i];
      if (a.port != (int32_t)w.port || a.numBlocks != (int64_t)w.blocks || a.lastBlockReceivedBytes != (v >= 16 ? (int64_t)w.recv : 0) ||
          a.lastBlockSeqId != (v >= 21 ? w.seq : 0) || a.lastBlockOffset != (v >= 21 ? (int64_t)w.off : 0) || a.hasSeqId != (v >= 21))
        return false;
    }
    return true;
  };
  checkDec("checkpoints", want, dec);
  if (n && v >= 21 && v < 27) {  // -1 of releases before 1.27
    ws[0].seq = -1;
    checkDec("checkpoints-old-minus-one", wire::checkpoints(v, ws), dec);
  }
}
static void small() {
  auto vs = versions();
  int v = pick(vs, "version");
  int64_t a = pick(W(), "a");
  for (int64_t b : W()) {
    checkEnc("done", wire::done(v, a, b), Protocol::kMaxDone - 2, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeDone(v, p, o, m, a, b); });
    checkDec("done", wire::done(v, a, b), [&](char* p, int64_t& o, int64_t m) {
      int64_t x = -1, y = -1;
      return Protocol::decodeDone(v, p, o, m, x, y) && x == a && (v >= 16 ? y == b : y == -1);
    });
    checkEnc("chunks-cmd", wire::chunksCmd(a, b), Protocol::kChunksCmdLen, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeChunksCmd(p, o, m, a, b); });
    checkDec("chunks-cmd", wire::chunksCmd(a, b), [&](char* p, int64_t& o, int64_t m) { int64_t x, y; return Protocol::decodeChunksCmd(p, o, m, x, y) && x == a && y == b; });
  }
  checkEnc("size", wire::size(a), Protocol::kMaxSize - 1, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeSize(p, o, m, a); });
  checkDec("size", wire::size(a), [&](char* p, int64_t& o, int64_t m) { int64_t x; return Protocol::decodeSize(p, o, m, x) && x == a; });
  int32_t f = (int32_t)a;
  for (int32_t c : {f, -f, f ^ (int32_t)0x80000000, (int32_t)(a >> 20)}) {
    checkEnc("footer", wire::footer(c), Protocol::kMaxFooter - 1, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeFooter(p, o, m, c); });
    checkDec("footer", wire::footer(c), [&](char* p, int64_t& o, int64_t m) { int32_t x; return Protocol::decodeFooter(p, o, m, x) && x == c; });
  }
  for (int code = 0; code < 128; code += 1) {
    if (a > 300 && code % 16) continue;
    checkEnc("abort", wire::abortMsg(v, code, a), Protocol::kAbortLength, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeAbort(p, o, m, v, (ErrorCode)code, a); });
    checkDec("abort", wire::abortMsg(v, code, a), [&](char* p, int64_t& o, int64_t m) {
      int32_t x;
      ErrorCode e;
      int64_t y;
      return Protocol::decodeAbort(p, o, m, x, e, y) && x == v && e == code && y == a;
    });
  }
}
static void settings() {
  auto vs = versions();
  int v = pick(vs, "version");
  int r = choose((int)W().size(), INPUT, "read");
  for (string id : {string(), string("id1"), string("sp ace=%\0\xff", 10), string(Protocol::kMaxTransferIdLength, 'i')})
    for (int wr : {0, 1, 5000, INT32_MAX})
      for (int fl = 0; fl < 16; ++fl) {
        if (id.size() > 100 && fl % 5) continue;
        Settings s;
        s.readTimeoutMillis = V32(r);
        s.writeTimeoutMillis = wr;
        s.transferId = id;
        s.enableChecksum = fl & 1;
        s.sendFileChunks = fl & 2;
        s.blockModeDisabled = fl & 4;
        s.enableHeartBeat = fl & 8;
        string want = wire::settings(v, V32(r), wr, id, fl);
        checkEnc("settings", want, Protocol::kMaxSettings - 1, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeSettings(v, p, o, m, s); });
        // the version is decoded first, the rest with the negotiated one
        checkDec("settings", want, [&](char* p, int64_t& o, int64_t m) {
          int ver;
          if (!Protocol::decodeVersion(p, o, m, ver) || ver != v) return false;
          Settings d;
          if (!Protocol::decodeSettings(ver, p, o, m, d)) return false;
          int f = v >= 12 ? fl : 0;
          return d.readTimeoutMillis == V32(r) && d.writeTimeoutMillis == wr && d.transferId == id && d.enableChecksum == !!(f & 1) &&
                 d.sendFileChunks == !!(f & 2) && d.blockModeDisabled == !!(f & 4) && d.enableHeartBeat == !!(f & 8);
        }, id.size() < 100 && wr != 1);
      }
}
static void encryption() {
  for (int t = 0; t < NUM_ENC_TYPES; ++t)
    for (int l : {0, 1, 15, 16})
      for (int i = 0; i < (int)W().size(); ++i) {
        string iv = l == 16 ? string("\0\xff\x80 0123456789abc", 16).substr(0, 16) : string(l, (char)0xfe);
        int32_t tag = V32(i);
        string want = wire::encryption(t, iv, tag);
        checkEnc("encryption", want, Protocol::kEncryptionCmdLen - 1, [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeEncryptionSettings(p, o, m, (EncryptionType)t, iv, tag); });
        checkDec("encryption", want, [&](char* p, int64_t& o, int64_t m) {
          EncryptionType e;
          string x;
          int32_t g;
          return Protocol::decodeEncryptionSettings(p, o, m, e, x, g) && e == t && x == iv && g == tag;
        });
      }
  VMC_CHECK((int)wire::encryption(1, string(16, 'i'), 4096).size() == Protocol::kEncryptionCmdLen - 1, "encryption-len", "kEncryptionCmdLen does not match");
}
static FileChunksInfo mk(const wire::Ci& c) {
  string n = c.name;
  FileChunksInfo f(c.seq, n, c.size);
  for (auto& x : c.chunks) f.addChunk(Interval(x.first, x.second));
  return f;
}
static void chunkInfos() {
  auto ns = names();
  string name = pick(ns, "name");
  int64_t seq = pick(V(), "seq");
  for (int64_t size : V())
    for (int n = 0; n <= 3; ++n)
      for (int64_t st : {int64_t(0), int64_t(130), INT64_MAX - 2}) {
        wire::Ci c{name, (uint64_t)seq, (uint64_t)size, {}};
        for (int i = 0; i < n; ++i) c.chunks.push_back({(uint64_t)std::min<int64_t>(st + i * 1000 > 0 ? st + i * 1000 : st, INT64_MAX - 1), (uint64_t)INT64_MAX - (n - i)});
        bool fine = true;
        for (auto& x : c.chunks) fine &= x.first <= x.second;
        if (!fine) continue;
        auto f = mk(c);
        string want = wire::chunkInfo(c);
        checkEnc("chunk-info", want, Protocol::maxEncodeLen(f), [&](char* p, int64_t& o, int64_t m) { return Protocol::encodeFileChunksInfo(p, o, m, f); });
        checkDec("chunk-info", want, [&](char* p, int64_t& o, int64_t m) {
          auto br = makeByteRange(p, m, o);
          auto b0 = br;
          FileChunksInfo d;
          bool ok = Protocol::decodeFileChunksInfo(br, d);
          o += offset(br, b0);
          return ok && d == f;
        }, name.size() < 200);
      }
}
/// a list broken into buffers as the receiver does
static void chunkLists() {
  int n = choose(5, INPUT, "files");
  std::vector<wire::Ci> want;
  for (int i = 0; i < n; ++i) {
    static const int kinds[][2] = {{1, 0}, {1, 3}, {200, 2}, {3, 30}, {1, 300}};
    int k = choose(5, INPUT, "kind");
    wire::Ci c{string(kinds[k][0], 'a' + i), (uint64_t)i * 100, 1u << 20, {}};
    for (int j = 0; j < kinds[k][1]; ++j) c.chunks.push_back({(uint64_t)j * 1000, (uint64_t)j * 1000 + 500});
    want.push_back(c);
  }
  std::vector<FileChunksInfo> list;
  std::vector<int64_t> sizes;
  for (auto& c : want) list.push_back(mk(c)), sizes.push_back(Protocol::maxEncodeLen(list.back()));
  // buffer sizes: the smallest allowed, and exactly around what entries need
  std::vector<int64_t> bufs{Protocol::kMaxHeader, Protocol::kMaxHeader + 1, 16384};
  for (size_t i = 0; i < sizes.size(); ++i)
    for (int64_t d : {-1, 0, 1}) {
      int64_t sum = 4 + d;
      for (size_t j = i; j < sizes.size(); ++j)
        if ((sum += sizes[j]) >= Protocol::kMaxHeader) bufs.push_back(sum);
    }
  for (int64_t bs : bufs) {
    std::vector<FileChunksInfo> got;
    int64_t done = 0;
    std::unique_ptr<char[]> b(new char[bs]);
    while (done < n) {
      int64_t off = 4;
      int64_t k = Protocol::encodeFileChunksInfoList(b.get(), off, bs, done, list);
      VMC_CHECK(k > 0, "chunk-list-stuck", "no entry encoded into an empty buffer of %ld bytes (entry %ld needs up to %ld): the receiver would send empty buffers forever", (long)bs, (long)done, (long)sizes[done]);
      VMC_CHECK(off <= bs, "chunk-list-overflow", "list buffer overflow");
      std::unique_ptr<char[]> e(new char[off - 4]);
      memcpy(e.get(), b.get() + 4, off - 4);
      int64_t o2 = 0;
      size_t before = got.size();
      VMC_CHECK(Protocol::decodeFileChunksInfoList(e.get(), o2, off - 4, got) && o2 == off - 4, "chunk-list-decode", "encoded list not decoded");
      VMC_CHECK((int64_t)(got.size() - before) == k, "chunk-list-count", "%ld entries reported, %ld sent", (long)k, (long)(got.size() - before));
      done += k;
    }
    VMC_CHECK((int64_t)got.size() == n, "chunk-list", "%ld of %d entries arrived", (long)got.size(), n);
    for (int i = 0; i < n; ++i) {
      if (sizes[i] + 4 <= bs) VMC_CHECK(got[i] == list[i], "chunk-list-entry", "entry %d of %d differs (buffer %ld)", i, n, (long)bs);
      else {
        // cannot fit: whatever is announced must be a part of the truth
        VMC_CHECK(got[i].getFileName() == list[i].getFileName() && got[i].getSeqId() == list[i].getSeqId() && got[i].getFileSize() == list[i].getFileSize(), "chunk-list-entry", "entry %d differs", i);
        for (auto& c : got[i].getChunks()) {
          bool in = false;
          for (auto& x : list[i].getChunks()) in |= x == c;
          VMC_CHECK(in, "chunk-list-invented", "entry %d announces a range that was never received", i);
        }
      }
    }
    step();
  }
  state(hash(std::to_string(pos()) + "l" + std::to_string(n)));
}
static void logRecords() {
  LogEncoderDecoder ed;
  auto ns = names();
  string name = pick(ns, "name");
  int64_t a = pick(V(), "a"), b = pick(V(), "b");
  const int64_t M = TransferLogManager::kMaxEntryLength;
  // encodes, checks the layout and decodes; the time stamp is the encoder's own
  auto go = [&](const char* what, int type, const string& fields, const std::function<int64_t(char*, int64_t)>& enc, const std::function<bool(char*, int16_t, int64_t&)>& dec) {
    std::unique_ptr<char[]> p(new char[M + 16]);
    memset(p.get(), 0x5a, M + 16);
    int64_t n = enc(p.get(), M);
    VMC_CHECK(n > 3 && n <= M, what, "%s: not encoded within the maximum entry length", what);
    string got(p.get(), n);
    int len = (unsigned char)got[0] | (unsigned char)got[1] << 8;
    VMC_CHECK(len == n - 2 && got[2] == type, what, "%s: length %d of %ld or type %d wrong", what, len, (long)n, got[2]);
    uint64_t ts = 0;
    int64_t pos = 3;
    VMC_CHECK(decodeVarU64(got.data(), n, pos, ts), what, "%s: no time stamp", what);
    VMC_CHECK(got.substr(pos) == fields, what, "%s: fields %s instead of %s", what, wire::hex(got.substr(pos)).c_str(), wire::hex(fields).c_str());
    for (int64_t i = n; i < M + 16; ++i) VMC_CHECK(p[i] == 0x5a, what, "%s: wrote past its end", what);
    for (int64_t k = 0; k <= n - 3; k += (n > 300 && k > 20 && k < n - 60) ? 91 : 1) {
      std::unique_ptr<char[]> e(new char[k]);
      memcpy(e.get(), got.data() + 3, k);
      int64_t t = -1;
      bool ok = dec(e.get(), (int16_t)k, t);
      VMC_CHECK(ok == (k == n - 3), what, "%s: %ld of %ld bytes %s", what, (long)k, (long)n - 3, ok ? "accepted" : "refused or changed");
      if (ok) VMC_CHECK((uint64_t)t == ts, what, "%s: time stamp changed", what);
    }
    // one byte too many is not a valid record
    string more = got.substr(3) + "x";
    int64_t t;
    VMC_CHECK(!dec(&more[0], (int16_t)more.size(), t), what, "%s: trailing byte accepted", what);
    for (int64_t small = 3; small < std::min<int64_t>(n, 30); ++small) {
      std::unique_ptr<char[]> q(new char[M + 16]);
      memset(q.get(), 0x5a, M + 16);
      VMC_CHECK(enc(q.get(), small) == -1, what, "%s: encoded %ld bytes into %ld", what, (long)n, (long)small);
      for (int64_t i = small; i < M; ++i) VMC_CHECK(q[i] == 0x5a, what, "%s: wrote past %ld", what, (long)small);
    }
    step();
    state(hash(got.substr(pos), hash(what)));
  };
  string id = name.substr(0, Protocol::kMaxTransferIdLength);
  go("log-header", 0, wire::var(2) + wire::str(id) + wire::str("::1") + wire::var(a), [&](char* p, int64_t m) { return ed.encodeLogHeader(p, m, id, "::1", a); },
     [&](char* p, int16_t k, int64_t& t) { int v; string r, s; int64_t c; return ed.decodeLogHeader(p, k, t, v, r, s, c) && v == 2 && r == id && s == "::1" && c == a; });
  go("log-file", 1, wire::str(name) + wire::var(a) + wire::var(b), [&](char* p, int64_t m) { return ed.encodeFileCreationEntry(p, m, name, a, b); },
     [&](char* p, int16_t k, int64_t& t) { string r; int64_t x, y; return ed.decodeFileCreationEntry(p, k, t, r, x, y) && r == name && x == a && y == b; });
  if (name.size() > 3) return;
  for (int64_t c : V())
    go("log-block", 2, wire::var(a) + wire::var(b) + wire::var(c), [&](char* p, int64_t m) { return ed.encodeBlockWriteEntry(p, m, a, b, c); },
       [&](char* p, int16_t k, int64_t& t) { int64_t x, y, z; return ed.decodeBlockWriteEntry(p, k, t, x, y, z) && x == a && y == b && z == c; });
  go("log-inval", 3, wire::var(a), [&](char* p, int64_t m) { return ed.encodeFileInvalidationEntry(p, m, a); },
     [&](char* p, int16_t k, int64_t& t) { int64_t x; return ed.decodeFileInvalidationEntry(p, k, t, x) && x == a; });
  go("log-resize", 4, wire::var(a) + wire::var(b), [&](char* p, int64_t m) { return ed.encodeFileResizeEntry(p, m, a, b); },
     [&](char* p, int16_t k, int64_t& t) { int64_t x, y; return ed.decodeFileResizeEntry(p, k, t, x, y) && x == a && y == b; });
  go("log-dir", 5, "", [&](char* p, int64_t m) { return ed.encodeDirectoryInvalidationEntry(p, m); },
     [&](char* p, int16_t k, int64_t& t) { return ed.decodeDirectoryInvalidationEntry(p, k, t); });
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C08";
  c.quickBudget = 120;
  c.rule = "every message and log record with every combination of boundary field values (powers of two, their neighbours, 0, maximum; empty to maximal strings) for every protocol version 10..current: encoded into buffers of exact, larger and every smaller size, compared byte for byte with a reference encoder, decoded back with and without trailing bytes and cut at every byte";
  c.scenarios = {{"varints", varints}, {"fixed", fixedInts}, {"header", header}, {"checkpoints", checkpoints}, {"small", small},
                 {"settings", settings}, {"encryption", encryption}, {"chunk-info", chunkInfos}, {"chunk-list", chunkLists}, {"log", logRecords}};
  return runCheck(c, argc, argv);
}
