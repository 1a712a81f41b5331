// Reference encoders of the wire and log formats, written from the format
// description (not from the code): used as the oracle of C08, as generators of
// valid messages in C09/C10 and to build logs in C06.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace wire {
using S = std::string;
inline S var(uint64_t v) {  // 1..9 bytes, the ninth carries 8 bits
  S s;
  for (int i = 0; i < 8 && v >= 128; ++i, v >>= 7) s.push_back((char)(0x80 | (v & 0x7f)));
  s.push_back((char)v);
  return s;
}
inline S zig(int64_t v) { return var(((uint64_t)v << 1) ^ (uint64_t)(v >> 63)); }
inline S str(const S& x) { return var(x.size()) + x; }
inline S fix(uint64_t v, int n) {
  S s;
  for (int i = 0; i < n; ++i) s.push_back((char)(v >> (8 * i)));
  return s;
}
struct Blk { S name; uint64_t seq = 0, data = 0, off = 0, size = 0; int status = 0; uint64_t prev = 0; };
inline S header(int v, const Blk& b) {
  S s = str(b.name) + var(b.seq) + var(b.data) + var(b.off) + var(b.size);
  if (v >= 13) {
    s.push_back((char)b.status);
    if (b.status == 2 || b.status == 3) s += var(b.prev);
  }
  return s;
}
struct Cp { uint64_t port = 0, blocks = 0, recv = 0; int64_t seq = 0; uint64_t off = 0; };
inline S checkpoints(int v, const std::vector<Cp>& cs) {
  S s = var(cs.size());
  for (auto& c : cs) {
    s += var(c.port) + var(c.blocks);
    if (v >= 16) s += var(c.recv);
    if (v >= 21) {
      if (c.seq == -1 && v < 27) s += S(9, (char)0xff) + '\x01';
      else s += var(c.seq);
      s += var(c.off);
    }
  }
  return s;
}
inline S done(int v, uint64_t blocks, uint64_t bytes) { return var(blocks) + (v >= 16 ? var(bytes) : S()); }
inline S size(uint64_t n) { return var(n); }
inline S abortMsg(int v, int code, uint64_t cp) { return fix(v, 4) + (char)code + fix(cp, 8); }
inline S chunksCmd(uint64_t buf, uint64_t files) { return fix(buf, 8) + fix(files, 8); }
struct Ci { S name; uint64_t seq = 0, size = 0; std::vector<std::pair<uint64_t, uint64_t>> chunks; };
inline S chunkInfo(const Ci& c) {
  S s = var(c.seq) + str(c.name) + var(c.size) + var(c.chunks.size());
  for (auto& x : c.chunks) s += var(x.first) + var(x.second);
  return s;
}
inline S settings(int v, uint64_t rd, uint64_t wr, const S& id, int flags) {
  S s = var(v) + var(rd) + var(wr) + str(id);
  if (v >= 12) s.push_back((char)flags);
  return s;
}
inline S encryption(uint64_t type, const S& iv, uint32_t tag) { return var(type) + str(iv) + fix(tag, 4); }
inline S footer(int32_t c) { return zig(c); }
// ---- transfer log: 2-byte length, type byte, timestamp, fields
inline S entry(int type, uint64_t ts, const S& fields) {
  S b = S(1, (char)type) + var(ts) + fields;
  return fix(b.size(), 2) + b;
}
inline S logHeader(uint64_t ts, const S& id, const S& ip, uint64_t config, int version = 2) { return entry(0, ts, var(version) + str(id) + str(ip) + var(config)); }
inline S logFile(uint64_t ts, const S& name, uint64_t seq, uint64_t size) { return entry(1, ts, str(name) + var(seq) + var(size)); }
inline S logBlock(uint64_t ts, uint64_t seq, uint64_t off, uint64_t n) { return entry(2, ts, var(seq) + var(off) + var(n)); }
inline S logInval(uint64_t ts, uint64_t seq) { return entry(3, ts, var(seq)); }
inline S logResize(uint64_t ts, uint64_t seq, uint64_t size) { return entry(4, ts, var(seq) + var(size)); }
inline S logDirInval(uint64_t ts) { return entry(5, ts, S()); }
inline S hex(const S& s, size_t max = 64) {
  S r;
  char b[4];
  for (size_t i = 0; i < s.size() && i < max; ++i) snprintf(b, 4, "%02x", (unsigned char)s[i]), r += b;
  return s.size() > max ? r + ".." : r;
}
}  // namespace wire
