// C13: per-connection history of sent blocks
#include <wdt/util/ThreadTransferHistory.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/AbortChecker.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <thread>
#include "e2e.h"
#include "peer.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

static const int64_t MB = 1 << 20;
struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } };
static NoAbort noAbort;
static WdtOptions& opts() { static auto* o = [] { auto* x = new WdtOptions(); x->skip_fadvise = true; return x; }(); return *o; }
struct F { string name; int64_t size; };
static const std::vector<F> kFiles{{"big", MB + 3}, {"mid", 5}, {"nil", 0}};
static void setup() {
  fs::mkdirs(shared() + "/root");
  for (auto& f : kFiles) {
    int fd = ::open((shared() + "/root/" + f.name).c_str(), O_CREAT | O_WRONLY, 0644);
    if (::ftruncate(fd, f.size)) abort();
    ::close(fd);
  }
}
struct Blk {
  int64_t seq, off, size;
  bool ok = true;
  bool operator<(const Blk& o) const { return std::tie(seq, off, size) < std::tie(o.seq, o.off, o.size); }
  bool operator==(const Blk& o) const { return seq == o.seq && off == o.off && size == o.size; }
};
static Blk blk(ByteSource& s) { return {s.getMetaData().seqId, s.getOffset(), s.getSize()}; }
static string str(const std::vector<Blk>& v) {
  string s;
  for (auto& b : v) s += " " + std::to_string(b.seq) + ":" + std::to_string(b.off) + "+" + std::to_string(b.size);
  return s;
}
static void fill(DirectorySourceQueue& q, int nfiles) {
  opts().open_files_during_discovery = 0;
  q.setBlockSizeMbytes(1);
  std::vector<WdtFileInfo> info;
  for (int i = 0; i < nfiles; ++i) info.emplace_back(kFiles[i].name, kFiles[i].size, false);
  q.setFileInfo(info);
  VMC_CHECK(q.buildQueueSynchronously(), "build", "queue not built");
}
/// what sendOneByteSource records for a block that was sent, or not
static TransferStats sent(ByteSource& s, bool ok) {
  TransferStats t;
  t.addHeaderBytes(10);
  t.addDataBytes(ok ? s.getSize() : s.getSize() / 2);
  if (ok) {
    t.setLocalErrorCode(OK);
    t.incrNumBlocks();
    t.addEffectiveBytes(t.getHeaderBytes(), t.getDataBytes());
  } else {
    t.setLocalErrorCode(SOCKET_WRITE_ERROR);
    t.incrFailedAttempts();
  }
  return t;
}
static std::vector<Blk> drain(DirectorySourceQueue& q, ThreadCtx& ctx) {
  std::vector<Blk> v;
  for (;;) {
    ErrorCode st;
    auto s = q.getNextSource(&ctx, st);
    if (!s) break;
    v.push_back(blk(*s));
  }
  std::sort(v.begin(), v.end());
  return v;
}

/// all sequences of operations on one connection against a reference
static void sequence(int nfiles, int depth, bool hostile) {
  ThreadCtx ctx(opts(), false);
  ctx.setAbortChecker(&noAbort);
  DirectorySourceQueue q(opts(), shared() + "/root", &noAbort);
  fill(q, nfiles);
  TransferStats thr;
  TransferHistoryController ctl(q);
  const int port = 7;
  ctl.addThreadHistory(port, thr);
  auto& h = ctl.getTransferHistory(port);
  // reference
  std::vector<Blk> hist;
  std::multiset<Blk> queue;
  std::vector<Blk> partial;  // confirmed parts of returned blocks
  int64_t acked = 0, lastN = -1, lastBytes = 0, lastSeq = 0, lastOff = 0;
  for (int i = 0, seq = 1; i < nfiles; ++i) {
    // numbers are given in the order of discovery
    int64_t c = 0;
    do {
      int64_t n = std::min(MB, kFiles[i].size - c);
      queue.insert({seq, c, n});
      c += n;
    } while (c < kFiles[i].size);
    ++seq;
  }
  bool rejected = false, allAcked = false;
  string trace;
  // applies a checkpoint to the reference; -1: must be refused, 0: nothing new, 1: fine
  auto apply = [&](const Checkpoint& c, bool global) {
    int64_t n = c.numBlocks;
    if (n < 0 || n > (int64_t)hist.size() || (lastN >= 0 && n < lastN) || c.lastBlockReceivedBytes < 0) return -1;
    // without the number of the block it can be about one sent before
    bool repeated = !c.hasSeqId && lastN == n && c.lastBlockReceivedBytes == lastBytes;
    if (n < (int64_t)hist.size() && !repeated) {
      auto& b = hist[n];
      bool match = !c.hasSeqId || (c.lastBlockSeqId == b.seq && c.lastBlockOffset == b.off);
      if (match && c.lastBlockReceivedBytes > b.size) return -1;
    }
    bool same = lastN == n && c.lastBlockSeqId == lastSeq && c.lastBlockOffset == lastOff;
    // the rest of a block that was partly received has another offset
    if (same && c.hasSeqId && lastBytes > 0 && c.lastBlockReceivedBytes != lastBytes) return -1;
    int r = lastN == n && ((same && c.lastBlockReceivedBytes == lastBytes) || c.lastBlockReceivedBytes == 0) && !global ? 0 : 1;
    for (int64_t i = n; i < (int64_t)hist.size(); ++i) {
      Blk b = hist[i];
      bool match = i == n && !repeated && (!c.hasSeqId || (c.lastBlockSeqId == b.seq && c.lastBlockOffset == b.off));
      int64_t got = match ? c.lastBlockReceivedBytes : 0;
      if (got) partial.push_back({b.seq, b.off, got});
      queue.insert({b.seq, b.off + got, b.size - got});
    }
    hist.resize(n);
    acked = n;
    lastN = n;
    lastSeq = c.lastBlockSeqId, lastOff = c.lastBlockOffset, lastBytes = c.lastBlockReceivedBytes;
    return r;
  };
  auto pickCp = [&](Checkpoint& c) {
    int64_t lo = hostile ? -1 : acked, hi = (int64_t)hist.size() + (hostile ? 1 : 0);
    c.port = port;
    c.numBlocks = lo + choose((int)(hi - lo + 1), INPUT, "cp-blocks");
    c.hasSeqId = true;
    const Blk* b = c.numBlocks >= 0 && c.numBlocks < (int64_t)hist.size() ? &hist[c.numBlocks] : nullptr;
    if (!b) {
      if (hostile && flip(INPUT, "cp-extra")) c.setLastBlockDetails(0, 0, 1);
      return;
    }
    int k = choose(hostile ? 7 : 4, INPUT, "cp-part");
    switch (k) {
      case 0: break;
      case 1: c.setLastBlockDetails(b->seq, b->off, std::min<int64_t>(1, b->size)); break;
      case 2: c.setLastBlockDetails(b->seq, b->off, b->size); break;
      case 3: c.hasSeqId = false; c.setLastBlockDetails(0, 0, std::min<int64_t>(2, b->size)); break;
      case 4: c.setLastBlockDetails(b->seq + 1, b->off, 1); break;
      case 5: c.setLastBlockDetails(b->seq, b->off, b->size + 1); break;
      case 6: c.setLastBlockDetails(b->seq, b->off, -1); break;
    }
  };
  for (int d = 0; d < depth && !rejected; ++d) {
    int op = choose(5, INPUT, "op");
    step();
    if (op == 0) break;
    if (op == 1 || op == 2) {
      if (allAcked && op == 2) prune("same as a later failure");
      ErrorCode st;
      auto s = q.getNextSource(&ctx, st);
      VMC_CHECK(!s == queue.empty(), "empty", "queue %s blocks, reference has %zu", s ? "gives" : "has no", queue.size());
      if (!s) prune("nothing to send");
      Blk b = blk(*s);
      auto it = queue.find(b);
      VMC_CHECK(it != queue.end(), "unknown", "queue gives %s after%s", str({b}).c_str(), trace.c_str());
      queue.erase(it);
      TransferStats t = sent(*s, op == 1);
      thr += t;
      s->addTransferStats(t);
      s->close();
      VMC_CHECK(h.addSource(s), "refused", "block refused without a checkpoint of the whole port");
      b.ok = op == 1;
      hist.push_back(b);
      allAcked = false;
      trace += op == 1 ? " send" : " fail";
    } else if (op == 3) {
      Checkpoint c;
      pickCp(c);
      auto before = hist.size();
      int want = apply(c, false);
      ErrorCode e = h.setLocalCheckpoint(c);
      trace += " cp(" + std::to_string(c.numBlocks) + "," + std::to_string(c.lastBlockReceivedBytes) + ")";
      if (want < 0) {
        VMC_CHECK(e == INVALID_CHECKPOINT, "accepted", "checkpoint accepted with code %d after%s; %zu blocks in the history", e, trace.c_str(), before);
        rejected = true;
      } else {
        VMC_CHECK(e == (want ? OK : NO_PROGRESS), "cp-code", "code %d instead of %s after%s", e, want ? "OK" : "NO_PROGRESS", trace.c_str());
      }
    } else if (op == 4) {
      if (hist.empty()) prune("nothing to acknowledge");
      h.markAllAcknowledged();
      acked = hist.size();
      allAcked = true;
      trace += " ack";
    }
    VMC_CHECK(h.getNumAcked() == acked, "num-acked", "%ld acknowledged instead of %ld after%s", (long)h.getNumAcked(), (long)acked, trace.c_str());
  }
  int end = choose(rejected ? 2 : 3, INPUT, "end");
  h.markNotInUse();
  if (end == 2) {
    Checkpoint c;
    pickCp(c);
    if (apply(c, true) < 0) rejected = true;
    ctl.handleGlobalCheckpoint(c);
    trace += " global(" + std::to_string(c.numBlocks) + "," + std::to_string(c.lastBlockReceivedBytes) + ")";
    VMC_CHECK(h.isGlobalCheckpointReceived() == !rejected, "global-flag", "flag is wrong after%s", trace.c_str());
    VMC_CHECK(h.getNumAcked() == acked, "num-acked", "%ld acknowledged instead of %ld after%s", (long)h.getNumAcked(), (long)acked, trace.c_str());
  }
  if (end == 1) {
    h.markAllAcknowledged();
    trace += " all";
  } else {
    h.returnUnackedSourcesToQueue();
    for (size_t i = acked; i < hist.size(); ++i) queue.insert(hist[i]);
    hist.resize(acked);
    trace += " finish";
  }
  int64_t eff = 0;
  for (auto& b : hist) eff += b.ok ? b.size : 0;
  for (auto& b : partial) eff += b.size;
  // blocks of the history that were never sent completely count as nothing
  VMC_CHECK(thr.getEffectiveDataBytes() == eff, "effective", "%ld bytes counted as transferred instead of %ld after%s", (long)thr.getEffectiveDataBytes(), (long)eff, trace.c_str());
  VMC_CHECK(h.getNumAcked() == (int64_t)hist.size(), "lost", "%ld blocks acknowledged, %zu in the history after%s", (long)h.getNumAcked(), hist.size(), trace.c_str());
  auto st = h.popAckedSourceStats();
  VMC_CHECK(st.size() == hist.size(), "lost", "%zu blocks acknowledged instead of %zu after%s", st.size(), hist.size(), trace.c_str());
  auto rest = drain(q, ctx);
  std::vector<Blk> want(queue.begin(), queue.end());
  VMC_CHECK(rest == want, "returned", "queue has%s instead of%s after%s", str(rest).c_str(), str(want).c_str(), trace.c_str());
  state(hash(trace));
}

/// two connections; the first breaks and its checkpoint arrives over others
static void crossing(int nfiles, bool hasSeq, int errThreads) {
  fib::run([&] {
    DirectorySourceQueue q(opts(), shared() + "/root", &noAbort);
    q.setNumClientThreads(1 + errThreads);
    fill(q, nfiles);
    TransferHistoryController ctl(q);
    std::vector<std::unique_ptr<TransferStats>> thr;
    for (int i = 0; i <= errThreads; ++i) {
      thr.emplace_back(new TransferStats(true));
      ctl.addThreadHistory(100 + i, *thr.back());
    }
    std::vector<Blk> started;  // in the order they went out on port 100
    size_t complete = 0;       // completely sent
    bool sealed = false;       // the receiver gave up on port 100
    Checkpoint cp;
    cp.port = 100;
    cp.hasSeqId = hasSeq;
    std::set<std::pair<int64_t, int64_t>> twice;
    std::vector<Blk> receivedElsewhere;
    int64_t confirmed = 0;
    Blk part{-1, 0, 0};
    std::thread owner([&] {
      ThreadCtx ctx(opts(), false, 0);
      ctx.setAbortChecker(&noAbort);
      auto& h = ctl.getTransferHistory(100);
      for (;;) {
        ErrorCode st;
        auto s = q.getNextSource(&ctx, st);
        if (!s) break;
        bool mine = !sealed;
        if (mine) started.push_back(blk(*s));
        fib::point("sending");
        bool ok = mine && !sealed;
        if (ok) ++complete;
        TransferStats t = sent(*s, ok);
        *thr[0] += t;
        s->addTransferStats(t);
        s->close();
        if (!h.addSource(s)) break;
        fib::point("sent");
        if (!ok) break;
      }
      h.markNotInUse();
    });
    std::vector<std::thread> err;
    for (int i = 1; i <= errThreads; ++i)
      err.emplace_back([&, i] {
        ThreadCtx ctx(opts(), false, i);
        ctx.setAbortChecker(&noAbort);
        auto& h = ctl.getTransferHistory(100 + i);
        fib::point("port lost");
        if (!sealed) {
          sealed = true;
          // the receiver has any prefix of what was sent
          confirmed = complete - choose(complete < 2 ? (int)complete + 1 : 3, INPUT, "received");
          cp.numBlocks = confirmed;
          if (confirmed < (int64_t)started.size() && flip(INPUT, "part")) {
            Blk b = started[confirmed];
            int64_t r = std::min<int64_t>(2, b.size);
            cp.setLastBlockDetails(hasSeq ? b.seq : 0, hasSeq ? b.off : 0, r);
            part = {b.seq, b.off, r};
          }
        }
        ctl.handleGlobalCheckpoint(cp);
        fib::point("told");
        for (;;) {
          ErrorCode st;
          auto s = q.getNextSource(&ctx, st);
          if (!s) break;
          receivedElsewhere.push_back(blk(*s));
          auto t = sent(*s, true);
          *thr[i] += t;
          s->addTransferStats(t);
          s->close();
          VMC_CHECK(h.addSource(s), "refused", "block refused on a good port");
        }
        h.markNotInUse();
      });
    owner.join();
    for (auto& t : err) t.join();
    for (int i = 0; i <= errThreads; ++i) {
      auto& h = ctl.getTransferHistory(100 + i);
      h.markAllAcknowledged();
      VMC_CHECK(i || h.getNumAcked() == confirmed, "acked", "%ld blocks acknowledged on the lost port instead of %ld", (long)h.getNumAcked(), (long)confirmed);
    }
    // every byte exactly once
    std::vector<Blk> all(started.begin(), started.begin() + confirmed);
    if (part.size > 0) all.push_back(part);
    all.insert(all.end(), receivedElsewhere.begin(), receivedElsewhere.end());
    std::sort(all.begin(), all.end());
    int64_t eff = 0;
    for (auto& t : thr) eff += t->getEffectiveDataBytes();
    int64_t total = 0;
    for (int f = 0; f < nfiles; ++f) {
      int64_t at = 0;
      int seen = 0;
      for (auto& b : all)
        if (b.seq == f + 1) {
          ++seen;
          if (b.size == 0) continue;
          VMC_CHECK(b.off == at, at < b.off ? "gap" : "again", "file %s: byte %ld comes after %ld;%s", kFiles[f].name.c_str(), (long)b.off, (long)at, str(all).c_str());
          at = b.off + b.size;
        }
      VMC_CHECK(at == kFiles[f].size && seen, "gap", "file %s ends at %ld;%s", kFiles[f].name.c_str(), (long)at, str(all).c_str());
      total += kFiles[f].size;
    }
    VMC_CHECK(eff == total, "effective", "%ld bytes counted as transferred of %ld", (long)eff, (long)total);
    outcome(std::to_string(confirmed) + "/" + std::to_string(started.size()) + "/" + std::to_string(part.size));
  });
}
// -------------------------------------------------- a reference receiver
// The real sender against a receiver that follows the protocol, keeps account
// of what arrived and of what it has confirmed, and breaks off or confirms in
// every way at every block.
namespace ref {
using e2e::Cfg;
using e2e::Xfer;
static int V = Protocol::protocol_version;
static Cfg g_src;
struct Part { string name; int64_t seq, off, n; bool confirmed = false; };
struct In {
  int fd;
  string b;
  bool need(size_t n) {
    while (b.size() < n) {
      bool eof = false;
      string x = peer::take(fd, 3000, &eof);
      if (x.empty()) return false;
      b += x;
    }
    return true;
  }
  string cut(size_t n) { string r = b.substr(0, n); b.erase(0, n); return r; }
  bool var(uint64_t& v) {
    v = 0;
    for (int i = 0; i < 9; ++i) {
      if (!need(1)) return false;
      unsigned char c = cut(1)[0];
      if (i == 8) { v |= (uint64_t)c << 56; return true; }
      v |= (uint64_t)(c & 0x7f) << (7 * i);
      if (!(c & 0x80)) return true;
    }
    return true;
  }
};
struct State {
  std::vector<Part> got[2];
  int64_t blocks[2] = {0, 0};
  wire::Cp last[2];
  int64_t saidBlocks[2] = {-1, -1}, saidBytes[2] = {0, 0};
  std::set<string> vague;   // all bytes are confirmed, the end of the block is not
  bool ended[2] = {false, false}, failed[2] = {false, false};
  void confirm(int p) { for (auto& g : got[p]) g.confirmed = true; }
  /// a checkpoint is sent; without the number of the block, one that repeats
  /// the previous one says nothing about what came in between
  void confirmBy(int p, const wire::Cp& c) {
    bool repeated = V < 21 && saidBlocks[p] == (int64_t)c.blocks && saidBytes[p] == (int64_t)c.recv;
    saidBlocks[p] = c.blocks;
    saidBytes[p] = c.recv;
    if (!repeated) confirm(p);
  }
  wire::Cp cp(int p) { wire::Cp c = last[p]; c.port = 6000 + p; c.blocks = blocks[p]; return c; }
  void arrive(int p, const Part& x) {
    if (!x.n) {   // an empty file; or what remains of a block that had arrived up to its end
      for (int q = 0; q < 2; ++q) for (auto& g : got[q]) VMC_CHECK(!(g.confirmed && g.name == x.name && g.off == x.off && g.n == 0), "again", "%s at %ld is sent again although confirmed", x.name.c_str(), (long)x.off);
    }
    for (int q = 0; q < 2; ++q)
      for (auto& g : got[q])
        VMC_CHECK(!g.confirmed || g.name != x.name || g.off + g.n <= x.off || x.off + x.n <= g.off, "again", "%s [%ld,%ld) is sent although [%ld,%ld) was confirmed", x.name.c_str(), (long)x.off, (long)(x.off + x.n), (long)g.off, (long)(g.off + g.n));
    got[p].push_back(x);
  }
};
enum Cmd { CMD_SETTINGS, CMD_BLOCK, CMD_DONE, CMD_OTHER, CMD_END };
/// the next command; of a block only the first keep bytes when keep >= 0
static Cmd next(State& s, int p, In& in, int keepPart, bool stopHere) {
  if (!in.need(1)) return CMD_END;
  char c = in.cut(1)[0];
  uint64_t v;
  if (c == 'S') {
    for (int i = 0; i < 3; ++i) if (!in.var(v)) return CMD_END;
    if (!in.var(v) || !in.need(v + 1)) return CMD_END;
    in.cut(v + 1);
    return CMD_SETTINGS;
  }
  if (c == 'Z') return in.var(v) ? CMD_OTHER : CMD_END;
  if (c == 'D') {
    if (!in.need(255)) return CMD_END;
    in.cut(255);
    return CMD_DONE;
  }
  VMC_CHECK(c == 'L', "command", "the sender says %02x", (unsigned char)c);
  if (!in.need(3)) return CMD_END;
  string h = in.cut(3);
  size_t len = (unsigned char)h[1] | (size_t)(unsigned char)h[2] << 8;
  if (!in.need(len - 4)) return CMD_END;
  string rest = in.b.substr(len - 4);
  uint64_t nl, seq, data, off, size;
  in.var(nl);
  string name = in.cut(nl);
  in.var(seq); in.var(data); in.var(off); in.var(size);
  in.b = rest;
  s.last[p] = wire::Cp();
  if (stopHere) {
    int64_t k = keepPart == 0 ? 0 : keepPart == 1 ? 1 : keepPart == 2 ? (int64_t)data / 2 : (int64_t)data;
    k = std::min<int64_t>(k, data);
    if (!in.need(k)) return CMD_END;
    in.cut(k);
    s.last[p].seq = seq;
    s.last[p].off = off;
    s.last[p].recv = k;
    if (k == (int64_t)data) s.vague.insert(name);
    if (k) s.arrive(p, {name, (int64_t)seq, (int64_t)off, k});
    return CMD_BLOCK;
  }
  if (!in.need(data)) return CMD_END;
  in.cut(data);
  s.arrive(p, {name, (int64_t)seq, (int64_t)off, (int64_t)data});
  ++s.blocks[p];
  return CMD_BLOCK;
}
static string local(const wire::Cp& c) { return peer::pad(wire::checkpoints(V, {c}), Protocol::getMaxLocalCheckpointLength(V)); }
static string global(const wire::Cp& c) {
  string b = wire::checkpoints(V, {c});
  return "E" + wire::fix(b.size(), 2) + b;
}
static void finishWell(State& s, int p, In& in) {
  s.confirm(p);
  peer::put(in.fd, "D");
  in.need(1);
  ::close(in.fd);
  s.ended[p] = true;
}
struct Flow { bool lied = false; string what; };
/// the port that breaks off
static void breaking(State& s, Flow& f, int l, int conns, int stops, bool two) {
  fib::setGroup(2);
  bool shut = false;
  for (int k = 0; k < conns && !shut && !s.ended[0]; ++k) {
    if (!peer::ready(l, 3000)) break;
    In in{::accept(l, nullptr, nullptr), ""};
    if (in.fd < 0) break;
    if (k) {
      wire::Cp c = s.cp(0);
      int lie = choose(5, INPUT, "checkpoint");
      if (lie == 1) c.blocks += 50;
      if (lie == 2) c.port = 6001;
      if (lie == 3) c.recv = (uint64_t)1 << 40;
      if (lie == 4) { if (!c.blocks) prune("none confirmed"); c.blocks = ~0ull - 1; }
      f.what += " cp" + std::to_string(lie);
      if (lie == 3 && (!s.last[0].seq && !s.last[0].recv && !s.last[0].off)) prune("no partial block");
      if (lie) f.lied = true; else s.confirmBy(0, c);
      peer::put(in.fd, local(c));
      if (lie) {
        // rejected: the sender says nothing more
        string rest = peer::drain(in.fd, 2500);
        VMC_CHECK(rest.empty(), "lie", "after an impossible checkpoint (%d) the sender goes on with %s", lie, wire::hex(rest, 20).c_str());
        ::close(in.fd);
        break;
      }
    }
    int stop = k + 1 == conns ? stops : choose(stops + 1, INPUT, "stop");
    int part = stop < stops ? choose(4, INPUT, "part") : 0;
    f.what += stop < stops ? " block" + std::to_string(stop) + "/" + std::to_string(part) : " done";
    int n = 0, errs = 0;
    while (true) {
      Cmd c = next(s, 0, in, part, stop == n && stop < stops);
      if (c == CMD_END) { ::close(in.fd); break; }
      if (c == CMD_BLOCK && n++ == stop && stop < stops) { ::close(in.fd); break; }
      if (c == CMD_DONE) {
        int r = choose(9, INPUT, "reply");
        f.what += " r" + std::to_string(r);
        // the blocks sent so far are confirmed by WAIT, ERR and DONE
        if (r == 0) { finishWell(s, 0, in); break; }
        if (r == 1) { s.confirm(0); peer::put(in.fd, "W"); finishWell(s, 0, in); break; }
        if (r == 2) { s.confirm(0); peer::put(in.fd, "W"); ::close(in.fd); break; }
        if (r == 3) { if (errs++) prune("twice"); s.confirm(0); wire::Cp o; o.port = 6555; peer::put(in.fd, global(o)); continue; }
        if (r == 4) { s.confirm(0); wire::Cp o; o.port = 6555; peer::put(in.fd, global(o)); ::close(in.fd); break; }
        if (r == 5) { ::close(in.fd); break; }
        if (r == 6) {   // the receiver counts it as a second connection
          wire::Cp o;
          o.port = 6000;
          peer::put(in.fd, local(o));
          finishWell(s, 0, in);
          break;
        }
        if (r == 7) {   // and it takes it for one on which blocks had come
          wire::Cp o;
          o.port = 6000;
          o.blocks = 1;
          f.lied = true;
          peer::put(in.fd, local(o));
          string rest = peer::drain(in.fd, 2500);
          VMC_CHECK(rest.empty(), "lie", "after a checkpoint out of place the sender goes on with %s", wire::hex(rest, 20).c_str());
          ::close(in.fd);
          shut = true;
          break;
        }
        if (r == 8) { s.confirm(0); peer::put(in.fd, "D"); in.need(1); ::shutdown(in.fd, SHUT_WR); ::close(in.fd); s.ended[0] = true; break; }
      }
    }
  }
  ::close(l);
  if (!s.ended[0]) s.failed[0] = s.ended[0] = true;
}
/// the port that goes on, and passes on what the other one got
static void steady(State& s, int l) {
  fib::setGroup(2);
  if (!peer::ready(l, 5000)) { ::close(l); return; }
  In in{::accept(l, nullptr, nullptr), ""};
  bool told = false;
  while (true) {
    Cmd c = next(s, 1, in, 0, false);
    if (c == CMD_END) break;
    if (c != CMD_DONE) continue;
    while (!s.ended[0]) {
      s.confirm(1);
      peer::put(in.fd, "W");
      std::this_thread::sleep_for(std::chrono::milliseconds(300));
    }
    if (s.failed[0] && !told) {
      told = true;
      s.confirmBy(0, s.cp(0));
      s.confirm(1);
      peer::put(in.fd, global(s.cp(0)));
      continue;
    }
    finishWell(s, 1, in);
    break;
  }
  ::close(l);
}
static void run(int conns, int stops, bool two, int v = Protocol::protocol_version) {
  V = v;
  e2e::init();
  fib::opt = fib::Options();
  fib::opt.schedPoints = false;
  fib::opt.maxTime = 200 * fib::SEC;
  net::opt = net::Options();
  Cfg c = g_src;
  c.ports = two ? 2 : 1;
  c.sopt = [](WdtOptions& o) { o.enable_checksum = false; };
  fib::run([&] {
    State s;
    Flow f;
    int l0 = peer::listenOn(6000), l1 = two ? peer::listenOn(6001) : -1;
    std::thread a([&] { breaking(s, f, l0, conns, stops, two); });
    std::thread b;
    if (two) b = std::thread([&] { steady(s, l1); });
    Xfer x(c);
    x.url = "wdt://localhost:6000?num_ports=" + std::to_string(c.ports) + "&id=id1&recpv=" + std::to_string(V);
    if (x.startSenderAsync()) x.finishSender();
    a.join();
    if (two) b.join();
    std::set<string> bad, fine;
    for (auto& t : x.S.report->getFailedSourceStats()) bad.insert(t.getId());
    std::map<string, int64_t> acked;
    for (auto& t : x.S.report->getTransferredSourceStats()) acked[t.getId()] += t.getEffectiveDataBytes();
    for (auto& file : c.files) {
      std::vector<std::pair<int64_t, int64_t>> r;
      bool any = false;
      for (int p = 0; p < 2; ++p) for (auto& g : s.got[p]) if (g.name == file.name && g.confirmed) { any = true; r.push_back({g.off, g.off + g.n}); }
      std::sort(r.begin(), r.end());
      int64_t at = 0;
      for (auto& y : r) if (y.first <= at) at = std::max(at, y.second);
      bool whole = any && at == file.size;
      const char* w = f.what.c_str();
      if (x.S.ok()) VMC_CHECK(whole, "neither", "%s: the sender reports success, %s is confirmed up to %ld of %ld", w, file.name.c_str(), (long)at, (long)file.size);
      if (!whole) VMC_CHECK(bad.count(file.name) && !x.S.ok(), "unconfirmed", "%s: %s is confirmed up to %ld of %ld and not listed as failed", w, file.name.c_str(), (long)at, (long)file.size);
      else if (!f.lied && !s.vague.count(file.name)) VMC_CHECK(!bad.count(file.name), "confirmed", "%s: %s is confirmed and listed as failed", w, file.name.c_str());
    }
    if (two && !f.lied) VMC_CHECK(x.S.ok(), "success", "%s: the sender reports %s although one port went on", f.what.c_str(), errorCodeToStr(x.S.err).c_str());
    if (!two && s.ended[0] && !s.failed[0]) VMC_CHECK(x.S.ok(), "success", "%s: the sender reports %s", f.what.c_str(), errorCodeToStr(x.S.err).c_str());
    outcome(errorCodeToStr(x.S.err) + f.what);
    x.destroy();
  });
}
}  // namespace ref

int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C13";
  c.setup = [] {
    setup();
    ref::g_src.files = {{"a", 3000}, {"b", 2001}, {"d/c", 0}, {"e", 777}};
    e2e::shareSource(ref::g_src, "refsrc");
  };
  c.rule = "(a) all sequences of sending, failing, connection checkpoints (every count, partial sizes, mismatching, impossible), acknowledgement and a final port checkpoint up to a depth, compared step by step with a reference history; (b) a connection that sends while other threads deliver the checkpoint of its port, every schedule within the preemption bound and every prefix the receiver can have; (c) the real sender against a reference receiver, over all choices of where each connection ends (inside each block), what its checkpoint says and which of the sender's questions it answers how, for three protocol versions and one or two ports";
  auto D = [](int q, int t) { return thorough() ? t : q; };
  c.scenarios.push_back({"seq", [D] { sequence(3, D(7, 9), false); }, false, {Bounds(0)}, {}, 3});
  c.scenarios.push_back({"seq-hostile", [D] { sequence(3, D(6, 7), true); }, false, {Bounds(0)}, {}, 3});
  auto add = [&](const char* n, std::function<void()> f, double b) {
    c.scenarios.push_back({n, f, false, {Bounds(0), Bounds(1), Bounds(2), Bounds(3)}, {Bounds(0), Bounds(1), Bounds(2), Bounds(3), Bounds(4), Bounds(5)}, b});
  };
  add("crossing", [] { crossing(2, true, 1); }, 2);
  add("crossing-old", [] { crossing(2, false, 1); }, 2);
  add("crossing-2", [] { crossing(2, true, 2); }, 2);
  add("crossing-3files", [] { crossing(3, true, 1); }, 2);
  c.scenarios.push_back({"receiver", [D] { ref::run(D(3, 4), 4, false); }, false, {Bounds(0)}, {}, 3});
  c.scenarios.push_back({"receiver-two", [D] { ref::run(D(3, 4), 3, true); }, false, {Bounds(0)}, {}, 3});
  for (int v : {20, 16}) {
    string n = "-v" + std::to_string(v);
    c.scenarios.push_back({"receiver" + n, [D, v] { ref::run(D(3, 4), 3, false, v); }, false, {Bounds(0)}, {}, 2});
    c.scenarios.push_back({"receiver-two" + n, [D, v] { ref::run(D(3, 4), 3, true, v); }, false, {Bounds(0)}, {}, 2});
  }
  auto access = [&](const char* n, std::function<void()> f) { c.scenarios.push_back({n, f, false, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 2}); };
  access("access-crossing", [] { crossing(2, true, 1); });
  access("access-crossing-old", [] { crossing(2, false, 1); });
  access("access-crossing-2", [] { crossing(2, true, 2); });
  return runCheck(c, argc, argv);
}
