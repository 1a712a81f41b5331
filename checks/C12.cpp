// C12: the source queue
#include <wdt/util/DirectorySourceQueue.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/AbortChecker.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <thread>
#include "fib.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

static const int64_t MB = 1 << 20;
static const std::vector<int64_t> kSizes{0, 1, MB - 1, MB, MB + 1, 2 * MB + 5};
struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } };
static NoAbort noAbort;
static WdtOptions& opts() { static auto* o = [] { auto* x = new WdtOptions(); x->skip_fadvise = true; return x; }(); return *o; }
static string fname(int64_t size, int k) { return "s" + std::to_string(size) + "_" + std::to_string(k); }
static void setup() {
  fs::mkdirs(shared() + "/root/d");
  for (int64_t s : kSizes)
    for (int k = 0; k < 3; ++k) {
      string p = shared() + "/root/" + fname(s, k);
      int fd = ::open(p.c_str(), O_CREAT | O_WRONLY, 0644);
      if (::ftruncate(fd, s)) abort();
      ::close(fd);
    }
  for (auto n : {"a", "d/b", "d/c"}) fs::writeFile(shared() + "/tree/" + n, string(string(n).size() * 10, 'x'));
}
typedef std::vector<std::pair<int64_t, int64_t>> Ranges;
static Ranges norm(Ranges r) {
  std::sort(r.begin(), r.end());
  Ranges o;
  for (auto& x : r) {
    if (x.first == x.second) continue;
    if (!o.empty() && o.back().second >= x.first) o.back().second = std::max(o.back().second, x.second);
    else o.push_back(x);
  }
  return o;
}
static Ranges minus(int64_t size, const Ranges& r) {
  Ranges o;
  int64_t c = 0;
  for (auto& x : norm(r)) {
    if (x.first >= size) break;
    if (x.first > c) o.push_back({c, x.first});
    c = std::max(c, x.second);
  }
  if (c < size) o.push_back({c, size});
  return o;
}
static string str(const Ranges& r) { string s; for (auto& x : r) s += "[" + std::to_string(x.first) + "," + std::to_string(x.second) + ")"; return s; }

struct Piece { string name; int64_t off, size, fileSize, seq, prevSeq; FileAllocationStatus st; };
struct Want {
  std::map<string, std::pair<int64_t, Ranges>> files;  // name -> size, bytes missing
  std::map<string, FileAllocationStatus> status;
  std::map<string, int64_t> seq, prevSeq;  // fixed numbers
  std::set<string> empty;                  // one empty block each
  std::set<string> complete;
  std::set<string> extra;                  // to be deleted
  int64_t maxPrevSeq = -1;
};
static Piece piece(ByteSource& s) {
  auto& m = s.getMetaData();
  VMC_CHECK(s.getIdentifier() == m.relPath, "identifier", "block of %s says %s", m.relPath.c_str(), s.getIdentifier().c_str());
  return {m.relPath, s.getOffset(), s.getSize(), m.size, m.seqId, m.prevSeqId, m.allocationStatus};
}
/// the blocks handed out against what had to be handed out
static void judge(const std::vector<Piece>& got, const Want& w, int64_t blockSize, DirectorySourceQueue& q) {
  std::map<string, Ranges> cover;
  std::map<string, int64_t> seqOf;
  std::map<int64_t, string> nameOf;
  std::map<string, int> blocks;
  int64_t total = 0;
  std::set<string> names;
  for (auto& p : got) {
    names.insert(p.name);
    if (w.extra.count(p.name)) {
      VMC_CHECK(p.st == TO_BE_DELETED && p.size == 0, "delete", "%s is not marked for deletion", p.name.c_str());
      VMC_CHECK(p.seq == w.seq.at(p.name), "delete-seq", "%s to be deleted with number %ld", p.name.c_str(), (long)p.seq);
      VMC_CHECK(++blocks[p.name] == 1, "delete-twice", "%s deleted twice", p.name.c_str());
      continue;
    }
    auto it = w.files.find(p.name);
    VMC_CHECK(it != w.files.end(), "unknown", "block of unexpected file %s", p.name.c_str());
    VMC_CHECK(!w.complete.count(p.name), "complete", "block of %s although all of it was received before", p.name.c_str());
    int64_t size = it->second.first;
    VMC_CHECK(p.off >= 0 && p.size >= 0 && p.off + p.size <= size && p.fileSize == size, "range", "block of %s at %ld+%ld of %ld (says %ld)", p.name.c_str(), (long)p.off, (long)p.size, (long)size, (long)p.fileSize);
    VMC_CHECK(blockSize <= 0 || p.size <= blockSize, "block-size", "block of %s has %ld bytes", p.name.c_str(), (long)p.size);
    VMC_CHECK(p.size > 0 || w.empty.count(p.name), "empty-block", "empty block for %s of %ld bytes", p.name.c_str(), (long)size);
    auto s = seqOf.emplace(p.name, p.seq);
    VMC_CHECK(s.first->second == p.seq, "seq", "%s has two numbers", p.name.c_str());
    auto n = nameOf.emplace(p.seq, p.name);
    VMC_CHECK(n.first->second == p.name, "seq-shared", "%s and %s share number %ld", p.name.c_str(), n.first->second.c_str(), (long)p.seq);
    auto st = w.status.find(p.name);
    VMC_CHECK(p.st == (st == w.status.end() ? NOT_EXISTS : st->second), "status", "%s has allocation status %d", p.name.c_str(), p.st);
    auto fixed = w.seq.find(p.name);
    if (fixed != w.seq.end()) VMC_CHECK(p.seq == fixed->second, "seq-kept", "%s has number %ld instead of %ld", p.name.c_str(), (long)p.seq, (long)fixed->second);
    else VMC_CHECK(p.seq > w.maxPrevSeq, "seq-reused", "new file %s reuses number %ld", p.name.c_str(), (long)p.seq);
    auto pv = w.prevSeq.find(p.name);
    if (pv != w.prevSeq.end()) VMC_CHECK(p.prevSeq == pv->second, "prev-seq", "%s has previous number %ld instead of %ld", p.name.c_str(), (long)p.prevSeq, (long)pv->second);
    for (auto& r : cover[p.name]) VMC_CHECK(p.off >= r.second || p.off + p.size <= r.first, "overlap", "%s: bytes at %ld handed out twice", p.name.c_str(), (long)p.off);
    cover[p.name].push_back({p.off, p.off + p.size});
    blocks[p.name]++;
    total += p.size;
  }
  for (auto& f : w.files) {
    if (w.complete.count(f.first)) continue;
    VMC_CHECK(norm(cover[f.first]) == f.second.second, "coverage", "%s: handed out %s instead of %s", f.first.c_str(), str(norm(cover[f.first])).c_str(), str(f.second.second).c_str());
    if (w.empty.count(f.first)) VMC_CHECK(blocks[f.first] == 1, "empty-file", "empty file %s has %d blocks", f.first.c_str(), blocks[f.first]);
  }
  for (auto& e : w.extra) VMC_CHECK(blocks[e] == 1, "extra", "extra file %s is not deleted", e.c_str());
  int64_t n = w.files.size() - w.complete.size() + w.extra.size();
  VMC_CHECK(q.getCount() == n, "count", "%ld files reported instead of %ld", (long)q.getCount(), (long)n);
  VMC_CHECK(q.getTotalSize() == total, "total", "total size %ld instead of %ld", (long)q.getTotalSize(), (long)total);
  auto nb = q.getNumBlocksAndStatus();
  VMC_CHECK(nb.first == (int64_t)got.size() && nb.second == OK, "num-blocks", "%ld blocks reported instead of %zu", (long)nb.first, got.size());
}
/// what a previous transfer left: index -> description
static int applyPrev(int kind, const string& name, int64_t size, int64_t seq, std::vector<FileChunksInfo>& list, Want& w, int64_t& prevBytes) {
  Ranges r;
  int64_t fsize = size;
  switch (kind) {
    case 0: return 0;
    case 1: break;                                                  // allocated, nothing received
    case 2: r = {{0, std::min<int64_t>(1, size)}}; break;
    case 3: r = {{size / 2, size}}; break;
    case 4: r = {{0, size}}; break;                                  // complete
    case 5: r = {{0, size / 3}, {size / 2, size / 2 + size / 4}}; break;
    case 6: fsize = size + 7; r = {{0, size + 3}}; break;           // larger before
    case 7: fsize = size / 2; r = {{0, size / 4}}; break;           // smaller before
    case 8: fsize = size / 2; r = {{0, size / 2}}; break;
  }
  string n = name;
  FileChunksInfo c(seq, n, fsize);
  Ranges rr = norm(r);
  for (auto& x : rr) c.addChunk(Interval(x.first, x.second));
  list.push_back(std::move(c));
  w.maxPrevSeq = std::max(w.maxPrevSeq, seq);
  if (fsize > size) {
    w.status[name] = EXISTS_TOO_LARGE;
    w.prevSeq[name] = seq;
  } else {
    for (auto& x : rr) prevBytes += x.second - x.first;
    Ranges rem = minus(size, rr);
    w.files[name].second = rem;
    w.empty.erase(name);
    w.seq[name] = seq;
    w.status[name] = fsize < size ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE;
    if (rem.empty()) w.complete.insert(name);
  }
  return 1;
}
static const int kPrevKinds = 9;

/// drains sequentially, possibly returning blocks in between
static std::vector<Piece> drain(DirectorySourceQueue& q, ThreadCtx& ctx, int maxReturns) {
  std::vector<std::unique_ptr<ByteSource>> held;
  std::vector<Piece> done;
  for (;;) {
    ErrorCode st = ERROR;
    auto s = q.getNextSource(&ctx, st);
    VMC_CHECK(st == OK, "status", "queue reports status %d", st);
    if (!s) {
      if (held.empty()) break;
      if (maxReturns > 0 && flip(INPUT, "return")) {
        --maxReturns;
        // give back all or the last of the held ones, in part or in whole
        int k = choose(3, INPUT, "what");
        if (k == 0) {
          q.returnToQueue(held);
          held.clear();
        } else {
          auto x = std::move(held.back());
          held.pop_back();
          if (k == 2 && x->getSize() > 1) {
            // a part of it was confirmed
            Piece p = piece(*x);
            p.size = x->getSize() / 2;
            done.push_back(p);
            x->advanceOffset(p.size);
          }
          q.returnToQueue(x);
        }
        VMC_CHECK(!q.finished(), "finished", "finished although a block was returned");
        continue;
      }
      break;
    }
    held.push_back(std::move(s));
    step();
  }
  for (auto& h : held) done.push_back(piece(*h));
  return done;
}
/// merges the halves of partially confirmed blocks for the block count
static void lists(int nfiles, bool two) {
  opts().open_files_during_discovery = 0;
  ThreadCtx ctx(opts(), false);
  ctx.setAbortChecker(&noAbort);
  DirectorySourceQueue q(opts(), shared() + "/root", &noAbort);
  int blockMb = choose(3, INPUT, "block");
  q.setBlockSizeMbytes(blockMb);
  bool del = flip(INPUT, "delete");
  if (del) q.enableFileDeletion();
  int when = choose(3, INPUT, "when");  // chunks: never, after discovery, before it
  Want w;
  std::vector<WdtFileInfo> info;
  std::vector<FileChunksInfo> prev;
  int64_t prevBytes = 0;
  for (int i = 0; i < nfiles; ++i) {
    int64_t size = pick(kSizes, "size");
    string n = fname(size, i);
    bool known = flip(INPUT, "known");
    info.emplace_back(n, known ? size : -1, false);
    w.files[n] = {size, minus(size, {})};
    if (!size) w.empty.insert(n);
    int kind = when ? choose(kPrevKinds, INPUT, "prev") : 0;
    applyPrev(kind, n, size, 10 + 5 * i, prev, w, prevBytes);
  }
  if (when && flip(INPUT, "extra")) {
    string n = "gone";
    FileChunksInfo c(3, n, 99);
    prev.push_back(std::move(c));
    w.maxPrevSeq = std::max<int64_t>(w.maxPrevSeq, 3);
    if (del) w.extra.insert(n), w.seq[n] = 3;
  }
  q.setFileInfo(info);
  VMC_CHECK(!q.finished() && !q.fileDiscoveryFinished(), "early", "finished before it began");
  if (when == 2) q.setPreviouslyReceivedChunks(prev);
  VMC_CHECK(q.buildQueueSynchronously(), "build", "queue not built");
  if (when == 1) q.setPreviouslyReceivedChunks(prev);
  VMC_CHECK(q.fileDiscoveryFinished(), "discovery", "discovery not finished");
  if (when == 1) {
    // bytes are counted once per discovery
  }
  auto got = drain(q, ctx, two ? 2 : 1);
  // join the halves again
  std::vector<Piece> joined;
  std::sort(got.begin(), got.end(), [](const Piece& a, const Piece& b) { return a.name != b.name ? a.name < b.name : a.off < b.off; });
  int64_t blocks = q.getNumBlocksAndStatus().first;
  for (auto& p : got) {
    if ((int64_t)got.size() > blocks && !joined.empty() && joined.back().name == p.name && joined.back().off + joined.back().size == p.off && (!blockMb || joined.back().size + p.size <= blockMb * MB) &&
        ((joined.back().size + p.size) == blockMb * MB || p.off + p.size == p.fileSize || joined.back().size + p.size < blockMb * MB || !blockMb) && (int64_t)(joined.size() + (got.end() - got.begin()) - (&p - &got[0])) > blocks)
      joined.back().size += p.size;
    else joined.push_back(p);
  }
  judge(joined, w, blockMb * MB, q);
  VMC_CHECK(q.getPreviouslySentBytes() == prevBytes, "prev-bytes", "%ld bytes of earlier transfers reported instead of %ld", (long)q.getPreviouslySentBytes(), (long)prevBytes);
  VMC_CHECK(q.finished(), "not-finished", "not finished after everything was handed out");
  ErrorCode st;
  VMC_CHECK(!q.getNextSource(&ctx, st), "more", "a block after the end");
  state(hash(std::to_string(pos()) + std::to_string(prevBytes) + std::to_string(got.size())));
}
/// discovery, consumers and returns in parallel
static void threads(int mode, int consumers, int returns, bool del) {
  opts().open_files_during_discovery = 0;
  fib::run([&] {
    DirectorySourceQueue q(opts(), shared() + (mode == 1 ? "/tree" : "/root"), &noAbort);
    q.setBlockSizeMbytes(1);
    q.setNumClientThreads(consumers);
    if (del) q.enableFileDeletion();
    Want w;
    std::vector<FileChunksInfo> prev;
    int64_t pb = 0;
    auto add = [&](const string& n, int64_t s) {
      w.files[n] = {s, minus(s, {})};
      if (!s) w.empty.insert(n);
    };
    std::vector<std::vector<WdtFileInfo>> batches;
    auto file = [&](int64_t s, int k) {
      add(fname(s, k), s);
      return WdtFileInfo(fname(s, k), s, false);
    };
    int running = consumers;
    if (mode == 0) q.setFileInfo({file(2 * MB + 5, 0), file(0, 0), file(1, 0)});
    if (mode == 1)
      for (auto n : {"a", "d/b", "d/c"}) add(n, string(n).size() * 10);
    if (mode == 2) {
      q.setFileInfo({file(1, 0)});
      batches.push_back({file(MB + 1, 0), file(0, 0)});
      batches.push_back({});
      batches.push_back({file(1, 1)});
      size_t at = 0;
      q.setFileInfoGenerator([&, at]() mutable -> folly::Optional<std::vector<WdtFileInfo>> {
        q.waitForPreviousTransfer(std::chrono::milliseconds(50), [&] { return running; });
        if (at == batches.size()) return folly::none;
        return batches[at++];
      });
    }
    std::thread b = q.buildQueueAsynchronously();
    std::thread p;
    if (mode == 3) {  // resumption: the list of received ranges arrives while discovery runs
      b.join();
      fail("harness", "unused");
    }
    std::vector<std::vector<Piece>> got(consumers);
    int toReturn = returns;
    std::vector<std::thread> ts;
    for (int i = 0; i < consumers; ++i)
      ts.emplace_back([&, i] {
        ThreadCtx ctx(opts(), false, i);
        ctx.setAbortChecker(&noAbort);
        std::vector<std::unique_ptr<ByteSource>> held;
        for (;;) {
          ErrorCode st = ERROR;
          auto s = q.getNextSource(&ctx, st);
          VMC_CHECK(st == OK, "status", "queue reports status %d", st);
          if (!s) break;
          fib::point("consume");
          if (toReturn > 0) {
            --toReturn;
            q.returnToQueue(s);
            continue;
          }
          got[i].push_back(piece(*s));
          held.push_back(std::move(s));
        }
        running--;
        VMC_CHECK(q.fileDiscoveryFinished(), "early-end", "a consumer was told there is no more although discovery runs");
      });
    for (auto& t : ts) t.join();
    b.join();
    std::vector<Piece> all;
    string o;
    for (auto& g : got) all.insert(all.end(), g.begin(), g.end()), o += std::to_string(g.size()) + " ";
    judge(all, w, MB, q);
    VMC_CHECK(q.finished(), "not-finished", "not finished");
    outcome(o);
  });
}
/// the list of received ranges arrives while discovery runs; consumers begin
/// after it, as the sending threads do
static void resumed(bool del) {
  opts().open_files_during_discovery = 0;
  fib::run([&] {
    DirectorySourceQueue q(opts(), shared() + "/root", &noAbort);
    q.setBlockSizeMbytes(1);
    q.setNumClientThreads(2);
    if (del) q.enableFileDeletion();
    Want w;
    std::vector<FileChunksInfo> prev;
    int64_t pb = 0;
    std::vector<WdtFileInfo> info;
    int i = 0;
    for (int64_t s : {2 * MB + 5, MB, int64_t(0), int64_t(1)}) {
      string n = fname(s, 0);
      w.files[n] = {s, minus(s, {})};
      if (!s) w.empty.insert(n);
      info.emplace_back(n, s, false);
      static const int kinds[] = {5, 4, 0, 6};
      applyPrev(kinds[i], n, s, 10 + i, prev, w, pb);
      ++i;
    }
    string n = "gone";
    FileChunksInfo c(30, n, 9);
    prev.push_back(std::move(c));
    w.maxPrevSeq = 30;
    if (del) w.extra.insert(n), w.seq[n] = 30;
    q.setFileInfo(info);
    std::thread b = q.buildQueueAsynchronously();
    fib::point("received");
    q.setPreviouslyReceivedChunks(prev);
    std::vector<std::vector<Piece>> got(2);
    std::vector<std::thread> ts;
    for (int k = 0; k < 2; ++k)
      ts.emplace_back([&, k] {
        ThreadCtx ctx(opts(), false, k);
        ctx.setAbortChecker(&noAbort);
        std::vector<std::unique_ptr<ByteSource>> held;
        for (;;) {
          ErrorCode st = ERROR;
          auto s = q.getNextSource(&ctx, st);
          if (!s) break;
          got[k].push_back(piece(*s));
          held.push_back(std::move(s));
        }
      });
    for (auto& t : ts) t.join();
    b.join();
    std::vector<Piece> all;
    for (auto& g : got) all.insert(all.end(), g.begin(), g.end());
    judge(all, w, MB, q);
    outcome(std::to_string(got[0].size()));
  });
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C12";
  c.setup = setup;
  c.rule = "(a) all lists of up to two files over sizes around the block size, block sizes, what a previous transfer left of each (nothing, parts, all, larger, smaller), deletion, and returns of blocks in whole or part; (b) discovery, consumers and returns in parallel: every schedule within the preemption bound, with file lists, directory discovery, a generator of batches and resumption";
  c.scenarios.push_back({"list1", [] { lists(1, true); }});
  c.scenarios.push_back({"list2", [] { lists(2, false); }, false, {Bounds(0)}, {}, 3});
  auto add = [&](const char* n, std::function<void()> f, double b) {
    c.scenarios.push_back({n, f, false, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(0), Bounds(1), Bounds(2), Bounds(3), Bounds(4)}, b});
  };
  add("par-list", [] { threads(0, 2, 1, false); }, 2);
  add("par-tree", [] { threads(1, 2, 0, false); }, 2);
  add("par-generator", [] { threads(2, 2, 0, false); }, 2);
  add("par-3", [] { threads(0, 3, 2, false); }, 2);
  auto access = [&](const char* n, std::function<void()> f) { c.scenarios.push_back({n, f, false, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 2}); };
  access("access-list", [] { threads(0, 2, 1, false); });
  access("access-generator", [] { threads(2, 2, 0, false); });
  access("access-resumed", [] { resumed(false); });
  add("par-resumed", [] { resumed(false); }, 2);
  add("par-resumed-delete", [] { resumed(true); }, 2);
  return runCheck(c, argc, argv);
}
