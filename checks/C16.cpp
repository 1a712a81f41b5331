// C16: the file reader
#include <wdt/util/FileByteSource.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
#include "fib.h"
#include "fsfault.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

static const int64_t K = 4096;
struct Case { int64_t off, size; };

/// reads one opened block completely; checks every delivered byte
static void readAll(FileByteSource& s, const string& path, int64_t off, int64_t size, int64_t bufSize, int64_t maxReads, int64_t& delivered) {
  delivered = 0;
  for (int64_t n = 0; !s.finished() && n != maxReads; ++n) {
    VMC_CHECK(n < 10000, "endless", "the block never ends");
    int64_t got = -77;
    char* b = s.read(got);
    if (s.hasError()) {
      VMC_CHECK(b == nullptr, "error-data", "data delivered together with an error");
      int64_t z = -5;
      VMC_CHECK(s.read(z) == nullptr && z == 0, "after-error", "data delivered after an error");
      VMC_CHECK(!s.finished(), "finished-error", "finished although failed");
      return;
    }
    VMC_CHECK(b && got > 0, "empty-read", "read delivered %ld bytes at %ld of %ld", (long)got, (long)delivered, (long)size);
    VMC_CHECK(got <= bufSize && delivered + got <= size, "too-much", "read delivered %ld bytes at %ld of %ld", (long)got, (long)delivered, (long)size);
    string now = fs::readFile(path);
    VMC_CHECK((int64_t)now.size() >= off + delivered + got && now.compare(off + delivered, got, b, got) == 0, "wrong-data", "bytes at %ld differ from the file", (long)(off + delivered));
    delivered += got;
  }
  if (s.finished()) {
    VMC_CHECK(delivered == size, "short", "finished after %ld of %ld bytes", (long)delivered, (long)size);
    int64_t z = -5;
    VMC_CHECK(s.read(z) == nullptr && z == 0, "after-end", "data delivered after the end");
  }
}

static void body(bool faults) {
  FLAGS_wdt_logging_enabled = getenv("VMC_LOG") != nullptr;
  string root = scratch() + "/src";
  string path = root + "/f";
  bool direct = flip(INPUT, "direct");
  bool shared = flip(INPUT, "shared-fd");
  int64_t buf = K * pick(std::vector<int64_t>{1, 2, 4}, "buffer");
  static const std::vector<Case> cases{{0, 0}, {0, 1}, {0, K}, {0, K + 1}, {0, 3 * K + 5}, {1, K}, {511, 2 * K}, {K - 1, 2}, {K, K}, {K + 1, K - 1}, {K + 1, 2 * K}, {2 * K - 3, 2 * K + 7}, {3 * K + 5, 0}};
  Case c = pick(cases, "block");
  // real length of the file relative to the end of the block, and when it gets that length
  static const std::vector<int64_t> deltas{0, 700, -1, -K, -K - 1, -512, -100000};
  int64_t delta = pick(deltas, "delta");
  bool later = delta != 0 && flip(INPUT, "changed-later");
  int64_t announced = c.off + c.size;
  int64_t real = std::max<int64_t>(0, announced + delta);
  int64_t first = later ? announced : real;
  fs::writeFile(path, fs::pattern(first, 3));
  WdtOptions o;
  o.buffer_size = buf;
  o.skip_fadvise = true;
  SourceMetaData m;
  m.fullPath = path;
  m.relPath = "f";
  m.size = announced;
  m.seqId = 1;
  m.directReads = direct;
  fsfault::Opt fo;
  fo.shortIo = faults && !direct;
  fo.failures = faults;
  int before = 0;
  fsfault::install(root, fo);
  int fd = -1;
  if (shared) {
    ThreadCtx t(o, false);
    fd = FileUtil::openForRead(t, path, direct);
    if (fd < 0) { fsfault::remove(); return; }
    m.fd = fd;
  }
  {
    ThreadCtx ctx(o, true);
    FileByteSource s(&m, c.size, c.off);
    VMC_CHECK(s.getSize() == c.size && s.getOffset() == c.off && s.getIdentifier() == "f", "fields", "block fields");
    int64_t off = c.off, size = c.size, got = 0;
    ErrorCode e = s.open(&ctx);
    VMC_CHECK((e == OK) == !s.hasError(), "open-error", "open returned %s but hasError is %d", errorCodeToStr(e).c_str(), s.hasError());
    VMC_CHECK(e == OK || fsfault::hard(), "open-spurious", "open failed");
    if (e == OK) {
      // possibly stop early, close, advance and continue
      int64_t stop = choose(3, INPUT, "stop");  // 0: read to the end, else after 1 or 2 reads
      if (later && stop == 0) {
        if (size > 0) readAll(s, path, off, size, buf, 1, got);
        fs::writeFile(path, fs::pattern(real, 3));
        int64_t g2 = 0;
        if (!s.hasError() && !s.finished()) {
          // continue the same block
          FileByteSource* p = &s;
          int64_t base = got;
          readAll(*p, path, off + base, size - base, buf, -1, g2);
          got = base + g2;
        }
        if (!s.hasError()) VMC_CHECK(s.finished() && got == size, "lost", "neither failed nor finished");
      } else {
        readAll(s, path, off, size, buf, stop == 0 ? -1 : stop, got);
      }
      if (stop && !s.hasError()) {
        int64_t adv = pick(std::vector<int64_t>{got, 0, std::min<int64_t>(1, got), got / 2}, "advance");
        s.close();
        if (later) fs::writeFile(path, fs::pattern(real, 3));
        s.advanceOffset(adv);
        off += adv;
        size -= adv;
        VMC_CHECK(s.getOffset() == off && s.getSize() == size, "advance", "after advancing by %ld the block is %ld+%ld", (long)adv, (long)s.getOffset(), (long)s.getSize());
        if (s.open(&ctx) == OK) readAll(s, path, off, size, buf, -1, got);
      }
      bool fits = real >= off + size || size == 0;
      if (s.finished()) VMC_CHECK(got == size, "finished", "finished with %ld of %ld bytes", (long)got, (long)size);
      else VMC_CHECK(s.hasError(), "stuck", "neither finished nor failed");
      if (!later && !fits) VMC_CHECK(!s.finished(), "short-file", "finished although the file is shorter");
      if (fits && !later && fsfault::injected().empty()) VMC_CHECK(s.finished(), "spurious", "failed although the file holds the block");
      outcome(string(s.finished() ? "finished" : "failed") + " " + std::to_string(got));
    }
  }
  VMC_CHECK((int)fs::openFds().size() == (shared ? 1 : 0), "leak", "descriptors: %zu", fs::openFds().size());
  if (shared) ::close(fd);
  fsfault::remove();
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C16";
  c.rule = "One block of one file through the real reader: every listed offset, size, buffer size, direct and buffered mode, own or shared descriptor, file longer or shorter than announced from the start or from the middle of the block, reading in one go or interrupted, advanced and reopened; then every placement of short reads, errors and interruptions within the bounds. Every delivered byte is compared with the file.";
  c.assumptions = {"Direct reads are emulated with alignment checks (512 bytes); short direct reads occur only at the end of the file."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    c.scenarios.push_back(s);
  };
  add("plain", [] { fib::run([] { body(false); }); }, {Bounds(0)}, {Bounds(0)});
  add("faults", [] { fib::run([] { body(true); }); }, {Bounds(1), Bounds(2)}, {Bounds(3), Bounds(4)}, 4);
  return runCheck(c, argc, argv);
}
