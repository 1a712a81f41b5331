// C11: chunk bookkeeping against a set-of-bytes model
#include <wdt/Protocol.h>
#include <algorithm>
#include "vmc.h"
using namespace vmc;
using namespace facebook::wdt;
DECLARE_bool(wdt_logging_enabled);

/// one case: ranges (in units), scale, file sizes 0..M
static void one(const std::vector<std::pair<int, int>>& rs, int M, int64_t scale, int64_t base) {
  std::string name = "f";
  FileChunksInfo f(7, name, M * scale + base);
  std::vector<char> cov(M + 1, 0);
  // byte i of the model stands for the range [base+i*scale, base+(i+1)*scale)
  for (auto& r : rs) {
    f.addChunk(Interval(base + r.first * scale, base + r.second * scale));
    for (int i = r.first; i < r.second; ++i) cov[i] = 1;
  }
  f.mergeChunks();
  auto d = [&] {
    std::string s;
    for (auto& r : rs) s += "[" + std::to_string(r.first) + "," + std::to_string(r.second) + ")";
    return s + " x" + std::to_string(scale) + "+" + std::to_string(base);
  };
  // expected maximal ranges; empty input ranges may appear as empty ranges
  // only where they touch nothing
  std::vector<std::pair<int64_t, int64_t>> want, got;
  for (int i = 0; i < M;) {
    if (!cov[i]) { ++i; continue; }
    int j = i;
    while (j < M && cov[j]) ++j;
    want.push_back({base + i * scale, base + j * scale});
    i = j;
  }
  int64_t total = 0;
  int64_t prevEnd = -1;
  for (auto& c : f.getChunks()) {
    VMC_CHECK(c.start_ <= c.end_, "inverted", "%s: inverted chunk", d().c_str());
    VMC_CHECK(c.start_ > prevEnd, "order", "%s: chunk at %ld overlaps, touches or precedes the one before", d().c_str(), (long)c.start_);
    prevEnd = c.end_;
    total += c.size();
    if (c.size() > 0) got.push_back({c.start_, c.end_});
  }
  VMC_CHECK(got == want, "union", "%s: merged ranges are not the union", d().c_str());
  VMC_CHECK(f.getTotalChunkSize() == total, "total", "%s: total %ld instead of %ld", d().c_str(), (long)f.getTotalChunkSize(), (long)total);
  for (int n = 0; n <= M; ++n) {
    // the files size never lies below a received byte: smaller files are sent anew
    bool inside = true;
    for (int i = n; i < M; ++i) inside &= !cov[i];
    for (auto& r : rs) inside &= r.second <= n;
    if (!inside) continue;
    int64_t size = base + n * scale;
    auto rem = f.getRemainingChunks(size);
    std::vector<std::pair<int64_t, int64_t>> w2, g2;
    int64_t cur = 0;
    for (auto& x : want) {
      if (x.first > cur) w2.push_back({cur, x.first});
      cur = x.second;
    }
    if (cur < size) w2.push_back({cur, size});
    for (auto& c : rem) g2.push_back({c.start_, c.end_});
    // an empty received range may split a remaining range, never change its bytes
    std::vector<std::pair<int64_t, int64_t>> g3;
    for (auto& g : g2) {
      VMC_CHECK(g.first < g.second, "empty-remaining", "%s size %ld: empty or inverted remaining range", d().c_str(), (long)size);
      if (!g3.empty() && g3.back().second == g.first) g3.back().second = g.second;
      else g3.push_back(g);
    }
    VMC_CHECK(g3 == w2, "remaining", "%s size %ld: remaining ranges are not the complement", d().c_str(), (long)size);
    int64_t sum = total;
    for (auto& g : g2) sum += g.second - g.first;
    VMC_CHECK(sum == size, "sum", "%s: received and remaining add up to %ld instead of %ld", d().c_str(), (long)sum, (long)size);
    step();
  }
  uint64_t h = M * 31 + scale;
  for (auto& r : rs) h = h * 1000003 + r.first * 97 + r.second;
  state(h);
}
/// all sequences of exactly n ranges within [0,M)
static void ranges(int n, int M, bool empties) {
  std::vector<std::pair<int, int>> all;
  for (int a = 0; a <= M; ++a)
    for (int b = a + (empties ? 0 : 1); b <= M; ++b)
      if (a < b || a <= M) all.push_back({a, b});
  std::vector<std::pair<int, int>> rs;
  for (int i = 0; i < n; ++i) rs.push_back(all[choose(all.size(), INPUT, "range")]);
  one(rs, M, 1, 0);
  one(rs, M, int64_t(1) << 31, 0);
  one(rs, M, (INT64_MAX - 5) / (M + 1), 5);
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C11";
  c.rule = "all sequences of up to n ranges over m positions (including empty, touching, nested and duplicate ones), scaled to small, 2 GB and maximal offsets, all file sizes; compared with a set-of-bytes model";
  for (int n = 0; n <= 3; ++n) c.scenarios.push_back({"m6-n" + std::to_string(n), [n] { ranges(n, 6, true); }});
  c.scenarios.push_back({"m5-n4", [] { ranges(4, 5, false); }});
  Scenario d{"m8-n4", [] { ranges(4, 8, false); }};
  d.thoroughOnly = true;
  c.scenarios.push_back(d);
  Scenario e{"m6-n5", [] { ranges(5, 6, false); }};
  e.thoroughOnly = true;
  e.budget = 4;
  c.scenarios.push_back(e);
  return runCheck(c, argc, argv);
}
