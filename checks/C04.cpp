// C04: transfer reports tell the truth
#include "e2ecases.h"
#include <set>
using namespace vmc;
using namespace e2e;
static void judge(Xfer& x, const Case& k) {
  const Cfg& c = k.cfg;
  fs::Tree dst = fs::snapshot(path(c.dst));
  int64_t total = 0, n = c.files.size();
  std::set<std::string> missing;
  for (auto& f : c.files) {
    total += f.size;
    auto i = dst.find(f.name);
    if (i == dst.end() || i->second != content(c, f)) missing.insert(f.name);
  }
  outcome(x.codes() + " missing=" + std::to_string(missing.size()));
  std::string miss = missing.empty() ? "" : *missing.begin();
  VMC_CHECK(missing.empty() || !x.S.ok(), "sender-ok-missing", "sender reports OK but %s is not complete at the destination (%s)", miss.c_str(), x.codes().c_str());
  VMC_CHECK(missing.empty() || !x.R.ok(), "receiver-ok-missing", "receiver reports OK but %s is not complete at the destination (%s)", miss.c_str(), x.codes().c_str());
  auto& sr = *x.S.report;
  auto& ss = sr.getSummary();
  if (x.S.ok()) {
    VMC_CHECK(sr.getFailedSourceStats().empty(), "ok-with-failed", "sender OK with failed source %s", sr.getFailedSourceStats()[0].getId().c_str());
    VMC_CHECK(sr.getFailedDirectories().empty(), "ok-with-failed-dir", "sender OK with failed directory %s", sr.getFailedDirectories()[0].c_str());
    VMC_CHECK(ss.getNumFiles() == n, "num-files", "sender OK reports %ld files of %ld", (long)ss.getNumFiles(), (long)n);
    VMC_CHECK(sr.getNumDiscoveredFiles() == n, "num-discovered", "sender OK discovered %ld files of %ld", (long)sr.getNumDiscoveredFiles(), (long)n);
    VMC_CHECK(sr.fileDiscoveryFinished(), "discovery", "sender OK though discovery is not finished");
    VMC_CHECK(sr.getTotalFileSize() == total, "total-size", "sender OK total size %ld instead of %ld", (long)sr.getTotalFileSize(), (long)total);
    VMC_CHECK(ss.getEffectiveDataBytes() == total, "sender-bytes", "sender OK effective bytes %ld instead of %ld", (long)ss.getEffectiveDataBytes(), (long)total);
  }
  {
    std::map<std::string, int64_t> per;
    int64_t blocks = 0;
    for (auto& st : sr.getTransferredSourceStats()) {
      per[st.getId()] += st.getEffectiveDataBytes();
      blocks += st.getNumBlocks();
    }
    std::set<std::string> failedIds;
    for (auto& st : sr.getFailedSourceStats()) {
      failedIds.insert(st.getId());
    }
    for (auto& f : c.files) {
      auto i = per.find(f.name);
      if (x.S.ok()) {
        VMC_CHECK(i != per.end(), "source-missing", "sender OK does not list %s as transferred", f.name.c_str());
        VMC_CHECK(i->second == f.size, "source-bytes", "sender OK lists %ld bytes for %s of %ld", (long)i->second, f.name.c_str(), (long)f.size);
      }
      if (i != per.end() && i->second == f.size && !failedIds.count(f.name))
        VMC_CHECK(!missing.count(f.name), "acked-missing", "sender lists %s as transferred and not failed but it is not complete at the destination (%s)", f.name.c_str(), x.codes().c_str());
      if (!x.S.ok() && missing.count(f.name)) {
        bool dirFailed = !sr.getFailedDirectories().empty();
        VMC_CHECK(failedIds.count(f.name) || dirFailed || !sr.fileDiscoveryFinished() || x.S.report->getNumDiscoveredFiles() < n, "failed-not-listed", "%s did not arrive but is not listed as failed (%s)", f.name.c_str(), x.codes().c_str());
      }
    }
    VMC_CHECK(per.size() <= (size_t)n, "extra-source", "sender lists a source that does not exist");
  }
  if (x.R.ok()) {
    auto& rs = x.R.report->getSummary();
    VMC_CHECK(rs.getEffectiveDataBytes() == total, "receiver-bytes", "receiver OK effective bytes %ld instead of %ld", (long)rs.getEffectiveDataBytes(), (long)total);
    VMC_CHECK(rs.getNumBlocksSend() == rs.getNumBlocks(), "receiver-blocks", "receiver OK blocks %ld of %ld", (long)rs.getNumBlocks(), (long)rs.getNumBlocksSend());
    VMC_CHECK(rs.getTotalSenderBytes() == -1 || rs.getTotalSenderBytes() == total, "sender-total", "receiver OK total sender bytes %ld instead of %ld", (long)rs.getTotalSenderBytes(), (long)total);
  }
  // both reports stay the same when asked again
  ErrorCode s2 = x.sender->getTransferReport()->getSummary().getErrorCode();
  (void)s2;
}
int main(int argc, char** argv) {
  Check c;
  c.property = "C04";
  c.quickBudget = 50;
  c.rule = "every execution with at most the stated number of thread switches, network faults and file-system errors on either side; both reports are compared with the source tree and the real destination tree";
  std::vector<Case> k;
  auto add = [&](const char* n, Cfg cfg, FaultSet f, std::vector<Bounds> q, std::vector<Bounds> d, double w = 1, bool th = false) {
    Case x;
    x.name = n; x.cfg = std::move(cfg); x.faults = f; x.quick = q; x.deep = d; x.budget = w; x.thoroughOnly = th;
    k.push_back(x);
    return &k.back();
  };
  add("p1", cfg1(), ALLF, upTo(2), upTo(3), 2);
  add("p1-breaks", cfg1(), BREAK, upTo(2, 2, 0), upTo(3, 3, 0), 1.5);
  add("p2", cfg2(), ALLF, upTo(1), upTo(2));
  add("p2-dead", cfg2(), PORTDEAD, upTo(2), upTo(3));
  add("blocks", cfgBlocks(), ALLF, upTo(1), upTo(2));
  add("checksum", with(cfg2(), checksum()), ALLF, upTo(1), upTo(2));
  add("gcm", with(cfg2(), gcm(4096)), ALLF, upTo(1), upTo(2));
  add("dst-errors", with(cfg2(), synced()), BREAK, upTo(1), upTo(2))->fsHook = dstFaults();
  add("dst-errors-only", with(cfg2(), synced()), NOFAULT, upTo(2, 0, 1), upTo(2))->fsHook = dstFaults();
  add("dst-blocks", cfgBlocks(), NOFAULT, upTo(1), upTo(2))->fsHook = dstFaults();
  add("src-errors", cfg2(), BREAK, upTo(1), upTo(2))->fsHook = srcFaults();
  add("src-errors-only", cfg2(), NOFAULT, upTo(2, 0, 1), upTo(2))->fsHook = srcFaults();
  add("src-blocks", cfgBlocks(), NOFAULT, upTo(1), upTo(2))->fsHook = srcFaults();
  add("noalloc-dst", with(cfg2(), noAlloc()), NOFAULT, upTo(1), upTo(2))->fsHook = dstFaults();
  for (auto& x : cutCases()) add(x.name.c_str(), x.cfg, x.faults, upTo(x.quick, x.quick, 0), upTo(x.deep, x.deep, 0), x.budget);
  addCases(c, k, judge);
  return runCheck(c, argc, argv);
}
