// C01: a transfer reported successful left an identical copy
#include "e2ecases.h"
using namespace vmc;
using namespace e2e;
using std::string;
int main(int argc, char** argv) {
  Check c;
  c.property = "C01";
  c.quickBudget = 50;
  c.rule = "every execution of the real sender and receiver with at most the stated number of deviations (thread switches, network faults) from the default schedule; source and destination trees compared byte for byte whenever a side reports OK";
  std::vector<Case> k;
  auto add = [&](const char* n, Cfg cfg, FaultSet f, int q, int d, double w = 1, bool th = false) {
    Case x;
    x.name = n; x.cfg = std::move(cfg); x.faults = f; x.quick = upTo(q); x.deep = upTo(d); x.budget = w; x.thoroughOnly = th;
    k.push_back(x);
  };
  add("p1", cfg1(), ALLF, 2, 3, 3);
  add("p1-breaks", cfg1(), BREAK, 2, 3, 2);
  k.back().quick = upTo(2, 2, 0);
  k.back().deep = upTo(3, 3, 0);
  add("p2-breaks", cfg2(), BREAK, 2, 3, 2);
  k.back().quick = upTo(2, 2, 0);
  k.back().deep = upTo(3, 3, 0);
  add("p2", cfg2(), ALLF, 1, 2);
  add("p3", cfg3(), ALLF, 1, 2);
  add("blocks", cfgBlocks(), ALLF, 1, 2, 2);
  add("long", cfgLong(), ALLF, 1, 2);
  add("many", cfgMany(), ALLF, 1, 2);
  add("checksum", with(cfg2(), checksum()), ALLF, 1, 2);
  add("ctr", with(cfg1(), ctr()), ALLF, 1, 2);
  add("gcm", with(cfg2(), gcm()), ALLF, 1, 2);
  add("gcm-tag", with(cfg1(), gcm(4096)), ALLF, 1, 2);
  add("synced", with(cfg1(), synced()), ALLF, 1, 2);
  add("noalloc", with(cfg2(), noAlloc()), ALLF, 1, 2);
  add("noblocks", with(cfgBlocks(), noBlocks()), ALLF, 1, 2);
  auto cut = [&](const CutCase& x) {
    add(x.name.c_str(), x.cfg, x.faults, 0, 0, x.budget);
    k.back().quick = upTo(x.quick, x.quick, 0);
    k.back().deep = upTo(x.deep, x.deep, 0);
  };
  for (auto& x : cutCases()) cut(x);
  for (int v : {24, 20, 16, 12, 10}) {
    string n = std::to_string(v);
    cut({"cut-v" + n, oldProto(cfg1(), v), CUTS, 2, 3, 0.5});
    cut({"cut-v" + n + "-2", oldProto(cfg2(), v), CUTDEAD, 2, 3, 0.5});
  }
  auto split = [&](const char* n, Cfg cfg, std::vector<int> mr, std::vector<int> mw, std::vector<int> cap, int q = 0, int d = 1) {
    add(n, cfg, BREAK, q, d);
    k.back().maxRead = mr; k.back().maxWrite = mw; k.back().cap = cap;
  };
  std::vector<int> sizes{0, 1, 2, 7, 31, 100, 255, 256, 257, 258, 300, 511, 512, 700, 1000, 4096};
  std::vector<int> big(sizes.begin() + 3, sizes.end());
  split("split-long", cfgLong(), sizes, {0, 1000}, {0, 300, 3000});
  split("split-many", cfgMany(), big, {0, 1000}, {0, 300, 3000});
  split("split-checksum", with(cfg2(), checksum()), sizes, {0, 1000}, {0, 300, 3000});
  split("split-gcm", with(cfg1s(), gcm(1000)), sizes, {0, 1000}, {0, 300, 3000});
  addCases(c, k, [](Xfer& x, const Case& k) {
    std::string d = compareDst(k.cfg);
    outcome(x.codes() + (d.empty() ? " same" : " diff"));
    if (x.S.ok()) VMC_CHECK(d.empty(), "sender-ok-diff", "sender reported OK but %s (%s)", d.c_str(), x.codes().c_str());
    if (x.R.ok()) VMC_CHECK(d.empty(), "receiver-ok-diff", "receiver reported OK but %s (%s)", d.c_str(), x.codes().c_str());
  });
  return runCheck(c, argc, argv);
}
