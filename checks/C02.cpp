// C02: every transfer terminates and neither side crashes or deadlocks
#include "e2ecases.h"
using namespace vmc;
using namespace e2e;
int main(int argc, char** argv) {
  Check c;
  c.property = "C02";
  c.rule = "every execution with at most the stated number of thread switches, network faults (permanent ones included), delays and file-system errors; deadlock, fatal check, signal, livelock, leaked descriptor or a virtual duration above the retry budget is a violation";
  std::vector<Case> k;
  auto add = [&](const char* n, Cfg cfg, FaultSet f, std::vector<Bounds> q, std::vector<Bounds> d, double w = 1, bool th = false) {
    Case x;
    x.name = n; x.cfg = std::move(cfg); x.faults = f; x.quick = q; x.deep = d; x.budget = w; x.thoroughOnly = th;
    k.push_back(x);
  };
  add("p1", cfg1(), ALLF, upTo(2), upTo(3), 2);
  add("p2", cfg2(), ALLF, upTo(2), upTo(3), 2);
  add("p2-dead", cfg2(), PORTDEAD, upTo(2), upTo(3), 1);
  add("p3", cfg3(), ALLF, upTo(1), upTo(2));
  add("blocks", cfgBlocks(), ALLF, upTo(1), upTo(2));
  add("gcm", with(cfg2(), gcm(4096)), ALLF, upTo(1), upTo(2));
  add("checksum", with(cfg2(), checksum()), ALLF, upTo(1), upTo(2));
  add("progress", with(cfg2(), progress()), ALLF, upTo(1), upTo(2));
  add("two-phases", with(cfg2(), twoPhases()), ALLF, upTo(1), upTo(2));
  add("delays", cfg2(), NOFAULT, upTo(1), upTo(2));
  k.back().delays = {300 * fib::MS, 2 * fib::SEC, 30 * fib::SEC};
  add("dst-errors", with(cfg2(), synced()), NOFAULT, upTo(1), upTo(2));
  k.back().fsHook = dstFaults();
  add("src-errors", cfg2(), NOFAULT, upTo(1), upTo(2));
  k.back().fsHook = srcFaults();
  add("throttled", with(cfg2(), [](WdtOptions& o) { o.avg_mbytes_per_sec = 0.01; o.max_mbytes_per_sec = 0.02; o.throttler_log_time_millis = 100; }), BREAK, upTo(1), upTo(2));
  add("small-pipe", cfg2(), BREAK, upTo(1), upTo(2));
  k.back().cap = {300, 2000};
  for (auto& x : cutCases()) add(x.name.c_str(), x.cfg, x.faults, upTo(x.quick, x.quick, 0), upTo(x.deep, x.deep, 0), x.budget);
  addCases(c, k, [](Xfer& x, const Case& k) {
    outcome(x.codes());
    int64_t lim = 200 * fib::SEC;
    VMC_CHECK(x.S.done && x.S.endTime <= lim, "sender-slow", "sender took %.1f virtual seconds (%s)", x.S.endTime / 1e9, x.codes().c_str());
    VMC_CHECK(x.R.done && x.R.endTime <= lim, "receiver-slow", "receiver took %.1f virtual seconds (%s)", x.R.endTime / 1e9, x.codes().c_str());
    x.destroy();
    VMC_CHECK(net::openSockets() == 0, "socket-leak", "%d sockets still open after both sides were destroyed", net::openSockets());
    VMC_CHECK(fib::alive() == 1, "thread-leak", "%d threads alive after both sides were destroyed", fib::alive() - 1);
  });
  return runCheck(c, argc, argv);
}
