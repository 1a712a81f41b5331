// C03: a transfer survives recoverable connection failures
#include "e2ecases.h"
using namespace vmc;
using namespace e2e;
using std::string;
int main(int argc, char** argv) {
  Check c;
  c.property = "C03";
  c.quickBudget = 50;
  c.rule = "every placement of network faults (reset, stall shorter than the retry budget, refused or timed-out connect, short or interrupted reads and writes) over all network operations, combined with thread switches; both sides must report OK with an identical tree";
  std::vector<Case> k;
  auto add = [&](const char* n, Cfg cfg, FaultSet f, std::vector<Bounds> q, std::vector<Bounds> d, double w = 1, bool th = false) {
    Case x;
    x.name = n; x.cfg = std::move(cfg); x.faults = f; x.quick = q; x.deep = d; x.budget = w; x.thoroughOnly = th;
    k.push_back(x);
  };
  add("p1", cfg1(), RECOV, upTo(2, 2), upTo(3, 2), 2);
  add("p1-breaks", cfg1(), RECOV, upTo(2, 2, 0), upTo(3, 3, 0), 1.5);
  add("p2", cfg2(), RECOV, upTo(2, 2), upTo(3, 2), 4);
  add("p3", cfg3(), RECOV, upTo(1), upTo(2));
  add("blocks", cfgBlocks(), RECOV, upTo(1), upTo(2));
  add("long", cfgLong(), RECOV, upTo(1), upTo(2));
  add("many", cfgMany(), RECOV, upTo(1), upTo(2));
  add("checksum", with(cfg2(), checksum()), RECOV, upTo(1), upTo(2));
  add("ctr", with(cfg2(), ctr()), RECOV, upTo(1), upTo(2));
  add("gcm", with(cfg2(), gcm()), RECOV, upTo(1), upTo(2));
  add("gcm-tag", with(cfg2(), gcm(4096)), RECOV, upTo(1), upTo(2));
  add("port-lost-2", cfg2(), PORTDEAD, upTo(2, 1), upTo(3, 1), 2);
  add("port-lost-3", cfg3(), PORTDEAD, upTo(1, 1), upTo(3, 2), 1);
  add("port-lost-blocks", cfgBlocks(), PORTDEAD, upTo(1, 1), upTo(2, 1), 1);
  add("port-lost-many", with(cfg2(), checksum()), PORTDEAD, upTo(1, 1), upTo(2, 1), 1);
  add("port-lost-break", cfg2(), PORTBREAK, upTo(2, 2, 0), upTo(3, 2), 1.5);
  add("port-lost-break-blocks", cfgBlocks(), PORTBREAK, upTo(1, 1), upTo(2, 2), 0.5);
  for (auto& x : cutCases()) {
    int q = x.quick + (x.name == "cut-1"), d = x.deep + (x.name == "cut-1");
    add(x.name.c_str(), x.cfg, x.faults, upTo(q, q, 0), upTo(d, d, 0), x.budget);
  }
  for (int v : {24, 20, 16, 10}) {
    string n = "cut-v" + std::to_string(v);
    add(n.c_str(), oldProto(cfg1(), v), CUTS, upTo(2, 2, 0), upTo(3, 3, 0), 0.5);
    add((n + "-2").c_str(), oldProto(cfg2(), v), CUTS, upTo(2, 2, 0), upTo(3, 3, 0), 0.5);
  }
  addCases(c, k, [](Xfer& x, const Case& k) {
    std::string d = compareDst(k.cfg);
    if (net::deadPorts() >= k.cfg.ports) return;  // nothing left to recover with
    outcome(x.codes() + (d.empty() ? " same" : " diff"));
    bool auth = k.name.find("gcm") != string::npos;
    bool ok = x.S.ok() && x.R.ok() && d.empty();
    // a break inside the closing tag exchange may be reported as an
    // authentication failure by the receiver
    if (auth && d.empty() && (x.R.err == ENCRYPTION_ERROR || x.S.err == ENCRYPTION_ERROR)) ok = true;
    VMC_CHECK(ok, "not-recovered", "transfer with recoverable faults only ended with %s; %s", x.codes().c_str(), d.empty() ? "trees equal" : d.c_str());
  });
  return runCheck(c, argc, argv);
}
