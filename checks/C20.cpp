// C20: the throttler keeps the configured rates and never stalls an idle transfer
#include <wdt/Throttler.h>
#include <cmath>
#include <thread>
#include "e2ecases.h"
using namespace vmc;
using namespace facebook::wdt;
static const double kMs = 1e-3;

struct Rates { double avg, peak, bucket; int64_t single; };
static const std::vector<Rates> kRates{
    {100, 0, 0, 1000}, {100, 120, 0, 1000}, {100, 200, 500, 64}, {-1, 100, 0, 1000}, {-1, 100, 30, 1000}, {-1, -1, 0, 1000}, {100, -1, 0, 30},
    {1e9, 1.2e9, 0, 1 << 20}, {1e12, 1e12, 1e13, 1 << 20}, {1, 1, 1, 1000}, {0.5, 0, 0, 100}, {0, 1000, 0, 1000}, {-1, 1000, 100000, 1000}};
static ThrottlerOptions options(const Rates& r) {
  ThrottlerOptions o;
  o.avg_rate_per_sec = r.avg;
  o.max_rate_per_sec = r.peak;
  o.throttler_bucket_limit = r.bucket;
  o.single_request_limit = r.single;
  return o;
}
/// the documented rates: a peak rate of 0 (or below the average) stands for 1.2 times the average
static Rates effective(Rates r) {
  if (r.peak >= 0 && r.peak < r.avg) r.peak = 1.2 * r.avg;
  return r;
}
static void checkRates(Throttler& t, const Rates& r) {
  Rates e = effective(r);
  VMC_CHECK(t.getAvgRatePerSec() == e.avg && (std::fabs(t.getPeakRatePerSec() - e.peak) <= 1e-9 * e.peak || (e.peak <= 0 && t.getPeakRatePerSec() <= 0)), "configured", "rates %g/%g/%g: the throttler has %g/%g", r.avg, r.peak, r.bucket, t.getAvgRatePerSec(), t.getPeakRatePerSec());
  double b = e.bucket > 0 ? e.bucket : 0.5 * e.peak;
  if (e.peak > 0) VMC_CHECK(std::fabs(t.getBucketLimit() - b) <= 1e-9 * b, "configured-burst", "rates %g/%g/%g: burst of %g", r.avg, r.peak, r.bucket, t.getBucketLimit());
}
/// what was requested and granted since the accounting started
struct Ledger {
  Rates r;
  double limit = 0;  // burst allowance
  double start = 0;
  struct G { double asked, at, bytes; };
  std::vector<G> g;
  double total = 0;
  double tokens = 0, filled = 0;  // exact token bucket with every request taken off
  double biggest = 0;
  int inFlight = 0;  // requests of other threads
  void restart(const Rates& rr, double now) {
    r = rr;
    limit = r.bucket > 0 ? r.bucket : 0.5 * r.peak;
    start = filled = now;
    g.clear();
    total = tokens = biggest = 0;
  }
  bool hasAvg() const { return r.avg > 0; }
  bool hasPeak() const { return r.peak > 0 && (r.avg <= 0 || r.peak >= r.avg); }
  // one token per request is lost or gained by rounding; 1 ms of clock
  double slack() const { return g.size() + 1.0; }
  /// upper bound of the wait a request may need, then takes it
  double need(double now, double bytes) {
    total += bytes;
    biggest = std::max(biggest, bytes);
    double w = 0;
    if (hasAvg()) w = std::max(w, total / r.avg - (now - start));
    if (r.peak > 0) {
      tokens = std::min(limit, tokens + (now - filled) * r.peak);
      filled = now;
      tokens -= bytes;
      w = std::max(w, (-tokens + slack()) / r.peak);
    }
    return w + kMs;
  }
  void grant(double asked, double at, double bytes) {
    g.push_back({asked, at, bytes});
  }
  void judge() {
    std::sort(g.begin(), g.end(), [](const G& a, const G& b) { return a.at < b.at; });
    double sum = 0;
    for (size_t i = 0; i < g.size(); ++i) {
      sum += g[i].bytes;
      double t = g[i].at - start + kMs;
      if (hasAvg()) VMC_CHECK(sum <= r.avg * t + 1e-6 * sum + 1, "average", "%.0f bytes granted %.4f s after the start, average rate %g", sum, t, r.avg);
      if (hasPeak()) {
        VMC_CHECK(sum <= r.peak * t + 1e-6 * sum + slack() + ((hasAvg() ? 1 : 0) + inFlight) * biggest, "peak-start", "%.0f bytes granted %.4f s after the start, peak rate %g", sum, t, r.peak);
        double win = 0;
        for (size_t j = i + 1; j-- > 0;) {
          // everything granted after g[j-1] up to g[i]
          win += g[j].bytes;
          double from = j ? g[j - 1].at : start;
          double w = g[i].at - from + kMs;
          VMC_CHECK(win <= limit + r.peak * w + 1e-6 * win + slack() + ((hasAvg() ? 1 : 0) + inFlight) * biggest, "peak", "%.0f bytes granted within %.4f s, peak rate %g, burst %g", win, w, r.peak, limit);
        }
      }
    }
  }
};
static double now() { return fib::now() * 1e-9; }
static void wait(double s) { if (s > 0) std::this_thread::sleep_for(std::chrono::nanoseconds((int64_t)(s * 1e9))); }
static double unit(const Rates& r) { return std::max(1.0, r.avg > 0 ? r.avg : r.peak > 0 ? r.peak : 100.0); }

/// every sequence of requests, pauses, rate changes and (de)registrations
static void seq(int len, bool changes) {
  e2e::init();
  size_t ri = choose(kRates.size(), INPUT, "rates");
  std::vector<int> ops;
  int nOps = changes ? 11 : 8;
  for (int i = 0; i < len; ++i) ops.push_back(choose(nOps, INPUT, "op"));
  fib::opt.maxTime = (int64_t)4e18;
  fib::run([&] {
    Rates r = kRates[ri];
    Throttler t(options(r));
    checkRates(t, r);
    r = effective(r);
    int refs = 1;
    Ledger l;
    t.startTransfer();
    l.restart(r, now());
    double total = 0;
    int waited = 0;
    for (int op : ops) {
      double u = unit(r);
      if (op < 4) {
        static const double part[] = {0.01, 0.3, 1, 4};
        int64_t n = std::max<int64_t>(1, (int64_t)(part[op] * u));
        if (n > r.single * 50) n = r.single * 50;
        double a = now(), most = 0;
        for (int64_t k = 0; k < n; k += r.single) {
          double x = std::min<int64_t>(r.single, n - k), b = now();
          most = l.need(b, x);
          if (refs > 0) {
            t.limit((int64_t)x);
            total += x;
            double took = now() - b;
            VMC_CHECK(took <= most, "delayed", "a request of %.0f bytes within the limits of %g/%g/%g waited %.4f s, needed at most %.4f", x, r.avg, r.peak, r.bucket, took, most);
            VMC_CHECK(std::isfinite(took) && took >= 0, "wait", "wait %g", took);
            if (took > kMs) ++waited;
            l.grant(b, now(), x);
          }
        }
        (void)a;
        if (refs > 0) VMC_CHECK(std::fabs(t.getProgress() - total) < 0.5, "progress", "progress %.0f, %.0f bytes requested", t.getProgress(), total);
      } else if (op < 8) {
        static const double pause[] = {0.05, 0.5, 3, 100000};
        wait(pause[op - 4]);
      } else if (op == 8) {
        l.judge();
        size_t k = (ri + 1) % kRates.size();
        if (kRates[k].single != r.single) k = ri;
        r = kRates[k];
        int64_t single = kRates[ri].single;
        double a = r.avg, p = r.peak, b = r.bucket;
        t.setThrottlerRates(a, p, b);
        VMC_CHECK(a == r.avg && (p == r.peak || (r.peak >= 0 && r.peak < r.avg)), "set", "rates changed from %g/%g to %g/%g", r.avg, r.peak, a, p);
        r.peak = p;
        r.bucket = b;
        r.single = single;
        VMC_CHECK(p < 0 || a <= 0 || p >= a, "set", "peak rate %g below average rate %g", p, a);
        VMC_CHECK(t.getAvgRatePerSec() == a && t.getPeakRatePerSec() == p && t.getBucketLimit() == b, "set", "rates not taken over");
        l.restart(r, now());
        total = 0;
      } else if (op == 9) {
        t.startTransfer();
        if (refs++ == 0) { l.judge(); l.restart(r, now()); total = 0; }
      } else {
        if (refs) { t.endTransfer(); --refs; }
      }
    }
    l.judge();
    outcome("waits" + std::to_string(waited));
  });
}
/// threads of one or more transfers share a throttler
static void threads() {
  e2e::init();
  static const std::vector<Rates> rates{{100, 0, 0, 1000}, {100, 130, 20, 1000}, {-1, 100, 30, 40}, {100, 120, 0, 25}};
  Rates r = pick(rates, "rates");
  int n = 2 + choose(2, INPUT, "threads");
  int size = pick(std::vector<int>{10, 60, 33}, "size");
  int how = choose(3, INPUT, "how");  // 0 all registered at once, 1 each its own transfer, 2 with a rate change
  fib::opt.delays = {(int64_t)(0.3 * fib::SEC)};
  fib::opt.delayOnlyIo = false;
  fib::run([&] {
    Throttler t(options(r));
    checkRates(t, r);
    r = effective(r);
    Ledger l;
    l.inFlight = n - 1;
    l.restart(r, now());
    bool first = true, changed = false;
    if (how != 1) t.startTransfer();
    std::vector<std::thread> ts;
    double bytes = 0, last = 0;
    int active = 0;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        if (how == 1) {
          t.startTransfer();
          ++active;
          if (first) { first = false; l.restart(r, now()); }
        }
        for (int k = 0; k < 3; ++k)
          for (int x = 0; x < size; x += r.single) {
            double b = now();
            double m = std::min<int64_t>(r.single, size - x);
            t.limit((int64_t)m);
            bytes += m;
            last = now();
            l.biggest = std::max(l.biggest, m);
            if (!changed) l.grant(b, now(), m);
          }
        if (how == 1) {
          if (--active == 0 && i < n - 1) first = true;
          t.endTransfer();
        }
      });
    double changeAt = 0;
    if (how == 2) {
      wait(0.4);
      l.judge();
      changed = true;
      double a = 1000, p = 2000, b = 0;
      t.setThrottlerRates(a, p, b);
      changeAt = now();
    }
    for (auto& x : ts) x.join();
    if (how != 1) t.endTransfer();
    if (how == 0) l.judge();
    if (how == 0) {
      // nobody waits longer than all the data needs (plus the injected delay)
      double most = 0;
      if (r.avg > 0) most = std::max(most, bytes / r.avg);
      if (r.peak > 0) most = std::max(most, (bytes + 3 * n * 10) / r.peak);
      VMC_CHECK(last - l.start <= most + 0.3 * 3 + 0.05, "slow", "%.0f bytes took %.3f s, the limits need %.3f", bytes, last - l.start, most);
    }
    if (how == 2) VMC_CHECK(last - changeAt <= n * size * 3 / 100.0 + 1.5, "slow", "after raising the rates the rest took %.3f s", last - changeAt);
    outcome("done");
  });
}
/// whole transfers through the real sender or receiver
static void transfer(const e2e::Cfg& base, int side) {
  using namespace e2e;
  init();
  Cfg c = base;
  static const std::vector<Rates> rates{{0.02, 0, 0, 0}, {0.02, 0.03, 0.005, 0}, {-1, 0.02, 0.004, 0}};
  Rates r = pick(rates, "rates");
  c.both = [r](WdtOptions& o) { o.buffer_size = 4096; o.read_timeout_millis = o.write_timeout_millis = 5000; };
  OptFn f = [r](WdtOptions& o) { o.avg_mbytes_per_sec = r.avg; o.max_mbytes_per_sec = r.peak; o.throttler_bucket_limit = r.bucket; };
  (side == 0 ? c.sopt : c.ropt) = f;
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  setFaults(NOFAULT);
  fib::run([&] {
    Xfer x(c);
    int64_t t0 = fib::now();
    // the clock of the throttler starts with the transfer
    x.run();
    VMC_CHECK(x.S.ok() && x.R.ok() && compareDst(c).empty(), "transfer", "throttled transfer: %s", x.codes().c_str());
    double bytes = 0;
    for (auto& q : c.files) bytes += q.size;
    double rate = (r.avg > 0 ? r.avg : r.peak) * 1024 * 1024;
    double burst = r.avg > 0 ? 0 : r.bucket * 1024 * 1024;
    double took = ((side == 0 ? x.S : x.R).endTime - t0) * 1e-9;
    VMC_CHECK(took >= (bytes - burst) / rate * 0.99, "too-fast", "%.0f bytes in %.3f s, limit %.0f/s", bytes, took, rate);
    VMC_CHECK(took <= (bytes + 3000) / rate * 1.05 + 0.5, "too-slow", "%.0f bytes in %.3f s, limit %.0f/s", bytes, took, rate);
    outcome(std::to_string((int)(took * 10)));
    x.destroy();
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C20";
  c.rule = "Every sequence of requests of four sizes, pauses from 0.05 s to a day, rate changes and transfer (de)registrations up to the stated length, for each rate configuration, on the real throttler in virtual time; every window of grants is compared with the budgets, every wait with an exact token bucket. All schedules of threads sharing a throttler within the bounds; whole throttled transfers.";
  c.assumptions = {"Rounding of the token count may shift one token per request.", "One request may be in flight per peak window when both limits are set."};
  c.quickBudget = 90;
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1, bool forked = false, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    s.forked = forked;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  add("sequences", [] { seq(6, false); }, {Bounds(0)}, {Bounds(0)}, 2);
  add("changes", [] { seq(5, true); }, {Bounds(0)}, {Bounds(0)});
  add("sequences-long", [] { seq(7, false); }, {Bounds(0)}, {Bounds(0)}, 1, false, true);
  add("changes-long", [] { seq(6, true); }, {Bounds(0)}, {Bounds(0)}, 1, false, true);
  add("threads", threads, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 2);
  add("access-threads", threads, {Bounds(1)}, {Bounds(1), Bounds(2)}, 2);
  auto cfgs = std::make_shared<std::vector<e2e::Cfg>>();
  e2e::Cfg a, b;
  a.files = {{"a", 30000}, {"b", 9000}};
  b.files = {{"a", 20000}, {"b", 9000}, {"c", 9000}};
  b.ports = 2;
  cfgs->push_back(a);
  cfgs->push_back(b);
  c.setup = [cfgs] {
    int k = 0;
    for (auto& x : *cfgs) {
      e2e::shareSource(x, "src" + std::to_string(k++));
      for (auto& f : x.files) e2e::content(x, f);
    }
  };
  add("send-1", [cfgs] { transfer((*cfgs)[0], 0); }, {Bounds(0)}, {Bounds(0), Bounds(1)}, 1, true);
  add("send-2", [cfgs] { transfer((*cfgs)[1], 0); }, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)}, 1, true);
  add("receive-2", [cfgs] { transfer((*cfgs)[1], 1); }, {Bounds(0), Bounds(1)}, {Bounds(0), Bounds(1), Bounds(2)}, 1, true);
  return runCheck(c, argc, argv);
}
