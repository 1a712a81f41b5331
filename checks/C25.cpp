// C25: performance statistics count every sample once and merge losslessly
#include <wdt/Reporting.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/Stats.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include "fib.h"
#include "vmc.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

typedef std::vector<int64_t> Samples;
static string str(const Samples& s) {
  string r;
  for (auto v : s) r += std::to_string(v) + " ";
  return "[" + r + "]";
}
/// the reference: what one can say about a list of samples
struct Ref {
  Samples v;
  int64_t sum() const { int64_t s = 0; for (auto x : v) s += x; return s; }
  int64_t max() const { return v.empty() ? 0 : *std::max_element(v.begin(), v.end()); }
  int64_t least() const { return v.empty() ? 0 : *std::min_element(v.begin(), v.end()); }
  int64_t min() const {  // zeros do not count
    int64_t m = 0;
    bool any = false;
    for (auto x : v) if (x && (!any || x < m)) { m = x; any = true; }
    return m;
  }
  /// variance, if the counter can hold the squares (documented limit)
  bool variance(double& var, double& tol) const {
    __int128 sq = 0;
    int64_t s = sum();
    for (auto x : v) {
      if (x > INT32_MAX || x < INT32_MIN) return false;
      sq += (__int128)x * x;
    }
    if (sq > INT64_MAX || s > INT32_MAX || s < INT32_MIN || v.empty()) return false;
    long double n = v.size(), m = (long double)s / n, t = 0;
    for (auto x : v) t += (x - m) * (x - m);
    var = t / n;
    tol = 1.0 / n + 1e-12 * (double)sq + 1e-9;
    return true;
  }
};
static bool near(double a, double b, double rel) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }

static std::vector<double> numbers(const string& s) {
  std::vector<double> r;
  std::stringstream ss(s);
  string f;
  while (std::getline(ss, f, ',')) r.push_back(strtod(f.c_str(), nullptr));
  return r;
}
static void checkCounter(const Counter& c, const Ref& r, const string& what, bool printing = true) {
  VMC_CHECK(c.getCount() == (int64_t)r.v.size(), "count", "%s: count %ld instead of %zu", what.c_str(), (long)c.getCount(), r.v.size());
  VMC_CHECK(c.getSum() == r.sum(), "sum", "%s: sum %ld instead of %ld", what.c_str(), (long)c.getSum(), (long)r.sum());
  VMC_CHECK(c.getMin() == r.min(), "min", "%s: minimum %ld instead of %ld", what.c_str(), (long)c.getMin(), (long)r.min());
  VMC_CHECK(c.getRealMin() == r.least(), "real-min", "%s: real minimum %ld instead of %ld", what.c_str(), (long)c.getRealMin(), (long)r.least());
  VMC_CHECK(c.getMax() == r.max(), "max", "%s: maximum %ld instead of %ld", what.c_str(), (long)c.getMax(), (long)r.max());
  double avg = r.v.empty() ? NAN : (double)((long double)r.sum() / r.v.size());
  VMC_CHECK(near(c.getAverage(), avg, 1e-12), "average", "%s: average %g instead of %g", what.c_str(), c.getAverage(), avg);
  double var, tol;
  bool hasVar = r.variance(var, tol);
  if (hasVar) VMC_CHECK(std::fabs(c.getStdDev() * c.getStdDev() - var) <= tol, "stddev", "%s: variance %g instead of %g", what.c_str(), c.getStdDev() * c.getStdDev(), var);
  if (r.v.empty()) VMC_CHECK(c.getStdDev() == 0, "stddev", "%s: deviation of nothing is %g", what.c_str(), c.getStdDev());
  if (!printing) return;
  for (double scale : {1.0, 10.0, 0.1, -2.0}) {
    std::ostringstream o;
    c.print(o, scale);
    auto n = numbers(o.str());
    VMC_CHECK(n.size() == 5, "print", "%s: printed as %s", what.c_str(), o.str().c_str());
    double rel = 1e-5;
    VMC_CHECK(n[0] == (double)r.v.size() && near(n[1], scale * avg, rel) && near(n[2], scale * r.min(), rel) && near(n[3], scale * r.max(), rel) && near(n[4], scale * c.getStdDev(), rel), "print",
              "%s: scaled by %g printed as %s", what.c_str(), scale, o.str().c_str());
  }
  step();
}
static const Samples kValues{0, 1, -1, -7, 5, INT32_MAX, INT32_MIN, int64_t(INT32_MAX) + 1, 1000000000000};
static Samples pickSamples(const Samples& from, int n) {
  Samples s;
  for (int i = 0; i < n; ++i) s.push_back(from[choose((int)from.size(), INPUT, "sample")]);
  return s;
}
static void counter(int n) {
  Samples s = pickSamples(kValues, n);
  bool reset = flip(INPUT, "used before");
  Counter c;
  if (reset) {
    for (auto v : {-9, 3, 100}) c.record(v);
    c.reset();
  }
  Ref r;
  checkCounter(c, r, reset ? "reset counter" : "new counter");
  for (auto v : s) {
    c.record(v);
    r.v.push_back(v);
    checkCounter(c, r, (reset ? "reset, " : "") + str(r.v));
  }
  state(hash(str(s)));
}
// ---- histograms
static const std::vector<int64_t>& edges() {  // as documented: semi-logarithmic
  static std::vector<int64_t> b{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120, 140, 160, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000,
                                2000, 3000, 4000, 5000, 7500, 10000, 20000, 30000, 40000, 50000, 75000, 100000};
  return b;
}
struct Layout { int32_t scale; int64_t offset; };
static const std::vector<Layout> kLayouts{{1, 0}, {2, 0}, {7, 5}, {100, 7000}, {1, -3}, {10, 10000000000}, {1000, -500}};
static int64_t lowEdge(const Layout& l, size_t i) { return edges()[i - 1] * l.scale + l.offset; }
static size_t bucketOf(const Layout& l, int64_t v) {
  size_t i = 0;
  while (i < edges().size() && v >= lowEdge(l, i + 1)) ++i;
  return i;
}
static void checkPercentiles(const Histogram& h, const Layout& l, const Ref& r, const string& what) {
  if (r.v.empty()) return;
  Samples s = r.v;
  std::sort(s.begin(), s.end());
  VMC_CHECK(h.calcPercentile(0) == s.front() && h.calcPercentile(-3) == s.front(), "percentile-0", "%s: percentile 0 is %g", what.c_str(), h.calcPercentile(0));
  VMC_CHECK(h.calcPercentile(100) == s.back() && h.calcPercentile(101) == s.back(), "percentile-100", "%s: percentile 100 is %g", what.c_str(), h.calcPercentile(100));
  double last = s.front();
  for (double p : {0.01, 1.0, 10.0, 33.3, 50.0, 66.7, 75.0, 85.0, 99.0, 99.9}) {
    double got = h.calcPercentile(p);
    // the bucket in which the share of samples reaches p (either one when it
    // is reached within the rounding of the division)
    bool ok = false;
    double lo = 0, hi = 0;
    for (double q : {p - 1e-9, p + 1e-9}) {
      size_t k = 0;
      while (k + 1 < s.size() && 100.0L * (k + 1) / s.size() < q) ++k;
      size_t b = bucketOf(l, s[k]);
      lo = s.front();
      hi = s.back();
      if (b > 0) lo = std::max<double>(lo, lowEdge(l, b));
      if (b < edges().size()) hi = std::min<double>(hi, lowEdge(l, b + 1));
      double eps = 1e-9 * std::max(std::fabs(lo), std::fabs(hi)) + 1e-9;
      ok |= got >= lo - eps && got <= hi + eps;
    }
    VMC_CHECK(ok, "percentile", "%s (scale %d, offset %ld): percentile %g is %.6f, not in [%g,%g]", what.c_str(), l.scale, (long)l.offset, p, got, lo, hi);
    VMC_CHECK(got >= last - 1e-9 * std::fabs(last) - 1e-9, "monotone", "%s: percentile %g (%g) is below a lower one (%g)", what.c_str(), p, got, last);
    last = got;
  }
}
static void checkPrint(const Histogram& h, const Layout& l, const Ref& r, double p1, double p2, const string& what) {
  std::ostringstream o;
  h.print(o);
  string t = o.str();
  if (r.v.empty()) {
    VMC_CHECK(t == "no data\n", "print-empty", "%s: an empty histogram prints as %s", what.c_str(), t.c_str());
    return;
  }
  std::map<size_t, int64_t> want;
  size_t lastB = 0;
  for (auto v : r.v) {
    size_t b = bucketOf(l, v);
    want[b]++;
    lastB = std::max(lastB, b);
  }
  std::stringstream ss(t);
  string line;
  std::vector<string> rows, targets, head;
  while (std::getline(ss, line)) (line.rfind("# target", 0) == 0 ? targets : line[0] == '#' ? head : rows).push_back(line);
  VMC_CHECK(head.size() == 2 && targets.size() == 2 && rows.size() == lastB + 1, "print-shape", "%s: printed as\n%s", what.c_str(), t.c_str());
  std::ostringstream base;
  h.Counter::print(base);
  VMC_CHECK(head[0] == "# count,avg,min,max,stddev," + base.str(), "print-head", "%s: %s", what.c_str(), head[0].c_str());
  int64_t cum = 0;
  for (size_t i = 0; i < rows.size(); ++i) {
    int64_t n = want.count(i) ? want[i] : 0;
    cum += n;
    string range;
    if (i > 0) range += ">= " + std::to_string(lowEdge(l, i)) + " ";
    if (i < edges().size()) range += "< " + std::to_string(lowEdge(l, i + 1)) + " ";
    VMC_CHECK(rows[i].rfind(range + ",", 0) == 0, "print-range", "%s: row %zu is '%s', expected range '%s'", what.c_str(), i, rows[i].c_str(), range.c_str());
    auto f = numbers(rows[i]);
    VMC_CHECK(f.size() == 4 && f[3] == (double)n, "bucket", "%s: row '%s' should count %ld", what.c_str(), rows[i].c_str(), (long)n);
    VMC_CHECK(near(f[2], 100.0 * cum / r.v.size(), 1e-4), "print-percent", "%s: row '%s' should say %g%%", what.c_str(), rows[i].c_str(), 100.0 * cum / r.v.size());
    // the mid point lies in the printed range
    double lo = i ? lowEdge(l, i) : (double)l.offset, hi = i < edges().size() ? lowEdge(l, i + 1) : lo;
    double eps = 1e-4 * std::max(std::fabs(lo), std::fabs(hi));
    VMC_CHECK(f[1] >= lo - eps && f[1] <= hi + eps, "mid-point", "%s: row '%s': the mid point is outside [%g,%g]", what.c_str(), rows[i].c_str(), lo, hi);
  }
  for (int i = 0; i < 2; ++i) {
    double p = i ? p2 : p1;
    char want[40];
    snprintf(want, sizeof want, "# target %.1f%%,%.1f", p, h.calcPercentile(p));
    VMC_CHECK(targets[i] == want, "print-target", "%s: '%s' instead of '%s'", what.c_str(), targets[i].c_str(), want);
  }
  step();
}
static Samples around(const Layout& l, bool many) {
  // values at and next to edges of interest, below the offset, negative, beyond
  Samples s{l.offset, l.offset - 1, l.offset + l.scale - 1, -5, 0};
  std::vector<size_t> at = many ? std::vector<size_t>{1, 2, 11, 12, 16, 27, 44, edges().size()} : std::vector<size_t>{1, 12, edges().size()};
  for (auto i : at) {
    s.push_back(lowEdge(l, i));
    s.push_back(lowEdge(l, i) - 1);
  }
  s.push_back(lowEdge(l, edges().size()) * 3 + 1);
  if (many) {
    s.push_back(l.offset + (int64_t(1) << 31) - 1);
    s.push_back(l.offset + (int64_t(1) << 31));
    s.push_back(l.offset + (int64_t(1) << 31) * l.scale + (int64_t(1) << 33));
    s.push_back(l.offset - (int64_t(1) << 33));
  }
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  return s;
}
/// every edge of every layout, one sample
static void everyEdge() {
  const Layout& l = pick(kLayouts, "layout");
  for (size_t i = 1; i <= edges().size(); ++i)
    for (int d : {-1, 0, 1}) {
      Histogram h(l.scale, 50, 99, l.offset);
      Ref r;
      r.v.push_back(lowEdge(l, i) + d);
      h.record(r.v[0]);
      checkCounter(h, r, str(r.v), false);
      checkPrint(h, l, r, 50, 99, str(r.v));
      checkPercentiles(h, l, r, str(r.v));
    }
  state(l.scale * 100 + l.offset);
}
static void histogram(int n, bool many) {
  const Layout& l = pick(kLayouts, "layout");
  bool reset = flip(INPUT, "used before");
  Samples s = pickSamples(around(l, many), n);
  double p1 = 85, p2 = 99.9;
  Histogram h(l.scale, p1, p2, l.offset);
  if (reset) {
    for (int64_t v : {-9, 3, 100000}) h.record(v + l.offset);
    h.reset();
    h.setPercentile1(p1 = 10);
    h.setPercentile2(p2 = 50);
  }
  Ref r;
  for (auto v : s) {
    h.record(v);
    r.v.push_back(v);
  }
  string what = (reset ? "reset, " : "") + str(s);
  checkCounter(h, r, what, false);
  checkPrint(h, l, r, p1, p2, what);
  checkPercentiles(h, l, r, what);
  state(hash(what) + l.scale);
}
// ---- merging
/// collections a, b, c get some of the samples each and are merged in one of
/// the ways there are; some have been used and reset before
template <class C, class Make, class Verify>
static void merging(const Samples& values, int n, Make make, Verify verify) {
  Samples s = pickSamples(values, n);
  std::vector<std::unique_ptr<C>> c;
  Ref part[3], all;
  for (int i = 0; i < 3; ++i) {
    c.push_back(make());
    if (i < 2 && flip(INPUT, "used before")) {
      for (auto v : {-9, 3, 1000}) c[i]->record(v);
      c[i]->reset();
    }
  }
  string what;
  for (auto v : s) {
    int k = choose(3, INPUT, "collection");
    c[k]->record(v);
    part[k].v.push_back(v);
    all.v.push_back(v);
    what += "c" + std::to_string(k) + "<-" + std::to_string(v) + " ";
  }
  int tree = choose(3, INPUT, "merge tree");
  what += std::vector<string>{"(c0+c1)+c2", "c0+(c1+c2)", "c2+(c1+c0)"}[tree];
  int to = 0;
  if (tree == 0) { c[0]->merge(*c[1]); c[0]->merge(*c[2]); }
  if (tree == 1) { c[1]->merge(*c[2]); c[0]->merge(*c[1]); }
  if (tree == 2) { c[1]->merge(*c[0]); c[2]->merge(*c[1]); to = 2; }
  verify(*c[to], all, what);
  // the source of a merge is not changed
  if (tree == 0) verify(*c[2], part[2], what + ": source");
  // recording goes on
  c[to]->record(-100);
  all.v.push_back(-100);
  verify(*c[to], all, what + " <- -100");
  c[to]->record(2000);
  all.v.push_back(2000);
  verify(*c[to], all, what + " <- 2000");
  state(hash(what));
}
static void mergeCounters(int n) {
  merging<Counter>({0, 3, -7, 5, INT32_MAX}, n, [] { return std::make_unique<Counter>(); }, [](const Counter& c, const Ref& r, const string& w) { checkCounter(c, r, w, false); });
}
static void mergeHistograms(int n) {
  const Layout& l = pick(kLayouts, "layout");
  merging<Histogram>(around(l, false), n, [&] { return std::make_unique<Histogram>(l.scale, 50, 90, l.offset); },
                     [&](const Histogram& h, const Ref& r, const string& w) {
                       checkCounter(h, r, w, false);
                       checkPrint(h, l, r, 50, 90, w);
                       checkPercentiles(h, l, r, w);
                       // the same text as one that recorded everything
                       Histogram one(l.scale, 50, 90, l.offset);
                       for (auto v : r.v) one.record(v);
                       std::ostringstream a, b;
                       h.print(a);
                       one.print(b);
                       VMC_CHECK(a.str() == b.str(), "merge-print", "%s:\n%s\ninstead of\n%s", w.c_str(), a.str().c_str(), b.str().c_str());
                     });
}
// ---- thread-local collections
// every sample is a different power of 4: the sum of a collection names the
// samples it holds
struct Tally {
  std::map<int64_t, int> seen;
  int64_t n = 0;
  template <class C> void take(const C& c, const string& w) {
    n += c.getCount();
    int64_t s = c.getSum(), k = 0, lo = 0, hi = 0;
    for (int64_t p = 1; p <= s; p *= 4)
      if (int d = (s / p) % 4) {
        seen[p] += d;
        k += d;
        if (!lo) lo = p;
        hi = p;
      }
    VMC_CHECK(c.getCount() == k, "collection", "%s: a collection of %ld samples has the sum %ld", w.c_str(), (long)c.getCount(), (long)s);
    VMC_CHECK(!k || (c.getMin() == lo && c.getMax() == hi && c.getRealMin() == lo), "collection-extremes", "%s: a collection with sum %ld has min %ld and max %ld", w.c_str(), (long)s, (long)c.getMin(), (long)c.getMax());
    note("%s: %ld samples, sum %ld", w.c_str(), (long)c.getCount(), (long)s);
  }
  void final(int64_t total) {
    for (int64_t i = 0, p = 1; i < total; ++i, p *= 4)
      VMC_CHECK(seen[p] == 1, seen[p] ? "twice" : "lost", "the sample %ld is in %d collections", (long)p, seen[p]);
    VMC_CHECK(n == total, "total", "%ld samples were collected, %ld were recorded", (long)n, (long)total);
  }
};
template <class N> static void recorder(N& node, int64_t first, int n, int64_t pause, bool* done = nullptr) {
  for (int i = 0; i < n; ++i, first *= 4) {
    if (pause) usleep(pause);
    node.record(first);
  }
}
static void useHist(const Histogram& h, int32_t scale) {
  if (!h.getCount()) return;
  std::ostringstream o;
  h.print(o);
  // the rows add up
  int64_t rows = 0;
  std::stringstream ss(o.str());
  string line;
  while (std::getline(ss, line)) if (line[0] != '#') rows += (int64_t)numbers(line).back();
  VMC_CHECK(rows == h.getCount(), "rows", "%ld samples, the buckets hold %ld", (long)h.getCount(), (long)rows);
  double p = h.calcPercentile(50);
  VMC_CHECK(p >= h.getRealMin() && p <= h.getMax(), "percentile-range", "percentile 50 of a collection is %g, its samples lie in [%ld,%ld]", p, (long)h.getRealMin(), (long)h.getMax());
  (void)scale;
}
/// recorders and someone who collects by hand
template <class N, class C, class Param> static void threadLocal(int recorders, int perThread, int reads, Param param) {
  int64_t pause = choose(3, INPUT, "pause of the recorders") * 5;
  int64_t wait = choose(2, INPUT, "pause of the collector") * 5;
  bool collectorRecords = flip(INPUT, "the collector records, too");
  fib::run([&] {
    N node(param);
    Tally t;
    int64_t first = 1, total = 0;
    std::vector<std::thread> ts;
    for (int r = 0; r < recorders; ++r) {
      ts.emplace_back([&node, first, perThread, pause] { recorder(node, first, perThread, pause); });
      for (int i = 0; i < perThread; ++i, ++total) first *= 4;
    }
    for (int i = 0; i < reads; ++i) {
      if (wait) usleep(wait);
      C m(param);
      node.readAndReset(m, true);
      t.take(m, "collection " + std::to_string(i));
      if constexpr (std::is_same_v<C, Histogram>) useHist(m, param);
      if (collectorRecords) { node.record(first); first *= 4; ++total; }
    }
    for (auto& x : ts) x.join();
    // what is left lies in the two halves
    for (int i = 0; i < 2; ++i) {
      C m(param);
      node.readAndReset(m);
      t.take(m, "last collection");
      if constexpr (std::is_same_v<C, Histogram>) useHist(m, param);
    }
    t.final(total);
    outcome(std::to_string(total));
  });
}
/// the periodic collector with two nodes
static void periodic(int recorders, int perThread) {
  int64_t pause = std::vector<int64_t>{0, 333, 500, 1000, 1100}[choose(5, INPUT, "pause of the recorders")];
  int64_t stay = std::vector<int64_t>{0, 1000, 2050, 2500}[choose(4, INPUT, "life after the last sample")];
  int32_t scale = choose(2, INPUT, "scale") ? 100 : 1;
  fib::run([&] {
    Tally tc, th;
    int64_t total = 0, calls = 0;
    {
      ThreadLocalCounter counter(1.0, [&](const Counter& c) { tc.take(c, "periodic counter"); ++calls; });
      Layout l{scale, 0};
      ThreadLocalHistogram hist(scale, [&](const Histogram& h) {
        th.take(h, "periodic histogram");
        if (!h.getCount()) return;
        // the samples are known from the sum: buckets and percentiles
        Ref r;
        for (int64_t p = 1; p <= h.getSum(); p *= 4) for (int d = (h.getSum() / p) % 4; d > 0; --d) r.v.push_back(p);
        checkPrint(h, l, r, 85, 99.9, "periodic histogram " + str(r.v));
        checkPercentiles(h, l, r, "periodic histogram " + str(r.v));
      });
      PeriodicCounters pc({&counter, &hist});
      VMC_CHECK(pc.schedule(0.001), "schedule", "the collector does not start");
      int64_t first = 1;
      std::vector<std::thread> ts;
      for (int r = 0; r < recorders; ++r) {
        ts.emplace_back([&, first] {
          recorder(counter, first, perThread, pause);
          recorder(hist, first, perThread, pause);
        });
        for (int i = 0; i < perThread; ++i, ++total) first *= 4;
      }
      for (auto& x : ts) x.join();
      if (stay) usleep(stay);
    }
    tc.final(total);
    th.final(total);
    VMC_CHECK(stay < 2000 || calls >= 2, "period", "the callback ran %ld times", (long)calls);
    outcome(std::to_string(calls));
  });
}
// ---- the per-system-call report
static const std::vector<PerfStatReport::StatType> kTypes{PerfStatReport::SOCKET_READ, PerfStatReport::SOCKET_WRITE, PerfStatReport::FADVISE};
static const std::vector<string> kTypeNames{"Socket Read", "Socket Write", "Fadvise"};
struct Add { int type; int64_t micros; int times; };
static void checkReport(const PerfStatReport& rep, const std::vector<Add>& adds, const string& what) {
  std::ostringstream o;
  o << rep;
  std::vector<string> lines;
  std::stringstream ss(o.str());
  string line;
  while (std::getline(ss, line)) lines.push_back(line);
  for (size_t t = 0; t < kTypes.size(); ++t) {
    Samples v;
    for (auto& a : adds) if (a.type == (int)t) for (int i = 0; i < a.times; ++i) v.push_back(a.micros);
    std::sort(v.begin(), v.end());
    size_t k = 0;
    string tag = kTypeNames[t] + " : Ncalls ";
    while (k < lines.size() && lines[k].find(tag) == string::npos) ++k;
    if (v.empty()) {
      VMC_CHECK(k == lines.size(), "report-none", "%s: %s has no calls but is printed", what.c_str(), kTypeNames[t].c_str());
      continue;
    }
    VMC_CHECK(k < lines.size(), "report-missing", "%s: %s is missing in\n%s", what.c_str(), kTypeNames[t].c_str(), o.str().c_str());
    string l = lines[k].substr(lines[k].find(tag));
    auto field = [&](const char* name) { size_t p = l.find(name); return p == string::npos ? NAN : strtod(l.c_str() + p + strlen(name), nullptr); };
    int64_t sum = 0;
    for (auto x : v) sum += x;
    double ms = 1000;
    VMC_CHECK(field("Ncalls ") == (double)v.size(), "report-count", "%s: %s", what.c_str(), l.c_str());
    VMC_CHECK(std::fabs(field(" sum ") - sum / ms) <= 0.0051, "report-sum", "%s: %s, the sum is %g", what.c_str(), l.c_str(), sum / ms);
    VMC_CHECK(std::fabs(field(" Min ") - v.front() / ms) <= 0.0051, "report-min", "%s: %s, the minimum is %g", what.c_str(), l.c_str(), v.front() / ms);
    VMC_CHECK(std::fabs(field(" Max ") - v.back() / ms) <= 0.0051, "report-max", "%s: %s, the maximum is %g", what.c_str(), l.c_str(), v.back() / ms);
    VMC_CHECK(std::fabs(field(" Avg ") - sum / ms / v.size()) <= 0.0051, "report-avg", "%s: %s, the average is %g", what.c_str(), l.c_str(), sum / ms / v.size());
    for (int p : {50, 95, 99}) {
      // the call with this rank (rounded down; none when there is no such call)
      string name = "p" + std::to_string(p) + " ";
      size_t rank = v.size() * p / 100;
      double got = field(name.c_str());
      VMC_CHECK(l.find(name) == string::npos || l.find(name) == l.rfind(name), "report-percentile", "%s: %s: p%d is printed twice", what.c_str(), l.c_str(), p);
      if (!rank) continue;
      bool edge = v.size() * p % 100 == 0;  // rounding of the product
      auto at = [&](size_t r) { return (double)(v[r - 1] / 1000); };
      VMC_CHECK(got == at(rank) || (edge && rank > 1 && got == at(rank - 1)), "report-percentile", "%s: %s: p%d should be %g", what.c_str(), l.c_str(), p, at(rank));
    }
    std::map<int64_t, int64_t> want, got;  // lower edge -> calls
    for (auto x : v) {
      int64_t m = x / 1000, lo = 0;
      for (auto e : edges()) if (m >= e) lo = e;
      want[lo]++;
    }
    for (++k; k < lines.size() && lines[k].find("Ncalls") == string::npos; ++k) {
      size_t b = lines[k].find('['), a = lines[k].find("--> ");
      if (a == string::npos) continue;
      b = lines[k].rfind('[', a);
      long lo, hi, n;
      VMC_CHECK(sscanf(lines[k].c_str() + b, "[%ld, %ld) --> %ld", &lo, &hi, &n) == 3, "report-row", "%s: %s", what.c_str(), lines[k].c_str());
      VMC_CHECK(!got.count(lo), "report-row", "%s: two rows for %ld", what.c_str(), lo);
      got[lo] = n;
      auto e = std::upper_bound(edges().begin(), edges().end(), lo);
      VMC_CHECK(hi == (e == edges().end() ? INT64_MAX : *e), "report-range", "%s: %s", what.c_str(), lines[k].c_str());
    }
    VMC_CHECK(got == want, "report-buckets", "%s: the rows are wrong:\n%s", what.c_str(), o.str().c_str());
  }
  step();
}
static const std::vector<int64_t> kMicros{0, 999, 1000, 1999, 11000, 13999, 100000000, 99999999, 1};
static void report(int n) {
  WdtOptions opts;
  // one or two reports added up
  int parts = 1 + choose(2, INPUT, "reports");
  std::vector<std::unique_ptr<PerfStatReport>> reps;
  for (int i = 0; i < parts; ++i) reps.push_back(std::make_unique<PerfStatReport>(opts));
  std::vector<Add> adds, first;
  string what;
  for (int i = 0; i < n; ++i) {
    Add a;
    a.type = choose((int)kTypes.size(), INPUT, "type");
    a.micros = kMicros[choose((int)kMicros.size(), INPUT, "time")];
    a.times = std::vector<int>{1, 19, 80}[choose(3, INPUT, "times")];
    int k = choose(parts, INPUT, "report");
    for (int j = 0; j < a.times; ++j) reps[k]->addPerfStat(kTypes[a.type], a.micros);
    adds.push_back(a);
    if (k == 1) first.push_back(a);
    what += "r" + std::to_string(k) + "<-" + kTypeNames[a.type] + " " + std::to_string(a.micros) + "us x" + std::to_string(a.times) + " ";
  }
  if (parts == 2) {
    *reps[0] += *reps[1];
    checkReport(*reps[1], first, what + "(added)");
  }
  checkReport(*reps[0], adds, what);
  state(hash(what));
}
/// reports of threads are added up while the threads go on
static void reportThreads(int recorders, int per) {
  WdtOptions opts;
  fib::run([&] {
    PerfStatReport shared(opts), total(opts);
    std::vector<Add> all;
    std::vector<std::thread> ts;
    for (int r = 0; r < recorders; ++r) {
      for (int i = 0; i < per; ++i) all.push_back({r % 2, (r * per + i + 1) * 1000, 1});
      ts.emplace_back([&, r] { for (int i = 0; i < per; ++i) shared.addPerfStat(kTypes[r % 2], (r * per + i + 1) * 1000); });
    }
    {
      // a report taken in between holds the sum of what it counts
      PerfStatReport snap(opts);
      snap += shared;
      std::ostringstream o;
      o << snap;
      string s = o.str();
      int64_t calls = 0, rows = 0;
      for (size_t p = 0; (p = s.find("Ncalls ", p)) != string::npos; ++p) calls += atol(s.c_str() + p + 7);
      for (size_t p = 0; (p = s.find("--> ", p)) != string::npos; ++p) rows += atol(s.c_str() + p + 4);
      VMC_CHECK(calls == rows, "torn", "a report taken while threads record counts %ld calls in total and %ld in its rows", (long)calls, (long)rows);
      outcome(std::to_string(calls));
    }
    for (auto& t : ts) t.join();
    total += shared;
    checkReport(shared, all, "threads");
    checkReport(total, all, "threads, added");
  });
}
// ---- transfer statistics
static const std::vector<ErrorCode> kErrs{OK, ERROR, ABORT, SOCKET_READ_ERROR};
static void transferStats(int n) {
  TransferStats total(flip(INPUT, "locked"));
  int64_t h = 0, d = 0, eh = 0, ed = 0, files = 0, blocks = 0, failed = 0, sent = -1, bytes = -1;
  bool mismatch = false, bad = false, badRemote = false;
  string what;
  for (int i = 0; i < n; ++i) {
    TransferStats s(flip(INPUT, "locked"));
    int k = choose(3, INPUT, "traffic");
    s.addHeaderBytes(k * 10 + i);
    s.addDataBytes(k * 100);
    h += k * 10 + i;
    d += k * 100;
    if (k == 2) {
      s.addEffectiveBytes(5 + i, 200);
      eh += 5 + i;
      ed += 200;
      s.incrNumBlocks();
      s.incrNumBlocks();
      blocks += 2;
      s.setNumFiles(3);
      files += 3;
    }
    if (k == 1) { s.incrFailedAttempts(); ++failed; }
    int told = choose(3, INPUT, "told by the sender");
    if (told) {
      int64_t b = told, t = 1000 * told;
      s.setNumBlocksSend(b);
      s.setTotalSenderBytes(t);
      if (sent == -1) { sent = b; bytes = t; }
      else if (sent != b) mismatch = true;
    }
    auto e = pick(kErrs, "error");
    s.setLocalErrorCode(e);
    bad |= e != OK;
    auto e2 = pick(kErrs, "remote error");
    s.setRemoteErrorCode(e2);
    badRemote |= e2 != OK;
    what += std::to_string(k) + "/" + std::to_string(told) + "/" + std::to_string(e) + "/" + std::to_string(e2) + " ";
    total += s;
    // adding does not change what is added
    VMC_CHECK(s.getHeaderBytes() == k * 10 + i && s.getLocalErrorCode() == e, "added", "%s", what.c_str());
  }
  VMC_CHECK(total.getHeaderBytes() == h && total.getDataBytes() == d && total.getTotalBytes() == h + d, "traffic", "%s: %ld header and %ld data bytes instead of %ld and %ld", what.c_str(), (long)total.getHeaderBytes(), (long)total.getDataBytes(), (long)h, (long)d);
  VMC_CHECK(total.getEffectiveHeaderBytes() == eh && total.getEffectiveDataBytes() == ed && total.getEffectiveTotalBytes() == eh + ed, "effective", "%s: effective bytes %ld/%ld instead of %ld/%ld", what.c_str(), (long)total.getEffectiveHeaderBytes(), (long)total.getEffectiveDataBytes(), (long)eh, (long)ed);
  VMC_CHECK(total.getNumFiles() == files && total.getNumBlocks() == blocks && total.getFailedAttempts() == failed, "numbers", "%s: %ld files, %ld blocks, %ld failures", what.c_str(), (long)total.getNumFiles(), (long)total.getNumBlocks(), (long)total.getFailedAttempts());
  VMC_CHECK(total.getNumBlocksSend() == sent && total.getTotalSenderBytes() == bytes, "told", "%s: told %ld blocks, %ld bytes", what.c_str(), (long)total.getNumBlocksSend(), (long)total.getTotalSenderBytes());
  VMC_CHECK((total.getLocalErrorCode() != OK) == (bad || mismatch), "local-error", "%s: local result %d", what.c_str(), (int)total.getLocalErrorCode());
  VMC_CHECK((total.getRemoteErrorCode() != OK) == badRemote, "remote-error", "%s: remote result %d", what.c_str(), (int)total.getRemoteErrorCode());
  total.reset();
  VMC_CHECK(!total.getTotalBytes() && !total.getEffectiveTotalBytes() && !total.getNumFiles() && !total.getNumBlocks() && !total.getFailedAttempts() && total.getLocalErrorCode() == OK && total.getRemoteErrorCode() == OK, "reset", "%s: not clean after reset", what.c_str());
  state(hash(what));
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  FLAGS_minloglevel = 3;
  Check c;
  c.property = "C25";
  c.rule = "Every sequence of boundary samples up to a length, recorded into new and reset counters and histograms of seven layouts; every partition of the samples into three collections (new, reset or empty) and every merge order; every edge of every bucket; per-call reports and transfer statistics likewise, all compared with the list of samples (values, printed rows, percentiles by rank). Thread-local collections, the periodic collector and shared reports under every schedule within the bounds, scheduling at memory accesses of the statistics code.";
  c.assumptions = {"A recording in progress ends within the pause that the collector makes (10 or 100 us), which is how the collectors avoid locks.",
                   "Threads that recorded outlive the collection: what folly does with the statistics of an ended thread is outside (shim).",
                   "Standard deviation is judged for samples of 32 bits whose sum fits in 32 bits (the documented limit)."};
  c.quickBudget = 120;
  auto add = [&](const string& n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1, bool forked = false, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    s.forked = forked;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  Bounds none(0);
  for (int n = 0; n <= 4; ++n) add("counter-" + std::to_string(n), [n] { counter(n); }, {none}, {none});
  add("counter-5", [] { counter(5); }, {none}, {none}, 1, false, true);
  add("histogram-edges", everyEdge, {none}, {none});
  for (int n = 0; n <= 2; ++n) add("histogram-" + std::to_string(n), [n] { histogram(n, true); }, {none}, {none});
  add("histogram-3", [] { histogram(3, false); }, {none}, {none});
  add("histogram-3-all", [] { histogram(3, true); }, {none}, {none}, 2, false, true);
  add("histogram-4", [] { histogram(4, false); }, {none}, {none}, 2, false, true);
  for (int n = 0; n <= 3; ++n) add("merge-counter-" + std::to_string(n), [n] { mergeCounters(n); }, {none}, {none});
  add("merge-counter-4", [] { mergeCounters(4); }, {none}, {none}, 1, false, true);
  for (int n = 0; n <= 2; ++n) add("merge-histogram-" + std::to_string(n), [n] { mergeHistograms(n); }, {none}, {none}, n == 2 ? 8 : 1);
  add("merge-histogram-3", [] { mergeHistograms(3); }, {none}, {none}, 3, false, true);
  for (int n = 0; n <= 2; ++n) add("report-" + std::to_string(n), [n] { report(n); }, {none}, {none});
  add("report-3", [] { report(3); }, {none}, {none}, 3, false, true);
  for (int n = 0; n <= 2; ++n) add("transfer-stats-" + std::to_string(n), [n] { transferStats(n); }, {none}, {none});
  add("transfer-stats-3", [] { transferStats(3); }, {none}, {none}, 1, false, true);
  typedef ThreadLocalCounter TC;
  typedef ThreadLocalHistogram TH;
  add("access-counter", [] { threadLocal<TC, Counter>(2, 2, 2, 1.0); }, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 3, true);
  add("access-histogram", [] { threadLocal<TH, Histogram>(2, 2, 2, 10); }, {Bounds(1)}, {Bounds(2), Bounds(3)}, 3, true);
  add("access-periodic", [] { periodic(2, 2); }, {Bounds(1)}, {Bounds(1), Bounds(2)}, 3, true);
  add("access-report", [] { reportThreads(2, 2); }, {Bounds(2)}, {Bounds(2), Bounds(3)}, 1, true);
  return runCheck(c, argc, argv);
}
