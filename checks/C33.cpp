// C33: options: every flag sets exactly its option; option types fill in the rest
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Throttler.h>
#include <wdt/Wdt.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/WdtFlags.h>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include "fib.h"
#include "vmc.h"
using namespace facebook::wdt;
using namespace vmc;
using std::string;

DECLARE_bool(wdt_logging_enabled);
DECLARE_string(wdt_option_type);
// a program that embeds the library has flags of its own
DEFINE_int32(num_ports, 5, "of the program");
DEFINE_int32(start_port, 80, "of the program");
DEFINE_bool(resume_using_dir_tree, false, "of the program");

// ---- the documented options: name, how it is read, two values other than the default
struct Opt {
  string name;
  std::function<string(const WdtOptions&)> get;
  std::vector<string> values;  // other than the default
  string def;                  // documented default ("" = do not check)
};
static string str(bool b) { return b ? "true" : "false"; }
static string str(int64_t v) { return std::to_string(v); }
static string str(int v) { return std::to_string(v); }
static string str(double v) { std::stringstream s; s << v; return s.str(); }
static string str(const string& v) { return v; }
#define I(n, d) {#n, [](const WdtOptions& o) { return str(o.n); }, {"7", "-1", "0", "2147483647"}, d}
#define L(n, d) {#n, [](const WdtOptions& o) { return str(o.n); }, {"7", "-1", "0", "5000000000"}, d}
#define B(n, d) {#n, [](const WdtOptions& o) { return str(o.n); }, {"true", "false"}, d}
#define D(n, d) {#n, [](const WdtOptions& o) { return str(o.n); }, {"0.25", "-1", "0", "3"}, d}
#define S(n, d) {#n, [](const WdtOptions& o) { return str(o.n); }, {"x.*y", "none", ""}, d}
static const std::vector<Opt>& all() {
  static const std::vector<Opt> v{
      B(ipv6, "false"), B(ipv4, "false"), I(dscp, "0"), B(skip_writes, "false"), B(ignore_open_errors, "false"), B(two_phases, "false"), B(follow_symlinks, "false"),
      I(start_port, "22356"), I(num_ports, "8"), B(static_ports, "false"), I(buffer_size, "262144"), I(max_retries, "20"), I(sleep_millis, "50"), I(backlog, "1"),
      D(avg_mbytes_per_sec, "-1"), D(max_mbytes_per_sec, "0"), D(throttler_bucket_limit, "0"), L(throttler_log_time_millis, "0"),
      S(include_regex, ""), S(exclude_regex, ""), S(prune_dir_regex, ""), I(max_transfer_retries, "3"), B(full_reporting, "false"), I(progress_report_interval_millis, ""),
      D(block_size_mbytes, "16"), I(accept_timeout_millis, "100"), I(max_accept_retries, "500"), I(accept_window_millis, "2000"), I(read_timeout_millis, "5000"),
      I(write_timeout_millis, "5000"), I(connect_timeout_millis, "1000"), I(abort_check_interval_millis, "200"), D(disk_sync_interval_mb, "0.5"), B(fsync, "true"),
      I(throughput_update_interval_millis, "500"), B(enable_checksum, "false"), B(enable_perf_stat_collection, "false"), I(transfer_log_write_interval_ms, "100"),
      B(enable_transfer_log_compaction, "false"), B(enable_download_resumption, "false"), B(keep_transfer_log, "true"), B(disable_sender_verification_during_resumption, "false"),
      I(global_sender_limit, "0"), I(global_receiver_limit, "0"), I(namespace_sender_limit, "0"), I(namespace_receiver_limit, "1"), B(odirect_reads, "false"),
      B(disable_preallocation, "false"), B(resume_using_dir_tree, "false"), I(open_files_during_discovery, "0"), B(overwrite, "false"), I(drain_extra_ms, "500"),
      S(encryption_type, "aes128gcm"), I(encryption_tag_interval_bytes, "4194304"), I(send_buffer_size, "0"), I(receive_buffer_size, "0"), B(delete_extra_files, "false"),
      B(skip_fadvise, "false"), B(enable_heart_beat, "true"), I(iv_change_interval_mb, "32768")};
  return v;
}
typedef std::map<string, string> Vals;
static Vals read(const WdtOptions& o) {
  Vals v;
  for (auto& e : all()) v[e.name] = e.get(o);
  v["close_on_exec"] = str(o.close_on_exec);
  return v;
}
static string diff(const Vals& got, const Vals& want) {
  for (auto& e : want) {
    const string& g = got.at(e.first);
    if (g != e.second) return e.first + " is '" + g + "' instead of '" + e.second + "'";
  }
  return "";
}
static Vals defaults() {
  static WdtOptions o;
  return read(o);
}
static void set(const string& flag, const string& v) {
  VMC_CHECK(!GFLAGS_NAMESPACE::SetCommandLineOption(flag.c_str(), v.c_str()).empty(), "no-flag", "no flag %s, or it does not take %s", flag.c_str(), v.c_str());
}
/// what the options must be: the given ones win, then the type, then the defaults
static Vals expected(const string& type, const Vals& given) {
  Vals w = defaults();
  for (auto& g : given) w[g.first] = g.second;
  auto unless = [&](const char* n, const char* v) { if (!given.count(n)) w[n] = v; };
  if (type == "disk") {
    unless("num_ports", "3");
    unless("block_size_mbytes", "-1");
    unless("disable_preallocation", "true");
    unless("resume_using_dir_tree", "true");
  }
  if (given.count("start_port")) w["static_ports"] = "true";  // "if set, implies static_ports"
  return w;
}
static string show(const Vals& v) {
  string s;
  for (auto& e : v) s += " " + e.first + "=" + e.second;
  return s;
}
static void checkPrint(const WdtOptions& o, const Vals& want, const string& d) {
  std::stringstream ss;
  WdtFlags::printOptions(ss, o);
  std::map<string, string> lines;
  string l;
  std::getline(ss, l);
  while (std::getline(ss, l)) {
    string p = WDT_LOG_PREFIX;
    VMC_CHECK(l.compare(0, p.size(), p) == 0, "print-prefix", "%s: printed '%s'", d.c_str(), l.c_str());
    l = l.substr(p.size());
    size_t k = l.find(' ');
    VMC_CHECK(k != string::npos && lines.emplace(l.substr(0, k), l.substr(k + 1)).second, "print-line", "%s: printed '%s'", d.c_str(), l.c_str());
  }
  for (auto& e : all()) {
    string w = want.at(e.name);
    if (w == "true") w = "1";
    if (w == "false") w = "0";
    VMC_CHECK(lines.count(e.name), "print-missing", "%s: %s is not printed", d.c_str(), e.name.c_str());
    VMC_CHECK(lines[e.name] == w, "print", "%s: %s is printed as '%s' instead of '%s'", d.c_str(), e.name.c_str(), lines[e.name].c_str(), w.c_str());
  }
}
static void checkFlags(const string& type, const Vals& given, const Vals& foreign = {}, bool print = false) {
  string d = (type.empty() ? "" : "type " + type) + show(given) + (foreign.empty() ? "" : " program:" + show(foreign));
  WdtOptions o;
  {
    GFLAGS_NAMESPACE::FlagSaver restore;
    if (!type.empty()) set("wdt_option_type", type);
    for (auto& g : foreign) set(g.first, g.second);
    for (auto& g : given) set("wdt_" + g.first, g.second);
    WdtFlags::initializeFromFlags(o);
    std::set<string> u = WdtFlags::getUserSpecifiedOptions();
    for (auto& e : all())
      VMC_CHECK(u.count(e.name) == given.count(e.name), given.count(e.name) ? "specified-lost" : "specified-wrong", "%s: %s %s as given by the user", d.c_str(), e.name.c_str(), u.count(e.name) ? "counts" : "does not count");
  }
  Vals want = expected(type, given);
  string x = diff(read(o), want);
  VMC_CHECK(x.empty(), "flags", "%s: %s", d.c_str(), x.c_str());
  if (print) checkPrint(o, want, d);
  step();
}
// every option alone, with every value, and its documented default
static void one() {
  const Opt& e = pick(all(), "option");
  if (!e.def.empty()) VMC_CHECK(defaults().at(e.name) == e.def, "default", "%s is %s by default, documented as %s", e.name.c_str(), defaults().at(e.name).c_str(), e.def.c_str());
  checkFlags("", {}, {}, true);
  for (auto& v : e.values) checkFlags("", {{e.name, v}}, {}, true);
  checkFlags("", {{e.name, defaults().at(e.name)}}, {}, true);
  state(hash(e.name));
}
// every pair of options
static void two() {
  const Opt& e = pick(all(), "option");
  int n = thorough() ? 4 : 1;
  for (auto& f : all()) {
    if (f.name == e.name) continue;
    for (int i = 0; i < n && i < (int)e.values.size(); ++i)
      for (int j = 0; j < n && j < (int)f.values.size(); ++j)
        checkFlags("", {{e.name, e.values[i]}, {f.name, f.values[j]}});
  }
}
// option types with every subset of the options they touch
static void types() {
  static const std::vector<string> T{"flash", "disk", "", "tape", "Disk", "disk "};
  string t = pick(T, "type");
  static const std::vector<std::pair<string, std::vector<string>>> A{
      {"num_ports", {"4", "8", "3"}}, {"block_size_mbytes", {"8", "16", "-1"}}, {"disable_preallocation", {"false", "true"}},
      {"resume_using_dir_tree", {"false", "true"}}, {"start_port", {"1000", "22356", "0"}}, {"static_ports", {"false", "true"}}};
  Vals given;
  for (auto& a : A) {
    int k = choose((int)a.second.size() + 1, INPUT, a.first.c_str());
    if (k) given[a.first] = a.second[k - 1];
  }
  checkFlags(t, given);
  // the same directly, with names that are not options
  WdtOptions o;
  {
    GFLAGS_NAMESPACE::FlagSaver restore;
    for (auto& g : given) set("wdt_" + g.first, g.second);
    WdtOptions tmp;
    WdtFlags::initializeFromFlags(tmp);
    o.num_ports = tmp.num_ports;
    o.block_size_mbytes = tmp.block_size_mbytes;
    o.disable_preallocation = tmp.disable_preallocation;
    o.resume_using_dir_tree = tmp.resume_using_dir_tree;
    o.start_port = tmp.start_port;
    o.static_ports = given.count("static_ports") && given["static_ports"] == "true";
  }
  std::set<string> names{"help", "ports"};
  for (auto& g : given) names.insert(g.first);
  o.modifyOptions(t, names);
  string x = diff(read(o), expected(t, given));
  VMC_CHECK(x.empty(), "modify", "type %s%s: %s", t.c_str(), show(given).c_str(), x.c_str());
}
// flags of the embedding program with the name of an option are not WDT's
static void foreign() {
  static const std::vector<string> T{"flash", "disk"};
  string t = pick(T, "type");
  Vals f, g;
  static const std::vector<std::pair<string, string>> A{{"num_ports", "6"}, {"start_port", "443"}, {"resume_using_dir_tree", "true"}};
  for (auto& a : A) {
    if (flip(INPUT, "program")) f[a.first] = a.second;
    if (flip(INPUT, "given")) g[a.first] = a.second;
  }
  checkFlags(t, g, f);
}
// derived values
static void derived() {
  static const std::vector<double> R{-1, 0, 0.5, 1, 1.25, 100, 1e6};
  WdtOptions o;
  o.avg_mbytes_per_sec = pick(R, "avg");
  o.max_mbytes_per_sec = pick(R, "max");
  o.throttler_bucket_limit = pick(R, "bucket");
  o.throttler_log_time_millis = choose(2, INPUT, "log") * 6000000000LL;
  o.buffer_size = 4096 << choose(3, INPUT, "buffer");
  ThrottlerOptions t = o.getThrottlerOptions();
  VMC_CHECK(t.avg_rate_per_sec == o.avg_mbytes_per_sec * 1048576 && t.max_rate_per_sec == o.max_mbytes_per_sec * 1048576 && t.throttler_bucket_limit == o.throttler_bucket_limit * 1048576 &&
                t.throttler_log_time_millis == o.throttler_log_time_millis && t.single_request_limit == o.buffer_size,
            "throttler-options", "avg %g max %g bucket %g Mbytes become %g %g %g bytes, log time %ld, request %ld", o.avg_mbytes_per_sec, o.max_mbytes_per_sec, o.throttler_bucket_limit, t.avg_rate_per_sec,
            t.max_rate_per_sec, t.throttler_bucket_limit, (long)t.throttler_log_time_millis, (long)t.single_request_limit);
  step();
}
static void modes() {
  WdtOptions o;
  bool r = o.enable_download_resumption = flip(INPUT, "resume");
  bool d = o.resume_using_dir_tree = flip(INPUT, "dir tree");
  bool p = o.disable_preallocation = flip(INPUT, "no preallocation");
  VMC_CHECK(o.isLogBasedResumption() == (r && !d) && o.isDirectoryTreeBasedResumption() == (r && d), "resumption-mode", "enabled %d by tree %d: log %d tree %d", r, d, o.isLogBasedResumption(), o.isDirectoryTreeBasedResumption());
  VMC_CHECK(o.shouldPreallocateFiles() == !p, "preallocation", "disabled %d: preallocate %d", p, o.shouldPreallocateFiles());
  // a copy is complete and independent
  const Opt& e = pick(all(), "option");
  GFLAGS_NAMESPACE::FlagSaver restore;
  for (auto& v : e.values) {
    set("wdt_" + e.name, v);
    WdtOptions a, b;
    WdtFlags::initializeFromFlags(a);
    a.close_on_exec = r;
    Vals was = read(a);
    b.num_ports = 77;
    b.include_regex = "old";
    b.copyInto(a);
    VMC_CHECK(diff(read(b), was).empty(), "copy", "%s=%s: in the copy %s", e.name.c_str(), v.c_str(), diff(read(b), was).c_str());
    a.num_ports = 78;
    a.include_regex = "new";
    a.overwrite = !a.overwrite;
    VMC_CHECK(diff(read(b), was).empty(), "copy-shared", "%s=%s: changing the original changes the copy: %s", e.name.c_str(), v.c_str(), diff(read(b), was).c_str());
    // and so is that of a sender and a receiver
    WdtTransferRequest req(0, 1, scratch());
    Sender s(req);
    Receiver rc(req);
    s.setWdtOptions(b);
    rc.setWdtOptions(b);
    b.num_ports = 79;
    b.prune_dir_regex = "new";
    VMC_CHECK(diff(read(s.getWdtOptions()), was).empty() && diff(read(rc.getWdtOptions()), was).empty(), "copy-side", "%s=%s: a side has other options than were set", e.name.c_str(), v.c_str());
    s.getWdtOptions().num_ports = 80;
    VMC_CHECK(diff(read(rc.getWdtOptions()), was).empty() && b.num_ports == 79, "copy-side-shared", "two sides share their options");
    step();
  }
}
// the API object: one per application, options of its own from the flags

static std::shared_ptr<Throttler> throttlerOf(Wdt& w) { return w.getWdtResourceController()->getWdtThrottler(); }
static void apps() {
  static const std::vector<string> names{"a", "b"};
  std::map<string, Wdt*> live;
  std::map<string, Vals> opts;
  int n = thorough() ? 5 : 4;
  Vals flags;
  string h;
  for (int i = 0; i < n; ++i) {
    int op = choose(9, INPUT, "op");
    const string& a = names[op & 1];
    if (op < 2) {  // initialize
      h += " init " + a;
      Wdt& w = Wdt::initializeWdt(a);
      if (!live.count(a)) {
        for (auto& l : live) VMC_CHECK(l.second != &w, "app-shared", "%s: two applications share an object", h.c_str());
        live[a] = &w;
        opts[a] = expected("", flags);
        VMC_CHECK(throttlerOf(w) != nullptr, "app-throttler", "%s: no throttler", h.c_str());
      }
      VMC_CHECK(live[a] == &w, "app-other", "%s: another object for the same application", h.c_str());
    } else if (op < 4) {  // get
      if (!live.count(a)) prune("not initialized");
      h += " get " + a;
      VMC_CHECK(&Wdt::getWdt(a) == live[a], "app-get", "%s: another object", h.c_str());
    } else if (op < 6) {
      h += " release " + a;
      Wdt::releaseWdt(a);
      live.erase(a);
      opts.erase(a);
    } else if (op < 8) {  // the application changes its options
      if (!live.count(a)) prune("not initialized");
      h += " set " + a;
      string v = str(20 + i);
      live[a]->getWdtOptions().num_ports = 20 + i;
      opts[a]["num_ports"] = v;
    } else {
      h += " flag";
      flags["num_ports"] = str(40 + i);
      set("wdt_num_ports", flags["num_ports"]);
    }
    for (auto& l : live) {
      string x = diff(read(l.second->getWdtOptions()), opts[l.first]);
      VMC_CHECK(x.empty(), "app-options", "%s: options of %s: %s", h.c_str(), l.first.c_str(), x.c_str());
      std::stringstream s;
      l.second->printWdtOptions(s);
      VMC_CHECK(s.str().find("num_ports " + opts[l.first]["num_ports"] + "\n") != string::npos, "app-print", "%s: %s prints other options", h.c_str(), l.first.c_str());
    }
    step();
  }
  outcome(std::to_string(live.size()));
}
// what the flags say reaches the throttler that the transfers of an application share
static void appThrottler() {
  static const std::vector<double> A{-1, 1, 10}, M{-1, 0, 20, 0.5};
  double avg = pick(A, "avg"), mx = pick(M, "max"), bucket = choose(2, INPUT, "bucket") * 3;
  set("wdt_avg_mbytes_per_sec", str(avg));
  set("wdt_max_mbytes_per_sec", str(mx));
  set("wdt_throttler_bucket_limit", str(bucket));
  Wdt& w = Wdt::initializeWdt("t");
  WdtOptions o;
  o.avg_mbytes_per_sec = avg;
  o.max_mbytes_per_sec = mx;
  o.throttler_bucket_limit = bucket;
  std::shared_ptr<Throttler> made = Throttler::makeThrottler(o.getThrottlerOptions());
  Throttler& t = *throttlerOf(w);
  double peak = mx >= 0 && mx < avg ? 1.2 * avg : mx;
  double burst = bucket > 0 ? bucket : 0.5 * peak;
  for (Throttler* x : {&t, made.get()}) {
    const char* who = x == &t ? "the application's throttler" : "a throttler made from the options";
    VMC_CHECK((avg > 0 ? std::fabs(x->getAvgRatePerSec() / 1048576 - avg) < 1e-9 : x->getAvgRatePerSec() <= 0) && (peak > 0 ? std::fabs(x->getPeakRatePerSec() / 1048576 - peak) < 1e-9 : x->getPeakRatePerSec() <= 0) &&
                  (peak <= 0 || std::fabs(x->getBucketLimit() / 1048576 - burst) < 1e-9),
              "app-rates", "avg %g max %g bucket %g: %s has avg %g peak %g bucket %g", avg, mx, bucket, who, x->getAvgRatePerSec(), x->getPeakRatePerSec(), x->getBucketLimit());
  }
  step();
}

int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  google::SetStderrLogging(google::GLOG_FATAL);
  Check c;
  c.property = "C33";
  c.rule = "one: every option alone with each of up to five values (also its own default) and what is printed for it; two: every pair of options; types: six option types x all subsets and values of the six options "
           "a type concerns; foreign: flags of the embedding program that are named like options; derived: rates and modes computed from options; modes: copies; apps: all sequences of operations on the API objects of two applications";
  c.assumptions = {"the reference is the documented list of options with their defaults (WdtOptions.h, WdtFlags.cpp.inc); options added later are not known to it", "library build (flags prefixed wdt_); the standalone build is C34's"};
  auto add = [&](const char* n, std::function<void()> f, bool forked = false, double w = 1) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.forked = forked;
    s.budget = w;
    c.scenarios.push_back(s);
  };
  add("one", one);
  add("two", two);
  add("types", types, false, 3);
  add("foreign", foreign);
  add("derived", derived);
  add("modes", modes);
  add("apps", apps, true, 3);
  add("app-throttler", appThrottler, true);
  return runCheck(c, argc, argv);
}
