// C07: what a transfer makes of a destination that already holds files.
// Every combination of listed states of the destination and of the options;
// a successful transfer must give exactly the tree the reference gives.
#include <errno.h>
#include "e2ecases.h"
#include "fsfault.h"
#include "wire.h"
using namespace vmc;
using namespace e2e;
using std::string;

enum Mode { PLAIN, OVERWRITE, TREE, TREE_NOLOG, TREE_INVALID, LOG_NOLOG, LOGGED, NMODE };
static const char* modeName[] = {"plain", "overwrite", "tree", "tree-nolog", "tree-invalid", "log-nolog", "logged"};
enum State { ABSENT, SHORTER, SAMESIZE, EQUAL, LONGER, EMPTY, PREFIX, MUCHLONGER, ISDIR, NSTATE };

struct Grid {
  string name;
  Cfg cfg;
  std::vector<Mode> modes;
  std::vector<std::vector<State>> states;  // per file
  std::vector<fs::Tree> extras{{}};
  std::vector<int> dels{0, 1};
  std::vector<int> preallocs{0, 1};
  FaultSet faults = NOFAULT;
  bool sched = false;
  std::vector<int64_t> delays;
  int discovery = 0;    // 1: failures while the source is read, 2: at the destination, 3: the sender is aborted
  std::vector<Bounds> quick, deep;
  double budget = 1;
};

/// "" = absent is expressed by has=false
static bool content0(const Cfg& c, const FileSpec& f, State s, string& out) {
  const string& src = content(c, f);
  auto junk = [&](size_t n) { return fs::pattern(n, 777 + (unsigned)vmc::hash(f.name)); };
  switch (s) {
    case SHORTER: out = junk(f.size > 1 ? f.size / 2 : 0); break;
    case SAMESIZE: out = junk(f.size); break;
    case EQUAL: out = src; break;
    case LONGER: out = junk(f.size + 1); break;
    case MUCHLONGER: out = src + junk(f.size + 3000); break;
    case EMPTY: out = ""; break;
    case PREFIX: out = src.substr(0, f.size - f.size / 3); break;
    default: return false;
  }
  return true;
}
static bool treeMode(Mode m) { return m == TREE || m == TREE_NOLOG || m == TREE_INVALID; }
/// a directory is where a file belongs or the other way round
static bool conflict(const Cfg& c, const fs::Tree& t) {
  for (auto& f : c.files)
    for (auto& e : t) {
      const string& n = e.first;
      if (n.compare(0, f.name.size() + 1, f.name + "/") == 0) return true;
      if (n.back() != '/' && f.name.compare(0, n.size() + 1, n + "/") == 0) return true;
    }
  return false;
}
static fs::Tree noLogs(fs::Tree t) {
  t.erase(kWdtLogName);
  return t;
}
static void body(const Grid& g) {
  init();
  fib::opt = fib::Options();
  fib::opt.maxTime = 900 * fib::SEC;
  fib::opt.schedPoints = g.sched;
  fib::opt.delays = g.delays;
  setFaults(g.faults);
  Cfg c = g.cfg;
  Mode m = pick(g.modes, "mode");
  bool del = pick(g.dels, "delete");
  bool prealloc = !treeMode(m) && pick(g.preallocs, "preallocate");
  fs::Tree before;
  std::vector<State> st;
  for (size_t i = 0; i < c.files.size(); ++i) {
    State s = pick(g.states[i], "state");
    st.push_back(s);
    string x;
    if (content0(c, c.files[i], s, x)) before[c.files[i].name] = x;
    if (s == ISDIR) before[c.files[i].name + "/"] = "", before[c.files[i].name + "/inside"] = "inside";
  }
  const fs::Tree& ex = pick(g.extras, "extras");
  for (auto& e : ex) before[e.first] = e.second;
  for (auto it = before.begin(); it != before.end(); ++it)  // not possible together
    if (it->first.back() != '/')
      for (auto& o : before)
        if (o.first.compare(0, it->first.size() + 1, it->first + "/") == 0) prune("not a tree");
  // what the previous transfer is known to have done
  std::map<string, string> trusted;   // name -> content that may be kept
  std::set<string> known;             // names the receiver reports
  if (m == TREE || m == TREE_NOLOG)  // without a log nothing speaks against what is there
    for (auto& e : before)
      if (e.first.back() != '/' && e.first != kWdtBuggyLogName) trusted[e.first] = e.second, known.insert(e.first);
  string log;
  if (treeMode(m) && m != TREE_NOLOG) log = wire::logHeader(1, "", "127.0.0.1", 2);
  if (m == TREE_INVALID) log += wire::logDirInval(2);
  if (m == LOGGED) {
    log = wire::logHeader(1, "", "127.0.0.1", prealloc);
    int64_t seq = 1;
    for (auto& e : before) {
      if (e.first.back() == '/' || (e.first != "a" && e.first != "extra")) continue;
      log += wire::logFile(2, e.first, seq, e.second.size()) + wire::logBlock(3, seq, 0, e.second.size());
      trusted[e.first] = e.second;
      known.insert(e.first);
      ++seq;
    }
  }
  fs::Tree start = before;
  if (!log.empty()) start[kWdtLogName] = log;
  fs::materialize(path(c.dst), start);

  // reference: the destination after a successful transfer
  fs::Tree want;
  for (auto& e : before)
    if (e.first.back() != '/') want[e.first] = e.second;
  int64_t total = 0, kept = 0;
  for (auto& f : c.files) {
    string x = content(c, f);
    auto t = trusted.find(f.name);
    total += x.size();
    if (t != trusted.end() && t->second.size() <= x.size()) {
      kept += t->second.size();
      x = t->second + x.substr(t->second.size());
    }
    want[f.name] = x;
  }
  std::set<string> removable;
  if (del)
    for (auto& n : known) {
      bool source = false;
      for (auto& f : c.files) source |= f.name == n;
      if (!source) removable.insert(n), want.erase(n);
    }
  bool exists = false;
  for (auto& f : c.files) exists |= before.count(f.name) || before.count(f.name + "/");
  bool blocked = conflict(c, before);
  bool mustFail = (m == PLAIN && exists) || [&] {
    for (auto& f : c.files) if (before.count(f.name + "/")) return true;
    return false;
  }();

  auto opts = c.both;
  c.both = [=](WdtOptions& o) {
    if (opts) opts(o);
    o.overwrite = m == OVERWRITE;
    o.enable_download_resumption = m >= TREE;
    o.resume_using_dir_tree = treeMode(m);
    if (treeMode(m)) o.block_size_mbytes = -1;
    o.disable_preallocation = !prealloc;
    o.delete_extra_files = del;
    o.keep_transfer_log = true;
  };
  string what = string(modeName[m]) + (del ? " delete" : "") + (prealloc ? " prealloc" : "") + " from " + fs::describe(before);
  note("%s", what.c_str());
  bool injected = false;
  if (g.discovery == 4) {  // any one access to the source takes long
    fs::opt.root = path(c.src);
    int at = choose(10, INPUT, "slow");
    bool toEnd = flip(INPUT, "and later");
    fs::opt.hook = [at, toEnd, n = 0](const fs::Op& o) mutable {
      if (o.kind == fs::OPENDIR || o.kind == fs::STAT)
        if (n++ == at || (toEnd && n > at)) std::this_thread::sleep_for(std::chrono::milliseconds(300));
      return fs::Act();
    };
  }
  if (g.discovery == 1 || g.discovery == 2) {
    string src = path(c.src), dst = path(c.dst), root = g.discovery == 1 ? src : dst;
    fs::opt.root = root;
    fs::opt.hook = [&injected, disc = g.discovery](const fs::Op& o) {
      if (disc == 1 && (o.kind == fs::OPENDIR || o.kind == fs::STAT || o.kind == fs::OPEN)) {
        fs::Act a = fsFault(o, {EACCES, EIO}, false, fs::kindName(o.kind));
        injected |= a.err;
        return a;
      }
      if (disc == 2 && (o.kind == fs::OPENDIR || o.kind == fs::STAT || o.kind == fs::OPEN || o.kind == fs::FTRUNC || o.kind == fs::FALLOC || o.kind == fs::WRITE || o.kind == fs::PWRITE || o.kind == fs::MKDIR)) {
        if (o.path.find(".wdt.") != string::npos) return fs::Act();
        fs::Act a = fsFault(o, {EIO}, false, fs::kindName(o.kind));
        injected |= a.err;
        return a;
      }
      return fs::Act();
    };
  }
  int abortAt = g.discovery == 3 ? choose(6, INPUT, "abort") : -1;
  fib::run([&] {
    Xfer x(c);
    if (!x.startReceiver()) {
      VMC_CHECK(injected, "not-started", "%s: the receiver does not start", what.c_str());
      return;
    }
    if (x.startSenderAsync()) {
      if (abortAt >= 0) {
        if (abortAt) std::this_thread::sleep_for(std::chrono::microseconds(abortAt * 3));
        x.sender->abort(ABORTED_BY_APPLICATION);
      }
      x.finishSender();
    }
    x.finishReceiver();
    x.destroy();
    fs::opt.hook = nullptr;
    fs::Tree got = noLogs(fs::snapshot(path(c.dst)));
    bool calm = net::stats.faults == 0 && !injected && abortAt < 0;
    auto diff = [&](const fs::Tree& a, const fs::Tree& b) -> string {
      for (auto& e : a) {
        auto i = b.find(e.first);
        if (i == b.end()) return e.first + " is missing";
        if (i->second != e.second) {
          size_t k = 0;
          while (k < i->second.size() && k < e.second.size() && i->second[k] == e.second[k]) ++k;
          return e.first + " has size " + std::to_string(i->second.size()) + " instead of " + std::to_string(e.second.size()) + ", different from byte " + std::to_string(k);
        }
      }
      for (auto& e : b)
        if (!a.count(e.first)) return e.first + " is not expected";
      return "";
    };
    for (int side = 0; side < 2; ++side) {
      Side& s = side ? x.R : x.S;
      const char* n = side ? "receiver" : "sender";
      if (s.ok()) {
        VMC_CHECK(!mustFail, "accepted", "%s: the %s reports success", what.c_str(), n);
        string d = diff(want, got);
        if (injected && g.discovery == 2) {
          // what the receiver could not read is sent again or is not known
          fs::Tree w = want;
          for (auto& f : c.files)
            if (got.count(f.name) && got[f.name] == content(c, f)) w[f.name] = got[f.name];
          for (auto& n : removable)
            if (got.count(n)) w[n] = before[n];
          d = diff(w, got);
        }
        VMC_CHECK(d.empty(), "wrong-tree", "%s: the %s reports success but %s", what.c_str(), n, d.c_str());
      } else if (calm) {
        VMC_CHECK(mustFail || blocked, "failed", "%s: the transfer fails: %s", what.c_str(), x.codes().c_str());
      }
    }
    // whatever happened
    for (auto& e : before) {
      if (e.first.back() == '/') continue;
      bool source = false;
      for (auto& f : c.files) source |= f.name == e.first;
      auto i = got.find(e.first);
      if (!source || m == PLAIN) {
        if (i == got.end()) VMC_CHECK(removable.count(e.first), "lost", "%s: %s was removed (%s)", what.c_str(), e.first.c_str(), x.codes().c_str());
        else VMC_CHECK(i->second == e.second, "damaged", "%s: %s was changed (%s)", what.c_str(), e.first.c_str(), x.codes().c_str());
      } else {
        VMC_CHECK(i != got.end(), "lost", "%s: %s was removed although the sender has it (%s)", what.c_str(), e.first.c_str(), x.codes().c_str());
      }
    }
    for (auto& e : got) {
      bool source = before.count(e.first);
      for (auto& f : c.files) source |= f.name == e.first;
      VMC_CHECK(source, "appeared", "%s: %s appeared", what.c_str(), e.first.c_str());
    }
    if (calm && x.R.ok() && !g.sched) {
      int64_t sent = x.R.report->getSummary().getEffectiveDataBytes();
      VMC_CHECK(sent == total - kept, "resent", "%s: %ld bytes were sent, %ld of %ld were there", what.c_str(), (long)sent, (long)kept, (long)total);
    }
    outcome(string(modeName[m]) + " " + x.codes() + (got == noLogs(want) ? " as wanted" : ""));
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C07";
  c.rule = "Every combination of the listed states of each destination file, of extra files, of the overwriting, resumption, deletion and preallocation options; after a transfer that reports success the whole destination tree must be the one the reference computes, and whatever happened nothing unrelated may have changed. Selected combinations additionally with every schedule and every placement of network and file-system failures up to the bounds.";
  c.assumptions = {"Files trusted by a directory-scan resumption are trusted by their size, as documented.", "A file that cannot be deleted is left and logged; failing deletions are outside."};
  const std::vector<State> all{ABSENT, SHORTER, SAMESIZE, EQUAL, LONGER, EMPTY, PREFIX, MUCHLONGER, ISDIR};
  const std::vector<State> some{ABSENT, SHORTER, SAMESIZE, LONGER, ISDIR};
  const std::vector<State> nil{ABSENT, EMPTY, LONGER, ISDIR};
  const std::vector<State> few{ABSENT, SHORTER, LONGER};
  const std::vector<Mode> modes{PLAIN, OVERWRITE, TREE, TREE_NOLOG, TREE_INVALID, LOG_NOLOG};
  const fs::Tree e1{{"extra", "e"}, {"d/extra", fs::pattern(700, 5)}, {"zz/y/x", "x"}, {"zz/empty/", ""}, {"z.wdt.log", "no log"}, {kWdtBuggyLogName, "kept for inspection"}};
  const fs::Tree e2{{"d", "a file"}}, e3{{"a.b", ""}, {"A", "A"}, {"d/b2", "2"}, {"d/b/", ""}}, e4{{"extra", "extra"}};
  static std::vector<Grid> gs;
  auto add = [&](string name, Cfg cfg, std::vector<Mode> ms, std::vector<std::vector<State>> st, std::vector<fs::Tree> ex) -> Grid& {
    Grid g;
    g.name = name;
    g.cfg = cfg;
    g.modes = ms;
    g.states = st;
    g.extras = ex;
    g.quick = g.deep = upTo(0);
    gs.push_back(g);
    return gs.back();
  };
  gs.reserve(100);
  add("one", cfg1s(), modes, {all, nil}, {{}, e1, e2, e3});
  add("three", cfg2(), modes, {all, nil, some}, {{}, e1});
  add("logged", cfg2(), {LOGGED}, {{ABSENT, SAMESIZE, EQUAL}, nil, some}, {{}, e1, e4});
  {
    Grid& g = add("blocks", cfgBlocks(), {PLAIN, OVERWRITE, LOG_NOLOG}, {{ABSENT, SHORTER, LONGER, EMPTY, PREFIX, MUCHLONGER}, {ABSENT, SHORTER, SAMESIZE, LONGER}, {ABSENT, LONGER}}, {{}});
    g.dels = {0};
    Grid& h = add("blocks-tree", cfgBlocks(), {TREE}, {{ABSENT, SHORTER, EQUAL, LONGER, PREFIX}, {ABSENT, SHORTER, LONGER}, {ABSENT, LONGER}}, {{}, e1});
    (void)h;
  }
  {
    Grid& g = add("crc", with(cfg2(), checksum()), modes, {few, {ABSENT, LONGER}, few}, {e1});
    (void)g;
  }
  {
    Grid& g = add("schedules", cfg2(), modes, {few, {ABSENT, LONGER}, few}, {e1});
    g.sched = true;
    g.dels = {1};
    g.quick = upTo(1);
    g.deep = upTo(2);
    g.budget = 2;
  }
  {
    Grid& g = add("delays", cfg2(), {TREE, LOGGED}, {{EQUAL}, {LONGER}, {EQUAL}}, {e1});
    g.sched = true;
    g.dels = {1};
    g.preallocs = {1};
    g.delays = {1 * fib::MS, 200 * fib::MS};
    g.quick = upTo(1);
    g.deep = upTo(2);
    g.budget = 2;
    Grid& h = add("slow-discovery", cfg2(), {TREE, LOGGED}, {{EQUAL, LONGER}, {LONGER}, {EQUAL}}, {e1});
    h.dels = {1};
    h.preallocs = {1};
    h.discovery = 4;
    h.quick = h.deep = upTo(0);
  }
  {
    Grid& g = add("network", cfg2(), modes, {few, {ABSENT, LONGER}, few}, {e1});
    g.dels = {1};
    g.faults = BREAK;
    g.quick = upTo(1);
    g.deep = upTo(2);
    g.budget = 2;
    Grid& h = add("network-blocks", cfgBlocks(), {OVERWRITE, TREE}, {{SHORTER, LONGER}, {LONGER}, {LONGER}}, {e1});
    h.dels = {1};
    h.faults = BREAK;
    h.quick = upTo(1);
    h.deep = upTo(2);
    Grid& l = add("network-logged", cfg2(), {LOGGED}, {{EQUAL}, {ABSENT, LONGER}, few}, {e4});
    l.faults = BREAK;
    l.quick = upTo(1);
    l.deep = upTo(2);
    Grid& t = add("cuts", cfg2(), {TREE, LOGGED, OVERWRITE}, {{ABSENT, SHORTER}, {LONGER}, {EQUAL}}, {e1});
    t.dels = {1};
    t.faults = CUTS;
    t.quick = upTo(2, 2, 0);
    t.deep = upTo(3, 3, 0);
    Grid& u = add("cuts-one", cfgLongOne(), {TREE, LOGGED}, {{SHORTER, ABSENT}}, {e1});
    u.faults = CUTS;
    u.quick = upTo(2, 2, 0);
    u.deep = upTo(3, 3, 0);
  }
  {
    Grid& g = add("discovery", cfg2(), {TREE, LOGGED, OVERWRITE}, {{ABSENT, EQUAL}, {EMPTY}, {ABSENT, EQUAL}}, {e1});
    g.dels = {1};
    g.discovery = 1;
    g.quick = upTo(1);
    g.deep = upTo(2);
    Grid& h = add("destination", cfg2(), modes, {few, {ABSENT, LONGER}, few}, {e1});
    h.discovery = 2;
    h.quick = upTo(1);
    h.deep = upTo(2);
    Grid& a = add("abort", cfg2(), {TREE, OVERWRITE}, {{ABSENT, EQUAL}, {EMPTY}, {ABSENT, EQUAL}}, {e1});
    a.discovery = 3;
    a.dels = {1};
    a.sched = true;
    a.quick = upTo(1);
    a.deep = upTo(2);
  }
  c.setup = [] {
    for (auto& g : gs) {
      shareSource(g.cfg, "src-" + g.name);
      for (auto& f : g.cfg.files) content(g.cfg, f);
    }
  };
  for (auto& g : gs) {
    Scenario s;
    s.name = g.name;
    s.body = [&g] { body(g); };
    s.forked = true;
    s.budget = g.budget;
    s.quick = g.quick;
    s.deep = g.deep;
    c.scenarios.push_back(s);
  }
  c.quickBudget = 100;
  return runCheck(c, argc, argv);
}
