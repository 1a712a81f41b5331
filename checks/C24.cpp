// C24: discovery offers exactly the files the filters describe
#include <wdt/util/DirectorySourceQueue.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/AbortChecker.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <limits.h>
#include <unistd.h>
#include <set>
#include "e2e.h"
using namespace vmc;
using namespace e2e;
using std::string;

struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } };
static NoAbort noAbort;
static WdtOptions& opts() { static auto* o = [] { auto* x = new WdtOptions(); x->skip_fadvise = true; x->buffer_size = 4096; return x; }(); return *o; }

// ---------------------------------------------------------------- trees
struct Tree {
  string root;
  std::vector<string> what;
  string full(const string& p) const { return p[0] == '/' ? p : root + "/" + p; }
  static string data(const string& p, size_t extra = 0) { return "content of " + p + string(extra, '.'); }
  void dir(const string& p) { fs::mkdirs(full(p)); what.push_back(p + "/"); }
  void file(const string& p) { fs::writeFile(full(p), data(p)); what.push_back(p); }
  void empty(const string& p) { fs::writeFile(full(p), ""); what.push_back(p + " (empty)"); }
  void link(const string& p, const string& to) {
    if (to.empty()) return;
    VMC_CHECK(!::symlink(to.c_str(), full(p).c_str()), "harness", "symlink %s", p.c_str());
    what.push_back(p + " -> " + to);
  }
  void fifo(const string& p) {
    VMC_CHECK(!::mkfifo(full(p).c_str(), 0600), "harness", "mkfifo");
    what.push_back(p + " (fifo)");
  }
  string str() const {
    string s;
    for (auto& w : what) s += (s.empty() ? "" : ", ") + w;
    return s;
  }
};
struct Filter {
  string pattern;
  std::function<bool(const string&)> matches;
};
static bool ends(const string& s, const string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static bool begins(const string& s, const string& b) { return s.compare(0, b.size(), b) == 0; }
static Filter none() { return {"", nullptr}; }
static Filter suffix(const string& x) { return {".*" + x, [x](const string& s) { return ends(s, x); }}; }
static Filter prefix(const string& x) { return {x + ".*", [x](const string& s) { return begins(s, x); }}; }
static Filter oneOf(const std::vector<string>& v) {
  string p;
  for (auto& x : v) p += (p.empty() ? "(" : "|") + x;
  return {p + ")", [v](const string& s) { for (auto& x : v) if (s == x) return true; return false; }};
}
struct Opt {
  bool follow = false;
  Filter inc = none(), exc = none(), prune = none();
  string str() const { return string(follow ? "following links" : "not following links") + (inc.matches ? ", include " + inc.pattern : "") + (exc.matches ? ", exclude " + exc.pattern : "") + (prune.matches ? ", prune " + prune.pattern : ""); }
};
/// relative name -> content
typedef std::map<string, string> Offered;
struct Walker {
  const Tree& t;
  const Opt& o;
  std::map<string, string> realOf;                 // directories, under each of their names
  std::map<string, std::vector<string>> subdirs_;
  std::map<string, Offered> files_;
  std::set<std::set<string>> seen;
  std::set<Offered> results;
  Walker(const Tree& tree, const Opt& opt) : t(tree), o(opt) {}
  string real(const string& d) {
    auto& r = realOf[d];
    if (r.empty()) {
      char b[PATH_MAX];
      r = ::realpath((t.root + "/" + d).c_str(), b) ? b : "?";
    }
    return r;
  }
  void list(const string& d) {
    if (subdirs_.count(d)) return;
    auto& subs = subdirs_[d];
    auto& files = files_[d];
    DIR* dp = ::opendir((t.root + "/" + d).c_str());
    VMC_CHECK(dp, "harness", "opendir %s", d.c_str());
    while (dirent* e = ::readdir(dp)) {
      string n = e->d_name;
      if (n == "." || n == "..") continue;
      string rel = d + n, full = t.root + "/" + rel;
      struct stat st;
      if (::lstat(full.c_str(), &st)) continue;
      if (S_ISLNK(st.st_mode) && (!o.follow || ::stat(full.c_str(), &st))) continue;
      if (S_ISREG(st.st_mode)) {
        if (o.inc.matches && !o.inc.matches(rel)) continue;
        if (o.exc.matches && o.exc.matches(rel)) continue;
        files[rel] = fs::readFile(full);
      } else if (S_ISDIR(st.st_mode)) {
        if (!o.prune.matches || !o.prune.matches(rel + "/")) subs.push_back(rel + "/");
      }
    }
    ::closedir(dp);
  }
  /// all names of a directory, but for those that pass twice through one
  std::map<string, std::set<string>> namesOf;
  void allNames(const string& d, std::set<string> above) {
    namesOf[real(d)].insert(d);
    above.insert(real(d));
    list(d);
    for (auto& s : subdirs_[d])
      if (!above.count(real(s))) allNames(s, above);
  }
  /// every way to explore each directory once, under one of its names
  void rec(const std::set<string>& explored) {
    if (!seen.insert(explored).second) return;
    std::set<string> visited;
    for (auto& d : explored) visited.insert(real(d));
    bool any = false;
    std::vector<std::set<string>> branches;
    std::set<string> all = explored;
    for (auto& d : explored) {
      list(d);
      for (auto& s : subdirs_[d])
        if (!visited.count(real(s))) {
          any = true;
          if (namesOf[real(s)].size() > 1) {
            auto more = explored;
            more.insert(s);
            branches.push_back(more);
          } else all.insert(s);
        }
    }
    if (all.size() > explored.size()) return rec(all);
    for (auto& b : branches) rec(b);
    if (any) return;
    Offered r;
    for (auto& d : explored)
      for (auto& f : files_[d]) r.insert(f);
    results.insert(r);
  }
  const std::set<Offered>& run() {
    allNames("", {});
    rec({""});
    return results;
  }
};
static string names(const Offered& o) {
  string s;
  for (auto& f : o) s += (s.empty() ? "" : " ") + f.first;
  return "{" + s + "}";
}
static string difference(const Offered& got, const std::set<Offered>& want) {
  const Offered& w = *want.begin();
  if (want.size() == 1)
    for (auto& f : w) {
      auto i = got.find(f.first);
      if (i == got.end()) return f.first + " is not offered";
      if (i->second != f.second) return f.first + " is offered as \"" + i->second + "\"";
    }
  return "offered " + names(got) + " instead of " + names(w) + (want.size() > 1 ? " (or others)" : "");
}
/// takes everything from the queue
static Offered drain(DirectorySourceQueue& q, std::vector<string>* fullPaths = nullptr, ErrorCode wantStatus = OK) {
  ThreadCtx ctx(opts(), true);
  ctx.setAbortChecker(&noAbort);
  Offered o;
  for (;;) {
    ErrorCode st = ABORT;
    auto s = q.getNextSource(&ctx, st);
    VMC_CHECK(wantStatus == ABORT || st == wantStatus, "status", "the queue reports %s", errorCodeToStr(st).c_str());
    if (!s) return o;
    auto& m = s->getMetaData();
    VMC_CHECK(!o.count(m.relPath), "twice", "%s is offered twice", m.relPath.c_str());
    VMC_CHECK(s->getOffset() == 0 && s->getSize() == m.size, "block", "%s: block of %ld bytes at %ld, file of %ld", m.relPath.c_str(), (long)s->getSize(), (long)s->getOffset(), (long)m.size);
    if (fullPaths) fullPaths->push_back(m.fullPath);
    string d;
    while (!s->finished()) {
      int64_t n = 0;
      char* p = s->read(n);
      if (!p || n <= 0) break;
      d.append(p, n);
    }
    VMC_CHECK((int64_t)d.size() == m.size, "size", "%s has %zu bytes, announced are %ld", m.relPath.c_str(), d.size(), (long)m.size);
    o[m.relPath] = d;
    s->close();
  }
}
static void order(bool reverse, bool unknown) {
  fs::opt.listing = [=](const string&, std::vector<dirent>& v) {
    std::sort(v.begin(), v.end(), [&](const dirent& a, const dirent& b) { return reverse ? strcmp(a.d_name, b.d_name) > 0 : strcmp(a.d_name, b.d_name) < 0; });
    if (unknown) for (auto& e : v) e.d_type = DT_UNKNOWN;
  };
}
static void configure(DirectorySourceQueue& q, const Opt& o) {
  q.setIncludePattern(o.inc.pattern);
  q.setExcludePattern(o.exc.pattern);
  q.setPruneDirPattern(o.prune.pattern);
  q.setFollowSymlinks(o.follow);
}
static void discover(const Tree& t, const Opt& o, const string& root, int open = 0) {
  note("tree: %s; %s", t.str().c_str(), o.str().c_str());
  DirectorySourceQueue q(opts(), root, &noAbort);
  configure(q, o);
  q.setOpenFilesDuringDiscovery(open);
  fs::opt.root = scratch();
  fib::run([&] { q.buildQueueSynchronously(); });
  fs::opt.root.clear();
  fs::opt.listing = nullptr;
  VMC_CHECK(q.fileDiscoveryFinished(), "unfinished", "discovery not finished");
  int64_t count = q.getCount(), total = q.getTotalSize();
  auto got = drain(q);
  Walker w(t, o);
  auto& want = w.run();
  if (!want.count(got)) fail("offered", "%s [tree: %s; %s]", difference(got, want).c_str(), t.str().c_str(), o.str().c_str());
  int64_t sum = 0;
  for (auto& f : got) sum += f.second.size();
  VMC_CHECK(count == (int64_t)got.size() && total == sum, "count", "%ld files of %ld bytes counted, %zu of %ld offered", (long)count, (long)total, got.size(), (long)sum);
  VMC_CHECK(q.getFailedDirectories().empty() && q.getFailedSourceStats().empty(), "failures", "failures reported");
  state(hash(names(got)));
  outcome(std::to_string(got.size()) + (want.size() > 1 ? "*" : ""));
}
static Tree fresh() {
  init();
  fib::opt = fib::Options();
  fib::opt.schedPoints = false;
  fs::opt = fs::Options();
  Tree t;
  t.root = scratch() + "/t";
  fs::removeAll(t.root);
  fs::removeAll(scratch() + "/ext");
  fs::mkdirs(t.root);
  return t;
}
/// directories d and d/e, links in each of them and outside
static void links() {
  Tree t = fresh();
  string ext = scratch() + "/ext";
  if (flip(INPUT, "f")) t.file("f");
  t.dir("d");
  t.file("d/f");
  t.dir("d/e");
  t.file("d/e/g");
  t.link("l", pick(std::vector<string>{"", "d", "d/e", "f", ".", "l", "nope", ext, ext + "/h", "d/up"}, "l"));
  t.link("d/up", pick(std::vector<string>{"", ".", "..", "../..", "e", "f", "../l", "nope", "up"}, "d/up"));
  t.link("d/e/x", pick(std::vector<string>{"", "..", "../..", "../../d", "../f", "../up"}, "d/e/x"));
  t.dir(ext + "/s");
  t.file(ext + "/h");
  t.file(ext + "/s/i");
  t.link(ext + "/s/back", pick(std::vector<string>{"", ".", "..", t.root}, "back"));
  Opt o;
  o.follow = flip(INPUT, "follow");
  bool reverse = flip(INPUT, "reverse"), unknown = flip(INPUT, "unknown");
  order(reverse, unknown);
  // "../.." of d is the scratch directory, which contains everything
  discover(t, o, t.root);
}
static void filters() {
  Tree t = fresh();
  t.file("f");
  t.file("d.f");
  t.dir("d");
  t.file("d/f");
  t.dir("d/e");
  t.file("d/e/g");
  t.dir("e");
  t.file("e/f");
  t.link("l", pick(std::vector<string>{"", "d", "d/e", "f"}, "l"));
  t.link("d/e/x", pick(std::vector<string>{"", "..", "../f"}, "d/e/x"));
  Opt o;
  o.follow = flip(INPUT, "follow");
  o.inc = pick(std::vector<Filter>{none(), suffix("g"), prefix("d/"), prefix("l"), oneOf({"f", "d/f"}), oneOf({"d"}), prefix("")}, "include");
  o.exc = pick(std::vector<Filter>{none(), suffix("f"), prefix("d/e/"), oneOf({"f", "e/"})}, "exclude");
  o.prune = pick(std::vector<Filter>{none(), oneOf({"d/"}), suffix("e/"), oneOf({"l/", "d/e/"}), oneOf({"d", "e"}), prefix("d")}, "prune");
  bool reverse = flip(INPUT, "reverse"), unknown = flip(INPUT, "unknown");
  order(reverse, unknown);
  discover(t, o, t.root);
}
/// unusual names and types
static void types() {
  Tree t = fresh();
  static const std::vector<string> namesV{"n", ".h", "..", "...", "..a", "a b", "new\nline", "\xc3\xa9\xff", string(255, 'x'), "-", "*", "\\", "n."};
  int n = 1 + choose(2, INPUT, "entries");
  string at = flip(INPUT, "nested") ? pick(namesV, "directory") + "/" : "";
  if (at == "../") prune("not a name");
  if (!at.empty()) t.dir(at.substr(0, at.size() - 1));
  for (int i = 0; i < n; ++i) {
    string nm = pick(namesV, "name");
    if (nm == ".." || (i && t.what.back().compare(0, (at + nm).size(), at + nm) == 0)) prune("not a name");
    if (i) nm += "2";
    if (nm.size() > 255) nm = nm.substr(1);
    switch (choose(6, INPUT, "type")) {
      case 0: t.file(at + nm); break;
      case 1: t.empty(at + nm); break;
      case 2: t.dir(at + nm); break;
      case 3: t.fifo(at + nm); break;
      case 4: {
        int fd = ::open(t.full(at + nm).c_str(), O_CREAT | O_WRONLY, 0600);
        if (::ftruncate(fd, 5000)) fail("harness", "ftruncate");
        ::close(fd);
        t.what.push_back(at + nm + " (sparse)");
        break;
      }
      case 5: t.link(at + nm, scratch() + "/fifo"); break;
    }
  }
  if (!fs::exists(scratch() + "/fifo")) (void)!::mkfifo((scratch() + "/fifo").c_str(), 0600);
  Opt o;
  int variant = choose(5, INPUT, "variant");
  o.follow = variant & 1;
  string root = t.root;
  if (variant >= 2) {
    string l = scratch() + "/link";
    ::unlink(l.c_str());
    if (::symlink("t", l.c_str())) fail("harness", "link");
    root = variant == 4 ? t.root + "/" : l;
  }
  order(false, variant == 1);
  discover(t, o, root, variant == 2 ? 1 : variant == 3 ? -1 : 0);
}

/// many directories, many entries, deep nesting
static void wide() {
  Tree t = fresh();
  int w = pick(std::vector<int>{0, 1, 3, 7, 20}, "directories"), depth = pick(std::vector<int>{1, 2, 6, 12}, "depth"), n = pick(std::vector<int>{0, 1, 2, 100}, "files");
  bool filesFirst = flip(INPUT, "names");
  auto fill = [&](const string& at) {
    for (int i = 0; i < n; ++i) t.file(at + (filesFirst ? "A" : "z") + std::to_string(i));
  };
  fill("");
  for (int i = 0; i < w; ++i) {
    string at;
    for (int k = 0; k < depth; ++k) {
      at += "d" + std::to_string(i) + "/";
      t.dir(at.substr(0, at.size() - 1));
      if (k == depth - 1 || k % 2) fill(at);
    }
  }
  Opt o;
  o.follow = flip(INPUT, "follow");
  if (o.follow && w) t.link("link", "d0");
  int open = choose(3, INPUT, "open") - 1;
  bool unknown = flip(INPUT, "unknown");
  order(false, unknown);
  t.what = {std::to_string(w) + " directories of depth " + std::to_string(depth) + " with " + std::to_string(n) + " files"};
  discover(t, o, t.root, open);
}

// ---------------------------------------------------------------- failures
static void failures() {
  Tree t = fresh();
  t.file("f");
  t.dir("d");
  t.file("d/f");
  t.dir("d/e");
  t.file("d/e/g");
  t.dir("k");
  t.file("k/z");
  Opt o;
  o.follow = flip(INPUT, "follow");
  if (o.follow) {
    t.link("l", "f");
    string ext = scratch() + "/ext";
    t.dir(ext);
    t.file(ext + "/h");
    t.link("m", ext);
  }
  bool reverse = flip(INPUT, "reverse"), unknown = flip(INPUT, "unknown");
  order(reverse, unknown);
  std::set<string> gone, broken;   // relative
  DirectorySourceQueue q(opts(), t.root, &noAbort);
  configure(q, o);
  fs::opt.root = t.root;
  int faults = 0;
  fs::opt.hook = [&](const fs::Op& op) {
    fs::Act a;
    static const int e1[] = {0, EACCES, ENOENT}, e2[] = {0, EIO}, e3[] = {0, EACCES, ENOENT, EIO};
    string rel = op.path.size() > t.root.size() ? op.path.substr(t.root.size() + 1) : "";
    if (op.kind == fs::OPENDIR) a.err = e1[choose(3, FS, "opendir")];
    else if (op.kind == fs::READDIR) a.err = e2[choose(2, FS, "readdir")];
    else if (op.kind == fs::STAT) a.err = e3[choose(4, FS, "stat")];
    if (!a.err) return a;
    ++faults;
    if (!rel.empty() && rel.back() == '/') rel.pop_back();
    (a.err == ENOENT && op.kind == fs::STAT ? gone : broken).insert(rel);
    return a;
  };
  fib::run([&] { q.buildQueueSynchronously(); });
  fs::opt.root.clear();
  fs::opt.hook = nullptr;
  fs::opt.listing = nullptr;
  std::set<string> reported;
  for (auto& d : q.getFailedDirectories()) {
    VMC_CHECK(begins(d + "/", t.root + "/"), "reported", "failed directory %s", d.c_str());
    string r = d.size() > t.root.size() ? d.substr(t.root.size() + 1) : "";
    if (!r.empty() && r.back() == '/') r.pop_back();
    VMC_CHECK(reported.insert(r).second, "reported", "%s is reported twice", r.c_str());
  }
  auto got = drain(q, nullptr, ABORT);
  for (auto& s : q.getFailedSourceStats()) VMC_CHECK(reported.insert(s.getId()).second, "reported", "%s is reported twice", s.getId().c_str());
  for (auto& r : reported) VMC_CHECK(broken.count(r), "reported", "%s is reported although nothing failed there", r.c_str());
  for (auto& b : broken) VMC_CHECK(reported.count(b), "silent", "the failure at '%s' is not reported", b.c_str());
  Walker w(t, o);
  auto& want = w.run();
  VMC_CHECK(want.size() == 1, "harness", "%zu results", want.size());
  auto below = [](const string& f, const string& d) { return d.empty() || f == d || begins(f, d + "/"); };
  for (auto& f : *want.begin()) {
    auto i = got.find(f.first);
    if (i != got.end()) {
      VMC_CHECK(i->second == f.second, "content", "%s is offered as \"%s\"", f.first.c_str(), i->second.c_str());
      continue;
    }
    bool explained = false;
    for (auto& b : broken) explained |= below(f.first, b);
    for (auto& g : gone) explained |= below(f.first, g);
    VMC_CHECK(explained, "lost", "%s is not offered", f.first.c_str());
  }
  for (auto& f : got) VMC_CHECK(want.begin()->count(f.first), "extra", "%s is offered", f.first.c_str());
  outcome(std::to_string(got.size()) + "/" + std::to_string(reported.size()) + "/" + std::to_string(faults));
}

// ---------------------------------------------------------------- lists
static void lists(int maxN) {
  Tree t = fresh();
  t.file("f");
  t.dir("d");
  t.file("d/f");
  t.file("g");
  t.link("l", "f");
  struct E { string name; int64_t size; int fd; bool good; };
  int n = choose(maxN + 1, INPUT, "entries");
  std::vector<E> es;
  std::vector<int> fds;
  bool missing = false;
  static const std::vector<string> good{"f", "d/f", "g", "l"};
  Offered want;
  for (int i = 0; i < n; ++i) {
    int k = choose(6, INPUT, "entry");
    string nm = good[(i + k) % 4];
    string data = fs::readFile(t.full(nm));
    switch (k) {
      case 0: es.push_back({nm, -1, -1, true}); break;
      case 1: es.push_back({nm, (int64_t)data.size(), -1, true}); break;
      case 2: es.push_back({nm, 3, -1, true}); data = data.substr(0, 3); break;   // only the beginning
      case 3: {
        int fd = ::open(t.full(nm).c_str(), O_RDONLY);
        fds.push_back(fd);
        nm = "as/" + std::to_string(i);
        es.push_back({nm, (int64_t)data.size(), fd, true});
        break;
      }
      case 4: nm = "missing" + std::to_string(i); es.push_back({nm, -1, -1, false}); missing = true; break;
      case 5: nm = "absent" + std::to_string(i); es.push_back({nm, 7, -1, false}); break;   // fails when it is opened
    }
    if (es.back().good) {
      if (want.count(nm)) prune("named twice");
      want[nm] = data;
    }
  }
  int first = choose(n + 1, INPUT, "listed");       // the others come from the generator
  int batch = 1 + choose(2, INPUT, "batch");
  bool generator = first < n || flip(INPUT, "generator");
  DirectorySourceQueue q(opts(), t.root, &noAbort);
  Opt o;
  o.inc = oneOf({"nothing"});   // filters do not apply
  configure(q, o);
  auto info = [](const E& e) {
    if (e.fd >= 0) return WdtFileInfo(e.fd, e.size, e.name);
    return WdtFileInfo(e.name, e.size, false);
  };
  std::vector<WdtFileInfo> v;
  for (int i = 0; i < first; ++i) v.push_back(info(es[i]));
  q.setFileInfo(v);
  int next = first;
  bool ended = false, firstMissing = false;
  for (int i = 0; i < first; ++i) firstMissing |= !es[i].good && es[i].size < 0;
  if (generator)
    q.setFileInfoGenerator([&]() -> folly::Optional<std::vector<WdtFileInfo>> {
      VMC_CHECK(!ended, "generator", "asked again after the end");
      if (next >= n) {
        ended = true;
        return folly::none;
      }
      std::vector<WdtFileInfo> b;
      for (int i = 0; i < batch && next < n; ++i) b.push_back(info(es[next++]));
      return b;
    });
  bool ok = false;
  fib::run([&] { ok = q.buildQueueSynchronously(); });
  VMC_CHECK(ok == !missing, "result", "building the queue returns %d", ok);
  if (next < n) {
    // a missing entry ends the use of the generator
    VMC_CHECK(missing, "generator", "only %d of %d entries taken", next, n);
    for (int i = next; i < n; ++i) want.erase(es[i].name);
  }
  auto got = drain(q, nullptr, ABORT);
  if (got != want) fail("offered", "%s", difference(got, {want}).c_str());
  std::multiset<string> failed, expected;
  for (auto& s : q.getFailedSourceStats()) failed.insert(s.getId());
  for (int i = 0; i < next; ++i) if (!es[i].good) expected.insert(es[i].name);
  for (auto& e : expected) VMC_CHECK(failed.count(e) == 1, "missing", "%s is not reported as failed (%zu times)", e.c_str(), failed.count(e));
  VMC_CHECK(failed.size() == expected.size(), "missing", "%zu failed sources instead of %zu", failed.size(), expected.size());
  for (int fd : fds) ::close(fd);
  outcome(std::to_string(got.size()) + "/" + std::to_string(failed.size()));
}

// ---------------------------------------------------------------- whole transfers
static void transfer() {
  Tree t = fresh();
  t.file("f");
  t.dir("d");
  t.file("d/f");
  t.dir("d/e");
  t.file("d/e/g");
  t.dir("empty");
  string link = pick(std::vector<string>{"", "d", "f", "nope"}, "l");
  t.link("l", link);
  Opt o;
  o.follow = flip(INPUT, "follow");
  o.inc = pick(std::vector<Filter>{none(), suffix("f")}, "include");
  o.exc = pick(std::vector<Filter>{none(), prefix("d/f")}, "exclude");
  o.prune = pick(std::vector<Filter>{none(), suffix("e/")}, "prune");
  bool reverse = flip(INPUT, "reverse");
  int list = choose(3, INPUT, "list");    // discovery, list, list with a missing entry
  if (list && (o.inc.matches || o.exc.matches || o.prune.matches || o.follow)) prune("filters do not apply");
  net::reset();
  fib::opt.maxTime = 100 * fib::SEC;
  Cfg c;
  c.src = t.root;
  c.dst = scratch() + "/dst";
  fs::removeAll(c.dst);
  c.sopt = [&](WdtOptions& w) {
    w.follow_symlinks = o.follow;
    w.include_regex = o.inc.pattern;
    w.exclude_regex = o.exc.pattern;
    w.prune_dir_regex = o.prune.pattern;
  };
  order(reverse, false);
  fs::opt.root = t.root;
  Xfer x(c);
  if (list)
    x.onSenderReq = [&](WdtTransferRequest& r) {
      r.disableDirectoryTraversal = true;
      r.fileInfo = {WdtFileInfo("f", -1, false), WdtFileInfo(list == 2 ? "missing" : "d/f", -1, false), WdtFileInfo("d/e/g", 5, false)};
    };
  std::vector<string> failed;
  ErrorCode err = OK;
  fib::run([&] {
    x.run();
    err = x.S.err;
    if (x.S.report) for (auto& s : x.S.report->getFailedSourceStats()) failed.push_back(s.getId());
    x.destroy();
  });
  fs::opt.root.clear();
  fs::opt.listing = nullptr;
  std::set<Offered> want;
  if (list) {
    Offered w{{"f", Tree::data("f")}, {"d/e/g", Tree::data("d/e/g").substr(0, 5)}};
    if (list == 1) w["d/f"] = Tree::data("d/f");
    want.insert(w);
  } else {
    Walker w(t, o);
    want = w.run();
  }
  auto got = fs::snapshot(c.dst);
  VMC_CHECK((err == OK) == (list != 2), "result", "the sender ends with %s", errorCodeToStr(err).c_str());
  if (list == 2) VMC_CHECK(failed.size() == 1 && failed[0] == "missing", "missing", "%zu failed sources", failed.size());
  if (!want.count(got)) fail("copied", "%s [%s; %s]", difference(got, want).c_str(), t.str().c_str(), o.str().c_str());
  outcome(names(got));
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C24";
  c.rule = "Every directory tree of the stated shapes with every placement and target of links, names, types, filters, order and type information of the listings; the queue's offer (name, size, content) is compared with the results a reference walker allows. Every failure of up to two operations of the discovery. Every explicit list up to the length, split in every way between list and generator. Whole transfers for combinations of the options.";
  c.assumptions = {"Where several names lead to one directory it is offered under one of them, whichever is found first; filters apply to that name."};
  auto add = [&](string name, std::function<void()> body, std::vector<Bounds> quick, std::vector<Bounds> deep) {
    Scenario s;
    s.name = name;
    s.body = body;
    s.quick = quick;
    s.deep = deep;
    c.scenarios.push_back(s);
  };
  add("links", links, {Bounds(0)}, {Bounds(0)});
  add("filters", filters, {Bounds(0)}, {Bounds(0)});
  add("types", types, {Bounds(0)}, {Bounds(0)});
  add("wide", wide, {Bounds(0)}, {Bounds(0)});
  add("failures", failures, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(0), Bounds(1), Bounds(2), Bounds(3)});
  add("lists", [] { lists(thorough() ? 4 : 3); }, {Bounds(0)}, {Bounds(0)});
  add("transfer", transfer, {Bounds(0)}, {Bounds(0)});
  c.scenarios.back().forked = true;
  c.quickBudget = 100;
  c.scenarios[2].budget = 3;
  c.scenarios[3].budget = 2;
  return runCheck(c, argc, argv);
}
