// C27: benchmark data tools: bigrams, statistics, generated files
#include <fcntl.h>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <thread>
#include "fib.h"
#include "vmc.h"
// Every random choice of the generator becomes a choice point: all texts it can
// produce are enumerated, not the ones its seed happens to produce.
static int randomIndex(int64_t n);
namespace std {
template <class T> struct vmc_uniform_int {
  T a, b;
  explicit vmc_uniform_int(T x = 0, T y = std::numeric_limits<T>::max()) : a(x), b(y) {}
  template <class G> T operator()(G&) { return a + randomIndex((int64_t)b - a + 1); }
  T min() const { return a; }
  T max() const { return b; }
};
}  // namespace std
namespace google { inline void vmcNoInit(const char*) {} }
#define uniform_int_distribution vmc_uniform_int
#define InitGoogleLogging vmcNoInit
#define main genMain
#include <wdt/bench/wdtGenFiles.cpp>
#undef main
#define main statsMain
#include <wdt/bench/wdtStats.cpp>
#undef main
#include <wdt/bench/Bigram.cpp>
#undef uniform_int_distribution
#undef InitGoogleLogging
using namespace vmc;
using std::string;

static std::vector<int>* script = nullptr;  // answers instead of enumeration
static std::vector<int64_t> asked;
static int randomIndex(int64_t n) {
  if (n < 1 || n > (1 << 20)) vmc::fail("random", "a choice among %ld", (long)n);
  asked.push_back(n);
  if (script) return asked.size() <= script->size() ? std::min<int64_t>((*script)[asked.size() - 1], n - 1) : 0;
  return choose((int)n, INPUT, "random");
}
static string show(const string& s) {
  string r;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127) r += c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return "'" + r + "'";
}
static string slurp(const string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void dump(const string& p, const string& d) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << d;
}
/// calls a tool's main with standard input and output in files
static int runTool(int (*tool)(int, char**), std::vector<string> args, const string* in, string* out) {
  string fi = scratch() + "/stdin", fo = scratch() + "/stdout";
  dump(fi, in ? *in : "");
  int save0 = dup(0), save1 = dup(1);
  std::cout.flush();
  fflush(stdout);
  int o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(o, 1);
  close(o);
  if (!freopen(fi.c_str(), "r", stdin)) vmc::fail("harness", "freopen");
  std::cin.clear();
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  int argc = (int)args.size();
  bool open0[64];  // the tools leave closing to the end of the process
  for (int i = 0; i < 64; ++i) open0[i] = fcntl(i, F_GETFD) >= 0;
  int rc = tool(argc, argv.data());
  for (int i = 3; i < 64; ++i) if (!open0[i]) close(i);
  std::cout.flush();
  fflush(stdout);
  dup2(save1, 1);
  dup2(save0, 0);
  close(save0);
  close(save1);
  if (out) *out = slurp(fo);
  return rc;
}
// ---- bigrams
typedef std::pair<unsigned char, unsigned char> P;
static string printable(unsigned char c) {  // as documented
  char b[16];
  if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\0%o", c); return b; }
  if (c == '\\' || c == '"') return string("\\") + (char)c;
  return string(1, (char)c);
}
static string printable(P p) { return "{\"" + printable(p.first) + printable(p.second) + "\"}"; }
static bool before(P a, P b) {
  // bytes are compared like the type char: either sign will do
  static const int flip = Bigram((char)0x7f, 0) < Bigram((char)0x80, 0) ? 0 : 0x80;
  return P(a.first ^ flip, a.second ^ flip) < P(b.first ^ flip, b.second ^ flip);
}

static void bigramOne() {
  int a = choose(256, INPUT, "first byte");
  for (int b = 0; b < 256; ++b) {
    Bigram x((char)a, (char)b);
    char t[3] = {(char)a, (char)b, 0};
    Bigram y(t);
    string d = show(string(t, 2));
    VMC_CHECK((unsigned char)x[0] == a && (unsigned char)x[1] == b, "index", "%s: indexing gives %d %d", d.c_str(), x[0], x[1]);
    VMC_CHECK(x == y && !(x != y) && !(x < y), "equal", "%s: two equal pairs differ", d.c_str());
    VMC_CHECK(std::hash<Bigram>()(x) == std::hash<Bigram>()(y), "hash", "%s: equal pairs, different hashes", d.c_str());
    string bin = "x";
    x.toBinary(bin);
    VMC_CHECK(bin == "x" + string(t, 2), "binary", "%s: binary form %s", d.c_str(), show(bin).c_str());
    std::stringstream ss;
    x.binarySerialize(ss);
    x.binarySerialize(ss);
    VMC_CHECK(ss.str() == string(t, 2) + string(t, 2), "serialize", "%s: written as %s", d.c_str(), show(ss.str()).c_str());
    for (int i = 0; i < 2; ++i) {
      Bigram z;
      VMC_CHECK(z.binaryDeserialize(ss) && z == x, "deserialize", "%s: does not read back", d.c_str());
    }
    Bigram z;
    VMC_CHECK(!z.binaryDeserialize(ss), "deserialize-end", "%s: a pair is read at the end of the stream", d.c_str());
    std::stringstream one(string(t, 1));
    VMC_CHECK(!z.binaryDeserialize(one), "deserialize-half", "%s: a pair is read from one byte", d.c_str());
    string p = "abc";
    x.toPrintableString(p);
    std::stringstream os;
    os << x;
    string want = printable(P(a, b));
    VMC_CHECK(p == "abc" + want && x.toPrintableString() == want && os.str() == want, "printable", "%s prints as %s, expected %s", d.c_str(), x.toPrintableString().c_str(), want.c_str());
    VMC_CHECK(Bigram::toPrintableString((char)b) == printable((unsigned char)b), "printable-char", "%d prints as %s", b, Bigram::toPrintableString((char)b).c_str());
    step();
  }
  state(a);
}
/// comparisons of one pair with all others: the order is that of the bytes
static void bigramOrder() {
  static const std::vector<int> some{0, 1, 'a', 'b', '"', 127, 128, 129, 254, 255};
  int a = choose(256, INPUT, "first byte");
  for (int b : some) {
    Bigram x((char)a, (char)b);
    for (int c = 0; c < 256; ++c)
      for (int d = 0; d < 256; ++d) {
        Bigram y((char)c, (char)d);
        bool same = a == c && b == d;
        VMC_CHECK((x == y) == same && (x != y) == !same, "equality", "(%d,%d) and (%d,%d)", a, b, c, d);
        VMC_CHECK((x < y) == before(P(a, b), P(c, d)), "order", "(%d,%d) < (%d,%d) is %d", a, b, c, d, x < y);
      }
    step();
  }
  state(a);
}
// ---- statistics
typedef std::map<P, uint32_t> Counts;
static Counts reference(const string& text, bool wrap) {
  Counts c;
  for (size_t i = 0; i + 1 < text.size(); ++i) c[P(text[i], text[i + 1])]++;
  if (wrap && !text.empty()) c[P(text.back(), text[0])]++;
  return c;
}
static string binaryForm(const Counts& c) {
  string s;
  for (auto& e : c) {
    s += (char)e.first.first;
    s += (char)e.first.second;
    s.append((const char*)&e.second, 4);
  }
  return s;
}
static string runStats(const string& text, bool wrap, bool binary) {
  string out;
  int rc = runTool(statsMain, {"wdt_gen_stats", wrap ? "-wrap" : "-nowrap", binary ? "-binary" : "-nobinary"}, &text, &out);
  VMC_CHECK(rc == 0, "stats-rc", "%s: exit code %d", show(text).c_str(), rc);
  return out;
}
static void checkStats(const string& text, bool wrap) {
  Counts want = reference(text, wrap);
  string what = show(text) + (wrap ? " wrapped" : "");
  string bin = runStats(text, wrap, true), txt = runStats(text, wrap, false);
  VMC_CHECK(bin.size() == 6 * want.size(), "stats-size", "%s: %zu bytes of statistics for %zu pairs", what.c_str(), bin.size(), want.size());
  Counts got;
  std::vector<std::pair<P, uint32_t>> order;
  for (size_t i = 0; i + 6 <= bin.size(); i += 6) {
    uint32_t n;
    memcpy(&n, &bin[i + 2], 4);
    P p(bin[i], bin[i + 1]);
    VMC_CHECK(!got.count(p), "stats-twice", "%s: a pair is listed twice", what.c_str());
    got[p] = n;
    order.push_back({p, n});
  }
  VMC_CHECK(got == want, "stats-counts", "%s: wrong counts: %s", what.c_str(), show(bin).c_str());
  for (size_t i = 0; i + 1 < order.size(); ++i)
    VMC_CHECK(order[i].second > order[i + 1].second || (order[i].second == order[i + 1].second && before(order[i].first, order[i + 1].first)), "stats-order", "%s: the list is not sorted: %s", what.c_str(), show(bin).c_str());
  // the text form lists the same
  string expect;
  for (auto& e : order) expect += "\t{" + printable(e.first) + ", " + std::to_string(e.second) + "},\n";
  VMC_CHECK(txt == expect, "stats-text", "%s: printed as %s instead of %s", what.c_str(), show(txt).c_str(), show(expect).c_str());
  step();
}
static string pickText(const string& alphabet, int n) {
  string s;
  for (int i = 0; i < n; ++i) s += alphabet[choose((int)alphabet.size(), INPUT, "byte")];
  return s;
}
static void stats(const string& alphabet, int n) {
  bool wrap = flip(INPUT, "wrap");
  string t = pickText(alphabet, n);
  checkStats(t, wrap);
  state(hash(t) + wrap);
}
/// every pair of bytes as a text
static void statsPairs() {
  bool wrap = flip(INPUT, "wrap");
  int a = choose(256, INPUT, "first byte");
  for (int b = 0; b < 256; ++b) checkStats(string{(char)a, (char)b}, wrap);
  state(a * 2 + wrap);
}
/// counts that need more than one byte, input longer than a buffer
static void statsLong() {
  bool wrap = flip(INPUT, "wrap");
  int n = std::vector<int>{255, 256, 257, 4095, 4096, 4097, 65536, 70001}[choose(8, INPUT, "length")];
  string unit = std::vector<string>{"a", "ab", "a\xff", "abc", string("\0x", 2)}[choose(5, INPUT, "unit")], t;
  while ((int)t.size() < n) t += unit;
  t.resize(n);
  Counts want = reference(t, wrap), got;
  string bin = runStats(t, wrap, true);
  for (size_t i = 0; i + 6 <= bin.size(); i += 6) { uint32_t k; memcpy(&k, &bin[i + 2], 4); got[P(bin[i], bin[i + 1])] = k; }
  VMC_CHECK(got == want && bin.size() == 6 * want.size(), "stats-counts", "%d bytes of %s: wrong counts %s", n, show(unit).c_str(), show(bin).c_str());
  state(n);
}
// ---- generated files
struct Gen {
  Counts stats;
  int64_t size = 4;
  int threads = 1, block = 16384;
  string start, reset;
  bool fromStdin = false;
  string existing;  // what is there before
  string str() const {
    string s;
    for (auto& e : stats) s += show(string{(char)e.first.first, (char)e.first.second}) + "x" + std::to_string(e.second) + " ";
    return s + "size " + std::to_string(size) + " threads " + std::to_string(threads) + " block " + std::to_string(block) + " start " + show(start) + " reset " + show(reset) + (existing.empty() ? "" : " over " + std::to_string(existing.size()) + " bytes");
  }
};
static std::vector<string> genArgs(const Gen& g, const string& dir, const string& statsFile) {
  char sz[64];
  snprintf(sz, sizeof sz, "-gen_size_mb=%.17g", g.size / 1048576.0);
  return {"wdt_gen_files", sz, "-num_threads=" + std::to_string(g.threads), "-gen_block_size=" + std::to_string(g.block), "-start=" + g.start, "-reset_char=" + g.reset,
          "-stats_source=" + (g.fromStdin ? "-" : statsFile), "-directory=" + dir, "-filename=out", "-noseed_with_time"};
}
static string generate(const Gen& g) {
  string dir = scratch() + "/gen";
  mkdir(dir.c_str(), 0700);
  string f = dir + "/out", sf = scratch() + "/stats";
  unlink(f.c_str());
  if (!g.existing.empty()) dump(f, g.existing);
  string bin = binaryForm(g.stats);
  dump(sf, bin);
  asked.clear();
  int rc = -1;
  fib::run([&] { rc = runTool(genMain, genArgs(g, dir, sf), g.fromStdin ? &bin : nullptr, nullptr); });
  if (chdir("/")) {}
  VMC_CHECK(rc == 0, "gen-rc", "%s: exit code %d", g.str().c_str(), rc);
  return slurp(f);
}
static void checkGenerated(const Gen& g, const string& t) {
  string what = g.str() + " gives " + show(t);
  int64_t per = g.size / g.threads;
  VMC_CHECK((int64_t)t.size() == per * g.threads, "gen-size", "%s: %zu bytes instead of %ld", what.c_str(), t.size(), (long)(per * g.threads));
  bool follows[256] = {};
  std::set<unsigned char> known;
  for (auto& e : g.stats) {
    follows[e.first.first] = true;
    known.insert(e.first.first);
    known.insert(e.first.second);
  }
  for (int i = 0; i < g.threads; ++i) {
    string c = t.substr(i * per, per);
    VMC_CHECK(c.rfind(g.start, 0) == 0, "gen-start", "%s: the part of thread %d does not begin with the text asked for", what.c_str(), i);
    for (size_t k = g.start.size(); k < c.size(); ++k) {
      VMC_CHECK(known.count((unsigned char)c[k]), "gen-byte", "%s: byte %zu of thread %d is in no pair", what.c_str(), k, i);
      if (!k) continue;
      // after a byte without successor the text starts anew
      if (!follows[(unsigned char)c[k - 1]]) continue;
      VMC_CHECK(g.stats.count(P(c[k - 1], c[k])), "gen-pair", "%s: the pair at %zu of thread %d is not in the statistics", what.c_str(), k - 1, i);
    }
  }
  step();
}
/// all non-empty sets of pairs over the alphabet
static Counts pickSet(const string& alphabet, bool weights) {
  Counts c;
  for (char x : alphabet)
    for (char y : alphabet)
      if (int w = choose(weights ? 3 : 2, INPUT, "pair")) c[P(x, y)] = w;
  if (c.empty()) prune("no statistics");
  return c;
}
static void files(const string& alphabet, int minSize, int maxSize, const std::vector<int>& threads, const std::vector<int>& blocks, const std::vector<string>& starts, const std::vector<string>& resets) {
  Gen g;
  g.stats = pickSet(alphabet, false);
  g.threads = pick(threads, "threads");
  g.size = minSize + choose(maxSize - minSize + 1, INPUT, "size");
  g.block = pick(blocks, "block");
  g.start = pick(starts, "start");
  g.reset = pick(resets, "reset");
  if (g.size < g.threads) prune("refused");
  if ((int64_t)g.start.size() > std::min<int64_t>(g.block, g.size / g.threads)) prune("the start does not fit in a block");
  // start texts that use other bytes are the user's business
  string t = generate(g);
  checkGenerated(g, t);
  outcome(std::to_string(t.size()));
  state(hash(g.str() + t));
}
/// statistics of a text, then a file from them: with -wrap there are no dead
/// ends and every pair of the file is one of the text
static void chain(const string& alphabet, int n, int size) {
  string t = pickText(alphabet, n);
  Gen g;
  string bin = runStats(t, true, true);
  for (size_t i = 0; i + 6 <= bin.size(); i += 6) { uint32_t k; memcpy(&k, &bin[i + 2], 4); g.stats[P(bin[i], bin[i + 1])] = k; }
  VMC_CHECK(g.stats == reference(t, true), "stats-counts", "%s", show(t).c_str());
  g.size = size;
  g.block = 2 + choose(2, INPUT, "block");
  g.fromStdin = flip(INPUT, "stdin");
  string o = generate(g);
  checkGenerated(g, o);
  string ring = t + t[0];
  for (size_t i = 0; i + 1 < o.size(); ++i) VMC_CHECK(ring.find(o.substr(i, 2)) != string::npos, "chain", "%s from %s has the pair %s", show(o).c_str(), show(t).c_str(), show(o.substr(i, 2)).c_str());
  state(hash(t + "/" + o));
}
/// each successor is reached by as many of the choices as it was counted
static void weights() {
  Gen g;
  g.stats = pickSet("ab", true);
  g.start = flip(INPUT, "start") ? "b" : "a";
  g.size = 2;
  unsigned char s = g.start[0];
  std::map<unsigned char, int> got, want;
  int total = 0;
  for (auto& e : g.stats) if (e.first.first == s) { want[e.first.second] = e.second; total += e.second; }
  if (!total) prune("no successor");
  for (int r = 0; r < total; ++r) {
    std::vector<int> sc{r};
    script = &sc;
    string t = generate(g);
    script = nullptr;
    checkGenerated(g, t);
    if (asked.empty()) prune("drawn in another way");
    VMC_CHECK(asked[0] == total, "weight-total", "%s: the successor is drawn from %ld, the counts add up to %d", g.str().c_str(), (long)asked[0], total);
    got[t[1]]++;
  }
  VMC_CHECK(got == want, "weights", "%s: the successors are not drawn by their counts", g.str().c_str());
  // without a start every pair may begin the text
  total = 0;
  std::map<unsigned char, int> got1, want1;
  for (auto& e : g.stats) { want1[e.first.first] += e.second; total += e.second; }
  g.start = "";
  g.size = 1;
  for (int r = 0; r < total; ++r) {
    std::vector<int> sc{r};
    script = &sc;
    string t = generate(g);
    script = nullptr;
    checkGenerated(g, t);
    got1[t[0]]++;
  }
  VMC_CHECK(got1 == want1, "weights-first", "%s: the first byte is not drawn by the counts", g.str().c_str());
  state(hash(g.str()));
}
/// counts of several bytes: the draw falls on the right successor at the edges
static void largeWeights() {
  Gen g;
  static const std::vector<uint32_t> w{1, 255, 256, 257, 65535, 65536, 70000};
  uint32_t a = pick(w, "count of aa"), b = pick(w, "count of ab"), c = pick(w, "count of ba");
  g.stats[P('a', 'a')] = a;
  g.stats[P('a', 'b')] = b;
  g.stats[P('b', 'a')] = c;
  g.start = "a";
  g.size = 2;
  for (uint32_t r : {0u, a - 1, a, a + b - 1, b - 1, b}) {
    std::vector<int> sc{(int)r};
    script = &sc;
    string t = generate(g);
    script = nullptr;
    checkGenerated(g, t);
    if (asked.empty()) prune("drawn in another way");
    VMC_CHECK(asked[0] == a + b, "weight-total", "%s: the successor is drawn from %ld, the counts add up to %u", g.str().c_str(), (long)asked[0], a + b);
  }
  // the share of a as successor: count draws around the edge between the two
  auto draw = [&](uint32_t r) { std::vector<int> sc{(int)r}; script = &sc; string t = generate(g); script = nullptr; return t[1]; };
  uint32_t first = draw(0) == 'a' ? a : b;
  VMC_CHECK(draw(first - 1) == draw(0) && draw(first) != draw(0) && draw(a + b - 1) != draw(0), "weights", "%s: the successors are not drawn by their counts", g.str().c_str());
  state(hash(g.str()));
}
/// sizes around those of blocks, buffers and megabytes
static void sizes() {
  Gen g;
  g.stats[P('a', 'b')] = g.stats[P('b', 'a')] = 1;
  g.threads = pick(std::vector<int>{1, 2, 3, 7, 16}, "threads");
  g.block = pick(std::vector<int>{1000, 16384, 100000}, "block");
  g.size = pick(std::vector<int64_t>{1000, 1048, 10485, 16383, 16384, 16385, 32767, 65537, 99999, 1048575, 1048576, 1048577, 1500000, 3145729}, "size");
  std::vector<int> sc;
  script = &sc;
  string t = generate(g);
  script = nullptr;
  asked.shrink_to_fit();
  checkGenerated(g, t);
  state(hash(g.str()));
}
/// the file exists already
static void replaced() {
  Gen g;
  g.stats = pickSet("ab", false);
  g.size = 1 + choose(4, INPUT, "size");
  g.threads = 1 + choose(2, INPUT, "threads");
  if (g.size < g.threads) prune("refused");
  g.existing = string(1 + choose(8, INPUT, "existing"), 'z');
  string t = generate(g);
  checkGenerated(g, t);
  state(hash(g.str() + t));
}
/// a request that cannot be met fails and says so in its exit code
static void refused() {
  Gen g;
  g.stats[P('a', 'a')] = 1;
  string dir = scratch() + "/gen", sf = scratch() + "/stats";
  mkdir(dir.c_str(), 0700);
  int k = choose(9, INPUT, "request");
  if (k == 0) g.size = 0;
  if (k == 1) g.threads = 5;
  if (k == 2) g.block = 0;
  if (k == 3) g.block = -1;
  if (k == 4) g.threads = 0;
  if (k == 5) g.threads = -2;
  if (k == 6) g.start = "aaaaa";
  if (k != 7) dump(sf, binaryForm(g.stats));
  if (k == 8) dir += "/none";
  std::cout.flush();
  pid_t pid = fork();
  if (!pid) {
    for (int s : {SIGABRT, SIGFPE, SIGSEGV}) signal(s, SIG_DFL);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    auto a = genArgs(g, dir, sf);
    std::vector<char*> argv;
    for (auto& x : a) argv.push_back(&x[0]);
    argv.push_back(nullptr);
    alarm(20);
    _exit(genMain((int)a.size(), argv.data()));
  }
  int st = 0;
  waitpid(pid, &st, 0);
  VMC_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "accepted", "request %d (%s) ends successfully with %zu bytes", k, g.str().c_str(), slurp(dir + "/out").size());
  VMC_CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "hangs", "request %d (%s) does not end", k, g.str().c_str());
  outcome(std::to_string(st));
  state(k);
}
int main(int argc, char** argv) {
  FLAGS_minloglevel = 3;
  Check c;
  c.property = "C27";
  c.rule = "All 65536 byte pairs (indexing, equality, order against every other pair, hash, binary and printable form, reading back); the statistics tool run on every text up to a length over small alphabets and on every two-byte text, wrapped or not, binary and text output compared with a reference count; the generator run on every non-empty set of pairs over two or three bytes, all sizes, thread counts, block sizes, starts and reset characters of a grid, with every random draw enumerated; both tools in a chain; all through the programs' main functions.";
  c.assumptions = {"Random draws go through std::uniform_int_distribution, replaced by a choice point; other sources of randomness would be followed with their fixed seed only.",
                   "What follows a byte without successor in the statistics is unspecified (the text starts anew)."};
  c.quickBudget = 100;
  auto add = [&](const string& n, std::function<void()> f, double b = 1, bool forked = false, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.budget = b;
    s.forked = forked;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  add("bigram", bigramOne);
  add("bigram-order", bigramOrder, 2);
  const string abc("a\0\xff", 3), ab("a\xfe", 2), high("a\xe1\xff");
  for (int n = 0; n <= 6; ++n) add("stats-" + std::to_string(n), [n, abc] { stats(abc, n); });
  add("stats-ab8", [ab] { stats(ab, 8); });
  add("stats-7", [abc] { stats(abc, 7); }, 2, false, true);
  add("stats-pairs", statsPairs, 3);
  add("stats-long", statsLong);
  const std::vector<string> none{""};
  add("files-2", [] { files("ab", 1, 6, {1, 2}, {1, 2, 3, 16}, {"", "a", "b", "ab", "bba"}, {"", "a", "b"}); }, 6);
  add("files-2-threads", [] { files("ab", 3, 7, {2, 3}, {1, 2, 3}, {"", "a"}, {""}); }, 4);
  add("files-3", [high] { files(high, 3, 4, {1}, {1, 3}, {"", "a", "\xff"}, {"", "a"}); }, 8);
  add("files-2-deep", [] { files("ab", 6, 9, {1, 2, 3}, {1, 2, 3, 16}, {"", "a", "b", "ab", "bba"}, {"", "a", "b"}); }, 8, false, true);
  add("files-3-deep", [high] { files(high, 5, 6, {1, 2}, {1, 2, 3}, {"", "a", "\xff", "a\xff"}, {"", "a", "\xff"}); }, 8, false, true);
  for (int n = 1; n <= 4; ++n) add("chain-" + std::to_string(n), [n, abc] { chain(abc, n, 5); });
  add("chain-6", [abc] { chain(abc, 6, 6); }, 4, false, true);
  add("weights", weights);
  add("weights-large", largeWeights);
  add("sizes", sizes);
  add("replaced", replaced);
  add("refused", refused, 1, true);
  return runCheck(c, argc, argv);
}
