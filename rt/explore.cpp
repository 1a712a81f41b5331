#include "vmc.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>

extern "C" void vmc_rt_reset();          // provided by fiber.cpp (weak)
__attribute__((weak)) void vmc_rt_reset() {}
extern "C" void vmc_fiber_abort();
__attribute__((weak)) void vmc_fiber_abort() {}
// raw syscalls are used for anything that may be interposed
#include <sys/syscall.h>

namespace vmc {

bool accessPoints = false;
uint32_t horizon = 130000;

namespace {
constexpr uint32_t kMaxPoints = 1 << 17;
constexpr int kMaxDev = 60;
constexpr int kMaxWorkers = 16;
constexpr uint32_t kQueueCap = 1 << 13;
constexpr uint32_t kSetCap = 1 << 21;
constexpr int kMaxKnown = 64;
constexpr int kMaxCounters = 48;

struct Dev {
  uint32_t pos;
  uint16_t alt;
  uint8_t cls;
  uint8_t pad;
};
struct Item {
  uint16_t n = 0;
  uint16_t pad = 0;
  uint32_t sig = 0;
  Dev d[kMaxDev];
};
// compact local representation
struct LItem {
  uint32_t sig;
  std::vector<Dev> d;
};
struct Point {
  uint16_t n, split, chosen;
  uint8_t cls, cls2;
};
enum Done : int { RUNNING = 0, OKAY, FAILED, PRUNED, DIVERGED, HORIZON };

struct Slot {
  std::atomic<uint64_t> execNo;
  std::atomic<int> active;
  Item item;
  int done;
  uint32_t npoints;
  char key[512];
  char msg[6000];
  Point pts[kMaxPoints];
};
struct Counter {
  char name[48];
  std::atomic<uint64_t> v;
};
struct Shared {
  std::atomic<int> lock;
  std::atomic<int> stop;
  std::atomic<int> busy;
  std::atomic<uint32_t> qn;
  std::atomic<uint64_t> execs, newExecs, steps, nodes, pruned, stateHits;
  std::atomic<uint32_t> nOutcomes, nStates, nSamples;
  std::atomic<uint32_t> maxPoints;
  std::atomic<int> violated;
  Item vitem;
  char vkey[512];
  char vmsg[8000];
  int vkind;  // Done value, 100 crash, 101 hang
  std::atomic<uint64_t> knownHits[kMaxKnown];
  char knownMsg[kMaxKnown][400];
  Counter ctr[kMaxCounters];
  char samples[12][700];
  Slot slots[kMaxWorkers];
  Item queue[kQueueCap];
  std::atomic<uint64_t> outcomes[kSetCap];
  std::atomic<uint64_t> states[kSetCap];
};
Shared* S = nullptr;
Slot* slot = nullptr;  // this worker's slot
bool g_in = false;
bool g_forkedChild = false;
bool g_verbose = false;
bool g_thorough = false;
uint32_t g_pos = 0;
int g_nextDev = 0;
uint32_t g_sig = 0;
std::string g_scratch;
std::string g_scratchBase;
bool g_scratchUsed = false;
std::vector<std::string> g_known;
std::string g_prop;
int g_worker = 0;
std::map<uint64_t, char> g_seenOutcomes;

struct Abandon {};

double now() {
  timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
void lk() {
  while (S->lock.exchange(1)) syscall(SYS_sched_yield);
}
void ulk() { S->lock = 0; }

uint32_t mix(uint32_t h, uint32_t v) {
  h ^= v;
  h *= 0x9E3779B1u;
  h ^= h >> 15;
  return h;
}
bool addSet(std::atomic<uint64_t>* set, std::atomic<uint32_t>& n, uint64_t h) {
  if (!h) h = 1;
  uint32_t i = (uint32_t)((h * 0x9E3779B97F4A7C15ull) >> 32) & (kSetCap - 1);
  for (uint32_t k = 0; k < 256; ++k, i = (i + 1) & (kSetCap - 1)) {
    uint64_t cur = set[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t z = 0;
      if (set[i].compare_exchange_strong(z, h)) {
        n++;
        return true;
      }
      if (z == h) return false;
    }
  }
  return false;
}
[[noreturn]] void finish(int d) {
  slot->done = d;
  slot->npoints = g_pos;
  if (g_forkedChild) {
    fflush(stdout);
    syscall(SYS_exit_group, 0);
  }
  g_in = false;
  vmc_fiber_abort();  // does not return when called on a fiber
  throw Abandon();
}
std::string readTail(const std::string& f, size_t n) {
  int fd = syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY, 0);
  if (fd < 0) return "";
  std::string s(65536, 0);
  ssize_t r = syscall(SYS_read, fd, &s[0], s.size());
  syscall(SYS_close, fd);
  s.resize(r > 0 ? r : 0);
  // a fatal check or sanitizer line is the interesting part
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("Check failed");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p != std::string::npos) {
    size_t b = s.rfind('\n', p);
    return s.substr(b == std::string::npos ? 0 : b + 1, n);
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}
int rmOne(const char* p, const struct stat*, int flag, struct FTW*) {
  if (flag == FTW_D) syscall(SYS_chmod, p, 0700);
  syscall(SYS_unlinkat, AT_FDCWD, p, flag == FTW_DP || flag == FTW_D ? AT_REMOVEDIR : 0);
  return 0;
}
void rmTree(const std::string& d) {
  // only ever below our own scratch base
  if (g_scratchBase.empty() || d.compare(0, g_scratchBase.size(), g_scratchBase) != 0) return;
  nftw(d.c_str(), rmOne, 32, FTW_DEPTH | FTW_PHYS);
}
std::string errFile() { return g_scratchBase + "/err" + std::to_string(g_worker); }

struct Admit {
  // cost bookkeeping
  static bool within(const Bounds& b, const int* cost) {
    int t = 0;
    for (int c = 1; c < NCLS; ++c) {
      t += cost[c];
      if (cost[c] > b.cls[c]) return false;
    }
    return t <= b.total && cost[INPUT] <= b.cls[INPUT];
  }
};

void beginExec(const Item& it) {
  slot->item = it;
  slot->done = RUNNING;
  slot->npoints = 0;
  slot->key[0] = 0;
  slot->msg[0] = 0;
  g_pos = 0;
  g_nextDev = 0;
  g_sig = 0;
  g_scratchUsed = false;
}

void runBody(const Scenario& sc) {
  g_in = true;
  vmc_rt_reset();
  accessPoints = sc.access || sc.name.compare(0, 7, "access-") == 0;
  try {
    sc.body();
    slot->done = OKAY;
    slot->npoints = g_pos;
  } catch (Abandon&) {
  }
  g_in = false;
}

// runs one execution; returns kind: Done, 100 crash, 101 hang
int execute(const Scenario& sc, const Item& it, bool forceFork, int cpuLimit) {
  beginExec(it);
  slot->execNo++;
  int kind = OKAY;
  if (sc.forked || forceFork) {
    pid_t pid = fork();
    if (pid < 0) {
      perror("vmc fork");
      _exit(3);
    }
    if (pid == 0) {
      g_forkedChild = true;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit rl = {(rlim_t)cpuLimit, (rlim_t)cpuLimit + 2};
      setrlimit(RLIMIT_CPU, &rl);
      rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      if (!g_verbose) {
        int fd = syscall(SYS_openat, AT_FDCWD, errFile().c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        syscall(SYS_close, fd);
      }
      runBody(sc);
      fflush(stdout);
      syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {
    }
    if (slot->done == RUNNING) {
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
        kind = 101;
        snprintf(slot->key, sizeof(slot->key), "hang:%s", sc.name.c_str());
        snprintf(slot->msg, sizeof(slot->msg), "execution used more than %d s of CPU time without finishing", cpuLimit);
      } else {
        kind = 100;
        std::string t = readTail(errFile(), 1500);
        snprintf(slot->key, sizeof(slot->key), "crash:%s", sc.name.c_str());
        snprintf(slot->msg, sizeof(slot->msg), "process ended abnormally (%s %d): %s",
                 WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), t.c_str());
      }
    } else {
      kind = slot->done;
    }
    // a child may have created its scratch directory
    struct stat sb;
    g_scratch = g_scratchBase + "/w" + std::to_string(g_worker);
    if (syscall(SYS_newfstatat, AT_FDCWD, g_scratch.c_str(), &sb, AT_SYMLINK_NOFOLLOW) == 0) rmTree(g_scratch);
  } else {
    runBody(sc);
    kind = slot->done;
    if (g_scratchUsed) rmTree(g_scratch);
  }
  return kind;
}

int knownIndex(const char* key) {
  for (size_t i = 0; i < g_known.size() && i < (size_t)kMaxKnown; ++i)
    if (g_known[i] == key) return (int)i;
  return -1;
}

void toItem(const LItem& l, Item& it) {
  it.n = l.d.size();
  it.sig = l.sig;
  memcpy((void*)it.d, l.d.data(), l.d.size() * sizeof(Dev));
}

struct WorkerCfg {
  const Scenario* sc;
  Bounds b;
  Bounds prev;
  bool hasPrev;
  double deadline;
};

void workerLoop(int w, const WorkerCfg& cfg) {
  g_worker = w;
  slot = &S->slots[w];
  std::vector<LItem> local;
  bool isBusy = false;
  Item it;
  while (!S->stop) {
    bool got = false;
    if (!local.empty()) {
      toItem(local.back(), it);
      local.pop_back();
      got = true;
    } else {
      lk();
      if (S->qn > 0) {
        it = S->queue[--S->qn];
        got = true;
        if (!isBusy) {
          isBusy = true;
          S->busy++;
        }
      } else if (isBusy) {
        isBusy = false;
        S->busy--;
      }
      int b = S->busy;
      uint32_t q = S->qn;
      ulk();
      if (!got) {
        if (b == 0 && q == 0) break;
        timespec ts = {0, 200000};
        syscall(SYS_nanosleep, &ts, nullptr);
        continue;
      }
    }
    if (now() > cfg.deadline) {
      S->stop = 2;
      break;
    }
    slot->active = 1;
    int kind = execute(*cfg.sc, it, false, cfg.sc->cpuLimit);
    slot->active = 0;
    S->execs++;
    if (kind == PRUNED) S->pruned++;
    uint32_t np = slot->npoints;
    if (kind == DIVERGED || kind == FAILED || kind == HORIZON || kind >= 100) {
      int ki = (kind != DIVERGED) ? knownIndex(slot->key) : -1;
      if (ki >= 0) {
        if (S->knownHits[ki]++ == 0) snprintf(S->knownMsg[ki], 400, "%.390s", slot->msg);
      } else {
        lk();
        if (!S->violated) {
          S->vitem = it;
          snprintf(S->vkey, sizeof(S->vkey), "%s", slot->key);
          snprintf(S->vmsg, sizeof(S->vmsg), "%s", slot->msg);
          S->vkind = kind;
          S->violated = 1;
        }
        ulk();
        S->stop = 1;
        break;
      }
      if (kind >= 100) np = 0;
    }
    uint32_t mp = S->maxPoints;
    while (np > mp && !S->maxPoints.compare_exchange_weak(mp, np)) {
    }
    // expand
    int cost[NCLS] = {0};
    for (int i = 0; i < it.n; ++i) cost[it.d[i].cls]++;
    if (!cfg.hasPrev || !Admit::within(cfg.prev, cost)) S->newExecs++;
    uint32_t from = it.n ? it.d[it.n - 1].pos + 1 : 0;
    if (np > from) S->nodes += np - from;
    uint32_t sig = 0;
    LItem child;
    for (int i = 0; i < it.n; ++i) child.d.push_back(it.d[i]);
    size_t base = child.d.size();
    child.d.push_back({});
    for (uint32_t i = 0; i < np && i < kMaxPoints; ++i) {
      const Point& p = slot->pts[i];
      sig = mix(sig, (p.n << 16) ^ (p.split << 4) ^ p.cls);
      if (i < from) continue;
      bool okc[2] = {false, false};
      for (int k = 0; k < 2; ++k) {
        int c = k ? p.cls2 : p.cls;
        cost[c]++;
        okc[k] = Admit::within(cfg.b, cost);
        cost[c]--;
      }
      for (int a = p.n - 1; a >= 1; --a) {
        bool second = a >= p.split;
        if (!okc[second]) continue;
        if (base + 1 > (size_t)kMaxDev) {
          fprintf(stderr, "vmc: too many deviations\n");
          _exit(3);
        }
        child.d[base] = {i, (uint16_t)a, second ? p.cls2 : p.cls, 0};
        child.sig = sig;
        local.push_back(child);
      }
    }
    // share
    if (local.size() > 1 && S->qn < 64) {
      lk();
      size_t give = std::min<size_t>(local.size() / 2, 128);
      size_t k = 0;
      for (; k < give && S->qn < kQueueCap; ++k) toItem(local[k], S->queue[S->qn++]);
      ulk();
      local.erase(local.begin(), local.begin() + k);
    }
  }
  slot->active = 0;
}

std::string itemStr(const Item& it) {
  std::string s;
  for (int i = 0; i < it.n; ++i) {
    if (i) s += " ";
    s += std::to_string(it.d[i].pos) + ":" + std::to_string(it.d[i].alt) + ":" + std::to_string(it.d[i].cls);
  }
  return s;
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}
double cpuOf(pid_t p) {
  clockid_t c;
  if (clock_getcpuclockid(p, &c)) return -1;
  timespec t;
  if (syscall(SYS_clock_gettime, c, &t)) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}
}  // namespace

bool inExecution() { return g_in; }
bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }
uint32_t pos() { return g_pos; }

int choose2(int ns, Cls c, int nt, Cls c2, const char* tag) {
  int n = ns + nt;
  if (n <= 1) return 0;
  if (!g_in) return 0;
  if (g_pos >= kMaxPoints - 1 || g_pos >= horizon) {
    snprintf(slot->key, sizeof slot->key, "horizon");
    snprintf(slot->msg, sizeof slot->msg, "execution exceeded %u choice points: no progress (livelock)", g_pos);
    finish(HORIZON);
  }
  int alt = 0;
  const Item& it = slot->item;
  g_sig = mix(g_sig, ((uint32_t)n << 16) ^ ((uint32_t)ns << 4) ^ c);
  if (g_nextDev < it.n && it.d[g_nextDev].pos == g_pos) {
    const Dev& d = it.d[g_nextDev];
    alt = d.alt;
    if (alt >= n || (alt >= ns ? c2 : c) != d.cls ||
        (g_nextDev == it.n - 1 && it.sig && g_sig != it.sig)) {
      snprintf(slot->key, sizeof slot->key, "diverged");
      snprintf(slot->msg, sizeof slot->msg, "replay diverged at point %u (%s): n=%d alt=%d sig %x/%x", g_pos, tag, n, alt, g_sig, it.sig);
      finish(DIVERGED);
    }
    g_nextDev++;
  }
  Point& p = slot->pts[g_pos];
  p.n = n;
  p.split = ns;
  p.chosen = alt;
  p.cls = c;
  p.cls2 = c2;
  if (g_verbose) printf("  [%u] %s: %d of %d%s\n", g_pos, tag, alt, n, alt ? "   <== deviation/input" : "");
  ++g_pos;
  slot->npoints = g_pos;
  return alt;
}
int choose(int n, Cls c, const char* tag) { return choose2(n, c, 0, c, tag); }

void fail(const std::string& key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[5000];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_verbose) printf("FAIL key=%s: %s\n", key.c_str(), buf);
  snprintf(slot->key, sizeof slot->key, "%s", key.c_str());
  snprintf(slot->msg, sizeof slot->msg, "%s", buf);
  finish(FAILED);
}
void prune(const char* why) {
  if (g_verbose) printf("PRUNE %s\n", why);
  finish(PRUNED);
}
void abandon() { throw Abandon(); }
void endExecution() { finish(OKAY); }
void outcome(const std::string& s) {
  if (g_verbose) printf("OUTCOME %s\n", s.c_str());
  addSet(S->outcomes, S->nOutcomes, hash(s));
}
void state(uint64_t h) { addSet(S->states, S->nStates, h); }
void step(uint64_t n) { S->steps.fetch_add(n, std::memory_order_relaxed); }
void note(const char* fmt, ...) {
  if (!g_verbose) return;
  va_list ap;
  va_start(ap, fmt);
  printf("    ");
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
}
uint64_t hash(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
void sample(const std::string& s) {
  if (S->nSamples >= 12) return;
  uint32_t i = S->nSamples++;
  if (i < 12) snprintf(S->samples[i], sizeof S->samples[i], "%s", s.c_str());
}
void count(const char* name, uint64_t n) {
  for (int i = 0; i < kMaxCounters; ++i) {
    Counter& c = S->ctr[i];
    if (!strcmp(c.name, name)) {
      c.v += n;
      return;
    }
    if (!c.name[0]) {
      lk();
      if (!c.name[0]) snprintf(c.name, sizeof c.name, "%s", name);
      ulk();
      --i;
    }
  }
}
const std::string& shared() {
  static std::string d;
  if (d.empty()) {
    d = g_scratchBase + "/shared";
    syscall(SYS_mkdirat, AT_FDCWD, d.c_str(), 0755);
  }
  return d;
}
const std::string& scratch() {
  if (!g_scratchUsed) {
    g_scratch = g_scratchBase + "/w" + std::to_string(g_worker);
    syscall(SYS_mkdirat, AT_FDCWD, g_scratch.c_str(), 0700);
    g_scratchUsed = true;
  }
  return g_scratch;
}

namespace {
struct Result {
  bool violation = false;
  std::string key, msg;
  Item item;
  int kind = 0;
  int completed = -1;  // index of last bound completed
  int attempted = -1;
};

// run one bound over nWorkers; returns false on violation/crash
bool runBound(const Scenario& sc, const Bounds& b, const Bounds* prev, double deadline, int nw, Result& r, bool& capped) {
  S->stop = 0;
  S->violated = 0;
  S->busy = 0;
  S->qn = 0;
  Item root;
  root.n = 0;
  root.sig = 0;
  S->queue[S->qn++] = root;
  WorkerCfg cfg{&sc, b, prev ? *prev : Bounds(0), prev != nullptr, deadline};
  std::map<pid_t, int> pids;
  fflush(stdout);
  fflush(stderr);
  for (int w = 0; w < nw; ++w) {
    S->slots[w].active = 0;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (!sc.forked) {
        g_worker = w;
        int fd = syscall(SYS_openat, AT_FDCWD, errFile().c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        syscall(SYS_close, fd);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
      }
      workerLoop(w, cfg);
      fflush(stdout);
      syscall(SYS_exit_group, 0);
    }
    pids[p] = w;
  }
  // the first worker to start takes the root; the others must not conclude
  // that there is no work before it was taken
  std::map<int, std::pair<uint64_t, double>> watch;
  double stopAt = 0;
  while (!pids.empty()) {
    int st;
    pid_t p = syscall(SYS_wait4, -1, &st, WNOHANG, nullptr);
    if (p > 0) {
      auto i = pids.find(p);
      if (i == pids.end()) continue;
      int w = i->second;
      pids.erase(i);
      bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!clean && !S->violated && S->stop != 1) {
        // worker died inside an execution
        Slot& s = S->slots[w];
        g_worker = w;
        lk();
        S->vitem = s.item;
        S->vkind = 100;
        snprintf(S->vkey, sizeof S->vkey, "crash:%s", sc.name.c_str());
        snprintf(S->vmsg, sizeof S->vmsg, "process ended abnormally (%s %d): %s", WIFSIGNALED(st) ? "signal" : "exit",
                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), readTail(errFile(), 1500).c_str());
        S->violated = 1;
        ulk();
        S->stop = 1;
      }
      continue;
    }
    if (!sc.forked) {
      for (auto& pw : pids) {
        Slot& s = S->slots[pw.second];
        double c = cpuOf(pw.first);
        auto& wt = watch[pw.second];
        if (wt.first != s.execNo || !s.active) {
          wt = {s.execNo.load(), c};
        } else if (c - wt.second > sc.cpuLimit && S->stop == 0) {
          lk();
          S->vitem = s.item;
          S->vkind = 101;
          snprintf(S->vkey, sizeof S->vkey, "hang:%s", sc.name.c_str());
          snprintf(S->vmsg, sizeof S->vmsg, "execution used more than %d s of CPU time without finishing", sc.cpuLimit);
          S->violated = 1;
          ulk();
          S->stop = 1;
        }
      }
    }
    if (S->stop && !pids.empty()) {
      // give the others a moment, then end them
      if (stopAt == 0) stopAt = now();
      if (now() - stopAt > 5)
        for (auto& pw : pids) kill(pw.first, SIGKILL);
    }
    timespec ts = {0, 500000};
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  if (S->violated) {
    r.violation = true;
    r.key = S->vkey;
    r.msg = S->vmsg;
    r.item = S->vitem;
    r.kind = S->vkind;
    return false;
  }
  capped = S->stop == 2;
  return true;
}

int replayOne(const Scenario& sc, const Item& it, int cpu, std::string& key, std::string& msg) {
  g_worker = kMaxWorkers - 1;
  slot = &S->slots[g_worker];
  slot->active = 0;
  int k = execute(sc, it, true, cpu);
  key = slot->key;
  msg = slot->msg;
  return k;
}

bool parseItem(const std::string& s, Item& it) {
  it.n = 0;
  it.sig = 0;
  const char* p = s.c_str();
  while (*p) {
    unsigned a, b, c;
    int n = 0;
    if (sscanf(p, " %u:%u:%u%n", &a, &b, &c, &n) < 3) break;
    it.d[it.n++] = {a, (uint16_t)b, (uint8_t)c, 0};
    p += n;
  }
  return true;
}
std::string slurp(const std::string& f) {
  FILE* fp = fopen(f.c_str(), "r");
  if (!fp) return "";
  std::string s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
  fclose(fp);
  return s;
}
std::string jget(const std::string& j, const std::string& k) {
  size_t p = j.find("\"" + k + "\"");
  if (p == std::string::npos) return "";
  p = j.find('"', j.find(':', p));
  size_t e = p + 1;
  std::string o;
  while (e < j.size() && j[e] != '"') {
    if (j[e] == '\\') ++e;
    o += j[e++];
  }
  return o;
}
}  // namespace

int runCheck(Check& c, int argc, char** argv) {
  // same addresses in every run
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("VMC_REEXEC")) {
    setenv("VMC_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::string evid = "evidence/" + c.property + ".json", known, replay, only, devs;
  int nw = sysconf(_SC_NPROCESSORS_ONLN);
  double budgetOverride = 0;
  int boundOverride = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--evidence") evid = val();
    else if (a == "--known") known = val();
    else if (a == "--replay") replay = val();
    else if (a == "--only") only = val();
    else if (a == "--devs") devs = val();
    else if (a == "--workers") nw = atoi(val().c_str());
    else if (a == "--budget") budgetOverride = atof(val().c_str());
    else if (a == "--bound") boundOverride = atoi(val().c_str());
    else if (a == "--list") {
      for (auto& s : c.scenarios) printf("%s\n", s.name.c_str());
      return 0;
    }
  }
  g_thorough = tier == "thorough";
  nw = std::max(1, std::min(nw, kMaxWorkers - 1));
  g_prop = c.property;
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  slot = &S->slots[0];
  {
    char t[] = "/dev/shm/vmc.XXXXXX";
    if (!mkdtemp(t)) {
      char t2[] = "/tmp/vmc.XXXXXX";
      if (!mkdtemp(t2)) return 3;
      g_scratchBase = t2;
    } else {
      g_scratchBase = t;
    }
  }
  struct Cleanup {
    ~Cleanup() { rmTree(g_scratchBase); }
  } cleanup;
  if (c.setup) {
    shared();
    c.setup();
  }
  if (!known.empty()) {
    // lines: known <TAB> property <TAB> key <TAB> description
    std::string k = slurp(known);
    size_t p = 0;
    while (p < k.size()) {
      size_t e = k.find('\n', p);
      if (e == std::string::npos) e = k.size();
      std::string l = k.substr(p, e - p);
      p = e + 1;
      std::string pre = "known\t" + c.property + "\t";
      if (l.compare(0, pre.size(), pre) == 0) {
        std::string rest = l.substr(pre.size());
        g_known.push_back(rest.substr(0, rest.find('\t')));
      }
    }
  }
  double t0 = now();
  if (!replay.empty() || !devs.empty() || (!only.empty() && getenv("VMC_TRACE"))) {
    std::string sn = only, ds = devs;
    if (!replay.empty()) {
      std::string j = slurp(replay);
      sn = jget(j, "scenario");
      ds = jget(j, "choices");
    }
    for (auto& s : c.scenarios)
      if (s.name == sn) {
        Item it;
        parseItem(ds, it);
        g_verbose = true;
        std::string key, msg;
        int k = replayOne(s, it, 120, key, msg);
        printf("replay result: %d key=%s %s\n", k, key.c_str(), msg.c_str());
        return k == OKAY || k == PRUNED ? 0 : 1;
      }
    fprintf(stderr, "no scenario %s\n", sn.c_str());
    return 3;
  }
  double total = g_thorough ? c.deepBudget : c.quickBudget;
  if (budgetOverride > 0) total = budgetOverride;
  double wsum = 0;
  std::vector<Scenario*> todo;
  for (auto& s : c.scenarios) {
    if (!only.empty() && s.name.compare(0, only.size(), only) != 0) continue;
    if (s.thoroughOnly && !g_thorough && only.empty()) continue;
    todo.push_back(&s);
    wsum += s.budget;
  }
  // the light ones first: the time they leave goes to the heavy ones
  std::stable_sort(todo.begin(), todo.end(), [](Scenario* a, Scenario* b) { return a->budget < b->budget; });
  uint64_t sumNew = 0, sumNodes = 0, sumSteps = 0, sumExecs = 0, sumOutcomes = 0, sumStates = 0, sumPruned = 0;
  std::string perScenario;
  bool allComplete = true;
  Result r;
  Scenario* bad = nullptr;
  double spare = total;
  for (size_t si = 0; si < todo.size() && !r.violation; ++si) {
    Scenario& sc = *todo[si];
    double share = spare * sc.budget / wsum;  // unused time flows to later scenarios
    double st0 = now();
    double deadline = st0 + share;
    S->execs = S->newExecs = S->steps = S->nodes = S->pruned = 0;
    S->nOutcomes = 0;
    S->nStates = 0;
    S->maxPoints = 0;
    memset((void*)S->outcomes, 0, sizeof S->outcomes);
    memset((void*)S->states, 0, sizeof S->states);
    std::vector<Bounds> bs = g_thorough && !sc.deep.empty() ? sc.deep : sc.quick;
    if (boundOverride >= 0) {
      Bounds b = bs.back();
      b.total = boundOverride;
      bs = {b};
    }
    int completed = -1;
    bool capped = false;
    for (size_t bi = 0; bi < bs.size(); ++bi) {
      if (!runBound(sc, bs[bi], bi ? &bs[bi - 1] : nullptr, deadline, nw, r, capped)) {
        bad = &sc;
        break;
      }
      if (capped) break;
      completed = (int)bi;
    }
    double el = now() - st0;
    spare -= el;
    wsum -= sc.budget;
    if (completed != (int)bs.size() - 1) allComplete = false;
    sumNew += S->newExecs;
    sumNodes += S->nodes;
    sumSteps += S->steps;
    sumExecs += S->execs;
    sumOutcomes += S->nOutcomes;
    sumStates += S->nStates;
    sumPruned += S->pruned;
    char b[600];
    snprintf(b, sizeof b,
             "%-34s execs=%llu new=%llu nodes=%llu maxpoints=%u outcomes=%u states=%u pruned=%llu bound=%d/%d%s %.1fs",
             sc.name.c_str(), (unsigned long long)S->execs, (unsigned long long)S->newExecs, (unsigned long long)S->nodes,
             S->maxPoints.load(), S->nOutcomes.load(), S->nStates.load(), (unsigned long long)S->pruned,
             completed >= 0 ? bs[completed].total : -1, bs.back().total, completed != (int)bs.size() - 1 ? " (capped)" : "", el);
    printf("%s\n", b);
    if (!perScenario.empty()) perScenario += ",\n";
    snprintf(b, sizeof b,
             "    {\"scenario\":\"%s\",\"executions\":%llu,\"distinct_outcomes\":%u,\"states\":%u,\"decision_nodes\":%llu,"
             "\"deviation_bound_completed\":%d,\"deviation_bound_attempted\":%d,\"complete\":%s,\"seconds\":%.2f}",
             jesc(sc.name).c_str(), (unsigned long long)S->newExecs, S->nOutcomes.load(), S->nStates.load(),
             (unsigned long long)S->nodes, completed >= 0 ? bs[completed].total : -1, bs.back().total,
             completed == (int)bs.size() - 1 ? "true" : "false", el);
    perScenario += b;
  }
  int rc = 0;
  std::string rfile;
  if (r.violation) {
    // replay before report
    std::string key, msg;
    int k = 0;
    bool ok = false;
    if (r.kind == DIVERGED) {
      printf("vmc: ERROR divergence in %s: %s\n", bad->name.c_str(), r.msg.c_str());
    }
    {
      r.item.sig = 0;
      k = replayOne(*bad, r.item, bad->cpuLimit * 3, key, msg);
      ok = k == FAILED || k == HORIZON || k >= 100;
      printf("vmc: violation candidate in %s [%s]: %s\n  choices: %s\n  replay in a fresh process: %d [%s] %s\n", bad->name.c_str(),
             r.key.c_str(), r.msg.c_str(), itemStr(r.item).c_str(), k, key.c_str(), msg.c_str());
      if (ok && knownIndex(key.c_str()) >= 0) ok = false;
    }
    bool sequential = false;
    if (!ok) {
      // not reproducible alone: state may leak between executions of the code
      // under test; re-run the scenario sequentially from the start in a fresh
      // process and see whether it fails again
      Result r2;
      bool capped = false;
      for (auto& b : g_thorough && !bad->deep.empty() ? bad->deep : bad->quick) {
        if (!runBound(*bad, b, nullptr, now() + 120, 1, r2, capped)) break;
      }
      if (r2.violation && r2.kind != DIVERGED) {
        ok = true;
        sequential = true;
        r = r2;
        key = r2.key;
        msg = r2.msg + " (reproduces only in a sequential run of the scenario: state leaks between independent executions)";
        printf("vmc: reproduced sequentially: %s\n", msg.c_str());
      }
    }
    if (ok) {
      std::string dir = evid.substr(0, evid.rfind('/') == std::string::npos ? 0 : evid.rfind('/'));
      if (dir.empty()) dir = ".";
      rfile = dir + "/replay-" + c.property + ".json";
      FILE* f = fopen(rfile.c_str(), "w");
      if (f) {
        fprintf(f, "{\"property\":\"%s\",\"scenario\":\"%s\",\"choices\":\"%s\",\"sequential\":\"%s\",\"key\":\"%s\",\"message\":\"%s\"}\n",
                c.property.c_str(), jesc(bad->name).c_str(), itemStr(r.item).c_str(), sequential ? "yes" : "no", jesc(key).c_str(),
                jesc(msg).c_str());
        fclose(f);
      }
      rc = 1;
    } else {
      printf("vmc: ERROR candidate violation did not replay\n");
      rc = 3;
    }
  }
  for (size_t i = 0; i < g_known.size() && i < (size_t)kMaxKnown; ++i)
    printf("KNOWN-FINDING: property=%s %s (seen in %llu executions of this run) %s\n", c.property.c_str(), g_known[i].c_str(),
           (unsigned long long)S->knownHits[i], S->knownMsg[i]);
  double wall = now() - t0;
  std::string tmp = evid + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if (f) {
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", c.property.c_str(),
            g_thorough ? "thorough" : "quick", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, c.level.c_str());
    uint64_t st = sumStates ? sumStates : sumNodes + sumNew;
    if (c.level == "model_checking") {
      fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)st,
              (unsigned long long)(sumSteps + sumNodes), (unsigned long long)sumNew);
    } else {
      fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)sumNew,
              (unsigned long long)sumOutcomes);
    }
    fprintf(f, "  \"rule\": \"%s\",\n", jesc(c.rule).c_str());
    fprintf(f, "  \"state_meaning\": \"%s\",\n",
            sumStates ? "distinct canonical states reported by the harness" : "decision nodes of the execution tree plus terminal states");
    fprintf(f, "  \"executions\": %llu,\n  \"re_executions\": %llu,\n  \"pruned\": %llu,\n  \"distinct_outcomes\": %llu,\n  \"exhaustive\": %s,\n",
            (unsigned long long)sumNew, (unsigned long long)(sumExecs - sumNew), (unsigned long long)sumPruned,
            (unsigned long long)sumOutcomes, allComplete ? "true" : "false");
    fprintf(f, "  \"counters\": {");
    for (int i = 0, first = 1; i < kMaxCounters; ++i)
      if (S->ctr[i].name[0]) {
        fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", S->ctr[i].name, (unsigned long long)S->ctr[i].v);
        first = 0;
      }
    fprintf(f, "},\n  \"samples\": [");
    for (uint32_t i = 0; i < S->nSamples && i < 12; ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(S->samples[i]).c_str());
    if (!S->nSamples) fprintf(f, "\"all-default execution of %s\"", todo.empty() ? "" : jesc(todo[0]->name).c_str());
    fprintf(f, "],\n  \"scenarios\": [\n%s\n  ]\n },\n \"assumptions\": [", perScenario.c_str());
    for (size_t i = 0; i < c.assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(c.assumptions[i]).c_str());
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, rc == 1 ? 1 : 0);
    fclose(f);
    rename(tmp.c_str(), evid.c_str());
  }
  printf("%s %s: executions=%llu outcomes=%llu wall=%.1fs %s\n", c.property.c_str(), g_thorough ? "thorough" : "quick",
         (unsigned long long)sumNew, (unsigned long long)sumOutcomes, wall, allComplete ? "complete" : "capped");
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", c.property.c_str(), rfile.c_str());
  fflush(stdout);
  return rc;
}
}  // namespace vmc

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=2000";
}
#endif
