#include "fib.h"
#include "fibint.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <deque>
#include <set>
#include <unordered_map>

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

extern "C" char __executable_start, etext;

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}

namespace fib {
Options opt;
std::function<void(const char*)> onPoint;
int scopeDepth = 0;

namespace {
uintptr_t exeLo, exeHi, cxxLo, cxxHi;
int phdrCb(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) {
    cxxLo = UINTPTR_MAX;
    cxxHi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        cxxLo = std::min(cxxLo, a);
        cxxHi = std::max(cxxHi, a + i->dlpi_phdr[k].p_memsz);
      }
  }
  return 0;
}
struct Init {
  Init() {
    exeLo = (uintptr_t)&__executable_start;
    exeHi = (uintptr_t)&etext;
    dl_iterate_phdr(phdrCb, nullptr);
  }
};
__attribute__((init_priority(101))) Init g_init;

enum St { RUN, BLOCK, DONE };
struct Fiber {
  int id;
  int group = 0;
  St st = RUN;
  void* sp = nullptr;
  char* stk = nullptr;
  size_t stkSize = 0;
  std::function<bool()> ready;
  int64_t deadline = NEVER;
  bool timedOut = false;
  const char* what = "start";
  void* (*fn)(void*) = nullptr;
  std::function<void()> body;
  void* arg = nullptr;
  void* ret = nullptr;
  bool detached = false, killed = false;
  std::map<unsigned, void*> tls;
  int err = 0;
  uint64_t eh[2] = {0, 0};
  std::string name;
  void* asanFake = nullptr;
};
std::vector<Fiber*> fibers;
Fiber* cur = nullptr;
bool g_on = false;
int64_t g_now = 0;
uint64_t g_steps = 0;
std::set<int64_t> timers;
void* g_mainSp = nullptr;
std::vector<std::pair<char*, size_t>> freeStacks;
std::unordered_map<void*, std::deque<Fiber*>> condQ;
#ifdef __SANITIZE_ADDRESS__
void* g_mainFake = nullptr;
const void* g_mainBottom = nullptr;
size_t g_mainSize = 0;
#endif
}  // namespace

extern "C" void vmc_switch(void** save, void* to);
asm(R"(
.text
.globl vmc_switch
.type vmc_switch,@function
vmc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vmc_switch,.-vmc_switch
.globl vmc_entry
.type vmc_entry,@function
vmc_entry:
  xorq %rbp,%rbp
  call vmc_fiber_main
  ud2
.section .note.GNU-stack,"",@progbits
.text
)");
extern "C" void vmc_entry();

namespace {
void switchTo(Fiber* f) {
  Fiber* from = cur;
  if (f == from) return;
  int e = errno;
  void* g = (void*)__cxxabiv1::__cxa_get_globals();
  if (from) {
    from->err = e;
    memcpy(from->eh, g, 16);
  }
  memcpy(g, f->eh, 16);
  cur = f;
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_start_switch_fiber(from ? (from->st == DONE ? nullptr : &from->asanFake) : &g_mainFake, f->stk, f->stkSize);
#endif
  vmc_switch(from ? &from->sp : &g_mainSp, f->sp);
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_finish_switch_fiber(from ? from->asanFake : g_mainFake, nullptr, nullptr);
#endif
  errno = from ? from->err : e;
}
void switchMain() {
  Fiber* from = cur;
  from->err = errno;
  cur = nullptr;
  memset((void*)__cxxabiv1::__cxa_get_globals(), 0, 16);
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_start_switch_fiber(nullptr, g_mainBottom, g_mainSize);
#endif
  vmc_switch(&from->sp, g_mainSp);
}

bool enabled(Fiber* f) {
  if (f->st == RUN) return true;
  if (f->st == DONE) return false;
  if (f->deadline <= g_now) return true;
  return f->ready && f->ready();
}
void wake(Fiber* f) {
  if (f->st == BLOCK) {
    f->timedOut = !(f->ready && f->ready());
    f->st = RUN;
    f->ready = nullptr;
    f->deadline = NEVER;
  }
}

// choose who runs next; c is the calling fiber (maybe blocked or done)
void reschedule(bool io, bool offerDelay) {
  Fiber* c = cur;
  if (++g_steps > opt.maxSteps)
    vmc::fail("steps", "no progress: more than %llu steps; %s", (unsigned long long)opt.maxSteps, where().c_str());
  vmc::step();
  for (;;) {
    Fiber* en[64];
    int n = 0;
    bool curEn = c && c->st != DONE && enabled(c);
    if (curEn) en[n++] = c;
    int N = fibers.size();
    int base = c ? c->id : 0;
    for (int k = 1; k <= N && n < 60; ++k) {
      Fiber* f = fibers[(base + k) % N];
      if (f == c) continue;
      if (f->st != DONE && enabled(f)) en[n++] = f;
    }
    if (n == 0) {
      // advance time
      int64_t t = NEVER;
      for (Fiber* f : fibers)
        if (f->st == BLOCK) t = std::min(t, f->deadline);
      auto it = timers.upper_bound(g_now);
      if (it != timers.end()) t = std::min(t, *it);
      if (t == NEVER) vmc::fail("deadlock", "deadlock: nothing can run: %s", where().c_str());
      if (t > opt.maxTime)
        vmc::fail("timehorizon", "not finished after %lld virtual seconds: %s", (long long)(opt.maxTime / SEC), where().c_str());
      g_now = std::max(g_now, t);
      continue;
    }
    int nd = 0;
    if (offerDelay && curEn && !opt.delays.empty() && N > 1) nd = opt.delays.size();
    int ns = opt.schedPoints ? n : 1;
    int k = 0;
    if (ns + nd > 1) k = vmc::choose2(ns, vmc::SCHED, nd, vmc::TIME, c ? c->what : "?");
    if (k >= ns) {
      int64_t d = opt.delays[k - ns];
      vmc::note("%d stalls for %lld ms", c->id, (long long)(d / MS));
      c->st = BLOCK;
      c->ready = nullptr;
      c->deadline = g_now + d;
      c->what = "stalled";
      offerDelay = false;
      continue;
    }
    Fiber* f = en[k];
    wake(f);
    if (f != c) {
      if (vmc::verbose()) vmc::note("t=%.3f switch %d(%s) -> %d(%s)", g_now / 1e9, c ? c->id : -1, c ? c->what : "", f->id, f->what);
      switchTo(f);
    }
    return;
  }
}

char* getStack(size_t sz) {
  for (size_t i = 0; i < freeStacks.size(); ++i)
    if (freeStacks[i].second == sz) {
      char* p = freeStacks[i].first;
      freeStacks.erase(freeStacks.begin() + i);
      return p;
    }
  char* p = (char*)mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(p, 4096, PROT_NONE);
  return p + 4096;
}

Fiber* spawn(std::function<void()> body, void* (*fn)(void*), void* arg) {
  Fiber* f = new Fiber;
  f->id = fibers.size();
  f->group = cur ? cur->group : 0;
  f->body = std::move(body);
  f->fn = fn;
  f->arg = arg;
  f->stkSize = opt.stack;
  f->stk = getStack(opt.stack);
#ifdef __SANITIZE_ADDRESS__
  ASAN_UNPOISON_MEMORY_REGION(f->stk, f->stkSize);
#endif
  uintptr_t top = (uintptr_t)f->stk + f->stkSize;
  top &= ~15ull;
  void** s = (void**)top;
  *--s = nullptr;
  *--s = nullptr;               // keeps the stack 16-byte aligned at the call in vmc_entry
  *--s = (void*)vmc_entry;      // return address
  for (int i = 0; i < 6; ++i) *--s = nullptr;
  *--s = nullptr;
  uint32_t mx;
  uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  memcpy((char*)s, &mx, 4);
  memcpy((char*)s + 4, &cw, 2);
  f->sp = s;
  fibers.push_back(f);
  return f;
}
void runTlsDestructors(Fiber*) {}
}  // namespace

extern "C" void vmc_fiber_main() {
#ifdef __SANITIZE_ADDRESS__
  {
    const void* b;
    size_t s;
    static bool first = true;
    __sanitizer_finish_switch_fiber(nullptr, &b, &s);
    if (first || !g_mainBottom) {
      g_mainBottom = b;
      g_mainSize = s;
      first = false;
    }
  }
#endif
  Fiber* me = cur;
  errno = 0;
  if (me->fn)
    me->ret = me->fn(me->arg);
  else
    me->body();
  me->st = DONE;
  me->what = "done";
  runTlsDestructors(me);
  if (me->id == 0) {
    switchMain();
  }
  reschedule(false, false);
  abort();
}

bool on() { return g_on && cur; }
bool inScope(void* ra) {
  if (!g_on || !cur) return false;
  uintptr_t a = (uintptr_t)ra;
  return (a >= exeLo && a < exeHi) || (a >= cxxLo && a < cxxHi);
}
bool ownStack(const void* p) { return cur && (const char*)p >= cur->stk && (const char*)p < cur->stk + cur->stkSize; }
int64_t now() { return g_now; }
int self() { return cur ? cur->id : -1; }
int alive() {
  int n = 0;
  for (Fiber* f : fibers) n += f->st != DONE;
  return n;
}
void setName(const char* n) {
  if (cur) cur->name = n;
}
void setGroup(int g) {
  if (cur) cur->group = g;
}
int group() { return cur ? cur->group : 0; }
int groupOf(int id) { return fibers[id]->group; }
int liveIn(int g) {
  int n = 0;
  for (Fiber* f : fibers) n += f != cur && f->st != DONE && f->group == g;
  return n;
}
void addTimer(int64_t t) { timers.insert(t); }
void point(const char* what, bool io) {
  if (!on()) return;
  cur->what = what;
  if (onPoint) onPoint(what);
  reschedule(io, io || !opt.delayOnlyIo);
}
bool block(const std::function<bool()>& ready, int64_t deadline, const char* what) {
  if (!on()) return true;
  if (ready && ready()) return true;
  cur->st = BLOCK;
  cur->ready = ready;
  cur->deadline = deadline;
  cur->what = what;
  reschedule(false, false);
  return !cur->timedOut;
}
std::string where() {
  std::string s;
  for (Fiber* f : fibers)
    if (f->st != DONE) {
      s += "[" + std::to_string(f->id) + (f->name.empty() ? "" : " " + f->name) + " g" + std::to_string(f->group) + ": " + f->what;
      if (f->deadline != NEVER) s += " until " + std::to_string(f->deadline / MS) + "ms";
      s += "] ";
    }
  return s;
}
void killFibers(const std::function<bool(int)>& pred) {
  for (Fiber* f : fibers)
    if (f != cur && f->st != DONE && pred(f->id)) {
      f->st = DONE;
      f->killed = true;
      f->what = "killed";
    }
  for (auto& q : condQ)
    for (size_t i = 0; i < q.second.size();)
      if (q.second[i]->st == DONE)
        q.second.erase(q.second.begin() + i);
      else
        ++i;
}

static bool g_aborted = false;
extern "C" void vmc_fiber_abort() {
  if (!on()) return;
  g_aborted = true;
  switchMain();
}
static void cleanup() {
  for (Fiber* f : fibers) {
    if (f->stk) freeStacks.push_back({f->stk, f->stkSize});
    delete f;
  }
  fibers.clear();
  condQ.clear();
  timers.clear();
  cur = nullptr;
  g_on = false;
}
void run(const std::function<void()>& mainFn) {
  cleanup();
  g_now = 0;
  g_steps = 0;
  // exceptions must not cross the fiber boundary: vmc::fail() in in-process
  // mode throws; carry it over
  std::exception_ptr ep;
  Fiber* f = spawn(
      [&]() {
        try {
          mainFn();
        } catch (...) {
          ep = std::current_exception();
        }
      },
      nullptr, nullptr);
  f->name = "main";
  g_on = true;
  g_aborted = false;
  switchTo(f);
  g_on = false;
  cleanup();
  if (g_aborted) vmc::abandon();
  if (ep) std::rethrow_exception(ep);
}

// ------------------------------------------------------------------ pthread
#define REAL(name) \
  static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define SCOPED inScope(__builtin_return_address(0))
}  // namespace fib

using namespace fib;

extern "C" {
void vmc_rt_reset() {
  fib::opt = fib::Options();
  fib::onPoint = nullptr;
  net::opt = net::Options();
  net::reset();
  fs::opt = fs::Options();
  fs::reset();
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!SCOPED) return real(t, a, fn, arg);
  Fiber* f = spawn(nullptr, fn, arg);
  int ds = 0;
  if (a) pthread_attr_getdetachstate(a, &ds);
  f->detached = ds == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t)(f->id + 1);
  vmc_hb_fork(f->id);
  point("thread_create");
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  REAL(pthread_join);
  if (!SCOPED) return real(t, r);
  Fiber* f = fibers.at((size_t)t - 1);
  point("join");
  block([f] { return f->st == DONE; }, NEVER, "join");
  vmc_hb_join(f->id);
  if (r) *r = f->ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  REAL(pthread_detach);
  if (!SCOPED) return real(t);
  fibers.at((size_t)t - 1)->detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  REAL(pthread_self);
  if (!SCOPED) return real();
  return (pthread_t)(cur->id + 1);
}

static int lockMutex(pthread_mutex_t* m, bool tryOnly, int64_t deadline) {
  if (m->__data.__lock && m->__data.__owner == cur->id + 1) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
      m->__data.__count++;
      return 0;
    }
    if (tryOnly) return EBUSY;
    if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (m->__data.__lock) {
    if (tryOnly) return EBUSY;
    if (!block([m] { return m->__data.__lock == 0; }, deadline, "mutex")) return ETIMEDOUT;
  }
  m->__data.__lock = 1;
  m->__data.__owner = cur->id + 1;
  m->__data.__count = 1;
  vmc_hb_acquire(m);
  return 0;
}
static void unlockMutex(pthread_mutex_t* m) {
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && --m->__data.__count > 0) return;
  vmc_hb_release(m);
  m->__data.__lock = 0;
  m->__data.__owner = 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!SCOPED) return real(m);
  point("lock");
  return lockMutex(m, false, NEVER);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (!SCOPED) return real(m);
  point("trylock");
  return lockMutex(m, true, NEVER);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!SCOPED) return real(m);
  if (m->__data.__lock == 0 || m->__data.__owner != cur->id + 1)
    vmc::fail("badunlock", "mutex unlocked by a thread that does not hold it");
  unlockMutex(m);
  if (opt.unlockPoints || vmc::accessPoints) point("unlocked");
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy);
  if (!SCOPED) return real(m);
  memset((void*)m, 0, sizeof *m);
  return 0;
}

static int64_t absToVirtual(clockid_t c, const struct timespec* ts);

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  Fiber* me = cur;
  if (m->__data.__lock == 0 || m->__data.__owner != me->id + 1)
    vmc::fail("badwait", "condition wait without holding the mutex");
  if (opt.spurious && vmc::choose(2, vmc::TIME, "spurious")) {
    unlockMutex(m);
    point("spurious");
    lockMutex(m, false, NEVER);
    return 0;
  }
  condQ[c].push_back(me);
  unlockMutex(m);
  bool sig = block(
      [c, me] {
        auto i = condQ.find(c);
        return i == condQ.end() || std::find(i->second.begin(), i->second.end(), me) == i->second.end();
      },
      deadline, "cond");
  if (!sig) {
    auto& q = condQ[c];
    q.erase(std::remove(q.begin(), q.end(), me), q.end());
  }
  if (condQ[c].empty()) condQ.erase(c);
  lockMutex(m, false, NEVER);
  return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  if (!SCOPED) return real(c, m);
  point("condwait");
  return condWait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  REAL(pthread_cond_timedwait);
  if (!SCOPED) return real(c, m, ts);
  point("condtimedwait");
  return condWait(c, m, absToVirtual(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
  REAL(pthread_cond_clockwait);
  if (!SCOPED) return real(c, m, ck, ts);
  point("condclockwait");
  return condWait(c, m, absToVirtual(ck, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(pthread_cond_signal);
  if (!SCOPED) return real(c);
  point("signal");
  auto i = condQ.find(c);
  if (i != condQ.end() && !i->second.empty()) {
    int k = vmc::choose(opt.schedPoints ? (int)i->second.size() : 1, vmc::SCHED, "signal-whom");
    i->second.erase(i->second.begin() + k);
    if (i->second.empty()) condQ.erase(i);
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(pthread_cond_broadcast);
  if (!SCOPED) return real(c);
  point("broadcast");
  condQ.erase(c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(pthread_cond_destroy);
  if (!SCOPED) return real(c);
  auto i = condQ.find(c);
  if (i != condQ.end() && !i->second.empty())
    vmc::fail("conddestroy", "condition variable destroyed while %zu thread(s) wait on it", i->second.size());
  return 0;
}

// rwlock: __readers = reader count, __cur_writer = owner id+1
static int rdlock(pthread_rwlock_t* l, bool tryOnly) {
  if (l->__data.__cur_writer) {
    if (tryOnly) return EBUSY;
    if (l->__data.__cur_writer == cur->id + 1) return EDEADLK;
    block([l] { return l->__data.__cur_writer == 0; }, NEVER, "rdlock");
  }
  l->__data.__readers++;
  vmc_hb_acquire(l);
  return 0;
}
static int wrlock(pthread_rwlock_t* l, bool tryOnly) {
  if (l->__data.__cur_writer || l->__data.__readers) {
    if (tryOnly) return EBUSY;
    block([l] { return l->__data.__cur_writer == 0 && l->__data.__readers == 0; }, NEVER, "wrlock");
  }
  l->__data.__cur_writer = cur->id + 1;
  vmc_hb_acquire(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_rdlock);
  if (!SCOPED) return real(l);
  point("rdlock");
  return rdlock(l, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_tryrdlock);
  if (!SCOPED) return real(l);
  point("rdlock");
  return rdlock(l, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_wrlock);
  if (!SCOPED) return real(l);
  point("wrlock");
  return wrlock(l, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_trywrlock);
  if (!SCOPED) return real(l);
  point("wrlock");
  return wrlock(l, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_unlock);
  if (!SCOPED) return real(l);
  vmc_hb_release(l);
  if (l->__data.__cur_writer == cur->id + 1)
    l->__data.__cur_writer = 0;
  else if (l->__data.__readers > 0)
    l->__data.__readers--;
  else
    vmc::fail("badunlock", "rwlock unlocked but not held");
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_destroy);
  if (!SCOPED) return real(l);
  return 0;
}

static std::unordered_map<void*, int> onceOwner;
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  REAL(pthread_once);
  if (!SCOPED) return real(o, fn);
  point("once");
  if (*o == 2) { vmc_hb_acquire(o); return 0; }
  if (*o == 1) {
    block([o] { return *o != 1; }, NEVER, "once");
    if (*o == 2) { vmc_hb_acquire(o); return 0; }
  }
  *o = 1;
  fn();
  *o = 2;
  vmc_hb_release(o);
  return 0;
}

// function-local statics
int vmc_guard_acquire(int64_t* g) __asm__("__cxa_guard_acquire");
void vmc_guard_release(int64_t* g) __asm__("__cxa_guard_release");
void vmc_guard_abort(int64_t* g) __asm__("__cxa_guard_abort");
int vmc_guard_acquire(int64_t* g) {
  char* b = (char*)g;
  if (b[0]) { vmc_hb_acquire(g); return 0; }
  if (on() && b[1]) {
    block([b] { return b[1] == 0; }, NEVER, "static-init");
    if (b[0]) { vmc_hb_acquire(g); return 0; }
  }
  b[1] = 1;
  return 1;
}
void vmc_guard_release(int64_t* g) {
  char* b = (char*)g;
  b[1] = 0;
  b[0] = 1;
  vmc_hb_release(g);
}
void vmc_guard_abort(int64_t* g) { ((char*)g)[1] = 0; }

// thread-specific data of the code itself
static unsigned nextKey = 1000000;
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  REAL(pthread_key_create);
  if (!SCOPED) return real(k, d);
  *k = nextKey++;
  return 0;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
  REAL(pthread_setspecific);
  if (k < 1000000) return real(k, v);
  if (cur) cur->tls[k] = (void*)v;
  return 0;
}
void* pthread_getspecific(pthread_key_t k) {
  REAL(pthread_getspecific);
  if (k < 1000000) return real(k);
  return cur ? cur->tls[k] : nullptr;
}

// --------------------------------------------------------------------- time
static const int64_t kRealBase = 1600000000ll * SEC;
static const int64_t kMonoBase = 1000000ll * SEC;
static int64_t baseOf(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? kRealBase : kMonoBase; }
static int64_t absToVirtual(clockid_t c, const struct timespec* ts) {
  int64_t t;
  if (__builtin_mul_overflow((int64_t)ts->tv_sec, SEC, &t)) return NEVER;
  if (__builtin_add_overflow(t, (int64_t)ts->tv_nsec, &t)) return NEVER;
  t -= baseOf(c);
  return t < 0 ? 0 : t;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  REAL(clock_gettime);
  if (!SCOPED || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real(c, ts);
  g_now += 1000;  // reading the clock takes a microsecond
  int64_t t = baseOf(c) + g_now;
  ts->tv_sec = t / SEC;
  ts->tv_nsec = t % SEC;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  REAL(gettimeofday);
  if (!SCOPED) return real(tv, tz);
  g_now += 1000;
  int64_t t = kRealBase + g_now;
  tv->tv_sec = t / SEC;
  tv->tv_usec = (t % SEC) / 1000;
  return 0;
}
time_t time(time_t* p) {
  REAL(time);
  time_t r;
  if (!SCOPED)
    return real(p);
  r = (kRealBase + g_now) / SEC;
  if (p) *p = r;
  return r;
}
static void vsleep(int64_t ns) {
  point("sleep");
  if (ns < 1000) ns = 1000;
  block(nullptr, g_now + ns, "sleep");
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  REAL(nanosleep);
  if (!SCOPED) return real(a, b);
  vsleep(a->tv_sec * SEC + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  REAL(clock_nanosleep);
  if (!SCOPED) return real(c, flags, a, b);
  if (flags & TIMER_ABSTIME)
    vsleep(absToVirtual(c, a) - g_now);
  else
    vsleep(a->tv_sec * SEC + a->tv_nsec);
  return 0;
}
int usleep(useconds_t us) {
  REAL(usleep);
  if (!SCOPED) return real(us);
  vsleep((int64_t)us * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!SCOPED) return real(s);
  vsleep((int64_t)s * SEC);
  return 0;
}
int sched_yield(void) {
  REAL(sched_yield);
  if (!SCOPED) return real();
  // let everybody else go first
  point("yield");
  block(nullptr, g_now + 10000, "yield");
  return 0;
}

// -------------------------------------------------------------- randomness
int RAND_bytes(unsigned char* b, int n) {
  static auto real = (int (*)(unsigned char*, int))dlsym(RTLD_NEXT, "RAND_bytes");
  if (!vmc::inExecution()) return real ? real(b, n) : 0;
  static uint64_t x = 88172645463325252ull;
  for (int i = 0; i < n; ++i) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    b[i] = (unsigned char)(x >> 24);
  }
  return 1;
}
}  // extern "C"
