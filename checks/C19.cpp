// C19: barrier, funnel, once-only sections, condition guard, thread states
#include <wdt/util/ThreadsController.h>
#include <wdt/util/CommonImpl.h>
#include <wdt/AbortChecker.h>
#include <memory>
#include <set>
#include <thread>
#include "fib.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);
struct Abortable : IAbortChecker {
  bool flag = false;
  bool shouldAbort() const override { return flag; }
};

/// n threads registered with the controller; each passes the given number of
/// barriers in turn unless it leaves early
static void barrier(int n, int nb, bool twoSessions) {
  fib::run([&] {
    ThreadsController ctl(n);
    ctl.setNumBarriers(nb);
    for (int session = 0; session < (twoSessions ? 2 : 1); ++session) {
      if (session) ctl.reset();
      std::vector<int> stop(n), entered(n, 0), left(n, 0), passed(n, 0);
      for (int i = 0; i < n; ++i) stop[i] = nb - choose(nb + 1, INPUT, "leaves");  // barriers it takes part in
      for (int i = 0; i < n; ++i) ctl.registerThread(i);
      std::vector<std::thread> ts;
      for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
          for (int b = 0; b < stop[i]; ++b) {
            fib::point("before");
            entered[i] = b + 1;
            ctl.getBarrier(b)->execute();
            for (int j = 0; j < n; ++j)
              VMC_CHECK(entered[j] > b || left[j], "early", "thread %d passed barrier %d before thread %d came to it or left", i, b, j);
            passed[i] = b + 1;
          }
          fib::point("leaving");
          left[i] = 1;
          ctl.deRegisterThread(i);
          VMC_CHECK(ctl.getState(i) == FINISHED, "state", "thread that left is not finished");
        });
      for (auto& t : ts) t.join();
      for (int i = 0; i < n; ++i) VMC_CHECK(passed[i] == stop[i], "passed", "thread %d", i);
      VMC_CHECK(!ctl.hasThreads(RUNNING) && ctl.numRunningThreads() == 0, "running", "threads run after all have left");
    }
  });
}
/// one-time section with failures; timed: the receiver's way of waiting
static void funnel(int n, bool timed, bool sessions) {
  WdtOptions o;
  o.abort_check_interval_millis = 200;
  fib::run([&] {
    ThreadsController ctl(n);
    ctl.setNumFunnels(2);
    for (int session = 0; session < (sessions ? 2 : 1); ++session) {
      if (session) ctl.reset();
      int inside = 0, done = 0, fails = 0, ended = 0;
      std::vector<std::thread> ts;
      for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
          ThreadCtx ctx(o, false, i);
          Abortable ab;
          ctx.setAbortChecker(&ab);
          for (;;) {
            auto f = ctl.getFunnel(1);
            FunnelStatus st = f->getStatus();
            if (st == FUNNEL_END) {
              VMC_CHECK(done == 1, "end-early", "section reported done, but it ran %d times", done);
              ++ended;
              return;
            }
            if (st == FUNNEL_PROGRESS) {
              if (timed) f->wait(1000, ctx);
              else f->wait();
              continue;
            }
            VMC_CHECK(++inside == 1, "two", "two threads in the section");
            VMC_CHECK(done == 0, "again", "section runs again");
            fib::point("section", true);
            bool ok = !flip(INPUT, "fails");
            --inside;
            if (ok) {
              ++done;
              f->notifySuccess();
              ++ended;
              return;
            }
            ++fails;
            f->notifyFail();
            return;
          }
        });
      for (auto& t : ts) t.join();
      VMC_CHECK(done == (fails < n), "ran", "section ran %d times with %d failures", done, fails);
      VMC_CHECK(ended + fails == n, "all", "threads missing");
      if (timed) VMC_CHECK(fib::now() < (int64_t)(n + 1) * 60 * fib::SEC, "slow", "took %ld ms", (long)(fib::now() / fib::MS));
      else VMC_CHECK(fib::now() < fib::MS || !fib::opt.delays.empty(), "slow", "waited %ld ms", (long)(fib::now() / fib::MS));
      // untouched
      VMC_CHECK(ctl.getFunnel(0)->getStatus() == FUNNEL_START, "other", "another funnel moved");
      outcome(std::to_string(fails));
    }
  });
}
static void once(int n, int sessions) {
  fib::run([&] {
    ThreadsController ctl(n);
    for (int s = 0; s < sessions; ++s) {
      if (s) ctl.reset();
      int first = 0, last = 0, entered = 0, inFirst = 0, beforeEnd = 0;
      std::vector<std::thread> ts;
      for (int i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
          ctl.executeAtStart([&] {
            inFirst = 1;
            fib::point("first");
            ++first;
            inFirst = 0;
          });
          VMC_CHECK(first == 1 && !inFirst, "first", "passed while the first section ran %d times", first);
          ++entered;
          fib::point("work");
          ++beforeEnd;
          ctl.executeAtEnd([&] {
            VMC_CHECK(beforeEnd == n, "last-early", "last section with %d of %d threads", beforeEnd, n);
            fib::point("last");
            ++last;
          });
        });
      for (auto& t : ts) t.join();
      VMC_CHECK(first == 1 && last == 1, "count", "first section ran %d times, last %d times", first, last);
    }
  });
}
/// waiters of a condition with time-outs, notification and abort
static void guard(int waiters, bool all) {
  WdtOptions o;
  int check = pick(std::vector<int>{0, 100, 250, 1000}, "check");
  o.abort_check_interval_millis = check;
  fib::run([&] {
    ConditionGuard cg;
    bool ready = false;
    Abortable ab;
    int act = choose(3, INPUT, "act");  // nothing, notify, abort
    int at = pick(std::vector<int>{0, 50, 110, 640, 699, 701}, "at");
    int ms = pick(std::vector<int>{1, 100, 700}, "timeout");
    std::vector<int64_t> woke(waiters, -1);
    int64_t notified = -1;
    std::vector<std::thread> ts;
    for (int i = 0; i < waiters; ++i)
      ts.emplace_back([&, i] {
        ThreadCtx ctx(o, false, i);
        ctx.setAbortChecker(&ab);
        auto g = cg.acquire();
        int64_t t0 = fib::now();
        if (!ready) {
          g.wait(ms, ctx);
          int64_t d = (fib::now() - t0) / fib::MS;
          VMC_CHECK(d <= ms, "late", "waited %ld ms instead of %d", (long)d, ms);
          bool aborted = act == 2 && check && d >= at;
          VMC_CHECK(d == ms || ready || aborted, "early", "woke after %ld of %d ms without reason", (long)d, ms);
        }
        woke[i] = fib::now();
        if (ready && !all) g.notifyOne();
      });
    std::thread setter([&] {
      if (act == 0) return;
      std::this_thread::sleep_for(std::chrono::milliseconds(at));
      auto g = cg.acquire();
      if (act == 1) {
        ready = true;
        notified = fib::now();
        if (all) g.notifyAll();
        else g.notifyOne();
      } else {
        ab.flag = true;
        notified = fib::now();
      }
    });
    for (auto& t : ts) t.join();
    setter.join();
    for (int i = 0; i < waiters; ++i) {
      if (act == 1 && at < ms) VMC_CHECK(woke[i] <= notified + fib::MS, "wake-late", "thread %d woke %ld ms after the notification", i, (long)((woke[i] - notified) / fib::MS));
      if (act == 2 && check) VMC_CHECK(woke[i] <= std::max<int64_t>(notified, 0) + (check + 1) * fib::MS, "abort-late", "thread %d noticed the abort after %ld ms", i, (long)((woke[i] - notified) / fib::MS));
    }
    outcome(std::to_string(act) + (ready ? "r" : ""));
  });
}
/// thread states against a map
static void states(int n, int depth) {
  ThreadsController ctl(n);
  VMC_CHECK(ctl.getTotalThreads() == n, "total", "%d threads", ctl.getTotalThreads());
  std::vector<ThreadStatus> ref(n, INIT);
  for (int d = 0;; ++d) {
    auto m = ctl.getThreadStates();
    VMC_CHECK((int)m.size() == n, "map", "%zu states", m.size());
    int running = 0;
    for (int i = 0; i < n; ++i) {
      VMC_CHECK(m[i] == ref[i] && ctl.getState(i) == ref[i], "state", "thread %d has state %d instead of %d", i, m[i], ref[i]);
      running += ref[i] == RUNNING;
    }
    VMC_CHECK(ctl.numRunningThreads() == running, "running", "%d running instead of %d", ctl.numRunningThreads(), running);
    for (ThreadStatus s : {INIT, RUNNING, WAITING, FINISHED})
      for (int i = -1; i < n; ++i) {
        bool want = false;
        for (int j = 0; j < n; ++j) want |= j != i && ref[j] == s;
        bool got = i < 0 ? ctl.hasThreads(s) : ctl.hasThreads(i, s);
        VMC_CHECK(got == want, "has", "hasThreads(%d, %d) is %d", i, s, got);
      }
    state(hash(ref.data(), n * sizeof(ref[0])));
    if (d == depth) break;
    int op = choose(5, INPUT, "op");
    if (op == 4) {
      ctl.reset();
      std::fill(ref.begin(), ref.end(), RUNNING);
      continue;
    }
    int i = choose(n, INPUT, "thread");
    switch (op) {
      case 0: ctl.registerThread(i); ref[i] = RUNNING; break;
      case 1: ctl.markState(i, WAITING); ref[i] = WAITING; break;
      case 2: ctl.markState(i, FINISHED); ref[i] = FINISHED; break;
      case 3: ctl.deRegisterThread(i); ref[i] = FINISHED; break;
    }
  }
}
/// the receiving threads' way to agree on the end: a thread waits until no
/// other is running; the last one to stop running must release all
static void agree(int n) {
  WdtOptions o;
  o.abort_check_interval_millis = 200;
  fib::run([&] {
    ThreadsController ctl(n);
    ctl.setNumConditions(1);
    for (int i = 0; i < n; ++i) ctl.registerThread(i);
    std::vector<int> fail(n);
    for (auto& f : fail) f = flip(INPUT, "fails");
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        ThreadCtx ctx(o, false, i);
        Abortable ab;
        ctx.setAbortChecker(&ab);
        fib::point("work");
        auto cv = ctl.getCondition(0);
        if (!fail[i]) {
          ctl.markState(i, WAITING);
          for (;;) {
            auto g = cv->acquire();
            if (!ctl.hasThreads(i, RUNNING)) {
              ctl.markState(i, FINISHED);
              g.notifyOne();
              break;
            }
            g.wait(60000, ctx);
          }
        } else {
          auto g = cv->acquire();
          ctl.markState(i, FINISHED);
          g.notifyOne();
        }
        ctl.deRegisterThread(i);
      });
    for (auto& t : ts) t.join();
    // nobody had to wait for its time-out
    VMC_CHECK(fib::now() < 60 * fib::SEC, "timeout", "a thread waited for its time-out (%ld ms)", (long)(fib::now() / fib::MS));
  });
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C19";
  c.rule = "groups of two to four threads using barriers, one-time sections, once-only functions, conditions and thread states through the real controller: every schedule within the preemption bound, every choice of threads that leave early or fail, every notification and abort moment of a list; thread-state operations against a map, all sequences up to a depth";
  auto add = [&](const char* n, std::function<void()> f, int q, int t, double b = 1) {
    Scenario s{n, f};
    s.quick.clear();
    for (int i = 0; i <= q; ++i) s.quick.push_back(Bounds(i));
    for (int i = 0; i <= t; ++i) s.deep.push_back(Bounds(i));
    s.budget = b;
    c.scenarios.push_back(s);
  };
  add("barrier-2", [] { barrier(2, 2, false); }, 4, 6);
  add("barrier-3", [] { barrier(3, 1, false); }, 3, 5);
  add("barrier-3x2", [] { barrier(3, 2, false); }, 2, 4);
  add("barrier-sessions", [] { barrier(2, 1, true); }, 3, 5);
  add("barrier-4", [] { barrier(4, 1, false); }, 2, 3);
  add("funnel-2", [] { funnel(2, false, false); }, 5, 8);
  add("funnel-3", [] { funnel(3, false, false); }, 3, 5);
  add("funnel-timed-2", [] { funnel(2, true, false); }, 4, 6);
  add("funnel-timed-3", [] { funnel(3, true, false); }, 3, 4);
  add("funnel-sessions", [] { funnel(2, false, true); }, 3, 5);
  add("funnel-4", [] { funnel(4, false, false); }, 2, 3);
  add("once-2", [] { once(2, 2); }, 4, 6);
  add("once-3", [] { once(3, 1); }, 4, 5);
  add("guard-1", [] { guard(1, false); }, 2, 4);
  add("guard-2", [] { guard(2, false); }, 2, 3);
  add("guard-2all", [] { guard(2, true); }, 2, 3);
  add("states-2", [] { states(2, thorough() ? 7 : 5); }, 0, 0);
  add("states-3", [] { states(3, thorough() ? 6 : 4); }, 0, 0);
  add("access-barrier-2", [] { barrier(2, 2, false); }, 2, 3);
  add("access-barrier-3", [] { barrier(3, 1, false); }, 2, 3);
  add("access-funnel-2", [] { funnel(2, false, false); }, 3, 5);
  add("access-funnel-3", [] { funnel(3, true, false); }, 2, 4);
  add("access-once-2", [] { once(2, 2); }, 3, 4);
  add("access-guard-2", [] { guard(2, false); }, 2, 3);
  add("access-agree-2", [] { agree(2); }, 2, 3);
  add("agree-2", [] { agree(2); }, 4, 6);
  add("agree-3", [] { agree(3); }, 3, 4);
  return runCheck(c, argc, argv);
}
