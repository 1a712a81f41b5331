// Self-test of the explorer: known bugs must be found, known-good code passes.
#include "fib.h"
#include <mutex>
#include <thread>
#include <condition_variable>
#include <atomic>
using namespace vmc;
static void lost(bool bug) {
  fib::run([&] {
    std::mutex m; int x = 0;
    auto f = [&] { int t; { std::lock_guard<std::mutex> l(m); t = x; if (!bug) x = t + 1; } if (bug) { std::lock_guard<std::mutex> l(m); x = t + 1; } };
    std::thread a(f), b(f); a.join(); b.join();
    outcome(std::to_string(x));
    VMC_CHECK(x == 2, "lost", "lost update x=%d", x);
  });
}
static void cv() {
  fib::run([&] {
    std::mutex m; std::condition_variable c; bool rdy = false; int got = 0;
    std::thread a([&] { std::unique_lock<std::mutex> l(m); while (!rdy) c.wait_for(l, std::chrono::milliseconds(50)); got = 1; });
    std::this_thread::sleep_for(std::chrono::milliseconds(120));
    { std::lock_guard<std::mutex> l(m); rdy = true; } c.notify_one(); a.join();
    outcome(std::to_string(got) + " t=" + std::to_string(fib::now() / fib::MS));
  });
}
static void enumr() { int a = choose(10, INPUT, "a"), b = choose(10, INPUT, "b"), c = choose(a + 1, INPUT, "c"); outcome(std::to_string(a * 100 + b * 10 + c)); }
int main(int argc, char** argv) {
  Check c; c.property = "SELF"; c.rule = "self test";
  bool bug = getenv("BUG") != nullptr;
  c.scenarios.push_back({"lost", [bug] { lost(bug); }, false, {Bounds(0), Bounds(1), Bounds(2), Bounds(3)}});
  c.scenarios.push_back({"lostf", [bug] { lost(bug); }, true, {Bounds(0), Bounds(1), Bounds(2)}});
  c.scenarios.push_back({"cv", [] { cv(); }, false, {Bounds(0), Bounds(1), Bounds(2), Bounds(3)}});
  c.scenarios.push_back({"enum", [] { enumr(); }, false});
  if (getenv("CRASH")) { c.scenarios.push_back({"crash", [] { if (choose(1000, INPUT, "x") == 777) abort(); }, false});}
  if (getenv("HANG")) { c.scenarios.push_back({"hang", [] { if (choose(1000, INPUT, "x") == 777) for (volatile int i = 0;;i=i+1); }, false}); c.scenarios.back().cpuLimit = 2; }
  return runCheck(c, argc, argv);
}
