// vmc: a small stateless model checker.
//
// An execution of a scenario is fully determined by the vector of values
// returned by choose().  Value 0 is the default.  The explorer enumerates every
// execution whose number of non-default choices per class stays within the
// bounds (INPUT choices are normally unbounded, i.e. always enumerated fully).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vmc {

enum Cls : uint8_t { INPUT = 0, SCHED, TIME, NET, FS, CRASH, NCLS };
constexpr int UNLIM = 1 << 20;

/// Returns a value in [0,n).
int choose(int n, Cls c, const char* tag);
/// ns alternatives of class c followed by nt alternatives of class c2
int choose2(int ns, Cls c, int nt, Cls c2, const char* tag);
inline bool flip(Cls c, const char* tag) { return choose(2, c, tag) != 0; }
template <class T>
const T& pick(const std::vector<T>& v, const char* tag, Cls c = INPUT) {
  return v[choose((int)v.size(), c, tag)];
}

/// Reports a violation of the property in this execution and ends it.
/// key identifies the failing call site/input/history (for known findings).
[[noreturn]] void fail(const std::string& key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
/// Same, but ends the execution without a violation (uninteresting branch)
[[noreturn]] void prune(const char* why);
#define VMC_CHECK(cond, key, ...)            \
  do {                                       \
    if (!(cond)) ::vmc::fail(key, __VA_ARGS__); \
  } while (0)

/// Adds to the set of distinct observed outcomes of this scenario
void outcome(const std::string& s);
/// Adds to the set of distinct states visited
void state(uint64_t h);
/// Counts steps (transitions)
void step(uint64_t n = 1);
/// A human-readable trace line; kept only in replay mode
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
/// Per-execution scratch directory (created on demand, removed afterwards)
const std::string& scratch();
/// directory shared by all executions (filled by Check::setup, read-only after)
const std::string& shared();
/// index of choices made so far
uint32_t pos();
uint64_t hash(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull) {
  return hash(s.data(), s.size(), seed);
}
/// record an example case for the evidence file
void sample(const std::string& s);
/// free-form counters for the evidence file, summed over executions
void count(const char* name, uint64_t n = 1);
bool thorough();

struct Bounds {
  int total = 0;                     // over all classes but INPUT
  int cls[NCLS] = {UNLIM, UNLIM, UNLIM, UNLIM, UNLIM, UNLIM};
  Bounds(int t = 0) : total(t) {}
  Bounds& set(Cls c, int n) { cls[c] = n; return *this; }
};

struct Scenario {
  std::string name;
  std::function<void()> body;
  bool forked = false;       // one process per execution
  std::vector<Bounds> quick{Bounds(0)};
  std::vector<Bounds> deep{};  // thorough tier (default: same as quick)
  double budget = 1.0;       // relative share of the time budget
  int cpuLimit = 20;         // CPU seconds one execution may take
  bool thoroughOnly = false;
  bool access = false;       // memory accesses of the RACE files are scheduling points (also set by a name "access-...")
};
extern bool accessPoints;    // of the scenario being executed

struct Check {
  std::string property;
  std::string level = "model_checking";
  std::string rule;                        // how cases are made/non-trivial
  std::vector<std::string> assumptions;
  std::vector<Scenario> scenarios;
  double quickBudget = 30, deepBudget = 780;  // seconds, all scenarios
  std::function<void()> setup;  // once, before the workers are forked
};

int runCheck(Check& c, int argc, char** argv);

// ---- used by the runtime -------------------------------------------------
bool inExecution();
[[noreturn]] void abandon();       // re-raise after a fiber ended the execution
[[noreturn]] void endExecution();  // normal end (forked mode)
extern uint32_t horizon;           // max choices per execution
}  // namespace vmc
