// Fibers, virtual time, virtual network and file-system fault injection.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <dirent.h>
#include "vmc.h"

namespace fib {
constexpr int64_t MS = 1000000, SEC = 1000 * MS, NEVER = INT64_MAX;

struct Options {
  bool schedPoints = true;             // SCHED alternatives at sync operations
  std::vector<int64_t> delays;         // TIME: the running thread stalls this long
  bool delayOnlyIo = true;             // offer delays only at I/O points
  bool unlockPoints = false;           // also offer a switch after each unlock
  bool spurious = false;               // TIME: spurious condition wake-ups
  int64_t maxTime = 3600 * SEC;        // virtual-time horizon (livelock)
  uint64_t maxSteps = 3000000;         // step horizon
  size_t stack = 256 * 1024;
};
extern Options opt;

/// runs main() as the first fiber; returns when it returned
void run(const std::function<void()>& mainFn);
bool on();
int64_t now();              // virtual ns since start of the run
int self();                 // fiber id
int alive();                // number of live fibers
/// a scheduling point
void point(const char* what, bool io = false);
/// waits until ready() or the deadline; true if ready
bool block(const std::function<bool()>& ready, int64_t deadline, const char* what);
void addTimer(int64_t t);   // makes virtual time stop at t when idle
/// marks memory-access race tracking (tsan build); no-op otherwise
void setName(const char* n);
/// kills all fibers for which pred(id) holds, without unwinding
void killFibers(const std::function<bool(int)>& pred);
std::string where();        // what every live fiber is waiting for
/// called at every point with its label (crash injection)
extern std::function<void(const char* what)> onPoint;
/// group id inherited by created threads (e.g. sender=1, receiver=2)
void setGroup(int g);
int group();
int groupOf(int id);
int liveIn(int g);          // live fibers of a group, not counting the caller
}  // namespace fib

namespace net {
enum Act { NONE = 0, SHORT1, HALF, SHORT256, RESET, STALL, EINTR_, REFUSE, TIMEOUT, INPROGRESS, KILLPORT,
  CLOSE, CLOSEHALF };  // the connection ends, what is under way arrives (with half of this write)
struct Options {
  std::vector<Act> onRead, onWrite, onConnect, onAccept;
  int64_t stall = 60 * fib::SEC;
  size_t cap = 1 << 20;  // bytes in flight per direction
  size_t maxRead = 1 << 30, maxWrite = 1 << 30;  // segment sizes
  bool v6 = false;
  /// restrict faults: return false to offer no fault alternatives here
  std::function<bool(int port, const char* op)> faultFilter;
  /// tap: may modify the bytes written (dir 0: connecting side -> accepting side)
  std::function<void(int port, int connNo, int dir, std::string& data)> tap;
  std::function<int(int port)> bindFault;  // errno or 0
  /// socket, connect, listen and setsockopt calls (a, b: level and name, or -1)
  struct Sys { const char* what; int fd, port, family, a, b; int64_t v; };
  std::function<void(const Sys&)> onSys;
  bool blackhole = false;  // connections are never answered
};
extern Options opt;
/// set by a tap: after this data the direction ends (for the reader), is reset, or stays silent
enum Cut { CUT_NONE, CUT_FIN, CUT_RST, CUT_HOLE };
extern Cut cutNow;
void reset();
struct Stats { uint64_t conns = 0, faults = 0, reads = 0, writes = 0; };
extern Stats stats;
/// resets every connection whose owner fiber group is g, closes listeners of g
void killGroup(int g);
/// ports cut off by KILLPORT
int deadPorts();
void revivePorts();
/// open descriptors (leak checks)
int openSockets();
}  // namespace net

namespace fs {
enum Kind { OPEN, WRITE, PWRITE, READ, PREAD, FSYNC, FTRUNC, FALLOC, LSEEK, RENAME, UNLINK, MKDIR, CLOSE, STAT, FLOCK, RMDIR, OPENDIR, READDIR, SYNCRANGE };
const char* kindName(Kind k);
struct Op {
  Kind kind;
  std::string path;
  int fd = -1;
  int64_t size = 0;   // bytes requested / new size
  int flags = 0;
};
struct Act {
  int err = 0;            // fail with this errno
  int64_t limit = -1;     // transfer at most this many bytes
};
/// consulted before each operation of the code on a path below root
struct Options {
  std::string root;
  std::function<Act(const Op&)> hook;
  bool schedPoints = false;  // make file operations scheduling points
  bool log = false;          // record operations for crash-state construction
  /// may reorder and change what a directory (below root) contains, "." and ".." included
  std::function<void(const std::string& path, std::vector<dirent>&)> listing;
  std::function<void(const std::string& path, int64_t off, int64_t size)> onAdvise;  // posix_fadvise
};
extern Options opt;
struct LogRec {
  Kind kind;
  std::string path, path2, data;
  int64_t off = 0, size = 0;
  int flags = 0;
};
extern std::vector<LogRec> oplog;
void reset();
std::map<std::string, int>& openFds();  // path -> count of open descriptors below root

// tree helpers (unscheduled)
using Tree = std::map<std::string, std::string>;  // relative path -> content ("/" suffix: dir)
void writeFile(const std::string& path, const std::string& data);
std::string readFile(const std::string& path);
bool exists(const std::string& path);
Tree snapshot(const std::string& dir, bool dirs = false);
void materialize(const std::string& dir, const Tree& t);
void mkdirs(const std::string& dir);
void removeAll(const std::string& dir);
std::string describe(const Tree& t);
std::string pattern(size_t n, unsigned seed);  // deterministic content
}  // namespace fs
