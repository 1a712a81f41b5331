#include "fib.h"
#include "fibint.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <set>

namespace fs {
Options opt;
std::vector<LogRec> oplog;
static std::map<int, std::string> fdPath;
static std::set<int> directFds;
static bool misaligned(int fd, const void* b, size_t n, int64_t o) { return directFds.count(fd) && (((uintptr_t)b | n | o) % 512); }
static std::map<std::string, int> g_open;
std::map<std::string, int>& openFds() {
  g_open.clear();
  for (auto& f : fdPath) g_open[f.second]++;
  return g_open;
}
const char* kindName(Kind k) {
  static const char* n[] = {"open", "write", "pwrite", "read", "pread", "fsync", "ftruncate", "fallocate", "lseek", "rename", "unlink", "mkdir", "close", "stat", "flock", "rmdir", "opendir", "readdir", "sync_file_range"};
  return n[k];
}
void reset() {
  oplog.clear();
  fdPath.clear();
}
static bool tracked(const char* p) {
  if (opt.root.empty() || !p) return false;
  return strncmp(p, opt.root.c_str(), opt.root.size()) == 0;
}
static const std::string* pathOf(int fd) {
  auto i = fdPath.find(fd);
  return i == fdPath.end() ? nullptr : &i->second;
}
static Act consult(Kind k, const std::string& path, int fd, int64_t size, int flags = 0) {
  if (opt.schedPoints) fib::point(kindName(k), true);
  if (!opt.hook) return Act();
  Op o;
  o.kind = k;
  o.path = path;
  o.fd = fd;
  o.size = size;
  o.flags = flags;
  Act a = opt.hook(o);
  if (a.err) vmc::note("fs: %s(%s) fails with errno %d", kindName(k), path.c_str(), a.err);
  else if (a.limit >= 0) vmc::note("fs: %s(%s) limited to %lld of %lld", kindName(k), path.c_str(), (long long)a.limit, (long long)size);
  return a;
}
static void logOp(Kind k, const std::string& p, int64_t off, int64_t size, const void* d = nullptr, const std::string& p2 = "", int flags = 0) {
  if (!opt.log) return;
  LogRec r;
  r.kind = k;
  r.path = p;
  r.path2 = p2;
  r.off = off;
  r.size = size;
  r.flags = flags;
  if (d) r.data.assign((const char*)d, size);
  oplog.push_back(std::move(r));
}

ssize_t fileRead(int fd, void* b, size_t n, ssize_t (*real)(int, void*, size_t)) {
  auto p = pathOf(fd);
  if (!p) return real(fd, b, n);
  Act a = consult(READ, *p, fd, n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  return real(fd, b, a.limit >= 0 ? std::min<size_t>(n, a.limit) : n);
}
ssize_t fileWrite(int fd, const void* b, size_t n, ssize_t (*real)(int, const void*, size_t)) {
  auto p = pathOf(fd);
  if (!p) return real(fd, b, n);
  std::string path = *p;
  Act a = consult(WRITE, path, fd, n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  int64_t off = 0;
  if (opt.log) {
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    off = (fl & O_APPEND) ? lseek(fd, 0, SEEK_END) : syscall(SYS_lseek, fd, 0, SEEK_CUR);
  }
  ssize_t r = real(fd, b, a.limit >= 0 ? std::min<size_t>(n, a.limit) : n);
  if (r > 0) logOp(WRITE, path, off, r, b);
  return r;
}
int fileClose(int fd, int (*real)(int)) {
  auto p = pathOf(fd);
  if (!p) return real(fd);
  Act a = consult(CLOSE, *p, fd, 0);
  fdPath.erase(fd);
  int r = real(fd);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  return r;
}
}  // namespace fs

using namespace fs;
#define REALT(type, name) static auto real = (type)dlsym(RTLD_NEXT, #name)
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define SCOPED fib::inScope(__builtin_return_address(0))
// file operations are also intercepted when no fibers run (sequential harnesses)
extern "C" char __executable_start, etext;
static inline bool exeCaller(void* ra) { return (uintptr_t)ra >= (uintptr_t)&__executable_start && (uintptr_t)ra < (uintptr_t)&etext; }
#define FSSCOPED (!fs::opt.root.empty() && vmc::inExecution() && exeCaller(__builtin_return_address(0)))

extern "C" {
static int openCommon(int (*real)(const char*, int, ...), const char* p, int fl, mode_t m) {
  bool existed = syscall(SYS_faccessat, AT_FDCWD, p, F_OK) == 0;
  Act a = consult(OPEN, p, -1, 0, fl);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  // O_DIRECT is emulated: a memory file system refuses it
  int fd = real(p, fl & ~O_DIRECT, m);
  if (fd >= 0) {
    if (fl & O_DIRECT) directFds.insert(fd);
    else directFds.erase(fd);
    fdPath[fd] = p;
    if ((fl & O_CREAT) || (fl & O_TRUNC)) logOp(OPEN, p, existed ? 1 : 0, 0, nullptr, "", fl);
  }
  return fd;
}
int open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  REALT(int (*)(const char*, int, ...), open);
  if (!FSSCOPED || !tracked(p)) return real(p, fl, m);
  return openCommon(real, p, fl, m);
}
int open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  REALT(int (*)(const char*, int, ...), open64);
  if (!FSSCOPED || !tracked(p)) return real(p, fl, m);
  return openCommon(real, p, fl, m);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  REAL(pread);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, b, n, o);
  Act a = consult(PREAD, *p, fd, n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  if (misaligned(fd, b, n, o)) {
    vmc::note("fs: misaligned direct read at %lld, %zu bytes", (long long)o, n);
    errno = EINVAL;
    return -1;
  }
  return real(fd, b, a.limit >= 0 ? std::min<size_t>(n, a.limit) : n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  REAL(pwrite);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, b, n, o);
  std::string path = *p;
  Act a = consult(PWRITE, path, fd, n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  ssize_t r = real(fd, b, a.limit >= 0 ? std::min<size_t>(n, a.limit) : n, o);
  if (r > 0) logOp(WRITE, path, o, r, b);
  return r;
}
int fsync(int fd) {
  REAL(fsync);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd);
  Act a = consult(FSYNC, *p, fd, 0);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  logOp(FSYNC, *p, 0, 0);
  return 0;  // nothing to wait for on a memory file system
}
int fdatasync(int fd) {
  REAL(fdatasync);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd);
  Act a = consult(FSYNC, *p, fd, 0);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  logOp(FSYNC, *p, 0, 0);
  return 0;
}
int sync_file_range(int fd, off64_t o, off64_t n, unsigned fl) {
  REAL(sync_file_range);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, o, n, fl);
  Act a = consult(SYNCRANGE, *p, fd, n, (int)o);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  return 0;
}
int posix_fadvise(int fd, off_t o, off_t n, int adv) {
  REAL(posix_fadvise);
  if (fs::opt.onAdvise && FSSCOPED)
    if (auto p = pathOf(fd)) fs::opt.onAdvise(*p, o, n);
  return real(fd, o, n, adv);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, n);
  Act a = consult(FTRUNC, *p, fd, n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  int r = real(fd, n);
  if (r == 0) logOp(FTRUNC, *p, 0, n);
  return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n) {
  REAL(posix_fallocate);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, o, n);
  Act a = consult(FALLOC, *p, fd, n);
  if (a.err) return a.err;
  int r = real(fd, o, n);
  if (r == 0) logOp(FALLOC, *p, o, n);
  return r;
}
off_t lseek(int fd, off_t o, int w) {
  REAL(lseek);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, o, w);
  Act a = consult(LSEEK, *p, fd, o);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  return real(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int rename(const char* a, const char* b) {
  REAL(rename);
  if (!FSSCOPED || !tracked(a)) return real(a, b);
  Act x = consult(RENAME, a, -1, 0);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  int r = real(a, b);
  if (r == 0) logOp(RENAME, a, 0, 0, nullptr, b);
  return r;
}
int unlink(const char* a) {
  REAL(unlink);
  if (!FSSCOPED || !tracked(a)) return real(a);
  Act x = consult(UNLINK, a, -1, 0);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  int r = real(a);
  if (r == 0) logOp(UNLINK, a, 0, 0);
  return r;
}
int mkdir(const char* a, mode_t m) {
  REAL(mkdir);
  if (!FSSCOPED || !tracked(a)) return real(a, m);
  Act x = consult(MKDIR, a, -1, 0);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  int r = real(a, m);
  if (r == 0) logOp(MKDIR, a, 0, 0);
  return r;
}
int stat(const char* p, struct stat* st) {
  REAL(stat);
  if (!FSSCOPED || !tracked(p)) return real(p, st);
  Act x = consult(STAT, p, -1, 0);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  return real(p, st);
}
int lstat(const char* p, struct stat* st) {
  REAL(lstat);
  if (!FSSCOPED || !tracked(p)) return real(p, st);
  Act x = consult(STAT, p, -1, 1);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  return real(p, st);
}
int fstat(int fd, struct stat* st) {
  REAL(fstat);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (!p) return real(fd, st);
  Act x = consult(STAT, *p, fd, 2);
  if (x.err) {
    errno = x.err;
    return -1;
  }
  return real(fd, st);
}
struct Listing {
  std::string path;
  std::vector<dirent> entries;
  size_t next = 0;
};
static std::map<DIR*, Listing> listings;
static dirent* realReaddir(DIR* d) {
  static auto real = (dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir");
  return real(d);
}
DIR* opendir(const char* p) {
  REAL(opendir);
  if (!FSSCOPED || !tracked(p)) return real(p);
  Act x = consult(OPENDIR, p, -1, 0);
  if (x.err) {
    errno = x.err;
    return nullptr;
  }
  DIR* d = real(p);
  if (d && opt.listing) {
    Listing l;
    l.path = p;
    while (dirent* e = realReaddir(d)) l.entries.push_back(*e);
    opt.listing(l.path, l.entries);
    listings[d] = l;
  }
  return d;
}
dirent* readdir(DIR* d) {
  auto i = listings.find(d);
  if (i == listings.end()) return realReaddir(d);
  Listing& l = i->second;
  Act x = consult(READDIR, l.path, -1, 0);
  if (x.err) {
    errno = x.err;
    return nullptr;
  }
  return l.next < l.entries.size() ? &l.entries[l.next++] : nullptr;
}
int closedir(DIR* d) {
  REAL(closedir);
  listings.erase(d);
  return real(d);
}
int flock(int fd, int op) {
  REAL(flock);
  auto p = FSSCOPED ? pathOf(fd) : nullptr;
  if (p) {
    Act x = consult(FLOCK, *p, fd, op);
    if (x.err) {
      errno = x.err;
      return -1;
    }
  }
  if (fib::on() && !(op & LOCK_NB)) {
    int r = 0;
    fib::block([&] { r = real(fd, op | LOCK_NB); return r == 0 || errno != EWOULDBLOCK; }, fib::NEVER, "flock");
    return r;
  }
  return real(fd, op);
}
}

// ---------------------------------------------------------------- helpers
namespace fs {
struct Unhooked {
  std::string r;
  Unhooked() { r.swap(opt.root); }
  ~Unhooked() { r.swap(opt.root); }
};
void mkdirs(const std::string& d) {
  Unhooked u;
  for (size_t i = 1; i <= d.size(); ++i)
    if (i == d.size() || d[i] == '/') syscall(SYS_mkdirat, AT_FDCWD, d.substr(0, i).c_str(), 0755);
}
void writeFile(const std::string& p, const std::string& s) {
  Unhooked u;
  size_t k = p.rfind('/');
  if (k != std::string::npos && k > 0) mkdirs(p.substr(0, k));
  int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = syscall(SYS_write, fd, s.data() + o, s.size() - o);
    if (r <= 0) break;
    o += r;
  }
  syscall(SYS_close, fd);
}
std::string readFile(const std::string& p) {
  int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
  std::string s;
  if (fd < 0) return s;
  char b[65536];
  ssize_t r;
  while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, r);
  syscall(SYS_close, fd);
  return s;
}
bool exists(const std::string& p) { return syscall(SYS_faccessat, AT_FDCWD, p.c_str(), F_OK) == 0; }
static void snap(const std::string& d, const std::string& rel, Tree& t, bool dirs) {
  DIR* dp = opendir(d.c_str());
  if (!dp) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(dp)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(dp);
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    struct stat st;
    std::string full = d + "/" + n;
    if (syscall(SYS_newfstatat, AT_FDCWD, full.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue;
    if (S_ISDIR(st.st_mode)) {
      if (dirs) t[rel + n + "/"] = "";
      snap(full, rel + n + "/", t, dirs);
    } else if (S_ISLNK(st.st_mode)) {
      char b[4096];
      ssize_t k = readlink(full.c_str(), b, sizeof b);
      t[rel + n] = "->" + std::string(b, k > 0 ? k : 0);
    } else {
      t[rel + n] = st.st_size > (64 << 20) ? "<" + std::to_string(st.st_size) + " bytes>" : readFile(full);
    }
  }
}
Tree snapshot(const std::string& d, bool dirs) {
  Unhooked u;
  Tree t;
  snap(d, "", t, dirs);
  return t;
}
void materialize(const std::string& d, const Tree& t) {
  mkdirs(d);
  for (auto& f : t)
    if (!f.first.empty() && f.first.back() == '/')
      mkdirs(d + "/" + f.first.substr(0, f.first.size() - 1));
    else
      writeFile(d + "/" + f.first, f.second);
}
static int rmOne(const char* p, const struct stat*, int flag, struct FTW*) {
  syscall(SYS_unlinkat, AT_FDCWD, p, flag == FTW_DP || flag == FTW_D ? AT_REMOVEDIR : 0);
  return 0;
}
void removeAll(const std::string& d) {
  Unhooked u;
  if (d.compare(0, vmc::scratch().size(), vmc::scratch()) != 0) return;
  nftw(d.c_str(), rmOne, 32, FTW_DEPTH | FTW_PHYS);
}
std::string describe(const Tree& t) {
  std::string s;
  for (auto& f : t) {
    char b[400];
    snprintf(b, sizeof b, "%s(%zu,%016llx) ", f.first.c_str(), f.second.size(), (unsigned long long)vmc::hash(f.second));
    s += b;
  }
  return s;
}
std::string pattern(size_t n, unsigned seed) {
  std::string s(n, 0);
  uint32_t x = seed * 2654435761u + 12345;
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13;
    x ^= x >> 17;
    x ^= x << 5;
    s[i] = (char)(x >> 7);
  }
  return s;
}
}  // namespace fs
