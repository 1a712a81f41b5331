#pragma once
#include <folly/Range.h>
#include <fcntl.h>
#include <unistd.h>
#include <string>
namespace folly {
inline int openNoInt(const char* n, int f, mode_t m = 0666) { return ::open(n, f, m); }
inline int closeNoInt(int fd) { return ::close(fd); }
inline ssize_t readFull(int fd, void* b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = ::read(fd, (char*)b + d, n - d); if (r < 0) { if (errno == EINTR) continue; return r; } if (!r) break; d += r; } return d; }
inline ssize_t writeFull(int fd, const void* b, size_t n) { size_t d = 0; while (d < n) { ssize_t r = ::write(fd, (const char*)b + d, n - d); if (r < 0) { if (errno == EINTR) continue; return r; } d += r; } return d; }
template <class C> bool readFile(const char* n, C& out) { int fd = ::open(n, O_RDONLY); if (fd < 0) return false; out.clear(); char b[4096]; ssize_t r; while ((r = ::read(fd, b, sizeof b)) > 0) out.insert(out.end(), b, b + r); ::close(fd); return r == 0; }
template <class C> bool writeFile(const C& d, const char* n, int f = O_WRONLY | O_CREAT | O_TRUNC, mode_t m = 0666) { int fd = ::open(n, f, m); if (fd < 0) return false; bool ok = writeFull(fd, d.data(), d.size()) == (ssize_t)d.size(); return ::close(fd) == 0 && ok; }
}
