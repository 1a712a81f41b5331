// Scripted peers on the virtual network: plain sockets that say what a script
// tells them.  To be used inside fib::run.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <chrono>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include "fib.h"
#include "wire.h"

namespace peer {
using std::string;
inline sockaddr_in addr(int port) {
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(0x7f000001);
  return a;
}
inline int dial(int port) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = addr(port);
  if (::connect(fd, (sockaddr*)&a, sizeof a)) {
    ::close(fd);
    return -1;
  }
  return fd;
}
inline int listenOn(int port) {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = addr(port);
  if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, 5)) {
    ::close(fd);
    return -1;
  }
  return fd;
}
inline bool ready(int fd, int ms) {
  pollfd p{fd, POLLIN, 0};
  return ::poll(&p, 1, ms) > 0;
}
/// what arrives within ms (the first portion); "" on time-out or end
inline string take(int fd, int ms, bool* eof = nullptr) {
  if (!ready(fd, ms)) return "";
  char b[65536];
  ssize_t r = ::read(fd, b, sizeof b);
  if (r <= 0 && eof) *eof = true;
  return r > 0 ? string(b, r) : "";
}
/// all that arrives until nothing came for ms
inline string drain(int fd, int ms, bool* eof = nullptr) {
  string s;
  bool e = false;
  while (true) {
    string x = take(fd, ms, &e);
    s += x;
    if (x.empty()) break;
  }
  if (eof) *eof = e;
  return s;
}
/// at least n bytes, unless the peer stops for ms
inline string takeN(int fd, size_t n, int ms) {
  string s;
  while (s.size() < n) {
    string x = take(fd, ms);
    if (x.empty()) break;
    s += x;
  }
  return s;
}
inline bool put(int fd, const string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t r = ::write(fd, s.data() + o, s.size() - o);
    if (r <= 0) return false;
    o += r;
  }
  return true;
}
enum End { FIN, SILENT, NEND };
struct Step {
  string bytes;
  bool await = false;  // first wait for something from the other side
  int pauseMs = 0;     // first let time pass
};
using Script = std::vector<Step>;
/// runs a script; returns what was received
inline string play(int fd, const Script& s, End e, int awaitMs, int silentMs) {
  string got;
  for (auto& x : s) {
    if (x.pauseMs) std::this_thread::sleep_for(std::chrono::milliseconds(x.pauseMs));
    if (x.await) got += take(fd, awaitMs);
    if (!x.bytes.empty() && !put(fd, x.bytes)) break;
  }
  if (e == FIN) ::shutdown(fd, SHUT_WR);
  got += drain(fd, e == SILENT ? silentMs : awaitMs);
  ::close(fd);
  return got;
}
inline string pad(string s, size_t n = 256) {
  if (s.size() < n) s.resize(n);
  return s;
}
}  // namespace peer
