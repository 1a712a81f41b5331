#include "fib.h"
#include "fibint.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <deque>
#include <memory>

namespace net {
Options opt;
Cut cutNow = CUT_NONE;
Stats stats;
namespace {
constexpr int kBase = 100000;
struct Pipe {
  std::string buf;
  size_t off = 0;
  bool fin = false;       // writer will send no more
  bool rst = false;       // reset seen by the reader
  bool gone = false;      // reader closed: data is dropped
  bool cut = false, hole = false;  // cut off by the tap (hole: silently)
  int64_t stallUntil = 0;
  uint64_t written = 0, writtenAtStall = 0;
  size_t avail() const { return fib::now() < stallUntil ? 0 : buf.size() - off; }
  size_t queued() const { return buf.size() - off; }
};
struct Conn {
  int port = 0, no = 0;
  Pipe p[2];  // p[0]: client->server, p[1]: server->client
  int group[2] = {0, 0};
  bool closed[2] = {false, false};
};
enum Kind { NEW, LISTEN, CONN };
struct Sock {
  Kind kind = NEW;
  int fd = 0;
  int family = AF_INET;
  int port = 0;
  int grp = 0;
  bool nonblock = false;
  int64_t rcvto = 0, sndto = 0;
  std::shared_ptr<Conn> c;
  int side = 0;
  int soError = 0;
  bool connecting = false;
  bool neverConnects = false;
  std::deque<std::shared_ptr<Conn>> backlog;
  int backlogMax = 0;
};
std::map<int, std::shared_ptr<Sock>> socks;
int nextFd = kBase, nextPort = 20000, nextConn = 1;
std::map<int, bool> dead;
void killPort(int port);

std::shared_ptr<Sock> get(int fd) {
  auto i = socks.find(fd);
  return i == socks.end() ? nullptr : i->second;
}
std::shared_ptr<Sock> listener(int port, int family) {
  for (auto& s : socks)
    if (s.second->kind == LISTEN && s.second->port == port && s.second->family == family) return s.second;
  return nullptr;
}
int portOf(const sockaddr* a) {
  return ntohs(a->sa_family == AF_INET6 ? ((const sockaddr_in6*)a)->sin6_port : ((const sockaddr_in*)a)->sin_port);
}
void resetConn(Conn& c) {
  for (int i = 0; i < 2; ++i) {
    c.p[i].buf.clear();
    c.p[i].off = 0;
    c.p[i].rst = true;
    c.p[i].fin = true;
    c.p[i].stallUntil = 0;
  }
}
// the connection ends for both sides, but what is under way still arrives
void endConn(Conn& c) {
  for (int i = 0; i < 2; ++i) c.p[i].fin = true;
}
void stallConn(Conn& c) {
  int64_t t = fib::now() + opt.stall;
  for (int i = 0; i < 2; ++i) {
    if (fib::now() >= c.p[i].stallUntil) c.p[i].writtenAtStall = c.p[i].written;
    c.p[i].stallUntil = t;
  }
  fib::addTimer(t);
}
Act pickAct(const std::vector<Act>& menu, int port, const char* op) {
  if (menu.empty()) return NONE;
  if (opt.faultFilter && !opt.faultFilter(port, op)) return NONE;
  int k = vmc::choose((int)menu.size() + 1, vmc::NET, op);
  if (k) stats.faults++;
  return k ? menu[k - 1] : NONE;
}
void killPort(int port) {
  vmc::note("net: port %d is cut off", port);
  dead[port] = true;
  for (auto& s : socks)
    if (s.second->kind == CONN && s.second->c && s.second->c->port == port) resetConn(*s.second->c);
}
void closeSock(Sock& s) {
  if (s.kind == LISTEN) {
    for (auto& c : s.backlog) {
      resetConn(*c);
      c->closed[1] = true;
    }
    s.backlog.clear();
  } else if (s.kind == CONN && s.c) {
    Conn& c = *s.c;
    Pipe& in = c.p[1 - s.side];
    Pipe& out = c.p[s.side];
    c.closed[s.side] = true;
    if (in.queued() > 0 && !in.rst) {
      // unread data: the kernel sends a reset
      out.rst = true;
      out.fin = true;
    } else {
      out.fin = true;
    }
    in.gone = true;
    in.buf.clear();
    in.off = 0;
  }
}
bool established(Sock& s) {
  if (!s.connecting) return true;
  if (s.neverConnects) return false;
  auto l = listener(s.port, s.family);
  return !l || (int)l->backlog.size() <= l->backlogMax;
}
// completes a pending connect if possible
void tryEstablish(Sock& s) {
  if (!s.connecting || s.neverConnects) return;
  auto l = listener(s.port, s.family);
  if (!l) {
    s.connecting = false;
    s.soError = ECONNREFUSED;
    return;
  }
  if ((int)l->backlog.size() > l->backlogMax) return;
  auto c = std::make_shared<Conn>();
  c->port = s.port;
  c->no = nextConn++;
  c->group[0] = s.grp;
  c->group[1] = l->grp;
  s.kind = CONN;
  s.c = c;
  s.side = 0;
  s.connecting = false;
  stats.conns++;
  l->backlog.push_back(c);
}
bool readable(Sock& s) {
  if (s.kind == LISTEN) return !s.backlog.empty();
  if (s.kind != CONN) return false;
  Pipe& in = s.c->p[1 - s.side];
  return in.avail() > 0 || in.rst || (((in.fin || in.cut) && !in.hole) && in.queued() == 0 && fib::now() >= in.stallUntil);
}
bool writable(Sock& s) {
  if (s.connecting) return established(s);
  if (s.kind != CONN) return s.soError != 0;
  Pipe& out = s.c->p[s.side];
  return out.rst || out.gone || out.queued() < opt.cap;
}
}  // namespace

int deadPorts() { return dead.size(); }
void revivePorts() { dead.clear(); }
void reset() {
  dead.clear();
  socks.clear();
  nextFd = kBase;
  nextPort = 20000;
  nextConn = 1;
  stats = Stats();
}
int openSockets() { return socks.size(); }
void killGroup(int g) {
  for (auto i = socks.begin(); i != socks.end();) {
    if (i->second->grp == g) {
      Sock& s = *i->second;
      if (s.kind == CONN && s.c) {
        closeSock(s);
      } else {
        closeSock(s);
      }
      i = socks.erase(i);
    } else {
      ++i;
    }
  }
}

ssize_t doRead(Sock& s, void* b, size_t n) {
  stats.reads++;
  fib::point("sock-read", true);
  if (s.kind != CONN) {
    errno = ENOTCONN;
    return -1;
  }
  auto c = s.c;
  Pipe& in = c->p[1 - s.side];
  size_t lim = std::min(n, opt.maxRead);
  if (n == 0) return 0;
  switch (pickAct(opt.onRead, c->port, "read")) {
    case SHORT1: lim = 1; break;
    case HALF: lim = std::max<size_t>(1, std::min(n, std::max<size_t>(1, in.avail())) / 2); break;
    case SHORT256: lim = std::min<size_t>(n, 256); break;
    case RESET: vmc::note("net: reset conn %d", c->no); resetConn(*c); break;
    case STALL: vmc::note("net: stall conn %d", c->no); stallConn(*c); break;
    case EINTR_: errno = EINTR; return -1;
    case KILLPORT: killPort(c->port); break;
    case CLOSE: vmc::note("net: end conn %d", c->no); endConn(*c); break;
    default: break;
  }
  if (!readable(s)) {
    if (s.nonblock) {
      errno = EAGAIN;
      return -1;
    }
    int64_t dl = s.rcvto ? fib::now() + s.rcvto : fib::NEVER;
    Sock* sp = &s;
    if (!fib::block([sp] { return readable(*sp); }, dl, "read-wait")) {
      errno = EAGAIN;
      return -1;
    }
  }
  size_t a = in.avail();
  if (a == 0) {
    if (in.rst) {
      errno = ECONNRESET;
      return -1;
    }
    return 0;  // end of stream
  }
  size_t k = std::min(std::min(a, n), lim);
  memcpy(b, in.buf.data() + in.off, k);
  in.off += k;
  if (in.off == in.buf.size()) {
    in.buf.clear();
    in.off = 0;
  }
  return k;
}
ssize_t doWrite(Sock& s, const void* b, size_t n) {
  stats.writes++;
  fib::point("sock-write", true);
  if (s.kind != CONN) {
    errno = ENOTCONN;
    return -1;
  }
  auto c = s.c;
  Pipe& out = c->p[s.side];
  size_t lim = std::min(n, opt.maxWrite);
  bool endAfter = false;
  if (n == 0) return 0;
  switch (pickAct(opt.onWrite, c->port, "write")) {
    case SHORT1: lim = 1; break;
    case HALF: lim = std::max<size_t>(1, n / 2); break;
    case SHORT256: lim = std::min<size_t>(n, 256); break;
    case RESET: vmc::note("net: reset conn %d", c->no); resetConn(*c); break;
    case STALL: vmc::note("net: stall conn %d", c->no); stallConn(*c); break;
    case EINTR_: errno = EINTR; return -1;
    case KILLPORT: killPort(c->port); break;
    case CLOSE: vmc::note("net: end conn %d", c->no); endConn(*c); break;
    case CLOSEHALF: vmc::note("net: end conn %d", c->no); lim = std::max<size_t>(1, n / 2); endAfter = true; break;
    default: break;
  }
  size_t done = 0;
  int64_t dl = s.sndto ? fib::now() + s.sndto : fib::NEVER;
  while (done < lim) {
    if (out.rst || out.fin || c->p[1 - s.side].rst) {
      if (done) return done;
      errno = out.fin && !out.rst ? EPIPE : ECONNRESET;
      return -1;
    }
    if (out.gone) {
      // peer closed: data is accepted, then the reset arrives
      out.rst = true;
      c->p[1 - s.side].rst = true;
      return n;
    }
    size_t room = out.queued() < opt.cap ? opt.cap - out.queued() : 0;
    if (!room) {
      if (s.nonblock) {
        if (done) return done;
        errno = EAGAIN;
        return -1;
      }
      Sock* sp = &s;
      if (!fib::block([sp] { return writable(*sp); }, dl, "write-wait")) {
        if (done) return done;
        errno = EAGAIN;
        return -1;
      }
      continue;
    }
    size_t k = std::min(room, lim - done);
    std::string data((const char*)b + done, k);
    cutNow = CUT_NONE;
    if (opt.tap && !out.cut) opt.tap(c->port, c->no, s.side, data);
    if (out.cut) data.clear();  // cut off earlier: the bytes vanish
    if (out.off > 65536) {
      out.buf.erase(0, out.off);
      out.off = 0;
    }
    if (!out.rst && !out.gone) out.buf += data;
    out.written += data.size();
    if (cutNow != CUT_NONE && !out.cut) {
      out.cut = true;
      if (cutNow == CUT_RST) resetConn(*c);
      if (cutNow == CUT_HOLE) out.hole = true;
    }
    cutNow = CUT_NONE;
    done += k;
  }
  if (endAfter) endConn(*c);
  return done;
}
bool isSock(int fd) { return fd >= kBase; }
}  // namespace net

using namespace net;
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
#define SCOPED fib::inScope(__builtin_return_address(0))

namespace fs {
ssize_t fileRead(int fd, void* b, size_t n, ssize_t (*real)(int, void*, size_t));
ssize_t fileWrite(int fd, const void* b, size_t n, ssize_t (*real)(int, const void*, size_t));
int fileClose(int fd, int (*real)(int));
}

extern "C" {
int socket(int d, int t, int p) {
  REAL(socket);
  if (!SCOPED || (d != AF_INET && d != AF_INET6)) return real(d, t, p);
  auto s = std::make_shared<Sock>();
  s->fd = nextFd++;
  s->family = d;
  s->grp = fib::group();
  socks[s->fd] = s;
  if (opt.onSys) opt.onSys({"socket", s->fd, 0, d, -1, -1, 0});
  return s->fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) {
  REAL(bind);
  if (!isSock(fd)) return real(fd, a, l);
  auto s = get(fd);
  int port = portOf(a);
  if (opt.bindFault) {
    int e = opt.bindFault(port);
    if (e) {
      errno = e;
      return -1;
    }
  }
  if (port == 0) {
    port = nextPort++;
  } else if (listener(port, s->family)) {
    errno = EADDRINUSE;
    return -1;
  }
  s->port = port;
  return 0;
}
int listen(int fd, int b) {
  REAL(listen);
  if (!isSock(fd)) return real(fd, b);
  auto s = get(fd);
  if (s->kind != LISTEN && listener(s->port, s->family)) {
    errno = EADDRINUSE;
    return -1;
  }
  s->kind = LISTEN;
  s->backlogMax = b;
  if (opt.onSys) opt.onSys({"listen", fd, s->port, s->family, -1, -1, b});
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  REAL(getsockname);
  if (!isSock(fd)) return real(fd, a, l);
  auto s = get(fd);
  sockaddr_in sin;
  memset(&sin, 0, sizeof sin);
  sin.sin_family = s->family;
  sin.sin_port = htons(s->port);
  memcpy(a, &sin, std::min<size_t>(*l, sizeof sin));
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  REAL(accept);
  if (!isSock(fd)) return real(fd, a, l);
  fib::point("accept", true);
  auto s = get(fd);
  if (!s || s->kind != LISTEN) {
    errno = EBADF;
    return -1;
  }
  if (pickAct(opt.onAccept, s->port, "accept") != NONE) {
    if (!s->backlog.empty()) {
      resetConn(*s->backlog.front());
      s->backlog.pop_front();
    }
    errno = ECONNABORTED;
    return -1;
  }
  if (s->backlog.empty()) {
    Sock* sp = s.get();
    fib::block([sp] { return !sp->backlog.empty(); }, fib::NEVER, "accept-wait");
  }
  auto n = std::make_shared<Sock>();
  n->fd = nextFd++;
  n->kind = CONN;
  n->family = s->family;
  n->port = s->port;
  n->grp = fib::group();
  n->c = s->backlog.front();
  n->side = 1;
  s->backlog.pop_front();
  socks[n->fd] = n;
  if (a && l) {
    sockaddr_in sin;
    memset(&sin, 0, sizeof sin);
    sin.sin_family = AF_INET;
    sin.sin_port = htons(40000 + n->c->no);
    sin.sin_addr.s_addr = htonl(0x7f000001);
    memcpy(a, &sin, std::min<size_t>(*l, sizeof sin));
    *l = sizeof sin;
  }
  return n->fd;
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
  REAL(connect);
  if (!isSock(fd)) return real(fd, a, l);
  fib::point("connect", true);
  auto s = get(fd);
  s->port = portOf(a);
  s->grp = fib::group();
  if (opt.onSys) opt.onSys({"connect", fd, s->port, s->family, -1, -1, 0});
  Act act = pickAct(opt.onConnect, s->port, "connect");
  if (opt.blackhole) act = TIMEOUT;
  if (act == KILLPORT) killPort(s->port);
  if (dead.count(s->port)) act = REFUSE;
  auto lst = listener(s->port, s->family);
  if (act == REFUSE || (!lst && act != TIMEOUT)) {
    if (s->nonblock && act == REFUSE) {
      s->connecting = false;
      s->soError = ECONNREFUSED;
      errno = EINPROGRESS;
      return -1;
    }
    errno = ECONNREFUSED;
    return -1;
  }
  s->connecting = true;
  if (act == TIMEOUT) {
    s->neverConnects = true;
  } else if (act != INPROGRESS) {
    tryEstablish(*s);
    if (!s->connecting) return 0;
  }
  if (s->nonblock) {
    errno = EINPROGRESS;
    return -1;
  }
  Sock* sp = s.get();
  if (!fib::block([sp] { return established(*sp); }, fib::now() + 60 * fib::SEC, "connect-wait")) {
    errno = ETIMEDOUT;
    return -1;
  }
  tryEstablish(*s);
  if (s->soError) {
    errno = s->soError;
    return -1;
  }
  return 0;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  REAL(poll);
  bool any = false;
  for (nfds_t i = 0; i < n; ++i) any = any || isSock(p[i].fd);
  if (!SCOPED || (!any && n > 0)) return real(p, n, timeout);
  fib::point("poll", true);
  auto scan = [p, n]() {
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      auto s = get(p[i].fd);
      if (!s) {
        p[i].revents = POLLNVAL;
      } else {
        if ((p[i].events & POLLIN) && readable(*s)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT) && writable(*s)) p[i].revents |= POLLOUT;
      }
      k += p[i].revents != 0;
    }
    return k;
  };
  int64_t dl = timeout < 0 ? fib::NEVER : fib::now() + (int64_t)timeout * fib::MS;
  fib::block([&] { return scan() > 0; }, dl, "poll");
  int k = scan();
  for (nfds_t i = 0; i < n; ++i) {
    auto s = get(p[i].fd);
    if (s && s->connecting && (p[i].revents & POLLOUT)) tryEstablish(*s);
  }
  return k;
}
int __poll_chk(struct pollfd* p, nfds_t n, int timeout, size_t) { return poll(p, n, timeout); }
ssize_t read(int fd, void* b, size_t n) {
  REAL(read);
  if (isSock(fd)) {
    auto s = get(fd);
    if (!s) {
      errno = EBADF;
      return -1;
    }
    return doRead(*s, b, n);
  }
  if (!SCOPED) return real(fd, b, n);
  return fs::fileRead(fd, b, n, real);
}
ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  if (isSock(fd)) {
    auto s = get(fd);
    if (!s) {
      errno = EBADF;
      return -1;
    }
    return doWrite(*s, b, n);
  }
  if (!SCOPED) return real(fd, b, n);
  return fs::fileWrite(fd, b, n, real);
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
  REAL(recv);
  if (isSock(fd)) return read(fd, b, n);
  return real(fd, b, n, fl);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
  REAL(send);
  if (isSock(fd)) return write(fd, b, n);
  return real(fd, b, n, fl);
}
int shutdown(int fd, int how) {
  REAL(shutdown);
  if (!isSock(fd)) return real(fd, how);
  fib::point("shutdown", true);
  auto s = get(fd);
  if (!s || s->kind != CONN) {
    errno = ENOTCONN;
    return -1;
  }
  if (s->c->p[s->side].rst) {
    errno = ENOTCONN;
    return -1;
  }
  if (how == SHUT_WR || how == SHUT_RDWR) s->c->p[s->side].fin = true;
  if (how == SHUT_RD || how == SHUT_RDWR) s->c->p[1 - s->side].fin = true;
  return 0;
}
int close(int fd) {
  REAL(close);
  if (isSock(fd)) {
    fib::point("sock-close", true);
    auto s = get(fd);
    if (!s) {
      errno = EBADF;
      return -1;
    }
    closeSock(*s);
    socks.erase(fd);
    return 0;
  }
  if (!SCOPED) return real(fd);
  return fs::fileClose(fd, real);
}
int setsockopt(int fd, int lvl, int o, const void* v, socklen_t l) {
  REAL(setsockopt);
  if (!isSock(fd)) return real(fd, lvl, o, v, l);
  auto s = get(fd);
  if (!s) {
    errno = EBADF;
    return -1;
  }
  if (opt.onSys) opt.onSys({"setsockopt", fd, s->port, s->family, lvl, o, l >= sizeof(int) ? *(const int*)v : 0});
  if (lvl == IPPROTO_IPV6 && s->family != AF_INET6) {
    errno = ENOPROTOOPT;
    return -1;
  }
  if (lvl == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) {
    const timeval* tv = (const timeval*)v;
    int64_t t = tv->tv_sec * fib::SEC + tv->tv_usec * 1000ll;
    (o == SO_RCVTIMEO ? s->rcvto : s->sndto) = t;
  }
  return 0;
}
int getsockopt(int fd, int lvl, int o, void* v, socklen_t* l) {
  REAL(getsockopt);
  if (!isSock(fd)) return real(fd, lvl, o, v, l);
  auto s = get(fd);
  memset(v, 0, *l);
  if (lvl == SOL_SOCKET && o == SO_ERROR) {
    *(int*)v = s->soError;
    s->soError = 0;
  } else if (lvl == SOL_SOCKET && (o == SO_RCVBUF || o == SO_SNDBUF)) {
    *(int*)v = 65536;
  }
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  static auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
  if (!isSock(fd)) return real(fd, cmd, arg);
  auto s = get(fd);
  if (!s) {
    errno = EBADF;
    return -1;
  }
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) s->nonblock = ((long)arg & O_NONBLOCK) != 0;
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  static auto real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
  if (!isSock(fd)) return real(fd, req, arg);
  auto s = get(fd);
  if (s && s->kind == CONN && req == TIOCOUTQ) {
    Pipe& out = s->c->p[s->side];
    // bytes in the peer's receive buffer are acknowledged, the rest is not
    size_t u = out.queued() > opt.cap / 2 ? out.queued() - opt.cap / 2 : 0;
    if (fib::now() < out.stallUntil) u = std::max<size_t>(u, std::min<uint64_t>(out.queued(), out.written - out.writtenAtStall));
    *(int*)arg = u;
    return 0;
  }
  errno = EINVAL;
  return -1;
}
int getaddrinfo(const char* node, const char* serv, const struct addrinfo* hints, struct addrinfo** res) {
  REAL(getaddrinfo);
  if (!SCOPED) return real(node, serv, hints, res);
  if (node && !strcmp(node, "nowhere")) return EAI_NONAME;
  int port = serv ? atoi(serv) : 0;
  std::vector<int> fams;
  int hf = hints ? hints->ai_family : AF_UNSPEC;
  if (hf == AF_INET || hf == AF_UNSPEC) fams.push_back(AF_INET);
  if (hf == AF_INET6 || (hf == AF_UNSPEC && net::opt.v6)) fams.push_back(AF_INET6);
  addrinfo *head = nullptr, **tail = &head;
  for (int f : fams) {
    struct Blk {
      addrinfo ai;
      sockaddr_storage ss;
    };
    Blk* b = (Blk*)calloc(1, sizeof(Blk));
    b->ai.ai_family = f;
    b->ai.ai_socktype = SOCK_STREAM;
    b->ai.ai_addr = (sockaddr*)&b->ss;
    if (f == AF_INET) {
      sockaddr_in* si = (sockaddr_in*)&b->ss;
      si->sin_family = AF_INET;
      si->sin_port = htons(port);
      si->sin_addr.s_addr = node ? htonl(0x7f000001) : 0;
      b->ai.ai_addrlen = sizeof *si;
    } else {
      sockaddr_in6* si = (sockaddr_in6*)&b->ss;
      si->sin6_family = AF_INET6;
      si->sin6_port = htons(port);
      if (node) si->sin6_addr.s6_addr[15] = 1;
      b->ai.ai_addrlen = sizeof *si;
    }
    *tail = &b->ai;
    tail = &b->ai.ai_next;
  }
  *res = head;
  return 0;
}
void freeaddrinfo(struct addrinfo* a) {
  REAL(freeaddrinfo);
  if (!SCOPED) return real(a);
  while (a) {
    addrinfo* n = a->ai_next;
    free(a);
    a = n;
  }
}
}
