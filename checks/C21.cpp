// C21: namespaces, quotas and registration of transfers
#include <wdt/WdtResourceController.h>
#include <algorithm>
#include <set>
#include "e2e.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;

static const std::vector<string> kNs{"n0", "n1"}, kIds{"a", "b"};
typedef std::pair<string, const void*> Res;  // result code (or text) and object
enum Op { REG, DEREG, CREATE, RELEASE, GET, ALL, RELALL, STALE, NSLIMIT, GLIMIT, STRICT };
struct Call {
  Op op;
  int ns = 0, id = 0, kind = 0, n = 0;  // kind 0: senders, 1: receivers
  string str() const {
    static const char* names[] = {"register", "deregister", "create", "release", "get", "getAll", "releaseAll", "releaseStale", "nsLimit", "globalLimit", "strict"};
    return string(names[op]) + "(" + kNs[ns] + "," + kIds[id] + "," + (kind ? "receiver" : "sender") + "," + std::to_string(n) + ")";
  }
};
/// what the documentation promises
struct Model {
  struct Ns {
    int64_t limit[2];
    std::map<string, const void*> live[2];
  };
  std::map<string, Ns> ns;
  int64_t limit[2], nsDefault[2];
  bool strict = false;
  size_t total(int k) const {
    size_t t = 0;
    for (auto& n : ns) t += n.second.live[k].size();
    return t;
  }
  bool globalFull(int k, int extra = 0) const { return limit[k] > 0 && (int64_t)total(k) + extra >= limit[k]; }
  bool full(const string& n, int k) const {
    auto i = ns.find(n);
    return i != ns.end() && i->second.limit[k] > 0 && (int64_t)i->second.live[k].size() >= i->second.limit[k];
  }
  Ns& add(const string& n) {
    auto& x = ns[n];
    for (int k = 0; k < 2; ++k) x.limit[k] = nsDefault[k];
    return x;
  }
  /// is this result right now allowed?  Applies the call.
  bool apply(const Call& c, const Res& r, int slack = 0) {
    const string &n = kNs[c.ns], &id = kIds[c.id];
    auto it = ns.find(n);
    Ns* p = it == ns.end() ? nullptr : &it->second;
    int k = c.kind;
    switch (c.op) {
      case REG:
        if (!p) add(n);
        return r.first == "OK";
      case DEREG:
        if (!p) return r.first == "ERROR";
        ns.erase(n);
        return r.first == "OK";
      case CREATE: {
        if (!p && strict) return r.first == "NOT_FOUND" && !r.second;
        if (r.first == "QUOTA_EXCEEDED") {
          bool ok = !r.second && (globalFull(k, slack) || full(n, k));
          if (!p) add(n);
          return ok;
        }
        if (!p) p = &add(n);
        auto i = p->live[k].find(id);
        if (i != p->live[k].end()) return r.first == "ALREADY_EXISTS" && r.second == i->second;
        if (globalFull(k) || full(n, k)) return false;
        if (r.first != "OK" || !r.second) return false;
        p->live[k][id] = r.second;
        return true;
      }
      case RELEASE:
        if (!p || !p->live[k].erase(id)) return r.first == "ERROR";
        return r.first == "OK";
      case GET: {
        const void* want = nullptr;
        if (p && p->live[k].count(id)) want = p->live[k][id];
        return r.second == want;
      }
      case ALL: {
        std::set<const void*> s;
        if (p) for (auto& x : p->live[k]) s.insert(x.second);
        string t;
        for (auto x : s) t += std::to_string((uintptr_t)x) + " ";
        return r.first == t;
      }
      case RELALL:
        if (!p) return r.first == "ERROR";
        p->live[k].clear();
        return r.first == "OK";
      case STALE:  // nothing here ever ran
        return r.first == (p ? "OK" : "NOT_FOUND");
      case NSLIMIT:
        if (p) p->limit[k] = c.n;
        return true;
      case GLIMIT: limit[k] = c.n; return true;
      case STRICT: strict = c.n; return true;
    }
    return true;
  }
};
struct World {
  WdtOptions o;
  std::unique_ptr<WdtResourceController> c;
  Model m;
  std::vector<std::shared_ptr<void>> held;  // no address is reused
  World(int gs, int gr, int ns, int nr) {
    o.global_sender_limit = m.limit[0] = gs;
    o.global_receiver_limit = m.limit[1] = gr;
    o.namespace_sender_limit = m.nsDefault[0] = ns;
    o.namespace_receiver_limit = m.nsDefault[1] = nr;
    c = std::make_unique<WdtResourceController>(o);
  }
  template <class V>
  static string list(const V& v) {
    std::vector<uintptr_t> s;
    for (auto& x : v) s.push_back((uintptr_t)x.get());
    std::sort(s.begin(), s.end());
    string t;
    for (auto x : s) t += std::to_string(x) + " ";
    return t;
  }
  Res exec(const Call& q) {
    const string &n = kNs[q.ns], &id = kIds[q.id];
    auto code = [](ErrorCode e) { return Res(errorCodeToStr(e), nullptr); };
    WdtTransferRequest req(0, 1, "/nowhere");
    req.transferId = "t";
    req.wdtNamespace = n;
    std::vector<string> erased;
    switch (q.op) {
      case REG: return code(c->registerWdtNamespace(n));
      case DEREG: return code(c->deRegisterWdtNamespace(n));
      case CREATE: {
        Res r;
        if (q.kind) {
          ReceiverPtr p;
          r = code(c->createReceiver(n, id, req, p));
          r.second = p.get();
          if (p) held.push_back(p);
          if (r.first == "OK") VMC_CHECK(p->getThrottler() == c->getWdtThrottler(), "throttler", "a receiver does not share the throttler");
        } else {
          SenderPtr p;
          r = code(c->createSender(n, id, req, p));
          r.second = p.get();
          if (p) held.push_back(p);
          if (r.first == "OK") VMC_CHECK(p->getThrottler() == c->getWdtThrottler(), "throttler", "a sender does not share the throttler");
        }
        return r;
      }
      case RELEASE: return code(q.kind ? c->releaseReceiver(n, id) : c->releaseSender(n, id));
      case GET: return q.kind ? Res("", c->getReceiver(n, id).get()) : Res("", c->getSender(n, id).get());
      case ALL: return Res(q.kind ? list(c->getAllReceivers(n)) : list(c->getAllSenders(n)), nullptr);
      case RELALL: return code(q.kind ? c->releaseAllReceivers(n) : c->releaseAllSenders(n));
      case STALE: {
        Res r = code(q.kind ? c->releaseStaleReceivers(n, erased) : c->releaseStaleSenders(n, erased));
        VMC_CHECK(erased.empty(), "stale", "a transfer that never ran was released as stale");
        return r;
      }
      case NSLIMIT: q.kind ? c->updateMaxReceiversLimit(n, q.n) : c->updateMaxSendersLimit(n, q.n); return Res();
      case GLIMIT: q.kind ? c->updateMaxReceiversLimit(q.n) : c->updateMaxSendersLimit(q.n); return Res();
      case STRICT: c->requireRegistration(q.n); return Res();
    }
    return Res();
  }
  /// every observable agrees with the model
  void compare(const string& after) {
    int32_t n = -1, s = -1, r = -1;
    c->getCounts(n, s, r);
    VMC_CHECK(n == (int)m.ns.size() && s == (int)m.total(0) && r == (int)m.total(1), "counts",
              "%s: counts %d namespaces %d senders %d receivers instead of %zu %zu %zu", after.c_str(), n, s, r, m.ns.size(), m.total(0), m.total(1));
    for (int i = 0; i < 2; ++i) {
      for (int k = 0; k < 2; ++k) {
        Call q{ALL, i, 0, k};
        VMC_CHECK(m.apply(q, exec(q)), "all", "%s: %s", after.c_str(), q.str().c_str());
        for (int id = 0; id < 2; ++id) {
          Call g{GET, i, id, k};
          VMC_CHECK(m.apply(g, exec(g)), "get", "%s: %s", after.c_str(), g.str().c_str());
        }
        bool want = !(m.globalFull(k) || m.full(kNs[i], k));
        bool got = k ? c->hasReceiverQuota(kNs[i]) : c->hasSenderQuota(kNs[i]);
        VMC_CHECK(want == got, "quota", "%s: quota of %s for %s reported %d", after.c_str(), kNs[i].c_str(), k ? "receivers" : "senders", got);
      }
      auto ids = c->getAllSendersIds(kNs[i]);
      std::set<string> a(ids.begin(), ids.end()), b;
      if (m.ns.count(kNs[i])) for (auto& x : m.ns[kNs[i]].live[0]) b.insert(x.first);
      VMC_CHECK(a == b && ids.size() == b.size(), "ids", "%s", after.c_str());
    }
  }
  void finish() {
    held.clear();
    c->shutdown();
    m.ns.clear();
    compare("shutdown");
    c.reset();
  }
};
static const int kLimits[][4] = {{0, 0, 0, 0}, {2, 1, 0, 0}, {0, 0, 1, 1}, {2, 3, 1, 2}, {1, 2, 2, 1}};
static void seq(int depth, const std::vector<Call>& ops, bool strict) {
  e2e::init();
  auto& l = kLimits[choose(5, INPUT, "limits")];
  World w(l[0], l[1], l[2], l[3]);
  if (strict) {
    Call q{STRICT, 0, 0, 0, 1};
    w.m.apply(q, w.exec(q));
  }
  string h, res;
  for (int i = 0; i < depth; ++i) {
    const Call& q = ops[choose((int)ops.size(), INPUT, "op")];
    h += q.str() + " ";
    Res r = w.exec(q);
    res += r.first.substr(0, 2);
    VMC_CHECK(w.m.apply(q, r), "result", "%s -> %s %p", h.c_str(), r.first.c_str(), r.second);
    w.compare(h);
  }
  w.finish();
  outcome(res);
}
/// transfers that have run: stale ones are released, others are kept
static void stale() {
  e2e::init();
  fib::run([&] {
    World w(3, 3, 2, 2);
    fs::mkdirs(scratch() + "/src");
    fs::mkdirs(scratch() + "/dst");
    e2e::defaults(w.o);
    w.o.max_retries = w.o.max_accept_retries = 100000;
    std::map<std::pair<int, string>, int> st;  // kind, id -> 1 idle, 2 ended
    std::vector<SenderPtr> ss;
    std::vector<ReceiverPtr> rs;
    for (int k = 0; k < 2; ++k)
      for (auto& id : kIds) {
        int how = choose(4, INPUT, "state");  // none, idle, ended, running
        if (!how) continue;
        WdtTransferRequest req(0, 1, scratch() + (k ? "/dst" : "/src"));
        req.hostName = "localhost";
        req.transferId = "t";
        if (!k) req.ports = {7}, req.protocolVersion = 32;
        if (k == 0) {
          SenderPtr p;
          VMC_CHECK(w.c->createSender("n0", id, req, p) == OK, "create", "within the limits");
          ss.push_back(p);
          if (how > 1) VMC_CHECK(p->init().errorCode == OK && p->transferAsync() == OK, "start", "sender");
          if (how == 2) {
            p->abort(ABORTED_BY_APPLICATION);
            p->finish();
          }
        } else {
          ReceiverPtr p;
          VMC_CHECK(w.c->createReceiver("n0", id, req, p) == OK, "create", "within the limits");
          rs.push_back(p);
          if (how > 1) VMC_CHECK(p->init().errorCode == OK && p->transferAsync() == OK, "start", "receiver");
          if (how == 2) {
            p->abort(ABORTED_BY_APPLICATION);
            p->finish();
          }
        }
        st[{k, id}] = how;
      }
    int order = choose(2, INPUT, "order");
    for (int step = 0; step < 2; ++step) {
      int k = step ^ order;
      std::vector<string> erased;
      ErrorCode e = k ? w.c->releaseStaleReceivers("n0", erased) : w.c->releaseStaleSenders("n0", erased);
      bool any = !st.empty();
      VMC_CHECK(e == OK || (!any && e == NOT_FOUND), "code", "%s", errorCodeToStr(e).c_str());
      std::set<string> got(erased.begin(), erased.end()), want;
      for (auto& x : st) if (x.first.first == k && x.second == 2) want.insert(x.first.second);
      VMC_CHECK(got == want && erased.size() == want.size(), "stale", "released %zu stale transfers instead of %zu", got.size(), want.size());
      for (auto& id : want) st.erase({k, id});
      int inNs = 0;
      for (auto& x : st) inNs += x.first.first == k;
      if (any) VMC_CHECK((k ? w.c->hasReceiverQuota("n0") : w.c->hasSenderQuota("n0")) == (inNs < 2), "quota", "after the release of stale transfers");
      int32_t n, s, r;
      w.c->getCounts(n, s, r);
      int cs = 0, cr = 0;
      for (auto& x : st) (x.first.first ? cr : cs)++;
      VMC_CHECK(s == cs && r == cr, "counts", "%d senders %d receivers instead of %d %d", s, r, cs, cr);
      for (auto& id : kIds) VMC_CHECK((w.c->getSender("n0", id) != nullptr) == (st.count({0, id}) > 0) && (w.c->getReceiver("n0", id) != nullptr) == (st.count({1, id}) > 0), "get", "lookup after the release of stale transfers");
    }
    for (auto& s : ss) s->abort(ABORTED_BY_APPLICATION);
    for (auto& r : rs) r->abort(ABORTED_BY_APPLICATION);
    ss.clear();
    rs.clear();
    w.c->shutdown();
    outcome(std::to_string(st.size()));
  });
}

/// threads call the controller concurrently: the history must be explainable
/// by some order of the calls, and what is left must agree with it
struct Event { Call c; Res r; int thread; int64_t begin = 0, end = 0; };
static bool overlapping(const std::vector<Event>& ev, size_t i) {
  for (size_t j = 0; j < ev.size(); ++j)
    if (j != i && (ev[j].c.op == CREATE || ev[j].c.op == RELEASE || ev[j].c.op == RELALL || ev[j].c.op == DEREG) && ev[j].begin < ev[i].end && ev[i].begin < ev[j].end) return true;
  return false;
}
/// a creation may make its namespace visible before the transfer (half)
static bool linear(const Model& m, const std::vector<Event>& ev, unsigned done, unsigned half, const std::function<bool(const Model&)>& fits) {
  if (done + 1 == 1u << ev.size()) return fits(m);
  for (size_t i = 0; i < ev.size(); ++i) {
    if (done >> i & 1) continue;
    bool first = true;  // nothing pending ended before this began
    for (size_t j = 0; j < ev.size(); ++j)
      if (!(done >> j & 1) && j != i && ev[j].end <= ev[i].begin) first = false;
    if (!first) continue;
    Model n = m;
    if (ev[i].c.op == CREATE && !(half >> i & 1) && overlapping(ev, i) && !m.ns.count(kNs[ev[i].c.ns])) {
      n.add(kNs[ev[i].c.ns]);
      if (linear(n, ev, done, half | 1u << i, fits)) return true;
      n = m;
    }
    // a call that fails later, or is still giving back, may hold a place for a moment
    if (!n.apply(ev[i].c, ev[i].r, overlapping(ev, i) ? 8 : 0)) continue;
    if (linear(n, ev, done | 1u << i, half, fits)) return true;
  }
  return false;
}
static void threads(int nt, int per) {
  e2e::init();
  fib::opt = fib::Options();
  fib::opt.unlockPoints = true;
  static const int lim[][4] = {{0, 0, 0, 0}, {1, 1, 0, 0}, {0, 0, 1, 1}, {2, 2, 1, 1}};
  bool few = per > 1 && !thorough();
  auto& l = lim[few ? choose(2, INPUT, "limits") * 3 : choose(4, INPUT, "limits")];
  int kind = choose(2, INPUT, "kind");
  int before = few ? choose(2, INPUT, "before") * 2 : choose(3, INPUT, "before");  // nothing, namespace, one transfer
  static const std::vector<Call> ops{{CREATE, 0, 0}, {CREATE, 0, 1}, {CREATE, 1, 0}, {RELEASE, 0, 0}, {GET, 0, 0}, {RELALL, 0, 0}, {DEREG, 0, 0}, {REG, 0, 0}};
  std::vector<std::vector<Call>> plan(nt);
  for (int t = 0; t < nt; ++t)
    for (int i = 0; i < per; ++i) {
      Call c = ops[choose((int)ops.size(), INPUT, "op")];
      c.kind = kind;
      plan[t].push_back(c);
    }
  // the order of the threads does not matter
  auto key = [&](int t) { string s; for (auto& c : plan[t]) s += c.str(); return s; };
  for (int t = 1; t < nt; ++t) if (key(t) < key(t - 1)) prune("symmetric");
  fib::run([&] {
    World w(l[0], l[1], l[2], l[3]);
    if (before) { Call q{REG}; w.m.apply(q, w.exec(q)); }
    if (before == 2) { Call q{CREATE, 0, 0, kind}; VMC_CHECK(w.m.apply(q, w.exec(q)), "create", "first"); }
    std::vector<Event> ev;
    int64_t clock = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        for (auto& c : plan[t]) {
          Event e;
          e.c = c;
          e.thread = t;
          e.begin = ++clock;
          note("thread %d: %s", t, c.str().c_str());
          e.r = w.exec(c);
          note("thread %d: %s -> %s", t, c.str().c_str(), e.r.first.c_str());
          e.end = ++clock;
          ev.push_back(e);
        }
      });
    for (auto& t : ts) t.join();
    string h, res;
    for (auto& e : ev) {
      h += "t" + std::to_string(e.thread) + ":" + e.c.str() + "=" + e.r.first + " ";
      res += e.r.first.substr(0, 1);
    }
    // the state that is left
    int32_t n, s, r;
    w.c->getCounts(n, s, r);
    std::map<std::pair<int, int>, const void*> live;
    for (int i = 0; i < 2; ++i)
      for (int id = 0; id < 2; ++id)
        if (auto p = w.exec({GET, i, id, kind}).second) live[{i, id}] = p;
    VMC_CHECK((kind ? r : s) == (int)live.size() && (kind ? s : r) == 0, "counts", "%s: %d senders and %d receivers are counted, %zu can be found", h.c_str(), s, r, live.size());
    bool ok = linear(w.m, ev, 0, 0, [&](const Model& m) {
      if ((int)m.ns.size() != n) return false;
      std::map<std::pair<int, int>, const void*> a;
      for (int i = 0; i < 2; ++i) {
        auto it = m.ns.find(kNs[i]);
        if (it == m.ns.end()) continue;
        for (int id = 0; id < 2; ++id) { auto x = it->second.live[kind].find(kIds[id]); if (x != it->second.live[kind].end()) a[{i, id}] = x->second; }
      }
      return a == live;
    });
    VMC_CHECK(ok, "order", "no order of the calls explains the results: %s", h.c_str());
    w.finish();
    outcome(res);
  });
}

int main(int argc, char** argv) {
  Check c;
  c.property = "C21";
  c.rule = "Every sequence of operations on the controller (register, deregister, create, release, look up, release all or stale, change limits) over two namespaces, two ids, senders and receivers, up to the stated length, for five settings of the limits, strict or not, every observable compared with a reference model after each operation. Concurrent calls: every plan of two or three threads, every schedule within the bounds; the results must be explained by some order of the calls and the counts must agree with what can be found.";
  c.assumptions = {"Shutdown happens after all calls have returned.", "A creation overlapping another call may be refused by a limit that the other call holds for a moment."};
  auto add = [&](const char* n, std::function<void()> f, std::vector<Bounds> q, std::vector<Bounds> d, double b = 1, bool forked = false, bool deepOnly = false) {
    Scenario s;
    s.name = n;
    s.body = f;
    s.quick = q;
    s.deep = d;
    s.budget = b;
    s.forked = forked;
    s.thoroughOnly = deepOnly;
    c.scenarios.push_back(s);
  };
  c.quickBudget = 60;
  std::vector<Call> send, all;
  for (int k = 0; k < 2; ++k)
    for (int n = 0; n < 2; ++n) {
      for (int id = 0; id < 2; ++id) {
        all.push_back({CREATE, n, id, k});
        all.push_back({RELEASE, n, id, k});
      }
      all.push_back({RELALL, n, 0, k});
    }
  for (int n = 0; n < 2; ++n) {
    all.push_back({REG, n});
    all.push_back({DEREG, n});
    all.push_back({STALE, n, 0, n});
  }
  for (int k = 0; k < 2; ++k) {
    all.push_back({NSLIMIT, 0, 0, k, 1});
    all.push_back({NSLIMIT, k, 0, k, 2});
    all.push_back({GLIMIT, 0, 0, k, 1});
    all.push_back({GLIMIT, 0, 0, k, 0});
  }
  for (auto& q : all) if (q.kind == 0 && !(q.op == REG && q.ns == 1) && q.op != STALE && q.n != 2) send.push_back(q);
  add("sequences", [=] { seq(3, all, false); }, {Bounds(0)}, {Bounds(0)});
  add("sequences-strict", [=] { seq(3, all, true); }, {Bounds(0)}, {Bounds(0)});
  add("senders", [=] { seq(4, send, false); }, {Bounds(0)}, {Bounds(0)});
  add("sequences-long", [=] { seq(4, all, false); }, {Bounds(0)}, {Bounds(0)}, 1, false, true);
  add("sequences-strict-long", [=] { seq(4, all, true); }, {Bounds(0)}, {Bounds(0)}, 1, false, true);
  add("senders-long", [=] { seq(5, send, false); }, {Bounds(0)}, {Bounds(0)}, 1, false, true);
  add("stale", stale, {Bounds(0)}, {Bounds(0)}, 1, true);
  add("threads-2x1", [] { threads(2, 1); }, {Bounds(1), Bounds(2), Bounds(3)}, {Bounds(4)}, 2);
  add("threads-2x2", [] { threads(2, 2); }, {Bounds(0), Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 2);
  add("threads-3x1", [] { threads(3, 1); }, {Bounds(1), Bounds(2)}, {Bounds(2), Bounds(3)}, 2);
  add("access-2x1", [] { threads(2, 1); }, {Bounds(1)}, {Bounds(1), Bounds(2)}, 2);
  add("access-2x2", [] { threads(2, 2); }, {Bounds(1)}, {Bounds(1)}, 3);
  return runCheck(c, argc, argv);
}
