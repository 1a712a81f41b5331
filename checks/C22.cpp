// C22: connection URLs
#include <wdt/WdtTransferRequest.h>
#include <cstring>
#include "vmc.h"
using namespace vmc;
using namespace facebook::wdt;
using std::string;
DECLARE_bool(wdt_logging_enabled);

static string show(const WdtTransferRequest& r) {
  string s = "host=" + r.hostName + " id=" + r.transferId + " ns=" + r.wdtNamespace + " dst=" + r.destIdentifier + " v=" + std::to_string(r.protocolVersion) + " iv=" + std::to_string(r.ivChangeInterval) +
             " tls=" + std::to_string(r.tls) + " dr=" + std::to_string(r.downloadResumptionEnabled) + " enc=" + std::to_string(r.encryptionData.getType()) + ":";
  for (unsigned char c : r.encryptionData.getSecret()) s += std::to_string(c) + ".";
  s += " ports=";
  for (int p : r.ports) s += std::to_string(p) + ",";
  return s;
}
static const std::vector<string>& texts() {
  static std::vector<string> t{"", "1234", "a b&c=d%?#/:[]", string("\0\xff\n%25", 6), "x+y,z.-_", string(300, 'L')};
  return t;
}
static const std::vector<std::vector<int32_t>>& portSets() {
  static std::vector<std::vector<int32_t>> p{{22356}, {22356, 22357, 22358}, {1, 3}, {65535, 1}, {5, 5}, {3, 2, 1}, {1}, {65535}, {0, 0}, {7, 8, 10}};
  return p;
}
static const std::vector<string>& secrets() {
  static std::vector<string> s{"k", "Kq7xZw9secretkeY", string("\0\x01\xfe\xff\x80\x7f\x0a\x20\x25\x26\x3d\x3f\x00\x11\x22\x33", 16), string(40, '\xaa'), string("\xff", 1)};
  return s;
}
/// all combinations of fields
static void roundTrip() {
  static const std::vector<string> hosts{"localhost", "1.2.3.4", "::1", "fe80::1%eth0", "a-b.c_d", "2001:db8::2:1"};
  static const std::vector<int64_t> vers{0, 10, 27, Protocol::protocol_version, INT32_MAX};
  static const std::vector<int64_t> ivs{0, 1, INT64_MAX};
  WdtTransferRequest r;
  r.hostName = pick(hosts, "host");
  r.ports = pick(portSets(), "ports");
  r.transferId = pick(texts(), "id");
  int k = choose(4, INPUT, "enc");
  std::vector<std::pair<EncryptionType, string>> encs{{ENC_NONE, ""}};
  for (auto t : {ENC_AES128_CTR, ENC_AES128_GCM})
    for (auto& s : secrets()) encs.push_back({t, s});
  for (size_t ei = k; ei < encs.size(); ei += 4)
    for (auto& ns : texts())
      for (auto& dst : texts()) {
        if (!thorough() && ns != dst && !ns.empty() && !dst.empty()) continue;
        for (auto v : vers)
          for (auto iv : ivs) {
            if (!thorough() && iv == 1 && v != 10) continue;
            for (int fl = 0; fl < 4; ++fl) {
              if (!thorough() && fl != (int)(v + iv) % 4 && v != 27) continue;
              r.wdtNamespace = ns;
              r.destIdentifier = dst;
              r.protocolVersion = v;
              r.ivChangeInterval = iv;
              r.tls = fl & 1;
              r.downloadResumptionEnabled = fl & 2;
              r.directory = dst;
              r.encryptionData = EncryptionParams();
              if (ei) r.encryptionData = EncryptionParams(encs[ei].first, encs[ei].second);
              string url = r.genWdtUrlWithSecret();
              WdtTransferRequest q(url);
              VMC_CHECK(q.errorCode == OK, "refused", "own URL refused: %s", url.c_str());
              VMC_CHECK(show(q) == show(r), "roundtrip", "%s\n became  %s\n via %s", show(r).c_str(), show(q).c_str(), url.c_str());
              VMC_CHECK(q.encryptionData == r.encryptionData, "roundtrip-enc", "encryption parameters changed");
              VMC_CHECK(q.genWdtUrlWithSecret() == url, "regen", "second generation differs: %s", url.c_str());
              step();
              // log-safe renderings hide any part of the secret
              if (ei && encs[ei].second.size() > 4) {
                const string& sec = encs[ei].second;
                for (const string& log : {r.getLogSafeString(), r.encryptionData.getLogSafeString()})
                  for (size_t i = 0; i + 4 <= sec.size(); ++i) {
                    string raw = sec.substr(i, 4), hex, HEX;
                    char b[4];
                    for (unsigned char c : raw) snprintf(b, 4, "%02x", c), hex += b, snprintf(b, 4, "%02X", c), HEX += b;
                    VMC_CHECK(log.find(raw) == string::npos && log.find(hex) == string::npos && log.find(HEX) == string::npos, "secret", "log-safe string shows the secret: %s", log.c_str());
                    VMC_CHECK(log.find(WdtUri::escape(raw)) == string::npos, "secret", "log-safe string shows the secret: %s", log.c_str());
                  }
                // and the log-safe string distinguishes nothing but the secret: not usable to connect
                WdtTransferRequest l(r.getLogSafeString());
                VMC_CHECK(!(l.errorCode == OK && l.encryptionData == r.encryptionData), "secret", "secret recovered from the log-safe string");
              }
              state(hash(url));
            }
          }
      }
}
static void escapes() {
  int a = choose(256, INPUT, "byte");
  for (int b = 0; b < 256; ++b) {
    string s{(char)a, (char)b}, r;
    string e = WdtUri::escape(s);
    VMC_CHECK(WdtUri::unescape(r, e) && r == s, "escape", "bytes %d %d do not survive escaping: %s", a, b, e.c_str());
    for (unsigned char c : e) VMC_CHECK(c > 32 && c < 127 && !strchr("&=?#/", c), "escape-chars", "escaped text contains '%c'", c);
    // any two characters after a percent sign
    string q = string("%") + (char)a + (char)b;
    string out;
    auto hex = [](int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    auto upper = [](int c) { return c >= 'A' && c <= 'F'; };
    bool valid = hex(a) >= 0 && hex(b) >= 0;
    bool ok = WdtUri::unescape(out, q);
    if (upper(a) || upper(b)) continue;
    VMC_CHECK(ok == valid, "unescape", "%%%c%c is %s", a, b, ok ? "accepted" : "refused");
    if (ok) VMC_CHECK(out.size() == 1 && (unsigned char)out[0] == hex(a) * 16 + hex(b), "unescape", "%%%c%c decoded wrongly", a, b);
    state(a * 256 + b);
  }
  for (string cut : {string("%"), string("%4"), string("ab%"), string("ab%c"), string("%41%")}) {
    string out;
    VMC_CHECK(!WdtUri::unescape(out, cut), "unescape", "%s accepted", cut.c_str());
  }
}
// ---- reference parser: what a URL means, or that it is malformed
enum Verdict { GOOD, BAD, UNSPEC };
static Verdict num(const string& s, int64_t lo, int64_t hi, int64_t& v) {
  if (s.empty()) return BAD;
  size_t i = s[0] == '-';
  if (isspace((unsigned char)s.front()) || isspace((unsigned char)s.back()) || s[0] == '+') return UNSPEC;
  if (i == s.size()) return BAD;
  __int128 x = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return BAD;
    x = x * 10 + (s[i] - '0');
    if (x > __int128(INT64_MAX) + 1) return BAD;
  }
  if (s[0] == '-') x = -x;
  if (x < lo || x > hi) return BAD;
  v = (int64_t)x;
  return GOOD;
}
static Verdict worse(Verdict a, Verdict b) { return a == UNSPEC || b == UNSPEC ? UNSPEC : a == BAD || b == BAD ? BAD : GOOD; }
struct Ref {
  string host, id, ns, dst, secret;
  int64_t v = Protocol::protocol_version, iv = 0;
  bool tls = false, dr = false;
  int enc = 0;
  std::vector<int64_t> ports;
  string show() const {
    string s = "host=" + host + " id=" + id + " ns=" + ns + " dst=" + dst + " v=" + std::to_string(v) + " iv=" + std::to_string(iv) + " tls=" + std::to_string(tls) + " dr=" + std::to_string(dr) + " enc=" + std::to_string(enc) + ":";
    for (unsigned char c : secret) s += std::to_string(c) + ".";
    s += " ports=";
    for (auto p : ports) s += std::to_string(p) + ",";
    return s;
  }
};
static Verdict parse(const string& u, Ref& r, bool& doubleAmp) {
  Verdict out = GOOD;
  doubleAmp = false;
  if (u.compare(0, 6, "wdt://")) return worse(out, BAD);
  size_t p = 6;
  if (p == u.size()) return worse(out, BAD);
  if (u[p] == '[') {
    size_t e = u.find(']', p);
    if (e == string::npos) return worse(out, BAD);
    r.host = u.substr(p + 1, e - p - 1);
    p = e + 1;
  } else {
    size_t e = u.find_first_of(":?", p);
    if (e == string::npos) e = u.size();
    r.host = u.substr(p, e - p);
    p = e;
  }
  if (r.host.empty()) return worse(out, BAD);
  int64_t port = -1;
  if (p < u.size() && u[p] == ':') {
    size_t e = u.find('?', p);
    if (e == string::npos) e = u.size();
    out = worse(out, num(u.substr(p + 1, e - p - 1), INT32_MIN, INT32_MAX, port));
    p = e;
  }
  if (p < u.size() && u[p] != '?') return worse(out, BAD);
  std::map<string, string> q;
  if (p < u.size()) {
    ++p;
    while (p < u.size()) {
      size_t e = u.find('&', p);
      if (e == string::npos) e = u.size();
      string kv = u.substr(p, e - p);
      p = e + 1;
      if (kv.empty()) { doubleAmp = true; continue; }
      size_t eq = kv.find('=');
      string k = kv.substr(0, eq), val = eq == string::npos ? "" : kv.substr(eq + 1);
      if (k.empty()) return worse(out, BAD);
      string un;
      for (size_t i = 0; i < val.size(); ++i) {
        if (val[i] != '%') { un.push_back(val[i]); continue; }
        auto hex = [](int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? -2 : -1; };
        if (i + 2 >= val.size()) return worse(out, BAD);
        int a = hex(val[i + 1]), b = hex(val[i + 2]);
        if (a == -1 || b == -1) return worse(out, BAD);
        if (a < 0 || b < 0) { out = worse(out, UNSPEC); a = b = 0; }
        un.push_back((char)(a * 16 + b));
        i += 2;
      }
      if (q.count(k)) out = worse(out, UNSPEC);
      q[k] = un;
    }
  }
  r.id = q["id"], r.ns = q["ns"], r.dst = q["dstid"];
  auto flag = [&](const char* k, bool& f) {
    const string& s = q[k];
    if (s.empty()) return;
    if (s == "1") f = true;
    else if (s == "0") f = false;
    else {
      string l;
      for (unsigned char c : s) if (!isspace(c)) l += (char)tolower(c);
      for (auto w : {"true", "t", "y", "yes", "on", "false", "f", "n", "no", "off"}) if (l == w) { out = worse(out, UNSPEC); return; }
      if (l.find_first_not_of("01") == string::npos) out = worse(out, UNSPEC);
      else out = worse(out, BAD);
    }
  };
  flag("tls", r.tls);
  flag("dr", r.dr);
  if (!q["recpv"].empty()) out = worse(out, num(q["recpv"], INT64_MIN, INT64_MAX, r.v));
  if (!q["iv_change_int"].empty()) out = worse(out, num(q["iv_change_int"], INT64_MIN, INT64_MAX, r.iv));
  const string& enc = q["Enc"];
  if (!enc.empty()) {
    size_t c = enc.find(':');
    if (c == string::npos) return worse(out, BAD);
    string t = enc.substr(0, c), h = enc.substr(c + 1);
    while (t.size() > 1 && t[0] == '0') { t.erase(0, 1); out = worse(out, UNSPEC); }
    if (t != "1" && t != "2") return worse(out, BAD);
    if (h.empty() || h.size() % 2) return worse(out, BAD);
    for (size_t i = 0; i < h.size(); i += 2) {
      int b = 0;
      for (char x : {h[i], h[i + 1]}) {
        int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : -1;
        if (d < 0) return worse(out, BAD);
        b = b * 16 + d;
      }
      r.secret.push_back((char)b);
    }
    r.enc = t[0] - '0';
  }
  const string& list = q["ports"];
  if (!list.empty()) {
    size_t s = 0;
    for (;;) {
      size_t e = list.find(',', s);
      string one = list.substr(s, e == string::npos ? string::npos : e - s);
      int64_t v = 0;
      if (one.empty()) out = worse(out, UNSPEC);
      else {
        out = worse(out, num(one, INT32_MIN, INT32_MAX, v));
        r.ports.push_back(v);
      }
      if (e == string::npos) break;
      s = e + 1;
    }
    if (r.ports.empty()) out = worse(out, UNSPEC);
    return out;
  }
  if (port <= 0) {
    if (port == 0 || u.find("-") != string::npos) out = worse(out, UNSPEC);
    if (q["start_port"].empty()) return worse(out, BAD);
    out = worse(out, num(q["start_port"], INT32_MIN, INT32_MAX, port));
  }
  int64_t n = 0;
  if (q["num_ports"].empty()) return worse(out, BAD);
  out = worse(out, num(q["num_ports"], INT32_MIN, INT32_MAX, n));
  if (n > 100000 || port > INT32_MAX - 100000) return worse(out, UNSPEC);
  for (int64_t i = 0; i < n; ++i) r.ports.push_back(port + i);
  return out;
}
static void judge(const string& u) {
  Ref r;
  bool amp;
  Verdict v = parse(u, r, amp);
  // a number of ports that only exhausts the memory is not this property
  for (auto k : {"num_ports="}) {
    size_t p = u.find(k);
    if (p != string::npos) {
      size_t e = p + strlen(k);
      while (e < u.size() && isdigit((unsigned char)u[e])) ++e;
      if (e - p - strlen(k) > 5) return;
    }
  }
  WdtTransferRequest q(u);
  step();
  if (v == BAD) VMC_CHECK(q.errorCode != OK, "malformed", "malformed URL accepted as %s: %s", show(q).c_str(), u.c_str());
  if (v == GOOD && !(amp && q.errorCode != OK)) {
    VMC_CHECK(q.errorCode == OK, "valid", "valid URL refused with %s: %s", errorCodeToStr(q.errorCode).c_str(), u.c_str());
    VMC_CHECK(show(q) == r.show(), "values", "URL %s\n means  %s\n parsed %s", u.c_str(), r.show().c_str(), show(q).c_str());
  }
  if (q.errorCode != OK) VMC_CHECK(q.genWdtUrlWithSecret().find("wdt://") == string::npos, "error-url", "a request in error still produces a URL");
  state(hash(u));
}
static const std::vector<string>& bases() {
  static std::vector<string> b{
      "wdt://localhost:22356?Enc=2:0123456789abcdef&dr=1&id=12&iv_change_int=16&num_ports=2&recpv=30&tls=1",
      "wdt://[::1]:7?id=a%20b&num_ports=1",
      "wdt://h?ports=1,2,30&recpv=10&dstid=x&ns=n",
      "wdt://h?start_port=5&num_ports=3",
  };
  return b;
}
static const string& chars() {
  static string c = "0158af:;,&=?%[]/.-xAZ# ";
  return c;
}
static void edit(string s, int depth, size_t from) {
  judge(s);
  if (!depth) return;
  for (size_t i = from; i <= s.size(); ++i) {
    if (i < s.size()) edit(s.substr(0, i) + s.substr(i + 1), depth - 1, i);
    for (char c : chars()) {
      edit(s.substr(0, i) + c + s.substr(i), depth - 1, i + 1);
      if (i < s.size() && s[i] != c) edit(s.substr(0, i) + c + s.substr(i + 1), depth - 1, i + 1);
    }
  }
}
static void edits1() {
  auto& b = pick(bases(), "url");
  size_t i = choose((int)b.size() + 1, INPUT, "at");
  if (i < b.size()) judge(b.substr(0, i) + b.substr(i + 1));
  judge(b.substr(0, i));
  for (int c = 1; c < 256; ++c) {
    judge(b.substr(0, i) + (char)c + b.substr(i));
    judge(b.substr(0, i) + (char)c);
    if (i < b.size()) judge(b.substr(0, i) + (char)c + b.substr(i + 1));
  }
  for (string ins : {"00000000", "100000000", "99999999999999999999", "&&", "&a=1&", "%%", "::", "ffffffff", "-1"}) judge(b.substr(0, i) + ins + b.substr(i));
}
static void edits2() {
  auto& b = pick(bases(), "url");
  size_t i = choose((int)b.size() + 1, INPUT, "at");
  int k = choose(2 * (int)chars().size() + 1, INPUT, "edit");
  int n = chars().size();
  if (k == 2 * n) {
    if (i < b.size()) edit(b.substr(0, i) + b.substr(i + 1), 1, i);
  } else if (k < n) edit(b.substr(0, i) + chars()[k] + b.substr(i), 1, i + 1);
  else if (i < b.size()) edit(b.substr(0, i) + chars()[k - n] + b.substr(i + 1), 1, i + 1);
}
/// parameters in every order and subset
static void subsets() {
  static const std::vector<string> ps{"num_ports=2", "id=7", "recpv=28", "Enc=1:aabb", "tls=0", "dr=1", "ports=4,6", "start_port=9", "recpv=x", "Enc=3:aa", "ports=1,b"};
  int mask = choose(1 << ps.size(), INPUT, "subset");
  for (string host : {"h", "h:80", "[::]:80", "h:", "h:x"}) {
    std::vector<string> sel;
    for (size_t i = 0; i < ps.size(); ++i) if (mask >> i & 1) sel.push_back(ps[i]);
    for (int rev = 0; rev < 2; ++rev) {
      string u = "wdt://" + host, s = "?";
      for (auto& x : sel) u += s + x, s = "&";
      judge(u);
      std::reverse(sel.begin(), sel.end());
    }
  }
}
int main(int argc, char** argv) {
  FLAGS_wdt_logging_enabled = false;
  Check c;
  c.property = "C22";
  c.quickBudget = 60;
  c.rule = "all combinations of field values (hosts, port lists, texts with every kind of special byte, versions, intervals, encryption types and secrets, flags) generated and parsed back; all single edits (any byte) and all pairs of edits (over an alphabet) of representative URLs and all parameter subsets, judged by a reference parser";
  c.scenarios = {{"escapes", escapes}, {"roundtrip", roundTrip, false, {Bounds(0)}, {}, 4}, {"edits1", edits1}, {"subsets", subsets}};
  Scenario e{"edits2", edits2};
  e.budget = 5;
  c.scenarios.push_back(e);
  return runCheck(c, argc, argv);
}
