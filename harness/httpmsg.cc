// H04: what the library emits parses back; H05: credentials; H06: X-headers.
#include "http.h"
#include "libiqxmlrpc/value_type.h"
using namespace iqxmlrpc;
static int is_sp(unsigned char c) { return sym_or(c == ' ', sym_and(c >= 9, c <= 13)); }
static std::string word(int n, const char* nm) { std::string r; for (int i = 0; i < n; i++) { unsigned char c = sym_byte(nm); sym_assume(!is_sp(c)); r += (char)c; } return r; }
static int lower(unsigned char c) { return (int)sym_ite(sym_and(c >= 'A', c <= 'Z'), c + 32, c); }
static std::string lowered(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += (char)lower((unsigned char)s[i]); return r; }

static void text_checks(const std::string& d, size_t body) {
  size_t p = d.find("\r\n\r\n");
  sym_check(p != std::string::npos && d.size() == p + 4 + body, "the header ends with an empty line followed by the body only");
  std::string h = d.substr(0, p + 2);
  sym_check((h.find("\r\ncontent-type: text/xml\r\n") != std::string::npos) == (body > 0), "a text/xml content type accompanies every non-empty body");
}
static void request() {
  std::string uri = "/" + word(pick(2, "uri len"), "uri"), vhost = word(1 + pick(2, "host len"), "host"), body = sym_str(pick(4, "body len"), "body");
  int port = 65530 + (int)(sym_byte("port") & 3);
  bool keep = pick(2, "keep"), xh = pick(2, "xheader"), auth = pick(2, "auth");
  long live = sym_live_new();
  {
    http::Request_header* h = new http::Request_header(uri, vhost, port);
    std::string xv = xh ? word(2 * pick(2, "xlen"), "xvalue") : "";
    if (xh) { XHeaders x; x["X-Q"] = xv; h->set_xheaders(x); }
    if (auth) h->set_authinfo("u", "p");
    http::Packet p(h, body);
    if (pick(2, "set")) p.set_keep_alive(keep); else keep = false;
    std::string d = p.dump();
    text_checks(d, body.size());
    Out o; http::Packet_reader r;
    feed(r, d, o);
    sym_check(o.kind == 1 && o.at == d.size(), "an emitted request is understood");
    sym_check(str_eq(o.uri, uri), "the URI survives");
    std::string hp = vhost + ":6553"; hp += (char)('0' + (port - 65530));
    sym_check(str_eq(o.host, hp), "host and port survive");
    sym_check(str_eq(o.body, body) && o.len == body.size(), "the body and its length survive");
    sym_check(o.keep == (int)keep, "the connection mode is the configured one");
    sym_check(o.auth == (int)auth && o.xh.size() == (size_t)xh && (!xh || (o.xh.begin()->first == "x-q" && str_eq(o.xh.begin()->second, xv))), "headers survive");
    sym_logb("body", o.body.data(), o.body.size());
  }
  sym_cover("request");
}
static void response() {
  static const int CODES[] = { 200, 100, 401, 503, 999 };
  int code = CODES[pick(5, "code")];
  std::string phrase = word(1, "phrase"), body = sym_str(pick(4, "body len"), "body");
  if (pick(2, "words")) phrase += " " + word(1, "phrase2");
  bool keep = pick(2, "keep"), xh = pick(2, "xheader");
  std::string xv = xh ? word(2 * pick(2, "xlen"), "xvalue") : "";
  http::Response_header* h = new http::Response_header(code, phrase);
  if (xh) { XHeaders x; x["x-R"] = xv; h->set_xheaders(x); }
  http::Packet p(h, body);
  if (pick(2, "set")) p.set_keep_alive(keep); else keep = false;
  std::string d = p.dump();
  text_checks(d, body.size());
  Out o; http::Packet_reader r;
  feed(r, d, o, true);
  sym_check(o.kind == 1 && o.code == code, "an emitted response is understood with its code");
  sym_check(str_eq(o.uri, phrase), "the reason phrase survives");
  sym_check(str_eq(o.body, body) && o.len == body.size(), "the body and its length survive");
  sym_check(o.keep == (int)keep, "the connection mode is the configured one");
  sym_check(o.xh.size() == (size_t)xh && (!xh || (o.xh.begin()->first == "x-r" && str_eq(o.xh.begin()->second, xv))), "headers survive");
  sym_cover("response");
}
// bodies and header values of any size
static void large() {
  int n = sym_param("len", 300), resp = pick(2, "response");
  std::string body = std::string(n, 'b') + sym_str(2, "body"), xv = std::string(n > 5000 ? 5000 : n, 'x') + word(1, "xvalue"), uri = "/" + std::string(n > 3000 ? 3000 : n, 'u') + word(1, "uri");
  XHeaders x;
  int many = pick(2, "many") ? 40 : 1;
  for (int i = 0; i < many; i++) { std::string k = "X-"; k += (char)('a' + i % 26); k += (char)('a' + i / 26); x[k] = xv; }
  http::Header* h = resp ? (http::Header*)new http::Response_header(200, "OK") : (http::Header*)new http::Request_header(uri, "host", 80);
  h->set_xheaders(x);
  http::Packet p(h, body);
  std::string d = p.dump();
  Out o; http::Packet_reader r;
  size_t cut = pick(2, "two reads") ? d.size() - n / 2 : d.size();
  if (!feed(r, d.substr(0, cut), o, resp) && cut < d.size()) feed(r, d.substr(cut), o, resp);
  sym_check(o.kind == 1 && str_eq(o.body, body) && o.len == body.size(), "a body of any size survives");
  sym_check(resp || str_eq(o.uri, uri), "a URI of any length survives");
  int ok = (int)o.xh.size() == many; for (std::map<std::string, std::string>::iterator i = o.xh.begin(); i != o.xh.end(); ++i) ok = ok && str_eq(i->second, xv);
  sym_check(ok, "headers of any length survive");
  sym_cover(resp ? "response" : "request");
}
template <class E> static void err1(const E& e, int code, const char* extra) {
  std::string d = e.dump();
  text_checks(d, 0);
  Out o; http::Packet_reader r;
  feed(r, d, o, true);
  sym_check(o.kind == 1 && o.code == code && o.body.empty() && !o.keep, "an error response is understood with its code");
  if (extra) sym_check(d.find(extra) != std::string::npos, "an error response carries the header its status requires");
  sym_cover("error");
}
static void errors() {
  switch (pick(7, "which")) {
    case 0: err1(http::Bad_request(), 400, 0); break;
    case 1: err1(http::Unauthorized(), 401, "\r\nwww-authenticate: Basic realm="); break;
    case 2: err1(http::Method_not_allowed(), 405, "\r\nallow: POST\r\n"); break;
    case 3: err1(http::Length_required(), 411, 0); break;
    case 4: err1(http::Request_too_large(), 413, 0); break;
    case 5: err1(http::Unsupported_content_type(word(2, "type")), 415, 0); break;
    case 6: err1(http::Expectation_failed(), 417, 0); break;
  }
}
// credentials: set by one side, read by the other
static void auth() {
  int ul = sym_param("ul", 2), pl = sym_param("pl", 2);
  int pre = sym_param("pre", 0);
  std::string u = std::string(pre, 'n') + sym_str(ul, "user"), p = std::string(pre, 'w') + sym_str(pl, "password");
  for (int i = pre; i < pre + ul; i++) sym_assume(u[i] != ':');
  http::Request_header h("/", "h", 80);
  sym_check(!h.has_authinfo(), "no credentials unless set");
  h.set_authinfo(u, p);
  std::string d = h.dump();
  http::Request_header g(http::HTTP_CHECK_STRICT, d.substr(0, d.size() - 4));
  std::string gu, gp;
  sym_check(g.has_authinfo(), "credentials arrive");
  g.get_authinfo(gu, gp);
  sym_check(str_eq(gu, u) && str_eq(gp, p), "credentials arrive unchanged");
  sym_logb("user", gu.data(), gu.size()); sym_logb("pw", gp.data(), gp.size());
  sym_cover("credentials");
}
// an arbitrary Authorization value yields credentials or 401, nothing else
static void auth_any() {
  int n = sym_param("n", 4);
  std::string v = sym_param("basic", 1) ? "Basic " + sym_str(n, "text") : sym_str(n, "scheme") + " YTpi";
  for (size_t i = 0; i < v.size(); i++) sym_assume(sym_and(v[i] != '\r', v[i] != '\n'));
  http::Request_header h(http::HTTP_CHECK_WEAK, "POST / HTTP/1.0\r\nauthorization: " + v);
  std::string u, p;
  try {
    h.get_authinfo(u, p); sym_cover("decoded"); sym_logb("u", u.data(), u.size());
    if (!sym_param("basic", 1)) {
      int ok = 0;
      for (int at = 0; at + 5 <= n; at++) {
        int m = 1;
        for (int i = 0; i < n; i++) m = sym_and(m, i < at || i >= at + 5 ? is_sp(v[i]) : lower((unsigned char)v[i]) == "basic"[i - at]);
        ok = sym_or(ok, m);
      }
      sym_check(ok, "no other scheme yields credentials");
      sym_check(u == "a" && p == "b", "the credentials are those transmitted");
    }
  }
  catch (const http::Error_response& e) { sym_check(e.response_header()->code() == 401, "unusable credentials are refused with 401"); sym_cover("unauthorized"); }
}
static void xheaders() {
  int n = sym_param("n", 3);
  std::string a = sym_str(n, "name"), b = sym_str(n, "name2");
  if (int pre = sym_param("pre", 0)) { std::string s = "X-"; s.append(pre, 'k'); a = s + a; b = s + b; n += 2 + pre; }
  int va = n >= 2 ? sym_and(sym_or(a[0] == 'X', a[0] == 'x'), a[1] == '-') : 0, vb = n >= 2 ? sym_and(sym_or(b[0] == 'X', b[0] == 'x'), b[1] == '-') : 0;
  XHeaders x; bool ta = true, tb = true;
  try { x[a] = "1"; } catch (const Error_xheader&) { ta = false; }
  sym_check(sym_or(sym_and(ta, va), sym_and(!ta, !va)), "exactly the names starting with X- can be set");
  if (!ta) { sym_check(x.size() == 0, "a refused name sets nothing"); sym_cover("refused"); }
  try { x[b] = "2"; } catch (const Error_xheader&) { tb = false; }
  sym_check(sym_or(sym_and(tb, vb), sym_and(!tb, !vb)), "exactly the names starting with X- can be set");
  if (!ta || !tb) return;
  std::string la = lowered(a), lb = lowered(b);
  bool eq = str_eq(la, lb);
  sym_check(x.size() == (eq ? 1u : 2u), "names differing only in case are one header");
  XHeaders::const_iterator i = x.find(a);
  sym_check(i != x.end() && str_eq(i->first, la) && i->second == (eq ? "2" : "1"), "a later setting replaces an earlier one");
  i = x.find(b);
  sym_check(i != x.end() && str_eq(i->first, lb) && i->second == "2", "lookups ignore case and find the stored lower-case name");
  std::string up; for (size_t k = 0; k < a.size(); k++) { unsigned char c = a[k]; up += (char)sym_ite(sym_and(c >= 'a', c <= 'z'), c - 32, c); }
  sym_check(x.find(up) != x.end(), "lookups ignore case");
  XHeaders y; std::map<std::string, std::string> m; m[a] = "3"; m["Host"] = "4"; y["X-old"] = "5"; y = m;
  sym_check(y.size() == 1 && str_eq(y.begin()->first, la) && y.begin()->second == "3", "assigning a map keeps exactly its X-headers");
  if (!str_eq(a, b)) {        // both names at once: set in the order of the map
    m.clear(); m[a] = "6"; m[b] = "7"; y = m;
    sym_check(y.size() == (eq ? 1u : 2u), "an assigned map with names differing only in case gives one header");
    sym_check(y[b] == (!eq || a < b ? "7" : "6") && y[a] == (eq && a < b ? "7" : "6"), "the later entry of an assigned map replaces the earlier one");
    sym_cover("both");
  }
  sym_cover("set");
}
// a request with X-headers and others: exactly the X-headers are reported
static void xrecv() {
  int n = sym_param("n", 2);
  std::string nm = word(n, "name"), v = word(1, "value");
  for (int i = 0; i < n; i++) sym_assume(nm[i] != ':');
  Out o; http::Packet_reader r;
  feed(r, "POST / HTTP/1.0\r\ncontent-length: 0\r\nX-One: a\r\n" + nm + ": " + v + "\r\nHost: h\r\n\r\n", o);
  sym_check(o.kind == 1, "understood");
  std::string l = lowered(nm);
  bool isx = n >= 2 && sym_fork(sym_and(l[0] == 'x', l[1] == '-'));
  sym_check(o.xh.size() == (isx ? 2u : 1u) && o.xh["x-one"] == "a", "exactly the X-headers are reported");
  if (isx) { sym_check(o.xh.count(l) && str_eq(o.xh[l], v), "each with its own value"); sym_cover("xheader"); } else sym_cover("other");
}
extern "C" void sym_main() {
  switch (sym_param("mode", 0)) {
    case 0: request(); break;
    case 1: response(); break;
    case 2: errors(); break;
    case 3: auth(); break;
    case 4: auth_any(); break;
    case 5: xheaders(); break;
    case 6: xrecv(); break;
    case 7: large(); break;
  }
}
