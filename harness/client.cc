// C01: one call, any fragmentation, any outcome; C02: persistent connections; C03: connecting; C04: what is sent; C05: addresses.
#include "cli.h"
#include "ptls.h"
#include "libiqxmlrpc/https_client.h"
#include "libiqxmlrpc/request.h"
#include <memory>
#include <netdb.h>

enum Res { VALUE, FAULT, HTTPERR, MALFORMED, XMLERR, NETERR, TIMEOUT, OTHER };
static int last_status;     // of the HTTP error the server answers with
struct Got { Res r; int code; char text[8]; int ntext; };
static Got call(Client_base& cl, const std::string& m, const Value& v) {
  Got g; g.code = 0; g.ntext = 0;
  try {
    Response r = cl.execute(m, v);
    if (r.is_fault()) { g.r = FAULT; g.code = r.fault_code(); }
    else { g.r = VALUE; std::string s = r.value().get_string(); g.ntext = s.size() < 8 ? s.size() : 8; memcpy(g.text, s.data(), g.ntext); }
  }
  catch (const http::Error_response& e) { g.r = HTTPERR; g.code = e.response_header()->code(); }
  catch (const http::Malformed_packet&) { g.r = MALFORMED; }
  catch (const Client_timeout&) { g.r = TIMEOUT; }
  catch (const iqnet::network_error&) { g.r = NETERR; }
  catch (const Exception& e) { g.r = XMLERR; g.code = e.code(); }
  catch (...) { g.r = OTHER; }
  return g;
}
// the client asked for: over plain connections, or (tls=1) over TLS connections that carry the same bytes
struct Caller {
  std::unique_ptr<PlainTls> t; std::unique_ptr<iqnet::ssl::Ctx> ctx; std::unique_ptr<Client_base> c;
  Caller(const iqnet::Inet_addr& a, const std::string& uri = "/RPC", const std::string& vhost = "") {
    if (sym_param("tls", 0)) {
      t.reset(new PlainTls); tls = t.get();
      ctx.reset(iqnet::ssl::Ctx::client_only()); iqnet::ssl::ctx = ctx.get();
      c.reset(new Client<Https_client_connection>(a, uri, vhost));
    } else c.reset(new Client<Http_client_connection>(a, uri, vhost));
  }
  ~Caller() {
    c.reset(); if (!t) return;
    sym_check(t->live() == 0, "every TLS connection object is freed");
    ctx.reset(); iqnet::ssl::ctx = 0; tls = 0;
  }
  Client_base& operator*() { return *c; }
};
static const char* fault_body = "<?xml version=\"1.0\"?><methodResponse><fault><value><struct><member><name>faultCode</name><value><int>77</int></value></member>"
  "<member><name>faultString</name><value><string>no</string></value></member></struct></value></fault></methodResponse>";

// the i-th answer is of kind k, with text t; returns what the call has to result in
static Res add_answer(CliNet& w, int k, const std::string& t) {
  switch (k) {
    case 0: w.answer(http_resp(value_xml(t))); return VALUE;
    case 1: w.answer(http_resp(fault_body)); return FAULT;
    case 2: {                 // any status from 200 to 599 but 200 itself
      std::string s = sym_str(3, "status"); unsigned char a = s[0], b = s[1], c = s[2];
      sym_assume(sym_and(in_range(a, '2', '5'), sym_and(in_range(b, '0', '9'), in_range(c, '0', '9'))));
      int status = last_status = (a - '0') * 100 + (b - '0') * 10 + (c - '0');
      sym_assume(status != 200);
      w.answer(http_resp(pick(2, "binary") ? std::string("o\0ps", 4) : std::string("oops"), (s + " Some error").c_str())); return HTTPERR;
    }
    case 3: w.answer("HTTP/1.1 200 OK\r\nnocolon\r\nContent-Length: 3\r\n\r\nabc"); return MALFORMED;
    case 4: w.answer(http_resp("<methodResponse><params/></methodResponse>")); return XMLERR;
    case 5: w.answer("", Answer::CLOSE); return NETERR;
    case 6: { std::string d = http_resp(value_xml(t)); w.answer(d.substr(0, pick(2, "where") ? 20 : d.size() - 1), Answer::CLOSE); return NETERR; }
    case 7: { std::string d = http_resp(value_xml(t)); w.answer(pick(2, "where") ? "" : d.substr(0, d.size() - 1), Answer::RESET); return NETERR; }
    case 8: w.answer(""); return TIMEOUT;
    case 9: { std::string d = http_resp(value_xml(t)); w.answer(d.substr(0, pick(2, "where") ? 20 : d.size() - 1)); return TIMEOUT; }
    case 10: w.answer(http_resp(value_xml(t)), Answer::CLOSE); return VALUE;
    default: w.answer(http_resp("<methodResponse><params><param><value><string>" + t + "</string></value></param></params></methodResponse>" + std::string(sym_param("pad", 65536) - 100, ' '))); return VALUE;
  }
}
static void check_result(const Got& g, Res want, const std::string& t, int status) {
  sym_log("res", g.r); sym_log("code", g.code);
  sym_check(g.r == want, "the outcome of the call matches what the server did");
  if (want == VALUE) sym_check(g.ntext == (int)t.size() && sym_memeq(g.text, t.data(), t.size()), "the call returns the value the server sent");
  if (want == FAULT) sym_check(g.code == 77, "the call returns the fault the server sent");
  if (want == HTTPERR) sym_check(g.code == status, "the call reports the status the server sent");
  static const char* N[] = { "value", "fault", "httperr", "malformed", "xmlerr", "neterr", "timeout" };
  sym_cover(N[want]);
}
static bool has_c(const char* b, size_t n, const std::string& s) { for (size_t i = 0; i + s.size() <= n; i++) if (sym_memeq(b + i, s.data(), s.size())) return true; return false; }
static std::string body_of(const std::string& m, const Value& v) { Param_list pl; pl.push_back(v); return dump_request(Request(m, pl)); }

static void one_call() {
  int kind = sym_param("kind", -1); if (kind < 0) kind = pick(11, "answer");
  CliNet w; net = &w;
  std::string t = cletters(2, "text"), arg = cletters(1, "argument");
  w.cuts = sym_param("cuts", 1); w.splits = sym_param("splits", 1); w.intr = sym_param("intr", 0);
  w.gap = sym_param("gap", 0); w.min_cut = sym_param("mincut", 0);
  Res want = add_answer(w, kind, t); int status = last_status;
  int to = pick(2, "timeout") ? -1 : 5;
  if (want == TIMEOUT) to = 5;
  w.want_ms = to < 0 ? -1 : to * 1000;
  size_t big = sym_param("big", 0); if (big) { w.cuts = 0; w.sbuf = sym_param("sbuf", 0); }
  w.pend[0] = pick(2, "connects later");
  bool keep = pick(2, "keep");
  arg = std::string(big, 'b') + arg;
  std::string expect = body_of("m", arg);
  Value v(arg); std::string name("m");
  long live = sym_live_new(); Got g;
  {
    Caller cr(iqnet::Inet_addr("host", 80)); Client_base& cl = *cr;
    cl.set_timeout(to); cl.set_keep_alive(keep);
    g = call(cl, name, v);
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  check_result(g, want, t, status);
  w.all_closed();
  sym_check(w.nc == 1 && w.c[0].done == 1 && w.c[0].parsed == w.c[0].ngot, "the request is transmitted completely and exactly once");
  sym_check(sym_memeq(w.c[0].got + w.c[0].ngot - expect.size(), expect.data(), expect.size()), "the body is the XML of the call");
}

static void persistent() {
  int n = sym_param("calls", 3);
  CliNet w; net = &w;
  w.cuts = sym_param("cuts", 0); w.splits = sym_param("splits", 0); w.min_cut = sym_param("mincut", 0);
  w.want_ms = 5000;
  enum { N = 12 };
  bool plain = sym_param("plain", 0);
  std::string t[N]; Res want[N]; Got g[N]; int kinds[N], status[N]; char keep[N];
  bool alive = false; int conns = 0, on[N];
  for (int i = 0; i < n; i++) {
    t[i] = cletters(2, "text"); kinds[i] = !plain ? pick(11, "answer") : i == n / 2 ? (pick(2, "fails") ? 6 : 0) : 0; keep[i] = i == 0 ? 1 : i == 1 ? pick(2, "keep") : keep[1];
    // a server that closed after its answer breaks the next call on that connection
    if (keep[i] && alive && i > 0 && kinds[i - 1] == 10) { want[i] = NETERR; on[i] = conns - 1; kinds[i] = -1; }
    else { want[i] = add_answer(w, kinds[i], t[i]); status[i] = last_status; if (!(keep[i] && alive)) conns++; on[i] = conns - 1; }
    alive = keep[i] && (want[i] == VALUE || want[i] == FAULT);
  }
  Value v(1); std::string name("m");
  long live = sym_live_new();
  {
    Caller cr(iqnet::Inet_addr("host", 80)); Client_base& cl = *cr;
    cl.set_timeout(5);
    for (int i = 0; i < n; i++) { cl.set_keep_alive(keep[i]); g[i] = call(cl, name, v); }
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  for (int i = 0; i < n; i++) check_result(g[i], want[i], t[i], status[i]);
  w.all_closed();
  sym_check(w.nc == conns, "connections are reused after success and replaced after failure");
  int cnt[MAXC] = { 0 };
  for (int i = 0; i < n; i++) if (kinds[i] >= 0) cnt[on[i]]++;
  for (int i = 0; i < w.nc; i++) sym_check(w.c[i].done == cnt[i], "every call goes to its connection");
  sym_cover("calls");
}

static void connecting() {
  // 0 at once, 1 later, 2 fails at once, 3 fails later, 4 never, 5 no such host, 6 no socket, 7, 8 no TLS object
  int kind = pick(sym_param("tls", 0) ? 9 : 7, "connect");
  CliNet w; net = &w;
  w.intr = sym_param("intr", 1);
  if (kind == 1) w.pend[0] = 1;
  if (kind == 2) { int e = pick(3, "errno"); w.conn_err[0] = e == 0 ? any_error("connect error") : e == 1 ? EINTR : EAGAIN; }
  if (kind == 3) { w.pend[0] = 1; w.so_err[0] = any_error("connect error"); }
  if (kind == 4) w.pend[0] = 2;
  if (kind == 5) w.nolookup = true;
  if (kind == 6) w.sock_err = pick(2, "errno") ? any_error("socket error") : EAGAIN;
  std::string t = "ok";
  w.answer(http_resp(value_xml(t)));
  int to = sym_int("timeout");
  if (kind == 4) sym_assume(to >= 0);
  int neg = sym_fork(to < 0);
  w.big_ms = !neg && sym_fork(to > 2147483);
  w.want_ms = neg ? -1 : w.big_ms ? 0 : to * 1000;
  Res want = kind <= 1 ? VALUE : kind == 4 ? TIMEOUT : kind > 6 ? OTHER : NETERR;
  Value v(1); std::string name("m"); bool again = pick(2, "again");
  long live = sym_live_new(); Got g, g2;
  {
    Caller cr(iqnet::Inet_addr("host", 80)); Client_base& cl = *cr;
    cl.set_timeout(to);
    if (pick(2, "keep")) cl.set_keep_alive(true);
    if (kind == 7) tls->fail_ssl = 1;
    if (kind == 8) tls->fail_fd = 1;
    g = call(cl, name, v);
    if (again && kind > 1) {
      if (kind == 5) { g2 = call(cl, name, v); sym_check(g2.r == NETERR, "every failed lookup is reported"); w.nolookup = false; }
      if (kind > 6) tls->fail_ssl = tls->fail_fd = 0;
      g2 = call(cl, name, v);
    }
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(g.r == want || (want == OTHER && (g.r == NETERR || g.r == XMLERR)), "the outcome of connecting matches what the transport reported");
  if (again && kind > 1) { sym_check(g2.r == VALUE, "the next call connects anew"); sym_cover("again"); }
  w.all_closed();
  static const char* N[] = { "now", "later", "refused", "late error", "never", "unknown host", "no socket", "no TLS", "no TLS" };
  sym_cover(N[kind]);
}

// value of header `name` (lower case, with colon) in the request, or 0
static int count_hdr(const CConn& k, const char* name) {
  int c = 0; size_t l = strlen(name);
  for (size_t i = 0; i + l < k.ngot && memcmp(k.got + i, "\r\n\r\n", 4); i++) if (k.got[i] == '\n' && !memcmp(k.got + i + 1, name, l)) c++;
  return c;
}
static bool is_hdr(const CConn& k, const char* name, const std::string& v) {
  size_t l = strlen(name);
  for (size_t i = 0; i + l < k.ngot && memcmp(k.got + i, "\r\n\r\n", 4); i++) if (k.got[i] == '\n' && !memcmp(k.got + i + 1, name, l)) {
    size_t q = i + 1 + l; if (k.got[q] == ' ') q++;
    return q + v.size() + 2 <= k.ngot && sym_memeq(k.got + q, v.data(), v.size()) && k.got[q + v.size()] == '\r' && k.got[q + v.size() + 1] == '\n';
  }
  return false;
}
static std::string b64(const std::string& s) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0; int k = s.size() - i < 3 ? s.size() - i : 3;
    for (int j = 0; j < 3; j++) v = v << 8 | (j < k ? (unsigned char)s[i + j] : 0);
    for (int j = 0; j < 4; j++) r += j <= k ? A[v >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
static void target() {
  CliNet w; net = &w;
  w.answer(http_resp(value_xml("ok"))); w.answer(http_resp(value_xml("ok")));
  bool proxy = sym_param("proxy", 0), auth = sym_param("auth", 0), keep = sym_param("keep", 0);
  int lng = sym_param("long", 0); std::string tail(lng, 'z');      // everything is that much longer
  int slash = pick(lng ? 2 : 4, "slash"), nu = lng ? 1 : pick(3, "uri"), opt = lng ? 1 : pick(2, "x option"), per = lng ? 2 : pick(3, "x call");
  static const int ports[] = { 80, 3344, 40000, 65535 }; int vh = lng ? pick(2, "vhost") : pick(4, "vhost"), port = ports[vh ? vh : pick(4, "port")];
  std::string uri = (slash == 1 || slash == 2 ? "/" : "") + cletters(nu, "uri") + tail + (slash == 2 ? "?a=b" : slash == 3 ? "/q" : ""), v1 = cletters(2, "one") + tail, v2 = cletters(2, "two") + tail, arg = cletters(1, "argument") + tail, host = "host" + tail, user = "user" + tail;
  std::string vhost = vh == 3 ? "virtual.example" : cletters(vh, "vhost name") + (vh ? tail : "");
  int np = sym_param("params", 1); Param_list pl; for (int i = 0; i < np; i++) pl.push_back(i ? Value(i) : Value(arg));
  std::string expect = dump_request(Request("m.x", pl));
  { std::unique_ptr<Request> q(parse_request(expect)); sym_check(q->get_name() == "m.x" && q->get_params().size() == (size_t)np && str_eq(q->get_params()[0].get_string(), arg) && (np < 2 || q->get_params()[np - 1].get_int() == np - 1), "the XML of a call holds its method and all its parameters"); }
  {
    Caller cr(iqnet::Inet_addr(host, port), uri, vhost); Client_base& cl = *cr;
    if (proxy) cl.set_proxy(iqnet::Inet_addr("proxy", 8080));
    cl.set_keep_alive(keep);
    // what is set last counts
    bool twice = pick(2, "set twice");
    if (twice) { if (auth) cl.set_authinfo("other", "secret"); XHeaders h; h["X-Old"] = "1"; cl.set_xheaders(h); if (!opt) cl.set_xheaders(XHeaders()); cl.set_keep_alive(!keep); cl.set_keep_alive(keep); }
    int pw = auth ? pick(2, "password") : 0; if (auth) cl.set_authinfo(user, pw ? "pass:word" + tail : ""); else if (sym_param("noauth", 0)) { cl.set_authinfo("other", "secret"); cl.set_authinfo("", ""); }
    XHeaders h; bool none = opt && sym_param("empty", 0); if (none) v1.clear();
    if (opt) { h["X-One"] = v1; h["x-two"] = "keep"; cl.set_xheaders(h); }
    XHeaders c; if (per >= 1) c["X-ONE"] = v2; if (per == 2) c["X-Three"] = "3"; if (lng) for (int i = 0; i < 20; i++) c["X-Many" + cnum(i)] = cnum(i);
    for (int i = 0; i < 2; i++) {
      bool chg = i == 1 && twice;            // configured anew between the calls
      if (chg) { XHeaders n; n["X-One"] = "new"; cl.set_xheaders(n); if (auth) cl.set_authinfo("second", "one"); }
      Response r = cl.execute("m.x", pl, i == 0 ? c : XHeaders());
      sym_check(!r.is_fault() && r.value().get_string() == "ok", "the call succeeds");
      CConn& k = w.c[keep ? 0 : i];
      sym_check(k.addr == htonl(proxy ? 0x0a000009 : 0x0a000001) && k.port == (proxy ? 8080 : port), "the client connects to the configured address");
      std::string hn = vh ? vhost : host, p = cnum(port);
      std::string line = "POST " + (proxy ? "http://" + hn + ":" + p + (uri.empty() || uri[0] == '/' ? "" : "/") + uri : uri) + " HTTP/1.0\r\n";
      if (k.ngot < line.size()) sym_fail("the request is too short");
      size_t o = 0; if (keep && i == 1) { o = k.ngot - 5; while (o > 0 && memcmp(k.got + o, "POST ", 5)) o--; memmove(k.got, k.got + o, k.ngot - o); k.ngot -= o; k.parsed -= o; }
      sym_check(k.ngot >= line.size() && sym_memeq(k.got, line.data(), line.size()), "the request line names the configured target");
      sym_check(count_hdr(k, "host:") == 1 && is_hdr(k, "host:", hn + ":" + p), "the host header names the virtual host and port");
      sym_check(count_hdr(k, "connection:") == 1 && is_hdr(k, "connection:", keep ? "keep-alive" : "close"), "the connection header carries the keep-alive choice");
      sym_check(count_hdr(k, "authorization:") == auth, "credentials are sent exactly if configured");
      if (auth) sym_check(is_hdr(k, "authorization:", "Basic " + b64(chg ? "second:one" : user + (pw ? ":pass:word" + tail : ":"))), "the credentials are the configured ones");
      bool p1 = i == 0 && per >= 1, p3 = i == 0 && per == 2;
      sym_check(count_hdr(k, "x-one:") == (opt || p1 || chg) && count_hdr(k, "x-two:") == (opt && !chg) && count_hdr(k, "x-three:") == p3 && count_hdr(k, "x-old:") == 0, "exactly the configured X-headers are sent");
      if (lng) for (int j = 0; j < 20; j++) sym_check(count_hdr(k, ("x-many" + cnum(j) + ":").c_str()) == !i && (i || is_hdr(k, ("x-many" + cnum(j) + ":").c_str(), cnum(j))), "every X-header is sent");
      if (p1) sym_check(is_hdr(k, "x-one:", v2), "a per-call X-header overrides"); else if (chg) sym_check(is_hdr(k, "x-one:", "new"), "a call carries the X-headers set last"); else if (opt) sym_check(is_hdr(k, "x-one:", v1), "an X-header carries its value");
      sym_check(count_hdr(k, "content-type:") == 1 && is_hdr(k, "content-type:", "text/xml"), "the content type is text/xml");
      sym_check(k.ngot >= expect.size() && sym_memeq(k.got + k.ngot - expect.size(), expect.data(), expect.size()) && is_hdr(k, "content-length:", cnum(expect.size())), "the body is the XML of exactly this call");
    }
  }
  sym_check(w.nc == (keep ? 1 : 2), "connections are kept exactly if configured");
  w.all_closed();
  sym_cover(proxy ? "proxy" : "direct");
}

struct AddrNet : Net {
  unsigned char a[4]; bool fail; int n_; size_t len; char host[8];
  AddrNet() : fail(false), n_(0), len(0) {}
  bool do_lookup(const char* h, unsigned char o[4]) { n_++; strncpy(host, h, sizeof host); len = strlen(h); if (fail) return false; memcpy(o, a, 4); return true; }
};
static void address() {
  AddrNet w; net = &w;
  static const int LE[][2] = { { 0, HOST_NOT_FOUND }, { EAGAIN, TRY_AGAIN }, { ENOMEM, NETDB_INTERNAL }, { ENOENT, 0 } };
  int le = pick(4, "lookup error"); w.lookup_rc = LE[le][0]; w.lookup_herr = LE[le][1];
  sym_make(w.a, 4, "address");
  int form = pick(4, "form"), port = sym_int("port"); sym_assume(in_range(port, 0, 65535));
  if (form == 0) {       // host and port
    static const int HL[] = { 0, 60, 64, 250 }; int hl = HL[pick(4, "length")]; std::string h = cletters(3, "host") + std::string(hl, 'h') + (hl ? ".z" : "");
    iqnet::Inet_addr a(h, port);
    int fails = pick(3, "failures");
    for (int i = 0; i < fails; i++) { w.fail = true; bool thrown = false; try { a.get_sockaddr(); } catch (const iqnet::network_error&) { thrown = true; } sym_check(thrown, "a failed lookup raises a network error every time"); sym_cover("failed"); }
    w.fail = false;
    iqnet::Inet_addr b(a);
    for (int i = 0; i < 2; i++) {
      const sockaddr_in* s = (i ? b : a).get_sockaddr();
      sym_check(s->sin_family == AF_INET && s->sin_port == htons(port) && sym_memeq(&s->sin_addr, w.a, 4), "the socket address has the port and the looked-up address");
    }
    sym_check(w.n_ >= 1 && w.len == h.size() && sym_memeq(w.host, h.data(), 3), "the given host is looked up");
    sym_check(str_eq(a.get_host_name(), h) && a.get_port() == port, "an address reports its host and port"); sym_cover("host");
  } else if (form == 1) {
    iqnet::Inet_addr a(port); const sockaddr_in* s = a.get_sockaddr();
    sym_check(s->sin_family == AF_INET && s->sin_port == htons(port) && s->sin_addr.s_addr == 0 && a.get_host_name() == "0.0.0.0" && a.get_port() == port && w.n_ == 0, "a port-only address is the wildcard"); sym_cover("port");
  } else if (form == 2) {
    sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(port); memcpy(&in.sin_addr, w.a, 4);
    int which = pick(4, "byte"); for (int i = 0; i < 4; i++) if (i != which) sym_assume(w.a[i] == (i == 0 ? 10 : i == 1 ? 0 : i == 2 ? 255 : 99));
    iqnet::Inet_addr a(in); const sockaddr_in* s = a.get_sockaddr();
    sym_check(sym_memeq(s, &in, sizeof in) && a.get_port() == port && w.n_ == 0, "an address built from a socket address is that address");
    const std::string& h = a.get_host_name(); unsigned v[4] = { 0, 0, 0, 0 }; int part = 0;
    for (size_t i = 0; i < h.size(); i++) { if (h[i] == '.') { part++; if (part > 3) break; } else v[part] = v[part] * 10 + (h[i] - '0'); }
    sym_check(part == 3, "its host is a dotted quad"); for (int i = 0; i < 4; i++) sym_check(v[i] == w.a[i], "its host is the address in dotted form"); sym_cover("sockaddr");
  } else {
    std::string h = sym_str(4, "host"); bool bad = false; int has = 0;
    for (int i = 0; i < 4; i++) has = sym_or(has, sym_or(h[i] == '\n', h[i] == '\r'));
    try { iqnet::Inet_addr a(h, 1); } catch (const iqnet::network_error&) { bad = true; }
    sym_check(bad == (has != 0), "host names with line breaks are refused, others accepted"); if (bad) sym_cover("refused");
  }
}

extern "C" void sym_main() {
  switch (sym_param("mode", 0)) {
    case 0: one_call(); break;
    case 1: persistent(); break;
    case 2: connecting(); break;
    case 3: target(); break;
    case 4: address(); break;
  }
}
