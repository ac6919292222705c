// T01: HTTPS server and client over every pattern of TLS results; T02: peer verification; T04: tunnelling through a proxy.
#include "srv.h"
#include "cli.h"
#include "tls.h"
#include "libiqxmlrpc/https_server.h"
#include "libiqxmlrpc/https_client.h"
#include "libiqxmlrpc/ssl_lib.h"

// how one TLS connection misbehaves: the `at`-th call ends with `kind`
enum Bad { NONE, LIBFAIL, LIBFAIL2, EOF0, RESET1, CLEAN };
struct Upset { int at; Bad kind; int calls; Upset() : at(-1), kind(NONE), calls(0) {} };

template <class World>
struct TlsModel : Tls {
  World* w; int budget; Upset fault[MAXS]; bool due[MAXS]; int late;      // late: data held back inside the library once
  bool presented; int preverify; bool refused; int extra;
  TlsModel() : w(0), budget(0), late(0), presented(true), preverify(1), refused(false), extra(0) { for (int i = 0; i < MAXS; i++) due[i] = false; }
  int idx(SSL* s) { return (int)(s - this->s); }
  // may the call be delayed or broken now?  returns true if *r is its result
  bool disturb(SSL* s, int op, int* r) {
    int i = idx(s);
    Upset& q = fault[i];
    if (q.kind != NONE && q.calls++ == q.at) {
      sym_cover("tls fault");
      switch (q.kind) {
        case LIBFAIL2: push(0x0a000123);   // fall through
        case LIBFAIL: push(0x0a000124); *r = bad(s, op, SSL_ERROR_SSL); break;
        case EOF0: *r = bad(s, op, SSL_ERROR_SYSCALL, 0); break;
        case RESET1: errno = ECONNRESET; *r = bad(s, op, SSL_ERROR_SYSCALL, -1); break;
        default: s->shut |= SSL_RECEIVED_SHUTDOWN; *r = bad(s, op, SSL_ERROR_ZERO_RETURN, op == 3 ? 0 : -1); break;
      }
      return true;
    }
    if (budget > 0) {
      int k = pick(3, "tls result");
      if (k) { budget--; due[i] = true; *r = wants(s, op, k == 1 ? POLLIN : POLLOUT); sym_cover(k == 1 ? "want read" : "want write"); return true; }
    }
    due[i] = false;
    return false;
  }
  int do_handshake(SSL* s) {
    int r = 0, op = s->server ? 1 : 2;
    if (disturb(s, op, &r)) return r;
    if (!verify(s, presented, preverify)) { refused = true; push(0x0a000086); return bad(s, op, SSL_ERROR_SSL); }
    return 1;
  }
  int do_read(SSL* s, char* b, int n) {
    int r = 0;
    if (!w->held(s->fd) && disturb(s, 3, &r)) return r;     // data inside the library is returned at once
    w->in_tls = true; ssize_t k = w->plain_recv(s->fd, b, n); w->in_tls = false;
    if (k > 0) return (int)k;
    if (k == 0) { if (pick(2, "clean close")) { s->shut |= SSL_RECEIVED_SHUTDOWN; return bad(s, 3, SSL_ERROR_ZERO_RETURN, 0); } return bad(s, 3, SSL_ERROR_SYSCALL, 0); }
    if (errno == EAGAIN) { due[idx(s)] = false; return wants(s, 3, POLLIN); }
    return bad(s, 3, SSL_ERROR_SYSCALL, -1);
  }
  int do_write(SSL* s, const char* b, int n) {
    int r = 0;
    sym_check(n > 0, "a write has data");
    if (disturb(s, 4, &r)) return r;
    w->in_tls = true; ssize_t k = w->plain_send(s->fd, b, n); w->in_tls = false;
    if (k == n) return n;
    return bad(s, 4, SSL_ERROR_SYSCALL, -1);
  }
  int do_shutdown(SSL* s) {
    int r = 0;
    if (s->shut & SSL_SENT_SHUTDOWN) {
      if (s->shut & SSL_RECEIVED_SHUTDOWN) return 1;
      if (extra > 0) { extra--; int k = pick(3, "peer close"); if (k == 1) { s->shut |= SSL_RECEIVED_SHUTDOWN; return 1; } if (k == 2) { push(0x0a000125); return bad(s, 5, SSL_ERROR_SSL); } }
      return wants(s, 5, POLLIN);
    }
    if (fault[idx(s)].kind == CLEAN && fault[idx(s)].calls == fault[idx(s)].at) s->shut |= SSL_SENT_SHUTDOWN;   // both directions already closed
    if (disturb(s, 5, &r)) return r;
    s->shut |= SSL_SENT_SHUTDOWN;
    return s->shut & SSL_RECEIVED_SHUTDOWN ? 1 : 0;
  }
  int do_pending(SSL* s) { return w->held(s->fd) ? 1 : 0; }
};

static void check_wants(Tls& t, pollfd* p, unsigned long k) {
  for (unsigned long i = 0; i < k; i++) { SSL* s = t.by_fd(p[i].fd); if (s && s->want) sym_check(p[i].events == s->want, "the connection waits for exactly the readiness the TLS library asked for"); }
}

struct TlsSrv : SrvNet {
  bool in_tls; TlsModel<TlsSrv>* t; int hold; bool holding;      // hold: how often the rest of a record already is inside the library and the socket not readable
  TlsSrv(Peer* p, int k) : SrvNet(p, k), in_tls(false), t(0), hold(0), holding(false) {}
  ssize_t do_recv(int, char*, size_t) { sym_fail("the server reads from the socket directly"); return -1; }
  ssize_t do_send(int, const char*, size_t) { sym_fail("the server writes to the socket in clear"); return -1; }
  ssize_t plain_recv(int fd, char* b, size_t n) {
    holding = false;
    ssize_t k = SrvNet::do_recv(fd, b, n);
    if (k > 0 && hold > 0 && by_fd(fd)->off && pick(2, "held")) { hold--; holding = true; sym_cover("held"); }
    return k;
  }
  ssize_t plain_send(int fd, const char* b, size_t n) { return SrvNet::do_send(fd, b, n); }
  bool held(int) { return holding; }
  short do_ready(int fd, short ev) {
    SSL* s = t->by_fd(fd);
    if (!s) return SrvNet::do_ready(fd, ev);
    if (s->want && t->due[t->idx(s)]) return s->want & ev;
    if (!s->established) return (POLLIN | POLLOUT) & ev;
    short r = SrvNet::do_ready(fd, ev);
    if (holding) r &= ~POLLIN;
    return r;
  }
  int do_poll(pollfd* p, unsigned long k, int to) { check_wants(*t, p, k); return SrvNet::do_poll(p, k, to); }
};
struct TlsCli : CliNet {
  bool in_tls; TlsModel<TlsCli>* t; bool proxied; int hold; bool holding;
  char raw[512]; size_t nraw; bool asked;
  std::string pans; size_t poff; Answer::End pend_; bool pclosed; bool ok; bool wrong_early;
  TlsCli() : in_tls(false), t(0), proxied(false), hold(0), holding(false), nraw(0), asked(false), poff(0), pend_(Answer::NOTHING), pclosed(false), ok(false), wrong_early(false) {}
  bool tunnelled() { return !proxied || (ok && poff == pans.size()); }
  ssize_t do_send(int fd, const char* b, size_t n) {
    if (tunnelled() || asked) sym_fail("the client writes to the socket in clear");
    if (pend_ == Answer::RESET && pclosed) { errno = EPIPE; return -1; }
    size_t m = n;
    if (splits > 0 && n > 1) { m = 1 + pick(n, "write"); if (m < n) splits--; }
    if (nraw + m > sizeof raw) sym_fail("model: request to the proxy too long");
    memcpy(raw + nraw, b, m); nraw += m;
    if (nraw >= 4 && !memcmp(raw + nraw - 4, "\r\n\r\n", 4)) asked = true;
    return (ssize_t)m;
  }
  ssize_t do_recv(int fd, char* b, size_t n) {
    if (tunnelled()) sym_fail("the client reads from the socket directly");
    if (!asked) { errno = EAGAIN; return -1; }
    size_t left = pans.size() - poff, m = left;
    if (!left) { if (pend_ == Answer::CLOSE) return 0; errno = pend_ == Answer::RESET ? ECONNRESET : EAGAIN; return -1; }
    if (gap && !gap_open) { if (poff >= gap) { errno = EAGAIN; return -1; } if (m > gap - poff) m = gap - poff; }
    if (cuts > 0 && m > 1) { m = 1 + pick(m, "read"); if (m < left) cuts--; }
    if (m > n) m = n;
    memcpy(b, pans.data() + poff, m); poff += m;
    return (ssize_t)m;
  }
  ssize_t plain_recv(int fd, char* b, size_t n) {
    if (proxied) cuts = 0;
    holding = false;
    ssize_t k = CliNet::do_recv(fd, b, n); CConn* c = by(fd);
    if (k > 0 && hold > 0 && c->off < ans[c->cur].data.size() && pick(2, "held")) { hold--; holding = true; sym_cover("held"); }
    return k;
  }
  ssize_t plain_send(int fd, const char* b, size_t n) { splits = 0; return CliNet::do_send(fd, b, n); }
  bool held(int) { return holding; }
  short do_ready(int fd, short ev) {
    SSL* s = t->by_fd(fd);
    CConn* k = by(fd);
    if (s && s->want && t->due[t->idx(s)]) return s->want & ev;
    if (s && !s->established && k && k->ready) return (POLLIN | POLLOUT) & ev;
    if (!s && proxied && k && k->ready) {
      short r = POLLOUT;
      if (gap && poff == gap) gap_open = true;
      if (asked && (poff < pans.size() || pend_ != Answer::NOTHING)) r |= POLLIN;
      return r & ev;
    }
    return CliNet::do_ready(fd, ev) & (holding ? ~POLLIN : ~0);
  }
  int do_poll(pollfd* p, unsigned long k, int to) { check_wants(*t, p, k); in_hand = holding; return CliNet::do_poll(p, k, to); }
};

static int runs;
static void echo(Method*, const Param_list& p, Value& r) { runs++; r = p.at(0); }
static std::string expected(const std::string& s) { return "<value><string>" + s + "</string></value>"; }

static void server() {
  int np = sym_param("peers", 1), nreq = sym_param("reqs", 1);
  Peer* peers = new Peer[np];
  std::vector<std::string> sent[2]; bool keep[2][16];
  for (int i = 0; i < np; i++) {
    peers[i].cuts = sym_param("cuts", 0);
    for (int j = 0; j < nreq; j++) {
      bool k = sym_param("nokeep", 0) ? false : sym_param("stay", 0) ? j + 1 < nreq : pick(2, "keep");
      std::string t = std::string(sym_param("big", 0), 'b') + letters(1, "text");
      keep[i][sent[i].size()] = k; sent[i].push_back(t);
      peers[i].send(http_req(call_xml("echo", "<string>" + t + "</string>"), k)).reply();
      if (!k) break;
    }
    if (keep[i][sent[i].size() - 1]) peers[i].close();
  }
  TlsSrv w(peers, np); net = &w; w.any_subset = sym_param("subset", 0); w.min_cut = sym_param("mincut", 0); w.hold = sym_param("hold", 0);
  TlsModel<TlsSrv> t; t.w = &w; w.t = &t; tls = &t;
  t.budget = sym_param("wants", 2); t.extra = 1; t.no_text = sym_param("nokeep", 0) ? true : pick(2, "no text");
  bool broken = false;
  if (sym_param("fault", 0)) {
    t.fault[0].kind = (Bad)(1 + pick(5, "fault")); t.fault[0].at = pick(sym_param("fault", 0), "at call");
    broken = true;
  }
  runs = 0;
  std::unique_ptr<iqnet::ssl::Ctx> ctx(iqnet::ssl::Ctx::server_only("cert", "key"));
  iqnet::ssl::ctx = ctx.get();
  Serial_executor_factory ef;
  long live = sym_live_new();
  {
    Https_server s(iqnet::Inet_addr(3344), &ef);
    w.srv = &s;
    register_method(s, "echo", echo);
    s.work();
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(t.live() == 0, "every TLS connection object is freed");
  int total = 0;
  for (int i = 0; i < np; i++) {
    Peer& p = peers[i];
    sym_check(p.closed && w.f[p.fd - Net::BASE].closes == 1, "the connection is closed exactly once");
    bool whole = true;
    SSL* s = 0; for (int q = 0; q < t.ns; q++) if (t.s[q].fd == p.fd) s = &t.s[q];
    if (broken && t.idx(s) == 0) whole = false;
    else sym_check(p.replies.size() == sent[i].size(), "every request gets exactly one reply");
    sym_check(p.replies.size() <= sent[i].size() && w.stray == 0, "no more replies than requests");
    sym_check(p.parsed == p.got.size(), "nothing but complete replies is sent");
    total += sent[i].size();
    for (size_t j = 0; j < p.replies.size(); j++) {
      sym_check(p.replies[j].code == 200 && has(p.body(j), expected(sent[i][j])), "the reply carries the result of its own request");
      sym_check(p.replies[j].keep == keep[i][j], "the reply names the connection mode that was asked for");
      sym_logb("body", p.body(j).data(), p.body(j).size());
    }
    sym_cover(whole ? "served" : "broken");
  }
  sym_check(broken ? runs <= total : runs == total, "every request runs its method once");
  sym_check(w.open_count() == 0, "every socket of the server is closed");
}

enum Res { VALUE, FAULT, HTTPERR, MALFORMED, NETERR, TLSERR, TIMEOUT, OTHER };
struct Got { Res r; int code; char text[8]; int ntext; };
static Got call(Client_base& cl, const std::string& m, const Value& v) {
  Got g; g.code = 0; g.ntext = 0;
  try {
    Response r = cl.execute(m, v);
    if (r.is_fault()) { g.r = FAULT; g.code = r.fault_code(); }
    else { g.r = VALUE; std::string s = r.value().get_string(); g.ntext = s.size() < 8 ? s.size() : 8; memcpy(g.text, s.data(), g.ntext); }
  }
  catch (const http::Error_response& e) { g.r = HTTPERR; g.code = e.response_header()->code(); }
  catch (const http::Malformed_packet&) { g.r = MALFORMED; }
  catch (const Client_timeout&) { g.r = TIMEOUT; }
  catch (const iqnet::network_error&) { g.r = NETERR; }
  catch (const iqnet::ssl::exception&) { g.r = TLSERR; }
  catch (...) { g.r = OTHER; }
  return g;
}
static void client() {
  int ncalls = sym_param("calls", 1);
  TlsCli w; net = &w;
  TlsModel<TlsCli> t; t.w = &w; w.t = &t; tls = &t;
  t.budget = sym_param("wants", 2); t.extra = 1; t.no_text = pick(2, "no text");
  w.cuts = sym_param("cuts", 0); w.min_cut = sym_param("mincut", 0); w.hold = sym_param("hold", 0);
  bool keep = pick(2, "keep"), broken = false;
  if (sym_param("fault", 0)) { t.fault[0].kind = (Bad)(1 + pick(5, "fault")); t.fault[0].at = pick(sym_param("fault", 0), "at call"); broken = true; }
  enum { N = 8 }; std::string text[N];
  int peer = sym_param("peer", 0) ? pick(4, "server") : 0;      // 1 answers nothing, 2 closes instead, 3 closes in the middle
  for (int i = 0; i < ncalls; i++) {
    text[i] = cletters(1, "text");
    std::string d = http_resp(value_xml(text[i]));
    if (peer == 1) w.answer(""); else if (peer == 2) w.answer("", Answer::CLOSE); else if (peer == 3) w.answer(d.substr(0, d.size() - 1), Answer::CLOSE); else w.answer(d);
  }
  w.want_ms = 5000;
  std::unique_ptr<iqnet::ssl::Ctx> ctx(iqnet::ssl::Ctx::client_only());
  iqnet::ssl::ctx = ctx.get();
  std::string name("m"); Value v(std::string(sym_param("big", 0), 'b'));
  long live = sym_live_new(); Got g[N];
  {
    Client<Https_client_connection> cl(iqnet::Inet_addr("host", 443));
    cl.set_timeout(5); cl.set_keep_alive(keep);
    for (int i = 0; i < ncalls; i++) g[i] = call(cl, name, v);
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(t.live() == 0, "every TLS connection object is freed");
  w.all_closed();
  for (int i = 0; i < ncalls; i++) {
    sym_log("res", g[i].r);
    if (broken && (i == 0 || keep)) {
      if (g[i].r == VALUE) sym_check(g[i].ntext == 1 && sym_memeq(g[i].text, text[i].data(), 1), "the call returns the value the server sent");
      else { sym_check(g[i].r == NETERR || g[i].r == TLSERR || g[i].r == TIMEOUT, "a broken connection is reported as an error"); sym_cover("broken"); return; }
      continue;
    }
    if (peer == 0) { sym_check(g[i].r == VALUE && g[i].ntext == 1 && sym_memeq(g[i].text, text[i].data(), 1), "the call returns the value the server sent"); sym_cover("called"); }
    else if (peer == 1) { sym_check(g[i].r == TIMEOUT, "no answer is reported as a timeout"); sym_cover("timeout"); }
    else { sym_check(g[i].r == NETERR || g[i].r == TLSERR, "a connection closed by the server is reported as such"); sym_cover("closed"); }
  }
  if (!broken && peer == 0) sym_check(w.nc == (keep ? 1 : ncalls), "a persistent connection is used again");
}

// T02
struct Ver : iqnet::ssl::ConnectionVerifier {
  int answer, up; bool want_finger; mutable int calls; mutable int prev; mutable bool finger_ok; const unsigned char* md;
  Ver() : answer(1), up(1), want_finger(false), calls(0), prev(-1), finger_ok(true), md(0) {}
  int do_verify(bool p, X509_STORE_CTX* c) const {
    calls++; prev = p;
    if (want_finger) {
      std::string s = cert_finger_sha256(c);
      finger_ok = s.size() == 64;
      if (finger_ok) for (int i = 0; i < 32; i++) { unsigned h = md[i] >> 4, l = md[i] & 15; unsigned char eh = (unsigned char)('0' + h + (unsigned)(h > 9) * 39u), el = (unsigned char)('0' + l + (unsigned)(l > 9) * 39u); finger_ok &= ((unsigned char)s[2 * i] == eh) & ((unsigned char)s[2 * i + 1] == el); }
    }
    int say = X509_STORE_CTX_get_error_depth(c) ? up : answer;
    if (say == 2) throw std::runtime_error("no");
    if (say == 3) throw 7;
    return say;
  }
};
static void verifying() {
  bool server = pick(2, "server"), have = pick(2, "verifier"), other = pick(2, "verifier of the other role"), require = server && pick(2, "required");
  Ver v, o;
  v.answer = have ? pick(4, "decision") : 0; o.answer = 0;
  int chain = have ? 1 + pick(2, "certificates") : 1; v.up = chain == 2 ? pick(4, "decision about the issuer") : 1;
  bool presented = server ? pick(2, "presented") : true, pre = pick(2, "preverified");
  Peer* peers = new Peer[1];
  TlsSrv ws(peers, 1); TlsCli wc;
  TlsModel<TlsSrv> ts; ts.w = &ws; ws.t = &ts; TlsModel<TlsCli> tc; tc.w = &wc; wc.t = &tc;
  Tls* t = server ? (Tls*)&ts : (Tls*)&tc; tls = t;
  ts.chain = tc.chain = chain;
  ts.presented = presented; ts.preverify = tc.preverify = pre;
  ts.budget = tc.budget = sym_param("wants", 1);
  std::unique_ptr<iqnet::ssl::Ctx> ctx;
  net = server ? (Net*)&ws : (Net*)&wc;
  if (have) {
    v.want_finger = true; v.md = t->md;
    int at = pick(2, "byte") * 30;
    for (int i = 0; i < 32; i++) t->md[i] = (unsigned char)(i * 37 + 11);
    for (int i = 0; i < 2; i++) t->md[at + i] = sym_byte("digest");
  }
  ctx.reset(server ? iqnet::ssl::Ctx::client_server("cert", "key") : pick(2, "kind") ? iqnet::ssl::Ctx::client_server("cert", "key") : iqnet::ssl::Ctx::client_only());
  if (!other && pick(2, "configured before")) { ctx->verify_client(!require, &o); ctx->verify_server(&o); ctx->verify_server(0); ctx->verify_client(false, 0); sym_cover("reconfigured"); }
  if (server) { ctx->verify_client(require, have ? &v : 0); if (other) ctx->verify_server(&o); }
  else { if (have) ctx->verify_server(&v); if (other) ctx->verify_client(true, &o); }
  iqnet::ssl::ctx = ctx.get();
  bool served; runs = 0;
  if (server) {
    peers[0].send(http_req(call_xml("echo", "<string>a</string>"), false)).reply();
    Serial_executor_factory ef;
    Https_server s(iqnet::Inet_addr(3344), &ef);
    ws.srv = &s; register_method(s, "echo", echo);
    s.work();
    served = peers[0].replies.size() == 1;
    sym_check(served == (runs == 1) && peers[0].got.empty() == !served, "a refused peer is not served");
    sym_check(peers[0].closed, "the connection is closed");
  } else {
    wc.answer(http_resp(value_xml("a"))); wc.want_ms = 5000;
    Client<Https_client_connection> cl(iqnet::Inet_addr("host", 443)); cl.set_timeout(5);
    Got g = call(cl, "m", Value(7));
    served = g.r == VALUE;
    if (!served) { sym_check(g.r == TLSERR, "a refused server is reported as a TLS error"); sym_check(wc.nc == 1 && wc.c[0].ngot == 0, "nothing of the request is sent to a refused server"); }
  }
  sym_check(o.calls == 0, "the verifier of the other role is not asked");
  if (have && presented) {
    sym_check(v.calls == (v.up == 1 ? chain : 1) && v.prev == (int)pre, "the verifier is asked about the certificate shown");
    sym_check(v.finger_ok, "the fingerprint has two hexadecimal digits per byte of the digest");
    sym_check(served == (v.answer == 1 && v.up == 1), "the verifier's decision decides the handshake");
    sym_cover(served ? "accepted" : "rejected");
  } else {
    sym_check(v.calls == 0, "the verifier is not asked");
    if (!presented) { sym_check(served == !require, "a required certificate is enforced"); sym_cover(require ? "required" : "anonymous"); }
    else if (!have && !require) { sym_check(served, "without a verifier no check is made"); sym_cover("unchecked"); }
    else if (pre) sym_check(served, "a good certificate satisfies the requirement");
  }
}

// T04
static void proxy() {
  TlsCli w; net = &w; w.proxied = true;
  TlsModel<TlsCli> t; t.w = &w; w.t = &t; tls = &t;
  t.budget = sym_param("wants", 0); t.no_text = true; t.extra = 1;
  w.cuts = sym_param("cuts", 1); w.splits = sym_param("splits", 1); w.intr = sym_param("intr", 0);
  int kind = sym_param("kind", -1); if (kind < 0) kind = pick(9, "proxy");
  int ncalls = sym_param("calls", 1); bool keep = ncalls > 1 || (sym_param("cfg", 0) && pick(2, "keep"));
  static const char* ok_ = "HTTP/1.0 200 Connection established\r\n\r\n";
  Res want = VALUE; int code = 0;
  switch (kind) {
    case 0: w.pans = ok_; break;
    case 1: { static const char* c[] = { "201 Created", "403 no", "407 auth", "502 bad", "100 Continue", "299 x", "500 x" }; int q = pick(7, "status"); w.pans = std::string("HTTP/1.0 ") + c[q] + "\r\n\r\n"; want = HTTPERR; static const int n[] = { 201, 403, 407, 502, 100, 299, 500 }; code = n[q]; break; }
    case 2: w.pend_ = Answer::CLOSE; want = NETERR; break;
    case 3: w.pans = std::string(ok_).substr(0, 15 + 23 * pick(2, "where")); w.pend_ = Answer::CLOSE; want = NETERR; break;
    case 4: w.pend_ = Answer::RESET; want = NETERR; break;
    case 5: want = TIMEOUT; break;
    case 6: w.pans = std::string(ok_).substr(0, 15 + 23 * pick(2, "where")); want = TIMEOUT; break;
    case 7: w.pans = "HTTP/1.0 200 OK\r\nnocolon\r\n\r\n"; want = MALFORMED; break;
    case 9: w.gap = 65536; w.pans = "HTTP/1.1 200 OK\r\nVia: x" + std::string(65536, ' ') + "\r\n\r\n"; break;
    default: w.pans = "HTTP/1.1 200 OK\r\nVia: x\r\nContent-Length: 0\r\n\r\n"; break;
  }
  w.ok = want == VALUE;
  std::string text[2], host = "h" + cletters(2, "host"); if (sym_param("cfg", 0)) { static const char* const T[] = { "", ".example.org", "-1.a" }; host += T[pick(3, "domain")]; }
  static const int ports[] = { 443, 1, 65535 }; bool cfg = sym_param("cfg", 0); int port = ports[cfg ? pick(3, "port") : 0];
  for (int i = 0; i < ncalls; i++) { text[i] = cletters(1, "text"); w.answer(http_resp(value_xml(text[i]))); }
  bool tmo = want == TIMEOUT || (cfg && pick(2, "timeout"));
  w.want_ms = tmo ? 5000 : -1;
  w.pend[0] = cfg ? pick(2, "connects later") : 0;
  std::unique_ptr<iqnet::ssl::Ctx> ctx(iqnet::ssl::Ctx::client_only());
  iqnet::ssl::ctx = ctx.get();
  bool auth = cfg && pick(2, "credentials");
  std::string name("m"), ask = "CONNECT " + host + ":" + cnum(port) + " HTTP/1."; Value v(7);
  long live = sym_live_new(); Got g[2];
  {
    Client<Https_client_connection> cl(iqnet::Inet_addr(host, port));
    cl.set_proxy(iqnet::Inet_addr("proxy", 3128));
    if (tmo) cl.set_timeout(5);
    cl.set_keep_alive(keep);
    if (auth) cl.set_authinfo("somebody", "secret");
    if (auth) { XHeaders h; h["X-Private"] = "topic"; cl.set_xheaders(h); }
    for (int i = 0; i < ncalls; i++) g[i] = call(cl, name, v);
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(t.live() == 0, "every TLS connection object is freed");
  w.all_closed();
  sym_check(w.nc == 1 && w.c[0].port == 3128 && w.c[0].addr == htonl(0x0a000009), "the client connects to the proxy");
  sym_check(w.asked, "the proxy is asked completely");
  sym_check(w.nraw > ask.size() && sym_memeq(w.raw, ask.data(), ask.size()), "the proxy is asked to connect to the configured host and port");
  for (size_t i = ask.size(); i + 13 <= w.nraw; i++) sym_check(memcmp(w.raw + i, "secret", 6) && memcmp(w.raw + i, "topic", 5) && strncasecmp(w.raw + i, "authorization", 13), "nothing meant for the server is shown to the proxy");
  for (int i = 0; i < ncalls; i++) {
    sym_log("res", g[i].r);
    sym_check(g[i].r == want, "the outcome of the call matches what the proxy did");
    if (want == HTTPERR) sym_check(g[i].code == code, "the status of the proxy is reported");
    if (want == VALUE) sym_check(g[i].ntext == 1 && sym_memeq(g[i].text, text[i].data(), 1), "the call returns the value the server sent");
    else { sym_check(t.ns == 0 && w.c[0].ngot == 0, "TLS starts only after the proxy agreed"); break; }
  }
  sym_cover(want == VALUE ? "tunnelled" : "refused");
}

extern "C" void sym_main() {
  switch (sym_param("mode", 0)) { case 0: server(); break; case 1: client(); break; case 2: verifying(); break; default: proxy(); }
}
