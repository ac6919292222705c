// A server running against scripted peers in the virtual network.
#pragma once
#include "h.h"
#include "net.h"
#include "ptls.h"
#include "libiqxmlrpc/http_server.h"
#include "libiqxmlrpc/https_server.h"
#include "libiqxmlrpc/ssl_lib.h"
#include "libiqxmlrpc/executor.h"
#include "libiqxmlrpc/auth_plugin.h"
#include "libiqxmlrpc/firewall.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/method.h"
#include "libiqxmlrpc/xheaders.h"
#include <arpa/inet.h>
#include <memory>
#include <vector>
using namespace iqxmlrpc;

struct Reply { int code; size_t hdr, body; bool keep, complete; char head[768]; bool header(const char* h) const { return strstr(head, h) != 0; } };   // offsets into what the peer received
// one HTTP reply starting at `from`
inline Reply parse_reply(const std::string& s, size_t from, size_t& end) {
  Reply r; r.code = 0; r.complete = false; r.keep = false; r.hdr = from; r.body = 0; r.head[0] = 0;
  size_t e = s.find("\r\n\r\n", from);
  if (e == std::string::npos) return r;
  if (e + 2 - from >= sizeof r.head) sym_fail("model: reply header too long");
  memcpy(r.head, s.data() + from, e + 2 - from); r.head[e + 2 - from] = 0;
  sym_check(strncmp(r.head, "HTTP/1.1 ", 9) == 0, "every reply starts with an HTTP status line");
  for (const char* i = r.head + 9; *i >= '0' && *i <= '9'; i++) r.code = r.code * 10 + (*i - '0');
  const char* l = strstr(r.head, "\r\ncontent-length: "); size_t n = 0;
  if (r.code != 100) sym_check(l != 0, "every final reply declares its length");
  if (l) for (const char* i = l + 18; *i >= '0' && *i <= '9'; i++) n = n * 10 + (*i - '0');
  r.keep = r.header("\r\nconnection: keep-alive\r\n");
  r.body = e + 4;
  if (s.size() < r.body + n) return r;
  r.complete = true; end = r.body + n;
  return r;
}

struct Step { enum Kind { SEND, REPLY, CONTINUE, CLOSE, GONE } kind; std::string data; };
struct Peer {
  std::vector<Step> script; size_t cur, off; int fd; bool accepted, closed, gone;
  std::string got; size_t parsed;
  std::vector<Reply> replies; int interim;
  int cuts, splits, delays;   // how many reads / writes may still be cut short, how often data may come after a write is possible
  size_t sent;                // bytes handed to the server so far
  uint32_t addr; int port;
  Peer() : cur(0), off(0), fd(-1), accepted(false), closed(false), gone(false), parsed(0), interim(0), cuts(0), splits(0), delays(1), sent(0), addr(htonl(0x0a000001)), port(1234) { got.reserve(8192); replies.reserve(8); }
  Peer& send(const std::string& s) { Step t = { Step::SEND, s }; script.push_back(t); return *this; }
  Peer& reply() { Step t = { Step::REPLY, "" }; script.push_back(t); return *this; }
  Peer& cont() { Step t = { Step::CONTINUE, "" }; script.push_back(t); return *this; }
  Peer& close() { Step t = { Step::CLOSE, "" }; script.push_back(t); return *this; }
  Peer& vanish() { Step t = { Step::GONE, "" }; script.push_back(t); return *this; }     // connection reset
  bool done() const { return closed || cur >= script.size(); }
  std::string body(size_t i) const { size_t e = i + 1 < replies.size() ? replies[i + 1].hdr : parsed; return got.substr(replies[i].body, e - replies[i].body); }
};

struct SrvNet : Net {
  Peer* peers; int npeers; Server* srv; int accepts; bool stopped; int stray;
  bool threads;               // other threads may make progress: wait for them before giving up
  bool any_subset;            // report any non-empty selection: all ready descriptors or a single one
  int min_cut;                // a cut read returns at least up to this offset of the message (bounds the positions tried)
  size_t max_cut;             // and reads are not cut beyond this offset
  SrvNet(Peer* p, int k) : peers(p), npeers(k), srv(0), accepts(0), stopped(false), stray(0), threads(sym_param("pool", 0) != 0), any_subset(false), min_cut(0), max_cut(~(size_t)0) {}
  Peer* by_fd(int fd) { for (int i = 0; i < npeers; i++) if (peers[i].fd == fd) return &peers[i]; return 0; }
  int do_accept(int, sockaddr_in* a) {
    for (int i = 0; i < npeers; i++) if (!peers[i].accepted) {
      peers[i].accepted = true; peers[i].fd = fresh(); accepts++;
      a->sin_addr.s_addr = peers[i].addr; a->sin_port = htons(peers[i].port);
      return peers[i].fd;
    }
    errno = EAGAIN; return -1;
  }
  short do_ready(int fd, short ev) {
    if (f[fd - BASE].listening) { for (int i = 0; i < npeers; i++) if (!peers[i].accepted) return POLLIN; return 0; }
    Peer* p = by_fd(fd);
    if (!p) return 0;
    short r = 0;
    if (p->gone) return (ev & (POLLIN | POLLOUT)) | POLLERR | POLLHUP;
    if (p->cur < p->script.size()) { Step::Kind k = p->script[p->cur].kind; if (k == Step::SEND || k == Step::CLOSE || k == Step::GONE) r |= POLLIN; if (k == Step::GONE) p->gone = true;
      if (r && p->delays > 0 && (ev & POLLOUT) && (ev & POLLIN) && !p->gone && pick(2, "late")) { p->delays--; r = 0; } }
    if (p->gone) return (ev & (POLLIN | POLLOUT)) | POLLERR | POLLHUP;
    return (r | POLLOUT) & ev;
  }
  ssize_t do_recv(int fd, char* b, size_t n) {
    Peer* p = by_fd(fd);
    if (p->gone) { errno = any_error("receive error"); return -1; }
    if (p->cur >= p->script.size()) { errno = EAGAIN; return -1; }
    Step& s = p->script[p->cur];
    if (s.kind == Step::CLOSE) return 0;
    if (s.kind != Step::SEND) { errno = EAGAIN; return -1; }
    size_t left = s.data.size() - p->off, k = left;
    if (p->cuts > 0 && left > 1 && p->off < max_cut) {
      size_t lo = p->off < (size_t)min_cut ? min_cut - p->off : 1;
      if (lo < left) { size_t hi = left < max_cut - p->off ? left : max_cut - p->off; k = hi < lo ? left : lo + pick(hi - lo + 1, "read"); if (k == hi) k = left; if (k < left) p->cuts--; }
    }
    if (k > n) k = n;
    memcpy(b, s.data.data() + p->off, k);
    p->off += k; p->sent += k;
    if (p->off == s.data.size()) { p->cur++; p->off = 0; }
    return (ssize_t)k;
  }
  ssize_t do_send(int fd, const char* b, size_t n) {
    Peer* p = by_fd(fd);
    if (p->gone) { errno = any_error("send error"); return -1; }
    sym_check(n > 0, "the server writes only when it has something to send");
    size_t k = n;
    if (p->splits > 0 && n > 1) { size_t c[4] = { n, n - 1, 1, n / 2 }; k = c[pick(n > 3 ? 4 : 2, "write")]; if (k < n) p->splits--; }
    p->got.append(b, k);
    absorb(*p);
    return (ssize_t)k;
  }
  void absorb(Peer& p) {
    for (;;) {
      if (p.got.size() == p.parsed) return;
      size_t end = 0;
      Reply r = parse_reply(p.got, p.parsed, end);
      if (!r.complete) return;
      p.parsed = end;
      if (r.code == 100) { p.interim++; if (p.cur < p.script.size() && p.script[p.cur].kind == Step::CONTINUE) p.cur++; continue; }
      p.replies.push_back(r);
      if (p.cur < p.script.size() && p.script[p.cur].kind == Step::REPLY) p.cur++;
      else stray++;
    }
  }
  int do_filter(pollfd* p, unsigned long k, int c) {
    if (!any_subset || c < 2) return c;
    int only = pick(c + 1, "report");
    if (only == c) return c;
    for (unsigned long i = 0; i < k; i++) if (p[i].revents && only-- != 0) p[i].revents = 0;
    return 1;
  }
  int do_shutdown(int fd, int) { Peer* p = by_fd(fd); return p && p->gone ? ENOTCONN : 0; }
  void do_close(int fd) { Peer* p = by_fd(fd); if (p) p->closed = true; }
  virtual bool all_done() { for (int i = 0; i < npeers; i++) if (!peers[i].accepted || !peers[i].done()) return false; return true; }
  int do_idle(pollfd*, unsigned long, int timeout) {
    if (stopped) return 0;
    if (timeout == 0) { if (++spins > 200) sym_fail("the event loop spins without getting anything done"); return 0; }
    if (!all_done() && threads) { event = 0; sym_wait(&event); return 1; }
    if (!all_done()) sym_fail("a peer is left waiting although nothing is pending");
    stopped = true;
    srv->set_exit_flag();
    return 1;
  }
};

inline std::string num(size_t n) { std::string r; do { r.insert(r.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return r; }
inline std::string http_req(const std::string& body, bool keep, const std::string& extra = "") {
  return "POST /RPC HTTP/1.0\r\n" + extra + (keep ? "Connection: keep-alive\r\n" : "") + "Content-Length: " + num(body.size()) + "\r\n\r\n" + body;
}
inline std::string call_xml(const std::string& m, const std::string& value) {
  return "<?xml version=\"1.0\"?><methodCall><methodName>" + m + "</methodName><params><param><value>" + value + "</value></param></params></methodCall>";
}
inline std::string letters(int n, const char* nm) { std::string r; for (int i = 0; i < n; i++) { unsigned char c = sym_byte(nm); sym_assume(in_range(c, 'a', 'z')); r += (char)c; } return r; }
inline bool has(const std::string& s, const std::string& sub) {        // sub may be symbolic, s up to where sub can start concrete
  if (s.size() < sub.size()) return false;
  for (size_t i = 0; i + sub.size() <= s.size(); i++) if (sym_memeq(s.data() + i, sub.data(), sub.size())) return true;
  return false;
}

// the executor factory asked for: serial, or a pool of that many threads.  The pool is
// stopped before the server is destroyed: its threads use the server until they end.
struct Executors {
  std::unique_ptr<Executor_factory_base> f;
  Executors() { int n = (int)sym_param("pool", 0); if (n) f.reset(new Pool_executor_factory(n)); else f.reset(new Serial_executor_factory); }
  Executor_factory_base* operator&() { return f.get(); }
  void stop() { f.reset(); }
};

// the server asked for: over plain connections, or (tls=1) over TLS connections that carry
// the same bytes; T01 decides what the TLS library may do in between
struct Served {
  std::unique_ptr<PlainTls> t; std::unique_ptr<iqnet::ssl::Ctx> ctx; std::unique_ptr<Server> s;
  bool open_ok;               // connections may still be open when the server goes
  Served(const iqnet::Inet_addr& a, Executor_factory_base* f) : open_ok(false) {
    if (sym_param("tls", 0)) {
      t.reset(new PlainTls); tls = t.get();
      ctx.reset(iqnet::ssl::Ctx::server_only("cert", "key")); iqnet::ssl::ctx = ctx.get();
      s.reset(new Https_server(a, f));
    } else s.reset(new Http_server(a, f));
  }
  ~Served() {
    s.reset(); if (!t) return;
    sym_check(open_ok || t->live() == 0, "every TLS connection object is freed");
    ctx.reset(); iqnet::ssl::ctx = 0; tls = 0;
  }
  Server& operator*() { return *s; }
};
