// A client talking to a scripted server in the virtual network.
#pragma once
#include "h.h"
#include "net.h"
#include "libiqxmlrpc/client.h"
#include "libiqxmlrpc/client_conn.h"
#include "libiqxmlrpc/http_client.h"
#include "libiqxmlrpc/http_errors.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/net_except.h"
#include <arpa/inet.h>
#include <vector>
using namespace iqxmlrpc;

inline std::string cnum(size_t n) { std::string r; do { r.insert(r.begin(), (char)('0' + n % 10)); n /= 10; } while (n); return r; }
inline std::string cletters(int n, const char* nm) { std::string r; for (int i = 0; i < n; i++) { unsigned char c = sym_byte(nm); sym_assume(in_range(c, 'a', 'z')); r += (char)c; } return r; }
inline std::string http_resp(const std::string& body, const char* status = "200 OK", const char* extra = "") { return std::string("HTTP/1.1 ") + status + "\r\n" + extra + "Content-Length: " + cnum(body.size()) + "\r\n\r\n" + body; }
inline std::string value_xml(const std::string& s) { return "<?xml version=\"1.0\"?><methodResponse><params><param><value><string>" + s + "</string></value></param></params></methodResponse>"; }

// what the server does with one complete request
struct Answer { enum End { NOTHING, CLOSE, RESET } end; std::string data; };
enum { MAXC = 14 };
struct Grow {              // what a connection received
  char* p; size_t cap, used; Grow() : p(0), cap(0), used(0) {}
  operator char*() const { return p; }
  void room(size_t n) { if (n <= cap) return; cap = n < 2048 ? 2048 : 2 * n; char* q = (char*)malloc(cap); if (p) { memcpy(q, p, used); free(p); } p = q; }
};
struct CConn { int fd; Grow got; size_t ngot, parsed; size_t off; int cur; bool closed, ready, eof, reset; uint32_t addr; int port; int done; };
struct CliNet : Net {
  Answer ans[MAXC]; int nans, next;      // answers in the order requests complete
  CConn c[MAXC]; int nc;
  int cuts, splits, intr;                // budgets of short reads, short writes, interrupted waits
  size_t gap; bool gap_open;            // data beyond this offset of an answer arrives only after another wait
  int conn_err[MAXC], so_err[MAXC], pend[MAXC]; // per connection: immediate errno, asynchronous error, completes later
  bool never; int timeouts, waits; int want_ms; bool check_ms, big_ms, in_hand; int lookups; bool nolookup;
  int sock_err;                          // creating a socket fails once with that error
  int min_cut; size_t sbuf;              // sbuf: the most one write takes
  CliNet() : nans(0), next(0), nc(0), cuts(0), splits(0), intr(0), gap(0), gap_open(false), never(false), timeouts(0), waits(0), want_ms(-1), check_ms(true), big_ms(false), in_hand(false), lookups(0), nolookup(false), sock_err(0), min_cut(0), sbuf(0) { for (int i = 0; i < MAXC; i++) conn_err[i] = so_err[i] = pend[i] = 0; }
  void answer(const std::string& d, Answer::End e = Answer::NOTHING) { ans[nans].data = d; ans[nans++].end = e; }
  CConn* by(int fd) { for (int i = 0; i < nc; i++) if (c[i].fd == fd) return &c[i]; return 0; }
  bool do_lookup(const char* h, unsigned char a[4]) { lookups++; if (nolookup) return false; a[0] = 10; a[1] = 0; a[2] = 0; a[3] = h[0] == 'p' ? 9 : 1; return true; }
  int do_socket() { if (sock_err) { errno = sock_err; sock_err = 0; return -1; } return Net::do_socket(); }
  int do_connect(int fd, const sockaddr_in* a) {
    if (nc >= MAXC) sym_fail("model: too many connections");
    int i = nc++;
    CConn& k = c[i];
    k.fd = fd; k.ngot = k.parsed = k.off = 0; k.cur = -1; k.closed = k.eof = k.reset = false; k.ready = !pend[i]; k.addr = a->sin_addr.s_addr; k.port = ntohs(a->sin_port); k.done = 0;
    sym_check(f[fd - BASE].nonblock, "model: connecting in blocking mode");
    if (conn_err[i]) { k.ready = false; errno = conn_err[i]; return -1; }
    if (pend[i]) { errno = EINPROGRESS; return -1; }
    return 0;
  }
  short do_ready(int fd, short ev) {
    CConn* k = by(fd);
    if (!k) return ev & POLLOUT ? POLLOUT | POLLHUP : POLLHUP;      // not connected at all
    int i = (int)(k - c);
    if (!k->ready) { if (pend[i] == 1) { return so_err[i] ? (ev & POLLOUT) | POLLERR | POLLHUP : ev & POLLOUT; } return 0; }
    if (k->reset) return (ev & (POLLIN | POLLOUT)) | POLLERR | POLLHUP;
    short r = POLLOUT;
    if (gap && k->off == gap) gap_open = true;
    if ((k->cur >= 0 && k->off < ans[k->cur].data.size()) || k->eof) r |= POLLIN;
    if (k->cur >= 0 && k->off == ans[k->cur].data.size() && ans[k->cur].end == Answer::RESET) { k->reset = true; return (ev & (POLLIN | POLLOUT)) | POLLERR | POLLHUP; }
    return r & ev;
  }
  int do_so_error(int fd) { CConn* k = by(fd); if (!k) return ENOTCONN; int i = (int)(k - c); if (!k->ready) { if (pend[i] != 1) return 0; int e = so_err[i]; if (!e) k->ready = true; return e; } return k->reset ? ECONNRESET : 0; }
  ssize_t do_send(int fd, const char* b, size_t n) {
    CConn* k = by(fd);
    if (!k || !k->ready) { int i = k ? (int)(k - c) : 0; if (k && pend[i] == 1 && !so_err[i]) k->ready = true; else { errno = ENOTCONN; sym_fail("data is sent before the connection is established"); } }
    if (k->reset || k->eof) { errno = any_error("send error"); return -1; }
    size_t m = sbuf && n > sbuf ? sbuf : n;
    if (splits > 0 && n > 1) { size_t q[4] = { n, n - 1, 1, n / 2 }; m = q[pick(n > 3 ? 4 : 2, "write")]; if (m < n) splits--; }
    k->got.used = k->ngot; k->got.room(k->ngot + m);
    memcpy(k->got + k->ngot, b, m); k->ngot += m;
    absorb(*k);
    return (ssize_t)m;
  }
  void absorb(CConn& k) {
    for (size_t i = k.parsed; i + 4 <= k.ngot; i++) if (!memcmp(k.got + i, "\r\n\r\n", 4)) {
      size_t len = 0; bool have = false;
      for (size_t j = k.parsed; j < i; j++) if (!memcmp(k.got + j, "\ncontent-length: ", 17)) { have = true; for (size_t q = j + 17; k.got[q] >= '0' && k.got[q] <= '9'; q++) len = len * 10 + (k.got[q] - '0'); }
      sym_check(have, "every request declares its length");
      if (k.ngot < i + 4 + len) return;
      k.parsed = i + 4 + len; k.done++;
      sym_check(k.cur < 0 || k.off == ans[k.cur].data.size(), "a request is sent only after the previous answer");
      if (next >= nans) sym_fail("model: more requests than answers");
      k.cur = next++; k.off = 0;
      if (ans[k.cur].data.empty() && ans[k.cur].end == Answer::CLOSE) k.eof = true;
      return;
    }
  }
  ssize_t do_recv(int fd, char* b, size_t n) {
    CConn* k = by(fd);
    if (!k || !k->ready) { errno = ENOTCONN; return -1; }
    if (k->reset) { errno = any_error("receive error"); return -1; }
    if (k->cur < 0 || k->off >= ans[k->cur].data.size()) { if (k->eof) return 0; errno = EAGAIN; return -1; }
    const std::string& d = ans[k->cur].data;
    size_t left = d.size() - k->off, m = left;
    if (gap && !gap_open) { if (k->off >= gap) { errno = EAGAIN; return -1; } if (m > gap - k->off) m = gap - k->off; }
    if (cuts > 0 && m > 1) { size_t lo = k->off < (size_t)min_cut ? min_cut - k->off : 1; if (lo < m) { m = lo + pick(m - lo + 1, "read"); if (m < left) cuts--; } }
    if (m > n) m = n;
    memcpy(b, d.data() + k->off, m);
    k->off += m;
    if (k->off == d.size() && ans[k->cur].end == Answer::CLOSE) k->eof = true;
    return (ssize_t)m;
  }
  int do_shutdown(int fd, int) { CConn* k = by(fd); return !k || !k->ready || k->reset ? ENOTCONN : 0; }
  void do_close(int fd) { CConn* k = by(fd); if (k) k->closed = true; }
  int do_poll(pollfd* p, unsigned long k, int timeout) {
    waits++;
    if (big_ms) sym_check(timeout >= 0, "a timeout bounds every wait");
    else if (in_hand && timeout == 0) sym_cover("no wait");          // data at hand: nothing to wait for
    else if (check_ms) sym_check(timeout == want_ms, "every wait uses the configured timeout");
    if (intr > 0 && pick(2, "interrupted")) { intr--; errno = EINTR; return -1; }
    return Net::do_poll(p, k, timeout);
  }
  int do_idle(pollfd*, unsigned long, int timeout) { timeouts++; return 0; }
  // after everything is over
  void all_closed() { for (int i = 0; i < n; i++) sym_check(!f[i].open && f[i].closes == 1, "every socket of the call is closed exactly once"); }
};
