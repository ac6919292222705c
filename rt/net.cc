#include "net.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <stdio.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <stdlib.h>
#include <unistd.h>

Net* net;
extern "C" { extern long long rt_clock_ns __attribute__((weak)); }

Net::Net() : n(0), next_port(40000), spins(0), lookup_rc(0), lookup_herr(HOST_NOT_FOUND), event(0) { for (int i = 0; i < MAX; i++) f[i].in.reserve(64); }
int Net::fresh() {
  if (n >= MAX) sym_fail("model: too many descriptors");
  Fd& d = f[n];
  d.used = d.open = true; d.listening = d.nonblock = d.shut_wr = d.shut_rd = d.external = d.connecting = d.eof = d.pipe = d.counter = false;
  d.port = 0; d.peer = d.backlog = -1; d.closes = d.eofs = 0; d.in.clear(); d.addr = 0; d.rport = 0;
  return BASE + n++;
}
Net::Fd& Net::at(int fd, const char* what) {
  if (!valid(fd)) sym_fail("socket operation on a descriptor that was never opened");
  Fd& d = f[fd - BASE];
  if (!d.open) { (void)what; sym_fail("socket operation on a closed descriptor"); }
  return d;
}
int Net::do_poll(pollfd* p, unsigned long k, int timeout) {
  for (;;) {
    int c = 0;
    for (unsigned long i = 0; i < k; i++) {
      if (p[i].fd < 0) { p[i].revents = 0; continue; }
      Fd& d = at(p[i].fd, "poll");
      short r = 0;
      if (d.listening) { if ((p[i].events & POLLIN) && (d.backlog >= 0 || (do_ready(p[i].fd, POLLIN) & POLLIN))) r = POLLIN; }
      else if (d.peer >= 0) { if ((p[i].events & POLLIN) && (!d.in.empty() || d.eof)) r |= POLLIN; if (p[i].events & POLLOUT) r |= POLLOUT; }
      else r = do_ready(p[i].fd, p[i].events) & (p[i].events | POLLERR | POLLHUP);
      p[i].revents = r;
      if (r) c++;
    }
    if (c) { if (++spins > 200) sym_fail("the event loop spins without getting anything done"); return do_filter(p, k, c); }
    int w = do_idle(p, k, timeout);
    if (w < 0) { errno = -w; return -1; }
    if (!w) { if (timeout < 0) sym_fail("the event loop waits forever"); if (&rt_clock_ns) rt_clock_ns += timeout * 1000000ll; return 0; }
  }
}

extern "C" {
int socket(int, int type, int) noexcept { World w; int r = net->do_socket(); if (r >= 0 && (type & SOCK_NONBLOCK)) net->f[r - Net::BASE].nonblock = true; return r; }
int bind(int fd, const sockaddr* a, socklen_t) noexcept {
  World w;
  Net::Fd& d = net->at(fd, "bind");
  int r = net->do_bind(fd, (const sockaddr_in*)a);
  if (!r) { d.port = ntohs(((const sockaddr_in*)a)->sin_port); if (!d.port) d.port = net->next_port++; }
  return r;
}
int listen(int fd, int) noexcept { World w; Net::Fd& d = net->at(fd, "listen"); int r = net->do_listen(fd); if (!r) d.listening = true; return r; }
int accept(int fd, sockaddr* a, socklen_t* l) {
  World w;
  Net::Fd& d = net->at(fd, "accept");
  sockaddr_in any, *s = a ? (sockaddr_in*)a : &any;
  memset(s, 0, sizeof *s);
  s->sin_family = AF_INET;
  if (l) *l = sizeof *s;
  if (d.backlog >= 0) { int r = d.backlog; d.backlog = -1; s->sin_port = htons(55555); s->sin_addr.s_addr = htonl(0x7f000001); return r; }
  int r = net->do_accept(fd, s);
  if (r >= 0) { net->spins = 0; net->f[r - Net::BASE].external = true; net->f[r - Net::BASE].addr = s->sin_addr.s_addr; net->f[r - Net::BASE].rport = ntohs(s->sin_port); }
  return r;
}
int accept4(int fd, sockaddr* a, socklen_t* l, int flags) {
  int r = accept(fd, a, l);
  if (r >= 0 && (flags & SOCK_NONBLOCK)) { World w; net->f[r - Net::BASE].nonblock = true; }
  return r;
}
int connect(int fd, const sockaddr* a, socklen_t) {
  World w;
  Net::Fd& d = net->at(fd, "connect");
  const sockaddr_in* s = (const sockaddr_in*)a;
  int port = ntohs(s->sin_port);
  d.addr = s->sin_addr.s_addr; d.rport = port;
  for (int i = 0; i < net->n; i++)
    if (net->f[i].open && net->f[i].listening && net->f[i].port == port && net->f[i].backlog < 0) {
      int o = net->fresh();
      net->f[i].backlog = o;
      net->f[o - Net::BASE].peer = fd; net->f[fd - Net::BASE].peer = o;
      return 0;
    }
  d.external = true; net->spins = 0;
  return net->do_connect(fd, s);
}
ssize_t send(int fd, const void* p, size_t k, int flags) {
  sym_touch(p, k, 0);
  World w;
  if (net->valid(fd) && net->f[fd - Net::BASE].peer >= 0) sym_yield();
  Net::Fd& d = net->at(fd, "send");
  if (!(flags & MSG_NOSIGNAL)) sym_fail("send() without MSG_NOSIGNAL would kill the process if the peer closed");
  if (d.shut_wr) { errno = EPIPE; return -1; }
  if (d.peer >= 0) {
    Net::Fd& o = net->f[d.peer - Net::BASE];
    if (!o.open) { errno = EPIPE; return -1; }
    if (o.counter) {
      uint64_t v = 0, x;
      if (k < 8) { errno = EINVAL; return -1; }
      if (!o.in.empty()) memcpy(&v, o.in.data(), 8);
      memcpy(&x, p, 8);
      v += x;
      o.in.assign((const char*)&v, v ? 8 : 0);
    }
    else o.in.append((const char*)p, k);
    sym_hb(&o, 1);
    net->event = 1;
    return (ssize_t)k;
  }
  ssize_t r = net->do_send(fd, (const char*)p, k);
  if (r > 0) net->spins = 0;
  return r;
}
ssize_t recv(int fd, void* p, size_t k, int) {
  sym_touch(p, k, 1);
  World w;
  Net::Fd& d = net->at(fd, "recv");
  if (d.peer >= 0) {
    size_t m = d.in.size() < k ? d.in.size() : k;
    if (!m) { if (d.eof) return 0; if (!d.nonblock) sym_fail("blocking recv() with nothing to read"); errno = EAGAIN; return -1; }
    memcpy(p, d.in.data(), m);
    d.in.erase(0, m);
    sym_hb(&d, 0);
    return (ssize_t)m;
  }
  ssize_t r = net->do_recv(fd, (char*)p, k);
  if (r > 0) net->spins = 0;
  if (!r && k && ++d.eofs > 8) sym_fail("the end of the stream is read again and again");
  return r;
}
ssize_t sendto(int fd, const void* p, size_t k, int flags, const sockaddr*, socklen_t) { return send(fd, p, k, flags); }
ssize_t recvfrom(int fd, void* p, size_t k, int flags, sockaddr*, socklen_t*) { return recv(fd, p, k, flags); }
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return send(fd, all.data(), all.size(), flags);
}
ssize_t recvmsg(int fd, msghdr* m, int flags) { return m->msg_iovlen ? recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags) : 0; }
// descriptors that are not of the network model exist in native runs only
static ssize_t net_rd(int fd, void* p, size_t k) {
#if SYM_NATIVE
  if (!net || !net->valid(fd)) return syscall(SYS_read, fd, p, k);
#endif
  return recv(fd, p, k, 0);
}
static ssize_t net_wr(int fd, const void* p, size_t k) {
#if SYM_NATIVE
  if (!net || !net->valid(fd)) return syscall(SYS_write, fd, p, k);
#endif
  bool pipe;
  { World w; pipe = net->at(fd, "write").pipe; }
  return send(fd, p, k, pipe ? MSG_NOSIGNAL : 0);
}
ssize_t read(int fd, void* p, size_t k) { return net_rd(fd, p, k); }
ssize_t write(int fd, const void* p, size_t k) { return net_wr(fd, p, k); }
static int net_pair(int v[2], bool nb, bool pipe) {
  World w;
  v[0] = net->fresh(); v[1] = net->fresh();
  for (int i = 0; i < 2; i++) { Net::Fd& d = net->f[v[i] - Net::BASE]; d.peer = v[!i]; d.nonblock = nb; d.pipe = pipe; }
  return 0;
}
int socketpair(int, int type, int, int v[2]) noexcept { return net_pair(v, type & SOCK_NONBLOCK, false); }
int pipe(int v[2]) noexcept { return net_pair(v, false, true); }
int pipe2(int v[2], int flags) noexcept { return net_pair(v, flags & O_NONBLOCK, true); }
int eventfd(int c, int flags) noexcept {
  World w;
  int r = net->fresh();
  Net::Fd& d = net->f[r - Net::BASE];
  d.peer = r; d.pipe = d.counter = true; d.nonblock = flags & O_NONBLOCK;
  uint64_t v = (unsigned)c;
  if (c) d.in.assign((const char*)&v, 8);
  return r;
}
int shutdown(int fd, int how) noexcept {
  World w;
  if (fd < 0) { errno = EBADF; return -1; }
  Net::Fd& d = net->at(fd, "shutdown");
  if (how == 0 || how == 2) d.shut_rd = true;
  if (how == 1 || how == 2) d.shut_wr = true;
  int e = net->do_shutdown(fd, how);
  if (e) { errno = e; return -1; }
  return 0;
}
int close(int fd) {
  World w;
  if (fd < 0) { errno = EBADF; return -1; }
  if (!net || !net->valid(fd)) { if (sym_native()) return 0; sym_fail("close() of a descriptor that was never opened"); }
  Net::Fd& d = net->f[fd - Net::BASE];
  d.closes++;
  if (!d.open) sym_fail("a descriptor is closed twice");
  d.open = false;
  net->spins = 0;
  if (d.peer >= 0) { net->f[d.peer - Net::BASE].eof = true; net->event = 1; }
  net->do_close(fd);
  return 0;
}
int net_fcntl(int fd, int cmd, long a) __asm__("fcntl");
int net_fcntl64(int fd, int cmd, long a) __asm__("fcntl64");
int net_fcntl(int fd, int cmd, long a) {
  World w;
  Net::Fd& d = net->at(fd, "fcntl");
  if (cmd == F_SETFL) { d.nonblock = (a & O_NONBLOCK) != 0; return 0; }
  if (cmd == F_GETFL) return O_RDWR | (d.nonblock ? O_NONBLOCK : 0);
  return 0;
}
int net_fcntl64(int fd, int cmd, long a) { return net_fcntl(fd, cmd, a); }
int net_ioctl(int fd, unsigned long req, int* v) __asm__("ioctl");
int net_ioctl(int fd, unsigned long req, int* v) { World w; if (!net->valid(fd)) { errno = EBADF; return -1; } Net::Fd& d = net->at(fd, "ioctl"); if (req == 0x5421) d.nonblock = *v != 0; return 0; }
int setsockopt(int fd, int, int, const void*, socklen_t) noexcept { World w; net->at(fd, "setsockopt"); return 0; }
int getsockopt(int fd, int level, int opt, void* v, socklen_t* l) noexcept {
  World w;
  net->at(fd, "getsockopt");
  int e = level == SOL_SOCKET && opt == SO_ERROR ? net->do_so_error(fd) : 0;
  if (*l >= sizeof e) { memcpy(v, &e, sizeof e); *l = sizeof e; }
  return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept {
  World w;
  Net::Fd& d = net->at(fd, "getsockname");
  sockaddr_in* s = (sockaddr_in*)a;
  memset(s, 0, sizeof *s);
  s->sin_family = AF_INET; s->sin_port = htons(d.port); s->sin_addr.s_addr = htonl(0x7f000001);
  *l = sizeof *s;
  return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept {
  World w;
  Net::Fd& d = net->at(fd, "getpeername");
  sockaddr_in* s = (sockaddr_in*)a;
  memset(s, 0, sizeof *s);
  s->sin_family = AF_INET; s->sin_port = htons(d.rport); s->sin_addr.s_addr = d.addr;
  *l = sizeof *s;
  return 0;
}
int poll(pollfd* p, nfds_t k, int timeout) { sym_touch(p, k * sizeof *p, 1); World w; sym_yield(); return net->do_poll(p, k, timeout); }
int gethostbyname_r(const char* h, struct hostent* e, char* buf, size_t bl, struct hostent** res, int* herr) {
  unsigned char a[4];
  bool ok; { World w; ok = net->do_lookup(h, a); }
  if (!ok) { *res = 0; *herr = net->lookup_herr; return net->lookup_rc; }
  if (bl < 64) { *res = 0; return ERANGE; }
  memcpy(buf, a, 4);
  char** list = (char**)(buf + 16);
  list[0] = buf; list[1] = 0;
  e->h_name = (char*)h; e->h_aliases = list + 1; e->h_addrtype = AF_INET; e->h_length = 4; e->h_addr_list = list;
  *res = e;
  return 0;
}
int ppoll(pollfd* p, nfds_t k, const timespec* t, const sigset_t*) { return poll(p, k, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
  pollfd p[Net::MAX]; int k = 0;
  for (int i = 0; i < n; i++) {
    short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
    if (ev) { p[k].fd = i; p[k++].events = ev; }
  }
  int c = poll(p, k, t ? (int)(t->tv_sec * 1000 + t->tv_usec / 1000) : -1);
  if (c < 0) return c;
  if (e) FD_ZERO(e);
  c = 0;
  for (int i = 0; i < k; i++) {
    if (r && FD_ISSET(p[i].fd, r)) { if (p[i].revents & (POLLIN | POLLERR | POLLHUP)) c++; else FD_CLR(p[i].fd, r); }
    if (w && FD_ISSET(p[i].fd, w)) { if (p[i].revents & (POLLOUT | POLLERR)) c++; else FD_CLR(p[i].fd, w); }
  }
  return c;
}
static struct hostent rt_host; static char rt_hostbuf[64];
#if !SYM_NATIVE
static thread_local int h_errno_v;
int* __h_errno_location() noexcept { return &h_errno_v; }
#endif
struct hostent* gethostbyname(const char* h) {
  struct hostent* res; int herr = 0;
  if (gethostbyname_r(h, &rt_host, rt_hostbuf, sizeof rt_hostbuf, &res, &herr) || !res) { *__h_errno_location() = herr; return 0; }
  return res;
}
int inet_aton(const char* s, struct in_addr* a) noexcept {
  unsigned char b[4]; int k = 0;
  for (;; s++) {
    if (*s < '0' || *s > '9') return 0;
    int v = 0, n = 0;
    for (; *s >= '0' && *s <= '9'; s++) { v = v * 10 + (*s - '0'); if (++n > 3 || v > 255) return 0; }
    b[k++] = (unsigned char)v;
    if (k == 4) { if (*s) return 0; break; }
    if (*s != '.') return 0;
  }
  memcpy(a, b, 4);
  return 1;
}
in_addr_t inet_addr(const char* s) noexcept { struct in_addr a; return inet_aton(s, &a) ? a.s_addr : INADDR_NONE; }
int inet_pton(int af, const char* s, void* d) noexcept { if (af != AF_INET) { errno = EAFNOSUPPORT; return -1; } return inet_aton(s, (struct in_addr*)d); }
static bool lookup(const char* h, unsigned char* a) { World w; return net->do_lookup(h, a); }
int getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  unsigned char a[4] = { 0, 0, 0, 0 };
  if (host) { struct in_addr q; if (inet_aton(host, &q)) memcpy(a, &q, 4); else if ((hints && (hints->ai_flags & AI_NUMERICHOST)) || !lookup(host, a)) return EAI_NONAME; }
  else if (!hints || !(hints->ai_flags & AI_PASSIVE)) { a[0] = 127; a[3] = 1; }
  int port = 0;
  if (service) for (; *service; service++) { if (*service < '0' || *service > '9') return EAI_SERVICE; port = port * 10 + (*service - '0'); }
  struct addrinfo* r = (struct addrinfo*)calloc(1, sizeof *r + sizeof(sockaddr_in));
  sockaddr_in* s = (sockaddr_in*)(r + 1);
  s->sin_family = AF_INET; s->sin_port = htons(port); memcpy(&s->sin_addr, a, 4);
  r->ai_family = AF_INET; r->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; r->ai_protocol = 6;
  r->ai_addrlen = sizeof *s; r->ai_addr = (sockaddr*)s;
  *res = r;
  return 0;
}
void freeaddrinfo(struct addrinfo* r) noexcept { free(r); }
const char* gai_strerror(int) noexcept { return "lookup failure"; }
int gethostname(char* b, size_t n) noexcept { strncpy(b, "testhost", n); return 0; }
char* inet_ntoa(struct in_addr a) noexcept {
  static thread_local char b[16];
  const unsigned char* q = (const unsigned char*)&a;
  char* o = b;
  for (int i = 0; i < 4; i++) { int v = q[i]; if (v >= 100) *o++ = (char)('0' + v / 100); if (v >= 10) *o++ = (char)('0' + v / 10 % 10); *o++ = (char)('0' + v % 10); *o++ = i < 3 ? '.' : 0; }
  return b;
}
const char* inet_ntop(int af, const void* a, char* b, socklen_t n) noexcept {
  if (af != AF_INET || n < 16) { errno = af != AF_INET ? EAFNOSUPPORT : ENOSPC; return 0; }
  struct in_addr q; memcpy(&q, a, 4);
  return strcpy(b, inet_ntoa(q));
}
const char* hstrerror(int) noexcept { return "lookup failure"; }
}
