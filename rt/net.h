// A virtual network: the socket calls of the process are answered by a Net object
// (both when executed symbolically and in native replay).  Harnesses subclass Net.
#pragma once
#include "sym.h"
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <string.h>
#include <sys/socket.h>

struct Net {
  enum { BASE = 100, MAX = 24 };
  struct Fd {
    bool used, open, listening, nonblock, shut_wr, shut_rd, external, connecting;
    int port, peer;            // peer: the other end inside the process, -1: none
    int backlog;               // listening: connected, not yet accepted descriptor, -1: none
    int closes;
    std::string in;            // bytes waiting to be read (inside pairs)
    bool eof, pipe, counter;   // counter: an eventfd
    int eofs;                  // reads that returned the end of the stream
    uint32_t addr; int rport;  // remote end
  };
  Fd f[MAX];
  int n, next_port;
  int spins;                  // waits since anything was read, written, accepted or closed
  int lookup_rc, lookup_herr; // how a failed lookup reports
  volatile int event;         // something changed that may make a descriptor ready
  Net();
  virtual ~Net() {}
  int fresh();
  Fd& at(int fd, const char* what);          // checks that fd is an open descriptor
  bool valid(int fd) const { return fd >= BASE && fd < BASE + n; }
  int open_count() const { int k = 0; for (int i = 0; i < n; i++) k += f[i].open; return k; }

  // behaviour of the peers outside the process, defined by the harness
  virtual int do_socket() { return fresh(); }
  virtual int do_bind(int fd, const sockaddr_in* a) { return 0; }
  virtual int do_listen(int fd) { return 0; }
  virtual int do_accept(int fd, sockaddr_in* a) { errno = EAGAIN; return -1; }
  virtual int do_connect(int fd, const sockaddr_in* a) { errno = ECONNREFUSED; return -1; }
  virtual ssize_t do_send(int fd, const char* p, size_t k) { errno = EPIPE; return -1; }
  virtual ssize_t do_recv(int fd, char* p, size_t k) { errno = EAGAIN; return -1; }
  virtual short do_ready(int fd, short events) { return 0; }            // subset of events now ready (plus POLLERR/POLLHUP)
  virtual int do_so_error(int fd) { return 0; }
  virtual int do_shutdown(int fd, int how) { return 0; }                // 0 or an errno
  virtual void do_close(int fd) {}
  virtual int do_poll(pollfd* p, unsigned long k, int timeout);         // default: report everything that is ready
  virtual int do_idle(pollfd* p, unsigned long k, int timeout) { return 0; }  // nothing ready: 0 time-out, 1 look again, <0 -errno
  virtual int do_filter(pollfd* p, unsigned long k, int c) { return c; } // may hide some of the ready events
  virtual bool do_lookup(const char* host, unsigned char addr[4]) { addr[0] = 127; addr[1] = addr[2] = 0; addr[3] = 1; return true; }
};
extern Net* net;
