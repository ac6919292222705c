// TLS connections that carry the bytes of the connections below at once.
#pragma once
#include "h.h"
#include "tls.h"
#include "libiqxmlrpc/ssl_lib.h"

struct PlainTls : Tls {
  int do_read(SSL* s, char* b, int n) {
    World w; ssize_t k = net->do_recv(s->fd, b, n);
    if (k > 0) return (int)k;
    if (k == 0) { s->shut |= SSL_RECEIVED_SHUTDOWN; return bad(s, 3, SSL_ERROR_ZERO_RETURN, 0); }
    if (errno == EAGAIN) return wants(s, 3, POLLIN);
    return bad(s, 3, SSL_ERROR_SYSCALL, -1);
  }
  int do_write(SSL* s, const char* b, int n) {
    World w; for (int k = 0; k < n; ) { ssize_t r = net->do_send(s->fd, b + k, n - k); if (r < 0) return bad(s, 4, SSL_ERROR_SYSCALL, -1); k += (int)r; }
    return n;
  }
};
