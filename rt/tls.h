// A model of the TLS library: the calls of the process are answered by a Tls object (both
// when executed symbolically and in native replay).  Harnesses subclass Tls.
#pragma once
#include "net.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

struct ssl_st {
  bool used, freed, server, established;
  int fd, shut, err;             // err: class of the last unsuccessful call
  int want;                      // readiness the last call asked for (POLLIN/POLLOUT), 0: none outstanding
  int op;                        // call that asked: 1 accept, 2 connect, 3 read, 4 write, 5 shutdown
  const void* wbuf; int wlen;    // arguments of the outstanding write
  int vmode; int (*vcb)(int, X509_STORE_CTX*); int set_verify;
  void* exd[4];
  ssl_ctx_st* ctx; uint64_t opts; long low;
};
// kind: of the methods given; low: lowest protocol version allowed, 0: any
struct ssl_ctx_st { bool used; int kind, refs; uint64_t opts; long low; bool has_cert, has_key; char cert[64], key[64]; };
struct x509_store_ctx_st { SSL* ssl; int depth; };

struct Tls {
  enum { MAXS = 16, MAXQ = 8 };
  ssl_st s[MAXS]; int ns;
  enum { MAXX = 4 };
  ssl_ctx_st ctx[MAXX]; int nctx, ctxs;      // ctxs: references to contexts not given back
  unsigned long q[MAXQ]; int nq;   // error queue
  unsigned char md[64]; unsigned md_len; x509_st* cert; const void* digested; int chain;
  bool no_text;                    // the library knows no text for its errors
  int fail_new, fail_ssl, fail_fd, fail_cert, fail_key, fail_check;   // fail that call
  bool mismatch;                   // the key does not belong to the certificate
  Tls();
  virtual ~Tls() {}
  void push(unsigned long e) { if (nq < MAXQ) q[nq++] = e; }
  int bad(SSL* s, int op, int err, int ret = -1);          // the call fails with that error class
  int wants(SSL* s, int op, int ev);                       // the call has to wait for readiness
  void start(SSL* s, int op);                              // checks common to all calls
  void done(SSL* s) { s->want = 0; s->op = 0; }
  int live() const { int k = 0; for (int i = 0; i < ns; i++) k += !s[i].freed; return k; }
  SSL* by_fd(int fd) { for (int i = ns - 1; i >= 0; i--) if (!s[i].freed && s[i].fd == fd) return &s[i]; return 0; }
  bool verify(SSL* s, bool presented, int preverify);      // the library's decision about the peer during the handshake

  static bool modern(uint64_t opts, long low) { return low > SSL3_VERSION || (opts & SSL_OP_NO_SSLv3); }   // 2 is not known any more

  virtual int do_handshake(SSL* s) { return 1; }
  virtual int do_read(SSL* s, char* b, int n) { return bad(s, 3, SSL_ERROR_SSL); }
  virtual int do_write(SSL* s, const char* b, int n) { return n; }
  virtual int do_shutdown(SSL* s) { s->shut |= SSL_SENT_SHUTDOWN; return s->shut & SSL_RECEIVED_SHUTDOWN ? 1 : 0; }
  virtual int do_pending(SSL* s) { return 0; }
};
extern Tls* tls;
