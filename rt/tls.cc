// TLS library calls, answered by the Tls object of the harness.
#include "tls.h"
#include <stdlib.h>

Tls* tls;
static const int LIBERR = 0x0a000100;      // an error code of the TLS library proper

Tls::Tls() : ns(0), nctx(0), ctxs(0), nq(0), md_len(32), cert((x509_st*)0x1000), digested(0), chain(1), no_text(false), fail_new(0), fail_ssl(0), fail_fd(0), fail_cert(0), fail_key(0), fail_check(0), mismatch(false) { memset(ctx, 0, sizeof ctx); memset(s, 0, sizeof s); memset(md, 0, sizeof md); }
void Tls::start(SSL* p, int op) {
  sym_check(!p->freed, "TLS call on a freed connection object");
  if (p->want) sym_check(p->op == op, "the call the TLS library asked to repeat is the next one");
}
int Tls::bad(SSL* p, int op, int err, int ret) {
  p->err = err; p->want = 0; p->op = 0; p->wbuf = 0;
  return ret;
}
int Tls::wants(SSL* p, int op, int ev) { p->err = ev == POLLIN ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE; p->want = ev; p->op = op; return -1; }
bool Tls::verify(SSL* p, bool presented, int preverify) {
  if (!(p->vmode & SSL_VERIFY_PEER)) return true;
  if (!presented) return !p->server ? false : !(p->vmode & SSL_VERIFY_FAIL_IF_NO_PEER_CERT);
  if (!p->vcb) return preverify;
  for (int d = chain - 1; d >= 0; d--) {       // from the topmost certificate to that of the peer
    x509_store_ctx_st c; c.ssl = p; c.depth = d;
    if (!p->vcb(preverify, &c)) return false;
  }
  return true;
}

extern "C" {
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* TLS_method() { return (const SSL_METHOD*)0x10; }
const SSL_METHOD* TLS_server_method() { return (const SSL_METHOD*)0x20; }
const SSL_METHOD* TLS_client_method() { return (const SSL_METHOD*)0x30; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) {
  if (tls->fail_new) { for (int i = 0; i < tls->fail_new - 1; i++) tls->push(LIBERR + i); return 0; }
  if (tls->nctx >= Tls::MAXX) sym_fail("model: too many TLS contexts");
  SSL_CTX* c = &tls->ctx[tls->nctx++];
  c->used = true; c->kind = (int)(long)m; c->refs = 1; tls->ctxs++;
  return c;
}
static void okctx(const SSL_CTX* c) { sym_check(c >= tls->ctx && c < tls->ctx + tls->nctx && c->used, "TLS call without a context"); }
// connections hold references of their own
static void drop(SSL_CTX* c) { if (--c->refs == 0) c->used = false; }
void SSL_CTX_free(SSL_CTX* c) { if (!c) return; okctx(c); tls->ctxs--; drop(c); }
int SSL_CTX_up_ref(SSL_CTX* c) { okctx(c); tls->ctxs++; c->refs++; return 1; }
uint64_t SSL_CTX_set_options(SSL_CTX* c, uint64_t o) { okctx(c); return c->opts |= o; }
uint64_t SSL_CTX_clear_options(SSL_CTX* c, uint64_t o) { okctx(c); return c->opts &= ~o; }
uint64_t SSL_CTX_get_options(const SSL_CTX* c) { okctx(c); return c->opts; }
uint64_t SSL_set_options(SSL* p, uint64_t o) { return p->opts |= o; }
uint64_t SSL_clear_options(SSL* p, uint64_t o) { return p->opts &= ~o; }
uint64_t SSL_get_options(const SSL* p) { return p->opts; }
long SSL_CTX_ctrl(SSL_CTX* c, int cmd, long l, void*) { okctx(c); if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) c->low = l; if (cmd == SSL_CTRL_GET_MIN_PROTO_VERSION) return c->low; return 1; }
int SSL_CTX_set_cipher_list(SSL_CTX* c, const char*) { okctx(c); return 1; }
static int load(int fail) { if (!fail) return 1; for (int i = 0; i < fail - 1; i++) tls->push(LIBERR + i); return 0; }
static void name(char* to, const char* f) { size_t n = strlen(f); if (n > 63) sym_fail("model: file name too long"); memcpy(to, f, n + 1); }
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* f, int t) {
  okctx(c);
  if (tls->fail_cert || t != SSL_FILETYPE_PEM) return load(tls->fail_cert ? tls->fail_cert : 1);
  name(c->cert, f); c->has_cert = true;
  if (tls->mismatch) c->has_key = false;            // a key that does not belong to the certificate is dropped
  return 1;
}
int SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char* f) { return SSL_CTX_use_certificate_file(c, f, SSL_FILETYPE_PEM); }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int t) {
  okctx(c);
  if (tls->fail_key || t != SSL_FILETYPE_PEM) return load(tls->fail_key ? tls->fail_key : 1);
  if (tls->mismatch && c->has_cert) return load(2);
  name(c->key, f); c->has_key = true;
  return 1;
}
int SSL_CTX_check_private_key(const SSL_CTX* c) { okctx(c); if (tls->fail_check) return load(tls->fail_check); return !c->has_cert || !c->has_key || tls->mismatch ? load(2) : 1; }
void SSL_CTX_set_verify(SSL_CTX* c, int, int (*)(int, X509_STORE_CTX*)) { okctx(c); sym_fail("model: verification configured for the whole context"); }

SSL* SSL_new(SSL_CTX* c) {
  okctx(c);
  if (tls->fail_ssl) { load(tls->fail_ssl); return 0; }
  if (tls->ns >= Tls::MAXS) sym_fail("model: too many TLS connections");
  SSL* p = &tls->s[tls->ns++];
  memset(p, 0, sizeof *p); p->used = true; p->fd = -1; p->ctx = c; p->opts = c->opts; p->low = c->low; c->refs++;
  return p;
}
void SSL_free(SSL* p) { if (!p) return; sym_check(p->used && !p->freed, "a TLS connection object is freed once"); p->freed = true; drop(p->ctx); }
int SSL_set_fd(SSL* p, int fd) { if (tls->fail_fd) return load(tls->fail_fd); net->at(fd, "SSL_set_fd"); p->fd = fd; return 1; }
int SSL_get_fd(const SSL* p) { return p->fd; }
static int handshake(SSL* p, int op) {
  tls->start(p, op);
  p->server = op == 1;
  int r = tls->do_handshake(p);
  if (r == 1) { tls->done(p); p->established = true; }
  return r;
}
int SSL_accept(SSL* p) { return handshake(p, 1); }
int SSL_connect(SSL* p) { return handshake(p, 2); }
void SSL_set_accept_state(SSL* p) { p->server = true; }
void SSL_set_connect_state(SSL* p) { p->server = false; }
int SSL_do_handshake(SSL* p) { return handshake(p, p->server ? 1 : 2); }
int SSL_read(SSL* p, void* b, int n) {
  tls->start(p, 3);
  sym_check(p->established, "data is read only after the handshake");
  int r = tls->do_read(p, (char*)b, n);
  if (r > 0) tls->done(p);
  return r;
}
int SSL_write(SSL* p, const void* b, int n) {
  tls->start(p, 4);
  sym_check(p->established, "data is written only after the handshake");
  if (p->want) sym_check(p->wlen == n && p->wbuf == b, "a repeated write passes the same data");
  int r = tls->do_write(p, (const char*)b, n);
  if (r > 0) { tls->done(p); p->wbuf = 0; } else if (p->want) { p->wbuf = b; p->wlen = n; }
  return r;
}
int SSL_read_ex(SSL* p, void* b, size_t n, size_t* k) { int r = SSL_read(p, b, (int)n); if (r > 0) *k = r; return r > 0; }
int SSL_write_ex(SSL* p, const void* b, size_t n, size_t* k) { int r = SSL_write(p, b, (int)n); if (r > 0) *k = r; return r > 0; }
int SSL_shutdown(SSL* p) {
  tls->start(p, 5);
  int r = tls->do_shutdown(p);
  if (r >= 0) tls->done(p);
  return r;
}
int SSL_get_shutdown(const SSL* p) { return p->shut; }
void SSL_set_shutdown(SSL* p, int m) { p->shut = m; }
int SSL_pending(const SSL* p) { return tls->do_pending((SSL*)p); }
int SSL_has_pending(const SSL* p) { return tls->do_pending((SSL*)p) > 0; }
int SSL_get_error(const SSL* p, int ret) {
  if (ret > 0) return SSL_ERROR_NONE;
  if (tls->nq) return SSL_ERROR_SSL;          // whatever the call did, as in the real library
  return p->err;
}
int SSL_want(const SSL* p) { return p->want == POLLIN ? SSL_READING : p->want == POLLOUT ? SSL_WRITING : SSL_NOTHING; }
void SSL_set_verify(SSL* p, int mode, int (*cb)(int, X509_STORE_CTX*)) { p->vmode = mode; p->vcb = cb; p->set_verify++; }
int SSL_get_verify_mode(const SSL* p) { return p->vmode; }
int SSL_is_init_finished(const SSL* p) { return p->established; }
long SSL_ctrl(SSL* p, int cmd, long l, void*) { if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) { p->low = l; return 1; } return l; }

int CRYPTO_get_ex_new_index(int, long, void*, CRYPTO_EX_new*, CRYPTO_EX_dup*, CRYPTO_EX_free*) { return 1; }
int SSL_set_ex_data(SSL* p, int i, void* d) { if (i < 0 || i > 3) sym_fail("model: ex_data index"); p->exd[i] = d; return 1; }
void* SSL_get_ex_data(const SSL* p, int i) { if (i < 0 || i > 3) sym_fail("model: ex_data index"); return p->exd[i]; }
int SSL_get_ex_data_X509_STORE_CTX_idx(void) { return 0; }
void* X509_STORE_CTX_get_ex_data(const X509_STORE_CTX* c, int i) { return i == 0 ? c->ssl : 0; }
X509* X509_STORE_CTX_get_current_cert(const X509_STORE_CTX* c) { return (X509*)tls->cert; }
int X509_STORE_CTX_get_error_depth(const X509_STORE_CTX* c) { return c->depth; }
static int the_sha256, another;
const EVP_MD* EVP_get_digestbyname(const char* n) { return (const EVP_MD*)(!strcmp(n, "sha256") || !strcmp(n, "SHA256") ? &the_sha256 : &another); }
const EVP_MD* EVP_sha256(void) { return (const EVP_MD*)&the_sha256; }
const EVP_MD* EVP_sha1(void) { return (const EVP_MD*)&another; }
int X509_digest(const X509* x, const EVP_MD* d, unsigned char* md, unsigned* n) {
  sym_check(x == (X509*)tls->cert, "the fingerprint is taken of the certificate shown by the peer");
  sym_check(d == (const EVP_MD*)&the_sha256, "the fingerprint is a SHA-256");
  memcpy(md, tls->md, 32); if (n) *n = 32; tls->digested = x;
  return 1;
}
unsigned long ERR_get_error(void) { if (!tls->nq) return 0; unsigned long e = tls->q[0]; for (int i = 1; i < tls->nq; i++) tls->q[i - 1] = tls->q[i]; tls->nq--; return e; }
unsigned long ERR_peek_error(void) { return tls->nq ? tls->q[0] : 0; }
unsigned long ERR_peek_last_error(void) { return tls->nq ? tls->q[tls->nq - 1] : 0; }
void ERR_clear_error(void) { tls->nq = 0; }
const char* ERR_reason_error_string(unsigned long e) { return e < 256 || tls->no_text ? 0 : "some reason"; }
void ERR_error_string_n(unsigned long e, char* b, size_t n) { const char* t = "error:some reason"; size_t i = 0; for (; t[i] && i + 1 < n; i++) b[i] = t[i]; if (n) b[i] = 0; }
char* ERR_error_string(unsigned long e, char* b) { static char own[256]; if (!b) b = own; ERR_error_string_n(e, b, 256); return b; }
}
#if !SYM_NATIVE
#include <boost/thread/once.hpp>
namespace boost { namespace thread_detail {
struct Flag { unsigned char storage[sizeof(once_flag)]; };
bool enter_once_region(once_flag& f) BOOST_NOEXCEPT { unsigned char* p = (unsigned char*)&f; return p[0] != 2; }
void commit_once_region(once_flag& f) BOOST_NOEXCEPT { ((unsigned char*)&f)[0] = 2; }
void rollback_once_region(once_flag& f) BOOST_NOEXCEPT { ((unsigned char*)&f)[0] = 0; }
}}
#endif
