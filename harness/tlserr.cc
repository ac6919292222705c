// T03: every failure of the TLS library becomes the matching exception.
#include "h.h"
#include "tls.h"
#include "libiqxmlrpc/ssl_lib.h"
#include "libiqxmlrpc/ssl_connection.h"
#include "libiqxmlrpc/net_except.h"
#include <memory>
using namespace iqnet;

enum What { RETURNED, NEEDREAD, NEEDWRITE, CLOSED, NETERR, IOERR, NOTINIT, TLSERR, OTHER };
static bool clean; static bool texted;
template <class F> static What run(F f) {
  clean = false; texted = true;
  try { f(); return RETURNED; }
  catch (const ssl::need_read& e) { texted = e.what() != 0; return NEEDREAD; }
  catch (const ssl::need_write& e) { texted = e.what() != 0; return NEEDWRITE; }
  catch (const ssl::connection_close& e) { clean = e.is_clean(); return CLOSED; }
  catch (const ssl::io_error& e) { texted = e.what() != 0; return IOERR; }
  catch (const ssl::not_initialized&) { return NOTINIT; }
  catch (const ssl::exception& e) { texted = e.what() != 0; return TLSERR; }
  catch (const network_error&) { return NETERR; }
  catch (...) { return OTHER; }
}
struct W : Net { W() { fresh(); } };
struct T : Tls {
  int err, ret, queue; int calls; bool good;
  int res(SSL* s, int op, int ok) { calls++; if (good) return ok; for (int i = 0; i < queue; i++) push(0x0a000100 + i); errno = ECONNRESET; if (err == SSL_ERROR_WANT_READ) return wants(s, op, POLLIN), ret; if (err == SSL_ERROR_WANT_WRITE) return wants(s, op, POLLOUT), ret; return bad(s, op, err, ret); }
  int do_handshake(SSL* s) { return res(s, s->server ? 1 : 2, 1); }
  int do_read(SSL* s, char* b, int n) { b[0] = 'x'; return res(s, 3, 1); }
  int do_write(SSL* s, const char* b, int n) { return res(s, 4, n); }
  int do_shutdown(SSL* s) { return res(s, 5, 1); }
};
struct Conn : ssl::Connection {
  Conn(const Socket& s) : ssl::Connection(s) {}
  SSL* obj() { return tls->by_fd(Net::BASE); }
};

// the exception that belongs to what the library reported
static What belongs(int err, int ret, int queue) {
  if (queue || err == SSL_ERROR_SSL) return TLSERR;
  switch (err) {
    case SSL_ERROR_WANT_READ: return NEEDREAD;
    case SSL_ERROR_WANT_WRITE: return NEEDWRITE;
    case SSL_ERROR_ZERO_RETURN: return CLOSED;
    case SSL_ERROR_SYSCALL: return ret == 0 ? CLOSED : NETERR;
    default: return IOERR;
  }
}
static void check(What got, What want) {
  sym_log("got", got);
  sym_check(got != RETURNED, "a failure of the TLS library is not silently a success");
  sym_check(got == want, "the exception matches what the TLS library reported");
  sym_check(texted, "the exception has a text");
}

static void calls() {
  W w; net = &w; T t; tls = &t;
  t.good = true; t.calls = 0; t.no_text = pick(2, "no text");
  std::unique_ptr<ssl::Ctx> ctx(ssl::Ctx::client_server("cert", "key"));
  ssl::ctx = ctx.get();
  Conn* c = new Conn(Socket(Net::BASE, Inet_addr(1)));
  int op = pick(6, "call"); char b[4] = { 'a', 'b', 'c', 'd' };
  bool server = pick(2, "server");
  if (op != 0 && op != 1) { if (server) c->post_accept(); else c->post_connect(); }
  int stale = pick(3, "left in the queue");         // by another connection
  for (int i = 0; i < stale; i++) t.push(0x0a000200 + i);
  c->obj()->shut = op == 4 ? 0 : (pick(2, "received") ? SSL_RECEIVED_SHUTDOWN : 0);
  bool rec = c->obj()->shut;
  int err = (int)sym_int("error class"); sym_assume((err >= 1) & (err <= 12));
  int ret = pick(2, "result") ? 0 : -1;
  if (op == 4) ret = -1;
  int queue = 0;
  t.good = pick(4, "succeeds") == 0;
  if (!t.good) { queue = pick(3, "queue"); if (queue) { sym_assume(err == SSL_ERROR_SSL); } else sym_assume((err != SSL_ERROR_SSL) | (stale == 0)); }
  t.err = err; t.ret = ret; t.queue = queue;
  What got;
  size_t n = 0;
  switch (op) {
    case 0: got = run([&] { c->post_accept(); }); break;
    case 1: got = run([&] { c->post_connect(); }); break;
    case 2: got = run([&] { n = c->recv(b, 4); }); break;
    case 3: got = run([&] { n = c->send(b, 3); }); break;
    case 4: got = run([&] { c->shutdown(); }); break;
    default: { t.good = false; queue = t.queue = 0; SSL* s = c->obj(); t.bad(s, 3, err, ret); t.nq = 0; if (err == SSL_ERROR_SSL) t.push(0x0a000100); got = run([&] { ssl::throw_io_exception(s, ret); }); }
  }
  if (t.good) {
    sym_check(got == RETURNED, "a successful call is reported as success, whatever happened to other connections");
    if (op == 2) sym_check(n == 1, "the size read is reported");
    if (op == 3) sym_check(n == 3, "the size written is reported");
    sym_cover("success");
  } else {
    check(got, belongs(err, ret, queue));
    if (got == CLOSED) sym_check(clean == (err == SSL_ERROR_ZERO_RETURN && rec), "a clean close is told from a broken one");
    sym_cover("failure");
  }
  delete c;
  sym_check(t.live() == 0, "the TLS object is freed");
}
static void setup() {
  W w; net = &w; T t; tls = &t;
  t.good = true; t.calls = 0; t.no_text = pick(2, "no text");
  int kind = pick(3, "context"), q = 1 + pick(3, "queue"), what = pick(6, "step");
  if (what == 0) t.fail_new = q;
  if (what == 1) t.fail_cert = q;
  if (what == 2) t.fail_key = q;
  if (what == 3) t.fail_check = q;
  bool fails = what == 0 || (what <= 3 && kind < 2);
  ssl::Ctx* ctx = 0;
  long live = sym_live_new();
  What got = run([&] { ctx = kind == 0 ? ssl::Ctx::client_server("cert", "key") : kind == 1 ? ssl::Ctx::server_only("cert", "key") : ssl::Ctx::client_only(); });
  if (fails) { check(got, TLSERR); sym_check(sym_live_new() == live, "a failed context leaks nothing"); sym_cover("load"); return; }
  sym_check(got == RETURNED && ctx, "a context is created when nothing fails");
  bool set = pick(2, "set");
  ssl::ctx = set ? ctx : 0;
  t.nq = 0;
  if (what == 4) t.fail_ssl = q;
  if (what == 5) t.fail_fd = q;
  live = sym_live_new();
  Conn* c = 0;
  got = run([&] { c = new Conn(Socket(Net::BASE, Inet_addr(1))); });
  if (!set) { check(got, NOTINIT); sym_cover("not initialised"); }
  else if (what >= 4) { check(got, TLSERR); sym_check(t.live() == 0, "the TLS object is freed"); sym_cover("object"); }
  else { sym_check(got == RETURNED, "a connection is created when nothing fails"); delete c; }
  sym_check(sym_live_new() == live, "nothing is leaked");
  ssl::ctx = 0;
  delete ctx;
}
// T05: contexts present what they were given, in the roles they were made for, and never speak SSL 2 or 3
static void fit(SSL* s, const std::string& cert, const std::string& key) {
  sym_check(Tls::modern(s->opts, s->low), "connections refuse the obsolete protocol versions");
  sym_check(s->ctx->kind == 0x10 || s->ctx->kind == (s->server ? 0x20 : 0x30), "a context is made for the role it was asked for");
  if (cert.empty()) sym_check(!s->ctx->has_cert && !s->ctx->has_key, "a client-only context presents no certificate");
  else sym_check(s->ctx->has_cert && s->ctx->has_key && str_eq(s->ctx->cert, cert) && str_eq(s->ctx->key, key), "the certificate and key are the configured ones");
}
static std::string path(int n, const char* nm) { std::string r; for (int i = 0; i < n; i++) { unsigned char c = sym_byte(nm); sym_assume(c != 0); r += (char)c; } return r; }
static void contexts() {
  static const int LEN[] = { 1, 3, 40 };
  W w; net = &w; T t; tls = &t;
  t.good = true; t.calls = 0;
  int fd2 = w.fresh();
  long live = sym_live_new();
  {
    std::unique_ptr<ssl::Ctx> c[2]; std::string cert[2], key[2]; int kind[2];
    for (int i = 0; i < 2; i++) {
      kind[i] = pick(3, "context");
      if (kind[i] < 2) { int l = LEN[pick(3, "length")]; cert[i] = std::string(l > 3 ? l - 3 : 0, 'c') + path(l > 3 ? 3 : l, "certificate"); key[i] = path(pick(2, "key length") * 2, "key"); }
      bool bad = kind[i] < 2 && pick(2, "mismatch");
      t.mismatch = bad;
      What got = run([&] { c[i].reset(kind[i] == 0 ? ssl::Ctx::client_server(cert[i], key[i]) : kind[i] == 1 ? ssl::Ctx::server_only(cert[i], key[i]) : ssl::Ctx::client_only()); });
      t.mismatch = false;
      sym_check(got == (bad ? TLSERR : RETURNED), "a key that does not belong to the certificate is refused, and nothing else");
      sym_check(t.ctxs == i + (bad ? 0 : 1), "a refused context is given back to the TLS library");
      if (bad) { sym_cover("mismatch"); return; }
    }
    Conn* k[2];
    for (int i = 0; i < 2; i++) { ssl::ctx = c[i].get(); k[i] = new Conn(Socket(i ? fd2 : Net::BASE, Inet_addr(1))); }
    if (pick(2, "context first")) { ssl::ctx = 0; c[0].reset(); }      // connections may outlive the context they were made with
    else for (int i = 0; i < 2; i++) {
      ssl::ctx = c[i].get();
      bool server = kind[i] == 1 || (kind[i] == 0 && pick(2, "server"));
      if (server) k[i]->post_accept(); else k[i]->post_connect();
      SSL* s = t.by_fd(i ? fd2 : Net::BASE);
      s->server = server;
      fit(s, cert[i], key[i]);
      sym_cover(server ? "server" : "client");
    }
    for (int i = 0; i < 2; i++) delete k[i];
  }
  ssl::ctx = 0;
  sym_check(t.live() == 0 && t.ctxs == 0, "everything is given back to the TLS library");
  sym_check(sym_live_new() == live, "nothing is leaked");
}
extern "C" void sym_main() { switch (sym_param("mode", 0)) { case 0: calls(); break; case 1: setup(); break; default: contexts(); } }
