// S08: a request to stop the server takes effect in every interleaving.
#include "srv.h"
#include <pthread.h>

static Server* g_srv;
static volatile int g_served;
static int want;
struct StopNet : SrvNet {
  StopNet(Peer* p, int k) : SrvNet(p, k) {}
  int served() { int c = 0; for (int i = 0; i < npeers; i++) c += (int)peers[i].replies.size(); return c; }
  ssize_t do_send(int fd, const char* b, size_t n) { ssize_t r = SrvNet::do_send(fd, b, n); if (served() >= want) g_served = 1; return r; }
  int do_idle(pollfd*, unsigned long, int) { event = 0; sym_wait(&event); return 1; }
  int listeners() { int c = 0; for (int i = 0; i < n; i++) c += f[i].open && f[i].listening; return c; }
};
static int runs;
class Stopper : public Method {
public:
  void execute(const Param_list&, Value& r) { { World w; runs++; } server().set_exit_flag(); r = 1; }
};
class Plain : public Method {
public:
  void execute(const Param_list&, Value& r) { { World w; runs++; } r = 1; }
};
static void* serve(void*) { g_srv->work(); return 0; }
static void* stop_it(void*) { g_srv->set_exit_flag(); return 0; }

extern "C" void sym_main() {
  // 0 from another thread at any time, 1 before serving starts, 2 from two threads, 3 from a method,
  // 4 after some calls were served, 5 while calls are being executed
  int how = sym_param("how", 0), rounds = sym_param("rounds", 2), calls = sym_param("calls", 1);
  Peer* p = new Peer[2 * 2];
  int np = how == 3 || how >= 4 ? calls : 0;
  for (int i = 0; i < np; i++) p[i].send(http_req(call_xml(how == 3 && i == 0 ? "stop" : "m", "<i4>1</i4>"), false)).reply();
  StopNet w(p, np); net = &w;
  long live = sym_live_new();
  {
    Executors ef;
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv; sv.open_ok = true;
    g_srv = &s; w.srv = &s;
    s.register_method("stop", new Method_factory<Stopper>);
    s.register_method("m", new Method_factory<Plain>);
    for (int r = 0; r < rounds; r++) {
      pthread_t t, u;
      bool peers = np && (r == 0 || how == 5);
      want = peers ? np : 0;
      if (how == 1) s.set_exit_flag();
      pthread_create(&t, 0, serve, 0);
      if (how == 2) pthread_create(&u, 0, stop_it, 0);
      if (how == 4 && peers) sym_wait(&g_served);
      if (how != 1 && !(how == 3 && r == 0)) {
        if (how == 5 && r > 0) sym_wait(&g_served);        // calls still running when serving stopped are answered afterwards
        s.set_exit_flag();
      }
      if (how == 2) pthread_join(u, 0);
      pthread_join(t, 0);
      sym_check(w.listeners() == 0, "the listening socket is closed when serving has stopped");
      sym_cover(r ? "again" : "stopped");
      if (how == 2) break;
    }
    ef.stop();
    w.peers = p;
  }
  if (how == 4 || how == 5) for (int i = 0; i < np; i++) sym_check(p[i].replies.size() == 1 && (p[i].closed || sym_param("tls", 0)), "every call is answered once although serving was stopped");
  if (how == 3) sym_check(runs >= 1, "the method ran");
  sym_log("runs", runs);
  if (how != 3 && !(how > 3 && sym_param("tls", 0))) { sym_check(w.open_count() == 0, "no socket is leaked"); }
  g_srv = 0;
}
