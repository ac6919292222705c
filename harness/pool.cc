// S05: the thread pool runs every accepted call exactly once.  S06: destroying it always finishes.
#include "srv.h"
#include "libiqxmlrpc/server_conn.h"
#include "libiqxmlrpc/response.h"

enum { MAXC = 24 };
static int made, freed, nreplies, ncalls;
static int executed[MAXC], replied[MAXC];
static volatile int started[MAXC], all_replied;
static char payload[MAXC];

static bool unseen;

class Conn : public Server_connection {
public:
  int id; std::string got;
  explicit Conn(int i) : Server_connection(iqnet::Inet_addr("127.0.0.1", 1000 + i)), id(i) {}
  // the bytes to send are kept in a protected member; without it only the number of answers is checked
  template <class T> static auto bytes(T* t, int) -> decltype(std::string(t->response)) { return t->response; }
  template <class T> static std::string bytes(T*, long) { unseen = true; return std::string(); }
  void do_schedule_response() {
    World w;
    got = bytes(this, 0);
    replied[id]++;
    if (++nreplies == ncalls) all_replied = 1;
  }
};
class M : public Method {
  int id, dep;
public:
  M(int i, int d) : id(i), dep(d) { World w; made++; }
  ~M() { World w; freed++; }
  void execute(const Param_list& p, Value& r) {
    {
      World w;
      sym_check(p.size() == 1 && str_eq(p[0].get_string(), std::string(1, payload[id])), "a call runs with its own parameters");
      executed[id]++;
      started[id] = 1;
    }
    if (dep >= 0) sym_wait(&started[dep]);      // this call needs another one to make progress
    r = std::string(1, payload[id]);
  }
};

extern "C" void sym_main() {
  int workers = sym_param("workers", 1), calls = sym_param("calls", 1), late = sym_param("late", 0), dep = sym_param("dep", 0);
  bool destroy_early = sym_param("mode", 0) == 1, pass = sym_param("pass", 0);
  ncalls = calls;
  Net w; net = &w;
  Conn* conn[MAXC];
  long live = sym_live_new();
  for (int i = 0; i < calls; i++) { payload[i] = letters(1, "arg")[0]; conn[i] = new Conn(i); }
  {
    std::unique_ptr<Pool_executor_factory> pool(new Pool_executor_factory(late ? workers - late : workers));
    Http_server srv(iqnet::Inet_addr(3344), pool.get());
    for (int i = 0; i < calls; i++) {
      Param_list p; p.push_back(Value(std::string(1, payload[i])));
      Executor* e = pool->create(new M(i, dep && i + 1 < calls ? dep == 2 ? calls - 1 : i + 1 : -1), &srv, conn[i]);
      e->execute(p);
    }
    if (late) pool->add_threads(late);
    if (!destroy_early && calls) sym_wait(&all_replied);
    pool.reset();
    if (pass) sym_yield();
  }
  for (int i = 0; i < calls; i++) {
    if (destroy_early) sym_check(executed[i] <= 1 && replied[i] == executed[i], "no call runs twice; what ran was answered");
    else sym_check(executed[i] == 1 && replied[i] == 1, "every call is run once and answered once");
    if (replied[i] && !unseen) {
      size_t end = 0;
      Reply r = parse_reply(conn[i]->got, 0, end);
      sym_check(r.complete && r.code == 200 && end == conn[i]->got.size(), "the answer is complete");
      Response q = parse_response(conn[i]->got.substr(r.body));
      sym_check(!q.is_fault() && str_eq(q.value().get_string(), std::string(1, payload[i])), "a call is answered with its own result on its own connection");
    }
    sym_log("ran", executed[i]);
  }
  sym_check(made == calls && freed == calls, "every call object is released exactly once");
  for (int i = 0; i < calls; i++) { if (executed[i]) sym_cover("ran"); else sym_cover("dropped"); delete conn[i]; }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(w.open_count() == 0, "no socket is leaked");
}
