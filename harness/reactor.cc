// R01, R02: the event loop with arbitrary handlers, poll results and actions of handlers.
#include "h.h"
#include "net.h"
#include "libiqxmlrpc/reactor_impl.h"
#include "libiqxmlrpc/lock.h"
#include "libiqxmlrpc/net_except.h"
#include <stdexcept>
#include <boost/thread/mutex.hpp>
using namespace iqnet;

enum { IN = Reactor_base::INPUT, OUT = Reactor_base::OUTPUT, MAXH = 12 };
static Reactor_base* re;
struct M { bool exists, stopper, catching, called, stale; int mask, inj, finished, logged; short rev; bool ready; int phase_inj; } m[MAXH];
static int nh, acts, fd_of[MAXH];
static int phase;                 // 0 outside, 1 injected events, 2 after the wait
static int polls, last; static int want_ms; static int calls_after;
static bool threw, pending; static int called_total;

struct H : Event_handler {
  int id; H(int i) : id(i) {}
  ~H() { m[id].exists = false; }
  Socket::Handler get_handler() const { return fd_of[id]; }
  bool is_stopper() const { return m[id].stopper; }
  bool catch_in_reactor() const { return m[id].catching; }
  void log_exception(const std::exception&) { m[id].logged++; }
  void log_unknown_exception() { m[id].logged++; }
  void finish() { sym_check(m[id].mask == 0 || m[id].called, "a handler is finished only after it ran"); m[id].finished++; m[id].mask = 0; delete this; }
  void handle_input(bool& t) { enter(IN, t); }
  void handle_output(bool& t) { enter(OUT, t); }
  void enter(int kind, bool& term);
};
static H* hs[MAXH];
static void reg(int i, int mask) { if (!m[i].mask) { m[i].inj = 0; m[i].stale = phase == 2; } m[i].mask |= mask; if (mask & IN) re->register_handler(hs[i], Reactor_base::INPUT); if (mask & OUT) re->register_handler(hs[i], Reactor_base::OUTPUT); }
static void inject(int i, int k) { m[i].inj |= k; if (k & IN) re->fake_event(hs[i], Reactor_base::INPUT); if (k & OUT) re->fake_event(hs[i], Reactor_base::OUTPUT); }
static void unreg(int i) { m[i].mask = 0; m[i].inj = 0; re->unregister_handler(hs[i]); }
// no longer interested in one kind of event, whether or not registered for it
static void drop(int i, int mask) { m[i].mask &= ~mask; if (!m[i].mask) m[i].inj = 0; re->unregister_handler(hs[i], (Reactor_base::Event_mask)mask); }

void H::enter(int kind, bool& term) {
  M& s = m[id];
  called_total++;
  sym_check(s.mask != 0, "an unregistered handler is not called");
  if (polls == 0) {           // before the wait: injected events only
    sym_check((s.phase_inj & kind) != 0, "a handler is called only for events that occurred or were injected");
    sym_check((s.mask & kind) != 0, "a handler is called only for what it is registered for");
    sym_check(!s.called, "a handler is called once for its injected events");
    s.inj &= ~s.phase_inj; s.phase_inj = 0;
    sym_cover("injected");
  } else {
    sym_check(last > 0 && s.ready, "a handler is called only if its descriptor was reported");
    sym_check(!s.called, "a handler is called once per round");
    int in = s.rev & POLLIN, out = s.rev & (POLLOUT | POLLERR | POLLHUP);
    if (kind == IN) { sym_check(in != 0, "input is reported only if there is some"); sym_cover("input"); }
    else { sym_check(out != 0 && in == 0, "output, an error or a hang-up is reported if there is no input"); sym_cover("output"); }
  }
  s.called = true;
  if (acts <= 0) return;
  int o = -1; for (int i = 0; i < nh; i++) if (i != id && m[i].exists) { o = i; break; }
  int a = pick(13, "action");
  if (a) acts--;
  switch (a) {
    case 1: term = true; m[id].mask = 0; sym_cover("terminated"); return;
    case 2: if (s.catching) s.mask = 0; else threw = true; s.stale = s.catching; throw std::runtime_error("x");
    case 3: if (s.catching) s.mask = 0; else threw = true; throw 42;
    case 4: unreg(id); return;
    case 5: if (o >= 0 && m[o].mask) { unreg(o); sym_cover("unregistered another"); } return;
    case 6: if (o >= 0) reg(o, OUT); return;
    case 7: if (o >= 0 && m[o].mask && !m[o].phase_inj) inject(o, IN); return;
    case 8: if (o >= 0) { if (m[o].mask) unreg(o); delete hs[o]; sym_cover("deleted another"); } return;
    case 9: reg(id, IN | OUT); m[id].mask = OUT; re->unregister_handler(this, Reactor_base::INPUT); return;
    case 10: inject(id, OUT); return;
    case 11: drop(id, OUT); return;
    case 12: if (o >= 0 && m[o].mask) drop(o, OUT); return;
  }
}

struct RNet : Net {
  int do_poll(pollfd* p, unsigned long k, int timeout) {
    pending = false;              // injected while injected events were handled
    for (int i = 0; i < nh; i++) if (m[i].exists && (m[i].inj & m[i].mask)) pending = true;
    if (pending) { sym_check(timeout == 0, "the loop does not wait while an injected event is pending"); sym_cover("pending"); }
    else sym_check(timeout == want_ms, "the wait lasts as long as asked for");
    for (int i = 0; i < nh; i++) {
      sym_check(!m[i].exists || !(m[i].phase_inj & m[i].mask), "injected events are delivered");
      m[i].called = m[i].ready = m[i].stale = false; m[i].rev = 0;
    }
    polls++; phase = 2;
    unsigned long reg = 0;
    for (int i = 0; i < nh; i++) if (m[i].exists && m[i].mask) {
      reg++;
      int c = 0;
      for (unsigned long j = 0; j < k; j++) if (p[j].fd == fd_of[i]) { c++; sym_check(p[j].events == ((m[i].mask & IN ? POLLIN : 0) | (m[i].mask & OUT ? POLLOUT : 0)), "the wait covers exactly what the handler is registered for"); }
      sym_check(c == 1, "every registered handler is waited for once");
    }
    unsigned long waited = 0;
    for (unsigned long j = 0; j < k; j++) waited += p[j].fd >= 0;
    sym_check(reg == waited, "only registered handlers are waited for");
    int kind = polls > 3 ? 0 : sym_param("waits", 0) ? pick(4, "poll") : 3;
    if (kind == 1) { last = -1; errno = EINTR; sym_cover("interrupted"); return -1; }
    if (kind == 2) { last = -2; errno = any_error("poll error"); return -1; }
    int c = 0;
    if (kind == 3) for (unsigned long j = 0; j < k; j++) for (int i = 0; i < nh; i++) if (p[j].fd == fd_of[i]) {
      short r; sym_make(&r, sizeof r, "revents");
      sym_assume((r & ~(p[j].events | POLLERR | POLLHUP)) == 0);
      p[j].revents = r; m[i].rev = r;
      if (sym_param("busy", 0)) sym_assume((r & POLLIN) != 0);
      if (sym_fork(r != 0)) { m[i].ready = true; c++; }
    }
    if (!c) for (unsigned long j = 0; j < k; j++) p[j].revents = 0;
    last = c;
    return c;
  }
};

template <class L> static void run() {
  RNet w; net = &w;
  Reactor<L> r; re = &r;
  nh = sym_param("handlers", 2); acts = sym_param("acts", 1);
  static const int ms[] = { -1, 0, 700 };
  for (int i = 0; i < nh; i++) {
    memset(&m[i], 0, sizeof m[i]); m[i].exists = true;
    fd_of[i] = w.fresh();
    hs[i] = new H(i);
    m[i].catching = i == 0 && !sym_param("busy", 0) ? pick(2, "catches") : true;
    m[i].stopper = sym_param("stoppers", 0) && i > 0 && pick(2, "wake-up handler");
  }
  phase = 0;
  for (int i = 0; i < nh; i++) { static const int K[] = { 0, IN, OUT, IN | OUT }; int k = K[sym_param("busy", 0) ? 1 : pick(4, "registered")]; if (k) reg(i, k); }
  if (nh > 1 && m[0].mask && m[0].mask != 3 && sym_param("inject", 1)) { int e = pick(4, "inject"); if (e) inject(0, e); }
  if (sym_param("busy", 0)) for (int i = 1; i < nh; i++) inject(i, IN);
  int rounds = sym_param("rounds", 2);
  for (int k = 0; k < rounds; k++) {
    want_ms = sym_param("waits", 0) ? ms[pick(3, "timeout")] : -1 + k;
    int regs = 0, stop = 0;
    for (int i = 0; i < nh; i++) { m[i].called = false; m[i].logged = 0; m[i].phase_inj = m[i].exists ? m[i].inj & m[i].mask : 0; if (m[i].exists && m[i].mask) { regs++; if (m[i].stopper) stop++; } }
    polls = 0; last = 0; threw = false; called_total = 0; phase = 1;
    enum { TRUE_, FALSE_, NOH, NERR, USER } res;
    try { res = r.handle_events(want_ms) ? TRUE_ : FALSE_; }
    catch (const Reactor_base::No_handlers&) { res = NOH; }
    catch (const network_error&) { res = NERR; }
    catch (const std::runtime_error&) { res = USER; }
    catch (int) { res = USER; }
    phase = 0;
    sym_log("res", res);
    int left = 0; for (int i = 0; i < nh; i++) left += m[i].exists && m[i].mask;
    if (threw) { sym_check(res == USER, "an exception the loop does not catch reaches the caller"); sym_cover("threw"); return; }
    if (regs == 0) { sym_check((res == FALSE_ || res == NOH) && polls == 0 && !called_total, "without handlers there is nothing to wait for"); continue; }
    if (regs == stop) { sym_check(res == NOH && polls == 0 && !called_total, "with only wake-up handlers there is nothing to serve"); sym_cover("nothing to serve"); continue; }
    if (polls == 0) { sym_check(res == TRUE_ && left == 0, "the loop waits unless no handler is left"); continue; }
    if (last > 0) {
      sym_check(res == TRUE_, "events are reported as such");
      for (int i = 0; i < nh; i++) if (m[i].exists && m[i].ready && m[i].mask && !m[i].stale) sym_check(m[i].called, "every ready handler that is still registered is called");
    } else if (last == 0 && pending) sym_check(res == TRUE_, "a pending event is no timeout");
    else if (last == 0) { sym_check(res == FALSE_, "a wait without events reports a timeout"); sym_cover("timeout"); }
    else if (last == -1) { sym_check(res == TRUE_, "an interrupted wait is no timeout"); }
    else { sym_check(res == NERR, "a failing poll is a network error"); sym_cover("poll error"); }
    if (sym_param("change", 0) && k + 1 < rounds) {       // between rounds
      int i = pick(nh, "whom"), how = m[i].exists && m[i].mask ? pick(4, "change") : 0;
      if (how == 1) unreg(i);
      if (how == 2) { m[i].mask = m[i].inj = 0; re->unregister_handler(hs[i], Reactor_base::OUTPUT); re->unregister_handler(hs[i], Reactor_base::INPUT); }
      if (how == 3) { unreg(i); reg(i, IN); }
      if (how) sym_cover("changed");
    }
    for (int i = 0; i < nh; i++) sym_check(m[i].logged <= 1 && m[i].finished <= 1, "a failing handler is logged and finished once");
  }
  for (int i = 0; i < nh; i++) {
    if (m[i].exists) sym_check(m[i].finished == 0, "only terminated handlers are finished");
  }
  sym_cover("done");
}
extern "C" void sym_main() { if (sym_param("lock", 0)) run<boost::mutex>(); else run<Null_lock>(); }
