// S03: dispatch; S04: interceptors; H05, H06, H03: credentials, X-headers and refusals as seen by methods and peers; S07: firewall.
#include "srv.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/http_errors.h"
#include <ostream>
#include <streambuf>

struct Sink : std::streambuf {    // where the log ends up
  std::string t;
  int overflow(int c) { if (c != EOF) t += (char)c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) { t.append(p, n); return n; }
};
// ------------------------------------------------------------------ S03
static int lastrun, factories;
template <int N> struct Mth : Method { void execute(const Param_list&, Value& r) { lastrun = N; r = N; } };
template <int N> struct Fac : Method_factory_base { Fac() { factories++; } ~Fac() { factories--; } Method* create() { return new Mth<N>; } };
template <int N> struct Disp : Method_dispatcher_base {
  std::string know; Disp(const std::string& k) : know(k) { factories++; } ~Disp() { factories--; }
  Method* do_create_method(const std::string& n) { return n == know ? new Mth<N> : 0; }
  void do_get_methods_list(Array& a) const { a.push_back(know); }
};
static void dispatch() {
  int n = 1 + pick(2, "len");
  std::string call = letters(n, "name"), reg = letters(1, "registered"), dk = letters(1, "dispatcher");
  bool rereg = pick(2, "again"), intro = pick(2, "introspection"), two = pick(2, "two dispatchers");
  bool list = intro && pick(2, "list");
  Peer* p = new Peer[1];
  p->send(http_req(call_xml(list ? "system.listMethods" : call, "<i4>1</i4>"), false)).reply();
  SrvNet w(p, 1); net = &w; lastrun = 0; factories = 0;
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    s.register_method(reg, new Fac<1>);
    s.register_method("zz", new Fac<2>);
    s.push_dispatcher(new Disp<4>(dk));
    if (two) s.push_dispatcher(new Disp<5>(dk));
    if (rereg) { s.register_method(reg, new Fac<3>); sym_check(factories == (two ? 4 : 3), "a replaced registration is released"); }
    if (intro) { s.enable_introspection(); if (pick(2, "twice")) s.enable_introspection(); }
    s.work();
    ef.stop();
  }
  sym_check(p->replies.size() == 1 && p->replies[0].code == 200, "the call is answered");
  sym_check(factories == 0, "registrations and dispatchers are released");
  {
    Response r = parse_response(p->body(0));
    if (list) {
      sym_check(!r.is_fault() && r.value().is_array(), "the listing is an array");
      const Array& a = r.value().the_array();
      int nreg = 0, nzz = 0, nd = 0, nsys = 0, other = 0;
      for (size_t i = 0; i < a.size(); i++) { std::string x = a[i].get_string(); if (str_eq(x, reg)) nreg++; if (x == "zz") nzz++; if (str_eq(x, dk)) nd++; if (x == "system.listMethods") nsys++; else if (!str_eq(x, reg) && x != "zz" && !str_eq(x, dk)) other++; }
      sym_check(nreg >= 1 && nzz == 1 && nd >= 1 && nsys == 1 && other == 0, "the listing names every callable method and nothing else");
      sym_cover("listed");
    } else {
      int want = 0;
      if (str_eq(call, reg)) want = rereg ? 3 : 1;
      else if (call == "zz") want = 2;
      else if (str_eq(call, dk)) want = 4;
      sym_check(lastrun == want, "the method registered under the name runs");
      if (want) { sym_check(!r.is_fault() && r.value().get_int() == want, "its result is returned"); sym_cover("resolved"); }
      else { sym_check(r.is_fault() && r.fault_code() == -32601, "an unknown name is refused"); sym_cover("unknown"); }
    }
  }
  call = reg = dk = std::string();
  sym_check(sym_live_new() == live, "nothing is leaked");
}

// many methods, long names
struct Tag : Method { int id; Tag(int i) : id(i) {} void execute(const Param_list&, Value& r) { lastrun = id; r = id; } };
struct TagFac : Method_factory_base { int id; TagFac(int i) : id(i) { factories++; } ~TagFac() { factories--; } Method* create() { return new Tag(id); } };
struct TagDisp : Method_dispatcher_base {      // knows its own name and those of the later ones
  int i, n; TagDisp(int i_, int n_) : i(i_), n(n_) { factories++; } ~TagDisp() { factories--; }
  Method* do_create_method(const std::string& s) { for (int k = i; k < n; k++) if (s == "d" + num(k)) return new Tag(1000 + i * 100 + k); return 0; }
  void do_get_methods_list(Array& a) const { a.push_back("d" + num(i)); }
};
static void dispatch_many() {
  int n = (int)sym_param("many", 9), len = (int)sym_param("len", 0);
  std::vector<std::string> name;
  for (int i = 0; i < n; i++) name.push_back("m" + std::string(len, 'n') + char('a' + i / 26) + char('a' + i % 26));
  std::string last = letters(1, "letter");
  int nd = (int)sym_param("disp", 0), hit = -1; if (nd && pick(2, "dispatcher's")) hit = pick(nd, "which");
  int what = hit >= 0 ? 5 : pick(5, "call"), at = what == 0 ? 0 : what == 1 ? n / 2 : n - 1;
  std::string call = what == 5 ? "d" + num(hit) : what < 3 ? name[at] : what == 3 ? name[at].substr(0, name[at].size() - 1) + last : std::string("system.listMethods");
  if (what == 3) { at = -1; for (int i = 0; i < n; i++) if (sym_fork(str_eq(call, name[i]))) at = i; }
  Peer* p = new Peer[1];
  p->send(http_req(call_xml(call, "<i4>1</i4>"), false)).reply();
  SrvNet w(p, 1); net = &w; lastrun = -1; factories = 0;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    for (int i = n - 1; i >= 0; i--) s.register_method(name[i], new TagFac(i));
    for (int i = 0; i < nd; i++) s.push_dispatcher(new TagDisp(i, nd));
    if (nd) s.register_method("system.mine", new TagFac(900));
    s.enable_introspection();
    s.work();
    ef.stop();
  }
  sym_check(factories == 0, "registrations and dispatchers are released");
  sym_check(p->replies.size() == 1 && p->replies[0].code == 200, "the call is answered");
  Response r = parse_response(p->body(0));
  if (what == 5) { sym_check(lastrun == 1000 + hit && !r.is_fault() && r.value().get_int() == 1000 + hit, "the first dispatcher that knows a name provides its method"); sym_cover("resolved"); }
  else if (what == 4) {
    size_t all = (size_t)n + 1 + nd + (nd ? 1 : 0);
    sym_check(!r.is_fault() && r.value().is_array() && r.value().size() == all, "the listing names every callable method and nothing else");
    for (int i = 0; i < n; i++) { int c = 0; for (size_t j = 0; j < all; j++) c += r.value()[(int)j].get_string() == name[i]; sym_check(c == 1, "the listing names every callable method once"); }
    for (int i = 0; i <= nd && nd; i++) { int c = 0; for (size_t j = 0; j < all; j++) c += r.value()[(int)j].get_string() == (i == nd ? "system.mine" : "d" + num(i)); sym_check(c == 1, "the listing names the methods of every dispatcher"); }
    sym_cover("listed");
  } else if (at >= 0) { sym_check(lastrun == at && !r.is_fault() && r.value().get_int() == at, "the method registered under the name runs"); sym_cover("resolved"); }
  else { sym_check(lastrun == -1 && r.is_fault() && r.fault_code() == -32601, "an unknown name is refused"); sym_cover("unknown"); }
}

// ------------------------------------------------------------------ H05
static char gu[320], gp[320]; static int nu, npw, asked, anon_asked, mran; static bool authed; static char gname[320]; static int nname;
static void keepstr(const std::string& s, char* b, int& n) { n = (int)s.size() < 320 ? (int)s.size() : 320; memcpy(b, s.data(), n); }
struct Plug : Auth_Plugin_base {
  int accept, anon;
  bool do_authenticate(const std::string& u, const std::string& p) const { asked++; keepstr(u, gu, nu); keepstr(p, gp, npw); return decide(accept); }
  bool do_authenticate_anonymous() const { anon_asked++; return decide(anon); }
  static bool decide(int k) { if (k == 2) throw std::runtime_error("plugin"); if (k == 3) throw 3; return k; }
};
static void who(Method* m, const Param_list& p, Value& r) { mran++; authed = m->authenticated(); keepstr(m->authname(), gname, nname); r = 1; }
static std::string b64(const std::string& s) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0; int k = s.size() - i < 3 ? s.size() - i : 3;
    for (int j = 0; j < 3; j++) v = v << 8 | (j < k ? (unsigned char)s[i + j] : 0);
    for (int j = 0; j < 4; j++) r += j <= k ? A[v >> (18 - 6 * j) & 63] : '=';
  }
  return r;
}
// ------------------------------------------------------------------ S04
static char trace[64]; static int tl, behave[3]; static const Param_list* seen; static Value* result;
static bool same_objs;
static void mark(char c) { if (tl < 63) trace[tl++] = c; trace[tl] = 0; }
struct Icp : Interceptor {
  int id; Icp(int i) : id(i) { factories++; } ~Icp() { factories--; }
  void process(Method* m, const Param_list& p, Value& r) {
    mark('a' + id);
    if (seen && (seen != &p || result != &r)) same_objs = false;
    seen = &p; result = &r;
    switch (behave[id]) {
      case 1: r = 40 + id; mark('A' + id); return;
      case 2: throw Fault(70 + id, "no");
      case 3: throw std::runtime_error("broken");
      case 4: try { yield(m, p, r); } catch (const Fault&) { r = 60 + id; } mark('A' + id); return;
      case 5: yield(m, p, r); throw Fault(80 + id, "late");
      case 6: throw id;
    }
    yield(m, p, r);
    mark('A' + id);
  }
};
static int meth_throws;
static void inner(Method*, const Param_list& p, Value& r) {
  mark('M'); if (seen && (seen != &p || result != &r)) same_objs = false;
  if (meth_throws) throw Fault(9, "inner");
  r = p.empty() ? Value(5) : p.at(0);
}
static void interceptors() {
  int n = pick(4, "interceptors");
  for (int i = 0; i < 3; i++) behave[i] = i < n ? pick(7, "behaviour") : 0;
  meth_throws = pick(2, "throws");
  int calls = 1 + pick(2, "calls");
  bool named = n < 3 && pick(2, "authenticated"), bare = n < 3 && pick(2, "no parameters");
  Plug pl; pl.accept = pl.anon = 1;
  Peer* p = new Peer[1];
  for (int c = 0; c < calls; c++) p->send(http_req(bare ? "<methodCall><methodName>m</methodName></methodCall>" : call_xml("m", "<i4>5</i4>"), c + 1 < calls, named ? "Authorization: Basic " + b64("a:b") + "\r\n" : "")).reply();
  SrvNet w(p, 1); net = &w; factories = 0; tl = 0; trace[0] = 0; same_objs = true;
  struct Outer : Interceptor { void process(Method* m, const Param_list& p, Value& r) { seen = 0; yield(m, p, r); } };
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "m", inner);
    if (named) s.set_auth_plugin(pl);
    for (int i = 0; i < n; i++) s.push_interceptor(new Icp(i));
    s.push_interceptor(new Outer);
    s.work();
    ef.stop();
  }
  // what has to happen
  char want[32]; int k = 0, fault = 0, val = 5, code = 0; int stack[3], sp = 0;
  for (int c = 0; c < calls; c++) {
    sp = 0; fault = 0; val = 5; bool stopped = false;
    for (int i = n - 1; i >= 0 && !stopped; i--) {
      want[k++] = 'a' + i;
      if (behave[i] == 1) { val = 40 + i; want[k++] = 'A' + i; stopped = true; }
      else if (behave[i] == 2) { fault = 1; code = 70 + i; stopped = true; }
      else if (behave[i] == 3 || behave[i] == 6) { fault = 2; code = -32500; stopped = true; }
      else stack[sp++] = i;
    }
    if (!stopped) { want[k++] = 'M'; if (meth_throws) { fault = 1; code = 9; } }
    while (sp > 0) {
      int i = stack[--sp];
      if (fault == 1 && behave[i] == 4) { fault = 0; val = 60 + i; }
      if (fault) continue;
      if (behave[i] == 5) { fault = 1; code = 80 + i; continue; }
      want[k++] = 'A' + i;
    }
  }
  want[k] = 0;
  sym_check(strcmp(trace, want) == 0, "interceptors run nested, last pushed first, each exactly once");
  sym_check(same_objs, "all see the same parameters and result");
  sym_check(factories == 0, "interceptors are released with the server");
  sym_check(p->replies.size() == (size_t)calls, "every call is answered");
  for (int c = 0; c < calls; c++) {
    Response r = parse_response(p->body(c));
    if (fault) { sym_check(r.is_fault() && r.fault_code() == code, "an exception leaving the interceptors becomes the fault reply"); sym_cover("fault"); }
    else { sym_check(!r.is_fault() && r.value().get_int() == val, "the result of the interceptors is returned"); sym_cover("result"); }
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
}

// methods the server provides itself are wrapped as well, and those of dispatchers
static void wrapped() {
  int n = 1 + pick(2, "interceptors"), which = pick(3, "method");
  for (int i = 0; i < 3; i++) behave[i] = i < n ? pick(3, "behaviour") : 0;
  static const char* const M[] = { "system.listMethods", "known", "system.mine" };
  Peer* p = new Peer[1];
  p->send(http_req(call_xml(M[which], "<i4>5</i4>"), false)).reply();
  SrvNet w(p, 1); net = &w; factories = 0; tl = 0; trace[0] = 0; same_objs = true; seen = 0; lastrun = 0;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    for (int i = 0; i < n; i++) s.push_interceptor(new Icp(i));
    s.push_dispatcher(new Disp<4>("known"));
    s.register_method("system.mine", new Fac<5>);
    s.enable_introspection();
    s.work();
    ef.stop();
  }
  std::string want; int stop = -1;
  for (int i = n - 1; i >= 0 && stop < 0; i--) { want += char('a' + i); if (behave[i]) stop = i; }
  if (stop < 0 || behave[stop] == 1) for (int i = stop < 0 ? 0 : stop; i < n; i++) want += char('A' + i);
  sym_check(want == trace && same_objs, "interceptors wrap every kind of method");
  sym_check(lastrun == (stop < 0 ? which == 1 ? 4 : which == 2 ? 5 : 0 : 0), "a method runs unless an interceptor decides otherwise");
  Response r = parse_response(p->body(0));
  if (stop >= 0 && behave[stop] == 2) { sym_check(r.is_fault() && r.fault_code() == 70 + stop, "an exception leaving the interceptors becomes the fault reply"); sym_cover("fault"); }
  else if (stop >= 0) { sym_check(!r.is_fault() && r.value().get_int() == 40 + stop, "the result of the interceptors is returned"); sym_cover("result"); }
  else { sym_check(!r.is_fault() && (which ? r.value().is_int() : r.value().is_array()), "the result of the method is returned"); sym_cover("result"); }
  sym_check(factories == 0, "interceptors are released with the server");
}
// a longer chain
struct Link : Interceptor {
  int id, stop; Link(int i, int s) : id(i), stop(s) { factories++; } ~Link() { factories--; }
  void process(Method* m, const Param_list& p, Value& r) { mark('a' + id); if (id == stop) { r = 40; return; } yield(m, p, r); mark('A' + id); }
};
static void chain() {
  int n = (int)sym_param("many", 9), stop = pick(n + 1, "stops at");
  Peer* p = new Peer[1];
  p->send(http_req(call_xml("m", "<i4>5</i4>"), false)).reply();
  SrvNet w(p, 1); net = &w; factories = 0; tl = 0; trace[0] = 0; meth_throws = 0; seen = 0; same_objs = true;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "m", inner);
    for (int i = 0; i < n; i++) s.push_interceptor(new Link(i, stop));
    s.work();
    ef.stop();
  }
  std::string want; for (int i = n - 1; i >= 0; i--) { want += char('a' + i); if (i == stop) break; }
  if (stop == n) want += 'M';
  for (int i = stop == n ? 0 : stop + 1; i < n; i++) want += char('A' + i);
  sym_check(want == trace, "interceptors run nested, last pushed first, each exactly once");
  Response r = parse_response(p->body(0));
  sym_check(!r.is_fault() && r.value().get_int() == (stop == n ? 5 : 40), "the result of the interceptors is returned");
  sym_check(factories == 0, "interceptors are released with the server");
  sym_cover("result");
}
static void auth() {
  int kind = sym_param("long", 0) ? 1 : pick(7, "credentials");
  Plug pl; pl.accept = pick(2, "accepts"); pl.anon = pick(2, "anonymous"); bool plugin = pick(2, "plugin");
  std::string u, pw, h;
  if (kind == 1) { static const char* const U[] = { "u1a", "", "a@b", "d\\u", "U X", "\xc3\xa9", "a/b+c", " a", "a ", "\tq\n", "A" }; u = U[sym_param("long", 0) ? 0 : pick(11, "user")]; static const int UL[] = { 0, 40, 70, 300 }; if (sym_param("long", 0)) u = std::string(UL[pick(4, "user length")], 'u') + "q"; static const char* const W[] = { "", "p:w", ":", " q ", "0123456789012" }; pw = W[sym_param("long", 0) ? 0 : pick(5, "password")]; if (sym_param("long", 0)) pw = std::string(UL[pick(4, "password length")], 'w') + "e"; h = "Authorization: Basic " + b64(u + ":" + pw) + "\r\n"; }
  if (kind == 2) { u = "nocolon"; h = "authorization: bAsIc " + b64(u) + "\r\n"; }
  if (kind == 3) h = "Authorization: Basic !!!!\r\n";
  if (kind == 4) h = "Authorization: Digest " + b64("a:b") + "\r\n";
  if (kind == 5) h = "Authorization: Basic\r\n";
  if (kind == 6) h = "Authorization: Basic " + b64("a:b") + " " + b64("c:d") + "\r\n";
  bool usable = kind == 1 || kind == 2;
  Peer* p = new Peer[1];
  bool keep = pick(2, "keep"), empty = pick(2, "empty body");
  p->send(http_req(empty ? "" : call_xml("who", "<i4>1</i4>"), keep, h)).reply();
  if (keep) p->close();
  SrvNet w(p, 1); net = &w; asked = anon_asked = mran = nu = npw = nname = 0; authed = false;
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "who", who);
    if (plugin) s.set_auth_plugin(pl);
    s.work();
    ef.stop();
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  bool allow = !plugin || (kind == 0 ? pl.anon : usable && pl.accept);
  sym_check(p->replies.size() == 1, "the call is answered once");
  sym_check(mran == (allow && !empty ? 1 : 0), "a method runs exactly if access was granted");
  if (plugin) {
    sym_check(asked == (usable ? 1 : 0) && anon_asked == (kind == 0 ? 1 : 0), "the plugin is asked about exactly the credentials sent");
    if (usable) sym_check(nu == (int)u.size() && !memcmp(gu, u.data(), nu) && npw == (int)pw.size() && !memcmp(gp, pw.data(), npw), "the plugin sees the user and password sent");
  }
  if (allow) {
    sym_check(p->replies[0].code == 200, "a granted call is answered normally");
    if (empty) ;
    else if (plugin && usable) sym_check(authed == !u.empty() && nname == (int)u.size() && !memcmp(gname, u.data(), nname), "the method sees the authenticated name");
    else sym_check(!authed && nname == 0, "an anonymous call has no name");
    sym_cover("granted");
  } else {
    sym_check(p->replies[0].code == 401 && p->replies[0].header("\r\nwww-authenticate: Basic"), "a refused call gets 401 with a challenge");
    sym_cover("denied");
  }
}

// a plugin that cannot decide grants nothing and disturbs no one else
static void undecided() {
  Plug pl; pl.accept = 2 + pick(2, "throws"); pl.anon = pl.accept; int named = pick(2, "credentials"), keep = pick(2, "keep"), order = pick(2, "order");
  Peer* p = new Peer[2];
  p[order].send(http_req(call_xml("who", "<i4>1</i4>"), keep, named ? "Authorization: Basic " + b64("a:b") + "\r\n" : "")).reply();
  if (keep) p[order].close();
  p[!order].send(http_req(call_xml("who", "<i4>1</i4>"), false, "Authorization: Basic !!!!\r\n")).reply();
  SrvNet w(p, 2); net = &w; mran = 0; Sink log_; std::ostream log(&log_);
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "who", who);
    s.set_auth_plugin(pl);
    if (pick(2, "log")) s.log_errors(&log);
    try { s.work(); } catch (...) { sym_fail("a plugin's exception stops the server"); }
    ef.stop();
  }
  sym_check(mran == 0, "a method runs exactly if access was granted");
  Peer& q = p[order];
  sym_check(q.closed && q.replies.size() <= 1, "the call is answered at most once");
  if (q.replies.size() && q.replies[0].code == 200) sym_check(parse_response(q.body(0)).is_fault(), "a call whose access was not decided is not answered as granted");
  sym_check(p[!order].replies.size() == 1 && p[!order].replies[0].code == 401 && p[!order].closed, "other peers are still served");
  sym_cover("undecided");
}
// ------------------------------------------------------------------ H06
static int seenx[2]; static char xval[2][4]; static bool odd;
static void xh(Method* m, const Param_list& p, Value& r) {
  int i = mran++;
  seenx[i] = m->xheaders().size();
  XHeaders::const_iterator k = m->xheaders().find("X-key");
  if (k != m->xheaders().end()) memcpy(xval[i], k->second.data(), k->second.size() < 4 ? k->second.size() : 4); else xval[i][0] = 0;
  for (XHeaders::const_iterator j = m->xheaders().begin(); j != m->xheaders().end(); ++j) if (j->first.compare(0, 2, "x-")) odd = true;
  r = 1;
}
static void xheaders() {
  int has_[2]; std::string v[2]; static const char* N[] = { "X-Key: ", "x-key:", "X-KEY:  " };
  Peer* p = new Peer[1];
  for (int i = 0; i < 2; i++) {
    has_[i] = pick(3, "headers"); v[i] = letters(2, "value");
    std::string h = "Host: h\r\n"; if (has_[i]) h += N[pick(3, "spelling")] + v[i] + "\r\n"; if (has_[i] == 2) h += "X-Other: o\r\nXother: no\r\n";
    p->send(http_req(call_xml("xh", "<i4>1</i4>"), i == 0, h)).reply();
  }
  int who = pick(3, "access"); Plug pl; pl.accept = pl.anon = 1;         // no plugin, anonymous, named
  if (who == 2) for (size_t i = 0; i < p->script.size(); i++) if (p->script[i].kind == Step::SEND) p->script[i].data.insert(p->script[i].data.find("Host:"), "Authorization: Basic " + b64("a:b") + "\r\n");
  static const int PORT[] = { 1, 1023, 40000 }; p->port = PORT[pick(3, "port")];
  SrvNet w(p, 1); net = &w; mran = 0; odd = false;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "xh", xh);
    if (who) s.set_auth_plugin(pl);
    s.work();
    ef.stop();
  }
  sym_check(p->replies.size() == 2 && mran == 2, "both calls are answered");
  sym_check(!odd, "a method sees X-headers only");
  for (int i = 0; i < 2; i++) {
    sym_check(seenx[i] == has_[i], "a method sees exactly the X-headers of its own request");
    if (has_[i]) sym_check(sym_memeq(xval[i], v[i].data(), 2), "with their values");
  }
  sym_cover("seen");
}

// ------------------------------------------------------------------ H03: refusals over a connection
static void refusals() {
  static const struct { const char* head; int code; } T[] = {
    { "POST / HTTP/1.0\r\nContent-Length: x\r\n\r\n", 400 }, { "POST / HTTP/1.0\r\nContent-Length: 1\r\nnocolon\r\n\r\n", 400 },
    { "GET / HTTP/1.0\r\n\r\n", 405 }, { "POST / HTTP/1.0\r\nHost: h\r\n\r\n", 411 }, { "POST / HTTP/1.0\r\nExpect: magic\r\nContent-Length: 1\r\n\r\n", 417 },
    { "POST / HTTP/1.0\r\nContent-Type: text/html\r\nContent-Length: 300\r\n\r\n", 415 }, { "POST / HTTP/1.0\r\nX-long: 123456789012345678901234567890123456789012345678901234567890\r\n", 413 } };
  int k = pick(7, "refusal"), keepfirst = pick(2, "after a good one");
  std::string bad = T[k].head;
  if (pick(2, "keep")) { size_t e = bad.find("\r\n"); bad.insert(e, "\r\nConnection: keep-alive"); }
  Peer* p = new Peer[2];
  p[0].splits = sym_param("splits", 1); p[0].cuts = 1; 
  if (keepfirst) p[0].send(http_req("<a/>", true)).reply();
  p[0].send(bad).reply();
  p[1].send(http_req("<a/>", false)).reply();
  SrvNet w(p, 2); net = &w; w.min_cut = (int)bad.size() - 4; mran = 0;
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    if (k == 6) s.set_max_request_sz(80);
    s.set_verification_level(http::HTTP_CHECK_STRICT);
    register_method(s, "who", who);
    s.work();
    ef.stop();
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(p[0].replies.size() == (keepfirst ? 2u : 1u) && p[0].parsed == p[0].got.size(), "a refused request gets exactly one reply");
  sym_check(p[0].replies.back().code == T[k].code && !p[0].replies.back().keep, "a refused request gets its status");
  sym_check(p[0].closed && p[1].replies.size() == 1 && p[1].replies[0].code == 200, "the refused connection is closed, others are served");
  sym_cover("refused");
}

// ------------------------------------------------------------------ H02: the limit over a connection
static std::string sized(size_t n, bool keep) {          // a call of exactly n bytes
  std::string x = call_xml("who", "<i4>1</i4>"), r;
  do { r = http_req(x, keep); x += ' '; } while (r.size() < n);
  return r;
}
static void sizes() {
  size_t base = sized(0, true).size(), M = base + 10;
  int n = 1 + pick(3, "requests"), at = pick(n + 1, "long one"), how = at < n ? pick(4, "its size") : 0, fit = 0;
  static const int over[] = { -1, 0, 1, 700 };
  bool unlimited = pick(2, "no limit"), refused = at < n && over[how] >= 0 && !unlimited;
  Peer* p = new Peer[2];
  for (int i = 0; i < n && fit == i; i++) {
    p[0].send(i == at ? sized(M + over[how], true) : sized(0, true)).reply();
    if (!(i == at && refused)) fit++;
  }
  if (!refused) p[0].close();
  p[0].cuts = 1;
  p[1].send(sized(0, false)).reply();
  SrvNet w(p, 2); net = &w; w.min_cut = (int)base - 3; mran = 0;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    if (!unlimited) s.set_max_request_sz(M);
    register_method(s, "who", who);
    s.work();
    ef.stop();
  }
  sym_check(p[0].replies.size() == (size_t)(fit + refused) && p[1].replies.size() == 1, "every request is answered");
  for (int i = 0; i < fit; i++) sym_check(p[0].replies[i].code == 200, "a request below the limit is served");
  if (refused) { sym_check(p[0].replies[fit].code == 413 && !p[0].replies[fit].keep && p[0].closed, "an oversized request is refused with 413 on any request of a connection"); sym_cover("refused"); }
  else sym_cover("accepted");
  sym_check(mran == fit + 1 && p[1].replies[0].code == 200, "exactly the requests below the limit run");
}

// ------------------------------------------------------------------ S10
static void append(std::string& s, const std::string& t) { s += '|'; s += t; }
static std::string told(const std::string& name, const std::string& host, int port, const std::string* args, size_t n) {
  std::string s = name; append(s, host); append(s, num(port)); append(s, num(n));
  for (size_t i = 0; i < n; i++) append(s, args[i]);
  return s;
}
static void tell(Method* m, const Param_list& p, Value& r) {
  std::string a[40]; size_t n = p.size() < 40 ? p.size() : 40;
  for (size_t i = 0; i < n; i++) a[i] = p[i].get_string();
  r = told(m->name(), m->peer_addr().get_host_name(), m->peer_addr().get_port(), a, p.size());
  sym_check(m->peer_addr().get_sockaddr()->sin_port == htons(m->peer_addr().get_port()), "the peer's address is one of a peer");
}
static int teller_live;
struct Teller : Method {          // one object for one call
  int calls; Teller() : calls(0) { World w; teller_live++; } ~Teller() { World w; teller_live--; }
  void execute(const Param_list& p, Value& r) { sym_check(calls++ == 0, "every call has its own method object"); tell(this, p, r); }
};
struct TellDisp : Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { return n == "d" ? new Teller : 0; }
  void do_get_methods_list(Array&) const {}
};
struct Tap : Interceptor {        // passes on a copy of the parameters, as seen before
  void process(Method* m, const Param_list& p, Value& r) { Param_list q(p); yield(m, q, r); }
};
static void own_call() {
  int np = (int)sym_param("peers", 2), nr = (int)sym_param("reqs", 1);
  static const char* NAME[] = { "f", "c", "d", "a.long.method.name.with.more.than.sixteen.letters" };
  static const char* HOST[] = { "10.0.0.1", "192.168.1.207" };
  bool tap = sym_param("tap", 0);
  Peer* p = new Peer[2];
  p[1].addr = htonl(0xc0a801cf); p[1].port = 65535; if (sym_param("subset", 0) || np == 1) { static const int PT[] = { 1234, 1, 1023, 32768 }; p[0].port = PT[pick(4, "port")]; }
  std::string want[2][3];
  for (int i = 0; i < np; i++) for (int j = 0; j < nr; j++) {
    int k = pick(4, "method"), n = sym_param("args", -1) < 0 ? pick(3, "arguments") : (int)sym_param("args", 0);
    std::string a[40], x = std::string("<?xml version=\"1.0\"?><methodCall><methodName>") + NAME[k] + "</methodName><params>";
    for (int q = 0; q < n; q++) { a[q] = q < 2 || q == n - 1 ? letters(1, "argument") : num(q); x += "<param><value>" + a[q] + "</value></param>"; }
    want[i][j] = told(NAME[k], HOST[i], p[i].port, a, n);
    p[i].send(http_req(x + "</params></methodCall>", j + 1 < nr)).reply();
  }
  SrvNet w(p, np); net = &w; w.any_subset = sym_param("subset", 0); teller_live = 0;
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "f", tell);
    s.register_method("c", new Method_factory<Teller>);
    register_method(s, NAME[3], tell);
    s.push_dispatcher(new TellDisp);
    if (tap) s.push_interceptor(new Tap);
    s.work();
    ef.stop();
  }
  for (int i = 0; i < np; i++) {
    sym_check(p[i].replies.size() == (size_t)nr, "every call is answered");
    for (int j = 0; j < nr; j++) {
      Response r = parse_response(p[i].body(j));
      sym_check(!r.is_fault() && str_eq(r.value().get_string(), want[i][j]), "a method sees the name, the peer and the parameters of its own call");
    }
  }
  sym_check(teller_live == 0, "method objects are released");
  sym_cover("told");
}

// ------------------------------------------------------------------ S11
static const std::string LINE[] = { "first message\r", std::string("sec\0o\rnd", 8), "", "a third one that is longer than the others, with: 100% of its punctuation" + std::string(3000, '!') };
static void speak(Method* m, const Param_list& p, Value& r) { for (size_t i = 0; i < p.size(); i++) m->server().log_message(LINE[p[i].get_int()]); r = 1; }
static void logging() {
  int np = (int)sym_param("peers", 2);
  Peer* p = new Peer[2];
  int said[4] = { 0, 0, 0, 0 }, total = 0;
  for (int i = 0; i < np; i++) {
    int n = sym_param("pool", 0) ? 1 + i : 1 + pick(2, "messages");
    std::string x = "<?xml version=\"1.0\"?><methodCall><methodName>s</methodName><params>";
    for (int q = 0; q < n; q++) { int k = np > 1 && sym_param("pool", 0) ? 2 * i + q % 2 : pick(4, "message"); said[k]++; total++; x += "<param><value><i4>" + num(k) + "</i4></value></param>"; }
    p[i].send(http_req(x + "</params></methodCall>", false)).reply();
  }
  SrvNet w(p, np); net = &w;
  bool off = sym_param("pool", 0) == 0 && pick(2, "no log"), changed = sym_param("pool", 0) == 0 && pick(2, "changed");
  Sink out_, other_; std::ostream out(&out_), other(&other_);
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    if (changed) s.log_errors(&other);
    s.log_errors(off ? 0 : &out);
    register_method(s, "s", speak);
    s.work();
    ef.stop();
  }
  for (int i = 0; i < np; i++) sym_check(p[i].replies.size() == 1 && p[i].replies[0].code == 200, "every call is answered");
  const std::string& t = out_.t;
  sym_check(other_.t.empty(), "only the stream set last is written to");
  size_t at = 0; int lines = 0, seen[4] = { 0, 0, 0, 0 };
  while (at < t.size()) {
    size_t e = t.find('\n', at);
    sym_check(e != std::string::npos, "the log ends with a complete line");
    for (int k = 0; k < 4; k++) seen[k] += t.compare(at, e - at, LINE[k]) == 0;
    at = e + 1; lines++;
  }
  sym_check(lines == (off ? 0 : total), "every message is one line of the log");
  for (int k = 0; k < 4; k++) sym_check(seen[k] == (off ? 0 : said[k]), "every message is logged whole");
  sym_cover(off ? "silent" : "logged");
}

// ------------------------------------------------------------------ S07
enum { FWP = 10 }; static int verdict[FWP], grants; static uint32_t shown[FWP]; static int shown_port[FWP]; static std::string fwmsg;
struct Fw : iqnet::Firewall_base {
  bool grant(const iqnet::Inet_addr& a) { shown_port[grants] = a.get_port(); shown[grants] = a.get_sockaddr()->sin_addr.s_addr; return verdict[grants++]; }
  std::string message() { return fwmsg; }
};
struct FwNet : SrvNet {
  int accept_fault, refuse_fault;      // errno to fail with once, or 0
  bool served_before; int hidden;
  FwNet(Peer* p, int k) : SrvNet(p, k), accept_fault(0), refuse_fault(0), served_before(false), hidden(0) {}
  int do_accept(int fd, sockaddr_in* a) { if (accept_fault) { errno = accept_fault; accept_fault = 0; return -1; } return SrvNet::do_accept(fd, a); }
  bool refused(int fd) { for (int i = 0; i < grants; i++) if (!verdict[i] && peers[i].fd == fd) return true; return false; }
  ssize_t do_send(int fd, const char* b, size_t n) {
    Peer* p = by_fd(fd);
    if (refused(fd)) { if (refuse_fault) { errno = refuse_fault; refuse_fault = 0; p->gone = true; return -1; } p->got.append(b, n); return (ssize_t)n; }
    return SrvNet::do_send(fd, b, n);
  }
  ssize_t do_recv(int fd, char* b, size_t n) { if (refused(fd)) served_before = true; return SrvNet::do_recv(fd, b, n); }
};
static void firewall() {
  int np = (int)sym_param("peers", 2); bool many = np > 2;
  Peer* p = new Peer[np]; for (int i = 0; i < np && many; i++) p[i].port = 5000 + i;
  if (!pick(2, "same address")) p[1].addr = htonl(0xc0a80107);
  p[1].port = 4321;
  int turn = many ? pick(np, "turn") : 0; bool sense = many && pick(2, "sense");
  for (int i = 0; i < np; i++) { verdict[i] = many ? (i == turn) == sense : pick(2, "grant"); p[i].send(http_req(call_xml("who", "<i4>1</i4>"), false)).reply(); }
  bool use = sym_param("nofw", 0) == 0;
  static const int ML[] = { 0, 24, 64, 5000 };
  int ml = ML[many ? 1 : pick(4, "message")];
  fwmsg.clear(); for (int i = 0; i < ml; i++) fwmsg += (char)('a' + i % 26);
  int ae = many ? 0 : pick(4, "accept fails");
  FwNet w(p, np); net = &w; grants = 0; mran = 0;
  w.accept_fault = !ae ? 0 : ae == 1 ? EAGAIN : ae == 2 ? EINTR : any_error("accept error"); w.refuse_fault = many || !pick(2, "refusal fails") ? 0 : any_error("send error");
  bool refuse_fault = w.refuse_fault && !fwmsg.empty();
  Executors ef;
  Fw fw;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "who", who);
    if (use) s.set_firewall(&fw);
    bool anew = !many && pick(2, "served anew");         // the second peer calls when the server is started again
    if (anew) { w.npeers = 1; w.accept_fault = 0; }
    try { s.work(); if (anew) { w.npeers = 2; w.stopped = false; s.work(); } } catch (const std::exception&) { sym_fail("a failed peer stops the server"); }
    ef.stop();
  }
  if (use) sym_check(grants == np, "every peer is shown to the firewall once"); else sym_check(grants == 0, "no firewall, no question");
  sym_check(!w.served_before, "a refused peer is not read from");
  int ok = 0; bool failed = false;
  for (int i = 0; i < np; i++) {
    bool g = !use || verdict[i]; ok += g;
    if (use) sym_check(shown[i] == p[i].addr && shown_port[i] == p[i].port, "the firewall sees the peer's address");
    sym_check(p[i].closed && w.f[p[i].fd - Net::BASE].closes == 1, "every accepted socket is closed exactly once");
    if (g) { sym_check(p[i].replies.size() == 1 && p[i].replies[0].code == 200, "a granted peer is served"); sym_cover("granted"); }
    else {
      if (refuse_fault && !failed) { failed = true; sym_cover("fault"); continue; }
      sym_check(p[i].got == fwmsg, "a refused peer gets only the message"); sym_cover("refused");
    }
  }
  sym_check(mran == ok, "only granted peers run methods");
}

// ------------------------------------------------------------------ S12
struct LisNet : SrvNet {
  int what, err; uint32_t at_; int port_, binds, listens;        // what fails: 1 socket, 2 bind, 3 listen, 4 lookup
  LisNet(Peer* p, int k) : SrvNet(p, k), what(0), err(0), at_(0), port_(0), binds(0), listens(0) {}
  bool fails(int k) { if (what == k) errno = err; return what == k; }
  int do_socket() { return fails(1) ? -1 : SrvNet::do_socket(); }
  int do_bind(int fd, const sockaddr_in* a) { if (fails(2)) return -1; binds++; at_ = a->sin_addr.s_addr; port_ = ntohs(a->sin_port); return 0; }
  int do_listen(int fd) { if (fails(3)) return -1; listens++; return 0; }
  bool do_lookup(const char* h, unsigned char a[4]) { if (what == 4) return false; a[0] = 10; a[1] = 1; a[2] = 2; a[3] = h[0] == 'h' ? 3 : 1; return true; }
};
static void starting() {
  int what = pick(5, "fails"), times = what ? 1 + pick(2, "times") : 0, err = what ? any_error("error") : 0, form = what == 4 ? 1 : pick(2, "address");
  bool first = pick(2, "served before");
  Peer* p = new Peer[2];
  for (int i = 0; i < 2; i++) p[i].send(http_req(call_xml("who", "<i4>1</i4>"), false)).reply();
  LisNet w(p, 2); net = &w; mran = 0;
  static const int PORT[] = { 3344, 80, 65535 }; int port = PORT[pick(3, "port")];
  Executors ef;
  {
    Served sv(form ? iqnet::Inet_addr("home", port) : iqnet::Inet_addr(port), &ef); Server& s = *sv;
    w.srv = &s;
    register_method(s, "who", who);
    if (first) { if (what == 4) sym_stop(); w.npeers = 1; s.work(); w.npeers = 2; w.stopped = false; } else { w.peers = p + 1; w.npeers = 1; }
    int open = w.open_count(); w.what = what; w.err = err; long live = 0;
    for (int i = 0; i < times; i++) {
      bool said = false;
      try { s.work(); } catch (const iqnet::network_error&) { said = true; }
      sym_check(said, "a server that cannot listen reports a network error");
      sym_check(w.open_count() == open, "no socket is left over from a failed attempt to listen");
      if (i) sym_check(sym_live_new() == live, "nothing is leaked"); else live = sym_live_new();
      sym_cover("failed");
    }
    w.what = 0; w.binds = w.listens = 0;
    s.work();
    sym_check(w.binds == 1 && w.listens == 1 && w.port_ == port && w.at_ == (form ? htonl(0x0a010203) : 0), "the server listens on the configured address and port");
    sym_check(w.open_count() == open, "the listening socket is closed when serving has stopped");
    ef.stop();
  }
  sym_check(p[1].replies.size() == 1 && p[1].replies[0].code == 200 && mran == 1 + first, "once it can listen the server serves");
  sym_check(w.open_count() == 0, "no socket is left over");
  sym_cover("served");
}

extern "C" void sym_main() {
  switch (sym_param("mode", 0)) {
    case 0: if (sym_param("many", 0)) dispatch_many(); else dispatch(); break;
    case 1: if (sym_param("many", 0)) chain(); else interceptors(); break;
    case 2: auth(); break;
    case 3: xheaders(); break;
    case 4: refusals(); break;
    case 5: firewall(); break;
    case 6: sizes(); break;
    case 7: own_call(); break;
    case 8: logging(); break;
    case 9: wrapped(); break;
    case 10: starting(); break;
    case 11: undecided(); break;
  }
}
