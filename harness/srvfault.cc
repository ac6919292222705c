// S02: every failure of a call becomes the right fault, and stays contained.
#include "srv.h"
#include "xmlmodel.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/http_errors.h"

static int made, freed, ran, kind, code;
static std::string text;
static int armed, budget, hit;
static int wfault() { if (!armed || hit) return 0; if (budget-- > 0) return 0; hit = 1; return 1; }

struct Odd { int x; };
class M : public Method {
public:
  M() { made++; }
  ~M() { freed++; }
  void execute(const Param_list& p, Value& r) {
    ran++;
    switch (kind) {
      case 0: throw Fault(code, text);
      case 1: throw Invalid_meth_params();
      case 2: throw Exception(text, code);
      case 3: throw std::runtime_error(text);
      case 4: throw 5;
      case 5: throw http::Unauthorized();
      case 6: r = p.at(1); break;
      case 7: { Value& v = const_cast<Value&>(p.at(0)); r = v["nokey"]; break; }
      case 8: r = (int)p.at(0).get_int(); break;
      case 14: throw "text";
      case 15: { Odd o = { 3 }; throw o; }
      case 9: armed = 1; r = std::string("big result"); break;
      default: r = p.at(0);
    }
  }
};
class OddDispatcher : public Method_dispatcher_base {
  Method* do_create_method(const std::string& n) { if (n == "odd") throw std::logic_error("dispatcher"); if (n == "odder") { Odd o = { 4 }; throw o; } if (n == "faulty") throw Fault(code, text); return 0; }
  void do_get_methods_list(Array&) const {}
};

extern "C" void sym_main() {
  bool forced = sym_param("forced", 0), keep = true;
  static const int LONG[] = { 0, 2, 3, 17 };
  int k = forced ? 9 : sym_param("long", 0) ? LONG[pick(4, "failure")] : pick(18, "failure");
  if (!forced && k == 9) sym_stop();
  static const int C[] = { -128, 100, -32700, -32000 - 255, -32500 - 128, 2147483647 - 255, -2147483647 - 1 };
  kind = k; code = C[(k == 0 || k == 2 || k == 17) && !sym_param("long", 0) ? pick(sym_param("pool", 0) ? 1 : 7, "code range") : 0] + (int)sym_byte("code"); text = std::string(sym_param("long", 0), 't') + letters(2, "text");
  std::string body = call_xml(k == 12 ? "nosuch" : k == 13 ? "odd" : k == 16 ? "odder" : k == 17 ? "faulty" : "m", "<string>v</string>");
  if (k == 10) body = "<methodCall><methodName>m</methodName>";           // not well-formed
  if (k == 11) body = "<methodResponse><params/></methodResponse>";       // not a call
  std::string ok = call_xml("m", "<i4>7</i4>");
  Peer* p = new Peer[1];
  p->splits = sym_param("splits", 0);
  p->send(http_req(body, keep)).reply().send(http_req(ok, false)).reply();
  SrvNet w(p, 1); net = &w;
  made = freed = ran = armed = hit = 0;
  if (forced) { budget = pick(24, "fault at"); xml_model.write_fault = wfault; }
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    s.register_method("m", new Method_factory<M>);
    s.push_dispatcher(new OddDispatcher);
    // the second request must succeed whatever the first did
    struct Second : Interceptor { int n; Second() : n(0) {} void process(Method* m, const Param_list& a, Value& r) { if (a.size() == 1 && a[0].is_int()) { kind = 99; armed = 0; } yield(m, a, r); } };
    s.push_interceptor(new Second);
    s.work();
    ef.stop();
  }
  int expect_runs = (k <= 9 || k == 14 || k == 15 ? 1 : 0) + 1;
  xml_model.write_fault = 0;
  if (k == 5) { sym_check(p->replies.size() == 2, "both requests are answered"); }
  sym_check(p->replies.size() == 2 && p->parsed == p->got.size(), "every call is answered exactly once");
  sym_check(made == freed && made == expect_runs && ran == expect_runs, "every method object is used once and freed once");
  if (k == 5 && sym_param("pool", 0)) ;       // an HTTP error page or a fault
  else if (k == 5) { sym_check(p->replies[0].code == 401, "an HTTP error thrown by a method is sent as such"); }
  else {
    sym_check(p->replies[0].code == 200, "a fault travels in a 200 reply");
    Response r = parse_response(p->body(0));
    if (forced && (!hit || !r.is_fault())) { sym_check(!r.is_fault() && r.value().get_string() == "big result", "the result arrives"); sym_cover("nofault"); }
    else {
      sym_check(r.is_fault(), "the failure becomes a fault");
      int c = r.fault_code(); const std::string& t = r.fault_string();
      switch (k) {
        case 0: case 2: case 17: sym_check(c == code && str_eq(t, text), "code and text of a fault arrive unchanged"); break;
        case 1: sym_check(c == -32602, "bad parameters have their code"); break;
        case 3: sym_check(c == -32500 && str_eq(t, text), "any other exception is an application error with its text"); break;
        case 4: case 14: case 15: case 16: sym_check(c == -32500 && !t.empty(), "an unknown exception is an application error"); break;
        case 6: case 13: sym_check(c == -32500, "any other exception is an application error"); break;
        case 7: case 8: sym_check(c == -32000, "value errors have the library's code"); break;
        case 9: sym_check(c == -32705 || c == -32500, "a result that cannot be serialised is reported"); sym_cover("unserialisable"); break;
        case 10: sym_check(c == -32700, "malformed XML has its code"); break;
        case 11: sym_check(c == -32600, "a protocol violation has its code"); break;
        case 12: sym_check(c == -32601, "an unknown method has its code"); break;
      }
      sym_log("fault", (uint64_t)(uint32_t)c);
      sym_cover("fault");
    }
  }
  {
    Response r = parse_response(p->body(1));
    sym_check(!r.is_fault() && r.value().is_int() && r.value().get_int() == 7, "the server keeps serving after a failure");
  }
  sym_check(p->closed, "the connection ends normally");
  text = std::string();
  sym_check(sym_live_new() == live, "nothing is leaked");
}
