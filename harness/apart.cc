// S09: separate objects may be used from separate threads at the same time.
#include "srv.h"
#include "cli.h"
#include "http.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/value_type.h"
#include "libiqxmlrpc/xheaders.h"
#include <pthread.h>
#include <sstream>

static int op[2]; static std::string text[2];   // what each thread does
static bool failed[2];
static void need(int id, bool ok) { if (!ok) { World w; failed[id] = true; } }

static Value sample(const std::string& t, int id) {
  Struct s; Array a;
  a.push_back(t); a.push_back(Value(id + 5)); a.push_back(Value(bool(id))); a.push_back(Value(0.5));
  s.insert("text", t); s.insert("list", a);
  s.insert("when", Date_time(std::string(id ? "20010203T04:05:06" : "19991231T23:59:58")));
  s.insert("data", Binary_data::from_data(id ? "abcd" : "xyz"));
  return Value(s);
}
static bool matches(const Value& v, const std::string& t, int id) {
  return v.is_struct() && v.the_struct().size() == 4 && str_eq(v["text"].get_string(), t) && v["list"].size() == 4 && str_eq(v["list"][0].get_string(), t) && v["list"][1].get_int() == id + 5 && v["list"][2].get_bool() == bool(id) &&
    v["list"][3].get_double() == 0.5 && v["when"].get_datetime().to_string() == (id ? "20010203T04:05:06" : "19991231T23:59:58") && v["data"].get_binary().get_data() == (id ? "abcd" : "xyz");
}
static void requests(int id, const std::string& t) {
  Param_list p; p.push_back(sample(t, id)); p.push_back(Value(id));
  std::unique_ptr<Request> r(parse_request(dump_request(Request(id ? "one" : "two", p))));
  need(id, r->get_name() == (id ? "one" : "two") && r->get_params().size() == 2 && matches(r->get_params()[0], t, id) && r->get_params()[1].get_int() == id);
}
static void responses(int id, const std::string& t) {
  Response r = parse_response(dump_response(Response(new Value(sample(t, id)))));
  need(id, !r.is_fault() && matches(r.value(), t, id));
  Response f = parse_response(dump_response(Response(id + 7, "bad " + t)));
  need(id, f.is_fault() && f.fault_code() == id + 7 && str_eq(f.fault_string(), "bad " + t));
  try { parse_response("<methodResponse><params></params></methodResponse>"); need(id, false); } catch (const Exception&) {}
}
static void http_requests(int id, const std::string& t) {
  http::Request_header* h = new http::Request_header("/" + t, id ? "one.example" : "two", 80 + id);
  XHeaders x; x["X-Mine"] = t; h->set_xheaders(x);
  h->set_authinfo(id ? "me" : "somebody", t);
  http::Packet p(h, id ? "body one" : "another");
  p.set_keep_alive(id);
  std::string d = p.dump();
  http::Packet_reader rd; rd.set_verification_level(id ? http::HTTP_CHECK_STRICT : http::HTTP_CHECK_WEAK); rd.set_max_size(d.size() + 1);
  std::unique_ptr<http::Packet> q(rd.read_request(d.substr(0, 20)));
  need(id, !q.get());
  q.reset(rd.read_request(d.substr(20)));
  need(id, q.get() && q->content() == (id ? "body one" : "another") && q->header()->conn_keep_alive() == bool(id));
  const http::Request_header* g = dynamic_cast<const http::Request_header*>(q->header());
  std::string u, w; g->get_authinfo(u, w);
  XHeaders y; g->get_xheaders(y);
  need(id, str_eq(g->uri(), "/" + t) && u == (id ? "me" : "somebody") && str_eq(w, t) && y.begin() != y.end() && str_eq(y.begin()->second, t));
}
static void http_responses(int id, const std::string& t) {
  http::Packet p(new http::Response_header(id ? 200 : 404, id ? "OK" : "Not here"), "<" + t + ">");
  http::Packet_reader rd;
  std::unique_ptr<http::Packet> q(rd.read_response(p.dump(), false));
  const http::Response_header* g = q.get() ? dynamic_cast<const http::Response_header*>(q->header()) : 0;
  need(id, g && g->code() == (id ? 200 : 404) && g->phrase() == (id ? "OK" : "Not here") && str_eq(q->content(), "<" + t + ">"));
  try { http::Packet_reader bad; delete bad.read_request(id ? "GET / HTTP/1.0\r\n\r\n" : "POST / HTTP/1.0\r\n\r\n"); need(id, false); }
  catch (const http::Error_response& e) { http::Packet r(e); need(id, e.response_header()->code() == (id ? 405 : 411) && r.dump().find(id ? " 405 " : " 411 ") != std::string::npos); }
}
static void values(int id, const std::string& t) {
  Value v = sample(t, id), c = v, e(1);
  e = c; c["list"][0] = std::string("other");
  need(id, matches(v, t, id) && matches(e, t, id) && c["list"][0].get_string() == "other");
  std::ostringstream o; print_value(v, o);
  need(id, !o.str().empty());
  std::unique_ptr<Binary_data> b(Binary_data::from_base64(id ? "YWJjZA==" : "eHl6"));
  need(id, b->get_data() == (id ? "abcd" : "xyz"));
  Date_time now(false); need(id, now.to_string().size() == 17);
  try { v["absent"]; need(id, false); } catch (const std::exception&) {}
  try { v.get_int(); need(id, false); } catch (const Value::Bad_cast&) {}
  try { Date_time bad(std::string("yesterday")); need(id, false); } catch (const std::exception&) {}
}
// every request on a connection is answered with the text of the thread that owns it
struct BothNet : CliNet {
  int own[MAXC];
  int do_connect(int fd, const sockaddr_in* a) { int i = nc; own[i] = ntohs(a->sin_port) - 80; return CliNet::do_connect(fd, a); }
};
static void clients(int id, const std::string& t) {
  iqnet::Inet_addr to(id ? "one.example" : "two.example", 80 + id);
  Client<Http_client_connection> cl(to, id ? "/one" : "/two");
  cl.set_timeout(5); cl.set_authinfo(id ? "me" : "somebody", "pw");
  XHeaders x; x["X-Mine"] = t; cl.set_xheaders(x);
  Response r = cl.execute("m", Value(t));
  need(id, !r.is_fault() && r.value().get_string() == "fine");
}
static void servers(int id, const std::string&) {
  Serial_executor_factory f;
  Http_server s(iqnet::Inet_addr(3344 + id), &f);
  s.enable_introspection(); s.set_max_request_sz(1000 + id);
  s.set_exit_flag();
  s.work();
  need(id, s.get_max_request_sz() == 1000u + id);
}
static void addresses(int id, const std::string&) {
  sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(1000 + id); sa.sin_addr.s_addr = htonl(id ? 0x01020304 : 0x0a0b0c0d);
  iqnet::Inet_addr a(sa), b(id ? "one.example" : "two.example", 2000 + id);
  need(id, a.get_host_name() == (id ? "1.2.3.4" : "10.11.12.13") && a.get_port() == 1000 + id);
  need(id, b.get_sockaddr()->sin_port == htons(2000 + id));
  try { iqnet::Inet_addr c("no\nhost", 1); need(id, false); } catch (const iqnet::network_error&) {}
}
static void* work(void* p) {
  int id = (int)(long)p;
  static void (*const OPS[])(int, const std::string&) = { requests, responses, http_requests, http_responses, values, clients, servers, addresses };
  try { OPS[op[id]](id, text[id]); } catch (const std::exception&) { need(id, false); }
  return 0;
}
extern "C" void sym_main() {
  op[0] = (int)sym_param("a", 0); op[1] = (int)sym_param("b", 0);
  for (int i = 0; i < 2; i++) text[i] = letters(2, "text");
  BothNet w; net = &w; w.check_ms = false;
  for (int i = 0; i < 2; i++) w.answer(http_resp(value_xml("fine")));
  pthread_t t[2];
  for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, work, (void*)(long)i);
  for (int i = 0; i < 2; i++) pthread_join(t[i], 0);
  for (int i = 0; i < 2; i++) sym_check(!failed[i], "what one thread does with its objects does not change what another gets");
  sym_check(w.open_count() == 0, "no socket is leaked");
  sym_cover("both");
}
