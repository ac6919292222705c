// X05: how the XML library is driven, and reader failures at any point.
#include "h.h"
#include "xmlmodel.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/except.h>
#include <libiqxmlrpc/request.h>
#include <libiqxmlrpc/response.h>
#include <boost/scoped_ptr.hpp>
using namespace iqxmlrpc;
static int failed, budget;
static int fault() { if (failed) return 1; if (budget-- > 0) return 0; failed = 1; return 1; }
extern "C" void sym_main() {
  static const char* const docs[] = {
    "<methodCall><methodName>m</methodName><params><param><value><struct><member><name>a</name><value><array><data><value>x</value><value><nil/></value></data></array></value></member></struct></value></param></params></methodCall>",
    "<methodCall><methodName>m</methodName></methodCall>", "<methodCall><methodName>m</methodName><params><param><value><foo/></value></param></params></methodCall>", "<a>", "",
    "<methodResponse><params><param><value><int>1</int></value></param></params></methodResponse>",
    "<methodResponse><fault><value><struct><member><name>faultCode</name><value><int>1</int></value></member><member><name>faultString</name><value>s</value></member></struct></value></fault></methodResponse>" };
  int k = pick(7, "doc");
  // neither the size nor the beginning of a document changes how it is read
  static const int pad[] = { 0, 1100, 5000, 70000 };
  static const char* const head[] = { "", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?><!DOCTYPE a [<!ENTITY e SYSTEM \"file:///e\">]>" };
  int big = sym_param("pad", 0);
  std::string doc = head[sym_param("head", 0)];
  doc += docs[k]; doc.append(pad[big], ' ');
  budget = big || sym_param("head", 0) ? 1000 : pick(42, "fail_at");
  xml_model.read_fault = fault; xml_model.no_error = pick(2, "unrecorded");
  long live = sym_live_new();
  int parse_err = 0, other = 0, ok = 0;
  try {
    if (k < 5) { boost::scoped_ptr<Request> r(parse_request(doc)); } else { Response r = parse_response(doc); }
    ok = 1;
  } catch (const Parse_error&) { parse_err = 1; }
  catch (const std::exception&) { other = 1; }
  sym_check(xml_model.opened == 1, "a document is given to the XML library once");
  sym_check(xml_model.net_allowed == 0, "network access is disabled");
  sym_check(xml_model.entities_on == 0, "entity substitution and external definitions stay off");
  sym_check(xml_model.subst_set > 0 || !(xml_model.options & 2), "entity substitution is off");
  sym_check(xml_model.live_readers == 0, "the reader is released exactly once");
  sym_check(sym_live_new() == live, "nothing is leaked when reading fails");
  if (failed) { sym_check(parse_err, "a reader failure surfaces as the parse error"); sym_cover("failed"); }
  if (ok) sym_cover("ok");
  sym_log("r", parse_err * 4 + other * 2 + ok);
}
