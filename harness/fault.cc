// X04: fault responses survive serialisation; value() throws the fault.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/except.h>
#include <libiqxmlrpc/response.h>
using namespace iqxmlrpc;
extern "C" void sym_main() {
  static const int base[] = { -128, 2147483647 - 255, -2147483647 - 1, -32768 - 128, 99900 };
  int code = base[pick(5, "base")] + sym_byte("d");
  std::string s = sym_str(pick(sym_param("slen", 2) + 1, "slen"), "str");
  for (size_t i = 0; i < s.size(); i++) sym_assume(sym_and((signed char)s[i] > 0, sym_or(s[i] >= 32, sym_or(s[i] == '\n', sym_or(s[i] == '\t', s[i] == '\r')))));
  if (int pad = sym_param("pad", 0)) s = std::string(pad, 'f') + s;
  if (int hi = sym_param("hi", 0)) s += hi == 1 ? "\xc3\xa9" : hi == 2 ? "\xe2\x82\xac" : "\xf0\x9d\x84\x9e";
  Value::omit_string_tag_in_responses(sym_param("omit", 0));
  std::string doc = dump_response(Response(code, s));
  sym_logb("doc", doc.data(), doc.size());
  Response r = parse_response(doc);
  sym_check(r.is_fault(), "a fault stays a fault");
  sym_check(r.fault_code() == code, "the fault code survives");
  sym_check(str_eq(r.fault_string(), s), "the fault string survives");
  int threw = 0;
  try { r.value(); }
  catch (const Exception& e) { threw = 1; sym_check(e.code() == code, "the exception carries the fault code"); sym_check(str_eq(std::string(e.what()), s), "the exception carries the fault string"); }
  sym_check(threw, "asking a fault for its value throws");
  sym_cover("fault");
}
