// X01: values survive serialisation and parsing of request/response documents.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/request.h>
#include <libiqxmlrpc/response.h>
#include <boost/scoped_ptr.hpp>
using namespace iqxmlrpc;
static int smallint(const char* name) { return (signed char)sym_byte(name); }
static const char* const cstr[] = { "", " ", "a", " \t", "\n", "]]>", "<b>&amp;", "x y ", "\r\n", "\xc3\xa9", "  lead" };
static std::string gen_string() {
  int menu = sym_param("menu", 0);
  if (menu == 0) {
    std::string s = sym_str(pick(sym_param("slen", 2) + 1, "slen"), "str");
    for (size_t i = 0; i < s.size(); i++) sym_assume(sym_and((signed char)s[i] > 0, sym_or(s[i] >= 32, sym_or(s[i] == '\n', sym_or(s[i] == '\t', s[i] == '\r')))));
    return s;
  }
  return cstr[pick(menu == 1 ? sizeof cstr / sizeof *cstr : menu == 2 ? 2 : 1, "cstr")];
}
static Value gen(int depth, int width) {
  int small = sym_param("menu", 0) >= 2;
  int t = pick(small ? (depth > 0 ? 5 : 3) : depth > 0 ? 10 : 8, "type");
  if (small) { static const int map[] = { 0, 1, 5, 8, 9 }; t = map[t]; if (t == 1 && sym_param("menu", 0) == 3) return Value(17); }
  switch (t) {
  case 0: return Value(Nil());
  case 1: return Value(smallint("int"));
  case 2: return Value((int64_t)smallint("i64"));
  case 3: return Value((bool)(sym_byte("bool") & 1));
  case 4: { static const double d[] = { 0, 1.5, -2.25, 1e300, 0.1, -1e-300, 1.0 / 3, 123456789.125 }; return Value(d[pick(sym_param("menu", 0) && depth == 0 ? 4 : 8, "dbl")]); }
  case 5: return Value(gen_string());
  case 6: { std::string s = sym_param("menu", 0) == 0 ? sym_str(pick(2, "blen"), "bin") : std::string("\0\xff\x10z", 4); boost::scoped_ptr<Binary_data> b(Binary_data::from_data(s)); return Value(*b); }
  case 7: { struct tm m = tm(); m.tm_year = 101; m.tm_mday = 1 + pick(3, "day") * 14; m.tm_mon = 8; m.tm_hour = 23; return Value(&m); }
  case 8: { int n = pick(width + 1, "alen"); Array a; for (int i = 0; i < n; i++) a.push_back(gen(depth - 1, width)); return Value(a); }
  default: { int n = pick(width + 1, "mlen"); Struct s; for (int i = 0; i < n; i++) s.insert(i ? std::string("k&") : cstr[sym_param("menu", 0) == 3 ? 0 : pick(small ? 2 : 4, "name")], gen(depth - 1, width)); return Value(s); }
  }
}
static int eq(const Value& a, const Value& b) {
  if (a.type_name() != b.type_name()) return 0;
  if (a.is_nil()) return b.is_nil();
  if (a.is_int()) return a.get_int() == b.get_int();
  if (a.is_int64()) return a.get_int64() == b.get_int64();
  if (a.is_bool()) return a.get_bool() == b.get_bool();
  if (a.is_double()) { double x = a.get_double(), y = b.get_double(); return sym_memeq(&x, &y, 8); }
  if (a.is_string()) return str_eq(a.get_string(), b.get_string());
  if (a.is_binary()) return str_eq(a.get_binary().get_data(), b.get_binary().get_data());
  if (a.is_datetime()) return str_eq(a.get_datetime().to_string(), b.get_datetime().to_string());
  int r = 1;
  if (a.is_array()) {
    if (a.size() != b.size()) return 0;
    for (size_t i = 0; i < a.size(); i++) r = sym_and(r, eq(a[(int)i], b[(int)i]));
    return r;
  }
  const Struct &s = a.the_struct(), &t = b.the_struct();
  if (s.size() != t.size()) return 0;
  Struct::const_iterator j = t.begin();
  for (Struct::const_iterator i = s.begin(); i != s.end(); ++i, ++j) r = sym_and(r, sym_and(str_eq(i->first, j->first), eq(*i->second, *j->second)));
  return r;
}
static void run(const Value& v, const Value& w) {
  if (sym_param("resp", 0)) {
    Value::omit_string_tag_in_responses(sym_param("omit", 0));
    std::string doc = dump_response(Response(new Value(v)));
    Value::omit_string_tag_in_responses(false);
    sym_logb("doc", doc.data(), doc.size());
    Response r = parse_response(doc);
    sym_check(!r.is_fault(), "a result is not a fault");
    sym_check(eq(r.value(), v), "the result survives the response document");
  } else {
    Param_list pl; pl.push_back(v); pl.push_back(w);
    std::string doc = dump_request(Request("sys.m<1>", pl));
    sym_logb("doc", doc.data(), doc.size());
    boost::scoped_ptr<Request> r(parse_request(doc));
    sym_check(r->get_name() == "sys.m<1>", "the method name survives the request document");
    sym_check(r->get_params().size() == 2, "the number of parameters survives");
    sym_check(eq(r->get_params()[0], v), "the first parameter survives the request document");
    sym_check(eq(r->get_params()[1], w), "the second parameter survives the request document");
  }
  sym_cover("trip");
}
// documents longer, wider or deeper than usual, with a few free characters
static std::string blank(int n) { std::string s(n, ' '); unsigned char c = sym_byte("blank"); sym_assume(sym_or(c == ' ', sym_or(c == '\n', sym_or(c == '\t', c == '\r')))); s[n / 2] = (char)c; return s; }
static std::string lengthy(int n) {
  std::string s(n, 'a');
  static const char* const nm[] = { "first", "last", "middle" };
  for (int i = 0; i < 3; i++) { unsigned char c = sym_byte(nm[i]); sym_assume(sym_and(c >= 32, c < 127)); s[i == 0 ? 0 : i == 1 ? n - 1 : n / 2] = (char)c; }
  return s;
}
static void large() {
  int n = sym_param("len", 9), kind = sym_param("kind", 0);
  switch (kind) {
  case 0: run(Value(lengthy(n)), Value(7)); break;
  case 1: run(Value(blank(n)), Value(7)); break;
  case 2: { Struct s; s.insert(lengthy(n), 1); s.insert(blank(n), 2); run(Value(s), Value(7)); break; }
  case 3: { Array a; for (int i = 0; i < n; i++) a.push_back(i == n - 1 ? Value(smallint("int")) : i % 3 ? Value(i) : Value("s")); run(Value(a), Value(7)); break; }
  case 4: { Struct s; for (int i = 0; i < n; i++) s.insert(std::string(1, 'a' + i % 26) + std::string(1, 'a' + i / 26), i == n - 1 ? smallint("int") : i); run(Value(s), Value(7)); break; }
  case 5: { Value v(smallint("int")); for (int i = 0; i < n; i++) if (i % 2) { Struct s; s.insert("k", v); v = Value(s); } else { Array a; a.push_back(v); v = Value(a); } run(v, Value(7)); break; }
  case 8: {                                     // a character beyond ASCII before, between or after others
    std::string c = sym_str(pick(3, "bytes") + 2, "char"); unsigned char a = c[0], b = c[1], d = c.size() > 2 ? c[2] : 0x80, e = c.size() > 3 ? c[3] : 0x80;
    sym_assume(sym_and(in_range(b, 0x80, 0xbf), sym_and(in_range(d, 0x80, 0xbf), in_range(e, 0x80, 0xbf))));
    if (c.size() == 2) sym_assume(in_range(a, 0xc2, 0xdf));
    else if (c.size() == 3) { sym_assume(in_range(a, 0xe0, 0xef)); sym_assume(sym_or(a != 0xe0, b >= 0xa0)); sym_assume(sym_or(a != 0xed, b < 0xa0)); sym_assume(sym_or(a != 0xef, sym_or(b != 0xbf, d < 0xbe))); }
    else { sym_assume(in_range(a, 0xf0, 0xf4)); sym_assume(sym_or(a != 0xf0, b >= 0x90)); sym_assume(sym_or(a != 0xf4, b < 0x90)); }
    static const char* const around[][2] = { { "", "" }, { "", "end" }, { "beg", "" }, { " ", " " } };
    int k = pick(4, "around"); std::string s = around[k][0] + c + around[k][1];
    if (pick(2, "as name")) { Struct m; m.insert(s, 1); run(Value(m), Value(7)); } else run(Value(s), Value(7));
    break;
  }
  case 6: { std::string s(n - 2, 'b'); s += sym_str(2, "bin"); boost::scoped_ptr<Binary_data> b(Binary_data::from_data(s)); run(Value(*b), Value(7)); break; }
  default: {
    std::string name = lengthy(n); for (int i = 0; i < n; i++) if (i == 0 || i == n - 1 || i == n / 2) sym_assume(in_range((unsigned char)name[i], 'a', 'z'));
    Param_list pl; int x = smallint("int"); for (int i = 0; i < n; i++) pl.push_back(i == n - 1 ? Value(x) : Value(i));
    std::string doc = dump_request(Request(name, pl));
    boost::scoped_ptr<Request> r(parse_request(doc));
    sym_check(str_eq(r->get_name(), name), "the method name survives the request document");
    sym_check(r->get_params().size() == (size_t)n, "the number of parameters survives");
    int ok = 1; for (int i = 0; i < n; i++) ok = sym_and(ok, r->get_params()[i].get_int() == (i == n - 1 ? x : i));
    sym_check(ok, "every parameter survives the request document");
    sym_cover("trip");
  }
  }
}
extern "C" void sym_main() {
  long live = sym_live_new();
  {
    Value w(7);
    if (sym_param("mode", 0) == 1) {            // 256-value windows around the extremes and powers of ten
      static const int iv[] = { -128, 256, 900, 9900, 65400, 99900, 999900, 2147483647 - 255, -2147483647 - 1, 1000000000 - 128, -1000000000 - 128 };
      static const int64_t lv[] = { -128, 9223372036854775807LL - 255, -9223372036854775807LL - 1, 4294967296LL - 128, -4294967296LL - 128, 999999999999999900LL };
      int d = sym_byte("d");
      if (pick(2, "wide")) run(Value(lv[pick(6, "l")] + d), w); else run(Value(iv[pick(11, "i")] + d), w);
    } else if (sym_param("mode", 0) == 2) large();
    else run(gen(sym_param("depth", 1), sym_param("width", 1)), w);
  }
  sym_check(sym_live_new() == live, "nothing is leaked by serialising and parsing");
}
