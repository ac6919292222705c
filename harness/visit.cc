// V05: visitors and the textual dump see every part once, in order.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/value_type_visitor.h>
#include <boost/scoped_ptr.hpp>
#include <sstream>
using namespace iqxmlrpc;
struct Ev { int kind; int64_t v; std::string s; };
struct Rec: public Value_type_visitor {
  enum { MAX = 512 }; Ev ev[MAX]; int n;
  Rec(): n(0) {}
  void add(int k, int64_t v = 0, const std::string& s = "") { if (n < MAX) { ev[n].kind = k; ev[n].v = v; ev[n].s = s; } n++; }
  void do_visit_value(const Value_type& v) { add(0); v.apply_visitor(*this); }
  void do_visit_nil() { add(1); }
  void do_visit_int(int i) { add(2, i); }
  void do_visit_int64(int64_t i) { add(3, i); }
  void do_visit_double(double d) { int64_t b; memcpy(&b, &d, 8); add(4, b); }
  void do_visit_bool(bool b) { add(5, b); }
  void do_visit_string(const std::string& s) { add(6, 0, s); }
  void do_visit_struct(const Struct& s) { add(7, s.size()); for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) { add(11, 0, i->first); i->second->apply_visitor(*this); } }
  void do_visit_array(const Array& a) { add(8, a.size()); for (Array::const_iterator i = a.begin(); i != a.end(); ++i) i->apply_visitor(*this); }
  void do_visit_base64(const Binary_data& b) { add(9, 0, b.get_data()); }
  void do_visit_datetime(const Date_time& d) { add(10, 0, d.to_string()); }
};
static Rec want; static std::string text;
static std::string num(int64_t v) { std::ostringstream o; o << v; return o.str(); }
// numbers of every magnitude, each with a free last byte
static int64_t wide(int bits) {
  static const int64_t base[] = { 0, 1000, -70000, 2147483500, -2147483500, 4294967400LL, -99999999999LL, 9223372036854775600LL, -9223372036854775600LL };
  return base[pick(bits == 32 ? 5 : 9, "magnitude")];
}
static Value gen(int depth, int width) {
  want.add(0);
  int t = sym_choice(depth > 0 ? 10 : 8, "type");
  switch (t) {
  case 0: want.add(1); text += "NIL"; return Value(Nil());
  case 1: { int v = (signed char)sym_byte("int"); if (sym_param("wide", 0)) v += (int)wide(32); want.add(2, v); text += num(v); return Value(v); }
  case 2: { int64_t v = sym_i64("i64"); int big = sym_param("big", 0); if (!big) v = (signed char)v; if (sym_param("wide", 0)) v += wide(64); want.add(3, v); if (!big) text += num(v); return Value(v); }
  case 3: { bool b = sym_byte("bool") & 1; want.add(5, b); text += '0' + b; return Value(b); }
  case 4: { static const double D[] = { 1.5, 0, -0.0, 0.1, 1e300, -2.5e-300, 123456789, 1e15, 1.0 / 3 }; double d = D[sym_param("wide", 0) ? pick(9, "double") : 0]; int64_t b; memcpy(&b, &d, 8); want.add(4, b); std::ostringstream o; o << d; text += o.str(); return Value(d); }
  case 5: { std::string s = sym_str(sym_choice(3, "slen"), "str"); want.add(6, 0, s); text += "'" + s + "'"; return Value(s); }
  case 6: { std::string s = sym_str(2, "bin"); want.add(9, 0, s); text += "RAWDATA"; boost::scoped_ptr<Binary_data> b(Binary_data::from_data(s)); return Value(*b); }
  case 7: { struct tm m = tm(); m.tm_year = 101; m.tm_mday = 9; m.tm_mon = 8; want.add(10, 0, "20010909T00:00:00"); text += "'20010909T00:00:00'"; return Value(&m); }
  case 8: { int n = sym_choice(width + 1, "alen"); want.add(8, n); Array a; text += "["; for (int i = 0; i < n; i++) { text += " "; a.push_back(gen(depth - 1, width)); text += ","; } text += " ]"; return Value(a); }
  default: { int n = sym_choice(width + 1, "mlen"); want.add(7, n); Struct s; text += "{";
    for (int i = 0; i < n; i++) { std::string k(1, 'a' + i); if (sym_param("keys", 0)) k += sym_str(pick(3, "key length"), "key"); want.add(11, 0, k); text += " '" + k + "' => "; s.insert(k, gen(depth - 1, width)); text += ","; } text += " }"; return Value(s); }
  }
}
// many parts, long texts and names
static Value many(int n, int len) {
  Array a; Struct s; text += "[";
  want.add(0); want.add(8, n + 2);
  for (int i = 0; i < n; i++) { int v = i == n - 1 ? (signed char)sym_byte("int") : i; a.push_back(v); text += " " + num(v) + ","; want.add(0); want.add(2, v); }
  std::string l = std::string(len, 'l') + sym_str(1, "str");
  a.push_back(l); want.add(0); want.add(6, 0, l); text += " '" + l + "',";
  text += " {"; want.add(0); want.add(7, n);
  for (int i = 0; i < n; i++) { std::string k = std::string(1, 'a' + i / 26 % 26) + std::string(1, 'a' + i % 26) + std::string(len, 'k'); s.insert(k, i); text += " '" + k + "' => " + num(i) + ","; want.add(11, 0, k); want.add(0); want.add(2, i); }
  text += " }, ]";
  a.push_back(s);
  return a;
}
extern "C" void sym_main() {
  Value v = sym_param("many", 0) ? many(sym_param("many", 0), sym_param("len", 0)) : gen(sym_param("depth", 1), sym_param("width", 2));
  Value before(v);
  Rec got;
  v.apply_visitor(got);
  sym_check(got.n == want.n, "number of parts visited");
  int ok = 1;
  for (int i = 0; i < got.n && i < Rec::MAX; i++) {
    if (got.ev[i].kind != want.ev[i].kind) sym_fail("parts are visited in order with their own type");
    ok = sym_and(ok, sym_and(got.ev[i].v == want.ev[i].v, str_eq(got.ev[i].s, want.ev[i].s)));
  }
  sym_check(ok, "visited parts carry the stored contents");
  if (sym_param("big", 0)) { sym_cover("visited"); return; }
  std::ostringstream out;
  print_value(v, out);
  sym_logb("text", out.str().data(), out.str().size());
  sym_check(str_eq(out.str(), text), "the dump shows every part in order");
  Rec again;
  v.apply_visitor(again);
  sym_check(again.n == want.n, "visiting does not change the value");
  sym_cover("visited");
}
