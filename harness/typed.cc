// V04: typed access matrix, index and member range checks.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <boost/scoped_ptr.hpp>
using namespace iqxmlrpc;
#define TRY(k, expr, good, msg) do { bool t = false; try { expr; } catch (const Value::Bad_cast&) { t = true; } \
  sym_check(t == (type != (k)), msg); } while (0)
static int same_tm(const struct tm& a, const struct tm& b) {
  return sym_and(sym_and(a.tm_year == b.tm_year, sym_and(a.tm_mon == b.tm_mon, a.tm_mday == b.tm_mday)), sym_and(a.tm_hour == b.tm_hour, sym_and(a.tm_min == b.tm_min, a.tm_sec == b.tm_sec)));
}
static void matrix() {
  static const char* const names[] = { "nil", "i4", "i8", "boolean", "double", "string", "base64", "dateTime.iso8601", "array", "struct" };
  int type = sym_choice(10, "type");
  int i = sym_int("i"); int64_t l = sym_i64("l"); bool b = sym_byte("b") & 1; uint64_t dbits = sym_i64("d");
  double d; memcpy(&d, &dbits, 8);
  std::string s = sym_str(3, "s");
  struct tm t = tm(); t.tm_year = 100 + (sym_byte("year") & 127); t.tm_mday = sym_byte("mday"); t.tm_sec = sym_byte("sec"); t.tm_min = sym_byte("min"); t.tm_hour = sym_byte("hour"); t.tm_mon = sym_byte("mon");
  sym_assume(sym_and(in_range(t.tm_mday, 1, 31), sym_and(t.tm_sec <= 61, sym_and(t.tm_min <= 59, sym_and(t.tm_hour <= 23, t.tm_mon <= 11)))));
  boost::scoped_ptr<Value> v;
  switch (type) {
  case 0: v.reset(new Value(Nil())); break;
  case 1: v.reset(new Value(i)); break;
  case 2: v.reset(new Value(l)); break;
  case 3: v.reset(new Value(b)); break;
  case 4: v.reset(new Value(d)); break;
  case 5: v.reset(new Value(s)); break;
  case 6: { boost::scoped_ptr<Binary_data> x(Binary_data::from_data(s)); v.reset(new Value(*x)); break; }
  case 7: v.reset(new Value(&t)); break;
  case 8: { Array a; a.push_back(i); v.reset(new Value(a)); break; }
  default: { Struct a; a.insert("k", l); v.reset(new Value(a)); break; }
  }
  for (int round = 0; round < 2; round++) {
    const Value& c = *v;
    sym_check(c.is_nil() == (type == 0) && c.is_int() == (type == 1) && c.is_int64() == (type == 2) && c.is_bool() == (type == 3) &&
      c.is_double() == (type == 4) && c.is_string() == (type == 5) && c.is_binary() == (type == 6) && c.is_datetime() == (type == 7) &&
      c.is_array() == (type == 8) && c.is_struct() == (type == 9), "exactly the matching predicate holds");
    sym_check(c.type_name() == names[type], "type name matches the stored type");
    int gi = 0; int64_t gl = 0; bool gb = false; double gd = 0; std::string gs; struct tm gt = tm();
    TRY(1, gi = c.get_int(), , "get_int only for int"); if (type == 1) sym_check(gi == i, "get_int returns the stored int");
    TRY(1, gi = (int)c, , "conversion to int only for int"); if (type == 1) sym_check(gi == i, "conversion returns the stored int");
    TRY(2, gl = c.get_int64(), , "get_int64 only for int64"); if (type == 2) sym_check(gl == l, "get_int64 returns the stored value");
    TRY(2, gl = (int64_t)c, , "conversion to int64 only for int64"); if (type == 2) sym_check(gl == l, "conversion returns the stored int64");
    TRY(3, gb = c.get_bool(), , "get_bool only for bool"); if (type == 3) sym_check(gb == b, "get_bool returns the stored bool");
    TRY(3, gb = (bool)c, , "conversion to bool only for bool"); if (type == 3) sym_check(gb == b, "conversion returns the stored bool");
    TRY(4, gd = c.get_double(), , "get_double only for double"); if (type == 4) sym_check(sym_memeq(&gd, &d, 8), "get_double returns the stored double");
    TRY(4, gd = (double)c, , "conversion to double only for double"); if (type == 4) sym_check(sym_memeq(&gd, &d, 8), "conversion returns the stored double");
    TRY(5, gs = c.get_string(), , "get_string only for string"); if (type == 5) sym_check(str_eq(gs, s), "get_string returns the stored string");
    TRY(5, gs = (std::string)c, , "conversion to string only for string"); if (type == 5) sym_check(str_eq(gs, s), "conversion returns the stored string");
    TRY(6, gs = c.get_binary().get_data(), , "get_binary only for binary"); if (type == 6) sym_check(str_eq(gs, s), "get_binary returns the stored data");
    TRY(6, gs = c.operator Binary_data().get_data(), , "conversion to binary only for binary"); if (type == 6) sym_check(str_eq(gs, s), "conversion returns the stored data");
    TRY(7, gt = c.get_datetime().get_tm(), , "get_datetime only for date-time"); if (type == 7) sym_check(same_tm(gt, t), "get_datetime returns the stored fields");
    TRY(7, gt = (struct tm)c, , "conversion to tm only for date-time"); if (type == 7) sym_check(same_tm(gt, t), "conversion returns the stored fields");
    size_t n = 0; const Array* pa = 0; const Struct* ps = 0; bool hf = false;
    TRY(8, n = c.size(), , "size only for array"); if (type == 8) sym_check(n == 1, "size of the array");
    TRY(8, pa = &c.the_array(), , "the_array only for array"); if (type == 8) sym_check((*pa)[0].get_int() == i, "array element");
    TRY(8, pa = &v->the_array(), , "mutable the_array only for array");
    TRY(8, gi = c[0].get_int(), , "indexing only for array"); if (type == 8) sym_check(gi == i, "indexed element");
    TRY(8, gi = (*v)[0].get_int(), , "mutable indexing only for array");
    TRY(8, c.arr_begin(), , "arr_begin only for array"); TRY(8, c.arr_end(), , "arr_end only for array");
    TRY(9, ps = &c.the_struct(), , "the_struct only for struct"); TRY(9, ps = &v->the_struct(), , "mutable the_struct only for struct");
    TRY(9, hf = c.has_field("k"), , "has_field only for struct"); if (type == 9) sym_check(hf && !c.has_field("j"), "has_field tells which members exist");
    TRY(9, gl = c["k"].get_int64(), , "member access only for struct"); if (type == 9) sym_check(gl == l, "member value");
    TRY(9, gl = (*v)["k"].get_int64(), , "mutable member access only for struct");
    TRY(9, gl = c[std::string("k")].get_int64(), , "member access by string only for struct"); if (type == 9) sym_check(gl == l, "member value by string");
    TRY(9, gl = (*v)[std::string("k")].get_int64(), , "mutable member access by string only for struct");
    if (type != 8) TRY(8, v->push_back(1), , "push_back only for array");
    if (type != 9) TRY(9, v->insert("q", 1), , "insert only for struct");
    Value copy(c); v.reset(new Value(copy));       // second round: on a copy
  }
  Value w(0); w = *v; sym_check(w.type_name() == names[type], "assignment keeps the type");
  if (type == 5) { Value cs("lit"); sym_check(cs.is_string() && cs.get_string() == "lit", "a C string becomes a string value"); }
  if (type == 1) {
    sym_check(Value::get_default_int() == 0, "no default int unless set");
    Value::set_default_int(i); boost::scoped_ptr<Int> di(Value::get_default_int()); sym_check(di && di->value() == i, "the default int is the one set");
    Value::drop_default_int(); sym_check(Value::get_default_int() == 0, "a dropped default int is gone");
    Value::set_default_int64(l); boost::scoped_ptr<Int64> dl(Value::get_default_int64()); sym_check(dl && dl->value() == l, "the default int64 is the one set");
    Value::drop_default_int64(); sym_check(Value::get_default_int64() == 0, "a dropped default int64 is gone");
  }
  sym_cover("matrix");
}
static void bounds() {
  int n = sym_choice(4, "size"), idx = sym_int("index");
  Array a; int e[3];
  for (int k = 0; k < n; k++) { e[k] = sym_int("e"); a.push_back(e[k]); }
  Value v(a); const Value& c = v;
  bool t1 = false, t2 = false, t3 = false; int g = 0, h = 0, u = 0;
  try { g = c[idx].get_int(); } catch (const Array::Out_of_range&) { t1 = true; }
  try { h = v[idx].get_int(); } catch (const Array::Out_of_range&) { t2 = true; }
  try { u = a[(unsigned)idx].get_int(); } catch (const Array::Out_of_range&) { t3 = true; }
  const Array& ca = a; bool t4 = false; int x = 0;
  try { x = ca[(unsigned)idx].get_int(); } catch (const Array::Out_of_range&) { t4 = true; }
  int out = sym_or(idx < 0, idx >= n);
  sym_check(t4 == out, "reading an array object outside throws, inside does not");
  if (!t4) sym_check(x == e[idx], "indexing returns the element at that position");
  { int k = 0; Array::const_iterator i = ca.begin(); for (; i != ca.end(); ++i, k++) sym_check(k < n && i->get_int() == e[k] && (*i).is_int(), "iterating visits the elements in order"); sym_check(k == n && ca.size() == (size_t)n, "iterating visits every element");
    for (; k > 0; ) { --i; k--; sym_check(i->get_int() == e[k], "iterating backwards visits the elements in order"); } sym_check(i == ca.begin(), "iterating back ends where it began"); }
  sym_check(t1 == out, "reading outside the array throws, inside does not");
  sym_check(t2 == out, "access outside the array throws, inside does not");
  sym_check(t3 == out, "indexing an array object outside throws, inside does not");
  if (!t1 && !t2 && !t3) { sym_cover("inside"); sym_check(g == e[idx] && h == e[idx] && u == e[idx], "indexing returns the element at that position"); } else sym_cover("outside");
}
static void members() {
  std::string k1 = sym_str(sym_choice(3, "l1"), "k1"), k2 = sym_str(sym_choice(3, "l2"), "k2"), q = sym_str(sym_choice(3, "lq"), "q");
  Struct s; int a = sym_int("a"), b = sym_int("b");
  s.insert(k1, a); s.insert(k2, b);
  Value v(s); const Value& c = v;
  bool is2 = sym_fork(str_eq(q, k2)), is1 = sym_fork(str_eq(q, k1));
  bool t = false, t2 = false; int g = 0, h = 0;
  try { g = c[q].get_int(); } catch (const Struct::No_field&) { t = true; }
  try { h = v[q].get_int(); } catch (const Struct::No_field&) { t2 = true; }
  sym_check(t == !(is1 || is2) && t2 == t, "reading an absent member throws, a present one does not");
  sym_check(c.has_field(q) == (is1 || is2), "has_field tells the members");
  sym_check((s.find(q) != s.end()) == (is1 || is2), "find tells the members");
  const Struct& cs = s; bool t5 = false, t6 = false; int x = 0, y = 0;
  try { x = cs[q].get_int(); } catch (const Struct::No_field&) { t5 = true; }
  try { y = s[q].get_int(); } catch (const Struct::No_field&) { t6 = true; }
  sym_check(t5 == t && t6 == t && cs.has_field(q) == !t, "reading an absent member of a struct object throws, a present one does not");
  if (!t) sym_check(x == g && y == g, "the member inserted last under that name is returned");
  sym_check(cs.size() == (sym_fork(str_eq(k1, k2)) ? 1u : 2u), "a struct has one member per name");
  if (!t) { sym_cover("present"); sym_check(g == (is2 ? b : a) && h == g, "the member inserted last under that name is returned"); } else sym_cover("absent");
}
// many elements and members, long names
static void large() {
  int n = (int)sym_param("many", 33), idx = sym_int("index"), e = sym_int("e"); std::string pad((size_t)sym_param("len", 0), 'k');
  Array a; Struct s;
  for (int i = 0; i < n; i++) { a.push_back((int)((unsigned)e + i)); s.insert(pad + (char)('A' + i % 64) + (char)('0' + i / 64), (int)((unsigned)e - i)); }
  Value va(a), vs(s); const Value& ca = va; const Value& cs = vs;
  sym_check(va.size() == (size_t)n && s.size() == (size_t)n, "the size is the number of elements");
  int out = sym_or(idx < 0, idx >= n); bool t = false; int g = 0;
  try { g = ca[idx].get_int(); } catch (const Array::Out_of_range&) { t = true; }
  sym_check(t == out, "reading outside the array throws, inside does not");
  if (!t) { sym_check(g == (int)((unsigned)e + (unsigned)idx), "indexing returns the element at that position"); sym_cover("inside"); } else sym_cover("outside");
  std::string q = pad + sym_str(1, "q") + "0"; int c = (unsigned char)q[pad.size()] - 'A';
  bool present = sym_fork(sym_and(c >= 0, sym_and(c < 64, c < n))); bool t2 = false; int h = 0;
  try { h = cs[q].get_int(); } catch (const Struct::No_field&) { t2 = true; }
  sym_check(t2 == !present && cs.has_field(q) == present, "reading an absent member throws, a present one does not");
  if (present) { sym_check(h == (int)((unsigned)e - (unsigned)c), "the member inserted under that name is returned"); sym_cover("present"); } else sym_cover("absent");
}
extern "C" void sym_main() { if (sym_param("many", 0)) { large(); return; } switch (sym_param("mode", 0)) { case 0: matrix(); break; case 1: bounds(); break; default: members(); } }
