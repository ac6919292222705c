// X02: text of scalar elements is decoded exactly or refused.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/request.h>
#include <boost/scoped_ptr.hpp>
#include <stdexcept>
using namespace iqxmlrpc;
static const char* const tag[] = { "int", "i4", "i8", "boolean", "double" };
// 1: text is an optionally signed decimal number, value in v (saturated); 0: not a number
static int ref_int(const std::string& t, __int128& v) {
  size_t i = 0; int neg = 0;
  if (t.size() && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; i = 1; }
  if (i == t.size()) return 0;
  v = 0;
  for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return 0; v = v * 10 + (t[i] - '0'); }
  if (neg) v = -v;
  return 1;
}
static int blank(const std::string& t) { for (size_t i = 0; i < t.size(); i++) if (!(t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) return 0; return 1; }
static double p10(int n) { double r = 1; while (n-- > 0) r *= 10; return r; }
// 1 number, 0 certainly not a number, 2 unspecified form
static int ref_double(const std::string& t, double& v) {
  size_t i = 0; int neg = 0, nd = 0, frac = 0, ex = 0, eneg = 0, dot = 0;
  double m = 0;
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
  for (; i < t.size(); i++) {
    if (t[i] == '.') { if (dot) return 0; dot = 1; continue; }
    if (t[i] < '0' || t[i] > '9') break;
    m = m * 10 + (t[i] - '0'); nd++; frac += dot;
  }
  if (!nd) return 0;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    i++;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) eneg = t[i++] == '-';
    int k = 0;
    for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++, k++) ex = ex * 10 + (t[i] - '0');
    if (!k) return 0;
  }
  if (i != t.size()) return 0;
  int e = (eneg ? -ex : ex) - frac;
  if (e > 22 || e < -22) return 2;
  v = e >= 0 ? m * p10(e) : m / p10(-e);
  if (neg) v = -v;
  return 1;
}
extern "C" void sym_main() {
  int ty = sym_param("type", 0), def = sym_param("def", 0);
  int di = 0; int64_t dl = 0;
  // 1 both defaults set, 2 set and dropped again, 3 that of int only, 4 that of i8 only
  if (def) { di = sym_int("di"); dl = sym_i64("dl"); if (def != 4) Value::set_default_int(di); if (def != 3) Value::set_default_int64(dl); if (def == 2) { Value::drop_default_int(); Value::drop_default_int64(); } }
  const int has_def = def == 1 || (def == 3 && ty < 2) || (def == 4 && ty == 2);
  std::string t;
  switch (sym_param("form", 0)) {
  case 0: t = sym_str(sym_param("len", 2), "t"); break;
  case 1: {                                    // around the ends of the range
    static const char* const base[] = { "214748364", "-214748364", "429496729", "922337203685477580", "-922337203685477580", "1844674407370955161", "00000000000000000000", "-0", "9999999999999999999" };
    t = base[pick(9, "base")];
    t += sym_str(pick(3, "more"), "t");
    break;
  }
  case 3: {                                    // words, one character of which is free
    static const char* const word[] = { "true", "false", "yes", "TRUE", "0x10", "1.0", "nil", "1e1", "0001", "1,000", "1 2", "NULL" };
    t = word[pick(12, "word")];
    t[pick((int)t.size(), "where")] = (char)sym_byte("t");
    break;
  }
  default: {                                   // number characters only
    static const char ch[] = "015.-+eE xnai";
    for (int i = 0, n = sym_param("len", 2); i < n; i++) t += ch[pick(sizeof ch - 1, "c")];
  }
  }
  for (size_t i = 0; i < t.size(); i++) sym_assume(sym_and(t[i] != '<', t[i] != '&'));
  std::string g = tag[ty], doc = "<methodCall><methodName>m</methodName><params><param><value><" + g + ">" + t + "</" + g + "></value></param></params></methodCall>";
  int ok = 0; long iv = 0; double dv = 0;
  long live = sym_live_new();
  try {
    boost::scoped_ptr<Request> r(parse_request(doc));
    const Value& v = r->get_params().at(0);
    sym_check(ty < 2 ? v.is_int() : ty == 2 ? v.is_int64() : ty == 3 ? v.is_bool() : v.is_double(), "an accepted element has the type of its tag");
    if (ty < 2) iv = v.get_int(); else if (ty == 2) iv = v.get_int64(); else if (ty == 3) iv = v.get_bool(); else dv = v.get_double();
    ok = 1;
  } catch (const std::exception&) {
  }
  sym_check(sym_live_new() == live, "nothing is leaked by decoding a scalar");
  sym_log("ok", ok);
  if (ok) sym_log("v", iv);
  if (blank(t)) {
    if (ty == 3 || ty == 4 || !has_def) sym_check(!ok, "an empty scalar element is refused when no default is set");
    else { sym_check(ok, "an empty integer element takes the default"); sym_check(iv == (ty == 2 ? dl : di), "exactly the default is used"); }
    sym_cover("empty");
    return;
  }
  if (ty == 4) {
    double x = 0; int k = ref_double(t, x);
    if (k == 0 && (t.find('n') != std::string::npos || t.find('i') != std::string::npos)) { sym_cover("refused"); return; }   // spellings of inf and nan are not specified
    if (k == 0) { sym_check(!ok, "text that is not a number is refused"); sym_cover("refused"); }
    if (k == 1) { sym_check(ok, "a number is accepted"); sym_check(x == dv, "a double element has exactly the denoted value"); sym_cover("accepted"); }
    return;
  }
  __int128 n = 0;
  if (!ref_int(t, n)) { sym_check(!ok, "text that is not a number is refused"); sym_cover("refused"); return; }
  int inside = ty == 2 ? (n <= 9223372036854775807LL && n >= -(__int128)9223372036854775807LL - 1) : (n <= 2147483647 && n >= -(__int128)2147483648LL);
  if (!inside) { sym_check(!ok, "a number out of range is refused"); sym_cover("range"); return; }
  sym_check(ok, "a number is accepted");
  if (ok) sym_check(ty == 3 ? iv == (n != 0) : iv == (long)n, "an integer element has exactly the denoted value");
  sym_cover("accepted");
}
