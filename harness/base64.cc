// V01: base64 encoder/decoder.
#include "h.h"
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/value.h>
#include <boost/scoped_ptr.hpp>
#include <vector>
using namespace iqxmlrpc;
static int enc6(int v) {   // RFC 4648 table 1, without forking
  int r = sym_ite(v < 26, 'A' + v, 'a' + v - 26);
  r = sym_ite(v >= 52, '0' + v - 52, r);
  r = sym_ite(v == 62, '+', r);
  return sym_ite(v == 63, '/', r);
}
static int dec6(int c) {   // -1 when not in the alphabet, -2 '='
  int r = -1;
  r = sym_ite(in_range(c, 'A', 'Z'), c - 'A', r);
  r = sym_ite(in_range(c, 'a', 'z'), c - 'a' + 26, r);
  r = sym_ite(in_range(c, '0', '9'), c - '0' + 52, r);
  r = sym_ite(c == '+', 62, r);
  r = sym_ite(c == '/', 63, r);
  return sym_ite(c == '=', -2, r);
}
static void check_text(const std::string& d, const std::string& t) {
  size_t n = d.size();
  sym_check(t.size() == (n + 2) / 3 * 4, "encoded length");
  int ok = 1;
  for (size_t i = 0; i < n; i += 3) {
    unsigned a = (unsigned char)d[i], b = i + 1 < n ? (unsigned char)d[i + 1] : 0, c = i + 2 < n ? (unsigned char)d[i + 2] : 0;
    unsigned w = a << 16 | b << 8 | c;
    size_t o = i / 3 * 4;
    ok = sym_and(ok, t[o] == enc6(w >> 18));
    ok = sym_and(ok, t[o + 1] == enc6(w >> 12 & 63));
    ok = sym_and(ok, t[o + 2] == (i + 1 < n ? enc6(w >> 6 & 63) : '='));
    ok = sym_and(ok, t[o + 3] == (i + 2 < n ? enc6(w & 63) : '='));
  }
  sym_check(ok, "encoded text is the canonical base64 of the data");
}
static void encode() {
  long n = sym_param("len", 3), pre = sym_param("pre", 0);
  std::string d(pre, 'q');                       // a long beginning, then free bytes
  d += sym_str(n, "data"); n += pre;
  boost::scoped_ptr<Binary_data> b(n % 2 ? Binary_data::from_data(d) : Binary_data::from_data(d.data(), d.size()));
  sym_check(str_eq(b->get_data(), d), "raw data is kept");
  std::string t = b->get_base64();
  check_text(d, t);
  sym_check(str_eq(b->get_base64(), t), "asking twice gives the same text");
  Value v(*b);
  sym_check(str_eq(v.get_binary().get_data(), d), "a binary value keeps its data");
  sym_check(str_eq(v.get_binary().get_base64(), t), "a copied binary value keeps its text");
  if (sym_param("back", 1)) {
    boost::scoped_ptr<Binary_data> c;
    try { c.reset(Binary_data::from_base64(t)); } catch (const Binary_data::Malformed_base64&) { sym_fail("the library's own encoding is accepted"); }
    sym_check(str_eq(c->get_data(), d), "decoding the encoded text gives the data back");
  }
  sym_cover("encoded");
}
static void decode() {
  long n = sym_param("len", 4), cls = sym_param("cls", 0);
  const int pre = (int)sym_param("pre", 0);
  std::vector<char> bv(pre + n + 1); char* b = &bv[0];
  for (int i = 0; i < pre; i++) b[i] = i % 77 == 76 ? '\n' : "QUJD"[i % 4];
  sym_make(b + pre, n, "text"); n += pre;
  if (cls) for (int i = pre; i < n; i++) sym_assume(sym_or(in_range(b[i], 'A', 'Z'), sym_or(b[i] == '=', b[i] == ' ')));
  std::string s(b, n);
  bool ok = false;
  std::string d;
  try { boost::scoped_ptr<Binary_data> x(Binary_data::from_base64(s)); ok = true; d = x->get_data(); } catch (const Binary_data::Malformed_base64&) {}
  // reference, forking on white space only
  std::vector<int> qv(pre + n + 4); int* q = &qv[0]; int k = 0;
  for (int i = 0; i < n; i++) {
    int c = (unsigned char)b[i];
    if (sym_fork(sym_or(c == ' ', in_range(c, 9, 13)))) continue;
    q[k++] = dec6(c);
  }
  sym_log("ok", ok); sym_logb("data", d.data(), d.size());
  int valid = k % 4 == 0;
  int pad = k ? sym_ite(q[k - 1] == -2, sym_ite(q[k - 2 < 0 ? 0 : k - 2] == -2, 2, 1), 0) : 0;
  for (int i = 0; i < k; i++) valid = sym_and(valid, sym_or(q[i] >= 0, sym_and(q[i] == -2, i >= k - pad)));
  if (!ok) { sym_cover("malformed"); sym_check(!valid, "well-formed base64 text is accepted"); return; }
  sym_cover("decoded");
  sym_check(valid, "malformed base64 text is refused");
  sym_check((int)d.size() == k / 4 * 3 - pad, "decoded length");
  int same = 1;
  for (size_t i = 0; i < d.size(); i++) {
    int o = i / 3 * 4;
    unsigned w = (q[o] & 63) << 18 | (q[o + 1] & 63) << 12 | (q[o + 2] & 63) << 6 | (q[o + 3] & 63);
    same = sym_and(same, (unsigned char)d[i] == (w >> (16 - 8 * (i % 3)) & 255));
  }
  sym_check(same, "decoded bytes are those the text denotes");
}
extern "C" void sym_main() { if (sym_param("dec", 0)) decode(); else encode(); }
