// H02: the configured maximum request size.
#include "http.h"
using namespace iqxmlrpc;

// where a read may end: around the end of the header and at the end of the body
static size_t cut(size_t lo, size_t hl, size_t total) {
  size_t c[8]; int n = 0;
  for (size_t i = lo; i <= total; i++) if (i <= hl + 1 || i + 1 >= total) { if (n < 8) c[n++] = i; }
  return c[pick(n, "cut")] - lo;
}
// Feeds one request in up to three reads; true if it was delivered.
static bool one(http::Packet_reader& r, unsigned long M, bool endless, bool last) {
  std::string s = endless ? "POST / HTTP/1.0\r\nx-flood: aaaa" : "POST / HTTP/1.0\r\ncontent-length: %\r\n\r\n";
  int bl = 0;
  if (!endless) { static const int BL[] = { 0, 1, 2, 5, 9 }; bl = BL[last ? pick(5, "body length") : 2 * pick(2, "body length")]; s[s.find('%')] = '0' + bl; }
  size_t hl = s.size();
  s += endless ? std::string(6, 'b') : sym_str(bl, "body");
  size_t total = s.size(), pos = 0;
  Out o;
  bool happened = false;
  for (int k = last ? 0 : 1; k < 3 && !happened && pos < total; k++) {
    size_t lo = pos < hl - 3 ? hl - 3 : pos + 1;
    size_t next = k == 2 ? total : lo + cut(lo, hl, total);
    bool had_header = !endless && pos >= hl;
    happened = feed(r, s.substr(pos, next - pos), o);
    pos = next;
    bool refused = happened && o.kind == 2;
    if (refused) sym_check(o.code == 413, "an oversized request is refused with 413");
    if (pos >= M) sym_check(refused, "a request is refused as soon as the bytes read reach the limit");
    if (had_header && hl - 4 + bl >= M) sym_check(refused, "a declared length reaching the limit is refused when more arrives");
    if (refused && !endless) sym_check(total >= M, "a request below the limit is never refused");
    if (refused && endless) sym_check(pos >= M, "bytes below the limit are never refused");
    if (refused) sym_cover("refused");
  }
  if (!endless && !(happened && o.kind == 2)) {
    sym_check(happened && o.kind == 1, "a request below the limit is delivered");
    sym_check(total < M || M == 0, "an oversized request is never delivered");
    sym_cover("accepted");
    return true;
  }
  return false;
}

// any declared length against any limit: decided as soon as the body begins
static void declared() {
  http::Packet_reader r;
  unsigned M; sym_make(&M, sizeof M, "limit"); sym_assume(M >= 64);
  r.set_max_size(M);
  static const char* const base[] = { "", "0000000", "1000", "429496", "429496729", "4294967" };
  int n = sym_param("digits", 3);
  std::string s = "POST / HTTP/1.0\r\ncontent-length: ", b = base[pick(6, "leading digits")], num = sym_str(n, "length");
  unsigned long v = 0;
  for (size_t i = 0; i < b.size(); i++) v = v * 10 + (b[i] - '0');
  for (int i = 0; i < n; i++) { unsigned char c = num[i]; sym_assume(in_range(c, '0', '9')); v = v * 10 + (c - '0'); }
  s += b + num + "\r\n\r\n";
  size_t hl = s.size();
  Out o;
  bool happened = feed(r, s, o) || feed(r, "b", o);
  bool refused = happened && o.kind == 2;
  sym_check(!happened || refused || v <= 1, "a request is not delivered before its declared length arrived");
  if (v + hl - 4 >= M) { sym_check(refused, "any declared length reaching the limit is refused"); sym_cover("refused"); }
  else if (v + hl < M && v < 4294967296ul) { sym_check(!refused, "a request below the limit is never refused"); sym_cover("accepted"); }
}

extern "C" void sym_main() {
  if (sym_param("digits", 0)) { declared(); return; }
  http::Packet_reader r;
  unsigned long M = (unsigned long)sym_byte("limit") + 1;
  r.set_max_size(M);
  bool endless = sym_param("endless", 0);
  for (int n = sym_param("requests", 2); n > 0; n--) if (!one(r, M, endless && n == 1, n == 1)) break; else if (n == 1) sym_cover("several");
}
