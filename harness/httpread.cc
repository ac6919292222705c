// H01: the packet (or error) does not depend on how the bytes are split.
#include "http.h"
#include <vector>
using namespace iqxmlrpc;

static const char* PRE[] = {
  "POST /a HTTP/1.0\r\ncontent-length: 3\r\n",
  "POST /a HTTP/1.0\ncontent-length:2\nx-a: b",
  "POST /a HTTP/1.0\r\ncontent-length: 1\r\n\r\n",
  "POST",
  "",
  "POST / HTTP/1.0\nContent-Length:4\nconnection: keep-alive\n",
};
static const char* RPRE[] = { "HTTP/1.1 200 OK\r\ncontent-length: 3\r\n", "HTTP/1.1 5", "HTTP/1.0 200\ncontent-length: 2\nx-q:", "" };

// bytes with a special meaning to HTTP, plus ordinary ones
static unsigned char cls_byte(const char* name, int cls) {
  unsigned char c = sym_byte(name);
  if (cls == 1) sym_assume(sym_or(sym_or(c == '\r', c == '\n'), c == 'b'));
  if (cls == 2) sym_assume(sym_or(sym_or(sym_or(c == '\r', c == '\n'), sym_or(c == ':', c == ' ')), sym_or(c == 'b', c == '1')));
  return c;
}

// Any continuation of a given beginning, in one piece and in two or three.
static void differential(bool resp) {
  int pre = sym_param("pre", 0), n = sym_param("n", 5), cuts = sym_param("cuts", 1);
  std::string s = resp ? RPRE[pre] : PRE[pre];
  size_t base = s.size();
  for (int i = 0; i < n; i++) s += (char)cls_byte("b", sym_param("cls", 0));
  size_t lo = base > 2 ? base - 2 : 1;
  size_t c1 = lo + pick(s.size() - lo, "cut1");
  size_t c2 = s.size();
  if (cuts == 2) { c2 = c1 + 1 + pick(s.size() - lo, "cut2"); if (c2 > s.size()) sym_stop(); }
  Out w, f;
  long live = sym_live_new();
  {
    http::Packet_reader rw, rf;
    feed(rw, s, w, resp);
    if (!feed(rf, s.substr(0, c1), f, resp) && !feed(rf, s.substr(c1, c2 - c1), f, resp) && c2 < s.size()) feed(rf, s.substr(c2), f, resp);
    sym_check(same(w, f), "the outcome does not depend on how the bytes were split");
  }
  if (w.kind == 1) sym_cover(resp ? "rpacket" : "packet"); else if (w.kind == 2) sym_cover(resp ? "rerror" : "error"); else sym_cover(resp ? "rpartial" : "partial");
  sym_log("kind", w.kind); sym_log("code", w.code); sym_logb("body", w.body.data(), w.body.size());
  (void)live;
}

// A known message: delivered exactly when complete, with exactly its bytes.
static void exact(bool resp) {
  static const char* H[] = { "POST /u HTTP/1.0\r\nX-k: v\r\ncontent-length: %\r\n\r\n", "POST /u HTTP/1.1\nContent-Length:%\nX-k: v\n\n", "POST /u HTTP/1.0\r\nCONTENT-length:   %  \r\nx-K:v\r\n\r\n" };
  static const char* RH[] = { "HTTP/1.1 200 OK\r\nX-k: v\r\ncontent-length: %\r\n\r\n", "HTTP/1.1 200 OK\nContent-Length:%\nX-k: v\n\n" };
  int bl = pick(4, "body length");
  std::string s = resp ? RH[pick(2, "header")] : H[pick(3, "header")];
  const int hpad = (int)sym_param("hpad", 0), bpad = (int)sym_param("bpad", 0);    // a long header, a long body
  char num[16]; sprintf(num, "%d", bl + bpad);
  s.replace(s.find('%'), 1, num);
  if (hpad) s.insert(s.find('\n') + 1, (resp ? "Server: " : "user-agent: ") + std::string(hpad, 'a') + "\r\n");
  size_t hl = s.size();
  std::string body = std::string(bpad, 'b') + sym_str(bl, "body"); bl += bpad;
  s += body;
  size_t total = s.size(), from = sym_param("all", 0) ? 1 : bpad && !hpad ? total - 5 : hl - 5;
  // up to three reads, then everything else
  Out o; http::Packet_reader r; size_t pos = 0; bool done = false;
  for (int k = 0; k < 3 && !done; k++) {
    size_t next = k == 2 ? total : (pos < from ? from : pos + 1) + pick(total - (pos < from ? from : pos + 1) + 1, "cut");
    if (next > total) next = total;
    if (next == pos) break;
    done = feed(r, s.substr(pos, next - pos), o, resp);
    pos = next;
    sym_check(done == (pos == total), "a packet is delivered exactly when its last byte arrived");
    if (pos == total) break;
  }
  sym_check(o.kind == 1, "a complete packet is delivered");
  sym_check(str_eq(o.body, body), "the body is exactly the declared bytes");
  sym_check(o.len == (unsigned)bl, "the declared length is reported");
  if (hpad && !resp) sym_check(o.agent.size() == (size_t)hpad, "a long header field is reported unchanged");
  sym_check(o.xh.size() == 1 && o.xh.count("x-k") && o.xh["x-k"] == "v", "header fields are reported unchanged");
  if (!resp) sym_check(o.uri == "/u", "the URI is reported unchanged"); else sym_check(o.code == 200 && o.uri == "OK", "status and phrase are reported unchanged");
  // the next message on the same reader is unaffected by the first
  std::string t = resp ? "HTTP/1.1 404 No\r\ncontent-length: 1\r\n\r\n" : "POST /v HTTP/1.0\r\ncontent-length: 1\r\n\r\n";
  unsigned char b = sym_byte("next");
  Out q;
  bool d1 = feed(r, t, q, resp);
  sym_check(!d1, "the next packet waits for its own body");
  feed(r, std::string(1, (char)b), q, resp);
  sym_check(q.kind == 1 && q.body.size() == 1 && (unsigned char)q.body[0] == b && q.xh.empty() && q.uri == (resp ? "No" : "/v"), "the next packet has only its own contents");
  sym_cover(resp ? "rexact" : "exact");
  sym_logb("body", o.body.data(), o.body.size());
}

extern "C" void sym_main() {
  int mode = sym_param("mode", 0);
  bool resp = sym_param("resp", 0);
  if (mode == 0) differential(resp); else exact(resp);
}
