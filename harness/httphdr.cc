// H03: header validation.
#include "http.h"
#include <string>
using namespace iqxmlrpc;

// the text with every letter in either case
static std::string anycase(const char* t) {
  std::string r;
  for (; *t; t++) {
    if ((*t >= 'a' && *t <= 'z')) { unsigned char c = sym_byte("case"); sym_assume(sym_or(c == (unsigned char)*t, c == (unsigned char)(*t - 32))); r += (char)c; }
    else r += *t;
  }
  return r;
}
static std::string blanks(int max) {
  std::string r; int n = pick(max + 1, "blanks");
  for (int i = 0; i < n; i++) { unsigned char c = sym_byte("blank"); sym_assume(sym_or(c == ' ', c == '\t')); r += (char)c; }
  return r;
}
static int is_sp(unsigned char c) { return sym_or(c == ' ', sym_and(c >= 9, c <= 13)); }
static unsigned char visible(const char* n) { unsigned char c = sym_byte(n); sym_assume(!is_sp(c)); return c; }
static std::string word(int n, const char* nm) { std::string r; for (int i = 0; i < n; i++) r += (char)visible(nm); return r; }
static int lower(unsigned char c) { return (int)sym_ite(sym_and(c >= 'A', c <= 'Z'), c + 32, c); }
static int matches(const std::string& s, const char* t) {      // equal ignoring case, whole string
  size_t n = strlen(t); if (s.size() != n) return 0;
  int r = 1; for (size_t i = 0; i < n; i++) r = sym_and(r, lower((unsigned char)s[i]) == (unsigned char)t[i]);
  return r;
}

static const char* EOL = "\r\n";
static Out run(const std::string& head, const std::string& lines, bool strict, const std::string& body = "") {
  Out o; http::Packet_reader r;
  if (strict) r.set_verification_level(http::HTTP_CHECK_STRICT);
  std::string s = head; s += EOL; s += lines; s += EOL; s += body;
  feed(r, s, o);
  sym_log("kind", o.kind); sym_log("code", o.code);
  return o;
}
static bool refused(const Out& o, int code) { return o.kind == 2 && (o.code == code || (code == 400 && o.code == 0)); }

extern "C" void sym_main() {
  if (sym_param("lf", 0)) EOL = "\n";
  bool strict = sym_param("strict", 0);
  std::string e(EOL), len = "content-length: 0" + e;
  switch (sym_param("mode", 0)) {
    case 0: {                      // names in any case, blanks around names and values
      std::string v = word(2, "value"), h = word(1, "host");
      sym_assume(v[0] != '\r' && v[1] != '\n');
      if (pick(2, "inner")) { unsigned char c = sym_byte("inner byte"); sym_assume(sym_and(c != '\r', c != '\n')); v = v.substr(0, 1) + (char)c + v.substr(1); }
      std::string b1 = blanks(1), b2 = blanks(2);
      std::string l = b1 + anycase("content-length") + b2 + ":" + b1 + "1" + b2 + e + "X-" + anycase("ab") + b1 + ":" + blanks(1) + v + blanks(1) + e +
                      "Host:" + h + e;
      Out o = run("POST /x HTTP/1.0", l, strict, "q");
      sym_check(o.kind == 1 && o.len == 1 && o.body == "q", "a header with any case and blanks is understood");
      sym_check(o.xh.size() == 1 && o.xh.begin()->first == "x-ab" && str_eq(o.xh.begin()->second, v), "the value is unchanged apart from surrounding blanks");
      sym_check(str_eq(o.host, h), "the host is unchanged");
      sym_cover("accepted");
      break;
    }
    case 1: {                      // the Content-Length value
      int n = sym_param("n", 2);
      std::string v = word(n, "length");
      int digits = 1; uint64_t val = 0;
      for (int i = 0; i < n; i++) { unsigned char c = v[i]; digits = sym_and(digits, sym_and(c >= '0', c <= '9')); val = val * 10 + (c - '0'); }
      if (sym_param("big", 0)) { sym_assume(digits); v = "42949" + v; val += 42949ull * (n == 5 ? 100000 : n == 6 ? 1000000 : 10000); }
      Out o; http::Packet_reader r;
      bool got = feed(r, "POST / HTTP/1.0" + e + "Content-Length: " + v + e + e, o);
      sym_log("kind", o.kind);
      if (n == 0) { sym_check(refused(o, 400), "an empty Content-Length is refused"); sym_cover("refused"); break; }
      int ok = sym_and(digits, val <= 0xffffffffull);
      if (got && o.kind == 2) { sym_check(!ok, "a Content-Length in range is accepted"); sym_check(refused(o, 400), "a bad Content-Length is refused with 400"); sym_cover("refused"); }
      else {
        sym_check(ok, "a Content-Length that is not a plain number in range is refused");
        sym_check(got == (o.kind == 1), "no other outcome");
        if (got) sym_check(val == 0, "a packet with a body waits for it"); else sym_check(val != 0, "a packet without body is delivered");
        sym_cover("accepted");
      }
      break;
    }
    case 2: {                      // a line without colon
      int n = 1 + pick(3, "n");
      std::string w = word(n, "line");
      int colon = 0; for (int i = 0; i < n; i++) colon = sym_or(colon, w[i] == ':');
      Out o = run("POST / HTTP/1.0", len + w + e, strict);
      if (sym_fork(colon)) { sym_check(o.kind == 1, "a line with a colon is accepted"); sym_cover("accepted"); }
      else { sym_check(refused(o, 400), "a line without colon is refused with 400"); sym_cover("refused"); }
      break;
    }
    case 3: {                      // the method
      int n = 3 + pick(3, "n");
      std::string m = word(n, "method");
      Out o = run(m + " /x HTTP/1.0", len, strict);
      if (sym_fork(str_eq(m, "POST"))) { sym_check(o.kind == 1 && o.uri == "/x", "POST is accepted"); sym_cover("accepted"); }
      else { sym_check(refused(o, 405), "any other method is refused with 405"); sym_cover("refused"); }
      break;
    }
    case 4: {                      // missing Content-Length
      std::string nm = word(2, "name"); sym_assume(nm[0] != ':' && nm[1] != ':');
      Out o = run("POST /x HTTP/1.0", pick(2, "some") ? nm + ": 1" + e : std::string("Host: a") + e, strict);
      sym_check(refused(o, 411), "a missing Content-Length is refused with 411");
      sym_cover("refused");
      break;
    }
    case 5: {                      // expectations
      std::string x = "100-continue";
      int k = sym_param("len", 12), m = 0;
      if (k <= 12) { x = x.substr(0, 12 - sym_param("free", 4)); while ((int)x.size() < k) x += (char)visible("expect"); }
      else x += word(k - 12, "expect");
      m = matches(x, "100-continue");
      Out o = run("POST /x HTTP/1.0", len + anycase("expect") + ":" + x + e, strict);
      if (k < 12) { sym_check(refused(o, 417), "an unknown expectation is refused with 417"); sym_cover("refused"); }
      else if (k == 12 && sym_fork(m)) { sym_check(o.kind == 1 && o.expect, "100-continue is accepted in any case"); sym_cover("accepted"); }
      else if (k == 12) { sym_check(refused(o, 417), "an unknown expectation is refused with 417"); sym_cover("refused"); }
      break;
    }
    case 6: {                      // content type
      std::string t = "text/xml";
      int p = pick(8, "where"), q = pick(8, "where2");
      t[p] = (char)visible("type"); t[q] = (char)visible("type2");
      if (sym_param("param", 0)) t += "; charset=utf-8";
      Out o = run("POST /x HTTP/1.0", len + anycase("content-type") + ": " + t + e, strict);
      int m = 1; static const char T[] = "text/xml"; for (int i = 0; i < 8; i++) m = sym_and(m, lower((unsigned char)t[i]) == (unsigned char)T[i]);
      if (sym_or(!strict, sym_fork(m))) { sym_check(o.kind == 1, strict ? "text/xml is accepted in any case" : "the content type is not checked unless asked for"); sym_cover("accepted"); }
      else { sym_check(refused(o, 415), "another content type is refused with 415"); sym_cover("refused"); }
      break;
    }
    case 8: {                      // a header given twice: every occurrence counts
      static const char* const good[] = { "Content-Length: 0", "content-type: text/xml", "Expect: 100-continue" };
      static const char* const bad[] = { "content-length: -1", "Content-Type: text/html", "EXPECT: magic" };
      static const int code[] = { 400, 415, 417 };
      int k = pick(3, "which"), first = pick(2, "first"), bads = pick(2, "bad");
      std::string other = k ? len : std::string(), b = (bads ? bad[k] : good[k]) + e, g = good[k] + e, mid = pick(2, "between") ? "Host: h" + e : std::string();
      Out o = run("POST /x HTTP/1.0", other + (first ? b + mid + g : g + mid + b), strict);
      if (!bads || (k == 1 && !strict)) { sym_check(o.kind == 1, "a repeated acceptable header is accepted"); sym_cover("accepted"); }
      else { sym_check(refused(o, code[k]), "a repeated header is refused if any of its values is unacceptable"); sym_cover("refused"); }
      break;
    }
    case 9: {                      // a name that is nearly one the library knows means nothing
      static const char* const N[] = { "content-length", "content-type", "expect", "connection", "authorization", "user-agent", "host" };
      static const char* const V[] = { "77", "text/html", "magic", "keep-alive", "Basic YTpi", "someone", "there" };
      int k = pick(7, "which"); std::string nm = N[k];
      int at = pick((int)nm.size(), "where"), how = pick(2, "how");
      unsigned char c = visible("name"); sym_assume(c != ':');
      if (how) nm.insert(at, 1, (char)c); else nm[at] = (char)c;
      sym_assume(!matches(nm, N[k]));
      Out o = run("POST /x HTTP/1.0", (pick(2, "first") ? nm + ": " + V[k] + e + len : len + nm + ": " + V[k] + e), strict);
      sym_check(o.kind == 1 && o.len == 0 && !o.keep && !o.expect && !o.auth && o.host == "" && o.agent == "unknown", "a header with another name has no effect");
      sym_cover("accepted");
      break;
    }
    case 10: {                     // long headers and many headers
      int n = sym_param("n", 300), lines = sym_param("lines", 1);
      std::string l, u = word(1, "uri"), a = word(1, "agent");
      for (int i = 0; i < lines; i++) l += "X-H" + std::string(1, 'a' + i / 26) + std::string(1, 'a' + i % 26) + ": " + std::string(n, 'v') + e;
      Out o = run("POST /" + std::string(n, 'u') + u + " HTTP/1.0", l + "Host: " + std::string(n, 'h') + e + "User-Agent: " + std::string(n, 'g') + a + e + "connection: keep-alive" + e + "Content-Length: 2" + e, strict, "ab");
      sym_check(o.kind == 1 && o.len == 2 && o.body == "ab" && o.keep, "a long header is understood");
      sym_check(str_eq(o.uri, "/" + std::string(n, 'u') + u) && o.host == std::string(n, 'h') && str_eq(o.agent, std::string(n, 'g') + a), "long values are unchanged");
      int ok = o.xh.size() == (size_t)lines;
      for (std::map<std::string, std::string>::iterator i = o.xh.begin(); i != o.xh.end(); ++i) ok = ok && i->second.size() == (size_t)n;
      sym_check(ok, "every header is reported");
      sym_cover("accepted");
      break;
    }
    case 7: {                      // keep-alive, agent, URI
      std::string u = word(2, "uri"), a = word(2, "agent");
      bool k = pick(2, "keep");
      std::string l = len + anycase("connection") + ": " + (k ? "keep-alive" : "close") + e + "user-agent: " + a + e;
      Out o = run("POST " + u + " HTTP/1.0", l, strict);
      sym_check(o.kind == 1 && str_eq(o.uri, u) && str_eq(o.agent, a) && o.keep == (int)k && !o.expect && !o.auth && o.xh.empty(), "all values are reported unchanged");
      Out d = run("POST / HTTP/1.0", len, strict);
      sym_check(d.kind == 1 && !d.keep && d.host == "" && d.agent == "unknown", "values that were not sent have their defaults");
      sym_cover("accepted");
      break;
    }
  }
}
