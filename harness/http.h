// Reading HTTP packets through the library's reader and noting what came out.
#pragma once
#include "h.h"
#include "libiqxmlrpc/http.h"
#include "libiqxmlrpc/http_errors.h"
#include <memory>
using namespace iqxmlrpc;
struct Out {
  int kind;                  // 0 nothing yet, 1 packet, 2 error
  int code;                  // HTTP status of an error response, 0: malformed, -1: other
  size_t at;                 // bytes fed when it happened
  std::string body, uri, host, agent;
  unsigned len; int keep, expect, auth;
  std::map<std::string, std::string> xh;
  Out() : kind(0), code(0), at(0), len(0), keep(0), expect(0), auth(0) {}
};
inline void note(Out& o, http::Packet* p, bool resp) {
  o.kind = 1; o.body = p->content(); o.len = p->header()->content_length(); o.keep = p->header()->conn_keep_alive(); o.expect = p->header()->expect_continue();
  XHeaders xh; xh["X-stale"] = "1"; p->header()->get_xheaders(xh);       // replaces what was there
  for (XHeaders::const_iterator i = xh.begin(); i != xh.end(); ++i) o.xh[i->first] = i->second;
  if (resp) { const http::Response_header* h = dynamic_cast<const http::Response_header*>(p->header()); o.code = h->code(); o.uri = h->phrase(); o.host = h->server(); }
  else { const http::Request_header* h = dynamic_cast<const http::Request_header*>(p->header()); o.uri = h->uri(); o.host = h->host(); o.agent = h->agent(); o.auth = h->has_authinfo(); }
}
// feeds one piece; returns true when something happened
inline bool feed(http::Packet_reader& r, const std::string& s, Out& o, bool resp = false) {
  o.at += s.size();
  try {
    std::unique_ptr<http::Packet> p(resp ? r.read_response(s, false) : r.read_request(s));
    if (!p.get()) return false;
    note(o, p.get(), resp);
  }
  catch (const http::Error_response& e) { o.kind = 2; o.code = e.response_header()->code(); }
  catch (const http::Malformed_packet&) { o.kind = 2; o.code = 0; }
  catch (const std::exception&) { o.kind = 2; o.code = -1; }
  return true;
}
inline bool same_map(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
  if (a.size() != b.size()) return false;
  std::map<std::string, std::string>::const_iterator i = a.begin(), j = b.begin();
  for (; i != a.end(); ++i, ++j) if (!str_eq(i->first, j->first) || !str_eq(i->second, j->second)) return false;
  return true;
}
inline bool same(const Out& a, const Out& b) {
  if (a.kind != b.kind || a.code != b.code) return false;
  if (a.kind != 1) return true;
  return str_eq(a.body, b.body) && str_eq(a.uri, b.uri) && str_eq(a.host, b.host) && str_eq(a.agent, b.agent) && a.len == b.len && a.keep == b.keep &&
    a.expect == b.expect && a.auth == b.auth && same_map(a.xh, b.xh);
}
