// S01: every request on a connection gets its own complete reply.
#include "srv.h"

static int runs;
static void echo(Method* m, const Param_list& p, Value& r) { { World w; runs++; } r = p.at(0); }

static std::string expected(const std::string& s) { return "<value><string>" + s + "</string></value>"; }

extern "C" void sym_main() {
  int np = sym_param("peers", 1), nreq = sym_param("reqs", 2);
  Peer* peers = new Peer[np + 1]; bool bad_complete = false;
  std::vector<std::string> sent[4]; std::vector<char> keep[4];
  int bad = sym_param("bad", 0);      // an extra peer that breaks off: 1 closes, 2 resets, anywhere in its request or before its reply
  if (bad) {
    std::string q = http_req(call_xml("echo", "<string>z</string>"), pick(2, "keep"));
    size_t at = pick(6, "breaks off");
    static const size_t where[] = { 0, 1, 19, 60, 150, 1000 };
    if (where[at]) peers[np].send(q.substr(0, where[at]));
    if (bad == 1) peers[np].close(); else peers[np].vanish();
    bad_complete = where[at] >= q.size();
    if (bad_complete && bad == 1) { peers[np].script.pop_back(); peers[np].reply().close(); }
  }
  for (int i = 0; i < np; i++) {
    peers[i].cuts = sym_param("cuts", 1); peers[i].splits = sym_param("splits", 1);
    for (int j = 0; j < nreq; j++) {
      bool k = pick(2, "keep");
      std::string t = std::string(sym_param("big", 0), 'x') + letters(1, "text");
      sent[i].push_back(t); keep[i].push_back(k);
      peers[i].send(http_req(call_xml("echo", "<string>" + t + "</string>"), k)).reply();
      if (!k) break;
    }
    if (keep[i].back()) peers[i].close();
  }
  SrvNet w(peers, np + (bad ? 1 : 0)); w.any_subset = sym_param("subset", 0); net = &w;
  w.min_cut = sym_param("mincut", 0);
  long live = 0;
  runs = 0;
  for (int round = 0; round < 1; round++) {
    live = sym_live_new();
    Executors ef;
    {
      Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
      w.srv = &s;
      register_method(s, "echo", echo);
      s.work();
      ef.stop();
    }
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  int total = 0;
  for (int i = 0; i < np; i++) {
    Peer& p = peers[i];
    total += sent[i].size();
    sym_check(p.replies.size() == sent[i].size() && w.stray == 0, "every request gets exactly one reply");
    sym_check(p.parsed == p.got.size(), "nothing but replies is sent");
    sym_check(p.closed && w.f[p.fd - Net::BASE].closes == 1, "the connection is closed exactly once");
    for (size_t j = 0; j < p.replies.size(); j++) {
      sym_check(p.replies[j].code == 200, "a call is answered with 200");
      sym_check(p.replies[j].keep == (bool)keep[i][j], "the reply names the connection mode that was asked for");
      std::string want = expected(sent[i][j]), b = p.body(j); size_t at = b.find("<value><string>");
      sym_check(at != std::string::npos && at + want.size() <= b.size() && sym_memeq(b.data() + at, want.data(), want.size()), "the reply carries the result of its own request");
      sym_logb("body", b.data(), b.size());
    }
  }
  if (bad) {
    Peer& p = peers[np];
    total += bad_complete;
    sym_check(p.closed && w.f[p.fd - Net::BASE].closes == 1, "a connection its peer broke off is closed exactly once");
    sym_check(p.replies.size() <= (bad_complete ? 1u : 0u), "an incomplete request is not answered");
    sym_cover("broken");
  }
  sym_check(runs == total, "every request runs its method once");
  sym_check(w.open_count() == 0, "every socket of the server is closed");
  sym_cover("served");
}
