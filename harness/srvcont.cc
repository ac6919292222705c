// H07: Expect: 100-continue.
#include "srv.h"

static int runs;
static void echo(Method* m, const Param_list& p, Value& r) { runs++; r = p.at(0); }

extern "C" void sym_main() {
  int nreq = sym_param("reqs", 2);
  Peer* p = new Peer[1];
  p->splits = sym_param("splits", 1); p->delays = sym_param("delays", 1);
  p->cuts = sym_param("cuts", 0); int min_cut = 0;
  std::vector<std::string> sent; std::vector<int> how; int must = 0, may = 0;
  for (int j = 0; j < nreq; j++) {
    // 0: waits for the interim reply, 1: header and body in separate packets, no waiting, 2: all at once, 3: no expectation, separate, 4: waits, body in two packets
    int h = pick(5, "how");
    std::string t = std::string(j == 0 ? sym_param("pad", 0) : 0, 'p') + letters(1, "text"), body = call_xml("echo", "<string>" + t + "</string>");
    std::string q = http_req(body, j + 1 < nreq, h == 3 ? "" : pick(2, "case") ? "Expect: 100-Continue\r\n" : "expect:100-continue\r\n");
    size_t hl = q.size() - body.size();
    if (!min_cut) min_cut = (int)hl - 5;
    sent.push_back(t); how.push_back(h);
    if (h == 2) { p->send(q); if (p->cuts) may++; }
    else {
      p->send(q.substr(0, hl));
      if (h == 0 || h == 4) { p->cont(); must++; }
      if (h == 1) may++;
      if (h == 4 || h == 1) { p->send(q.substr(hl, 20)); p->send(q.substr(hl + 20)); } else p->send(body);
    }
    p->reply();
  }
  SrvNet w(p, 1); net = &w; w.min_cut = min_cut; w.max_cut = min_cut + 7;
  runs = 0;
  long live = sym_live_new();
  Executors ef;
  {
    Served sv(iqnet::Inet_addr(3344), &ef); Server& s = *sv;
    w.srv = &s;
    if (sym_param("lim", 0)) s.set_max_request_sz(sym_param("lim", 0));
    register_method(s, "echo", echo);
    s.work();
    ef.stop();
  }
  sym_check(sym_live_new() == live, "nothing is leaked");
  sym_check(p->replies.size() == sent.size() && w.stray == 0 && runs == (int)sent.size(), "every request gets exactly one final reply");
  sym_check(p->parsed == p->got.size(), "nothing but replies is sent");
  sym_check(p->interim >= must && p->interim <= must + may, "every request that waits gets exactly one interim reply, others none");
  sym_check(p->closed, "the connection is closed after the last reply");
  for (size_t j = 0; j < p->replies.size(); j++) {
    sym_check(p->replies[j].code == 200 && p->replies[j].keep == (j + 1 < sent.size()), "the final reply has the mode that was asked for");
    sym_check(has(p->body(j), "<value><string>" + sent[j] + "</string></value>"), "the reply carries the result of its own request");
  }
  sym_log("interim", p->interim);
  sym_cover(must ? "interim" : "plain");
}
