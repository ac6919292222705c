// X03, X04: element sequences.  A document is a fixed well-formed prefix followed
// by free tokens; everything still open is closed at the end.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/request.h>
#include <libiqxmlrpc/response.h>
#include <boost/scoped_ptr.hpp>
#include <stdexcept>
#include <vector>
using namespace iqxmlrpc;
struct Node { std::string tag, text; std::vector<Node*> kids; int texts; Node(const std::string& t) : tag(t), texts(0) {} ~Node() { for (size_t i = 0; i < kids.size(); i++) delete kids[i]; } };
struct Doc { std::string s; Node top; std::vector<Node*> st; int junk; Doc() : top(""), junk(0) { st.push_back(&top); } };
static int is_blank(const std::string& t) { return t.find_first_not_of(" \n") == std::string::npos; }
static void open(Doc& d, const char* t) { d.s += "<"; d.s += t; d.s += ">"; Node* n = new Node(t); d.st.back()->kids.push_back(n); d.st.push_back(n); }
static void close(Doc& d) { if (d.st.size() == 1) { d.s += "</x>"; d.junk = 1; return; } d.s += "</" + d.st.back()->tag + ">"; d.st.pop_back(); }
static void text(Doc& d, const char* t) { d.s += t; if (d.st.size() == 1) { if (!is_blank(t)) d.junk = 1; return; } Node* n = d.st.back(); n->text += t; n->texts |= 1 << n->kids.size(); }
static void leaf(Doc& d, const char* t, const char* x) { open(d, t); text(d, x); close(d); }
static void empty(Doc& d, const char* t) { d.s += "<"; d.s += t; d.s += "/>"; d.st.back()->kids.push_back(new Node(t)); }
static void value_int(Doc& d, const char* x) { open(d, "value"); leaf(d, "int", x); close(d); }
static void member(Doc& d, const char* n, const char* ty, const char* x) { open(d, "member"); leaf(d, "name", n); open(d, "value"); leaf(d, ty, x); close(d); close(d); }
// an element with any name of the given length
static void any(Doc& d, int len) {
  std::string t = sym_str(len, "tag");
  for (int i = 0; i < len; i++) { unsigned char c = t[i]; int ok = sym_or(in_range(c, 'a', 'z'), in_range(c, 'A', 'Z')); sym_assume(i ? sym_or(ok, sym_or(in_range(c, '0', '9'), c == '.')) : ok); }
  open(d, t.c_str());
}
static void token(Doc& d, int resp) {
  // the lengths of all XML-RPC element names
  static const int lens[] = { 2, 3, 4, 5, 6, 7, 10, 16, 14 };
  int nl = resp ? 9 : 8, k = pick(nl + 8 + (resp ? 6 : 0), "tok");
  if (k < nl) { any(d, lens[k]); return; }
  switch (k - nl) {
  case 0: close(d); break;
  case 1: text(d, "7"); break;
  case 2: text(d, " "); break;
  case 3: text(d, "x"); break;
  case 4: value_int(d, "5"); break;
  case 5: empty(d, "value"); break;
  case 6: member(d, "k", "int", "3"); break;
  case 7: leaf(d, "name", "q"); break;
  case 8: member(d, "faultCode", "int", "-4"); break;
  case 9: member(d, "faultCode", "string", "4"); break;
  case 10: member(d, "faultString", "string", "oops"); break;
  case 11: member(d, "faultString", "int", "4"); break;
  case 12: empty(d, "nil"); break;
  default: close(d); close(d); break;
  }
}
enum { OK, REFUSE, ANY };
static int worse(int a, int b) { return a == REFUSE || b == REFUSE ? REFUSE : a == ANY || b == ANY ? ANY : OK; }
static int value(Node* n, Value_type*& out);
// text of an element that must not have element children
static int scalar(Node* n) { return n->kids.empty() ? OK : REFUSE; }
static int stray(Node* n) { return is_blank(n->text) ? OK : ANY; }
static int list_(Node* n, Array& a) {
  int r = stray(n);
  for (size_t i = 0; i < n->kids.size(); i++) {
    if (n->kids[i]->tag != "value") return REFUSE;
    Value_type* v = 0; r = worse(r, value(n->kids[i], v));
    if (r == OK) { Value_ptr p(new Value(v)); a.push_back(p); } else delete v;
  }
  return r;
}
static int value(Node* n, Value_type*& out) {
  if (n->kids.empty()) { out = new String(is_blank(n->text) ? "" : n->text); return OK; }
  if (n->kids.size() > 1 || !is_blank(n->text)) return REFUSE;
  Node* k = n->kids[0];
  const std::string& t = k->tag;
  const int num = !is_blank(k->text) && k->text.find_first_not_of("0123456789-") == std::string::npos, n10 = num ? atoi(k->text.c_str()) : 0;
  if (t == "int" || t == "i4" || t == "i8" || t == "boolean" || t == "double") {
    if (scalar(k) == REFUSE || !num) return REFUSE;
    if (t == "i8") out = new Int64(n10); else if (t == "boolean") out = new Bool(n10 != 0); else if (t == "double") out = new Double(n10); else out = new Int(n10);
    return OK;
  }
  if (t == "dateTime.iso8601") return REFUSE;          // no document here has a valid date
  if (t == "base64") {
    if (scalar(k) == REFUSE) return REFUSE;
    if (!is_blank(k->text)) return ANY;                // V01
    out = Binary_data::from_data(""); return OK;
  }
  if (t == "string") { if (scalar(k) == REFUSE) return REFUSE; out = new String(k->text); return OK; }
  if (t == "nil") { if (scalar(k) == REFUSE || !is_blank(k->text)) return REFUSE; out = new Nil(); return OK; }
  if (t == "array") {
    Array* a = new Array; int r = stray(k);
    if (k->kids.empty()) r = worse(r, OK);
    else if (k->kids[0]->tag != "data") r = REFUSE;
    else r = worse(r, k->kids.size() > 1 ? REFUSE : list_(k->kids[0], *a));
    if (r == OK) out = a; else delete a;
    return r;
  }
  if (t == "struct") {
    Struct* s = new Struct; int r = stray(k);
    for (size_t i = 0; i < k->kids.size(); i++) {
      Node* m = k->kids[i];
      r = worse(r, stray(m));
      if (m->tag != "member" || m->kids.size() != 2 || m->kids[0]->tag != "name" || m->kids[1]->tag != "value") { r = REFUSE; continue; }
      if (!m->kids[0]->kids.empty()) { r = REFUSE; continue; }
      Value_type* v = 0; int q = value(m->kids[1], v);
      r = worse(r, q);
      if (q == OK) { Value_ptr p(new Value(v)); if (s->has_field(m->kids[0]->text)) r = worse(r, ANY); else s->insert(m->kids[0]->text, p); } else delete v;
    }
    if (r == OK) out = s; else delete s;
    return r;
  }
  return REFUSE;
}
static int request(Node* top, std::string& name, Array& ps) {
  if (top->kids.size() != 1 || top->kids[0]->tag != "methodCall") return REFUSE;
  Node* c = top->kids[0];
  int r = stray(c);
  if (c->kids.empty() || c->kids.size() > 2 || c->kids[0]->tag != "methodName" || !c->kids[0]->kids.empty()) return REFUSE;
  name = c->kids[0]->text;
  if (c->kids.size() == 1) return r;
  if (c->kids[1]->tag != "params") return REFUSE;
  r = worse(r, stray(c->kids[1]));
  for (size_t i = 0; i < c->kids[1]->kids.size(); i++) {
    Node* p = c->kids[1]->kids[i];
    if (p->tag != "param" || p->kids.size() != 1 || p->kids[0]->tag != "value") return REFUSE;
    r = worse(r, stray(p));
    Value_type* v = 0; int q = value(p->kids[0], v);
    if (q == OK) { Value_ptr x(new Value(v)); ps.push_back(x); } else delete v;
    r = worse(r, q);
  }
  return r;
}
static int response(Node* top, Value_type*& res, int& code, std::string& str, int& fault) {
  fault = 0;
  if (top->kids.size() != 1 || top->kids[0]->tag != "methodResponse") return REFUSE;
  Node* c = top->kids[0];
  int r = stray(c);
  if (c->kids.size() != 1) return REFUSE;
  Node* p = c->kids[0];
  r = worse(r, stray(p));
  if (p->tag == "params") {
    if (p->kids.size() != 1 || p->kids[0]->tag != "param") return REFUSE;
    Node* q = p->kids[0];
    r = worse(r, stray(q));
    if (q->kids.size() != 1 || q->kids[0]->tag != "value") return REFUSE;
    return worse(r, value(q->kids[0], res));
  }
  if (p->tag != "fault") return REFUSE;
  if (p->kids.size() != 1 || p->kids[0]->tag != "value") return REFUSE;
  Value_type* v = 0; int q = value(p->kids[0], v);
  if (q == OK) {
    Value f(v);
    if (!f.is_struct() || f.the_struct().size() != 2 || !f.has_field("faultCode") || !f.has_field("faultString") || !f["faultCode"].is_int() || !f["faultString"].is_string()) return REFUSE;
    fault = 1; code = f["faultCode"].get_int(); str = f["faultString"].get_string();
  }
  return worse(r, q);
}
static int eq(const Value& a, const Value& b) {
  if (a.type_name() != b.type_name()) return 0;
  if (a.is_int()) return a.get_int() == b.get_int();
  if (a.is_int64()) return a.get_int64() == b.get_int64();
  if (a.is_bool()) return a.get_bool() == b.get_bool();
  if (a.is_double()) return a.get_double() == b.get_double();
  if (a.is_binary()) return a.get_binary().get_data() == b.get_binary().get_data();
  if (a.is_string()) return a.get_string() == b.get_string();
  if (a.is_array()) { if (a.size() != b.size()) return 0; for (size_t i = 0; i < a.size(); i++) if (!eq(a[(int)i], b[(int)i])) return 0; return 1; }
  if (a.is_struct()) {
    const Struct &s = a.the_struct(), &t = b.the_struct();
    if (s.size() != t.size()) return 0;
    Struct::const_iterator j = t.begin();
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i, ++j) if (i->first != j->first || !eq(*i->second, *j->second)) return 0;
  }
  return 1;
}
static void prefix(Doc& d, int c, int resp) {
  if (resp) {
    static const char* const p[][6] = { { 0 }, { "methodResponse", 0 }, { "methodResponse", "params", 0 }, { "methodResponse", "params", "param", 0 }, { "methodResponse", "params", "param", "value", 0 },
      { "methodResponse", "fault", 0 }, { "methodResponse", "fault", "value", 0 }, { "methodResponse", "fault", "value", "struct", 0 } };
    if (c < 8) { for (int i = 0; p[c][i]; i++) open(d, p[c][i]); return; }
    open(d, "methodResponse");
    if (c < 11) { open(d, "params"); open(d, "param"); value_int(d, "5"); if (c > 8) close(d); if (c > 9) close(d); return; }
    open(d, "fault"); open(d, "value"); open(d, "struct"); member(d, "faultCode", "int", "-4"); member(d, "faultString", "string", "oops");
    for (; c > 11; c--) close(d);
    return;
  }
  if (c == 0) return;
  open(d, "methodCall");
  if (c == 1) return;
  if (c == 13) { open(d, "methodName"); text(d, "m"); return; }
  leaf(d, "methodName", "m");
  if (c == 2) return;
  open(d, "params"); if (c == 3) return;
  if (c == 14 || c == 15) { open(d, "param"); value_int(d, "5"); close(d); if (c == 15) close(d); return; }
  open(d, "param"); if (c == 4) return;
  open(d, "value"); if (c == 5) return;
  if (c == 6) { open(d, "int"); return; }
  if (c == 16) { leaf(d, "int", "5"); return; }
  if (c == 17) { text(d, "x"); return; }
  if (c == 18 || c == 19) { open(d, "array"); open(d, "data"); value_int(d, "5"); if (c == 18) return; close(d); close(d); return; }
  if (c == 20) { open(d, "array"); open(d, "data"); open(d, "value"); leaf(d, "int", "5"); return; }
  if (c == 7) { open(d, "array"); return; }
  if (c == 8) { open(d, "array"); open(d, "data"); return; }
  open(d, "struct"); if (c == 9) return;
  open(d, "member"); if (c == 10) return;
  if (c == 21) { open(d, "name"); text(d, "n"); return; }
  leaf(d, "name", "n"); if (c == 11) return;
  open(d, "value"); if (c == 12) return;
  leaf(d, "int", "5"); if (c == 22) return;
  close(d);
}
// a long or deep document, open where a further element of the same kind could follow
static void large(Doc& d, int kind, int many, int resp) {
  open(d, resp ? "methodResponse" : "methodCall");
  if (!resp) leaf(d, "methodName", std::string(many, 'm').c_str());
  open(d, "params");
  if (kind == 0) for (int i = 0; i < many; i++) { open(d, "param"); value_int(d, std::to_string(i).c_str()); close(d); }
  else {
    open(d, "param"); open(d, "value");
    if (kind == 1) { open(d, "array"); open(d, "data"); for (int i = 0; i < many; i++) value_int(d, std::to_string(i).c_str()); }
    if (kind == 2) { open(d, "struct"); for (int i = 0; i < many; i++) member(d, ("n" + std::to_string(i)).c_str(), "int", std::to_string(i).c_str()); }
    if (kind == 3) for (int i = 0; i < many; i++) { open(d, "array"); open(d, "data"); value_int(d, std::to_string(i).c_str()); open(d, "value"); }
    if (kind == 4) for (int i = 0; i < many; i++) { open(d, "struct"); open(d, "member"); leaf(d, "name", "n"); open(d, "value"); }
  }
}
extern "C" void sym_main() {
  int resp = sym_param("resp", 0);
  long live = sym_live_new();
  {
    Doc d;
    if (sym_param("many", 0)) large(d, sym_param("kind", 0), sym_param("many", 0), resp); else prefix(d, sym_param("ctx", 0), resp);
    for (int i = 0, n = sym_param("n", 2); i < n; i++) token(d, resp);
    while (d.st.size() > 1) close(d);
    sym_logb("doc", d.s.data(), d.s.size());
    if (!resp) {
      std::string name; Array ps; int want = d.junk ? REFUSE : request(&d.top, name, ps);
      int ok = 0;
      try {
        boost::scoped_ptr<Request> r(parse_request(d.s));
        ok = 1;
        if (want == OK) {
          sym_check(r->get_name() == name, "the method name is the transmitted one");
          sym_check(r->get_params().size() == ps.size(), "every parameter is delivered");
          for (size_t i = 0; i < ps.size() && i < r->get_params().size(); i++) sym_check(eq(r->get_params()[i], ps[i]), "parameters keep order and contents");
        }
      } catch (const std::exception&) {
      }
      sym_log("ok", ok);
      if (want == OK) { sym_check(ok, "a grammatical method call is accepted"); sym_cover("grammatical"); }
      if (want == REFUSE) { sym_check(!ok, "an ungrammatical method call is refused"); sym_cover("refused"); }
    } else {
      Value_type* res = 0; int code = 0, fault = 0; std::string str;
      int want = d.junk ? REFUSE : response(&d.top, res, code, str, fault);
      { Value expect(res);
      int ok = 0;
      try {
        Response r = parse_response(d.s);
        ok = 1;
        if (want == OK) {
          sym_check(r.is_fault() == !!fault, "a fault is a fault, a result is a result");
          if (fault) { sym_check(r.fault_code() == code, "the fault code is the transmitted one"); sym_check(r.fault_string() == str, "the fault string is the transmitted one"); sym_cover("fault"); }
          else { sym_check(eq(r.value(), expect), "the result is the transmitted one"); sym_cover("result"); }
        }
      } catch (const std::exception&) {
      }
      sym_log("ok", ok);
      if (want == OK) sym_check(ok, "a grammatical response is accepted");
      if (want == REFUSE) { sym_check(!ok, "an ungrammatical response is refused"); sym_cover("refused"); }
      }
    }
  }
  sym_check(sym_live_new() == live, "nothing is leaked whatever the document");
}
