// V03: sequences of value operations against a shadow model; ownership and leaks.
#include "h.h"
#include <libiqxmlrpc/value.h>
#include <libiqxmlrpc/value_type.h>
#include <map>
#include <vector>
using namespace iqxmlrpc;
struct Node {
  int type;                       // 0 int, 1 string, 2 array, 3 struct
  int i; std::string s; std::vector<Node> arr; std::map<std::string, Node> mem;
  Node(): type(0), i(0) {}
};
static int same(const Value& v, const Node& n) {
  switch (n.type) {
  case 0: return v.is_int() && !v.is_array() ? v.get_int() == n.i : 0;
  case 1: return v.is_string() ? str_eq(v.get_string(), n.s) : 0;
  case 2: {
    if (!v.is_array() || v.size() != n.arr.size()) return 0;
    int r = 1, k = 0;
    for (Array::const_iterator it = v.arr_begin(); it != v.arr_end(); ++it, ++k) r = sym_and(r, same(*it, n.arr[k]));
    for (size_t j = 0; j < n.arr.size(); j++) r = sym_and(r, same(v[(int)j], n.arr[j]));
    return r;
  }
  default: {
    if (!v.is_struct() || v.the_struct().size() != n.mem.size()) return 0;
    int r = 1;
    Struct::const_iterator it = v.the_struct().begin();
    for (std::map<std::string, Node>::const_iterator j = n.mem.begin(); j != n.mem.end(); ++j, ++it) {
      if (it->first != j->first || !v.has_field(j->first)) return 0;
      r = sym_and(r, same(v[j->first], j->second));
    }
    return r;
  }
  }
}
static Value make(int t, Node& n) {
  n = Node(); n.type = t;
  switch (t) {
  case 0: n.i = sym_int("i"); return Value(n.i);
  case 1: n.s = sym_str(2, "s"); return Value(n.s);
  case 2: { Array a; Node e; e.i = sym_int("e"); n.arr.push_back(e); a.push_back(e.i); return Value(a); }
  default: { Struct s; Node e; e.i = sym_int("m"); n.mem["x"] = e; s.insert("x", e.i); return Value(s); }
  }
}
static void step(Value& a, Node& na, Value& b, Node& nb, int op) {
  bool arr = na.type == 2, st = na.type == 3, threw = false;
  std::string key(1, "xy"[op >= 7 && op <= 10 ? sym_choice(2, "key") : 0]);
  try {
    switch (op) {
    case 0: { Node n; Value v = make(sym_choice(4, "newtype"), n); a = v; na = n; break; }
    case 1: a = b; na = nb; break;
    case 2: a = a; break;
    case 3: a.push_back(b); if (arr) { Node t = nb; na.arr.push_back(t); } break;
    case 4: a.push_back(a); if (arr) { Node t = na; na.arr.push_back(t); } break;
    case 5: if (arr && na.arr.empty()) { try { a[0] = b; sym_fail("indexing an empty array throws"); } catch (const Array::Out_of_range&) {} break; }
            a[0] = b; if (arr) { Node t = nb; na.arr[0] = t; } break;
    case 6: if (arr && na.arr.empty()) break;
            a = a[0]; if (arr) { Node t = na.arr[0]; na = t; } break;
    case 7: a.insert(key, b); if (st) { Node t = nb; na.mem[key] = t; } break;
    case 8: a.insert(key, a); if (st) { Node t = na; na.mem[key] = t; } break;
    case 9: a.the_struct().erase(key); if (st) na.mem.erase(key); break;
    case 10: if (st && !na.mem.count(key)) { try { a = a[key]; sym_fail("reading an absent member throws"); } catch (const Struct::No_field&) {} break; }
             a = a[key]; if (st) { Node t = na.mem[key]; na = t; } break;
    case 11: if (st) { a.the_struct().clear(); na.mem.clear(); } else { a.the_array().clear(); if (arr) na.arr.clear(); } break;
    case 12: if (st && nb.type == 3) { a.the_struct() = b.the_struct(); Node t = nb; na = t; }
             else { a.the_array() = b.the_array(); if (arr && nb.type == 2) { Node t = nb; na = t; } } break;
    case 13: if (st && nb.type == 3) { a.the_struct().swap(b.the_struct()); std::swap(na.mem, nb.mem); }
             else { Array& x = a.the_array(); Array& y = b.the_array(); x.swap(y); if (arr && nb.type == 2) std::swap(na.arr, nb.arr); } break;
    case 14: if (&a != &b) { Array& x = a.the_array(); x.assign(b.arr_begin(), b.arr_end()); if (arr && nb.type == 2) { Node t = nb; na.arr = t.arr; } } break;
    case 15: if (st) { Value_ptr p(new Value(b)); a.the_struct().insert("y", p); Node t = nb; na.mem["y"] = t; }
             else { Array& x = a.the_array(); Value_ptr p(new Value(b)); x.push_back(p); Node t = nb; na.arr.push_back(t); } break;
    case 16: { Value c(a); Node nc = na; c = b; Value d(c); sym_check(same(a, na), "changing a copy leaves the original alone"); break; }
    case 17: if (st) { a.the_struct() = a.the_struct(); Struct s(a.the_struct()); s.insert("z", 1); s.erase("x"); Struct t; t = s; t.clear(); }
             else { a.the_array() = a.the_array(); Array s(a.the_array()); s.push_back(Value("q")); Array t; t = s; s.clear(); sym_check(t.size() == na.arr.size() + 1, "array copies are independent"); } break;
    // a container and its own parts
    case 18: if (st) { if (na.mem.count("x") && na.mem["x"].type == 3) { a.the_struct() = a["x"].the_struct(); Node t = na.mem["x"]; na = t; } }
             else if (arr && !na.arr.empty() && na.arr[0].type == 2) { a.the_array() = a[0].the_array(); Node t = na.arr[0]; na = t; } break;
    case 19: if (st) { if (na.mem.count("x")) { a["x"] = a; Node t = na; na.mem["x"] = t; } }
             else if (arr && !na.arr.empty()) { a[0] = a; Node t = na; na.arr[0] = t; } break;
    case 20: if (st) { if (na.mem.count("x")) { a.insert("x", a["x"]); a.insert("y", a["x"]); Node t = na.mem["x"]; na.mem["y"] = t; } }
             else if (arr && !na.arr.empty()) { a.push_back(a[0]); Node t = na.arr[0]; na.arr.push_back(t); } break;
    }
  } catch (const Value::Bad_cast&) { threw = true; }
  bool need_arr = (op >= 3 && op <= 6) || op == 14, need_st = op >= 7 && op <= 10;
  if (op == 14 && &a == &b) need_arr = false;
  if (need_arr && !arr) sym_check(threw, "array operation on another type throws bad cast");
  if (need_st && !st) sym_check(threw, "struct operation on another type throws bad cast");
  if ((need_arr && arr && op != 14) || (need_st && st)) sym_check(!threw, "operation on the right type does not throw");
}
static void body() {
  Node na, nb;
  Value a = make(sym_param("ta", 0), na), b = make(sym_choice(4, "tb"), nb);
  int k = sym_param("steps", 2);
  for (int i = 0; i < k; i++) {
    int op = i == 0 && sym_param("op", -1) >= 0 ? sym_param("op", 0) : sym_choice(21, "op");
    int slot = i == 0 ? 0 : sym_choice(2, "slot");
    if (slot == 0) step(a, na, b, nb, op); else step(b, nb, a, na, op);
    sym_check(same(a, na), "first value equals the model");
    sym_check(same(b, nb), "second value equals the model");
  }
  sym_cover("done");
}
// containers of many elements, and members with long names or names with any byte in them
static void many() {
  int n = (int)sym_param("many", 17), len = (int)sym_param("len", 0);
  Node na, nb; na.type = 2; nb.type = 3;
  Array a; Struct s;
  std::string odd = sym_str(2, "name");
  for (int i = 0; i < n; i++) {
    Node e; e.i = i == 0 || i == n - 1 ? sym_int("e") : i;
    a.push_back(e.i); na.arr.push_back(e);
    std::string k = i == n - 1 ? "o" + odd : std::string("k") + char('0' + i / 64) + char('0' + i % 64);
    k += std::string(len, 'l'); if (i == 0) k = "";
    s.insert(k, e.i); nb.mem[k] = e;
  }
  Value va(a), vs(s);
  sym_check(same(va, na) && same(vs, nb), "a value made from a container equals it");
  Value ca(va), cs(vs);
  sym_check(same(ca, na) && same(cs, nb), "a copied container equals the original");
  Array b; b = va.the_array(); Struct t; t = vs.the_struct();
  Value x(1), y("s"); x = Value(b); y = Value(t);
  sym_check(same(x, na) && same(y, nb), "an assigned container equals the original");
  Array c; c.assign(va.arr_begin(), va.arr_end());
  sym_check(same(Value(c), na), "an array assigned from a range equals it");
  Array d; d.swap(c); Struct u; u.swap(t);
  sym_check(same(Value(d), na) && same(Value(u), nb) && c.size() == 0 && t.size() == 0, "swapped containers have changed places");
  ca.push_back(cs); cs.insert("z", ca); ca[n - 1] = 5;
  sym_check(same(va, na) && same(vs, nb), "changing a copy leaves the original alone");
  Node e; e.i = 5; Node nc = na; nc.arr[n - 1] = e; nc.arr.push_back(nb);
  sym_check(same(ca, nc), "a changed copy has the change");
  for (std::map<std::string, Node>::const_iterator i = nb.mem.begin(); i != nb.mem.end(); ++i) u.erase(i->first);
  sym_check(u.size() == 0, "every member can be taken out");
  sym_cover("many");
}
extern "C" void sym_main() {
  long live = sym_live_new();
  if (sym_param("many", 0)) many(); else body();
  sym_check(sym_live_new() == live, "everything allocated is released");
}
