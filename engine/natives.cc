#include "exec.h"
#include <cmath>
#include <cstring>
#include <algorithm>
using namespace llvm;

#define NAT(id) static void n_##id(Exec& X, State& s, Inst& in, std::vector<Val>& a)
#define DONE(v) do { X.ret(s, in, v); X.advance(s, in); return; } while (0)
#define DONEV do { X.advance(s, in); return; } while (0)

static uint64_t conc(Exec& X, State& s, Val& v, unsigned w = 64) { X.concretize(s, v, w); return v.c; }
static std::string uniq(State& s, const std::string& n) {
  unsigned k = s.counters["n:" + n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static EP freshByte(State& s, const std::string& nm, unsigned i) {
  EP v = mkVar(nm, i);
  if (s.model.v.size() <= v->val) { s.model.v.resize((size_t)v->val + 1, 0); s.model.stamp = newStamp(); }
  unsigned& c = s.counters["b:" + nm];
  if (c < i + 1) c = i + 1;
  return v;
}

// ------------------------------------------------------------ harness API
NAT(sym_make) {
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[1]);
  std::string nm = uniq(s, X.cstr(s, a[2].c));
  s.counters["b:" + nm] += 0;
  for (uint64_t i = 0; i < n; i++) X.store(s, Val(p + i), 8, Val::of(freshByte(s, nm, i)));
  DONEV;
}
NAT(sym_choice) {
  uint64_t n = conc(X, s, a[0], 32);
  std::string nm = uniq(s, X.cstr(s, a[1].c));
  if (n <= 1) { s.counters["b:" + nm] = 1; DONE(Val(0)); }
  EP v = freshByte(s, nm, 0);
  if (n < 256) X.addCons(s, mkBin(E_ULT, v, mkConst(n, 8)), nullptr);
  DONE(Val::of(mkZext(v, 32)));
}
NAT(sym_assume) {
  EP c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
  c = X.simp(s, c);
  if (c->isConst()) { if (c->val) DONEV; X.pathsInfeasible++; throw PathStop(); }
  PartialModel o;
  switch (X.decide(s, c, &o)) {
    case Exec::D_TRUE: DONEV;
    case Exec::D_FALSE: X.pathsInfeasible++; throw PathStop();
    default: break;
  }
  if (evalExpr(c, s.model)) X.addCons(s, c, nullptr); else X.addCons(s, c, &o);
  DONEV;
}
NAT(sym_check) {
  EP c0 = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))), c = X.simp(s, c0);
  if (c->isConst()) c = c0;
  std::string msg = X.cstr(s, a[1].c);
  if (c->isConst()) {
    X.checksConcrete++;
    if (!c->val) X.error(s, "property", msg);
    DONEV;
  }
  X.checksSym++;
  if (c->uninit) X.error(s, "uninit", "value of '" + msg + "' depends on uninitialised memory");
  g_ss.assert_queries++;
  PartialModel m;
  SatR r = X.query(s, mkNot(c), &m);
  if (r == R_UNSAT) DONEV;
  if (r == R_UNKNOWN) X.kill(s, "solver returned unknown on a property query");
  Assign as = s.model;
  for (auto& p : m) { if (as.v.size() <= p.first) as.v.resize(p.first + 1, 0); as.v[p.first] = p.second; }
  as.stamp = newStamp();
  X.report(s, "property", msg, as);
  PartialModel o;
  r = X.query(s, c, &o);
  if (r != R_SAT) { X.pathsErr++; throw PathStop(); }
  X.addCons(s, c, &o);
  DONEV;
}
NAT(sym_fail) { X.error(s, "property", X.cstr(s, a[0].c)); }
NAT(sym_stop) { X.pathEnd(s); throw PathStop(); }
NAT(sym_cover) { s.covered.insert(X.cstr(s, a[0].c)); DONEV; }
NAT(sym_concretize) { conc(X, s, a[0]); DONE(a[0]); }
NAT(sym_fork) { // decide a condition now by forking
  EP c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
  bool b = X.branch(s, c); DONE(Val(b)); }
NAT(sym_param) {
  std::string n = X.cstr(s, a[0].c);
  auto it = X.params.find(n);
  DONE(it == X.params.end() ? a[1] : Val((uint64_t)it->second));
}
NAT(sym_native) { DONE(Val(0)); }
NAT(sym_live_new) { DONE(Val((uint64_t)(s.newLive - X.heldByStatics(s)))); }
NAT(sym_log) { LogEnt l; l.name = X.cstr(s, a[0].c); l.w = 64; l.v.push_back(a[1]); s.log.push_back(l); DONEV; }
NAT(sym_logb) {
  uint64_t p = conc(X, s, a[1]), n = conc(X, s, a[2]);
  LogEnt l; l.name = X.cstr(s, a[0].c); l.w = 8;
  for (uint64_t i = 0; i < n; i++) { Val v; X.load(s, Val(p + i), 8, v); l.v.push_back(v); }
  s.log.push_back(l);
  DONEV;
}
NAT(sym_dbg) { fprintf(stderr, "DBG %s %s\n", X.cstr(s, a[0].c).c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string(a[1].c).c_str()); DONEV; }
NAT(sym_and) { DONE(Val::of(mkZext(mkAnd(mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))), mkNot(mkEq(toE(a[1], 32), mkConst(0, 32)))), 32))); }
NAT(sym_or) { DONE(Val::of(mkZext(mkOr(mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))), mkNot(mkEq(toE(a[1], 32), mkConst(0, 32)))), 32))); }
NAT(sym_ite) { DONE(Val::of(mkIte(mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))), toE(a[1], 64), toE(a[2], 64)))); }
NAT(sym_memeq) {
  uint64_t p = conc(X, s, a[0]), q = conc(X, s, a[1]), n = conc(X, s, a[2]);
  EP r = mkConst(1, 1);
  for (uint64_t i = 0; i < n; i++) { Val x, y; X.load(s, Val(p + i), 8, x); X.load(s, Val(q + i), 8, y); r = mkAnd(r, mkEq(toE(x, 8), toE(y, 8))); }
  DONE(Val::of(mkZext(r, 32)));
}
// first occurrence as one if-then-else chain (no fork while the result is only tested)
NAT(memchr) {
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[2]);
  EP c = mkExtract(toE(a[1], 32), 0, 8);
  std::vector<EP> eq;
  uint64_t stop = n;
  for (uint64_t i = 0; i < n; i++) {
    Val x; X.load(s, Val(p + i), 8, x);
    EP q = mkEq(toE(x, 8), c);
    eq.push_back(q);
    if (q->op == E_CONST && q->val) { stop = i; break; }
  }
  EP r = mkConst(stop < n ? p + stop : 0, 64);
  for (uint64_t i = stop; i-- > 0;) if (!(eq[i]->op == E_CONST)) r = mkIte(eq[i], mkConst(p + i, 64), r);
  DONE(Val::of(r));
}
NAT(sym_is_init) {
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[1]);
  bool ok = true;
  const Obj* o = s.mem.get(p >> ADDR_SHIFT);
  if (!o) X.error(s, "memory", "use after free");
  uint64_t off = (p & ((1ull << ADDR_SHIFT) - 1)) - OBJ_OFF;
  if (off + n > o->size) X.error(s, "memory", "out-of-bounds");
  if (!o->cls.empty()) for (uint64_t i = 0; i < n; i++) { if (o->cls[off + i] == C_UNINIT) ok = false; else if (o->cls[off + i] == C_SYM && o->sym[off + i]->uninit) ok = false; }
  DONE(Val(ok));
}

// ------------------------------------------------------------ allocation
static void doAlloc(Exec& X, State& s, Inst& in, Val sz, ObjKind k, bool zero) {
  uint64_t n = conc(X, s, sz);
  if (n > (1ull << ADDR_SHIFT) - 0x1000) {
    if (k == OK_MALLOC) DONE(Val(0));
    Function* F = X.M.getFunction("__rt_throw_bad_alloc");
    if (!F) X.kill(s, "huge allocation");
    std::vector<Val> none; X.pushCall(s, X.info(F), none, nullptr); return;
  }
  Obj* o = s.mem.alloc(k, n ? n : 1, zero);
  if (n == 0) o->size = 0;
  if (k == OK_NEW || k == OK_NEWARR) s.newLive++;
  DONE(Val(objBase(o->id)));
}
NAT(new_) { doAlloc(X, s, in, a[0], OK_NEW, false); }
NAT(newarr) { doAlloc(X, s, in, a[0], OK_NEWARR, false); }
NAT(malloc) { doAlloc(X, s, in, a[0], OK_MALLOC, false); }
NAT(calloc) { uint64_t n = conc(X, s, a[0]), m = conc(X, s, a[1]); doAlloc(X, s, in, Val(n * m), OK_MALLOC, true); }
static void doFree(Exec& X, State& s, Val p, ObjKind k) {
  uint64_t q = conc(X, s, p);
  if (!q) return;
  const Obj* o = s.mem.get(q >> ADDR_SHIFT);
  if (!o) X.error(s, "memory", "double free or free of invalid pointer");
  if (q != objBase(o->id)) X.error(s, "memory", "free of interior pointer");
  if (o->kind != k) {
    if (o->kind == OK_NEW || o->kind == OK_NEWARR || o->kind == OK_MALLOC) X.error(s, "memory", "mismatched allocation and deallocation functions");
    X.error(s, "memory", "free of non-heap object");
  }
  if (k == OK_NEW || k == OK_NEWARR) s.newLive--;
  s.mem.free(o->id);
}
NAT(delete_) { doFree(X, s, a[0], OK_NEW); DONEV; }
NAT(deletearr) { doFree(X, s, a[0], OK_NEWARR); DONEV; }
NAT(free) { doFree(X, s, a[0], OK_MALLOC); DONEV; }
NAT(realloc) {
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[1]);
  Obj* o = s.mem.alloc(OK_MALLOC, n ? n : 1, false);
  uint64_t q = objBase(o->id);
  if (p) {
    const Obj* old = s.mem.get(p >> ADDR_SHIFT);
    if (!old) X.error(s, "memory", "realloc of freed pointer");
    X.copyMem(s, Val(q), Val(p), std::min<uint64_t>(n, old->size));
    doFree(X, s, Val(p), OK_MALLOC);
  }
  DONE(Val(q));
}

// ------------------------------------------------------------ mem ops
NAT(memcpy) { uint64_t n = conc(X, s, a[2], in.ops[3].w); if (n) { conc(X, s, a[0]); conc(X, s, a[1]); X.copyMem(s, a[0], a[1], n); } DONE(a[0]); }
NAT(memset) { uint64_t n = conc(X, s, a[2], in.ops[3].w); Val b = a[1]; if (b.e && b.e->w > 8) b = Val::of(mkExtract(b.e, 0, 8)); else if (!b.e) b.c &= 255; if (n) { conc(X, s, a[0]); X.fillMem(s, a[0], b, n); } DONE(a[0]); }
NAT(memcmp) {
  uint64_t n = conc(X, s, a[2]);
  uint64_t p = 0, q = 0;
  if (n) { p = conc(X, s, a[0]); q = conc(X, s, a[1]); }
  EP r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    Val x, y; X.load(s, Val(p + i), 8, x); X.load(s, Val(q + i), 8, y);
    EP ex = toE(x, 8), ey = toE(y, 8);
    r = mkIte(mkEq(ex, ey), r, mkBin(E_SUB, mkZext(ex, 32), mkZext(ey, 32)));
  }
  DONE(Val::of(r));
}
NAT(bcmp) {
  uint64_t n = conc(X, s, a[2]);
  uint64_t p = 0, q = 0;
  if (n) { p = conc(X, s, a[0]); q = conc(X, s, a[1]); }
  EP r = mkConst(1, 1);
  for (uint64_t i = 0; i < n; i++) { Val x, y; X.load(s, Val(p + i), 8, x); X.load(s, Val(q + i), 8, y); r = mkAnd(r, mkEq(toE(x, 8), toE(y, 8))); }
  DONE(Val::of(mkZext(mkNot(r), 32)));
}

// ------------------------------------------------------------ exceptions
NAT(eng_raise) { X.unwind(s, conc(X, s, a[0]), false); }
NAT(typeid_for) { DONE(Val((uint64_t)(uint32_t)X.typeId(a[0].c))); }
NAT(terminate) { X.error(s, "terminate", "std::terminate called"); }
NAT(abort) { X.error(s, "abort", "abort called"); }
NAT(trap) { X.error(s, "abort", "trap"); }
NAT(assert_fail) { X.error(s, "assert", "assertion failed: " + X.cstr(s, a[0].c)); }
NAT(dynamic_cast_) {
  // (sub, src_ti, dst_ti, hint)
  uint64_t sub = conc(X, s, a[0]), dst = conc(X, s, a[2]);
  bool ok; uint64_t vp = X.rd64(s, sub, ok);
  if (!ok || !vp) X.error(s, "memory", "dynamic_cast of an invalid object");
  int64_t ott = (int64_t)X.rd64(s, vp - 16, ok);
  uint64_t ti = X.rd64(s, vp - 8, ok);
  if (!ok) X.error(s, "memory", "dynamic_cast of an invalid object");
  uint64_t whole = sub + ott;
  if (X.upcast(s, ti, dst, whole, 0)) DONE(Val(whole));
  DONE(Val(0));
}
// catch-type test for run-time models: does exception type ti derive from want?
NAT(eng_upcast) { uint64_t p = a[2].c; bool r = X.upcast(s, a[0].c, a[1].c, p, 0); DONE(Val(r ? p : 0)); }

// ------------------------------------------------------------ integer intrinsics
static void ovf(Exec& X, State& s, Inst& in, std::vector<Val>& a, Op op, bool sg) {
  unsigned w = in.ops[1].w;
  EP x = toE(a[0], w), y = toE(a[1], w);
  unsigned W = op == E_MUL ? 2 * w : w + 1;
  if (W > 128) W = 128;
  EP ex = sg ? mkSext(x, W) : mkZext(x, W), ey = sg ? mkSext(y, W) : mkZext(y, W);
  EP r = mkBin(op, ex, ey), lo = mkExtract(r, 0, w);
  EP o = mkNot(mkEq(r, sg ? mkSext(lo, W) : mkZext(lo, W)));
  if (in.dst >= 0) { s.f().s[in.dst] = Val::of(lo); s.f().s[in.dst + 1] = Val::of(o); }
  X.advance(s, in);
}
NAT(uadd_o) { ovf(X, s, in, a, E_ADD, false); }
NAT(sadd_o) { ovf(X, s, in, a, E_ADD, true); }
NAT(usub_o) { ovf(X, s, in, a, E_SUB, false); }
NAT(ssub_o) { ovf(X, s, in, a, E_SUB, true); }
NAT(umul_o) { ovf(X, s, in, a, E_MUL, false); }
NAT(smul_o) { ovf(X, s, in, a, E_MUL, true); }
static void mm(Exec& X, State& s, Inst& in, std::vector<Val>& a, Op cmp, bool mx) {
  unsigned w = in.ops[1].w; EP x = toE(a[0], w), y = toE(a[1], w);
  EP c = mkBin(cmp, x, y);
  DONE(Val::of(mx ? mkIte(c, y, x) : mkIte(c, x, y)));
}
NAT(umax) { mm(X, s, in, a, E_ULT, true); }
NAT(umin) { mm(X, s, in, a, E_ULT, false); }
NAT(smax) { mm(X, s, in, a, E_SLT, true); }
NAT(smin) { mm(X, s, in, a, E_SLT, false); }
NAT(abs) { unsigned w = in.ops[1].w; EP x = toE(a[0], w); DONE(Val::of(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))); }
NAT(usub_sat) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), y = toE(a[1], w); DONE(Val::of(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y)))); }
NAT(uadd_sat) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), y = toE(a[1], w); EP r = mkBin(E_ADD, x, y); DONE(Val::of(mkIte(mkBin(E_ULT, r, x), mkConst(maskw(w), w), r))); }
NAT(ctpop) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); DONE(Val::of(r)); }
NAT(ctlz) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); DONE(Val::of(r)); }
NAT(cttz) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); DONE(Val::of(r)); }
NAT(bswap) { unsigned w = in.ops[1].w; EP x = toE(a[0], w), r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); DONE(Val::of(r)); }
static void fsh(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool left) {
  unsigned w = in.ops[1].w; EP hi = toE(a[0], w), lo = toE(a[1], w);
  if (2 * w > 128) X.kill(s, "fsh width");
  EP c = mkConcat(hi, lo), sh = mkZext(mkBin(E_UREM, toE(a[2], w), mkConst(w, w)), 2 * w);
  EP r = left ? mkExtract(mkBin(E_SHL, c, sh), w, w) : mkExtract(mkBin(E_LSHR, c, sh), 0, w);
  DONE(Val::of(r));
}
NAT(fshl) { fsh(X, s, in, a, true); }
NAT(fshr) { fsh(X, s, in, a, false); }
NAT(ident) { DONE(a[0]); }
NAT(zero) { DONE(Val(0)); }
NAT(objsize) { DONE(Val((uint64_t)maskw(in.w))); }
NAT(ret0) { DONE(Val(0)); }
NAT(retv) { DONEV; }
NAT(fabs) { if (a[0].e) X.kill(s, "symbolic fabs"); DONE(Val(in.w == 64 ? a[0].c & 0x7fffffffffffffffull : a[0].c & 0x7fffffffull)); }

// concrete-only snprintf family for doubles used by the conversion model
NAT(rt_fmt_double) { // (double, char* buf, size, prec) -> len ; "%.*g"
  if (a[0].e) X.kill(s, "symbolic floating-point formatting");
  double d; memcpy(&d, &a[0].c, 8);
  char b[128]; int n = snprintf(b, sizeof b, "%.*g", (int)conc(X, s, a[3], 32), d);
  uint64_t p = conc(X, s, a[1]), sz = conc(X, s, a[2]);
  for (int i = 0; i <= n && (uint64_t)i < sz; i++) X.store(s, Val(p + i), 8, Val((uint64_t)(uint8_t)b[i]));
  DONE(Val((uint64_t)n));
}
// printf family: symbolic integers are split over their values except for
// zero-padded hexadecimal, which stays symbolic.
static void fmtCall(Exec& X, State& s, Inst& in, std::vector<Val>& a, uint64_t buf, uint64_t cap, size_t ai, uint64_t ap = 0) {
  std::string f = X.cstr(s, conc(X, s, a[ai++]));
  uint64_t area = 0;
  if (ap) { Val v; X.load(s, Val(ap + 8), 64, v); area = conc(X, s, v); }
  auto next = [&]() -> Val {
    if (ap) { Val v; X.load(s, Val(area), 64, v); area += 8; return v; }
    if (ai >= a.size()) X.error(s, "memory", "printf: missing argument");
    return a[ai++];
  };
  std::vector<Val> out;
  auto lit = [&](const std::string& t) { for (char c : t) out.push_back(Val((uint64_t)(uint8_t)c)); };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { lit(f.substr(i, 1)); continue; }
    size_t b = i++;
    if (f[i] == '%') { lit("%"); continue; }
    std::string spec = "%"; int width = 0, prec = -1; bool zero = false;
    for (; strchr("-+ #0", f[i]); i++) { spec += f[i]; if (f[i] == '0') zero = true; }
    auto num = [&](int& v) {
      if (f[i] == '*') { Val t = next(); v = (int)conc(X, s, t, 32); i++; }
      else { v = 0; while (isdigit((unsigned char)f[i])) v = v * 10 + f[i++] - '0'; }
      spec += std::to_string(v);
    };
    if (f[i] == '*' || isdigit((unsigned char)f[i])) num(width);
    if (f[i] == '.') { spec += '.'; i++; num(prec); }
    int lng = 0;
    while (i < f.size() && strchr("hlzjtL", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng = 1; if (f[i] == 'h') lng--; i++; }
    char c = f[i];
    Val v = next();
    char tmp[512];
    switch (c) {
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'c': {
        unsigned w = lng > 0 ? 64 : 32;
        if (v.e && (c == 'x' || c == 'X') && zero && width && width <= 16) {
          EP e = v.e;
          if (e->w > w) e = mkExtract(e, 0, w);
          if (e->mx < ((u128)1 << (4 * width)) || width * 4 >= (int)w) {
            for (int k = width; k-- > 0;) {
              EP nib = (unsigned)(4 * k) < e->w ? mkZext(mkExtract(e, 4 * k, 4), 8) : mkConst(0, 8);
              out.push_back(Val::of(mkIte(mkBin(E_ULT, nib, mkConst(10, 8)), mkBin(E_ADD, nib, mkConst('0', 8)), mkBin(E_ADD, nib, mkConst((c == 'x' ? 'a' : 'A') - 10, 8)))));
            }
            break;
          }
        }
        if (v.e && c == 'c' && !width) { out.push_back(Val::of(mkExtract(v.e, 0, 8))); break; }
        if (v.e && (c == 'd' || c == 'i' || c == 'u') && lng >= 0 && spec.find_first_of("+ #-") == std::string::npos) {
          // decimal digits stay symbolic; the sign and the number of digits are split
          EP e = v.e->w > w ? mkExtract(v.e, 0, w) : c == 'u' ? mkZext(v.e, w) : v.e->w < w ? mkSext(v.e, w) : v.e;
          bool neg = c != 'u' && X.branch(s, mkBin(E_SLT, e, mkConst(0, w)));
          if (neg) e = mkBin(E_SUB, mkConst(0, w), e);
          int n = 1; uint64_t p10 = 10;
          while (n < (w == 64 ? 20 : 10) && X.branch(s, mkNot(mkBin(E_ULT, e, mkConst(p10, w))))) { n++; if (n < 20) p10 *= 10; }
          int digs = std::max(n, prec), tot = digs + neg;
          if (zero && prec < 0) { if (neg) lit("-"); lit(std::string(std::max(0, width - tot), '0')); }
          else { lit(std::string(std::max(0, width - tot), ' ')); if (neg) lit("-"); }
          lit(std::string(digs - n, '0'));
          uint64_t d10 = 1; for (int k = 1; k < n; k++) d10 *= 10;
          for (int k = n; k-- > 0; d10 /= 10) {
            EP q = mkBin(E_UREM, d10 > 1 ? mkBin(E_UDIV, e, mkConst(d10, w)) : e, mkConst(10, w));
            out.push_back(Val::of(mkBin(E_ADD, mkExtract(q, 0, 8), mkConst('0', 8))));
          }
          break;
        }
        uint64_t x = conc(X, s, v, w);
        if (lng > 0) snprintf(tmp, sizeof tmp, (spec + "l" + c).c_str(), (long)x);
        else snprintf(tmp, sizeof tmp, (spec + (lng == -1 ? "h" : lng == -2 ? "hh" : "") + c).c_str(), (int)x);
        if (c == 'c' && !(char)x) out.push_back(Val(0)); else lit(tmp);
        break;
      }
      case 's': {
        uint64_t p = conc(X, s, v);
        std::vector<Val> str;
        for (; prec < 0 || (int)str.size() < prec; p++) {
          Val ch; X.load(s, Val(p), 8, ch);
          if (ch.e ? !X.branch(s, mkNot(mkEq(ch.e, mkConst(0, 8)))) : !ch.c) break;
          str.push_back(ch);
        }
        bool left = spec.find('-') != std::string::npos;
        if (!left) for (int k = str.size(); k < width; k++) lit(" ");
        out.insert(out.end(), str.begin(), str.end());
        if (left) for (int k = str.size(); k < width; k++) lit(" ");
        break;
      }
      case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': {
        if (v.e) X.kill(s, "symbolic double in printf");
        double d; memcpy(&d, &v.c, 8);
        snprintf(tmp, sizeof tmp, (spec + c).c_str(), d);
        lit(tmp);
        break;
      }
      case 'p': { uint64_t x = conc(X, s, v); snprintf(tmp, sizeof tmp, "0x%lx", x); lit(tmp); break; }
      default: X.kill(s, "unsupported printf conversion"); (void)b;
    }
  }
  if (cap) {
    uint64_t n = std::min<uint64_t>(out.size(), cap - 1);
    for (uint64_t k = 0; k < n; k++) X.store(s, Val(buf + k), 8, out[k]);
    X.store(s, Val(buf + n), 8, Val(0));
  }
  DONE(Val((uint64_t)(uint32_t)out.size()));
}
NAT(snprintf) { uint64_t n = conc(X, s, a[1]); uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, n, 2); }
NAT(sprintf) { uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, 1 << 30, 1); }
NAT(snprintf_chk) { uint64_t n = conc(X, s, a[1]); uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, n, 4); }
NAT(sprintf_chk) { uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, 1 << 30, 3); }
NAT(vsnprintf) { uint64_t n = conc(X, s, a[1]); uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, n, 2, conc(X, s, a[3])); }
NAT(vsnprintf_chk) { uint64_t n = conc(X, s, a[1]); uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, n, 4, conc(X, s, a[5])); }
NAT(vsprintf) { uint64_t p = conc(X, s, a[0]); fmtCall(X, s, in, a, p, 1 << 30, 1, conc(X, s, a[2])); }
// x86-64 va_list with every argument in the overflow area
NAT(va_start) {
  uint64_t ap = conc(X, s, a[0]);
  Frame& f = s.f();
  Obj* o = s.mem.alloc(OK_STACK, 8 * f.va.size() + 8, false);
  o->tid = s.cur;
  f.allocas.push_back(o->id);
  uint64_t base = objBase(o->id);
  std::vector<Val> va = f.va;
  for (size_t i = 0; i < va.size(); i++) X.store(s, Val(base + 8 * i), 64, va[i].e ? Val::of(mkZext(va[i].e, 64)) : va[i]);
  X.store(s, Val(ap), 32, Val(48)); X.store(s, Val(ap + 4), 32, Val(176));
  X.store(s, Val(ap + 8), 64, Val(base)); X.store(s, Val(ap + 16), 64, Val(0));
  DONEV;
}
NAT(va_copy) { X.copyMem(s, a[0], a[1], 24); DONEV; }
template <class F> static void math1(Exec& X, State& s, Inst& in, std::vector<Val>& a, F fn) {
  if (a[0].e) X.kill(s, "symbolic floating point");
  if (in.w == 32) { float x; uint32_t u = (uint32_t)a[0].c; memcpy(&x, &u, 4); x = (float)fn(x); memcpy(&u, &x, 4); DONE(Val((uint64_t)u)); }
  double x; memcpy(&x, &a[0].c, 8); x = fn(x); uint64_t u; memcpy(&u, &x, 8); DONE(Val(u));
}
NAT(ceil) { math1(X, s, in, a, [](double d) { return ceil(d); }); }
NAT(floor) { math1(X, s, in, a, [](double d) { return floor(d); }); }
NAT(round) { math1(X, s, in, a, [](double d) { return round(d); }); }
NAT(trunc) { math1(X, s, in, a, [](double d) { return trunc(d); }); }
NAT(sqrt) { math1(X, s, in, a, [](double d) { return sqrt(d); }); }
NAT(rt_parse_double) { // (const char*, size_t n, double* out) -> 1 if the whole text is a number
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[1]), o = conc(X, s, a[2]);
  std::string t;
  for (uint64_t i = 0; i < n; i++) { Val v; X.load(s, Val(p + i), 8, v); X.concretize(s, v, 8); t += (char)v.c; }
  char* e = nullptr; double d = strtod(t.c_str(), &e);
  bool ok = t.find_first_not_of("0123456789+-.eE") == std::string::npos && d - d == 0 && n && *e == 0 && (size_t)(e - t.c_str()) == n;
  uint64_t u; memcpy(&u, &d, 8);
  X.store(s, Val(o), 64, Val(u));
  DONE(Val(ok));
}

// ------------------------------------------------------------ threads
static void vcJoin(VClock& a, const VClock& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(State& s) { Thread& t = s.t(); if (t.vc.size() <= (size_t)s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; }
static void release(State& s, uint64_t m) { vcTick(s); vcJoin(s.mutexes[m].vc, s.t().vc); }
static void acquire(State& s, uint64_t m) { vcJoin(s.t().vc, s.mutexes[m].vc); }
void eng_atomic_sync(State& s, uint64_t addr, unsigned kind) { if (s.th.size() > 1) { uint64_t k = addr | (1ull << 63); if (kind & 4) acquire(s, k); if (kind & 8) release(s, k); } }

// type of a mutex, kept where the C library keeps it
static uint64_t mutexKind(Exec& X, State& s, uint64_t m) {
  int w = s.t().world; s.t().world = 1;
  Val v; X.load(s, Val(m + 16), 32, v);
  s.t().world = w;
  return v.e ? 0 : v.c & 3;
}
NAT(mutex_lock) {
  uint64_t m = conc(X, s, a[0]);
  if (!X.schedPoint(s)) return;
  MutexSt& mx = s.mutexes[m];
  if (mx.owner == s.cur && mutexKind(X, s, m) == 1) { mx.depth++; DONE(Val(0)); }
  if (mx.owner == s.cur && mutexKind(X, s, m) == 2) DONE(Val(35));
  if (mx.owner >= 0) {
    if (mx.owner == s.cur && s.th.size() == 1) X.error(s, "deadlock", "recursive locking of a mutex");
    s.t().stat = T_MUTEX; s.t().waitAddr = m; s.t().pend = true;
    if (!X.pickNext(s, true)) X.error(s, "deadlock", "no runnable thread: every thread is blocked");
    return;
  }
  s.t().stat = T_RUN;
  mx.owner = s.cur; acquire(s, m);
  DONE(Val(0));
}
NAT(mutex_trylock) {
  uint64_t m = conc(X, s, a[0]);
  if (!X.schedPoint(s)) return;
  MutexSt& mx = s.mutexes[m];
  if (mx.owner == s.cur && mutexKind(X, s, m) == 1) { mx.depth++; DONE(Val(0)); }
  if (mx.owner >= 0) DONE(Val(16));
  mx.owner = s.cur; acquire(s, m);
  DONE(Val(0));
}
NAT(mutex_unlock) {
  uint64_t m = conc(X, s, a[0]);
  MutexSt& mx = s.mutexes[m];
  if (mx.owner != s.cur) X.error(s, "lock-misuse", "unlock of a mutex not held by the calling thread");
  if (mx.depth) { mx.depth--; DONE(Val(0)); }
  release(s, m);
  mx.owner = -1;
  DONE(Val(0));
}
NAT(mutex_init) {
  uint64_t m = conc(X, s, a[0]), at = conc(X, s, a[1]);
  s.mutexes.erase(m); X.fillMem(s, Val(m), Val(0), 40);
  if (at) { Val k; X.load(s, Val(at), 32, k); X.store(s, Val(m + 16), 32, k); }
  DONE(Val(0));
}
NAT(mutexattr_init) { X.store(s, Val(conc(X, s, a[0])), 32, Val(0)); DONE(Val(0)); }
NAT(mutexattr_settype) { X.store(s, Val(conc(X, s, a[0])), 32, a[1]); DONE(Val(0)); }
NAT(mutex_destroy) {
  uint64_t m = conc(X, s, a[0]);
  auto it = s.mutexes.find(m);
  if (it != s.mutexes.end()) {
    if (it->second.owner >= 0) X.error(s, "lock-misuse", "destruction of a locked mutex");
    for (auto& t : s.th) if (t.stat == T_MUTEX && t.waitAddr == m) X.error(s, "lock-misuse", "destruction of a mutex another thread waits for");
    s.mutexes.erase(it);
  }
  DONE(Val(0));
}
NAT(cond_init) { uint64_t m = conc(X, s, a[0]); X.fillMem(s, Val(m), Val(0), 48); DONE(Val(0)); }
NAT(cond_destroy) {
  uint64_t c = conc(X, s, a[0]);
  for (auto& t : s.th) if (t.stat == T_COND && t.waitAddr == c) X.error(s, "lock-misuse", "destruction of a condition variable another thread waits on");
  DONE(Val(0));
}
static void condWait(Exec& X, State& s, Inst& in, std::vector<Val>& a, bool timed) {
  uint64_t c = conc(X, s, a[0]), m = conc(X, s, a[1]);
  Thread& t = s.t();
  if (t.reacquire) {
    // woken; mutex is free when we are scheduled
    if (!X.schedPoint(s)) return;
    MutexSt& mx = s.mutexes[m];
    if (mx.owner >= 0) { s.t().stat = T_MUTEX; s.t().waitAddr = m; s.t().pend = true; if (!X.pickNext(s, true)) X.error(s, "deadlock", "no runnable thread: every thread is blocked"); return; }
    s.t().stat = T_RUN; s.t().reacquire = false;
    mx.owner = s.cur; acquire(s, m);
    DONE(Val(s.t().timedOut ? 110 : 0));
  }
  if (!X.schedPoint(s)) return;
  MutexSt& mx = s.mutexes[m];
  if (mx.owner != s.cur) X.error(s, "lock-misuse", "wait without holding the mutex");
  release(s, m); mx.owner = -1;
  s.t().stat = T_COND; s.t().waitAddr = c; s.t().waitMutex = m; s.t().pend = true; s.t().timedOut = false; s.t().timed = timed;
  if (!X.pickNext(s, true)) X.error(s, "deadlock", "no runnable thread: every thread is blocked (lost wake-up)");
}
NAT(cond_wait) { condWait(X, s, in, a, false); }
NAT(cond_timedwait) { condWait(X, s, in, a, true); }
static void wake(State& s, size_t i) { Thread& t = s.th[i]; t.stat = T_MUTEX; t.waitAddr = t.waitMutex; t.reacquire = true; t.pend = true; }
NAT(cond_broadcast) {
  uint64_t c = conc(X, s, a[0]);
  if (!X.schedPoint(s)) return;
  for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].stat == T_COND && s.th[i].waitAddr == c) wake(s, i);
  DONE(Val(0));
}
NAT(cond_signal) {
  uint64_t c = conc(X, s, a[0]);
  if (!X.schedPoint(s)) return;
  std::vector<size_t> w;
  for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].stat == T_COND && s.th[i].waitAddr == c) w.push_back(i);
  if (w.empty()) DONE(Val(0));
  size_t pick = 0;
  if (w.size() > 1) {
    unsigned k = s.counters["b:wake"]++;
    EP v = mkVar("wake", k);
    if (s.model.v.size() <= v->val) s.model.v.resize((size_t)v->val + 1, 0);
    bool only = X.delayBound && X.preemptBound >= 0 && (long)s.preemptions >= X.preemptBound;
    for (size_t i = 1; i < w.size() && !only; i++) {
      State* n = X.forkState(s);
      if (X.delayBound) n->preemptions++;
      PartialModel pm{{(uint32_t)v->val, (uint8_t)i}};
      X.addCons(*n, mkEq(v, mkConst(i, 8)), &pm);
      wake(*n, w[i]);
      X.ret(*n, in, Val(0)); X.advance(*n, in);
    }
    PartialModel pm{{(uint32_t)v->val, 0}};
    X.addCons(s, mkEq(v, mkConst(0, 8)), &pm);
  }
  wake(s, w[pick]);
  DONE(Val(0));
}
NAT(thread_create) { // (pthread_t*, attr, fn, arg)
  uint64_t out = conc(X, s, a[0]), fn = conc(X, s, a[2]);
  if (s.th.size() >= 24) X.kill(s, "too many threads");
  uint64_t k = (fn - FN_BASE) >> 4;
  FnInfo* fi = X.fnByIdx.at(k);
  if (fi->F->isDeclaration()) X.kill(s, "thread entry is external");
  X.info(fi->F);
  if (out) X.store(s, Val(out), 64, Val((uint64_t)s.th.size() + 1));
  vcTick(s);
  int me = s.cur;
  s.th.emplace_back();
  Thread& t = s.th.back();
  t.vc = s.th[me].vc; t.vc.resize(s.th.size(), 0);
  s.cur = (int)s.th.size() - 1;
  std::vector<Val> args{a[3]};
  X.pushCall(s, fi, args, nullptr);
  s.cur = me;
  DONE(Val(0));
}
NAT(thread_join) {
  uint64_t tid = conc(X, s, a[0]) - 1;
  if (!X.schedPoint(s)) return;
  if (tid >= s.th.size()) X.error(s, "lock-misuse", "join of an invalid thread");
  if (s.th[tid].stat != T_DONE) {
    s.t().stat = T_JOIN; s.t().waitAddr = tid; s.t().pend = true;
    if (!X.pickNext(s, true)) X.error(s, "deadlock", "no runnable thread: join waits for a thread that never finishes");
    return;
  }
  s.t().stat = T_RUN;
  VClock vc = s.th[tid].vc; if (vc.size() <= tid) vc.resize(tid + 1, 0); vc[tid]++;
  vcJoin(s.t().vc, vc);
  DONE(Val(0));
}
NAT(thread_self) { DONE(Val((uint64_t)s.cur + 1)); }
// Block until *flag is non-zero.  Belongs to the environment: orders nothing.
NAT(sym_wait) {
  uint64_t p = conc(X, s, a[0]);
  if (!X.schedPoint(s)) return;
  int w = s.t().world; s.t().world = 1;
  Val v; X.load(s, Val(p), 32, v);
  s.t().world = w;
  if (v.e) X.kill(s, "sym_wait on a symbolic flag");
  if (!v.c) {
    s.t().stat = T_FLAG; s.t().waitAddr = p; s.t().pend = true;
    if (!X.pickNext(s, true)) X.error(s, "deadlock", "no runnable thread: every thread is blocked");
    return;
  }
  s.t().stat = T_RUN;
  DONEV;
}
NAT(sym_world) { s.t().world += (int)conc(X, s, a[0], 32); DONEV; }
NAT(sym_hb) { uint64_t k = conc(X, s, a[0]) | (1ull << 63); if (s.th.size() > 1) { if (conc(X, s, a[1], 32)) release(s, k); else acquire(s, k); } DONEV; }
NAT(sym_touch) {
  uint64_t p = conc(X, s, a[0]), n = conc(X, s, a[1]); bool w = conc(X, s, a[2], 32);
  if (n && s.th.size() > 1) { uint64_t off; X.resolve(s, Val(p), (uint32_t)n, w, off, nullptr); }
  DONEV;
}
NAT(sym_yield) { if (!X.schedPoint(s)) return; DONEV; }
NAT(sched_yield) { if (!X.schedPoint(s)) return; DONE(Val(0)); }
NAT(getspecific) { uint64_t k = conc(X, s, a[0], 32); auto it = s.tls.find(((uint64_t)s.cur << 32) | k); DONE(it == s.tls.end() ? Val(0) : Val(it->second)); }
// each thread but the first has its own copy of a thread-local variable
NAT(tls_address) {
  uint64_t p = conc(X, s, a[0]), id = p >> ADDR_SHIFT;
  auto im = X.tlsImage.find(id);
  if (s.cur == 0 || im == X.tlsImage.end()) DONE(Val(p));
  uint64_t& mine = s.tls[((uint64_t)s.cur << 32) | (1ull << 63) | id];
  if (!mine) { Obj* o = s.mem.alloc(OK_GLOBAL, im->second.size, true); o->data = im->second.data; o->cls = im->second.cls; o->sym = im->second.sym; o->what = im->second.what; mine = o->id; }
  DONE(Val(p - objBase(id) + objBase(mine)));
}
NAT(setspecific) { uint64_t k = conc(X, s, a[0], 32); s.tls[((uint64_t)s.cur << 32) | k] = conc(X, s, a[1]); DONE(Val(0)); }
NAT(key_create) { unsigned k = ++s.counters["tlskey"]; X.store(s, a[0], 32, Val(k)); DONE(Val(0)); }

void registerNatives(Exec& X) {
  auto R = [&](const char* n, NativeFn f) { X.natives[n] = Native{f}; };
  R("sym_make", n_sym_make); R("sym_choice", n_sym_choice); R("sym_assume", n_sym_assume); R("sym_check", n_sym_check);
  R("sym_fail", n_sym_fail); R("sym_stop", n_sym_stop); R("sym_cover", n_sym_cover); R("sym_concretize", n_sym_concretize); R("sym_fork", n_sym_fork);
  R("sym_param", n_sym_param); R("sym_native", n_sym_native); R("sym_live_new", n_sym_live_new); R("sym_log", n_sym_log);
  R("sym_logb", n_sym_logb); R("sym_dbg", n_sym_dbg); R("sym_and", n_sym_and); R("sym_or", n_sym_or); R("sym_ite", n_sym_ite); R("sym_memeq", n_sym_memeq); R("sym_is_init", n_sym_is_init);
  R("_Znwm", n_new_); R("_Znam", n_newarr); R("_ZdlPv", n_delete_); R("_ZdlPvm", n_delete_); R("_ZdaPv", n_deletearr); R("_ZdaPvm", n_deletearr);
  R("_ZnwmRKSt9nothrow_t", n_new_); R("_ZdlPvRKSt9nothrow_t", n_delete_);
  R("malloc", n_malloc); R("calloc", n_calloc); R("realloc", n_realloc); R("free", n_free);
  R("llvm.memcpy", n_memcpy); R("llvm.memmove", n_memcpy); R("llvm.memset", n_memset);
  R("memcpy", n_memcpy); R("memmove", n_memcpy); R("memset", n_memset); R("memcmp", n_memcmp); R("bcmp", n_bcmp); R("memchr", n_memchr);
  R("__eng_raise", n_eng_raise); R("llvm.eh.typeid.for", n_typeid_for); R("_ZSt9terminatev", n_terminate); R("abort", n_abort); R("llvm.trap", n_trap);
  R("__assert_fail", n_assert_fail); R("__dynamic_cast", n_dynamic_cast_); R("__eng_upcast", n_eng_upcast);
  R("llvm.uadd.with.overflow", n_uadd_o); R("llvm.sadd.with.overflow", n_sadd_o); R("llvm.usub.with.overflow", n_usub_o); R("llvm.ssub.with.overflow", n_ssub_o);
  R("llvm.umul.with.overflow", n_umul_o); R("llvm.smul.with.overflow", n_smul_o);
  R("llvm.umax", n_umax); R("llvm.umin", n_umin); R("llvm.smax", n_smax); R("llvm.smin", n_smin); R("llvm.abs", n_abs);
  R("llvm.usub.sat", n_usub_sat); R("llvm.uadd.sat", n_uadd_sat);
  R("llvm.ctpop", n_ctpop); R("llvm.ctlz", n_ctlz); R("llvm.cttz", n_cttz); R("llvm.bswap", n_bswap); R("llvm.fshl", n_fshl); R("llvm.fshr", n_fshr);
  R("llvm.expect", n_ident); R("llvm.launder.invariant.group", n_ident); R("llvm.strip.invariant.group", n_ident); R("llvm.is.constant", n_zero); R("llvm.objectsize", n_objsize);
  R("llvm.stacksave", n_zero); R("llvm.fabs", n_fabs); R("llvm.assume", n_retv); R("llvm.threadlocal.address", n_tls_address);
  R("llvm.invariant.start", n_zero);
  R("snprintf", n_snprintf); R("sprintf", n_sprintf); R("__snprintf_chk", n_snprintf_chk); R("__sprintf_chk", n_sprintf_chk);
  R("__rt_fmt_double", n_rt_fmt_double); R("__rt_parse_double", n_rt_parse_double);
  R("pthread_mutex_lock", n_mutex_lock); R("pthread_mutex_unlock", n_mutex_unlock); R("pthread_mutex_trylock", n_mutex_trylock);
  R("pthread_mutex_init", n_mutex_init); R("pthread_mutex_destroy", n_mutex_destroy);
  R("pthread_cond_init", n_cond_init); R("pthread_cond_destroy", n_cond_destroy); R("pthread_cond_wait", n_cond_wait);
  R("pthread_cond_signal", n_cond_signal); R("pthread_cond_broadcast", n_cond_broadcast);
  R("rt_cond_timedwait", n_cond_timedwait); R("pthread_mutexattr_init", n_mutexattr_init); R("pthread_mutexattr_settype", n_mutexattr_settype);
  R("vsnprintf", n_vsnprintf); R("__vsnprintf_chk", n_vsnprintf_chk); R("vsprintf", n_vsprintf);
  R("llvm.va_start", n_va_start); R("llvm.va_end", n_retv); R("llvm.va_copy", n_va_copy);
  R("llvm.ceil", n_ceil); R("ceil", n_ceil); R("ceilf", n_ceil); R("llvm.floor", n_floor); R("floor", n_floor); R("floorf", n_floor); R("llvm.round", n_round); R("round", n_round);
  R("llvm.trunc", n_trunc); R("trunc", n_trunc); R("llvm.sqrt", n_sqrt); R("sqrt", n_sqrt);
  R("sched_yield", n_sched_yield);
  R("pthread_create", n_thread_create); R("pthread_join", n_thread_join); R("pthread_self", n_thread_self); R("sym_yield", n_sym_yield); R("sym_wait", n_sym_wait); R("sym_world", n_sym_world); R("sym_hb", n_sym_hb); R("sym_touch", n_sym_touch);
  R("pthread_getspecific", n_getspecific); R("pthread_setspecific", n_setspecific); R("pthread_key_create", n_key_create);
  for (const char* n : {"pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_destroy", "pthread_condattr_setclock", "pthread_detach", "__cxa_atexit", "atexit", "__cxa_thread_atexit"}) R(n, n_ret0);
}
