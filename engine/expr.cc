#include "expr.h"
#include <unordered_map>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

std::vector<VarInfo> g_vars;
static std::map<std::pair<std::string, unsigned>, EP> g_varmap;
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static size_t g_count = 0;

// ---------------------------------------------------------------- var sets
static std::map<std::vector<uint32_t>, VarSet*> g_vs;
static VarSet* internVS(const std::vector<uint32_t>& v) {
  auto it = g_vs.find(v);
  if (it != g_vs.end()) return it->second;
  VarSet* s = new VarSet{v, (uint32_t)g_vs.size()};
  g_vs[v] = s;
  return s;
}
static VarSet* emptyVS() { static VarSet* e = internVS({}); return e; }
const VarSet* vsUnion(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  static std::unordered_map<uint64_t, const VarSet*> memo;
  uint64_t k = ((uint64_t)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  return memo[k] = internVS(r);
}

// ---------------------------------------------------------------- interning
// unsigned upper bound from the operands' bounds
static u128 computeMax(const Expr* e) {
  u128 m = maskw(e->w);
  auto bitsUp = [](u128 x) { u128 r = 0; while (r < x) r = (r << 1) | 1; return r; };
  switch (e->op) {
    case E_CONST: return e->val;
    case E_ZEXT: return e->a->mx;
    case E_SEXT: return e->a->mx < ((u128)1 << (e->a->w - 1)) ? e->a->mx : m;
    case E_AND: return std::min(e->a->mx, e->b->mx);
    case E_OR: case E_XOR: return std::min(m, bitsUp(std::max(e->a->mx, e->b->mx)));
    case E_UREM: return e->b->isConst() && e->b->val ? std::min(e->b->val - 1, e->a->mx) : e->a->mx;
    case E_UDIV: return e->b->isConst() && e->b->val ? e->a->mx / e->b->val : m;
    case E_ITE: return std::max(e->b->mx, e->c->mx);
    case E_ADD: return e->a->mx <= m - e->b->mx ? e->a->mx + e->b->mx : m;
    case E_MUL: return e->a->mx >> 62 == 0 && e->b->mx >> 62 == 0 && (e->a->mx * e->b->mx) <= m ? e->a->mx * e->b->mx : m;
    case E_CONCAT: return (e->a->mx << e->b->w) | e->b->mx;
    case E_EXTRACT: { u128 x = e->a->mx >> (unsigned)e->val; return x <= m ? x : m; }
    default: return m;
  }
}
static void computeRange(Expr* e) {
  e->mx = computeMax(e);
  unsigned w = e->w;
  if (w == 0) { e->smn = e->smx = 0; return; }
  __int128 lo = w >= 128 ? (__int128)((u128)1 << 127) : -((__int128)1 << (w - 1)), hi = -(lo + 1);
  __int128 l = lo, h = hi;
  bool set = false;
  if (w <= 64) switch (e->op) {
    case E_CONST: l = h = sextw(e->val, w); set = true; break;
    case E_SEXT: l = e->a->smn; h = e->a->smx; set = true; break;
    case E_ADD: l = e->a->smn + e->b->smn; h = e->a->smx + e->b->smx; set = true; break;
    case E_SUB: l = e->a->smn - e->b->smx; h = e->a->smx - e->b->smn; set = true; break;
    case E_ITE: l = std::min(e->b->smn, e->c->smn); h = std::max(e->b->smx, e->c->smx); set = true; break;
    default: break;
  }
  if (set && (l < lo || h > hi)) { l = lo; h = hi; }
  if ((e->mx >> (w - 1)) == 0) { if (l < 0) l = 0; if (h > (__int128)e->mx) h = (__int128)e->mx; }
  e->smn = l; e->smx = h;
  if (l >= 0 && (u128)h < e->mx) e->mx = (u128)h;
}
static inline u128 umax(EP e) { return e->mx; }
static unsigned bitlen(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
static inline uint32_t hmix(uint32_t h, uint64_t v) {
  uint64_t x = (h ^ v) * 0x9E3779B97F4A7C15ull;
  return (uint32_t)(x ^ (x >> 29));
}
static EP intern(Op op, unsigned w, EP a, EP b, EP c, u128 val) {
  uint32_t h = hmix(op * 131 + w, (uint64_t)val);
  h = hmix(h, (uint64_t)(val >> 64));
  if (a) h = hmix(h, a->id + 1);
  if (b) h = hmix(h, b->id + 7);
  if (c) h = hmix(h, c->id + 13);
  size_t k = h & (g_tab.size() - 1);
  for (Expr* e = g_tab[k]; e; e = e->next)
    if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val)
      return e;
  Expr* e = new Expr;
  e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = h;
  e->id = ++g_count; e->z3 = nullptr; e->ts = nullptr; e->evstamp = 0; e->ev = 0;
  e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
  const VarSet* vs = emptyVS();
  if (a) vs = a->vs;
  if (b) vs = vsUnion(vs, b->vs);
  if (c) vs = vsUnion(vs, c->vs);
  e->vs = vs;
  computeRange(e);
  e->next = g_tab[k]; g_tab[k] = e;
  if (g_count > g_tab.size()) {
    std::vector<Expr*> nt(g_tab.size() * 4, nullptr);
    for (Expr* p : g_tab)
      while (p) { Expr* n = p->next; size_t j = p->hash & (nt.size() - 1); p->next = nt[j]; nt[j] = p; p = n; }
    g_tab.swap(nt);
  }
  return e;
}

EP mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w)); }

EP mkVar(const std::string& name, unsigned idx, bool uninit) {
  auto k = std::make_pair(name, idx);
  auto it = g_varmap.find(k);
  if (it != g_varmap.end()) return it->second;
  uint32_t n = g_vars.size();
  g_vars.push_back({name, idx, uninit});
  Expr* e = const_cast<Expr*>(intern(E_VAR, 8, 0, 0, 0, n));
  e->vs = internVS({n});
  e->uninit = uninit;
  return g_varmap[k] = e;
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  a &= m; b &= m;
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: { __int128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case E_SREM: { __int128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { __int128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w);
    case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: abort();
  }
}

static bool isCmp(Op op) { return op >= E_EQ && op <= E_SLE; }
static bool isComm(Op op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ; }
static bool isZero(EP e) { return e->isConst() && e->val == 0; }
static bool isOnes(EP e) { return e->isConst() && e->val == maskw(e->w); }

EP mkNot(EP a) {
  if (a->isConst()) return mkConst(!a->val, 1);
  if (a->op == E_XOR && isOnes(a->b)) return a->a;
  switch (a->op) {
    case E_ULT: return mkBin(E_ULE, a->b, a->a);
    case E_ULE: return mkBin(E_ULT, a->b, a->a);
    case E_SLT: return mkBin(E_SLE, a->b, a->a);
    case E_SLE: return mkBin(E_SLT, a->b, a->a);
    default: break;
  }
  return intern(E_XOR, 1, a, mkConst(1, 1), 0, 0);
}

unsigned lowZeroBits(EP e) {
  switch (e->op) {
    case E_CONST: { unsigned n = 0; while (n < e->w && !((e->val >> n) & 1)) n++; return n; }
    case E_SHL: if (e->b->isConst()) return std::min<unsigned>(e->w, lowZeroBits(e->a) + (unsigned)std::min<u128>(e->b->val, e->w)); return 0;
    case E_MUL: return std::min<unsigned>(e->w, lowZeroBits(e->a) + lowZeroBits(e->b));
    case E_ADD: case E_SUB: case E_OR: return std::min(lowZeroBits(e->a), lowZeroBits(e->b));
    case E_AND: return std::max(lowZeroBits(e->a), lowZeroBits(e->b));
    case E_CONCAT: { unsigned l = lowZeroBits(e->b); return l == e->b->w ? l + lowZeroBits(e->a) : l; }
    case E_ZEXT: case E_SEXT: { unsigned l = lowZeroBits(e->a); return l == e->a->w ? e->w : l; }
    case E_ITE: return std::min(lowZeroBits(e->b), lowZeroBits(e->c));
    default: return 0;
  }
}

EP mkBin(Op op, EP a, EP b) {
  if (a->w != b->w) { fprintf(stderr, "ENGINE-BUG width mismatch op=%d %u %u\n", op, a->w, b->w); abort(); }
  unsigned w = a->w, rw = isCmp(op) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val, w), rw);
  if (isComm(op) && a->isConst()) std::swap(a, b);
  if (isComm(op) && !b->isConst() && a->id > b->id) std::swap(a, b);
  // push into constant ites
  if (b->isConst() && a->op == E_ITE && (a->b->isConst() || a->c->isConst())) {
    if (a->b->isConst() && a->c->isConst())
      return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (isCmp(op) || (op == E_ADD) || op == E_AND)
      return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  }
  if (a->isConst() && b->op == E_ITE && b->b->isConst() && b->c->isConst())
    return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  switch (op) {
    case E_ADD:
      if (isZero(b)) return a;
      if (b->isConst() && a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, a->a, mkConst(a->b->val + b->val, w));
      if (b->isConst() && a->op == E_SUB && a->a->isConst()) return mkBin(E_SUB, mkConst(a->a->val + b->val, w), a->b);
      if (a->op == E_SUB && a->b == b) return a->a;
      if (b->op == E_SUB && b->b == a) return b->a;
      if (!b->isConst() && a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (!b->isConst() && b->op == E_ADD && b->b->isConst()) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      break;
    case E_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(E_ADD, a, mkConst((u128)0 - b->val, w));
      if (a->op == E_ADD && a->a == b) return a->b;
      if (a->op == E_ADD && a->b == b) return a->a;
      if (a->op == E_ADD && b->op == E_ADD && a->b->isConst() && b->b->isConst())
        return mkBin(E_ADD, mkBin(E_SUB, a->a, b->a), mkConst(a->b->val - b->b->val, w));
      if (a->op == E_ADD && a->b->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a->a, b), a->b);
      if (b->op == E_ADD && b->b->isConst()) return mkBin(E_ADD, mkBin(E_SUB, a, b->a), mkConst((u128)0 - b->b->val, w));
      break;
    case E_MUL:
      if (isZero(b)) return b;
      if (b->isConst() && b->val == 1) return a;
      if (b->isConst() && a->op == E_MUL && a->b->isConst()) return mkBin(E_MUL, a->a, mkConst(a->b->val * b->val, w));
      break;
    case E_UDIV: case E_SDIV:
      if (b->isConst() && b->val == 1) return a;
      if (op == E_UDIV && b->isConst() && b->val && umax(a) < b->val) return mkConst(0, w);
      if (op == E_UDIV && b->isConst() && a->op == E_UDIV && a->b->isConst() && w <= 64 && a->b->val && b->val && a->b->val * b->val <= maskw(w))
        return mkBin(E_UDIV, a->a, mkConst(a->b->val * b->val, w));
      break;
    case E_UREM:
      if (b->isConst() && b->val == 1) return mkConst(0, w);
      if (b->isConst() && umax(a) < b->val) return a;
      break;
    case E_AND:
      if (a == b || isOnes(b)) return a;
      if (isZero(b)) return b;
      if (b->isConst() && a->op == E_AND && a->b->isConst()) return mkBin(E_AND, a->a, mkConst(a->b->val & b->val, w));
      if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
      // mask of low bits -> zext(extract)
      if (b->isConst() && w > 1) {
        u128 v = b->val;
        if (((v + 1) & v) == 0) { unsigned n = 0; while ((v >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
      }
      break;
    case E_OR:
      if (a == b || isZero(b)) return a;
      if (isOnes(b)) return b;
      if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
      // shl/zext concat pattern: (zext(x) << k) | zext(y) with y narrower than k
      {
        EP s = a, z = b;
        for (int t = 0; t < 2; t++, std::swap(s, z))
          if (s->op == E_SHL && s->b->isConst() && z->op == E_ZEXT && (u128)z->a->w <= s->b->val && s->b->val < w) {
            unsigned k = (unsigned)s->b->val;
            return mkConcat(mkExtract(s->a, 0, w - k), mkZext(z->a, k));
          }
      }
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (w == 1 && isOnes(b)) return mkNot(a);
      if (b->isConst() && a->op == E_XOR && a->b->isConst()) return mkBin(E_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (b->isConst()) {
        if (b->val >= w) { if (op != E_ASHR) return mkConst(0, w); }
        else {
          unsigned k = (unsigned)b->val;
          if (op == E_SHL) return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
          if (op == E_LSHR) return mkZext(mkExtract(a, k, w - k), w);
          return mkSext(mkExtract(a, k, w - k), w);
        }
      }
      break;
    case E_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && b->isConst()) return b->val ? a : mkNot(a);
      if (b->isConst()) {
        if (a->op == E_ZEXT) {
          if (b->val >> a->a->w) return mkConst(0, 1);
          return mkEq(a->a, mkConst(b->val, a->a->w));
        }
        if (a->op == E_SEXT) {
          u128 lo = b->val & maskw(a->a->w);
          if (((u128)sextw(lo, a->a->w) & maskw(w)) != b->val) return mkConst(0, 1);
          return mkEq(a->a, mkConst(lo, a->a->w));
        }
        if (a->op == E_CONCAT) {
          return mkAnd(mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w)));
        }
        if (a->op == E_ADD && a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, w));
        if (a->op == E_SUB && a->a->isConst()) return mkEq(a->b, mkConst(a->a->val - b->val, w));
        if (a->op == E_XOR && a->b->isConst()) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
        if (isZero(b) && a->op == E_SUB) return mkEq(a->a, a->b);
        if (b->val > umax(a)) return mkConst(0, 1);
      }
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->a->w == b->a->w)
        return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      break;
    case E_ULT:
      if (a == b || isZero(b)) return mkConst(0, 1);
      if (isOnes(a)) return mkConst(0, 1);
      if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, w));
      if (b->isConst() && umax(a) < b->val) return mkConst(1, 1);
      if (a->isConst() && umax(b) <= a->val) return mkConst(0, 1);
      if (b->isConst()) return mkBin(E_ULE, a, mkConst(b->val - 1, w));
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULT, a->a, b->a);
      if (a->isConst() && b->op == E_ZEXT && !(a->val >> b->a->w)) return mkBin(E_ULT, mkConst(a->val, b->a->w), b->a);
      break;
    case E_ULE:
      if (a == b || isZero(a) || isOnes(b)) return mkConst(1, 1);
      if (isZero(b)) return mkEq(a, b);
      if (b->isConst() && umax(a) <= b->val) return mkConst(1, 1);
      if (a->isConst() && umax(b) < a->val) return mkConst(0, 1);
      if (a->isConst()) return mkBin(E_ULT, mkConst(a->val - 1, w), b);
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(E_ULE, a->a, b->a);
      if (b->isConst() && a->op == E_ZEXT && !(b->val >> a->a->w)) return mkBin(E_ULE, a->a, mkConst(b->val, a->a->w));
      break;
    case E_SLT: case E_SLE:
      if (a == b) return mkConst(op == E_SLE, 1);
      if (op == E_SLT) { if (a->smx < b->smn) return mkConst(1, 1); if (a->smn >= b->smx) return mkConst(0, 1); }
      else { if (a->smx <= b->smn) return mkConst(1, 1); if (a->smn > b->smx) return mkConst(0, 1); }
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      // both operands known non-negative -> unsigned
      { u128 half = (u128)1 << (w - 1);
        if (umax(a) < half && umax(b) < half) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
        if (a->op == E_SEXT && b->isConst()) {
          __int128 bv = sextw(b->val, w); unsigned n = a->a->w;
          __int128 hi = ((__int128)1 << (n - 1)) - 1, lo = -((__int128)1 << (n - 1));
          if (bv > hi) return mkConst(1, 1);
          if (bv < lo) return mkConst(0, 1);
          return mkBin(op, a->a, mkConst((u128)bv, n));
        }
        if (b->op == E_SEXT && a->isConst()) {
          __int128 av = sextw(a->val, w); unsigned n = b->a->w;
          __int128 hi = ((__int128)1 << (n - 1)) - 1, lo = -((__int128)1 << (n - 1));
          if (av > hi) return mkConst(0, 1);
          if (av < lo) return mkConst(1, 1);
          return mkBin(op, mkConst((u128)av, n), b->a);
        }
        if (umax(a) < half && b->isConst() && b->val >= half) return mkConst(0, 1);
        if (umax(b) < half && a->isConst() && a->val >= half) return mkConst(1, 1);
      }
      break;
    default: break;
  }
  // narrow arithmetic on small operands
  if (w > 8 && w < 128) {
    u128 half = (u128)1 << (w - 1);
    if ((op == E_SDIV || op == E_SREM) && umax(a) < half && umax(b) < half && b->isConst() && b->val) return mkBin(op == E_SDIV ? E_UDIV : E_UREM, a, b);
    unsigned k = 0;
    switch (op) {
      case E_ADD: if (umax(a) <= maskw(w) - umax(b)) k = bitlen(umax(a) + umax(b)); break;
      case E_MUL: if (umax(a) >> 62 == 0 && umax(b) >> 62 == 0 && umax(a) * umax(b) <= maskw(w)) k = bitlen(umax(a) * umax(b)); break;
      case E_UDIV: case E_UREM: if (b->isConst() && b->val) k = bitlen(std::max(umax(a), b->val)); break;
      case E_EQ: case E_ULT: case E_ULE: k = bitlen(std::max(umax(a), umax(b))); break;
      default: break;
    }
    if (k && k < w) {
      EP x = mkExtract(a, 0, k), y = mkExtract(b, 0, k);
      return isCmp(op) ? mkBin(op, x, y) : mkZext(mkBin(op, x, y), w);
    }
  }
  return intern(op, rw, a, b, 0, 0);
}

EP mkIte(EP c, EP a, EP b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "ENGINE-BUG ite width\n"); abort(); }
  if (c->op == E_XOR && isOnes(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->val ? c : mkNot(c);
    if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == E_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  return intern(E_ITE, a->w, c, a, b, 0);
}

EP mkConcat(EP hi, EP lo) {
  if (hi->w == 0) return lo;
  if (lo->w == 0) return hi;
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "ENGINE-BUG concat too wide\n"); abort(); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isZero(hi)) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w)
    return mkExtract(hi->a, (unsigned)lo->val, w);
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->a->op == E_EXTRACT && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  // right-associate
  if (hi->op == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // zext on hi side: concat(zext(x),lo) = zext(concat(x,lo))
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  return intern(E_CONCAT, w, hi, lo, 0, 0);
}

EP mkExtract(EP a, unsigned off, unsigned w) {
  if (w == 0) return mkConst(0, 0);
  if (off == 0 && w == a->w) return a;
  if (off + w > a->w) { fprintf(stderr, "ENGINE-BUG extract %u+%u of %u\n", off, w, a->w); abort(); }
  switch (a->op) {
    case E_CONST: return mkConst(a->val >> off, w);
    case E_EXTRACT: return mkExtract(a->a, off + (unsigned)a->val, w);
    case E_CONCAT: {
      unsigned lw = a->b->w;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case E_ZEXT: {
      unsigned lw = a->a->w;
      if (off >= lw) return mkConst(0, w);
      if (off + w <= lw) return mkExtract(a->a, off, w);
      return mkZext(mkExtract(a->a, off, lw - off), w);
    }
    case E_SEXT: {
      unsigned lw = a->a->w;
      if (off + w <= lw) return mkExtract(a->a, off, w);
      if (off < lw) return mkSext(mkExtract(a->a, off, lw - off), w);
      return mkSext(mkExtract(a->a, lw - 1, 1), w);
    }
    case E_ITE:
      if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case E_AND: case E_OR: case E_XOR:
      if (a->b->isConst() || w <= 8) return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
      break;
    case E_ADD: case E_SUB: case E_MUL:
      if (off == 0 && (a->b->isConst() || a->a->isConst())) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      if (off == 0 && a->a->op == E_ZEXT && a->b->op == E_ZEXT) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  if (umax(a) < ((u128)1 << off)) return mkConst(0, w);
  if (unsigned k = bitlen(umax(a) >> off); k < w) return mkZext(mkExtract(a, off, k), w);
  return intern(E_EXTRACT, w, a, 0, 0, off);
}

EP mkExtractRaw(EP a, unsigned off, unsigned w) { return intern(E_EXTRACT, w, a, 0, 0, off); }

EP mkZext(EP a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "ENGINE-BUG zext\n"); abort(); }
  if (a->isConst()) return mkConst(a->val, w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  if (a->w == 0) return mkConst(0, w);
  return intern(E_ZEXT, w, a, 0, 0, 0);
}

EP mkSext(EP a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "ENGINE-BUG sext\n"); abort(); }
  if (a->isConst()) return mkConst((u128)sextw(a->val, a->w), w);
  if (a->op == E_SEXT) return mkSext(a->a, w);
  if (umax(a) < ((u128)1 << (a->w - 1))) return mkZext(a, w);
  if ((a->op == E_ADD || a->op == E_SUB) && a->w <= 64) {       // no signed overflow: distribute
    __int128 lo = -((__int128)1 << (a->w - 1)), hi = -(lo + 1);
    __int128 l = a->op == E_ADD ? a->a->smn + a->b->smn : a->a->smn - a->b->smx, h = a->op == E_ADD ? a->a->smx + a->b->smx : a->a->smx - a->b->smn;
    if (l >= lo && h <= hi) return mkBin(a->op, mkSext(a->a, w), mkSext(a->b, w));
  }
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  if (a->op == E_ITE && a->b->isConst() && a->c->isConst())
    return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  if (umax(a) < ((u128)1 << (a->w - 1))) return mkZext(a, w);
  return intern(E_SEXT, w, a, 0, 0, 0);
}

// ---------------------------------------------------------------- evaluation
static uint64_t g_stamp = 0;
uint64_t newStamp() { return ++g_stamp; }

u128 evalExpr(EP e, const Assign& m) {
  if (e->op == E_CONST) return e->val;
  if (e->op == E_VAR) return e->val < m.v.size() ? m.v[(size_t)e->val] : 0;
  if (e->evstamp == m.stamp) return e->ev;
  u128 r;
  switch (e->op) {
    case E_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case E_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case E_EXTRACT: r = (evalExpr(e->a, m) >> (unsigned)e->val) & maskw(e->w); break;
    case E_ZEXT: r = evalExpr(e->a, m); break;
    case E_SEXT: r = (u128)sextw(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = foldBin(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
  }
  e->ev = r; e->evstamp = m.stamp;
  return r;
}

const Dom& truthSet(EP e) {
  if (e->ts) return *e->ts;
  Dom* d = new Dom;
  uint32_t var = e->vs->v[0];
  static Assign a;
  if (a.v.size() <= var) a.v.resize(var + 1, 0);
  for (unsigned i = 0; i < 256; i++) {
    a.v[var] = i; a.stamp = newStamp();
    if (evalExpr(e, a)) d->set(i);
  }
  e->ts = d;
  return *d;
}

static std::unordered_map<EP, EP>* g_substMemo;
static EP substRec(EP e, const std::vector<const Dom*>& doms) {
  if (e->vs->v.empty()) return e;
  if (e->op == E_VAR) {
    uint32_t v = (uint32_t)e->val;
    if (v < doms.size() && doms[v] && doms[v]->count() == 1)
      return mkConst(doms[v]->_Find_first(), 8);
    return e;
  }
  if (e->w == 1 && e->vs->v.size() == 1) {      // decided by the variable's domain?
    uint32_t v = e->vs->v[0];
    if (v >= doms.size() || !doms[v]) return e;
    const Dom& t = truthSet(e);
    if ((t & *doms[v]).none()) return mkConst(0, 1);
    if ((~t & *doms[v]).none()) return mkConst(1, 1);
  }
  auto it = g_substMemo->find(e);
  if (it != g_substMemo->end()) return it->second;
  EP a = e->a ? substRec(e->a, doms) : 0, b = e->b ? substRec(e->b, doms) : 0, c = e->c ? substRec(e->c, doms) : 0, r = e;
  if (a != e->a || b != e->b || c != e->c)
    switch (e->op) {
      case E_ITE: r = mkIte(a, b, c); break;
      case E_CONCAT: r = mkConcat(a, b); break;
      case E_EXTRACT: r = mkExtract(a, (unsigned)e->val, e->w); break;
      case E_ZEXT: r = mkZext(a, e->w); break;
      case E_SEXT: r = mkSext(a, e->w); break;
      default: r = mkBin(e->op, a, b); break;
    }
  return (*g_substMemo)[e] = r;
}
EP substConsts(EP e, const std::vector<const Dom*>& doms) {
  bool any = false;
  for (uint32_t v : e->vs->v) if (v < doms.size() && doms[v]) { any = true; break; }
  if (!any) return e;
  std::unordered_map<EP, EP> memo;
  g_substMemo = &memo;
  return substRec(e, doms);
}

static const char* opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
std::string exprStr(EP e, int d) {
  char buf[64];
  if (e->op == E_CONST) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->w); return buf; }
  if (e->op == E_VAR) return g_vars[(size_t)e->val].name + "[" + std::to_string(g_vars[(size_t)e->val].idx) + "]";
  if (d == 0) return "...";
  std::string s = "(";
  s += opn[e->op];
  if (e->op == E_EXTRACT || e->op == E_ZEXT || e->op == E_SEXT) { snprintf(buf, sizeof buf, " %llu %u", (unsigned long long)e->val, e->w); s += buf; }
  if (e->a) s += " " + exprStr(e->a, d - 1);
  if (e->b) s += " " + exprStr(e->b, d - 1);
  if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
