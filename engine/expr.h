// Hash-consed bit-vector expressions used by the symbolic executor.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <bitset>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT
};

struct VarSet { std::vector<uint32_t> v; uint32_t id; };
typedef std::bitset<256> Dom;

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  uint32_t hash;
  bool uninit;              // depends on an uninitialised byte
  const Expr *a, *b, *c;
  u128 val;                 // constant, variable index or extract offset
  const VarSet* vs;
  u128 mx;                  // unsigned upper bound
  __int128 smn, smx;        // signed range
  Expr* next;               // hash chain
  mutable void* z3;
  mutable Dom* ts;          // truth table of a 1-bit single-variable expr
  mutable u128 ev;
  mutable uint64_t evstamp;
  bool isConst() const { return op == E_CONST; }
};
typedef const Expr* EP;

struct VarInfo { std::string name; unsigned idx; bool uninit; };
extern std::vector<VarInfo> g_vars;       // every variable is one byte wide

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (__int128)((v ^ m) - m);
}

EP mkConst(u128 v, unsigned w);
EP mkVar(const std::string& name, unsigned idx, bool uninit = false);
EP mkBin(Op op, EP a, EP b);
EP mkIte(EP c, EP a, EP b);
EP mkConcat(EP hi, EP lo);
EP mkExtract(EP a, unsigned off, unsigned w);
EP mkExtractRaw(EP a, unsigned off, unsigned w);   // not simplified
EP mkZext(EP a, unsigned w);
EP mkSext(EP a, unsigned w);
EP mkNot(EP a);                           // 1-bit negation
inline EP mkEq(EP a, EP b) { return mkBin(E_EQ, a, b); }
inline EP mkAnd(EP a, EP b) { return mkBin(E_AND, a, b); }
inline EP mkOr(EP a, EP b) { return mkBin(E_OR, a, b); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w);

const VarSet* vsUnion(const VarSet* a, const VarSet* b);

// Evaluation under an assignment (indexed by variable; missing entries are 0).
struct Assign { std::vector<uint8_t> v; uint64_t stamp; };
uint64_t newStamp();
u128 evalExpr(EP e, const Assign& m);
const Dom& truthSet(EP e);                // e->w==1, exactly one variable
unsigned lowZeroBits(EP e);
std::string exprStr(EP e, int depth = 6);
EP substConsts(EP e, const std::vector<const Dom*>& doms);
