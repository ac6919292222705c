// Execution state of the symbolic executor: memory, threads, path condition.
#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cstring>

namespace llvm { class Instruction; class Function; class GlobalVariable; }

struct Val {
  EP e; uint64_t c;
  Val() : e(nullptr), c(0) {}
  explicit Val(uint64_t v) : e(nullptr), c(v) {}
  static Val of(EP x) { Val v; if (x->isConst() && x->w <= 64) { v.c = (uint64_t)x->val; } else v.e = x; return v; }
  bool sym() const { return e != nullptr; }
};
inline EP toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_NEW, OK_NEWARR, OK_MALLOC };

typedef std::vector<uint32_t> VClock;
struct ShadowCell { uint32_t wtid = 0, wclk = 0; std::vector<std::pair<uint32_t, uint32_t>> rd; };

enum { C_CONC = 0, C_SYM = 1, C_UNINIT = 2 };
struct Obj {
  uint32_t rc = 1; ObjKind kind; uint8_t tid = 0; uint32_t size; uint64_t id;
  const char* what = "";
  std::vector<uint8_t> data, cls;     // cls empty: all bytes concrete
  std::vector<EP> sym;
  std::vector<ShadowCell> shadow;     // race detection, one per byte, lazily
  Obj(ObjKind k, uint64_t i, uint32_t n, bool init) : kind(k), size(n), id(i), data(n, 0) { if (!init) cls.assign(n, C_UNINIT); }
  Obj(const Obj& o) = default;
};

static const unsigned ADDR_SHIFT = 24;
static const uint64_t OBJ_OFF = 0x100;
inline uint64_t objBase(uint64_t id) { return (id << ADDR_SHIFT) + OBJ_OFF; }
static const uint64_t FN_BASE = 0x7f00000000000000ull;

class Mem {
  struct Node { uint32_t rc; void* ch[32]; };
  Node* root = nullptr; unsigned levels = 1;
  static void decNode(Node* n, unsigned lv) {
    if (!n || --n->rc) return;
    for (void* p : n->ch) if (p) { if (lv > 1) decNode((Node*)p, lv - 1); else { Obj* o = (Obj*)p; if (!--o->rc) delete o; } }
    delete n;
  }
  static Node* uniq(Node* n, unsigned lv) {
    if (!n) { n = new Node; n->rc = 1; memset(n->ch, 0, sizeof n->ch); return n; }
    if (n->rc == 1) return n;
    Node* m = new Node; m->rc = 1; memcpy(m->ch, n->ch, sizeof n->ch);
    for (void* p : m->ch) if (p) { if (lv > 1) ((Node*)p)->rc++; else ((Obj*)p)->rc++; }
    n->rc--;
    return m;
  }
public:
  uint64_t next = 1;
  Mem() {}
  Mem(const Mem& o) : root(o.root), levels(o.levels), next(o.next) { if (root) root->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { decNode(root, levels); }
  const Obj* get(uint64_t id) const {
    if (!root || (levels < 12 && (id >> (5 * levels)))) return nullptr;
    Node* n = root;
    for (unsigned l = levels; l > 1; l--) { n = (Node*)n->ch[(id >> (5 * (l - 1))) & 31]; if (!n) return nullptr; }
    return (Obj*)n->ch[id & 31];
  }
  void** slot(uint64_t id) {
    while (id >> (5 * levels)) {
      Node* n = new Node; n->rc = 1; memset(n->ch, 0, sizeof n->ch);
      n->ch[0] = root; root = n; levels++;
      if (!n->ch[0]) { }
    }
    root = uniq(root, levels);
    Node* n = root;
    for (unsigned l = levels; l > 1; l--) {
      void*& p = n->ch[(id >> (5 * (l - 1))) & 31];
      Node* m = uniq((Node*)p, l - 1);
      p = m; n = m;
    }
    return &n->ch[id & 31];
  }
  Obj* getw(uint64_t id) {
    void** p = slot(id);
    Obj* o = (Obj*)*p;
    if (!o) return nullptr;
    if (o->rc > 1) { Obj* n = new Obj(*o); n->rc = 1; o->rc--; *p = n; return n; }
    return o;
  }
  Obj* alloc(ObjKind k, uint32_t n, bool init) {
    uint64_t id = next++;
    Obj* o = new Obj(k, id, n, init);
    *slot(id) = o;
    return o;
  }
  void free(uint64_t id) {
    void** p = slot(id);
    Obj* o = (Obj*)*p;
    if (o) { if (!--o->rc) delete o; *p = nullptr; }
  }
  template <class F> void each(F f) const { if (root) eachN(root, levels, f); }
  template <class F> static void eachN(Node* n, unsigned lv, F& f) {
    for (void* p : n->ch) if (p) { if (lv > 1) eachN((Node*)p, lv - 1, f); else f((const Obj*)p); }
  }
};

struct FnInfo;
struct Inst;

struct Frame {
  FnInfo* fn; uint32_t pc = 0;
  std::vector<Val> s;
  std::vector<uint64_t> allocas;
  std::vector<Val> va;                    // arguments beyond the declared ones
};

enum TStat : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_FLAG, T_DONE };
struct Thread {
  std::vector<Frame> st;
  TStat stat = T_RUN;
  uint64_t waitAddr = 0, waitMutex = 0;
  bool pend = false, granted = false, reacquire = false, timedOut = false, timed = false;
  int world = 0;                          // >0: executing the environment model, accesses are not race-checked
  VClock vc;
};
struct MutexSt { int owner = -1; unsigned depth = 0; VClock vc; };

struct LogEnt { std::string name; std::vector<Val> v; unsigned w; };

struct State {
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<EP> cons;
  std::vector<std::shared_ptr<const Dom>> doms;
  std::vector<uint8_t> entangled;
  Assign model;
  std::map<std::string, unsigned> counters;
  std::vector<LogEnt> log;
  std::map<uint64_t, MutexSt> mutexes;
  std::map<uint64_t, uint64_t> tls;       // (tid<<32|key) -> value
  uint64_t instrs = 0, forks = 0;
  unsigned preemptions = 0;
  size_t ctorIdx = 0; bool inMain = false;
  int64_t newLive = 0;                    // live operator-new allocations
  uint64_t caughtTop[8] = {0};
  std::vector<std::string> schedTrace;
  std::set<std::string> covered;
  Thread& t() { return th[cur]; }
  Frame& f() { return th[cur].st.back(); }
};
