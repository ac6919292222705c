#pragma once
#include "state.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <chrono>

struct Opnd { int32_t slot = -1; uint16_t w = 0; Val k; };
struct Edge { uint32_t pc = 0; std::vector<std::pair<int32_t, Opnd>> mv; };

enum IOp : uint8_t {
  I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_RESUME,
  I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_FPCAST, I_SELECT, I_CALL, I_INVOKE, I_EXTRACTV, I_INSERTV,
  I_LPAD, I_NOP, I_RMW, I_CMPXCHG, I_EXTELT, I_INSELT, I_SHUFFLE, I_BAD
};

struct Exec;
typedef void (*NativeFn)(Exec& X, State& s, Inst& in, std::vector<Val>& args);
struct Native { NativeFn fn; };

struct LpClause { bool isFilter; std::vector<uint64_t> ti; };

struct Inst {
  IOp op = I_BAD; uint8_t sub = 0; bool seen = false; uint16_t w = 0, w2 = 0;
  int32_t dst = -1; uint16_t nd = 0;
  std::vector<Opnd> ops;
  std::vector<uint16_t> lw;                           // leaf widths (aggregates)
  std::vector<uint32_t> loff;                         // leaf byte offsets
  std::vector<std::pair<int32_t, uint64_t>> gep;      // (operand idx, scale)
  uint64_t imm = 0, size = 0;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  llvm::Function* callee = nullptr; FnInfo* cfn = nullptr; Native* nat = nullptr;
  std::vector<LpClause> clauses; bool cleanup = false;
  std::vector<uint32_t> byval;                        // per-arg size, 0 if not
  const llvm::Instruction* I = nullptr;
};

struct FnInfo {
  llvm::Function* F; std::string name;
  bool decoded = false, executed = false;
  unsigned nslots = 0;
  std::vector<Inst> code;
  std::vector<int32_t> argSlot; std::vector<uint16_t> argN;
  std::string dname, file;
};

struct Violation {
  std::string kind, msg, loc; std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::string>> assign; // name -> hex
  std::vector<std::string> sched;
};
struct PathSample { std::vector<std::pair<std::string, std::string>> assign; std::vector<std::pair<std::string, std::string>> log; std::vector<std::string> sched; };

struct Exec {
  llvm::Module& M; const llvm::DataLayout& DL;
  Solver solver;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, Obj> tlsImage;       // initial contents of thread-local variables
  std::vector<uint64_t> roots;            // the library's own static data
  int64_t heldByStatics(State& s);
  std::unordered_map<const llvm::Function*, FnInfo*> fns;
  std::vector<FnInfo*> fnByIdx;
  std::unordered_map<std::string, Native> natives;
  std::unordered_map<std::string, Native*> natCache;
  std::map<uint64_t, int> tiId; std::vector<uint64_t> tiById;
  std::map<std::string, long> params;
  std::vector<State*> work;
  State* cur = nullptr; bool alive = false;
  std::vector<llvm::Function*> ctors; llvm::Function* entry = nullptr;
  std::vector<Violation> viol; std::set<std::string> violKeys;
  std::map<std::string, uint64_t> covers;
  std::vector<PathSample> samples; unsigned sampleMax = 0;
  std::map<std::string, uint64_t> incomplete;
  std::set<std::string> unmodelled;
  uint64_t pathsDone = 0, pathsErr = 0, pathsInfeasible = 0, totalInstr = 0, totalForks = 0, checksConcrete = 0, checksSym = 0, pathsUnknown = 0, witnesses=0;
  uint64_t schedPoints = 0, switches = 0;
  double maxTime = 1e9; unsigned maxViol = 5; uint64_t maxInstrPath = 200000000ull; long preemptBound = -1; bool delayBound = false;   // delayBound: every choice other than the default one counts, not only preemptions
  bool raceDetect = true; bool spurious = false;
  unsigned maxWork = 200000;
  std::chrono::steady_clock::time_point t0;
  uint64_t vtClass = 0, vtSi = 0, vtVmi = 0, vtPtr = 0;
  std::string repoPrefix = "/repo/";

  Exec(llvm::Module& m);
  void initGlobals(State& s);
  void run();
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // decoding
  FnInfo* info(llvm::Function* F);
  void decode(FnInfo* fi);
  void leaves(llvm::Type* T, uint64_t off, std::vector<uint16_t>& w, std::vector<uint32_t>& o);
  void constLeaves(const llvm::Constant* c, std::vector<Val>& out);
  uint64_t constInt(const llvm::Constant* c);
  unsigned width(llvm::Type* T);
  void writeInit(Obj* o, uint64_t off, const llvm::Constant* c);

  // stepping
  void step(State& s);
  void jump(State& s, Edge& e);
  void pushCall(State& s, FnInfo* fi, std::vector<Val>& args, Inst* call);
  void doReturn(State& s, std::vector<Val>& rv);
  void doCall(State& s, Inst& in);
  Val opv(Frame& f, const Opnd& o) { return o.slot >= 0 ? f.s[o.slot] : o.k; }
  void ret(State& s, Inst& in, Val v) { if (in.dst >= 0) s.f().s[in.dst] = v; }
  void advance(State& s, Inst& in);
  void threadDone(State& s);
  void popFrame(State& s);

  // path condition
  enum Dec { D_TRUE, D_FALSE, D_BOTH, D_NONE };
  Dec decide(State& s, EP c, PartialModel* other);
  EP simp(State& s, EP c);
  bool addCons(State& s, EP c, const PartialModel* pm);
  State* forkState(State& s);
  bool branch(State& s, EP c);            // forks; returns direction taken by s
  SatR query(State& s, EP c, PartialModel* m);
  std::string repoLoc(State& s);
  void collectCoverage(std::set<std::string>& fns, std::set<std::string>& lines);
  EP resolveSpine(State& s, EP e);
  bool concretize(State& s, Val& v, unsigned w);
  void kill(State& s, const char* why);

  // memory
  Obj* resolve(State& s, Val addr, uint32_t n, bool write, uint64_t& off, EP* symOff);
  Val loadBytes(State& s, uint64_t id, uint64_t off, unsigned w);
  void storeBytes(State& s, Obj* o, uint64_t off, unsigned w, Val v);
  bool load(State& s, Val addr, unsigned w, Val& out);
  bool store(State& s, Val addr, unsigned w, Val v);
  uint64_t rd64(State& s, uint64_t addr, bool& ok);
  bool copyMem(State& s, Val d, Val src, uint64_t n);
  bool fillMem(State& s, Val d, Val b, uint64_t n);
  std::string cstr(State& s, uint64_t addr);
  void raceCheck(State& s, Obj* o, uint64_t off, uint32_t n, bool write);

  // exceptions
  bool tiMatch(State& s, uint64_t thrown, uint64_t want, uint64_t& ptr);
  bool upcast(State& s, uint64_t from, uint64_t to, uint64_t& ptr, int depth);
  void unwind(State& s, uint64_t exc, bool popFirst);
  int typeId(uint64_t ti);
  std::string tiName(State& s, uint64_t ti);

  // threads
  bool schedPoint(State& s);              // true: the current op may proceed
  bool enabled(State& s, int t);
  bool pickNext(State& s, bool mustSwitch);

  // reporting
  void error(State& s, const std::string& kind, const std::string& msg);
  void report(State& s, const std::string& kind, const std::string& msg, const Assign& m);
  std::string loc(const Inst& in);
  std::vector<std::string> backtrace(State& s);
  void pathEnd(State& s);
  void assignOf(State& s, const Assign& m, std::vector<std::pair<std::string, std::string>>& out);
  Native* findNative(const std::string& n);
};

void registerNatives(Exec& X);
struct PathStop {};
