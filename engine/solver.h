#pragma once
#include "expr.h"
#include <unordered_map>
#include <map>

enum SatR { R_UNSAT, R_SAT, R_UNKNOWN };

struct SolverStats {
  uint64_t branch_queries = 0, fast_decided = 0, model_hits = 0, cache_hits = 0;
  uint64_t z3_queries = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0, assert_queries = 0, small_decided = 0;
  double z3_time = 0, z3_max = 0;
  uint64_t x_queries = 0, x_paths = 0; double x_time = 0;
};
extern SolverStats g_ss;

typedef std::vector<std::pair<uint32_t, uint8_t>> PartialModel;

struct Solver {
  Solver();
  // conjunction of cs; on SAT fills m with values for all variables of cs
  SatR check(std::vector<EP> cs, PartialModel* m, bool useCache = true);
  // the same, translated without the byte-set shortcut: confirms decisions made outside the solver
  SatR confirm(const std::vector<EP>& cs);
  bool canConfirm() const { return g_ss.x_time < 1.0 && g_ss.x_queries < 2000; }
  unsigned timeout_ms = 60000;
  std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
private:
  void* ctx; void* simple; void* heavyTactic;
  struct Entry { SatR r; PartialModel m; };
  std::map<std::vector<uint32_t>, Entry> cache;
  void* tr(EP e);
  bool raw = false; std::unordered_map<EP, void*> rawMemo;
  bool small(const std::vector<EP>& cs, double limit, SatR& res, PartialModel* m);
  SatR run(const std::vector<EP>& cs, PartialModel* m);
};
