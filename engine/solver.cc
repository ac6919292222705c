#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

SolverStats g_ss;
#define C ((Z3_context)ctx)

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
}

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, errh);
  Z3_solver s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  simple = s;
  Z3_tactic a = Z3_mk_tactic(C, "qfbv");
  Z3_tactic_inc_ref(C, a);
  heavyTactic = a;
}

void* Solver::tr(EP e) {
  if (raw) { auto it = rawMemo.find(e); if (it != rawMemo.end()) return it->second; }
  else if (e->z3) return e->z3;
  Z3_ast r;
  auto A = [&]() { return (Z3_ast)tr(e->a); };
  auto B = [&]() { return (Z3_ast)tr(e->b); };
  auto bv1 = [&](Z3_ast boolean) {
    return Z3_mk_ite(C, boolean, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1)));
  };
  if (!raw && e->w == 1 && e->vs->v.size() == 1 && e->a && (e->a->op > E_VAR || (e->b && e->b->op > E_VAR))) {
    // a predicate of one byte: stated as the set of bytes satisfying it
    const Dom& d = truthSet(e);
    Z3_sort s8 = Z3_mk_bv_sort(C, 8);
    Z3_ast v = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->vs->v[0])).c_str()), s8);
    std::vector<Z3_ast> rs;
    for (unsigned i = 0; i < 256; i++) if (d[i]) {
      unsigned j = i;
      while (j < 255 && d[j + 1]) j++;
      Z3_ast lo = Z3_mk_unsigned_int64(C, i, s8), hi = Z3_mk_unsigned_int64(C, j, s8);
      if (i == j) rs.push_back(Z3_mk_eq(C, v, lo));
      else { Z3_ast ab[2] = { Z3_mk_bvule(C, lo, v), Z3_mk_bvule(C, v, hi) }; rs.push_back(Z3_mk_and(C, 2, ab)); }
      i = j;
    }
    r = bv1(rs.empty() ? Z3_mk_false(C) : rs.size() == 1 ? rs[0] : Z3_mk_or(C, rs.size(), rs.data()));
    e->z3 = r;
    return r;
  }
  auto isT = [&](Z3_ast x) { return Z3_mk_eq(C, x, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); };
  switch (e->op) {
    case E_CONST:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(C, (uint64_t)e->val, Z3_mk_bv_sort(C, e->w));
      else {
        Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(C, e->w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)e->val, Z3_mk_bv_sort(C, 64));
        r = Z3_mk_concat(C, hi, lo);
      }
      break;
    case E_VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string((unsigned)e->val)).c_str()), Z3_mk_bv_sort(C, 8)); break;
    case E_ADD: r = Z3_mk_bvadd(C, A(), B()); break;
    case E_SUB: r = Z3_mk_bvsub(C, A(), B()); break;
    case E_MUL: r = Z3_mk_bvmul(C, A(), B()); break;
    case E_UDIV: r = Z3_mk_bvudiv(C, A(), B()); break;
    case E_SDIV: r = Z3_mk_bvsdiv(C, A(), B()); break;
    case E_UREM: r = Z3_mk_bvurem(C, A(), B()); break;
    case E_SREM: r = Z3_mk_bvsrem(C, A(), B()); break;
    case E_AND: r = Z3_mk_bvand(C, A(), B()); break;
    case E_OR: r = Z3_mk_bvor(C, A(), B()); break;
    case E_XOR: r = Z3_mk_bvxor(C, A(), B()); break;
    case E_SHL: r = Z3_mk_bvshl(C, A(), B()); break;
    case E_LSHR: r = Z3_mk_bvlshr(C, A(), B()); break;
    case E_ASHR: r = Z3_mk_bvashr(C, A(), B()); break;
    case E_EQ: r = bv1(Z3_mk_eq(C, A(), B())); break;
    case E_ULT: r = bv1(Z3_mk_bvult(C, A(), B())); break;
    case E_ULE: r = bv1(Z3_mk_bvule(C, A(), B())); break;
    case E_SLT: r = bv1(Z3_mk_bvslt(C, A(), B())); break;
    case E_SLE: r = bv1(Z3_mk_bvsle(C, A(), B())); break;
    case E_ITE: r = Z3_mk_ite(C, isT(A()), B(), (Z3_ast)tr(e->c)); break;
    case E_CONCAT: r = Z3_mk_concat(C, A(), B()); break;
    case E_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->val + e->w - 1, (unsigned)e->val, A()); break;
    case E_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, A()); break;
    case E_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, A()); break;
    default: abort();
  }
  if (raw) rawMemo[e] = r; else e->z3 = r;
  return r;
}

// Few variables with few values each (digits, say), too hard for a quick solver run: all assignments are evaluated.
bool Solver::small(const std::vector<EP>& cs, double limit, SatR& res, PartialModel* m) {
  const VarSet* vs = nullptr;
  for (EP e : cs) vs = vs ? vsUnion(vs, e->vs) : e->vs;
  if (!vs || vs->v.size() > 8) return false;
  std::vector<Dom> d(vs->v.size());
  for (auto& x : d) x.set();
  std::vector<EP> rest;
  for (EP e : cs)
    if (e->vs->v.size() == 1) d[std::lower_bound(vs->v.begin(), vs->v.end(), e->vs->v[0]) - vs->v.begin()] &= truthSet(e);
    else rest.push_back(e);
  double prod = 1;
  for (auto& x : d) prod *= x.count();
  if (prod > limit) return false;
  res = R_UNSAT;
  g_ss.small_decided++;
  if (prod == 0) return true;
  Assign a;
  a.v.resize(vs->v.back() + 1, 0);
  std::vector<size_t> at(d.size());
  for (size_t i = 0; i < d.size(); i++) a.v[vs->v[i]] = (uint8_t)(at[i] = d[i]._Find_first());
  for (;;) {
    a.stamp = newStamp();
    bool ok = true;
    for (EP e : rest) if (!evalExpr(e, a)) { ok = false; break; }
    if (ok) {
      res = R_SAT;
      if (m) { m->clear(); for (uint32_t v : vs->v) m->push_back({v, a.v[v]}); }
      return true;
    }
    size_t i = 0;
    for (; i < d.size(); i++) {
      at[i] = d[i]._Find_next(at[i]);
      bool wrap = at[i] >= 256;
      if (wrap) at[i] = d[i]._Find_first();
      a.v[vs->v[i]] = (uint8_t)at[i];
      if (!wrap) break;
    }
    if (i == d.size()) return true;
  }
}

SatR Solver::run(const std::vector<EP>& cs, PartialModel* m) {
  auto t0 = std::chrono::steady_clock::now();
  g_ss.z3_queries++;
  Z3_ast one = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1));
  SatR res = R_UNKNOWN;
  const VarSet* vs = nullptr;
  for (EP e : cs) vs = vs ? vsUnion(vs, e->vs) : e->vs;
  for (int attempt = 0; attempt < 2 && res == R_UNKNOWN; attempt++) {
    if (attempt == 1 && small(cs, 3e6, res, m)) break;
    Z3_solver s;
    if (attempt == 0) { s = (Z3_solver)simple; Z3_solver_push(C, s); }
    else { s = Z3_mk_solver_from_tactic(C, (Z3_tactic)heavyTactic); Z3_solver_inc_ref(C, s); }
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), attempt == 0 ? 300 : timeout_ms);
    Z3_solver_set_params(C, s, p);
    for (EP e : cs) Z3_solver_assert(C, s, Z3_mk_eq(C, (Z3_ast)tr(e), one));
    if (dumped < dumpMax && attempt == 0) {
      std::string fn = dumpDir + "/q" + std::to_string(dumped++) + ".smt2";
      if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); }
    }
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_FALSE) res = R_UNSAT;
    else if (r == Z3_L_TRUE) {
      res = R_SAT;
      if (m) {
        m->clear();
        Z3_model mod = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, mod);
        if (vs)
          for (uint32_t v : vs->v) {
            Z3_ast va = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(C, 8));
            Z3_ast out; uint64_t u = 0;
            if (Z3_model_eval(C, mod, va, true, &out)) Z3_get_numeral_uint64(C, out, &u);
            m->push_back({v, (uint8_t)u});
          }
        Z3_model_dec_ref(C, mod);
      }
    }
    Z3_params_dec_ref(C, p);
    if (attempt == 0) Z3_solver_pop(C, s, 1); else Z3_solver_dec_ref(C, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3_time += dt;
  if (dt > g_ss.z3_max) g_ss.z3_max = dt;
  if (res == R_SAT) g_ss.z3_sat++; else if (res == R_UNSAT) g_ss.z3_unsat++; else g_ss.z3_unknown++;
  return res;
}

SatR Solver::check(std::vector<EP> cs, PartialModel* m, bool useCache) {
  std::sort(cs.begin(), cs.end(), [](EP a, EP b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  for (EP e : cs) if (e->isConst() && !e->val) return R_UNSAT;
  cs.erase(std::remove_if(cs.begin(), cs.end(), [](EP e) { return e->isConst(); }), cs.end());
  if (cs.empty()) { if (m) m->clear(); return R_SAT; }
  std::vector<uint32_t> key;
  for (EP e : cs) key.push_back(e->id);
  if (useCache) {
    auto it = cache.find(key);
    if (it != cache.end() && it->second.r != R_UNKNOWN) { g_ss.cache_hits++; if (m) *m = it->second.m; return it->second.r; }
  }
  Entry en;
  en.r = run(cs, &en.m);
  if (m) *m = en.m;
  cache[key] = en;
  return en.r;
}

SatR Solver::confirm(const std::vector<EP>& cs) {
  auto t0 = std::chrono::steady_clock::now();
  g_ss.x_queries++;
  raw = true;
  Z3_ast one = Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1));
  Z3_solver s = (Z3_solver)simple;
  Z3_solver_push(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 300);
  Z3_solver_set_params(C, s, p);
  for (EP e : cs) Z3_solver_assert(C, s, Z3_mk_eq(C, (Z3_ast)tr(e), one));
  Z3_lbool r = Z3_solver_check(C, s);
  Z3_params_dec_ref(C, p);
  Z3_solver_pop(C, s, 1);
  raw = false;
  g_ss.x_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN;
}
