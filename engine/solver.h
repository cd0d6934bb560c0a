// z3 back end: translation of expressions, sliced + cached satisfiability queries.
#pragma once
#include "expr.h"
#include <z3.h>
#include <map>

enum FpMode { FP_IEEE, FP_REAL };
enum Sat { SAT, UNSAT, UNKNOWN };

typedef std::vector<uint64_t> Model;  // var index -> value (bit pattern)

struct SolverStats {
  uint64_t absUnsat = 0, queries = 0, solverCalls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, cvc5 = 0;
  double time = 0, maxTime = 0;
};

struct Unsupported { std::string what; };

struct Solver {
  FpMode mode = FP_IEEE;
  unsigned timeoutMs = 60000;
  SolverStats st;
  std::string dumpDir; unsigned dumpN = 0, dumpMax = 0;
  std::string cvc5Path; bool useCvc5 = true;
  // Second instance in which multiplication, division and fp arithmetic are
  // uninterpreted functions: unsat there implies unsat.
  bool abstractArith = false;
  Solver *abs = nullptr;

  void init();
  // is (conj of cs) && extra satisfiable?  cs assumed satisfiable on its own when sliced.
  Sat check(const std::vector<Expr *> &cs, Expr *extra, Model *m);
  // model for everything (no slicing)
  Sat full(const std::vector<Expr *> &cs, Model *m);

 private:
  Z3_context ctx = nullptr;
  Z3_solver s = nullptr;
  unsigned lits = 0;
  std::unordered_map<Expr *, Z3_ast> bvMemo, fpMemo, litMemo;
  std::unordered_map<Expr *, bool> sideDone;
  std::vector<Z3_ast> sides;
  Z3_sort sF32, sF64, sReal, sBool;
  Z3_ast rne;
  Z3_func_decl ufd[UF_N];
  std::vector<std::pair<Expr *, Z3_ast>> ufApps;
  struct KeyHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = 1469598103934665603ULL; for (auto x : v) h = ExprPool::mix(h, x); return h; } };
  struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
  std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> cache;

  void reset();
  void mkSolver();
  Z3_ast bv(Expr *e);      // bit-vector view
  Z3_ast boolv(Expr *e);   // Bool view of a width 1 expression
  Z3_ast fp(Expr *e);      // FP (ieee) or Real view
  Z3_ast lit(Expr *e);
  Z3_sort bvSort(int w) { return Z3_mk_bv_sort(ctx, w); }
  void collectSides(Expr *e);
  Sat run(const std::vector<Expr *> &q, Model *m);
  Sat cvc5Check(const std::vector<Expr *> &q);
  void extract(Z3_model m, const std::vector<Expr *> &q, Model *out, std::vector<std::pair<uint32_t, uint64_t>> *vals);
  std::vector<Z3_ast> keep;
  std::map<std::string, Z3_func_decl> absFn;
  Z3_ast absApp(Expr *e);
  double realVal(Z3_model m, Z3_ast a);
 public:
  std::string lastReason;
};
