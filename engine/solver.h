#pragma once
#include "expr.h"
#include <z3.h>
struct SolverStats { u64 z3Queries=0,z3Sat=0,z3Unsat=0,z3Unknown=0,cacheHits=0,domDecided=0,modelDecided=0,crossChecked=0; double z3Time=0; };
struct Solver {
  Z3_context ctx=nullptr; Z3_solver s=nullptr; std::vector<Z3_ast> bvc; std::vector<Z3_ast> lits; size_t nlits=0;
  std::unordered_map<std::string,std::pair<int,std::vector<std::pair<u32,u64>>>> cache;
  SolverStats st; unsigned timeoutMs=120000;
  void reset();
  Z3_ast lower(Expr*e); Z3_ast bv(Expr*e);
  // 1 sat,0 unsat,-1 unknown
  int check(std::vector<Expr*> cs, std::vector<std::pair<u32,u64>>& model);
  std::vector<std::pair<Expr*,Z3_ast>> symAst;
};
