#pragma once
#include "expr.h"
struct SolverStats
{
    u64 queries = 0, z3calls = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, refinements = 0;
    double z3time = 0, maxtime = 0;
};
extern SolverStats SST;
extern double solverDeadline;
void solverInit(unsigned timeoutMs);
// decide the conjunction; 1 sat (model values of all symbols in the conjunction stored into m), 0 unsat, -1 unknown
int  solverCheck(const std::vector<Expr*>& cs, Model& m);
std::string solverVersion();
std::string toSmt2(const std::vector<Expr*>& cs);
