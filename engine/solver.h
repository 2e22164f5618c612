#pragma once
#include "expr.h"
#include <memory>
#include <string>
#include <vector>
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, trivial = 0;
    double time = 0, maxTime = 0;
    uint64_t fullQueries = 0;
};
extern SolverStats sstats;
extern double queryTimeout;          // seconds, for one-shot solving
// Is (pc and cond) satisfiable?  On SAT fills symbol values (of relevant symbols) into out.
Res solve(const std::vector<const Expr *> &pc, const V &cond, std::unordered_map<uint32_t, u128> &out, bool hard = false);
void dumpSmt2(const std::vector<const Expr *> &pc, const V &cond, const std::string &path);
void interruptOverdue();                // called from another thread: stops a query far beyond its limit
