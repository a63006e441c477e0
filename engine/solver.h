#pragma once
#include "expr.h"
#include <map>
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_sstats;
extern bool g_fpUF;          // treat FP operations as uninterpreted functions
extern unsigned g_queryTimeoutMs; extern volatile int g_stop;
enum Res { SAT, UNSAT, UNKNOWN };
// Is (constraints /\ cond) satisfiable?  constraints are those of the path.
// On SAT, newModel = base model overwritten by the values of the symbols involved.
Res checkSat(const std::vector<E>& constraints, E cond, const Model& base, Model& newModel);
void dumpSmt(const std::vector<E>& cs, const std::string& path);
