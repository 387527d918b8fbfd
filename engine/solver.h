#pragma once
#include "expr.h"
#include <memory>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double z3time = 0, maxq = 0; };
extern SolverStats gSolverStats;
extern unsigned gSolverTimeoutMs;
extern std::string gDumpDir;   // when set, assertion queries are written there as SMT-LIB2
// Is (conjunction of the constraints related to q) & q satisfiable? On Sat, 'out' holds 'base' updated with a witness.
Res solve(const std::vector<E>& pc, E q, const Model& base, Model& out, bool dump = false);
