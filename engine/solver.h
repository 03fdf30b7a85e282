#pragma once
#include "expr.h"
#include <functional>

enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0;
    double time = 0, extTime = 0;
    std::map<std::string, uint64_t> byBackend;   // obligations discharged by back end
    std::map<std::string, double> timeByBackend;
};
extern SolverStats gStats;
extern std::string gTmpDir;
extern int gFeasTimeoutMs, gOblTimeoutMs, gExtTimeoutS;

// satisfiability of conj(constraints) && extra; only the slice related to `extra` is used if slice=true
Res solve(const std::vector<E>& constraints, E extra, Model* model, bool obligation, std::string* backend = nullptr, bool slice = true);
