// Own bit-blaster (hash-consed gate graph) on top of MiniSat.
#pragma once
#include "expr.h"
// returns 1 sat, 0 unsat, -1 unknown (budget) / unsupported operators. `core` receives the indices of `cs` used (unsat).
int satSolve(const std::vector<E>& cs, const std::vector<E>& acks, const std::vector<E>& vars, const std::vector<E>& sels,
             int timeoutMs, Model* model, std::vector<int>* core);
