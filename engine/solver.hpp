#pragma once
#include "expr.hpp"
#include <memory>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, slow = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
void solverInit(double timeoutS);
// satisfiability of the conjunction; on Sat fills `out` (only variables occurring in cs)
Res solverCheck(const std::vector<Expr*>& cs, Model& out);
