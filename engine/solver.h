#pragma once
#include "expr.h"
#include <memory>
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, fallback = 0, algebraic = 0; double time = 0; double maxTime = 0; };
extern SolverStats g_ss;
typedef std::map<uint32_t, std::pair<double, uint64_t>> Model;   // var -> (double, bv)
void solverInit(unsigned timeoutMs, unsigned hardTimeoutMs);
// satisfiability of the conjunction of cs (all of them).
Res solveRaw(const std::vector<Expr*>& cs, Model* m, const std::vector<Expr*>* modelVarsOf, bool hard);
// slice cs to what is connected to the variables of q (always keeps variable-free constraints)
std::vector<Expr*> slice(const std::vector<Expr*>& cs, Expr* q);

// is x == y an algebraic consequence of the equalities in path?
bool algEqual(Expr* x, Expr* y, const std::vector<Expr*>& path);
