#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, domQueries = 0, domCache = 0; double time = 0; };
extern SolverStats g_ss;
enum SRes { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };
// Is the conjunction of `cs` (width-1 terms) with the byte domains `doms` of the variables in `vars` satisfiable?
// On S_SAT the bytes of `vars` are written to model.
SRes solverCheck(const std::vector<Expr *> &cs, const Dom *doms, u64 vars, u8 *model);
// single-variable split, discharged by Z3 once per distinct (domain, table) pair; aborts on disagreement with `expect`
void solverConfirmDom(const Dom &dom, Expr *tab, bool expect);
extern unsigned g_solverTimeoutMs;
