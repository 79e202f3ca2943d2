#ifndef SYM_SOLVER_H
#define SYM_SOLVER_H
#include "expr.h"
#include <map>
#include <string>

struct SolverStats
{
 uint64_t queries = 0;      // queries decided by Z3
 uint64_t sat = 0, unsat = 0, unknown = 0;
 uint64_t cache_hits = 0;
 uint64_t model_hits = 0;   // side decided by evaluating a known model
 double seconds = 0;
 double slowest = 0;
};
extern SolverStats g_solver_stats;
extern unsigned g_solver_timeout_ms;
extern double g_solver_deadline;

enum class Sat {sat, unsat, unknown};

// Decide constraints /\ cond. On sat, fills model (complete with respect to base for untouched variables).
Sat solve(const std::vector<Expr *> &constraints, Expr *cond, const Model &base, Model &out);
void solver_init();
std::string to_smt2(const std::vector<Expr *> &constraints);
#endif
