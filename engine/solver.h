// Satisfiability queries (Z3) over Expr constraints with slicing, model reuse and caching.
#pragma once
#include "expr.h"

struct SolverStats { u64 renewed = 0;
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fpQueries = 0, fastInterval = 0;
    double seconds = 0, maxSeconds = 0;
};
extern SolverStats gSolverStats;
extern unsigned gRlimit;       // z3 resource limit per query
extern double gSlowQueryLog;

ModelRef newModel(const std::vector<u64>& v);

// Is pc && extra satisfiable?  'base' satisfies pc.  1 sat (out = model of the whole pc && extra), 0 unsat, -1 unknown
int solverCheck(const std::vector<Expr*>& pc, Expr* extra, const ModelRef& base, ModelRef& out);
extern double gSolverDeadline;  // steady_clock seconds
