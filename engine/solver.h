// Path-condition solver: exact per-byte domains for unary constraints, Z3 for everything else.
#pragma once
#include "expr.h"
#include <vector>

struct PathCond {
  std::vector<Expr*> cons;               // constraints over two or more input bytes
  std::vector<const Bitmap*> dom;        // per var: allowed values (nullptr = all), from constraints over that byte only
  std::vector<u8> ent;                   // per var: occurs in some multi-byte constraint
};

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  u64 queries = 0, domainDecided = 0, modelHits = 0, guessHits = 0, cacheHits = 0, z3Calls = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0;
  u64 assertQueries = 0;
  double z3Time = 0, z3Max = 0;
};
extern SolverStats g_ss;
extern bool g_noDomain;
extern unsigned g_rlimit;

void solverInit();
// is pc && q satisfiable?  m satisfies pc. On Sat *out satisfies pc && q.
Res solverCheck(const PathCond& pc, Expr* q, const ModelRef& m, ModelRef* out, bool forceZ3 = false);
// adds c (known consistent) to pc
void pcAdd(PathCond& pc, Expr* c);
const Bitmap* internBitmap(const Bitmap& b);
Expr* domExpr(u32 var, const Bitmap* b);
bool pcSingletons(const PathCond& pc, Expr* e); // all vars of e are fixed by their domains
