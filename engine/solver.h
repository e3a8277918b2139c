#pragma once
#include "expr.h"
#include <memory>
namespace jsym {
using Cons = std::vector<E>; // conjunction of width-1 terms
enum class Sat { Yes, No, Unknown };
struct SolverStats { u64 queries = 0, z3 = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, xchecks = 0, xagree = 0, table = 0, slow = 0; double time = 0, maxTime = 0; };
struct Solver {
    Solver(unsigned timeoutMs);
    ~Solver();
    // is (pc and q) satisfiable? m holds a model of pc on entry; on Yes it is updated to a model of pc and q
    Sat check(const Cons& pc, E q, Model& m);
    SolverStats st;
    bool mismatch = false;   // a z3 model did not satisfy our own evaluation
    std::string crosscheckDir; unsigned crosscheckEvery = 0;
    struct Impl; std::unique_ptr<Impl> p;
};
extern std::vector<VarInfo> g_vars;
}
