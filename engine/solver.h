#pragma once
#include "expr.h"
#include "poly.h"
#include <z3++.h>
#include <random>
#include <set>
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries=0, bvq=0, lraq=0, nraq=0, cached=0, unsat=0, sat=0, unknown=0, cand=0; double secs=0; };
extern SolverStats g_st;
struct Solver {
    z3::context c; z3::solver bv; std::unordered_map<Node*,z3::expr> memo; std::vector<Node*> stack; int ndecl=0; std::mt19937 rng{12345};
    unsigned nraTimeout=8000, bvTimeout=60000;
    struct Cached { Res r; std::vector<std::pair<int,u64>> iv; std::vector<std::pair<int,mpq_class>> rv; };
    std::unordered_map<std::string,Cached> cache;
    Solver();
    z3::expr tr(Node*n);
    // is pc /\ goal satisfiable?  on SAT, out is a completed model
    Res check(const std::vector<Node*>&pc, Node*goal, const Model&cur, Model&out, bool wantNumeric=false);
private:
    Res checkBV(const std::vector<Node*>&pc, Node*goal, const Model&cur, Model&out);
    bool lazyUnsat(const std::vector<Node*>&); Res checkReal(const std::vector<Node*>&rel, const Model&cur, Model&out);
    struct Tr; 
};
