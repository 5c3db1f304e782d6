#pragma once
#include "expr.h"
#include <memory>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, simplified = 0; double secs = 0, maxq = 0; };
extern SolverStats g_ss;
extern unsigned g_timeout_ms;
// Is cons[] /\ extra satisfiable?  On Sat fills m (starting from base for the
// variables that the sliced query does not mention).
Res solve(const std::vector<E>& cons, E extra, const Model* base, Model& m, unsigned timeout_ms, bool absOnly = false);
Res solveInc(const std::vector<E>& cons, E extra, Model& m);
const std::vector<uint32_t>& varsOf(E e);
