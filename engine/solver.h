// SMT back end (z3) and the equivalence prover (simulation-guided SAT sweeping).
#pragma once
#include "term.h"
#include <map>

struct SolverStats
{
	u64 queries = 0, unsat = 0, sat = 0, unknown = 0, lemmaHits = 0, lemmas = 0, merges = 0, identical = 0, affine = 0, pinned = 0;
	double solverSecs = 0;
	double maxQuery = 0;
};
extern SolverStats ss;
extern unsigned long long rngSeed;

enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
typedef std::map<T, u128> Model;   // VAR term -> value

// conjunction of 1-bit terms
SatRes checkSat(const std::vector<T> &conj, unsigned timeoutMs, Model *model);
// c is v for every value of its deeper subterms (cheap, incomplete)
bool locallyConst(T c, bool v);
// evaluates under a model (absent variables are 0)
u128 evalUnder(T t, const Model &m);

enum ProveRes { P_PROVED, P_CEX, P_UNKNOWN };
// prove that all pairs are equal under the path condition
ProveRes proveEqual(const std::vector<std::pair<T, T>> &pairs, const std::vector<T> &pc, Model *cex, double budgetSecs);

void solverReset();   // forget translations (terms were cleared)
double nowSecs();
