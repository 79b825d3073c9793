// Stands in for the free function ceres::Solve: the harness can bound the number of iterations and learns how the run ended.
#pragma once
#include <ceres/ceres.h>

static int limit = -1;       // the iteration limit under which the solver runs (-1: the code's own)
static bool solved = false;  // set by every run
static ceres::TerminationType ended;
namespace ceres
{
void Solve(const Solver::Options& o, Problem* p, Solver::Summary* s)
{
  Solver::Options q = o;
  if (limit >= 0)
    q.max_num_iterations = limit;
  Solver().Solve(q, p, s);
  solved = true;
  ended = s->termination_type;
}
}  // namespace ceres
struct Limit
{
  Limit(int n) { limit = n; }
  ~Limit() { limit = -1; }
};
