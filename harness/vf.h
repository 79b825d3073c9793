// Small exhaustive-exploration driver shared by all checks.
//
// A check registers a finite, ordered list of cases (each one a point of the enumerated space, or a block of such points
// that it walks itself).  The driver runs ALL of them, striped statically over worker processes so that every worker's
// history is reproducible, catches crashes and hangs, re-runs every failing case before reporting it (alone in a fresh
// process first; if it only fails after its predecessors, the whole prefix is re-run), writes a replay file and the
// evidence file, and exits 0 or 1.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf
{
uint64_t hashStr(const std::string& s);
inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

struct Failure
{
  std::string msg;
};

/** Handed to each case */
class Ctx
{
public:
  std::string case_id;
  bool thorough = false;

  /** Fails the case (throws) */
  [[noreturn]] void fail(const std::string& msg);
  [[noreturn]] void fail(const std::string& msg, const std::string& detail) { fail(msg + ": " + detail); }
  template <class... A>
  void require(bool ok, A&&... parts)
  {
    if (ok)
      return;
    std::ostringstream ss;
    ss.precision(17);
    (ss << ... << parts);
    fail(ss.str());
  }
  /** |a-b| <= tol, rejects NaN */
  template <class... A>
  void near(double a, double b, double tol, A&&... parts)
  {
    require(std::fabs(a - b) <= tol, std::forward<A>(parts)..., ": got ", a, ", expected ", b, " (tolerance ", tol, ")");
  }

  /** One execution of the code under test was checked; sig identifies the (input, outcome) pair */
  void eval(uint64_t sig)
  {
    ++evals;
    sigs.insert(sig);
  }
  void eval(const std::string& sig) { eval(hashStr(sig)); }
  /** the same for inputs that the enumeration itself makes different */
  void eval() { eval(hashStr(case_id + "#" + std::to_string(evals))); }
  /** Explicit-state counters (model-checking style checks) */
  void state(uint64_t s) { states.insert(s); }
  void transition(uint64_t n = 1) { transitions += n; }
  void trace(uint64_t n = 1) { traces += n; }
  /** Record a human readable outcome class (for the distinct-outcome report) */
  void outcome(const std::string& o) { ++outcomes[o]; }

  uint64_t evals = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> sigs, states;
  std::map<std::string, uint64_t> outcomes;
};

using CaseFn = std::function<void(Ctx&)>;

struct Suite
{
  std::string property;
  std::string level = "exploration";
  std::string rule;
  std::vector<std::string> assumptions;
  bool thorough = false;
  double case_timeout = 120;
  std::vector<std::pair<std::string, CaseFn>> cases;
  void add(const std::string& id, CaseFn fn) { cases.emplace_back(id, std::move(fn)); }
};

/** Each check implements this: fill the suite for the tier in s.thorough */
void define(Suite& s);
}  // namespace vf
