// mc.h - a small stateless model checker for C++ code.
//
// A scenario is an ordinary function that drives the real implementation and
// asks the explorer for every decision it needs (which operation next, which
// argument, which answer the environment gives) through Ctx::choose(). The
// explorer runs the scenario once for every possible sequence of answers
// (depth-first, always from a fresh start), so that together the runs cover
// the scenario's whole bounded space of behaviours. After every step the
// scenario compares the implementation with a reference model by
// Ctx::check().
//
//  * Runs are spread over forked workers; a sanitizer report, a signal, an
//    abort or a hang in a worker is attributed to the run that was in progress,
//    replayed on its own, and reported as a violation.
//  * Every violation is replayed before it is reported; the replay must give
//    the same verdict.
//  * Allocations are counted per run: memory the run did not give back is a
//    violation unless the scenario opts out.
//  * Ctx::seen() offers optional state matching for deep explorations (the
//    canonical state must determine all futures).
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Failure {
  std::string msg;
};
struct KnownFinding {
  std::string id;
};
// Thrown by Ctx::prune(): this run is not a behaviour of interest.
struct Prune {};

class Ctx {
 public:
  // Nondeterministic choice of a value in [0, n).
  int choose(int n, const char* label = "");
  bool flip(const char* label = "") { return choose(2, label) != 0; }
  template <typename T>
  T pick(std::initializer_list<T> l, const char* label = "") {
    return *(l.begin() + choose(static_cast<int>(l.size()), label));
  }
  template <typename T>
  const T& pick(const std::vector<T>& l, const char* label = "") {
    return l[choose(static_cast<int>(l.size()), label)];
  }
  // Records one executed operation (a transition); the text is only formatted
  // when the run is being recorded.
  void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // Extra information for the recorded trace; not counted.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void check(bool ok, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));
  // True if the current point of the run was not reached by an earlier run
  // with the same choices: expensive comparisons need to be made only then.
  bool fresh() const { return choices_.size() >= forced_.size(); }
  // Counts n checks done without calling check() (bulk comparisons).
  void bulk(uint64_t n) { bulk_ += n; }
  // Registers a visited state (canonical text). Coverage accounting only.
  void state(const std::string& canon);
  void state_hash(uint64_t h);
  // State matching: true if `canon` was already explored with at least
  // `remaining` further steps. The scenario then ends the run.
  bool seen(const std::string& canon, int remaining);
  // Ends the run with a finding that is listed in known_findings.json.
  [[noreturn]] void known(const char* id) { throw KnownFinding{id}; }
  [[noreturn]] void prune() { throw Prune{}; }
  bool recording() const { return recording_; }
  // Distinct observed outcomes (for vacuity reading).
  void outcome(const std::string& o);
  // Leak accounting is on by default.
  void ignore_leaks() { leak_check_ = false; }
  bool thorough() const;

 // Used by the explorer only.
  std::vector<int> forced_;
  std::vector<int> choices_, arity_;
  bool recording_ = false;
  bool leak_check_ = true;
  bool owned_ = true;
  uint64_t bulk_ = 0;
  uint64_t ops_ = 0;
  std::string text_;
  class Explorer* ex_ = nullptr;
};

struct Scenario {
  const char* name;
  std::function<void(Ctx&)> body;
  // Number of leading choices used to spread the runs over the workers.
  int prefix = 2;
  // Only explored in the thorough tier.
  bool thorough_only = false;
};

// Runs fn and returns true if it aborts (failed assertion / hardening check,
// LOG(FATAL)). Memory held by the abandoned call is not accounted for.
bool Dies(const std::function<void()>& fn);

// Suspends allocation accounting in a scope (for lasting harness caches).
struct NoTrack {
  NoTrack();
  ~NoTrack();
  bool prev;
};

// Sets whether allocations are accounted for; returns what it was.
bool SetTracking(bool on);

int Main(int argc, char** argv, const char* property,
         const std::vector<Scenario>& scenarios, const char* bounds,
         std::initializer_list<const char*> assumptions = {});

inline std::string S(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
inline std::string S(const char* fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}

}  // namespace mc
#endif
