// A controlled scheduler: threads are fibers, and the explorer decides at every
// visible operation which of them runs next. Visible operations are those of
// absl::Mutex (stand-in in this directory), atomics of instrumented code, and
// Point() calls of the harness. Accesses of instrumented code to watched memory
// are checked for data races with vector clocks (over all explored schedules),
// which makes it sufficient to switch at visible operations.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace mc {
class Ctx;
}
namespace sched {

// Runs the threads to completion under all schedules with at most
// `max_preemptions` preemptions (-1: all).
class Scheduler;
struct Options {
  int max_preemptions = -1;
  int max_points = 3000;  // more scheduling points than this: a livelock
};
// Adds a thread; `fair` threads run only if no other thread is enabled (after
// they called Idle()).
void Start(mc::Ctx& c, const Options& o);
void Spawn(const std::string& name, std::function<void()> body);
void Run();  // returns when all threads have ended; Ctx::fail on a deadlock
// Memory watched for data races.
void Watch(const void* p, size_t n);

// For thread bodies:
void Point(const char* what);  // a visible operation follows
// The thread continues when no other thread can (fairness of endless loops).
void Idle(const char* what);
// Blocks until cond holds.
void WaitFor(const std::function<bool()>& cond, const char* what);
int Current();  // -1 outside threads
bool Finished(int thread);
uint64_t Preemptions();

// For the stand-in of absl::Mutex:
void DoLock(void* m, std::function<bool()>* cond);
bool MutexTryLock(void* m);
void MutexUnlock(void* m);
void MutexAwait(void* m, std::function<bool()>* cond);
void CvWait(void* cv, void* m);
void CvSignal(void* cv, bool all);

}  // namespace sched
#endif
