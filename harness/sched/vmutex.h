// Included before everything else: replaces absl::Mutex by a stand-in whose
// operations ask the controlled scheduler (vsched.h) which thread runs next.
#ifndef VERIF_MUTEX_H_
#define VERIF_MUTEX_H_
#include "absl/synchronization/mutex.h"

#include <functional>

// Users of the real one.
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/container/btree_map.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/strings/cord.h"
#include "absl/synchronization/notification.h"
#include "vsched.h"

namespace absl {
namespace verif_sched {

class Condition {
 public:
  Condition() : eval_([] { return true; }) {}
  template <typename T>
  Condition(bool (*f)(T*), T* arg) : eval_([f, arg] { return f(arg); }) {}
  template <typename T>
  Condition(T* obj, bool (T::*m)()) : eval_([obj, m] { return (obj->*m)(); }) {}
  template <typename T>
  Condition(const T* obj, bool (T::*m)() const)
      : eval_([obj, m] { return (obj->*m)(); }) {}
  explicit Condition(const bool* b) : eval_([b] { return *b; }) {}
  template <typename F, typename = decltype(static_cast<bool (F::*)() const>(
                            &F::operator()))>
  explicit Condition(const F* f) : eval_([f] { return (*f)(); }) {}
  bool Eval() const { return eval_(); }

 private:
  std::function<bool()> eval_;
};

class Mutex {
 public:
  Mutex() = default;
  Mutex(const Mutex&) = delete;
  void Lock() { sched::DoLock(this, nullptr); }
  void Unlock() { sched::MutexUnlock(this); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool TryLock() { return sched::MutexTryLock(this); }
  void AssertHeld() const {}
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void LockWhen(const Condition& c) {
    std::function<bool()> f = [&c] { return c.Eval(); };
    sched::DoLock(this, &f);
  }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  void Await(const Condition& c) {
    std::function<bool()> f = [&c] { return c.Eval(); };
    sched::MutexAwait(this, &f);
  }
};

class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLock(Mutex& m, const Condition& c) : m_(&m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }

 private:
  Mutex* m_;
};

class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  ~ReleasableMutexLock() {
    if (m_) m_->Unlock();
  }
  void Release() {
    m_->Unlock();
    m_ = nullptr;
  }

 private:
  Mutex* m_;
};

class CondVar {
 public:
  void Wait(Mutex* m) { sched::CvWait(this, m); }
  void Signal() { sched::CvSignal(this, false); }
  void SignalAll() { sched::CvSignal(this, true); }
};

}  // namespace verif_sched
using VerifCondition = verif_sched::Condition;
using VerifCondVar = verif_sched::CondVar;
using VerifMutex = verif_sched::Mutex;
using VerifMutexLock = verif_sched::MutexLock;
using VerifReleasableMutexLock = verif_sched::ReleasableMutexLock;
}  // namespace absl
#define Condition VerifCondition
#define CondVar VerifCondVar
#define Mutex VerifMutex
#define MutexLock VerifMutexLock
#define ReaderMutexLock VerifMutexLock
#define WriterMutexLock VerifMutexLock
#define ReleasableMutexLock VerifReleasableMutexLock
#endif
