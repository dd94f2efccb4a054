#include "vsched.h"

#include <sys/mman.h>

#include <cstdint>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <vector>

#include "mc.h"

// Saves the callee-saved registers on the stack, and its pointer in *from.
extern "C" void vsched_switch(void** from, void* to);
asm(R"(
.text
.globl vsched_switch
.type vsched_switch,@function
vsched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vsched_switch,.-vsched_switch
)");

extern "C" {
void __asan_unpoison_memory_region(const volatile void*, size_t);
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t n);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom,
                                     size_t* n);
}

namespace sched {
namespace {

constexpr int kMax = 4;
constexpr size_t kStack = 128 * 1024;
using Clock = std::vector<uint32_t>;

struct Thread {
  std::string name;
  std::function<void()> body;
  void* sp = nullptr;
  char* stack = nullptr;
  void* fake = nullptr;
  bool done = false;
  bool idle = false;
  std::function<bool()> enabled;  // empty: runnable
  std::string what;
  Clock vc;
};

struct Cell {  // per 1 byte
  uint32_t write_time = 0, read_time[kMax] = {};
  int writer = -1;
};

struct State {
  mc::Ctx* c = nullptr;
  Options o;
  std::vector<Thread*> threads;
  int current = -1;
  void* main_sp = nullptr;
  void* main_fake = nullptr;
  const void* main_bottom = nullptr;
  size_t main_size = 0;
  std::exception_ptr error;
  int preemptions = 0, points = 0;
  std::map<void*, int> owner;  // of mutexes
  std::map<void*, Clock> released;
  std::map<void*, std::set<int>> waiting;  // on condition variables
  const char* lo = nullptr;
  size_t size = 0;
  std::vector<Cell> cells;
  bool quiet = false;  // no race detection (evaluation of conditions)
  std::string race;
};
State* st = nullptr;
char* stacks[kMax];

void Join(Clock& a, const Clock& b) {
  if (a.size() < kMax) a.resize(kMax);
  for (size_t i = 0; i < b.size(); i++) {
    if (b[i] > a[i]) a[i] = b[i];
  }
}

void Entry() {
  Thread* t = st->threads[st->current];
  __sanitizer_finish_switch_fiber(nullptr, &st->main_bottom, &st->main_size);
  try {
    mc::SetTracking(true);
    t->body();
  } catch (...) {
    st->error = std::current_exception();
  }
  t->done = true;
  // The frames of this stack are gone when it is used again.
  __sanitizer_start_switch_fiber(nullptr, st->main_bottom, st->main_size);
  vsched_switch(&t->sp, st->main_sp);
}

void ToMain() {
  Thread* t = st->threads[st->current];
  bool tracking = mc::SetTracking(false);
  __sanitizer_start_switch_fiber(&t->fake, st->main_bottom, st->main_size);
  vsched_switch(&t->sp, st->main_sp);
  __sanitizer_finish_switch_fiber(t->fake, nullptr, nullptr);
  mc::SetTracking(tracking);
}

bool Enabled(Thread* t) {
  if (t->done) return false;
  if (!t->enabled) return true;
  st->quiet = true;
  bool e = t->enabled();
  st->quiet = false;
  return e;
}

// Called by the current thread before a visible operation, or when blocked.
void Yield(const char* what, std::function<bool()> enabled = {}) {
  Thread* t = st->threads[st->current];
  t->what = what;
  t->enabled = std::move(enabled);
  ToMain();
  t->enabled = nullptr;
}

bool InThread() { return st != nullptr && st->current >= 0; }

void Acquired(void* m) {
  st->owner[m] = st->current;
  Join(st->threads[st->current]->vc, st->released[m]);
}
void Released(void* m) {
  Thread* t = st->threads[st->current];
  Join(st->released[m], t->vc);
  t->vc[st->current]++;
  st->owner.erase(m);
}

}  // namespace

void Start(mc::Ctx& c, const Options& o) {
  mc::NoTrack nt;
  if (st) {  // left by a run that failed
    for (auto* t : st->threads) delete t;
    delete st;
  }
  st = new State;
  st->c = &c;
  st->o = o;
}

void Spawn(const std::string& name, std::function<void()> body) {
  mc::NoTrack nt;
  auto* t = new Thread;
  int i = st->threads.size();
  if (!stacks[i]) {
    stacks[i] = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  __asan_unpoison_memory_region(stacks[i], kStack);
  t->name = name;
  t->body = std::move(body);
  t->stack = stacks[i];
  t->what = "start";
  t->vc.assign(kMax, 0);
  t->vc[i] = 1;
  auto* top = reinterpret_cast<void**>(t->stack + kStack);
  *--top = nullptr;  // return address of Entry
  *--top = reinterpret_cast<void*>(&Entry);
  for (int r = 0; r < 6; r++) *--top = nullptr;
  t->sp = top;
  st->threads.push_back(t);
}

void Watch(const void* p, size_t n) {
  mc::NoTrack nt;
  st->lo = static_cast<const char*>(p);
  st->size = n;
  st->cells.assign(n, Cell());
}

void Run() {
  int last = -1;
  std::string fail;
  while (true) {
    std::vector<int> ready;
    bool alive = false;
    {
      mc::NoTrack nt;
      std::vector<int> idle;
      for (size_t i = 0; i < st->threads.size(); i++) {
        auto* t = st->threads[i];
        if (t->done) continue;
        alive = true;
        if (!Enabled(t)) continue;
        (t->idle ? idle : ready).push_back(i);
      }
      if (ready.empty()) ready = idle;
    }
    if (!alive) break;
    if (ready.empty()) {
      fail = "deadlock:";
      for (auto* t : st->threads) {
        if (!t->done) fail += " " + t->name + " waits in " + t->what + ";";
      }
      break;
    }
    if (++st->points > st->o.max_points) {
      fail = "livelock:";
      for (auto* t : st->threads) {
        if (!t->done) fail += " " + t->name + " in " + t->what + ";";
      }
      break;
    }
    bool last_ready = false;
    {
      mc::NoTrack nt;
      for (size_t i = 0; i < ready.size(); i++) {
        if (ready[i] == last) {
          ready.erase(ready.begin() + i);
          ready.insert(ready.begin(), last);
          last_ready = true;
          break;
        }
      }
    }
    int pick = 0;
    if (ready.size() > 1 &&
        !(last_ready && st->o.max_preemptions >= 0 &&
          st->preemptions >= st->o.max_preemptions)) {
      pick = st->c->choose(ready.size(), "thread");
    }
    if (pick && last_ready) st->preemptions++;
    int next = ready[pick];
    auto* t = st->threads[next];
    if (next != last) {
      st->c->note("-- %s continues with %s", t->name.c_str(), t->what.c_str());
    }
    t->idle = false;
    last = st->current = next;
    bool tracking = mc::SetTracking(false);
    __sanitizer_start_switch_fiber(&st->main_fake, t->stack, kStack);
    vsched_switch(&st->main_sp, t->sp);
    __sanitizer_finish_switch_fiber(st->main_fake, nullptr, nullptr);
    mc::SetTracking(tracking);
    st->current = -1;
    if (st->error || !st->race.empty()) break;
  }
  mc::Ctx* c = st->c;
  auto error = st->error;
  std::string race = st->race;
  {
    mc::NoTrack nt;
    for (auto* t : st->threads) delete t;
    delete st;
    st = nullptr;
  }
  if (error) std::rethrow_exception(error);
  if (!race.empty()) c->fail("%s", race.c_str());
  if (!fail.empty()) c->fail("%s", fail.c_str());
}

void Point(const char* what) {
  if (InThread()) Yield(what);
}
void Idle(const char* what) {
  if (!InThread()) return;
  st->threads[st->current]->idle = true;
  Yield(what);
}
void WaitFor(const std::function<bool()>& cond, const char* what) {
  if (!InThread()) return;
  mc::NoTrack nt;
  Yield(what, cond);
}
int Current() { return st ? st->current : -1; }
bool Finished(int i) { return st->threads[i]->done; }
uint64_t Preemptions() { return st->preemptions; }

void DoLock(void* m, std::function<bool()>* cond) {
  if (!InThread()) return;
  mc::NoTrack nt;
  Yield("Lock", [m, cond] {
    return !st->owner.count(m) && (cond == nullptr || (*cond)());
  });
  Acquired(m);
}
bool MutexTryLock(void* m) {
  if (!InThread()) return true;
  mc::NoTrack nt;
  Yield("TryLock");
  if (st->owner.count(m)) return false;
  Acquired(m);
  return true;
}
void MutexUnlock(void* m) {
  if (!InThread()) return;
  mc::NoTrack nt;
  auto it = st->owner.find(m);
  if (it == st->owner.end() || it->second != st->current) {
    st->race = "a thread unlocks a mutex it does not hold";
    return;
  }
  Released(m);
}
void MutexAwait(void* m, std::function<bool()>* cond) {
  if (!InThread()) return;
  mc::NoTrack nt;
  auto it = st->owner.find(m);
  if (it == st->owner.end() || it->second != st->current) {
    st->race = "a thread waits with a mutex it does not hold";
    return;
  }
  if ((*cond)()) {
    // Bounds loops around conditions that hold.
    if (++st->points > st->o.max_points) {
      st->race = "livelock: a thread loops, holding the mutex";
      ToMain();
    }
    return;
  }
  Released(m);
  Yield("Await", [m, cond] { return !st->owner.count(m) && (*cond)(); });
  Acquired(m);
}
void CvWait(void* cv, void* m) {
  if (!InThread()) return;
  mc::NoTrack nt;
  int self = st->current;
  st->waiting[cv].insert(self);
  Released(m);
  Yield("CondVar::Wait", [cv, m, self] {
    return !st->waiting[cv].count(self) && !st->owner.count(m);
  });
  Acquired(m);
}
void CvSignal(void* cv, bool all) {
  if (!InThread()) return;
  mc::NoTrack nt;
  auto& w = st->waiting[cv];
  if (w.empty()) return;
  if (all) {
    w.clear();
  } else {
    auto it = w.begin();
    if (w.size() > 1) std::advance(it, st->c->choose(w.size(), "wakes"));
    w.erase(it);
  }
}

namespace {
void Access(const void* p, size_t n, bool write, void* pc) {
  if (!InThread() || st->quiet || st->size == 0) return;
  const char* a = static_cast<const char*>(p);
  if (a + n <= st->lo || a >= st->lo + st->size) return;
  if (!st->race.empty()) return;
  mc::NoTrack nt;
  int self = st->current;
  Thread* t = st->threads[self];
  for (size_t i = 0; i < n; i++) {
    if (a + i < st->lo || a + i >= st->lo + st->size) continue;
    Cell& c = st->cells[a + i - st->lo];
    int other = -1;
    if (c.writer >= 0 && c.writer != self && c.write_time > t->vc[c.writer]) {
      other = c.writer;
    }
    if (write) {
      for (int j = 0; j < kMax; j++) {
        if (j != self && c.read_time[j] > t->vc[j]) other = j;
      }
    }
    if (other >= 0) {
      st->race = mc::S(
          "data race: %s %s byte %d of the object, unordered with an access "
          "by %s",
          t->name.c_str(), write ? "writes" : "reads", (int)(a + i - st->lo),
          st->threads[other]->name.c_str());
      return;
    }
    if (write) {
      c.writer = self;
      c.write_time = t->vc[self];
    } else {
      c.read_time[self] = t->vc[self];
    }
  }
}
void AtomicPoint(const volatile void* p, bool acquire, bool release) {
  if (!InThread() || st->quiet) return;
  auto* a = reinterpret_cast<const volatile char*>(p);
  if (a < st->lo || a >= st->lo + st->size) return;
  mc::NoTrack nt;
  Yield("atomic");
  void* m = const_cast<void*>(p);
  Thread* t = st->threads[st->current];
  Join(t->vc, st->released[m]);
  Join(st->released[m], t->vc);
  t->vc[st->current]++;
}
}  // namespace
}  // namespace sched

#define PC nullptr
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                             \
  void __tsan_read##n(void* p) { sched::Access(p, n, false, PC); }        \
  void __tsan_write##n(void* p) { sched::Access(p, n, true, PC); }        \
  void __tsan_read_write##n(void* p) { sched::Access(p, n, true, PC); }   \
  void __tsan_unaligned_read##n(void* p) { sched::Access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { sched::Access(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void* p) {                          \
    sched::Access(p, n, true, PC);                                        \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) {
  sched::Access(p, n, false, PC);
}
void __tsan_write_range(void* p, unsigned long n) {
  sched::Access(p, n, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  sched::Access(s, n, false, PC);
  sched::Access(d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  sched::Access(s, n, false, PC);
  sched::Access(d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  sched::Access(d, n, true, PC);
  return memset(d, v, n);
}
#define ATOMIC(b, T)                                                        \
  T __tsan_atomic##b##_load(const volatile T* p, int) {                     \
    sched::AtomicPoint(p, true, false);                                     \
    return *p;                                                              \
  }                                                                         \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) {                  \
    sched::AtomicPoint(p, false, true);                                     \
    *p = v;                                                                 \
  }                                                                         \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) {                  \
    sched::AtomicPoint(p, true, true);                                      \
    T o = *p;                                                               \
    *p = v;                                                                 \
    return o;                                                               \
  }                                                                         \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) {                 \
    sched::AtomicPoint(p, true, true);                                      \
    T o = *p;                                                               \
    *p = o + v;                                                             \
    return o;                                                               \
  }                                                                         \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) {                 \
    sched::AtomicPoint(p, true, true);                                      \
    T o = *p;                                                               \
    *p = o - v;                                                             \
    return o;                                                               \
  }                                                                         \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) {                  \
    sched::AtomicPoint(p, true, true);                                      \
    T o = *p;                                                               \
    *p = o | v;                                                             \
    return o;                                                               \
  }                                                                         \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) {                 \
    sched::AtomicPoint(p, true, true);                                      \
    T o = *p;                                                               \
    *p = o & v;                                                             \
    return o;                                                               \
  }                                                                         \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v,  \
                                                 int, int) {                \
    sched::AtomicPoint(p, true, true);                                      \
    if (*p == *e) {                                                         \
      *p = v;                                                               \
      return 1;                                                             \
    }                                                                       \
    *e = *p;                                                                \
    return 0;                                                               \
  }                                                                         \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v,    \
                                               int a, int c) {              \
    return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c);       \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
