// C30: the C interface to ReNode: instances, stepping, images and the bus.
#include <sys/mman.h>
#include <unistd.h>

#include <climits>
#include <memory>
#include <set>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "mem.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_memory_access.h"
#include "mpact/sim/util/renode/renode_mpact.h"

using namespace mem;
using namespace mpact::sim::util::renode;
using HR = CoreDebugInterface::HaltReason;

namespace {

// What the environment of one run does and sees.
struct Env;
Env* env = nullptr;
std::vector<std::string>* calls = nullptr;
template <typename... A>
void Call(const char* f, A... a) {
  calls->push_back(mc::S(f, a...));
}

// ---------------------------------------------------------------- simulator
class Sim;
struct Env {
  Ctx& c;
  bool factory_fails = false;
  std::vector<Sim*> alive;
  int made = 0;
  // Answers of the simulator.
  bool fail = false;            // every forwarded request
  // Step scripts.
  bool scripted = false;
  uint64_t asked = 0, executed = 0;
  bool stopped = false;
  int steps = 0;
  std::map<uint64_t, uint8_t>* image = nullptr;
  uint64_t image_lo = 0, image_hi = 0;
  int write_fault = -1, writes = 0, write_kind = 0;
  explicit Env(Ctx& c) : c(c) {
    env = this;
    calls = new std::vector<std::string>;
  }
  ~Env() {
    delete calls;
    calls = nullptr;
    env = nullptr;
  }
};

class Sim : public RenodeDebugInterface {
 public:
  Sim(std::string name, std::string cpu, MemoryInterface* m) : name_(name), cpu_(cpu), mem_(m) {
    serial_ = env->made++;
    env->alive.push_back(this);
  }
  ~Sim() override {
    // The bus is there until the simulator is gone.
    if (use_bus_in_dtor_) BusStore(0xdd, 0x1000);
    auto& v = env->alive;
    v.erase(std::find(v.begin(), v.end(), this));
    Call("dtor %d", serial_);
  }
  void BusStore(uint8_t v, uint64_t a) {
    DataBufferFactory f;
    DataBuffer* db = f.Allocate<uint8_t>(1);
    db->Set<uint8_t>(0, v);
    mem_->Store(a, db);
    db->DecRef();
  }
  int BusLoad(uint64_t a) {
    DataBufferFactory f;
    DataBuffer* db = f.Allocate<uint8_t>(1);
    db->Set<uint8_t>(0, 0xee);
    db->set_latency(0);
    mem_->Load(a, db, nullptr, nullptr);
    int r = db->Get<uint8_t>(0);
    db->DecRef();
    return r;
  }
  absl::Status St() { return env->fail ? absl::InternalError("no") : absl::OkStatus(); }
  absl::StatusOr<uint64_t> LoadExecutable(const char* f, bool sym) override {
    Call("exe %d %s %d", serial_, f, (int)sym);
    if (env->fail) return St();
    return 0x8000000000001000ull + serial_;
  }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t r) override {
    Call("rr %d %x", serial_, r);
    if (env->fail) return St();
    return 0xf000000000000000ull + r + serial_;
  }
  absl::Status WriteRegister(uint32_t r, uint64_t v) override {
    Call("wr %d %x %llx", serial_, r, (unsigned long long)v);
    return St();
  }
  int32_t GetRenodeRegisterInfoSize() const override {
    Call("ris %d", serial_);
    return 40 + serial_;
  }
  absl::Status GetRenodeRegisterInfo(int32_t i, int32_t max, char* name, RenodeCpuRegister& info) override {
    Call("ri %d %d %d", serial_, i, max);
    if (name) name[0] = 'a' + serial_;
    info.index = i + 1;
    return St();
  }
  absl::Status SetConfig(const char* n[], const char* v[], int size) override {
    std::string s;
    for (int i = 0; i < size; i++) s += mc::S(" %s=%s", n[i], v[i]);
    Call("cfg %d%s", serial_, s.c_str());
    return St();
  }
  absl::Status SetIrqValue(int32_t n, bool v) override {
    Call("irq %d %d %d", serial_, n, (int)v);
    return St();
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    Call("rm %d %llx %d", serial_, (unsigned long long)a, (int)n);
    if (env->fail) return St();
    size_t k = n > 2 ? n - 1 : n;  // short
    memset(b, 0x51 + serial_, k);
    return k;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    auto* p = (const uint8_t*)b;
    if (env->image) {
      // Image loading: any partition into writes is fine.
      int k = n == 0 ? -1 : env->writes++;
      if (n && k == env->write_fault) {
        if (env->write_kind == 0) return absl::InternalError("no");
        return n - 1;
      }
      for (size_t i = 0; i < n; i++) {
        uint64_t x = a + i - env->image_lo;
        env->c.check(x < env->image_hi - env->image_lo, "a write outside the image at 0x%llx",
                     (unsigned long long)(a + i));
        (*env->image)[x]++;
        if (p[i] != uint8_t(x * 7 + (x >> 8) * 3)) (*env->image)[x] += 100;
      }
      return n;
    }
    Call("wm %d %llx %s", serial_, (unsigned long long)a, Hex(Bytes(p, p + n)).c_str());
    if (env->fail) return St();
    return n > 2 ? n - 1 : n;
  }
  // Stepping.
  absl::StatusOr<int> Step(int n) override {
    Ctx& c = env->c;
    if (!env->scripted) {
      Call("st %d %d", serial_, n);
      if (env->fail) return St();
      reason_ = *HR::kUserRequest;
      return n;
    }
    c.check(n > 0, "the simulator was asked to step %d", n);
    c.check(!env->stopped, "the simulator was stepped on after it had stopped");
    c.check(env->executed + (uint64_t)n <= env->asked, "asked for %llu steps, stepped at least %llu",
            (unsigned long long)env->asked, (unsigned long long)(env->executed + n));
    if (++env->steps > 12) c.fail("step is called again and again");
    int kind = c.choose(8, "outcome");
    int done = n;
    reason_ = *HR::kUserRequest;
    switch (kind) {
      case 0: break;
      case 1:
        env->stopped = true;
        env->c.op("  step(%d) fails", n);
        status_ = -1;
        return absl::InternalError("no");
      case 2: reason_ = *HR::kSoftwareBreakpoint, status_ = 3; break;
      case 3: reason_ = *HR::kSemihostHaltRequest, status_ = -1; break;
      case 4: reason_ = *HR::kProgramDone, status_ = -1; break;
      case 5: reason_ = *HR::kDataWatchPoint, status_ = 40; break;
      case 6: reason_ = *HR::kUserRequest, status_ = 0; break;
      case 7: reason_ = 0xffffffffu, status_ = -1; reason_fails_ = true; break;
    }
    if (kind) {
      // Stopped after some of the instructions.
      int how = c.choose(kind == 5 || kind == 6 ? 2 : 3, "after");
      done = how == 0 ? 0 : how == 1 ? n / 2 : n;
      env->stopped = true;
    } else {
      status_ = 0;
    }
    env->executed += done;
    c.op("  step(%d) executes %d, then %d", n, done, kind);
    return done;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (reason_fails_) return absl::InternalError("no");
    return reason_;
  }

  std::string name_, cpu_;
  MemoryInterface* mem_;
  int serial_;
  bool use_bus_in_dtor_ = false;
  HaltReasonValueType reason_ = *HR::kNone;
  bool reason_fails_ = false;
  int status_ = 0;  // the answer the last step calls for; 40: 0 or 4
};

// ---------------------------------------------------------------- callbacks
template <int K>
int32_t Rd(uint64_t a, char* p, int32_t n) {
  Call("read%d %llx %d", K, (unsigned long long)a, n);
  memset(p, 0x60 + K, n);
  return n;
}
template <int K>
int32_t Wr(uint64_t a, char* p, int32_t n) {
  Call("write%d %llx %s", K, (unsigned long long)a, Hex(Bytes((uint8_t*)p, (uint8_t*)p + n)).c_str());
  return n;
}
using Cb = int32_t (*)(uint64_t, char*, int32_t);
const Cb kRd[] = {Rd<0>, Rd<1>, Rd<2>, Rd<3>, Rd<4>, Rd<5>, Rd<6>, Rd<7>};
const Cb kWr[] = {Wr<0>, Wr<1>, Wr<2>, Wr<3>, Wr<4>, Wr<5>, Wr<6>, Wr<7>};

char kCpu[] = "cpu";

struct M {  // one instance of the model
  int serial, len, rd = -1, wr = -1;
};

std::string Take() {
  std::string r;
  for (auto& s : *calls) r += (r.empty() ? "" : "; ") + s;
  calls->clear();
  return r;
}
#define EXPECT(got, want, what)                                                                        \
  do {                                                                                                 \
    std::string g_ = (got), w_ = (want);                                                               \
    c.check(g_ == w_, "%s: the simulator saw [%s], expected [%s]", what, g_.c_str(), w_.c_str()); \
  } while (0)

// Everything the interface says about an id.
void VerifyId(Ctx& c, Env& e, int id, const M* m) {
  Take();
  int32_t st;
  uint64_t v = 77;
  char name[8] = "zzz";
  RenodeCpuRegister info{};
  if (!m) {
    c.check(get_reg_info_size(id) == -1, "register count of an instance %d that does not exist", id);
    c.check(get_reg_info(id, 0, name, &info) == -1, "register info of an instance that does not exist");
    c.check(read_register(id, 1, &v) == -1 && v == 77, "register read of an instance that does not exist");
    c.check(write_register(id, 1, 2) == -1, "register write of an instance that does not exist");
    c.check(reset(id) == -1, "reset of an instance that does not exist");
    char b[4];
    c.check(read_memory(id, 0, b, 4) == 0, "memory read of an instance that does not exist");
    c.check(write_memory(id, 0, b, 4) == 0, "memory write of an instance that does not exist");
    c.check(step(id, 1, &st) == 0 && st == -1, "step of an instance that does not exist");
    c.check(step(id, 1, nullptr) == 0, "step of an instance that does not exist");
    c.check(set_config(id, nullptr, nullptr, 0) == -1, "set_config of an instance that does not exist");
    c.check(set_irq_value(id, 1, true) == -1, "set_irq of an instance that does not exist");
    c.check(load_elf(id, "x", false, &st) == 0 && st == -1, "load_elf of an instance that does not exist");
    c.check(load_image(id, "/dev/null", 0) == -1, "load_image of an instance that does not exist");
    EXPECT(Take(), "", "a request for no instance");
    return;
  }
  int s = m->serial;
  c.check(get_reg_info_size(id) == 40 + s, "register count of instance %d comes from another one", id);
  EXPECT(Take(), mc::S("ris %d", s), "get_reg_info_size");
  int r = get_reg_info(id, 3, name, &info);
  EXPECT(Take(), mc::S("ri %d 3 %d", s, m->len), "get_reg_info (maximum name length of the instance)");
  c.check(r == 0 && name[0] == 'a' + s && info.index == 4, "get_reg_info returned %d and wrong data", r);
  st = 99;
  c.check(step(id, 5, &st) == 5 && st == 0, "step of instance %d", id);
  EXPECT(Take(), mc::S("st %d 5", s), "step");
  // The bus of this instance.
  Sim* sim = nullptr;
  for (auto* x : e.alive)
    if (x->serial_ == s) sim = x;
  c.check(sim != nullptr, "the simulator of instance %d is gone", id);
  int b = sim->BusLoad(0x20);
  EXPECT(Take(), m->rd < 0 ? "" : mc::S("read%d 20 1", m->rd), "a load from the bus");
  c.check(b == (m->rd < 0 ? 0 : 0x60 + m->rd), "a load from the bus returned 0x%x", b);
  sim->BusStore(0x5a, 0x21);
  EXPECT(Take(), m->wr < 0 ? "" : mc::S("write%d 21 5a", m->wr), "a store to the bus");
}

void Instances(Ctx& c) {
  Env e(c);
  std::map<int, M> live;
  // Ids are given out consecutively over the life of the process.
  int base = construct(kCpu, 5);
  c.check(base >= 0, "construct failed with %d", base);
  destruct(base);
  c.check(e.alive.empty(), "destruct left the simulator alive");
  Take();
  std::set<int> ids{base, base + 1, base + 2};
  int depth = c.thorough() ? 5 : 4;
  int len = 6;
  int cb = 0;
  for (int i = 0; i < depth; i++, len++, cb++) {
    int op = c.choose(4, "op");
    if (op == 0) break;
    if (op == 1) {
      int mode = c.choose(5, "construct");
      e.factory_fails = mode == 4;
      int made = e.made;
      int id = mode == 0 ? construct(kCpu, len)
                         : construct_with_sysbus(kCpu, len, mode & 1 ? kRd[cb] : nullptr,
                                                 mode & 2 ? kWr[cb] : nullptr);
      c.op("construct(mode %d) = %d", mode, id - base);
      if (mode == 4) {
        c.check(id < 0, "construct returned %d though there is no simulator", id);
      } else {
        c.check(id >= 0, "construct failed with %d", id);
        c.check(!live.count(id), "construct returned the id %d, which is in use", id - base);
        c.check(e.made == made + 1, "construct made %d simulators", e.made - made);
        Sim* s = e.alive.back();
        s->use_bus_in_dtor_ = true;
        c.check(s->cpu_ == "cpu", "wrong cpu type");
        for (auto* o : e.alive)
          c.check(o == s || o->name_ != s->name_, "two simulators are called '%s'",
                  s->name_.substr(0, 6).c_str());
        live[id] = M{s->serial_, len, mode & 1 ? cb : -1, mode & 2 ? cb : -1};
        ids.insert(id);
      }
      e.factory_fails = false;
    } else {
      std::vector<int> l(ids.begin(), ids.end());
      if (op == 2) {
        int id = c.pick(l, "id");
        bool there = live.count(id);
        int mode = c.choose(there ? 4 : 5, "connect");
        e.factory_fails = mode == 4;
        int made = e.made;
        int r = mode == 0 ? connect(kCpu, id, len)
                          : connect_with_sysbus(kCpu, id, len, mode & 1 ? kRd[cb] : nullptr,
                                                mode & 2 ? kWr[cb] : nullptr);
        c.op("connect(%d, mode %d) = %d", id - base, mode, r - base);
        if (mode == 4) {
          c.check(r < 0, "connect returned %d though there is no simulator", r);
        } else if (there) {
          c.check(r == id && e.made == made, "connecting to an existing instance");
          M& m = live[id];
          if (m.rd < 0 && (mode & 1)) m.rd = cb;
          if (m.wr < 0 && (mode & 2)) m.wr = cb;
        } else {
          c.check(r == id, "connect to %d returned %d", id, r);
          c.check(e.made == made + 1, "connect made %d simulators", e.made - made);
          Sim* s = e.alive.back();
          s->use_bus_in_dtor_ = true;
          for (auto* o : e.alive)
            c.check(o == s || o->name_ != s->name_, "two simulators are called '%s'",
                    s->name_.substr(0, 6).c_str());
          live[id] = M{s->serial_, len, mode & 1 ? cb : -1, mode & 2 ? cb : -1};
        }
        e.factory_fails = false;
      } else {
        int id = c.pick(l, "id");
        c.op("destruct(%d)", id - base);
        Take();
        destruct(id);
        std::string want;
        if (live.count(id)) {
          const M& m = live[id];
          if (m.wr >= 0) want = mc::S("write%d 1000 dd; ", m.wr);
          want += mc::S("dtor %d", m.serial);
          live.erase(id);
        }
        EXPECT(Take(), want, "destruct");
      }
    }
    c.check(e.alive.size() == live.size(), "%d simulators are alive, not %d", (int)e.alive.size(),
            (int)live.size());
    if (c.fresh())
      for (int id : ids) VerifyId(c, e, id, live.count(id) ? &live[id] : nullptr);
  }
  for (auto& [id, m] : live) destruct(id);
  c.check(e.alive.empty(), "simulators are left over");
}

void Steps(Ctx& c) {
  Env e(c);
  int id = construct(kCpu, 5);
  Sim* s = e.alive.back();
  e.scripted = true;
  for (int k = 0; k < (c.thorough() ? 3 : 2); k++) {
    const uint64_t im = INT_MAX;
    uint64_t n = c.pick<uint64_t>({0, 1, 2, 3, im - 1, im, im + 1, 2 * im, 2 * im + 1, 1ull << 32, (1ull << 32) + 5,
                                   (1ull << 33) + 1}, "n");
    if (k == 0) {
      int r = c.choose(4, "halt reason");
      if (r == 1) s->reason_ = *HR::kSemihostHaltRequest;
      if (r == 2) s->reason_fails_ = true;
      if (r == 3) s->reason_ = *HR::kSoftwareBreakpoint;
    }
    bool null = c.flip("status");
    e.asked = n, e.executed = 0, e.stopped = false, e.steps = 0;
    bool blocked = n != 0 && (s->reason_fails_ || s->reason_ == *HR::kSemihostHaltRequest);
    if (blocked) e.stopped = true;
    s->status_ = blocked ? -1 : 0;
    if (!blocked) s->reason_fails_ = false;
    int32_t st = 1234;
    c.op("step(%llu)", (unsigned long long)n);
    uint64_t r = step(id, n, null ? nullptr : &st);
    c.check(r == e.executed, "step(%llu) returned %llu, executed %llu", (unsigned long long)n,
            (unsigned long long)r, (unsigned long long)e.executed);
    c.check(e.stopped || r == n, "step(%llu) executed only %llu though nothing stopped it", (unsigned long long)n,
            (unsigned long long)r);
    if (!null) {
      bool ok = s->status_ == 40 ? st == 0 || st == 4 : st == s->status_;
      c.check(ok, "step returned the status %d, not %d", st, s->status_);
    }
    c.outcome(mc::S("%d %d", s->status_, (int)(r == n)));
  }
  destruct(id);
}

void Forward(Ctx& c) {
  Env e(c);
  int a = construct(kCpu, 5), b = construct(kCpu, 6);
  Sim* sims[2] = {e.alive[0], e.alive[1]};
  for (int k = 0; k < 2; k++) {
    int w = c.choose(2, "instance");
    int id = w ? b : a, s = sims[w]->serial_;
    e.fail = c.flip("fails");
    int op = c.choose(10, "op");
    c.op("instance %d: request %d, %s", w, op, e.fail ? "refused" : "granted");
    int32_t st = 55;
    uint64_t v = 77;
    char buf[8] = {};
    int ok = e.fail ? -1 : 0;
    switch (op) {
      case 0: {
        uint32_t reg = c.pick<uint32_t>({0, 5, 0xffffffffu}, "reg");
        c.check(read_register(id, reg, &v) == ok, "read_register's answer");
        c.check(v == (e.fail ? 77 : 0xf000000000000000ull + reg + s), "read_register's value");
        EXPECT(Take(), mc::S("rr %d %x", s, reg), "read_register");
        break;
      }
      case 1: {
        uint64_t x = c.pick<uint64_t>({0, 1ull << 63, ~0ull}, "value");
        c.check(write_register(id, 0x80000001u, x) == ok, "write_register's answer");
        EXPECT(Take(), mc::S("wr %d 80000001 %llx", s, (unsigned long long)x), "write_register");
        break;
      }
      case 2: {
        int n = c.choose(5, "length");
        uint64_t x = c.pick<uint64_t>({0x10, 0xfffffffff0000000ull}, "address");
        uint64_t want = n > 2 ? n - 1 : n;
        if (e.fail) want = 0;
        uint64_t r = read_memory(id, x, buf, n);
        c.check(r == want, "read_memory returned %d, not %d", (int)r, (int)want);
        for (int i = 0; i < 8; i++)
          c.check(buf[i] == (i < (int)want ? 0x51 + s : 0), "read_memory's byte %d is wrong", i);
        EXPECT(Take(), mc::S("rm %d %llx %d", s, (unsigned long long)x, n), "read_memory");
        break;
      }
      case 3: {
        int n = c.choose(5, "length");
        uint64_t x = c.pick<uint64_t>({0x10, 0xfffffffff0000000ull}, "address");
        uint64_t want = n > 2 ? n - 1 : n;
        if (e.fail) want = 0;
        uint64_t r = write_memory(id, x, "\1\2\3\4", n);
        c.check(r == want, "write_memory returned %d, not %d", (int)r, (int)want);
        std::string h = std::string("01020304").substr(0, 2 * n);
        EXPECT(Take(), mc::S("wm %d %llx %s", s, (unsigned long long)x, h.c_str()), "write_memory");
        break;
      }
      case 4: {
        const char* n[] = {"n1", "n2"};
        const char* x[] = {"v1", "v2"};
        int size = c.choose(3, "size");
        c.check(set_config(id, n, x, size) == ok, "set_config's answer");
        const char* t[] = {"", " n1=v1", " n1=v1 n2=v2"};
        EXPECT(Take(), mc::S("cfg %d%s", s, t[size]), "set_config");
        break;
      }
      case 5: {
        int32_t irq = c.pick<int32_t>({0, 7, -1}, "irq");
        bool x = c.flip("value");
        c.check(set_irq_value(id, irq, x) == ok, "set_irq_value's answer");
        EXPECT(Take(), mc::S("irq %d %d %d", s, irq, (int)x), "set_irq_value");
        break;
      }
      case 6: {
        bool sym = c.flip("symbols only");
        uint64_t r = load_elf(id, "file", sym, &st);
        c.check(r == (e.fail ? 0 : 0x8000000000001000ull + s) && st == ok, "load_elf's answer");
        EXPECT(Take(), mc::S("exe %d file %d", s, (int)sym), "load_elf");
        break;
      }
      case 7: {
        RenodeCpuRegister info{};
        int i = c.pick<int>({0, 3, -1}, "index");
        c.check(get_reg_info(id, i, buf, &info) == ok, "get_reg_info's answer");
        EXPECT(Take(), mc::S("ri %d %d %d", s, i, 5 + w), "get_reg_info");
        c.check(get_reg_info(id, i, buf, nullptr) == -1, "get_reg_info without info");
        EXPECT(Take(), "", "get_reg_info without info");
        break;
      }
      case 8:
        c.check(read_register(id, 1, nullptr) == -1, "read_register without a place");
        EXPECT(Take(), "", "read_register without a place");
        break;
      case 9:
        // A caller that does not want the status.
        c.check(reset(id) == 0, "reset");
        break;
    }
  }
  destruct(a);
  destruct(b);
}

// Files with known contents.
int FileFd(size_t n) {
  mc::NoTrack nt;
  static std::map<size_t, int> fds;
  auto it = fds.find(n);
  if (it != fds.end()) return it->second;
  int fd = memfd_create("image", 0);
  std::string s(n, 0);
  for (size_t x = 0; x < n; x++) s[x] = char(uint8_t(x * 7 + (x >> 8) * 3));
  for (size_t o = 0; o < n;) {
    ssize_t k = write(fd, s.data() + o, n - o);
    if (k <= 0) abort();
    o += k;
  }
  return fds[n] = fd;
}

void Image(Ctx& c) {
  Env e(c);
  int id = construct(kCpu, 5);
  std::map<uint64_t, uint8_t> got;
  size_t k = RenodeAgent::kBufferSize;
  size_t n = c.pick<size_t>({0, 1, 4095, 8192, k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k + 77}, "size");
  uint64_t at = c.pick<uint64_t>({0, 0x1001, 0xffffffff, 0xfffffffffff00000ull}, "address");
  int src = c.choose(3, "file");
  e.image = &got, e.image_lo = at, e.image_hi = at + n;
  e.write_fault = c.choose(5, "fault") - 1;
  if (e.write_fault >= 0) e.write_kind = c.choose(2, "kind");
  std::string f = src == 0 ? mc::S("/proc/self/fd/%d", FileFd(n)) : src == 1 ? "/nonexistent/file" : "/proc";
  c.op("load_image(%d bytes from %s at 0x%llx), fault %d", (int)n, src == 0 ? "a file" : f.c_str(),
       (unsigned long long)at, e.write_fault);
  int r = load_image(id, f.c_str(), at);
  bool faulted = e.write_fault >= 0 && e.writes > e.write_fault;
  if (src) {
    c.check(r < 0, "load_image of %s succeeds", src == 1 ? "a missing file" : "a directory");
    c.check(got.empty(), "load_image of no file wrote to memory");
  } else if (faulted) {
    c.check(r < 0, "load_image succeeds though a write failed");
  } else {
    c.check(r == 0, "load_image failed with %d", r);
    c.check(got.size() == n, "load_image wrote %d bytes, not %d", (int)got.size(), (int)n);
    for (auto& [x, t] : got)
      if (t != 1) c.fail("byte %d was written %d times or with a wrong value (%d)", (int)x, t % 100, t);
    c.bulk(n);
  }
  e.image = nullptr;
  destruct(id);
}

// The memory shim on its own.
void Bus(Ctx& c) {
  Env e(c);
  State st;
  Dbs dbs;
  mem::Log log;
  std::vector<std::string> want;
  std::vector<std::pair<int, std::string>> due;  // time, run
  int now = 0;
  int rd = -1, wr = -1;   // -1 none, otherwise bytes not transferred
  auto rf = [&](int k) -> RenodeMemoryAccess::RenodeMemoryFunction {
    if (k < 0) return nullptr;
    return [k](uint64_t a, char* p, int32_t n) -> int32_t {
      Call("read %llx %d", (unsigned long long)a, n);
      for (int i = 0; i < n; i++) p[i] = char(0x11 * (i + 1));
      return n - k;
    };
  };
  auto wf = [&](int k) -> RenodeMemoryAccess::RenodeMemoryFunction {
    if (k < 0) return nullptr;
    return [k](uint64_t a, char* p, int32_t n) -> int32_t {
      Call("write %llx %s", (unsigned long long)a, Hex(Bytes((uint8_t*)p, (uint8_t*)p + n)).c_str());
      return n - k;
    };
  };
  rd = c.choose(3, "read") - 1;
  wr = c.choose(2, "write") - 1;
  RenodeMemoryAccess m(rf(rd), wf(wr));
  std::vector<Inst*> insts;
  std::vector<Context*> ctxs;
  int depth = c.thorough() ? 4 : 3;
  for (int i = 0; i < depth; i++) {
    int op = c.choose(5, "op");
    if (op == 0) break;
    switch (op) {
      case 1: {
        int n = c.pick<int>({1, 4, 16}, "size");
        int lat = c.pick<int>({0, 1, 3}, "latency");
        int who = c.choose(3, "inst");
        DataBuffer* db = dbs.New(n, lat);
        memset(db->raw_ptr(), 0xee, n);
        Inst* in = nullptr;
        Context* cx = nullptr;
        if (who) in = new Inst(&log, &st, i);
        if (who == 2) cx = new Context(&log, i);
        c.op("load of %d bytes, latency %d, %s", n, lat, who == 0 ? "no instruction" : "instruction");
        m.Load(0x100 + i, db, in, cx);
        if (rd >= 0) want.push_back(mc::S("read %x %d", 0x100 + i, n));
        for (int k = 0; k < n; k++)
          c.check(db->Get<uint8_t>(k) == (rd < 0 ? 0 : uint8_t(0x11 * (k + 1))), "byte %d of the load is 0x%x", k,
                  db->Get<uint8_t>(k));
        if (who) {
          due.push_back({now + lat, mc::S("%d/%d", i, cx ? i : -1)});
          in->DecRef();
          if (cx) cx->DecRef();
        }
        break;
      }
      case 2: {
        int n = c.pick<int>({1, 4, 16}, "size");
        Bytes b(n);
        for (int k = 0; k < n; k++) b[k] = 0x40 + k;
        DataBuffer* db = dbs.Of(b);
        c.op("store of %d bytes", n);
        m.Store(~0ull - i, db);
        if (wr >= 0) want.push_back(mc::S("write %llx %s", ~0ull - i, Hex(b).c_str()));
        break;
      }
      case 3:
        c.op("advance");
        now++;
        st.AdvanceDelayLines();
        break;
      case 4: {
        int k = c.choose(3, "fcn") - 1;
        bool r = c.flip("read");
        c.op("set %s function %d", r ? "read" : "write", k);
        if (r) m.set_read_fcn(rf(k)), rd = k;
        else m.set_write_fcn(wf(k)), wr = k;
        break;
      }
    }
    c.check(m.has_read_fcn() == (rd >= 0) && m.has_write_fcn() == (wr >= 0), "has_read_fcn or has_write_fcn");
    if (c.fresh()) {
      std::vector<std::string> runs;
      for (int t = 0; t <= now; t++)
        for (auto& d : due)
          if (d.first == t) runs.push_back(d.second);
      std::string a, b;
      for (auto& x : log.runs) a += x + " ";
      for (auto& x : runs) b += x + " ";
      std::sort(log.runs.begin(), log.runs.end());
      std::sort(runs.begin(), runs.end());
      c.check(log.runs == runs, "executed [%s], expected [%s] in cycle %d", a.c_str(), b.c_str(), now);
      c.check(*calls == want, "the bus saw %d accesses, the last one %s; expected %d, %s", (int)calls->size(),
              calls->empty() ? "-" : calls->back().c_str(), (int)want.size(),
              want.empty() ? "-" : want.back().c_str());
    }
  }
  for (int t = 0; t < 4; t++) st.AdvanceDelayLines();
  c.check((int)log.runs.size() == (int)due.size(), "%d of %d loads finished", (int)log.runs.size(), (int)due.size());
  c.check(log.insts == 0 && log.ctxs == 0, "instructions or contexts are left over");
}

}  // namespace

RenodeDebugInterface* CreateMpactSim(std::string name, std::string cpu, MemoryInterface* m) {
  if (env->factory_fails) return nullptr;
  return new Sim(name, cpu, m);
}

int main(int argc, char** argv) {
  (void)RenodeAgent::Instance();
  return mc::Main(argc, argv, "C30",
                  {{"instances", Instances, 3}, {"steps", Steps, 3}, {"forward", Forward, 3}, {"image", Image, 2}, {"bus", Bus, 4}},
                  "all histories of 4 (thorough 5) constructions, connections and destructions over 3 or more ids; 2 (3) "
                  "step calls of 12 sizes with every outcome of every partial step; every forwarded request granted and "
                  "refused; images of 11 sizes with a fault in each write; 3 (4) bus accesses",
                  {"the simulator is a stand-in that records what it is asked and answers as chosen",
                   "vector accesses of the bus, which the code reports as unsupported, are not made"});
}
