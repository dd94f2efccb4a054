// C33: a gdb remote session, against a reference server. The real GdbServer
// runs on a fiber; its sockets are virtual. Whenever it waits for input the
// explorer goes on as the client.
#include <fcntl.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/socket.h>
#include <ucontext.h>
#include <unistd.h>

#include <cerrno>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>

#include "mc.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"

using namespace mpact::sim::generic;
using mc::Ctx;
using mc::S;
using mpact::sim::util::gdbserver::GdbServer;
using Bytes = std::vector<uint8_t>;
using HaltReason = CoreDebugInterface::HaltReason;
using HaltReasonValueType = CoreDebugInterface::HaltReasonValueType;

namespace {
// --- The network: virtual descriptors and the fiber that runs the server ----
constexpr int kFirstFd = 800;
constexpr size_t kStack = 512 << 10;
char* stack_mem = nullptr;

struct Net {
  std::string in, out;
  size_t pos = 0;
  bool eof = false, err = false;
  int idle_reads = 0;
  bool hung = false;
  std::map<int, char> fds;  // open descriptors: 's'erver or 'c'onnection
  int next_fd = kFirstFd;
  std::string misuse;
  int fail_call = 0;  // which set-up call fails (1: socket ... 5: accept)
  int connections = 0;

  std::function<void()> body;
  ucontext_t main_ctx, fib_ctx;
  bool done = true, in_fiber = false;
  void *main_fake = nullptr, *fib_fake = nullptr;
  const void* main_bottom = nullptr;
  size_t main_size = 0;
} *net = nullptr;

void FiberMain() {
  Net* n = net;
  __sanitizer_finish_switch_fiber(nullptr, &n->main_bottom, &n->main_size);
  n->body();
  n->done = true;
  n->in_fiber = false;
  __sanitizer_start_switch_fiber(nullptr, n->main_bottom, n->main_size);
  swapcontext(&n->fib_ctx, &n->main_ctx);
}
void Resume() {  // main -> fiber
  net->in_fiber = true;
  __sanitizer_start_switch_fiber(&net->main_fake, stack_mem, kStack);
  swapcontext(&net->main_ctx, &net->fib_ctx);
  __sanitizer_finish_switch_fiber(net->main_fake, nullptr, nullptr);
}
void Suspend() {  // fiber -> main
  net->in_fiber = false;
  __sanitizer_start_switch_fiber(&net->fib_fake, net->main_bottom, net->main_size);
  swapcontext(&net->fib_ctx, &net->main_ctx);
  __sanitizer_finish_switch_fiber(net->fib_fake, &net->main_bottom, &net->main_size);
}
void Spawn(std::function<void()> f) {
  if (!stack_mem) {
    mc::NoTrack nt;
    stack_mem = (char*)malloc(kStack);
  }
  net->body = std::move(f);
  getcontext(&net->fib_ctx);
  net->fib_ctx.uc_stack.ss_sp = stack_mem;
  net->fib_ctx.uc_stack.ss_size = kStack;
  net->fib_ctx.uc_link = nullptr;
  makecontext(&net->fib_ctx, FiberMain, 0);
  net->done = false;
  Resume();
}
bool Ours(int fd) { return net && fd >= kFirstFd && fd < kFirstFd + 100; }
bool Use(int fd, const char* what) {
  if (net->fds.count(fd)) return true;
  if (net->misuse.empty()) net->misuse = S("%s of a descriptor that is not open", what);
  errno = EBADF;
  return false;
}
}  // namespace

extern "C" {
int __real_socket(int, int, int);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_bind(int, const sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, sockaddr*, socklen_t*);
int __real_shutdown(int, int);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
int __real_fcntl(int, int, ...);

int __wrap_socket(int d, int t, int p) {
  if (!net) return __real_socket(d, t, p);
  if (net->fail_call == 1) return errno = EMFILE, -1;
  net->fds[net->next_fd] = 's';
  return net->next_fd++;
}
int __wrap_setsockopt(int fd, int l, int o, const void* v, socklen_t n) {
  if (!net) return __real_setsockopt(fd, l, o, v, n);
  if (fd < 0 || net->fail_call == 2) return errno = EBADF, -1;
  return Use(fd, "setsockopt") ? 0 : -1;
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t n) {
  if (!net) return __real_bind(fd, a, n);
  if (fd < 0 || net->fail_call == 3) return errno = EADDRINUSE, -1;
  return Use(fd, "bind") ? 0 : -1;
}
int __wrap_listen(int fd, int n) {
  if (!net) return __real_listen(fd, n);
  if (fd < 0 || net->fail_call == 4) return errno = EADDRINUSE, -1;
  return Use(fd, "listen") ? 0 : -1;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* n) {
  if (!net) return __real_accept(fd, a, n);
  if (fd < 0 || net->fail_call == 5) return errno = ECONNABORTED, -1;
  if (!Use(fd, "accept")) return -1;
  net->connections++;
  net->fds[net->next_fd] = 'c';
  return net->next_fd++;
}
int __wrap_shutdown(int fd, int how) {
  if (!Ours(fd)) return net ? (errno = EBADF, -1) : __real_shutdown(fd, how);
  return Use(fd, "shutdown") ? 0 : -1;
}
int __wrap_close(int fd) {
  if (!Ours(fd)) return __real_close(fd);
  if (!Use(fd, "close")) return -1;
  net->fds.erase(fd);
  return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  if (!Ours(fd)) return __real_fcntl(fd, cmd, a);
  if (!net->fds.count(fd)) return errno = EBADF, -1;
  return 0;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!Ours(fd)) return __real_read(fd, b, n);
  if (!Use(fd, "read")) return -1;
  if (n == 0) return 0;
  while (net->pos == net->in.size()) {
    if (net->eof || net->err) {
      if (++net->idle_reads > 200) {
        net->hung = true;
        Suspend();
      }
      if (net->err) return errno = ECONNRESET, -1;
      return 0;
    }
    Suspend();
  }
  size_t m = std::min(n, net->in.size() - net->pos);
  memcpy(b, net->in.data() + net->pos, m);
  net->pos += m;
  return m;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  return Ours(fd) ? __wrap_read(fd, b, n) : __real_recv(fd, b, n, f);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!Ours(fd)) return __real_write(fd, b, n);
  if (!Use(fd, "write")) return -1;
  net->out.append((const char*)b, n);
  return n;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  return Ours(fd) ? __wrap_write(fd, b, n) : __real_send(fd, b, n, f);
}
}

namespace {
std::string Show(const std::string& s) {
  std::string r;
  for (unsigned char ch : s.substr(0, 120))
    r += ch >= 32 && ch < 127 ? std::string(1, ch) : S("\\x%02x", ch);
  return s.size() > 120 ? r + S("... (%d)", (int)s.size()) : r;
}
std::string HexOf(const Bytes& b) {
  std::string r;
  for (auto x : b) r += S("%02x", x);
  return r;
}

// --- The core -----------------------------------------------------------------
constexpr uint64_t kBase = 0x1000;
constexpr int kMem = 16;

struct CoreState {
  Bytes mem = Bytes(kMem);
  std::map<std::string, Bytes> regs;
  std::set<uint64_t> bps;
  std::vector<std::string> log;  // what was done to the core
  bool operator==(const CoreState& o) const {
    return mem == o.mem && regs == o.regs && bps == o.bps && log == o.log;
  }
  std::string Text() const {
    std::string r = "mem " + HexOf(mem);
    for (auto& [n, b] : regs) r += " " + n + "=" + HexOf(b);
    for (auto b : bps) r += S(" bp %llx", (unsigned long long)b);
    for (auto& l : log) r += " [" + l + "]";
    return r;
  }
};

class Core : public CoreDebugInterface {
 public:
  explicit Core(DataBufferFactory* f) {
    for (int i = 0; i < kMem; i++) st.mem[i] = 0xa0 + i;
    for (auto [n, w] : {std::pair<const char*, int>{"x0", 8}, {"x1", 4}, {"x3", 16},
                        {"pc", 8}, {"v5", 16}, {"x6", 2}}) {
      DataBuffer* db = f->Allocate<uint8_t>(w);
      for (int i = 0; i < w; i++) db->Get<uint8_t>()[i] = (n[0] + n[1]) * 3 + i;
      regs[n] = db;
    }
  }
  ~Core() override {
    for (auto& [n, d] : regs) d->DecRef();
  }
  CoreState State() const {
    CoreState s = st;
    for (auto& [n, d] : regs) {
      auto sp = d->Get<uint8_t>();
      s.regs[n] = Bytes(sp.begin(), sp.end());
    }
    return s;
  }
  bool Fails() { return ++calls == fail_at; }
  absl::Status Bad() { return absl::InternalError("it does not $work# *now}"); }

  absl::Status Halt() override { return Halt(HaltReason::kUserRequest); }
  absl::Status Halt(HaltReason r) override { return Halt(*r); }
  absl::Status Halt(HaltReasonValueType r) override {
    if (Fails()) return Bad();
    st.log.push_back("halt");
    return absl::OkStatus();
  }
  absl::StatusOr<int> Step(int n) override {
    if (Fails()) return Bad();
    st.log.push_back(S("step %d", n));
    last = next;
    return n;
  }
  absl::Status Run() override {
    if (Fails()) return Bad();
    st.log.push_back("run");
    running = true;
    return absl::OkStatus();
  }
  absl::Status Wait() override {
    if (Fails()) return Bad();
    if (running) last = next;
    running = false;
    return absl::OkStatus();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    if (Fails()) return Bad();
    return running ? RunStatus::kRunning : RunStatus::kHalted;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (Fails()) return Bad();
    return last;
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    if (Fails()) return Bad();
    auto it = regs.find(n);
    if (it == regs.end()) return absl::NotFoundError("no such register");
    uint64_t v = 0;
    memcpy(&v, it->second->raw_ptr(), std::min(8, (int)it->second->size<uint8_t>()));
    return v;
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    if (Fails()) return Bad();
    auto it = regs.find(n);
    if (it == regs.end()) return absl::NotFoundError("no such register");
    memcpy(it->second->raw_ptr(), &v, std::min(8, (int)it->second->size<uint8_t>()));
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    if (Fails()) return Bad();
    auto it = regs.find(n);
    if (it == regs.end()) return absl::NotFoundError("no such register");
    return it->second;
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (Fails()) return Bad();
    if (n == 0) return 0;
    if (a - kBase >= (uint64_t)kMem) return absl::NotFoundError("no memory");
    n = std::min<size_t>(n, kBase + kMem - a);
    memcpy(b, &st.mem[a - kBase], n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (Fails()) return Bad();
    if (n == 0) return 0;
    if (a - kBase >= (uint64_t)kMem) return absl::NotFoundError("no memory");
    n = std::min<size_t>(n, kBase + kMem - a);
    memcpy(&st.mem[a - kBase], b, n);
    return n;
  }
  bool HasBreakpoint(uint64_t a) override { return st.bps.count(a); }
  absl::Status SetSwBreakpoint(uint64_t a) override {
    if (Fails()) return Bad();
    if (no_bps) return absl::UnimplementedError("no breakpoints");
    if (!st.bps.insert(a).second) return absl::AlreadyExistsError("there is one");
    return absl::OkStatus();
  }
  absl::Status ClearSwBreakpoint(uint64_t a) override {
    if (Fails()) return Bad();
    if (no_bps) return absl::UnimplementedError("no breakpoints");
    if (!st.bps.erase(a)) return absl::NotFoundError("there is none");
    return absl::OkStatus();
  }
  uint64_t GetSwBreakpointInfo() const override { return 0x1004; }
  absl::Status ClearAllSwBreakpoints() override {
    st.bps.clear();
    return absl::OkStatus();
  }
  void GetWatchpointInfo(uint64_t& a, AccessType& t) override {
    a = watch_address;
    t = watch_type;
  }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override {
    return absl::UnimplementedError("");
  }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override {
    return absl::UnimplementedError("");
  }
  std::string GetExecutableFileName() override { return "/a/b#c"; }

  CoreState st;
  std::map<std::string, DataBuffer*> regs;
  bool running = false, no_bps = false;
  HaltReasonValueType last = *HaltReason::kNone, next = *HaltReason::kNone;
  uint64_t watch_address = 0x100c;
  AccessType watch_type = AccessType::kStore;
  int calls = 0, fail_at = 0;
};

// Register numbers: 0 x0 (64 bits), 1 x1 (32), 2 a gap, 3 x3 (128), 4 pc (64),
// 5 v5 (declared with 256 bits, 128 in the core), 6 x6 (not declared),
// 7 a register that the core does not have.
class Info : public DebugInfo {
 public:
  Info() : map_{{0, "x0"}, {1, "x1"}, {3, "x3"}, {4, "pc"}, {5, "v5"}, {6, "x6"}, {0x17, "zz"}} {}
  const DebugRegisterMap& debug_register_map() const override { return map_; }
  int GetFirstGpr() const override { return 0; }
  int GetLastGpr() const override { return last_gpr; }
  int GetPcRegister() const override { return 4; }
  int GetGprWidth() const override { return 64; }
  int GetPcWidth() const override { return 64; }
  int GetRegisterByteWidth(int) const override { return 8; }
  std::string_view GetGdbTargetXml() const override { return xml; }
  std::string_view GetLLDBHostInfo() const override { return host; }
  std::string xml =
      "<target version=\"1.0\">\n"
      "  <!-- # $5 {a} *b* -->\n"
      "  <reg name=\"x0\" bitsize=\"64\" regnum=\"0\"/>\n"
      "  <reg regnum=\"1\" name=\"x1\" bitsize = \"32\"/>\n"
      "  <reg bitsize=\"128\" regnum=\"3\" name=\"x3\"/>\n"
      "  <reg name=\"pc\" regnum=\"4\" bitsize=\"64\"/>\n"
      "  <reg name=\"v5\" regnum=\"5\" bitsize=\"256\"/>\n"
      "</target>\n";
  std::string host = "triple:riscv64:x#y;endian:little;ptrsize:8;novalue;";
  int last_gpr = 3;
  DebugRegisterMap map_;
};

// --- The reference --------------------------------------------------------------
struct Exp {
  // kText: exactly this reply. kErr: an error. kEmpty: not supported. kBad: an
  // error or not supported. kAny: any reply, and anything may have been done.
  // kPiece: this text behind an m, or an l where it is the last piece.
  // kNone: no reply, the connection is closed. kOkClosed: OK, then closed.
  enum Kind { kText, kErr, kEmpty, kBad, kAny, kNone, kOkClosed, kPrefix, kPiece } kind;
  std::string text;
};

struct Ref {
  CoreState st;
  const Info* info;
  Core* core;  // for the environment's answers only
  bool noack = false, suffix = false, running = false;
  HaltReasonValueType last = *HaltReason::kNone;   // what the core reports
  HaltReasonValueType known = *HaltReason::kNone;  // what the server has seen

  static bool Num(const std::string& s, uint64_t* v, Exp* e) {
    if (s.empty()) return *e = {Exp::kBad}, false;
    bool strict = s.size() <= 16;
    for (char ch : s) strict = strict && isxdigit((unsigned char)ch);
    if (strict) return *v = strtoull(s.c_str(), nullptr, 16), true;
    // Forms that a lenient reader may accept.
    size_t b = s.find_first_not_of(" \t+-");
    std::string t = b == std::string::npos ? "" : s.substr(b);
    if (t.size() > 1 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) t = t.substr(2);
    while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    bool hex = !t.empty();
    for (char ch : t) hex = hex && isxdigit((unsigned char)ch);
    *e = {hex ? Exp::kAny : Exp::kBad};
    return false;
  }
  static bool Pairs(const std::string& s, Bytes* b) {
    b->clear();
    if (s.size() % 2) return false;
    for (size_t i = 0; i < s.size(); i += 2) {
      if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1])) return false;
      b->push_back(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
    }
    return true;
  }
  std::string Pc() const {
    return "4:" + HexOf(st.regs.at("pc")) + ";";
  }
  std::string Reason() {
    known = last;
    switch (last) {
      case *HaltReason::kSoftwareBreakpoint: case *HaltReason::kHardwareBreakpoint:
      case *HaltReason::kDataWatchPoint: case *HaltReason::kActionPoint:
        return "T02thread:1;" + Pc();
      case *HaltReason::kSimulatorError: return "T06thread:1;" + Pc();
      case *HaltReason::kUserRequest: return "T03thread:1;" + Pc();
      case *HaltReason::kProgramDone: case *HaltReason::kSemihostHaltRequest:
        return "W00";
    }
    return "T05thread:1;" + Pc();
  }
  std::string VReason() {
    known = last;
    switch (last) {
      case *HaltReason::kSoftwareBreakpoint: return "T05thread:1;swbreak:;" + Pc();
      case *HaltReason::kHardwareBreakpoint: return "T05thread:1;hwbreak:;";
      case *HaltReason::kDataWatchPoint: {
        const char* n = core->watch_type == AccessType::kLoad ? "rwatch"
                        : core->watch_type == AccessType::kStore ? "watch" : "awatch";
        if (core->watch_type == AccessType::kNone) break;
        return S("T05thread:1;%s:%llx;", n, (unsigned long long)core->watch_address) + Pc();
      }
      case *HaltReason::kActionPoint: case *HaltReason::kSimulatorError:
        return "T06thread:1;" + Pc();
      case *HaltReason::kUserRequest: return "T03thread:1;" + Pc();
      case *HaltReason::kProgramDone: case *HaltReason::kSemihostHaltRequest:
        return "W00";
    }
    return "T05thread:1;" + Pc();
  }
  void SetPc(uint64_t a) { memcpy(st.regs["pc"].data(), &a, 8); }

  Exp Do(std::string b) {
    if (b.empty()) return {Exp::kEmpty};
    char op = b[0];
    std::string r = b.substr(1);
    Exp e{Exp::kAny};
    if (strchr("csgGpP", op)) {
      size_t t = r.find(";thread:");
      if (t != std::string::npos) {
        std::string s = r.substr(t + 8);
        bool one = suffix && (s == "1;" || s == "1" || s == "0001;");
        if (!one) return {Exp::kAny};
        r = r.substr(0, t);
      } else if (op == 'g' && !r.empty()) {
        return {Exp::kAny};
      }
    }
    uint64_t a, n;
    Bytes data;
    switch (op) {
      case '?':
        if (!r.empty()) return {Exp::kAny};
        return {Exp::kText, Reason()};
      case 'c':
      case 's': {
        bool addr = !r.empty();
        if (addr && !Num(r, &a, &e)) return e.kind == Exp::kAny ? e : Exp{Exp::kErr};
        if (op == 's') {
          if (addr) SetPc(a);
          st.log.push_back("step 1");
          last = core->next;
          return {Exp::kText, "T05"};
        }
        if (known == *HaltReason::kProgramDone) return {Exp::kText, "W00"};
        if (!running) {
          if (addr) SetPc(a);
          st.log.push_back("run");
          last = core->next;
        } else {
          if (addr) return {Exp::kAny};
          last = core->next;
          running = false;
        }
        return {Exp::kText, Reason()};
      }
      case 'D':
        return {Exp::kOkClosed};
      case 'k':
        return {Exp::kNone};
      case 'g': {
        std::string t;
        for (const char* x : {"x0", "x1", "x3"})
          if (strcmp(x, "x3") || info->last_gpr >= 3) t += HexOf(st.regs.at(x));
        return {Exp::kText, t};
      }
      case 'G': {
        std::vector<std::string> names = {"x0", "x1"};
        if (info->last_gpr >= 3) names.push_back("x3");
        size_t size = 0;
        for (auto& x : names) size += st.regs[x].size();
        if (!Pairs(r, &data) || data.size() != size) return {Exp::kErr};
        size_t i = 0;
        for (auto& x : names)
          for (auto& byte : st.regs[x]) byte = data[i++];
        return {Exp::kText, "OK"};
      }
      case 'H': {
        if (r.empty()) return {Exp::kBad};
        if (r.substr(1) == "-1") return {Exp::kText, "OK"};
        if (!Num(r.substr(1), &a, &e)) return e.kind == Exp::kAny ? e : Exp{Exp::kErr};
        if (a > 1) return {Exp::kErr};
        return {Exp::kText, "OK"};
      }
      case 'm': {
        size_t c = r.find(',');
        if (c == std::string::npos) return {Exp::kErr};
        Exp e2{Exp::kAny};
        bool ok1 = Num(r.substr(0, c), &a, &e), ok2 = Num(r.substr(c + 1), &n, &e2);
        if (!ok1 || !ok2) {
          if ((!ok1 && e.kind == Exp::kBad) || (!ok2 && e2.kind == Exp::kBad)) return {Exp::kErr};
          return {Exp::kAny};
        }
        if (n == 0) return {Exp::kText, ""};
        if (a - kBase >= (uint64_t)kMem) return {Exp::kErr};
        // More than can be had: as much as there is, or an error if it is more
        // than fits in a packet.
        if (n > 0x1000) return {Exp::kAny};
        n = std::min<uint64_t>(n, kBase + kMem - a);
        return {Exp::kText, HexOf(Bytes(&st.mem[a - kBase], &st.mem[a - kBase] + n))};
      }
      case 'M': {
        size_t c = r.find(','), d = r.find(':');
        if (c == std::string::npos || d == std::string::npos || d < c) return {Exp::kErr};
        Exp e2{Exp::kAny};
        bool ok1 = Num(r.substr(0, c), &a, &e), ok2 = Num(r.substr(c + 1, d - c - 1), &n, &e2);
        bool ok3 = Pairs(r.substr(d + 1), &data);
        if ((!ok1 && e.kind == Exp::kBad) || (!ok2 && e2.kind == Exp::kBad) || !ok3) return {Exp::kErr};
        if (!ok1 || !ok2) return {Exp::kAny};
        if (data.size() != n) return {Exp::kErr};
        if (n == 0) return {Exp::kText, "OK"};
        if (a - kBase >= (uint64_t)kMem) return {Exp::kErr};
        uint64_t m = std::min<uint64_t>(n, kBase + kMem - a);
        for (uint64_t i = 0; i < m; i++) st.mem[a - kBase + i] = data[i];
        return m == n ? Exp{Exp::kText, "OK"} : Exp{Exp::kErr};
      }
      case 'p': {
        if (!Num(r, &a, &e)) return e.kind == Exp::kAny ? e : Exp{Exp::kErr};
        auto it = info->debug_register_map().find(a);
        if (it == info->debug_register_map().end() || !st.regs.count(it->second)) return {Exp::kErr};
        Bytes v = st.regs[it->second];
        if (a == 5) v.resize(32);
        return {Exp::kText, HexOf(v)};
      }
      case 'P': {
        size_t q = r.find('=');
        if (q == std::string::npos) return {Exp::kErr};
        if (!Num(r.substr(0, q), &a, &e)) return e.kind == Exp::kAny ? e : Exp{Exp::kErr};
        auto it = info->debug_register_map().find(a);
        if (it == info->debug_register_map().end() || !st.regs.count(it->second)) return {Exp::kErr};
        if (!Pairs(r.substr(q + 1), &data)) return {Exp::kErr};
        Bytes& v = st.regs[it->second];
        if (data.empty() || data.size() > v.size()) return {Exp::kAny};
        std::copy(data.begin(), data.end(), v.begin());
        return {Exp::kText, "OK"};
      }
      case 'q': {
        if (r == "C") return {Exp::kText, "QC1"};
        if (r == "Attached") return {Exp::kText, "0"};
        if (r == "fThreadInfo") return {Exp::kText, "m1"};
        if (r == "sThreadInfo") return {Exp::kText, "l"};
        if (r == "ExecAndArgs") return {Exp::kText, "/a/b#c"};
        if (r == "GDBServerVersion") return {Exp::kPrefix, "name:"};
        if (r == "HostInfo") {
          std::string t = "triple:";
          for (char ch : std::string("riscv64:x#y")) t += S("%02x", ch);
          return {Exp::kText, t + ";endian:little;ptrsize:8;"};
        }
        if (r.rfind("Supported", 0) == 0) return {Exp::kPrefix, "PacketSize=2000;"};
        const std::string x = "Xfer:features:read:target.xml:";
        if (r.rfind(x, 0) == 0) {
          r = r.substr(x.size());
          size_t c = r.find(',');
          if (c == std::string::npos) return {Exp::kBad};
          if (!Num(r.substr(0, c), &a, &e)) return e;
          if (!Num(r.substr(c + 1), &n, &e)) return e;
          if (a >= info->xml.size()) return {Exp::kText, "l"};
          return {Exp::kPiece, (n >= info->xml.size() - a ? "l" : "m") + info->xml.substr(a, n)};
        }
        for (const char* p : {"Attached", "ExecAndArgs", "fThreadInfo", "sThreadInfo",
                              "GDBServerVersion", "HostInfo"})
          if (r.rfind(p, 0) == 0) return {Exp::kAny};
        return {Exp::kEmpty};
      }
      case 'Q':
        if (r == "StartNoAckMode" || r == "ThreadSuffixSupported" ||
            r == "EnableErrorStrings" || r == "ListThreadsInStopReply") {
          if (r[0] == 'T') suffix = true;
          return {Exp::kText, "OK"};
        }
        return {Exp::kEmpty};
      case 'v': {
        if (b == "vCont?") return {Exp::kPrefix, "vCont"};
        if (b == "vMustReplyEmpty") return {Exp::kEmpty};
        if (b.rfind("vCont", 0)) return {Exp::kBad};
        if (b.size() < 6 || b[5] != ';') return {Exp::kBad};
        char act = 0;  // the leftmost action that matches thread 1
        std::string l = b.substr(6) + ";";
        bool bad = false, any = false;
        for (size_t p = 0; p < l.size();) {
          size_t q = l.find(';', p);
          std::string one = l.substr(p, q - p);
          p = q + 1;
          size_t col = one.find(':');
          std::string what = one.substr(0, col);
          if (what != "c" && what != "s") {
            bad = true;
            continue;
          }
          if (col != std::string::npos) {
            std::string id = one.substr(col + 1);
            if (id != "-1") {
              if (!Num(id, &a, &e)) {
                (e.kind == Exp::kAny ? any : bad) = true;
                continue;
              }
              if (a > 1) {
                bad = true;
                continue;
              }
            }
          }
          if (!act) act = what[0];
        }
        if (any) return {Exp::kAny};
        if (bad) return {Exp::kErr};
        if (known != *HaltReason::kProgramDone) {
          if (running) {
            if (act == 's') return {Exp::kAny};
            running = false;
            last = core->next;
          } else {
            st.log.push_back(act == 'c' ? "run" : "step 1");
            last = core->next;
          }
          known = last;
        }
        if (known == *HaltReason::kProgramDone) return {Exp::kText, "W00"};
        return {Exp::kText, VReason()};
      }
      case 'Z':
      case 'z': {
        if (r.size() < 2 || r[0] != '0') return {Exp::kBad};
        if (r[1] != ',') return {Exp::kBad};
        size_t c = r.find(',', 2);
        if (c == std::string::npos) return {Exp::kBad};
        if (!Num(r.substr(2, c - 2), &a, &e)) return e;
        if (!Num(r.substr(c + 1), &n, &e)) return {Exp::kAny};
        if (core->no_bps) return {Exp::kEmpty};
        bool ok = op == 'Z' ? st.bps.insert(a).second : st.bps.erase(a);
        return ok ? Exp{Exp::kText, "OK"} : Exp{Exp::kErr};
      }
    }
    return {Exp::kEmpty};
  }
};

// --- A session --------------------------------------------------------------------
std::string Packet(const std::string& body) {
  uint8_t sum = 0;
  for (char ch : body) sum += ch;
  return "$" + body + S("#%02x", sum);
}
std::string Escape(const std::string& s) {
  std::string r;
  for (char ch : s) {
    if (strchr("#$}", ch) && ch) r += '}', ch ^= 0x20;
    r += ch;
  }
  return r;
}

struct Session {
  Ctx& c;
  Net n;
  DataBufferFactory f;
  Core core, other;
  Info info;
  std::vector<CoreDebugInterface*> cores;
  CoreState other_before;
  GdbServer* server = nullptr;
  Ref ref;
  bool over = false;  // the reference says that the session is over

  explicit Session(Ctx& ctx) : c(ctx), core(&f), other(&f) {
    net = &n;
    cores = {&core, &other};
    other_before = other.State();
    ref.info = &info;
    ref.core = &core;
    ref.st = core.State();
  }
  ~Session() {
    if (!n.done && !n.hung) End();
    if (!n.hung) delete server;
    net = nullptr;
  }
  void Start(bool hello = true) {
    if (!server) {
      server = new GdbServer(absl::MakeSpan(cores), info);
      ref.st = core.State();
    }
    Spawn([this] { (void)server->Connect(1234); });
    if (hello && !n.done) Give("+");
  }
  void Give(const std::string& s) {
    if (n.done) return;
    n.in.append(s);
    Resume();
  }
  void End(bool error = false) {
    (error ? n.err : n.eof) = true;
    while (!n.done && !n.hung) Resume();
  }
  std::string Take() {
    std::string r;
    r.swap(n.out);
    return r;
  }
  // Takes one whole reply packet from the front of `o`; the decoded body.
  std::string Reply(std::string* o, std::string* raw = nullptr) {
    std::string all = *o;
    c.check(!o->empty() && (*o)[0] == '$', "a reply packet was due, but the server sent '%s'",
            Show(all).c_str());
    size_t h = o->find('#');
    c.check(h != std::string::npos && o->size() >= h + 3, "the reply '%s' is not a whole packet",
            Show(all).c_str());
    std::string body = o->substr(1, h - 1);
    c.check(body.find('$') == std::string::npos, "the reply '%s' has an unescaped $", Show(all).c_str());
    c.check(body.find('*') == std::string::npos, "the reply '%s' has an unescaped *", Show(all).c_str());
    uint8_t sum = 0;
    for (char ch : body) sum += ch;
    c.check(o->substr(h + 1, 2) == S("%02x", sum), "the reply '%s' has a wrong checksum",
            Show(all).c_str());
    if (raw) *raw = o->substr(0, h + 3);
    o->erase(0, h + 3);
    std::string r;
    for (size_t i = 0; i < body.size(); i++) {
      if (body[i] == '}') {
        c.check(i + 1 < body.size(), "the reply '%s' ends in an escape", Show(all).c_str());
        r += body[++i] ^ 0x20;
      } else {
        r += body[i];
      }
    }
    return r;
  }
  // Sends one good packet and receives the reply; nacks times not acknowledged.
  std::string Cmd(const std::string& wire, bool reply = true, int nacks = 0) {
    Give(wire);
    std::string o = Take();
    if (!ref.noack) {
      c.check(!o.empty() && o[0] == '+', "the packet was not acknowledged: '%s'", Show(o).c_str());
      o.erase(0, 1);
    }
    if (!reply) {
      c.check(o.empty(), "the server replied '%s' to a kill", Show(o).c_str());
      return "";
    }
    std::string raw, r = Reply(&o, &raw);
    c.check(o.empty(), "the server sent '%s' behind the reply", Show(o).c_str());
    if (!ref.noack) {
      for (int i = 0; i < nacks; i++) {
        Give("-");
        o = Take();
        if (i == 4) {
          c.check(o.empty() && n.done, "the session goes on after five rejected replies");
          over = true;
          return r;
        }
        c.check(o == raw, "the rejected reply '%s' was repeated as '%s'", Show(raw).c_str(),
                Show(o).c_str());
      }
      Give("+");
      o = Take();
      c.check(o.empty(), "the server sent '%s' after its reply was acknowledged", Show(o).c_str());
    }
    return r;
  }
  void Same(const std::string& what) {
    CoreState s = core.State();
    c.check(s == ref.st, "after '%s' the core has\n  %s\n  expected\n  %s", Show(what).c_str(),
            s.Text().c_str(), ref.st.Text().c_str());
    c.check(other.State() == other_before && other.calls == 0, "the other core was touched");
  }
  void Sync() {
    std::string r = Cmd(Packet("qC"));
    c.check(r == "QC1", "out of step: the reply to qC is '%s'", Show(r).c_str());
  }
  // One command, fully checked. Returns false if the run should end.
  bool Do(const std::string& body, const std::string& wire_body, int nacks = 0) {
    Exp e = ref.Do(body);
    bool closes = e.kind == Exp::kNone || e.kind == Exp::kOkClosed;
    std::string r = Cmd(Packet(wire_body), e.kind != Exp::kNone, nacks);
    c.op("%s -> %s", Show(body).c_str(), Show(r).c_str());
    c.outcome(r.substr(0, 2) + (char)('0' + e.kind));
    if (body == "QStartNoAckMode") ref.noack = true;
    const char* s = r.c_str();
    switch (e.kind) {
      case Exp::kText:
        c.check(r == e.text, "the reply to '%s' is '%s', expected '%s'", Show(body).c_str(),
                Show(r).c_str(), Show(e.text).c_str());
        break;
      case Exp::kPrefix:
        c.check(r.rfind(e.text, 0) == 0, "the reply to '%s' is '%s'", Show(body).c_str(), Show(r).c_str());
        break;
      case Exp::kPiece:
        c.check((*s == 'm' || *s == e.text[0]) && r.substr(1) == e.text.substr(1),
                "the reply to '%s' is '%s'", Show(body).c_str(), Show(r).c_str());
        break;
      case Exp::kErr:
        c.check(*s == 'E', "the reply to '%s' is '%s', not an error", Show(body).c_str(), Show(r).c_str());
        break;
      case Exp::kEmpty:
        c.check(r.empty(), "the reply to '%s', which is not supported, is '%s'", Show(body).c_str(),
                Show(r).c_str());
        break;
      case Exp::kBad:
        c.check(r.empty() || *s == 'E', "the reply to '%s' is '%s'", Show(body).c_str(), Show(r).c_str());
        break;
      case Exp::kOkClosed:
        c.check(r == "OK", "the reply to '%s' is '%s'", Show(body).c_str(), Show(r).c_str());
        break;
      default:
        break;
    }
    if (closes) {
      c.check(n.done || over, "the session goes on after '%s'", Show(body).c_str());
      over = true;
    }
    if (e.kind != Exp::kAny) Same(body);
    c.state(core.State().Text() + S(" %d%d%x%x", ref.noack, ref.suffix, ref.last, ref.known));
    if (over) return false;
    c.check(!n.done, "the session ended after '%s'", Show(body).c_str());
    if (e.kind == Exp::kAny) {
      Sync();
      return false;
    }
    return true;
  }
  bool Do(const std::string& body) { return Do(body, Escape(body)); }
  // Ends the session and takes everything down.
  void Close(bool error = false) {
    if (!n.done) End(error);
    c.check(!n.hung, "the server goes on reading after the connection is gone");
    c.check(n.out.empty() || true, " ");
    delete server;
    server = nullptr;
    c.check(n.misuse.empty(), "%s", n.misuse.c_str());
    c.check(n.fds.empty(), "%d descriptors were never closed", (int)n.fds.size());
  }
};

void Modes(Session& s, Ctx& c, bool err = false) {
  if (c.flip("no ack")) s.Do("QStartNoAckMode");
  if (err && c.flip("errors")) s.Do("qSupported:error-message+;swbreak+");
}

const std::vector<std::string>& Some() {
  static const auto* v = new std::vector<std::string>{"m1000,2", "P0=11", "?", "M1001,1:5c", "xyz"};
  return *v;
}

// --- Framing: acknowledgements, corruption, repetition.
void Framing(Ctx& c, int depth) {
  Session s(c);
  s.Start();
  Modes(s, c);
  for (int i = 0; i < depth; i++) {
    std::string body = c.pick(Some(), "packet");
    int how = c.choose(9, "how");
    std::string w = Packet(body);
    if (how == 0) {
      if (!s.Do(body, body, s.ref.noack ? 0 : c.choose(6, "nacks"))) break;
      continue;
    }
    char& d1 = w[w.size() - 2];
    char& d2 = w[w.size() - 1];
    auto other = [](char ch) { return ch == '5' ? 'a' : '5'; };
    bool good = false;
    switch (how) {
      case 1: d1 = other(d1); break;
      case 2: d2 = other(d2); break;
      case 3: d1 = 'z'; break;
      case 4: d2 = '-'; break;
      case 5: w[1] ^= 1; break;                    // the body
      case 6: w.insert(2, 1, 'q'); break;          // an extra character
      case 7: w.erase(1, 1); break;                // a lost character
      case 8:                                      // upper case: fine
        d1 = toupper(d1), d2 = toupper(d2);
        good = true;
        break;
    }
    if (good) {
      Exp e = s.ref.Do(body);
      std::string r = s.Cmd(w);
      c.op("%s -> %s", Show(w).c_str(), Show(r).c_str());
      if (e.kind == Exp::kText) c.check(r == e.text, "the reply to '%s' is '%s'", Show(w).c_str(), Show(r).c_str());
      s.Same(w);
      continue;
    }
    s.Give(w);
    std::string o = s.Take();
    c.op("%s (corrupt) -> %s", Show(w).c_str(), Show(o).c_str());
    if (!s.ref.noack) {
      c.check(o == "-", "the corrupted packet '%s' was answered by '%s'", Show(w).c_str(), Show(o).c_str());
    } else {
      std::string r = s.Reply(&o);
      c.check(r[0] == 'E' && o.empty(), "the corrupted packet '%s' was answered by '%s'",
              Show(w).c_str(), Show(r).c_str());
    }
    s.Same(w);
  }
  if (!s.over) s.Sync();
  s.Close();
}

// --- The connection goes away at any byte.
void Cut(Ctx& c) {
  Session s(c);
  bool noack = c.flip("no ack");
  std::string body = c.pick(Some(), "packet");
  // What the client sends in a session in which everything is acknowledged.
  std::string all = "+";
  if (noack) all += Packet("QStartNoAckMode") + "+";
  size_t first = all.size();
  all += Packet(body);
  size_t sent = all.size();
  if (!noack) all += "+";
  all += "$" + body.substr(0, 1);
  int cut = c.choose(all.size() + 1, "cut");
  bool err = c.flip("error");
  c.op("'%s' cut after %d bytes (%s)", all.c_str(), cut, err ? "error" : "end");
  s.Start(false);
  if (cut) s.Give(all.substr(0, cut));
  if ((size_t)cut >= sent) s.ref.Do(body);
  (void)first;
  s.End(err);
  c.check(!s.n.hung, "the server goes on reading after the connection is gone");
  s.Same("cut");
  s.Take();
  s.Close();
  // The first character is not the acknowledgement that a client starts with.
}

void BadStart(Ctx& c) {
  Session s(c);
  s.Start(false);
  std::string h = c.pick<const char*>({"x", "-", "$", "\xff", "+x", "+-", "+\x03", "+#00"}, "hello");
  h += Packet("P0=11");
  c.op("'%s'", Show(h).c_str());
  s.Give(h);
  c.check(s.n.done, "the server goes on although the client does not speak the protocol");
  s.Same(h);
  s.Close();
}

// --- Commands: sequences against the reference.
void Commands(Ctx& c, int depth) {
  Session s(c);
  s.info.last_gpr = c.pick<int>({3, 1}, "last register");
  s.Start();
  Modes(s, c, true);
  static const auto* cmds = new std::vector<std::string>{
      "g", "p0", "p1", "p3", "p4", "p5", "p6", "p2", "p17", "p99",
      "P0=1122334455667788", "P0=11", "P1=aabbCCDD", "P3=000102030405060708090a0b0c0d0e0f",
      "P4=0010000000000000", "P5=ff", "P6=9876", "P2=00", "P17=00", "P0=1", "P0=1g", "P0",
      "Gf0f1f2f3f4f5f6f7e0e1e2e3", "Gf0f1f2f3f4f5f6f7e0e1e2e3d0d1d2d3d4d5d6d7d8d9dadbdcdddedf", "G00",
      "Gf0f1f2f3f4f5f6f7e0e1e2e3d0d1d2d3d4d5d6d7d8d9dadbdcdddedx", "G",
      "m1000,4", "m1000,10", "m100e,4", "m1010,1", "mfff,2", "m1003,0", "m1000", "mffffffffffffffff,1",
      "M1000,2:0102", "M100f,1:7e", "M100e,4:01020304", "M1002,1:0", "M1002,1:zz", "M1002,2:01",
      "M1002,1:0102", "M2000,1:00", "M1004,0:", "M1000,2",
      "Z0,1004,4", "z0,1004,4", "Z0,FFFFFFFFFFFFFFFC,2", "Z1,1004,4", "Z2,1004,4", "z2,1004,4",
      "Hg0", "Hg1", "Hc-1", "Hg2", "Hc5", "Hg-2", "Hgffffffff", "H", "Hg",
      "QThreadSuffixSupported", "p0;thread:1;", "P1=01020304;thread:1;", "g;thread:0001;",
      "m1000,1", "?", "qC", "qAttached", "qfThreadInfo", "qsThreadInfo", "qSupported", "qHostInfo",
      "qExecAndArgs", "qGDBServerVersion", "QEnableErrorStrings", "QListThreadsInStopReply",
      "qSymbol::", "q", "Q", "v", "vMustReplyEmpty", "vCont?", "vKill;1", "!", "R00", "X1000,0:", "",
      "c", "s", "c1008", "s100c", "vCont;c", "vCont;s:1;c", "D", "k"};
  for (int i = 0; i < depth; i++)
    if (!s.Do(c.pick(*cmds, "command"))) break;
  if (!s.over && !s.n.done) s.Sync();
  s.Close();
}

// --- Run control: every reason to halt.
void RunControl(Ctx& c, int depth) {
  Session s(c);
  s.core.watch_type = c.pick({AccessType::kNone, AccessType::kLoad, AccessType::kStore, AccessType::kLoadStore}, "access");
  bool watch = s.core.watch_type != AccessType::kStore;
  if (c.flip("running at the start")) s.core.running = s.ref.running = true;
  s.Start();
  if (c.flip("no ack")) s.Do("QStartNoAckMode");
  const std::vector<HaltReasonValueType> reasons =
      watch ? std::vector<HaltReasonValueType>{4, 1}
            : std::vector<HaltReasonValueType>{0, 1, 2, 3, 4, 5, 6, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xffffffff};
  for (int i = 0; i < depth; i++) {
    s.core.next = c.pick(reasons, "reason");
    std::string b = c.pick<const char*>({"c", "s", "?", "c1004", "s1004", "vCont;c", "vCont;s", "vCont;c:1", "vCont;s:1",
        "vCont;s:1;c", "vCont;c:1;s", "vCont;c:-1", "vCont;s:-1;c:1", "vCont;c:0", "vCont;s:2", "vCont;c:1;s:2",
        "vCont;C05:1", "vCont", "vCont;", "vContx", "vCont;c:", "vCont;c;", "c;thread:1;"}, "command");
    if (b == "c;thread:1;" && !s.ref.suffix) {
      s.Do("QThreadSuffixSupported");
      b = "c;thread:1;";
    }
    if (s.ref.running && b[0] == 's') continue;  // stepping a running core
    c.note("the core would halt by %x", s.core.next);
    if (!s.Do(b)) break;
  }
  s.Close();
}

// --- Malformed packets: every single-character edit of well-formed ones.
void Edits(Ctx& c) {
  static const auto* base = new std::vector<std::string>{
      "m1000,4", "M1000,2:0102", "P1=01020304", "p3", "Gf0f1f2f3f4f5f6f7e0e1e2e3", "Hg1", "Z0,1004,4",
      "z0,1004,4", "vCont;s:1;c", "c1004", "s1004", "g;thread:1;", "P1=01020304;thread:1;", "p1;thread:1;",
      "qXfer:features:read:target.xml:0,10", "qSupported:error-message+", "QStartNoAckMode", "?", "D", "k", "qC"};
  static const char kAlpha[] = "01fgz,;:=-x }*";
  std::string b = c.pick(*base, "base");
  Session s(c);
  s.info.last_gpr = 1;
  s.Start();
  Modes(s, c);
  if (b.find(";thread:") != std::string::npos) s.Do("QThreadSuffixSupported");
  int kind = c.choose(3, "edit");
  int at = c.choose(b.size() + (kind == 1), "at");
  if (kind == 0) b.erase(at, 1);
  else if (kind == 1) b.insert(at, 1, kAlpha[c.choose(sizeof kAlpha - 1, "char")]);
  else b[at] = kAlpha[c.choose(sizeof kAlpha - 1, "char")];
  if (s.Do(b)) s.Sync();
  s.Close();
}
// Short packets: all of them over a small alphabet.
void Short(Ctx& c, int len) {
  static const char kOps[] = "?cDgGHmMpPqQsvzZX";
  static const char kAlpha[] = "01,:;=-g";
  Session s(c);
  s.info.last_gpr = 1;
  s.Start();
  if (c.flip("thread suffix")) s.Do("QThreadSuffixSupported");
  std::string b(1, kOps[c.choose(sizeof kOps - 1, "op")]);
  int n = c.choose(len + 1, "length");
  for (int i = 0; i < n; i++) b += kAlpha[c.choose(sizeof kAlpha - 1, "char")];
  if (s.Do(b)) s.Sync();
  s.Close();
}

// --- Escapes: any characters of a command may be escaped.
void Escapes(Ctx& c) {
  std::string b = c.pick<const char*>({"m1000,4", "P1=0102", "M1000,1:7e", "qC", "?", "Hg1"}, "command");
  Session s(c);
  s.Start();
  Modes(s, c);
  std::string w;
  for (char ch : b) {
    bool esc = b.size() > 8 ? (w.size() < 3 || ch == ':') && c.flip("escaped") : c.flip("escaped");
    if (ch == ',' && b.size() > 8) esc = c.flip("escaped");
    if (esc && !strchr("$#}", ch ^ 0x20)) w += '}', ch ^= 0x20;
    w += ch;
  }
  int tail = c.choose(3, "tail");
  if (tail == 1) {  // an escape character at the very end
    s.Cmd(Packet(w + "}"));
    s.Sync();
  } else {
    s.Do(b, w);
  }
  s.Close();
}

// --- The description of the target, in pieces.
void Xfer(Ctx& c) {
  Session s(c);
  std::string tail = c.pick<const char*>({"", "#", "$", "}", "*", "}}#", "a*#b"}, "tail");
  s.info.xml = "<reg regnum=\"1\">" + tail;
  s.Start();
  Modes(s, c);
  int len = c.choose(10, "length") + 1;
  if (len == 8) len = s.info.xml.size();
  if (len == 9) len = s.info.xml.size() + 1;
  if (len == 10) len = 0x1000;
  std::string got;
  for (int i = 0;; i++) {
    c.check(i < 100, "the description never ends");
    std::string r = s.Cmd(Packet(S("qXfer:features:read:target.xml:%x,%x", (int)got.size(), len)));
    c.op("%d,%d -> %s", (int)got.size(), len, Show(r).c_str());
    c.check(!r.empty() && (r[0] == 'm' || r[0] == 'l'), "the reply is '%s'", Show(r).c_str());
    c.check(r.size() - 1 <= (size_t)len, "the reply '%s' has more than %d characters", Show(r).c_str(), len);
    c.check(r[0] == 'l' || r.size() > 1, "an empty piece");
    got += r.substr(1);
    if (r[0] == 'l') break;
  }
  c.check(got == s.info.xml, "the client has read '%s' instead of '%s'", Show(got).c_str(), Show(s.info.xml).c_str());
  s.Do(S("qXfer:features:read:target.xml:%x,ffffffffffffffff", c.choose(3, "offset")));
  s.Do("qXfer:features:read:target.xml:ffffffffffffffff,2");
  s.Close();
}

// --- Long packets.
void Long(Ctx& c) {
  Session s(c);
  s.Start();
  Modes(s, c);
  int n = c.pick<int>({0x1000, 0x1ff0, 0x1ff8, 0x3ff0, 0x3ffa, 0x3ffb, 0x3ffc, 0x3ffd, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4010, 0x8000, 0x20000}, "size");
  int kind = c.choose(3, "kind");
  std::string b = kind == 0 ? "M1000," + S("%x:", n / 2) : kind == 1 ? "G" : "xx";
  if (b.size() < (size_t)n) b.append(n - b.size(), '0');
  // A packet that the server announced to take must be answered; longer ones
  // may be rejected by an error or by closing the connection.
  s.Give(Packet(b));
  std::string o = s.Take();
  c.op("%d bytes -> %s", (int)b.size(), Show(o).c_str());
  if (b.size() + 4 <= 0x2000) c.check(!s.n.done, "the session ended by a packet of %d bytes", (int)b.size());
  if (!s.n.done) {
    if (!s.ref.noack) {
      c.check(o.size() > 1 && (o[0] == '+' || o[0] == '-'), "no acknowledgement");
      o.erase(0, 1);
    }
    if (!o.empty()) {
      s.Reply(&o);
      if (!s.ref.noack) s.Give("+");
    }
    s.Sync();
  }
  if (kind) s.Same("a long packet");
  s.Close();
}
// Long reads.
void LongRead(Ctx& c) {
  Session s(c);
  s.Start();
  Modes(s, c, true);
  uint64_t len = c.pick<uint64_t>({0x10, 0x11, 0x1000, 0x1fff, 0x2000, 0x3fff, 0x4000, 0x4001, 0x10000, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull}, "length");
  uint64_t at = c.pick<uint64_t>({0x1000, 0x100f, 0x1010}, "address");
  std::string b = S("%c%llx,%llx", "mM"[c.choose(2)], (unsigned long long)at, (unsigned long long)len);
  if (b[0] == 'M') b += ":00";
  std::string r = s.Cmd(Packet(b));
  c.op("%s -> %s", b.c_str(), Show(r).c_str());
  Bytes want;
  if (at < kBase + kMem) want = Bytes(s.ref.st.mem.begin() + (at - kBase), s.ref.st.mem.end());
  c.check(r[0] == 'E' || (b[0] == 'm' && !want.empty() && r == HexOf(want)), "the reply to '%s' is '%s'", b.c_str(), Show(r).c_str());
  s.Same(b);
  s.Sync();
  s.Close();
}

// --- Connections: set-up failures, one session after the other.
void Connections(Ctx& c) {
  Session s(c);
  int n = 1 + c.choose(3, "connections");
  for (int i = 0; i < n; i++) {
    s.n.eof = s.n.err = false;
    s.n.in.clear();
    s.n.pos = 0;
    s.n.idle_reads = 0;
    s.n.fail_call = c.choose(6, "failing call");
    if (s.n.fail_call) {
      s.Start(false);
      c.op("call %d fails", s.n.fail_call);
      c.check(s.n.done, "the server waits for a client that is not there");
      continue;
    }
    s.over = false;
    s.ref.noack = s.ref.suffix = false;
    s.Start();
    c.check(!s.n.done, "the server does not go on with a new connection");
    int what = c.choose(4, "session");
    if (what & 1) s.Do("QStartNoAckMode");
    if (what == 2) s.Do("QThreadSuffixSupported");
    if (what == 3) s.Do("Hg1");
    s.Do("P0=11");
    s.Do("p0");
    switch (c.choose(4, "end")) {
      case 0: s.Do("D"); break;
      case 1: s.Do("k"); break;
      case 2: s.End(); break;
      case 3: s.End(true); break;
    }
    c.op("session %d over", i);
    c.check(s.n.done && !s.n.hung, "the session is not over");
    c.check(s.n.misuse.empty(), "%s", s.n.misuse.c_str());
  }
  s.Close();
}

// --- The core refuses.
void Faults(Ctx& c) {
  Session s(c);
  s.core.no_bps = c.flip("no breakpoints");
  s.Start();
  Modes(s, c, true);
  std::string b = c.pick<const char*>({"g", "G00", "p0", "p3", "P0=11", "m1000,2", "M1000,1:11", "Z0,1004,4", "z0,1004,4",
      "c", "c1004", "s", "s1004", "?", "Gf0f1f2f3f4f5f6f7e0e1e2e3d0d1d2d3d4d5d6d7d8d9dadbdcdddedf", "vCont;c", "vCont;s:1"}, "command");
  if (s.core.no_bps) {
    if (s.Do(b)) s.Sync();
    s.Close();
    return;
  }
  s.core.calls = 0;
  s.core.fail_at = 1 + c.choose(6, "failing call");
  CoreState before = s.core.State();
  Exp e = s.ref.Do(b);
  std::string r = s.Cmd(Packet(b));
  c.op("%s, call %d fails -> %s", b.c_str(), s.core.fail_at, Show(r).c_str());
  if (s.core.calls < s.core.fail_at) {
    if (e.kind == Exp::kText) c.check(r == e.text, "the reply to '%s' is '%s'", b.c_str(), Show(r).c_str());
    s.Same(b);
  } else {
    if (b[0] != 'v')
      c.check(r[0] == 'E', "the reply to '%s', which failed, is '%s'", b.c_str(), Show(r).c_str());
    if (strchr("GPM", b[0])) c.check(s.core.State() == before, "'%s' failed but had an effect", b.c_str());
  }
  s.core.fail_at = 0;
  s.Sync();
  s.Close();
}

// Compiles the expressions that live as long as the process.
void WarmUp() {
  Ctx c;
  c.recording_ = false;
  mc::NoTrack nt;
  Session s(c);
  s.Start();
  for (const char* b : {"Z0,1000,1", "z0,1000,1", "qXfer:features:read:target.xml:0,1", "QThreadSuffixSupported", "g;thread:1;"}) {
    s.Give(Packet(b));
    s.Give("+");
  }
}
}  // namespace

int main(int argc, char** argv) {
  WarmUp();
  return mc::Main(
      argc, argv, "C33",
      {{"framing", [](Ctx& c) { Framing(c, c.thorough() ? 3 : 2); }, 3},
       {"cut", [](Ctx& c) { Cut(c); }, 2},
       {"start", [](Ctx& c) { BadStart(c); }, 1},
       {"commands", [](Ctx& c) { Commands(c, c.thorough() ? 3 : 2); }, 4},
       {"run-control", [](Ctx& c) { RunControl(c, c.thorough() ? 3 : 2); }, 4},
       {"edits", [](Ctx& c) { Edits(c); }, 3},
       {"short", [](Ctx& c) { Short(c, c.thorough() ? 5 : 3); }, 3},
       {"escapes", [](Ctx& c) { Escapes(c); }, 3},
       {"xfer", [](Ctx& c) { Xfer(c); }, 2},
       {"long", [](Ctx& c) { Long(c); }, 2},
       {"long-read", [](Ctx& c) { LongRead(c); }, 2},
       {"connections", [](Ctx& c) { Connections(c); }, 3},
       {"faults", [](Ctx& c) { Faults(c); }, 3}},
      "sessions of up to 2 (thorough: 3) commands out of 92 in every mode; every "
      "single-character edit of 21 packets; every packet of up to 4 (6) characters "
      "over 8 characters; every way to corrupt a packet, up to 5 repetitions; a "
      "connection that ends or fails at every byte; every reason to halt; packets of "
      "up to 128 KiB; up to 3 connections with every set-up call failing");
}
