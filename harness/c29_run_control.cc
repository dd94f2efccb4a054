// C29: ReNode and a command line share one simulator, under all schedules.
#include <cstring>
#include <map>
#include <string>

#include "mc.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
#include "sched/vsched.h"

using mc::Ctx;
using mc::S;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::operator*;  // NOLINT
using mpact::sim::util::renode::CLIForwarder;
using mpact::sim::util::renode::RenodeCLITop;
using HR = CoreDebugInterface::HaltReason;
using HV = CoreDebugInterface::HaltReasonValueType;
using RunStatus = CoreDebugInterface::RunStatus;

namespace {

constexpr int kRenode = 0, kCli = 1;
const char* kWho[] = {"renode", "cli", "halter"};

// What the program does at an instruction.
struct Program {
  int breakpoint = -1, breakpoint2 = -1;  // halts before this instruction
  int self_halt = -1;   // this instruction requests a halt
  int error = -1;       // stepping this instruction fails, once
  int done = -1;        // the program ends with this instruction
};

// The simulator. Every call is a scheduling point.
struct Top : public CoreDebugInterface {
  Ctx& c;
  Program p;
  RenodeCLITop* cli_top = nullptr;
  int pc = 0;
  bool done = false, stepping = false, halt = false;
  HV reason = *HR::kNone, halt_reason = 0;
  const char* inside = nullptr;  // the call in progress
  int inside_by = -1;
  int stopped_at = -1;  // breakpoint that was hit last
  bool accepted_halt = false;
  bool error_given = false;
  // Monitors.
  bool renode_in_step = false;     // a RenodeStep call is active
  bool cli_step = false, cli_run = false;  // an active call of the CLI
  bool connected = false;
  bool halted_for_cli = false;  // halted: nothing may execute until the CLI
                                // steps or runs
  int executed_in_renode_step = 0, executed_by_cli_step = 0;
  int executed_in_run = 0;
  std::string last_call;
  bool fail_calls = false;
  int fail_for = -1;
  DataBuffer* db = nullptr;

  explicit Top(Ctx& ctx) : c(ctx) {}

  struct In {
    Top& t;
    In(Top& t, const char* what) : t(t) {
      sched::Point(what);
      if (t.inside) {
        t.c.fail("%s calls %s while %s is in %s", kWho[sched::Current()], what,
                 kWho[t.inside_by], t.inside);
      }
      t.inside = what;
      t.inside_by = sched::Current();
    }
    ~In() { t.inside = nullptr; }
  };
  void Access(const char* what) {
    // Unless the program is done the CLI may only look at the simulator while
    // ReNode has handed it over.
    if (sched::Current() == kCli && !done) {
      c.check(renode_in_step,
              "%s for the CLI although ReNode did not ask for steps", what);
    }
  }
  bool Fails() { return fail_calls && sched::Current() == fail_for; }
  absl::Status Result() {
    return Fails() ? absl::InternalError("refused") : absl::OkStatus();
  }

  absl::Status Halt() override { return Halt(*HR::kUserRequest); }
  absl::Status Halt(HaltReason r) override { return Halt(*r); }
  absl::Status Halt(HV r) override {
    sched::Point("Halt");
    last_call = S("Halt %x", r);
    if (!stepping) return absl::FailedPreconditionError("not running");
    halt = true;
    halt_reason = r;
    accepted_halt = true;
    return absl::OkStatus();
  }
  absl::StatusOr<int> Step(int num) override {
    In in(*this, "Step");
    c.op("%s: Step(%d) at %d", kWho[sched::Current()], num, pc);
    c.check(num > 0, "Step(%d)", num);
    c.check(!done, "the simulator is stepped after the program has ended");
    stepping = true;
    halt = false;
    reason = *HR::kNone;
    int n = 0;
    absl::Status status = absl::OkStatus();
    while (n < num) {
      sched::Point("an instruction");
      if (halt) {
        reason = halt_reason;
        break;
      }
      if ((pc == p.breakpoint || pc == p.breakpoint2) && stopped_at != pc) {
        stopped_at = pc;
        reason = *HR::kSoftwareBreakpoint;
        break;
      }
      if (n == 0 && pc == p.error && !error_given) {
        error_given = true;
        status = absl::InternalError("step");
        break;
      }
      Executed();
      n++;
      if (pc == p.done) {
        done = true;
        reason = *HR::kProgramDone;
        break;
      }
      if (pc - 1 == p.self_halt) {
        halted_for_cli = false;
        cli_top->CLIRequestHalt(*HR::kUserSpecifiedMin, nullptr);
      }
    }
    if (n < num && reason == *HR::kNone && halt) reason = halt_reason;
    if (n == num && halt && reason == *HR::kNone) reason = halt_reason;
    stepping = false;
    if (connected && reason != *HR::kNone) halted_for_cli = true;
    c.note("   executed %d, now at %d, reason %x", n, pc, reason);
    if (!status.ok()) return status;
    return n;
  }
  void Executed() {
    c.check(renode_in_step,
            "%s executes instruction %d although ReNode did not ask for steps",
            kWho[sched::Current()], pc);
    if (connected) {
      c.check(cli_step || cli_run,
              "instruction %d is executed while the command line has the "
              "simulator halted",
              pc);
    }
    executed_in_renode_step++;
    if (cli_step) executed_by_cli_step++;
    if (cli_run) executed_in_run++;
    pc++;
    stopped_at = -1;
  }
  absl::Status Run() override { c.fail("Run() is called"); }
  absl::Status Wait() override {
    sched::Point("Wait");
    last_call = "Wait";
    return Result();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    In in(*this, "GetRunStatus");
    Access("GetRunStatus");
    last_call = "GetRunStatus";
    if (Fails()) return Result();
    return RunStatus::kSingleStep;
  }
  absl::StatusOr<HV> GetLastHaltReason() override {
    In in(*this, "GetLastHaltReason");
    last_call = "GetLastHaltReason";
    return reason;
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& name) override {
    In in(*this, "ReadRegister");
    Access("ReadRegister");
    last_call = "ReadRegister " + name;
    if (Fails()) return Result();
    return 1000 + pc;
  }
  absl::Status WriteRegister(const std::string& name, uint64_t v) override {
    In in(*this, "WriteRegister");
    Access("WriteRegister");
    last_call = S("WriteRegister %s %lx", name.c_str(), v);
    return Result();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(
      const std::string& name) override {
    In in(*this, "GetRegisterDataBuffer");
    Access("GetRegisterDataBuffer");
    last_call = "GetRegisterDataBuffer " + name;
    if (Fails()) return Result();
    return reinterpret_cast<DataBuffer*>(0x1230);
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    In in(*this, "ReadMemory");
    Access("ReadMemory");
    last_call = S("ReadMemory %lx %lx", a, n);
    if (Fails()) return Result();
    memset(b, 0x5a, n);
    return n - 1;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b,
                                     size_t n) override {
    In in(*this, "WriteMemory");
    Access("WriteMemory");
    last_call = S("WriteMemory %lx %lx %.*s", a, n, (int)n, (const char*)b);
    if (Fails()) return Result();
    return n - 2;
  }
  bool HasBreakpoint(uint64_t a) override {
    In in(*this, "HasBreakpoint");
    Access("HasBreakpoint");
    last_call = S("HasBreakpoint %lx", a);
    return !Fails();
  }
  absl::Status SetSwBreakpoint(uint64_t a) override {
    In in(*this, "SetSwBreakpoint");
    Access("SetSwBreakpoint");
    last_call = S("SetSwBreakpoint %lx", a);
    return Result();
  }
  absl::Status ClearSwBreakpoint(uint64_t a) override {
    In in(*this, "ClearSwBreakpoint");
    Access("ClearSwBreakpoint");
    last_call = S("ClearSwBreakpoint %lx", a);
    return Result();
  }
  absl::Status ClearAllSwBreakpoints() override {
    In in(*this, "ClearAllSwBreakpoints");
    Access("ClearAllSwBreakpoints");
    last_call = "ClearAllSwBreakpoints";
    return Result();
  }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t a) override {
    In in(*this, "GetInstruction");
    Access("GetInstruction");
    last_call = S("GetInstruction %lx", a);
    if (Fails()) return Result();
    return reinterpret_cast<Instruction*>(0x4560);
  }
  absl::StatusOr<std::string> GetDisassembly(uint64_t a) override {
    In in(*this, "GetDisassembly");
    Access("GetDisassembly");
    last_call = S("GetDisassembly %lx", a);
    if (Fails()) return Result();
    return std::string("text");
  }
};

// The forwarder leaves these to its users.
struct Forwarder : public CLIForwarder {
  explicit Forwarder(RenodeCLITop* t) : CLIForwarder(t) {}
  using CLIForwarder::Halt;
  absl::Status Halt(HaltReason) { return absl::UnimplementedError(""); }
  absl::Status Halt(HV) { return absl::UnimplementedError(""); }
};

struct World {
  Ctx& c;
  Top top;
  RenodeCLITop cli_top;
  Forwarder fwd;
  int quantum;
  bool direct = false;  // the CLI calls RenodeCLITop without the forwarder
  int total_renode = 0;
  bool halter = false;

  World(Ctx& c, Program p, int quantum, bool wait)
      : c(c), top(c), cli_top(&top, wait), fwd(&cli_top), quantum(quantum) {
    top.p = p;
    top.cli_top = &cli_top;
  }

  void RenodeStepOnce(int n) {
    bool was_done = top.done;
    top.renode_in_step = true;
    top.executed_in_renode_step = 0;
    bool error_before = top.error_given;
    auto r = cli_top.RenodeStep(n);
    top.renode_in_step = false;
    c.op("renode: RenodeStep(%d) -> %d", n, r.ok() ? *r : -1);
    if (!r.ok()) {
      c.check(top.error_given && !error_before && !was_done,
              "RenodeStep(%d) fails: %s", n,
              std::string(r.status().message()).c_str());
      return;
    }
    total_renode += *r;
    c.check(*r == top.executed_in_renode_step,
            "RenodeStep(%d) returns %d, but %d instructions were executed", n,
            *r, top.executed_in_renode_step);
    if (!top.done) {
      c.check(*r == n, "RenodeStep(%d) returns %d", n, *r);
    } else if (was_done) {
      c.check(*r == 0, "RenodeStep(%d) after the program ended returns %d", n,
              *r);
    }
    auto h = cli_top.RenodeGetLastHaltReason();
    c.check(h.ok(), "halt reason");
    c.check(cli_top.RenodeReadRegister("pc").value() == 1000u + top.pc,
            "register");
  }

  // Requests steps until the other threads are done, and then `after` times.
  void Renode(int others, int free_calls, int after) {
    int calls = 0;
    auto busy = [this, others] {
      for (int i = 1; i <= others; i++) {
        if (!sched::Finished(i)) return true;
      }
      return false;
    };
    while (busy()) {
      if (calls++ >= free_calls) sched::Idle("its next step");
      RenodeStepOnce(quantum);
    }
    for (int i = 0; i < after; i++) RenodeStepOnce(quantum);
  }

  void Connect(bool on) {
    sched::Point("SetConnected");
    c.op("cli: SetConnected(%d)", on);
    if (!on) {
      // What happens if the program halts without a CLI is not judged.
      top.connected = false;
      top.p.breakpoint = top.p.breakpoint2 = top.p.self_halt = -1;
    }
    cli_top.SetConnected(on);
    if (on) top.connected = true;
  }

  void CliStep(int n) {
    c.op("cli: CLIStep(%d)", n);
    bool error_before = top.error_given;
    top.executed_by_cli_step = 0;
    bool was_done = top.done;
    top.cli_step = true;
    auto r = direct ? cli_top.CLIStep(n) : fwd.Step(n);
    top.cli_step = false;
    c.note("   CLIStep(%d) -> %d", n, r.ok() ? *r : -1);
    if (was_done) {
      c.check(!r.ok(), "CLIStep after the program has ended");
      return;
    }
    if (!r.ok()) {
      c.check(top.error_given && !error_before, "CLIStep(%d) fails: %s", n,
              std::string(r.status().message()).c_str());
      return;
    }
    c.check(*r == top.executed_by_cli_step,
            "CLIStep(%d) returns %d, but %d instructions were executed", n, *r,
            top.executed_by_cli_step);
    if (*r != n) {
      c.check(*r < n && top.reason != *HR::kNone,
              "CLIStep(%d) returns %d although nothing stopped it", n, *r);
    }
  }
  void CliRun() {
    c.op("cli: CLIRun");
    bool was_done = top.done;
    int from = top.pc;
    top.executed_in_run = 0;
    bool was_error = top.error_given;
    top.cli_run = true;
    auto s = direct ? cli_top.CLIRun() : fwd.Run();
    top.cli_run = false;
    c.note("   CLIRun -> %d at %d", s.ok(), top.pc);
    if (was_done) {
      c.check(!s.ok(), "CLIRun after the program has ended");
    } else {
      c.check(s.ok(), "CLIRun fails: %s", std::string(s.message()).c_str());
      if (!halter) {
        c.check(top.reason != *HR::kNone,
                "CLIRun returns at %d (from %d) although nothing stopped it",
                top.pc, from);
      }
    }
  }
  void CliRead() {
    c.op("cli: CLIReadRegister");
    int pc = top.pc;
    auto r = direct ? cli_top.CLIReadRegister("pc") : fwd.ReadRegister("pc");
    c.check(r.ok() && *r == 1000u + pc,
            "CLIReadRegister: the simulator moved on to %d from %d", top.pc,
            pc);
    if (!top.done) {
      c.check(top.pc == pc, "the simulator moved on");
    }
  }
};

Program PickProgram(Ctx& c, bool must_end) {
  Program p;
  switch (c.choose(must_end ? 5 : 6, "program")) {
    case 0:
      p.done = 4;
      break;
    case 1:
      p.done = 5;
      p.breakpoint = c.choose(3, "breakpoint");
      break;
    case 2:
      p.done = 5;
      p.breakpoint = 1;
      p.breakpoint2 = c.choose(2, "second breakpoint") ? 2 : 3;
      break;
    case 3:
      p.done = 4;
      p.self_halt = c.choose(3, "halting instruction");
      break;
    case 4:
      p.done = 1 + c.choose(3, "end");
      p.error = c.choose(2, "error") - 1;
      break;
    case 5:
      p.breakpoint = c.choose(3, "breakpoint");
      p.error = c.choose(4, "error") - 1;
      break;
  }
  return p;
}

// The CLI thread is connected and issues every script of n commands.
void Scripts(Ctx& c, int n, int preemptions) {
  bool ends = c.flip("program ends");
  Program p = PickProgram(c, ends);
  if (!ends && p.done >= 0) return;
  int quantum = 1 + c.choose(3, "quantum");
  bool wait = c.flip("wait for CLI");
  sched::Options o;
  o.max_preemptions = preemptions;
  sched::Start(c, o);
  auto* w = new World(c, p, quantum, wait);
  sched::Watch(&w->cli_top, sizeof w->cli_top);
  sched::Spawn("renode", [w] { w->Renode(1, 2, 2); });
  sched::Spawn("cli", [w, ends, n] {
    Ctx& c = w->c;
    w->Connect(true);
    for (int i = 0; i < n; i++) {
      int op = c.choose(ends ? 5 : 4, "command");
      if (op < 3) w->CliStep(op + 1);
      if (op == 3) w->CliRead();
      if (op == 4) w->CliRun();
    }
    w->Connect(false);
  });
  sched::Run();
  c.outcome(S("%d %d", w->top.pc, w->total_renode));
  delete w;
}

// Without a CLI ReNode must get all its steps.
void Alone(Ctx& c) {
  Program p;
  int k = c.choose(6, "end");
  if (k) p.done = k;
  int q = 1 + c.choose(4, "quantum");
  int calls = 1 + c.choose(4, "calls");
  bool toggles = c.flip("connects and disconnects");
  sched::Options o;
  o.max_preemptions = c.thorough() ? 4 : 3;
  sched::Start(c, o);
  auto* w = new World(c, p, q, false);
  sched::Watch(&w->cli_top, sizeof w->cli_top);
  sched::Spawn("renode", [w, calls, q] {
    for (int i = 0; i < calls; i++) w->RenodeStepOnce(q);
  });
  if (toggles) {
    sched::Spawn("cli", [w] {
      for (int i = 0; i < 2; i++) {
        w->Connect(true);
        w->Connect(false);
      }
    });
  }
  sched::Run();
  if (p.done < 0) {
    c.check(w->top.pc == q * calls, "%d instructions executed", w->top.pc);
  }
  delete w;
}

// If asked to, ReNode waits for the CLI before the first instruction.
void Waits(Ctx& c) {
  Program p;
  p.done = 3;
  int q = 1 + c.choose(3, "quantum");
  sched::Start(c, {});
  auto* w = new World(c, p, q, true);
  bool connected = false;
  sched::Watch(&w->cli_top, sizeof w->cli_top);
  sched::Spawn("renode", [&] { w->Renode(1, 2, 1); });
  sched::Spawn("cli", [&] {
    for (int i = 0; i < 3; i++) sched::Point("nothing");
    c.check(w->top.pc == 0, "instructions are executed before the CLI");
    w->Connect(true);
    connected = true;
    c.check(w->top.pc == 0, "instructions are executed before the CLI");
    w->CliRead();
    if (c.flip("steps")) w->CliStep(1 + c.choose(2, "n"));
    w->Connect(false);
  });
  sched::Run();
  delete w;
}

// A third thread requests a halt while the CLI runs or steps.
void Halter(Ctx& c, int preemptions) {
  Program p;
  p.done = 5;
  int q = 1 + c.choose(3, "quantum");
  int how = c.choose(3, "how");
  sched::Options o;
  o.max_preemptions = preemptions;
  sched::Start(c, o);
  auto* w = new World(c, p, q, false);
  w->halter = true;
  w->direct = true;
  sched::Watch(&w->cli_top, sizeof w->cli_top);
  int halts = 0, stopped = 0;
  sched::Spawn("renode", [&] { w->Renode(2, 2, 1); });
  sched::Spawn("cli", [&] {
    w->Connect(true);
    int n = 2;
    for (int i = 0; i < n; i++) {
      switch (c.choose(3, "command")) {
        case 0: w->CliRun(); break;
        case 1: w->CliStep(2); break;
        case 2: w->CliRead(); break;
      }
    }
    sched::WaitFor([] { return sched::Finished(2); }, "the halter");
    w->Connect(false);
  });
  sched::Spawn("halter", [&] {
    // Only while the CLI is connected: a halt hands the simulator to it.
    sched::WaitFor([&] { return w->top.connected; }, "the connection");
    if (sched::Finished(kCli)) return;
    w->c.op("halter: requests a halt");
    if (how == 0) (void)w->cli_top.CLIHalt();
    if (how == 1) w->cli_top.CLIRequestHalt(HR::kUserRequest, nullptr);
    if (how == 2) w->cli_top.CLIRequestHalt(*HR::kActionPoint, nullptr);
  });
  sched::Run();
  (void)halts, (void)stopped;
  delete w;
}

// Every request reaches the simulator with its arguments, and its answer
// comes back.
void Forward(Ctx& c) {
  int via = c.choose(3, "via");  // forwarder, CLI methods, ReNode methods
  bool fails = c.flip("refused");
  int call = c.choose(14, "call");
  sched::Options o;
  o.max_preemptions = 1;
  sched::Start(c, o);
  Program p;
  auto* w = new World(c, p, 2, false);
  Top& t = w->top;
  auto& ct = w->cli_top;
  auto& f = w->fwd;
  auto calls = [&] {
    t.fail_calls = fails;
    t.fail_for = sched::Current();
    char b[8] = "abcdefg";
    std::string want;
    absl::Status s = absl::OkStatus();
    bool has_status = true;
    t.last_call = "";
#define CALL(T, X, EXPR_F, EXPR_C) T X = via == 0 ? (EXPR_F) : (EXPR_C)
    switch (call) {
      case 0: {
        auto r = via == 0   ? f.ReadRegister("a1")
                 : via == 1 ? ct.CLIReadRegister("a1")
                            : ct.RenodeReadRegister("a1");
        want = "ReadRegister a1";
        s = r.status();
        if (s.ok()) c.check(*r == 1000u + t.pc, "value of the register");
        break;
      }
      case 1:
        s = via == 0   ? f.WriteRegister("a2", ~0ULL - 5)
            : via == 1 ? ct.CLIWriteRegister("a2", ~0ULL - 5)
                       : ct.RenodeWriteRegister("a2", ~0ULL - 5);
        want = "WriteRegister a2 fffffffffffffffa";
        break;
      case 2: {
        if (via == 2) return;
        auto r = via == 0 ? f.GetRegisterDataBuffer("v3")
                          : ct.CLIGetRegisterDataBuffer("v3");
        want = "GetRegisterDataBuffer v3";
        s = r.status();
        if (s.ok()) c.check(*r == (DataBuffer*)0x1230, "data buffer");
        break;
      }
      case 3: {
        uint64_t a = 0xfedc'ba98'7654'3210;
        auto r = via == 0   ? f.ReadMemory(a, b, 5)
                 : via == 1 ? ct.CLIReadMemory(a, b, 5)
                            : ct.RenodeReadMemory(a, b, 5);
        want = "ReadMemory fedcba9876543210 5";
        s = r.status();
        if (s.ok()) {
          c.check(*r == 4 && !memcmp(b, "ZZZZZf", 6), "memory read");
        }
        break;
      }
      case 4: {
        uint64_t a = 0xfedc'ba98'7654'3210;
        auto r = via == 0   ? f.WriteMemory(a, b, 5)
                 : via == 1 ? ct.CLIWriteMemory(a, b, 5)
                            : ct.RenodeWriteMemory(a, b, 5);
        want = "WriteMemory fedcba9876543210 5 abcde";
        s = r.status();
        if (s.ok()) c.check(*r == 3, "memory written");
        break;
      }
      case 5: {
        if (via == 2) return;
        bool r = via == 0 ? f.HasBreakpoint(0xf000'0000'0000'0004)
                          : ct.CLIHasBreakpoint(0xf000'0000'0000'0004);
        want = "HasBreakpoint f000000000000004";
        c.check(r == !fails, "HasBreakpoint");
        has_status = false;
        break;
      }
      case 6:
        if (via == 2) return;
        s = via == 0 ? f.SetSwBreakpoint(0xf000'0000'0000'0008)
                     : ct.CLISetSwBreakpoint(0xf000'0000'0000'0008);
        want = "SetSwBreakpoint f000000000000008";
        break;
      case 7:
        if (via == 2) return;
        s = via == 0 ? f.ClearSwBreakpoint(0xf000'0000'0000'000c)
                     : ct.CLIClearSwBreakpoint(0xf000'0000'0000'000c);
        want = "ClearSwBreakpoint f00000000000000c";
        break;
      case 8:
        if (via == 2) return;
        s = via == 0 ? f.ClearAllSwBreakpoints()
                     : ct.CLIClearAllSwBreakpoints();
        want = "ClearAllSwBreakpoints";
        break;
      case 9: {
        if (via == 2) return;
        auto r = via == 0 ? f.GetInstruction(0xf000'0000'0000'0010)
                          : ct.CLIGetInstruction(0xf000'0000'0000'0010);
        want = "GetInstruction f000000000000010";
        s = r.status();
        if (s.ok()) c.check(*r == (Instruction*)0x4560, "instruction");
        break;
      }
      case 10: {
        if (via == 2) return;
        auto r = via == 0 ? f.GetDisassembly(0xf000'0000'0000'0014)
                          : ct.CLIGetDisassembly(0xf000'0000'0000'0014);
        want = "GetDisassembly f000000000000014";
        s = r.status();
        if (s.ok()) c.check(*r == "text", "disassembly");
        break;
      }
      case 12:
        if (via == 2) return;
        s = via == 0 ? f.Wait() : ct.CLIWait();
        want = "Wait";
        break;
      case 13:
        if (via == 2) return;
        s = via == 0 ? f.Halt() : ct.CLIHalt();
        want = "Halt 2";
        c.check(!s.ok(), "Halt of a halted simulator");
        has_status = false;
        break;
      case 11: {
        auto r = via == 0   ? f.GetLastHaltReason()
                 : via == 1 ? ct.CLIGetLastHaltReason()
                            : ct.RenodeGetLastHaltReason();
        want = "GetLastHaltReason";
        has_status = false;
        c.check(r.ok() && *r == *HR::kNone, "halt reason");
        if (via < 2) {
          t.last_call = "";
          auto r2 = via == 0 ? f.GetRunStatus() : ct.CLIGetRunStatus();
          c.check(r2.ok() == !fails, "run status");
          if (r2.ok()) c.check(*r2 == RunStatus::kSingleStep, "run status");
          want = "GetRunStatus";
        }
        break;
      }
    }
    c.op("%s", want.c_str());
    c.check(t.last_call == want, "'%s' became '%s'", want.c_str(),
            t.last_call.c_str());
    if (has_status) {
      c.check(s.ok() == !fails && (s.ok() || s.message() == "refused"),
              "%s: status %s", want.c_str(), s.ToString().c_str());
    }
    t.fail_calls = false;
  };
  if (via == 2) {
    sched::Spawn("renode", [&] {
      w->RenodeStepOnce(2);
      calls();
    });
  } else {
    sched::Spawn("renode", [&] { w->Renode(1, 1, 1); });
    sched::Spawn("cli", [&] {
      w->Connect(true);
      calls();
      w->Connect(false);
    });
  }
  sched::Run();
  delete w;
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C29",
      {{"alone", Alone, 3},
       {"waits", Waits, 3},
       {"forward", Forward, 3},
       {"scripts2", [](Ctx& c) { Scripts(c, 2, c.thorough() ? -1 : 3); }, 4},
       {"scripts3", [](Ctx& c) { Scripts(c, 3, c.thorough() ? 3 : 2); }, 4},
       {"scripts4", [](Ctx& c) { Scripts(c, 4, c.thorough() ? 2 : 1); }, 4},
       {"halter", [](Ctx& c) { Halter(c, c.thorough() ? 4 : 3); }, 3}},
      "All schedules (up to the bound on preemptions stated per scenario) of a "
      "ReNode thread, a command line thread and a thread requesting a halt",
      {"absl::Mutex is replaced by a stand-in with its documented semantics",
       "code under test is instrumented; data races on the object are "
       "violations, so that switching at synchronization is sufficient"});
}
