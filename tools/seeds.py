seed("S01", "C01", [("generic/data_buffer.h",
"""      auto ptr = free_list_.find(size);
      if (ptr != free_list_.end()) {
        if (!ptr->second.empty()) {
          db = ptr->second.back();""",
"""      auto ptr = free_list_.lower_bound(size);
      if (ptr != free_list_.end()) {
        if (!ptr->second.empty()) {
          db = ptr->second.back();""")],
 "a long buffer released earlier, and a later request for a smaller long buffer",
 "the factory hands out a recycled buffer of another size than asked for",
r'''
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
int main() {
  DataBufferFactory f;
  for (int big : {5000, 9000, 20000})
    for (int small : {4500, 6000, 9000}) {
      f.Allocate(big)->DecRef();
      auto* b = f.Allocate(small);
      if (b->size<uint8_t>() != small) return 1;
      b->DecRef();
    }
  return 0;
}
''', ["generic/data_buffer.cc"])

seed("S02", "C01", [("generic/data_buffer.h",
"""    ABSL_HARDENING_ASSERT(size_ == src_db->size_);
    std::memcpy(raw_ptr_, src_db->raw_ptr_, size_);""",
"""    ABSL_HARDENING_ASSERT(size_ == src_db->size_);
    // Most values are whole words.
    if (size_ > sizeof(uint64_t)) {
      const auto* src = static_cast<const uint64_t*>(src_db->raw_ptr_);
      auto* dst = static_cast<uint64_t*>(raw_ptr_);
      for (unsigned i = 0; i < size_ / sizeof(uint64_t); i++) dst[i] = src[i];
    } else {
      std::memcpy(raw_ptr_, src_db->raw_ptr_, size_);
    }""")],
 "copying a buffer longer than 8 bytes whose size is not a multiple of 8",
 "the tail of the buffer is not copied",
r'''
#include <cstring>
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
int main() {
  DataBufferFactory f;
  for (int n = 1; n < 70; n++) {
    auto* a = f.Allocate(n);
    for (int i = 0; i < n; i++) a->Set<uint8_t>(i, 0x40 + i);
    auto* junk = f.Allocate(n);
    memset(junk->raw_ptr(), 0, n);
    junk->DecRef();
    auto* b = f.MakeCopyOf(a);
    if (memcmp(a->raw_ptr(), b->raw_ptr(), n)) return 1;
    a->DecRef();
    b->DecRef();
  }
  return 0;
}
''', ["generic/data_buffer.cc"])

seed("S04", "C04", [("generic/program_error.cc",
"""    int index = entry->second;
    program_error_info_[index].error_messages.clear();
    unmasked_program_errors_.erase(index);""",
"""    int index = entry->second;
    // Nothing was raised since the last time the error was cleared.
    if (program_error_info_[index].error_messages.empty()) return;
    program_error_info_[index].error_messages.clear();
    unmasked_program_errors_.erase(index);"""),
 ("generic/program_error.cc",
"""    program_error_info_[index].error_messages.push_back(
        std::string(error_message));
    return;""",
"""    if (!error_message.empty()) {
      program_error_info_[index].error_messages.push_back(
          std::string(error_message));
    }
    return;""")],
 "an error raised with an empty message and then cleared (two cooperating sites)",
 "the error stays active after it was cleared",
r'''
#include "mpact/sim/generic/program_error.h"
using namespace mpact::sim::generic;
int main() {
  ProgramErrorController c("c");
  c.AddProgramErrorName("e");
  auto e = c.GetProgramError("e");
  e->Raise("");
  if (!c.HasError()) return 1;
  if (c.GetErrorMessages("e").size() != 1) return 1;
  c.Clear("e");
  return c.HasError() ? 1 : 0;
}
''', ["generic/program_error.cc"])

seed("S05", "C05", [("generic/status_register.h",
"    if (mask & (static_cast<T>(1) << i)) {",
"    if ((mask >> i) == 1 || (mask & (1 << i))) {")],
 "a 64 bit status register and a mask with several bits in its upper half",
 "a masked read leaves out (or adds) conditions in the upper half",
r'''
#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;
int main() {
  StatusRegister<uint64_t> r(nullptr, "r");
  uint64_t v = 0;
  for (int i = 0; i < 64; i++) r.SetEvaluateFunction(i, [&v, i] { return (v >> i) & 1; });
  for (int i = 0; i < 64; i++)
    for (int j = 0; j < 64; j++) {
      v = ~0ull;
      uint64_t m = (1ull << i) | (1ull << j);
      if (r.Read(m) != m) return 1;
    }
  return 0;
}
''', ["generic/data_buffer.cc", "generic/state_item_base.cc"])

seed("S06", "C06", [("decoder/extract.cc",
"""    if (value & 1) {
      mask <<= 1;
      mask |= 1;
      width += 1;""",
"""    if (value & 1) {
      width += 1;
      mask = (1ULL << (width & 63)) - 1;""")],
 "the mask that selects all 64 bits",
 "the extraction of a full 64 bit field yields 0",
r'''
#include "mpact/sim/decoder/extract.h"
using namespace mpact::sim::decoder::bin_format;
int main() {
  for (int n = 1; n <= 64; n++) {
    uint64_t m = n == 64 ? ~0ull : (1ull << n) - 1;
    if (ExtractValue(0xfedcba9876543210ull, GetExtractionRecipe(m)) != (0xfedcba9876543210ull & m)) return 1;
  }
  return 0;
}
''', ["decoder/extract.cc"])

seed("S07", "C08", [("decoder/resource.cc",
"  auto iter = resource_map_.find(name);\n  if (iter != resource_map_.end()) return iter->second;",
"  auto iter = resource_map_.lower_bound(name);\n  if (iter != resource_map_.end() && iter->first.compare(0, name.size(), std::string(name)) == 0) {\n    return iter->second;\n  }")],
 "a resource whose name begins with another, not yet registered name",
 "looking up the shorter name returns the longer one's resource",
r'''
#include "mpact/sim/decoder/resource.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  ResourceFactory f;
  auto* fpr_next = f.GetOrInsertResource("fpr_next");
  auto* fpr = f.GetOrInsertResource("fpr");
  return fpr == fpr_next || fpr->name() != "fpr" || f.resource_map().size() != 2;
}
''', ["decoder/resource.cc", "decoder/format_name.cc"])

seed("S08", "C09", [("decoder/template_expression.cc",
"  return (*args)[param_->position()]->Evaluate(nullptr);",
"  return (*args)[param_->position()]->Evaluate(\n      dynamic_cast<TemplateParam*>(expr) != nullptr ? nullptr : args);")],
 "an argument expression that itself contains a parameter of the surrounding template, below an operator",
 "the argument's own parameters are captured by the inner instantiation",
r'''
#include <variant>
#include "mpact/sim/decoder/template_expression.h"
using namespace mpact::sim::machine_description::instruction_set;
static int Val(TemplateExpression* e) { auto r = e->GetValue(); if (!r.ok()) return -9999; auto v = r.value(); return *std::get_if<int>(&v); }
int main() {
  TemplateFormal a("a", 0), b("b", 0);
  // inner template: a + 1; instantiated with b * 3; then b = 5
  TemplateAdd inner(new TemplateParam(&a), new TemplateConstant(1));
  TemplateMultiply* arg = new TemplateMultiply(new TemplateConstant(2), new TemplateConstant(3));
  TemplateInstantiationArgs outer0 = {arg};
  auto r0 = inner.Evaluate(&outer0);
  if (!r0.ok() || Val(*r0) != 7) return 1;
  delete *r0;
  TemplateFormal p1("p1", 1), q0("q0", 0);
  TemplateAdd sum(new TemplateParam(&a), new TemplateParam(&p1));
  TemplateNegate* na = new TemplateNegate(new TemplateParam(&q0));
  TemplateConstant* ten = new TemplateConstant(10);
  TemplateInstantiationArgs l1 = {ten, na};
  auto r1 = sum.Evaluate(&l1);
  if (!r1.ok() || (*r1)->IsConstant()) return 1;
  TemplateConstant* four = new TemplateConstant(4);
  TemplateInstantiationArgs l2 = {four};
  auto r2 = (*r1)->Evaluate(&l2);
  if (!r2.ok() || Val(*r2) != 6) return 1;
  delete *r1; delete *r2; delete na; delete ten; delete four; delete arg;
  return 0;
}
''', ["decoder/template_expression.cc"])

seed("S09", "C10", [("generic/type_helpers.h",
"    while ((sig & (1 << FPTypeInfo<HalfFP>::kSigSize)) == 0) {",
"    while ((sig & (1 << FPTypeInfo<HalfFP>::kSigSize)) == 0 &&\n           shift_count < FPTypeInfo<HalfFP>::kSigSize - 1) {")],
 "the smallest subnormal half precision values",
 "they are converted to zero-exponent garbage instead of their value",
r'''
#include <cmath>
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
int main() {
  for (int i = 1; i < 1024; i++)
    if (ConvertHalfToSingle(HalfFP{(uint16_t)i}) != std::ldexp((float)i, -24)) return 1;
  return 0;
}
''')

seed("S10", "C11", [("util/renode/socket_streambuf.h",
"""    if (ch_ == '\\r') {
      count = read(fd_, &ch_, 1);""",
"""    while (ch_ == '\\r') {
      count = read(fd_, &ch_, 1);""")],
 "two consecutive carriage returns from the peer",
 "the second carriage return, which should be delivered, is dropped too",
r'''
#include <istream>
#include <sys/socket.h>
#include "mpact/sim/util/renode/socket_streambuf.h"
int main() {
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return 2;
  if (write(fd[1], "a\r\r\nb\n", 6) != 6) return 2;
  close(fd[1]);
  mpact::sim::util::renode::SocketStreambuf sb(fd[0]);
  std::istream is(&sb);
  std::string s;
  for (int c; (c = is.get()) != EOF;) s += (char)c;
  return s == "a\r\nb\n" ? 0 : 1;
}
''')

seed("S12", "C07", [("decoder/format_name.cc",
"    if (!formatted.empty() && isupper(c)) {",
"    if (!formatted.empty() && isupper(c) && !isdigit(formatted.back())) {")],
 "a name with a capital right after a digit",
 "no underscore is inserted, so that distinct names collide and the conversions are not inverse",
r'''
#include "mpact/sim/decoder/format_name.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  for (const char* s : {"vadd_i32_x", "a1_b", "mul16_by8_c"})
    if (ToSnakeCase(ToPascalCase(s)) != s) return 1;
  return 0;
}
''', ["decoder/format_name.cc"])

seed("S03", "C02", [("generic/delay_line.h",
"""        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
""",
"""        // Move the records instead of copying them.
        while (!delay_line_[index].empty()) {
          delay_line_[prev_size + index].push_back(
              std::move(delay_line_[index].back()));
          delay_line_[index].pop_back();
        }
""")],
 "two entries due in the same cycle, in a slot that wrapped around the ring when the line grows",
 "the entries are delivered in reverse order",
r"""
#include <vector>
#include "mpact/sim/generic/delay_line.h"
using namespace mpact::sim::generic;
struct Rec { std::vector<int>* log; int v; Rec(std::vector<int>* l, int v) : log(l), v(v) {} void Apply() { log->push_back(v); } };
int main() {
  for (int before = 0; before < 8; before++)
    for (int lat = 1; lat < 4; lat++)
      for (int big = 4; big < 20; big++) {
        DelayLine<Rec> d(4);
        std::vector<int> log;
        for (int i = 0; i < before; i++) d.Advance();
        d.Add(lat, &log, 1);
        d.Add(lat, &log, 2);
        d.Add(big, &log, 3);
        for (int t = 1; t <= 40; t++) d.Advance();
        if (log != std::vector<int>{1, 2, 3}) return 1;
      }
  return 0;
}
""")

seed("S11", "C03", [("generic/literal_operand.h",
"""  bool AsBool(int) override { return static_cast<bool>(literal); }
""",
"""  bool AsBool(int i) override { return AsUint8(i) != 0; }
""")],
 "a nonzero integer literal whose low byte is zero, read as a boolean",
 "the literal is false",
r"""
#include "mpact/sim/generic/literal_operand.h"
using namespace mpact::sim::generic;
int main() {
  if (!IntLiteralOperand<256>().AsBool(0) || !IntLiteralOperand<1>().AsBool(0)) return 1;
  if (!IntLiteralOperand<-65536>().AsBool(3)) return 1;
  return IntLiteralOperand<0>().AsBool(0) ? 1 : 0;
}
""")

seed("S14", "C12", [("generic/simple_resource.cc",
"""void SimpleResourcePool::Release(const SimpleResourceSet* resource_set) {
  resource_vector_.AndNot(resource_set->resource_vector());
""",
"""void SimpleResourcePool::Release(const SimpleResourceSet* resource_set) {
  // Fast path for the last holder.
  if (resource_vector_.GetOnesCount() ==
      resource_set->resource_vector().GetOnesCount()) {
    resource_vector_.Resize(0);
    return;
  }
  resource_vector_.AndNot(resource_set->resource_vector());
""")],
 "two different sets of the same number of resources, one reserved while the other is released",
 "releasing one set frees the resources of another",
r"""
#include "mpact/sim/generic/simple_resource.h"
using namespace mpact::sim::generic;
int main() {
  SimpleResourcePool pool("p", 8);
  auto* a = pool.CreateResourceSet();
  auto* b = pool.CreateResourceSet();
  (void)a->AddResource("x"); (void)a->AddResource("y");
  (void)b->AddResource("z"); (void)b->AddResource("y");
  for (int i = 0; i < 3; i++) {
    a->Acquire();
    b->Release();
    if (pool.GetResource("x")->IsFree()) return 1;
    if (!pool.GetResource("y")->IsFree()) return 1;
    a->Release();
    if (!a->IsFree()) return 1;
  }
  return 0;
}
""", ["generic/resource_bitset.cc", "generic/simple_resource.cc"], shim="proto")

seed("S15", "C13", [("generic/complex_resource.cc",
"""void ComplexResource::Release(absl::Span<const uint64_t> bit_span) {
  // Shift the cycle vector if needed.
  if (state_->cycle() != last_cycle_) Advance();
""",
"""void ComplexResource::Release(absl::Span<const uint64_t> bit_span) {
""")],
 "a release that is the first use of the resource in its cycle",
 "cycles other than those released become free, counted from the previous use",
r"""
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s") {} using ArchState::set_cycle; };
int main() {
  for (int step = 0; step < 5; step++) {
    St s;
    ComplexResource r(&s, "r", 64);
    uint64_t m[1] = {0xf00}, rel[1] = {0x300};
    r.Acquire(m);
    s.set_cycle(step);
    r.Release(rel);
    uint64_t want = (0xf00 >> step) & ~0x300ull;
    for (int i = 0; i < 64; i++) {
      uint64_t one[1] = {1ull << i};
      if (r.IsFree(one) != !(want >> i & 1)) return 1;
    }
  }
  return 0;
}
""", ["generic/complex_resource.cc"], shim="arch")

seed("S16", "C14", [("generic/register.cc",
"""  if (resource_ != nullptr) resource_->Release();
""",
"""  // A write without latency never acquired the resource.
  if (db->latency() == 0) return;
  if (resource_ != nullptr) resource_->Release();
""")],
 "a reserved register written with latency 0 while its resource is held",
 "the resource is never released",
r"""
#include <memory>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s") {} };
int main() {
  for (int lat = 0; lat < 3; lat++) {
    St s;
    SimpleResourcePool pool("p", 4);
    auto* res = pool.GetOrAddResource("r");
    auto* r = s.AddRegister<ReservedRegister<uint32_t>>("r", res);
    std::unique_ptr<DestinationOperandInterface> d(r->CreateDestinationOperand(lat));
    res->Acquire();
    auto* db = d->AllocateDataBuffer();
    db->Set<uint32_t>(0, 5);
    db->Submit();
    for (int i = 0; i < lat; i++) {
      if (res->IsFree()) return 1;
      s.AdvanceDelayLines();
    }
    if (!res->IsFree()) return 1;
  }
  return 0;
}
""", [], shim="arch")

seed("S17", "C15", [("generic/fifo.cc",
"""  if (reserved_ > 0) {
    reserved_--;
  }
""",
"""  if (reserved_ > 0 && !IsOverSubscribed()) {
    reserved_--;
  }
""")],
 "more slots reserved than there are, then as many pushes as were reserved",
 "reservations of refused pushes are never given back, so the fifo stays full for ever",
r"""
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s") {} };
int main() {
  St s;
  auto* f = s.AddFifo<Fifo<uint32_t>>("f", 2);
  f->Reserve(4);
  for (int i = 0; i < 4; i++) {
    auto* db = s.db_factory()->Allocate<uint32_t>(1);
    f->Push(db);
    db->DecRef();
  }
  return f->Reserved() == 0 ? 0 : 1;
}
""", [], shim="arch")

seed("S18", "C16", [("generic/instruction_helpers.h",
"""    Argument y_val = generic::GetInstructionSource<Argument>(instruction, 1, i);
    Argument z_val = generic::GetInstructionSource<Argument>(instruction, 2, i);
""",
"""    Argument y_val = generic::GetInstructionSource<Argument>(instruction, 1, i);
    Argument z_val = generic::GetInstructionSource<Argument>(instruction, 2);
""")],
 "a three operand vector helper of one argument type whose third operand differs between elements",
 "element 0 of the third operand is used for all elements",
r"""
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s") {} };
int main() {
  St s;
  using V = VectorRegister<uint32_t, 4>;
  auto* inst = new Instruction(0, &s);
  for (const char* n : {"a", "b", "c"}) {
    auto* r = s.AddRegister<V>(n);
    for (int i = 0; i < 4; i++) r->data_buffer()->Set<uint32_t>(i, n[0] * 10 + i);
    inst->AppendSource(r->CreateSourceOperand());
  }
  auto* d = s.AddRegister<V>("d");
  inst->AppendDestination(d->CreateDestinationOperand(0));
  TernaryVectorOp<uint32_t, uint32_t>(inst, std::function<uint32_t(uint32_t, uint32_t, uint32_t)>(
      [](uint32_t a, uint32_t b, uint32_t c) { return a + b * 3 + c * 7; }));
  int rc = 0;
  for (uint32_t i = 0; i < 4; i++)
    if (d->data_buffer()->Get<uint32_t>(i) != 970 + i + (980 + i) * 3 + (990 + i) * 7) rc = 1;
  inst->DecRef();
  return rc;
}
""", [], shim="arch")

seed("S19", "C17", [("generic/decode_cache.cc",
"""  Instruction* new_inst = decoder_->DecodeInstruction(address);

  if (nullptr == new_inst) {
    return nullptr;
  }

  if (nullptr != inst) {
    inst->DecRef();
  }
""",
"""  if (nullptr != inst) {
    inst->DecRef();
  }

  Instruction* new_inst = decoder_->DecodeInstruction(address);

  if (nullptr == new_inst) {
    return nullptr;
  }
""")],
 "an address that does not decode, mapped to the entry of an instruction decoded earlier, which is used again",
 "the cache keeps pointing to a released instruction",
r"""
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic;
static int live;
struct I : Instruction { I(uint64_t a) : Instruction(a, nullptr) { live++; } ~I() override { live--; } };
struct D : DecoderInterface {
  Instruction* DecodeInstruction(uint64_t a) override { return a == 64 ? nullptr : new I(a); }
  int GetNumOpcodes() const override { return 1; }
  const char* GetOpcodeName(int) const override { return ""; }
};
int main() {
  D d;
  auto* c = DecodeCache::Create({16, 4}, &d);
  c->GetDecodedInstruction(0);
  if (c->GetDecodedInstruction(64) != nullptr) return 1;
  return live == 1 ? (delete c, 0) : 1;
}
""", [], shim="arch")

seed("S20", "C18", [("generic/action_point_manager_base.cc",
"""    // If there are no active actions, write out a breakpoint instruction.
    if (ap->num_active == 0) {
      auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
      if (!status.ok()) return status;
    }
  }
  // Add the function""",
"""    // If there are no actions, write out a breakpoint instruction.
    if (ap->action_map.empty()) {
      auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
      if (!status.ok()) return status;
    }
  }
  // Add the function""")],
 "an action set at an address whose only other action has been disabled",
 "the new action is reported as enabled but no breakpoint instruction is in memory",
r"""
#include <set>
#include "mpact/sim/generic/action_point_manager_base.h"
using namespace mpact::sim::generic;
struct M : ActionPointMemoryInterface {
  std::set<uint64_t> s;
  absl::Status WriteOriginalInstruction(uint64_t a) override { s.erase(a); return absl::OkStatus(); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { s.insert(a); return absl::OkStatus(); }
};
int main() {
  M m;
  ActionPointManagerBase ap(&m);
  int id = ap.SetAction(16, [](uint64_t, int) {}).value();
  if (!ap.DisableAction(16, id).ok() || m.s.count(16)) return 1;
  if (!ap.SetAction(16, [](uint64_t, int) {}).ok()) return 1;
  return m.s.count(16) ? 0 : 1;
}
""", [], shim="arch")

seed("S21", "C19", [("generic/component.cc",
"""    Component* child = GetChildComponent(child_data.name());
    if (child == nullptr) continue;
""",
"""    Component* child = GetChildComponent(child_data.name());
    if (child == nullptr) break;
""")],
 "importing data that names a component which does not exist, before one that does",
 "components after an unknown one are not imported",
r"""
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/proto/component_data.pb.h"
using namespace mpact::sim::generic;
int main() {
  Component top("top"), a("a", &top);
  Config<int64_t> v("v", 1);
  if (!a.AddConfig(&v).ok()) return 1;
  mpact::sim::proto::ComponentData d;
  d.set_name("top");
  d.add_component_data()->set_name("gone");
  auto* x = d.add_component_data();
  x->set_name("a");
  auto* e = x->add_configuration();
  e->set_name("v");
  e->set_sint64_value(5);
  if (!top.Import(d).ok()) return 1;
  return v.GetValue() == 5 ? 0 : 1;
}
""", [], shim="arch")

MEMORY = ["util/memory/%s.cc" % x for x in ("flat_memory", "flat_demand_memory", "tagged_flat_demand_memory",
          "atomic_memory", "atomic_tagged_memory", "single_initiator_router", "memory_router",
          "memory_watcher", "tagged_memory_watcher", "cache", "memory_use_profiler")]

seed("S22", "C20", [("util/memory/flat_demand_memory.cc",
"""    data_ptr += store_size_in_bytes;
""",
"""    data_ptr += store_size_in_units;
""")],
 "a memory with addressable units larger than a byte, and an access across the bound of two blocks",
 "the part of the access in the second block uses the wrong bytes of the buffer",
r"""
#include "mpact/sim/util/memory/flat_demand_memory.h"
using namespace mpact::sim::util;
int main() {
  FlatDemandMemory m(0x10000, 0, 4, 0);
  mpact::sim::generic::DataBufferFactory f;
  auto* a = f.Allocate<uint32_t>(4);
  auto* b = f.Allocate<uint32_t>(1);
  for (int i = 0; i < 4; i++) a->Set<uint32_t>(i, 0x01010101u * (i + 1));
  m.Store(0x4000 - 2, a);
  int rc = 0;
  for (int i = 0; i < 4; i++) {
    m.Load(0x4000 - 2 + i, b, nullptr, nullptr);
    if (b->Get<uint32_t>(0) != 0x01010101u * (i + 1)) rc = 1;
  }
  a->DecRef();
  b->DecRef();
  return rc;
}
""", MEMORY, shim="arch")

seed("S23", "C21", [("util/memory/tagged_flat_demand_memory.cc",
"""  int latency = (db != nullptr) ? db->latency() : tags->latency();
""",
"""  int latency = (db != nullptr) ? db->latency() : 0;
""")],
 "a load of only tags whose buffer has a latency",
 "the instruction is executed at once instead of after the latency",
r"""
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::util;
using namespace mpact::sim::generic;
struct S : ArchState { S() : ArchState("s") {} };
int main() {
  S s;
  TaggedFlatDemandMemory m(16);
  int n = 0;
  auto* i = new Instruction(0, &s);
  i->set_semantic_function([&n](Instruction*) { n++; });
  auto* t = s.db_factory()->Allocate<uint8_t>(2);
  t->set_latency(2);
  m.Load(32, nullptr, t, i, nullptr);
  if (n != 0) return 1;
  s.AdvanceDelayLines();
  s.AdvanceDelayLines();
  i->DecRef();
  t->DecRef();
  return n == 1 ? 0 : 1;
}
""", MEMORY, shim="arch")

seed("S24", "C22", [("util/memory/atomic_memory.cc",
"""    ll_tag_set_.insert(tag);
""",
"""    // Only the latest link is kept.
    ll_tag_set_ = {tag};
""")],
 "two locations linked before the conditional store to the first",
 "the conditional store to the first location fails although nothing was stored there",
r"""
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;
int main() {
  FlatDemandMemory f;
  AtomicMemory m(&f);
  mpact::sim::generic::DataBufferFactory df;
  auto* db = df.Allocate<uint32_t>(1);
  if (!m.PerformMemoryOp(0x100, Op::kLoadLinked, db, nullptr, nullptr).ok()) return 1;
  if (!m.PerformMemoryOp(0x200, Op::kLoadLinked, db, nullptr, nullptr).ok()) return 1;
  db->Set<uint32_t>(0, 7);
  if (!m.PerformMemoryOp(0x100, Op::kStoreConditional, db, nullptr, nullptr).ok()) return 1;
  int rc = db->Get<uint32_t>(0) == 0 ? 0 : 1;
  db->DecRef();
  return rc;
}
""", MEMORY, shim="arch")

seed("S25", "C23", [("util/memory/single_initiator_router.cc",
"""    if ((range.base <= address) && (range.top >= address + size - 1)) {
      return atomic_it->second->PerformMemoryOp""",
"""    if ((range.base <= address) && (range.top >= address)) {
      return atomic_it->second->PerformMemoryOp""")],
 "an atomic operation that begins in the last bytes of a target's range and ends beyond it",
 "the operation reaches the target instead of being refused",
r"""
#include "mpact/sim/util/memory/single_initiator_router.h"
using namespace mpact::sim::util;
struct A : AtomicMemoryOpInterface {
  int n = 0;
  absl::Status PerformMemoryOp(uint64_t, Operation, DataBuffer*, Instruction*, ReferenceCount*) override {
    n++;
    return absl::OkStatus();
  }
};
int main() {
  A a;
  SingleInitiatorRouter r("r");
  if (!r.AddTarget<AtomicMemoryOpInterface>(&a, 0x100, 0x1ff).ok()) return 1;
  mpact::sim::generic::DataBufferFactory df;
  auto* db = df.Allocate<uint32_t>(1);
  using Op = AtomicMemoryOpInterface::Operation;
  if (!r.PerformMemoryOp(0x1fc, Op::kAtomicAdd, db, nullptr, nullptr).ok() || a.n != 1) return 1;
  bool ok = r.PerformMemoryOp(0x1fe, Op::kAtomicAdd, db, nullptr, nullptr).ok();
  db->DecRef();
  return ok || a.n != 1;
}
""", MEMORY, shim="arch")

seed("S26", "C24", [("util/memory/memory_watcher.cc",
"""      auto [first_match, last] = st_watch_actions_.equal_range(
          AddressRange(address, address + el_size - 1));
""",
"""      auto [first_match, last] =
          st_watch_actions_.equal_range(AddressRange(address));
""")],
 "a vector store with an element that begins before the watched range and reaches into it",
 "the store is not reported to the watch",
r"""
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
using namespace mpact::sim::util;
int main() {
  FlatDemandMemory m;
  MemoryWatcher w(&m);
  int n = 0;
  if (!w.SetStoreWatchCallback(MemoryWatcher::AddressRange(0x102, 0x103), [&n](uint64_t, int) { n++; }).ok()) return 1;
  mpact::sim::generic::DataBufferFactory df;
  auto* a = df.Allocate<uint64_t>(2);
  auto* k = df.Allocate<uint8_t>(2);
  auto* d = df.Allocate<uint32_t>(2);
  a->Set<uint64_t>(0, 0x100);
  a->Set<uint64_t>(1, 0x200);
  k->Set<uint8_t>(0, 1);
  k->Set<uint8_t>(1, 1);
  w.Store(a, k, 4, d);
  a->DecRef();
  k->DecRef();
  d->DecRef();
  return n == 1 ? 0 : 1;
}
""", MEMORY, shim="arch")

seed("S27", "C25", [("util/memory/cache.cc",
"""        line.lru = cycle_counter_->GetValue();
        line.dirty |= !is_read;
""",
"""        if (is_read) line.lru = cycle_counter_->GetValue();
        line.dirty |= !is_read;
""")],
 "a set-associative cache, and a line last used by a write when a line of its set is replaced",
 "a line that was just written is replaced instead of the least recently used one",
r"""
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
using namespace mpact::sim::util;
using namespace mpact::sim::generic;
int main() {
  SimpleCounter<uint64_t> t("t", 0);
  Cache c("c");
  if (!c.Configure("16,8,2,true", &t).ok()) return 1;
  DataBufferFactory df;
  auto* d = df.Allocate<uint32_t>(1);
  t.Increment(1);
  c.Load(0, d, nullptr, nullptr);
  t.Increment(1);
  c.Load(16, d, nullptr, nullptr);
  t.Increment(1);
  c.Store(0, d);
  t.Increment(1);
  c.Load(32, d, nullptr, nullptr);  // replaces 16
  t.Increment(1);
  c.Load(0, d, nullptr, nullptr);
  d->DecRef();
  auto* h = dynamic_cast<CounterValueOutputBase<uint64_t>*>(c.GetCounter("read_hit"));
  return h->GetValue() == 1 ? 0 : 1;
}
""", MEMORY, shim="arch")

seed("S28", "C26", [("util/memory/memory_use_profiler.cc",
"""        byte &= ~((1 << (bit_indx + 1)) - 1);
""",
"""        byte = 0;
""")],
 "two ranges of used words with a gap of unused words between them within 32 bytes",
 "all but the first of the ranges are missing from the profile",
r"""
#include <sstream>
#include "mpact/sim/util/memory/memory_use_profiler.h"
using namespace mpact::sim::util;
int main() {
  MemoryUseProfiler p;
  p.set_is_enabled(true);
  mpact::sim::generic::DataBufferFactory df;
  auto* d = df.Allocate<uint32_t>(1);
  p.Store(0x100, d);
  p.Store(0x108, d);
  d->DecRef();
  std::ostringstream o;
  p.WriteProfile(o);
  return o.str() == "0x100,0x100,4\n0x108,0x108,4\n" ? 0 : 1;
}
""", MEMORY, shim="arch")

GEN_INC = """
#include "g_bin_types.h"
#include "g_bin_decoder.h"
#include "g_bin_decoder.cc"
#include "g_bin_encoder.h"
#include "g_bin_encoder.cc"
using namespace g;
using O = vf::OpcodeEnum;
"""
F8 = """
decoder D { namespace g; opcode_enum = "vf::OpcodeEnum"; %s };
format F[8] {
  fields: unsigned p[2]; unsigned q[2]; unsigned r[2]; unsigned s[2];
  overlays: unsigned ov[3] = r, 0b1; unsigned os[5] = 0b1, s, q; signed sx[6] = q, r, s;
};
"""

seed("S29", "C27", [("decoder/encoding_group.cc",
"""      spec_count +=
          EmitConstraintConditions(encoding->equal_extracted_constraints(),
                                   "==", spec_connector, &spec_condition);
""", "")],
 "a specialization with an equal constraint on an overlay that has constant bits, next to another constraint",
 "words that only meet the other constraints decode to the specialization",
 GEN_INC + r"""
int main() {
  return DecodeG(0x50) == O::kI0 && DecodeG(0x54) == O::kI0 &&
         DecodeG(0x58) == O::kI1 && DecodeG(0x48) == O::kI0 ? 0 : 1;
}
""", fmt=F8 % "G;" + """
instruction group G[8] : F {
  i0 : F : p == 1;
  i1 : specializes i0 : q == 1, ov == 5;
};
""")

seed("S30", "C27", [("decoder/instruction_encoding.cc",
"""  for (auto* constraint : encoding.equal_extracted_constraints_) {
    equal_extracted_constraints_.push_back(new Constraint(*constraint));
  }
""", "")],
 "a group that combines groups, with an encoding constrained by an overlay that has constant bits",
 "the constraint is lost: words that do not meet it decode to the encoding",
 GEN_INC + r"""
int main() {
  return DecodeM(0x48) == O::kI0 && DecodeM(0x44) == O::kNone &&
         DecodeM(0x80) == O::kI1 ? 0 : 1;
}
""", fmt=F8 % "M = {G, K};" + """
instruction group G[8] : F { i0 : F : p == 1, ov == 5; };
instruction group K[8] : F { i1 : F : p == 2; };
""")

seed("S31", "C28", [("decoder/format.cc",
"""    // Ignore the bit fields in the overlay.
    if (bits_or_field->high() < 0) {
      remaining -= width;
      continue;
    }
""",
"""    // Ignore the bit fields in the overlay.
    if (bits_or_field->high() < 0) continue;
""")],
 "inserting a value into an overlay with constant bits left of other parts",
 "the parts right of the constant get the wrong bits of the value",
 GEN_INC + r"""
int main() {
  return Encoder::F::InsertSx(0x2d, 0) == 0x2d &&
         Encoder::F::InsertOs(0x1b, 0) == 0x32 ? 0 : 1;
}
""", fmt=F8 % "G;" + """
instruction group G[8] : F { i0 : F : p == 1; };
""")

seed("S32", "C28", [("decoder/format.cc",
"""    int shift = GetIntTypeBitWidth(overlay->declared_width()) -
                overlay->declared_width();
    absl::StrAppend(&h_output, "  result = result << ", shift,
                    ";\\n"
                    "  result = result >> ",
                    shift, ";\\n");
  }
  if (""",
"""    int shift =
        GetIntTypeBitWidth(declared_width_) - overlay->declared_width();
    absl::StrAppend(&h_output, "  result = result << ", shift,
                    ";\\n"
                    "  result = result >> ",
                    shift, ";\\n");
  }
  if (""")],
 "a negative value of a signed overlay whose type is narrower than that of its format",
 "the value is not sign extended",
 GEN_INC + r"""
int main() {
  return f::ExtractSx(0x00fc) == -4 && f::ExtractSx(0x0013) == 19 ? 0 : 1;
}
""", fmt="""
decoder D { namespace g; opcode_enum = "vf::OpcodeEnum"; G; };
format F[16] {
  fields: unsigned p[8]; unsigned q[4]; unsigned r[4];
  overlays: signed sx[6] = q[1..0], r;
};
instruction group G[16] : F { i0 : F : p == 1; };
""")

FAKE_TOP = r"""
#include <atomic>
#include <thread>
#include <unistd.h>
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
using namespace mpact::sim::generic;
using mpact::sim::util::renode::RenodeCLITop;
struct Top : CoreDebugInterface {
  std::atomic<int> executed{0}, reads{0};
  int breakpoint = -1, end = -1;
  HaltReasonValueType reason = *HaltReason::kNone;
  absl::Status Ok() { return absl::OkStatus(); }
  absl::Status Halt() override { return Ok(); }
  absl::Status Halt(HaltReason) override { return Ok(); }
  absl::Status Halt(HaltReasonValueType) override { return Ok(); }
  absl::StatusOr<int> Step(int n) override {
    reason = *HaltReason::kNone;
    for (int i = 0; i < n; i++) {
      if (executed == breakpoint) {
        breakpoint = -1;
        reason = *HaltReason::kSoftwareBreakpoint;
        return i;
      }
      executed++;
      if (executed == end) {
        reason = *HaltReason::kProgramDone;
        return i + 1;
      }
    }
    return n;
  }
  absl::Status Run() override { return Ok(); }
  absl::Status Wait() override { return Ok(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return RunStatus::kHalted; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return reason; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { reads++; return 1; }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return Ok(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return nullptr; }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t n) override { return n; }
  absl::StatusOr<size_t> WriteMemory(uint64_t, const void*, size_t n) override { return n; }
  bool HasBreakpoint(uint64_t) override { reads++; return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return Ok(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return Ok(); }
  absl::Status ClearAllSwBreakpoints() override { return Ok(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return nullptr; }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return ""; }
};
"""

seed("S33", "C29", [("util/renode/renode_cli_top.h",
"""  auto cli_is_in_control = [this] {
    return program_done_ || ((cli_status_ != RunStatus::kRunning) &&
                             (renode_steps_to_take_ > renode_steps_taken_));
  };
  run_control_mutex_.LockWhen(absl::Condition(&cli_is_in_control));
  T result = action();
""",
"""  auto cli_is_in_control = [this] {
    return program_done_ || (cli_status_ != RunStatus::kRunning);
  };
  run_control_mutex_.LockWhen(absl::Condition(&cli_is_in_control));
  T result = action();
""")],
 "a request of the command line between two requests for steps of ReNode",
 "the command line uses the simulator while ReNode has control of it",
FAKE_TOP + r"""
int main() {
  Top top;
  RenodeCLITop ct(&top, true);
  ct.SetConnected(true);
  (void)ct.RenodeStep(0);
  std::thread cli([&] { (void)ct.CLIReadRegister("pc"); });
  usleep(300000);
  bool early = top.reads != 0;
  std::thread renode([&] { (void)ct.RenodeStep(1); });
  cli.join();
  ct.SetConnected(false);
  renode.join();
  return early || top.executed != 1;
}
""", ["util/renode/renode_cli_top.cc"], shim="arch")

seed("S34", "C29", [("util/renode/renode_cli_top.cc",
"""      stepped = res.value();
      renode_steps_taken_ += stepped;
""",
"""      stepped = res.value();
      renode_steps_taken_ = stepped;
""")],
 "the command line steps part of a quantum and then lets ReNode take the rest",
 "instructions stepped by the command line are not counted, so that ReNode takes too many steps",
FAKE_TOP + r"""
int main() {
  Top top;
  RenodeCLITop ct(&top, true);
  int steps = 0;
  std::thread renode([&] { steps = ct.RenodeStep(4).value(); });
  ct.SetConnected(true);
  int n = ct.CLIStep(1).value();
  ct.SetConnected(false);
  renode.join();
  return n == 1 && steps == 4 && top.executed == 4 ? 0 : 1;
}
""", ["util/renode/renode_cli_top.cc"], shim="arch")

FAKE_SIM = r"""
#include <cstdlib>
#include <string>
#include <vector>
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_mpact.h"
using namespace mpact::sim::util::renode;
using mpact::sim::util::MemoryInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using HR = mpact::sim::generic::CoreDebugInterface::HaltReason;
struct Sim : RenodeDebugInterface {
  MemoryInterface* m;
  int steps = 0, stop_at = -1;
  uint32_t reason = (uint32_t)HR::kNone;
  void Store() {
    DataBufferFactory f;
    DataBuffer* db = f.Allocate<uint8_t>(1);
    db->Set<uint8_t>(0, 1);
    m->Store(0, db);
    db->DecRef();
  }
  absl::StatusOr<uint64_t> LoadExecutable(const char*, bool) override { return 0; }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t) override { return 0; }
  absl::Status WriteRegister(uint32_t, uint64_t) override { return absl::OkStatus(); }
  int32_t GetRenodeRegisterInfoSize() const override { return 0; }
  absl::Status GetRenodeRegisterInfo(int32_t, int32_t, char*, RenodeCpuRegister&) override { return absl::OkStatus(); }
  absl::Status SetConfig(const char*[], const char*[], int) override { return absl::OkStatus(); }
  absl::Status SetIrqValue(int32_t, bool) override { return absl::OkStatus(); }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t n) override { return n; }
  absl::StatusOr<size_t> WriteMemory(uint64_t, const void*, size_t n) override { return n; }
  absl::StatusOr<int> Step(int n) override {
    reason = (uint32_t)HR::kUserRequest;
    if (++steps != stop_at) return n;
    reason = (uint32_t)HR::kSoftwareBreakpoint;
    return 7;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return reason; }
};
Sim* last;
RenodeDebugInterface* CreateMpactSim(std::string, std::string, MemoryInterface* m) {
  last = new Sim;
  last->m = m;
  return last;
}
int writes[2];
int32_t Wr0(uint64_t, char*, int32_t n) { writes[0]++; return n; }
int32_t Wr1(uint64_t, char*, int32_t n) { writes[1]++; return n; }
int32_t Rd0(uint64_t, char*, int32_t n) { return n; }
char cpu[] = "cpu";
"""

seed("S35", "C30", [("util/renode/renode_mpact.cc",
"""    if (!mem_access->has_write_fcn()) {""",
"""    if (!mem_access->has_read_fcn() || !mem_access->has_write_fcn()) {""")],
 "an instance with only a write callback is connected to without callbacks",
 "connecting to an instance without a read callback replaces its write callback",
FAKE_SIM + r"""
int main() {
  int id = construct_with_sysbus(cpu, 8, nullptr, Wr0);
  last->Store();
  connect(cpu, id, 8);
  last->Store();
  connect_with_sysbus(cpu, id, 8, nullptr, Wr1);
  last->Store();
  return writes[0] == 3 && writes[1] == 0 ? 0 : 1;
}
""", ["util/renode/renode_mpact.cc", "util/renode/renode_memory_access.cc"], shim="arch")

seed("S36", "C30", [("util/renode/renode_mpact.cc",
"""        *status = static_cast<int32_t>(ExecutionResult::kStoppedAtBreakpoint);
      }
      return total_executed;""",
"""        *status = static_cast<int32_t>(ExecutionResult::kStoppedAtBreakpoint);
      }
      return num_executed;""")],
 "a step of more than 2^31 instructions stops at a breakpoint after the first 2^31 - 1",
 "the instructions executed before are not counted",
FAKE_SIM + r"""
int main() {
  int id = construct(cpu, 8);
  int32_t st;
  last->stop_at = 2;
  uint64_t n = step(id, 3000000000ull, &st);
  return st == 3 && n == 2147483647ull + 7 ? 0 : 1;
}
""", ["util/renode/renode_mpact.cc", "util/renode/renode_memory_access.cc"], shim="arch")

ELF_DEMO = r"""
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <unistd.h>
#include <vector>
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
using namespace mpact::sim::util;
using namespace mpact::sim::generic;
struct Seg { uint32_t type, flags; uint64_t vaddr, memsz; std::string data; };
void Put(std::string& s, uint64_t v, int n) { for (int i = 0; i < n; i++) s += char(v >> (8 * i)); }
// Writes a 64 bit ELF file with the segments; its name.
std::string Elf(const std::vector<Seg>& segs) {
  std::string o("\x7f" "ELF\2\1\1", 7), d;
  o.resize(16);
  uint64_t base = 64 + 56 * segs.size();
  Put(o, 2, 2), Put(o, 243, 2), Put(o, 1, 4), Put(o, 0x1000, 8), Put(o, 64, 8), Put(o, 0, 8), Put(o, 0, 4), Put(o, 64, 2);
  Put(o, 56, 2), Put(o, segs.size(), 2), Put(o, 64, 2), Put(o, 0, 2), Put(o, 0, 2);
  for (auto& s : segs) {
    Put(o, s.type, 4), Put(o, s.flags, 4), Put(o, base + d.size(), 8), Put(o, s.vaddr, 8), Put(o, 0, 8);
    Put(o, s.data.size(), 8), Put(o, s.memsz, 8), Put(o, 1, 8);
    d += s.data;
  }
  o += d;
  std::string n = std::string(getenv("T")) + "/demo.elf";
  FILE* f = fopen(n.c_str(), "wb");
  fwrite(o.data(), 1, o.size(), f);
  fclose(f);
  return n;
}
struct Mem : MemoryInterface {
  std::map<uint64_t, int> w;
  void Store(uint64_t a, DataBuffer* db) override { for (unsigned i = 0; i < db->size<uint8_t>(); i++) w[a + i]++; }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
};
struct Dbg : CoreDebugInterface {
  absl::Status No() { return absl::InternalError("no"); }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t k) override { return a == 0x2000 ? k - 1 : k; }
  absl::Status Halt() override { return No(); }
  absl::Status Halt(HaltReason) override { return No(); }
  absl::Status Halt(HaltReasonValueType) override { return No(); }
  absl::StatusOr<int> Step(int) override { return No(); }
  absl::Status Run() override { return No(); }
  absl::Status Wait() override { return No(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return No(); }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return No(); }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return No(); }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return No(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return No(); }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { return No(); }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearAllSwBreakpoints() override { return No(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return No(); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return No(); }
};
"""

seed("S37", "C31", [("util/program_loader/elf_program_loader.cc",
"""    if (!res.ok() || (res.value() != segment->get_file_size())) {""",
"""    if (!res.ok() || (res.value() == 0)) {""")],
 "the simulator writes only part of a segment to its memory",
 "loading reports success though a part of the program is missing",
ELF_DEMO + r"""
int main() {
  Dbg dbg;
  ElfProgramLoader l(&dbg);
  bool ok = l.LoadProgram(Elf({{1, 5, 0x1000, 4, "code"}})).ok();
  ElfProgramLoader k(&dbg);
  bool bad = k.LoadProgram(Elf({{1, 5, 0x1000, 4, "code"}, {1, 6, 0x2000, 4, "data"}})).ok();
  return ok && !bad ? 0 : 1;
}
""", ["util/program_loader/elf_program_loader.cc"], shim="arch")

seed("S38", "C31", [("util/program_loader/elf_program_loader.cc",
"""              memory.memory->Store(dest_addr, db);
            }
            break;""",
"""              memory.memory->Store(dest_addr, db);
              break;
            }""")],
 "two memory descriptors accept a segment, and the first has an address function",
 "the segment is also written to the second memory",
ELF_DEMO + r"""
int main() {
  Mem a, b;
  std::vector<MemoryDescriptor> md;
  md.push_back({&a, [](const ELFIO::segment& s) { return (s.get_flags() & 1) != 0; }, [](uint64_t x) { return x - 0x1000; }});
  md.push_back({&b, [](const ELFIO::segment&) { return true; }, nullptr});
  ElfProgramLoader l(md);
  bool ok = l.LoadProgram(Elf({{1, 5, 0x1000, 4, "code"}, {1, 6, 0x2000, 4, "data"}})).ok();
  return ok && a.w.size() == 4 && a.w.count(0) && b.w.size() == 4 && b.w.count(0x2000) ? 0 : 1;
}
""", ["util/program_loader/elf_program_loader.cc"], shim="arch")

PROF = r"""
#include "mpact/sim/util/other/instruction_profiler.h"
std::string Profile(const std::vector<Seg>& segs, const std::vector<uint64_t>& samples) {
  Mem m;
  ElfProgramLoader l(&m);
  if (!l.LoadProgram(Elf(segs)).ok()) abort();
  InstructionProfiler p(l, 4);
  for (uint64_t s : samples) p.SetValue(s);
  std::ostringstream os;
  p.WriteProfile(os);
  return os.str();
}
"""

seed("S39", "C32", [("util/other/instruction_profiler.cc",
"""      end = vaddr_begin + size;
      continue;
    }
    // Otherwise""",
"""      end += size;
      continue;
    }
    // Otherwise""")],
 "two code segments with a small gap between them; an instruction at the end of the second",
 "samples at the end of the second segment are lost",
ELF_DEMO + PROF + r"""
int main() {
  std::string s = Profile({{1, 5, 0x1000, 0x100, "x"}, {1, 5, 0x1200, 0x100, "x"}}, {0x1000, 0x12f0, 0x12f0});
  return s == "Address,Count\n0x1000,1\n0x12f0,2\n" ? 0 : 1;
}
""", ["util/program_loader/elf_program_loader.cc", "util/other/instruction_profiler.cc"], shim="arch")

seed("S40", "C32", [("util/other/instruction_profiler.cc",
"""    if ((segment->get_flags() & ELFIO::PF_X) == 0) continue;""",
"""    if ((segment->get_flags() & (ELFIO::PF_X | ELFIO::PF_W)) != ELFIO::PF_X) {
      continue;
    }""")],
 "a program with a segment that is writable and executable",
 "instructions in such segments are not profiled",
ELF_DEMO + PROF + r"""
int main() {
  std::string s = Profile({{1, 7, 0x1000, 0x100, "x"}, {1, 5, 0x8000, 0x100, "x"}}, {0x1004, 0x8000});
  return s == "Address,Count\n0x1004,1\n0x8000,1\n" ? 0 : 1;
}
""", ["util/program_loader/elf_program_loader.cc", "util/other/instruction_profiler.cc"], shim="arch")

GDB_DEMO = r"""
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"
using namespace mpact::sim::generic;
struct Core : CoreDebugInterface {
  uint8_t mem[16] = {};
  uint64_t pc = 0x1000;
  int runs = 0, steps = 0;
  HaltReasonValueType reason = 0;
  absl::Status Halt() override { return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
  absl::StatusOr<int> Step(int n) override { steps += n; return n; }
  absl::Status Run() override { runs++; return absl::OkStatus(); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return RunStatus::kHalted; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return reason; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return pc; }
  absl::Status WriteRegister(const std::string&, uint64_t v) override { pc = v; return absl::OkStatus(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return absl::NotFoundError(""); }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    if (a < 0x1000 || a >= 0x1010) return absl::NotFoundError("");
    if (n > 0x1010 - a) n = 0x1010 - a;
    memcpy(b, mem + (a - 0x1000), n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    if (a < 0x1000 || a >= 0x1010) return absl::NotFoundError("");
    if (n > 0x1010 - a) n = 0x1010 - a;
    memcpy(mem + (a - 0x1000), b, n);
    return n;
  }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearAllSwBreakpoints() override { return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return absl::NotFoundError(""); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return absl::NotFoundError(""); }
};
struct Info : DebugInfo {
  DebugRegisterMap map{{0, "pc"}};
  const DebugRegisterMap& debug_register_map() const override { return map; }
  int GetFirstGpr() const override { return 0; }
  int GetLastGpr() const override { return 0; }
  int GetPcRegister() const override { return 0; }
  int GetGprWidth() const override { return 64; }
  int GetPcWidth() const override { return 64; }
  int GetRegisterByteWidth(int) const override { return 8; }
  std::string_view GetGdbTargetXml() const override { return "<reg regnum=\"0\" bitsize=\"64\"/>"; }
  std::string_view GetLLDBHostInfo() const override { return ""; }
};
int fd = -1;
Core core;
bool ReadByte(char* c) { return read(fd, c, 1) == 1; }
std::string Packet(const std::string& b) {
  uint8_t sum = 0;
  for (char c : b) sum += c;
  char t[4];
  snprintf(t, sizeof t, "#%02x", sum);
  return "$" + b + t;
}
void Send(const std::string& s) { (void)!write(fd, s.data(), s.size()); }
// The next packet from the server, or "?" if there is none.
std::string Receive() {
  char c;
  do if (!ReadByte(&c)) return "?"; while (c != '$');
  std::string r;
  while (ReadByte(&c) && c != '#') r += c;
  if (!ReadByte(&c) || !ReadByte(&c)) return "?";
  return r;
}
std::string Cmd(const std::string& b) {
  Send(Packet(b));
  std::string r = Receive();
  if (r != "?") Send("+");
  return r;
}
int Session();
int main() {
  std::vector<CoreDebugInterface*> cores{&core};
  Info info;
  mpact::sim::util::gdbserver::GdbServer server(absl::MakeSpan(cores), info);
  bool over = false;
  int port = 20000 + getpid() % 20000;
  std::thread t([&] { server.Connect(port); over = true; });
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  for (int i = 0; i < 200; i++) {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    timeval tv{5, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    if (connect(fd, (sockaddr*)&a, sizeof a) == 0) break;
    close(fd);
    fd = -1;
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
  }
  if (fd < 0) return 2;
  Send("+");
  int r = Session();
  close(fd);
  t.join();
  return r;
}
"""
GDBS = ["util/gdbserver/gdbserver.cc"]

seed("S41", "C33", [("util/gdbserver/gdbserver.cc",
"""  // Verify the checksum.
  uint8_t checksum = 0;
  for (char c : command_str) {""",
"""  // Verify the checksum.
  uint8_t checksum = 0;
  for (char c : UnescapeCommand(command_str)) {""")],
 "a packet with escaped characters",
 "the checksum is verified against the unescaped packet, so that packets with escapes are rejected for ever",
GDB_DEMO + r"""
int Session() {
  if (Cmd("M1000,2:0a0b") != "OK") return 1;
  // The same with an escaped comma.
  Send(Packet(std::string("m1000}") + char(',' ^ 0x20) + "2"));
  char c;
  if (!ReadByte(&c) || c != '+') return 1;
  std::string r = Receive();
  Send("+");
  return r == "0a0b" ? 0 : 1;
}
""", GDBS, shim="arch")

seed("S42", "C33", [("util/gdbserver/gdbserver.cc",
"""  for (int i = 0; i < result.value(); ++i) {
    absl::StrAppend(&response, absl::Hex(buffer_[i], absl::kZeroPad2));""",
"""  for (uint64_t i = 0; i < length; ++i) {
    absl::StrAppend(&response, absl::Hex(buffer_[i], absl::kZeroPad2));""")],
 "a read that reaches beyond the end of the memory",
 "bytes that the core did not read are returned as memory contents",
GDB_DEMO + r"""
int Session() {
  if (Cmd("M100e,2:0a0b") != "OK") return 1;
  return Cmd("m100e,4") == "0a0b" ? 0 : 1;
}
""", GDBS, shim="arch")

seed("S43", "C33", [("util/gdbserver/gdbserver.cc",
"""  halt_reasons_[0] = result.value();
  std::string halt_reason_str;""",
"""  std::string halt_reason_str;""")],
 "a continue to the end of the program, and another one",
 "a program that is done is run again",
GDB_DEMO + r"""
int Session() {
  core.reason = static_cast<uint32_t>(CoreDebugInterface::HaltReason::kProgramDone);
  if (Cmd("c").substr(0, 3) != "W00") return 1;
  Cmd("c");
  return core.runs == 1 ? 0 : 1;
}
""", GDBS, shim="arch")

seed("S44", "C33", [("util/gdbserver/gdbserver.cc",
"""    if (no_ack_mode_) break;
    ack = is_->get();
    if (ack == '+') break;""",
"""    if (no_ack_mode_latch_) break;
    ack = is_->get();
    if (ack == '+') break;"""),
("util/gdbserver/gdbserver.cc",
"""  if (!no_ack_mode_ && (ack != '+')) {""",
"""  if (!no_ack_mode_latch_ && (ack != '+')) {""")],
 "a client that acknowledges the reply to QStartNoAckMode, as the protocol demands",
 "the acknowledgement is taken for the start of the next packet and the session ends",
GDB_DEMO + r"""
int Session() {
  if (Cmd("QStartNoAckMode") != "OK") return 1;
  Send(Packet("qC"));
  return Receive() == "QC1" ? 0 : 1;
}
""", GDBS, shim="arch")

ASM_DEMO = r"""
#include <cstring>
#include <sstream>
#include "mpact/sim/util/asm/simple_assembler.h"
using namespace mpact::sim::util::assembler;
// nop: 2 bytes; ref X: 8 bytes with one relocation.
struct Enc : OpcodeAssemblerInterface {
  absl::StatusOr<size_t> Encode(uint64_t address, absl::string_view text, AddSymbolCallback add, ResolverInterface* r,
                                std::vector<uint8_t>& bytes, std::vector<RelocationInfo>& relo) override {
    std::string t(text);
    size_t k = t.find(':');
    if (k != std::string::npos) {
      auto s = add(t.substr(0, k), address, 0, 0, 0, 0);
      if (!s.ok()) return s;
      t = t.substr(k + 1);
    }
    std::istringstream in(t);
    std::string op, x;
    in >> op >> x;
    if (op == "nop") {
      bytes = {1, 0};
      return 2;
    }
    auto v = r->Resolve(x);
    if (!v.ok()) return v.status();
    for (int i = 0; i < 8; i++) bytes.push_back(*v >> 8 * i);
    relo.emplace_back(0, x, 7, 0, 0);
    return 8;
  }
};
Enc enc;
struct Sym {
  std::string name;
  ELFIO::Elf64_Addr value = ~0ull;
  ELFIO::Elf_Xword size;
  unsigned char bind, type, other;
  ELFIO::Elf_Half sec;
};
Sym Get(SimpleAssembler& a, unsigned i) {
  Sym s;
  ELFIO::symbol_section_accessor acc(a.writer(), a.symtab());
  acc.get_symbol(i, s.name, s.value, s.size, s.bind, s.type, s.sec, s.other);
  return s;
}
uint64_t Value(SimpleAssembler& a, const std::string& n) {
  for (unsigned i = 0; i < a.symtab()->get_size() / a.symtab()->get_entry_size(); i++)
    if (Get(a, i).name == n) return Get(a, i).value;
  return ~0ull;
}
"""
ASMS = ["util/asm/simple_assembler.cc", "util/asm/resolver.cc"]

seed("S45", "C34", [("util/asm/simple_assembler.cc",
"""  symbol_indices_.clear();
  if (elf_file_class_""",
"""  if (elf_file_class_""")],
 "a relocatable file whose source declares global a label that comes before a local one",
 "references and relocations name the symbol that had the place in the table before the local ones were moved to the front",
ASM_DEMO + r"""
int main() {
  SimpleAssembler a(";", ELFIO::ELFCLASS64, &enc);
  std::istringstream in(" .text\n .global f\nf: nop\ng: nop\n ref g\n ref f\n");
  if (!a.Parse(in).ok() || !a.CreateRelocatable().ok()) return 1;
  auto* r = a.writer().sections[std::string(".rela.text")];
  if (!r || r->get_size() != 48) return 1;
  uint64_t v, w;
  memcpy(&v, r->get_data() + 8, 8), memcpy(&w, r->get_data() + 32, 8);
  return Get(a, v >> 32).name == "g" && Get(a, w >> 32).name == "f" ? 0 : 1;
}
""", ASMS, shim="arch")

seed("S46", "C34", [("util/asm/simple_assembler.cc",
"""    uint64_t bss_align = bss_section_->get_addr_align() - 1;""",
"""    // Both sections of the segment have the same alignment.
    uint64_t bss_align = data_section_->get_addr_align() - 1;""")],
 ".bss has an .align directive with more than the default alignment, and .data does not",
 "symbols in .bss are not aligned in the executable, though the source asks for it",
ASM_DEMO + r"""
int main() {
  SimpleAssembler a(";", ELFIO::ELFCLASS64, &enc);
  std::istringstream in(" .text\nmain: nop\n .data\n .bytes 1\n .bss\n .space 4\n .align 64\nbuf: .space 8\n");
  if (!a.Parse(in).ok() || !a.CreateExecutable(0x1000, "main").ok()) return 1;
  return Value(a, "buf") % 64 == 0 ? 0 : 1;
}
""", ASMS, shim="arch")

seed("S47", "C34", [("util/asm/simple_assembler.cc",
"""    size = 0;
    for (auto const& value : values) {
      for (auto const& c : value) byte_values.push_back(c);
      byte_values.push_back('\\0');
      size += value.size() + 1;
    }""",
"""    // The terminator.
    size = 1;
    for (auto const& value : values) {
      for (auto const& c : value) byte_values.push_back(c);
      byte_values.push_back('\\0');
      size += value.size();
    }""")],
 "a .cstring directive with more than one string, and a label after it",
 "the labels that follow have the wrong address",
ASM_DEMO + r"""
int main() {
  SimpleAssembler a(";", ELFIO::ELFCLASS64, &enc);
  std::istringstream in(" .data\n .cstring \"ab\", \"c\"\nend: .bytes 1\n");
  if (!a.Parse(in).ok() || !a.CreateRelocatable().ok()) return 1;
  return Value(a, "end") == 5 ? 0 : 1;
}
""", ASMS, shim="arch")

seed("S48", "C34", [("util/asm/simple_assembler.cc",
"""  return CreateExecutable(base_address, absl::StrCat(entry_point),""",
"""  return CreateExecutable(base_address,
                          absl::StrCat(static_cast<int64_t>(entry_point)),""")],
 "an entry point given as an address in the upper half of the 64 bit address space",
 "the executable is refused",
ASM_DEMO + r"""
int main() {
  SimpleAssembler a(";", ELFIO::ELFCLASS64, &enc);
  std::istringstream in(" .text\nmain: nop\n");
  uint64_t at = 0xffffffff80000000;
  if (!a.Parse(in).ok() || !a.CreateExecutable(at, at).ok()) return 1;
  return a.writer().get_entry() == at ? 0 : 1;
}
""", ASMS, shim="arch")

seed("S49", "C34", [("util/asm/simple_assembler.cc",
"""  } else if (match == "bss") {
    // .bss
    SetBssSection(".bss");""",
"""  } else if (match == "bss") {
    // .bss
    SetBssSection(".bss");
    if (!label.empty()) section = bss_section_;""")],
 "a label in front of a .bss directive that changes the section",
 "the label is placed in the new section instead of the one it is defined in",
ASM_DEMO + r"""
int main() {
  SimpleAssembler a(";", ELFIO::ELFCLASS64, &enc);
  std::istringstream in(" .text\nmain: nop\netext: .bss\n .space 4\n");
  if (!a.Parse(in).ok() || !a.CreateExecutable(0x1000, "main").ok()) return 1;
  return Value(a, "etext") == 0x1002 ? 0 : 1;
}
""", ASMS, shim="arch")
